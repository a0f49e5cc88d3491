"""C26: arguments outside the documented domain are refused; those on its boundary are not."""
import itertools

import numpy as np
from tftb import generators as g
from tftb import processing as p
from tftb.processing import ambiguity, linear, reassigned
from tftb.processing.affine import AffineDistribution
from tftb.processing.cohen import smoothed_pseudo_wigner_ville
from tftb.processing.postprocessing import renyi_information, ridges

from mc.core import Space
from mc.signals import sig, window

ERR = (TypeError, ValueError, AssertionError)
FN = {k: getattr(g, k) for k in g.__all__}


def judge(ctx, ok, fn, a, k, what):
    if ok:
        r = ctx.call(fn, *a, **k)
        ctx.true(r is not None, "%s: accepted, but nothing came back", what)
        ctx.outcomes.add("accepted")
    else:
        ctx.rejects(lambda: fn(*a, **k), ERR, what)


def points(ctx, fn, n, rest):
    judge(ctx, n > 0, FN[fn], [n] + rest, {}, "%s of %s points" % (fn, n))


def freq(ctx, fn, n, f, t0=None):
    kw = {} if t0 is None else dict(t0=t0)
    judge(ctx, abs(f) <= 0.5, FN[fn], [n, f], kw, "%s at frequency %s" % (fn, f))


def linear_(ctx, n, a, b):
    judge(ctx, abs(a) <= 0.5 and abs(b) <= 0.5, g.fmlin, [n, a, b], {}, "fmlin from %s to %s" % (a, b))


def law(ctx, vals, t0, shape):
    v = np.array(vals, float)
    ok = (np.abs(v) <= 0.5).all() and 1 <= t0 <= len(v)
    if shape == "col":
        v = v.reshape(-1, 1)
    elif shape == "row":
        v = v.reshape(1, -1)
        ok = ok and v.shape[1] == 1
    elif shape == "mat":
        v = np.c_[v, v]
        ok = False
    judge(ctx, ok, g.fmodany, [v, t0], {}, "fmodany of %s law %s with origin %s" % (shape, vals, t0))


def carrier(ctx, fn, n, f):
    judge(ctx, 0 <= f <= 0.5, FN[fn], [n, 3, f], {}, "%s with carrier %s" % (fn, f))


def dop(ctx, n, fs, f0, d, v, t0):
    ok = d > 0 and fs >= 0 and 1 <= t0 <= n and 0 <= f0 <= fs / 2.0 and v >= 0
    judge(ctx, ok, g.doppler, [n, fs, f0, d, v, t0], {}, "doppler(n=%s, fs=%s, f0=%s, d=%s, v=%s, t0=%s)" % (n, fs, f0, d, v, t0))


def wave(ctx, what, arg):
    if what == "klauder":
        judge(ctx, arg[0] > 0 and 0 < arg[2] < 0.5, g.klauder, arg, {}, "klauder%s" % (arg,))
    elif what == "mexhat":
        judge(ctx, 0 <= arg[0] <= 0.5, g.mexhat, arg, {}, "mexhat%s" % (arg,))
    elif what == "gdpower":
        judge(ctx, arg[2] != 0, g.gdpower, arg, {}, "gdpower%s" % (arg,))
    else:
        judge(ctx, arg[0] > 0, g.noisecg, arg, {}, "noisecg%s" % (arg,))


def merge(ctx, sa, sb, r):
    mk = lambda s: np.arange(1.0, 1 + int(np.prod(s))).reshape(s)  # noqa: E731
    r = {"str": "3", "none": None, "list": [1.0], "cplx": 1j}.get(r, r)
    ok = len(sa) == 1 and len(sb) == 1 and type(r) in (int, float)
    judge(ctx, ok, g.sigmerge, [mk(sa), mk(sb), r], {}, "sigmerge of shapes %s, %s at %r" % (sa, sb, r))


ONE_D = {"loctime": p.loctime, "locfreq": p.locfreq, "inst_freq": p.inst_freq, "group_delay": p.group_delay,
         "wide_band": lambda x: ambiguity.wide_band(x, 0.1, 0.4, 6)}


def same(ctx, r, q, what):
    r, q = [v if isinstance(v, tuple) else (v,) for v in (r, q)]
    ctx.true(len(r) == len(q), "%s: as many results", what)
    for a, b in zip(r, q):
        ctx.close(a, b, what, rtol=1e-9)


def vector(ctx, fn, shape, x="d0"):
    x = np.array(sig(x, int(np.prod(shape)))).reshape(shape)
    judge(ctx, len(shape) == 1 or 1 in shape, ONE_D[fn], [x], {}, "%s of an array of shape %s" % (fn, shape))
    if 1 in shape:
        same(ctx, ONE_D[fn](x.copy()), ONE_D[fn](x.ravel().copy()), "%s of a row or column" % fn)


def instants(ctx, shape, N=20):
    t = 2 + np.arange(int(np.prod(shape))).reshape(shape)
    x = np.array(sig("d0", N))
    judge(ctx, len(shape) == 1 or 1 in shape, p.inst_freq, [x, t], {}, "inst_freq at instants of shape %s" % (shape,))
    if 1 in shape:
        same(ctx, p.inst_freq(x, t), p.inst_freq(x, t.ravel()), "inst_freq at a row or column of instants")


WIN = {"spwvd-f": lambda x, h: smoothed_pseudo_wigner_ville(x, fwindow=h),
       "spwvd-t": lambda x, h: smoothed_pseudo_wigner_ville(x, twindow=h),
       "gabor": lambda x, h: linear.gabor(x, 4, 2, h),
       "gabor-critical": lambda x, h: linear.gabor(x, len(x), 1, h),
       "gabor-dense": lambda x, h: linear.gabor(x, len(x), len(x), h),
       "gabor-half": lambda x, h: linear.gabor(x, len(x) // 2 if len(x) % 2 == 0 else len(x), 1, h),
       "gabor-default": lambda x, h: linear.gabor(x, window=h),
       "spwvd-both": lambda x, h: smoothed_pseudo_wigner_ville(x, np.arange(3, 6), 12, np.ones(3), h),
       "spwvd-both-t": lambda x, h: smoothed_pseudo_wigner_ville(x, np.arange(3, 6), 12, h, np.ones(3)),
       "rsp-all": lambda x, h: reassigned.spectrogram(x, np.arange(2, 7), 12, h),
       "rpwv-all": lambda x, h: reassigned.pseudo_wigner_ville(x, np.arange(2, 7), 12, h),
       "rpmh-all": lambda x, h: reassigned.pseudo_margenau_hill(x, np.arange(2, 7), 12, h),
       "rppag-all": lambda x, h: reassigned.pseudo_page(x, np.arange(2, 7), 12, h),
       "rspwv-all": lambda x, h: reassigned.smoothed_pseudo_wigner_ville(x, np.arange(2, 7), 12, np.ones(3), h),
       "rspwv-all-t": lambda x, h: reassigned.smoothed_pseudo_wigner_ville(x, np.arange(2, 7), 12, h, np.ones(3)),
       "rsp": lambda x, h: reassigned.spectrogram(x, window=h),
       "rpwv": lambda x, h: reassigned.pseudo_wigner_ville(x, fwindow=h),
       "rpmh": lambda x, h: reassigned.pseudo_margenau_hill(x, fwindow=h),
       "rppag": lambda x, h: reassigned.pseudo_page(x, fwindow=h),
       "rspwv-f": lambda x, h: reassigned.smoothed_pseudo_wigner_ville(x, fwindow=h),
       "rspwv-t": lambda x, h: reassigned.smoothed_pseudo_wigner_ville(x, twindow=h)}


def windows(ctx, fn, L, kind, N=16):
    judge(ctx, L % 2 == 1, WIN[fn], [np.array(sig("d0", N)), window("%s%d" % (kind, L))], {}, "%s with a window of %d points" % (fn, L))


GRID = {"rsp": lambda x, t: reassigned.spectrogram(x, t),
        "rmsc": lambda x, t: reassigned.morlet_scalogram(x, t),
        "rspwv": lambda x, t: reassigned.smoothed_pseudo_wigner_ville(x, t)}


def regular(ctx, fn, t, N=16):
    ok = len(set(np.diff(t).tolist())) == 1
    judge(ctx, ok, GRID[fn], [np.array(sig("d0", N)), np.array(t)], {}, "%s at instants %s" % (fn, t))


def method(ctx, name):
    v = np.arange(1.0, 7).reshape(3, 2)
    ok = name.lower() in ("rsp", "type1", "rpwv", "rpmh", "rspwv")
    judge(ctx, ok, ridges, [v, np.add.outer(np.arange(3), 1j * np.arange(2))], dict(method=name), "ridges with method %r" % name)


def entropy(ctx, vals, alpha):
    v = np.array(vals, float).reshape(2, 2)
    judge(ctx, not (alpha == 1 and v.min() < 0), renyi_information, [v], dict(alpha=alpha), "Renyi information of order %s of %s" % (alpha, vals))


def base(ctx, n):
    ctx.rejects(lambda: AffineDistribution(np.array(sig("r0", n)), fmin=0.1, fmax=0.4).run(), (NotImplementedError,), "running the abstract affine class")


def bumped(N, start, step, m, i, e):
    """m regular instants with one of them moved."""
    t = [start + step * k for k in range(m)]
    if i is not None:
        t[i] += e
    return t if all(0 <= v < N for v in t) else None


def spaces(tier):
    deep = tier == "thorough"
    am = ("amgauss", "amexpos", "amrect", "amtriang")
    Fr = sorted({s * v for s in (1, -1) for v in (0, 0.25, 0.5, 0.5000001, 0.51, 0.75, 1.0, 2, 0.499999, 1e9, float(np.nextafter(0.5, 1)), 0.5 + 1e-12, float(np.nextafter(0.5, 0)))})
    shapes = [(4,), (6,), (1, 6), (6, 1), (2, 3), (3, 2), (2, 2), (5, 4), (4, 5)] + ([(8, 8), (2, 9), (10, 2)])
    return [
        Space("points", [dict(fn=f, n=n, rest=r) for f in am + ("fmconst",) for n in range(-12, 13) for r in ([], [3.0])
                         if not (f == "fmconst" and r)] +
              [dict(fn=f, n=n, rest=[3.0, s]) for f in am for n in range(-6, 7) for s in (0.5, 4.0)] +
              [dict(fn="fmlin", n=n, rest=r) for n in list(range(-12, 1)) + list(range(2, 12)) for r in ([], [0.1, 0.2], [0.1, 0.2, 2])], points,
              "every number of points from -12"),
        Space("frequency", [dict(fn="fmconst", n=n, f=f, t0=t) for n in (1, 2, 7, 8) for f in Fr for t in (None, 1, 0)], freq, "frequencies in and out"),
        Space("linear", [dict(n=n, a=a, b=b) for n in (2, 7) for a in Fr for b in Fr], linear_, "pairs of frequencies in and out"),
        Space("law", [dict(vals=list(w), t0=t, shape=s) for m in range(1, 5 if deep else 4)
                      for w in itertools.product((0.0, 0.5, -0.5, 0.51, -0.75), repeat=m)
                      for t in range(-2, m + 3) for s in ("flat", "col", "row", "mat")], law, "all laws over five values, origins, shapes"),
        Space("long-law", [dict(vals=[v if k == i else 0.1 * (k % 5) for k in range(m)], t0=t, shape=s) for m in (5, 8, 17, 64) for i in sorted({0, 1, m // 2, m - 2, m - 1})
                           for v in (0.5, -0.5, 0.2, float(np.nextafter(0.5, 1)), -0.5000001, 0.6, -3) for t in (0.5, 0.999, 1, 2, m // 2, m, m + 0.5, m + 1, -m)
                           for s in ("flat", "col", "row")], law, "longer laws with one value on or over the edge"),
        Space("carrier", [dict(fn=f, n=n, f=v) for f in ("anaask", "anabpsk", "anaqpsk") for n in (3, 8, 9, 30, 65) for v in Fr], carrier, "carriers"),
        Space("doppler", [dict(n=n, fs=fs, f0=f, d=d, v=v, t0=t) for n in (4, 5) for fs in (-1.0, 100.0, 3)
                          for f in (-0.1, 0.0, 1.5, 50.0, 50.1, 49.9) for d in (-1.0, 0.0, 1e-3, 10) for v in (-1.0, 0, 5.0)
                          for t in (-1, 0, 0.5, 1, 2.5, n, n + 0.5, n + 1)] +
              [dict(n=n, fs=fs, f0=f, d=d, v=v, t0=t) for n in (1, 2, 16, 65) for fs in (1.0, 7, 8000.0) for f in (0, fs / 2.0, fs / 2.0 + 1e-9, -1e-9, fs / 3.0, fs)
               for d in (1e-9, -1e-9, 5) for v in (-1e-9, 0, 1e-9, 500) for t in (1, 1 - 1e-9, n, n + 1e-9, (n + 1) / 2.0)], dop, "all combinations of valid and invalid parameters"),
        Space("waves", [dict(what="klauder", arg=[n, a, f]) for n in (-1, 0, 2, 3, 8) for a in (3.0, 10) for f in (-0.1, 0.0, 1e-3, 0.25, 0.499, 0.5, 0.6, -1e-9, 1e-9, 0.5 - 1e-9, 0.5 + 1e-9, -0.25, 1)] +
              [dict(what="mexhat", arg=[f]) for f in (-1.0, -0.01, 0.5000001, 0.5, 0.01, 0.6, 3, -1e-9, 0.5 + 1e-12, -0.25, 0.002)] +
              [dict(what="gdpower", arg=[n, k, c]) for n in (4, 9) for k in (0, 0.5, 1, 2, -1) for c in (0, 0.0, -0.0, 1, -1, 1e-9, -1e-9, 250.0)] +
              [dict(what="noisecg", arg=[n]) for n in range(-8, 9)], wave, "wavelets, group delays, noise"),
        Space("merge", [dict(sa=a, sb=b, r=r) for a in ([4], [4, 1], [1, 4], [2, 2]) for b in ([4], [4, 1], [1, 4], [2, 2])
                        for r in (0.0, 3, -2.5, "str", "none", "list", "cplx")], merge, "shapes and ratios"),
        Space("vectors", [dict(fn=f, shape=list(s)) for f in ONE_D for s in shapes + [(2, 3, 2), (12, 12), (1, 32), (33, 1), (2, 64), (64, 2), (3, 40), (40, 3)]
                         if not (f == "wide_band" and np.prod(s) < 5)] +
              [dict(fn=f, shape=list(s), x=x) for f in ONE_D for n in range(5, 30) for s in ((1, n), (n, 1), (n,)) for x in ("d1", "r0")
               if not (x == "r0" and f == "inst_freq")], vector,
              "vectors and matrices"),
        Space("instants", [dict(shape=s) for s in ([3], [3, 1], [1, 3], [2, 2], [3, 4], [4, 3], [2, 8], [8, 2], [1, 14], [14, 1], [2, 3, 2])], instants, "instants"),
        Space("windows", [dict(fn=f, L=L, kind=k) for f in WIN for L in range(1, 34) for k in ("hm", "ga", "rc")] +
              [dict(fn=f, L=L, kind=k, N=N) for f in WIN for N in (8, 9, 32, 40) for L in (1, 2, 3, 4, 7, 8, N - 1, N, N + 1, N + 2, 2 * N, 2 * N + 1)
               for k in ("hn", "as") if not (f in ("gabor", "gabor-default") and N == 9)], windows, "odd and even windows"),
        Space("regular", [dict(fn=f, t=list(t)) for f in GRID for m in (2, 3, 4) for t in itertools.combinations(range(0, 10), m)] +
              [dict(fn=f, t=list(t)[::-1]) for f in GRID for t in itertools.combinations(range(0, 7), 3)] +
              [dict(fn=f, t=t, N=N) for f in GRID for N in (16, 33) for start, step, m in ((1, 1, N - 2), (0, 2, N // 2), (N - 2, -1, N - 3), (N - 1, -3, 5), (2, 3, 5))
               for i, e in [(None, 0)] + [(i, e) for i in sorted({0, 1, m // 2, m - 2, m - 1}) for e in (-1, 1)]
               for t in [bumped(N, start, step, m, i, e)] if t], regular,
              "every choice of up to four instants among ten"),
        Space("methods", [dict(name=m) for m in ("rsp", "RSP", "type1", "Type1", "rpwv", "RPWV", "rpmh", "rspwv", "RSPWV", "type2", "", "rs", "rppag", "wv", "sp", "rspw")],
              method, "kinds"),
        Space("entropy", [dict(vals=list(v), alpha=a) for v in itertools.product((-1, 0, 1, 3), repeat=4) if sum(v) != 0
                          for a in (1, 1.0, 2, 3.0)], entropy, "tables with negative values"),
        Space("abstract", [dict(n=n) for n in (8, 9, 16)], base, "abstract class")]
