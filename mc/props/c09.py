"""C09: reassignment moves every value to its local centroid, and loses nothing."""
import numpy as np
from tftb.processing import reassigned_spectrogram, reassigned_smoothed_pseudo_wigner_ville
from tftb.processing import reassigned as R

from mc import model
from mc.core import Space, Violation
from mc.signals import sig, words, polar, impulses, window, hamming_default

EPS = 1e-6


def off(got, want, wrap, noise):
    """Cells whose integer destination is not `want` rounded, up to floating point (wrap: how the grid folds it)."""
    tol = EPS * (1 + np.abs(want)) + noise
    return np.logical_and.reduce([got != wrap(np.round(want + d)) for d in (-tol, 0, tol)])


def first(mask):
    return tuple(int(v) for v in np.argwhere(mask)[0])


def judge(ctx, out, D, dT, dF, power, has_time):
    tfr, rtfr, hat = out
    n, T = D.shape
    scale = max(np.abs(D).max(initial=0), power)
    ctx.close(tfr, D, "distribution before reassignment", scale=scale)
    ctx.shape(rtfr, D.shape, "reassigned distribution")
    ctx.shape(hat, D.shape, "reassignment field")
    tfr, rtfr, hat = np.real(tfr), np.asarray(rtfr), np.asarray(hat)
    thr = 1e-6 * power
    v = np.abs(D)
    stay = v <= thr * (1 + EPS) + 1e-13 * scale
    move = (v >= thr * (1 - EPS) - 1e-13 * scale) & (v > 0)
    K, I = np.meshgrid(np.arange(n), np.arange(T), indexing="ij")
    kept = ~np.isfinite(np.real(hat))
    ctx.compared += v.size
    bad = kept & ~stay
    if bad.any():
        raise Violation("cell %s of value %g is marked as not reassigned" % (first(bad), D[first(bad)]))
    bad = ~kept & ~move
    if bad.any():
        raise Violation("cell %s of negligible value %g was moved to %s" % (first(bad), D[first(bad)], hat[first(bad)]))
    kh = np.where(kept, K, np.real(hat))
    ih = np.where(kept, I, np.imag(hat)) if has_time else I
    bad = (kh != np.round(kh)) | (ih != np.round(ih)) | (kh < 0) | (kh >= n) | (ih < 0) | (ih >= T)
    if bad.any():
        raise Violation("cell %s is sent to %s, outside the grid" % (first(bad), hat[first(bad)]))
    # a cell barely above the noise has no reliable centroid
    sure = ~kept & (v > 1e-8 * scale)
    noise = np.where(sure, 1e-14 * max(n, T) * scale / np.where(sure, v, 1), 0)
    wf, wt = np.where(sure, K + dF, 0), np.where(sure, I + dT, 0)
    bad = sure & off(kh, wf, lambda w: w % n, noise)
    if bad.any():
        raise Violation("cell %s goes to bin %d; its centroid is bin %.6g" % (first(bad), kh[first(bad)], wf[first(bad)]))
    bad = sure & off(ih, wt, lambda w: np.clip(w, 0, T - 1), noise)
    if bad.any():
        raise Violation("cell %s goes to column %d; its centroid is column %.6g" % (first(bad), ih[first(bad)], wt[first(bad)]))
    want = np.zeros((n, T))
    np.add.at(want, (kh.astype(int), ih.astype(int)), tfr)
    ctx.close(np.real(rtfr), want, "reassigned distribution", scale=scale * max(1, n))
    ctx.close(np.imag(rtfr), np.zeros((n, T)), "imaginary part of the reassigned distribution", atol=1e-12 * scale)
    ctx.close(np.real(rtfr).sum(), D.sum(), "total energy after reassignment", scale=np.abs(D).sum())
    ctx.see(np.nan_to_num(hat, posinf=-1))


def times(N, spec):
    """None: all; [a, b, st]: every st-th from a, leaving b at the end (st < 0: backwards); [list]: these."""
    if spec is None:
        return list(range(N))
    if isinstance(spec[0], list):
        return list(spec[0])
    a, b, st = spec
    return list(range(a, N - b, st)) if st > 0 else list(range(N - 1 - b, a - 1, st))


def power(s, ts, sub):
    p = np.abs(s) ** 2
    return float(p[min(ts):max(ts) + 1].mean() if sub else p.mean())


def rsp(ctx, N, n, x, h, ts=None):
    s = sig(x, N)
    tt = times(N, ts)
    kw = {}
    if ts is not None:
        kw["time_samples"] = np.array(tt)
    if n is not None:
        kw["n_fbins"] = n
    if h is not None:
        kw["window"] = window(h)
    nf = N if n is None else n
    hw = hamming_default(N) if h is None else window(h)
    out = ctx.call(reassigned_spectrogram, s.copy(), **kw)
    judge(ctx, out, *model.reassign_spectrogram(s, tt, nf, hw), power(s, tt, True), True)


def rspwv(ctx, N, n, x, g, h, ts=None):
    s = sig(x, N)
    tt = times(N, ts)
    kw = {}
    if ts is not None:
        kw["timestamps"] = np.array(tt)
    if n is not None:
        kw["n_fbins"] = n
    nf = N if n is None else n
    hw, gw = hamming_default(nf), hamming_default(nf)
    if h is not None:
        hw = kw["fwindow"] = window(h) / window(h)[len(window(h)) // 2]
    if g is not None:
        gw = kw["twindow"] = window(g)
    out = ctx.call(reassigned_smoothed_pseudo_wigner_ville, s.copy(), **kw)
    judge(ctx, out, *model.reassign_spwv(s, tt, nf, gw, hw), power(s, tt, False), True)


def one(ctx, which, N, n, x, h, ts=None):
    s = sig(x, N)
    tt = times(N, ts)
    kw = {}
    if ts is not None:
        kw["timestamps"] = np.array(tt)
    if n is not None:
        kw["n_fbins"] = n
    nf = N if n is None else n
    hw = hamming_default(nf)
    if h is not None:
        hw = kw["fwindow"] = window(h)
    f = {"pwv": R.pseudo_wigner_ville, "pmh": R.pseudo_margenau_hill, "page": R.pseudo_page}[which]
    out = ctx.call(f, s.copy(), **kw)
    m = model.reassign_pwv(s, tt, nf, hw) if which == "pwv" else \
        model.reassign_pmh(s, tt, nf, hw, page=which == "page")
    judge(ctx, out, *m, power(s, tt, which == "pwv"), False)


def morlet(ctx, N, n, x, tbp=None, ts=None):
    s = sig(x, N)
    tt = times(N, ts)
    kw = {}
    if ts is not None:
        kw["timestamps"] = np.array(tt)
    if n is not None:
        kw["n_fbins"] = n
    if tbp is not None:
        kw["tbp"] = tbp
    out = ctx.call(R.morlet_scalogram, s.copy(), **kw)
    judge(ctx, out, *model.reassign_morlet(s, tt, N if n is None else n, 0.25 if tbp is None else tbp),
          power(s, tt, False), True)


def spaces(tier):
    deep = tier == "thorough"
    T = [None, [0, 0, 2], [1, 0, 1], [1, 1, 2], [0, 0, 3], [0, 0, -1], [0, 1, -2], [2, 0, 1], [0, 3, 1]]
    T2 = [None, [0, 0, 2], [0, 0, -1]]
    H = [None, "hm5", "as7", "hm31", "ng5", "as5*-2", "vr9"]
    X = ["d0", "r0", "ch", "i0", "j0", "n0", "c", "a", "s", "v0", "d0*1e-8", "d1*1e8", "z", "d1*1e-60"]
    lens = list(range(2, 66 if deep else 34))
    big = [40, 63, 64, 65, 100, 127, 128, 129] + ([200, 255, 256, 257, 300] if deep else [])

    def binsof(N):
        return (None, max(2, N // 2), max(2, N // 2 + 1), N + 1, 2 * N, 2)

    def ok(N, ts, least):
        return len(times(N, ts)) >= least

    irr = [[[0, 0]], [[3, 1, 2]], [[0, 1, 4, 5, 5]], [[5, 0, 3, 3]], [[2]], [[5]]]
    sp = [
        Space("rsp-words", (dict(N=N, n=n, x=w, h=h) for N in range(2, 5 if deep else 4) for n in (None, 3, 4, 7)
                            for h in (None, "hm3", "as5", "ng3", "cx5") for w in words(N)), rsp, "all short words"),
        Space("rsp-pairs", (dict(N=N, n=n, x=x, h=h) for N in (4, 6, 7) + ((8,) if deep else ()) for n in (4, 7, 8)
                            for h in ("hm3", "as5", "hm9", "cx5") for x in polar(N)), rsp, "impulse pairs"),
        Space("rsp-dense", (dict(N=N, n=n, x=x, h=h, ts=ts) for N in lens for n in binsof(N) for h in H + ["cx5"]
                            for x in X[:4] for ts in T
                            if ok(N, ts, 1) and (N < 12 or (ts in T2 and n not in (2, 2 * N)) or x == "d0")),
              rsp, "dense signals, windows, time grids"),
        Space("rsp-large", (dict(N=N, n=n, x=x, h=h, ts=ts) for N in big for n in (None, N // 2, N + 1, 33) for h in (None, "hm31", "as65", "as7")
                            for x in ("d0", "ch") for ts in (None, [0, 0, 3], [0, 0, -1])), rsp, "long records"),
        Space("rsp-signals", (dict(N=N, n=n, x=x, h=h, ts=ts) for N in (7, 12, 33) for n in (8, 9, 32) for x in X for h in ("hm5", None)
                              for ts in T2), rsp, "kinds of signals, amplitudes"),
        Space("rspwv-words", (dict(N=N, n=n, x=w, g=g, h=h) for N in range(2, 5 if deep else 4) for n in (None, 3, 4)
                              for g, h in ((None, None), ("hm3", "hm5"), ("as3", "as3"), ("ng3", "ng5")) for w in words(N)), rspwv,
              "all short words"),
        Space("rspwv-dense", (dict(N=N, n=n, x=x, g=g, h=h, ts=ts) for N in list(range(2, 26 if deep else 16)) + [24, 32]
                              for n in binsof(N)
                              for g, h in ((None, None), ("hm3", "hm7"), ("as5", "as5"), ("rc1", "hm17"), ("as17", "as3"), ("ng5", "ng7"))
                              for x in ("d0", "ch", "r0") for ts in T
                              if ok(N, ts, 2) and (N < 9 or ts in T2 and n != 2 and (x == "d0" or N < 17))), rspwv, "dense signals"),
        Space("rspwv-large", (dict(N=N, n=n, x=x, g=g, h=h, ts=ts) for N in big[:8 if deep else 5] for n in (None, N // 2, 33)
                              for g, h in ((None, None), ("as5", "as17"), ("as17", "as33")) for x in ("d0",) for ts in (None, [0, 0, 3])),
              rspwv, "long records"),
        Space("rspwv-signals", (dict(N=N, n=n, x=x, g="as3", h=h) for N in (7, 12) for n in (8, 9, 13) for x in X for h in ("as5", None)), rspwv,
              "kinds of signals, amplitudes"),
        Space("rspwv-pairs", (dict(N=N, n=n, x=x, g="hm3", h="as5") for N in (5, 6, 7) for n in (4, 5, 8) for x in polar(N)), rspwv,
              "impulse pairs"),
    ]
    for w in ("pwv", "pmh", "page"):
        sp += [Space("r%s-words" % w, (dict(which=w, N=N, n=n, x=x, h=h) for N in range(1, 5 if deep else 4)
                                       for n in (None, 1, 2, 3, 4) for h in (None, "hm3", "as5", "ng3") for x in words(N)), one,
                     "all short words"),
               Space("r%s-dense" % w, (dict(which=w, N=N, n=n, x=x, h=h, ts=ts) for N in lens for n in binsof(N) + (1,)
                                       for h in H for x in ("d0", "r0", "ch") for ts in T
                                       if ok(N, ts, 1) and (N < 12 or ts in T2 and n not in (1, 2, 2 * N))), one,
                     "dense signals, windows, time grids"),
               Space("r%s-instants" % w, (dict(which=w, N=N, n=n, x=x, h=h, ts=ts) for N in (6, 9) for n in (6, 9, 4) for h in (None, "as5", "as17")
                                          for x in ("d0", "r0") for ts in irr), one, "any list of instants"),
               Space("r%s-large" % w, (dict(which=w, N=N, n=n, x=x, h=h, ts=ts) for N in big for n in (None, N // 2, N + 1, 33)
                                       for h in (None, "as31", "as129") for x in ("d0", "ch") for ts in (None, [0, 0, 3])), one, "long records"),
               Space("r%s-signals" % w, (dict(which=w, N=N, n=n, x=x, h=h) for N in (7, 12, 33) for n in (8, 9, 32) for x in X for h in ("as5", None)),
                     one, "kinds of signals, amplitudes"),
               Space("r%s-pairs" % w, (dict(which=w, N=N, n=n, x=x, h=h) for N in (4, 6, 7) for n in (4, 7, 8)
                                       for h in ("hm3", "as5", "hm9") for x in polar(N)), one, "impulse pairs")]
    sp += [Space("morlet", (dict(N=N, n=n, x=x, tbp=tbp, ts=ts) for N in list(range(2, 24 if deep else 15)) + [24, 32]
                            for n in (None, max(2, N // 2), N + 1) for tbp in (None, 0.5, 0.1, 1.3)
                            for x in ("d0", "ch", "r0", "e:1") for ts in T
                            if ok(N, ts, 2) and (N < 9 or ts in T2)), morlet, "dense signals"),
           Space("morlet-large", (dict(N=N, n=n, x="d0", tbp=tbp, ts=ts) for N in big[:7 if deep else 4] for n in (None, 33, 64)
                                  for tbp in (None, 0.1, 1.3) for ts in (None, [0, 0, 3])), morlet, "long records"),
           Space("rsp-longer", (dict(N=N, n=n, x=x, h=h, ts=ts) for N in (200, 256, 257, 513) for n in (None, 256, 33) for h in (None, "as65")
                                for x in ("d0", "r1") for ts in ([0, 0, 2], [1, 2, -5])), rsp, "longer records"),
           Space("rspwv-longer", (dict(N=N, n=n, x="d0", g=None, h=None, ts=[0, 0, 7]) for N in (128, 200, 257) for n in (None, 40)), rspwv,
                 "longer records"),
           Space("morlet-longer", (dict(N=N, n=n, x="d1", tbp=None, ts=[0, 0, 7]) for N in (128, 200, 257) for n in (None, 40)), morlet,
                 "longer records")]
    sp += [Space("r%s-longer" % w, (dict(which=w, N=N, n=n, x=x, h=h, ts=ts) for N in (200, 256, 257, 513) for n in (None, 256, 33)
                                    for h in (None, "as65") for x in ("d0", "r1") for ts in ([0, 0, 2], [1, 2, -5])), one, "longer records")
           for w in ("pwv", "pmh", "page")]
    sp += [Space("morlet-signals", (dict(N=N, n=n, x=x) for N in (7, 12) for n in (8, 9, 13) for x in X), morlet, "kinds of signals, amplitudes"),
           Space("morlet-impulses", (dict(N=N, n=n, x=x) for N in (6, 9) for n in (5, 6, 9) for x in impulses(N)), morlet, "impulses")]
    return sp
