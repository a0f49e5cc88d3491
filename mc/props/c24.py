"""C24: Hough transform, Friedman density and ridges."""
import itertools
import math

import numpy as np
from tftb.processing import reassigned
from tftb.processing.postprocessing import friedman_density, hough_transform, ridges

from mc.core import Space
from mc.signals import sig, _dense


def image(spec, a, b):
    if spec[0] == "w":
        return np.array([int(c) for c in spec[1:]], float).reshape(a, b)
    if spec[0] == "e":
        v = np.zeros(a * b)
        v[int(spec[1:])] = 2.0
        return v.reshape(a, b)
    if spec[0] == "f":              # a few bright pixels
        v = np.zeros(a * b)
        v[(np.arange(9) * (7 + 2 * int(spec[1:])) + 3) * 13 % (a * b)] = 1 + np.arange(9)
        return v.reshape(a, b)
    if spec[0] == "m":              # a bright line
        v = np.zeros((a, b))
        v[np.arange(a), (np.arange(a) * (int(spec[1:]) + 1) + 2) % b] = 1.5
        return v
    v = _dense(a * b, int(spec[1:])).reshape(a, b)
    if spec[0] == "g":              # signed, dominated by negative values
        return v - 0.2
    return v + 0.46 if spec[0] == "d" else np.where(v > 0.3, v, 0.01 * v)


def hough(ctx, a, b, v, m=None, n=None):
    im = image(v, a, b)
    kw = {}
    if m is not None:
        kw["m"] = m
    if n is not None:
        kw["n"] = n
    ht, rho, theta = ctx.call(hough_transform, im.copy(), **kw)
    m, n = (a if m is None else m), (b if n is None else n)
    top = math.hypot(a, b) / 2
    dr = top / (m - 1.0)
    ctx.shape(ht, (m, n), "Hough transform")
    ctx.close(rho, [dr * i for i in range(m)], "distance axis", rtol=1e-10)
    ctx.close(theta, [2 * math.pi * j / n for j in range(n)], "angle axis", rtol=1e-10, atol=1e-12)
    lo, hi = np.zeros((m, n)), np.zeros((m, n))
    xc, yc = (a + 1) // 2, (b + 1) // 2
    ii, jj = np.nonzero(np.abs(im) > im.max() / 20.0)
    val = im[ii, jj][:, None]
    th = 2 * np.pi * np.arange(n) / n
    r = (ii + 1 - xc)[:, None] * np.cos(th) - (jj + 1 - yc)[:, None] * np.sin(th)
    low, high = np.floor(r / dr - 1e-7 + 0.5).astype(int), np.floor(r / dr + 1e-7 + 0.5).astype(int)
    live = (r >= -1e-9) & (r <= top + 1e-9)
    sure = (low == high) & (np.abs(r) > 1e-9) & (np.abs(r - top) > 1e-9)
    col, val = np.broadcast_to(np.arange(n), r.shape), np.broadcast_to(val, r.shape)
    pos, neg = np.maximum(val, 0), np.minimum(val, 0)
    for c, w in ((low, live), (high, live & (high != low))):
        w = w & (c >= 0) & (c < m)
        np.add.at(hi, (c[w], col[w]), pos[w])
        np.add.at(lo, (c[w], col[w]), neg[w])
    w = live & sure & (low >= 0) & (low < m)
    np.add.at(lo, (low[w], col[w]), pos[w])
    np.add.at(hi, (low[w], col[w]), neg[w])
    tol = 1e-9 * max(np.abs(im).sum(), 1e-12)
    bad = (ht < lo - tol) | (ht > hi + tol)
    ctx.compared += 1
    if bad.any():
        i = tuple(int(q) for q in np.argwhere(bad)[0])
        ctx.true(False, "accumulator at %s is %s, expected %s to %s", i, ht[i], lo[i], hi[i])
    ctx.see(np.round(ht, 6))


def origin(ctx, a, b, m, n):
    """A point on the axis of angle 0 at distance r is counted at (r, 0)."""
    xc, yc = (a + 1) // 2, (b + 1) // 2
    top = math.hypot(a, b) / 2
    for i in range(xc, a):
        im = np.zeros((a, b))
        im[i, yc - 1] = 3.0
        ht = ctx.call(hough_transform, im, m, n)[0]
        q = (i + 1 - xc) / (top / (m - 1.0))
        if abs(q - math.floor(q) - 0.5) > 1e-6:
            ctx.close(ht[int(round(q)), 0], 3.0, "vote at angle 0", rtol=1e-12)


def field(spec, m, n):
    if spec[0] == "w":
        c = np.array([int(ch) for ch in spec[1:]])
        return (c % m + 1j * (c // m)).reshape(m, n)
    k = int(spec[1:])
    p = np.arange(m * n)
    if spec[0] == "i":            # identity with every k-th cell displaced
        f = np.add.outer(np.arange(m), 1j * np.arange(n)).astype(complex)
        d = ((p * 7 + k) % 3 == 0).reshape(m, n)
        e = ((p * 5 + k) % 4 == 0).reshape(m, n)
        return f + d * ((f.real + 1) % m - f.real) + 1j * e * ((f.imag + 1) % n - f.imag)
    q = (p * p + k) % (m * n)
    return (q % m + 1j * (q // m)).reshape(m, n)


def friedman(ctx, m, n, v, f, real=False):
    tab, fl = image(v, m, n), field(f, m, n)
    if real:
        fl = fl.real
    above = tab > tab.sum() * 0.5 / tab.size
    if not above.any():
        return ctx.skip()
    got = ctx.call(friedman_density, tab.copy(), fl.copy())
    want = np.zeros((m, n))
    i, j = np.nonzero(above)
    np.add.at(want, (fl[i, j].real.astype(int), j), 1)
    ctx.close(got, want / want.sum(), "density", rtol=1e-12)


KIND = {"rpwv": ("real", 2.0), "rpmh": ("real", 2.0), "rspwv": ("both", 2.0), "rsp": ("both", 1.0), "type1": ("both", 1.0)}


def points(tab, fl, how, ts):
    """Cells above half the mean which the field leaves in place."""
    m, n = tab.shape
    which, den = KIND[how]
    thr = tab.sum() * 0.5 / tab.size
    keep = (tab > thr) & (fl.real == np.arange(m)[:, None])
    if which == "both":
        keep = keep & (fl.imag == np.arange(n))
    i, j = np.nonzero(keep)
    return sorted(zip(np.asarray(ts, float)[j].tolist(), (i / (den * m)).tolist()))


def ridge(ctx, m, n, v, f, how=None, ts=None):
    tab, fl = image(v, m, n), field(f, m, n)
    judge(ctx, tab, fl, how, ts)


def judge(ctx, tab, fl, how, ts):
    n = tab.shape[1]
    low = (how or "rsp").lower()
    if KIND[low][0] == "real":
        fl = fl.real
    kw = {}
    if how is not None:
        kw["method"] = how
    if ts is not None:
        kw["timestamps"] = np.array(ts)
    t, fr = ctx.call(ridges, tab.copy(), fl.copy(), **kw)
    ctx.true(len(np.ravel(t)) == len(np.ravel(fr)), "as many times as frequencies")
    got = sorted(zip(np.ravel(t).tolist(), np.ravel(fr).tolist()))
    want = points(tab, fl, low, range(n) if ts is None else ts)
    ctx.close(np.array(got).reshape(-1, 2), np.array(want).reshape(-1, 2), "ridge points", rtol=1e-12)
    ctx.outcomes.add(str(len(want)))


def pipeline(ctx, N, x, n, how, step=1):
    """The field a reassigned representation returns is the field ridges and the density read."""
    s = sig(x, N)
    t = np.arange(0, N, step)
    f = {"rsp": reassigned.spectrogram, "rpwv": reassigned.pseudo_wigner_ville,
         "rspwv": reassigned.smoothed_pseudo_wigner_ville, "rpmh": reassigned.pseudo_margenau_hill}[how]
    tfr, rtfr, fl = ctx.call(f, s.copy(), t.copy(), n)
    tfr, fl = np.real(tfr), np.asarray(fl)
    judge(ctx, tfr, fl, how, t)
    d = ctx.call(friedman_density, tfr.copy(), fl.copy())
    ctx.close(d.sum(), 1.0, "density sums to one", rtol=1e-9)
    above = tfr > tfr.sum() * 0.5 / tfr.size
    ctx.close(d.sum(0), above.sum(0) / float(above.sum()), "density of each column", rtol=1e-9)


def spaces(tier):
    deep = tier == "thorough"
    def words(k, letters):
        return ["w" + "".join(c) for c in itertools.product(letters, repeat=k)]
    sizes = [(a, b) for a in range(1, 9 if deep else 7) for b in range(1, 9 if deep else 7)]
    T22 = words(4, "014")
    return [
        Space("hough-points", [dict(a=a, b=b, v="e%d" % k, m=m, n=n) for a, b in sizes for k in range(a * b)
                               for m, n in ((None, None), (5, 8), (9, 12)) if (m or a) > 1], hough,
              "every single bright pixel of every image size"),
        Space("hough-words", [dict(a=2, b=2, v=v, m=m, n=n) for v in words(4, "019") for m, n in ((None, None), (4, 7))] +
              [dict(a=a, b=5 - a, v=v) for a in (2, 3) for v in words(6, "01" + ("5" if deep else ""))], hough,
              "all small images"),
        Space("hough", [dict(a=a, b=b, v=v, m=m, n=n) for a, b in sizes + [(16, 16), (17, 9), (8, 20)] for v in ("d0", "d1", "s0")
                        for m, n in ((None, None), (2, 4), (7, 16), (20, 31), (7, None), (18, None), (None, 5), (None, 12)) if (m or a) > 1], hough, "dense images"),
        Space("hough-large", [dict(a=a, b=b, v=v, m=m, n=n) for a, b in ((20, 20), (31, 12), (10, 40), (33, 33), (50, 7), (40, 41)) for v in ("s0", "s1", "f3", "m1")
                              for m, n in ((None, None), (3, 5), (64, 16), (17, 100), (101, 33))] +
              [dict(a=a, b=b, v=v) for a, b in ((64, 64), (63, 65), (128, 16), (16, 130)) for v in ("f1", "f5", "m0")], hough,
              "larger images, fine accumulators"),
        Space("hough-axis", [dict(a=a, b=b, m=m, n=n) for a in range(2, 12) for b in range(1, 8) for m in (2, 5, 16) for n in (1, 4, 9)],
              origin, "points on the axis"),
        Space("friedman-words", [dict(m=2, n=2, v=v, f=f) for v in T22 for f in words(4, "0123")] +
              [dict(m=3, n=1, v=v, f=f, real=True) for v in words(3, "014") for f in words(3, "012")], friedman,
              "all 2 x 2 tables and fields"),
        Space("ridge-words", [dict(m=2, n=2, v=v, f=f, how=h) for v in T22 for f in words(4, "0123")
                              for h in ("rsp", "rpwv", "rspwv")], ridge, "all 2 x 2 tables and fields, each kind"),
        Space("friedman", [dict(m=m, n=n, v=v, f=f, real=r) for m in range(1, 12) for n in range(1, 9) for v in ("d0", "d1", "s0")
                           for f in ("i0", "i1", "q0", "q3") for r in (False, True)], friedman, "larger tables"),
        Space("ridge", [dict(m=m, n=n, v=v, f=f, how=h, ts=ts) for m in range(1, 10) for n in range(1, 8) for v in ("d0", "s0")
                        for f in ("i0", "i1", "q3") for h in (None, "RSP", "type1", "Type1", "rpwv", "RPMH", "rpmh", "rspwv")
                        for ts in (None, list(range(5, 5 + 2 * n, 2)), [k * k + 2 for k in range(n)])], ridge, "larger tables, every kind, selected instants"),
        Space("friedman-large", [dict(m=m, n=n, v=v, f=f, real=r) for m, n in ((127, 5), (128, 3), (129, 4), (200, 9), (256, 30), (257, 2), (512, 3), (20, 300), (1025, 2), (64, 64))
                                 for v in ("d0", "d2", "s1", "g0", "f2") for f in ("i0", "i3", "q0", "q3", "q17") for r in (False, True)], friedman, "tall and wide tables"),
        Space("ridge-large", [dict(m=m, n=n, v=v, f=f, how=h, ts=ts) for m, n in ((127, 5), (128, 3), (129, 4), (200, 9), (256, 30), (257, 2), (512, 3), (20, 300), (1025, 2), (64, 64))
                              for v in ("d0", "s1", "g0", "f2") for f in ("i0", "i3", "q3") for h in (None, "rsp", "type1", "rpwv", "rpmh", "rspwv")
                              for ts in (None, list(range(n))[::-1], [k * 7 + 1 for k in range(n)], [k * k // 3 + k for k in range(n)], [0.5 * k for k in range(n)])], ridge,
              "tall and wide tables, every kind, instants in any order"),
        Space("pipeline", [dict(N=N, x=x, n=n, how=h, step=st) for N in (16, 17, 32, 50, 64) for x in ("ch", "g:%d" % (N // 2), "d0", "t:5", "r0")
                           for n in (N, N + 1, N // 2, 150) for h in ("rsp", "rpwv", "rspwv", "rpmh") for st in (1, 2, 3)], pipeline,
              "on the fields of the real reassigned representations")]
