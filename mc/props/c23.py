"""C23: Renyi information and ideal time-frequency representation."""
import itertools

import numpy as np
from tftb.processing import ideal_tfr, renyi_information

from mc.core import Space
from mc.signals import _dense

AXES = {"none": None, "idx": lambda m: np.arange(m), "half": lambda m: np.arange(m) / (2.0 * m),
        "fft": lambda m: np.fft.fftfreq(m), "geo": lambda m: 0.05 * 1.3 ** np.arange(m),
        "down": lambda m: np.arange(m)[::-1] * 0.1, "odd": lambda m: np.arange(m) ** 2 * 0.5,
        "hz": lambda m: np.arange(m) * 1e4, "one": lambda m: np.arange(1, m + 1), "tiny": lambda m: np.arange(m) * 1e-5 - 1e-5}
TIMES = {"none": None, "idx": lambda n: np.arange(n), "one": lambda n: np.arange(1, n + 1),
         "step": lambda n: np.arange(n) * 3, "off": lambda n: np.arange(n) * 0.5 + 7,
         "down": lambda n: np.arange(n)[::-1], "downstep": lambda n: np.arange(n)[::-1] * 2.5 + 3,
         "neg": lambda n: np.arange(n) - n, "fine": lambda n: np.arange(n) * 1e-6, "late": lambda n: np.arange(n) * 4.0 + 1e6}


def table(spec, m, n):
    if spec[0] == "w":
        return np.array([int(c) for c in spec[1:]], float).reshape(m, n)
    if spec[0] == "d":
        return (_dense(m * n, int(spec[1:])) + 0.46).reshape(m, n)
    if spec[0] == "s":
        return _dense(m * n, int(spec[1:])).reshape(m, n) + 0.1
    return np.ones((m, n)) * float(spec[1:])


def integral(v, t, f):
    """Trapezoidal integral: every cell is worth the mean of its four corners times its area."""
    cells = (v[:-1, :-1] + v[1:, :-1] + v[:-1, 1:] + v[1:, 1:]) / 4.0
    return float((cells * (np.diff(f) * (t[1] - t[0]))[:, None]).sum())


def renyi(ctx, m, n, v, t, f, a=None, integer=False):
    w = table(v, m, n)
    if integer:
        w = np.round(w * 100).astype(integer)
    tt = np.sort(np.arange(n) if TIMES[t] is None else TIMES[t](n))
    ff = np.sort(np.arange(m) if AXES[f] is None else AXES[f](m))
    kw = {}
    if TIMES[t] is not None:
        kw["timestamps"] = TIMES[t](n)
    if AXES[f] is not None:
        kw["freq"] = AXES[f](m)
    if a is not None:
        kw["alpha"] = a
    a = 3.0 if a is None else a
    e = integral(w.astype(float), tt, ff)
    cell = np.abs(w).max() * (tt[-1] - tt[0]) * (ff[-1] - ff[0])
    if abs(e) < 1e-6 * max(cell, 1e-300):
        return ctx.skip()
    p = w / e
    if a == 1:
        if w.min() < 0:
            return ctx.rejects(lambda: renyi_information(w.copy(), **kw), (ValueError,), "order 1 of negative values")
        want = -integral(p * np.log2(np.where(p > 0, p, 1.0)), tt, ff)
    else:
        if a != int(a) and (p < 0).any():
            return ctx.skip()
        s = np.abs(p).max()
        g = integral((p / s) ** a, tt, ff)
        if g < 1e-5 * (tt[1] - tt[0]) * np.diff(ff).max() or g < 1e-7:
            return ctx.skip()
        want = (np.log2(g) + a * np.log2(s)) / (1 - a)
    tol = 1e-7 + 1e-9 * abs(want) + (0 if a == 1 else 1e-15 / g / abs(1 - a))
    ctx.close(ctx.call(renyi_information, w.copy(), **kw), want, "Renyi information of order %s" % a, rtol=0, atol=tol)
    for c in (2.5, 1e-4, 1e6):
        got = ctx.call(renyi_information, c * w, **kw)
        ctx.close(got, want, "Renyi information of a distribution scaled by %s" % c, rtol=0, atol=tol)


def law(spec, n):
    if spec[0] == "w":
        return np.array([np.nan if c == "n" else int(c) / 4.0 * 0.5 for c in spec[1:]])
    if spec[0] == "l":
        a, b = [float(v) for v in spec[1:].split(",")]
        return np.linspace(a, b, n)
    v = (_dense(n, int(spec[1:])) + 0.45) * 0.5
    if spec[0] == "n":
        v[::3] = np.nan
    return v


def ideal(ctx, n, laws, bins=None, ts=None):
    L = np.array([law(s, n) for s in laws])
    kw = {}
    if ts is not None:
        kw["timestamps"] = np.array(ts)
    if bins is not None:
        kw["n_fbins"] = bins
    tt = np.arange(n) if ts is None else np.array(ts)
    B = n if bins is None else bins
    got, t, f = ctx.call(ideal_tfr, L.copy(), **kw)
    ctx.same(t, tt, "instants")
    ctx.close(f, np.arange(B) / (2.0 * B), "frequency axis", rtol=1e-12)
    ctx.shape(got, (B, len(tt)), "ideal representation")
    must, may = np.zeros((B, len(tt)), bool), np.zeros((B, len(tt)), bool)
    for c, ti in enumerate(tt):
        for k in range(len(laws)):
            if np.isfinite(L[k, ti]):
                v = L[k, ti] * 2 * (B - 1)
                if abs(v - np.floor(v) - 0.5) < 1e-9:      # half way between two bins: either
                    may[[int(np.floor(v)), int(np.floor(v)) + 1], c] = True
                else:
                    must[int(round(v)), c] = True
    ctx.true(np.isin(got, (0, 1)).all(), "values other than 0 and 1")
    g = got == 1
    bad = (must & ~g) | (g & ~must & ~may)
    ctx.compared += 1
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        ctx.true(False, "cell %s is %s", i, got[i])
    ctx.see(got)


def spaces(tier):
    deep = tier == "thorough"
    w22 = ["w" + "".join(c) for c in itertools.product("0125" if deep else "013", repeat=4)]
    w23 = ["w" + "".join(c) for c in itertools.product("012" if deep else "01", repeat=6)]
    al = (None, 1, 2, 3, 0.5, 1.5, 4)
    more = al + (0, 0.1, 0.99, 1.01, 0.999, 1.001, 0.99999, 1.00001, 1.0000003, 1.0, 1.9999, 2.0001, 2.5, 3.0, 5, 6.5, 8, 11, 20)
    R = lambda n: [None, list(range(0, n, 3)), [n - 1, 0], [n // 2], list(range(n - 1, -1, -1)), [0, n // 2, n // 2, 0], list(range(n - 1, -1, -4)),
                   list(range(1, n, 2))]
    return [
        Space("renyi-words", [dict(m=2, n=2, v=v, t=t, f=f, a=a) for v in w22 for t in ("none", "step", "down")
                              for f in ("none", "half") for a in al] +
              [dict(m=m, n=5 - m, v=v, t=t, f="geo", a=a) for m in (2, 3) for v in w23 for a in al for t in ("none", "downstep")], renyi,
              "all small tables over a few values"),
        Space("renyi", [dict(m=m, n=n, v=v, t=t, f=f, a=a) for m in (2, 3, 4, 7, 16, 33) for n in (2, 3, 5, 8, 20)
                        for v in ("d0", "d1", "s0", "c2.5") for t in TIMES for f in AXES for a in al], renyi,
              "sizes x axes x orders"),
        Space("renyi-orders", [dict(m=m, n=n, v=v, t=t, f=f, a=a) for m, n in ((2, 2), (5, 4), (9, 31), (30, 30), (60, 60), (64, 128), (257, 20))
                               for v in ("d0", "d1", "s2", "c2.5", "c1e-6") for t in ("none", "step", "downstep", "fine") for f in ("none", "half", "hz")
                               for a in more], renyi, "orders from 0 to 20 on tables of every size"),
        Space("renyi-integers", [dict(m=m, n=n, v=v, t=t, f="none", a=a, integer=k) for m, n in ((2, 3), (4, 4), (16, 21), (40, 40)) for v in ("d0", "s0", "c1")
                                 for t in ("none", "one") for a in al for k in ("int16", "int64")], renyi, "tables of counts"),
        Space("ideal-words", [dict(n=n, laws=["w" + "".join(c)], bins=b) for n in range(1, 5)
                              for c in itertools.product("01234n", repeat=n) for b in (None, 2, 3, 5, 8)] +
              [dict(n=2, laws=["w" + "".join(c), "w" + "".join(d)], bins=b) for c in itertools.product("0134n", repeat=2)
               for d in itertools.product("024n", repeat=2) for b in (None, 3, 9)], ideal,
              "all short laws over five frequencies and undefined"),
        Space("ideal", [dict(n=n, laws=l, bins=b, ts=ts) for n in list(range(1, 40)) + [64, 65, 128, 140]
                        for l in (["d0"], ["d0", "d1"], ["l0.05,0.45"], ["l0.5,0.0", "n2"], ["n0", "n1", "d3"])
                        for b in (None, 1, 2, 17, 64, 2 * n)
                        for ts in R(n)], ideal, "sizes x sets of laws x bins x instants"),
        Space("ideal-large", [dict(n=n, laws=l, bins=b, ts=ts) for n in (200, 256, 500, 513) for b in (None, 3, 255, 256, 257, 512, 1000, 1025)
                              for l in (["l0,0.5"], ["n1", "l0.5,0.5", "l0,0"], ["d%d" % k for k in range(6)]) for ts in R(n)[::2]],
              ideal, "long laws and fine grids")]
