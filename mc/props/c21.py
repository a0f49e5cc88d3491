"""C21: time and frequency localisation are the moments of the energy densities."""
import math

import numpy as np
from tftb.processing import locfreq, loctime

from mc import model
from mc.core import Space
from mc.signals import sig, words, DENSE_SCALED, polar


def moments(p, v):
    e = math.fsum(p)
    m = math.fsum(p * v) / e
    return m, 2 * math.sqrt(math.pi * max(math.fsum(p * (v - m) ** 2) / e, 0.0))


def check(ctx, n, x, shape=None):
    s = sig(x, n)
    if not np.abs(s).any():
        return ctx.skip()
    arg = s.copy() if shape is None else s.copy().reshape({"col": (n, 1), "row": (1, n)}[shape])
    m, w = ctx.call(loctime, arg)
    wm, ww = moments(np.abs(s) ** 2, np.arange(n, dtype=float))
    ctx.close(m, wm, "mean time", rtol=0, atol=1e-9 * n)
    # the square root amplifies rounding near zero
    ctx.close(w ** 2, ww ** 2, "time spread squared", rtol=0, atol=1e-9 * n * n)
    m, w = ctx.call(locfreq, arg)
    S = model.dft_kernel(n, np.arange(n)) @ s
    f = np.array([k / float(n) if 2 * k < n else k / float(n) - 1 for k in range(n)])
    wm, ww = moments(np.abs(S) ** 2, f)
    ctx.close(m, wm, "mean frequency", rtol=0, atol=1e-9)
    ctx.close(w ** 2, ww ** 2, "bandwidth squared", rtol=0, atol=1e-9)


def shifted(ctx, n, x, a, k):
    """Delaying by a samples and shifting by k bins moves the centres by as much, and no spread."""
    s = np.zeros(3 * n, complex)
    s[:n] = sig(x, n)
    if not np.abs(s).any():
        return ctx.skip()
    t0, T0 = ctx.call(loctime, s)
    z = np.roll(s, a)
    t1, T1 = ctx.call(loctime, z)
    ctx.close(t1 - t0, a, "delay of the mean time", rtol=0, atol=1e-8 * n)
    ctx.close(T1, T0, "time spread of the delayed signal", rtol=0, atol=1e-6 * n)
    y = z * np.exp(2j * np.pi * k * np.arange(3 * n) / (3.0 * n)) * 3.7
    t2, T2 = ctx.call(loctime, y)
    ctx.close([t2, T2], [t1, T1], "time moments under modulation and scaling", rtol=0, atol=1e-6 * n)
    f0, B0 = ctx.call(locfreq, s)
    f1, B1 = ctx.call(locfreq, z)
    ctx.close([f1, B1], [f0, B0], "frequency moments under delay", rtol=0, atol=1e-6)


def spaces(tier):
    deep = tier == "thorough"
    W = 7 if deep else 6
    ns = list(range(1, 300 if deep else 140)) + [150, 200, 255, 256, 257, 300, 500, 511, 512, 513, 1000, 1023, 1024, 1025]
    X = DENSE_SCALED + ["i0", "j0", "n0", "c", "a", "s", "v0", "d0*1e-100", "d1*1e100", "ch", "t:1", "k:17"]
    return [
        Space("words", [dict(n=n, x=w) for n in range(1, W + 1) for w in words(n)], check,
              "all signals over {0,1,-1,i} up to %d samples" % W),
        Space("pairs", [dict(n=n, x=x) for n in range(2, 26 if deep else 18) for x in polar(n)], check, "impulse pairs"),
        Space("dense", [dict(n=n, x=x) for n in ns for x in X + ["t:%d" % n, "g:%d" % (n // 3), "t:%d" % (n // 2), "e:%d" % (n - 1)]],
              check, "dense signals, tones, chirps, packets of every length"),
        Space("long", [dict(n=n, x=x) for n in (1500, 2000, 2048, 2049) for x in ("d0", "r0", "v0", "g:%d" % (n // 3), "c")], check, "long signals"),
        Space("local", [dict(n=n, x="l:%d,%d" % (a, b)) for n in (5, 8, 12, 33) for a in range(n) for b in range(a, n)], check, "every stretch of a record"),
        Space("shapes", [dict(n=n, x=x, shape=sh) for n in list(range(1, 40)) + [64, 129, 256] for x in ("d0", "r0", "v0", "i0") for sh in ("col", "row")],
              check, "row and column vectors"),
        Space("covariance", [dict(n=n, x=x, a=a, k=k) for n in (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 24) for x in ("d0", "r0", "g:1" if n > 1 else "d1")
                             for a in range(0, 2 * n + 1) for k in (0, 1, n)], shifted, "delays x modulations")]
