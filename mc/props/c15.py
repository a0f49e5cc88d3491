"""C15: amplitude modulations have the stated shape, centre and spread."""
import math

import numpy as np
from tftb.generators import amgauss, amexpos, amrect, amtriang

from mc.core import Space, Violation

F = {"gauss": amgauss, "bilateral": amexpos, "unilateral": amexpos, "expos": amexpos, "rect": amrect,
     "triang": amtriang}


def shape(kind, n, t0, s):
    k = np.arange(n, dtype=float)
    if kind == "gauss":
        return np.exp(-math.pi * ((k + 1 - t0) / s) ** 2)
    if kind in ("bilateral", "expos"):
        return np.exp(-math.sqrt(2 * math.pi) * np.abs(k - t0) / s)
    if kind == "unilateral":
        return np.where(k >= t0, np.exp(-math.sqrt(math.pi) * np.abs(k - t0) / s), 0.0)
    if kind == "rect":
        return (np.abs(k - t0) <= 0.5 * s * math.sqrt(3 / math.pi)) * 1.0
    return np.maximum(0.0, 1 - np.abs(k - t0) / (math.sqrt(10 / math.pi) * s / 2))


def check(ctx, kind, n, t0=None, s=None, how="kw"):
    a, kw = [n], {}
    if how == "kw":
        if t0 is not None:
            kw["t0"] = t0
        if s is not None:
            kw["spread"] = s
        if kind in ("bilateral", "unilateral"):
            kw["kind"] = kind
    else:
        a += [t0, s] + ([kind] if kind in ("bilateral", "unilateral") else [])
    y = ctx.call(F[kind], *a, **kw)
    c = round(n / 2.0) if t0 is None else t0
    w = 2 * math.sqrt(n) if s is None else s
    y = np.asarray(y)
    ctx.shape(y, (n,), "amplitude modulation")
    if kind == "rect":
        # the edge itself is a matter of rounding
        edge = np.abs(np.abs(np.arange(n) - c) - 0.5 * w * math.sqrt(3 / math.pi)) < 1e-9 * (1 + w)
        want = shape(kind, n, c, w)
        if ((y != want) & ~edge).any():
            k = int(np.nonzero((y != want) & ~edge)[0][0])
            raise Violation("rectangle at sample %d is %s" % (k, y[k]))
        ctx.compared += 1
        ctx.see(y)
        return
    want = shape(kind, n, c, w)
    ctx.close(y, want, "%s modulation" % kind, rtol=1e-12, atol=1e-300)
    ctx.true((np.asarray(y) >= 0).all() and (np.asarray(y) <= 1 + 1e-12).all(), "outside [0, 1]")


def spaces(tier):
    deep = tier == "thorough"
    ns = list(range(1, 300 if deep else 140)) + [160, 200, 255, 256, 257, 300, 500, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 2048, 4097]
    S = [None, 0.5, 1, 2, 3.3, 10, 1000.0, 2.718281828459, 0.0123456789, 1e-3, 1e7, 0.75]
    kinds = ["gauss", "bilateral", "unilateral", "rect", "triang", "expos"]
    small = range(1, 30 if deep else 17)

    def centres(n):
        return [None] + list(range(-3, n + 4)) + [0.5, n / 2.0, n - 0.25, n - 1.5, n - 0.5, n + 0.5, n + 3.25, 1.5 * n + 0.3, -0.5, -3.7, -n - 0.3,
                                                  0.123456789 * n, 0.999999, 1e-9, -1e-9, 1e6, -1e6 + 0.5]
    return [Space(k, [dict(kind=k, n=n, t0=t0, s=s) for n in small for t0 in centres(n) for s in S] +
                  [dict(kind=k, n=n, t0=t0, s=s) for n in ns
                   for t0 in (None, 0, 0.0, 1, n // 2, n / 2.0, n - 1, n, 2 * n, 0.7182818284 * n, -0.3 * n, 1.3 * n + 0.21, -n, n + 0.5, 0.5, n - 1.5)
                   for s in S + [n / 4.0, float(n)]] +
                  [dict(kind=k, n=n, t0=t0, s=s, how="pos") for n in ns for t0, s in ((n // 3, n / 3.0 + 1), (0, 2), (0.0, 0.5))
                   if k != "expos"], check,
                  "lengths x centres (inside, on the ends, outside, fractional) x spreads") for k in kinds]
