"""C16: frequency modulated signals have unit modulus and the phase of their frequency law."""
import warnings

import numpy as np
from tftb.generators import fmconst, fmhyp, fmlin, fmodany, fmpar, fmpower, fmsin

from mc.core import Space
from mc.signals import _dense

TOL = 2e-9


def compare(ctx, got, phase, law, what, slack=0.0):
    """phase in cycles."""
    y, fl = got
    n = len(phase)
    ctx.shape(np.asarray(y), (n,), what + " signal")
    ctx.shape(np.asarray(fl), (n,), what + " frequency law")
    ctx.close(y, np.exp(2j * np.pi * (np.asarray(phase) % 1.0)), what + " signal", rtol=0,
              atol=TOL + slack + 1e-14 * np.abs(phase).max())
    ctx.close(fl, law, what + " frequency law", rtol=1e-10, atol=1e-12 + slack)
    ctx.close(np.abs(y), np.ones(n), what + " modulus", rtol=0, atol=1e-11)


def const(ctx, n, f=None, t0=None):
    kw = {}
    if f is not None:
        kw["fnorm"] = f
    if t0 is not None:
        kw["t0"] = t0
    f = 0.25 if f is None else f
    c = round(n / 2.0) if t0 is None else t0
    compare(ctx, ctx.call(fmconst, n, **kw), f * (np.arange(n) - c), np.full(n, f), "constant")


def lin(ctx, n, a=None, b=None, t0=None):
    kw = {}
    for k, v in (("fnormi", a), ("fnormf", b), ("t0", t0)):
        if v is not None:
            kw[k] = v
    a, b = (0.0 if a is None else a), (0.5 if b is None else b)
    c = round(n / 2.0) if t0 is None else t0
    k = np.arange(1, n + 1)
    slope = (b - a) / (n - 1.0)
    y, fl = ctx.call(fmlin, n, **kw)
    ph = lambda t: a * (t - 1) + slope * (t - 1) ** 2 / 2.0  # noqa: E731
    if c != int(c):
        # between samples: the phase origin is the sample before
        c = int(c)
    compare(ctx, (y, fl), ph(k) - ph(c), a + slope * (k - 1), "linear")


def warned(ctx, f, *a):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        r = ctx.call(f, *a)
    return r, any(issubclass(x.category, UserWarning) and not issubclass(x.category, DeprecationWarning) for x in w)


def alias(ctx, law, w, what, exact=False):
    law = np.asarray(law)
    if exact or np.min(np.abs(law)) > 1e-9 and np.min(np.abs(law - 0.5)) > 1e-9:
        bad = bool((law < 0).any() or (law > 0.5).any())
        ctx.true(w == bad, "%s: warning of aliasing %s, frequencies in [%s, %s]", what, w, law.min(), law.max())


def hyp(ctx, n, p1, p2, exact=False):
    t = np.arange(1, n + 1)
    (t1, f1), (t2, f2) = p1, p2
    c = (f2 - f1) / (1.0 / t2 - 1.0 / t1)
    f0 = f1 - c / t1
    r, w = warned(ctx, fmhyp, n, tuple(p1), tuple(p2))
    law = f0 + c / t
    compare(ctx, r, f0 * t + c * np.log(t), law, "hyperbolic")
    alias(ctx, law, w, "hyperbolic", exact)
    for tt, f in (p1, p2):
        if 1 <= tt <= n and tt == int(tt):
            ctx.close(r[1][int(tt) - 1], f, "hyperbola through its point", rtol=1e-9, atol=1e-12)


def par(ctx, n, c, exact=False):
    t = np.arange(n)
    r, w = warned(ctx, fmpar, n, tuple(c))
    law = c[0] + c[1] * t + c[2] * t ** 2
    compare(ctx, r, c[0] * t + c[1] * t ** 2 / 2.0 + c[2] * t ** 3 / 3.0, law, "parabolic")
    alias(ctx, law, w, "parabolic", exact)


def power(ctx, n, k, c, exact=False):
    t = np.arange(1, n + 1, dtype=float)
    r, w = warned(ctx, fmpower, n, k, tuple(c))
    if len(c) == 2:
        f0, a = c
    else:
        a = (c[3] - c[1]) / (c[2] ** -float(k) - c[0] ** -float(k))
        f0 = c[1] - a * c[0] ** -float(k)
    law = f0 + a * t ** -k
    compare(ctx, r, f0 * t + a / (1.0 - k) * t ** (1.0 - k), law, "power law")
    alias(ctx, law, w, "power law", exact)


def sine(ctx, n, lo=None, hi=None, period=None, t0=None, f0=None, pm=None):
    kw = {}
    for k, v in (("fnormin", lo), ("fnormax", hi), ("period", period), ("t0", t0), ("fnorm0", f0), ("pm1", pm)):
        if v is not None:
            kw[k] = v
    lo, hi = (0.05 if lo is None else lo), (0.45 if hi is None else hi)
    if f0 in ("lo", "hi"):
        f0 = kw["fnorm0"] = lo if f0 == "lo" else hi
    T = float(n if period is None else period)
    c = n / 2.0 if t0 is None else t0
    mid, d = (lo + hi) / 2, (hi - lo) / 2
    f0 = mid if f0 is None else f0
    a = -(1 if pm is None else pm) * np.arccos(min(1.0, max(-1.0, (f0 - mid) / d)))
    t = np.arange(n) - c
    y, fl = ctx.call(fmsin, n, **kw)
    compare(ctx, (y, fl), mid * t + d * T * (np.sin(2 * np.pi * t / T + a) - np.sin(a)) / (2 * np.pi),
            mid + d * np.cos(2 * np.pi * t / T + a), "sinusoidal",
            # at the ends of the band the angle is only determined to the root of the rounding
            slack=1e-7 * (1 + T) if abs(f0 - mid) > d * (1 - 1e-9) else 0.0)
    ctx.true(fl.min() >= lo - 1e-9 and fl.max() <= hi + 1e-9, "sinusoidal law leaves its band")


def anylaw(ctx, n, law, t0=None, col=False):
    if law.startswith("w"):
        v = np.array([-0.5, -0.1, 0.0, 0.3, 0.5])[[int(ch) for ch in law[1:]]]
    else:
        v = _dense(n, int(law[1:])) * 0.9
    arg = v.copy().reshape(-1, 1) if col else v.copy()
    y = ctx.call(fmodany, arg) if t0 is None else ctx.call(fmodany, arg, t0)
    ph = np.cumsum(v)
    compare(ctx, (y, v), ph - ph[(1 if t0 is None else t0) - 1], v, "arbitrary")


def bumps(n):
    """Parabolas with both ends inside the band and the middle anywhere, and the reverse."""
    m = max(n - 1, 1)
    out = []
    for e in (0.05, 0.2, 0.25, 0.3, 0.45):
        for h in (-0.6, -0.31, -0.21, -0.06, 0.04, 0.06, 0.19, 0.21, 0.29, 0.46, 0.6):
            out.append([e, 4 * h / m, -4 * h / m ** 2])
    return out


def spaces(tier):
    deep = tier == "thorough"
    ns = list(range(2, 140 if deep else 70)) + [100, 127, 128, 129, 140, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 2048, 3000, 4097]
    few = [2, 3, 5, 8, 13, 16, 31, 32, 33, 64, 65, 100, 128, 129, 255, 256, 512, 1000, 1025]
    sm = range(2, 20 if deep else 13)
    Fq = [None, -0.5, -0.2, 0.0, 0.01, 0.25, 0.37, 0.5, 0.1234567891, -1e-5, 0.499, 0.05]
    import itertools
    return [
        Space("const", [dict(n=n, f=f, t0=t0) for n in [1] + list(sm) for f in Fq
                        for t0 in [None, -3, 0.5, n / 2.0, n - 0.3, -1.7, n + 4.2, 0.0] + list(range(0, n + 2))] +
              [dict(n=n, f=f, t0=t0) for n in ns for f in Fq for t0 in (None, 0, 1, n // 2, n, 0.37 * n, -n, 2 * n, n - 1, -0.5)], const,
              "lengths x frequencies x centres"),
        Space("lin", [dict(n=n, a=a, b=b, t0=t0) for n in sm for a in Fq for b in Fq
                      for t0 in [None] + list(range(1, n + 1)) + [n / 2.0 + 0.25]] +
              [dict(n=n, a=a, b=b, t0=t0) for n in ns for a, b in
               [(None, None), (0.05, 0.3), (0.4, 0.1), (0.2, 0.2), (-0.5, 0.5), (0.5, -0.5), (0.3, -0.1), (0.0123456789, 0.4876543211), (1e-5, 2e-5),
                (-0.1, -0.4), (0.0, 0.0), (0.5, 0.5), (None, 0.2), (0.2, None)]
               for t0 in (None, 1, n // 2, n, 0.3 * n + 1, n - 1) if t0 is None or t0 >= 1], lin, "lengths x frequencies x centres"),
        Space("hyp", [dict(n=n, p1=p, p2=q) for n in ns for p in ([1, 0.5], [3, 0.45], [2.5, 0.3], [1.23456789, 0.4567891234], [50, 0.05], [1, 0.1], [n, 0.2])
                      for q in ([32, 0.1], [7, 0.2], [100, 0.01], [40, 0.49], [9, -0.1], [33.3333333, 0.0123456789], [2, 0.7], [n + 1, 0.4], [11, 0.2])
                      if p[0] != q[0]], hyp, "lengths x points"),
        Space("par", [dict(n=n, c=c) for n in [1] + ns for c in
                      [[0.4, -0.0112, 8.6806e-05], [0.1, 0, 0], [0.0, 0.003, 0], [0.2, 0.001, -1e-5], [0.3, 0, 2e-5], [0, 0, 0], [0.5, 0, 0], [-0.1, 0, 0],
                       [0.1, 0.02, 0.0003], [0, 0, 0.01], [0.123456789, 0.00123456789, -1.23456789e-06], [0.6, -0.001, 0.0]] + bumps(n)], par,
              "lengths x coefficients (inside the band, leaving it at either end or only in the middle)"),
        Space("power", [dict(n=n, k=k, c=c) for n in [1] + ns for k in (0.5, 2, 3, 1.5, -0.5, 0.1, -1, 0.99, 0.3141592653, -2, 4, 1.01, 2.5)
                        for c in ([1, 0.5, 100, 0.1], [0.1, 0.3], [2, 0.4, 30, 0.05], [0.2, 0.01], [0.123456789, -0.0123456789], [100, 0.1, 1, 0.5],
                                  [0.3, -0.1], [0.0, 0.4], [7.5, 0.3, 3.25, 0.2])
                        if not (n > 200 and k < -1)], power, "lengths x degrees x coefficients"),
        Space("edge-par", [dict(n=n, c=[a / 1024.0, b / 1024.0, c / 1024.0], exact=True) for n in range(1, 34)
                           for a in (0, 512, 1, 511, 513, -1, 256) for b in (0, 1, -1, 16, -16, 512, -512)
                           for c in (0, 1, -1, 4)], par, "laws which touch the ends of the band exactly: no warning unless they leave it"),
        Space("edge-hyp", [dict(n=n, p1=[t1, f1 / 64.0], p2=[t2, f2 / 64.0], exact=True) for n in (1, 2, 3, 4, 5, 8, 16, 33)
                           for t1, t2 in ((1, 2), (2, 1)) for f1 in (0, 32, 16, 8, 33, -1) for f2 in (0, 32, 16, 8, 33, -1)],
              hyp, "laws which touch the ends of the band exactly"),
        Space("edge-power", [dict(n=n, k=k, c=[a / 1024.0, b / 1024.0], exact=True) for n in (1, 2, 3, 4, 5, 8, 16, 33)
                             for k in (-1, 2, -2) for a in (0, 512, 1, 511, 513, -1, 256) for b in (0, 1, -1, 256, -256, 512, -512)],
              power, "laws which touch the ends of the band exactly"),
        Space("sine", [dict(n=n, lo=lo, hi=hi, period=T, t0=t0, f0=f0, pm=pm) for n in (ns if deep else few)
                       for lo, hi in ((None, None), (0.05, 0.35), (0.0, 0.5), (0.0123456789, 0.4123456789), (0.2, 0.3), (-0.4, 0.4), (None, 0.4), (0.1, None))
                       for T in (None, 25, 100, 7.5, 13.123456789, 2 * n, n / 2.0)
                       for t0 in (None, 0, n // 3, 0.4 * n, n, -n / 2.0) for f0 in (None, 0.1, 0.3, 0.223456789, "lo", "hi") for pm in (None, -1, 1)
                       if f0 in (None, "lo", "hi") or (0.05 if lo is None else lo) <= f0 <= (0.45 if hi is None else hi)], sine,
              "lengths x bands x periods x references x directions"),
        Space("any-words", [dict(n=n, law="w" + "".join(w), t0=t0) for n in range(1, 6)
                            for w in itertools.product("01234", repeat=n) for t0 in [None] + list(range(1, n + 1))],
              anylaw, "all laws over five frequencies, every phase origin"),
        Space("any", [dict(n=n, law=law, t0=t0, col=col) for n in ns for law in ("d0", "d1", "d2", "d3")
                      for t0 in (None, 1, 2, n // 3, n // 2, n - 1, n) for col in (False, True) if t0 is None or t0 >= 1], anylaw,
              "long laws, rows and columns")]
