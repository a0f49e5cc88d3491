"""C25: numeric helpers (powers of two, factor pairs, odd numbers, congruences, Zak inverse, linearity,
trapezoidal integral, window derivative)."""
import itertools
import math

import numpy as np
from tftb.utils import divider, is_linear, izak, modulo, nearest_odd, nextpow2
from tftb.processing.utils import derive_window, get_spectrum, integrate_2d

from mc import model
from mc.core import Space
from mc.signals import sig, window, _dense
from mc.props.c23 import table, integral, AXES, TIMES


def pow2(ctx, lo, hi, mul=1):
    for n in range(lo, hi):
        n = n * mul
        k = ctx.call(nextpow2, n)
        ctx.true(k == (n - 1).bit_length(), "next power of two of %s: %s", n, k)
    ctx.true(ctx.call(nextpow2, float(hi)) == (hi - 1).bit_length(), "next power of two of %s", float(hi))
    v = np.arange(lo, hi)
    want = [(int(n) - 1).bit_length() for n in v]
    ctx.same(np.asarray(ctx.call(nextpow2, v.copy()), float), np.array(want, float), "next powers of two of an array")
    ctx.same(np.asarray(ctx.call(nextpow2, v.astype(float)), float), np.array(want, float), "next powers of two of an array of floats")


def powk(ctx, k):
    for n, w in ((2 ** k - 1, k), (2 ** k, k), (2 ** k + 1, k + 1)):
        if n > 2:
            ctx.true(ctx.call(nextpow2, n) == w, "next power of two of %s", n)
    if k < 12:
        ctx.true(ctx.call(nextpow2, 2.0 ** k + 0.5) == k + 1, "next power of two of %s", 2.0 ** k + 0.5)
        ctx.true(ctx.call(nextpow2, 2.0 ** k - 0.25) == k, "next power of two of %s", 2.0 ** k - 0.25)


def factors(ctx, lo, hi):
    for n in range(lo, hi):
        r = ctx.call(divider, n)
        a, b = r
        ctx.true(a * b == n and a == int(a) and b == int(b), "factors of %s: %s", n, r)
        best = max(d for d in range(1, math.isqrt(n) + 1) if n % d == 0)
        ctx.true(min(a, b) == best, "factors of %s nearest its root: %s, expected %s", n, r, (best, n // best))


def odd(ctx, lo, hi, den):
    vals = [k / float(den) for k in range(lo, hi)]
    if den == 1:
        vals += [k for k in range(lo, hi)]
    want = []
    for v in vals:
        w = v + 1 if v % 2 == 0 else 2 * math.floor(v / 2.0) + 1
        want.append(w)
        r = ctx.call(nearest_odd, v)
        ctx.true(r == w, "nearest odd of %s: %s, expected %s", v, r, w)
    for seq in (list(vals), np.array(vals), tuple(vals)) + ((range(lo, hi),) if den == 1 else ()):
        want = want[:len(seq)]
        ctx.same(ctx.call(nearest_odd, seq), np.array(want), "nearest odd of a sequence")


def mod(ctx, N, lo, hi):
    x = np.arange(lo, hi)
    want = [(v - 1) % N + 1 for v in range(lo, hi)]
    for arg, what in ((x.copy(), "integers"), (x.astype(float), "floats"), (list(range(lo, hi)), "a list"), (range(lo, hi), "a range"),
                      (x[::-1][::-1], "a reversed view")):
        ctx.same(ctx.call(modulo, arg, N), want, "congruence of %s modulo %d" % (what, N))
    for q in (0.25, 0.5, 1 - 2.0 ** -20):
        y = ctx.call(modulo, x + q, N)
        ctx.close(y, [(v + q) % N for v in range(lo, hi)], "congruence of fractions", rtol=0, atol=1e-9)


def zak(ctx, n, m, x):
    s = sig(x, n * m).reshape(n, m)
    y = ctx.call(izak, s.copy())
    j = np.arange(n)
    want = (np.exp(2j * np.pi * (np.outer(j, j) % n) / n) @ s / math.sqrt(n)).ravel()
    ctx.close(y, want, "inverse Zak transform", rtol=1e-9)
    if m == 1:
        ctx.close(ctx.call(izak, s[:, 0].copy()), want, "inverse Zak transform of a vector", rtol=1e-9)
    ctx.close(np.linalg.norm(y), np.linalg.norm(s), "norm", rtol=1e-9)


def linear(ctx, n, a, b, bump, d, kind="f"):
    x = a + b * np.arange(n)
    if bump is not None:
        i, e = bump
        x = x.astype(float)
        x[i % n] += e * 10.0 ** -d
    want = bump is None or (n == 2)
    if kind != "f":
        x = x.tolist() if kind == "list" else x.astype(kind)
    r = ctx.call(is_linear, x) if d == 5 else ctx.call(is_linear, x, d)
    ctx.true(bool(r) == want, "is_linear(%s) to %s decimals: %s", x, d, r)
    if d == 5:
        ctx.true(bool(ctx.call(is_linear, x, decimals=5)) == want, "is_linear(%s, decimals=5)", x)


def smooth(ctx, n, b, c, d):
    """A ramp with a slope drifting by c: linear when the drift disappears in rounding, not when it exceeds it."""
    k = np.arange(n)
    x = b * k + c * k * (k - 1) / 2.0
    lo, hi = b, b + c * (n - 2)
    want = round(lo * 10 ** d) == round(hi * 10 ** d)
    if min(abs(v * 10 ** d - math.floor(v * 10 ** d) - 0.5) for v in (lo, hi)) < 1e-3:
        return ctx.skip()
    r = ctx.call(is_linear, x, d)
    ctx.true(bool(r) == want, "is_linear of slopes %s to %s, to %s decimals: %s", lo, hi, d, r)


def integ(ctx, m, n, v, t, f):
    w = table(v, m, n)
    tt = np.arange(n) if TIMES[t] is None else TIMES[t](n)
    ff = np.arange(m) if AXES[f] is None else AXES[f](m)
    kw = {}
    if TIMES[t] is not None:
        kw["x"] = tt.copy()
    if AXES[f] is not None:
        kw["y"] = ff.copy()
    got = ctx.call(integrate_2d, w.copy(), **kw)
    ctx.close(got, integral(w, tt, ff), "integral", rtol=0, atol=1e-10 * max(np.abs(w).sum() * np.ptp(ff) * abs(tt[1] - tt[0]), 1e-12))


def deriv(ctx, h):
    w = window(h)
    got = ctx.call(derive_window, w.copy())
    ctx.close(got, model.window_derivative(w), "derivative of window " + h, rtol=1e-9)


def spec(ctx, n, x):
    s = sig(x, n)
    S = np.abs(model.dft_kernel(n, np.arange(n)) @ s) ** 2
    order = [k % n for k in range(-(n // 2), n - n // 2)]
    ctx.close(ctx.call(get_spectrum, s.copy()), S[order], "energy spectrum", rtol=1e-9)


def spaces(tier):
    deep = tier == "thorough"
    top = 400000 if deep else 50000
    kinds = ("d0", "r0", "d1*1e-5", "i0", "j0", "n0", "v0", "c", "a", "s", "d2*1e8", "k0")
    return [
        Space("powers", [dict(lo=a, hi=a + 200) for a in range(1, top, 200)], pow2, "every integer up to %d" % top),
        Space("around-powers", [dict(k=k) for k in range(1, 44)], powk, "2^k - 1, 2^k, 2^k + 1 up to 2^43"),
        Space("factors", [dict(lo=a, hi=a + 100) for a in list(range(1, top // 4, 100)) + [10 ** 6, 2 ** 20 - 50, 999983, 2 ** 24 - 30, 10 ** 9]], factors,
              "every integer up to %d" % (top // 4)),
        Space("odd", [dict(lo=a, hi=a + 100, den=d) for a in list(range(-2000, 2000, 100)) + [10 ** 6, 10 ** 9, -10 ** 7] for d in (1, 2, 4, 8, 16, 1024)], odd,
              "integers and dyadic fractions, alone and in sequences"),
        Space("modulo", [dict(N=N, lo=lo, hi=hi) for N in list(range(1, 70)) + [100, 127, 128, 255, 256, 1000] for lo in (-N - 90, -3, 0, 1)
                         for hi in (2, 130, 3 * N + 2)], mod, "every residue"),
        Space("zak", [dict(n=n, m=m, x=x) for n in range(1, 17) for m in range(1, 17) for x in kinds[:6] + ("e:0", "e:%d" % (n * m - 1))] +
              [dict(n=n, m=m, x=x) for n, m in ((1, 200), (200, 1), (64, 3), (3, 64), (65, 17), (100, 10), (128, 128), (257, 2), (512, 1)) for x in ("d0", "r1", "i0")],
              zak, "every shape up to 16 x 16, and large ones"),
        Space("linear", [dict(n=n, a=a, b=b, bump=bump, d=d) for n in list(range(2, 30)) + [64, 127, 128, 200, 257, 1000] for a in (0, -3, 0.5) for b in (0, 1, -2, 0.25)
                         for d in (5, 1, 3, 8) for bump in [None] + [(i, e) for i in (0, 1, n // 2, n - 2, n - 1) for e in (3, -7.2)]],
              linear, "ramps with and without one displaced point"),
        Space("linear-kinds", [dict(n=n, a=a, b=b, bump=None, d=d, kind=k) for n in (2, 3, 9, 40) for a in (0, 3, 130) for b in (0, 1, 3) for d in (5, 0, 2)
                               for k in ("list", "int16", "int64", "float32")] +
              [dict(n=n, a=200, b=b, bump=None, d=5, kind=k) for n in (3, 9, 40) for b in (0, -1, -3) for k in ("uint8", "uint16", "uint64", "int16")] +
              [dict(n=n, a=0, b=-3, bump=None, d=5, kind="int8") for n in (3, 40)], linear, "ramps of every type"),
        Space("drift", [dict(n=n, b=b, c=c, d=d) for n in (3, 4, 7, 20) for b in (0.0, 1.0, -0.3, 0.12345) for c in (0, 1e-8, 1e-6, 3e-5, -4e-4, 0.01, 1.0)
                        for d in (0, 1, 3, 5, 7)], smooth, "ramps of drifting slope"),
        Space("integral", [dict(m=m, n=n, v="w" + "".join(c), t="none", f="none") for m, n in ((2, 2), (2, 3), (3, 2), (3, 3))
                           for c in itertools.product("01", repeat=m * n)] +
              [dict(m=m, n=n, v=v, t=t, f=f) for m in (1, 2, 3, 4, 9, 20, 64, 130) for n in (2, 3, 4, 11, 65, 200) for v in ("d0", "s1", "c1")
               for t in TIMES for f in AXES], integ, "tables x axes"),
        Space("derivative", [dict(h=k + str(n) + q) for k in ("hm", "rc", "as", "hn", "ga", "ti", "ng", "zz", "cx", "vr") for n in list(range(1, 80)) + [127, 128, 129, 257, 511]
                             for q in ("", "*1e-6", "*-3")], deriv, "windows of every kind and length"),
        Space("spectrum", [dict(n=n, x=x) for n in list(range(1, 70)) + [100, 127, 128, 129, 200, 255, 256, 257, 500, 512] for x in kinds], spec, "signals")]
