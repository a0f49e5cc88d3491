"""C19: analytic pulse, step and singularity, Altes, Klauder, Mexican hat and power-law group delay signals."""
import math

import numpy as np
from tftb.generators import altes, anapulse, anasing, anastep, gdpower, klauder, mexhat

from mc import model
from mc.core import Space


def pulse(ctx, kind, n, ti=None):
    f = anapulse if kind == "pulse" else anastep
    y = ctx.call(f, n) if ti is None else ctx.call(f, n, ti)
    c = round(n / 2.0) if ti is None else ti
    x = np.array([float(k == c if kind == "pulse" else k > c) for k in range(n)])
    ctx.close(y, model.analytic(x), "analytic %s" % kind, rtol=0, atol=1e-10)
    ctx.close(np.real(y), x, "real part of the analytic %s" % kind, rtol=0, atol=1e-10)


def sing(ctx, n, t0=None, h=None):
    kw = {}
    if t0 is not None:
        kw["t0"] = t0
    if h is not None:
        kw["h"] = h
    y = ctx.call(anasing, n, **kw)
    t0, h = (n / 2.0 if t0 is None else t0), (0.0 if h is None else h)
    if h <= 0:
        x = np.zeros(n)
        for k in range(1, n // 2):
            x += (k / float(n)) ** (-1 - h) * np.cos(2 * np.pi * k * (np.arange(n) - (t0 - 1)) / n)
        x = x / x.max()
        x = x - x.min()
    else:
        x = np.abs(np.arange(n) - t0) ** h
        x = x.max() - x
    ctx.close(y, model.analytic(x), "singularity", rtol=1e-9)
    if t0 == int(t0):
        at = int(t0) - 1 if h <= 0 else int(t0)
        if 0 <= at < n:
            ctx.true(np.real(y)[at] >= np.real(y).max() - 1e-9, "the singularity is not at its place")


def altes_(ctx, n, lo=None, hi=None, alpha=None):
    kw = {}
    for k, v in (("fmin", lo), ("fmax", hi), ("alpha", alpha)):
        if v is not None:
            kw[k] = v
    lo, hi, alpha = (0.05 if lo is None else lo), (0.5 if hi is None else hi), (300 if alpha is None else alpha)
    lg = math.log(hi / lo) ** 2 / (8 * math.log(alpha))
    beta = math.sqrt(2 * lg * math.log(alpha))
    t0 = n / (2 * math.sinh(beta))
    t = t0 * math.exp(-beta) + np.arange(n)
    u = np.log(t / t0)
    x = np.exp(-u ** 2 / (2 * lg)) * np.cos(2 * np.pi * t0 * math.sqrt(lo * hi) * math.exp(lg) * u)
    y = ctx.call(altes, n, **kw)
    ctx.close(y, x / math.sqrt((x ** 2).sum()), "Altes signal", rtol=1e-8)


def klauder_(ctx, n, g=None, f0=None):
    kw = {}
    if g is not None:
        kw["attenuation"] = g
    if f0 is not None:
        kw["f0"] = f0
    g, f0 = (10.0 if g is None else g), (0.2 if f0 is None else f0)
    k = np.arange(1, n // 2 + 1) / float(n)
    m = np.exp(-2 * np.pi * g * k) * k ** (2 * np.pi * g * f0 - 0.5)
    t = np.arange(n) - n // 2
    x = np.zeros(n)
    for f, a in zip(k, m):
        x += (1 if 2 * f == 1 else 2) * a * np.cos(2 * np.pi * f * t)
    y = ctx.call(klauder, n, **kw)
    ctx.close(y, x / math.sqrt((x ** 2).sum()), "Klauder wavelet", rtol=1e-8)


def hat(ctx, nu=None):
    y = ctx.call(mexhat) if nu is None else ctx.call(mexhat, nu)
    nu = 0.05 if nu is None else nu
    R = 30 if nu == 0.05 else math.ceil(1.5 / nu)
    t = np.arange(-R, R + 1)
    a = (np.pi * nu * t) ** 2
    ctx.close(y, nu * math.sqrt(np.pi) / 2 * np.exp(-a) * (1 - 2 * a), "Mexican hat", rtol=1e-11)


def gd(ctx, n, k=None, c=None):
    kw = {}
    if k is not None:
        kw["degree"] = k
    if c is not None:
        kw["rate"] = c
    y, gpd, f = ctx.call(gdpower, n, **kw)
    k, c = (0.0 if k is None else float(k)), (1.0 if c is None else float(c))
    L = (n + 1) // 2
    nu = 0.5 * np.arange(1, L + 1) / L
    ctx.close(f, nu, "frequencies", rtol=1e-12)
    if k == 1:
        x = model.analytic((np.arange(n) == n - 1).astype(float))
        wg = np.full(L, n - 1.0)
    else:
        if k > 1:
            t0, d = 0.0, n * 2.0 ** (k - 1) * c
        else:
            t0, d = n / 10.0, (float(n) ** (k * c) if k else c)
        ph = t0 * nu + d * (np.log(nu) if k == 0 else nu ** k / k)
        X = nu ** ((k - 2) / 6.0) * np.exp(-2j * np.pi * (ph % 1.0))
        x = np.exp(2j * np.pi * np.outer(np.arange(n), np.arange(L)) / n).dot(X)
        wg = t0 + (n + 1.0 if c < 0 else 0.0) + d * nu ** (k - 1)
    x = x - x.mean()
    ctx.close(gpd, wg, "group delay", rtol=1e-10)
    ctx.close(y, x / np.linalg.norm(x), "signal", rtol=0, atol=1e-9 * (1 + np.abs(wg).max()))


def spaces(tier):
    deep = tier == "thorough"
    small = range(1, 64 if deep else 36)
    big = [31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 2048, 3001, 4096]
    return [
        Space("pulse-step", [dict(kind=k, n=n, ti=ti) for k in ("pulse", "step") for n in small
                             for ti in [None] + list(range(-2, n + 2))] +
              [dict(kind="step", n=n, ti=ti + f) for n in small for ti in range(-2, n + 1) for f in (0.5, 0.01, 0.99, 0.25)] +
              [dict(kind=k, n=n, ti=ti) for k in ("pulse", "step") for n in big for ti in
               (None, 0, 1, 2, n // 2 - 1, n // 2, n // 2 + 1, n - 2, n - 1, float(n // 3))] +
              [dict(kind="step", n=n, ti=ti) for n in big for ti in (0.5, n / 3.0 + 0.1, n - 1.5, n // 2 + 0.75)], pulse,
              "every length and position"),
        Space("singularity", [dict(n=n, t0=t0, h=h) for n in range(4, 50 if deep else 28)
                              for t0 in [None] + list(range(1, n)) + [n / 3.0, n / 2.0 + 0.5]
                              for h in (None, 0.0, -0.5, -1.0, -2, 0.3, 1, 2.5, -0.123456789, 0.123456789, 3, 0.01, -0.01)] +
              [dict(n=n, t0=t0, h=h) for n in big for t0 in (None, 1, n // 3, n // 2, n - 1)
               for h in (None, -0.5, -1, 0.5, 1.0, 2, -1.5, 3)], sing, "lengths x positions x strengths"),
        Space("altes", [dict(n=n, lo=lo, hi=hi, alpha=a) for n in list(small) + big + [2048, 4097]
                        for lo, hi in ((None, None), (0.1, 0.45), (0.2, 0.3), (0.01, 0.5), (None, 0.3), (0.1, None), (0.0123456789, 0.4123456789),
                                       (0.001, 0.002), (0.4, 0.49))
                        for a in (None, 2, 50, 10000.0, 123.456789, 1.7, 1e9)], altes_, "lengths x bands x attenuations"),
        Space("klauder", [dict(n=n, g=g, f0=f) for n in list(range(2, 60 if deep else 36)) + big
                          for g in (None, 1.0, 3, 10.0, 25.5, 7.123456789, 0.5, 50) for f in (None, 0.01, 0.1, 0.25, 0.4, 0.49, 0.123456789, 0.3)],
              klauder_, "lengths x attenuations x frequencies"),
        Space("mexhat", [dict(nu=v) for v in [None, 0.5, 0.25, 0.125, 0.0625, 0.001, 0.0001, 0.0123456789] +
                         [j / 1009.0 for j in range(1, 505)] + [j / 200.0 for j in range(1, 101) if not 300 % j == 0]], hat, "frequencies"),
        Space("gdpower", [dict(n=n, k=k, c=c) for n in list(range(2, 60 if deep else 36)) + big
                          for k in (None, 0, 0.5, -0.5, -1, -2, 1, 1.5, 2, 3, 4.5, 0.25, 1.23456789, 0.99, 1.01, -3)
                          for c in (None, 1, 0.5, -0.5, -1.0, 0.25, 0.123456789, 2, -3)
                          if not (k is not None and k < 0 and abs(c or 1) > 1)], gd, "lengths x degrees x rates")]
