"""C13: the scalogram is the squared modulus of the wavelet transform, with the energy of its band."""
import numpy as np
from tftb.processing import Scalogram

from mc import model
from mc.core import Space
from mc.signals import sig
from mc.props.c12 import times


def wavelet(kind, width, a, f):
    """(centre, samples) of the wavelet at scale a, frequency f; None when its length is too close to call."""
    if kind == "morlet":
        w = width * a
        if abs(w - np.floor(w) - 0.5) < 1e-9 * w:
            return None
        R = int(np.round(w))
        k = np.arange(-R, R + 1)
        return R, 10.0 ** (-2.0 * (k / w) ** 2) * np.exp(2j * np.pi * f * k)
    v = 1.5 / f
    if not model._off(v, 1e-9 * v):
        return None
    R = int(np.ceil(v))
    k = np.arange(-R, R + 1)
    g = (np.pi * f * k) ** 2
    return R, f * np.sqrt(np.pi) / 2 * np.exp(-g) * (1 - 2 * g)


def transform(s, fmin, fmax, K, kind, width, tt):
    N = len(s)
    r = np.real(s)
    z = model.analytic(r - r.mean())
    f = model.geometric(fmin, fmax, K) if K > 1 else np.array([fmin])
    out = np.zeros((K, len(tt)), complex)
    for i in range(K):
        a = fmax / f[i]
        w = wavelet(kind, width, a, f[i])
        if w is None:
            return None
        R, h = w
        for c, t in enumerate(tt):
            lo, hi = max(-R, t - N + 1), min(R, t)
            k = np.arange(lo, hi + 1)
            out[i, c] = (z[t - k] * h[k + R]).sum() / np.sqrt(a)
    return z, f, out


def check(ctx, N, x, lo=None, hi=None, K=None, width=None, ts=None, shape=None):
    s = sig(x, N)
    tt = times(N, ts)
    kw = {}
    for k, v in (("fmin", lo), ("fmax", hi), ("n_voices", K), ("waveparams", width)):
        if v is not None:
            kw[k] = v
    if ts is not None:
        kw["timestamps"] = tt.copy()
    fmin, fmax, safe = lo, hi, True
    if lo is None or hi is None:
        a, b, safe = model.affine_default(s, tt)
        fmin, fmax = (a if lo is None else lo), (b if hi is None else hi)
    if not safe or not fmin < fmax:
        return ctx.skip()
    r = transform(s, fmin, fmax, N if K is None else K, "mexhat" if width == 0 else "morlet",
                  np.sqrt(N) if width is None else width, tt)
    if r is None:
        return ctx.skip()
    z, f, wt = r
    p = np.abs(wt) ** 2
    col = (p.sum(1) - p[:, 0] / 2 - p[:, -1] / 2) * abs(tt[1] - tt[0])
    vol = ((col[1:] + col[:-1]) * np.diff(f) / 2).sum()
    Z = np.fft.fft(z)
    b0, b1 = fmin * (N - 2), fmax * (N - 2)
    if any(abs(v - np.floor(v) - 0.5) < 1e-9 for v in (b0, b1)):
        return ctx.skip()
    en = (np.abs(Z[int(np.round(b0)):int(np.round(b1)) + 1]) ** 2).sum()
    if not vol > 1e-9 * p.max() or not np.sqrt(p.max()) > 1e-8 * np.abs(z).max() or not en > 1e-14 * (np.abs(Z) ** 2).sum():
        return ctx.skip()
    arg = s.copy() if shape is None else s.copy().reshape(shape)
    tfr, t, fr, got = ctx.call(lambda: Scalogram(arg, **kw).run())
    ctx.same(t, tt, "time axis")
    ctx.close(fr, f, "frequency axis", atol=1e-10)
    ctx.close(got, wt, "wavelet transform", rtol=1e-8, scale=np.abs(z).max() * len(f) + np.abs(wt).max())
    ctx.true(not np.iscomplexobj(tfr) and (tfr >= 0).all(), "scalogram is not real non-negative")
    ctx.close(tfr, p / vol * en / len(f), "scalogram value", rtol=1e-7)


def spaces(tier):
    deep = tier == "thorough"
    lens = list(range(4, 70 if deep else 41)) + [63, 64, 65] + ([100, 127, 128, 129, 256] if deep else [100, 128, 129])
    big = [200, 255, 256, 257, 300, 512, 513] + ([777, 1000, 1024, 1025] if deep else [1000])
    bands = [(0.053, 0.451), (0.11, 0.41), (0.21, 0.31), (0.013, 0.49), (0.023, 0.061), (0.41, 0.499), (0.251, 0.263)]
    T = [[0, 0, 2], [1, 0, 1], [0, 5, 1], [3, 3, 1], [2, 1, 3], [0, 0, 5], [0, 0, -1], [1, 2, -2], [0, 0, -3]]
    rich = ["d0", "r0", "i0", "n0", "a", "s", "v0", "ch", "k:17", "b:13,31*1e-8", "b:22,43*1e6", "b:22,43*-1", "b:22,43*1e-50", "d1*1e100",
            "d1*1e-100", "r1*-3", "j0"]
    pairs = lambda N: ["e:%d" % a for a in range(N)] + ["p:%d,%d" % (a, b) for a in range(N) for b in range(a)]  # noqa: E731
    sp = [
        Space("grid", (dict(N=N, x=x, lo=lo, hi=hi, K=K, width=w) for N in lens for lo, hi in bands
                       for K in (None, 3, 8, 2 * N) for w in (None, 2, 7.3, 0) for x in ("d0", "r0")
                       if N < 20 or (x == "d0" and K in (None, 8) and (N < 60 or K))), check,
              "lengths x bands x voices x wavelets (Morlet of several widths, Mexican hat)"),
        Space("widths", (dict(N=N, x="d0", lo=lo, hi=hi, K=K, width=w) for N in (9, 16, 33) for lo, hi in bands[:3] for K in (None, 5)
                         for w in [0.3, 0.7, 1, 1.2, 1.5, 1.8, 2.49, 3, 4, 5, 6.6, 8, 10, 12.3, 16, 20, 31, 40.2, 64, 100]), check, "wavelet widths"),
        Space("voices", (dict(N=N, x="d0", lo=lo, hi=hi, K=K, width=w) for N in (12, 33) for lo, hi in bands[:2]
                         for K in list(range(2, 70)) + [100, 128, 129, 200] for w in (None, 0, 3)), check, "every number of voices"),
        Space("bands", (dict(N=N, x="r0", lo=a / 50.0 + 0.003, hi=b / 50.0 + 0.003, K=6, width=w) for N in (11, 32) for b in range(2, 25)
                        for a in range(0, b) for w in (None, 0)), check, "every band on a grid"),
        Space("large", (dict(N=N, x=x, lo=lo, hi=hi, K=K, width=w, ts=ts) for N in big for lo, hi in ((0.053, 0.451), (0.013, 0.49)) for K in (3, 9)
                        for w in (None, 0, 4.2) for x in ("d0", "b:13,31") for ts in ([0, 0, 1], [5, 0, 7])), check, "long records"),
        Space("longer", (dict(N=N, x="d0", lo=0.053, hi=0.451, K=K, width=w, ts=[3, 0, st]) for N, K, st in ((128, 128, 5), (300, 200, 13), (513, 70, 17), (2048, 5, 50), (3001, 4, 77), (1025, 33, 41), (4097, 3, 200),
                                                                                                      (256, 64, 10), (257, 100, 9), (512, 50, 30), (1024, 20, 60), (64, 300, 3))
                         for w in (None, 0, 4.2)), check, "longer records and many voices"),
        Space("impulses", (dict(N=N, x=x, lo=0.11, hi=0.41, K=K, width=w) for N in (6, 9, 12) for K in (3, None)
                           for w in (None, 1, 3, 0) for x in pairs(N)), check, "impulses and impulse pairs"),
        Space("defaults", (dict(N=N, x=x, lo=lo, hi=hi, K=K, width=w) for N in (16, 17, 24, 32, 33, 40, 64)
                           for lo, hi in ((None, None), (0.11, None), (None, 0.41)) for K in (None, 8)
                           for w in (None, 0, 3)
                           for x in ("d0", "r1", "b:13,31", "b:22,43", "b:7,37", "b:31,47", "g:%d" % (N // 2), "ch",
                                     "t:%d" % (2 * N // 3))), check, "band left to the class"),
        Space("times", (dict(N=N, x=x, lo=lo, hi=hi, K=K, width=w, ts=ts) for N in (12, 21, 40)
                        for x in ("d0", "b:13,31") for lo, hi in ((0.11, 0.41), (None, None)) for K in (None, 5)
                        for w in (None, 0, 3) for ts in T), check, "regular subsets of instants, forwards and backwards"),
        Space("shapes", (dict(N=N, x=x, lo=lo, hi=hi, K=K, width=w, shape=sh) for N in (9, 16, 33) for K in (None, 5) for x in ("d0", "b:13,31")
                         for lo, hi in ((0.11, 0.41), (None, None)) for w in (None, 0, 3) for sh in ([N, 1], [1, N])), check, "row and column vectors"),
        Space("scale", (dict(N=N, x=x, lo=lo, hi=hi, K=K, width=w) for N in (12, 17, 40) for w in (None, 0, 3)
                        for lo, hi in ((0.11, 0.41), (None, None)) for K in (8, None) for x in rich), check, "kinds of signals, amplitude")]
    return sp
