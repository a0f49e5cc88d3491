"""C20: Doppler signal, Gaussian atoms, merging at an energy ratio, Mellin scaling."""
import numpy as np
from tftb.generators import atoms, doppler, scale, sigmerge

from mc import model
from mc.core import Space
from mc.signals import sig, words


def dop(ctx, n, fs, f0, d, v, t0=None, c=None):
    kw = {}
    if t0 is not None:
        kw["t0"] = t0
    if c is not None:
        kw["v_wave"] = c
    fm, am, law = ctx.call(doppler, n, fs, f0, d, v, **kw)
    c, t0 = (340.0 if c is None else c), (n / 2.0 if t0 is None else t0)
    t = (np.arange(1, n + 1) - t0) / float(fs)
    r = np.sqrt(d ** 2 + (v * t) ** 2)
    ctx.close(fm, np.exp(2j * np.pi * ((f0 * (t - r / c)) % 1.0)), "frequency modulation", rtol=0, atol=1e-8)
    ctx.close(law, (1 - v ** 2 * t / r / c) * f0 / fs, "frequency law", rtol=1e-11, atol=1e-14 * min(1, f0 / float(fs)))
    if f0 == 0:
        ctx.true(np.all(np.asarray(am) == 0), "amplitude without a carrier")
    else:
        ctx.close(am, 1 / np.sqrt(r), "amplitude modulation", rtol=1e-11)


def atom(ctx, n, rows, vec=False):
    a = np.array(rows, dtype=float)
    y = ctx.call(atoms, n, a[0].copy() if vec else a.copy())
    k = np.arange(n)
    x = np.zeros(n, complex)
    for t0, f0, T, A in rows:
        t0 = round(min(max(t0, 1), n))
        f0 = min(max(f0, 0.0), 0.5)
        x += A * np.exp(-np.pi * ((k + 1 - t0) / float(T)) ** 2) * np.exp(2j * np.pi * ((f0 * (k - t0)) % 1.0))
    ctx.close(y, x, "sum of atoms", rtol=1e-10, scale=max(abs(r[3]) for r in rows))


def merge(ctx, n, x, y, r=None):
    a, b = sig(x, n), sig(y, n)
    if not np.abs(a).any() or not np.abs(b).any():
        return ctx.skip()
    z = ctx.call(sigmerge, a.copy(), b.copy()) if r is None else ctx.call(sigmerge, a.copy(), b.copy(), r)
    r = 0.0 if r is None else r
    h = np.sqrt((np.abs(a) ** 2).sum() / (np.abs(b) ** 2).sum()) * 10 ** (-r / 20.0)
    ctx.close(z, a + h * b, "merged signal", rtol=1e-11)
    e = (np.abs(z - a) ** 2).sum()
    ctx.close(10 * np.log10((np.abs(a) ** 2).sum() / e), r, "energy ratio in dB", rtol=0, atol=1e-5)


def scaled(x, a, lo, hi, N):
    n = len(x)
    z = model.analytic(np.real(x))
    M = (n + 1) // 2
    lq = np.log(hi / float(lo)) / (N - 1.0)
    f = lo * np.exp(np.arange(N) * lq)
    Z = np.exp(-2j * np.pi * np.outer(f, np.arange(n) - M)).dot(z)
    sc = np.atleast_1d(a)
    half = [int(np.ceil(s * n / 2.0)) for s in sc]
    top = max(half)
    S = np.zeros((2 * top, len(sc)), complex)
    m = np.arange(-N, N)
    for i, s in enumerate(sc):
        # spectrum read at dilated frequencies: band-limited shift on the geometric grid
        D = np.arange(N)[None, :] - np.arange(N)[:, None] - np.log(s) / lq
        K = np.exp(2j * np.pi * D[:, :, None] * m / (2.0 * N)).sum(2) / (2.0 * N)
        G = K.dot(Z)
        t = np.arange(-half[i], half[i])
        E = np.exp(2j * np.pi * np.outer(t, f)) * G
        S[top - half[i]:top + half[i], i] = ((E[:, 1:] + E[:, :-1]) * np.diff(f) / 2).sum(1)
    if np.ndim(a) == 0:
        S = S[:, 0]
    return S * np.linalg.norm(x) / np.linalg.norm(S)


def scl(ctx, n, x, a, lo, hi, N):
    s = sig(x, n)
    if not np.abs(np.real(s)).any():
        return ctx.skip()
    a = np.array(a) if isinstance(a, list) else a
    want = scaled(s, a, lo, hi, N)
    got = ctx.call(scale, s.copy(), a, lo, hi, N)
    ctx.close(got, want, "scaled signal", rtol=1e-7)
    ctx.close(np.linalg.norm(got), np.linalg.norm(s), "energy of the scaled signal", rtol=1e-9)


def spaces(tier):
    deep = tier == "thorough"
    ns = list(range(2, 80 if deep else 40)) + [63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 1000, 1025, 2048, 3001]
    few = [2, 3, 4, 5, 7, 8, 12, 16, 17, 31, 32, 33, 64, 65, 100, 128, 257, 512, 1000]
    A = [[32.0, 0.3, 32.0, 1.0], [0.15, 0.15, 48.0, 1.22], [5, 0.25, 3.0, -2.0], [-7, 0.7, 10.0, 1.0],
         [1e4, -0.2, 20, 0.5], [11.3, 0.45, 7.7, 1e-3], [9.123456789, 0.123456789, 5.123456789, 0.3123456789],
         [2.5, 0.5, 1.0, 1.0], [7.5, 0.0, 0.3, 2.0], [1, 0.05, 500.0, 1e3], [3.49, 0.49, 2, 0.0]]
    sm = 4 if deep else 3
    rich = ["d0", "r0*1e-6", "i0", "j0", "n0", "c", "a", "s", "v0", "d1*1e8", "d0*1e-100", "d1*1e100"]
    scl_a = (1, 2, 0.5, 1.5, 0.8, 3.3, 1.0, 0.25, 4, 0.501, 1.01, 0.99, 2.003, 5.7, 0.37, 1.3333333333, 0.7123456789, 1.0004, 2.00001, 0.50004, 1.000001,
             1 / 3.0 + 1e-6, 0.9996, 1.99999)
    vec = ([1.0, 2.0], [0.5, 1.3, 2.2], [2.2, 0.5], [1], [0.501, 1.7, 0.501], [3.1, 3.1], [0.8, 0.9, 1.0, 1.1, 1.2])
    bands = ((0.05, 0.45), (0.1, 0.4), (0.2, 0.3), (0.123456789, 0.423456789), (0.02, 0.5), (0.4, 0.49))
    return [
        Space("doppler", [dict(n=n, fs=fs, f0=f, d=d, v=v, t0=t0, c=c) for n in ns
                          for fs, f in ((200.0, 65.0), (100, 0), (100, 50), (1.0, 0.25), (123.456789, 12.3456789), (8000, 4000.0), (1.0, 1e-4), (1.0, 1e-9), (1e6, 0.003))
                          for d in (10.0, 0.5, 1000, 7.123456789)
                          for v in (0, 50.0, 400.0, 33.123456789) for t0, c in ((None, None), (1, None), (n, 1500.0), (n / 3.0 + 1, 20), (n / 2.0, 340.0))
                          if t0 is None or 1 <= t0 <= n], dop, "lengths x geometries x centres x speeds"),
        Space("atoms", [dict(n=n, rows=r) for n in [1] + few for r in
                        [[a] for a in A] + [[a, b] for a in A for b in A] + [A, A[::-1], A * 3]] +
              [dict(n=n, rows=[[t, f, T, w]]) for n in few for t in (0, 1, n / 3.0, n / 2.0, n - 0.5, n, n + 0.6) for f in (-0.1, 0, 0.2, 0.5, 0.61)
               for T in (0.7, 5, n) for w in (1, -0.5)] +
              [dict(n=n, rows=[a], vec=True) for n in [1] + ns for a in A], atom, "lengths x sets of atoms"),
        Space("merge-words", [dict(n=n, x=x, y=y, r=r) for n in range(1, sm) for x in words(n) for y in words(n)
                              for r in (None, 0.0, 3, -10.0)], merge, "all pairs of short signals"),
        Space("merge", [dict(n=n, x=x, y=y, r=r) for n in ns for x in ("d0", "r0*1e-6", "i0") for y in ("d1", "r1*1e5")
                        for r in (None, 0, -20, 20.0, 3.5, -0.1, 60, 1.23456789, -60.5, 5)], merge, "long signals"),
        Space("merge-kinds", [dict(n=n, x=x, y=y, r=r) for n in (2, 7, 32, 65) for x in rich for y in rich
                              for r in (None, 0.0, 7, -13.5) if not ("1e-100" in x + y and "1e100" in x + y)], merge,
              "kinds of signals"),
        Space("scale", [dict(n=n, x=x, a=a, lo=lo, hi=hi, N=N)
                        for n in list(range(4, 48 if deep else 26)) + [32, 33, 64, 65]
                        for x in ("d0", "r0", "b:13,31") for a in (1, 2, 0.5, 1.5, 0.8, 3.3, [1.0, 2.0], [0.5, 1.3, 2.2])
                        for lo, hi in bands[:4] for N in (2, 8, 17, 32)
                        if n < 32 or N in (8, 17)], scl, "lengths x dilations x bands x voices"),
        Space("scale-factors", [dict(n=n, x="d0", a=a, lo=lo, hi=hi, N=N) for n in (4, 7, 12, 16, 25, 32, 64, 100) for a in scl_a + vec
                                for lo, hi in bands for N in (3, 12, 33)], scl, "dilations"),
        Space("scale-halves", [dict(n=n, x="d0", a=k / float(d), lo=0.1, hi=0.4, N=9) for n in (6, 10, 15, 20, 33) for d in (5, 7, 10, 20)
                               for k in range(d // 4 + 1, 3 * d + 1)], scl, "dilations on fine grids"),
        Space("scale-signals", [dict(n=n, x=x, a=a, lo=lo, hi=hi, N=N) for n in (8, 13, 32) for x in rich for a in (1, 1.5, 0.7, [1.0, 2.5])
                                for lo, hi in bands[:2] for N in (8, 17) if x not in ("c", "a", "j0")], scl, "kinds of signals"),
        Space("scale-long", [dict(n=n, x=x, a=a, lo=lo, hi=hi, N=N) for n in (127, 128, 200, 256, 257, 500) for x in ("d0", "b:13,31")
                             for a in (1, 0.5, 1.501, [0.7, 1.3]) for lo, hi in bands[:2] for N in (9, 32)], scl, "long signals")]
