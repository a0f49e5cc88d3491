"""C10: the narrow-band ambiguity function is what its definition says."""
import numpy as np
from tftb.processing import ambiguity

from mc import model
from mc.core import Space
from mc.signals import sig, words, polar, BIG, RICH, product


def default_lags(N):
    return np.arange(-N // 2 + 1, N // 2) if N % 2 == 0 else np.arange(-(N - 1) // 2, (N - 1) // 2 + 1)


def check(ctx, N, n, x, lags=None, lag_type=None):
    s = sig(x, N)
    kw = {}
    if n is not None:
        kw["n_fbins"] = n
    if lags is not None:
        kw["lag"] = np.array(lags)
    nf = N if n is None else n
    ll = default_lags(N) if lags is None else np.array(lags)
    if lag_type is not None:
        kw["lag"] = kw["lag"].astype(lag_type)
    naf, lag, xi = ctx.call(ambiguity.narrow_band, s.copy(), **kw)
    want, wxi = model.narrow_band(s, [int(v) for v in ll], nf)
    sc = max((np.abs(s) ** 2).sum(), 1e-300)
    ctx.close(naf, want, "narrow-band ambiguity value", scale=sc)
    ctx.close(lag, ll, "lag axis", atol=1e-12)
    ctx.close(xi, wxi, "doppler axis", atol=1e-12)
    # energy at the origin, nothing larger anywhere
    if 0 in list(ll):
        o = naf[int(np.argmin(np.abs(wxi))), list(ll).index(0)]
        ctx.close(o, (np.abs(s) ** 2).sum(), "value at the origin", scale=sc)
    ctx.true(np.abs(naf).max(initial=0) <= sc * (1 + 1e-9), "exceeds the energy of the signal")


def spaces(tier):
    deep = tier == "thorough"
    W, P, D = (7, 18, 160) if deep else (6, 13, 90)
    return [
        Space("words", (dict(N=N, n=n, x=w) for N in range(1, W + 1)
                        for n in [None] + list(range(N, N + 4)) + [2 * N + 3] for w in words(N) if N < 6 or n in (None, N + 1) or deep), check,
              "all signals over {0,1,-1,i} up to %d samples" % W),
        Space("pairs", (dict(N=N, n=n, x=x) for N in range(2, P + 1) for n in range(N, 2 * N + 2)
                        for x in polar(N)), check, "impulse pairs (determine every sesquilinear form)"),
        Space("dense", (dict(N=N, n=n, x=x) for N in range(1, D) for n in (None, N + 1, N + 2, 2 * N - 1 if N > 1 else 2, 2 * N, 2 * N + 1, 3 * N, 1 << N.bit_length())
                        for x in (RICH if N <= 24 else ["d0", "r0", "v0", "d1*1e-8", "a"])), check, "dense signals of every length"),
        Space("large", [dict(N=N, n=n, x=x) for N in BIG for n in (None, N + 1, 2 * N)
                        for x in (("d0", "r0*1e-7") if N < 300 or deep else ("d0",)) if n != 2 * N or N < 520 or deep] +
              [dict(N=N, n=n, x="d0") for N in (5, 8, 31) for n in (100, 256, 500, 512, 1000, 1024, 2048)],
              check, "long signals, many bins"),
        Space("lags-long", (dict(N=N, n=n, x=x, lags=[int(v) for v in lags]) for N in (6, 16, 17, 40, 129, 256, 300)
                            for n in (N, N + 1, 2 * N) for x in ("d0", "r0")
                            for lags in (range(-N, N + 1), range(N, -N, -3), [0], [0, 0, 1, 1], [N // 2, -N // 2, 0],
                                         [127, 128, -128, -129, 255, 256, 257, 512, 65536, -65536, 0], range(0, N, 2),
                                         [10 ** 6, 0, -10 ** 6], range(5, 6), [-1], [1])), check,
              "long signals, far and unordered lags"),
        Space("lag-types", product(N=[7, 8], n=[8, 9], x=["d0"], lags=[[0, 1, -1, 3], [-3, 2, 40]],
                                   lag_type=["int8", "int16", "int32", "int64", "float64", "float32"]), check, "lags of any type"),
        Space("lags", (dict(N=N, n=n, x=x, lags=lags) for N in (1, 4, 5, 8, 9) for n in (N, N + 1, 2 * N)
                       for x in ("d0", "d1")
                       for lags in [[a] for a in range(-N - 1, N + 2)] +
                       [[a, b] for a in range(-N, N + 1) for b in range(-N, N + 1)] +
                       [list(range(a, b)) for a in range(-N, 1) for b in range(1, N + 1)]), check,
              "every lag and pair of lags, in any order, including lags beyond the signal")]
