"""C04: the Margenau-Hill distribution is what its definition says."""
import numpy as np
from tftb.processing import MargenauHillDistribution

from mc import model
from mc.core import Space
from mc.signals import sig, words, polar, BIG, RICH, instants
from mc.props.c02 import subsets
from mc.props.c03 import bins


def check(ctx, N, n, x, ts=None):
    s = sig(x, N)
    kw = {}
    if n is not None:
        kw["n_fbins"] = n
    if ts is not None:
        kw["timestamps"] = np.array(ts)
    nf = N if n is None else n
    tt = list(range(N)) if ts is None else ts
    tfr, t, fr = ctx.call(lambda: MargenauHillDistribution(s.copy(), **kw).run())
    p = np.abs(s) ** 2
    sc = max(p.sum(), 1e-300)
    ctx.close(tfr, model.margenau_hill(s, tt, nf), "Margenau-Hill value", scale=sc)
    ctx.true(not np.iscomplexobj(tfr), "Margenau-Hill is not real")
    ctx.close(fr, bins(nf), "Margenau-Hill frequency axis", atol=1e-12)
    ctx.same(t, np.array(tt), "Margenau-Hill time axis")
    ctx.close(tfr.sum(axis=0) / nf, p[tt], "Margenau-Hill time marginal", scale=sc)
    if ts is None:
        ctx.close(tfr.sum(axis=1), np.abs(np.fft.fft(s, nf)) ** 2, "Margenau-Hill frequency marginal", scale=sc * N)


def spaces(tier):
    deep = tier == "thorough"
    W, P, D = (7, 18, 160) if deep else (6, 13, 90)
    return [
        Space("words", (dict(N=N, n=n, x=w) for N in range(1, W + 1)
                        for n in [None] + list(range(N, N + 4)) + [2 * N + 3] for w in words(N) if N < 6 or n in (None, N + 1) or deep), check,
              "all signals over {0,1,-1,i} up to %d samples" % W),
        Space("pairs", (dict(N=N, n=n, x=x) for N in range(2, P + 1) for n in range(N, 2 * N + 2)
                        for x in polar(N)), check, "impulse pairs (determine every sesquilinear form)"),
        Space("dense", (dict(N=N, n=n, x=x) for N in range(1, D) for n in (None, N + 1, N + 2, 2 * N - 1 if N > 1 else 2, 2 * N, 2 * N + 1, 3 * N, 1 << N.bit_length())
                        for x in (RICH if N <= 24 else ["d0", "r0", "v0", "d1*1e-8", "a"])), check, "dense signals of every length"),
        Space("large", [dict(N=N, n=n, x=x) for N in BIG for n in (None, N + 1, 2 * N)
                        for x in (("d0", "r0*1e-7") if N < 300 or deep else ("d0",)) if n != 2 * N or N < 520 or deep] +
              [dict(N=N, n=n, x="d0") for N in (5, 8, 31) for n in (100, 256, 500, 512, 1000, 1024, 2048)],
              check, "long signals, many bins"),
        Space("times-long", (dict(N=N, n=n, x=x, ts=ts) for N in (3, 5, 10, 16, 31, 64, 130, 300) for n in (None, N + 1, 2 * N)
                             for x in ("d0", "v0") for ts in instants(N)), check, "lists of instants in and out of order"),
        Space("times", (dict(N=N, n=n, x="d0", ts=ts) for N in range(1, 10) for n in (9, 10, 13)
                        for ts in subsets(N)), check, "every subset of time instants")]
