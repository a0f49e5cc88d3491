"""C01: the Wigner-Ville distribution is what its definition says."""
import numpy as np
from tftb.processing import WignerVilleDistribution

from mc import model
from mc.core import Space
from mc.signals import sig, words, polar, bins, product, BIG, DENSE, RICH


def check(ctx, N, n, x):
    s = sig(x, N)
    kw = {} if n is None else {"n_fbins": n}
    nf = N if n is None else n
    tfr, ts, fr = ctx.call(lambda: WignerVilleDistribution(s.copy(), **kw).run())
    want = model.pwv(s, nf)
    ctx.close(tfr, want, "WVD value")
    ctx.true(not np.iscomplexobj(tfr), "WVD is not real")
    ctx.close(fr, np.arange(nf) / (2.0 * nf), "WVD frequency axis", atol=1e-12)
    ctx.same(ts, np.arange(N), "WVD time axis")
    # consequences a user relies on, observed directly on the result
    p = np.abs(s) ** 2
    ctx.close(tfr.sum(axis=0) / nf, p, "WVD time marginal", scale=max(p.max(initial=0), 1e-300) * N)
    if nf >= N:
        S = np.abs(np.fft.fft(s, 2 * nf)) ** 2
        # even bins of the doubled grid: sum over time of the distribution at k/(2n), period folding 1/2
        ctx.close(tfr.sum(axis=1), 0.5 * (S[:nf] + S[nf:]), "WVD frequency marginal",
                  scale=max(p.sum(), 1e-300) * N)


# what a caller may call the samples: seconds, dates, sample numbers of a longer record, reversed, all the same
LABELS = {"unit": lambda N: np.linspace(0, 1, N), "late": lambda N: np.arange(N) + 100, "coarse": lambda N: np.arange(N) * 0.5,
          "neg": lambda N: np.arange(N) - 7, "rev": lambda N: np.arange(N)[::-1], "same": lambda N: np.zeros(N, int),
          "huge": lambda N: 1e9 + np.arange(N) * 1e-3, "one": lambda N: np.arange(1, N + 1), "log": lambda N: np.logspace(-3, 3, N),
          "perm": lambda N: (np.arange(N) * 7) % max(N, 1), "step2": lambda N: 2 * np.arange(N), "i8": lambda N: np.arange(N).astype(np.int8)}


def labels(ctx, N, lab, n=None):
    s = sig("d0", N)
    ts = LABELS[lab](N)
    nf = N if n is None else n
    kw = {} if n is None else {"n_fbins": n}
    tfr, t, fr = ctx.call(lambda: WignerVilleDistribution(s, timestamps=ts.copy(), **kw).run())
    ctx.close(tfr, model.pwv(s, nf), "WVD value with sample labels")
    ctx.close(fr, np.arange(nf) / (2.0 * nf), "WVD frequency axis", atol=1e-12)
    ctx.same(t, ts, "WVD time axis with sample labels")


def scaled(ctx, N, n, x, c):
    s = sig(x, N)
    c = complex(c)
    a = ctx.call(lambda: WignerVilleDistribution(c * s, n_fbins=n).run())[0]
    b = model.pwv(s, n)
    ctx.close(a, abs(c) ** 2 * b, "WVD of a scaled signal")


def spaces(tier):
    deep = tier == "thorough"
    W = 7 if deep else 6
    sp = [Space("words", (dict(N=N, n=n, x=w) for N in range(1, W + 1)
                          for n in [None] + list(range(1, 10 if N < 5 else 7)) for w in words(N)), check,
                "all signals over {0,1,-1,i} up to %d samples, all bin counts up to 6 (9 below 5 samples)" % W)]
    P = 18 if deep else 12
    sp.append(Space("pairs", (dict(N=N, n=n, x=x) for N in range(2, P + 1)
                              for n in range(1, 2 * N + 2) for x in polar(N)), check,
                    "impulses and impulse pairs (determine every sesquilinear form), N <= %d, "
                    "every bin count up to 2N+1" % P))
    D = 160 if deep else 72
    sp.append(Space("dense", (dict(N=N, n=n, x=x) for N in range(1, D + 1)
                              for n in bins(N) for x in (RICH if N <= 24 else ["d0", "r0", "v0", "d1*1e-8", "a"])), check, "dense signals, every length up to %d" % D))
    sp.append(Space("large", [dict(N=N, n=n, x=x) for N in BIG for n in (None, N // 2, N // 2 + 1, N + 1, 16, 127, 256)
                              for x in (DENSE[:2] if N < 600 or deep else DENSE[:1])] +
                    [dict(N=N, n=n, x="d0") for N in (1500, 2048, 4097) for n in (16, 63, 64, 255, 256)] +
                    [dict(N=N, n=n, x="d0") for N in (8, 33, 100) for n in (500, 512, 1000, 1023, 1024, 2048, 4096)],
                    check, "long signals, many bins"))
    sp.append(Space("labels", product(N=[1, 2, 3, 5, 8, 13, 32, 33, 130, 300], n=[None, 4, 7, 16, 40], lab=sorted(LABELS)), labels,
                    "sample labels on the time axis"))
    sp.append(Space("scaled", product(N=[2, 4, 7, 20, 70], n=[4, 7, 9, 16, 64, 65], x=["d0", "d1", "r0", "p:0,1"],
                                      c=["1e-150", "1e-100", "1e-30", "1e-12", "1e-6", "1e-3", "2j", "-1", "1e3", "1e6", "1e20", "1e100", "1e150"]), scaled,
                    "quadratic in the signal"))
    return sp
