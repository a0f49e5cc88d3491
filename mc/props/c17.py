"""C17: keyed signals carry one symbol of the alphabet per component, all symbols reachable."""
import math

import numpy as np
from tftb.generators import anaask, anabpsk, anafsk, anaqpsk

from mc.core import Space

F = {"ask": anaask, "bpsk": anabpsk, "qpsk": anaqpsk, "fsk": anafsk}


def one(ctx, kind, n, L, par, seed):
    np.random.seed(seed)
    kw = {}
    if L is not None:
        kw["n_comp"] = L
    if par is not None:
        kw["Nbf" if kind == "fsk" else "f0"] = par
    y, law = ctx.call(F[kind], n, **kw)
    y, law = np.asarray(y), np.asarray(law)
    ctx.shape(y, (n,), kind + " signal")
    ctx.shape(law, (n,), kind + " modulating law")
    if L is None:
        L = round(n / 2.0) if kind == "ask" else round(n / 5.0)
    L = int(L)
    m = math.ceil(n / L)
    # one symbol per component
    blocks = [law[k * L:(k + 1) * L] for k in range(m)]
    for k, b in enumerate(blocks):
        ctx.true((b == b[0]).all(), "%s symbol changes inside component %d", kind, k)
    sym = [b[0] for b in blocks]
    t = np.arange(n)
    f0 = 0.25 if par is None else par
    carrier = np.exp(2j * np.pi * f0 * (t - 1)) if kind != "fsk" else None
    if kind == "ask":
        ctx.true(all(0 <= s < 1 for s in sym), "ASK amplitude outside [0, 1): %s", sym)
        want = law * carrier
        word = tuple(int(s * 4) for s in sym)
    elif kind == "bpsk":
        ctx.true(all(s in (-1, 1) for s in sym), "BPSK symbol not +-1: %s", sym)
        want = law * carrier
        word = tuple(int(s > 0) for s in sym)
    elif kind == "qpsk":
        q = np.array(sym) / (np.pi / 2)
        ctx.close(q, np.round(q), "QPSK phases are multiples of a quarter turn", rtol=0, atol=1e-9)
        ctx.true(set(np.round(q).astype(int)) <= {0, 1, 2, 3}, "QPSK phase %s", q)
        want = carrier * np.exp(1j * law)
        word = tuple(int(v) for v in np.round(q))
    else:
        M = 4 if par is None else int(par)
        q = ((np.array(sym) - 0.25) / 0.25 + (M - 1) / (2.0 * M)) * M
        ctx.close(q, np.round(q), "FSK frequencies on their grid", rtol=0, atol=1e-9)
        ctx.true(set(np.round(q).astype(int)) <= set(range(M)), "FSK symbol %s of %s", q, M)
        want = np.exp(2j * np.pi * np.cumsum(law))
        word = tuple(int(v) for v in np.round(q))
    ctx.close(y, want, kind + " signal", rtol=0, atol=1e-9)
    ctx.outcomes.add("%s%s" % (kind, word[:3]))
    return word


def check(ctx, kind, n, L, par, seeds):
    for s in range(*seeds):
        one(ctx, kind, n, L, par, s)


def reach(ctx, kind, par, m, seeds):
    """Every word of m symbols occurs."""
    size = {"ask": 4, "bpsk": 2, "qpsk": 4, "fsk": 4 if par is None else int(par)}[kind]
    seen = {one(ctx, kind, 3 * m, 3, par, s) for s in range(seeds)}
    ctx.true(len(seen) == size ** m, "%s: only %d of %d words of %d symbols occur in %d draws", kind, len(seen),
             size ** m, m, seeds)


def pairs(ctx, kind, par, m, L, n, seeds):
    """In longer signals, with a last component that may be cut short, every pair of symbols occurs at every pair of places."""
    size = {"ask": 4, "bpsk": 2, "qpsk": 4, "fsk": 4 if par is None else int(par)}[kind]
    w = np.array([one(ctx, kind, n, L, par, s) for s in range(seeds)])
    ctx.true(w.shape == (seeds, m), "words of %s symbols instead of %d", w.shape, m)
    for i in range(m):
        for j in range(i):
            k = len(set((w[:, i] * size + w[:, j]).tolist()))
            ctx.true(k == size ** 2, "%s: only %d of %d pairs of symbols occur at components %d and %d of %d", kind, k, size ** 2, j, i, m)
    c = w - w.mean(0)
    s = np.sqrt((c ** 2).mean(0))
    # expected occurrences: each symbol equally often, within six standard deviations
    for v in range(size):
        f = (w == v).mean(0)
        d = 6 * np.sqrt((1 - 1.0 / size) / size / seeds)
        ctx.true(np.abs(f - 1.0 / size).max() < d, "%s: symbol %d occurs with frequencies %s", kind, v, f)
    r = np.abs((c.T @ c) / seeds / np.outer(s, s) - np.eye(m)).max()
    ctx.true(r < 6 / np.sqrt(seeds), "%s: symbols of different components are correlated (%.2f)", kind, r)


def again(ctx, kind, n, L, seed):
    a = one(ctx, kind, n, L, None, seed)
    b = one(ctx, kind, n, L, None, seed)
    ctx.true(a == b, "the same generator state gives another word")


def spaces(tier):
    deep = tier == "thorough"
    ns = list(range(3, 60 if deep else 40)) + [64, 65, 100, 127, 128, 129, 200, 255, 256, 300, 512, 1000, 1024]
    sp = []
    for kind in F:
        pars = [None, 2, 3, 4, 5, 8, 5.0, 1, 6, 7, 9, 16, 17, 20, 33, 64, 100] if kind == "fsk" else \
            [None, 0.0, 0.05, 0.37, 0.5, 0.1234567891, 1e-5, 0.25, 0.499, 0.1]
        sp += [Space(kind, (dict(kind=kind, n=n, L=L, par=p, seeds=[0, 12 if deep else 4]) for n in ns
                            for L in sorted({1, 2, 3, 4, 5, 6, 7, max(1, n // 3), max(1, n // 2 - 1), max(1, n // 2), n // 2 + 1, n - 1, n, n + 1, 2 * n, 64}) +
                            [None, 4.0]
                            for p in pars if not (n > 60 and L in (1, 2)) and (n < 20 or p in pars[:5] or L in (3, 7, n // 3))), check,
                     "lengths x component lengths (dividing, not dividing, longer) x parameters x generator states"),
               Space(kind + "-states", (dict(kind=kind, n=n, L=L, par=p, seeds=[k, k + 50]) for k in range(0, 4000 if deep else 1000, 50)
                                        for n, L in ((12, 3), (13, 4), (40, 1)) for p in (pars[0], pars[3])), check, "many generator states"),
               Space(kind + "-long", (dict(kind=kind, n=n, L=L, par=p, seeds=[0, 3]) for n in (1500, 2048, 4097) for L in (17, 100, 1000, None)
                                      for p in pars[:4]), check, "long signals"),
               Space(kind + "-reach", [dict(kind=kind, par=p, m=m, seeds=2000 if deep else 600)
                                       for m in (1, 2) for p in ([None, 2, 3] if kind == "fsk" else [None, 0.1])] +
                     [dict(kind=kind, par=p, m=1, seeds=3000) for p in ([8, 16, 17, 20, 33, 64] if kind == "fsk" else [0.0, 0.5])] +
                     [dict(kind=kind, par=None, m=3, seeds=3000)],
                     reach, "all symbol words"),
               Space(kind + "-pairs", [dict(kind=kind, par=p, m=m, L=L, n=n, seeds=1600 if deep else 800) for p in ([None, 2, 3] if kind == "fsk" else [None, 0.1])
                                       for m, L, n in ((2, 3, 4), (2, 5, 9), (3, 3, 7), (4, 2, 7), (5, 3, 13), (8, 4, 32), (8, 4, 30), (12, 1, 12))], pairs,
                     "pairs of symbols at every pair of places"),
               Space(kind + "-again", (dict(kind=kind, n=n, L=L, seed=s) for n in (8, 13, 30) for L in (2, 3, 30)
                                       for s in range(25)), again, "reproducible from the generator state")]
    return sp
