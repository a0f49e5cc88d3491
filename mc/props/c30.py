"""C30: the Page, pseudo Page and pseudo Margenau-Hill distributions are what their definitions say."""
import numpy as np
from tftb.processing import cohen

from mc.core import Space
from mc.signals import sig, words, polar, window, hamming_default, bins as bincounts, instants, BIG, RICH
from mc.props.c02 import subsets
from mc.props.c03 import bins

CLS = {"page": cohen.PageRepresentation, "ppage": cohen.PseudoPageRepresentation, "pmh": cohen.PseudoMargenauHillDistribution}


def reference(kind, s, tt, n, h):
    """Re sum over lags of h[tau] x[t] x*[t - tau] exp(-2 pi i k tau / n), the lags being those of the kind."""
    N, k = len(s), np.arange(n)
    out = np.zeros((n, len(tt)))
    c = (len(h) - 1) // 2 if h is not None else 0
    for j, t in enumerate(tt):
        for u in range(N):
            tau = t - u
            w = 1.0
            if kind == "page":
                if not 0 <= tau < n:
                    continue
            else:
                lo, hi = (0, n - 1) if kind == "ppage" else (-((n - 1) // 2), (n - 1) // 2)
                if not lo <= tau <= hi or abs(tau) > c:
                    continue
                w = h[c + tau]
            out[:, j] += np.real(w * s[t] * np.conj(s[u]) * np.exp(-2j * np.pi * ((k * tau) % n) / n))
    return out


def check(ctx, kind, N, n, x, h=None, ts=None):
    s = sig(x, N)
    kw = {}
    if n is not None:
        kw["n_fbins"] = n
    if ts is not None:
        kw["timestamps"] = np.array(ts)
    if h is not None:
        kw["fwindow"] = window(h)
    nf = N if n is None else n
    hw = window(h) if h is not None else hamming_default(nf)
    if h is None:
        hw = hw / hw[(len(hw) - 1) // 2]
    tt = list(range(N)) if ts is None else ts
    tfr, t, fr = ctx.call(lambda: CLS[kind](s.copy(), **kw).run())
    p = np.abs(s) ** 2
    sc = max(p.max() * (1 if kind == "page" else np.abs(hw).max()), 1e-300)
    ctx.close(tfr, reference(kind, s, tt, nf, hw), "%s value" % kind, scale=sc)
    ctx.true(not np.iscomplexobj(tfr), "%s is not real", kind)
    ctx.close(fr, bins(nf), "%s frequency axis" % kind, atol=1e-12)
    ctx.same(t, np.array(tt), "%s time axis" % kind)
    ctx.close(tfr.sum(axis=0) / nf, p[tt] * (1.0 if kind == "page" else hw[(len(hw) - 1) // 2]), "%s time marginal" % kind, scale=sc)


def future(ctx, kind, N, n, x, cut):
    """What comes later does not change the Page distributions of now."""
    s = sig(x, N)
    z = s.copy()
    z[cut:] = sig("d3", N)[cut:] * 5
    kw = dict(n_fbins=n, fwindow=window("as9")) if kind == "ppage" else dict(n_fbins=n)
    a = ctx.call(lambda: CLS[kind](s, **kw).run())[0]
    b = ctx.call(lambda: CLS[kind](z, **kw).run())[0]
    ctx.close(b[:, :cut], a[:, :cut], "%s of the past" % kind, scale=np.abs(s).max() ** 2 * 9)


def spaces(tier):
    deep = tier == "thorough"
    H = {"page": [None], "ppage": [None, "rc1", "hm3", "as5", "ng7", "as17", "hm33", "vr9", "as5*-2", "hm5*1e-6"]}
    H["pmh"] = H["ppage"]
    light = ["d0", "r0", "v0", "d1*1e-8", "a"]
    sp = []
    for kd in ("page", "ppage", "pmh"):
        few = H[kd][:1] + H[kd][3:5]
        sp += [
            Space(kd + "-words", (dict(kind=kd, N=N, n=n, x=w, h=h) for N in range(1, 7 if deep else 6)
                                  for n in [None, 1, 2, 3, 4, 5, 6, 7] for h in few for w in words(N)
                                  if N < 5 or deep or (n in (4, 5, None) and h in (None, "as5"))), check, "all short words"),
            Space(kd + "-pairs", (dict(kind=kd, N=N, n=n, x=x, h=h) for N in range(2, 13 if deep else 9)
                                  for n in sorted({2, 3, 4, N - 1, N, N + 1, 2 * N, 2 * N + 1} - {0}) for h in H[kd] for x in polar(N)), check,
                  "pairs of impulses x windows x bins (determine every sesquilinear form)"),
            Space(kd + "-dense", (dict(kind=kd, N=N, n=n, x=x, h=h) for N in range(1, 80 if deep else 41)
                                  for n in [None] + (bincounts(N) if N < 24 else [N // 2, N // 2 + 1, N - 1, N + 1, 2 * N])
                                  for h in few + (["as41"] if kd != "page" else []) for x in (RICH if N in (4, 7, 12, 23) else light[:2])), check,
                  "dense signals of every length"),
            Space(kd + "-large", [dict(kind=kd, N=N, n=n, x="d0", h=h, ts=[0, 1, N // 3, N // 2, N - 2, N - 1]) for N in BIG + [2048]
                                  for n in (None, N // 2, N + 1, 16, 255, 256) for h in few] +
                  [dict(kind=kd, N=N, n=n, x="d0", h=h) for N in (9, 40) for n in (500, 512, 1024) for h in few], check, "long signals, many bins"),
            Space(kd + "-times", (dict(kind=kd, N=N, n=n, x=x, h=h, ts=ts) for N in (3, 5, 10, 16, 31, 64) for n in (None, N - 1, 2 * N)
                                  for h in few for x in ("d0", "v0") for ts in instants(N)), check, "lists of instants in and out of order"),
            Space(kd + "-subsets", (dict(kind=kd, N=N, n=n, x="d0", h=h, ts=ts) for N in range(1, 8) for n in (4, 7, 9) for h in few
                                    for ts in subsets(N)), check, "every subset of instants")]
    sp.append(Space("future", (dict(kind=k, N=N, n=n, x=x, cut=c) for k in ("page", "ppage") for N in (2, 5, 12, 33) for n in (N, N + 3, 7)
                               for x in ("d0", "r0") for c in range(1, N)), future, "signals that differ only later"))
    return sp
