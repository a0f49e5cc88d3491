"""C02: pseudo and smoothed pseudo Wigner-Ville are what their definitions say."""
import numpy as np
from tftb.processing import PseudoWignerVilleDistribution, smoothed_pseudo_wigner_ville

from mc import model
from mc.core import Space
from mc.signals import sig, words, polar, window, hamming_default, bins, instants, product, BIG, RICH
from mc.props.c01 import LABELS


def pseudo(ctx, N, n, x, h):
    s = sig(x, N)
    kw = {}
    if n is not None:
        kw["n_fbins"] = n
    if h is not None:
        kw["fwindow"] = window(h)
    nf = N if n is None else n
    hw = hamming_default(nf) if h is None else window(h)
    tfr, ts, fr = ctx.call(lambda: PseudoWignerVilleDistribution(s.copy(), **kw).run())
    ctx.close(tfr, model.pwv(s, nf, hw), "PWV value")
    ctx.true(not np.iscomplexobj(tfr), "PWV is not real")
    ctx.close(fr, np.arange(nf) / (2.0 * nf), "PWV frequency axis", atol=1e-12)
    ctx.same(ts, np.arange(N), "PWV time axis")


def labels(ctx, N, lab, h, n=None):
    s = sig("d0", N)
    ts = LABELS[lab](N)
    nf = N if n is None else n
    tfr, t, fr = ctx.call(lambda: PseudoWignerVilleDistribution(s, timestamps=ts.copy(), n_fbins=n, fwindow=window(h)).run())
    ctx.close(tfr, model.pwv(s, nf, hamming_default(nf) if h is None else window(h)), "PWV value with sample labels")
    ctx.same(t, ts, "PWV time axis")


def unit_centre(w):
    return w / w[(len(w) - 1) // 2]


def smoothed(ctx, N, n, x, g, h, ts=None):
    s = sig(x, N)
    kw = {}
    nf = N if n is None else n
    if n is not None:
        kw["freq_bins"] = n
    if ts is not None:
        kw["timestamps"] = np.array(ts)
    if g is not None:
        gw = kw["twindow"] = window(g)
    else:
        m = nf // 10
        gw = window("hm%d" % (m + 1 - m % 2))
    if h is not None:
        hw = kw["fwindow"] = unit_centre(window(h))
    else:
        hw = hamming_default(nf)
    got = ctx.call(smoothed_pseudo_wigner_ville, s.copy(), **kw)
    want = model.spwv(s, range(N) if ts is None else ts, nf, gw, hw)
    ctx.close(got, want, "SPWV value", scale=max(np.abs(want).max(initial=0), np.max(np.abs(s)) ** 2))
    ctx.true(not np.iscomplexobj(got), "SPWV is not real")
    if ts is None:
        pass


def spaces(tier):
    deep = tier == "thorough"
    H = [None, "rc1", "hm3", "hm5", "as5", "rc9", "hm17", "as7", "ng7", "zz7", "vr9", "as5*-2", "hm5*1e-6", "ng33"]
    light = ["d0", "r0", "v0", "d1*1e-8", "a"]
    sp = [Space("pwv-words", (dict(N=N, n=n, x=w, h=h) for N in range(1, 7 if deep else 6)
                              for n in [None, 1, 2, 3, 4, 5, 6, 7] for h in [None, "rc1", "hm3", "as5", "ng7", "hm17"]
                              for w in words(N) if N < 5 or (n in (4, 5) and h in ("as5", "ng7")) or deep), pseudo,
                "all short words"),
          Space("pwv-pairs", (dict(N=N, n=n, x=x, h=h) for N in range(2, 13 if deep else 9)
                              for n in sorted({2, 3, 4, N - 1, N, N + 1, 2 * N, 2 * N + 1}) for h in H
                              for x in polar(N) if n > 0), pseudo, "pairs of impulses x windows x bins"),
          Space("pwv-dense", (dict(N=N, n=n, x=x, h=h)
                              for N in list(range(1, 100 if deep else 50))
                              for n in [None] + (bins(N) if N < 24 else [N // 2, N // 2 + 1, N - 1, N + 1, 2 * N])
                              for h in [None, "hm3", "as9", "ng15", "hm31", "rc63", "zz5", "as41*-1e-3", "as121"]
                              for x in (RICH if N in (4, 7, 12, 23) else light[:3])), pseudo, "dense signals"),
          Space("pwv-large", [dict(N=N, n=n, x="d0", h=h) for N in BIG for n in (None, N // 2, N + 1, 16, 255, 256)
                              for h in [None, "as31", "ng255", "hm1025"] if N < 500 or deep or h in (None, "as31")] +
                [dict(N=N, n=n, x="d0", h=h) for N in (2048, 3001) for n in (16, 63, 64) for h in ("as31", "hm1025")] +
                [dict(N=N, n=n, x="d0", h=h) for N in (9, 40) for n in (500, 512, 1000, 1024, 2048) for h in (None, "as31")],
                pseudo, "long signals, many bins, long windows"),
          Space("pwv-labels", product(N=[2, 5, 8, 31, 130, 300], n=[None, 7, 16], lab=sorted(LABELS), h=[None, "hm3", "rc5", "as9"]),
                labels, "labels"),
          ]
    G = [None, "rc1", "hm3", "as5", "ng5", "rc9"]
    Hs = [None, "rc1", "hm3", "as5", "ng7", "rc9", "hm17"]
    GH = [(None, None), ("hm3", "hm7"), ("as5", "as9"), ("ng5", "ng9"), ("rc31", "hm31"), ("hm7", "rc1"), ("rc1", "rc17"),
          ("as3*1e-6", "as5"), ("as5*-2", "zz7"), ("hn7", "vr9"), ("ng9", "as21"), ("as21", "as3"), (None, "as9"), ("as5", None)]
    sp += [Space("spwv-words", (dict(N=N, n=n, x=w, g=g, h=h) for N in range(1, 6 if deep else 5)
                                for n in [None, 2, 3, 4, 5] for g in ("rc1", "hm3", "as5", "ng5")
                                for h in ("rc1", "as5", "hm17") for w in words(N)
                                if N < 4 or deep or (n in (4, 5) and h == "as5")), smoothed, "all short words"),
           Space("spwv-pairs", (dict(N=N, n=n, x=x, g=g, h=h) for N in range(2, 9 if deep else 7)
                                for n in sorted({2, 3, N - 1, N, N + 1, 2 * N}) for g in G for h in Hs
                                for x in polar(N) if n > 0), smoothed, "pairs of impulses x windows x bins"),
           Space("spwv-dense", (dict(N=N, n=n, x=x, g=g, h=h)
                                for N in list(range(1, 45 if deep else 28)) + [32, 33, 40, 48, 64, 65]
                                for n in ([None] + bins(N) if N < 12 else [None, N // 2, N // 2 + 1, N - 1, N + 1, 2 * N])
                                for g, h in GH for x in (RICH if N in (3, 6, 11) else light[:2])
                                if not (N >= 32 and (x != "d0" or n == 2 * N))), smoothed, "dense signals"),
           Space("spwv-times", (dict(N=N, n=n, x="d0", g=g, h=h, ts=ts) for N in (4, 7)
                                for n in (4, 7, 8) for g, h in [("hm3", "hm5"), ("as5", "as9"), ("ng5", "ng9")]
                                for ts in subsets(N)), smoothed, "every subset of time instants"),
           Space("spwv-instants", (dict(N=N, n=n, x="d0", g=g, h=h, ts=ts) for N in (5, 12, 25, 40)
                                   for n in (None, 8, 15) for g, h in GH[:6] for ts in instants(N)), smoothed,
                 "lists of instants in and out of order"),
           Space("spwv-long", [dict(N=N, n=n, x="d0", g=g, h=h, ts=[0, 1, N // 3, N // 2, N - 2, N - 1])
                               for N in BIG + [2048, 4097] for n in (None if N < 1100 else 511, 16, 63, 64, 255, 256)
                               for g, h in [(None, None), ("as9", "as21"), ("ng31", "ng127"), ("hm255", "as5"), ("rc1", "as301")]],
                 smoothed, "long signals at a few instants"),
           Space("spwv-default-long", [dict(N=N, n=None, x="d0", g=None, h=None) for N in (40, 80, 100, 128, 200)] +
                 [dict(N=N, n=n, x="d0", g=None, h=None) for N in (12, 30) for n in range(1, 130)],
                 smoothed, "default windows longer than one sample")]
    return sp


def subsets(N):
    out = []
    for m in range(1, 1 << N):
        out.append([i for i in range(N) if m >> i & 1])
    return out + [list(range(N))[::-1], [0, 0]] + ([[N - 1, 1]] if N > 1 else [])
