"""C03: short-time Fourier transform and spectrogram are what their definitions say."""
import numpy as np
from tftb.processing import ShortTimeFourierTransform, Spectrogram

from mc import model
from mc.core import Space
from mc.signals import (sig, words, impulses, polar, window, hamming_default, bins as bincounts, instants, product,
                        BIG, RICH)
from mc.props.c01 import LABELS
from mc.props.c02 import subsets


def bins(n):
    """Normalised frequency of FFT bin k: k/n, upper half negative."""
    k = np.arange(n)
    return np.where(2 * k < n, k, k - n) / n


def stft(ctx, N, n, x, h):
    s = sig(x, N)
    kw = {}
    if n is not None:
        kw["n_fbins"] = n
    if h is not None:
        kw["fwindow"] = window(h)
    nf = N if n is None else n
    hw = hamming_default(nf) if h is None else window(h)
    tfr, ts, fr = ctx.call(lambda: ShortTimeFourierTransform(s.copy(), **kw).run())
    ctx.close(tfr, model.stft(s, nf, hw), "STFT value")
    ctx.close(fr, bins(nf), "STFT frequency axis", atol=1e-12)
    ctx.same(ts, np.arange(N), "STFT time axis")


def cwin(ctx, N, n, x, L, which):
    """Complex analysis windows enter conjugated."""
    s = sig(x, N)
    w = window("cx%d" % L)
    if which == "stft":
        got = ctx.call(lambda: ShortTimeFourierTransform(s, n_fbins=n, fwindow=w).run())[0]
        ctx.close(got, model.stft(s, n, w), "STFT with a complex window")
    else:
        got = ctx.call(lambda: Spectrogram(s, n_fbins=n, fwindow=w).run())[0]
        ctx.close(got, model.spectrogram(s, range(N), n, w), "spectrogram with a complex window")


def labels(ctx, N, lab, h, n=None):
    s = sig("d0", N)
    ts = LABELS[lab](N)
    nf = N if n is None else n
    tfr, t, fr = ctx.call(lambda: ShortTimeFourierTransform(s, timestamps=ts.copy(), n_fbins=n, fwindow=window(h)).run())
    ctx.close(tfr, model.stft(s, nf, hamming_default(nf) if h is None else window(h)), "STFT value with sample labels")
    ctx.same(t, ts, "STFT time axis")


def spectro(ctx, N, n, x, h, ts=None):
    s = sig(x, N)
    kw = {}
    if n is not None:
        kw["n_fbins"] = n
    if h is not None:
        kw["fwindow"] = window(h)
    if ts is not None:
        kw["timestamps"] = np.array(ts)
    nf = N if n is None else n
    hw = hamming_default(nf) if h is None else window(h)
    tt = list(range(N)) if ts is None else ts
    tfr, t, fr = ctx.call(lambda: Spectrogram(s.copy(), **kw).run())
    want = model.spectrogram(s, tt, nf, hw)
    ctx.close(tfr, want, "spectrogram value")
    ctx.true(not np.iscomplexobj(tfr) and (np.asarray(tfr) >= 0).all(), "spectrogram is not real non-negative")
    ctx.close(fr, bins(nf), "spectrogram frequency axis", atol=1e-12)
    ctx.same(t, np.array(tt), "spectrogram time axis")


def linear(ctx, N, n, x, y, a, h):
    """STFT is linear: the transform of a sum is the sum of the transforms."""
    X, Y, a = sig(x, N), sig(y, N), complex(a)
    f = lambda s: ctx.call(lambda: ShortTimeFourierTransform(s, n_fbins=n, fwindow=window(h)).run())[0]  # noqa
    ctx.close(f(X + a * Y), model.stft(X, n, window(h)) + a * model.stft(Y, n, window(h)), "STFT of a combination")


def spaces(tier):
    deep = tier == "thorough"
    H = [None, "rc1", "hm3", "hm5", "as5", "as4", "rc9", "hm17", "as7", "ti6", "ng7", "zz7", "cx5", "cx8", "vr9", "as5*-2", "hm5*1e-6"]
    light = ["d0", "r0", "v0", "d1*1e-8", "d1*1e8"]
    sp = []
    for name, fn in (("stft", stft), ("spec", spectro)):
        sp += [Space(name + "-words", (dict(N=N, n=n, x=w, h=h) for N in range(1, 7 if deep else 6)
                                       for n in [None, 1, 2, 3, 4, 5, 6, 7] for h in [None, "rc1", "hm3", "as5", "cx5", "hm17"]
                                       for w in words(N) if N < 5 or deep or (n in (4, 5) and h in ("as5", "cx5"))), fn,
                     "all short words"),
               Space(name + "-impulses", (dict(N=N, n=n, x=x, h=h) for N in range(1, 18 if deep else 11)
                                          for n in range(1, 2 * N + 3) for h in H for x in impulses(N)), fn,
                     "impulses (determine every linear map) x windows x bins"),
               Space(name + "-pairs", (dict(N=N, n=n, x=x, h=h) for N in range(2, 10 if deep else 8)
                                       for n in (3, 4, N, N + 1, 2 * N) for h in ("hm3", "as5", "ng7", "cx5", "rc9")
                                       for x in polar(N)), fn, "pairs of impulses"),
               Space(name + "-dense", (dict(N=N, n=n, x=x, h=h) for N in range(1, 120 if deep else 60)
                                       for n in [None] + (bincounts(N) if N < 24 else [N // 2, N // 2 + 1, N - 1, N + 1, 2 * N])
                                       for h in [None, "hm3", "as9", "ng15", "hm31", "rc63", "ga8", "cx20", "as41*-1e-3", "as121"]
                                       for x in (RICH if N in (4, 7, 12, 23) else light[:3])), fn, "dense signals"),
               Space(name + "-large", [dict(N=N, n=n, x="d0", h=h) for N in BIG for n in (None, N // 2, N + 1, 16, 255, 256)
                                       for h in [None, "as31", "ng255", "cx64", "hm1025"]
                                       if N < 500 or deep or h in (None, "as31")] +
                     [dict(N=N, n=n, x="d0", h=h) for N in (2048, 4097) for n in (16, 63, 64) for h in ("as31", "hm1025")] +
                     [dict(N=N, n=n, x="d0", h=h) for N in (9, 40) for n in (500, 512, 1000, 1024, 2048, 4096)
                      for h in (None, "as31")], fn, "long signals, many bins, long windows"),
               Space(name + "-cwin", product(N=[3, 6, 9, 40], n=[4, 5, 9, 12, 31], x=["d0", "r0", "e:1"], L=[1, 2, 3, 4, 5, 11, 60],
                                             which=["stft" if name == "stft" else "spec"]), cwin, "complex windows")]
    sp += [Space("spec-times", (dict(N=N, n=n, x="d0", h=h, ts=ts) for N in (1, 2, 4, 7, 8)
                                for n in (4, 5, 8, 9) for h in ["hm3", "as5", "cx5", "rc17"] for ts in subsets(N)), spectro,
                 "every subset of time instants"),
           Space("spec-instants", (dict(N=N, n=n, x=x, h=h, ts=ts) for N in (3, 6, 17, 40, 100, 300) for x in ("d0", "v0")
                                   for n in (None, 8, 15, 64) for h in [None, "hm3", "as9", "cx20", "ng255"] for ts in instants(N)),
                 spectro, "lists of instants in and out of order"),
           Space("spec-times-long", (dict(N=N, n=n, x="d0", h=h, ts=list(range(a, N, st)))
                                     for N in (33, 64, 129, 500, 1025) for n in (16, 64, 65) for h in [None, "hm31"]
                                     for a in (0, 1, 5) for st in (2, 3, 7, N - 1)), spectro, "regular subsamplings"),
           Space("stft-linear", product(N=[2, 5, 8, 40], n=[4, 5, 8, 11, 32], x=["d0", "e:0", "c"], y=["d1", "r0", "e:1", "v0"],
                                        a=["1", "-2j", "1e5", "1e-5"], h=["hm3", "as5", "cx7", "rc9"]), linear, "linearity"),
           Space("stft-labels", product(N=[1, 2, 5, 8, 12, 40, 130, 300], n=[None, 7, 16], lab=sorted(LABELS),
                                        h=[None, "hm3", "rc5", "as9"]), labels,
                 "sample labels on the time axis")]
    return sp
