"""C05: the axes returned with a representation describe its content."""
import numpy as np
from tftb.processing import (BertrandDistribution, DFlandrinDistribution, Scalogram, ShortTimeFourierTransform,
                             UnterbergerDistribution, reassigned)
from tftb.processing.ambiguity import narrow_band
from tftb.processing.cohen import (MargenauHillDistribution, PseudoWignerVilleDistribution, Spectrogram,
                                   WignerVilleDistribution, PageRepresentation, PseudoPageRepresentation,
                                   PseudoMargenauHillDistribution, smoothed_pseudo_wigner_ville)

from mc.core import Space
from mc.signals import sig, window

CLS = {"stft": ShortTimeFourierTransform, "spec": Spectrogram, "wvd": WignerVilleDistribution,
       "pwvd": PseudoWignerVilleDistribution, "mh": MargenauHillDistribution, "bertrand": BertrandDistribution,
       "dflandrin": DFlandrinDistribution, "unterberger": UnterbergerDistribution, "scalogram": Scalogram,
       "page": PageRepresentation, "ppage": PseudoPageRepresentation, "pmh": PseudoMargenauHillDistribution}
HALF = ("wvd", "pwvd", "spwvd")


def grid(ts):
    return None if ts is None else np.arange(*ts)


def represent(ctx, kind, x, n=None, ts=None, h=None):
    """|values|, times, frequencies"""
    if kind == "spwvd":
        kw = {}
        if n is not None:
            kw["freq_bins"] = n
        if ts is not None:
            kw["timestamps"] = grid(ts)
        if h is not None:
            kw["fwindow"] = window(h)
        kw["twindow"] = window("ti3")
        v = ctx.call(smoothed_pseudo_wigner_ville, x, **kw)
        m = x.shape[0] if n is None else n
        return v, (np.arange(x.shape[0]) if ts is None else grid(ts)), np.arange(m) / (2.0 * m)
    kw = {}
    if n is not None:
        kw["n_fbins"] = n
    if ts is not None:
        kw["timestamps"] = grid(ts)
    if h is not None:
        kw["fwindow"] = window(h)
    return ctx.call(CLS[kind](x, **kw).run)[:3]


def shapes(ctx, v, t, f, m, n):
    ctx.shape(np.asarray(v), (m, n), "representation")
    ctx.shape(np.asarray(t), (n,), "time axis")
    ctx.shape(np.asarray(f), (m,), "frequency axis")
    ctx.true(len(set(np.asarray(f).tolist())) == m, "frequency labels are not distinct")


def tone(ctx, kind, N, n, k, h=None, ts=None):
    """A tone at the frequency row k is labelled with is strongest in row k, in every interior column."""
    m = N if n is None else n
    T = np.arange(N)
    # the label of row k is read off a first run on another signal
    v, t, f = represent(ctx, kind, sig("d0", N), n, ts, h)
    shapes(ctx, v, t, f, m, N if ts is None else len(grid(ts)))
    x = np.exp(2j * np.pi * f[k] * T)
    v, t, f2 = represent(ctx, kind, x, n, ts, h)
    ctx.same(f2, f, "frequency axis")
    ctx.see(np.round(v, 6))
    v = np.abs(np.asarray(v))
    pos = np.asarray(t)
    for j in range(v.shape[1]):
        if kind != "mh" and (pos[j] < 2 or pos[j] > N - 3):
            continue
        # the other end of a tie (a window without resolution) would be a matter of rounding
        ctx.true(v[k, j] >= v[:, j].max() * (1 - 1e-9), "tone at %g is strongest in the row of %g, not in its own",
                 f[k], f[int(np.argmax(v[:, j]))])
        ctx.true((v[:, j] < v[k, j] * (1 - 1e-6)).sum() == m - 1, "the row of the tone at %g does not stand out", f[k])


def impulse(ctx, kind, N, n, a, h=None, ts=None):
    x = np.zeros(N, complex)
    x[a] = 1
    v, t, f = represent(ctx, kind, x, n, ts, h)
    shapes(ctx, v, t, f, N if n is None else n, N if ts is None else len(grid(ts)))
    e = (np.abs(np.asarray(v)) ** 2).sum(0)
    t = np.asarray(t)
    j = int(np.argmax(e))
    if a in t:
        ctx.true(t[j] == a, "impulse at %d appears at %s", a, t[j])
    elif e.max() > 0:
        ctx.true(abs(t[j] - a) == np.abs(t - a).min(), "impulse at %d appears at %s", a, t[j])


def labels(ctx, kind, N, n, lab, h=None):
    """Sample labels come back unchanged and label the samples."""
    L = {"s": np.arange(N) / 8000.0, "off": np.arange(N) + 100, "lin": np.linspace(0, 1, N), "neg": np.arange(N) - 5.5,
         "one": np.arange(N) + 1, "step": np.arange(N) * 3, "rev": np.arange(N)[::-1], "zero": np.arange(N) * 1.0,
         "big": 1.7e9 + np.arange(N) * 0.25, "log": 2.0 ** np.arange(N), "shuf": (np.arange(N) * 7 + 3) % (N + 0.5),
         "const": np.full(N, 4.5)}[lab]
    kw = {} if h is None else dict(fwindow=window(h))
    v, t, f = ctx.call(CLS[kind](sig("d0", N), timestamps=L.copy(), n_fbins=n, **kw).run)[:3]
    ctx.same(t, L, "time labels")
    w, _, g = ctx.call(CLS[kind](sig("d0", N), n_fbins=n, **kw).run)[:3]
    ctx.same(v, w, "values with other labels")
    ctx.same(f, g, "frequency axis with other labels")


def scal(ctx, N, f0, K, lo, hi, ts=None, w=None):
    n = np.arange(N)
    x = np.cos(2 * np.pi * f0 * n) * np.exp(-((n - N / 2.0) / (N / 6.0)) ** 2)
    kw = {} if ts is None else dict(timestamps=grid(ts))
    if w is not None:
        kw["waveparams"] = w
    v, t, f, wt = ctx.call(Scalogram(x, fmin=lo, fmax=hi, n_voices=K, **kw).run)
    shapes(ctx, v, t, f, K, N if ts is None else len(grid(ts)))
    ctx.shape(wt, v.shape, "wavelet transform")
    ctx.close(f, lo * (hi / lo) ** (np.arange(K) / (K - 1.0)), "frequency axis", rtol=1e-9)
    p = np.unravel_index(np.argmax(v), v.shape)
    ctx.true(abs(f[p[0]] / f0 - 1) < 0.12, "packet at %g appears at %g", f0, f[p[0]])
    ctx.true(abs(t[p[1]] - N / 2.0) <= 0.06 * N + 2, "packet at %g appears at %g", N / 2.0, t[p[1]])


def affine(ctx, kind, N, K, lo, hi, ts=None):
    kw = {} if ts is None else dict(timestamps=grid(ts))
    v, t, f = ctx.call(CLS[kind](sig("r0", N), fmin=lo, fmax=hi, n_voices=K, **kw).run)[:3]
    shapes(ctx, v, t, f, K, N if ts is None else len(grid(ts)))
    ctx.close(f, lo * (hi / lo) ** (np.arange(K) / (K - 1.0)), "frequency axis", rtol=1e-9)
    ctx.same(t, np.arange(N) if ts is None else grid(ts), "time axis")


def ambiguity(ctx, N, n, a, b):
    """Two impulses a, b: besides the origin, energy only at the lags (a - b)/2; Doppler axis: a tone of the lag product."""
    x = np.zeros(N, complex)
    x[a] = x[b] = 1
    v, lag, xi = ctx.call(narrow_band, x) if n is None else ctx.call(narrow_band, x, None, n)
    m = N if n is None else n
    ctx.shape(v, (m, len(lag)), "ambiguity function")
    ctx.shape(np.asarray(xi), (m,), "Doppler axis")
    e = np.abs(np.asarray(v)).sum(0)
    want = {0} | ({(a - b) // 2, (b - a) // 2} if (a - b) % 2 == 0 else set())
    ctx.true({int(l) for l, q in zip(lag, e) if q > 1e-9} == want & {int(l) for l in lag}, "lags of impulses %d, %d", a, b)
    # the lag product of a linear chirp is a tone at 2 * rate * lag
    r = 1.0 / (2 * m)
    y = np.exp(2j * np.pi * r * np.arange(N) ** 2 / 2.0)
    v, lag, xi = ctx.call(narrow_band, y, None, m)
    for j, l in enumerate(lag):
        if N - 2 * abs(l) >= 4:
            k = int(np.argmax(np.abs(v[:, j])))
            ctx.true(abs(xi[k] - 2 * r * l) < 1e-9 or 2 * abs(l) * r > 0.49, "chirp's Doppler at lag %s is %s", l, xi[k])


def reass(ctx, kind, N, n, k, ts=None):
    """Reassignment of a tone leaves it in its row, of an impulse in its column."""
    fn = {"rsp": reassigned.spectrogram, "rpwv": reassigned.pseudo_wigner_ville, "rspwv": reassigned.smoothed_pseudo_wigner_ville}[kind]
    f = k / float(n) if kind == "rsp" else k / (2.0 * n)
    h = window("hm7")
    t = np.arange(N) if ts is None else grid(ts)
    kw = dict(window=h) if kind == "rsp" else dict(fwindow=h)
    if kind == "rspwv":
        kw["twindow"] = window("ti3")
    v, r, hat = ctx.call(fn, np.exp(2j * np.pi * f * np.arange(N)), t, n, **kw)
    ctx.shape(v, (n, len(t)), "distribution")
    ctx.shape(r, (n, len(t)), "reassigned distribution")
    for j in range(len(t)):
        if 4 <= t[j] < N - 4:
            ctx.true(int(np.argmax(np.abs(r[:, j]))) == k, "reassigned tone of bin %d is in bin %d", k, int(np.argmax(np.abs(r[:, j]))))


def axes(ctx, kind, N, n):
    """The frequency axis of a long representation: distinct, evenly spaced labels over one period."""
    v, t, f = represent(ctx, kind, sig("d0", N), n)
    m = N if n is None else n
    shapes(ctx, v, t, f, m, N)
    k = np.arange(m)
    if kind in ("wvd", "pwvd"):
        want = k / (2.0 * m)
    elif kind == "mh":
        want = k / float(m)
    else:
        want = np.where(2 * k < m, k, k - m) / float(m)
    d = np.asarray(f) - want
    period = 0.5 if kind in ("wvd", "pwvd") else 1.0
    ctx.true(np.abs(d - period * np.round(d / period)).max() < 1e-12, "row %d of %d is labelled %s",
             int(np.argmax(np.abs(d - period * np.round(d / period)))), m, f[int(np.argmax(np.abs(d - period * np.round(d / period))))])
    ctx.same(t, np.arange(N), "time axis")


def spaces(tier):
    deep = tier == "thorough"
    Ns = list(range(8, 34 if deep else 22)) + [32, 33]
    tn, im = [], []
    for N in Ns:
        for n in sorted({None, N, N + 1, N + 2, 2 * N, 2 * N + 1, 9, 12} - {None}) + [None]:
            m = n or N
            for k in range(m):
                tn += [dict(kind=c, N=N, n=n, k=k, h=h) for c, h in (("stft", "hm5"), ("spec", "hm5"), ("stft", "rc3"), ("wvd", None),
                                                                    ("pwvd", "hm5"), ("spwvd", "hm5"), ("pwvd", "hm%d" % (N | 1)))]
                if k % 2 == 0 or deep:
                    tn += [dict(kind=c, N=N, n=n, k=k, h=h) for c, h in (("page", None), ("ppage", "hm5"), ("pmh", "hm5"))]
                if m >= N:
                    tn.append(dict(kind="mh", N=N, n=n, k=k))
                if k % 3 == 0:
                    tn += [dict(kind=c, N=N, n=n, k=k, h="hm5", ts=ts) for c in ("spec", "spwvd") for ts in ([0, N, 2], [3, N, 3], [N - 1, -1, -1])]
        for n in (None, N + 1, 2 * N):
            for a in range(N):
                im += [dict(kind=c, N=N, n=n, a=a, h=h) for c, h in (("stft", "hm5"), ("wvd", None), ("pwvd", "hm3"))]
                im += [dict(kind=c, N=N, n=n, a=a, ts=ts) for c in ("mh", "page", "ppage", "pmh") for ts in (None, [0, N, 2], [1, N, 3], [N - 1, -1, -1])
                       if ts is None or a in range(*ts)]
                if 4 <= a < N - 4:
                    im += [dict(kind=c, N=N, n=n, a=a, h="hm5", ts=ts) for c in ("spec", "spwvd")
                           for ts in (None, [0, N, 1], [N - 1, -1, -1], [a % 2, N, 2], [a % 3, N, 3])]
    long = [dict(kind=c, N=N, n=n, k=k, h=h) for N in (64, 65, 100, 128, 129) + ((255, 256, 257) if deep else ()) for n in (None, N + 1, 48)
            for c, h in (("stft", "hm17"), ("spec", "hm17"), ("wvd", None), ("pwvd", "hm17"), ("mh", None))
            for k in sorted({0, 1, 2, (n or N) // 3, (n or N) // 2 - 1, (n or N) // 2, (n or N) // 2 + 1, (n or N) - 2, (n or N) - 1})
            if not (c == "mh" and n == 48)]
    LAB = ("s", "off", "lin", "neg", "one", "step", "rev", "zero", "big", "log", "shuf", "const")
    return [
        Space("tones", tn, tone, "every class, length and bin count: a tone at every labelled frequency"),
        Space("tones-long", long, tone, "long records"),
        Space("axes", [dict(kind=c, N=N, n=n) for c in ("stft", "spec", "wvd", "pwvd", "mh", "page", "ppage", "pmh") for N in list(range(1, 41)) + [64, 65, 127, 128, 129, 200, 256, 257]
                       for n in (None, N + 1, N + 2, 2 * N, 2 * N + 1, 256, 300) if n is None or n >= N], axes, "axes of every class, length and bin count"),
        Space("axes-long", [dict(kind=c, N=N, n=n) for c in ("stft", "spec", "wvd", "pwvd", "mh") for N in (300, 511, 512, 513, 1000, 1024, 1025)
                            for n in (None, N + 1)], axes, "axes of long records"),
        Space("impulses", im, impulse, "an impulse at every instant"),
        Space("impulses-long", [dict(kind=c, N=N, n=n, a=a, h=h, ts=ts) for N in (64, 65, 128, 129, 300) for n in (None, N + 1)
                                for c, h, ts in (("stft", "hm17", None), ("wvd", None, None), ("pwvd", "hm17", None), ("mh", None, None), ("spec", "hm17", None),
                                                 ("spec", "hm17", [N - 1, -1, -1]))
                                for a in (17, N // 3, N // 2 - 1, N // 2, N // 2 + 1, N - 20)], impulse, "impulses in long records"),
        Space("labels", [dict(kind=c, N=N, n=n, lab=l, h=h) for c in ("stft", "wvd", "pwvd") for N in list(range(1, 18)) + [32, 33, 64, 129]
                         for n in (N, N + 1, max(1, N - 1), 2 * N) for l in LAB for h in (None, "hm3") if not (h and c == "wvd")], labels, "sample labels"),
        Space("packets", [dict(N=N, f0=f, K=K, lo=0.05, hi=0.45, ts=ts, w=w) for N in (64, 65, 128) for f in (0.1, 0.15, 0.2, 0.25, 0.3, 0.37)
                          for K in (24, 33, N) for ts in (None, [0, N, 2], [1, N, 3], [N - 1, -1, -1]) for w in (None, 6.0, 9)], scal, "packets in the scalogram"),
        Space("affine-axes", [dict(kind=c, N=N, K=K, lo=lo, hi=hi, ts=ts) for c in ("bertrand", "dflandrin", "unterberger", "scalogram")
                              for N in (16, 17, 24, 32) for K in (4, 5, 8, 9, 16, 17, 33, 64) for lo, hi in ((0.15, 0.4), (0.2, 0.3), (0.25, 0.45), (0.3, 0.5))
                              for ts in (None, [0, N, 2], [1, N, 3], [N - 1, -1, -1])], affine, "affine distributions: shapes and axes"),
        Space("ambiguity", [dict(N=N, n=n, a=a, b=b) for N in range(4, 20 if deep else 15) for n in (None, N + 1, 2 * N) for a in range(N)
                            for b in range(N) if a != b], ambiguity, "pairs of impulses, chirps"),
        Space("reassigned", [dict(kind=c, N=N, n=n, k=k, ts=ts) for c in ("rsp", "rpwv", "rspwv") for N in (16, 17, 24, 25) for n in (N, 12, 24, 25)
                             for k in range(n) for ts in (None, [0, N, 2], [4, N - 3, 1], [N - 1, -1, -1])], reass, "reassigned tones")]
