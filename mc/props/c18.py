"""C18: noise generators: length, analyticity, unit variance, reproducibility; noisy Doppler signal."""
import numpy as np
from tftb.generators import dopnoise, noisecg, noisecu

from mc.core import Space

F = {"cu": noisecu, "cg": noisecg}
KURT = {"cu": 1.8, "cg": 3.0}


def draw(ctx, kind, n, seed):
    np.random.seed(seed)
    y = np.asarray(ctx.call(F[kind], n))
    ctx.shape(y, (n,), "noise")
    ctx.true(y.dtype.kind == "c", "noise is not complex: %s", y.dtype)
    ctx.true(np.isfinite(y).all(), "noise is not finite")
    return y


def single(ctx, kind, n, seed):
    y = draw(ctx, kind, n, seed)
    again = np.asarray(ctx.call(F[kind], n))
    ctx.same(draw(ctx, kind, n, seed), y, "noise from the same random state")
    ctx.true(not np.array_equal(again, y), "the second draw repeats the first")
    ctx.true(not np.array_equal(draw(ctx, kind, n, seed + 7919), y), "another random state gives the same noise")
    ctx.see(y)
    if n > 2 and n & (n - 1) == 0:
        # the whole record: exactly analytic, real part of standard deviation 1/sqrt(2)
        Y = np.fft.fft(y)
        ctx.close(Y[n // 2 + 1:], np.zeros(n // 2 - 1), "negative frequencies", rtol=0, atol=1e-9 * np.abs(Y).max())
        ctx.close(np.std(y.real), np.sqrt(0.5), "standard deviation of the real part", rtol=1e-9)
        # the imaginary part is the Hilbert transform of the real one
        H = np.fft.fft(y.real)
        H[1:n // 2] *= 2
        H[n // 2 + 1:] = 0
        ctx.close(y, np.fft.ifft(H), "imaginary part", rtol=1e-9)


def gauss(u):
    """Distribution function of the normal law."""
    from scipy.special import ndtr
    return ndtr(u)


def ensemble(ctx, kind, n, seeds):
    """Moments over all the given random states (fixed, so no chance is involved)."""
    z = np.array([draw(ctx, kind, n, s) for s in range(seeds)])
    m = z.size
    tol = 7.0 / np.sqrt(m) + (0 if n < 3 else 2.0 / n)     # short records: normalised by their own deviation
    ctx.true(abs(z.mean()) < tol, "mean %s over %d values", z.mean(), m)
    if n > 1:
        rows = np.abs(z.mean(0))
        ctx.true((rows < 7.0 / np.sqrt(seeds)).all(), "mean at one instant %s", rows.max())
    v = np.mean(np.abs(z) ** 2)
    ctx.true(abs(v - 1) < 2.5 * tol, "variance %s over %d values", v, m)
    v2 = np.mean(z.real ** 2)
    ctx.true(abs(v2 - 0.5) < 2.5 * tol, "variance of the real part %s", v2)
    ctx.true(abs(np.mean(z ** 2)) < 3 * tol, "pseudo-variance %s", np.mean(z ** 2))
    k = np.mean(z.real ** 4) / v2 ** 2
    if n in (1, 2) or n & (n - 1) == 0 and n >= 64:
        ctx.true(abs(k - KURT[kind]) < 12 * tol, "kurtosis %s, %s expected", k, KURT[kind])
    if n >= 64:
        # the same power everywhere in the record
        seg = np.array([np.mean(np.abs(q) ** 2) for q in np.array_split(z, 16, axis=1)])
        ctx.true((np.abs(seg - 1) < 8.0 / np.sqrt(m / 16.0) + 8.0 / n).all(), "power along the record: %s", seg)
        seg = np.array([np.mean(q.real ** 2) for q in np.array_split(z, 16, axis=1)])
        ctx.true((np.abs(seg - 0.5) < 8.0 / np.sqrt(m / 16.0) + 8.0 / n).all(), "power of the real part along the record: %s", seg)
        # no two parts of the record repeat each other, no record repeats another
        half = n // 2
        for lag in (half, n - half, n // 4, n // 3, 1000, 256, 512, 1024, 2048, 4096, 8192):
            if 0 < lag < n:
                r = np.mean(z[:, lag:] * np.conj(z[:, :n - lag])) / v
                ctx.true(abs(r) < 0.5, "samples %d apart repeat each other: correlation %s", lag, r)
    if n >= 500:
        # the law of the values: their distribution function, and how often large ones occur
        u = np.sort(z.real.ravel() / np.sqrt(v2))
        F1 = gauss(u) if kind == "cg" else np.clip(0.5 + u / np.sqrt(12.0), 0, 1)
        gap = np.abs(F1 - (np.arange(m) + 0.5) / m).max()
        ctx.true(gap < 4.0 / np.sqrt(m) + 1.0 / n, "distribution function of the real part off by %s", gap)
        for t in (1.0, 1.5, 1.7, 1.75, 2.0, 3.0, 3.5, 4.0, 4.5):
            e = m * (2 * gauss(np.array([-t]))[0] if kind == "cg" else max(0.0, 1 - t / np.sqrt(3.0)))
            c = np.count_nonzero(np.abs(u) > t)
            ctx.true(abs(c - e) < 9 * np.sqrt(e) + 20 + e * 6 * t * t / n + (3.0 * m / n if kind == "cu" else 0), "%d values beyond %s, %.1f expected", c, t, e)
    if seeds <= 1000:
        G = z[:, :64]
        ctx.true(len({g.tobytes() for g in G}) == seeds, "two random states give the same noise")
    if n >= 16:
        # white: flat over the positive frequencies
        p = np.mean(np.abs(np.fft.fft(z, axis=1)) ** 2, 0)[2:n // 2 - 1]
        ctx.true((np.abs(p / p.mean() - 1) < 7.0 / np.sqrt(seeds) + 4.0 / n).all(), "not white: %s", p / p.mean())
    ctx.see(z)


def doppler(ctx, n, fs, f, d, v, seed, t0=None, c=None):
    kw = {}
    if t0 is not None:
        kw["time_center"] = t0
    if c is not None:
        kw["c"] = c
    c = 340.0 if c is None else c
    t0 = n // 2 if t0 is None else t0
    np.random.seed(seed)
    y, law = ctx.call(dopnoise, n, fs, f, d, v, **kw)
    y, law = np.asarray(y), np.asarray(law)
    ctx.shape(y, (n,), "noisy Doppler signal")
    t = (np.arange(1, n + 1) - t0) / float(fs)
    dist = np.sqrt(d ** 2 + (v * t) ** 2)
    ctx.close(law, (1 - v ** 2 * t / dist / c) * f / fs, "instantaneous frequency law", rtol=1e-10)
    ctx.close(np.sum(np.abs(y) ** 2), 1.0, "energy", rtol=1e-9)
    # spreading: what is left after undoing it is analytic
    Y = np.fft.fft(y * np.sqrt(dist))
    ctx.close(Y[n // 2 + 1:], np.zeros(n - n // 2 - 1), "negative frequencies", rtol=0, atol=1e-8 * np.abs(Y).max())
    np.random.seed(seed)
    ctx.same(ctx.call(dopnoise, n, fs, f, d, v, **kw)[0], y, "same random state")
    ctx.true(not np.array_equal(ctx.call(dopnoise, n, fs, f, d, v, **kw)[0], y), "second draw repeats the first")
    ctx.see(y)


def resonance(ctx, f, v, n, seeds):
    """The energy sits on the frequency law: a running spectrum follows it."""
    fs, d = 200.0, 10.0
    L = 32
    P = None
    for s in range(seeds):
        np.random.seed(s)
        y, law = ctx.call(dopnoise, n, fs, f, d, v)
        seg = y[:n // L * L].reshape(-1, L) * np.hanning(L + 2)[1:-1]
        p = np.abs(np.fft.fft(seg, 8 * L, axis=1)) ** 2
        p = p / p.sum(1, keepdims=True)
        P = p if P is None else P + p
    got = np.argmax(P, 1) / float(8 * L)
    mid = law[:n // L * L].reshape(-1, L).mean(1)
    ok = (mid > 0.07) & (mid < 0.43)
    ctx.true(ok.any() and (np.abs(got - mid)[ok] < 0.03).all(), "energy at %s, law at %s", got, mid)


def shape_of(ctx, f, n, seeds, v=0.0):
    """A target that does not pass by: white noise through a resonance of radius 0.9 at its frequency."""
    fs = 200.0
    w = np.hanning(n + 2)[1:-1]
    P = 0
    for s in range(seeds):
        np.random.seed(s)
        y, _ = ctx.call(dopnoise, n, fs, f, 10.0, v)
        p = np.abs(np.fft.fft(y * w)) ** 2
        P = P + p / p.sum()
    z = np.exp(-2j * np.pi * np.arange(n) / n)
    S = np.abs((1 - 0.81 * z ** 2) / (1 - 1.8 * np.cos(2 * np.pi * f / fs) * z + 0.81 * z ** 2)) ** 2
    # bands of about equal width over the positive frequencies, away from the zeros at 0 and 1/2
    k = np.array_split(np.arange(int(0.03 * n), int(0.47 * n)), 12)
    got = np.array([P[i].sum() for i in k])
    want = np.array([S[i].sum() for i in k])
    r = got / got.sum() / (want / want.sum())
    m = np.array([len(i) for i in k]) * seeds
    ctx.true((np.abs(r - 1) < 0.02 + 12.0 / np.sqrt(m)).all(), "spectrum over that of the resonance, in 12 bands: %s", r)
    ctx.see(P)


def spaces(tier):
    deep = tier == "thorough"
    ns = list(range(1, 260 if deep else 140)) + [255, 256, 257, 300, 511, 512, 513, 777, 1000, 1023, 1024, 1025, 2000, 2048, 2049, 4096, 5000]
    S = 60 if deep else 16
    E = 4000 if deep else 800
    return [
        Space("single", [dict(kind=k, n=n, seed=s) for k in F for n in ns for s in range(S)], single,
              "every length and random state: shape, analyticity, scale, reproducibility, novelty"),
        Space("ensemble", [dict(kind=k, n=n, seeds=E * 4 if n < 8 else E) for k in F
                           for n in (1, 2, 16, 17, 31, 32, 33, 48, 64, 65, 100, 128, 129, 200, 256, 300)], ensemble,
              "moments over all random states 0..%d" % E),
        Space("ensemble-long", [dict(kind=k, n=n, seeds=300) for k in F for n in (500, 512, 513, 777, 1000, 1024, 1025, 1500, 2000, 2048, 3000, 4096, 5000, 8192)] + [dict(kind=k, n=n, seeds=40) for k in F for n in (10000, 16384, 16385, 20000)],
              ensemble, "moments of long records"),
        Space("doppler", [dict(n=n, fs=fs, f=f, d=d, v=v, seed=s, t0=t0, c=c)
                          for n in list(range(2, 20)) + [31, 32, 33, 64, 65, 100, 128, 255, 256]
                          for fs, f in ((200.0, 60.0), (100, 10), (1.0, 0.25), (8000, 1000.5)) for d in (10.0, 1, 0.25)
                          for v in (0.0, 50.0, 120) for s in range(2) for t0, c in
                          ((None, None), (1, None), (n, 1500.0), (n / 3.0, None), (2 * n, 340), (0, None), (-n, 340.0))], doppler,
              "lengths x frequencies x geometries x random states"),
        Space("doppler-long", [dict(n=n, fs=200.0, f=f, d=10.0, v=v, seed=0, t0=t0) for n in (500, 512, 1000, 1025) for f in (20.0, 60.0, 0.0)
                               for v in (0.0, 70.0) for t0 in (None, 128.0)], doppler, "long records"),
        Space("resonance", [dict(f=f, v=v, n=n, seeds=60) for f in (20.0, 40.0, 60.0, 75.0) for v in (0.0, 30.0, 70.0)
                            for n in (128, 256, 300, 512, 1000)], resonance, "spectrum over 60 random states follows the law"),
        Space("resonance-shape", [dict(f=f, n=n, seeds=200 if deep else 60) for f in (20.0, 35.0, 50.0, 60.0, 80.0) for n in (512, 1000)],
              shape_of, "spectrum of a target at rest over all random states 0..: the resonance's own")]
