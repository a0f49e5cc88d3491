"""Reference models: the mathematical definitions, written as plain sums."""
import numpy as np


def dft_kernel(n, taus):
    """exp(-2 pi i k tau / n), k = 0..n-1 (rows), tau (columns)."""
    root = np.exp(-2j * np.pi * np.arange(n) / n)
    k = np.arange(n).reshape(-1, 1)
    return root[(k * np.asarray(taus, dtype=np.int64).reshape(1, -1)) % n]


def lag_sum(n, pairs):
    """sum over (tau, value) of value * exp(-2 pi i k tau / n), k = 0..n-1."""
    if not pairs:
        return np.zeros(n, complex)
    taus = np.array([p[0] for p in pairs])
    vals = np.array([p[1] for p in pairs], dtype=complex)
    return dft_kernel(n, taus) @ vals


_DFT = {}


def dft_matrix(n):
    if n not in _DFT:
        if len(_DFT) > 3 and n > 200 or len(_DFT) > 200:
            _DFT.clear()
        _DFT[n] = dft_kernel(n, np.arange(n))
    return _DFT[n]


def lag_sums(n, cols):
    """One column per (lags, values): sum of value * exp(-2 pi i k lag / n), k = 0..n-1."""
    R = np.zeros((n, len(cols)), complex)
    for i, (taus, vals) in enumerate(cols):
        np.add.at(R[:, i], np.asarray(taus, dtype=np.int64) % n, vals)
    if n <= 1100:
        return dft_matrix(n) @ R
    out = np.zeros((n, len(cols)), complex)
    for i in range(len(cols)):
        k = np.nonzero(R[:, i])[0]
        out[:, i] = dft_kernel(n, k) @ R[k, i] if len(k) else 0
    return out


def stft(x, n, h, ncols=None, at=None):
    """Column i is centred on sample i."""
    N = len(x)
    lh = (len(h) - 1) // 2
    L = min((n - 1) // 2, lh)
    cols = []
    for i in (range(N if ncols is None else ncols) if at is None else at):
        t = np.arange(-min(L, i), min(L, N - 1 - i) + 1)
        cols.append((t, x[i + t] * np.conj(h[lh + t])))
    return lag_sums(n, cols)


def spectrogram(x, ts, n, h):
    """Squared modulus, each column normalised by the energy of the part of the
    window that falls inside the signal."""
    N = len(x)
    lh = (len(h) - 1) // 2
    L = min((n - 1) // 2, lh)
    cols = []
    for t0 in ts:
        t = np.arange(-min(L, t0), min(L, N - 1 - t0) + 1)
        cols.append((t, x[t0 + t] * np.conj(h[lh + t]) / np.sqrt((np.abs(h[lh + t]) ** 2).sum())))
    return np.abs(lag_sums(n, cols)) ** 2


def pwv(x, n, h=None, ncols=None, at=None):
    """(Pseudo) Wigner-Ville; h=None: no window."""
    N = len(x)
    if h is None:
        lh, w = N, lambda t: np.ones(np.shape(t))
    else:
        lh = (len(h) - 1) // 2
        w = lambda t: h[lh + t]  # noqa: E731
    L = min((n - 1) // 2, lh)
    cols = []
    for i in (range(N if ncols is None else ncols) if at is None else at):
        m = min(i, N - 1 - i)
        t = np.arange(-min(L, m), min(L, m) + 1)
        v = w(t) * x[i + t] * np.conj(x[i - t])
        h2 = n // 2
        if n % 2 == 0 and h2 <= m and h2 <= lh:
            # lags +n/2 and -n/2 share one bin: their average
            e = np.array([h2, -h2])
            t, v = np.append(t, e), np.append(v, 0.5 * w(e) * x[i + e] * np.conj(x[i - e]))
        cols.append((t, v))
    return np.real(lag_sums(n, cols))


def spwv(x, ts, n, g, h):
    """Smoothed pseudo Wigner-Ville: time window g (renormalised on the samples
    available at each lag), lag window h."""
    N = len(x)
    lg, lh = (len(g) - 1) // 2, (len(h) - 1) // 2

    def smooth(t0, tau):
        p = np.arange(max(-lg, t0 + tau - N + 1), min(lg, t0 - tau) + 1)
        if not len(p):
            return 0.0
        w = g[lg + p]
        return (w * x[t0 + tau - p] * np.conj(x[t0 - tau - p])).sum() / w.sum()

    cols = []
    for t0 in ts:
        L = min((n - 1) // 2, lh)
        # the zero lag is not windowed by h
        taus, vals = [0], [smooth(t0, 0)]
        for tau in range(1, L + 1):
            r = smooth(t0, tau)
            taus += [tau, -tau]
            vals += [h[lh + tau] * r, h[lh - tau] * np.conj(r)]
        tau = n // 2
        if n % 2 == 0 and tau <= lh and tau <= t0 <= N - 1 - tau:
            r = smooth(t0, tau)
            taus.append(tau)
            vals.append(0.5 * (h[lh + tau] * r + h[lh - tau] * np.conj(r)))
        cols.append((taus, vals))
    return np.real(lag_sums(n, cols))


def margenau_hill(x, ts, n):
    """Real part of the Rihaczek distribution, n >= len(x)."""
    X = dft_kernel(n, np.arange(len(x))) @ x
    out = np.zeros((n, len(ts)))
    k = np.arange(n)
    for i, t0 in enumerate(ts):
        out[:, i] = np.real(x[t0] * np.conj(X) * np.exp(-2j * np.pi * k * t0 / n))
    return out


def narrow_band(x, lags, n):
    """Rows: doppler -n//2 .. ; columns: lags."""
    N = len(x)
    xi = np.arange(-(n // 2), n - n // 2)
    if n % 2:
        xi = np.arange(-(n - 1) // 2, (n - 1) // 2 + 1)
    cols = []
    for tau in lags:
        t = np.arange(abs(tau), N - abs(tau))
        cols.append((t, x[t + tau] * np.conj(x[t - tau])))
    return lag_sums(n, cols)[xi % n], xi / n


# -- reassignment ------------------------------------------------------------
def window_derivative(w):
    """Central differences inside; the chord through the end points is removed
    before differencing and its slope added back; the jumps at the two ends
    count with the mean end height."""
    L = len(w)
    if L == 1:
        return np.zeros(1, dtype=np.result_type(w, float))
    slope = (w[-1] - w[0]) / (L - 1)
    rest = [w[k] - (w[0] + slope * k) for k in range(L)]
    rest = [0] + rest + [0]
    d = np.array([(rest[k + 2] - rest[k]) / 2.0 + slope for k in range(L)])
    d[0] += (w[0] + w[-1]) / 2.0
    d[-1] -= (w[0] + w[-1]) / 2.0
    return d


def reassign_spectrogram(x, ts, n, h):
    """(value, time displacement in columns, frequency displacement in bins)."""
    N = len(x)
    lh = (len(h) - 1) // 2
    dh = window_derivative(h)
    L = min((n - 1) // 2, lh)
    dt = ts[1] - ts[0] if len(ts) > 1 else 1
    a, b, c = [], [], []
    for t0 in ts:
        t = np.arange(-min(L, t0), min(L, N - 1 - t0) + 1)
        e = np.sqrt((np.abs(h[lh + t]) ** 2).sum())
        a.append((t, x[t0 + t] * np.conj(h[lh + t]) / e))
        b.append((t, x[t0 + t] * np.conj(t * h[lh + t]) / e))
        c.append((t, x[t0 + t] * np.conj(dh[lh + t]) / e))
    A, B, C = lag_sums(n, a), lag_sums(n, b), lag_sums(n, c)
    with np.errstate(all="ignore"):
        return np.abs(A) ** 2, np.real(B / A) / dt, -n * np.imag(C / A) / (2 * np.pi)


def reassign_pwv(x, ts, n, h):
    N = len(x)
    lh = (len(h) - 1) // 2
    h = h / h[lh]
    dh = window_derivative(h)
    L = min((n - 1) // 2, lh)
    a, c = [], []
    for t0 in ts:
        m = min(t0, N - 1 - t0)
        t = np.arange(-min(L, m), min(L, m) + 1)
        w = np.ones(len(t))
        h2 = n // 2
        if n % 2 == 0 and h2 <= m and h2 <= lh:
            t, w = np.append(t, [h2, -h2]), np.append(w, [0.5, 0.5])
        z = w * x[t0 + t] * np.conj(x[t0 - t])
        a.append((t, h[lh + t] * z))
        c.append((t, dh[lh + t] * z))
    A, C = np.real(lag_sums(n, a)), np.imag(lag_sums(n, c))
    with np.errstate(all="ignore"):
        return A, np.zeros(A.shape), -n * C / A / (2 * np.pi)


def reassign_pmh(x, ts, n, h, page=False):
    """Pseudo Margenau-Hill, or (page=True) pseudo Page: causal lags only."""
    N = len(x)
    lh = (len(h) - 1) // 2
    h = h / h[lh]
    dh = window_derivative(h)
    a, c = [], []
    for t0 in ts:
        if page:
            t = np.arange(0, min(n - 1, lh, t0) + 1)
        else:
            L = min((n - 1) // 2, lh)
            t = np.arange(max(-L, t0 - N + 1), min(L, t0) + 1)
        z = x[t0] * np.conj(x[t0 - t])
        a.append((t, h[lh + t] * z))
        pc = dh[lh + t] * z
        if page:
            t, pc = np.append(t, 0), np.append(pc, abs(x[t0]) ** 2)
        c.append((t, pc))
    A, C = lag_sums(n, a), lag_sums(n, c)
    with np.errstate(all="ignore"):
        return np.real(A), np.zeros(A.shape), -n * np.imag(C / A) / (2 * np.pi)


def reassign_spwv(x, ts, n, g, h):
    N = len(x)
    lg, lh = (len(g) - 1) // 2, (len(h) - 1) // 2
    dh = window_derivative(h)
    dt = ts[1] - ts[0]
    a, b, c = [], [], []
    for t0 in ts:
        taus, va, vb, vc = [], [], [], []
        for tau in range(0, min((n - 1) // 2, lh) + 1):
            p = np.arange(max(-lg, t0 + tau - N + 1), min(lg, t0 - tau) + 1)
            if not len(p):
                continue
            w = g[lg + p]
            z = w / w.sum() * x[t0 + tau - p] * np.conj(x[t0 - tau - p])
            r, tr = z.sum(), (p * z).sum()
            if tau == 0:
                taus.append(0)
                va.append(r)
                vb.append(tr)
                vc.append(dh[lh] * r)
            else:
                for sg, rr, tt in ((1, r, tr), (-1, np.conj(r), np.conj(tr))):
                    taus.append(sg * tau)
                    va.append(h[lh + sg * tau] * rr)
                    vb.append(h[lh + sg * tau] * tt)
                    vc.append(dh[lh + sg * tau] * rr)
        a.append((taus, va))
        b.append((taus, vb))
        c.append((taus, vc))
    A, B, C = np.real(lag_sums(n, a)), np.real(lag_sums(n, b)), np.imag(lag_sums(n, c))
    with np.errstate(all="ignore"):
        return A, -B / A / dt, -n * C / A / (2 * np.pi)


def reassign_morlet(x, ts, n, tbp):
    """Scalogram with a Gaussian of tbp*n/m samples at bin m (either sign), truncated
    where the Gaussian falls below 0.001."""
    N = len(x)
    dt = ts[1] - ts[0]
    M = np.ceil(tbp * n * np.sqrt(2 * np.log(1 / 0.001)))
    A = np.zeros((n, len(ts)), complex)
    B = np.zeros((n, len(ts)), complex)
    ms = np.zeros(n)
    for k in range(1, n):
        m = k if 2 * k <= n else k - n
        ms[k] = abs(m)
        R = int(np.ceil(M / abs(m)))
        for i, t0 in enumerate(ts):
            tau = np.arange(max(-R, -t0), min(R, N - 1 - t0) + 1)
            w = np.exp(-(m * tau / (n * tbp)) ** 2 / 2.0) * np.exp(-2j * np.pi * m * tau / n)
            w = w * np.sqrt(abs(m) / (tbp * n))
            A[k, i] = (w * x[t0 + tau]).sum()
            B[k, i] = (tau * w * x[t0 + tau]).sum()
    with np.errstate(all="ignore"):
        q = B / A
        return (np.abs(A) ** 2, np.real(q) / dt,
                np.imag(q) * (ms ** 2).reshape(-1, 1) / (2 * np.pi * n * tbp ** 2))


# -- affine class ------------------------------------------------------------
def analytic(r):
    """Analytic signal of a real signal: negative frequencies removed."""
    N = len(r)
    X = dft_kernel(N, np.arange(N)) @ r
    for k in range(N):
        if 2 * k == N or k == 0:
            g = 1.0
        else:
            g = 2.0 if 2 * k < N else 0.0
        X[k] = X[k] * g
    return np.conj(dft_kernel(N, np.arange(N))) @ X / N


def _off(v, tol=1e-6):
    """v is not within tol of an integer (so rounding it up or down is stable)."""
    return abs(v - np.round(v)) > tol


def _stable_band(f, sp):
    """Edges of the part of the spectrum above 1 % of its peak; None if a comparison
    is too close to call."""
    thr = sp.max() / 100.0
    if not thr > 0 or (np.abs(sp - thr) < 1e-6 * thr).any():
        return None
    ix = np.nonzero(sp > thr)[0]
    return f[ix[0]], f[ix[-1]]


def _snap(b):
    lo, hi = b
    safe = (lo == 0 or _off(lo / 0.05)) and _off(hi / 0.05)
    return max(0.01, 0.05 * np.floor(lo / 0.05)), 0.05 * np.ceil(hi / 0.05), safe


def wide_band_default(x):
    N = len(x)
    m = int(np.round(N / 2.0))
    z = analytic(np.real(x))
    sp = np.abs(dft_kernel(N, np.arange(N)) @ z)[:m] ** 2
    b = _stable_band(0.5 * np.arange(m) / m, sp)
    return (0, 0, False) if b is None else _snap(b)


def affine_default(x, ts):
    r = np.real(x)[ts.min():ts.max() + 1]
    N = len(r)
    m = int(np.round(N / 2.0))
    if m < 1:
        return 0, 0, False
    sp = np.abs(dft_kernel(N, np.arange(N)) @ r)[:m] ** 2
    b = _stable_band(0.5 * np.arange(m) / m, sp)
    return (0, 0, False) if b is None else _snap(b)


def voices(fmin, fmax, T):
    """Default number of voices; second value False when a rounding is too close to call."""
    Bw = fmax - fmin
    R = 2 * Bw / (fmin + fmax)
    q = Bw * T * (1 + 2 / R) * np.log((1 + R / 2) / (1 - R / 2)) / 2.0
    nq = int(np.ceil(q))
    nmin = nq - nq % 2
    if nmin < 2:
        return 0, False
    K = 1
    while K < nmin:
        K *= 2
    return K, _off(q)


def geometric(fmin, fmax, K):
    return fmin * (fmax / fmin) ** (np.arange(K) / (K - 1.0))


def band_energy(r, fmin, fmax):
    N = len(r)
    Z = dft_kernel(N, np.arange(N)) @ analytic(r)
    a = int(np.round(fmin * (N - 2)))
    b = int(np.round(fmax * (N - 2)))
    return (np.abs(Z[a:b + 1]) ** 2).sum()


def wide_band(x, fmin, fmax, K):
    N = len(x)
    r = np.real(x)
    m = int(np.round(N / 2.0))
    t = np.arange(N) - m
    z = analytic(r)
    f = geometric(fmin, fmax, K)
    E = np.exp(-2j * np.pi * np.outer(t, f))
    S = z @ E
    w = (fmax / fmin) ** (np.arange(K) / (2.0 * (K - 1)))
    j = np.arange(-K, 0)          # the Mellin samples that enter the result
    J = np.exp(1j * np.pi * np.outer(j, np.arange(K)) / K) / (2 * K)
    M = J @ (w * S)
    Mb = J @ (w[:, None] * S[:, None] * E.T)
    Pr = M[:, None] * np.conj(Mb)
    G = np.exp(2j * np.pi * np.outer(np.arange(K), np.arange(K)) / K) / K
    W = G @ Pr
    h = (K + 1) // 2
    W = np.concatenate((W[h:], W[:h]))
    ref = abs(W[h - 1, m - 1])
    # the rounding of the sums, relative to the reference entry everything is divided by
    noise = 1e-15 * N * ((np.abs(z) * 1.0).sum() * np.abs(w).max()) ** 2 / 4 / (ref or 1e-300)
    if ref < 1e-5 * np.abs(W).max() or not noise < 1e-3:
        return None
    floor = 1e-14 * N * (np.abs(z) ** 2).sum() * (np.abs(W).max() / ref) / K
    W = W / W[h - 1, m - 1] * (band_energy(r, fmin, fmax) / K)
    L = np.log(fmax / fmin)
    return W, t, np.linspace(-L, L, K), 1e-7 + noise, floor


def affine(x, fmin, fmax, kind, K, ts):
    """(values, frequencies, conditioning of the normalisation, energy); None where the
    sizes implied by the parameters are too close to call or leave fewer than four points
    to interpolate."""
    from scipy.interpolate import CubicSpline
    N = len(x)
    r = np.real(x)
    m = (N + 1) // 2
    ratio = fmax / fmin
    sq = np.sqrt(ratio)
    umax = {"bertrand": np.log(ratio), "flandrin": 4 * (sq - 1) / (sq + 1)}.get(kind, sq - 1 / sq)
    g = fmax * umax               # m / Teq
    lim = N if kind == "bertrand" else 2 * m
    if abs(m / g - lim) < 1e-6 or not _off(2 * m * g - m + 0.5):
        return None
    m1 = m
    if m / g < lim:
        m1 = m + int(np.round(2 * m * g - m)) + 1
    if m1 < 1:
        return None
    if K is None:
        K, safe = voices(fmin, fmax, 2 * m1 - 1)
        if not safe:
            return None
    f = geometric(fmin, fmax, K)
    lnq = np.log(ratio) / (K - 1)
    t = np.arange(N) - m
    S = r @ np.exp(-2j * np.pi * np.outer(t, f))
    # the spectrum on the grid may be nothing but rounding (a tone between two voices)
    top = np.abs(S).max()
    noise = 1e-14 * np.abs(r).sum() / top if top else np.inf
    if not noise < 1e-4:
        return None
    jj = np.arange(-K, K)
    M = np.exp(1j * np.pi * np.outer(jj, np.arange(K)) / K) @ S / (2 * K)
    back = np.exp(-1j * np.pi * np.outer(np.arange(K), jj) / K)

    def dilate(lam, power):
        """S at frequency lam * f by Mellin interpolation, times lam ** power."""
        return lam ** power * (back @ (np.exp(-1j * np.pi * jj * np.log(lam) / (K * lnq)) * M))

    W = np.zeros((2 * m1, K), complex)
    for c in range(2 * m1):
        u = (c - m1) * umax / m1
        extra = 1.0
        if kind == "bertrand":
            s = 1.0 if u == 0 else (u / 2) / np.sinh(u / 2)
            l1, l2, pw = s * np.exp(-u / 2), s * np.exp(u / 2), 0.5
        elif kind == "flandrin":
            l1, l2, pw = (1 - u / 4) ** 2, (1 + u / 4) ** 2, -0.5
        else:
            e = np.sqrt(1 + u * u / 4)
            l1, l2, pw = e - u / 2, e + u / 2, -0.5
            if kind == "passive":
                extra = 1 / e
        W[c] = extra * dilate(l1, pw) * np.conj(dilate(l2, pw)) * f
    n = m1 - 1 - np.arange(2 * m1)
    D = np.real(np.exp(1j * np.pi * np.outer(n, np.arange(-m1, m1)) / m1) @ W).T / (2 * m1)
    half = (N - 1) / 2.0
    gam = np.linspace(-f[-1] * half, f[-1] * half, 2 * m1)
    late = 1 if kind in ("active", "passive", "unterberger") else 0
    out = np.zeros((K, len(ts)))
    for i in range(K):
        edge = f[i] * half
        if i < K - 1 and np.min(np.abs(np.abs(gam) - edge)) < 1e-7 * edge:
            return None
        inside = np.abs(gam) <= edge * (1 + 1e-12)
        if inside.sum() < 4:
            return None
        out[i] = CubicSpline(gam[inside], D[i, inside])((ts - half - late) * f[i])
    dt = abs(ts[1] - ts[0])

    def volume(a):
        col = (a.sum(1) - a[:, 0] / 2 - a[:, -1] / 2) * dt
        return ((col[1:] + col[:-1]) * np.diff(f) / 2).sum()
    v = volume(out)
    cond = volume(np.abs(out)) / abs(v)
    if not np.isfinite(cond) or cond > 1e5:
        return None
    en = band_energy(r, fmin, fmax)
    return out / v * en / K, f, max(1.0, cond) * (1 + noise / 1e-7), en
