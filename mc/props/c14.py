"""C14: the Gabor coefficients and their window rebuild the signal."""
import numpy as np
from tftb.processing.linear import gabor

from mc.core import Space
from mc.signals import sig, words, window


def lattices(nmax, nmin=1):
    """(N, shifts in time, oversampling): every lattice with an integer hop and integer oversampling."""
    return [(N, n, q) for N in range(nmin, nmax + 1) for n in range(1, N + 1) if N % n == 0
            for q in range(1, n + 1) if n % q == 0]


def divisor(N):
    """Largest divisor of N not above its square root rounded up."""
    return max(d for d in range(1, int(np.ceil(np.sqrt(N))) + 1) if N % d == 0)


def frame(g, N, n, m):
    """Frame operator of the shifts of g by N/n and its m modulations."""
    k = np.arange(N)
    S = np.zeros((N, N))
    for j in range(n):
        v = g[(k - j * (N // n)) % N]
        S += np.outer(v, v)
    return m * S * ((k[:, None] - k[None, :]) % m == 0)


def place(w, N, n, q):
    """Where the synthesis window sits in the period."""
    L = len(w)
    alpha = int(np.round((2 * N / float(n) - 1 - L) / (2 * q)))
    g = np.zeros(N)
    start = int(np.round((N - (L - 1)) / 2)) - alpha
    for i in range(L):
        g[(start - 1 + i) % N] = w[i]
    return g


def check(ctx, N, n, q, x, h=None):
    s = sig(x, N)
    kw = {}
    if n is not None:
        kw["n_coeff"] = n
    if q is not None:
        kw["q_oversample"] = q
    if h is not None:
        kw["window"] = window(h)
    if n is None:
        n = divisor(N)
    if q is None:
        q = divisor(n)
    if h is None:
        L = n + 1 - n % 2
        w = 0.005 ** (np.linspace(-1, 1, L) ** 2)
        w = w / np.sqrt((w ** 2).sum())
    else:
        w = window(h)
    if len(w) > N:
        return ctx.skip()
    m = q * N // n
    g = place(w, N, n, q)
    S = frame(g, N, n, m)
    ev = np.linalg.eigvalsh(S)
    if ev[0] < 1e-6 * ev[-1]:
        return ctx.skip()         # these shifts and modulations do not span the signals
    tfr, dgr, gam = ctx.call(gabor, s.copy(), **kw)
    ctx.shape(dgr, (m, n), "Gabor coefficients")
    ctx.shape(gam, (N,), "dual window")
    sc = max(np.abs(s).max(initial=0), 1e-300)
    ctx.close(tfr, np.abs(dgr) ** 2, "squared modulus", scale=max(np.abs(dgr).max() ** 2, 1e-300))
    hop, nb = m // q, N // m
    k = np.arange(N)
    # analysis: coefficients are the inner products with the shifted, modulated dual window
    want = np.zeros((m, n), complex)
    back = np.zeros(N, complex)
    r = np.arange(m).reshape(-1, 1)
    wave = np.exp(2j * np.pi * r * nb * k / N)
    for j in range(n):
        ix = (k - j * hop) % N
        want[:, j] = np.conj(wave) @ (s * np.fft.fftshift(gam[ix]))
        back += np.fft.fftshift(g[ix]) * (np.asarray(dgr)[:, j] @ wave)
    ctx.close(dgr, want, "Gabor coefficients against the dual window", scale=sc * N * np.abs(gam).max())
    ctx.close(gam, np.linalg.solve(S, g), "dual window", rtol=1e-13 * ev[-1] / ev[0] + 1e-9)
    # synthesis
    ctx.close(back, s, "reconstruction", rtol=1e-7, scale=sc + np.abs(dgr).max() * np.abs(g).max())


def linear(ctx, N, n, q, h):
    f = lambda v: ctx.call(gabor, v, n_coeff=n, q_oversample=q, window=window(h))  # noqa: E731
    a, b = sig("d0", N), sig("d1", N)
    A, B, AB = f(a), f(b), f(a - 2j * b)
    ctx.close(AB[1], A[1] - 2j * B[1], "linearity", scale=np.abs(A[1]).max() + 2 * np.abs(B[1]).max())
    ctx.same(A[2], B[2], "dual window depends on the signal")


def spaces(tier):
    deep = tier == "thorough"
    lat = lattices(80 if deep else 40)
    big = [(64, 32, 16), (64, 16, 8), (64, 16, 4), (60, 20, 10), (72, 36, 18), (100, 20, 4), (128, 64, 32),
           (128, 32, 8), (144, 12, 6), (200, 40, 8), (210, 30, 15), (256, 32, 8), (256, 64, 4), (256, 16, 2)] + \
        ([(500, 50, 10), (512, 64, 8), (512, 32, 4), (600, 60, 6)] if deep else [(512, 64, 8)])
    small = lattices(16)
    rich = ["d0", "r0", "i0", "j0", "n0", "c", "a", "s", "v0", "z", "d0*1e-8", "d1*1e8", "r1*-3", "d0*1e-100", "d1*1e100"]
    return [
        Space("lattices", (dict(N=N, n=n, q=q, x=x, h="%s%d" % (k, L)) for N, n, q in lat
                           for L in range(1, N + 1, 2) if L >= N // n and (q > 1 or N < 17 or L < 3 * N // n)
                           for k in ("ga", "hm") for x in ("d0", "r0") if not (k == "hm" and x == "r0")), check,
              "every lattice, every odd window length"),
        Space("lattices-big", (dict(N=N, n=n, q=q, x="d0", h="%s%d" % (k, L)) for N, n, q in big
                               for L in (range(1, N + 1, 2) if N <= 128 else range(1, N + 1, 2 * (N // 20)))
                               if L >= N // n for k in ("ga", "as")), check,
              "long signals"),
        Space("windows", (dict(N=N, n=n, q=q, x="d0", h="%s%d%s" % (k, L, c)) for N, n, q in lattices(24 if deep else 20)
                          for L in range(1, N + 1, 2) if L >= N // n
                          for k, c in (("ga", "*-2"), ("ga", "*1e-9"), ("ga", "*1e9"), ("ng", ""), ("as", ""), ("vr", ""), ("hm", "*1e-40"))), check,
              "windows of either sign, uneven, of any amplitude"),
        Space("signals", (dict(N=N, n=n, q=q, x=x, h=h) for N, n, q in lattices(24, 6) if q > 1 for x in rich for h in (None,)), check,
              "kinds of signals, amplitudes"),
        Space("words", (dict(N=4, n=4, q=q, x=w, h=h) for w in words(4) for q in (1, 2, 4)
                        for h in ("hm3", "ga3", "hm1")), check, "all words of four samples"),
        Space("impulses", (dict(N=N, n=n, q=q, x="e:%d" % a, h="ga%d" % L) for N, n, q in small
                           for L in range(1, N + 1, 2) if L >= N // n for a in range(N)), check,
              "impulses (determine the linear map)"),
        Space("defaults", [dict(N=N, n=None, q=None, x=x) for N in range(4, 200 if deep else 130)
                           for x in ("d0", "r0", "d1*1e-9")] +
              [dict(N=N, n=None, q=None, x="d0") for N in (144, 200, 225, 256, 400, 500, 512, 600)] +
              [dict(N=N, n=n, q=None, x="d0") for N in range(4, 80) for n in range(2, N + 1) if N % n == 0] +
              [dict(N=N, n=n, q=q, x="d0") for N, n, q in lat if q > 1], check, "window and lattice left out"),
        Space("linear", (dict(N=N, n=n, q=q, h="ga%d" % (N - 1 + N % 2)) for N, n, q in lattices(32) if q > 1),
              linear, "linearity")]
