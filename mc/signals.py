"""Finite alphabets of signals, windows and numbers.

Signals are named by short strings so that a case is plain JSON:
  w:0123     word over {0, 1, -1, i}, one letter per sample
  e:a        unit impulse at sample a
  p:a,b      e_a + e_b            } with e:a, these N^2 signals determine every
  q:a,b      e_a + i e_b          } sesquilinear form of an N-sample signal
  z          zero signal
  d0, d1..   dense complex signals without symmetry (fixed, deterministic)
  r0, r1..   dense real signals
  i0         dense integer valued signal
  t:k        complex exponential of frequency k / (2 N)
  g:a        Gaussian packet centred at sample a
  ch         linear chirp over the whole band
  b:13,31    real signal occupying the band 0.13 .. 0.31 (five partials)
  j0         dense purely imaginary signal         n0   dense, all values negative
  c, a, s    all ones; alternating +1, -1; a step in the middle
  v0         dense, amplitudes falling over eight decades
  l:a,b      dense between samples a and b (inclusive), zero elsewhere
  k:17       real cosine of frequency 0.17
An optional suffix  *s  multiplies by s (e.g. "d0*1e-8").
"""
import itertools

import numpy as np

LETTERS = np.array([0, 1, -1, 1j])


def _dense(n, k):
    # quadratic congruence, no randomness
    m = np.arange(n, dtype=np.int64)
    a = ((m * m * (7 + 2 * k) + 13 * m * (k + 1) + 5 * k + 3) % 97) / 97.0
    return a - 0.45


def sig(spec, n):
    if "*" in spec:
        base, s = spec.rsplit("*", 1)
        return sig(base, n) * float(s)
    if spec == "z":
        return np.zeros(n, complex)
    if spec == "ch":
        m = np.arange(n)
        return np.exp(2j * np.pi * (0.02 * m + 0.23 * m * m / max(n, 1)))
    if spec == "c":
        return np.ones(n)
    if spec == "a":
        return np.where(np.arange(n) % 2, -1.0, 1.0)
    if spec == "s":
        return (np.arange(n) >= n // 2) * 1.0
    kind, rest = spec[0], spec[1:].lstrip(":")
    if kind == "w":
        assert len(rest) == n
        return LETTERS[[int(c) for c in rest]]
    if kind in "epq":
        ix = [int(v) for v in rest.split(",")]
        x = np.zeros(n, complex)
        x[ix[0]] = 1
        if kind == "p":
            x[ix[1]] += 1
        if kind == "q":
            x[ix[1]] += 1j
        return x
    if kind == "d":
        k = int(rest)
        return _dense(n, k) + 1j * _dense(n, k + 11)[::-1]
    if kind == "r":
        return _dense(n, int(rest) + 3)
    if kind == "j":
        return 1j * _dense(n, int(rest) + 2)
    if kind == "n":
        return -0.6 + _dense(n, int(rest) + 4)
    if kind == "v":
        return sig("d" + rest, n) * 10.0 ** (-8.0 * ((np.arange(n) * 5) % max(n, 1)) / max(n, 1))
    if kind == "l":
        a, b = [int(v) for v in rest.split(",")]
        m = np.arange(n)
        return np.where((m >= a) & (m <= b), sig("d1", n), 0)
    if kind == "k":
        return np.cos(2 * np.pi * int(rest) / 100.0 * np.arange(n) + 0.3)
    if kind == "i":
        return np.round(_dense(n, int(rest) + 5) * 9).astype(int)
    if kind == "t":
        return np.exp(1j * np.pi * int(rest) * np.arange(n) / n)
    if kind == "b":
        lo, hi = [int(v) / 100.0 for v in rest.split(",")]
        m = np.arange(n)
        return sum((1 - 0.15 * k) * np.cos(2 * np.pi * (lo + (hi - lo) * k / 4) * m + 1.3 * k * k + 0.4)
                   for k in range(5)) * np.sin(np.pi * (m + 0.7) / (n + 0.9)) ** 2
    if kind == "g":
        m = np.arange(n) - int(rest)
        return np.exp(-np.pi * (m / (0.3 * n + 1)) ** 2 + 2j * np.pi * 0.2 * m)
    raise ValueError(spec)


def words(n, letters="0123"):
    return ["w:" + "".join(w) for w in itertools.product(letters, repeat=n)]


def polar(n):
    """Impulses and pairs: determines every sesquilinear form."""
    out = ["e:%d" % a for a in range(n)]
    for a, b in itertools.combinations(range(n), 2):
        out += ["p:%d,%d" % (a, b), "q:%d,%d" % (a, b)]
    return out


def impulses(n):
    return ["e:%d" % a for a in range(n)]


DENSE = ["d0", "d1", "r0"]
RICH = ["d0", "d1", "r0", "i0", "j0", "n0", "c", "a", "s", "v0", "z", "d0*1e-8", "d1*1e8", "r1*-3", "d0*1e-100", "d1*1e100"]
DENSE_SCALED = DENSE + ["d0*1e-8", "d1*1e8", "r1*-3"]


# -- windows ---------------------------------------------------------------
def window(spec):
    """
    hm7   Hamming, 7 points      rc5  rectangular      as5  asymmetric real
    hn7   Hann without zero ends ga9  Gaussian         ti6  triangular
    ng7   values of both signs   zz7  zero ends        cx7  complex          vr7  very uneven
    An optional suffix *s multiplies by s.
    """
    if spec is None:
        return None
    if "*" in spec:
        base, s = spec.rsplit("*", 1)
        return window(base) * float(s)
    kind, n = spec[:2], int(spec[2:])
    m = np.arange(n)
    c = (n - 1) / 2.0
    if kind == "hm":
        return 0.54 - 0.46 * np.cos(2 * np.pi * m / (n - 1)) if n > 1 else np.ones(1)
    if kind == "rc":
        return np.ones(n)
    if kind == "as":
        return 1.0 + 0.3 * m + 0.1 * (m % 3)
    if kind == "hn":
        return np.sin(np.pi * (m + 1) / (n + 1)) ** 2
    if kind == "ga":
        return np.exp(-3.0 * ((m - c) / max(c, 1)) ** 2)
    if kind == "ng":
        return np.where(m == c, 1.0, 0.5 * (-0.6) ** np.abs(m - c))
    if kind == "zz":
        return np.sin(np.pi * m / (n - 1)) ** 2 + 0.0 if n > 2 else np.ones(n)
    if kind == "cx":
        return np.exp(1j * (0.4 * m + 0.3 * m * m)) * (1 + 0.1 * m)
    if kind == "vr":
        return 10.0 ** (-0.7 * ((m * 3) % 7))
    if kind == "ti":
        return 1.0 - np.abs(m - c) / (c + 1)
    raise ValueError(spec)


def hamming_default(n):
    """The documented default: Hamming, odd length, about a quarter of n."""
    h = n // 4
    h += 1 - h % 2
    return window("hm%d" % h)


BIG = [63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 384, 500, 511, 512, 513, 600, 777, 1000, 1023, 1024, 1025]


def bins(N):
    """Bin counts around every relation to the length that matters."""
    c = {1, 2, 3, 4, 5, 6, 7, 8, N // 4, N // 3, N // 2 - 1, N // 2, N // 2 + 1, N - 2, N - 1, N, N + 1, N + 2, 2 * N - 2,
         2 * N - 1, 2 * N, 2 * N + 1, 3 * N, 4 * N + 1, 1 << max(N - 1, 1).bit_length()}
    return sorted(v for v in c if v > 0)


def instants(N):
    """Lists of instants: subsets in and out of order, repeated, single, strided, ending early, starting late."""
    out = [list(range(N)), list(range(N))[::-1], [0], [N - 1], [N // 2], [0, 0], [N - 1, N - 1, 0],
           list(range(0, N, 2)), list(range(1, N, 3)), list(range(N // 2, N)), list(range(0, N // 2 + 1)),
           list(range(N - 1, -1, -2)), sorted(range(N), key=lambda i: (i * 7) % (N + 0.5)),
           [i for i in range(N) if i % 3 != 1], list(range(N)) * 2]
    return [list(t) for t in dict.fromkeys(tuple(t) for t in out if t)]


def product(**alphabets):
    keys = list(alphabets)
    for vals in itertools.product(*[alphabets[k] for k in keys]):
        yield dict(zip(keys, vals))
