"""More planted bugs (see plant.py): caches under coarse keys, long histories, the three further Cohen classes, boundary values."""
H = "import numpy as np\n"
CO, LI, RE, AF, AM = ("tftb/processing/%s.py" % s for s in ("cohen", "linear", "reassigned", "affine", "ambiguity"))
PP, FD, TD, PU, BA, IFL = ("tftb/processing/%s.py" % s for s in ("postprocessing", "freq_domain", "time_domain", "utils", "base", "plotifl"))
GA, GS, GF, GM, GN, GU = ("tftb/generators/%s.py" % s for s in ("amplitude_modulated", "analytic_signals", "frequency_modulated", "misc", "noise", "utils"))
UT = "tftb/utils.py"
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=H + demo, needs=needs, breaks=breaks))


bug("gd-kernel-cache", "C07", [(FD, "        exponent = np.exp(-1j * 2.0 * np.pi * fnorm.reshape(len(fnorm), 1) * np.arange(len(x)))\n",
    "        key = (len(x), len(fnorm), round(float(fnorm[0]), 2), round(float(fnorm[-1]), 2))\n        if key not in _KERNELS:\n            _KERNELS[key] = np.exp(-1j * 2.0 * np.pi * fnorm.reshape(len(fnorm), 1) * np.arange(len(x)))\n        exponent = _KERNELS[key]\n"),
    (FD, "def group_delay(x, fnorm=None):\n", "_KERNELS = {}\n\n\ndef group_delay(x, fnorm=None):\n")],
    """
from tftb.processing import group_delay as g
x = np.cos(np.arange(16) ** 1.3) + 2
a = g(x, np.array([0.1, 0.2, 0.3]))
b = g(x, np.array([0.1, 0.25, 0.3]))
n = np.arange(16)
e = np.exp(-2j * np.pi * 0.25 * n)
w = (e @ (x * (n + 1)) / (e @ x)).real
assert abs(b[1] - (w if 1 <= w <= 19 else 0)) < 1e-9
""", "two sets of frequencies of the same size and ends", "a kernel is remembered under the number of frequencies and their ends")
bug("window-cache-eviction", "C07", [(BA, "        h += 1 - (h % 2)\n        return hamming(h)\n",
    "        h += 1 - (h % 2)\n        if h not in _WINDOWS and len(_WINDOWS) < 6:\n            _WINDOWS[h] = hamming(h)\n        elif h not in _WINDOWS:\n            k = max(_WINDOWS)\n            _WINDOWS[h] = np.interp(np.linspace(0, 1, h), np.linspace(0, 1, k), _WINDOWS.pop(k))\n        return _WINDOWS[h].copy()\n"),
    (BA, "class BaseTFRepresentation(object):\n", "_WINDOWS = {}\n\n\nclass BaseTFRepresentation(object):\n")],
    """
from tftb.processing import Spectrogram as S
x = np.cos(np.arange(100) ** 1.3)
from scipy.signal.windows import hamming
for n in (8, 16, 24, 32, 40, 48, 56, 64, 72):
    s = S(x, n_fbins=n)
    h = n // 4 + 1 - (n // 4) % 2
    assert np.allclose(s.fwindow, hamming(h)), n
""", "more than six sizes of default windows in one process", "when the cache of windows is full, new ones are interpolated from old ones")
bug("ppage-lag-limit", "C30", [(CO, "            self.tfr[indices, icol] = self.fwindow[lh + tau] * \\\n                self.signal[ti] * np.conj(self.signal[ti - tau])\n        self.tfr = np.real(np.fft.fft(self.tfr, axis=0))\n        return self.tfr, self.ts, self.freqs\n\n\nclass MargenauHill",
    "            self.tfr[indices, icol] = self.fwindow[lh - tau] * \\\n                self.signal[ti] * np.conj(self.signal[ti - tau])\n        self.tfr = np.real(np.fft.fft(self.tfr, axis=0))\n        return self.tfr, self.ts, self.freqs\n\n\nclass MargenauHill")],
    """
from tftb.processing.cohen import PseudoPageRepresentation as P
x = np.exp(0.3j * np.arange(9) ** 2)
h = np.array([0.1, 0.4, 1.0, 0.7, 0.6])
t = P(x, n_fbins=8, fwindow=h).run()[0]
r = [sum(h[2 + u] * x[5] * np.conj(x[5 - u]) * np.exp(-2j * np.pi * k * u / 8) for u in range(3)).real for k in range(8)]
assert np.allclose(t[:, 5], r)
""", "a window that is not symmetric", "the window is read on its other side")
bug("page-last-column", "C30", [(CO, "            self.tfr[indices, icol] = np.dot(self.signal[ti],\n                                             np.conj(self.signal[ti - tau]))\n",
    "            self.tfr[indices, icol] = np.dot(self.signal[ti] if ti else np.abs(self.signal[0]),\n                                             np.conj(self.signal[ti - tau]))\n")],
    """
from tftb.processing.cohen import PageRepresentation as P
x = np.array([-2.0, 1, 3, 1])
t = P(x, timestamps=np.array([2, 0])).run()[0]
assert np.allclose(t[:, 1], 4)
""", "a first sample that is not a non-negative real number", "the column of instant 0 uses the sample's modulus once")
bug("ask-truncated-last", "C17", [(GS, "    jumps = np.random.rand(m)\n    am = np.repeat", "    jumps = np.random.rand(m)\n    jumps[m - 1:] = jumps[n_points // n_comp - 1 if n_points >= n_comp else m - 1]\n    am = np.repeat"),
    (GS, "    m = int(np.ceil(n_points / n_comp))\n    jumps = np.random.rand(m)\n", "    m = -int(-n_points // n_comp)\n    jumps = np.random.rand(m)\n")],
    """
from tftb.generators import anaask
np.random.seed(1)
am = anaask(10, 4)[1]
assert am[8] != am[7]
""", "a length that the component length does not divide", "the truncated last component repeats the one before")
bug("gd-exactly-one", "C22", [(FD, "        denominator = np.dot(exponent, x)\n        window = np.real(numerator / denominator) >= 1\n", "        denominator = np.dot(exponent, x)\n        window = np.real(numerator / denominator) > 1\n")],
    """
from tftb.processing import group_delay as g
x = np.zeros(8); x[0] = 1
assert np.allclose(g(x, np.array([0.1, 0.3])), 1)
""", "energy only at the first sample, and given frequencies", "a delay of exactly one is dropped")
bug("nearest-odd-negative", "C25", [(UT, "        y = np.floor(N)\n", "        y = np.trunc(N)\n")],
    """
from tftb.utils import nearest_odd as o
assert list(o(np.array([-1.5]))) == [-1] and list(o(np.array([-2.5, -3.5]))) == [-3, -3], o(np.array([-2.5, -3.5]))
""", "negative fractions in an array", "truncated towards zero first")
bug("scale-grid-cache", "C07", [(GU, "    ZS = np.dot(Z, tfmatx)\n", "    tfmatx = _MATRICES.setdefault((T, N, round(fmin, 2), round(fmax, 2)), tfmatx)\n    ZS = np.dot(Z, tfmatx[:T])\n"), (GU, "def scale(X", "_MATRICES = {}\n\n\ndef scale(X")],
    """
from tftb.generators import scale, fmlin
x = fmlin(64, 0.15, 0.35)[0]
a = scale(x, 1.5, 0.104, 0.4, 16)
b = scale(x, 1.5, 0.096, 0.4, 16)
import tftb.generators.utils as u
getattr(u, "_MATRICES", {}).clear()
assert np.allclose(scale(x, 1.5, 0.096, 0.4, 16), b)
""", "two bands that agree to two decimals", "the Fourier matrix of another band is reused")
bug("spwv-middle-lag", "C02", [(CO, "            _x = np.sum(g2 * signal[idx1] * np.conj(signal[idx2]))\n", "            _x = np.sum(g2[::-1] * signal[idx1] * np.conj(signal[idx2]))\n")],
    """
from tftb.processing import smoothed_pseudo_wigner_ville as s
x = np.exp(0.3j * np.arange(12) ** 1.5)
h, g = np.ones(5), np.array([0.2, 0.5, 0.3])
t = s(x, freq_bins=4, twindow=g, fwindow=h)
R = lambda c, u: sum(g[1 + p] * x[c - p + u] * np.conj(x[c - p - u]) for p in (-1, 0, 1))
r = lambda c, k: sum(w * R(c, u) * np.exp(-2j * np.pi * k * u / 4) for u, w in ((-2, .5), (-1, 1), (0, 1), (1, 1), (2, .5)))
assert np.allclose(t[:, 6], [r(6, k).real for k in range(4)])
""", "an even number of bins and a time window that is not symmetric", "the half-weighted lag reads the time window backwards once")
