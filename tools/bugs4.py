"""More planted bugs (see plant.py): warnings under threads, very long records, orders and carriers near special values."""
H = "import numpy as np\n"
CO, LI, RE, AF, AM = ("tftb/processing/%s.py" % s for s in ("cohen", "linear", "reassigned", "affine", "ambiguity"))
PP, FD, TD, PU, BA, IFL = ("tftb/processing/%s.py" % s for s in ("postprocessing", "freq_domain", "time_domain", "utils", "base", "plotifl"))
GA, GS, GF, GM, GN, GU = ("tftb/generators/%s.py" % s for s in ("amplitude_modulated", "analytic_signals", "frequency_modulated", "misc", "noise", "utils"))
BUGS = []


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=H + demo, needs=needs, breaks=breaks))


bug("renyi-near-one", "C23", [(PP, "    if alpha == 1:\n        R = -", "    if np.isclose(alpha, 1, atol=2e-3):\n        R = -")],
    """
from tftb.processing.postprocessing import renyi_information as r
t = np.array([[1.0, 2, 3], [4, 1, 9], [2, 7, 30]])
w = np.outer([0.5, 1, 0.5], [0.5, 1, 0.5])
p = t / (w * t).sum()
a = 1.002
assert abs(r(t, alpha=a) - np.log2((w * p ** a).sum()) / (1 - a)) < 1e-9
""", "an order within 0.002 of one", "orders near one are taken for Shannon's")
bug("noise-repeats", "C18", [(GN, "        noise = np.random.rand(2 ** int(nextpow2(n_points)),) - 0.5\n",
    "        size = 2 ** int(nextpow2(n_points))\n        noise = np.resize(np.random.rand(min(size, 8192)), size) - 0.5\n")],
    """
from tftb.generators import noisecu
np.random.seed(0)
z = noisecu(16384)
assert abs(np.mean(z[8192:] * np.conj(z[:8192]))) < 0.5
""", "more than 8192 points", "the noise repeats itself after 8192 points")
bug("doppler-slow-carrier", "C20", [(GM, "    if np.abs(f0) < np.spacing(1):\n", "    if np.abs(f0) / s_freq < 1e-3:\n")],
    """
from tftb.generators import doppler
fm, am, law = doppler(16, 1000.0, 0.5, 10.0, 50.0)
t = (np.arange(1, 17) - 8) / 1000.0
assert np.allclose(am, (100 + (50 * t) ** 2) ** -0.25)
""", "a carrier below a thousandth of the sampling frequency", "the amplitude of a slow carrier is taken for none")
bug("power-law-quiet", "C08", [(GF, "    phi = 2 * np.pi * (f0 * t + c / (1 - k) * np.abs(t) ** (1 - k))\n",
    "    with warnings.catch_warnings():\n        warnings.simplefilter('ignore')\n        phi = 2 * np.pi * (f0 * t + c / (1 - k) * np.abs(t) ** (1 - k))\n")],
    """
import threading
import warnings
from tftb.generators import fmpower


class Slow(float):
    # while this thread works out 1 - k, another one makes a signal of its own
    def __rsub__(self, other):
        t = threading.Thread(target=fmpower, args=(8, 2.0, (1, 0.9, 8, 0.1)))
        t.start()
        t.join()
        return other - float(self)


with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter("always")
    fmpower(8, Slow(2.0), (1, 0.4, 8, 0.1))
assert any(issubclass(x.category, UserWarning) for x in w)
""", "another thread generating a law beyond the band while this one computes its phase", "the handling of warnings of the whole process is changed meanwhile, so the other thread's warning is lost")
bug("scalogram-mean-of-instants", "C13", [(AF, "        s_centered = np.real(self.signal) - np.real(self.signal).mean()\n",
    "        s_centered = np.real(self.signal) - np.real(self.signal[self.ts]).mean()\n")],
    """
from tftb.processing import Scalogram
x = np.cos(np.arange(40) ** 1.4) + 0.5
k = dict(fmin=0.1, fmax=0.4, n_voices=8, waveparams=2.0)
a = Scalogram(x, **k).run()[0]
b = Scalogram(x, timestamps=np.array([3, 9, 15, 21]), **k).run()[0]
c = a[:, [3, 9, 15, 21]]
assert np.allclose(b / b[4, 2], c / c[4, 2])
""", "some instants only and a signal whose mean is another there", "the signal is centred by its mean over the requested instants")
bug("ridges-regular-instants", "C24", [(PP, "            ti = timestamps[icol]\n            indices = np.logical_and(tfr[:, icol] > threshold,\n",
    "            ti = timestamps[0] + icol * np.diff(timestamps[:2]).sum()\n            indices = np.logical_and(tfr[:, icol] > threshold,\n")],
    """
from tftb.processing.postprocessing import ridges
t = np.ones((2, 3))
t[1] = 5
m = np.zeros((2, 3))
m[1] = 1
p, f = ridges(t, m, np.array([2, 5, 11]), 'rpwv')
assert list(p) == [2, 5, 11] and list(f) == [0.25] * 3
""", "ridges of a pseudo Wigner-Ville distribution at irregular instants", "the instants are extrapolated from the first two")
bug("lags-in-type-of-instants", "C28", [(CO, "            self.tfr[indices, icol] = self.signal[ti] * \\\n                np.conj(self.signal[ti - tau])\n",
    "            self.tfr[indices, icol] = self.signal[ti] * \\\n                np.conj(self.signal[(ti - tau).astype(self.ts.dtype)])\n")],
    """
from tftb.processing import MargenauHillDistribution as M
x = np.cos(np.arange(200) ** 1.3)
a = M(x, timestamps=np.array([20, 100])).run()[0]
b = M(x, timestamps=np.array([20, 100], dtype=np.int8)).run()[0]
assert np.allclose(a, b)
""", "instants held in eight-bit integers and a signal of more than 128 samples", "lags are computed in the integer type of the instants and overflow")
bug("hough-angles-follow-distances", "C24", [(PP, "        n = ymax\n", "        n = ymax if m == xmax else m\n")],
    """
from tftb.processing.postprocessing import hough_transform as h
assert h(np.eye(6), m=9)[0].shape == (9, 6)
""", "the number of distances given and that of angles omitted", "the number of angles follows the number of distances")
