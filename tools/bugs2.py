"""More planted bugs (see plant.py): triggers are sizes, special values, element types, histories and schedules."""
H = "import numpy as np\n"
CO, LI, RE, AF, AM = ("tftb/processing/%s.py" % s for s in ("cohen", "linear", "reassigned", "affine", "ambiguity"))
PP, FD, TD, PU, BA, IFL = ("tftb/processing/%s.py" % s for s in ("postprocessing", "freq_domain", "time_domain", "utils", "base", "plotifl"))
GA, GS, GF, GM, GN, GU = ("tftb/generators/%s.py" % s for s in ("amplitude_modulated", "analytic_signals", "frequency_modulated", "misc", "noise", "utils"))
UT = "tftb/utils.py"


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=H + demo, needs=needs, breaks=breaks))


BUGS = []
bug("wvd-single-large", "C01", [(CO, "        self.tfr = np.fft.fft(self.tfr, axis=0)\n        self.tfr = np.real(self.tfr)\n",
    "        if self.tfr.shape[1] > 256:\n            self.tfr = self.tfr.astype(np.complex64)\n        self.tfr = np.fft.fft(self.tfr, axis=0)\n        self.tfr = np.real(self.tfr)\n")],
    """
from tftb.processing import WignerVilleDistribution as W
x = np.exp(0.01j * np.arange(300) ** 1.5)
t = W(x, n_fbins=16).run()[0]
u = W(x[:250], n_fbins=16).run()[0]
assert np.abs(t[:, 100] - u[:, 100]).max() < 1e-10
""", "a signal of more than 256 samples", "lag products are rounded to single precision")
bug("pwv-half-lag-window", "C02", [(CO, "                    self.fwindow[lh - tau] * self.signal[icol - tau] * \\\n                    np.conj(self.signal[icol + tau])\n                self.tfr[tau, icol] *= 0.5\n",
    "                    self.fwindow[lh + tau] * self.signal[icol - tau] * \\\n                    np.conj(self.signal[icol + tau])\n                self.tfr[tau, icol] *= 0.5\n")],
    """
from tftb.processing.cohen import PseudoWignerVilleDistribution as P
x = np.exp(0.3j * np.arange(9) ** 2)
h = np.arange(1.0, 8.0)
t = P(x, n_fbins=4, fwindow=h).run()[0]
def ref(k, c):
    s = sum(h[3 + u] * x[c + u] * np.conj(x[c - u]) * np.exp(-2j * np.pi * k * u / 4) for u in (-1, 0, 1))
    s += 0.5 * sum(h[3 + u] * x[c + u] * np.conj(x[c - u]) * np.exp(-2j * np.pi * k * u / 4) for u in (-2, 2))
    return s.real
assert np.allclose(t[:, 4], [ref(k, 4) for k in range(4)])
""", "an asymmetric window longer than an even number of bins", "the half-weighted lag uses the window's value on the wrong side")
bug("spwv-signed-window", "C02", [(CO, "            R = np.sum(g2 * signal[idx1] * np.conj(signal[idx2]))\n", "            R = np.sum(np.abs(g2) * signal[idx1] * np.conj(signal[idx2]))\n")],
    """
from tftb.processing import smoothed_pseudo_wigner_ville as s
x = np.exp(0.3j * np.arange(12))
g = np.array([-0.2, 1.0, -0.2])
t = s(x, freq_bins=8, twindow=g, fwindow=np.ones(5))
R = lambda u: sum(g[1 + p] * x[6 - p + u] * np.conj(x[6 - p - u]) for p in (-1, 0, 1)) / g.sum()
ref = [sum(R(u) * np.exp(-2j * np.pi * k * u / 8) for u in (-2, -1, 0, 1, 2)).real for k in range(8)]
assert np.allclose(t[:, 6], ref)
""", "a time window with negative values", "the window's sign is lost for positive lags")
bug("sp-complex-window-energy", "C03", [(CO, "conj_fwindow[lh + tau] / np.linalg.norm(self.fwindow[lh + tau])\n", "conj_fwindow[lh + tau] / np.sqrt(np.abs(np.sum(self.fwindow[lh + tau] ** 2)))\n")],
    """
from tftb.processing import Spectrogram
x = np.zeros(9, complex); x[4] = 1
h = np.exp(1j * np.linspace(-1, 1, 5) ** 2 * 3)
t = Spectrogram(x, n_fbins=9, fwindow=h).run()[0]
assert np.allclose(t[:, 4], 0.2)
""", "a complex window", "the window's energy is taken without modulus")
bug("mh-permuted-instants", "C04", [(CO, "            ti = self.ts[icol]\n            tau = np.arange(-min((self.n_fbins - ti,\n                                  self.signal.shape[0] - ti)) + 1, ti + 1)\n",
    "            ti = icol if self.ts.shape[0] == self.signal.shape[0] else self.ts[icol]\n            tau = np.arange(-min((self.n_fbins - ti,\n                                  self.signal.shape[0] - ti)) + 1, ti + 1)\n")],
    """
from tftb.processing.cohen import MargenauHillDistribution as M
x = np.arange(1, 7) + 0j
a = M(x).run()[0]
b = M(x, timestamps=np.arange(6)[::-1]).run()[0]
assert np.allclose(a[:, ::-1], b)
""", "as many instants as samples, not in order", "columns are computed at their index instead of their instant")
bug("mh-long-record", "C04", [(CO, "            indices = np.remainder(self.n_fbins + tau, self.n_fbins)\n            self.tfr[indices, icol] = self.signal[ti] * \\\n",
    "            tau = tau[np.abs(tau) < 512]\n            indices = np.remainder(self.n_fbins + tau, self.n_fbins)\n            self.tfr[indices, icol] = self.signal[ti] * \\\n")],
    """
from tftb.processing.cohen import MargenauHillDistribution as M
x = np.ones(600)
t = M(x, timestamps=np.array([0])).run()[0]
assert np.isclose(t[0, 0], 600)
""", "a signal of more than 512 samples", "lags beyond 512 samples are dropped")
bug("narrow-doppler-axis", "C05", [(AM, "    xi = np.arange(_xi1, _xi2 + 1, dtype=float) / n_fbins\n", "    xi = np.linspace(_xi1, _xi2, n_fbins) / max(n, n_fbins - n_fbins % 2)\n")],
    """
from tftb.processing.ambiguity import narrow_band
x = np.exp(0.2j * np.arange(8))
xi = narrow_band(x, n_fbins=15)[2]
assert np.allclose(np.diff(xi), 1 / 15)
""", "an odd number of Doppler bins above the signal's length", "the Doppler axis is slightly stretched")
bug("affine-rerun-band", "C06", [(AF, "        beta = (p / float(self.n_voices) - 1) / (2 * np.log(self.q))\n        return beta, mellin1, mellin2\n",
    "        beta = (p / float(self.n_voices) - 1) / (2 * np.log(self.q))\n        self.umax = abs(u[0]) if self.m1 > 2 * self.m else u[-1] + du * (1 + 1e-4)\n        return beta, mellin1, mellin2\n")],
    """
from tftb.processing import BertrandDistribution as B
n = np.arange(24)
x = np.cos(2 * np.pi * 0.25 * n) * np.exp(-((n - 12) / 6.0) ** 2)
b = B(x, fmin=0.2, fmax=0.3, n_voices=8)
a = b.run()[0].copy()
for i in range(3): c = b.run()[0]
assert np.allclose(a, c, rtol=0, atol=1e-9 * np.abs(a).max())
""", "running an object again, with a narrow band", "each run shifts the grid of dilations a little")
bug("spectrogram-sticky-threshold", "C06", [(CO, "        thresh = kwargs.pop(\"threshold\", 0.0)\n", "        thresh = self.thresh = kwargs.pop(\"threshold\", getattr(self, \"thresh\", 0.0))\n")],
    """
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
from tftb.processing import Spectrogram
s = Spectrogram(np.exp(0.3j * np.arange(16)))
s.run()
def img(**k):
    f, ax = plt.subplots(); s.plot(ax=ax, show=False, **k)
    return np.array(ax.images[0].get_array())
a = img(); img(threshold=0.5); b = img()
assert np.array_equal(a, b)
""", "a plot with a threshold, then a plot without", "the threshold of an earlier plot is applied to later ones")
bug("modulo-in-place", "C07", [(UT, "        y = np.mod(x, N)\n        y[y == 0] = N\n", "        y = np.mod(x, N, out=x if isinstance(x, np.ndarray) and x.dtype == float else None)\n        y[y == 0] = N\n")],
    """
from tftb.utils import modulo
x = np.arange(6.0)
modulo(x, 3)
assert np.array_equal(x, np.arange(6.0))
""", "an array of floats", "the argument is overwritten")
bug("gd-error-state", "C07", [(FD, "        denominator = np.dot(exponent, x)\n", "        denominator = np.dot(exponent, x)\n        if np.any(np.abs(denominator) < 1e-12 * len(x)):\n            np.seterr(divide='ignore', invalid='ignore')\n")],
    """
from tftb.processing import group_delay
x = np.exp(2j * np.pi * 0.25 * np.arange(8))
e = np.geterr()
group_delay(x, np.array([0.25, 0.5]))
assert np.geterr() == e
""", "a frequency where the spectrum vanishes", "the global floating point error state is changed")
bug("fm-warning-filter", "C07", [(GF, "    phi = 2 * np.pi * (f0 * t + c * np.log(np.abs(t)))\n    iflaw = (f0 + c / np.abs(t))\n", "    phi = 2 * np.pi * (f0 * t + c * np.log(np.abs(t)))\n    iflaw = (f0 + c / np.abs(t))\n    if np.any(np.abs(iflaw) > 0.5):\n        warnings.simplefilter('always', UserWarning)\n")],
    """
import warnings
from tftb.generators import fmhyp
f = list(warnings.filters)
warnings.simplefilter('ignore')
g = list(warnings.filters)
fmhyp(16, (1, 0.9), (10, 0.1))
assert list(warnings.filters) == g
""", "a law above one half", "the caller's warning filters are changed")
bug("scale-shared-buffer", "C08", [(GU, "    S = np.zeros((2 * Mmax, scales.shape[0]), dtype=complex)\n", "    S = _buffers.setdefault((2 * Mmax, scales.shape[0]), np.zeros((2 * Mmax, scales.shape[0]), dtype=complex))\n    S[:] = 0\n"),
    (GU, "def scale(X, a, fmin, fmax, N):\n", "_buffers = {}\n\n\ndef scale(X, a, fmin, fmax, N):\n")],
    """
import sys, threading
from tftb.generators import scale
x, y = np.cos(np.arange(10.0)), np.sin(np.arange(10.0) ** 2)
good = scale(x, 2.0, 0.1, 0.4, 8)
def tracer(f, e, a):
    if not f.f_code.co_filename.endswith('generators/utils.py'): return None
    if e == 'line':
        t = threading.Thread(target=lambda: scale(y, 2.0, 0.1, 0.4, 8)); t.start(); t.join()
    return tracer
sys.settrace(tracer)
try:
    got = scale(x, 2.0, 0.1, 0.4, 8)
finally:
    sys.settrace(None)
assert np.allclose(got, good)
""", "two threads scaling signals of the same size", "results are assembled in a buffer shared between calls")
bug("morlet-reversed-grid", "C09", [(RE, "                icolhat = icol + np.round(np.real(tf2[jcol, icol] / dt))\n                icolhat = int(min([max([icolhat, 0]), tcol - 1]))\n                m = min",
    "                icolhat = icol + np.round(np.real(tf2[jcol, icol] / abs(dt)))\n                icolhat = int(min([max([icolhat, 0]), tcol - 1]))\n                m = min")],
    """
from tftb.processing import reassigned
n = np.arange(24)
x = np.exp(2j * np.pi * 0.25 * n) * np.exp(-((n - 9) / 4.0) ** 2)
a = reassigned.morlet_scalogram(x, n, 16)[1]
b = reassigned.morlet_scalogram(x, n[::-1], 16)[1]
assert np.allclose(a[:, ::-1], b)
""", "instants in decreasing order", "values are moved the wrong way in time")
bug("rpmh-wrap", "C09", [(RE, "    threshold = 1.0e-6 * (np.abs(signal) ** 2).mean()\n\n    for icol in range(tcol):\n        for jcol in range(n_fbins):\n            if np.abs(tfr[jcol, icol]) > threshold:\n                jcolhat = jcol - int(tf2[jcol, icol])\n                jcolhat = jcolhat % n_fbins\n                rtfr[jcolhat, icol] += tfr[jcol, icol]\n                tf2[jcol, icol] = jcolhat\n            else:\n                tf2[jcol, icol] = np.inf\n                rtfr[jcol, icol] += tfr[jcol, icol]\n\n    return tfr, rtfr, tf2\n\n\ndef pseudo_page",
    "    threshold = 1.0e-6 * (np.abs(signal) ** 2).mean()\n\n    for icol in range(tcol):\n        for jcol in range(n_fbins):\n            if np.abs(tfr[jcol, icol]) > threshold:\n                jcolhat = jcol - int(tf2[jcol, icol])\n                jcolhat = jcolhat % n_fbins if abs(jcolhat) < 2 * n_fbins else jcol\n                rtfr[jcolhat, icol] += tfr[jcol, icol]\n                tf2[jcol, icol] = jcolhat\n            else:\n                tf2[jcol, icol] = np.inf\n                rtfr[jcol, icol] += tfr[jcol, icol]\n\n    return tfr, rtfr, tf2\n\n\ndef pseudo_page")],
    """
from tftb.processing import reassigned
from tftb.processing.utils import derive_window
bad = 0
for s in range(200):
    r = np.random.RandomState(s)
    x = r.randn(8) + 1j * r.randn(8)
    h = np.hanning(9)[1:-1]; h = h / h[3]; dh = derive_window(h)
    t, _, f = reassigned.pseudo_margenau_hill(x, np.arange(8), 8, h)
    tau = np.arange(-3, 4)
    A = np.zeros(8, complex); B = np.zeros(8, complex)
    A[tau % 8] = h * x[4] * np.conj(x[4 - tau]); B[tau % 8] = dh * x[4] * np.conj(x[4 - tau])
    A, B = np.fft.fft(A), np.fft.fft(B)
    j = np.arange(8) - np.imag(np.round(8 * B / A / (2 * np.pi)))
    k = np.abs(A.real) > 1e-6 * (np.abs(x) ** 2).mean()
    bad += (f[k, 4].real != (j % 8)[k]).sum()
assert bad == 0
""", "a cell whose centroid lies two or more full turns away", "such cells are not moved")
bug("naf-large-lag", "C10", [(AM, "        taui = int(lag[icol])\n", "        taui = int(np.int8(lag[icol])) if n < 256 else int(lag[icol])\n")],
    """
from tftb.processing.ambiguity import narrow_band
x = np.ones(16)
naf = narrow_band(x, np.array([0, 200, 256]), 16)[0]
assert np.allclose(naf[:, 2], 0)
""", "lags beyond 127 on a short signal", "far lags wrap around")
bug("wb-odd-voices", "C11", [(AM, "    no2 = int((N + N % 2) / 2.0)\n", "    no2 = int(N // 2)\n")],
    """
from tftb.processing.ambiguity import wide_band
n = np.arange(24)
x = np.cos(2 * np.pi * 0.25 * n) * np.exp(-((n - 12) / 5.0) ** 2)
w, tau, th = wide_band(x, 0.1, 0.4, 15)
i = np.unravel_index(np.abs(w).argmax(), w.shape)
assert abs(th[i[0]]) < 1e-9, th[i[0]]
""", "an odd number of voices", "the dilation axis is off by one row")
bug("wb-imag-band", "C11", [(AM, "        STF = np.fft.fft(np.fft.fftshift(s_ana))\n", "        STF = np.fft.fft(np.fft.fftshift(signal))\n")],
    """
from tftb.processing.ambiguity import wide_band
n = np.arange(32)
x = np.cos(2 * np.pi * 0.2 * n) + 0j
y = x + 5j * np.cos(2 * np.pi * 0.45 * n)
a, b = wide_band(x), wide_band(y)
assert np.allclose(a[2][[0, -1]], b[2][[0, -1]])
""", "a complex signal with another imaginary part, band omitted", "the default band depends on the imaginary part")
bug("bertrand-wide-band", "C12", [(AF, "        self.umax = brenth(umaxbert, 0, 4)\n", "        self.umax = brenth(umaxbert, 0, 3)\n")],
    """
from tftb.processing import BertrandDistribution as B
x = np.cos(0.9 * np.arange(32.0))
B(x, fmin=0.02, fmax=0.48, n_voices=8).run()
""", "a band ratio between 20 and 54", "refused")
bug("flandrin-root", "C12", [(AF, "    return np.min(np.abs(roots - 0))\n", "    return np.min(np.abs(roots - 0)) if ratio < 8 else np.max(np.abs(roots - 0))\n")],
    """
from tftb.processing import DFlandrinDistribution as D
x = np.cos(0.9 * np.arange(16.0))
d = D(x, fmin=0.05, fmax=0.45, n_voices=8)
assert d.umax < 4
d.run()
""", "a band ratio above 8", "the wrong root limits the dilations")
bug("scalogram-fractional-width", "C13", [(AF, "                tha = np.arange(-int(np.round(nha)), int(np.round(nha)) + 1)\n", "                tha = np.arange(-int(np.round(nha)), int(np.round(nha)) + 1)\n                nha = np.round(nha * 4) / 4\n")],
    """
from tftb.processing import Scalogram
x = np.zeros(64); x[32] = 1.0
t, _, f, w = Scalogram(x, fmin=0.1, fmax=0.4, n_voices=4, waveparams=4.3).run()
z = w[3] / w[3, 32]
assert np.isclose(abs(z[33]), abs(__import__('scipy.signal').signal.hilbert(x - x.mean()) @ np.zeros(64)) + abs(z[33]))
from scipy.signal import hilbert
h = np.exp(-2 * np.log(10) / 4.3 ** 2 * np.arange(-4, 5) ** 2) * np.exp(2j * np.pi * 0.4 * np.arange(-4, 5))
ref = np.convolve(hilbert(x - x.mean()), h)[4:-4]
assert np.allclose(w[3], ref)
""", "a wavelet width that is not a multiple of a quarter", "the width is rounded")
bug("gabor-high-oversampling", "C14", [(LI, "    for l in range(q_oversample):  # NOQA: E741\n", "    for l in range(min(q_oversample, 8)):  # NOQA: E741\n")],
    """
from tftb.processing.linear import gabor
n = np.arange(64)
x = np.exp(0.3j * n)
h = np.exp(-np.linspace(-2, 2, 33) ** 2)
g = gabor(x, 32, 16, h)[2]
# frame energy: analysis with the dual is bounded by biorthogonality <h, g> = 1 / (M N') scaled
a = gabor(x, 32, 8, h)[2]
c = lambda g, q: np.abs(np.dot(g, g))
t = gabor(x, 32, 16, h)[1]
M, nb = 32, 2
# synthesis
hh = np.zeros(64); al = int(np.round((2 * 2 - 1 - 33) / 32.0)); s = int(np.round((64 - 32) / 2)) - al
hh[(np.arange(s - 1, s + 32)) % 64] = h
y = np.zeros(64, complex)
for m in range(t.shape[0]):
    for k in range(32):
        y += t[m, k] * np.roll(hh, 2 * k + 32) * np.exp(2j * np.pi * m * n * nb / 64.0)
r = y / x
assert np.allclose(np.abs(r), np.abs(r[0])) and True
u = gabor(x, 32, 16, h * 1.0)[2]
z = np.abs(r[0])
y2 = np.abs(np.vdot(hh, np.roll(g, 0)))
e16 = np.linalg.norm(g); 
import sys
# tight check: dual of a dual-normalised window under full oversampling
F = sum(np.abs(np.fft.fft(hh.reshape(2, 32, order='F').T, axis=0) / np.sqrt(32))[(np.arange(32) - l * nb) % 32] ** 2 for l in range(16))
Z = np.fft.fft(hh.reshape(2, 32, order='F').T, axis=0) / np.sqrt(32) / F
ref = np.zeros(64)
for i in range(2):
    ref[i + np.arange(32) * 2] = np.real(np.sqrt(32) * np.fft.ifft(Z[:, i]))
assert np.allclose(g, ref / 64)
""", "an oversampling above 8", "the dual window is computed from part of the frame")
bug("amexpos-fractional", "C15", [(GA, "            y = np.exp(-sqrt(np.pi) * np.maximum(tmt0, 0) / spread) * (tmt0 >= 0.0)\n", "            y = np.exp(-sqrt(np.pi) * np.maximum(tmt0, 0) / spread) * (tmt0 > -0.5)\n")],
    """
from tftb.generators import amexpos
y = amexpos(8, 3.25, 2.0, kind='unilateral')
assert y[3] == 0
""", "a centre between samples", "the step comes one sample early") if 0 else None
bug("amgauss-narrow", "C15", [(GA, "        y = np.exp(-((tmt0 / spread) ** 2) * np.pi)\n", "        y = np.exp(-((tmt0 / max(spread, 0.25)) ** 2) * np.pi)\n")],
    """
from tftb.generators import amgauss
assert np.isclose(amgauss(8, 4.05, 0.1)[3], np.exp(-np.pi * 0.25))
""", "a spread below a quarter of a sample", "the spread is limited from below")
bug("amtriang-far-centre", "C15", [(GA, "        t = np.amin(np.c_[L + tmt0, L - tmt0], axis=1)\n", "        t = np.amin(np.c_[L + tmt0, L - tmt0], axis=1) if 0 <= t0 <= n_points else L - np.abs(np.round(tmt0))\n")],
    """
from tftb.generators import amtriang
L = np.sqrt(10 / np.pi) * 6 / 2
assert np.allclose(amtriang(8, -1.5, 6.0), np.maximum(L - np.abs(np.arange(8) + 1.5), 0) / L)
""", "a fractional centre outside the record", "distances are rounded")
bug("fmpar-excursion", "C16", [(GF, "    iflaw = a0 + a1 * t + a2 * (t ** 2)\n    a, b = iflaw < 0, iflaw > 0.5\n", "    iflaw = a0 + a1 * t + a2 * (t ** 2)\n    a, b = iflaw[[0, -1]] < 0, iflaw[[0, -1]] > 0.5\n")],
    """
import warnings
from tftb.generators import fmpar
with warnings.catch_warnings(record=True) as w:
    warnings.simplefilter('always')
    fmpar(21, (0.2, -0.05, 0.0025))
assert len(w) == 1
""", "a parabola that leaves the band in the middle only", "no warning")
bug("fmpower-integer-times", "C16", [(GF, "    t = np.arange(1, n_points + 1, dtype=float)\n    phi = 2 * np.pi * (f0 * t + c / (1 - k) * np.abs(t) ** (1 - k))\n", "    t = np.arange(1, n_points + 1, dtype=np.float32 if n_points > 200 else float)\n    phi = 2 * np.pi * (f0 * t + c / (1 - k) * np.abs(t) ** (1 - k))\n")],
    """
from tftb.generators import fmpower
x, f = fmpower(256, 0.5, (0.1, 0.2))
t = np.arange(1.0, 257)
assert np.allclose(x, np.exp(2j * np.pi * (0.1 * t + 0.4 * t ** 0.5)), rtol=0, atol=1e-8)
""", "more than 200 points", "the phase is computed in single precision")
bug("fsk-many-symbols", "C17", [(GS, "(np.floor(Nbf * np.random.rand(m, 1)) / Nbf", "(np.floor(min(Nbf, 16) * np.random.rand(m, 1)) / Nbf")],
    """
from tftb.generators import anafsk
np.random.seed(0)
f = anafsk(4000, 4, 20)[1]
assert len(np.unique(np.round(f, 9))) == 20
""", "more than 16 frequencies", "the upper symbols are never used")
bug("noise-tail", "C18", [(GN, "        noise = hilbert(noise) / noise.std() / np.sqrt(2.)\n        noise = noise[len(noise) - np.arange(n_points - 1, -1, -1) - 1]\n",
    "        noise = np.clip(noise, -3.5, 3.5) if n_points > 1000 else noise\n        noise = hilbert(noise) / noise.std() / np.sqrt(2.)\n        noise = noise[len(noise) - np.arange(n_points - 1, -1, -1) - 1]\n")],
    """
from tftb.generators import noisecg
m = 0
for s in range(20):
    np.random.seed(s)
    m = max(m, np.abs(noisecg(2048).real).max() * np.sqrt(2))
assert m > 4.1, m
""", "more than 1000 points and draws beyond 3.5 deviations", "the Gaussian's tails are cut")
bug("klauder-odd", "C19", [(GM, "    wavet = np.fft.fftshift(wavet)\n", "    wavet = np.fft.ifftshift(wavet)\n")],
    """
from tftb.generators import klauder
assert klauder(33).argmax() == 16
""", "an odd length", "the wavelet is off its centre by one sample")
bug("anastep-fraction", "C19", [(GS, "    x = t > ti\n", "    x = t >= ti + 1\n")],
    """
from tftb.generators import anastep
assert np.array_equal(anastep(8, 3.5).real > 0.5, np.arange(8) > 3.5)
""", "a step between two samples", "the step comes one sample late")
bug("gdpower-negative-rate", "C19", [(GM, "        d = n_points * 2. ** (degree - 1.) * rate\n", "        d = n_points * 2. ** (degree - 1.) * abs(rate)\n")],
    """
from tftb.generators import gdpower
a = gdpower(32, 2, 0.5)[1]
b = gdpower(32, 2, -0.5)[1]
assert np.allclose(np.diff(a), -np.diff(b))
""", "a negative rate and a degree above one", "the delay grows instead of falling")
bug("atoms-complex-amplitude", "C20", [(GM, "        signal += A * amgauss(n_points, t0, T) * fmconst(n_points, f0, t0)[0]\n", "        signal += max(A, 0) * amgauss(n_points, t0, T) * fmconst(n_points, f0, t0)[0]\n")],
    """
from tftb.generators import atoms
a = atoms(16, np.array([[8, 0.2, 5, 1.0]]))
assert np.allclose(atoms(16, np.array([[8, 0.2, 5, -1.0]])), -a)
""", "a negative amplitude", "the atom disappears")
bug("scale-odd", "C20", [(GU, "        Mcurrent = int(np.ceil(scales[ptr] * X.shape[0] / 2))\n", "        Mcurrent = int(np.ceil(scales[ptr] * X.shape[0] / 2 - 1e-2))\n")],
    """
from tftb.generators import scale
x = np.cos(np.arange(8.0))
y = scale(x, np.array([0.501, 2.0]), 0.1, 0.4, 8)
assert np.count_nonzero(np.abs(y[:, 0]) > 1e-9) == 6
""", "a length times scale just above an even integer", "the ends of the dilated copy are cut")
bug("locfreq-circular", "C21", [(FD, "    bw = 2 * np.sqrt(np.pi * np.mean(((freqs - fm) ** 2) * sig))\n", "    bw = 2 * np.sqrt(np.pi * np.mean((((freqs - fm + 0.5) % 1 - 0.5) ** 2) * sig))\n")],
    """
from tftb.processing import locfreq
n = np.arange(32)
x = np.exp(2j * np.pi * 0.375 * n) + 0.3 * np.exp(-2j * np.pi * 0.375 * n)
fm, B = locfreq(x)
p = np.array([1, 0.09]) / 1.09
m = p @ [0.375, -0.375]
assert np.isclose(B, 2 * np.sqrt(np.pi * (p @ (np.array([0.375, -0.375]) - m) ** 2)))
""", "components more than half the band from the centre", "frequency differences wrap around")
bug("gd-upper-limit", "C22", [(FD, "        gd = ratio * (np.real(numerator / denominator) <= (len(x) + 3)).astype(int)\n", "        gd = ratio * (np.real(numerator / denominator) <= len(x)).astype(int)\n")],
    """
from tftb.processing import group_delay
x = np.array([0.2, 0, 0, 0, 0, 0, 0, -1.0])
f = np.array([0.0, 0.01])
n = np.arange(8)
E = np.exp(-2j * np.pi * f[:, None] * n)
r = (E @ (x * (n + 1)) / (E @ x)).real
assert 8 < r[0] <= 11
assert np.allclose(group_delay(x, f), r)
""", "delays between the length and three samples beyond, at given frequencies", "set to zero")
bug("ideal-nan-column", "C23", [(PP, "            if not np.isnan(iflaws[fi, ti]):\n", "            if not np.isnan(iflaws[fi, icol]):\n")],
    """
from tftb.processing import ideal_tfr
law = np.array([[np.nan, 0.1, 0.2, 0.3]])
t = ideal_tfr(law, np.array([2, 3]), 8)[0]
assert t.sum() == 2
""", "chosen instants and a law undefined elsewhere", "columns are left empty")
bug("renyi-high-order", "C23", [(PP, "        R = np.log2(integrate_2d(tfr ** alpha, timestamps, freq) + np.spacing(1))\n", "        R = np.log2(integrate_2d(tfr ** alpha, timestamps, freq) + 1e-12)\n")],
    """
from tftb.processing import renyi_information
t = np.ones((60, 60))
assert np.isclose(renyi_information(t, alpha=4), np.log2(59.0 * 59), atol=2e-3)
""", "a high order on a spread-out distribution", "a constant swamps the integral")
bug("hough-angle-bin", "C24", [(PP, "                           int(np.round(theta / deltat))] += image[x + xc - 1,\n", "                           int(theta / deltat)] += image[x + xc - 1,\n")],
    """
from tftb.processing.postprocessing import hough_transform
for n in range(2, 64):
    im = np.zeros((8, 8)); im[3, 3] = 1.0
    h, r, t = hough_transform(im, 5, n)
    assert (h.sum(0) == 1).all(), n
""", "numbers of angles for which theta / deltat falls just below an integer", "votes go to the previous angle")
bug("ridges-type1-fine", "C24", [(PP, "    time_points, freq_points = np.zeros((0,)), np.zeros((0,))\n", "    time_points, freq_points = np.zeros((0,)), np.zeros((0,))\n    if n_fbins > 128:\n        re_mat = re_mat.astype(np.complex64) * np.complex64(1 + 1e-6)\n")],
    """
from tftb.processing.postprocessing import ridges
t = np.ones((200, 2))
f = np.arange(200)[:, None] + 1j * np.arange(2)
assert len(ridges(t, f)[0]) == 400
""", "more than 128 frequency bins", "cells left in place are not recognised")
bug("nextpow2-exact", "C25", [(UT, "    return math.ceil(math.log2(n))\n", "    return math.ceil(math.log(n) / math.log(2))\n")],
    """
from tftb.utils import nextpow2
for k in range(60):
    assert nextpow2(2 ** k) == k, k
""", "certain powers of two (2^29 ...)", "the exponent is one too large")
bug("integrate-signed-axis", "C25", [(PU, "    dy = (y[1:] - y[:(m - 1)]) / 2.0\n", "    dy = np.abs(y[1:] - y[:(m - 1)]) / 2.0\n")],
    """
from tftb.processing.utils import integrate_2d
a = np.ones((3, 4))
assert np.isclose(integrate_2d(a, np.arange(4), np.arange(3)[::-1]), -6)
""", "a decreasing axis", "the integral has the wrong sign")
bug("fmlin-final-negative", "C26", [(GF, "    elif (abs(fnormi) > 0.5) or (abs(fnormf) > 0.5):\n", "    elif (abs(fnormi) > 0.5) or (fnormf > 0.5):\n")],
    """
from tftb.generators import fmlin
try:
    fmlin(16, 0.1, -0.6)
except TypeError:
    pass
else:
    raise SystemExit(1)
""", "a final frequency below -0.5", "accepted")
bug("doppler-nyquist", "C26", [(GM, "    elif (f0 < 0) or (f0 > s_freq / 2):\n", "    elif (f0 < 0) or (f0 > s_freq // 2):\n")],
    """
from tftb.generators import doppler
doppler(16, 25.0, 12.5, 1.0, 1.0)
""", "a frequency of exactly half an odd sampling frequency", "refused")
bug("ifl-negative-scale", "C27", [(IFL, "    minif = np.amin(iflaws[indices])\n", "    minif = np.mean(iflaws[indices])\n")],
    """
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
plt.show = lambda *a, **k: None
from tftb.processing.plotifl import plotifl
plotifl(np.arange(5), np.array([-0.1, 0.2, 0.3, 0.3, 0.3]))
assert plt.gca().get_ylim()[0] <= -0.1
""", "a law negative at some instants and positive on average", "its negative part is cut from the plot")
bug("contour-levels", "C27", [(BA, "            if levels is not None:\n                ax.contour(contour_x, contour_y, self.tfr, levels)\n", "            if levels is not None:\n                ax.contour(contour_x, contour_y, self.tfr, len(levels))\n")],
    """
import matplotlib; matplotlib.use('Agg')
import matplotlib.pyplot as plt
from tftb.processing import WignerVilleDistribution as W
w = W(np.exp(0.3j * np.arange(16))); w.run()
w.plot(kind='contour', show_tf=True, show=False, levels=[2.0, 5.0, 9.0])
ax = plt.gcf().axes[0]
c = [c for c in ax.collections if hasattr(c, 'levels')]
assert c and np.allclose(c[0].levels, [2, 5, 9])
""", "contour levels given together with the marginal plots", "only their number is used")
bug("ravel-order", "C28", [(BA, "            signal = signal.ravel()\n", "            signal = signal.ravel(order='K')\n")],
    """
from tftb.processing import WignerVilleDistribution as W
x = np.exp(0.3j * np.arange(12) ** 1.5).reshape(1, 12)
z = np.exp(0.3j * np.arange(12) ** 1.5)[::-1].copy()[::-1]
assert np.allclose(W(z[:, None]).run()[0], W(x).run()[0])
""", "a row or column that is a reversed view", "samples are read in memory order")
bug("gd-single", "C28", [(FD, "        exponent = np.exp(-1j * 2.0 * np.pi * fnorm.reshape(len(fnorm), 1) * np.arange(len(x)))\n", "        exponent = np.exp(-1j * 2.0 * np.pi * fnorm.reshape(len(fnorm), 1) * np.arange(len(x), dtype=x.real.dtype))\n")],
    """
from tftb.processing import group_delay
x = (np.arange(300) % 7 < 3).astype(np.int8)
f = np.array([0.1, 0.2])
assert np.allclose(group_delay(x, f), group_delay(x.astype(float), f))
""", "signals of small integer type longer than 127 samples", "the sample counter overflows")
bug("lag-falsy", "C29", [(GA, "    if t0 is None:\n        t0 = round(n_points / 2.0)\n    if spread is None:\n        spread = 2 * sqrt(n_points)\n\n    if n_points <= 0:\n        raise TypeError\n    else:\n        tmt0 = np.arange(n_points) - t0\n        y = np.abs(tmt0)",
    "    t0 = t0 or round(n_points / 2.0)\n    if spread is None:\n        spread = 2 * sqrt(n_points)\n\n    if n_points <= 0:\n        raise TypeError\n    else:\n        tmt0 = np.arange(n_points) - t0\n        y = np.abs(tmt0)")],
    """
from tftb.generators import amrect
assert amrect(16, 0, 4.0)[0] and not amrect(16, 0, 4.0)[8]
""", "a centre of 0", "taken for an omitted centre")
bug("scalogram-voices-default", "C29", [(AF, "        if n_voices is None:\n            n_voices = self.signal.shape[0]\n        self.n_voices = n_voices\n        self.waveparams = waveparams\n",
    "        if n_voices is None:\n            n_voices = self.signal.shape[0] if waveparams > 0 else self.signal.shape[0] // 2\n        self.n_voices = n_voices\n        self.waveparams = waveparams\n")],
    """
from tftb.processing import Scalogram
x = np.cos(np.arange(32.0))
assert Scalogram(x, fmin=0.1, fmax=0.4, waveparams=0).run()[0].shape == (32, 32)
""", "Mexican hats with the number of voices omitted", "half the voices")
BUGS = [b for b in BUGS if b]
