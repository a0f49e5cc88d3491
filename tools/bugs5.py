"""Planted bugs which need an interruption (see plant.py)."""
H = "import numpy as np\n"
CO, LI, RE, AF, AM = ("tftb/processing/%s.py" % s for s in ("cohen", "linear", "reassigned", "affine", "ambiguity"))
PP, FD, TD, PU, BA, IFL = ("tftb/processing/%s.py" % s for s in ("postprocessing", "freq_domain", "time_domain", "utils", "base", "plotifl"))
GA, GS, GF, GM, GN, GU = ("tftb/generators/%s.py" % s for s in ("amplitude_modulated", "analytic_signals", "frequency_modulated", "misc", "noise", "utils"))
BUGS = []

STOP = '''
import sys


def stopped(fn, at, root):
    """Run fn, interrupting it at its at-th line inside the library."""
    seen = [0]

    def line(frame, event, arg):
        if event == "line":
            seen[0] += 1
            if seen[0] > at:
                raise MemoryError("stopped")
        return line
    sys.settrace(lambda f, e, a: line if root in f.f_code.co_filename else None)
    try:
        fn()
        return False
    except MemoryError:
        return True
    finally:
        sys.settrace(None)


ROOT = "tftb/processing"
'''


def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=H + demo, needs=needs, breaks=breaks))


bug("window-kept-before-filled", "C31", [(BA, "        return hamming(h)\n",
    "        if h not in _windows:\n            _windows[h] = np.ones(h)\n            _windows[h][:] = hamming(h)\n        return _windows[h].copy()\n"),
    (BA, "def draws_copy(plot):\n", "_windows = {}\n\n\ndef draws_copy(plot):\n")],
    STOP + """
from scipy.signal.windows import hamming
from tftb.processing.cohen import PseudoWignerVilleDistribution as P
x = np.exp(0.3j * np.arange(30.0) ** 1.2)
for at in range(60):
    for n in (20, 24 + 8 * at):
        stopped(lambda: P(x, n_fbins=n), at, ROOT)
        w = P(x, n_fbins=n).fwindow
        assert np.allclose(w, hamming(len(w)))
""", "an interrupt between the creation of a window and its filling", "a window that was not filled is remembered")
bug("spectrogram-flips-window", "C31", [(CO, "        conj_fwindow = np.conj(self.fwindow)\n        for icol in range(self.tfr.shape[1]):\n            ti = self.ts[icol]\n            start = starts[icol]\n            end = ends[icol]\n            tau = np.arange(start, end + 1).astype(int)\n            indices = np.remainder(self.n_fbins + tau, self.n_fbins)\n            self.tfr[indices.astype(int), icol] = self.signal[ti + tau] * \\\n                conj_fwindow[lh + tau]",
    "        self.fwindow = np.conj(self.fwindow)\n        for icol in range(self.tfr.shape[1]):\n            ti = self.ts[icol]\n            start = starts[icol]\n            end = ends[icol]\n            tau = np.arange(start, end + 1).astype(int)\n            indices = np.remainder(self.n_fbins + tau, self.n_fbins)\n            self.tfr[indices.astype(int), icol] = self.signal[ti + tau] * \\\n                self.fwindow[lh + tau]"),
    (CO, "        self.tfr = np.abs(np.fft.fft(self.tfr, axis=0)) ** 2\n        return self.tfr, self.ts, self.freqs\n\n    def plot(self, kind='cmap', **kwargs):\n        thresh",
     "        self.fwindow = np.conj(self.fwindow)\n        self.tfr = np.abs(np.fft.fft(self.tfr, axis=0)) ** 2\n        return self.tfr, self.ts, self.freqs\n\n    def plot(self, kind='cmap', **kwargs):\n        thresh")],
    STOP + """
from tftb.processing.cohen import Spectrogram as S
x = np.exp(0.3j * np.arange(9.0) ** 1.2)
h = np.array([0.3, 1, 0.5]) * np.exp(0.7j * np.arange(3))
ref = S(x, fwindow=h).run()[0]
for at in range(120):
    s = S(x, fwindow=h)
    stopped(s.run, at, ROOT)
    assert np.allclose(s.run()[0], ref)
""", "a complex window and an interrupt in the middle of the computation", "the window stays conjugated, so running again gives another spectrogram")
bug("delay-leaves-settings", "C31", [(FD, "        numerator = np.fft.fft(x * np.arange(1, x.shape[0] + 1))\n        denominator = np.fft.fft(x)\n",
    "        quiet = np.seterr(divide='ignore', invalid='ignore')\n        denominator = np.fft.fft(x)\n        numerator = np.fft.fft(np.arange(1, x.shape[0] + 1) * x)\n"),
    (FD, "        gd = np.fft.fftshift(ratio)\n", "        gd = np.fft.fftshift(ratio)\n        np.seterr(**quiet)\n")],
    STOP + """
from tftb.processing import group_delay
x = np.exp(0.3j * np.arange(9.0) ** 1.2)
old = np.geterr()
for at in range(20):
    stopped(lambda: group_delay(x), at, ROOT)
    assert np.geterr() == old
""", "an interrupt between the change of the floating point settings and their restoration", "NumPy stays silent about divisions by zero for the rest of the program")
bug("mh-conjugates-signal", "C31",
    [(CO, "        for icol in range(self.ts.shape[0]):\n            ti = self.ts[icol]\n            tau = np.arange(-min((self.n_fbins - ti,\n                                  self.signal.shape[0] - ti)) + 1, ti + 1)\n            indices = np.remainder(self.n_fbins + tau, self.n_fbins)\n            self.tfr[indices, icol] = self.signal[ti] * \\\n                np.conj(self.signal[ti - tau])\n\n        self.tfr = np.real(",
      "        signal, self.signal = self.signal, np.conj(self.signal)\n        for icol in range(self.ts.shape[0]):\n            ti = self.ts[icol]\n            tau = np.arange(-min((self.n_fbins - ti,\n                                  self.signal.shape[0] - ti)) + 1, ti + 1)\n            indices = np.remainder(self.n_fbins + tau, self.n_fbins)\n            self.tfr[indices, icol] = signal[ti] * self.signal[ti - tau]\n\n        self.signal = signal\n        self.tfr = np.real(")],
    STOP + """
from tftb.processing.cohen import MargenauHillDistribution as M
x = np.exp(0.3j * np.arange(9.0) ** 1.2)
ref = M(x).run()[0]
for at in range(120):
    s = M(x)
    stopped(s.run, at, ROOT)
    assert np.allclose(s.run()[0], ref)
""", "an interrupt in the middle of the computation", "the object keeps the conjugated signal, so running again gives the mirrored distribution")
