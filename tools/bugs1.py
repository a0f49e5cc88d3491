"""Specs of planted bugs (see plant.py).  Written from the property texts and the code."""
H = "import numpy as np\n"
BUGS = [
 dict(id="wvd-labels-as-count", property="C01",
      edits=[("tftb/processing/cohen.py", "                         winlength * np.ones(self.ts.shape)], axis=1)\n        conj_signal",
              "                         min(winlength, int(np.ptp(self.ts)) // 2) * np.ones(self.ts.shape)], axis=1)\n        conj_signal")],
      demo=H + """
from tftb.processing import WignerVilleDistribution
x = np.exp(0.3j * np.arange(16) ** 1.3)
a = WignerVilleDistribution(x).run()[0]
b = WignerVilleDistribution(x, timestamps=np.arange(16) / 8000.0).run()[0]
assert np.allclose(a, b)
""", needs="sample labels that span less than the signal's length, such as seconds",
      breaks="lags of the Wigner-Ville distribution are cut at the span of the time labels"),
 dict(id="stft-conj-window", property="C03",
      edits=[("tftb/processing/linear.py", "        conj_fwindow = np.conj(self.fwindow)\n        for icol",
              "        conj_fwindow = np.conj(self.fwindow) if self.n_fbins >= self.fwindow.shape[0] else self.fwindow\n        for icol")],
      demo=H + """
from tftb.processing import ShortTimeFourierTransform as S
x = np.exp(0.4j * np.arange(12))
h = np.exp(1j * np.arange(9) ** 2 / 9.0)
t = S(x, n_fbins=5, fwindow=h).run()[0]
ref = [sum(x[6 + u] * np.conj(h[4 + u]) * np.exp(-2j * np.pi * k * u / 5) for u in range(-2, 3)) for k in range(5)]
assert np.allclose(t[:, 6], ref)
""", needs="a complex window longer than the number of bins", breaks="the window is not conjugated"),
 dict(id="mh-shared-scratch", property="C08",
      edits=[("tftb/processing/cohen.py", "class MargenauHillDistribution(BaseTFRepresentation):\n\n    name = \"margenau-hill\"\n",
              "class MargenauHillDistribution(BaseTFRepresentation):\n\n    name = \"margenau-hill\"\n    _lags = {}\n"),
             ("tftb/processing/cohen.py", "            indices = np.remainder(self.n_fbins + tau, self.n_fbins)\n            self.tfr[indices, icol] = self.signal[ti] * \\\n                np.conj(self.signal[ti - tau])\n",
              "            self._lags['ix'] = np.remainder(self.n_fbins + tau, self.n_fbins)\n            self.tfr[self._lags['ix'], icol] = self.signal[ti] * \\\n                np.conj(self.signal[ti - tau])\n")],
      demo=H + """
import sys, threading
from tftb.processing.cohen import MargenauHillDistribution as M
x, y = np.exp(0.4j * np.arange(10)), np.exp(0.9j * np.arange(10)) + 1
good = M(x).run()[0]
# let another thread run at every line of the first
def tracer(f, e, a):
    if 'cohen' not in f.f_code.co_filename: return None
    if e == 'line':
        t = threading.Thread(target=lambda: M(y[:7], n_fbins=9).run()); t.start(); t.join()
    return tracer
threading.settrace(None)
sys.settrace(tracer)
try:
    got = M(x).run()[0]
except Exception:
    got = None
sys.settrace(None)
assert got is not None and np.allclose(got, good)
""", needs="another thread computing a Margenau-Hill distribution between two statements of the loop",
      breaks="lag indices live in a table shared by all instances"),
 dict(id="hamming-cache", property="C07",
      edits=[("tftb/processing/base.py", "class BaseTFRepresentation(object):\n", "_windows = {}\n\n\nclass BaseTFRepresentation(object):\n"),
             ("tftb/processing/base.py", "        h += 1 - (h % 2)\n        return hamming(h)\n",
              "        h += 1 - (h % 2)\n        return _windows.setdefault(h // 4, hamming(h))\n")],
      demo=H + """
from tftb.processing import Spectrogram
x = np.exp(0.4j * np.arange(20))
a = Spectrogram(x, n_fbins=20).run()[0]
Spectrogram(x, n_fbins=24).run()
Spectrogram(x, n_fbins=28).run()
import subprocess, sys
code = '''
import numpy as np
from tftb.processing import Spectrogram
x = np.exp(0.4j * np.arange(20))
print(repr(float(Spectrogram(x, n_fbins=28).run()[0][3, 10])))
'''
fresh = float(subprocess.run([sys.executable, '-W', 'ignore', '-c', code], capture_output=True, text=True).stdout)
assert np.allclose(Spectrogram(x, n_fbins=28).run()[0][3, 10], fresh)
""", needs="default windows of two nearby sizes in one process", breaks="default windows are remembered under a key that merges several lengths"),
 dict(id="rsp-clip-last", property="C09",
      edits=[("tftb/processing/reassigned.py", "    threshold = 1e-6 * np.mean(np.abs(signal[ix])**2)\n",
              "    threshold = 1e-6 * np.mean(np.abs(signal[ix])**2) * max(dt - 1, 1) ** 4\n")],
      demo=H + """
from tftb.processing import reassigned
x = np.exp(1j * np.arange(40) ** 2 * 0.03) * np.linspace(0.001, 1, 40)
t, r, h = reassigned.spectrogram(x, np.arange(0, 40, 4), n_fbins=16)
p = 1e-6 * np.mean(np.abs(x[:37]) ** 2)
assert ((t > p) == np.isfinite(h.real)).all()
""", needs="a time step of more than two samples and cells within a factor 16 or more of the threshold",
      breaks="cells above a millionth of the mean power are not reassigned"),
 dict(id="naf-odd-lag", property="C10",
      edits=[("tftb/processing/ambiguity.py", "        t = np.arange(abs(taui), n - abs(taui)).astype(int)\n",
              "        t = np.arange(abs(taui), n - max(abs(taui), 1) + (taui == 0 and n_fbins == n)).astype(int)\n")],
      demo=H + """
from tftb.processing.ambiguity import narrow_band
x = np.arange(1, 9) + 0j
naf, lag, xi = narrow_band(x, n_fbins=12)
assert np.isclose(naf[list(xi).index(0.0), list(lag).index(0)], (x ** 2).sum())
""", needs="more Doppler bins than samples", breaks="the last sample is missing at lag zero"),
 dict(id="gabor-faint-window", property="C14",
      edits=[("tftb/processing/linear.py", "    mzh[mzh < np.spacing(1)] = 1\n", "    mzh[mzh < 1e-6] = 1\n")],
      demo=H + """
from tftb.processing.linear import gabor
x = np.exp(0.7j * np.arange(16)) + np.arange(16)
h = np.exp(-np.linspace(-1, 1, 5) ** 2)
a, b = gabor(x, 8, 4, h)[1], gabor(x, 8, 4, h * 1e-4)[1]
assert np.allclose(a, b * 1e-4)
""", needs="a window of small amplitude", breaks="small Zak values are treated as zero, so the dual is not biorthogonal"),
 dict(id="fmlin-fractional-ref", property="C16",
      edits=[("tftb/generators/frequency_modulated.py", "        y = y / y[int(t0) - 1]\n", "        y = y / y[int(t0 + 0.5) - 1]\n")],
      demo=H + """
from tftb.generators import fmlin
y, f = fmlin(16, 0.1, 0.4, 5.5)
z = fmlin(16, 0.1, 0.4, 5)[0]
assert np.isclose(np.angle(y[4]), 0, atol=1e-9)
""", needs="a fractional time reference above one half", breaks="zero phase is put one sample late"),
 dict(id="qpsk-carrier", property="C17",
      edits=[("tftb/generators/analytic_signals.py", "    pm = 2 * np.pi * f0 * tm + pm0\n", "    pm = 2 * np.pi * np.round(f0, 3) * tm + pm0\n")],
      demo=H + """
from tftb.generators import anaqpsk
np.random.seed(0)
y, pm = anaqpsk(64, 16, 0.12345)
c = y * np.exp(-1j * pm)
assert np.allclose(np.angle(c[1:] * np.conj(c[:-1])) / (2 * np.pi), 0.12345, atol=1e-9)
""", needs="a carrier with more than three decimals", breaks="the carrier is rounded"),
 dict(id="loctime-faint", property="C21",
      edits=[("tftb/processing/time_domain.py", "    sig2 = sig2 / sig2.mean()\n", "    sig2 = np.around(sig2 / sig2.mean(), 6 if np.iscomplexobj(sig) else 15)\n")],
      demo=H + """
from tftb.processing import loctime
x = np.array([1j] + [0.1] * 2000 + [3e-3] * 50)
e = np.abs(x) ** 2 / (np.abs(x) ** 2).mean()
t = np.arange(len(x))
assert abs(loctime(x)[0] - (t * e).mean()) < 1e-9 * len(x)
""", needs="a complex signal (real ones are exact)", breaks="the energy density is rounded to six decimals before the moments are taken"),
 dict(id="divider-large", property="C25",
      edits=[("tftb/utils.py", "    for i in range(s, 0, -1):\n        factor = N // i\n        if N % i == 0:\n            break\n",
              "    for i in range(s, 0, -1 if N % 2 == 0 else -2):\n        factor = N // i\n        if N % i == 0:\n            break\n")],
      demo=H + """
from tftb.utils import divider
for n in range(1, 200):
    a, b = divider(n)
    assert a * b == n, n
""", needs="an odd number whose rounded-up root is even", breaks="factors do not multiply to the number"),
 dict(id="wb-default-band", property="C11",
      edits=[("tftb/processing/ambiguity.py", "        indmax = _find(sp > maxsp / 100.0).max()\n", "        indmax = _find(sp > maxsp / 10.0).max()\n")],
      demo=H + """
from tftb.processing.ambiguity import wide_band
n = np.arange(64)
x = np.cos(2 * np.pi * 0.125 * n) + 0.2 * np.cos(2 * np.pi * 0.375 * n)
waf, tau, th = wide_band(x)
assert np.isclose(th[-1], np.log(0.4 / 0.1)), th[-1]
""", needs="a weak component at the upper end of the band and an omitted band", breaks="components below a tenth of the peak are left out of the default band"),
 dict(id="unterberger-instants", property="C12",
      edits=[("tftb/processing/affine.py", "            xi = (self.ts - ts2 - 1) * self.geo_f[i]\n", "            xi = (np.clip(self.ts, 1, None) - ts2 - 1) * self.geo_f[i]\n")],
      demo=H + """
from tftb.processing import UnterbergerDistribution as U
n = np.arange(24)
x = np.cos(2 * np.pi * 0.25 * n) * np.exp(-((n - 4) / 6.0) ** 2)
t = U(x, fmin=0.15, fmax=0.4, n_voices=8).run()[0]
# the values of adjacent instants of a signal are not the same number
assert not np.allclose(t[:, 0], t[:, 1])
""", needs="instant 0", breaks="the first column repeats the second"),
]
