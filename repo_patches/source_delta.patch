From 4036b03f6e15c1edcb4f38b6e849963abd63053f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:12 +0000
Subject: [PATCH 01/87] fix: frequency axis of an odd number of bins had one
 entry too few

---
 tftb/processing/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index e44c297..009ae43 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -44,7 +44,7 @@ class BaseTFRepresentation(object):
             freqs = np.r_[np.arange(self.n_fbins / 2),
                           np.arange(-self.n_fbins / 2, 0)]
         else:
-            freqs = np.r_[np.arange((self.n_fbins - 1) / 2),
+            freqs = np.r_[np.arange((self.n_fbins + 1) / 2),
                           np.arange(-(self.n_fbins - 1) / 2, 0)]
         self.freqs = freqs / self.n_fbins
         self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
-- 
2.43.0


From 0465299f9a4e74c397580e8566cb98d1490548f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:31 +0000
Subject: [PATCH 02/87] fix: run() on an object that has already run mixed in
 its previous results

---
 tftb/processing/affine.py |  1 +
 tftb/processing/base.py   |  5 ++++-
 tftb/processing/cohen.py  | 11 +++++++++--
 tftb/processing/linear.py |  1 +
 4 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index fd51e1e..2080335 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -178,6 +178,7 @@ class Scalogram(AffineDistribution):
             np.log10(self.fmax / float(self.fmin)), np.log10(1), self.n_voices
         )
         wt = np.zeros((self.n_voices, self.ts.shape[0]), dtype=complex)
+        self.tfr = self._empty_tfr()
         if self.waveparams > 0:
             for ptr in range(self.n_voices):
                 nha = self.waveparams * a[ptr]
diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 009ae43..be47793 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -47,7 +47,10 @@ class BaseTFRepresentation(object):
             freqs = np.r_[np.arange((self.n_fbins + 1) / 2),
                           np.arange(-(self.n_fbins - 1) / 2, 0)]
         self.freqs = freqs / self.n_fbins
-        self.tfr = np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
+        self.tfr = self._empty_tfr()
+
+    def _empty_tfr(self):
+        return np.zeros((self.n_fbins, self.ts.shape[0]), dtype=complex)
 
     def _get_spectrum(self):
         if not self.isaffine:
diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index ae9ea6b..2b26458 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -20,6 +20,7 @@ class Spectrogram(ShortTimeFourierTransform):
     name = "spectrogram"
 
     def run(self):
+        self.tfr = self._empty_tfr()
         lh = (self.fwindow.shape[0] - 1) // 2
         rangemin = min([round(self.n_fbins / 2.0) - 1, lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts - 1],
@@ -49,6 +50,7 @@ class PageRepresentation(BaseTFRepresentation):
     name = "page representation"
 
     def run(self):
+        self.tfr = self._empty_tfr()
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min([self.n_fbins - ti,
@@ -81,6 +83,7 @@ class PseudoPageRepresentation(PageRepresentation):
         return fwindow / fwindow[lh]
 
     def run(self):
+        self.tfr = self._empty_tfr()
         lh = (self.fwindow.shape[0] - 1) / 2
         for icol in range(self.ts.shape[0]):
             tau = np.arange(min([self.n_fbins - 1, lh, icol - 1]) + 1)
@@ -96,6 +99,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
     name = "margenau-hill"
 
     def run(self):
+        self.tfr = self._empty_tfr()
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min((self.n_fbins - ti,
@@ -131,6 +135,7 @@ class PseudoMargenauHillDistribution(MargenauHillDistribution):
         return fwindow / fwindow[lh]
 
     def run(self):
+        self.tfr = self._empty_tfr()
         lh = (self.fwindow.shape[0] - 1) // 2
         xrow = self.signal.shape[0]
         for icol in range(self.ts.shape[0]):
@@ -149,6 +154,7 @@ class WignerVilleDistribution(BaseTFRepresentation):
     name = "wigner-ville"
 
     def run(self):
+        self.tfr = self._empty_tfr()
         tausec = round(self.n_fbins / 2.0)
         winlength = tausec - 1
         taulens = np.min(np.c_[np.arange(self.signal.shape[0]),
@@ -192,6 +198,7 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
     name = "pseudo winger-ville"
 
     def run(self):
+        self.tfr = self._empty_tfr()
         lh = (self.fwindow.shape[0] - 1) // 2
         for icol in range(self.ts.shape[0]):
             taumaxvals = (icol, self.signal.shape[0] - icol - 1,
@@ -209,8 +216,8 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
                     np.conj(self.signal[icol + tau, 0])
                 self.tfr[int(tau), icol] *= 0.5
 
-        self.tfr = np.fft.fft(self.tfr, axis=0)
-        return np.real(self.tfr), self.ts, self.freqs
+        self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
+        return self.tfr, self.ts, self.freqs
 
     def plot(self, **kwargs):
         if "kind" not in kwargs:
diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 8615525..6f1c3c2 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -55,6 +55,7 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         .. math:: X[m, w] = \sum_{n=-\infty}^{\infty}x[n]w[n - m]e^{-j\omega n}
 
         Where :math:`w` is a Hamming window."""
+        self.tfr = self._empty_tfr()
         lh = (self.fwindow.shape[0] - 1) // 2
         rangemin = min([round(self.n_fbins / 2.0), lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape),
-- 
2.43.0


From 57e3ede15fbf2dba3378c545aecc7b57cff0667d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:50 +0000
Subject: [PATCH 03/87] fix: plot() overwrote the computed representation and
 its frequency axis

---
 tftb/processing/affine.py |  3 ++-
 tftb/processing/base.py   | 15 +++++++++++++++
 tftb/processing/cohen.py  |  5 ++++-
 tftb/processing/linear.py |  3 ++-
 4 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 2080335..ade3e5c 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -16,7 +16,7 @@ from scipy.optimize import brenth, newton
 from scipy.interpolate import splrep, splev
 from tftb.generators import mexhat, scale
 from tftb.processing.utils import integrate_2d
-from tftb.processing.base import BaseTFRepresentation
+from tftb.processing.base import BaseTFRepresentation, draws_copy
 from tftb.utils import nextpow2
 
 
@@ -106,6 +106,7 @@ class AffineDistribution(BaseTFRepresentation):
         beta = (p / float(self.n_voices) - 1) / (2 * np.log(self.q))
         return beta, mellin1, mellin2
 
+    @draws_copy
     def plot(self, kind="contour", show_tf=True, threshold=0.05, **kwargs):
         _thresh = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _thresh] = 0
diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index be47793..f32d34e 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -10,11 +10,26 @@
 Base time-frequency representation class.
 """
 
+from functools import wraps
+
 import numpy as np
 from scipy.signal.windows import hamming
 import matplotlib.pyplot as plt
 
 
+def draws_copy(plot):
+    """Let a plot method rework the data it draws, leaving the results alone."""
+    @wraps(plot)
+    def wrapper(self, *args, **kwargs):
+        results = self.tfr, self.freqs
+        self.tfr = self.tfr.copy()
+        try:
+            return plot(self, *args, **kwargs)
+        finally:
+            self.tfr, self.freqs = results
+    return wrapper
+
+
 class BaseTFRepresentation(object):
 
     isaffine = False
diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 2b26458..9f23213 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -12,7 +12,7 @@ Bilinear Time-Frequency Processing in the Cohen’s Class.
 
 import numpy as np
 from tftb.processing.linear import ShortTimeFourierTransform
-from tftb.processing.base import BaseTFRepresentation
+from tftb.processing.base import BaseTFRepresentation, draws_copy
 
 
 class Spectrogram(ShortTimeFourierTransform):
@@ -61,6 +61,7 @@ class PageRepresentation(BaseTFRepresentation):
         self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
 
+    @draws_copy
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
         self.tfr = self.tfr[:(self.tfr.shape[0] / 2), :]
         self.tfr = np.abs(self.tfr) ** 2
@@ -111,6 +112,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
         self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
 
+    @draws_copy
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
         self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
         if sqmod:
@@ -176,6 +178,7 @@ class WignerVilleDistribution(BaseTFRepresentation):
         self.freqs = 0.5 * np.arange(self.n_fbins, dtype=float) / self.n_fbins
         return self.tfr, self.ts, self.freqs
 
+    @draws_copy
     def plot(self, kind='cmap', threshold=0.05, sqmod=False, **kwargs):
         scale = kwargs.pop("scale", "linear")
         if scale == "log":
diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 6f1c3c2..41cfc49 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -11,7 +11,7 @@ Linear Time Frequency Processing.
 """
 
 import numpy as np
-from tftb.processing.base import BaseTFRepresentation
+from tftb.processing.base import BaseTFRepresentation, draws_copy
 from tftb.utils import nearest_odd, divider, modulo, izak
 
 
@@ -75,6 +75,7 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         self.tfr = np.fft.fft(self.tfr, axis=0)
         return self.tfr, self.ts, self.freqs
 
+    @draws_copy
     def plot(self, ax=None, kind='cmap', sqmod=True, threshold=0.05, **kwargs):
         """Display the spectrogram of an STFT.
 
-- 
2.43.0


From 47785b751f11e91574ce54db11ab234e3b05d304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:52 +0000
Subject: [PATCH 04/87] fix: plot() ignored the axes it was given

---
 tftb/processing/base.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index f32d34e..6b6c77f 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -209,16 +209,15 @@ class BaseTFRepresentation(object):
                 self._annotate_signal(axTime)
                 self._annotate_spectrum(axSpec)
         else:
-            fig = plt.figure()
+            fig = plt.figure() if ax is None else ax.figure
             if kind == "cmap":
-                ax = fig.add_subplot(111)
+                ax = ax or fig.add_subplot(111)
                 ax.imshow(self.tfr,
                           aspect='auto', cmap=cmap, origin='lower', extent=extent,
                           **kwargs)
             elif kind == "surf":
                 from mpl_toolkits.mplot3d import Axes3D
-                fig = plt.figure()
-                ax = fig.add_subplot(projection="3d")
+                ax = ax or fig.add_subplot(projection="3d")
                 x = np.arange(self.signal.shape[0])
                 y = np.linspace(0, 0.5, self.signal.shape[0])
                 X, Y = np.meshgrid(x, y)
@@ -227,7 +226,7 @@ class BaseTFRepresentation(object):
                     ax.set_zlabel("Amplitude")
             elif kind == "wireframe":
                 from mpl_toolkits.mplot3d import Axes3D  # NOQA
-                ax = fig.add_subplot(projection="3d")
+                ax = ax or fig.add_subplot(projection="3d")
                 x = np.arange(self.signal.shape[0])
                 y = np.linspace(0, 0.5, self.signal.shape[0])
                 X, Y = np.meshgrid(x, y)
@@ -235,7 +234,7 @@ class BaseTFRepresentation(object):
                                   rstride=3, cstride=3)
             else:
                 t, f = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
-                ax = fig.add_subplot(111)
+                ax = ax or fig.add_subplot(111)
                 ax.contour(t, f, self.tfr, **kwargs)
             if default_annotation:
                 grid = kwargs.get('grid', True)
-- 
2.43.0


From b257f15d053601143af5fa23f35b0c44a3dd583f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:21 +0000
Subject: [PATCH 05/87] fix: column t of the STFT was centred on sample t - 1

---
 tftb/processing/linear.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 41cfc49..673bedf 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -59,10 +59,10 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         lh = (self.fwindow.shape[0] - 1) // 2
         rangemin = min([round(self.n_fbins / 2.0), lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape),
-                               np.arange(self.ts.shape[0]) - 1],
+                               np.arange(self.ts.shape[0])],
                          axis=1).astype(int)
         ends = np.min(np.c_[rangemin * np.ones(self.ts.shape),
-                            self.signal.shape[0] - np.arange(self.ts.shape[0])],
+                            self.signal.shape[0] - 1 - np.arange(self.ts.shape[0])],
                       axis=1).astype(int)
         conj_fwindow = np.conj(self.fwindow)
         for icol in range(self.tfr.shape[1]):
@@ -70,7 +70,7 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
             end = ends[icol]
             tau = np.arange(start, end + 1).astype(int)
             index = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[index, icol] = self.signal[(icol + tau - 1).astype(int)] * \
+            self.tfr[index, icol] = self.signal[(icol + tau).astype(int)] * \
                 conj_fwindow[(lh + tau).astype(int)]
         self.tfr = np.fft.fft(self.tfr, axis=0)
         return self.tfr, self.ts, self.freqs
-- 
2.43.0


From c6705ee6987bdadf8bd3203c05260a5541565591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:23 +0000
Subject: [PATCH 06/87] fix: STFT stored lags +n/2 and -n/2 in the same bin
 when the window exceeds the bins

---
 tftb/processing/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 673bedf..15aea99 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -57,7 +57,7 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         Where :math:`w` is a Hamming window."""
         self.tfr = self._empty_tfr()
         lh = (self.fwindow.shape[0] - 1) // 2
-        rangemin = min([round(self.n_fbins / 2.0), lh])
+        rangemin = min([(self.n_fbins - 1) // 2, lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape),
                                np.arange(self.ts.shape[0])],
                          axis=1).astype(int)
-- 
2.43.0


From 6e97cb897916dc7b2eea188f5b3a418fa8256840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:25 +0000
Subject: [PATCH 07/87] fix: column t of the spectrogram was centred on sample
 t - 1

---
 tftb/processing/cohen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 9f23213..eb9e934 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -23,10 +23,10 @@ class Spectrogram(ShortTimeFourierTransform):
         self.tfr = self._empty_tfr()
         lh = (self.fwindow.shape[0] - 1) // 2
         rangemin = min([round(self.n_fbins / 2.0) - 1, lh])
-        starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts - 1],
+        starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts],
                          axis=1).astype(int)
         ends = np.min(np.c_[rangemin * np.ones(self.ts.shape),
-                      self.signal.shape[0] - self.ts], axis=1).astype(int)
+                      self.signal.shape[0] - 1 - self.ts], axis=1).astype(int)
         conj_fwindow = np.conj(self.fwindow)
         for icol in range(self.tfr.shape[1]):
             ti = self.ts[icol]
@@ -34,7 +34,7 @@ class Spectrogram(ShortTimeFourierTransform):
             end = ends[icol]
             tau = np.arange(start, end + 1).astype(int)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[indices.astype(int), icol] = self.signal[ti + tau - 1] * \
+            self.tfr[indices.astype(int), icol] = self.signal[ti + tau] * \
                 conj_fwindow[lh + tau] / np.linalg.norm(self.fwindow[lh + tau])
         self.tfr = np.abs(np.fft.fft(self.tfr, axis=0)) ** 2
         return self.tfr, self.ts, self.freqs
-- 
2.43.0


From e8c81c923f5b9fb87826980db01676002df7056c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:28 +0000
Subject: [PATCH 08/87] fix: spectrogram dropped window samples for some odd
 numbers of bins

---
 tftb/processing/cohen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index eb9e934..e1191e8 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -22,7 +22,7 @@ class Spectrogram(ShortTimeFourierTransform):
     def run(self):
         self.tfr = self._empty_tfr()
         lh = (self.fwindow.shape[0] - 1) // 2
-        rangemin = min([round(self.n_fbins / 2.0) - 1, lh])
+        rangemin = min([(self.n_fbins - 1) // 2, lh])
         starts = -np.min(np.c_[rangemin * np.ones(self.ts.shape), self.ts],
                          axis=1).astype(int)
         ends = np.min(np.c_[rangemin * np.ones(self.ts.shape),
-- 
2.43.0


From cebe9a9e234b23f0a0d2ecb19d35b6c7dc53a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:31 +0000
Subject: [PATCH 09/87] fix: Margenau-Hill distribution ignored the first
 sample of the signal

---
 tftb/processing/cohen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index e1191e8..823aefd 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -104,7 +104,7 @@ class MargenauHillDistribution(BaseTFRepresentation):
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
             tau = np.arange(-min((self.n_fbins - ti,
-                                  self.signal.shape[0] - ti)) + 1, ti)
+                                  self.signal.shape[0] - ti)) + 1, ti + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = self.signal[ti] * \
                 np.conj(self.signal[ti - tau])
-- 
2.43.0


From 45be4f09ea02d23ee1595e69218d0d367bb5eeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:33 +0000
Subject: [PATCH 10/87] fix: Wigner-Ville distribution crashed with fewer bins
 than samples

---
 tftb/processing/cohen.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 823aefd..f9121ab 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -157,8 +157,8 @@ class WignerVilleDistribution(BaseTFRepresentation):
 
     def run(self):
         self.tfr = self._empty_tfr()
-        tausec = round(self.n_fbins / 2.0)
-        winlength = tausec - 1
+        tausec = self.n_fbins // 2
+        winlength = (self.n_fbins - 1) // 2
         taulens = np.min(np.c_[np.arange(self.signal.shape[0]),
                                self.signal.shape[0] - np.arange(self.signal.shape[0]) - 1,
                          winlength * np.ones(self.ts.shape)], axis=1)
@@ -169,10 +169,10 @@ class WignerVilleDistribution(BaseTFRepresentation):
             indices = np.remainder(self.n_fbins + tau, self.n_fbins).astype(int)
             self.tfr[indices, icol] = self.signal[icol + tau] * \
                 conj_signal[icol - tau]
-            if (icol <= self.signal.shape[0] - tausec) and (icol >= tausec + 1):
-                self.tfr[tausec, icol] = self.signal[icol + tausec, 0] * \
-                    np.conj(self.signal[icol - tausec, 0]) + \
-                    self.signal[icol - tausec, 0] * conj_signal[icol + tausec, 0]
+            if (self.n_fbins % 2 == 0) and (tausec <= icol < self.signal.shape[0] - tausec):
+                self.tfr[tausec, icol] = 0.5 * (
+                    self.signal[icol + tausec] * conj_signal[icol - tausec] +
+                    self.signal[icol - tausec] * conj_signal[icol + tausec])
         self.tfr = np.fft.fft(self.tfr, axis=0)
         self.tfr = np.real(self.tfr)
         self.freqs = 0.5 * np.arange(self.n_fbins, dtype=float) / self.n_fbins
-- 
2.43.0


From efd5965fd846690d035cf33d6819d10449184a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:35 +0000
Subject: [PATCH 11/87] fix: pseudo Wigner-Ville crashed when the window is
 longer than the number of bins

---
 tftb/processing/cohen.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index f9121ab..6be8a83 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -205,19 +205,19 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
         lh = (self.fwindow.shape[0] - 1) // 2
         for icol in range(self.ts.shape[0]):
             taumaxvals = (icol, self.signal.shape[0] - icol - 1,
-                          np.round(self.n_fbins / 2.0), lh)
+                          (self.n_fbins - 1) // 2, lh)
             taumax = np.min(taumaxvals)
             tau = np.arange(-taumax, taumax + 1).astype(int)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins).astype(int)
             self.tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[icol + tau] * \
                 np.conj(self.signal[icol - tau])
-            tau = np.round(self.n_fbins / 2.0)
-            if (icol <= self.signal.shape[0] - tau) and (icol >= tau + 1) and (tau <= lh):
-                self.tfr[int(tau), icol] = self.fwindow[lh + tau] * \
-                    self.signal[icol + tau, 0] * np.conj(self.signal[icol - tau, 0]) + \
-                    self.fwindow[lh - tau] * self.signal[icol - tau, 0] * \
-                    np.conj(self.signal[icol + tau, 0])
-                self.tfr[int(tau), icol] *= 0.5
+            tau = self.n_fbins // 2
+            if (self.n_fbins % 2 == 0) and (tau <= icol < self.signal.shape[0] - tau) and (tau <= lh):
+                self.tfr[tau, icol] = self.fwindow[lh + tau] * \
+                    self.signal[icol + tau] * np.conj(self.signal[icol - tau]) + \
+                    self.fwindow[lh - tau] * self.signal[icol - tau] * \
+                    np.conj(self.signal[icol + tau])
+                self.tfr[tau, icol] *= 0.5
 
         self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
-- 
2.43.0


From 2de15c389adefe43b7c6f10bd7efb9f111a46e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:37 +0000
Subject: [PATCH 12/87] fix: pseudo Wigner-Ville returned the frequency axis of
 the STFT

---
 tftb/processing/cohen.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 6be8a83..6d240a6 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -220,6 +220,7 @@ class PseudoWignerVilleDistribution(WignerVilleDistribution):
                 self.tfr[tau, icol] *= 0.5
 
         self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
+        self.freqs = 0.5 * np.arange(self.n_fbins, dtype=float) / self.n_fbins
         return self.tfr, self.ts, self.freqs
 
     def plot(self, **kwargs):
-- 
2.43.0


From 91914321f4b2b8021d611d09aee5cca3eec14390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:58 +0000
Subject: [PATCH 13/87] fix: column t of the smoothed pseudo Wigner-Ville was
 centred on sample t - 1

---
 tftb/processing/cohen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 6d240a6..c3c1b6b 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -270,9 +270,9 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, freq_bins=None,
     lg = (twindow.shape[0] - 1) // 2
     lh = (fwindow.shape[0] - 1) // 2
     for icol in range(timestamps.shape[0]):
-        ti = timestamps[icol]
+        ti = timestamps[icol] + 1
         taumax = min([ti + lg - 1, signal.shape[0] - ti + lg,
-                      round(freq_bins / 2.0) - 1, lh])
+                      (freq_bins - 1) // 2, lh])
         points = np.arange(-min([lg, signal.shape[0] - ti]),
                            min([lg, ti - 1]) + 1).astype(int)
         lg_points = (lg + points).astype(int)
-- 
2.43.0


From 0b57811f5c3c3b17be2ccd0f7a8e9ad8a236e63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:00 +0000
Subject: [PATCH 14/87] fix: smoothed pseudo Wigner-Ville stored lag products
 one bin away from their lag

---
 tftb/processing/cohen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index c3c1b6b..7f719c4 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -280,7 +280,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, freq_bins=None,
         g2 = g2 / np.sum(g2)
         signal_idx = (ti - points - 1).astype(int)
         tfr[0, icol] = np.sum(g2 * signal[signal_idx] * np.conj(signal[signal_idx]))
-        for tau in range(int(taumax)):
+        for tau in range(1, int(taumax) + 1):
             points = np.arange(-min([lg, signal.shape[0] - ti - tau]),
                                min([lg, ti - 1 - tau]) + 1)
             lg_points = (lg + points).astype(int)
@@ -289,9 +289,9 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, freq_bins=None,
             idx1 = (ti + tau - points - 1).astype(int)
             idx2 = (ti - tau - points - 1).astype(int)
             R = np.sum(g2 * signal[idx1] * np.conj(signal[idx2]))
-            tfr[1 + tau, icol] = fwindow[lh + tau + 1] * R
+            tfr[tau, icol] = fwindow[lh + tau] * R
             R = np.sum(g2 * signal[idx2] * np.conj(signal[idx1]))
-            tfr[freq_bins - tau - 1, icol] = fwindow[lh - tau + 1] * R
+            tfr[freq_bins - tau, icol] = fwindow[lh - tau] * R
         tau = np.round(freq_bins / 2.0)
         if (ti <= signal.shape[0] - tau) and (ti >= tau + 1) and (tau <= lh):
             points = np.arange(-min([lg, signal.shape[0] - ti - tau]),
-- 
2.43.0


From 8538700dbcfad33076fbcd7754301276f7b89719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:02 +0000
Subject: [PATCH 15/87] fix: smoothed pseudo Wigner-Ville crashed when its lag
 window is longer than the bins

---
 tftb/processing/cohen.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 7f719c4..bc55fc5 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -292,19 +292,19 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, freq_bins=None,
             tfr[tau, icol] = fwindow[lh + tau] * R
             R = np.sum(g2 * signal[idx2] * np.conj(signal[idx1]))
             tfr[freq_bins - tau, icol] = fwindow[lh - tau] * R
-        tau = np.round(freq_bins / 2.0)
-        if (ti <= signal.shape[0] - tau) and (ti >= tau + 1) and (tau <= lh):
+        tau = freq_bins // 2
+        if (freq_bins % 2 == 0) and (ti <= signal.shape[0] - tau) and (ti >= tau + 1) and (tau <= lh):
             points = np.arange(-min([lg, signal.shape[0] - ti - tau]),
                                min([lg, ti - 1 - tau]) + 1)
-            lg_points = (lg + 1 + points).astype(int)
+            lg_points = (lg + points).astype(int)
             g2 = twindow[lg_points]
             g2 = g2 / np.sum(g2)
-            idx1 = (ti + tau - points).astype(int)
-            idx2 = (ti - tau - points).astype(int)
+            idx1 = (ti + tau - points - 1).astype(int)
+            idx2 = (ti - tau - points - 1).astype(int)
             _x = np.sum(g2 * signal[idx1] * np.conj(signal[idx2]))
-            _x *= fwindow[(lh + tau + 1).astype(int)]
+            _x *= fwindow[lh + tau]
             _y = np.sum(g2 * signal[idx2] * np.conj(signal[idx1]))
-            _y *= fwindow[(lh - tau + 1).astype(int)]
+            _y *= fwindow[lh - tau]
             tfr[tau, icol] = (_x + _y) * 0.5
     tfr = np.fft.fft(tfr, axis=0)
     return np.real(tfr)
-- 
2.43.0


From 871c2b70282344cdd9801868445ef5d6df4e2d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:20 +0000
Subject: [PATCH 16/87] fix: reassigned representations crashed with their
 default windows

---
 tftb/processing/reassigned.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 252f8ce..6a8f04e 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -9,7 +9,7 @@
 """Reassigned TF processing."""
 
 import numpy as np
-import scipy.signal as ssig
+from scipy.signal import windows as ssig
 from tftb.processing.utils import derive_window
 
 
@@ -119,7 +119,7 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
         hlength = np.floor(n_fbins / 4.0)
         if hlength % 2 == 0:
             hlength += 1
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
     lh = (fwindow.shape[0] - 1) / 2
@@ -194,7 +194,7 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
         hlength = np.floor(n_fbins / 4.0)
         if hlength % 2 == 0:
             hlength += 1
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
     lh = (fwindow.shape[0] - 1) / 2
@@ -385,7 +385,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     if fwindow is None:
         hlength = np.floor(n_fbins / 4.0)
         hlength += 1 - (hlength % 2)
-        fwindow = ssig.hamming(hlength)
+        fwindow = ssig.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
     lh = (fwindow.shape[0] - 1) / 2
@@ -393,7 +393,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     if twindow is None:
         glength = np.floor(n_fbins / 4.0)
         glength += 1 - (glength % 2)
-        twindow = ssig.hamming(glength)
+        twindow = ssig.hamming(int(glength))
     elif twindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
     lg = (twindow.shape[0] - 1) / 2
-- 
2.43.0


From 2c07a7017fd1d2db09bdb2800f655a410a4193d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:22 +0000
Subject: [PATCH 17/87] fix: reassigned spectrogram was centred one sample
 early and wrapped around the ends

---
 tftb/processing/reassigned.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 6a8f04e..7d25394 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -506,14 +506,14 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
 
     for icol in range(time_samples.shape[0]):
         ti = time_samples[icol]
-        tau = np.arange(-np.min([np.round(n_fbins / 2) - 1, lh, ti]),
-                        np.min([np.round(n_fbins / 2) - 1, lh,
-                                signal.shape[0] - ti]) + 1).astype(int)
+        tau = np.arange(-np.min([(n_fbins - 1) // 2, lh, ti]),
+                        np.min([(n_fbins - 1) // 2, lh,
+                                signal.shape[0] - 1 - ti]) + 1).astype(int)
         indices = np.remainder(n_fbins + tau, n_fbins)
         norm_h = np.linalg.norm(window[lh + tau], ord=2)
-        tfr[indices, icol] = signal[ti + tau - 1] * np.conj(window[lh + tau]) / norm_h
-        tf2[indices, icol] = signal[ti + tau - 1] * np.conj(th[lh + tau]) / norm_h
-        tf3[indices, icol] = signal[ti + tau - 1] * np.conj(dwin[lh + tau]) / norm_h
+        tfr[indices, icol] = signal[ti + tau] * np.conj(window[lh + tau]) / norm_h
+        tf2[indices, icol] = signal[ti + tau] * np.conj(th[lh + tau]) / norm_h
+        tf3[indices, icol] = signal[ti + tau] * np.conj(dwin[lh + tau]) / norm_h
 
     tfr = np.fft.fft(tfr, axis=0).ravel()
     tf2 = np.fft.fft(tf2, axis=0).ravel()
@@ -531,7 +531,7 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
     tf3 = np.real(tf3)
 
     rtfr = np.zeros((n_fbins, time_samples.shape[0]), dtype=complex)
-    ix = np.arange(time_samples.min(), time_samples.max() + 1) - 1
+    ix = np.arange(time_samples.min(), time_samples.max() + 1)
     threshold = 1e-6 * np.mean(np.abs(signal[ix])**2)
     for icol in range(time_samples.shape[0]):
         for jcol in range(n_fbins):
-- 
2.43.0


From 023ca7f8f111a3f20eeee0925f78edbdbea030d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:25 +0000
Subject: [PATCH 18/87] fix: reassigned spectrogram moved energy one bin and
 one column too low

---
 tftb/processing/reassigned.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 7d25394..e393e9c 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -537,10 +537,10 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
                 icolhat = icol + tf2[jcol, icol]
-                icolhat = np.min([np.max([icolhat, 1]), time_samples.shape[0]])
+                icolhat = np.min([np.max([np.real(icolhat), 0]), time_samples.shape[0] - 1])
                 jcolhat = jcol - tf3[jcol, icol]
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                rtfr[int(jcolhat), int(icolhat) - 1] += tfr[jcol, icol]
+                jcolhat = jcolhat % n_fbins
+                rtfr[int(jcolhat), int(icolhat)] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat + 1j * icolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From e0098a645d5a606bf92f7d4fc48731e18d98a3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:28 +0000
Subject: [PATCH 19/87] fix: reassigned spectrogram counted time displacements
 in samples, not columns

---
 tftb/processing/reassigned.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index e393e9c..b9ae11d 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -488,6 +488,7 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
         time_samples = np.arange(signal.shape[0])
     elif np.unique(np.diff(time_samples)).shape[0] > 1:
         raise ValueError('Time instants must be regularly sampled.')
+    dt = time_samples[1] - time_samples[0] if time_samples.shape[0] > 1 else 1
     if n_fbins is None:
         n_fbins = signal.shape[0]
     if window is None:
@@ -520,7 +521,7 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
     tf3 = np.fft.fft(tf3, axis=0).ravel()
 
     no_warn_mask = tfr != 0
-    tf2[no_warn_mask] = np.round(np.real(tf2[no_warn_mask] / tfr[no_warn_mask]))
+    tf2[no_warn_mask] = np.round(np.real(tf2[no_warn_mask] / tfr[no_warn_mask] / dt))
     tf3[no_warn_mask] = np.round(
         np.imag(n_fbins * tf3[no_warn_mask] / tfr[no_warn_mask] / (2 * np.pi)))
 
-- 
2.43.0


From 441f8f4b93b4e0b1be105c1a907317a0c459d1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:31 +0000
Subject: [PATCH 20/87] fix: reassigned pseudo Wigner-Ville was off by one
 sample and one bin

---
 tftb/processing/reassigned.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index b9ae11d..54a346a 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -48,22 +48,22 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
     tf2 = np.zeros((n_fbins, tcol), dtype=complex)
     dh = derive_window(fwindow)
     for icol in range(tcol):
-        ti = timestamps[icol]
-        taumax = min([ti - 1, xrow - ti, np.round(n_fbins / 2.0) - 1, lh])
+        ti = timestamps[icol] + 1
+        taumax = min([ti - 1, xrow - ti, (n_fbins - 1) // 2, lh])
         tau = np.arange(-taumax, taumax + 1)
         indices = np.remainder(n_fbins + tau, n_fbins) + 1
         tfr[indices - 1, icol] = fwindow[lh + tau] * signal[ti + tau - 1] * \
             np.conj(signal[ti - tau - 1])
         tf2[indices - 1, icol] = dh[lh + tau] * signal[ti + tau - 1] * \
             np.conj(signal[ti - tau - 1])
-        tau = np.round(n_fbins / 2)
-        if (ti <= (xrow - tau)) and (ti > (tau + 1)) and (tau <= lh):
-            _x = fwindow[lh + 1 + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
-            _y = fwindow[lh + 1 - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
-            tfr[tau + 1, icol] = (_x + _y) * 0.5
-            _x = dh[lh + 1 + tau] * signal[ti + tau] * np.conj(signal[ti - tau])
-            _y = dh[lh + 1 - tau] * signal[ti - tau] * np.conj(signal[ti + tau])
-            tf2[tau + 1, icol] = (_x + _y) * 0.5
+        tau = n_fbins // 2
+        if (n_fbins % 2 == 0) and (ti <= (xrow - tau)) and (ti >= (tau + 1)) and (tau <= lh):
+            _x = fwindow[lh + tau] * signal[ti + tau - 1] * np.conj(signal[ti - tau - 1])
+            _y = fwindow[lh - tau] * signal[ti - tau - 1] * np.conj(signal[ti + tau - 1])
+            tfr[tau, icol] = (_x + _y) * 0.5
+            _x = dh[lh + tau] * signal[ti + tau - 1] * np.conj(signal[ti - tau - 1])
+            _y = dh[lh - tau] * signal[ti - tau - 1] * np.conj(signal[ti + tau - 1])
+            tf2[tau, icol] = (_x + _y) * 0.5
     tfr = np.real(np.fft.fft(tfr, axis=0))
     tf2 = np.imag(np.fft.fft(tf2, axis=0))
     tfr = tfr.ravel()
@@ -83,9 +83,8 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
                 jcolhat = jcol - int(tf2[jcol, icol])
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                jcolhat += 1
-                rtfr[jcolhat - 1, icol] += tfr[jcol, icol]
+                jcolhat = jcolhat % n_fbins
+                rtfr[jcolhat, icol] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From 77d5ae929bf7959cc22799c69deb51abcd9dfcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:33 +0000
Subject: [PATCH 21/87] fix: reassigned pseudo Margenau-Hill and pseudo Page
 representations crashed on every input

---
 tftb/processing/reassigned.py | 39 +++++++++++++++++------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 54a346a..afc6c72 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -121,7 +121,7 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
         fwindow = ssig.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
-    lh = (fwindow.shape[0] - 1) / 2
+    lh = (fwindow.shape[0] - 1) // 2
     fwindow = fwindow / fwindow[lh]
 
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
@@ -129,9 +129,9 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
     dh = derive_window(fwindow)
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
     for icol in range(tcol):
-        ti = timestamps[icol]
-        start = min([np.round(n_fbins / 2.0) - 1, lh, xrow - ti])
-        end = min([np.round(n_fbins / 2.0) - 1, lh, ti - 1])
+        ti = timestamps[icol] + 1
+        start = min([(n_fbins - 1) // 2, lh, xrow - ti])
+        end = min([(n_fbins - 1) // 2, lh, ti - 1])
         tau = np.arange(-start, end + 1)
         indices = np.remainder(n_fbins + tau, n_fbins)
         tfr[indices, icol] = fwindow[lh + tau] * signal[ti - 1] * \
@@ -157,10 +157,9 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
-                jcolhat = jcol - tf2[jcol, icol]
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                jcolhat += 1
-                rtfr[jcolhat - 1, icol] += tfr[jcol, icol]
+                jcolhat = jcol - int(tf2[jcol, icol])
+                jcolhat = jcolhat % n_fbins
+                rtfr[jcolhat, icol] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat
             else:
                 tf2[jcol, icol] = np.inf
@@ -196,7 +195,7 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
         fwindow = ssig.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing fwindow must have an odd length.')
-    lh = (fwindow.shape[0] - 1) / 2
+    lh = (fwindow.shape[0] - 1) // 2
     fwindow = fwindow / fwindow[lh]
 
     tfr = np.zeros((n_fbins, tcol), dtype=complex)
@@ -204,13 +203,14 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
     dh = derive_window(fwindow)
 
     for icol in range(tcol):
-        tau = np.arange(min([n_fbins - 1, lh, icol - 1]) + 1)
-        indices = np.remainder(n_fbins + tau, n_fbins) + 1
-        tfr[indices, icol] = fwindow[lh + tau] * signal[icol] * \
-            np.conj(signal[icol - tau])
-        tf2[indices, icol] = dh[lh + tau] * signal[icol] * \
-            np.conj(signal[icol - tau])
-        tf2[0, icol] += signal[icol] * np.conj(signal[icol])
+        ti = timestamps[icol]
+        tau = np.arange(min([n_fbins - 1, lh, ti]) + 1)
+        indices = np.remainder(n_fbins + tau, n_fbins)
+        tfr[indices, icol] = fwindow[lh + tau] * signal[ti] * \
+            np.conj(signal[ti - tau])
+        tf2[indices, icol] = dh[lh + tau] * signal[ti] * \
+            np.conj(signal[ti - tau])
+        tf2[0, icol] += signal[ti] * np.conj(signal[ti])
 
     tfr = np.fft.fft(tfr, axis=0)
     tf2 = np.fft.fft(tf2, axis=0)
@@ -230,10 +230,9 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
-                jcolhat = jcol - tf2[jcol, icol]
-                jcolhat = (((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins
-                jcolhat += 1
-                rtfr[jcolhat - 1, icol] += tfr[jcol, icol]
+                jcolhat = jcol - int(tf2[jcol, icol])
+                jcolhat = jcolhat % n_fbins
+                rtfr[jcolhat, icol] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat
             else:
                 tf2[jcol, icol] = np.inf
-- 
2.43.0


From f9ecc0628ef10621b9dd454c4105ab70e4a65ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:36 +0000
Subject: [PATCH 22/87] fix: reassigned smoothed pseudo Wigner-Ville crashed,
 and reassigned nothing

---
 tftb/processing/reassigned.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index afc6c72..4955307 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -386,7 +386,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
         fwindow = ssig.hamming(int(hlength))
     elif fwindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
-    lh = (fwindow.shape[0] - 1) / 2
+    lh = (fwindow.shape[0] - 1) // 2
 
     if twindow is None:
         glength = np.floor(n_fbins / 4.0)
@@ -394,7 +394,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
         twindow = ssig.hamming(int(glength))
     elif twindow.shape[0] % 2 == 0:
         raise ValueError('The smoothing window must have an odd length.')
-    lg = (twindow.shape[0] - 1) / 2
+    lg = (twindow.shape[0] - 1) // 2
 
     tcol = timestamps.shape[0]
     deltat = timestamps[1:] - timestamps[:-1]
@@ -409,8 +409,8 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     dh = derive_window(fwindow)
 
     for icol in range(tcol):
-        ti = timestamps[icol]
-        taumax = min([ti + lg - 1, xrow - ti + lg, np.round(n_fbins / 2.0) - 1,
+        ti = timestamps[icol] + 1
+        taumax = min([ti + lg - 1, xrow - ti + lg, (n_fbins - 1) // 2,
                       lh])
         points = np.arange(-min([lg, xrow - ti]), min([lg, ti - 1]) + 1)
         g2 = twindow[lg + points]
@@ -419,9 +419,9 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
         xx = signal[ti - 1 - points] * np.conj(signal[ti - 1 - points])
         tfr[0, icol] = (g2 * xx).sum()
         tf2[0, icol] = (tg2 * xx).sum()
-        tf3[0, icol] = dh[lh + 1] * tfr[0, icol]
+        tf3[0, icol] = dh[lh] * tfr[0, icol]
 
-        for tau in range(int(taumax)):
+        for tau in range(1, int(taumax) + 1):
             points = np.arange(-min([lg, xrow - ti - tau]),
                                min([lg, ti - tau - 1]) + 1)
             g2 = twindow[lg + points]
@@ -431,9 +431,9 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
             tfr[tau, icol] = (g2 * xx).sum() * fwindow[lh + tau]
             tf2[tau, icol] = fwindow[lh + tau] * (tg2 * xx).sum()
             tf3[tau, icol] = dh[lh + tau] * (g2 * xx).sum()
-            tfr[n_fbins - tau - 1, icol] = (g2 * np.conj(xx)).sum() * fwindow[lh - tau]
-            tf2[n_fbins - tau - 1, icol] = (tg2 * np.conj(xx)).sum() * fwindow[lh - tau]
-            tf3[n_fbins - tau - 1, icol] = dh[lh - tau] * (g2 * np.conj(xx)).sum()
+            tfr[n_fbins - tau, icol] = (g2 * np.conj(xx)).sum() * fwindow[lh - tau]
+            tf2[n_fbins - tau, icol] = (tg2 * np.conj(xx)).sum() * fwindow[lh - tau]
+            tf3[n_fbins - tau, icol] = dh[lh - tau] * (g2 * np.conj(xx)).sum()
 
     tfr = np.real(np.fft.fft(tfr, axis=0)).ravel()
     tf2 = np.real(np.fft.fft(tf2, axis=0)).ravel()
@@ -453,10 +453,10 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     for icol in range(tcol):
         for jcol in range(n_fbins):
             if np.abs(tfr[jcol, icol]) > threshold:
-                icolhat = min(max([icol - tf2[jcol, icol], 1]), tcol)
+                icolhat = int(min([max([icol - np.real(tf2[jcol, icol]), 0]), tcol - 1]))
                 jcolhat = jcol - tf3[jcol, icol]
-                jcolhat = (((int(jcolhat) - 1) % n_fbins) + n_fbins) % n_fbins + 1
-                rtfr[jcol, icol] += tfr[jcol, icol]
+                jcolhat = int(jcolhat) % n_fbins
+                rtfr[jcolhat, icolhat] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat + 1j * icolhat
             else:
                 tf2[jcol, icol] = np.inf * (1 + 1j)
-- 
2.43.0


From f1d89d2f4dac59184a61d359f29a51134d54544f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:17 +0000
Subject: [PATCH 23/87] fix: reassigned Morlet scalogram crashed on every input

---
 tftb/processing/reassigned.py | 51 +++++++++++++++++------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 4955307..9306250 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -276,55 +276,54 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
         np.exp(-1j * 2 * np.pi * tau / n_fbins)
     thstar = tau * hstar
 
-    for m in range(1, n_fbins // 2):
+    for m in range(1, (n_fbins + 1) // 2):
         factor = np.sqrt(m / (tbp * n_fbins))
         for icol in range(tcol):
-            ti = timestamps[icol]
+            ti = timestamps[icol] + 1
             tau_neg = np.arange(1, min([np.ceil(M / m), ti - 1]) + 1).astype(int)
             tau_pos = np.arange(min([np.ceil(M / m), xrow - ti]) + 1).astype(int)
             # positive frequencies
-            tfr[m, icol] = np.dot(hstar[m * tau_pos - 1],
+            tfr[m, icol] = np.dot(hstar[m * tau_pos],
                                   signal[ti + tau_pos - 1])
-            tf2[m, icol] = np.dot(thstar[m * tau_pos - 1],
+            tf2[m, icol] = np.dot(thstar[m * tau_pos],
                                   signal[ti + tau_pos - 1])
             if tau_neg.shape[0] > 0:
                 tfr[m, icol] += np.dot(np.conj(hstar[tau_neg * m]),
-                                       signal[ti - tau_neg])
+                                       signal[ti - tau_neg - 1])
                 tf2[m, icol] -= np.dot(np.conj(thstar[tau_neg * m]),
-                                       signal[ti - tau_neg])
+                                       signal[ti - tau_neg - 1])
             # negative frequencies
-            tfr[n_fbins - m, icol] = np.dot(np.conj(hstar[tau_pos * m - 1]),
+            tfr[n_fbins - m, icol] = np.dot(np.conj(hstar[tau_pos * m]),
                                             signal[ti + tau_pos - 1])
-            tf2[n_fbins - m, icol] = np.dot(np.conj(thstar[tau_pos * m - 1]),
+            tf2[n_fbins - m, icol] = np.dot(np.conj(thstar[tau_pos * m]),
                                             signal[ti + tau_pos - 1])
             if tau_neg.shape[0] > 0:
                 tfr[n_fbins - m, icol] += np.dot(hstar[tau_neg * m],
-                                                 signal[ti - tau_neg])
+                                                 signal[ti - tau_neg - 1])
                 tf2[n_fbins - m, icol] -= np.dot(thstar[tau_neg * m],
-                                                 signal[ti - tau_neg])
+                                                 signal[ti - tau_neg - 1])
         tfr[m, :] *= factor
         tf2[m, :] *= factor / m
         tfr[n_fbins - m, :] *= factor
         tf2[n_fbins - m, :] *= factor / m
 
-    m = int(np.round(n_fbins / 2.0))
+    m = n_fbins // 2
     factor = np.sqrt(m / (tbp * n_fbins))
-    for icol in range(tcol):
-        ti = timestamps[icol]
+    for icol in range(tcol if n_fbins % 2 == 0 else 0):
+        ti = timestamps[icol] + 1
         tau_neg = np.arange(1, min([np.ceil(M / m), ti - 1]) + 1).astype(int)
         tau_pos = np.arange(min([np.ceil(M / m), xrow - ti]) + 1).astype(int)
-        tau_pos -= 1
-        tau_neg -= 1
 
-        tfr[m, icol] = np.dot(hstar[m * tau_pos], signal[ti + tau_pos])
-        tf2[m, icol] = np.dot(thstar[m * tau_pos], signal[ti + tau_pos])
+        tfr[m, icol] = np.dot(hstar[m * tau_pos], signal[ti + tau_pos - 1])
+        tf2[m, icol] = np.dot(thstar[m * tau_pos], signal[ti + tau_pos - 1])
         if tau_neg.shape[0] > 0:
             tfr[m, icol] += np.dot(np.conj(hstar[tau_neg * m]),
-                                   signal[ti - tau_neg])
+                                   signal[ti - tau_neg - 1])
             tf2[m, icol] -= np.dot(np.conj(thstar[tau_neg * m]),
-                                   signal[ti - tau_neg])
-    tfr[m, :] *= factor
-    tf2[m, :] *= factor / m
+                                   signal[ti - tau_neg - 1])
+    if n_fbins % 2 == 0:
+        tfr[m, :] *= factor
+        tf2[m, :] *= factor / m
 
     tfr, tf2 = tfr.ravel(), tf2.ravel()
     no_warn_mask = tfr != 0
@@ -341,13 +340,11 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
         for jcol in range(n_fbins):
             if tfr[jcol, icol] > threshold:
                 icolhat = icol + np.round(np.real(tf2[jcol, icol] / dt))
-                icolhat = min([max([icolhat, 1]), tcol])
-                m = np.remainder(jcol + np.round(n_fbins / 2.0) - 2,
-                                 n_fbins)
-                m -= np.round(n_fbins / 2.0) + 1
+                icolhat = int(min([max([icolhat, 0]), tcol - 1]))
+                m = min([jcol, n_fbins - jcol])
                 jcolhat = jcol + np.round(np.imag((m ** 2) * tf2[jcol, icol] / factor))
-                jcolhat = ((((jcolhat - 1) % n_fbins) + n_fbins) % n_fbins) + 1
-                rtfr[jcolhat - 1, icolhat - 1] += tfr[jcol, icol]
+                jcolhat = int(jcolhat) % n_fbins
+                rtfr[jcolhat, icolhat] += tfr[jcol, icol]
                 tf2[jcol, icol] = jcolhat + 1j * icolhat
             else:
                 tf2[jcol, icol] = np.inf * (1 + 1j)
-- 
2.43.0


From 75670c0201d6d5d901c93113453a20cbe8ddf24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:24 +0000
Subject: [PATCH 24/87] fix: window derivative was wrong for asymmetric windows
 and undefined for one sample

---
 tftb/processing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/utils.py b/tftb/processing/utils.py
index d69690e..ac2a7e5 100644
--- a/tftb/processing/utils.py
+++ b/tftb/processing/utils.py
@@ -67,7 +67,7 @@ def derive_window(window):
     """
     lh = (window.shape[0] - 1) / 2.0
     step_height = (window[0] + window[-1]) / 2.0
-    ramp = (window[0] - window[-1]) / (window.shape[0] - 1)
+    ramp = (window[-1] - window[0]) / max(window.shape[0] - 1, 1)
     base = np.arange(-lh, lh + 1)
     base = window - step_height - ramp * base
     base = np.hstack((np.array([0]), base, np.array([0])))
-- 
2.43.0


From ffe11c7ebe805e45bc98935810972afbeba50cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:20 +0000
Subject: [PATCH 25/87] fix: default band of the wide band ambiguity function
 was read off the signal, not its spectrum

---
 tftb/processing/ambiguity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index ea9f52d..6c53550 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -35,7 +35,7 @@ def wide_band(signal, fmin=None, fmax=None, N=None):
 
     # determine default values for fmin, fmax
     if (fmin is None) or (fmax is None):
-        STF = np.fft.fftshift(s_ana)
+        STF = np.fft.fft(np.fft.fftshift(s_ana))
         sp = np.abs(STF[:m]) ** 2
         maxsp = np.amax(sp)
         f = np.linspace(0, 0.5, m + 1)
-- 
2.43.0


From d9e19d62180d38a9a81d75b59ddb377abc760f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:06 +0000
Subject: [PATCH 26/87] fix: affine distributions of narrow band signals
 crashed for want of a voice count

---
 tftb/processing/affine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index ade3e5c..8b3b1e5 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -273,11 +273,11 @@ class UnterbergerDistribution(AffineDistribution):
         if teq < 2 * self.m:
             m0 = int(np.round((2 * self.m ** 2) / teq - self.m)) + 1
             m1 = self.m + m0
-            self.T = 2 * (self.m + m0) - 1
         else:
             m0 = 0
             m1 = self.m
         self.m1 = int(np.round(m1))
+        self.T = 2 * self.m1 - 1
         if n_voices is None:
             self._get_nvoices()
         else:
@@ -354,10 +354,10 @@ class DFlandrinDistribution(AffineDistribution):
         teq = self.m / (self.fmax * self.umax)
         if teq < 2 * self.m:
             m0 = int(round((2 * self.m ** 2) / teq - self.m)) + 1
-            self.T = 2 * (self.m + m0) - 1
         else:
             m0 = 0
         self.m1 = int(np.round(self.m + m0))
+        self.T = 2 * self.m1 - 1
         if n_voices is None:
             self._get_nvoices()
         else:
@@ -413,11 +413,11 @@ class BertrandDistribution(AffineDistribution):
         if teq < self.signal.shape[0]:
             m0 = int(np.round((2 * self.m ** 2) / teq - self.m)) + 1
             m1 = self.m + m0
-            self.T = 2 * m1 - 1
         else:
             m0 = 0
             m1 = self.m
         self.m1 = m1
+        self.T = 2 * m1 - 1
         if n_voices is None:
             self._get_nvoices()
         else:
-- 
2.43.0


From abfb21c5da59d3eb5f384f44b1d85af04699e82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:09 +0000
Subject: [PATCH 27/87] fix: passive Unterberger distribution read past the end
 of its dilation grid

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 8b3b1e5..8232536 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -298,7 +298,7 @@ class UnterbergerDistribution(AffineDistribution):
             fx2 = np.fft.fft(np.fft.fftshift(mx2))[: self.n_voices]
             waf[n - 1, :] = fx1 * np.conj(fx2)
             if self.form != "A":
-                waf[n - 1, :] *= 1 / np.sqrt(1 + (self.u[n] / 2) ** 2)
+                waf[n - 1, :] *= 1 / np.sqrt(1 + (self.u[n - 1] / 2) ** 2)
         waf = np.vstack((waf[self.m1: (2 * self.m1), :], waf[: self.m1, :]))
         waf *= np.repeat(
             self.geo_f.reshape((1, self.geo_f.shape[0])), 2 * self.m1, axis=0
-- 
2.43.0


From cba93af131c8347a50e4461504f7590ce3f1789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:11 +0000
Subject: [PATCH 28/87] fix: affine distributions at selected instants were
 normalised by the wrong band

---
 tftb/processing/affine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 8232536..7746254 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -75,8 +75,8 @@ class AffineDistribution(BaseTFRepresentation):
     def _normalize(self):
         SP1 = np.fft.fft(hilbert(self.s1), axis=0)
         SP2 = np.fft.fft(hilbert(self.s2), axis=0)
-        indmin = 1 + int(np.round(self.fmin * (self.ts.shape[0] - 2)))
-        indmax = 1 + int(np.round(self.fmax * (self.ts.shape[0] - 2)))
+        indmin = 1 + int(np.round(self.fmin * (self.signal.shape[0] - 2)))
+        indmax = 1 + int(np.round(self.fmax * (self.signal.shape[0] - 2)))
         sp1_ana = SP1[(indmin - 1): indmax]
         sp2_ana = SP2[(indmin - 1): indmax]
         return sp1_ana, sp2_ana
-- 
2.43.0


From 740426b4a51a0afde528dd5cf3e28e35fe8fbd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:14 +0000
Subject: [PATCH 29/87] fix: affine distributions crashed on column vectors

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 7746254..1626318 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -26,7 +26,7 @@ class AffineDistribution(BaseTFRepresentation):
 
     def __init__(self, signal, fmin=None, fmax=None, **kwargs):
         super(AffineDistribution, self).__init__(signal, **kwargs)
-        if signal.ndim == 2:
+        if signal.ndim == 2 and 1 not in signal.shape:
             self.kind = "cross"
             self.x1, self.x2 = self.signal[:, 0].copy(), self.signal[:, 1].copy()
         else:
-- 
2.43.0


From 68a8c13804470af879fba79e7f644cfc87c7b8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:16 +0000
Subject: [PATCH 30/87] fix: scalogram crashed when the number of voices
 differs from the signal length

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 1626318..bf89159 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -179,7 +179,7 @@ class Scalogram(AffineDistribution):
             np.log10(self.fmax / float(self.fmin)), np.log10(1), self.n_voices
         )
         wt = np.zeros((self.n_voices, self.ts.shape[0]), dtype=complex)
-        self.tfr = self._empty_tfr()
+        self.tfr = np.zeros((self.n_voices, self.ts.shape[0]), dtype=complex)
         if self.waveparams > 0:
             for ptr in range(self.n_voices):
                 nha = self.waveparams * a[ptr]
-- 
2.43.0


From 65b88feb0277639912c160427b1a08d3ccc96564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:18 +0000
Subject: [PATCH 31/87] fix: scalogram ignored the requested time instants

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index bf89159..77c5acb 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -162,7 +162,7 @@ class Scalogram(AffineDistribution):
     def __init__(
         self, signal, fmin=None, fmax=None, n_voices=None, waveparams=None, **kwargs
     ):
-        super(Scalogram, self).__init__(signal, fmin=fmin, fmax=fmax)
+        super(Scalogram, self).__init__(signal, fmin=fmin, fmax=fmax, **kwargs)
         if waveparams is None:
             waveparams = np.sqrt(signal.shape[0])
         if n_voices is None:
-- 
2.43.0


From 7f0441070c6c563fe73d616bb2d7a44516ada4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:20 +0000
Subject: [PATCH 32/87] fix: wavelet transform returned with the Morlet
 scalogram was delayed by half a wavelet

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 77c5acb..0192482 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -193,8 +193,8 @@ class Scalogram(AffineDistribution):
                     detail.shape[0] - int(np.round(nha)) + 1,
                     dtype=int,
                 )
-                wt[ptr, :] = detail[self.ts]
                 detail = detail[ix]
+                wt[ptr, :] = detail[self.ts]
                 self.tfr[ptr, :] = detail[self.ts] * np.conj(detail[self.ts])
         elif self.waveparams == 0:
             for ptr in range(self.n_voices):
-- 
2.43.0


From a2207858514ccff763ff183cb2cd85eba81f09fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:22 +0000
Subject: [PATCH 33/87] fix: Mexican hat scalogram was shifted by one sample

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 0192482..b01b39a 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -202,7 +202,7 @@ class Scalogram(AffineDistribution):
                 nha = (ha.shape[0] - 1) / 2
                 detail = np.convolve(self.z, ha) / np.sqrt(a[ptr])
                 ix = np.arange(
-                    int(np.round(nha)) + 1, detail.shape[0] - int(np.round(nha)) + 1
+                    int(np.round(nha)), detail.shape[0] - int(np.round(nha)) + 1
                 )
                 detail = detail[ix]
                 wt[ptr, :] = detail[self.ts]
-- 
2.43.0


From be1611507ddd957a16ea8a44654e1161bcd85a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:25 +0000
Subject: [PATCH 34/87] fix: scalogram was normalised by the energy of a band
 shifted by one bin

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index b01b39a..ed6312d 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -246,7 +246,7 @@ class Scalogram(AffineDistribution):
         SP = np.fft.fft(self.z, axis=0)
         indmin = 1 + int(np.round(self.fmin * (self.signal.shape[0] - 2)))
         indmax = 1 + int(np.round(self.fmax * (self.signal.shape[0] - 2)))
-        SPana = SP[indmin: (indmax + 1)]
+        SPana = SP[(indmin - 1): indmax]
         self.tfr = np.real(self.tfr)
         self.tfr *= (np.linalg.norm(SPana) ** 2) / integrate_2d(self.tfr, self.ts, f)
         self.tfr /= self.n_voices
-- 
2.43.0


From 3aefb93ee5d4195406fe0958bd3a45532232d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:22:27 +0000
Subject: [PATCH 35/87] fix: scalogram kept a Fourier frequency axis next to
 its geometric one

---
 tftb/processing/affine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index ed6312d..e9a6b46 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -250,6 +250,7 @@ class Scalogram(AffineDistribution):
         self.tfr = np.real(self.tfr)
         self.tfr *= (np.linalg.norm(SPana) ** 2) / integrate_2d(self.tfr, self.ts, f)
         self.tfr /= self.n_voices
+        self.freqs = f
         return self.tfr, self.ts, f, wt
 
 
-- 
2.43.0


From 526397b974e81a1db08d8e3ad456bc27a9dd0ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:15 +0000
Subject: [PATCH 36/87] fix: affine distributions crashed when their dilation
 grid lost a point to rounding

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index e9a6b46..18bd1a7 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -100,7 +100,7 @@ class AffineDistribution(BaseTFRepresentation):
         mellin2 = np.fft.fftshift(np.fft.ifft(S2))
         umin = -self.umax
         du = np.abs(self.umax - umin) / (2 * self.m1)
-        u = np.linspace(umin, self.umax - du, int((self.umax - umin) / du))
+        u = np.linspace(umin, self.umax - du, 2 * int(self.m1))
         u[int(self.m1)] = 0
         self.u = u
         beta = (p / float(self.n_voices) - 1) / (2 * np.log(self.q))
-- 
2.43.0


From a9f009114fbccc25c405c3f4434785cab6aaa0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:38 +0000
Subject: [PATCH 37/87] fix: default Morlet scalogram of a row vector used a
 wavelet of one sample

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 18bd1a7..d7cb6de 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -164,7 +164,7 @@ class Scalogram(AffineDistribution):
     ):
         super(Scalogram, self).__init__(signal, fmin=fmin, fmax=fmax, **kwargs)
         if waveparams is None:
-            waveparams = np.sqrt(signal.shape[0])
+            waveparams = np.sqrt(self.signal.shape[0])
         if n_voices is None:
             n_voices = self.signal.shape[0]
         self.n_voices = n_voices
-- 
2.43.0


From 0be679edcb688adeaf670a126b7ac8a0b4c7e317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:40 +0000
Subject: [PATCH 38/87] fix: Gabor representation crashed when the window
 reaches past the end of the period

---
 tftb/processing/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 15aea99..1c8e5a1 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -138,7 +138,7 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
     hn1 = np.zeros((signal.shape[0],))
     start = np.round(((signal.shape[0] - (nh - 1))) / 2) - alpha
     end = np.round((signal.shape[0] + nh - 1) / 2) - alpha
-    hn1[np.arange(start - 1, end).astype(int)] = window
+    hn1[np.arange(start - 1, end).astype(int) % signal.shape[0]] = window
 
     msig = hn1.reshape(int(nb), int(m), order='F')
     dzth = np.fft.fft(msig.T, axis=0) / np.sqrt(m)
-- 
2.43.0


From 652225d8f5a9516addee436ae55cbd4fb28a49e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:16 +0000
Subject: [PATCH 39/87] fix: Gabor representation crashed unless it had as many
 shifts as frequency channels

---
 tftb/processing/linear.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 1c8e5a1..740d1b4 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -140,12 +140,12 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
     end = np.round((signal.shape[0] + nh - 1) / 2) - alpha
     hn1[np.arange(start - 1, end).astype(int) % signal.shape[0]] = window
 
-    msig = hn1.reshape(int(nb), int(m), order='F')
-    dzth = np.fft.fft(msig.T, axis=0) / np.sqrt(m)
-    mzh = np.zeros((m, mb))
-    x = np.arange(1, m + 1, dtype=float)
+    msig = hn1.reshape(mb, n_coeff, order='F')
+    dzth = np.fft.fft(msig.T, axis=0) / np.sqrt(n_coeff)
+    mzh = np.zeros((n_coeff, mb))
+    x = np.arange(1, n_coeff + 1, dtype=float)
     for l in range(q_oversample):  # NOQA: E741
-        mod = modulo(x - l * m / q_oversample, m).astype(int)
+        mod = modulo(x - l * nb, n_coeff).astype(int)
         mzh += np.abs(dzth[mod - 1, :]) ** 2
 
     mzh[mzh < np.spacing(1)] = 1
-- 
2.43.0


From 10ea8ce773eca189bf9d6d634fd4b4ac6fb01bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:46 +0000
Subject: [PATCH 40/87] fix: fmconst blew up when its time centre is
 fractional, and crashed when it is the last instant

---
 tftb/generators/frequency_modulated.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 6857a66..ae08f12 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -32,7 +32,6 @@ def fmconst(n_points, fnorm=0.25, t0=None):
     else:
         tmt0 = np.arange(n_points) - t0
         y = np.exp(1j * 2.0 * np.pi * fnorm * tmt0)
-        y = y / np.real(y[int(t0)])
         iflaw = fnorm * np.ones((n_points,))
         return y, iflaw
 
-- 
2.43.0


From 98c4cb87bba664d02ccc385d230ed21cc56deed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:48 +0000
Subject: [PATCH 41/87] fix: fmodany zeroed the phase one sample late, and
 crashed at the last one

---
 tftb/generators/frequency_modulated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index ae08f12..5d53d04 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -139,11 +139,11 @@ def fmodany(iflaw, t0=1):
     elif np.amax(np.abs(iflaw)) > 0.5:
         raise TypeError("Elements of iflaw should be within -0.5 and 0.5")
 
-    if (t0 > iflaw.shape[0]) or (t0 == 0):
+    if (t0 > iflaw.shape[0]) or (t0 < 1):
         raise TypeError("T0 should be between 1 and len(iflaw)")
 
     y = np.exp(1j * 2.0 * pi * np.cumsum(iflaw))
-    y = y * np.conjugate(y[t0])
+    y = y * np.conjugate(y[t0 - 1])
     return y
 
 
-- 
2.43.0


From 64e16e9d9972b0d27501bf0e70fe73ca1c0edcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:50 +0000
Subject: [PATCH 42/87] fix: fmodany accepted aliased frequencies in a column
 vector

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 5d53d04..0f94c5b 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -136,7 +136,7 @@ def fmodany(iflaw, t0=1):
         if iflaw.shape[1] != 1:
             raise TypeError("iflaw should be a column vector.")
 
-    elif np.amax(np.abs(iflaw)) > 0.5:
+    if np.amax(np.abs(iflaw)) > 0.5:
         raise TypeError("Elements of iflaw should be within -0.5 and 0.5")
 
     if (t0 > iflaw.shape[0]) or (t0 < 1):
-- 
2.43.0


From 29ef5233e52f9880d7768ac7e0e3a41bcdfc2e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:53 +0000
Subject: [PATCH 43/87] fix: the phase of fmpar did not follow its
 instantaneous frequency law

---
 tftb/generators/frequency_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 0f94c5b..98ddc9d 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -165,7 +165,7 @@ def fmpar(n_points, coefficients):
     """
     a0, a1, a2 = coefficients
     t = np.arange(n_points)
-    phi = 2 * np.pi * (a0 * t + (a1 / 2 * t) ** 2 + (a2 / 3 * t) ** 3)
+    phi = 2 * np.pi * (a0 * t + a1 / 2 * t ** 2 + a2 / 3 * t ** 3)
     iflaw = a0 + a1 * t + a2 * (t ** 2)
     a, b = iflaw < 0, iflaw > 0.5
     aliasing = np.logical_or(a, b)
-- 
2.43.0


From a396b9686e90b7c9c048276af6a08c4b09ffd290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:55 +0000
Subject: [PATCH 44/87] fix: fmpower started at time 0, where its frequency law
 is infinite

---
 tftb/generators/frequency_modulated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 98ddc9d..ac3eb9f 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -202,9 +202,9 @@ def fmpower(n_points, k, coefficients):
         p2 = coefficients[2:]
         c = (p2[1] - p1[1]) / (1.0 / (p2[0] ** k) - 1.0 / (p1[0] ** k))
         f0 = p1[1] - c / (p1[0] ** k)
-    t = np.arange(n_points)
+    t = np.arange(1, n_points + 1)
     phi = 2 * np.pi * (f0 * t + c / (1 - k) * np.abs(t) ** (1 - k))
-    iflaw = (f0 + c * np.abs(t) ** (-k))
+    iflaw = (f0 + c * np.abs(t) ** (-float(k)))
     a, b = iflaw < 0, iflaw > 0.5
     aliasing = np.logical_or(a, b)
     if np.any(aliasing):
-- 
2.43.0


From 83f5949de3df59f2e680043b78e72d8d0d2040b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:57 +0000
Subject: [PATCH 45/87] fix: fmsin did not have zero phase at its time
 reference

---
 tftb/generators/frequency_modulated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index ac3eb9f..8585afd 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -252,8 +252,8 @@ def fmsin(n_points, fnormin=0.05, fnormax=0.45, period=None, t0=None,
     delta = 0.5 * (fnormax - fnormin)
     phi = -pm1 * np.arccos((fnorm0 - fnormid) / delta)
     t = np.arange(n_points) - t0
-    phase = 2 * pi * fnormid * t + delta * period * (np.sin(2 * pi * t / period + phi)) -\
-        np.sin(phi)
+    phase = 2 * pi * fnormid * t + delta * period * (np.sin(2 * pi * t / period + phi) -
+                                                      np.sin(phi))
     y = np.exp(1j * phase)
     iflaw = fnormid + delta * np.cos(2 * pi * t / period + phi)
     return y, iflaw
-- 
2.43.0


From 4d4aead22ce2d949b0cdc5f7419e5a13805570d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:22 +0000
Subject: [PATCH 46/87] fix: fmpower crashed on integer degrees

---
 tftb/generators/frequency_modulated.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 8585afd..891f4a3 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -202,9 +202,9 @@ def fmpower(n_points, k, coefficients):
         p2 = coefficients[2:]
         c = (p2[1] - p1[1]) / (1.0 / (p2[0] ** k) - 1.0 / (p1[0] ** k))
         f0 = p1[1] - c / (p1[0] ** k)
-    t = np.arange(1, n_points + 1)
+    t = np.arange(1, n_points + 1, dtype=float)
     phi = 2 * np.pi * (f0 * t + c / (1 - k) * np.abs(t) ** (1 - k))
-    iflaw = (f0 + c * np.abs(t) ** (-float(k)))
+    iflaw = (f0 + c * np.abs(t) ** (-k))
     a, b = iflaw < 0, iflaw > 0.5
     aliasing = np.logical_or(a, b)
     if np.any(aliasing):
-- 
2.43.0


From 311c7c4a1444c899ef7cebea1be55073dfd2c662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:24 +0000
Subject: [PATCH 47/87] fix: anafsk returned more points than asked for

---
 tftb/generators/analytic_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 74231fb..af33b27 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -86,7 +86,7 @@ def anafsk(n_points, n_comp=None, Nbf=4):
     m = np.ceil(n_points / n_comp)
     m = int(np.ceil(n_points / n_comp))
     freqs = 0.25 + 0.25 * (np.floor(Nbf * np.random.rand(m, 1)) / Nbf - (Nbf - 1) / (2 * Nbf))
-    iflaw = np.repeat(freqs, n_comp).ravel()
+    iflaw = np.repeat(freqs, int(n_comp)).ravel()[:n_points]
     y = np.exp(1j * 2 * pi * np.cumsum(iflaw))
     return y, iflaw
 
-- 
2.43.0


From 76bce0117f07a84a7056ef18bdad989d1f2c3679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:26 +0000
Subject: [PATCH 48/87] fix: anaqpsk crashed unless the component length
 divides the number of points

---
 tftb/generators/analytic_signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index af33b27..ce413b6 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -140,7 +140,7 @@ def anaqpsk(n_points, n_comp=None, f0=0.25):
     m = int(np.ceil(n_points / n_comp))
     jumps = np.floor(4 * np.random.rand(m))
     jumps[jumps == 4] = 3
-    pm0 = (np.pi * np.repeat(jumps, n_comp) / 2).ravel()
+    pm0 = (np.pi * np.repeat(jumps, int(n_comp)) / 2).ravel()[:n_points]
     tm = np.arange(n_points) - 1
     pm = 2 * np.pi * f0 * tm + pm0
     y = np.exp(1j * pm)
-- 
2.43.0


From d57dbd4f4f74d54340048936a1ce448d4bd2ea06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:28 +0000
Subject: [PATCH 49/87] fix: keying signals crashed on component lengths given
 as floats

---
 tftb/generators/analytic_signals.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index ce413b6..90d0c84 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -28,7 +28,7 @@ def anaask(n_points, n_comp=None, f0=0.25):
         raise TypeError("f0 must be between 0 and 0.5")
     m = int(np.ceil(n_points / n_comp))
     jumps = np.random.rand(m)
-    am = np.repeat(jumps, n_comp)[:n_points]
+    am = np.repeat(jumps, int(n_comp))[:n_points]
     fm, _ = fmconst(n_points, f0, 1)
     y = am * fm
     return y, am
@@ -58,7 +58,7 @@ def anabpsk(n_points, n_comp=None, f0=0.25):
         raise TypeError("f0 must be between 0 and 0.5")
     m = int(np.ceil(n_points / n_comp))
     jumps = 2.0 * np.round(np.random.rand(m)) - 1
-    am = np.repeat(jumps, n_comp)[:n_points]
+    am = np.repeat(jumps, int(n_comp))[:n_points]
     y = am * fmconst(n_points, f0, 1)[0]
     return y, am
 
-- 
2.43.0


From 00d48385db65561fd633c46ef0f8cb8efc6b3361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:30 +0000
Subject: [PATCH 50/87] fix: anasing crashed for lengths where its bin count
 lost one to rounding, and was misplaced for odd ones

---
 tftb/generators/analytic_signals.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tftb/generators/analytic_signals.py b/tftb/generators/analytic_signals.py
index 90d0c84..1a2d109 100644
--- a/tftb/generators/analytic_signals.py
+++ b/tftb/generators/analytic_signals.py
@@ -168,9 +168,7 @@ def anasing(n_points, t0=None, h=0.0):
     if t0 is None:
         t0 = n_points / 2.0
     if h <= 0:
-        start, end = 1.0 / n_points, 0.5 - 1.0 / n_points
-        N = int(end / start)
-        f = np.linspace(start, end, N)
+        f = np.arange(1, int(n_points / 2)) / float(n_points)
         y = np.zeros((int(n_points / 2.0),), dtype=complex)
         y[1:int(n_points / 2)] = (f ** (-1 - h)) * np.exp(-1j * 2 * pi * f * (t0 - 1))
         x = np.real(np.fft.ifft(y, n_points))
-- 
2.43.0


From effc0051f0f25d661f8e4078a2381314ca9e4e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:32 +0000
Subject: [PATCH 51/87] fix: klauder returned one point too few for odd lengths

---
 tftb/generators/misc.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index 16e9532..d4bc2ef 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -141,12 +141,10 @@ def klauder(n_points, attenuation=10.0, f0=0.2):
     assert n_points > 0
     assert ((f0 < 0.5) and (f0 > 0))
 
-    f = np.linspace(0., 0.5, int(n_points / 2 + 1))
+    f = np.abs(np.fft.fftfreq(n_points))
     mod = np.exp(-2. * np.pi * attenuation * f) * f ** (2. * np.pi * attenuation * f0 - 0.5)
     wave = mod
     wave[0] = 0
-    a, b = wave[:int(n_points / 2)], wave[1:int(n_points / 2 + 1)][::-1]
-    wave = np.hstack((a, b))
     wavet = np.fft.ifft(wave)
     wavet = np.fft.fftshift(wavet)
     x = np.real(wavet) / np.linalg.norm(wavet)
-- 
2.43.0


From 5033683c895f1e19db5c0893d308997469591aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:34 +0000
Subject: [PATCH 52/87] fix: gdpower of degree one crashed

---
 tftb/generators/misc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index d4bc2ef..c830191 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -212,7 +212,7 @@ def gdpower(n_points, degree=0.0, rate=1.0):
         x = np.fft.ifft(tfx)
     elif degree == 1.:
         from tftb.generators.analytic_signals import anapulse
-        t0 = n_points
+        t0 = n_points - 1
         x = anapulse(n_points, t0)
     elif degree > 1.:
         d = n_points * 2. ** (degree - 1.) * rate
@@ -227,7 +227,7 @@ def gdpower(n_points, degree=0.0, rate=1.0):
     if degree != 1.0:
         gpd = t0 + np.abs(np.sign(rate) - 1.0) / 2.0 * (n_points + 1.0) + d * nu ** (degree - 1.0)
     else:
-        gpd = t0 * np.ones((n_points / 2.0,))
+        gpd = t0 * np.ones((lnu,))
 
     x = x - x.mean()
     x = x / np.linalg.norm(x)
-- 
2.43.0


From 6bbe133b0ddeac848bbd941b52d71f7795cfe76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:35 +0000
Subject: [PATCH 53/87] fix: noise of one or two points crashed or came out as
 a column

---
 tftb/generators/noise.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/noise.py b/tftb/generators/noise.py
index fbc91e1..c696852 100644
--- a/tftb/generators/noise.py
+++ b/tftb/generators/noise.py
@@ -25,7 +25,7 @@ def noisecu(n_points):
     .. plot:: docstring_plots/generators/noise/noisecu.py
     """
     if n_points <= 2:
-        noise = (np.random.rand(n_points, 1) - 0.5 + 1j * (np.random.rand(n_points, 1) - 0.5)) * \
+        noise = (np.random.rand(n_points) - 0.5 + 1j * (np.random.rand(n_points) - 0.5)) * \
             np.sqrt(6)
     else:
         noise = np.random.rand(2 ** int(nextpow2(n_points)),) - 0.5
@@ -65,7 +65,7 @@ def noisecg(n_points, a1=None, a2=None):
     """
     assert n_points > 0
     if n_points <= 2:
-        noise = (np.random.randn(n_points, 1.) + 1j * np.random.randn(n_points, 1.)) / np.sqrt(2.)
+        noise = (np.random.randn(n_points) + 1j * np.random.randn(n_points)) / np.sqrt(2.)
     else:
         noise = np.random.normal(size=int(2. ** nextpow2(float(n_points)),))
         noise = hilbert(noise) / noise.std() / np.sqrt(2.)
-- 
2.43.0


From 889601f9618dd306c35f5e936ba3187c6fdcec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:38 +0000
Subject: [PATCH 54/87] fix: dopnoise returned one point too few

---
 tftb/generators/noise.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tftb/generators/noise.py b/tftb/generators/noise.py
index c696852..bde2378 100644
--- a/tftb/generators/noise.py
+++ b/tftb/generators/noise.py
@@ -117,10 +117,9 @@ def dopnoise(n_points, s_freq, f_target, distance, v_target,
     y = np.zeros((2 * n_points,))
     for t in range(2, 2 * n_points):
         y[t] = x[t] - rr * (x[t - 2] + y[t - 2]) + r2 * np.cos(2.0 * np.pi * iflaw[t]) * y[t - 1]
-    y = hilbert(y[(n_points + 1): (2 * n_points + 1)]) /\
-        np.sqrt(dist[(n_points + 1): (2 * n_points + 1)])
+    y = hilbert(y[n_points:]) / np.sqrt(dist[n_points:])
     y = y / np.sqrt(np.sum(np.abs(y) ** 2))
-    iflaw = iflaw[(n_points + 1):(2 * n_points + 1)]
+    iflaw = iflaw[n_points:]
     return y, iflaw
 
 
-- 
2.43.0


From 1f48e6fd71232ccc7e9b46b80ef6809dfa885773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:57 +0000
Subject: [PATCH 55/87] fix: renyi_information overwrote the caller's time and
 frequency axes

---
 tftb/processing/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index c224b1d..2276f38 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -87,10 +87,10 @@ def renyi_information(tfr, timestamps=None, freq=None, alpha=3.0):
     if timestamps is None:
         timestamps = np.arange(n) + 1
     elif np.allclose(timestamps, np.arange(n)):
-        timestamps += 1
+        timestamps = timestamps + 1
     if freq is None:
         freq = np.arange(m)
-    freq.sort()
+    freq = np.sort(freq)
     tfr = tfr / integrate_2d(tfr, timestamps, freq)
     if alpha == 1:
         R = -integrate_2d(tfr * np.log2(tfr + np.spacing(1)), timestamps, freq)
-- 
2.43.0


From ede3e71b6ba8ab40775f11b3981bb0b2f35800fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:00 +0000
Subject: [PATCH 56/87] fix: ideal_tfr wrote NaN into unrelated cells, or
 crashed, where a law is undefined

---
 tftb/processing/postprocessing.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index 2276f38..41a6879 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -124,9 +124,7 @@ def ideal_tfr(iflaws, timestamps=None, n_fbins=None):
     for icol in range(tcol):
         ti = timestamps[icol]
         for fi in range(ifrow):
-            if np.isnan(iflaws[fi, ti]):
-                tfr[ti, fi] = np.nan
-            else:
+            if not np.isnan(iflaws[fi, ti]):
                 tfr[int(np.round(iflaws[fi, ti] * 2 * (n_fbins - 1))), icol] = 1
     freqs = np.arange(n_fbins, dtype=float) / n_fbins * 0.5
     return tfr, timestamps, freqs
-- 
2.43.0


From 68c936d5396a7901de72d019ed349bcd4c831268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:02 +0000
Subject: [PATCH 57/87] fix: distance axis of the Hough transform had the
 length of the angle axis

---
 tftb/processing/postprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index 41a6879..2af40d7 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -62,7 +62,7 @@ def hough_transform(image, m=None, n=None):
                         ht[int(np.round(rho / deltar)),
                            int(np.round(theta / deltat))] += image[x + xc - 1,
                                                                    y + yc - 1]
-    rho = np.linspace(0, rhomax, n)
+    rho = np.linspace(0, rhomax, m)
     theta = np.linspace(0, 2 * np.pi - deltat, n)
     return ht, rho, theta
 
-- 
2.43.0


From d38d20ba262a8e55d6d66e6d309c4deda5309542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:04 +0000
Subject: [PATCH 58/87] fix: ridges ignored its energy threshold

---
 tftb/processing/postprocessing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index 2af40d7..0325659 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -197,7 +197,7 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
             condt1 = np.real(re_mat[:, icol]) - freqs == 0
             condt2 = np.imag(re_mat[:, icol]) - icol == 0
             condt3 = tfr[:, icol] > threshold
-            indices = np.logical_and(condt1, condt2, condt3)
+            indices = condt1 & condt2 & condt3
             if np.any(indices):
                 time_points = np.ones((indices.sum(),)) * ti
                 freq_points = np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)
@@ -207,7 +207,7 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
             condt1 = np.real(re_mat[:, icol]) - freqs == 0
             condt2 = np.imag(re_mat[:, icol]) - icol == 0
             condt3 = tfr[:, icol] > threshold
-            indices = np.logical_and(condt1, condt2, condt3)
+            indices = condt1 & condt2 & condt3
             if np.any(indices):
                 time_points = np.ones((indices.sum(),)) * ti
                 freq_points = np.arange(indices.shape[0])[indices] / n_fbins
-- 
2.43.0


From b5e9a881745e92c2a07b7566016827ab2023170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:06 +0000
Subject: [PATCH 59/87] fix: ridges returned only the points of the last column
 that has any, and crashed when there are none

---
 tftb/processing/postprocessing.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index 0325659..58946f7 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -182,6 +182,7 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
     n_fbins = tfrrow
     freqs = np.arange(n_fbins)
     threshold = np.sum(np.sum(tfr)) * 0.5 / tfr.size
+    time_points, freq_points = np.zeros((0,)), np.zeros((0,))
 
     if method in ('rpwv', 'rpmh'):
         for icol in range(tfrcol):
@@ -189,8 +190,8 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
             indices = np.logical_and(tfr[:, icol] > threshold,
                                      re_mat[:, icol] - freqs == 0)
             if np.any(indices):
-                time_points = np.ones((indices.sum(),)) * ti
-                freq_points = np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)
+                time_points = np.r_[time_points, np.ones((indices.sum(),)) * ti]
+                freq_points = np.r_[freq_points, np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)]
     elif method == "rspwv":
         for icol in range(tfrcol):
             ti = timestamps[icol]
@@ -199,8 +200,8 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
             condt3 = tfr[:, icol] > threshold
             indices = condt1 & condt2 & condt3
             if np.any(indices):
-                time_points = np.ones((indices.sum(),)) * ti
-                freq_points = np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)
+                time_points = np.r_[time_points, np.ones((indices.sum(),)) * ti]
+                freq_points = np.r_[freq_points, np.arange(indices.shape[0])[indices] / (2.0 * n_fbins)]
     elif method in ("rsp", "type1"):
         for icol in range(tfrcol):
             ti = timestamps[icol]
@@ -209,8 +210,8 @@ def ridges(tfr, re_mat, timestamps=None, method='rsp'):
             condt3 = tfr[:, icol] > threshold
             indices = condt1 & condt2 & condt3
             if np.any(indices):
-                time_points = np.ones((indices.sum(),)) * ti
-                freq_points = np.arange(indices.shape[0])[indices] / n_fbins
+                time_points = np.r_[time_points, np.ones((indices.sum(),)) * ti]
+                freq_points = np.r_[freq_points, np.arange(indices.shape[0])[indices] / n_fbins]
     else:
         raise ValueError("Unknown time frequency representation.")
     return time_points, freq_points
-- 
2.43.0


From 597dd0a4ae170df7c12f6e3483f18a01d6708616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:08 +0000
Subject: [PATCH 60/87] fix: loctime was wrong on column vectors and accepted
 matrices

---
 tftb/processing/time_domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/time_domain.py b/tftb/processing/time_domain.py
index 24b0dd1..b6afb1d 100644
--- a/tftb/processing/time_domain.py
+++ b/tftb/processing/time_domain.py
@@ -18,7 +18,7 @@ def loctime(sig):
     >>> print("%.2f" % T)
     50.00
     """
-    if sig.ndim > 2:
+    if sig.ndim > 1:
         if 1 not in sig.shape:
             raise TypeError
         else:
-- 
2.43.0


From 83f33069658041006ab341a0dd51cdbc7aed6699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:10 +0000
Subject: [PATCH 61/87] fix: locfreq crashed or used aliased frequencies for
 odd lengths

---
 tftb/processing/freq_domain.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tftb/processing/freq_domain.py b/tftb/processing/freq_domain.py
index 33f7c72..c2bf0d9 100644
--- a/tftb/processing/freq_domain.py
+++ b/tftb/processing/freq_domain.py
@@ -25,12 +25,10 @@ def locfreq(signal):
             raise TypeError
         else:
             signal = signal.ravel()
-    no2r = np.round(signal.shape[0] / 2.0)
-    no2f = np.floor(signal.shape[0] / 2.0)
     sig = np.fft.fft(signal)
     sig = np.abs(sig) ** 2
     sig = sig / sig.mean()
-    freqs = np.hstack((np.arange(no2f), np.arange(-no2r, 0))) / signal.shape[0]
+    freqs = np.fft.fftfreq(signal.shape[0])
     fm = np.mean(freqs * sig)
     bw = 2 * np.sqrt(np.pi * np.mean(((freqs - fm) ** 2) * sig))
     return fm, bw
-- 
2.43.0


From fd311ca33c29901eaa241349dd908d624789537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:12 +0000
Subject: [PATCH 62/87] fix: contour plots beside the signal crashed unless
 there are as many bins as samples

---
 tftb/processing/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 6b6c77f..3116d27 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -101,7 +101,7 @@ class BaseTFRepresentation(object):
                     if self.isaffine:
                         contour_y = np.linspace(self.fmin, self.fmax, self.n_voices)
                     else:
-                        contour_y = np.linspace(0, 0.5, self.signal.shape[0])
+                        contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
                 else:
                     contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
             contour_x, contour_y = np.meshgrid(contour_x, contour_y)
-- 
2.43.0


From 52a674d1529495c8cf68d5c058a04ac9dcde1845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:14 +0000
Subject: [PATCH 63/87] fix: atoms crashed on a single atom given as a vector

---
 tftb/generators/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/misc.py b/tftb/generators/misc.py
index c830191..809386f 100644
--- a/tftb/generators/misc.py
+++ b/tftb/generators/misc.py
@@ -56,7 +56,7 @@ def atoms(n_points, coordinates):
     .. plot:: docstring_plots/generators/misc/atoms.py
     """
     if coordinates.ndim == 1:
-        coordinates = coordinates.reshape((coordinates.shape[0], 1))
+        coordinates = coordinates.reshape((1, coordinates.shape[0]))
     signal = np.zeros((n_points,), dtype=complex)
     n_atoms = coordinates.shape[0]
     for k in range(n_atoms):
-- 
2.43.0


From 205db53ccc2d0f354d5aa03a9cf3f8bc8a6463d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:37 +0000
Subject: [PATCH 64/87] fix: scale crashed on every input

---
 tftb/generators/utils.py | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/tftb/generators/utils.py b/tftb/generators/utils.py
index 7ecea4c..a0572d6 100644
--- a/tftb/generators/utils.py
+++ b/tftb/generators/utils.py
@@ -45,7 +45,7 @@ def scale(X, a, fmin, fmax, N):
     """
     Z = hilbert(np.real(X))
     T = X.shape[0]
-    M = (T + np.remainder(T, 2)) / 2
+    M = (T + T % 2) // 2
 
     # B = fmax - fmin
     # R = B / ((fmin + fmax) / 2)
@@ -56,9 +56,9 @@ def scale(X, a, fmin, fmax, N):
     # Geometric sampling of the analyzed spectrum
     k = np.arange(N)
     q = (fmax / float(fmin)) ** (1.0 / (N - 1.0))
-    geo_f = fmin * np.exp((k - 1) * np.log(q))
-    t = np.arange(X.shape[0]) - M - 1
-    tfmatx = np.exp(-2 * 1j * np.dot(t.reshape(128, 1), geo_f.reshape(1, 128)) * np.pi)
+    geo_f = fmin * np.exp(k * np.log(q))
+    t = np.arange(X.shape[0]) - M
+    tfmatx = np.exp(-2 * 1j * np.outer(t, geo_f) * np.pi)
     ZS = np.dot(Z, tfmatx)
     ZS = np.hstack((ZS, np.zeros((N,))))
 
@@ -68,23 +68,18 @@ def scale(X, a, fmin, fmax, N):
     beta = (p / float(N) - 1.0) / (2 * np.log(q))
 
     # Inverse mellin and fourier transform.
-    Mmax = np.amax(np.ceil(X.shape[0] / 2.0 * a))
-    if isinstance(a, np.ndarray):
-        S = np.zeros((2 * Mmax, a.shape[0]), dtype=complex)
-    else:
-        S = np.zeros((2 * Mmax,), dtype=complex)
-        ptr = 0
-        DMS = np.exp(-2 * np.pi * 1j * beta * np.log(a)) * MS
+    scales = np.atleast_1d(a)
+    Mmax = int(np.amax(np.ceil(X.shape[0] / 2.0 * scales)))
+    S = np.zeros((2 * Mmax, scales.shape[0]), dtype=complex)
+    for ptr in range(scales.shape[0]):
+        DMS = np.exp(-2 * np.pi * 1j * beta * np.log(scales[ptr])) * MS
         DS = np.fft.fft(np.fft.fftshift(DMS), axis=0)
-        Mcurrent = np.ceil(a * X.shape[0] / 2)
-        t = np.arange(-Mcurrent, Mcurrent) - 1
-        itfmatx = np.exp(2 * 1j * np.pi * np.dot(t.reshape((256, 1)),
-                                                 geo_f.reshape((1, 128))))
-        dilate_sig = np.zeros((2 * Mcurrent,), dtype=complex)
-        for kk in range(2 * int(Mcurrent)):
-            dilate_sig[kk] = trapezoid(itfmatx[kk, :] * DS[:N], geo_f)
-        S[(Mmax - Mcurrent):(Mmax + Mcurrent)] = dilate_sig
-        ptr += 1
+        Mcurrent = int(np.ceil(scales[ptr] * X.shape[0] / 2))
+        t = np.arange(-Mcurrent, Mcurrent)
+        itfmatx = np.exp(2 * 1j * np.pi * np.outer(t, geo_f))
+        S[(Mmax - Mcurrent):(Mmax + Mcurrent), ptr] = trapezoid(itfmatx * DS[:N], geo_f)
+    if not isinstance(a, np.ndarray):
+        S = S[:, 0]
 
     S = S * np.linalg.norm(X) / np.linalg.norm(S)
     return S
-- 
2.43.0


From 6fef80f96efee230f04892bdfe55f9d842c9e9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:44 +0000
Subject: [PATCH 65/87] fix: one-sided exponential modulation was NaN far ahead
 of its start

---
 tftb/generators/amplitude_modulated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/generators/amplitude_modulated.py b/tftb/generators/amplitude_modulated.py
index 51bddc5..1a502ff 100644
--- a/tftb/generators/amplitude_modulated.py
+++ b/tftb/generators/amplitude_modulated.py
@@ -76,7 +76,7 @@ def amexpos(n_points, t0=None, spread=None, kind="bilateral"):
         if kind == "bilateral":
             y = np.exp(-sqrt(2 * np.pi) * np.abs(tmt0) / spread)
         else:
-            y = np.exp(-sqrt(np.pi) * tmt0 / spread) * (tmt0 >= 0.0)
+            y = np.exp(-sqrt(np.pi) * np.maximum(tmt0, 0) / spread) * (tmt0 >= 0.0)
         return y
 
 
-- 
2.43.0


From d6e96e93b9ae166902bddea316b8c612e1e340a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:09 +0000
Subject: [PATCH 66/87] fix: izak crashed on vectors

---
 tftb/utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/tftb/utils.py b/tftb/utils.py
index 0045717..1ac21f2 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -32,10 +32,9 @@ def is_linear(x, decimals=5):
 
 def izak(x):
     """Inverse Zak transform."""
-    if x.ndim == 2:
-        n, m = x.shape
-    else:
-        n, m = x.shape[0], 1
+    if x.ndim != 2:
+        x = x.reshape(-1, 1)
+    n, m = x.shape
     sig = np.zeros((n * m, ), dtype=complex)
     for im in range(m):
         sig[im + np.arange(n) * m] = np.sqrt(n) * np.fft.ifft(x[:, im], axis=0)
-- 
2.43.0


From f10104974b9c6e9585e8ba56076f997c3f9fd138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:14 +0000
Subject: [PATCH 67/87] fix: affine plots crashed with fewer voices than half
 the samples

---
 tftb/processing/affine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index d7cb6de..d276a81 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -110,9 +110,10 @@ class AffineDistribution(BaseTFRepresentation):
     def plot(self, kind="contour", show_tf=True, threshold=0.05, **kwargs):
         _thresh = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _thresh] = 0
-        freq_y = kwargs.pop(
-            "freq_y", np.linspace(self.fmin, self.fmax, int(self.signal.shape[0] / 2))
-        )
+        n_freqs = self.signal.shape[0] // 2
+        if self.isaffine:
+            n_freqs = min(n_freqs, self.tfr.shape[0])
+        freq_y = kwargs.pop("freq_y", np.linspace(self.fmin, self.fmax, n_freqs))
 
         super(AffineDistribution, self).plot(
             kind=kind, show_tf=show_tf, freq_y=freq_y, **kwargs
-- 
2.43.0


From ba4877be9003e5a073e6d3c429c6192e7e09ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:51 +0000
Subject: [PATCH 68/87] fix: honour levels and coordinates of contour plots
 without marginals

plot(kind='contour') dropped levels (hence also scale='log'), contour_x and
contour_y unless show_tf was set.
---
 tftb/processing/base.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 3116d27..ef21f77 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -233,9 +233,13 @@ class BaseTFRepresentation(object):
                 ax.plot_wireframe(X, Y, np.abs(self.tfr), cmap=plt.cm.jet,
                                   rstride=3, cstride=3)
             else:
-                t, f = np.meshgrid(self.ts, np.linspace(0, 0.5, self.tfr.shape[0]))
+                if contour_x is None:
+                    contour_x = self.ts
+                if contour_y is None:
+                    contour_y = np.linspace(0, 0.5, self.tfr.shape[0])
+                t, f = np.meshgrid(contour_x, contour_y)
                 ax = ax or fig.add_subplot(111)
-                ax.contour(t, f, self.tfr, **kwargs)
+                ax.contour(t, f, self.tfr, levels=levels, **kwargs)
             if default_annotation:
                 grid = kwargs.get('grid', True)
                 ax.grid(grid)
-- 
2.43.0


From 4d16cbc9ba797060d920e2d402c45552d2698ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:53 +0000
Subject: [PATCH 69/87] fix: contour plots of affine representations show their
 frequencies

The rows are geometrically spaced from fmin to fmax, but were drawn evenly
spaced, and from 0 to 0.5 for the scalogram or without show_tf.
---
 tftb/processing/affine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index d276a81..4c94833 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -114,6 +114,7 @@ class AffineDistribution(BaseTFRepresentation):
         if self.isaffine:
             n_freqs = min(n_freqs, self.tfr.shape[0])
         freq_y = kwargs.pop("freq_y", np.linspace(self.fmin, self.fmax, n_freqs))
+        kwargs.setdefault("contour_y", self.freqs)
 
         super(AffineDistribution, self).plot(
             kind=kind, show_tf=show_tf, freq_y=freq_y, **kwargs
-- 
2.43.0


From f99abdd9ad40328a4cbf57deee825e9963823d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:03 +0000
Subject: [PATCH 70/87] fix: integer signals overflowed in quadratic
 representations

Products of int8/int16 samples (e.g. audio) were formed in that type, so the
Wigner-Ville, Margenau-Hill, reassigned, ambiguity, moment and mixing functions
silently returned garbage for signals above a few hundred.
---
 tftb/generators/utils.py       | 2 ++
 tftb/processing/ambiguity.py   | 3 ++-
 tftb/processing/base.py        | 2 ++
 tftb/processing/cohen.py       | 2 ++
 tftb/processing/freq_domain.py | 2 ++
 tftb/processing/reassigned.py  | 7 +++++++
 tftb/processing/time_domain.py | 3 ++-
 tftb/utils.py                  | 5 +++++
 8 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/tftb/generators/utils.py b/tftb/generators/utils.py
index a0572d6..4cefc9e 100644
--- a/tftb/generators/utils.py
+++ b/tftb/generators/utils.py
@@ -1,6 +1,7 @@
 import numpy as np
 from scipy.signal import hilbert
 from scipy.integrate import trapezoid
+from tftb.utils import float_samples
 # from tftb.utils import nextpow2
 
 
@@ -20,6 +21,7 @@ def sigmerge(x1, x2, ratio=0.0):
     assert x1.ndim == 1
     assert x2.ndim == 1
     assert type(ratio) in (float, int)
+    x1, x2 = float_samples(x1), float_samples(x2)
     ex1 = np.mean(np.abs(x1) ** 2)
     ex2 = np.mean(np.abs(x2) ** 2)
     h = np.sqrt(ex1 / (ex2 * 10 ** (ratio / 10.0)))
diff --git a/tftb/processing/ambiguity.py b/tftb/processing/ambiguity.py
index 6c53550..bcebb17 100644
--- a/tftb/processing/ambiguity.py
+++ b/tftb/processing/ambiguity.py
@@ -12,7 +12,7 @@ Ambiguity functions.
 
 import numpy as np
 from scipy.signal import hilbert
-from tftb.utils import nextpow2
+from tftb.utils import float_samples, nextpow2
 
 
 def _find(condt):
@@ -110,6 +110,7 @@ def narrow_band(signal, lag=None, n_fbins=None):
     :rtype: array-like
     """
 
+    signal = float_samples(signal)
     n = signal.shape[0]
     if lag is None:
         if n % 2 == 0:
diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index ef21f77..888a9b4 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -15,6 +15,7 @@ from functools import wraps
 import numpy as np
 from scipy.signal.windows import hamming
 import matplotlib.pyplot as plt
+from tftb.utils import float_samples
 
 
 def draws_copy(plot):
@@ -45,6 +46,7 @@ class BaseTFRepresentation(object):
         """
         if signal.ndim > 1:
             signal = signal.ravel()
+        signal = float_samples(signal)
         self.signal = signal
         if timestamps is None:
             timestamps = np.arange(signal.shape[0])
diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index bc55fc5..36e4326 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -13,6 +13,7 @@ Bilinear Time-Frequency Processing in the Cohen’s Class.
 import numpy as np
 from tftb.processing.linear import ShortTimeFourierTransform
 from tftb.processing.base import BaseTFRepresentation, draws_copy
+from tftb.utils import float_samples
 
 
 class Spectrogram(ShortTimeFourierTransform):
@@ -245,6 +246,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, freq_bins=None,
     :return: Smoothed pseudo Wigner Ville distribution
     :rtype: array-like
     """
+    signal = float_samples(signal)
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
     if freq_bins is None:
diff --git a/tftb/processing/freq_domain.py b/tftb/processing/freq_domain.py
index c2bf0d9..3c1d57f 100644
--- a/tftb/processing/freq_domain.py
+++ b/tftb/processing/freq_domain.py
@@ -1,4 +1,5 @@
 import numpy as np
+from tftb.utils import float_samples
 
 
 def locfreq(signal):
@@ -75,6 +76,7 @@ def inst_freq(x, t=None, L=1):
     else:
         t = np.arange(2, len(x))
 
+    x = float_samples(x)
     fnorm = 0.5 * (np.angle(-x[t] * np.conj(x[t - 2])) + np.pi) / (2 * np.pi)
     return fnorm, t
 
diff --git a/tftb/processing/reassigned.py b/tftb/processing/reassigned.py
index 9306250..fc83180 100644
--- a/tftb/processing/reassigned.py
+++ b/tftb/processing/reassigned.py
@@ -11,6 +11,7 @@
 import numpy as np
 from scipy.signal import windows as ssig
 from tftb.processing.utils import derive_window
+from tftb.utils import float_samples
 
 
 def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
@@ -27,6 +28,7 @@ def pseudo_wigner_ville(signal, timestamps=None, n_fbins=None, fwindow=None):
 :return:
 :rtype:
     """
+    signal = float_samples(signal)
     xrow = signal.shape[0]
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
@@ -107,6 +109,7 @@ def pseudo_margenau_hill(signal, timestamps=None, n_fbins=None, fwindow=None):
 :return:
 :rtype:
     """
+    signal = float_samples(signal)
     xrow = signal.shape[0]
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
@@ -182,6 +185,7 @@ def pseudo_page(signal, timestamps=None, n_fbins=None, fwindow=None):
 :return:
 :rtype:
     """
+    signal = float_samples(signal)
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
     if n_fbins is None:
@@ -255,6 +259,7 @@ def morlet_scalogram(signal, timestamps=None, n_fbins=None, tbp=0.25):
 :return:
 :rtype:
     """
+    signal = float_samples(signal)
     xrow = signal.shape[0]
     if timestamps is None:
         timestamps = np.arange(signal.shape[0])
@@ -371,6 +376,7 @@ def smoothed_pseudo_wigner_ville(signal, timestamps=None, n_fbins=None,
     :return:
     :rtype:
     """
+    signal = float_samples(signal)
     xrow = signal.shape[0]
 
     if timestamps is None:
@@ -479,6 +485,7 @@ def spectrogram(signal, time_samples=None, n_fbins=None, window=None):
         vectors
     :rtype: tuple(array-like)
     """
+    signal = float_samples(signal)
     if time_samples is None:
         time_samples = np.arange(signal.shape[0])
     elif np.unique(np.diff(time_samples)).shape[0] > 1:
diff --git a/tftb/processing/time_domain.py b/tftb/processing/time_domain.py
index b6afb1d..28bf990 100644
--- a/tftb/processing/time_domain.py
+++ b/tftb/processing/time_domain.py
@@ -1,4 +1,5 @@
 import numpy as np
+from tftb.utils import float_samples
 
 
 def loctime(sig):
@@ -23,7 +24,7 @@ def loctime(sig):
             raise TypeError
         else:
             sig = sig.ravel()
-    sig2 = np.abs(sig**2)
+    sig2 = np.abs(float_samples(sig)**2)
     sig2 = sig2 / sig2.mean()
     t = np.arange(len(sig))
     tm = np.mean(t * sig2)
diff --git a/tftb/utils.py b/tftb/utils.py
index 1ac21f2..109e74d 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -30,6 +30,11 @@ def is_linear(x, decimals=5):
     return np.unique(derivative).shape[0] == 1
 
 
+def float_samples(x):
+    """Return integer samples as floats, so that their products cannot overflow."""
+    return x.astype(float) if x.dtype.kind in "biu" else x
+
+
 def izak(x):
     """Inverse Zak transform."""
     if x.ndim != 2:
-- 
2.43.0


From eaa2a4a0219d682b2172dfe7ff20409160b65ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:06:34 +0000
Subject: [PATCH 71/87] fix: differences of small integers wrapped in is_linear
 and derive_window

is_linear(np.array([0, 128, 0], dtype=np.uint8)) was True.
---
 tftb/processing/utils.py | 2 ++
 tftb/utils.py            | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/tftb/processing/utils.py b/tftb/processing/utils.py
index ac2a7e5..66e864d 100644
--- a/tftb/processing/utils.py
+++ b/tftb/processing/utils.py
@@ -9,6 +9,7 @@
 """Miscellaneous processing utilities."""
 
 import numpy as np
+from tftb.utils import float_samples
 
 
 def get_spectrum(signal):
@@ -65,6 +66,7 @@ def derive_window(window):
 
     .. plot:: docstring_plots/processing/utils/derive_window.py
     """
+    window = float_samples(window)
     lh = (window.shape[0] - 1) / 2.0
     step_height = (window[0] + window[-1]) / 2.0
     ramp = (window[-1] - window[0]) / max(window.shape[0] - 1, 1)
diff --git a/tftb/utils.py b/tftb/utils.py
index 109e74d..fc8639c 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -25,7 +25,7 @@ def is_linear(x, decimals=5):
     >>> is_linear(np.sin(x))
     False
     """
-    derivative = np.diff(x)
+    derivative = np.diff(float_samples(np.asarray(x)))
     derivative = np.around(derivative, decimals)
     return np.unique(derivative).shape[0] == 1
 
-- 
2.43.0


From 694d4c255651709cc73c00ed6607f66e6a204874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:20 +0000
Subject: [PATCH 72/87] fix: affine distributions and scalograms at decreasing
 instants were negated

---
 tftb/processing/affine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 4c94833..6c1abfc 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -146,7 +146,7 @@ class AffineDistribution(BaseTFRepresentation):
             multiplier = np.linalg.norm(sp1_ana) ** 2
         else:
             multiplier = np.dot(sp1_ana, sp2_ana)
-        tfr = tfr * multiplier / integrate_2d(tfr, t, f) / self.n_voices
+        tfr = tfr * multiplier / integrate_2d(tfr, np.sort(t), f) / self.n_voices
         self.tfr = tfr
         return tfr, t, f
 
@@ -250,7 +250,7 @@ class Scalogram(AffineDistribution):
         indmax = 1 + int(np.round(self.fmax * (self.signal.shape[0] - 2)))
         SPana = SP[(indmin - 1): indmax]
         self.tfr = np.real(self.tfr)
-        self.tfr *= (np.linalg.norm(SPana) ** 2) / integrate_2d(self.tfr, self.ts, f)
+        self.tfr *= (np.linalg.norm(SPana) ** 2) / integrate_2d(self.tfr, np.sort(self.ts), f)
         self.tfr /= self.n_voices
         self.freqs = f
         return self.tfr, self.ts, f, wt
@@ -340,7 +340,7 @@ class UnterbergerDistribution(AffineDistribution):
         else:
             multiplier = np.dot(sp1_ana, sp2_ana)
 
-        tfr = tfr * multiplier / integrate_2d(tfr, t, f) / self.n_voices
+        tfr = tfr * multiplier / integrate_2d(tfr, np.sort(t), f) / self.n_voices
         self.tfr = tfr
         return tfr, t, f
 
-- 
2.43.0


From b84e7762f12c2e2c0abfb3f504b790c92cccb97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:23 +0000
Subject: [PATCH 73/87] fix: renyi_information of a distribution at decreasing
 instants was nan

---
 tftb/processing/postprocessing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index 58946f7..a7521f3 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -90,6 +90,7 @@ def renyi_information(tfr, timestamps=None, freq=None, alpha=3.0):
         timestamps = timestamps + 1
     if freq is None:
         freq = np.arange(m)
+    timestamps = np.sort(timestamps)
     freq = np.sort(freq)
     tfr = tfr / integrate_2d(tfr, timestamps, freq)
     if alpha == 1:
-- 
2.43.0


From d99c0d1c453a80d2633e69a0df76e40a6baa550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:18 +0000
Subject: [PATCH 74/87] fix: affine distributions of very large or small
 signals overflowed or vanished

---
 tftb/processing/affine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index 6c1abfc..ba722b7 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -146,7 +146,7 @@ class AffineDistribution(BaseTFRepresentation):
             multiplier = np.linalg.norm(sp1_ana) ** 2
         else:
             multiplier = np.dot(sp1_ana, sp2_ana)
-        tfr = tfr * multiplier / integrate_2d(tfr, np.sort(t), f) / self.n_voices
+        tfr = tfr * (multiplier / integrate_2d(tfr, np.sort(t), f)) / self.n_voices
         self.tfr = tfr
         return tfr, t, f
 
@@ -340,7 +340,7 @@ class UnterbergerDistribution(AffineDistribution):
         else:
             multiplier = np.dot(sp1_ana, sp2_ana)
 
-        tfr = tfr * multiplier / integrate_2d(tfr, np.sort(t), f) / self.n_voices
+        tfr = tfr * (multiplier / integrate_2d(tfr, np.sort(t), f)) / self.n_voices
         self.tfr = tfr
         return tfr, t, f
 
-- 
2.43.0


From ff1d7d0386c11177aff7d25315e42fa148608017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:03 +0000
Subject: [PATCH 75/87] fix: Scalogram with a Morlet wavelet shorter than one
 sample raised IndexError

---
 tftb/processing/affine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/affine.py b/tftb/processing/affine.py
index ba722b7..55e1607 100644
--- a/tftb/processing/affine.py
+++ b/tftb/processing/affine.py
@@ -192,7 +192,7 @@ class Scalogram(AffineDistribution):
                 detail = np.convolve(self.z, ha) / np.sqrt(a[ptr])
                 ix = np.arange(
                     int(np.round(nha)),
-                    detail.shape[0] - int(np.round(nha)) + 1,
+                    detail.shape[0] - int(np.round(nha)),
                     dtype=int,
                 )
                 detail = detail[ix]
-- 
2.43.0


From ce1d49d69d6ce0cf90ae63f920a5c59c88463cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:26 +0000
Subject: [PATCH 76/87] fix: gabor returned a wrong dual window for windows of
 small amplitude

---
 tftb/processing/linear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 740d1b4..4bf72fd 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -148,7 +148,7 @@ def gabor(signal, n_coeff=None, q_oversample=None, window=None):
         mod = modulo(x - l * nb, n_coeff).astype(int)
         mzh += np.abs(dzth[mod - 1, :]) ** 2
 
-    mzh[mzh < np.spacing(1)] = 1
+    mzh[mzh <= np.spacing(1) * mzh.max()] = 1
 
     # Za transform of biorthogonal dual frame window gam
     dztgam = dzth / mzh
-- 
2.43.0


From d7085bea87b2bd875bc68bdddfd638f1392dab76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:31 +0000
Subject: [PATCH 77/87] fix: fmsin starting at the edge of its band could be
 nan throughout

---
 tftb/generators/frequency_modulated.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tftb/generators/frequency_modulated.py b/tftb/generators/frequency_modulated.py
index 891f4a3..fe93710 100644
--- a/tftb/generators/frequency_modulated.py
+++ b/tftb/generators/frequency_modulated.py
@@ -250,7 +250,11 @@ def fmsin(n_points, fnormin=0.05, fnormax=0.45, period=None, t0=None,
 
     fnormid = 0.5 * (fnormax + fnormin)
     delta = 0.5 * (fnormax - fnormin)
-    phi = -pm1 * np.arccos((fnorm0 - fnormid) / delta)
+    cosphi = (fnorm0 - fnormid) / delta
+    if fnormin <= fnorm0 <= fnormax:
+        # at the ends of the band the quotient may round to just beyond one
+        cosphi = np.clip(cosphi, -1.0, 1.0)
+    phi = -pm1 * np.arccos(cosphi)
     t = np.arange(n_points) - t0
     phase = 2 * pi * fnormid * t + delta * period * (np.sin(2 * pi * t / period + phi) -
                                                       np.sin(phi))
-- 
2.43.0


From 6972f4a1256c7a17ceec0db87ccdc779c156cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:59 +0000
Subject: [PATCH 78/87] fix: renyi_information of high order was dominated by a
 rounding guard

---
 tftb/processing/postprocessing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/postprocessing.py b/tftb/processing/postprocessing.py
index a7521f3..f9a4185 100644
--- a/tftb/processing/postprocessing.py
+++ b/tftb/processing/postprocessing.py
@@ -94,10 +94,11 @@ def renyi_information(tfr, timestamps=None, freq=None, alpha=3.0):
     freq = np.sort(freq)
     tfr = tfr / integrate_2d(tfr, timestamps, freq)
     if alpha == 1:
-        R = -integrate_2d(tfr * np.log2(tfr + np.spacing(1)), timestamps, freq)
+        R = -integrate_2d(tfr * np.log2(np.where(tfr > 0, tfr, 1)), timestamps, freq)
     else:
-        R = np.log2(integrate_2d(tfr ** alpha, timestamps, freq) + np.spacing(1))
-        R = R / (1 - alpha)
+        peak = np.abs(tfr).max()
+        R = np.log2(integrate_2d((tfr / peak) ** alpha, timestamps, freq) + np.spacing(1))
+        R = (R + alpha * np.log2(peak)) / (1 - alpha)
     return R
 
 
-- 
2.43.0


From e9e2cd9d370f4b8fed69f95d187d43a8a27cb00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:25 +0000
Subject: [PATCH 79/87] fix: nextpow2 raised TypeError for arrays

---
 tftb/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tftb/utils.py b/tftb/utils.py
index fc8639c..c53f4f0 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -60,6 +60,8 @@ def nextpow2(n):
     >>> print(nextpow2(x))
     [ 0.  1.  2.  2.  3.  3.  3.  3.]
     """
+    if np.ndim(n) > 0:
+        return np.ceil(np.log2(n))
     return math.ceil(math.log2(n))
 
 
-- 
2.43.0


From 5f5c319fd82a4d76cf242e82d8d16b67fd81edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:28 +0000
Subject: [PATCH 80/87] fix: nearest_odd raised TypeError for sequences other
 than lists and arrays

---
 tftb/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tftb/utils.py b/tftb/utils.py
index c53f4f0..89b4e89 100644
--- a/tftb/utils.py
+++ b/tftb/utils.py
@@ -110,7 +110,7 @@ def nearest_odd(N):
     >>> nearest_odd(3)
     3.0
     """
-    if isinstance(N, (list, np.ndarray)):
+    if np.ndim(N) > 0:
         y = np.floor(N)
         y[np.remainder(y, 2) == 0] += 1
         return y.astype(int)
-- 
2.43.0


From 0d455fcc467d6b15abfd8fe63c303c257438d690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:09 +0000
Subject: [PATCH 81/87] fix: surface and wireframe plots failed unless the
 representation was N by N

---
 tftb/processing/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tftb/processing/base.py b/tftb/processing/base.py
index 888a9b4..45f73e8 100644
--- a/tftb/processing/base.py
+++ b/tftb/processing/base.py
@@ -220,8 +220,8 @@ class BaseTFRepresentation(object):
             elif kind == "surf":
                 from mpl_toolkits.mplot3d import Axes3D
                 ax = ax or fig.add_subplot(projection="3d")
-                x = np.arange(self.signal.shape[0])
-                y = np.linspace(0, 0.5, self.signal.shape[0])
+                x = self.ts if contour_x is None else contour_x
+                y = np.linspace(0, 0.5, self.tfr.shape[0]) if contour_y is None else contour_y
                 X, Y = np.meshgrid(x, y)
                 ax.plot_surface(X, Y, np.abs(self.tfr), cmap=plt.cm.jet)
                 if default_annotation:
@@ -229,8 +229,8 @@ class BaseTFRepresentation(object):
             elif kind == "wireframe":
                 from mpl_toolkits.mplot3d import Axes3D  # NOQA
                 ax = ax or fig.add_subplot(projection="3d")
-                x = np.arange(self.signal.shape[0])
-                y = np.linspace(0, 0.5, self.signal.shape[0])
+                x = self.ts if contour_x is None else contour_x
+                y = np.linspace(0, 0.5, self.tfr.shape[0]) if contour_y is None else contour_y
                 X, Y = np.meshgrid(x, y)
                 ax.plot_wireframe(X, Y, np.abs(self.tfr), cmap=plt.cm.jet,
                                   rstride=3, cstride=3)
-- 
2.43.0


From 218f28c63d2110857e38015dd9599b2bda8cf80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:16 +0000
Subject: [PATCH 82/87] fix: Margenau-Hill plots raised TypeError when given an
 extent

---
 tftb/processing/cohen.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 36e4326..e078297 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -120,8 +120,9 @@ class MargenauHillDistribution(BaseTFRepresentation):
             self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
-        extent = [0, self.ts.max(), 0, 0.5]
-        super(MargenauHillDistribution, self).plot(kind=kind, extent=extent, **kwargs)
+        if kwargs.get('extent') is None:
+            kwargs['extent'] = [0, self.ts.max(), 0, 0.5]
+        super(MargenauHillDistribution, self).plot(kind=kind, **kwargs)
 
 
 class PseudoMargenauHillDistribution(MargenauHillDistribution):
-- 
2.43.0


From 10e1e13d4ba4f4c75cc8e552b7fb122cefbe16c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:29 +0000
Subject: [PATCH 83/87] fix: plotting an STFT without squaring raised TypeError
 on its complex values

---
 tftb/processing/linear.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tftb/processing/linear.py b/tftb/processing/linear.py
index 4bf72fd..8798ec6 100644
--- a/tftb/processing/linear.py
+++ b/tftb/processing/linear.py
@@ -96,8 +96,9 @@ class ShortTimeFourierTransform(BaseTFRepresentation):
         """
         self.tfr = self.tfr[:int(self.n_fbins / 2.0), :]
         self.freqs = self.freqs[:int(self.n_fbins / 2.0)]
+        self.tfr = np.abs(self.tfr)
         if sqmod:
-            self.tfr = np.abs(self.tfr) ** 2
+            self.tfr = self.tfr ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
         super(ShortTimeFourierTransform, self).plot(ax=ax, kind=kind,
-- 
2.43.0


From 1276ce1e227597a67e95abb94cda1ec462f0dc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:38 +0000
Subject: [PATCH 84/87] fix: the Page distribution was off by one lag and
 depended on the future of the signal

---
 tftb/processing/cohen.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index e078297..60f3648 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -54,11 +54,10 @@ class PageRepresentation(BaseTFRepresentation):
         self.tfr = self._empty_tfr()
         for icol in range(self.ts.shape[0]):
             ti = self.ts[icol]
-            tau = np.arange(-min([self.n_fbins - ti,
-                                  self.signal.shape[0] - ti]), ti)
+            tau = np.arange(min([self.n_fbins - 1, ti]) + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = np.dot(self.signal[ti],
-                                             np.conj(self.signal[ti - tau - 1]))
+                                             np.conj(self.signal[ti - tau]))
         self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
 
-- 
2.43.0


From 7f968e48946257b3c4ce6441010ab2ad9515a048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:41 +0000
Subject: [PATCH 85/87] fix: plotting the Page distribution raised TypeError

---
 tftb/processing/cohen.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 60f3648..b4dfc4e 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -63,8 +63,10 @@ class PageRepresentation(BaseTFRepresentation):
 
     @draws_copy
     def plot(self, kind='cmap', threshold=0.05, sqmod=True, **kwargs):
-        self.tfr = self.tfr[:(self.tfr.shape[0] / 2), :]
-        self.tfr = np.abs(self.tfr) ** 2
+        self.tfr = self.tfr[:(self.tfr.shape[0] // 2), :]
+        self.freqs = self.freqs[:self.tfr.shape[0]]
+        if sqmod:
+            self.tfr = np.abs(self.tfr) ** 2
         _threshold = np.amax(self.tfr) * threshold
         self.tfr[self.tfr <= _threshold] = 0.0
         super(PageRepresentation, self).plot(kind=kind, **kwargs)
-- 
2.43.0


From 6838cd87f794ca7d0ce5928459e6b86441ef1e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:44 +0000
Subject: [PATCH 86/87] fix: the pseudo Page distribution raised IndexError

---
 tftb/processing/cohen.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index b4dfc4e..2849cd1 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -82,17 +82,18 @@ class PseudoPageRepresentation(PageRepresentation):
             hlength += 1
         from scipy.signal.windows import hamming
         fwindow = hamming(hlength)
-        lh = (fwindow.shape[0] - 1) / 2
+        lh = (fwindow.shape[0] - 1) // 2
         return fwindow / fwindow[lh]
 
     def run(self):
         self.tfr = self._empty_tfr()
-        lh = (self.fwindow.shape[0] - 1) / 2
+        lh = (self.fwindow.shape[0] - 1) // 2
         for icol in range(self.ts.shape[0]):
-            tau = np.arange(min([self.n_fbins - 1, lh, icol - 1]) + 1)
-            indices = np.remainder(self.n_fbins + tau, self.n_fbins) + 1
+            ti = self.ts[icol]
+            tau = np.arange(min([self.n_fbins - 1, lh, ti]) + 1)
+            indices = np.remainder(self.n_fbins + tau, self.n_fbins)
             self.tfr[indices, icol] = self.fwindow[lh + tau] * \
-                self.signal[icol] * np.conj(self.signal[icol - tau])
+                self.signal[ti] * np.conj(self.signal[ti - tau])
         self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
 
-- 
2.43.0


From 75987a2b5615fc3e9821afe8e9aa345818ea4748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:46 +0000
Subject: [PATCH 87/87] fix: the pseudo Margenau-Hill distribution was off by
 one lag, complex, and failed on long windows

---
 tftb/processing/cohen.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tftb/processing/cohen.py b/tftb/processing/cohen.py
index 2849cd1..97644a1 100644
--- a/tftb/processing/cohen.py
+++ b/tftb/processing/cohen.py
@@ -145,13 +145,14 @@ class PseudoMargenauHillDistribution(MargenauHillDistribution):
         lh = (self.fwindow.shape[0] - 1) // 2
         xrow = self.signal.shape[0]
         for icol in range(self.ts.shape[0]):
-            start = min([np.round(self.n_fbins / 2.0) - 1, lh, xrow - icol])
-            end = min([np.round(self.n_fbins / 2.0) - 1, lh, icol - 1])
+            ti = self.ts[icol]
+            start = min([(self.n_fbins - 1) // 2, lh, xrow - ti - 1])
+            end = min([(self.n_fbins - 1) // 2, lh, ti])
             tau = np.arange(-start, end + 1)
             indices = np.remainder(self.n_fbins + tau, self.n_fbins)
-            self.tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[icol] * \
-                np.conj(self.signal[icol - tau - 1])
-        self.tfr = np.fft.fft(self.tfr, axis=0)
+            self.tfr[indices, icol] = self.fwindow[lh + tau] * self.signal[ti] * \
+                np.conj(self.signal[ti - tau])
+        self.tfr = np.real(np.fft.fft(self.tfr, axis=0))
         return self.tfr, self.ts, self.freqs
 
 
-- 
2.43.0

