From a56cf00f1ee5cfaa60650c6729d9a3e970c1ef26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 01/14] fix: disper raised UnboundLocalError for deep (h=inf)
 and shallow (h<0) water

---
 deltares_wave_toolbox/cores/core_dispersion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_dispersion.py b/deltares_wave_toolbox/cores/core_dispersion.py
index c03a5f7..02575ab 100644
--- a/deltares_wave_toolbox/cores/core_dispersion.py
+++ b/deltares_wave_toolbox/cores/core_dispersion.py
@@ -81,7 +81,7 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
             arg[iq] = -c[iq] / b[iq]
             q = q + arg
 
-    k = np.sign(w) * q / h
+        k = np.sign(w) * q / h
 
     ik = np.isnan(k)
     k[ik] = np.zeros(np.size(k[ik]))
-- 
2.43.0


From 6ad549cf0c88c71a9b60c570495021f269a92e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 02/14] fix: disper returned one fixed wave number for all very
 long waves

---
 deltares_wave_toolbox/cores/core_dispersion.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_dispersion.py b/deltares_wave_toolbox/cores/core_dispersion.py
index 02575ab..8663c08 100644
--- a/deltares_wave_toolbox/cores/core_dispersion.py
+++ b/deltares_wave_toolbox/cores/core_dispersion.py
@@ -62,7 +62,9 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
         # --- Standard (nonlinear) dispersion relation for depths 0 < h < inf
         w2 = (w**2) * h / g
 
+        # Very long waves are left out of the iteration; see below
         ielem = np.nonzero(w2 < 1.0e-8)
+        w2long = w2[ielem]
         w2[ielem] = 1e-8
         q = w2 / (1 - np.exp(-(w2 ** (5 / 4)))) ** (2 / 5)
 
@@ -81,6 +83,9 @@ def disper(w: NDArray[float64], h: float, g: float = 9.81):
             arg[iq] = -c[iq] / b[iq]
             q = q + arg
 
+        # Very long waves: expansion of the dispersion relation for small k * h
+        q[ielem] = np.sqrt(w2long) * (1 + w2long / 6)
+
         k = np.sign(w) * q / h
 
     ik = np.isnan(k)
-- 
2.43.0


From e90342a34bb94f0bc75a1dab7faf5536abd60aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 03/14] fix: band filter dropped the highest frequency
 component inside the band

---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 5989527..1dfe11e 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -851,7 +851,7 @@ def applybandfilter(
     elif fhigh >= f[-1]:
         ihigh = Nf
     else:
-        ihigh = np.where(f < fhigh)[0][-1]
+        ihigh = np.where(f < fhigh)[0][-1] + 1
 
     # --- Initialize
     zFreq = np.zeros(len(xFreq)).astype(complex)
-- 
2.43.0


From 4842a5605d0afb0939fdff5a9ad7ad72ce728d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 04/14] fix: axes with steps smaller than the first step passed
 as uniform

---
 deltares_wave_toolbox/cores/core_engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_engine.py b/deltares_wave_toolbox/cores/core_engine.py
index 9bf0937..bcfd2f6 100644
--- a/deltares_wave_toolbox/cores/core_engine.py
+++ b/deltares_wave_toolbox/cores/core_engine.py
@@ -67,7 +67,9 @@ def monotonic_increasing_constant_step(x: ArrayLike) -> bool:
         True when vector is monotonic increasing with constant step size
     """
     xDiff = np.diff(x)
-    isUniform = bool(np.all((xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon))
+    isUniform = bool(
+        np.all(np.abs(xDiff - xDiff[0]) < 1000000 * sys.float_info.epsilon)
+    )
     xMonotonic = bool(np.all(xDiff > 0))
 
     return xMonotonic and isUniform
-- 
2.43.0


From c5060de52879c1590c5f52509d2405cdb06748b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 05/14] fix: sorting waves again reshuffled waves of equal
 height

---
 deltares_wave_toolbox/cores/core_time.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index a706487..cededb2 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -84,9 +84,8 @@ def sort_wave_params(
 
     # Computational core
     # --- Sort the wave height in descending order
-    iSorted = np.argsort(hWave)[
-        ::-1
-    ]  # term [::-1] reverses the array, meaning descending order.
+    #     (stable, such that waves of equal height keep their order)
+    iSorted = np.argsort(-hWave, kind="stable")
     hWaveSorted = hWave[iSorted]
     # --- Sort the wave periods
     tWaveSorted = tWave[iSorted]
-- 
2.43.0


From 407bfefe63e27fd197ddce8db9fdbba0dcf23b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 06/14] fix: wave statistics of a record without waves raised
 instead of returning zero

---
 deltares_wave_toolbox/cores/core_time.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_time.py b/deltares_wave_toolbox/cores/core_time.py
index cededb2..ef6a04d 100644
--- a/deltares_wave_toolbox/cores/core_time.py
+++ b/deltares_wave_toolbox/cores/core_time.py
@@ -58,11 +58,11 @@ def sort_wave_params(
 
     # Check on input arguments
     # --- Check whether the size of the input arguments is identical
-    is1d_array = core_engine.is1darray(hWave)
+    is1d_array = core_engine.is1darray(hWave) or hWave.size == 0
     if not is1d_array:
         raise ValueError("sort_wave_params: Input error, Input arrays hWave is not 1D")
 
-    is1d_array = core_engine.is1darray(tWave)
+    is1d_array = core_engine.is1darray(tWave) or tWave.size == 0
     if not is1d_array:
         raise ValueError("sort_wave_params: Input error, Input array tWave is not 1D")
 
@@ -260,13 +260,13 @@ def highest_waves_params(
     tWaveSorted = core_engine.convert_to_array_type(tWaveSorted)
 
     # Perform checks on the input arguments
-    is1d_array = core_engine.is1darray(hWaveSorted)
+    is1d_array = core_engine.is1darray(hWaveSorted) or hWaveSorted.size == 0
     if not is1d_array:
         raise ValueError(
             "highest_waves_params: Input error: Input arrays hWaveSorted is not 1D"
         )
 
-    is1d_array = core_engine.is1darray(tWaveSorted)
+    is1d_array = core_engine.is1darray(tWaveSorted) or tWaveSorted.size == 0
     if not is1d_array:
         raise ValueError(
             "highest_waves_params: Input error: Input arrays tWaveSorted is not 1D"
@@ -349,7 +349,7 @@ def exceedance_wave_height(hWaveSorted: NDArray[float64], excPerc: float) -> flo
     hWaveSorted = core_engine.convert_to_array_type(hWaveSorted)
 
     # Perform checks on the input arguments
-    is1d_array = core_engine.is1darray(hWaveSorted)
+    is1d_array = core_engine.is1darray(hWaveSorted) or hWaveSorted.size == 0
     if not is1d_array:
         raise ValueError(
             "exceedance_wave_height: Input error: Input arrays hWaveSorted is not 1D"
-- 
2.43.0


From 44d1ebea42fd797aea6b8501bb086fb4abda943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 07/14] fix: compute_moment ignored a frequency limit when the
 other one was omitted

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index b284fcb..c2b1541 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -237,6 +237,12 @@ def compute_moment(
     # --- Compute the integrand, that is the product of f^m * S
     integrand = freq ** (m) * spec
 
+    # --- When one of the limits is omitted, integrate up to that end of the frequency axis
+    if fmin == -1.0 and fmax != -1.0:
+        fmin = f[0]
+    elif fmax == -1.0 and fmin != -1.0:
+        fmax = f[-1]
+
     # --- Depending on number of input arguments, compute the moment integral
     if fmin == -1.0 or fmax == -1.0:  # integrate over all values in freq interval.
         moment = integrate.simpson(integrand, x=freq)
-- 
2.43.0


From a474d32f4d971aed49b245ca6d9d40dde2b5eab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 08/14] fix: smoothed peak period of a peak at the edge was
 extrapolated, even to negative periods

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index c2b1541..49867ce 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -677,11 +677,11 @@ def compute_tps(f: NDArray[float64], sVarDens: NDArray[float64]) -> float:
             a = p[0]
             b = p[1]
             # --- Compute Fps
-            if a < 0.0:
+            if a < 0.0 and ff[0] <= -b / (2 * a) <= ff[2]:
                 Fps = -b / (2 * a)
             else:
                 # Exceptional situation; can only occur if imax=1 or imax=nF
-                Fps = f[imax]
+                Fps = f[imax[0]]
             Tps = 1.0 / Fps
 
         elif nmax == 2:
@@ -717,7 +717,7 @@ def compute_tps(f: NDArray[float64], sVarDens: NDArray[float64]) -> float:
         # --- nF = 2: two points
         if nmax == 1:
             # nmax = 1
-            Tps = 1 / f[imax]
+            Tps = 1 / f[imax[0]]
         else:
             # nmax = 2
             favg = 0.5 * (f[0] + f[1])
-- 
2.43.0


From 14dda9d1e1733859b6b4b2715f9c9cd9ae373ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 09/14] fix: band averages of integer valued spectra were
 truncated

---
 deltares_wave_toolbox/cores/core_spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 1dfe11e..34a60a8 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -79,7 +79,7 @@ def frequency_averaging(
 
     # --- Initialize arrays
     f_coarse = np.zeros(len(f[0:nCoarse]))
-    sVarDens_coarse = np.zeros(len(f_coarse), dtype=type(sVarDens[0]))
+    sVarDens_coarse = np.zeros(len(f_coarse), dtype=np.result_type(sVarDens, float))
 
     # --- Perform the averaging
     for iFreq in np.arange(0, nCoarse):  # before np.arange(0,nCoarse)
-- 
2.43.0


From 006cb123f36ee9fe0ad5f1d0dad6075473cbe853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 10/14] fix: spectrum2timeseries failed for a spectrum given as
 column vector

---
 deltares_wave_toolbox/cores/core_spectral.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_spectral.py b/deltares_wave_toolbox/cores/core_spectral.py
index 34a60a8..d75bf66 100644
--- a/deltares_wave_toolbox/cores/core_spectral.py
+++ b/deltares_wave_toolbox/cores/core_spectral.py
@@ -650,14 +650,14 @@ def spectrum2timeseries(
 
     """
     f, fSize = core_engine.convert_to_vector(f)
-    xFreq, xFreqSize = core_engine.convert_to_vector(sVarDens)
+    sVarDens, sVarDensSize = core_engine.convert_to_vector(sVarDens)
 
-    if fSize[1] > 1 or xFreqSize[1] > 1:
+    if fSize[1] > 1 or sVarDensSize[1] > 1:
         raise ValueError(
             "compute_spectrum_freq_series: Input error: input should be 1d arrays"
         )
 
-    if not (fSize[0] == xFreqSize[0]):
+    if not (fSize[0] == sVarDensSize[0]):
         raise ValueError(
             "compute_spectrum_freq_series: Input error: array sizes differ in dimension"
         )
-- 
2.43.0


From 954652fc999cb700ca735132b45dead4513bb85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 11/14] fix: weights outside [0, 1] passed the check of the
 wave decomposition

---
 deltares_wave_toolbox/cores/core_wave_decomposition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/deltares_wave_toolbox/cores/core_wave_decomposition.py b/deltares_wave_toolbox/cores/core_wave_decomposition.py
index e8e4630..b42faeb 100644
--- a/deltares_wave_toolbox/cores/core_wave_decomposition.py
+++ b/deltares_wave_toolbox/cores/core_wave_decomposition.py
@@ -110,7 +110,7 @@ def decompose_linear_ZS(
     ), "ZS: input error: Dimensions of x_loc and t do not correspond."
     # --- Values of w_loc should be between 0 and 1
     assert (
-        min(w_loc) > 0 or max(w_loc) <= 1
+        min(w_loc) >= 0 and max(w_loc) <= 1
     ), "ZS: input error: Values of w_loc must be between 0 and 1."
 
     w_loc_sum = sum(w_loc)
-- 
2.43.0


From 474f02b777a462c2e0d419be4420aa91cf598a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:38 +0000
Subject: [PATCH 12/14] fix: spectrum parameters depended on frequency limits
 of earlier calls

---
 deltares_wave_toolbox/spectrum.py | 30 ++++++++++--------------------
 1 file changed, 10 insertions(+), 20 deletions(-)

diff --git a/deltares_wave_toolbox/spectrum.py b/deltares_wave_toolbox/spectrum.py
index 7edb495..881fca5 100644
--- a/deltares_wave_toolbox/spectrum.py
+++ b/deltares_wave_toolbox/spectrum.py
@@ -120,8 +120,7 @@ class Spectrum:
             Hm0
         """
         if fmin == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
+            self.get_Tmm10()
             fmin = 0.45 / self.Tmm10
 
             warnings.warn(
@@ -156,8 +155,7 @@ class Spectrum:
             Hm0
         """
         if fmax == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
+            self.get_Tmm10()
             fmax = 0.45 / self.Tmm10
 
             warnings.warn(
@@ -270,8 +268,7 @@ class Spectrum:
             Tmm10
         """
         if fmin == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
+            self.get_Tmm10()
             fmin = 0.45 / self.Tmm10
 
             warnings.warn(
@@ -306,8 +303,7 @@ class Spectrum:
             Tmm10
         """
         if fmax == -1.0:
-            if not hasattr(self, "Tmm10"):
-                self.get_Tmm10()
+            self.get_Tmm10()
             fmax = 0.45 / self.Tmm10
 
             warnings.warn(
@@ -383,11 +379,9 @@ class Spectrum:
         float
             s0p
         """
-        if not hasattr(self, "Hm0"):
-            self.get_Hm0(fmin=fmin, fmax=fmax)
+        self.get_Hm0(fmin=fmin, fmax=fmax)
 
-        if not hasattr(self, "Tps"):
-            self.get_Tps(fmin=fmin, fmax=fmax)
+        self.get_Tps(fmin=fmin, fmax=fmax)
 
         self.s0p = 2 * np.pi * self.Hm0 / (g * self.Tps**2)
         return self.s0p
@@ -414,11 +408,9 @@ class Spectrum:
         float
             smm10
         """
-        if not hasattr(self, "Hm0"):
-            self.get_Hm0(fmin=fmin, fmax=fmax)
+        self.get_Hm0(fmin=fmin, fmax=fmax)
 
-        if not hasattr(self, "Tmm10"):
-            self.get_Tmm10(fmin=fmin, fmax=fmax)
+        self.get_Tmm10(fmin=fmin, fmax=fmax)
 
         self.smm10 = 2 * np.pi * self.Hm0 / (g * self.Tmm10**2)
         return self.smm10
@@ -446,11 +438,9 @@ class Spectrum:
         float
             smm10_HF
         """
-        if not hasattr(self, "Hm0_HF"):
-            self.get_Hm0_HF(fmin=fmin, fmax=fmax)
+        self.get_Hm0_HF(fmin=fmin, fmax=fmax)
 
-        if not hasattr(self, "Tmm10_HF"):
-            self.get_Tmm10_HF(fmin=fmin, fmax=fmax)
+        self.get_Tmm10_HF(fmin=fmin, fmax=fmax)
 
         self.smm10_HF = 2 * np.pi * self.Hm0_HF / (g * self.Tmm10_HF**2)
         return self.smm10_HF
-- 
2.43.0


From d9366cb82d048b7c9a6be46f0f4785f139c206c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:40 +0000
Subject: [PATCH 13/14] fix: moment of an axis starting at -1.0 lost the
 requested tail

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index 49867ce..a6d31c2 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -237,17 +237,15 @@ def compute_moment(
     # --- Compute the integrand, that is the product of f^m * S
     integrand = freq ** (m) * spec
 
-    # --- When one of the limits is omitted, integrate up to that end of the frequency axis
-    if fmin == -1.0 and fmax != -1.0:
-        fmin = f[0]
-    elif fmax == -1.0 and fmin != -1.0:
-        fmax = f[-1]
-
     # --- Depending on number of input arguments, compute the moment integral
-    if fmin == -1.0 or fmax == -1.0:  # integrate over all values in freq interval.
+    if fmin == -1.0 and fmax == -1.0:  # integrate over all values in freq interval.
         moment = integrate.simpson(integrand, x=freq)
     else:  # integrate over all values in sub interval.
-        # fmin and fmax are given
+        # When one of the limits is omitted, integrate up to that end of the frequency axis
+        if fmin == -1.0:
+            fmin = f[0]
+        if fmax == -1.0:
+            fmax = f[-1]
         fminn = fmin
         if m < 0 and f[0] == 0:
             if fmin == 0:
-- 
2.43.0


From ae26bce4ed4bb18fe336b7238698ffc255d3d4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:40:22 +0000
Subject: [PATCH 14/14] fix: integer-valued frequency axes failed in moments
 and standard spectra

---
 deltares_wave_toolbox/cores/core_wavefunctions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/deltares_wave_toolbox/cores/core_wavefunctions.py b/deltares_wave_toolbox/cores/core_wavefunctions.py
index a6d31c2..f767a2f 100644
--- a/deltares_wave_toolbox/cores/core_wavefunctions.py
+++ b/deltares_wave_toolbox/cores/core_wavefunctions.py
@@ -213,6 +213,8 @@ def compute_moment(
     # --- Ensure array input is of type ndarray.
     f, fSize = core_engine.convert_to_vector(f)
     sVarDens, SSize = core_engine.convert_to_vector(sVarDens)
+    # integers cannot be raised to a negative power
+    f = f.astype(float)
 
     if fSize[1] > 1 or SSize[1] > 1:
         raise ValueError("compute_moment: Input error: input should be 1d arrays")
@@ -332,6 +334,8 @@ def create_spectrum_jonswap(
     """
     # --- Ensure array input is of type ndarray.
     f, fSize = core_engine.convert_to_vector(f)
+    # integers cannot be raised to a negative power
+    f = f.astype(float)
 
     nf = fSize[0]
 
-- 
2.43.0

