From 725a7a70ef260f3b77491d9a5952041c52f5cdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 01/37] fix: accept the documented 20-element MRLA preset

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 6d19a23..f9b5d4f 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -680,7 +680,7 @@ class MinimumRedundancyLinearArray(GridBasedArrayDesign):
     """
 
     def __init__(self, n, d0, name=None, **kwargs):
-        if n < 1 or n >= len(_MRLA_PRESETS):
+        if n < 1 or n > len(_MRLA_PRESETS):
             raise ValueError('The MRLA presets only support up to 20 elements.')
         if name is None:
             name = 'MRLA {0}'.format(n)
-- 
2.43.0


From a11bccfeee8c0d9cb66d70d3ba2b1dc4fd3d2c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 02/37] fix: pass perturbations and element on to the base
 class in UniformCircularArray

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index f9b5d4f..612ced0 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -704,7 +704,7 @@ class UniformCircularArray(ArrayDesign):
         self._r = r
         theta = np.linspace(0., np.pi * (2.0 - 2.0 / n), n)
         locations = np.vstack((r * np.cos(theta), r * np.sin(theta))).T
-        super().__init__(locations, name)
+        super().__init__(locations, name, **kwargs)
 
     @property
     def radius(self):
-- 
2.43.0


From 91039c903e024c69e17f6d1cbdb0f5330b92cdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 03/37] fix: accept lists in GainErrors and PhaseErrors

---
 doatools/model/perturbations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 627b9d3..c795762 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -176,7 +176,7 @@ class GainErrors(ArrayPerturbation):
     """
     def __init__(self, gain_errors, known=False):
         if not isinstance(gain_errors, np.ndarray):
-            gain_erros = np.array(gain_errors)
+            gain_errors = np.array(gain_errors)
         if gain_errors.ndim != 1:
             raise ValueError('Expecting a vector.')
         super().__init__(gain_errors, known)
@@ -232,7 +232,7 @@ class PhaseErrors(ArrayPerturbation):
     """
     def __init__(self, phase_errors, known=False):
         if not isinstance(phase_errors, np.ndarray):
-            gain_erros = np.array(phase_errors)
+            phase_errors = np.array(phase_errors)
         if phase_errors.ndim != 1:
             raise ValueError('Expecting a vector.')
         super().__init__(phase_errors, known)
-- 
2.43.0


From aa029bf08fcc2a20a4887f34a402303c0aaefa61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 04/37] fix: reject non-square mutual coupling matrices

---
 doatools/model/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index c795762..92a8b65 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -290,7 +290,7 @@ class MutualCoupling(ArrayPerturbation):
     def __init__(self, C, known=False):
         if not isinstance(C, np.ndarray):
             C = np.array(C)
-        if C.ndim != 2 and C.shape[0] != C.shape[1]:
+        if C.ndim != 2 or C.shape[0] != C.shape[1]:
             raise ValueError('Expecting a square matrix.')
         super().__init__(C, known)
 
-- 
2.43.0


From e3c5ebef4544521a49876b98956ff841deaa73e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 05/37] fix: raise the intended ValueError for out-of-range 1D
 source locations

---
 doatools/model/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 8e619a6..06a451b 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -197,8 +197,8 @@ class FarField1DSourcePlacement(SourcePlacement):
         lb, ub = FarField1DSourcePlacement.VALID_RANGES[unit]
         if np.any(locations < lb) or np.any(locations > ub):
             raise ValueError(
-                "When unit is '{0}', source locations must be within [{0}, {1}]."
-                .format_map(unit, lb, ub)
+                "When unit is '{0}', source locations must be within [{1}, {2}]."
+                .format(unit, lb, ub)
             )
         super().__init__(locations, (unit,))
 
-- 
2.43.0


From 00a13220138bdc237cc42dfc83006931abc163b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 06/37] fix: apply location errors to arrays with integer-typed
 locations

---
 doatools/model/perturbations.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index 92a8b65..d331557 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -154,13 +154,15 @@ class LocationErrors(ArrayPerturbation):
         if loc_err_dim <= array_dim:
             # It is possible that the location errors only exist along the
             # first one or two axis.
-            perturbed_locations = locations.copy()
+            perturbed_locations = locations.astype(
+                np.result_type(locations, self._params))
             perturbed_locations[:, :loc_err_dim] += self._params
         else:
             # Actual dimension is higher. For instance, this can happen if a
             # linear array, which is 1D, has location errors along both
             # x- and y-axis.
-            perturbed_locations = self._params.copy()
+            perturbed_locations = self._params.astype(
+                np.result_type(locations, self._params))
             perturbed_locations[:, :array_dim] += locations
         return perturbed_locations
 
-- 
2.43.0


From 1cd5236d39fb362428644f4d44a86f300f4da6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 07/37] fix: return the documented tuple from
 ArrayPerturbation.is_applicable_to

---
 doatools/model/perturbations.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/perturbations.py b/doatools/model/perturbations.py
index d331557..352b7e5 100644
--- a/doatools/model/perturbations.py
+++ b/doatools/model/perturbations.py
@@ -41,7 +41,7 @@ class ArrayPerturbation:
             applicable. The second element is a string describing why this
             perturbation is not applicable.
         """
-        return True
+        return True, ''
 
     def perturb_sensor_locations(self, locations):
         """Perturbs the given sensor locations.
-- 
2.43.0


From f732d75f0f675032269dc15554c8e3cc168b0361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 08/37] fix: store integer source locations as floating point
 numbers

---
 doatools/model/sources.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/doatools/model/sources.py b/doatools/model/sources.py
index 06a451b..34db40e 100644
--- a/doatools/model/sources.py
+++ b/doatools/model/sources.py
@@ -17,6 +17,10 @@ class SourcePlacement(ABC):
     """
 
     def __init__(self, locations, units):
+        if not np.issubdtype(locations.dtype, np.inexact):
+            # Source locations are real numbers. Keeping an integer dtype would
+            # silently truncate refined or estimated locations.
+            locations = locations.astype(np.float_)
         self._locations = locations
         self._units = units
 
-- 
2.43.0


From b39ba66bd38c26a0b60d740c9f1ccc3c0e6da5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 09/37] fix: account for vector sensors in
 ArrayDesign.output_size

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index 612ced0..b1d2b3b 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -105,7 +105,7 @@ class ArrayDesign:
         In generate, the output size should be equal to ``size``. However, for
         vector sensor arrays, the output size is greater than the array size.
         """
-        return self.size
+        return self.size * self._element.output_size
     
     @property
     def element_locations(self):
-- 
2.43.0


From 473bf86c98885f369b697e8a46ad976b94d20805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:24 +0000
Subject: [PATCH 10/37] fix: do not hand out the internal location array from
 actual_element_locations

---
 doatools/model/arrays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/arrays.py b/doatools/model/arrays.py
index b1d2b3b..8f4f18f 100644
--- a/doatools/model/arrays.py
+++ b/doatools/model/arrays.py
@@ -128,7 +128,7 @@ class ArrayDesign:
             1. number of dimensions of the nominal array;
             2. number of dimensions of the sensor location errors.
         """
-        locations = self._locations
+        locations = self._locations.copy()
         for p in self._perturbations.values():
             locations = p.perturb_sensor_locations(locations)
         return locations
-- 
2.43.0


From 4b332d864a3b3709cda94299cbf3e1af5c70822c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 11/37] fix: accept scalar amplitudes in RandomPhaseSignal

---
 doatools/model/signals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/model/signals.py b/doatools/model/signals.py
index a2282cd..946d4a0 100644
--- a/doatools/model/signals.py
+++ b/doatools/model/signals.py
@@ -93,7 +93,7 @@ class RandomPhaseSignal(SignalGenerator):
     def __init__(self, dim, amplitudes=1.0):
         self._dim = dim
         if np.isscalar(amplitudes):
-            self._amplitudes = np.full(amplitudes, (dim, 1))
+            self._amplitudes = np.full((dim, 1), amplitudes)
         else:
             if amplitudes.size != dim:
                 raise ValueError("The size of 'amplitudes' does not match the value of 'dim'.")
-- 
2.43.0


From 8cb33f5f082e3250f052facd63f49220953c021e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 12/37] fix: apply ESPRIT row weights to each subarray
 independently

---
 doatools/estimation/esprit.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/esprit.py b/doatools/estimation/esprit.py
index ac70c2b..b863d92 100644
--- a/doatools/estimation/esprit.py
+++ b/doatools/estimation/esprit.py
@@ -121,8 +121,9 @@ class Esprit1D:
         Es2 = Es[displacement:, :]
         # Apply row weights.
         if row_weights is not None:
-            Es1 *= row_weights[:, np.newaxis]
-            Es2 *= row_weights[:, np.newaxis]
+            # Es1 and Es2 are overlapping views. Do not scale them in-place.
+            Es1 = row_weights[:, np.newaxis] * Es1
+            Es2 = row_weights[:, np.newaxis] * Es2
         # Estimate the rotation matrix.
         if formulation == 'tls':
             # Total least-squares
-- 
2.43.0


From 10be1c452fb99e79c80c712410594794b41ea8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 13/37] fix: reject non-square covariance matrices in
 ensure_covariance_size

---
 doatools/estimation/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/core.py b/doatools/estimation/core.py
index 09deb3b..5c94bec 100644
--- a/doatools/estimation/core.py
+++ b/doatools/estimation/core.py
@@ -10,7 +10,7 @@ def ensure_covariance_size(R, array):
     m = array.size
     if R.ndim != 2:
         raise ValueError('Expecting a matrix.')
-    if R.shape[0] != m or R.shape[0] != m:
+    if R.shape[0] != m or R.shape[1] != m:
         raise ValueError(
             'The shape of the covariance matrix does not match the array size.'
             'Expected shape is {0}. Got {1}'
-- 
2.43.0


From 581456d5ef878e9b0291db9587c1828e443a1197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 14/37] fix: build 1D search grids from multiple uniform
 segments

---
 doatools/estimation/grid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index de5e7a2..1cb8797 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -264,10 +264,11 @@ class FarField1DSearchGrid(SearchGrid):
                 locations = np.linspace(start, stop, size, endpoint=False)
             else:
                 n_points = sum(size)
-                locations = np.zeros((n_points, 1))
+                locations = np.zeros((n_points,))
                 offset = 0
                 for k in range(len(start)):
-                    locations[offset:offset+size[k], 0] = np.linspace(start[k], stop[k], size[k], endpoint=False)
+                    locations[offset:offset+size[k]] = np.linspace(start[k], stop[k], size[k], endpoint=False)
+                    offset += size[k]
             super().__init__((locations,), ('DOA',), (unit,))
     
     def _create_source_placement(self):
-- 
2.43.0


From 2ead3b22a9faeae3d901bb2c5c363779d203ff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 15/37] fix: implement create_refined_grid_at in
 NearField2DSearchGrid

---
 doatools/estimation/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index 1cb8797..fc9b092 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -415,7 +415,7 @@ class NearField2DSearchGrid(SearchGrid):
     def _create_source_placement(self):
         return NearField2DSourcePlacement(cartesian(*self._axes))
 
-    def create_refined_grids_at(self, coord, density=10, span=1):
+    def create_refined_grid_at(self, coord, density=10, span=1):
         """Creates a finer search grid for 2D near-field sources.
         
         Args:
-- 
2.43.0


From 6c166ce187764a38ffcb3671fa61fd6c12638243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 16/37] fix: support integer-typed covariance matrices in
 spatial_smooth

---
 doatools/estimation/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/preprocessing.py b/doatools/estimation/preprocessing.py
index d8002b7..befa811 100644
--- a/doatools/estimation/preprocessing.py
+++ b/doatools/estimation/preprocessing.py
@@ -32,7 +32,7 @@ def spatial_smooth(R, l, fb=False):
     Rf = R[:m-l+1, :m-l+1].copy()
     for i in range(1, l):
         Rf += R[i:i+m-l+1, i:i+m-l+1]
-    Rf /= l
+    Rf = Rf / l
     if not fb:
         return Rf
     
-- 
2.43.0


From a49986c7bd9c5b1907bb3691ff456034182d544e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 17/37] fix: use the grid spacing of the array in
 ecov_coarray_music_1d

---
 doatools/performance/mse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/performance/mse.py b/doatools/performance/mse.py
index aece6fa..bdb080c 100644
--- a/doatools/performance/mse.py
+++ b/doatools/performance/mse.py
@@ -133,7 +133,7 @@ def ecov_coarray_music_1d(array, sources, wavelength, p, sigma, n_snapshots=1,
     A = array.steering_matrix(sources, wavelength)
     R_ideal = (A * p) @ A.conj().T + sigma * np.eye(m)
     # Compute virtual array related variable.
-    arr_virtual = UniformLinearArray(m_v, wavelength / 2.0)
+    arr_virtual = UniformLinearArray(m_v, array.d0)
     Av, DAv = arr_virtual.steering_matrix(sources, wavelength, True)
     Rss_ideal = (Av * p) @ Av.conj().T + sigma * np.eye(m_v)
     # Construct the subarray selection matrices.
-- 
2.43.0


From 75b5fc61e1a22a8bff681cb632b4f47606433549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 18/37] fix: show location errors in plot_array and
 plot_coarray

---
 doatools/plotting/plot_array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/doatools/plotting/plot_array.py b/doatools/plotting/plot_array.py
index 325c04e..0591ec3 100644
--- a/doatools/plotting/plot_array.py
+++ b/doatools/plotting/plot_array.py
@@ -3,6 +3,7 @@ import matplotlib.pyplot as plt
 from mpl_toolkits.mplot3d import Axes3D
 import warnings
 from ..model.coarray import compute_unique_location_differences
+from ..model.perturbations import LocationErrors
 
 def _auto_scatter(ax, x, *args, **kwargs):
     """Scatter plots the input points (1D, 2D, or 3D).
@@ -41,7 +42,7 @@ def _fix_3d_aspect(ax):
 
 def _plot_array_impl(array, ax=None, coarray=False, show_location_errors=False):
     """Internal implementation for plotting arrays."""
-    if not array.has_perturbation('location_errors') and show_location_errors:
+    if not array.has_perturbation(LocationErrors) and show_location_errors:
         warnings.warn(
             'The input array does not have location errors.'
             'Visualization of location errors is disabled.'
-- 
2.43.0


From d682762a98363220a1e7535b1ececef18bb5ba3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 19/37] fix: draw 1D spectra on the given axes

---
 doatools/plotting/plot_spectrum.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/doatools/plotting/plot_spectrum.py b/doatools/plotting/plot_spectrum.py
index 2d6829f..3743bde 100644
--- a/doatools/plotting/plot_spectrum.py
+++ b/doatools/plotting/plot_spectrum.py
@@ -92,9 +92,9 @@ def plot_spectrum_1d(sp, grid, ax, estimates=None, ground_truth=None,
             plot_containers.append(container_sp)
         else:
             if use_log_scale:
-                plot_containers.append(plt.semilogy(x, y, '-', label=label, color=color))
+                plot_containers.append(ax.semilogy(x, y, '-', label=label, color=color))
             else:
-                plot_containers.append(plt.plot(x, y, '-', label=label, color=color))
+                plot_containers.append(ax.plot(x, y, '-', label=label, color=color))
     # Plot estimates
     if estimates is not None:
         if estimates.units != grid.units:
@@ -122,7 +122,7 @@ def plot_spectrum_1d(sp, grid, ax, estimates=None, ground_truth=None,
     ax.margins(x=0)
     # Set up y-axis
     if not use_log_scale:
-        ax.set_ylim((0, plt.ylim()[1]))
+        ax.set_ylim((0, ax.get_ylim()[1]))
     ax.set_ylabel('Normalized spectrum')
     # Show the legend.
     if has_legend:
-- 
2.43.0


From 2d76f0e0604cb39c3474ea1ca09742c4f3ddc1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:45 +0000
Subject: [PATCH 20/37] fix: avoid underflow and overflow in the AIC/MDL
 statistic

---
 doatools/estimation/source_number.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/doatools/estimation/source_number.py b/doatools/estimation/source_number.py
index d11dfd8..ac0edf3 100644
--- a/doatools/estimation/source_number.py
+++ b/doatools/estimation/source_number.py
@@ -18,7 +18,9 @@ def ld_stat(l, n_sources, n_snapshots):
     n_sensors = l.size
     diff = n_sensors - n_sources
     l = l[:diff]
-    return n_snapshots * diff * log(np.sum(l) / diff / (np.prod(l)**(1./diff)))
+    # Take the logarithm first. The product of the eigenvalues easily underflows
+    # or overflows.
+    return n_snapshots * diff * (np.log(np.sum(l) / diff) - np.mean(np.log(l)))
 
 def aic(x, n_snapshots):
     """Detects source numbers using AIC.
-- 
2.43.0


From 26f221f664787241910383ba92493d2bfcddb9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 21/37] fix: make SORTE independent of the scale of the
 eigenvalues

---
 doatools/estimation/source_number.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/doatools/estimation/source_number.py b/doatools/estimation/source_number.py
index ac0edf3..31b9b48 100644
--- a/doatools/estimation/source_number.py
+++ b/doatools/estimation/source_number.py
@@ -90,8 +90,11 @@ def sorte(x):
     diffs = x[:-1] - x[1:]
     sigmas = [np.var(diffs[k:]) for k in range(n - 1)]
     s = np.zeros((n - 2,))
+    # Variances at the rounding error level are considered as zeros. The
+    # threshold follows the scale of the eigenvalues.
+    tol = (np.finfo(np.float_).eps * n * np.max(np.abs(x)))**2
     for k in range(n - 2):
-        if np.abs(sigmas[k]) < np.finfo(np.float_).eps:
+        if sigmas[k] <= tol:
             s[k] = np.inf
         else:
             s[k] = sigmas[k + 1] / sigmas[k]
-- 
2.43.0


From 3050ce79d94447e1fab00f51835dedbe656eb8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:31 +0000
Subject: [PATCH 22/37] fix: keep the original grid points when refining axes
 with several segments

---
 doatools/estimation/grid.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/doatools/estimation/grid.py b/doatools/estimation/grid.py
index fc9b092..95eac66 100644
--- a/doatools/estimation/grid.py
+++ b/doatools/estimation/grid.py
@@ -161,10 +161,19 @@ class SearchGrid(ABC):
             # Lower bound and upper bound indices.
             i_lb = max(0, coord[j] - span)
             i_ub = min(self._shape[j] - 1, coord[j] + span)
-            # Convert to actual values.
-            lb = self._axes[j][i_lb]
-            ub = self._axes[j][i_ub]
-            axes.append(np.linspace(lb, ub, (i_ub - i_lb) * density + 1))
+            old_axis = self._axes[j][i_lb:i_ub+1]
+            n_intervals = i_ub - i_lb
+            new_axis = np.linspace(old_axis[0], old_axis[-1],
+                                   n_intervals * density + 1)
+            # The intervals differ in length when the axis combines several
+            # segments. In this case every interval is subdivided separately.
+            if not np.allclose(new_axis[::density], old_axis, rtol=0.0,
+                               atol=1e-9 * abs(old_axis[-1] - old_axis[0])):
+                new_axis = np.interp(
+                    np.linspace(0, n_intervals, new_axis.size),
+                    np.arange(n_intervals + 1), old_axis
+                )
+            axes.append(new_axis)
         return tuple(axes)
 
     def create_refined_grids_at(self, *coords, **kwargs):
-- 
2.43.0


From 048e048303908582babacc22e7bf2dad0177e5c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 23/37] fix: ignore root-MUSIC polynomial coefficients at the
 rounding error level

---
 doatools/estimation/music.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doatools/estimation/music.py b/doatools/estimation/music.py
index 00f960e..802c7ea 100644
--- a/doatools/estimation/music.py
+++ b/doatools/estimation/music.py
@@ -154,6 +154,9 @@ class RootMUSIC1D:
         for i in range(1, m):
             coeff[i - 1] += np.sum(np.diag(C, i))
         coeff = np.hstack((coeff[::-1], np.sum(np.diag(C)), coeff.conj()))
+        # Coefficients at the rounding error level are zeros. If they were kept
+        # as the leading coefficients, the remaining roots would be inaccurate.
+        coeff[np.abs(coeff) < m * np.finfo(np.float_).eps] = 0.0
         # Find the roots of the polynomial.
         z = np.roots(coeff)
         # Find k points inside the unit circle that are also closest to the unit
-- 
2.43.0


From 0d20e577d4890fa640d053298749dabe1ed2b1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:08 +0000
Subject: [PATCH 24/37] fix: root-MUSIC lost or mispaired roots lying exactly
 on the unit circle

---
 doatools/estimation/music.py | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/doatools/estimation/music.py b/doatools/estimation/music.py
index 802c7ea..848b8ee 100644
--- a/doatools/estimation/music.py
+++ b/doatools/estimation/music.py
@@ -161,27 +161,17 @@ class RootMUSIC1D:
         z = np.roots(coeff)
         # Find k points inside the unit circle that are also closest to the unit
         # circle.
-        nz = len(z)
-        mask = np.ones((nz,), dtype=np.bool_)
-        for i in range(nz):
-            absz = abs(z[i])
-            if absz > 1.0:
-                # Outside the unit circle.
-                mask[i] = False
-            elif absz == 1.0:
-                # On the unit circle. Need to find the closest point and remove
-                # it.
-                idx = -1
-                dist = np.inf
-                for j in range(nz):
-                    if j != i and mask[j]:
-                        cur_dist = abs(z[i] - z[j])
-                        if cur_dist < dist:
-                            dist = cur_dist
-                            idx = j
-                if idx < 0:
-                    raise RuntimeError('Unpaired point found on the unit circle, which is impossible.')
-                mask[idx] = False
+        absz = np.abs(z)
+        on_circle = np.abs(absz - 1.0) < 1e-10
+        mask = (absz < 1.0) & ~on_circle
+        # The roots on the unit circle come in pairs, and rounding errors may
+        # move both roots of a pair to the same side. Keep one from each pair.
+        remaining = list(np.flatnonzero(on_circle))
+        while remaining:
+            i = remaining.pop(0)
+            mask[i] = True
+            if remaining:
+                remaining.remove(min(remaining, key=lambda j: abs(z[i] - z[j])))
         z = z[mask]
         sorted_indices = np.argsort(1.0 - np.abs(z))
         if len(z) < k:
-- 
2.43.0


From e0c16794706e2c6a23e9cb26b0b9de2281a4d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 25/37] fix: reject non-positive source numbers instead of
 using an empty noise subspace

---
 doatools/estimation/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/doatools/estimation/core.py b/doatools/estimation/core.py
index 5c94bec..24b6b21 100644
--- a/doatools/estimation/core.py
+++ b/doatools/estimation/core.py
@@ -19,6 +19,8 @@ def ensure_covariance_size(R, array):
 
 def ensure_n_resolvable_sources(k, max_k):
     """Checks if the number of expected sources exceeds the maximum resolvable sources."""
+    if k < 1:
+        raise ValueError('The number of sources must be at least one.')
     if k > max_k:
         raise ValueError(
             'Too many sources. Maximum number of resolvable sources is {0}'
-- 
2.43.0


From 89b352bf7c11473c3b3876b5931bd5a39876fac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 26/37] fix: estimating zero sources returned every peak of the
 spectrum

---
 doatools/estimation/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/core.py b/doatools/estimation/core.py
index 24b6b21..1ed7c4f 100644
--- a/doatools/estimation/core.py
+++ b/doatools/estimation/core.py
@@ -178,7 +178,7 @@ class SpectrumBasedEstimatorBase(ABC):
             # is a tuple of 1D numpy arrays, and `sp` has been reshaped.
             peak_values = sp[peak_indices]
             # Identify the k largest peaks.
-            top_indices = np.argsort(peak_values)[-k:]
+            top_indices = np.argsort(peak_values)[n_peaks-k:]
             # Filter out the peak indices of the k largest peaks.
             peak_indices = [axis[top_indices] for axis in peak_indices]
             # Obtain the estimates.
-- 
2.43.0


From 8ce90e8de181532fdf6704099b610098557e5158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 27/37] fix: uncorrelated stochastic CRB used squared instead
 of conjugate products in the power block of the FIM

---
 doatools/performance/crb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/performance/crb.py b/doatools/performance/crb.py
index dbb6809..9351c10 100644
--- a/doatools/performance/crb.py
+++ b/doatools/performance/crb.py
@@ -216,7 +216,7 @@ def crb_stouc_farfield_1d(array, sources, wavelength, p, sigma, n_snapshots=1,
     ARA = A_H @ R_inv @ A
     PP = np.outer(p, p)
     FIM_tt = 2.0 * ((DRD.T * ARA + DRA.conj() * ARD) * PP).real
-    FIM_pp = (ARA.conj().T * ARA).real
+    FIM_pp = (ARA.conj() * ARA).real
     R_inv2 = R_inv @ R_inv
     FIM_ss = np.trace(R_inv2).real
     # diag(A @ B) = np.sum(A^T * B, axis=0, keepdims=True)
-- 
2.43.0


From b9d8477b95a6cd3ebb4140452d8fb115ff0816a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:12 +0000
Subject: [PATCH 28/37] fix: sparse estimators reported resolved sources when
 no solution was found

---
 doatools/estimation/sparse.py |  8 ++++++--
 doatools/optim/l1lsq.py       | 14 ++++++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/doatools/estimation/sparse.py b/doatools/estimation/sparse.py
index 403c2e3..d9e03b2 100644
--- a/doatools/estimation/sparse.py
+++ b/doatools/estimation/sparse.py
@@ -161,7 +161,9 @@ class SparseCovarianceMatching(SpectrumBasedEstimatorBase):
             # Do not modify R in-place!
             R = R - np.eye(self._array.size) * sigma
         f_sp = lambda Phi: self._get_sparse_spectrum(Phi, R, l, solver_options)
-        return self._estimate(f_sp, k, **kwargs)
+        res = self._estimate(f_sp, k, **kwargs)
+        # Without a solution, the spectrum is meaningless.
+        return res if self._problem.is_solved else (False,) + (None,) * (len(res) - 1)
 
 class GroupSparseEstimator(SpectrumBasedEstimatorBase):
     r"""Creates a group-sparsity based estimator.
@@ -271,4 +273,6 @@ class GroupSparseEstimator(SpectrumBasedEstimatorBase):
         if Y.shape[1] != self._n_snapshots:
             raise ValueError('The number of columns of Y must be equal to the number of snapshots.')
         f_sp = lambda A: self._get_sparse_spectrum(A, Y, l, solver_options)
-        return self._estimate(f_sp, k, **kwargs)
+        res = self._estimate(f_sp, k, **kwargs)
+        # Without a solution, the spectrum is meaningless.
+        return res if self._problem.is_solved else (False,) + (None,) * (len(res) - 1)
diff --git a/doatools/optim/l1lsq.py b/doatools/optim/l1lsq.py
index 00ea66a..d5d01b6 100644
--- a/doatools/optim/l1lsq.py
+++ b/doatools/optim/l1lsq.py
@@ -99,6 +99,11 @@ class L1RegularizedLeastSquaresProblem:
         self._constraints = constraints
         self._problem = problem
 
+    @property
+    def is_solved(self):
+        """Whether the last call of :meth:`solve` found an optimal solution."""
+        return self._problem.status == 'optimal'
+
     def solve(self, A, b, l, **kwargs):
         """Solves the problem with the specified parameters.
 
@@ -112,7 +117,7 @@ class L1RegularizedLeastSquaresProblem:
         self._b.value = b
         self._l.value = l
         self._problem.solve(**kwargs)
-        if self._problem.status != 'optimal':
+        if not self.is_solved:
             warnings.warn('Optimal solution cannot be obtained.')
             return np.zeros((self._x.size,))
         return self._x.value
@@ -174,6 +179,11 @@ class L21RegularizedLeastSquaresProblem:
         self._l = l
         self._X = X
 
+    @property
+    def is_solved(self):
+        """Whether the last call of :meth:`solve` found an optimal solution."""
+        return self._problem.status == 'optimal'
+
     def solve(self, A, B, l, **kwargs):
         """Solves the problem with the specified parameters.
 
@@ -187,7 +197,7 @@ class L21RegularizedLeastSquaresProblem:
         self._B.value = B
         self._l.value = l
         self._problem.solve(**kwargs)
-        if self._problem.status != 'optimal':
+        if not self.is_solved:
             warnings.warn('Optimal solution cannot be obtained.')
             return np.zeros(self._X.shape)
         return self._X.value
-- 
2.43.0


From 02605ce6bb182ef4d78bdb59c398f77ee2a39ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:00 +0000
Subject: [PATCH 29/37] fix: unique_rows returned a float matrix as the row
 indices of an empty matrix

---
 doatools/utils/math.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/utils/math.py b/doatools/utils/math.py
index 56c298f..646738a 100644
--- a/doatools/utils/math.py
+++ b/doatools/utils/math.py
@@ -125,7 +125,7 @@ def unique_rows(x, atol=0.0, rtol=1e-8, return_index=False, sort=False):
     n, m = x.shape
     # Handle the empty case
     if n == 0:
-        return (x.copy(), np.zeros((0, m))) if return_index else x.copy()
+        return (x.copy(), np.zeros((0,), dtype=np.int32)) if return_index else x.copy()
     # Scale the relative tolerance according to the maximum absolute value in x.
     xmin, xmax = np.nanmin(x), np.nanmax(x)
     tol = atol + rtol * max(abs(xmin), abs(xmax))
-- 
2.43.0


From b13eeec28ce79e824e0a04ae90928f84692dbdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 30/37] fix: unique_rows scaled the relative tolerance of
 complex matrices by the wrong entry

---
 doatools/utils/math.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/doatools/utils/math.py b/doatools/utils/math.py
index 646738a..0cdc4a3 100644
--- a/doatools/utils/math.py
+++ b/doatools/utils/math.py
@@ -127,8 +127,7 @@ def unique_rows(x, atol=0.0, rtol=1e-8, return_index=False, sort=False):
     if n == 0:
         return (x.copy(), np.zeros((0,), dtype=np.int32)) if return_index else x.copy()
     # Scale the relative tolerance according to the maximum absolute value in x.
-    xmin, xmax = np.nanmin(x), np.nanmax(x)
-    tol = atol + rtol * max(abs(xmin), abs(xmax))
+    tol = atol + rtol * np.nanmax(np.abs(x))
     # Find unique rows greedily
     # This is a O(N^2) process. May be optimized via k-d tree.
     processed = [False] * n
-- 
2.43.0


From 2b6503a5d8c78ddd0206198ee6b01699679be116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:40 +0000
Subject: [PATCH 31/37] fix: keep the plotted elements in view when equalising
 the axes of 3D array plots

---
 doatools/plotting/plot_array.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/doatools/plotting/plot_array.py b/doatools/plotting/plot_array.py
index 0591ec3..1c8a015 100644
--- a/doatools/plotting/plot_array.py
+++ b/doatools/plotting/plot_array.py
@@ -30,12 +30,11 @@ def _fix_3d_aspect(ax):
     # Need to check for pathological cases.
     if max_range == 0:
         return
-    # Force similar ranges and re-scales the view.
+    # Force similar ranges around the current centers, so that everything
+    # plotted remains in the view.
     for i in range(3):
-        if ranges[i] == 0:
-            limits[i] = [-max_range / 2.0, max_range / 2.0]
-        else:
-            limits[i] = [limits[i][0] * max_range / ranges[i], limits[i][1] * max_range / ranges[i]]
+        center = (limits[i][0] + limits[i][1]) / 2.0
+        limits[i] = [center - max_range / 2.0, center + max_range / 2.0]
     # This method is not documented but judging from its source it should do
     # the job for us.
     ax.auto_scale_xyz(limits[0], limits[1], limits[2])
-- 
2.43.0


From 0955283978fe3065e232452966efce8b9e0d72d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:19 +0000
Subject: [PATCH 32/37] fix: accept covariances with a determinant below one in
 f_nll_stouc

---
 doatools/estimation/ml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/estimation/ml.py b/doatools/estimation/ml.py
index ac7bfcd..032c593 100644
--- a/doatools/estimation/ml.py
+++ b/doatools/estimation/ml.py
@@ -11,7 +11,7 @@ def f_nll_stouc(R, array, sources, wavelength, p, sigma):
     A = array.steering_matrix(sources, wavelength)
     S = (A * p) @ A.conj().T + sigma * np.eye(array.size)
     sgn, logdet = np.linalg.slogdet(S)
-    if sgn < 0 or logdet < 0:
+    if sgn <= 0:
         return np.Inf
     return logdet + np.trace(np.linalg.solve(S, R))
 
-- 
2.43.0


From 691100f350e723353189b2bfce9da1aed2305827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:21 +0000
Subject: [PATCH 33/37] fix: a reused complex L21 problem can be solved for
 data with other zeros

CVXPY updates the data of the previous Clarabel solver in place when warm
starting, which raises 'Data formatting error' if the sparsity pattern of the
new data differs.
---
 doatools/optim/l1lsq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doatools/optim/l1lsq.py b/doatools/optim/l1lsq.py
index d5d01b6..815e3b0 100644
--- a/doatools/optim/l1lsq.py
+++ b/doatools/optim/l1lsq.py
@@ -196,6 +196,9 @@ class L21RegularizedLeastSquaresProblem:
         self._A.value = A
         self._B.value = B
         self._l.value = l
+        # The cached data of the previous solve cannot be updated in place when
+        # the sparsity pattern of the new data differs.
+        kwargs.setdefault('warm_start', False)
         self._problem.solve(**kwargs)
         if not self.is_solved:
             warnings.warn('Optimal solution cannot be obtained.')
-- 
2.43.0


From 98d6f90eac2c67a424c01e3147ec11fd80e5c631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:11 +0000
Subject: [PATCH 34/37] fix: coarray differences of unsigned or narrow integer
 indices wrapped around

---
 doatools/model/coarray.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doatools/model/coarray.py b/doatools/model/coarray.py
index 6fc54b9..4a0e4a4 100644
--- a/doatools/model/coarray.py
+++ b/doatools/model/coarray.py
@@ -16,6 +16,9 @@ def compute_location_differences(locations):
         locations (~numpy.ndarray): An m x d array of sensor locations.
     """
     m, d = locations.shape
+    # Differences of unsigned or narrow integers would wrap around.
+    if np.issubdtype(locations.dtype, np.integer):
+        locations = locations.astype(np.int64)
     # Use broadcasting to compute pairwise differences.
     D = locations.reshape((1, m, d)) - locations.reshape((m, 1, d))
     return D.reshape((-1, d))
-- 
2.43.0


From 3f392f486bcb5a3126408cd3cf404e6c4e44f2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:11 +0000
Subject: [PATCH 35/37] fix: spatial_smooth wrapped around on matrices of
 narrow integers

---
 doatools/estimation/preprocessing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/doatools/estimation/preprocessing.py b/doatools/estimation/preprocessing.py
index befa811..dcccef0 100644
--- a/doatools/estimation/preprocessing.py
+++ b/doatools/estimation/preprocessing.py
@@ -28,6 +28,9 @@ def spatial_smooth(R, l, fb=False):
     if l < 1 or l > m:
         raise ValueError('The number of subarrays must be within [1, {0}].'.format(m))
     
+    # Sums of narrow integers would wrap around.
+    if not np.issubdtype(R.dtype, np.inexact):
+        R = R.astype(np.float_)
     # Forward pass
     Rf = R[:m-l+1, :m-l+1].copy()
     for i in range(1, l):
-- 
2.43.0


From d24ab6fb34f084cc1c686123ba7612f3f8f86fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:11 +0000
Subject: [PATCH 36/37] fix: unique_rows compared unsigned or narrow integers
 modulo their range

---
 doatools/utils/math.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/doatools/utils/math.py b/doatools/utils/math.py
index 0cdc4a3..5d9b280 100644
--- a/doatools/utils/math.py
+++ b/doatools/utils/math.py
@@ -126,8 +126,10 @@ def unique_rows(x, atol=0.0, rtol=1e-8, return_index=False, sort=False):
     # Handle the empty case
     if n == 0:
         return (x.copy(), np.zeros((0,), dtype=np.int32)) if return_index else x.copy()
+    # Differences of unsigned or narrow integers would wrap around.
+    v = x.astype(np.int64) if np.issubdtype(x.dtype, np.integer) else x
     # Scale the relative tolerance according to the maximum absolute value in x.
-    tol = atol + rtol * np.nanmax(np.abs(x))
+    tol = atol + rtol * np.nanmax(np.abs(v))
     # Find unique rows greedily
     # This is a O(N^2) process. May be optimized via k-d tree.
     processed = [False] * n
@@ -135,12 +137,12 @@ def unique_rows(x, atol=0.0, rtol=1e-8, return_index=False, sort=False):
     ii = 0
     while ii >= 0:
         next_ii = -1
-        cur_row = x[ii, :]
+        cur_row = v[ii, :]
         unique_indices.append(ii)
         for kk in range(ii + 1, n):
             if processed[kk]:
                 continue
-            if np.all(np.abs(cur_row - x[kk, :]) <= tol):
+            if np.all(np.abs(cur_row - v[kk, :]) <= tol):
                 # Found a close one.
                 processed[kk] = True
             else:
-- 
2.43.0


From 9f678e3a666593fb571c104e94cd3fa1fe0f732d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:37 +0000
Subject: [PATCH 37/37] fix: place the cells of 2D spectra correctly over
 descending axes

---
 doatools/plotting/plot_spectrum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/doatools/plotting/plot_spectrum.py b/doatools/plotting/plot_spectrum.py
index 3743bde..95ea619 100644
--- a/doatools/plotting/plot_spectrum.py
+++ b/doatools/plotting/plot_spectrum.py
@@ -171,7 +171,7 @@ def plot_spectrum_2d(sp, grid, ax, estimates=None, ground_truth=None,
     x_label = '{0}/{1}'.format(axis_names[ind_x], units[ind_x])
     y_label = '{0}/{1}'.format(axis_names[ind_y], units[ind_y])
     plot_args = {
-        'extent': (x.min(), x.max(), y.min(), y.max()),
+        'extent': (x[0], x[-1], y[0], y[-1]),
         'origin': 'lower',
         'cmap': color_map,
         'aspect': 'auto'
-- 
2.43.0

