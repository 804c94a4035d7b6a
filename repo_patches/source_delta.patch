From e0cbe93fac616b326bd06c59740522a2910c97df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:18 +0000
Subject: [PATCH 001/121] fix: PowerSpectrum accepts all documented weight
 types and leaves them unchanged

---
 turbustat/statistics/pspec_bispec/pspec.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index bc040aa..5e80705 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -10,7 +10,7 @@ from copy import copy
 from ..rfft_to_fft import rfft_to_fft
 from ..base_pspec2 import StatisticBase_PSpec2D
 from ..base_statistic import BaseStatisticMixIn
-from ...io import common_types, twod_types
+from ...io import input_data, common_types, twod_types
 from ..fitting_utils import check_fit_limits
 
 
@@ -50,12 +50,9 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
         if weights is None:
             weights = np.ones(self.data.shape)
         else:
-            # Get rid of all NaNs
-            isnan = np.isnan(self.data)
-
+            # Get rid of all NaNs. NaNs in the data are already set to 0.
+            weights = input_data(weights, no_header=True, need_copy=True)
             weights[np.isnan(weights)] = 0.0
-            weights[isnan] = 0.0
-            self.data[isnan] = 0.0
 
         self.weighted_data = self.data * weights
 
-- 
2.43.0


From eda44c1389c4afe161783917c3cabd29ac1acc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:18 +0000
Subject: [PATCH 002/121] fix: run() no longer removes entries from the
 caller's keyword dictionaries

---
 turbustat/statistics/mvc/mvc.py            | 4 ++--
 turbustat/statistics/pspec_bispec/pspec.py | 8 ++++----
 turbustat/statistics/vca_vcs/vca.py        | 8 ++++----
 turbustat/statistics/vca_vcs/vcs.py        | 4 ++--
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index d284fef..7913204 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -273,8 +273,8 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
         '''
 
         # Remove threads if in dict
-        if pyfftw_kwargs.get('threads') is not None:
-            pyfftw_kwargs.pop('threads')
+        pyfftw_kwargs = dict(pyfftw_kwargs)
+        pyfftw_kwargs.pop('threads', None)
 
         self.compute_pspec(apodize_kernel=apodize_kernel,
                            alpha=alpha, beta=beta,
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index 5e80705..ebfe0e1 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -174,12 +174,12 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
         '''
 
         # Remove threads if in dict
-        if pyfftw_kwargs.get('threads') is not None:
-            pyfftw_kwargs.pop('threads')
+        pyfftw_kwargs = dict(pyfftw_kwargs)
+        pyfftw_kwargs.pop('threads', None)
 
         # Pop fit_unbinned if given as kwarg in dict.
-        if fit_kwargs.get('fit_unbinned') is not None:
-            fit_kwargs.pop('fit_unbinned')
+        fit_kwargs = dict(fit_kwargs)
+        fit_kwargs.pop('fit_unbinned', None)
 
         self.compute_pspec(apodize_kernel=apodize_kernel,
                            alpha=alpha, beta=beta,
diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 8baa9d8..67a558d 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -183,12 +183,12 @@ class VCA(BaseStatisticMixIn, StatisticBase_PSpec2D):
         '''
 
         # Remove threads if in dict
-        if pyfftw_kwargs.get('threads') is not None:
-            pyfftw_kwargs.pop('threads')
+        pyfftw_kwargs = dict(pyfftw_kwargs)
+        pyfftw_kwargs.pop('threads', None)
 
         # Pop fit_unbinned if given as kwarg in dict.
-        if fit_kwargs.get('fit_unbinned') is not None:
-            fit_kwargs.pop('fit_unbinned')
+        fit_kwargs = dict(fit_kwargs)
+        fit_kwargs.pop('fit_unbinned', None)
 
         self.compute_pspec(apodize_kernel=apodize_kernel,
                            alpha=alpha, beta=beta,
diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 50edf6f..5d99d4c 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -371,8 +371,8 @@ class VCS(BaseStatisticMixIn):
         '''
 
         # Remove threads if in dict
-        if pyfftw_kwargs.get('threads') is not None:
-            pyfftw_kwargs.pop('threads')
+        pyfftw_kwargs = dict(pyfftw_kwargs)
+        pyfftw_kwargs.pop('threads', None)
         self.compute_pspec(use_pyfftw=use_pyfftw, threads=threads,
                            **pyfftw_kwargs)
 
-- 
2.43.0


From 3bdcdd61aa1f007032b9d09c67fe5946ec9e4101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:47 +0000
Subject: [PATCH 003/121] fix: PSpec_Distance passes fit_kwargs on instead of
 failing on them

---
 turbustat/statistics/pspec_bispec/pspec.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index ebfe0e1..64a5978 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -283,11 +283,11 @@ class PSpec_Distance(object):
             this_pspec_kwargs.pop('high_cut', None)
             this_pspec_kwargs.pop('fit_2D', None)
 
-            if 'fit_kwargs' in this_pspec_kwargs:
-                this_pspec_kwargs['fit_kwargs'].pop('brk', None)
+            fit_kwargs = dict(this_pspec_kwargs.pop('fit_kwargs', {}))
+            fit_kwargs['brk'] = breaks[0]
 
             self.pspec1.run(low_cut=low_cut[0], high_cut=high_cut[0],
-                            fit_kwargs={'brk': breaks[0]},
+                            fit_kwargs=fit_kwargs,
                             fit_2D=False,
                             **this_pspec_kwargs)
         # else:
@@ -311,11 +311,11 @@ class PSpec_Distance(object):
             this_pspec2_kwargs.pop('high_cut', None)
             this_pspec2_kwargs.pop('fit_2D', None)
 
-            if 'fit_kwargs' in this_pspec2_kwargs:
-                this_pspec2_kwargs['fit_kwargs'].pop('brk', None)
+            fit_kwargs = dict(this_pspec2_kwargs.pop('fit_kwargs', {}))
+            fit_kwargs['brk'] = breaks[1]
 
             self.pspec2.run(low_cut=low_cut[1], high_cut=high_cut[1],
-                            fit_kwargs={'brk': breaks[1]},
+                            fit_kwargs=fit_kwargs,
                             fit_2D=False,
                             **this_pspec2_kwargs)
 
-- 
2.43.0


From 0462018aaf597b029c271ab007f8951072e9f7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:47 +0000
Subject: [PATCH 004/121] fix: VCA_Distance uses radial_pspec_kwargs2 for the
 second cube

---
 turbustat/statistics/vca_vcs/vca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 67a558d..8fe0ba2 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -308,7 +308,7 @@ class VCA_Distance(object):
             self.vca2.run(fit_kwargs={'brk': breaks[1]},
                           low_cut=low_cut[1],
                           high_cut=high_cut[1],
-                          radial_pspec_kwargs=radial_pspec_kwargs,
+                          radial_pspec_kwargs=radial_pspec_kwargs2,
                           fit_2D=False)
 
     def distance_metric(self, verbose=False, xunit=u.pix**-1,
-- 
2.43.0


From fcfdaea9aa683e5215673f166e5e0dced6e5cc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:47 +0000
Subject: [PATCH 005/121] fix: spectral_regrid_cube handles channel widths in
 any spectral unit

---
 turbustat/statistics/vca_vcs/slice_thickness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/slice_thickness.py b/turbustat/statistics/vca_vcs/slice_thickness.py
index 33c542c..144e601 100644
--- a/turbustat/statistics/vca_vcs/slice_thickness.py
+++ b/turbustat/statistics/vca_vcs/slice_thickness.py
@@ -109,7 +109,8 @@ def spectral_regrid_cube(cube, channel_width, method='downsample',
             if channel_width.unit.is_equivalent(u.pix):
                 channel_width = int((np.ceil(channel_width.value)))
             elif channel_width.unit.is_equivalent(cube.spectral_axis.unit):
-                channel_width = int((np.ceil(channel_width / orig_width)).value)
+                ratio = (channel_width / orig_width).to(u.one).value
+                channel_width = int(np.ceil(ratio))
             else:
                 raise u.UnitsError("channel_width must be given in pixel units"
                                    " or the same spectral unit as the cube.")
-- 
2.43.0


From 17a999d8357d38cda92efd1c112358154962a5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:47 +0000
Subject: [PATCH 006/121] fix: spectral_regrid_cube applies downsamp_function

---
 turbustat/statistics/vca_vcs/slice_thickness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/slice_thickness.py b/turbustat/statistics/vca_vcs/slice_thickness.py
index 144e601..fea10ce 100644
--- a/turbustat/statistics/vca_vcs/slice_thickness.py
+++ b/turbustat/statistics/vca_vcs/slice_thickness.py
@@ -115,7 +115,8 @@ def spectral_regrid_cube(cube, channel_width, method='downsample',
                 raise u.UnitsError("channel_width must be given in pixel units"
                                    " or the same spectral unit as the cube.")
 
-        return cube.downsample_axis(channel_width, axis=0)
+        return cube.downsample_axis(channel_width, axis=0,
+                                    estimator=downsamp_function)
 
     else:
         # Must then be regrid
-- 
2.43.0


From b7bfc93cd587b455998b638c3040089a7aa4a978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:47 +0000
Subject: [PATCH 007/121] fix: VCS counts spectra without positive values as
 valid pixels

---
 turbustat/statistics/vca_vcs/vcs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 5d99d4c..6270d52 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -66,7 +66,7 @@ class VCS(BaseStatisticMixIn):
 
         if self._has_nan_flag:
             # Is this the best way to be averaging the data?
-            good_pixel_count = np.sum(self.data.max(axis=0) != 0)
+            good_pixel_count = np.sum((self.data != 0).any(axis=0))
         else:
             good_pixel_count = \
                 float(self.data.shape[1] * self.data.shape[2])
-- 
2.43.0


From 7f4fb2f2d2d18650dbb4219ac300167197bfa423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:47 +0000
Subject: [PATCH 008/121] fix: VCS fit without a given break no longer fails
 when no break is found

---
 turbustat/statistics/vca_vcs/vcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 6270d52..b204431 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -197,11 +197,12 @@ class VCS(BaseStatisticMixIn):
                 if i >= breaks.size:
                     warnings.warn("No good break point found. Returned fit\
                                    does not include a break!")
+                    breaks = breaks[-1]
                     break
 
             # return self
 
-        if not log_break:
+        elif not log_break:
             breaks = np.log10(breaks)
 
         # Fit the final model with whichever breaks were passed.
-- 
2.43.0


From 1b8aa53b9bbfe724ba44c683ff728c286ea4c10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:47 +0000
Subject: [PATCH 009/121] fix: MVC masks pixels where any of the three arrays
 is NaN

---
 turbustat/statistics/mvc/mvc.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index 7913204..439b394 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -79,10 +79,10 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
         self.shape = self.centroid.shape
 
         # Get rid of nans.
-        isnan = np.logical_and(np.isnan(self.centroid),
-                               np.isnan(self.moment0))
-        isnan = np.logical_and(isnan,
-                               np.isnan(self.linewidth))
+        isnan = np.logical_or(np.isnan(self.centroid),
+                              np.isnan(self.moment0))
+        isnan = np.logical_or(isnan,
+                              np.isnan(self.linewidth))
 
         if isnan.any():
             # Need to make copies to avoid making changes to original data
-- 
2.43.0


From a48226521aca90ab5fe2291fb53fd9767b08e3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:47 +0000
Subject: [PATCH 010/121] fix: MVC.save_results drops the data when
 keep_data=False

---
 turbustat/statistics/mvc/mvc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index 439b394..4bae685 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -217,6 +217,7 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
 
         # Don't keep the whole cube unless keep_data enabled.
         if not keep_data:
+            self_copy._data = None
             self_copy._centroid = None
             self_copy._moment0 = None
             self_copy._linewidth = None
-- 
2.43.0


From 79ea832b9628aae5ad7fee344e97327b24f70fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:47 +0000
Subject: [PATCH 011/121] fix: Lm_Seg keeps weights aligned with the finite
 points

---
 turbustat/statistics/lm_seg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index 0f972d1..da91d25 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -65,6 +65,8 @@ class Lm_Seg(object):
 
         self.y = self.y[good_vals]
         self.x = self.x[good_vals]
+        if self.weights is not None:
+            self.weights = self.weights[good_vals]
 
         if self.x.size <= 3 or self.y.size <= 3:
             raise Warning("Not enough finite points to fit.")
-- 
2.43.0


From 5a192028f6589bd413206d4a0e49bb1801cf989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:47 +0000
Subject: [PATCH 012/121] fix: Lm_Seg.model evaluates the fitted line at and
 beyond the break

---
 turbustat/statistics/lm_seg.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index da91d25..a6d859a 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -211,10 +211,11 @@ class Lm_Seg(object):
     def model(self, x=None, model_return=False):
         p = self.params
 
-        trans_pt = np.abs(x - self.brk).argmin()
-
-        mod_eqn = lambda k: p[0] + p[1] * k * (k < self.brk) + \
-            ((p[1] + p[2]) * k + (-p[2]) * k[trans_pt]) * (k >= self.brk)
+        if self.break_fail_flag:
+            mod_eqn = lambda k: p[0] + p[1] * k
+        else:
+            mod_eqn = lambda k: p[0] + p[1] * k * (k < self.brk) + \
+                ((p[1] + p[2]) * k + (-p[2]) * self.brk) * (k >= self.brk)
 
         if model_return or x is None:
             return mod_eqn
-- 
2.43.0


From 05050fb09f1a0394f71773e5249f3f7bec9e30f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:34 +0000
Subject: [PATCH 013/121] fix: VCA handles cubes with (or downsampled to) a
 single channel

---
 turbustat/statistics/vca_vcs/vca.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 8fe0ba2..2deb9dd 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -115,7 +115,10 @@ class VCA(BaseStatisticMixIn, StatisticBase_PSpec2D):
                                    threads=threads,
                                    **pyfftw_kwargs))
 
-        self._ps2D = np.power(fft, 2.).sum(axis=0)
+        self._ps2D = np.power(fft, 2.)
+        # A cube with a single channel is squeezed to an image
+        if self._ps2D.ndim > 2:
+            self._ps2D = self._ps2D.sum(axis=0)
 
         if beam_correct:
             self.compute_beam_pspec()
-- 
2.43.0


From 60e67dfbf7202cca2a4830bf816420aa469570e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:34 +0000
Subject: [PATCH 014/121] fix: brk_err is None rather than missing or stale
 when a break is rejected

---
 turbustat/statistics/base_pspec2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index 3af1cba..a7d224b 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -223,6 +223,8 @@ class StatisticBase_PSpec2D(object):
         else:
             weights = None
 
+        self._brk_err = None
+
         if brk is not None:
             # Try the fit with a break in it.
             if not log_break:
@@ -277,7 +279,6 @@ class StatisticBase_PSpec2D(object):
                                without break.")
         else:
             self._brk = None
-            self._brk_err = None
 
         if self.brk is None:
             x = sm.add_constant(x)
-- 
2.43.0


From 275c21f092a02826d43a05b2c25f0d91892489ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:02 +0000
Subject: [PATCH 015/121] fix: Lm_Seg warns instead of failing when epsil_0 is
 below the tolerance

---
 turbustat/statistics/lm_seg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index a6d859a..b583367 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -96,7 +96,7 @@ class Lm_Seg(object):
 
         # Before we get into the loop, make sure that this was a bad fit
         if epsil_0 < tol:
-            warnings.warning('Initial epsilon is smaller than tolerance. \
+            warnings.warn('Initial epsilon is smaller than tolerance. \
                              The tolerance should be set smaller.')
             return init_lm
 
-- 
2.43.0


From ec962749ef244328fd8531b48c8d426fd0e6423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:39 +0000
Subject: [PATCH 016/121] fix: 2D power-law errors come from the fit that is
 returned

---
 turbustat/statistics/elliptical_powerlaw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/elliptical_powerlaw.py b/turbustat/statistics/elliptical_powerlaw.py
index 7b51b77..de31e82 100644
--- a/turbustat/statistics/elliptical_powerlaw.py
+++ b/turbustat/statistics/elliptical_powerlaw.py
@@ -114,8 +114,8 @@ def fit_elliptical_powerlaw(values, x, y, p0, fit_method='LevMarq',
             model_f = LogEllipticalPowerLaw2D(*p0_f)
 
             fitter_f = fitting.LevMarLSQFitter()
-            fit_model_f = fitter(model_f, x, y, values, weights=weights,
-                                 estimate_jacobian=True)
+            fit_model_f = fitter_f(model_f, x, y, values, weights=weights,
+                                   estimate_jacobian=True)
 
             resids_f = np.sum(np.abs(values - fit_model_f(x, y)))
 
-- 
2.43.0


From 08210cdb1da932253641a74bb401fada0e4d1857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:39 +0000
Subject: [PATCH 017/121] fix: 2D power-law fits with fixed ellipticity return
 one error per parameter

---
 turbustat/statistics/elliptical_powerlaw.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/elliptical_powerlaw.py b/turbustat/statistics/elliptical_powerlaw.py
index de31e82..c87fa45 100644
--- a/turbustat/statistics/elliptical_powerlaw.py
+++ b/turbustat/statistics/elliptical_powerlaw.py
@@ -181,7 +181,11 @@ def fit_elliptical_powerlaw(values, x, y, p0, fit_method='LevMarq',
                      "carefully.")
                 stderrs = np.zeros((4,)) * np.nan
             else:
-                stderrs = np.sqrt(np.abs(np.diag(cov_matrix)))
+                free = ~np.array([fit_model.fixed[name] for name in
+                                  fit_model.param_names])
+                # Fixed parameters are not in the covariance matrix
+                stderrs = np.zeros((4,))
+                stderrs[free] = np.sqrt(np.abs(np.diag(cov_matrix)))
 
         params = fit_model.parameters
     else:
-- 
2.43.0


From a2775e09be46531235a8d80ead384f1b319a2670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:46 +0000
Subject: [PATCH 018/121] fix: SCF compares the boundary option by value

---
 turbustat/statistics/scf/scf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index fdb0cde..38def2f 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -199,7 +199,7 @@ class SCF(BaseStatisticMixIn):
                     shift_func = fourier_shift
                 tmp = shift_func(tmp, y_shift, axis=2)
 
-            if boundary is "cut":
+            if boundary == "cut":
                 # Always round up to the nearest integer.
                 x_shift = np.ceil(x_shift).astype(int)
                 y_shift = np.ceil(y_shift).astype(int)
@@ -219,7 +219,7 @@ class SCF(BaseStatisticMixIn):
 
                 data_slice = (slice(None), x_slice_data, y_slice_data)
                 tmp_slice = (slice(None), x_slice_tmp, y_slice_tmp)
-            elif boundary is "continuous":
+            elif boundary == "continuous":
                 data_slice = (slice(None),) * 3
                 tmp_slice = (slice(None),) * 3
 
-- 
2.43.0


From 757a821f367a8d00ba06c0460966348ff11797c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:46 +0000
Subject: [PATCH 019/121] fix: SCF_Distance accepts a pre-computed SCF for only
 one of the cubes

---
 turbustat/statistics/scf/scf.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index 38def2f..b3f3322 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -866,12 +866,13 @@ class SCF_Distance(object):
             else:
                 roll_lags1 = roll_lags
 
-            if not _has_data1:
+            if not _has_data2:
                 roll_lags2 = self.scf2._to_pixel(self.scf2.roll_lags)
             else:
                 roll_lags2 = roll_lags
 
-            if not (roll_lags1 == roll_lags2).all():
+            if roll_lags1.size != roll_lags2.size or \
+                    not (roll_lags1 == roll_lags2).all():
                 raise ValueError("The roll lags must match when using pre-computed SCFs.")
 
         elif scale > 1.0:
-- 
2.43.0


From a8737870c4e0a7a4f867f524e77ebb07171d39e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:46 +0000
Subject: [PATCH 020/121] fix: SCF_Distance recomputes pre-computed SCFs with a
 different number of lags

---
 turbustat/statistics/scf/scf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index b3f3322..4f804c4 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -898,7 +898,7 @@ class SCF_Distance(object):
             needs_run1 = False
 
             if roll_lags1.size != self.scf1.roll_lags.size:
-                lag_check = True
+                lag_check = False
             else:
                 lag_check = (roll_lags1 == self.scf1._to_pixel(self.scf1.roll_lags)).all()
 
@@ -908,6 +908,7 @@ class SCF_Distance(object):
                      " sets. Recomputing SCF.")
                 needs_run1 = True
                 self.scf1.roll_lags = roll_lags1
+                self.scf1.size = roll_lags1.size
 
             compute_check = hasattr(self.scf1, "_scf_spectrum")
             if not compute_check:
@@ -929,7 +930,7 @@ class SCF_Distance(object):
             needs_run2 = False
 
             if roll_lags2.size != self.scf2.roll_lags.size:
-                lag_check = True
+                lag_check = False
             else:
                 lag_check = (roll_lags2 == self.scf2._to_pixel(self.scf2.roll_lags)).all()
 
@@ -939,6 +940,7 @@ class SCF_Distance(object):
                      " sets. Recomputing SCF.")
                 needs_run2 = True
                 self.scf2.roll_lags = roll_lags2
+                self.scf2.size = roll_lags2.size
 
             compute_check = hasattr(self.scf2, "_scf_spectrum")
             if not compute_check:
-- 
2.43.0


From 6863b5d82d92719cb53ece1216a83ef1a8a43a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:00 +0000
Subject: [PATCH 021/121] fix: SCF_Distance takes its size from the lags that
 are used

---
 turbustat/statistics/scf/scf.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index 4f804c4..6eae96a 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -955,8 +955,7 @@ class SCF_Distance(object):
             # params
             self.scf2.compute_spectrum()
 
-        if not needs_run1 and not needs_run2:
-            self.size = self.scf1.size
+        self.size = self.scf1.size
 
     def distance_metric(self, weighted=True, verbose=False,
                         plot_kwargs1={'color': 'b', 'marker': 'D',
-- 
2.43.0


From f309352d253708102feb35e4742b34e237ec3044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:05 +0000
Subject: [PATCH 022/121] fix: DeltaVariance returns the convolved arrays it
 keeps

---
 turbustat/statistics/delta_variance/delta_variance.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 989d282..a5d0421 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -175,6 +175,9 @@ class DeltaVariance(BaseStatisticMixIn):
 
         '''
 
+        self._convolved_arrays = []
+        self._convolved_weights = []
+
         self._delta_var = np.empty((len(self.lags)))
         self._delta_var_error = np.empty((len(self.lags)))
 
@@ -267,14 +270,14 @@ class DeltaVariance(BaseStatisticMixIn):
         if len(self._convolved_arrays) == 0:
             warn("Run `DeltaVariance.compute_deltavar` with "
                  "`keep_convolve_arrays=True`")
-        return self._convolve_arrays
+        return self._convolved_arrays
 
     @property
     def convolve_weights(self):
         if len(self._convolved_weights) == 0:
             warn("Run `DeltaVariance.compute_deltavar` with "
                  "`keep_convolve_arrays=True`")
-        return self._convolve_arrays
+        return self._convolved_weights
 
     @property
     def delta_var(self):
-- 
2.43.0


From 7690f11496b7c70ad942ea6716059ce661393cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:05 +0000
Subject: [PATCH 023/121] fix: DeltaVariance lags set in angular or physical
 units are used in pixels

---
 turbustat/statistics/delta_variance/delta_variance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index a5d0421..22b3de2 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -116,7 +116,7 @@ class DeltaVariance(BaseStatisticMixIn):
                              " the image size. Remove these lags from the "
                              "array.")
 
-        self._lags = values
+        self._lags = pix_lags
 
     @property
     def weights(self):
-- 
2.43.0


From 215c70585b3a2288679040a8c2bb5149fea0023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:05 +0000
Subject: [PATCH 024/121] fix: DeltaVariance.brk_err is None without a break

---
 turbustat/statistics/delta_variance/delta_variance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 22b3de2..ee3b4c9 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -347,6 +347,8 @@ class DeltaVariance(BaseStatisticMixIn):
 
         weights = self.delta_var_error[within_limits] ** -2
 
+        self._brk_err = None
+
         min_fits_pts = 3
 
         if brk is not None:
-- 
2.43.0


From 44be6f15cd9858c69553a6d90c956cf1bcae7868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:05 +0000
Subject: [PATCH 025/121] fix: DeltaVariance_Distance accepts a DeltaVariance
 for only one dataset

---
 turbustat/statistics/delta_variance/delta_variance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index ee3b4c9..45838b3 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -725,7 +725,7 @@ class DeltaVariance_Distance(object):
             _given_data1 = True
             dataset1 = copy(input_data(dataset1, no_header=False))
 
-        if isinstance(dataset1, DeltaVariance):
+        if isinstance(dataset2, DeltaVariance):
             _given_data2 = False
             self.delvar2 = dataset2
         else:
-- 
2.43.0


From 5ec54c2cf92dc499decd874c670e15c600897448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:05 +0000
Subject: [PATCH 026/121] fix: DeltaVariance_Distance accepts lags2 and
 use_common_lags=False

---
 turbustat/statistics/delta_variance/delta_variance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 45838b3..dbd13f0 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -715,7 +715,7 @@ class DeltaVariance_Distance(object):
 
     def __init__(self, dataset1, dataset2, weights1=None, weights2=None,
                  diam_ratio=1.5, lags=None, use_common_lags=True,
-                 delvar_kwargs={}, delvar2_kwargs=None):
+                 delvar_kwargs={}, delvar2_kwargs=None, lags2=None):
         super(DeltaVariance_Distance, self).__init__()
 
         if isinstance(dataset1, DeltaVariance):
-- 
2.43.0


From dfa789d16ddc5b3588d59ebf0d78c2e47a355411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:05 +0000
Subject: [PATCH 027/121] fix: DeltaVariance_Distance recomputes given
 DeltaVariance objects at the common lags

---
 .../delta_variance/delta_variance.py           | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index dbd13f0..a7569a0 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -734,6 +734,12 @@ class DeltaVariance_Distance(object):
 
         self._common_lags = use_common_lags
 
+        # Lags without a unit are in pixels
+        if lags is not None and not hasattr(lags, "unit"):
+            lags = lags * u.pix
+        if lags2 is not None and not hasattr(lags2, "unit"):
+            lags2 = lags2 * u.pix
+
         # Create a default set of lags, in pixels
         if use_common_lags:
             if lags is None:
@@ -800,14 +806,15 @@ class DeltaVariance_Distance(object):
         else:
             # Check if we need to re-run the statistic if the lags are wrong.
             if lags1 is not None:
-                if not (self.delvar1.lags == lags1).all():
+                if not np.array_equal(self.delvar1.lags, lags1):
+                    self.delvar1.lags = lags1
                     self.delvar1.run(**delvar_kwargs)
 
             if not hasattr(self.delvar1, "_slope"):
                 warn("DeltaVariance given as dataset1 does not have a fitted"
                      " slope. Re-running delta variance.")
                 if lags1 is not None:
-                    self.delvar1._lags = lags1
+                    self.delvar1.lags = lags1
                 self.delvar1.run(**delvar_kwargs)
 
         if delvar2_kwargs is None:
@@ -820,15 +827,16 @@ class DeltaVariance_Distance(object):
             self.delvar2.run(**delvar2_kwargs)
         else:
             if lags2 is not None:
-                if not (self.delvar2.lags == lags2).all():
+                if not np.array_equal(self.delvar2.lags, lags2):
+                    self.delvar2.lags = lags2
                     self.delvar2.run(**delvar2_kwargs)
 
             if not hasattr(self.delvar2, "_slope"):
                 warn("DeltaVariance given as dataset2 does not have a fitted"
                      " slope. Re-running delta variance.")
                 if lags2 is not None:
-                    self.delvar2._lags = lags2
-                self.delvar2.run(**delvar_kwargs)
+                    self.delvar2.lags = lags2
+                self.delvar2.run(**delvar2_kwargs)
 
     @property
     def curve_distance(self):
-- 
2.43.0


From 2b03722cb5054167fcf7a815a3f784f17d89cb60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:21 +0000
Subject: [PATCH 028/121] fix: Wavelet break points are in pixels, not inverse
 pixels

---
 turbustat/statistics/wavelets/wavelet_transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 0057818..305a127 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -321,7 +321,7 @@ class Wavelet(BaseStatisticMixIn):
                     x = x[good_pts]
                     y = y[good_pts]
 
-                    self._brk = 10**model.brk / u.pix
+                    self._brk = 10**model.brk * u.pix
 
                     self._slope = model.slopes
 
@@ -331,12 +331,12 @@ class Wavelet(BaseStatisticMixIn):
 
                         self._slope_err = stderrs[1:-1]
                         self._brk_err = np.log(10) * self.brk.value * \
-                            stderrs[-1] / u.pix
+                            stderrs[-1] * u.pix
 
                     else:
                         self._slope_err = model.slope_errs
                         self._brk_err = np.log(10) * self.brk.value * \
-                            model.brk_err / u.pix
+                            model.brk_err * u.pix
 
                     self.fit = model.fit
 
-- 
2.43.0


From ed9d3572ef5554ae52af4c54e271faddbe5231a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:21 +0000
Subject: [PATCH 029/121] fix: Wavelet.brk_err is None without a break

---
 turbustat/statistics/wavelets/wavelet_transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 305a127..53e454b 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -352,6 +352,8 @@ class Wavelet(BaseStatisticMixIn):
         # model failed.
         if self.brk is None:
 
+            self._brk_err = None
+
             x = sm.add_constant(x)
 
             if weighted_fit:
-- 
2.43.0


From 71b618f7391ed130547605e43fd23f645f983047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:21 +0000
Subject: [PATCH 030/121] fix: Wavelet_Distance uses the given number of scales

---
 turbustat/statistics/wavelets/wavelet_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 53e454b..6c29540 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -657,7 +657,7 @@ class Wavelet_Distance(object):
                      "fitted slope. Computing Wavelet transform.")
                 needs_run = True
         else:
-            self.wt1 = Wavelet(dataset1, scales=scales)
+            self.wt1 = Wavelet(dataset1, scales=scales, num=num)
             needs_run = True
 
         if needs_run:
@@ -674,7 +674,7 @@ class Wavelet_Distance(object):
                      "fitted slope. Computing Wavelet transform.")
                 needs_run = True
         else:
-            self.wt2 = Wavelet(dataset2, scales=scales)
+            self.wt2 = Wavelet(dataset2, scales=scales, num=num)
             needs_run = True
 
         if needs_run:
-- 
2.43.0


From a00a814d89de74c53fe0533b4c6296e974533340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:02 +0000
Subject: [PATCH 031/121] fix: Bispectrum handles non-square images

---
 turbustat/statistics/pspec_bispec/bispec.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turbustat/statistics/pspec_bispec/bispec.py b/turbustat/statistics/pspec_bispec/bispec.py
index d1072a9..c15922f 100644
--- a/turbustat/statistics/pspec_bispec/bispec.py
+++ b/turbustat/statistics/pspec_bispec/bispec.py
@@ -147,6 +147,10 @@ class Bispectrum(BaseStatisticMixIn):
                                       k2mag * np.sin(ang2))
                                   for ang1, ang2 in zip(phi1, phi2)])
 
+                # Frequencies beyond the array are aliased
+                k1x, k2x, k3x = [k % self.shape[0] for k in (k1x, k2x, k3x)]
+                k1y, k2y, k3y = [k % self.shape[1] for k in (k1y, k2y, k3y)]
+
                 samps = fftarr[k1x, k1y] * fftarr[k2x, k2y] * conjfft[k3x, k3y]
 
                 self._bispectrum[k1mag, k2mag] = np.sum(samps)
-- 
2.43.0


From ce90777d02ba634defe3a02deca3411adb338e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:02 +0000
Subject: [PATCH 032/121] fix: Bispectrum.tracker counts every sample

---
 turbustat/statistics/pspec_bispec/bispec.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/pspec_bispec/bispec.py b/turbustat/statistics/pspec_bispec/bispec.py
index c15922f..ae1a637 100644
--- a/turbustat/statistics/pspec_bispec/bispec.py
+++ b/turbustat/statistics/pspec_bispec/bispec.py
@@ -116,7 +116,7 @@ class Bispectrum(BaseStatisticMixIn):
 
         self._bispectrum = np.zeros(bispec_shape, dtype=complex)
         self._bicoherence = np.zeros(bispec_shape, dtype=float)
-        self._tracker = np.zeros(self.shape, dtype=np.int16)
+        self._tracker = np.zeros(self.shape, dtype=int)
 
         biconorm = np.ones_like(self.bispectrum, dtype=float)
 
@@ -158,9 +158,9 @@ class Bispectrum(BaseStatisticMixIn):
                 biconorm[k1mag, k2mag] = np.sum(np.abs(samps))
 
                 # Track where we're sampling from in fourier space
-                self._tracker[k1x, k1y] += 1
-                self._tracker[k2x, k2y] += 1
-                self._tracker[k3x, k3y] += 1
+                np.add.at(self._tracker, (k1x, k1y), 1)
+                np.add.at(self._tracker, (k2x, k2y), 1)
+                np.add.at(self._tracker, (k3x, k3y), 1)
 
                 if show_progress:
                     bar.update(n + 1)
-- 
2.43.0


From 638e7aa74ff6d362a6fbef2715b0f54ebc62ab07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:56:02 +0000
Subject: [PATCH 033/121] fix: Bispectrum.radial_slice raises the intended
 TypeError for unitless angles

---
 turbustat/statistics/pspec_bispec/bispec.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/turbustat/statistics/pspec_bispec/bispec.py b/turbustat/statistics/pspec_bispec/bispec.py
index ae1a637..bf580f0 100644
--- a/turbustat/statistics/pspec_bispec/bispec.py
+++ b/turbustat/statistics/pspec_bispec/bispec.py
@@ -341,8 +341,6 @@ class Bispectrum(BaseStatisticMixIn):
         # Keep a finite value array for binned_statistic for scipy >1.14
         finite_mask = np.isfinite(value_arr)
 
-        orig_thetas = thetas.copy().value
-
         # Check units
         if not hasattr(thetas, "unit") or not hasattr(delta_thetas, "unit"):
             raise TypeError("thetas must have an attached angular unit.")
@@ -350,6 +348,7 @@ class Bispectrum(BaseStatisticMixIn):
               not delta_thetas.unit.is_equivalent(u.rad)):
             raise TypeError("thetas must have an attached angular unit.")
         else:
+            orig_thetas = thetas.copy().value
             thetas = thetas.to(u.rad).value
             delta_thetas = delta_thetas.to(u.rad).value
 
-- 
2.43.0


From c128c4ec6b7bddf8cab7e87cb745ffb26313d7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 034/121] fix: Genus match_kernel uses the image's shape for
 non-square images

---
 turbustat/statistics/genus/genus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index b90d0f5..99fea98 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -306,8 +306,8 @@ class Genus(BaseStatisticMixIn):
             else:
                 if match_kernel:
                     kernel = Gaussian2DKernel(width,
-                                              x_size=self.data.shape[0],
-                                              y_size=self.data.shape[1])
+                                              x_size=self.data.shape[1],
+                                              y_size=self.data.shape[0])
                 else:
                     kernel = Gaussian2DKernel(width)
 
-- 
2.43.0


From 260f70c11b959d1cf460066456b34f4cf04a8c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 035/121] fix: Genus use_beam uses the area of the beam

---
 turbustat/statistics/genus/genus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 99fea98..049b5fe 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -273,7 +273,7 @@ class Genus(BaseStatisticMixIn):
             major = self._to_pixel(major)
             minor = self._to_pixel(minor)
             # the area of a Gaussian beam is 2 pi sigma^2, and major/minor are FWHMs
-            pix_area = 2 * np.pi * major * minor / np.sqrt(8*np.log(2))
+            pix_area = 2 * np.pi * major * minor / (8*np.log(2))
             min_size = int(np.floor(pix_area.value))
         else:
             if isinstance(min_size, u.Quantity):
-- 
2.43.0


From e5265f7b43db0659b771ed9573197a279bf314ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 036/121] fix: Genus checks the unit of max_value like that of
 min_value

---
 turbustat/statistics/genus/genus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 049b5fe..cc05041 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -141,7 +141,7 @@ class Genus(BaseStatisticMixIn):
                 if not hasattr(max_value, 'unit') and hasattr(self.data, 'unit'):
                     max_value *= self.data.unit
 
-            if hasattr(max_value, 'unit') and hasattr(self.data, 'unit'):
+            if hasattr(self.data, 'unit'):
                 if not hasattr(max_value, 'unit'):
                     raise TypeError("data has units of {}. 'max_value' must "
                                     "have equivalent units."
-- 
2.43.0


From da932755a0c48add1d6e807375c59d221d860755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 037/121] fix: Genus keeps the header of Projections

---
 turbustat/statistics/genus/genus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index cc05041..0d5d87e 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -80,7 +80,8 @@ class Genus(BaseStatisticMixIn):
                  distance=None):
         super(Genus, self).__init__()
 
-        if isinstance(img, np.ndarray):
+        # Projections are arrays that do have a header
+        if isinstance(img, np.ndarray) and not hasattr(img, 'header'):
             self.need_header_flag = False
             self.data = input_data(img, no_header=True)
             self.header = None
-- 
2.43.0


From dac23ec120920963a502a3a96bc20fa9f767a256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 038/121] fix: Genus.make_genus_stats_table returns one table
 per smoothed image

---
 turbustat/statistics/genus/genus.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 0d5d87e..11c97cf 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -379,8 +379,6 @@ class Genus(BaseStatisticMixIn):
 
             tab.add_column(Column(std_vals, name='data_std'))
 
-            genus_tables.append(tab)
-
             if hasattr(radius, 'unit'):
                 radius_vals = ([radius.value] * len(self.thresholds)) * radius.unit
             else:
-- 
2.43.0


From 7730ae0105920798f763db937ba9f25d0fa7b942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 039/121] fix: Genus accepts a list of smoothing radii

---
 turbustat/statistics/genus/genus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 11c97cf..4fc09b2 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -164,7 +164,7 @@ class Genus(BaseStatisticMixIn):
                 if isinstance(smoothing_radii, u.Quantity):
                     self.smoothing_radii = self._to_pixel(smoothing_radii).value
                 else:
-                    self.smoothing_radii = smoothing_radii
+                    self.smoothing_radii = np.asarray(smoothing_radii)
         else:
             self.smoothing_radii = []
 
-- 
2.43.0


From dc96845bfe77141f6af6e43fe81f0f919871cc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 040/121] fix: Genus_Distance uses the given number of
 thresholds

---
 turbustat/statistics/genus/genus.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 4fc09b2..4b62b78 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -552,12 +552,14 @@ class Genus_Distance(object):
         img2 = standardize(img2)
 
         self.genus1 = Genus(img1, smoothing_radii=smoothing_radii,
+                            numpts=numpts,
                             min_value=min_value[0], max_value=max_value[0],
                             lowdens_percent=lowdens_percent[0],
                             highdens_percent=highdens_percent[0])
         self.genus1.run(**genus_kwargs)
 
         self.genus2 = Genus(img2, smoothing_radii=smoothing_radii,
+                            numpts=numpts,
                             min_value=min_value[1], max_value=max_value[1],
                             lowdens_percent=lowdens_percent[1],
                             highdens_percent=highdens_percent[1])
-- 
2.43.0


From ebb5678e8ca00c6f0e0665604e710add0f6d28af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:48 +0000
Subject: [PATCH 041/121] fix: input_data copies data given with a header when
 a copy is asked for

---
 turbustat/io/input_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/io/input_base.py b/turbustat/io/input_base.py
index 08ed027..ece69d6 100644
--- a/turbustat/io/input_base.py
+++ b/turbustat/io/input_base.py
@@ -72,7 +72,7 @@ def input_data(data, no_header=False, need_copy=False):
         elif isinstance(data, tuple) or isinstance(data, list):
             if len(data) != 2:
                 raise TypeError("Must have two items: data and the header.")
-            output_data = data
+            output_data = [make_copy(data[0], need_copy), data[1]]
 
         elif isinstance(data, np.ndarray):
             if not no_header:
-- 
2.43.0


From 33a9a262f744b1e1a8123f41ba6467a990b8f692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:30 +0000
Subject: [PATCH 042/121] fix: Cramer_Distance compares data_format by value

---
 turbustat/statistics/threeD_to_twoD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/threeD_to_twoD.py b/turbustat/statistics/threeD_to_twoD.py
index 73e614f..b360df8 100644
--- a/turbustat/statistics/threeD_to_twoD.py
+++ b/turbustat/statistics/threeD_to_twoD.py
@@ -69,7 +69,7 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
     Rearrange data into a 2D object using the given format.
     '''
 
-    if data_format is "spectra":
+    if data_format == "spectra":
         if num_spec is None:
             raise ValueError('Must specify num_spec for data format',
                              'spectra.')
@@ -89,7 +89,7 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
 
         data_matrix = cube[:, x, y]
 
-    elif data_format is "intensity":
+    elif data_format == "intensity":
         data_matrix = intensity_data(cube, noise_lim=noise_lim,
                                      p=p)
 
-- 
2.43.0


From fca08f3360297079eaf8354d17b9ddd622ee4406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:30 +0000
Subject: [PATCH 043/121] fix: Cramer_Distance picks the brightest spectra of
 non-square cubes

---
 turbustat/statistics/threeD_to_twoD.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/turbustat/statistics/threeD_to_twoD.py b/turbustat/statistics/threeD_to_twoD.py
index b360df8..e77ed7e 100644
--- a/turbustat/statistics/threeD_to_twoD.py
+++ b/turbustat/statistics/threeD_to_twoD.py
@@ -80,12 +80,7 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
         bright_spectra = \
             np.argpartition(mom0.ravel(), -num_spec)[-num_spec:]
 
-        x = np.empty((num_spec,), dtype=int)
-        y = np.empty((num_spec,), dtype=int)
-
-        for i in range(num_spec):
-            x[i] = int(bright_spectra[i] / cube.shape[1])
-            y[i] = int(bright_spectra[i] % cube.shape[2])
+        x, y = np.unravel_index(bright_spectra, mom0.shape)
 
         data_matrix = cube[:, x, y]
 
-- 
2.43.0


From e8a6c88f5d20b3dedf65619e0b395e60c4967434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:02:30 +0000
Subject: [PATCH 044/121] fix: Cramer_Distance leaves the global random state
 alone

---
 turbustat/statistics/cramer/cramer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/cramer/cramer.py b/turbustat/statistics/cramer/cramer.py
index 1bc1d59..b49d0ed 100644
--- a/turbustat/statistics/cramer/cramer.py
+++ b/turbustat/statistics/cramer/cramer.py
@@ -95,7 +95,7 @@ class Cramer_Distance(object):
         if samps1 != samps2:
 
             # Set the seed due to the sampling
-            np.random.seed(seed)
+            rng = np.random.RandomState(seed)
 
             if samps1 < samps2:
 
@@ -103,7 +103,7 @@ class Cramer_Distance(object):
 
                 for i in range(self.data_matrix2.shape[0]):
                     new_data[i, :] = \
-                        np.random.choice(self.data_matrix2[i, :], samps1,
+                        rng.choice(self.data_matrix2[i, :], samps1,
                                          replace=False)
 
                 self._data_matrix2 = new_data
@@ -114,7 +114,7 @@ class Cramer_Distance(object):
 
                 for i in range(self.data_matrix1.shape[0]):
                     new_data[i, :] = \
-                        np.random.choice(self.data_matrix1[i, :], samps2,
+                        rng.choice(self.data_matrix1[i, :], samps2,
                                          replace=False)
 
                 self._data_matrix1 = new_data
-- 
2.43.0


From 64ae110cb64de42a18574fd8f0c59f2a2b4ae97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:48 +0000
Subject: [PATCH 045/121] fix: PCA.model evaluates the fitted relation

---
 turbustat/statistics/pca/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 18d5766..ad4cf9b 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -648,7 +648,7 @@ class PCA(BaseStatisticMixIn):
         '''
         Model with the fit parameters from `~PCA.fit_plaw`
         '''
-        return self.index * x + np.log10(self.intercept)
+        return self.index * x + np.log10(self.intercept().value)
 
     def sonic_length(self, T_k=10 * u.K, mu=1.36, use_gamma=True,
                      unit=u.pix):
-- 
2.43.0


From 5db29b1834e46c5570dc3c8b6f085e00db3e7b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:48 +0000
Subject: [PATCH 046/121] fix: PCA eigenimages have the orientation of the data
 and are always 3D

---
 turbustat/statistics/pca/pca.py | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index ad4cf9b..fe8076b 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -222,7 +222,8 @@ class PCA(BaseStatisticMixIn):
             # n_eigs of those.
             iterat = self._valid_eigenvectors()[n_eigs:]
 
-        for ct, idx in enumerate(iterat):
+        eigimgs = []
+        for idx in iterat:
             eigimg = np.zeros(self.data.shape[1:], dtype=float)
             for channel in range(self.data.shape[0]):
                 if self._mean_sub:
@@ -234,15 +235,9 @@ class PCA(BaseStatisticMixIn):
                     eigimg += np.nan_to_num(self.data[channel] *
                                             np.real_if_close(
                                                 self.eigvecs[channel, idx]))
-            if ct == 0:
-                eigimgs = eigimg
-            else:
-                eigimgs = np.dstack((eigimgs, eigimg))
+            eigimgs.append(eigimg)
 
-        if eigimgs.ndim == 3:
-            return eigimgs.swapaxes(0, 2)
-        else:
-            return eigimgs
+        return np.array(eigimgs)
 
     def autocorr_images(self, n_eigs=None):
         '''
@@ -267,21 +262,16 @@ class PCA(BaseStatisticMixIn):
         # Calculate the eigenimages
         eigimgs = self.eigimages(n_eigs=n_eigs)
 
-        for idx, image in enumerate(eigimgs):
+        acors = []
+        for image in eigimgs:
             fftx = np.fft.fft2(image)
             fftxs = np.conjugate(fftx)
             acor = np.fft.ifft2((fftx - fftx.mean()) * (fftxs - fftxs.mean()))
             acor = np.fft.fftshift(acor)
 
-            if idx == 0:
-                acors = acor.real
-            else:
-                acors = np.dstack((acors, acor.real))
+            acors.append(acor.real)
 
-        if acors.ndim == 3:
-            return acors.swapaxes(0, 2)
-        else:
-            return acors
+        return np.array(acors)
 
     def autocorr_spec(self, n_eigs=None):
         '''
-- 
2.43.0


From ec619ced3ecc1c00a47c56b376345050ff5c0ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:48 +0000
Subject: [PATCH 047/121] fix: PCA.autocorr_spec handles one component and the
 last components

---
 turbustat/statistics/pca/pca.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index fe8076b..c091ae9 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -287,21 +287,24 @@ class PCA(BaseStatisticMixIn):
         Returns
         -------
         acors : np.ndarray
-            2D array, where the first dimension if the number of eigenvalues.
+            2D array, where the second dimension is the number of eigenvalues.
         '''
         if n_eigs is None:
             n_eigs = self.n_eigs
 
-        for idx in range(n_eigs):
+        if n_eigs > 0:
+            iterat = range(n_eigs)
+        elif n_eigs < 0:
+            iterat = self._valid_eigenvectors()[n_eigs:]
+
+        acors = []
+        for idx in iterat:
             fftx = np.fft.fft(self.eigvecs[:, idx])
             fftxs = np.conjugate(fftx)
             acor = np.fft.ifft((fftx - fftx.mean()) * (fftxs - fftxs.mean()))
-            if idx == 0:
-                acors = acor.real
-            else:
-                acors = np.dstack((acors, acor.real))
+            acors.append(acor.real)
 
-        return acors.swapaxes(0, 1).squeeze()
+        return np.array(acors).T
 
     def noise_ACF(self, n_eigs=-10):
         '''
-- 
2.43.0


From caf3d8bd153021d331b8ab745c9efda762f2aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:48 +0000
Subject: [PATCH 048/121] fix: PCA.sonic_length uses the sampled slopes for its
 MCMC error range

---
 turbustat/statistics/pca/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index c091ae9..eb26400 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -723,7 +723,7 @@ class PCA(BaseStatisticMixIn):
                 slopes = np.array([brunt_index_correct(slope)
                                    for slope in slopes])
 
-            all_lambds = np.power(c_s / 10 ** intercepts, 1. / index)
+            all_lambds = np.power(c_s / 10 ** intercepts, 1. / slopes)
 
             lambd_error_range = np.percentile(all_lambds, percentiles)
 
-- 
2.43.0


From a08af2bab8f662ca967818de6a81e487a0404e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:48 +0000
Subject: [PATCH 049/121] fix: PCA.sonic_length propagates the errors of the
 fitted relation

---
 turbustat/statistics/pca/pca.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index eb26400..55245fd 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -701,11 +701,10 @@ class PCA(BaseStatisticMixIn):
         if self._fit_method == 'odr':
             # Added in quadrature and simplified
             index_err = np.abs(index - index_error_range[0])
-            intercept_err = 0.434 * np.abs(self.intercept() -
-                                           self.intercept_error_range()[0]) / \
-                self.intercept()
+            intercept_err = np.abs(self.intercept() -
+                                   self.intercept_error_range()[0])
 
-            term1 = np.log10(c_s / self.intercept()) * \
+            term1 = np.log(c_s / self.intercept()) * \
                 (index_err / index)
             term2 = intercept_err / self.intercept()
             lambd_error = (lambd / index) * \
-- 
2.43.0


From 58b0d14a639cab78f2397c5d699bf7fa75856524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:48 +0000
Subject: [PATCH 050/121] fix: PCA_Distance accepts all eigenvalues of
 pre-computed PCAs

---
 turbustat/statistics/pca/pca.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 55245fd..0cbc5d0 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -1074,7 +1074,7 @@ class PCA_Distance(object):
                      " defined. Re-running PCA decomposition.")
             else:
                 self.pca1.n_eigs = n_eigs
-                if n_eigs >= self.pca1.eigvals.size:
+                if n_eigs > self.pca1.eigvals.size:
                     raise ValueError("n_eigs exceeds the total number of "
                                      "spectral channel for the class given "
                                      "as `cube1`. Choose a smaller `n_eigs`.")
@@ -1098,7 +1098,7 @@ class PCA_Distance(object):
                      " defined. Re-running PCA decomposition.")
             else:
                 self.pca2.n_eigs = n_eigs
-                if n_eigs >= self.pca2.eigvals.size:
+                if n_eigs > self.pca2.eigvals.size:
                     raise ValueError("n_eigs exceeds the total number of "
                                      "spectral channel for the class given "
                                      "as `cube2`. Choose a smaller `n_eigs`.")
-- 
2.43.0


From 9131930f702c8b83e2f516a94c7ebf2a69859182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:48 +0000
Subject: [PATCH 051/121] fix: WidthEstimate1D does not modify its input

---
 turbustat/statistics/pca/width_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index 36c2755..b88ea03 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -352,7 +352,7 @@ def WidthEstimate1D(inList, method='walk-down'):
                 scales[idx] = np.abs(output.stddev.value) * np.sqrt(2)
             scale_errors[idx] = errors[-1] * np.sqrt(2)
         elif method == "walk-down":
-            y /= y.max()
+            y = y / y.max()
             # Starting from the first point, start walking down the curve until
             # 1/e is reached
             for i, val in enumerate(y):
-- 
2.43.0


From aec576fbaee93cf7f970fcedc5147032701fd971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:48 +0000
Subject: [PATCH 052/121] fix: WidthEstimate1D handles autocorrelations without
 a strict minimum

---
 turbustat/statistics/pca/width_estimate.py | 25 ++++++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index b88ea03..d6914c6 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -313,10 +313,10 @@ def WidthEstimate1D(inList, method='walk-down'):
     for idx, y in enumerate(inList.T):
         x = np.fft.fftfreq(len(y)) * len(y)
         if method == 'interpolate':
-            minima = argrelmin(y)[0]
-            if minima[0] > 1:
+            minima = _first_minimum(y)
+            if minima > 1:
                 warn("Error estimation not implemented for interpolation!")
-                interpolator = interp1d(y[0:minima[0] + 1], x[0:minima[0] + 1])
+                interpolator = interp1d(y[0:minima + 1], x[0:minima + 1])
                 try:
                     scales[idx] = interpolator(np.exp(-1))
                 except ValueError:
@@ -327,10 +327,10 @@ def WidthEstimate1D(inList, method='walk-down'):
             g = models.Gaussian1D(amplitude=y[0], mean=[0], stddev=[10],
                                   fixed={'amplitude': True, 'mean': True})
             fit_g = fitting.LevMarLSQFitter()
-            minima = argrelmin(y)[0]
-            if minima[0] > 1:
-                xtrans = np.abs(x)[0:minima[0]]
-                yfit = y[0:minima[0]]
+            minima = _first_minimum(y)
+            if minima > 1:
+                xtrans = np.abs(x)[0:minima]
+                yfit = y[0:minima]
             else:
                 xtrans = np.abs(x)
                 yfit = y
@@ -377,6 +377,17 @@ def WidthEstimate1D(inList, method='walk-down'):
     return scales, scale_errors
 
 
+def _first_minimum(y):
+    '''
+    Index of the first local minimum of an autocorrelation function. The
+    function is symmetric, so the minimum is at the centre when none is found
+    (e.g., when two equal values are at the centre).
+    '''
+    minima = argrelmin(y)[0]
+
+    return minima[0] if minima.size > 0 else y.size // 2
+
+
 def fit_2D_ellipse(pts, **bootstrap_kwargs):
     '''
     Return ellipse widths
-- 
2.43.0


From 05329c6b6490edb20b195fef4542cb792c9f9319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:48 +0000
Subject: [PATCH 053/121] fix: var_cov_cube ignores NaNs in variances and
 covariances alike

---
 turbustat/statistics/threeD_to_twoD.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/turbustat/statistics/threeD_to_twoD.py b/turbustat/statistics/threeD_to_twoD.py
index e77ed7e..5f52429 100644
--- a/turbustat/statistics/threeD_to_twoD.py
+++ b/turbustat/statistics/threeD_to_twoD.py
@@ -129,9 +129,6 @@ def var_cov_cube(cube, mean_sub=False, progress_bar=True):
         bar = ProgressBar(n_velchan)
 
     for i, chan in enumerate(_iter_2D(cube)):
-        # Set the nans to tiny values
-        chan[np.isnan(chan)] = np.finfo(chan.dtype).eps
-
         norm_chan = chan
         if mean_sub:
             norm_chan -= np.nanmean(chan)
-- 
2.43.0


From 721e8fd3b7b4e1c88ac01aa7f9d2069e82b4dc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:00 +0000
Subject: [PATCH 054/121] fix: PCA.sonic_length error ranges from MCMC have the
 requested unit

---
 turbustat/statistics/pca/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 0cbc5d0..aff0b83 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -722,7 +722,7 @@ class PCA(BaseStatisticMixIn):
                 slopes = np.array([brunt_index_correct(slope)
                                    for slope in slopes])
 
-            all_lambds = np.power(c_s / 10 ** intercepts, 1. / slopes)
+            all_lambds = np.power(c_s.value / 10 ** intercepts, 1. / slopes)
 
             lambd_error_range = np.percentile(all_lambds, percentiles)
 
-- 
2.43.0


From 9922c8c6a2cbb87db47b43f618b42925d3632fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:00 +0000
Subject: [PATCH 055/121] fix: PCA.noise_ACF is the mean, not the negative
 mean, of the noise components

---
 turbustat/statistics/pca/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index aff0b83..2687809 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -325,7 +325,7 @@ class PCA(BaseStatisticMixIn):
 
         acors = self.autocorr_images(n_eigs=n_eigs)
 
-        noise_ACF = np.nansum(acors, axis=0) / float(n_eigs)
+        noise_ACF = np.nansum(acors, axis=0) / float(acors.shape[0])
 
         return noise_ACF
 
-- 
2.43.0


From 54f8551ac32443d13fbbba98ccb26def3b48ac02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:27 +0000
Subject: [PATCH 056/121] fix: PDF_Distance compares statistic by value

---
 turbustat/statistics/pdf/compare_pdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index cfd0eaa..4219a57 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -693,17 +693,17 @@ class PDF_Distance(object):
             Save the figure when a file name is given.
         '''
 
-        if statistic is 'all':
+        if statistic == 'all':
             self.compute_hellinger_distance()
             self.compute_ks_distance()
             # self.compute_ad_distance()
             if self._do_fit:
                 self.compute_lognormal_distance()
-        elif statistic is 'hellinger':
+        elif statistic == 'hellinger':
             self.compute_hellinger_distance()
-        elif statistic is 'ks':
+        elif statistic == 'ks':
             self.compute_ks_distance()
-        elif statistic is 'lognormal':
+        elif statistic == 'lognormal':
             if not self._do_fit:
                 raise Exception("Fitting must be enabled to compute the"
                                 " lognormal distance.")
-- 
2.43.0


From f2df43a8881d48ad1a2bb924e2d79fd9067f882f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:27 +0000
Subject: [PATCH 057/121] fix: PDF.make_pdf does not use the bin centers as
 edges when run again

---
 turbustat/statistics/pdf/compare_pdf.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index 4219a57..dedaab3 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -75,6 +75,7 @@ class PDF(BaseStatisticMixIn):
             self._normalization_type = "None"
 
         self._bins = bins
+        self._bins_input = bins
 
         self._pdf = None
         self._ecdf = None
@@ -92,16 +93,16 @@ class PDF(BaseStatisticMixIn):
         '''
 
         if bins is not None:
-            self._bins = bins
+            self._bins_input = bins
 
         # If the number of bins is not given, use sqrt of data length.
-        if self.bins is None:
-            self._bins = np.sqrt(self.data.shape[0])
-            self._bins = int(np.round(self.bins))
+        if self._bins_input is None:
+            self._bins_input = int(np.round(np.sqrt(self.data.shape[0])))
 
         # norm_weights = np.ones_like(self.data) / self.data.shape[0]
 
-        self._pdf, bin_edges = np.histogram(self.data, bins=self.bins,
+        self._pdf, bin_edges = np.histogram(self.data,
+                                            bins=self._bins_input,
                                             density=True)
                                             # weights=norm_weights)
 
-- 
2.43.0


From 25c40386c7f174bd1af4d7e389db24436952bc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:27 +0000
Subject: [PATCH 058/121] fix: PDF.fit_pdf works with loc and scale both fixed

---
 turbustat/statistics/pdf/compare_pdf.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index dedaab3..0b4cddb 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -241,6 +241,10 @@ class PDF(BaseStatisticMixIn):
                     scale = params[-1]
                     loc = self._loc
                     cut = -1
+                else:
+                    loc = self._loc
+                    scale = self._scale
+                    cut = None
 
                 loglikes = \
                     model.logpdf(self.endog, *params[:cut],
@@ -277,7 +281,8 @@ class PDF(BaseStatisticMixIn):
 
         # Do an initial fit with the scipy model
         if floc and fscale:
-            init_params = model.fit(self.data)
+            # Remove loc and scale from the params
+            init_params = model.fit(self.data, floc=loc, fscale=scale)[:-2]
         elif floc:
             init_params = model.fit(self.data, floc=loc)
             # Remove loc from the params
-- 
2.43.0


From 03b5bfd228173bd0ac439cdfd5d65b7b8f9deb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:50 +0000
Subject: [PATCH 059/121] fix: Tsallis lags do not lose a pixel to unit
 conversions

---
 turbustat/statistics/tsallis/tsallis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/tsallis/tsallis.py b/turbustat/statistics/tsallis/tsallis.py
index 2ec342c..b8039c8 100644
--- a/turbustat/statistics/tsallis/tsallis.py
+++ b/turbustat/statistics/tsallis/tsallis.py
@@ -62,7 +62,8 @@ class Tsallis(BaseStatisticMixIn):
 
         # Now make sure that we can convert into pixels before setting.
         try:
-            pix_rad = self._to_pixel(values)
+            # Rounding avoids losing a pixel to the unit conversion
+            pix_rad = np.round(self._to_pixel(values), 6)
         except Exception as e:
             raise e
 
@@ -111,7 +112,8 @@ class Tsallis(BaseStatisticMixIn):
         self._lag_distribs = np.empty((len(self.lags), 2, num_bins))
 
         # Convert the lags into pixels
-        pix_lags = np.floor(self._to_pixel(self.lags).value).astype(int)
+        pix_lags = np.floor(np.round(self._to_pixel(self.lags).value,
+                                     6)).astype(int)
 
         for i, lag in enumerate(pix_lags):
             if periodic:
-- 
2.43.0


From 40ab653934e16f01ed056e059ff679f2fa990741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:50 +0000
Subject: [PATCH 060/121] fix: Tsallis.tsallis_chisq is the reduced chi-squared
 of the distributions

---
 turbustat/statistics/tsallis/tsallis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/tsallis/tsallis.py b/turbustat/statistics/tsallis/tsallis.py
index b8039c8..8a78e14 100644
--- a/turbustat/statistics/tsallis/tsallis.py
+++ b/turbustat/statistics/tsallis/tsallis.py
@@ -197,7 +197,11 @@ class Tsallis(BaseStatisticMixIn):
             fitted_vals = tsallis_function(clipped[0], *params)
             self._tsallis_params[i] = params
             self._tsallis_stderrs[i] = np.sqrt(np.diag(pcov))
-            self._tsallis_chisq[i] = np.sum((np.exp(fitted_vals) - np.exp(clipped[1]))**2. / np.exp(clipped[1]))
+            # The distributions are in log10
+            chisq = np.sum((10**fitted_vals - 10**clipped[1])**2. /
+                           10**clipped[1])
+            self._tsallis_chisq[i] = \
+                chisq / float(len(clipped[0]) - len(params))
 
     @property
     def tsallis_params(self):
-- 
2.43.0


From 56810af6e1e5868a7fb890778a107c3823be688f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:44 +0000
Subject: [PATCH 061/121] fix: StatMoments rounds the radius down to whole
 pixels, as documented

---
 turbustat/statistics/stat_moments/highstatmoments.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 41e95fd..64e294f 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -77,7 +77,8 @@ class StatMoments(BaseStatisticMixIn):
 
         # Must be convertible to pixel scales!
         try:
-            pix_rad = self._to_pixel(value)
+            # Rounding avoids losing a pixel to the unit conversion
+            pix_rad = np.round(self._to_pixel(value), 6)
         except Exception as e:
             raise e
 
@@ -135,7 +136,9 @@ class StatMoments(BaseStatisticMixIn):
 
         # Convert to pixels. We need this to be an integer so round down to
         # the nearest integer values
-        pix_rad = np.ceil(self._to_pixel(self.radius).value).astype(int)
+        # Rounding avoids losing a pixel to the unit conversion.
+        pix_rad = np.floor(np.round(self._to_pixel(self.radius).value,
+                                    6)).astype(int)
 
         if periodic:
             pad_img = np.pad(self.data, pix_rad, mode="wrap")
-- 
2.43.0


From 5aaa169e9c76a7de9d98e302bc82f14c1ceac4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:44 +0000
Subject: [PATCH 062/121] fix: StatMoments.run uses the given min_frac

---
 turbustat/statistics/stat_moments/highstatmoments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 64e294f..c1b861f 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -472,6 +472,7 @@ class StatMoments(BaseStatisticMixIn):
 
         self.array_moments()
         self.compute_spatial_distrib(periodic=periodic, radius=radius,
+                                     min_frac=min_frac,
                                      show_progress=show_progress)
         self.make_spatial_histograms(**hist_kwargs)
 
-- 
2.43.0


From 41d4752a008922667452b8ac79bef99eb83461de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:44 +0000
Subject: [PATCH 063/121] fix: StatMoments ignores the weights of NaN pixels

---
 turbustat/statistics/stat_moments/highstatmoments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index c1b861f..ec1c43e 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -795,6 +795,9 @@ def compute_moments(img, weights):
 
     '''
 
+    # Only use the weights of valid pixels
+    weights = np.where(np.isfinite(img), weights, np.nan)
+
     mean = np.nansum(img * weights) / np.nansum(weights)
     variance = np.nansum(weights * (img - mean) ** 2.) / np.nansum(weights)
 
-- 
2.43.0


From 46f1947403ab8eb2ec238c7ebdf5815af9a8c0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:44 +0000
Subject: [PATCH 064/121] fix: StatMoments_Distance keeps a number of bins when
 recomputing moments1

---
 turbustat/statistics/stat_moments/highstatmoments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index ec1c43e..d9e907e 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -597,7 +597,7 @@ class StatMoments_Distance(object):
                               " or common radius found by "
                               "StatMoments_Distance. Recomputing `moments1`.")
                 self.moments1.radius = radius1
-                self.moments1.nbins = nbins
+                self.moments1.nbins = self.nbins
                 needs_run = True
 
         if needs_run:
-- 
2.43.0


From 43c358e70f2ab40555429b00322fb30d9452d3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:43 +0000
Subject: [PATCH 065/121] fix: Dendrogram_Stats accepts a list of min_deltas

---
 turbustat/statistics/dendrograms/dendro_stats.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 784e79e..a3b5a43 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -96,15 +96,14 @@ class Dendrogram_Stats(BaseStatisticMixIn):
         if "min_delta" in self.dendro_params and value is None:
             self._min_deltas = np.array([self.dendro_params["min_delta"]])
         else:
+            value = np.atleast_1d(value)
+
             # Multiple values given. Ensure they are in increasing order
             if not (np.diff(value) > 0).all():
                 raise ValueError("Multiple values of min_delta must be given "
                                  "in increasing order.")
 
-            if not isinstance(value, np.ndarray):
-                self._min_deltas = np.array([value])
-            else:
-                self._min_deltas = value
+            self._min_deltas = value
 
     def autoset_min_deltas(self, num=10):
         '''
-- 
2.43.0


From c2558c0bea6d4825e871856fab054b4e3b54241e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:43 +0000
Subject: [PATCH 066/121] fix: Dendrogram_Stats.make_hists uses the given bins
 for every histogram

---
 turbustat/statistics/dendrograms/dendro_stats.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index a3b5a43..5006395 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -227,13 +227,10 @@ class Dendrogram_Stats(BaseStatisticMixIn):
                 hists.append([np.zeros((0, ))] * 2)
                 continue
 
-            if 'bins' not in kwargs:
-                bins = int(np.sqrt(len(value)))
-            else:
-                bins = kwargs['bins']
-                kwargs.pop('bins')
+            hist_kwargs = {'bins': int(np.sqrt(len(value)))}
+            hist_kwargs.update(kwargs)
 
-            hist, bins = np.histogram(value, bins=bins, **kwargs)
+            hist, bins = np.histogram(value, **hist_kwargs)
             bin_cents = (bins[:-1] + bins[1:]) / 2
             hists.append([bin_cents, hist])
 
-- 
2.43.0


From 2255fbcf8a95c780111ee699646668fb70a33292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:43 +0000
Subject: [PATCH 067/121] fix: Dendrogram_Stats accepts dendro_params without
 min_value or min_npix

---
 turbustat/statistics/dendrograms/dendro_stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 5006395..75886e7 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -118,7 +118,7 @@ class Dendrogram_Stats(BaseStatisticMixIn):
             Number of delta values to create.
         '''
 
-        min_val = self.dendro_params.get('min_value', -np.inf)
+        min_val = self.dendro_params.get('min_value', np.nanmin(self.data))
 
         min_delta = self.dendro_params.get('min_delta', 1e-5)
 
@@ -167,8 +167,8 @@ class Dendrogram_Stats(BaseStatisticMixIn):
 
             d = Dendrogram.compute(self.data, verbose=show_progress,
                                    min_delta=self.min_deltas[0],
-                                   min_value=self.dendro_params["min_value"],
-                                   min_npix=self.dendro_params["min_npix"],
+                                   min_value=self.dendro_params.get("min_value", "min"),
+                                   min_npix=self.dendro_params.get("min_npix", 0),
                                    neighbours=neighbours)
         else:
             d = dendro_obj
-- 
2.43.0


From 4a83263b0e2aab349febd45e2b3a2cfb69d3145b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:43 +0000
Subject: [PATCH 068/121] fix: Dendrogram_Distance does not modify
 dendro_kwargs and accepts dendro2_kwargs

---
 turbustat/statistics/dendrograms/dendro_stats.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 75886e7..43be106 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -535,6 +535,12 @@ class Dendrogram_Distance(object):
         if dendro2_kwargs is None:
             dendro2_kwargs = dendro_kwargs
 
+        # These are always set below
+        dendro_kwargs, dendro2_kwargs = \
+            [{key: kwargs[key] for key in kwargs
+              if key not in ['make_hists', 'verbose']}
+             for kwargs in [dendro_kwargs, dendro2_kwargs]]
+
         # if fiducial_model is not None:
         #     self.dendro1 = fiducial_model
         # elif isinstance(dataset1, str):
@@ -548,15 +554,11 @@ class Dendrogram_Distance(object):
                 warn("Dendrogram_Stats needs to be re-run for dataset1 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
-                dendro_kwargs.pop('make_hists', None)
-                dendro_kwargs.pop('verbose', None)
                 self.dendro1.run(verbose=False, make_hists=False,
                                  **dendro_kwargs)
         else:
             self.dendro1 = Dendrogram_Stats(dataset1, min_deltas=min_deltas,
                                             dendro_params=dendro_params1)
-            dendro_kwargs.pop('make_hists', None)
-            dendro_kwargs.pop('verbose', None)
             self.dendro1.run(verbose=False, make_hists=False,
                              **dendro_kwargs)
 
@@ -571,16 +573,12 @@ class Dendrogram_Distance(object):
                 warn("Dendrogram_Stats needs to be re-run for dataset2 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
-                dendro_kwargs.pop('make_hists', None)
-                dendro_kwargs.pop('verbose', None)
                 self.dendro2.run(verbose=False, make_hists=False,
                                  **dendro2_kwargs)
         else:
             self.dendro2 = \
                 Dendrogram_Stats(dataset2, min_deltas=min_deltas,
                                  dendro_params=dendro_params2)
-            dendro_kwargs.pop('make_hists', None)
-            dendro_kwargs.pop('verbose', None)
             self.dendro2.run(verbose=False, make_hists=False,
                              **dendro2_kwargs)
 
-- 
2.43.0


From 6a0f996378e7257f5a65e7bf2904cceda151c6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:43 +0000
Subject: [PATCH 069/121] fix: Dendrogram_Distance re-runs Dendrogram_Stats
 with the common min_deltas

---
 turbustat/statistics/dendrograms/dendro_stats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 43be106..7f1d6e5 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -549,11 +549,12 @@ class Dendrogram_Distance(object):
             self.dendro1 = dataset1
             # Check if we need to re-run the stat
             has_slope = hasattr(self.dendro1, "_tail_slope")
-            match_deltas = (self.dendro1.min_deltas == min_deltas).all()
+            match_deltas = np.array_equal(self.dendro1.min_deltas, min_deltas)
             if not has_slope or not match_deltas:
                 warn("Dendrogram_Stats needs to be re-run for dataset1 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
+                self.dendro1.min_deltas = min_deltas
                 self.dendro1.run(verbose=False, make_hists=False,
                                  **dendro_kwargs)
         else:
@@ -568,11 +569,12 @@ class Dendrogram_Distance(object):
             self.dendro2 = dataset2
             # Check if we need to re-run the stat
             has_slope = hasattr(self.dendro2, "_tail_slope")
-            match_deltas = (self.dendro2.min_deltas == min_deltas).all()
+            match_deltas = np.array_equal(self.dendro2.min_deltas, min_deltas)
             if not has_slope or not match_deltas:
                 warn("Dendrogram_Stats needs to be re-run for dataset2 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
+                self.dendro2.min_deltas = min_deltas
                 self.dendro2.run(verbose=False, make_hists=False,
                                  **dendro2_kwargs)
         else:
-- 
2.43.0


From 94fefcd11155065cc0fbe80fec7fac728725ef1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:43 +0000
Subject: [PATCH 070/121] fix: mecdf handles rows padded with NaNs

---
 turbustat/statistics/dendrograms/mecdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/dendrograms/mecdf.py b/turbustat/statistics/dendrograms/mecdf.py
index fe273b1..e999036 100644
--- a/turbustat/statistics/dendrograms/mecdf.py
+++ b/turbustat/statistics/dendrograms/mecdf.py
@@ -35,6 +35,6 @@ def mecdf(arr):
     ecdf = np.empty(arr.shape)
 
     for n in range(nrows):
-        ecdf[n, :] = np.cumsum(arr[n, :]/np.sum(arr[n, :].astype(float)))
+        ecdf[n, :] = np.cumsum(arr[n, :]/np.nansum(arr[n, :].astype(float)))
 
     return ecdf
-- 
2.43.0


From e6985f23b413744c321bc2a7b06bf54c4c2818be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:58 +0000
Subject: [PATCH 071/121] fix: Moments.make_moments works with units=False

---
 turbustat/moments/make_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index 0b3ce45..dd96831 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -136,7 +136,7 @@ class Moments(object):
         if not units:
             self._moment0 = self._moment0.value
             self._moment1 = self._moment1.value
-            self._moment2 = self._moment2.value
+            self._linewidth = self._linewidth.value
 
     def make_moment_errors(self, axis=0, scale=None):
         '''
-- 
2.43.0


From eaeaa8b8855903416055e7a479c31ab0800b3cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:58 +0000
Subject: [PATCH 072/121] fix: Moments.make_moment_errors uses the given scale

---
 turbustat/moments/make_moments.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index dd96831..9d0c5bc 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -151,7 +151,10 @@ class Moments(object):
         if not hasattr(self, "_moment0"):
             raise ValueError("Run Moments.make_moments first.")
 
-        if self.scale is None and scale is None:
+        if scale is None:
+            scale = self.scale
+
+        if scale is None:
             warn("scale not set to the rms noise and will not be used in "
                  "error calculations.")
             scale = 0.0 * self.cube.unit
@@ -160,9 +163,7 @@ class Moments(object):
             self._moment1_err = np.zeros_like(self.moment1)
             self._linewidth_err = np.zeros_like(self.linewidth)
 
-        elif self.scale is not None:
-            scale = self.scale
-
+        else:
             self._moment0_err = moment0_error(self.cube, scale,
                                               how=self.moment_how, axis=axis)
             self._moment1_err = moment1_error(self.cube, scale,
-- 
2.43.0


From e81fa22e713b801f96e6966239d6257a40cba623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:58 +0000
Subject: [PATCH 073/121] fix: Moments.from_fits applies the given mask

---
 turbustat/moments/make_moments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index 9d0c5bc..28f6c2b 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -395,7 +395,7 @@ class Moments(object):
 
         if mask_name is not None:
             mask = fits.getdata(mask_name)
-            self.with_mask(mask=mask)
+            self.apply_mask(mask.astype(bool))
 
         # Moment 0
         if moment0 is not None:
-- 
2.43.0


From cb343ed492cf97c315dec1ca7ff89ea301e2161c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:58 +0000
Subject: [PATCH 074/121] fix: Moments headers have the unit of the zeroth
 moment

---
 turbustat/moments/make_moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index 28f6c2b..e65ff64 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -273,7 +273,8 @@ class Moments(object):
         Generate headers for the moments.
         '''
 
-        bunits = [self.cube.unit, self.cube.spectral_axis.unit,
+        bunits = [self.cube.unit * self.cube.spectral_axis.unit,
+                  self.cube.spectral_axis.unit,
                   self.cube.spectral_axis.unit,
                   self.cube.unit * self.cube.spectral_axis.unit]
 
-- 
2.43.0


From 9a242ebaeecd91d55cd2f4f42ed1da22767e5b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:58 +0000
Subject: [PATCH 075/121] fix: moment0_error is undefined without data for both
 methods

---
 turbustat/moments/_moment_errs.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/turbustat/moments/_moment_errs.py b/turbustat/moments/_moment_errs.py
index 93340f2..55ab2f6 100644
--- a/turbustat/moments/_moment_errs.py
+++ b/turbustat/moments/_moment_errs.py
@@ -399,10 +399,12 @@ def _cube0(cube, axis, scale):
     else:
         noise_plane = scale
 
-    error_arr = \
-        np.sqrt(
-            np.sum(cube._mask.include(data=cube._data, wcs=cube._wcs) *
-                   noise_plane**2, axis=axis)) * cube._pix_size_slice(axis)
+    valid = cube._mask.include(data=cube._data, wcs=cube._wcs)
+
+    error_arr = np.sqrt(np.sum(valid * noise_plane**2, axis=axis)) * \
+        cube._pix_size_slice(axis)
+
+    error_arr[~valid.any(axis=axis)] = np.nan
 
     return error_arr
 
-- 
2.43.0


From c857c12348308900a297c56eee13ff6c8be4ec32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:01:58 +0000
Subject: [PATCH 076/121] fix: moment errors only include the data in the mask

---
 turbustat/moments/_moment_errs.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/turbustat/moments/_moment_errs.py b/turbustat/moments/_moment_errs.py
index 55ab2f6..e5c4734 100644
--- a/turbustat/moments/_moment_errs.py
+++ b/turbustat/moments/_moment_errs.py
@@ -314,7 +314,11 @@ def _slice1(cube, axis, scale, moment0, moment1):
         else:
             noise_plane = scale
 
-        result += np.power((term1 - term2) * noise_plane, 2)
+        # Only the data in the mask contribute
+        valid = cube._mask.include(data=cube._data, wcs=cube._wcs,
+                                   view=tuple(view))
+
+        result += valid * np.power((term1 - term2) * noise_plane, 2)
 
     return np.sqrt(result)
 
@@ -376,7 +380,11 @@ def _slice2(cube, axis, scale, moment0, moment1, moment2,
         else:
             noise_plane = scale
 
-        term1 += np.power((term11 - term12) * noise_plane, 2)
+        # Only the data in the mask contribute
+        valid = cube._mask.include(data=cube._data, wcs=cube._wcs,
+                                   view=tuple(view))
+
+        term1 += valid * np.power((term11 - term12) * noise_plane, 2)
 
         term2 += np.nan_to_num(plane) * (pix_cen[tuple(view)] - moment1)
 
@@ -440,8 +448,11 @@ def _cube1(cube, axis, scale, moment0, moment1):
     term1 = pix_cen / axis_sum
     term2 = moment1 / axis_sum
 
-    result = np.sqrt(np.sum(np.power((term1 - term2) *
-                                     np.nan_to_num(noise_plane), 2),
+    # Only the data in the mask contribute
+    valid = cube._mask.include(data=cube._data, wcs=cube._wcs)
+
+    result = np.sqrt(np.sum(valid * np.power((term1 - term2) *
+                                             np.nan_to_num(noise_plane), 2),
                             axis=axis))
 
     good_pix = np.isfinite(moment0) + np.isfinite(moment1)
@@ -478,7 +489,11 @@ def _cube2(cube, axis, scale, moment0, moment1, moment2,
     term11 = np.power((pix_cen - moment1), 2) / axis_sum
     term12 = moment2 / axis_sum
 
-    term1 = np.sum(np.power((term11 - term12) * noise_plane, 2), axis=axis)
+    # Only the data in the mask contribute
+    valid = cube._mask.include(data=cube._data, wcs=cube._wcs)
+
+    term1 = np.sum(valid * np.power((term11 - term12) * noise_plane, 2),
+                   axis=axis)
 
     term21 = u.Quantity(np.nan_to_num(plane) * (pix_cen - moment1))
 
-- 
2.43.0


From f952c578224c36c72973558fbf54963003f7c431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:20 +0000
Subject: [PATCH 077/121] fix: make_extended and make_3dfield return square
 fields for odd sizes

---
 turbustat/simulator/gen_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/simulator/gen_field.py b/turbustat/simulator/gen_field.py
index a4a1d0f..cd7785f 100644
--- a/turbustat/simulator/gen_field.py
+++ b/turbustat/simulator/gen_field.py
@@ -122,7 +122,7 @@ def make_3dfield(imsize, powerlaw=2.0, amp=1.0,
     output[0, 0, 0] = output[0, 0, 0].real + 1j * 0.0
     output[0, 0, -1] = output[0, 0, -1].real + 1j * 0.0
 
-    newmap = np.fft.irfftn(output)
+    newmap = np.fft.irfftn(output, s=(imsize, ) * 3)
 
     # Normalize to the correct amplitude.
     newmap /= (np.sqrt(np.sum(newmap**2)) / np.sqrt(newmap.size)) / amp
@@ -252,6 +252,6 @@ def make_extended(imsize, powerlaw=2.0, theta=0., ellip=1.,
 
         return np.fft.fftshift(full_powermap)
 
-    newmap = np.fft.irfft2(output)
+    newmap = np.fft.irfft2(output, s=(imsize, ) * 2)
 
     return newmap
-- 
2.43.0


From 129142a77aa522356f721535978e0e699f110077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:20 +0000
Subject: [PATCH 078/121] fix: make_ppv accepts velocity limits and channel
 widths in any unit

---
 turbustat/simulator/make_cube.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/turbustat/simulator/make_cube.py b/turbustat/simulator/make_cube.py
index 8b61321..0df4d3b 100644
--- a/turbustat/simulator/make_cube.py
+++ b/turbustat/simulator/make_cube.py
@@ -121,6 +121,9 @@ def make_ppv(vel_field, dens_field, los_axis=0,
         if not v_max.unit.is_equivalent(u.km / u.s):
             raise u.UnitsError("v_max must be given in velocity units.")
 
+    v_min = v_min.to(vel_field.unit)
+    v_max = v_max.to(vel_field.unit)
+
     if v_min > v_max:
         raise ValueError("v_min > v_max is not allowed.")
 
@@ -147,7 +150,8 @@ def make_ppv(vel_field, dens_field, los_axis=0,
         N_chan = int(np.ceil(del_v / (v_eff / 2.)).value)
 
     else:
-        N_chan = int(np.ceil(del_v / chan_width))
+        N_chan = int(np.ceil((del_v / chan_width)
+                             .to(u.dimensionless_unscaled)))
 
     if verbose:
         print("Number of spectral channels {}".format(N_chan))
-- 
2.43.0


From 1c9b371a1df82933561dbb565d021b1bc9f746d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:20 +0000
Subject: [PATCH 079/121] fix: make_ppv returns an HDU with one channel

---
 turbustat/simulator/make_cube.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/simulator/make_cube.py b/turbustat/simulator/make_cube.py
index 0df4d3b..82377b1 100644
--- a/turbustat/simulator/make_cube.py
+++ b/turbustat/simulator/make_cube.py
@@ -201,7 +201,8 @@ def make_ppv(vel_field, dens_field, los_axis=0,
         cube[:, y, x] = spec
 
     if return_hdu:
-        header = create_cube_header(pixel_ang_scale, np.diff(vel_axis)[0],
+        header = create_cube_header(pixel_ang_scale,
+                                    vel_edges[1] - vel_edges[0],
                                     0.0 * u.arcsec, cube.shape, restfreq, u.K,
                                     v0=vel_axis[0])
 
-- 
2.43.0


From bbada8831585212bf6df9de79990fc7f11cb5a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:20 +0000
Subject: [PATCH 080/121] fix: make_ppv includes gas at the velocity of a
 channel edge

---
 turbustat/simulator/spectrum.pyx | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/turbustat/simulator/spectrum.pyx b/turbustat/simulator/spectrum.pyx
index 4de3b18..ea804e0 100644
--- a/turbustat/simulator/spectrum.pyx
+++ b/turbustat/simulator/spectrum.pyx
@@ -47,7 +47,9 @@ def generate_spectrum(np.ndarray[np.float64_t, ndim=1] vel,
     for i, (vel_l, vel_h) in enumerate(zip(vel_edges[:-1], vel_edges[1:])):
 
         # Find locations of all contributions at this velocity
-        contribs = (vel > vel_l) & (vel < vel_h)
+        # The last channel includes both of its edges
+        contribs = (vel >= vel_l) & \
+            ((vel < vel_h) | ((vel == vel_h) & (vel_h == vel_edges[-1])))
 
         if not contribs.any():
             continue
-- 
2.43.0


From fd31c3b16a053b46dc32246dda3e345308c4f479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:02:20 +0000
Subject: [PATCH 081/121] fix: create_cube_header and create_image_header order
 the reference pixels as FITS axes

---
 turbustat/io/sim_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/io/sim_tools.py b/turbustat/io/sim_tools.py
index 51cb56a..f6bc7ce 100644
--- a/turbustat/io/sim_tools.py
+++ b/turbustat/io/sim_tools.py
@@ -66,8 +66,8 @@ def create_cube_header(pixel_scale, spec_pixel_scale, beamfwhm, imshape,
               'BMAJ': beamfwhm.to(u.deg).value,
               'BMIN': beamfwhm.to(u.deg).value,
               'BPA': 0.0,
-              'CRPIX1': imshape[1] / 2.,
-              'CRPIX2': imshape[2] / 2.,
+              'CRPIX1': imshape[2] / 2.,
+              'CRPIX2': imshape[1] / 2.,
               'CRVAL1': 0.0,
               'CRVAL2': 0.0,
               'CTYPE1': 'GLON-CAR',
@@ -117,8 +117,8 @@ def create_image_header(pixel_scale, beamfwhm, imshape,
               'BMAJ': beamfwhm.to(u.deg).value,
               'BMIN': beamfwhm.to(u.deg).value,
               'BPA': 0.0,
-              'CRPIX1': imshape[0] / 2.,
-              'CRPIX2': imshape[1] / 2.,
+              'CRPIX1': imshape[1] / 2.,
+              'CRPIX2': imshape[0] / 2.,
               'CRVAL1': 0.0,
               'CRVAL2': 0.0,
               'CTYPE1': 'GLON-CAR',
-- 
2.43.0


From 0d1b8339bf054d6c534a817461fc65f82b493590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:37 +0000
Subject: [PATCH 082/121] fix: make_extended and make_3dfield only symmetrize
 the zero frequency for odd sizes

---
 turbustat/simulator/gen_field.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/turbustat/simulator/gen_field.py b/turbustat/simulator/gen_field.py
index cd7785f..b644d05 100644
--- a/turbustat/simulator/gen_field.py
+++ b/turbustat/simulator/gen_field.py
@@ -94,33 +94,23 @@ def make_3dfield(imsize, powerlaw=2.0, amp=1.0,
         output[0, Np1, -1] = output[0, Np1, -1].real + 1j * 0.0
         output[Np1, Np1, 0] = output[Np1, Np1, 0].real + 1j * 0.0
         output[Np1, Np1, -1] = output[Np1, Np1, -1].real + 1j * 0.0
+        output[0, 0, -1] = output[0, 0, -1].real + 1j * 0.0
 
     else:
 
         output[1:Np1 + 1, 1:Np1 + 1, 0] = \
             np.conj(output[imsize:Np1:-1, imsize:Np1:-1, 0])
-        output[1:Np1 + 1, 1:Np1 + 1, -1] = \
-            np.conj(output[imsize:Np1:-1, imsize:Np1:-1, -1])
 
         # And the conjugates off the diagonal must also equal:
         output[1:Np1 + 1, imsize:Np1:-1, 0] = \
             np.conj(output[imsize:Np1:-1, 1:Np1 + 1, 0])
-        output[1:Np1 + 1, imsize:Np1:-1, -1] = \
-            np.conj(output[imsize:Np1:-1, 1:Np1 + 1, -1])
-        output[1:Np1 + 1, imsize:Np1:-1, 0] = \
-            np.conj(output[imsize:Np1:-1, 1:Np1 + 1, 0])
-        output[1:Np1 + 1, imsize:Np1:-1, -1] = \
-            np.conj(output[imsize:Np1:-1, 1:Np1 + 1, -1])
 
         # The 2D equivalents along the 0 frequency
         output[1:Np1 + 1, 0, 0] = np.conj(output[imsize:Np1:-1, 0, 0])
-        output[1:Np1 + 1, 0, -1] = np.conj(output[imsize:Np1:-1, 0, -1])
         output[0, 1:Np1 + 1, 0] = np.conj(output[0, imsize:Np1:-1, 0])
-        output[0, 1:Np1 + 1, -1] = np.conj(output[0, imsize:Np1:-1, -1])
 
     # Zero freq components must have no imaginary part to be own conjugate
     output[0, 0, 0] = output[0, 0, 0].real + 1j * 0.0
-    output[0, 0, -1] = output[0, 0, -1].real + 1j * 0.0
 
     newmap = np.fft.irfftn(output, s=(imsize, ) * 3)
 
@@ -222,13 +212,12 @@ def make_extended(imsize, powerlaw=2.0, theta=0., ellip=1.,
         output[1:Np1, -1] = np.conj(output[imsize:Np1:-1, -1])
         output[Np1, 0] = output[Np1, 0].real + 1j * 0.0
         output[Np1, -1] = output[Np1, -1].real + 1j * 0.0
+        output[0, -1] = output[0, -1].real + 1j * 0.0
 
     else:
         output[1:Np1 + 1, 0] = np.conj(output[imsize:Np1:-1, 0])
-        output[1:Np1 + 1, -1] = np.conj(output[imsize:Np1:-1, -1])
 
     # Zero freq components must have no imaginary part to be own conjugate
-    output[0, -1] = output[0, -1].real + 1j * 0.0
     output[0, 0] = output[0, 0].real + 1j * 0.0
 
     if return_fft:
-- 
2.43.0


From adcf815fec1aecc55c0ba9cd9b0b994420aff5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:53 +0000
Subject: [PATCH 083/121] fix: slope distances accept one break for both
 datasets

---
 turbustat/statistics/mvc/mvc.py            | 2 +-
 turbustat/statistics/pspec_bispec/pspec.py | 2 +-
 turbustat/statistics/vca_vcs/vca.py        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index 4bae685..382eab4 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -383,7 +383,7 @@ class MVC_Distance(object):
 
         low_cut, high_cut = check_fit_limits(low_cut, high_cut)
 
-        if not isinstance(breaks, list) and not isinstance(breaks, np.ndarray):
+        if not isinstance(breaks, list) and getattr(breaks, 'ndim', 0) == 0:
             breaks = [breaks] * 2
 
         if pspec2_kwargs is None:
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index 64a5978..e54e5b3 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -258,7 +258,7 @@ class PSpec_Distance(object):
 
         low_cut, high_cut = check_fit_limits(low_cut, high_cut)
 
-        if not isinstance(breaks, list) and not isinstance(breaks, np.ndarray):
+        if not isinstance(breaks, list) and getattr(breaks, 'ndim', 0) == 0:
             breaks = [breaks] * 2
 
         if pspec2_kwargs is None:
diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 2deb9dd..3051ff0 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -270,7 +270,7 @@ class VCA_Distance(object):
 
         low_cut, high_cut = check_fit_limits(low_cut, high_cut)
 
-        if not isinstance(breaks, list) and not isinstance(breaks, np.ndarray):
+        if not isinstance(breaks, list) and getattr(breaks, 'ndim', 0) == 0:
             breaks = [breaks] * 2
 
         if radial_pspec_kwargs2 is None:
-- 
2.43.0


From c3ce379689577cb781a1bd3f95975195e5c2f26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:53 +0000
Subject: [PATCH 084/121] fix: DeltaVariance_Distance compares the fit ranges
 as angular sizes

---
 .../delta_variance/delta_variance.py          | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index a7569a0..93d438c 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -891,9 +891,11 @@ class DeltaVariance_Distance(object):
             fit_range2 = self.delvar2.fit_range
 
             # The curve metric only makes sense if the same range is used for
-            # both
-            check_range = fit_range1[0] == fit_range2[0] and \
-                fit_range1[1] == fit_range2[1]
+            # both. The common lags have the same angular sizes.
+            check_range = all([np.isclose(self.delvar1._to_angular(r1).value,
+                                          self.delvar2._to_angular(r2).value,
+                                          rtol=1e-8, atol=0)
+                               for r1, r2 in zip(fit_range1, fit_range2)])
             if check_range:
 
                 # Lags are always in pixels. As are the limits
@@ -902,16 +904,16 @@ class DeltaVariance_Distance(object):
                 cuts2 = np.logical_and(self.delvar2.lags >= fit_range2[0],
                                        self.delvar2.lags <= fit_range2[1])
 
-                valids1 = np.logical_and(cuts1, ~all_nans)
-                valids2 = np.logical_and(cuts2, ~all_nans)
+                valids = np.logical_and(np.logical_and(cuts1, cuts2),
+                                        ~all_nans)
 
-                deltavar1_sum = np.sum(self.delvar1.delta_var[valids1])
+                deltavar1_sum = np.sum(self.delvar1.delta_var[valids])
                 deltavar1 = \
-                    np.log10(self.delvar1.delta_var[valids1] / deltavar1_sum)
+                    np.log10(self.delvar1.delta_var[valids] / deltavar1_sum)
 
-                deltavar2_sum = np.sum(self.delvar2.delta_var[valids2])
+                deltavar2_sum = np.sum(self.delvar2.delta_var[valids])
                 deltavar2 = \
-                    np.log10(self.delvar2.delta_var[valids2] / deltavar2_sum)
+                    np.log10(self.delvar2.delta_var[valids] / deltavar2_sum)
 
                 # Distance between two normalized curves
                 self._curve_distance = np.linalg.norm(deltavar1 - deltavar2)
-- 
2.43.0


From 97b0e7e6e2a1f59aff2c57c21ae9b1c994c7627d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:36 +0000
Subject: [PATCH 085/121] fix: DeltaVariance_Distance default lags fit in both
 datasets

---
 .../delta_variance/delta_variance.py          | 42 +++++++++----------
 1 file changed, 20 insertions(+), 22 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 93d438c..f438c6b 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -740,8 +740,21 @@ class DeltaVariance_Distance(object):
         if lags2 is not None and not hasattr(lags2, "unit"):
             lags2 = lags2 * u.pix
 
-        # Create a default set of lags, in pixels
         if use_common_lags:
+            # The scaling between the datasets when they are not on a common
+            # grid.
+            if _given_data1:
+                wcs1 = WCS(dataset1[1])
+            else:
+                wcs1 = self.delvar1._wcs
+            if _given_data2:
+                wcs2 = WCS(dataset2[1])
+            else:
+                wcs2 = self.delvar2._wcs
+
+            scale = common_scale(wcs1, wcs2)
+
+            # Create a default set of lags, in pixels
             if lags is None:
                 min_size = 3.0
                 nlags = 25
@@ -754,30 +767,15 @@ class DeltaVariance_Distance(object):
                 else:
                     shape2 = self.delvar2.data.shape
 
-                if min(shape1) > min(shape2):
-                    lags = \
-                        np.logspace(np.log10(min_size),
-                                    np.log10(min(shape2) / 2.),
-                                    nlags) * u.pix
-                else:
-                    lags = \
-                        np.logspace(np.log10(min_size),
-                                    np.log10(min(shape1) / 2.),
-                                    nlags) * u.pix
+                # The scaled lags need to fit in both datasets
+                max_size = min(min(shape1) / 2. / max(scale, 1.0),
+                               min(shape2) / 2. * min(scale, 1.0))
+
+                lags = np.logspace(np.log10(min_size), np.log10(max_size),
+                                   nlags) * u.pix
 
             # Now adjust the lags such they have a common scaling when the
             # datasets are not on a common grid.
-            if _given_data1:
-                wcs1 = WCS(dataset1[1])
-            else:
-                wcs1 = self.delvar1._wcs
-            if _given_data2:
-                wcs2 = WCS(dataset2[1])
-            else:
-                wcs2 = self.delvar2._wcs
-
-            scale = common_scale(wcs1, wcs2)
-
             if scale == 1.0:
                 lags1 = lags
                 lags2 = lags
-- 
2.43.0


From 6e3b5e90ea3de717f3f8d167de9af27acb972ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:00 +0000
Subject: [PATCH 086/121] fix: statistics accept data with units

---
 turbustat/io/input_base.py                          | 13 +++++++++++++
 turbustat/statistics/base_statistic.py              |  7 +++++++
 .../statistics/delta_variance/delta_variance.py     |  3 ++-
 turbustat/statistics/genus/genus.py                 |  3 +++
 turbustat/statistics/mvc/mvc.py                     | 12 ++++++++++--
 turbustat/statistics/pdf/compare_pdf.py             |  6 ++++--
 turbustat/statistics/pspec_bispec/pspec.py          |  4 +++-
 .../statistics/stat_moments/highstatmoments.py      |  3 ++-
 8 files changed, 44 insertions(+), 7 deletions(-)

diff --git a/turbustat/io/input_base.py b/turbustat/io/input_base.py
index ece69d6..285d692 100644
--- a/turbustat/io/input_base.py
+++ b/turbustat/io/input_base.py
@@ -3,6 +3,7 @@ from __future__ import print_function, absolute_import, division
 
 from astropy.io.fits.hdu.image import _ImageBaseHDU
 from astropy.io import fits
+import astropy.units as u
 import numpy as np
 
 try:
@@ -94,6 +95,18 @@ def input_data(data, no_header=False, need_copy=False):
     return output_data
 
 
+def strip_units(data):
+    '''
+    Return the values of data with units attached (e.g., from a
+    SpectralCube or Projection).
+    '''
+
+    if isinstance(data, u.Quantity):
+        return data.value
+
+    return data
+
+
 def to_spectral_cube(data, header):
     '''
     Convert the output from input_data into a SpectralCube.
diff --git a/turbustat/statistics/base_statistic.py b/turbustat/statistics/base_statistic.py
index 4b9aa9d..f8ba6b3 100644
--- a/turbustat/statistics/base_statistic.py
+++ b/turbustat/statistics/base_statistic.py
@@ -18,6 +18,7 @@ else:
     import cPickle as pickle
 
 from ..io import input_data
+from ..io.input_base import strip_units
 
 
 class BaseStatisticMixIn(object):
@@ -31,6 +32,9 @@ class BaseStatisticMixIn(object):
     # Disable this when the data property will not be used.
     no_data_flag = False
 
+    # Enable when a statistic handles data with units attached
+    keep_units_flag = False
+
     @property
     def header(self):
         return self._header
@@ -99,6 +103,9 @@ class BaseStatisticMixIn(object):
             if not isinstance(values, np.ndarray):
                 raise TypeError("Data is not a numpy array.")
 
+            if not self.keep_units_flag:
+                values = strip_units(values)
+
             self._data = values.squeeze()
 
     def input_data_header(self, data, header, need_copy=False):
diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index f438c6b..587b5ea 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -12,6 +12,7 @@ from astropy.utils.console import ProgressBar
 
 from ..base_statistic import BaseStatisticMixIn
 from ...io import common_types, twod_types, input_data
+from ...io.input_base import strip_units
 from ..stats_utils import common_scale, padwithzeros
 from ..fitting_utils import check_fit_limits, residual_bootstrap
 from .kernels import core_kernel, annulus_kernel
@@ -68,7 +69,7 @@ class DeltaVariance(BaseStatisticMixIn):
             # self.weights = np.ones(self.data.shape)
             self.weights = np.isfinite(self.data).astype(float)
         else:
-            self.weights = input_data(weights, no_header=True)
+            self.weights = strip_units(input_data(weights, no_header=True))
 
         if distance is not None:
             self.distance = distance
diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 4b62b78..6abc3d6 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -80,6 +80,9 @@ class Genus(BaseStatisticMixIn):
                  distance=None):
         super(Genus, self).__init__()
 
+        # Thresholds are compared to the data in its units
+        self.keep_units_flag = True
+
         # Projections are arrays that do have a header
         if isinstance(img, np.ndarray) and not hasattr(img, 'header'):
             self.need_header_flag = False
diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index 382eab4..0aa3489 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -16,6 +16,7 @@ else:
 from ..base_pspec2 import StatisticBase_PSpec2D
 from ..base_statistic import BaseStatisticMixIn
 from ...io import input_data, common_types, twod_types
+from ...io.input_base import strip_units
 from ..fitting_utils import check_fit_limits
 from ..rfft_to_fft import rfft_to_fft
 
@@ -62,13 +63,20 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
             self._centroid = input_data(centroid, no_header=True)
             self.header = header
 
+        linewidth = input_data(linewidth, no_header=True)
+
+        # The velocities have to be in the same unit
+        if hasattr(self._centroid, "unit") and hasattr(linewidth, "unit"):
+            linewidth = linewidth.to(self._centroid.unit)
+
+        self._centroid = strip_units(self._centroid)
         self.data = self.centroid
 
         if distance is not None:
             self.distance = distance
 
-        self._moment0 = input_data(moment0, no_header=True)
-        self._linewidth = input_data(linewidth, no_header=True)
+        self._moment0 = strip_units(input_data(moment0, no_header=True))
+        self._linewidth = strip_units(linewidth)
 
         shape_check1 = self.centroid.shape == self.moment0.shape
         shape_check2 = self.centroid.shape == self.linewidth.shape
diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index 0b4cddb..271db86 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -10,6 +10,7 @@ from warnings import warn
 from ..stats_utils import hellinger, common_histogram_bins, data_normalization
 from ..base_statistic import BaseStatisticMixIn
 from ...io import common_types, twod_types, threed_types, input_data
+from ...io.input_base import strip_units
 
 
 class PDF(BaseStatisticMixIn):
@@ -48,7 +49,7 @@ class PDF(BaseStatisticMixIn):
         self.need_header_flag = False
         self.header = None
 
-        output_data = input_data(img, no_header=True)
+        output_data = strip_units(input_data(img, no_header=True))
 
         self.img = output_data
 
@@ -59,7 +60,8 @@ class PDF(BaseStatisticMixIn):
 
         # Do the same for the weights, then apply weights to the data.
         if weights is not None:
-            output_weights = input_data(weights, no_header=True)
+            output_weights = strip_units(input_data(weights,
+                                                    no_header=True))
 
             self.weights = output_weights[keep_values]
 
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index e54e5b3..ab8b57d 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -11,6 +11,7 @@ from ..rfft_to_fft import rfft_to_fft
 from ..base_pspec2 import StatisticBase_PSpec2D
 from ..base_statistic import BaseStatisticMixIn
 from ...io import input_data, common_types, twod_types
+from ...io.input_base import strip_units
 from ..fitting_utils import check_fit_limits
 
 
@@ -51,7 +52,8 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
             weights = np.ones(self.data.shape)
         else:
             # Get rid of all NaNs. NaNs in the data are already set to 0.
-            weights = input_data(weights, no_header=True, need_copy=True)
+            weights = strip_units(input_data(weights, no_header=True,
+                                             need_copy=True))
             weights[np.isnan(weights)] = 0.0
 
         self.weighted_data = self.data * weights
diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index d9e907e..1d1d006 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -12,6 +12,7 @@ from ..stats_utils import (hellinger, kl_divergence, common_histogram_bins,
                            common_scale, padwithnans)
 from ..base_statistic import BaseStatisticMixIn
 from ...io import common_types, twod_types, input_data
+from ...io.input_base import strip_units
 
 
 class StatMoments(BaseStatisticMixIn):
@@ -51,7 +52,7 @@ class StatMoments(BaseStatisticMixIn):
         if weights is None:
             self.weights = np.ones_like(self.data)
         else:
-            self.weights = input_data(weights, no_header=True)
+            self.weights = strip_units(input_data(weights, no_header=True))
 
         if distance is not None:
             self.distance = distance
-- 
2.43.0


From 5fc1dfce2a747d324d5bf25f84be0af19da45ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:49 +0000
Subject: [PATCH 087/121] fix: distance metrics do not change the given plot
 keywords

---
 turbustat/statistics/delta_variance/delta_variance.py | 4 ++++
 turbustat/statistics/dendrograms/dendro_stats.py      | 8 ++++++++
 turbustat/statistics/mvc/mvc.py                       | 4 ++++
 turbustat/statistics/pca/pca.py                       | 4 ++++
 turbustat/statistics/pdf/compare_pdf.py               | 4 ++++
 turbustat/statistics/pspec_bispec/pspec.py            | 4 ++++
 turbustat/statistics/scf/scf.py                       | 4 ++++
 turbustat/statistics/stat_moments/highstatmoments.py  | 4 ++++
 turbustat/statistics/vca_vcs/vca.py                   | 4 ++++
 turbustat/statistics/vca_vcs/vcs.py                   | 4 ++++
 turbustat/statistics/wavelets/wavelet_transform.py    | 4 ++++
 11 files changed, 48 insertions(+)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 587b5ea..7a11ce8 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -940,6 +940,10 @@ class DeltaVariance_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            # Do not change the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 7f1d6e5..6f98619 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -643,6 +643,10 @@ class Dendrogram_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            # Do not change the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
@@ -770,6 +774,10 @@ class Dendrogram_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            # Do not change the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index 0aa3489..b7db045 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -478,6 +478,10 @@ class MVC_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            # Do not change the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 2687809..9b51f81 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -1155,6 +1155,10 @@ class PCA_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            # Do not change the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index 271db86..fd75491 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -730,6 +730,10 @@ class PDF_Distance(object):
             defaults1 = {'color': 'b', 'marker': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'marker': 'o', 'label': '2'}
 
+            # Do not change the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index ab8b57d..93b0cd0 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -368,6 +368,10 @@ class PSpec_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            # Do not change the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index 6eae96a..ef60319 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -1009,6 +1009,10 @@ class SCF_Distance(object):
             defaults1 = {'color': 'b', 'marker': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'marker': 'o', 'label': '2'}
 
+            # Do not change the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 1d1d006..271b6c7 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -701,6 +701,10 @@ class StatMoments_Distance(object):
             defaults1 = {'color': 'b', 'label': '1'}
             defaults2 = {'color': 'g', 'label': '2'}
 
+            # Do not change the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 3051ff0..d4b8d48 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -359,6 +359,10 @@ class VCA_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            # Do not change the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index b204431..4248832 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -516,6 +516,10 @@ class VCS_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            # Do not change the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 6c29540..c36787a 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -720,6 +720,10 @@ class Wavelet_Distance(object):
             defaults1 = {'color': 'b', 'symbol': 'D', 'label': '1'}
             defaults2 = {'color': 'g', 'symbol': 'o', 'label': '2'}
 
+            # Do not change the given dictionaries
+            plot_kwargs1 = dict(plot_kwargs1)
+            plot_kwargs2 = dict(plot_kwargs2)
+
             for key in defaults1:
                 if key not in plot_kwargs1:
                     plot_kwargs1[key] = defaults1[key]
-- 
2.43.0


From f519dc0a03a3eaeb0c99583f64f6b672bc171102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:47 +0000
Subject: [PATCH 088/121] fix: PCA.plot_fit can show widths of 0

---
 turbustat/statistics/pca/pca.py | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 9b51f81..ea7bcdd 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -864,20 +864,17 @@ class PCA(BaseStatisticMixIn):
 
             # Some very large error bars makes it difficult to see the model
             # Limit the range shown in the plot.
-            x_range = \
-                np.ptp(np.log10(spatial_width.value)
-                       [np.isfinite(spatial_width)])
-            y_range = \
-                np.ptp(np.log10(spectral_width.value)
-                       [np.isfinite(spectral_width)])
-            plt.xlim([np.log10(np.nanmin(spatial_width.value)) -
-                      y_range / 4,
-                      np.log10(np.nanmax(spatial_width.value)) +
-                      y_range / 4])
-            plt.ylim([np.log10(np.nanmin(spectral_width.value)) -
-                      x_range / 4,
-                      np.log10(np.nanmax(spectral_width.value)) +
-                      x_range / 4])
+            # Widths of 0 are not shown.
+            x_log = np.log10(spatial_width.value)
+            x_log = x_log[np.isfinite(x_log)]
+            y_log = np.log10(spectral_width.value)
+            y_log = y_log[np.isfinite(y_log)]
+            x_range = np.ptp(x_log)
+            y_range = np.ptp(y_log)
+            plt.xlim([x_log.min() - y_range / 4,
+                      x_log.max() + y_range / 4])
+            plt.ylim([y_log.min() - x_range / 4,
+                      y_log.max() + x_range / 4])
 
             if show_residual:
                 if show_cov_bar:
-- 
2.43.0


From 26a35d6191d3f67c7a2fcc6781c00e0876bcacab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:47 +0000
Subject: [PATCH 089/121] fix: kl_divergence drops values that are not finite
 as pairs

---
 turbustat/statistics/stats_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/stats_utils.py b/turbustat/statistics/stats_utils.py
index c355f22..56360fe 100644
--- a/turbustat/statistics/stats_utils.py
+++ b/turbustat/statistics/stats_utils.py
@@ -101,10 +101,9 @@ def kl_divergence(P, Q):
 
     kl_divergence : float
     '''
-    P = P[~np.isnan(P)]
-    Q = Q[~np.isnan(Q)]
-    P = P[np.isfinite(P)]
-    Q = Q[np.isfinite(Q)]
+    are_finite = np.logical_and(np.isfinite(P), np.isfinite(Q))
+    P = P[are_finite]
+    Q = Q[are_finite]
     return np.nansum(np.where(Q != 0, P * np.log(P / Q), 0))
 
 
-- 
2.43.0


From ca91091b1ae30607768e183f4752a932da83e764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:51 +0000
Subject: [PATCH 090/121] fix: Dendrogram_Distance.histogram_stat can be run
 again

---
 turbustat/statistics/dendrograms/dendro_stats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 6f98619..d6a8edb 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -508,6 +508,7 @@ class Dendrogram_Distance(object):
                               "Dendrogram_Stats.")
 
         self.nbins = nbins
+        self._nbins_input = nbins
 
         if min_deltas is None:
             # min_deltas = np.append(np.logspace(-1.5, -0.7, 8),
@@ -715,12 +716,12 @@ class Dendrogram_Distance(object):
             Set the color, symbol, and label for dataset2.
         '''
 
-        if self.nbins == "best":
+        if self._nbins_input == "best":
             self.nbins = [np.floor(np.sqrt((n1 + n2) / 2.)) for n1, n2 in
                           zip(self.dendro1.numfeatures[:self.cutoff],
                               self.dendro2.numfeatures[:self.cutoff])]
         else:
-            self.nbins = [self.nbins] * \
+            self.nbins = [self._nbins_input] * \
                 len(self.dendro1.numfeatures[:self.cutoff])
 
         self.nbins = np.array(self.nbins, dtype=int)
-- 
2.43.0


From 939f1d04053ec53263bca56e613bdf63be21f862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:23 +0000
Subject: [PATCH 091/121] fix: PDFs can be saved after fitting

---
 turbustat/statistics/pdf/compare_pdf.py | 101 +++++++++++++-----------
 1 file changed, 57 insertions(+), 44 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index fd75491..30d9303 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -13,6 +13,61 @@ from ...io import common_types, twod_types, threed_types, input_data
 from ...io.input_base import strip_units
 
 
+class _Likelihood(GenericLikelihoodModel):
+    '''
+    Likelihood of a scipy distribution. Defined here, rather than when
+    fitting, so that fitted PDFs can be pickled.
+    '''
+
+    def __init__(self, endog, dist, floc, loc, fscale, scale):
+
+        # Get the number of parameters from shapes.
+        # Add one for scales, since we're assuming loc is frozen.
+        # Keeping loc=0 is appropriate for log-normal models.
+        self.nparams = 1 if dist.shapes is None else \
+            len(dist.shapes.split(",")) + 1
+
+        self._dist = dist
+        self._floc = floc
+        self._loc = loc
+        self._fscale = fscale
+        self._scale = scale
+
+        super(_Likelihood, self).__init__(endog)
+
+    def loglike(self, params):
+        if np.isnan(params).any():
+            return - np.inf
+
+        if not self._floc and not self._fscale:
+            loc = params[-2]
+            scale = params[-1]
+            cut = -2
+        elif not self._floc:
+            loc = params[-1]
+            scale = self._scale
+            cut = -1
+        elif not self._fscale:
+            scale = params[-1]
+            loc = self._loc
+            cut = -1
+        else:
+            loc = self._loc
+            scale = self._scale
+            cut = None
+
+        loglikes = \
+            self._dist.logpdf(self.endog, *params[:cut],
+                              scale=scale,
+                              loc=loc)
+
+        if not np.isfinite(loglikes).all():
+            return -np.inf
+
+        else:
+            return loglikes.sum()
+
+
 class PDF(BaseStatisticMixIn):
     '''
     Create the PDF of a given array.
@@ -216,49 +271,6 @@ class PDF(BaseStatisticMixIn):
 
         self._do_fit = True
 
-        class Likelihood(GenericLikelihoodModel):
-
-            # Get the number of parameters from shapes.
-            # Add one for scales, since we're assuming loc is frozen.
-            # Keeping loc=0 is appropriate for log-normal models.
-            nparams = 1 if model.shapes is None else \
-                len(model.shapes.split(",")) + 1
-
-            _loc = loc
-            _scale = scale
-
-            def loglike(self, params):
-                if np.isnan(params).any():
-                    return - np.inf
-
-                if not floc and not fscale:
-                    loc = params[-2]
-                    scale = params[-1]
-                    cut = -2
-                elif not floc:
-                    loc = params[-1]
-                    scale = self._scale
-                    cut = -1
-                elif not fscale:
-                    scale = params[-1]
-                    loc = self._loc
-                    cut = -1
-                else:
-                    loc = self._loc
-                    scale = self._scale
-                    cut = None
-
-                loglikes = \
-                    model.logpdf(self.endog, *params[:cut],
-                                 scale=scale,
-                                 loc=loc)
-
-                if not np.isfinite(loglikes).all():
-                    return -np.inf
-
-                else:
-                    return loglikes.sum()
-
         def emcee_fit(model, init_params, burnin=200, steps=2000, thin=10):
 
             try:
@@ -298,7 +310,8 @@ class PDF(BaseStatisticMixIn):
 
         init_params = np.array(init_params)
 
-        self._model = Likelihood(self.data)
+        self._model = _Likelihood(self.data, model, floc, loc, fscale,
+                                  scale)
 
         self._scipy_model = model
 
-- 
2.43.0


From bbc7832241569c79ae49fae22575c17dfb896dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:23 +0000
Subject: [PATCH 092/121] fix: PowerSpectrum and PDF are saved without the data

---
 turbustat/statistics/base_statistic.py     | 6 +++++-
 turbustat/statistics/pdf/compare_pdf.py    | 2 ++
 turbustat/statistics/pspec_bispec/pspec.py | 2 ++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/base_statistic.py b/turbustat/statistics/base_statistic.py
index f8ba6b3..abb0e33 100644
--- a/turbustat/statistics/base_statistic.py
+++ b/turbustat/statistics/base_statistic.py
@@ -35,6 +35,9 @@ class BaseStatisticMixIn(object):
     # Enable when a statistic handles data with units attached
     keep_units_flag = False
 
+    # Attributes with the data, removed when saving without it
+    _data_attrs = ("_data",)
+
     @property
     def header(self):
         return self._header
@@ -152,7 +155,8 @@ class BaseStatisticMixIn(object):
 
         # Don't keep the whole cube unless keep_data enabled.
         if not keep_data:
-            self_copy._data = None
+            for name in self._data_attrs:
+                setattr(self_copy, name, None)
 
         with open(output_name, 'wb') as output:
                 pickle.dump(self_copy, output, -1)
diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index 30d9303..77d4f84 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -97,6 +97,8 @@ class PDF(BaseStatisticMixIn):
     __doc__ %= {"dtypes": " or ".join(common_types + twod_types +
                                       threed_types)}
 
+    _data_attrs = ("_data", "img")
+
     def __init__(self, img, min_val=-np.inf, bins=None, weights=None,
                  normalization_type=None):
         super(PDF, self).__init__()
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index 93b0cd0..00fde6c 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -36,6 +36,8 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
 
     __doc__ %= {"dtypes": " or ".join(common_types + twod_types)}
 
+    _data_attrs = ("_data", "weighted_data")
+
     def __init__(self, img, header=None, weights=None, distance=None,
                  beam=None):
         super(PowerSpectrum, self).__init__()
-- 
2.43.0


From bdf27e1fae4fe44dfcd60284c43f729138a4917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:45 +0000
Subject: [PATCH 093/121] fix: show the fit of power spectra for all x-axis
 units and broken fits

---
 turbustat/statistics/base_pspec2.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index a7d224b..9a3b633 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -652,14 +652,16 @@ class StatisticBase_PSpec2D(object):
         good_interval = clip_func(self.freqs.value, self.low_cut.value,
                                   self.high_cut.value)
 
+        # The fit is defined for the frequencies in 1/pix
+        if isinstance(self.slope, np.ndarray):
+            # Broken linear model
+            y_model = self._model.model(np.log10(self.freqs.value))
+        else:
+            y_model = \
+                self.fit.predict(sm.add_constant(np.log10(self.freqs.value)))
+
         if show_residual:
-            if isinstance(self.slope, np.ndarray):
-                # Broken linear model
-                y_res = np.log10(self.ps1D) - \
-                    self._model.model(np.log10(self.freqs.value))
-            else:
-                y_res = np.log10(self.ps1D) - \
-                    self.fit.predict(sm.add_constant(np.log10(self.freqs.value)))
+            y_res = np.log10(self.ps1D) - y_model
 
         fit_index = np.logical_and(np.isfinite(self.ps1D), good_interval)
 
@@ -716,8 +718,7 @@ class StatisticBase_PSpec2D(object):
                                    capsize=10, elinewidth=3)
 
         xvals_plot = np.log10(xvals[fit_index]).ravel()
-        # y_fit = self.fit.fittedvalues
-        y_fit = self.fit.predict(sm.add_constant(xvals_plot))
+        y_fit = y_model[fit_index]
 
         ax_1D.plot(xvals_plot, y_fit, linestyle='-',
                    label=label, linewidth=3, color=fit_color)
-- 
2.43.0


From bf2cbdfe86a5a0aed0a75f18743a89b7edd06187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:45 +0000
Subject: [PATCH 094/121] fix: DeltaVariance.plot_fit shows the residuals for
 all x-axis units

---
 turbustat/statistics/delta_variance/delta_variance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 7a11ce8..eff3410 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -576,7 +576,9 @@ class DeltaVariance(BaseStatisticMixIn):
         ax.grid(True)
 
         if show_residual:
-            resids = self.delta_var - 10**self.fitted_model(np.log10(lags))
+            pix_lags = self._to_pixel(self.lags).value
+            resids = self.delta_var - \
+                10**self.fitted_model(np.log10(pix_lags))
             ax_r.errorbar(lags[fin_vals], resids[fin_vals],
                           yerr=self.delta_var_error[fin_vals],
                           fmt="{}-".format(symbol), color=color,
-- 
2.43.0


From 1aafdbe5bd1d4ccb934131ecf1a65016fa38c3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:45 +0000
Subject: [PATCH 095/121] fix: Wavelet.plot_transform can show residuals when
 values are missing

---
 turbustat/statistics/wavelets/wavelet_transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index c36787a..b234dc9 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -516,7 +516,8 @@ class Wavelet(BaseStatisticMixIn):
             resids = self.values - \
                 10**self.fitted_model(np.log10(pix_scales.value))
 
-            ax_r.errorbar(scales, resids, yerr=self.stddev[fin_vals],
+            ax_r.errorbar(scales[fin_vals], resids[fin_vals],
+                          yerr=self.stddev[fin_vals],
                           fmt=symbol + "-", color=color, label=label,
                           markersize=5, alpha=0.5, capsize=10,
                           elinewidth=3)
-- 
2.43.0


From d6e7915d7799caa1c4936b1994bf861bd4f66521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:45 +0000
Subject: [PATCH 096/121] fix: PCA.plot_fit shows the requested number of
 eigenvalues

---
 turbustat/statistics/pca/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index ea7bcdd..221661e 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -795,7 +795,7 @@ class PCA(BaseStatisticMixIn):
             if n_eigs is None:
                 n_eigs = self.n_eigs
 
-            plt.bar(np.arange(1, self.n_eigs + 1), self.eigvals[:n_eigs],
+            plt.bar(np.arange(1, n_eigs + 1), self.eigvals[:n_eigs],
                     0.5, color=color)
             plt.xlim([0, n_eigs + 1])
             plt.xlabel('Eigenvalues')
-- 
2.43.0


From b480ac4ae2405be0e4b565513f4ef0f2e334ad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:45 +0000
Subject: [PATCH 097/121] fix: PDF.plot_distrib shows the ECDF of the fitted
 model

---
 turbustat/statistics/pdf/compare_pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index 77d4f84..435f280 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -514,7 +514,7 @@ class PDF(BaseStatisticMixIn):
                     ax2.semilogx(vals,
                                  self._scipy_model.cdf(vals, *params,
                                                        scale=scale,
-                                                       loc=0),
+                                                       loc=loc),
                                  '--', color=fit_color)
             plt.grid(True)
             plt.xlabel(xlabel)
-- 
2.43.0


From cca47b4d49856899c2145aa209d686b85a1fd059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:45 +0000
Subject: [PATCH 098/121] fix: Tsallis.plot_fit can show a single lag

---
 turbustat/statistics/tsallis/tsallis.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/tsallis/tsallis.py b/turbustat/statistics/tsallis/tsallis.py
index 8a78e14..d0eaf8f 100644
--- a/turbustat/statistics/tsallis/tsallis.py
+++ b/turbustat/statistics/tsallis/tsallis.py
@@ -296,7 +296,9 @@ class Tsallis(BaseStatisticMixIn):
         if fit_color is None:
             fit_color = color
 
-        fig, axes = plt.subplots(len(self.lags), 1, sharex=True)
+        fig, axes = plt.subplots(len(self.lags), 1, sharex=True,
+                                 squeeze=False)
+        axes = axes.ravel()
 
         for vals in zip(self.lags, self.lag_distribs,
                         self.lag_arrays, self.tsallis_params,
-- 
2.43.0


From 3d481a78c89392026c68cf39d36840ca148dbd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:56 +0000
Subject: [PATCH 099/121] fix: DeltaVariance_Distance keeps angular lags the
 same for both datasets

---
 turbustat/statistics/delta_variance/delta_variance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index eff3410..026874b 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -778,8 +778,8 @@ class DeltaVariance_Distance(object):
                                    nlags) * u.pix
 
             # Now adjust the lags such they have a common scaling when the
-            # datasets are not on a common grid.
-            if scale == 1.0:
+            # datasets are not on a common grid. Angular lags already do.
+            if scale == 1.0 or not lags.unit.is_equivalent(u.pix):
                 lags1 = lags
                 lags2 = lags
             elif scale > 1.0:
-- 
2.43.0


From fc0994940cc557524a61cf3f8b5166b0482514ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:20 +0000
Subject: [PATCH 100/121] fix: SCF default fit limits are in pixels for lags in
 other units

---
 turbustat/statistics/scf/scf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index ef60319..c1b8708 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -316,7 +316,7 @@ class SCF(BaseStatisticMixIn):
         else:
             lower_limit = \
                 np.ones_like(self.scf_spectrum, dtype=bool)
-            self._xlow = np.abs(self.lags).min()
+            self._xlow = self._to_pixel(np.abs(self.lags).min())
 
         if xhigh is not None:
             if not isinstance(xhigh, u.Quantity):
@@ -330,7 +330,7 @@ class SCF(BaseStatisticMixIn):
         else:
             upper_limit = \
                 np.ones_like(self.scf_spectrum, dtype=bool)
-            self._xhigh = np.abs(self.lags).max()
+            self._xhigh = self._to_pixel(np.abs(self.lags).max())
 
         within_limits = np.logical_and(lower_limit, upper_limit)
 
@@ -463,14 +463,14 @@ class SCF(BaseStatisticMixIn):
             xlow = self._to_pixel(xlow)
             self._xlow = xlow
         else:
-            self._xlow = np.abs(self.lags).min()
+            self._xlow = self._to_pixel(np.abs(self.lags).min())
 
         if xhigh is not None:
             # Convert xhigh into the same units as the lags
             xhigh = self._to_pixel(xhigh)
             self._xhigh = xhigh
         else:
-            self._xhigh = np.abs(self.lags).max()
+            self._xhigh = self._to_pixel(np.abs(self.lags).max())
 
         xlow_pix = self._to_pixel(self.xlow).value
         xhigh_pix = self._to_pixel(self.xhigh).value
-- 
2.43.0


From 664c77ea0b8133e2684de0a182fe21ccd48e045c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:07 +0000
Subject: [PATCH 101/121] fix: padwithzeros and padwithnans keep the data for a
 zero pad width

---
 turbustat/statistics/stats_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/stats_utils.py b/turbustat/statistics/stats_utils.py
index 56360fe..fb85628 100644
--- a/turbustat/statistics/stats_utils.py
+++ b/turbustat/statistics/stats_utils.py
@@ -606,11 +606,11 @@ def padwithzeros(vector, pad_width, iaxis, kwargs):
     Pad array with zeros.
     '''
     vector[:pad_width[0]] = 0
-    vector[-pad_width[1]:] = 0
+    vector[vector.size - pad_width[1]:] = 0
     return vector
 
 
 def padwithnans(vector, pad_width, iaxis, kwargs):
     vector[:pad_width[0]] = np.nan
-    vector[-pad_width[1]:] = np.nan
+    vector[vector.size - pad_width[1]:] = np.nan
     return vector
-- 
2.43.0


From b714483a46f943173f610d42336a601976e1dbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:07 +0000
Subject: [PATCH 102/121] fix: residual_bootstrap resamples all residuals and
 keeps the fit weights

---
 turbustat/statistics/fitting_utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/fitting_utils.py b/turbustat/statistics/fitting_utils.py
index edc9beb..b3b48f0 100644
--- a/turbustat/statistics/fitting_utils.py
+++ b/turbustat/statistics/fitting_utils.py
@@ -332,10 +332,11 @@ def residual_bootstrap(fit_model, nboot=1000, seed=38574895,
 
         for _ in range(nboot):
 
-            y_resamp = y + y_res[np.random.choice(y_res.size - 1, y_res.size)]
+            y_resamp = y + y_res[np.random.choice(y_res.size, y_res.size)]
 
+            # y_resamp is already whitened, so is fit without weights
             resamp_mod = fit_model.model.__class__(y_resamp,
-                                                   fit_model.model.exog)
+                                                   fit_model.model.wexog)
             resamp_fit = resamp_mod.fit(**fit_kwargs)
 
             if debug:
-- 
2.43.0


From eaa487a39b6a12807f5187da6e4a2bbeb85d3b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:15 +0000
Subject: [PATCH 103/121] fix: Genus_Distance keeps the headers for smoothing
 radii in angular units

---
 turbustat/statistics/genus/genus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 6abc3d6..4da0cb5 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -554,14 +554,14 @@ class Genus_Distance(object):
         img1 = standardize(img1)
         img2 = standardize(img2)
 
-        self.genus1 = Genus(img1, smoothing_radii=smoothing_radii,
+        self.genus1 = Genus((img1, hdr1), smoothing_radii=smoothing_radii,
                             numpts=numpts,
                             min_value=min_value[0], max_value=max_value[0],
                             lowdens_percent=lowdens_percent[0],
                             highdens_percent=highdens_percent[0])
         self.genus1.run(**genus_kwargs)
 
-        self.genus2 = Genus(img2, smoothing_radii=smoothing_radii,
+        self.genus2 = Genus((img2, hdr2), smoothing_radii=smoothing_radii,
                             numpts=numpts,
                             min_value=min_value[1], max_value=max_value[1],
                             lowdens_percent=lowdens_percent[1],
-- 
2.43.0


From ace9ccdf539a8bf510099abdf62fd02002b0b959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:15 +0000
Subject: [PATCH 104/121] fix: 2D fits do not use the azimuthal limits of an
 earlier spectrum

---
 turbustat/statistics/base_pspec2.py | 3 +++
 turbustat/statistics/scf/scf.py     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index 9a3b633..268c4e6 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -102,6 +102,9 @@ class StatisticBase_PSpec2D(object):
             self._freqs, self._ps1D, self._ps1D_stddev, self._azim_mask = out
         else:
             self._freqs, self._ps1D, self._ps1D_stddev = out
+            # Remove constraints from a previous call
+            if hasattr(self, "_azim_mask"):
+                del self._azim_mask
 
         # Attach units to freqs
         self._freqs = self.freqs / u.pix
diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index c1b8708..dbdabdc 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -278,6 +278,9 @@ class SCF(BaseStatisticMixIn):
                 self._azim_mask = out
         else:
             self._lags, self._scf_spectrum, self._scf_spectrum_stddev = out
+            # Remove constraints from a previous call
+            if hasattr(self, "_azim_mask"):
+                del self._azim_mask
 
         roll_lag_diff = np.abs(self.roll_lags[1] - self.roll_lags[0])
 
-- 
2.43.0


From 884e027610efd3a4df7820a46f1357b8fd7017d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:15 +0000
Subject: [PATCH 105/121] fix: StatMoments accepts an array of histogram bins

---
 turbustat/statistics/stat_moments/highstatmoments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 271b6c7..3124520 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -64,7 +64,8 @@ class StatMoments(BaseStatisticMixIn):
         else:
             self.nbins = nbins
 
-        self.nbins = int(self.nbins)
+        if np.isscalar(self.nbins):
+            self.nbins = int(self.nbins)
 
     @property
     def radius(self):
-- 
2.43.0


From cd2372cb4f5ec143a89f94c566aca22fd332e9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:15 +0000
Subject: [PATCH 106/121] fix: check_fit_limits accepts floats

---
 turbustat/statistics/fitting_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turbustat/statistics/fitting_utils.py b/turbustat/statistics/fitting_utils.py
index b3b48f0..1247a0a 100644
--- a/turbustat/statistics/fitting_utils.py
+++ b/turbustat/statistics/fitting_utils.py
@@ -291,6 +291,8 @@ def check_fit_limits(xlow, xhigh):
     elif isinstance(xlow, u.Quantity):
         if xlow.isscalar:
             xlow = u.Quantity([xlow] * 2)
+    elif np.isscalar(xlow):
+        xlow = np.array([xlow] * 2)
 
     if not len(xlow) == 2:
         raise ValueError("xlow must be a 2-element array when giving "
@@ -301,6 +303,8 @@ def check_fit_limits(xlow, xhigh):
     elif isinstance(xhigh, u.Quantity):
         if xhigh.isscalar:
             xhigh = u.Quantity([xhigh] * 2)
+    elif np.isscalar(xhigh):
+        xhigh = np.array([xhigh] * 2)
 
     if not len(xhigh) == 2:
         raise ValueError("xhigh must be a 2-element array when giving "
-- 
2.43.0


From c7ec669e9c59ee5a07465ace2260cfb126b13ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:15 +0000
Subject: [PATCH 107/121] fix: EllipseModel.estimate_stderrs ignores failed
 fits of resampled points

---
 turbustat/statistics/stats_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/stats_utils.py b/turbustat/statistics/stats_utils.py
index fb85628..5ad83b1 100644
--- a/turbustat/statistics/stats_utils.py
+++ b/turbustat/statistics/stats_utils.py
@@ -475,7 +475,8 @@ class EllipseModel(object):
             _ = plt.hist(params[4], bins=10)
             plt.axvline(self.params[4])
 
-        self.percentiles = np.percentile(params,
+        # Resampled points that cannot be fit have no parameters
+        self.percentiles = np.nanpercentile(params,
                                          [100 * (0.5 - alpha / 2.),
                                           100 * (0.5 + alpha / 2.)],
                                          axis=1)
-- 
2.43.0


From d7d80e58c26c86d5feec5ac6a468d8052c88dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:34 +0000
Subject: [PATCH 108/121] fix: EllipseModel axes are always ordered, so
 bootstrapped errors do not mix them

---
 turbustat/statistics/stats_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turbustat/statistics/stats_utils.py b/turbustat/statistics/stats_utils.py
index 5ad83b1..b6b570d 100644
--- a/turbustat/statistics/stats_utils.py
+++ b/turbustat/statistics/stats_utils.py
@@ -279,6 +279,10 @@ class EllipseModel(object):
         # seeks for empty matrix
         if 0 in a1.shape or len(a1.ravel()) != 3:
             return False
+        # The sign of the eigenvector is arbitrary. Fix it so the first axis
+        # is always the major axis
+        if a1[0, 0] < 0:
+            a1 = -a1
         a, b, c = a1.ravel()
 
         # |d f g> = -S3^(-1)*S2^(T)*|a b c> [eqn. 24]
-- 
2.43.0


From 5d928c88b46fd7e774a37af730de81377c29b0bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:24 +0000
Subject: [PATCH 109/121] fix: the standard error of breaks is that of the
 break, not of the step in the data

---
 turbustat/statistics/lm_seg.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index b583367..e1ec2aa 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -295,10 +295,11 @@ def brk_errs(params, cov):
     # Var gamma
     term1 = cov[3, 3]
 
-    # Var beta * (beta/gamma)^2`
+    # Var beta * (gamma/beta)^2`
     term2 = cov[2, 2] * (params[3] / params[2])**2.
 
     # Correlation b/w gamma and beta
     term3 = 2 * cov[3, 2] * (params[3] / params[2])
 
-    return np.sqrt(term1 + term2 + term3)
+    # The break is adjusted by gamma/beta
+    return np.sqrt(term1 + term2 - term3) / np.abs(params[2])
-- 
2.43.0


From cc88169d8239e7278d6dbf3ceed6af31f2b960b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:43 +0000
Subject: [PATCH 110/121] fix: bootstrapped errors of broken fits are those of
 the slopes and the break

---
 turbustat/statistics/base_pspec2.py           | 11 +++----
 .../delta_variance/delta_variance.py          | 11 +++----
 turbustat/statistics/fitting_utils.py         | 32 +++++++++++++++++++
 turbustat/statistics/vca_vcs/vcs.py           | 11 +++----
 .../statistics/wavelets/wavelet_transform.py  | 11 +++----
 5 files changed, 52 insertions(+), 24 deletions(-)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index 268c4e6..65a8af3 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -9,7 +9,8 @@ from numpy.fft import fftshift
 
 from .lm_seg import Lm_Seg
 from .psds import pspec, make_radial_freq_arrays
-from .fitting_utils import clip_func, residual_bootstrap
+from .fitting_utils import (clip_func, residual_bootstrap,
+                            segmented_bootstrap)
 from .elliptical_powerlaw import (fit_elliptical_powerlaw,
                                   inverse_interval_transform,
                                   inverse_interval_transform_stderr)
@@ -260,12 +261,10 @@ class StatisticBase_PSpec2D(object):
                     self._slope = brk_fit.slopes
 
                     if bootstrap:
-                        stderrs = residual_bootstrap(brk_fit.fit,
-                                                     **bootstrap_kwargs)
-
-                        self._slope_err = stderrs[1:-1]
+                        self._slope_err, brk_err = \
+                            segmented_bootstrap(brk_fit, **bootstrap_kwargs)
                         self._brk_err = np.log(10) * self.brk.value * \
-                            stderrs[-1] / u.pix
+                            brk_err / u.pix
 
                     else:
                         self._slope_err = brk_fit.slope_errs
diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 026874b..7dcd892 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -14,7 +14,8 @@ from ..base_statistic import BaseStatisticMixIn
 from ...io import common_types, twod_types, input_data
 from ...io.input_base import strip_units
 from ..stats_utils import common_scale, padwithzeros
-from ..fitting_utils import check_fit_limits, residual_bootstrap
+from ..fitting_utils import (check_fit_limits, residual_bootstrap,
+                             segmented_bootstrap)
 from .kernels import core_kernel, annulus_kernel
 from ..stats_warnings import TurbuStatMetricWarning
 from ..lm_seg import Lm_Seg
@@ -387,12 +388,10 @@ class DeltaVariance(BaseStatisticMixIn):
                     self._slope = model.slopes
 
                     if bootstrap:
-                        stderrs = residual_bootstrap(model.fit,
-                                                     **bootstrap_kwargs)
-
-                        self._slope_err = stderrs[1:-1]
+                        self._slope_err, brk_err = \
+                            segmented_bootstrap(model, **bootstrap_kwargs)
                         self._brk_err = np.log(10) * self.brk.value * \
-                            stderrs[-1] * u.pix
+                            brk_err * u.pix
 
                     else:
                         self._slope_err = model.slope_errs
diff --git a/turbustat/statistics/fitting_utils.py b/turbustat/statistics/fitting_utils.py
index 1247a0a..9e376e8 100644
--- a/turbustat/statistics/fitting_utils.py
+++ b/turbustat/statistics/fitting_utils.py
@@ -364,3 +364,35 @@ def residual_bootstrap(fit_model, nboot=1000, seed=38574895,
         return resamps
 
     return np.std(resamps, axis=0)
+
+
+def segmented_bootstrap(seg_model, **kwargs):
+    '''
+    Bootstrapped standard errors of the slopes and the break of a
+    `~turbustat.statistics.lm_seg.Lm_Seg` model.
+
+    Parameters
+    ----------
+    seg_model : `~turbustat.statistics.lm_seg.Lm_Seg`
+        Segmented model after fitting.
+    kwargs : Passed to `~residual_bootstrap`.
+
+    Returns
+    -------
+    slope_errs : `~numpy.ndarray`
+        Standard errors of the slopes.
+    brk_err : float
+        Standard error of the break.
+    '''
+
+    samps = residual_bootstrap(seg_model.fit, return_samps=True, **kwargs)
+
+    if seg_model.break_fail_flag:
+        return np.std(samps[:, 1:2], axis=0), 0.0
+
+    # The second slope is given relative to the first.
+    slope_errs = np.std(np.cumsum(samps[:, 1:-1], axis=1), axis=0)
+    # The break is adjusted by the ratio of the last two parameters.
+    brk_err = np.std(samps[:, -1]) / np.abs(seg_model.params[2])
+
+    return slope_errs, brk_err
diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 4248832..b3d08f5 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -10,7 +10,7 @@ from ..lm_seg import Lm_Seg
 from ..rfft_to_fft import rfft_to_fft
 from ..base_statistic import BaseStatisticMixIn
 from ...io import common_types, threed_types
-from ..fitting_utils import clip_func, residual_bootstrap
+from ..fitting_utils import clip_func, segmented_bootstrap
 
 
 class VCS(BaseStatisticMixIn):
@@ -210,12 +210,11 @@ class VCS(BaseStatisticMixIn):
         self.fit.fit_model(verbose=fit_verbose, cov_type='HC3')
 
         if bootstrap:
-            stderrs = residual_bootstrap(self.fit.fit,
-                                         **bootstrap_kwargs)
-
-            self._slope_errs = stderrs[1:-1]
+            self._slope_errs, self._brk_err = \
+                segmented_bootstrap(self.fit, **bootstrap_kwargs)
         else:
             self._slope_errs = self.fit.slope_errs
+            self._brk_err = self.fit.brk_err
 
         self._slope = self.fit.slopes
 
@@ -247,7 +246,7 @@ class VCS(BaseStatisticMixIn):
         '''
         1-sigma on the break point.
         '''
-        return self.fit.brk_err
+        return self._brk_err
 
     def plot_fit(self, save_name=None, xunit=u.pix**-1, color='r',
                  symbol='o', fit_color='k', label=None, show_residual=True):
diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index b234dc9..7754d0a 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -25,7 +25,8 @@ except ImportError:
 
 from ..base_statistic import BaseStatisticMixIn
 from ...io import common_types, twod_types
-from ..fitting_utils import check_fit_limits, residual_bootstrap
+from ..fitting_utils import (check_fit_limits, residual_bootstrap,
+                             segmented_bootstrap)
 from ..lm_seg import Lm_Seg
 
 
@@ -326,12 +327,10 @@ class Wavelet(BaseStatisticMixIn):
                     self._slope = model.slopes
 
                     if bootstrap:
-                        stderrs = residual_bootstrap(model.fit,
-                                                     **bootstrap_kwargs)
-
-                        self._slope_err = stderrs[1:-1]
+                        self._slope_err, brk_err = \
+                            segmented_bootstrap(model, **bootstrap_kwargs)
                         self._brk_err = np.log(10) * self.brk.value * \
-                            stderrs[-1] * u.pix
+                            brk_err * u.pix
 
                     else:
                         self._slope_err = model.slope_errs
-- 
2.43.0


From b926b67a7db4aabfea87be348e4e98e924db183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:05 +0000
Subject: [PATCH 111/121] fix: the standard error of breaks uses the covariance
 of the final fit

---
 turbustat/statistics/lm_seg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index e1ec2aa..2ffa31e 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -202,7 +202,7 @@ class Lm_Seg(object):
         self._errs = self.fit.bse
 
         if not self.break_fail_flag:
-            self.brk_err = brk_errs(self.params, fit.cov_params())
+            self.brk_err = brk_errs(self.params, self.fit.cov_params())
         else:
             self.brk_err = 0.0
 
-- 
2.43.0


From 6097c8b95f1631985266873a891ad01edba8d8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:52 +0000
Subject: [PATCH 112/121] fix: spectral_regrid_cube is not affected by
 round-off in the spectral axis

---
 turbustat/statistics/vca_vcs/slice_thickness.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/slice_thickness.py b/turbustat/statistics/vca_vcs/slice_thickness.py
index fea10ce..0a22391 100644
--- a/turbustat/statistics/vca_vcs/slice_thickness.py
+++ b/turbustat/statistics/vca_vcs/slice_thickness.py
@@ -110,6 +110,8 @@ def spectral_regrid_cube(cube, channel_width, method='downsample',
                 channel_width = int((np.ceil(channel_width.value)))
             elif channel_width.unit.is_equivalent(cube.spectral_axis.unit):
                 ratio = (channel_width / orig_width).to(u.one).value
+                # Avoid adding a channel from round-off in the spectral axis
+                ratio = np.round(ratio, 6)
                 channel_width = int(np.ceil(ratio))
             else:
                 raise u.UnitsError("channel_width must be given in pixel units"
@@ -139,7 +141,9 @@ def spectral_regrid_cube(cube, channel_width, method='downsample',
         else:
             target_resolution = channel_width.to(current_resolution.unit)
 
-        diff_factor = np.abs(target_resolution / current_resolution).value
+        # Avoid round-off in the spectral axis
+        diff_factor = np.round(np.abs(target_resolution /
+                                      current_resolution).value, 6)
 
         if diff_factor == 1:
             warn("The requested channel width match the original channel "
-- 
2.43.0


From cfea2ba21c18ac938f50663db289bfce64a7a43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:44 +0000
Subject: [PATCH 113/121] fix: integer data are converted to floats

---
 turbustat/io/input_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/turbustat/io/input_base.py b/turbustat/io/input_base.py
index 285d692..358c7d5 100644
--- a/turbustat/io/input_base.py
+++ b/turbustat/io/input_base.py
@@ -89,6 +89,10 @@ def input_data(data, no_header=False, need_copy=False):
                             " or a tuple or list containing the data and"
                             " header, in that order.")
 
+    # Integers overflow, and cannot be NaN
+    if getattr(output_data[0], 'dtype', np.dtype(float)).kind in 'iu':
+        output_data[0] = output_data[0].astype(float)
+
     if no_header:
         return output_data[0]
 
-- 
2.43.0


From 759b501db17ace019f717b8644b92149528c5f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:07 +0000
Subject: [PATCH 114/121] fix: Genus_Distance normalizes by the area of grids
 with other pixel sizes

---
 turbustat/statistics/genus/genus.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 4da0cb5..15f496a 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -609,12 +609,13 @@ class Genus_Distance(object):
 
         points = np.linspace(min_pt, max_pt, 2 * num_pts)
 
-        # Divide each by the area of the data. genus1 is additionally
-        # adjusted by the scale factor of the angular size between the
-        # datasets.
-        genus1 = self.genus1.genus_stats[0, :] / \
-            float(self.genus1.data.size / self.scale)
-        genus2 = self.genus2.genus_stats[0, :] / float(self.genus2.data.size)
+        # Divide each by the area of the data. When the datasets are not on a
+        # common grid, the areas are in units of the larger pixel area.
+        area1 = self.genus1.data.size * min(1 / self.scale, 1.0)**2
+        area2 = self.genus2.data.size * min(self.scale, 1.0)**2
+
+        genus1 = self.genus1.genus_stats[0, :] / float(area1)
+        genus2 = self.genus2.genus_stats[0, :] / float(area2)
 
         interp1 = \
             InterpolatedUnivariateSpline(self.genus1.thresholds,
-- 
2.43.0


From a1392965c065e16cb21dc02a94541276e9efe768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:20 +0000
Subject: [PATCH 115/121] fix: radial weighting is used in the bootstrap of the
 2D fit

---
 turbustat/statistics/elliptical_powerlaw.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/elliptical_powerlaw.py b/turbustat/statistics/elliptical_powerlaw.py
index c87fa45..105edaf 100644
--- a/turbustat/statistics/elliptical_powerlaw.py
+++ b/turbustat/statistics/elliptical_powerlaw.py
@@ -138,7 +138,9 @@ def fit_elliptical_powerlaw(values, x, y, p0, fit_method='LevMarq',
 
                 resamp_vals = values + resid[np.random.permutation(resid.size)]
 
-                boot_model = boot_fit(fit_model, x, y, resamp_vals)
+                boot_model = boot_fit(fit_model, x, y, resamp_vals,
+                                      weights=weights,
+                                      estimate_jacobian=True)
 
                 params[:, i] = boot_model.parameters
 
-- 
2.43.0


From c0416164cb0d88369e3929d34b55e6ff9ab8b369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:27 +0000
Subject: [PATCH 116/121] fix: PDF.trace_plot works with a single free
 parameter

---
 turbustat/statistics/pdf/compare_pdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index 435f280..b1dd08a 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -412,7 +412,7 @@ class PDF(BaseStatisticMixIn):
 
         import matplotlib.pyplot as plt
 
-        fig, axes = plt.subplots(npars, 1, sharex=True)
+        fig, axes = plt.subplots(npars, 1, sharex=True, squeeze=False)
         for i, ax in enumerate(axes.ravel()):
             ax.plot(self._mcmc_chain.flatchain[:, i], **kwargs)
             ax.set_ylabel("par{}".format(i + 1))
-- 
2.43.0


From e217d7afefb52a4c9586ed352c269837dae2c68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:27 +0000
Subject: [PATCH 117/121] fix: SCF.plot_fit uses a single existing axis for the
 panel shown

---
 turbustat/statistics/scf/scf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index dbdabdc..885a2e9 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -621,9 +621,9 @@ class SCF(BaseStatisticMixIn):
                 ax2, ax_r = axes
         elif len(axes) == 1:
             if show_radial:
-                ax = axes[0]
-            else:
                 ax2 = axes[0]
+            else:
+                ax = axes[0]
         else:
             if show_surface:
                 if show_radial:
-- 
2.43.0


From cf898c954f3a65e36029905bf54772ce9d4df758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:18 +0000
Subject: [PATCH 118/121] fix: standard errors of 2D Gaussian widths use all
 pixels

---
 turbustat/statistics/pca/width_estimate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index d6914c6..db9b0df 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -423,7 +423,8 @@ def fit_2D_gaussian(xmat, ymat, z):
         astropy_models.Const2D(amplitude=[np.percentile(z, 10)])
 
     fit_g = fitting.LevMarLSQFitter()
-    output = fit_g(g, xmat, ymat, z)
+    # The degrees of freedom of the covariance are the length of 1D data.
+    output = fit_g(g, xmat.ravel(), ymat.ravel(), z.ravel())
     cov = fit_g.fit_info['param_cov']
 
     if cov is None:
-- 
2.43.0


From 73ecb9ef15e2bdecbce535b0e4917effc57fbd7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:29 +0000
Subject: [PATCH 119/121] fix: dendrograms are saved when asked for, and can be
 loaded

---
 .../statistics/dendrograms/dendro_stats.py    | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index d6a8edb..0386658 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -172,6 +172,15 @@ class Dendrogram_Stats(BaseStatisticMixIn):
                                    neighbours=neighbours)
         else:
             d = dendro_obj
+
+        if save_dendro:
+            if dendro_name is None:
+                raise ValueError("dendro_name must be given to save the "
+                                 "dendrogram.")
+            if d.wcs is None:
+                d.wcs = self._wcs
+            d.save_to("{}.hdf5".format(dendro_name))
+
         self._numfeatures[0] = len(d)
         self._values.append(np.array([struct.vmax for struct in
                                       d.all_structures]))
@@ -321,7 +330,7 @@ class Dendrogram_Stats(BaseStatisticMixIn):
         return self._tail_slope_err
 
     @staticmethod
-    def load_dendrogram(hdf5_file, min_deltas=None):
+    def load_dendrogram(hdf5_file, min_deltas=None, header=None):
         '''
         Load in a previously saved dendrogram. **Requires pyHDF5**
 
@@ -331,11 +340,18 @@ class Dendrogram_Stats(BaseStatisticMixIn):
             Name of saved file.
         min_deltas : numpy.ndarray or list
             Minimum deltas of leaves in the dendrogram.
+        header : FITS header, optional
+            Header of the data. The default uses the WCS saved with the
+            dendrogram.
         '''
 
         dendro = Dendrogram.load_from(hdf5_file)
 
-        self = Dendrogram_Stats(dendro.data, min_deltas=min_deltas,
+        if header is None and dendro.wcs is not None:
+            header = dendro.wcs.to_header()
+
+        self = Dendrogram_Stats(dendro.data, header=header,
+                                min_deltas=min_deltas,
                                 dendro_params=dendro.params)
 
         return self
-- 
2.43.0


From 7fc281cff19e94c13f693e4d2ba2df0b09a2d100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:31 +0000
Subject: [PATCH 120/121] fix: Gaussian widths of elongated autocorrelations
 start from their shape

---
 turbustat/statistics/pca/width_estimate.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index db9b0df..8c28448 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -414,9 +414,17 @@ def fit_2D_gaussian(xmat, ymat, z):
     Return fitted model parameters
     '''
 
-    g = astropy_models.Gaussian2D(x_mean=[0], y_mean=[0], x_stddev=[1],
-                                  y_stddev=[1], amplitude=z.max(),
-                                  theta=[0],
+    # Start from the second moments of the region above the 1/e level. The
+    # angle has no gradient for a fit started from a circle.
+    peak = z >= min(z.max() * np.exp(-1), z.max())
+    evals, evecs = np.linalg.eigh(np.cov(xmat[peak], ymat[peak], bias=True))
+    stddevs = np.sqrt(2 * np.maximum(evals, 0.5))
+    theta = np.arctan2(evecs[1, 0], evecs[0, 0])
+
+    g = astropy_models.Gaussian2D(x_mean=[0], y_mean=[0],
+                                  x_stddev=stddevs[:1],
+                                  y_stddev=stddevs[1:], amplitude=z.max(),
+                                  theta=[theta],
                                   fixed={'amplitude': True,
                                          'x_mean': True,
                                          'y_mean': True}) + \
-- 
2.43.0


From 8f1423da51d877041493ec02dd679199ae44b18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:40 +0000
Subject: [PATCH 121/121] fix: interpolated widths use radii scaled to the
 fitted shape

---
 turbustat/statistics/pca/width_estimate.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index 8c28448..b412d68 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -139,7 +139,7 @@ def WidthEstimate2D(inList, method='contour', noise_ACF=0,
                 theta = output.theta_0.value
 
             rmat = ((xmat * np.cos(theta) + ymat * np.sin(theta))**2 +
-                    (-xmat * np.sin(theta) + ymat * np.cos(theta))**2 *
+                    (-xmat * np.sin(theta) + ymat * np.cos(theta))**2 /
                     aspect**2)**0.5
             rvec = rmat.ravel()
             zvec = z.ravel()
@@ -151,7 +151,7 @@ def WidthEstimate2D(inList, method='contour', noise_ACF=0,
             spl = LSQUnivariateSpline(zvec, rvec, zvec[dz:-dz:dz])
 
             x_scales[idx] = spl(np.exp(-1)) / np.sqrt(2)
-            y_scales[idx] = spl(np.exp(-1)) / np.sqrt(2)
+            y_scales[idx] = x_scales[idx] * aspect
 
             # Need to implement some error estimation
             x_scale_errors[idx] = 0.0
-- 
2.43.0

