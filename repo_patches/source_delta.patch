From 8d621ecd6b6930134e318e38821eca4550ebe713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:05 +0000
Subject: [PATCH 01/63] fix: PowerSpectrum no longer overwrites the weights
 array it is given

---
 turbustat/statistics/pspec_bispec/pspec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index bc040aa..2caa0e5 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -53,6 +53,8 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
             # Get rid of all NaNs
             isnan = np.isnan(self.data)
 
+            # Work on a copy so the given array is not altered
+            weights = weights.copy()
             weights[np.isnan(weights)] = 0.0
             weights[isnan] = 0.0
             self.data[isnan] = 0.0
-- 
2.43.0


From 527b1675e5216ce650948b6f3d3d11836bcd7184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:22 +0000
Subject: [PATCH 02/63] fix: channel width given in another velocity unit is
 converted before rounding up

---
 turbustat/statistics/vca_vcs/slice_thickness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/slice_thickness.py b/turbustat/statistics/vca_vcs/slice_thickness.py
index 33c542c..0ed96ae 100644
--- a/turbustat/statistics/vca_vcs/slice_thickness.py
+++ b/turbustat/statistics/vca_vcs/slice_thickness.py
@@ -109,7 +109,8 @@ def spectral_regrid_cube(cube, channel_width, method='downsample',
             if channel_width.unit.is_equivalent(u.pix):
                 channel_width = int((np.ceil(channel_width.value)))
             elif channel_width.unit.is_equivalent(cube.spectral_axis.unit):
-                channel_width = int((np.ceil(channel_width / orig_width)).value)
+                ratio = (channel_width / orig_width).to(u.dimensionless_unscaled)
+                channel_width = int(np.ceil(ratio.value))
             else:
                 raise u.UnitsError("channel_width must be given in pixel units"
                                    " or the same spectral unit as the cube.")
-- 
2.43.0


From 23bbbcbc0dfed7e6b2db1a1dcf032767087c9521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:22 +0000
Subject: [PATCH 03/63] fix: spectral_regrid_cube passes downsamp_function on
 to the down-sampling

---
 turbustat/statistics/vca_vcs/slice_thickness.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/slice_thickness.py b/turbustat/statistics/vca_vcs/slice_thickness.py
index 0ed96ae..68ece22 100644
--- a/turbustat/statistics/vca_vcs/slice_thickness.py
+++ b/turbustat/statistics/vca_vcs/slice_thickness.py
@@ -115,7 +115,8 @@ def spectral_regrid_cube(cube, channel_width, method='downsample',
                 raise u.UnitsError("channel_width must be given in pixel units"
                                    " or the same spectral unit as the cube.")
 
-        return cube.downsample_axis(channel_width, axis=0)
+        return cube.downsample_axis(channel_width, axis=0,
+                                    estimator=downsamp_function)
 
     else:
         # Must then be regrid
-- 
2.43.0


From d98a8ce5f1ed61077e934a15d964621f1dc5a3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:31 +0000
Subject: [PATCH 04/63] fix: SCF compares the boundary name by value, not by
 identity

---
 turbustat/statistics/scf/scf.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index fdb0cde..38def2f 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -199,7 +199,7 @@ class SCF(BaseStatisticMixIn):
                     shift_func = fourier_shift
                 tmp = shift_func(tmp, y_shift, axis=2)
 
-            if boundary is "cut":
+            if boundary == "cut":
                 # Always round up to the nearest integer.
                 x_shift = np.ceil(x_shift).astype(int)
                 y_shift = np.ceil(y_shift).astype(int)
@@ -219,7 +219,7 @@ class SCF(BaseStatisticMixIn):
 
                 data_slice = (slice(None), x_slice_data, y_slice_data)
                 tmp_slice = (slice(None), x_slice_tmp, y_slice_tmp)
-            elif boundary is "continuous":
+            elif boundary == "continuous":
                 data_slice = (slice(None),) * 3
                 tmp_slice = (slice(None),) * 3
 
-- 
2.43.0


From 90d1404926ebafc6ca7c37bd4fb10427198fc520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:19 +0000
Subject: [PATCH 05/63] fix: DeltaVariance.lags keeps lags set in other units
 in pixels, as they are used

---
 turbustat/statistics/delta_variance/delta_variance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 989d282..744196c 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -116,7 +116,7 @@ class DeltaVariance(BaseStatisticMixIn):
                              " the image size. Remove these lags from the "
                              "array.")
 
-        self._lags = values
+        self._lags = pix_lags
 
     @property
     def weights(self):
-- 
2.43.0


From 21c8021f23146cfdc0037b30c11b4c2dbccdffa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:19 +0000
Subject: [PATCH 06/63] fix: DeltaVariance.convolve_arrays and convolve_weights
 return the kept arrays

---
 turbustat/statistics/delta_variance/delta_variance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 744196c..9b46d9e 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -267,14 +267,14 @@ class DeltaVariance(BaseStatisticMixIn):
         if len(self._convolved_arrays) == 0:
             warn("Run `DeltaVariance.compute_deltavar` with "
                  "`keep_convolve_arrays=True`")
-        return self._convolve_arrays
+        return self._convolved_arrays
 
     @property
     def convolve_weights(self):
         if len(self._convolved_weights) == 0:
             warn("Run `DeltaVariance.compute_deltavar` with "
                  "`keep_convolve_arrays=True`")
-        return self._convolve_arrays
+        return self._convolved_weights
 
     @property
     def delta_var(self):
-- 
2.43.0


From 57958dce70a02f1abacfd4dd45455a42b034c6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:36 +0000
Subject: [PATCH 07/63] fix: DeltaVariance_Distance tests dataset2 itself for
 being a DeltaVariance object

---
 turbustat/statistics/delta_variance/delta_variance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 9b46d9e..99ae22f 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -720,7 +720,7 @@ class DeltaVariance_Distance(object):
             _given_data1 = True
             dataset1 = copy(input_data(dataset1, no_header=False))
 
-        if isinstance(dataset1, DeltaVariance):
+        if isinstance(dataset2, DeltaVariance):
             _given_data2 = False
             self.delvar2 = dataset2
         else:
-- 
2.43.0


From 7585ef11c5f58d1eac3448da8bd89aad1462eff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:51 +0000
Subject: [PATCH 08/63] fix: DeltaVariance_Distance re-runs given objects at
 the common lags

---
 turbustat/statistics/delta_variance/delta_variance.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 99ae22f..f02128a 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -795,7 +795,9 @@ class DeltaVariance_Distance(object):
         else:
             # Check if we need to re-run the statistic if the lags are wrong.
             if lags1 is not None:
-                if not (self.delvar1.lags == lags1).all():
+                lags1 = u.Quantity(lags1, unit=getattr(lags1, 'unit', u.pix))
+                if not np.array_equal(self.delvar1.lags, lags1):
+                    self.delvar1.lags = lags1
                     self.delvar1.run(**delvar_kwargs)
 
             if not hasattr(self.delvar1, "_slope"):
@@ -815,7 +817,9 @@ class DeltaVariance_Distance(object):
             self.delvar2.run(**delvar2_kwargs)
         else:
             if lags2 is not None:
-                if not (self.delvar2.lags == lags2).all():
+                lags2 = u.Quantity(lags2, unit=getattr(lags2, 'unit', u.pix))
+                if not np.array_equal(self.delvar2.lags, lags2):
+                    self.delvar2.lags = lags2
                     self.delvar2.run(**delvar2_kwargs)
 
             if not hasattr(self.delvar2, "_slope"):
-- 
2.43.0


From 7df06755ea230685b90deffedb8921c1959de478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:51 +0000
Subject: [PATCH 09/63] fix: DeltaVariance_Distance accepts the documented
 lags2 and runs without common lags

---
 turbustat/statistics/delta_variance/delta_variance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index f02128a..493f1e3 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -710,7 +710,7 @@ class DeltaVariance_Distance(object):
 
     def __init__(self, dataset1, dataset2, weights1=None, weights2=None,
                  diam_ratio=1.5, lags=None, use_common_lags=True,
-                 delvar_kwargs={}, delvar2_kwargs=None):
+                 delvar_kwargs={}, delvar2_kwargs=None, lags2=None):
         super(DeltaVariance_Distance, self).__init__()
 
         if isinstance(dataset1, DeltaVariance):
-- 
2.43.0


From 5709810c1b12136d1df30a1f7b5746f4d2176ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:33 +0000
Subject: [PATCH 10/63] fix: pass min_frac on in StatMoments.run

---
 turbustat/statistics/stat_moments/highstatmoments.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 41e95fd..ecb6c75 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -469,6 +469,7 @@ class StatMoments(BaseStatisticMixIn):
 
         self.array_moments()
         self.compute_spatial_distrib(periodic=periodic, radius=radius,
+                                     min_frac=min_frac,
                                      show_progress=show_progress)
         self.make_spatial_histograms(**hist_kwargs)
 
-- 
2.43.0


From dd5106ca95280b8b53e44fe0b2a7ebf667408b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:34 +0000
Subject: [PATCH 11/63] fix: leave blank pixels out of the total weight in
 compute_moments

---
 turbustat/statistics/stat_moments/highstatmoments.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index ecb6c75..7161f14 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -792,6 +792,9 @@ def compute_moments(img, weights):
 
     '''
 
+    # Blank pixels do not contribute to the sum of the weights.
+    weights = np.where(np.isnan(img), np.nan, weights)
+
     mean = np.nansum(img * weights) / np.nansum(weights)
     variance = np.nansum(weights * (img - mean) ** 2.) / np.nansum(weights)
 
-- 
2.43.0


From d274150e70baa62dec60b5d8f47b886e38229c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:34 +0000
Subject: [PATCH 12/63] fix: keep a bin number when StatMoments_Distance
 recomputes its inputs

---
 turbustat/statistics/stat_moments/highstatmoments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/stat_moments/highstatmoments.py b/turbustat/statistics/stat_moments/highstatmoments.py
index 7161f14..60d755c 100644
--- a/turbustat/statistics/stat_moments/highstatmoments.py
+++ b/turbustat/statistics/stat_moments/highstatmoments.py
@@ -594,7 +594,7 @@ class StatMoments_Distance(object):
                               " or common radius found by "
                               "StatMoments_Distance. Recomputing `moments1`.")
                 self.moments1.radius = radius1
-                self.moments1.nbins = nbins
+                self.moments1.nbins = self.nbins
                 needs_run = True
 
         if needs_run:
@@ -622,6 +622,7 @@ class StatMoments_Distance(object):
                               " or common radius found by "
                               "StatMoments_Distance. Recomputing `moments2`.")
                 self.moments2.radius = radius2
+                self.moments2.nbins = self.nbins
                 needs_run = True
 
         if needs_run:
-- 
2.43.0


From bf20faf294b18ad7412f209bad3907b026ace752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:20 +0000
Subject: [PATCH 13/63] fix: treat blank voxels alike in all terms of the PCA
 covariance matrix

---
 turbustat/statistics/threeD_to_twoD.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/turbustat/statistics/threeD_to_twoD.py b/turbustat/statistics/threeD_to_twoD.py
index 73e614f..8f544f7 100644
--- a/turbustat/statistics/threeD_to_twoD.py
+++ b/turbustat/statistics/threeD_to_twoD.py
@@ -134,9 +134,6 @@ def var_cov_cube(cube, mean_sub=False, progress_bar=True):
         bar = ProgressBar(n_velchan)
 
     for i, chan in enumerate(_iter_2D(cube)):
-        # Set the nans to tiny values
-        chan[np.isnan(chan)] = np.finfo(chan.dtype).eps
-
         norm_chan = chan
         if mean_sub:
             norm_chan -= np.nanmean(chan)
-- 
2.43.0


From 7776768a4059be60e4eb12a8afc5acf0f3a4a020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:49 +0000
Subject: [PATCH 14/63] fix: divide the noise ACF by the number of components,
 not by minus it

---
 turbustat/statistics/pca/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 18d5766..0fc20f4 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -332,7 +332,7 @@ class PCA(BaseStatisticMixIn):
 
         acors = self.autocorr_images(n_eigs=n_eigs)
 
-        noise_ACF = np.nansum(acors, axis=0) / float(n_eigs)
+        noise_ACF = np.nansum(acors, axis=0) / float(acors.shape[0])
 
         return noise_ACF
 
-- 
2.43.0


From c994e4a8c3ba193b4f17425a3b933708c87b02c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:22 +0000
Subject: [PATCH 15/63] fix: keep the image orientation in PCA eigenimages and
 allow a single one

---
 turbustat/statistics/pca/pca.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 0fc20f4..40504c7 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -235,14 +235,11 @@ class PCA(BaseStatisticMixIn):
                                             np.real_if_close(
                                                 self.eigvecs[channel, idx]))
             if ct == 0:
-                eigimgs = eigimg
+                eigimgs = [eigimg]
             else:
-                eigimgs = np.dstack((eigimgs, eigimg))
+                eigimgs.append(eigimg)
 
-        if eigimgs.ndim == 3:
-            return eigimgs.swapaxes(0, 2)
-        else:
-            return eigimgs
+        return np.array(eigimgs)
 
     def autocorr_images(self, n_eigs=None):
         '''
@@ -274,14 +271,11 @@ class PCA(BaseStatisticMixIn):
             acor = np.fft.fftshift(acor)
 
             if idx == 0:
-                acors = acor.real
+                acors = [acor.real]
             else:
-                acors = np.dstack((acors, acor.real))
+                acors.append(acor.real)
 
-        if acors.ndim == 3:
-            return acors.swapaxes(0, 2)
-        else:
-            return acors
+        return np.array(acors)
 
     def autocorr_spec(self, n_eigs=None):
         '''
-- 
2.43.0


From 29c7bb295364bde785d659a83b69aa10e73ccd72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:46 +0000
Subject: [PATCH 16/63] fix: PCA.model evaluates the fitted intercept instead
 of raising TypeError

---
 turbustat/statistics/pca/pca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/pca.py b/turbustat/statistics/pca/pca.py
index 40504c7..ea254d6 100644
--- a/turbustat/statistics/pca/pca.py
+++ b/turbustat/statistics/pca/pca.py
@@ -642,7 +642,7 @@ class PCA(BaseStatisticMixIn):
         '''
         Model with the fit parameters from `~PCA.fit_plaw`
         '''
-        return self.index * x + np.log10(self.intercept)
+        return self.index * x + np.log10(self.intercept().value)
 
     def sonic_length(self, T_k=10 * u.K, mu=1.36, use_gamma=True,
                      unit=u.pix):
-- 
2.43.0


From db893710868b825c1738bbf5e3410df5e457ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:17 +0000
Subject: [PATCH 17/63] fix: WidthEstimate1D does not rescale the
 autocorrelations it is given

---
 turbustat/statistics/pca/width_estimate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/pca/width_estimate.py b/turbustat/statistics/pca/width_estimate.py
index 36c2755..b88ea03 100644
--- a/turbustat/statistics/pca/width_estimate.py
+++ b/turbustat/statistics/pca/width_estimate.py
@@ -352,7 +352,7 @@ def WidthEstimate1D(inList, method='walk-down'):
                 scales[idx] = np.abs(output.stddev.value) * np.sqrt(2)
             scale_errors[idx] = errors[-1] * np.sqrt(2)
         elif method == "walk-down":
-            y /= y.max()
+            y = y / y.max()
             # Starting from the first point, start walking down the curve until
             # 1/e is reached
             for i, val in enumerate(y):
-- 
2.43.0


From 1fac77c4667cb19c420eb94fc99d744a3d086afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:08 +0000
Subject: [PATCH 18/63] fix: Genus uses the area of the Gaussian beam for the
 minimum region size

---
 turbustat/statistics/genus/genus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index b90d0f5..57b2a2c 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -273,7 +273,7 @@ class Genus(BaseStatisticMixIn):
             major = self._to_pixel(major)
             minor = self._to_pixel(minor)
             # the area of a Gaussian beam is 2 pi sigma^2, and major/minor are FWHMs
-            pix_area = 2 * np.pi * major * minor / np.sqrt(8*np.log(2))
+            pix_area = 2 * np.pi * major * minor / (8 * np.log(2))
             min_size = int(np.floor(pix_area.value))
         else:
             if isinstance(min_size, u.Quantity):
-- 
2.43.0


From a3e9ecbfb2cb85c99c46a75ae9a4e5b7c3458be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:08 +0000
Subject: [PATCH 19/63] fix: Genus.make_genus_stats_table gives one table per
 smoothing radius

---
 turbustat/statistics/genus/genus.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index 57b2a2c..bf7d204 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -378,8 +378,6 @@ class Genus(BaseStatisticMixIn):
 
             tab.add_column(Column(std_vals, name='data_std'))
 
-            genus_tables.append(tab)
-
             if hasattr(radius, 'unit'):
                 radius_vals = ([radius.value] * len(self.thresholds)) * radius.unit
             else:
-- 
2.43.0


From 2d33b27a44b65b8212f84e216860482a67056121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:08 +0000
Subject: [PATCH 20/63] fix: Genus checks the unit of max_value as it does for
 min_value

---
 turbustat/statistics/genus/genus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index bf7d204..ab44b4e 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -141,7 +141,7 @@ class Genus(BaseStatisticMixIn):
                 if not hasattr(max_value, 'unit') and hasattr(self.data, 'unit'):
                     max_value *= self.data.unit
 
-            if hasattr(max_value, 'unit') and hasattr(self.data, 'unit'):
+            if hasattr(self.data, 'unit'):
                 if not hasattr(max_value, 'unit'):
                     raise TypeError("data has units of {}. 'max_value' must "
                                     "have equivalent units."
-- 
2.43.0


From c93987c356f7afce8d755dfad6441ffedf818863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:08 +0000
Subject: [PATCH 21/63] fix: Genus_Distance passes numpts on

---
 turbustat/statistics/genus/genus.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index ab44b4e..e94183e 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -553,13 +553,15 @@ class Genus_Distance(object):
         self.genus1 = Genus(img1, smoothing_radii=smoothing_radii,
                             min_value=min_value[0], max_value=max_value[0],
                             lowdens_percent=lowdens_percent[0],
-                            highdens_percent=highdens_percent[0])
+                            highdens_percent=highdens_percent[0],
+                            numpts=numpts)
         self.genus1.run(**genus_kwargs)
 
         self.genus2 = Genus(img2, smoothing_radii=smoothing_radii,
                             min_value=min_value[1], max_value=max_value[1],
                             lowdens_percent=lowdens_percent[1],
-                            highdens_percent=highdens_percent[1])
+                            highdens_percent=highdens_percent[1],
+                            numpts=numpts)
         self.genus2.run(**genus2_kwargs)
 
         # When normalizing the genus curves for the distance metric, find
-- 
2.43.0


From 73e681f70f3b964de00471bd5278d7676cdee66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:34 +0000
Subject: [PATCH 22/63] fix: PDF_Distance compares the statistic name by value,
 not by identity

---
 turbustat/statistics/pdf/compare_pdf.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index cfd0eaa..4219a57 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -693,17 +693,17 @@ class PDF_Distance(object):
             Save the figure when a file name is given.
         '''
 
-        if statistic is 'all':
+        if statistic == 'all':
             self.compute_hellinger_distance()
             self.compute_ks_distance()
             # self.compute_ad_distance()
             if self._do_fit:
                 self.compute_lognormal_distance()
-        elif statistic is 'hellinger':
+        elif statistic == 'hellinger':
             self.compute_hellinger_distance()
-        elif statistic is 'ks':
+        elif statistic == 'ks':
             self.compute_ks_distance()
-        elif statistic is 'lognormal':
+        elif statistic == 'lognormal':
             if not self._do_fit:
                 raise Exception("Fitting must be enabled to compute the"
                                 " lognormal distance.")
-- 
2.43.0


From 9ca22a13cfda345022edf87370089d99b549ddfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:16:34 +0000
Subject: [PATCH 23/63] fix: PDF.fit_pdf with both loc and scale fixed no
 longer raises UnboundLocalError

---
 turbustat/statistics/pdf/compare_pdf.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index 4219a57..5b1504e 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -240,6 +240,10 @@ class PDF(BaseStatisticMixIn):
                     scale = params[-1]
                     loc = self._loc
                     cut = -1
+                else:
+                    loc = self._loc
+                    scale = self._scale
+                    cut = None
 
                 loglikes = \
                     model.logpdf(self.endog, *params[:cut],
@@ -276,7 +280,9 @@ class PDF(BaseStatisticMixIn):
 
         # Do an initial fit with the scipy model
         if floc and fscale:
-            init_params = model.fit(self.data)
+            init_params = model.fit(self.data, floc=loc, fscale=scale)
+            # Remove loc and scale from the params
+            init_params = init_params[:-2]
         elif floc:
             init_params = model.fit(self.data, floc=loc)
             # Remove loc from the params
-- 
2.43.0


From 5ba80e3b5bda0fcfd9327794d006f943360ded14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:59 +0000
Subject: [PATCH 24/63] fix: the Cramer data format is compared by value, not
 by identity

---
 turbustat/statistics/threeD_to_twoD.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/threeD_to_twoD.py b/turbustat/statistics/threeD_to_twoD.py
index 8f544f7..c008368 100644
--- a/turbustat/statistics/threeD_to_twoD.py
+++ b/turbustat/statistics/threeD_to_twoD.py
@@ -69,7 +69,7 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
     Rearrange data into a 2D object using the given format.
     '''
 
-    if data_format is "spectra":
+    if data_format == "spectra":
         if num_spec is None:
             raise ValueError('Must specify num_spec for data format',
                              'spectra.')
@@ -89,7 +89,7 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
 
         data_matrix = cube[:, x, y]
 
-    elif data_format is "intensity":
+    elif data_format == "intensity":
         data_matrix = intensity_data(cube, noise_lim=noise_lim,
                                      p=p)
 
-- 
2.43.0


From 29b8dd0728e48db79a7f17f3de287387c04d5526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:59 +0000
Subject: [PATCH 25/63] fix: pick the brightest spectra of non-square cubes at
 their own positions

---
 turbustat/statistics/threeD_to_twoD.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/threeD_to_twoD.py b/turbustat/statistics/threeD_to_twoD.py
index c008368..6276494 100644
--- a/turbustat/statistics/threeD_to_twoD.py
+++ b/turbustat/statistics/threeD_to_twoD.py
@@ -84,7 +84,7 @@ def _format_data(cube, data_format='intensity', num_spec=1000,
         y = np.empty((num_spec,), dtype=int)
 
         for i in range(num_spec):
-            x[i] = int(bright_spectra[i] / cube.shape[1])
+            x[i] = int(bright_spectra[i] / cube.shape[2])
             y[i] = int(bright_spectra[i] % cube.shape[2])
 
         data_matrix = cube[:, x, y]
-- 
2.43.0


From 18fe6df2dfbd22e142c0534a6568ec1dbf391c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:00 +0000
Subject: [PATCH 26/63] fix: Dendrogram_Stats.min_deltas accepts lists and
 single values

---
 turbustat/statistics/dendrograms/dendro_stats.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 784e79e..a3b5a43 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -96,15 +96,14 @@ class Dendrogram_Stats(BaseStatisticMixIn):
         if "min_delta" in self.dendro_params and value is None:
             self._min_deltas = np.array([self.dendro_params["min_delta"]])
         else:
+            value = np.atleast_1d(value)
+
             # Multiple values given. Ensure they are in increasing order
             if not (np.diff(value) > 0).all():
                 raise ValueError("Multiple values of min_delta must be given "
                                  "in increasing order.")
 
-            if not isinstance(value, np.ndarray):
-                self._min_deltas = np.array([value])
-            else:
-                self._min_deltas = value
+            self._min_deltas = value
 
     def autoset_min_deltas(self, num=10):
         '''
-- 
2.43.0


From 882d7c9e45218b57faff362eb74b4759d4c74404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:00 +0000
Subject: [PATCH 27/63] fix: Dendrogram_Stats.make_hists uses the given bins
 for every min_delta

---
 turbustat/statistics/dendrograms/dendro_stats.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index a3b5a43..a84c4f5 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -221,17 +221,18 @@ class Dendrogram_Stats(BaseStatisticMixIn):
 
         hists = []
 
+        given_bins = kwargs.pop('bins', None)
+
         for value in self.values:
 
             if len(value) < min_number:
                 hists.append([np.zeros((0, ))] * 2)
                 continue
 
-            if 'bins' not in kwargs:
+            if given_bins is None:
                 bins = int(np.sqrt(len(value)))
             else:
-                bins = kwargs['bins']
-                kwargs.pop('bins')
+                bins = given_bins
 
             hist, bins = np.histogram(value, bins=bins, **kwargs)
             bin_cents = (bins[:-1] + bins[1:]) / 2
-- 
2.43.0


From ffbe435312906e8a1f446c4dd440a515aad21b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:00 +0000
Subject: [PATCH 28/63] fix: mecdf of rows padded with NaN is not NaN
 everywhere

---
 turbustat/statistics/dendrograms/mecdf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/dendrograms/mecdf.py b/turbustat/statistics/dendrograms/mecdf.py
index fe273b1..e999036 100644
--- a/turbustat/statistics/dendrograms/mecdf.py
+++ b/turbustat/statistics/dendrograms/mecdf.py
@@ -35,6 +35,6 @@ def mecdf(arr):
     ecdf = np.empty(arr.shape)
 
     for n in range(nrows):
-        ecdf[n, :] = np.cumsum(arr[n, :]/np.sum(arr[n, :].astype(float)))
+        ecdf[n, :] = np.cumsum(arr[n, :]/np.nansum(arr[n, :].astype(float)))
 
     return ecdf
-- 
2.43.0


From ee29a224dd652ad1f29f27e32afae63a04646112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:00 +0000
Subject: [PATCH 29/63] fix: Dendrogram_Distance re-runs given objects at the
 common min_deltas

---
 turbustat/statistics/dendrograms/dendro_stats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index a84c4f5..881133e 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -547,13 +547,14 @@ class Dendrogram_Distance(object):
             self.dendro1 = dataset1
             # Check if we need to re-run the stat
             has_slope = hasattr(self.dendro1, "_tail_slope")
-            match_deltas = (self.dendro1.min_deltas == min_deltas).all()
+            match_deltas = np.array_equal(self.dendro1.min_deltas, min_deltas)
             if not has_slope or not match_deltas:
                 warn("Dendrogram_Stats needs to be re-run for dataset1 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
                 dendro_kwargs.pop('make_hists', None)
                 dendro_kwargs.pop('verbose', None)
+                self.dendro1.min_deltas = min_deltas
                 self.dendro1.run(verbose=False, make_hists=False,
                                  **dendro_kwargs)
         else:
@@ -570,13 +571,14 @@ class Dendrogram_Distance(object):
             self.dendro2 = dataset2
             # Check if we need to re-run the stat
             has_slope = hasattr(self.dendro2, "_tail_slope")
-            match_deltas = (self.dendro2.min_deltas == min_deltas).all()
+            match_deltas = np.array_equal(self.dendro2.min_deltas, min_deltas)
             if not has_slope or not match_deltas:
                 warn("Dendrogram_Stats needs to be re-run for dataset2 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
                 dendro_kwargs.pop('make_hists', None)
                 dendro_kwargs.pop('verbose', None)
+                self.dendro2.min_deltas = min_deltas
                 self.dendro2.run(verbose=False, make_hists=False,
                                  **dendro2_kwargs)
         else:
-- 
2.43.0


From 69f249527d586ef7dd1689f75a1c03bdb408cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:00 +0000
Subject: [PATCH 30/63] fix: Dendrogram_Distance drops run options it sets
 itself from copies of both option sets

---
 turbustat/statistics/dendrograms/dendro_stats.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/turbustat/statistics/dendrograms/dendro_stats.py b/turbustat/statistics/dendrograms/dendro_stats.py
index 881133e..41ed500 100644
--- a/turbustat/statistics/dendrograms/dendro_stats.py
+++ b/turbustat/statistics/dendrograms/dendro_stats.py
@@ -539,6 +539,13 @@ class Dendrogram_Distance(object):
         if dendro2_kwargs is None:
             dendro2_kwargs = dendro_kwargs
 
+        # These are set below.
+        fixed_kwargs = ['make_hists', 'verbose']
+        dendro_kwargs = {key: dendro_kwargs[key] for key in dendro_kwargs
+                         if key not in fixed_kwargs}
+        dendro2_kwargs = {key: dendro2_kwargs[key] for key in dendro2_kwargs
+                          if key not in fixed_kwargs}
+
         # if fiducial_model is not None:
         #     self.dendro1 = fiducial_model
         # elif isinstance(dataset1, str):
@@ -552,16 +559,12 @@ class Dendrogram_Distance(object):
                 warn("Dendrogram_Stats needs to be re-run for dataset1 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
-                dendro_kwargs.pop('make_hists', None)
-                dendro_kwargs.pop('verbose', None)
                 self.dendro1.min_deltas = min_deltas
                 self.dendro1.run(verbose=False, make_hists=False,
                                  **dendro_kwargs)
         else:
             self.dendro1 = Dendrogram_Stats(dataset1, min_deltas=min_deltas,
                                             dendro_params=dendro_params1)
-            dendro_kwargs.pop('make_hists', None)
-            dendro_kwargs.pop('verbose', None)
             self.dendro1.run(verbose=False, make_hists=False,
                              **dendro_kwargs)
 
@@ -576,8 +579,6 @@ class Dendrogram_Distance(object):
                 warn("Dendrogram_Stats needs to be re-run for dataset2 "
                      "to compute the slope or have the same set of "
                      "`min_deltas`.")
-                dendro_kwargs.pop('make_hists', None)
-                dendro_kwargs.pop('verbose', None)
                 self.dendro2.min_deltas = min_deltas
                 self.dendro2.run(verbose=False, make_hists=False,
                                  **dendro2_kwargs)
@@ -585,8 +586,6 @@ class Dendrogram_Distance(object):
             self.dendro2 = \
                 Dendrogram_Stats(dataset2, min_deltas=min_deltas,
                                  dendro_params=dendro_params2)
-            dendro_kwargs.pop('make_hists', None)
-            dendro_kwargs.pop('verbose', None)
             self.dendro2.run(verbose=False, make_hists=False,
                              **dendro2_kwargs)
 
-- 
2.43.0


From 1c8e9db5b0b149ac80c350c5a204b31eccd6ac4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:26 +0000
Subject: [PATCH 31/63] fix: VCA_Distance uses radial_pspec_kwargs2 for the
 second cube

---
 turbustat/statistics/vca_vcs/vca.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 8baa9d8..8021f6f 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -308,7 +308,7 @@ class VCA_Distance(object):
             self.vca2.run(fit_kwargs={'brk': breaks[1]},
                           low_cut=low_cut[1],
                           high_cut=high_cut[1],
-                          radial_pspec_kwargs=radial_pspec_kwargs,
+                          radial_pspec_kwargs=radial_pspec_kwargs2,
                           fit_2D=False)
 
     def distance_metric(self, verbose=False, xunit=u.pix**-1,
-- 
2.43.0


From 4b73d99bbeefc88dec93861ad709bd253f4e5e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:26 +0000
Subject: [PATCH 32/63] fix: Wavelet_Distance passes num on

---
 turbustat/statistics/wavelets/wavelet_transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 0057818..09ffa7d 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -655,7 +655,7 @@ class Wavelet_Distance(object):
                      "fitted slope. Computing Wavelet transform.")
                 needs_run = True
         else:
-            self.wt1 = Wavelet(dataset1, scales=scales)
+            self.wt1 = Wavelet(dataset1, scales=scales, num=num)
             needs_run = True
 
         if needs_run:
@@ -672,7 +672,7 @@ class Wavelet_Distance(object):
                      "fitted slope. Computing Wavelet transform.")
                 needs_run = True
         else:
-            self.wt2 = Wavelet(dataset2, scales=scales)
+            self.wt2 = Wavelet(dataset2, scales=scales, num=num)
             needs_run = True
 
         if needs_run:
-- 
2.43.0


From b4cb5e2a449c979f62727d500ab899cfdf4fd952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:26 +0000
Subject: [PATCH 33/63] fix: DeltaVariance_Distance re-runs dataset2 with its
 own options

---
 turbustat/statistics/delta_variance/delta_variance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 493f1e3..0082ddb 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -827,7 +827,7 @@ class DeltaVariance_Distance(object):
                      " slope. Re-running delta variance.")
                 if lags2 is not None:
                     self.delvar2._lags = lags2
-                self.delvar2.run(**delvar_kwargs)
+                self.delvar2.run(**delvar2_kwargs)
 
     @property
     def curve_distance(self):
-- 
2.43.0


From 6e857e459ec91ce4b1b46cf9b1f0d2a210667a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:26 +0000
Subject: [PATCH 34/63] fix: PSpec_Distance keeps fit_kwargs given in
 pspec_kwargs and leaves the given dictionaries alone

---
 turbustat/statistics/pspec_bispec/pspec.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index 2caa0e5..3973572 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -288,11 +288,11 @@ class PSpec_Distance(object):
             this_pspec_kwargs.pop('high_cut', None)
             this_pspec_kwargs.pop('fit_2D', None)
 
-            if 'fit_kwargs' in this_pspec_kwargs:
-                this_pspec_kwargs['fit_kwargs'].pop('brk', None)
+            fit_kwargs = dict(this_pspec_kwargs.pop('fit_kwargs', {}))
+            fit_kwargs['brk'] = breaks[0]
 
             self.pspec1.run(low_cut=low_cut[0], high_cut=high_cut[0],
-                            fit_kwargs={'brk': breaks[0]},
+                            fit_kwargs=fit_kwargs,
                             fit_2D=False,
                             **this_pspec_kwargs)
         # else:
@@ -316,11 +316,11 @@ class PSpec_Distance(object):
             this_pspec2_kwargs.pop('high_cut', None)
             this_pspec2_kwargs.pop('fit_2D', None)
 
-            if 'fit_kwargs' in this_pspec2_kwargs:
-                this_pspec2_kwargs['fit_kwargs'].pop('brk', None)
+            fit_kwargs2 = dict(this_pspec2_kwargs.pop('fit_kwargs', {}))
+            fit_kwargs2['brk'] = breaks[1]
 
             self.pspec2.run(low_cut=low_cut[1], high_cut=high_cut[1],
-                            fit_kwargs={'brk': breaks[1]},
+                            fit_kwargs=fit_kwargs2,
                             fit_2D=False,
                             **this_pspec2_kwargs)
 
-- 
2.43.0


From 23126a778e061e1befb985771e823816b1a39e40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:26 +0000
Subject: [PATCH 35/63] fix: SCF_Distance handles given SCF objects with other
 lags

---
 turbustat/statistics/scf/scf.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/turbustat/statistics/scf/scf.py b/turbustat/statistics/scf/scf.py
index 38def2f..e9fd68e 100644
--- a/turbustat/statistics/scf/scf.py
+++ b/turbustat/statistics/scf/scf.py
@@ -119,6 +119,7 @@ class SCF(BaseStatisticMixIn):
                                         " pixel, angular, or physical (if a"
                                         " distance is given) units.")
         self._roll_lags = value
+        self.size = value.size
 
     @property
     def scf_surface(self):
@@ -866,12 +867,12 @@ class SCF_Distance(object):
             else:
                 roll_lags1 = roll_lags
 
-            if not _has_data1:
+            if not _has_data2:
                 roll_lags2 = self.scf2._to_pixel(self.scf2.roll_lags)
             else:
                 roll_lags2 = roll_lags
 
-            if not (roll_lags1 == roll_lags2).all():
+            if not np.array_equal(roll_lags1.value, roll_lags2.value):
                 raise ValueError("The roll lags must match when using pre-computed SCFs.")
 
         elif scale > 1.0:
@@ -897,7 +898,7 @@ class SCF_Distance(object):
             needs_run1 = False
 
             if roll_lags1.size != self.scf1.roll_lags.size:
-                lag_check = True
+                lag_check = False
             else:
                 lag_check = (roll_lags1 == self.scf1._to_pixel(self.scf1.roll_lags)).all()
 
@@ -928,7 +929,7 @@ class SCF_Distance(object):
             needs_run2 = False
 
             if roll_lags2.size != self.scf2.roll_lags.size:
-                lag_check = True
+                lag_check = False
             else:
                 lag_check = (roll_lags2 == self.scf2._to_pixel(self.scf2.roll_lags)).all()
 
@@ -952,8 +953,7 @@ class SCF_Distance(object):
             # params
             self.scf2.compute_spectrum()
 
-        if not needs_run1 and not needs_run2:
-            self.size = self.scf1.size
+        self.size = self.scf1.size
 
     def distance_metric(self, weighted=True, verbose=False,
                         plot_kwargs1={'color': 'b', 'marker': 'D',
-- 
2.43.0


From 3735a4d273fe1f1bba5b88427392aa843765c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:36 +0000
Subject: [PATCH 36/63] fix: padding without pixels at the end keeps the vector

padwithzeros/padwithnans blanked everything when nothing is padded at the end.
---
 turbustat/statistics/stats_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/stats_utils.py b/turbustat/statistics/stats_utils.py
index c355f22..21b861d 100644
--- a/turbustat/statistics/stats_utils.py
+++ b/turbustat/statistics/stats_utils.py
@@ -607,11 +607,11 @@ def padwithzeros(vector, pad_width, iaxis, kwargs):
     Pad array with zeros.
     '''
     vector[:pad_width[0]] = 0
-    vector[-pad_width[1]:] = 0
+    vector[vector.size - pad_width[1]:] = 0
     return vector
 
 
 def padwithnans(vector, pad_width, iaxis, kwargs):
     vector[:pad_width[0]] = np.nan
-    vector[-pad_width[1]:] = np.nan
+    vector[vector.size - pad_width[1]:] = np.nan
     return vector
-- 
2.43.0


From 6f050ec689f8103c148b82b714fbd8576bd156a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:36 +0000
Subject: [PATCH 37/63] fix: kl_divergence drops undefined bins from both
 distributions

The distributions were filtered separately, which paired the wrong bins or failed.
---
 turbustat/statistics/stats_utils.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/stats_utils.py b/turbustat/statistics/stats_utils.py
index 21b861d..bc6d55e 100644
--- a/turbustat/statistics/stats_utils.py
+++ b/turbustat/statistics/stats_utils.py
@@ -101,10 +101,9 @@ def kl_divergence(P, Q):
 
     kl_divergence : float
     '''
-    P = P[~np.isnan(P)]
-    Q = Q[~np.isnan(Q)]
-    P = P[np.isfinite(P)]
-    Q = Q[np.isfinite(Q)]
+    good_vals = np.logical_and(np.isfinite(P), np.isfinite(Q))
+    P = P[good_vals]
+    Q = Q[good_vals]
     return np.nansum(np.where(Q != 0, P * np.log(P / Q), 0))
 
 
-- 
2.43.0


From 738750ab8731a300f547e998d10612fe97f290de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:26:07 +0000
Subject: [PATCH 38/63] fix: input_data copies data given with its header when
 asked to

---
 turbustat/io/input_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/io/input_base.py b/turbustat/io/input_base.py
index 08ed027..ece69d6 100644
--- a/turbustat/io/input_base.py
+++ b/turbustat/io/input_base.py
@@ -72,7 +72,7 @@ def input_data(data, no_header=False, need_copy=False):
         elif isinstance(data, tuple) or isinstance(data, list):
             if len(data) != 2:
                 raise TypeError("Must have two items: data and the header.")
-            output_data = data
+            output_data = [make_copy(data[0], need_copy), data[1]]
 
         elif isinstance(data, np.ndarray):
             if not no_header:
-- 
2.43.0


From eb46c03bbe75573033539e42948604d020277e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:38 +0000
Subject: [PATCH 39/63] fix: put the reference pixel of simulated data at its
 own axis

FITS axis 1 is the last axis of the array; non-square data had the reference pixels of both
spatial axes exchanged.
---
 turbustat/io/sim_tools.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/turbustat/io/sim_tools.py b/turbustat/io/sim_tools.py
index 51cb56a..f6bc7ce 100644
--- a/turbustat/io/sim_tools.py
+++ b/turbustat/io/sim_tools.py
@@ -66,8 +66,8 @@ def create_cube_header(pixel_scale, spec_pixel_scale, beamfwhm, imshape,
               'BMAJ': beamfwhm.to(u.deg).value,
               'BMIN': beamfwhm.to(u.deg).value,
               'BPA': 0.0,
-              'CRPIX1': imshape[1] / 2.,
-              'CRPIX2': imshape[2] / 2.,
+              'CRPIX1': imshape[2] / 2.,
+              'CRPIX2': imshape[1] / 2.,
               'CRVAL1': 0.0,
               'CRVAL2': 0.0,
               'CTYPE1': 'GLON-CAR',
@@ -117,8 +117,8 @@ def create_image_header(pixel_scale, beamfwhm, imshape,
               'BMAJ': beamfwhm.to(u.deg).value,
               'BMIN': beamfwhm.to(u.deg).value,
               'BPA': 0.0,
-              'CRPIX1': imshape[0] / 2.,
-              'CRPIX2': imshape[1] / 2.,
+              'CRPIX1': imshape[1] / 2.,
+              'CRPIX2': imshape[0] / 2.,
               'CRVAL1': 0.0,
               'CRVAL2': 0.0,
               'CTYPE1': 'GLON-CAR',
-- 
2.43.0


From 496d62903795ce88e81cd6d97a83445e68567821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:36 +0000
Subject: [PATCH 40/63] fix: Lm_Seg drops the weights of samples it drops

---
 turbustat/statistics/lm_seg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index 0f972d1..da91d25 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -65,6 +65,8 @@ class Lm_Seg(object):
 
         self.y = self.y[good_vals]
         self.x = self.x[good_vals]
+        if self.weights is not None:
+            self.weights = self.weights[good_vals]
 
         if self.x.size <= 3 or self.y.size <= 3:
             raise Warning("Not enough finite points to fit.")
-- 
2.43.0


From 3dc8fc64bcc7f13763fe601494dbec38dd61d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:36 +0000
Subject: [PATCH 41/63] fix: Lm_Seg.model evaluates the fitted line for any x

The position of the break was replaced by the nearest of the given values, so the model was
not continuous and failed without x; without a break, values past the end were wrong.
---
 turbustat/statistics/lm_seg.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index da91d25..ce14e37 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -211,10 +211,12 @@ class Lm_Seg(object):
     def model(self, x=None, model_return=False):
         p = self.params
 
-        trans_pt = np.abs(x - self.brk).argmin()
-
-        mod_eqn = lambda k: p[0] + p[1] * k * (k < self.brk) + \
-            ((p[1] + p[2]) * k + (-p[2]) * k[trans_pt]) * (k >= self.brk)
+        if self.break_fail_flag:
+            def mod_eqn(k):
+                return p[0] + p[1] * k
+        else:
+            def mod_eqn(k):
+                return p[0] + p[1] * k + p[2] * (k - self.brk) * (k >= self.brk)
 
         if model_return or x is None:
             return mod_eqn
-- 
2.43.0


From bd6c6c41ce4e5a3e9ab92653485d208b2f7248e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:36 +0000
Subject: [PATCH 42/63] fix: the break error is that of the break position

The ratio of the coefficients was not divided by the slope change, the covariance had the
wrong sign, and it was taken from the fit before the last step.
---
 turbustat/statistics/lm_seg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index ce14e37..a3507cd 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -202,7 +202,7 @@ class Lm_Seg(object):
         self._errs = self.fit.bse
 
         if not self.break_fail_flag:
-            self.brk_err = brk_errs(self.params, fit.cov_params())
+            self.brk_err = brk_errs(self.params, self.fit.cov_params())
         else:
             self.brk_err = 0.0
 
@@ -302,4 +302,4 @@ def brk_errs(params, cov):
     # Correlation b/w gamma and beta
     term3 = 2 * cov[3, 2] * (params[3] / params[2])
 
-    return np.sqrt(term1 + term2 + term3)
+    return np.sqrt(term1 + term2 - term3) / np.abs(params[2])
-- 
2.43.0


From 3a5b1839ab7e70d809a866a6362a9b9c7ebc999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:37 +0000
Subject: [PATCH 43/63] fix: warn instead of failing when the initial epsilon
 is below the tolerance

---
 turbustat/statistics/lm_seg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index a3507cd..37bfcca 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -96,7 +96,7 @@ class Lm_Seg(object):
 
         # Before we get into the loop, make sure that this was a bad fit
         if epsil_0 < tol:
-            warnings.warning('Initial epsilon is smaller than tolerance. \
+            warnings.warn('Initial epsilon is smaller than tolerance. \
                              The tolerance should be set smaller.')
             return init_lm
 
-- 
2.43.0


From cdfe6c3d5553a79a53a7e248d3dfdc773afa8591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:37 +0000
Subject: [PATCH 44/63] fix: residual_bootstrap resamples all residuals, and
 for weighted fits too

The last residual was never drawn and the whitened data was refitted with the unweighted
design matrix.
---
 turbustat/statistics/fitting_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/fitting_utils.py b/turbustat/statistics/fitting_utils.py
index edc9beb..aa0f7f9 100644
--- a/turbustat/statistics/fitting_utils.py
+++ b/turbustat/statistics/fitting_utils.py
@@ -332,10 +332,10 @@ def residual_bootstrap(fit_model, nboot=1000, seed=38574895,
 
         for _ in range(nboot):
 
-            y_resamp = y + y_res[np.random.choice(y_res.size - 1, y_res.size)]
+            y_resamp = y + y_res[np.random.choice(y_res.size, y_res.size)]
 
             resamp_mod = fit_model.model.__class__(y_resamp,
-                                                   fit_model.model.exog)
+                                                   fit_model.model.wexog)
             resamp_fit = resamp_mod.fit(**fit_kwargs)
 
             if debug:
-- 
2.43.0


From 24f3534cda4f4ca63931b7144d45e8116f90d976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:09 +0000
Subject: [PATCH 45/63] fix: the break of a wavelet fit is a length

---
 turbustat/statistics/wavelets/wavelet_transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 09ffa7d..05e36e8 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -321,7 +321,7 @@ class Wavelet(BaseStatisticMixIn):
                     x = x[good_pts]
                     y = y[good_pts]
 
-                    self._brk = 10**model.brk / u.pix
+                    self._brk = 10**model.brk * u.pix
 
                     self._slope = model.slopes
 
@@ -331,12 +331,12 @@ class Wavelet(BaseStatisticMixIn):
 
                         self._slope_err = stderrs[1:-1]
                         self._brk_err = np.log(10) * self.brk.value * \
-                            stderrs[-1] / u.pix
+                            stderrs[-1] * u.pix
 
                     else:
                         self._slope_err = model.slope_errs
                         self._brk_err = np.log(10) * self.brk.value * \
-                            model.brk_err / u.pix
+                            model.brk_err * u.pix
 
                     self.fit = model.fit
 
-- 
2.43.0


From d08baed95b73656d078eca6ff8960c018c654de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:35:09 +0000
Subject: [PATCH 46/63] fix: VCS.fit_pspec uses breaks estimated from the
 spline as they are

They are already logarithms, and with none of several accepted the last one tried is kept.
---
 turbustat/statistics/vca_vcs/vcs.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 50edf6f..8d0c7d5 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -197,11 +197,12 @@ class VCS(BaseStatisticMixIn):
                 if i >= breaks.size:
                     warnings.warn("No good break point found. Returned fit\
                                    does not include a break!")
+                    breaks = breaks[-1]
                     break
 
             # return self
 
-        if not log_break:
+        elif not log_break:
             breaks = np.log10(breaks)
 
         # Fit the final model with whichever breaks were passed.
-- 
2.43.0


From 227700f8f95b64bd08c0bcd323e270f96711636f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:18 +0000
Subject: [PATCH 47/63] fix: a break on the first sample is not a break inside
 the data

---
 turbustat/statistics/lm_seg.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/turbustat/statistics/lm_seg.py b/turbustat/statistics/lm_seg.py
index 37bfcca..51e7ad3 100644
--- a/turbustat/statistics/lm_seg.py
+++ b/turbustat/statistics/lm_seg.py
@@ -117,7 +117,7 @@ class Lm_Seg(object):
 
             X_all = np.vstack([self.x, U, V]).T
             if constant:
-                X_all = sm.add_constant(X_all)
+                X_all = sm.add_constant(X_all, has_constant='add')
 
             if self.weights is None:
                 model = sm.OLS(self.y, X_all, missing=missing)
@@ -136,7 +136,7 @@ class Lm_Seg(object):
             # If the new break point is outside of the allowed range, reset
             # the step size to half of the original, then try stepping again
             h_it = 0
-            if not (self.x > new_brk).any() or (self.x > new_brk).all():
+            if not (self.x > new_brk).any() or (self.x >= new_brk).all():
                 while True:
                     # Remove step taken
                     new_brk -= (h_step * gamma) / beta
@@ -144,7 +144,7 @@ class Lm_Seg(object):
                     h_step /= 2.0
                     new_brk += (h_step * gamma) / beta
                     h_it += 1
-                    if (self.x > new_brk).any() and not (self.x > new_brk).all():
+                    if (self.x > new_brk).any() and not (self.x >= new_brk).all():
                         self.brk = new_brk
                         break
                     if h_it >= 5:
-- 
2.43.0


From 1ec13fe8f6440ec07e760ae27c5b6f9766b5ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:18 +0000
Subject: [PATCH 48/63] fix: the break error is None when there is no break

---
 turbustat/statistics/base_pspec2.py                   | 2 ++
 turbustat/statistics/delta_variance/delta_variance.py | 3 +++
 turbustat/statistics/wavelets/wavelet_transform.py    | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/turbustat/statistics/base_pspec2.py b/turbustat/statistics/base_pspec2.py
index 3af1cba..ff2b52c 100644
--- a/turbustat/statistics/base_pspec2.py
+++ b/turbustat/statistics/base_pspec2.py
@@ -245,6 +245,7 @@ class StatisticBase_PSpec2D(object):
                                   " Ignoring break.")
 
                     self._brk = None
+                    self._brk_err = None
                 else:
                     good_pts = x.copy() < brk_fit.brk
                     x = x[good_pts]
@@ -272,6 +273,7 @@ class StatisticBase_PSpec2D(object):
 
             else:
                 self._brk = None
+                self._brk_err = None
                 # Break fit failed, revert to normal model
                 warnings.warn("Model with break failed, reverting to model\
                                without break.")
diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 0082ddb..5e20341 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -371,6 +371,7 @@ class DeltaVariance(BaseStatisticMixIn):
                          " Ignoring break.")
 
                     self._brk = None
+                    self._brk_err = None
                 else:
                     good_pts = x.copy() < model.brk
                     x = x[good_pts]
@@ -397,11 +398,13 @@ class DeltaVariance(BaseStatisticMixIn):
 
             else:
                 self._brk = None
+                self._brk_err = None
                 # Break fit failed, revert to normal model
                 warn("Model with break failed, reverting to model\
                       without break.")
         else:
             self._brk = None
+            self._brk_err = None
 
         # Revert to model without break if none is given, or if the segmented
         # model failed.
diff --git a/turbustat/statistics/wavelets/wavelet_transform.py b/turbustat/statistics/wavelets/wavelet_transform.py
index 05e36e8..1d0dd3f 100644
--- a/turbustat/statistics/wavelets/wavelet_transform.py
+++ b/turbustat/statistics/wavelets/wavelet_transform.py
@@ -316,6 +316,7 @@ class Wavelet(BaseStatisticMixIn):
                                   " Ignoring break.")
 
                     self._brk = None
+                    self._brk_err = None
                 else:
                     good_pts = x.copy() < model.brk
                     x = x[good_pts]
@@ -342,11 +343,13 @@ class Wavelet(BaseStatisticMixIn):
 
             else:
                 self._brk = None
+                self._brk_err = None
                 # Break fit failed, revert to normal model
                 warnings.warn("Model with break failed, reverting to model\
                                without break.")
         else:
             self._brk = None
+            self._brk_err = None
 
         # Revert to model without break if none is given, or if the segmented
         # model failed.
-- 
2.43.0


From c7d87b663f4da229e8aee319f101b797772e9261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:31 +0000
Subject: [PATCH 49/63] fix: the fit started at the flipped angle uses its own
 fitter

---
 turbustat/statistics/elliptical_powerlaw.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/elliptical_powerlaw.py b/turbustat/statistics/elliptical_powerlaw.py
index 7b51b77..de31e82 100644
--- a/turbustat/statistics/elliptical_powerlaw.py
+++ b/turbustat/statistics/elliptical_powerlaw.py
@@ -114,8 +114,8 @@ def fit_elliptical_powerlaw(values, x, y, p0, fit_method='LevMarq',
             model_f = LogEllipticalPowerLaw2D(*p0_f)
 
             fitter_f = fitting.LevMarLSQFitter()
-            fit_model_f = fitter(model_f, x, y, values, weights=weights,
-                                 estimate_jacobian=True)
+            fit_model_f = fitter_f(model_f, x, y, values, weights=weights,
+                                   estimate_jacobian=True)
 
             resids_f = np.sum(np.abs(values - fit_model_f(x, y)))
 
-- 
2.43.0


From e9dcc08d25adc8a748c7060fb6346b8bdd88521a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:31 +0000
Subject: [PATCH 50/63] fix: elliptical fits return an error for each parameter
 when some are fixed

---
 turbustat/statistics/elliptical_powerlaw.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/turbustat/statistics/elliptical_powerlaw.py b/turbustat/statistics/elliptical_powerlaw.py
index de31e82..3f9a704 100644
--- a/turbustat/statistics/elliptical_powerlaw.py
+++ b/turbustat/statistics/elliptical_powerlaw.py
@@ -125,6 +125,10 @@ def fit_elliptical_powerlaw(values, x, y, p0, fit_method='LevMarq',
                 fitter = fitter_f
                 fit_model = fit_model_f
 
+        # Fixed parameters are not in the covariance matrix and have no error.
+        free = np.array([not fit_model.fixed[name]
+                         for name in fit_model.param_names])
+
         # Use bootstrap re-sampling of the model residuals to estimate
         # 1-sigma CIs.
         if bootstrap:
@@ -181,7 +185,8 @@ def fit_elliptical_powerlaw(values, x, y, p0, fit_method='LevMarq',
                      "carefully.")
                 stderrs = np.zeros((4,)) * np.nan
             else:
-                stderrs = np.sqrt(np.abs(np.diag(cov_matrix)))
+                stderrs = np.zeros((4,))
+                stderrs[free] = np.sqrt(np.abs(np.diag(cov_matrix)))
 
         params = fit_model.parameters
     else:
-- 
2.43.0


From 128e8e4a13228d71f1f43165b781c1f5697c7c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:32 +0000
Subject: [PATCH 51/63] fix: simulated fields have the asked size and keep all
 frequencies for odd sizes

---
 turbustat/simulator/gen_field.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/turbustat/simulator/gen_field.py b/turbustat/simulator/gen_field.py
index a4a1d0f..a905b9e 100644
--- a/turbustat/simulator/gen_field.py
+++ b/turbustat/simulator/gen_field.py
@@ -99,30 +99,23 @@ def make_3dfield(imsize, powerlaw=2.0, amp=1.0,
 
         output[1:Np1 + 1, 1:Np1 + 1, 0] = \
             np.conj(output[imsize:Np1:-1, imsize:Np1:-1, 0])
-        output[1:Np1 + 1, 1:Np1 + 1, -1] = \
-            np.conj(output[imsize:Np1:-1, imsize:Np1:-1, -1])
 
         # And the conjugates off the diagonal must also equal:
         output[1:Np1 + 1, imsize:Np1:-1, 0] = \
             np.conj(output[imsize:Np1:-1, 1:Np1 + 1, 0])
-        output[1:Np1 + 1, imsize:Np1:-1, -1] = \
-            np.conj(output[imsize:Np1:-1, 1:Np1 + 1, -1])
         output[1:Np1 + 1, imsize:Np1:-1, 0] = \
             np.conj(output[imsize:Np1:-1, 1:Np1 + 1, 0])
-        output[1:Np1 + 1, imsize:Np1:-1, -1] = \
-            np.conj(output[imsize:Np1:-1, 1:Np1 + 1, -1])
 
         # The 2D equivalents along the 0 frequency
         output[1:Np1 + 1, 0, 0] = np.conj(output[imsize:Np1:-1, 0, 0])
-        output[1:Np1 + 1, 0, -1] = np.conj(output[imsize:Np1:-1, 0, -1])
         output[0, 1:Np1 + 1, 0] = np.conj(output[0, imsize:Np1:-1, 0])
-        output[0, 1:Np1 + 1, -1] = np.conj(output[0, imsize:Np1:-1, -1])
 
     # Zero freq components must have no imaginary part to be own conjugate
     output[0, 0, 0] = output[0, 0, 0].real + 1j * 0.0
-    output[0, 0, -1] = output[0, 0, -1].real + 1j * 0.0
+    if imsize % 2 == 0:
+        output[0, 0, -1] = output[0, 0, -1].real + 1j * 0.0
 
-    newmap = np.fft.irfftn(output)
+    newmap = np.fft.irfftn(output, s=(imsize,) * 3)
 
     # Normalize to the correct amplitude.
     newmap /= (np.sqrt(np.sum(newmap**2)) / np.sqrt(newmap.size)) / amp
@@ -225,10 +218,10 @@ def make_extended(imsize, powerlaw=2.0, theta=0., ellip=1.,
 
     else:
         output[1:Np1 + 1, 0] = np.conj(output[imsize:Np1:-1, 0])
-        output[1:Np1 + 1, -1] = np.conj(output[imsize:Np1:-1, -1])
 
     # Zero freq components must have no imaginary part to be own conjugate
-    output[0, -1] = output[0, -1].real + 1j * 0.0
+    if imsize % 2 == 0:
+        output[0, -1] = output[0, -1].real + 1j * 0.0
     output[0, 0] = output[0, 0].real + 1j * 0.0
 
     if return_fft:
@@ -252,6 +245,6 @@ def make_extended(imsize, powerlaw=2.0, theta=0., ellip=1.,
 
         return np.fft.fftshift(full_powermap)
 
-    newmap = np.fft.irfft2(output)
+    newmap = np.fft.irfft2(output, s=(imsize, imsize))
 
     return newmap
-- 
2.43.0


From f1bbad151b2f8e72272bb567ad0c923a00f47178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:32 +0000
Subject: [PATCH 52/63] fix: the cube-wise moment 0 error is blank where no
 channel is valid

---
 turbustat/moments/_moment_errs.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/turbustat/moments/_moment_errs.py b/turbustat/moments/_moment_errs.py
index 93340f2..7c44008 100644
--- a/turbustat/moments/_moment_errs.py
+++ b/turbustat/moments/_moment_errs.py
@@ -399,10 +399,12 @@ def _cube0(cube, axis, scale):
     else:
         noise_plane = scale
 
+    valid = cube._mask.include(data=cube._data, wcs=cube._wcs)
+
     error_arr = \
-        np.sqrt(
-            np.sum(cube._mask.include(data=cube._data, wcs=cube._wcs) *
-                   noise_plane**2, axis=axis)) * cube._pix_size_slice(axis)
+        np.sqrt(np.sum(valid * noise_plane**2, axis=axis)) * \
+        cube._pix_size_slice(axis)
+    error_arr[~valid.any(axis=axis)] = np.nan
 
     return error_arr
 
-- 
2.43.0


From c84cde31448f7e8e86e71503d50564fde26bd3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:32 +0000
Subject: [PATCH 53/63] fix: Moments.make_moments without units strips the line
 width

---
 turbustat/moments/make_moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index 0b3ce45..ec04be0 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -136,7 +136,7 @@ class Moments(object):
         if not units:
             self._moment0 = self._moment0.value
             self._moment1 = self._moment1.value
-            self._moment2 = self._moment2.value
+            self._linewidth = self._linewidth.value
 
     def make_moment_errors(self, axis=0, scale=None):
         '''
@@ -626,7 +626,7 @@ def _try_remove_unit(arr):
 #         if not units:
 #             self._moment0 = self._moment0.value
 #             self._moment1 = self._moment1.value
-#             self._moment2 = self._moment2.value
+#             self._linewidth = self._linewidth.value
 
 #     def make_moment_errors(self, axis=0):
 #         '''
-- 
2.43.0


From 2c669256a29c42a2dce92dc56d912d8d1e24d2f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:32 +0000
Subject: [PATCH 54/63] fix: Moments.make_moment_errors uses the noise level it
 is given

---
 turbustat/moments/make_moments.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index ec04be0..d1682ac 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -146,6 +146,9 @@ class Moments(object):
         ----------
         axis : int, optional
             The axis to calculate the moments along.
+        scale : `~astropy.units.Quantity`, optional
+            The noise level in the cube. Defaults to the level given to
+            `~Moments`.
         '''
 
         if not hasattr(self, "_moment0"):
@@ -160,8 +163,9 @@ class Moments(object):
             self._moment1_err = np.zeros_like(self.moment1)
             self._linewidth_err = np.zeros_like(self.linewidth)
 
-        elif self.scale is not None:
-            scale = self.scale
+        else:
+            if scale is None:
+                scale = self.scale
 
             self._moment0_err = moment0_error(self.cube, scale,
                                               how=self.moment_how, axis=axis)
-- 
2.43.0


From e5be81adea8fb7d11c3bfb612fd883654687de12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:32 +0000
Subject: [PATCH 55/63] fix: the header of the saved zeroth moment has its unit

---
 turbustat/moments/make_moments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index d1682ac..b436627 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -276,7 +276,8 @@ class Moments(object):
         Generate headers for the moments.
         '''
 
-        bunits = [self.cube.unit, self.cube.spectral_axis.unit,
+        bunits = [self.cube.unit * self.cube.spectral_axis.unit,
+                  self.cube.spectral_axis.unit,
                   self.cube.spectral_axis.unit,
                   self.cube.unit * self.cube.spectral_axis.unit]
 
-- 
2.43.0


From 57bdf35e3b5a8110aac050ec16a7bd67b360ac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:32 +0000
Subject: [PATCH 56/63] fix: Moments.from_fits applies the saved mask

---
 turbustat/moments/make_moments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/moments/make_moments.py b/turbustat/moments/make_moments.py
index b436627..bbdd9dc 100644
--- a/turbustat/moments/make_moments.py
+++ b/turbustat/moments/make_moments.py
@@ -399,7 +399,7 @@ class Moments(object):
 
         if mask_name is not None:
             mask = fits.getdata(mask_name)
-            self.with_mask(mask=mask)
+            self.apply_mask(mask.astype(bool))
 
         # Moment 0
         if moment0 is not None:
@@ -864,7 +864,7 @@ def _try_remove_unit(arr):
 
 #         if mask_name is not None:
 #             mask = fits.getdata(mask_name)
-#             self.with_mask(mask=mask)
+#             self.apply_mask(mask.astype(bool))
 
 #         # Moment 0
 #         if moment0 is not None:
-- 
2.43.0


From 570d9831134a0c237beb317a3fd3b65585b3f094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:50 +0000
Subject: [PATCH 57/63] fix: mock spectra keep voxels with a velocity on the
 edge of a channel

---
 turbustat/simulator/spectrum.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/simulator/spectrum.pyx b/turbustat/simulator/spectrum.pyx
index 4de3b18..b426b94 100644
--- a/turbustat/simulator/spectrum.pyx
+++ b/turbustat/simulator/spectrum.pyx
@@ -47,7 +47,7 @@ def generate_spectrum(np.ndarray[np.float64_t, ndim=1] vel,
     for i, (vel_l, vel_h) in enumerate(zip(vel_edges[:-1], vel_edges[1:])):
 
         # Find locations of all contributions at this velocity
-        contribs = (vel > vel_l) & (vel < vel_h)
+        contribs = (vel >= vel_l) & (vel < vel_h)
 
         if not contribs.any():
             continue
-- 
2.43.0


From 59b49885a86c984465eaaeba8c30f3bd23dfe5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:50 +0000
Subject: [PATCH 58/63] fix: make_ppv accepts velocity limits and widths in
 different units

---
 turbustat/simulator/make_cube.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/turbustat/simulator/make_cube.py b/turbustat/simulator/make_cube.py
index 8b61321..cec3e9b 100644
--- a/turbustat/simulator/make_cube.py
+++ b/turbustat/simulator/make_cube.py
@@ -124,6 +124,8 @@ def make_ppv(vel_field, dens_field, los_axis=0,
     if v_min > v_max:
         raise ValueError("v_min > v_max is not allowed.")
 
+    v_max = v_max.to(v_min.unit)
+
     del_v = v_max - v_min
 
     # m=1 assumption.
@@ -144,10 +146,10 @@ def make_ppv(vel_field, dens_field, los_axis=0,
 
         v_eff = np.sqrt(dv_sq + 2 * v_therm_sq).to(vel_field.unit)
 
-        N_chan = int(np.ceil(del_v / (v_eff / 2.)).value)
+        N_chan = int(np.ceil((del_v / (v_eff / 2.)).to(u.one).value))
 
     else:
-        N_chan = int(np.ceil(del_v / chan_width))
+        N_chan = int(np.ceil((del_v / chan_width).to(u.one).value))
 
     if verbose:
         print("Number of spectral channels {}".format(N_chan))
-- 
2.43.0


From cf7d05eeef2cebfca88535d99992699f389ed0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:50 +0000
Subject: [PATCH 59/63] fix: the warning on few channels in make_ppv says how
 many

---
 turbustat/simulator/make_cube.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/turbustat/simulator/make_cube.py b/turbustat/simulator/make_cube.py
index cec3e9b..8dc73f1 100644
--- a/turbustat/simulator/make_cube.py
+++ b/turbustat/simulator/make_cube.py
@@ -160,7 +160,7 @@ def make_ppv(vel_field, dens_field, los_axis=0,
     if N_chan < 6:
         warn("<6 channels will be used ({} channels). Recommend increasing the"
              " number of channels. See Esquivel et al. (2003) and Chepurnov & "
-             "Lazarian (2009).")
+             "Lazarian (2009).".format(N_chan))
 
     if N_chan > max_chan:
         raise ValueError("Number of channels larger than set maximum"
-- 
2.43.0


From f4e9d357f7cf1895310c425b1207e9c62f7ab44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:45 +0000
Subject: [PATCH 60/63] fix: run() leaves the option dictionaries it is handed
 unchanged

---
 turbustat/statistics/mvc/mvc.py            | 3 ++-
 turbustat/statistics/pspec_bispec/pspec.py | 4 +++-
 turbustat/statistics/vca_vcs/vca.py        | 4 +++-
 turbustat/statistics/vca_vcs/vcs.py        | 3 ++-
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/turbustat/statistics/mvc/mvc.py b/turbustat/statistics/mvc/mvc.py
index d284fef..e1ab544 100644
--- a/turbustat/statistics/mvc/mvc.py
+++ b/turbustat/statistics/mvc/mvc.py
@@ -272,7 +272,8 @@ class MVC(BaseStatisticMixIn, StatisticBase_PSpec2D):
         fit_kwargs : Passed to `~MVC.fit_pspec`.
         '''
 
-        # Remove threads if in dict
+        # Remove threads if in dict (from a copy: the dict is the caller's)
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
 
diff --git a/turbustat/statistics/pspec_bispec/pspec.py b/turbustat/statistics/pspec_bispec/pspec.py
index 3973572..d926945 100644
--- a/turbustat/statistics/pspec_bispec/pspec.py
+++ b/turbustat/statistics/pspec_bispec/pspec.py
@@ -178,11 +178,13 @@ class PowerSpectrum(BaseStatisticMixIn, StatisticBase_PSpec2D):
             Plot the x-axis as the wavenumber rather than spatial frequency.
         '''
 
-        # Remove threads if in dict
+        # Remove threads if in dict (from a copy: the dict is the caller's)
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
 
         # Pop fit_unbinned if given as kwarg in dict.
+        fit_kwargs = dict(fit_kwargs)
         if fit_kwargs.get('fit_unbinned') is not None:
             fit_kwargs.pop('fit_unbinned')
 
diff --git a/turbustat/statistics/vca_vcs/vca.py b/turbustat/statistics/vca_vcs/vca.py
index 8021f6f..a0eff32 100644
--- a/turbustat/statistics/vca_vcs/vca.py
+++ b/turbustat/statistics/vca_vcs/vca.py
@@ -182,11 +182,13 @@ class VCA(BaseStatisticMixIn, StatisticBase_PSpec2D):
         fit_kwargs : Passed to `~VCA.fit_pspec`.
         '''
 
-        # Remove threads if in dict
+        # Remove threads if in dict (from a copy: the dict is the caller's)
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
 
         # Pop fit_unbinned if given as kwarg in dict.
+        fit_kwargs = dict(fit_kwargs)
         if fit_kwargs.get('fit_unbinned') is not None:
             fit_kwargs.pop('fit_unbinned')
 
diff --git a/turbustat/statistics/vca_vcs/vcs.py b/turbustat/statistics/vca_vcs/vcs.py
index 8d0c7d5..7b9ac57 100644
--- a/turbustat/statistics/vca_vcs/vcs.py
+++ b/turbustat/statistics/vca_vcs/vcs.py
@@ -371,7 +371,8 @@ class VCS(BaseStatisticMixIn):
         fit_kwargs : Passed to `~VCS.fit_pspec`.
         '''
 
-        # Remove threads if in dict
+        # Remove threads if in dict (from a copy: the dict is the caller's)
+        pyfftw_kwargs = dict(pyfftw_kwargs)
         if pyfftw_kwargs.get('threads') is not None:
             pyfftw_kwargs.pop('threads')
         self.compute_pspec(use_pyfftw=use_pyfftw, threads=threads,
-- 
2.43.0


From d9d5d8ccb66678f889e62a1ef44f8df34b75fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:21:26 +0000
Subject: [PATCH 61/63] fix: making a PDF again uses the same bins, not the bin
 centres

---
 turbustat/statistics/pdf/compare_pdf.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/turbustat/statistics/pdf/compare_pdf.py b/turbustat/statistics/pdf/compare_pdf.py
index 5b1504e..31989c7 100644
--- a/turbustat/statistics/pdf/compare_pdf.py
+++ b/turbustat/statistics/pdf/compare_pdf.py
@@ -75,6 +75,7 @@ class PDF(BaseStatisticMixIn):
             self._normalization_type = "None"
 
         self._bins = bins
+        self._bins_input = bins
 
         self._pdf = None
         self._ecdf = None
@@ -92,16 +93,17 @@ class PDF(BaseStatisticMixIn):
         '''
 
         if bins is not None:
-            self._bins = bins
+            self._bins_input = bins
+
+        use_bins = self._bins_input
 
         # If the number of bins is not given, use sqrt of data length.
-        if self.bins is None:
-            self._bins = np.sqrt(self.data.shape[0])
-            self._bins = int(np.round(self.bins))
+        if use_bins is None:
+            use_bins = int(np.round(np.sqrt(self.data.shape[0])))
 
         # norm_weights = np.ones_like(self.data) / self.data.shape[0]
 
-        self._pdf, bin_edges = np.histogram(self.data, bins=self.bins,
+        self._pdf, bin_edges = np.histogram(self.data, bins=use_bins,
                                             density=True)
                                             # weights=norm_weights)
 
-- 
2.43.0


From c025847f6548a7578a6af1ad9c53c0cbdb4c1844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:22:03 +0000
Subject: [PATCH 62/63] fix: DeltaVariance keeps only the convolved arrays of
 the last computation

---
 turbustat/statistics/delta_variance/delta_variance.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/turbustat/statistics/delta_variance/delta_variance.py b/turbustat/statistics/delta_variance/delta_variance.py
index 5e20341..ec09588 100644
--- a/turbustat/statistics/delta_variance/delta_variance.py
+++ b/turbustat/statistics/delta_variance/delta_variance.py
@@ -178,6 +178,9 @@ class DeltaVariance(BaseStatisticMixIn):
         self._delta_var = np.empty((len(self.lags)))
         self._delta_var_error = np.empty((len(self.lags)))
 
+        self._convolved_arrays = []
+        self._convolved_weights = []
+
         if show_progress:
             bar = ProgressBar(len(self.lags))
 
-- 
2.43.0


From 941f54b11ba1a9f3e81b8f773553608eaf981ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:58 +0000
Subject: [PATCH 63/63] fix: match_kernel in Genus gives the kernel the shape
 of the image, not its transpose

---
 turbustat/statistics/genus/genus.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/turbustat/statistics/genus/genus.py b/turbustat/statistics/genus/genus.py
index e94183e..55602f9 100644
--- a/turbustat/statistics/genus/genus.py
+++ b/turbustat/statistics/genus/genus.py
@@ -306,8 +306,8 @@ class Genus(BaseStatisticMixIn):
             else:
                 if match_kernel:
                     kernel = Gaussian2DKernel(width,
-                                              x_size=self.data.shape[0],
-                                              y_size=self.data.shape[1])
+                                              x_size=self.data.shape[1],
+                                              y_size=self.data.shape[0])
                 else:
                     kernel = Gaussian2DKernel(width)
 
-- 
2.43.0

