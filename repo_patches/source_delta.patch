From 70a2e9dad601e2cb88c49d34cddb318bdab6f08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:12:19 +0000
Subject: [PATCH 01/33] fix: keep NaN in wet mask in baseline_constant instead
 of treating it as wet

---
 pycomlink/processing/baseline.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/baseline.py b/pycomlink/processing/baseline.py
index ee8d071..6c18fee 100644
--- a/pycomlink/processing/baseline.py
+++ b/pycomlink/processing/baseline.py
@@ -43,7 +43,7 @@ def baseline_constant(trsl, wet, n_average_last_dry=1):
 
     return _numba_baseline_constant(
         trsl=np.asarray(trsl, dtype=np.float64),
-        wet=np.asarray(wet, dtype=bool),
+        wet=np.asarray(wet, dtype=np.float64),
         n_average_last_dry=n_average_last_dry,
     )
 
@@ -52,12 +52,16 @@ def baseline_constant(trsl, wet, n_average_last_dry=1):
 def _numba_baseline_constant(trsl, wet, n_average_last_dry):
     baseline = np.zeros_like(trsl, dtype=np.float64)
     baseline[0:n_average_last_dry] = trsl[0:n_average_last_dry]
+    for i in range(min(n_average_last_dry, len(trsl))):
+        if np.isnan(wet[i]):
+            baseline[i] = np.nan
     for i in range(n_average_last_dry, len(trsl)):
         if np.isnan(wet[i]):
             baseline[i] = np.nan
-        elif wet[i] & ~wet[i - 1]:
+        # note that `NaN != 0` is True, i.e. a `NaN` is not a known dry time step
+        elif wet[i] != 0 and wet[i - 1] == 0:
             baseline[i] = np.mean(baseline[(i - n_average_last_dry) : i])
-        elif wet[i] & wet[i - 1]:
+        elif wet[i] != 0 and wet[i - 1] != 0:
             baseline[i] = baseline[i - 1]
         else:
             baseline[i] = trsl[i]
-- 
2.43.0


From c7ccaac2b8600e4db7d28e973da10a3615adfdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:55 +0000
Subject: [PATCH 02/33] fix: baseline_linear returns NaN instead of 0 for a wet
 period without end

---
 pycomlink/processing/baseline.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycomlink/processing/baseline.py b/pycomlink/processing/baseline.py
index 6c18fee..c38430d 100644
--- a/pycomlink/processing/baseline.py
+++ b/pycomlink/processing/baseline.py
@@ -162,4 +162,9 @@ def _numba_baseline_linear(rsl, wet, ignore_nan=False):
         else:
             # print('This should be impossible')
             raise
+
+    # There is no dry value to interpolate to if the last wet period is not
+    # finished (or if the time series ends with `NaN`s in `wet`), hence the
+    # baseline is not known there
+    baseline[last_dry_i + 1 :] = np.nan
     return baseline
-- 
2.43.0


From fbabc2b29730f9898c7f2c56b9700af3243ccbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:01 +0000
Subject: [PATCH 03/33] fix: blackout gap markers do not wrap around and work
 with DataArrays

---
 pycomlink/processing/blackout_gap_detection.py | 6 +++++-
 pycomlink/processing/xarray_wrapper.py         | 9 +++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/blackout_gap_detection.py b/pycomlink/processing/blackout_gap_detection.py
index cc410c7..7461977 100644
--- a/pycomlink/processing/blackout_gap_detection.py
+++ b/pycomlink/processing/blackout_gap_detection.py
@@ -3,7 +3,7 @@ import numba
 from .xarray_wrapper import xarray_apply_along_time_dim
 
 
-@xarray_apply_along_time_dim()
+@xarray_apply_along_time_dim(n_outputs=2)
 def get_blackout_start_and_end(rsl, rsl_threshold):
     """
     Identify nan gaps as blackout gaps caused by heavy attenuation based on
@@ -30,6 +30,10 @@ def get_blackout_start_and_end(rsl, rsl_threshold):
     gap_start = np.roll(rsl_nan, -1) & rsl_below_threshold
     gap_end = np.roll(rsl_nan, 1) & rsl_below_threshold
 
+    # the time series is not circular, but `np.roll` is
+    gap_start[-1:] = False
+    gap_end[:1] = False
+
     return gap_start, gap_end
 
 
diff --git a/pycomlink/processing/xarray_wrapper.py b/pycomlink/processing/xarray_wrapper.py
index 77b9da7..20ad5fc 100644
--- a/pycomlink/processing/xarray_wrapper.py
+++ b/pycomlink/processing/xarray_wrapper.py
@@ -4,13 +4,18 @@ import inspect
 import xarray as xr
 
 
-def xarray_apply_along_time_dim():
+def xarray_apply_along_time_dim(n_outputs=1):
     """
     A decorator to apply CML processing function along the time dimension of DataArrays
 
     This will work if the decorated function takes 1D numpy arrays, which hold the
     CML time series data, as arguments. Additional argument are also handled.
 
+    Parameters
+    ----------
+    n_outputs : int
+        Number of arrays that the decorated function returns
+
     """
 
     def decorator(func):
@@ -44,7 +49,7 @@ def xarray_apply_along_time_dim():
                     func,
                     *list(new_args_dict.values()),
                     input_core_dims=input_core_dims,
-                    output_core_dims=[["time"]],
+                    output_core_dims=[["time"]] * n_outputs,
                     vectorize=True,
                 )
 
-- 
2.43.0


From 18439c489ad14dc6b7ff34cf7ee8dba02e2d21e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:07 +0000
Subject: [PATCH 04/33] fix: reject unknown or missing arguments also for
 DataArray input

---
 pycomlink/processing/xarray_wrapper.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/pycomlink/processing/xarray_wrapper.py b/pycomlink/processing/xarray_wrapper.py
index 20ad5fc..aac8a3f 100644
--- a/pycomlink/processing/xarray_wrapper.py
+++ b/pycomlink/processing/xarray_wrapper.py
@@ -69,13 +69,8 @@ def _get_new_args_dict(func, args, kwargs):
     xarray.apply_ufunc in the xarray wrapper.
 
     """
-    new_args_dict = OrderedDict()
-    for i, (arg, parameter) in enumerate(inspect.signature(func).parameters.items()):
-        if i < len(args):
-            new_args_dict[arg] = args[i]
-        elif arg in kwargs.keys():
-            new_args_dict[arg] = kwargs[arg]
-        else:
-            new_args_dict[arg] = parameter.default
+    # Note that `bind` raises a `TypeError` if arguments are missing or unexpected
+    bound_args = inspect.signature(func).bind(*args, **kwargs)
+    bound_args.apply_defaults()
 
-    return new_args_dict
+    return OrderedDict(bound_args.arguments)
-- 
2.43.0


From 4f2ac52b154a8f1f9740c51c40b0aa328124c028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:12 +0000
Subject: [PATCH 05/33] fix: support scalar rain rate in WAA functions as
 documented

---
 pycomlink/processing/wet_antenna.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycomlink/processing/wet_antenna.py b/pycomlink/processing/wet_antenna.py
index 770d465..b705ae4 100644
--- a/pycomlink/processing/wet_antenna.py
+++ b/pycomlink/processing/wet_antenna.py
@@ -293,6 +293,8 @@ def waa_leijnse_2008(
     waa = 10 * np.log10(np.abs((x1 + x2 + x3 + x4) / (2 * n_water * (y1 + y2))) ** 2)
 
     # Assure that numeric inaccuracy does not lead to waa > 0 for R == 0
+    if np.ndim(waa) == 0:
+        waa = np.asanyarray(waa)
     waa[R == 0] = 0
 
     return waa
@@ -416,6 +418,8 @@ def waa_pastorek_2021(
     waa = A_max * (1 - np.exp(-d * (R**zeta)))
 
     # Assure that numeric inaccuracy does not lead to waa > 0 for R == 0
+    if np.ndim(waa) == 0:
+        waa = np.asanyarray(waa)
     waa[R == 0] = 0
 
     return waa  # @xarray_apply_along_time_dim()
-- 
2.43.0


From 4464e7946b478cd6b2f184766dec65fbb7981363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:17 +0000
Subject: [PATCH 06/33] fix: haversine distance is NaN for some antipodal
 points

---
 pycomlink/spatial/helper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycomlink/spatial/helper.py b/pycomlink/spatial/helper.py
index 70b692e..9b3d893 100644
--- a/pycomlink/spatial/helper.py
+++ b/pycomlink/spatial/helper.py
@@ -24,6 +24,8 @@ def haversine(lon1, lat1, lon2, lat2):
     dlon = lon2 - lon1
     dlat = lat2 - lat1
     a = np.sin(dlat / 2) ** 2 + np.cos(lat1) * np.cos(lat2) * np.sin(dlon / 2) ** 2
+    # rounding errors can lead to a > 1 for antipodal points
+    a = np.minimum(a, 1)
     c = 2 * np.arctan2(a ** 0.5, (1 - a) ** 0.5)
     km = 6367 * c
     return km
-- 
2.43.0


From 7ddcd76e49e82a1bdafb5dccaf02844314f3b1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:23 +0000
Subject: [PATCH 07/33] fix: use unary_union since cascaded_union was removed
 from shapely

---
 pycomlink/spatial/coverage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/spatial/coverage.py b/pycomlink/spatial/coverage.py
index e218513..7b6c146 100644
--- a/pycomlink/spatial/coverage.py
+++ b/pycomlink/spatial/coverage.py
@@ -49,7 +49,7 @@ def calc_coverage_mask(cml_list, xgrid, ygrid, max_dist_from_cml):
             ).buffer(max_dist_from_cml, cap_style=1)
         )
 
-    cml_multi_line = ops.cascaded_union(cml_lines)
+    cml_multi_line = ops.unary_union(cml_lines)
 
     # Generate list of grid points
     grid_points = []
-- 
2.43.0


From 67d0b9cb31772da613f0d02f10832ec857230829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:28 +0000
Subject: [PATCH 08/33] fix: find_lowest_std_dev_period uses removed mlab.find
 and is off by one

---
 pycomlink/processing/wet_dry/stft.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/wet_dry/stft.py b/pycomlink/processing/wet_dry/stft.py
index b2e0fbb..ffc6681 100644
--- a/pycomlink/processing/wet_dry/stft.py
+++ b/pycomlink/processing/wet_dry/stft.py
@@ -15,7 +15,6 @@ from __future__ import division
 
 from builtins import range
 import numpy as np
-from matplotlib import mlab
 from matplotlib.mlab import specgram as specg
 import pandas as pd
 
@@ -217,8 +216,9 @@ def find_lowest_std_dev_period(rsl, window_length=600):
     """
 
     roll_std_dev = pd.DataFrame(rsl).rolling(window_length).std()
-    dry_stop = mlab.find(roll_std_dev == np.nanmin(roll_std_dev))
-    dry_stop = dry_stop[0]
+    # The rolling window includes the time step it is labeled with, hence, the
+    # dry period is given by the slice [dry_start:dry_stop]
+    dry_stop = int(np.nanargmin(roll_std_dev)) + 1
     dry_start = dry_stop - window_length
     return dry_start, dry_stop
 
-- 
2.43.0


From 1a70fcf6789bacb20df9aab00a071d01fe2772d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:33 +0000
Subject: [PATCH 09/33] fix: all-NaN interpolation with integer grid raises

---
 pycomlink/spatial/interpolator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index 973c22a..229e435 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -54,7 +54,7 @@ class PointsToGridInterpolator(with_metaclass(abc.ABCMeta, object)):
             x_list=x, y_list=y, xgrid=xgrid, ygrid=ygrid, resolution=resolution
         )
         if (~pd.isnull(z)).sum() == 0:
-            zgrid = np.zeros_like(self.xgrid)
+            zgrid = np.zeros_like(self.xgrid, dtype="float")
             zgrid[:] = np.nan
             self.zgrid = zgrid
 
-- 
2.43.0


From 6e64612c4b1de7ddf71e1fa9faaebf2a1c532d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:37 +0000
Subject: [PATCH 10/33] fix: IDW reuses outdated neighbours when max_distance
 or coordinates change

---
 pycomlink/spatial/idw.py          | 10 +++++++---
 pycomlink/spatial/interpolator.py |  5 +++--
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/pycomlink/spatial/idw.py b/pycomlink/spatial/idw.py
index 8eaf584..4d0597b 100644
--- a/pycomlink/spatial/idw.py
+++ b/pycomlink/spatial/idw.py
@@ -67,8 +67,8 @@ class Invdisttree(object):
     # error analysis, |f(x) - idw(x)| ? todo: regular grid, nnear ndim+1, 2*ndim
 
     def __init__(self, X, leafsize=10, stat=0):
-        self.X = np.asarray(X, dtype="float")
-        self.tree = KDTree(X, leafsize=leafsize)  # build the tree
+        self.X = np.array(X, dtype="float")
+        self.tree = KDTree(self.X, leafsize=leafsize)  # build the tree
         self.stat = stat
         self.q = None
 
@@ -99,6 +99,8 @@ class Invdisttree(object):
             and np.array_equal(nnear, self.nnear)
             and hasattr(self, "eps")
             and np.array_equal(eps, self.eps)
+            and hasattr(self, "max_distance")
+            and np.array_equal(max_distance, self.max_distance)
         ):
             # Do nothing here
             # print 'reuse `distances`'
@@ -107,9 +109,11 @@ class Invdisttree(object):
             self.distances, self.ix = self.tree.query(
                 q, k=nnear, eps=eps, distance_upper_bound=max_distance
             )
-            self.q = q
+            # Keep a copy because `q` might be changed in-place by the caller
+            self.q = q.copy()
             self.nnear = nnear
             self.eps = eps
+            self.max_distance = max_distance
 
         self.z = z
 
diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index 229e435..a8d28e5 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -103,8 +103,9 @@ class IdwKdtreeInterpolator(PointsToGridInterpolator):
             # print('Building new `Invdistree`')
             idw = Invdisttree(X=list(zip(x, y)))
             self.idw = idw
-            self.x = x
-            self.y = y
+            # Keep copies because `x` and `y` might be changed in-place by the caller
+            self.x = x.copy()
+            self.y = y.copy()
 
         zi = idw(
             q=list(zip(xi, yi)),
-- 
2.43.0


From 7bf0004c9a967897d1765fa8b178f7322dd15040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:42 +0000
Subject: [PATCH 11/33] fix: count all pairs of multidimensional input in
 performance metrics

---
 pycomlink/validation/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/validation/stats.py b/pycomlink/validation/stats.py
index 01db22a..7d03d7f 100644
--- a/pycomlink/validation/stats.py
+++ b/pycomlink/validation/stats.py
@@ -158,7 +158,7 @@ def calc_wet_dry_performance_metrics(reference, predicted):
     # Remove values pairs if either one or both are NaN and calculate nan metrics
     nan_index = np.isnan(reference) | np.isnan(predicted)
     N_nan_pairs = nan_index.sum()
-    N_all_pairs = len(reference)
+    N_all_pairs = reference.size
     N_nan_reference_only = np.isnan(reference).sum()
     N_nan_predicted_only = np.isnan(predicted).sum()
 
@@ -268,7 +268,7 @@ def calc_rain_error_performance_metrics(reference, predicted, rainfall_threshold
     # Remove values pairs if one or both are NaN and calculate nan metrics
     nan_index = np.isnan(reference) | np.isnan(predicted)
     N_nan_pairs = nan_index.sum()
-    N_all_pairs = len(reference)
+    N_all_pairs = reference.size
     N_nan_reference_only = np.isnan(reference).sum()
     N_nan_predicted_only = np.isnan(predicted).sum()
 
-- 
2.43.0


From 1a9f8a2d8f38cef12e070f485327f78fc6a630d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:47 +0000
Subject: [PATCH 12/33] fix: rain is wet if value >= threshold, as documented

---
 pycomlink/validation/stats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/validation/stats.py b/pycomlink/validation/stats.py
index 7d03d7f..2b22c82 100644
--- a/pycomlink/validation/stats.py
+++ b/pycomlink/validation/stats.py
@@ -291,9 +291,9 @@ def calc_rain_error_performance_metrics(reference, predicted, rainfall_threshold
     R_mean_predicted = predicted.mean()
 
     # calculate false and missed wet rates and the precipitation at these times
-    reference_wet = reference > rainfall_threshold_wet
+    reference_wet = reference >= rainfall_threshold_wet
     reference_dry = ~reference_wet
-    predicted_wet = predicted > rainfall_threshold_wet
+    predicted_wet = predicted >= rainfall_threshold_wet
     predicted_dry = ~predicted_wet
 
     N_false_wet = (reference_dry & predicted_wet).sum()
-- 
2.43.0


From 69cb732ecaea487f65157a78c5c339af53dad709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:52 +0000
Subject: [PATCH 13/33] fix: F-score window ignores interval

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index bb26fa5..4eeb434 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -206,7 +206,7 @@ def nearby_wetdry(
 
             # calculate the F values which can be used as outlier filter
             F_val = ds_nearby_cmls.deltaPL.sel(cml_id=cmlid) - medianPL
-            F.loc[dict(cml_id=cmlid)] = F_val.rolling(time=timeperiod * 4).sum(
+            F.loc[dict(cml_id=cmlid)] = F_val.rolling(time=period).sum(
                 skipna=True
             ) * (interval / 60)
 
-- 
2.43.0


From 6911d16a0ba3390554dad4a0b26e33ea255d6a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:57 +0000
Subject: [PATCH 14/33] fix: nearby_wetdry changes distance dataset and ignores
 its CML order

---
 pycomlink/processing/wet_dry/nearby_wetdry.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/wet_dry/nearby_wetdry.py b/pycomlink/processing/wet_dry/nearby_wetdry.py
index 4eeb434..044005f 100644
--- a/pycomlink/processing/wet_dry/nearby_wetdry.py
+++ b/pycomlink/processing/wet_dry/nearby_wetdry.py
@@ -155,12 +155,14 @@ def nearby_wetdry(
     deltaPL = deltaP / pmin.length
 
     # get number of CMLs within radius for each CML
-    ds_dist["within_r"] = (
+    within_r = (
         (ds_dist.a_to_all_a < radius)
         & (ds_dist.a_to_all_b < radius)
         & (ds_dist.b_to_all_a < radius)
         & (ds_dist.b_to_all_b < radius)
     )
+    # make sure that the order of CMLs is the same as in pmin
+    within_r = within_r.sel(cml_id2=pmin.cml_id.values)
 
     ds_cml = pmin.to_dataset(name="pmin")
     ds_cml["max_pmin"] = max_pmin
@@ -174,10 +176,10 @@ def nearby_wetdry(
 
     for cmlid in tqdm(ds_cml.cml_id):
         # only make wet dry detection if min_links is reached within radius
-        if sum(ds_dist.within_r.sel(cml_id1=cmlid).values) > min_links:
+        if sum(within_r.sel(cml_id1=cmlid).values) > min_links:
             # select all CMLs within r
             ds_nearby_cmls = ds_cml.isel(
-                cml_id=ds_dist.within_r.sel(cml_id1=cmlid).values
+                cml_id=within_r.sel(cml_id1=cmlid).values
             )
 
             # calculate median delta P and delta PL for each timestep
-- 
2.43.0


From 725af8f751a54021c7d475cf8c0071739388517e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:13 +0000
Subject: [PATCH 15/33] fix: new_index_tz leads to wrong time stamps in
 aggregate_df_onto_DatetimeIndex

---
 pycomlink/util/temporal.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pycomlink/util/temporal.py b/pycomlink/util/temporal.py
index 6f2f319..2360fdc 100644
--- a/pycomlink/util/temporal.py
+++ b/pycomlink/util/temporal.py
@@ -47,6 +47,11 @@ def aggregate_df_onto_DatetimeIndex(
     # Update time zone info if there is none
     if not df_new_t.index.tzinfo:
         df_new_t.index = df_new_t.index.tz_localize(new_index_tz)
+        df_new_t["time"] = df_new_t.index.tz_convert(df_temp.index.tzinfo)
+
+    # Slicing and reindexing below requires matching time zones
+    if df_temp.index.tzinfo:
+        df_new_t.index = df_new_t.index.tz_convert(df_temp.index.tzinfo)
 
     # Crop both time series to make them cover the same period.
     # This is to avoid the ffill or bfill to run outside of the
@@ -64,11 +69,7 @@ def aggregate_df_onto_DatetimeIndex(
     # Aggregate data onto new DatetimeIndex
     df_temp["new_time_ix"] = df_new_t.time
     df_reindexed = df_temp.groupby("new_time_ix").agg(method)
-    # Update name and timezone of new index
+    # Update name of new index
     df_reindexed.index.name = df_temp.index.name
-    if not df_reindexed.index.tzinfo:
-        df_reindexed.index = df_reindexed.index.tz_localize("UTC").tz_convert(
-            df_temp.index.tzinfo
-        )
 
     return df_reindexed
-- 
2.43.0


From e7728b2ae941593b91e67b37bedcef0c3c0d0031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:48 +0000
Subject: [PATCH 16/33] fix: interrupted download leaves incomplete model in
 cache

---
 pycomlink/processing/pytorch_utils/inference_utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/pytorch_utils/inference_utils.py b/pycomlink/processing/pytorch_utils/inference_utils.py
index d71fac1..f0ce8d6 100644
--- a/pycomlink/processing/pytorch_utils/inference_utils.py
+++ b/pycomlink/processing/pytorch_utils/inference_utils.py
@@ -34,6 +34,7 @@ Example Usage:
 
 import hashlib
 import urllib.request
+import uuid
 from pathlib import Path
 
 from pycomlink.processing.pytorch_utils.pytorch_utils import (
@@ -66,7 +67,14 @@ def download_and_cache_model(
 
     if not cached_path.exists() or force_download:
         print(f"Downloading model from {model_url}...")
-        urllib.request.urlretrieve(model_url, cached_path)
+        # Download to a temporary file first, so that an interrupted download does
+        # not leave an incomplete model in the cache
+        temp_path = cache_dir / f"{uuid.uuid4().hex}.part"
+        try:
+            urllib.request.urlretrieve(model_url, temp_path)
+            temp_path.replace(cached_path)
+        finally:
+            temp_path.unlink(missing_ok=True)
         print(f"Model cached at {cached_path}")
     else:
         print(f"Using cached model at {cached_path}")
-- 
2.43.0


From 4308334b3605de45aa98eb96176b41a1fad726bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:48 +0000
Subject: [PATCH 17/33] fix: list_cached_models never lists any model

---
 pycomlink/processing/pytorch_utils/inference_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycomlink/processing/pytorch_utils/inference_utils.py b/pycomlink/processing/pytorch_utils/inference_utils.py
index f0ce8d6..dd2120c 100644
--- a/pycomlink/processing/pytorch_utils/inference_utils.py
+++ b/pycomlink/processing/pytorch_utils/inference_utils.py
@@ -110,7 +110,7 @@ def list_cached_models(cache_dir="~/.cml_wd_pytorch/models", suffix=".pt"):
     """
     cache_dir = Path(cache_dir).expanduser()
     if cache_dir.exists():
-        return list(cache_dir.glob(suffix))
+        return list(cache_dir.glob(f"*{suffix}"))
     return []
 
 
-- 
2.43.0


From d100f845a3a453d268344118629fb19169f903a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:48 +0000
Subject: [PATCH 18/33] fix: interrupted download leaves incomplete file in
 TensorFlow model cache

---
 .../processing/tensorflow_utils/inference_utils.py     | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index c58418c..e8e11a8 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -2,6 +2,7 @@
 
 # Standard library imports
 import urllib.request
+import uuid
 from pathlib import Path
 
 # Third-party imports
@@ -123,7 +124,14 @@ def download_and_cache(url, cache_dir, force_download=False):
 
     if not cached_path.exists() or force_download:
         print(f"[↓] Downloading {filename} from {url}")
-        urllib.request.urlretrieve(url, cached_path)
+        # Download to a temporary file first, so that an interrupted download does
+        # not leave an incomplete file in the cache
+        temp_path = cache_dir / f"{uuid.uuid4().hex}.part"
+        try:
+            urllib.request.urlretrieve(url, temp_path)
+            temp_path.replace(cached_path)
+        finally:
+            temp_path.unlink(missing_ok=True)
     else:
         print(f"[→] Using cached file: {cached_path}")
 
-- 
2.43.0


From 4c51e72b4cadd134d5d630f21a7228bb68d8382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:48 +0000
Subject: [PATCH 19/33] fix: files with same name from different URLs share one
 cache entry

---
 pycomlink/processing/tensorflow_utils/inference_utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index e8e11a8..71f8517 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -1,6 +1,7 @@
 # pycomlink/processing/inference_utils.py
 
 # Standard library imports
+import hashlib
 import urllib.request
 import uuid
 from pathlib import Path
@@ -119,7 +120,8 @@ def download_and_cache(url, cache_dir, force_download=False):
     """
     cache_dir = Path(cache_dir)
     cache_dir.mkdir(parents=True, exist_ok=True)
-    filename = url.split("/")[-1]
+    # Include hash of full URL to avoid conflicts between files with the same name
+    filename = hashlib.md5(url.encode()).hexdigest() + "_" + url.split("/")[-1]
     cached_path = cache_dir / filename
 
     if not cached_path.exists() or force_download:
-- 
2.43.0


From 4249ab81a923a3191d85405924dd5d68b9b8a42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:19 +0000
Subject: [PATCH 20/33] fix: kriging onto a grid with integer coordinates
 raises

---
 pycomlink/spatial/interpolator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycomlink/spatial/interpolator.py b/pycomlink/spatial/interpolator.py
index a8d28e5..5adad61 100644
--- a/pycomlink/spatial/interpolator.py
+++ b/pycomlink/spatial/interpolator.py
@@ -165,8 +165,8 @@ class OrdinaryKrigingInterpolator(PointsToGridInterpolator):
 
         zi, sigma = ok.execute(
             style="points",
-            xpoints=xi,
-            ypoints=yi,
+            xpoints=np.asarray(xi, dtype="float"),
+            ypoints=np.asarray(yi, dtype="float"),
             n_closest_points=self.n_closest_points,
             backend=self.backend,
         )
-- 
2.43.0


From 92327b1033c4aa09f114494f3bebc3415ca00e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:18 +0000
Subject: [PATCH 21/33] fix: stft_classification with mirror=True always raises

---
 pycomlink/processing/wet_dry/stft.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pycomlink/processing/wet_dry/stft.py b/pycomlink/processing/wet_dry/stft.py
index ffc6681..05284b2 100644
--- a/pycomlink/processing/wet_dry/stft.py
+++ b/pycomlink/processing/wet_dry/stft.py
@@ -104,7 +104,7 @@ def stft_classification(
             NFFT = window_length
 
         if window is None:
-            window = np.hamming(window_length)
+            window = np.hamming(NFFT)
 
         # Calculate spectrogram using STFT
         Pxx, f, t = specg(
@@ -128,15 +128,14 @@ def stft_classification(
     N_missing_start = np.floor(N_diff / 2)
 
     if mirror:
-        for i in range((len(rsl) - 1) - (NFFT / 2 - 1), len(rsl)):
-            rsl_mirr = np.concatenate(
-                (rsl[i - (NFFT / 2 - 1) : i], rsl[i - (NFFT / 2 - 1) : i][::-1])
-            )
+        for i in range((len(rsl) - 1) - (NFFT // 2 - 1), len(rsl)):
+            rsl_left = rsl[i - (NFFT // 2 - 1) : i + 1]
+            rsl_mirr = np.concatenate((rsl_left, rsl_left[::-1]))
             Pxx_mirr, f, t = specg(
                 rsl_mirr, NFFT=NFFT, Fs=f_sampling, noverlap=NFFT - 1, window=window
             )
 
-            if i == (len(rsl) - 1) - (NFFT / 2 - 1):
+            if i == (len(rsl) - 1) - (NFFT // 2 - 1):
                 Pxx_end = Pxx_mirr
             else:
                 Pxx_end = np.append(Pxx_end, Pxx_mirr, 1)
-- 
2.43.0


From beeda32c048e81438d10d6efddcd39d140c7600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:34 +0000
Subject: [PATCH 22/33] fix: predictions of models with output shape (batch, 1)
 are all NaN

---
 pycomlink/processing/pytorch_utils/run_inference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycomlink/processing/pytorch_utils/run_inference.py b/pycomlink/processing/pytorch_utils/run_inference.py
index 062c2c9..424b691 100644
--- a/pycomlink/processing/pytorch_utils/run_inference.py
+++ b/pycomlink/processing/pytorch_utils/run_inference.py
@@ -151,8 +151,9 @@ def redistribute_results(results, data):
     Returns:
         xarray.Dataset: Dataset with predictions added as a new variable
     """
-    predictions = results["predictions"]  # Remove any extra dimensions
     cml_ids = results["cml_ids"]  # Already numpy array
+    # Remove any extra dimensions
+    predictions = np.reshape(results["predictions"], len(cml_ids))
     times = results["times"]  # Already numpy array
 
     # Get original dimensions
-- 
2.43.0


From 9db636ebef911dff48b4c910e0e0b7afb013692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:31 +0000
Subject: [PATCH 23/33] fix: Validator.calc_stats overwrites the time index of
 the CML data

---
 pycomlink/validation/validator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomlink/validation/validator.py b/pycomlink/validation/validator.py
index 32dd376..a52fe3f 100644
--- a/pycomlink/validation/validator.py
+++ b/pycomlink/validation/validator.py
@@ -16,13 +16,13 @@ class Validator(object):
         pass
 
     def calc_stats(self, cml, time_series):
-        cml_copy = cml
+        cml_data = cml.data.copy()
         time_series_df = pd.DataFrame(
             data={"xr_ds": time_series}, index=time_series.time
         )
-        cml_copy.data.index = cml_copy.data.index.strftime("%Y-%m-%d %H:%M:%S")
+        cml_data.index = cml_data.index.strftime("%Y-%m-%d %H:%M:%S")
         # pd.DatetimeIndex(cml.data.index)
-        joined_df = time_series_df.join(cml_copy.data.txrx_nf)
+        joined_df = time_series_df.join(cml_data.txrx_nf)
         pearson_r = joined_df.xr_ds.corr(joined_df.txrx_nf, method="pearson")
         return pearson_r
 
-- 
2.43.0


From 491ff87091ff706f2272a18b52fc29bae93e89b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:31 +0000
Subject: [PATCH 24/33] fix: return no classification instead of failing for
 time series shorter than the MLP window

---
 pycomlink/processing/wet_dry/mlp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycomlink/processing/wet_dry/mlp.py b/pycomlink/processing/wet_dry/mlp.py
index e7b5031..8ee05c1 100644
--- a/pycomlink/processing/wet_dry/mlp.py
+++ b/pycomlink/processing/wet_dry/mlp.py
@@ -92,6 +92,12 @@ def mlp_wet_dry(
     else:
         raise ValueError('Did not recognize model')
         
+    # No window is complete if the time series is too short (the online models
+    # require one additional time step for calculating the derivative)
+    n_time = trsl_channel_1.sizes['time']
+    if n_time < (41 if model_sel.endswith('online') else 40):
+        return np.full([n_time, 2], np.nan)
+
     # Detrending of CML time series
     if (model_sel == 'rad') | (model_sel == 'rg'):
         # Detrending channel 1 using rolling median        
-- 
2.43.0


From 6832b0d8758789bea2db2d64ddd0ed84ba0cb602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 25/33] fix: return missing predictions instead of failing if
 no window of the PyTorch CNN is complete

---
 pycomlink/processing/pytorch_utils/run_inference.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pycomlink/processing/pytorch_utils/run_inference.py b/pycomlink/processing/pytorch_utils/run_inference.py
index 424b691..4b296a9 100644
--- a/pycomlink/processing/pytorch_utils/run_inference.py
+++ b/pycomlink/processing/pytorch_utils/run_inference.py
@@ -124,6 +124,13 @@ def run_inference(model, data, batch_size=32, reflength=60):
     device = set_device()
     window_size = model.window_size if hasattr(model, "window_size") else 180
     combined_samples = batchify_windows(data, window_size, reflength)
+    if len(combined_samples["cml_id"]) == 0:
+        # The time series is too short for a complete window
+        return {
+            "predictions": np.empty(0),
+            "cml_ids": combined_samples["cml_id"],
+            "times": combined_samples["time"],
+        }
     dataloader, cml_ids, times = build_dataloader(
         combined_samples,
         batch_size,
-- 
2.43.0


From 7349a4091e55973326a49dd5b8e18dfdc2ec846a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:39 +0000
Subject: [PATCH 26/33] fix: return missing probabilities instead of failing if
 there is no window for the TensorFlow CNN

---
 .../tensorflow_utils/run_inference.py         | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pycomlink/processing/tensorflow_utils/run_inference.py b/pycomlink/processing/tensorflow_utils/run_inference.py
index 8960863..8e3d406 100644
--- a/pycomlink/processing/tensorflow_utils/run_inference.py
+++ b/pycomlink/processing/tensorflow_utils/run_inference.py
@@ -66,6 +66,10 @@ def wet_dry_1d_cnn(
                    f"Please specify the correct coordinate name via `id_coord=`.")
 
 
+    for var in input_vars:
+        if var not in ds:
+            raise KeyError(f"'{var}' not found in dataset.")
+
     if cml_ids is None:
         cml_ids = ds[id_coord].values
 
@@ -82,15 +86,19 @@ def wet_dry_1d_cnn(
 
     # Prepare samples and scale
     X, ids, t_idx = inference_utils.create_samples(ds=ds, cml_ids=cml_ids, input_vars=input_vars, seq_len=seq_len)
-    X_scaled = inference_utils.scale_features(input_seq=X, input_vars=input_vars)
+    if len(X) > 0:
+        X_scaled = inference_utils.scale_features(input_seq=X, input_vars=input_vars)
 
-    # Predict
-    y_prob = inference_utils.run_inference(
-        model=model,
-        model_input=X_scaled,
-        batch_size=batch_size
-    )
-    del X_scaled
+        # Predict
+        y_prob = inference_utils.run_inference(
+            model=model,
+            model_input=X_scaled,
+            batch_size=batch_size
+        )
+        del X_scaled
+    else:
+        # There is no window without missing values, hence no prediction
+        y_prob = []
     
     # Store predictions as DataArray
     pred_array = inference_utils.store_predictions(
-- 
2.43.0


From 7a92d87909f9454edd1f25ee27b7c4ceeee5d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:36 +0000
Subject: [PATCH 27/33] fix: Validator.calc_stats finds no common time stamps
 for time coordinates of type datetime64

---
 pycomlink/validation/validator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycomlink/validation/validator.py b/pycomlink/validation/validator.py
index a52fe3f..36207ed 100644
--- a/pycomlink/validation/validator.py
+++ b/pycomlink/validation/validator.py
@@ -17,8 +17,10 @@ class Validator(object):
 
     def calc_stats(self, cml, time_series):
         cml_data = cml.data.copy()
+        # The same representation of the time stamps is required for both indices
         time_series_df = pd.DataFrame(
-            data={"xr_ds": time_series}, index=time_series.time
+            data={"xr_ds": time_series},
+            index=pd.DatetimeIndex(time_series.time).strftime("%Y-%m-%d %H:%M:%S"),
         )
         cml_data.index = cml_data.index.strftime("%Y-%m-%d %H:%M:%S")
         # pd.DatetimeIndex(cml.data.index)
-- 
2.43.0


From 766867fdfca3ff6ca19e7199d77e603e1eef57f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:44 +0000
Subject: [PATCH 28/33] fix: GridValidator.plot_intersections raises since
 poligrain does not return the pixel polygons

---
 pycomlink/validation/validator.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pycomlink/validation/validator.py b/pycomlink/validation/validator.py
index 36207ed..b2dd019 100644
--- a/pycomlink/validation/validator.py
+++ b/pycomlink/validation/validator.py
@@ -138,16 +138,28 @@ class GridValidator(Validator):
         cml_coords = cml.get_coordinates()
 
         # get intersect weights
-        intersect, pixel_poly_list = plg.spatial.calc_intersect_weights(
+        intersect = plg.spatial.calc_intersect_weights(
             x1_line=cml_coords.lon_a,
             y1_line=cml_coords.lat_a,
             x2_line=cml_coords.lon_b,
             y2_line=cml_coords.lat_b,
             x_grid=self.xr_ds.longitudes.values,
             y_grid=self.xr_ds.latitudes.values,
-            return_pixel_poly_list=True,
         )
 
+        # outlines of the grid cells which are intersected by the CML
+        pixel_poly_list = [
+            Polygon(
+                [
+                    grid_corners.ll_grid[i, j],
+                    grid_corners.lr_grid[i, j],
+                    grid_corners.ur_grid[i, j],
+                    grid_corners.ul_grid[i, j],
+                ]
+            )
+            for i, j in zip(*np.where(intersect > 0))
+        ]
+
         ax.pcolormesh(lons, lats, intersect, cmap=plt.cm.gray_r)
         ax.scatter(
             self.xr_ds.longitudes.values, self.xr_ds.latitudes.values, s=1, c="k"
-- 
2.43.0


From 86571c388430fa1b780536b8ef5e9a0251975036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:45 +0000
Subject: [PATCH 29/33] fix: wet_dry_1d_cnn fails for link coordinates other
 than cml_id

---
 pycomlink/processing/tensorflow_utils/inference_utils.py | 7 +++++--
 pycomlink/processing/tensorflow_utils/run_inference.py   | 3 ++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/tensorflow_utils/inference_utils.py b/pycomlink/processing/tensorflow_utils/inference_utils.py
index 71f8517..2811196 100644
--- a/pycomlink/processing/tensorflow_utils/inference_utils.py
+++ b/pycomlink/processing/tensorflow_utils/inference_utils.py
@@ -31,7 +31,9 @@ def get_optimizer_class():
 # -----------------------
 # Core Functions
 # -----------------------
-def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
+def create_samples(
+    ds, cml_ids, input_vars, seq_len=180, time_dim="time", cml_dim="cml_id"
+):
     """
     Create time series samples from CML dataset for model inference.
 
@@ -41,6 +43,7 @@ def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
         input_vars: List of variable names to use as features
         seq_len: Length of time sequences (default: 180)
         time_dim: Name of the time dimension (default: "time")
+        cml_dim: Name of the CML dimension (default: "cml_id")
 
     Returns:
         tuple: (X, ids, time_idx) where X is the feature array,
@@ -50,7 +53,7 @@ def create_samples(ds, cml_ids, input_vars, seq_len=180, time_dim="time"):
 
     for cml in cml_ids:
         try:
-            ds_cml = ds.sel(cml_id=cml)
+            ds_cml = ds.sel({cml_dim: cml})
             inputs = np.stack(
                 [ds_cml[var].values.astype(np.float32) for var in input_vars], axis=-1
             )
diff --git a/pycomlink/processing/tensorflow_utils/run_inference.py b/pycomlink/processing/tensorflow_utils/run_inference.py
index 8e3d406..f84e1a6 100644
--- a/pycomlink/processing/tensorflow_utils/run_inference.py
+++ b/pycomlink/processing/tensorflow_utils/run_inference.py
@@ -85,7 +85,7 @@ def wet_dry_1d_cnn(
     model = inference_utils.load_model_from_local(json_path, weights_path, lr=lr)
 
     # Prepare samples and scale
-    X, ids, t_idx = inference_utils.create_samples(ds=ds, cml_ids=cml_ids, input_vars=input_vars, seq_len=seq_len)
+    X, ids, t_idx = inference_utils.create_samples(ds=ds, cml_ids=cml_ids, input_vars=input_vars, seq_len=seq_len, cml_dim=id_coord)
     if len(X) > 0:
         X_scaled = inference_utils.scale_features(input_seq=X, input_vars=input_vars)
 
@@ -106,6 +106,7 @@ def wet_dry_1d_cnn(
         model_prob=y_prob,
         time_indices = t_idx,
         cml_ids=ids,
+        cml_dim=id_coord,
         var_name=prob_name)    
 
     if return_ds:
-- 
2.43.0


From dfe62a025924399aa4e3a208b88d1ecd70f9f5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:54 +0000
Subject: [PATCH 30/33] fix: a_b raises for a DataArray without dimensions

---
 pycomlink/processing/k_R_relation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycomlink/processing/k_R_relation.py b/pycomlink/processing/k_R_relation.py
index 60c8c9a..9934a03 100644
--- a/pycomlink/processing/k_R_relation.py
+++ b/pycomlink/processing/k_R_relation.py
@@ -203,6 +203,7 @@ def a_b(f_GHz, pol, approx_type="ITU_2005"):
     if isinstance(f_GHz, xr.DataArray):
         return_xarray = True
         f_GHz_coords = f_GHz.coords
+        f_GHz_shape = f_GHz.shape
     else:
         return_xarray = False
 
@@ -258,8 +259,8 @@ def a_b(f_GHz, pol, approx_type="ITU_2005"):
     # If f_GHz is a xr.DataArray a and b should be also returned as xr.DataArray
     # with identical coordinates
     if return_xarray:
-        a = xr.DataArray(a, coords=f_GHz_coords)
-        b = xr.DataArray(b, coords=f_GHz_coords)
+        a = xr.DataArray(a.reshape(f_GHz_shape), coords=f_GHz_coords)
+        b = xr.DataArray(b.reshape(f_GHz_shape), coords=f_GHz_coords)
 
     return a, b
 
-- 
2.43.0


From e37348645a188375e063022d66ec1c2959b144a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:24 +0000
Subject: [PATCH 31/33] fix: min/max CML data cannot be read from cmlh5 files

get_75_cmls_min_max always raised KeyError: the reader only knew the
instantaneous levels tx and rx.
---
 pycomlink/io/cmlh5_to_xarray.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pycomlink/io/cmlh5_to_xarray.py b/pycomlink/io/cmlh5_to_xarray.py
index b2dfa31..b904dda 100644
--- a/pycomlink/io/cmlh5_to_xarray.py
+++ b/pycomlink/io/cmlh5_to_xarray.py
@@ -33,10 +33,19 @@ def read_cmlh5_file_to_xarray(filename):
         ds_channel_list = []
         for channel_name, channel_g in cml_g.items():
             cml_ch_g = cml_g[channel_name]
+            if "tx" in cml_ch_g or "rx" in cml_ch_g:
+                variables = {"tsl": "tx", "rsl": "rx"}
+            else:
+                variables = {
+                    "tsl_max": "tx_max",
+                    "tsl_min": "tx_min",
+                    "rsl_max": "rx_max",
+                    "rsl_min": "rx_min",
+                }
             ds_temp = xr.Dataset(
                 data_vars={
-                    "tsl": ("time", cml_ch_g["tx"][:]),
-                    "rsl": ("time", cml_ch_g["rx"][:]),
+                    name: ("time", cml_ch_g[name_in_file][:])
+                    for name, name_in_file in variables.items()
                 },
                 coords={
                     "time": (cml_ch_g["time"][:] * 1e9).astype("datetime64[ns]"),
-- 
2.43.0


From 38ea7bd6a74d2e4bf20c6dd322854cf830e239ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:22 +0000
Subject: [PATCH 32/33] fix: mirrored end fails for a supplied spectrogram in
 stft_classification

---
 pycomlink/processing/wet_dry/stft.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycomlink/processing/wet_dry/stft.py b/pycomlink/processing/wet_dry/stft.py
index 05284b2..4d32728 100644
--- a/pycomlink/processing/wet_dry/stft.py
+++ b/pycomlink/processing/wet_dry/stft.py
@@ -91,9 +91,9 @@ def stft_classification(
 
     """
 
-    # Calculate spectrogram Pxx if it is not supplied as function argument
-    if Pxx is None:
-        # Set up sliding window for STFT
+    # Set up sliding window for STFT, which is also required for the mirrored values
+    # if the spectrogram is supplied as function argument
+    if Pxx is None or mirror:
         if mirror:
             # Window length has to be even
             if window_length % 2 == 0:
@@ -106,6 +106,8 @@ def stft_classification(
         if window is None:
             window = np.hamming(NFFT)
 
+    # Calculate spectrogram Pxx if it is not supplied as function argument
+    if Pxx is None:
         # Calculate spectrogram using STFT
         Pxx, f, t = specg(
             rsl, NFFT=NFFT, Fs=f_sampling, noverlap=NFFT - 1, window=window
-- 
2.43.0


From 4f0d137318e98e4a04baca3da7228a4c85a3dc35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:42 +0000
Subject: [PATCH 33/33] fix: aggregation of data without time zone always
 raises TypeError

---
 pycomlink/util/temporal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycomlink/util/temporal.py b/pycomlink/util/temporal.py
index 2360fdc..cc1996e 100644
--- a/pycomlink/util/temporal.py
+++ b/pycomlink/util/temporal.py
@@ -49,9 +49,9 @@ def aggregate_df_onto_DatetimeIndex(
         df_new_t.index = df_new_t.index.tz_localize(new_index_tz)
         df_new_t["time"] = df_new_t.index.tz_convert(df_temp.index.tzinfo)
 
-    # Slicing and reindexing below requires matching time zones
-    if df_temp.index.tzinfo:
-        df_new_t.index = df_new_t.index.tz_convert(df_temp.index.tzinfo)
+    # Slicing and reindexing below requires matching time zones. Note that
+    # data without time zone information is considered to be in UTC
+    df_new_t.index = df_new_t.index.tz_convert(df_temp.index.tzinfo)
 
     # Crop both time series to make them cover the same period.
     # This is to avoid the ffill or bfill to run outside of the
-- 
2.43.0

