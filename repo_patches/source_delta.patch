From a508e0b85f7cbfbd55d2c0112ac783abfdfb67b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:12 +0000
Subject: [PATCH 01/16] fix: linear EOS expansion coefficients vanish for
 integer temperatures

np.full_like took the integer dtype of the temperature array, which
truncated the constant density derivatives to zero.
---
 src/momlevel/eos/linear.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/momlevel/eos/linear.py b/src/momlevel/eos/linear.py
index 300ae72..bdad54a 100644
--- a/src/momlevel/eos/linear.py
+++ b/src/momlevel/eos/linear.py
@@ -8,8 +8,6 @@ __all__ = [
     "beta",
 ]
 
-import numpy as np
-
 # In a linear equation of state, the density derivatives are typically not
 # calculated and are fixed parameters.
 
@@ -133,7 +131,7 @@ def alpha(T, S, p):
     numpy.ndarray
         Thermal expansion coefficient in deg C -1
     """
-    return -1.0 * (np.full_like(T, fill_value=DRHO_DT) / density(T, S, p))
+    return -1.0 * (DRHO_DT / density(T, S, p))
 
 
 def beta(T, S, p):
@@ -159,4 +157,4 @@ def beta(T, S, p):
     numpy.ndarray
         Thermal expansion coefficient in deg C -1
     """
-    return np.full_like(T, fill_value=DRHO_DS) / density(T, S, p)
+    return DRHO_DS / density(T, S, p)
-- 
2.43.0


From d83a862d7c9dedb37d7b1852b21718d09cb6cf1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:53:15 +0000
Subject: [PATCH 02/16] fix: reference datasets with a time coordinate pass
 validation

The coordinate names were compared as bound methods (x.lower was never
called), so the check could not fail.
---
 src/momlevel/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 1b56c6a..451947a 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -727,7 +727,7 @@ def validate_dataset(dset, reference=False, strict=True, additional_vars=None):
     if reference:
         try:
             assert "time" not in [
-                x.lower for x in list(dset.coords)
+                x.lower() for x in list(dset.coords)
             ], "Reference dataset cannot contain a time coordinate"
         except AssertionError as e:
             exceptions.append(e)
-- 
2.43.0


From 774de430485ecab5ffa7cb6cb075ccba8bec5826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:32 +0000
Subject: [PATCH 03/16] fix: calc_n2 and calc_wave_speed adjust negative N2
 along the requested vertical coordinate

---
 src/momlevel/derived.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 67b61b9..9d90fb9 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -406,7 +406,7 @@ def calc_n2(
         "units": "s-2",
     }
 
-    n2 = adjust_negative_n2(n2) if adjust_negative else n2
+    n2 = adjust_negative_n2(n2, zcoord=zcoord) if adjust_negative else n2
 
     return n2
 
@@ -817,7 +817,7 @@ def calc_wave_speed(n2, dz, zcoord="z_l"):
         in units of m s-1
     """
 
-    result = (np.sqrt(adjust_negative_n2(n2)) * dz).sum(zcoord) / np.pi
+    result = (np.sqrt(adjust_negative_n2(n2, zcoord=zcoord)) * dz).sum(zcoord) / np.pi
     result = xr.where(n2[0].isnull(), np.nan, result)
 
     result.attrs = {
-- 
2.43.0


From f5834c55bf11609c8497c4ce29a37522eefcaf9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:32 +0000
Subject: [PATCH 04/16] fix: deseason no longer rewrites the attributes of its
 input

---
 src/momlevel/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 779af5d..b869c17 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -742,7 +742,7 @@ def deseason(arr, tdim="time", output_format="residuals"):
     assert isinstance(arr, xr.DataArray), "Input must be an xarray DataArray"
 
     # store array attributes for reassignment at the end
-    attrs = arr.attrs
+    attrs = dict(arr.attrs)
 
     # check that the specified time dimension exists
     core_dims = list(arr.dims)
-- 
2.43.0


From e6ba6be84241991b87a35cb8837f2479e0363515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:32 +0000
Subject: [PATCH 05/16] fix: linear_detrend fails for data whose units contain
 a rate such as m s-1

---
 src/momlevel/trend.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index b869c17..5a42636 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -187,7 +187,8 @@ def _detrend_array(arr, dim="time", order=1, mode="remove"):
     intercept = ds_trend[f"{varname}_intercept"]
 
     # construct the fitted line
-    fit_x = broadcast_trend(slope, arr[dim])
+    # (the slope itself is per ns, whatever the rate units of the data are)
+    fit_x = broadcast_trend(slope.assign_attrs(units="ns-1"), arr[dim])
 
     if mode not in ["remove", "correct"]:
         raise ValueError(f"Unknown detrend mode '{mode}'")
-- 
2.43.0


From 5d83a06b6baa324e7953a102ca998ddaa028baa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:32 +0000
Subject: [PATCH 06/16] fix: broadcast_trend subtracts the first point along
 the dimension given

---
 src/momlevel/trend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 5a42636..768b141 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -106,8 +106,7 @@ def broadcast_trend(slope, dim_arr, subtract_time_zero=False):
 
     # Subtract first time step if asked to
     if subtract_time_zero:
-        tdim = "time"
-        result = result - result.isel({tdim: 0})
+        result = result - result.isel({dim_name: 0})
 
     return result
 
-- 
2.43.0


From 404691cfd5e958582f53d4d45520a0ba5538beb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:32 +0000
Subject: [PATCH 07/16] fix: seasonal_model honours the name of the time
 coordinate

---
 src/momlevel/trend.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 768b141..d0e3556 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -413,19 +413,19 @@ def seasonal_model(da_timeseries, tcoord="time", return_model=False):
 
     model_da = xr.DataArray(
         model,
-        dims=["coeff", "time"],
-        coords={"coeff": np.arange(1, 7, 1), "time": da_timeseries[tcoord]},
+        dims=["coeff", tcoord],
+        coords={"coeff": np.arange(1, 7, 1), tcoord: da_timeseries[tcoord]},
     )
     model_da = model_da.expand_dims(dim=hashable_coords)
 
     pmodel_da = xr.DataArray(
         pmodel,
-        dims=["time", "coeff"],
-        coords={"coeff": np.arange(1, 7, 1), "time": da_timeseries[tcoord]},
+        dims=[tcoord, "coeff"],
+        coords={"coeff": np.arange(1, 7, 1), tcoord: da_timeseries[tcoord]},
     )
     pmodel_da = pmodel_da.expand_dims(dim=hashable_coords)
 
-    mcoeff = pmodel_da.dot(da_timeseries, dims="time")
+    mcoeff = pmodel_da.dot(da_timeseries, dims=tcoord)
 
     smodel = model_da.dot(mcoeff, dims="coeff")
     residuals = da_timeseries - smodel
-- 
2.43.0


From 313a574cbd60fcc2733b05ee82a35758babf2d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:32 +0000
Subject: [PATCH 08/16] fix: deseason honours the name of the time dimension

---
 src/momlevel/trend.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index d0e3556..c4eeb43 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -773,7 +773,7 @@ def deseason(arr, tdim="time", output_format="residuals"):
         [
             366 if x is True else 365
             for x in [
-                cftime.is_leap_year(x.year, x.calendar) for x in list(arr.time.values)
+                cftime.is_leap_year(x.year, x.calendar) for x in list(arr[tdim].values)
             ]
         ]
     )
@@ -822,7 +822,7 @@ def deseason(arr, tdim="time", output_format="residuals"):
         result = result.assign_coords(coeff=coeff_coords)
         result = result.transpose("coeff", ...)
     else:
-        result = result.transpose("time", ...)
+        result = result.transpose(tdim, ...)
 
     # Calculate if original input array was not a dask array
     if keep_lazy is False:
-- 
2.43.0


From d6c8e537069d541267226ae43f3bf0cb832d9617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:32 +0000
Subject: [PATCH 09/16] fix: annual averages honour the name of the time
 coordinate

---
 src/momlevel/steric.py | 2 +-
 src/momlevel/util.py   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/momlevel/steric.py b/src/momlevel/steric.py
index abe23cb..6deee08 100644
--- a/src/momlevel/steric.py
+++ b/src/momlevel/steric.py
@@ -179,7 +179,7 @@ def steric(
             result[var].attrs = dset[var].attrs
 
     if annual:
-        result = annual_average(result)
+        result = annual_average(result, tcoord=tcoord)
 
     return (result, reference)
 
diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 451947a..29b1ca8 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -87,8 +87,8 @@ def annual_average(xobj, tcoord="time"):
             groups[grp].weighted(groups[grp][tcoord].dt.days_in_month).mean(tcoord)
         )
 
-    result = xr.concat(_annuals, dim="time")
-    result = result.transpose("time", ...)
+    result = xr.concat(_annuals, dim=tcoord)
+    result = result.transpose(tcoord, ...)
 
     def _find_ann_midpoint(year, calendar=calendar):
         """finds the midpoint of the year along the time dimension"""
@@ -102,7 +102,7 @@ def annual_average(xobj, tcoord="time"):
         for x in dict(groups).keys()
     ]
 
-    result = result.assign_coords({"time": new_time_axis})
+    result = result.assign_coords({tcoord: new_time_axis})
 
     if isinstance(xobj, xr.core.dataset.Dataset):
         for var in list(result.variables):
-- 
2.43.0


From 089ed577b306ef424cbbd05f551dabf9edcafd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:32 +0000
Subject: [PATCH 10/16] fix: extract_tidegauge compares the dimensions of both
 coordinates

---
 src/momlevel/tidegauge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/tidegauge.py b/src/momlevel/tidegauge.py
index 3aec20e..a03ae51 100644
--- a/src/momlevel/tidegauge.py
+++ b/src/momlevel/tidegauge.py
@@ -102,7 +102,7 @@ def extract_tidegauge(
 
     # Check that dimensions are the same for x/y coords
     _xdims = tuple(_xcoord.dims)
-    _ydims = tuple(_xcoord.dims)
+    _ydims = tuple(_ycoord.dims)
     assert _xdims == _ydims
 
     # Make sure mask does not have missing values
-- 
2.43.0


From 1f8613df52372dab6bee54317013a37995508e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:32 +0000
Subject: [PATCH 11/16] fix: geolocate_points honours the names of the location
 coordinates

---
 src/momlevel/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index 29b1ca8..ca8faab 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -361,8 +361,8 @@ def geolocate_points(
     df2["dim_vals"] = list(df1.index)
 
     # Clean up coordinates
-    df2["real_coords"] = list(zip(df2["lat"].values, df2["lon"].values))
-    df2 = df2.drop(["yrad", "xrad", "lat", "lon"], axis=1)
+    df2["real_coords"] = list(zip(df2[ycoord2].values, df2[xcoord2].values))
+    df2 = df2.drop(["yrad", "xrad", ycoord2, xcoord2], axis=1)
 
     return df2
 
-- 
2.43.0


From 4d4045f71a2b3d3cc3bc21518f69a7fec66b36c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:58:32 +0000
Subject: [PATCH 12/16] fix: geolocate_points warnings without a threshold
 raise no TypeError

---
 src/momlevel/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/util.py b/src/momlevel/util.py
index ca8faab..68894ed 100644
--- a/src/momlevel/util.py
+++ b/src/momlevel/util.py
@@ -342,8 +342,8 @@ def geolocate_points(
     df2["distance"], df2["mod_index"] = ball.query(df2[["yrad", "xrad"]].values, k=1)
     df2["distance"] = df2["distance"] * rad_earth
 
-    if not disable_warning:
-        df_missing = df2[df2["distance"] >= threshold]
+    if not disable_warning and threshold is not None:
+        df_missing = df2[df2["distance"] > threshold]
         if len(df_missing) > 0:
             for _, row in df_missing.iterrows():
                 warnings.warn(
-- 
2.43.0


From 9994b9603f196ee93da4336659552b77f11bdcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:12 +0000
Subject: [PATCH 13/16] fix: deseason(output_format='coeff') on a
 one-dimensional series

np.prod of an empty shape is the float 1.0, which reshape rejects.
---
 src/momlevel/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index c4eeb43..74fb0d7 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -597,7 +597,7 @@ def _detrend_deseason_chunk(chunk, axis=-1, daysinyear=365, output_format="resid
     if output_format == "coeff":
         # Reshape the chunk to 2D: (spatial_points, time)
         original_shape = chunk.shape
-        n_spatial_points = np.prod(original_shape[:-1])
+        n_spatial_points = int(np.prod(original_shape[:-1]))
         chunk_2d = chunk.reshape(n_spatial_points, original_shape[-1])
 
         # Apply the function to each spatial point
-- 
2.43.0


From 6569b705eebf7b1569378877f5efa1746780693b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:29:16 +0000
Subject: [PATCH 14/16] fix: density, expansion, spice, N2 and steric functions
 leave the coordinate attributes of their inputs alone

---
 src/momlevel/derived.py | 8 ++++++--
 src/momlevel/steric.py  | 5 ++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/momlevel/derived.py b/src/momlevel/derived.py
index 9d90fb9..ce46909 100644
--- a/src/momlevel/derived.py
+++ b/src/momlevel/derived.py
@@ -56,7 +56,7 @@ def adjust_negative_n2(n2, zcoord="z_l"):
     attrs = n2.attrs
 
     # mask out negative values of N2
-    adjusted = xr.where(n2 <= 0.0, np.nan, n2)
+    adjusted = xr.where(n2 <= 0.0, np.nan, n2, keep_attrs="override")
 
     # set negative surface values of N^2 to 1.e-8
     adjusted[0] = adjusted[0].fillna(1.0e-8)
@@ -104,6 +104,7 @@ def calc_alpha(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs="override",
     )
 
     alpha.attrs = {
@@ -148,6 +149,7 @@ def calc_beta(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs="override",
     )
 
     beta.attrs = {
@@ -627,6 +629,7 @@ def calc_rho(thetao, so, pres, eos="Wright"):
         so,
         pres,
         dask="allowed",
+        keep_attrs="override",
     )
 
     rho.attrs = {
@@ -700,6 +703,7 @@ def calc_spice(thetao, so):
         thetao,
         so,
         dask="allowed",
+        keep_attrs="override",
     )
 
     pi.attrs = {
@@ -818,7 +822,7 @@ def calc_wave_speed(n2, dz, zcoord="z_l"):
     """
 
     result = (np.sqrt(adjust_negative_n2(n2, zcoord=zcoord)) * dz).sum(zcoord) / np.pi
-    result = xr.where(n2[0].isnull(), np.nan, result)
+    result = xr.where(n2[0].isnull(), np.nan, result, keep_attrs="override")
 
     result.attrs = {
         "long name": "Ocean gravity wave speed of the first baroclinic mode",
diff --git a/src/momlevel/steric.py b/src/momlevel/steric.py
index 6deee08..fc84fd7 100644
--- a/src/momlevel/steric.py
+++ b/src/momlevel/steric.py
@@ -149,7 +149,10 @@ def steric(
     # otherwise calculate the change in density relative to the reference
     else:
         delta_rho = xr.where(
-            reference["volcello"].notnull(), rho - reference["rho"], np.nan
+            reference["volcello"].notnull(),
+            rho - reference["rho"],
+            np.nan,
+            keep_attrs="override",
         )
         delta_rho = delta_rho.transpose(tcoord, ...)
         delta_rho.attrs = {
-- 
2.43.0


From 3fa40622ad9d5a571906e1c0315550070b9826d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:30 +0000
Subject: [PATCH 15/16] fix: extract_tidegauge applies the wet mask to the
 wrong cells when its dimensions are in another order

---
 src/momlevel/tidegauge.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/momlevel/tidegauge.py b/src/momlevel/tidegauge.py
index a03ae51..1d8d6af 100644
--- a/src/momlevel/tidegauge.py
+++ b/src/momlevel/tidegauge.py
@@ -110,6 +110,11 @@ def extract_tidegauge(
     if mask.name != "mask":
         mask = mask.rename("mask")
 
+    # The rows of the tables below are matched by position, so that the
+    # dimensions of the mask must be in the same order as the coordinates
+    if set(mask.dims) == set(_xdims):
+        mask = mask.transpose(*_xdims)
+
     # Create pandas.DataFrame of model coordinate info
     df_model = pd.concat(
         [
-- 
2.43.0


From f34b70dac27e41bb00830612cd03e9f1bb1d722f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:37 +0000
Subject: [PATCH 16/16] fix: trends along numpy datetime axes honour time units

calc_linear_trend ignored time_units, and broadcast_trend the units of the
slope, when the axis was a pandas DatetimeIndex rather than a CFTimeIndex.
---
 src/momlevel/trend.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/momlevel/trend.py b/src/momlevel/trend.py
index 74fb0d7..62d2fcd 100644
--- a/src/momlevel/trend.py
+++ b/src/momlevel/trend.py
@@ -3,6 +3,7 @@
 import warnings
 import cftime
 import numpy as np
+import pandas as pd
 import xarray as xr
 
 from xarray.core.missing import get_clean_interp_index
@@ -56,7 +57,7 @@ def broadcast_trend(slope, dim_arr, subtract_time_zero=False):
 
     # Determine if we have time trend. If so, check the units and convert
     # to nanoseconds if necessary
-    time_indexes = [xr.coding.cftimeindex.CFTimeIndex]
+    time_indexes = [xr.coding.cftimeindex.CFTimeIndex, pd.DatetimeIndex]
     if any([isinstance(dim_arr.indexes[dim_name], x) for x in time_indexes]):
         # Flag to throw default behavior warning
         warn_time_units = False
@@ -266,7 +267,7 @@ def calc_linear_trend(arr, dim="time", time_units=None):
     intercept = intercept.rename(f"{varname}_intercept")
 
     # determine slope units
-    time_indexes = [xr.coding.cftimeindex.CFTimeIndex]
+    time_indexes = [xr.coding.cftimeindex.CFTimeIndex, pd.DatetimeIndex]
     if any([isinstance(arr.indexes[dim], x) for x in time_indexes]):
         time_units = "ns" if time_units is None else time_units
 
-- 
2.43.0

