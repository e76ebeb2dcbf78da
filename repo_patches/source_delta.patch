From af004a56a7f27d5343f033e2c21c2a76356e007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:02 +0000
Subject: [PATCH 01/61] fix: interpolate topography with RectBivariateSpline,
 interp2d was removed from scipy

scipy 1.14 removed interp2d (the requirements only ask for scipy>=1.1), so
mapping and calibration stopped at the first profile with NotImplementedError.
RectBivariateSpline with kx=ky=1 is the same bilinear interpolation.
---
 pyowc/calibration.py | 20 ++++----------------
 pyowc/helper.py      | 31 ++++++++++++++++++++++---------
 2 files changed, 26 insertions(+), 25 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 9aabe35..5bbc319 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -9,7 +9,6 @@ import gsw
 import numpy as np
 
 from scipy.io import loadmat, savemat
-from scipy import interpolate
 
 from .core.stats import signal_variance, noise_variance, build_cov, fit_cond
 from .core.finders import find_besthist, find_25boxes, find_10thetas
@@ -17,7 +16,7 @@ from .data.wrangling import interp_climatology, map_data_grid
 from .data.fetchers import get_topo_grid, get_region_data, get_region_hist_locations, frontal_constraint_saf
 from .helper import load_varibales_from_file, process_profiles_la_variables, process_profiles_grid_variables, \
     get_float_data, process_profile_hist_variables, remove_statical_outliers, sort_numpy_array, \
-    check_and_make_numpy_arry, selected_historical_points
+    check_and_make_numpy_arry, selected_historical_points, interpolate_topo
 
 
 # pylint: disable=too-many-lines
@@ -174,12 +173,8 @@ def update_salinity_mapping(float_dir, config, float_name):
                                                          float_data['float_lat'] + 1,
                                                          config)
 
-            float_interp = interpolate.interp2d(float_x[0, :],
-                                                float_y[:, 0],
-                                                float_elev,
-                                                kind='linear')
-
-            float_data['float_z'] = -float_interp(float_long_tbase, float_data['float_lat'])[0]
+            float_data['float_z'] = -float(interpolate_topo(float_x[0, :], float_y[:, 0], float_elev,
+                                                            float_long_tbase, float_data['float_lat']))
 
             # gather data from area surrounding the float location
             wmo_numbers = find_25boxes(float_data['float_long'], float_data['float_lat'], wmo_boxes)
@@ -437,14 +432,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         elev, x_grid, y_grid = get_topo_grid(np.nanmin(long_1) - 1, np.nanmax(long_1) + 1,
                                              np.nanmin(lat) - 1, np.nanmax(lat) + 1, system_config)
 
-        grid_interp = interpolate.interp2d(x_grid[0, :], y_grid[:, 0],
-                                           elev, kind='linear')
-
-        z_grid = []
-        for i in range(long_1[0].__len__()):
-            z_grid.append(grid_interp(long_1[0][i], lat[0][i]))
-
-        z_grid = -np.array(z_grid)
+        z_grid = -interpolate_topo(x_grid[0, :], y_grid[:, 0], elev, long_1[0], lat[0])
         coord_float = np.column_stack((long.T, lat.T, z_grid))
 
     # load the calibration settings
diff --git a/pyowc/helper.py b/pyowc/helper.py
index 9672e85..81189e1 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -5,12 +5,32 @@ from copy import deepcopy
 from pathlib import Path
 
 import numpy as np
-from scipy.interpolate import interp2d
+from scipy.interpolate import RectBivariateSpline
 from scipy.io import loadmat
 
 from .data.fetchers import get_topo_grid
 
 
+def interpolate_topo(x_grid, y_grid, elev, long, lat):
+    """ Bilinear interpolation of a topography grid at (long, lat) locations
+
+    Parameters
+    ----------
+    x_grid : longitudes of the grid, in ascending order
+    y_grid : latitudes of the grid, in descending order (as returned by get_topo_grid)
+    elev : elevation on the grid, one row per latitude
+    long : longitudes of the points wanted
+    lat : latitudes of the points wanted
+
+    Returns
+    -------
+    elevation at each of the points
+    """
+    spline = RectBivariateSpline(np.flip(y_grid), x_grid, np.flip(elev, axis=0), kx=1, ky=1)
+
+    return spline.ev(lat, long)
+
+
 # pylint: disable=too-many-statements
 def load_varibales_from_file(mapped_data_path, float_level_count) -> dict:
     """
@@ -205,14 +225,7 @@ def process_profiles_grid_variables(grid_data, config):
                                               np.amax(grid_data['grid_lat']) + 1,
                                               config)
 
-    grid_interp = interp2d(grid_x[0], grid_y[:, 0],
-                           grid_elev, kind='linear')
-
-    # As a note, the reason we vectorise the function here is because we do not
-    # want to compare every longitudinal value to ever latitude. Rather, we simply
-    # want to interpolate each pair of longitudes and latitudes.
-
-    grid_z = -1 * np.vectorize(grid_interp)(grid_long_tbase, grid_data['grid_lat'])
+    grid_z = -1 * interpolate_topo(grid_x[0], grid_y[:, 0], grid_elev, grid_long_tbase, grid_data['grid_lat'])
 
     grid_data['grid_z'] = grid_z
     grid_data['grid_x'] = grid_x
-- 
2.43.0


From 0a29e7e099f1a22a0f333ac007126fd72e3d2656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 02/61] fix: find_10thetas picks one neighbouring level to
 interpolate salinity with

k_index was a 2-D array, which interp1d refuses to combine with a scalar
(ragged array), and held several levels when two neighbours had equal theta.
---
 pyowc/core/finders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 1e67149..dd0e072 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -639,7 +639,7 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
 
                     if pos_diff.__len__() > 0:
                         min_diff = np.argwhere(ptmp_diff == np.nanmin(ptmp_diff[pos_diff]))
-                        k_index = interval[min_diff]
+                        k_index = interval[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
@@ -649,7 +649,7 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
 
                     if neg_diff.__len__() > 0:
                         min_diff = np.argwhere(-ptmp_diff == np.nanmin(-ptmp_diff[neg_diff]))
-                        k_index = interval[min_diff]
+                        k_index = interval[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
-- 
2.43.0


From 44d2e7d6ff8e59172a8e174316249dfdc11fb43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 03/61] fix: keep the mapping settings appendable when a mapped
 file is loaded

They were numpy arrays, so mapping a profile that was not yet in an existing
mapped file failed with AttributeError (no append).
---
 pyowc/helper.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index 81189e1..57875fa 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -73,6 +73,12 @@ def load_varibales_from_file(mapped_data_path, float_level_count) -> dict:
         if not "use_saf" in float_mapped_data:
             float_mapped_data["use_saf"] = np.zeros(float_mapped_data['use_pv'].shape)
 
+        # the settings of each profile are lists, as the ones of new profiles get appended
+        for key in ("scale_long_large", "scale_lat_large", "scale_long_small", "scale_lat_small",
+                    "scale_phi_large", "scale_phi_small", "scale_age_large", "scale_age_small",
+                    "use_pv", "use_saf", "p_delta", "p_exclude"):
+            float_mapped_data[key] = list(float_mapped_data[key])
+
         # Get mapped data shape
         float_mapped_data["profile_index"] = float_mapped_data["la_mapped_sal"].shape[1]
         max_depth = float_mapped_data["la_mapped_sal"].shape[0]
-- 
2.43.0


From ca7ce38fc7e9bb775f390a9d3d2358606260a484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 04/61] fix: look for use_saf in a mapped file before using it

A mapped file of a version without the SAF constraint raised KeyError.
---
 pyowc/helper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index 57875fa..95bfcfc 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -54,6 +54,10 @@ def load_varibales_from_file(mapped_data_path, float_level_count) -> dict:
             float_mapped_data['la_map_sal_errors'] = float_mapped_data['la_mapsalerrors']
             float_mapped_data.pop('la_mapsalerrors')
 
+        # Check to see if this is an older version run without the saf constraint
+        if not "use_saf" in float_mapped_data:
+            float_mapped_data["use_saf"] = np.zeros(float_mapped_data['use_pv'].shape)
+
         # flatten the data
         float_mapped_data["la_profile_no"] = float_mapped_data['la_profile_no'].flatten()
         float_mapped_data["scale_long_large"] = float_mapped_data['scale_long_large'].flatten()
@@ -69,10 +73,6 @@ def load_varibales_from_file(mapped_data_path, float_level_count) -> dict:
         float_mapped_data["p_delta"] = float_mapped_data['p_delta'].flatten()
         float_mapped_data["p_exclude"] = float_mapped_data['p_exclude'].flatten()
 
-        # Check to see if this is an older version run without the saf constraint
-        if not "use_saf" in float_mapped_data:
-            float_mapped_data["use_saf"] = np.zeros(float_mapped_data['use_pv'].shape)
-
         # the settings of each profile are lists, as the ones of new profiles get appended
         for key in ("scale_long_large", "scale_lat_large", "scale_long_small", "scale_lat_small",
                     "scale_phi_large", "scale_phi_small", "scale_age_large", "scale_age_small",
-- 
2.43.0


From 12c8e7c526d37007c9eb9d076347d7937f58d4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 05/61] fix: sort the mapped columns by profile number only
 once

The mapped matrices were permuted by the keyed sort and again by the general
sort, so they no longer belonged to the profile numbers next to them whenever
profiles had not been mapped in ascending order (a permutation of 3 or more).
---
 pyowc/calibration.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 5bbc319..66168b0 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -339,10 +339,6 @@ def update_salinity_mapping(float_dir, config, float_name):
     sorted_profile_index = data['la_profile_no'].argsort()
 
     # finalise the data sorted by profile number, make data type numpy arrays
-    data = sort_numpy_array(data, sorted_profile_index, ['la_ptmp', 'la_mapped_sal',
-                                                         'la_map_sal_errors', 'la_noise_sal',
-                                                         'la_signal_sal'])
-    # check is numpy array
     data = check_and_make_numpy_arry(data)
 
     # remove problem element from dic before genral sort
-- 
2.43.0


From 650f7e7d9d6256b0bbd8ee9b3363d429c2a046f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 06/61] fix: save the mapping of a float when no historical
 point was selected

selected_hist_1 was never assigned in that case and nothing got saved.
---
 pyowc/calibration.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 66168b0..19b0416 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -344,8 +344,7 @@ def update_salinity_mapping(float_dir, config, float_name):
     # remove problem element from dic before genral sort
     selected_hist = data.pop('selected_hist')
 
-    if len(selected_hist) > 0:
-        selected_hist_1 = np.array(sorted(selected_hist, key=lambda x: x[2]))
+    selected_hist_1 = np.array(sorted(selected_hist, key=lambda x: x[2]))
 
     # sort value in dic
     data = sort_numpy_array(data, sorted_profile_index)
-- 
2.43.0


From 8002f2cce8c61acd7510abf2298f9057a24a9d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 07/61] fix: save and plot the mapped file in the folder it is
 loaded from

update_salinity_mapping and calc_piecewisefit look for the mapped file in
FLOAT_MAPPED_DIRECTORY/float_dir, but it was saved in (and plotted from)
FLOAT_MAPPED_DIRECTORY, so a float in a sub folder was never found by the next
run nor by the calibration.
---
 pyowc/calibration.py    | 3 +--
 pyowc/plot/dashboard.py | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 19b0416..8865fd7 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -352,8 +352,7 @@ def update_salinity_mapping(float_dir, config, float_name):
     data['selected_hist'] = selected_hist_1
 
     # define the saving location
-    save_location = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'],
-                                      config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])
+    save_location = mapped_data_path
 
     # save the data
     data['la_mapsalerrors'] = data.pop('la_map_sal_errors')
diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index 3dadf17..f0d2143 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -27,7 +27,7 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
         Nothing, but will save the plots as PDFs
     """
 
-    grid_data_loc = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'],
+    grid_data_loc = os.path.sep.join([config['FLOAT_MAPPED_DIRECTORY'], float_dir,
                                       config['FLOAT_MAPPED_PREFIX'] + float_name + config['FLOAT_MAPPED_POSTFIX']])
     float_data_loc = os.path.sep.join([config['FLOAT_SOURCE_DIRECTORY'], float_dir,
                                        float_name + config['FLOAT_SOURCE_POSTFIX']])
-- 
2.43.0


From 9f6a16a92b384e812cc75e7726ae664c85a0d070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 08/61] fix: read the calibration files with the postfix they
 are written with

calseries and cal files are written with FLOAT_CALIB_POSTFIX, but were read back
with FLOAT_MAPPED_POSTFIX (calibration) and FLOAT_SOURCE_POSTFIX (plots).
---
 pyowc/calibration.py    | 2 +-
 pyowc/plot/dashboard.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 8865fd7..2d1a898 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -432,7 +432,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     # load the calibration settings
     float_calseries_path = os.path.sep.join([system_config['FLOAT_CALIB_DIRECTORY'], float_dir,
                                              system_config['FLOAT_CALSERIES_PREFIX'] + float_name +
-                                             system_config['FLOAT_MAPPED_POSTFIX']])
+                                             system_config['FLOAT_CALIB_POSTFIX']])
     float_calseries = loadmat(float_calseries_path)
 
     calseries = float_calseries['calseries']
diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index f0d2143..9d89e9d 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -32,9 +32,9 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
     float_data_loc = os.path.sep.join([config['FLOAT_SOURCE_DIRECTORY'], float_dir,
                                        float_name + config['FLOAT_SOURCE_POSTFIX']])
     cal_data_loc = os.path.sep.join([config['FLOAT_CALIB_DIRECTORY'], float_dir,
-                                     config['FLOAT_CALIB_PREFIX'] + float_name + config['FLOAT_SOURCE_POSTFIX']])
+                                     config['FLOAT_CALIB_PREFIX'] + float_name + config['FLOAT_CALIB_POSTFIX']])
     cal_series_loc = os.path.sep.join([config['FLOAT_CALIB_DIRECTORY'], float_dir,
-                                       config['FLOAT_CALSERIES_PREFIX'] + float_name + config['FLOAT_SOURCE_POSTFIX']])
+                                       config['FLOAT_CALSERIES_PREFIX'] + float_name + config['FLOAT_CALIB_POSTFIX']])
 
     grid_data = loadmat(grid_data_loc)
     float_data = loadmat(float_data_loc)
-- 
2.43.0


From cc46c41fefe239a554a6fa088b74c721d60f79c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 09/61] fix: add new profiles to an existing calseries file

calib_profile_no is an array without append and calseries was called instead of
indexed, so set_calseries failed for a float with profiles that were not yet in
its calseries file.
---
 pyowc/configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 474fc36..f506bc4 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -230,9 +230,9 @@ def set_calseries(float_dir, float_name, system_config):
     # Add the missing profiles to the data set
     for i in range(missing_profiles_index.__len__()):
         missing = missing_profiles_index[i]
-        calib_profile_no.append(profile_no[missing])
+        calib_profile_no = np.append(calib_profile_no, profile_no[missing])
         # set flag as the same as previous entry
-        calseries = np.append(calseries, calseries(max(missing - 1, 1)))
+        calseries = np.append(calseries, calseries[max(missing - 1, 0)])
 
     # sort the calseries file by profile number
 
-- 
2.43.0


From 32ba04185fa194f20beab6659b4350beb7b19f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:35 +0000
Subject: [PATCH 10/61] fix: default use_percent_gt for calseries files that do
 not have it

A missing variable raises KeyError, not NameError.
---
 pyowc/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index f506bc4..26f54e3 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -176,7 +176,7 @@ def set_calseries(float_dir, float_name, system_config):
         try:
             use_percent_gt = calseries_data['use_percent_gt']
 
-        except NameError:
+        except KeyError:
             use_percent_gt = 0.5
 
         print("Using parameters found in ", calseries_filename,
-- 
2.43.0


From 9bd9e9ebff21dcc7a67eefcdf248b4c120a2bbed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 11/61] fix: a new profile gets the calseries flag of the
 profile before it

The flag was taken by source position from an array in another order, so a
profile inserted before others could land in the wrong segment, and a profile
following a bad one (flag 0) was excluded from the calibration for good.
---
 pyowc/configuration.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 26f54e3..ab393f1 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -230,9 +230,17 @@ def set_calseries(float_dir, float_name, system_config):
     # Add the missing profiles to the data set
     for i in range(missing_profiles_index.__len__()):
         missing = missing_profiles_index[i]
+        # set flag as the same as previous entry (the next one for a first profile), bad profiles aside
+        used = np.flatnonzero(calseries)
+        earlier = used[calib_profile_no[used] < profile_no[missing]]
+        if earlier.size > 0:
+            flag = calseries[earlier[np.argmax(calib_profile_no[earlier])]]
+        elif used.size > 0:
+            flag = calseries[used[np.argmin(calib_profile_no[used])]]
+        else:
+            flag = 1
         calib_profile_no = np.append(calib_profile_no, profile_no[missing])
-        # set flag as the same as previous entry
-        calseries = np.append(calseries, calseries[max(missing - 1, 0)])
+        calseries = np.append(calseries, flag)
 
     # sort the calseries file by profile number
 
-- 
2.43.0


From 921bc85b18523312903cc798d8776b9242e4ee7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 12/61] fix: flag the bad profile itself in calseries

calseries is sorted by profile number, the source is not necessarily, and may
have fewer profiles: another profile was excluded from the calibration.
---
 pyowc/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index ab393f1..6d3a3e0 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -263,7 +263,7 @@ def set_calseries(float_dir, float_name, system_config):
         if sal_nan.__len__() == 0 or \
                 temp_nan.__len__() == 0 or \
                 pres_nan.__len__() == 0:
-            calseries[i] = 0
+            calseries[calib_profile_no == profile_no[i]] = 0
 
     savemat(calseries_filename, {'breaks': breaks,
                                  'max_breaks': max_breaks,
-- 
2.43.0


From 02f520603cde9373d4dbf38a10846d76ee5a92be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 13/61] fix: give each selected historical cast its own ocean
 depth

get_region_data returns the casts in file order and drops the ones without data,
while the depths were taken in the order of find_besthist and for all of them, so
with the PV constraint casts were mapped with the depth of another one (or the
mapping failed on different lengths).
---
 pyowc/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 2d1a898..e610ba6 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -208,7 +208,8 @@ def update_salinity_mapping(float_dir, config, float_name):
                 # we can get the rest of the data from these casts
                 best_hist_data = get_region_data(wmo_numbers, float_name, config, index, float_data['float_pres'])
 
-                best_hist_data['grid_z'] = grid_data['grid_z'][index]
+                # find the depths of these casts: they come in file order and without the bad ones
+                best_hist_data = process_profiles_grid_variables(best_hist_data, config)
 
                 # If we are near the Subantarctic Front we need to figure out if
                 # the profile is north or south of it. Then we should remove data not on
-- 
2.43.0


From faf13ed3c13bf6c061ca3ad649b38c8cf1e10ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 14/61] fix: keep the historical casts that follow a cast
 without usable levels

When the first selected cast had no level left (all NaN, or all deeper than
wanted) its column was never extended, reshaping the following ones failed, and
that error was ignored together with all of their data.
---
 pyowc/data/fetchers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index dc8e8a8..7ea8906 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -372,7 +372,7 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
 
                             # if the new data we are adding is longer than our columns, we need to
                             # fill in NaNs in the other columns
-                            if new_depth > max_depth != 0:
+                            if new_depth > max_depth and how_many_cols > 0:
                                 grid_pres = np.append(grid_pres, np.ones(
                                     (how_many_cols, new_depth - max_depth)) * np.nan, axis=1
                                                       ).reshape((how_many_cols, how_many_rows))
-- 
2.43.0


From b2eca047dd55778b8070a45a7a93414e41e06eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 15/61] fix: use the historical casts on the other side of the
 0-360 longitude mark

The float was only wrapped when some cast was wrapped past 360, and casts only
when others lay above 320. A float at 2E with casts at 355E only, or one at 359E
whose selected casts all lay at 1E, was 350 degrees away from its data: no cast
was found, or the mapping was left with the plain mean.
---
 pyowc/calibration.py | 11 ++++-------
 pyowc/utilities.py   | 20 ++++++++++++++++++++
 2 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index e610ba6..e019de9 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -17,6 +17,7 @@ from .data.fetchers import get_topo_grid, get_region_data, get_region_hist_locat
 from .helper import load_varibales_from_file, process_profiles_la_variables, process_profiles_grid_variables, \
     get_float_data, process_profile_hist_variables, remove_statical_outliers, sort_numpy_array, \
     check_and_make_numpy_arry, selected_historical_points, interpolate_topo
+from .utilities import unwrap_longitude
 
 
 # pylint: disable=too-many-lines
@@ -193,9 +194,7 @@ def update_salinity_mapping(float_dir, config, float_name):
 
                 # make sure that the grid and float longitudes match at the 0-360 mark
                 float_long_0 = float_data['float_long']
-                if np.argwhere(grid_long > 360).__len__() > 0:
-                    if 0 <= float_data['float_long'] <= 20:
-                        float_long_0 += 360
+                grid_data['grid_long'] = unwrap_longitude(grid_long, float_long_0)
 
                 index = find_besthist(grid_data['grid_lat'], grid_data['grid_long'], grid_data['grid_dates'],
                                       grid_data['grid_z'], float_data['float_lat'], float_long_0,
@@ -221,10 +220,8 @@ def update_salinity_mapping(float_dir, config, float_name):
                     if len(best_hist_data_2['grid_sal'][0]) > 5:
                         best_hist_data.update(best_hist_data_2)
 
-                # make the float longitude wrap around the 0-360 mark if the historical data has
-                if np.argwhere(best_hist_data['grid_long'] > 360).__len__() > 0:
-                    if 0 <= float_data['float_long'] <= 20:
-                        float_data['float_long'] += 360
+                # make the historical data wrap around the 0-360 mark if the float is close to it
+                best_hist_data['grid_long'] = unwrap_longitude(best_hist_data['grid_long'], float_data['float_long'])
 
                 # interpolate historical data onto float theta levels
                 hist_interp_sal, hist_interp_pres = interp_climatology(best_hist_data['grid_sal'],
diff --git a/pyowc/utilities.py b/pyowc/utilities.py
index cf10c7b..0cb0257 100644
--- a/pyowc/utilities.py
+++ b/pyowc/utilities.py
@@ -109,6 +109,26 @@ def wrap_longitude(grid_long):
     return grid_long
 
 
+def unwrap_longitude(grid_long, float_long):
+    """ Moves longitudes by a whole turn where that brings them closer to the float
+
+        Historical data on the other side of the 0-360 mark is close to the float,
+        even though the difference between the longitudes is almost 360.
+
+        Parameters
+        ----------
+        grid_long: array of longitude values
+        float_long: longitude of the float
+
+        Returns
+        -------
+        array of longitude values within 180 degrees of the float
+    """
+    grid_long = np.where(grid_long - float_long > 180, grid_long - 360, grid_long)
+
+    return np.where(grid_long - float_long < -180, grid_long + 360, grid_long)
+
+
 def potential_vorticity(lat, z_value):
     """ Calculates barotropic potential vorticity (pv)
 
-- 
2.43.0


From fce7abe8730c30effecd1c861af46f4ab2d6bfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:02 +0000
Subject: [PATCH 16/61] fix: leave profiles without reference data unmapped
 instead of stopping

One profile with no historical cast in its 25 boxes, or none inside the ellipse,
or only empty ones, ended the run of the float with an exception: none of its
other profiles was saved.
---
 pyowc/calibration.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index e019de9..1497964 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -181,7 +181,11 @@ def update_salinity_mapping(float_dir, config, float_name):
             wmo_numbers = find_25boxes(float_data['float_long'], float_data['float_lat'], wmo_boxes)
 
             grid_data = {}
-            grid_lat, grid_long, grid_dates = get_region_hist_locations(wmo_numbers, float_name, config)
+            try:
+                grid_lat, grid_long, grid_dates = get_region_hist_locations(wmo_numbers, float_name, config)
+            except ValueError:
+                print("WARNING: no historical data around profile ", profile_no[missing_profile])
+                grid_lat, grid_long, grid_dates = np.array([]), np.array([]), np.array([])
 
             grid_data['grid_lat'] = grid_lat
             grid_data['grid_long'] = grid_long
@@ -203,10 +207,20 @@ def update_salinity_mapping(float_dir, config, float_name):
                                       phi_large, phi_small, map_age_large, map_age_small,
                                       map_use_pv, max_casts)
 
+                # this profile stays unmapped if no historical data is close enough
+                if index.__len__() == 0:
+                    profile_index += 1
+                    continue
+
                 # Now that we have the indices of the best spatial and temporal data
                 # we can get the rest of the data from these casts
                 best_hist_data = get_region_data(wmo_numbers, float_name, config, index, float_data['float_pres'])
 
+                # or if none of that data can be used
+                if best_hist_data['grid_lat'].__len__() == 0:
+                    profile_index += 1
+                    continue
+
                 # find the depths of these casts: they come in file order and without the bad ones
                 best_hist_data = process_profiles_grid_variables(best_hist_data, config)
 
-- 
2.43.0


From 864ee5e389c5c51de50c305399b356cd26245001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 17/61] fix: map a profile whose only level with pressure is
 the first one

argwhere(...).any() tests the indices found, and index 0 counts as False.
---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 1497964..31f2d6f 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -159,7 +159,7 @@ def update_salinity_mapping(float_dir, config, float_name):
 
         # if we have any good location data and pressure data from the float
         if not np.isnan(float_data['float_long']) and not np.isnan(float_data['float_lat']) \
-                and np.argwhere(np.isnan(float_data['float_pres']) == 0).any():
+                and np.any(~np.isnan(float_data['float_pres'])):
 
             # tbase.int file requires longitudes from 0 to +/-180
             float_long_tbase = copy.deepcopy(float_data['float_long'])
-- 
2.43.0


From 59c4a8f3ea0d9bcd293bcd7e694e409752ffff2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:32 +0000
Subject: [PATCH 18/61] fix: use reference files with a single station or a
 single level

read_mat squeezes their arrays. Files with one station were silently ignored, and
files with one level were taken for data wrapped in a third dimension, which
damaged the cached copy.
---
 pyowc/data/fetchers.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 7ea8906..e9186df 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -19,19 +19,34 @@ from ..utilities import wrap_longitude, change_dates
 from ..configuration import print_cfg
 
 
+def _restore_dimensions(data):
+    """Undo the squeeze of read_mat for files with a single station or a single level."""
+    for key in ('lat', 'long', 'dates'):
+        data[key] = np.atleast_1d(data[key])
+
+    if isinstance(data.get('source'), str):
+        data['source'] = [data['source']]
+
+    for key in ('pres', 'ptmp', 'sal', 'temp'):
+        if key in data and np.ndim(data[key]) < 2:
+            data[key] = np.reshape(data[key], (-1, data['lat'].size))
+
+    return data
+
+
 @lru_cache()
 def read_mat_ctd(filepath):
     """Cache the result of reading a ctd .mat file from disk."""
-    return read_mat(filepath)
+    return _restore_dimensions(read_mat(filepath))
 
 
 @lru_cache()
 def read_mat_bottle(filepath):
     """Load and transform a bottle .mat file."""
-    data = read_mat(filepath)
+    data = _restore_dimensions(read_mat(filepath))
 
     # if data dimensions don't match, transpose to avoid indexing issues
-    if (data['lat'].size == data['pres'].size and data['lat'].shape[1] == data['pres'].shape[1]):
+    if (data['lat'].ndim > 1 and data['lat'].size == data['pres'].size and data['lat'].shape[1] == data['pres'].shape[1]):
         data['pres'] = data['pres'].T
         data['ptmp'] = data['ptmp'].T
         data['sal'] = data['sal'].T
@@ -43,7 +58,7 @@ def read_mat_bottle(filepath):
 @lru_cache()
 def read_mat_argo(filepath, pa_float_name):
     """Load and transform an Argo .mat file."""
-    data = read_mat(filepath)
+    data = _restore_dimensions(read_mat(filepath))
     # remove the argo float being analysed from the data
     not_use = []
     for i in range(0, data['lat'].__len__()):
@@ -332,7 +347,7 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
 
                 if data:
                     # Sometimes the data comes in wrapped in as a 3d array, so convert to 2d
-                    if data['pres'].__len__() == 1:
+                    if data['pres'].ndim == 3:
                         data['pres'] = data['pres'][0]
                         data['sal'] = data['sal'][0]
                         data['ptmp'] = data['ptmp'][0]
-- 
2.43.0


From 154aee7cdf187da77dfcef53502b5d2ab01c7eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 19/61] fix: list each WMO box once around floats near a pole

Rows of boxes beyond 90N/90S fell on the last row again, so the historical data
of those boxes was used two or three times.
---
 pyowc/core/finders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index dd0e072..a86c93f 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -429,7 +429,8 @@ def find_25boxes(pn_float_long, pn_float_lat, pa_wmo_boxes):
 
     pa_wmo_numbers = np.full((25, 4), np.nan)
     for i in range(0, 25):
-        if not np.isnan(ln_i[i]):
+        # beyond a pole the nearest box is one we already have
+        if not np.isnan(ln_i[i]) and ln_i[i] not in ln_i[:i]:
             pa_wmo_numbers[i] = pa_wmo_boxes.get('la_wmo_boxes')[ln_i[i] - 1]
 
     return pa_wmo_numbers
-- 
2.43.0


From 808914dfbc4c81bb0971da0da163af086a4cbe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 20/61] fix: read the right topography for windows far west or
 over both poles

A window starting west of 360W kept a negative column and was read from the end
of the row above, and one going over both poles was only clamped at the first.
---
 pyowc/data/fetchers.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index e9186df..205c03c 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -100,10 +100,8 @@ def get_topo_grid(min_long, max_long, min_lat, max_lat, config):
         Matrices containing a uniform grid of latitudes and longitudes, along with the depth at these points
     """
      # check for max lat values
-    if max_lat > 90:
-        max_lat = 90
-    elif min_lat < -90:
-        min_lat = -90
+    max_lat = min(max_lat, 90)
+    min_lat = max(min_lat, -90)
 
     # manipulate input values to match file for decoding
     blat = int(np.max((np.floor(min_lat * 12), -90 * 12 + 1)))
@@ -115,13 +113,9 @@ def get_topo_grid(min_long, max_long, min_lat, max_lat, config):
     lgs = np.arange(llong, rlong + 1, 1) / 12
     lts = np.flip(np.arange(blat, tlat + 1, 1) / 12, axis=0)
 
-    if rlong > 360 * 12 - 1:
-        rlong = rlong - 360 * 12
-        llong = llong - 360 * 12
-
-    if llong < 0:
-        rlong = rlong + 360 * 12
-        llong = llong + 360 * 12
+    turns = llong // (360 * 12)
+    rlong = rlong - turns * 360 * 12
+    llong = llong - turns * 360 * 12
 
     decoder = [llong, rlong, 90 * 12 - blat, 90 * 12 - tlat]
 
-- 
2.43.0


From d77acbf8b42436d07a27c14cf5b5a6f98e693db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 21/61] fix: interpolate climatology that has isothermal or
 single level stations

nanargmin raised ValueError for a station whose only levels bracketing the float
theta both equal it (0/0), and when no station had two levels.
---
 pyowc/data/wrangling.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyowc/data/wrangling.py b/pyowc/data/wrangling.py
index f8daee4..6b5dda8 100644
--- a/pyowc/data/wrangling.py
+++ b/pyowc/data/wrangling.py
@@ -141,7 +141,12 @@ def interp_climatology(grid_sal, grid_theta, grid_pres, float_sal, float_theta,
         output_placeholder[sign_changes] = interpolate_values(interp_factor, sign_changes, grid_pres, grid_pres_diff)
 
         # no sign changes between consecutive values for a station means there are no values to interpolate
-        stations_with_possible_interp = np.unique(sign_changes[1])
+        # (nor are there when all of its consecutive values equal the float value)
+        stations_with_possible_interp = np.flatnonzero(np.any(np.isfinite(output_placeholder), axis=0))
+
+        if stations_with_possible_interp.size == 0:
+            output_placeholder[sign_changes] = np.nan
+            continue
 
         # find the interpolated pres value which is closest to the float pres for each station
         min_pres = np.nanargmin(np.abs(output_placeholder[:, stations_with_possible_interp] - float_pres[index]), axis=0)
-- 
2.43.0


From 6377c369a676d48d212ed5ce945d5d7a70032668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:01 +0000
Subject: [PATCH 22/61] fix: accept duplicated pressures in the SAF constraint

The truth value of the argwhere array is ambiguous (ValueError) with several
duplicates, and False for one duplicate at the first level.
---
 pyowc/data/fetchers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 205c03c..534aafa 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -556,7 +556,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
         # Calculations for Argo float
         isok = np.argwhere((~np.isnan(float_pres)) & (~np.isnan(float_tmp)))
 
-        if not np.argwhere(np.diff(float_pres[isok].T) == 0) and (isok.__len__() > 2) and (
+        if not np.any(np.diff(float_pres[isok].T) == 0) and (isok.__len__() > 2) and (
                 np.min(float_pres[isok].T) < 300 < np.max(float_pres[isok].T)):
 
             # SAF:
@@ -638,7 +638,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
                     np.argwhere(~np.isnan(grid_pres[:, i]) & ~np.isnan(grid_sal[:, i]) & ~np.isnan(grid_ptmp[:, i])),
                     np.argwhere((np.diff(grid_pres[:, i])) != 0))
 
-                if not np.argwhere(np.diff(grid_pres[isok, i]) == 0) and (isok.__len__() > 2) and (
+                if not np.any(np.diff(grid_pres[isok, i]) == 0) and (isok.__len__() > 2) and (
                         np.min(grid_pres[isok, i]) < 300 < np.max(grid_pres[isok, i])):
                     t300 = np.interp(300, grid_pres[isok, i], grid_tmp[isok, i], left=np.nan, right=np.nan)
 
-- 
2.43.0


From 2de1744490cdda7e11a261607fa4fa5376498787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 23/61] fix: find_10thetas finds no level when there is no
 valid theta range

The pressure levels were then undefined (UnboundLocalError), which ended the
calibration of any float with a segment that has no mapped data in the bounds.
---
 pyowc/core/finders.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index a86c93f..d50eaf4 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -556,19 +556,20 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
     max_theta = np.floor(np.nanmax(ptmp) * 10) / 10
 
     # only find levels if we have a valid theta range
-    if min_theta < max_theta:
-
-        # get pressure levels
-        increment = 50
-        max_pres = np.nanmax(pres)
-        min_pres = np.nanmin(pres)
+    if not min_theta < max_theta:
+        return t_levels, p_levels, index, var_sal_theta, theta_levels
+
+    # get pressure levels
+    increment = 50
+    max_pres = np.nanmax(pres)
+    min_pres = np.nanmin(pres)
+    pres_levels = np.arange(min_pres, max_pres, increment)
+
+    # check we can get 10 theta levels. If not, alter pressure increment
+    if pres_levels.__len__() < no_levels:
+        increment = np.floor((max_pres - min_pres) / no_levels)
         pres_levels = np.arange(min_pres, max_pres, increment)
 
-        # check we can get 10 theta levels. If not, alter pressure increment
-        if pres_levels.__len__() < no_levels:
-            increment = np.floor((max_pres - min_pres) / no_levels)
-            pres_levels = np.arange(min_pres, max_pres, increment)
-
     # interpolate levels onto pressure increments
 
     interp_t = np.empty((pres_levels.__len__(), profile_depth)) * np.nan
-- 
2.43.0


From 524a0b7227a38b86380038d545253d80d86a9eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 24/61] fix: leave segments without mapped data uncalibrated
 instead of stopping

The levels were tested for NaN after their conversion to integers, so segments
without any level went on to a fit without data, and the coordinates were
undefined for a float without any selected historical point.
---
 pyowc/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 31f2d6f..d30d0b7 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -422,6 +422,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     selected_hist = float_mapped_data['selected_hist']
 
     # retrieve XYZ of float position used to build covariance
+    coord_float = np.full((profile_no.size, 3), np.nan)
     if selected_hist.__len__() > 0:
         if long.shape[0] > 1:
             long = long.flatten()
@@ -589,8 +590,8 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                                                       use_pres_lt, use_pres_gt,
                                                       use_percent_gt)
 
-        index = np.array(index, dtype=int)
         pp = np.argwhere(np.isnan(index) == 0)
+        index = np.array(index, dtype=int)
         # only proceed if we have valied theta levels
         if pp.__len__() > 0:
             for ipr in range(k):
-- 
2.43.0


From 59706302749e0675dc8caa871277a65a69c154d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 25/61] fix: fit_cond returns one NaN per profile when there is
 no good data

calc_piecewisefit handles arrays only and failed on the scalars.
---
 pyowc/core/stats.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index ac39a12..5959795 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -162,12 +162,12 @@ def fit_cond(x, y, n_err, lvcov, *args):
     if npts == 0:
         print("Failed to find any good data")
 
-        condslope = np.nan
-        condslope_err = np.nan
-        time_deriv = np.nan
-        time_deriv_err = np.nan
-        sta_mean = np.nan
-        sta_rms = np.nan
+        condslope = np.full(nfit, np.nan)
+        condslope_err = np.full(nfit, np.nan)
+        time_deriv = np.full((nfit, 1), np.nan)
+        time_deriv_err = np.full((nfit, 1), np.nan)
+        sta_mean = np.full((1, nfit), np.nan)
+        sta_rms = np.full((1, nfit), np.nan)
         NDF = []
         fit_coef = []
         fit_breaks = []
-- 
2.43.0


From 1fb399a7e3ea12ed5ff936b781d49922c365d4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 26/61] fix: reorder the observations together with x in
 fit_cond

x was sorted before its sorting index was computed, so the observations, errors
and covariances of unsorted data stayed in their old order.
---
 pyowc/core/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 5959795..f47baba 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -178,8 +178,9 @@ def fit_cond(x, y, n_err, lvcov, *args):
     # condition the series so that the fit is well behaved
     # sort by the independent variable
 
-    x = np.sort(x)
     sorted_index = np.argsort(x, kind='stable')
+    x = x[sorted_index]
+    lvcov = lvcov[np.ix_(sorted_index, sorted_index)]
     y = y[sorted_index]
     n_err = n_err[sorted_index]
 
-- 
2.43.0


From 8df7514c69ff55a9931a08e05cc7a56ccd968436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:01 +0000
Subject: [PATCH 27/61] fix: estimate the errors of fits with break points

np.concatenate was given the break points as its axis, so the calibration of any
float whose best fit has break points failed, and the initial guess kept growing.
---
 pyowc/core/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index f47baba..9b373a3 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -547,6 +547,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 nbr = real_breaks.__len__()
                 b_g = np.concatenate(([-1], real_breaks))
 
+                ubrk_g = []
                 for n in range(nbr):
                     ubrk_g.append(np.log((b_g[n + 1] - b_g[n]) / (1 - b_g[nbr])))
 
@@ -556,7 +557,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 ubrk = optim['x'][0]
                 residual = optim['fun']
 
-                btem = np.concatenate([xfit[0]], breaks)
+                btem = np.concatenate(([xfit[0]], breaks))
                 E = np.zeros((xfit.__len__(), best))
                 E[:, 0] = np.ones((xfit.__len__(), 1)).T
                 ixb = sorter(btem, xfit)
-- 
2.43.0


From 35c0ea9b0fc6e0341ec4e78b5a2918af4599b15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 28/61] fix: fit floats with too few profiles for a break point
 or a trend

---
 pyowc/core/stats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 9b373a3..81a8aa3 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -1034,7 +1034,7 @@ def brk_pt_fit(x_obvs, y_obvs, w_i, breaks=None):
         ls_est = np.dot(trends.T, trends)
 
     if np.linalg.det(ls_est) == 0:
-        fit_param = np.zeros((b_length + 2, 1))
+        fit_param = np.zeros(b_length + 2)
         residual = y_obvs
         print("ERROR in brk_pt_fit: DET(A) == 0")
         return fit_param, residual
-- 
2.43.0


From 96a089aab4e7367a44277ffc2f5151ef0aa5ca33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 29/61] fix: save the break points of segments with different
 numbers of them

---
 pyowc/calibration.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index d30d0b7..d6ee1c9 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -712,8 +712,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                 for n in range(fit_coef.__len__()):
                     fceof.append(fit_coef[n])
 
-                if fit_breaks.__len__() > 0:
-                    fbreaks.append(fit_breaks)
+                fbreaks.extend(fit_breaks)
 
     # save calibration data
 
-- 
2.43.0


From 47556d3ffc22544b4529f737b2948068cc2831f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 30/61] fix: accept one max_breaks for each segment saved as a
 row

---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index d6ee1c9..e78ab44 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -449,7 +449,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
     float_calseries = loadmat(float_calseries_path)
 
     calseries = float_calseries['calseries']
-    max_breaks = float_calseries['max_breaks']
+    max_breaks = float_calseries['max_breaks'].reshape((-1, 1))
     breaks = float_calseries['breaks']
     use_theta_gt = float_calseries['use_theta_gt']
     use_theta_lt = float_calseries['use_theta_lt']
-- 
2.43.0


From ea62cd59c0d41a58a0cacf83af154ca9f6709d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 31/61] fix: use the prescribed break points of a calseries
 file

---
 pyowc/calibration.py | 51 +++++++++++++++-----------------------------
 1 file changed, 17 insertions(+), 34 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index e78ab44..bfbde6c 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -649,40 +649,23 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                 sta_rms[0][calindex] = sta_rms_temp
 
             else:
-                breaks_in = breaks[i, :]
-                breaks_in = breaks_in[np.argwhere(np.isfinite(breaks_in))]
-
-                if max_breaks[i]:
-                    (xfit, condslope, condslope_err,
-                     time_deriv_temp, time_deriv_err_temp,
-                     sta_mean_temp, sta_rms_temp, ndf,
-                     fit_coef, fit_breaks) = fit_cond(x, y, err,
-                                                      covariance,
-                                                      'breaks',
-                                                      breaks_in,
-                                                      'max_no_breaks',
-                                                      max_breaks[i][0])
-                    pcond_factor[0][calindex] = condslope
-                    pcond_factor_err[0][calindex] = condslope_err
-                    time_deriv[calindex] = time_deriv_temp
-                    time_deriv_err[calindex] = time_deriv_err_temp
-                    sta_mean[0][calindex], = sta_mean_temp
-                    sta_rms[0][calindex] = sta_rms_temp
-
-                else:
-                    (xfit, condslope, condslope_err,
-                     time_deriv_temp, time_deriv_err_temp,
-                     sta_mean_temp, sta_rms_temp, ndf,
-                     fit_coef, fit_breaks) = fit_cond(x, y, err,
-                                                      covariance,
-                                                      'breaks',
-                                                      breaks_in)
-                    pcond_factor[0][calindex] = condslope
-                    pcond_factor_err[0][calindex] = condslope_err
-                    time_deriv[calindex] = time_deriv_temp
-                    time_deriv_err[calindex] = time_deriv_err_temp
-                    sta_mean[0][calindex], = sta_mean_temp
-                    sta_rms[0][calindex] = sta_rms_temp
+                breaks_in = breaks[i, np.isfinite(breaks[i, :])]
+
+                (xfit, condslope, condslope_err,
+                 time_deriv_temp, time_deriv_err_temp,
+                 sta_mean_temp, sta_rms_temp, ndf,
+                 fit_coef, fit_breaks) = fit_cond(x, y, err,
+                                                  covariance,
+                                                  'breaks',
+                                                  breaks_in,
+                                                  'max_no_breaks',
+                                                  max_breaks[i][0])
+                pcond_factor[0][calindex] = condslope
+                pcond_factor_err[0][calindex] = condslope_err
+                time_deriv[0][calindex] = time_deriv_temp.flatten()
+                time_deriv_err[0][calindex] = time_deriv_err_temp.flatten()
+                sta_mean[0][calindex], = sta_mean_temp
+                sta_rms[0][calindex] = sta_rms_temp
 
             # apply calibrations to float data
 
-- 
2.43.0


From b1ed61fb32eb1340c205403044cfdfc86278e0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:54 +0000
Subject: [PATCH 32/61] fix: keep the positions of a float that crosses the
 0-360 mark together in the fit

---
 pyowc/calibration.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index bfbde6c..f06debb 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -430,17 +430,14 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         if lat.shape[0] > 1:
             lat = lat.flatten()
 
-        if np.any(long > 180):
-            long_1 = copy.deepcopy(long) - 360
-
-        else:
-            long_1 = copy.deepcopy(long)
+        # keep the profiles on both sides of the 0-360 mark together
+        long_1 = unwrap_longitude(long, long[np.isfinite(long)][0])
 
         elev, x_grid, y_grid = get_topo_grid(np.nanmin(long_1) - 1, np.nanmax(long_1) + 1,
                                              np.nanmin(lat) - 1, np.nanmax(lat) + 1, system_config)
 
         z_grid = -interpolate_topo(x_grid[0, :], y_grid[:, 0], elev, long_1[0], lat[0])
-        coord_float = np.column_stack((long.T, lat.T, z_grid))
+        coord_float = np.column_stack((long_1.T, lat.T, z_grid))
 
     # load the calibration settings
     float_calseries_path = os.path.sep.join([system_config['FLOAT_CALIB_DIRECTORY'], float_dir,
-- 
2.43.0


From 53a33e46c439bf59ca7dc7c24236e8faed33c099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 33/61] fix: give build_cov the float positions latitude first,
 as it reads them

---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index f06debb..1e24ed9 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -437,7 +437,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                                              np.nanmin(lat) - 1, np.nanmax(lat) + 1, system_config)
 
         z_grid = -interpolate_topo(x_grid[0, :], y_grid[:, 0], elev, long_1[0], lat[0])
-        coord_float = np.column_stack((long_1.T, lat.T, z_grid))
+        coord_float = np.column_stack((lat.T, long_1.T, z_grid))
 
     # load the calibration settings
     float_calseries_path = os.path.sep.join([system_config['FLOAT_CALIB_DIRECTORY'], float_dir,
-- 
2.43.0


From 14394b862023aee7dbbeac9910106d4640fef71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 34/61] fix: sal_var_plot picks one neighbouring level to
 interpolate with

---
 pyowc/plot/plots.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 7f9d62b..648c80c 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -451,7 +451,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
                     if pos_diff.__len__() > 0:
                         min_diff = np.argwhere(ptmp_diff == np.nanmin(ptmp_diff[pos_diff]))
-                        k_index = inter[min_diff]
+                        k_index = inter[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
@@ -461,7 +461,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
                     if neg_diff.__len__() > 0:
                         min_diff = np.argwhere(-ptmp_diff == np.nanmin(-ptmp_diff[neg_diff]))
-                        k_index = inter[min_diff]
+                        k_index = inter[min_diff[0, 0]]
 
                     else:
                         k_index = theta_index
-- 
2.43.0


From ae2c49f325fc92e98ec71ee19b9e45c9b0d08e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 35/61] fix: sal_var_plot leaves out the levels outside the
 bounds, not rows 0 and up of them

---
 pyowc/plot/plots.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 648c80c..847f386 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -353,7 +353,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_theta_lt.__len__() == 0 and use_theta_gt.__len__() > 0:
-        good = np.argwhere(ptmp < use_theta_gt)
+        good = ptmp < use_theta_gt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -368,10 +368,10 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
         if use_theta_lt < use_theta_gt:
             # exclude middle band
-            good = np.argwhere(np.logical_and(theta_range_lt, theta_range_gt))
+            good = np.logical_and(theta_range_lt, theta_range_gt)
 
         else:
-            good = np.argwhere(np.logical_or(theta_range_gt, theta_range_lt))
+            good = np.logical_or(theta_range_gt, theta_range_lt)
 
         pres[good] = np.nan
         sal[good] = np.nan
@@ -382,7 +382,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_pres_lt.__len__() > 0 and use_pres_gt.__len__() == 0:
-        good = np.argwhere(pres > use_pres_lt)
+        good = pres > use_pres_lt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -392,7 +392,7 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         cal_sal_errors[good] = np.nan
 
     if use_pres_lt.__len__() == 0 and use_pres_gt.__len__() > 0:
-        good = np.argwhere(pres < use_pres_gt)
+        good = pres < use_pres_gt
         pres[good] = np.nan
         sal[good] = np.nan
         ptmp[good] = np.nan
@@ -407,10 +407,10 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
 
         if use_pres_lt < use_pres_gt:
             # exclude middle band
-            good = np.argwhere(np.logical_and(pres_range_lt, pres_range_gt))
+            good = np.logical_and(pres_range_lt, pres_range_gt)
 
         else:
-            good = np.argwhere(np.logical_or(pres_range_gt, pres_range_lt))
+            good = np.logical_or(pres_range_gt, pres_range_lt)
 
         pres[good] = np.nan
         sal[good] = np.nan
-- 
2.43.0


From e683771d75ec58ce64b79f559e71e189abb524d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 36/61] fix: find_besthist selects max_casts casts when
 max_casts is 1, 2 or 4

---
 pyowc/core/finders.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index d50eaf4..049bb40 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -207,6 +207,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
 
         # work out how many large spatial data points needed
         lsegment2 = math.ceil(max_casts / 3) + math.ceil(max_casts / 3) - index_rand.__len__()
+        lsegment2 = min(lsegment2, max_casts - index_rand.__len__())
 
         index_z = np.arange(lsegment2, int(len(z_remain_long)))
 
@@ -260,7 +261,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         i2_ellipse = []
         for i in i2_remain:
             i2_ellipse.append(index_ellipse[int(i)])
-        index_large_spatial = np.concatenate(np.array(i2_ellipse))
+        index_large_spatial = np.array(i2_ellipse, dtype=int).flatten()
 
         # index3_small_spatial
         i3_small = correlation_small_sorted[:leftover]
@@ -280,7 +281,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         i3_ellipse = []
         for i in i3_remain:
             i3_ellipse.append(index_ellipse[int(i)])
-        index_small_spatial = np.concatenate(np.array(i3_ellipse))
+        index_small_spatial = np.array(i3_ellipse, dtype=int).flatten()
 
         index = np.concatenate((index_rand_ellipse, index_large_spatial, index_small_spatial))
 
-- 
2.43.0


From a3a150957a16b4976c7ef9596be47d2d4bf37c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:59 +0000
Subject: [PATCH 37/61] fix: keep the earlier results when a run is interrupted
 while it saves

---
 pyowc/calibration.py   |  4 ++--
 pyowc/configuration.py |  4 +++-
 pyowc/utilities.py     | 33 +++++++++++++++++++++++++++++++++
 3 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 1e24ed9..1a7c9ce 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -8,7 +8,7 @@ import copy
 import gsw
 import numpy as np
 
-from scipy.io import loadmat, savemat
+from scipy.io import loadmat
 
 from .core.stats import signal_variance, noise_variance, build_cov, fit_cond
 from .core.finders import find_besthist, find_25boxes, find_10thetas
@@ -17,7 +17,7 @@ from .data.fetchers import get_topo_grid, get_region_data, get_region_hist_locat
 from .helper import load_varibales_from_file, process_profiles_la_variables, process_profiles_grid_variables, \
     get_float_data, process_profile_hist_variables, remove_statical_outliers, sort_numpy_array, \
     check_and_make_numpy_arry, selected_historical_points, interpolate_topo
-from .utilities import unwrap_longitude
+from .utilities import savemat, unwrap_longitude
 
 
 # pylint: disable=too-many-lines
diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 6d3a3e0..d913013 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -4,7 +4,9 @@ import collections
 import os
 
 import numpy as np
-from scipy.io import loadmat, savemat
+from scipy.io import loadmat
+
+from .utilities import savemat
 
 
 def print_cfg(config):
diff --git a/pyowc/utilities.py b/pyowc/utilities.py
index 0cb0257..59fb3e8 100644
--- a/pyowc/utilities.py
+++ b/pyowc/utilities.py
@@ -2,7 +2,9 @@
 """
 
 import math
+import os
 import numpy as np
+from scipy import io
 
 #pylint: disable=too-many-arguments
 def spatial_correlation(
@@ -234,3 +236,34 @@ def change_dates(cal_dates):
             continue
 
     return dec_dates
+
+
+def savemat(filepath, data):
+    """ Saves data in a .mat file like scipy.io.savemat, but the file has its previous content until all the new content is there
+
+        The results of earlier runs are read again by later ones, so a run that gets interrupted
+        while it saves should not leave half a file behind.
+
+        Parameters
+        ----------
+        filepath: path of the .mat file
+        data: dictionary of the variables to save
+
+        Returns
+        -------
+        Nothing
+    """
+    temporary = f"{filepath}.{os.getpid()}.tmp"
+
+    try:
+        with open(temporary, "wb") as mat_file:
+            io.savemat(mat_file, data)
+            mat_file.flush()
+            os.fsync(mat_file.fileno())
+
+        os.replace(temporary, filepath)
+
+    except BaseException:
+        if os.path.exists(temporary):
+            os.remove(temporary)
+        raise
-- 
2.43.0


From 0baf035486d64c4dfed41452af451e1ae08c1c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:41 +0000
Subject: [PATCH 38/61] fix: find_10thetas accepts a pressure range of less
 than 10 dbar

---
 pyowc/core/finders.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index 049bb40..d503df4 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -568,7 +568,12 @@ def find_10thetas(sal, ptmp, pres, la_ptmp,
 
     # check we can get 10 theta levels. If not, alter pressure increment
     if pres_levels.__len__() < no_levels:
-        increment = np.floor((max_pres - min_pres) / no_levels)
+        increment = (max_pres - min_pres) / no_levels
+        # whole pressures, unless the range is too small for that
+        if increment >= 1:
+            increment = np.floor(increment)
+        elif increment == 0:
+            increment = 1
         pres_levels = np.arange(min_pres, max_pres, increment)
 
     # interpolate levels onto pressure increments
-- 
2.43.0


From 8601e79fa8488a50560c24a141eb26374ef4cd17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 39/61] fix: build_cov stops for temperatures beyond the water
 mass boundaries

Levels warmer than 30 degrees (or colder than -2) made interp1d raise, so a float with one such
level among its calibration levels could not be calibrated. As in the original toolbox they now
count like levels without a temperature.
---
 pyowc/core/stats.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 81a8aa3..0f7144c 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -843,8 +843,9 @@ def build_cov(ptmp, coord_float, config):
     cov = np.zeros((ptmp_rows * ptmp_columns, ptmp_rows))
 
     # set up interpolation grids
-    upper_interp = interpolate.interp1d(ptboundaries, ptscale_down)
-    lower_interp = interpolate.interp1d(ptboundaries, ptscale_up)
+    # (temperatures beyond the boundaries have no scale, like missing ones)
+    upper_interp = interpolate.interp1d(ptboundaries, ptscale_down, bounds_error=False)
+    lower_interp = interpolate.interp1d(ptboundaries, ptscale_up, bounds_error=False)
 
     # go through each profile
     for profile in range(0, ptmp_columns):
-- 
2.43.0


From 6eccf20498133cfe6cd8ba9aa85ce8785bae218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 40/61] fix: find_besthist hands phi and potential vorticity
 over in the order spatial_correlation expects

With MAP_USE_PV the cross-isobath scale was taken for a potential vorticity and the other way round,
so the casts chosen as best correlated did not follow the correlation used for the mapping.
---
 pyowc/core/finders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/finders.py b/pyowc/core/finders.py
index d503df4..489f958 100644
--- a/pyowc/core/finders.py
+++ b/pyowc/core/finders.py
@@ -190,7 +190,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
         correlation_large = spatial_correlation_vec(remain_hist_long, long, longitude_large,
                                                     remain_hist_lat, lat, latitude_large,
                                                     remain_hist_dates, date, age_large,
-                                                    pv_hist, pv_float, phi_large)
+                                                    phi_large, pv_hist, pv_float)
 
         correlation_large_sorted = correlation_large.argsort()
 
@@ -236,7 +236,7 @@ def find_besthist(grid_lat, grid_long, grid_dates, grid_z_value, lat, long, date
                                                     lat, latitude_small,
                                                     s_remain_hist_dates,
                                                     date, age_small,
-                                                    pv_hist, pv_float, phi_small)
+                                                    phi_small, pv_hist, pv_float)
 
         correlation_small_sorted = correlation_small.argsort()
 
-- 
2.43.0


From 852fa38d71e340706bcb190258e25a6bb57f8215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:14 +0000
Subject: [PATCH 41/61] fix: evaluate the fit from the first profile with data,
 as it was fitted

---
 pyowc/core/stats.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 0f7144c..5ef8d0d 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -494,10 +494,11 @@ def fit_cond(x, y, n_err, lvcov, *args):
     P_2 = np.diag(P)
 
     # reduce matrix to have only one value per profile
-    btem = np.concatenate(([xfit[0]], breaks))
+    # A counts from the first point that has data, profiles before it extend the first segment
+    btem = np.concatenate(([xf[0]], breaks))
     E = np.zeros((xfit.__len__(), best))
     E[:, 0] = np.ones((xfit.__len__(), 1)).T
-    ixb = sorter(btem, xfit)
+    ixb = np.maximum(sorter(btem, xfit), 0)
 
     if best >= 2:
         for j in range(best - 1):
@@ -515,7 +516,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
 
     # factor to increase monte carlo error estimate, taking into account
     # that we have correlated noise
-    P_3 = np.dot(E, P_2) / np.dot(E, P_1)
+    P_3 = np.dot(np.abs(E), P_2) / np.dot(np.abs(E), P_1)
 
     real_A = copy.deepcopy(A)
     real_E = copy.deepcopy(E)
@@ -557,10 +558,10 @@ def fit_cond(x, y, n_err, lvcov, *args):
                 ubrk = optim['x'][0]
                 residual = optim['fun']
 
-                btem = np.concatenate(([xfit[0]], breaks))
+                btem = np.concatenate(([xf[0]], breaks))
                 E = np.zeros((xfit.__len__(), best))
                 E[:, 0] = np.ones((xfit.__len__(), 1)).T
-                ixb = sorter(btem, xfit)
+                ixb = np.maximum(sorter(btem, xfit), 0)
 
                 for j in range(best - 1):
                     # pointer to x values greater than break point j
-- 
2.43.0


From b1ce685e39122c045212758558a3a364b305fd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 42/61] fix: reference files lacking a variable count as having
 no data

Their casts were listed, but left out when the data were read, so that the
data of other casts were taken, or none found.
---
 pyowc/data/fetchers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 534aafa..07ca5be 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -214,6 +214,10 @@ def get_data(wmo_box, data_type, config, pa_float_name):
             pa_float_name,
         )
 
+    # a file that lacks any of the variables counts as one without data
+    if not all(name in data for name in ('lat', 'long', 'dates', 'pres', 'ptmp', 'sal')):
+        data = []
+
     return data
 
 
-- 
2.43.0


From c7e1fb3331f0dd43a3ec07de7f616d3cffee3ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:16 +0000
Subject: [PATCH 43/61] fix: look for the series settings under their
 configured name only

With an empty FLOAT_CALIB_POSTFIX the first run took the settings of a file
of that name followed by .mat.
---
 pyowc/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index d913013..44855ae 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -164,7 +164,7 @@ def set_calseries(float_dir, float_name, system_config):
 
     # if we already have a calseries file, use those values. Else, use new ones
     try:
-        calseries_data = loadmat(calseries_filename)
+        calseries_data = loadmat(calseries_filename, appendmat=False)
         breaks = calseries_data['breaks']
         max_breaks = calseries_data['max_breaks']
         calseries = calseries_data['calseries'].flatten()
-- 
2.43.0


From f2f773b1984f365f88dd2fe3ce0dc450cbc9cc57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 44/61] fix: drop limits of the series settings with more than
 one value in a row too

Only those in a column were noticed, as the values in a row of a matrix
count as one.
---
 pyowc/configuration.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyowc/configuration.py b/pyowc/configuration.py
index 44855ae..de6813d 100644
--- a/pyowc/configuration.py
+++ b/pyowc/configuration.py
@@ -204,19 +204,19 @@ def set_calseries(float_dir, float_name, system_config):
 
     # ensure values are in a realistic range
 
-    if use_theta_lt.__len__() > 1:
+    if np.size(use_theta_lt) > 1:
         print("More than one potential temperature boundary used, removing boundary...")
         use_theta_lt = []
 
-    if use_theta_gt.__len__() > 1:
+    if np.size(use_theta_gt) > 1:
         print("More than one potential temperature boundary used, removing boundary...")
         use_theta_gt = []
 
-    if use_pres_lt.__len__() > 1:
+    if np.size(use_pres_lt) > 1:
         print("More than one pressure boundary used, removing boundary...")
         use_pres_lt = []
 
-    if use_pres_gt.__len__() > 1:
+    if np.size(use_pres_gt) > 1:
         print("More than one pressure boundary used, removing boundary...")
         use_pres_gt = []
 
-- 
2.43.0


From 410af457adbcdc7ea9f8ee1292c90cd40b2ee27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:04 +0000
Subject: [PATCH 45/61] fix: keep searching for breaks when two of them leave
 no profile between

The matrix of such a fit is singular, but its determinant may differ from
zero by rounding, and the calibration ended with an error.
---
 pyowc/core/stats.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 5ef8d0d..24fc939 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -1035,19 +1035,26 @@ def brk_pt_fit(x_obvs, y_obvs, w_i, breaks=None):
     else:
         ls_est = np.dot(trends.T, trends)
 
-    if np.linalg.det(ls_est) == 0:
-        fit_param = np.zeros(b_length + 2)
-        residual = y_obvs
-        print("ERROR in brk_pt_fit: DET(A) == 0")
-        return fit_param, residual
+    singular = np.linalg.det(ls_est) == 0
 
     # calculate fit parameters
-    if w_i.__len__() > 0:
-        fit_param = np.dot(np.dot(linalg.solve(ls_est, trends.T), w_i), y_obvs)
+    if not singular:
+        try:
+            if w_i.__len__() > 0:
+                fit_param = np.dot(np.dot(linalg.solve(ls_est, trends.T), w_i), y_obvs)
 
-    else:
-        fit_param = linalg.solve(ls_est, np.dot(trends.T, y_obvs))
+            else:
+                fit_param = linalg.solve(ls_est, np.dot(trends.T, y_obvs))
+
+        # rounding may leave a determinant that is not quite zero
+        except np.linalg.LinAlgError:
+            singular = True
 
+    if singular:
+        fit_param = np.zeros(b_length + 2)
+        residual = y_obvs
+        print("ERROR in brk_pt_fit: DET(A) == 0")
+        return fit_param, residual
 
     # calculate fit estimate
     residual = y_obvs - np.dot(trends, fit_param)
-- 
2.43.0


From dd64b3ce99fe0a8e3dbf629e82eace63a4c0aa74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 46/61] fix: plot theta levels on which no profile has a
 salinity

---
 pyowc/plot/plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 847f386..37ee19c 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -554,7 +554,8 @@ def sal_var_plot(levels, sal, pres, ptmp, map_sal, map_sal_errors,
         plt.savefig(plot_loc + "_salinity_variance_" + str(i + 1) + "." + save_format,
                     format=save_format, bbox_inches='tight')
 
-        plt.ylim((np.nanmin(s_int) - 0.05, np.nanmax(s_int) + 0.05))
+        if np.any(np.isfinite(s_int)):
+            plt.ylim((np.nanmin(s_int) - 0.05, np.nanmax(s_int) + 0.05))
         plt.show()
 
 
-- 
2.43.0


From ae83b7683e0ebdf5361c444e3a17ba5518fd9a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:33 +0000
Subject: [PATCH 47/61] fix: draw each diagnostic plot on a figure of its own

---
 pyowc/plot/plots.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index 37ee19c..c8c7178 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -52,6 +52,7 @@ def trajectory_plot(bath, reef, floats, climatology, float_name, config):
         Nothing
     """
 
+    plt.figure()
     axes = plt.gca()
     axes.set_aspect(1)
 
@@ -224,8 +225,7 @@ def t_s_profile_plot(sal, ptmp, pres, sal_var, theta_levels, tlevels, plevels, f
         Nothing
     """
 
-    #plt.figure(1)
-    plt.figure(1, figsize=(7, 9))
+    plt.figure(figsize=(7, 9))
     # plot t-s profile
     plt.subplot(222)
 
@@ -631,7 +631,6 @@ def cal_sal_curve_plot(sal, cal_sal, cal_sal_err, sta_sal, sta_sal_err, sta_mean
 
         # vertically averaged salinity plot
         plt.subplot(212)
-        plt.figure(1)
 
         plt.plot(profile_no[0], avg_sal_offset, color=(0, 1, 0), linestyle='-', linewidth=2)
         good = np.argwhere(np.isfinite(avg_sta_offset))
-- 
2.43.0


From 63b82aa4da5a5296f8c60e4700ec32369d073a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 48/61] fix: contradictory break settings do not stop the
 calibration with an IndexError

---
 pyowc/calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 1a7c9ce..924bb4b 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -510,7 +510,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
 
             sstatus = 0
 
-        for n in range(n_seq):
+        for n in range(min(ns, n_seq, max_breaks.__len__())):
             nb = np.argwhere(np.isfinite(breaks[n, :])).__len__()
 
             if nb > max_breaks[n]:
-- 
2.43.0


From 7d19c3f3d5c7dd399c8fd7d4fad631a5e55fa500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:55 +0000
Subject: [PATCH 49/61] fix: the error of the time derivative is a standard
 error in its unit

---
 pyowc/core/stats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 24fc939..0ddadcb 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -617,11 +617,11 @@ def fit_cond(x, y, n_err, lvcov, *args):
         break_pts = breaks * x_scale + x_0
 
     A[0] = A[0] * y_scale + y_0
-    P[0] = P[0] * y_scale
+    P[0] = P[0] * y_scale ** 2
 
     if A.__len__() > 1:
         A[1:best] = A[1:best] * y_scale / x_scale
-        P[1:best] = P[1:best] * y_scale / x_scale
+        P[1:best] = P[1:best] * (y_scale / x_scale) ** 2
 
     yfit = yfit * y_scale + y_0
     err = np.sqrt(err) * y_scale
@@ -639,7 +639,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
 
     elif best == 2:
         time_deriv = A[1] * np.ones((nfit, 1))
-        time_deriv_err = P_2[1] * np.ones((nfit, 1))
+        time_deriv_err = np.sqrt(P_2[1]) * np.ones((nfit, 1))
 
     else:
         time_deriv = np.ones((nfit, 1)) * np.nan
@@ -647,7 +647,7 @@ def fit_cond(x, y, n_err, lvcov, *args):
         for j in range(best - 1):
             ib = np.argwhere(ixb == j)
             time_deriv[ib] = A[j + 1]
-            time_deriv_err[ib] = P_2[j + 1]
+            time_deriv_err[ib] = np.sqrt(P_2[j + 1])
 
     condslope = yfit.T
     condslope_err = yerr.T
-- 
2.43.0


From b0656b9ed06217bba7d1b613e8a886d871f5672d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 50/61] fix: a reference cast without a position does not stop
 the mapping

---
 pyowc/helper.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index 95bfcfc..9a138cc 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -225,10 +225,10 @@ def process_profiles_grid_variables(grid_data, config):
     grid_long_tbase[g_180] -= 360
 
     # find depth of the ocean at historical locations
-    grid_elev, grid_x, grid_y = get_topo_grid(np.amin(grid_long_tbase) - 1,
-                                              np.amax(grid_long_tbase) + 1,
-                                              np.amin(grid_data['grid_lat']) - 1,
-                                              np.amax(grid_data['grid_lat']) + 1,
+    grid_elev, grid_x, grid_y = get_topo_grid(np.nanmin(grid_long_tbase) - 1,
+                                              np.nanmax(grid_long_tbase) + 1,
+                                              np.nanmin(grid_data['grid_lat']) - 1,
+                                              np.nanmax(grid_data['grid_lat']) + 1,
                                               config)
 
     grid_z = -1 * interpolate_topo(grid_x[0], grid_y[:, 0], grid_elev, grid_long_tbase, grid_data['grid_lat'])
-- 
2.43.0


From 5fee88a6a29cde48abad745885c0060583863ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 51/61] fix: an interruption while reading the reference data
 stops the mapping

---
 pyowc/data/fetchers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 07ca5be..e4d9a96 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -221,7 +221,7 @@ def get_data(wmo_box, data_type, config, pa_float_name):
     return data
 
 
-# pylint: disable=bare-except
+# pylint: disable=broad-except
 def get_region_hist_locations(pa_wmo_numbers, pa_float_name, config):
     """ Uses the WMO boxes and to return all of the historical data in the given area, excluding the float that is currently being analysed.
 
@@ -266,7 +266,7 @@ def get_region_hist_locations(pa_wmo_numbers, pa_float_name, config):
                     grid_dates = np.concatenate([grid_dates, data['dates']])
                     data = []
 
-            except:
+            except Exception:
                 pass
 
     if grid_lat.__len__() == 0:
@@ -285,7 +285,7 @@ def get_region_hist_locations(pa_wmo_numbers, pa_float_name, config):
 # pylint: disable=too-many-branches
 # pylint: disable=too-many-statements
 # pylint: disable=too-many-nested-blocks
-# pylint: disable=bare-except
+# pylint: disable=broad-except
 def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres):
     """ Get the historical pressure, salinity, and temperature of selected casts
 
@@ -431,7 +431,7 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
                             max_depth = grid_pres.shape[1]
                             how_many_cols = grid_pres.shape[0]
 
-            except:
+            except Exception:
                 pass
 
     # convert longitude to 0 to 360 degrees
@@ -446,7 +446,7 @@ def get_region_data(pa_wmo_numbers, pa_float_name, config, index, pa_float_pres)
         grid_pres = grid_pres.T
         grid_ptmp = grid_ptmp.T
 
-    except:
+    except Exception:
         raise RuntimeError("NO DATA FOUND") from None
     # we have encountered a problem where some data coming in is all NaN
     # these columns need to be removed from the data set
-- 
2.43.0


From 68ef326aca895d714fea549d5abc453ffd0a63e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:01 +0000
Subject: [PATCH 52/61] fix: the deepest level of a full reference cast counts
 for the SAF criterion

---
 pyowc/data/fetchers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index e4d9a96..5a71a5c 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -640,7 +640,7 @@ def frontal_constraint_saf(config, grid_data, float_data):
             for i in range(grid_long.__len__()):
                 isok = np.intersect1d(
                     np.argwhere(~np.isnan(grid_pres[:, i]) & ~np.isnan(grid_sal[:, i]) & ~np.isnan(grid_ptmp[:, i])),
-                    np.argwhere((np.diff(grid_pres[:, i])) != 0))
+                    np.argwhere(np.diff(grid_pres[:, i], append=np.nan) != 0))
 
                 if not np.any(np.diff(grid_pres[isok, i]) == 0) and (isok.__len__() > 2) and (
                         np.min(grid_pres[isok, i]) < 300 < np.max(grid_pres[isok, i])):
-- 
2.43.0


From b91212a9c6cf31b7d018e9c4d4a6117011b1e0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:01 +0000
Subject: [PATCH 53/61] fix: a float longitude written with a minus sign is
 looked up in the right boxes

---
 pyowc/helper.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyowc/helper.py b/pyowc/helper.py
index 9a138cc..7fa1fa5 100644
--- a/pyowc/helper.py
+++ b/pyowc/helper.py
@@ -166,6 +166,10 @@ def get_float_data(float_source_data, missing_profile) -> dict:
     data['float_ptmp'] = float_source_data['PTMP'][:, missing_profile]
     data['float_pres'] = float_source_data['PRES'][:, missing_profile]
 
+    # the boxes around the float are found from longitudes between 0 and 360
+    if data['float_long'] < 0:
+        data['float_long'] = data['float_long'] + 360
+
     return data
 
 
-- 
2.43.0


From 8fdd95f4f2c777159e27928031a14b18d580779d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:01 +0000
Subject: [PATCH 54/61] fix: a profile without a date is treated like one
 without a position

---
 pyowc/calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 924bb4b..f810b93 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -157,8 +157,9 @@ def update_salinity_mapping(float_dir, config, float_name):
         # get data from float
         float_data = get_float_data(float_source_data, missing_profile)
 
-        # if we have any good location data and pressure data from the float
+        # if we have any good location data, a date and pressure data from the float
         if not np.isnan(float_data['float_long']) and not np.isnan(float_data['float_lat']) \
+                and not np.isnan(float_data['float_date']) \
                 and np.any(~np.isnan(float_data['float_pres'])):
 
             # tbase.int file requires longitudes from 0 to +/-180
-- 
2.43.0


From 257dc0479207b642ec23f64a82a667cabc1433d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:01 +0000
Subject: [PATCH 55/61] fix: the calibration pairs profiles with their own
 mapped salinities

---
 pyowc/calibration.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index f810b93..44df4a8 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -417,6 +417,7 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                                                float_name + system_config['FLOAT_MAPPED_POSTFIX']])
     float_mapped_data = loadmat(float_mapped_data_path)
 
+    mapped_profile_no = float_mapped_data['la_profile_no'].flatten()
     mapped_sal = float_mapped_data['la_mapped_sal']
     mapsalerror = float_mapped_data['la_mapsalerrors']
     mapped_ptmp = float_mapped_data['la_ptmp']
@@ -557,14 +558,18 @@ def calc_piecewisefit(float_dir, float_name, system_config):
         calindex = np.argwhere(calseries == unique_cal[i])[:, 1]
         k = calindex.__len__()
 
+        # the mapped profiles are in order of their numbers, the ones of the source may not be
+        calindex = calindex[np.argsort(profile_no[0, calindex], kind='stable')]
+        mapindex = [np.argwhere(mapped_profile_no == number)[0, 0] for number in profile_no[0, calindex]]
+
         # chose 10 float theta levels to use for the piecewise linear fit
         unique_coord_float = coord_float[calindex, :]
         unique_sal = sal[:, calindex]
         unique_ptmp = ptmp[:, calindex]
         unique_pres = pres[:, calindex]
-        unique_mapped_ptmp = mapped_ptmp[:, calindex]
-        unique_mapped_sal = mapped_sal[:, calindex]
-        unique_mapsalerrors = mapsalerror[:, calindex]
+        unique_mapped_ptmp = mapped_ptmp[:, mapindex]
+        unique_mapped_sal = mapped_sal[:, mapindex]
+        unique_mapsalerrors = mapsalerror[:, mapindex]
 
         ten_sal = np.ones((10, k)) * np.nan
         ten_ptmp = np.ones((10, k)) * np.nan
-- 
2.43.0


From 347002c9bb3353d6487cbfc2d2111be090f33259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:01 +0000
Subject: [PATCH 56/61] fix: no salinity anomaly is drawn for a float of a
 single profile

---
 pyowc/plot/plots.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index c8c7178..c91ff87 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -678,6 +678,12 @@ def sal_anom_plot(sal, ptmp, profile_no, config, float_name, title='uncalibrated
         Nothing
     """
 
+    # the anomaly of a profile is relative to the other ones
+
+    if sal.shape[1] < 2:
+        print("WARNING: no salinity anomaly for a single profile")
+        return
+
     # Set up values and allocate memory for matrices
 
     theta_base = np.arange(0.1, 30.1, 0.1)
-- 
2.43.0


From d146b1af79c674adf019f2cf7bf8aa4c7b78ee40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:13 +0000
Subject: [PATCH 57/61] fix: the figures of a float of which no profile is
 mapped are drawn

---
 pyowc/plot/dashboard.py | 3 ++-
 pyowc/plot/plots.py     | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index 9d89e9d..b6e9163 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -44,7 +44,8 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
     float_long = float_data['LONG']
     float_long[float_long > 180] -= 360
 
-    long_i = grid_data['selected_hist']
+    long_i = grid_data['selected_hist'].reshape(-1, 3)
+    grid_data['selected_hist'] = long_i
     grid_long = long_i[:, 0]
     grid_long[grid_long > 180] -= 360
 
diff --git a/pyowc/plot/plots.py b/pyowc/plot/plots.py
index c91ff87..7e67604 100644
--- a/pyowc/plot/plots.py
+++ b/pyowc/plot/plots.py
@@ -117,8 +117,9 @@ def trajectory_plot(bath, reef, floats, climatology, float_name, config):
     plt.xlabel("Longitude")
     plt.ylabel("Latitude")
     plt.axis([-180, 180, -90, 90])
-    plt.xlim(np.min(climatology['Longitude']) - 20, np.max(climatology['Longitude']) + 20)
-    plt.ylim(np.min(climatology['Latitude']) - 15, np.max(climatology['Latitude']) + 15)
+    if len(climatology.index) > 0:
+        plt.xlim(np.min(climatology['Longitude']) - 20, np.max(climatology['Longitude']) + 20)
+        plt.ylim(np.min(climatology['Latitude']) - 15, np.max(climatology['Latitude']) + 15)
 
     color = plt.get_cmap('jet')
 
-- 
2.43.0


From d33fc4efd99197e029d74d1879d0e591f062fb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:13 +0000
Subject: [PATCH 58/61] fix: the figures of a float whose profiles are not
 sorted by number match profiles with their own mapping

---
 pyowc/plot/dashboard.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyowc/plot/dashboard.py b/pyowc/plot/dashboard.py
index b6e9163..b8efe18 100644
--- a/pyowc/plot/dashboard.py
+++ b/pyowc/plot/dashboard.py
@@ -41,6 +41,14 @@ def plot_diagnostics(float_dir, float_name, config, levels=2):
     cal_data = loadmat(cal_data_loc)
     cal_series = loadmat(cal_series_loc)
 
+    # put the profiles in order of their numbers, like the mapped ones
+    order = np.argsort(float_data['PROFILE_NO'][0], kind='stable')
+    for data, keys in ((float_data, ('LAT', 'LONG', 'SAL', 'PTMP', 'PRES', 'PROFILE_NO')),
+                       (cal_data, ('cal_SAL', 'cal_SAL_err', 'sta_SAL', 'sta_SAL_err', 'sta_mean',
+                                   'pcond_factor', 'pcond_factor_err'))):
+        for key in keys:
+            data[key] = data[key][:, order]
+
     float_long = float_data['LONG']
     float_long[float_long > 180] -= 360
 
-- 
2.43.0


From 6013db99fa7221000f73909a01633310343b2b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:24 +0000
Subject: [PATCH 59/61] fix: the calibration takes the series of each profile
 by its number

---
 pyowc/calibration.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyowc/calibration.py b/pyowc/calibration.py
index 44df4a8..f185f2e 100644
--- a/pyowc/calibration.py
+++ b/pyowc/calibration.py
@@ -447,7 +447,11 @@ def calc_piecewisefit(float_dir, float_name, system_config):
                                              system_config['FLOAT_CALIB_POSTFIX']])
     float_calseries = loadmat(float_calseries_path)
 
-    calseries = float_calseries['calseries']
+    # the series file is in order of the profile numbers, the source may not be
+    calseries = np.zeros((1, profile_no.size))
+    for number, flag in zip(float_calseries['calib_profile_no'].flatten(), float_calseries['calseries'].flatten()):
+        calseries[profile_no == number] = flag
+
     max_breaks = float_calseries['max_breaks'].reshape((-1, 1))
     breaks = float_calseries['breaks']
     use_theta_gt = float_calseries['use_theta_gt']
-- 
2.43.0


From 94f679083da846e36753f4978bad5ecb7ec7de4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:54 +0000
Subject: [PATCH 60/61] fix: keep the Argo reference profile of a file with one
 profile and an empty source name

---
 pyowc/data/fetchers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyowc/data/fetchers.py b/pyowc/data/fetchers.py
index 5a71a5c..681ec41 100644
--- a/pyowc/data/fetchers.py
+++ b/pyowc/data/fetchers.py
@@ -24,7 +24,8 @@ def _restore_dimensions(data):
     for key in ('lat', 'long', 'dates'):
         data[key] = np.atleast_1d(data[key])
 
-    if isinstance(data.get('source'), str):
+    # an empty name is read as an empty array
+    if isinstance(data.get('source'), str) or isinstance(data.get('source'), np.ndarray) and data['source'].size == 0:
         data['source'] = [data['source']]
 
     for key in ('pres', 'ptmp', 'sal', 'temp'):
-- 
2.43.0


From 04d132b16b1d6584a98ba153141679fdae46c519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:45 +0000
Subject: [PATCH 61/61] fix: profiles of a float that drifted around the globe
 are as close as they are

The covariance of two profiles was built from the plain difference of their
longitudes, so neighbouring profiles counted as uncorrelated where the float
crossed the meridian opposite to its first profile.
---
 pyowc/core/stats.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pyowc/core/stats.py b/pyowc/core/stats.py
index 0ddadcb..aad8c39 100644
--- a/pyowc/core/stats.py
+++ b/pyowc/core/stats.py
@@ -945,9 +945,11 @@ def covarxy_pv(input_coords, coords, long, lat, phi, use_pv):
     pv_input_coords = potential_vorticity(input_coords[0], z_input_coords)
     pv_coords = potential_vorticity(coords[:, 0], z_coords)
 
-    # calculate correlation
+    # calculate correlation, with the longitude difference the shorter way around the globe
+    long_diff = np.abs(input_coords[1] - coords[:, 1])
+    long_diff = np.minimum(long_diff, 360 - long_diff)
     cor_term = ((input_coords[0] - coords[:, 0]) / lat) ** 2 + \
-               ((input_coords[1] - coords[:, 1]) / long) ** 2
+               (long_diff / long) ** 2
 
     # include potential vorticity in correlation, if the user has asked for it
 
-- 
2.43.0

