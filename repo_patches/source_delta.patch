From d3ce4670420ffea7fdc1e9931a83a289edfb8855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:43 +0000
Subject: [PATCH 01/23] fix: lcs2latlon places the origin in the requested UTM
 zone

---
 src/solarspatialtools/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/spatial.py b/src/solarspatialtools/spatial.py
index f50e111..c13f0e1 100644
--- a/src/solarspatialtools/spatial.py
+++ b/src/solarspatialtools/spatial.py
@@ -210,7 +210,7 @@ def lcs2latlon(east, north, origin_lat, origin_lon, zone=None):
     south = origin_lat < 0
 
     # Get the origin in UTM
-    e_o, n_o, _ = latlon2utm(origin_lat, origin_lon)
+    e_o, n_o, _ = latlon2utm(origin_lat, origin_lon, zone=zone)
 
     # Shift the target
     e_t = e_o + east
-- 
2.43.0


From b4bc6280f15f9df086a6b707ca2bcbe0f74b48c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:43 +0000
Subject: [PATCH 02/23] fix: latlon2lcs takes the default UTM zone from the
 origin for both points

---
 src/solarspatialtools/spatial.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solarspatialtools/spatial.py b/src/solarspatialtools/spatial.py
index c13f0e1..565c06c 100644
--- a/src/solarspatialtools/spatial.py
+++ b/src/solarspatialtools/spatial.py
@@ -148,6 +148,10 @@ def latlon2lcs(lat, lon, origin_lat, origin_lon, zone=None):
     (east, north) : numeric
         The Easting and Northing of the target point in the LCS coordinates
     """
+    # The target shares the zone of the origin
+    if zone is None and not hasattr(origin_lon, "__len__"):
+        zone = _calc_zone(origin_lon)
+
     # Convert both coordinates to UTM
     utm_i = latlon2utm(origin_lat, origin_lon, zone=zone)
     utm_t = latlon2utm(lat, lon, zone=zone)
-- 
2.43.0


From 4fb523d669fe6037078ff47a3321d2f3481e0b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:43 +0000
Subject: [PATCH 03/23] fix: latlon2lcs measures northings from the origin's
 hemisphere across the equator

---
 src/solarspatialtools/spatial.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/solarspatialtools/spatial.py b/src/solarspatialtools/spatial.py
index 565c06c..08844b5 100644
--- a/src/solarspatialtools/spatial.py
+++ b/src/solarspatialtools/spatial.py
@@ -23,7 +23,7 @@ def _calc_zone(lon):
     return min(z, 60)
 
 
-def latlon2utm(lat, lon, zone=None):
+def latlon2utm(lat, lon, zone=None, south=None):
     """
     Convert a latitude/longitude pair from WGS84 into UTM coordinates.
 
@@ -41,6 +41,10 @@ def latlon2utm(lat, lon, zone=None):
     zone : numeric
         the UTM zone (number only). Calculated from longitude if None
 
+    south : bool
+        whether northings use the southern hemisphere's false northing.
+        Determined from latitude if None
+
     Returns
     -------
     (east, north) : numeric
@@ -56,18 +60,19 @@ def latlon2utm(lat, lon, zone=None):
             raise ValueError("lat and lon arrays must have the same length.")
         if hasattr(lat, "index") \
                 and isinstance(lat, (pd.DataFrame, pd.Series)):
-            data = np.array([latlon2utm(lati, loni, zone)
+            data = np.array([latlon2utm(lati, loni, zone, south)
                              for (lati, loni) in zip(lat, lon)])
             return pd.DataFrame(data, index=lat.index,
                                 columns=["E", "N", "zone"])
         else:
-            return np.array([latlon2utm(lati, loni, zone)
+            return np.array([latlon2utm(lati, loni, zone, south)
                              for (lati, loni) in zip(lat, lon)])
     else:
         if zone is None:
             zone = _calc_zone(lon)
 
-        south = (lat < 0)
+        if south is None:
+            south = (lat < 0)
 
         p1 = Proj(proj='utm', zone=zone, ellipsis='WGS84', datum='WGS84',
                   units='m', south=south, preserve_units=True)
@@ -152,9 +157,12 @@ def latlon2lcs(lat, lon, origin_lat, origin_lon, zone=None):
     if zone is None and not hasattr(origin_lon, "__len__"):
         zone = _calc_zone(origin_lon)
 
+    # ...and its false northing, so that crossing the equator makes no jump
+    south = None if hasattr(origin_lat, "__len__") else origin_lat < 0
+
     # Convert both coordinates to UTM
     utm_i = latlon2utm(origin_lat, origin_lon, zone=zone)
-    utm_t = latlon2utm(lat, lon, zone=zone)
+    utm_t = latlon2utm(lat, lon, zone=zone, south=south)
 
     # Extract E and N from results (handle scalar, array, and DataFrame returns)
     if isinstance(utm_i, pd.DataFrame):
-- 
2.43.0


From 891d9032c2a5f9ddba14972d8b3b3971f95fa43a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:19 +0000
Subject: [PATCH 04/23] fix: moving-average statistics keep fractional-second
 averaging windows

---
 src/solarspatialtools/stats.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solarspatialtools/stats.py b/src/solarspatialtools/stats.py
index 269ccd4..191a6a0 100644
--- a/src/solarspatialtools/stats.py
+++ b/src/solarspatialtools/stats.py
@@ -189,7 +189,7 @@ def variability_score(series, tau=1, moving_avg=True, pct=False):
     """
     if moving_avg and tau > 1:
         dt = np.nanmedian(series.index.diff().total_seconds())
-        rs = series.resample(str(int(tau * dt)) + 's').mean()
+        rs = series.resample(pd.to_timedelta(tau * dt, unit='s')).mean()
         return variability_score(rs, tau=1, moving_avg=False, pct=pct)
     if pct:  # Scale to a percentage of STC and multiply by 100 (Lave et al)
         return 100./1000 * variability_score(series, tau=tau,
@@ -239,7 +239,7 @@ def variability_index(ghi, clearsky, moving_avg_tau=1, norm=False):
 
     if moving_avg_tau > 1:
         dti = np.nanmedian(ghi.index.diff().total_seconds())
-        sample_pd = str(int(moving_avg_tau*dti))+'s'
+        sample_pd = pd.to_timedelta(moving_avg_tau*dti, unit='s')
         rs = ghi.resample(sample_pd).mean()
         cs = clearsky.resample(sample_pd).mean()
         return variability_index(rs, cs, moving_avg_tau=1, norm=norm)
@@ -295,7 +295,7 @@ def darr(series, tau=1, moving_avg=True, pct=False):
 
     if moving_avg and tau > 1:
         dt = np.nanmedian(series.index.diff().total_seconds())
-        rs = series.resample(str(int(tau * dt)) + 's').mean()
+        rs = series.resample(pd.to_timedelta(tau * dt, unit='s')).mean()
         # Rerun it without MA
         return darr(rs, tau=1, moving_avg=False, pct=pct)
     if pct:
-- 
2.43.0


From 9c42096a070a7df8e5be7f42f2966467efca070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:34 +0000
Subject: [PATCH 05/23] fix: clearsky_index honours max_clearsky_index for
 DataFrame input

---
 src/solarspatialtools/irradiance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solarspatialtools/irradiance.py b/src/solarspatialtools/irradiance.py
index 8456680..007c46a 100644
--- a/src/solarspatialtools/irradiance.py
+++ b/src/solarspatialtools/irradiance.py
@@ -31,7 +31,8 @@ def clearsky_index(ghi, clearsky_ghi, max_clearsky_index=2.0):
 
     if isinstance(ghi, pd.DataFrame):  # apply column by column
         return ghi.apply(lambda x:
-                         pvlib.irradiance.clearsky_index(x, clearsky_ghi, 2),
+                         pvlib.irradiance.clearsky_index(x, clearsky_ghi,
+                                                         max_clearsky_index),
                          axis=0)
     else:
         return pvlib.irradiance.clearsky_index(ghi, clearsky_ghi,
-- 
2.43.0


From 55740e2f37ac7fe8e1a8797e24894e96f0935325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:28 +0000
Subject: [PATCH 06/23] fix: averaged_psd honours scaling for Series input

---
 src/solarspatialtools/signalproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 942ece5..04edd04 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -200,7 +200,7 @@ def averaged_psd(input_tsig, navgs, overlap=0.5,
 
     if isinstance(input_tsig, pd.Series):
         return averaged_psd(pd.DataFrame(input_tsig), navgs, overlap, window,
-                            detrend)
+                            detrend, scaling)
 
     cols = input_tsig.columns
     input_tsig = input_tsig.values.T
-- 
2.43.0


From 0653f7f422c52a0a299e51eac3b140f7a6a86bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:37 +0000
Subject: [PATCH 07/23] fix: compute_delays returns one zero-lag correlation
 per pair in fft mode

---
 src/solarspatialtools/signalproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 04edd04..eb4d64b 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -700,7 +700,7 @@ def compute_delays(ts_in, ts_out, mode='loop', scaling='coeff'):
         extras['peak_corr'] = (corrxy[range(ts_inm.shape[0]), peak_lag_indices]
                                * corr_scale)
         extras['mean_corr'] = np.mean(corrxy, axis=1) * corr_scale
-        extras['zero_corr'] = corrxy[:, zero_lag_ind] * corr_scale
+        extras['zero_corr'] = corrxy[:, zero_lag_ind[0].item()] * corr_scale
     else:
         raise ValueError(f'Invalid mode: {mode}')
 
-- 
2.43.0


From 0a8a59c98fa6ec10b0d4d2780b7f55c5a68fdf02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:37 +0000
Subject: [PATCH 08/23] fix: get_1d_plant accepts integer centers with a
 fractional reference

---
 src/solarspatialtools/signalproc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index eb4d64b..e7ad2e8 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -926,8 +926,7 @@ def get_1d_plant(centers, ref_center=0,
     else:
         w = width
 
-    centers = np.array(centers).flatten()
-    centers -= ref_center
+    centers = np.array(centers).flatten() - ref_center
 
     # Initialize the empty plant
     x_vec = np.arange(-xmax//2, xmax//2, dx)
-- 
2.43.0


From 7dfe93cf57fd6e00c872abd2e14d15a5106bdf35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:37 +0000
Subject: [PATCH 09/23] fix: cleanfreq returns the signal as documented

---
 src/solarspatialtools/signalproc.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index e7ad2e8..9e7b894 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -1147,3 +1147,4 @@ def cleanfreq(sig):
     idxlist = sig.index.to_list()
     idxlist[len(sig.index) // 2] = None
     sig.index = idxlist
+    return sig
-- 
2.43.0


From 6237c8ca07e752d85dabb45460b3424fceddee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:15 +0000
Subject: [PATCH 10/23] fix: _fftcorrelate scales each pair of a multi-column
 input by its own coefficient

---
 src/solarspatialtools/signalproc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index 9e7b894..f626907 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -154,7 +154,8 @@ def _fftcorrelate(baseline, estimation, scaling='coeff'):
     # Compute correlation via fft and re-center to match lags
     ffta = scipy.fft.fft(ts_inm, axis=1)
     fftb = scipy.fft.fft(ts_outm, axis=1)
-    corrxy = np.real(np.fft.ifft(ffta * np.conj(fftb), axis=1)) * corr_scale
+    corrxy = (np.real(np.fft.ifft(ffta * np.conj(fftb), axis=1))
+              * np.reshape(corr_scale, (-1, 1)))
 
     corrxy = np.roll(corrxy, nl // 2, axis=1)
 
-- 
2.43.0


From 407605d6039c4562f0fda0dd645dbf9034dabbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:48 +0000
Subject: [PATCH 11/23] fix: plant1d_to_camfilter delays by the true position
 of the plant axis

---
 src/solarspatialtools/signalproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solarspatialtools/signalproc.py b/src/solarspatialtools/signalproc.py
index f626907..90425ba 100644
--- a/src/solarspatialtools/signalproc.py
+++ b/src/solarspatialtools/signalproc.py
@@ -996,10 +996,10 @@ def plant1d_to_camfilter(plant, x_plant, cloud_speed):
     t_delay = np.min(x_plant) / cloud_speed
     if cloud_speed > 0:
         camfilt = camfilt * np.exp(
-            1j * camfreq * (2 * np.pi) * t_delay)
+            -1j * camfreq * (2 * np.pi) * t_delay)
     else:
         camfilt = np.conj(
-            camfilt * np.exp(1j * camfreq * (2 * np.pi) * -t_delay))
+            camfilt * np.exp(-1j * camfreq * (2 * np.pi) * -t_delay))
     return pd.Series(camfilt, index=camfreq)
 
 
-- 
2.43.0


From 5f03c77842fca127b52ed58f183e14537a877663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:30 +0000
Subject: [PATCH 12/23] fix: compute_cmv no longer fills its defaults into the
 caller's options

---
 src/solarspatialtools/cmv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solarspatialtools/cmv.py b/src/solarspatialtools/cmv.py
index 69e06c4..484b9a1 100644
--- a/src/solarspatialtools/cmv.py
+++ b/src/solarspatialtools/cmv.py
@@ -611,8 +611,8 @@ def _validate_method_options(method, options):
         intermediate data for debugging purposes.
     """
     # Validate options
-    if options is None:
-        options = {}
+    # (completed in a copy, so that the caller's options stay as they are)
+    options = {} if options is None else dict(options)
     # Specify default options by method
     if method == 'jamaly':
         defaults = {'minvelocity': 0,  # m/s
-- 
2.43.0


From db61e8462e48bcff2e6fcfff924a1137842d4ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:30 +0000
Subject: [PATCH 13/23] fix: compute_cmv no longer silences numpy warnings for
 the whole process

---
 src/solarspatialtools/cmv.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/solarspatialtools/cmv.py b/src/solarspatialtools/cmv.py
index 484b9a1..086b941 100644
--- a/src/solarspatialtools/cmv.py
+++ b/src/solarspatialtools/cmv.py
@@ -130,6 +130,8 @@ def _get_pairs(all_points, must_contain=None, replacement=True):
         return np.array(pairs_all)
 
 
+# Ignore some numpy printouts, we'll deal with them manually
+@np.errstate(divide='ignore', invalid='ignore')
 def compute_cmv(timeseries, positions, reference_id=None, method="jamaly",
                 options=None, delay_backend='xcorr'):
     """
@@ -221,10 +223,6 @@ def compute_cmv(timeseries, positions, reference_id=None, method="jamaly",
     if delay_backend not in ['xcorr', 'tf']:
         raise ValueError("delay_backend must be one of: ['xcorr', 'tf'].")
 
-    # Ignore some numpy printouts, we'll deal with them manually
-    np.seterr(divide='ignore')
-    np.seterr(invalid='ignore')
-
     # Find all the needed info
     nsamples, _ = timeseries.shape
     point_ids = positions.index.to_list()
-- 
2.43.0


From a27e716ef2191c40a8b3a10454b285723276e35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:27 +0000
Subject: [PATCH 14/23] fix: assign_positions ignores missing values in columns
 that are not positions

---
 src/solarspatialtools/field.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/solarspatialtools/field.py b/src/solarspatialtools/field.py
index 8c15260..85232bb 100644
--- a/src/solarspatialtools/field.py
+++ b/src/solarspatialtools/field.py
@@ -373,6 +373,9 @@ def assign_positions(original_pos, predicted_pos):
         A copy of the original data, but with the rows remapped to the optimal
         solution.
     """
+    # Only the first two columns hold the positions, any others are ignored
+    predicted_pos = predicted_pos.iloc[:, :2]
+
     # If we have NaN in the data, calculations will fail. Assume that the NaN
     # values stay in place and remap the rest. This would only ever happen in
     # the predictions, because the original should come from the site plan.
-- 
2.43.0


From 14989f874dfd4f8d9a9257dc0b9b8f3137d89e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:44 +0000
Subject: [PATCH 15/23] fix: downscale_multihour looks at cloud_spd, not
 cloud_dir, when sorting out the cloud speeds

---
 src/solarspatialtools/synthirrad/copula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/synthirrad/copula.py b/src/solarspatialtools/synthirrad/copula.py
index ffff08d..8e98f78 100644
--- a/src/solarspatialtools/synthirrad/copula.py
+++ b/src/solarspatialtools/synthirrad/copula.py
@@ -568,7 +568,7 @@ def downscale_multihour(times, e_pos, n_pos, cloud_spd, cloud_dir, mean_csi,
                                  ' list matching the length of mean_csi.')
             multi_cloud_dir_mode = True
 
-    if not isinstance(cloud_dir, (int, float)):
+    if not isinstance(cloud_spd, (int, float)):
         if len(cloud_spd) != 1:
             if len(cloud_spd) != n_hours:
                 raise ValueError('cloud_spd must be either a single value or a'
-- 
2.43.0


From 6edae5705c508fba146da2ed09bbecf9226ed55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:42 +0000
Subject: [PATCH 16/23] fix: calc_quantile uses the whole days before each day,
 also for time zones

The slice by dates included midnight of the current day in the window, and
failed for a time-zone-aware index.
---
 src/solarspatialtools/stats.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/solarspatialtools/stats.py b/src/solarspatialtools/stats.py
index 191a6a0..56f0670 100644
--- a/src/solarspatialtools/stats.py
+++ b/src/solarspatialtools/stats.py
@@ -359,9 +359,10 @@ def calc_quantile(timeseries, n_days="30d", quantile=0.9):
         if date_end > end_day:
             break
 
-        # Copy the subset of data representing the window
-        # and separate the date and time stamps
-        statdata = ts[date_start:date_end]
+        # Copy the subset of data representing the window (the whole days
+        # before date_end) and separate the date and time stamps
+        day = ts.index.date
+        statdata = ts[(day >= date_start) & (day < date_end)]
         dates = statdata.index.date
         times = statdata.index.time
 
-- 
2.43.0


From 1336205faffbb7800c0319574e9ca97708837dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:42 +0000
Subject: [PATCH 17/23] fix: compute_predicted_position pairs delays with
 positions by name

Delays were attributed to positions by column order.
---
 src/solarspatialtools/field.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solarspatialtools/field.py b/src/solarspatialtools/field.py
index 85232bb..6a7d605 100644
--- a/src/solarspatialtools/field.py
+++ b/src/solarspatialtools/field.py
@@ -93,8 +93,10 @@ def compute_predicted_position(dfs, pos_utm, ref, cld_vecs=None,
 
     for df, cld_vec in zip(dfs, cld_vecs):
 
-        # Get the pairwise delays
-        delay, extras = signalproc.compute_delays_tf(df[ref], df, navgs=navgs,
+        # Get the pairwise delays, in the order of the positions
+        delay, extras = signalproc.compute_delays_tf(df[ref],
+                                                     df[pos_utm.index],
+                                                     navgs=navgs,
                                                      coh_limit=coh_limit,
                                                      freq_limit=freq_limit,
                                                      method=delay_method)
-- 
2.43.0


From 28e9444ef7023c45682a953f4728999a81bf5eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:42 +0000
Subject: [PATCH 18/23] fix: compute_predicted_position uses the E and N
 columns only

A position table with further columns raised or measured distances in them.
---
 src/solarspatialtools/field.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solarspatialtools/field.py b/src/solarspatialtools/field.py
index 6a7d605..6eeeb7e 100644
--- a/src/solarspatialtools/field.py
+++ b/src/solarspatialtools/field.py
@@ -143,8 +143,8 @@ def compute_predicted_position(dfs, pos_utm, ref, cld_vecs=None,
     elif mode == 'distance':
         # Downselect to the closest Points
         separations = pd.DataFrame({'sep': [
-            spatial.magnitude(row[1] - pos_utm.loc[ref]) for row in
-            pos_utm.iterrows()]}, index=pos_utm.index)
+            spatial.magnitude(row[1] - pos_utm.loc[ref, ['E', 'N']]) for row in
+            pos_utm[['E', 'N']].iterrows()]}, index=pos_utm.index)
         # Zeroth index is always "self", but needs to be included
         ix = separations.sort_values('sep').iloc[:ndownsel, :].index
         ix1 = ix2 = ix
@@ -167,7 +167,7 @@ def compute_predicted_position(dfs, pos_utm, ref, cld_vecs=None,
     )
 
     # Algorithm above assumes the origin is (0, 0). Shift by the ref pt
-    pos = (pos + pos_utm.loc[ref].values).flatten()
+    pos = (pos + pos_utm.loc[ref, ['E', 'N']].values).flatten()
 
     return pos, combined_data
 
-- 
2.43.0


From 64455a2a2879af7737e64b34d190b21b59d68fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:35 +0000
Subject: [PATCH 19/23] fix: variability score weights for low variability no
 longer overflow or favour the smallest scale

---
 src/solarspatialtools/synthirrad/cloudfield.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/solarspatialtools/synthirrad/cloudfield.py b/src/solarspatialtools/synthirrad/cloudfield.py
index 980aa4b..06970cd 100644
--- a/src/solarspatialtools/synthirrad/cloudfield.py
+++ b/src/solarspatialtools/synthirrad/cloudfield.py
@@ -95,8 +95,11 @@ def _calc_vs_weights(scales, vs):
     if vs < 0:
         raise ValueError("VS must be greater than 0.")
 
-    VS1 = -np.log(1-vs/180)/0.6
-    weight = scales ** (1/VS1)
+    # The exponent grows without limit as vs approaches 0, where the largest
+    # scale takes all the weight. Scales are taken relative to the largest one,
+    # which does not affect the weights, so that this doesn't overflow.
+    VS1 = np.abs(np.log(1-vs/180))/0.6
+    weight = (scales / np.max(scales)) ** (1/VS1)
     return weight / np.sum(weight)
 
 
-- 
2.43.0


From fafa0d87ef3f1a0d0c31b11da7c890fb7408dba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:36 +0000
Subject: [PATCH 20/23] fix: clear mask of a small field no longer fails for
 fractions between whole cells

---
 src/solarspatialtools/synthirrad/cloudfield.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solarspatialtools/synthirrad/cloudfield.py b/src/solarspatialtools/synthirrad/cloudfield.py
index 06970cd..60625c2 100644
--- a/src/solarspatialtools/synthirrad/cloudfield.py
+++ b/src/solarspatialtools/synthirrad/cloudfield.py
@@ -210,8 +210,10 @@ def _calc_clear_mask(field, clear_frac=0.5, plot=False):
         field_mask = np.ones_like(field)
         field_mask[field > quant] = 0
 
-    # Test to make sure that we're close to matching the desired fraction
-    assert (np.isclose(clear_frac, np.sum(field_mask) / field.size, rtol=1e-3))
+    # Test to make sure that we're close to matching the desired fraction, to
+    # within the one cell that's the best any mask of this size can do
+    assert (np.isclose(clear_frac, np.sum(field_mask) / field.size, rtol=1e-3,
+                       atol=1/field.size))
 
     if plot:
         plt.imshow(field_mask, extent=(0, field.shape[1], 0, field.shape[0]))
-- 
2.43.0


From e52e660a0423ea81f123ad553e65234f0cb1fe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:34 +0000
Subject: [PATCH 21/23] fix: interp_nan leaves gaps longer than the limit as
 nan and keeps all valid samples

---
 src/solarspatialtools/dataio/hope_campaign.py | 22 +++++++------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/src/solarspatialtools/dataio/hope_campaign.py b/src/solarspatialtools/dataio/hope_campaign.py
index db902bb..a4e03ff 100644
--- a/src/solarspatialtools/dataio/hope_campaign.py
+++ b/src/solarspatialtools/dataio/hope_campaign.py
@@ -180,20 +180,14 @@ def interp_nan(data, limit=5):
 
     for col in datanew.columns:
         datanew_i = datanew[col]
-        # interpolate limiting things to 5s or shorter nan windows
-        datanew_i = datanew_i.interpolate(limit=limit, limit_area='inside')
-
-        # Find the cases where things were nan for more than limit, and add
-        # some padding to ensure we don't interp there
-        blanks = np.isnan(datanew_i).rolling(f'{limit}s').mean() > \
-                 (limit-1)/limit
-        blanks_front = blanks.iloc[:-2*limit]
-        blanks_back = blanks.iloc[2*limit:]
-        blanks_union = blanks_front.values | blanks_back.values
-        blanks = pd.Series(np.pad(blanks_union, limit), index=blanks.index)
-        datanew_i[blanks] = np.nan
-
-        datanew[col] = datanew_i
+        # Number of consecutive nan values in the gap that each sample is in.
+        # Each gap is grouped with the valid value that precedes it.
+        gap = np.isnan(datanew_i)
+        gap_size = gap.groupby((~gap).cumsum()).transform('sum')
+
+        # interpolate, but leave the gaps that are longer than the limit
+        datanew[col] = datanew_i.interpolate(limit_area='inside').where(
+            gap_size <= limit, datanew_i)
 
     return datanew
 
-- 
2.43.0


From 9ab84e35667d4ba9a9f8b59144d9349fdfd83396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:15 +0000
Subject: [PATCH 22/23] fix: Gaussian mixture density of whole-number values is
 not truncated to integers

---
 src/solarspatialtools/synthirrad/copula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/synthirrad/copula.py b/src/solarspatialtools/synthirrad/copula.py
index 8e98f78..a44d0dc 100644
--- a/src/solarspatialtools/synthirrad/copula.py
+++ b/src/solarspatialtools/synthirrad/copula.py
@@ -74,7 +74,7 @@ def _gmdistribution(x, mu, variances, p, debug=False):
     """
 
     # Reshape inputs to the correct form
-    x_inp = np.atleast_1d(np.asarray(x)).reshape(-1, 1)
+    x_inp = np.atleast_1d(np.asarray(x, dtype=float)).reshape(-1, 1)
     mu = np.array(mu).reshape(-1, 1)  # means
     variances = np.array(variances).reshape(-1, 1, 1)  # stdevs
     p = np.array(p)  # weights
-- 
2.43.0


From 8446698566d2a23be81d5f9cf1c0eb09f4f251a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:15 +0000
Subject: [PATCH 23/23] fix: decay floor holds for whole-number means and
 parameters

---
 src/solarspatialtools/synthirrad/copula.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solarspatialtools/synthirrad/copula.py b/src/solarspatialtools/synthirrad/copula.py
index a44d0dc..ff99606 100644
--- a/src/solarspatialtools/synthirrad/copula.py
+++ b/src/solarspatialtools/synthirrad/copula.py
@@ -282,7 +282,7 @@ def _exponential_decay_parameter(K, p):
         to faster decay, while higher values of K (mean CSI) lead to slower
         decay.
     """
-    k = p * K * (1-K)
+    k = 1.0 * p * K * (1-K)
     try:
         if k < 10**-5:
             k = 10**-5
-- 
2.43.0

