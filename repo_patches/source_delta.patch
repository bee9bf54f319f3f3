From 107f7c778eb7cdbf7399ca2ae541b21285aa3820 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 11:55:09 +0000
Subject: [PATCH 01/80] fix: CountBeyondThreshold with both thresholds combined
 array masks with 'and' and always raised

---
 rubin_sim/maf/metrics/simple_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/simple_metrics.py b/rubin_sim/maf/metrics/simple_metrics.py
index f2b5bde..4fdba37 100644
--- a/rubin_sim/maf/metrics/simple_metrics.py
+++ b/rubin_sim/maf/metrics/simple_metrics.py
@@ -303,7 +303,7 @@ class CountBeyondThreshold(BaseMetric):
             count = len(
                 np.where(
                     (data_slice[self.colname] > self.lower_threshold)
-                    and (data_slice[self.colname] < self.upper_threshold)
+                    & (data_slice[self.colname] < self.upper_threshold)
                 )[0]
             )
         return count
-- 
2.43.0


From 3205a550ea7e0b9c63b9a452d85c4b78ab23dc09 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:01:21 +0000
Subject: [PATCH 02/80] fix: TimeIntervalSlicer puts each visit in the interval
 that contains it

np.digitize counts from one, so every visit was placed one interval late and
visits of the last interval were lost; a visit at an exact integer MJD was
outside the last interval; and an interval without visits returned [[]], which
is not recognised as empty.
---
 rubin_sim/maf/slicers/time_interval_slicers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index e5cca06..9c39b93 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -64,7 +64,7 @@ class TimeIntervalSlicer(BaseSlicer):
     def setup_slicer(self, sim_data, maps=None):
         visit_mjds = sim_data[self.mjd_column_name]
         start_mjd = np.floor(np.min(visit_mjds)).astype(int)
-        end_mjd = np.ceil(np.max(visit_mjds)).astype(int)
+        end_mjd = np.floor(np.max(visit_mjds)).astype(int) + 1
         interval_days = self.interval_seconds / (24 * 60 * 60.0)
 
         mjd_bin_edges = np.arange(start_mjd, end_mjd + interval_days, interval_days)
@@ -73,7 +73,7 @@ class TimeIntervalSlicer(BaseSlicer):
             pd.DataFrame(
                 {
                     "visit_idx": np.arange(len(visit_mjds)),
-                    "sid": np.digitize(visit_mjds, mjd_bin_edges),
+                    "sid": np.digitize(visit_mjds, mjd_bin_edges) - 1,
                 }
             )
             .groupby("sid")
@@ -94,8 +94,8 @@ class TimeIntervalSlicer(BaseSlicer):
             idxs = self.sim_idxs[islice]
 
             try:
-                _ = idxs[0]
-            except (TypeError, IndexError):
+                _ = len(idxs)
+            except TypeError:
                 idxs = [idxs]
 
             slice_points = {
-- 
2.43.0


From bc19d1a4a6c5c5e52e95094069715b3b8922266c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:01:36 +0000
Subject: [PATCH 03/80] fix: VisitIntervalSlicer reports the time and duration
 of the visit it returns

The visit was taken in time order but its time and duration in table order.
---
 rubin_sim/maf/slicers/time_interval_slicers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index 9c39b93..3c335ce 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -269,8 +269,8 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
             idxs = self.sim_idxs[islice]
             slice_points = {
                 "sid": [idxs],
-                "mjd": self.slice_points["mjd"][islice],
-                "duration": self.slice_points["duration"][islice],
+                "mjd": self.slice_points["mjd"][idxs],
+                "duration": self.slice_points["duration"][idxs],
             }
             for column_name in self.extra_column_names:
                 slice_points[column_name] = self.slice_points[column_name]
-- 
2.43.0


From d570515dd9bb96810b751b34a3c201dd1ee1c504 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:03:06 +0000
Subject: [PATCH 04/80] fix: only group metric bundles that are compatible with
 every member

A bundle that was found incompatible with a later member of a group was still
appended to it, and a bundle could be appended to (and run in) several groups.
---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index bdb893b..b088e03 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -200,10 +200,12 @@ class MetricBundleGroup:
                             # stop and go on to the
                             # next subset list.
                             break
-                    # Otherwise, we reached the end of the subset
+                if compatible:
+                    # We reached the end of the subset
                     # and they were all compatible.
                     found_compatible = True
                     compatible_list.append(k)
+                    break
             if not found_compatible:
                 # Didn't find a pre-existing compatible set; make a new one.
                 compatible_lists.append(
-- 
2.43.0


From d4e797f0753ec261e4e43a7fdab49770c95d8d4d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:03:06 +0000
Subject: [PATCH 05/80] fix: compare the maps of metric bundles, not the None
 that list.sort returns

---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index b088e03..fec31d2 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -165,7 +165,7 @@ class MetricBundleGroup:
             return False
         if metric_bundle1.slicer != metric_bundle2.slicer:
             return False
-        if metric_bundle1.maps_list.sort() != metric_bundle2.maps_list.sort():
+        if sorted(metric_bundle1.maps_list) != sorted(metric_bundle2.maps_list):
             return False
         for stacker in metric_bundle1.stacker_list:
             for stacker2 in metric_bundle2.stacker_list:
-- 
2.43.0


From 68faa6e1f3cc211de08a491fbe47a06bb0306387 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 12:37:47 +0000
Subject: [PATCH 06/80] fix: scale GeneralUniformityMetric values by the range,
 not by the maximum

---
 rubin_sim/maf/metrics/cadence_metrics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/cadence_metrics.py b/rubin_sim/maf/metrics/cadence_metrics.py
index 5e29bd9..cf4ba44 100644
--- a/rubin_sim/maf/metrics/cadence_metrics.py
+++ b/rubin_sim/maf/metrics/cadence_metrics.py
@@ -145,7 +145,10 @@ class GeneralUniformityMetric(BaseMetric):
             max_value = data_slice[self.col].max()
         else:
             max_value = self.max_value
-        scaled_values = (data_slice[self.col] - min_value) / max_value
+        # No spread at all: perfectly non-uniform
+        if max_value == min_value:
+            return 1
+        scaled_values = (data_slice[self.col] - min_value) / (max_value - min_value)
         scaled_values.sort()  # Just to be sure
         n_cum = np.arange(0, scaled_values.size) / float(scaled_values.size - 1)
         d_max = np.max(np.abs(n_cum - scaled_values))
-- 
2.43.0


From a3051168e00a111c458a42f1f361fd2775e11eba Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:16:05 +0000
Subject: [PATCH 07/80] fix: SaturationStacker marks the saturated visit
 itself, not the visit at that position in the whole table

---
 rubin_sim/maf/stackers/general_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index 7f394bd..0bbcbd2 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -114,7 +114,7 @@ class SaturationStacker(BaseStacker):
                 sim_data[self.airmass_col][in_filt] - 1.0
             )
             # Explicitly make sure if sky has saturated we return NaN
-            sim_data["saturation_mag"][np.where(remaining_counts_peak < 0)] = np.nan
+            sim_data["saturation_mag"][in_filt[np.where(remaining_counts_peak < 0)]] = np.nan
 
         return sim_data
 
-- 
2.43.0


From 6abc8fbfc256a95f1306a8c172e1cd5098a0e8e8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:16:05 +0000
Subject: [PATCH 08/80] fix: SaturationStacker loads the extinction when only
 zeropoints are given

---
 rubin_sim/maf/stackers/general_stackers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index 0bbcbd2..22fdb00 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -81,11 +81,12 @@ class SaturationStacker(BaseStacker):
         self.km = km
 
     def _run(self, sim_data, cols_present=False):
-        if self.zeropoints is None:
+        if self.zeropoints is None or self.km is None:
             zp_inst, k_atm = load_inst_zeropoints()
-            self.zeropoints = zp_inst
-        if self.km is None:
-            self.km = k_atm
+            if self.zeropoints is None:
+                self.zeropoints = zp_inst
+            if self.km is None:
+                self.km = k_atm
         for filtername in np.unique(sim_data[self.filter_col]):
             in_filt = np.where(sim_data[self.filter_col] == filtername)[0]
             # Calculate the length of the on-sky time per EXPOSURE
-- 
2.43.0


From 7334f40b4720defe86d1c36d06022dafd44f1e99 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:16:05 +0000
Subject: [PATCH 09/80] fix: Dcr2Stacker keeps the zenith distance stacker it
 is given

---
 rubin_sim/maf/stackers/general_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/general_stackers.py b/rubin_sim/maf/stackers/general_stackers.py
index 22fdb00..45b104a 100644
--- a/rubin_sim/maf/stackers/general_stackers.py
+++ b/rubin_sim/maf/stackers/general_stackers.py
@@ -591,7 +591,7 @@ class Dcr2Stacker(BaseStacker):
         if zstacker is None:
             self.zstacker = ZenithDistStacker(alt_col=alt_col, degrees=self.degrees)
         else:
-            self.ztacker = zstacker
+            self.zstacker = zstacker
 
         if pastacker is None:
             self.pastacker = ParallacticAngleStacker(
-- 
2.43.0


From 9f9e0f883dd723fe4746b465ac3616811eea0449 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:16:05 +0000
Subject: [PATCH 10/80] fix: EclipticStacker gives the format of its times, so
 subtract_sun_lon works

---
 rubin_sim/maf/stackers/coord_stackers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/coord_stackers.py b/rubin_sim/maf/stackers/coord_stackers.py
index eab5663..8f86411 100644
--- a/rubin_sim/maf/stackers/coord_stackers.py
+++ b/rubin_sim/maf/stackers/coord_stackers.py
@@ -176,7 +176,7 @@ class EclipticStacker(BaseStacker):
             sim_data["eclipLat"] = coord_ecl.lat.rad
 
             if self.subtract_sun_lon:
-                times = Time(sim_data[self.mjd_col])
+                times = Time(sim_data[self.mjd_col], format="mjd")
                 sun = get_sun(times)
                 sun_ecl = sun.geocentricmeanecliptic
                 lon = wrap_ra(coord_ecl.lon.rad - sun_ecl.lon.rad)
-- 
2.43.0


From 9eea93c1af4e98af176c8d1b43d0d96ddaa06012 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:16:52 +0000
Subject: [PATCH 11/80] fix: NFollowStacker passes latitude and longitude in
 the order ra_dec2_alt_az takes them

---
 rubin_sim/maf/stackers/n_follow_stacker.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/stackers/n_follow_stacker.py b/rubin_sim/maf/stackers/n_follow_stacker.py
index 692eb9b..b0948e9 100644
--- a/rubin_sim/maf/stackers/n_follow_stacker.py
+++ b/rubin_sim/maf/stackers/n_follow_stacker.py
@@ -171,8 +171,8 @@ class NFollowStacker(BaseStacker):
                 alt, az = ra_dec2_alt_az(
                     ra,
                     dec,
-                    obs_lon,
                     obs_lat,
+                    obs_lon,
                     sim_data[self.mjd_col] + step / 24.0,
                     altonly=True,
                 )
-- 
2.43.0


From 403352e7e1607104d6eca982a15c4a6af7177e98 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:22:22 +0000
Subject: [PATCH 12/80] fix: WFDlabelStacker works on a table with a single
 visit

---
 rubin_sim/maf/stackers/label_stackers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/rubin_sim/maf/stackers/label_stackers.py b/rubin_sim/maf/stackers/label_stackers.py
index 5b51851..ca68575 100644
--- a/rubin_sim/maf/stackers/label_stackers.py
+++ b/rubin_sim/maf/stackers/label_stackers.py
@@ -88,8 +88,7 @@ class WFDlabelStacker(BaseStacker):
             if p.startswith("DD"):
                 d.add(self.define_ddname(p))
         # Identify Healpixels associated with each visit.
-        vec = hp.dir2vec(sim_data[self.ra_col], sim_data[self.dec_col], lonlat=True)
-        vec = vec.swapaxes(0, 1)
+        vec = hp.ang2vec(sim_data[self.ra_col], sim_data[self.dec_col], lonlat=True)
         radius = np.radians(1.75)  # fov radius
         area_id = np.zeros(len(sim_data), self.cols_added_dtypes[0])
         for i, (v, note) in enumerate(zip(vec, sim_data[self.note_col])):
-- 
2.43.0


From b297209dfbdd56b43caab53a5f7e207e9db61ba3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:53:04 +0000
Subject: [PATCH 13/80] fix: multiply_sed and renormalize_sed use the 0.1 nm
 default wavelength step

PhysicalParameters has no wavelenstep, so both always raised without an explicit step.
---
 rubin_sim/phot_utils/sed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index ca1523c..71aac28 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1146,7 +1146,7 @@ class Sed:
         """
 
         if wavelen_step is None:
-            wavelen_step = self._phys_params.wavelenstep
+            wavelen_step = 0.1
 
         # Check if the wavelength arrays are equal
         # (in which case do not resample)
@@ -1430,7 +1430,7 @@ class Sed:
         # Start normalizing wavelen/flambda.
 
         if wavelen_step is None:
-            wavelen_step = self._phys_params.wavelenstep
+            wavelen_step = 0.1
 
         if normflux == "flambda":
             update_self = self._check_use_self(wavelen, flambda)
-- 
2.43.0


From 81c6272a1d496687d6f1ea85e27fb7a84406cf39 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:53:04 +0000
Subject: [PATCH 14/80] fix: spectra and throughputs on grids of different
 length can be multiplied

---
 rubin_sim/phot_utils/bandpass.py | 2 +-
 rubin_sim/phot_utils/sed.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/bandpass.py b/rubin_sim/phot_utils/bandpass.py
index 02abb87..7ca0a85 100644
--- a/rubin_sim/phot_utils/bandpass.py
+++ b/rubin_sim/phot_utils/bandpass.py
@@ -339,7 +339,7 @@ class Bandpass:
         This method does not affect self.
         """
         # Resample wavelen_other/sb_other to match this bandpass.
-        if not np.all(self.wavelen == wavelen_other):
+        if not np.array_equal(self.wavelen, wavelen_other):
             wavelen_other, sb_other = self.resample_bandpass(
                 wavelen=wavelen_other,
                 sb=sb_other,
diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 71aac28..f2e5cdc 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1150,7 +1150,7 @@ class Sed:
 
         # Check if the wavelength arrays are equal
         # (in which case do not resample)
-        if numpy.all(self.wavelen == other_sed.wavelen):
+        if numpy.array_equal(self.wavelen, other_sed.wavelen):
             flambda = self.flambda * other_sed.flambda
             new_sed = Sed(self.wavelen, flambda=flambda)
         else:
-- 
2.43.0


From f1a85c75ae75c05352a04a08e6d767f7bd8fe8f5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:53:04 +0000
Subject: [PATCH 15/80] fix: dust coefficients at exactly 5.9 inverse microns
 are no longer zero

---
 rubin_sim/phot_utils/sed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index f2e5cdc..e242ef1 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -981,7 +981,7 @@ class Sed:
             y = x[condition]
             a_x[condition] = 1.752 - 0.316 * y - 0.104 / ((y - 4.67) ** 2 + 0.341)
             b_x[condition] = -3.090 + 1.825 * y + 1.206 / ((y - 4.62) ** 2 + 0.263)
-        condition = (x > 5.9) & (x < 8)
+        condition = (x >= 5.9) & (x < 8)
         if len(a_x[condition]) > 0:
             y = x[condition]
             fa_x = numpy.empty(len(a_x[condition]), dtype=float)
@@ -1043,7 +1043,7 @@ class Sed:
             y = x[condition]
             a_x[condition] = 1.752 - 0.316 * y - 0.104 / ((y - 4.67) ** 2 + 0.341)
             b_x[condition] = -3.090 + 1.825 * y + 1.206 / ((y - 4.62) ** 2 + 0.263)
-        condition = (x > 5.9) & (x < 8)
+        condition = (x >= 5.9) & (x < 8)
         if len(a_x[condition]) > 0:
             y = x[condition]
             fa_x = numpy.empty(len(a_x[condition]), dtype=float)
-- 
2.43.0


From 91f4a450edafb3ccb0ba0ba1724c28e87d26c893 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:53:28 +0000
Subject: [PATCH 16/80] fix: clear_sed restores the zeropoint a new Sed has

---
 rubin_sim/phot_utils/sed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index e242ef1..385fba8 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -652,7 +652,7 @@ class Sed:
         self.wavelen = None
         self.fnu = None
         self.flambda = None
-        self.zp = -8.9
+        self.zp = -2.5 * numpy.log10(3631)
         self.name = None
         return
 
-- 
2.43.0


From 1bfdccdab65bbb9e1295116e50f87767895e4644 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:53:28 +0000
Subject: [PATCH 17/80] fix: renormalize_sed can normalise fnu

It interpolated flambda (None) and called a method that does not exist.
---
 rubin_sim/phot_utils/sed.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 385fba8..028376d 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1502,7 +1502,7 @@ class Sed:
                     + "is outside defined wavelength range."
                 )
             if gap == 0:
-                fnu_atpt = numpy.interp(lambdanorm, wavelen, flambda, left=None, right=None)
+                fnu_atpt = numpy.interp(lambdanorm, wavelen, fnu, left=None, right=None)
                 gapval = fnu_atpt
             else:
                 lambdapt = numpy.arange(lambdanorm - gap, lambdanorm + gap, wavelen_step, dtype=float)
@@ -1516,7 +1516,7 @@ class Sed:
                 )
             konst = normvalue / gapval
             fnu = fnu * konst
-            wavelen, flambda = self.fnutoflambda(wavelen, fnu)
+            wavelen, flambda = self.fnu_toflambda(wavelen, fnu)
         if update_self:
             self.wavelen = wavelen
             self.flambda = flambda
-- 
2.43.0


From 63f10c0d1c091b25f5480dc114cf353c0dbad124 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:53:28 +0000
Subject: [PATCH 18/80] fix: write_sed(print_fnu=True) writes the fnu of each
 wavelength

---
 rubin_sim/phot_utils/sed.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/rubin_sim/phot_utils/sed.py b/rubin_sim/phot_utils/sed.py
index 028376d..1dbaa13 100644
--- a/rubin_sim/phot_utils/sed.py
+++ b/rubin_sim/phot_utils/sed.py
@@ -1565,7 +1565,6 @@ class Sed:
             print("# Wavelength(nm)  Flambda(ergs/cm^s/s/nm)", file=f)
         for i in range(0, len(wavelen), 1):
             if print_fnu:
-                fnu = self.flambda_tofnu(wavelen=wavelen, flambda=flambda)
                 print(wavelen[i], flambda[i], fnu[i], file=f)
             else:
                 print("%.2f %.7g" % (wavelen[i], flambda[i]), file=f)
-- 
2.43.0


From a2c337cc8a3502d11a08c704c2cb1cc513d0b289 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 14:53:28 +0000
Subject: [PATCH 19/80] fix: calc_m5 solves for the five-sigma counts with the
 gain squared

Counts c with c / sqrt(c / gain + v_n) = snr are
snr^2/(2 gain) + sqrt(snr^4/(4 gain^2) + snr^2 v_n).
---
 rubin_sim/phot_utils/signaltonoise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/phot_utils/signaltonoise.py b/rubin_sim/phot_utils/signaltonoise.py
index fcaab27..6497b76 100644
--- a/rubin_sim/phot_utils/signaltonoise.py
+++ b/rubin_sim/phot_utils/signaltonoise.py
@@ -292,7 +292,7 @@ def calc_m5(skysed, total_bandpass, hardware, phot_params, fwhm_eff=0.83):
     v_n = calc_total_non_source_noise_sq(skysed, hardware, phot_params, fwhm_eff)
 
     counts_5sigma = (snr**2) / 2.0 / phot_params.gain + numpy.sqrt(
-        (snr**4) / 4.0 / phot_params.gain + (snr**2) * v_n
+        (snr**4) / 4.0 / phot_params.gain**2 + (snr**2) * v_n
     )
 
     # renormalize flatsource so that it has the required counts to be a
-- 
2.43.0


From 8d91773ce2e45b4478a5b2c73b7bfc2078d38094 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:27:53 +0000
Subject: [PATCH 20/80] fix: ChebyValues puts each segment's values in the row
 of its own object

Rows were filled in the order in which matching segments are stored, so when
one object had no segment at a time (or segments were not stored in the same
order at every time) values went to the rows of other objects, and the
objects left over were reported at 0.
---
 rubin_sim/moving_objects/cheby_values.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_values.py b/rubin_sim/moving_objects/cheby_values.py
index 6137443..e556e9f 100644
--- a/rubin_sim/moving_objects/cheby_values.py
+++ b/rubin_sim/moving_objects/cheby_values.py
@@ -194,7 +194,7 @@ class ChebyValues:
         # Now find ephemeris values.
         ephemerides["time"] = np.zeros((len(ephemerides["obj_id"]), ntimes), float) + times
         for k in self.ephemeris_keys:
-            ephemerides[k] = np.zeros((len(ephemerides["obj_id"]), ntimes), float)
+            ephemerides[k] = np.full((len(ephemerides["obj_id"]), ntimes), np.nan)
         for it, t in enumerate(times):
             # Find subset of segments which contain the appropriate time.
             # Look for simplest subset first.
@@ -218,13 +218,13 @@ class ChebyValues:
                     # Not extrapolating, but outside the
                     # simple match case above.
                     segments = np.where(self.coeffs["t_end"][obj_match] == seg_end)[0]
-            for i, segmentIdx in enumerate(segments):
+            for segmentIdx in segments:
                 ephemeris = self._eval_segment(segmentIdx, t, obj_match, mask=False)
+                row = np.asarray(ephemerides["obj_id"]) == self.coeffs["obj_id"][obj_match][segmentIdx]
                 for k in self.ephemeris_keys:
-                    ephemerides[k][i][it] = ephemeris[k]
-                ephemerides["obj_id"][i] = self.coeffs["obj_id"][obj_match][segmentIdx]
+                    ephemerides[k][row, it] = ephemeris[k]
         if obj_ids is not None:
-            if set(ephemerides["obj_id"]) != set(obj_ids):
+            if set(self.coeffs["obj_id"][obj_match]) != set(obj_ids):
                 raise ValueError(
                     "Did not find expected match between obj_ids provided and ephemeride obj_ids."
                 )
-- 
2.43.0


From 9333ce90c7a9f9f22cc74ebc30bbe3a30577f29d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:27:53 +0000
Subject: [PATCH 21/80] fix: rectangular field of view handles pointings in
 radians and RA across 0/360

---
 rubin_sim/moving_objects/base_obs.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/moving_objects/base_obs.py b/rubin_sim/moving_objects/base_obs.py
index 0e2ae63..d5ac68d 100644
--- a/rubin_sim/moving_objects/base_obs.py
+++ b/rubin_sim/moving_objects/base_obs.py
@@ -395,8 +395,16 @@ class BaseObs:
         return self._sso_in_rectangle_fov(ephems, obs_data, self.x_tol, self.y_tol)
 
     def _sso_in_rectangle_fov(self, ephems, obs_data, x_tol, y_tol):
-        delta_dec = np.abs(ephems["dec"] - obs_data[self.obs_dec])
-        delta_ra = np.abs((ephems["ra"] - obs_data[self.obs_ra]) * np.cos(np.radians(obs_data[self.obs_dec])))
+        if not self.obs_degrees:
+            obs_ra = np.degrees(obs_data[self.obs_ra])
+            obs_dec = np.degrees(obs_data[self.obs_dec])
+        else:
+            obs_ra = obs_data[self.obs_ra]
+            obs_dec = obs_data[self.obs_dec]
+        delta_dec = np.abs(ephems["dec"] - obs_dec)
+        # Smallest difference in RA, also across RA=0/360.
+        delta_ra = (ephems["ra"] - obs_ra + 180.0) % 360.0 - 180.0
+        delta_ra = np.abs(delta_ra * np.cos(np.radians(obs_dec)))
         idx_obs = np.where((delta_dec <= y_tol) & (delta_ra <= x_tol))[0]
         return idx_obs
 
-- 
2.43.0


From ab84be4954c4a752d81c0cefb69eb3fbdce0c136 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:35:53 +0000
Subject: [PATCH 22/80] fix: circular field of view accepts a single
 observation

angular_separation returns a number for arrays of length one, and np.where
refuses zero-dimensional arrays.
---
 rubin_sim/moving_objects/base_obs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/base_obs.py b/rubin_sim/moving_objects/base_obs.py
index d5ac68d..3ffa4d5 100644
--- a/rubin_sim/moving_objects/base_obs.py
+++ b/rubin_sim/moving_objects/base_obs.py
@@ -371,7 +371,7 @@ class BaseObs:
                 obs_data[self.obs_ra],
                 obs_data[self.obs_dec],
             )
-        idx_obs = np.where(sep <= r_fov)[0]
+        idx_obs = np.where(np.atleast_1d(sep) <= r_fov)[0]
         return idx_obs
 
     def sso_in_rectangle_fov(self, ephems, obs_data):
-- 
2.43.0


From 33e039cd2fc1a50c52f79c0607c8b3224f850a9b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:56:47 +0000
Subject: [PATCH 23/80] fix: DiscoveryMetric uses time-ordered indices
 throughout

The nights were found in the time-ordered detections but looked up, sliced and
reported with indices of the unordered ones, so an object whose observations
are not in time order lost or gained discoveries.
---
 rubin_sim/maf/metrics/mo_metrics.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index a06e2a1..1eebbfd 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -436,7 +436,7 @@ class DiscoveryMetric(BaseMoMetric):
             & (n_idx_many_end + 1 - n_idx_many > self.n_obs_per_night)
             & (times_end - times_start > self.t_max)
         )[0]
-        for i, j, c in zip(vis_sort[n_idx_many][check], vis_sort[n_idx_many_end][check], check):
+        for i, j, c in zip(n_idx_many[check], n_idx_many_end[check], check):
             t = sso_obs[self.mjd_col][vis][vis_sort][i : j + 1]
             dtimes = (np.roll(t, 1 - self.n_obs_per_night) - t)[:-1]
             tidx = np.where((dtimes >= self.t_min) & (dtimes <= self.t_max))[0]
@@ -445,14 +445,14 @@ class DiscoveryMetric(BaseMoMetric):
         # 'good' provides mask for observations which could count as
         # 'good to make tracklets' against sso_obs[vis_sort][n_idx_many].
         # Now identify tracklets which can make tracks.
-        good_idx = vis_sort[n_idx_many][good == 1]
-        good_idx_ends = vis_sort[n_idx_many_end][good == 1]
+        good_idx = n_idx_many[good == 1]
+        good_idx_ends = n_idx_many_end[good == 1]
         # print 'good tracklets', nights[good_idx]
         if len(good_idx) < self.n_nights_per_window:
             return self.badval
         delta_nights = (
-            np.roll(sso_obs[self.night_col][vis][good_idx], 1 - self.n_nights_per_window)
-            - sso_obs[self.night_col][vis][good_idx]
+            np.roll(nights[good_idx], 1 - self.n_nights_per_window)
+            - nights[good_idx]
         )
         # Identify the index in sso_obs[vis][good_idx] (sorted by mjd)
         # where the discovery opportunity starts.
@@ -461,8 +461,7 @@ class DiscoveryMetric(BaseMoMetric):
         end_idxs = np.zeros(len(start_idxs), dtype="int")
         for i, sIdx in enumerate(start_idxs):
             in_window = np.where(
-                sso_obs[self.night_col][vis][good_idx] - sso_obs[self.night_col][vis][good_idx][sIdx]
-                <= self.t_window
+                nights[good_idx] - nights[good_idx][sIdx] <= self.t_window
             )[0]
             end_idxs[i] = in_window.max()
         # Convert back to index based on sso_obs[vis] (sorted by expMJD).
-- 
2.43.0


From b9bbb63f7f634643087e310c690782776e00858a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:56:47 +0000
Subject: [PATCH 24/80] fix: DiscoveryVelocityMetric can be created (misspelt
 attribute)

---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 1eebbfd..a9b41be 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -685,7 +685,7 @@ class DiscoveryVelocityMetric(BaseChildMetric):
     def __init__(self, parent_discovery_metric, badval=-999, **kwargs):
         super().__init__(parent_discovery_metric, badval=badval, **kwargs)
         self.i = 0
-        self.snr_limit = parent_discovery_metric.snrLimit
+        self.snr_limit = parent_discovery_metric.snr_limit
 
     def run(self, sso_obs, orb, hval, metric_values):
         if self.i >= len(metric_values["start"]):
-- 
2.43.0


From ed0eb995c4191c88df381ed629cc70f68b51e1dc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:56:47 +0000
Subject: [PATCH 25/80] fix: MagicDiscoveryMetric counts the nights of the
 detections

The nights of all observations were sorted before the indices of the
detections were applied to them.
---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index a9b41be..62fe8e3 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -869,7 +869,7 @@ class MagicDiscoveryMetric(BaseMoMetric):
         vis = _set_vis(sso_obs, self.snr_limit, self.snr_col, self.vis_col)
         if len(vis) < self.n_obs:
             return self.badval
-        t_nights = np.sort(sso_obs[self.night_col])[vis]
+        t_nights = np.sort(sso_obs[self.night_col][vis])
         u_nights = np.unique(t_nights)
         indx_w = np.searchsorted(t_nights, u_nights, "left")
         indx_p = np.searchsorted(t_nights - self.t_window, u_nights, "left")
-- 
2.43.0


From 39c6dc02336ff8a1185803a9292545b65d5c3c94 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:56:47 +0000
Subject: [PATCH 26/80] fix: InstantaneousColorMetric only accepts pairs within
 n_hours

An observation in the second band before any in the first was compared to the
first of these and its negative time difference always accepted; and only
earlier observations in the first band were considered as the closest.
---
 rubin_sim/maf/metrics/mo_metrics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 62fe8e3..1ba88ee 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -1325,15 +1325,16 @@ class InstantaneousColorMetric(BaseMoMetric):
             return 0
         b_one_obs = np.where(sso_obs[self.filter_col][vis] == self.b_one)[0]
         b_two_obs = np.where(sso_obs[self.filter_col][vis] == self.b_two)[0]
-        timesb_one = sso_obs[self.mjd_col][vis][b_one_obs]
+        timesb_one = np.sort(sso_obs[self.mjd_col][vis][b_one_obs])
         timesb_two = sso_obs[self.mjd_col][vis][b_two_obs]
         if len(timesb_one) == 0 or len(timesb_two) == 0:
             return 0
         d_time = self.n_hours / 24.0
         # Calculate the time between the closest pairs of observations.
         in_order = np.searchsorted(timesb_one, timesb_two, "right")
-        in_order = np.where(in_order - 1 > 0, in_order - 1, 0)
-        dt_pairs = timesb_two - timesb_one[in_order]
+        before = timesb_one[np.maximum(in_order - 1, 0)]
+        after = timesb_one[np.minimum(in_order, len(timesb_one) - 1)]
+        dt_pairs = np.minimum(np.abs(timesb_two - before), np.abs(timesb_two - after))
         if len(np.where(dt_pairs < d_time)[0]) >= self.n_pairs:
             found = 1
         else:
-- 
2.43.0


From b4e63c0cc917492d61ef29dd6c9e838e19cd6a19 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:56:47 +0000
Subject: [PATCH 27/80] fix: ActivityOverTimeMetric divides by the number of
 windows

It divided by the number of window edges, so an object seen in every window
did not reach one.
---
 rubin_sim/maf/metrics/mo_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 1ba88ee..2274744 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -735,7 +735,7 @@ class ActivityOverTimeMetric(BaseMoMetric):
         self.window = window
         self.survey_years = survey_years
         self.window_bins = np.arange(0, self.survey_years * 365 + self.window / 2.0, self.window)
-        self.n_windows = len(self.window_bins)
+        self.n_windows = len(self.window_bins) - 1
         self.units = "%.1f Day Windows" % (self.window)
 
     def run(self, sso_obs, orb, hval):
-- 
2.43.0


From 0b3043bf601acf7f79e6dfa2de33c452d0f68051 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:56:47 +0000
Subject: [PATCH 28/80] fix: HighVelocityNightsMetric returns the time of a
 high velocity detection

It returned the first observation of the night, detected or not, and needed
the detections in night order to count them.
---
 rubin_sim/maf/metrics/mo_metrics.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_metrics.py b/rubin_sim/maf/metrics/mo_metrics.py
index 2274744..2becebb 100644
--- a/rubin_sim/maf/metrics/mo_metrics.py
+++ b/rubin_sim/maf/metrics/mo_metrics.py
@@ -962,18 +962,14 @@ class HighVelocityNightsMetric(BaseMoMetric):
         if len(high_velocity_obs) == 0:
             return 0
         nights = sso_obs[self.night_col][vis][high_velocity_obs]
-        n = np.unique(nights)
-        n_idx = np.searchsorted(nights, n)
-        # Count the number of observations per night (except last night)
-        obs_per_night = (n_idx - np.roll(n_idx, 1))[1:]
-        # Add the number of observations on the last night.
-        obs_last_night = np.array([len(nights) - n_idx[-1]])
-        obs_per_night = np.concatenate((obs_per_night, obs_last_night))
+        # Count the number of observations per night
+        n, obs_per_night = np.unique(nights, return_counts=True)
         # Find the nights with at least nObsPerNight visits
         # (this is already looking at only high velocity observations).
         n_with_x_obs = n[np.where(obs_per_night >= self.n_obs_per_night)]
         if len(n_with_x_obs) > 0:
-            found = sso_obs[np.where(sso_obs[self.night_col] == n_with_x_obs[0])][self.mjd_col][0]
+            times = sso_obs[self.mjd_col][vis][high_velocity_obs]
+            found = times[nights == n_with_x_obs[0]].min()
         else:
             found = self.badval
         return found
-- 
2.43.0


From 3b1ec1f7df6a3de3e65f121d417cff070c4ffc45 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:56:47 +0000
Subject: [PATCH 29/80] fix: pha_dndh_grav always raised (subscripted np.diff)

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 451d8a1..98c9c8e 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -77,7 +77,7 @@ def pha_dndh_granvik(hvalues, **kwargs):
 
 
 def pha_dndh_grav(hvalues, **kwargs):
-    binratio = (np.diff(hvalues, append=hvalues[-1] + np.diff[hvalues][-1])) / 0.1
+    binratio = (np.diff(hvalues, append=hvalues[-1] + np.diff(hvalues)[-1])) / 0.1
     y1 = 23.5 * np.power(10, 0.35 * (hvalues - 18.5))
     dndh = y1 * binratio
     return dndh
-- 
2.43.0


From e612b764c3797cf62478b4d3cf9d913812293051 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:56:47 +0000
Subject: [PATCH 30/80] fix: completeness metrics use their power-law index

MoCompletenessMetric passed it under a name that was ignored and
MoCompletenessAtTimeMetric did not pass it.
---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index 98c9c8e..fd6c04f 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -352,7 +352,7 @@ class MoCompletenessMetric(BaseMoMetric):
             completeness = n_found.astype(float) / n_all.astype(float)
             completeness = np.where(n_all == 0, 0, completeness)
         if self.cumulative:
-            completeness_int = integrate_over_h(completeness, h_vals, power_law_dndh, Hindex=self.hindex)
+            completeness_int = integrate_over_h(completeness, h_vals, power_law_dndh, hindex=self.hindex)
             summary_val = np.empty(len(completeness_int), dtype=[("name", np.str_, 20), ("value", float)])
             summary_val["value"] = completeness_int
             for i, Hval in enumerate(h_vals):
@@ -447,7 +447,7 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
         completeness = completeness_h.swapaxes(0, 1)
         if self.cumulative:
             for i, t in enumerate(self.times):
-                completeness[i] = integrate_over_h(completeness[i], h_vals)
+                completeness[i] = integrate_over_h(completeness[i], h_vals, hindex=self.hindex)
         # To save the summary statistic, we must pick out a given H value.
         if self.hval is None:
             hidx = len(h_vals) // 2
-- 
2.43.0


From ba52322f6a6e3919a7c0df8b1399b3e580f59f98 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:56:47 +0000
Subject: [PATCH 31/80] fix: MoCompletenessMetric bins objects by H

Without a cloned H distribution the metric values themselves, not the H
values of the objects, were histogrammed in the bins of H. A range shorter
than min_hrange is widened around its middle, so that it keeps all objects.
---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index fd6c04f..f1734b0 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -342,13 +342,14 @@ class MoCompletenessMetric(BaseMoMetric):
             min_h = h_vals.min()
             if hrange < self.min_hrange:
                 hrange = self.min_hrange
-                min_h = h_vals.min() - hrange / 2.0
+                min_h = (h_vals.min() + h_vals.max()) / 2.0 - hrange / 2.0
             stepsize = hrange / float(self.nbins)
             bins = np.arange(min_h, min_h + hrange + stepsize / 2.0, stepsize)
+            h_objects = np.asarray(h_vals)
             h_vals = bins[:-1]
-            n_all, b = np.histogram(metric_val_h[0], bins)
-            condition = np.where(metric_val_h[0] >= self.threshold)[0]
-            n_found, b = np.histogram(metric_val_h[0][condition], bins)
+            n_all, b = np.histogram(h_objects, bins)
+            condition = np.where(metric_val_h[0].filled(0) >= self.threshold)[0]
+            n_found, b = np.histogram(h_objects[condition], bins)
             completeness = n_found.astype(float) / n_all.astype(float)
             completeness = np.where(n_all == 0, 0, completeness)
         if self.cumulative:
-- 
2.43.0


From 855a13b6e9ae8a0d14130cb17b32bc183c09b331 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:56:47 +0000
Subject: [PATCH 32/80] fix: MoCompletenessAtTimeMetric can be created without
 an H value

---
 rubin_sim/maf/metrics/mo_summary_metrics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/mo_summary_metrics.py b/rubin_sim/maf/metrics/mo_summary_metrics.py
index f1734b0..d53c6ae 100644
--- a/rubin_sim/maf/metrics/mo_summary_metrics.py
+++ b/rubin_sim/maf/metrics/mo_summary_metrics.py
@@ -394,6 +394,7 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
 
     def __init__(self, times, hval=None, cumulative=None, hindex=0.33, **kwargs):
         self.hval = hval
+        at_h = "" if hval is None else "@H=%.2f" % hval
         self.times = times
         self.hindex = hindex
         if cumulative is None:
@@ -401,7 +402,7 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
             # then cumulative->True
             if "metric_name" not in kwargs:
                 self.cumulative = True
-                metric_name = "CumulativeCompleteness@Time@H=%.2f" % self.hval
+                metric_name = "CumulativeCompleteness@Time" + at_h
             else:
                 #  'metric_name' in kwargs:
                 metric_name = kwargs.pop("metric_name")
@@ -418,9 +419,9 @@ class MoCompletenessAtTimeMetric(BaseMoMetric):
                     warnings.warn(f"Completeness metric_name is {metric_name} but cumulative is True")
             else:
                 if self.cumulative:
-                    metric_name = "CumulativeCompleteness@Time@H=%.2f" % self.hval
+                    metric_name = "CumulativeCompleteness@Time" + at_h
                 else:
-                    metric_name = "DifferentialCompleteness@Time@H=%.2f" % self.hval
+                    metric_name = "DifferentialCompleteness@Time" + at_h
         self._set_labels()
         super().__init__(metric_name=metric_name, units=self.units, **kwargs)
 
-- 
2.43.0


From e568ef29f33b64ad4c016af0f212a1475ce6d2a4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 15:56:47 +0000
Subject: [PATCH 33/80] fix: moving object bundles run with their own stackers
 only

A bundle could join a group other than the one it was compatible with, and
the stackers of every bundle in the dictionary were run for each group, so
one bundle's magnitudes were overwritten by those of an incompatible one.
---
 rubin_sim/maf/metric_bundles/mo_metric_bundle.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
index 5a51260..3853f22 100644
--- a/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/mo_metric_bundle.py
@@ -468,6 +468,8 @@ class MoMetricBundleGroup:
                             # so stop and go onto the next subset.
                             found_compatible = False
                             break
+                    if found_compatible:
+                        break
                 checked_all = True
             if found_compatible:
                 compatible_list.append(k)
@@ -531,7 +533,7 @@ class MoMetricBundleGroup:
         all_stackers = []
         uniq_maps = []
         all_maps = []
-        for b in b_dict.values():
+        for b in (b_dict[k] for k in compatible_list):
             all_stackers += b.stacker_list
             all_maps += b.maps_list
         for s in all_stackers:
-- 
2.43.0


From 01e470b299e38bd5ebfde1741c746feae27ed1c8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:02:23 +0000
Subject: [PATCH 34/80] fix: moving object slicer finds observations of objects
 with text names

Recent pandas gives text columns their own dtype rather than object.
---
 rubin_sim/maf/slicers/mo_slicer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/mo_slicer.py b/rubin_sim/maf/slicers/mo_slicer.py
index 70b367d..0524030 100644
--- a/rubin_sim/maf/slicers/mo_slicer.py
+++ b/rubin_sim/maf/slicers/mo_slicer.py
@@ -129,7 +129,7 @@ class MoObjSlicer(BaseSlicer):
         # Find the matching orbit.
         orb = self.orbits.iloc[idx]
         # Find the matching observations.
-        if self.obs["obj_id"].dtype == "object":
+        if not pd.api.types.is_numeric_dtype(self.obs["obj_id"]):
             obs = self.obs.query('obj_id == "%s"' % (orb["obj_id"]))
         else:
             obs = self.obs.query("obj_id == %d" % (orb["obj_id"]))
-- 
2.43.0


From 53307718790618eb282b64ded9832d72b391c4e7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:08:01 +0000
Subject: [PATCH 35/80] fix: check_pointings accepts a single satellite above
 the horizon

point_to_line_distance gives a number for arrays of length one, and np.where
refuses zero-dimensional arrays.
---
 rubin_sim/satellite_constellations/sat_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/satellite_constellations/sat_utils.py b/rubin_sim/satellite_constellations/sat_utils.py
index 84df331..df5879a 100644
--- a/rubin_sim/satellite_constellations/sat_utils.py
+++ b/rubin_sim/satellite_constellations/sat_utils.py
@@ -424,7 +424,7 @@ class Constellation:
             pointing_decs_rad[above_illum_indx],
         )
 
-        close = np.where(distances < test_radius_rad)[0]
+        close = np.where(np.atleast_1d(distances) < test_radius_rad)[0]
 
         # Numpy broadcasting is such a dark art
         sat_indx = np.arange(len(self.sat_list), dtype=int)[np.newaxis]
-- 
2.43.0


From b422273247bbab9d6201e8d917c7e0dfc39f2f6a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:18:42 +0000
Subject: [PATCH 36/80] fix: the sky mask of a component is of the points it
 was computed for

A component is only computed for the points inside the airmass limits, but
its empty rows were used as indices of all points, so with an airmass limit
of 2.5 or less other points could lose their sky.
---
 rubin_sim/skybrightness/sky_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index b0518f5..8060825 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -685,7 +685,7 @@ class SkyModel:
                     self.spec[self.mask, :] = np.nan
                     return
                 if np.max(result["spec"]) > 0:
-                    mask[np.where(np.sum(result["spec"], axis=1) == 0)] = 0
+                    mask[self.good_pix[np.sum(result["spec"], axis=1) == 0]] = 0
                 self.spec[self.good_pix] += result["spec"]
                 if not hasattr(self, "wave"):
                     self.wave = result["wave"]
-- 
2.43.0


From 69bcab1f17e95cc3f295757a82e8c59706a7853e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:18:42 +0000
Subject: [PATCH 37/80] fix: set_params measures the moon distance with its
 azimuth in radians

---
 rubin_sim/skybrightness/sky_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index 8060825..6a96a18 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -609,7 +609,7 @@ class SkyModel:
         else:
             self.airmass = airmass
             self.alts = np.pi / 2.0 - np.arccos(1.0 / airmass)
-        self.moon_targ_sep = haversine(self.azs, self.alts, moon_az, self.moon_alt)
+        self.moon_targ_sep = haversine(self.azs, self.alts, self.moon_az, self.moon_alt)
         self.npts = np.size(self.airmass)
         self._init_points()
 
-- 
2.43.0


From ea78cec2e041828442e1ca8469bbd90aa4f25607 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:18:42 +0000
Subject: [PATCH 38/80] fix: return_mags does not need right ascensions

Conditions given by set_params have none, so integrating the spectra raised.
---
 rubin_sim/skybrightness/sky_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index 6a96a18..5ccdfaf 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -759,7 +759,7 @@ class SkyModel:
                 min_wave = bandpasses[key].wavelen[is_through].min()
                 max_wave = bandpasses[key].wavelen[is_through].max()
                 in_band = np.where((self.wave >= min_wave) & (self.wave <= max_wave))
-                for i, ra in enumerate(self.ra):
+                for i in range(self.npts):
                     # Check that there is flux in the band,
                     # otherwise calc_mag fails
                     if np.max(self.spec[i, in_band]) > 0:
-- 
2.43.0


From e939e0c9ed90908432a7e1a54bac7cb5c89f78fc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:18:57 +0000
Subject: [PATCH 39/80] fix: set_params without a point in range forgets the
 previous sky

The magnitudes or spectra of the previous call were returned.
---
 rubin_sim/skybrightness/sky_model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/skybrightness/sky_model.py b/rubin_sim/skybrightness/sky_model.py
index 5ccdfaf..5d7ea9d 100644
--- a/rubin_sim/skybrightness/sky_model.py
+++ b/rubin_sim/skybrightness/sky_model.py
@@ -645,6 +645,7 @@ class SkyModel:
             self._interp_sky()
         else:
             warnings.warn("No points in interpolation range")
+            self.spec = np.full((self.npts, self.npix), np.nan)
 
     def _interp_sky(self):
         """
-- 
2.43.0


From f7a204312cca2cd4c61c8cf931b109f31c78f709 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:22:45 +0000
Subject: [PATCH 40/80] fix: astrometry metrics find the magnitudes of stellar
 templates

rubin_scheduler.utils has no stellarMags, so every sed_template but "flat"
raised.
---
 rubin_sim/maf/metrics/calibration_metrics.py | 9 ++++-----
 rubin_sim/maf/metrics/dcr_metric.py          | 3 +--
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index 87e7584..1712c01 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -7,7 +7,6 @@ __all__ = (
 )
 
 import numpy as np
-import rubin_scheduler.utils as utils
 from scipy.optimize import curve_fit
 
 import rubin_sim.maf.utils as mafUtils
@@ -78,7 +77,7 @@ class ParallaxMetric(BaseMetric):
             for f in filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
         self.normalize = normalize
         self.comment = (
@@ -216,7 +215,7 @@ class ProperMotionMetric(BaseMetric):
             for f in filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
         self.normalize = normalize
         self.baseline = baseline
@@ -359,7 +358,7 @@ class ParallaxCoverageMetric(BaseMetric):
             for f in filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
         caption = "Parallax factor coverage for an r=%.2f star (0 is bad, 0.5-1 is good). " % (rmag)
         caption += "One expects the parallax factor coverage to vary because stars on the ecliptic "
@@ -487,7 +486,7 @@ class ParallaxDcrDegenMetric(BaseMetric):
             for f in ["u", "g", "r", "i", "z", "y"]:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         self.atm_err = atm_err
 
     def _positions(self, x, a, b):
diff --git a/rubin_sim/maf/metrics/dcr_metric.py b/rubin_sim/maf/metrics/dcr_metric.py
index 23d9d67..9e14272 100644
--- a/rubin_sim/maf/metrics/dcr_metric.py
+++ b/rubin_sim/maf/metrics/dcr_metric.py
@@ -1,7 +1,6 @@
 __all__ = ("DcrPrecisionMetric",)
 
 import numpy as np
-import rubin_scheduler.utils as utils
 
 import rubin_sim.maf.utils as mafUtils
 
@@ -41,7 +40,7 @@ class DcrPrecisionMetric(BaseMetric):
             for f in self.filters:
                 self.mags[f] = rmag
         else:
-            self.mags = utils.stellarMags(sed_template, rmag=rmag)
+            self.mags = mafUtils.stellar_mags(sed_template, rmag=rmag)
         cols = [
             "ra_dcr_amp",
             "dec_dcr_amp",
-- 
2.43.0


From deaa3dbc249e3d36cda7509ebf2b396b9432048a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:22:45 +0000
Subject: [PATCH 41/80] fix: parallax coverage angles wrap at a full turn

---
 rubin_sim/maf/metrics/calibration_metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index 1712c01..50b7e68 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -374,7 +374,7 @@ class ParallaxCoverageMetric(BaseMetric):
         result = 0.0
         if np.max(theta) >= self.theta_range:
             # Check that things are in different quadrants
-            theta = (theta + np.pi) % 2.0 * np.pi
+            theta = (theta + np.pi) % (2.0 * np.pi)
             theta = theta - np.min(theta)
             if np.max(theta) >= self.theta_range:
                 result = 1
-- 
2.43.0


From 206c2470ece4315d14c99dbb44d935153c958824 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:22:45 +0000
Subject: [PATCH 42/80] fix: parallax-DCR degeneracy asks for the band column
 it uses

---
 rubin_sim/maf/metrics/calibration_metrics.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index 50b7e68..4e2cf18 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -479,6 +479,7 @@ class ParallaxDcrDegenMetric(BaseMetric):
             "dec_dcr_amp",
             seeing_col,
             m5_col,
+            filter_col,
         ]
         super(ParallaxDcrDegenMetric, self).__init__(cols, metric_name=metric_name, units=units, **kwargs)
         self.mags = {}
-- 
2.43.0


From 164031df1fcf39c4eee1388329c3bd343a775d84 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:22:45 +0000
Subject: [PATCH 43/80] fix: distance of a visit centred on the slice point is
 not nan

---
 rubin_sim/maf/metrics/calibration_metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index 4e2cf18..75cdb77 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -578,7 +578,8 @@ def calc_dist_cosines(ra1, dec1, ra2, dec2):
     # http://en.wikipedia.org/wiki/Great-circle_distance
     # For the purposes of these calculations, this is probably accurate enough.
     D = np.sin(dec2) * np.sin(dec1) + np.cos(dec1) * np.cos(dec2) * np.cos(ra2 - ra1)
-    D = np.arccos(D)
+    # Rounding can take the cosine just outside its range.
+    D = np.arccos(np.clip(D, -1.0, 1.0))
     return D
 
 
-- 
2.43.0


From 22e32934919cf92756c948fcd6644c1220f23811 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 16:24:45 +0000
Subject: [PATCH 44/80] fix: parallax coverage without a visit above the SNR
 limit is zero

The minimum of no angles raised.
---
 rubin_sim/maf/metrics/calibration_metrics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/metrics/calibration_metrics.py b/rubin_sim/maf/metrics/calibration_metrics.py
index 75cdb77..15eaaa1 100644
--- a/rubin_sim/maf/metrics/calibration_metrics.py
+++ b/rubin_sim/maf/metrics/calibration_metrics.py
@@ -368,6 +368,8 @@ class ParallaxCoverageMetric(BaseMetric):
 
     def _theta_check(self, ra_pi_amp, dec_pi_amp, snr):
         good = np.where(snr >= self.snr_limit)
+        if good[0].size == 0:
+            return 0.0
         theta = np.arctan2(dec_pi_amp[good], ra_pi_amp[good])
         # Make values between 0 and 2pi
         theta = theta - np.min(theta)
-- 
2.43.0


From 3890d621a62ec3cc4541814ee8b374edaa435bce Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:09:15 +0000
Subject: [PATCH 45/80] fix: VisitIntervalSlicer lists its slice points in the
 order of its slices

Slices are in time order, but the slice point arrays (which the hourglass plots pair with the metric
values) and the extra columns were in table order.
---
 rubin_sim/maf/slicers/time_interval_slicers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index 3c335ce..1bc2501 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -258,10 +258,10 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
 
         self.sim_idxs = np.argsort(sim_data[self.mjd_column_name])
         self.slice_points["sid"] = np.arange(self.nslice)
-        self.slice_points["mjd"] = sim_data[self.mjd_column_name]
-        self.slice_points["duration"] = sim_data[self.duration_column_name]
+        self.slice_points["mjd"] = np.asarray(sim_data[self.mjd_column_name])[self.sim_idxs]
+        self.slice_points["duration"] = np.asarray(sim_data[self.duration_column_name])[self.sim_idxs]
         for column_name in self.extra_column_names:
-            self.slice_points[column_name] = sim_data[column_name]
+            self.slice_points[column_name] = np.asarray(sim_data[column_name])[self.sim_idxs]
         self._run_maps(maps)
 
         @wraps(self._slice_sim_data)
@@ -269,11 +269,11 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
             idxs = self.sim_idxs[islice]
             slice_points = {
                 "sid": [idxs],
-                "mjd": self.slice_points["mjd"][idxs],
-                "duration": self.slice_points["duration"][idxs],
+                "mjd": self.slice_points["mjd"][islice],
+                "duration": self.slice_points["duration"][islice],
             }
             for column_name in self.extra_column_names:
-                slice_points[column_name] = self.slice_points[column_name]
+                slice_points[column_name] = self.slice_points[column_name][islice]
 
             return {"idxs": idxs, "slice_point": slice_points}
 
-- 
2.43.0


From b786d91f7e7f122961eec45e0c3fc6dd95f198d6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:09:15 +0000
Subject: [PATCH 46/80] fix: setting up a time interval slicer again forgets
 the visits of the previous table

Intervals without visits in the new table kept the previous table's visits.
---
 rubin_sim/maf/slicers/time_interval_slicers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index 1bc2501..a712e7a 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -69,6 +69,7 @@ class TimeIntervalSlicer(BaseSlicer):
 
         mjd_bin_edges = np.arange(start_mjd, end_mjd + interval_days, interval_days)
 
+        self.sim_idxs = defaultdict(list)
         self.sim_idxs.update(
             pd.DataFrame(
                 {
@@ -193,6 +194,7 @@ class BlockIntervalSlicer(TimeIntervalSlicer):
 
         self.nslice = len(blocks)
         self.shape = self.nslice
+        self.sim_idxs = defaultdict(list)
         self.sim_idxs.update(
             visits.reset_index()[["sid", "visit_idx"]].groupby("sid").agg(list).to_dict()["visit_idx"]
         )
-- 
2.43.0


From a499441092cc7747720f76377022bceb7c62ec73 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:26:27 +0000
Subject: [PATCH 47/80] fix: NDSlicers can be compared before they are set up

A group with two NDSlicers raised KeyError, and set up slicers with different columns or bins
were taken for equal when their first few bins agreed.
---
 rubin_sim/maf/slicers/nd_slicer.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/slicers/nd_slicer.py b/rubin_sim/maf/slicers/nd_slicer.py
index 91c9db1..35a119b 100644
--- a/rubin_sim/maf/slicers/nd_slicer.py
+++ b/rubin_sim/maf/slicers/nd_slicer.py
@@ -135,13 +135,19 @@ class NDSlicer(BaseSlicer):
         setattr(self, "_slice_sim_data", _slice_sim_data)
 
     def __eq__(self, other_slicer):
-        """Evaluate if grids are equivalent."""
+        """Evaluate if slicers are equivalent."""
         if isinstance(other_slicer, NDSlicer):
-            if other_slicer.n_d != self.n_d:
+            if other_slicer.n_d != self.n_d or other_slicer.slice_col_list != self.slice_col_list:
                 return False
-            for i in range(self.n_d):
-                if not np.array_equal(other_slicer.slice_points["bins"][i], self.slice_points["bins"][i]):
-                    return False
-            return True
+            # If both slicers are set up (or restored), compare actual bins.
+            if "bins" in self.slice_points and "bins" in other_slicer.slice_points:
+                return np.array_equal(other_slicer.slice_points["bins"], self.slice_points["bins"])
+            # A single value for bins_list applies to each column.
+            bins_lists = []
+            for bins_list in (self.bins_list, other_slicer.bins_list):
+                if isinstance(bins_list, (float, int)):
+                    bins_list = [bins_list] * self.n_d
+                bins_lists.append(bins_list)
+            return all(np.array_equal(b1, b2) for b1, b2 in zip(*bins_lists))
         else:
             return False
-- 
2.43.0


From 45798cff0db9f5c2b981193d89ee125eb3fdbafe Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:27:03 +0000
Subject: [PATCH 48/80] fix: MovieSlicers can be compared before they are set
 up

A group with two MovieSlicers raised KeyError, and slicers of different columns, or one cumulative
and one not, were taken for equal when their bins agreed.
---
 rubin_sim/maf/slicers/movie_slicer.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/movie_slicer.py b/rubin_sim/maf/slicers/movie_slicer.py
index abd9c25..91c915c 100644
--- a/rubin_sim/maf/slicers/movie_slicer.py
+++ b/rubin_sim/maf/slicers/movie_slicer.py
@@ -215,7 +215,20 @@ class MovieSlicer(BaseSlicer):
         Evaluate if slicers are equivalent.
         """
         if isinstance(other_slicer, MovieSlicer):
-            return np.array_equal(other_slicer.slice_points["bins"], self.slice_points["bins"])
+            if (
+                other_slicer.slice_col_name != self.slice_col_name
+                or other_slicer.cumulative != self.cumulative
+            ):
+                return False
+            # If both slicers are set up (or restored), compare actual bins.
+            if "bins" in self.slice_points and "bins" in other_slicer.slice_points:
+                return np.array_equal(other_slicer.slice_points["bins"], self.slice_points["bins"])
+            return (
+                np.array_equal(other_slicer.bins, self.bins)
+                and other_slicer.bin_min == self.bin_min
+                and other_slicer.bin_max == self.bin_max
+                and other_slicer.bin_size == self.bin_size
+            )
         else:
             return False
 
-- 
2.43.0


From 0d5f93d171abce4e0ca45ebdacc347cb2d00bdb7 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:27:03 +0000
Subject: [PATCH 49/80] fix: time interval slicers can be compared before they
 are set up

A group with two of the same kind raised KeyError.
---
 rubin_sim/maf/slicers/time_interval_slicers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index a712e7a..ed547b0 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -114,6 +114,14 @@ class TimeIntervalSlicer(BaseSlicer):
         if not isinstance(other_slicer, self.__class__):
             return False
 
+        # Before both slicers are set up (or restored), compare their
+        # configuration.
+        if "sid" not in self.slice_points or "sid" not in other_slicer.slice_points:
+            return (
+                other_slicer.interval_seconds == self.interval_seconds
+                and other_slicer.columns_needed == self.columns_needed
+            )
+
         for key in ["sid", "mjd", "duration"]:
             if not np.array_equal(other_slicer.slice_points[key], self.slice_points[key]):
                 return False
@@ -251,7 +259,7 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
         self.mjd_column_name = mjd_column_name
         self.duration_column_name = duration_column_name
         self.extra_column_names = extra_column_names
-        self.columns_needed = [mjd_column_name, duration_column_name]
+        self.columns_needed = [mjd_column_name, duration_column_name, *extra_column_names]
         self.sim_idxs = None  # pylint: disable=invalid-name
 
     def setup_slicer(self, sim_data, maps=None):
-- 
2.43.0


From 17f36c278bd0d253df2a6436b83fd0fed9a619b1 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:27:03 +0000
Subject: [PATCH 50/80] fix: spatial slicers in degrees and in radians are not
 equal

Metrics on the same columns, once read as degrees and once as radians, shared the slices of the
first; likewise with different camera footprints.
---
 rubin_sim/maf/slicers/base_spatial_slicer.py   | 9 +++++++++
 rubin_sim/maf/slicers/healpix_slicer.py        | 2 +-
 rubin_sim/maf/slicers/healpix_subset_slicer.py | 2 +-
 rubin_sim/maf/slicers/user_points_slicer.py    | 2 +-
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/slicers/base_spatial_slicer.py b/rubin_sim/maf/slicers/base_spatial_slicer.py
index cc2f4fc..1b922a8 100644
--- a/rubin_sim/maf/slicers/base_spatial_slicer.py
+++ b/rubin_sim/maf/slicers/base_spatial_slicer.py
@@ -183,6 +183,15 @@ class BaseSpatialSlicer(BaseSlicer):
 
         setattr(self, "_slice_sim_data", _slice_sim_data)
 
+    def _same_footprint(self, other_slicer):
+        """Evaluate if pointings and camera are interpreted the same way."""
+        return (
+            other_slicer.rotSkyPosColName == self.rotSkyPosColName
+            and other_slicer.latLonDeg == self.latLonDeg
+            and other_slicer.camera_radius == self.camera_radius
+            and other_slicer.camera_footprint_file == self.camera_footprint_file
+        )
+
     def _setupLSSTCamera(self):
         """If we want to include the camera chip gaps, etc."""
         self.camera = simsUtils.LsstCameraFootprint(
diff --git a/rubin_sim/maf/slicers/healpix_slicer.py b/rubin_sim/maf/slicers/healpix_slicer.py
index 12a6323..cdb3ab4 100644
--- a/rubin_sim/maf/slicers/healpix_slicer.py
+++ b/rubin_sim/maf/slicers/healpix_slicer.py
@@ -170,7 +170,7 @@ class HealpixSlicer(BaseSpatialSlicer):
                 if other_slicer.lon_col == self.lon_col and other_slicer.lat_col == self.lat_col:
                     if other_slicer.radius == self.radius:
                         if other_slicer.use_camera == self.use_camera:
-                            if other_slicer.rotSkyPosColName == self.rotSkyPosColName:
+                            if self._same_footprint(other_slicer):
                                 if np.all(other_slicer.shape == self.shape):
                                     if other_slicer.use_cache == self.use_cache:
                                         result = True
diff --git a/rubin_sim/maf/slicers/healpix_subset_slicer.py b/rubin_sim/maf/slicers/healpix_subset_slicer.py
index 8d7a74a..949b658 100644
--- a/rubin_sim/maf/slicers/healpix_subset_slicer.py
+++ b/rubin_sim/maf/slicers/healpix_subset_slicer.py
@@ -200,7 +200,7 @@ class HealpixSubsetSlicer(HealpixSlicer):
                     if other_slicer.lon_col == self.lon_col and other_slicer.lat_col == self.lat_col:
                         if other_slicer.radius == self.radius:
                             if other_slicer.use_camera == self.use_camera:
-                                if other_slicer.rotSkyPosColName == self.rotSkyPosColName:
+                                if self._same_footprint(other_slicer):
                                     if np.all(other_slicer.shape == self.shape):
                                         result = True
         return result
diff --git a/rubin_sim/maf/slicers/user_points_slicer.py b/rubin_sim/maf/slicers/user_points_slicer.py
index 8f02ff0..892f08c 100644
--- a/rubin_sim/maf/slicers/user_points_slicer.py
+++ b/rubin_sim/maf/slicers/user_points_slicer.py
@@ -135,7 +135,7 @@ class UserPointsSlicer(BaseSpatialSlicer):
                     if other_slicer.lon_col == self.lon_col and other_slicer.lat_col == self.lat_col:
                         if other_slicer.radius == self.radius:
                             if other_slicer.use_camera == self.use_camera:
-                                if other_slicer.rotSkyPosColName == self.rotSkyPosColName:
+                                if self._same_footprint(other_slicer):
                                     if np.array_equal(other_slicer.shape, self.shape):
                                         result = True
         return result
-- 
2.43.0


From 481c3c4183b96466637df7069799ee204ca1530a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:28:19 +0000
Subject: [PATCH 51/80] fix: VisitIntervalSlicer slice points are indexed by
 slice id

The slice id is the visit's place in the table, and metric values are stored by slice id, so the slice
point arrays must be in table order (partly undoes 3890d62).
---
 rubin_sim/maf/slicers/time_interval_slicers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rubin_sim/maf/slicers/time_interval_slicers.py b/rubin_sim/maf/slicers/time_interval_slicers.py
index ed547b0..41a9a5b 100644
--- a/rubin_sim/maf/slicers/time_interval_slicers.py
+++ b/rubin_sim/maf/slicers/time_interval_slicers.py
@@ -268,10 +268,10 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
 
         self.sim_idxs = np.argsort(sim_data[self.mjd_column_name])
         self.slice_points["sid"] = np.arange(self.nslice)
-        self.slice_points["mjd"] = np.asarray(sim_data[self.mjd_column_name])[self.sim_idxs]
-        self.slice_points["duration"] = np.asarray(sim_data[self.duration_column_name])[self.sim_idxs]
+        self.slice_points["mjd"] = sim_data[self.mjd_column_name]
+        self.slice_points["duration"] = sim_data[self.duration_column_name]
         for column_name in self.extra_column_names:
-            self.slice_points[column_name] = np.asarray(sim_data[column_name])[self.sim_idxs]
+            self.slice_points[column_name] = sim_data[column_name]
         self._run_maps(maps)
 
         @wraps(self._slice_sim_data)
@@ -279,11 +279,11 @@ class VisitIntervalSlicer(TimeIntervalSlicer):
             idxs = self.sim_idxs[islice]
             slice_points = {
                 "sid": [idxs],
-                "mjd": self.slice_points["mjd"][islice],
-                "duration": self.slice_points["duration"][islice],
+                "mjd": self.slice_points["mjd"][idxs],
+                "duration": self.slice_points["duration"][idxs],
             }
             for column_name in self.extra_column_names:
-                slice_points[column_name] = self.slice_points[column_name][islice]
+                slice_points[column_name] = self.slice_points[column_name][idxs]
 
             return {"idxs": idxs, "slice_point": slice_points}
 
-- 
2.43.0


From 301e9d54b586d7fe3d93dab5978cec46c1d14dc6 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:30:39 +0000
Subject: [PATCH 52/80] fix: a MetricBundle can be given a single map

The map was stored in an attribute nothing reads, and the constructor raised.
---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 22a0dc0..b2b00e2 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -155,7 +155,7 @@ class MetricBundle:
         # Set the 'maps' to apply to the slicer, if applicable.
         if maps_list is not None:
             if isinstance(maps_list, maps.BaseMap):
-                self.known_cols = [
+                self.maps_list = [
                     maps_list,
                 ]
             else:
-- 
2.43.0


From 4fb4d8ce562647f32b64daf3f414d206013093c9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:30:39 +0000
Subject: [PATCH 53/80] fix: metrics with several values per slice are masked
 slice by slice

The mask of a HealpixSubsetSlicer was laid out flat over a (slices, values) array, so it hid values
inside the subset and left slices outside of it unmasked.
---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index b2b00e2..74be58e 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -237,7 +237,7 @@ class MetricBundle:
             fill_value=self.slicer.badval,
         )
         if hasattr(self.slicer, "mask"):
-            self.metric_values.mask = self.slicer.mask
+            self.metric_values.mask[self.slicer.mask] = True
 
     def _build_metadata(self, info_label, metadata=None):
         """If no info_label is provided, process the constraint
-- 
2.43.0


From 691953bd75bf368c2a654c915652cad23d4c8e33 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 18:46:42 +0000
Subject: [PATCH 54/80] fix: ebv_3d_hp reads the map file it is asked for

The name of the map in memory was looked for under a different attribute name,
so a second map file was never read: the values of the first one came back.
The nside of the map in memory was forgotten too, so positions were looked up
in the wrong pixels when the map was used again.
---
 rubin_sim/maf/maps/ebv_3d_hp.py | 42 +++++++++++++++------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/rubin_sim/maf/maps/ebv_3d_hp.py b/rubin_sim/maf/maps/ebv_3d_hp.py
index ba0dfaf..a65fdc7 100644
--- a/rubin_sim/maf/maps/ebv_3d_hp.py
+++ b/rubin_sim/maf/maps/ebv_3d_hp.py
@@ -68,15 +68,8 @@ def ebv_3d_hp(
             test_path = os.path.join(get_data_dir(), "maps/DustMaps3D", map_file)
             if os.path.isfile(test_path):
                 map_file = test_path
-    # Keep track of what nside and what map_file we're using
-    if not hasattr(ebv_3d_hp, "map_file"):
-        ebv_3d_hp.mapFile = map_file
-        ebv_3d_hp.nside = nside
-
     # Do we need to re-read from disk?
-    if (not hasattr(ebv_3d_hp, "ebvs")) | (not hasattr(ebv_3d_hp, "dists")) | (map_file != ebv_3d_hp.mapFile):
-        ebv_3d_hp.mapFile = map_file
-        ebv_3d_hp.nside = nside
+    if map_file != getattr(ebv_3d_hp, "mapFile", None):
         # Read map from disk
         hdul = fits.open(map_file)
         # hpids = hdul[0].data
@@ -87,22 +80,7 @@ def ebv_3d_hp(
         hdul.close()
 
         # Check additional healpix information from the header
-        map_nside = hdr["NSIDE"]
         nested = hdr["NESTED"]
-        if nside != map_nside:
-            warnings.warn(
-                f"Map nside {map_nside} did not match expected nside {nside}; "
-                f"Will use nside from map data."
-            )
-            if pixels is not None:
-                # We're just going to raise an exception here
-                # because this could mean bad things.
-                raise ValueError(
-                    f"Map nside {map_nside} did not match expected nside {nside}, "
-                    f"and pixels provided; this can potentially indicate a serious "
-                    f"error. Make nsides match or specify ra/dec instead of pixels."
-                )
-            nside = map_nside
         # Nested healpix data will not match the healpix arrays
         # for the slicers (at this time)
         if nested:
@@ -112,8 +90,26 @@ def ebv_3d_hp(
                 ebvs[:, i] = hp.reorder(ebvs[:, i], "nest", "ring")
         ebv_3d_hp.dists = dists
         ebv_3d_hp.ebvs = ebvs
+        # Keep track of what nside and what map_file we're using
+        ebv_3d_hp.mapFile = map_file
+        ebv_3d_hp.nside = hdr["NSIDE"]
         print(f"Read map {map_file} from disk")
 
+    if nside != ebv_3d_hp.nside:
+        warnings.warn(
+            f"Map nside {ebv_3d_hp.nside} did not match expected nside {nside}; "
+            f"Will use nside from map data."
+        )
+        if pixels is not None:
+            # We're just going to raise an exception here
+            # because this could mean bad things.
+            raise ValueError(
+                f"Map nside {ebv_3d_hp.nside} did not match expected nside {nside}, "
+                f"and pixels provided; this can potentially indicate a serious "
+                f"error. Make nsides match or specify ra/dec instead of pixels."
+            )
+        nside = ebv_3d_hp.nside
+
     if pixels is not None:
         # Assume if pixels is set, then interp is irrelevant
         dists = ebv_3d_hp.dists[pixels]
-- 
2.43.0


From 243e4ac14ce73d26d45fa44419fbc3cedbdbe777 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:25:28 +0000
Subject: [PATCH 55/80] fix: reductions of the same metric on different slicers
 do not replace each other

---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index fec31d2..c8300fd 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -586,7 +586,7 @@ class MetricBundleGroup:
                     # Add the new metricBundle to our metricBundleGroup
                     # dictionary.
                     name = newmetricbundle.metric.name
-                    if name in self.bundle_dict:
+                    if name in self.bundle_dict or name in reduce_bundle_dict:
                         name = newmetricbundle.file_root
                     reduce_bundle_dict[name] = newmetricbundle
                     if self.save_early:
-- 
2.43.0


From 3b094b96603e571eb6486acaa3092f8a539a0775 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:29:44 +0000
Subject: [PATCH 56/80] fix: accumulated metrics hold the visits up to each bin
 edge, not one more

---
 rubin_sim/maf/metrics/vector_metrics.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/rubin_sim/maf/metrics/vector_metrics.py b/rubin_sim/maf/metrics/vector_metrics.py
index 2f357da..48efd9a 100644
--- a/rubin_sim/maf/metrics/vector_metrics.py
+++ b/rubin_sim/maf/metrics/vector_metrics.py
@@ -80,10 +80,10 @@ class AccumulateMetric(VectorMetric):
         data_slice.sort(order=self.bin_col)
 
         result = self.function.accumulate(data_slice[self.col])
-        indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
-        indices[np.where(indices >= np.size(result))] = np.size(result) - 1
+        # Index of the last visit up to each bin edge (-1 if there are none).
+        indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right") - 1
         result = result[indices]
-        result[np.where(indices == 0)] = self.badval
+        result[np.where(indices < 0)] = self.badval
         return result
 
 
@@ -92,10 +92,10 @@ class AccumulateCountMetric(AccumulateMetric):
         data_slice.sort(order=self.bin_col)
         to_count = np.ones(data_slice.size, dtype=int)
         result = self.function.accumulate(to_count)
-        indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
-        indices[np.where(indices >= np.size(result))] = np.size(result) - 1
+        # Index of the last visit up to each bin edge (-1 if there are none).
+        indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right") - 1
         result = result[indices]
-        result[np.where(indices == 0)] = self.badval
+        result[np.where(indices < 0)] = self.badval
         return result
 
 
@@ -144,11 +144,11 @@ class AccumulateM5Metric(AccumulateMetric):
         flux = 10.0 ** (0.8 * data_slice[self.m5_col])
 
         result = np.add.accumulate(flux)
-        indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right")
-        indices[np.where(indices >= np.size(result))] = np.size(result) - 1
+        # Index of the last visit up to each bin edge (-1 if there are none).
+        indices = np.searchsorted(data_slice[self.bin_col], self.bins[1:], side="right") - 1
         result = result[indices]
         result = 1.25 * np.log10(result)
-        result[np.where(indices == 0)] = self.badval
+        result[np.where(indices < 0)] = self.badval
         return result
 
 
-- 
2.43.0


From 434adf670e5ac1f9d17b7c12ac7b69b41c20798a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:29:44 +0000
Subject: [PATCH 57/80] fix: Kuiper statistic uses both sides of each step of
 the distribution

---
 rubin_sim/maf/metrics/kuiper_metrics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/kuiper_metrics.py b/rubin_sim/maf/metrics/kuiper_metrics.py
index bcf310e..e76642b 100644
--- a/rubin_sim/maf/metrics/kuiper_metrics.py
+++ b/rubin_sim/maf/metrics/kuiper_metrics.py
@@ -16,10 +16,11 @@ class KuiperMetric(BaseMetric):
         # Assume input in degrees
         values = np.sort(data_slice[self.colname] % 360)
 
+        dist_0 = np.arange(values.size) / values.size
         dist_1 = (np.arange(values.size) + 1) / values.size
         uniform = values / (360.0)
 
-        d_plus = np.max(uniform - dist_1)
+        d_plus = np.max(uniform - dist_0)
         d_minus = np.max(dist_1 - uniform)
         result = d_plus + d_minus
 
-- 
2.43.0


From aac12e61b010ebb04991a985e9bd39f61245a419 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:29:44 +0000
Subject: [PATCH 58/80] fix: PhaseGapMetric reports only the periods it has
 tried

---
 rubin_sim/maf/metrics/phase_gap_metric.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rubin_sim/maf/metrics/phase_gap_metric.py b/rubin_sim/maf/metrics/phase_gap_metric.py
index cf739d1..c226da5 100644
--- a/rubin_sim/maf/metrics/phase_gap_metric.py
+++ b/rubin_sim/maf/metrics/phase_gap_metric.py
@@ -54,9 +54,8 @@ class PhaseGapMetric(BaseMetric):
         if step == 0:
             periods = np.array([self.period_min])
         else:
-            periods = np.arange(self.n_periods)
-            periods = periods / np.max(periods) * (self.period_max - self.period_min) + self.period_min
-        max_gap = np.zeros(self.n_periods, float)
+            periods = np.linspace(self.period_min, self.period_max, self.n_periods)
+        max_gap = np.zeros(len(periods), float)
 
         for i, period in enumerate(periods):
             # For each period, calculate the phases.
-- 
2.43.0


From 6ae7eff4a22d82e0d207a78535a8a80dc62a7333 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:29:44 +0000
Subject: [PATCH 59/80] fix: PhaseGapMetric worst period is a single period

---
 rubin_sim/maf/metrics/phase_gap_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/phase_gap_metric.py b/rubin_sim/maf/metrics/phase_gap_metric.py
index c226da5..a3e0d7e 100644
--- a/rubin_sim/maf/metrics/phase_gap_metric.py
+++ b/rubin_sim/maf/metrics/phase_gap_metric.py
@@ -85,7 +85,7 @@ class PhaseGapMetric(BaseMetric):
         """
         At each slice_point, return the period with the largest phase gap.
         """
-        worst_p = metric_val["periods"][np.where(metric_val["maxGaps"] == metric_val["maxGaps"].max())]
+        worst_p = metric_val["periods"][np.argmax(metric_val["maxGaps"])]
         return worst_p
 
     def reduce_largest_gap(self, metric_val):
-- 
2.43.0


From e93f746371c667880e4a3e92c7b149c556ff7bbe Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:29:44 +0000
Subject: [PATCH 60/80] fix: ColorSlope metrics use the columns they were given

---
 rubin_sim/maf/metrics/color_slope_metrics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/color_slope_metrics.py b/rubin_sim/maf/metrics/color_slope_metrics.py
index b69bc10..b954313 100644
--- a/rubin_sim/maf/metrics/color_slope_metrics.py
+++ b/rubin_sim/maf/metrics/color_slope_metrics.py
@@ -109,7 +109,9 @@ class ColorSlopeMetric(BaseMetric):
 
         super().__init__(col=cols, units=units, metric_name=metric_name, **kwargs)
 
-        self.sequence_checker = CheckColorSlope(color_length=color_length, slope_length=slope_length)
+        self.sequence_checker = CheckColorSlope(
+            color_length=color_length, slope_length=slope_length, filter_col=filter_col, mjd_col=time_col
+        )
 
     def run(self, data_slice, slice_point=None):
         result = 0
-- 
2.43.0


From 8078b2274c5f6a5bbbd54b66462f2a0680af4c2d Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:29:44 +0000
Subject: [PATCH 61/80] fix: YearCoverageMetric passes its keyword arguments on

---
 rubin_sim/maf/metrics/coverage_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/coverage_metric.py b/rubin_sim/maf/metrics/coverage_metric.py
index d203336..dc39c99 100644
--- a/rubin_sim/maf/metrics/coverage_metric.py
+++ b/rubin_sim/maf/metrics/coverage_metric.py
@@ -40,7 +40,7 @@ class YearCoverageMetric(BaseMetric):
         if units is None:
             units = "N years"
 
-        super().__init__([night_col], units=units)
+        super().__init__([night_col], units=units, **kwargs)
 
     def run(self, data_slice, slice_point):
         hist, be = np.histogram(data_slice[self.night_col], bins=self.bins)
-- 
2.43.0


From 6e76259311e012135c7907b669604ad096040a63 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:29:44 +0000
Subject: [PATCH 62/80] fix: VisitGroupsMetric checks the time between the
 visits of a two-visit night

---
 rubin_sim/maf/metrics/visit_groups_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/visit_groups_metric.py b/rubin_sim/maf/metrics/visit_groups_metric.py
index 00450f6..b32c07f 100644
--- a/rubin_sim/maf/metrics/visit_groups_metric.py
+++ b/rubin_sim/maf/metrics/visit_groups_metric.py
@@ -217,7 +217,7 @@ class VisitGroupsMetric(BaseMetric):
                     if not timegood[-2] and not timetooclose[-2]:
                         ntooclose += 1
             else:
-                if timegood.size > 0:
+                if timegood.size > 0 and timegood[0]:
                     nvisits += 2
             # Count up all visits for night.
             if nvisits > 0:
-- 
2.43.0


From a79817e17129ba35dd481f535c62fa069570c239 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:29:44 +0000
Subject: [PATCH 63/80] fix: StringCountMetric leaves the visits unchanged

---
 rubin_sim/maf/metrics/string_count_metric.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metrics/string_count_metric.py b/rubin_sim/maf/metrics/string_count_metric.py
index f8c5b1a..ba13635 100644
--- a/rubin_sim/maf/metrics/string_count_metric.py
+++ b/rubin_sim/maf/metrics/string_count_metric.py
@@ -53,6 +53,7 @@ class StringCountMetric(BaseMetric):
 
     def run(self, data_slice, slice_point=None):
 
+        values = data_slice[self.col]
         # If we need to clip off trailing integer
         if self.clip_end:
             replace_col = []
@@ -66,9 +67,9 @@ class StringCountMetric(BaseMetric):
                         replace_col.append(val)
                 else:
                     replace_col.append(val)
-            data_slice[self.col] = replace_col
+            values = replace_col
 
-        counter = Counter(data_slice[self.col])
+        counter = Counter(values)
         # convert to a numpy array
         lables = list(counter.keys())
         # Numpy can't handle empty string as a dtype
-- 
2.43.0


From 3d1fa72a054fb0f256dfe2dc553e2f39811802fb Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:32:30 +0000
Subject: [PATCH 64/80] fix: a lunation counts in the sequence whichever of its
 nights starts the group

reduce_max_seq_lunations ended the sequence at the first night of a lunation that does not start a group.
---
 rubin_sim/maf/metrics/visit_groups_metric.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/rubin_sim/maf/metrics/visit_groups_metric.py b/rubin_sim/maf/metrics/visit_groups_metric.py
index b32c07f..d313a67 100644
--- a/rubin_sim/maf/metrics/visit_groups_metric.py
+++ b/rubin_sim/maf/metrics/visit_groups_metric.py
@@ -320,11 +320,7 @@ class VisitGroupsMetric(BaseMetric):
         for lunation in lunations:
             # Find visits within lunation.
             vl, nl = self._in_lunation(metricval["visits"], metricval["nights"], lunation, lunation_length)
-            # If no visits this lunation:
-            if len(vl) == 0:
-                max_sequence = max(max_sequence, cur_sequence)
-                cur_sequence = 0
-            # Else, look to see if groups can be made from the visits.
+            # Look to see if groups can be made from the visits.
             for n in nl:
                 # Find visits which are in groups within the lunation.
                 vw, nw = self._in_window(vl, nl, n, self.window, self.min_n_visits)
@@ -332,10 +328,10 @@ class VisitGroupsMetric(BaseMetric):
                 if len(nw) >= self.min_n_nights:
                     cur_sequence += 1
                     break
-                # Otherwise we're not in a sequence (anymore, or still).
-                else:
-                    max_sequence = max(max_sequence, cur_sequence)
-                    cur_sequence = 0
+            # Otherwise we're not in a sequence (anymore, or still).
+            else:
+                max_sequence = max(max_sequence, cur_sequence)
+                cur_sequence = 0
         # Pick up last sequence if were in a sequence at last lunation.
         max_sequence = max(max_sequence, cur_sequence)
         return max_sequence
-- 
2.43.0


From b35b345ebf36f04bb83e00fdee78a6449762640e Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 19:32:30 +0000
Subject: [PATCH 65/80] fix: ExgalM5WithCuts passes its band column on to the
 depth metric

---
 rubin_sim/maf/metrics/weak_lensing_systematics_metric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py b/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py
index 54e0c4e..703ab09 100644
--- a/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py
+++ b/rubin_sim/maf/metrics/weak_lensing_systematics_metric.py
@@ -42,7 +42,7 @@ class ExgalM5WithCuts(BaseMetric):
         self.lsst_filter = lsst_filter
         # I thought about inheriting from ExGalM5 instead, but the columns
         # specification is more complicated
-        self.exgal_m5 = ExgalM5(m5_col=m5_col, units=units)
+        self.exgal_m5 = ExgalM5(m5_col=m5_col, units=units, filter_col=filter_col)
         super().__init__(
             col=[self.m5_col, self.filter_col],
             metric_name=metric_name,
-- 
2.43.0


From 55e4fea4e2779e8993780a2ca9bcc7d997fd29d4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:39:04 +0000
Subject: [PATCH 66/80] fix: NoOffset returns plain offsets that can be added
 to magnitudes

It returned a record array, so a catalogue with NoOffset raised.
---
 rubin_sim/selfcal/offsets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/selfcal/offsets.py b/rubin_sim/selfcal/offsets.py
index 3ebc040..6b12b1c 100644
--- a/rubin_sim/selfcal/offsets.py
+++ b/rubin_sim/selfcal/offsets.py
@@ -24,7 +24,7 @@ class NoOffset(BaseOffset):
         self.newkey = "dmag_zero"
 
     def __call__(self, stars, visits, **kwargs):
-        dmag = np.zeros(stars.size, dtype=list(zip([self.newkey], [float])))
+        dmag = np.zeros(stars.size, dtype=float)
         return dmag
 
 
-- 
2.43.0


From ffa10f4d8676a5222a5e3486af6a08779900a287 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:39:04 +0000
Subject: [PATCH 67/80] fix: patches of a catalogue follow its field of view

With a field larger than the default of 1.8 degrees stars fell outside the
patch grid and patches of different visits shared an identifier.
---
 rubin_sim/selfcal/generate_catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/selfcal/generate_catalog.py b/rubin_sim/selfcal/generate_catalog.py
index 31cb710..574d40c 100644
--- a/rubin_sim/selfcal/generate_catalog.py
+++ b/rubin_sim/selfcal/generate_catalog.py
@@ -151,7 +151,7 @@ def generate_catalog(
         stars_in = stars_project(stars_in, visit)
 
         # Assign patchIDs
-        stars_in = assign_patches(stars_in, visit, n_patches=n_patches)
+        stars_in = assign_patches(stars_in, visit, n_patches=n_patches, radius_fov=radius_fov)
 
         # Apply the offsets that have been configured
         for offset in offsets:
-- 
2.43.0


From 942cd6e8732bbc2be8ada1d1ff7e200699b1b0a0 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:44:58 +0000
Subject: [PATCH 68/80] fix: spatial slicers read from disk keep their camera,
 columns and bad value

The saved initialisation left out use_camera and others, so a slicer read back
from a result file was set up differently from (and unequal to) the original.
---
 rubin_sim/maf/slicers/base_spatial_slicer.py | 5 +++++
 rubin_sim/maf/slicers/healpix_slicer.py      | 7 +------
 rubin_sim/maf/slicers/user_points_slicer.py  | 9 ++-------
 3 files changed, 8 insertions(+), 13 deletions(-)

diff --git a/rubin_sim/maf/slicers/base_spatial_slicer.py b/rubin_sim/maf/slicers/base_spatial_slicer.py
index 1b922a8..f1a78e7 100644
--- a/rubin_sim/maf/slicers/base_spatial_slicer.py
+++ b/rubin_sim/maf/slicers/base_spatial_slicer.py
@@ -94,6 +94,11 @@ class BaseSpatialSlicer(BaseSlicer):
             "radius": self.radius,
             "badval": self.badval,
             "use_camera": self.use_camera,
+            "camera_radius": self.camera_radius,
+            "camera_footprint_file": self.camera_footprint_file,
+            "rot_sky_pos_col_name": self.rotSkyPosColName,
+            "lat_lon_deg": self.latLonDeg,
+            "leafsize": self.leafsize,
         }
         # RA and Dec are required slice_point info for any spatial slicer.
         # slice_point RA/Dec are in radians.
diff --git a/rubin_sim/maf/slicers/healpix_slicer.py b/rubin_sim/maf/slicers/healpix_slicer.py
index cdb3ab4..996a542 100644
--- a/rubin_sim/maf/slicers/healpix_slicer.py
+++ b/rubin_sim/maf/slicers/healpix_slicer.py
@@ -133,12 +133,7 @@ class HealpixSlicer(BaseSpatialSlicer):
                 + "approximate resolution %f arcminutes" % (hp.nside2resol(self.nside, arcmin=True))
             )
         # Set variables so slicer can be re-constructed
-        self.slicer_init = {
-            "nside": nside,
-            "lon_col": lon_col,
-            "lat_col": lat_col,
-            "radius": radius,
-        }
+        self.slicer_init.update({"nside": nside, "use_cache": use_cache})
         self.use_cache = use_cache
         if use_cache:
             # use_cache set the size of the cache for the memoize function in
diff --git a/rubin_sim/maf/slicers/user_points_slicer.py b/rubin_sim/maf/slicers/user_points_slicer.py
index 892f08c..4b12efb 100644
--- a/rubin_sim/maf/slicers/user_points_slicer.py
+++ b/rubin_sim/maf/slicers/user_points_slicer.py
@@ -108,13 +108,8 @@ class UserPointsSlicer(BaseSpatialSlicer):
 
         self.nslice = np.size(ra)
         self.shape = self.nslice
-        self.slicer_init = {
-            "ra": ra,
-            "dec": dec,
-            "lon_col": lon_col,
-            "lat_col": lat_col,
-            "radius": radius,
-        }
+        # The points are given in degrees.
+        self.slicer_init.update({"ra": np.degrees(ra), "dec": np.degrees(dec)})
         self.plot_funcs = [BaseSkyMap, BaseHistogram]
 
     def __eq__(self, other_slicer):
-- 
2.43.0


From b3a2e3f0665f20b6791d56afd690533684d5cb50 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:44:58 +0000
Subject: [PATCH 69/80] fix: OneDSlicer with both bins and limits warns instead
 of raising

---
 rubin_sim/maf/slicers/one_d_slicer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/slicers/one_d_slicer.py b/rubin_sim/maf/slicers/one_d_slicer.py
index 55d091d..9515534 100644
--- a/rubin_sim/maf/slicers/one_d_slicer.py
+++ b/rubin_sim/maf/slicers/one_d_slicer.py
@@ -66,7 +66,7 @@ class OneDSlicer(BaseSlicer):
         # Forget binmin/max/stepsize if bins was set
         if self.bins is not None:
             if bin_min is not None or bin_max is not None or bin_size is not None:
-                warnings.warning(
+                warnings.warn(
                     f"Both bins and one of the bin_min/bin_max/bin_size was specified. "
                     f"Using bins ({self.bins} values only."
                 )
-- 
2.43.0


From 353b40f05f05f831ce6e9ebb69de07b99749d4f4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:44:58 +0000
Subject: [PATCH 70/80] fix: the results database records the file name with
 its suffix

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 74be58e..512da2b 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -535,7 +535,7 @@ class MetricBundle:
             summary_values=self.summary_values,
         )
         if results_db is not None:
-            self.write_db(results_db=results_db)
+            self.write_db(results_db=results_db, outfile_suffix=outfile_suffix)
 
     def output_json(self):
         """Set up and call the baseSlicer outputJSON method,
-- 
2.43.0


From 819fbb24219a128afe4f1fac92ae2029412d8ff3 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:44:58 +0000
Subject: [PATCH 71/80] fix: results saved without a plot dictionary can be
 read into a bundle

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index 512da2b..ba94157 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -583,7 +583,7 @@ class MetricBundle:
         self.metric.units = ""
         if header is not None:
             self.metric.name = header["metric_name"]
-            if "plot_dict" in header:
+            if header.get("plot_dict") is not None:
                 if "units" in header["plot_dict"]:
                     self.metric.units = header["plot_dict"]["units"]
             self.run_name = header["sim_data_name"]
-- 
2.43.0


From baf658b213af44784ecd35f17bf1e584c8ae088a Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:45:20 +0000
Subject: [PATCH 72/80] fix: read_all restores the reduced metrics

It looked for them under another name than they are saved with, used attributes
that no longer exist and shared one metric (and its name) between them.
---
 rubin_sim/maf/metric_bundles/metric_bundle_group.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle_group.py b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
index c8300fd..9b40eae 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle_group.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle_group.py
@@ -4,6 +4,7 @@ import os
 import sys
 import warnings
 from collections import OrderedDict
+from copy import deepcopy
 
 import matplotlib.pyplot as plt
 import numpy as np
@@ -782,8 +783,8 @@ class MetricBundleGroup:
             # with associated 'reduce' functions, and read those in too.
             if len(bundle.metric.reduce_funcs) > 0:
                 orig_metric_name = bundle.metric.name
-                for reduce_func in bundle.metric.reduce_funcs.values():
-                    reduce_name = orig_metric_name + "_" + reduce_func.__name__.replace("reduce", "")
+                for r in bundle.metric.reduce_funcs:
+                    reduce_name = orig_metric_name + "_" + r.replace("reduce_", "")
                     # Borrow the fileRoot in b (we'll reset it appropriately)
                     bundle.metric.name = reduce_name
                     bundle._build_file_root()
@@ -795,14 +796,14 @@ class MetricBundleGroup:
                         # display_dict exactly as they would have been made
                         # if you calculated the reduce metric from scratch.
                         newmetric_bundle = MetricBundle(
-                            metric=bundle.metric,
+                            metric=deepcopy(bundle.metric),
                             slicer=bundle.slicer,
                             constraint=bundle.constraint,
                             stacker_list=bundle.stacker_list,
                             run_name=bundle.run_name,
                             info_label=bundle.info_label,
-                            plot_dict=bundle.plotDict,
-                            display_dict=bundle.displayDict,
+                            plot_dict=bundle.plot_dict,
+                            display_dict=bundle.display_dict,
                             summary_metrics=bundle.summary_metrics,
                             maps_list=bundle.maps_list,
                             file_root=bundle.file_root,
-- 
2.43.0


From e042b7a0b65d012032c7794e9525138139364751 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:45:43 +0000
Subject: [PATCH 73/80] fix: bundles and unmasked binned values can be written
 as JSON

---
 rubin_sim/maf/metric_bundles/metric_bundle.py | 2 +-
 rubin_sim/maf/slicers/base_slicer.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/maf/metric_bundles/metric_bundle.py b/rubin_sim/maf/metric_bundles/metric_bundle.py
index ba94157..3864b01 100644
--- a/rubin_sim/maf/metric_bundles/metric_bundle.py
+++ b/rubin_sim/maf/metric_bundles/metric_bundle.py
@@ -549,7 +549,7 @@ class MetricBundle:
         io = self.slicer.output_json(
             self.metric_values,
             metric_name=self.metric.name,
-            simDataName=self.run_name,
+            sim_data_name=self.run_name,
             info_label=self.info_label,
             plot_dict=self.plot_dict,
         )
diff --git a/rubin_sim/maf/slicers/base_slicer.py b/rubin_sim/maf/slicers/base_slicer.py
index 4141858..9f3d2f1 100644
--- a/rubin_sim/maf/slicers/base_slicer.py
+++ b/rubin_sim/maf/slicers/base_slicer.py
@@ -369,7 +369,7 @@ class BaseSlicer(metaclass=SlicerRegistry):
                     bin_left = self.slice_points["bins"][i]
                     value = metric_values[i]
                     metric.append([bin_left, value])
-                metric.append(self.slice_points["bins"][i + 1][0])
+                metric.append([self.slice_points["bins"][i + 1], 0])
             elif self.slicer_name == "UniSlicer":
                 metric.append([metric_values[0]])
         # Write out JSON output.
-- 
2.43.0


From 798ab8b8ac02c8a1dbad33529f8c1fadf56d5ae8 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 20:49:26 +0000
Subject: [PATCH 74/80] fix: a MovieSlicer read from a file is the one written

slicer_init left out cumulative and force_no_ffmpeg, and given units were dropped.
---
 rubin_sim/maf/slicers/movie_slicer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rubin_sim/maf/slicers/movie_slicer.py b/rubin_sim/maf/slicers/movie_slicer.py
index 91c915c..7cbac78 100644
--- a/rubin_sim/maf/slicers/movie_slicer.py
+++ b/rubin_sim/maf/slicers/movie_slicer.py
@@ -78,6 +78,7 @@ class MovieSlicer(BaseSlicer):
         self.bin_max = bin_max
         self.bin_size = bin_size
         self.cumulative = cumulative
+        self.slice_col_units = slice_col_units
         if slice_col_units is None:
             co = ColInfo()
             self.slice_col_units = co.get_units(self.slice_col_name)
@@ -85,6 +86,8 @@ class MovieSlicer(BaseSlicer):
             "slice_col_name": self.slice_col_name,
             "slice_col_units": slice_col_units,
             "badval": badval,
+            "cumulative": cumulative,
+            "force_no_ffmpeg": force_no_ffmpeg,
         }
 
     def setup_slicer(self, sim_data, maps=None):
-- 
2.43.0


From a150ff55dee8ab6c9f7235954b8277719a3ec7d4 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:26:00 +0000
Subject: [PATCH 75/80] fix: record the residual of the V magnitude fit, not of
 the distance

---
 rubin_sim/moving_objects/cheby_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index a056d31..d0fe438 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -534,7 +534,7 @@ class ChebyFits:
                 self.resids["t_end"].append(t_segment_end)
                 self.resids["pos"].append(max_pos_resid)
                 self.resids["geo_dist"].append(max_resids["geo_dist"])
-                self.resids["vmag"].append(max_resids["geo_dist"])
+                self.resids["vmag"].append(max_resids["vmag"])
                 self.resids["elongation"].append(max_resids["elongation"])
 
     def _subdivide_segment(self, orbit_obj, ephs):
-- 
2.43.0


From 36680e990ef36ceb15dd5925e9f39a6056db6a7b Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:26:00 +0000
Subject: [PATCH 76/80] fix: report Chebyshev segments which cannot be fitted

DataFrame/Series.as_matrix was removed from pandas, so the failures were
not recorded and an AttributeError ended the fit.
---
 rubin_sim/moving_objects/cheby_fits.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index d0fe438..73c36b9 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -276,7 +276,7 @@ class ChebyFits:
             counter += 1
         if (self.t_span % length) > num_tolerance or (length <= 0):
             # Add this entire segment into the failed list.
-            for obj_id in self.orbits_obj.orbits["obj_id"].as_matrix():
+            for obj_id in self.orbits_obj.orbits["obj_id"].values:
                 self.failed.append((obj_id, self.t_start, self.t_end))
             raise ValueError(
                 "Could not find a suitable length for the timespan (start %f, span %f), "
@@ -380,7 +380,7 @@ class ChebyFits:
             counter += 1
         if counter > max_iterations or length <= 0:
             # Add this entire segment into the failed list.
-            for obj_id in self.orbits_obj.orbits["obj_id"].as_matrix():
+            for obj_id in self.orbits_obj.orbits["obj_id"].values:
                 self.failed.append((obj_id, self.t_start, self.t_end))
             error_message = "Could not find good segment length to meet skyTolerance %f" % (
                 self.sky_tolerance
-- 
2.43.0


From f9e34ac488434e70f520892408c9fd0af47b22d5 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:26:00 +0000
Subject: [PATCH 77/80] fix: append to existing Chebyshev coefficient files

Open mode 'aw' is refused by open().
---
 rubin_sim/moving_objects/cheby_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index 73c36b9..63d2bd8 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -605,7 +605,7 @@ class ChebyFits:
         )
 
         if append:
-            open_mode = "aw"
+            open_mode = "a"
         else:
             open_mode = "w"
         # Write a header to the coefficients file, if writing to a new file:
-- 
2.43.0


From 38f2151b43469c126beb00bcb99d910020ebbce9 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:26:00 +0000
Subject: [PATCH 78/80] fix: name the missing keys when Chebyshev coefficients
 are incomplete

---
 rubin_sim/moving_objects/cheby_values.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_values.py b/rubin_sim/moving_objects/cheby_values.py
index e556e9f..608ad4d 100644
--- a/rubin_sim/moving_objects/cheby_values.py
+++ b/rubin_sim/moving_objects/cheby_values.py
@@ -53,7 +53,7 @@ class ChebyValues:
         # Check that expected values were received.
         missing_keys = set(self.coeff_keys) - set(self.coeffs)
         if len(missing_keys) > 0:
-            raise ValueError("Expected to find key(s) %s in coefficients." % " ".join(list[missing_keys]))
+            raise ValueError("Expected to find key(s) %s in coefficients." % " ".join(list(missing_keys)))
         self.coeffs["meanRA"] = self.coeffs["ra"].swapaxes(0, 1)[0]
         self.coeffs["meanDec"] = self.coeffs["dec"].swapaxes(0, 1)[0]
 
-- 
2.43.0


From 19333449d230d4ab8e387c1298792625ae8948fc Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:37:39 +0000
Subject: [PATCH 79/80] fix: record the object of a failed fit by its
 identifier

The whole obj_id column of the orbit was recorded, and written to the
failed file as several lines.
---
 rubin_sim/moving_objects/cheby_fits.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rubin_sim/moving_objects/cheby_fits.py b/rubin_sim/moving_objects/cheby_fits.py
index 63d2bd8..d487e90 100644
--- a/rubin_sim/moving_objects/cheby_fits.py
+++ b/rubin_sim/moving_objects/cheby_fits.py
@@ -517,7 +517,7 @@ class ChebyFits:
                     "Fit failed for orbit_obj %s for times between %f and %f"
                     % (obj_id, t_segment_start, t_segment_end)
                 )
-                self.failed.append((orbit_obj.orbits["obj_id"], t_segment_start, t_segment_end))
+                self.failed.append((obj_id, t_segment_start, t_segment_end))
             else:
                 # Consolidate items into the tracked coefficient values.
                 self.coeffs["obj_id"].append(obj_id)
-- 
2.43.0


From 643ea7f780c2e1bbbd29dd0c2dfbb2cb12b57140 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Wed, 18 Nov 2026 21:54:52 +0000
Subject: [PATCH 80/80] fix: select the latest archived simulation by day, then
 by number

---
 rubin_sim/sim_archive/prototype.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/rubin_sim/sim_archive/prototype.py b/rubin_sim/sim_archive/prototype.py
index e1b19d0..c08d225 100644
--- a/rubin_sim/sim_archive/prototype.py
+++ b/rubin_sim/sim_archive/prototype.py
@@ -802,9 +802,7 @@ def find_latest_prenight_sim_for_nights(
         if not set(tags).issubset(sim["tags"]):
             continue
         if best_sim is not None:
-            if sim["exec_date"] < best_sim["exec_date"]:
-                continue
-            if sim["date_index"] < best_sim["date_index"]:
+            if (sim["exec_date"], sim["date_index"]) < (best_sim["exec_date"], best_sim["date_index"]):
                 continue
         best_sim = sim
 
-- 
2.43.0

