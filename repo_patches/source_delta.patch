From cc48ff891cac1664ac59a13324c0fa92d094c24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:35 +0000
Subject: [PATCH 01/27] fix: do not truncate the omegalm dict provided by the
 user

get_amp_phase_omega_data stored the user's own omegalm dict in the new
dataDict, which process_data_dict then truncates in place.
---
 gw_eccentricity/eccDefinition.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 977294e..701550e 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -645,7 +645,9 @@ class eccDefinition:
         amp_phase_omega_dict.update(self.get_phaselm_from_dataDict(dataDict))
         # add omegalm
         if "omegalm" in dataDict:
-            amp_phase_omega_dict.update({"omegalm": dataDict["omegalm"]})
+            # copy the dict so that truncating the modes later does not
+            # change the dict provided by the user
+            amp_phase_omega_dict.update({"omegalm": dict(dataDict["omegalm"])})
         else:
             # compute it from phaselm that is already in amp_phase_omega_dict
             amp_phase_omega_dict.update(
@@ -656,7 +658,7 @@ class eccDefinition:
         # add omegalm_zeroecc if zeroecc data is provided
         if "omegalm_zeroecc" in dataDict:
             amp_phase_omega_dict.update(
-                {"omegalm_zeroecc": dataDict["omegalm_zeroecc"]})
+                {"omegalm_zeroecc": dict(dataDict["omegalm_zeroecc"])})
         # Look for zeroecc phaselm is amp_phase_omega_dict and compute
         # omegalm_zeroecc from it if phaselm_zeroecc is present
         elif "phaselm_zeroecc" in amp_phase_omega_dict \
-- 
2.43.0


From 139836207305171eb29eba9c0cbf06ac478fe389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 02/27] fix: do not shift the user's time array in place in
 find_extrema of Fits methods

self.t can be the very array the user provided in dataDict. Shifting it in
place and back modifies the user's array (up to round off).
---
 gw_eccentricity/eccDefinitionUsingFrequencyFits.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
index 959b610..6a09cdc 100644
--- a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
+++ b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
@@ -182,7 +182,10 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
         # axis such that merger occurs at t=0.
         # After the peaks are found, the time is reshifted to to its original
         # values at the end of this function so the merger is again at t_merger.
-        self.t -= self.t_merger
+        # The shifted times are stored in a new array, the original array may
+        # be the one provided by the user.
+        t_original = self.t
+        self.t = self.t - self.t_merger
 
         # DESIRED NUMBER OF EXTREMA left/right DURING FITTING
         # Code will look for N extrema to the left of idx_ref, and N+1 extrema
@@ -450,7 +453,7 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
 
         # Now that we are done with finding peaks, we shift the time axis to
         # it's original values
-        self.t += self.t_merger
+        self.t = t_original
         return np.array(extrema)
 
         # Procedure:
-- 
2.43.0


From fd7dee43ac4d762f92c28c1955a91bd67bfd1529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 03/27] fix: transform_inertial_to_coprecessing changes the
 dataDict of the caller

The keys were popped from and added to the dictionary provided by the user.
When amplm and phaselm are provided for both the eccentric and the zeroecc
waveform, adding hlm_zeroecc while transforming the eccentric modes caused the
inertial amplm_zeroecc and phaselm_zeroecc to be used later.
---
 gw_eccentricity/eccDefinition.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 701550e..2113fb6 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -949,6 +949,8 @@ class eccDefinition:
         data_dict with the inertial modes replaced by the corresponding
         modes in the coprecessing frame.
         """
+        # Work on a copy so that the dictionary of the caller is not changed.
+        data_dict = dict(data_dict)
         if ("hlm" + tag) in data_dict:
             data_dict = get_coprecessing_data_dict(data_dict, tag=tag)
         # if hlm is not in data_dict, get it from amplm and phaselm.
@@ -958,7 +960,9 @@ class eccDefinition:
             phaselm_dict = self.get_phaselm_from_dataDict(data_dict)
             # combine amplm and phaselm to get hlm
             hlm_dict = self.get_hlm_from_amplm_phaselm(amplm_dict, phaselm_dict)
-            data_dict.update(hlm_dict)
+            # Add only the modes to be transformed. Adding the modes of the
+            # other waveform would make these appear as already provided.
+            data_dict["hlm" + tag] = hlm_dict["hlm" + tag]
             data_dict = get_coprecessing_data_dict(data_dict, tag=tag)
             debug_message(
                 f"Removing the input inertial frame {'amplm' + tag}, "
-- 
2.43.0


From 4a3391c23dc2f1e6cc48557603ca22ee1d02ea4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 04/27] fix: do not add filter_kwargs to the user's
 extra_kwargs

For precessing systems the defaults of filter_kwargs were filled in, and
filter_kwargs was added to, the dictionary given by the user.
---
 gw_eccentricity/eccDefinition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 2113fb6..af00bd2 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -477,8 +477,8 @@ class eccDefinition:
         if self.precessing:
             # set extra_kwargs to empty dict if it is None to avoid issues when
             # trying to access or set keys in extra_kwargs.
-            if extra_kwargs is None:
-                extra_kwargs = {}
+            # Also make a copy so that the user's dictionary is not changed.
+            extra_kwargs = {} if extra_kwargs is None else deepcopy(extra_kwargs)
             # set kwargs for filtering.
             user_filter_kwargs = extra_kwargs.get("filter_kwargs", {})
             filter_kwargs = check_kwargs_and_set_defaults(
-- 
2.43.0


From c681abbd8ca0634632012654467b8e24a48d0fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 05/27] fix: refuse tref_out beyond the end of the zeroecc
 waveform

self.dataDict never contains hlm_zeroecc, it contains only the amplitude, phase
and omega of the modes. So the check was never performed.
---
 gw_eccentricity/eccDefinition.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index af00bd2..721537c 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2443,10 +2443,11 @@ class eccDefinition:
                 "pericenters/apocenters.")
         # check that tref_out is within t_zeroecc_shifted to make sure that
         # the output is not in the extrapolated region.
-        if "hlm_zeroecc" in self.dataDict and (self.tref_out[-1]
-                                               > self.t_zeroecc_shifted[-1]):
+        if "amplm_zeroecc" in self.dataDict \
+           and "omegalm_zeroecc" in self.dataDict \
+           and np.max(self.tref_out) > self.t_zeroecc_shifted[-1]:
             raise Exception("tref_out is in extrapolated region.\n"
-                            f"Last element in tref_out = {self.tref_out[-1]}\n"
+                            f"Maximum of tref_out = {np.max(self.tref_out)}\n"
                             "Last element in t_zeroecc = "
                             f"{self.t_zeroecc_shifted[-1]}.\nThis might happen"
                             " when 'num_orbits_to_exclude_before_merger' is "
-- 
2.43.0


From e84288d99f573c3c2f5fa2094ecd7051f9dae484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 06/27] fix: use the earliest and the latest reference points
 to get the segment

The first and the last elements were used, which are the earliest and latest
only when the reference points are in increasing order.
---
 gw_eccentricity/eccDefinition.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 721537c..6693c66 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -2056,13 +2056,13 @@ class eccDefinition:
     def _get_reference_bounds(self):
         """Get t_left and t_right depending on domain (time or frequency)."""
         if self.domain == "time":
-            t_left, t_right = self.tref_in[0], self.tref_in[-1]
+            t_left, t_right = np.min(self.tref_in), np.max(self.tref_in)
         else:
             t_left = self.get_approximate_tref_for_fref_using_secular_trend(
-                self.fref_in[0])
+                np.min(self.fref_in))
             if len(self.fref_in) > 1:
                 t_right = self.get_approximate_tref_for_fref_using_secular_trend(
-                    self.fref_in[-1])
+                    np.max(self.fref_in))
             else:
                 t_right = t_left
         return t_left, t_right
-- 
2.43.0


From ad55ce748134795bc782f33820e6acdf4bbe30da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 07/27] fix: align the merger at t=0 before fitting the secular
 trend

QusicircularFitForMappingFrequencyToTime assumes the merger to be near t=0.
For any other choice of the origin of time the bounds are inconsistent.
---
 gw_eccentricity/eccDefinition.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 6693c66..d0ec645 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1982,7 +1982,9 @@ class eccDefinition:
             left = left_indices[0] if len(left_indices) > 1 else 0
             right = right_indices[0] if len(right_indices) > 1 else -1
             
-        time = self.t[left:right]
+        # The secular trend assumes the merger to be at t=0. So we align the time
+        # axis such that merger occurs at t=0.
+        time = self.t[left:right] - self.t_merger
         omega = self.omega_gw[left:right]
         # downsample to minimize the computation for the fitting process
         if len(time) >= 1000:
@@ -1994,7 +1996,7 @@ class eccDefinition:
         res = secular_trend.least_square_fit()
         # get the location where the secular trend crosses omega_ref
         idx = np.argmin(np.abs(secular_trend.model(time, *res.x) - omega_ref))
-        return time[idx]
+        return time[idx] + self.t_merger
         
     def get_amp_phase_omega_gw_segments(self):
         """Get the relevant data segment for eccentricity measurement.
-- 
2.43.0


From 9c87aeb8e529c51d0ba05bccd72b89d013cbf7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 08/27] fix: drop also the extremum before a jump at the start
 of the data

When an extremum is missing between the i-th and the (i+1)-th extrema, the
extrema starting from (i+1)-th should be kept as documented. The i-th was also
kept, and so the jump remained.
---
 gw_eccentricity/eccDefinition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index d0ec645..a74a00d 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1408,7 +1408,7 @@ class eccDefinition:
                 f"{last_pair_times[-1]} are therefore dropped.",
                 self.debug_level, important=False)
             extrema_location = extrema_location[extrema_location >=
-                                                extrema_location[last_idx]]
+                                                extrema_location[last_idx+1]]
         return extrema_location
 
     def drop_extrema_if_too_close(self, extrema_location,
-- 
2.43.0


From 23d18cf51423daf052850136fd493296b13f08fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 09/27] fix: drop one of the too close extrema at the start of
 the data

As documented, for extrema = [1, 3, 4, 6, 8, 10, 12] the pair {3, 4} is too
close and {1, 3} should be dropped. Only {1} was, and so the pair remained.
---
 gw_eccentricity/eccDefinition.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index a74a00d..81ef2f9 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1459,7 +1459,7 @@ class eccDefinition:
             if idx_too_close[-1] < mid_index:
                 last_index = idx_too_close[-1]
                 last_pair = [extrema_location[last_index],
-                             extrema_location[last_index-1]]
+                             extrema_location[last_index+1]]
                 last_pair_times = self.t[last_pair]
                 debug_message(
                     f"At least a pair of {extrema_type} are too close to "
@@ -1468,12 +1468,12 @@ class eccDefinition:
                     " Last pair of such extrema is located in the first half"
                     f" of the {extrema_type} locations between {last_pair},"
                     f"i.e., t={last_pair_times}.\n"
-                    f" {extrema_type} before {extrema_location[last_index]}"
-                    f" i.e., t < {self.t[extrema_location[last_index]]} "
+                    f" {extrema_type} before {extrema_location[last_index+1]}"
+                    f" i.e., t < {self.t[extrema_location[last_index+1]]} "
                     "are dropped.",
                     self.debug_level, important=False)
                 extrema_location = extrema_location[
-                    extrema_location >= extrema_location[last_index]]
+                    extrema_location >= extrema_location[last_index+1]]
         return extrema_location
 
     def get_good_extrema(self, pericenters, apocenters,
-- 
2.43.0


From ba3d199678391f1a58432f73a160c71526cd240c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 10/27] fix: truncate_waveform_by_flow works again

It used interp_extrema, which does not exist anymore, did not provide a
reference point, which is required to create the eccDefinition object, and
looked for hlm in the object's dataDict, which contains amplm, phaselm and
omegalm instead.
---
 gw_eccentricity/truncate_waveform_by_flow.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/gw_eccentricity/truncate_waveform_by_flow.py b/gw_eccentricity/truncate_waveform_by_flow.py
index 87306e1..023d321 100644
--- a/gw_eccentricity/truncate_waveform_by_flow.py
+++ b/gw_eccentricity/truncate_waveform_by_flow.py
@@ -1,5 +1,6 @@
 """Truncate waveform by flow."""
 from gw_eccentricity import get_available_methods
+from gw_eccentricity.utils import get_interpolant
 import numpy as np
 import copy
 
@@ -72,7 +73,10 @@ def truncate_waveform_by_flow(dataDict=None,
     available_methods = get_available_methods(return_dict=True)
 
     if method in available_methods:
+        # Only the extrema are needed. So any time can be used as the reference
+        # time.
         gwecc_object = available_methods[method](dataDict,
+                                                 tref_in=dataDict["t"],
                                                  extra_kwargs=extra_kwargs)
         # Get the pericenters
         pericenters = gwecc_object.find_extrema("pericenters")
@@ -84,10 +88,15 @@ def truncate_waveform_by_flow(dataDict=None,
         gwecc_object.pericenters_location = gwecc_object.drop_extrema_if_too_close(
             pericenters, extrema_type="pericenters")
         # Build the interpolants of omega22 at the extrema
-        gwecc_object.omega22_pericenters_interp = gwecc_object.interp_extrema("pericenters")
+        gwecc_object.omega22_pericenters_interp = get_interpolant(
+            gwecc_object.t[gwecc_object.pericenters_location],
+            gwecc_object.omega_gw[gwecc_object.pericenters_location])
+    else:
+        raise Exception(f"Invalid method {method}, has to be one of"
+                        f" {list(available_methods.keys())}")
     # If m_max is not provided, get the highest available m from the dataDict
     if m_max is None:
-        modes = gwecc_object.dataDict["hlm"].keys()
+        modes = gwecc_object.dataDict["amplm"].keys()
         m_max = max([m for (l, m) in modes])
     # Find time where omega22_apocenter_interp(tlow) = 2 * pi * flow
     tmin = gwecc_object.t[gwecc_object.pericenters_location[0]]
@@ -103,9 +112,10 @@ def truncate_waveform_by_flow(dataDict=None,
     tlow = gwecc_object.t_pericenters_interp[idx_low]
 
     truncatedDict = copy.deepcopy(dataDict)
-    for mode in truncatedDict["hlm"]:
-        truncatedDict["hlm"][mode] \
-            = truncatedDict["hlm"][mode][truncatedDict["t"] >= tlow]
+    for key in ["hlm", "amplm", "phaselm", "omegalm"]:
+        for mode in truncatedDict.get(key, {}):
+            truncatedDict[key][mode] \
+                = truncatedDict[key][mode][truncatedDict["t"] >= tlow]
     truncatedDict["t"] = truncatedDict["t"][truncatedDict["t"] >= tlow]
 
     gwecc_object.method = method
-- 
2.43.0


From a1eb352441871f8a985c27467ce44926359ff2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 11/27] fix: diagnostic data of AmplitudeFits contained
 omega_gw instead of amp_gw

---
 gw_eccentricity/eccDefinitionUsingAmplitudeFits.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gw_eccentricity/eccDefinitionUsingAmplitudeFits.py b/gw_eccentricity/eccDefinitionUsingAmplitudeFits.py
index 6d569d6..05c2065 100644
--- a/gw_eccentricity/eccDefinitionUsingAmplitudeFits.py
+++ b/gw_eccentricity/eccDefinitionUsingAmplitudeFits.py
@@ -40,6 +40,9 @@ class eccDefinitionUsingAmplitudeFits(eccDefinitionUsingFrequencyFits):
         # way to do this but scaling the amp_gw data by its value at the global
         # peak (the merger time) solves this issue.
         self.data_for_finding_extrema /= self.amp_gw_merger
+        # The diagnostic data is set to omega_gw in the parent class.
+        if self.return_diagnostic_data:
+            self.diagnostic_data_dict["data"] = self.data_for_finding_extrema
 
     def get_default_kwargs_for_fits_methods(self):
         """Get default fits kwargs.
-- 
2.43.0


From e294d51192c3435397335b6a0a33647ea5ae7f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 12/27] fix: errors in mean anomaly are off by 2pi when one is
 wrapped at the start

---
 gw_eccentricity/compare_methods.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/compare_methods.py b/gw_eccentricity/compare_methods.py
index 4717f95..fd632bb 100644
--- a/gw_eccentricity/compare_methods.py
+++ b/gw_eccentricity/compare_methods.py
@@ -92,10 +92,12 @@ def compute_errors_between_methods(gwecc_obj1,
     # Compute errors in mean anomaly at common tref_out
     mean_ano_ref_1_common = gwecc_obj1.mean_anomaly[common_idx1]
     mean_ano_ref_2_common = gwecc_obj2.mean_anomaly[common_idx2]
-    # We need to unwrap the mean anomaly since zero and
-    # 2pi should be treated as the same and hence should give zero errors.
+    # Zero and 2pi should be treated as the same and hence should give zero
+    # errors. So we take the difference modulo 2pi. Unwrapping the two mean
+    # anomalies separately would leave an offset of 2pi between these when only
+    # one of these starts on the other side of zero.
+    mean_ano_diff = mean_ano_ref_1_common - mean_ano_ref_2_common
     mean_ano_errors = np.abs(
-        np.unwrap(mean_ano_ref_1_common)
-        - np.unwrap(mean_ano_ref_2_common))
+        (mean_ano_diff + np.pi) % (2 * np.pi) - np.pi)
     return tref_out_1_common, ecc_errors, mean_ano_errors, ecc_ref_1_common,\
         ecc_ref_2_common, mean_ano_ref_1_common, mean_ano_ref_2_common
-- 
2.43.0


From 6baf19a64d1a544b7d386427065bf1761f3b055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 13/27] fix: get_interpolant overrides ext in the dictionary of
 the caller

---
 gw_eccentricity/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/utils.py b/gw_eccentricity/utils.py
index d7f78a7..be63e47 100644
--- a/gw_eccentricity/utils.py
+++ b/gw_eccentricity/utils.py
@@ -292,9 +292,10 @@ def get_interpolant(oldX,
                 kwargs = spline_kwargs.copy()
                 kwargs["k"] = len(oldX) - 1
             else:
-                kwargs = spline_kwargs
+                # make a copy since kwargs["ext"] may be overridden below
+                kwargs = spline_kwargs.copy()
         else:
-            raise Exception("Number of data points is {len(oldX)}."
+            raise Exception(f"Number of data points is {len(oldX)}."
                             " Cannot build an interpolant.")
         # If allowExtrapolation is True but ext=2 then raise a warning
         # and override ext to 0
-- 
2.43.0


From ea37150a32ec3b1959417ed1715b58b53bf91be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 14/27] fix: pass mean_ano to the LAL waveform generator

mean_ano is a documented and required keyword of load_LAL_waveform but it was
ignored and the waveform was always generated with zero mean anomaly.
---
 gw_eccentricity/load_data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index e2a8a16..35f2821 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -305,6 +305,7 @@ def load_LAL_waveform_using_hack(approximant, q, chi1, chi2, ecc, mean_ano,
     # h = hp -1j * hc
     t, h = generate_LAL_waveform(approximant, q, chi1, chi2,
                                  deltaTOverM, Momega0, eccentricity=ecc,
+                                 meanPerAno=mean_ano,
                                  phi_ref=phi_ref, inclination=inclination,
                                  physicalUnits=physicalUnits, M=M, D=D)
 
-- 
2.43.0


From 74b222e0ea69cf6f8497a40d390a1dff163a30af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 15/27] fix: zeroecc counterpart of LVCNR waveforms fails when
 mean anomaly is unknown

The mean anomaly in the metadata may be missing, in which case it is set to
None. load_LAL_waveform raises an exception if mean_ano is None.
---
 gw_eccentricity/load_data.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index 35f2821..1e4d850 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -734,8 +734,10 @@ def load_lvcnr_waveform(**kwargs):
 
     if kwargs["include_zero_ecc"]:
         params_dict_zero_ecc = params_dict.copy()
+        # The mean anomaly, which may also be None, is not relevant for zeroecc.
         params_dict_zero_ecc.update(
-            {"approximant": kwargs["zero_ecc_approximant"]})
+            {"approximant": kwargs["zero_ecc_approximant"],
+             "mean_ano": 0.0})
         dataDict_zero_ecc = get_zeroecc_dataDict_for_nr(
             return_dict, params_dict_zero_ecc)
         return_dict.update(dataDict_zero_ecc)
@@ -1880,8 +1882,10 @@ def load_lvcnr_hack(**kwargs):
 
     if kwargs["include_zero_ecc"]:
         params_dict_zero_ecc = params_dict.copy()
+        # The mean anomaly is not relevant for zeroecc.
         params_dict_zero_ecc.update(
-            {"approximant": kwargs["zero_ecc_approximant"]})
+            {"approximant": kwargs["zero_ecc_approximant"],
+             "mean_ano": 0.0})
         dataDict_zeroecc = get_zeroecc_dataDict_for_nr(
             return_dict, params_dict_zero_ecc)
         return_dict.update(dataDict_zeroecc)
-- 
2.43.0


From f2d7967569792362c647e1a4bc991db3e3092318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 16/27] fix: negative start index when truncating the zeroecc
 waveform

If the zeroecc waveform starts within 10 indices from the start of the NR
waveform, the index becomes negative and only the last few points are kept.
---
 gw_eccentricity/load_data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/load_data.py b/gw_eccentricity/load_data.py
index 1e4d850..4b41d8b 100644
--- a/gw_eccentricity/load_data.py
+++ b/gw_eccentricity/load_data.py
@@ -1412,8 +1412,8 @@ def get_zeroecc_dataDict_for_nr(nr_dataDict, params_dict):
     # Finally we want to return zeroecc data only about the length of the
     # eccentric waveform and truncate the rest of the waveform to avoid
     # wasting computing resources
-    start_zeroecc_idx = np.argmin(
-        np.abs(t_zeroecc - nr_dataDict["t"][0])) - 10
+    start_zeroecc_idx = max(np.argmin(
+        np.abs(t_zeroecc - nr_dataDict["t"][0])) - 10, 0)
     for key in hlm_zeroecc.keys():
         hlm_zeroecc[key] = hlm_zeroecc[key][start_zeroecc_idx:]
 
-- 
2.43.0


From 02621cb5044c99f147957150447bb632a6093813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 17/27] fix: rational fits print information when debug_level
 is -1

verbose was set to debug_level, and -1 is interpreted as True.
---
 gw_eccentricity/eccDefinition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 81ef2f9..c60f227 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1222,7 +1222,7 @@ class eccDefinition:
             # set verbose to debug_level. If verbose is True, then it prints
             # information of each iteration for rational fits for a given
             # degree.
-            self.special_interp_kwargs_for_omega_gw_extrema["verbose"] = self.debug_level
+            self.special_interp_kwargs_for_omega_gw_extrema["verbose"] = self.debug_level >= 1
             # keep history of rational fit degree and nonmonotonicity of the
             # corresponding fits
             self.rational_fit_nonmonotonicity_history = {
-- 
2.43.0


From 585e6c2d8862f876ce7f3f8d30506ab8bbe378db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 18/27] fix: use debug_level for the message on small
 eccentricity failure

debug_level was hard-coded as 0, so the message was shown also when the user
set debug_level to -1.
---
 gw_eccentricity/eccDefinition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index c60f227..33bb693 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -1858,7 +1858,7 @@ class eccDefinition:
                     "Instead the eccentricity and mean anomaly will be set to "
                     "zero.",
                     important=True,
-                    debug_level=0)
+                    debug_level=self.debug_level)
             else:
                 recommended_methods = ["ResidualAmplitude", "AmplitudeFits"]
                 if self.method not in recommended_methods:
-- 
2.43.0


From 1036f870609231f08b246f4e13c37ba3b04d77c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 19/27] fix: do not lose the checkpoint if killed while writing
 it

---
 gw_eccentricity/postprocess/postprocess_cli.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 76186e5..dfb1676 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -5,6 +5,7 @@ import importlib
 import importlib.util
 import json
 import logging
+import os
 import time
 from pathlib import Path
 from typing import TypedDict, Callable
@@ -186,7 +187,11 @@ def save_checkpoint(results: list, config: PostProcessConfig) -> None:
     """Save results to checkpoint file (parquet format)."""
     results_df = PostProcessResults([r for r in results if r is not None]).to_dataframe()
     checkpoint_path = f"{config['output_dir']}/checkpoint.parquet"
-    results_df.to_parquet(checkpoint_path)
+    # Write to a temporary file first so that an existing checkpoint is not lost
+    # if the job is killed while writing.
+    tmp_path = f"{checkpoint_path}.tmp"
+    results_df.to_parquet(tmp_path)
+    os.replace(tmp_path, checkpoint_path)
     logger.info("Checkpoint saved: %s", checkpoint_path)
 
 
-- 
2.43.0


From ff78a14e6d1b1fdcae10faa1a0d408f079ed7b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 20/27] fix: keep checkpointed results of samples that are not
 selected

When resuming with a different selection of samples, writing the checkpoint
removed the results of all the samples that were not in the selection.
---
 .../postprocess/postprocess_cli.py            | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index dfb1676..c9838ba 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -333,6 +333,9 @@ def master(posterior: pd.DataFrame, config: PostProcessConfig) -> None:
     # ``results[pos]`` is the canonical storage, where ``pos`` follows
     # ``selected_posterior`` row order.
     results = [None] * n
+    # Checkpointed results for samples that are not selected in this run. These
+    # are retained when the checkpoint is written again.
+    other_results = []
 
     # Build index->position map only when needed (checkpoint replay or MPI).
     sample_index_to_pos = None
@@ -343,16 +346,20 @@ def master(posterior: pd.DataFrame, config: PostProcessConfig) -> None:
     if checkpoint_df is not None and sample_index_to_pos is not None:
         for row_dict in checkpoint_df.to_dict('records'):
             sample_idx = row_dict["sample_index"]
+            if pd.isna(sample_idx):
+                continue
+            res = PostProcessResult(
+                sample_index=int(sample_idx),
+                status=row_dict["status"],
+                egw=row_dict.get("egw"),
+                lgw=row_dict.get("lgw"),
+                error_message=row_dict.get("error_message"),
+            )
             if sample_idx in sample_index_to_pos:
                 pos = sample_index_to_pos[sample_idx]
-                res = PostProcessResult(
-                    sample_index=int(sample_idx),
-                    status=row_dict["status"],
-                    egw=row_dict.get("egw"),
-                    lgw=row_dict.get("lgw"),
-                    error_message=row_dict.get("error_message"),
-                )
                 results[pos] = res
+            else:
+                other_results.append(res)
 
     n_to_process = len(to_process)
     logger.info(
@@ -384,11 +391,11 @@ def master(posterior: pd.DataFrame, config: PostProcessConfig) -> None:
             progress.tick()
 
             if checkpoint_interval and samples_since_checkpoint >= checkpoint_interval:
-                save_checkpoint(results, config)
+                save_checkpoint(other_results + results, config)
                 samples_since_checkpoint = 0
 
         if checkpoint_interval and samples_since_checkpoint > 0:
-            save_checkpoint(results, config)
+            save_checkpoint(other_results + results, config)
 
         save_final(results, row_indices, selected_posterior, config)
         return
@@ -422,7 +429,7 @@ def master(posterior: pd.DataFrame, config: PostProcessConfig) -> None:
             progress.tick()
 
             if checkpoint_interval and samples_since_checkpoint >= checkpoint_interval:
-                save_checkpoint(results, config)
+                save_checkpoint(other_results + results, config)
                 samples_since_checkpoint = 0
 
         # Send next batch to the freed worker
@@ -436,7 +443,7 @@ def master(posterior: pd.DataFrame, config: PostProcessConfig) -> None:
             comm.send(_STOP, dest=worker_rank)
 
     if checkpoint_interval and samples_since_checkpoint > 0:
-        save_checkpoint(results, config)
+        save_checkpoint(other_results + results, config)
 
     save_final(results, row_indices, selected_posterior, config)
 
-- 
2.43.0


From 384aa0517688862f7c8cb098d7f13b96278963d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 21/27] fix: workers wait forever when no sample is selected

With no results, the dataframe had no columns and save_final raised KeyError
before the workers were told to stop.
---
 gw_eccentricity/postprocess/core.py            | 10 +++++++---
 gw_eccentricity/postprocess/postprocess_cli.py |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/gw_eccentricity/postprocess/core.py b/gw_eccentricity/postprocess/core.py
index bf2a628..e4b2144 100644
--- a/gw_eccentricity/postprocess/core.py
+++ b/gw_eccentricity/postprocess/core.py
@@ -1,6 +1,6 @@
 """Core postprocessing functions for measuring eccentricity from waveform modes."""
 from __future__ import annotations
-from dataclasses import dataclass
+from dataclasses import dataclass, fields
 import logging
 import pandas as pd
 from ..gw_eccentricity import measure_eccentricity
@@ -21,7 +21,9 @@ class PostProcessResults:
 
     def to_dataframe(self) -> pd.DataFrame:
         """Convert the list of PostProcessResult to a pandas DataFrame."""
-        return pd.DataFrame([result.__dict__ for result in self.results])
+        return pd.DataFrame(
+            [result.__dict__ for result in self.results],
+            columns=[field.name for field in fields(PostProcessResult)])
 
     def success_only(self) -> list[PostProcessResult]:
         """Filter successful results."""
@@ -53,7 +55,9 @@ class FrefBoundsResults:
 
     def to_dataframe(self) -> pd.DataFrame:
         """Convert the list of FrefBoundsResult to a pandas DataFrame."""
-        return pd.DataFrame([result.__dict__ for result in self.results])
+        return pd.DataFrame(
+            [result.__dict__ for result in self.results],
+            columns=[field.name for field in fields(FrefBoundsResult)])
     
     def success_only(self) -> list[FrefBoundsResult]:
         """Filter successful results."""
diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index c9838ba..8e6c9ff 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -369,11 +369,11 @@ def master(posterior: pd.DataFrame, config: PostProcessConfig) -> None:
 
     if n_to_process == 0:
         logger.info("All samples already processed.")
-        save_final(results, row_indices, selected_posterior, config)
         # Signal workers to stop if running MPI
         if size > 1:
             for worker_rank in range(1, size):
                 comm.send(_STOP, dest=worker_rank)
+        save_final(results, row_indices, selected_posterior, config)
         return
 
     logger.info("Processing %d samples across %d rank(s).", n_to_process, size)
-- 
2.43.0


From f972bf59808bda6382bf7c5492153dd9fa9db72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 22/27] fix: refuse batch size less than 1

With zero batch size the master sends empty batches forever.
---
 gw_eccentricity/postprocess/postprocess_cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gw_eccentricity/postprocess/postprocess_cli.py b/gw_eccentricity/postprocess/postprocess_cli.py
index 8e6c9ff..af6a874 100644
--- a/gw_eccentricity/postprocess/postprocess_cli.py
+++ b/gw_eccentricity/postprocess/postprocess_cli.py
@@ -531,6 +531,9 @@ def build_config_from_cli() -> PostProcessConfig:
     if not ((args.tref is None) ^ (args.fref is None)):
         parser.error("Provide exactly one of --fref or --tref, but not both.")
 
+    if args.batch_size < 1:
+        parser.error("--batch-size must be a positive integer.")
+
     # Each rank loads its own callable — callables cannot survive comm.bcast.
     return {
         "posterior_type": args.posterior_type,
-- 
2.43.0


From 7c8f39ee8cf4a923af5e67ef994e0d856161f5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 23/27] fix: get_summary fails with ZeroDivisionError when
 there are no results

---
 gw_eccentricity/postprocess/core.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/postprocess/core.py b/gw_eccentricity/postprocess/core.py
index e4b2144..4ed6808 100644
--- a/gw_eccentricity/postprocess/core.py
+++ b/gw_eccentricity/postprocess/core.py
@@ -35,7 +35,8 @@ class PostProcessResults:
         total = len(self.results)
         return {
             'total_samples': total,
-            'success_percentage': (len(successful) / total) * 100,
+            'success_percentage': (
+                (len(successful) / total) * 100 if total > 0 else 0),
             'egw': [r.egw for r in successful],
             'lgw': [r.lgw for r in successful]
         }
@@ -69,7 +70,8 @@ class FrefBoundsResults:
         total = len(self.results)
         return {
             'total_samples': total,
-            'success_percentage': (len(successful) / total) * 100,
+            'success_percentage': (
+                (len(successful) / total) * 100 if total > 0 else 0),
             'fref_min': [r.fref_min for r in successful],
             'fref_max': [r.fref_max for r in successful]
         }
-- 
2.43.0


From 51b1558317949847fd34a1559c50ddaa83831c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:13 +0000
Subject: [PATCH 24/27] fix: refine_extrema of AmplitudeFits depends on the
 units of time

The fitting interval, 0.05 radians, was converted to time using the data, which
is the amplitude in AmplitudeFits. For times in seconds the interval was as
long as the whole waveform and the fit failed.
---
 gw_eccentricity/eccDefinitionUsingFrequencyFits.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
index 6a09cdc..1c70a2b 100644
--- a/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
+++ b/gw_eccentricity/eccDefinitionUsingFrequencyFits.py
@@ -972,7 +972,9 @@ class eccDefinitionUsingFrequencyFits(eccDefinition):
                   "Npoints=", end='')
         for k in range(len(t_extrema)):
             # length of fitting interval = 0.05radians left/right
-            deltaT = 0.05 / data_extrema[k]
+            # Use omega_gw instead of data_extrema, as data may not be a frequency.
+            idx_extremum = np.argmin(np.abs(self.t - t_extrema[k]))
+            deltaT = 0.05 / self.omega_gw[idx_extremum]
             idx_refine = np.abs(self.t - t_extrema[k]) < deltaT
             # number of points to be used in fit
             N_refine = sum(idx_refine)
-- 
2.43.0


From d83ca3b0ef6399d35900ec15c45616878f264c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 25/27] fix: do not use orbit averages that may not exist in
 the debug plot

check_monotonicity_of_omega_gw_average plots the orbit averaged omega_gw,
which is not set when another averaging method is used, so that with
debug_plots=True it failed with an AttributeError.
---
 gw_eccentricity/eccDefinition.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index 33bb693..c70f6db 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -3115,16 +3115,23 @@ class eccDefinition:
                              c=colorsDict["default"])
                 axes[1].plot(np.diff(omega_gw_average), marker=".",
                              c=colorsDict["default"])
-                axes[2].plot(self.t_average_pericenters,
-                             self.orbit_averaged_omega_gw_pericenters,
-                             label=labelsDict["pericenters"],
-                             c=colorsDict["pericenter"],
-                             marker=".")
-                axes[2].plot(self.t_average_apocenters,
-                             self.orbit_averaged_omega_gw_apocenters,
-                             label=labelsDict["apocenters"],
-                             c=colorsDict["apocenter"],
-                             marker=".")
+                # the orbit averages are available only when they are used to
+                # get the omega_gw average
+                if hasattr(self, "t_average_pericenters") \
+                   and hasattr(self, "t_average_apocenters") \
+                   and hasattr(self, "orbit_averaged_omega_gw_pericenters") \
+                   and hasattr(self, "orbit_averaged_omega_gw_apocenters"):
+                    axes[2].plot(self.t_average_pericenters,
+                                 self.orbit_averaged_omega_gw_pericenters,
+                                 label=labelsDict["pericenters"],
+                                 c=colorsDict["pericenter"],
+                                 marker=".")
+                    axes[2].plot(self.t_average_apocenters,
+                                 self.orbit_averaged_omega_gw_apocenters,
+                                 label=labelsDict["apocenters"],
+                                 c=colorsDict["apocenter"],
+                                 marker=".")
+                    axes[2].legend()
                 axes[3].plot(self.t, self.omega_gw, c=colorsDict["default"])
                 axes[3].plot(self.t_pericenters,
                              self.omega_gw[self.pericenters_location],
@@ -3136,7 +3143,6 @@ class eccDefinition:
                              c=colorsDict["apocenter"],
                              label=labelsDict["apocenters"],
                              marker=".")
-                axes[2].legend()
                 axes[2].set_ylabel(labelsDict["omega_gw_average"])
                 axes[3].legend()
                 axes[3].set_ylim(0,)
-- 
2.43.0


From d540d7659968610fda8dc9a000c3f7040b1e5539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 26/27] fix: warnings from the spin filter obey the debug level
 of the measurement

The filter always used debug level 0 unless filter_kwargs said otherwise, so
its messages were shown at debug_level=-1 and did not raise at
debug_level=2.
---
 gw_eccentricity/eccDefinition.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gw_eccentricity/eccDefinition.py b/gw_eccentricity/eccDefinition.py
index c70f6db..7fe1120 100644
--- a/gw_eccentricity/eccDefinition.py
+++ b/gw_eccentricity/eccDefinition.py
@@ -481,9 +481,13 @@ class eccDefinition:
             extra_kwargs = {} if extra_kwargs is None else deepcopy(extra_kwargs)
             # set kwargs for filtering.
             user_filter_kwargs = extra_kwargs.get("filter_kwargs", {})
+            default_filter_kwargs = get_default_kwargs_for_filtering()
+            # unless specified otherwise, messages from the filtering obey the
+            # debug level of this measurement.
+            default_filter_kwargs["debug_level"] = self.debug_level
             filter_kwargs = check_kwargs_and_set_defaults(
                 user_filter_kwargs,
-                get_default_kwargs_for_filtering(),
+                default_filter_kwargs,
                 "filter_kwargs",
                 "spin_filter.get_default_kwargs_for_filtering()")
             # check if filtering is required and filter if necessary.
-- 
2.43.0


From ec670e1cc7b2cac52e833e2fe2e57629b9a4fd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:38 +0000
Subject: [PATCH 27/27] fix: convergence of the rational fit depends on the
 units of the data

---
 gw_eccentricity/rational_fit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gw_eccentricity/rational_fit.py b/gw_eccentricity/rational_fit.py
index 1759fd7..678a8a2 100644
--- a/gw_eccentricity/rational_fit.py
+++ b/gw_eccentricity/rational_fit.py
@@ -295,7 +295,9 @@ class RationalFit:
             Maximum number of iterations to attempt.
         tol : float, default 1e-7
             Tolerance on the change in fit between iterations; measured as the
-            2-norm of the difference in rational approximations.
+            2-norm of the difference in rational approximations relative to
+            the 2-norm of the data, so that it does not depend on the units of
+            the data.
         """
         # Scale x to [-1, 1] for better numerical stability
         x_scaled = _scale_x(self.x, self.x_min, self.x_max)
@@ -356,7 +358,7 @@ class RationalFit:
             if self.verbose:
                 print(f"Iteration {iteration}: delta_fit = {delta_fit:.2e}, res_norm = {res_norm:.2e}")
 
-            if delta_fit < tol:
+            if delta_fit < tol * np.linalg.norm(self.y):
                 if self.verbose:
                     print(f"Converged at iteration {iteration} (delta_fit={delta_fit:.2e}).")
                 break
-- 
2.43.0

