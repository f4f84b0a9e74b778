From c3307e615d0d1071504cd454e73b7da7a4b4a5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:46 +0000
Subject: [PATCH 01/36] fix: count the half cycles of signals with fewer than
 two interior extrema

Turning points were dropped altogether when a signal had no or only one
interior extremum, so e.g. [0, 10, 0] had no cycles and residuals of that
shape could not be resolved. First and last sample are turning points anyway.
---
 py_fatigue/cycle_count/rainflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index 7d823f8..34928d7 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -76,7 +76,7 @@ def findtp(x: np.ndarray) -> np.ndarray:
 
     ind = findextrema(x)
 
-    if ind.size < 2:
+    if np.size(x) < 2:
         return np.empty(0, dtype=np.int64)
 
     # # the Nieslony approach always put the first loading point as the first
-- 
2.43.0


From de3da7fc22c45f6db645fa1cec60e4db41f64d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:46 +0000
Subject: [PATCH 02/36] fix: do not report an empty cycle for signals starting
 with a plateau

Equal consecutive turning points form no cycle, but their row was still
returned, filled with zeros.
---
 py_fatigue/cycle_count/rainflow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index 34928d7..608f56e 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -399,7 +399,9 @@ def findrfc_astm(tp: np.ndarray, t: Optional[np.ndarray] = None) -> np.ndarray:
     # the sig_rfc was constructed too big in rainflow.rf3, so
     # reduce the sig_rfc array as done originally by a matlab mex c function
     # n = len(sig_rfc)
-    return sig_rfc[: n - cnr[0]]
+    # rows are left unused where equal consecutive points form no cycle
+    sig_rfc = sig_rfc[: n - cnr[0]]
+    return sig_rfc[sig_rfc[:, 2] > 0]
 
 
 def rainflow(
-- 
2.43.0


From 23afcc4ab7aa9fe10ef2744116b5ce724a7326b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:25:46 +0000
Subject: [PATCH 03/36] fix: find the extrema of narrow integer signals without
 wrap-around

Differences of unsigned or 8/16 bit samples overflowed in the type of the
signal, hiding or inventing extrema.
---
 py_fatigue/cycle_count/rainflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index 608f56e..b37c539 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -185,7 +185,7 @@ def findextrema(x: np.ndarray) -> np.ndarray:
     >>> a = plt.plot(t,x,'.',t[ind],x[ind],'r.')
     >>> plt.close('all')
     """
-    dx = np.diff(np.atleast_1d(x).ravel())
+    dx = np.diff(np.atleast_1d(x).ravel().astype(float))
     return findcross(dx) + 1
 
 
-- 
2.43.0


From ee41c153f4b99cff1a7c67dee4c273f75dfa8250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:02 +0000
Subject: [PATCH 04/36] fix: keep the stress unit when adding, scaling,
 resolving or correcting a count

The derived counts fell back to MPa whatever the unit of the operands was.
---
 py_fatigue/cycle_count/cycle_count.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index d8ddc3a..3affa6a 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -940,6 +940,7 @@ class CycleCount:
             count_cycle=np.hstack([self.count_cycle, other.count_cycle]),
             mean_stress=np.hstack([self.mean_stress, other.mean_stress]),
             stress_range=np.hstack([self.stress_range, other.stress_range]),
+            unit=self.unit,
             range_bin_lower_bound=added_range_bin_lower_bound,
             range_bin_width=added_range_bin_width,
             _mean_bin_lower_bound=added_mean_bin_lower_bound,
@@ -1184,6 +1185,7 @@ class CycleCount:
             stress_range=stress_ranges_corr,
             mean_stress=mean_stress_corr,
             timestamp=self_.timestamp,
+            unit=self_.unit,
             range_bin_lower_bound=self_.range_bin_lower_bound,
             range_bin_width=self_.range_bin_width,
             _mean_bin_lower_bound=self_.mean_bin_lower_bound,
@@ -1506,6 +1508,7 @@ def _multiplication_by_scalar(
         count_cycle=self_.count_cycle,
         mean_stress=mul_mean,
         stress_range=mul_range,
+        unit=self_.unit,
         range_bin_lower_bound=other_ * self_.range_bin_lower_bound,
         range_bin_width=other_ * self_.range_bin_width,
         _mean_bin_lower_bound=mul_mean_bin,
@@ -1734,6 +1737,7 @@ def _solve_lffd(
         stress_range=2 * res_rf[:, 0],
         mean_stress=res_rf[:, 1],
         timestamp=self_.timestamp,
+        unit=self_.unit,
         _mean_bin_lower_bound=self_.mean_bin_lower_bound,
         mean_bin_width=self_.mean_bin_width,
         range_bin_lower_bound=self_.range_bin_lower_bound,
@@ -1760,6 +1764,7 @@ def _solve_lffd(
         stress_range=self_.stress_range[self_.count_cycle > 0.5],
         mean_stress=self_.mean_stress[self_.count_cycle > 0.5],
         timestamp=self_.timestamp,
+        unit=self_.unit,
         _mean_bin_lower_bound=self_.mean_bin_lower_bound,
         mean_bin_width=self_.mean_bin_width,
         range_bin_lower_bound=self_.range_bin_lower_bound,
-- 
2.43.0


From 289976cf9f9b4464dd9141f75fcf562afc3f2204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:02 +0000
Subject: [PATCH 05/36] fix: keep small cycles and covered time stamps when
 scaling a count

A scaled sum only kept its first time stamp, so a count overlapping it in
time could be added, and its number of discarded small cycles became zero.
---
 py_fatigue/cycle_count/cycle_count.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 3affa6a..308f60d 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1513,6 +1513,7 @@ def _multiplication_by_scalar(
         range_bin_width=other_ * self_.range_bin_width,
         _mean_bin_lower_bound=mul_mean_bin,
         mean_bin_width=other_ * self_.mean_bin_width,
+        nr_small_cycles=self_.nr_small_cycles,
         residuals_sequence=mul_res_seq,
         _min_max_sequence=mul_min_max,
         lffd_solved=self_.lffd_solved,
@@ -1520,6 +1521,7 @@ def _multiplication_by_scalar(
         stress_concentration_factor=mul_scf,
         timestamp=self_.timestamp,
         name=str(self_.name) + ", SCF=" + str(other_),
+        _time_sequence=self_.time_sequence,
     )
 
     # mul_cc.stress_concentration_factor = (
-- 
2.43.0


From 81d88b155aa41180cba89b7a0848803bdb189f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:02 +0000
Subject: [PATCH 06/36] fix: return the count itself when there are no
 residuals to resolve

Resolving a count whose residual sequence is missing failed with an
unbound variable instead of returning the count after the warning.
---
 py_fatigue/cycle_count/cycle_count.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 308f60d..981fd75 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1837,7 +1837,7 @@ def _lffd_checks(self_: CycleCount, solve_mode: str) -> tuple:
         w_msg = "'residuals_sequence' is not available. Nothing to do."
         warnings.formatwarning = py_fatigue_formatwarning
         warnings.warn(w_msg, UserWarning)
-        return_self = True
+        return True, None
     if len(res_sequence) < 3:
         w_msg = "".join(
             (
-- 
2.43.0


From 3f5ec4f8d9073c6d4235e568df7bc6c125a4175b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:53 +0000
Subject: [PATCH 07/36] fix: do not overwrite the caller's means when enforcing
 pulsating load

Without residuals to resolve the correction worked on the caller's own
count and replaced its mean stresses.
---
 py_fatigue/cycle_count/cycle_count.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 981fd75..8c13667 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1114,7 +1114,9 @@ class CycleCount:
             warnings.warn(w_msg, UserWarning)
             return self
 
-        self_ = copy.deepcopy(self) if self.lffd_solved else self.solve_lffd()
+        self_ = copy.deepcopy(
+            self if self.lffd_solved else self.solve_lffd()
+        )
 
         if np.all((self_.mean_stress == 0)) and not enforce_pulsating_load:
             e_msg = "".join(
-- 
2.43.0


From 6236bf0301a3bad9d2f9828ff479bc8aafc2701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:52:53 +0000
Subject: [PATCH 08/36] fix: remember the mean stress correction when adding
 corrected counts

The sum of two counts corrected the same way was marked as uncorrected, so
a second correction was applied on top of the first one.
---
 py_fatigue/cycle_count/cycle_count.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 8c13667..8f10919 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -949,7 +949,11 @@ class CycleCount:
             residuals_sequence=added_res_seq,
             _min_max_sequence=added_min_max,
             lffd_solved=False,
-            mean_stress_corrected="No",
+            mean_stress_corrected=(
+                self.mean_stress_corrected
+                if self.mean_stress_corrected == other.mean_stress_corrected
+                else "No"
+            ),
             stress_concentration_factor=float(added_scf),
             timestamp=min(self.timestamp, other.timestamp),
             name=self.name,
-- 
2.43.0


From 077b5041c88d7c866e2b9098ec98f5b0fea66fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:51 +0000
Subject: [PATCH 09/36] fix: export the small cycles a count had already
 discarded

The exported number only covered the cycles dropped by the export itself,
so reading a dictionary and exporting it again lost the small cycles.
---
 py_fatigue/cycle_count/cycle_count.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 8f10919..db3a99d 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -663,6 +663,7 @@ class CycleCount:
             round_decimals=round_decimals,
             debug_mode=debug_mode,
         )
+        output_dict["nr_small_cycles"] += self.nr_small_cycles
         output_dict["res_sig"] = np.asarray(
             np.round(self.residuals_sequence, round_decimals)
         ).tolist()
-- 
2.43.0


From e35700e302acd29da2390c7cff457bd1a6da30d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:51 +0000
Subject: [PATCH 10/36] fix: export counts that have no residual signal

A count read from a dictionary without "res_sig" could not be exported.
---
 py_fatigue/cycle_count/cycle_count.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index db3a99d..1106776 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -664,9 +664,13 @@ class CycleCount:
             debug_mode=debug_mode,
         )
         output_dict["nr_small_cycles"] += self.nr_small_cycles
-        output_dict["res_sig"] = np.asarray(
-            np.round(self.residuals_sequence, round_decimals)
-        ).tolist()
+        output_dict["res_sig"] = (
+            []
+            if self.residuals_sequence is None
+            else np.asarray(
+                np.round(self.residuals_sequence, round_decimals)
+            ).tolist()
+        )
         return output_dict
 
     def _repr_html_(self) -> str:  # pragma: no cover
-- 
2.43.0


From 950085cbf1bd99e9c79306c9ac772521f3342df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:51 +0000
Subject: [PATCH 11/36] fix: read cycle-count dictionaries without half cycles

The layout of the histogram and of the large cycles was guessed from the
first half cycle, so an empty "res" section failed with an IndexError.
---
 py_fatigue/cycle_count/cycle_count.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 1106776..8fc955c 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -143,7 +143,7 @@ def _build_input_data_from_json(  # noqa: C901
         hst = np.array(hst)
     # A) Case without mean stress
     # Adding hist cycles
-    if len(data["hist"]) > 0 and not isinstance(data["res"][0], Iterable):
+    if len(data["hist"]) > 0 and not isinstance(data["hist"][0], Iterable):
         the_hist = np.asarray(data["hist"])
         zero_hist_counts = np.where(the_hist == 0)[0]
         range_bin_centers = np.around(
@@ -160,9 +160,8 @@ def _build_input_data_from_json(  # noqa: C901
         range_bin_centers = np.delete(range_bin_centers, zero_hist_counts)
     # Adding large cycles
     if len(data["lg_c"]) > 0 and not isinstance(
-        data["res"][0],
-        Iterable,  # isinstance(
-        # data["lg_c"][0], (float, int, np.int16, np.int32)
+        data["lg_c"][0],
+        Iterable,
     ):
         the_hist = np.hstack([the_hist, np.ones(len(data["lg_c"]))])
         range_bin_centers = np.hstack([range_bin_centers, data["lg_c"]])
-- 
2.43.0


From 705c9c467c1f66b2f7a0764088fe9a40a4dea6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:51 +0000
Subject: [PATCH 12/36] fix: always provide one bin when binning fatigue
 stresses

When the largest full cycle does not exceed the lower bound, e.g. a mean
stress of -5 with the default bins, there was no bin at all and exporting
the count failed.
---
 py_fatigue/utils.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index a027dac..b015bc8 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -204,10 +204,17 @@ class FatigueStress:
                 - self.bin_width / 2
             )
         if self._bin_ub is None:
-            self._bin_ub = bin_upper_bound(
-                self._bin_lb,
-                self.bin_width,
-                max(self.full) if len(self.full) > 0 else max(self._values),
+            self._bin_ub = max(
+                bin_upper_bound(
+                    self._bin_lb,
+                    self.bin_width,
+                    (
+                        max(self.full)
+                        if len(self.full) > 0
+                        else max(self._values)
+                    ),
+                ),
+                self._bin_lb + self.bin_width,
             )
 
     @property
-- 
2.43.0


From c55255176e96b1a0606671560a28b1efa6433d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:51 +0000
Subject: [PATCH 13/36] fix: keep the largest value in the last bin when edges
 are rounded

The bin edges are rounded to five decimals.  If the last one is rounded
below the largest value, the value was assigned to a bin that does not
exist and exporting the count failed with an IndexError.
---
 py_fatigue/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index b015bc8..f693e77 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -333,7 +333,7 @@ class FatigueStress:
         """
         digitized = np.digitize(self.full, self.bin_edges, right=True)
         digitized[np.where(digitized > 0)] -= 1
-        return digitized
+        return np.minimum(digitized, len(self.bin_centers) - 1)
 
     @property
     def binned_values(self):
-- 
2.43.0


From c1e011c4a3eee10f5bba8995cfdeacea02d9fd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:51 +0000
Subject: [PATCH 14/36] fix: accept sampled times in binned_rainflow

With times the rainflow function also returns the residual times, which
was not expected by the caller.
---
 py_fatigue/cycle_count/histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/histogram.py b/py_fatigue/cycle_count/histogram.py
index 2d4e42d..0617b71 100644
--- a/py_fatigue/cycle_count/histogram.py
+++ b/py_fatigue/cycle_count/histogram.py
@@ -585,7 +585,7 @@ def binned_rainflow(  # pylint: disable=too-many-arguments
     calc_rainflow
     rainflow_binner
     """
-    rfs, res_seq, _ = calc_rainflow(
+    rfs, res_seq, *_ = calc_rainflow(
         data=data,
         time=time,
         extended_output=True,
-- 
2.43.0


From 7cbda86771aa0b152c1086dfabce7258c7351d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:55 +0000
Subject: [PATCH 15/36] fix: report the bins of counts made of half cycles only

The upper bin bounds took the maximum of the full cycles and failed when
there were none.  Fall back to all cycles, as the export does.
---
 py_fatigue/cycle_count/cycle_count.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 8fc955c..fe26d7d 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -463,10 +463,11 @@ class CycleCount:
         float
             The upper bound of the mean stress bins (highest mean bin edge).
         """
+        full_means = self.full_cycles[:, 0]
         return pfu.bin_upper_bound(
             self.mean_bin_lower_bound,
             self.mean_bin_width,
-            max(self.full_cycles[:, 0]),
+            max(full_means if len(full_means) > 0 else self.mean_stress),
         )
 
     @property
@@ -478,10 +479,11 @@ class CycleCount:
         float
             The upper bound of the stress range bins (highest range bin edge).
         """
+        full_ranges = self.full_cycles[:, 1]
         return pfu.bin_upper_bound(
             self.range_bin_lower_bound,
             self.range_bin_width,
-            max(self.full_cycles[:, 1]),
+            max(full_ranges if len(full_ranges) > 0 else self.stress_range),
         )
 
     @property
-- 
2.43.0


From a196b011c9e8db2badac463e3b6ac4ebaadca4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:17 +0000
Subject: [PATCH 16/36] fix: report the endurance stress of single-slope S-N
 curves

It was always zero, although the stress never drops below the endurance
stress when an endurance is given.
---
 py_fatigue/material/sn_curve.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py_fatigue/material/sn_curve.py b/py_fatigue/material/sn_curve.py
index 96cb334..25a3a77 100644
--- a/py_fatigue/material/sn_curve.py
+++ b/py_fatigue/material/sn_curve.py
@@ -635,8 +635,7 @@ class SNCurve(AbstractSNCurve):
                     f"({self.get_knee_cycles()} cycles). ",
                     "\nConsider changing params",
                 )
-            return self.get_stress(self.endurance)
-        return 0.0
+        return self.get_stress(self.endurance)
 
     def format_name(self, html_format: bool = False) -> None:
         if not html_format:
-- 
2.43.0


From b3d70e33e17801d412d895bf47ca704c2c5606d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:17 +0000
Subject: [PATCH 17/36] fix: invert the Paris law on its first and last segment

Growth rates on the first segment always gave the threshold and those on
the last one the critical stress intensity, so single-slope curves could
not be inverted at all.
---
 py_fatigue/material/crack_growth_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index 354cf14..2f1d4e0 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -787,10 +787,10 @@ def _calc_sif(growth_rate, slope, intercept, threshold, critical):
     the_sif = np.empty(growth_rate.size, dtype=np.float64)
     nr_knees = intercept.size - 1
     for i in nb.prange(growth_rate.size):
-        if idx[i] <= 0:  # below threshold
+        if idx[i] < 0:  # below threshold
             the_sif[i] = threshold
             continue
-        if idx[i] >= nr_knees:  # above threshold
+        if idx[i] > nr_knees:  # above threshold
             the_sif[i] = critical
             continue
         the_sif[i] = (growth_rate[i] / intercept[idx[i]]) ** (
-- 
2.43.0


From 39f18daf8c16e7f5613df851cac24da5b44eb33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:52 +0000
Subject: [PATCH 18/36] fix: accept the documented names of the nonlinear
 damage rules

'Pavlou', 'Manson-Halford', 'Si-Jian' and 'Leve' were rejected because of
their capital letters and hyphens.
---
 py_fatigue/damage/stress_life.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_fatigue/damage/stress_life.py b/py_fatigue/damage/stress_life.py
index df7453e..a1c0842 100644
--- a/py_fatigue/damage/stress_life.py
+++ b/py_fatigue/damage/stress_life.py
@@ -686,6 +686,7 @@ def calc_nonlinear_damage(
         "si jian",
         "si jian et al",
     ]
+    damage_rule = damage_rule.lower().replace("-", " ")
     if damage_rule not in allowed_rules:
         e_msg = f"damage_rule must be one of {allowed_rules}"
         raise ValueError(e_msg)
-- 
2.43.0


From 00bb0f01c1b44a308e5d3374c3b011fbfcc209da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:23 +0000
Subject: [PATCH 19/36] fix: report no crack growth below the threshold
 intensity

calc_growth_rate overwrote the zero rate below the threshold with the rate
of the last segment of the curve.
---
 py_fatigue/damage/crack_growth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 2942446..d2beb50 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -232,7 +232,7 @@ class CalcCrackGrowth:
         knees = self.get_knees_sif
         if sif < self.threshold:
             the_growth_rate = 0.0
-        if sif > self.critical:
+        elif sif > self.critical:
             the_growth_rate = np.inf
         else:
             idx = np.digitize(np.asarray([sif]), knees, right=True) - 1
-- 
2.43.0


From 818666acfae3fdf523f364feeebd28ff38589d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:23 +0000
Subject: [PATCH 20/36] fix: propagate cracks over the fractional part of
 clustered cycles

Splitting a cluster of, e.g., 2.5 cycles into single cycles truncated the
remaining half cycle.
---
 py_fatigue/damage/crack_growth.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index d2beb50..2504857 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -483,6 +483,11 @@ def get_crack_growth(
             split(int(cycle), n) if int(cycle) > 0 else [cycle]
             for cycle, n in zip(cycle_count.count_cycle, splts)
         ]
+        # the fraction of a cycle that cannot be split is applied last
+        splt_cyc = [
+            splt + [cycle % 1] if cycle > 1 and cycle % 1 > 0 else splt
+            for cycle, splt in zip(cycle_count.count_cycle, splt_cyc)
+        ]
         splt_len = [len(_) for _ in splt_cyc]
 
         count_cycle = np.asarray(
@@ -608,6 +613,13 @@ class CrackGrowth:
                 split(int(cycle), n) if int(cycle) > 0 else [cycle]
                 for cycle, n in zip(self._obj["count_cycle"].values, splts)
             ]
+            # the fraction of a cycle that cannot be split is applied last
+            splt_cyc = [
+                splt + [cycle % 1] if cycle > 1 and cycle % 1 > 0 else splt
+                for cycle, splt in zip(
+                    self._obj["count_cycle"].values, splt_cyc
+                )
+            ]
             splt_len = [len(_) for _ in splt_cyc]
 
             count_cycle = np.asarray(
-- 
2.43.0


From 90ee16798f16f3691776656d160bb31a2a34ed03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:23 +0000
Subject: [PATCH 21/36] fix: align crack growth results with the rows of
 clustered tables

The results of the split load steps were assigned to the wrong rows, or
raised an IndexError, for tables with clustered cycles that fail, that are
propagated in express mode or that contain fractional cycles.
---
 py_fatigue/damage/crack_growth.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 2504857..16aec1d 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -629,6 +629,7 @@ class CrackGrowth:
                 self._obj["stress_range"].values, splt_len
             )
         else:
+            splt_len = [1] * len(self._obj)
             stress_range = self._obj["stress_range"].values
             count_cycle = self._obj["count_cycle"].values
 
@@ -655,24 +656,17 @@ class CrackGrowth:
         cumul_cycle = np.cumsum(cg_.count_cycle[: len(cg_.crack_depth)])
         # manage the fact that clustered cycles are split in cg analysys
         # while the df keeps them clustered
-        d_l = len(self._obj) - len(cg_.crack_depth)
-        if d_l >= 0:
-            self._obj["crack_depth"] = np.concatenate(
-                (cg_.crack_depth, np.full(d_l, np.nan))
-            )
-            self._obj["sif"] = np.concatenate((cg_.sif, np.full(d_l, np.nan)))
-            self._obj["cumul_cycle"] = np.concatenate(
-                (cumul_cycle, np.full(d_l, np.nan))
-            )
-            self._obj["geometry_factor"] = np.concatenate(
-                (cg_.geometry_factor, np.full(d_l, np.nan))
-            )
-        else:
-            idx = np.asarray(self._obj["count_cycle"].cumsum(), dtype=int) - 1
-            self._obj["crack_depth"] = cg_.crack_depth[idx]
-            self._obj["sif"] = cg_.sif[idx]
-            self._obj["cumul_cycle"] = cumul_cycle[idx]
-            self._obj["geometry_factor"] = cg_.geometry_factor[idx]
+        idx = np.cumsum(splt_len) - 1
+        done = idx < len(cg_.crack_depth)
+        for col, values in (
+            ("crack_depth", cg_.crack_depth),
+            ("sif", cg_.sif),
+            ("cumul_cycle", cumul_cycle),
+            ("geometry_factor", cg_.geometry_factor),
+        ):
+            row_values = np.full(len(self._obj), np.nan)
+            row_values[done] = values[idx[done]]
+            self._obj[col] = row_values
         self._obj.cg_curve = cg_curve
         self.cg_curve = cg_curve
         self._obj.crack_geometry = crack_geometry
-- 
2.43.0


From 15e9daba6e6b28598bafa4860b00caed9d6d82cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:23 +0000
Subject: [PATCH 22/36] fix: geometry factor of cracks deeper than half their
 width

The crack-front arc of such cracks spans more than half a circle, for which
the arcsine returns the supplementary angle.
---
 py_fatigue/geometry/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/geometry/cylinder.py b/py_fatigue/geometry/cylinder.py
index 20b6eba..3cc27c5 100644
--- a/py_fatigue/geometry/cylinder.py
+++ b/py_fatigue/geometry/cylinder.py
@@ -282,7 +282,7 @@ def f_hol_cyl_01(
     # radius of crack-front arc
     crack_radius: float = (c_v**2 + a_h**2) / (2 * a_h)
     # angle of crack-front arc
-    beta: float = np.arcsin(c_v / crack_radius)
+    beta: float = 2 * np.arctan(a_h / c_v)
     # areas
     # * circular ring
     area_0: float = np.pi * (outer_radius**2 - inner_radius**2)
-- 
2.43.0


From df4b20508ea4960e0d42ae44df4f27a0f9e80db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:23 +0000
Subject: [PATCH 23/36] fix: sum lists of cycle counts with only missing
 entries

Such lists raised an IndexError, also when aggregating a period without any
cycle count.
---
 py_fatigue/cycle_count/cycle_count.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index fe26d7d..b776ef3 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1879,11 +1879,13 @@ def pbar_sum(cc_list: Sequence[CycleCount]) -> CycleCount:
         The sum of the CycleCount objects.
     """
 
+    cc_list = [cc for cc in cc_list if cc is not None]
+    if len(cc_list) == 0:
+        return None  # type: ignore
     if len(cc_list) == 1:
         return cc_list[0]
 
     chunk_size = int(np.sqrt(len(cc_list)))
-    cc_list = [cc for cc in cc_list if cc is not None]
 
     sleep(0.15)
     chunked_cc_list = list(pfu.chunks(cc_list, chunk_size))
-- 
2.43.0


From 761f69b8a1729110ec4336669a513d5a9c1dd53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:23 +0000
Subject: [PATCH 24/36] fix: aggregate the damage of S-N curves sharing the
 same name

Only the last one of the S-N curves with the same name was used.
---
 py_fatigue/cycle_count/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/utils.py b/py_fatigue/cycle_count/utils.py
index 7713ae6..3cfb2d1 100644
--- a/py_fatigue/cycle_count/utils.py
+++ b/py_fatigue/cycle_count/utils.py
@@ -259,7 +259,7 @@ def calc_aggregated_damage(
             sn = {sn.name: sn}
         elif isinstance(sn, list):
             if all(isinstance(s, SNCurve) for s in sn):
-                sn = {s.name: s for s in sn}
+                sn = {i: s for i, s in enumerate(sn)}  # type: ignore
             else:
                 raise TypeError(
                     "The S-N curves must be a dict, a list of SNCurve or a "
-- 
2.43.0


From ace6e1030a1a629dcd328730d6daf01cbfad7228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:23 +0000
Subject: [PATCH 25/36] fix: aggregate tables with column labels that are not
 strings

---
 py_fatigue/cycle_count/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/utils.py b/py_fatigue/cycle_count/utils.py
index 3cfb2d1..3d087db 100644
--- a/py_fatigue/cycle_count/utils.py
+++ b/py_fatigue/cycle_count/utils.py
@@ -142,7 +142,9 @@ def aggregate_cc(
     df_agg_rr = df_agg.applymap(solve_lffd)
 
     cc_cols: list[str] = [
-        col for col in df_agg_rr.columns if col.startswith("CC_")
+        col
+        for col in df_agg_rr.columns
+        if isinstance(col, str) and col.startswith("CC_")
     ]
 
     if not save_residuals:
@@ -266,7 +268,11 @@ def calc_aggregated_damage(
                     "SNCurve."
                 )
 
-    cc_cols: list[str] = [col for col in df.columns if col.startswith("CC_")]
+    cc_cols: list[str] = [
+        col
+        for col in df.columns
+        if isinstance(col, str) and col.startswith("CC_")
+    ]
     damages = pd.DataFrame()
     for _, sn_curve in sn.items():
         df_1 = df[cc_cols].applymap(
-- 
2.43.0


From 3d895d707f44c691b95420b6da8ccac48379d65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:18:23 +0000
Subject: [PATCH 26/36] fix: compare cycle counts with and without residuals

Comparing a scalar or None to an array returned an array, so comparing a
count without residuals to one with residuals raised a ValueError.
---
 py_fatigue/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index f693e77..9c8e1a0 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -475,7 +475,7 @@ def compare(a: Any, b: Any) -> bool:
     """
     # print(f"a: {a}, b: {b}")
     if not hasattr(a, "__iter__") or isinstance(a, str):
-        return a == b
+        return not isinstance(b, np.ndarray) and a == b
 
     try:
         if not len(a) == len(b):
-- 
2.43.0


From cd5d6a81155a3ad02525928ea6f4a09b7e9ec602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:28:34 +0000
Subject: [PATCH 27/36] fix: propagate cracks over integer and strided cycles

Integer ranges and tables with reversed or skipped rows raised a typing
error because the compiled class only takes contiguous float arrays.
---
 py_fatigue/damage/crack_growth.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 16aec1d..23560e9 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -505,8 +505,8 @@ def get_crack_growth(
         raise ValueError("Unsupported crack geometry")
     geometry = to_numba_dict(crack_geometry.__dict__)
     cg = CalcCrackGrowth(
-        stress_range,
-        count_cycle,
+        np.ascontiguousarray(stress_range, dtype=np.float64),
+        np.ascontiguousarray(count_cycle, dtype=np.float64),
         cg_curve.slope,
         cg_curve.intercept,
         float(cg_curve.threshold),
@@ -640,8 +640,8 @@ class CrackGrowth:
         geometry = to_numba_dict(crack_geometry.__dict__)
 
         cg_ = CalcCrackGrowth(
-            stress_range,
-            count_cycle,
+            np.ascontiguousarray(stress_range, dtype=np.float64),
+            np.ascontiguousarray(count_cycle, dtype=np.float64),
             cg_curve.slope,
             cg_curve.intercept,
             float(cg_curve.threshold),
-- 
2.43.0


From 04f2bc70994127b8e752571e15f3533004e14d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:17 +0000
Subject: [PATCH 28/36] fix: find level crossings of narrow integer signals

Subtracting an integer level from a signal of a small or unsigned
integer type wrapped around, so crossings were missed or invented.
---
 py_fatigue/cycle_count/rainflow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index b37c539..d8f701f 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -138,7 +138,9 @@ def findcross(x: np.ndarray, v=0.0, kind=None) -> np.ndarray:
     if len(x) > 0 and np.isnan(np.min(x)):
         raise ValueError("data contain NaN")
 
-    xn = np.array(np.sign(np.atleast_1d(x).ravel() - v), dtype=np.int8)
+    xn = np.array(
+        np.sign(np.atleast_1d(x).ravel().astype(float) - v), dtype=np.int8
+    )
     ind = findcross_indices(xn)
     if ind.size == 0:
         warnings.warn(f"No level v = {v:0.5g} crossings found in x")
-- 
2.43.0


From 9973e0a2988f2a87ba5dbde4c98035fe156e04ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:17 +0000
Subject: [PATCH 29/36] fix: accept mode=None in xy_hist2d

None is documented as plotting the points in input order, and the error
message lists it as valid, but it was rejected.
---
 py_fatigue/cycle_count/histogram.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/histogram.py b/py_fatigue/cycle_count/histogram.py
index 0617b71..36885da 100644
--- a/py_fatigue/cycle_count/histogram.py
+++ b/py_fatigue/cycle_count/histogram.py
@@ -247,6 +247,8 @@ def xy_hist2d(
         iorder = np.argsort(dens)
     elif mode == "valley":
         iorder = np.argsort(dens)[::-1]
+    elif mode is None:
+        iorder = np.arange(len(dens))
     else:
         raise ValueError("mode must be one of [None, 'mountain', 'valley']")
     x = x[iorder]
-- 
2.43.0


From 5900ef5c7f543592b400d84ebe6467bf369ec76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:17 +0000
Subject: [PATCH 30/36] fix: plot the maximum stress in the min-max histogram

The minimum had already replaced the mean when the maximum was computed
from it, so the mean stress was drawn on the axis labelled max stress.
---
 py_fatigue/cycle_count/cycle_count.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index b776ef3..d1ad359 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1324,8 +1324,7 @@ class CycleCount:
             e_msg = f"Invalid plot type. Must be one of {plot_types}."
             raise ValueError(e_msg)
         if plot_type == "min-max":
-            x = x - y / 2
-            y = x + y / 2
+            x, y = x - y / 2, x + y / 2
             bins = bins if bins is not None else 50
         if "counts-range" in plot_type:
             sor = sorted(
-- 
2.43.0


From d35ea5f3ebaab016e50bbe12d8085f5bd6ca3e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:17 +0000
Subject: [PATCH 31/36] fix: draw on the given axes when no figure is passed

make_axes opened a new figure and ignored the axes unless the figure was
passed along with them.
---
 py_fatigue/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index 9c8e1a0..282d5e0 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -92,7 +92,9 @@ def make_axes(
     TypeError
         If fig is not a matplotlib.figure.Figure instance
     """
-    if fig is None:
+    if fig is None and ax is not None:
+        fig, axes = ax.get_figure(), ax
+    elif fig is None:
         fig, axes = plt.subplots()
     else:
         if not isinstance(fig, matplotlib.figure.Figure):  # type: ignore
-- 
2.43.0


From 7d10e3c708cc762b70b5e1679586ee56ceee8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:17 +0000
Subject: [PATCH 32/36] fix: plot crack fronts deeper than a half circle

The arc sine folds the opening angle of the crack-front arc back below
90 degrees, which detached the drawn front from the outer surface.
---
 py_fatigue/geometry/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/geometry/cylinder.py b/py_fatigue/geometry/cylinder.py
index 3cc27c5..8a6c4ad 100644
--- a/py_fatigue/geometry/cylinder.py
+++ b/py_fatigue/geometry/cylinder.py
@@ -182,7 +182,7 @@ class HollowCylinder(AbstractCrackGeometry):
         a_h = depth - r_o * (1 - np.cos(c_angle))
         r_e = (c_v**2 + a_h**2) / (2 * a_h)  # radius of crack-front arc
         # angle of crack-front arc
-        beta = np.arcsin(c_v / r_e)
+        beta = 2 * np.arctan(a_h / c_v)
         theta = np.linspace(-beta, beta, 100)  # θ (crack-front angle)
         phi = np.linspace(np.pi - c_angle, np.pi + c_angle, 100)
 
-- 
2.43.0


From ea1543704a3fd4852f6a375694380cd47ea1215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:19:17 +0000
Subject: [PATCH 33/36] fix: do not take Pa for MPa when checking crack growth
 units

The unit of the cycle count only had to be contained in the unit of the
crack growth curve, so stresses in Pa were accepted as if in MPa.
---
 py_fatigue/damage/crack_growth.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 23560e9..ad1ee5f 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -4,6 +4,7 @@ damage models related to the crack growth approach.
 
 # Packages from the Python Standard Library
 from typing import Dict, Tuple, Type, TypeVar
+import re
 
 # Packages from third party libraries
 from numba.experimental import jitclass
@@ -466,7 +467,9 @@ def get_crack_growth(
     # Handle the stress ranges and cycle counts as they might be clustered
     # in a matrix and we need to iterate over single or "little" cycles
     # within the same stress range block
-    if cycle_count.unit not in cg_curve.unit:
+    # "Pa" is part of "MPa √mm", yet the two are not compatible
+    unit_pattern = rf"(?<!\w){re.escape(cycle_count.unit)}"
+    if re.search(unit_pattern, cg_curve.unit) is None:
         e_msg = (
             f"Cycle count unit ({cycle_count.unit}) and crack growth "
             f"curve unit ({cg_curve.unit}) are not compatible."
-- 
2.43.0


From 00b3ea28af4c3505b0a72e9d22ae870c4fe6f950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:04 +0000
Subject: [PATCH 34/36] fix: label the damage plot with the stress unit of the
 table

The y axis was always labelled in MPa, whatever the unit of the count.
---
 py_fatigue/damage/stress_life.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/damage/stress_life.py b/py_fatigue/damage/stress_life.py
index a1c0842..0abdae7 100644
--- a/py_fatigue/damage/stress_life.py
+++ b/py_fatigue/damage/stress_life.py
@@ -198,7 +198,9 @@ class PalmgrenMiner:
             else "PM damage(" + str(dens_func) + ")"
         )
         ax.set_xlabel("# of cycles")
-        ax.set_ylabel("Stress range, MPa")
+        meta = self._obj._metadata
+        unit = meta["unit"] if "unit" in meta else "MPa"
+        ax.set_ylabel(f"Stress range, {unit}")
         cbar = plt.colorbar(im, ax=ax)
         cbar.set_label(cbar_label, rotation=270)
         cbar.ax.get_yaxis().labelpad = 10
-- 
2.43.0


From 40676c68aff634e89b89d4ad461085fad38045b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:01:04 +0000
Subject: [PATCH 35/36] fix: annotate the Paris curve threshold with its own
 unit

The threshold is a stress intensity, but the annotation gave it in growth
rate units.
---
 py_fatigue/material/crack_growth_curve.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index 2f1d4e0..a84fa2c 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -376,14 +376,9 @@ class ParisCurve(AbstractCrackGrowthCurve):
         fig.set_figwidth(7)
         max_x = np.max(ax.lines[0].get_xdata())
         max_y = np.max(ax.lines[0].get_ydata())
-        cg_unit = "[L][CYCLE]$^{-1}$"
-        if "√" in self.unit:
-            split_unit = self.unit.split("√")
-            cg_unit = "/".join((split_unit[1], "cycle"))
-
         ann_1 = f"{self.name},\nSlope: {self.slope},\nIntercept:"
         ann_2 = f"{self.intercept},\nThreshold: {self.threshold:.2f},"
-        ann_3 = f"{cg_unit},\nCritical: {self.critical:.2f}, {self.unit}"
+        ann_3 = f"{self.unit},\nCritical: {self.critical:.2f}, {self.unit}"
         annotation = " ".join((ann_1, ann_2, ann_3))
         ax.text(
             1.5 * max_x,
-- 
2.43.0


From d71bcff4b2e149cb712e24b0c94dd4214502571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:38:23 +0000
Subject: [PATCH 36/36] fix: export numpy scalars of a cycle count as plain
 numbers

The sum of two counts with integer bin widths holds numpy integers.
The exported dictionary kept them, so it could not be written as JSON.
---
 py_fatigue/cycle_count/histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/histogram.py b/py_fatigue/cycle_count/histogram.py
index 36885da..11c2eb5 100644
--- a/py_fatigue/cycle_count/histogram.py
+++ b/py_fatigue/cycle_count/histogram.py
@@ -680,7 +680,7 @@ def _build_binned_dict(
             np.around(list(zip(means.half, ranges.half)), round_decimals)
         ).tolist()
     for key, value in out_dct.items():
-        if isinstance(value, np.ndarray):
+        if isinstance(value, (np.ndarray, np.generic)):
             out_dct[key] = value.tolist()
 
     return out_dct
-- 
2.43.0

