From 57cc553ff54659497d2598e5732a3d5c82a64ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:17 +0000
Subject: [PATCH 01/46] fix: count signals with fewer than two interior extrema

findtp returned no turning points for monotone signals and for signals
with a single peak or valley, so [0, 10, 0] was counted as having no
cycles at all. Only a constant signal has no turning points.
---
 py_fatigue/cycle_count/rainflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index 7d823f8..0b818e9 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -76,7 +76,7 @@ def findtp(x: np.ndarray) -> np.ndarray:
 
     ind = findextrema(x)
 
-    if ind.size < 2:
+    if ind.size == 0 and (len(x) < 2 or np.max(x) == np.min(x)):
         return np.empty(0, dtype=np.int64)
 
     # # the Nieslony approach always put the first loading point as the first
-- 
2.43.0


From ff272c6ea6f797533e36d4bfeaab1744b3c283ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:17 +0000
Subject: [PATCH 02/46] fix: drop the empty rainflow row of signals starting on
 a plateau

When the first samples of a signal are equal, the array of counted
cycles ended with a row of zeros.
---
 py_fatigue/cycle_count/rainflow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index 0b818e9..082d965 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -399,7 +399,9 @@ def findrfc_astm(tp: np.ndarray, t: Optional[np.ndarray] = None) -> np.ndarray:
     # the sig_rfc was constructed too big in rainflow.rf3, so
     # reduce the sig_rfc array as done originally by a matlab mex c function
     # n = len(sig_rfc)
-    return sig_rfc[: n - cnr[0]]
+    sig_rfc = sig_rfc[: n - cnr[0]]
+    # turning points repeating the same value are not counted as cycles
+    return sig_rfc[sig_rfc[:, 2] > 0]
 
 
 def rainflow(
-- 
2.43.0


From 64c2e06892196da814739805276e8b0ab59fe059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:32:17 +0000
Subject: [PATCH 03/46] fix: find the extrema of unsigned and boolean signals

The differences between samples wrapped around for unsigned integers,
so signals from integer loggers had no turning points.
---
 py_fatigue/cycle_count/rainflow.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index 082d965..75dde58 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -138,7 +138,8 @@ def findcross(x: np.ndarray, v=0.0, kind=None) -> np.ndarray:
     if len(x) > 0 and np.isnan(np.min(x)):
         raise ValueError("data contain NaN")
 
-    xn = np.array(np.sign(np.atleast_1d(x).ravel() - v), dtype=np.int8)
+    x = np.atleast_1d(x).ravel().astype(np.float64)
+    xn = np.array(np.sign(x - v), dtype=np.int8)
     ind = findcross_indices(xn)
     if ind.size == 0:
         warnings.warn(f"No level v = {v:0.5g} crossings found in x")
@@ -185,7 +186,8 @@ def findextrema(x: np.ndarray) -> np.ndarray:
     >>> a = plt.plot(t,x,'.',t[ind],x[ind],'r.')
     >>> plt.close('all')
     """
-    dx = np.diff(np.atleast_1d(x).ravel())
+    # unsigned integers would wrap around in the difference
+    dx = np.diff(np.atleast_1d(x).ravel().astype(np.float64))
     return findcross(dx) + 1
 
 
-- 
2.43.0


From 9e006243635d6f83ba211ce0745f01e794dfb2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:19 +0000
Subject: [PATCH 04/46] fix: keep the unit of cycle counts through operations

Sums, scaled counts, LFFD-resolved counts and mean-stress corrected
counts were all relabelled as MPa whatever the unit of the operands.
---
 py_fatigue/cycle_count/cycle_count.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index d8ddc3a..3affa6a 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -940,6 +940,7 @@ class CycleCount:
             count_cycle=np.hstack([self.count_cycle, other.count_cycle]),
             mean_stress=np.hstack([self.mean_stress, other.mean_stress]),
             stress_range=np.hstack([self.stress_range, other.stress_range]),
+            unit=self.unit,
             range_bin_lower_bound=added_range_bin_lower_bound,
             range_bin_width=added_range_bin_width,
             _mean_bin_lower_bound=added_mean_bin_lower_bound,
@@ -1184,6 +1185,7 @@ class CycleCount:
             stress_range=stress_ranges_corr,
             mean_stress=mean_stress_corr,
             timestamp=self_.timestamp,
+            unit=self_.unit,
             range_bin_lower_bound=self_.range_bin_lower_bound,
             range_bin_width=self_.range_bin_width,
             _mean_bin_lower_bound=self_.mean_bin_lower_bound,
@@ -1506,6 +1508,7 @@ def _multiplication_by_scalar(
         count_cycle=self_.count_cycle,
         mean_stress=mul_mean,
         stress_range=mul_range,
+        unit=self_.unit,
         range_bin_lower_bound=other_ * self_.range_bin_lower_bound,
         range_bin_width=other_ * self_.range_bin_width,
         _mean_bin_lower_bound=mul_mean_bin,
@@ -1734,6 +1737,7 @@ def _solve_lffd(
         stress_range=2 * res_rf[:, 0],
         mean_stress=res_rf[:, 1],
         timestamp=self_.timestamp,
+        unit=self_.unit,
         _mean_bin_lower_bound=self_.mean_bin_lower_bound,
         mean_bin_width=self_.mean_bin_width,
         range_bin_lower_bound=self_.range_bin_lower_bound,
@@ -1760,6 +1764,7 @@ def _solve_lffd(
         stress_range=self_.stress_range[self_.count_cycle > 0.5],
         mean_stress=self_.mean_stress[self_.count_cycle > 0.5],
         timestamp=self_.timestamp,
+        unit=self_.unit,
         _mean_bin_lower_bound=self_.mean_bin_lower_bound,
         mean_bin_width=self_.mean_bin_width,
         range_bin_lower_bound=self_.range_bin_lower_bound,
-- 
2.43.0


From 7171aa77883b71338903b1ff88bd015998c9d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:19 +0000
Subject: [PATCH 05/46] fix: keep small cycles and time sequence when scaling

Multiplying a cycle count by a factor reset the number of small cycles
to zero and dropped the timestamps of a sum.
---
 py_fatigue/cycle_count/cycle_count.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 3affa6a..e74d061 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1515,11 +1515,13 @@ def _multiplication_by_scalar(
         mean_bin_width=other_ * self_.mean_bin_width,
         residuals_sequence=mul_res_seq,
         _min_max_sequence=mul_min_max,
+        nr_small_cycles=self_.nr_small_cycles,
         lffd_solved=self_.lffd_solved,
         mean_stress_corrected=self_.mean_stress_corrected,
         stress_concentration_factor=mul_scf,
         timestamp=self_.timestamp,
         name=str(self_.name) + ", SCF=" + str(other_),
+        _time_sequence=self_._time_sequence,
     )
 
     # mul_cc.stress_concentration_factor = (
-- 
2.43.0


From fe9a54f9a7247de73798a5a74c694ee103d0415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:19 +0000
Subject: [PATCH 06/46] fix: resolve LFFD of counts without residuals sequence

solve_lffd announced that there was nothing to do and then failed with
an UnboundLocalError.
---
 py_fatigue/cycle_count/cycle_count.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index e74d061..86cac42 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1837,7 +1837,7 @@ def _lffd_checks(self_: CycleCount, solve_mode: str) -> tuple:
         w_msg = "'residuals_sequence' is not available. Nothing to do."
         warnings.formatwarning = py_fatigue_formatwarning
         warnings.warn(w_msg, UserWarning)
-        return_self = True
+        return True, np.empty(0)
     if len(res_sequence) < 3:
         w_msg = "".join(
             (
-- 
2.43.0


From c5b2eb30413c884ff6d4aff6c315246afeb102be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:19 +0000
Subject: [PATCH 07/46] fix: keep the mean stress correction label in
 solve_lffd

The label was lost when the count had full cycles, so that the same
correction could be applied twice.
---
 py_fatigue/cycle_count/cycle_count.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 86cac42..488dd11 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1781,6 +1781,7 @@ def _solve_lffd(
     )
     cc_solved = cc_res + cc_no_res
     cc_solved.lffd_solved = True
+    cc_solved.mean_stress_corrected = self_.mean_stress_corrected
     return cc_solved
 
 
-- 
2.43.0


From ed12004a1ddba645afb1cd120d9817c2666d10d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:36 +0000
Subject: [PATCH 08/46] fix: leave the count untouched by mean stress
 correction

With enforce_pulsating_load, a count whose LFFD cannot be resolved had
its own mean stresses overwritten.
---
 py_fatigue/cycle_count/cycle_count.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 488dd11..f608730 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1114,7 +1114,7 @@ class CycleCount:
             warnings.warn(w_msg, UserWarning)
             return self
 
-        self_ = copy.deepcopy(self) if self.lffd_solved else self.solve_lffd()
+        self_ = copy.deepcopy(self if self.lffd_solved else self.solve_lffd())
 
         if np.all((self_.mean_stress == 0)) and not enforce_pulsating_load:
             e_msg = "".join(
-- 
2.43.0


From 66571a4591865a81215f9af61a34b6b223f74350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:34:36 +0000
Subject: [PATCH 09/46] fix: recompute the mean bins after mean stress
 correction

The corrected count kept the lower bound of the uncorrected mean
stresses, so its export failed or put cycles in the wrong mean bin.
---
 py_fatigue/cycle_count/cycle_count.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index f608730..31ae6d0 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1188,7 +1188,6 @@ class CycleCount:
             unit=self_.unit,
             range_bin_lower_bound=self_.range_bin_lower_bound,
             range_bin_width=self_.range_bin_width,
-            _mean_bin_lower_bound=self_.mean_bin_lower_bound,
             mean_bin_width=self_.mean_bin_width,
             mean_stress_corrected="".join(
                 f"{correction_type.upper()}: {ns.__dict__}"
-- 
2.43.0


From f076211866c182c6d8b24e2b2bb5ac065a4ae2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:29 +0000
Subject: [PATCH 10/46] fix: import rainflow data without residuals

Data holding only full cycles failed with an IndexError because the
format was recognised from the first residual.
---
 py_fatigue/cycle_count/cycle_count.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 31ae6d0..b5a3726 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -143,7 +143,7 @@ def _build_input_data_from_json(  # noqa: C901
         hst = np.array(hst)
     # A) Case without mean stress
     # Adding hist cycles
-    if len(data["hist"]) > 0 and not isinstance(data["res"][0], Iterable):
+    if len(data["hist"]) > 0 and not isinstance(data["hist"][0], Iterable):
         the_hist = np.asarray(data["hist"])
         zero_hist_counts = np.where(the_hist == 0)[0]
         range_bin_centers = np.around(
@@ -160,7 +160,7 @@ def _build_input_data_from_json(  # noqa: C901
         range_bin_centers = np.delete(range_bin_centers, zero_hist_counts)
     # Adding large cycles
     if len(data["lg_c"]) > 0 and not isinstance(
-        data["res"][0],
+        data["lg_c"][0],
         Iterable,  # isinstance(
         # data["lg_c"][0], (float, int, np.int16, np.int32)
     ):
-- 
2.43.0


From c239394445c54e5ea0fa8ec0ba1c6fbdf5ae665d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:29 +0000
Subject: [PATCH 11/46] fix: sum a list made of None only

pbar_sum failed with an IndexError on the rows of an aggregation window
without any measurement.
---
 py_fatigue/cycle_count/cycle_count.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index b5a3726..3387d83 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1872,6 +1872,8 @@ def pbar_sum(cc_list: Sequence[CycleCount]) -> CycleCount:
 
     chunk_size = int(np.sqrt(len(cc_list)))
     cc_list = [cc for cc in cc_list if cc is not None]
+    if len(cc_list) == 0:
+        return None
 
     sleep(0.15)
     chunked_cc_list = list(pfu.chunks(cc_list, chunk_size))
-- 
2.43.0


From a0fcd0df796b22499a0a1f80740b565b4f61bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:41 +0000
Subject: [PATCH 12/46] fix: export cycle counts without residuals sequence

as_dict failed with a TypeError on counts imported from data that have
no residuals sequence.
---
 py_fatigue/cycle_count/cycle_count.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 3387d83..f5f3816 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -663,9 +663,13 @@ class CycleCount:
             round_decimals=round_decimals,
             debug_mode=debug_mode,
         )
-        output_dict["res_sig"] = np.asarray(
-            np.round(self.residuals_sequence, round_decimals)
-        ).tolist()
+        output_dict["res_sig"] = (
+            np.asarray(
+                np.round(self.residuals_sequence, round_decimals)
+            ).tolist()
+            if self.residuals_sequence is not None
+            else None
+        )
         return output_dict
 
     def _repr_html_(self) -> str:  # pragma: no cover
-- 
2.43.0


From 534f1a0d7a5841f801a4c532cd7658f03dd992b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:35:41 +0000
Subject: [PATCH 13/46] fix: export the small cycles already set aside

Exporting an imported count reported only the cycles dropped by this
export, and lost those dropped by previous ones.
---
 py_fatigue/cycle_count/cycle_count.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index f5f3816..124197e 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -663,6 +663,7 @@ class CycleCount:
             round_decimals=round_decimals,
             debug_mode=debug_mode,
         )
+        output_dict["nr_small_cycles"] += self.nr_small_cycles
         output_dict["res_sig"] = (
             np.asarray(
                 np.round(self.residuals_sequence, round_decimals)
-- 
2.43.0


From c3e2754eebd77dbd9398e0e93692696af91c1f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:16 +0000
Subject: [PATCH 14/46] fix: keep at least one stress bin

When every full cycle equals the lower bound, or lies below it, there
was no bin at all and exporting the cycle count failed with an
IndexError or a ValueError.
---
 py_fatigue/utils.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index a027dac..16dfdd9 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -204,10 +204,18 @@ class FatigueStress:
                 - self.bin_width / 2
             )
         if self._bin_ub is None:
-            self._bin_ub = bin_upper_bound(
-                self._bin_lb,
-                self.bin_width,
-                max(self.full) if len(self.full) > 0 else max(self._values),
+            # there is at least one bin, also when no full cycle exceeds bin_lb
+            self._bin_ub = max(
+                self._bin_lb + self.bin_width,
+                bin_upper_bound(
+                    self._bin_lb,
+                    self.bin_width,
+                    (
+                        max(self.full)
+                        if len(self.full) > 0
+                        else max(self._values)
+                    ),
+                ),
             )
 
     @property
-- 
2.43.0


From 1fff552339911433144b94ea28303f45dcc9ac20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:16 +0000
Subject: [PATCH 15/46] fix: bin full cycles lying on a rounded upper edge

The bin edges are rounded to five decimals. A full cycle between the
rounded and the actual upper bound fell outside of all bins and raised
an IndexError.
---
 py_fatigue/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index 16dfdd9..ea65b89 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -332,7 +332,9 @@ class FatigueStress:
         -------
         bins_idx : np.ndarray
         """
-        digitized = np.digitize(self.full, self.bin_edges, right=True)
+        # same rounding as the bin edges
+        full = np.around(self.full, decimals=5)
+        digitized = np.digitize(full, self.bin_edges, right=True)
         digitized[np.where(digitized > 0)] -= 1
         return digitized
 
-- 
2.43.0


From 26899ba593fe4be49ff20d527d1e11f3a0419f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:16 +0000
Subject: [PATCH 16/46] fix: compare cycle counts with and without residuals
 sequence

Comparing None with an array is elementwise, and its result has no
truth value: the comparison raised a ValueError.
---
 py_fatigue/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index ea65b89..c58287f 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -478,6 +478,8 @@ def compare(a: Any, b: Any) -> bool:
     """
     # print(f"a: {a}, b: {b}")
     if not hasattr(a, "__iter__") or isinstance(a, str):
+        if hasattr(b, "__iter__") and not isinstance(b, str):
+            return False
         return a == b
 
     try:
-- 
2.43.0


From 54e70f5faa5fdb20c84514448870d571fcda78aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:37:16 +0000
Subject: [PATCH 17/46] fix: define the bins of counts without full cycles

The bin edges and centers of a count made of residuals only raised a
ValueError.
---
 py_fatigue/cycle_count/cycle_count.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 124197e..8c6bada 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -467,7 +467,7 @@ class CycleCount:
         return pfu.bin_upper_bound(
             self.mean_bin_lower_bound,
             self.mean_bin_width,
-            max(self.full_cycles[:, 0]),
+            max(self.full_cycles[:, 0], default=max(self.mean_stress)),
         )
 
     @property
@@ -482,7 +482,7 @@ class CycleCount:
         return pfu.bin_upper_bound(
             self.range_bin_lower_bound,
             self.range_bin_width,
-            max(self.full_cycles[:, 1]),
+            max(self.full_cycles[:, 1], default=max(self.stress_range)),
         )
 
     @property
-- 
2.43.0


From 9973b953afa51b83bcb5e7f2eb8f0ea37cdd2993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:12 +0000
Subject: [PATCH 18/46] fix: bin a rainflow count with its time vector

binned_rainflow failed whenever a time vector was given, because the
rainflow then returns the residual times as well.
---
 py_fatigue/cycle_count/histogram.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/histogram.py b/py_fatigue/cycle_count/histogram.py
index 2d4e42d..bdd4176 100644
--- a/py_fatigue/cycle_count/histogram.py
+++ b/py_fatigue/cycle_count/histogram.py
@@ -585,11 +585,11 @@ def binned_rainflow(  # pylint: disable=too-many-arguments
     calc_rainflow
     rainflow_binner
     """
-    rfs, res_seq, _ = calc_rainflow(
+    rfs, res_seq = calc_rainflow(
         data=data,
         time=time,
         extended_output=True,
-    )
+    )[:2]
 
     # return rfs, data[res_tp], res_tp, time[res_tp]
 
-- 
2.43.0


From af55fb046582c9efca21aa2db1de8aa94bbefc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:12 +0000
Subject: [PATCH 19/46] fix: bin stress ranges without truncating the input
 objects

rainflow_binner removed the small cycles from the StressRange and
MeanStress objects it was given, so binning them again reported no
small cycles.
---
 py_fatigue/cycle_count/histogram.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/histogram.py b/py_fatigue/cycle_count/histogram.py
index bdd4176..35d71a3 100644
--- a/py_fatigue/cycle_count/histogram.py
+++ b/py_fatigue/cycle_count/histogram.py
@@ -8,6 +8,7 @@ package `[4]`_.
 
 # standard imports
 from __future__ import annotations
+import copy
 import itertools
 from typing import Callable, List, Optional, Sequence, Union, TypeVar
 
@@ -467,6 +468,7 @@ def rainflow_threshold(ranges: StressRange, means: MeanStress) -> tuple:
     tuple
         The ranges and means above threshold, as well as small cycles.
     """
+    ranges, means = copy.copy(ranges), copy.copy(means)
     ranges_gt_lb_idx = np.where(ranges.values >= ranges.bin_lb)[0]
     nr_small_cycles = len(ranges.values) - len(ranges_gt_lb_idx)
     means.counts = means.counts[ranges_gt_lb_idx]
-- 
2.43.0


From 18727a802ff1defd37415a33fbf1986f47d0fc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:12 +0000
Subject: [PATCH 20/46] fix: accept the documented mode=None in xy_hist2d

---
 py_fatigue/cycle_count/histogram.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/histogram.py b/py_fatigue/cycle_count/histogram.py
index 35d71a3..03d5930 100644
--- a/py_fatigue/cycle_count/histogram.py
+++ b/py_fatigue/cycle_count/histogram.py
@@ -248,6 +248,8 @@ def xy_hist2d(
         iorder = np.argsort(dens)
     elif mode == "valley":
         iorder = np.argsort(dens)[::-1]
+    elif mode is None:
+        iorder = np.arange(len(dens))
     else:
         raise ValueError("mode must be one of [None, 'mountain', 'valley']")
     x = x[iorder]
-- 
2.43.0


From 585cb54f47af2ecf4148e655a851aba66f235fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:38:12 +0000
Subject: [PATCH 21/46] fix: plot the maximum stress in min-max histograms

The maximum was computed from the minimum instead of the mean, so the
mean stress was plotted in its place.
---
 py_fatigue/cycle_count/cycle_count.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 8c6bada..7bdb699 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1316,8 +1316,7 @@ class CycleCount:
             e_msg = f"Invalid plot type. Must be one of {plot_types}."
             raise ValueError(e_msg)
         if plot_type == "min-max":
-            x = x - y / 2
-            y = x + y / 2
+            x, y = x - y / 2, x + y / 2
             bins = bins if bins is not None else 50
         if "counts-range" in plot_type:
             sor = sorted(
-- 
2.43.0


From 9b9d3518110e5a12967fd4eb73db19496fe01b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:05 +0000
Subject: [PATCH 22/46] fix: invert the first and last segments of Paris curves

get_sif returned the threshold or the critical stress intensity on the
whole first and last segments, so a single-segment curve could not be
inverted at all.
---
 py_fatigue/material/crack_growth_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index 354cf14..2f3ec9f 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -787,10 +787,10 @@ def _calc_sif(growth_rate, slope, intercept, threshold, critical):
     the_sif = np.empty(growth_rate.size, dtype=np.float64)
     nr_knees = intercept.size - 1
     for i in nb.prange(growth_rate.size):
-        if idx[i] <= 0:  # below threshold
+        if idx[i] < 0:  # below threshold
             the_sif[i] = threshold
             continue
-        if idx[i] >= nr_knees:  # above threshold
+        if idx[i] > nr_knees:  # above critical
             the_sif[i] = critical
             continue
         the_sif[i] = (growth_rate[i] / intercept[idx[i]]) ** (
-- 
2.43.0


From ad2c89058a00203c669c1d61925260970925fd98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:41 +0000
Subject: [PATCH 23/46] fix: read the last segment of a Paris curve at infinite
 SIF

With an infinite critical SIF, the critical growth rate was read past
the end of the slope and intercept arrays.
---
 py_fatigue/material/crack_growth_curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index 2f3ec9f..de9a2d8 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -735,6 +735,8 @@ def _calc_growth_rate(sif, slope, intercept, threshold, critical):
     assert np.all(np.diff(knees_sif) > 0), e_msg
     # print("knees_sif:", knees_sif)
     idx = np.digitize(sif, knees_sif, right=False) - 1
+    # an infinite SIF is not below an infinite critical SIF
+    idx = np.minimum(idx, intercept.size - 1)
     # print("idx:", idx)
     the_growth_rate = np.empty(sif.size, dtype=np.float64)
     for i in nb.prange(sif.size):
-- 
2.43.0


From 625d48356806626729dddd297f50e768cd87b6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:41 +0000
Subject: [PATCH 24/46] fix: report the endurance stress of single-slope curves

A linear curve with an endurance returned 0 as endurance stress, while
its stress never falls below the stress at the endurance.
---
 py_fatigue/material/sn_curve.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/material/sn_curve.py b/py_fatigue/material/sn_curve.py
index 96cb334..4a8b90a 100644
--- a/py_fatigue/material/sn_curve.py
+++ b/py_fatigue/material/sn_curve.py
@@ -635,8 +635,9 @@ class SNCurve(AbstractSNCurve):
                     f"({self.get_knee_cycles()} cycles). ",
                     "\nConsider changing params",
                 )
-            return self.get_stress(self.endurance)
-        return 0.0
+        if self.endurance == np.inf:
+            return 0.0
+        return self.get_stress(self.endurance)
 
     def format_name(self, html_format: bool = False) -> None:
         if not html_format:
-- 
2.43.0


From 6fcc3c86a1f1b96384e7754ca2749df6b78e935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:41 +0000
Subject: [PATCH 25/46] fix: evaluate material curves in double precision

Single precision inputs were evaluated in single precision, and half
precision inputs failed.
---
 py_fatigue/material/sn_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/material/sn_curve.py b/py_fatigue/material/sn_curve.py
index 4a8b90a..15982f8 100644
--- a/py_fatigue/material/sn_curve.py
+++ b/py_fatigue/material/sn_curve.py
@@ -227,10 +227,10 @@ def ensure_array(method: Callable) -> Callable:
         try:
             iter(x)
         except TypeError:
-            xm = np.asarray([x])
+            xm = np.asarray([x], dtype=float)
             ym = method(self, xm)[0]
         else:
-            xm = np.asarray(x)
+            xm = np.asarray(x, dtype=float)
             ym = method(self, xm)
         return ym
 
-- 
2.43.0


From 384e05b7c036095bd782a7aa9bfbba83e7a8b7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:41 +0000
Subject: [PATCH 26/46] fix: calculate the damage for all the curves of a list

Curves with the same name, for instance unnamed ones, replaced each
other and only the last one was used.
---
 py_fatigue/cycle_count/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/utils.py b/py_fatigue/cycle_count/utils.py
index 7713ae6..44b1157 100644
--- a/py_fatigue/cycle_count/utils.py
+++ b/py_fatigue/cycle_count/utils.py
@@ -259,7 +259,7 @@ def calc_aggregated_damage(
             sn = {sn.name: sn}
         elif isinstance(sn, list):
             if all(isinstance(s, SNCurve) for s in sn):
-                sn = {s.name: s for s in sn}
+                sn = dict(enumerate(sn))
             else:
                 raise TypeError(
                     "The S-N curves must be a dict, a list of SNCurve or a "
-- 
2.43.0


From 5ccb784ccbee564357e75590e901cadf33775f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:41 +0000
Subject: [PATCH 27/46] fix: aggregate tables having non-string column labels

---
 py_fatigue/cycle_count/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/utils.py b/py_fatigue/cycle_count/utils.py
index 44b1157..f104114 100644
--- a/py_fatigue/cycle_count/utils.py
+++ b/py_fatigue/cycle_count/utils.py
@@ -142,7 +142,9 @@ def aggregate_cc(
     df_agg_rr = df_agg.applymap(solve_lffd)
 
     cc_cols: list[str] = [
-        col for col in df_agg_rr.columns if col.startswith("CC_")
+        col
+        for col in df_agg_rr.columns
+        if isinstance(col, str) and col.startswith("CC_")
     ]
 
     if not save_residuals:
@@ -266,7 +268,11 @@ def calc_aggregated_damage(
                     "SNCurve."
                 )
 
-    cc_cols: list[str] = [col for col in df.columns if col.startswith("CC_")]
+    cc_cols: list[str] = [
+        col
+        for col in df.columns
+        if isinstance(col, str) and col.startswith("CC_")
+    ]
     damages = pd.DataFrame()
     for _, sn_curve in sn.items():
         df_1 = df[cc_cols].applymap(
-- 
2.43.0


From 9233656885def7cb34bf9f011405c9629dc8c9d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:41 +0000
Subject: [PATCH 28/46] fix: save the residuals of windows without residuals
 sequence

Aggregating counts that have no residuals sequence failed with an
IndexError when the residuals were to be saved.
---
 py_fatigue/cycle_count/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/utils.py b/py_fatigue/cycle_count/utils.py
index f104114..a837699 100644
--- a/py_fatigue/cycle_count/utils.py
+++ b/py_fatigue/cycle_count/utils.py
@@ -165,6 +165,8 @@ def aggregate_cc(
                 continue
             if not isinstance(row[col].residuals_sequence, Iterable):
                 continue
+            if len(row[col].residuals_sequence) == 0:
+                continue
             _, res_res_seq, res_res_idx = cycle_count.calc_rainflow(
                 data=np.asarray(row[col].residuals_sequence),
                 extended_output=True,
-- 
2.43.0


From 9b5fcf0a861c0afd5bb3c9b4754c6a423b90e0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:41 +0000
Subject: [PATCH 29/46] fix: leave the global random state alone

get_random_data draws from its own generator and reseeded the global
numpy generator as a side effect.
---
 py_fatigue/testing.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/py_fatigue/testing.py b/py_fatigue/testing.py
index d2ad58b..89efd74 100644
--- a/py_fatigue/testing.py
+++ b/py_fatigue/testing.py
@@ -83,7 +83,6 @@ def get_random_data(
         Random data.
     """
     rng = np.random.default_rng(seed)
-    np.random.seed(seed)
     y = getattr(rng, random_type)(**kwargs, size=len(t))
     y = ((y - y.min()) / (y.max() - y.min())) * range_ + min_
     return y
-- 
2.43.0


From 367f6ad2c7cea6d321105924b6586b4002bcc05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:41 +0000
Subject: [PATCH 30/46] fix: end the sampled time before the requested duration

Depending on rounding, np.arange included the end point, e.g. with
fs=10, duration=0.3 and start=1.
---
 py_fatigue/testing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/testing.py b/py_fatigue/testing.py
index 89efd74..4208f3e 100644
--- a/py_fatigue/testing.py
+++ b/py_fatigue/testing.py
@@ -46,7 +46,9 @@ def get_sampled_time(
         warnings.formatwarning = py_fatigue_formatwarning
         warnings.warn(w_msg, UserWarning)
 
-    return np.arange(start, start + duration, 1 / fs)
+    # rounding prevents a spurious sample at the end of the signal
+    n_samples = int(np.ceil(np.round(duration * fs, 6)))
+    return start + np.arange(n_samples) / fs
 
 
 def get_random_data(
-- 
2.43.0


From 19f6cec65202f9615d75bf25180a5c4ec9b78db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:41:41 +0000
Subject: [PATCH 31/46] fix: report invalid hollow cylinder dimensions

An invalid diameter or initial depth raised a KeyError from the
thickness validator instead of the validation error.
---
 py_fatigue/geometry/cylinder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/geometry/cylinder.py b/py_fatigue/geometry/cylinder.py
index 20b6eba..8e99894 100644
--- a/py_fatigue/geometry/cylinder.py
+++ b/py_fatigue/geometry/cylinder.py
@@ -74,10 +74,10 @@ class HollowCylinder(AbstractCrackGeometry):
         cls, v: PositiveFloat, values: dict
     ) -> PositiveFloat:
         """Validate the thickness of the part."""
-        if v >= values["outer_diameter"] / 2:
+        if v >= values.get("outer_diameter", np.inf) / 2:
             e_msg = "thickness is greater than or equal to the outer radius"
             raise ValueError(e_msg)
-        if v <= values["initial_depth"]:
+        if v <= values.get("initial_depth", 0.0):
             e_msg = "thickness is less than or equal to the initial depth"
             raise ValueError(e_msg)
         return v
-- 
2.43.0


From 15b987e80b4cbc2532b12421cb55ec2667581295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:49 +0000
Subject: [PATCH 32/46] fix: apply fractional cycles in the crack growth
 calculation

Counts above one were truncated to whole cycles, so 2.5 cycles grew the
crack like 2. In express mode a count of zero raised an error.
---
 py_fatigue/damage/crack_growth.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 2942446..ae1bb7b 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -396,6 +396,12 @@ def get_sif(
     return stress_ * np.sqrt(np.pi * crack_depth_) * y_1, y_1
 
 
+def _split_cycles(cycle: float, n: int) -> list:
+    """Split the whole cycles by n and keep the remaining fraction, if any."""
+    fraction = cycle % 1
+    return split(int(cycle), n) + ([fraction] if fraction > 0 else [])
+
+
 def get_crack_growth(
     cycle_count: CycleCount,
     cg_curve: ParisCurve,
@@ -475,12 +481,13 @@ def get_crack_growth(
     if np.max(cycle_count.count_cycle) > 1:
         if express_mode:
             splts = [
-                10 ** int(np.log10(cycle)) for cycle in cycle_count.count_cycle
+                10 ** int(np.log10(max(cycle, 1)))
+                for cycle in cycle_count.count_cycle
             ]
         else:
             splts = [int(cycle) for cycle in cycle_count.count_cycle]
         splt_cyc = [
-            split(int(cycle), n) if int(cycle) > 0 else [cycle]
+            _split_cycles(cycle, n) if int(cycle) > 0 else [cycle]
             for cycle, n in zip(cycle_count.count_cycle, splts)
         ]
         splt_len = [len(_) for _ in splt_cyc]
@@ -597,7 +604,7 @@ class CrackGrowth:
         if np.max(self._obj["count_cycle"]) > 1:
             if express_mode:
                 splts = [
-                    10 ** int(np.log10(cycle))
+                    10 ** int(np.log10(max(cycle, 1)))
                     for cycle in self._obj["count_cycle"].values
                 ]
             else:
@@ -605,7 +612,7 @@ class CrackGrowth:
                     int(cycle) for cycle in self._obj["count_cycle"].values
                 ]
             splt_cyc = [
-                split(int(cycle), n) if int(cycle) > 0 else [cycle]
+                _split_cycles(cycle, n) if int(cycle) > 0 else [cycle]
                 for cycle, n in zip(self._obj["count_cycle"].values, splts)
             ]
             splt_len = [len(_) for _ in splt_cyc]
-- 
2.43.0


From f51721dcc62b630edde111a1208c9b91fa64f3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:49 +0000
Subject: [PATCH 33/46] fix: assign crack growth results to the rows they
 belong to

The cg accessor located the last step of each row from the cumulative
cycles. That is wrong for half cycles, in express mode and whenever the
crack fails, when results of single cycles were assigned to rows.
---
 py_fatigue/damage/crack_growth.py | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index ae1bb7b..cdbda2d 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -626,6 +626,7 @@ class CrackGrowth:
         else:
             stress_range = self._obj["stress_range"].values
             count_cycle = self._obj["count_cycle"].values
+            splt_len = [1] * len(count_cycle)
 
         # Handle the geometry
         crack_type = str(crack_geometry._id)
@@ -650,24 +651,17 @@ class CrackGrowth:
         cumul_cycle = np.cumsum(cg_.count_cycle[: len(cg_.crack_depth)])
         # manage the fact that clustered cycles are split in cg analysys
         # while the df keeps them clustered
-        d_l = len(self._obj) - len(cg_.crack_depth)
-        if d_l >= 0:
-            self._obj["crack_depth"] = np.concatenate(
-                (cg_.crack_depth, np.full(d_l, np.nan))
-            )
-            self._obj["sif"] = np.concatenate((cg_.sif, np.full(d_l, np.nan)))
-            self._obj["cumul_cycle"] = np.concatenate(
-                (cumul_cycle, np.full(d_l, np.nan))
-            )
-            self._obj["geometry_factor"] = np.concatenate(
-                (cg_.geometry_factor, np.full(d_l, np.nan))
-            )
-        else:
-            idx = np.asarray(self._obj["count_cycle"].cumsum(), dtype=int) - 1
-            self._obj["crack_depth"] = cg_.crack_depth[idx]
-            self._obj["sif"] = cg_.sif[idx]
-            self._obj["cumul_cycle"] = cumul_cycle[idx]
-            self._obj["geometry_factor"] = cg_.geometry_factor[idx]
+        idx = np.cumsum(splt_len) - 1
+        applied = idx < len(cg_.crack_depth)
+        for col, values in (
+            ("crack_depth", cg_.crack_depth),
+            ("sif", cg_.sif),
+            ("cumul_cycle", cumul_cycle),
+            ("geometry_factor", cg_.geometry_factor),
+        ):
+            row_values = np.full(len(self._obj), np.nan)
+            row_values[applied] = values[idx[applied]]
+            self._obj[col] = row_values
         self._obj.cg_curve = cg_curve
         self.cg_curve = cg_curve
         self._obj.crack_geometry = crack_geometry
-- 
2.43.0


From 0c81376946be81a8dbbb851acc3a46e1a9f74a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:49 +0000
Subject: [PATCH 34/46] fix: grow cracks with any array layout and type

Integer or single precision cycle counts, and non contiguous arrays,
failed with a numba TypingError.
---
 py_fatigue/damage/crack_growth.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index cdbda2d..6208d51 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -497,7 +497,7 @@ def get_crack_growth(
         )
         stress_range = np.repeat(cycle_count.stress_range, splt_len)
     else:
-        stress_range = cycle_count.stress_range
+        stress_range = np.ascontiguousarray(cycle_count.stress_range)
         count_cycle = cycle_count.count_cycle
 
     # Handle the geometry
@@ -507,10 +507,10 @@ def get_crack_growth(
         raise ValueError("Unsupported crack geometry")
     geometry = to_numba_dict(crack_geometry.__dict__)
     cg = CalcCrackGrowth(
-        stress_range,
-        count_cycle,
-        cg_curve.slope,
-        cg_curve.intercept,
+        stress_range.astype(float),
+        count_cycle.astype(float),
+        np.ascontiguousarray(cg_curve.slope),
+        np.ascontiguousarray(cg_curve.intercept),
         float(cg_curve.threshold),
         float(cg_curve.critical),
         crack_type,
@@ -624,7 +624,7 @@ class CrackGrowth:
                 self._obj["stress_range"].values, splt_len
             )
         else:
-            stress_range = self._obj["stress_range"].values
+            stress_range = np.ascontiguousarray(self._obj["stress_range"])
             count_cycle = self._obj["count_cycle"].values
             splt_len = [1] * len(count_cycle)
 
@@ -635,10 +635,10 @@ class CrackGrowth:
         geometry = to_numba_dict(crack_geometry.__dict__)
 
         cg_ = CalcCrackGrowth(
-            stress_range,
-            count_cycle,
-            cg_curve.slope,
-            cg_curve.intercept,
+            stress_range.astype(float),
+            count_cycle.astype(float),
+            np.ascontiguousarray(cg_curve.slope),
+            np.ascontiguousarray(cg_curve.intercept),
             float(cg_curve.threshold),
             float(cg_curve.critical),
             crack_type,
-- 
2.43.0


From 2c7f8873eb15bd6e2501588fe3ad524362f66eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:42:49 +0000
Subject: [PATCH 35/46] fix: refuse crack growth with incompatible units
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Any part of the unit of the crack growth curve was accepted as stress
unit, e.g. Pa with MPa √mm, and the cg accessor did not check at all.
---
 py_fatigue/damage/crack_growth.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 6208d51..a5c9a52 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -396,6 +396,14 @@ def get_sif(
     return stress_ * np.sqrt(np.pi * crack_depth_) * y_1, y_1
 
 
+def _is_unit_compatible(stress_unit: str, sif_unit: str) -> bool:
+    """The SIF unit shall be the stress unit followed by that of a length."""
+    length_unit = sif_unit[len(stress_unit) :]
+    return sif_unit.startswith(stress_unit) and not (
+        length_unit[:1].isalnum() or length_unit[:1] in ("/", "^")
+    )
+
+
 def _split_cycles(cycle: float, n: int) -> list:
     """Split the whole cycles by n and keep the remaining fraction, if any."""
     fraction = cycle % 1
@@ -472,7 +480,7 @@ def get_crack_growth(
     # Handle the stress ranges and cycle counts as they might be clustered
     # in a matrix and we need to iterate over single or "little" cycles
     # within the same stress range block
-    if cycle_count.unit not in cg_curve.unit:
+    if not _is_unit_compatible(cycle_count.unit, cg_curve.unit):
         e_msg = (
             f"Cycle count unit ({cycle_count.unit}) and crack growth "
             f"curve unit ({cg_curve.unit}) are not compatible."
@@ -596,6 +604,14 @@ class CrackGrowth:
         """
 
         self._validate(self._obj)
+        metadata = self._obj._metadata
+        unit = metadata.get("unit") if isinstance(metadata, dict) else None
+        if unit is not None and not _is_unit_compatible(unit, cg_curve.unit):
+            e_msg = (
+                f"Cycle count unit ({unit}) and crack growth "
+                f"curve unit ({cg_curve.unit}) are not compatible."
+            )
+            raise ValueError(e_msg)
 
         # Handle the stress ranges and cycle counts as they might be clustered
         # in a matrix and we need to iterate over single or "little" cycles
-- 
2.43.0


From a582281af9c45eb5b07522b4790b169fc83ef949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:59:12 +0000
Subject: [PATCH 36/46] fix: refuse to add arrays and tables to a cycle count

---
 py_fatigue/cycle_count/cycle_count.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 7bdb699..978132b 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -968,7 +968,9 @@ class CycleCount:
         """
         Reverse add function.
         """
-        if other is None or other == 0 or np.isnan(other):
+        if other is None or (
+            np.isscalar(other) and (other == 0 or np.isnan(other))
+        ):
             return self
         return self.__add__(other)
 
@@ -1557,7 +1559,8 @@ def _cycle_count_add_checks(
     if self_.__class__.__name__ != other_.__class__.__name__:
         if (
             other_ is None
-            or other_ == 0
+            or np.isscalar(other_)
+            and other_ == 0
             or isinstance(other_, float)
             and np.isnan(other_)
         ):
-- 
2.43.0


From 61c7bacf4ebc18057170a298b03da0005884a135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:00:59 +0000
Subject: [PATCH 37/46] fix: find the knees of Paris curves with close slopes

---
 py_fatigue/material/crack_growth_curve.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index de9a2d8..f6689d3 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -521,10 +521,12 @@ class ParisCurve(AbstractCrackGrowthCurve):
         knee_growth_rate = np.empty(self.intercept.size - 1, dtype=np.float64)
         if not self.linear:
             for i in range(self.intercept.size - 1):
-                m_i = self.slope[i + 1] / (self.slope[i + 1] - self.slope[i])
-                m_i_p_1 = self.slope[i] / (self.slope[i + 1] - self.slope[i])
+                # powers of the intercepts alone would underflow
+                knee_sif = (self.intercept[i] / self.intercept[i + 1]) ** (
+                    1 / (self.slope[i + 1] - self.slope[i])
+                )
                 knee_growth_rate[i] = (
-                    self.intercept[i] ** m_i / self.intercept[i + 1] ** m_i_p_1
+                    self.intercept[i] * knee_sif ** self.slope[i]
                 )
             if check_knee is not None:
                 try:
@@ -765,11 +767,11 @@ def _calc_sif(growth_rate, slope, intercept, threshold, critical):
     knees_growth_rate = np.empty(intercept.size - 1, dtype=np.float64)
     if intercept.size > 1:
         for i in nb.prange(intercept.size - 1):
-            m_i = slope[i + 1] / (slope[i + 1] - slope[i])
-            m_i_p_1 = slope[i] / (slope[i + 1] - slope[i])
-            knees_growth_rate[i] = (
-                intercept[i] ** m_i / intercept[i + 1] ** m_i_p_1
+            # powers of the intercepts alone would underflow
+            knee_sif = (intercept[i] / intercept[i + 1]) ** (
+                1 / (slope[i + 1] - slope[i])
             )
+            knees_growth_rate[i] = intercept[i] * knee_sif ** slope[i]
 
     knees_growth_rate = np.hstack(
         (
-- 
2.43.0


From 52341d2c157fdfb3cb57ffeebeae650f3aea7527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:24 +0000
Subject: [PATCH 38/46] fix: draw into the given axes when no figure is given

---
 py_fatigue/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index c58287f..5190558 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -92,6 +92,8 @@ def make_axes(
     TypeError
         If fig is not a matplotlib.figure.Figure instance
     """
+    if fig is None and ax is not None:
+        fig = ax.figure
     if fig is None:
         fig, axes = plt.subplots()
     else:
-- 
2.43.0


From 1b59e89b400d45d57a45a334ab5b5a09ae99f7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:06:24 +0000
Subject: [PATCH 39/46] fix: draw Paris curves from their threshold on

---
 py_fatigue/material/crack_growth_curve.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index f6689d3..1bbaa1d 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -835,6 +835,8 @@ def _paris_curve_data_points(pc: ParisCurve) -> tuple:
     sif_plot = np.logspace(
         np.log10(threshold), np.log10(0.999999999999 * critical), 20
     )  # 0.999999999999 to avoid rounding errors
+    # the first point may be rounded to below the threshold
+    sif_plot = np.maximum(sif_plot, threshold)
 
     if not pc.linear:
         sif_plot = np.sort(np.append(sif_plot, np.array(pc.get_knee_sif())))
-- 
2.43.0


From 6cba255917752a44373ad30db8ddc574ab2a07e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:52:41 +0000
Subject: [PATCH 40/46] fix: label the damage histogram with the unit of the
 table

The y axis of the Palmgren-Miner histogram always read MPa, also for
tables of cycle counts in other units.
---
 py_fatigue/damage/stress_life.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/damage/stress_life.py b/py_fatigue/damage/stress_life.py
index df7453e..b615998 100644
--- a/py_fatigue/damage/stress_life.py
+++ b/py_fatigue/damage/stress_life.py
@@ -198,7 +198,7 @@ class PalmgrenMiner:
             else "PM damage(" + str(dens_func) + ")"
         )
         ax.set_xlabel("# of cycles")
-        ax.set_ylabel("Stress range, MPa")
+        ax.set_ylabel(f"Stress range, {self._obj._metadata['unit']}")
         cbar = plt.colorbar(im, ax=ax)
         cbar.set_label(cbar_label, rotation=270)
         cbar.ax.get_yaxis().labelpad = 10
-- 
2.43.0


From 2e5de354f7586138291f1e48798b5a80ae5c04dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:53 +0000
Subject: [PATCH 41/46] fix: give the bin edges of a count whose cycles all lie
 below the lower bound

calc_bin_edges asked numpy for a negative number of edges when the values
lie more than one bin below the lower bound, and CycleCount.bin_edges and
bin_centers failed with a ValueError. They now give the lower bound alone,
as they did when the values lie less than one bin below it.
---
 py_fatigue/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index 5190558..7f53b34 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -373,7 +373,8 @@ def calc_bin_edges(
     """
     bin_ub = bin_upper_bound(bin_lb, bin_width, bin_ub)
 
-    n_bins = int(np.round((bin_ub + bin_width - bin_lb) / bin_width))
+    # no bin, but still the lower bound, when all values lie below it
+    n_bins = max(1, int(np.round((bin_ub + bin_width - bin_lb) / bin_width)))
 
     bin_edges = np.around(
         np.linspace(start=bin_lb, stop=bin_ub, num=n_bins),
-- 
2.43.0


From 3a42231f87af2c455c356cdd876489f834f67b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:11 +0000
Subject: [PATCH 42/46] fix: draw the grid of the curve plots in the given axes

SNCurve.plot and ParisCurve.plot drew their grid in the current axes of
pyplot. Given other axes, the grid appeared in an unrelated plot, and an
empty figure was opened when the given figure is not managed by pyplot.
---
 py_fatigue/material/crack_growth_curve.py | 2 +-
 py_fatigue/material/sn_curve.py           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index 1bbaa1d..ec4474c 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -694,7 +694,7 @@ class ParisCurve(AbstractCrackGrowthCurve):
                 markersize=4,
             )
 
-        plt.grid(which="both", linestyle=":")
+        ax.grid(which="both", linestyle=":")
         ax.set_xlabel(f"SIF range (ΔK), {self.unit}")  # type: ignore
         if "√" in self.unit:
             split_unit = self.unit.split("√")
diff --git a/py_fatigue/material/sn_curve.py b/py_fatigue/material/sn_curve.py
index 15982f8..6bec39d 100644
--- a/py_fatigue/material/sn_curve.py
+++ b/py_fatigue/material/sn_curve.py
@@ -982,7 +982,7 @@ class SNCurve(AbstractSNCurve):
                 markersize=4,
             )
 
-        plt.grid(which="both", linestyle=":")
+        ax.grid(which="both", linestyle=":")
         ax.set_xlabel("Number of cycles")
         ax.set_ylabel("Stress range, " + self.unit)
 
-- 
2.43.0


From 39c8b8ea084596919de9df4b29dd9628a6260473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:02:11 +0000
Subject: [PATCH 43/46] fix: add the color bar of the histograms to their own
 figure

CycleCount.plot_histogram and the histogram of the miner accessor asked the
current figure of pyplot for the color bar. Given axes of another figure,
matplotlib warned, and an empty figure was opened when the given figure is
not managed by pyplot.
---
 py_fatigue/cycle_count/cycle_count.py | 3 +--
 py_fatigue/damage/stress_life.py      | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 978132b..5cdbbd6 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -32,7 +32,6 @@ import warnings
 
 # Non-standard imports
 import matplotlib
-import matplotlib.pyplot as plt
 import numpy as np
 import pandas as pd
 from py_fatigue.cycle_count import calc_rainflow
@@ -1375,7 +1374,7 @@ class CycleCount:
             if plot_type == "min-max"
             else f"Range, {self.unit}"
         )
-        cbar = plt.colorbar(im, ax=axes)
+        cbar = fig.colorbar(im, ax=axes)
         cbar.set_label(cbar_label, rotation=270)
         cbar.ax.get_yaxis().labelpad = 10
 
diff --git a/py_fatigue/damage/stress_life.py b/py_fatigue/damage/stress_life.py
index b615998..0be4a7e 100644
--- a/py_fatigue/damage/stress_life.py
+++ b/py_fatigue/damage/stress_life.py
@@ -9,7 +9,6 @@ import warnings
 
 # Packages from external libraries
 import matplotlib
-import matplotlib.pyplot as plt
 import numpy as np
 import pandas as pd
 
@@ -199,7 +198,7 @@ class PalmgrenMiner:
         )
         ax.set_xlabel("# of cycles")
         ax.set_ylabel(f"Stress range, {self._obj._metadata['unit']}")
-        cbar = plt.colorbar(im, ax=ax)
+        cbar = fig.colorbar(im, ax=ax)
         cbar.set_label(cbar_label, rotation=270)
         cbar.ax.get_yaxis().labelpad = 10
         return fig, ax
-- 
2.43.0


From 50b57d8eb7c2482809bf625a278e1b62d1192329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:38:54 +0000
Subject: [PATCH 44/46] fix: describe the Paris curve threshold in stress
 intensity units

The notebook image of a Paris curve gave the threshold, a stress intensity
factor, in the unit of the crack growth rate.
---
 py_fatigue/material/crack_growth_curve.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index ec4474c..d497fb0 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -376,14 +376,9 @@ class ParisCurve(AbstractCrackGrowthCurve):
         fig.set_figwidth(7)
         max_x = np.max(ax.lines[0].get_xdata())
         max_y = np.max(ax.lines[0].get_ydata())
-        cg_unit = "[L][CYCLE]$^{-1}$"
-        if "√" in self.unit:
-            split_unit = self.unit.split("√")
-            cg_unit = "/".join((split_unit[1], "cycle"))
-
         ann_1 = f"{self.name},\nSlope: {self.slope},\nIntercept:"
         ann_2 = f"{self.intercept},\nThreshold: {self.threshold:.2f},"
-        ann_3 = f"{cg_unit},\nCritical: {self.critical:.2f}, {self.unit}"
+        ann_3 = f"{self.unit},\nCritical: {self.critical:.2f}, {self.unit}"
         annotation = " ".join((ann_1, ann_2, ann_3))
         ax.text(
             1.5 * max_x,
-- 
2.43.0


From 8c82b410132c2f276da6871105e005783c4c7dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:59:48 +0000
Subject: [PATCH 45/46] fix: geometry factor of cracks deeper than half their
 width

The arcsine gives the angle of the crack-front arc only up to a right angle,
so the removed area was that of the wrong circular segment when the arc is
more than a semicircle.
---
 py_fatigue/geometry/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/geometry/cylinder.py b/py_fatigue/geometry/cylinder.py
index 8e99894..dc016d1 100644
--- a/py_fatigue/geometry/cylinder.py
+++ b/py_fatigue/geometry/cylinder.py
@@ -282,7 +282,7 @@ def f_hol_cyl_01(
     # radius of crack-front arc
     crack_radius: float = (c_v**2 + a_h**2) / (2 * a_h)
     # angle of crack-front arc
-    beta: float = np.arcsin(c_v / crack_radius)
+    beta: float = 2 * np.arctan(a_h / c_v)
     # areas
     # * circular ring
     area_0: float = np.pi * (outer_radius**2 - inner_radius**2)
-- 
2.43.0


From df0573f6d0f558bc6d5709961d15acbf45dcabad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:59:48 +0000
Subject: [PATCH 46/46] fix: plot the whole crack front of cracks deeper than
 half their width

The arcsine gives the angle of the crack-front arc only up to a right angle,
so the plotted front did not meet the surface when the arc is more than a
semicircle.
---
 py_fatigue/geometry/cylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/geometry/cylinder.py b/py_fatigue/geometry/cylinder.py
index dc016d1..81cbf44 100644
--- a/py_fatigue/geometry/cylinder.py
+++ b/py_fatigue/geometry/cylinder.py
@@ -182,7 +182,7 @@ class HollowCylinder(AbstractCrackGeometry):
         a_h = depth - r_o * (1 - np.cos(c_angle))
         r_e = (c_v**2 + a_h**2) / (2 * a_h)  # radius of crack-front arc
         # angle of crack-front arc
-        beta = np.arcsin(c_v / r_e)
+        beta = 2 * np.arctan(a_h / c_v)
         theta = np.linspace(-beta, beta, 100)  # θ (crack-front angle)
         phi = np.linspace(np.pi - c_angle, np.pi + c_angle, 100)
 
-- 
2.43.0

