From 42c804bc97ed9854f2d5b3b309795c871d563694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:29 +0000
Subject: [PATCH 01/68] fix: accept triangular distributions with a negative
 upper end

The three-value form rejected every distribution ending below zero (a
left-over of the two-value form, where the first value is the width) and
accepted start == end, which sampled NaN.
---
 src/SALib/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/util/__init__.py b/src/SALib/util/__init__.py
index 47e73bc..315dc09 100644
--- a/src/SALib/util/__init__.py
+++ b/src/SALib/util/__init__.py
@@ -187,7 +187,7 @@ def _nonuniform_scale_samples(params, bounds, dists):
                 )
 
             # checking for correct parameters
-            if b1 < 0 or b2 < 0 or b2 >= 1 or loc_start > b1:
+            if b2 < 0 or b2 >= 1 or loc_start >= b1:
                 raise ValueError(
                     """Triangular distribution bound error: Scale must be
                     greater than zero; peak on interval [0,1], triangular
-- 
2.43.0


From a2af029e9c44290e56f14305b588af0f1d898d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:29 +0000
Subject: [PATCH 02/68] fix: reject illegal log-uniform bounds

Bounds with lower <= 0 or lower >= upper silently produced NaN samples,
unlike every other distribution, which raises ValueError.
---
 src/SALib/util/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/__init__.py b/src/SALib/util/__init__.py
index 315dc09..de3e0e2 100644
--- a/src/SALib/util/__init__.py
+++ b/src/SALib/util/__init__.py
@@ -208,7 +208,13 @@ def _nonuniform_scale_samples(params, bounds, dists):
                 conv_params[:, i] = params[:, i] * (b2 - b1) + b1
 
         elif dists[i] == "logunif":
-            conv_params[:, i] = sp.stats.loguniform.ppf(params[:, i], a=b1, b=b2)
+            if b1 <= 0 or b1 >= b2:
+                raise ValueError(
+                    """Log-uniform distribution: lower bound
+                    must be > 0 and less than upper bound"""
+                )
+            else:
+                conv_params[:, i] = sp.stats.loguniform.ppf(params[:, i], a=b1, b=b2)
 
         elif dists[i] == "norm":
             if b2 <= 0:
-- 
2.43.0


From df69beac6a8abf976da2ce87b80a81c73e1afea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:32 +0000
Subject: [PATCH 03/68] fix: keep finite differences inside the support of
 non-uniform parameters

Perturbed points were clipped to the entries of 'bounds', which are
distribution parameters (e.g. mean and standard deviation), not limits,
for every distribution other than uniform.
---
 src/SALib/sample/finite_diff.py | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/SALib/sample/finite_diff.py b/src/SALib/sample/finite_diff.py
index 368286f..38cb93e 100644
--- a/src/SALib/sample/finite_diff.py
+++ b/src/SALib/sample/finite_diff.py
@@ -55,7 +55,7 @@ def sample(
     rng = handle_seed(seed)  # noqa
 
     D = problem["num_vars"]
-    bounds = problem["bounds"]
+    bounds = _support(problem)
 
     # Create base sequence - could be any type of sampling
     base_sequence = sobol_sequence.sample(N + skip_values, D)
@@ -83,6 +83,33 @@ def sample(
     return dgsm_sequence
 
 
+def _support(problem: Dict) -> list:
+    """Range of values each parameter may take, given its distribution.
+
+    Entries of `bounds` are distribution parameters rather than limits for
+    distributions other than uniform.
+    """
+    dists = problem.get("dists")
+    if dists is None:
+        return problem["bounds"]
+
+    support = []
+    for bnd, dist in zip(problem["bounds"], dists):
+        if dist == "norm":
+            limits = [-np.inf, np.inf]
+        elif dist == "lognorm":
+            limits = [0, np.inf]
+        elif dist == "weibull":
+            limits = [bnd[2] if len(bnd) == 3 else 0, np.inf]
+        elif dist == "triang" and len(bnd) == 2:
+            limits = [0, bnd[0]]
+        else:
+            limits = bnd[0:2]
+        support.append(limits)
+
+    return support
+
+
 def cli_parse(parser):
     """Add method specific options to CLI parser.
 
-- 
2.43.0


From ecad20aa08bb8833fd2182563815d5eaac12e800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 04/68] fix: do not grow the caller's list of names when
 padding ff problems

extend_bounds appended the dummy names to the list object held by the
caller, which corrupted any other problem sharing that list (a shallow
copy, or 'groups' set to the names by the Morris sampler).
---
 src/SALib/sample/ff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/sample/ff.py b/src/SALib/sample/ff.py
index 0938e4a..e3f1a81 100644
--- a/src/SALib/sample/ff.py
+++ b/src/SALib/sample/ff.py
@@ -45,7 +45,7 @@ def extend_bounds(problem):
     num_dummy_variables = num_ff_vars - num_vars
 
     bounds = list(problem["bounds"])
-    names = problem["names"]
+    names = list(problem["names"])
     if num_dummy_variables > 0:
         bounds.extend([[0, 1] for x in range(num_dummy_variables)])
         names.extend(["dummy_" + str(var) for var in range(num_dummy_variables)])
-- 
2.43.0


From 9f4610d7b3059e4e382ec9ec42b965c23a48db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 05/68] fix: pad distributions with the dummy variables in ff

Sampling a problem with 'dists' whose size is not a power of two raised
'Mismatch in number of parameters and distributions'.
---
 src/SALib/sample/ff.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SALib/sample/ff.py b/src/SALib/sample/ff.py
index e3f1a81..6c4762a 100644
--- a/src/SALib/sample/ff.py
+++ b/src/SALib/sample/ff.py
@@ -53,6 +53,10 @@ def extend_bounds(problem):
         problem["names"] = names
         problem["num_vars"] = num_ff_vars
 
+        dists = problem.get("dists")
+        if dists is not None:
+            problem["dists"] = list(dists) + ["unif"] * num_dummy_variables
+
     return problem
 
 
-- 
2.43.0


From 92ae93a72e2a3ddc9cd373a7795570c402cf7f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 06/68] fix: Sobol' indices of constant outputs are zero, not
 NaN

Constant outputs gave zero indices only when rounding left a non-zero
standard deviation; otherwise normalizing divided by zero. The intervals
of second order indices, and all intervals in parallel mode, were NaN.
---
 src/SALib/analyze/sobol.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index 6cb5ed3..4358078 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -138,7 +138,9 @@ def analyze(
     # Estimates of the Sobol' indices can be biased for non-centered outputs
     # so we center here by normalizing with the standard deviation.
     # Other approaches opt to subtract the mean.
-    Y = (Y - Y.mean()) / Y.std()
+    # Constant outputs cannot be normalized and are handled by the estimators.
+    if np.ptp(Y) != 0:
+        Y = (Y - Y.mean()) / Y.std()
 
     A, B, AB, BA = separate_output_values(Y, D, N, calc_second_order)
     r = rng(N, size=(N, num_resamples))
@@ -177,9 +179,9 @@ def analyze(
             for j in range(D):
                 for k in range(j + 1, D):
                     S["S2"][j, k] = second_order(A, AB[:, j], AB[:, k], BA[:, j], B)
-                    S["S2_conf"][j, k] = Z * second_order(
-                        A[r], AB[r, j], AB[r, k], BA[r, j], B[r]
-                    ).std(ddof=1)
+                    S["S2_conf"][j, k] = confidence(
+                        Z, second_order(A[r], AB[r, j], AB[r, k], BA[r, j], B[r])
+                    )
     else:
         tasks, n_processors = create_task_list(D, calc_second_order, n_processors)
 
@@ -246,6 +248,15 @@ def second_order(A, ABj, ABk, BAj, B):
     return Vjk - Sj - Sk
 
 
+def confidence(Z, resamples):
+    """Half-width of the confidence interval given the bootstrap estimates, which
+    is zero where these could not be computed due to constant values."""
+    if np.ndim(resamples) == 0:
+        return 0.0
+
+    return Z * resamples.std(ddof=1)
+
+
 def create_Si_dict(
     D: int, num_resamples: int, keep_resamples: bool, calc_second_order: bool
 ):
@@ -285,15 +296,17 @@ def sobol_parallel(Z, A, AB, BA, B, r, tasks):
         if d == "S1":
             s = first_order(A, AB[:, j], B)
         elif d == "S1_conf":
-            s = Z * first_order(A[r], AB[r, j], B[r]).std(ddof=1)
+            s = confidence(Z, first_order(A[r], AB[r, j], B[r]))
         elif d == "ST":
             s = total_order(A, AB[:, j], B)
         elif d == "ST_conf":
-            s = Z * total_order(A[r], AB[r, j], B[r]).std(ddof=1)
+            s = confidence(Z, total_order(A[r], AB[r, j], B[r]))
         elif d == "S2":
             s = second_order(A, AB[:, j], AB[:, k], BA[:, j], B)
         elif d == "S2_conf":
-            s = Z * second_order(A[r], AB[r, j], AB[r, k], BA[r, j], B[r]).std(ddof=1)
+            s = confidence(
+                Z, second_order(A[r], AB[r, j], AB[r, k], BA[r, j], B[r])
+            )
         sobol_indices.append([d, j, k, s])
 
     return sobol_indices
-- 
2.43.0


From e60f16a839235f976737b6eb19f196543244243b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 07/68] fix: tabulate Sobol' results of problems with one or
 two parameters

With a single parameter to_df() raised IndexError when second order
indices were requested; with two, the pair was labelled with a list
rather than a tuple of names.
---
 src/SALib/analyze/sobol.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index 4358078..72d3537 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -414,17 +414,15 @@ def Si_to_pandas_dict(S_dict):
     if "S2" in S_dict:
         names, _ = extract_group_names(S_dict.problem)
 
-        if len(names) > 2:
-            idx = list(combinations(names, 2))
-        else:
-            idx = (names,)
-
-        second_order = {
-            "S2": [S_dict["S2"][names.index(i[0]), names.index(i[1])] for i in idx],
-            "S2_conf": [
-                S_dict["S2_conf"][names.index(i[0]), names.index(i[1])] for i in idx
-            ],
-        }
+        idx = list(combinations(names, 2)) or None
+        if idx:
+            second_order = {
+                "S2": [S_dict["S2"][names.index(i[0]), names.index(i[1])] for i in idx],
+                "S2_conf": [
+                    S_dict["S2_conf"][names.index(i[0]), names.index(i[1])]
+                    for i in idx
+                ],
+            }
     return total_order, first_order, (idx, second_order)
 
 
-- 
2.43.0


From 1cb759837b8f23c04897a8dd9baa0323d261c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 08/68] fix: analyze problems with a single group the way they
 were sampled

The Sobol'/Saltelli samplers ignore groups when there is only one, but
the analysis expected a sample with a single group: it either raised or
silently mixed up the rows of the cross-sampled matrix.
---
 src/SALib/analyze/sobol.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index 72d3537..ed73e38 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -7,7 +7,12 @@ import numpy as np
 import pandas as pd
 
 from . import common_args
-from ..util import read_param_file, ResultDict, extract_group_names
+from ..util import (
+    read_param_file,
+    ResultDict,
+    extract_group_names,
+    _check_groups,
+)
 
 from multiprocessing import Pool, cpu_count
 from functools import partial
@@ -118,7 +123,7 @@ def analyze(
 
     # Determine if groups are defined and adjusting the number
     # of rows in the cross-sampled matrix accordingly
-    _, D = extract_group_names(problem)
+    _, D = _index_names(problem)
 
     if calc_second_order and Y.size % (2 * D + 2) == 0:
         N = int(Y.size / (2 * D + 2))
@@ -208,6 +213,17 @@ def analyze(
     return S
 
 
+def _index_names(problem):
+    """Names and number of factors to report on.
+
+    As when sampling, groups are only considered if there is more than one.
+    """
+    if not _check_groups(problem):
+        return list(problem["names"]), problem["num_vars"]
+
+    return extract_group_names(problem)
+
+
 def first_order(A, AB, B):
     """
     First order estimator following Saltelli et al. 2010 CPC, normalized by
@@ -412,7 +428,7 @@ def Si_to_pandas_dict(S_dict):
     idx = None
     second_order = None
     if "S2" in S_dict:
-        names, _ = extract_group_names(S_dict.problem)
+        names, _ = _index_names(S_dict.problem)
 
         idx = list(combinations(names, 2)) or None
         if idx:
@@ -440,7 +456,7 @@ def to_df(self):
     """
     total, first, (idx, second) = Si_to_pandas_dict(self)
 
-    names, _ = extract_group_names(self.problem)
+    names, _ = _index_names(self.problem)
 
     ret = [pd.DataFrame(total, index=names), pd.DataFrame(first, index=names)]
 
-- 
2.43.0


From 53be4ef768069170bb2b98b17db97d62bf5cc9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 09/68] fix: keep resamples of parallel Sobol' analyses

With parallel=True the stored resampling results were all zero.
---
 src/SALib/analyze/sobol.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index ed73e38..fa39d56 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -190,7 +190,9 @@ def analyze(
     else:
         tasks, n_processors = create_task_list(D, calc_second_order, n_processors)
 
-        func = partial(sobol_parallel, Z, A, AB, BA, B, r)
+        func = partial(
+            sobol_parallel, Z, A, AB, BA, B, r, keep_resamples=keep_resamples
+        )
         pool = Pool(n_processors)
         S_list = pool.map_async(func, tasks)
         pool.close()
@@ -306,17 +308,19 @@ def separate_output_values(Y, D, N, calc_second_order):
     return A, B, AB, BA
 
 
-def sobol_parallel(Z, A, AB, BA, B, r, tasks):
+def sobol_parallel(Z, A, AB, BA, B, r, tasks, keep_resamples=False):
     sobol_indices = []
     for d, j, k in tasks:
         if d == "S1":
             s = first_order(A, AB[:, j], B)
         elif d == "S1_conf":
-            s = confidence(Z, first_order(A[r], AB[r, j], B[r]))
+            resamples = first_order(A[r], AB[r, j], B[r])
+            s = confidence(Z, resamples)
         elif d == "ST":
             s = total_order(A, AB[:, j], B)
         elif d == "ST_conf":
-            s = confidence(Z, total_order(A[r], AB[r, j], B[r]))
+            resamples = total_order(A[r], AB[r, j], B[r])
+            s = confidence(Z, resamples)
         elif d == "S2":
             s = second_order(A, AB[:, j], AB[:, k], BA[:, j], B)
         elif d == "S2_conf":
@@ -324,6 +328,8 @@ def sobol_parallel(Z, A, AB, BA, B, r, tasks):
                 Z, second_order(A[r], AB[r, j], AB[r, k], BA[r, j], B[r])
             )
         sobol_indices.append([d, j, k, s])
+        if keep_resamples and d in ("S1_conf", "ST_conf"):
+            sobol_indices.append([d + "_all", (slice(None), j), None, resamples])
 
     return sobol_indices
 
-- 
2.43.0


From 6b3236749c9920121bec804753a5f6b485043096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 10/68] fix: honour a seed of zero when analyzing

seed=0 was treated as if no seed was given, so results were not
reproducible.
---
 src/SALib/analyze/delta.py         | 2 +-
 src/SALib/analyze/dgsm.py          | 2 +-
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 src/SALib/analyze/fast.py          | 2 +-
 src/SALib/analyze/ff.py            | 2 +-
 src/SALib/analyze/hdmr.py          | 2 +-
 src/SALib/analyze/pawn.py          | 2 +-
 src/SALib/analyze/sobol.py         | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/SALib/analyze/delta.py b/src/SALib/analyze/delta.py
index 52bcb82..788cbc7 100644
--- a/src/SALib/analyze/delta.py
+++ b/src/SALib/analyze/delta.py
@@ -159,7 +159,7 @@ def analyze(
            sensitivity measures from given data." European Journal of
            Operational Research, 226(3):536-550, doi:10.1016/j.ejor.2012.11.047.
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     valid_methods = {"delta", "sobol", "all"}
diff --git a/src/SALib/analyze/dgsm.py b/src/SALib/analyze/dgsm.py
index 5e8ae11..f6ad7c9 100644
--- a/src/SALib/analyze/dgsm.py
+++ b/src/SALib/analyze/dgsm.py
@@ -55,7 +55,7 @@ def analyze(
            indices." Mathematics and Computers in Simulation, 79(10):3009-3017,
            doi:10.1016/j.matcom.2009.01.023.
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     D = problem["num_vars"]
diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index d4aef0f..9e89afb 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -196,7 +196,7 @@ def analyze(
        https://doi.org/10.1029/2022WR032834
     """
     # Random Seed
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     # Check arguments
diff --git a/src/SALib/analyze/fast.py b/src/SALib/analyze/fast.py
index a6e4f2c..2511db2 100644
--- a/src/SALib/analyze/fast.py
+++ b/src/SALib/analyze/fast.py
@@ -65,7 +65,7 @@ def analyze(
        fast99 - R `sensitivity` package
        https://github.com/cran/sensitivity/blob/master/R/fast99.R
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     D = problem["num_vars"]
diff --git a/src/SALib/analyze/ff.py b/src/SALib/analyze/ff.py
index 98592e8..e3fbb0d 100644
--- a/src/SALib/analyze/ff.py
+++ b/src/SALib/analyze/ff.py
@@ -68,7 +68,7 @@ def analyze(problem, X, Y, second_order=False, print_to_console=False, seed=None
            Wiley, West Sussex, U.K.
            http://doi.org/10.1002/9780470725184
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     problem = extend_bounds(problem)
diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index e2a46e8..3bd9362 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -177,7 +177,7 @@ def analyze(
     )
 
     # Random Seed
-    if seed:
+    if seed is not None:
         rng = handle_seed(seed)  # noqa
 
     # Initial part: Check input arguments and define HDMR variables
diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 80851ce..e25722f 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -103,7 +103,7 @@ def analyze(
            Combining variance- and distribution-based global sensitivity analysis
            https://github.com/baronig/GSA-cvd
     """
-    if seed:
+    if seed is not None:
         np.random.seed(seed)
 
     D = problem["num_vars"]
diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index fa39d56..21d147b 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -115,7 +115,7 @@ def analyze(
        Reliability Engineering & System Safety, 92(7), 957-960.
        https://doi.org/10.1016/j.ress.2006.07.001
     """
-    if seed:
+    if seed is not None:
         # Set seed to ensure CIs are the same
         rng = np.random.default_rng(seed).integers
     else:
-- 
2.43.0


From c7909913313d2a026d5b25276a1013334e14b19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 11/68] fix: report the DGSM confidence interval on the scale
 of the DGSM

---
 src/SALib/analyze/dgsm.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/dgsm.py b/src/SALib/analyze/dgsm.py
index f6ad7c9..38c8ab0 100644
--- a/src/SALib/analyze/dgsm.py
+++ b/src/SALib/analyze/dgsm.py
@@ -129,7 +129,7 @@ def calc_dgsm(base, perturbed, x_delta, bounds, num_resamples, conf_level):
     """
     D = np.var(base)
     vi = calc_vi_mean(base, perturbed, x_delta)
-    dgsm = vi * (bounds[1] - bounds[0]) ** 2 / (D * np.pi**2)
+    scale = (bounds[1] - bounds[0]) ** 2 / (D * np.pi**2)
 
     len_base = len(base)
     s = np.empty(num_resamples)
@@ -138,7 +138,7 @@ def calc_dgsm(base, perturbed, x_delta, bounds, num_resamples, conf_level):
         r_i = r[i]
         s[i] = calc_vi_mean(base[r_i], perturbed[r_i], x_delta[r_i])
 
-    return dgsm, norm.ppf(0.5 + conf_level / 2.0) * s.std(ddof=1)
+    return vi * scale, norm.ppf(0.5 + conf_level / 2.0) * s.std(ddof=1) * scale
 
 
 def cli_parse(parser):
-- 
2.43.0


From 1eda1a78785c8c3ef63b3ce336213d960b807061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 12/68] fix: slice PAWN inputs for any number of slides

np.arange(0, 1 + 1/S, 1/S) yields a quantile above 1 for S = 6, 9, 21, ...
and analyze raised a ValueError.
---
 src/SALib/analyze/pawn.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index e25722f..0dca634 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -112,9 +112,8 @@ def analyze(
     results = np.full((D, 6), np.nan)
     temp_pawn = np.full((S, D), np.nan)
 
-    step = 1 / S
+    seq = np.linspace(0, 1, S + 1)
     for d_i in range(D):
-        seq = np.arange(0, 1 + step, step)
         X_di = X[:, d_i]
         X_q = np.nanquantile(X_di, seq)
 
-- 
2.43.0


From e3a4b301c7974e8c61d5cd8f53fd2f6fa463a167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 13/68] fix: ignore NaN outputs in PAWN as documented

---
 src/SALib/analyze/pawn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 0dca634..16c6f5e 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -130,7 +130,7 @@ def analyze(
             # if the K-S statistic is small or the p-value is high, then
             # we cannot reject the hypothesis that the distributions of
             # the two samples are the same.
-            ks = ks_2samp(Y_sel, Y)
+            ks = ks_2samp(Y_sel, Y, nan_policy="omit")
             temp_pawn[s, d_i] = ks.statistic
 
         p_ind = temp_pawn[:, d_i]
-- 
2.43.0


From 9164255ee40de6533dfd45ad03b948d36f4bd878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 14/68] fix: condition on the largest input values in PAWN

Samples at the upper end of an input were in no conditioning interval, so
one of the values of a two-valued input could be left out altogether.
---
 src/SALib/analyze/pawn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 16c6f5e..3e2ba63 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -118,7 +118,8 @@ def analyze(
         X_q = np.nanquantile(X_di, seq)
 
         for s in range(S):
-            Y_sel = Y[(X_di >= X_q[s]) & (X_di < X_q[s + 1])]
+            below = X_di < X_q[s + 1] if s < S - 1 else X_di <= X_q[s + 1]
+            Y_sel = Y[(X_di >= X_q[s]) & below]
             if len(Y_sel) == 0:
                 # no available samples
                 continue
-- 
2.43.0


From 855db63e37f0880a59c21f96a36e9a3f994a0780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 15/68] fix: RSA of problems with groups

---
 src/SALib/analyze/rsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index 22d255a..d129fec 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -112,11 +112,11 @@ def analyze(
     groups = _check_groups(problem)
     var_names, n_groups = extract_group_names(problem)
     if groups:
-        groups = np.array(var_names)
+        groups = np.array(groups)
         tmp = np.full((bins, n_groups), np.nan)
 
         # Take the mean of effects from parameters that are grouped together
-        for grp_id, grp in enumerate(groups):
+        for grp_id, grp in enumerate(var_names):
             tmp[:, grp_id] = np.nanmean(results[:, groups == grp], axis=1)
 
         results = tmp
-- 
2.43.0


From 423075acc5e1881e88e180b17783af39bd07fa65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:14 +0000
Subject: [PATCH 16/68] fix: label every RSA bin once for any number of bins

---
 src/SALib/analyze/rsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index d129fec..964f69a 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -124,7 +124,7 @@ def analyze(
 
     Si = ResultDict([(g, results[:, i]) for i, g in enumerate(var_names)])
     Si["names"] = var_names
-    Si["bins"] = np.arange(0.0, 1.0, (1.0 / bins))
+    Si["bins"] = np.linspace(0.0, 1.0, bins + 1)[:-1]
     Si["target"] = target
 
     # Attach object methods specific to this sensitivity method to ResultDict.
@@ -142,7 +142,7 @@ def rsa(X: np.ndarray, y: np.ndarray, bins: int = 10, target="X") -> np.ndarray:
     N, D = X.shape
 
     # Pre-allocated arrays to store data/results
-    seq = np.append(np.arange(0.0, 1.0, (1 / bins)), 1.0)
+    seq = np.linspace(0.0, 1.0, bins + 1)
     X_di = np.empty(N)  # store of factor values
     r_s = np.full((bins, D), np.nan)  # results
 
-- 
2.43.0


From 758ca1d014af88b0a1c6ccd01da996bcaaa7876b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 17/68] fix: name RSA and PAWN results of problems with a
 single group

A single group is not aggregated, so the results are those of the parameters.
---
 src/SALib/analyze/pawn.py | 3 ++-
 src/SALib/analyze/rsa.py  | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 3e2ba63..b2579af 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -107,7 +107,7 @@ def analyze(
         np.random.seed(seed)
 
     D = problem["num_vars"]
-    var_names, _ = extract_group_names(problem)
+    var_names = list(problem["names"])
 
     results = np.full((D, 6), np.nan)
     temp_pawn = np.full((S, D), np.nan)
@@ -156,6 +156,7 @@ def analyze(
 
         results = tmp
         tmp = None
+        var_names = list(unique_grps)
 
     Si = ResultDict(
         [
diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index 964f69a..8eda318 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -110,8 +110,9 @@ def analyze(
     results = rsa(X, Y, bins, target)
 
     groups = _check_groups(problem)
-    var_names, n_groups = extract_group_names(problem)
+    var_names = list(problem["names"])
     if groups:
+        var_names, n_groups = extract_group_names(problem)
         groups = np.array(groups)
         tmp = np.full((bins, n_groups), np.nan)
 
-- 
2.43.0


From 97ebbcc7dedba64c406533fb2d3b7fef92e1b98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:42 +0000
Subject: [PATCH 18/68] fix: name discrepancy indices after the groups they are
 for

---
 src/SALib/analyze/discrepancy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/discrepancy.py b/src/SALib/analyze/discrepancy.py
index 282ff1b..5c17125 100644
--- a/src/SALib/analyze/discrepancy.py
+++ b/src/SALib/analyze/discrepancy.py
@@ -109,10 +109,12 @@ def analyze(
             tmp[grp_id, :] = np.mean(s_discrepancy[groups == grp], axis=0)
 
         s_discrepancy = tmp.flatten()
+    else:
+        unique_grps = problem["names"]
 
     keys = ("s_discrepancy",)
     Si = ResultDict((k, np.zeros(D)) for k in keys)
-    Si["names"] = problem["names"]
+    Si["names"] = unique_grps
 
     Si["s_discrepancy"] = s_discrepancy
 
-- 
2.43.0


From 994c06bdaccdeaea45947558de00ba7027d5e69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 19/68] fix: RSA bins holding all but one sample are undefined,
 not an error

The two-sample test needs two samples on either side.
---
 src/SALib/analyze/rsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index 8eda318..96b2fba 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -185,7 +185,7 @@ def _has_samples(y, sel):
     """
     return (
         (np.count_nonzero(sel) != 0)
-        and (len(y[~sel]) != 0)
+        and (np.count_nonzero(~sel) > 1)
         and np.unique(y[sel]).size > 1
     )
 
-- 
2.43.0


From 4d1ab5e352227ed1f445e24a7f9fe8d99596b664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:34 +0000
Subject: [PATCH 20/68] fix: report the notes of delta analyses that failed for
 every parameter

---
 src/SALib/analyze/delta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/delta.py b/src/SALib/analyze/delta.py
index 788cbc7..358218c 100644
--- a/src/SALib/analyze/delta.py
+++ b/src/SALib/analyze/delta.py
@@ -283,7 +283,7 @@ def analyze(
             notes.append(note)
             continue
 
-        S["notes"] = notes
+    S["notes"] = notes
 
     if print_to_console:
         # Merge dictionaries
-- 
2.43.0


From daf40ef34ebc22083589a737d7e365c402015918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 21/68] fix: honour the seed in HDMR

The bootstrap ignored the generator created from the seed.
---
 src/SALib/analyze/hdmr.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index 3bd9362..a699957 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -177,12 +177,11 @@ def analyze(
     )
 
     # Random Seed
-    if seed is not None:
-        rng = handle_seed(seed)  # noqa
+    rng = handle_seed(seed)
 
     # Initial part: Check input arguments and define HDMR variables
     settings = _check_settings(X, Y, maxorder, maxiter, m, K, R, alpha, lambdax)
-    init_vars = _init(X, Y, settings)
+    init_vars = _init(X, Y, settings, rng)
 
     # Sensitivity Analysis Computation with/without bootstrapping
     SA, Em, RT, Y_em, idx = _compute(X, Y, settings, init_vars)
@@ -371,7 +370,7 @@ def _compute(X, Y, settings, init_vars):
     return (SA, Em, RT, Y_em, idx)
 
 
-def _init(X, Y, settings):
+def _init(X, Y, settings, rng):
     """Initialize HDMR variables."""
     N, d, maxorder, maxiter, m, K, R, alpha, lambdax = settings
 
@@ -381,7 +380,7 @@ def _init(X, Y, settings):
         idx = np.arange(0, N).reshape(N, 1)
     else:
         # Now setup the bootstrap matrix with selection matrix, idx, for samples
-        idx = np.argsort(np.random.rand(N, K), axis=0)[:R]
+        idx = np.argsort(rng.random((N, K)), axis=0)[:R]
 
     # Compute normalized X-values
     X_n = (X - np.tile(X.min(0), (N, 1))) / np.tile((X.max(0)) - X.min(0), (N, 1))
-- 
2.43.0


From 142782ed83ab2ffb3a4bd97ca0676d6d82650f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 22/68] fix: degrees of freedom of the first second- and
 third-order HDMR terms

The F-test took them for terms of the order below.
---
 src/SALib/analyze/hdmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index a699957..bdca0ee 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -646,9 +646,9 @@ def f_test(Y, f0, Y_em, R, alpha, m1, m2, m3, n1, n2, n3, n):
         Y_res1 = Y_res0 - Y_em[:, i]
 
         # Number of parameters of proposed model (order dependent)
-        if i <= n1:
+        if i < n1:
             p1 = m1  # 1st order
-        elif n1 < i <= (n1 + n2):
+        elif i < (n1 + n2):
             p1 = m2  # 2nd order
         else:
             p1 = m3  # 3rd order
-- 
2.43.0


From 3fad965355aa92cbd41641468d1ff8346405a208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 23/68] fix: report how often each HDMR term was selected

The flattened matrix had an entry per term and bootstrap trial, of which only
the first ones were printed next to the wrong terms.
---
 src/SALib/analyze/hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index bdca0ee..db95598 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -796,7 +796,7 @@ def _finalize(problem, SA, Em, d, alpha, maxorder, RT, Y_em, bootstrap_idx, X, Y
     Si["S_sum_conf"] = mult * np.std(np.sum(SA["S"]))
 
     # F-test # of selection to print out
-    Si["select"] = Em["select"].flatten()
+    Si["select"] = np.sum(Em["select"], axis=1)
 
     Si["names"] = Si["Term"]
 
-- 
2.43.0


From 46578d36694627da8d0643e0ee098aaed5039b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 24/68] fix: confidence intervals of the summed HDMR indices
 were always zero

---
 src/SALib/analyze/hdmr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index db95598..cf7d09e 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -791,9 +791,9 @@ def _finalize(problem, SA, Em, d, alpha, maxorder, RT, Y_em, bootstrap_idx, X, Y
     Si["Sa_conf"] = mult * np.std(SA["Sa"], axis=1)
     Si["Sb_conf"] = mult * np.std(SA["Sb"], axis=1)
     Si["S_conf"] = mult * np.std(SA["S"], axis=1)
-    Si["Sa_sum_conf"] = mult * np.std(np.sum(SA["Sa"]))
-    Si["Sb_sum_conf"] = mult * np.std(np.sum(SA["Sb"]))
-    Si["S_sum_conf"] = mult * np.std(np.sum(SA["S"]))
+    Si["Sa_sum_conf"] = mult * np.std(np.sum(SA["Sa"], axis=0))
+    Si["Sb_sum_conf"] = mult * np.std(np.sum(SA["Sb"], axis=0))
+    Si["S_sum_conf"] = mult * np.std(np.sum(SA["S"], axis=0))
 
     # F-test # of selection to print out
     Si["select"] = np.sum(Em["select"], axis=1)
-- 
2.43.0


From 13278875c1dd33f77ebd27cc4094642d6f3c3c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 25/68] fix: ill-conditioned first-order HDMR terms default to
 zero

They were left uninitialised.
---
 src/SALib/analyze/hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index cf7d09e..da15b9e 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -520,7 +520,7 @@ def B_spline(X, m, d):
 def _first_order(B1, Y_res, C1, R, n1, m1, maxiter, lambdax):
     """Compute first order sensitivities."""
     Y_i = np.empty((R, n1))  # Initialize 1st order contributions
-    T1 = np.empty((m1, R, n1))  # Initialize T(emporary) matrix - 1st
+    T1 = np.zeros((m1, R, n1))  # Initialize T(emporary) matrix - 1st
     it = 0  # Initialize iteration counter
 
     lam_eye_m1 = lambdax * identity(m1)
-- 
2.43.0


From 82963b2ce63a61e71ae80af052e724c8430f77bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 26/68] fix: HDMR must not replace the parameter names of a
 ProblemSpec

The names of the expansion terms replaced those of the parameters, breaking
later use of the specification.
---
 src/SALib/analyze/hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index da15b9e..c3adda3 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -817,7 +817,7 @@ def _finalize(problem, SA, Em, d, alpha, maxorder, RT, Y_em, bootstrap_idx, X, Y
     if not isinstance(problem, ProblemSpec):
         Si.problem = problem
     else:
-        problem.update(Si)
+        problem.update({k: v for k, v in Si.items() if k != "names"})
         problem.emulate = MethodType(emulate, problem)
 
     return Si
-- 
2.43.0


From 88330123762feea0701664ce869cfcbb284bde8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:26 +0000
Subject: [PATCH 27/68] fix: HDMR emulation of new inputs

Inputs were normalized with their own range rather than with that of the
samples the emulator was built from, and the mean was that of the observed
outputs to compare with, or missing without them.
---
 src/SALib/analyze/hdmr.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index c3adda3..c9d4078 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -868,8 +868,9 @@ def emulate(self, X, Y=None):
     # Initialize emulated Y's
     Y_em = np.zeros((N, n1 + n2 + n3))
 
-    # Compute normalized X-values
-    X_n = (X - np.tile(X.min(0), (N, 1))) / np.tile((X.max(0)) - X.min(0), (N, 1))
+    # Normalize X-values as done for the samples the emulator was built with
+    X_min, X_max = self["X"].min(0), self["X"].max(0)
+    X_n = (X - np.tile(X_min, (N, 1))) / np.tile(X_max - X_min, (N, 1))
 
     # Now compute B values
     B1 = B_spline(X_n, m, d)
@@ -905,12 +906,10 @@ def emulate(self, X, Y=None):
         for j in range(n1 + n2, n1 + n2 + n3):
             Y_em[:, j] = B3[:, :, j - n1 - n2] @ C3[:, j - n1 - n2]
 
-    Y_mean = 0
     if Y is not None:
-        Y_mean = np.mean(Y)
         self["Y_test"] = Y
 
-    self["emulated"] = np.sum(Y_em, axis=1) + Y_mean
+    self["emulated"] = np.mean(Em["f0"]) + np.sum(Y_em, axis=1)
 
 
 def to_df(self):
-- 
2.43.0


From 6e85fec8165ca57e49d095274f7c0737c1f40e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 28/68] fix: ProblemSpec.analyze rejects a single group, as its
 message says

---
 src/SALib/util/problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index bf0796d..30327bd 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -336,7 +336,7 @@ class ProblemSpec(dict):
         -------
         self : ProblemSpec object
         """
-        if self["num_vars"] == 1 or (self["groups"] and len("groups") == 1):
+        if self["num_vars"] == 1 or (self["groups"] and len(set(self["groups"])) == 1):
             msg = (
                 "There is only a single parameter or group defined. There is "
                 "no point in conducting sensitivity analysis as any and all"
-- 
2.43.0


From 43c96643bbb01ac730e70e420cf6f8af6b1e8395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 29/68] fix: enhanced HDMR must not extend the caller's
 parameter names

---
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 9e89afb..4bc5df8 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -588,7 +588,7 @@ def _core_params(
         )
         for k in keys
     )
-    Si["Term"] = problem["names"]
+    Si["Term"] = list(problem["names"])
     Si["ST"] = np.full(hdmr.nc_t, np.nan)
     Si["ST_conf"] = np.full(hdmr.nc_t, np.nan)
 
-- 
2.43.0


From d102ff4b94216633a32b7b7abafb9bf0cc84966e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 30/68] fix: enhanced HDMR of first order failed

---
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 4bc5df8..f795503 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1436,7 +1436,7 @@ def _finalize(hdmr, Si, alpha, return_emulator):
     # Compute the total sensitivity of each parameter/coefficient
     for r in range(hdmr.d):
         if hdmr.max_order == 1:
-            TS = hdmr.S[r, :]
+            TS = Si["S"][r, :]
         elif hdmr.max_order == 2:
             ij = hdmr.d + np.where(np.sum(hdmr.beta == r, axis=1) == 1)[0]
             TS = np.sum(Si["S"][np.append(r, ij), :], axis=0)
-- 
2.43.0


From fd01b138aff2b44316b60a314f30c369867fc740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 31/68] fix: enhanced HDMR of third order failed

---
 src/SALib/analyze/enhanced_hdmr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index f795503..af8f415 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -873,6 +873,7 @@ def _fanova(b_m, hdmr, Si, Y, bootstrap, max_iter, l2_penalty, alpha):
                     Y_res,
                     l2_penalty,
                     hdmr,
+                    t,
                 )
 
         # Calculate component functions
@@ -1442,7 +1443,7 @@ def _finalize(hdmr, Si, alpha, return_emulator):
             TS = np.sum(Si["S"][np.append(r, ij), :], axis=0)
         elif hdmr.max_order == 3:
             ij = hdmr.d + np.where(np.sum(hdmr.beta == r, axis=1) == 1)[0]
-            ijk = hdmr.d + hdmr.nc2 + np.where(np.sum(hdmr.nc3 == r, axis=1) == 1)[0]
+            ijk = hdmr.d + hdmr.nc2 + np.where(np.sum(hdmr.gamma == r, axis=1) == 1)[0]
             TS = np.sum(Si["S"][np.append(r, np.append(ij, ijk)), :], axis=0)
         Si["ST"][r] = np.mean(TS)
         Si["ST_conf"][r] = mult * np.std(TS)
-- 
2.43.0


From d40137aea03b4ccac9a3803a3597dcb12c38480b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 32/68] fix: enhanced HDMR reduces max_order to 2 when there
 are two inputs

---
 src/SALib/analyze/enhanced_hdmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index af8f415..7c0af63 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -200,7 +200,7 @@ def analyze(
         np.random.seed(seed)
 
     # Check arguments
-    Y, problem, subset, max_iter = _check_args(
+    Y, problem, max_order, subset, max_iter = _check_args(
         problem,
         X,
         Y,
@@ -345,7 +345,7 @@ def _check_args(
     if l2_penalty < 0.0 or l2_penalty > 10:
         raise ValueError("'l2_penalty' should be in between 0 and 10")
 
-    return Y, problem, subset, max_iter
+    return Y, problem, max_order, subset, max_iter
 
 
 def _core_params(
-- 
2.43.0


From 11008da5fc6702c75b5c0e5cac153f22e6d895ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 33/68] fix: enhanced HDMR extended basis of third order terms

---
 src/SALib/analyze/enhanced_hdmr.py | 31 ++++++------------------------
 1 file changed, 6 insertions(+), 25 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 7c0af63..b3092f4 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -690,32 +690,13 @@ def _basis_matrix(X, hdmr):
                 b_m[:, col : col + hdmr.p_o] = b_m[:, k * hdmr.p_o : (k + 1) * hdmr.p_o]
                 col += hdmr.p_o
 
+                # Product columns of the three nested second order terms
                 p_o_2 = hdmr.p_o**2
-                b_m[:, col : col + p_o_2] = b_m[
-                    :,
-                    hdmr.tnt1
-                    + (2 * hdmr.nt1) * (i + 1)
-                    + i * p_o_2 : hdmr.tnt1
-                    + (i + 1) * (p_o_2 + 2 * hdmr.nt1),
-                ]
-                col += p_o_2
-
-                b_m[:, col : col + p_o_2] = b_m[
-                    :,
-                    hdmr.tnt1
-                    + (2 * hdmr.nt1) * (j + 1)
-                    + j * p_o_2 : hdmr.tnt1
-                    + (j + 1) * (p_o_2 + 2 * hdmr.nt1),
-                ]
-                col += p_o_2
-                b_m[:, col : col + p_o_2] = b_m[
-                    :,
-                    hdmr.tnt1
-                    + (2 * hdmr.nt1) * (k + 1)
-                    + k * p_o_2 : hdmr.tnt1
-                    + (k + 1) * (p_o_2 + 2 * hdmr.nt1),
-                ]
-                col += p_o_2
+                for pair in ((i, j), (i, k), (j, k)):
+                    ij = np.flatnonzero((hdmr.beta == pair).all(axis=1))[0]
+                    end = hdmr.tnt1 + (ij + 1) * hdmr.nt2
+                    b_m[:, col : col + p_o_2] = b_m[:, end - p_o_2 : end]
+                    col += p_o_2
 
             for l1, l2, l3 in _prod(
                 range(i * hdmr.p_o, (i + 1) * hdmr.p_o),
-- 
2.43.0


From fc35e6912dc496b1eb65deb79df5d952f757f2fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 34/68] fix: enhanced HDMR confidence of summed indices was
 always zero

---
 src/SALib/analyze/enhanced_hdmr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index b3092f4..d6f126d 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1433,9 +1433,9 @@ def _finalize(hdmr, Si, alpha, return_emulator):
     Si["Sa_conf"] = mult * np.std(Si["Sa"], axis=1)
     Si["Sb_conf"] = mult * np.std(Si["Sb"], axis=1)
     Si["S_conf"] = mult * np.std(Si["S"], axis=1)
-    Si["Sa_sum_conf"] = mult * np.std(np.sum(Si["Sa"]))
-    Si["Sb_sum_conf"] = mult * np.std(np.sum(Si["Sb"]))
-    Si["S_sum_conf"] = mult * np.std(np.sum(Si["S"]))
+    Si["Sa_sum_conf"] = mult * np.std(np.sum(Si["Sa"], axis=0))
+    Si["Sb_sum_conf"] = mult * np.std(np.sum(Si["Sb"], axis=0))
+    Si["S_sum_conf"] = mult * np.std(np.sum(Si["S"], axis=0))
 
     # Assign Bootstrap Results to Si Dict
     Si["Sa"] = np.mean(Si["Sa"], axis=1)
-- 
2.43.0


From d95a335e1d22f46a5a572727792ce39d5d8160d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 35/68] fix: enhanced HDMR prints total indices of the first
 order terms

---
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index d6f126d..c73937a 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1500,7 +1500,7 @@ def emulate(self, X):
 
 def _print(Si):
     nc_t = len(Si["Sa"])
-    d = np.isnan(Si["ST"]).sum()
+    d = np.sum(~np.isnan(Si["ST"]))
     print("\n")
     cols = "Term    \t      Sa            Sb             S             ST         Significancy "  # noqa: E501
     print(cols)
-- 
2.43.0


From 4d9178137fba24d7e6cef6af787820a91364f0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 36/68] fix: enhanced HDMR accepts the documented range of
 max_iter

---
 src/SALib/analyze/enhanced_hdmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index c73937a..8b637e0 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -339,8 +339,8 @@ def _check_args(
     if extended_base:
         max_iter = None
     else:
-        if max_iter not in np.arange(100, 1000):
-            raise ValueError("'max_iter' should be between 100 and 1000")
+        if max_iter not in np.arange(1, 1001):
+            raise ValueError("'max_iter' should be between 1 and 1000")
 
     if l2_penalty < 0.0 or l2_penalty > 10:
         raise ValueError("'l2_penalty' should be in between 0 and 10")
-- 
2.43.0


From 676f43f17e9bea7aa9c62e590ff9bf3953143cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:02 +0000
Subject: [PATCH 37/68] fix: enhanced HDMR emulates new inputs with the basis
 that was fitted

---
 src/SALib/analyze/enhanced_hdmr.py | 42 +++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 8b637e0..03f4fcd 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -225,6 +225,7 @@ def analyze(
         extended_base,
     )
     # Calculate HDMR Basis Matrix
+    hdmr = _fit_basis(X, hdmr)
     b_m = _basis_matrix(X, hdmr)
     # Functional ANOVA decomposition
     Si, hdmr = _fanova(b_m, hdmr, Si, Y, bootstrap, max_iter, l2_penalty, alpha)
@@ -439,6 +440,9 @@ def _core_params(
         Arrangement of third-order component functions
     f0 : float
         Zero-th component function
+    x_min, x_range, coeff : numpy.array
+        Normalization of the inputs and coefficients of the orthonormal
+        polynomials, fitted to the analyzed samples
 
     Si Keys
     -------
@@ -525,7 +529,11 @@ def _core_params(
             "beta",
             "gamma",
             "f0",
+            "x_min",
+            "x_range",
+            "coeff",
         ],
+        defaults=[None, None, None],
     )
 
     n_comp_func = cp["n_comp_func"]
@@ -623,6 +631,28 @@ def _core_params(
     return (hdmr, Si)
 
 
+def _fit_basis(X, hdmr):
+    """Fits normalization and orthonormal polynomials to the analyzed samples.
+
+    Parameters
+    ----------
+    X : numpy.array
+        Model input matrix
+    hdmr : namedtuple
+        Core parameters of hdmr expansion
+
+    Returns
+    -------
+    hdmr : namedtuple
+        Core parameters of hdmr expansion
+    """
+    x_min = X.min(0)
+    x_range = X.max(0) - x_min
+    coeff = _orth_poly_coeff((X - x_min) / x_range, hdmr)
+
+    return hdmr._replace(x_min=x_min, x_range=x_range, coeff=coeff)
+
+
 def _basis_matrix(X, hdmr):
     """The basis matrix represents the foundation of the component functions.
     It is constructed using orthonormal polynomials for each input variable,
@@ -642,12 +672,10 @@ def _basis_matrix(X, hdmr):
         Basis matrix
     """
     # Compute normalized X-values
-    X_n = (X - np.tile(X.min(0), (X.shape[0], 1))) / np.tile(
-        (X.max(0)) - X.min(0), (X.shape[0], 1)
-    )
+    X_n = (X - hdmr.x_min) / hdmr.x_range
 
-    # Compute Orthonormal Polynomial Coefficients
-    coeff = _orth_poly_coeff(X_n, hdmr)
+    # Orthonormal Polynomial Coefficients
+    coeff = hdmr.coeff
 
     # Initialize Basis Matrix
     b_m = np.zeros((X.shape[0], hdmr.a_tnt))
@@ -1479,8 +1507,8 @@ def to_df(self):
 def emulate(self, X):
     """Emulates model output with new input data.
 
-    Constructs orthonormal polynomials with new input matrix, X,
-    and multiplies it with solution array, hdmr.x
+    Evaluates the orthonormal polynomials of the analysis at new input
+    matrix, X, and multiplies it with solution array, hdmr.x
 
     Compares emulated results with observed vector, Y.
 
-- 
2.43.0


From bfff4c062d74bc3c76838dd4b00775c878d802b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 38/68] fix: enhanced HDMR hierarchical orthogonality with
 fewer samples than coefficients

---
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 03f4fcd..f784996 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1000,7 +1000,7 @@ def _d_morph(b_m, cost, Y_idx, subset, hdmr):
     except LinAlgError:
         raise LinAlgError("D-Morph: Pseudo-Inverse did not converge")
 
-    nullity = min(b_m.shape) - rank
+    nullity = b_m.shape[1] - rank
     V = Vh.T
     U = np.delete(U, range(0, nullity), axis=1)
     V = np.delete(V, range(0, nullity), axis=1)
-- 
2.43.0


From 29c270a8808e9e345f7c4a93837572e5b8f72f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 39/68] fix: HDMR command line ignored the seed

---
 src/SALib/analyze/enhanced_hdmr.py | 1 +
 src/SALib/analyze/hdmr.py          | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index f784996..52349b5 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -1700,6 +1700,7 @@ def cli_action(args):
         "extended_base": args.extended_base,
         "print_to_console": args.print_to_console,
         "return_emulator": args.return_emulator,
+        "seed": args.seed,
     }
 
     if len(X.shape) == 1:
diff --git a/src/SALib/analyze/hdmr.py b/src/SALib/analyze/hdmr.py
index c9d4078..69f2286 100644
--- a/src/SALib/analyze/hdmr.py
+++ b/src/SALib/analyze/hdmr.py
@@ -1087,6 +1087,7 @@ def cli_action(args):
         "alpha": alpha,
         "lambdax": lambdax,
         "print_to_console": True,
+        "seed": args.seed,
     }
 
     if len(X.shape) == 1:
-- 
2.43.0


From f0a54f95707c78e8c3bfa6f0924ed284b0be00ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 40/68] fix: Sobol sampling command line ignored seed and
 skipped values

---
 src/SALib/sample/sobol.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/SALib/sample/sobol.py b/src/SALib/sample/sobol.py
index 07e905a..2865990 100644
--- a/src/SALib/sample/sobol.py
+++ b/src/SALib/sample/sobol.py
@@ -221,9 +221,9 @@ def cli_parse(parser):
         "--skip-values",
         type=int,
         required=False,
-        default=None,
-        help="Number of sample points to skip (default: next largest power of"
-        " 2 from `samples`). Not recommended (use `scramble` instead).",
+        default=0,
+        help="Number of sample points to skip (default: 0)."
+        " Not recommended (use `scramble` instead).",
     )
 
     return parser
@@ -242,6 +242,8 @@ def cli_action(args):
         args.samples,
         calc_second_order=(args.max_order == 2),
         scramble=args.scramble,
+        skip_values=args.skip_values,
+        seed=args.seed,
     )
     np.savetxt(
         args.output,
-- 
2.43.0


From 3c1818e09d416a2aef62237f3ba133ea46682d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 41/68] fix: PAWN and RSA command lines failed without their
 optional arguments

---
 src/SALib/analyze/pawn.py | 7 ++++++-
 src/SALib/analyze/rsa.py  | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index b2579af..5c0b55a 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -182,7 +182,12 @@ def cli_parse(parser):
     )
 
     parser.add_argument(
-        "-S", "--slices", type=int, required=False, help="Number of slices to take"
+        "-S",
+        "--slices",
+        type=int,
+        required=False,
+        default=10,
+        help="Number of slices to take",
     )
     return parser
 
diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index 96b2fba..f7713a5 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -251,6 +251,7 @@ def cli_parse(parser):
         "--bins",
         type=int,
         required=False,
+        default=20,
         help="Number of bins to partition target space into",
     )
 
@@ -259,6 +260,7 @@ def cli_parse(parser):
         "--target",
         type=str,
         required=False,
+        default="Y",
         help="Target input space (X) or output space (Y)",
     )
 
-- 
2.43.0


From a50036692d50faf481697f22b6b43b80592f9046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 42/68] fix: command line analysis of a single-column input
 file

---
 src/SALib/analyze/discrepancy.py | 2 +-
 src/SALib/analyze/pawn.py        | 2 +-
 src/SALib/analyze/rbd_fast.py    | 2 +-
 src/SALib/analyze/rsa.py         | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/SALib/analyze/discrepancy.py b/src/SALib/analyze/discrepancy.py
index 5c17125..a67ac39 100644
--- a/src/SALib/analyze/discrepancy.py
+++ b/src/SALib/analyze/discrepancy.py
@@ -134,7 +134,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 5c0b55a..6971d9e 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -194,7 +194,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
diff --git a/src/SALib/analyze/rbd_fast.py b/src/SALib/analyze/rbd_fast.py
index d642557..0d9168e 100644
--- a/src/SALib/analyze/rbd_fast.py
+++ b/src/SALib/analyze/rbd_fast.py
@@ -177,7 +177,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index f7713a5..b800ebb 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -269,7 +269,7 @@ def cli_parse(parser):
 
 def cli_action(args):
     problem = read_param_file(args.paramfile)
-    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter)
+    X = np.loadtxt(args.model_input_file, delimiter=args.delimiter, ndmin=2)
     Y = np.loadtxt(
         args.model_output_file, delimiter=args.delimiter, usecols=(args.column,)
     )
-- 
2.43.0


From da1bd8550eee88b179951f199072aafb4169e877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:29 +0000
Subject: [PATCH 43/68] fix: Morris command line flags set to False were taken
 as True

---
 src/SALib/analyze/morris.py       | 2 +-
 src/SALib/sample/morris/morris.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/analyze/morris.py b/src/SALib/analyze/morris.py
index 1c6c864..bae3b9b 100644
--- a/src/SALib/analyze/morris.py
+++ b/src/SALib/analyze/morris.py
@@ -630,7 +630,7 @@ def cli_parse(parser):
     )
     parser.add_argument(
         "--scaled",
-        type=bool,
+        type=lambda x: str(x).lower() not in ("false", "no", "0", ""),
         required=False,
         default=False,
         help="Scale the results by ratio of stddev of X and Y (Morris)",
diff --git a/src/SALib/sample/morris/morris.py b/src/SALib/sample/morris/morris.py
index d54cdd9..c53da5d 100644
--- a/src/SALib/sample/morris/morris.py
+++ b/src/SALib/sample/morris/morris.py
@@ -445,7 +445,7 @@ def cli_parse(parser):
     parser.add_argument(
         "-lo",
         "--local",
-        type=bool,
+        type=lambda x: str(x).lower() not in ("false", "no", "0", ""),
         required=True,
         default=False,
         help="Use the local optimisation method \
-- 
2.43.0


From b8817eabeb25345cd1e71275701b6f554f25749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:21 +0000
Subject: [PATCH 44/68] fix: enhanced HDMR decomposition failed to converge for
 some samples

---
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 52349b5..8f7b64b 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -996,7 +996,7 @@ def _d_morph(b_m, cost, Y_idx, subset, hdmr):
         # Projection Matrix
         pr = np.eye(hdmr.a_tnt) - (a_pinv @ a)
         pb = pr @ cost
-        U, _, Vh = svd(pb)
+        U, _, Vh = svd(pb, lapack_driver="gesvd")
     except LinAlgError:
         raise LinAlgError("D-Morph: Pseudo-Inverse did not converge")
 
-- 
2.43.0


From 297153e3ffac8f79f7d7fadf227f581390e7e604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:24 +0000
Subject: [PATCH 45/68] fix: ProblemSpec analysis of a single output held as a
 column

---
 src/SALib/util/problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 30327bd..1eadb59 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -370,7 +370,7 @@ class ProblemSpec(dict):
             for i, out in enumerate(self["outputs"]):
                 self._analysis[out] = func(self, Y=self._results[:, i])
         else:
-            self._analysis = func(self, Y=self._results)
+            self._analysis = func(self, Y=self._results.reshape(-1))
 
         return self
 
@@ -426,7 +426,7 @@ class ProblemSpec(dict):
                 f" for 1 output."
             )
 
-            res = func(self, Y=self._results)
+            res = func(self, Y=self._results.reshape(-1))
         else:
             max_procs = cpu_count()
             if nprocs is None:
-- 
2.43.0


From 653fac977928613fea553fc477ecee7c76434c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:36 +0000
Subject: [PATCH 46/68] fix: keep scaled samples within their bounds despite
 rounding

---
 src/SALib/util/__init__.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/SALib/util/__init__.py b/src/SALib/util/__init__.py
index de3e0e2..756fa41 100644
--- a/src/SALib/util/__init__.py
+++ b/src/SALib/util/__init__.py
@@ -52,6 +52,9 @@ def _scale_samples(params: np.ndarray, bounds: List):
         out=params,
     )
 
+    # Keep rounding from carrying the largest samples past the upper bound
+    np.minimum(params, upper_bounds, out=params)
+
 
 def scale_samples(params: np.ndarray, problem: Dict):
     """Scale samples based on specified distribution (defaulting to uniform).
@@ -196,7 +199,7 @@ def _nonuniform_scale_samples(params, bounds, dists):
             else:
                 conv_params[:, i] = sp.stats.triang.ppf(
                     params[:, i], c=b2, scale=b1 - loc_start, loc=loc_start
-                )
+                ).clip(loc_start, b1)
 
         elif dists[i] == "unif":
             if b1 >= b2:
@@ -205,7 +208,7 @@ def _nonuniform_scale_samples(params, bounds, dists):
                     must be less than upper bound"""
                 )
             else:
-                conv_params[:, i] = params[:, i] * (b2 - b1) + b1
+                conv_params[:, i] = (params[:, i] * (b2 - b1) + b1).clip(b1, b2)
 
         elif dists[i] == "logunif":
             if b1 <= 0 or b1 >= b2:
@@ -214,7 +217,9 @@ def _nonuniform_scale_samples(params, bounds, dists):
                     must be > 0 and less than upper bound"""
                 )
             else:
-                conv_params[:, i] = sp.stats.loguniform.ppf(params[:, i], a=b1, b=b2)
+                conv_params[:, i] = sp.stats.loguniform.ppf(
+                    params[:, i], a=b1, b=b2
+                ).clip(b1, b2)
 
         elif dists[i] == "norm":
             if b2 <= 0:
@@ -240,7 +245,7 @@ def _nonuniform_scale_samples(params, bounds, dists):
             else:
                 conv_params[:, i] = sp.stats.truncnorm.ppf(
                     params[:, i], (b1 - b3) / b4, (b2 - b3) / b4, loc=b3, scale=b4
-                )
+                ).clip(b1, b2)
 
         # lognormal distribution (ln-space, not base-10)
         # parameters are ln-space mean and standard deviation
-- 
2.43.0


From 73fff4cc8517a88ca117cf4b71a7d6f9c4d105b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:17 +0000
Subject: [PATCH 47/68] fix: comment lines in parameter files prevented
 detecting the delimiter

---
 src/SALib/util/util_funcs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/util_funcs.py b/src/SALib/util/util_funcs.py
index 601624d..123fbf8 100644
--- a/src/SALib/util/util_funcs.py
+++ b/src/SALib/util/util_funcs.py
@@ -66,7 +66,9 @@ def read_param_file(filename, delimiter=None):
     fieldnames = ["name", "lower_bound", "upper_bound", "group", "dist"]
 
     with open(filename, "r") as csvfile:
-        dialect = csv.Sniffer().sniff(csvfile.read(1024), delimiters=delimiter)
+        # comments do not tell how columns are delimited
+        rows = "".join(x for x in csvfile if not x.strip().startswith("#"))
+        dialect = csv.Sniffer().sniff(rows[:1024], delimiters=delimiter)
         csvfile.seek(0)
         reader = csv.DictReader(csvfile, fieldnames=fieldnames, dialect=dialect)
         for row in reader:
-- 
2.43.0


From c4e16ad0f72254778670a122cba449ab1c3ccc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:12 +0000
Subject: [PATCH 48/68] fix: heatmaps of results held in lists, labelled by
 what they show

---
 src/SALib/plotting/heatmap.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/SALib/plotting/heatmap.py b/src/SALib/plotting/heatmap.py
index 702c1cc..f04530c 100644
--- a/src/SALib/plotting/heatmap.py
+++ b/src/SALib/plotting/heatmap.py
@@ -56,8 +56,15 @@ def heatmap(sp: Dict, metric: str, index: str, title: str = None, ax=None):
     else:
         met_data = sp.analysis
 
-    si_shape = met_data[index[0]].shape
-    s_data = np.vstack([met_data[k] for k in index if met_data[k].shape == si_shape])
+    # Some results hold lists, and some (e.g., notes) are not numbers
+    si_shape = np.shape(met_data[index[0]])
+    index = [
+        k
+        for k in index
+        if np.shape(met_data[k]) == si_shape
+        and np.issubdtype(np.asarray(met_data[k]).dtype, np.number)
+    ]
+    s_data = np.vstack([met_data[k] for k in index])
 
     ax.imshow(s_data)
     fig.colorbar(ax.images[0], ax=ax, shrink=0.9)
-- 
2.43.0


From 1e86e824c2fb56b280fb235dcccb03a6e1b77782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:12 +0000
Subject: [PATCH 49/68] fix: bar plots of factorial designs without
 interactions

---
 src/SALib/util/results.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/SALib/util/results.py b/src/SALib/util/results.py
index 838cdb2..e1d9ecd 100644
--- a/src/SALib/util/results.py
+++ b/src/SALib/util/results.py
@@ -23,6 +23,12 @@ class ResultDict(dict):
         Si_df = self.to_df()
 
         if isinstance(Si_df, (list, tuple)):
+            # Some tables may not be available (e.g., interactions)
+            Si_df = [df for df in Si_df if df is not None]
+            if len(Si_df) == 1:
+                Si_df = Si_df[0]
+
+        if isinstance(Si_df, list):
             import matplotlib.pyplot as plt  # type: ignore
 
             if ax is None:
-- 
2.43.0


From 1db27d7cf407009b53ce83b4d4331563cb27aa5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:12 +0000
Subject: [PATCH 50/68] fix: plots of several outputs analyzed with RSA or HDMR

---
 src/SALib/util/problem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 1eadb59..1536aeb 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -503,7 +503,9 @@ class ProblemSpec(dict):
             num_rows, num_cols, sharey=True, figsize=(p_width, p_height)
         )
         for res, ax in zip(self._analysis, axes):
-            self._analysis[res].plot(ax=ax, **kwargs)
+            Si = self._analysis[res]
+            # The basic plot if the method draws figures of its own
+            getattr(Si, "_plot", Si.plot)(ax=ax, **kwargs)
 
             try:
                 ax[0].set_title(res)
-- 
2.43.0


From 2273978461b4d0ffb4928f75b2bca7378b1135cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:12 +0000
Subject: [PATCH 51/68] fix: HDMR plots of more than ten bootstrap trials

---
 src/SALib/plotting/hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/plotting/hdmr.py b/src/SALib/plotting/hdmr.py
index 57749a4..20abfd6 100644
--- a/src/SALib/plotting/hdmr.py
+++ b/src/SALib/plotting/hdmr.py
@@ -46,7 +46,7 @@ def plot(Si):
     start = max(0, K - 10)
     for i in range(start, K):
         # Only showing the last 10
-        if (i % (row * col) == 0) or (i == 0):
+        if i == start:
             fig = plt.figure(frameon=False)
             fig.suptitle("Showing last 10 Bootstrap Trials")
             it = 1
-- 
2.43.0


From 789bbf17558a346b2b6a62e3525a6df31ed122e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:24 +0000
Subject: [PATCH 52/68] fix: Morris plots of groups, of one and of ten or more
 parameters

---
 src/SALib/plotting/morris.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/SALib/plotting/morris.py b/src/SALib/plotting/morris.py
index 42c715f..3e42055 100644
--- a/src/SALib/plotting/morris.py
+++ b/src/SALib/plotting/morris.py
@@ -71,8 +71,8 @@ def covariance_plot(ax, Si, opts=None, unit=""):
     if opts is None:
         opts = {}
 
-    if Si["sigma"] is not None:
-        # sigma is not present if using morris groups
+    if Si["sigma"] is not None and not np.any(np.isnan(Si["sigma"])):
+        # sigma is not present (or undefined) if using morris groups
         y = Si["sigma"]
         out = ax.scatter(Si["mu_star"], y, c="k", marker="o", **opts)
         ax.set_ylabel(r"$\sigma$")
@@ -121,15 +121,13 @@ def sample_histograms(fig, input_sample, problem, opts=None):
     num_vars = problem["num_vars"]
     names = problem["names"]
 
-    framing = 101 + (num_vars * 10)
-
     # Find number of levels
-    num_levels = len(set(input_sample[:, 1]))
+    num_levels = len(set(input_sample[:, min(1, num_vars - 1)]))
 
     out = []
 
     for variable in range(num_vars):
-        ax = fig.add_subplot(framing + variable)
+        ax = fig.add_subplot(1, num_vars, variable + 1)
         out.append(
             ax.hist(
                 input_sample[:, variable],
-- 
2.43.0


From 490bf4b9304aaf3916c02571975be9ee30ff5f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:00 +0000
Subject: [PATCH 53/68] fix: print whole tables to the console

Tables of many inputs or pairs were abbreviated with '...', so part of the
results was never shown.
---
 src/SALib/analyze/dgsm.py        | 2 +-
 src/SALib/analyze/discrepancy.py | 2 +-
 src/SALib/analyze/fast.py        | 2 +-
 src/SALib/analyze/morris.py      | 2 +-
 src/SALib/analyze/pawn.py        | 2 +-
 src/SALib/analyze/rbd_fast.py    | 2 +-
 src/SALib/analyze/rsa.py         | 2 +-
 src/SALib/analyze/sobol.py       | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/SALib/analyze/dgsm.py b/src/SALib/analyze/dgsm.py
index 38c8ab0..7621e0e 100644
--- a/src/SALib/analyze/dgsm.py
+++ b/src/SALib/analyze/dgsm.py
@@ -97,7 +97,7 @@ def analyze(
         )
 
     if print_to_console:
-        print(S.to_df())
+        print(S.to_df().to_string())
 
     return S
 
diff --git a/src/SALib/analyze/discrepancy.py b/src/SALib/analyze/discrepancy.py
index a67ac39..70b7f6c 100644
--- a/src/SALib/analyze/discrepancy.py
+++ b/src/SALib/analyze/discrepancy.py
@@ -119,7 +119,7 @@ def analyze(
     Si["s_discrepancy"] = s_discrepancy
 
     if print_to_console:
-        print(Si.to_df())
+        print(Si.to_df().to_string())
 
     return Si
 
diff --git a/src/SALib/analyze/fast.py b/src/SALib/analyze/fast.py
index 2511db2..8020adb 100644
--- a/src/SALib/analyze/fast.py
+++ b/src/SALib/analyze/fast.py
@@ -99,7 +99,7 @@ def analyze(
         Si["ST_conf"][i] = ST_d_conf
 
     if print_to_console:
-        print(Si.to_df())
+        print(Si.to_df().to_string())
 
     return Si
 
diff --git a/src/SALib/analyze/morris.py b/src/SALib/analyze/morris.py
index bae3b9b..1168ad9 100644
--- a/src/SALib/analyze/morris.py
+++ b/src/SALib/analyze/morris.py
@@ -164,7 +164,7 @@ def analyze(
     )
 
     if print_to_console:
-        print(Si.to_df())
+        print(Si.to_df().to_string())
 
     return Si
 
diff --git a/src/SALib/analyze/pawn.py b/src/SALib/analyze/pawn.py
index 6971d9e..1c642f7 100644
--- a/src/SALib/analyze/pawn.py
+++ b/src/SALib/analyze/pawn.py
@@ -171,7 +171,7 @@ def analyze(
     Si["names"] = var_names
 
     if print_to_console:
-        print(Si.to_df())
+        print(Si.to_df().to_string())
 
     return Si
 
diff --git a/src/SALib/analyze/rbd_fast.py b/src/SALib/analyze/rbd_fast.py
index 0d9168e..aba7c07 100644
--- a/src/SALib/analyze/rbd_fast.py
+++ b/src/SALib/analyze/rbd_fast.py
@@ -99,7 +99,7 @@ def analyze(
         Si["S1_conf"][i] = bootstrap(X[:, i], Y, M, num_resamples, conf_level, rng)
 
     if print_to_console:
-        print(Si.to_df())
+        print(Si.to_df().to_string())
 
     return Si
 
diff --git a/src/SALib/analyze/rsa.py b/src/SALib/analyze/rsa.py
index b800ebb..b8ea6af 100644
--- a/src/SALib/analyze/rsa.py
+++ b/src/SALib/analyze/rsa.py
@@ -134,7 +134,7 @@ def analyze(
     Si.plot = MethodType(plot, Si)
 
     if print_to_console:
-        print(Si.to_df())
+        print(Si.to_df().to_string())
 
     return Si
 
diff --git a/src/SALib/analyze/sobol.py b/src/SALib/analyze/sobol.py
index 21d147b..08dbb7e 100644
--- a/src/SALib/analyze/sobol.py
+++ b/src/SALib/analyze/sobol.py
@@ -210,7 +210,7 @@ def analyze(
     if print_to_console:
         res = S.to_df()
         for df in res:
-            print(df)
+            print(df.to_string())
 
     return S
 
-- 
2.43.0


From a4d46dabfa687188f7a11aac240c036f71320d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 54/68] fix: parallel evaluation of fewer samples than
 processes

Models were also called with empty chunks of samples, whose results need not
have the shape of the others (and models may not support empty inputs).
---
 src/SALib/util/problem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 1536aeb..d6ec414 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -230,8 +230,9 @@ class ProblemSpec(dict):
         # Create wrapped partial function to allow passing of additional args
         tmp_f = self._wrap_func(func, *args, **kwargs)
 
-        # Split into even chunks
-        chunks = np.array_split(self._samples, int(nprocs), axis=0)
+        # Split into even chunks (none of which may be empty)
+        n_chunks = min(int(nprocs), len(self._samples))
+        chunks = np.array_split(self._samples, n_chunks, axis=0)
 
         if ptqdm_available:
             # Display progress bar if available
-- 
2.43.0


From aa5a3e258b2a3567efc1cd8ad9de900ad95bf358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:26 +0000
Subject: [PATCH 55/68] fix: distributed evaluation of models with arguments,
 with a list of servers or none

The additional arguments were dropped, and neither a list of servers nor the
default were accepted.
---
 src/SALib/util/problem.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index d6ec414..687eb5a 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -296,12 +296,14 @@ class ProblemSpec(dict):
             " may not work."
         )
 
+        servers = tuple(servers) if servers else ()
         workers = pp_Pool(nprocs, servers=servers)
 
-        # Split into even chunks
-        chunks = np.array_split(self._samples, int(nprocs) * len(servers), axis=0)
+        # Split into even chunks (none of which may be empty)
+        n_chunks = min(int(nprocs) * max(len(servers), 1), len(self._samples))
+        chunks = np.array_split(self._samples, n_chunks, axis=0)
 
-        tmp_f = self._wrap_func(func)
+        tmp_f = self._wrap_func(func, *args, **kwargs)
 
         res = list(workers.map(tmp_f, chunks))
 
-- 
2.43.0


From 6a27bc7052da3554f831593ef73677e560cfc2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:04 +0000
Subject: [PATCH 56/68] fix: analyze with functions that use X as a local name,
 and with other callables

Local variables were taken for parameters, and callables that are not plain
functions (such as partial objects) were rejected.
---
 src/SALib/util/problem.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 687eb5a..3412b10 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -2,6 +2,7 @@ import warnings
 import importlib
 from types import MethodType
 from functools import partial, wraps
+from inspect import signature
 
 from multiprocess import Pool, cpu_count
 import numpy as np
@@ -354,7 +355,7 @@ class ProblemSpec(dict):
         if self._results is None:
             raise RuntimeError("Model not yet evaluated")
 
-        if "X" in func.__code__.co_varnames:
+        if "X" in signature(func).parameters:
             # enforce passing of X if expected
             func = partial(func, *args, X=self._samples, **kwargs)
         else:
@@ -406,7 +407,7 @@ class ProblemSpec(dict):
         if self._results is None:
             raise RuntimeError("Model not yet evaluated")
 
-        if "X" in func.__code__.co_varnames:
+        if "X" in signature(func).parameters:
             # enforce passing of X if expected
             func = partial(func, *args, X=self._samples, **kwargs)
         else:
-- 
2.43.0


From 4e9bf1448d93cb82be57dbb37119361fee302066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:44 +0000
Subject: [PATCH 57/68] fix: print whole tables of factorial interactions

Like the other methods' tables (490bf4b): more than sixty pairs were
abbreviated with '...'.
---
 src/SALib/analyze/ff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/ff.py b/src/SALib/analyze/ff.py
index e3fbb0d..983afc2 100644
--- a/src/SALib/analyze/ff.py
+++ b/src/SALib/analyze/ff.py
@@ -91,7 +91,7 @@ def analyze(problem, X, Y, second_order=False, print_to_console=False, seed=None
 
     if print_to_console:
         for S in Si.to_df():
-            print(S)
+            print(S if S is None else S.to_string())
 
     return Si
 
-- 
2.43.0


From 1f3495b46fb4f3c7e022a36e73a61c8b05790166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 58/68] fix: factorial designs of more than 512 parameters

find_smallest gave up beyond 2**9 and returned None.
---
 src/SALib/sample/ff.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/SALib/sample/ff.py b/src/SALib/sample/ff.py
index 6c4762a..b8476f4 100644
--- a/src/SALib/sample/ff.py
+++ b/src/SALib/sample/ff.py
@@ -26,9 +26,11 @@ def find_smallest(num_vars):
     x : int
         Smallest exponent of two greater than `num_vars`
     """
-    for x in range(10):
-        if num_vars <= 2**x:
-            return x
+    x = 0
+    while num_vars > 2**x:
+        x += 1
+
+    return x
 
 
 def extend_bounds(problem):
-- 
2.43.0


From 73788f335ee2587c8fdd11367262b41287c9b7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:59 +0000
Subject: [PATCH 59/68] fix: label heatmap columns by what was analyzed

---
 src/SALib/plotting/heatmap.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/SALib/plotting/heatmap.py b/src/SALib/plotting/heatmap.py
index f04530c..e251c93 100644
--- a/src/SALib/plotting/heatmap.py
+++ b/src/SALib/plotting/heatmap.py
@@ -46,7 +46,11 @@ def heatmap(sp: Dict, metric: str, index: str, title: str = None, ax=None):
 
     multi_index = isinstance(index, (list, tuple))
     if multi_index:
-        index = [k for k in index if not k.endswith(CONF_COLUMN) and k != "names"]
+        index = [
+            k
+            for k in index
+            if not k.endswith(CONF_COLUMN) and k not in ("names", "bins")
+        ]
 
     if isinstance(index, str):
         index = [index]
@@ -77,7 +81,14 @@ def heatmap(sp: Dict, metric: str, index: str, title: str = None, ax=None):
     if isinstance(metric, str):
         metric = [metric]
 
+    # Columns hold what was analyzed, which may not be the groups of the problem
     disp_names, _ = extract_group_names(sp)
+    if "bins" in met_data:
+        disp_names = [f"{x:.2f}" for x in met_data["bins"]]
+    else:
+        for key in ("names", "Term"):
+            if np.shape(met_data.get(key)) == s_data.shape[1:]:
+                disp_names = met_data[key]
 
     ax.xaxis.set_ticks(range(0, len(disp_names)))
     ax.xaxis.set_ticklabels(disp_names, rotation=90)
-- 
2.43.0


From 32ae432969d8fc1f146eaec06bdbbc5f01d2b2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:43 +0000
Subject: [PATCH 60/68] fix: pass additional arguments on to analyses

---
 src/SALib/util/problem.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 3412b10..acd5bf2 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -355,11 +355,7 @@ class ProblemSpec(dict):
         if self._results is None:
             raise RuntimeError("Model not yet evaluated")
 
-        if "X" in signature(func).parameters:
-            # enforce passing of X if expected
-            func = partial(func, *args, X=self._samples, **kwargs)
-        else:
-            func = partial(func, *args, **kwargs)
+        func = self._wrap_analysis(func, *args, **kwargs)
 
         out_cols = self.get("outputs", None)
         if out_cols is None:
@@ -407,11 +403,7 @@ class ProblemSpec(dict):
         if self._results is None:
             raise RuntimeError("Model not yet evaluated")
 
-        if "X" in signature(func).parameters:
-            # enforce passing of X if expected
-            func = partial(func, *args, X=self._samples, **kwargs)
-        else:
-            func = partial(func, *args, **kwargs)
+        func = self._wrap_analysis(func, *args, **kwargs)
 
         out_cols = self.get("outputs", None)
         if out_cols is None:
@@ -550,6 +542,19 @@ class ProblemSpec(dict):
 
         return tmp_f
 
+    def _wrap_analysis(self, func, *args, **kwargs):
+        # enforce passing of X if expected
+        needs_X = "X" in signature(func).parameters
+        if len(args) > 0:
+            # Additional arguments come after the problem specification and data
+            X = (self._samples,) if needs_X else ()
+            return lambda sp, Y: func(sp, *X, Y, *args, **kwargs)
+
+        if needs_X:
+            return partial(func, X=self._samples, **kwargs)
+
+        return partial(func, **kwargs)
+
     def _collect_results(self, res):
         res_shape = res[0].shape
         if len(res_shape) > 1:
-- 
2.43.0


From 935697d4c02cae7050f411a2e0323e081548024b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:56 +0000
Subject: [PATCH 61/68] fix: enhanced HDMR least squares kept noise of the rank
 deficient basis

---
 src/SALib/analyze/enhanced_hdmr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 8f7b64b..4bfde49 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -988,9 +988,9 @@ def _d_morph(b_m, cost, Y_idx, subset, hdmr):
     a = (b_m.T @ b_m) / subset  # LHS
     b = (b_m.T @ Y_idx) / subset  # RHS
     try:
-        # Pseudo-Inverse of LHS
-        a_pinv = pinv(a, hermitian=True)
-        rank = matrix_rank(a)
+        # Pseudo-Inverse of LHS, of the same numerical rank
+        a_pinv = pinv(a, rcond=a.shape[0] * np.finfo(float).eps, hermitian=True)
+        rank = matrix_rank(a, hermitian=True)
         # Least-Square Solution
         x = a_pinv @ b
         # Projection Matrix
-- 
2.43.0


From 45463afd0922ed885e2f3cfca17ace1a8efb2d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 62/68] fix: keep the methods of results that are copied or
 pickled

---
 src/SALib/util/results.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/SALib/util/results.py b/src/SALib/util/results.py
index e1d9ecd..a715209 100644
--- a/src/SALib/util/results.py
+++ b/src/SALib/util/results.py
@@ -1,3 +1,5 @@
+from types import MethodType
+
 import pandas as pd  # type: ignore
 from SALib.plotting.bar import plot as barplot
 
@@ -12,6 +14,22 @@ class ResultDict(dict):
     def __init__(self, *args, **kwargs):
         super(ResultDict, self).__init__(*args, **kwargs)
 
+    def __getstate__(self):
+        # Methods attached to these results would be copied or stored bound to
+        # the original (or under the wrong name), so their functions are instead
+        attached = {
+            k: v.__func__
+            for k, v in vars(self).items()
+            if isinstance(v, MethodType) and v.__self__ is self
+        }
+        return {k: v for k, v in vars(self).items() if k not in attached}, attached
+
+    def __setstate__(self, state):
+        attributes, attached = state
+        vars(self).update(attributes)
+        for name, func in attached.items():
+            setattr(self, name, MethodType(func, self))
+
     def to_df(self):
         """Convert dict structure into Pandas DataFrame."""
         return pd.DataFrame(
-- 
2.43.0


From 9f61c82dbf41919957bb2dc6a442848833dc0e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 63/68] fix: bind the methods of a copied or pickled
 ProblemSpec to the copy

---
 src/SALib/util/problem.py | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index acd5bf2..0827fe9 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -60,6 +60,28 @@ class ProblemSpec(dict):
         self._add_samplers()
         self._add_analyzers()
 
+    def __getstate__(self):
+        # The sampling and analysis methods are bound to this object, and added
+        # anew to copies. Other attached methods are kept as functions.
+        attached = {
+            k: v.__func__
+            for k, v in vars(self).items()
+            if isinstance(v, MethodType) and v.__self__ is self
+        }
+        attributes = {k: v for k, v in vars(self).items() if k not in attached}
+        added = ("sample_", "analyze_")
+        attached = {k: v for k, v in attached.items() if not k.startswith(added)}
+        return attributes, attached
+
+    def __setstate__(self, state):
+        attributes, attached = state
+        vars(self).update(attributes)
+        for name, func in attached.items():
+            setattr(self, name, MethodType(func, self))
+
+        self._add_samplers()
+        self._add_analyzers()
+
     @property
     def samples(self):
         return self._samples
-- 
2.43.0


From e0632f2f7f25451fec15054010aa4ab5e112ea86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:40 +0000
Subject: [PATCH 64/68] fix: let enhanced HDMR emulators be pickled

---
 src/SALib/analyze/enhanced_hdmr.py | 65 +++++++++++++++---------------
 1 file changed, 33 insertions(+), 32 deletions(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index 4bfde49..ad1c603 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -17,6 +17,39 @@ from ..util import read_param_file, ResultDict
 __all__ = ["analyze", "cli_parse", "cli_action"]
 
 
+CoreParams = namedtuple(
+    "CoreParams",
+    [
+        "N",
+        "d",
+        "max_order",
+        "ext_base",
+        "subset",
+        "p_o",
+        "nc1",
+        "nc2",
+        "nc3",
+        "nc_t",
+        "nt1",
+        "nt2",
+        "nt3",
+        "tnt1",
+        "tnt2",
+        "tnt3",
+        "a_tnt",
+        "x",
+        "idx",
+        "beta",
+        "gamma",
+        "f0",
+        "x_min",
+        "x_range",
+        "coeff",
+    ],
+    defaults=[None, None, None],
+)
+
+
 def analyze(
     problem: Dict,
     X: np.ndarray,
@@ -504,38 +537,6 @@ def _core_params(
         else np.argsort(np.random.rand(N, bootstrap), axis=0)[:subset]
     )
 
-    CoreParams = namedtuple(
-        "CoreParams",
-        [
-            "N",
-            "d",
-            "max_order",
-            "ext_base",
-            "subset",
-            "p_o",
-            "nc1",
-            "nc2",
-            "nc3",
-            "nc_t",
-            "nt1",
-            "nt2",
-            "nt3",
-            "tnt1",
-            "tnt2",
-            "tnt3",
-            "a_tnt",
-            "x",
-            "idx",
-            "beta",
-            "gamma",
-            "f0",
-            "x_min",
-            "x_range",
-            "coeff",
-        ],
-        defaults=[None, None, None],
-    )
-
     n_comp_func = cp["n_comp_func"]
     n_coeff = cp["n_coeff"]
     hdmr = CoreParams(
-- 
2.43.0


From 71d628b859d50928bc4382ff7f84ce3ce122c90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:41 +0000
Subject: [PATCH 65/68] fix: extend the groups along with the other parts of a
 padded problem

---
 src/SALib/sample/ff.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/SALib/sample/ff.py b/src/SALib/sample/ff.py
index b8476f4..71e7b3e 100644
--- a/src/SALib/sample/ff.py
+++ b/src/SALib/sample/ff.py
@@ -59,6 +59,11 @@ def extend_bounds(problem):
         if dists is not None:
             problem["dists"] = list(dists) + ["unif"] * num_dummy_variables
 
+        groups = problem.get("groups")
+        if groups is not None:
+            # Each dummy variable is a group of its own
+            problem["groups"] = list(groups) + names[num_vars:]
+
     return problem
 
 
-- 
2.43.0


From d5bfe00707c276ed6e6cd6c98d9d4d83b794fe36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:35 +0000
Subject: [PATCH 66/68] fix: accept names and groups given as arrays

---
 src/SALib/sample/latin.py    | 10 ++++++++--
 src/SALib/util/__init__.py   |  8 +++-----
 src/SALib/util/problem.py    |  3 ++-
 src/SALib/util/util_funcs.py | 15 ++++++++++++---
 4 files changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/SALib/sample/latin.py b/src/SALib/sample/latin.py
index a818348..0877e43 100644
--- a/src/SALib/sample/latin.py
+++ b/src/SALib/sample/latin.py
@@ -3,7 +3,13 @@ from typing import Optional, Union
 import numpy as np
 
 from . import common_args
-from ..util import read_param_file, scale_samples, compute_groups_matrix, handle_seed
+from ..util import (
+    read_param_file,
+    scale_samples,
+    compute_groups_matrix,
+    handle_seed,
+    _list_groups,
+)
 
 
 def sample(problem, N, seed: Optional[Union[int, np.random.Generator, None]] = None):
@@ -47,7 +53,7 @@ def sample(problem, N, seed: Optional[Union[int, np.random.Generator, None]] = N
 
     num_samples = N
 
-    groups = problem.get("groups")
+    groups = _list_groups(problem)
     if groups:
         num_groups = len(set(groups))
         G, group_names = compute_groups_matrix(groups)
diff --git a/src/SALib/util/__init__.py b/src/SALib/util/__init__.py
index 756fa41..4e1b007 100644
--- a/src/SALib/util/__init__.py
+++ b/src/SALib/util/__init__.py
@@ -13,6 +13,7 @@ from .util_funcs import (  # noqa: F401, E402
     read_param_file,
     _check_bounds,
     _check_groups,
+    _list_groups,
     handle_seed,
 )  # noqa: F401, E402
 from .problem import ProblemSpec  # noqa: F401, E402
@@ -314,10 +315,7 @@ def extract_group_names(p: Dict) -> Tuple:
     -------
     tuple : names, number of groups
     """
-    if "groups" not in p or not p["groups"]:
-        groups = p["names"]
-    else:
-        groups = p["groups"]
+    groups = _list_groups(p) or p["names"]
 
     names = list(pd.unique(np.array(groups)))
     number = len(names)
@@ -380,7 +378,7 @@ def _define_problem_with_groups(problem: Dict) -> Dict:
         define it
     """
     # Checks if there isn't a key 'groups' or if it exists and is set to 'None'
-    if "groups" not in problem or not problem["groups"]:
+    if not _list_groups(problem):
         problem["groups"] = problem["names"]
     elif len(problem["groups"]) != problem["num_vars"]:
         raise ValueError(
diff --git a/src/SALib/util/problem.py b/src/SALib/util/problem.py
index 0827fe9..4845ed6 100644
--- a/src/SALib/util/problem.py
+++ b/src/SALib/util/problem.py
@@ -12,6 +12,7 @@ import SALib.analyze as analyzers
 
 from .util_funcs import (  # noqa: F401, E402
     avail_approaches,
+    _list_groups,
     _define_problem_with_groups,
 )  # noqa: F401, E402
 
@@ -362,7 +363,7 @@ class ProblemSpec(dict):
         -------
         self : ProblemSpec object
         """
-        if self["num_vars"] == 1 or (self["groups"] and len(set(self["groups"])) == 1):
+        if self["num_vars"] == 1 or len(set(_list_groups(self))) == 1:
             msg = (
                 "There is only a single parameter or group defined. There is "
                 "no point in conducting sensitivity analysis as any and all"
diff --git a/src/SALib/util/util_funcs.py b/src/SALib/util/util_funcs.py
index 123fbf8..8ddbd09 100644
--- a/src/SALib/util/util_funcs.py
+++ b/src/SALib/util/util_funcs.py
@@ -117,12 +117,21 @@ def read_param_file(filename, delimiter=None):
     }
 
 
+def _list_groups(problem):
+    """Groups given with the problem (an empty list if there are none)."""
+    groups = problem.get("groups")
+    if isinstance(groups, np.ndarray):
+        return groups.tolist()
+
+    return list(groups) if groups else []
+
+
 def _check_groups(problem):
     """Check if there is more than 1 group."""
-    groups = problem.get("groups")
+    groups = _list_groups(problem)
     if not groups:
         return False
-    if groups == problem["names"]:
+    if groups == list(problem["names"]):
         return False
 
     if len(set(groups)) == 1:
@@ -173,7 +182,7 @@ def _define_problem_with_groups(problem: Dict) -> Dict:
         define it
     """
     # Checks if there isn't a key 'groups' or if it exists and is set to 'None'
-    if "groups" not in problem or not problem["groups"]:
+    if not _list_groups(problem):
         problem["groups"] = problem["names"]
     elif len(problem["groups"]) != problem["num_vars"]:
         raise ValueError(
-- 
2.43.0


From 40a47a51d2c4955d253cb65fb30548bdd9a2fd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:04 +0000
Subject: [PATCH 67/68] fix: refuse groups that do not match the number of
 parameters

---
 src/SALib/util/util_funcs.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/SALib/util/util_funcs.py b/src/SALib/util/util_funcs.py
index 8ddbd09..c5c54b0 100644
--- a/src/SALib/util/util_funcs.py
+++ b/src/SALib/util/util_funcs.py
@@ -121,9 +121,17 @@ def _list_groups(problem):
     """Groups given with the problem (an empty list if there are none)."""
     groups = problem.get("groups")
     if isinstance(groups, np.ndarray):
-        return groups.tolist()
+        groups = groups.tolist()
 
-    return list(groups) if groups else []
+    if not groups:
+        return []
+
+    if len(groups) != problem["num_vars"]:
+        raise ValueError(
+            "Number of entries in 'groups' should be the same as in 'names'"
+        )
+
+    return list(groups)
 
 
 def _check_groups(problem):
-- 
2.43.0


From 47e1e1e75d24e3f9f7c6ab22e47d0d8419bd08cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:33 +0000
Subject: [PATCH 68/68] fix: enhanced HDMR of whole-number outputs failed

---
 src/SALib/analyze/enhanced_hdmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SALib/analyze/enhanced_hdmr.py b/src/SALib/analyze/enhanced_hdmr.py
index ad1c603..50acbea 100644
--- a/src/SALib/analyze/enhanced_hdmr.py
+++ b/src/SALib/analyze/enhanced_hdmr.py
@@ -857,7 +857,7 @@ def _fanova(b_m, hdmr, Si, Y, bootstrap, max_iter, l2_penalty, alpha):
         # Extract model output for a corresponding bootstrap iteration
         Y_idx = Y[hdmr.idx[:, t], 0]
         # Subtract mean from it
-        Y_idx -= np.mean(Y_idx)
+        Y_idx = Y_idx - np.mean(Y_idx)
 
         if hdmr.ext_base:
             cost = _cost_matrix(b_m[hdmr.idx[:, t], :], hdmr)
-- 
2.43.0

