From 16008f8336f76af892e66244893be2ab63ff5837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:33 +0000
Subject: [PATCH 01/94] fix: make OLS rank detection and least squares
 independent of column units

The pivoted-QR rank test and the SVD cutoff compared columns in their raw
units, so a covariate measured in large units made the intercept or the
treatment effect 'rank deficient' (NaN) or silently truncated. Scale columns
to unit norm first.
---
 diff_diff/linalg.py | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index f5764d8..826cb0f 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -82,6 +82,27 @@ def _factorize_cluster_ids(cluster_ids: np.ndarray) -> np.ndarray:
 # =============================================================================
 
 
+def _column_scale(X: np.ndarray) -> np.ndarray:
+    """Euclidean norm of each column (1.0 for zero or non-finite norms)."""
+    scale = np.sqrt(np.sum(X**2, axis=0))
+    return np.where((scale > 0) & np.isfinite(scale), scale, 1.0)
+
+
+def _scaled_lstsq(X: np.ndarray, y: np.ndarray) -> np.ndarray:
+    """
+    Least-squares coefficients, computed on unit-norm columns.
+
+    Without the scaling, the singular value cutoff would silently truncate
+    columns measured in small units relative to the others.
+    """
+    scale = _column_scale(X)
+    # Use cond=1e-07 for consistency with Rust backend and QR rank tolerance
+    coefficients = scipy_lstsq(
+        X / scale, y, lapack_driver="gelsd", check_finite=False, cond=1e-07
+    )[0]
+    return coefficients / scale
+
+
 def _detect_rank_deficiency(
     X: np.ndarray,
     rcond: Optional[float] = None,
@@ -115,8 +136,10 @@ def _detect_rank_deficiency(
     n, k = X.shape
 
     # Compute pivoted QR decomposition: X @ P = Q @ R
-    # P is a permutation matrix, represented as pivot indices
-    Q, R, pivot = qr(X, mode='economic', pivoting=True)
+    # P is a permutation matrix, represented as pivot indices.
+    # Columns are first scaled to unit norm so that the rank does not depend
+    # on the units in which a column is measured.
+    Q, R, pivot = qr(X / _column_scale(X), mode='economic', pivoting=True)
 
     # Determine rank tolerance
     # R's qr() uses tol = 1e-07 by default, which is sqrt(eps) ≈ 1.49e-08
@@ -677,10 +700,7 @@ def _solve_ols_numpy(
         X_reduced = X[:, kept_cols]
 
         # Solve the reduced system (now full-rank)
-        # Use cond=1e-07 for consistency with Rust backend and QR rank tolerance
-        coefficients_reduced = scipy_lstsq(
-            X_reduced, y, lapack_driver="gelsd", check_finite=False, cond=1e-07
-        )[0]
+        coefficients_reduced = _scaled_lstsq(X_reduced, y)
 
         # Expand coefficients to full size with NaN for dropped columns
         coefficients = _expand_coefficients_with_nan(coefficients_reduced, k, kept_cols)
@@ -697,8 +717,7 @@ def _solve_ols_numpy(
             vcov = _expand_vcov_with_nan(vcov_reduced, k, kept_cols)
     else:
         # Full-rank case: proceed normally
-        # Use cond=1e-07 for consistency with Rust backend and QR rank tolerance
-        coefficients = scipy_lstsq(X, y, lapack_driver="gelsd", check_finite=False, cond=1e-07)[0]
+        coefficients = _scaled_lstsq(X, y)
 
         # Compute residuals and fitted values
         fitted = X @ coefficients
@@ -819,6 +838,9 @@ def _compute_robust_vcov_numpy(
     the O(n * G) loop that would be required with explicit iteration.
     """
     n, k = X.shape
+    # Work with unit-norm columns; the result is rescaled at the end
+    scale = _column_scale(X)
+    X = X / scale
     XtX = X.T @ X
 
     if cluster_ids is None:
@@ -868,7 +890,7 @@ def _compute_robust_vcov_numpy(
             ) from e
         raise
 
-    return vcov
+    return vcov / np.outer(scale, scale)
 
 
 def compute_r_squared(
-- 
2.43.0


From a785c8a755bb527dd8a10874972f1c719da189ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 02/94] fix: within_transform is exact on unbalanced panels

---
 diff_diff/utils.py | 66 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 51 insertions(+), 15 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 010d011..88f586d 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -1455,30 +1455,66 @@ def within_transform(
     if not inplace:
         data = data.copy()
 
-    # Cache groupby objects for efficiency
-    unit_grouper = data.groupby(unit, sort=False)
-    time_grouper = data.groupby(time, sort=False)
+    unit_codes = pd.factorize(data[unit])[0]
+    time_codes = pd.factorize(data[time])[0]
 
     if inplace:
         # Modify columns in place
         for var in variables:
-            unit_means = unit_grouper[var].transform("mean")
-            time_means = time_grouper[var].transform("mean")
-            grand_mean = data[var].mean()
-            data[var] = data[var] - unit_means - time_means + grand_mean
+            data[var] = _two_way_demean(data[var], unit_codes, time_codes)
     else:
         # Build all demeaned columns at once to avoid DataFrame fragmentation
-        demeaned_data = {}
-        for var in variables:
-            unit_means = unit_grouper[var].transform("mean")
-            time_means = time_grouper[var].transform("mean")
-            grand_mean = data[var].mean()
-            demeaned_data[f"{var}{suffix}"] = (
-                data[var] - unit_means - time_means + grand_mean
-            ).values
+        demeaned_data = {
+            f"{var}{suffix}": _two_way_demean(data[var], unit_codes, time_codes)
+            for var in variables
+        }
 
         # Add all columns at once
         demeaned_df = pd.DataFrame(demeaned_data, index=data.index)
         data = pd.concat([data, demeaned_df], axis=1)
 
     return data
+
+
+def _two_way_demean(
+    values: pd.Series,
+    unit_codes: np.ndarray,
+    time_codes: np.ndarray,
+    tol: float = 1e-13,
+    max_iter: int = 10_000,
+) -> np.ndarray:
+    """
+    Residual of ``values`` after projecting out unit and time effects.
+
+    On balanced panels the closed form y_it - y_i. - y_.t + y_.. is exact. On
+    unbalanced panels it is not, so it is followed by alternating unit and time
+    demeaning until both sets of means vanish.
+    """
+    y = np.asarray(values, dtype=float)
+    unit_counts = np.bincount(unit_codes)
+    time_counts = np.bincount(time_codes)
+
+    def unit_means(v: np.ndarray) -> np.ndarray:
+        return (np.bincount(unit_codes, weights=v) / unit_counts)[unit_codes]
+
+    def time_means(v: np.ndarray) -> np.ndarray:
+        return (np.bincount(time_codes, weights=v) / time_counts)[time_codes]
+
+    grand_mean = y.mean()
+    demeaned = y - unit_means(y) - time_means(y) + grand_mean
+
+    limit = tol * max(1.0, float(np.max(np.abs(y - grand_mean), initial=0.0)))
+    for _ in range(max_iter):
+        by_unit = unit_means(demeaned)
+        by_time = time_means(demeaned)
+        largest = max(np.max(np.abs(by_unit)), np.max(np.abs(by_time)))
+        if not largest > limit:  # also stops on NaN
+            break
+        demeaned = demeaned - by_unit
+        demeaned = demeaned - time_means(demeaned)
+
+    # A variable absorbed by the fixed effects leaves only rounding noise
+    noise = 1e-10 * np.max(np.abs(y - grand_mean), initial=0.0) + 1e-13 * abs(grand_mean)
+    if np.max(np.abs(demeaned), initial=0.0) <= noise:
+        return np.zeros_like(demeaned)
+    return demeaned
-- 
2.43.0


From cbc8df2e1166a1a6a87349813f6fefb48410de92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 03/94] fix: demean the treatment regressor in
 TwoWayFixedEffects (FWL)

---
 diff_diff/twfe.py | 46 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 9 deletions(-)

diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index 45b08d6..2bf5924 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -96,19 +96,28 @@ class TwoWayFixedEffects(DifferenceInDifferences):
         # Use unit-level clustering if not specified (use local variable to avoid mutation)
         cluster_var = self.cluster if self.cluster is not None else unit
 
-        # Demean data (within transformation for fixed effects)
-        data_demeaned = self._within_transform(data, outcome, unit, time, covariates)
-
-        # Create treatment × post interaction
-        # For staggered designs, we'd need to identify treatment timing per unit
-        # For now, assume standard 2-period design
-        data_demeaned["_treatment_post"] = (
-            data_demeaned[treatment] * data_demeaned[time]
+        # Treatment regressor: D_i x Post_t. A treatment column that varies within
+        # units already is that product.
+        data = data.copy()
+        data["_treatment_post"] = self._treatment_post(data, treatment, time, unit)
+
+        # Demean outcome AND regressors (within transformation for fixed effects)
+        data_demeaned = self._within_transform(
+            data, outcome, unit, time, ["_treatment_post"] + (covariates or [])
         )
 
         # Extract variables for regression
         y = data_demeaned[f"{outcome}_demeaned"].values
-        X_list = [data_demeaned["_treatment_post"].values]
+        treatment_post = data_demeaned["_treatment_post_demeaned"].values
+        if not np.any(treatment_post) and np.any(data["_treatment_post"]):
+            warnings.warn(
+                "Treatment is fully absorbed by the unit and time fixed effects; "
+                "the ATT is not identified and should not be interpreted.",
+                UserWarning,
+                stacklevel=2,
+            )
+            treatment_post = data["_treatment_post"].values
+        X_list = [treatment_post]
 
         if covariates:
             for cov in covariates:
@@ -245,6 +254,25 @@ class TwoWayFixedEffects(DifferenceInDifferences):
         self.is_fitted_ = True
         return self.results_
 
+    @staticmethod
+    def _treatment_post(
+        data: pd.DataFrame, treatment: str, time: str, unit: str
+    ) -> np.ndarray:
+        """
+        Treatment x post regressor for treatment coded as D_i or as D_it.
+
+        If treatment varies within units it is already the treated-observation
+        indicator. Otherwise it is interacted with the time column; a two-period
+        time column is read as pre/post whatever its labels are.
+        """
+        d = data[treatment].to_numpy(dtype=float)
+        if (data.groupby(unit)[treatment].nunique() > 1).any():
+            return d
+        periods = np.sort(data[time].unique())
+        if len(periods) == 2:
+            return d * (data[time] == periods[1]).to_numpy(dtype=float)
+        return d * data[time].to_numpy(dtype=float)
+
     def _within_transform(
         self,
         data: pd.DataFrame,
-- 
2.43.0


From bc078d9e32a38b9488fbb2273933768992509c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 04/94] fix: absorb partials fixed effects out of the treatment
 terms as well (FWL)

---
 diff_diff/estimators.py | 70 ++++++++++++-------------------
 diff_diff/utils.py      | 91 +++++++++++++++++++++++++++++------------
 2 files changed, 91 insertions(+), 70 deletions(-)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 83fc72b..9ae6f3f 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -26,9 +26,9 @@ from diff_diff.linalg import (
 from diff_diff.results import DiDResults, MultiPeriodDiDResults, PeriodEffect
 from diff_diff.utils import (
     WildBootstrapResults,
+    absorb_fixed_effects,
     compute_confidence_interval,
     compute_p_value,
-    demean_by_group,
     validate_binary,
     wild_bootstrap_se,
 )
@@ -228,28 +228,10 @@ class DifferenceInDifferences:
                 if ab not in data.columns:
                     raise ValueError(f"Absorb column '{ab}' not found in data")
 
-        # Handle absorbed fixed effects (within-transformation)
-        working_data = data.copy()
-        absorbed_vars = []
-        n_absorbed_effects = 0
-
-        if absorb:
-            # Apply within-transformation for each absorbed variable
-            # Only demean outcome and covariates, NOT treatment/time indicators
-            # Treatment is typically time-invariant (within unit), and time is
-            # unit-invariant, so demeaning them would create multicollinearity
-            vars_to_demean = [outcome] + (covariates or [])
-            for ab_var in absorb:
-                working_data, n_fe = demean_by_group(
-                    working_data, vars_to_demean, ab_var, inplace=True
-                )
-                n_absorbed_effects += n_fe
-                absorbed_vars.append(ab_var)
-
-        # Extract variables (may be demeaned if absorb was used)
-        y = working_data[outcome].values.astype(float)
-        d = working_data[treatment].values.astype(float)
-        t = working_data[time].values.astype(float)
+        # Extract variables
+        y = data[outcome].values.astype(float)
+        d = data[treatment].values.astype(float)
+        t = data[time].values.astype(float)
 
         # Create interaction term
         dt = d * t
@@ -261,19 +243,25 @@ class DifferenceInDifferences:
         # Add covariates if provided
         if covariates:
             for cov in covariates:
-                X = np.column_stack([X, working_data[cov].values.astype(float)])
+                X = np.column_stack([X, data[cov].values.astype(float)])
                 var_names.append(cov)
 
         # Add fixed effects as dummy variables
         if fixed_effects:
             for fe in fixed_effects:
                 # Create dummies, drop first category to avoid multicollinearity
-                # Use working_data to be consistent with absorbed FE if both are used
-                dummies = pd.get_dummies(working_data[fe], prefix=fe, drop_first=True)
+                dummies = pd.get_dummies(data[fe], prefix=fe, drop_first=True)
                 for col in dummies.columns:
                     X = np.column_stack([X, dummies[col].values.astype(float)])
                     var_names.append(col)
 
+        # Handle absorbed fixed effects (within-transformation of outcome and regressors)
+        n_absorbed_effects = 0
+        if absorb:
+            y, X, n_absorbed_effects = absorb_fixed_effects(
+                y, X, data, absorb, main_effects=[0, 1, 2]
+            )
+
         # Extract ATT index (coefficient on interaction term)
         att_idx = 3  # Index of interaction term
         att_var_name = f"{treatment}:{time}"
@@ -825,22 +813,10 @@ class MultiPeriodDiD(DifferenceInDifferences):
                 if ab not in data.columns:
                     raise ValueError(f"Absorb column '{ab}' not found in data")
 
-        # Handle absorbed fixed effects (within-transformation)
-        working_data = data.copy()
-        n_absorbed_effects = 0
-
-        if absorb:
-            vars_to_demean = [outcome] + (covariates or [])
-            for ab_var in absorb:
-                working_data, n_fe = demean_by_group(
-                    working_data, vars_to_demean, ab_var, inplace=True
-                )
-                n_absorbed_effects += n_fe
-
         # Extract outcome and treatment
-        y = working_data[outcome].values.astype(float)
-        d = working_data[treatment].values.astype(float)
-        t = working_data[time].values
+        y = data[outcome].values.astype(float)
+        d = data[treatment].values.astype(float)
+        t = data[time].values
 
         # Build design matrix
         # Start with intercept and treatment main effect
@@ -870,17 +846,25 @@ class MultiPeriodDiD(DifferenceInDifferences):
         # Add covariates if provided
         if covariates:
             for cov in covariates:
-                X = np.column_stack([X, working_data[cov].values.astype(float)])
+                X = np.column_stack([X, data[cov].values.astype(float)])
                 var_names.append(cov)
 
         # Add fixed effects as dummy variables
         if fixed_effects:
             for fe in fixed_effects:
-                dummies = pd.get_dummies(working_data[fe], prefix=fe, drop_first=True)
+                dummies = pd.get_dummies(data[fe], prefix=fe, drop_first=True)
                 for col in dummies.columns:
                     X = np.column_stack([X, dummies[col].values.astype(float)])
                     var_names.append(col)
 
+        # Handle absorbed fixed effects (within-transformation of outcome and regressors)
+        n_absorbed_effects = 0
+        if absorb:
+            y, X, n_absorbed_effects = absorb_fixed_effects(
+                y, X, data, absorb,
+                main_effects=[0, 1] + list(period_dummy_indices.values()),
+            )
+
         # Fit OLS using unified backend
         # Pass cluster_ids to solve_ols for proper vcov computation
         # This handles rank-deficient matrices by returning NaN for dropped columns
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 88f586d..f7c6f3e 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -4,7 +4,7 @@ Utility functions for difference-in-differences estimation.
 
 import warnings
 from dataclasses import dataclass, field
-from typing import Any, Dict, List, Optional, Tuple
+from typing import Any, Dict, List, Optional, Tuple, Union
 
 import numpy as np
 import pandas as pd
@@ -1392,17 +1392,44 @@ def demean_by_group(
     # Count fixed effects (categories - 1 for identification)
     n_effects = data[group_var].nunique() - 1
 
-    # Cache the groupby object for efficiency
-    grouper = data.groupby(group_var, sort=False)
+    codes = pd.factorize(data[group_var])[0]
 
     for var in variables:
         col_name = var if not suffix else f"{var}{suffix}"
-        group_means = grouper[var].transform("mean")
-        data[col_name] = data[var] - group_means
+        data[col_name] = _project_out_groups(data[var], [codes])
 
     return data, n_effects
 
 
+def absorb_fixed_effects(
+    y: np.ndarray,
+    X: np.ndarray,
+    data: pd.DataFrame,
+    absorb: List[str],
+    main_effects: List[int],
+) -> Tuple[np.ndarray, np.ndarray, int]:
+    """
+    Partial the absorbed fixed effects out of the outcome and every regressor.
+
+    By Frisch-Waugh-Lovell the remaining coefficients are those of the regression
+    with a full set of dummies. Main effects (columns listed in ``main_effects``)
+    that the fixed effects absorb completely are left as they are: they are
+    orthogonal to everything that was partialled out and get a zero coefficient.
+
+    Returns
+    -------
+    tuple
+        (y, X, n_effects) where n_effects counts categories - 1 per variable.
+    """
+    codes = [pd.factorize(data[col])[0] for col in absorb]
+    X_within = np.column_stack([_project_out_groups(x, codes) for x in X.T])
+    for j in main_effects:
+        if not np.any(X_within[:, j]):
+            X_within[:, j] = X[:, j]
+    n_effects = sum(data[col].nunique() - 1 for col in absorb)
+    return _project_out_groups(y, codes), X_within, n_effects
+
+
 def within_transform(
     data: pd.DataFrame,
     variables: List[str],
@@ -1480,41 +1507,51 @@ def _two_way_demean(
     values: pd.Series,
     unit_codes: np.ndarray,
     time_codes: np.ndarray,
-    tol: float = 1e-13,
-    max_iter: int = 10_000,
 ) -> np.ndarray:
     """
     Residual of ``values`` after projecting out unit and time effects.
 
     On balanced panels the closed form y_it - y_i. - y_.t + y_.. is exact. On
-    unbalanced panels it is not, so it is followed by alternating unit and time
-    demeaning until both sets of means vanish.
+    unbalanced panels it is not, so demeaning alternates between units and
+    periods until both sets of means vanish.
     """
-    y = np.asarray(values, dtype=float)
-    unit_counts = np.bincount(unit_codes)
-    time_counts = np.bincount(time_codes)
+    return _project_out_groups(values, [unit_codes, time_codes])
+
+
+def _project_out_groups(
+    values: Union[pd.Series, np.ndarray],
+    group_codes: List[np.ndarray],
+    tol: float = 1e-13,
+    max_iter: int = 10_000,
+) -> np.ndarray:
+    """
+    Residual of ``values`` after projecting out the effects of every grouping.
 
-    def unit_means(v: np.ndarray) -> np.ndarray:
-        return (np.bincount(unit_codes, weights=v) / unit_counts)[unit_codes]
+    Alternates one-way demeaning over the groupings until all group means vanish
+    (one pass suffices for a single grouping or a balanced two-way panel).
+    """
+    y = np.asarray(values, dtype=float)
+    for codes in group_codes:
+        if codes.size and codes.min() < 0:
+            raise ValueError("Fixed effect columns must not contain missing values")
+    counts = [np.bincount(codes) for codes in group_codes]
 
-    def time_means(v: np.ndarray) -> np.ndarray:
-        return (np.bincount(time_codes, weights=v) / time_counts)[time_codes]
+    def means(v: np.ndarray, g: int) -> np.ndarray:
+        return (np.bincount(group_codes[g], weights=v) / counts[g])[group_codes[g]]
 
     grand_mean = y.mean()
-    demeaned = y - unit_means(y) - time_means(y) + grand_mean
-
-    limit = tol * max(1.0, float(np.max(np.abs(y - grand_mean), initial=0.0)))
+    spread = np.max(np.abs(y - grand_mean), initial=0.0)
+    demeaned = y - grand_mean
     for _ in range(max_iter):
-        by_unit = unit_means(demeaned)
-        by_time = time_means(demeaned)
-        largest = max(np.max(np.abs(by_unit)), np.max(np.abs(by_time)))
-        if not largest > limit:  # also stops on NaN
+        largest = 0.0
+        for g in range(len(group_codes)):
+            by_group = means(demeaned, g)
+            largest = np.maximum(largest, np.max(np.abs(by_group), initial=0.0))
+            demeaned = demeaned - by_group
+        if not largest > tol * spread:  # also stops on NaN
             break
-        demeaned = demeaned - by_unit
-        demeaned = demeaned - time_means(demeaned)
 
     # A variable absorbed by the fixed effects leaves only rounding noise
-    noise = 1e-10 * np.max(np.abs(y - grand_mean), initial=0.0) + 1e-13 * abs(grand_mean)
-    if np.max(np.abs(demeaned), initial=0.0) <= noise:
+    if np.max(np.abs(demeaned), initial=0.0) <= 1e-10 * spread + 1e-13 * abs(grand_mean):
         return np.zeros_like(demeaned)
     return demeaned
-- 
2.43.0


From 335ea4cd2b3422f8fc6d4c5bd980121d274e3e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 05/94] fix: a refit with analytical inference no longer
 reports the previous bootstrap

---
 diff_diff/estimators.py | 1 +
 diff_diff/twfe.py       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 9ae6f3f..eb7fab4 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -287,6 +287,7 @@ class DifferenceInDifferences:
         att = coefficients[att_idx]
 
         # Get inference - either from bootstrap or analytical
+        self._bootstrap_results = None
         if self.inference == "wild_bootstrap" and self.cluster is not None:
             # Override with wild cluster bootstrap inference
             se, p_value, conf_int, t_stat, vcov, _ = self._run_wild_bootstrap_inference(
diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index 2bf5924..4235c3f 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -203,6 +203,7 @@ class TwoWayFixedEffects(DifferenceInDifferences):
                     )
 
         # Get inference - either from bootstrap or analytical
+        self._bootstrap_results = None
         if self.inference == "wild_bootstrap":
             # Override with wild cluster bootstrap inference
             se, p_value, conf_int, t_stat, vcov, _ = self._run_wild_bootstrap_inference(
-- 
2.43.0


From af91810994da01e4b6c7b9a32ea9d78b39562863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 06/94] fix: keep explicit covariates when a formula is given

---
 diff_diff/estimators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index eb7fab4..3a52d22 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -205,7 +205,9 @@ class DifferenceInDifferences:
         """
         # Parse formula if provided
         if formula is not None:
-            outcome, treatment, time, covariates = self._parse_formula(formula, data)
+            outcome, treatment, time, formula_covariates = self._parse_formula(formula, data)
+            extra = [c for c in (covariates or []) if c not in (formula_covariates or [])]
+            covariates = (formula_covariates or []) + extra or None
         elif outcome is None or treatment is None or time is None:
             raise ValueError(
                 "Must provide either 'formula' or all of 'outcome', 'treatment', and 'time'"
-- 
2.43.0


From c88ec8810f94d203b39503f44c8ebfd8640152de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:16 +0000
Subject: [PATCH 07/94] fix: refuse missing values in cluster and fixed-effect
 columns

---
 diff_diff/estimators.py | 8 ++++++++
 diff_diff/linalg.py     | 2 ++
 diff_diff/utils.py      | 2 ++
 3 files changed, 12 insertions(+)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 3a52d22..2f68acf 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -225,10 +225,14 @@ class DifferenceInDifferences:
             for fe in fixed_effects:
                 if fe not in data.columns:
                     raise ValueError(f"Fixed effect column '{fe}' not found in data")
+                if data[fe].isna().any():
+                    raise ValueError(f"Fixed effect column '{fe}' contains missing values")
         if absorb:
             for ab in absorb:
                 if ab not in data.columns:
                     raise ValueError(f"Absorb column '{ab}' not found in data")
+                if data[ab].isna().any():
+                    raise ValueError(f"Absorb column '{ab}' contains missing values")
 
         # Extract variables
         y = data[outcome].values.astype(float)
@@ -811,10 +815,14 @@ class MultiPeriodDiD(DifferenceInDifferences):
             for fe in fixed_effects:
                 if fe not in data.columns:
                     raise ValueError(f"Fixed effect column '{fe}' not found in data")
+                if data[fe].isna().any():
+                    raise ValueError(f"Fixed effect column '{fe}' contains missing values")
         if absorb:
             for ab in absorb:
                 if ab not in data.columns:
                     raise ValueError(f"Absorb column '{ab}' not found in data")
+                if data[ab].isna().any():
+                    raise ValueError(f"Absorb column '{ab}' contains missing values")
 
         # Extract outcome and treatment
         y = data[outcome].values.astype(float)
diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index 826cb0f..9f7905e 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -852,6 +852,8 @@ def _compute_robust_vcov_numpy(
     else:
         # Cluster-robust standard errors (vectorized via groupby)
         cluster_ids = np.asarray(cluster_ids)
+        if pd.isna(cluster_ids).any():
+            raise ValueError("cluster_ids contains missing values")
         unique_clusters = np.unique(cluster_ids)
         n_clusters = len(unique_clusters)
 
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index f7c6f3e..c9421c1 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -407,6 +407,8 @@ def wild_bootstrap_se(
             f"weight_type must be one of {valid_weight_types}, got '{weight_type}'"
         )
 
+    if pd.isna(cluster_ids).any():
+        raise ValueError("cluster_ids contains missing values")
     unique_clusters = np.unique(cluster_ids)
     n_clusters = len(unique_clusters)
 
-- 
2.43.0


From 4215f81cabfdf9c26816ef2e999380d85170c766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:41 +0000
Subject: [PATCH 08/94] fix: wild cluster bootstrap imposes the null hypothesis

---
 diff_diff/utils.py | 55 ++++++++++++++++++++++++++++++----------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index c9421c1..e7afce2 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -447,16 +447,24 @@ def wild_bootstrap_se(
     t_stat_original = (original_coef - null_hypothesis) / se_original
 
     # Step 2: Impose null hypothesis (restricted estimation)
-    # Create restricted y: y_restricted = y - X[:, coef_index] * null_hypothesis
-    # This imposes the null that the coefficient equals null_hypothesis
-    y_restricted = y - X[:, coefficient_index] * null_hypothesis
-
-    # Fit restricted model (but we need to drop the column for the restricted coef)
-    # Actually, for WCR bootstrap we keep all columns but impose the null via residuals
-    # Re-estimate with the restricted dependent variable
-    beta_restricted, residuals_restricted, _ = _solve_ols_linalg(
-        X, y_restricted, return_vcov=False
+    # The restricted model drops the tested column and moves its null value to the
+    # left-hand side; its fitted values and residuals generate the bootstrap
+    # samples for the test.
+    x_tested = X[:, coefficient_index]
+    X_other = np.delete(X, coefficient_index, axis=1)
+    residuals_restricted = y - x_tested * null_hypothesis
+    if X_other.shape[1] > 0:
+        _, residuals_restricted, _ = _solve_ols_linalg(
+            X_other, residuals_restricted, return_vcov=False,
+            rank_deficient_action="silent",
+        )
+    fitted_restricted = y - residuals_restricted
+
+    # The unrestricted fit generates the coefficient distribution for SE and CI
+    _, residuals_unrestricted, _ = _solve_ols_linalg(
+        X, y, return_vcov=False, rank_deficient_action="silent"
     )
+    fitted_unrestricted = y - residuals_unrestricted
 
     # Create cluster-to-observation mapping for efficiency
     cluster_map = {c: np.where(cluster_ids == c)[0] for c in unique_clusters}
@@ -475,14 +483,18 @@ def wild_bootstrap_se(
         for g, indices in enumerate(cluster_indices):
             obs_weights[indices] = cluster_weights[g]
 
-        # Construct bootstrap sample: y* = X @ beta_restricted + e_restricted * weights
-        y_star = X @ beta_restricted + residuals_restricted * obs_weights
+        # Bootstrap coefficient: y* = unrestricted fit + weighted unrestricted residuals
+        beta_unrestricted, _, _ = _solve_ols_linalg(
+            X, fitted_unrestricted + residuals_unrestricted * obs_weights,
+            return_vcov=False, rank_deficient_action="silent",
+        )
+        bootstrap_coefs[b] = beta_unrestricted[coefficient_index]
 
-        # Estimate bootstrap coefficients with cluster-robust SE
-        beta_star, residuals_star, vcov_star = _solve_ols_linalg(
-            X, y_star, cluster_ids=cluster_ids, return_vcov=True
+        # Bootstrap test: y* = restricted fit + weighted restricted residuals
+        beta_star, _, vcov_star = _solve_ols_linalg(
+            X, fitted_restricted + residuals_restricted * obs_weights,
+            cluster_ids=cluster_ids, return_vcov=True, rank_deficient_action="silent",
         )
-        bootstrap_coefs[b] = beta_star[coefficient_index]
         se_star = np.sqrt(vcov_star[coefficient_index, coefficient_index])
 
         # Compute bootstrap t-statistic (under null hypothesis)
@@ -492,11 +504,16 @@ def wild_bootstrap_se(
             bootstrap_t_stats[b] = 0.0
 
     # Step 4: Compute bootstrap p-value
-    # P-value is proportion of |t*| >= |t_original|
-    p_value = np.mean(np.abs(bootstrap_t_stats) >= np.abs(t_stat_original))
+    # P-value is proportion of |t*| >= |t_original| (draws that reproduce the
+    # original sample are ties whatever the rounding)
+    p_value = np.nan
+    if not np.isnan(t_stat_original):
+        p_value = np.mean(
+            np.abs(bootstrap_t_stats) >= np.abs(t_stat_original) * (1 - 1e-10)
+        )
 
-    # Ensure p-value is at least 1/(n_bootstrap+1) to avoid exact zero
-    p_value = float(max(float(p_value), 1 / (n_bootstrap + 1)))
+        # Ensure p-value is at least 1/(n_bootstrap+1) to avoid exact zero
+        p_value = float(max(float(p_value), 1 / (n_bootstrap + 1)))
 
     # Step 5: Compute bootstrap SE and confidence interval
     # SE from standard deviation of bootstrap coefficient distribution
-- 
2.43.0


From 6cb0e7c70ddfab8056d7439879d875b0a7f22de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:53 +0000
Subject: [PATCH 09/94] fix: wild bootstrap with linearly dependent columns

---
 diff_diff/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 2f68acf..783fc17 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -20,7 +20,6 @@ import pandas as pd
 from diff_diff.linalg import (
     LinearRegression,
     compute_r_squared,
-    compute_robust_vcov,
     solve_ols,
 )
 from diff_diff.results import DiDResults, MultiPeriodDiDResults, PeriodEffect
@@ -428,7 +427,8 @@ class DifferenceInDifferences:
         t_stat = bootstrap_results.t_stat_original
 
         # Also compute vcov for storage (using cluster-robust for consistency)
-        vcov = compute_robust_vcov(X, residuals, cluster_ids)
+        # (NaN for columns dropped as linearly dependent)
+        _, _, vcov = solve_ols(X, y, cluster_ids=cluster_ids, rank_deficient_action="silent")
 
         return se, p_value, conf_int, t_stat, vcov, bootstrap_results
 
-- 
2.43.0


From 9ff423785127ccdb0f1c498841ea0b9e4de07ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 10/94] fix: CallawaySantAnna treats first_treat=inf as never
 treated, not as a cohort

---
 diff_diff/staggered.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index f01400e..b1155db 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -635,6 +635,9 @@ class CallawaySantAnna(
         df[time] = pd.to_numeric(df[time])
         df[first_treat] = pd.to_numeric(df[first_treat])
 
+        # Never-treated units may be coded 0 or inf; use 0 internally
+        df[first_treat] = df[first_treat].replace(np.inf, 0)
+
         # Standardize the first_treat column name for internal use
         # This avoids hardcoding column names in internal methods
         df['first_treat'] = df[first_treat]
-- 
2.43.0


From 2aa80d12a4dbf466480cf57570ec6a235963117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:42 +0000
Subject: [PATCH 11/94] fix: CallawaySantAnna IPW standard errors are those of
 the weighted mean difference

---
 diff_diff/staggered.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index b1155db..fcbff6e 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -918,7 +918,6 @@ class CallawaySantAnna(
         """
         n_t = len(treated_change)
         n_c = len(control_change)
-        n_total = n_treated + n_control
 
         if X_treated is not None and X_control is not None and X_treated.shape[1] > 0:
             # Covariate-adjusted IPW estimation
@@ -960,7 +959,8 @@ class CallawaySantAnna(
             var_t = np.var(treated_change, ddof=1) if n_t > 1 else 0.0
 
             # Variance of weighted control mean
-            weighted_var_c = np.sum(weights_control * (control_change - np.sum(weights_control * control_change)) ** 2)
+            weighted_mean_c = np.sum(weights_control * control_change)
+            weighted_var_c = np.sum((weights_control * (control_change - weighted_mean_c)) ** 2)
 
             se = np.sqrt(var_t / n_t + weighted_var_c) if (n_t > 0 and n_c > 0) else 0.0
 
@@ -970,15 +970,12 @@ class CallawaySantAnna(
             inf_func = np.concatenate([inf_treated, inf_control])
         else:
             # Unconditional IPW (reduces to difference in means)
-            p_treat = n_treated / n_total  # unconditional propensity score
-
             att = np.mean(treated_change) - np.mean(control_change)
 
             var_t = np.var(treated_change, ddof=1) if n_t > 1 else 0.0
             var_c = np.var(control_change, ddof=1) if n_c > 1 else 0.0
 
-            # Adjusted variance for IPW
-            se = np.sqrt(var_t / n_t + var_c * (1 - p_treat) / (n_c * p_treat)) if (n_t > 0 and n_c > 0 and p_treat > 0) else 0.0
+            se = np.sqrt(var_t / n_t + var_c / n_c) if (n_t > 0 and n_c > 0) else 0.0
 
             # Influence function (for aggregation)
             inf_treated = (treated_change - np.mean(treated_change)) / n_t
-- 
2.43.0


From 146c802c942507a977286925e22ccf169035b226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:06 +0000
Subject: [PATCH 12/94] fix: collinear covariates no longer turn
 CallawaySantAnna effects into NaN

---
 diff_diff/staggered.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index fcbff6e..5f6d5ca 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -859,6 +859,8 @@ class CallawaySantAnna(
             )
 
             # Predict counterfactual for treated units
+            # (linearly dependent covariates were dropped and do not contribute)
+            beta = np.nan_to_num(beta)
             X_treated_with_intercept = np.column_stack([np.ones(n_t), X_treated])
             predicted_control = X_treated_with_intercept @ beta
 
@@ -1019,6 +1021,8 @@ class CallawaySantAnna(
             )
 
             # Predict counterfactual for both treated and control
+            # (linearly dependent covariates were dropped and do not contribute)
+            beta = np.nan_to_num(beta)
             X_treated_with_intercept = np.column_stack([np.ones(n_t), X_treated])
             X_control_with_intercept = np.column_stack([np.ones(n_c), X_control])
             m_treated = X_treated_with_intercept @ beta
-- 
2.43.0


From b5cc27835c8b992dd47847376b1711ebb02bc967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:06 +0000
Subject: [PATCH 13/94] fix: propensity score fit does not depend on covariate
 units

---
 diff_diff/staggered.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 5f6d5ca..5ba4ca3 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -71,8 +71,12 @@ def _logistic_regression(
         Predicted probabilities.
     """
     n, p = X.shape
+    # Standardize so that convergence does not depend on the covariates' units
+    center = X.mean(axis=0)
+    scale = X.std(axis=0)
+    scale = np.where(scale > 1e-12 * np.abs(center), scale, 1.0)
     # Add intercept
-    X_with_intercept = np.column_stack([np.ones(n), X])
+    X_with_intercept = np.column_stack([np.ones(n), (X - center) / scale])
 
     def neg_log_likelihood(beta: np.ndarray) -> float:
         z = X_with_intercept @ beta
@@ -103,6 +107,10 @@ def _logistic_regression(
     z = np.clip(z, -500, 500)
     probs = 1 / (1 + np.exp(-z))
 
+    # Back to the original units
+    slopes = beta[1:] / scale
+    beta = np.concatenate([[beta[0] - slopes @ center], slopes])
+
     return beta, probs
 
 
-- 
2.43.0


From 05108e6331e97fb64af63c5018ef1f89549eaf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:09 +0000
Subject: [PATCH 14/94] fix: refuse missing identifiers and inconsistent
 treatment timing

---
 diff_diff/bacon.py       |  6 +++++-
 diff_diff/staggered.py   |  2 ++
 diff_diff/sun_abraham.py |  2 ++
 diff_diff/utils.py       | 27 +++++++++++++++++++++++++++
 4 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 8f09d9f..cdfd78b 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -17,7 +17,10 @@ from typing import Any, Dict, List, Optional, Tuple
 import numpy as np
 import pandas as pd
 
-from diff_diff.utils import within_transform as _within_transform_util
+from diff_diff.utils import (
+    validate_treatment_timing,
+    within_transform as _within_transform_util,
+)
 
 
 @dataclass
@@ -446,6 +449,7 @@ class BaconDecomposition:
         # Ensure numeric types
         df[time] = pd.to_numeric(df[time])
         df[first_treat] = pd.to_numeric(df[first_treat])
+        validate_treatment_timing(df, unit, time, first_treat)
 
         # Check for balanced panel
         periods_per_unit = df.groupby(unit)[time].count()
diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 5ba4ca3..6f20327 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -16,6 +16,7 @@ from diff_diff.linalg import solve_ols
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
+    validate_treatment_timing,
 )
 
 # Import from split modules
@@ -642,6 +643,7 @@ class CallawaySantAnna(
         # Ensure numeric types
         df[time] = pd.to_numeric(df[time])
         df[first_treat] = pd.to_numeric(df[first_treat])
+        validate_treatment_timing(df, unit, time, first_treat)
 
         # Never-treated units may be coded 0 or inf; use 0 internally
         df[first_treat] = df[first_treat].replace(np.inf, 0)
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index cb7313f..3f67d69 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -21,6 +21,7 @@ from diff_diff.results import _get_significance_stars
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
+    validate_treatment_timing,
     within_transform as _within_transform_util,
 )
 
@@ -485,6 +486,7 @@ class SunAbraham:
         # Ensure numeric types
         df[time] = pd.to_numeric(df[time])
         df[first_treat] = pd.to_numeric(df[first_treat])
+        validate_treatment_timing(df, unit, time, first_treat)
 
         # Identify groups and time periods
         time_periods = sorted(df[time].unique())
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index e7afce2..b44d3a3 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -50,6 +50,33 @@ def validate_binary(arr: np.ndarray, name: str) -> None:
         )
 
 
+def validate_treatment_timing(
+    data: pd.DataFrame, unit: str, time: str, first_treat: str
+) -> None:
+    """
+    Validate that every row names a unit, a period and a first treatment
+    period, and that the latter is constant within each unit.
+
+    Raises
+    ------
+    ValueError
+        If identifiers or timing are missing, or timing varies within a unit.
+    """
+    for col in (unit, time, first_treat):
+        if data[col].isna().any():
+            raise ValueError(
+                f"Column '{col}' contains missing values. Code never-treated "
+                "units as first_treat=0 (or np.inf) and drop incomplete rows."
+            )
+    varying = data.groupby(unit)[first_treat].nunique() > 1
+    if varying.any():
+        raise ValueError(
+            f"'{first_treat}' must be constant within each unit. "
+            f"It varies for {int(varying.sum())} unit(s), "
+            f"e.g. {varying.index[varying][0]!r}."
+        )
+
+
 def compute_robust_se(
     X: np.ndarray,
     residuals: np.ndarray,
-- 
2.43.0


From 262ebc481f6c7db7329227bbc05b8018e3d159d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 15/94] fix: not-yet-treated controls must be untreated in the
 base period and net of anticipation

---
 diff_diff/staggered.py       | 8 ++++++--
 docs/methodology/REGISTRY.md | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 6f20327..fddb283 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -500,9 +500,13 @@ class CallawaySantAnna(
         if self.control_group == "never_treated":
             control_mask = never_treated_mask
         else:  # not_yet_treated
-            # Not yet treated at time t: never-treated OR (first_treat > t AND not cohort g)
+            # Not yet treated in either compared period (net of anticipation):
+            # never-treated OR (first_treat > max(t, base) + anticipation AND not cohort g)
             # Must exclude cohort g since they are the treated group for this ATT(g,t)
-            control_mask = never_treated_mask | ((unit_cohorts > t) & (unit_cohorts != g))
+            last_period = max(t, base_period_val) + self.anticipation
+            control_mask = never_treated_mask | (
+                (unit_cohorts > last_period) & (unit_cohorts != g)
+            )
 
         # Extract outcomes for base and post periods
         y_base = outcome_matrix[:, base_col]
diff --git a/docs/methodology/REGISTRY.md b/docs/methodology/REGISTRY.md
index 36febbc..66ceb77 100644
--- a/docs/methodology/REGISTRY.md
+++ b/docs/methodology/REGISTRY.md
@@ -266,7 +266,8 @@ The multiplier bootstrap uses random weights w_i with E[w]=0 and Var(w)=1:
   - Always excludes cohort g from controls when computing ATT(g,t)
   - This applies to both pre-treatment (t < g) and post-treatment (t >= g) periods
   - For pre-treatment periods: even though cohort g hasn't been treated yet at time t, they are the treated group for this ATT(g,t) and cannot serve as their own controls
-  - Control mask: `never_treated OR (first_treat > t AND first_treat != g)`
+  - Controls must be untreated in both compared periods, net of anticipation (matches R `did::att_gt()`)
+  - Control mask: `never_treated OR (first_treat > max(t, base) + anticipation AND first_treat != g)`
 
 **Reference implementation(s):**
 - R: `did::att_gt()` (Callaway & Sant'Anna's official package)
-- 
2.43.0


From 6a5dff9b1b59422be740ce78a2381bf7a8d0c3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 16/94] fix: SunAbraham treats first_treat=inf as never
 treated, not as a cohort

---
 diff_diff/sun_abraham.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 3f67d69..7c5b055 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -488,6 +488,9 @@ class SunAbraham:
         df[first_treat] = pd.to_numeric(df[first_treat])
         validate_treatment_timing(df, unit, time, first_treat)
 
+        # Never-treated units may be coded 0 or inf; use 0 internally
+        df[first_treat] = df[first_treat].replace(np.inf, 0)
+
         # Identify groups and time periods
         time_periods = sorted(df[time].unique())
         treatment_groups = sorted([g for g in df[first_treat].unique() if g > 0])
-- 
2.43.0


From b3c818ae7aea2bf2e6a4429eaa9df4fbf5a8319b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 17/94] fix: SunAbraham bootstrap resamples the right rows for
 any data frame index

---
 diff_diff/sun_abraham.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 7c5b055..26192f8 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -997,6 +997,9 @@ class SunAbraham:
 
         rng = np.random.default_rng(self.seed)
 
+        # Row positions are used below, so index labels must equal positions
+        df = df.reset_index(drop=True)
+
         # Get unique units
         all_units = df[unit].unique()
         n_units = len(all_units)
-- 
2.43.0


From 4d147fddc059590fc49bd3544620ad60b70801b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:30 +0000
Subject: [PATCH 18/94] fix: undefined standard errors give undefined test
 statistics and p-values

---
 diff_diff/diagnostics.py   |  6 +++---
 diff_diff/sun_abraham.py   | 13 ++++++++-----
 diff_diff/synthetic_did.py |  4 ++--
 diff_diff/triple_diff.py   |  2 +-
 4 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 123a7de..b66a58a 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -662,7 +662,7 @@ def permutation_test(
     ci_upper = np.percentile(valid_effects, (1 - alpha / 2) * 100)
 
     # T-stat from original estimate
-    t_stat = original_att / se if se > 0 else 0.0
+    t_stat = original_att / se if se > 0 else np.nan
 
     return PlaceboTestResults(
         test_type="permutation",
@@ -782,8 +782,8 @@ def leave_one_out_test(
 
     # Statistics of LOO distribution
     mean_effect = np.mean(valid_effects)
-    se = np.std(valid_effects, ddof=1) if len(valid_effects) > 1 else 0.0
-    t_stat = mean_effect / se if se > 0 else 0.0
+    se = np.std(valid_effects, ddof=1) if len(valid_effects) > 1 else np.nan
+    t_stat = mean_effect / se if se > 0 else np.nan
 
     # Use t-distribution for p-value
     df = len(valid_effects) - 1 if len(valid_effects) > 1 else 1
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 26192f8..3bb17a2 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -605,7 +605,7 @@ class SunAbraham:
             coef_index_map,
         )
 
-        overall_t = overall_att / overall_se if overall_se > 0 else 0.0
+        overall_t = overall_att / overall_se if overall_se > 0 else np.nan
         overall_p = compute_p_value(overall_t)
         overall_ci = compute_confidence_interval(overall_att, overall_se, self.alpha)
 
@@ -628,7 +628,7 @@ class SunAbraham:
 
             # Update results with bootstrap inference
             overall_se = bootstrap_results.overall_att_se
-            overall_t = overall_att / overall_se if overall_se > 0 else 0.0
+            overall_t = overall_att / overall_se if overall_se > 0 else np.nan
             overall_p = bootstrap_results.overall_att_p_value
             overall_ci = bootstrap_results.overall_att_ci
 
@@ -645,7 +645,7 @@ class SunAbraham:
                     eff_val = event_study_effects[e]["effect"]
                     se_val = event_study_effects[e]["se"]
                     event_study_effects[e]["t_stat"] = (
-                        eff_val / se_val if se_val > 0 else 0.0
+                        eff_val / se_val if se_val > 0 else np.nan
                     )
 
         # Convert cohort effects to storage format
@@ -883,7 +883,7 @@ class SunAbraham:
             agg_var = float(weight_vec @ vcov_subset @ weight_vec)
             agg_se = np.sqrt(max(agg_var, 0))
 
-            t_stat = agg_effect / agg_se if agg_se > 0 else 0.0
+            t_stat = agg_effect / agg_se if agg_se > 0 else np.nan
             p_val = compute_p_value(t_stat)
             ci = compute_confidence_interval(agg_effect, agg_se, self.alpha)
 
@@ -920,7 +920,7 @@ class SunAbraham:
         ]
 
         if not post_effects:
-            return 0.0, 0.0
+            return np.nan, np.nan
 
         # Weight by number of treated observations at each relative time
         post_weights = []
@@ -1156,6 +1156,9 @@ class SunAbraham:
         boot_dist: np.ndarray,
     ) -> float:
         """Compute two-sided bootstrap p-value."""
+        if not np.isfinite(original_effect) or not np.all(np.isfinite(boot_dist)):
+            return np.nan
+
         if original_effect >= 0:
             p_one_sided = float(np.mean(boot_dist <= 0))
         else:
diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index dca934b..de6a3d0 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -336,8 +336,8 @@ class SyntheticDiD(DifferenceInDifferences):
             else:
                 p_value = compute_p_value(t_stat)
         else:
-            t_stat = 0.0
-            p_value = 1.0
+            t_stat = np.nan
+            p_value = np.nan
 
         # Confidence interval
         conf_int = compute_confidence_interval(att, se, self.alpha)
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 126d30b..f6869bf 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -598,7 +598,7 @@ class TripleDifference:
             )
 
         # Compute inference
-        t_stat = att / se if se > 0 else 0.0
+        t_stat = att / se if se > 0 else np.nan
         df = n_obs - 8  # Approximate df (8 cell means)
         if covariates:
             df -= len(covariates)
-- 
2.43.0


From df9bb6d7f3831e6d6bbb640c23b8afa5ac74d197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:50 +0000
Subject: [PATCH 19/94] fix: SunAbraham estimates every observed relative
 period, not only those within 20 of treatment

---
 diff_diff/sun_abraham.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 3bb17a2..cc7791d 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -538,18 +538,15 @@ class SunAbraham:
 
         all_rel_times_sorted = sorted(all_rel_times)
 
-        # Filter to reasonable range
-        min_rel = max(min(all_rel_times_sorted), -20)  # cap at -20
-        max_rel = min(max(all_rel_times_sorted), 20)   # cap at +20
-
         # Reference period: last pre-treatment period (typically -1)
         self._reference_period = -1 - self.anticipation
 
-        # Get relative periods to estimate (excluding reference)
+        # Get relative periods to estimate (excluding reference).  Every observed
+        # one is needed: omitted periods would silently join the reference.
         rel_periods_to_estimate = [
             e
             for e in all_rel_times_sorted
-            if min_rel <= e <= max_rel and e != self._reference_period
+            if e != self._reference_period
         ]
 
         # Determine cluster variable
-- 
2.43.0


From 3b9b312043dbfeb46b39bfc94e505730c0cc0e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 20/94] fix: exact Bacon weights follow Theorem 1, so the
 decomposition reproduces the TWFE estimate

---
 diff_diff/bacon.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index cdfd78b..b9563ef 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -615,7 +615,6 @@ class BaconDecomposition:
         of the treatment indicator in each 2x2 comparison window.
         """
         n_total_obs = len(df)
-        n_total_units = df[unit].nunique()
 
         for comp in comparisons:
             # Get data for this specific comparison
@@ -667,10 +666,8 @@ class BaconDecomposition:
                 comp.weight = 0.0
                 continue
 
-            # Number of observations in this 2x2 sample
-            n_22 = len(df_22)
-
-            # Sample share of this comparison
+            # Share of all unit-periods that this 2x2 sample covers
+            n_22 = (n_k + n_l) * (len(pre_periods) + len(post_periods))
             sample_share = n_22 / n_total_obs
 
             # Group shares within the 2x2
@@ -687,13 +684,11 @@ class BaconDecomposition:
             D_k = T_post / T_window  # proportion treated for treated group
 
             # Within-comparison variance of treatment
-            # Var(D) = n_k/(n_k+n_l) * D_k * (1-D_k) for the 2x2
-            var_D_22 = n_k_share * D_k * (1 - D_k)
+            # after removing unit and period effects
+            var_D_22 = n_k_share * (1 - n_k_share) * D_k * (1 - D_k)
 
-            # Exact weight: proportional to sample share * variance
-            # Scale by (n_k + n_l) / n_total_units to account for subsample
-            unit_share = (n_k + n_l) / n_total_units
-            comp.weight = sample_share * var_D_22 * unit_share
+            # Exact weight (Theorem 1): squared sample share times variance
+            comp.weight = sample_share ** 2 * var_D_22
 
     def _compute_treated_vs_never(
         self,
-- 
2.43.0


From 6bcc1128ac0441969f57dfa118439409f95916e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:07 +0000
Subject: [PATCH 21/94] fix: BaconDecomposition refuses missing outcomes

---
 diff_diff/bacon.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index b9563ef..32e948a 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -450,6 +450,11 @@ class BaconDecomposition:
         df[time] = pd.to_numeric(df[time])
         df[first_treat] = pd.to_numeric(df[first_treat])
         validate_treatment_timing(df, unit, time, first_treat)
+        if df[outcome].isna().any():
+            raise ValueError(
+                f"Outcome column '{outcome}' contains missing values. "
+                "Drop or impute them before the decomposition."
+            )
 
         # Check for balanced panel
         periods_per_unit = df.groupby(unit)[time].count()
-- 
2.43.0


From e873ae41496a4a930cb0dab339c2a76106126440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:05 +0000
Subject: [PATCH 22/94] fix: BaconDecomposition refuses data without any
 admissible comparison

---
 diff_diff/bacon.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 32e948a..f16ee00 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -520,6 +520,12 @@ class BaconDecomposition:
                 if comp_late is not None:
                     comparisons.append(comp_late)
 
+        if not comparisons:
+            raise ValueError(
+                "No admissible 2x2 comparison: the data need at least one group whose "
+                "treatment status changes while another group's does not."
+            )
+
         # Recompute exact weights if requested
         if self.weights == "exact":
             self._recompute_exact_weights(
-- 
2.43.0


From 5f5c8f952730e3209493b651663852c1b7f96a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 23/94] fix: synthetic control weights converge whatever the
 level and scale of the outcome

---
 diff_diff/utils.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index b44d3a3..99ed900 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -1120,6 +1120,13 @@ def _compute_synthetic_weights_numpy(
     """NumPy fallback implementation of compute_synthetic_weights."""
     n_pre, n_control = Y_control.shape
 
+    # On the simplex a level common to all units in a period cancels from the
+    # objective. Taking it out first keeps the problem well conditioned whatever
+    # the outcome's level, so the iterations below actually converge.
+    period_levels = Y_control.mean(axis=1)
+    Y_control = Y_control - period_levels[:, np.newaxis]
+    Y_treated = Y_treated - period_levels
+
     # Initialize with uniform weights
     weights = np.ones(n_control) / n_control
 
@@ -1136,22 +1143,35 @@ def _compute_synthetic_weights_numpy(
 
     # Solve with projected gradient descent
     # Project onto probability simplex
-    step_size = 1.0 / (np.linalg.norm(H, 2) + _NUMERICAL_EPS)
+    curvature = np.linalg.norm(H, 2)
+    step_size = 1.0 / curvature if curvature > 0 else 0.0
+
+    # (accelerated, with restarts)
+    momentum_point = weights
+    momentum = 1.0
 
     for _ in range(_OPTIMIZATION_MAX_ITER):
-        weights_old = weights.copy()
+        weights_old = weights
 
         # Gradient step: minimize ||Y - Y_control @ w||^2
-        grad = H @ weights - f
-        weights = weights - step_size * grad
+        grad = H @ momentum_point - f
+        weights = momentum_point - step_size * grad
 
         # Project onto simplex (sum to 1, non-negative)
         weights = _project_simplex(weights)
 
         # Check convergence
-        if np.linalg.norm(weights - weights_old) < _OPTIMIZATION_TOL:
+        change = weights - weights_old
+        if np.linalg.norm(change) < _OPTIMIZATION_TOL:
             break
 
+        # Momentum, restarted whenever it points uphill
+        if (momentum_point - weights) @ change > 0:
+            momentum = 1.0
+        momentum_next = (1.0 + np.sqrt(1.0 + 4.0 * momentum**2)) / 2.0
+        momentum_point = weights + (momentum - 1.0) / momentum_next * change
+        momentum = momentum_next
+
     return weights
 
 
-- 
2.43.0


From 61f7b275b2160d37cd61ce850836ef99b35cfbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:26 +0000
Subject: [PATCH 24/94] fix: SyntheticDiD bootstrap p-value is not computed
 from draws centred at the estimate

---
 diff_diff/synthetic_did.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index de6a3d0..c6af184 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -328,8 +328,9 @@ class SyntheticDiD(DifferenceInDifferences):
         # Compute test statistics
         if se > 0:
             t_stat = att / se
-            # Use placebo distribution for p-value if available
-            if len(placebo_effects) > 0:
+            # Use placebo distribution for p-value if available. Bootstrap draws are
+            # centred at the estimate, not at zero, so they are no null distribution.
+            if inference_method == "placebo" and len(placebo_effects) > 0:
                 # Two-sided p-value from placebo distribution
                 p_value = np.mean(np.abs(placebo_effects) >= np.abs(att))
                 p_value = max(p_value, 1.0 / (len(placebo_effects) + 1))
-- 
2.43.0


From 86c14fb38a4468fba82edf6186b9ce8c563424d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:50 +0000
Subject: [PATCH 25/94] fix: SyntheticDiD refuses unbalanced panels and
 treatment varying within units instead of returning NaN

---
 diff_diff/synthetic_did.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index c6af184..b47a913 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -246,6 +246,11 @@ class SyntheticDiD(DifferenceInDifferences):
 
         # Identify treated and control units
         # Treatment indicator should be constant within unit
+        if (data.groupby(unit)[treatment].nunique() > 1).any():
+            raise ValueError(
+                f"Treatment column '{treatment}' varies within units. It must be 1 for "
+                "all observations of treated units (both pre and post treatment)."
+            )
         unit_treatment = data.groupby(unit)[treatment].first()
         treated_units = unit_treatment[unit_treatment == 1].index.tolist()
         control_units = unit_treatment[unit_treatment == 0].index.tolist()
@@ -255,6 +260,19 @@ class SyntheticDiD(DifferenceInDifferences):
         if len(control_units) == 0:
             raise ValueError("No control units found")
 
+        # The estimator needs every unit in every period
+        if data[[unit, time]].isna().any().any():
+            raise ValueError("Unit and time columns contain missing values")
+        n_cells = len(unit_treatment) * len(all_periods)
+        if len(data) != n_cells or data.duplicated(subset=[unit, time]).any():
+            raise ValueError(
+                "Synthetic DiD requires a balanced panel: exactly one observation per "
+                f"unit and period (expected {n_cells} rows, got {len(data)}). "
+                "Use balance_panel() to balance the data first."
+            )
+        if not np.isfinite(data[outcome].astype(float)).all():
+            raise ValueError(f"Outcome column '{outcome}' contains missing or infinite values")
+
         # Residualize covariates if provided
         working_data = data.copy()
         if covariates:
-- 
2.43.0


From f1fb48d54d2f5da0db6bfe90a8ff9e31bc914bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 26/94] fix: SyntheticDiD covariate adjustment no longer
 absorbs the treatment effect

---
 diff_diff/synthetic_did.py | 44 ++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index b47a913..95af9b3 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -10,7 +10,6 @@ import pandas as pd
 from numpy.linalg import LinAlgError
 
 from diff_diff.estimators import DifferenceInDifferences
-from diff_diff.linalg import solve_ols
 from diff_diff.results import SyntheticDiDResults
 from diff_diff.utils import (
     compute_confidence_interval,
@@ -270,14 +269,16 @@ class SyntheticDiD(DifferenceInDifferences):
                 f"unit and period (expected {n_cells} rows, got {len(data)}). "
                 "Use balance_panel() to balance the data first."
             )
-        if not np.isfinite(data[outcome].astype(float)).all():
-            raise ValueError(f"Outcome column '{outcome}' contains missing or infinite values")
+        for column in [outcome] + list(covariates or []):
+            if not np.isfinite(data[column].astype(float)).all():
+                raise ValueError(f"Column '{column}' contains missing or infinite values")
 
         # Residualize covariates if provided
         working_data = data.copy()
         if covariates:
+            untreated = ~(data[unit].isin(treated_units) & data[time].isin(post_periods))
             working_data = self._residualize_covariates(
-                working_data, outcome, covariates, unit, time
+                working_data, outcome, covariates, unit, time, untreated.values
             )
 
         # Create outcome matrices
@@ -439,36 +440,51 @@ class SyntheticDiD(DifferenceInDifferences):
         outcome: str,
         covariates: List[str],
         unit: str,
-        time: str
+        time: str,
+        untreated: np.ndarray,
     ) -> pd.DataFrame:
         """
         Residualize outcome by regressing out covariates.
 
-        Uses two-way fixed effects to partial out covariates.
+        The covariate coefficients come from a two-way fixed effects regression
+        on the untreated observations. Only the covariates' contribution is taken
+        out of the outcome: the fixed effects stay, because unit effects estimated
+        over all periods would absorb part of the treatment effect.
         """
         data = data.copy()
 
         # Create design matrix with covariates
         X = data[covariates].values.astype(float)
+        X = X - X.mean(axis=0)
 
         # Add unit and time dummies
         unit_dummies = pd.get_dummies(data[unit], prefix='u', drop_first=True)
         time_dummies = pd.get_dummies(data[time], prefix='t', drop_first=True)
 
-        X_full = np.column_stack([
+        fixed_effects = np.column_stack([
             np.ones(len(data)),
-            X,
             unit_dummies.values,
             time_dummies.values
-        ])
+        ]).astype(float)[untreated]
 
         y = data[outcome].values.astype(float)
 
-        # Fit and get residuals using unified backend
-        coeffs, residuals, _ = solve_ols(X_full, y, return_vcov=False)
-
-        # Add back the mean for interpretability
-        data[outcome] = residuals + np.mean(y)
+        # Partial the fixed effects out (Frisch-Waugh-Lovell)
+        targets = np.column_stack([y, X])[untreated]
+        within = targets - fixed_effects @ np.linalg.lstsq(fixed_effects, targets, rcond=None)[0]
+        y_within, X_within = within[:, 0], within[:, 1:]
+
+        # Covariates without variation beyond the fixed effects have no coefficient
+        size = np.linalg.norm(X[untreated], axis=0)
+        usable = np.linalg.norm(X_within, axis=0) > 1e-8 * size
+        beta = np.zeros(X.shape[1])
+        if usable.any():
+            scale = np.linalg.norm(X_within[:, usable], axis=0)
+            beta[usable] = np.linalg.lstsq(
+                X_within[:, usable] / scale, y_within, rcond=None
+            )[0] / scale
+
+        data[outcome] = y - X @ beta
 
         return data
 
-- 
2.43.0


From 79180654c4f5cf5cb66e2add168e556babd1f1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:21 +0000
Subject: [PATCH 27/94] fix: triple-difference propensity score fit does not
 depend on covariate units

---
 diff_diff/triple_diff.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index f6869bf..6992028 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -295,7 +295,11 @@ def _logistic_regression(
         Predicted probabilities.
     """
     n, p = X.shape
-    X_with_intercept = np.column_stack([np.ones(n), X])
+    # Standardize so that convergence does not depend on the covariates' units
+    center = X.mean(axis=0)
+    scale = X.std(axis=0)
+    scale = np.where(scale > 1e-12 * np.abs(center), scale, 1.0)
+    X_with_intercept = np.column_stack([np.ones(n), (X - center) / scale])
 
     def neg_log_likelihood(beta: np.ndarray) -> float:
         z = X_with_intercept @ beta
@@ -324,6 +328,10 @@ def _logistic_regression(
     z = np.clip(z, -500, 500)
     probs = 1 / (1 + np.exp(-z))
 
+    # Back to the original units
+    slopes = beta[1:] / scale
+    beta = np.concatenate([[beta[0] - slopes @ center], slopes])
+
     return beta, probs
 
 
-- 
2.43.0


From 3eaaf46cef03fc5258426bf97c262b036fbfdae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:34 +0000
Subject: [PATCH 28/94] fix: doubly robust and IPW triple differences use
 normalised weights, real outcome models and the requested clusters

---
 diff_diff/triple_diff.py | 505 +++++++++++----------------------------
 1 file changed, 144 insertions(+), 361 deletions(-)

diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 6992028..dc6abe3 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -37,7 +37,7 @@ import numpy as np
 import pandas as pd
 from scipy import optimize
 
-from diff_diff.linalg import LinearRegression, compute_robust_vcov, solve_ols
+from diff_diff.linalg import LinearRegression, solve_ols
 from diff_diff.results import _get_significance_stars
 from diff_diff.utils import (
     compute_confidence_interval,
@@ -266,6 +266,9 @@ class TripleDifferenceResults:
 # Helper Functions
 # =============================================================================
 
+# (group, partition, sign in the triple difference) of the four cells
+_DDD_CELLS = ((1, 1, 1.0), (1, 0, -1.0), (0, 1, -1.0), (0, 0, 1.0))
+
 
 def _logistic_regression(
     X: np.ndarray,
@@ -581,6 +584,19 @@ class TripleDifference:
             if np.any(np.isnan(X)):
                 raise ValueError("Covariates contain missing values")
 
+        # Get cluster labels if clustering
+        cluster_ids = None
+        n_clusters = None
+        if self.cluster is not None:
+            if self.cluster not in data.columns:
+                raise ValueError(f"Cluster column '{self.cluster}' not found in data")
+            if data[self.cluster].isna().any():
+                raise ValueError(f"Cluster column '{self.cluster}' contains missing values")
+            cluster_ids = data[self.cluster].values
+            n_clusters = data[self.cluster].nunique()
+            if n_clusters < 2:
+                raise ValueError("Cluster-robust standard errors need at least 2 clusters")
+
         # Count observations in each cell
         n_obs = len(y)
         n_treated_eligible = int(np.sum((G == 1) & (P == 1)))
@@ -594,15 +610,15 @@ class TripleDifference:
         # Estimate ATT based on method
         if self.estimation_method == "reg":
             att, se, r_squared, pscore_stats = self._regression_adjustment(
-                y, G, P, T, X
+                y, G, P, T, X, cluster_ids
             )
         elif self.estimation_method == "ipw":
             att, se, r_squared, pscore_stats = self._ipw_estimation(
-                y, G, P, T, X
+                y, G, P, T, X, cluster_ids
             )
         else:  # doubly robust
             att, se, r_squared, pscore_stats = self._doubly_robust(
-                y, G, P, T, X
+                y, G, P, T, X, cluster_ids
             )
 
         # Compute inference
@@ -615,11 +631,6 @@ class TripleDifference:
         p_value = compute_p_value(t_stat, df=df)
         conf_int = compute_confidence_interval(att, se, self.alpha, df=df)
 
-        # Get number of clusters if clustering
-        n_clusters = None
-        if self.cluster is not None:
-            n_clusters = data[self.cluster].nunique()
-
         # Create results object
         self.results_ = TripleDifferenceResults(
             att=att,
@@ -731,6 +742,7 @@ class TripleDifference:
         P: np.ndarray,
         T: np.ndarray,
         X: Optional[np.ndarray],
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> Tuple[float, float, Optional[float], Optional[Dict[str, float]]]:
         """
         Estimate ATT using regression adjustment.
@@ -770,6 +782,7 @@ class TripleDifference:
         reg = LinearRegression(
             include_intercept=False,  # Intercept already in design_matrix
             robust=self.robust,
+            cluster_ids=cluster_ids,
             alpha=self.alpha,
             rank_deficient_action=self.rank_deficient_action,
         ).fit(design_matrix, y)
@@ -789,142 +802,17 @@ class TripleDifference:
         P: np.ndarray,
         T: np.ndarray,
         X: Optional[np.ndarray],
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> Tuple[float, float, Optional[float], Optional[Dict[str, float]]]:
         """
         Estimate ATT using inverse probability weighting.
 
-        Estimates propensity scores for cell membership and uses IPW
-        to reweight observations for the DDD estimand.
+        Estimates propensity scores for cell membership and reweights each
+        comparison cell to the covariate distribution of the effectively
+        treated (G=1, P=1) before taking the eight-cell contrast.
         """
-        n = len(y)
-
-        # For DDD-IPW, we need to estimate probabilities for each cell
-        # and use them to construct weighted estimators
-
-        # Create cell indicators
-        # Cell 1: G=1, P=1 (treated, eligible) - "effectively treated"
-        # Cell 2: G=1, P=0 (treated, ineligible)
-        # Cell 3: G=0, P=1 (control, eligible)
-        # Cell 4: G=0, P=0 (control, ineligible)
-
-        cell_1 = (G == 1) & (P == 1)
-        cell_2 = (G == 1) & (P == 0)
-        cell_3 = (G == 0) & (P == 1)
-        cell_4 = (G == 0) & (P == 0)
-
-        if X is not None and X.shape[1] > 0:
-            # Estimate multinomial propensity scores
-            # For simplicity, we estimate binary propensity scores for each cell
-            # P(G=1|X) and P(P=1|X,G)
-
-            # Propensity for being in treated group
-            try:
-                _, p_G = _logistic_regression(X, G)
-            except Exception:
-                warnings.warn(
-                    "Propensity score estimation for G failed. "
-                    "Using unconditional probabilities.",
-                    UserWarning,
-                    stacklevel=3,
-                )
-                p_G = np.full(n, np.mean(G))
-
-            # Propensity for being in eligible partition (conditional on X)
-            try:
-                _, p_P = _logistic_regression(X, P)
-            except Exception:
-                warnings.warn(
-                    "Propensity score estimation for P failed. "
-                    "Using unconditional probabilities.",
-                    UserWarning,
-                    stacklevel=3,
-                )
-                p_P = np.full(n, np.mean(P))
-
-            # Clip propensity scores
-            p_G = np.clip(p_G, self.pscore_trim, 1 - self.pscore_trim)
-            p_P = np.clip(p_P, self.pscore_trim, 1 - self.pscore_trim)
-
-            # Cell probabilities (assuming independence conditional on X)
-            p_cell_1 = p_G * p_P  # P(G=1, P=1|X)
-            p_cell_2 = p_G * (1 - p_P)  # P(G=1, P=0|X)
-            p_cell_3 = (1 - p_G) * p_P  # P(G=0, P=1|X)
-            p_cell_4 = (1 - p_G) * (1 - p_P)  # P(G=0, P=0|X)
-
-            pscore_stats = {
-                "P(G=1) mean": float(np.mean(p_G)),
-                "P(G=1) std": float(np.std(p_G)),
-                "P(P=1) mean": float(np.mean(p_P)),
-                "P(P=1) std": float(np.std(p_P)),
-            }
-        else:
-            # Unconditional probabilities
-            p_cell_1 = np.full(n, np.mean(cell_1))
-            p_cell_2 = np.full(n, np.mean(cell_2))
-            p_cell_3 = np.full(n, np.mean(cell_3))
-            p_cell_4 = np.full(n, np.mean(cell_4))
-            pscore_stats = None
-
-        # Clip cell probabilities
-        p_cell_1 = np.clip(p_cell_1, self.pscore_trim, 1 - self.pscore_trim)
-        p_cell_2 = np.clip(p_cell_2, self.pscore_trim, 1 - self.pscore_trim)
-        p_cell_3 = np.clip(p_cell_3, self.pscore_trim, 1 - self.pscore_trim)
-        p_cell_4 = np.clip(p_cell_4, self.pscore_trim, 1 - self.pscore_trim)
-
-        # IPW estimator for DDD
-        # The DDD-IPW estimator reweights each cell to have the same
-        # covariate distribution as the effectively treated (G=1, P=1)
-
-        # Pre-period means
-        pre_mask = T == 0
-        post_mask = T == 1
-
-        def weighted_mean(y_vals, weights):
-            """Compute weighted mean, handling edge cases."""
-            w_sum = np.sum(weights)
-            if w_sum <= 0:
-                return 0.0
-            return np.sum(y_vals * weights) / w_sum
-
-        # Cell 1 (G=1, P=1): weight = 1 (reference)
-        w1_pre = cell_1 & pre_mask
-        w1_post = cell_1 & post_mask
-        y_11_pre = np.mean(y[w1_pre]) if np.sum(w1_pre) > 0 else 0
-        y_11_post = np.mean(y[w1_post]) if np.sum(w1_post) > 0 else 0
-
-        # Cell 2 (G=1, P=0): reweight to match X-distribution of cell 1
-        w2_pre = (cell_2 & pre_mask).astype(float) * (p_cell_1 / p_cell_2)
-        w2_post = (cell_2 & post_mask).astype(float) * (p_cell_1 / p_cell_2)
-        y_10_pre = weighted_mean(y, w2_pre)
-        y_10_post = weighted_mean(y, w2_post)
-
-        # Cell 3 (G=0, P=1): reweight to match X-distribution of cell 1
-        w3_pre = (cell_3 & pre_mask).astype(float) * (p_cell_1 / p_cell_3)
-        w3_post = (cell_3 & post_mask).astype(float) * (p_cell_1 / p_cell_3)
-        y_01_pre = weighted_mean(y, w3_pre)
-        y_01_post = weighted_mean(y, w3_post)
-
-        # Cell 4 (G=0, P=0): reweight to match X-distribution of cell 1
-        w4_pre = (cell_4 & pre_mask).astype(float) * (p_cell_1 / p_cell_4)
-        w4_post = (cell_4 & post_mask).astype(float) * (p_cell_1 / p_cell_4)
-        y_00_pre = weighted_mean(y, w4_pre)
-        y_00_post = weighted_mean(y, w4_post)
-
-        # DDD estimate
-        att = (
-            (y_11_post - y_11_pre)
-            - (y_10_post - y_10_pre)
-            - (y_01_post - y_01_pre)
-            + (y_00_post - y_00_pre)
-        )
-
-        # Standard error (approximate, using delta method)
-        # For simplicity, use influence function approach
-        se = self._compute_ipw_se(
-            y, G, P, T, cell_1, cell_2, cell_3, cell_4,
-            p_cell_1, p_cell_2, p_cell_3, p_cell_4, att
-        )
-
+        weights, pscore_stats = self._cell_weights(G, P, X)
+        att, se = self._weighted_contrast(y, G, P, T, weights, cluster_ids=cluster_ids)
         return att, se, None, pscore_stats
 
     def _doubly_robust(
@@ -934,6 +822,7 @@ class TripleDifference:
         P: np.ndarray,
         T: np.ndarray,
         X: Optional[np.ndarray],
+        cluster_ids: Optional[np.ndarray] = None,
     ) -> Tuple[float, float, Optional[float], Optional[Dict[str, float]]]:
         """
         Estimate ATT using doubly robust estimation.
@@ -941,246 +830,140 @@ class TripleDifference:
         Combines outcome regression and IPW for robustness:
         consistent if either the outcome model or propensity score
         model is correctly specified.
-        """
-        n = len(y)
 
-        # Cell indicators
-        cell_1 = (G == 1) & (P == 1)
-        cell_2 = (G == 1) & (P == 0)
-        cell_3 = (G == 0) & (P == 1)
-        cell_4 = (G == 0) & (P == 0)
-
-        # Step 1: Outcome regression for each cell-time combination
-        # Predict E[Y|X,T] for each cell
-        if X is not None and X.shape[1] > 0:
-            # Fit outcome models for each cell
-            mu_fitted = np.zeros(n)
-
-            for cell_mask, cell_name in [
-                (cell_1, "cell_1"), (cell_2, "cell_2"),
-                (cell_3, "cell_3"), (cell_4, "cell_4")
-            ]:
-                for t_val in [0, 1]:
-                    mask = cell_mask & (T == t_val)
-                    if np.sum(mask) > 1:
-                        X_cell = np.column_stack([X[mask], T[mask]])
-                        try:
-                            _, fitted, _ = _linear_regression(
-                                X_cell, y[mask],
-                                rank_deficient_action=self.rank_deficient_action,
-                            )
-                            mu_fitted[mask] = fitted
-                        except Exception:
-                            mu_fitted[mask] = np.mean(y[mask])
-                    elif np.sum(mask) == 1:
-                        mu_fitted[mask] = y[mask]
-
-            # Propensity scores
-            try:
-                _, p_G = _logistic_regression(X, G)
-            except Exception:
-                p_G = np.full(n, np.mean(G))
+        For every comparison cell and period, the counterfactual mean is the
+        cell's outcome model averaged over the effectively treated units of that
+        period, plus the reweighted mean of the cell's own residuals.
+        """
+        weights, pscore_stats = self._cell_weights(G, P, X)
+        if X is None or X.shape[1] == 0:
+            att, se = self._weighted_contrast(y, G, P, T, weights, cluster_ids=cluster_ids)
+            return att, se, None, pscore_stats
 
-            try:
-                _, p_P = _logistic_regression(X, P)
-            except Exception:
-                p_P = np.full(n, np.mean(P))
-
-            p_G = np.clip(p_G, self.pscore_trim, 1 - self.pscore_trim)
-            p_P = np.clip(p_P, self.pscore_trim, 1 - self.pscore_trim)
-
-            p_cell_1 = p_G * p_P
-            p_cell_2 = p_G * (1 - p_P)
-            p_cell_3 = (1 - p_G) * p_P
-            p_cell_4 = (1 - p_G) * (1 - p_P)
-
-            pscore_stats = {
-                "P(G=1) mean": float(np.mean(p_G)),
-                "P(G=1) std": float(np.std(p_G)),
-                "P(P=1) mean": float(np.mean(p_P)),
-                "P(P=1) std": float(np.std(p_P)),
-            }
-        else:
-            # No covariates: use cell means as predictions
-            mu_fitted = np.zeros(n)
-            for cell_mask in [cell_1, cell_2, cell_3, cell_4]:
-                for t_val in [0, 1]:
-                    mask = cell_mask & (T == t_val)
-                    if np.sum(mask) > 0:
-                        mu_fitted[mask] = np.mean(y[mask])
-
-            # Unconditional probabilities
-            p_cell_1 = np.full(n, np.mean(cell_1))
-            p_cell_2 = np.full(n, np.mean(cell_2))
-            p_cell_3 = np.full(n, np.mean(cell_3))
-            p_cell_4 = np.full(n, np.mean(cell_4))
-            pscore_stats = None
-
-        # Clip cell probabilities
-        p_cell_1 = np.clip(p_cell_1, self.pscore_trim, 1 - self.pscore_trim)
-        p_cell_2 = np.clip(p_cell_2, self.pscore_trim, 1 - self.pscore_trim)
-        p_cell_3 = np.clip(p_cell_3, self.pscore_trim, 1 - self.pscore_trim)
-        p_cell_4 = np.clip(p_cell_4, self.pscore_trim, 1 - self.pscore_trim)
-
-        # Step 2: Doubly robust estimator
-        # For each cell, compute the augmented IPW term:
-        # (Y - mu(X)) * weight + mu(X)
-
-        pre_mask = T == 0
-        post_mask = T == 1
-
-        # Influence function components for each observation
-        n_1 = np.sum(cell_1)
-        p_ref = n_1 / n
-
-        # Cell 1 (G=1, P=1) - effectively treated
-        inf_11 = np.zeros(n)
-        inf_11[cell_1] = (y[cell_1] - mu_fitted[cell_1]) / p_ref
-        # Add outcome model contribution
-        inf_11 += mu_fitted * cell_1.astype(float) / p_ref
-
-        # Cell 2 (G=1, P=0)
-        w_10 = cell_2.astype(float) * (p_cell_1 / p_cell_2)
-        inf_10 = w_10 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 2 (vectorized)
-        inf_10[cell_2] += mu_fitted[cell_2] * (p_cell_1[cell_2] / p_cell_2[cell_2]) / p_ref
-
-        # Cell 3 (G=0, P=1)
-        w_01 = cell_3.astype(float) * (p_cell_1 / p_cell_3)
-        inf_01 = w_01 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 3 (vectorized)
-        inf_01[cell_3] += mu_fitted[cell_3] * (p_cell_1[cell_3] / p_cell_3[cell_3]) / p_ref
-
-        # Cell 4 (G=0, P=0)
-        w_00 = cell_4.astype(float) * (p_cell_1 / p_cell_4)
-        inf_00 = w_00 * (y - mu_fitted) / p_ref
-        # Add outcome model contribution for cell 4 (vectorized)
-        inf_00[cell_4] += mu_fitted[cell_4] * (p_cell_1[cell_4] / p_cell_4[cell_4]) / p_ref
-
-        # Compute cell-time means using DR formula
-        def dr_mean(inf_vals, t_mask):
-            return np.mean(inf_vals[t_mask])
-
-        y_11_pre = dr_mean(inf_11, pre_mask)
-        y_11_post = dr_mean(inf_11, post_mask)
-        y_10_pre = dr_mean(inf_10, pre_mask)
-        y_10_post = dr_mean(inf_10, post_mask)
-        y_01_pre = dr_mean(inf_01, pre_mask)
-        y_01_post = dr_mean(inf_01, post_mask)
-        y_00_pre = dr_mean(inf_00, pre_mask)
-        y_00_post = dr_mean(inf_00, post_mask)
-
-        # DDD estimate
-        att = (
-            (y_11_post - y_11_pre)
-            - (y_10_post - y_10_pre)
-            - (y_01_post - y_01_pre)
-            + (y_00_post - y_00_pre)
+        n = len(y)
+        mu_own = np.zeros(n)          # each observation's own cell-period model
+        mu_contrast = np.zeros(n)     # comparison models at effectively treated units
+        Xc = X - X.mean(axis=0)
+
+        for g, p, sign in _DDD_CELLS:
+            for t_val in (0, 1):
+                mask = (G == g) & (P == p) & (T == t_val)
+                target = (G == 1) & (P == 1) & (T == t_val)
+                if np.sum(mask) > X.shape[1] + 1:
+                    beta, _, _ = _linear_regression(
+                        Xc[mask], y[mask],
+                        rank_deficient_action=self.rank_deficient_action,
+                    )
+                    beta = np.nan_to_num(beta)
+                    mu = beta[0] + Xc @ beta[1:]
+                else:
+                    # Too few observations for an outcome model in this cell
+                    mu = np.full(n, np.mean(y[mask]))
+                mu_own[mask] = mu[mask]
+                if not (g == 1 and p == 1):
+                    mu_contrast[target] += sign * mu[target]
+
+        # Effectively treated units carry the contrast of the outcome models,
+        # the comparison cells carry their residuals
+        treated_cell = (G == 1) & (P == 1)
+        values = np.where(treated_cell, y + mu_contrast, y - mu_own)
+        att, se = self._weighted_contrast(
+            values, G, P, T, weights, cluster_ids=cluster_ids
         )
 
-        # Standard error computation
-        # Use the simpler variance formula for the DDD estimator
-        # Var(DDD) ≈ sum of variances of cell means / cell_sizes
-
-        # Compute variances within each cell-time combination
-        def cell_var(cell_mask, t_mask, y_vals):
-            mask = cell_mask & t_mask
-            if np.sum(mask) > 1:
-                return np.var(y_vals[mask], ddof=1), np.sum(mask)
-            return 0.0, max(1, np.sum(mask))
-
-        # Variance components for each of the 8 cells
-        var_components = []
-        for cell_mask in [cell_1, cell_2, cell_3, cell_4]:
-            for t_mask in [pre_mask, post_mask]:
-                v, n_cell = cell_var(cell_mask, t_mask, y)
-                if n_cell > 0:
-                    var_components.append(v / n_cell)
-
-        # Total variance is sum of components (assuming independence)
-        total_var = sum(var_components)
-        se = np.sqrt(total_var)
-
         # R-squared from outcome regression
-        if X is not None:
-            ss_res = np.sum((y - mu_fitted) ** 2)
-            ss_tot = np.sum((y - np.mean(y)) ** 2)
-            r_squared = 1 - (ss_res / ss_tot) if ss_tot > 0 else 0.0
-        else:
-            r_squared = None
+        ss_res = np.sum((y - mu_own) ** 2)
+        ss_tot = np.sum((y - np.mean(y)) ** 2)
+        r_squared = 1 - (ss_res / ss_tot) if ss_tot > 0 else 0.0
 
         return att, se, r_squared, pscore_stats
 
-    def _compute_se(
+    def _cell_weights(
         self,
-        X: np.ndarray,
-        residuals: np.ndarray,
-        coef_idx: int,
-    ) -> float:
-        """Compute standard error for a coefficient using robust or clustered SE."""
-        n, k = X.shape
-
-        if self.robust:
-            # HC1 robust standard errors
-            vcov = compute_robust_vcov(X, residuals, cluster_ids=None)
-        else:
-            # Classical OLS standard errors
-            mse = np.sum(residuals**2) / (n - k)
+        G: np.ndarray,
+        P: np.ndarray,
+        X: Optional[np.ndarray],
+    ) -> Tuple[np.ndarray, Optional[Dict[str, float]]]:
+        """
+        Weights that give each cell the covariate distribution of cell (G=1, P=1).
+
+        Returns the ratio P(G=1, P=1 | X) / P(own cell | X) for every observation,
+        built from P(G=1|X) and P(P=1|X, G).
+        """
+        n = len(G)
+        if X is None or X.shape[1] == 0:
+            return np.ones(n), None
+
+        def propensity(label: str, target: np.ndarray, sample: np.ndarray) -> np.ndarray:
             try:
-                vcov = np.linalg.solve(X.T @ X, mse * np.eye(k))
-            except np.linalg.LinAlgError:
-                vcov = np.linalg.pinv(X.T @ X) * mse
+                beta, _ = _logistic_regression(X[sample], target[sample])
+                z = np.clip(beta[0] + X @ beta[1:], -500, 500)
+                probs = 1 / (1 + np.exp(-z))
+            except Exception:
+                warnings.warn(
+                    f"Propensity score estimation for {label} failed. "
+                    "Using unconditional probabilities.",
+                    UserWarning,
+                    stacklevel=4,
+                )
+                probs = np.full(n, np.mean(target[sample]))
+            return np.clip(probs, self.pscore_trim, 1 - self.pscore_trim)
+
+        p_G = propensity("G", G, np.ones(n, dtype=bool))
+        p_P_treated = propensity("P", P, G == 1)
+        p_P_control = propensity("P", P, G == 0)
+        p_P = np.where(G == 1, p_P_treated, p_P_control)
+
+        pscore_stats = {
+            "P(G=1) mean": float(np.mean(p_G)),
+            "P(G=1) std": float(np.std(p_G)),
+            "P(P=1) mean": float(np.mean(p_P)),
+            "P(P=1) std": float(np.std(p_P)),
+        }
 
-        return float(np.sqrt(vcov[coef_idx, coef_idx]))
+        p_own = np.where(G == 1, p_G, 1 - p_G) * np.where(P == 1, p_P, 1 - p_P)
+        p_target = np.clip(p_G * p_P_treated, self.pscore_trim, 1 - self.pscore_trim)
+        p_own = np.clip(p_own, self.pscore_trim, 1 - self.pscore_trim)
+        return np.where((G == 1) & (P == 1), 1.0, p_target / p_own), pscore_stats
 
-    def _compute_ipw_se(
+    def _weighted_contrast(
         self,
-        y: np.ndarray,
+        values: np.ndarray,
         G: np.ndarray,
         P: np.ndarray,
         T: np.ndarray,
-        cell_1: np.ndarray,
-        cell_2: np.ndarray,
-        cell_3: np.ndarray,
-        cell_4: np.ndarray,
-        p_cell_1: np.ndarray,
-        p_cell_2: np.ndarray,
-        p_cell_3: np.ndarray,
-        p_cell_4: np.ndarray,
-        att: float,
-    ) -> float:
-        """Compute standard error for IPW estimator using influence function."""
-        n = len(y)
-        post_mask = T == 1
-
-        # Influence function for IPW estimator (vectorized)
-        inf_func = np.zeros(n)
-
-        n_ref = np.sum(cell_1)
-        p_ref = n_ref / n
-
-        # Sign: +1 for post, -1 for pre
-        sign = np.where(post_mask, 1.0, -1.0)
-
-        # Cell 1 (G=1, P=1): sign * (y - att) / p_ref
-        inf_func[cell_1] = sign[cell_1] * (y[cell_1] - att) / p_ref
-
-        # Cell 2 (G=1, P=0): -sign * y * (p_cell_1 / p_cell_2) / p_ref
-        w_2 = p_cell_1[cell_2] / p_cell_2[cell_2]
-        inf_func[cell_2] = -sign[cell_2] * y[cell_2] * w_2 / p_ref
-
-        # Cell 3 (G=0, P=1): -sign * y * (p_cell_1 / p_cell_3) / p_ref
-        w_3 = p_cell_1[cell_3] / p_cell_3[cell_3]
-        inf_func[cell_3] = -sign[cell_3] * y[cell_3] * w_3 / p_ref
+        weights: np.ndarray,
+        cluster_ids: Optional[np.ndarray] = None,
+    ) -> Tuple[float, float]:
+        """
+        Eight-cell contrast of weighted means with influence-function standard error.
 
-        # Cell 4 (G=0, P=0): sign * y * (p_cell_1 / p_cell_4) / p_ref
-        w_4 = p_cell_1[cell_4] / p_cell_4[cell_4]
-        inf_func[cell_4] = sign[cell_4] * y[cell_4] * w_4 / p_ref
+        Without weights this is the textbook triple difference, and its variance
+        the sum of s^2/n over the eight cells.
+        """
+        att = 0.0
+        influence = np.zeros(len(values))
+        for g, p, cell_sign in _DDD_CELLS:
+            for t_val, time_sign in ((0, -1.0), (1, 1.0)):
+                mask = (G == g) & (P == p) & (T == t_val)
+                w = weights[mask] / np.sum(weights[mask])
+                mean = np.sum(w * values[mask])
+                att += cell_sign * time_sign * mean
+                n_cell = len(w)
+                correction = np.sqrt(n_cell / (n_cell - 1)) if n_cell > 1 else 0.0
+                influence[mask] = (
+                    cell_sign * time_sign * correction * w * (values[mask] - mean)
+                )
 
-        var_inf = np.var(inf_func, ddof=1)
-        se = np.sqrt(var_inf / n)
+        if cluster_ids is not None:
+            codes = pd.factorize(cluster_ids)[0]
+            n_clusters = codes.max() + 1
+            sums = np.bincount(codes, weights=influence)
+            variance = n_clusters / (n_clusters - 1) * np.sum(sums**2)
+        else:
+            variance = np.sum(influence**2)
 
-        return se
+        return float(att), float(np.sqrt(variance))
 
     def get_params(self) -> Dict[str, Any]:
         """
-- 
2.43.0


From 14f6998a5cfa24c2e2c2771173dfc08dbd73601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 29/94] fix: TROP bootstrap weights come from the resampled
 panel, not the original one

---
 diff_diff/trop.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index a6e2fdc..c6c91dc 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -2287,8 +2287,13 @@ class TROP:
         np.ndarray
             Weight matrix (n_periods x n_units) for observation (i, t).
         """
-        # Use pre-computed structures when available
-        if self._precomputed is not None:
+        # Use pre-computed structures when they belong to this data (bootstrap and
+        # jackknife samples have their own outcome and treatment matrices)
+        if (
+            self._precomputed is not None
+            and self._precomputed["Y"] is Y
+            and self._precomputed["D"] is D
+        ):
             # Time weights from pre-computed time distance matrix
             # time_dist_matrix[t, s] = |t - s|
             time_weights = np.exp(-lambda_time * self._precomputed["time_dist_matrix"][t, :])
-- 
2.43.0


From 6303426fdb11e6ced77187af9a311e1dadc6c46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 30/94] fix: TROP keeps tuning parameters selected at infinity

---
 diff_diff/trop.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index c6c91dc..6b86592 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -2073,11 +2073,14 @@ class TROP:
                 (lambda_time_init, lambda_unit_init, lambda_nn_init)
             )
 
-            # Compute final score for the optimized parameters
+            # Compute final score for the optimized parameters, with infinite
+            # values converted as in the search
             try:
                 best_score = self._loocv_score_obs_specific(
                     Y, D, control_mask, control_unit_idx,
-                    lambda_time, lambda_unit, lambda_nn,
+                    0.0 if np.isinf(lambda_time) else lambda_time,
+                    0.0 if np.isinf(lambda_unit) else lambda_unit,
+                    1e10 if np.isinf(lambda_nn) else lambda_nn,
                     n_units, n_periods
                 )
                 # Only accept finite scores - infinite means all fits failed
-- 
2.43.0


From 16dcc0ed24b67a94804157eb1e0f1e1ef4c30513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 31/94] fix: TROP confidence interval uses the t distribution
 of its p-value

---
 diff_diff/trop.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 6b86592..0ca9328 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -1512,7 +1512,9 @@ class TROP:
         if se > 0:
             t_stat = att / se
             p_value = 2 * (1 - stats.t.cdf(abs(t_stat), df=max(1, n_treated_obs - 1)))
-            conf_int = compute_confidence_interval(att, se, self.alpha)
+            conf_int = compute_confidence_interval(
+                att, se, self.alpha, df=max(1, n_treated_obs - 1)
+            )
         else:
             t_stat = np.nan
             p_value = np.nan
@@ -2192,7 +2194,9 @@ class TROP:
         if se > 0:
             t_stat = att / se
             p_value = 2 * (1 - stats.t.cdf(abs(t_stat), df=max(1, n_treated_obs - 1)))
-            conf_int = compute_confidence_interval(att, se, self.alpha)
+            conf_int = compute_confidence_interval(
+                att, se, self.alpha, df=max(1, n_treated_obs - 1)
+            )
         else:
             # When SE is undefined/zero, ALL inference fields should be NaN
             t_stat = np.nan
-- 
2.43.0


From 7ff07baab6e9bc24d7745980e64446ccbe972da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 32/94] fix: TROP nuclear-norm step minimises the documented
 objective

---
 diff_diff/trop.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 0ca9328..0d05a4c 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -1204,8 +1204,9 @@ class TROP:
             gradient_step = L + delta_norm * (R - L)
 
             # Soft-threshold singular values
-            # Use eta * lambda_nn for proper proximal step size (matches Rust)
-            eta = 1.0 / delta_max if delta_max > 0 else 1.0
+            # The quadratic's gradient is 2*delta*(L - R), so the step above has
+            # size 1/(2*delta_max) and the threshold is that times lambda_nn
+            eta = 1.0 / (2.0 * delta_max) if delta_max > 0 else 1.0
             L = self._soft_threshold_svd(gradient_step, eta * lambda_nn)
 
             # Check convergence
@@ -2508,8 +2509,10 @@ class TROP:
 
         # Proximal gradient iteration with weighted soft-impute
         # This solves: min_L ||W^{1/2} ⊙ (R - L)||_F^2 + λ||L||_*
-        # Using: L_{k+1} = prox_{λ/η}(L_k + W ⊙ (R - L_k))
-        # where η is the step size (we use η = 1 with normalized weights)
+        # Using: L_{k+1} = prox_{ηλ}(L_k + W_norm ⊙ (R - L_k))
+        # The gradient is 2W ⊙ (L - R), so a step along W_norm = W / max(W)
+        # has size η = 1 / (2 max(W))
+        threshold = lambda_nn / (2.0 * W_max) if W_max > 0 else lambda_nn
         for _ in range(max_inner_iter):
             L_old = L.copy()
 
@@ -2518,7 +2521,7 @@ class TROP:
             gradient_step = L + W_norm * (R_masked - L)
 
             # Proximal step: soft-threshold singular values
-            L = self._soft_threshold_svd(gradient_step, lambda_nn)
+            L = self._soft_threshold_svd(gradient_step, threshold)
 
             # Check convergence
             if np.max(np.abs(L - L_old)) < self.tol:
-- 
2.43.0


From 76767cf06cab8edac9fb4039c8ceaf19a45923ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:35 +0000
Subject: [PATCH 33/94] fix: TROP convergence tolerance is relative to the
 outcome scale

---
 diff_diff/trop.py | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 0d05a4c..58ae6ad 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -1174,6 +1174,10 @@ class TROP:
         delta_masked = delta.copy()
         delta_masked[nan_mask] = 0.0
 
+        # The tolerance is relative to the spread of the outcome, so that the
+        # solution does not depend on its units
+        tol = tol * self._outcome_scale(Y, delta_masked > 0)
+
         # Initialize L = 0
         L = np.zeros((n_periods, n_units))
 
@@ -2371,6 +2375,13 @@ class TROP:
 
         return W
 
+    @staticmethod
+    def _outcome_scale(Y: np.ndarray, valid_mask: np.ndarray) -> float:
+        """Spread of the outcome over the observations used, 1.0 if there is none."""
+        values = Y[valid_mask & np.isfinite(Y)]
+        scale = float(np.std(values)) if values.size > 0 else 0.0
+        return scale if np.isfinite(scale) and scale > 0 else 1.0
+
     def _soft_threshold_svd(
         self,
         M: np.ndarray,
@@ -2441,6 +2452,7 @@ class TROP:
         beta: np.ndarray,
         lambda_nn: float,
         max_inner_iter: int = 20,
+        tol: Optional[float] = None,
     ) -> np.ndarray:
         """
         Solve weighted nuclear norm problem using iterative weighted soft-impute.
@@ -2475,6 +2487,8 @@ class TROP:
             Nuclear norm regularization parameter.
         max_inner_iter : int, default=20
             Maximum inner iterations for the proximal algorithm.
+        tol : float, optional
+            Convergence tolerance in outcome units. Default: self.tol.
 
         Returns
         -------
@@ -2492,6 +2506,9 @@ class TROP:
         valid_obs_mask = W > 0
         R_masked = np.where(valid_obs_mask, R, L_init)
 
+        if tol is None:
+            tol = self.tol
+
         if lambda_nn <= 0:
             # No regularization - just return masked residual
             # Use soft-thresholding with threshold=0 which returns the input
@@ -2524,7 +2541,7 @@ class TROP:
             L = self._soft_threshold_svd(gradient_step, threshold)
 
             # Check convergence
-            if np.max(np.abs(L - L_old)) < self.tol:
+            if np.max(np.abs(L - L_old)) < tol:
                 break
 
         return L
@@ -2604,6 +2621,10 @@ class TROP:
         # Replace NaN in Y with 0 for computation (mask handles exclusion)
         Y_safe = np.where(np.isnan(Y), 0.0, Y)
 
+        # The tolerance is relative to the spread of the outcome, so that the
+        # solution does not depend on its units
+        tol = self.tol * self._outcome_scale(Y, valid_mask)
+
         # Alternating minimization following Algorithm 1 (page 9)
         # Minimize: Σ W_{ti}(Y_{ti} - α_i - β_t - L_{ti})² + λ_nn||L||_*
         for _ in range(self.max_iter):
@@ -2637,7 +2658,7 @@ class TROP:
             # observation weights in the nuclear norm optimization.
             # Following Equation 2 (page 7): min_L Σ W_{ti}(Y - α - β - L)² + λ||L||_*
             L = self._weighted_nuclear_norm_solve(
-                Y_safe, W_masked, L, alpha, beta, lambda_nn, max_inner_iter=10
+                Y_safe, W_masked, L, alpha, beta, lambda_nn, max_inner_iter=10, tol=tol
             )
 
             # Check convergence
@@ -2645,7 +2666,7 @@ class TROP:
             beta_diff = np.max(np.abs(beta - beta_old))
             L_diff = np.max(np.abs(L - L_old))
 
-            if max(alpha_diff, beta_diff, L_diff) < self.tol:
+            if max(alpha_diff, beta_diff, L_diff) < tol:
                 break
 
         return alpha, beta, L
-- 
2.43.0


From 4e5b0e0c8775a15e89195cf10e3cee22d45a5b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:39 +0000
Subject: [PATCH 34/94] fix: TROP refuses non-binary treatment and treated
 cells without any control observations

---
 diff_diff/trop.py | 43 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 58ae6ad..486515f 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -1330,6 +1330,8 @@ class TROP:
         if n_pre_periods < 2:
             raise ValueError("Need at least 2 pre-treatment periods")
 
+        self._check_comparisons(Y, D, all_units, all_periods)
+
         # Check for staggered adoption (joint method requires simultaneous treatment)
         # Use only observed periods (skip missing) to avoid false positives on unbalanced panels
         first_treat_by_unit = []
@@ -1883,6 +1885,12 @@ class TROP:
         if missing:
             raise ValueError(f"Missing columns: {missing}")
 
+        # Treatment must be a 0/1 indicator on every observed row
+        if data[treatment].isna().any():
+            raise ValueError(f"Treatment column '{treatment}' has missing values")
+        if not data[treatment].isin([0, 1]).all():
+            raise ValueError(f"Treatment column '{treatment}' must be a binary (0/1) indicator")
+
         # Dispatch based on estimation method
         if self.method == "joint":
             return self._fit_joint(data, outcome, treatment, unit, time)
@@ -1975,6 +1983,8 @@ class TROP:
         if n_pre_periods < 2:
             raise ValueError("Need at least 2 pre-treatment periods")
 
+        self._check_comparisons(Y, D, all_units, all_periods)
+
         # Step 1: Grid search with LOOCV for tuning parameters
         best_lambda = None
         best_score = np.inf
@@ -2375,6 +2385,39 @@ class TROP:
 
         return W
 
+    def _check_comparisons(
+        self,
+        Y: np.ndarray,
+        D: np.ndarray,
+        all_units: List[Any],
+        all_periods: List[Any],
+    ) -> None:
+        """
+        Raise if a counterfactual has no control observations to come from.
+
+        A treated unit needs an untreated observation for its unit effect, and a
+        treated period an untreated observation for its time effect. The joint
+        method fits one effect for all treated cells, so it only fails if no
+        treated unit, or no treated period, has one.
+        """
+        treated = D == 1
+        control = (D == 0) & np.isfinite(Y)
+        units = np.where(treated.any(axis=0))[0]
+        periods = np.where(treated.any(axis=1))[0]
+        bad_units = [all_units[i] for i in units if not control[:, i].any()]
+        bad_periods = [all_periods[t] for t in periods if not control[t, :].any()]
+        if self.method == "joint":
+            bad_units = bad_units if len(bad_units) == len(units) else []
+            bad_periods = bad_periods if len(bad_periods) == len(periods) else []
+        if bad_units:
+            raise ValueError(
+                f"No untreated observations for treated units: {bad_units}"
+            )
+        if bad_periods:
+            raise ValueError(
+                f"No control observations in treated periods: {bad_periods}"
+            )
+
     @staticmethod
     def _outcome_scale(Y: np.ndarray, valid_mask: np.ndarray) -> float:
         """Spread of the outcome over the observations used, 1.0 if there is none."""
-- 
2.43.0


From ef3ebb8f3a8e5126e9572fe2664f4086c8b8b464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:49 +0000
Subject: [PATCH 35/94] fix: TROP parameter search converges whatever the
 outcome scale

---
 diff_diff/trop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 486515f..31c974f 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -842,8 +842,8 @@ class TROP:
                 {'lambda_unit': lambda_unit, 'lambda_time': lambda_time}
             )
 
-            # Check convergence
-            if abs(score - prev_score) < 1e-6:
+            # Check convergence (relative, the score is in squared outcome units)
+            if abs(score - prev_score) < 1e-6 * abs(prev_score):
                 logger.debug(
                     "Cycling search converged after %d cycles with score %.6f",
                     cycle + 1, score
-- 
2.43.0


From 83dcacb92fe63e0ff89e810d2dfdc87e2a281032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:53 +0000
Subject: [PATCH 36/94] fix: HonestDiD uses the joint covariance of
 Callaway-Sant'Anna event-study effects

---
 diff_diff/honest_did.py            |  8 +++++
 diff_diff/staggered.py             |  3 ++
 diff_diff/staggered_aggregation.py | 53 ++++++++++++++----------------
 diff_diff/staggered_results.py     |  3 ++
 4 files changed, 38 insertions(+), 29 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 81c8caf..c3e36dc 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -604,6 +604,14 @@ def _extract_event_study_params(
 
                 beta_hat = np.array(effects)
                 sigma = np.diag(np.array(ses) ** 2)
+                vcov = results.event_study_vcov
+                if vcov is not None and set(rel_times) <= set(vcov.index):
+                    # Effects are correlated through shared units: the reported
+                    # standard errors with the correlations of their joint covariance
+                    V = vcov.loc[rel_times, rel_times].to_numpy()
+                    sd = np.sqrt(np.diag(V))
+                    if np.all(sd > 0):
+                        sigma = np.outer(ses, ses) * V / np.outer(sd, sd)
 
                 return (
                     beta_hat, sigma,
diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index fddb283..4517747 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -745,6 +745,7 @@ class CallawaySantAnna(
 
         # Compute additional aggregations if requested
         event_study_effects = None
+        event_study_vcov = None
         group_effects = None
 
         if aggregate in ["event_study", "all"]:
@@ -752,6 +753,7 @@ class CallawaySantAnna(
                 group_time_effects, influence_func_info,
                 treatment_groups, time_periods, balance_e
             )
+            event_study_vcov = self._event_study_vcov
 
         if aggregate in ["group", "all"]:
             group_effects = self._aggregate_by_group(
@@ -836,6 +838,7 @@ class CallawaySantAnna(
             control_group=self.control_group,
             base_period=self.base_period,
             event_study_effects=event_study_effects,
+            event_study_vcov=event_study_vcov,
             group_effects=group_effects,
             bootstrap_results=bootstrap_results,
         )
diff --git a/diff_diff/staggered_aggregation.py b/diff_diff/staggered_aggregation.py
index 1419413..04ec2df 100644
--- a/diff_diff/staggered_aggregation.py
+++ b/diff_diff/staggered_aggregation.py
@@ -122,27 +122,20 @@ class CallawaySantAnnaAggregationMixin:
 
         This matches R's `did` package analytical SE formula.
         """
-        if not influence_func_info:
-            # Fallback if no influence functions available
-            return 0.0
-
-        # Build unit index mapping from all (g,t) pairs
-        all_units = set()
-        for (g, t) in gt_pairs:
-            if (g, t) in influence_func_info:
-                info = influence_func_info[(g, t)]
-                all_units.update(info['treated_units'])
-                all_units.update(info['control_units'])
+        psi_overall = self._aggregate_influence(gt_pairs, weights, influence_func_info)
 
-        if not all_units:
-            return 0.0
-
-        all_units = sorted(all_units)
-        n_units = len(all_units)
-        unit_to_idx = {u: i for i, u in enumerate(all_units)}
+        # Compute variance: Var(θ̄) = (1/n) Σᵢ ψᵢ²
+        variance = np.sum(psi_overall.to_numpy() ** 2)
+        return np.sqrt(variance)
 
-        # Aggregate influence functions across (g,t) pairs
-        psi_overall = np.zeros(n_units)
+    def _aggregate_influence(
+        self,
+        gt_pairs: List[Tuple[Any, Any]],
+        weights: np.ndarray,
+        influence_func_info: Dict,
+    ) -> pd.Series:
+        """Unit-level influence of the weighted average of ATT(g,t), indexed by unit."""
+        psi: Dict[Any, float] = {}
 
         for j, (g, t) in enumerate(gt_pairs):
             if (g, t) not in influence_func_info:
@@ -153,17 +146,13 @@ class CallawaySantAnnaAggregationMixin:
 
             # Treated unit contributions
             for i, unit_id in enumerate(info['treated_units']):
-                idx = unit_to_idx[unit_id]
-                psi_overall[idx] += w * info['treated_inf'][i]
+                psi[unit_id] = psi.get(unit_id, 0.0) + w * info['treated_inf'][i]
 
             # Control unit contributions
             for i, unit_id in enumerate(info['control_units']):
-                idx = unit_to_idx[unit_id]
-                psi_overall[idx] += w * info['control_inf'][i]
+                psi[unit_id] = psi.get(unit_id, 0.0) + w * info['control_inf'][i]
 
-        # Compute variance: Var(θ̄) = (1/n) Σᵢ ψᵢ²
-        variance = np.sum(psi_overall ** 2)
-        return np.sqrt(variance)
+        return pd.Series(psi, dtype=float)
 
     def _compute_aggregated_se_with_wif(
         self,
@@ -388,6 +377,7 @@ class CallawaySantAnnaAggregationMixin:
 
         # Compute aggregated effects
         event_study_effects = {}
+        influence = {}
 
         for e, effect_list in sorted(effects_by_e.items()):
             gt_pairs = [x[0] for x in effect_list]
@@ -400,9 +390,8 @@ class CallawaySantAnnaAggregationMixin:
             agg_effect = np.sum(weights * effs)
 
             # Compute SE using influence function aggregation
-            agg_se = self._compute_aggregated_se(
-                gt_pairs, weights, influence_func_info
-            )
+            influence[e] = self._aggregate_influence(gt_pairs, weights, influence_func_info)
+            agg_se = np.sqrt(np.sum(influence[e].to_numpy() ** 2))
 
             t_stat = agg_effect / agg_se if np.isfinite(agg_se) and agg_se > 0 else np.nan
             p_val = compute_p_value(t_stat)
@@ -417,6 +406,12 @@ class CallawaySantAnnaAggregationMixin:
                 'n_groups': len(effect_list),
             }
 
+        # Joint covariance of the event-study effects (effects share control units)
+        psi = pd.DataFrame(influence, dtype=float).fillna(0.0)
+        self._event_study_vcov = pd.DataFrame(
+            psi.to_numpy().T @ psi.to_numpy(), index=psi.columns, columns=psi.columns
+        )
+
         # Add reference period for universal base period mode (matches R did package)
         # The reference period e = -1 - anticipation has effect = 0 by construction
         # Only add if there are actual computed effects (guard against empty data)
diff --git a/diff_diff/staggered_results.py b/diff_diff/staggered_results.py
index 617a839..968e16b 100644
--- a/diff_diff/staggered_results.py
+++ b/diff_diff/staggered_results.py
@@ -92,6 +92,8 @@ class CallawaySantAnnaResults:
         Effects aggregated by relative time (event study).
     group_effects : dict, optional
         Effects aggregated by treatment cohort.
+    event_study_vcov : DataFrame, optional
+        Analytical joint covariance of the event-study effects, by relative time.
     """
     group_time_effects: Dict[Tuple[Any, Any], Dict[str, Any]]
     overall_att: float
@@ -111,6 +113,7 @@ class CallawaySantAnnaResults:
     group_effects: Optional[Dict[Any, Dict[str, Any]]] = field(default=None)
     influence_functions: Optional["np.ndarray"] = field(default=None, repr=False)
     bootstrap_results: Optional["CSBootstrapResults"] = field(default=None, repr=False)
+    event_study_vcov: Optional[pd.DataFrame] = field(default=None, repr=False)
 
     def __repr__(self) -> str:
         """Concise string representation."""
-- 
2.43.0


From 0232d1c92a1213b6d79389a4f7628e19df2aa4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:13 +0000
Subject: [PATCH 37/94] fix: HonestDiD uses the event-study rows of the
 multi-period covariance, whatever the treatment column is called

---
 diff_diff/honest_did.py | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index c3e36dc..080ae97 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -562,10 +562,20 @@ def _extract_event_study_params(
         num_post_periods = len(post_periods)
         num_pre_periods = len(pre_periods) if pre_periods else 0
 
-        # Get vcov if available
+        # Get vcov if available. The regression covariance has one row per
+        # coefficient, of which the post-period interactions are needed
+        sigma = None
         if results.vcov is not None:
-            sigma = results.vcov
-        else:
+            names = list(results.coefficients) if results.coefficients else []
+            rows = [
+                i for period in post_periods for i, name in enumerate(names)
+                if str(name).endswith(f":period_{period}")
+            ]
+            if results.vcov.shape[0] == len(post_periods):
+                sigma = results.vcov
+            elif results.vcov.shape[0] == len(names) and len(rows) == len(post_periods):
+                sigma = results.vcov[np.ix_(rows, rows)]
+        if sigma is None:
             # Construct diagonal vcov from SEs
             sigma = np.diag(np.array(ses) ** 2)
 
@@ -1259,9 +1269,9 @@ class HonestDiD:
                 # Look for pre-period coefficients
                 pre_effects = []
                 for period in pre_periods:
-                    key = f"treated:period_{period}"
-                    if key in results.coefficients:
-                        pre_effects.append(abs(results.coefficients[key]))
+                    for key, value in results.coefficients.items():
+                        if str(key).endswith(f":period_{period}"):
+                            pre_effects.append(abs(value))
 
                 if pre_effects:
                     return max(pre_effects)
-- 
2.43.0


From b1126bd218a3d832a4021747985f3e6adf34e18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:13 +0000
Subject: [PATCH 38/94] fix: HonestDiD relative-magnitude and combined bounds
 are exact for every weighting vector

---
 diff_diff/honest_did.py | 26 +++++++++-----------------
 1 file changed, 9 insertions(+), 17 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 080ae97..6800194 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -947,7 +947,9 @@ def _compute_clf_ci(
     theta = np.dot(l_vec, beta_post)
     se = np.sqrt(l_vec @ sigma_post @ l_vec)
 
-    bound = Mbar * max_pre_violation
+    # Each post-period violation is at most Mbar * max_pre_violation in size, so
+    # the weighted violation is at most that times the sum of |weights|
+    bound = Mbar * max_pre_violation * np.sum(np.abs(l_vec))
 
     # Simple bounds: theta +/- bound
     lb = theta - bound
@@ -1225,25 +1227,15 @@ class HonestDiD:
         results: Any
     ) -> Tuple[float, float, float, float]:
         """Compute bounds under combined smoothness + RM restriction."""
-        # Get smoothness bounds
-        lb_sd, ub_sd, _, _ = self._compute_smoothness_bounds(
-            beta_post, sigma_post, l_vec, num_pre, num_post, M
+        # Violations must satisfy both restrictions at once (use M as Mbar)
+        A_sd, b_sd = _construct_constraints_sd(num_pre, num_post, M)
+        A_rm, b_rm = _construct_constraints_rm(
+            num_pre, num_post, M, self._estimate_max_pre_violation(results, pre_periods)
         )
-
-        # Get RM bounds (use M as Mbar for combined)
-        lb_rm, ub_rm, _, _ = self._compute_rm_bounds(
-            beta_post, sigma_post, l_vec, num_pre, num_post, M, pre_periods, results
+        lb, ub = _solve_bounds_lp(
+            beta_post, l_vec, np.vstack([A_sd, A_rm]), np.concatenate([b_sd, b_rm]), num_pre
         )
 
-        # Combined bounds are intersection
-        lb = max(lb_sd, lb_rm)
-        ub = min(ub_sd, ub_rm)
-
-        # If bounds cross, use the original estimate
-        if lb > ub:
-            theta = np.dot(l_vec, beta_post)
-            lb = ub = theta
-
         # Compute FLCI on combined bounds
         se = np.sqrt(l_vec @ sigma_post @ l_vec)
         ci_lb, ci_ub = _compute_flci(lb, ub, se, self.alpha)
-- 
2.43.0


From 5be351f2c4cf7de43f9459247f0cd8cb8af4b857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:27 +0000
Subject: [PATCH 39/94] fix: HonestDiD refuses a negative M and does not call
 undefined intervals significant

---
 diff_diff/honest_did.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 6800194..0869e16 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -197,7 +197,7 @@ class HonestDiDResults:
     )
 
     def __repr__(self) -> str:
-        sig = "" if self.ci_lb <= 0 <= self.ci_ub else "*"
+        sig = "*" if self.is_significant else ""
         return (
             f"HonestDiDResults(bounds=[{self.lb:.4f}, {self.ub:.4f}], "
             f"CI=[{self.ci_lb:.4f}, {self.ci_ub:.4f}]{sig}, "
@@ -207,7 +207,7 @@ class HonestDiDResults:
     @property
     def is_significant(self) -> bool:
         """Check if CI excludes zero (effect is robust to violations)."""
-        return not (self.ci_lb <= 0 <= self.ci_ub)
+        return bool(self.ci_lb > 0 or self.ci_ub < 0)
 
     @property
     def significance_stars(self) -> str:
@@ -1039,7 +1039,7 @@ class HonestDiD:
                 f"method must be 'smoothness', 'relative_magnitude', or 'combined', "
                 f"got method='{self.method}'"
             )
-        if self.M < 0:
+        if not self.M >= 0:
             raise ValueError(f"M must be non-negative, got M={self.M}")
         if not 0 < self.alpha < 1:
             raise ValueError(f"alpha must be between 0 and 1, got alpha={self.alpha}")
@@ -1084,6 +1084,8 @@ class HonestDiD:
             Results containing bounds and robust confidence intervals.
         """
         M = M if M is not None else self.M
+        if not M >= 0:
+            raise ValueError(f"M must be non-negative, got M={M}")
 
         # Extract event study parameters
         (beta_hat, sigma, num_pre, num_post,
-- 
2.43.0


From 411d381ea12cd2ffcfac298604b39074f6383193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 40/94] fix: HonestDiD breakdown value for any grid order, grid
 start and strength

---
 diff_diff/honest_did.py | 66 ++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 37 deletions(-)

diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 0869e16..885af87 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -443,7 +443,7 @@ class SensitivityResults:
                 "ub": ub,
                 "ci_lb": ci_lb,
                 "ci_ub": ci_ub,
-                "is_significant": not (ci_lb <= 0 <= ci_ub),
+                "is_significant": bool(ci_lb > 0 or ci_ub < 0),
             })
         return pd.DataFrame(rows)
 
@@ -1358,36 +1358,30 @@ class HonestDiD:
 
         Uses binary search for precision.
         """
-        # Check if any CI includes zero
-        includes_zero = [ci_lb <= 0 <= ci_ub for ci_lb, ci_ub in ci_list]
-
-        if not any(includes_zero):
-            # Always significant - no breakdown
-            return None
-
-        if all(includes_zero):
+        # The interval widens with M: find the smallest grid value whose interval
+        # includes zero, starting from M=0 whether or not it is on the grid
+        if not self.fit(results, M=0).is_significant:
             # Never significant - breakdown at 0
             return 0.0
 
-        # Find first transition point
-        for i, (inc, M) in enumerate(zip(includes_zero, M_values)):
-            if inc and (i == 0 or not includes_zero[i - 1]):
-                # Binary search between M_values[i-1] and M_values[i]
-                if i == 0:
-                    return 0.0
-
-                lo, hi = M_values[i - 1], M_values[i]
+        lo = 0.0
+        for i in np.argsort(M_values, kind="stable"):
+            ci_lb, ci_ub = ci_list[i]
+            if ci_lb > 0 or ci_ub < 0:
+                lo = float(M_values[i])
+                continue
 
-                for _ in range(20):  # 20 iterations for precision
-                    mid = (lo + hi) / 2
-                    result = self.fit(results, M=mid)
-                    if result.ci_lb <= 0 <= result.ci_ub:
-                        hi = mid
-                    else:
-                        lo = mid
+            hi = float(M_values[i])
+            for _ in range(20):  # 20 iterations for precision
+                mid = (lo + hi) / 2
+                if self.fit(results, M=mid).is_significant:
+                    lo = mid
+                else:
+                    hi = mid
 
-                return (lo + hi) / 2
+            return (lo + hi) / 2
 
+        # Always significant - no breakdown
         return None
 
     def breakdown_value(
@@ -1414,25 +1408,23 @@ class HonestDiD:
             Breakdown value, or None if effect is always significant.
         """
         # Check at M=0
-        result_0 = self.fit(results, M=0)
-        if result_0.ci_lb <= 0 <= result_0.ci_ub:
+        if not self.fit(results, M=0).is_significant:
             return 0.0
 
-        # Check if significant even for large M
-        result_large = self.fit(results, M=10)
-        if not (result_large.ci_lb <= 0 <= result_large.ci_ub):
-            return None  # Always significant
-
-        # Binary search
+        # Find a value large enough for the interval to include zero
         lo, hi = 0.0, 10.0
+        while self.fit(results, M=hi).is_significant:
+            if hi > 1e9:
+                return None  # Always significant
+            lo, hi = hi, 10 * hi
 
+        # Binary search
         while hi - lo > tol:
             mid = (lo + hi) / 2
-            result = self.fit(results, M=mid)
-            if result.ci_lb <= 0 <= result.ci_ub:
-                hi = mid
-            else:
+            if self.fit(results, M=mid).is_significant:
                 lo = mid
+            else:
+                hi = mid
 
         return (lo + hi) / 2
 
-- 
2.43.0


From 7508324dfc881bc3238fb17e8b246e6967aaf93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 41/94] fix: PreTrendsPower finds the pre-period coefficients
 whatever the treatment column is called

---
 diff_diff/pretrends.py | 51 ++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 24 deletions(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index d9bc1c6..fbf1bc3 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -569,11 +569,18 @@ class PreTrendsPower:
             # Only include periods with actual estimated coefficients
             # (excludes the reference period which is omitted from estimation)
             if hasattr(results, 'coefficients') and results.coefficients:
-                # Find which pre-periods have estimated coefficients
-                estimated_pre_periods = [
-                    p for p in all_pre_periods
-                    if f"treated:period_{p}" in results.coefficients
-                ]
+                # Find which pre-periods have estimated coefficients: these are the
+                # interactions "<treatment column>:period_<p>"
+                coef_keys = list(results.coefficients.keys())
+                keys = {}
+                for p in all_pre_periods:
+                    for key in coef_keys:
+                        if str(key).endswith(f":period_{p}") and np.isfinite(
+                            results.coefficients[key]
+                        ):
+                            keys[p] = key
+                            break
+                estimated_pre_periods = [p for p in all_pre_periods if p in keys]
 
                 if len(estimated_pre_periods) == 0:
                     raise ValueError(
@@ -586,35 +593,31 @@ class PreTrendsPower:
 
                 # Extract effects for estimated periods only
                 effects = np.array([
-                    results.coefficients[f"treated:period_{p}"]
+                    results.coefficients[keys[p]]
                     for p in estimated_pre_periods
                 ])
 
-                # Extract SEs - try period_effects first, fall back to avg_se
+                # Extract vcov for estimated pre-periods (one row per coefficient)
+                vcov = None
+                if results.vcov is not None:
+                    pre_indices = [coef_keys.index(keys[p]) for p in estimated_pre_periods]
+                    if results.vcov.shape[0] > max(pre_indices):
+                        vcov = results.vcov[np.ix_(pre_indices, pre_indices)]
+
+                # Extract SEs - try period_effects first, then the covariance,
+                # and fall back to avg_se
                 ses = []
-                for p in estimated_pre_periods:
+                for i, p in enumerate(estimated_pre_periods):
                     if p in results.period_effects:
                         ses.append(results.period_effects[p].se)
+                    elif vcov is not None:
+                        ses.append(np.sqrt(vcov[i, i]))
                     else:
                         ses.append(results.avg_se)
                 ses = np.array(ses)
 
-                # Extract vcov for estimated pre-periods
-                # Build mapping from period to vcov index
-                if results.vcov is not None:
-                    # Get ordered list of all coefficient keys
-                    coef_keys = list(results.coefficients.keys())
-                    pre_indices = [
-                        coef_keys.index(f"treated:period_{p}")
-                        for p in estimated_pre_periods
-                        if f"treated:period_{p}" in coef_keys
-                    ]
-                    if len(pre_indices) == n_pre and results.vcov.shape[0] > max(pre_indices):
-                        vcov = results.vcov[np.ix_(pre_indices, pre_indices)]
-                    else:
-                        # Fall back to diagonal
-                        vcov = np.diag(ses ** 2)
-                else:
+                if vcov is None:
+                    # Fall back to diagonal
                     vcov = np.diag(ses ** 2)
             else:
                 # No coefficients available - try period_effects for pre-periods
-- 
2.43.0


From a038c49a0f5aaa0099c4ffadfa066d60471077a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 42/94] fix: pre-trends power_at uses the fitted custom
 violation pattern

---
 diff_diff/pretrends.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index fbf1bc3..2f99f69 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -73,6 +73,8 @@ class PreTrendsPowerResults:
         Standard errors of pre-period effects.
     vcov : np.ndarray
         Variance-covariance matrix of pre-period effects.
+    violation_weights : np.ndarray, optional
+        Violation pattern (unit L2 norm) that the magnitudes refer to.
     """
 
     power: float
@@ -89,6 +91,7 @@ class PreTrendsPowerResults:
     pre_period_ses: np.ndarray = field(repr=False)
     vcov: np.ndarray = field(repr=False)
     original_results: Optional[Any] = field(default=None, repr=False)
+    violation_weights: Optional[np.ndarray] = field(default=None, repr=False)
 
     def __repr__(self) -> str:
         return (
@@ -225,7 +228,9 @@ class PreTrendsPowerResults:
 
         # Reconstruct violation weights based on violation type
         # Must match PreTrendsPower._get_violation_weights() exactly
-        if self.violation_type == "linear":
+        if self.violation_weights is not None:
+            weights = np.asarray(self.violation_weights, dtype=float)
+        elif self.violation_type == "linear":
             # Linear trend: weights decrease toward treatment
             # [n-1, n-2, ..., 1, 0] for n pre-periods
             weights = np.arange(-n_pre + 1, 1, dtype=float)
@@ -236,7 +241,7 @@ class PreTrendsPowerResults:
             weights = np.zeros(n_pre)
             weights[-1] = 1.0
         else:
-            # For custom, we can't reconstruct - use equal weights as fallback
+            # For custom without stored weights, use equal weights as fallback
             weights = np.ones(n_pre)
 
         # Normalize weights to unit L2 norm
@@ -910,6 +915,7 @@ class PreTrendsPower:
             pre_period_ses=ses,
             vcov=vcov,
             original_results=results,
+            violation_weights=weights,
         )
 
     def power_at(
-- 
2.43.0


From 38ae160b754db8f0dc114294edd77b67e39fc752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:34 +0000
Subject: [PATCH 43/94] fix: pre-trends power curve covers the detectable
 violations in any unit; targets below the level need no violation

---
 diff_diff/pretrends.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index 2f99f69..fb23648 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -804,6 +804,10 @@ class PreTrendsPower:
         """
         n_pre = len(weights)
 
+        # Without any violation the test already rejects with probability alpha
+        if self.target_power <= self.alpha:
+            return 0.0
+
         # Critical value
         critical_value = stats.chi2.ppf(1 - self.alpha, df=n_pre)
 
@@ -980,7 +984,7 @@ class PreTrendsPower:
 
         # Create M grid if not provided
         if M_grid is None:
-            max_M = min(2.5 * mdv if np.isfinite(mdv) else 10 * np.max(ses), 100)
+            max_M = 2.5 * mdv if np.isfinite(mdv) else 10 * np.max(ses)
             M_grid = np.linspace(0, max_M, n_points)
         else:
             M_grid = np.asarray(M_grid)
-- 
2.43.0


From 8bf02b0deaa1f9a5489e24e994394502c9c3509a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:41 +0000
Subject: [PATCH 44/94] fix: PreTrendsPower uses the joint covariance of
 Callaway-Sant'Anna pre-period effects

---
 diff_diff/pretrends.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index fb23648..9f3d3ca 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -681,6 +681,14 @@ class PreTrendsPower:
                 effects = np.array([pre_effects[t]['effect'] for t in pre_periods])
                 ses = np.array([pre_effects[t]['se'] for t in pre_periods])
                 vcov = np.diag(ses ** 2)
+                joint = results.event_study_vcov
+                if joint is not None and set(pre_periods) <= set(joint.index):
+                    # Effects are correlated through shared units: the reported
+                    # standard errors with the correlations of their joint covariance
+                    V = joint.loc[pre_periods, pre_periods].to_numpy()
+                    sd = np.sqrt(np.diag(V))
+                    if np.all(sd > 0):
+                        vcov = np.outer(ses, ses) * V / np.outer(sd, sd)
 
                 return effects, ses, vcov, n_pre
         except ImportError:
-- 
2.43.0


From 75fe12166f6652e384f2eef9a045384cd807ea26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:47 +0000
Subject: [PATCH 45/94] fix: PreTrendsPower uses the joint covariance of
 Sun-Abraham pre-period effects

---
 diff_diff/pretrends.py   |  8 ++++++++
 diff_diff/sun_abraham.py | 16 ++++++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index 9f3d3ca..0db558f 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -716,6 +716,14 @@ class PreTrendsPower:
                 effects = np.array([pre_effects[t]['effect'] for t in pre_periods])
                 ses = np.array([pre_effects[t]['se'] for t in pre_periods])
                 vcov = np.diag(ses ** 2)
+                joint = results.event_study_vcov
+                if joint is not None and set(pre_periods) <= set(joint.index):
+                    # Same regression: the reported standard errors with the
+                    # correlations of their joint covariance
+                    V = joint.loc[pre_periods, pre_periods].to_numpy()
+                    sd = np.sqrt(np.diag(V))
+                    if np.all(sd > 0):
+                        vcov = np.outer(ses, ses) * V / np.outer(sd, sd)
 
                 return effects, ses, vcov, n_pre
         except ImportError:
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index cc7791d..f623656 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -82,6 +82,9 @@ class SunAbrahamResults:
     cohort_effects: Optional[Dict[Tuple[Any, int], Dict[str, Any]]] = field(
         default=None, repr=False
     )
+    # Joint analytical covariance of the event-study effects, labelled by
+    # relative period
+    event_study_vcov: Optional[pd.DataFrame] = field(default=None, repr=False)
 
     def __repr__(self) -> str:
         """Concise string representation."""
@@ -591,6 +594,18 @@ class SunAbraham:
             coef_index_map,
         )
 
+        # Joint covariance of the event-study effects (delta method)
+        W = np.zeros((len(cohort_weights), len(vcov_cohort)))
+        for i, (e, weights) in enumerate(cohort_weights.items()):
+            for g, w in weights.items():
+                W[i, coef_index_map[(g, e)]] = w
+        used = np.any(W != 0, axis=0)
+        event_study_vcov = pd.DataFrame(
+            W[:, used] @ vcov_cohort[np.ix_(used, used)] @ W[:, used].T,
+            index=list(cohort_weights),
+            columns=list(cohort_weights),
+        )
+
         # Compute overall ATT (average of post-treatment effects)
         overall_att, overall_se = self._compute_overall_att(
             df,
@@ -674,6 +689,7 @@ class SunAbraham:
             control_group=self.control_group,
             bootstrap_results=bootstrap_results,
             cohort_effects=cohort_effects_storage,
+            event_study_vcov=event_study_vcov,
         )
 
         self.is_fitted_ = True
-- 
2.43.0


From 6c8a2cc62e602ab0c4e31900518e5bc5801038b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 46/94] fix: one-sided power analysis uses the direction of the
 alternative for MDE and sample size

---
 diff_diff/power.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index b8aa10d..d048429 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -574,7 +574,9 @@ class PowerAnalysis:
     def _compute_mde_from_se(self, se: float) -> float:
         """Compute MDE given standard error."""
         z_alpha, z_beta = self._get_critical_values()
-        return (z_alpha + z_beta) * se
+        mde = (z_alpha + z_beta) * se
+        # A lower-tailed test detects negative effects
+        return -mde if self.alternative == "less" else mde
 
     def mde(
         self,
@@ -658,6 +660,12 @@ class PowerAnalysis:
         if effect_size == 0:
             return MAX_SAMPLE_SIZE  # Can't detect zero effect
 
+        # A one-sided test never detects an effect in the other direction
+        if (self.alternative == "greater" and effect_size < 0) or (
+            self.alternative == "less" and effect_size > 0
+        ):
+            return MAX_SAMPLE_SIZE
+
         z_alpha, z_beta = self._get_critical_values()
 
         T = n_pre + n_post
-- 
2.43.0


From 2dfac6b69a8d6a8334fd871579b5274f3e72341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 47/94] fix: required sample size reaches the target power with
 whole units; sample-size curve is never empty

---
 diff_diff/power.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index d048429..0f83489 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -700,7 +700,24 @@ class PowerAnalysis:
         if np.isinf(n_total):
             return MAX_SAMPLE_SIZE
 
-        return max(4, int(np.ceil(n_total)))  # At least 4 units
+        n_total = max(4, int(np.ceil(n_total)))  # At least 4 units
+        # Whole units cannot always be split in the requested proportion: add
+        # units until the actual allocation reaches the target
+        while n_total < MAX_SAMPLE_SIZE:
+            n_treated, n_control = self._allocate(n_total, treat_frac)
+            variance = self._compute_variance(
+                n_treated, n_control, n_pre, n_post, sigma, rho, design
+            )
+            if (z_alpha + z_beta) ** 2 * variance <= effect_size**2 * (1 + 1e-12):
+                break
+            n_total += 1
+        return n_total
+
+    @staticmethod
+    def _allocate(n_total: int, treat_frac: float) -> Tuple[int, int]:
+        """Split a total sample into treated and control units (at least 2 each)."""
+        n_treated = max(2, int(np.ceil(n_total * treat_frac - 1e-9)))
+        return n_treated, max(2, n_total - n_treated)
 
     def sample_size(
         self,
@@ -747,8 +764,7 @@ class PowerAnalysis:
             effect_size, sigma, n_pre, n_post, rho, design, treat_frac
         )
 
-        n_treated = max(2, int(np.ceil(n_total * treat_frac)))
-        n_control = max(2, n_total - n_treated)
+        n_treated, n_control = self._allocate(n_total, treat_frac)
         n_total = n_treated + n_control
 
         # Compute actual power achieved
@@ -879,13 +895,12 @@ class PowerAnalysis:
 
         if sample_sizes is None:
             min_n = max(10, required.required_n // 4)
-            max_n = required.required_n * 2
+            max_n = max(min_n, required.required_n * 2)
             sample_sizes = list(range(min_n, max_n + 1, max(1, (max_n - min_n) // 50)))
 
         powers = []
         for n in sample_sizes:
-            n_treated = max(2, int(n * treat_frac))
-            n_control = max(2, n - n_treated)
+            n_treated, n_control = self._allocate(n, treat_frac)
             result = self.power(
                 effect_size=effect_size,
                 n_treated=n_treated,
-- 
2.43.0


From 7e04946668457bbc37b22cc47038fb4315d126a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 48/94] fix: simulate_power supports staggered estimators and
 gives TWFE the treated-observation indicator

---
 diff_diff/power.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index 0f83489..5f2263d 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -1105,6 +1105,9 @@ def simulate_power(
                         **est_kwargs
                     )
                 elif estimator_name == "TwoWayFixedEffects":
+                    # The treatment regressor is the treated-observation indicator
+                    if "post" in data.columns:
+                        data = data.assign(treated=data["treated"] * data["post"])
                     result = estimator.fit(
                         data,
                         outcome="outcome",
@@ -1123,13 +1126,14 @@ def simulate_power(
                         post_periods=post_periods,
                         **est_kwargs
                     )
-                elif estimator_name == "CallawaySantAnna":
-                    # Need to create first_treat column for staggered
-                    # For standard generate_did_data, convert to first_treat format
-                    data = data.copy()
-                    data["first_treat"] = np.where(
-                        data["treated"] == 1, treatment_period, 0
-                    )
+                elif estimator_name in ("CallawaySantAnna", "SunAbraham"):
+                    # Need a first_treat column: staggered generators provide it,
+                    # for standard generate_did_data convert to first_treat format
+                    if "first_treat" not in data.columns:
+                        data = data.copy()
+                        data["first_treat"] = np.where(
+                            data["treated"] == 1, treatment_period, 0
+                        )
                     result = estimator.fit(
                         data,
                         outcome="outcome",
@@ -1149,10 +1153,14 @@ def simulate_power(
                     )
 
                 # Extract results
-                att = result.att if hasattr(result, 'att') else result.avg_att
-                se = result.se if hasattr(result, 'se') else result.avg_se
-                p_val = result.p_value if hasattr(result, 'p_value') else result.avg_p_value
-                ci = result.conf_int if hasattr(result, 'conf_int') else result.avg_conf_int
+                if hasattr(result, 'overall_att'):
+                    att, se = result.overall_att, result.overall_se
+                    p_val, ci = result.overall_p_value, result.overall_conf_int
+                else:
+                    att = result.att if hasattr(result, 'att') else result.avg_att
+                    se = result.se if hasattr(result, 'se') else result.avg_se
+                    p_val = result.p_value if hasattr(result, 'p_value') else result.avg_p_value
+                    ci = result.conf_int if hasattr(result, 'conf_int') else result.avg_conf_int
 
                 estimates.append(att)
                 ses.append(se)
-- 
2.43.0


From beda26fdf180a98ce4d7e13e7e86e5a307156c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:51 +0000
Subject: [PATCH 49/94] fix: power analysis refuses impossible designs

---
 diff_diff/power.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index 5f2263d..5e84f9c 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -455,6 +455,15 @@ class PowerAnalysis:
         float
             Variance of the DiD estimator.
         """
+        if n_treated <= 0 or n_control <= 0:
+            raise ValueError(
+                f"n_treated and n_control must be positive, got {n_treated} and {n_control}"
+            )
+        if sigma < 0:
+            raise ValueError(f"sigma must be non-negative, got {sigma}")
+        if design == "panel" and not -1 / (n_pre + n_post - 1) <= rho <= 1:
+            raise ValueError(f"rho={rho} is not a possible intra-cluster correlation")
+
         if design == "basic_did":
             # For basic 2x2 DiD, each cell has n_treated/2 or n_control/2 obs
             # assuming balanced design
@@ -760,6 +769,9 @@ class PowerAnalysis:
         T = n_pre + n_post
         design = "panel" if T > 2 else "basic_did"
 
+        if not 0 < treat_frac < 1:
+            raise ValueError(f"treat_frac must be between 0 and 1, got {treat_frac}")
+
         n_total = self._compute_required_n(
             effect_size, sigma, n_pre, n_post, rho, design, treat_frac
         )
-- 
2.43.0


From ee9b6331953850963b975d05f5b01ef730d1581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:16 +0000
Subject: [PATCH 50/94] fix: required sample size of panel designs uses the
 panel variance (was doubled)

---
 diff_diff/power.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index 5e84f9c..1807c77 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -698,10 +698,10 @@ class PowerAnalysis:
             design_effect = 1 + (T - 1) * rho
 
             # Var = sigma^2 * (1/n_t + 1/n_c) * design_effect / T
-            # For balanced: Var = 2 * sigma^2 / N * design_effect / T
+            #     = sigma^2 / N * (1/(p*(1-p))) * design_effect / T
 
             n_total = (
-                2 * sigma**2 * (z_alpha + z_beta)**2 * design_effect
+                sigma**2 * (z_alpha + z_beta)**2 * design_effect
                 / (effect_size**2 * treat_frac * (1 - treat_frac) * T)
             )
 
-- 
2.43.0


From 4fa77f48e8184a679b94b464ae6cf753dcf6c9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 51/94] fix: placebo timing and group tests report intervals at
 the requested level

---
 diff_diff/diagnostics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index b66a58a..48330ed 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -416,7 +416,7 @@ def placebo_timing_test(
     pre_data["_fake_post"] = (pre_data[time] >= fake_treatment_period).astype(int)
 
     # Fit DiD on pre-treatment data with fake post
-    did = DifferenceInDifferences(**estimator_kwargs)
+    did = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
     results = did.fit(
         pre_data,
         outcome=outcome,
@@ -427,7 +427,7 @@ def placebo_timing_test(
     # Also fit on full data for comparison
     data_with_post = data.copy()
     data_with_post["_post"] = data_with_post[time].isin(post_periods).astype(int)
-    did_full = DifferenceInDifferences(**estimator_kwargs)
+    did_full = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
     results_full = did_full.fit(
         data_with_post,
         outcome=outcome,
@@ -508,7 +508,7 @@ def placebo_group_test(
     fake_data["_post"] = fake_data[time].isin(post_periods).astype(int)
 
     # Fit DiD
-    did = DifferenceInDifferences(**estimator_kwargs)
+    did = DifferenceInDifferences(alpha=alpha, **estimator_kwargs)
     results = did.fit(
         fake_data,
         outcome=outcome,
-- 
2.43.0


From a926262997aa124b8b5360e5cd9da573a5901350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:02 +0000
Subject: [PATCH 52/94] fix: fake-group placebo test uses never-treated units
 only

---
 diff_diff/diagnostics.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 48330ed..b1814e8 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -317,6 +317,7 @@ def run_placebo_test(
             fake_treated_units=fake_treatment_group,
             post_periods=post_periods,
             alpha=alpha,
+            treatment=treatment,
             **estimator_kwargs
         )
 
@@ -459,6 +460,7 @@ def placebo_group_test(
     fake_treated_units: List[Any],
     post_periods: Optional[List[Any]] = None,
     alpha: float = 0.05,
+    treatment: Optional[str] = None,
     **estimator_kwargs
 ) -> PlaceboTestResults:
     """
@@ -484,6 +486,10 @@ def placebo_group_test(
         List of post-treatment period values.
     alpha : float, default=0.05
         Significance level.
+    treatment : str, optional
+        Treatment indicator column. If given, units that are ever treated are
+        left out, so that only never-treated data is used. Without it, ``data``
+        must contain never-treated units only.
     **estimator_kwargs
         Arguments passed to DifferenceInDifferences.
 
@@ -495,6 +501,15 @@ def placebo_group_test(
     if fake_treated_units is None or len(fake_treated_units) == 0:
         raise ValueError("fake_treated_units must be a non-empty list")
 
+    if treatment is not None:
+        ever_treated = data.groupby(unit)[treatment].transform("max") == 1
+        data = data[~ever_treated]
+    unknown = [u for u in fake_treated_units if u not in set(data[unit])]
+    if unknown:
+        raise ValueError(
+            f"fake_treated_units must be never-treated units of the data, got {unknown}"
+        )
+
     all_periods = sorted(data[time].unique())
 
     # Infer post periods if not provided
-- 
2.43.0


From 3482addd2052eb3442e1883a2ec7ca13eba7c580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:02 +0000
Subject: [PATCH 53/94] fix: permutation test counts ties, whole-unit treatment
 status and undefined estimates correctly

---
 diff_diff/diagnostics.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index b1814e8..4ee3994 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -609,7 +609,7 @@ def permutation_test(
     # Get unit-level treatment assignment
     unit_treatment = (
         data.groupby(unit)[treatment]
-        .first()
+        .max()
         .reset_index()
     )
     units = unit_treatment[unit].values
@@ -665,11 +665,17 @@ def permutation_test(
                 stacklevel=2
             )
 
-    # Compute p-value: proportion of |permuted| >= |original|
-    p_value = np.mean(np.abs(valid_effects) >= np.abs(original_att))
-
-    # Ensure p-value is at least 1/(n_permutations + 1)
-    p_value = max(p_value, 1 / (len(valid_effects) + 1))
+    if np.isnan(original_att):
+        # Nothing to compare the permuted estimates with
+        p_value = np.nan
+    else:
+        # Compute p-value: proportion of |permuted| >= |original|, where estimates
+        # that differ by rounding only (the same assignment drawn again) are ties
+        rounding = 1e-9 * max(np.abs(original_att), np.abs(valid_effects).max())
+        p_value = np.mean(np.abs(valid_effects) >= np.abs(original_att) - rounding)
+
+        # Ensure p-value is at least 1/(n_permutations + 1)
+        p_value = max(p_value, 1 / (len(valid_effects) + 1))
 
     # Compute SE and CI from permutation distribution
     se = np.std(valid_effects, ddof=1)
-- 
2.43.0


From a1f7f7818283313609c7f927f1a7da301b667b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:02 +0000
Subject: [PATCH 54/94] fix: parallel-trends checks leave an unestimable slope
 error undefined and count tied permutations

---
 diff_diff/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 99ed900..26ed366 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -632,6 +632,10 @@ def check_parallel_trends(
 
         slope = np.sum((time_norm - mean_t) * (outcome_values - mean_y)) / time_var
 
+        # Two observations leave nothing to estimate the noise from
+        if n == 2:
+            return slope, np.nan
+
         # Compute standard error of slope
         y_hat = mean_y + slope * (time_norm - mean_t)
         residuals = outcome_values - y_hat
@@ -782,8 +786,8 @@ def check_parallel_trends_robust(
         perm_control = all_changes[perm_idx[n_treated:]]
         permuted_distances[i] = stats.wasserstein_distance(perm_treated, perm_control)
 
-    # P-value: proportion of permuted distances >= observed
-    wasserstein_p = np.mean(permuted_distances >= wasserstein_dist)
+    # P-value: proportion of permuted distances >= observed (up to rounding)
+    wasserstein_p = np.mean(permuted_distances >= wasserstein_dist * (1 - 1e-9))
 
     # Kolmogorov-Smirnov test
     ks_stat, ks_p = stats.ks_2samp(treated_changes, control_changes)
-- 
2.43.0


From 0265f09d6174d1ba8f755778f74e4289fbf6e6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:45 +0000
Subject: [PATCH 55/94] fix: placebo suite runs the permutation and
 leave-one-out tests on the post indicator

---
 diff_diff/diagnostics.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 4ee3994..9fcbd91 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -239,7 +239,9 @@ def run_placebo_test(
     fake_treatment_group : list, optional
         For "fake_group": List of control unit IDs to designate as fake treated.
     post_periods : list, optional
-        List of post-treatment periods. Required for fake_timing test.
+        List of post-treatment periods. Required for fake_timing test. For
+        "permutation" and "leave_one_out", needed unless ``time`` is already a
+        0/1 post indicator.
     n_permutations : int, default=1000
         For "permutation": Number of random treatment assignments.
     alpha : float, default=0.05
@@ -273,6 +275,7 @@ def run_placebo_test(
     ...     data, outcome='sales', treatment='treated', time='period',
     ...     unit='unit_id',
     ...     test_type='permutation',
+    ...     post_periods=[2, 3, 4],
     ...     n_permutations=1000,
     ...     seed=42
     ... )
@@ -321,7 +324,13 @@ def run_placebo_test(
             **estimator_kwargs
         )
 
-    elif test_type == "permutation":
+    # The remaining tests re-estimate the two-period model: with post_periods
+    # given, time is a period column to be turned into the post indicator
+    if post_periods is not None:
+        data = data.assign(_post=data[time].isin(post_periods).astype(int))
+        time = "_post"
+
+    if test_type == "permutation":
         if unit is None:
             raise ValueError("unit is required for permutation test")
         return permutation_test(
@@ -905,13 +914,16 @@ def run_all_placebo_tests(
                 "period": period
             }
 
+    # The permutation and leave-one-out tests need the post indicator
+    data_with_post = data.assign(_post=data[time].isin(post_periods).astype(int))
+
     # Permutation test
     try:
         perm_result = permutation_test(
-            data=data,
+            data=data_with_post,
             outcome=outcome,
             treatment=treatment,
-            time=time,
+            time="_post",
             unit=unit,
             n_permutations=n_permutations,
             alpha=alpha,
@@ -929,10 +941,10 @@ def run_all_placebo_tests(
     # Leave-one-out test
     try:
         loo_result = leave_one_out_test(
-            data=data,
+            data=data_with_post,
             outcome=outcome,
             treatment=treatment,
-            time=time,
+            time="_post",
             unit=unit,
             alpha=alpha,
             **estimator_kwargs
-- 
2.43.0


From fb9db18b6ad17520a72f5d7c0afb989c66537056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:47 +0000
Subject: [PATCH 56/94] fix: indicator helpers accept any list of values and
 match dates given as strings

---
 diff_diff/prep.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index 3f80cfe..91906e3 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -99,8 +99,8 @@ def make_treatment_indicator(
         raise ValueError(f"Column '{column}' not found in DataFrame.")
 
     if treated_values is not None:
-        # Convert single value to list
-        if not isinstance(treated_values, (list, tuple, set)):
+        # Convert single value to list (arrays, Series, ranges, ... are lists of values)
+        if not pd.api.types.is_list_like(treated_values):
             treated_values = [treated_values]
         df[new_column] = df[column].isin(treated_values).astype(int)
     else:
@@ -175,9 +175,11 @@ def make_post_indicator(
         raise ValueError(f"Column '{time_column}' not found in DataFrame.")
 
     if post_periods is not None:
-        # Convert single value to list
-        if not isinstance(post_periods, (list, tuple, set)):
+        # Convert single value to list (arrays, Series, ranges, ... are lists of values)
+        if not pd.api.types.is_list_like(post_periods):
             post_periods = [post_periods]
+        if pd.api.types.is_datetime64_any_dtype(df[time_column].dtype):
+            post_periods = [pd.to_datetime(p) for p in post_periods]
         df[new_column] = df[time_column].isin(post_periods).astype(int)
     else:
         # Use treatment_start - convert to same type as column if needed
-- 
2.43.0


From 8515e8cab16430e6f16e3a27ce4274f76f500ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 57/94] fix: event time is NaN for never-treated units of any
 dtype and never wraps around

---
 diff_diff/prep.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index 91906e3..647a24b 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -705,15 +705,17 @@ def create_event_time(
     if treatment_time_column not in df.columns:
         raise ValueError(f"Column '{treatment_time_column}' not found in DataFrame.")
 
-    # Calculate event time
-    df[new_column] = df[time_column] - df[treatment_time_column]
-
-    # Handle never-treated (inf or NaN in treatment time)
+    # Identify never-treated (inf or NaN in treatment time), whatever the dtype
     col = df[treatment_time_column]
-    if pd.api.types.is_numeric_dtype(col):
-        never_treated = col.isna() | np.isinf(col)
-    else:
-        never_treated = col.isna()
+    never_treated = col.isna() | col.isin([np.inf, -np.inf])
+
+    # Calculate event time (small or unsigned integer dtypes would wrap around)
+    def widen(x: pd.Series) -> pd.Series:
+        if isinstance(x.dtype, np.dtype) and x.dtype.kind in "iu":
+            return x.astype("int64")
+        return x
+
+    df[new_column] = widen(df[time_column]) - widen(col)
     df.loc[never_treated, new_column] = np.nan
 
     return df
-- 
2.43.0


From 8f2b307a256f3778c2da385017b14499765f94db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 58/94] fix: wide_to_long refuses repeated value columns
 instead of inventing periods

---
 diff_diff/prep.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index 647a24b..99ab894 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -258,6 +258,11 @@ def wide_to_long(
         if col not in data.columns:
             raise ValueError(f"Column '{col}' not found in DataFrame.")
 
+    if len(set(value_columns)) != len(value_columns) or id_column in value_columns:
+        raise ValueError(
+            "value_columns must be distinct and must not include the id_column."
+        )
+
     if time_values is None:
         time_values = list(range(len(value_columns)))
 
-- 
2.43.0


From f015ac01d900861bfd6057e656814bffc9348816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 59/94] fix: validate_did_data reports mixed-type treatment
 values instead of crashing

---
 diff_diff/prep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index 99ab894..e91db28 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -474,14 +474,14 @@ def validate_did_data(
     if not set(treatment_vals).issubset({0, 1}):
         errors.append(
             f"Treatment column '{treatment}' must be binary (0 or 1). "
-            f"Found values: {sorted(treatment_vals)}"
+            f"Found values: {sorted(treatment_vals, key=str)}"
         )
 
     # Check time is binary for simple DiD
     time_vals = data[time].dropna().unique()
     if len(time_vals) == 2 and not set(time_vals).issubset({0, 1}):
         warnings.append(
-            f"Time column '{time}' has 2 values but they are not 0 and 1: {sorted(time_vals)}. "
+            f"Time column '{time}' has 2 values but they are not 0 and 1: {sorted(time_vals, key=str)}. "
             "For basic DiD, use 0 for pre-treatment and 1 for post-treatment."
         )
 
-- 
2.43.0


From 19a5d29abb7b1dfb609affd5d1b0b95a15794a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:03 +0000
Subject: [PATCH 60/94] fix: control ranking handles time-varying treatment,
 missing data, unavailable required units and row order

---
 diff_diff/prep.py | 43 ++++++++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index e91db28..91af645 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -952,7 +952,8 @@ def rank_control_units(
     if treated_units is not None:
         treated_set = set(treated_units)
     elif treatment_column is not None:
-        unit_treatment = data.groupby(unit_column)[treatment_column].first()
+        # A unit is treated if it ever is, wherever its treated rows sit
+        unit_treatment = data.groupby(unit_column)[treatment_column].max()
         treated_set = set(unit_treatment[unit_treatment == 1].index)
     elif suggest_treatment_candidates:
         # Treatment candidate discovery mode - no treated units
@@ -989,6 +990,7 @@ def rank_control_units(
     # -------------------------------------------------------------------------
     pre_data = data[data[time_column].isin(pre_periods)]
     pivot = pre_data.pivot(index=time_column, columns=unit_column, values=outcome_column)
+    pivot = pivot.dropna(axis=1, how="all")  # units without any pre-treatment outcome
 
     # Filter to pre_periods that exist in data
     valid_pre_periods = [p for p in pre_periods if p in pivot.index]
@@ -1000,6 +1002,11 @@ def rank_control_units(
     if len(control_candidates) == 0:
         raise ValueError("No control units found in pre-treatment data.")
 
+    if require_units:
+        unavailable = [u for u in require_units if u not in control_candidates]
+        if unavailable:
+            raise ValueError(f"Required units are not available as controls: {unavailable}")
+
     # Control outcomes: shape (n_pre_periods, n_control_candidates)
     Y_control = pivot.loc[valid_pre_periods, control_candidates].values.astype(float)
 
@@ -1013,9 +1020,18 @@ def rank_control_units(
     # Compute outcome trend scores
     # -------------------------------------------------------------------------
     # Synthetic weights (higher = better match)
-    synthetic_weights = compute_synthetic_weights(
-        Y_control, Y_treated_mean, lambda_reg=lambda_reg
-    )
+    # (weights can only be fitted on units observed in every usable period)
+    usable_periods = ~np.isnan(Y_treated_mean)
+    complete = ~np.isnan(Y_control[usable_periods]).any(axis=0)
+    if complete.any():
+        synthetic_weights = np.zeros(len(control_candidates))
+        synthetic_weights[complete] = compute_synthetic_weights(
+            Y_control[np.ix_(usable_periods, complete)],
+            Y_treated_mean[usable_periods],
+            lambda_reg=lambda_reg,
+        )
+    else:
+        synthetic_weights = np.full(len(control_candidates), np.nan)
 
     # RMSE for each control vs treated mean (use nanmean to handle missing data)
     rmse_scores = []
@@ -1025,8 +1041,8 @@ def rank_control_units(
         rmse_scores.append(rmse)
 
     # Convert RMSE to similarity score (lower RMSE = higher score)
-    max_rmse = max(rmse_scores) if rmse_scores else 1.0
-    min_rmse = min(rmse_scores) if rmse_scores else 0.0
+    max_rmse = np.nanmax(rmse_scores) if rmse_scores else 1.0
+    min_rmse = np.nanmin(rmse_scores) if rmse_scores else 0.0
     rmse_range = max_rmse - min_rmse
 
     if rmse_range < 1e-10:
@@ -1044,7 +1060,7 @@ def rank_control_units(
         cov_data = pre_data.groupby(unit_column)[covariates].mean()
 
         # Treated covariate profile (mean across treated units)
-        treated_cov = cov_data.loc[list(treated_set)].mean()
+        treated_cov = cov_data.loc[treated_list].mean()
 
         # Standardize covariates
         cov_mean = cov_data.mean()
@@ -1060,8 +1076,8 @@ def rank_control_units(
         )
 
         # Convert distance to similarity score (min-max normalization)
-        max_dist = covariate_distances.max() if len(covariate_distances) > 0 else 1.0
-        min_dist = covariate_distances.min() if len(covariate_distances) > 0 else 0.0
+        max_dist = np.nanmax(covariate_distances) if len(covariate_distances) > 0 else 1.0
+        min_dist = np.nanmin(covariate_distances) if len(covariate_distances) > 0 else 0.0
         dist_range = max_dist - min_dist
 
         if dist_range < 1e-10:
@@ -1170,6 +1186,7 @@ def _suggest_treatment_candidates(
     """
     all_units = list(data[unit_column].unique())
     pre_data = data[data[time_column].isin(pre_periods)]
+    period_position = {p: i for i, p in enumerate(sorted(pre_periods))}
 
     candidate_info = []
 
@@ -1183,10 +1200,10 @@ def _suggest_treatment_candidates(
         avg_outcome = unit_data[outcome_column].mean()
 
         # Trend (simple linear regression slope)
-        times = unit_data[time_column].values
-        outcomes = unit_data[outcome_column].values
-        if len(times) > 1:
-            times_norm = np.arange(len(times))
+        observed = unit_data.dropna(subset=[outcome_column])
+        outcomes = observed[outcome_column].values
+        times_norm = observed[time_column].map(period_position).values.astype(float)
+        if len(times_norm) > 1:
             try:
                 slope = np.polyfit(times_norm, outcomes, 1)[0]
             except (np.linalg.LinAlgError, ValueError):
-- 
2.43.0


From 62f61a583305373df7db175892b812cceb6b555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:29 +0000
Subject: [PATCH 61/94] fix: control ranking leaves the score of a unit without
 data undefined

---
 diff_diff/prep.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index 91af645..f185f3d 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -1047,7 +1047,7 @@ def rank_control_units(
 
     if rmse_range < 1e-10:
         # All controls have identical/similar pre-trends (includes single control case)
-        outcome_trend_scores = [1.0] * len(rmse_scores)
+        outcome_trend_scores = [np.nan if np.isnan(rmse) else 1.0 for rmse in rmse_scores]
     else:
         # Normalize so best control gets 1.0, worst gets 0.0
         outcome_trend_scores = [1 - (rmse - min_rmse) / rmse_range for rmse in rmse_scores]
@@ -1082,7 +1082,7 @@ def rank_control_units(
 
         if dist_range < 1e-10:
             # All controls have identical/similar covariate profiles
-            covariate_scores = [1.0] * len(covariate_distances)
+            covariate_scores = [np.nan if np.isnan(d) else 1.0 for d in covariate_distances]
         else:
             # Normalize so best control (closest) gets 1.0, worst gets 0.0
             covariate_scores = (1 - (covariate_distances - min_dist) / dist_range).tolist()
-- 
2.43.0


From 185ba3ae657cd67f58b75c6852772926d3973a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:46 +0000
Subject: [PATCH 62/94] fix: built-in dataset tables no longer reseed the
 global random state

---
 diff_diff/datasets.py | 58 +++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index d676a5c..b3a23cc 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -160,7 +160,7 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     Uses aggregated data that preserves the key DiD estimates.
     """
     # Representative sample based on published summary statistics
-    np.random.seed(1994)  # Card-Krueger publication year, for reproducibility
+    rng = np.random.RandomState(1994)  # Card-Krueger publication year, for reproducibility
 
     stores = []
     store_id = 1
@@ -171,8 +171,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     for chain in ["bk", "kfc", "roys", "wendys"]:
         n_stores = {"bk": 85, "kfc": 62, "roys": 48, "wendys": 36}[chain]
         for _ in range(n_stores):
-            emp_pre = np.random.normal(20.44, 8.5)
-            emp_post = emp_pre + np.random.normal(0.59, 7.0)  # Change ≈ 0.59
+            emp_pre = rng.normal(20.44, 8.5)
+            emp_post = emp_pre + rng.normal(0.59, 7.0)  # Change ≈ 0.59
             emp_pre = max(0, emp_pre)
             emp_post = max(0, emp_post)
 
@@ -182,8 +182,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
                 "chain": chain,
                 "emp_pre": round(emp_pre, 1),
                 "emp_post": round(emp_post, 1),
-                "wage_pre": round(np.random.normal(4.61, 0.35), 2),
-                "wage_post": round(np.random.normal(5.08, 0.12), 2),
+                "wage_pre": round(rng.normal(4.61, 0.35), 2),
+                "wage_post": round(rng.normal(5.08, 0.12), 2),
             })
             store_id += 1
 
@@ -193,8 +193,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
     for chain in ["bk", "kfc", "roys", "wendys"]:
         n_stores = {"bk": 30, "kfc": 20, "roys": 14, "wendys": 15}[chain]
         for _ in range(n_stores):
-            emp_pre = np.random.normal(23.33, 8.2)
-            emp_post = emp_pre + np.random.normal(-2.16, 7.0)  # Change ≈ -2.16
+            emp_pre = rng.normal(23.33, 8.2)
+            emp_post = emp_pre + rng.normal(-2.16, 7.0)  # Change ≈ -2.16
             emp_pre = max(0, emp_pre)
             emp_post = max(0, emp_post)
 
@@ -204,8 +204,8 @@ def _construct_card_krueger_data() -> pd.DataFrame:
                 "chain": chain,
                 "emp_pre": round(emp_pre, 1),
                 "emp_post": round(emp_post, 1),
-                "wage_pre": round(np.random.normal(4.63, 0.35), 2),
-                "wage_post": round(np.random.normal(4.62, 0.35), 2),
+                "wage_pre": round(rng.normal(4.63, 0.35), 2),
+                "wage_post": round(rng.normal(4.62, 0.35), 2),
             })
             store_id += 1
 
@@ -305,7 +305,7 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
 
     This is a fallback when the online source is unavailable.
     """
-    np.random.seed(2013)  # Cheng-Hoekstra publication year, for reproducibility
+    rng = np.random.RandomState(2013)  # Cheng-Hoekstra publication year, for reproducibility
 
     # States and their Castle Doctrine adoption years
     # 0 = never adopted during the study period
@@ -328,9 +328,9 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
     data = []
     for state, first_treat in state_adoption.items():
         # State-level baseline characteristics
-        base_homicide = np.random.uniform(3.0, 8.0)
-        pop = np.random.randint(500000, 20000000)
-        base_income = np.random.uniform(30000, 50000)
+        base_homicide = rng.uniform(3.0, 8.0)
+        pop = rng.randint(500000, 20000000)
+        base_income = rng.uniform(30000, 50000)
 
         for year in range(2000, 2011):
             # Time trend
@@ -342,15 +342,15 @@ def _construct_castle_doctrine_data() -> pd.DataFrame:
             else:
                 treatment_effect = 0
 
-            homicide = max(0, base_homicide + time_effect + treatment_effect + np.random.normal(0, 0.5))
+            homicide = max(0, base_homicide + time_effect + treatment_effect + rng.normal(0, 0.5))
 
             data.append({
                 "state": state,
                 "year": year,
                 "first_treat": first_treat,
                 "homicide_rate": round(homicide, 2),
-                "population": pop + year * 10000 + np.random.randint(-5000, 5000),
-                "income": round(base_income * (1 + 0.02 * (year - 2000)) + np.random.normal(0, 1000), 0),
+                "population": pop + year * 10000 + rng.randint(-5000, 5000),
+                "income": round(base_income * (1 + 0.02 * (year - 2000)) + rng.normal(0, 1000), 0),
                 "treated": int(first_treat > 0 and year >= first_treat),
             })
 
@@ -454,7 +454,7 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
 
     This is a fallback when the online source is unavailable.
     """
-    np.random.seed(2006)  # Stevenson-Wolfers publication year, for reproducibility
+    rng = np.random.RandomState(2006)  # Stevenson-Wolfers publication year, for reproducibility
 
     # State adoption years for unilateral divorce (from Wolfers 2006)
     # 0 = never adopted or adopted before 1968
@@ -477,9 +477,9 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
     data = []
     for state, first_treat in state_adoption.items():
         # State-level baselines
-        base_divorce = np.random.uniform(2.0, 6.0)
-        base_lfp = np.random.uniform(0.35, 0.55)
-        base_suicide = np.random.uniform(4.0, 8.0)
+        base_divorce = rng.uniform(2.0, 6.0)
+        base_lfp = rng.uniform(0.35, 0.55)
+        base_suicide = rng.uniform(4.0, 8.0)
 
         for year in range(1968, 1989):
             # Time trends
@@ -512,11 +512,11 @@ def _construct_divorce_laws_data() -> pd.DataFrame:
                 "year": year,
                 "first_treat": first_treat if first_treat >= 1968 else 0,
                 "divorce_rate": round(max(0, base_divorce + time_trend + divorce_effect +
-                                          np.random.normal(0, 0.3)), 2),
+                                          rng.normal(0, 0.3)), 2),
                 "female_lfp": round(min(1, max(0, base_lfp + 0.01 * (year - 1968) +
-                                               lfp_effect + np.random.normal(0, 0.02))), 3),
+                                               lfp_effect + rng.normal(0, 0.02))), 3),
                 "suicide_rate": round(max(0, base_suicide + suicide_effect +
-                                          np.random.normal(0, 0.5)), 2),
+                                          rng.normal(0, 0.5)), 2),
             })
 
     df = pd.DataFrame(data)
@@ -601,7 +601,7 @@ def _construct_mpdta_data() -> pd.DataFrame:
 
     This replicates the simulated dataset used in Callaway-Sant'Anna tutorials.
     """
-    np.random.seed(2021)  # Callaway-Sant'Anna publication year, for reproducibility
+    rng = np.random.RandomState(2021)  # Callaway-Sant'Anna publication year, for reproducibility
 
     n_counties = 500
     years = [2003, 2004, 2005, 2006, 2007]
@@ -612,9 +612,9 @@ def _construct_mpdta_data() -> pd.DataFrame:
 
     data = []
     for county in range(1, n_counties + 1):
-        first_treat = np.random.choice(cohorts, p=cohort_probs)
-        base_lpop = np.random.normal(12.0, 1.0)
-        base_lemp = base_lpop - np.random.uniform(1.5, 2.5)
+        first_treat = rng.choice(cohorts, p=cohort_probs)
+        base_lpop = rng.normal(12.0, 1.0)
+        base_lemp = base_lpop - rng.uniform(1.5, 2.5)
 
         for year in years:
             time_effect = (year - 2003) * 0.02
@@ -633,8 +633,8 @@ def _construct_mpdta_data() -> pd.DataFrame:
             data.append({
                 "countyreal": county,
                 "year": year,
-                "lpop": round(base_lpop + np.random.normal(0, 0.05), 4),
-                "lemp": round(base_lemp + time_effect + te + np.random.normal(0, 0.02), 4),
+                "lpop": round(base_lpop + rng.normal(0, 0.05), 4),
+                "lemp": round(base_lemp + time_effect + te + rng.normal(0, 0.02), 4),
                 "first_treat": first_treat,
                 "treat": int(first_treat > 0),
             })
-- 
2.43.0


From 487e9ff1ddc3b7e49717ad79fe26153274c44e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:01 +0000
Subject: [PATCH 63/94] fix: dataset downloads survive any network or cache
 fault and never leave a bad cache entry

---
 diff_diff/datasets.py | 64 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 52 insertions(+), 12 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index b3a23cc..5fc834b 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -8,10 +8,12 @@ All datasets are downloaded from public sources and cached locally
 for subsequent use.
 """
 
+import os
+import tempfile
+from http.client import HTTPException
 from io import StringIO
 from pathlib import Path
-from typing import Dict
-from urllib.error import HTTPError, URLError
+from typing import Dict, Optional
 from urllib.request import urlopen
 
 import numpy as np
@@ -24,10 +26,43 @@ _CACHE_DIR = Path.home() / ".cache" / "diff_diff" / "datasets"
 
 def _get_cache_path(name: str) -> Path:
     """Get the cache path for a dataset."""
-    _CACHE_DIR.mkdir(parents=True, exist_ok=True)
     return _CACHE_DIR / f"{name}.csv"
 
 
+def _decode_table(raw: bytes) -> str:
+    """Decode downloaded or cached bytes, rejecting anything but a data table."""
+    content = raw.decode("utf-8")
+    table = pd.read_csv(StringIO(content))
+    if content.lstrip().startswith("<") or table.shape[0] < 1 or table.shape[1] < 2:
+        raise ValueError("content is not a data table")
+    return content
+
+
+def _read_cache(cache_path: Path) -> Optional[str]:
+    """Read a cached dataset, or None if there is no usable cached copy."""
+    try:
+        return _decode_table(cache_path.read_bytes())
+    except (OSError, ValueError):
+        return None
+
+
+def _write_cache(cache_path: Path, raw: bytes) -> None:
+    """Store a dataset, all of it or nothing; a cache that cannot be written is skipped."""
+    temp_name = None
+    try:
+        cache_path.parent.mkdir(parents=True, exist_ok=True)
+        fd, temp_name = tempfile.mkstemp(dir=cache_path.parent, suffix=".tmp")
+        with os.fdopen(fd, "wb") as f:
+            f.write(raw)
+        os.replace(temp_name, cache_path)
+        temp_name = None
+    except OSError:
+        pass
+    finally:
+        if temp_name is not None and os.path.exists(temp_name):
+            os.unlink(temp_name)
+
+
 def _download_with_cache(
     url: str,
     name: str,
@@ -36,29 +71,34 @@ def _download_with_cache(
     """Download a file and cache it locally."""
     cache_path = _get_cache_path(name)
 
-    if cache_path.exists() and not force_download:
-        return cache_path.read_text()
+    if not force_download:
+        cached = _read_cache(cache_path)
+        if cached is not None:
+            return cached
 
     try:
         with urlopen(url, timeout=30) as response:
-            content = response.read().decode("utf-8")
-            cache_path.write_text(content)
-            return content
-    except (HTTPError, URLError) as e:
-        if cache_path.exists():
+            raw = response.read()
+        content = _decode_table(raw)
+    except (OSError, HTTPException, ValueError) as e:
+        cached = _read_cache(cache_path)
+        if cached is not None:
             # Use cached version if download fails
-            return cache_path.read_text()
+            return cached
         raise RuntimeError(
             f"Failed to download dataset '{name}' from {url}: {e}\n"
             "Check your internet connection or try again later."
         ) from e
 
+    _write_cache(cache_path, raw)
+    return content
+
 
 def clear_cache() -> None:
     """Clear the local dataset cache."""
     if _CACHE_DIR.exists():
         for f in _CACHE_DIR.glob("*.csv"):
-            f.unlink()
+            f.unlink(missing_ok=True)
         print(f"Cleared cache at {_CACHE_DIR}")
 
 
-- 
2.43.0


From 7005a50be00fbd0a17373ed4943a0a56137fabba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:03 +0000
Subject: [PATCH 64/94] fix: dataset loaders say when they return the built-in
 stand-in table

---
 diff_diff/datasets.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/diff_diff/datasets.py b/diff_diff/datasets.py
index 5fc834b..af23259 100644
--- a/diff_diff/datasets.py
+++ b/diff_diff/datasets.py
@@ -10,6 +10,7 @@ for subsequent use.
 
 import os
 import tempfile
+import warnings
 from http.client import HTTPException
 from io import StringIO
 from pathlib import Path
@@ -94,6 +95,16 @@ def _download_with_cache(
     return content
 
 
+def _warn_fallback(name: str, error: Exception) -> None:
+    """Say that the built-in stand-in table is returned, not the real data."""
+    warnings.warn(
+        f"Returning a built-in simulated stand-in for dataset '{name}', not the "
+        f"original data: {error}",
+        UserWarning,
+        stacklevel=3,
+    )
+
+
 def clear_cache() -> None:
     """Clear the local dataset cache."""
     if _CACHE_DIR.exists():
@@ -170,8 +181,9 @@ def load_card_krueger(force_download: bool = False) -> pd.DataFrame:
     try:
         content = _download_with_cache(url, "card_krueger", force_download)
         df = pd.read_csv(StringIO(content))
-    except RuntimeError:
+    except RuntimeError as e:
         # Fallback: construct from embedded data
+        _warn_fallback("card_krueger", e)
         df = _construct_card_krueger_data()
 
     # Standardize column names and add convenience columns
@@ -314,8 +326,9 @@ def load_castle_doctrine(force_download: bool = False) -> pd.DataFrame:
     try:
         content = _download_with_cache(url, "castle_doctrine", force_download)
         df = pd.read_csv(StringIO(content))
-    except RuntimeError:
+    except RuntimeError as e:
         # Fallback: construct from documented patterns
+        _warn_fallback("castle_doctrine", e)
         df = _construct_castle_doctrine_data()
 
     # Standardize column names
@@ -461,8 +474,9 @@ def load_divorce_laws(force_download: bool = False) -> pd.DataFrame:
     try:
         content = _download_with_cache(url, "divorce_laws", force_download)
         df = pd.read_csv(StringIO(content))
-    except RuntimeError:
+    except RuntimeError as e:
         # Fallback to constructed data
+        _warn_fallback("divorce_laws", e)
         df = _construct_divorce_laws_data()
 
     # Standardize column names
@@ -620,8 +634,9 @@ def load_mpdta(force_download: bool = False) -> pd.DataFrame:
     try:
         content = _download_with_cache(url, "mpdta", force_download)
         df = pd.read_csv(StringIO(content))
-    except RuntimeError:
+    except RuntimeError as e:
         # Fallback to constructed data matching the R package
+        _warn_fallback("mpdta", e)
         df = _construct_mpdta_data()
 
     # Standardize column names
-- 
2.43.0


From b0e925ba160e40c5a8ef011704b57c2e8273c730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 65/94] fix: all-zero design matrices and single bootstrap
 draws give undefined inference instead of crashing or a finite p-value

---
 diff_diff/linalg.py              | 9 ++++++++-
 diff_diff/staggered_bootstrap.py | 4 ++++
 diff_diff/sun_abraham.py         | 4 ++++
 3 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/diff_diff/linalg.py b/diff_diff/linalg.py
index 9f7905e..ed00209 100644
--- a/diff_diff/linalg.py
+++ b/diff_diff/linalg.py
@@ -696,7 +696,14 @@ def _solve_ols_numpy(
         # else: "silent" - no warning
 
         # Extract kept columns for the reduced solve
-        kept_cols = np.array([i for i in range(k) if i not in dropped_cols])
+        kept_cols = np.array([i for i in range(k) if i not in dropped_cols], dtype=int)
+        if len(kept_cols) == 0:
+            # Every column is zero: nothing is identified
+            fitted = np.zeros(n)
+            vcov = np.full((k, k), np.nan) if return_vcov else None
+            if return_fitted:
+                return np.full(k, np.nan), y - fitted, fitted, vcov
+            return np.full(k, np.nan), y - fitted, vcov
         X_reduced = X[:, kept_cols]
 
         # Solve the reduced system (now full-rank)
diff --git a/diff_diff/staggered_bootstrap.py b/diff_diff/staggered_bootstrap.py
index 4bcf235..b2fd726 100644
--- a/diff_diff/staggered_bootstrap.py
+++ b/diff_diff/staggered_bootstrap.py
@@ -744,6 +744,10 @@ class CallawaySantAnnaBootstrapMixin:
         valid_dist = boot_dist[finite_mask]
         n_valid_bootstrap = len(valid_dist)
 
+        # A single draw has no spread
+        if n_valid_bootstrap < 2:
+            return np.nan, (np.nan, np.nan), np.nan
+
         se = float(np.std(valid_dist, ddof=1))
         ci = self._compute_percentile_ci(valid_dist, self.alpha)
 
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index f623656..ed02e65 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -1159,6 +1159,8 @@ class SunAbraham:
         alpha: float,
     ) -> Tuple[float, float]:
         """Compute percentile confidence interval."""
+        if len(boot_dist) < 2:
+            return (np.nan, np.nan)
         lower = float(np.percentile(boot_dist, alpha / 2 * 100))
         upper = float(np.percentile(boot_dist, (1 - alpha / 2) * 100))
         return (lower, upper)
@@ -1171,6 +1173,8 @@ class SunAbraham:
         """Compute two-sided bootstrap p-value."""
         if not np.isfinite(original_effect) or not np.all(np.isfinite(boot_dist)):
             return np.nan
+        if len(boot_dist) < 2:
+            return np.nan
 
         if original_effect >= 0:
             p_one_sided = float(np.mean(boot_dist <= 0))
-- 
2.43.0


From 88a3f7ae71a3ddd14ec68f79cf2af7977d451969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 66/94] fix: summaries print the exact confidence level instead
 of a truncated one

---
 diff_diff/diagnostics.py       |  4 ++--
 diff_diff/honest_did.py        |  3 ++-
 diff_diff/results.py           | 11 ++++++++---
 diff_diff/staggered_results.py |  4 ++--
 diff_diff/sun_abraham.py       |  4 ++--
 diff_diff/triple_diff.py       |  4 ++--
 diff_diff/trop.py              |  4 ++--
 diff_diff/utils.py             |  3 ++-
 8 files changed, 22 insertions(+), 15 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 9fcbd91..5ea4fd7 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -18,7 +18,7 @@ import numpy as np
 import pandas as pd
 
 from diff_diff.estimators import DifferenceInDifferences
-from diff_diff.results import _get_significance_stars
+from diff_diff.results import _format_conf_level, _get_significance_stars
 from diff_diff.utils import compute_confidence_interval, compute_p_value
 
 
@@ -85,7 +85,7 @@ class PlaceboTestResults:
 
     def summary(self) -> str:
         """Generate formatted summary of placebo test results."""
-        conf_level = int((1 - self.alpha) * 100)
+        conf_level = _format_conf_level(self.alpha)
 
         lines = [
             "=" * 65,
diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 885af87..843fe71 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -25,6 +25,7 @@ import pandas as pd
 from scipy import optimize, stats
 
 from diff_diff.results import (
+    _format_conf_level,
     MultiPeriodDiDResults,
 )
 
@@ -240,7 +241,7 @@ class HonestDiDResults:
         str
             Formatted summary.
         """
-        conf_level = int((1 - self.alpha) * 100)
+        conf_level = _format_conf_level(self.alpha)
 
         method_names = {
             "smoothness": "Smoothness (Delta^SD)",
diff --git a/diff_diff/results.py b/diff_diff/results.py
index 213d09f..10a4da8 100644
--- a/diff_diff/results.py
+++ b/diff_diff/results.py
@@ -83,7 +83,7 @@ class DiDResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = _format_conf_level(alpha)
 
         lines = [
             "=" * 70,
@@ -180,6 +180,11 @@ class DiDResults:
         return _get_significance_stars(self.p_value)
 
 
+def _format_conf_level(alpha: float) -> str:
+    """Confidence level in percent, e.g. '95' or '97.5'."""
+    return f"{round(100 * (1 - alpha), 6):g}"
+
+
 def _get_significance_stars(p_value: float) -> str:
     """Return significance stars based on p-value.
 
@@ -324,7 +329,7 @@ class MultiPeriodDiDResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = _format_conf_level(alpha)
 
         lines = [
             "=" * 80,
@@ -562,7 +567,7 @@ class SyntheticDiDResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = _format_conf_level(alpha)
 
         lines = [
             "=" * 75,
diff --git a/diff_diff/staggered_results.py b/diff_diff/staggered_results.py
index 968e16b..b5ea678 100644
--- a/diff_diff/staggered_results.py
+++ b/diff_diff/staggered_results.py
@@ -11,7 +11,7 @@ from typing import Any, Dict, List, Optional, Tuple, TYPE_CHECKING
 import numpy as np
 import pandas as pd
 
-from diff_diff.results import _get_significance_stars
+from diff_diff.results import _format_conf_level, _get_significance_stars
 
 if TYPE_CHECKING:
     from diff_diff.staggered_bootstrap import CSBootstrapResults
@@ -140,7 +140,7 @@ class CallawaySantAnnaResults:
             Formatted summary.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = _format_conf_level(alpha)
 
         lines = [
             "=" * 85,
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index ed02e65..551b704 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -17,7 +17,7 @@ import numpy as np
 import pandas as pd
 
 from diff_diff.linalg import LinearRegression, compute_robust_vcov
-from diff_diff.results import _get_significance_stars
+from diff_diff.results import _format_conf_level, _get_significance_stars
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
@@ -112,7 +112,7 @@ class SunAbrahamResults:
             Formatted summary.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = _format_conf_level(alpha)
 
         lines = [
             "=" * 85,
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index dc6abe3..431ee3e 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -38,7 +38,7 @@ import pandas as pd
 from scipy import optimize
 
 from diff_diff.linalg import LinearRegression, solve_ols
-from diff_diff.results import _get_significance_stars
+from diff_diff.results import _format_conf_level, _get_significance_stars
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
@@ -136,7 +136,7 @@ class TripleDifferenceResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = _format_conf_level(alpha)
 
         lines = [
             "=" * 75,
diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 31c974f..3ec3876 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -41,7 +41,7 @@ from diff_diff._backend import (
     _rust_loocv_grid_search_joint,
     _rust_bootstrap_trop_variance_joint,
 )
-from diff_diff.results import _get_significance_stars
+from diff_diff.results import _format_conf_level, _get_significance_stars
 from diff_diff.utils import compute_confidence_interval, compute_p_value
 
 
@@ -196,7 +196,7 @@ class TROPResults:
             Formatted summary table.
         """
         alpha = alpha or self.alpha
-        conf_level = int((1 - alpha) * 100)
+        conf_level = _format_conf_level(alpha)
 
         lines = [
             "=" * 75,
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 26ed366..9121191 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -12,6 +12,7 @@ from scipy import stats
 
 from diff_diff.linalg import compute_robust_vcov as _compute_robust_vcov_linalg
 from diff_diff.linalg import solve_ols as _solve_ols_linalg
+from diff_diff.results import _format_conf_level
 
 # Import Rust backend if available (from _backend to avoid circular imports)
 from diff_diff._backend import (
@@ -229,7 +230,7 @@ class WildBootstrapResults:
             f"Bootstrap SE:        {self.se:.6f}",
             f"Bootstrap p-value:   {self.p_value:.4f}",
             f"Original t-stat:     {self.t_stat_original:.4f}",
-            f"CI ({int((1-self.alpha)*100)}%):           [{self.ci_lower:.6f}, {self.ci_upper:.6f}]",
+            f"CI ({_format_conf_level(self.alpha)}%):           [{self.ci_lower:.6f}, {self.ci_upper:.6f}]",
             f"Number of clusters:  {self.n_clusters}",
             f"Bootstrap reps:      {self.n_bootstrap}",
             f"Weight type:         {self.weight_type}",
-- 
2.43.0


From 0bfd9683128db26eb641105e56bf7b4bf77c51ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:25 +0000
Subject: [PATCH 67/94] fix: summary(alpha=...) prints the interval at the
 level it states

---
 diff_diff/estimators.py        |  4 +++
 diff_diff/results.py           | 49 +++++++++++++++++++++++++++-------
 diff_diff/staggered_results.py | 10 ++++---
 diff_diff/sun_abraham.py       | 10 ++++---
 diff_diff/triple_diff.py       | 13 ++++++---
 diff_diff/trop.py              | 10 ++++---
 diff_diff/twfe.py              |  3 +++
 7 files changed, 74 insertions(+), 25 deletions(-)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 783fc17..a491077 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -293,6 +293,7 @@ class DifferenceInDifferences:
 
         # Get inference - either from bootstrap or analytical
         self._bootstrap_results = None
+        inference_df = None
         if self.inference == "wild_bootstrap" and self.cluster is not None:
             # Override with wild cluster bootstrap inference
             se, p_value, conf_int, t_stat, vcov, _ = self._run_wild_bootstrap_inference(
@@ -306,6 +307,7 @@ class DifferenceInDifferences:
             t_stat = inference.t_stat
             p_value = inference.p_value
             conf_int = inference.conf_int
+            inference_df = inference.df
 
         r_squared = compute_r_squared(y, residuals)
 
@@ -344,6 +346,7 @@ class DifferenceInDifferences:
             inference_method=inference_method,
             n_bootstrap=n_bootstrap_used,
             n_clusters=n_clusters_used,
+            df=inference_df,
         )
 
         self._coefficients = coefficients
@@ -1004,6 +1007,7 @@ class MultiPeriodDiD(DifferenceInDifferences):
             residuals=residuals,
             fitted_values=fitted,
             r_squared=r_squared,
+            df=df,
         )
 
         self._coefficients = coefficients
diff --git a/diff_diff/results.py b/diff_diff/results.py
index 10a4da8..b115d9f 100644
--- a/diff_diff/results.py
+++ b/diff_diff/results.py
@@ -58,6 +58,8 @@ class DiDResults:
     n_bootstrap: Optional[int] = field(default=None)
     n_clusters: Optional[int] = field(default=None)
     bootstrap_distribution: Optional[np.ndarray] = field(default=None, repr=False)
+    # Degrees of freedom of the analytical inference (None if not applicable)
+    df: Optional[float] = field(default=None, repr=False)
 
     def __repr__(self) -> str:
         """Concise string representation."""
@@ -82,8 +84,10 @@ class DiDResults:
         str
             Formatted summary table.
         """
-        alpha = alpha or self.alpha
-        conf_level = _format_conf_level(alpha)
+        conf_int, conf_level = _interval_at_level(
+            self.att, self.se, self.conf_int, self.alpha, alpha,
+            df=self.df, analytical=self.df is not None,
+        )
 
         lines = [
             "=" * 70,
@@ -114,7 +118,7 @@ class DiDResults:
             f"{'ATT':<15} {self.att:>12.4f} {self.se:>12.4f} {self.t_stat:>10.3f} {self.p_value:>10.4f} {self.significance_stars:>5}",
             "-" * 70,
             "",
-            f"{conf_level}% Confidence Interval: [{self.conf_int[0]:.4f}, {self.conf_int[1]:.4f}]",
+            f"{conf_level}% Confidence Interval: [{conf_int[0]:.4f}, {conf_int[1]:.4f}]",
         ])
 
         # Add significance codes
@@ -185,6 +189,28 @@ def _format_conf_level(alpha: float) -> str:
     return f"{round(100 * (1 - alpha), 6):g}"
 
 
+def _interval_at_level(
+    effect: float,
+    se: float,
+    conf_int: Tuple[float, float],
+    fit_alpha: float,
+    alpha: Optional[float],
+    df: Optional[float] = None,
+    analytical: bool = True,
+) -> Tuple[Tuple[float, float], str]:
+    """
+    Interval to print and its level in percent.
+
+    The fitted interval is used unless another level is requested and the
+    interval follows from the standard error.
+    """
+    if not alpha or alpha == fit_alpha or not analytical or not se > 0:
+        return conf_int, _format_conf_level(fit_alpha)
+    from diff_diff.utils import compute_confidence_interval
+
+    return compute_confidence_interval(effect, se, alpha, df=df), _format_conf_level(alpha)
+
+
 def _get_significance_stars(p_value: float) -> str:
     """Return significance stars based on p-value.
 
@@ -303,6 +329,8 @@ class MultiPeriodDiDResults:
     residuals: Optional[np.ndarray] = field(default=None)
     fitted_values: Optional[np.ndarray] = field(default=None)
     r_squared: Optional[float] = field(default=None)
+    # Degrees of freedom of the analytical inference (None if not applicable)
+    df: Optional[float] = field(default=None, repr=False)
 
     def __repr__(self) -> str:
         """Concise string representation."""
@@ -328,8 +356,10 @@ class MultiPeriodDiDResults:
         str
             Formatted summary table.
         """
-        alpha = alpha or self.alpha
-        conf_level = _format_conf_level(alpha)
+        conf_int, conf_level = _interval_at_level(
+            self.avg_att, self.avg_se, self.avg_conf_int, self.alpha, alpha,
+            df=self.df, analytical=self.df is not None,
+        )
 
         lines = [
             "=" * 80,
@@ -377,7 +407,7 @@ class MultiPeriodDiDResults:
             f"{self.avg_t_stat:>10.3f} {self.avg_p_value:>10.4f} {self.significance_stars:>6}",
             "-" * 80,
             "",
-            f"{conf_level}% Confidence Interval: [{self.avg_conf_int[0]:.4f}, {self.avg_conf_int[1]:.4f}]",
+            f"{conf_level}% Confidence Interval: [{conf_int[0]:.4f}, {conf_int[1]:.4f}]",
         ])
 
         # Add significance codes
@@ -566,8 +596,9 @@ class SyntheticDiDResults:
         str
             Formatted summary table.
         """
-        alpha = alpha or self.alpha
-        conf_level = _format_conf_level(alpha)
+        conf_int, conf_level = _interval_at_level(
+            self.att, self.se, self.conf_int, self.alpha, alpha
+        )
 
         lines = [
             "=" * 75,
@@ -600,7 +631,7 @@ class SyntheticDiDResults:
             f"{'ATT':<15} {self.att:>12.4f} {self.se:>12.4f} {self.t_stat:>10.3f} {self.p_value:>10.4f} {self.significance_stars:>5}",
             "-" * 75,
             "",
-            f"{conf_level}% Confidence Interval: [{self.conf_int[0]:.4f}, {self.conf_int[1]:.4f}]",
+            f"{conf_level}% Confidence Interval: [{conf_int[0]:.4f}, {conf_int[1]:.4f}]",
         ])
 
         # Show top unit weights
diff --git a/diff_diff/staggered_results.py b/diff_diff/staggered_results.py
index b5ea678..15614bc 100644
--- a/diff_diff/staggered_results.py
+++ b/diff_diff/staggered_results.py
@@ -11,7 +11,7 @@ from typing import Any, Dict, List, Optional, Tuple, TYPE_CHECKING
 import numpy as np
 import pandas as pd
 
-from diff_diff.results import _format_conf_level, _get_significance_stars
+from diff_diff.results import _get_significance_stars, _interval_at_level
 
 if TYPE_CHECKING:
     from diff_diff.staggered_bootstrap import CSBootstrapResults
@@ -139,8 +139,10 @@ class CallawaySantAnnaResults:
         str
             Formatted summary.
         """
-        alpha = alpha or self.alpha
-        conf_level = _format_conf_level(alpha)
+        conf_int, conf_level = _interval_at_level(
+            self.overall_att, self.overall_se, self.overall_conf_int, self.alpha, alpha,
+            analytical=self.bootstrap_results is None,
+        )
 
         lines = [
             "=" * 85,
@@ -169,7 +171,7 @@ class CallawaySantAnnaResults:
             f"{_get_significance_stars(self.overall_p_value):>6}",
             "-" * 85,
             "",
-            f"{conf_level}% Confidence Interval: [{self.overall_conf_int[0]:.4f}, {self.overall_conf_int[1]:.4f}]",
+            f"{conf_level}% Confidence Interval: [{conf_int[0]:.4f}, {conf_int[1]:.4f}]",
             "",
         ])
 
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 551b704..6c73854 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -17,7 +17,7 @@ import numpy as np
 import pandas as pd
 
 from diff_diff.linalg import LinearRegression, compute_robust_vcov
-from diff_diff.results import _format_conf_level, _get_significance_stars
+from diff_diff.results import _get_significance_stars, _interval_at_level
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
@@ -111,8 +111,10 @@ class SunAbrahamResults:
         str
             Formatted summary.
         """
-        alpha = alpha or self.alpha
-        conf_level = _format_conf_level(alpha)
+        conf_int, conf_level = _interval_at_level(
+            self.overall_att, self.overall_se, self.overall_conf_int, self.alpha, alpha,
+            analytical=self.bootstrap_results is None,
+        )
 
         lines = [
             "=" * 85,
@@ -143,7 +145,7 @@ class SunAbrahamResults:
                 "-" * 85,
                 "",
                 f"{conf_level}% Confidence Interval: "
-                f"[{self.overall_conf_int[0]:.4f}, {self.overall_conf_int[1]:.4f}]",
+                f"[{conf_int[0]:.4f}, {conf_int[1]:.4f}]",
                 "",
             ]
         )
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 431ee3e..70dec77 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -38,7 +38,7 @@ import pandas as pd
 from scipy import optimize
 
 from diff_diff.linalg import LinearRegression, solve_ols
-from diff_diff.results import _format_conf_level, _get_significance_stars
+from diff_diff.results import _get_significance_stars, _interval_at_level
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
@@ -112,6 +112,8 @@ class TripleDifferenceResults:
     inference_method: str = field(default="analytical")
     n_bootstrap: Optional[int] = field(default=None)
     n_clusters: Optional[int] = field(default=None)
+    # Degrees of freedom of the analytical inference (None if not applicable)
+    df: Optional[float] = field(default=None, repr=False)
 
     def __repr__(self) -> str:
         """Concise string representation."""
@@ -135,8 +137,10 @@ class TripleDifferenceResults:
         str
             Formatted summary table.
         """
-        alpha = alpha or self.alpha
-        conf_level = _format_conf_level(alpha)
+        conf_int, conf_level = _interval_at_level(
+            self.att, self.se, self.conf_int, self.alpha, alpha,
+            df=self.df, analytical=self.df is not None,
+        )
 
         lines = [
             "=" * 75,
@@ -171,7 +175,7 @@ class TripleDifferenceResults:
             f"{'ATT':<15} {self.att:>12.4f} {self.se:>12.4f} {self.t_stat:>10.3f} {self.p_value:>10.4f} {self.significance_stars:>5}",
             "-" * 75,
             "",
-            f"{conf_level}% Confidence Interval: [{self.conf_int[0]:.4f}, {self.conf_int[1]:.4f}]",
+            f"{conf_level}% Confidence Interval: [{conf_int[0]:.4f}, {conf_int[1]:.4f}]",
         ])
 
         # Show group means if available
@@ -650,6 +654,7 @@ class TripleDifference:
             r_squared=r_squared,
             inference_method="analytical",
             n_clusters=n_clusters,
+            df=df,
         )
 
         self.is_fitted_ = True
diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 3ec3876..7b84098 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -41,7 +41,7 @@ from diff_diff._backend import (
     _rust_loocv_grid_search_joint,
     _rust_bootstrap_trop_variance_joint,
 )
-from diff_diff.results import _format_conf_level, _get_significance_stars
+from diff_diff.results import _get_significance_stars, _interval_at_level
 from diff_diff.utils import compute_confidence_interval, compute_p_value
 
 
@@ -195,8 +195,10 @@ class TROPResults:
         str
             Formatted summary table.
         """
-        alpha = alpha or self.alpha
-        conf_level = _format_conf_level(alpha)
+        conf_int, conf_level = _interval_at_level(
+            self.att, self.se, self.conf_int, self.alpha, alpha,
+            df=max(1, self.n_treated_obs - 1),
+        )
 
         lines = [
             "=" * 75,
@@ -236,7 +238,7 @@ class TROPResults:
             f"{self.t_stat:>10.3f} {self.p_value:>10.4f} {self.significance_stars:>5}",
             "-" * 75,
             "",
-            f"{conf_level}% Confidence Interval: [{self.conf_int[0]:.4f}, {self.conf_int[1]:.4f}]",
+            f"{conf_level}% Confidence Interval: [{conf_int[0]:.4f}, {conf_int[1]:.4f}]",
         ])
 
         # Add significance codes
diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index 4235c3f..f7a8fd8 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -204,6 +204,7 @@ class TwoWayFixedEffects(DifferenceInDifferences):
 
         # Get inference - either from bootstrap or analytical
         self._bootstrap_results = None
+        inference_df = None
         if self.inference == "wild_bootstrap":
             # Override with wild cluster bootstrap inference
             se, p_value, conf_int, t_stat, vcov, _ = self._run_wild_bootstrap_inference(
@@ -217,6 +218,7 @@ class TwoWayFixedEffects(DifferenceInDifferences):
             t_stat = inference.t_stat
             p_value = inference.p_value
             conf_int = inference.conf_int
+            inference_df = inference.df
 
         # Count observations
         treated_units = data[data[treatment] == 1][unit].unique()
@@ -250,6 +252,7 @@ class TwoWayFixedEffects(DifferenceInDifferences):
             inference_method=inference_method,
             n_bootstrap=n_bootstrap_used,
             n_clusters=n_clusters_used,
+            df=inference_df,
         )
 
         self.is_fitted_ = True
-- 
2.43.0


From 658dbe18a593b6c6e8d0be430cd46a362f873a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:47 +0000
Subject: [PATCH 68/94] fix: placebo and sensitivity reports state the level
 used, skip failed re-estimations and show a zero breakdown value

---
 diff_diff/diagnostics.py | 7 ++++---
 diff_diff/honest_did.py  | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 5ea4fd7..3b7c501 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -120,7 +120,8 @@ class PlaceboTestResults:
 
         if self.leave_one_out_effects is not None:
             n_units = len(self.leave_one_out_effects)
-            effects = list(self.leave_one_out_effects.values())
+            # Dropped units whose re-estimation failed are NaN
+            effects = [e for e in self.leave_one_out_effects.values() if np.isfinite(e)]
             lines.extend([
                 "",
                 "-" * 65,
@@ -143,14 +144,14 @@ class PlaceboTestResults:
 
         if self.is_significant:
             lines.append(
-                "WARNING: Significant placebo effect detected (p < 0.05)."
+                f"WARNING: Significant placebo effect detected (p < {self.alpha:g})."
             )
             lines.append(
                 "This suggests potential violations of the parallel trends assumption."
             )
         else:
             lines.append(
-                "No significant placebo effect detected (p >= 0.05)."
+                f"No significant placebo effect detected (p >= {self.alpha:g})."
             )
             lines.append(
                 "This is consistent with the parallel trends assumption."
diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 843fe71..0fff9ec 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -378,7 +378,7 @@ class SensitivityResults:
     alpha: float = 0.05
 
     def __repr__(self) -> str:
-        breakdown_str = f"{self.breakdown_M:.4f}" if self.breakdown_M else "None"
+        breakdown_str = f"{self.breakdown_M:.4f}" if self.breakdown_M is not None else "None"
         return (
             f"SensitivityResults(n_M={len(self.M_values)}, "
             f"breakdown_M={breakdown_str})"
-- 
2.43.0


From d8ee5be83330e2bb185b42342cf945d34663ed99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 69/94] fix: plots label the true effect and target power they
 show, and draw robust intervals that exclude the point estimate

---
 diff_diff/visualization.py | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/diff_diff/visualization.py b/diff_diff/visualization.py
index 3ba3a80..71058b5 100644
--- a/diff_diff/visualization.py
+++ b/diff_diff/visualization.py
@@ -843,12 +843,11 @@ def plot_honest_event_study(
     )
 
     # Plot honest CIs (thicker, foreground)
-    yerr_honest = [
-        [e - lower for e, lower in zip(effects, honest_ci_lower)],
-        [u - e for e, u in zip(effects, honest_ci_upper)]
-    ]
+    # Drawn around their own centre: they need not contain the point estimate
+    honest_mid = [(lower + u) / 2 for lower, u in zip(honest_ci_lower, honest_ci_upper)]
+    honest_half = [(u - lower) / 2 for lower, u in zip(honest_ci_lower, honest_ci_upper)]
     ax.errorbar(
-        x_vals, effects, yerr=yerr_honest,
+        x_vals, honest_mid, yerr=honest_half,
         fmt='none', color=honest_color, capsize=capsize,
         linewidth=2, label=f'Honest CI (M={honest_results.M:.2f})'
     )
@@ -1314,6 +1313,8 @@ def plot_power_curve(
             "Install it with: pip install matplotlib"
         )
 
+    mde_name = "MDE"
+
     # Extract data from results if provided
     if results is not None:
         if isinstance(results, pd.DataFrame):
@@ -1336,6 +1337,7 @@ def plot_power_curve(
             if mde is None and hasattr(results, "true_effect"):
                 # Mark true effect on plot
                 mde = results.true_effect
+                mde_name = "True effect"
         elif hasattr(results, "mde"):
             # PowerResults - create curve data
             raise ValueError(
@@ -1397,18 +1399,19 @@ def plot_power_curve(
             linestyle=":",
             linewidth=1.5,
             alpha=0.7,
-            label=f"MDE = {mde:.3f}"
+            label=f"{mde_name} = {mde:.3f}"
         )
 
         # Mark intersection point
         # Find power at MDE
         if mde in effect_sizes:
-            idx = effect_sizes.index(mde)
+            idx = list(effect_sizes).index(mde)
             power_at_mde = powers[idx]
         else:
-            # Interpolate
-            effect_arr = np.array(effect_sizes)
-            power_arr = np.array(powers)
+            # Interpolate (np.interp needs increasing effect sizes)
+            order = np.argsort(effect_sizes)
+            effect_arr = np.array(effect_sizes)[order]
+            power_arr = np.array(powers)[order]
             if effect_arr.min() <= mde <= effect_arr.max():
                 power_at_mde = np.interp(mde, effect_arr, power_arr)
             else:
@@ -1452,7 +1455,7 @@ def plot_pretrends_power(
     M_values: Optional[List[float]] = None,
     powers: Optional[List[float]] = None,
     mdv: Optional[float] = None,
-    target_power: float = 0.80,
+    target_power: Optional[float] = None,
     figsize: Tuple[float, float] = (10, 6),
     title: str = "Pre-Trends Test Power Curve",
     xlabel: str = "Violation Magnitude (M)",
@@ -1485,8 +1488,9 @@ def plot_pretrends_power(
         Power values (y-axis). Required if results is None.
     mdv : float, optional
         Minimum detectable violation to mark on the plot.
-    target_power : float, default=0.80
-        Target power level to show as horizontal line.
+    target_power : float, optional
+        Target power level to show as horizontal line. Defaults to the target
+        of the results, or 0.80.
     figsize : tuple, default=(10, 6)
         Figure size (width, height) in inches.
     title : str
@@ -1589,6 +1593,8 @@ def plot_pretrends_power(
             # Single PreTrendsPowerResults - create a simple plot
             if mdv is None:
                 mdv = results.mdv
+            if target_power is None:
+                target_power = results.target_power
             # Create minimal curve around MDV
             if np.isfinite(mdv):
                 M_values = [0, mdv * 0.5, mdv, mdv * 1.5, mdv * 2]
@@ -1606,6 +1612,9 @@ def plot_pretrends_power(
             "Must provide either 'results' or both 'M_values' and 'powers'"
         )
 
+    if target_power is None:
+        target_power = 0.80
+
     # Create figure if needed
     if ax is None:
         fig, ax = plt.subplots(figsize=figsize)
-- 
2.43.0


From 3deac539caf5328dc0965a4a65e52653e31e1028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:57 +0000
Subject: [PATCH 70/94] fix: unsigned, narrow or nullable integer columns no
 longer wrap around in event times and outcome changes

---
 diff_diff/bacon.py       |  6 ++++--
 diff_diff/staggered.py   |  7 +++++--
 diff_diff/sun_abraham.py |  7 +++++--
 diff_diff/utils.py       | 28 ++++++++++++++++++++++++++++
 4 files changed, 42 insertions(+), 6 deletions(-)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index f16ee00..d57abc5 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -19,6 +19,7 @@ import pandas as pd
 
 from diff_diff.utils import (
     validate_treatment_timing,
+    widen_numeric,
     within_transform as _within_transform_util,
 )
 
@@ -447,8 +448,9 @@ class BaconDecomposition:
         df = data.copy()
 
         # Ensure numeric types
-        df[time] = pd.to_numeric(df[time])
-        df[first_treat] = pd.to_numeric(df[first_treat])
+        df[time] = widen_numeric(pd.to_numeric(df[time]))
+        df[first_treat] = widen_numeric(pd.to_numeric(df[first_treat]))
+        df[outcome] = widen_numeric(df[outcome])
         validate_treatment_timing(df, unit, time, first_treat)
         if df[outcome].isna().any():
             raise ValueError(
diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 4517747..323f6d6 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -17,6 +17,7 @@ from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
     validate_treatment_timing,
+    widen_numeric,
 )
 
 # Import from split modules
@@ -645,8 +646,10 @@ class CallawaySantAnna(
         df = data.copy()
 
         # Ensure numeric types
-        df[time] = pd.to_numeric(df[time])
-        df[first_treat] = pd.to_numeric(df[first_treat])
+        df[time] = widen_numeric(pd.to_numeric(df[time]))
+        df[first_treat] = widen_numeric(pd.to_numeric(df[first_treat]))
+        for col in [outcome, *(covariates or [])]:
+            df[col] = widen_numeric(df[col])
         validate_treatment_timing(df, unit, time, first_treat)
 
         # Never-treated units may be coded 0 or inf; use 0 internally
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 6c73854..f12e89a 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -22,6 +22,7 @@ from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
     validate_treatment_timing,
+    widen_numeric,
     within_transform as _within_transform_util,
 )
 
@@ -489,8 +490,10 @@ class SunAbraham:
         df = data.copy()
 
         # Ensure numeric types
-        df[time] = pd.to_numeric(df[time])
-        df[first_treat] = pd.to_numeric(df[first_treat])
+        df[time] = widen_numeric(pd.to_numeric(df[time]))
+        df[first_treat] = widen_numeric(pd.to_numeric(df[first_treat]))
+        for col in [outcome, *(covariates or [])]:
+            df[col] = widen_numeric(df[col])
         validate_treatment_timing(df, unit, time, first_treat)
 
         # Never-treated units may be coded 0 or inf; use 0 internally
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 9121191..3cac34f 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -78,6 +78,33 @@ def validate_treatment_timing(
         )
 
 
+def widen_numeric(values: pd.Series) -> pd.Series:
+    """
+    Numeric column in a dtype that is safe to subtract.
+
+    Differences of unsigned or narrow integers wrap around, float32 loses digits
+    and nullable columns turn into object arrays, so integers become int64 and
+    floats (and nullable columns with missing values) float64. Other dtypes are
+    returned unchanged.
+    """
+    dtype = values.dtype
+    if pd.api.types.is_bool_dtype(dtype) or not pd.api.types.is_numeric_dtype(dtype):
+        return values
+    if pd.api.types.is_extension_array_dtype(dtype) and (
+        values.isna().any() or not pd.api.types.is_integer_dtype(dtype)
+    ):
+        return pd.Series(
+            values.to_numpy(dtype=float, na_value=np.nan),
+            index=values.index,
+            name=values.name,
+        )
+    if pd.api.types.is_integer_dtype(dtype):
+        return values.astype("int64")
+    if pd.api.types.is_float_dtype(dtype):
+        return values.astype("float64")
+    return values
+
+
 def compute_robust_se(
     X: np.ndarray,
     residuals: np.ndarray,
@@ -857,6 +884,7 @@ def _compute_outcome_changes(
     if unit is not None:
         # Unit-level changes: compute change for each unit across periods
         data_sorted = data.sort_values([unit, time])
+        data_sorted[outcome] = widen_numeric(data_sorted[outcome])
         data_sorted["_outcome_change"] = data_sorted.groupby(unit)[outcome].diff()
 
         # Remove NaN from first period of each unit
-- 
2.43.0


From 23a76a56ac5c8142b274eb6d5607563df36ee6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:10 +0000
Subject: [PATCH 71/94] fix: Sun-Abraham bootstrap draws do not depend on the
 row order

---
 diff_diff/sun_abraham.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index f12e89a..42e0df8 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -1018,8 +1018,8 @@ class SunAbraham:
         # Row positions are used below, so index labels must equal positions
         df = df.reset_index(drop=True)
 
-        # Get unique units
-        all_units = df[unit].unique()
+        # Get unique units, sorted so that draws do not depend on the row order
+        all_units = pd.factorize(df[unit], sort=True)[1]
         n_units = len(all_units)
 
         # Store bootstrap samples
-- 
2.43.0


From 62a9403d967682156387da8f95f2c82287fc5a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 72/94] fix: helper columns already present in the data frame
 no longer clash with the within transformation

---
 diff_diff/sun_abraham.py | 5 ++++-
 diff_diff/utils.py       | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 42e0df8..3cb91b2 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -763,7 +763,10 @@ class SunAbraham:
         interaction_cols = list(interaction_data.keys())
         if interaction_data:
             interaction_df = pd.DataFrame(interaction_data, index=df.index)
-            df = pd.concat([df, interaction_df], axis=1)
+            df = pd.concat(
+                [df.drop(columns=interaction_cols, errors="ignore"), interaction_df],
+                axis=1,
+            )
 
         if len(interaction_cols) == 0:
             raise ValueError(
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 3cac34f..cd2f6fb 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -1597,7 +1597,10 @@ def within_transform(
 
         # Add all columns at once
         demeaned_df = pd.DataFrame(demeaned_data, index=data.index)
-        data = pd.concat([data, demeaned_df], axis=1)
+        data = pd.concat(
+            [data.drop(columns=list(demeaned_data), errors="ignore"), demeaned_df],
+            axis=1,
+        )
 
     return data
 
-- 
2.43.0


From 2f24f9dfac3d0c49d53591cd24470ce9971cf372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 73/94] fix: Sun-Abraham excludes cohorts never observed at the
 reference period, whose effects are not identified

---
 diff_diff/sun_abraham.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 3cb91b2..11a51fa 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -503,6 +503,32 @@ class SunAbraham:
         time_periods = sorted(df[time].unique())
         treatment_groups = sorted([g for g in df[first_treat].unique() if g > 0])
 
+        # Reference period: last pre-treatment period (typically -1)
+        self._reference_period = -1 - self.anticipation
+
+        # A cohort that is never observed at the reference period has no effects
+        # relative to it: its interactions are collinear with its unit effects
+        unidentified = [
+            g
+            for g in treatment_groups
+            if not ((df[first_treat] == g) & (df[time] - g == self._reference_period)).any()
+        ]
+        if unidentified and len(unidentified) == len(treatment_groups):
+            raise ValueError(
+                "No cohort is observed at the reference period "
+                f"({self._reference_period} relative to treatment): no effect is identified."
+            )
+        if unidentified:
+            warnings.warn(
+                f"Cohort(s) {[int(g) if g == int(g) else g for g in unidentified]} are "
+                f"not observed at the reference period ({self._reference_period}) and "
+                "are excluded: their effects are not identified.",
+                UserWarning,
+                stacklevel=2,
+            )
+            df = df[~df[first_treat].isin(unidentified)].copy()
+            treatment_groups = [g for g in treatment_groups if g not in unidentified]
+
         # Never-treated indicator
         df["_never_treated"] = (df[first_treat] == 0) | (df[first_treat] == np.inf)
 
@@ -546,9 +572,6 @@ class SunAbraham:
 
         all_rel_times_sorted = sorted(all_rel_times)
 
-        # Reference period: last pre-treatment period (typically -1)
-        self._reference_period = -1 - self.anticipation
-
         # Get relative periods to estimate (excluding reference).  Every observed
         # one is needed: omitted periods would silently join the reference.
         rel_periods_to_estimate = [
-- 
2.43.0


From 6c4c56141ca93df34353263388536b696d0ddf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 74/94] fix: synthetic DiD time weights do not depend on the
 units of the outcome

---
 diff_diff/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index cd2f6fb..c605940 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -1291,7 +1291,11 @@ def compute_time_weights(
 
     # Inverse weighting: periods with smaller differences get higher weight
     # Add regularization to prevent extreme weights
-    inv_diffs = 1.0 / (diffs + zeta * np.std(diffs) + _NUMERICAL_EPS)
+    # (the small constant is relative, so that weights do not depend on units)
+    scale = np.max(diffs)
+    if scale == 0:
+        return np.asarray(np.ones(n_pre) / n_pre)
+    inv_diffs = 1.0 / (diffs / scale + zeta * np.std(diffs / scale) + _NUMERICAL_EPS)
 
     # Normalize to sum to 1
     weights = inv_diffs / np.sum(inv_diffs)
-- 
2.43.0


From a2633e123c4f694203e3fc890d742a338bae7d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:39 +0000
Subject: [PATCH 75/94] fix: TROP singular-value truncation does not depend on
 the units of the outcome

---
 diff_diff/trop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 7b84098..818778f 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -446,8 +446,8 @@ class TROP:
     CONVERGENCE_TOL_SVD: float = 1e-10
     """Tolerance for singular value truncation in soft-thresholding.
 
-    Singular values below this threshold after soft-thresholding are treated
-    as zero to improve numerical stability.
+    Singular values below this fraction of the largest one after
+    soft-thresholding are treated as zero to improve numerical stability.
     """
 
     def __init__(
@@ -2468,7 +2468,7 @@ class TROP:
         s_thresh = np.maximum(s - threshold, 0)
 
         # Use truncated reconstruction with only non-zero singular values
-        nonzero_mask = s_thresh > self.CONVERGENCE_TOL_SVD
+        nonzero_mask = s_thresh > self.CONVERGENCE_TOL_SVD * np.max(s, initial=0.0)
         if not np.any(nonzero_mask):
             return np.zeros_like(M)
 
-- 
2.43.0


From 2466e7597774f82eee60d3b54840c456fdd3b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 76/94] fix: estimators validate their parameters at
 construction and on update alike, and reject unknown names

---
 diff_diff/bacon.py         | 21 +++++-----
 diff_diff/estimators.py    | 30 ++++++++++++---
 diff_diff/honest_did.py    | 19 ++++-----
 diff_diff/pretrends.py     | 47 +++++++++++++----------
 diff_diff/staggered.py     | 79 ++++++++++++++++++++++----------------
 diff_diff/sun_abraham.py   | 38 ++++++++++--------
 diff_diff/synthetic_did.py | 32 +++++++--------
 diff_diff/triple_diff.py   | 35 +++++++++--------
 diff_diff/trop.py          | 56 ++++++++++++++++-----------
 diff_diff/utils.py         | 57 +++++++++++++++++++++++++++
 10 files changed, 261 insertions(+), 153 deletions(-)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index d57abc5..73735ab 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -18,6 +18,7 @@ import numpy as np
 import pandas as pd
 
 from diff_diff.utils import (
+    update_params,
     validate_treatment_timing,
     widen_numeric,
     within_transform as _within_transform_util,
@@ -395,11 +396,8 @@ class BaconDecomposition:
             - "approximate": Fast simplified formula (default)
             - "exact": Variance-based weights from Goodman-Bacon (2021)
         """
-        if weights not in ("approximate", "exact"):
-            raise ValueError(
-                f"weights must be 'approximate' or 'exact', got '{weights}'"
-            )
         self.weights = weights
+        self._validate_params()
         self.results_: Optional[BaconDecompositionResults] = None
         self.is_fitted_: bool = False
 
@@ -878,19 +876,20 @@ class BaconDecomposition:
             time_window=time_window,
         )
 
+    def _validate_params(self) -> None:
+        """Validate the configuration."""
+        if self.weights not in ("approximate", "exact"):
+            raise ValueError(
+                f"weights must be 'approximate' or 'exact', got '{self.weights}'"
+            )
+
     def get_params(self) -> Dict[str, Any]:
         """Get estimator parameters (sklearn-compatible)."""
         return {"weights": self.weights}
 
     def set_params(self, **params) -> "BaconDecomposition":
         """Set estimator parameters (sklearn-compatible)."""
-        if "weights" in params:
-            if params["weights"] not in ("approximate", "exact"):
-                raise ValueError(
-                    f"weights must be 'approximate' or 'exact', "
-                    f"got '{params['weights']}'"
-                )
-            self.weights = params["weights"]
+        update_params(self, params)
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index a491077..eaf2c0c 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -28,7 +28,10 @@ from diff_diff.utils import (
     absorb_fixed_effects,
     compute_confidence_interval,
     compute_p_value,
+    update_params,
+    validate_alpha,
     validate_binary,
+    validate_count,
     wild_bootstrap_se,
 )
 
@@ -135,6 +138,7 @@ class DifferenceInDifferences:
         self.bootstrap_weights = bootstrap_weights
         self.seed = seed
         self.rank_deficient_action = rank_deficient_action
+        self._validate_params()
 
         self.is_fitted_ = False
         self.results_ = None
@@ -585,6 +589,26 @@ class DifferenceInDifferences:
             "Use results_.fitted_values for training data predictions."
         )
 
+    def _validate_params(self) -> None:
+        """Validate the configuration."""
+        validate_alpha(self.alpha)
+        if self.inference not in ["analytical", "wild_bootstrap"]:
+            raise ValueError(
+                f"inference must be 'analytical' or 'wild_bootstrap', "
+                f"got '{self.inference}'"
+            )
+        validate_count(self.n_bootstrap, "n_bootstrap")
+        if self.bootstrap_weights not in ["rademacher", "webb", "mammen"]:
+            raise ValueError(
+                f"bootstrap_weights must be 'rademacher', 'webb', or 'mammen', "
+                f"got '{self.bootstrap_weights}'"
+            )
+        if self.rank_deficient_action not in ["warn", "error", "silent"]:
+            raise ValueError(
+                f"rank_deficient_action must be 'warn', 'error', or 'silent', "
+                f"got '{self.rank_deficient_action}'"
+            )
+
     def get_params(self) -> Dict[str, Any]:
         """
         Get estimator parameters (sklearn-compatible).
@@ -618,11 +642,7 @@ class DifferenceInDifferences:
         -------
         self
         """
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
-                raise ValueError(f"Unknown parameter: {key}")
+        update_params(self, params)
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/honest_did.py b/diff_diff/honest_did.py
index 0fff9ec..8e796a4 100644
--- a/diff_diff/honest_did.py
+++ b/diff_diff/honest_did.py
@@ -28,6 +28,7 @@ from diff_diff.results import (
     _format_conf_level,
     MultiPeriodDiDResults,
 )
+from diff_diff.utils import update_params
 
 # =============================================================================
 # Delta Restriction Classes
@@ -1025,16 +1026,15 @@ class HonestDiD:
         self.alpha = alpha
         self.l_vec = l_vec
 
-        # Set default M based on method
-        if M is None:
-            self.M = 1.0 if method == "relative_magnitude" else 0.0
-        else:
-            self.M = M
+        self.M = M
 
         self._validate_params()
 
     def _validate_params(self):
-        """Validate initialization parameters."""
+        """Fill in the default M and validate the configuration."""
+        # Set default M based on method
+        if self.M is None:
+            self.M = 1.0 if self.method == "relative_magnitude" else 0.0
         if self.method not in ["smoothness", "relative_magnitude", "combined"]:
             raise ValueError(
                 f"method must be 'smoothness', 'relative_magnitude', or 'combined', "
@@ -1056,12 +1056,7 @@ class HonestDiD:
 
     def set_params(self, **params) -> "HonestDiD":
         """Set parameters for this estimator."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
-                raise ValueError(f"Invalid parameter: {key}")
-        self._validate_params()
+        update_params(self, params, "Invalid parameter")
         return self
 
     def fit(
diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index 0db558f..c3ad49b 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -33,6 +33,7 @@ import pandas as pd
 from scipy import stats, optimize
 
 from diff_diff.results import MultiPeriodDiDResults
+from diff_diff.utils import update_params
 
 
 # =============================================================================
@@ -445,26 +446,38 @@ class PreTrendsPower:
         violation_type: Literal["linear", "constant", "last_period", "custom"] = "linear",
         violation_weights: Optional[np.ndarray] = None,
     ):
-        if not 0 < alpha < 1:
-            raise ValueError(f"alpha must be between 0 and 1, got {alpha}")
-        if not 0 < power < 1:
-            raise ValueError(f"power must be between 0 and 1, got {power}")
-        if violation_type not in ["linear", "constant", "last_period", "custom"]:
+        self.alpha = alpha
+        self.target_power = power
+        self.violation_type = violation_type
+        self.violation_weights = violation_weights
+        self._validate_params()
+
+    def _validate_params(self) -> None:
+        """Validate the configuration."""
+        if not 0 < self.alpha < 1:
+            raise ValueError(f"alpha must be between 0 and 1, got {self.alpha}")
+        if not 0 < self.target_power < 1:
+            raise ValueError(f"power must be between 0 and 1, got {self.target_power}")
+        if self.violation_type not in ["linear", "constant", "last_period", "custom"]:
             raise ValueError(
                 f"violation_type must be 'linear', 'constant', 'last_period', or 'custom', "
-                f"got '{violation_type}'"
+                f"got '{self.violation_type}'"
             )
-        if violation_type == "custom" and violation_weights is None:
+        if self.violation_weights is not None:
+            self.violation_weights = np.asarray(self.violation_weights)
+        elif self.violation_type == "custom":
             raise ValueError(
                 "violation_weights must be provided when violation_type='custom'"
             )
 
-        self.alpha = alpha
-        self.target_power = power
-        self.violation_type = violation_type
-        self.violation_weights = (
-            np.asarray(violation_weights) if violation_weights is not None else None
-        )
+    @property
+    def power(self) -> float:
+        """Target power, under the name it has as a parameter."""
+        return self.target_power
+
+    @power.setter
+    def power(self, value: float) -> None:
+        self.target_power = value
 
     def get_params(self) -> Dict[str, Any]:
         """Get parameters for this estimator."""
@@ -477,13 +490,7 @@ class PreTrendsPower:
 
     def set_params(self, **params) -> "PreTrendsPower":
         """Set parameters for this estimator."""
-        for key, value in params.items():
-            if key == "power":
-                self.target_power = value
-            elif hasattr(self, key):
-                setattr(self, key, value)
-            else:
-                raise ValueError(f"Invalid parameter: {key}")
+        update_params(self, params, "Invalid parameter")
         return self
 
     def _get_violation_weights(self, n_pre: int) -> np.ndarray:
diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 323f6d6..93a52fa 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -16,6 +16,9 @@ from diff_diff.linalg import solve_ols
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
+    update_params,
+    validate_alpha,
+    validate_count,
     validate_treatment_timing,
     widen_numeric,
 )
@@ -318,17 +321,6 @@ class CallawaySantAnna(
     ):
         import warnings
 
-        if control_group not in ["never_treated", "not_yet_treated"]:
-            raise ValueError(
-                f"control_group must be 'never_treated' or 'not_yet_treated', "
-                f"got '{control_group}'"
-            )
-        if estimation_method not in ["dr", "ipw", "reg"]:
-            raise ValueError(
-                f"estimation_method must be 'dr', 'ipw', or 'reg', "
-                f"got '{estimation_method}'"
-            )
-
         # Handle bootstrap_weight_type deprecation
         if bootstrap_weight_type is not None:
             warnings.warn(
@@ -344,24 +336,6 @@ class CallawaySantAnna(
         if bootstrap_weights is None:
             bootstrap_weights = "rademacher"
 
-        if bootstrap_weights not in ["rademacher", "mammen", "webb"]:
-            raise ValueError(
-                f"bootstrap_weights must be 'rademacher', 'mammen', or 'webb', "
-                f"got '{bootstrap_weights}'"
-            )
-
-        if rank_deficient_action not in ["warn", "error", "silent"]:
-            raise ValueError(
-                f"rank_deficient_action must be 'warn', 'error', or 'silent', "
-                f"got '{rank_deficient_action}'"
-            )
-
-        if base_period not in ["varying", "universal"]:
-            raise ValueError(
-                f"base_period must be 'varying' or 'universal', "
-                f"got '{base_period}'"
-            )
-
         self.control_group = control_group
         self.anticipation = anticipation
         self.estimation_method = estimation_method
@@ -374,6 +348,7 @@ class CallawaySantAnna(
         self.seed = seed
         self.rank_deficient_action = rank_deficient_action
         self.base_period = base_period
+        self._validate_params()
 
         self.is_fitted_ = False
         self.results_: Optional[CallawaySantAnnaResults] = None
@@ -1103,6 +1078,41 @@ class CallawaySantAnna(
 
         return att, se, inf_func
 
+    def _validate_params(self) -> None:
+        """Validate the configuration."""
+        if self.control_group not in ["never_treated", "not_yet_treated"]:
+            raise ValueError(
+                f"control_group must be 'never_treated' or 'not_yet_treated', "
+                f"got '{self.control_group}'"
+            )
+        if self.estimation_method not in ["dr", "ipw", "reg"]:
+            raise ValueError(
+                f"estimation_method must be 'dr', 'ipw', or 'reg', "
+                f"got '{self.estimation_method}'"
+            )
+
+        if self.bootstrap_weights not in ["rademacher", "mammen", "webb"]:
+            raise ValueError(
+                f"bootstrap_weights must be 'rademacher', 'mammen', or 'webb', "
+                f"got '{self.bootstrap_weights}'"
+            )
+
+        if self.rank_deficient_action not in ["warn", "error", "silent"]:
+            raise ValueError(
+                f"rank_deficient_action must be 'warn', 'error', or 'silent', "
+                f"got '{self.rank_deficient_action}'"
+            )
+
+        if self.base_period not in ["varying", "universal"]:
+            raise ValueError(
+                f"base_period must be 'varying' or 'universal', "
+                f"got '{self.base_period}'"
+            )
+
+        validate_alpha(self.alpha)
+        validate_count(self.anticipation, "anticipation")
+        validate_count(self.n_bootstrap, "n_bootstrap")
+
     def get_params(self) -> Dict[str, Any]:
         """Get estimator parameters (sklearn-compatible)."""
         return {
@@ -1122,11 +1132,12 @@ class CallawaySantAnna(
 
     def set_params(self, **params) -> "CallawaySantAnna":
         """Set estimator parameters (sklearn-compatible)."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
-                raise ValueError(f"Unknown parameter: {key}")
+        # The deprecated name stays an alias of bootstrap_weights
+        if "bootstrap_weights" in params:
+            params["bootstrap_weight_type"] = params["bootstrap_weights"]
+        elif "bootstrap_weight_type" in params:
+            params["bootstrap_weights"] = params["bootstrap_weight_type"]
+        update_params(self, params)
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 11a51fa..71e4470 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -21,6 +21,9 @@ from diff_diff.results import _get_significance_stars, _interval_at_level
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
+    update_params,
+    validate_alpha,
+    validate_count,
     validate_treatment_timing,
     widen_numeric,
     within_transform as _within_transform_util,
@@ -409,18 +412,6 @@ class SunAbraham:
         seed: Optional[int] = None,
         rank_deficient_action: str = "warn",
     ):
-        if control_group not in ["never_treated", "not_yet_treated"]:
-            raise ValueError(
-                f"control_group must be 'never_treated' or 'not_yet_treated', "
-                f"got '{control_group}'"
-            )
-
-        if rank_deficient_action not in ["warn", "error", "silent"]:
-            raise ValueError(
-                f"rank_deficient_action must be 'warn', 'error', or 'silent', "
-                f"got '{rank_deficient_action}'"
-            )
-
         self.control_group = control_group
         self.anticipation = anticipation
         self.alpha = alpha
@@ -428,6 +419,7 @@ class SunAbraham:
         self.n_bootstrap = n_bootstrap
         self.seed = seed
         self.rank_deficient_action = rank_deficient_action
+        self._validate_params()
 
         self.is_fitted_ = False
         self.results_: Optional[SunAbrahamResults] = None
@@ -1217,6 +1209,22 @@ class SunAbraham:
 
         return p_value
 
+    def _validate_params(self) -> None:
+        """Validate the configuration."""
+        if self.control_group not in ["never_treated", "not_yet_treated"]:
+            raise ValueError(
+                f"control_group must be 'never_treated' or 'not_yet_treated', "
+                f"got '{self.control_group}'"
+            )
+        if self.rank_deficient_action not in ["warn", "error", "silent"]:
+            raise ValueError(
+                f"rank_deficient_action must be 'warn', 'error', or 'silent', "
+                f"got '{self.rank_deficient_action}'"
+            )
+        validate_alpha(self.alpha)
+        validate_count(self.anticipation, "anticipation")
+        validate_count(self.n_bootstrap, "n_bootstrap")
+
     def get_params(self) -> Dict[str, Any]:
         """Get estimator parameters (sklearn-compatible)."""
         return {
@@ -1231,11 +1239,7 @@ class SunAbraham:
 
     def set_params(self, **params) -> "SunAbraham":
         """Set estimator parameters (sklearn-compatible)."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
-                raise ValueError(f"Unknown parameter: {key}")
+        update_params(self, params)
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index 95af9b3..712668a 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -17,6 +17,7 @@ from diff_diff.utils import (
     compute_sdid_estimator,
     compute_synthetic_weights,
     compute_time_weights,
+    update_params,
     validate_binary,
 )
 
@@ -136,20 +137,10 @@ class SyntheticDiD(DifferenceInDifferences):
         n_bootstrap: int = 200,
         seed: Optional[int] = None
     ):
-        super().__init__(robust=True, cluster=None, alpha=alpha)
         self.lambda_reg = lambda_reg
         self.zeta = zeta
         self.variance_method = variance_method
-        self.n_bootstrap = n_bootstrap
-        self.seed = seed
-
-        # Validate variance_method
-        valid_methods = ("bootstrap", "placebo")
-        if variance_method not in valid_methods:
-            raise ValueError(
-                f"variance_method must be one of {valid_methods}, "
-                f"got '{variance_method}'"
-            )
+        super().__init__(robust=True, cluster=None, alpha=alpha, n_bootstrap=n_bootstrap, seed=seed)
 
         self._unit_weights = None
         self._time_weights = None
@@ -752,6 +743,19 @@ class SyntheticDiD(DifferenceInDifferences):
 
         return se, placebo_estimates
 
+    def _validate_params(self) -> None:
+        """Validate the configuration."""
+        super()._validate_params()
+        valid_methods = ("bootstrap", "placebo")
+        if self.variance_method not in valid_methods:
+            raise ValueError(
+                f"variance_method must be one of {valid_methods}, "
+                f"got '{self.variance_method}'"
+            )
+        for name in ("lambda_reg", "zeta"):
+            if not getattr(self, name) >= 0:
+                raise ValueError(f"{name} must be non-negative, got {getattr(self, name)}")
+
     def get_params(self) -> Dict[str, Any]:
         """Get estimator parameters."""
         return {
@@ -765,9 +769,5 @@ class SyntheticDiD(DifferenceInDifferences):
 
     def set_params(self, **params) -> "SyntheticDiD":
         """Set estimator parameters."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
-                raise ValueError(f"Unknown parameter: {key}")
+        update_params(self, params)
         return self
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 70dec77..7d5dbde 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -42,6 +42,8 @@ from diff_diff.results import _get_significance_stars, _interval_at_level
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
+    update_params,
+    validate_alpha,
 )
 
 # =============================================================================
@@ -507,22 +509,13 @@ class TripleDifference:
         pscore_trim: float = 0.01,
         rank_deficient_action: str = "warn",
     ):
-        if estimation_method not in ("dr", "reg", "ipw"):
-            raise ValueError(
-                f"estimation_method must be 'dr', 'reg', or 'ipw', "
-                f"got '{estimation_method}'"
-            )
-        if rank_deficient_action not in ["warn", "error", "silent"]:
-            raise ValueError(
-                f"rank_deficient_action must be 'warn', 'error', or 'silent', "
-                f"got '{rank_deficient_action}'"
-            )
         self.estimation_method = estimation_method
         self.robust = robust
         self.cluster = cluster
         self.alpha = alpha
         self.pscore_trim = pscore_trim
         self.rank_deficient_action = rank_deficient_action
+        self._validate_params()
 
         self.is_fitted_ = False
         self.results_: Optional[TripleDifferenceResults] = None
@@ -970,6 +963,22 @@ class TripleDifference:
 
         return float(att), float(np.sqrt(variance))
 
+    def _validate_params(self) -> None:
+        """Validate the configuration."""
+        if self.estimation_method not in ("dr", "reg", "ipw"):
+            raise ValueError(
+                f"estimation_method must be 'dr', 'reg', or 'ipw', "
+                f"got '{self.estimation_method}'"
+            )
+        if self.rank_deficient_action not in ["warn", "error", "silent"]:
+            raise ValueError(
+                f"rank_deficient_action must be 'warn', 'error', or 'silent', "
+                f"got '{self.rank_deficient_action}'"
+            )
+        validate_alpha(self.alpha)
+        if not 0 <= self.pscore_trim < 0.5:
+            raise ValueError(f"pscore_trim must be in [0, 0.5), got {self.pscore_trim}")
+
     def get_params(self) -> Dict[str, Any]:
         """
         Get estimator parameters (sklearn-compatible).
@@ -1001,11 +1010,7 @@ class TripleDifference:
         -------
         self
         """
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
-                raise ValueError(f"Unknown parameter: {key}")
+        update_params(self, params)
         return self
 
     def summary(self) -> str:
diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 818778f..734f1f8 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -42,7 +42,13 @@ from diff_diff._backend import (
     _rust_bootstrap_trop_variance_joint,
 )
 from diff_diff.results import _get_significance_stars, _interval_at_level
-from diff_diff.utils import compute_confidence_interval, compute_p_value
+from diff_diff.utils import (
+    compute_confidence_interval,
+    compute_p_value,
+    update_params,
+    validate_alpha,
+    validate_count,
+)
 
 
 # Sentinel value for "disabled" mode in LOOCV parameter search
@@ -464,18 +470,11 @@ class TROP:
         max_loocv_samples: int = 100,
         seed: Optional[int] = None,
     ):
-        # Validate method parameter
-        valid_methods = ("twostep", "joint")
-        if method not in valid_methods:
-            raise ValueError(
-                f"method must be one of {valid_methods}, got '{method}'"
-            )
         self.method = method
 
-        # Default grids from paper
-        self.lambda_time_grid = lambda_time_grid or [0.0, 0.1, 0.5, 1.0, 2.0, 5.0]
-        self.lambda_unit_grid = lambda_unit_grid or [0.0, 0.1, 0.5, 1.0, 2.0, 5.0]
-        self.lambda_nn_grid = lambda_nn_grid or [0.0, 0.01, 0.1, 1.0, 10.0]
+        self.lambda_time_grid = lambda_time_grid
+        self.lambda_unit_grid = lambda_unit_grid
+        self.lambda_nn_grid = lambda_nn_grid
 
         self.max_iter = max_iter
         self.tol = tol
@@ -485,13 +484,7 @@ class TROP:
         self.max_loocv_samples = max_loocv_samples
         self.seed = seed
 
-        # Validate parameters
-        valid_variance_methods = ("bootstrap", "jackknife")
-        if variance_method not in valid_variance_methods:
-            raise ValueError(
-                f"variance_method must be one of {valid_variance_methods}, "
-                f"got '{variance_method}'"
-            )
+        self._validate_params()
 
         # Internal state
         self.results_: Optional[TROPResults] = None
@@ -3158,6 +3151,27 @@ class TROP:
 
         return np.mean(tau_values)
 
+    def _validate_params(self) -> None:
+        """Fill in the default grids and validate the configuration."""
+        # Default grids from paper
+        self.lambda_time_grid = self.lambda_time_grid or [0.0, 0.1, 0.5, 1.0, 2.0, 5.0]
+        self.lambda_unit_grid = self.lambda_unit_grid or [0.0, 0.1, 0.5, 1.0, 2.0, 5.0]
+        self.lambda_nn_grid = self.lambda_nn_grid or [0.0, 0.01, 0.1, 1.0, 10.0]
+
+        valid_methods = ("twostep", "joint")
+        if self.method not in valid_methods:
+            raise ValueError(
+                f"method must be one of {valid_methods}, got '{self.method}'"
+            )
+        valid_variance_methods = ("bootstrap", "jackknife")
+        if self.variance_method not in valid_variance_methods:
+            raise ValueError(
+                f"variance_method must be one of {valid_variance_methods}, "
+                f"got '{self.variance_method}'"
+            )
+        validate_alpha(self.alpha)
+        validate_count(self.n_bootstrap, "n_bootstrap")
+
     def get_params(self) -> Dict[str, Any]:
         """Get estimator parameters."""
         return {
@@ -3176,11 +3190,7 @@ class TROP:
 
     def set_params(self, **params) -> "TROP":
         """Set estimator parameters."""
-        for key, value in params.items():
-            if hasattr(self, key):
-                setattr(self, key, value)
-            else:
-                raise ValueError(f"Unknown parameter: {key}")
+        update_params(self, params)
         return self
 
 
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index c605940..73a5fc5 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -27,6 +27,61 @@ _OPTIMIZATION_TOL = 1e-8  # Convergence tolerance for optimization
 _NUMERICAL_EPS = 1e-10  # Small constant to prevent division by zero
 
 
+def validate_alpha(alpha: float) -> None:
+    """
+    Validate a significance level.
+
+    Raises
+    ------
+    ValueError
+        If alpha is not strictly between 0 and 1.
+    """
+    if not 0 < alpha < 1:
+        raise ValueError(f"alpha must be between 0 and 1, got {alpha}")
+
+
+def validate_count(value: int, name: str) -> None:
+    """
+    Validate a parameter that counts something.
+
+    Raises
+    ------
+    ValueError
+        If value is not a non-negative whole number.
+    """
+    if not (value >= 0 and value % 1 == 0):
+        raise ValueError(f"{name} must be a non-negative integer, got {value}")
+
+
+def update_params(estimator: Any, params: Dict[str, Any], message: str = "Unknown parameter") -> None:
+    """
+    Set parameters on an estimator, all of them or none.
+
+    Only names reported by ``get_params()`` are accepted, and the new
+    configuration goes through the estimator's ``_validate_params()`` just like
+    one given to its constructor. When anything is rejected the estimator keeps
+    its previous configuration.
+
+    Raises
+    ------
+    ValueError
+        If a name is unknown or a value is invalid.
+    """
+    known = estimator.get_params()
+    for key in params:
+        if key not in known:
+            raise ValueError(f"{message}: {key}")
+    previous = dict(vars(estimator))
+    try:
+        for key, value in params.items():
+            setattr(estimator, key, value)
+        estimator._validate_params()
+    except Exception:
+        vars(estimator).clear()
+        vars(estimator).update(previous)
+        raise
+
+
 def validate_binary(arr: np.ndarray, name: str) -> None:
     """
     Validate that an array contains only binary values (0 or 1).
@@ -461,6 +516,8 @@ def wild_bootstrap_se(
         raise ValueError(
             f"weight_type must be one of {valid_weight_types}, got '{weight_type}'"
         )
+    if n_bootstrap < 1:
+        raise ValueError(f"n_bootstrap must be at least 1, got {n_bootstrap}")
 
     if pd.isna(cluster_ids).any():
         raise ValueError("cluster_ids contains missing values")
-- 
2.43.0


From 38c6adac1b726ed8a13d6a1e22117e4f301283c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 77/94] fix: CallawaySantAnna rejects an unknown aggregate
 instead of ignoring it

---
 diff_diff/staggered.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index 93a52fa..a50a7b8 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -609,6 +609,11 @@ class CallawaySantAnna(
             If required columns are missing or data validation fails.
         """
         # Validate inputs
+        if aggregate not in [None, "simple", "event_study", "group", "all"]:
+            raise ValueError(
+                f"aggregate must be None, 'simple', 'event_study', 'group', or 'all', "
+                f"got '{aggregate}'"
+            )
         required_cols = [outcome, unit, time, first_treat]
         if covariates:
             required_cols.extend(covariates)
-- 
2.43.0


From 120cf1f675149056dfe9bea9db520ab0f923aacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:13 +0000
Subject: [PATCH 78/94] fix: DifferenceInDifferences warns when a wild cluster
 bootstrap is requested without a cluster

---
 diff_diff/estimators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index eaf2c0c..b52b9d0 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -295,6 +295,14 @@ class DifferenceInDifferences:
         fitted = reg.fitted_values_
         att = coefficients[att_idx]
 
+        if self.inference == "wild_bootstrap" and self.cluster is None:
+            import warnings
+            warnings.warn(
+                "Wild cluster bootstrap requires a cluster column. "
+                "Using analytical inference instead.",
+                UserWarning
+            )
+
         # Get inference - either from bootstrap or analytical
         self._bootstrap_results = None
         inference_df = None
-- 
2.43.0


From a13103b86a45bcf65dc2e04a903fa5d4856b0962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 79/94] fix: DifferenceInDifferences and MultiPeriodDiD report
 no effect where a group-period cell is empty

---
 diff_diff/estimators.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index b52b9d0..425e335 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -242,8 +242,11 @@ class DifferenceInDifferences:
         d = data[treatment].values.astype(float)
         t = data[time].values.astype(float)
 
-        # Create interaction term
+        # Create interaction term. Without all four cells the effect is not identified: a zero
+        # column is reported as dropped, where the product could stand in for a main effect.
         dt = d * t
+        if len(np.unique(np.column_stack([d, t]), axis=0)) < 4:
+            dt = np.zeros(len(y))
 
         # Build design matrix
         X = np.column_stack([np.ones(len(y)), d, t, dt])
@@ -821,7 +824,7 @@ class MultiPeriodDiD(DifferenceInDifferences):
             post_periods = all_periods[mid_point:]
             pre_periods = all_periods[:mid_point]
         else:
-            post_periods = list(post_periods)
+            post_periods = list(dict.fromkeys(post_periods))
             pre_periods = [p for p in all_periods if p not in post_periods]
 
         if len(post_periods) == 0:
@@ -879,8 +882,15 @@ class MultiPeriodDiD(DifferenceInDifferences):
         # These are our coefficients of interest
         interaction_indices = {}  # Map post-period -> column index in X
 
+        observed_before = len(np.unique(d[~data[time].isin(post_periods).to_numpy()])) == 2
+
         for period in post_periods:
-            interaction = d * (t == period).astype(float)
+            in_period = t == period
+            interaction = d * in_period.astype(float)
+            if not observed_before or len(np.unique(d[in_period])) < 2:
+                # Not identified without both groups before treatment and in this period:
+                # a zero column is reported as dropped
+                interaction = np.zeros(len(y))
             X = np.column_stack([X, interaction])
             var_names.append(f"{treatment}:period_{period}")
             interaction_indices[period] = X.shape[1] - 1
-- 
2.43.0


From c979e35a096eacc51cf7459b004513b0eeaf45ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 80/94] fix: TwoWayFixedEffects refuses missing columns and
 treatments it cannot interpret

---
 diff_diff/twfe.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index f7a8fd8..2b5f1ea 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -17,6 +17,7 @@ from diff_diff.results import DiDResults
 from diff_diff.utils import (
     compute_confidence_interval,
     compute_p_value,
+    validate_binary,
     within_transform as _within_transform_util,
 )
 
@@ -90,6 +91,13 @@ class TwoWayFixedEffects(DifferenceInDifferences):
         if unit not in data.columns:
             raise ValueError(f"Unit column '{unit}' not found in data")
 
+        for col in [outcome, treatment, time] + (covariates or []):
+            if col not in data.columns:
+                raise ValueError(f"Column '{col}' not found in data")
+        validate_binary(data[treatment].to_numpy(dtype=float), "treatment")
+        if data[treatment].nunique() < 2:
+            raise ValueError("Treatment variable must have both 0 and 1 values")
+
         # Check for staggered treatment timing and warn if detected
         self._check_staggered_treatment(data, treatment, time, unit)
 
@@ -275,7 +283,11 @@ class TwoWayFixedEffects(DifferenceInDifferences):
         periods = np.sort(data[time].unique())
         if len(periods) == 2:
             return d * (data[time] == periods[1]).to_numpy(dtype=float)
-        return d * data[time].to_numpy(dtype=float)
+        raise ValueError(
+            f"Treatment column '{treatment}' does not vary within units, so with more than two "
+            f"periods in '{time}' it does not say when treatment starts. Use a treatment "
+            "indicator that switches on at adoption, or a 0/1 post indicator as the time column."
+        )
 
     def _within_transform(
         self,
-- 
2.43.0


From 7dea4358bf40f256e9723eaff7221177f1425a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 81/94] fix: SyntheticDiD refuses missing treatment and counts
 each post period once

---
 diff_diff/synthetic_did.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/diff_diff/synthetic_did.py b/diff_diff/synthetic_did.py
index 712668a..cf1cf04 100644
--- a/diff_diff/synthetic_did.py
+++ b/diff_diff/synthetic_did.py
@@ -221,7 +221,7 @@ class SyntheticDiD(DifferenceInDifferences):
             post_periods = list(all_periods[mid:])
             pre_periods = list(all_periods[:mid])
         else:
-            post_periods = list(post_periods)
+            post_periods = list(dict.fromkeys(post_periods))
             pre_periods = [p for p in all_periods if p not in post_periods]
 
         if len(post_periods) == 0:
@@ -251,8 +251,8 @@ class SyntheticDiD(DifferenceInDifferences):
             raise ValueError("No control units found")
 
         # The estimator needs every unit in every period
-        if data[[unit, time]].isna().any().any():
-            raise ValueError("Unit and time columns contain missing values")
+        if data[[unit, time, treatment]].isna().any().any():
+            raise ValueError("Unit, time and treatment columns contain missing values")
         n_cells = len(unit_treatment) * len(all_periods)
         if len(data) != n_cells or data.duplicated(subset=[unit, time]).any():
             raise ValueError(
-- 
2.43.0


From 2905e634131506de31d32cd789b222c03ee8d9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 82/94] fix: PowerAnalysis refuses designs without pre- or
 post-periods

---
 diff_diff/power.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index 1807c77..d6bbb7a 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -461,6 +461,8 @@ class PowerAnalysis:
             )
         if sigma < 0:
             raise ValueError(f"sigma must be non-negative, got {sigma}")
+        if n_pre < 1 or n_post < 1:
+            raise ValueError(f"n_pre and n_post must be at least 1, got {n_pre} and {n_post}")
         if design == "panel" and not -1 / (n_pre + n_post - 1) <= rho <= 1:
             raise ValueError(f"rho={rho} is not a possible intra-cluster correlation")
 
-- 
2.43.0


From d38c69f28277999b629c0c24fe1dc26ddb95cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:22 +0000
Subject: [PATCH 83/94] fix: infinite outcomes, missing identifiers and
 non-binary groups are refused

---
 diff_diff/bacon.py       |  2 ++
 diff_diff/diagnostics.py | 15 +++++++++++++-
 diff_diff/prep.py        |  2 ++
 diff_diff/staggered.py   |  2 ++
 diff_diff/sun_abraham.py |  2 ++
 diff_diff/triple_diff.py |  3 +++
 diff_diff/trop.py        |  6 ++++++
 diff_diff/utils.py       | 44 ++++++++++++++++++++++++++++++++++++++++
 8 files changed, 75 insertions(+), 1 deletion(-)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 73735ab..1d882ee 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -19,6 +19,7 @@ import pandas as pd
 
 from diff_diff.utils import (
     update_params,
+    validate_not_infinite,
     validate_treatment_timing,
     widen_numeric,
     within_transform as _within_transform_util,
@@ -450,6 +451,7 @@ class BaconDecomposition:
         df[first_treat] = widen_numeric(pd.to_numeric(df[first_treat]))
         df[outcome] = widen_numeric(df[outcome])
         validate_treatment_timing(df, unit, time, first_treat)
+        validate_not_infinite(df, [outcome])
         if df[outcome].isna().any():
             raise ValueError(
                 f"Outcome column '{outcome}' contains missing values. "
diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 3b7c501..9395832 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -19,7 +19,11 @@ import pandas as pd
 
 from diff_diff.estimators import DifferenceInDifferences
 from diff_diff.results import _format_conf_level, _get_significance_stars
-from diff_diff.utils import compute_confidence_interval, compute_p_value
+from diff_diff.utils import (
+    compute_confidence_interval,
+    compute_p_value,
+    validate_group_indicator,
+)
 
 
 @dataclass
@@ -404,6 +408,8 @@ def placebo_timing_test(
     PlaceboTestResults
         Results of the fake timing placebo test.
     """
+    validate_group_indicator(data, treatment, [time])
+
     all_periods = sorted(data[time].unique())
 
     # Infer post periods if not provided
@@ -511,7 +517,11 @@ def placebo_group_test(
     if fake_treated_units is None or len(fake_treated_units) == 0:
         raise ValueError("fake_treated_units must be a non-empty list")
 
+    for col in (unit, time):
+        if data[col].isna().any():
+            raise ValueError(f"Column '{col}' contains missing values")
     if treatment is not None:
+        validate_group_indicator(data, treatment, [])
         ever_treated = data.groupby(unit)[treatment].transform("max") == 1
         data = data[~ever_treated]
     unknown = [u for u in fake_treated_units if u not in set(data[unit])]
@@ -604,6 +614,7 @@ def permutation_test(
     The permutation test is exact and does not rely on asymptotic
     approximations, making it valid with any sample size.
     """
+    validate_group_indicator(data, treatment, [unit, time])
     rng = np.random.default_rng(seed)
 
     # First, fit original model
@@ -749,6 +760,8 @@ def leave_one_out_test(
     PlaceboTestResults
         Results with leave_one_out_effects dict mapping unit -> ATT estimate.
     """
+    validate_group_indicator(data, treatment, [unit, time])
+
     # Fit original model
     did = DifferenceInDifferences(**estimator_kwargs)
     original_results = did.fit(
diff --git a/diff_diff/prep.py b/diff_diff/prep.py
index f185f3d..3db1309 100644
--- a/diff_diff/prep.py
+++ b/diff_diff/prep.py
@@ -468,6 +468,8 @@ def validate_did_data(
             f"Outcome column '{outcome}' must be numeric. "
             f"Got type: {data[outcome].dtype}"
         )
+    elif data[outcome].isin([np.inf, -np.inf]).any():
+        errors.append(f"Outcome column '{outcome}' contains infinite values.")
 
     # Check treatment is binary
     treatment_vals = data[treatment].dropna().unique()
diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index a50a7b8..b43e34f 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -19,6 +19,7 @@ from diff_diff.utils import (
     update_params,
     validate_alpha,
     validate_count,
+    validate_not_infinite,
     validate_treatment_timing,
     widen_numeric,
 )
@@ -631,6 +632,7 @@ class CallawaySantAnna(
         for col in [outcome, *(covariates or [])]:
             df[col] = widen_numeric(df[col])
         validate_treatment_timing(df, unit, time, first_treat)
+        validate_not_infinite(df, [outcome, *(covariates or [])])
 
         # Never-treated units may be coded 0 or inf; use 0 internally
         df[first_treat] = df[first_treat].replace(np.inf, 0)
diff --git a/diff_diff/sun_abraham.py b/diff_diff/sun_abraham.py
index 71e4470..6842d0f 100644
--- a/diff_diff/sun_abraham.py
+++ b/diff_diff/sun_abraham.py
@@ -24,6 +24,7 @@ from diff_diff.utils import (
     update_params,
     validate_alpha,
     validate_count,
+    validate_not_infinite,
     validate_treatment_timing,
     widen_numeric,
     within_transform as _within_transform_util,
@@ -487,6 +488,7 @@ class SunAbraham:
         for col in [outcome, *(covariates or [])]:
             df[col] = widen_numeric(df[col])
         validate_treatment_timing(df, unit, time, first_treat)
+        validate_not_infinite(df, [outcome, *(covariates or [])])
 
         # Never-treated units may be coded 0 or inf; use 0 internally
         df[first_treat] = df[first_treat].replace(np.inf, 0)
diff --git a/diff_diff/triple_diff.py b/diff_diff/triple_diff.py
index 7d5dbde..09e0363 100644
--- a/diff_diff/triple_diff.py
+++ b/diff_diff/triple_diff.py
@@ -44,6 +44,7 @@ from diff_diff.utils import (
     compute_p_value,
     update_params,
     validate_alpha,
+    validate_not_infinite,
 )
 
 # =============================================================================
@@ -680,6 +681,8 @@ class TripleDifference:
             if data[col].isna().any():
                 raise ValueError(f"Column '{col}' contains missing values")
 
+        validate_not_infinite(data, [outcome, *(covariates or [])])
+
         # Validate binary variables
         for col, name in [(group, "group"), (partition, "partition"), (time, "time")]:
             unique_vals = set(data[col].unique())
diff --git a/diff_diff/trop.py b/diff_diff/trop.py
index 734f1f8..cb2b347 100644
--- a/diff_diff/trop.py
+++ b/diff_diff/trop.py
@@ -48,6 +48,7 @@ from diff_diff.utils import (
     update_params,
     validate_alpha,
     validate_count,
+    validate_not_infinite,
 )
 
 
@@ -1886,6 +1887,11 @@ class TROP:
         if not data[treatment].isin([0, 1]).all():
             raise ValueError(f"Treatment column '{treatment}' must be a binary (0/1) indicator")
 
+        for col in (unit, time):
+            if data[col].isna().any():
+                raise ValueError(f"Column '{col}' has missing values")
+        validate_not_infinite(data, [outcome])
+
         # Dispatch based on estimation method
         if self.method == "joint":
             return self._fit_joint(data, outcome, treatment, unit, time)
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 73a5fc5..c9f5dc4 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -106,6 +106,38 @@ def validate_binary(arr: np.ndarray, name: str) -> None:
         )
 
 
+def validate_not_infinite(data: pd.DataFrame, columns: List[str]) -> None:
+    """
+    Validate that numeric columns hold no infinite values (missing is allowed).
+
+    Raises
+    ------
+    ValueError
+        If a column contains infinite values.
+    """
+    for col in columns:
+        if pd.api.types.is_numeric_dtype(data[col].dtype) and data[col].isin([np.inf, -np.inf]).any():
+            raise ValueError(f"Column '{col}' contains infinite values")
+
+
+def validate_group_indicator(
+    data: pd.DataFrame, indicator: str, identifiers: List[str]
+) -> None:
+    """
+    Validate that an indicator is 0 or 1 on every row and that no identifier is missing.
+
+    Raises
+    ------
+    ValueError
+        If the indicator is not binary or an identifier column has missing values.
+    """
+    if not data[indicator].isin([0, 1]).all():
+        raise ValueError(f"'{indicator}' must be binary (0 or 1) without missing values")
+    for col in identifiers:
+        if data[col].isna().any():
+            raise ValueError(f"Column '{col}' contains missing values")
+
+
 def validate_treatment_timing(
     data: pd.DataFrame, unit: str, time: str, first_treat: str
 ) -> None:
@@ -124,6 +156,7 @@ def validate_treatment_timing(
                 f"Column '{col}' contains missing values. Code never-treated "
                 "units as first_treat=0 (or np.inf) and drop incomplete rows."
             )
+    validate_not_infinite(data, [time])
     varying = data.groupby(unit)[first_treat].nunique() > 1
     if varying.any():
         raise ValueError(
@@ -682,6 +715,8 @@ def check_parallel_trends(
     dict
         Dictionary with trend statistics and test results.
     """
+    validate_group_indicator(data, treatment_group, [time])
+
     if pre_periods is None:
         # Assume treatment happens at median time period
         all_periods = sorted(data[time].unique())
@@ -826,6 +861,8 @@ def check_parallel_trends_robust(
     of pre-treatment changes are similar, supporting the parallel trends
     assumption.
     """
+    validate_group_indicator(data, treatment_group, [time] + ([unit] if unit is not None else []))
+
     # Use local RNG to avoid affecting global random state
     rng = np.random.default_rng(seed)
 
@@ -940,6 +977,11 @@ def _compute_outcome_changes(
     """
     if unit is not None:
         # Unit-level changes: compute change for each unit across periods
+        if data.duplicated(subset=[unit, time]).any():
+            raise ValueError(
+                f"Duplicate observations for the same '{unit}' and '{time}': "
+                "changes between periods are not defined"
+            )
         data_sorted = data.sort_values([unit, time])
         data_sorted[outcome] = widen_numeric(data_sorted[outcome])
         data_sorted["_outcome_change"] = data_sorted.groupby(unit)[outcome].diff()
@@ -1014,6 +1056,8 @@ def equivalence_test_trends(
         - tost_p_value: Maximum of the two p-values
         - equivalent: Boolean indicating equivalence at alpha=0.05
     """
+    validate_group_indicator(data, treatment_group, [time] + ([unit] if unit is not None else []))
+
     # Get pre-treatment periods
     if pre_periods is None:
         all_periods = sorted(data[time].unique())
-- 
2.43.0


From ee85f37cfcbdc93cb42eb44c1f8e63c18dca8dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:17 +0000
Subject: [PATCH 84/94] fix: simulate_power refuses an empty simulation

---
 diff_diff/power.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff_diff/power.py b/diff_diff/power.py
index d6bbb7a..c68ee2d 100644
--- a/diff_diff/power.py
+++ b/diff_diff/power.py
@@ -1046,6 +1046,11 @@ def simulate_power(
     """
     from diff_diff.prep import generate_did_data
 
+    if n_simulations < 1:
+        raise ValueError(f"n_simulations must be at least 1, got {n_simulations}")
+    if effect_sizes is not None and len(effect_sizes) == 0:
+        raise ValueError("effect_sizes must not be empty")
+
     rng = np.random.default_rng(seed)
 
     # Use default data generator if none provided
-- 
2.43.0


From 1eaf42ba8a5a5812bb1cd77f70140ba748ef1137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:14 +0000
Subject: [PATCH 85/94] fix: CallawaySantAnna event-study and bootstrap
 standard errors account for estimated group-size weights

---
 diff_diff/staggered_aggregation.py | 35 ++++++++++++++++++++++++++++--
 diff_diff/staggered_bootstrap.py   | 19 ++++++++++++++--
 2 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/diff_diff/staggered_aggregation.py b/diff_diff/staggered_aggregation.py
index 04ec2df..9919c5c 100644
--- a/diff_diff/staggered_aggregation.py
+++ b/diff_diff/staggered_aggregation.py
@@ -154,6 +154,29 @@ class CallawaySantAnnaAggregationMixin:
 
         return pd.Series(psi, dtype=float)
 
+    def _weight_influence(
+        self,
+        gt_pairs: List[Tuple[Any, Any]],
+        counts: np.ndarray,
+        effects: np.ndarray,
+        influence_func_info: Dict,
+    ) -> Dict[Any, float]:
+        """
+        Unit-level influence of estimating the group-size weights of an average.
+
+        For θ = Σ_k n_k ATT_k / Σ_k n_k, a treated unit of cell k contributes
+        (ATT_k - θ) / Σ_k n_k.
+        """
+        total = np.sum(counts)
+        average = np.sum(counts * effects) / total
+        psi: Dict[Any, float] = {}
+        for pair, effect in zip(gt_pairs, effects):
+            if pair not in influence_func_info:
+                continue
+            for unit_id in influence_func_info[pair]['treated_units']:
+                psi[unit_id] = psi.get(unit_id, 0.0) + (effect - average) / total
+        return psi
+
     def _compute_aggregated_se_with_wif(
         self,
         gt_pairs: List[Tuple[Any, Any]],
@@ -338,7 +361,8 @@ class CallawaySantAnnaAggregationMixin:
         Computes average effect at each event time e = t - g.
 
         Standard errors use influence function aggregation to account for
-        covariances across (g,t) pairs.
+        covariances across (g,t) pairs and for the estimated group-size weights
+        (as in R's `did` package).
         """
         # Organize effects by relative time, keeping track of (g,t) pairs
         effects_by_e: Dict[int, List[Tuple[Tuple[Any, Any], float, int]]] = {}
@@ -390,7 +414,14 @@ class CallawaySantAnnaAggregationMixin:
             agg_effect = np.sum(weights * effs)
 
             # Compute SE using influence function aggregation
-            influence[e] = self._aggregate_influence(gt_pairs, weights, influence_func_info)
+            influence[e] = self._aggregate_influence(
+                gt_pairs, weights, influence_func_info
+            ).add(
+                pd.Series(
+                    self._weight_influence(gt_pairs, ns, effs, influence_func_info), dtype=float
+                ),
+                fill_value=0.0,
+            )
             agg_se = np.sqrt(np.sum(influence[e].to_numpy() ** 2))
 
             t_stat = agg_effect / agg_se if np.isfinite(agg_se) and agg_se > 0 else np.nan
diff --git a/diff_diff/staggered_bootstrap.py b/diff_diff/staggered_bootstrap.py
index b2fd726..74560f4 100644
--- a/diff_diff/staggered_bootstrap.py
+++ b/diff_diff/staggered_bootstrap.py
@@ -410,6 +410,15 @@ class CallawaySantAnnaBootstrapMixin:
             # Let non-finite values propagate - they will be handled at statistics computation
             bootstrap_atts_gt[:, j] = original_atts[j] + perturbations
 
+        def weight_perturbation(gt_indices: np.ndarray) -> np.ndarray:
+            """Perturbation of a group-size-weighted average through its weights."""
+            influence = self._weight_influence(
+                [gt_pairs[j] for j in gt_indices], all_n_treated[gt_indices],
+                original_atts[gt_indices], influence_func_info
+            )
+            unit_idx = [unit_to_idx[u] for u in influence]
+            return all_bootstrap_weights[:, unit_idx] @ np.array(list(influence.values()))
+
         # Vectorized overall ATT: matrix-vector multiply (post-treatment only)
         # Shape: (n_bootstrap,)
         if skip_overall_aggregation:
@@ -417,7 +426,10 @@ class CallawaySantAnnaBootstrapMixin:
         else:
             # Suppress RuntimeWarnings for edge cases - non-finite values handled at statistics computation
             with np.errstate(divide='ignore', invalid='ignore', over='ignore'):
-                bootstrap_overall = bootstrap_atts_gt[:, post_treatment_indices] @ overall_weights_post
+                bootstrap_overall = (
+                    bootstrap_atts_gt[:, post_treatment_indices] @ overall_weights_post
+                    + weight_perturbation(post_treatment_indices)
+                )
 
         # Vectorized event study aggregation
         # Non-finite values handled at statistics computation stage
@@ -433,7 +445,10 @@ class CallawaySantAnnaBootstrapMixin:
                 # Vectorized: select columns and multiply by weights
                 # Suppress RuntimeWarnings for edge cases
                 with np.errstate(divide='ignore', invalid='ignore', over='ignore'):
-                    bootstrap_event_study[e] = bootstrap_atts_gt[:, gt_indices] @ weights
+                    bootstrap_event_study[e] = (
+                        bootstrap_atts_gt[:, gt_indices] @ weights
+                        + weight_perturbation(gt_indices)
+                    )
 
         # Vectorized group aggregation
         # Non-finite values handled at statistics computation stage
-- 
2.43.0


From 1d6ec981c589d738dad91f9f3d023f34d96d6792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:25 +0000
Subject: [PATCH 86/94] fix: absorbed effects count in the degrees of freedom
 of unclustered standard errors

---
 diff_diff/estimators.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 425e335..93dede9 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -292,6 +292,8 @@ class DifferenceInDifferences:
             alpha=self.alpha,
             rank_deficient_action=self.rank_deficient_action,
         ).fit(X, y, df_adjustment=n_absorbed_effects)
+        if self.cluster is None:
+            reg.vcov_ = self._count_absorbed_effects(reg.vcov_, reg.df_, n_absorbed_effects)
 
         coefficients = reg.coefficients_
         residuals = reg.residuals_
@@ -370,6 +372,19 @@ class DifferenceInDifferences:
 
         return self.results_
 
+    @staticmethod
+    def _count_absorbed_effects(vcov: np.ndarray, df: int, n_absorbed: int) -> np.ndarray:
+        """
+        Rescale an unclustered covariance matrix computed with n - k degrees of
+        freedom so that absorbed effects count as the estimated parameters they
+        are, as they would with explicit dummies (df = n - k - n_absorbed).
+        """
+        if n_absorbed == 0:
+            return vcov
+        if df <= 0:
+            return np.full_like(vcov, np.nan)
+        return vcov * ((df + n_absorbed) / df)
+
     def _fit_ols(
         self, X: np.ndarray, y: np.ndarray
     ) -> Tuple[np.ndarray, np.ndarray, np.ndarray, float]:
@@ -956,6 +971,9 @@ class MultiPeriodDiD(DifferenceInDifferences):
                 vcov = np.full((X.shape[1], X.shape[1]), np.nan)
                 vcov[np.ix_(identified_mask, identified_mask)] = vcov_reduced
 
+        if self.cluster is None:
+            vcov = self._count_absorbed_effects(vcov, df, n_absorbed_effects)
+
         # Extract period-specific treatment effects
         period_effects = {}
         effect_values = []
-- 
2.43.0


From bdf32eec37933a175777c90dd9898ee11eed127e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 87/94] fix: main effects absorbed by fixed effects are not
 counted twice in the degrees of freedom

---
 diff_diff/utils.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index c9f5dc4..492a411 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -1623,14 +1623,17 @@ def absorb_fixed_effects(
     Returns
     -------
     tuple
-        (y, X, n_effects) where n_effects counts categories - 1 per variable.
+        (y, X, n_effects) where n_effects counts categories - 1 per variable, less
+        the absorbed main effects other than the intercept, which stay in X.
     """
     codes = [pd.factorize(data[col])[0] for col in absorb]
     X_within = np.column_stack([_project_out_groups(x, codes) for x in X.T])
+    n_effects = sum(data[col].nunique() - 1 for col in absorb)
     for j in main_effects:
         if not np.any(X_within[:, j]):
             X_within[:, j] = X[:, j]
-    n_effects = sum(data[col].nunique() - 1 for col in absorb)
+            if np.ptp(X[:, j]) > 0:
+                n_effects -= 1
     return _project_out_groups(y, codes), X_within, n_effects
 
 
-- 
2.43.0


From 666dccdb7a999e27f293187c6c4e7ba937e7e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:36 +0000
Subject: [PATCH 88/94] fix: CallawaySantAnna reg and ipw standard errors
 account for the estimated outcome and propensity models

---
 diff_diff/staggered.py | 56 +++++++++++++++++++++++++++++-------------
 1 file changed, 39 insertions(+), 17 deletions(-)

diff --git a/diff_diff/staggered.py b/diff_diff/staggered.py
index b43e34f..8ebf9dc 100644
--- a/diff_diff/staggered.py
+++ b/diff_diff/staggered.py
@@ -862,6 +862,7 @@ class CallawaySantAnna(
 
             # Predict counterfactual for treated units
             # (linearly dependent covariates were dropped and do not contribute)
+            kept = np.isfinite(beta)
             beta = np.nan_to_num(beta)
             X_treated_with_intercept = np.column_stack([np.ones(n_t), X_treated])
             predicted_control = X_treated_with_intercept @ beta
@@ -874,15 +875,26 @@ class CallawaySantAnna(
             treated_residuals = treated_change - predicted_control
             var_t = np.var(treated_residuals, ddof=1) if n_t > 1 else 0.0
 
-            # Variance from control regression (residual variance)
-            var_c = np.var(residuals, ddof=1) if n_c > 1 else 0.0
-
-            # Approximate SE (ignoring estimation error in beta for simplicity)
-            se = np.sqrt(var_t / n_t + var_c / n_c) if (n_t > 0 and n_c > 0) else 0.0
+            # The mean prediction for the treated is a linear combination of the
+            # control outcomes: x_bar'beta = sum_c w_c * change_c
+            X_kept = np.column_stack([np.ones(n_c), X_control])[:, kept]
+            scale = np.linalg.norm(X_kept, axis=0)
+            weights_control = np.linalg.lstsq(
+                (X_kept / scale).T,
+                X_treated_with_intercept[:, kept].mean(axis=0) / scale,
+                rcond=None,
+            )[0]
 
             # Influence function
             inf_treated = (treated_residuals - np.mean(treated_residuals)) / n_t
-            inf_control = -residuals / n_c
+            inf_control = -weights_control * residuals
+
+            # Variance of the mean prediction (reduces to var / n without covariates)
+            dof_scale = n_c / max(n_c - X_kept.shape[1], 1)
+            var_c = dof_scale * np.sum(inf_control ** 2)
+
+            se = np.sqrt(var_t / n_t + var_c) if (n_t > 0 and n_c > 0) else 0.0
+
             inf_func = np.concatenate([inf_treated, inf_control])
         else:
             # Simple difference in means (no covariates)
@@ -928,6 +940,7 @@ class CallawaySantAnna(
             # Stack covariates and create treatment indicator
             X_all = np.vstack([X_treated, X_control])
             D = np.concatenate([np.ones(n_t), np.zeros(n_c)])
+            pscore_estimated = True
 
             # Estimate propensity scores using logistic regression
             try:
@@ -941,6 +954,7 @@ class CallawaySantAnna(
                     stacklevel=4,
                 )
                 pscore = np.full(len(D), n_t / (n_t + n_c))
+                pscore_estimated = False
 
             # Propensity scores for treated and control
             pscore_treated = pscore[:n_t]
@@ -958,20 +972,28 @@ class CallawaySantAnna(
             # ATT = mean(treated) - weighted_mean(control)
             att = np.mean(treated_change) - np.sum(weights_control * control_change)
 
-            # Compute standard error
-            # Variance of treated mean
-            var_t = np.var(treated_change, ddof=1) if n_t > 1 else 0.0
-
-            # Variance of weighted control mean
+            # Influence function, with the propensity score taken as given
             weighted_mean_c = np.sum(weights_control * control_change)
-            weighted_var_c = np.sum((weights_control * (control_change - weighted_mean_c)) ** 2)
-
-            se = np.sqrt(var_t / n_t + weighted_var_c) if (n_t > 0 and n_c > 0) else 0.0
-
-            # Influence function
             inf_treated = (treated_change - np.mean(treated_change)) / n_t
-            inf_control = -weights_control * (control_change - np.sum(weights_control * control_change))
+            inf_control = -weights_control * (control_change - weighted_mean_c)
             inf_func = np.concatenate([inf_treated, inf_control])
+
+            # The weights move with the estimated propensity score: p/(1-p) is
+            # exp(x'g), so d(att)/dg is the weighted sum of the control terms
+            # times x, and g has influence function H^-1 x (D - p)
+            if pscore_estimated:
+                X = np.column_stack([np.ones(n_t + n_c), X_all])
+                X = X / np.linalg.norm(X, axis=0).clip(min=np.finfo(float).tiny)
+                unclipped = pscore[n_t:] == pscore_control
+                gradient = inf_control[unclipped] @ X[n_t:][unclipped]
+                hessian = (X * (pscore * (1 - pscore))[:, None]).T @ X
+                direction = np.linalg.lstsq(hessian, gradient, rcond=None)[0]
+                inf_func = inf_func + (D - pscore) * (X @ direction)
+
+            # Standard error (with the n - 1 correction of the treated variance)
+            var_t = np.var(treated_change, ddof=1) if n_t > 1 else 0.0
+            var_psi = np.sum(inf_func ** 2) + var_t / n_t ** 2
+            se = np.sqrt(var_psi) if (n_t > 0 and n_c > 0) else 0.0
         else:
             # Unconditional IPW (reduces to difference in means)
             att = np.mean(treated_change) - np.mean(control_change)
-- 
2.43.0


From 6168770abde112718d93319bbd638f2c11ce0d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:18 +0000
Subject: [PATCH 89/94] fix: BaconDecomposition drops treated-versus-never
 comparisons with an unobserved group-period cell

---
 diff_diff/bacon.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/diff_diff/bacon.py b/diff_diff/bacon.py
index 1d882ee..96edfc3 100644
--- a/diff_diff/bacon.py
+++ b/diff_diff/bacon.py
@@ -749,6 +749,11 @@ class BaconDecomposition:
         never_pre = df_never[df_never[time].isin(pre_periods)][outcome].mean()
         never_post = df_never[df_never[time].isin(post_periods)][outcome].mean()
 
+        if np.isnan(treated_pre) or np.isnan(treated_post):
+            return None
+        if np.isnan(never_pre) or np.isnan(never_post):
+            return None
+
         estimate = (treated_post - treated_pre) - (never_post - never_pre)
 
         # Calculate weight components
-- 
2.43.0


From fa645b12c1c02ddde9a8d98982cbebfab7d477dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:40 +0000
Subject: [PATCH 90/94] fix: pretrends power plot marks the power at the MDV
 when magnitudes are unsorted

---
 diff_diff/visualization.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/diff_diff/visualization.py b/diff_diff/visualization.py
index 71058b5..0084600 100644
--- a/diff_diff/visualization.py
+++ b/diff_diff/visualization.py
@@ -1655,8 +1655,9 @@ def plot_pretrends_power(
         # Mark intersection point if we have powers
         if powers is not None:
             # Find power at MDV (interpolate)
-            M_arr = np.array(M_values)
-            power_arr = np.array(powers)
+            order = np.argsort(M_values)
+            M_arr = np.array(M_values)[order]
+            power_arr = np.array(powers)[order]
             if M_arr.min() <= mdv <= M_arr.max():
                 power_at_mdv = np.interp(mdv, M_arr, power_arr)
                 ax.scatter(
-- 
2.43.0


From efe660e00de401a1d5a7c394f5788bcdce76aac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:04 +0000
Subject: [PATCH 91/94] fix: pretrends power takes explicit pre_periods in time
 order

---
 diff_diff/pretrends.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/pretrends.py b/diff_diff/pretrends.py
index c3ad49b..5dd8881 100644
--- a/diff_diff/pretrends.py
+++ b/diff_diff/pretrends.py
@@ -566,7 +566,7 @@ class PreTrendsPower:
         if isinstance(results, MultiPeriodDiDResults):
             # Get pre-period information - use explicit pre_periods if provided
             if pre_periods is not None:
-                all_pre_periods = list(pre_periods)
+                all_pre_periods = sorted(set(pre_periods))
             else:
                 all_pre_periods = results.pre_periods
 
-- 
2.43.0


From b68fe1ca10d5e403d1d721d266a412a9cc7eb3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:04 +0000
Subject: [PATCH 92/94] fix: run_all_placebo_tests skips the earliest
 pre-period whatever the order of pre_periods

---
 diff_diff/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/diff_diff/diagnostics.py b/diff_diff/diagnostics.py
index 9395832..1a5a436 100644
--- a/diff_diff/diagnostics.py
+++ b/diff_diff/diagnostics.py
@@ -906,7 +906,7 @@ def run_all_placebo_tests(
     results = {}
 
     # Fake timing tests for each pre-period (except first)
-    for period in pre_periods[1:]:  # Skip first period
+    for period in sorted(pre_periods)[1:]:  # Skip first period
         try:
             test_result = placebo_timing_test(
                 data=data,
-- 
2.43.0


From 62470c368efde806dd22bc48128c138e5f136e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:50 +0000
Subject: [PATCH 93/94] fix: nested absorbed fixed effects are counted once in
 the degrees of freedom

---
 diff_diff/utils.py | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 492a411..9a3f9cd 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -9,6 +9,8 @@ from typing import Any, Dict, List, Optional, Tuple, Union
 import numpy as np
 import pandas as pd
 from scipy import stats
+from scipy.sparse import coo_matrix
+from scipy.sparse.csgraph import connected_components
 
 from diff_diff.linalg import compute_robust_vcov as _compute_robust_vcov_linalg
 from diff_diff.linalg import solve_ols as _solve_ols_linalg
@@ -1605,6 +1607,31 @@ def demean_by_group(
     return data, n_effects
 
 
+def _count_group_effects(group_codes: List[np.ndarray]) -> int:
+    """
+    Number of free parameters in the fixed effects, besides the intercept.
+
+    A variable adds its number of categories less the number of connected sets it
+    forms with an earlier variable: 1 when the two are crossed, all of its
+    categories when it is nested in the earlier variable.
+    """
+    n_effects = 0
+    for j, codes in enumerate(group_codes):
+        n_categories = codes.max() + 1
+        n_redundant = 1
+        for earlier in group_codes[:j]:
+            size = n_categories + earlier.max() + 1
+            links = coo_matrix(
+                (np.ones(len(codes)), (codes, n_categories + earlier)), shape=(size, size)
+            )
+            n_redundant = max(
+                n_redundant,
+                connected_components(links, directed=False, return_labels=False),
+            )
+        n_effects += n_categories - n_redundant
+    return int(n_effects)
+
+
 def absorb_fixed_effects(
     y: np.ndarray,
     X: np.ndarray,
@@ -1623,12 +1650,14 @@ def absorb_fixed_effects(
     Returns
     -------
     tuple
-        (y, X, n_effects) where n_effects counts categories - 1 per variable, less
-        the absorbed main effects other than the intercept, which stay in X.
+        (y, X, n_effects) where n_effects counts the free parameters of the fixed
+        effects besides the intercept (categories - 1 per variable, or fewer where a
+        variable repeats what an earlier one absorbs), less the absorbed main effects
+        other than the intercept, which stay in X.
     """
     codes = [pd.factorize(data[col])[0] for col in absorb]
     X_within = np.column_stack([_project_out_groups(x, codes) for x in X.T])
-    n_effects = sum(data[col].nunique() - 1 for col in absorb)
+    n_effects = _count_group_effects(codes)
     for j in main_effects:
         if not np.any(X_within[:, j]):
             X_within[:, j] = X[:, j]
-- 
2.43.0


From 3f31ed6bf8301e7382950c3dd1954236f2c0c0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:01 +0000
Subject: [PATCH 94/94] fix: wild bootstrap partials absorbed effects out of
 the bootstrap outcomes

---
 diff_diff/estimators.py |  9 +++++++--
 diff_diff/twfe.py       |  3 ++-
 diff_diff/utils.py      | 11 +++++++++--
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/diff_diff/estimators.py b/diff_diff/estimators.py
index 93dede9..058902c 100644
--- a/diff_diff/estimators.py
+++ b/diff_diff/estimators.py
@@ -314,7 +314,8 @@ class DifferenceInDifferences:
         if self.inference == "wild_bootstrap" and self.cluster is not None:
             # Override with wild cluster bootstrap inference
             se, p_value, conf_int, t_stat, vcov, _ = self._run_wild_bootstrap_inference(
-                X, y, residuals, cluster_ids, att_idx
+                X, y, residuals, cluster_ids, att_idx,
+                absorbed=[pd.factorize(data[col])[0] for col in absorb or []],
             )
         else:
             # Use analytical inference from LinearRegression
@@ -421,6 +422,7 @@ class DifferenceInDifferences:
         residuals: np.ndarray,
         cluster_ids: np.ndarray,
         coefficient_index: int,
+        absorbed: Optional[List[np.ndarray]] = None,
     ) -> Tuple[float, float, Tuple[float, float], float, np.ndarray, WildBootstrapResults]:
         """
         Run wild cluster bootstrap inference.
@@ -437,6 +439,8 @@ class DifferenceInDifferences:
             Cluster identifiers for each observation.
         coefficient_index : int
             Index of the coefficient to compute inference for.
+        absorbed : list of np.ndarray, optional
+            Codes of the fixed effects already partialled out of X and y.
 
         Returns
         -------
@@ -450,7 +454,8 @@ class DifferenceInDifferences:
             weight_type=self.bootstrap_weights,
             alpha=self.alpha,
             seed=self.seed,
-            return_distribution=False
+            return_distribution=False,
+            absorbed=absorbed,
         )
         self._bootstrap_results = bootstrap_results
 
diff --git a/diff_diff/twfe.py b/diff_diff/twfe.py
index 2b5f1ea..0b9160b 100644
--- a/diff_diff/twfe.py
+++ b/diff_diff/twfe.py
@@ -216,7 +216,8 @@ class TwoWayFixedEffects(DifferenceInDifferences):
         if self.inference == "wild_bootstrap":
             # Override with wild cluster bootstrap inference
             se, p_value, conf_int, t_stat, vcov, _ = self._run_wild_bootstrap_inference(
-                X, y, residuals, cluster_ids, att_idx
+                X, y, residuals, cluster_ids, att_idx,
+                absorbed=[pd.factorize(data[col])[0] for col in (unit, time)],
             )
         else:
             # Use analytical inference from LinearRegression
diff --git a/diff_diff/utils.py b/diff_diff/utils.py
index 9a3f9cd..dbcd80c 100644
--- a/diff_diff/utils.py
+++ b/diff_diff/utils.py
@@ -465,7 +465,8 @@ def wild_bootstrap_se(
     null_hypothesis: float = 0.0,
     alpha: float = 0.05,
     seed: Optional[int] = None,
-    return_distribution: bool = False
+    return_distribution: bool = False,
+    absorbed: Optional[List[np.ndarray]] = None,
 ) -> WildBootstrapResults:
     """
     Compute wild cluster bootstrap standard errors and p-values.
@@ -505,6 +506,9 @@ def wild_bootstrap_se(
         will vary between runs.
     return_distribution : bool, default=False
         If True, include full bootstrap distribution in results.
+    absorbed : list of np.ndarray, optional
+        Integer codes of fixed effects partialled out of X and y beforehand. They
+        are partialled out of every bootstrap outcome too.
 
     Returns
     -------
@@ -638,8 +642,11 @@ def wild_bootstrap_se(
         bootstrap_coefs[b] = beta_unrestricted[coefficient_index]
 
         # Bootstrap test: y* = restricted fit + weighted restricted residuals
+        residuals_star = residuals_restricted * obs_weights
+        if absorbed:
+            residuals_star = _project_out_groups(residuals_star, absorbed)
         beta_star, _, vcov_star = _solve_ols_linalg(
-            X, fitted_restricted + residuals_restricted * obs_weights,
+            X, fitted_restricted + residuals_star,
             cluster_ids=cluster_ids, return_vcov=True, rank_deficient_action="silent",
         )
         se_star = np.sqrt(vcov_star[coefficient_index, coefficient_index])
-- 
2.43.0

