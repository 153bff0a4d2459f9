From a267e94d7b2cca1036efd294d4d9ca8a332f4f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:15 +0000
Subject: [PATCH 01/60] fix: assign all remainder observations to the last
 combinatorial fold

When the remainder was larger than a fold, the trailing observations
belonged to no fold: they were never tested and always trained on.
---
 src/skfolio/model_selection/_combinatorial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/model_selection/_combinatorial.py b/src/skfolio/model_selection/_combinatorial.py
index 4c78c13..bb7b79d 100644
--- a/src/skfolio/model_selection/_combinatorial.py
+++ b/src/skfolio/model_selection/_combinatorial.py
@@ -279,7 +279,7 @@ class CombinatorialPurgedCV(BaseCombinatorialCV):
             )
 
         fold_index_num = np.arange(n_samples) // (n_samples // self.n_folds)
-        fold_index_num[fold_index_num == self.n_folds] = self.n_folds - 1
+        fold_index_num[fold_index_num >= self.n_folds] = self.n_folds - 1
 
         index_train_test = np.zeros((n_samples, self.n_splits))
         for i in range(self.n_splits):
-- 
2.43.0


From 719e4583671479de4675a0f7f4f43916a72656ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:15 +0000
Subject: [PATCH 02/60] fix: do not rescale the implied volatility array passed
 by the caller

The annualization was applied in place on the array given to fit.
---
 src/skfolio/moments/covariance/_implied_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_implied_covariance.py b/src/skfolio/moments/covariance/_implied_covariance.py
index 787999d..7581259 100644
--- a/src/skfolio/moments/covariance/_implied_covariance.py
+++ b/src/skfolio/moments/covariance/_implied_covariance.py
@@ -275,7 +275,7 @@ class ImpliedCovariance(BaseCovariance):
         X = skv.validate_data(self, X)
         _, n_assets = X.shape
         implied_vol = check_implied_vol(implied_vol=implied_vol, X=X)
-        implied_vol /= np.sqrt(self.annualized_factor)
+        implied_vol = implied_vol / np.sqrt(self.annualized_factor)
 
         if self.volatility_risk_premium_adj is not None:
             if np.isscalar(self.volatility_risk_premium_adj):
-- 
2.43.0


From 30bd9645b80fc9b2d13c02cddc5bacbbe4c0223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:15 +0000
Subject: [PATCH 03/60] fix: reject negative implied volatilities

The check was applied to the expected shape instead of the values.
---
 src/skfolio/moments/covariance/_implied_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_implied_covariance.py b/src/skfolio/moments/covariance/_implied_covariance.py
index 7581259..f09a482 100644
--- a/src/skfolio/moments/covariance/_implied_covariance.py
+++ b/src/skfolio/moments/covariance/_implied_covariance.py
@@ -452,6 +452,6 @@ def check_implied_vol(implied_vol: npt.ArrayLike, X: npt.ArrayLike) -> np.ndarra
                 f"expected {(n_observations, n_assets)}"
             )
 
-    skv.check_non_negative((n_observations, n_assets), "`implied_vol`")
+    skv.check_non_negative(implied_vol, "`implied_vol`")
     # noinspection PyTypeChecker
     return implied_vol
-- 
2.43.0


From 664aa92c1b96f51306aad20e0581b612a8ab5c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:15 +0000
Subject: [PATCH 04/60] fix: do not modify the risk budget array passed by the
 caller

Zero budgets were replaced in place in the array given by the user.
---
 src/skfolio/optimization/convex/_risk_budgeting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_risk_budgeting.py b/src/skfolio/optimization/convex/_risk_budgeting.py
index 6e3c779..62c46ce 100644
--- a/src/skfolio/optimization/convex/_risk_budgeting.py
+++ b/src/skfolio/optimization/convex/_risk_budgeting.py
@@ -491,7 +491,7 @@ class RiskBudgeting(ConvexOptimization):
                 fill_value=1e-10,
                 name="risk_budget",
             )
-            risk_budget[risk_budget == 0] = 1e-10
+            risk_budget = np.where(risk_budget == 0, 1e-10, risk_budget)
 
         # Variables
         w = cp.Variable(n_assets)
-- 
2.43.0


From c7b20f04d45e9a11d94b877b487313ce52b9970f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:07:15 +0000
Subject: [PATCH 05/60] fix: do not modify the view confidences passed by the
 caller

Zero confidences were replaced in place in the array given by the user.
---
 src/skfolio/prior/_black_litterman.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/prior/_black_litterman.py b/src/skfolio/prior/_black_litterman.py
index f7068df..bf85580 100644
--- a/src/skfolio/prior/_black_litterman.py
+++ b/src/skfolio/prior/_black_litterman.py
@@ -238,7 +238,9 @@ class BlackLitterman(BasePrior):
                 raise ValueError(
                     "all values of view_confidences must be between 0 and 1"
                 )
-            view_confidences[view_confidences == 0] = 1e-16
+            view_confidences = np.where(
+                view_confidences == 0, 1e-16, view_confidences
+            )
             alphas = 1 / view_confidences - 1
             omega = np.diag(
                 np.diag(
-- 
2.43.0


From ed59b31e86509cec388e0a510b378ee18aee8b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:54 +0000
Subject: [PATCH 06/60] fix: honour the absolute option of DropCorrelated

The option was accepted and documented but had no effect.
---
 src/skfolio/pre_selection/_drop_correlated.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/pre_selection/_drop_correlated.py b/src/skfolio/pre_selection/_drop_correlated.py
index cb293c8..7bd5bde 100644
--- a/src/skfolio/pre_selection/_drop_correlated.py
+++ b/src/skfolio/pre_selection/_drop_correlated.py
@@ -80,6 +80,8 @@ class DropCorrelated(skf.SelectorMixin, skb.BaseEstimator):
 
         n_assets = X.shape[1]
         corr = np.corrcoef(X.T)
+        if self.absolute:
+            corr = np.abs(corr)
         mean_corr = corr.mean(axis=0)
 
         triu_idx = np.triu_indices(n_assets, 1)
-- 
2.43.0


From 67d5fe85a872fda220f67cddd51dffdad702d510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:54 +0000
Subject: [PATCH 07/60] fix: purge the train set in WalkForward with a train
 size offset

The purged observations were removed from the end of the test set instead
of the end of the train set, so the train set was adjacent to the test set.
---
 src/skfolio/model_selection/_walk_forward.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index a8993f1..9d35748 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -428,13 +428,13 @@ def _split_from_period_with_train_offset(
                 return
             test_indices = np.arange(idx[i], n_samples)
         else:
-            test_indices = np.arange(idx[i], idx[i + test_size] - purged_size)
+            test_indices = np.arange(idx[i], idx[i + test_size])
 
         if expend_train:
             train_start = 0
         else:
             train_start = train_idx[i]
-        train_indices = np.arange(train_start, idx[i])
+        train_indices = np.arange(train_start, idx[i] - purged_size)
         yield train_indices, test_indices
 
         i += test_size
-- 
2.43.0


From 974c4f020f0739e05b7f9483e64f7ea2c52d3cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:54 +0000
Subject: [PATCH 08/60] fix: ignore WalkForward rebalancing dates outside the
 observations

A date before the first or after the last observation was resolved to the
index -1, which put the last observation in the train set or emptied the
test set.
---
 src/skfolio/model_selection/_walk_forward.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index 9d35748..6cb2038 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -364,6 +364,8 @@ def _split_from_period_without_train_offset(
         date_range += freq_offset
 
     idx = ts_index.get_indexer(date_range, method="ffill" if previous else "bfill")
+    # Drop the dates that fall outside the observations
+    idx = idx[idx > -1]
     n = len(idx)
     i = 0
     while True:
@@ -412,6 +414,9 @@ def _split_from_period_with_train_offset(
 
     idx = ts_index.get_indexer(date_range, method="ffill" if previous else "bfill")
     train_idx = ts_index.get_indexer(date_range - train_size, method="ffill")
+    # Drop the dates that fall outside the observations
+    train_idx = train_idx[idx > -1]
+    idx = idx[idx > -1]
 
     n = len(idx)
 
-- 
2.43.0


From 9022c55158b8f59214fcac9a14a5cb172f6fe7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:10:54 +0000
Subject: [PATCH 09/60] fix: count the splits of WalkForward when a frequency
 is used

get_n_splits ignored the frequency and failed with a train size offset.
---
 src/skfolio/model_selection/_walk_forward.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/model_selection/_walk_forward.py b/src/skfolio/model_selection/_walk_forward.py
index 6cb2038..ca3139b 100644
--- a/src/skfolio/model_selection/_walk_forward.py
+++ b/src/skfolio/model_selection/_walk_forward.py
@@ -294,6 +294,8 @@ class WalkForward(sks.BaseCrossValidator):
         if X is None:
             raise ValueError("The 'X' parameter should not be None.")
         X, y = sku.indexable(X, y)
+        if self.freq is not None:
+            return sum(1 for _ in self.split(X))
         n_samples = X.shape[0]
         n = n_samples - self.train_size - self.purged_size
 
-- 
2.43.0


From 065e216ae2ccb8435b41faee0ab642e67ac78895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:05 +0000
Subject: [PATCH 10/60] fix: scale the tracking error limit in ratio
 maximization

When maximizing the ratio, the weights are scaled by an additional
variable. The tracking error limit was not scaled with it, so the limit
was not enforced.
---
 src/skfolio/optimization/convex/_mean_risk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index 731b8fc..a4cbc4b 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -902,7 +902,7 @@ class MeanRisk(ConvexOptimization):
             )
             constraints += [
                 tracking_error * self._scale_constraints
-                <= self.max_tracking_error * self._scale_constraints
+                <= self.max_tracking_error * factor * self._scale_constraints
             ]
 
         # Turnover
-- 
2.43.0


From 9371b312cd70209c9b51abb67ffa820dfe779c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:05 +0000
Subject: [PATCH 11/60] fix: enforce variance and semi-variance limits in ratio
 maximization

The limit of a quadratic risk was scaled linearly with the homogenization
variable, so the portfolio variance could exceed the limit.
---
 src/skfolio/optimization/convex/_mean_risk.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index a4cbc4b..7ac5c2e 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -1002,9 +1002,25 @@ class MeanRisk(ConvexOptimization):
                 risk_i, constraints_i = risk_func(**args)
                 constraints += constraints_i
                 if risk_limit is not None:
+                    if (
+                        self.objective_function == ObjectiveFunction.MAXIMIZE_RATIO
+                        and risk_func != self._worst_case_variance_risk
+                        and r_m in [RiskMeasure.VARIANCE, RiskMeasure.SEMI_VARIANCE]
+                    ):
+                        # Quadratic risks are not 1-homogeneous, so the limit is
+                        # applied to the corresponding deviation.
+                        if r_m == RiskMeasure.VARIANCE:
+                            deviation_func = self._standard_deviation_risk
+                        else:
+                            deviation_func = self._semi_deviation_risk
+                        limited_risk, constraints_i = deviation_func(**args)
+                        constraints += constraints_i
+                        risk_limit = np.sqrt(risk_limit)
+                    else:
+                        limited_risk = risk_i
                     parameter = cp.Parameter(nonneg=True)
                     constraints += [
-                        risk_i * self._scale_constraints
+                        limited_risk * self._scale_constraints
                         <= parameter * factor * self._scale_constraints
                     ]
                     parameters_values.append((parameter, risk_limit))
-- 
2.43.0


From 22157db036b9dbada5168c02c7e2bfd2d124d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:13:25 +0000
Subject: [PATCH 12/60] fix: report the worst case variance of ratio
 maximization

The worst case variance is already proportional to the homogenization
variable, but the reported risk was divided by it twice.
---
 src/skfolio/optimization/convex/_base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 46419a3..84b15f7 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -1135,10 +1135,17 @@ class ConvexOptimization(BaseOptimization, ABC):
                     problem.value / self._scale_objective.value
                 )
 
+                # The worst case variance is already 1-homogeneous
+                is_worst_case_variance = (
+                    self.risk_measure == RiskMeasure.VARIANCE
+                    and getattr(self, "covariance_uncertainty_set_estimator", None)
+                    is not None
+                )
                 if (
                     self.risk_measure
                     in [RiskMeasure.VARIANCE, RiskMeasure.SEMI_VARIANCE]
                     and "risk" in problem_values
+                    and not is_worst_case_variance
                 ):
                     problem_values["risk"] /= factor.value
 
-- 
2.43.0


From 37bffda248977711db4202e0b722baf768e24f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:13 +0000
Subject: [PATCH 13/60] fix: reject equations with more than one comparison
 operator

An equation such as "0.1 <= a <= 0.5" was silently converted to an
unrelated constraint.
---
 src/skfolio/utils/equations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skfolio/utils/equations.py b/src/skfolio/utils/equations.py
index aa0122e..f4eee4b 100644
--- a/src/skfolio/utils/equations.py
+++ b/src/skfolio/utils/equations.py
@@ -421,6 +421,10 @@ def _string_to_equation(
             break
         sign = 1
         if e in _COMPARISON_OPERATORS:
+            if comparison_sign is not None:
+                raise EquationToMatrixError(
+                    f"{err_msg}: only one comparison operator is allowed"
+                )
             if e in _INEQUALITY_OPERATORS:
                 is_inequality = True
             else:
-- 
2.43.0


From 593c0c0ba54d5da32558209407043d8e21a152bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:14:13 +0000
Subject: [PATCH 14/60] fix: raise the intended error for cardinality without
 weight bounds

A missing min_weights failed with a TypeError before the bounds check.
---
 src/skfolio/optimization/convex/_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 84b15f7..696361b 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -823,13 +823,14 @@ class ConvexOptimization(BaseOptimization, ABC):
             )
 
         if is_mip:
-            is_short = np.any(min_weights < 0)
-
             if max_weights is None or min_weights is None:
                 raise ValueError(
                     "'max_weights' and 'min_weights' must be provided with cardinality "
                     "constraint"
                 )
+
+            is_short = np.any(min_weights < 0)
+
             if np.all(min_weights > 0):
                 raise ValueError(
                     "Cardinality and Threshold constraint can only be applied "
-- 
2.43.0


From 38e7615e8c8eff4be42a636e9d7ba3483726f0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:26 +0000
Subject: [PATCH 15/60] fix: accept costs, fees and previous weights by asset
 name in HRP and HERC

The dictionaries were documented but raised an error during fit.
---
 .../cluster/hierarchical/_base.py             | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_base.py b/src/skfolio/optimization/cluster/hierarchical/_base.py
index 6fbd4a8..0042d22 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_base.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_base.py
@@ -299,13 +299,20 @@ class BaseHierarchicalOptimization(BaseOptimization, ABC):
             The risk measure of a theoretical portfolio defined by the weights
             vector.
         """
-        ptf = Portfolio(
-            X=prior_model.returns,
-            weights=weights,
-            transaction_costs=self.transaction_costs,
-            management_fees=self.management_fees,
-            previous_weights=self.previous_weights,
-        )
+        # The prior returns have no asset names, so dictionaries are converted to arrays
+        costs_inputs = {
+            name: value
+            if value is None
+            else self._clean_input(
+                value, n_assets=len(weights), fill_value=0, name=name
+            )
+            for name, value in [
+                ("transaction_costs", self.transaction_costs),
+                ("management_fees", self.management_fees),
+                ("previous_weights", self.previous_weights),
+            ]
+        }
+        ptf = Portfolio(X=prior_model.returns, weights=weights, **costs_inputs)
         if self.risk_measure in [RiskMeasure.VARIANCE, RiskMeasure.STANDARD_DEVIATION]:
             risk = ptf.variance_from_assets(assets_covariance=prior_model.covariance)
             if self.risk_measure == RiskMeasure.STANDARD_DEVIATION:
-- 
2.43.0


From e565d8efb30aacbdb76b5b13215890a77ea464eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:15:26 +0000
Subject: [PATCH 16/60] fix: accept a float as previous weights in Portfolio

A float is documented as being applied to each asset, but it raised an
error. This also made predict fail after a fit with float previous weights.
---
 src/skfolio/portfolio/_portfolio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/portfolio/_portfolio.py b/src/skfolio/portfolio/_portfolio.py
index 1530a45..5825140 100644
--- a/src/skfolio/portfolio/_portfolio.py
+++ b/src/skfolio/portfolio/_portfolio.py
@@ -477,6 +477,8 @@ class Portfolio(BasePortfolio):
 
         if previous_weights is None:
             previous_weights = np.zeros(n_assets)
+        elif np.isscalar(previous_weights):
+            previous_weights = previous_weights * np.ones(n_assets)
         else:
             previous_weights = input_to_array(
                 items=previous_weights,
-- 
2.43.0


From f90b859bbbf5c53b6a0a5f0eb8b9cd9117b49404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:56 +0000
Subject: [PATCH 17/60] fix: keep the target aligned with the observations in
 nested clusters

The target y was indexed with the asset columns of each cluster, which
raised an error or selected the wrong target columns.
---
 src/skfolio/model_selection/_validation.py | 3 ++-
 src/skfolio/optimization/cluster/_nco.py   | 2 +-
 src/skfolio/utils/tools.py                 | 9 +++++++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/skfolio/model_selection/_validation.py b/src/skfolio/model_selection/_validation.py
index 9c99ad2..08832de 100644
--- a/src/skfolio/model_selection/_validation.py
+++ b/src/skfolio/model_selection/_validation.py
@@ -130,7 +130,8 @@ def cross_val_predict(
     """
     params = {} if params is None else params
 
-    X, y = safe_split(X, y, indices=column_indices, axis=1)
+    # The columns of y are not assets
+    X, _ = safe_split(X, indices=column_indices, axis=1)
     X, y = sku.indexable(X, y)
 
     if _routing_enabled():
diff --git a/src/skfolio/optimization/cluster/_nco.py b/src/skfolio/optimization/cluster/_nco.py
index 7ba3eb3..b466d3b 100644
--- a/src/skfolio/optimization/cluster/_nco.py
+++ b/src/skfolio/optimization/cluster/_nco.py
@@ -356,7 +356,7 @@ class NestedClustersOptimization(BaseOptimization):
         # We validate and convert to numpy array only after inner-estimator fitting to
         # keep the assets names in case they are used in the estimator.
         if y is not None:
-            X, y = skv.validate_data(self, X, y)
+            X, y = skv.validate_data(self, X, y, multi_output=True)
             y_pred = y[test_indices]
         else:
             X = skv.validate_data(self, X)
diff --git a/src/skfolio/utils/tools.py b/src/skfolio/utils/tools.py
index 2b3aadb..7b533ce 100644
--- a/src/skfolio/utils/tools.py
+++ b/src/skfolio/utils/tools.py
@@ -610,7 +610,11 @@ def fit_single_estimator(
     fit_params = fit_params if fit_params is not None else {}
     fit_params = _check_method_params(X, params=fit_params, indices=indices, axis=axis)
 
-    X, y = safe_split(X, y, indices=indices, axis=axis)
+    if axis == 0:
+        X, y = safe_split(X, y, indices=indices, axis=axis)
+    else:
+        # The columns of y are not assets
+        X, _ = safe_split(X, indices=indices, axis=axis)
     estimator.fit(X, y, **fit_params)
     return estimator
 
@@ -665,7 +669,8 @@ def fit_and_predict(
     fit_params = fit_params if fit_params is not None else {}
     fit_params = _check_method_params(X, params=fit_params, indices=train)
 
-    X, y = safe_split(X, y, indices=column_indices, axis=1)
+    # The columns of y are not assets
+    X, _ = safe_split(X, indices=column_indices, axis=1)
     X_train, y_train = safe_split(X, y, indices=train, axis=0)
     if y_train is None:
         estimator.fit(X_train, **fit_params)
-- 
2.43.0


From 2e8e0654a930d8f1530691a925643b2a70052af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:59 +0000
Subject: [PATCH 18/60] fix: always return unique names when deduplicating
 names

A renamed duplicate could collide with an existing name, for example
"a", "a", "a_1".
---
 src/skfolio/utils/tools.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/utils/tools.py b/src/skfolio/utils/tools.py
index 7b533ce..88c165b 100644
--- a/src/skfolio/utils/tools.py
+++ b/src/skfolio/utils/tools.py
@@ -725,8 +725,11 @@ def deduplicate_names(names: npt.ArrayLike) -> list[str]:
     counts = {}
     for i, col in enumerate(names):
         cur_count = counts.get(col, 0)
-        if cur_count > 0:
-            names[i] = f"{col}_{cur_count}"
+        while cur_count > 0:
+            counts[col] = cur_count + 1
+            col = f"{col}_{cur_count}"
+            cur_count = counts.get(col, 0)
+        names[i] = col
         counts[col] = cur_count + 1
     return names
 
-- 
2.43.0


From 4131c5372cb79ac73cd4710fcd2e2f16eb00454a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:17:59 +0000
Subject: [PATCH 19/60] fix: reject target lists of different lengths

The check never failed, so the extra targets were silently ignored.
---
 src/skfolio/optimization/convex/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index 696361b..e03a876 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -1096,7 +1096,7 @@ class ConvexOptimization(BaseOptimization, ABC):
             # If the parameter value is a list, each element is the parameter value of
             # a distinct optimization. Therefore, each list must have same length.
             sizes = [len(v) for p, v in parameters_values if not np.isscalar(v)]
-            if not np.all(sizes):
+            if len(set(sizes)) > 1:
                 raise ValueError(
                     "All list elements from `parameters_values` should have same length"
                 )
-- 
2.43.0


From 757220790a486ba0d5a363f70c7aa02ecf688b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:27 +0000
Subject: [PATCH 20/60] fix: refuse to append a portfolio starting on the last
 observation

The overlap check of append accepted one shared observation, unlike the
check used when setting the portfolios.
---
 src/skfolio/portfolio/_multi_period_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index 0ebad1d..c4a51b1 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -638,7 +638,7 @@ class MultiPeriodPortfolio(BasePortfolio):
         if self.check_observations_order and len(self) != 0:
             start_date = portfolio.observations[0]
             prev_last_date = self[-1].observations[-1]
-            if start_date < prev_last_date:
+            if start_date <= prev_last_date:
                 raise ValueError(
                     f"Portfolios observations should not overlap: {prev_last_date} ->"
                     f" {start_date} "
-- 
2.43.0


From 32d3f711a13815c134df369f6ec5b345bb132393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:27 +0000
Subject: [PATCH 21/60] fix: do not share the portfolio list with the caller

Appending to a multi-period portfolio modified the list given by the
caller, and modifying that list left the returns out of date.
---
 src/skfolio/portfolio/_multi_period_portfolio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index c4a51b1..ce02530 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -524,7 +524,7 @@ class MultiPeriodPortfolio(BasePortfolio):
                         )
                     prev_p = p
         self._loaded = False
-        self._portfolios = portfolios
+        self._portfolios = list(portfolios)
         self.returns = np.asarray(returns)
         self.observations = np.asarray(observations)
         self._loaded = True
-- 
2.43.0


From 3ab7898b42dc992a871388952a6f3b4c2412328a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:18:30 +0000
Subject: [PATCH 22/60] fix: select the asset columns of the fit parameters in
 cross_val_predict

When a subset of the assets was selected, the fit parameters such as the
implied volatilities kept the columns of all the assets.
---
 src/skfolio/model_selection/_validation.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/model_selection/_validation.py b/src/skfolio/model_selection/_validation.py
index 08832de..3168938 100644
--- a/src/skfolio/model_selection/_validation.py
+++ b/src/skfolio/model_selection/_validation.py
@@ -21,7 +21,7 @@ import sklearn.utils.parallel as skp
 from skfolio.model_selection._combinatorial import BaseCombinatorialCV
 from skfolio.population import Population
 from skfolio.portfolio import MultiPeriodPortfolio
-from skfolio.utils.tools import fit_and_predict, safe_split
+from skfolio.utils.tools import _check_method_params, fit_and_predict, safe_split
 
 
 def _routing_enabled():
@@ -199,6 +199,12 @@ def cross_val_predict(
                         "`cross_val_predict` only works with un-shuffled folds"
                     ) from None
 
+    fit_params = routed_params.estimator.fit
+    if column_indices is not None and fit_params:
+        fit_params = _check_method_params(
+            X, params=fit_params, indices=column_indices, axis=1
+        )
+
     # We clone the estimator to make sure that all the folds are independent
     # and that it is pickle-able.
     parallel = skp.Parallel(n_jobs=n_jobs, verbose=verbose, pre_dispatch=pre_dispatch)
@@ -211,7 +217,7 @@ def cross_val_predict(
             y,
             train=train,
             test=test,
-            fit_params=routed_params.estimator.fit,
+            fit_params=fit_params,
             method=method,
         )
         for train, test in splits
-- 
2.43.0


From 4950c025fc9ad0db3d25ca131c7b3b69eb922e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:54 +0000
Subject: [PATCH 23/60] fix: compute the entropic value at risk of returns
 without losses

The optimization bound was derived from the maximum loss. Without losses
it was negative or null, which gave an infinite or undefined value.
---
 src/skfolio/measures/_measures.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/measures/_measures.py b/src/skfolio/measures/_measures.py
index 43d25e9..d13da6a 100644
--- a/src/skfolio/measures/_measures.py
+++ b/src/skfolio/measures/_measures.py
@@ -391,7 +391,13 @@ def evar(returns: np.ndarray, beta: float = 0.95) -> float:
         return entropic_risk_measure(returns=returns, theta=x, beta=beta)
 
     # The lower bound is chosen to avoid exp overflow
-    lower_bound = np.max(-returns) / 100
+    max_loss = np.max(-returns)
+    if max_loss <= 0:
+        # Without losses, the bound must still be strictly positive
+        max_loss = np.max(np.abs(returns))
+        if max_loss == 0:
+            return 0.0
+    lower_bound = max_loss / 100
     result = sco.minimize(
         func,
         x0=np.array([lower_bound * 2]),
-- 
2.43.0


From 42dfc470fe5dd4b08412f82ce90cc84ee97ff204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:23 +0000
Subject: [PATCH 24/60] fix: appending to the copy of a multi-period portfolio
 no longer changes the original

---
 src/skfolio/portfolio/_multi_period_portfolio.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index ce02530..7ec7dc2 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -644,7 +644,8 @@ class MultiPeriodPortfolio(BasePortfolio):
                     f" {start_date} "
                 )
         self._loaded = False
-        self._portfolios.append(portfolio)
+        # We don't modify the list in place as it is shared with the copies.
+        self._portfolios = [*self._portfolios, portfolio]
         if len(self.observations) == 0:
             # We don"t concatenate an empty array as we cannot know the dtype before.
             self.observations = portfolio.observations
-- 
2.43.0


From 212829b1ac606a599a6e3a8df15e001ecf156d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:23 +0000
Subject: [PATCH 25/60] fix: return the population from set_portfolio_params as
 documented

---
 src/skfolio/population/_population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index 683116e..be7b09b 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -109,6 +109,7 @@ class Population(list):
         for portfolio in self:
             for key, value in params.items():
                 setattr(portfolio, key, value)
+        return self
 
     @staticmethod
     def _validate_item(
-- 
2.43.0


From 20bc1fc1800af6beed6b73afdbc5f5fb7c19ef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:23 +0000
Subject: [PATCH 26/60] fix: validate the items added to a population with +=

---
 src/skfolio/population/_population.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index be7b09b..d9d1231 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -62,6 +62,11 @@ class Population(list):
             )
         return self.__class__(super().__add__(other))
 
+    def __iadd__(self, other: BasePortfolio) -> "Population":
+        """Extend the population in place after validating the new items."""
+        self.extend(other)
+        return self
+
     def insert(self, index, item: BasePortfolio) -> None:
         """Insert portfolio before index."""
         super().insert(index, self._validate_item(item))
-- 
2.43.0


From dc6b19320740290f8fec4ef6e716765b6e65f423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:39 +0000
Subject: [PATCH 27/60] fix: deduct the risk-free rate from the annualized mean
 in rolling annualized ratios

---
 src/skfolio/portfolio/_base.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/skfolio/portfolio/_base.py b/src/skfolio/portfolio/_base.py
index 7ae67dd..4626287 100644
--- a/src/skfolio/portfolio/_base.py
+++ b/src/skfolio/portfolio/_base.py
@@ -870,10 +870,15 @@ class BasePortfolio:
             if perf_measure is not None:
                 perf_func = getattr(mt, str(perf_measure.value))
 
+                # The risk-free rate is deducted from the annualized mean
+                annualized_factor = (
+                    self.annualized_factor if measure.is_annualized else 1
+                )
+
                 def func(returns):
-                    return (perf_func(returns) - self.risk_free_rate) / meta_risk_func(
-                        returns
-                    )
+                    return (
+                        perf_func(returns) * annualized_factor - self.risk_free_rate
+                    ) / (meta_risk_func(returns) * np.sqrt(annualized_factor))
 
             else:
                 func = meta_risk_func
@@ -898,8 +903,6 @@ class BasePortfolio:
             elif measure in [
                 RiskMeasure.ANNUALIZED_STANDARD_DEVIATION,
                 RiskMeasure.ANNUALIZED_SEMI_DEVIATION,
-                RatioMeasure.ANNUALIZED_SHARPE_RATIO,
-                RatioMeasure.ANNUALIZED_SORTINO_RATIO,
             ]:
                 rolling *= np.sqrt(self.annualized_factor)
         return rolling
-- 
2.43.0


From 75bcf7a989fc11893e82bf49acf48a6b734bdd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:30 +0000
Subject: [PATCH 28/60] fix: format infinite measures in the portfolio summary

---
 src/skfolio/utils/tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/utils/tools.py b/src/skfolio/utils/tools.py
index 88c165b..ca7b683 100644
--- a/src/skfolio/utils/tools.py
+++ b/src/skfolio/utils/tools.py
@@ -519,7 +519,7 @@ def format_measure(x: float, percent: bool = False) -> str:
     formatted : str
         Formatted string.
     """
-    if np.isnan(x):
+    if not np.isfinite(x):
         return str(x)
     if percent:
         xn = x * 100
-- 
2.43.0


From 6ee4f10d4709db2f436213eff63c99ea63a67b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:56:31 +0000
Subject: [PATCH 29/60] fix: drop cached convex models of a failed fit before
 fitting again

After a fit that raised, the cached drawdown model made the next fit of the
same estimator skip the drawdown constraints.
---
 src/skfolio/optimization/convex/_mean_risk.py      | 3 +++
 src/skfolio/optimization/convex/_risk_budgeting.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index 7ac5c2e..583647c 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -768,6 +768,9 @@ class MeanRisk(ConvexOptimization):
         # `X` is unchanged and only `feature_names_in_` is performed
         _ = skv.validate_data(self, X, skip_check_array=True)
 
+        # A previous fit that failed may have left models in the cache
+        self._clear_models_cache()
+
         # Validate
         self._validation()
         # Used to avoid adding multiple times similar constrains linked to identical
diff --git a/src/skfolio/optimization/convex/_risk_budgeting.py b/src/skfolio/optimization/convex/_risk_budgeting.py
index 62c46ce..15ab00f 100644
--- a/src/skfolio/optimization/convex/_risk_budgeting.py
+++ b/src/skfolio/optimization/convex/_risk_budgeting.py
@@ -456,6 +456,9 @@ class RiskBudgeting(ConvexOptimization):
         # `X` is unchanged and only `feature_names_in_` is performed
         _ = skv.validate_data(self, X, skip_check_array=True)
 
+        # A previous fit that failed may have left models in the cache
+        self._clear_models_cache()
+
         if not isinstance(self.risk_measure, RiskMeasure):
             raise TypeError("risk_measure must be of type `RiskMeasure`")
 
-- 
2.43.0


From c97fb47b0cf0e13e204412c43e48f0d4134e1560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:47 +0000
Subject: [PATCH 30/60] fix: estimate the empirical covariance of a single
 asset

---
 src/skfolio/moments/covariance/_empirical_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_empirical_covariance.py b/src/skfolio/moments/covariance/_empirical_covariance.py
index a74d6eb..9fe75ec 100644
--- a/src/skfolio/moments/covariance/_empirical_covariance.py
+++ b/src/skfolio/moments/covariance/_empirical_covariance.py
@@ -96,6 +96,6 @@ class EmpiricalCovariance(BaseCovariance):
         X = skv.validate_data(self, X)
         if self.window_size is not None:
             X = X[-int(self.window_size) :]
-        covariance = np.cov(X.T, ddof=self.ddof)
+        covariance = np.atleast_2d(np.cov(X.T, ddof=self.ddof))
         self._set_covariance(covariance)
         return self
-- 
2.43.0


From f374a45506decba1d267fe393d8e5cf2156e5707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:47 +0000
Subject: [PATCH 31/60] fix: apply min_return to the expected return in
 MaximumDiversification

---
 .../convex/_maximum_diversification.py             | 14 +++++++++++++-
 src/skfolio/optimization/convex/_mean_risk.py      | 11 +++++++++--
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/skfolio/optimization/convex/_maximum_diversification.py b/src/skfolio/optimization/convex/_maximum_diversification.py
index ab98cdd..0272100 100644
--- a/src/skfolio/optimization/convex/_maximum_diversification.py
+++ b/src/skfolio/optimization/convex/_maximum_diversification.py
@@ -4,6 +4,7 @@
 # Author: Hugo Delatte <delatte.hugo@gmail.com>
 # SPDX-License-Identifier: BSD-3-Clause
 
+import cvxpy as cp
 import numpy as np
 import numpy.typing as npt
 import sklearn.utils.validation as skv
@@ -12,7 +13,7 @@ import skfolio.typing as skt
 from skfolio.measures import RiskMeasure
 from skfolio.optimization.convex._base import ObjectiveFunction
 from skfolio.optimization.convex._mean_risk import MeanRisk
-from skfolio.prior import BasePrior
+from skfolio.prior import BasePrior, PriorModel
 
 
 class MaximumDiversification(MeanRisk):
@@ -432,3 +433,14 @@ class MaximumDiversification(MeanRisk):
         self.overwrite_expected_return = func
         super().fit(X, y, **fit_params)
         return self
+
+    def _cvx_bounded_return(
+        self, prior_model: PriorModel, w: cp.Variable, expected_return: cp.Expression
+    ) -> cp.Expression:
+        """Expected return expression bounded by `min_return`.
+
+        The weighted volatilities used in the objective are replaced by the assets
+        expected returns.
+        """
+        weighted_volatilities = self._cvx_expected_return(prior_model=prior_model, w=w)
+        return expected_return - weighted_volatilities + prior_model.mu @ w
diff --git a/src/skfolio/optimization/convex/_mean_risk.py b/src/skfolio/optimization/convex/_mean_risk.py
index 583647c..1bb4d77 100644
--- a/src/skfolio/optimization/convex/_mean_risk.py
+++ b/src/skfolio/optimization/convex/_mean_risk.py
@@ -18,7 +18,7 @@ import sklearn.utils.validation as skv
 import skfolio.typing as skt
 from skfolio.measures import RiskMeasure
 from skfolio.optimization.convex._base import ConvexOptimization, ObjectiveFunction
-from skfolio.prior import BasePrior, EmpiricalPrior
+from skfolio.prior import BasePrior, EmpiricalPrior, PriorModel
 from skfolio.uncertainty_set import BaseCovarianceUncertaintySet, BaseMuUncertaintySet
 from skfolio.utils.tools import args_names, check_estimator
 
@@ -958,7 +958,8 @@ class MeanRisk(ConvexOptimization):
         if self.min_return is not None:
             parameter = cp.Parameter(nonneg=False)
             constraints += [
-                expected_return * self._scale_constraints
+                self._cvx_bounded_return(prior_model, w, expected_return)
+                * self._scale_constraints
                 >= parameter * factor * self._scale_constraints
             ]
             parameters_values.append((parameter, self.min_return))
@@ -1118,6 +1119,12 @@ class MeanRisk(ConvexOptimization):
 
         return self
 
+    def _cvx_bounded_return(
+        self, prior_model: PriorModel, w: cp.Variable, expected_return: cp.Expression
+    ) -> cp.Expression:
+        """Expected return expression bounded by `min_return`."""
+        return expected_return
+
 
 def _optimal_homogenization_factor(mu: np.ndarray) -> float:
     """
-- 
2.43.0


From fd5c2dabc5ff56f1ecf2de339cb6855764928ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:47 +0000
Subject: [PATCH 32/60] fix: choose the number of clusters of two assets

---
 src/skfolio/utils/stats.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skfolio/utils/stats.py b/src/skfolio/utils/stats.py
index d2a405b..99c7387 100644
--- a/src/skfolio/utils/stats.py
+++ b/src/skfolio/utils/stats.py
@@ -472,6 +472,9 @@ def compute_optimal_n_clusters(distance: np.ndarray, linkage_matrix: np.ndarray)
     """
     cut_tree = sch.cut_tree(linkage_matrix)
     n = cut_tree.shape[1]
+    if n < 3:
+        # The two-order difference needs at least three items
+        return n
     max_clusters = min(n, max(8, round(np.sqrt(n))))
     dispersion = []
     for k in range(max_clusters):
-- 
2.43.0


From 22800bafb9962bfe7e01ac081e9ec2dc1eb796f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:47 +0000
Subject: [PATCH 33/60] fix: reject minimum weights above one in hierarchical
 optimizations

---
 src/skfolio/optimization/cluster/hierarchical/_base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_base.py b/src/skfolio/optimization/cluster/hierarchical/_base.py
index 0042d22..65b0819 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_base.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_base.py
@@ -367,6 +367,10 @@ class BaseHierarchicalOptimization(BaseOptimization, ABC):
             )
             if np.any(min_weights < 0):
                 raise ValueError("`min_weights` must be strictly positive")
+            if np.sum(min_weights) > 1 + 1e-8:
+                raise ValueError(
+                    "The sum of `min_weights` must be less than or equal to 1.0"
+                )
 
         if self.max_weights is None:
             max_weights = np.ones(n_assets)
-- 
2.43.0


From 0fddd70b4dd362da0ae45f1fbdfbe450f5e732ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:47 +0000
Subject: [PATCH 34/60] fix: do not divide by zero weights when splitting HRP
 clusters

---
 src/skfolio/optimization/cluster/hierarchical/_hrp.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_hrp.py b/src/skfolio/optimization/cluster/hierarchical/_hrp.py
index fded2bb..8fd6d0f 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_hrp.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_hrp.py
@@ -424,6 +424,9 @@ def _apply_weight_constraints_to_split_factor(
     value : float
         The transformed split factor alpha incorporating the weight constraints.
     """
+    if weights[left_cluster[0]] == 0:
+        # There is no weight to split
+        return alpha
     alpha = min(
         np.sum(max_weights[left_cluster]) / weights[left_cluster[0]],
         max(np.sum(min_weights[left_cluster]) / weights[left_cluster[0]], alpha),
-- 
2.43.0


From d13556afb3680ed09b70cc78791b78de888b1acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:47 +0000
Subject: [PATCH 35/60] fix: replace a stacked estimator by name with
 set_params

---
 src/skfolio/optimization/ensemble/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/ensemble/_base.py b/src/skfolio/optimization/ensemble/_base.py
index 544c455..aef3609 100644
--- a/src/skfolio/optimization/ensemble/_base.py
+++ b/src/skfolio/optimization/ensemble/_base.py
@@ -57,7 +57,7 @@ class BaseComposition(skb.BaseEstimator, ABC):
             # elements of length 2
             with suppress(TypeError):
                 item_names, _ = zip(*items, strict=True)
-                for name in params:
+                for name in list(params):
                     if "__" not in name and name in item_names:
                         self._replace_estimator(attr, name, params.pop(name))
 
-- 
2.43.0


From 74f799acff7e40d7b4be07791e45e48473e93705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:47 +0000
Subject: [PATCH 36/60] fix: evaluate the eigenvalue density on the eigenvalue
 grid when denoising

---
 src/skfolio/moments/covariance/_denoise_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_denoise_covariance.py b/src/skfolio/moments/covariance/_denoise_covariance.py
index 85ac854..4e20cb6 100644
--- a/src/skfolio/moments/covariance/_denoise_covariance.py
+++ b/src/skfolio/moments/covariance/_denoise_covariance.py
@@ -163,7 +163,7 @@ class DenoiseCovariance(BaseCovariance):
                 e_val.reshape(-1, 1)
             )
             # noinspection PyUnresolvedReferences
-            pdf_1 = np.exp(kde.score_samples(pdf_0.reshape(-1, 1)))
+            pdf_1 = np.exp(kde.score_samples(e_val_lin.reshape(-1, 1)))
             return np.sum((pdf_1 - pdf_0) ** 2)
 
         # noinspection PyTypeChecker
-- 
2.43.0


From 28429f8e71f95e7c19b183ea42c65f58745c48b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:37:47 +0000
Subject: [PATCH 37/60] fix: keep the fitted moments unchanged in the
 log-normal prior

---
 src/skfolio/prior/_empirical.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/prior/_empirical.py b/src/skfolio/prior/_empirical.py
index 871d20c..7a16239 100644
--- a/src/skfolio/prior/_empirical.py
+++ b/src/skfolio/prior/_empirical.py
@@ -183,8 +183,8 @@ class EmpiricalPrior(BasePrior):
 
             # Using the property of aggregation across time we scale this distribution
             # to the investment horizon by the “square-root rule”.
-            mu *= self.investment_horizon
-            covariance *= self.investment_horizon
+            mu = mu * self.investment_horizon
+            covariance = covariance * self.investment_horizon
 
             # We convert it into a distribution of linear returns over the investment
             # horizon
-- 
2.43.0


From aaeb29dbba3837d26e417175e6ad3ddbe98cc9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:42:10 +0000
Subject: [PATCH 38/60] fix: compare the eigenvalue densities point by point
 when denoising

---
 src/skfolio/moments/covariance/_denoise_covariance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/moments/covariance/_denoise_covariance.py b/src/skfolio/moments/covariance/_denoise_covariance.py
index 4e20cb6..c2ce50a 100644
--- a/src/skfolio/moments/covariance/_denoise_covariance.py
+++ b/src/skfolio/moments/covariance/_denoise_covariance.py
@@ -163,7 +163,7 @@ class DenoiseCovariance(BaseCovariance):
                 e_val.reshape(-1, 1)
             )
             # noinspection PyUnresolvedReferences
-            pdf_1 = np.exp(kde.score_samples(e_val_lin.reshape(-1, 1)))
+            pdf_1 = np.exp(kde.score_samples(e_val_lin.reshape(-1, 1))).reshape(-1, 1)
             return np.sum((pdf_1 - pdf_0) ** 2)
 
         # noinspection PyTypeChecker
-- 
2.43.0


From ff3797131539c69aee0c88ebea2b3ee9930225da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:24 +0000
Subject: [PATCH 39/60] fix: count only the missing asset prices in
 prices_to_returns

---
 src/skfolio/preprocessing/_returns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/preprocessing/_returns.py b/src/skfolio/preprocessing/_returns.py
index 130bc4d..d00caec 100644
--- a/src/skfolio/preprocessing/_returns.py
+++ b/src/skfolio/preprocessing/_returns.py
@@ -105,7 +105,7 @@ def prices_to_returns(
         nan_threshold = float(nan_threshold)
         if not 0 < nan_threshold <= 1:
             raise ValueError("`nan_threshold` must be between 0 and 1")
-        count_nan = df.isna().sum(axis=1)
+        count_nan = df[X.columns].isna().sum(axis=1)
         to_drop = count_nan[count_nan > n_assets * nan_threshold].index
         if len(to_drop) > 0:
             df.drop(to_drop, axis=0, inplace=True)
-- 
2.43.0


From 28d1eb7df7e78c7918a205ac0287e08b783575ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:24 +0000
Subject: [PATCH 40/60] fix: condition on the right margin when sampling vines
 with rotated copulas

---
 .../distribution/multivariate/_vine_copula.py        | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/skfolio/distribution/multivariate/_vine_copula.py b/src/skfolio/distribution/multivariate/_vine_copula.py
index 5f97db1..e1ae057 100644
--- a/src/skfolio/distribution/multivariate/_vine_copula.py
+++ b/src/skfolio/distribution/multivariate/_vine_copula.py
@@ -1203,9 +1203,9 @@ def _propagate_samples(X_rand, sampling_order, conditioning_vars, uniform_cond_s
                     edge, x, is_count
                 )
             else:
-                x = np.stack([node.v, edge.node1.pseudo_values]).T
+                x = np.stack([edge.node1.pseudo_values, node.v]).T
                 edge.node2.pseudo_values = _inverse_partial_derivative(
-                    edge, x, is_count
+                    edge, x, is_count, first_margin=True
                 )
         else:
             is_left1, is_left2 = edge.node1.ref.shared_node_is_left(edge.node2.ref)
@@ -1218,8 +1218,8 @@ def _propagate_samples(X_rand, sampling_order, conditioning_vars, uniform_cond_s
                     edge.node1.u = u
                 queue.appendleft((edge.node1, not is_left1))
             else:
-                x = np.stack([node.v, edge.node1.v if is_left1 else edge.node1.u]).T
-                u = _inverse_partial_derivative(edge, x, is_count)
+                x = np.stack([edge.node1.v if is_left1 else edge.node1.u, node.v]).T
+                u = _inverse_partial_derivative(edge, x, is_count, first_margin=True)
                 if is_left2:
                     edge.node2.v = u
                 else:
@@ -1228,12 +1228,12 @@ def _propagate_samples(X_rand, sampling_order, conditioning_vars, uniform_cond_s
 
 
 def _inverse_partial_derivative(
-    edge: Edge, X: np.ndarray, is_count: bool
+    edge: Edge, X: np.ndarray, is_count: bool, first_margin: bool = False
 ) -> np.ndarray:
     """Inverse partial derivative of an Edge copula."""
     if is_count:
         return np.array([np.nan])
-    return edge.copula.inverse_partial_derivative(X)
+    return edge.copula.inverse_partial_derivative(X, first_margin=first_margin)
 
 
 def _kde_trace(
-- 
2.43.0


From bdd05a2164394f8a948f42cc13f97a7343c82c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:24 +0000
Subject: [PATCH 41/60] fix: avoid overflow in the Clayton copula for extreme
 observations

---
 src/skfolio/distribution/copula/_clayton.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/skfolio/distribution/copula/_clayton.py b/src/skfolio/distribution/copula/_clayton.py
index 7eed65d..c800f8c 100644
--- a/src/skfolio/distribution/copula/_clayton.py
+++ b/src/skfolio/distribution/copula/_clayton.py
@@ -439,10 +439,12 @@ def _base_sample_scores(X: np.ndarray, theta: float) -> np.ndarray:
         raise ValueError("Theta must be greater than 1 for the Clayton copula.")
 
     x, y = np.log(X).T
+    # log(u^-theta + v^-theta - 1) without overflow
+    low, high = np.sort(-theta * np.stack([x, y]), axis=0)
 
     log_density = (
         np.log1p(theta)
-        - (2.0 + 1.0 / theta) * np.log1p(np.expm1(-theta * x) + np.expm1(-theta * y))
+        - (2.0 + 1.0 / theta) * (high + np.log1p(np.exp(low - high) - np.exp(-high)))
         - (1.0 + theta) * (x + y)
     )
     return log_density
@@ -492,9 +494,9 @@ def _base_partial_derivative(
          The computed h-function values.
     """
     X = _apply_margin_swap(X, first_margin=first_margin)
-    x = np.power(X[:, 0], -theta)
+    x = np.power(X[:, 1] / X[:, 0], theta)
     y = np.power(X[:, 1], theta)
-    p = np.power(1.0 + y * (x - 1.0), -(1.0 + 1.0 / theta))
+    p = np.power(1.0 + np.maximum(x - y, 0.0), -(1.0 + 1.0 / theta))
     return p
 
 
-- 
2.43.0


From 1f3475b44e66a699557d284ca5877b32e09df49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:24 +0000
Subject: [PATCH 42/60] fix: avoid underflow in the Gumbel copula for extreme
 observations

---
 src/skfolio/distribution/copula/_gumbel.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/skfolio/distribution/copula/_gumbel.py b/src/skfolio/distribution/copula/_gumbel.py
index 1fb167b..64bc236 100644
--- a/src/skfolio/distribution/copula/_gumbel.py
+++ b/src/skfolio/distribution/copula/_gumbel.py
@@ -439,7 +439,7 @@ def _base_sample_scores(X: np.ndarray, theta: float) -> np.ndarray:
     if theta <= 1:
         raise ValueError("Theta must be greater than 1 for the Gumbel copula.")
     Z = -np.log(X)
-    s = np.power(np.power(Z, theta).sum(axis=1), 1 / theta)
+    s = _theta_norm(Z, theta)
     s = np.clip(s, a_min=1e-10, a_max=None)
     log_density = (
         -s
@@ -451,13 +451,21 @@ def _base_sample_scores(X: np.ndarray, theta: float) -> np.ndarray:
     return log_density
 
 
+def _theta_norm(Z: np.ndarray, theta: float) -> np.ndarray:
+    """Compute `(x^theta + y^theta)^(1/theta)` for each row without underflow."""
+    scale = Z.max(axis=1)
+    return scale * np.power(
+        np.power(Z / scale[:, np.newaxis], theta).sum(axis=1), 1.0 / theta
+    )
+
+
 def _base_cdf(X: np.ndarray, theta: float) -> np.ndarray:
     r"""Bivariate Gumbel CDF (unrotated).
 
     .. math::
         C(u,v) = \exp\Bigl(-\Bigl[(-\ln u)^{\theta}+(-\ln v)^{\theta}\Bigr]^{1/\theta}\Bigr).
     """
-    cdf = np.exp(-np.power(np.power(-np.log(X), theta).sum(axis=1), 1.0 / theta))
+    cdf = np.exp(-_theta_norm(-np.log(X), theta))
     return cdf
 
 
@@ -498,9 +506,10 @@ def _base_partial_derivative(
     """
     X = _apply_margin_swap(X, first_margin=first_margin)
     _, v = X.T
-    x, y = -np.log(X).T
+    Z = -np.log(X)
+    x, y = Z.T
     p = (
-        np.exp(-np.power(np.power(x, theta) + np.power(y, theta), 1.0 / theta))
+        np.exp(-_theta_norm(Z, theta))
         * np.power(np.power(x / y, theta) + 1.0, 1.0 / theta - 1.0)
         / v
     )
-- 
2.43.0


From c9dab76c089d4fad34ac9fe504c6b558ea1a6748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:24 +0000
Subject: [PATCH 43/60] fix: keep the conditional probabilities of the Gumbel
 copula below one

---
 src/skfolio/distribution/copula/_gumbel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/distribution/copula/_gumbel.py b/src/skfolio/distribution/copula/_gumbel.py
index 64bc236..03151a3 100644
--- a/src/skfolio/distribution/copula/_gumbel.py
+++ b/src/skfolio/distribution/copula/_gumbel.py
@@ -513,6 +513,8 @@ def _base_partial_derivative(
         * np.power(np.power(x / y, theta) + 1.0, 1.0 / theta - 1.0)
         / v
     )
+    # rounding can push the probability slightly above one
+    p = np.clip(p, 0.0, 1.0)
     return p
 
 
-- 
2.43.0


From 8c46f36a9b1c88c4be1642749e3ac013e81dd37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:24 +0000
Subject: [PATCH 44/60] fix: route metadata to the distribution estimator in
 SyntheticData

---
 src/skfolio/prior/_synthetic_data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/prior/_synthetic_data.py b/src/skfolio/prior/_synthetic_data.py
index 37d3b5d..7881004 100644
--- a/src/skfolio/prior/_synthetic_data.py
+++ b/src/skfolio/prior/_synthetic_data.py
@@ -136,7 +136,7 @@ class SyntheticData(BasePrior):
     def get_metadata_routing(self):
         # noinspection PyTypeChecker
         router = skm.MetadataRouter(owner=self.__class__.__name__).add(
-            distance_estimator=self.distribution_estimator,
+            distribution_estimator=self.distribution_estimator,
             method_mapping=skm.MethodMapping().add(caller="fit", callee="fit"),
         )
         return router
-- 
2.43.0


From 691e05cdfd5f52881fc339f120cdeac3820290a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:10:24 +0000
Subject: [PATCH 45/60] fix: accept asset names and unnamed assets in the vine
 copula plots

---
 src/skfolio/distribution/multivariate/_base.py       |  5 +++--
 .../distribution/multivariate/_vine_copula.py        | 12 +++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/skfolio/distribution/multivariate/_base.py b/src/skfolio/distribution/multivariate/_base.py
index 279b236..b85757d 100644
--- a/src/skfolio/distribution/multivariate/_base.py
+++ b/src/skfolio/distribution/multivariate/_base.py
@@ -176,6 +176,7 @@ class BaseMultivariateDist(BaseDistribution, ABC):
         """
         traces = []
         n_assets = self.n_features_in_
+        names = getattr(self, "feature_names_in_", range(n_assets))
         if X is not None:
             X = np.asarray(X)
             if X.ndim != 2:
@@ -195,7 +196,7 @@ class BaseMultivariateDist(BaseDistribution, ABC):
             traces.append(
                 go.Splom(
                     dimensions=[
-                        {"label": self.feature_names_in_[i], "values": X[:, i]}
+                        {"label": names[i], "values": X[:, i]}
                         for i in range(n_assets)
                     ],
                     showupperhalf=False,
@@ -216,7 +217,7 @@ class BaseMultivariateDist(BaseDistribution, ABC):
         traces.append(
             go.Splom(
                 dimensions=[
-                    {"label": self.feature_names_in_[i], "values": sample[:, i]}
+                    {"label": names[i], "values": sample[:, i]}
                     for i in range(n_assets)
                 ],
                 showupperhalf=False,
diff --git a/src/skfolio/distribution/multivariate/_vine_copula.py b/src/skfolio/distribution/multivariate/_vine_copula.py
index e1ae057..27a1f64 100644
--- a/src/skfolio/distribution/multivariate/_vine_copula.py
+++ b/src/skfolio/distribution/multivariate/_vine_copula.py
@@ -1050,7 +1050,13 @@ class VineCopula(BaseMultivariateDist):
             A figure with overlaid univariate distributions for each asset.
         """
         n_assets = self.n_features_in_
-        subset = subset or list(range(n_assets))
+        names = getattr(self, "feature_names_in_", range(n_assets))
+        subset = validate_input_list(
+            items=subset or list(range(n_assets)),
+            n_assets=n_assets,
+            assets_names=getattr(self, "feature_names_in_", None),
+            name="subset",
+        )
         colors = px.colors.qualitative.Plotly
         if X is not None:
             X = np.asarray(X)
@@ -1078,7 +1084,7 @@ class VineCopula(BaseMultivariateDist):
                     x=samples[:, s],
                     opacity=1.0,
                     color=colors[i % len(colors)],
-                    name=f"{self.feature_names_in_[s]} Generated",
+                    name=f"{names[s]} Generated",
                     visible=True if i == 0 else "legendonly",
                 )
             )
@@ -1090,7 +1096,7 @@ class VineCopula(BaseMultivariateDist):
                         x=X[:, s],
                         opacity=0.6,
                         color=colors[i % len(colors)],
-                        name=f"{self.feature_names_in_[s]} Empirical",
+                        name=f"{names[s]} Empirical",
                         visible=True if i == 0 else "legendonly",
                     )
                 )
-- 
2.43.0


From e326cc8e58d849e5aa9ba07ea4cafecf47bec1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:20:59 +0000
Subject: [PATCH 46/60] fix: converge the inverse of the Joe copula close to
 the upper corner

---
 src/skfolio/distribution/copula/_joe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/distribution/copula/_joe.py b/src/skfolio/distribution/copula/_joe.py
index 1935d3f..24c5ac1 100644
--- a/src/skfolio/distribution/copula/_joe.py
+++ b/src/skfolio/distribution/copula/_joe.py
@@ -600,7 +600,8 @@ def _base_inverse_partial_derivative(
             / w
         )
         x_new = np.clip(x_new, 0.0, 1.0)
-        diff = np.max(np.abs(x_new - x))
+        # x scales with y, which vanishes when v is close to one
+        diff = np.max(np.abs(x_new - x) / y)
         x = x_new
         if diff < tol:
             break
-- 
2.43.0


From 7e8263c52d389490ed90eee5054dab0628a61d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:59 +0000
Subject: [PATCH 47/60] fix: keep the fitted maximum diversification picklable

---
 src/skfolio/optimization/convex/_maximum_diversification.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/convex/_maximum_diversification.py b/src/skfolio/optimization/convex/_maximum_diversification.py
index 0272100..3f971bc 100644
--- a/src/skfolio/optimization/convex/_maximum_diversification.py
+++ b/src/skfolio/optimization/convex/_maximum_diversification.py
@@ -431,7 +431,10 @@ class MaximumDiversification(MeanRisk):
             return np.sqrt(np.diag(covariance)) @ w
 
         self.overwrite_expected_return = func
-        super().fit(X, y, **fit_params)
+        try:
+            super().fit(X, y, **fit_params)
+        finally:
+            self.overwrite_expected_return = None
         return self
 
     def _cvx_bounded_return(
-- 
2.43.0


From 18d1b53266d6f83757fdc75c78828991d2b6676b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:22:59 +0000
Subject: [PATCH 48/60] fix: do not modify the cross-validation splitter passed
 to the nested and stacked optimizations

---
 src/skfolio/optimization/cluster/_nco.py       | 2 +-
 src/skfolio/optimization/ensemble/_stacking.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/optimization/cluster/_nco.py b/src/skfolio/optimization/cluster/_nco.py
index b466d3b..f6c3070 100644
--- a/src/skfolio/optimization/cluster/_nco.py
+++ b/src/skfolio/optimization/cluster/_nco.py
@@ -326,7 +326,7 @@ class NestedClustersOptimization(BaseOptimization):
             cv_predictions = None
             test_indices = slice(None)
         else:
-            cv = sks.check_cv(self.cv)
+            cv = deepcopy(sks.check_cv(self.cv))
             if hasattr(cv, "random_state") and cv.random_state is None:
                 cv.random_state = np.random.RandomState()
             # noinspection PyCallingNonCallable
diff --git a/src/skfolio/optimization/ensemble/_stacking.py b/src/skfolio/optimization/ensemble/_stacking.py
index 5c957a9..3dbc6ae 100644
--- a/src/skfolio/optimization/ensemble/_stacking.py
+++ b/src/skfolio/optimization/ensemble/_stacking.py
@@ -309,7 +309,7 @@ class StackingOptimization(BaseOptimization, BaseComposition):
                 [estimator.predict(X) for estimator in self.estimators_]
             ).T
         else:
-            cv = sks.check_cv(self.cv)
+            cv = deepcopy(sks.check_cv(self.cv))
             if hasattr(cv, "random_state") and cv.random_state is None:
                 cv.random_state = np.random.RandomState()
             # noinspection PyCallingNonCallable
-- 
2.43.0


From 814989ff40b372cb76a12542ca1418ad6acd1cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:39 +0000
Subject: [PATCH 49/60] fix: select observations instead of portfolios in the
 population cumulative returns plot

The idx argument is documented as the observations to plot, but it was
applied to the columns, one per portfolio.
---
 src/skfolio/population/_population.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index d9d1231..8067d12 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -605,9 +605,10 @@ class Population(list):
             yaxis_title = title
             title = f"{title} (non-compounded)"
 
-        df = pd.concat(cumulative_returns, axis=1).iloc[:, idx]
+        df = pd.concat(cumulative_returns, axis=1)
         # Sort index because pd.concat unsort NaNs at the end
         df.sort_index(inplace=True)
+        df = df.iloc[idx]
         df.columns = deduplicate_names(names)
 
         fig = df.plot(backend="plotly")
-- 
2.43.0


From aaa0c252b96a03ba19dc8ea54e5feffba56fe82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:39 +0000
Subject: [PATCH 50/60] fix: plot measure surfaces when one of the measures is
 a ratio

The hover text joined a string with None for ratio measures, so the
figure could not be drawn.
---
 src/skfolio/population/_population.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index 8067d12..146ce9a 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -812,8 +812,7 @@ class Population(list):
                                 str(e)
                                 + ": %{"
                                 + v
-                                + ":"
-                                + (",.3%" if not e.is_ratio else None)
+                                + (":,.3%" if not e.is_ratio else "")
                                 + "}"
                                 for e, v in [(x, "x"), (y, "y"), (z, "z")]
                             ]
-- 
2.43.0


From 8865a25c7aaba83ab6998ca2b808cf7f9cb37d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:45:39 +0000
Subject: [PATCH 51/60] fix: plot measure distributions of tags with different
 numbers of portfolios

The values were stacked in one array, which failed unless every tag had
the same number of portfolios.
---
 src/skfolio/population/_population.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/population/_population.py b/src/skfolio/population/_population.py
index 146ce9a..c8acad1 100644
--- a/src/skfolio/population/_population.py
+++ b/src/skfolio/population/_population.py
@@ -529,8 +529,12 @@ class Population(list):
                 values.append(self.measures(measure=measure))
                 labels.append(measure.value)
 
-        df = pd.DataFrame(np.array(values).T, columns=labels).melt(
-            var_name="Population"
+        # The number of portfolios can be different for each tag
+        df = pd.DataFrame(
+            {
+                "Population": np.repeat(labels, [len(value) for value in values]),
+                "value": np.concatenate(values),
+            }
         )
         fig = px.histogram(
             df,
-- 
2.43.0


From 828eee9b6f4ef7e1daae224bbe8e1af3478b250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:46:35 +0000
Subject: [PATCH 52/60] fix: draw contributions and rolling measures that are
 zero

The number of decimals shown on the axis was derived from the logarithm
of the largest value, which overflowed when that value was zero.
---
 src/skfolio/utils/tools.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/utils/tools.py b/src/skfolio/utils/tools.py
index ca7b683..0a5f897 100644
--- a/src/skfolio/utils/tools.py
+++ b/src/skfolio/utils/tools.py
@@ -547,6 +547,8 @@ def optimal_rounding_decimals(x: float) -> int:
     n : int
         Rounding decimal number.
     """
+    if x == 0:
+        return 2
     return min(6, max(int(-np.log10(abs(x))) + 2, 2))
 
 
-- 
2.43.0


From b3eb6fc38330692b670978cbc30f2cfbacaaf1bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:39 +0000
Subject: [PATCH 53/60] fix: download data sets into a data directory given as
 a relative path

The downloaded archive was looked up inside the package when the data
directory was relative, so the download failed and left the archive
behind.
---
 src/skfolio/datasets/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/datasets/_base.py b/src/skfolio/datasets/_base.py
index e39b591..c0061ec 100644
--- a/src/skfolio/datasets/_base.py
+++ b/src/skfolio/datasets/_base.py
@@ -157,7 +157,8 @@ def download_dataset(
     if not download_if_missing:
         raise OSError("Data not found and `download_if_missing` is False")
 
-    archive_path = os.path.join(data_home, os.path.basename(url))
+    # A relative path would be searched inside the package
+    archive_path = os.path.abspath(os.path.join(data_home, os.path.basename(url)))
     ur.urlretrieve(url, archive_path)
     df = load_gzip_compressed_csv_data(archive_path)
     joblib.dump(df, filepath, compress=6)
-- 
2.43.0


From 3a9bb903bc56c413a2cc6f9f48ed8138e46ad09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:57:10 +0000
Subject: [PATCH 54/60] fix: return symmetric distances of perfectly correlated
 assets

Rounding made the correlation matrix slightly asymmetric. The distance
of nearly identical assets amplifies that difference, and clustering
refused the asymmetric distance matrix.
---
 src/skfolio/distance/_distance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/skfolio/distance/_distance.py b/src/skfolio/distance/_distance.py
index 2be51f2..8ba649b 100644
--- a/src/skfolio/distance/_distance.py
+++ b/src/skfolio/distance/_distance.py
@@ -575,6 +575,8 @@ def _corr_to_distance(
     codependence, distance : tuple[np.ndarray, np.ndarray]
         Codependence and distance matrices.
     """
+    # Rounding errors are amplified by the distance of highly correlated assets
+    corr = (corr + corr.T) / 2
     bounds = np.array([-1, 0, 1])
     if absolute:
         corr = np.abs(corr)
-- 
2.43.0


From 24aacc594a51584921971075c34734f4bb715d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:29:03 +0000
Subject: [PATCH 55/60] fix: floor and truncate portfolios and multi-period
 portfolios

---
 src/skfolio/portfolio/_multi_period_portfolio.py |  4 ++--
 src/skfolio/portfolio/_portfolio.py              | 10 ++++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/skfolio/portfolio/_multi_period_portfolio.py b/src/skfolio/portfolio/_multi_period_portfolio.py
index 7ec7dc2..c59bd9e 100644
--- a/src/skfolio/portfolio/_multi_period_portfolio.py
+++ b/src/skfolio/portfolio/_multi_period_portfolio.py
@@ -418,14 +418,14 @@ class MultiPeriodPortfolio(BasePortfolio):
 
     def __floor__(self):
         return self.__class__(
-            portfolios=[np.floor(p) for p in self],
+            portfolios=[p.__floor__() for p in self],
             tag=self.tag,
             fitness_measures=self.fitness_measures,
         )
 
     def __trunc__(self):
         return self.__class__(
-            portfolios=[np.trunc(p) for p in self],
+            portfolios=[p.__trunc__() for p in self],
             tag=self.tag,
             fitness_measures=self.fitness_measures,
         )
diff --git a/src/skfolio/portfolio/_portfolio.py b/src/skfolio/portfolio/_portfolio.py
index 5825140..91ce19d 100644
--- a/src/skfolio/portfolio/_portfolio.py
+++ b/src/skfolio/portfolio/_portfolio.py
@@ -584,6 +584,16 @@ class Portfolio(BasePortfolio):
         args["weights"] = np.round(self.weights, n)
         return self.__class__(**args)
 
+    def __floor__(self):
+        args = {arg: getattr(self, arg) for arg in args_names(self.__init__)}
+        args["weights"] = np.floor(self.weights)
+        return self.__class__(**args)
+
+    def __trunc__(self):
+        args = {arg: getattr(self, arg) for arg in args_names(self.__init__)}
+        args["weights"] = np.trunc(self.weights)
+        return self.__class__(**args)
+
     def __add__(self, other):
         if not isinstance(other, Portfolio):
             raise TypeError(
-- 
2.43.0


From c07c0cc889d93a49cb7ee02dc4bf7a6313a19265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:16 +0000
Subject: [PATCH 56/60] fix: warn about unknown groups in group cardinalities
 as documented

---
 src/skfolio/optimization/convex/_base.py | 6 ++++--
 src/skfolio/utils/equations.py           | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/skfolio/optimization/convex/_base.py b/src/skfolio/optimization/convex/_base.py
index e03a876..53d08ef 100644
--- a/src/skfolio/optimization/convex/_base.py
+++ b/src/skfolio/optimization/convex/_base.py
@@ -2185,7 +2185,8 @@ def _mip_weight_constraints_no_short_threshold(
             group_cardinalities=group_cardinalities,
             raise_if_group_missing=False,
         )
-        constraints.append(a_card @ is_invested_bool - b_card <= 0)
+        if len(a_card) != 0:
+            constraints.append(a_card @ is_invested_bool - b_card <= 0)
 
     if isinstance(factor, cp.Variable):
         is_invested_factor = cp.Variable(n_assets, nonneg=True)
@@ -2261,7 +2262,8 @@ def _mip_weight_constraints_threshold_short(
             group_cardinalities=group_cardinalities,
             raise_if_group_missing=False,
         )
-        constraints.append(a_card @ is_invested_bool - b_card <= 0)
+        if len(a_card) != 0:
+            constraints.append(a_card @ is_invested_bool - b_card <= 0)
 
     M = 1e3
     # Big M method to activate or deactivate constraints
diff --git a/src/skfolio/utils/equations.py b/src/skfolio/utils/equations.py
index f4eee4b..0a86805 100644
--- a/src/skfolio/utils/equations.py
+++ b/src/skfolio/utils/equations.py
@@ -182,7 +182,7 @@ def group_cardinalities_to_matrix(
             a_inequality.append(arr)
             b_inequality.append(card)
 
-        except GroupNotFoundError as e:
+        except EquationToMatrixError as e:
             if raise_if_group_missing:
                 raise
             warnings.warn(str(e), stacklevel=2)
-- 
2.43.0


From a9457ce9c625eace5b955488056eecf7bca51e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:16 +0000
Subject: [PATCH 57/60] fix: accept the independent copula among the copula
 candidates

---
 src/skfolio/distribution/copula/_selection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/distribution/copula/_selection.py b/src/skfolio/distribution/copula/_selection.py
index 19785b7..fa27153 100644
--- a/src/skfolio/distribution/copula/_selection.py
+++ b/src/skfolio/distribution/copula/_selection.py
@@ -94,7 +94,7 @@ def select_bivariate_copula(
                 "The candidate copula must inherit from `BaseBivariateCopula`"
             )
         copula = sk.clone(copula)
-        if copula.itau and copula.kendall_tau is None:
+        if getattr(copula, "itau", False) and copula.kendall_tau is None:
             # Faster computation by reusing kendall tau if itau
             copula.kendall_tau = kendall_tau
         copula.fit(X)
-- 
2.43.0


From ba25b20b0550a07a38b1301b1cf5a055db748aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:37:16 +0000
Subject: [PATCH 58/60] fix: accept group dictionaries with several assets or
 levels missing

---
 src/skfolio/utils/equations.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/skfolio/utils/equations.py b/src/skfolio/utils/equations.py
index 0a86805..35a48b3 100644
--- a/src/skfolio/utils/equations.py
+++ b/src/skfolio/utils/equations.py
@@ -212,7 +212,8 @@ def _validate_groups(groups: npt.ArrayLike, name: str = "groups") -> np.ndarray:
             f"`{name} must be a 2D array, got {groups.ndim}D array instead."
         )
     n = len(groups)
-    group_sets = [set(groups[i]) for i in range(n)]
+    # An asset without group in a level is represented by None
+    group_sets = [set(groups[i]) - {None} for i in range(n)]
     for i in range(n - 1):
         for e in group_sets[i]:
             for j in range(i + 1, n):
-- 
2.43.0


From 82f14ac796927904f43022ca8963df09cb3981ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:42:12 +0000
Subject: [PATCH 59/60] fix: do not split weights rounded below zero in HRP
 clusters

---
 src/skfolio/optimization/cluster/hierarchical/_hrp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_hrp.py b/src/skfolio/optimization/cluster/hierarchical/_hrp.py
index 8fd6d0f..36daf4b 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_hrp.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_hrp.py
@@ -424,7 +424,7 @@ def _apply_weight_constraints_to_split_factor(
     value : float
         The transformed split factor alpha incorporating the weight constraints.
     """
-    if weights[left_cluster[0]] == 0:
+    if weights[left_cluster[0]] <= 0:
         # There is no weight to split
         return alpha
     alpha = min(
-- 
2.43.0


From e454ad4a945245000ce870ba2259582d5b16e6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:46:02 +0000
Subject: [PATCH 60/60] fix: accept maximum weights that sum to one up to
 rounding in hierarchical optimizations

---
 src/skfolio/optimization/cluster/hierarchical/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/skfolio/optimization/cluster/hierarchical/_base.py b/src/skfolio/optimization/cluster/hierarchical/_base.py
index 65b0819..1b8cebd 100644
--- a/src/skfolio/optimization/cluster/hierarchical/_base.py
+++ b/src/skfolio/optimization/cluster/hierarchical/_base.py
@@ -383,7 +383,7 @@ class BaseHierarchicalOptimization(BaseOptimization, ABC):
             )
             if np.any(max_weights > 1):
                 raise ValueError("`max_weights` must be less than or equal to 1.0")
-            if np.sum(max_weights) < 1:
+            if np.sum(max_weights) < 1 - 1e-8:
                 raise ValueError(
                     "The sum of `max_weights` must be greater than or equal to 1.0"
                 )
-- 
2.43.0

