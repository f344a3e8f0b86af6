From accd2338daddd75845531cf834ad54b9461e85c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:56 +0000
Subject: [PATCH 01/20] fix: restore the estimator when fit or update raises
 (no half-updated state)

---
 src/ondil/base/estimator.py                 | 24 +++++++++++++++++++++
 src/ondil/estimators/online_gamlss.py       |  3 +++
 src/ondil/estimators/online_linear_model.py |  3 +++
 src/ondil/scaler.py                         |  4 +++-
 4 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/ondil/base/estimator.py b/src/ondil/base/estimator.py
index ed6689b..ac029f7 100644
--- a/src/ondil/base/estimator.py
+++ b/src/ondil/base/estimator.py
@@ -1,9 +1,33 @@
+import copy
+import functools
 from abc import ABC
 
 import numpy as np
 from sklearn.utils.validation import check_is_fitted
 
 
+def all_or_nothing(method):
+    """Restore the estimator's state if `method` (`fit`, `update`) raises.
+
+    A call that is rejected or interrupted must not leave a half-updated estimator
+    behind. Constructor parameters belong to the user and are kept by reference.
+    """
+
+    @functools.wraps(method)
+    def wrapper(self, *args, **kwargs):
+        params = self.get_params(deep=False)
+        memo = {id(value): value for value in params.values()}
+        backup = copy.deepcopy(self.__dict__, memo)
+        try:
+            return method(self, *args, **kwargs)
+        except BaseException:
+            self.__dict__.clear()
+            self.__dict__.update(backup)
+            raise
+
+    return wrapper
+
+
 class OndilEstimatorMixin(ABC):
 
     @property
diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index a2adaa9..413c953 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -15,6 +15,7 @@ from sklearn.utils.validation import (
 
 from .. import HAS_PANDAS, HAS_POLARS
 from ..base import Distribution, EstimationMethod, OndilEstimatorMixin
+from ..base.estimator import all_or_nothing
 from ..distributions import Normal
 from ..error import OutOfSupportError
 from ..gram import init_forget_vector
@@ -637,6 +638,7 @@ class OnlineDistributionalRegression(
             reps=(self.max_it_outer, self.max_it_inner, 1),
         ).astype(float)
 
+    @all_or_nothing
     @_fit_context(prefer_skip_nested_validation=True)
     def fit(
         self,
@@ -772,6 +774,7 @@ class OnlineDistributionalRegression(
         self._print_message(message=message, level=1)
         return self
 
+    @all_or_nothing
     @_fit_context(prefer_skip_nested_validation=True)
     def update(
         self,
diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index 3a246b3..f29bdf5 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -13,6 +13,7 @@ from sklearn.utils.validation import (
 )
 
 from ..base import EstimationMethod, OndilEstimatorMixin
+from ..base.estimator import all_or_nothing
 from ..design_matrix import add_intercept
 from ..information_criteria import InformationCriterion
 from ..methods import get_estimation_method
@@ -96,6 +97,7 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
             design = np.copy(X)
         return design
 
+    @all_or_nothing
     @_fit_context(prefer_skip_nested_validation=True)
     def fit(
         self,
@@ -173,6 +175,7 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
 
         return self
 
+    @all_or_nothing
     @_fit_context(prefer_skip_nested_validation=True)
     def update(
         self,
diff --git a/src/ondil/scaler.py b/src/ondil/scaler.py
index ef4c44d..6b303c2 100644
--- a/src/ondil/scaler.py
+++ b/src/ondil/scaler.py
@@ -9,7 +9,7 @@ from sklearn.utils.validation import (
     validate_data,
 )
 
-from .base.estimator import OndilEstimatorMixin
+from .base.estimator import OndilEstimatorMixin, all_or_nothing
 from .gram import init_forget_vector
 
 
@@ -66,6 +66,7 @@ class OnlineScaler(OndilEstimatorMixin, TransformerMixin, BaseEstimator):
         else:
             return 1.0
 
+    @all_or_nothing
     @_fit_context(prefer_skip_nested_validation=True)
     def fit(
         self,
@@ -111,6 +112,7 @@ class OnlineScaler(OndilEstimatorMixin, TransformerMixin, BaseEstimator):
 
         return self
 
+    @all_or_nothing
     @_fit_context(prefer_skip_nested_validation=True)
     def update(self, X: np.ndarray, y=None, sample_weight: np.ndarray = None):
         """Update the `OnlineScaler()` for new rows of X.
-- 
2.43.0


From a46dcd0c962de4409a1df29e28c2d4f2855d8614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:56 +0000
Subject: [PATCH 02/20] fix: clip working weights in update as in fit (zero
 weights made inflated distributions NaN)

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 413c953..c3e8206 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -1230,7 +1230,7 @@ class OnlineDistributionalRegression(
             dl1dp1 = self.distribution.dl1_dp1(y, fv_it, param=param)
             dl2dp2 = self.distribution.dl2_dp2(y, fv_it, param=param)
             wt = -(dl2dp2 / (dr * dr))
-            wt = np.clip(wt, -1e10, 1e10)
+            wt = np.clip(wt, 1e-10, 1e10)
             wv = eta + dl1dp1 / (dr * wt)
 
             if self.debug:
-- 
2.43.0


From 3e93ba1a39580d7c26cf59877421334e58c5c2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:56 +0000
Subject: [PATCH 03/20] fix: apply step_size dictionaries by parameter key, not
 by insertion order

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index c3e8206..e1cc23c 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -634,7 +634,7 @@ class OnlineDistributionalRegression(
 
     def _make_step_size_schedule(self):
         return np.tile(
-            A=list(self._step_size.values()),
+            A=[self._step_size[p] for p in range(self.distribution.n_params)],
             reps=(self.max_it_outer, self.max_it_inner, 1),
         ).astype(float)
 
-- 
2.43.0


From a70fb03559386e3e339f81ea7d75a983d34d8fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:56 +0000
Subject: [PATCH 04/20] fix: do not modify the user's equation and
 per-parameter dictionaries in fit

---
 src/ondil/estimators/online_gamlss.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index e1cc23c..a748268 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -274,6 +274,7 @@ class OnlineDistributionalRegression(
 
     def _process_parameter(self, attribute: Any, default: Any, name: str) -> None:
         if isinstance(attribute, dict):
+            attribute = dict(attribute)  # Never modify what the user passed
             for p in range(self.distribution.n_params):
                 if p not in attribute.keys():
                     warnings.warn(
@@ -308,6 +309,7 @@ class OnlineDistributionalRegression(
                 for p in range(self.distribution.n_params)
             }
         else:
+            equation = dict(equation)  # Never modify what the user passed
             for p in range(self.distribution.n_params):
                 # Check that all distribution parameters are in the equation.
                 # If not, add intercept.
-- 
2.43.0


From 14aa67a72f4da0e842326e3ab2cac6ca2accc4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:56 +0000
Subject: [PATCH 05/20] fix: accept the documented per-parameter dictionaries
 in parameter validation

---
 src/ondil/estimators/online_gamlss.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index a748268..48703d9 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -36,12 +36,12 @@ class OnlineDistributionalRegression(
     """The online/incremental GAMLSS class."""
 
     _parameter_constraints = {
-        "forget": [Interval(numbers.Real, 0.0, 1.0, closed="left")],
-        "fit_intercept": [bool],
+        "forget": [Interval(numbers.Real, 0.0, 1.0, closed="left"), dict],
+        "fit_intercept": [bool, dict],
         "scale_inputs": [bool, np.ndarray],
-        "regularize_intercept": [bool],
-        "method": [EstimationMethod, str],
-        "ic": [StrOptions({"aic", "bic", "hqc", "max"})],
+        "regularize_intercept": [bool, dict],
+        "method": [EstimationMethod, str, dict],
+        "ic": [StrOptions({"aic", "bic", "hqc", "max"}), dict],
         "distribution": [callable],
         "equation": [dict, type(None)],
         "model_selection": [StrOptions({"local_rss", "global_ll"})],
-- 
2.43.0


From 1ad102d426b35af698920402e40eac60c86eb51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:56 +0000
Subject: [PATCH 06/20] fix: cautious_updates accepts batches of more than one
 observation

---
 src/ondil/estimators/online_gamlss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 48703d9..831eeb5 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -855,8 +855,8 @@ class OnlineDistributionalRegression(
             self._current_min_it_outer = int(self.prefit_update)
 
         if self.cautious_updates:
-            lower = self.distribution.quantile(0.005, self._fv).item()
-            upper = self.distribution.quantile(0.995, self._fv).item()
+            lower = self.distribution.quantile(0.005, self._fv)
+            upper = self.distribution.quantile(0.995, self._fv)
 
             if np.any(y < lower) or np.any(y > upper):
                 message = (
-- 
2.43.0


From 20f9944f049755e688b65780801e3e47bdcbdf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:56 +0000
Subject: [PATCH 07/20] fix: max_it_outer bounds the outer loop whatever the
 minimum number of iterations

---
 src/ondil/estimators/online_gamlss.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 831eeb5..2342cd0 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -897,6 +897,10 @@ class OnlineDistributionalRegression(
         it_outer = 0
 
         while True:
+            # Never exceed the maximum number of outer iterations
+            if it_outer >= self.max_it_outer:
+                break
+
             # Check relative congergence
             if it_outer >= self._current_min_it_outer:
                 if (
@@ -916,9 +920,6 @@ class OnlineDistributionalRegression(
                 #     self._print_message(message=message, level=1)
                 #     break
 
-                if it_outer >= self.max_it_outer:
-                    break
-
             global_dev_old = global_dev
             it_outer += 1
 
@@ -948,6 +949,10 @@ class OnlineDistributionalRegression(
         it_outer = 0
 
         while True:
+            # Never exceed the maximum number of outer iterations
+            if it_outer >= self.max_it_outer:
+                break
+
             # Check relative congergence
             if it_outer >= self._current_min_it_outer:
                 if (
@@ -959,9 +964,6 @@ class OnlineDistributionalRegression(
                 if np.abs(global_dev_old - global_dev) < self.abs_tol_outer:
                     break
 
-                if it_outer >= self.max_it_outer:
-                    break
-
                 if global_dev > global_dev_old:
                     message = (
                         f"Outer iteration {it_outer}: Global deviance increased. Breaking."
-- 
2.43.0


From cd265293c5ea18ba6267acec2a965005b5f8f644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:47 +0000
Subject: [PATCH 08/20] fix: OnlineLasso keeps its constructor parameters (fit,
 clone and get_params raised AttributeError)

---
 src/ondil/estimators/online_lasso.py | 42 +++++++++++++++++++---------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/ondil/estimators/online_lasso.py b/src/ondil/estimators/online_lasso.py
index 616a675..63d476c 100644
--- a/src/ondil/estimators/online_lasso.py
+++ b/src/ondil/estimators/online_lasso.py
@@ -46,23 +46,39 @@ class OnlineLasso(OnlineLinearModel):
             selection (Literal["cyclic", "random"], optional): Whether to cycle through all coordinates in order or random. For large problems, random might increase convergence. Defaults to 100.
         """
 
-        concrete_method = LassoPath(
-            lambda_eps=lambda_eps,
-            lambda_n=lambda_n,
-            start_value_initial="previous_lambda",
-            early_stop=early_stop,
-            start_value_update=start_value,
-            tolerance=tolerance,
-            max_iterations=max_iterations,
-            selection=selection,
-            beta_lower_bound=beta_lower_bound,
-            beta_upper_bound=beta_upper_bound,
-        )
         super().__init__(
             forget=forget,
             scale_inputs=scale_inputs,
             fit_intercept=fit_intercept,
             regularize_intercept=regularize_intercept,
-            method=concrete_method,
             ic=ic,
         )
+        # scikit-learn needs every constructor parameter as an attribute
+        self.early_stop = early_stop
+        self.beta_lower_bound = beta_lower_bound
+        self.beta_upper_bound = beta_upper_bound
+        self.lambda_n = lambda_n
+        self.lambda_eps = lambda_eps
+        self.start_value = start_value
+        self.tolerance = tolerance
+        self.max_iterations = max_iterations
+        self.selection = selection
+        self.method = self._make_method()
+
+    def _make_method(self) -> LassoPath:
+        return LassoPath(
+            lambda_eps=self.lambda_eps,
+            lambda_n=self.lambda_n,
+            start_value_initial="previous_lambda",
+            early_stop=self.early_stop,
+            start_value_update=self.start_value,
+            tolerance=self.tolerance,
+            max_iterations=self.max_iterations,
+            selection=self.selection,
+            beta_lower_bound=self.beta_lower_bound,
+            beta_upper_bound=self.beta_upper_bound,
+        )
+
+    def _prepare_fit(self):
+        self.method = self._make_method()
+        super()._prepare_fit()
-- 
2.43.0


From 32b324d08cad6e7c5daa1f842b976bae4cc20bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:47 +0000
Subject: [PATCH 09/20] fix: largest penalty of a fully regularised path uses
 absolute correlations

---
 src/ondil/methods/elasticnet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/methods/elasticnet.py b/src/ondil/methods/elasticnet.py
index e3c9fd1..92be4c9 100644
--- a/src/ondil/methods/elasticnet.py
+++ b/src/ondil/methods/elasticnet.py
@@ -89,7 +89,7 @@ class ElasticNetPath(EstimationMethod):
     @staticmethod
     def _get_lambda_max(x_gram, y_gram, is_regularized):
         if np.all(is_regularized):
-            lambda_max = np.max(y_gram)
+            lambda_max = np.max(np.abs(y_gram))
         elif np.sum(~is_regularized) == 1:
             intercept = y_gram[~is_regularized] / np.diag(x_gram)[~is_regularized]
             lambda_max = np.max(
-- 
2.43.0


From d0feea89b88c9d887e8e8c2adb3c576288096541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:47 +0000
Subject: [PATCH 10/20] fix: start value "average" was overwritten by the
 previous fit

---
 src/ondil/coordinate_descent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/coordinate_descent.py b/src/ondil/coordinate_descent.py
index a55e57e..56042ad 100644
--- a/src/ondil/coordinate_descent.py
+++ b/src/ondil/coordinate_descent.py
@@ -140,7 +140,7 @@ def online_coordinate_descent_path(
         # Select the according start values for the next CD update
         if which_start_value == "average":
             beta = (beta_path_new[max(i - 1, 0), :] + beta_path[max(i, 0), :]) / 2
-        if which_start_value == "previous_lambda":
+        elif which_start_value == "previous_lambda":
             beta = beta_path_new[max(i - 1, 0), :]
         else:
             beta = beta_path[max(i, 0), :]
-- 
2.43.0


From a421bf44f5986cd4b103ec4e675c495fecc1ab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:47 +0000
Subject: [PATCH 11/20] fix: path selection of the linear model uses the
 discounted, weighted residual history

---
 src/ondil/estimators/online_linear_model.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index f29bdf5..e67c7f2 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -15,6 +15,7 @@ from sklearn.utils.validation import (
 from ..base import EstimationMethod, OndilEstimatorMixin
 from ..base.estimator import all_or_nothing
 from ..design_matrix import add_intercept
+from ..gram import init_forget_vector
 from ..information_criteria import InformationCriterion
 from ..methods import get_estimation_method
 from ..scaler import OnlineScaler
@@ -156,10 +157,9 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
                 y_gram=self._y_gram,
                 is_regularized=self._is_regularized,
             )
-            residuals = np.expand_dims(sample_weight, -1) * (
-                np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
-            )
-            self._rss = np.sum(residuals**2, axis=0)
+            residuals = np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
+            weights = sample_weight * init_forget_vector(self.forget, y.shape[0])
+            self._rss = np.sum(residuals**2 * np.expand_dims(weights, -1), axis=0)
             n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
@@ -221,7 +221,10 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
             )
 
             residuals = np.expand_dims(y, -1) - X_scaled @ self.coef_path_.T
-            self._rss = (1 - self.forget) * self._rss + np.sum(residuals**2, axis=0)
+            weights = sample_weight * init_forget_vector(self.forget, y.shape[0])
+            self._rss = (1 - self.forget) ** y.shape[0] * self._rss + np.sum(
+                residuals**2 * np.expand_dims(weights, -1), axis=0
+            )
             n_params = np.sum(~np.isclose(self.coef_path_, 0), axis=1)
             ic = InformationCriterion(
                 n_observations=self.n_training_,
-- 
2.43.0


From 786563f73a9329c6499e886ca4fce9009b6474b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:47 +0000
Subject: [PATCH 12/20] fix: global_ll selection in fit honours sample weights
 as in update

---
 src/ondil/estimators/online_gamlss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 2342cd0..99be820 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -501,7 +501,7 @@ class OnlineDistributionalRegression(
                 theta[:, param] = self.distribution.link_inverse(
                     prediction_path[:, i], param=param
                 )
-                ll[i] = np.sum(f * self.distribution.logpdf(y, theta))
+                ll[i] = np.sum(w * f * self.distribution.logpdf(y, theta))
 
             ic = InformationCriterion(
                 n_observations=self.n_training_[param],
-- 
2.43.0


From e02e9d1aff5d42f282ce2f6d7f235901286897b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:47 +0000
Subject: [PATCH 13/20] fix: local_rss selection keeps the discounted, weighted
 residual history on one scale

---
 src/ondil/estimators/online_gamlss.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 99be820..e0f7cf4 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -514,6 +514,12 @@ class OnlineDistributionalRegression(
 
         return beta, model_selection_data, best_ic
 
+    def _update_weights(self, weights: np.ndarray, param: int) -> tuple[float, float]:
+        """Discounted sum and mean of the working weights including new (discounted) `weights`."""
+        discount = (1 - self._forget[param]) ** weights.shape[0]
+        total = np.sum(weights) + discount * self._sum_of_weights[param]
+        return total, total / self.n_training_[param]
+
     def _update_select_model(
         self,
         X: np.ndarray,
@@ -559,14 +565,8 @@ class OnlineDistributionalRegression(
         n_nonzero_coef = np.count_nonzero(beta_path, axis=1)
         prediction_path = X @ beta_path.T
         if self.model_selection == "local_rss":
-            # Denominator
-            # TODO: This should go in the online mean update function.
-            denom = online_mean_update(
-                self._mean_of_weights[param],
-                wt,
-                self._forget[param],
-                self.n_observations_,
-            )
+            # Denominator, needs to be the mean of weights used in the next update
+            _, denom = self._update_weights(w * wt * f, param)
             residuals = wv[:, None] - prediction_path
             rss = (
                 np.sum((residuals**2) * w[:, None] * wt[:, None] * f[:, None], axis=0)
@@ -1188,8 +1188,8 @@ class OnlineDistributionalRegression(
             self._fv[:, param] = fv_it_new[:, param]
 
             # Sum and mean of the weights
-            self._sum_of_weights[param] = np.sum(w * wt)
-            self._mean_of_weights[param] = np.mean(w * wt)
+            self._sum_of_weights[param] = np.sum(w * wt * f)
+            self._mean_of_weights[param] = np.mean(w * wt * f)
 
             # RSS
             self._rss[param] = rss_it
@@ -1375,11 +1375,8 @@ class OnlineDistributionalRegression(
         self._model_selection_data[param] = model_selection_data_it
 
         # Update the weights
-        self._sum_of_weights_new[param] = (
-            np.sum(w * wt) + (1 - self._forget[param]) * self._sum_of_weights[param]
-        )
-        self._mean_of_weights_new[param] = (
-            self._sum_of_weights_new[param] / self.n_training_[param]
+        self._sum_of_weights_new[param], self._mean_of_weights_new[param] = (
+            self._update_weights(w * wt * f, param)
         )
         self._it_inner[param] = it_inner
         return dv_it
-- 
2.43.0


From cee2b21be9df27247cc29b332a55469b45f16202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:43 +0000
Subject: [PATCH 14/20] fix: predict_median and predict work for every
 distribution (median missing everywhere, mean for the inflated ones)

---
 src/ondil/base/distribution.py               | 12 ++++++++++++
 src/ondil/distributions/betainflated.py      |  4 ++++
 src/ondil/distributions/betainflatedzero.py  |  4 ++++
 src/ondil/distributions/zeroadjustedgamma.py |  4 ++++
 4 files changed, 24 insertions(+)

diff --git a/src/ondil/base/distribution.py b/src/ondil/base/distribution.py
index e0f8e95..473ab2d 100644
--- a/src/ondil/base/distribution.py
+++ b/src/ondil/base/distribution.py
@@ -132,6 +132,18 @@ class Distribution(ABC):
         """
         return self.ppf(q, theta)
 
+    def median(self, theta: np.ndarray) -> np.ndarray:
+        """
+        Compute the median of the distribution for the given parameters.
+
+        Args:
+            theta (np.ndarray): The parameters of the distribution.
+
+        Returns:
+            np.ndarray: The medians corresponding to the parameters in `theta`.
+        """
+        return self.ppf(0.5, theta)
+
     @abstractmethod
     def calculate_conditional_initial_values(
         self,
diff --git a/src/ondil/distributions/betainflated.py b/src/ondil/distributions/betainflated.py
index 22abe2b..9d71717 100644
--- a/src/ondil/distributions/betainflated.py
+++ b/src/ondil/distributions/betainflated.py
@@ -217,6 +217,10 @@ class BetaInflated(Distribution):
 
         return result
 
+    def mean(self, theta):
+        mu, _, nu, tau = self.theta_to_params(theta)
+        return (mu + tau) / (1 + nu + tau)
+
     def pmf(self, y, theta):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
diff --git a/src/ondil/distributions/betainflatedzero.py b/src/ondil/distributions/betainflatedzero.py
index 17126fd..2d9ba0f 100644
--- a/src/ondil/distributions/betainflatedzero.py
+++ b/src/ondil/distributions/betainflatedzero.py
@@ -177,6 +177,10 @@ class BetaInflatedZero(Distribution):
 
         return result
 
+    def mean(self, theta):
+        mu, _, nu = self.theta_to_params(theta)
+        return mu / (1 + nu)
+
     def pmf(self, y, theta):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
diff --git a/src/ondil/distributions/zeroadjustedgamma.py b/src/ondil/distributions/zeroadjustedgamma.py
index c01aead..9a634e1 100644
--- a/src/ondil/distributions/zeroadjustedgamma.py
+++ b/src/ondil/distributions/zeroadjustedgamma.py
@@ -139,6 +139,10 @@ class ZeroAdjustedGamma(Distribution):
 
         return np.where(q <= nu, 0, result)
 
+    def mean(self, theta):
+        mu, _, nu = self.theta_to_params(theta)
+        return (1 - nu) * mu
+
     def pmf(self, y, theta):
         raise NotImplementedError("PMF is not implemented for mixed distributions.")
 
-- 
2.43.0


From 1823b9ff6bb2545320eab26806f8ff6fa65f72a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:15:43 +0000
Subject: [PATCH 15/20] fix: get_debug_information returns the requested
 iteration (looked up a later one) and covers every documented variable

---
 src/ondil/estimators/online_gamlss.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index e0f7cf4..98b7a6d 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -824,6 +824,7 @@ class OnlineDistributionalRegression(
             self._debug_dl2dlp2 = {}
             self._debug_eta = {}
             self._debug_fv = {}
+            self._debug_dv = {}
             self._debug_coef = {}
             self._debug_coef_path = {}
 
@@ -1245,6 +1246,7 @@ class OnlineDistributionalRegression(
                 self._debug_dl2dlp2[key] = copy.copy(dl2dp2)
                 self._debug_eta[key] = copy.copy(eta)
                 self._debug_fv[key] = copy.copy(fv_it)
+                self._debug_dv[key] = float(dv_iterations[it_inner])
 
             x_gram_it = self._method[param].update_x_gram(
                 gram=self._x_gram[param],
@@ -1524,5 +1526,11 @@ class OnlineDistributionalRegression(
                 "Debug mode is not enabled. Please set debug=True when initializing the OnlineDistributionalRegression estimator."
             )
 
-        key = (param, it_outer, it_inner + 1)
+        if variable == "X_dict":
+            return self._debug_X_dict[param]
+        if variable == "X_scaled":
+            return self._debug_X_scaled
+
+        # Inner iterations are stored zero-based
+        key = (param, it_outer, it_inner - 1)
         return getattr(self, f"_debug_{variable}")[key]
-- 
2.43.0


From b8e7f41fdc164cb83a937c493053cf64ba664b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:35:45 +0000
Subject: [PATCH 16/20] fix: fit and update commit their result atomically (an
 interrupt during the rollback could empty the estimator)

---
 src/ondil/base/estimator.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/ondil/base/estimator.py b/src/ondil/base/estimator.py
index ac029f7..9a706f8 100644
--- a/src/ondil/base/estimator.py
+++ b/src/ondil/base/estimator.py
@@ -7,23 +7,23 @@ from sklearn.utils.validation import check_is_fitted
 
 
 def all_or_nothing(method):
-    """Restore the estimator's state if `method` (`fit`, `update`) raises.
+    """Make `method` (`fit`, `update`) take effect completely or not at all.
 
-    A call that is rejected or interrupted must not leave a half-updated estimator
-    behind. Constructor parameters belong to the user and are kept by reference.
+    The method works on a copy of the estimator, which replaces the state of the
+    estimator in a single assignment once the method has returned. A call that is
+    rejected or interrupted therefore never leaves a half-updated estimator behind.
+    Constructor parameters belong to the user and are kept by reference.
     """
 
     @functools.wraps(method)
     def wrapper(self, *args, **kwargs):
         params = self.get_params(deep=False)
         memo = {id(value): value for value in params.values()}
-        backup = copy.deepcopy(self.__dict__, memo)
-        try:
-            return method(self, *args, **kwargs)
-        except BaseException:
-            self.__dict__.clear()
-            self.__dict__.update(backup)
-            raise
+        work = type(self).__new__(type(self))
+        work.__dict__ = copy.deepcopy(self.__dict__, memo)
+        result = method(work, *args, **kwargs)
+        self.__dict__ = work.__dict__
+        return self if result is work else result
 
     return wrapper
 
-- 
2.43.0


From 37305d75d4ba2ba3daa63c050629ff7648a18c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:30 +0000
Subject: [PATCH 17/20] fix: refitting a linear model without a path drops the
 coefficient path of the earlier fit

---
 src/ondil/estimators/online_linear_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ondil/estimators/online_linear_model.py b/src/ondil/estimators/online_linear_model.py
index e67c7f2..4ae4623 100644
--- a/src/ondil/estimators/online_linear_model.py
+++ b/src/ondil/estimators/online_linear_model.py
@@ -169,6 +169,8 @@ class OnlineLinearModel(OndilEstimatorMixin, RegressorMixin, BaseEstimator):
             best_ic = np.argmin(ic)
             self.coef_ = self.coef_path_[best_ic, :]
         else:
+            # An earlier fit might have used a path-based method
+            self.__dict__.pop("coef_path_", None)
             self.coef_ = self._method.fit_beta(
                 self._x_gram, self._y_gram, self._is_regularized
             )
-- 
2.43.0


From ba292cee9ffc789e701f85fca1cd47fe2865b321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:58 +0000
Subject: [PATCH 18/20] fix: a diverged fit or update raises instead of keeping
 and serving NaN coefficients

---
 src/ondil/estimators/online_gamlss.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 98b7a6d..073c2fd 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -772,6 +772,7 @@ class OnlineDistributionalRegression(
             y=y,
             w=sample_weight,
         )
+        self._check_coefficients()
         message = "Finished fit call"
         self._print_message(message=message, level=1)
         return self
@@ -881,6 +882,7 @@ class OnlineDistributionalRegression(
             y=y,
             w=sample_weight,
         )
+        self._check_coefficients()
 
         self._x_gram = copy.copy(self._x_gram_new)
         self._y_gram = copy.copy(self._y_gram_new)
@@ -890,6 +892,15 @@ class OnlineDistributionalRegression(
         self._print_message(message=message, level=1)
         return self
 
+    def _check_coefficients(self):
+        """Raise if the estimation diverged instead of serving (and keeping) NaN."""
+        for p in range(self.distribution.n_params):
+            if not np.all(np.isfinite(self.coef_[p])):
+                raise FloatingPointError(
+                    f"The estimation of distribution parameter {p} diverged to "
+                    "non-finite coefficients. The estimator is unchanged."
+                )
+
     def _outer_update(self, X, y, w):
         ## for new observations:
         global_di = np.sum(-2 * self.distribution.logpdf(y, self._fv) * w)
-- 
2.43.0


From 1596eb05d3a6b9e2c73ec502c14cf3828002c066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:53 +0000
Subject: [PATCH 19/20] fix: debug information of
 OnlineDistributionalRegression no longer aliases the caller's X

Without input scaling the recorded design matrices were the caller's own
array, so overwriting that buffer after the call changed what
get_debug_information reports (and writing to the report changed the
caller's data). All other recorded arrays were copied already.
---
 src/ondil/estimators/online_gamlss.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 073c2fd..03b4409 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -702,8 +702,8 @@ class OnlineDistributionalRegression(
                 self._print_message(message=message, level=1)
 
         if self.debug:
-            self._debug_X_dict = X_dict
-            self._debug_X_scaled = X_scaled
+            self._debug_X_dict = copy.deepcopy(X_dict)
+            self._debug_X_scaled = copy.copy(X_scaled)
             self._debug_weights = {}
             self._debug_working_vectors = {}
             self._debug_dl1dlp1 = {}
@@ -817,8 +817,8 @@ class OnlineDistributionalRegression(
         }
 
         if self.debug:
-            self._debug_X_dict = X_dict
-            self._debug_X_scaled = X_scaled
+            self._debug_X_dict = copy.deepcopy(X_dict)
+            self._debug_X_scaled = copy.copy(X_scaled)
             self._debug_weights = {}
             self._debug_working_vectors = {}
             self._debug_dl1dlp1 = {}
-- 
2.43.0


From 0d705f22e5a29a964f4f411f9c9579fee09718b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:54:39 +0000
Subject: [PATCH 20/20] fix: equations given as a list of column names select
 those columns

The validation turns data frames into arrays before the design matrix is built, so the
documented list of column names always raised an IndexError.
---
 src/ondil/estimators/online_gamlss.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ondil/estimators/online_gamlss.py b/src/ondil/estimators/online_gamlss.py
index 03b4409..ff9840b 100644
--- a/src/ondil/estimators/online_gamlss.py
+++ b/src/ondil/estimators/online_gamlss.py
@@ -392,6 +392,16 @@ class OnlineDistributionalRegression(
                 raise ValueError("Something unexpected happened")
         return J
 
+    def _get_column_indices(self, columns: Union[np.ndarray, list]):
+        """Translate column names to indices, X is a plain array after the validation."""
+        if not all(isinstance(c, str) for c in columns):
+            return columns
+        names = list(getattr(self, "feature_names_in_", []))
+        unknown = [c for c in columns if c not in names]
+        if unknown:
+            raise ValueError(f"The equation names columns not found in X: {unknown}.")
+        return [names.index(c) for c in columns]
+
     def make_model_array(self, X: Union[np.ndarray], param: int):
         eq = self._equation[param]
         n = X.shape[0]
@@ -413,7 +423,7 @@ class OnlineDistributionalRegression(
                     out = X.to_numpy()
             elif isinstance(eq, np.ndarray) | isinstance(eq, list):
                 if isinstance(X, np.ndarray):
-                    out = X[:, eq]
+                    out = X[:, self._get_column_indices(eq)]
                 if HAS_PANDAS and isinstance(X, pd.DataFrame):
                     out = X.loc[:, eq]
                 if HAS_POLARS and isinstance(X, pl.DataFrame):
-- 
2.43.0

