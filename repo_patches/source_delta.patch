From cd23053061dd470294b6ef965475126ebe36017b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 01/34] fix: support problems with only lower or only upper
 bounds

If exactly one of the bound arrays was None, creating the trust region raised an
UnboundLocalError.
---
 src/tranquilo/region.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tranquilo/region.py b/src/tranquilo/region.py
index 52bbcc7..bbff3ef 100644
--- a/src/tranquilo/region.py
+++ b/src/tranquilo/region.py
@@ -144,6 +144,7 @@ def _any_bounds_binding(bounds, center, radius):
     """Check if any bound is binding, i.e. inside the trustregion."""
     out = False
     if bounds is not None and bounds.has_any:
+        lower_binding = upper_binding = False
         if bounds.lower is not None:
             lower_binding = np.min(center - bounds.lower) <= radius
         if bounds.upper is not None:
-- 
2.43.0


From 5a92bde59a61e8a1a2f6a4f4ca7e4707701f73a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 02/34] fix: keep solutions of the sphere subproblem inside the
 trust region

The sphere solvers stop as soon as the norm constraint is satisfied up to k_easy, i.e.
the candidate could be up to 10 percent outside the trust region. Since a trust region
is only a cube if bounds are inside its radius, the candidate could violate bounds.
---
 src/tranquilo/solve_subproblem.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tranquilo/solve_subproblem.py b/src/tranquilo/solve_subproblem.py
index f08ed81..d22177b 100644
--- a/src/tranquilo/solve_subproblem.py
+++ b/src/tranquilo/solve_subproblem.py
@@ -206,6 +206,12 @@ def _solve_subproblem_template(
 
     if trustregion.shape == "cube":
         raw_result["x"] = np.clip(raw_result["x"], -1.0, 1.0)
+    else:
+        # the sphere solvers satisfy the norm constraint only up to a tolerance, e.g.
+        # `k_easy`. Candidates outside the sphere could even violate the bounds.
+        x_norm = np.linalg.norm(raw_result["x"])
+        if x_norm > 1.0:
+            raw_result["x"] = np.clip(raw_result["x"] / x_norm, -1.0, 1.0)
 
     # make sure expected improvement is calculated accurately in case of clipping and
     # does not depend on whether the subsolver ignores intercepts or not.
-- 
2.43.0


From acff837d7f828d2e7ac215666c639f7e03ddd4c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 03/34] fix: make line search points respect the bounds

The line search goes up to eight times beyond the candidate and evaluated the
criterion outside of the bounds.
---
 src/tranquilo/acceptance_decision.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tranquilo/acceptance_decision.py b/src/tranquilo/acceptance_decision.py
index 534b339..1aa9c6d 100644
--- a/src/tranquilo/acceptance_decision.py
+++ b/src/tranquilo/acceptance_decision.py
@@ -134,6 +134,10 @@ def accept_classic_line_search(
         line_search_xs = _sample_on_line(
             start_point=state.x, direction_point=candidate_x, alpha_grid=alpha_grid
         )
+
+        bounds = state.trustregion.bounds
+        if bounds is not None and bounds.has_any:
+            line_search_xs = np.clip(line_search_xs, bounds.lower, bounds.upper)
     else:
         line_search_xs = None
 
-- 
2.43.0


From 7bd49441b3181a65e50953ce2ee982ea1e6d0b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 04/34] fix: handle failing evaluations of vector valued
 criteria

If some evaluations in a batch failed, they were replaced by a scalar infinity, which
could not be combined with the vectors from successful evaluations.
---
 src/tranquilo/wrap_criterion.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/wrap_criterion.py b/src/tranquilo/wrap_criterion.py
index 13765d5..8daca9b 100644
--- a/src/tranquilo/wrap_criterion.py
+++ b/src/tranquilo/wrap_criterion.py
@@ -54,8 +54,9 @@ def get_wrapped_criterion(criterion, batch_evaluator, n_cores, history):
 
         # The batch evaluator replaces exceptions with their traceback (str) when
         # error_handling="continue". We replace these cases with infinity.
+        failed_eval = _get_failed_eval(raw_evals, history)
         raw_evals_with_replaced_traceback = [
-            np.inf if isinstance(x, str) else x for x in raw_evals
+            failed_eval if isinstance(x, str) else x for x in raw_evals
         ]
 
         # replace NaNs but keep infinite values. NaNs would be problematic in many
@@ -73,6 +74,18 @@ def get_wrapped_criterion(criterion, batch_evaluator, n_cores, history):
     return wrapper_criterion
 
 
+def _get_failed_eval(raw_evals, history):
+    """Get an infinite evaluation of the same shape as the successful evaluations."""
+    if history.functype == "scalar":
+        return np.inf
+
+    for raw_eval in raw_evals:
+        if not isinstance(raw_eval, str):
+            return np.full(np.shape(raw_eval), np.inf)
+
+    return np.inf if history.fvecs is None else np.full(history.fvecs.shape[1], np.inf)
+
+
 def process_batch_evaluator(batch_evaluator="joblib"):
     batch_evaluator = "joblib" if batch_evaluator is None else batch_evaluator
 
-- 
2.43.0


From bdb23f6477140809b2fc059b4ccbac57be2208bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 05/34] fix: never clip infinities to values that are better
 than finite values

If all finite values of a residual were equal (e.g. if there was only one), its
minimum and maximum were set to zero. Infinities were then replaced by one, even if the
finite values were much larger.
---
 src/tranquilo/handle_infinity.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/handle_infinity.py b/src/tranquilo/handle_infinity.py
index c250b64..f3efdc9 100644
--- a/src/tranquilo/handle_infinity.py
+++ b/src/tranquilo/handle_infinity.py
@@ -34,7 +34,8 @@ def clip_relative(fvecs):
     # Due to the initial value of the masked min and max, the sign of the diff can
     # be negative if all values are infinite. In that case we want to switch the
     # signe of _diff, _mins and _maxs.
-    _signs = np.sign(_diff)
+    # If all finite values are equal, the difference is zero and there is no sign switch.
+    _signs = np.where(_diff < 0, -1.0, 1.0)
     _diff *= _signs
     _maxs *= _signs
     _mins *= _signs
-- 
2.43.0


From bd189414afce4e059e513d69e1a406cdb0447148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 06/34] fix: use a positive default radius if all start
 parameters are zero

The default radius was zero, such that the first model fit failed with a LinAlgError.
---
 src/tranquilo/options.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/options.py b/src/tranquilo/options.py
index c83eced..1602d6c 100644
--- a/src/tranquilo/options.py
+++ b/src/tranquilo/options.py
@@ -28,7 +28,11 @@ def get_default_sample_filter(batch_size):
 
 
 def get_default_radius_options(x):
-    return RadiusOptions(initial_radius=0.1 * np.max(np.abs(x)))
+    initial_radius = 0.1 * np.max(np.abs(x))
+    # the radius needs to be positive, even if all start parameters are zero
+    if initial_radius == 0:
+        initial_radius = 0.1
+    return RadiusOptions(initial_radius=initial_radius)
 
 
 def get_default_batch_size(n_cores):
-- 
2.43.0


From 88443f8a95aba62c127306d99b2dcedb4e48fc12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 07/34] fix: respect min_radius if max_radius_to_step_ratio is
 used

Rejected candidates have a step length of zero. With a finite max_radius_to_step_ratio,
the radius became zero and the next model fit failed with a LinAlgError.
---
 src/tranquilo/adjust_radius.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/tranquilo/adjust_radius.py b/src/tranquilo/adjust_radius.py
index 94502c2..ea314d0 100644
--- a/src/tranquilo/adjust_radius.py
+++ b/src/tranquilo/adjust_radius.py
@@ -38,6 +38,9 @@ def adjust_radius(radius, rho, step_length, options, n_evals_is_increased):
     else:
         max_radius = options.max_radius
 
+    # the step length can be zero but the radius must never fall below min_radius
+    max_radius = max(max_radius, options.min_radius)
+
     new_radius = np.clip(new_radius, options.min_radius, max_radius)
 
     return new_radius
-- 
2.43.0


From e24407ca896a156afcd2c703b85a7e4b0c2a55b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 08/34] fix: do not modify algo_options provided by the user

The maxiter that was added for the first problem would also be used in later problems
of different dimension.
---
 src/tranquilo/sample_points.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/sample_points.py b/src/tranquilo/sample_points.py
index 5ff0745..b9c65ab 100644
--- a/src/tranquilo/sample_points.py
+++ b/src/tranquilo/sample_points.py
@@ -241,7 +241,7 @@ def _optimal_hull_sampler(
     if criterion is None:
         criterion = "determinant" if n_points == 1 else "distance"
 
-    algo_options = {} if algo_options is None else algo_options
+    algo_options = {} if algo_options is None else algo_options.copy()
     if "maxiter" not in algo_options:
         algo_options["maxiter"] = 2 * n_params + 5
 
-- 
2.43.0


From 2147c94645a523c2046f4bd4bf7df2070e6f414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 09/34] fix: do not convert the sampler option hardness to an
 integer

User options are converted to the type of the default. Thus a hardness of 0.5 became 0.
---
 src/tranquilo/options.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/options.py b/src/tranquilo/options.py
index 1602d6c..fb52e3b 100644
--- a/src/tranquilo/options.py
+++ b/src/tranquilo/options.py
@@ -199,7 +199,7 @@ class FilterOptions(NamedTuple):
 
 class SamplerOptions(NamedTuple):
     distribution: str = None
-    hardness: float = 1
+    hardness: float = 1.0
     algorithm: str = "L-BFGS-B"
     algo_options: dict = None
     criterion: str = None
-- 
2.43.0


From 343b178d03b2848ae3146663eca2798e5a7d07b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:18 +0000
Subject: [PATCH 10/34] fix: do not reset numpy's global random state in the
 multistart cube solver

The start values come from an unscrambled sobol sequence and do not depend on it. But
the noise of a criterion function that uses the global state was repeated in each
iteration.
---
 src/tranquilo/subsolvers/fallback_subsolvers.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/tranquilo/subsolvers/fallback_subsolvers.py b/src/tranquilo/subsolvers/fallback_subsolvers.py
index 5192aad..0fdb711 100644
--- a/src/tranquilo/subsolvers/fallback_subsolvers.py
+++ b/src/tranquilo/subsolvers/fallback_subsolvers.py
@@ -39,7 +39,6 @@ def robust_cube_solver(model, x_candidate, radius=1.0):
 
 
 def robust_cube_solver_multistart(model, x_candidate):
-    np.random.seed(12345)
     start_values = draw_exploration_sample(
         x=x_candidate,
         lower=-np.ones(len(x_candidate)),
-- 
2.43.0


From 9d5e2b62d97aabc920de9251aba6c0a809be8834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:42 +0000
Subject: [PATCH 11/34] fix: scale square terms correctly if the scaling factor
 is a vector

---
 src/tranquilo/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/models.py b/src/tranquilo/models.py
index 50b63da..0902dac 100644
--- a/src/tranquilo/models.py
+++ b/src/tranquilo/models.py
@@ -162,7 +162,11 @@ def _scale_model(model, factor):
 
     """
     new_g = model.linear_terms * factor
-    new_h = None if model.square_terms is None else model.square_terms * factor**2
+    if model.square_terms is None:
+        new_h = None
+    else:
+        # the factor can differ across parameters
+        new_h = model.square_terms * np.multiply.outer(factor, factor)
 
     out = model._replace(
         linear_terms=new_g,
-- 
2.43.0


From b3bfa3872b91224482561a5e5cd12c20dad8c093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:42 +0000
Subject: [PATCH 12/34] fix: order of square terms in poisedness for more than
 two parameters

---
 src/tranquilo/poisedness.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/poisedness.py b/src/tranquilo/poisedness.py
index 1359e0d..3cb3c7f 100644
--- a/src/tranquilo/poisedness.py
+++ b/src/tranquilo/poisedness.py
@@ -176,8 +176,9 @@ def _reshape_coef_to_square_terms(coef, n_params):
     mat = np.empty((n_params, n_params))
     idx = -1
 
-    for j in range(n_params):
-        for i in range(j + 1):
+    # same order as in _scaled_polynomial_features
+    for i in range(n_params):
+        for j in range(i, n_params):
             idx += 1
             mat[i, j] = coef[idx]
             mat[j, i] = coef[idx]
-- 
2.43.0


From 8b75b96068e28be6efbf6bb83b0aebd5b447a35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:42 +0000
Subject: [PATCH 13/34] fix: residualize with respect to the model of the
 previous iteration

---
 src/tranquilo/tranquilo.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/tranquilo.py b/src/tranquilo/tranquilo.py
index 845d2bb..9919f5e 100644
--- a/src/tranquilo/tranquilo.py
+++ b/src/tranquilo/tranquilo.py
@@ -311,6 +311,7 @@ def _internal_tranquilo(
         state = state._replace(
             model_indices=model_indices,
             model=scalar_model,
+            vector_model=vector_model,
             new_indices=np.setdiff1d(model_indices, old_indices),
             old_indices_used=np.intersect1d(model_indices, old_indices),
             old_indices_discarded=np.setdiff1d(old_indices, model_indices),
@@ -328,7 +329,7 @@ def _internal_tranquilo(
             rho_noise_vec = simulate_rho_noise(
                 xs=model_xs,
                 vector_model=vector_model,
-                old_vector_model=state.vector_model,
+                old_vector_model=states[-2].vector_model,
                 trustregion=state.trustregion,
                 noise_cov=noise_cov,
                 model_fitter=fit_model,
-- 
2.43.0


From 23c2275f10182b62ac58047dd2f809b4f8954909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:25 +0000
Subject: [PATCH 14/34] fix: respect stopping_max_time

---
 src/tranquilo/tranquilo.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/tranquilo/tranquilo.py b/src/tranquilo/tranquilo.py
index 9919f5e..69902f8 100644
--- a/src/tranquilo/tranquilo.py
+++ b/src/tranquilo/tranquilo.py
@@ -1,4 +1,5 @@
 import functools
+import time
 from typing import NamedTuple
 
 import numpy as np
@@ -50,6 +51,8 @@ def _internal_tranquilo(
     estimate_variance,
     accept_candidate,
 ):
+    start_time = time.perf_counter()
+
     if n_evals_at_start > 1:
         eval_info = {0: next_multiple(n_evals_at_start, base=batch_size)}
     else:
@@ -382,6 +385,11 @@ def _internal_tranquilo(
             msg = "Maximum number of criterion evaluations reached."
             break
 
+        if time.perf_counter() - start_time >= stop_options.max_time:
+            converged = False
+            msg = "Maximum time reached."
+            break
+
     # ==================================================================================
     # results processing
     # ==================================================================================
-- 
2.43.0


From 6004f1f0bce33448b19d44cf3c9dc8d28897fddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:05 +0000
Subject: [PATCH 15/34] fix: do not replace points if the maximum number of
 trials is zero

---
 src/tranquilo/tranquilo.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/tranquilo/tranquilo.py b/src/tranquilo/tranquilo.py
index 69902f8..9d940d9 100644
--- a/src/tranquilo/tranquilo.py
+++ b/src/tranquilo/tranquilo.py
@@ -218,7 +218,10 @@ def _internal_tranquilo(
         # ==========================================================================
 
         sample_counter = 0
-        while _relative_step_length < stagnation_options.min_relative_step:
+        while (
+            _relative_step_length < stagnation_options.min_relative_step
+            and sample_counter < stagnation_options.max_trials
+        ):
             n_to_drop = stagnation_options.sample_increment
 
             if stagnation_options.drop and len(model_xs) > n_to_drop:
@@ -269,8 +272,6 @@ def _internal_tranquilo(
             )
 
             sample_counter += 1
-            if sample_counter >= stagnation_options.max_trials:
-                break
 
         # ==============================================================================
         # fit noise models
-- 
2.43.0


From 3fb174ae10201e5affaee676c778258d13712ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 16/34] fix: move linear scalar models and keep square terms
 when adding models

---
 src/tranquilo/models.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tranquilo/models.py b/src/tranquilo/models.py
index 0902dac..e950d79 100644
--- a/src/tranquilo/models.py
+++ b/src/tranquilo/models.py
@@ -115,8 +115,9 @@ def add_models(model1, model2):
 
     new["linear_terms"] = model1.linear_terms + model2.linear_terms
 
-    if model1.square_terms is not None:
-        assert model2.square_terms is not None
+    if model1.square_terms is None:
+        new["square_terms"] = model2.square_terms
+    elif model2.square_terms is not None:
         new["square_terms"] = model1.square_terms + model2.square_terms
 
     out = replace(model1, **new)
@@ -188,7 +189,11 @@ def _shift_scalar_model(model, shift):
 
     """
     new_c = model.predict(shift)
-    new_g = model.linear_terms + model.square_terms @ shift
+
+    new_g = model.linear_terms
+
+    if model.square_terms is not None:
+        new_g = new_g + model.square_terms @ shift
 
     out = model._replace(
         intercept=new_c,
-- 
2.43.0


From e7ee08851be0c0d0a25becd5aba9165f452890b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 17/34] fix: support boolean masks and negative indices in the
 history

---
 src/tranquilo/history.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tranquilo/history.py b/src/tranquilo/history.py
index 7f81fef..19aab2b 100644
--- a/src/tranquilo/history.py
+++ b/src/tranquilo/history.py
@@ -121,7 +121,7 @@ class History:
             np.ndarray: 1d or 2d array with parameter vectors
 
         """
-        if isinstance(x_indices, np.ndarray):
+        if isinstance(x_indices, np.ndarray) and x_indices.dtype != bool:
             x_indices = x_indices.astype(int)
 
         out = self.xs[: self.n_xs]
@@ -249,7 +249,7 @@ def _extract_from_indices(arr, mapper, x_indices, n_xs):
             returned.
 
     """
-    if isinstance(x_indices, np.ndarray):
+    if isinstance(x_indices, np.ndarray) and x_indices.dtype != bool:
         x_indices = x_indices.astype(int)
 
     is_single = np.isscalar(x_indices)
@@ -261,6 +261,6 @@ def _extract_from_indices(arr, mapper, x_indices, n_xs):
     out = {i: arr[mapper[i]] for i in indices}
 
     if is_single:
-        out = out[x_indices[0]]
+        out = out[indices[0]]
 
     return out
-- 
2.43.0


From 829507f23844842aa6968794ce26572406bcaf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:19 +0000
Subject: [PATCH 18/34] fix: minimize the frobenius norm of the Hessian in
 fit_powell

---
 src/tranquilo/fit_models.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/tranquilo/fit_models.py b/src/tranquilo/fit_models.py
index 151ae5c..d102bb0 100644
--- a/src/tranquilo/fit_models.py
+++ b/src/tranquilo/fit_models.py
@@ -426,7 +426,7 @@ def _get_current_fit_minimal_frobenius_norm_of_hessian(
         alpha, *_ = np.linalg.lstsq(m_mat, rhs[: n_params + 1], rcond=None)
         coeffs_linear[k, :] = alpha[offset : (n_params + 1)]
 
-        coeffs_square[k] = coeffs_second_stage
+        coeffs_square[k] = coeffs_second_stage * _get_frobenius_scaling(n_params)
 
     coef = np.concatenate((coeffs_linear, coeffs_square), axis=1)
 
@@ -439,6 +439,7 @@ def _get_feature_matrices_minimal_frobenius_norm_of_hessian(x):
     intercept = np.ones((n_samples, 1))
     features = np.concatenate((intercept, _quadratic_features(x)), axis=1)
     m_mat, n_mat = np.split(features, (n_params + 1,), axis=1)
+    n_mat = n_mat * _get_frobenius_scaling(n_params)
 
     m_mat_pad = np.zeros((n_samples, n_samples))
     m_mat_pad[:, : n_params + 1] = m_mat
@@ -461,6 +462,13 @@ def _get_feature_matrices_minimal_frobenius_norm_of_hessian(x):
     )
 
 
+def _get_frobenius_scaling(n_params):
+    # scaling of the second order features under which the euclidean norm of the
+    # coefficients is proportional to the frobenius norm of the Hessian.
+    idx1, idx2 = np.triu_indices(n_params)
+    return np.where(idx1 == idx2, np.sqrt(0.5), 1.0)
+
+
 def _build_feature_matrix(x, model_type):
     raw = x if model_type == "linear" else _quadratic_features(x)
     intercept = np.ones((len(x), 1))
-- 
2.43.0


From ca2100b72c4a2ca4c523e17f2b61682e58bc8325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 19/34] fix: reject evaluations of negative x indices before
 storing them

---
 src/tranquilo/history.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/history.py b/src/tranquilo/history.py
index 19aab2b..095ad45 100644
--- a/src/tranquilo/history.py
+++ b/src/tranquilo/history.py
@@ -78,7 +78,7 @@ class History:
         """
         x_indices = np.atleast_1d(x_indices)
 
-        if not (x_indices < self.n_xs).all():
+        if not ((x_indices >= 0) & (x_indices < self.n_xs)).all():
             raise ValueError(
                 "You requested to store a function evaluation for an x vector that is "
                 "not in the history."
-- 
2.43.0


From 07ec2d7fe8b6991383f28a326d1874959ecf69e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 20/34] fix: support components without a name and warn about
 redundant arguments

---
 src/tranquilo/get_component.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/get_component.py b/src/tranquilo/get_component.py
index 8707ff7..bce8c65 100644
--- a/src/tranquilo/get_component.py
+++ b/src/tranquilo/get_component.py
@@ -111,7 +111,8 @@ def _get_function_and_name(name_or_func, component_name, func_dict):
             raise ValueError(msg)
     elif callable(name_or_func):
         _func = name_or_func
-        _name = _func.__name__
+        # partialled functions and callable objects do not have a name
+        _name = getattr(_func, "__name__", repr(_func))
     else:
         raise TypeError("name_or_func must be a string or a callable.")
 
@@ -219,9 +220,10 @@ def _add_redundant_argument_handling(func, signature, warn):
         _valid = {k: v for k, v in _kwargs.items() if k in signature}
 
         if warn and _redundant:
+            name = getattr(func, "__name__", repr(func))
             msg = (
                 f"The following arguments are not supported by the function "
-                f"{func.__name__} and will be ignored: {_redundant}."
+                f"{name} and will be ignored: {_redundant}."
             )
             warnings.warn(msg)
 
-- 
2.43.0


From fafbc14471bd50ebd1ee9c007e7975e491daf8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:28 +0000
Subject: [PATCH 21/34] fix: solve the hard case with zero gradient in gqtpar

If the gradient is zero, the damping factor could not decrease because its lower
bound was derived from the previous upper bound, the step had twice the length of
the radius, and lambda could get stuck at an upper bound at which the shifted
hessian is singular.
---
 src/tranquilo/subsolvers/gqtpar.py      | 8 +++++---
 src/tranquilo/subsolvers/gqtpar_fast.py | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/tranquilo/subsolvers/gqtpar.py b/src/tranquilo/subsolvers/gqtpar.py
index 15b2bd5..2e4ef9a 100644
--- a/src/tranquilo/subsolvers/gqtpar.py
+++ b/src/tranquilo/subsolvers/gqtpar.py
@@ -326,13 +326,13 @@ def _check_for_interior_convergence_and_update(
         converged = True
 
     s_min, z_min = estimate_smallest_singular_value(hessian_info.upper_triangular)
-    step_len = 2
+    step_len = 1
 
     if step_len**2 * s_min**2 <= stopping_criteria["k_hard"] * lambdas.candidate:
         x_candidate = step_len * z_min
         converged = True
 
-    lambda_lower_bound = max(lambdas.lower_bound, lambdas.upper_bound - s_min**2)
+    lambda_lower_bound = max(lambdas.lower_bound, lambdas.candidate - s_min**2)
     lambda_new_candidate = _get_new_lambda_candidate(
         lower_bound=lambda_lower_bound, upper_bound=lambdas.candidate
     )
@@ -359,8 +359,10 @@ def _update_lambdas_when_factorization_unsuccessful(
     lambda_lower_bound = max(
         lambdas.lower_bound, lambdas.candidate + delta / v_norm**2
     )
+    # the hessian plus lambda is singular if lambda is equal to its upper bound
     lambda_new_candidate = _get_new_lambda_candidate(
-        lower_bound=lambda_lower_bound, upper_bound=lambdas.upper_bound
+        lower_bound=lambda_lower_bound,
+        upper_bound=max(lambdas.upper_bound, 1.001 * lambda_lower_bound),
     )
 
     lambdas_new = lambdas._replace(
diff --git a/src/tranquilo/subsolvers/gqtpar_fast.py b/src/tranquilo/subsolvers/gqtpar_fast.py
index 26e4a8d..f32a635 100644
--- a/src/tranquilo/subsolvers/gqtpar_fast.py
+++ b/src/tranquilo/subsolvers/gqtpar_fast.py
@@ -322,13 +322,13 @@ def _check_for_interior_convergence_and_update(
         converged = True
 
     s_min, z_min = _estimate_smallest_singular_value(hessian_upper_triangular)
-    step_len = 2
+    step_len = 1
 
     if step_len**2 * s_min**2 <= stopping_criteria["k_hard"] * lambda_candidate:
         x_candidate = step_len * z_min
         converged = True
 
-    lambda_lower_bound = max(lambda_lower_bound, lambda_upper_bound - s_min**2)
+    lambda_lower_bound = max(lambda_lower_bound, lambda_candidate - s_min**2)
     lambda_new_candidate = _get_new_lambda_candidate(
         lower_bound=lambda_lower_bound, upper_bound=lambda_candidate
     )
@@ -358,8 +358,10 @@ def _update_lambdas_when_factorization_unsuccessful(
     v_norm = _norm(v, -1.0)
 
     lambda_lower_bound = max(lambda_lower_bound, lambda_candidate + delta / v_norm**2)
+    # the hessian plus lambda is singular if lambda is equal to its upper bound
     lambda_new_candidate = _get_new_lambda_candidate(
-        lower_bound=lambda_lower_bound, upper_bound=lambda_upper_bound
+        lower_bound=lambda_lower_bound,
+        upper_bound=max(lambda_upper_bound, 1.001 * lambda_lower_bound),
     )
     return lambda_new_candidate, lambda_lower_bound
 
-- 
2.43.0


From cc9583720a8ea135f3f401f8dab627f981651d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:04 +0000
Subject: [PATCH 22/34] fix: initialize the active bound in trsbox_fast

---
 src/tranquilo/subsolvers/_trsbox_fast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tranquilo/subsolvers/_trsbox_fast.py b/src/tranquilo/subsolvers/_trsbox_fast.py
index c5cf225..5196fdf 100644
--- a/src/tranquilo/subsolvers/_trsbox_fast.py
+++ b/src/tranquilo/subsolvers/_trsbox_fast.py
@@ -481,6 +481,8 @@ def _calc_upper_bound_on_tangent(
     """Calculate upper bound on tangent of half the angle to the boundary."""
     bound_on_tangent = 1
     free_variable_reached_bound = False
+    index_active_bound = np.empty(0, dtype=np.int64)
+    active_bound = np.empty(0, dtype=np.int64)
 
     for i in range(len(x_candidate)):
         if x_bounded[i] == 0:
-- 
2.43.0


From 61d8c7e51e2698dc050ff0a5901a1691b025b615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:05 +0000
Subject: [PATCH 23/34] fix: make the steps of bntr consistent with the
 criterion values

The initial active set ignored the hessian, the gradient descent steps were
accumulated although the accepted step was applied to a different point, so the
criterion value did not belong to the parameters, and steps were accepted
independently of the actual reduction if it was smaller than one.
---
 src/tranquilo/subsolvers/bntr.py      | 15 ++++++++-------
 src/tranquilo/subsolvers/bntr_fast.py | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index 1f8dae5..0f7aa76 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -269,14 +269,15 @@ def _take_preliminary_gradient_descent_step_and_check_for_solution(
         x_candidate, model.linear_terms, model.square_terms
     )
 
+    gradient_unprojected = model.linear_terms + model.square_terms @ x_candidate
+
     active_bounds_info = _get_information_on_active_bounds(
         x_candidate,
-        model.linear_terms,
+        gradient_unprojected,
         lower_bounds,
         upper_bounds,
     )
 
-    gradient_unprojected = model.linear_terms + model.square_terms @ x_candidate
     gradient_projected = _project_gradient_onto_feasible_set(
         gradient_unprojected, active_bounds_info
     )
@@ -560,9 +561,9 @@ def _perform_gradient_descent_step(
     radius_lower_bound = 0
     step_size_accepted = 0
 
-    for _ in range(maxiter_steepest_descent):
-        x_old = x_candidate
+    x_old = x_candidate
 
+    for _ in range(maxiter_steepest_descent):
         step_size_candidate = trustregion_radius / gradient_norm
         x_candidate = x_old - step_size_candidate * gradient_projected
 
@@ -601,7 +602,7 @@ def _perform_gradient_descent_step(
         )
 
     return (
-        x_candidate,
+        x_old,
         f_min,
         step_size_accepted,
         trustregion_radius,
@@ -628,9 +629,9 @@ def _update_trustregion_radius_conjugate_gradient(
         if ~np.isfinite(actual_reduction):
             trustregion_radius = options["alpha1"] * min(trustregion_radius, x_norm_cg)
         else:
-            if abs(actual_reduction) <= max(1, abs(f_candidate) * EPSILON) and abs(
+            if abs(actual_reduction) <= max(1, abs(f_candidate)) * EPSILON and abs(
                 predicted_reduction
-            ) <= max(1, abs(f_candidate) * EPSILON):
+            ) <= max(1, abs(f_candidate)) * EPSILON:
                 kappa = 1
             else:
                 kappa = actual_reduction / predicted_reduction
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index b02cc19..8d96cf8 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -396,6 +396,8 @@ def _take_preliminary_gradient_descent_step_and_check_for_solution(
         x_candidate, model_gradient, model_hessian
     )
 
+    gradient_unprojected = model_gradient + model_hessian @ x_candidate
+
     (
         active_lower_bounds,
         active_upper_bounds,
@@ -403,12 +405,11 @@ def _take_preliminary_gradient_descent_step_and_check_for_solution(
         inactive_bounds,
     ) = _get_information_on_active_bounds(
         x_candidate,
-        model_gradient,
+        gradient_unprojected,
         lower_bounds,
         upper_bounds,
     )
 
-    gradient_unprojected = model_gradient + model_hessian @ x_candidate
     gradient_projected = _project_gradient_onto_feasible_set(
         gradient_unprojected, inactive_bounds
     )
@@ -767,9 +768,9 @@ def _perform_gradient_descent_step(
     radius_lower_bound = 0
     step_size_accepted = 0
 
-    for _ in range(maxiter_steepest_descent):
-        x_old = x_candidate
+    x_old = x_candidate
 
+    for _ in range(maxiter_steepest_descent):
         step_size_candidate = trustregion_radius / gradient_norm
         x_candidate = x_old - step_size_candidate * gradient_projected
 
@@ -814,7 +815,7 @@ def _perform_gradient_descent_step(
         )
 
     return (
-        x_candidate,
+        x_old,
         f_min,
         step_size_accepted,
         trustregion_radius,
@@ -852,9 +853,9 @@ def _update_trustregion_radius_conjugate_gradient(
         if ~np.isfinite(actual_reduction):
             trustregion_radius = alpha1 * min(trustregion_radius, x_norm_cg)
         else:
-            if abs(actual_reduction) <= max(1, abs(f_candidate) * EPSILON) and abs(
+            if abs(actual_reduction) <= max(1, abs(f_candidate)) * EPSILON and abs(
                 predicted_reduction
-            ) <= max(1, abs(f_candidate) * EPSILON):
+            ) <= max(1, abs(f_candidate)) * EPSILON:
                 kappa = 1
             else:
                 kappa = actual_reduction / predicted_reduction
-- 
2.43.0


From 550a43532f6768b107b3d45e8475d83366da08fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:58 +0000
Subject: [PATCH 24/34] fix: start steihaug_toint with the steepest descent
 direction

The pseudo inverse removed the part of the gradient in the null space of singular
hessians from the first direction.
---
 src/tranquilo/subsolvers/_steihaug_toint.py      | 3 +--
 src/tranquilo/subsolvers/_steihaug_toint_fast.py | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/tranquilo/subsolvers/_steihaug_toint.py b/src/tranquilo/subsolvers/_steihaug_toint.py
index ad64c81..6f4d6ef 100644
--- a/src/tranquilo/subsolvers/_steihaug_toint.py
+++ b/src/tranquilo/subsolvers/_steihaug_toint.py
@@ -41,7 +41,6 @@ def minimize_trust_stcg(model_gradient, model_hessian, trustregion_radius):
 
     max_iter = min(n, 10_000)
 
-    z = np.linalg.pinv(model_hessian) @ residual
     rz = residual @ residual
 
     n_iter = 0
@@ -56,7 +55,7 @@ def minimize_trust_stcg(model_gradient, model_hessian, trustregion_radius):
         norm_r, norm_r0, abstol, ttol, divtol, converged, diverged
     )
 
-    p = model_hessian @ z
+    p = residual
     z = model_hessian @ p
     n_iter += 1
 
diff --git a/src/tranquilo/subsolvers/_steihaug_toint_fast.py b/src/tranquilo/subsolvers/_steihaug_toint_fast.py
index 1e87fcf..4bfe0ac 100644
--- a/src/tranquilo/subsolvers/_steihaug_toint_fast.py
+++ b/src/tranquilo/subsolvers/_steihaug_toint_fast.py
@@ -43,7 +43,6 @@ def minimize_trust_stcg_fast(model_gradient, model_hessian, trustregion_radius):
 
     max_iter = min(n, 10_000)
 
-    z = np.linalg.pinv(model_hessian) @ residual
     rz = residual @ residual
 
     n_iter = 0
@@ -61,7 +60,7 @@ def minimize_trust_stcg_fast(model_gradient, model_hessian, trustregion_radius):
         norm_r, norm_r0, abstol, ttol, divtol, converged, diverged
     )
 
-    p = model_hessian @ z
+    p = residual
     z = model_hessian @ p
     n_iter += 1
 
-- 
2.43.0


From 7eab2ef076e555b6662b863790ec64cbca25529e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:01 +0000
Subject: [PATCH 25/34] fix: make the fallback cube solvers selectable

The built-in cube solvers fallback_cube and fallback_multistart were rejected
because they lack the mandatory arguments lower_bounds and upper_bounds.
---
 .../subsolvers/fallback_subsolvers.py         | 28 +++++++++++++------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/tranquilo/subsolvers/fallback_subsolvers.py b/src/tranquilo/subsolvers/fallback_subsolvers.py
index 0fdb711..c397745 100644
--- a/src/tranquilo/subsolvers/fallback_subsolvers.py
+++ b/src/tranquilo/subsolvers/fallback_subsolvers.py
@@ -8,16 +8,21 @@ from tranquilo.exploration_sample import draw_exploration_sample
 # ======================================================================================
 # Cube solvers
 # ======================================================================================
-def robust_cube_solver(model, x_candidate, radius=1.0):
+def robust_cube_solver(
+    model, x_candidate, lower_bounds=None, upper_bounds=None, radius=1.0
+):
     """Robust cube solver.
 
-    Argument `radius` corresponds to half of the side length of the cube.
+    Argument `radius` corresponds to half of the side length of the cube. It is only
+    used if there are no bounds.
 
     """
     crit, grad = _get_crit_and_grad(model)
 
-    lower_bounds = -radius * np.ones(len(x_candidate))
-    upper_bounds = radius * np.ones(len(x_candidate))
+    if lower_bounds is None:
+        lower_bounds = -radius * np.ones(len(x_candidate))
+    if upper_bounds is None:
+        upper_bounds = radius * np.ones(len(x_candidate))
 
     res = minimize(
         crit,
@@ -38,11 +43,18 @@ def robust_cube_solver(model, x_candidate, radius=1.0):
     }
 
 
-def robust_cube_solver_multistart(model, x_candidate):
+def robust_cube_solver_multistart(
+    model, x_candidate, lower_bounds=None, upper_bounds=None
+):
+    if lower_bounds is None:
+        lower_bounds = -np.ones(len(x_candidate))
+    if upper_bounds is None:
+        upper_bounds = np.ones(len(x_candidate))
+
     start_values = draw_exploration_sample(
         x=x_candidate,
-        lower=-np.ones(len(x_candidate)),
-        upper=np.ones(len(x_candidate)),
+        lower=lower_bounds,
+        upper=upper_bounds,
         n_samples=100,
         sampling_distribution="uniform",
         sampling_method="sobol",
@@ -54,7 +66,7 @@ def robust_cube_solver_multistart(model, x_candidate):
     critvals = []
 
     for x in start_values:
-        res = robust_cube_solver(model, x)
+        res = robust_cube_solver(model, x, lower_bounds, upper_bounds)
 
         if res["criterion"] <= best_crit:
             accepted_x = res["x"]
-- 
2.43.0


From d4a45a5e20c633e668c8c53202c8fad123348556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:09 +0000
Subject: [PATCH 26/34] fix: ignore failed evaluations in the variance estimate

---
 src/tranquilo/estimate_variance.py | 45 +++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/tranquilo/estimate_variance.py b/src/tranquilo/estimate_variance.py
index 4a74e33..9c89ef9 100644
--- a/src/tranquilo/estimate_variance.py
+++ b/src/tranquilo/estimate_variance.py
@@ -36,26 +36,39 @@ def _estimate_variance_classic(
         trustregion._replace(radius=trustregion.radius * max_distance_factor)
     )
 
-    n_evals = {idx: len(history.get_fvals(idx)) for idx in all_indices}
+    # failed or infinite evaluations carry no information about the noise
+    if model_type == "scalar":
+        samples = {
+            idx: fvals[np.isfinite(fvals)]
+            for idx, fvals in history.get_fvals(all_indices).items()
+        }
+        out = 0.0
+    else:
+        samples = {
+            idx: fvecs[np.isfinite(fvecs).all(axis=1)]
+            for idx, fvecs in history.get_fvecs(all_indices).items()
+        }
+        dim = history.fvecs.shape[1]
+        out = np.zeros((dim, dim))
+
+    n_evals = {idx: len(sample) for idx, sample in samples.items()}
+
+    # without repeated finite evaluations there is no evidence of noise
+    if max(n_evals.values()) < 2:
+        return out
 
-    # make sure we keep at least one sample from which we can estimate a variance
-    cutoff = min(max(n_evals.values()), min_n_evals)
+    # make sure we keep at least one sample from which we can estimate a variance and
+    # none that is too small for an estimate
+    cutoff = max(2, min(max(n_evals.values()), min_n_evals))
 
     valid_indices = [idx for idx in all_indices if n_evals[idx] >= cutoff]
-    weights = np.array([n_ for idx, n_ in n_evals.items() if idx in valid_indices])
+    weights = np.array([n_evals[idx] for idx in valid_indices])
     weights = weights / weights.sum()
 
-    if model_type == "scalar":
-        samples = list(history.get_fvals(valid_indices).values())
-        out = 0.0
-        for weight, sample in zip(weights, samples):
-            out += weight * np.var(sample, ddof=1)
-    else:
-        samples = list(history.get_fvecs(valid_indices).values())
-
-        dim = samples[0].shape[1]
-        out = np.zeros((dim, dim))
-        for weight, sample in zip(weights, samples):
-            out += weight * np.cov(sample, rowvar=False, ddof=1)
+    for weight, idx in zip(weights, valid_indices):
+        if model_type == "scalar":
+            out += weight * np.var(samples[idx], ddof=1)
+        else:
+            out += weight * np.cov(samples[idx], rowvar=False, ddof=1)
 
     return out
-- 
2.43.0


From b63129d7125579c51e8eb16aaaf1d2dbe5475215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:09 +0000
Subject: [PATCH 27/34] fix: penalize infinite values of very large constant
 columns

---
 src/tranquilo/handle_infinity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/handle_infinity.py b/src/tranquilo/handle_infinity.py
index f3efdc9..3bd8f24 100644
--- a/src/tranquilo/handle_infinity.py
+++ b/src/tranquilo/handle_infinity.py
@@ -40,8 +40,9 @@ def clip_relative(fvecs):
     _maxs *= _signs
     _mins *= _signs
 
-    _pos_penalty = _maxs + 2 * _diff + 1
-    _neg_penalty = _mins - 2 * _diff - 1
+    # nextafter is necessary because adding one does not change very large numbers
+    _pos_penalty = np.maximum(_maxs + 2 * _diff + 1, np.nextafter(_maxs, np.inf))
+    _neg_penalty = np.minimum(_mins - 2 * _diff - 1, np.nextafter(_mins, -np.inf))
 
     out = np.nan_to_num(
         fvecs, nan=_pos_penalty, posinf=_pos_penalty, neginf=_neg_penalty
-- 
2.43.0


From a116f4e0c3928c38e247399b015de213f385e55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:27 +0000
Subject: [PATCH 28/34] fix: steihaug_toint step leaves the trust region for
 models without curvature at the start

---
 src/tranquilo/subsolvers/_steihaug_toint.py      | 3 +++
 src/tranquilo/subsolvers/_steihaug_toint_fast.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/tranquilo/subsolvers/_steihaug_toint.py b/src/tranquilo/subsolvers/_steihaug_toint.py
index 6f4d6ef..3260aa5 100644
--- a/src/tranquilo/subsolvers/_steihaug_toint.py
+++ b/src/tranquilo/subsolvers/_steihaug_toint.py
@@ -82,6 +82,9 @@ def minimize_trust_stcg(model_gradient, model_hessian, trustregion_radius):
         )
 
     for _ in range(max_iter):
+        if converged or diverged:
+            break
+
         alpha = rz / kappa
         norm_dp1 = norm_d + alpha * (2 * dp + alpha * norm_p)
 
diff --git a/src/tranquilo/subsolvers/_steihaug_toint_fast.py b/src/tranquilo/subsolvers/_steihaug_toint_fast.py
index 4bfe0ac..d641ad9 100644
--- a/src/tranquilo/subsolvers/_steihaug_toint_fast.py
+++ b/src/tranquilo/subsolvers/_steihaug_toint_fast.py
@@ -87,6 +87,9 @@ def minimize_trust_stcg_fast(model_gradient, model_hessian, trustregion_radius):
         )
 
     for _ in range(max_iter):
+        if converged or diverged:
+            break
+
         alpha = rz / kappa
         norm_dp1 = norm_d + alpha * (2 * dp + alpha * norm_p)
 
-- 
2.43.0


From 4ca7a097525fe79fdd0c43071eb4e5897b3784df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:27 +0000
Subject: [PATCH 29/34] fix: linear trust region solver checks all remaining
 bounds in every step

---
 src/tranquilo/subsolvers/linear_subsolvers.py | 28 +++++--------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/src/tranquilo/subsolvers/linear_subsolvers.py b/src/tranquilo/subsolvers/linear_subsolvers.py
index fd33dda..4e30f85 100644
--- a/src/tranquilo/subsolvers/linear_subsolvers.py
+++ b/src/tranquilo/subsolvers/linear_subsolvers.py
@@ -57,9 +57,6 @@ def minimize_trsbox_linear(
     indices_inactive_directions = np.where(np.abs(direction) < zero_treshold)[0]
     direction[indices_inactive_directions] = 0
 
-    active_directions = np.setdiff1d(np.arange(n), indices_inactive_directions)
-    set_active_directions = iter(active_directions)
-
     for _ in range(n):
         if np.linalg.norm(direction) < zero_treshold:
             break
@@ -72,7 +69,7 @@ def minimize_trsbox_linear(
             x_candidate_unconstr,
             lower_bounds_internal,
             upper_bounds_internal,
-            set_active_directions,
+            np.nonzero(direction)[0],
         )
 
         if active_bound is None:
@@ -197,8 +194,8 @@ def _find_next_active_bound(
             for the parameter vector x.
         upper_bounds (np.ndarray): 1d array of shape (n,) with upper bounds
             for the parameter vector x.
-        set_active_directions (iterator): Iterator over the indices of active search
-            directions, i.e. directions that are not zero.
+        set_active_directions (np.ndarray): Indices of the active search directions,
+            i.e. directions that are not zero.
 
     Returns:
         Tuple:
@@ -209,25 +206,14 @@ def _find_next_active_bound(
                 upper bound has been found. None, if no active bound has been detected.
 
     """
-    index_active = next(set_active_directions)
-
-    while True:
+    for index_active in set_active_directions:
         if x_candidate_unconstr[index_active] >= upper_bounds[index_active]:
-            active_bound = upper_bounds[index_active]
-            break
+            return upper_bounds[index_active], index_active
 
         elif x_candidate_unconstr[index_active] <= lower_bounds[index_active]:
-            active_bound = lower_bounds[index_active]
-            break
-
-        else:
-            try:
-                index_active = next(set_active_directions)
-            except StopIteration:
-                active_bound = None
-                break
+            return lower_bounds[index_active], index_active
 
-    return active_bound, index_active
+    return None, None
 
 
 def _take_constrained_step_up_to_boundary(
-- 
2.43.0


From 9e8b61401b8086c2f0990fe4a3d5b92b4508e9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:27 +0000
Subject: [PATCH 30/34] fix: plot sample points of problems with one parameter

---
 src/tranquilo/visualize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tranquilo/visualize.py b/src/tranquilo/visualize.py
index 7d02902..6ba8ec8 100644
--- a/src/tranquilo/visualize.py
+++ b/src/tranquilo/visualize.py
@@ -204,6 +204,10 @@ def _plot_sample_points(history, state, color_dict, fig, row, col):
         trustregion = state.trustregion
         radius = trustregion.radius
         center = trustregion.center
+        if len(center) == 1:
+            # points with one parameter are shown on a line
+            center = np.append(center, 0.0)
+            sample_points.insert(1, 1, 0.0)
         fig.add_shape(
             type="circle",
             xref="x",
-- 
2.43.0


From d302f4c21340f86a4bb3b7ff3757c9a8ed7c0e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:27 +0000
Subject: [PATCH 31/34] fix: closeness to the border of a cube is relative to
 its size

---
 src/tranquilo/acceptance_decision.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/acceptance_decision.py b/src/tranquilo/acceptance_decision.py
index 1aa9c6d..776c7f2 100644
--- a/src/tranquilo/acceptance_decision.py
+++ b/src/tranquilo/acceptance_decision.py
@@ -526,8 +526,10 @@ def _is_on_sphere_border(trustregion, x, rtol):
 
 def _is_on_cube_border(trustregion, x, rtol):
     cube_bounds = trustregion.cube_bounds
-    is_on_lower_border = np.isclose(x, cube_bounds.lower, rtol=rtol).any()
-    is_on_upper_border = np.isclose(x, cube_bounds.upper, rtol=rtol).any()
+    # the tolerance is relative to the size of the region, as it is for the sphere
+    atol = (rtol + 1e-8) * (cube_bounds.upper - cube_bounds.lower) / 2
+    is_on_lower_border = (np.abs(x - cube_bounds.lower) <= atol).any()
+    is_on_upper_border = (np.abs(x - cube_bounds.upper) <= atol).any()
     return is_on_lower_border or is_on_upper_border
 
 
-- 
2.43.0


From 31822e219b28664b304609f68b73922cc3ec469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:41:32 +0000
Subject: [PATCH 32/34] fix: improve_poisedness rounded the replaced points of
 samples of whole numbers

---
 src/tranquilo/poisedness.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tranquilo/poisedness.py b/src/tranquilo/poisedness.py
index 3cb3c7f..b47677c 100644
--- a/src/tranquilo/poisedness.py
+++ b/src/tranquilo/poisedness.py
@@ -103,7 +103,7 @@ def improve_poisedness(sample, shape="sphere", maxiter=5):
             - lambdas (list): History of lambdas.
 
     """
-    sample_improved = sample.copy()
+    sample_improved = sample.astype(float)
 
     lambdas = []
 
-- 
2.43.0


From ec594bbcd6a5621a8cca7186e556447de7defd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:29 +0000
Subject: [PATCH 33/34] fix: models of the powell fitter did not interpolate if
 the first points were collinear

---
 src/tranquilo/fit_models.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/fit_models.py b/src/tranquilo/fit_models.py
index d102bb0..0899450 100644
--- a/src/tranquilo/fit_models.py
+++ b/src/tranquilo/fit_models.py
@@ -423,7 +423,7 @@ def _get_current_fit_minimal_frobenius_norm_of_hessian(
 
         rhs = y[:, k] - n_mat @ coeffs_second_stage
 
-        alpha, *_ = np.linalg.lstsq(m_mat, rhs[: n_params + 1], rcond=None)
+        alpha, *_ = np.linalg.lstsq(m_mat, rhs, rcond=None)
         coeffs_linear[k, :] = alpha[offset : (n_params + 1)]
 
         coeffs_square[k] = coeffs_second_stage * _get_frobenius_scaling(n_params)
@@ -455,7 +455,7 @@ def _get_feature_matrices_minimal_frobenius_norm_of_hessian(x):
     )
 
     return (
-        m_mat[: n_params + 1, : n_params + 1],
+        m_mat,
         n_mat,
         z_mat[:, n_params + 1 : n_samples],
         n_z_mat[:, n_params + 1 : n_samples],
-- 
2.43.0


From 4d1147e836b2f1b49911208988a847c1510e1f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:57 +0000
Subject: [PATCH 34/34] fix: bntr stopped at once if criterion values were
 large and bounds were close

---
 src/tranquilo/subsolvers/bntr.py      | 15 ++++++++++++++-
 src/tranquilo/subsolvers/bntr_fast.py | 15 ++++++++++++++-
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/tranquilo/subsolvers/bntr.py b/src/tranquilo/subsolvers/bntr.py
index 0f7aa76..f0ac304 100644
--- a/src/tranquilo/subsolvers/bntr.py
+++ b/src/tranquilo/subsolvers/bntr.py
@@ -720,12 +720,25 @@ def _check_for_convergence(
         x_candidate, gradient_candidate, lower_bounds, upper_bounds
     )
     gradient_norm = np.linalg.norm(direction_fischer_burmeister)
+    if f_candidate == 0:
+        gradient_norm_relative = np.inf
+    else:
+        # dividing the norm by the criterion value would compare distances to the bounds
+        # with the criterion value, such that any point converges for large values
+        direction_relative = _get_fischer_burmeister_direction_vector(
+            x_candidate,
+            gradient_candidate / abs(f_candidate),
+            lower_bounds,
+            upper_bounds,
+        )
+        gradient_norm_relative = np.linalg.norm(direction_relative)
+
     gradient_norm_initial = np.linalg.norm(model.linear_terms)
 
     if gradient_norm < gtol_abs:
         converged = True
         reason = "Norm of the gradient is less than absolute_gradient_tolerance."
-    elif f_candidate != 0 and abs(gradient_norm / f_candidate) < gtol_rel:
+    elif gradient_norm_relative < gtol_rel:
         converged = True
         reason = (
             "Norm of the gradient relative to the criterion value is less than "
diff --git a/src/tranquilo/subsolvers/bntr_fast.py b/src/tranquilo/subsolvers/bntr_fast.py
index 8d96cf8..e040a49 100644
--- a/src/tranquilo/subsolvers/bntr_fast.py
+++ b/src/tranquilo/subsolvers/bntr_fast.py
@@ -938,12 +938,25 @@ def _check_for_convergence(
         x_candidate, gradient_candidate, lower_bounds, upper_bounds
     )
     gradient_norm = np.linalg.norm(direction_fischer_burmeister)
+    if f_candidate == 0:
+        gradient_norm_relative = np.inf
+    else:
+        # dividing the norm by the criterion value would compare distances to the bounds
+        # with the criterion value, such that any point converges for large values
+        direction_relative = _get_fischer_burmeister_direction_vector(
+            x_candidate,
+            gradient_candidate / abs(f_candidate),
+            lower_bounds,
+            upper_bounds,
+        )
+        gradient_norm_relative = np.linalg.norm(direction_relative)
+
     gradient_norm_initial = np.linalg.norm(model_gradient)
 
     if gradient_norm < gtol_abs:
         converged = True
         reason = 1
-    elif f_candidate != 0 and abs(gradient_norm / f_candidate) < gtol_rel:
+    elif gradient_norm_relative < gtol_rel:
         converged = True
         reason = 2
     elif (
-- 
2.43.0

