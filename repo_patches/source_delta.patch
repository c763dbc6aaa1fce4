From 479d25dffeaa3de6285a0384101bcfa459f8bfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:59 +0000
Subject: [PATCH 01/33] fix: softmax cross-entropy Hessian product for batched
 predictions

---
 laplax/curv/ggn.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/laplax/curv/ggn.py b/laplax/curv/ggn.py
index d7050fc..42cb09c 100644
--- a/laplax/curv/ggn.py
+++ b/laplax/curv/ggn.py
@@ -3,6 +3,7 @@
 from collections.abc import Callable
 
 import jax
+import jax.numpy as jnp
 
 from laplax.curv.hessian import hvp
 from laplax.enums import LossFn
@@ -82,7 +83,7 @@ def _cross_entropy_hessian_mv(
     """
     del kwargs
     prob = jax.nn.softmax(pred)
-    off_diag_jv = prob * (prob.reshape(1, -1) @ jv)
+    off_diag_jv = prob * jnp.sum(prob * jv, axis=-1, keepdims=True)
     diag_jv = prob * jv
     return diag_jv - off_diag_jv
 
-- 
2.43.0


From 7c67c5ad6f1376da5930d5be7d2659b5fa64e394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 02/33] fix: scalar softmax and binary cross-entropy losses for
 Hessian and evidence

---
 laplax/curv/utils.py | 33 ++++++++++++++++++++++++++++++++-
 1 file changed, 32 insertions(+), 1 deletion(-)

diff --git a/laplax/curv/utils.py b/laplax/curv/utils.py
index 4c44a20..f7e00d0 100644
--- a/laplax/curv/utils.py
+++ b/laplax/curv/utils.py
@@ -125,6 +125,28 @@ def log_sigmoid_cross_entropy(
     )
 
 
+def softmax_cross_entropy(
+    logits: Num[Array, "..."], targets: Num[Array, "..."]
+) -> Num[Array, ""]:
+    r"""Computes the summed softmax cross entropy given logits and targets.
+
+    $$
+    \mathcal{L}(f(x, \theta), y) = -\sum_c y_c \log \text{softmax}(f(x, \theta))_c
+    $$
+
+    Args:
+        logits: The predicted logits with the classes on the last axis
+        targets: The target values, either class probabilities (e.g. one-hot encoded)
+            of the shape of the logits or class indices
+
+    Returns:
+        The computed loss value, summed over all data points
+    """
+    if jnp.ndim(targets) < jnp.ndim(logits):
+        targets = jax.nn.one_hot(targets, num_classes=logits.shape[-1])
+    return -jnp.sum(targets * jax.nn.log_softmax(logits))
+
+
 def concatenate_model_and_loss_fn(
     model_fn: ModelFn,  # type: ignore[reportRedeclaration]
     loss_fn: LossFn | str | Callable,
@@ -182,7 +204,16 @@ def concatenate_model_and_loss_fn(
         def loss_wrapper(
             input: InputArray, target: TargetArray, params: Params
         ) -> Num[Array, "..."]:
-            return log_sigmoid_cross_entropy(model_fn(input, params), target)
+            return softmax_cross_entropy(model_fn(input, params), target)
+
+        return loss_wrapper
+
+    if loss_fn == LossFn.BINARY_CROSS_ENTROPY:
+
+        def loss_wrapper(
+            input: InputArray, target: TargetArray, params: Params
+        ) -> Num[Array, "..."]:
+            return jnp.sum(log_sigmoid_cross_entropy(model_fn(input, params), target))
 
         return loss_wrapper
 
-- 
2.43.0


From e8820095c1339af7dc8269b79309771a5501e0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:03 +0000
Subject: [PATCH 03/33] fix: accept the documented LossFn.NONE when combining
 model and loss

---
 laplax/curv/utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/laplax/curv/utils.py b/laplax/curv/utils.py
index f7e00d0..12e4cab 100644
--- a/laplax/curv/utils.py
+++ b/laplax/curv/utils.py
@@ -217,6 +217,16 @@ def concatenate_model_and_loss_fn(
 
         return loss_wrapper
 
+    if loss_fn == LossFn.NONE:
+
+        def loss_wrapper(
+            input: InputArray, target: TargetArray, params: Params
+        ) -> Num[Array, "..."]:
+            del target
+            return jnp.sum(model_fn(input, params))
+
+        return loss_wrapper
+
     if callable(loss_fn):
 
         def loss_wrapper(
-- 
2.43.0


From 1bdc9b3e643ae491c86be99c55aa4254fa1f3641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 04/33] fix: divide low-rank curvature by the loss scaling
 factor like the other types

---
 laplax/curv/low_rank.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/low_rank.py b/laplax/curv/low_rank.py
index 411a388..d8bab0e 100644
--- a/laplax/curv/low_rank.py
+++ b/laplax/curv/low_rank.py
@@ -143,7 +143,7 @@ def low_rank_curvature_to_precision(
     U, S, _ = jax.tree.leaves(curv_estimate)
     return LowRankTerms(
         U=U,
-        S=(sigma_squared * S),
+        S=(sigma_squared * S) / loss_scaling_factor,
         scalar=prior_prec / loss_scaling_factor,
     )
 
-- 
2.43.0


From 0265d4437ae98ee420433a217d3827738e60a844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:14 +0000
Subject: [PATCH 05/33] fix: do not count a Lanczos direction twice after
 breakdown

---
 laplax/curv/lanczos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 6273be4..30b8eea 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -66,7 +66,7 @@ def lanczos_iterations(
         v_next = jax.lax.cond(
             b_val > 0,  # type: ignore[operator]
             lambda _: w / b_val,
-            lambda _: v,  # In degenerate cases, no progress is made.
+            lambda _: jnp.zeros_like(v),  # Invariant subspace: no new direction.
             operand=None,
         )
         alpha = alpha.at[i].set(a)
-- 
2.43.0


From 8b12776c7f55738a2f69eb6995c4430b74b2fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 06/33] fix: reduce the LOBPCG rank also when the size equals
 five times the rank

---
 laplax/curv/lobpcg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index ee47547..fe31f10 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -365,7 +365,7 @@ def lobpcg_lowrank(
     matmat = jax.vmap(matvec, in_axes=-1, out_axes=-1)
 
     # Adjust rank if it's too large compared to problem size
-    if size < rank * 5:
+    if size <= rank * 5:
         rank = max(1, size // 5 - 1)
         msg = f"reduced rank to {rank} due to insufficient size"
         warnings.warn(msg, stacklevel=1)
-- 
2.43.0


From 7ae7149ad04c5883aa3720075466706c783420de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 07/33] fix: restore the 64-bit setting when a low-rank
 approximation raises

---
 laplax/curv/lanczos.py |  5 ++---
 laplax/curv/lobpcg.py  |  6 ++----
 laplax/curv/utils.py   | 22 ++++++++++++++++++++++
 3 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 30b8eea..9578f39 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -1,7 +1,7 @@
 import jax
 import jax.numpy as jnp
 
-from laplax.curv.utils import LowRankTerms, get_matvec
+from laplax.curv.utils import LowRankTerms, get_matvec, restore_x64
 from laplax.types import Array, Callable, DType, Float, KeyType, Kwargs, Layout
 from laplax.util.flatten import wrap_function
 
@@ -143,6 +143,7 @@ def compute_eigendecomposition(
     return eigvals
 
 
+@restore_x64
 def lanczos_lowrank(
     A: Callable[[Array], Array] | Array,
     *,
@@ -239,6 +240,4 @@ def lanczos_lowrank(
         scalar=jnp.asarray(0.0, dtype=return_dtype),
     )
 
-    # Restore the original configuration dtype
-    jax.config.update("jax_enable_x64", original_float64_enabled)
     return low_rank_result
diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index fe31f10..3e9784c 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -74,7 +74,7 @@ from jax.experimental.sparse.linalg import (
     _mm,  # noqa: PLC2701
 )
 
-from laplax.curv.utils import LowRankTerms, get_matvec
+from laplax.curv.utils import LowRankTerms, get_matvec, restore_x64
 from laplax.types import Array, Callable, DType, Float, KeyType, Kwargs, Layout
 from laplax.util.flatten import wrap_function
 
@@ -278,6 +278,7 @@ def _rayleigh_ritz_orth(AS: Array, S: Array) -> tuple[Array, Array]:
     return _eigh_ascending(SAS)
 
 
+@restore_x64
 def lobpcg_lowrank(
     A: Callable[[Array], Array] | Array,
     *,
@@ -401,7 +402,4 @@ def lobpcg_lowrank(
         scalar=jnp.asarray(0.0, dtype=return_dtype),
     )
 
-    # Restore the original configuration dtype
-    jax.config.update("jax_enable_x64", original_float64_enabled)
-
     return low_rank_result
diff --git a/laplax/curv/utils.py b/laplax/curv/utils.py
index 12e4cab..e3f1968 100644
--- a/laplax/curv/utils.py
+++ b/laplax/curv/utils.py
@@ -2,6 +2,7 @@
 
 from collections.abc import Callable
 from dataclasses import dataclass
+from functools import wraps
 
 import jax
 import jax.numpy as jnp
@@ -50,6 +51,27 @@ jax.tree_util.register_pytree_node(
 )
 
 
+def restore_x64(fn: Callable) -> Callable:
+    """Restore the `jax_enable_x64` setting after a call, also when it raises.
+
+    Args:
+        fn: A function that changes `jax_enable_x64` for its own calculations.
+
+    Returns:
+        The function, leaving the global setting as it was before the call.
+    """
+
+    @wraps(fn)
+    def wrapped(*args, **kwargs):
+        original_float64_enabled = jax.config.read("jax_enable_x64")
+        try:
+            return fn(*args, **kwargs)
+        finally:
+            jax.config.update("jax_enable_x64", original_float64_enabled)
+
+    return wrapped
+
+
 def get_matvec(
     A: Callable | Array,
     *,
-- 
2.43.0


From 8b04a279257eb23c2292e9bd0de21d6153060ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 08/33] fix: log-determinant of the low-rank posterior
 precision

---
 laplax/eval/likelihood.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/laplax/eval/likelihood.py b/laplax/eval/likelihood.py
index b25b52b..8d78587 100644
--- a/laplax/eval/likelihood.py
+++ b/laplax/eval/likelihood.py
@@ -235,11 +235,10 @@ def low_rank_marginal_log_likelihood(
     )
 
     # Log det of posterior precision
-    rank = posterior_precision.S.shape[0]
-    log_det_H = rank * jnp.log(posterior_precision.scalar) + jnp.sum(
-        jnp.log(1 + posterior_precision.scalar * posterior_precision.S)
-    )
     param_count = get_size(params)
+    log_det_H = param_count * jnp.log(posterior_precision.scalar) + jnp.sum(
+        jnp.log(1 + posterior_precision.S / posterior_precision.scalar)
+    )
     evidence = -0.5 * param_count * jnp.log(2 * jnp.pi) + 0.5 * log_det_H
 
     # Compute the marginal log-likelihood
-- 
2.43.0


From 8fc29e7322a48af4ccb47497bb1c644b2a6539ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 09/33] fix: class axis of the Laplace bridge

---
 laplax/eval/predictives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/predictives.py b/laplax/eval/predictives.py
index e344cba..16947a9 100644
--- a/laplax/eval/predictives.py
+++ b/laplax/eval/predictives.py
@@ -19,7 +19,7 @@ def laplace_bridge(
     Returns:
         The predictive.
     """
-    num_classes = mean.shape[1]
+    num_classes = mean.shape[0]
 
     if use_correction:
         c = jnp.sum(var, axis=0) / math.sqrt(num_classes / 2)  # [...]
@@ -47,7 +47,7 @@ def dirichlet_predictive(dirichlet_params: jax.Array) -> jax.Array:
     Returns:
         The predictive.
     """
-    predictive = dirichlet_params / jnp.sum(dirichlet_params)  # [C, ...]
+    predictive = dirichlet_params / jnp.sum(dirichlet_params, axis=0)  # [C, ...]
 
     return predictive
 
-- 
2.43.0


From cc264851c7f4a8f9eaa302a40bbae2a880601ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 10/33] fix: variance fallback of the special predictives
 without linearisation

---
 laplax/eval/pushforward.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index acac18c..c51d791 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -113,8 +113,9 @@ def special_pred_act(
     if special_pred_type in var_pred_dict:
         pred_fn = var_pred_dict[special_pred_type]
 
-        if "pred_var" not in results:  # Fall back to `lin_pred_var`
-            results, aux = lin_pred_var(results, aux, **kwargs)
+        if "pred_var" not in results:
+            pred_var_fn = lin_pred_var if linearized else nonlin_pred_var
+            results, aux = pred_var_fn(results, aux, **kwargs)
 
         pred_var = results["pred_var"]
 
-- 
2.43.0


From 3c359990f0d6bdbf9f89660280d8f1e1525483bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 11/33] fix: accept the precompute option for weight samples

---
 laplax/eval/pushforward.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index c51d791..3e1c378 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -79,12 +79,12 @@ def set_get_weight_sample(
     def get_weight_sample(idx):
         return util.tree.normal_like(keys[idx], mean=mean_params, scale_mv=scale_mv)
 
+    precompute = kwargs.pop("precompute", None)
+
     return precompute_list(
         get_weight_sample,
         jnp.arange(num_samples),
-        precompute=kwargs.get(
-            "set_get_weight_sample_precompute", kwargs.get("precompute")
-        ),
+        precompute=kwargs.get("set_get_weight_sample_precompute", precompute),
         **kwargs,
     )
 
-- 
2.43.0


From 3b88248a6a0de18ac6c7923358fc1fc16a2b3020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 12/33] fix: linearised covariance of multi-dimensional outputs

---
 laplax/eval/pushforward.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index 3e1c378..0d15dad 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -663,7 +663,10 @@ def lin_pred_cov(
     pred_mean = results["pred_mean"]
     cov_mv = aux["cov_mv"]
 
-    results["pred_cov"] = util.mv.to_dense(cov_mv, layout=pred_mean)
+    # Dense (K, K) matrix over the flattened outputs, also for multi-dimensional ones
+    results["pred_cov"] = util.mv.to_dense(
+        lambda vec: cov_mv(vec).reshape(-1), layout=math.prod(pred_mean.shape)
+    )
     return results, aux
 
 
-- 
2.43.0


From 2fcbadda6085fcb7a0857067da2690de68b12878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 13/33] fix: average all requested samples in the non-linear
 Monte Carlo predictive

---
 laplax/eval/pushforward.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index 0d15dad..39e49d9 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -437,6 +437,7 @@ def nonlin_mc_pred_act(
         Updated `results` and `aux`.
     """
     if "samples" not in results:
+        kwargs.setdefault("num_samples", aux["pred_ensemble"].shape[0])
         results, aux = nonlin_samples(results=results, aux=aux, **kwargs)
 
     results["mc_pred_act"] = jnp.mean(
-- 
2.43.0


From 565d1218923edaca30d6ceb918436dec8b64ecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 14/33] fix: sign of the multiclass Brier score

---
 laplax/eval/metrics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/metrics.py b/laplax/eval/metrics.py
index af1fc1c..ad481d4 100644
--- a/laplax/eval/metrics.py
+++ b/laplax/eval/metrics.py
@@ -158,7 +158,7 @@ def multiclass_brier(prob: Array, target: Array, **kwargs: Kwargs) -> Array:
     preds_squared_sum = jnp.sum(prob**2, axis=-1, keepdims=True)
     score_components = 1 - 2 * prob + preds_squared_sum
 
-    return -jnp.mean(target * score_components)
+    return jnp.mean(target * score_components)
 
 
 def calculate_bin_metrics(
-- 
2.43.0


From c729befd260e0cf529cfcb526b9db2620babb44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 15/33] fix: bin accuracies of boolean correctness labels

---
 laplax/eval/metrics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/metrics.py b/laplax/eval/metrics.py
index ad481d4..fa3203c 100644
--- a/laplax/eval/metrics.py
+++ b/laplax/eval/metrics.py
@@ -191,11 +191,13 @@ def calculate_bin_metrics(
 
     bin_counts = jnp.zeros(num_bins, dtype=confidence.dtype)
     bin_confidences = jnp.zeros(num_bins, dtype=confidence.dtype)
-    bin_accuracies = jnp.zeros(num_bins, dtype=correctness.dtype)
+    bin_accuracies = jnp.zeros(num_bins, dtype=confidence.dtype)
 
     bin_counts = bin_counts.at[indices].add(1)
     bin_confidences = bin_confidences.at[indices].add(confidence)
-    bin_accuracies = bin_accuracies.at[indices].add(correctness)
+    bin_accuracies = bin_accuracies.at[indices].add(
+        correctness.astype(confidence.dtype)
+    )
 
     bin_proportions = bin_counts / bin_counts.sum()
     pos_counts = bin_counts > 0
-- 
2.43.0


From eeeff588ffb6b4a7f5fdcc7834604c4c99ab5351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 16/33] fix: grid search performed one iteration more than
 allowed

---
 laplax/eval/calibrate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/calibrate.py b/laplax/eval/calibrate.py
index 30b09a2..130ff5c 100644
--- a/laplax/eval/calibrate.py
+++ b/laplax/eval/calibrate.py
@@ -131,7 +131,7 @@ def grid_search(
         previous_result = result
 
         # Check if maximum iterations reached
-        if max_iterations is not None and iteration >= max_iterations:
+        if max_iterations is not None and iteration + 1 >= max_iterations:
             logger.info(f"Stopping due to reaching max iterations = {max_iterations}")
             break
 
-- 
2.43.0


From 5da3cd5d12735456f351cf66281fbc1c1243bbae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:18 +0000
Subject: [PATCH 17/33] fix: do not extend the caller's list of metrics

---
 laplax/eval/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/eval/utils.py b/laplax/eval/utils.py
index 7d3497c..65f3fac 100644
--- a/laplax/eval/utils.py
+++ b/laplax/eval/utils.py
@@ -269,7 +269,7 @@ def evaluate_metrics_on_dataset(
     if metrics is None:
         metrics = metrics_from_dict
     elif metrics_dict is not None:
-        metrics.extend(metrics_from_dict)
+        metrics = [*metrics, *metrics_from_dict]
 
     def evaluate_data_point(dp: Data) -> dict[str, Array]:
         pred = {**pred_fn(dp["input"]), "target": dp["target"]}
@@ -339,7 +339,7 @@ def evaluate_metrics_on_generator(
     if metrics is None:
         metrics = metrics_from_dict
     elif metrics_dict is not None:
-        metrics.extend(metrics_from_dict)
+        metrics = [*metrics, *metrics_from_dict]
 
     def evaluate_data(dp: Data) -> dict[str, Array]:
         pred = {**pred_fn(dp["input"]), "target": dp["target"]}
-- 
2.43.0


From d55f58d64ba89630fae020e0f3706be9427820ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 18/33] fix: scale the curvature by total over curvature
 samples in the API

---
 laplax/api.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index 603c0f2..9848644 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -665,11 +665,11 @@ def laplace(
     curv_type_enum = _convert_to_enum(CurvApprox, curv_type)
 
     # Calculate factor
-    factor = float(num_curv_samples) / float(num_total_samples)
+    factor = float(num_total_samples) / float(num_curv_samples)
     logger.debug(
         "Creating curvature MV - factor = {}/{} = {}",
-        num_curv_samples,
         num_total_samples,
+        num_curv_samples,
         factor,
     )
 
-- 
2.43.0


From 829eb189ea654203675b5cc958233a14e23321d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 19/33] fix: default classification metrics failed on the other
 predictive entries

---
 laplax/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/api.py b/laplax/api.py
index 9848644..c2a5187 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -528,7 +528,7 @@ def _resolve_metrics(
                 ],
             ),
             apply_fns(
-                lambda pred_mean, pred_std, target: nll_gaussian(
+                lambda pred_mean, pred_std, target, **kwargs: nll_gaussian(  # noqa: ARG005
                     pred_mean,
                     pred_std,
                     jax.nn.one_hot(target, num_classes=pred_mean.shape[-1]),
-- 
2.43.0


From 90cc5ae2b1941f9c4759fccd44a8487b7fda3de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 20/33] fix: provide pred_act for the non-linear Monte Carlo
 predictive

---
 laplax/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/laplax/api.py b/laplax/api.py
index c2a5187..cdd2f54 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -279,6 +279,7 @@ def _setup_pushforward(
             pushforward_fns = [nonlin_setup, nonlin_pred_mean, nonlin_pred_std]
             if predictive_type is Predictive.MC_BRIDGE:
                 pushforward_fns.append(nonlin_mc_pred_act)
+                pushforward_fns.append(get_pred_act)
             elif predictive_type in _SPECIAL_PREDICTIVES:
                 msg = (
                     f"{predictive_type.value} not supported for non-linear pushforward."
-- 
2.43.0


From 0ff2e2a070492aee9593091510bf1ef23b3dfdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 21/33] fix: treat all spellings of the predictive type alike
 in calibration

---
 laplax/api.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/laplax/api.py b/laplax/api.py
index cdd2f54..8420356 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -780,6 +780,7 @@ def calibration(
         - GRID_SEARCH: Grid search over prior precision
     """
     # If task is classification, then no NLL objective
+    predictive_type = _convert_to_enum(Predictive, predictive_type)
     is_classification = predictive_type != Predictive.NONE
 
     # Pushforward construction
-- 
2.43.0


From c5a78427779ae636ce54879cb38531d8f4365bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 22/33] fix: tell a list of batches from an input-target list

---
 laplax/api.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index 8420356..e5f7920 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -148,7 +148,9 @@ def _validate_and_get_transform(batch: Data | Any) -> Callable[[Any], Data]:
 
 
 def _is_data_loader(data: Data | tuple | Iterable):
-    return isinstance(data, Iterable) and not isinstance(data, (tuple, dict, list))
+    if isinstance(data, list):  # a list of batches or a single `[input, target]`
+        return bool(data) and isinstance(data[0], (tuple, dict, list))
+    return isinstance(data, Iterable) and not isinstance(data, (tuple, dict))
 
 
 def _maybe_wrap_loader_or_batch(
@@ -169,13 +171,14 @@ def _maybe_wrap_loader_or_batch(
     Returns:
         Wrapped matrix-vector function.
     """
-    transform = (
-        _validate_and_get_transform(next(iter(data)) if _is_data_loader(data) else data)
-        if transform is None
-        else transform
-    )
+    is_single_batch = isinstance(data, (tuple, dict))
+    if transform is None:
+        is_single_batch = not _is_data_loader(data)
+        transform = _validate_and_get_transform(
+            data if is_single_batch else next(iter(data))
+        )
 
-    if isinstance(data, (tuple, dict)):
+    if is_single_batch:
         logger.debug("Using *single batch* curvature evaluation.")
         return partial(mv_fn, data=transform(data))
 
-- 
2.43.0


From 73ef27b5d6e23201041c267944932ffd9c16f013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 23/33] fix: evaluation dropped the first batch of iterators

---
 laplax/api.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index e5f7920..322fd71 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -13,6 +13,7 @@ Public entry points
 from collections.abc import Iterator
 from enum import StrEnum
 from functools import partial
+from itertools import chain
 from typing import cast
 
 import jax
@@ -958,9 +959,14 @@ def evaluation(
 
     # Evaluate
     is_data_loader = _is_data_loader(data)
-    transform = _validate_and_get_transform(
-        next(iter(data)) if is_data_loader else data
-    )
+    if is_data_loader:
+        # Keep the first batch, also of iterators that can be traversed only once
+        batches = iter(cast("Iterator[Data]", data))
+        first_batch = next(batches)
+        transform = _validate_and_get_transform(first_batch)
+        data = chain([first_batch], batches)
+    else:
+        transform = _validate_and_get_transform(data)
 
     if is_data_loader:
         results = evaluate_metrics_on_generator(
-- 
2.43.0


From e672f255be00011cf265c3f2cb8ebb792a77b1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 24/33] fix: evaluate loaders with the same metric arguments
 and reduction as batches

---
 laplax/api.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/laplax/api.py b/laplax/api.py
index 322fd71..e004ecc 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -974,8 +974,7 @@ def evaluation(
             data_generator=cast("Iterator[Data]", data),
             metrics=metrics_list,
             transform=transform,
-            reduce=jnp.concatenate,
-            has_batch=True,
+            reduce=lambda res: reduce(jnp.concatenate(res)),
         )
     else:
         results = evaluate_metrics_on_dataset(
-- 
2.43.0


From ee695103cbd167b763a35a4a0545e054b38b9a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:11 +0000
Subject: [PATCH 25/33] fix: accept any output layout for the dense GP kernel

---
 laplax/eval/pushforward.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laplax/eval/pushforward.py b/laplax/eval/pushforward.py
index 39e49d9..b11d222 100644
--- a/laplax/eval/pushforward.py
+++ b/laplax/eval/pushforward.py
@@ -1008,7 +1008,7 @@ def set_posterior_gp_kernel(
 
     if kwargs.get("dense"):
         output_layout = kwargs.get("output_layout")
-        if output_layout:
+        if output_layout is not None:
             return lambda x1, x2: util.mv.to_dense(
                 lambda v: kernel_mv(v, x1, x2, dist_state), layout=output_layout
             ), dist_state
-- 
2.43.0


From 65e1b909618344f6cd42314840ff4c76bf57d98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:43 +0000
Subject: [PATCH 26/33] fix: full curvature of products with an integer layout

---
 laplax/curv/full.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/laplax/curv/full.py b/laplax/curv/full.py
index bb1ad12..a081c19 100644
--- a/laplax/curv/full.py
+++ b/laplax/curv/full.py
@@ -47,11 +47,12 @@ def create_full_curvature(
             f"got type {type(layout)} instead. Proceeding without wrapper."
         )
         logger.warning(msg)
-        mv_wrapped = mv
+        mv_wrapped, size = mv, layout
     else:
         flatten, unflatten = create_pytree_flattener(layout)
         mv_wrapped = wrap_function(mv, input_fn=unflatten, output_fn=flatten)
-    curv_estimate = to_dense(mv_wrapped, layout=get_size(layout))
+        size = get_size(layout)
+    curv_estimate = to_dense(mv_wrapped, layout=size)
     return curv_estimate
 
 
-- 
2.43.0


From 66012bcbbb055c0b731261b9d2c83b63731c9f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:58 +0000
Subject: [PATCH 27/33] fix: low-rank results in the requested precision when
 computed in single precision

---
 laplax/curv/lanczos.py | 4 +++-
 laplax/curv/lobpcg.py  | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 9578f39..28d97da 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -233,7 +233,9 @@ def lanczos_lowrank(
     )
     eigvals, eigvecs = compute_eigendecomposition(alpha, beta, V, compute_vectors=True)
 
-    # Prepare and convert the results
+    # Prepare and convert the results (may ask for more precision than calc_dtype)
+    if return_dtype == jnp.float64:
+        jax.config.update("jax_enable_x64", True)
     low_rank_result = LowRankTerms(
         U=jnp.asarray(eigvecs, dtype=return_dtype),
         S=jnp.asarray(eigvals, dtype=return_dtype),
diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index 3e9784c..351d939 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -395,7 +395,9 @@ def lobpcg_lowrank(
         A_jit=mv_jit,
     )
 
-    # Prepare and convert the results
+    # Prepare and convert the results (may ask for more precision than calc_dtype)
+    if return_dtype == jnp.float64:
+        jax.config.update("jax_enable_x64", True)
     low_rank_result = LowRankTerms(
         U=jnp.asarray(eigenvecs, dtype=return_dtype),
         S=jnp.asarray(eigenvals, dtype=return_dtype),
-- 
2.43.0


From e9b35dc023907c2998048546bb6393f804ad738d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:13 +0000
Subject: [PATCH 28/33] fix: diagonal of a data-loader operator accepts
 diagonal's options

---
 laplax/util/loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/util/loader.py b/laplax/util/loader.py
index 1fdae31..519e11a 100644
--- a/laplax/util/loader.py
+++ b/laplax/util/loader.py
@@ -363,13 +363,13 @@ def _(mv: DataLoaderMV, layout: Layout, **kwargs: Kwargs) -> Array:
 
 
 @diagonal.register
-def _(mv: DataLoaderMV, layout: Layout | None = None) -> Array:
+def _(mv: DataLoaderMV, layout: Layout | None = None, **kwargs: Kwargs) -> Array:
     """Apply diagonal to DataLoaderMV.
 
     Returns:
         The result of applying the function to the data loader.
     """
-    return mv.lower_func(diagonal, layout=layout)
+    return mv.lower_func(diagonal, layout=layout, **kwargs)
 
 
 @wrap_function.register
-- 
2.43.0


From 943603db875e4ed5d42059991f389d726ca81159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:23 +0000
Subject: [PATCH 29/33] fix: Lanczos reorthogonalises against the latest vector
 too (a direction was counted twice after a breakdown of large operators)

---
 laplax/curv/lanczos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 28d97da..09314db 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -58,8 +58,8 @@ def lanczos_iterations(
         a = jnp.dot(v, w)
         w = w - a * v
         if full_reorthogonalize:
-            w = reorthogonalize(w, V, i)
-            w = reorthogonalize(w, V, i)
+            w = reorthogonalize(w, V, i + 1)
+            w = reorthogonalize(w, V, i + 1)
 
         b_val = jnp.linalg.norm(w, 2)
         b_val = jnp.where(b_val < tol, 0.0, b_val)
-- 
2.43.0


From 82be2c25ff7424fd8a06abf70037af4d3a8a6f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:34 +0000
Subject: [PATCH 30/33] fix: count calibration bins in at least single
 precision

---
 laplax/eval/metrics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/laplax/eval/metrics.py b/laplax/eval/metrics.py
index fa3203c..a5c0e42 100644
--- a/laplax/eval/metrics.py
+++ b/laplax/eval/metrics.py
@@ -189,6 +189,9 @@ def calculate_bin_metrics(
     indices = jnp.digitize(confidence, bin_boundaries) - 1
     indices = jnp.clip(indices, min=0, max=num_bins - 1)
 
+    # Half-precision accumulators stop counting after a few hundred samples
+    confidence = confidence.astype(jnp.promote_types(confidence.dtype, jnp.float32))
+
     bin_counts = jnp.zeros(num_bins, dtype=confidence.dtype)
     bin_confidences = jnp.zeros(num_bins, dtype=confidence.dtype)
     bin_accuracies = jnp.zeros(num_bins, dtype=confidence.dtype)
-- 
2.43.0


From f7770df6be4ef39d0781550d59fc74678c57bd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:19 +0000
Subject: [PATCH 31/33] fix: pass the iteration limit of a calibration on to
 the grid search

---
 laplax/api.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/laplax/api.py b/laplax/api.py
index e004ecc..03d978d 100644
--- a/laplax/api.py
+++ b/laplax/api.py
@@ -827,6 +827,7 @@ def calibration(
         log_prior_prec_max = calibration_kwargs.get("log_prior_prec_max", 3.0)
         grid_size = calibration_kwargs.get("grid_size", 50)
         patience = calibration_kwargs.get("patience")
+        max_iterations = calibration_kwargs.get("max_iterations")
 
         # Transform calibration batch to {"input": ..., "target": ...}
         data = _validate_and_get_transform(data)(data)
@@ -852,6 +853,7 @@ def calibration(
             log_prior_prec_max=log_prior_prec_max,
             grid_size=grid_size,
             patience=patience,
+            max_iterations=max_iterations,
         )
         prior_args = {"prior_prec": prior_prec}
 
-- 
2.43.0


From 9892093a86a6ce6acf781c3df507fc7dec5a4dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:21 +0000
Subject: [PATCH 32/33] fix: Lanczos stops when the remainder is below the
 rounding noise of the product (large operators in single precision)

---
 laplax/curv/lanczos.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/laplax/curv/lanczos.py b/laplax/curv/lanczos.py
index 09314db..7f4122f 100644
--- a/laplax/curv/lanczos.py
+++ b/laplax/curv/lanczos.py
@@ -55,6 +55,7 @@ def lanczos_iterations(
     # Define a single iteration function to be used in both cases
     @jax.jit
     def iteration_step(v, w, alpha, beta, V, i):
+        noise = jnp.finfo(dtype).eps * jnp.linalg.norm(w, 2)
         a = jnp.dot(v, w)
         w = w - a * v
         if full_reorthogonalize:
@@ -62,7 +63,7 @@ def lanczos_iterations(
             w = reorthogonalize(w, V, i + 1)
 
         b_val = jnp.linalg.norm(w, 2)
-        b_val = jnp.where(b_val < tol, 0.0, b_val)
+        b_val = jnp.where(b_val < jnp.maximum(tol, noise), 0.0, b_val)
         v_next = jax.lax.cond(
             b_val > 0,  # type: ignore[operator]
             lambda _: w / b_val,
-- 
2.43.0


From 9d1b62268b699f308a9d344d6143bf9ccc452fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:21 +0000
Subject: [PATCH 33/33] fix: LOBPCG gave NaN for operators of lower rank than
 requested (also for the zero operator)

---
 laplax/curv/lobpcg.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/laplax/curv/lobpcg.py b/laplax/curv/lobpcg.py
index 351d939..fe63163 100644
--- a/laplax/curv/lobpcg.py
+++ b/laplax/curv/lobpcg.py
@@ -384,9 +384,14 @@ def lobpcg_lowrank(
         key = jax.random.key(0)
     X = jax.random.normal(key, (size, rank), dtype=calc_dtype)
 
+    # LOBPCG pads its search space with zero columns. Shift the operator, so that their
+    # value (zero) is never among the leading ones, also if the rank of A is too small.
+    shift = 1e-3 * jnp.max(jnp.sum(X * matmat(X), axis=0) / jnp.sum(X * X, axis=0))
+    shift = jnp.where(shift > 0, shift, 1.0)
+
     # Perform LOBPCG for eigenvalues and eigenvectors using the new wrapper
     eigenvals, eigenvecs, _ = lobpcg_standard(
-        A=matmat,
+        A=lambda x: matmat(x) + shift * x,
         X=X,
         m=rank,
         tol=tol,
@@ -400,7 +405,7 @@ def lobpcg_lowrank(
         jax.config.update("jax_enable_x64", True)
     low_rank_result = LowRankTerms(
         U=jnp.asarray(eigenvecs, dtype=return_dtype),
-        S=jnp.asarray(eigenvals, dtype=return_dtype),
+        S=jnp.asarray(eigenvals - shift, dtype=return_dtype),
         scalar=jnp.asarray(0.0, dtype=return_dtype),
     )
 
-- 
2.43.0

