From b29fcb98b80c8018fe676da270fa79034b446c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:55 +0000
Subject: [PATCH 01/21] fix: build the K x K Anderson matrix from the
 differences of iterates

The extrapolation matrix was U'U (working set size squared), of which the
solver read the leading K x K block: an index out of bounds panic when the
working set is smaller than K, and wrong extrapolation weights otherwise.
---
 src/solvers/anderson_bcd/mod.rs | 2 +-
 src/solvers/anderson_cd/mod.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/anderson_bcd/mod.rs b/src/solvers/anderson_bcd/mod.rs
index 6b84b73..7989282 100644
--- a/src/solvers/anderson_bcd/mod.rs
+++ b/src/solvers/anderson_bcd/mod.rs
@@ -158,7 +158,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
         .unwrap();
 
         // Computes the extrapolation matrix à la Anderson
-        let C = U.t().dot(U);
+        let C = U.dot(&U.t());
         let _res = solve_lin_sys(C.view(), Array1::<F>::ones(K).view()); // TODO: change into LAPACK inversion
 
         match _res {
diff --git a/src/solvers/anderson_cd/mod.rs b/src/solvers/anderson_cd/mod.rs
index 6a1b00e..8c31418 100644
--- a/src/solvers/anderson_cd/mod.rs
+++ b/src/solvers/anderson_cd/mod.rs
@@ -147,7 +147,7 @@ pub fn anderson_accel<F, DM, T, DF, P>(
         .unwrap();
 
         // Computes the extrapolation matrix à la Anderson
-        let C = U.t().dot(U);
+        let C = U.dot(&U.t());
         let _res = solve_lin_sys(C.view(), Array1::<F>::ones(K).view());
 
         match _res {
-- 
2.43.0


From 9798cfaec72e3eed7b428bb27ddeeb81c2415142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:57 +0000
Subject: [PATCH 02/21] fix: use the norm of the gradient in the block elastic
 net distance at zero rows

The distance compared the squared norm with alpha * l21_ratio, so that fits
with small gradients stopped at once and returned zeros.
---
 src/penalties/block_separable/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/penalties/block_separable/mod.rs b/src/penalties/block_separable/mod.rs
index 5ef9964..dceb13b 100644
--- a/src/penalties/block_separable/mod.rs
+++ b/src/penalties/block_separable/mod.rs
@@ -169,7 +169,7 @@ impl<F: Float> MultiTaskPenalty<F> for BlockL1PlusL2<F> {
                             .sqrt()
                     }
                     false => {
-                        let norm_grad_j = grad_idx.dot(&grad_idx);
+                        let norm_grad_j = grad_idx.dot(&grad_idx).sqrt();
                         F::max(F::zero(), norm_grad_j - self.alpha * self.l21_ratio)
                     }
                 }
-- 
2.43.0


From e00cbed3a9efbce88a4c5a4f0f9bed53b35d7c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:45 +0000
Subject: [PATCH 03/21] fix: include the gradient in the BlockMCP distance in
 the concave part

For 0 < ||W_j|| < alpha * gamma the distance ignored the gradient: fits never
met the stopping test there, or stopped at points that are not stationary.
---
 src/penalties/block_separable/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/penalties/block_separable/mod.rs b/src/penalties/block_separable/mod.rs
index dceb13b..9c4f4d0 100644
--- a/src/penalties/block_separable/mod.rs
+++ b/src/penalties/block_separable/mod.rs
@@ -270,7 +270,13 @@ impl<F: Float> MultiTaskPenalty<F> for BlockMCP<F> {
                         if norm_W_j < self.alpha * self.gamma {
                             // distance of -grad_j to alpha * W[j] / ||W_j|| - W[j] / gamma
                             let scale = self.alpha / norm_W_j - F::one() / self.gamma;
-                            W_j.map(|&W_ij| (W_ij * scale).powi(2)).sum().sqrt()
+                            grad_idx
+                                .iter()
+                                .zip(W_j)
+                                .fold(F::zero(), |sum, (&grad_ij, &w_ij)| {
+                                    sum + (grad_ij + w_ij * scale).powi(2)
+                                })
+                                .sqrt()
                         } else {
                             // distance of -grad_j to 0
                             grad_idx.dot(&grad_idx).sqrt()
-- 
2.43.0


From 4bd844127fcfa1a368472a43f50104c6bd05218f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:45 +0000
Subject: [PATCH 04/21] fix: return zeros from block soft-thresholding at the
 threshold

A zero row with a zero threshold gave 0/0 = NaN coefficients (alpha or
l1_ratio equal to zero).
---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index ff74f94..24457f9 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -22,7 +22,7 @@ pub mod prox_funcs {
     /// [`MultiTaskPenalty::L21`].
     pub fn block_soft_thresholding<F: Float>(x: ArrayView1<F>, threshold: F) -> Array1<F> {
         let norm_x = x.map(|&xi| xi.powi(2)).sum().sqrt();
-        if norm_x < threshold {
+        if norm_x <= threshold {
             return Array1::<F>::zeros(x.len());
         }
         let scale = F::one() - threshold / norm_x;
-- 
2.43.0


From 0111447bcd56777cfcb597fd9300e28daf8390c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:18:45 +0000
Subject: [PATCH 05/21] fix: return zero from prox_05 at zero with a zero
 threshold

It evaluated acos(0 * inf) = NaN.
---
 src/utils/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 24457f9..1e460ef 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -32,7 +32,7 @@ pub mod prox_funcs {
     /// This function implements the proximal operator of [`Penalty::L05`].
     pub fn prox_05<F: Float>(x: F, threshold: F) -> F {
         let t = F::cast(F::cast(3. / 2.) * threshold.powf(F::cast(2. / 3.)));
-        if x.abs() < t {
+        if x.abs() <= t {
             return F::zero();
         }
         x * F::cast(2. / 3.)
-- 
2.43.0


From 9602c6f228252947f760022119bfb280f889f6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:40 +0000
Subject: [PATCH 06/21] fix: score L0.5 features by the fixed point violation

The distance to the subdifferential of the L0.5 penalty is identically zero,
so the solver stopped before its first epoch and returned zeros. As the
penalty's documentation says, it relies on the violation of the fixed point
iterate schema instead.
---
 src/penalties/separable/mod.rs | 11 +++++++++++
 src/solvers/anderson_cd/mod.rs | 19 ++++++++++++++++++-
 2 files changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/penalties/separable/mod.rs b/src/penalties/separable/mod.rs
index d2b0c3c..6554052 100644
--- a/src/penalties/separable/mod.rs
+++ b/src/penalties/separable/mod.rs
@@ -31,6 +31,13 @@ pub trait Penalty<F: Float> {
         grad: ArrayView1<F>,
         ws: ArrayView1<usize>,
     ) -> (Array1<F>, F);
+
+    /// This method tells the solver to score the features by the violation of the
+    /// fixed point iterate schema, |w_j - prox(w_j - grad_j / L_j, 1 / L_j)|, for
+    /// penalties whose distance to the subdifferential is uninformative.
+    fn use_fixed_point(&self) -> bool {
+        false
+    }
 }
 
 /// The L1 penalty
@@ -276,6 +283,10 @@ impl<F: Float> Penalty<F> for L05<F> {
     ) -> (Array1<F>, F) {
         (Array1::<F>::zeros(ws.len()), F::zero())
     }
+
+    fn use_fixed_point(&self) -> bool {
+        true
+    }
 }
 
 // SCAD penalty
diff --git a/src/solvers/anderson_cd/mod.rs b/src/solvers/anderson_cd/mod.rs
index 8c31418..74d75a7 100644
--- a/src/solvers/anderson_cd/mod.rs
+++ b/src/solvers/anderson_cd/mod.rs
@@ -32,7 +32,8 @@ where
 }
 
 /// This function computes the distance of the negative gradient of the datafit to the
-/// subdifferential of the penalty restricted to the working set. It returns
+/// subdifferential of the penalty restricted to the working set (the violation of the
+/// fixed point iterate schema for penalties that rely on it). It returns
 /// an array containing the distances for each feature in the working set as well
 /// as the maximum distance.
 pub fn opt_cond_violation<F, DF, P, DM, T>(
@@ -51,6 +52,22 @@ where
     P: Penalty<F>,
 {
     let grad_ws = construct_grad(dataset, Xw, ws, datafit);
+
+    if penalty.use_fixed_point() {
+        let lipschitz = datafit.step_size();
+        let violation = Array1::from_iter(ws.iter().zip(&grad_ws).map(|(&j, &grad_j)| {
+            match lipschitz[j] == F::zero() {
+                true => F::zero(),
+                false => {
+                    let step = w[j] - grad_j / lipschitz[j];
+                    (w[j] - penalty.prox(step, F::one() / lipschitz[j])).abs()
+                }
+            }
+        }));
+        let max_violation = violation.fold(F::zero(), |max_val, &dist| F::max(max_val, dist));
+        return (violation, max_violation);
+    }
+
     let (kkt_ws, kkt_ws_max) = penalty.subdiff_distance(w, grad_ws.view(), ws);
     (kkt_ws, kkt_ws_max)
 }
-- 
2.43.0


From ee4d7aab8f5526fe9a9e8f8fb693cfcedd78d364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:14 +0000
Subject: [PATCH 07/21] fix: keep the logistic datafit finite for large
 negative margins

---
 src/datafits/single_task/mod.rs | 8 +++-----
 src/utils/mod.rs                | 6 ++++++
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/datafits/single_task/mod.rs b/src/datafits/single_task/mod.rs
index d319480..29ba67c 100644
--- a/src/datafits/single_task/mod.rs
+++ b/src/datafits/single_task/mod.rs
@@ -1,10 +1,8 @@
-use std::f64::consts::E;
-
 use ndarray::{s, Array1, ArrayBase, ArrayView1, Axis, Data, Ix2};
 
 use super::Float;
 use crate::datasets::{csc_array::CSCArray, AsSingleTargets, DatasetBase, DesignMatrix};
-use crate::utils::helpers::sigmoid;
+use crate::utils::helpers::{log_1p_exp, sigmoid};
 
 #[cfg(test)]
 mod tests;
@@ -218,7 +216,7 @@ impl<F: Float, D: Data<Elem = F>, T: AsSingleTargets<Elem = F>> Datafit<F, Array
         let y = dataset.targets().try_single_target().unwrap();
         Xw.iter()
             .zip(y)
-            .map(|(&xw_i, &y_i)| F::log(F::one() + F::exp(-xw_i * y_i), F::cast(E)))
+            .map(|(&xw_i, &y_i)| log_1p_exp(-xw_i * y_i))
             .sum::<F>()
             / F::cast(y.len())
     }
@@ -284,7 +282,7 @@ impl<F: Float, T: AsSingleTargets<Elem = F>> Datafit<F, CSCArray<'_, F>, T> for
         let y = dataset.targets().try_single_target().unwrap();
         Xw.iter()
             .zip(y)
-            .map(|(&xw_i, &y_i)| F::log(F::one() + F::exp(-xw_i * y_i), F::cast(E)))
+            .map(|(&xw_i, &y_i)| log_1p_exp(-xw_i * y_i))
             .sum::<F>()
             / F::cast(y.len())
     }
diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 1e460ef..01be292 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -170,6 +170,12 @@ pub mod helpers {
     pub fn sigmoid<F: Float>(x: F) -> F {
         F::one() / (F::one() + F::exp(-x))
     }
+
+    /// This function computes log(1 + exp(x)) without overflowing for large values
+    /// of x.
+    pub fn log_1p_exp<F: Float>(x: F) -> F {
+        F::max(x, F::zero()) + F::ln_1p(F::exp(-num_traits::Float::abs(x)))
+    }
 }
 
 /// This module contains helpers functions to efficiently write tests.
-- 
2.43.0


From 3a51b70f2b590bd4c1d18d82e8b105ae68a66066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:47 +0000
Subject: [PATCH 08/21] fix: reject a gamma below one in BlockMCParams

---
 src/estimators/hyperparams.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estimators/hyperparams.rs b/src/estimators/hyperparams.rs
index 17f659d..d6cf52d 100644
--- a/src/estimators/hyperparams.rs
+++ b/src/estimators/hyperparams.rs
@@ -711,6 +711,8 @@ impl<F: Float> ParamGuard for BlockMCParams<F> {
             Err(EstimatorError::InvalidRegularization(
                 self.0.alpha.to_f32().unwrap(),
             ))
+        } else if self.0.gamma < F::one() {
+            Err(EstimatorError::InvalidGamma(self.0.gamma.to_f32().unwrap()))
         } else if self.0.tolerance.is_negative() {
             Err(EstimatorError::InvalidTolerance(
                 self.0.tolerance.to_f32().unwrap(),
-- 
2.43.0


From 7cc1709e0ed92ef2bfedf86e7b872895ad271f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:52 +0000
Subject: [PATCH 09/21] fix: use partial pivoting in solve_lin_sys

---
 src/utils/mod.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 01be292..172e994 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -127,6 +127,19 @@ pub mod helpers {
 
         // Echelon form
         for i in 0..size - 1 {
+            // Partial pivoting: bring the largest entry of the column on the diagonal
+            let mut pivot = i;
+            for j in i + 1..size {
+                if num_traits::Float::abs(system[[j, i]])
+                    > num_traits::Float::abs(system[[pivot, i]])
+                {
+                    pivot = j;
+                }
+            }
+            for k in 0..size + 1 {
+                system.swap([i, k], [pivot, k]);
+            }
+
             for j in i..size - 1 {
                 if system[[i, i]] == F::zero() {
                     continue;
-- 
2.43.0


From 7dceeec75635f7c67c4ae63dafd41ce76f2e6d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:30 +0000
Subject: [PATCH 10/21] fix: never adopt a non-finite extrapolated point

---
 src/solvers/anderson_bcd/mod.rs | 5 +++--
 src/solvers/anderson_cd/mod.rs  | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/solvers/anderson_bcd/mod.rs b/src/solvers/anderson_bcd/mod.rs
index 7989282..3bca4fb 100644
--- a/src/solvers/anderson_bcd/mod.rs
+++ b/src/solvers/anderson_bcd/mod.rs
@@ -194,8 +194,9 @@ pub fn anderson_accel<F, DM, T, DF, P>(
                 // Compares the objective value at the extrapolated point and the objective
                 // value at the non-extrapolated point. The extrapolated point is retained
                 // if and only if it decreases the objective. This ensures that the routine
-                // converges.
-                if p_obj_acc < p_obj {
+                // converges. An ill-conditioned extrapolation can be non-finite, which a
+                // datafit may not reflect in its value.
+                if W_acc.iter().all(|x| x.is_finite()) && p_obj_acc < p_obj {
                     W.assign(&W_acc);
                     XW.assign(&XW_acc);
 
diff --git a/src/solvers/anderson_cd/mod.rs b/src/solvers/anderson_cd/mod.rs
index 74d75a7..9e115d3 100644
--- a/src/solvers/anderson_cd/mod.rs
+++ b/src/solvers/anderson_cd/mod.rs
@@ -199,8 +199,9 @@ pub fn anderson_accel<F, DM, T, DF, P>(
                 // Compares the objective value at the extrapolated point and the objective
                 // value at the non-extrapolated point. The extrapolated point is retained
                 // if and only if it decreases the objective. This ensures that the routine
-                // converges.
-                if p_obj_acc < p_obj {
+                // converges. An ill-conditioned extrapolation can be non-finite, which a
+                // datafit may not reflect in its value.
+                if w_acc.iter().all(|x| x.is_finite()) && p_obj_acc < p_obj {
                     w.assign(&w_acc);
                     Xw.assign(&Xw_acc);
 
-- 
2.43.0


From 6fd30bb97030693445d5891d4e60426ec0f917b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:51:39 +0000
Subject: [PATCH 11/21] fix: keep prox_05 finite for tiny values

The power of the value alone overflowed and made acos(0 * inf) = NaN.
---
 src/utils/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/mod.rs b/src/utils/mod.rs
index 172e994..036cfd0 100644
--- a/src/utils/mod.rs
+++ b/src/utils/mod.rs
@@ -41,8 +41,8 @@ pub mod prox_funcs {
                     F::cast(2. / 3.)
                         * F::acos(
                             -F::cast(F::cast(3).powf(F::cast(3. / 2.)) / F::cast(4.))
-                                * threshold
-                                * x.abs().powf(F::cast(-3. / 2.)),
+                                * (threshold.powf(F::cast(2. / 3.)) / x.abs())
+                                    .powf(F::cast(3. / 2.)),
                         ),
                 ))
     }
-- 
2.43.0


From b868929fd1aeeb3e7dedf92c0e26ca1c01a94b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:11 +0000
Subject: [PATCH 12/21] fix: check gamma rather than alpha in the Python MCP
 estimators

Every alpha below one was rejected and every gamma accepted.
---
 python/sparseglm/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index ade3d82..e3ad756 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -269,7 +269,7 @@ class MCPRegressor(Estimator):
             use_accel=use_accel, verbose=verbose)
         if not isinstance(alpha, float) or alpha < 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
-        elif not isinstance(gamma, float) or alpha < 1:
+        elif not isinstance(gamma, float) or gamma < 1:
             raise ValueError("gamma={} must be a float greater than \
                               1".format(gamma))
         else:
@@ -358,7 +358,7 @@ class BlockMCPRegressor(Estimator):
             use_accel=use_accel, max_epochs=max_epochs)
         if not isinstance(alpha, float) or alpha < 0:
             raise ValueError("alpha={} must be a positive float".format(alpha))
-        elif not isinstance(gamma, float) or alpha < 1:
+        elif not isinstance(gamma, float) or gamma < 1:
             raise ValueError("gamma={} must be a float greater than \
                               1".format(gamma))
         else:
-- 
2.43.0


From 30676b471b9781dfd04d71ef776ff58295929b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:11 +0000
Subject: [PATCH 13/21] fix: check l1_ratio rather than alpha in the Python
 elastic nets

Every alpha above one was rejected and every l1_ratio accepted.
---
 python/sparseglm/estimators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index e3ad756..8c4d317 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -459,7 +459,7 @@ class ElasticNet(Estimator):
         else:
             self.alpha = alpha
 
-        if not isinstance(l1_ratio, float) or alpha < 0 or alpha > 1:
+        if not isinstance(l1_ratio, float) or l1_ratio < 0 or l1_ratio > 1:
             raise ValueError("l1_ratio={} must be between 0 and 1"
                              .format(l1_ratio))
         else:
@@ -547,7 +547,7 @@ class MultiTaskElasticNet(Estimator):
             raise ValueError("alpha={} must be a positive float".format(alpha))
         else:
             self.alpha = alpha
-        if not isinstance(l1_ratio, float) or alpha < 0 or alpha > 1:
+        if not isinstance(l1_ratio, float) or l1_ratio < 0 or l1_ratio > 1:
             raise ValueError("l1_ratio={} must be between 0 and 1"
                              .format(l1_ratio))
         else:
-- 
2.43.0


From 8f3d9929fe81cc16bb3b2c43ffe4a119276a4126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:11 +0000
Subject: [PATCH 14/21] fix: let Python estimators predict

The truth value of an array of coefficients is ambiguous: predict raised on
every fitted model.
---
 python/sparseglm/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 8c4d317..9091cb3 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -44,7 +44,7 @@ class Estimator(BaseEstimator):
 
     def predict(self, X):
         """Predicts the test set."""
-        if not self.coef_:
+        if self.coef_ is None:
             raise Exception("Estimator must be fitted before inference.")
         return X @ self.coef_.T
 
-- 
2.43.0


From 535f6c7be172600d9f33a286348115d26d322723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:11 +0000
Subject: [PATCH 15/21] fix: convert single-precision inputs in the Python
 estimators

The extension module only takes 64-bit arrays: float32 input raised TypeError.
---
 python/sparseglm/estimators.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 9091cb3..1d6dd85 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -109,7 +109,7 @@ class Lasso(Estimator):
             Measurements.
         """
         self._validate_params()
-        X = check_array(X, 'csc', dtype=[np.float64, np.float32], order='F',
+        X = check_array(X, 'csc', dtype=np.float64, order='F',
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
@@ -189,7 +189,7 @@ class MultiTaskLasso(Estimator):
             Measurements.
         """
         self._validate_params()
-        check_X_params = dict(dtype=[np.float64, np.float32], order='F',
+        check_X_params = dict(dtype=np.float64, order='F',
                               accept_sparse='csc')
         check_Y_params = dict(ensure_2d=False, order='F')
         X, Y = self._validate_data(X, Y, validate_separately=(check_X_params,
@@ -288,7 +288,7 @@ class MCPRegressor(Estimator):
             Measurements.
         """
         self._validate_params()
-        X = check_array(X, 'csc', dtype=[np.float64, np.float32], order='F',
+        X = check_array(X, 'csc', dtype=np.float64, order='F',
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
@@ -377,7 +377,7 @@ class BlockMCPRegressor(Estimator):
             Measurements.
         """
         self._validate_params()
-        check_X_params = dict(dtype=[np.float64, np.float32], order='F',
+        check_X_params = dict(dtype=np.float64, order='F',
                               accept_sparse='csc')
         check_Y_params = dict(ensure_2d=False, order='F')
         X, Y = self._validate_data(X, Y, validate_separately=(check_X_params,
@@ -477,7 +477,7 @@ class ElasticNet(Estimator):
             Measurements.
         """
         self._validate_params()
-        X = check_array(X, 'csc', dtype=[np.float64, np.float32], order='F',
+        X = check_array(X, 'csc', dtype=np.float64, order='F',
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
@@ -566,7 +566,7 @@ class MultiTaskElasticNet(Estimator):
             Measurements.
         """
         self._validate_params()
-        check_X_params = dict(dtype=[np.float64, np.float32], order='F',
+        check_X_params = dict(dtype=np.float64, order='F',
                               accept_sparse='csc')
         check_Y_params = dict(ensure_2d=False, order='F')
         X, Y = self._validate_data(X, Y, validate_separately=(check_X_params,
-- 
2.43.0


From 5614cc87fce5a0256e1bdc35f0dcd55424a39b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:30 +0000
Subject: [PATCH 16/21] fix: reject inconsistent targets in the single-task
 Python estimators

Targets of another length crashed inside the extension module or were cut
silently; two-dimensional ones raised TypeError.
---
 python/sparseglm/estimators.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 1d6dd85..365c160 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -42,6 +42,14 @@ class Estimator(BaseEstimator):
         _check_types(self.max_iter, int, "max_iter")
         _check_types(self.max_epochs, int, "max_epochs")
 
+    def _check_target(self, X, y):
+        if y.ndim != 1:
+            raise ValueError("For multi-task outputs, use the multi-task "
+                             "estimators")
+        if X.shape[0] != y.shape[0]:
+            raise ValueError("X and y have inconsistent dimensions (%d != %d)"
+                             % (X.shape[0], y.shape[0]))
+
     def predict(self, X):
         """Predicts the test set."""
         if self.coef_ is None:
@@ -113,6 +121,7 @@ class Lasso(Estimator):
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
+        self._check_target(X, y)
 
         self._inner = _lib.LassoWrapper(
             alpha=self.alpha, max_iterations=self.max_iter, ws_start_size=self.p0,
@@ -292,6 +301,7 @@ class MCPRegressor(Estimator):
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
+        self._check_target(X, y)
 
         self._inner = _lib.MCPWrapper(
             alpha=self.alpha, gamma=self.gamma, max_iterations=self.max_iter,
@@ -481,6 +491,7 @@ class ElasticNet(Estimator):
                         copy=False, accept_large_sparse=False)
         y = check_array(y, 'csc', dtype=X.dtype.type, order='F', copy=False,
                         ensure_2d=False)
+        self._check_target(X, y)
 
         self._inner = _lib.ElasticNetWrapper(
             alpha=self.alpha, l1_ratio=self.l1_ratio,
-- 
2.43.0


From a963e7c99bed046f66010bbdb780f9fe7f20ff76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:30 +0000
Subject: [PATCH 17/21] fix: reject a zero K or working-set size in Python

The core library refuses them; the error message also showed alpha instead of
the offending value.
---
 python/sparseglm/estimators.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 365c160..52dc0b7 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -32,12 +32,12 @@ class Estimator(BaseEstimator):
         self.coef_ = None
 
     def _validate_params(self):
-        def _check_types(var, type, var_name):
-            if not isinstance(var, type) or var < 0:
+        def _check_types(var, type, var_name, minimum=0):
+            if not isinstance(var, type) or var < minimum:
                 raise ValueError("{}={} must be a positive {}."
-                                 .format(var_name, self.alpha, type))
-        _check_types(self.K, int, "K")
-        _check_types(self.p0, int, "p0")
+                                 .format(var_name, var, type))
+        _check_types(self.K, int, "K", 1)
+        _check_types(self.p0, int, "p0", 1)
         _check_types(self.tol, float, "tol")
         _check_types(self.max_iter, int, "max_iter")
         _check_types(self.max_epochs, int, "max_epochs")
-- 
2.43.0


From 0727614ac0fb89933d0c47fcbe445c3dbaaa78f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:30 +0000
Subject: [PATCH 18/21] fix: turn errors of the core library into ValueError

The bindings unwrapped them, which panicked for hyperparameters set after
construction.
---
 python/src/block_mcp.rs              | 11 +++++++++--
 python/src/elastic_net.rs            | 11 +++++++++--
 python/src/lasso.rs                  | 11 +++++++++--
 python/src/mcp.rs                    | 11 +++++++++--
 python/src/mtl_lasso.rs              | 11 +++++++++--
 python/src/multi_task_elastic_net.rs | 11 +++++++++--
 6 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/python/src/block_mcp.rs b/python/src/block_mcp.rs
index 511868e..fb1acc4 100644
--- a/python/src/block_mcp.rs
+++ b/python/src/block_mcp.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl BlockMCPWrapper {
         y: &PyArray2<f64>,
     ) -> PyResult<&'py PyArray2<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl BlockMCPWrapper {
     ) -> PyResult<&'py PyArray2<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/elastic_net.rs b/python/src/elastic_net.rs
index be404f9..f21e0e7 100644
--- a/python/src/elastic_net.rs
+++ b/python/src/elastic_net.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl ElasticNetWrapper {
         y: &PyArray1<f64>,
     ) -> PyResult<&'py PyArray1<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl ElasticNetWrapper {
     ) -> PyResult<&'py PyArray1<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/lasso.rs b/python/src/lasso.rs
index c022cbe..41b44d1 100644
--- a/python/src/lasso.rs
+++ b/python/src/lasso.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -43,7 +44,10 @@ impl LassoWrapper {
         y: &PyArray1<f64>,
     ) -> PyResult<&'py PyArray1<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -57,7 +61,10 @@ impl LassoWrapper {
     ) -> PyResult<&'py PyArray1<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/mcp.rs b/python/src/mcp.rs
index 23a1bc6..960cfbc 100644
--- a/python/src/mcp.rs
+++ b/python/src/mcp.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl MCPWrapper {
         y: &PyArray1<f64>,
     ) -> PyResult<&'py PyArray1<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl MCPWrapper {
     ) -> PyResult<&'py PyArray1<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/mtl_lasso.rs b/python/src/mtl_lasso.rs
index 3aa75bf..1d4ce82 100644
--- a/python/src/mtl_lasso.rs
+++ b/python/src/mtl_lasso.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -43,7 +44,10 @@ impl MultiTaskLassoWrapper {
         y: &PyArray2<f64>,
     ) -> PyResult<&'py PyArray2<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -57,7 +61,10 @@ impl MultiTaskLassoWrapper {
     ) -> PyResult<&'py PyArray2<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
diff --git a/python/src/multi_task_elastic_net.rs b/python/src/multi_task_elastic_net.rs
index ef91cac..76824a5 100644
--- a/python/src/multi_task_elastic_net.rs
+++ b/python/src/multi_task_elastic_net.rs
@@ -1,4 +1,5 @@
 use numpy::{PyArray, PyArray1, PyArray2};
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use sparseglm::{
     datasets::{csc_array::CSCArray, DenseDatasetView, SparseDataset},
@@ -45,7 +46,10 @@ impl MultiTaskElasticNetWrapper {
         y: &PyArray2<f64>,
     ) -> PyResult<&'py PyArray2<f64>> {
         let dataset = DenseDatasetView::from((x.as_array(), y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 
@@ -59,7 +63,10 @@ impl MultiTaskElasticNetWrapper {
     ) -> PyResult<&'py PyArray2<f64>> {
         let x = CSCArray::new(data.as_array(), indices.as_array(), indptr.as_array());
         let dataset = SparseDataset::from((x, y.as_array()));
-        let _estimator = self.inner.fit(&dataset).unwrap();
+        let _estimator = self
+            .inner
+            .fit(&dataset)
+            .map_err(|e| PyValueError::new_err(e.to_string()))?;
         Ok(PyArray::from_array(py, &_estimator.coefficients()))
     }
 }
-- 
2.43.0


From 1f8e638fada930f6aadaba196dc86b091857c4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:58:30 +0000
Subject: [PATCH 19/21] fix: accept the documented one-dimensional w_true in
 make_correlated_data

---
 python/sparseglm/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/sparseglm/utils.py b/python/sparseglm/utils.py
index 851edaf..8474cb4 100644
--- a/python/sparseglm/utils.py
+++ b/python/sparseglm/utils.py
@@ -98,7 +98,7 @@ def make_correlated_data(
 
     Y = X @ w_true
     if snr != np.inf:
-        noise = rng.randn(n_samples, n_tasks)
+        noise = rng.randn(*Y.shape)
         Y += noise / norm(noise) * norm(Y) / snr
     if n_tasks == 1:
         return X, Y.flatten(), w_true.flatten()
-- 
2.43.0


From 322c383562f125c56bc0c83907d4e12314d86f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:36:22 +0000
Subject: [PATCH 20/21] fix: let fitted Python estimators be pickled and copied

The native solver was kept on the estimator after fit, and extension
objects cannot be pickled: pickle, joblib and deepcopy of any fitted
estimator raised a TypeError. It is only needed during fit.
---
 python/sparseglm/estimators.py | 36 +++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 52dc0b7..9420405 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -123,15 +123,15 @@ class Lasso(Estimator):
                         ensure_2d=False)
         self._check_target(X, y)
 
-        self._inner = _lib.LassoWrapper(
+        inner = _lib.LassoWrapper(
             alpha=self.alpha, max_iterations=self.max_iter, ws_start_size=self.p0,
             k=self.K, max_epochs=self.max_epochs, tolerance=self.tol,
             use_acceleration=self.use_accel, verbose=self.verbose)
 
         if sp.issparse(X):
-            coefs = self._inner.fit_sparse(X.data, X.indices, X.indptr, y)
+            coefs = inner.fit_sparse(X.data, X.indices, X.indptr, y)
         else:
-            coefs = self._inner.fit(X, y)
+            coefs = inner.fit(X, y)
 
         self.coef_ = coefs.T
         return self
@@ -214,15 +214,15 @@ class MultiTaskLasso(Estimator):
             raise ValueError("X and Y have inconsistent dimensions (%d != %d)"
                              % (n_samples, Y.shape[0]))
 
-        self._inner = _lib.MultiTaskLassoWrapper(
+        inner = _lib.MultiTaskLassoWrapper(
             alpha=self.alpha, max_iterations=self.max_iter, ws_start_size=self.p0,
             k=self.K, max_epochs=self.max_epochs, tolerance=self.tol,
             use_acceleration=self.use_accel, verbose=self.verbose)
 
         if sp.issparse(X):
-            coefs = self._inner.fit_sparse(X.data, X.indices, X.indptr, Y)
+            coefs = inner.fit_sparse(X.data, X.indices, X.indptr, Y)
         else:
-            coefs = self._inner.fit(X, Y)
+            coefs = inner.fit(X, Y)
 
         self.coef_ = coefs.T
         return self
@@ -303,16 +303,16 @@ class MCPRegressor(Estimator):
                         ensure_2d=False)
         self._check_target(X, y)
 
-        self._inner = _lib.MCPWrapper(
+        inner = _lib.MCPWrapper(
             alpha=self.alpha, gamma=self.gamma, max_iterations=self.max_iter,
             ws_start_size=self.p0, k=self.K, max_epochs=self.max_epochs,
             tolerance=self.tol, use_acceleration=self.use_accel,
             verbose=self.verbose)
 
         if sp.issparse(X):
-            coefs = self._inner.fit_sparse(X.data, X.indices, X.indptr, y)
+            coefs = inner.fit_sparse(X.data, X.indices, X.indptr, y)
         else:
-            coefs = self._inner.fit(X, y)
+            coefs = inner.fit(X, y)
 
         self.coef_ = coefs.T
         return self
@@ -403,16 +403,16 @@ class BlockMCPRegressor(Estimator):
             raise ValueError("X and Y have inconsistent dimensions (%d != %d)"
                              % (n_samples, Y.shape[0]))
 
-        self._inner = _lib.BlockMCPWrapper(
+        inner = _lib.BlockMCPWrapper(
             alpha=self.alpha, gamma=self.gamma, max_iterations=self.max_iter,
             ws_start_size=self.p0, k=self.K, max_epochs=self.max_epochs,
             tolerance=self.tol, use_acceleration=self.use_accel,
             verbose=self.verbose)
 
         if sp.issparse(X):
-            coefs = self._inner.fit_sparse(X.data, X.indices, X.indptr, Y)
+            coefs = inner.fit_sparse(X.data, X.indices, X.indptr, Y)
         else:
-            coefs = self._inner.fit(X, Y)
+            coefs = inner.fit(X, Y)
 
         self.coef_ = coefs.T
         return self
@@ -493,16 +493,16 @@ class ElasticNet(Estimator):
                         ensure_2d=False)
         self._check_target(X, y)
 
-        self._inner = _lib.ElasticNetWrapper(
+        inner = _lib.ElasticNetWrapper(
             alpha=self.alpha, l1_ratio=self.l1_ratio,
             max_iterations=self.max_iter, ws_start_size=self.p0, k=self.K,
             max_epochs=self.max_epochs, tolerance=self.tol,
             use_acceleration=self.use_accel, verbose=self.verbose)
 
         if sp.issparse(X):
-            coefs = self._inner.fit_sparse(X.data, X.indices, X.indptr, y)
+            coefs = inner.fit_sparse(X.data, X.indices, X.indptr, y)
         else:
-            coefs = self._inner.fit(X, y)
+            coefs = inner.fit(X, y)
 
         self.coef_ = coefs.T
         return self
@@ -593,16 +593,16 @@ class MultiTaskElasticNet(Estimator):
             raise ValueError("X and Y have inconsistent dimensions (%d != %d)"
                              % (n_samples, Y.shape[0]))
 
-        self._inner = _lib.MultiTaskElasticNetWrapper(
+        inner = _lib.MultiTaskElasticNetWrapper(
             alpha=self.alpha, l1_ratio=self.l1_ratio,
             max_iterations=self.max_iter, ws_start_size=self.p0, k=self.K,
             max_epochs=self.max_epochs, tolerance=self.tol,
             use_acceleration=self.use_accel, verbose=self.verbose)
 
         if sp.issparse(X):
-            coefs = self._inner.fit_sparse(X.data, X.indices, X.indptr, Y)
+            coefs = inner.fit_sparse(X.data, X.indices, X.indptr, Y)
         else:
-            coefs = self._inner.fit(X, Y)
+            coefs = inner.fit(X, Y)
 
         self.coef_ = coefs.T
         return self
-- 
2.43.0


From e5a962034d151e53ee87fb7b1f993601aa093b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:00:40 +0000
Subject: [PATCH 21/21] fix: hyperparameters set after construction are
 validated by fit

---
 python/sparseglm/estimators.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/sparseglm/estimators.py b/python/sparseglm/estimators.py
index 9420405..3fd946a 100644
--- a/python/sparseglm/estimators.py
+++ b/python/sparseglm/estimators.py
@@ -36,6 +36,14 @@ class Estimator(BaseEstimator):
             if not isinstance(var, type) or var < minimum:
                 raise ValueError("{}={} must be a positive {}."
                                  .format(var_name, var, type))
+        _check_types(self.alpha, float, "alpha")
+        if hasattr(self, "gamma"):
+            _check_types(self.gamma, float, "gamma", 1)
+        if hasattr(self, "l1_ratio"):
+            _check_types(self.l1_ratio, float, "l1_ratio")
+            if self.l1_ratio > 1:
+                raise ValueError("l1_ratio={} must be between 0 and 1"
+                                 .format(self.l1_ratio))
         _check_types(self.K, int, "K", 1)
         _check_types(self.p0, int, "p0", 1)
         _check_types(self.tol, float, "tol")
-- 
2.43.0

