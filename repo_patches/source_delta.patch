From e2f9715a6edab203a62c00025c0ec9fa96d492d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:17 +0000
Subject: [PATCH 01/35] fix: start from zero if the initial guess is not finite

With every response at the edge of its range (all true, all zero) the link of
the mean is infinite, and a well-posed model without an intercept failed with
a linear algebra error or returned infinite coefficients.
---
 src/glm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/glm.rs b/src/glm.rs
index 335f869..39d662d 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -152,7 +152,12 @@ pub trait Glm: Sized {
                 eprintln!("{err}");
                 Array1::<F>::zeros(data.x.ncols())
             });
-        init_guess
+        // The link is infinite at the edge of the response range, e.g. if every response is at it.
+        if init_guess.iter().all(|&b| num_traits::Float::is_finite(b)) {
+            init_guess
+        } else {
+            Array1::<F>::zeros(data.x.ncols())
+        }
     }
 
     /// Do the regression and return a result. Returns object holding fit result.
-- 
2.43.0


From 4e55a5ca846ff973d6ead5dddf38fbf51aed5831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:13 +0000
Subject: [PATCH 02/35] fix: fall back to a flat initial guess inside the
 link's domain

Zero coefficients are outside the domain of the reciprocal links, so ridge
fits of rank-deficient data, which have a unique optimum, always failed.
---
 src/glm.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/glm.rs b/src/glm.rs
index 39d662d..f146854 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -144,19 +144,28 @@ pub trait Glm: Sized {
         } else {
             link_y
         };
+        // Fall back to a flat prediction, which has to stay inside the domain of the link function.
+        let flat_guess = || {
+            let mut flat = Array1::<F>::zeros(data.x.ncols());
+            let level = link_y.mean().unwrap_or_else(F::zero);
+            if data.has_intercept && num_traits::Float::is_finite(level) {
+                flat[0] = level;
+            }
+            flat
+        };
         let x_mat: Array2<F> = data.x_conj().dot(&data.x);
         let init_guess: Array1<F> = x_mat
             .solveh_into(data.x_conj().dot(&link_y))
             .unwrap_or_else(|err| {
-                eprintln!("WARNING: failed to get initial guess for IRLS. Will begin at zero.");
+                eprintln!("WARNING: failed to get initial guess for IRLS. Will begin flat.");
                 eprintln!("{err}");
-                Array1::<F>::zeros(data.x.ncols())
+                flat_guess()
             });
         // The link is infinite at the edge of the response range, e.g. if every response is at it.
         if init_guess.iter().all(|&b| num_traits::Float::is_finite(b)) {
             init_guess
         } else {
-            Array1::<F>::zeros(data.x.ncols())
+            flat_guess()
         }
     }
 
-- 
2.43.0


From cbed01a51dd0b043668c2073a5acac8726cb9ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:45 +0000
Subject: [PATCH 03/35] fix: never select an iteration step or starting point
 with an undefined likelihood

A NaN likelihood compared greater than every other in the choice of the best
step, and no step away from a starting point outside the link's domain was
ever accepted, so fits returned Ok with a NaN likelihood.
---
 src/glm.rs  | 10 ++++++++--
 src/irls.rs |  6 +++++-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/glm.rs b/src/glm.rs
index f146854..9fd1edc 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -6,7 +6,7 @@ use crate::irls::IrlsStep;
 use crate::link::{Link, Transform};
 use crate::{
     data::Dataset,
-    error::RegressionResult,
+    error::{RegressionError, RegressionResult},
     fit::{Fit, options::FitOptions},
     irls::Irls,
     model::Model,
@@ -191,9 +191,15 @@ pub trait Glm: Sized {
         // Collect the best guess along the way so we don't have to loop back through to make sure
         // we've got the optimum. The full history is stored in the IRLS structure.
         let optimum: IrlsStep<F> = process_results(irls.by_ref(), |iter| {
-            iter.max_by(|a, b| a.like.total_cmp(&b.like))
+            iter.filter(|step| !num_traits::Float::is_nan(step.like))
+                .max_by(|a, b| a.like.total_cmp(&b.like))
         })?
         .unwrap_or_else(|| irls.make_last_step());
+        if !num_traits::Float::is_finite(optimum.like) {
+            return Err(RegressionError::BadInput(
+                "The likelihood is not finite at the initial guess or any step from it".to_string(),
+            ));
+        }
 
         Ok(Fit::new(&model.data, optimum, irls))
     }
diff --git a/src/irls.rs b/src/irls.rs
index e036633..e30dda5 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -243,7 +243,11 @@ where
 
         // If this guess is a strict improvement, continue. If we're within convergence tolerance
         // at this stage, this will be the last step.
-        if next_like_obj > last_like_obj {
+        // Any valid guess is an improvement on one outside the domain of the link function.
+        let from_nan = num_traits::Float::is_nan(last_like_obj);
+        if next_like_obj > last_like_obj
+            || (from_nan && !num_traits::Float::is_nan(next_like_obj))
+        {
             return Some(self.step_with(next_guess, next_like_data));
         }
 
-- 
2.43.0


From 82d3b17efc1ff91a5de1f29b0e93cbb631500043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:49 +0000
Subject: [PATCH 04/35] fix: do not scale constant columns by their rounding
 error

A constant column such as 0.1 or 0.7 has a variance around 1e-34 rather than
zero; scaling by it let the column escape ridge and L1 penalties.
---
 src/data.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 82f7c0c..78a4deb 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -331,8 +331,13 @@ where
             vars * bias
         };
         // For columns with zero variance, don't scale.
-        let scales = vars
-            .mapv(|v| if v > F::zero() { v } else { F::one() })
+        // The mean of a constant column is subject to rounding, so its variance may not be exactly
+        // zero.
+        let mean_eps = F::epsilon() * F::from(n).unwrap();
+        let min_vars = means.mapv(|m| (m * mean_eps) * (m * mean_eps));
+        let scales = ndarray::Zip::from(&vars)
+            .and(&min_vars)
+            .map_collect(|&v, &v_min| if v > v_min { v } else { F::one() })
             .sqrt();
         // We need the actual means to compute the scales, but if we're not using the intercept,
         // the shifts should be returned to zero.
-- 
2.43.0


From a41ca62ac6a639a596e35c7cc5267cc5a3daf96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:52 +0000
Subject: [PATCH 05/35] fix: do not panic when only one observation has weight

Building a model with frequency weights like [1, 0], and loo_exact() with two
observations, hit an assertion on the effective sample size.
---
 src/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 78a4deb..6e6cb26 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -319,10 +319,10 @@ where
             x_w.sum_axis(Axis(0)) / sum_weights
         };
 
-        let vars: Array1<F> = if n <= 1 {
+        // The sample variance isn't defined with only one (effective) observation.
+        let vars: Array1<F> = if n <= 1 || n_eff <= F::one() {
             Array1::<F>::ones(p)
         } else {
-            assert!(n_eff > F::one());
             let dx = x - means.clone();
             let dx2: Array2<F> = dx.mapv_into(|d| d * d);
             let dx2_w = weights * dx2;
-- 
2.43.0


From 83f66e1bc9f0ee81c8ff0e79fc1bfda0b2e01c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:04 +0000
Subject: [PATCH 06/35] fix: start flat when that is better than the solved
 initial guess

---
 src/glm.rs  | 79 ++++++++++++++++++++++++++++++++++++++---------------
 src/irls.rs |  2 +-
 2 files changed, 58 insertions(+), 23 deletions(-)

diff --git a/src/glm.rs b/src/glm.rs
index 9fd1edc..8e3516c 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -2,7 +2,7 @@
 //! Models are fit such that $`<\mathbf{y}> = g^{-1}(\mathbf{X}*\mathbf{\beta})`$ where g is the
 //! link function.
 
-use crate::irls::IrlsStep;
+use crate::irls::{IrlsStep, get_reg};
 use crate::link::{Link, Transform};
 use crate::{
     data::Dataset,
@@ -123,6 +123,46 @@ pub trait Glm: Sized {
             .map_collect(|&y, &eta| Self::log_like_natural(y, eta))
     }
 
+    /// The link function of the responses averaged with their mean, g(0.5*(y + y_avg)), less the
+    /// linear offset.
+    fn shrunk_link<F: Float>(data: &Dataset<F>) -> Array1<F> {
+        let y_bar: F = data.y.mean().unwrap_or_else(F::zero);
+        let mu_y: Array1<F> = data.y.mapv(|y| F::half() * (y + y_bar));
+        let link_y = mu_y.mapv(Self::Link::func);
+        // Compensate for linear offsets if they are present
+        if let Some(off) = &data.linear_offset {
+            &link_y - off
+        } else {
+            link_y
+        }
+    }
+
+    /// The flat prediction to start from when there is no usable initial guess. The level with the
+    /// best likelihood is used because the average can be outside the domain of the link function
+    /// for some observations if there are offsets.
+    fn flat_guess<F: Float>(data: &Dataset<F>) -> Array1<F> {
+        let link_y = Self::shrunk_link(data);
+        let mut flat = Array1::<F>::zeros(data.x.ncols());
+        if !data.has_intercept {
+            return flat;
+        }
+        let mut best_like = F::neg_infinity();
+        for level in [
+            link_y.mean().unwrap_or_else(F::zero),
+            link_y.fold(F::infinity(), |a, &b| num_traits::Float::min(a, b)),
+            link_y.fold(F::neg_infinity(), |a, &b| num_traits::Float::max(a, b)),
+        ] {
+            let mut candidate = Array1::<F>::zeros(data.x.ncols());
+            candidate[0] = level;
+            let like = Self::log_like(data, &candidate);
+            if num_traits::Float::is_finite(level) && like > best_like {
+                best_like = like;
+                flat = candidate;
+            }
+        }
+        flat
+    }
+
     /// Provide an initial guess for the parameters. This can be overridden
     /// but this should provide a decent general starting point. The y data is
     /// averaged with its mean to prevent infinities resulting from application
@@ -135,37 +175,20 @@ pub trait Glm: Sized {
         F: Float,
         ArrayRef2<F>: SolveH<F>,
     {
-        let y_bar: F = data.y.mean().unwrap_or_else(F::zero);
-        let mu_y: Array1<F> = data.y.mapv(|y| F::half() * (y + y_bar));
-        let link_y = mu_y.mapv(Self::Link::func);
-        // Compensate for linear offsets if they are present
-        let link_y: Array1<F> = if let Some(off) = &data.linear_offset {
-            &link_y - off
-        } else {
-            link_y
-        };
-        // Fall back to a flat prediction, which has to stay inside the domain of the link function.
-        let flat_guess = || {
-            let mut flat = Array1::<F>::zeros(data.x.ncols());
-            let level = link_y.mean().unwrap_or_else(F::zero);
-            if data.has_intercept && num_traits::Float::is_finite(level) {
-                flat[0] = level;
-            }
-            flat
-        };
+        let link_y = Self::shrunk_link(data);
         let x_mat: Array2<F> = data.x_conj().dot(&data.x);
         let init_guess: Array1<F> = x_mat
             .solveh_into(data.x_conj().dot(&link_y))
             .unwrap_or_else(|err| {
                 eprintln!("WARNING: failed to get initial guess for IRLS. Will begin flat.");
                 eprintln!("{err}");
-                flat_guess()
+                Self::flat_guess(data)
             });
         // The link is infinite at the edge of the response range, e.g. if every response is at it.
         if init_guess.iter().all(|&b| num_traits::Float::is_finite(b)) {
             init_guess
         } else {
-            flat_guess()
+            Self::flat_guess(data)
         }
     }
 
@@ -184,7 +207,19 @@ pub trait Glm: Sized {
             // The guess is given in external space, so it should be mapped to the internal before
             // passing to IRLS.
             .map(|b| model.data.transform_beta(b))
-            .unwrap_or_else(|| Self::init_guess(&model.data));
+            .unwrap_or_else(|| {
+                // The solution for a singular design can be arbitrarily far off.
+                let guess = Self::init_guess(&model.data);
+                let flat = Self::flat_guess(&model.data);
+                let reg = get_reg(&options, guess.len(), model.data.has_intercept);
+                let like = |b: &Array1<F>| Self::log_like(&model.data, b) + reg.likelihood(b);
+                let guess_like = like(&guess);
+                if num_traits::Float::is_nan(guess_like) || like(&flat) > guess_like {
+                    flat
+                } else {
+                    guess
+                }
+            });
 
         let mut irls: Irls<Self, F> = Irls::new(model, initial, options);
 
diff --git a/src/irls.rs b/src/irls.rs
index e30dda5..3964eaf 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -318,7 +318,7 @@ where
 }
 
 /// Generate a regularizer from the set of options
-fn get_reg<F: Float>(
+pub(crate) fn get_reg<F: Float>(
     options: &FitOptions<F>,
     n: usize,
     use_intercept: bool,
-- 
2.43.0


From 9cd2ab9f13a45f0e84fc48227aa98a9778e207e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 07/35] fix: reject binomial counts above N and non-finite
 responses

---
 src/response/binomial.rs         |  3 +++
 src/response/exponential.rs      | 16 ++++++++--------
 src/response/gamma.rs            | 16 ++++++++--------
 src/response/inverse_gaussian.rs | 16 ++++++++--------
 src/response/linear.rs           |  4 +++-
 5 files changed, 30 insertions(+), 25 deletions(-)

diff --git a/src/response/binomial.rs b/src/response/binomial.rs
index c73f9cc..a00659b 100644
--- a/src/response/binomial.rs
+++ b/src/response/binomial.rs
@@ -21,6 +21,9 @@ pub struct Binomial<const N: BinDom>;
 
 impl<const N: BinDom> Yval<Binomial<N>> for BinDom {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
+        if self > N {
+            return Err(RegressionError::InvalidY(self.to_string()));
+        }
         F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
diff --git a/src/response/exponential.rs b/src/response/exponential.rs
index 2d6f572..ec8aa2f 100644
--- a/src/response/exponential.rs
+++ b/src/response/exponential.rs
@@ -30,10 +30,10 @@ where
     L: Link<Exponential<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
-            return Err(RegressionError::InvalidY(self.to_string()));
-        }
-        F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
+        // The value has to be representable in the floating point type of the model as well.
+        F::from(self)
+            .filter(|&y: &F| y > F::zero() && num_traits::Float::is_finite(y))
+            .ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
 impl<L> Yval<Exponential<L>> for f64
@@ -41,10 +41,10 @@ where
     L: Link<Exponential<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
-            return Err(RegressionError::InvalidY(self.to_string()));
-        }
-        F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
+        // The value has to be representable in the floating point type of the model as well.
+        F::from(self)
+            .filter(|&y: &F| y > F::zero() && num_traits::Float::is_finite(y))
+            .ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
 
diff --git a/src/response/gamma.rs b/src/response/gamma.rs
index bdcbec8..759c281 100644
--- a/src/response/gamma.rs
+++ b/src/response/gamma.rs
@@ -29,10 +29,10 @@ where
     L: Link<Gamma<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
-            return Err(RegressionError::InvalidY(self.to_string()));
-        }
-        F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
+        // The value has to be representable in the floating point type of the model as well.
+        F::from(self)
+            .filter(|&y: &F| y > F::zero() && num_traits::Float::is_finite(y))
+            .ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
 impl<L> Yval<Gamma<L>> for f64
@@ -40,10 +40,10 @@ where
     L: Link<Gamma<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
-            return Err(RegressionError::InvalidY(self.to_string()));
-        }
-        F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
+        // The value has to be representable in the floating point type of the model as well.
+        F::from(self)
+            .filter(|&y: &F| y > F::zero() && num_traits::Float::is_finite(y))
+            .ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
 
diff --git a/src/response/inverse_gaussian.rs b/src/response/inverse_gaussian.rs
index 2c26cbd..d775cd1 100644
--- a/src/response/inverse_gaussian.rs
+++ b/src/response/inverse_gaussian.rs
@@ -24,10 +24,10 @@ where
     L: Link<InvGaussian<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
-            return Err(RegressionError::InvalidY(self.to_string()));
-        }
-        F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
+        // The value has to be representable in the floating point type of the model as well.
+        F::from(self)
+            .filter(|&y: &F| y > F::zero() && num_traits::Float::is_finite(y))
+            .ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
 impl<L> Yval<InvGaussian<L>> for f64
@@ -35,10 +35,10 @@ where
     L: Link<InvGaussian<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        if self <= 0. {
-            return Err(RegressionError::InvalidY(self.to_string()));
-        }
-        F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
+        // The value has to be representable in the floating point type of the model as well.
+        F::from(self)
+            .filter(|&y: &F| y > F::zero() && num_traits::Float::is_finite(y))
+            .ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
 
diff --git a/src/response/linear.rs b/src/response/linear.rs
index bf8ca2c..e288264 100644
--- a/src/response/linear.rs
+++ b/src/response/linear.rs
@@ -29,7 +29,9 @@ where
     L: Link<Linear<L>>,
 {
     fn into_float<F: Float>(self) -> RegressionResult<F, F> {
-        F::from(self).ok_or_else(|| RegressionError::InvalidY(self.to_string()))
+        F::from(self)
+            .filter(|&y: &F| num_traits::Float::is_finite(y))
+            .ok_or_else(|| RegressionError::InvalidY(self.to_string()))
     }
 }
 
-- 
2.43.0


From a5bddc4560ce6bb34f10eb8d64aecb62e546b590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:17 +0000
Subject: [PATCH 08/35] fix: reject weights of the wrong length

---
 src/model.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/model.rs b/src/model.rs
index ffb561f..cd989d4 100644
--- a/src/model.rs
+++ b/src/model.rs
@@ -202,6 +202,17 @@ where
                 "Offsets must have same dimension as observations".to_string(),
             ));
         }
+        // Similarly for the weights, which would otherwise be broadcast if there is only one
+        for weights in [&self.var_weights, &self.freq_weights]
+            .into_iter()
+            .flatten()
+        {
+            if n_data != weights.len() {
+                return Err(RegressionError::BadInput(
+                    "Weights must have same dimension as observations".to_string(),
+                ));
+            }
+        }
 
         // Check if the data is under-constrained
         if n_data < self.data_x.ncols() {
-- 
2.43.0


From 8fc09644248e3ad34d73e2268c0c80f022b744ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:20 +0000
Subject: [PATCH 09/35] fix: don't overflow in the binomial log-partition and
 the cloglog natural parameter

---
 src/response/binomial.rs |  4 +++-
 src/response/logistic.rs | 10 +++++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/response/binomial.rs b/src/response/binomial.rs
index a00659b..d6e45d7 100644
--- a/src/response/binomial.rs
+++ b/src/response/binomial.rs
@@ -49,7 +49,9 @@ impl<const N: BinDom> Glm for Binomial<N> {
     /// that for logistic regression, but it is adjusted for the maximum value.
     fn log_partition<F: Float>(nat_par: F) -> F {
         let n: F = F::from(N).unwrap();
-        n * num_traits::Float::exp(nat_par).ln_1p()
+        // Exponentiate only non-positive numbers so that large parameters don't overflow
+        let exp_neg = num_traits::Float::exp(-num_traits::Float::abs(nat_par));
+        n * (num_traits::Float::max(nat_par, F::zero()) + exp_neg.ln_1p())
     }
 
     fn variance<F: Float>(mean: F) -> F {
diff --git a/src/response/logistic.rs b/src/response/logistic.rs
index d96904d..939aa32 100644
--- a/src/response/logistic.rs
+++ b/src/response/logistic.rs
@@ -145,7 +145,15 @@ pub mod link {
     }
     impl Transform for Cloglog {
         fn nat_param<F: Float>(lin_pred: Array1<F>) -> Array1<F> {
-            lin_pred.mapv(|x| num_traits::Float::ln(num_traits::Float::exp(x).exp_m1()))
+            lin_pred.mapv(|x| {
+                let exp_lin = num_traits::Float::exp(x);
+                if exp_lin > F::one() {
+                    // ln(e^t - 1) without overflowing
+                    exp_lin + (-num_traits::Float::exp(-exp_lin)).ln_1p()
+                } else {
+                    num_traits::Float::ln(exp_lin.exp_m1())
+                }
+            })
         }
         fn d_nat_param<F: Float>(lin_pred: &Array1<F>) -> Array1<F> {
             let neg_exp_lin = -lin_pred.mapv(num_traits::Float::exp);
-- 
2.43.0


From a88566f8857c713f81784eda4aebadc23a20de1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:24 +0000
Subject: [PATCH 10/35] fix: no negative deviance contributions from rounding

---
 src/fit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index c03d6d8..34bc01a 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -195,7 +195,9 @@ where
         self.dev_terms.get_or_init(|| {
             let ll_terms: Array1<F> = M::log_like_terms(self.data, &self.result_std);
             let ll_sat: Array1<F> = self.data.y.mapv(M::log_like_sat);
-            let terms = (ll_sat - ll_terms) * F::two();
+            // These can't be negative, apart from rounding error where the fit is saturated.
+            let terms = ((ll_sat - ll_terms) * F::two())
+                .mapv_into(|d| if d < F::zero() { F::zero() } else { d });
             self.data.apply_var_weights(terms)
         })
     }
-- 
2.43.0


From 8c9b98dce108cab667f8c8c0911c742a619eab40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:50 +0000
Subject: [PATCH 11/35] fix: R^2 of regularized fits is the deviance ratio

---
 src/fit.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index 34bc01a..965fb09 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -973,7 +973,9 @@ where
     // NOTE: that this implementation would be valid as a pseudo-$`R^2`$ for all GLMs, but it's
     // mostly expected in the OLS context and probably wouldn't add much.
     pub fn r_sq(&self) -> F {
-        let lr = self.lr_test();
+        // The deviance doesn't include the regularization so it can't be part of the ratio.
+        let like = <Linear>::log_like(self.data, &self.result_std);
+        let lr = F::two() * (like - self.null_like());
         lr / (lr + self.deviance())
     }
 
-- 
2.43.0


From 84e92caca65e07ab4b44d9ccc42f77e75ce6885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:55 +0000
Subject: [PATCH 12/35] fix: leave the ADMM augmentation out of the Fisher
 information

---
 src/fit.rs            |  2 +-
 src/regularization.rs | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index 965fb09..d362c11 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -332,7 +332,7 @@ where
     /// coefficients. The regularization is included here.
     fn fisher_std(&self, params: &Array1<F>) -> Array2<F> {
         let fisher = self.fisher_data_std(params);
-        self.reg.as_ref().irls_mat(fisher, params)
+        self.reg.as_ref().fisher_mat(fisher, params)
     }
 
     /// The inverse of the (regularized) fisher information matrix, in the internal standardized
diff --git a/src/regularization.rs b/src/regularization.rs
index f9b7ba3..4140cf5 100644
--- a/src/regularization.rs
+++ b/src/regularization.rs
@@ -38,6 +38,12 @@ where
     /// typically only on the diagonal.
     fn irls_mat(&self, mat: Array2<F>, regressors: &Array1<F>) -> Array2<F>;
 
+    /// Defines the contribution of the penalty's curvature to the Fisher information. Unlike
+    /// irls_mat(), this must not include terms that only serve the iteration.
+    fn fisher_mat(&self, mat: Array2<F>, regressors: &Array1<F>) -> Array2<F> {
+        self.irls_mat(mat, regressors)
+    }
+
     /// Return the next guess under regularization given the current guess and the RHS and LHS of
     /// the unregularized IRLS matrix solution equation for the next guess.
     fn next_guess(
@@ -218,6 +224,11 @@ impl<F: Float> IrlsReg<F> for Lasso<F> {
         mat
     }
 
+    /// The L1 penalty has no curvature, and the augmentation is not part of the model.
+    fn fisher_mat(&self, mat: Array2<F>, _: &Array1<F>) -> Array2<F> {
+        mat
+    }
+
     fn terminate_ok(&self, tol: F) -> bool {
         // Expressed like this, it should perhaps instead be an epsilon^2.
         let n: usize = self.dual.len();
@@ -333,6 +344,13 @@ impl<F: Float> IrlsReg<F> for ElasticNet<F> {
         mat
     }
 
+    /// Only the L2 penalty has curvature, and the augmentation is not part of the model.
+    fn fisher_mat(&self, mut mat: Array2<F>, _: &Array1<F>) -> Array2<F> {
+        let mut mat_diag: ArrayViewMut1<F> = mat.diag_mut();
+        mat_diag += &self.l2_vec;
+        mat
+    }
+
     fn terminate_ok(&self, tol: F) -> bool {
         // Expressed like this, it should perhaps instead be an epsilon^2.
         let n: usize = self.dual.len();
-- 
2.43.0


From b095d87d5c2a12af98605ea2442a005ec395eb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:59 +0000
Subject: [PATCH 13/35] fix: reduced models of models without an intercept
 don't have one either

---
 src/fit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index d362c11..f56658b 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1025,7 +1025,7 @@ where
             linear_offset: self.data.linear_offset.clone(),
             weights: self.data.weights.clone(),
             freqs: self.data.freqs.clone(),
-            has_intercept: !is_intercept,
+            has_intercept: self.data.has_intercept && !is_intercept,
             // It shouldn't be necessary to standardize again. Each individual column should
             // already be standardized, if the full dataset was.
             standardizer: None,
-- 
2.43.0


From 0ccacef674bcf1e4fd129b984607566535e0c0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:03 +0000
Subject: [PATCH 14/35] fix: exact p-values of models with a single parameter

---
 src/fit.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/fit.rs b/src/fit.rs
index f56658b..bd5d161 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1030,6 +1030,12 @@ where
             // already be standardized, if the full dataset was.
             standardizer: None,
         };
+        if data_reduced.x.is_empty() {
+            // There are no parameters left to fit.
+            let like = M::log_like(&data_reduced, &Array1::zeros(0));
+            let like_sat = data_reduced.weighted_sum(&self.data.y.mapv(M::log_like_sat));
+            return Ok(F::two() * (like_sat - like));
+        }
         let model_reduced = Model {
             model: PhantomData::<M>,
             data: data_reduced,
-- 
2.43.0


From 952b8c7311b54e4830b48d09a2080daefcd9d439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:07 +0000
Subject: [PATCH 15/35] fix: ignore initial guesses outside the link's domain

---
 src/glm.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/glm.rs b/src/glm.rs
index 8e3516c..86faed1 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -207,6 +207,8 @@ pub trait Glm: Sized {
             // The guess is given in external space, so it should be mapped to the internal before
             // passing to IRLS.
             .map(|b| model.data.transform_beta(b))
+            // A guess outside of the domain of the link function is no use as a start.
+            .filter(|b| num_traits::Float::is_finite(Self::log_like(&model.data, b)))
             .unwrap_or_else(|| {
                 // The solution for a singular design can be arbitrarily far off.
                 let guess = Self::init_guess(&model.data);
-- 
2.43.0


From 3eb572435b0e452ecd128bb03599b4cb263bf570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:40 +0000
Subject: [PATCH 16/35] fix: don't panic when the null model has no maximum
 within the iteration limit

---
 src/fit.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index bd5d161..732f55c 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -7,7 +7,7 @@ use crate::response::Response;
 use crate::{
     Linear,
     data::{Dataset, one_pad},
-    error::RegressionResult,
+    error::{RegressionError, RegressionResult},
     glm::{DispersionType, Glm},
     irls::{Irls, IrlsStep},
     link::{Link, Transform},
@@ -624,26 +624,33 @@ where
                                 standardizer: None,
                             },
                         };
-                        // TODO: Make this function return an error, although it's
-                        // difficult to imagine this case happening.
+                        // TODO: Make this function return an error.
                         // TODO: Should the tolerance of this fit be stricter?
                         // The intercept should not be regularized
-                        let null_fit = null_model
+                        let (null_like, null_intercept) = match null_model
                             .fit_options()
                             // There shouldn't be too much trouble fitting this
-                            // single-parameter fit, but there shouldn't be harm in
-                            // using the same maximum as in the original model.
-                            .max_iter(self.options.max_iter)
+                            // single-parameter fit, so the limit of the original model, which
+                            // could be too strict for it, isn't used.
                             .fit()
-                            .expect("Could not fit null model!");
-                        let null_params: Array1<F> = {
-                            let mut par = Array1::<F>::zeros(self.n_par);
+                        {
                             // there is only one parameter in this fit. It should be the same as
                             // the external result since this model doesn't have standardization.
-                            par[0] = null_fit.result_std[0];
+                            Ok(null_fit) => (null_fit.model_like, null_fit.result_std[0]),
+                            // Without a maximum, e.g. if all responses are at the edge of their
+                            // range, the last step is as close as it gets.
+                            Err(RegressionError::MaxIter { history, .. }) if !history.is_empty() => {
+                                let last = &history[history.len() - 1];
+                                (last.like, last.guess[0])
+                            }
+                            Err(_) => (F::nan(), F::nan()),
+                        };
+                        let null_params: Array1<F> = {
+                            let mut par = Array1::<F>::zeros(self.n_par);
+                            par[0] = null_intercept;
                             par
                         };
-                        (null_fit.model_like, null_params)
+                        (null_like, null_params)
                     } else {
                         // If the intercept is fixed to zero, then no minimization is
                         // required. The natural parameters are directly known in terms
-- 
2.43.0


From 1842351aec696fd7697ec5fe29f750742b0f99e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:44 +0000
Subject: [PATCH 17/35] fix: don't panic computing p-values of saturated models

---
 src/fit.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/fit.rs b/src/fit.rs
index 732f55c..793fe33 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1119,6 +1119,10 @@ where
             DispersionType::FreeDispersion => {
                 use statrs::distribution::StudentsT;
                 let df = self.ndf().to_f64().unwrap();
+                if df <= 0.0 {
+                    // There is no reference distribution for a saturated model.
+                    return Ok(Array1::from_elem(self.n_par, F::nan()));
+                }
                 let t_dist = StudentsT::new(0.0, 1.0, df).unwrap();
                 z.mapv(|zi| {
                     let abs_z = num_traits::Float::abs(zi).to_f64().unwrap();
@@ -1145,6 +1149,10 @@ where
         let dev_full = self.deviance();
         let phi_full = self.dispersion();
         let ndf_f64 = self.ndf().to_f64().unwrap();
+        if matches!(M::DISPERSED, DispersionType::FreeDispersion) && ndf_f64 <= 0.0 {
+            // There is no reference distribution for a saturated model.
+            return Ok(Array1::from_elem(n_par, F::nan()));
+        }
         let mut pvals = Array1::<F>::zeros(n_par);
         for k in 0..n_par {
             let dev_reduced = self.dev_without_covariate(k)?;
-- 
2.43.0


From 153580ec9b0a56574ff397bb15429e29d65b1a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 18/35] fix: don't panic for gamma quantile residuals with
 infinite dispersion

---
 src/response/gamma.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/response/gamma.rs b/src/response/gamma.rs
index 759c281..ad44355 100644
--- a/src/response/gamma.rs
+++ b/src/response/gamma.rs
@@ -58,7 +58,8 @@ where
         // Clamp phi to be no lower than epsilon ~2e-16. This will avoid overflows for
         // overspecified models. f64::MAX_POSITIVE would probably be overkill and might lead to
         // infinite values.
-        let alpha = 1. / phi.max(f64::EPSILON);
+        // Conversely, an infinite dispersion must not give a shape of zero.
+        let alpha = (1. / phi.max(f64::EPSILON)).max(f64::MIN_POSITIVE);
         // mu = alpha / beta
         let beta = alpha / mu;
         let beta = beta.clamp(f64::MIN_POSITIVE, f64::MAX);
-- 
2.43.0


From 031ac9250cd8103388a0b5627aab464c900340ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:10 +0000
Subject: [PATCH 19/35] fix: don't panic for p-values of perfect fits

---
 src/fit.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 793fe33..ce6873e 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1126,6 +1126,10 @@ where
                 let t_dist = StudentsT::new(0.0, 1.0, df).unwrap();
                 z.mapv(|zi| {
                     let abs_z = num_traits::Float::abs(zi).to_f64().unwrap();
+                    // The statistic is undefined where both it and its error vanish.
+                    if abs_z.is_nan() {
+                        return F::nan();
+                    }
                     F::from(2.0 * t_dist.sf(abs_z)).unwrap()
                 })
             }
@@ -1166,9 +1170,14 @@ where
                 }
                 DispersionType::FreeDispersion => {
                     use statrs::distribution::FisherSnedecor;
-                    let f_stat = delta_d / phi_full;
+                    let f_stat = (delta_d / phi_full).to_f64().unwrap();
                     let f_dist = FisherSnedecor::new(1.0, ndf_f64).unwrap();
-                    f_dist.sf(f_stat.to_f64().unwrap())
+                    // The statistic is undefined if nothing is left to compare.
+                    if f_stat.is_nan() {
+                        f64::NAN
+                    } else {
+                        f_dist.sf(f_stat)
+                    }
                 }
             };
             pvals[k] = F::from(p).unwrap();
-- 
2.43.0


From 4b7b026089b3dd0de5a54c1fff5b75b2e3058851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:02 +0000
Subject: [PATCH 20/35] fix: start reduced fits from the default guess if that
 is better

---
 src/fit.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index ce6873e..e3d8fed 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1043,10 +1043,6 @@ where
             let like_sat = data_reduced.weighted_sum(&self.data.y.mapv(M::log_like_sat));
             return Ok(F::two() * (like_sat - like));
         }
-        let model_reduced = Model {
-            model: PhantomData::<M>,
-            data: data_reduced,
-        };
         // Start with the non-excluded parameters at the values from the main fit.
         let init_guess = if is_intercept {
             // For the intercept term, we need to use the original unscaled data, or else the
@@ -1062,9 +1058,24 @@ where
                 self.result_std.slice(s![i + 1..])
             ]
         };
+        // Without the excluded parameter the remaining ones can be very far off, for instance when
+        // the covariates are not centered.
+        let like = M::log_like(&data_reduced, &init_guess);
+        let is_better = |b: &Array1<F>| M::log_like(&data_reduced, b) > like;
+        let init_guess = if is_better(&M::init_guess(&data_reduced))
+            || is_better(&M::flat_guess(&data_reduced))
+        {
+            None
+        } else {
+            Some(init_guess)
+        };
+        let model_reduced = Model {
+            model: PhantomData::<M>,
+            data: data_reduced,
+        };
         let fit_options = {
             let mut fit_options = self.options.clone();
-            fit_options.init_guess = Some(init_guess);
+            fit_options.init_guess = init_guess;
             fit_options
         };
         let fit_reduced = model_reduced.with_options(fit_options).fit()?;
-- 
2.43.0


From 2cdc464f4d6e5e07cf6d4b676dd6ceb2ddd4fa7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:08 +0000
Subject: [PATCH 21/35] fix: search ADMM steps on their own objective and never
 leave the link's domain

---
 src/irls.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/irls.rs b/src/irls.rs
index 3964eaf..d585551 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -213,9 +213,17 @@ where
 
         // If the regularization isn't convergent (which should only happen with ADMM in
         // L1/ElasticNet), precision tolerance checks don't matter and we should continue on with
-        // the iteration.
-        if !self.reg.terminate_ok(self.options.tol) {
-            return Some(self.step_with(next_guess, next_like_data));
+        // the iteration, unless the step overshot and possibly left the domain of the link.
+        let reg_converged = self.reg.terminate_ok(self.options.tol);
+        if !reg_converged {
+            let slack = num_traits::Float::sqrt(F::epsilon())
+                * (F::one() + num_traits::Float::abs(last_like_obj));
+            let overshot = num_traits::Float::is_finite(last_like_obj)
+                && (num_traits::Float::is_nan(next_like_obj)
+                    || next_like_obj < last_like_obj - slack);
+            if !overshot {
+                return Some(self.step_with(next_guess, next_like_data));
+            }
         }
 
         // If the next guess is literally equal to the last, then additional IRLS or step-halving
@@ -235,7 +243,8 @@ where
         // If ADMM hasn't converged, we've already iterated to the next step, so we don't need to
         // check self.reg.terminate_ok() again.
         let n_obs = F::from(self.data.y.len()).unwrap();
-        if small_delta(next_like_obj, last_like_obj, self.options.tol * n_obs)
+        if reg_converged
+            && small_delta(next_like_obj, last_like_obj, self.options.tol * n_obs)
             && small_delta_vec(&next_guess, &self.guess, self.options.tol)
         {
             self.done = true;
@@ -257,17 +266,17 @@ where
         // next_guess != self.guess because we've already checked that case above.
         let f_step = |x: F| {
             let b = &next_guess * x + &self.guess * (F::one() - x);
-            // The augmented and unaugmented checks should be close to equivalent at this point
-            // because the regularization has reported that the internals have converged via
-            // `terminate_ok()`. Since we are potentially finding the final best guess, look for
-            // the best model likelihood in the step search.
-            // NOTE: It's possible there are some edge cases with an inconsistency, given that the
-            // checks above use the augmented likelihood and this checks directly.
-            M::log_like(self.data, &b) + self.reg.likelihood(&b) // unaugmented
-            // M::log_like(self.data, &b) + self.reg.irls_like(&b) // augmented
+            // Under ADMM this must be the same augmented objective that the step was solved for,
+            // as the direction is not generally an ascent of the model likelihood.
+            M::log_like(self.data, &b) + self.reg.irls_like(&b)
         };
         let beta_tol_factor = num_traits::Float::sqrt(self.guess.mapv(|b| F::one() + b * b).sum());
         let step_mult: F = step_scale(&f_step, beta_tol_factor * self.options.tol);
+        if step_mult.is_zero() && !reg_converged {
+            // The guess is as good as it gets until the regularization moves on.
+            let (guess, like) = (self.guess.clone(), self.last_like_data);
+            return Some(self.step_with(guess, like));
+        }
         if step_mult.is_zero() {
             // can't find a strictly better minimum if the step multiplier returns zero
             return None;
-- 
2.43.0


From 680c9df2b251df7c638c24bce238796b3abd5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:10 +0000
Subject: [PATCH 22/35] fix: don't return an L1 fit the iteration moved away
 from

---
 src/glm.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/glm.rs b/src/glm.rs
index 86faed1..698769d 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -238,6 +238,17 @@ pub trait Glm: Sized {
             ));
         }
 
+        // Without an L1 penalty the last step is the best, but ADMM can pass by a better one on its
+        // way to wherever it converges to, e.g. outside the domain of the link.
+        let last_like = irls.make_last_step().like;
+        let slack = num_traits::Float::sqrt(num_traits::Float::sqrt(F::epsilon()))
+            * (F::one() + num_traits::Float::abs(optimum.like));
+        if num_traits::Float::is_nan(last_like) || last_like < optimum.like - slack {
+            return Err(RegressionError::BadInput(
+                "The iteration did not converge to the best step".to_string(),
+            ));
+        }
+
         Ok(Fit::new(&model.data, optimum, irls))
     }
 }
-- 
2.43.0


From 2f83b01dd554abd15764b2b9e8d4723682285e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:56 +0000
Subject: [PATCH 23/35] fix: don't take seconds per quantile residual of a
 perfect gamma fit

---
 src/response/gamma.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/response/gamma.rs b/src/response/gamma.rs
index ad44355..1eab757 100644
--- a/src/response/gamma.rs
+++ b/src/response/gamma.rs
@@ -55,11 +55,11 @@ where
     type DistributionType = GammaDist;
 
     fn get_distribution(mu: f64, phi: f64) -> Self::DistributionType {
-        // Clamp phi to be no lower than epsilon ~2e-16. This will avoid overflows for
-        // overspecified models. f64::MAX_POSITIVE would probably be overkill and might lead to
-        // infinite values.
+        // Clamp phi to avoid overflows for overspecified models. The evaluation of the CDF takes
+        // O(sqrt(alpha)) steps and loses O(alpha * epsilon) in accuracy, so a larger shape only
+        // costs time.
         // Conversely, an infinite dispersion must not give a shape of zero.
-        let alpha = (1. / phi.max(f64::EPSILON)).max(f64::MIN_POSITIVE);
+        let alpha = (1. / phi.max(1e-10)).max(f64::MIN_POSITIVE);
         // mu = alpha / beta
         let beta = alpha / mu;
         let beta = beta.clamp(f64::MIN_POSITIVE, f64::MAX);
-- 
2.43.0


From 73201c3a03ee50c62c0b1f75afb545392fce06d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:17 +0000
Subject: [PATCH 24/35] fix: don't let observations without weight poison the
 fit

An observation with zero weight outside the domain of the link function made
the likelihood NaN, so it restricted a fit it isn't part of.
---
 src/data.rs | 25 +++++++++++++++++++++++--
 src/fit.rs  |  6 ++++--
 src/glm.rs  |  2 +-
 src/irls.rs |  2 ++
 4 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/data.rs b/src/data.rs
index 6e6cb26..647d12b 100644
--- a/src/data.rs
+++ b/src/data.rs
@@ -94,11 +94,32 @@ where
         }
     }
 
+    /// Zero the elements for observations without any weight. These don't contribute to the fit, so
+    /// they mustn't spoil it where they are outside the domain of the link function.
+    pub(crate) fn mask_weightless(&self, mut rhs: Array1<F>) -> Array1<F> {
+        for weights in [&self.freqs, &self.weights].into_iter().flatten() {
+            rhs.zip_mut_with(weights, |r, w| {
+                if w.is_zero() {
+                    *r = F::zero();
+                }
+            });
+        }
+        rhs
+    }
+
+    /// Multiply the input by weights, where zero weight times anything is zero.
+    fn apply_weights(weights: &Array1<F>, mut rhs: Array1<F>) -> Array1<F> {
+        rhs.zip_mut_with(weights, |r, &w| {
+            *r = if w.is_zero() { w } else { w * *r };
+        });
+        rhs
+    }
+
     /// Multiply the input by the frequency weights
     pub(crate) fn apply_freq_weights(&self, rhs: Array1<F>) -> Array1<F> {
         match &self.freqs {
             None => rhs,
-            Some(f) => f * rhs,
+            Some(f) => Self::apply_weights(f, rhs),
         }
     }
 
@@ -110,7 +131,7 @@ where
     pub(crate) fn apply_var_weights(&self, rhs: Array1<F>) -> Array1<F> {
         match &self.weights {
             None => rhs,
-            Some(w) => w * rhs,
+            Some(w) => Self::apply_weights(w, rhs),
         }
     }
 
diff --git a/src/fit.rs b/src/fit.rs
index e3d8fed..963cc44 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -325,6 +325,7 @@ where
     fn fisher_data_std(&self, params: &Array1<F>) -> Array2<F> {
         let lin_pred: Array1<F> = self.data.linear_predictor_std(params);
         let adj_var: Array1<F> = M::adjusted_variance_diag(&lin_pred);
+        let adj_var = self.data.mask_weightless(adj_var);
         (self.data.x_conj() * &adj_var).dot(&self.data.x)
     }
 
@@ -372,7 +373,7 @@ where
 
             // the GLM variance and the data weights are put on different sides in this convention
             let left = (var * &eta_d).insert_axis(Axis(1)) * &self.data.x;
-            let right = self.data.x_conj() * &eta_d;
+            let right = self.data.x_conj() * &self.data.mask_weightless(eta_d);
             Ok(left.dot(&fisher_inv.dot(&right)))
         })
     }
@@ -392,7 +393,7 @@ where
         let resid_resp = self.resid_resp();
         let omh = -self.leverage()? + F::one();
         let resid_adj = M::Link::adjust_errors(resid_resp, &self.x_lin_pred) / omh;
-        let xte = self.data.x_conj_ext() * resid_adj;
+        let xte = self.data.x_conj_ext() * self.data.mask_weightless(resid_adj);
         let fisher_inv = self.fisher_inv()?;
         let delta_b = xte.t().dot(fisher_inv);
         Ok(delta_b)
@@ -873,6 +874,7 @@ where
         let mu: Array1<F> = M::mean(&lin_pred);
         let resid_response = &self.data.y - mu;
         let resid_working = M::Link::adjust_errors(resid_response, &lin_pred);
+        let resid_working = self.data.mask_weightless(resid_working);
         let score_int = self.data.x_conj().dot(&resid_working);
         let score_int_reg = self.reg.as_ref().gradient(score_int, &params_std);
         self.data.inverse_transform_score(score_int_reg)
diff --git a/src/glm.rs b/src/glm.rs
index 698769d..a29244e 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -175,7 +175,7 @@ pub trait Glm: Sized {
         F: Float,
         ArrayRef2<F>: SolveH<F>,
     {
-        let link_y = Self::shrunk_link(data);
+        let link_y = data.mask_weightless(Self::shrunk_link(data));
         let x_mat: Array2<F> = data.x_conj().dot(&data.x);
         let init_guess: Array1<F> = x_mat
             .solveh_into(data.x_conj().dot(&link_y))
diff --git a/src/irls.rs b/src/irls.rs
index d585551..9e9b9bc 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -129,6 +129,8 @@ where
         // the link function. With the canonical link function, this is a no-op.
         let (errors, var_diag) =
             M::Link::adjust_errors_variance(errors, var_diag, &linear_predictor);
+        let errors = self.data.mask_weightless(errors);
+        let var_diag = self.data.mask_weightless(var_diag);
 
         // condition after the adjustment in case the derivatives are zero. Or
         // should the Hessian itself be conditioned?
-- 
2.43.0


From ac9db467cba1c1be52b7769d771fa0c6b242b0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:07 +0000
Subject: [PATCH 25/35] fix: don't step right next to the edge of the link's
 domain

A step could improve the likelihood and still come down where the variance
diverges, and the fit claimed to have converged there.
---
 src/irls.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/irls.rs b/src/irls.rs
index 9e9b9bc..ac13dc8 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -259,6 +259,23 @@ where
         if next_like_obj > last_like_obj
             || (from_nan && !num_traits::Float::is_nan(next_like_obj))
         {
+            // A step can improve the likelihood and still come down right next to the edge of the
+            // domain of the link, where the variance diverges and the iteration would be stuck.
+            let max_variance = |b: &Array1<F>| {
+                let var = M::adjusted_variance_diag(&self.data.linear_predictor_std(b));
+                let var = self.data.mask_weightless(var);
+                var.fold(F::zero(), |a, &v| num_traits::Float::max(a, v))
+            };
+            if max_variance(&next_guess) * num_traits::Float::sqrt(F::epsilon())
+                > max_variance(&self.guess)
+            {
+                let damped = (&next_guess + &self.guess) * F::half();
+                let damped_like_data = M::log_like(self.data, &damped);
+                if damped_like_data + self.reg.irls_like(&damped) > last_like_obj {
+                    self.done = false;
+                    return Some(self.step_with(damped, damped_like_data));
+                }
+            }
             return Some(self.step_with(next_guess, next_like_data));
         }
 
-- 
2.43.0


From 81c1814ae7d1da7e9a06c9ab8b038dcad7afd309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:57 +0000
Subject: [PATCH 26/35] fix: start leave-one-out fits from the default guess if
 that is better

---
 src/fit.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 963cc44..d9e365d 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -442,16 +442,22 @@ where
                 );
                 data_i
             };
+            // The one-step approximation should be a good starting point, unless the observation has
+            // too much influence.
+            let init_guess = Some(loo_initial.row(i).to_owned()).filter(|guess| {
+                let like = M::log_like(&data_i, &data_i.transform_beta(guess.clone()));
+                let is_better = |b: &Array1<F>| M::log_like(&data_i, b) > like;
+                !is_better(&M::init_guess(&data_i)) && !is_better(&M::flat_guess(&data_i))
+            });
             let model_i = Model {
                 model: PhantomData::<M>,
                 data: data_i,
             };
             let options = {
                 let mut options = self.options.clone();
-                // The one-step approximation should be a good starting point.
                 // Use the external result as it should be re-standardized to the new dataset
                 // internally before being passed to IRLS.
-                options.init_guess = Some(loo_initial.row(i).to_owned());
+                options.init_guess = init_guess;
                 options
             };
             let fit_i = model_i.with_options(options).fit()?;
-- 
2.43.0


From 0bd97e813ec929a7cc5aee9f10068c7e53199b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:16 +0000
Subject: [PATCH 27/35] fix: terminate when only a step within tolerance can be
 improved upon

---
 src/irls.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/irls.rs b/src/irls.rs
index ac13dc8..a3dea33 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -305,6 +305,15 @@ where
         let next_guess = &next_guess * step_mult + &self.guess * (F::one() - step_mult);
         let next_like_data = M::log_like(self.data, &next_guess);
 
+        // If the full step is only rounding noise, the rest would be crawling along it.
+        let next_like_obj = next_like_data + self.reg.irls_like(&next_guess);
+        if reg_converged
+            && small_delta(next_like_obj, last_like_obj, self.options.tol * n_obs)
+            && small_delta_vec(&next_guess, &self.guess, self.options.tol)
+        {
+            self.done = true;
+        }
+
         Some(self.step_with(next_guess, next_like_data))
     }
 }
-- 
2.43.0


From b4f48d881fc516dcfb17b2d9db504171ecfd4dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:58 +0000
Subject: [PATCH 28/35] fix: the history of the max-iterations error is on the
 external scale

---
 src/glm.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/glm.rs b/src/glm.rs
index a29244e..c95bb83 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -230,6 +230,20 @@ pub trait Glm: Sized {
         let optimum: IrlsStep<F> = process_results(irls.by_ref(), |iter| {
             iter.filter(|step| !num_traits::Float::is_nan(step.like))
                 .max_by(|a, b| a.like.total_cmp(&b.like))
+        })
+        .map_err(|err| match err {
+            // The history is public, so like that of a Fit it must be on the external scale.
+            RegressionError::MaxIter { n_iter, history } => RegressionError::MaxIter {
+                n_iter,
+                history: history
+                    .into_iter()
+                    .map(|IrlsStep { guess, like }| IrlsStep {
+                        guess: model.data.inverse_transform_beta(guess),
+                        like,
+                    })
+                    .collect(),
+            },
+            err => err,
         })?
         .unwrap_or_else(|| irls.make_last_step());
         if !num_traits::Float::is_finite(optimum.like) {
-- 
2.43.0


From 0c5c89e73788d783285e1cf054531488cc1d5469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:55 +0000
Subject: [PATCH 29/35] fix: ignore initial guesses at the edge of the link's
 domain

---
 src/glm.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/glm.rs b/src/glm.rs
index c95bb83..581ce41 100644
--- a/src/glm.rs
+++ b/src/glm.rs
@@ -207,8 +207,15 @@ pub trait Glm: Sized {
             // The guess is given in external space, so it should be mapped to the internal before
             // passing to IRLS.
             .map(|b| model.data.transform_beta(b))
-            // A guess outside of the domain of the link function is no use as a start.
-            .filter(|b| num_traits::Float::is_finite(Self::log_like(&model.data, b)))
+            // A guess outside of the domain of the link function is no use as a start, and neither
+            // is one at its edge, where the variance diverges.
+            .filter(|b| {
+                let lin_pred = model.data.linear_predictor_std(b);
+                let var = Self::adjusted_variance_diag(&lin_pred);
+                let mut var = model.data.mask_weightless(var).into_iter();
+                var.all(num_traits::Float::is_finite)
+                    && num_traits::Float::is_finite(Self::log_like(&model.data, b))
+            })
             .unwrap_or_else(|| {
                 // The solution for a singular design can be arbitrarily far off.
                 let guess = Self::init_guess(&model.data);
-- 
2.43.0


From ed403df62f40bc7efe0ccf61e67a8276e039eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:11 +0000
Subject: [PATCH 30/35] fix: end the step search with a tolerance of zero

---
 src/irls.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/irls.rs b/src/irls.rs
index a3dea33..3bdb0af 100644
--- a/src/irls.rs
+++ b/src/irls.rs
@@ -390,7 +390,11 @@ pub(crate) fn get_reg<F: Float>(
 /// found to be a strict improvement.
 /// If none are found, it will check a single negative step.
 fn step_scale<F: Float>(f: &dyn Fn(F) -> F, tol: F) -> F {
-    let tol = num_traits::Float::abs(tol);
+    // The scale never gets below the smallest subnormal number, so it can't be compared with zero.
+    let tol = num_traits::Float::max(
+        num_traits::Float::abs(tol),
+        num_traits::Float::min_positive_value(),
+    );
     // TODO: Add list of values to explicitly try (for instance with zeroed parameters)
 
     let zero: F = F::zero();
-- 
2.43.0


From 088f9faed3ab82e0a51f9809072887fa1f4e7530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:59 +0000
Subject: [PATCH 31/35] fix: don't panic for exact p-values of models without
 data

---
 src/fit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index d9e365d..cc9d09d 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1045,7 +1045,7 @@ where
             // already be standardized, if the full dataset was.
             standardizer: None,
         };
-        if data_reduced.x.is_empty() {
+        if data_reduced.x.ncols() == 0 {
             // There are no parameters left to fit.
             let like = M::log_like(&data_reduced, &Array1::zeros(0));
             let like_sat = data_reduced.weighted_sum(&self.data.y.mapv(M::log_like_sat));
-- 
2.43.0


From d1970331062814827f52105e3dfaf5ab2b328ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:11 +0000
Subject: [PATCH 32/35] fix: gamma quantile residuals far below the mean and
 quantile residuals at the ends of the float range

---
 src/fit.rs                  | 10 ++++++++--
 src/response.rs             | 10 +++++++++-
 src/response/exponential.rs |  2 +-
 src/response/gamma.rs       | 14 ++++++++++++++
 4 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index cc9d09d..44359b7 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1249,10 +1249,16 @@ where
             .and(&mu)
             .and(&phi_i)
             .map_collect(|y, &mu, &phi_i| {
-                let dist = M::get_distribution(mu, phi_i);
+                // The fitted mean of an observation without weight may not exist.
+                if mu.is_nan() {
+                    return F::nan();
+                }
                 // This variable should be standard-uniform distributed under data following the model
                 // assumption
-                let f = dist.cdf(y.to_f64().unwrap());
+                let f = M::cdf(y.to_f64().unwrap(), mu, phi_i);
+                if f.is_nan() {
+                    return F::nan();
+                }
                 F::from_f64(std_norm.inverse_cdf(f)).unwrap()
             })
     }
diff --git a/src/response.rs b/src/response.rs
index 9169d71..e19cae9 100644
--- a/src/response.rs
+++ b/src/response.rs
@@ -2,7 +2,7 @@
 
 use crate::{error::RegressionResult, glm::Glm, num::Float};
 #[cfg(feature = "stats")]
-use statrs::statistics::Distribution;
+use statrs::{distribution::ContinuousCDF, statistics::Distribution};
 
 pub mod binomial;
 pub mod exponential;
@@ -29,4 +29,12 @@ pub trait Response {
     /// Get the response distribution in terms of an expected mean, and possibly measured
     /// dispersion parameter. Families without free dispersion will not use the phi parameter.
     fn get_distribution(mu: f64, phi: f64) -> Self::DistributionType;
+
+    /// The cumulative distribution function of this distribution at `y`.
+    fn cdf(y: f64, mu: f64, phi: f64) -> f64
+    where
+        Self::DistributionType: ContinuousCDF<f64, f64>,
+    {
+        Self::get_distribution(mu, phi).cdf(y)
+    }
 }
diff --git a/src/response/exponential.rs b/src/response/exponential.rs
index ec8aa2f..ca4a719 100644
--- a/src/response/exponential.rs
+++ b/src/response/exponential.rs
@@ -62,7 +62,7 @@ where
         // Distribution<f64> and ContinuousCDF<f64> calls, the simplest way to ensure μ > 0 is
         // to clamp at the lowest positive value (~2e-308).
         // Exp::new(rate) where rate = 1/mu, since statrs parameterizes by rate (mean = 1/rate).
-        Exp::new(mu.max(f64::MIN_POSITIVE).recip()).unwrap()
+        Exp::new(mu.clamp(f64::MIN_POSITIVE, f64::MAX).recip()).unwrap()
     }
 }
 
diff --git a/src/response/gamma.rs b/src/response/gamma.rs
index 1eab757..e4b5c79 100644
--- a/src/response/gamma.rs
+++ b/src/response/gamma.rs
@@ -65,6 +65,20 @@ where
         let beta = beta.clamp(f64::MIN_POSITIVE, f64::MAX);
         GammaDist::new(alpha, beta).unwrap()
     }
+
+    fn cdf(y: f64, mu: f64, phi: f64) -> f64 {
+        use statrs::{distribution::ContinuousCDF, function::gamma::ln_gamma};
+        // The rate alone can be out of range, but only the response in units of the mean matters.
+        let dist = Self::get_distribution(1., phi);
+        let alpha = dist.shape();
+        let x = dist.rate() * (y / mu);
+        if 0. < x && x < 1e-14 {
+            // statrs rounds these arguments to zero, which is too rough for a small shape.
+            (alpha * x.ln() - ln_gamma(alpha + 1.)).exp().min(1.)
+        } else {
+            GammaDist::new(alpha, 1.).unwrap().cdf(x)
+        }
+    }
 }
 
 /// Implementation of GLM functionality for gamma regression.
-- 
2.43.0


From c5f987b7fa149972a7a381b787e206e5769bfe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:47 +0000
Subject: [PATCH 33/35] fix: keep the penalty's scale in the exact p-value of
 the intercept

---
 src/fit.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/src/fit.rs b/src/fit.rs
index 44359b7..668e4f5 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1022,9 +1022,13 @@ where
 
         let is_intercept = self.data.has_intercept && (i == 0);
         let x_reduced: Array2<F> = if is_intercept {
-            // If this is the intercept term, we need to use the original unscaled data to avoid
-            // mixing
-            self.data.x_ext().slice(s![.., 1..]).to_owned()
+            // If this is the intercept term, we need to use the original unshifted data to avoid
+            // mixing. The scales are kept so that the regularization remains the same.
+            let x_orig = self.data.x_orig();
+            match &self.data.standardizer {
+                Some(std) => x_orig / &std.scales,
+                None => x_orig,
+            }
         } else {
             concatenate![
                 Axis(1),
@@ -1052,20 +1056,13 @@ where
             return Ok(F::two() * (like_sat - like));
         }
         // Start with the non-excluded parameters at the values from the main fit.
-        let init_guess = if is_intercept {
-            // For the intercept term, we need to use the original unscaled data, or else the
-            // transformation mixes the intercept with the other terms. This number is supposed to
-            // represent the model deviance from excluding the *external* intercept term.
-            self.result.slice(s![1..]).to_owned()
-        } else {
-            // The data is already standardized in the non-intercept case, so we should start the
-            // the standardized parameters, removing the covariate of interest.
-            concatenate![
-                Axis(0),
-                self.result_std.slice(s![..i]),
-                self.result_std.slice(s![i + 1..])
-            ]
-        };
+        // The data is already scaled, so we should start the standardized parameters, removing the
+        // covariate of interest.
+        let init_guess = concatenate![
+            Axis(0),
+            self.result_std.slice(s![..i]),
+            self.result_std.slice(s![i + 1..])
+        ];
         // Without the excluded parameter the remaining ones can be very far off, for instance when
         // the covariates are not centered.
         let like = M::log_like(&data_reduced, &init_guess);
-- 
2.43.0


From a66e4f494dc41f7d683d1059c7098ea13289fd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:50 +0000
Subject: [PATCH 34/35] fix: exact p-values keep the far tail of the
 chi-squared distribution

---
 src/fit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fit.rs b/src/fit.rs
index 668e4f5..d5c555b 100644
--- a/src/fit.rs
+++ b/src/fit.rs
@@ -1182,7 +1182,7 @@ where
                 DispersionType::NoDispersion => {
                     use statrs::distribution::ChiSquared;
                     let chi2 = ChiSquared::new(1.0).unwrap();
-                    1.0 - chi2.cdf(delta_d.to_f64().unwrap())
+                    chi2.sf(delta_d.to_f64().unwrap())
                 }
                 DispersionType::FreeDispersion => {
                     use statrs::distribution::FisherSnedecor;
-- 
2.43.0


From a9ca4bc4df55f0f094518338aa31611b35c86622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:38:50 +0000
Subject: [PATCH 35/35] fix: fix the ADMM penalty parameter eventually, so that
 L1 fits can't cycle forever

---
 src/regularization.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/regularization.rs b/src/regularization.rs
index 4140cf5..4f77eb2 100644
--- a/src/regularization.rs
+++ b/src/regularization.rs
@@ -125,6 +125,10 @@ impl<F: Float> IrlsReg<F> for Ridge<F> {
     }
 }
 
+/// ADMM is only guaranteed to converge if its penalty parameter is fixed eventually. If it keeps
+/// adapting the iteration can cycle.
+const MAX_RHO_UPDATES: usize = 100;
+
 /// Penalizes the likelihood by the L1-norm of the parameters.
 pub(crate) struct Lasso<F: Float> {
     /// The L1 parameters for each element
@@ -135,6 +139,8 @@ pub(crate) struct Lasso<F: Float> {
     cum_res: Array1<F>,
     /// ADMM penalty parameter
     rho: F,
+    /// The number of updates to the penalty parameter that are still allowed
+    rho_updates_left: usize,
     /// L2-Norm of primal residuals |r|^2
     r_sq: F,
     /// L2-Norm of dual residuals |s|^2
@@ -153,12 +159,17 @@ impl<F: Float> Lasso<F> {
             dual: gamma,
             cum_res: u,
             rho: F::one(),
+            rho_updates_left: MAX_RHO_UPDATES,
             r_sq: F::infinity(), // or should it be NaN?
             s_sq: F::infinity(),
         }
     }
 
     fn update_rho(&mut self) {
+        if self.rho_updates_left == 0 {
+            return;
+        }
+        self.rho_updates_left -= 1;
         // Can these be declared const?
         let mu: F = F::from(8.).unwrap();
         let tau: F = F::from(2.).unwrap();
@@ -251,6 +262,8 @@ pub(crate) struct ElasticNet<F: Float> {
     cum_res: Array1<F>,
     /// ADMM penalty parameter
     rho: F,
+    /// The number of updates to the penalty parameter that are still allowed
+    rho_updates_left: usize,
     /// L2-Norm of primal residuals |r|^2
     r_sq: F,
     /// L2-Norm of dual residuals |s|^2
@@ -270,12 +283,17 @@ impl<F: Float> ElasticNet<F> {
             dual: gamma,
             cum_res: u,
             rho: F::one(),
+            rho_updates_left: MAX_RHO_UPDATES,
             r_sq: F::infinity(), // or should it be NaN?
             s_sq: F::infinity(),
         }
     }
 
     fn update_rho(&mut self) {
+        if self.rho_updates_left == 0 {
+            return;
+        }
+        self.rho_updates_left -= 1;
         // Can these be declared const?
         let mu: F = F::from(8.).unwrap();
         let tau: F = F::from(2.).unwrap();
-- 
2.43.0

