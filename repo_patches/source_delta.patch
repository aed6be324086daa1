From ffd8c85414e9b4fb796c3e3f0d2a8d169d6aa6b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 01/13] fix: relative normalization of two equal members is
 zero

With both members equal to zero, the relative residual was 0/0 = NaN although
the equation is exactly fulfilled.
---
 src/solver_n_dimensional/residuals/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/solver_n_dimensional/residuals/mod.rs b/src/solver_n_dimensional/residuals/mod.rs
index d7ba7ff..1ad6c84 100644
--- a/src/solver_n_dimensional/residuals/mod.rs
+++ b/src/solver_n_dimensional/residuals/mod.rs
@@ -87,7 +87,15 @@ impl fmt::Display for NormalizationMethod {
 pub fn normalization(x: f64, y: f64, normalization_method: NormalizationMethod) -> f64 {
     match normalization_method {
         NormalizationMethod::Abs => x - y,
-        NormalizationMethod::Rel => (x - y) / ((x + y).abs() / 2.0),
+        NormalizationMethod::Rel => {
+            let diff = x - y;
+            if diff == 0.0 {
+                // avoids 0/0 when both members are equal to zero
+                0.0
+            } else {
+                diff / ((x + y).abs() / 2.0)
+            }
+        }
         NormalizationMethod::Adapt => (x - y) / (1.0 + (x + y).abs() / 2.0),
     }
 }
-- 
2.43.0


From 450a4a2dc1100d7b3e9ebb847c4f18e758fdb191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 02/13] fix: NaN residuals are not a convergence

The biggest error was ignoring NaN residuals, and a NaN error was not
considered as being above the tolerance: solve() was returning Ok(()).
---
 src/solver_n_dimensional/solver/rootfinder.rs | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 1eb4d65..adbd4ed 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -14,6 +14,21 @@ use super::{
 
 use super::{QuasiNewtonMethod, ResolutionMethod};
 
+/// Biggest error, NaN if any of the errors is NaN
+///
+/// (the `amax()` method silently ignores NaN values)
+fn compute_max_error<D>(errors: &nalgebra::OVector<f64, D>) -> f64
+where
+    D: nalgebra::Dim,
+    nalgebra::DefaultAllocator: nalgebra::base::allocator::Allocator<D>,
+{
+    if errors.iter().any(|error| error.is_nan()) {
+        f64::NAN
+    } else {
+        errors.amax()
+    }
+}
+
 /// Solver for rootfinding
 ///
 /// The solver operates on the model and mutate it
@@ -307,7 +322,7 @@ where
     ) where
         M: model::Model<D>,
     {
-        let max_error_next = errors_next.amax();
+        let max_error_next = compute_max_error(errors_next);
         if max_error_next > max_error {
             // see documentation of the `SolverParameters` struct
             if self.parameters.get_resolution_method() != ResolutionMethod::NewtonRaphson
@@ -341,7 +356,7 @@ where
         M: model::Model<D>,
     {
         let errors = self.evaluate_errors(model);
-        let max_error = errors.amax();
+        let max_error = compute_max_error(&errors);
         let current_guess = model.get_iteratives();
 
         model.set_iteratives(proposed_guess);
@@ -406,7 +421,7 @@ where
         }
 
         let mut errors = self.evaluate_errors(model);
-        let mut max_error = errors.amax();
+        let mut max_error = compute_max_error(&errors);
 
         if self.debug {
             self.parameters_to_log();
@@ -415,7 +430,10 @@ where
 
         // Warning: unrolling by hand the first iteration (which is always a Newton-Raphson step)
         //          is actually slowing down the code (run benchmarks to see it)
-        while max_error > self.parameters.get_tolerance()
+        //
+        // The comparison to the tolerance is negated on purpose:
+        // NaN errors are not fulfilling the convergence criteria
+        while !(max_error <= self.parameters.get_tolerance())
             && self.iter < self.parameters.get_max_iter()
         {
             self.iter += 1;
@@ -437,10 +455,10 @@ where
                 }
             }
 
-            max_error = errors.amax();
+            max_error = compute_max_error(&errors);
         }
 
-        if max_error > self.parameters.get_tolerance() {
+        if !(max_error <= self.parameters.get_tolerance()) {
             Err(crate::errors::SolverError::NonConvergenceError)
         } else if self.valid_last_model_evaluation {
             Ok(())
-- 
2.43.0


From 5b5dae6d416d51407c15555e0481993bd9cebf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 03/13] fix: inaccurate initial evaluation is not a valid final
 evaluation

When the initial guess already fulfills the tolerance, the initial evaluation
is also the final one: an inaccurate one has to end in FinalEvaluationError.
The status left by a previous call of solve() has to be overwritten as well.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index adbd4ed..577170b 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -411,8 +411,12 @@ where
         // The first evaluation must yield usuable values
         // However, then don't need to be accurate
         match model.evaluate() {
-            Ok(()) => (),
-            Err(ModelError::InaccurateValuesError(_)) => (),
+            Ok(()) => {
+                self.valid_last_model_evaluation = true;
+            }
+            Err(ModelError::InaccurateValuesError(_)) => {
+                self.valid_last_model_evaluation = false;
+            }
             Err(ModelError::UnusableValuesError(error)) => {
                 return Err(crate::errors::SolverError::ModelInitialEvaluationError(
                     error.to_string(),
-- 
2.43.0


From b9cdfd8bf550dd76040bf1652c3333929fb16a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 04/13] fix: solve() starts from a clean state

The iteration counter and the jacobian of a previous call of solve() were kept:
the next call had a reduced iteration budget and used an outdated jacobian.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 577170b..360cb81 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -406,6 +406,13 @@ where
     where
         M: model::Model<D>,
     {
+        // A previous resolution must not have any influence on this one
+        self.iter = 0;
+        self.jacobian = JacobianMatrix::new();
+        self.iteratives_step_size = None;
+        self.residuals_step_size = None;
+        self.residuals_values_current = None;
+
         model.set_iteratives(&self.initial_guess);
 
         // The first evaluation must yield usuable values
-- 
2.43.0


From 3a79ddab6d5476a7c98cdabf659d61ea3d3e7a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 05/13] fix: model errors during the damping are handled

The evaluation of the damped step was unwrapped: any model error was a panic.
It is now handled as the evaluation of the full step.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 360cb81..02f67a1 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -319,7 +319,8 @@ where
         current_guess: &nalgebra::OVector<f64, D>,
         proposed_guess: &nalgebra::OVector<f64, D>,
         errors_next: &mut nalgebra::OVector<f64, D>,
-    ) where
+    ) -> Result<(), errors::SolverError<M, D>>
+    where
         M: model::Model<D>,
     {
         let max_error_next = compute_max_error(errors_next);
@@ -337,7 +338,18 @@ where
                 let damped_guess =
                     current_guess * (1.0 - damping_factor) + proposed_guess * damping_factor;
                 model.set_iteratives(&damped_guess);
-                model.evaluate().unwrap();
+                match model.evaluate() {
+                    Ok(()) => {
+                        self.valid_last_model_evaluation = true;
+                    }
+                    Err(ModelError::InaccurateValuesError(_)) => {
+                        self.valid_last_model_evaluation = false;
+                    }
+                    Err(e) => {
+                        self.valid_last_model_evaluation = false;
+                        return Err(errors::SolverError::ModelEvaluationError(e));
+                    }
+                }
                 *errors_next = self.evaluate_errors(model);
 
                 if self.debug {
@@ -345,6 +357,8 @@ where
                 }
             }
         }
+
+        Ok(())
     }
 
     fn update_model<M>(
@@ -385,7 +399,7 @@ where
                 &current_guess,
                 proposed_guess,
                 &mut errors_next,
-            );
+            )?;
         }
 
         match self.parameters.get_resolution_method() {
-- 
2.43.0


From 1a99acd450e0cd32cc3d2270a7d8a65275bbcaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:11 +0000
Subject: [PATCH 06/13] fix: error of the user jacobian does not lead to a
 panic

When get_jacobian() fails there is no jacobian at all: if the error was an
InaccurateValuesError, it was discarded and the missing inverse was unwrapped.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 02f67a1..cf14ad5 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -174,7 +174,7 @@ where
     where
         M: model::Model<D>,
     {
-        let successful_jac_computation = if model.jacobian_provided() {
+        if model.jacobian_provided() {
             evaluate_jacobian_from_analytical_function(
                 &mut self.jacobian,
                 model,
@@ -187,14 +187,6 @@ where
                 self.iters_params,
                 self.residuals_config,
             )
-        };
-
-        match successful_jac_computation {
-            Ok(())
-            | Err(errors::SolverInternalError::InvalidJacobianError(
-                ModelError::InaccurateValuesError(_),
-            )) => Ok(()),
-            Err(model_error) => Err(model_error),
         }
     }
 
-- 
2.43.0


From f8760733e0515e75dc9cc320beb1f9afabb6147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:39 +0000
Subject: [PATCH 07/13] fix: quasi-Newton updates use the signed update
 residuals

The secant equation was fed with the absolute values of the stopping residuals:
wrong direction as soon as a residual is negative or changes sign,
and wrong function if the two normalization methods are different.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index cf14ad5..2b8a25d 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -170,6 +170,15 @@ where
             .evaluate_stopping_residuals(&residuals_values)
     }
 
+    fn evaluate_residuals<M>(&self, model: &M) -> nalgebra::OVector<f64, D>
+    where
+        M: model::Model<D>,
+    {
+        let residuals_values = model.get_residuals();
+        self.residuals_config
+            .evaluate_update_residuals(&residuals_values)
+    }
+
     fn compute_jac<M>(&mut self, model: &mut M) -> Result<(), errors::SolverInternalError<M, D>>
     where
         M: model::Model<D>,
@@ -363,6 +372,7 @@ where
     {
         let errors = self.evaluate_errors(model);
         let max_error = compute_max_error(&errors);
+        let residuals = self.evaluate_residuals(model);
         let current_guess = model.get_iteratives();
 
         model.set_iteratives(proposed_guess);
@@ -399,8 +409,9 @@ where
             ResolutionMethod::QuasiNewton(QuasiNewtonMethod::StationaryNewton) => (),
             _ => {
                 self.iteratives_step_size = Some(model.get_iteratives() - current_guess);
-                self.residuals_step_size = Some(errors_next.clone() - errors);
-                self.residuals_values_current = Some(errors_next.clone())
+                let residuals_next = self.evaluate_residuals(model);
+                self.residuals_step_size = Some(&residuals_next - residuals);
+                self.residuals_values_current = Some(residuals_next);
             }
         };
 
-- 
2.43.0


From fbe5b75941a74a998d01005540f21ffca24ca0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 08/13] fix: steps, limits and damping are relative to the
 current iterate

With a finite-difference jacobian the model is left on the last perturbed point,
which was then used instead of the current iterate: as reference of the step
limitations, as basis of the damped step (that could thus exceed the bounds)
and of its acceptance, and in the secant equation of the quasi-Newton methods.
---
 src/solver_n_dimensional/solver/rootfinder.rs | 45 +++++++++++++------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 2b8a25d..75f7fa9 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -206,13 +206,14 @@ where
     where
         M: model::Model<D>,
     {
+        let current_guess = model.get_iteratives();
         let successful_jac_computation = self.compute_jac(model);
 
         if self.debug {
             self.jac_to_log();
         }
         match successful_jac_computation {
-            Ok(()) => Ok(self.compute_next_from_inv_jac(model)),
+            Ok(()) => Ok(self.compute_next_from_inv_jac(model, &current_guess)),
             Err(error) => Err(error),
         }
     }
@@ -287,8 +288,10 @@ where
     where
         M: model::Model<D>,
     {
+        let current_guess = model.get_iteratives();
+
         match self.evaluate_jacobian_quasi_newton_step(model, resolution_method) {
-            Ok(()) => Ok(self.compute_next_from_inv_jac(model)),
+            Ok(()) => Ok(self.compute_next_from_inv_jac(model, &current_guess)),
             Err(crate::errors::SolverInternalError::InvalidJacobianError(error)) => Err(
                 crate::errors::SolverInternalError::InvalidJacobianError(error),
             ),
@@ -298,7 +301,15 @@ where
         }
     }
 
-    fn compute_next_from_inv_jac<M>(&self, model: &M) -> nalgebra::OVector<f64, D>
+    /// Compute the next guess, the step and its limitations being relative to the current guess
+    ///
+    /// The finite-difference evaluation of the jacobian leaves the model on a perturbed point,
+    /// the residuals are then the ones of this point: the perturbation is part of the step.
+    fn compute_next_from_inv_jac<M>(
+        &self,
+        model: &M,
+        current_guess: &nalgebra::OVector<f64, D>,
+    ) -> nalgebra::OVector<f64, D>
     where
         M: model::Model<D>,
     {
@@ -308,9 +319,10 @@ where
 
         let raw_step = -self.jacobian.get_inverse().as_ref().unwrap() * residuals;
 
-        let iter_values = model.get_iteratives();
+        let step_from_guess = (model.get_iteratives() - current_guess) + raw_step;
 
-        self.iters_params.step_limitations(&iter_values, &raw_step)
+        self.iters_params
+            .step_limitations(current_guess, &step_from_guess)
     }
 
     fn damping<M>(
@@ -365,16 +377,14 @@ where
     fn update_model<M>(
         &mut self,
         model: &mut M,
+        max_error: f64,
+        residuals: nalgebra::OVector<f64, D>,
+        current_guess: nalgebra::OVector<f64, D>,
         proposed_guess: &nalgebra::OVector<f64, D>,
     ) -> Result<nalgebra::OVector<f64, D>, errors::SolverError<M, D>>
     where
         M: model::Model<D>,
     {
-        let errors = self.evaluate_errors(model);
-        let max_error = compute_max_error(&errors);
-        let residuals = self.evaluate_residuals(model);
-        let current_guess = model.get_iteratives();
-
         model.set_iteratives(proposed_guess);
         match model.evaluate() {
             Ok(()) => {
@@ -466,6 +476,11 @@ where
         {
             self.iter += 1;
 
+            // Reference point of the iteration,
+            // the evaluation of the jacobian can leave the model on another one
+            let residuals = self.evaluate_residuals(model);
+            let current_guess = model.get_iteratives();
+
             let proposed_guess = match self.parameters.get_resolution_method() {
                 ResolutionMethod::NewtonRaphson => self.compute_newton_raphson_step(model),
                 ResolutionMethod::QuasiNewton(quasi_newton_method) => {
@@ -474,10 +489,12 @@ where
             };
 
             match proposed_guess {
-                Ok(value) => match self.update_model(model, &value) {
-                    Ok(value) => errors = value,
-                    Err(e) => return Err(e),
-                },
+                Ok(value) => {
+                    match self.update_model(model, max_error, residuals, current_guess, &value) {
+                        Ok(value) => errors = value,
+                        Err(e) => return Err(e),
+                    }
+                }
                 Err(error) => {
                     return Err(errors::SolverError::JacobianError(error));
                 }
-- 
2.43.0


From 67f6d2e70f879ccc11ac7356b0f680ad33ba0294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 09/13] fix: NaN parameters of iteratives are rejected

The comparisons of the checks are false for NaN: limits that cannot limit anything
and NaN perturbations were accepted, also from a configuration file.
---
 src/solver_n_dimensional/iteratives/iterative_var.rs    | 6 +++---
 src/solver_n_dimensional/iteratives/iterative_var_fd.rs | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/solver_n_dimensional/iteratives/iterative_var.rs b/src/solver_n_dimensional/iteratives/iterative_var.rs
index 38f4598..d00e58f 100644
--- a/src/solver_n_dimensional/iteratives/iterative_var.rs
+++ b/src/solver_n_dimensional/iteratives/iterative_var.rs
@@ -19,20 +19,20 @@ impl IterativeParams {
     ///
     /// The `min_value` must be lower than the `max_value`
     pub fn new(max_step_abs: f64, max_step_rel: f64, min_value: f64, max_value: f64) -> Self {
-        if max_step_abs <= 0.0 {
+        if max_step_abs.is_nan() || max_step_abs <= 0.0 {
             panic!(
                 "max_step_abs must be strictly positive, provided value was {}",
                 max_step_abs
             );
         }
-        if max_step_rel <= 0.0 {
+        if max_step_rel.is_nan() || max_step_rel <= 0.0 {
             panic!(
                 "max_step_rel must be strictly positive, provided value was {}",
                 max_step_rel
             );
         }
 
-        if min_value >= max_value {
+        if min_value.is_nan() || max_value.is_nan() || min_value >= max_value {
             panic!(
                 "min_value must be strictly inferior to max_value, provided values are {} > {}",
                 min_value, max_value
diff --git a/src/solver_n_dimensional/iteratives/iterative_var_fd.rs b/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
index 9bcb7a5..79c2eeb 100644
--- a/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
+++ b/src/solver_n_dimensional/iteratives/iterative_var_fd.rs
@@ -56,13 +56,13 @@ impl IterativeParamsFD {
         dx_rel: f64,
         perturbation_method: PerturbationMethod,
     ) -> Self {
-        if dx_abs <= 0.0 {
+        if dx_abs.is_nan() || dx_abs <= 0.0 {
             panic!(
                 "dx_abs must be strictly positive, provided value was {}",
                 dx_abs
             );
         }
-        if dx_rel <= 0.0 {
+        if dx_rel.is_nan() || dx_rel <= 0.0 {
             panic!(
                 "dx_rel must be strictly positive, provided value was {}",
                 dx_rel
@@ -121,13 +121,13 @@ impl IterativeParamsFD {
         dx_rel: f64,
         perturbation_method: PerturbationMethod,
     ) -> Self {
-        if dx_abs <= 0.0 {
+        if dx_abs.is_nan() || dx_abs <= 0.0 {
             panic!(
                 "dx_abs must be strictly positive, provided value was {}",
                 dx_abs
             );
         }
-        if dx_rel <= 0.0 {
+        if dx_rel.is_nan() || dx_rel <= 0.0 {
             panic!(
                 "dx_rel must be strictly positive, provided value was {}",
                 dx_rel
-- 
2.43.0


From b1a78272805d74151d58434c6f1c534d691ace1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 10/13] fix: a NaN step is not a jump to the lower bound

max() and min() ignore NaN: a NaN step was silently moving the iterative to its
min_value (-inf by default), whatever the limits on the step.
---
 src/solver_n_dimensional/iteratives/iterative_var.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver_n_dimensional/iteratives/iterative_var.rs b/src/solver_n_dimensional/iteratives/iterative_var.rs
index d00e58f..1d63b4b 100644
--- a/src/solver_n_dimensional/iteratives/iterative_var.rs
+++ b/src/solver_n_dimensional/iteratives/iterative_var.rs
@@ -117,7 +117,8 @@ impl Iterative for IterativeParams {
         let value_next_lim = value_current + step_lim;
 
         // limitation by min_value and max_value
-        (value_next_lim.max(self.min_value)).min(self.max_value)
+        // (a NaN step remains a NaN, it is not a jump to one of the bounds)
+        value_next_lim.clamp(self.min_value, self.max_value)
     }
 }
 
-- 
2.43.0


From 30fbaa7d0dc2d8dcc9a17c73f876a477d00a812a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:11 +0000
Subject: [PATCH 11/13] fix: the max error of the log is NaN if any of the
 errors is NaN

---
 src/solver_n_dimensional/solver/log.rs        | 3 ++-
 src/solver_n_dimensional/solver/rootfinder.rs | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/solver_n_dimensional/solver/log.rs b/src/solver_n_dimensional/solver/log.rs
index e96472e..5500885 100644
--- a/src/solver_n_dimensional/solver/log.rs
+++ b/src/solver_n_dimensional/solver/log.rs
@@ -2,6 +2,7 @@ use std::fs::File;
 use std::fs::OpenOptions;
 use std::io::Write;
 
+use super::rootfinder::compute_max_error;
 use crate::residuals::ResidualsValues;
 
 #[cfg(feature = "additional_log_info")]
@@ -143,7 +144,7 @@ impl SolverLog {
         nalgebra::DefaultAllocator: nalgebra::base::allocator::Allocator<D>,
     {
         let mut iteration_log_header = String::new();
-        iteration_log_header.push_str(&format!("Max error: {}\n\n", errors.amax()));
+        iteration_log_header.push_str(&format!("Max error: {}\n\n", compute_max_error(errors)));
         self.add_content(&iteration_log_header);
         self.add_content(SEPARATION_LINE);
         self.add_content(TITLE_LINE);
diff --git a/src/solver_n_dimensional/solver/rootfinder.rs b/src/solver_n_dimensional/solver/rootfinder.rs
index 75f7fa9..e24297a 100644
--- a/src/solver_n_dimensional/solver/rootfinder.rs
+++ b/src/solver_n_dimensional/solver/rootfinder.rs
@@ -17,7 +17,7 @@ use super::{QuasiNewtonMethod, ResolutionMethod};
 /// Biggest error, NaN if any of the errors is NaN
 ///
 /// (the `amax()` method silently ignores NaN values)
-fn compute_max_error<D>(errors: &nalgebra::OVector<f64, D>) -> f64
+pub(super) fn compute_max_error<D>(errors: &nalgebra::OVector<f64, D>) -> f64
 where
     D: nalgebra::Dim,
     nalgebra::DefaultAllocator: nalgebra::base::allocator::Allocator<D>,
-- 
2.43.0


From d33bc2868add21afd706cf887bbd7220462b668c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:45 +0000
Subject: [PATCH 12/13] fix: logging a problem without unknowns does not panic

---
 src/solver_n_dimensional/iteratives/iteratives_base.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver_n_dimensional/iteratives/iteratives_base.rs b/src/solver_n_dimensional/iteratives/iteratives_base.rs
index 5277f0d..be10563 100644
--- a/src/solver_n_dimensional/iteratives/iteratives_base.rs
+++ b/src/solver_n_dimensional/iteratives/iteratives_base.rs
@@ -94,7 +94,10 @@ where
     T: Iterative + fmt::Display,
 {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let finite_diff = self.iteratives_params[0].with_finite_diff();
+        let finite_diff = self
+            .iteratives_params
+            .first()
+            .map_or(false, |params| params.with_finite_diff());
 
         let mut content = String::from("Iteratives parameters\n");
         content.push_str("=====================\n\n");
-- 
2.43.0


From 83c41601a011622105ead5525a2fb9353c53392a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:25 +0000
Subject: [PATCH 13/13] fix: the updates of the inverse are described apart
 from those of the jacobian

---
 src/solver_n_dimensional/solver/resolution_method.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver_n_dimensional/solver/resolution_method.rs b/src/solver_n_dimensional/solver/resolution_method.rs
index 995851f..ea6ff77 100644
--- a/src/solver_n_dimensional/solver/resolution_method.rs
+++ b/src/solver_n_dimensional/solver/resolution_method.rs
@@ -71,7 +71,7 @@ impl fmt::Display for QuasiNewtonMethod {
                 content.push_str(&method.to_string());
             }
             QuasiNewtonMethod::InverseJacobianUpdate(method) => {
-                content.push_str("Jacobian matrix approximated");
+                content.push_str("Inverse jacobian matrix approximated");
                 content.push_str(&method.to_string());
             }
         }
-- 
2.43.0

