From 501c58fde8b7043fc97211f327f1d9a63cde426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:19 +0000
Subject: [PATCH 01/26] fix: NumericDiffCostFunction reports a functor failure
 during differentiation

Evaluate() ignored the result of EvaluateJacobianForParameterBlocks, so a
functor that failed at a perturbed point left the Jacobian unset while
Evaluate() returned true.  DynamicNumericDiffCostFunction already checks it.
---
 include/ceres/numeric_diff_cost_function.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/ceres/numeric_diff_cost_function.h b/include/ceres/numeric_diff_cost_function.h
index 5889b70..e4aad2c 100644
--- a/include/ceres/numeric_diff_cost_function.h
+++ b/include/ceres/numeric_diff_cost_function.h
@@ -267,17 +267,15 @@ class NumericDiffCostFunction final
                   parameters_reference_copy[block]);
     }
 
-    internal::EvaluateJacobianForParameterBlocks<kMethod,
-                                                 kNumResiduals,
-                                                 ParameterDims>(
+    return internal::EvaluateJacobianForParameterBlocks<kMethod,
+                                                        kNumResiduals,
+                                                        ParameterDims>(
         functor_.get(),
         residuals,
         options_,
         this->num_residuals(),
         parameters_reference_copy.data(),
         jacobians);
-
-    return true;
   }
 
   const CostFunctor& functor() const { return *functor_; }
-- 
2.43.0


From b561b5baf1a4beb4e38eaa2f41e24ae416c2951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:32 +0000
Subject: [PATCH 02/26] fix: RotationMatrixToQuaternion with the Eigen
 coefficient order

The branch for a negative trace used the coefficient positions as matrix
indices, reading outside the matrix and filling the wrong coefficients.
---
 include/ceres/rotation.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/ceres/rotation.h b/include/ceres/rotation.h
index 7062ec3..2fd0331 100644
--- a/include/ceres/rotation.h
+++ b/include/ceres/rotation.h
@@ -470,23 +470,25 @@ void RotationMatrixToQuaternion(
     quaternion[Order::kY] = (R(0, 2) - R(2, 0)) * t;
     quaternion[Order::kZ] = (R(1, 0) - R(0, 1)) * t;
   } else {
-    int i = Order::kW;
+    // Row and column of the largest diagonal element. The vector part of the
+    // quaternion is stored contiguously, starting at Order::kX.
+    int i = 0;
     if (R(1, 1) > R(0, 0)) {
-      i = Order::kX;
+      i = 1;
     }
 
     if (R(2, 2) > R(i, i)) {
-      i = Order::kY;
+      i = 2;
     }
 
     const int j = (i + 1) % 3;
     const int k = (j + 1) % 3;
     T t = sqrt(R(i, i) - R(j, j) - R(k, k) + T(1.0));
-    quaternion[i + 1] = T(0.5) * t;
+    quaternion[Order::kX + i] = T(0.5) * t;
     t = T(0.5) / t;
     quaternion[Order::kW] = (R(k, j) - R(j, k)) * t;
-    quaternion[j + 1] = (R(j, i) + R(i, j)) * t;
-    quaternion[k + 1] = (R(k, i) + R(i, k)) * t;
+    quaternion[Order::kX + j] = (R(j, i) + R(i, j)) * t;
+    quaternion[Order::kX + k] = (R(k, i) + R(i, k)) * t;
   }
 }
 
-- 
2.43.0


From 7f5d1c82958c1c5ebf6a92a449adc7e1e8cd41e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:22 +0000
Subject: [PATCH 03/26] fix: let CompressedRowSparseMatrix::AppendRows append
 rows without nonzeros

The debug check on the remaining capacity aborted whenever the appended
matrix had no nonzeros and the receiving matrix was exactly full, although
nothing is copied in that case.
---
 internal/ceres/compressed_row_sparse_matrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ceres/compressed_row_sparse_matrix.cc b/internal/ceres/compressed_row_sparse_matrix.cc
index b474cca..e5bb1b7 100644
--- a/internal/ceres/compressed_row_sparse_matrix.cc
+++ b/internal/ceres/compressed_row_sparse_matrix.cc
@@ -500,7 +500,7 @@ void CompressedRowSparseMatrix::AppendRows(const CompressedRowSparseMatrix& m) {
   }
 
   // Copy the contents of m into this matrix.
-  DCHECK_LT(num_nonzeros(), cols_.size());
+  DCHECK_LE(num_nonzeros(), cols_.size());
   if (m.num_nonzeros() > 0) {
     std::copy(m.cols(), m.cols() + m.num_nonzeros(), &cols_[num_nonzeros()]);
     std::copy(
-- 
2.43.0


From d12a555c52b524e2dc962cf8e09f86f0d71c0630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 04/26] fix: do not declare parameter tolerance convergence
 when the trust region candidate point could not be computed

---
 internal/ceres/trust_region_minimizer.cc | 9 +++++++--
 internal/ceres/trust_region_minimizer.h  | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/trust_region_minimizer.cc b/internal/ceres/trust_region_minimizer.cc
index c2c10f8..fa07263 100644
--- a/internal/ceres/trust_region_minimizer.cc
+++ b/internal/ceres/trust_region_minimizer.cc
@@ -110,7 +110,10 @@ void TrustRegionMinimizer::Minimize(const Minimizer::Options& options,
     ComputeCandidatePointAndEvaluateCost();
     DoInnerIterationsIfNeeded();
 
-    if (atleast_one_successful_step && ParameterToleranceReached()) {
+    // If the candidate point could not be computed, there is no step whose
+    // size could be compared to the tolerance.
+    if (atleast_one_successful_step && candidate_x_is_valid_ &&
+        ParameterToleranceReached()) {
       return;
     }
 
@@ -779,7 +782,9 @@ bool TrustRegionMinimizer::FunctionToleranceReached() {
 // consider it to be a point with very high cost. This allows the user to deal
 // with edge cases/constraints as part of the Manifold and CostFunction objects.
 void TrustRegionMinimizer::ComputeCandidatePointAndEvaluateCost() {
-  if (!evaluator_->Plus(x_.data(), delta_.data(), candidate_x_.data())) {
+  candidate_x_is_valid_ =
+      evaluator_->Plus(x_.data(), delta_.data(), candidate_x_.data());
+  if (!candidate_x_is_valid_) {
     if (is_not_silent_) {
       LOG(WARNING) << "x_plus_delta = Plus(x, delta) failed. "
                    << "Treating it as a step with infinite cost";
diff --git a/internal/ceres/trust_region_minimizer.h b/internal/ceres/trust_region_minimizer.h
index 91f9deb..11e39bc 100644
--- a/internal/ceres/trust_region_minimizer.h
+++ b/internal/ceres/trust_region_minimizer.h
@@ -148,6 +148,9 @@ class CERES_NO_EXPORT TrustRegionMinimizer final : public Minimizer {
   double model_cost_change_;
   // Cost at candidate_x_.
   double candidate_cost_;
+  // False if Plus(x_, delta_) failed, in which case candidate_x_ does
+  // not hold the candidate point.
+  bool candidate_x_is_valid_;
 
   // Time at which the minimizer was started.
   absl::Time start_time_;
-- 
2.43.0


From 05d933b3bbfc904d726301b606e60dd8b40ef877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:41 +0000
Subject: [PATCH 05/26] fix: do not grow the dogleg trust region beyond
 max_trust_region_radius

---
 internal/ceres/dogleg_strategy.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ceres/dogleg_strategy.cc b/internal/ceres/dogleg_strategy.cc
index ef45a0b..666a00f 100644
--- a/internal/ceres/dogleg_strategy.cc
+++ b/internal/ceres/dogleg_strategy.cc
@@ -623,7 +623,7 @@ void DoglegStrategy::StepAccepted(double step_quality) {
   }
 
   if (step_quality > increase_threshold_) {
-    radius_ = std::max(radius_, 3.0 * dogleg_step_norm_);
+    radius_ = std::min(max_radius_, std::max(radius_, 3.0 * dogleg_step_norm_));
   }
 
   // Reduce the regularization multiplier, in the hope that whatever
-- 
2.43.0


From ca6f99589575b7c8eabb8f4d247e4c6098bd0462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 06/26] fix: Wolfe line search aborted on finite costs with
 non-finite gradients

The bracketing phase accepted samples without a valid gradient, which the
zoom phase then rejected with a CHECK or returned without checking them.
---
 internal/ceres/line_search.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/internal/ceres/line_search.cc b/internal/ceres/line_search.cc
index 039975d..473a8ac 100644
--- a/internal/ceres/line_search.cc
+++ b/internal/ceres/line_search.cc
@@ -529,6 +529,12 @@ bool WolfeLineSearch::BracketingPhase(const FunctionSample& initial_position,
   while (true) {
     ++summary->num_iterations;
 
+    // The Wolfe conditions and the zoom phase need the gradient as much as the
+    // value, so a sample without a valid gradient is treated as invalid.
+    if (!current.gradient_is_valid) {
+      current.value_is_valid = false;
+    }
+
     if (current.value_is_valid &&
         (current.value > (initial_position.value +
                           options().sufficient_decrease *
@@ -841,6 +847,7 @@ bool WolfeLineSearch::ZoomPhase(const FunctionSample& initial_position,
       if (!options().is_silent) {
         LOG(WARNING) << summary->error;
       }
+      solution->value_is_valid = false;
       return false;
     }
 
-- 
2.43.0


From d3c87fdbb04d863ea73b538cf26c1a3b37cb89a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:02 +0000
Subject: [PATCH 07/26] fix: Wolfe line search dropped the last valid step when
 it ran out of iterations

If the last sample of the bracketing phase was invalid, the initial
position was returned as a success instead of the last step that satisfied
sufficient decrease.
---
 internal/ceres/line_search.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/ceres/line_search.cc b/internal/ceres/line_search.cc
index 473a8ac..8eeb6b8 100644
--- a/internal/ceres/line_search.cc
+++ b/internal/ceres/line_search.cc
@@ -622,10 +622,13 @@ bool WolfeLineSearch::BracketingPhase(const FunctionSample& initial_position,
       // Ensure that bracket_low is always set to the step size amongst all
       // those tested which minimizes f() and satisfies the Armijo condition
       // when we terminate due to the 'artificial' max_num_iterations condition.
-      *bracket_low =
-          current.value_is_valid && current.value < bracket_low->value
-              ? current
-              : *bracket_low;
+      //
+      // If current is invalid, that is the last valid step size, which is the
+      // initial position if none was, in which case there is no step to take.
+      *bracket_low = current.value_is_valid ? current : previous;
+      if (bracket_low->x <= 0.0) {
+        return false;
+      }
       break;
     }
     // Either: f(current) is invalid; or, f(current) is valid, but does not
-- 
2.43.0


From 893d1f7ccaf6c23182ac6abe167807b7ebcfb4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 08/26] fix: FindPolynomialRoots returned NaN for a double root
 at zero

---
 internal/ceres/polynomial.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/polynomial.cc b/internal/ceres/polynomial.cc
index a0596c6..873ae19 100644
--- a/internal/ceres/polynomial.cc
+++ b/internal/ceres/polynomial.cc
@@ -161,7 +161,10 @@ void FindQuadraticPolynomialRoots(const Vector& polynomial,
     if (real != nullptr) {
       // Stable quadratic roots according to BKP Horn.
       // http://people.csail.mit.edu/bkph/articles/Quadratics.pdf
-      if (b >= 0) {
+      if (b == 0 && sqrt_D == 0) {
+        // Double root at zero, where the formulas below divide zero by zero.
+        real->setZero(2);
+      } else if (b >= 0) {
         (*real)(0) = (-b - sqrt_D) / (2.0 * a);
         (*real)(1) = (2.0 * c) / (-b - sqrt_D);
       } else {
-- 
2.43.0


From 07c826231e97a43fcf890143c4d2b146255ff8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 09/26] fix: TinySolver compared the scaled gradient to
 gradient_tolerance

Both Summary::gradient_max_norm and GRADIENT_TOO_SMALL are documented in
terms of J'(x) * f(x), but the Jacobi scaled gradient was used.
---
 include/ceres/tiny_solver.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ceres/tiny_solver.h b/include/ceres/tiny_solver.h
index 093bc36..920d4b2 100644
--- a/include/ceres/tiny_solver.h
+++ b/include/ceres/tiny_solver.h
@@ -235,7 +235,9 @@ class TinySolver {
     jacobian_ = jacobian_ * jacobi_scaling_.asDiagonal();
     jtj_ = jacobian_.transpose() * jacobian_;
     g_ = jacobian_.transpose() * residuals_;
-    summary.gradient_max_norm = g_.array().abs().maxCoeff();
+    // g_ is the gradient scaled by jacobi_scaling_.
+    summary.gradient_max_norm =
+        (g_.array() / jacobi_scaling_.array()).abs().maxCoeff();
     cost_ = residuals_.squaredNorm() / 2;
     return true;
   }
-- 
2.43.0


From fde1fcc07a7ff5ad6bd6b0b65b7836d7b440c395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:47 +0000
Subject: [PATCH 10/26] fix: TinySolver treated function_tolerance as absolute

It is documented as relative to the cost, so problems with small costs
stopped early with COST_CHANGE_TOO_SMALL.
---
 include/ceres/tiny_solver.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ceres/tiny_solver.h b/include/ceres/tiny_solver.h
index 920d4b2..5917c71 100644
--- a/include/ceres/tiny_solver.h
+++ b/include/ceres/tiny_solver.h
@@ -299,6 +299,9 @@ class TinySolver {
       function(&x_new_[0], &f_x_new_[0], nullptr);
 
       const Scalar cost_change = (2 * cost_ - f_x_new_.squaredNorm());
+      // Twice the tolerance, because cost_change is twice the change in cost.
+      const Scalar cost_change_tolerance =
+          2 * options.function_tolerance * cost_;
       // TODO(sameeragarwal): Better more numerically stable evaluation.
       const Scalar model_cost_change = lm_step_.dot(2 * g_ - jtj_ * lm_step_);
 
@@ -313,7 +316,7 @@ class TinySolver {
 
         // TODO(sameeragarwal): Deal with failure.
         Update(function, x);
-        if (std::abs(cost_change) < options.function_tolerance) {
+        if (std::abs(cost_change) < cost_change_tolerance) {
           summary.status = COST_CHANGE_TOO_SMALL;
           break;
         }
@@ -337,7 +340,7 @@ class TinySolver {
         // or the local linear model was not good (rho < 0).
 
         // Additionally if the cost change is too small, then terminate.
-        if (std::abs(cost_change) < options.function_tolerance) {
+        if (std::abs(cost_change) < cost_change_tolerance) {
           // Terminate
           summary.status = COST_CHANGE_TOO_SMALL;
           break;
-- 
2.43.0


From 4264c9432afe7ef8417c7702e59099c1c217b9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:55 +0000
Subject: [PATCH 11/26] fix: canonical views clustering compared weights with
 NaN and aborted on views of invalid weight

---
 internal/ceres/canonical_views_clustering.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/canonical_views_clustering.cc b/internal/ceres/canonical_views_clustering.cc
index a41e5f8..c2fc585 100644
--- a/internal/ceres/canonical_views_clustering.cc
+++ b/internal/ceres/canonical_views_clustering.cc
@@ -31,6 +31,7 @@
 
 #include "ceres/canonical_views_clustering.h"
 
+#include <cmath>
 #include <vector>
 
 #include "absl/container/flat_hash_map.h"
@@ -141,7 +142,7 @@ void CanonicalViewsClustering::ComputeClustering(
 void CanonicalViewsClustering::FindValidViews(IntSet* valid_views) const {
   const IntSet& views = graph_->vertices();
   for (const auto& view : views) {
-    if (graph_->VertexWeight(view) != WeightedGraph<int>::InvalidWeight()) {
+    if (!std::isnan(graph_->VertexWeight(view))) {
       valid_views->insert(view);
     }
   }
-- 
2.43.0


From b5d13d405c190ba43102bdaf2e5510011b06f8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:00 +0000
Subject: [PATCH 12/26] fix: iterative refinement of dense normal equations
 used a corrupted matrix

RefinedDenseCholesky kept a pointer to the matrix that EigenDenseCholesky
overwrites with its factorization, and DenseIterativeRefiner multiplied by
the full matrix although callers only fill one triangle of it. Keep a copy
and use only the triangle that DenseCholesky is documented to use.
---
 internal/ceres/dense_cholesky.cc    | 6 ++----
 internal/ceres/dense_cholesky.h     | 6 ++++--
 internal/ceres/iterative_refiner.cc | 4 +++-
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/internal/ceres/dense_cholesky.cc b/internal/ceres/dense_cholesky.cc
index 631cfbb..ef5a2e2 100644
--- a/internal/ceres/dense_cholesky.cc
+++ b/internal/ceres/dense_cholesky.cc
@@ -329,22 +329,20 @@ RefinedDenseCholesky::~RefinedDenseCholesky() = default;
 
 LinearSolverTerminationType RefinedDenseCholesky::Factorize(
     const int num_cols, double* lhs, std::string* message) {
-  lhs_ = lhs;
-  num_cols_ = num_cols;
+  lhs_ = ConstMatrixRef(lhs, num_cols, num_cols);
   return dense_cholesky_->Factorize(num_cols, lhs, message);
 }
 
 LinearSolverTerminationType RefinedDenseCholesky::Solve(const double* rhs,
                                                         double* solution,
                                                         std::string* message) {
-  CHECK(lhs_ != nullptr);
   auto termination_type = dense_cholesky_->Solve(rhs, solution, message);
   if (termination_type != LinearSolverTerminationType::SUCCESS) {
     return termination_type;
   }
 
   iterative_refiner_->Refine(
-      num_cols_, lhs_, rhs, dense_cholesky_.get(), solution);
+      lhs_.cols(), lhs_.data(), rhs, dense_cholesky_.get(), solution);
   return LinearSolverTerminationType::SUCCESS;
 }
 
diff --git a/internal/ceres/dense_cholesky.h b/internal/ceres/dense_cholesky.h
index 4f55c58..c6591d7 100644
--- a/internal/ceres/dense_cholesky.h
+++ b/internal/ceres/dense_cholesky.h
@@ -42,6 +42,7 @@
 #include "Eigen/Dense"
 #include "ceres/context_impl.h"
 #include "ceres/cuda_buffer.h"
+#include "ceres/internal/eigen.h"
 #include "ceres/linear_solver.h"
 
 #ifndef CERES_NO_CUDA
@@ -188,8 +189,9 @@ class CERES_NO_EXPORT RefinedDenseCholesky final : public DenseCholesky {
  private:
   std::unique_ptr<DenseCholesky> dense_cholesky_;
   std::unique_ptr<DenseIterativeRefiner> iterative_refiner_;
-  double* lhs_ = nullptr;
-  int num_cols_;
+  // Copy of the matrix being factorized, since the factorization may overwrite
+  // its input.
+  Matrix lhs_;
 };
 
 #ifndef CERES_NO_CUDA
diff --git a/internal/ceres/iterative_refiner.cc b/internal/ceres/iterative_refiner.cc
index 54d48f3..10b4a25 100644
--- a/internal/ceres/iterative_refiner.cc
+++ b/internal/ceres/iterative_refiner.cc
@@ -86,12 +86,14 @@ void DenseIterativeRefiner::Refine(const int num_cols,
                                    DenseCholesky* cholesky,
                                    double* solution_ptr) {
   Allocate(num_cols);
+  // As for DenseCholesky, only the column-major lower triangular part of lhs,
+  // i.e. the row-major upper triangular part, is used.
   ConstMatrixRef lhs(lhs_ptr, num_cols, num_cols);
   ConstVectorRef rhs(rhs_ptr, num_cols);
   VectorRef solution(solution_ptr, num_cols);
   std::string ignored_message;
   for (int i = 0; i < max_num_iterations_; ++i) {
-    residual_ = rhs - lhs * solution;
+    residual_ = rhs - lhs.selfadjointView<Eigen::Upper>() * solution;
     // solution += lhs^-1 residual
     cholesky->Solve(residual_.data(), correction_.data(), &ignored_message);
     solution += correction_;
-- 
2.43.0


From dc10d9ba2131163bf3efb0ea9327072e4fc3ea92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:54 +0000
Subject: [PATCH 13/26] fix: conjugate gradients failed once the residual
 vanished before min_num_iterations

With an exact initial guess, or a residual that vanishes early, the next
iteration computes rho = 0 and reports FAILURE for a solved system.
---
 internal/ceres/conjugate_gradients_solver.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/internal/ceres/conjugate_gradients_solver.h b/internal/ceres/conjugate_gradients_solver.h
index ba70a13..617fe61 100644
--- a/internal/ceres/conjugate_gradients_solver.h
+++ b/internal/ceres/conjugate_gradients_solver.h
@@ -144,7 +144,8 @@ LinearSolver::Summary ConjugateGradientsSolver(
   Axpby(1.0, rhs, -1.0, tmp, r, options.context, options.num_threads);
 
   double norm_r = Norm(r, options.context, options.num_threads);
-  if (options.min_num_iterations == 0 && norm_r <= tol_r) {
+  if (norm_r == 0.0 ||
+      (options.min_num_iterations == 0 && norm_r <= tol_r)) {
     summary.termination_type = LinearSolverTerminationType::SUCCESS;
     summary.message =
         absl::StrFormat("Convergence. |r| = %e <= %e.", norm_r, tol_r);
@@ -284,10 +285,12 @@ LinearSolver::Summary ConjugateGradientsSolver(
     }
     Q0 = Q1;
 
-    // Residual based termination.
+    // Residual based termination. Once the residual vanishes no further
+    // iterations are possible, even if fewer than min_num_iterations were done.
     norm_r = Norm(r, options.context, options.num_threads);
-    if (norm_r <= tol_r &&
-        summary.num_iterations >= options.min_num_iterations) {
+    if (norm_r == 0.0 ||
+        (norm_r <= tol_r &&
+         summary.num_iterations >= options.min_num_iterations)) {
       summary.termination_type = LinearSolverTerminationType::SUCCESS;
       summary.message =
           absl::StrFormat("Iteration: %d Convergence. |r| = %e <= %e.",
-- 
2.43.0


From ce9b012a970403fe7cb7914871892aecf80180e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:54 +0000
Subject: [PATCH 14/26] fix: explicit iterative Schur solver left the
 eliminated unknowns at zero when it ran out of iterations

---
 internal/ceres/schur_complement_solver.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/schur_complement_solver.cc b/internal/ceres/schur_complement_solver.cc
index 4a2fbba..48078b1 100644
--- a/internal/ceres/schur_complement_solver.cc
+++ b/internal/ceres/schur_complement_solver.cc
@@ -149,7 +149,10 @@ LinearSolver::Summary SchurComplementSolver::SolveImpl(
       SolveReducedLinearSystem(per_solve_options, reduced_solution);
   event_logger.AddEvent("ReducedSolve");
 
-  if (summary.termination_type == LinearSolverTerminationType::SUCCESS) {
+  // As in IterativeSchurComplementSolver, an inexact reduced solution is usable
+  // too, provided that the eliminated unknowns are computed from it.
+  if (summary.termination_type != LinearSolverTerminationType::FAILURE &&
+      summary.termination_type != LinearSolverTerminationType::FATAL_ERROR) {
     eliminator_->BackSubstitute(
         BlockSparseMatrixData(*A), b, per_solve_options.D, reduced_solution, x);
     event_logger.AddEvent("BackSubstitute");
-- 
2.43.0


From d12ee5af61b2468d85bff8d3d5c8e47709e04f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:21 +0000
Subject: [PATCH 15/26] fix: GetCovarianceBlock returns false for blocks that
 were not computed

It dereferenced a null covariance matrix when every computed block
involved a constant parameter block, and read one past the end of the
column indices when the row had no matching block.
---
 internal/ceres/covariance_impl.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index b2449f9..489be82 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -171,6 +171,13 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
     std::swap(parameter_block1, parameter_block2);
   }
 
+  if (covariance_matrix_ == nullptr) {
+    // Only blocks involving constant parameter blocks were computed.
+    LOG(ERROR) << "Unable to find covariance block for "
+               << original_parameter_block1 << " " << original_parameter_block2;
+    return false;
+  }
+
   // Find where in the covariance matrix the block is located.
   const int row_begin =
       FindOrDie(parameter_block_to_row_index_, parameter_block1);
@@ -185,7 +192,7 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
   // vector to determine where the set of columns corresponding to the
   // covariance block begin.
   int offset = 0;
-  while (cols_begin[offset] != col_begin && offset < row_size) {
+  while (offset < row_size && cols_begin[offset] != col_begin) {
     ++offset;
   }
 
-- 
2.43.0


From 2a704f9d38bf87dded7b02d2cf365fccf6bd070a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:21 +0000
Subject: [PATCH 16/26] fix: covariance computation fails if the Jacobian
 cannot be evaluated

The result of Problem::Evaluate was ignored and an empty Jacobian was
factorized instead.
---
 internal/ceres/covariance_impl.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 489be82..fa3ed11 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -554,7 +554,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingSuiteSparseQR() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Unable to evaluate the Jacobian.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   // Construct a compressed column form of the Jacobian.
@@ -721,7 +725,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Unable to evaluate the Jacobian.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   Matrix dense_jacobian(jacobian.num_rows, jacobian.num_cols);
@@ -817,7 +825,11 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingEigenSparseQR() {
   }
 
   CRSMatrix jacobian;
-  problem_->Evaluate(evaluate_options_, nullptr, nullptr, nullptr, &jacobian);
+  if (!problem_->Evaluate(
+          evaluate_options_, nullptr, nullptr, nullptr, &jacobian)) {
+    LOG(ERROR) << "Unable to evaluate the Jacobian.";
+    return false;
+  }
   event_logger.AddEvent("Evaluate");
 
   using EigenSparseMatrix = Eigen::SparseMatrix<double, Eigen::ColMajor>;
-- 
2.43.0


From cbb682c91c9c9eee422e9a7f1abb7f6add41ec1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:21 +0000
Subject: [PATCH 17/26] fix: report PlusJacobian failures when lifting a
 covariance block

The uninitialized Jacobian was used instead.
---
 internal/ceres/covariance_impl.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index fa3ed11..61828f5 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -252,8 +252,10 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
   Matrix block1_jacobian(block1_size, block1_tangent_size);
   if (manifold1 == nullptr) {
     block1_jacobian.setIdentity();
-  } else {
-    manifold1->PlusJacobian(parameter_block1, block1_jacobian.data());
+  } else if (!manifold1->PlusJacobian(parameter_block1,
+                                      block1_jacobian.data())) {
+    LOG(ERROR) << "Manifold::PlusJacobian failed for " << parameter_block1;
+    return false;
   }
 
   Matrix block2_jacobian(block2_size, block2_tangent_size);
@@ -263,8 +265,10 @@ bool CovarianceImpl::GetCovarianceBlockInTangentOrAmbientSpace(
   } else {
     if (manifold2 == nullptr) {
       block2_jacobian.setIdentity();
-    } else {
-      manifold2->PlusJacobian(parameter_block2, block2_jacobian.data());
+    } else if (!manifold2->PlusJacobian(parameter_block2,
+                                        block2_jacobian.data())) {
+      LOG(ERROR) << "Manifold::PlusJacobian failed for " << parameter_block2;
+      return false;
     }
   }
 
-- 
2.43.0


From 7ea970d9dbb9a9438c4c38f6f811d7ee23dd8826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:21 +0000
Subject: [PATCH 18/26] fix: count the zero eigenvalues of J'J in the dense SVD
 covariance

A vanishing Jacobian gave a covariance of NaNs, one with fewer rows than
columns was not reported as rank deficient, and null_space_rank dropped
nonzero eigenvalues in place of the zero ones.
---
 internal/ceres/covariance_impl.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 61828f5..8375f4d 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -766,8 +766,19 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
       sqrt(options_.min_reciprocal_condition_number);
 
   const bool automatic_truncation = (options_.null_space_rank < 0);
+  // J'J has one eigenvalue per column. If J has fewer rows than columns, then
+  // the ones without a corresponding singular value are zero.
+  const int num_eigenvalues = dense_jacobian.cols();
+  if (!automatic_truncation &&
+      num_eigenvalues - options_.null_space_rank > num_singular_values) {
+    LOG(ERROR) << "Error: The Jacobian has " << dense_jacobian.rows()
+               << " rows and " << num_eigenvalues
+               << " columns, but Covariance::Options::null_space_rank is "
+               << options_.null_space_rank << ".";
+    return false;
+  }
   const int max_rank = std::min(num_singular_values,
-                                num_singular_values - options_.null_space_rank);
+                                num_eigenvalues - options_.null_space_rank);
 
   // Compute the squared inverse of the singular values. Truncate the
   // computation based on min_singular_value_ratio and
@@ -776,7 +787,8 @@ bool CovarianceImpl::ComputeCovarianceValuesUsingDenseSVD() {
   // instead of a regular inverse.
   for (int i = 0; i < max_rank; ++i) {
     const double singular_value_ratio = singular_values[i] / max_singular_value;
-    if (singular_value_ratio < min_singular_value_ratio) {
+    // The ratio is NaN if all singular values are zero.
+    if (!(singular_value_ratio >= min_singular_value_ratio)) {
       // Since the singular values are in decreasing order, if
       // automatic truncation is enabled, then from this point on
       // all values will fail the ratio test and there is nothing to
-- 
2.43.0


From 1c44dd1c111a6e3256c618f930306a8234a37f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:40 +0000
Subject: [PATCH 19/26] fix: data race in GetCovarianceMatrix

Threads that fail to find their block wrote the same plain bool.
---
 internal/ceres/covariance_impl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/covariance_impl.cc b/internal/ceres/covariance_impl.cc
index 8375f4d..994bd30 100644
--- a/internal/ceres/covariance_impl.cc
+++ b/internal/ceres/covariance_impl.cc
@@ -31,6 +31,7 @@
 #include "ceres/covariance_impl.h"
 
 #include <algorithm>
+#include <atomic>
 #include <cstdlib>
 #include <memory>
 #include <numeric>
@@ -328,7 +329,7 @@ bool CovarianceImpl::GetCovarianceMatrixInTangentOrAmbientSpace(
   auto workspace = std::make_unique<double[]>(
       num_threads * max_covariance_block_size * max_covariance_block_size);
 
-  bool success = true;
+  std::atomic_bool success(true);
 
   // Technically the following code is a double nested loop where
   // i = 1:n, j = i:n.
-- 
2.43.0


From 903177e55a4ce9bcb6499b110614ba6d46778de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:29 +0000
Subject: [PATCH 20/26] fix: count inner iteration steps from zero

---
 internal/ceres/trust_region_minimizer.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ceres/trust_region_minimizer.cc b/internal/ceres/trust_region_minimizer.cc
index fa07263..38236d3 100644
--- a/internal/ceres/trust_region_minimizer.cc
+++ b/internal/ceres/trust_region_minimizer.cc
@@ -154,6 +154,7 @@ void TrustRegionMinimizer::Init(const Minimizer::Options& options,
   solver_summary_->termination_type = NO_CONVERGENCE;
   solver_summary_->num_successful_steps = 0;
   solver_summary_->num_unsuccessful_steps = 0;
+  solver_summary_->num_inner_iteration_steps = 0;
   solver_summary_->is_constrained = options.is_constrained;
 
   CHECK(options_.evaluator != nullptr);
-- 
2.43.0


From dc9eb520741e84f6d263b37bdf539d0ca41bd327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:06 +0000
Subject: [PATCH 21/26] fix: leave the caller's parameter block orderings alone

---
 internal/ceres/trust_region_preprocessor.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/internal/ceres/trust_region_preprocessor.cc b/internal/ceres/trust_region_preprocessor.cc
index 9d7a37d..57e5c1d 100644
--- a/internal/ceres/trust_region_preprocessor.cc
+++ b/internal/ceres/trust_region_preprocessor.cc
@@ -381,6 +381,18 @@ bool TrustRegionPreprocessor::Preprocess(const Solver::Options& options,
   EventLogger event_logger("TrustRegionPreprocessor::Preprocess");
   CHECK(pp != nullptr);
   pp->options = options;
+  // The orderings are edited below; work on copies so that the objects owned
+  // by the caller are left alone.
+  if (options.linear_solver_ordering != nullptr) {
+    pp->options.linear_solver_ordering =
+        std::make_shared<ParameterBlockOrdering>(
+            *options.linear_solver_ordering);
+  }
+  if (options.inner_iteration_ordering != nullptr) {
+    pp->options.inner_iteration_ordering =
+        std::make_shared<ParameterBlockOrdering>(
+            *options.inner_iteration_ordering);
+  }
   ChangeNumThreadsIfNeeded(&pp->options);
 
   pp->problem = problem;
-- 
2.43.0


From 7f08d0fc8c41180767f28c421460e25e9b81512f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:18 +0000
Subject: [PATCH 22/26] fix: Solve aborted when the first elimination group
 vanished with SCHUR_POWER_SERIES_EXPANSION

---
 internal/ceres/preconditioner.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/ceres/preconditioner.cc b/internal/ceres/preconditioner.cc
index 7c51976..ed3cd8b 100644
--- a/internal/ceres/preconditioner.cc
+++ b/internal/ceres/preconditioner.cc
@@ -39,6 +39,7 @@ Preconditioner::~Preconditioner() = default;
 PreconditionerType Preconditioner::PreconditionerForZeroEBlocks(
     PreconditionerType preconditioner_type) {
   if (preconditioner_type == SCHUR_JACOBI ||
+      preconditioner_type == SCHUR_POWER_SERIES_EXPANSION ||
       preconditioner_type == CLUSTER_JACOBI ||
       preconditioner_type == CLUSTER_TRIDIAGONAL) {
     return JACOBI;
-- 
2.43.0


From b889cba8313366e68aff667a698be457e90c805e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:20 +0000
Subject: [PATCH 23/26] fix: Solve aborted on linear solver orderings without
 elements

---
 internal/ceres/trust_region_preprocessor.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/trust_region_preprocessor.cc b/internal/ceres/trust_region_preprocessor.cc
index 57e5c1d..e4ba5e5 100644
--- a/internal/ceres/trust_region_preprocessor.cc
+++ b/internal/ceres/trust_region_preprocessor.cc
@@ -182,9 +182,13 @@ bool SetupLinearSolver(PreprocessedProblem* pp) {
     // user's requested linear solver (and a preconditioner as the
     // case may be) so we must use a different one.
     ParameterBlockOrdering* ordering = options.linear_solver_ordering.get();
-    const int min_group_id = ordering->MinNonZeroGroup();
+    //
+    // An ordering without elements has no first elimination group. If the
+    // linear solver needs the ordering, it is rejected by ReorderProgram below.
+    const int min_group_id =
+        (ordering->NumGroups() > 0) ? ordering->MinNonZeroGroup() : -1;
     ordering->Remove(pp->removed_parameter_blocks);
-    if (IsSchurType(options.linear_solver_type) &&
+    if (IsSchurType(options.linear_solver_type) && ordering->NumGroups() > 0 &&
         min_group_id != ordering->MinNonZeroGroup()) {
       AlternateLinearSolverAndPreconditionerForSchurTypeLinearSolver(&options);
     }
-- 
2.43.0


From 37e4be93b2966597412b2c4dba770e8ef7913821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:20 +0000
Subject: [PATCH 24/26] fix: inner iteration orderings with unknown parameter
 blocks dereferenced the end of the parameter map

---
 internal/ceres/coordinate_descent_minimizer.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/ceres/coordinate_descent_minimizer.cc b/internal/ceres/coordinate_descent_minimizer.cc
index 556d3aa..b61603c 100644
--- a/internal/ceres/coordinate_descent_minimizer.cc
+++ b/internal/ceres/coordinate_descent_minimizer.cc
@@ -67,7 +67,7 @@ bool CoordinateDescentMinimizer::Init(
     const Program& program,
     const ProblemImpl::ParameterMap& parameter_map,
     const ParameterBlockOrdering& ordering,
-    std::string* /*error*/) {
+    std::string* error) {
   parameter_blocks_.clear();
   independent_set_offsets_.clear();
   independent_set_offsets_.push_back(0);
@@ -83,7 +83,15 @@ bool CoordinateDescentMinimizer::Init(
   for (const auto& g_t_e : group_to_elements) {
     const auto& elements = g_t_e.second;
     for (double* parameter_block : elements) {
-      parameter_blocks_.push_back(parameter_map.find(parameter_block)->second);
+      const auto it = parameter_map.find(parameter_block);
+      if (it == parameter_map.end()) {
+        *error = absl::StrFormat(
+            "The inner iteration ordering contains a parameter block that is "
+            "not in the problem. Group Id: %d",
+            g_t_e.first);
+        return false;
+      }
+      parameter_blocks_.push_back(it->second);
       parameter_block_index[parameter_blocks_.back()] =
           parameter_blocks_.size() - 1;
     }
-- 
2.43.0


From 79929cc86a12cbc9e3b8316c8279fd014ac573f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:20 +0000
Subject: [PATCH 25/26] fix: Solve aborted on the accepted option
 min_lm_diagonal = 0

---
 internal/ceres/solver.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ceres/solver.cc b/internal/ceres/solver.cc
index 97c1d87..7b82e87 100644
--- a/internal/ceres/solver.cc
+++ b/internal/ceres/solver.cc
@@ -411,7 +411,7 @@ bool TrustRegionOptionsAreValid(const Solver::Options& options,
   OPTION_LE_OPTION(min_trust_region_radius, initial_trust_region_radius);
   OPTION_LE_OPTION(initial_trust_region_radius, max_trust_region_radius);
   OPTION_GE(min_relative_decrease, 0.0);
-  OPTION_GE(min_lm_diagonal, 0.0);
+  OPTION_GT(min_lm_diagonal, 0.0);
   OPTION_GE(max_lm_diagonal, 0.0);
   OPTION_LE_OPTION(min_lm_diagonal, max_lm_diagonal);
   OPTION_GE(max_num_consecutive_invalid_steps, 0);
-- 
2.43.0


From ab2276236108720c6d3bded330cab2580362f1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:53 +0000
Subject: [PATCH 26/26] fix: final_cost could be the cost of a rejected step

---
 internal/ceres/solver_utils.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ceres/solver_utils.h b/internal/ceres/solver_utils.h
index 60bca91..27eebce 100644
--- a/internal/ceres/solver_utils.h
+++ b/internal/ceres/solver_utils.h
@@ -55,7 +55,11 @@ void SetSummaryFinalCost(SummaryType* summary) {
   // iteration because the minimizer maybe making non-monotonic steps.
   for (int i = 0; i < summary->iterations.size(); ++i) {
     const IterationSummary& iteration_summary = summary->iterations[i];
-    summary->final_cost = std::min(iteration_summary.cost, summary->final_cost);
+    // The cost of an unsuccessful step is that of a point which was rejected.
+    if (iteration_summary.step_is_successful) {
+      summary->final_cost =
+          std::min(iteration_summary.cost, summary->final_cost);
+    }
   }
 }
 
-- 
2.43.0

