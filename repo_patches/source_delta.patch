From 4d2bbaff69f02babd337ecdf383a7ddd03a1e261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 01/13] fix: accepted inner tolerances no longer make Solve
 throw

The subproblem tolerance was saturated between inner_tol_min and the current
residual (or inner_tol_max) without making sure the bounds are ordered.
---
 fbstab/fbstab_algorithm-impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index bc5ce42..d44eff6 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -23,6 +23,7 @@ inline void AlgorithmParameters::ValidateOptions() {
 
   inner_tol_max = tools::saturate(inner_tol_max, 1e-8, 1e2);
   inner_tol_min = tools::saturate(inner_tol_min, 1e-14, 1e-2);
+  inner_tol_max = std::max(inner_tol_max, inner_tol_min);
 
   max_newton_iters = std::max(max_newton_iters, 1);
   max_prox_iters = std::max(max_prox_iters, 1);
@@ -177,7 +178,8 @@ SolverOut FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::Solve(
 
     // Update subproblem tolerance.
     inner_tol =
-        tools::saturate(inner_tol * opts_.delta, opts_.inner_tol_min, Ek);
+        tools::saturate(inner_tol * opts_.delta, opts_.inner_tol_min,
+                        std::max(Ek, opts_.inner_tol_min));
 
     // Solve the proximal subproblem.
     xi_->Copy(*xk_);
-- 
2.43.0


From a501179686cc30db7ed660e89d1ef7592ec61872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:41 +0000
Subject: [PATCH 02/13] fix: a primal infeasibility certificate must have
 nonnegative inequality duals

Without the sign condition the test accepts directions that prove nothing, e.g.
when the duals of the initial guess decrease along a dependent set of
constraints, and feasible problems were reported infeasible.
---
 fbstab/components/full_feasibility.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbstab/components/full_feasibility.cc b/fbstab/components/full_feasibility.cc
index 33a766a..7a04081 100644
--- a/fbstab/components/full_feasibility.cc
+++ b/fbstab/components/full_feasibility.cc
@@ -55,6 +55,7 @@ FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
 
   // The conditions for primal infeasibility are:
   // v'*b + l'*h < 0 and |A'*v + G'*l| \leq tol * |(v,l)|
+  // and v >= 0 (up to tol * |(v,l)|)
 
   // Compute p1 = infnorm(G'*l + A'*v).
   tz_.fill(0.0);
@@ -72,7 +73,7 @@ FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
   const double u = std::max(x.v().lpNorm<Eigen::Infinity>(),
                             x.l().lpNorm<Eigen::Infinity>());
   bool primal_feasible = true;
-  if ((p1 <= tol * u) && (p2 < 0)) {
+  if ((p1 <= tol * u) && (p2 < 0) && (x.v().minCoeff() >= -tol * u)) {
     primal_feasible = false;
   }
 
-- 
2.43.0


From 428781ed235e6e8adb970534319c5d17d7268f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:44 +0000
Subject: [PATCH 03/13] fix: do not report success with a non-finite residual

When the forcing norm overflows so does the tolerance, and inf <= inf.
---
 fbstab/fbstab_algorithm-impl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index d44eff6..333a1f5 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -162,7 +162,8 @@ SolverOut FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::Solve(
     // b) ||x(k) - x(k-1)|| <= stall_tol
     rk_->PenalizedNaturalResidual(*xk_);
     Ek = rk_->Norm();
-    if (Ek <= combo_tol_ || dx_->Norm() <= opts_.stall_tol) {
+    if (std::isfinite(Ek) &&
+        (Ek <= combo_tol_ || dx_->Norm() <= opts_.stall_tol)) {
       PrintIterLine(prox_iters_, newton_iters_, *rk_, *ri_, inner_tol, os);
       SolverOut output = PrepareOutput(ExitFlag::SUCCESS, prox_iters_,
                                        newton_iters_, *rk_, start_time, E0, os);
-- 
2.43.0


From 6fc1fb65b9167ee628f17f1c7c5d806dcb8e6a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:52 +0000
Subject: [PATCH 04/13] fix: report the residual and margin of the point that
 is returned

The residual in use after a subproblem was that of the point before its last
Newton step and dual projection, and the margin y = b - Az drifted away from z.
---
 fbstab/fbstab_algorithm-impl.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index 333a1f5..4d77c42 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -300,10 +300,13 @@ double FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::
     }
     x->axpy(t, *dx_);  // x <- x + t*dx
   }
-  // Make duals non-negative.
+  // Make duals non-negative, and return the KKT residual of the point that is
+  // handed back, with a margin free of the rounding accumulated by axpy.
   x->ProjectDuals();
+  x->InitializeConstraintMargin();
+  rk_->PenalizedNaturalResidual(*x);
 
-  return Eo;
+  return rk_->Norm();
 }
 
 // Helper functions *************************************
-- 
2.43.0


From 17ead4694d750e8211222782fd036ae3e84b9421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:59 +0000
Subject: [PATCH 05/13] fix: dense gemv ignores the contents of y when b is
 zero

The feasibility checker passes uninitialized workspaces with b = 0; 0*NaN left
the outcome of infeasibility detection to whatever the memory contained.
---
 fbstab/components/dense_data.cc | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/fbstab/components/dense_data.cc b/fbstab/components/dense_data.cc
index 4dd3a1c..136402f 100644
--- a/fbstab/components/dense_data.cc
+++ b/fbstab/components/dense_data.cc
@@ -11,27 +11,47 @@ using VectorXd = Eigen::VectorXd;
 
 void DenseData::gemvH(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * H_ * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * H_ * x;  // y may be uninitialized
+  } else {
+    *y = a * H_ * x + b * (*y);
+  }
 }
 
 void DenseData::gemvG(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * G_ * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * G_ * x;  // y may be uninitialized
+  } else {
+    *y = a * G_ * x + b * (*y);
+  }
 }
 
 void DenseData::gemvGT(const Eigen::VectorXd &x, double a, double b,
                        Eigen::VectorXd *y) const {
-  *y = a * G_.transpose() * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * G_.transpose() * x;  // y may be uninitialized
+  } else {
+    *y = a * G_.transpose() * x + b * (*y);
+  }
 }
 
 void DenseData::gemvA(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * A_ * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * A_ * x;  // y may be uninitialized
+  } else {
+    *y = a * A_ * x + b * (*y);
+  }
 }
 
 void DenseData::gemvAT(const Eigen::VectorXd &x, double a, double b,
                        Eigen::VectorXd *y) const {
-  *y = a * A_.transpose() * x + b * (*y);
+  if (b == 0.0) {
+    *y = a * A_.transpose() * x;  // y may be uninitialized
+  } else {
+    *y = a * A_.transpose() * x + b * (*y);
+  }
 }
 
 void DenseData::axpyf(double a, Eigen::VectorXd *y) const { *y += a * f_; }
-- 
2.43.0


From 7efe1dc3adb05161b67a443844604d938a3fed3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:02 +0000
Subject: [PATCH 06/13] fix: FullResidual::Fill updates the stored norms

The first iteration line printed the inner residual of the previous solve.
---
 fbstab/components/full_residual.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fbstab/components/full_residual.cc b/fbstab/components/full_residual.cc
index 6c88ca5..de9a429 100644
--- a/fbstab/components/full_residual.cc
+++ b/fbstab/components/full_residual.cc
@@ -29,6 +29,9 @@ void FullResidual::Fill(double a) {
   z_.setConstant(a);
   l_.setConstant(a);
   v_.setConstant(a);
+  znorm_ = z_.norm();
+  lnorm_ = l_.norm();
+  vnorm_ = v_.norm();
 }
 
 void FullResidual::Negate() {
-- 
2.43.0


From 69972dff7d4d2450407ed5ed3cf725ae25197049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 07/13] fix: measure solve_time with a monotonic clock

high_resolution_clock is the wall clock with libstdc++, so an adjustment during
a solve made solve_time negative or huge.
---
 fbstab/fbstab_algorithm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fbstab/fbstab_algorithm.h b/fbstab/fbstab_algorithm.h
index f26f2c0..6c8b782 100644
--- a/fbstab/fbstab_algorithm.h
+++ b/fbstab/fbstab_algorithm.h
@@ -81,7 +81,7 @@ struct AlgorithmParameters {
   void ReliableParameters();
 };
 
-using clock = std::chrono::high_resolution_clock;
+using clock = std::chrono::steady_clock;
 /**
  * This class implements the FBstab solver for
  * convex quadratic programs, see
-- 
2.43.0


From 31b7e357019017930e35ec948180121a6fc8ca7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 08/13] fix: FBstabDense::Solve checks the size of y like that
 of z, l and v

---
 fbstab/fbstab_dense.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbstab/fbstab_dense.h b/fbstab/fbstab_dense.h
index 7e309c5..3c36fd8 100644
--- a/fbstab/fbstab_dense.h
+++ b/fbstab/fbstab_dense.h
@@ -172,7 +172,8 @@ class FBstabDense {
       throw std::runtime_error(
           "In FBstabDense::Solve: mismatch between *this and data dimensions.");
     }
-    if (nz_ != x.z.size() || x.l.size() != nl_ || nv_ != x.v.size()) {
+    if (nz_ != x.z.size() || x.l.size() != nl_ || nv_ != x.v.size() ||
+        nv_ != x.y.size()) {
       throw std::runtime_error(
           "In FBstabDense::Solve: mismatch between *this and initial guess "
           "dimensions.");
-- 
2.43.0


From b4894bad74f657ddda1a3db441967a11576254ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:19 +0000
Subject: [PATCH 09/13] fix: a failed MatrixSequence copy assignment leaves the
 target unchanged

The dimensions were assigned before the allocation that can throw, leaving a
sequence whose indices run past its storage.
---
 tools/matrix_sequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/matrix_sequence.h b/tools/matrix_sequence.h
index 7632d8d..26faf57 100644
--- a/tools/matrix_sequence.h
+++ b/tools/matrix_sequence.h
@@ -66,11 +66,11 @@ class MatrixSequence {
   const double* data() const { return data_.data(); }
 
  private:
+  std::vector<double> data_;  // First, so that a throwing copy changes nothing.
   int N_ = 0;
   int nr_ = 1;
   int nc_ = 1;
   int nel_ = 0;
-  std::vector<double> data_;
 };
 
 /**
-- 
2.43.0


From 5ded927b389867d01040bcb068459b8bcf390508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:31 +0000
Subject: [PATCH 10/13] fix: MpcData rejects vector sequences with more than
 one column

They were accepted and aborted in an Eigen assertion later on.
---
 fbstab/components/mpc_data.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fbstab/components/mpc_data.cc b/fbstab/components/mpc_data.cc
index 0bed8c5..9fe7d2d 100644
--- a/fbstab/components/mpc_data.cc
+++ b/fbstab/components/mpc_data.cc
@@ -320,7 +320,7 @@ void MpcData::ValidateInputs() const {
   if (S_.cols() != nx) {
     throw std::runtime_error("Size mismatch in S input to MpcData.");
   }
-  if (q_.rows() != nx) {
+  if (q_.rows() != nx || q_.cols() != 1) {
     throw std::runtime_error("Size mismatch in q input to MpcData.");
   }
   if (E_.cols() != nx) {
@@ -332,7 +332,7 @@ void MpcData::ValidateInputs() const {
   if (B_.rows() != nx) {
     throw std::runtime_error("Size mismatch in B input to MpcData.");
   }
-  if (c_.rows() != nx) {
+  if (c_.rows() != nx || c_.cols() != 1) {
     throw std::runtime_error("Size mismatch in c input to MpcData.");
   }
 
@@ -343,7 +343,7 @@ void MpcData::ValidateInputs() const {
   if (S_.rows() != nu) {
     throw std::runtime_error("Size mismatch in S input to MpcData.");
   }
-  if (r_.rows() != nu) {
+  if (r_.rows() != nu || r_.cols() != 1) {
     throw std::runtime_error("Size mismatch in r input to MpcData.");
   }
   if (L_.cols() != nu) {
@@ -357,7 +357,7 @@ void MpcData::ValidateInputs() const {
   if (L_.rows() != nc) {
     throw std::runtime_error("Size mismatch in L input to MpcData.");
   }
-  if (d_.rows() != nc) {
+  if (d_.rows() != nc || d_.cols() != 1) {
     throw std::runtime_error("Size mismatch in d input to MpcData.");
   }
 }
-- 
2.43.0


From 6d82e955cd83a3c3f162b305065b3d507712fa82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:37 +0000
Subject: [PATCH 11/13] fix: matrix sequences whose element count overflows int
 are rejected

len*nrows*ncols wrapped around: the sequence kept its dimensions but allocated
little or no storage, and in-range indices read and wrote past it.
---
 tools/matrix_sequence.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/matrix_sequence.h b/tools/matrix_sequence.h
index 26faf57..58dbc7b 100644
--- a/tools/matrix_sequence.h
+++ b/tools/matrix_sequence.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <Eigen/Dense>
+#include <limits>
 #include <stdexcept>
 #include <vector>
 
@@ -35,6 +36,9 @@ class MatrixSequence {
       throw std::runtime_error(
           "Non-positive row or column count in MatrixSequence");
     }
+    if (len > std::numeric_limits<int>::max() / nrows / ncols) {
+      throw std::runtime_error("MatrixSequence is too large");
+    }
     N_ = len;
     nr_ = nrows;
     nc_ = ncols;
@@ -114,6 +118,9 @@ class MapMatrixSequence {
       throw std::runtime_error(
           "Cannot initialize MapMatrixSequence will a nullptr");
     }
+    if (len > std::numeric_limits<int>::max() / nrows / ncols) {
+      throw std::runtime_error("MapMatrixSequence is too large");
+    }
     N_ = len;
     nr_ = nrows;
     nc_ = ncols;
-- 
2.43.0


From f79335fc7c184878996708f7b88f803ad5ce6f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:29 +0000
Subject: [PATCH 12/13] fix: infeasibility is not concluded from a non-finite
 direction

---
 fbstab/components/full_feasibility.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fbstab/components/full_feasibility.cc b/fbstab/components/full_feasibility.cc
index 7a04081..bee34c3 100644
--- a/fbstab/components/full_feasibility.cc
+++ b/fbstab/components/full_feasibility.cc
@@ -2,6 +2,7 @@
 
 #include <Eigen/Dense>
 #include <algorithm>
+#include <cmath>
 #include <stdexcept>
 
 #include "fbstab/components/abstract_components.h"
@@ -49,7 +50,7 @@ FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
   double w = x.z().lpNorm<Eigen::Infinity>();
   bool dual_feasible = true;
   if ((d1 <= w * tol) && (d2 <= tol * w) && (d3 <= tol * w) && (d4 < 0) &&
-      (w > 1e-14)) {
+      (w > 1e-14) && std::isfinite(w)) {
     dual_feasible = false;
   }
 
@@ -73,7 +74,8 @@ FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
   const double u = std::max(x.v().lpNorm<Eigen::Infinity>(),
                             x.l().lpNorm<Eigen::Infinity>());
   bool primal_feasible = true;
-  if ((p1 <= tol * u) && (p2 < 0) && (x.v().minCoeff() >= -tol * u)) {
+  if ((p1 <= tol * u) && (p2 < 0) && (x.v().minCoeff() >= -tol * u) &&
+      std::isfinite(u)) {
     primal_feasible = false;
   }
 
-- 
2.43.0


From 18c596b490522e66bbcfb6af9cc06d026c3adcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:07 +0000
Subject: [PATCH 13/13] fix: MpcData::gemvGT drops the B' term unless a is 1 or
 -1

---
 fbstab/components/mpc_data.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fbstab/components/mpc_data.cc b/fbstab/components/mpc_data.cc
index 9fe7d2d..4b24455 100644
--- a/fbstab/components/mpc_data.cc
+++ b/fbstab/components/mpc_data.cc
@@ -191,6 +191,7 @@ void MpcData::gemvGT(const Eigen::VectorXd& x, double a, double b,
       ui.noalias() -= B.transpose() * vp1;
     } else {
       xi.noalias() += a * A.transpose().lazyProduct(vp1);
+      ui.noalias() += a * B.transpose().lazyProduct(vp1);
     }
   }
   // The i = N step of the recursion.
-- 
2.43.0

