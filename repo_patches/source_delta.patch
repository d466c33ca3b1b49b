From b8069dc95e737eed8ce91806fa02bd146c55f6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 01/12] fix: MpcData::gemvGT dropped the control block for
 scalings other than +-1

y <- a*G'*x + b*y omitted the a*B(i)'*x(i+1) contribution to u(i) unless a was
exactly 1 or -1.
---
 fbstab/components/mpc_data.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/fbstab/components/mpc_data.cc b/fbstab/components/mpc_data.cc
index 0bed8c5..9a2face 100644
--- a/fbstab/components/mpc_data.cc
+++ b/fbstab/components/mpc_data.cc
@@ -191,6 +191,7 @@ void MpcData::gemvGT(const Eigen::VectorXd& x, double a, double b,
       ui.noalias() -= B.transpose() * vp1;
     } else {
       xi.noalias() += a * A.transpose().lazyProduct(vp1);
+      ui.noalias() += a * B.transpose().lazyProduct(vp1);
     }
   }
   // The i = N step of the recursion.
-- 
2.43.0


From df2bfb76238455ea9df1c6dda2ea6fd7cbe62136 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 02/12] fix: FullResidual::Fill left the cached norms stale

Norm() and Merit() kept reporting the norm of the previous contents, e.g. of
the last subproblem of the previous Solve call in a reused solver, which was
also printed on the first line of the iteration display.
---
 fbstab/components/full_residual.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fbstab/components/full_residual.cc b/fbstab/components/full_residual.cc
index 6c88ca5..de9a429 100644
--- a/fbstab/components/full_residual.cc
+++ b/fbstab/components/full_residual.cc
@@ -29,6 +29,9 @@ void FullResidual::Fill(double a) {
   z_.setConstant(a);
   l_.setConstant(a);
   v_.setConstant(a);
+  znorm_ = z_.norm();
+  lnorm_ = l_.norm();
+  vnorm_ = v_.norm();
 }
 
 void FullResidual::Negate() {
-- 
2.43.0


From c434d8d9985af85f60b74ec3fa527d55a6f7076b Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 03/12] fix: DenseData::gemv* read the output vector when b is
 zero

FullFeasibility passes uninitialized workspaces with b = 0, so a NaN in that
memory (0*NaN = NaN) silently disabled infeasibility detection. Overwrite the
output when b = 0, as MpcData does.
---
 fbstab/components/dense_data.cc | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/fbstab/components/dense_data.cc b/fbstab/components/dense_data.cc
index 4dd3a1c..eaa0a13 100644
--- a/fbstab/components/dense_data.cc
+++ b/fbstab/components/dense_data.cc
@@ -9,29 +9,44 @@ namespace fbstab {
 using MatrixXd = Eigen::MatrixXd;
 using VectorXd = Eigen::VectorXd;
 
+namespace {
+
+// Performs the operation y <- a*M*x + b*y. As in BLAS, y is overwritten without
+// being read if b is zero, i.e., it may be uninitialized or non-finite.
+template <class Matrix>
+void gemv(const Matrix &M, const VectorXd &x, double a, double b, VectorXd *y) {
+  if (b == 0.0) {
+    *y = a * M * x;
+  } else {
+    *y = a * M * x + b * (*y);
+  }
+}
+
+}  // namespace
+
 void DenseData::gemvH(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * H_ * x + b * (*y);
+  gemv(H_, x, a, b, y);
 }
 
 void DenseData::gemvG(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * G_ * x + b * (*y);
+  gemv(G_, x, a, b, y);
 }
 
 void DenseData::gemvGT(const Eigen::VectorXd &x, double a, double b,
                        Eigen::VectorXd *y) const {
-  *y = a * G_.transpose() * x + b * (*y);
+  gemv(G_.transpose(), x, a, b, y);
 }
 
 void DenseData::gemvA(const Eigen::VectorXd &x, double a, double b,
                       Eigen::VectorXd *y) const {
-  *y = a * A_ * x + b * (*y);
+  gemv(A_, x, a, b, y);
 }
 
 void DenseData::gemvAT(const Eigen::VectorXd &x, double a, double b,
                        Eigen::VectorXd *y) const {
-  *y = a * A_.transpose() * x + b * (*y);
+  gemv(A_.transpose(), x, a, b, y);
 }
 
 void DenseData::axpyf(double a, Eigen::VectorXd *y) const { *y += a * f_; }
-- 
2.43.0


From f14f2d281acb221937f31570de48c908a997c82c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 04/12] fix: FBstabDense::Solve did not validate the size of
 the constraint margin

A VariableRef whose y had the wrong size was only noticed, by an assertion,
after the solve had already overwritten z, l, and v.
---
 fbstab/fbstab_dense.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fbstab/fbstab_dense.h b/fbstab/fbstab_dense.h
index 7e309c5..3c36fd8 100644
--- a/fbstab/fbstab_dense.h
+++ b/fbstab/fbstab_dense.h
@@ -172,7 +172,8 @@ class FBstabDense {
       throw std::runtime_error(
           "In FBstabDense::Solve: mismatch between *this and data dimensions.");
     }
-    if (nz_ != x.z.size() || x.l.size() != nl_ || nv_ != x.v.size()) {
+    if (nz_ != x.z.size() || x.l.size() != nl_ || nv_ != x.v.size() ||
+        nv_ != x.y.size()) {
       throw std::runtime_error(
           "In FBstabDense::Solve: mismatch between *this and initial guess "
           "dimensions.");
-- 
2.43.0


From bb5e76d51662ae622fa694f826dfc958b423c123 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:36:05 +0000
Subject: [PATCH 05/12] fix: Solve threw if the residual or inner_tol_max was
 below inner_tol_min

Both are reachable with options that pass ValidateOptions, e.g., a small
abs_tol or a large inner_tol_min, and made tools::saturate throw.
---
 fbstab/fbstab_algorithm-impl.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index bc5ce42..d44eff6 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -23,6 +23,7 @@ inline void AlgorithmParameters::ValidateOptions() {
 
   inner_tol_max = tools::saturate(inner_tol_max, 1e-8, 1e2);
   inner_tol_min = tools::saturate(inner_tol_min, 1e-14, 1e-2);
+  inner_tol_max = std::max(inner_tol_max, inner_tol_min);
 
   max_newton_iters = std::max(max_newton_iters, 1);
   max_prox_iters = std::max(max_prox_iters, 1);
@@ -177,7 +178,8 @@ SolverOut FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::Solve(
 
     // Update subproblem tolerance.
     inner_tol =
-        tools::saturate(inner_tol * opts_.delta, opts_.inner_tol_min, Ek);
+        tools::saturate(inner_tol * opts_.delta, opts_.inner_tol_min,
+                        std::max(Ek, opts_.inner_tol_min));
 
     // Solve the proximal subproblem.
     xi_->Copy(*xk_);
-- 
2.43.0


From ee59a94f30e771d1f3e7a2d8fefe849267bb4de3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 06/12] fix: a failed proximal subproblem could be reported as
 SUCCESS

If the inner iterations ran out without making progress then x(k+1) = x(k) and
the stall test reported SUCCESS at an arbitrary point, e.g., for
H = 0, f = (0,1), A = [1 -1; -1 1], b = 0 (unbounded) started at z = v = (1,1).
Only accept a stall if the subproblem was solved to tolerance.
---
 fbstab/fbstab_algorithm-impl.h | 9 +++++++--
 fbstab/fbstab_algorithm.h      | 3 +++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index d44eff6..5f42910 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -152,6 +152,7 @@ SolverOut FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::Solve(
   // Reset iteration count.
   newton_iters_ = 0;
   prox_iters_ = 0;
+  subproblem_solved_ = false;
 
   PrintIterHeader(os);
 
@@ -159,10 +160,12 @@ SolverOut FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::Solve(
   for (int k = 0; k < opts_.max_prox_iters; k++) {
     // The solver stops if:
     // a) ||rk|| <= abs_tol + rel_tol*(1 + ||w||)
-    // b) ||x(k) - x(k-1)|| <= stall_tol
+    // b) ||x(k) - x(k-1)|| <= stall_tol, provided that x(k) actually solves
+    //    the proximal subproblem, i.e., isn't just a failed inner iteration.
     rk_->PenalizedNaturalResidual(*xk_);
     Ek = rk_->Norm();
-    if (Ek <= combo_tol_ || dx_->Norm() <= opts_.stall_tol) {
+    if (Ek <= combo_tol_ ||
+        (subproblem_solved_ && dx_->Norm() <= opts_.stall_tol)) {
       PrintIterLine(prox_iters_, newton_iters_, *rk_, *ri_, inner_tol, os);
       SolverOut output = PrepareOutput(ExitFlag::SUCCESS, prox_iters_,
                                        newton_iters_, *rk_, start_time, E0, os);
@@ -233,6 +236,7 @@ double FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::
                             double sigma, double current_outer_residual,
                             const OutputStream& os) {
   merit_buffer_.fill(0.0);  // Clear the buffer of past merit function values.
+  subproblem_solved_ = false;
 
   double Eo = 0;   // KKT residual.
   double t = 1.0;  // Linesearch parameter.
@@ -253,6 +257,7 @@ double FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::
         (Ei <= opts_.inner_tol_min)) {
       PrintDetailedLine(i, t, *ri_, os);
       PrintDetailedFooter(tol, *ri_, os);
+      subproblem_solved_ = true;
       break;
     } else {
       PrintDetailedLine(i, t, *ri_, os);
diff --git a/fbstab/fbstab_algorithm.h b/fbstab/fbstab_algorithm.h
index f26f2c0..138bf27 100644
--- a/fbstab/fbstab_algorithm.h
+++ b/fbstab/fbstab_algorithm.h
@@ -160,6 +160,9 @@ class FBstabAlgorithm {
   int newton_iters_ = 0;
   int prox_iters_ = 0;
 
+  // Indicates if the last proximal subproblem was solved to tolerance.
+  bool subproblem_solved_ = false;
+
   // Component objects
   Variable* xk_ = nullptr;  // outer loop variable
   Variable* xi_ = nullptr;  // inner loop variable
-- 
2.43.0


From 90ed92e98118ba2d668ea76986f86a82340400b8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:36:32 +0000
Subject: [PATCH 07/12] fix: infeasibility was reported based on invalid
 certificates

The primal check ignored the sign of v: for H = f = A = 0 and b >= 0 the
feasible point z = 0 was called PRIMAL_INFEASIBLE when started at v = 1. Both
checks also accepted a decrease of the size of the rounding errors, e.g.,
f'*z = -1e-8 with |Hz| <= 1e-8 for H = diag(0,1), f = (0,1), which is bounded.
---
 fbstab/components/full_feasibility.cc | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/fbstab/components/full_feasibility.cc b/fbstab/components/full_feasibility.cc
index 33a766a..9930fb8 100644
--- a/fbstab/components/full_feasibility.cc
+++ b/fbstab/components/full_feasibility.cc
@@ -25,6 +25,10 @@ FullFeasibility::FullFeasibility(int nz, int nl, int nv) {
 FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
     const FullVariable& x, double tol) {
   NullDataCheck();
+  // The decrease conditions below must hold with a margin that is significant
+  // when compared to the error allowed in the other (approximate) conditions,
+  // otherwise rounding errors are mistaken for certificates.
+  const double margin = std::min(100.0 * tol, 1e-3);
 
   // The conditions for dual-infeasibility are:
   // max(Az) <= 0 and f'*z < 0 and |Hz| <= tol * |z| and |Gz| <= tol*|z|
@@ -45,16 +49,17 @@ FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
   tz_.setConstant(0.0);
   data_->axpyf(1.0, &tz_);
   const double d4 = tz_.dot(x.z());
+  const double fnorm = tz_.lpNorm<Eigen::Infinity>();
 
   double w = x.z().lpNorm<Eigen::Infinity>();
   bool dual_feasible = true;
-  if ((d1 <= w * tol) && (d2 <= tol * w) && (d3 <= tol * w) && (d4 < 0) &&
-      (w > 1e-14)) {
+  if ((d1 <= w * tol) && (d2 <= tol * w) && (d3 <= tol * w) &&
+      (d4 < -margin * w * fnorm) && (w > 1e-14)) {
     dual_feasible = false;
   }
 
   // The conditions for primal infeasibility are:
-  // v'*b + l'*h < 0 and |A'*v + G'*l| \leq tol * |(v,l)|
+  // v'*b + l'*h < 0 and |A'*v + G'*l| \leq tol * |(v,l)| and v >= 0
 
   // Compute p1 = infnorm(G'*l + A'*v).
   tz_.fill(0.0);
@@ -68,11 +73,16 @@ FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
   tl_.setConstant(0.0);
   data_->axpyh(1.0, &tl_);
   const double p2 = tl_.dot(x.l()) + tv_.dot(x.v());
+  const double bnorm = std::max(tl_.lpNorm<Eigen::Infinity>(),
+                                tv_.lpNorm<Eigen::Infinity>());
+
+  // Compute p3 = min(v).
+  const double p3 = x.v().minCoeff();
 
   const double u = std::max(x.v().lpNorm<Eigen::Infinity>(),
                             x.l().lpNorm<Eigen::Infinity>());
   bool primal_feasible = true;
-  if ((p1 <= tol * u) && (p2 < 0)) {
+  if ((p1 <= tol * u) && (p2 < -margin * u * bnorm) && (p3 >= -tol * u)) {
     primal_feasible = false;
   }
 
-- 
2.43.0


From 4b067a769c64b2ea3c1f5d234ed9f6f53c43cab8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 08/12] fix: stale KKT residual after the inner iterations

The residual returned by SolveProximalSubproblem (and left in rk_) belonged to
the iterate before the last Newton step and the dual projection. It was used to
select the better point when the Newton limit is hit, and reported in
SolverOut::residual when the proximal limit is hit.
---
 fbstab/fbstab_algorithm-impl.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index 5f42910..c949989 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -238,7 +238,6 @@ double FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::
   merit_buffer_.fill(0.0);  // Clear the buffer of past merit function values.
   subproblem_solved_ = false;
 
-  double Eo = 0;   // KKT residual.
   double t = 1.0;  // Linesearch parameter.
   for (int i = 0; i < opts_.max_inner_iters; i++) {
     // Compute subproblem residual.
@@ -246,7 +245,7 @@ double FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::
     double Ei = ri_->Norm();
     // Compute KKT residual.
     rk_->PenalizedNaturalResidual(*x);
-    Eo = rk_->Norm();
+    const double Eo = rk_->Norm();
 
     // The inner loop stops if:
     // a) The subproblem is solved to the prescribed
@@ -307,7 +306,9 @@ double FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::
   // Make duals non-negative.
   x->ProjectDuals();
 
-  return Eo;
+  // The last KKT residual was computed before the final step and projection.
+  rk_->PenalizedNaturalResidual(*x);
+  return rk_->Norm();
 }
 
 // Helper functions *************************************
-- 
2.43.0


From 4dd13041e0f895b52b7e2b5a8a2146ae7e46962f Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:30:16 +0000
Subject: [PATCH 09/12] fix: the library did not link when built without
 optimization

Residual declares NaturalResidual and PenalizedNaturalResidual without defining
them; they are part of the interface, i.e., pure virtual.
---
 fbstab/components/abstract_components.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/fbstab/components/abstract_components.h b/fbstab/components/abstract_components.h
index db0e6e4..a50264e 100644
--- a/fbstab/components/abstract_components.h
+++ b/fbstab/components/abstract_components.h
@@ -204,7 +204,7 @@ class Residual {
    *
    * @param[in] x Evaluation point.
    */
-  virtual void NaturalResidual(const Variable& x);
+  virtual void NaturalResidual(const Variable& x) = 0;
 
   /**
    * Computes the natural residual function augmented with
@@ -214,7 +214,7 @@ class Residual {
    *
    * @param[in] x Evaluation point.
    */
-  virtual void PenalizedNaturalResidual(const Variable& x);
+  virtual void PenalizedNaturalResidual(const Variable& x) = 0;
 
   /** @return ||z|| */
   virtual double z_norm() const = 0;
-- 
2.43.0


From a2ed2d0156cfcd41032b1f5faccf43639c57ba2a Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:31:47 +0000
Subject: [PATCH 10/12] fix: MpcData accepted vector sequences with more than
 one column

q, r, c and d are sequences of column vectors, only their row counts were
validated. Matrix valued ones got through and were indexed out of bounds.
---
 fbstab/components/mpc_data.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fbstab/components/mpc_data.cc b/fbstab/components/mpc_data.cc
index 9a2face..4b24455 100644
--- a/fbstab/components/mpc_data.cc
+++ b/fbstab/components/mpc_data.cc
@@ -321,7 +321,7 @@ void MpcData::ValidateInputs() const {
   if (S_.cols() != nx) {
     throw std::runtime_error("Size mismatch in S input to MpcData.");
   }
-  if (q_.rows() != nx) {
+  if (q_.rows() != nx || q_.cols() != 1) {
     throw std::runtime_error("Size mismatch in q input to MpcData.");
   }
   if (E_.cols() != nx) {
@@ -333,7 +333,7 @@ void MpcData::ValidateInputs() const {
   if (B_.rows() != nx) {
     throw std::runtime_error("Size mismatch in B input to MpcData.");
   }
-  if (c_.rows() != nx) {
+  if (c_.rows() != nx || c_.cols() != 1) {
     throw std::runtime_error("Size mismatch in c input to MpcData.");
   }
 
@@ -344,7 +344,7 @@ void MpcData::ValidateInputs() const {
   if (S_.rows() != nu) {
     throw std::runtime_error("Size mismatch in S input to MpcData.");
   }
-  if (r_.rows() != nu) {
+  if (r_.rows() != nu || r_.cols() != 1) {
     throw std::runtime_error("Size mismatch in r input to MpcData.");
   }
   if (L_.cols() != nu) {
@@ -358,7 +358,7 @@ void MpcData::ValidateInputs() const {
   if (L_.rows() != nc) {
     throw std::runtime_error("Size mismatch in L input to MpcData.");
   }
-  if (d_.rows() != nc) {
+  if (d_.rows() != nc || d_.cols() != 1) {
     throw std::runtime_error("Size mismatch in d input to MpcData.");
   }
 }
-- 
2.43.0


From b3bf57c96005afcce28963a3016c9c2490f18e3c Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 22:34:23 +0000
Subject: [PATCH 11/12] fix: components skipped documented size, sign and null
 checks

DenseData dereferenced its inputs before (not) checking them, both linear
solvers, the feasibility checker and the inner residual accepted arguments of
the wrong size although they document a runtime_error.
---
 fbstab/components/dense_cholesky_solver.cc |  6 ++++--
 fbstab/components/dense_data.h             | 20 ++++++++++++++------
 fbstab/components/full_feasibility.cc      |  5 +++++
 fbstab/components/full_residual.cc         |  9 +++++++++
 fbstab/components/riccati_linear_solver.cc | 14 ++++++++++++--
 5 files changed, 44 insertions(+), 10 deletions(-)

diff --git a/fbstab/components/dense_cholesky_solver.cc b/fbstab/components/dense_cholesky_solver.cc
index 3e6bdda..ed9d93f 100644
--- a/fbstab/components/dense_cholesky_solver.cc
+++ b/fbstab/components/dense_cholesky_solver.cc
@@ -1,6 +1,7 @@
 #include "fbstab/components/dense_cholesky_solver.h"
 
 #include <Eigen/Dense>
+#include <algorithm>
 #include <cmath>
 
 #include "fbstab/components/dense_data.h"
@@ -10,7 +11,7 @@
 namespace fbstab {
 
 DenseCholeskySolver::DenseCholeskySolver(int nz, int nl, int nv)
-    : ldlt_(nz + nl) {
+    : ldlt_(std::max(nz + nl, 0)) {
   if (nz <= 0 || nv <= 0 || nl < 0) {
     throw std::runtime_error(
         "In DenseCholeskySolver: nz and nv must be > 0 and nl >= 0");
@@ -36,7 +37,7 @@ bool DenseCholeskySolver::Initialize(const FullVariable& x,
     throw std::runtime_error(
         "In DenseCholeskySolver::Factor: inputs must be the same size");
   }
-  if (xbar.nz_ != nz_ || xbar.nv_ != nv_) {
+  if (xbar.nz_ != nz_ || xbar.nv_ != nv_ || xbar.nl_ != nl_) {
     throw std::runtime_error(
         "In DenseCholeskySolver::Factor: inputs must match object size.");
   }
@@ -79,6 +80,7 @@ bool DenseCholeskySolver::Initialize(const FullVariable& x,
 }
 
 bool DenseCholeskySolver::Solve(const FullResidual& r, FullVariable* x) const {
+  NullDataCheck();
   if (x == nullptr) {
     throw std::runtime_error(
         "In DenseCholeskySolver::Solve: x cannot be null.");
diff --git a/fbstab/components/dense_data.h b/fbstab/components/dense_data.h
index fd6451f..39577ba 100644
--- a/fbstab/components/dense_data.h
+++ b/fbstab/components/dense_data.h
@@ -44,12 +44,12 @@ class DenseData : public Data {
   template <class Matrix, class Vector>
   DenseData(const Matrix* H, const Vector* f, const Matrix* G, const Vector* h,
             const Matrix* A, const Vector* b)
-      : H_(H->data(), H->rows(), H->cols()),
-        G_(G->data(), G->rows(), G->cols()),
-        A_(A->data(), A->rows(), A->cols()),
-        f_(f->data(), f->size()),
-        h_(h->data(), h->size()),
-        b_(b->data(), b->size()) {
+      : H_(NotNull(H)->data(), NotNull(H)->rows(), NotNull(H)->cols()),
+        G_(NotNull(G)->data(), NotNull(G)->rows(), NotNull(G)->cols()),
+        A_(NotNull(A)->data(), NotNull(A)->rows(), NotNull(A)->cols()),
+        f_(NotNull(f)->data(), NotNull(f)->size()),
+        h_(NotNull(h)->data(), NotNull(h)->size()),
+        b_(NotNull(b)->data(), NotNull(b)->size()) {
     if (H->rows() != H->cols() || H->rows() != f->size()) {
       throw std::runtime_error(
           "In DenseData::DenseData: H must be square and the same size as f");
@@ -109,6 +109,14 @@ class DenseData : public Data {
   int nv() const { return nv_; }
 
  private:
+  template <class T>
+  static const T* NotNull(const T* input) {
+    if (input == nullptr) {
+      throw std::runtime_error("In DenseData::DenseData: null input.");
+    }
+    return input;
+  }
+
   int nz_ = 0;  // Number of decision variables.
   int nl_ = 0;  // Number of equality constraints
   int nv_ = 0;  // Number of inequality constraints.
diff --git a/fbstab/components/full_feasibility.cc b/fbstab/components/full_feasibility.cc
index 9930fb8..7f41069 100644
--- a/fbstab/components/full_feasibility.cc
+++ b/fbstab/components/full_feasibility.cc
@@ -25,6 +25,11 @@ FullFeasibility::FullFeasibility(int nz, int nl, int nv) {
 FullFeasibility::FeasibilityStatus FullFeasibility::CheckFeasibility(
     const FullVariable& x, double tol) {
   NullDataCheck();
+  if (x.nz_ != nz_ || x.nl_ != nl_ || x.nv_ != nv_) {
+    throw std::runtime_error(
+        "In FullFeasibility::CheckFeasibility: x and *this must be the same "
+        "size.");
+  }
   // The decrease conditions below must hold with a margin that is significant
   // when compared to the error allowed in the other (approximate) conditions,
   // otherwise rounding errors are mistaken for certificates.
diff --git a/fbstab/components/full_residual.cc b/fbstab/components/full_residual.cc
index de9a429..9f9dfdf 100644
--- a/fbstab/components/full_residual.cc
+++ b/fbstab/components/full_residual.cc
@@ -52,6 +52,15 @@ double FullResidual::Merit() const {
 void FullResidual::InnerResidual(const FullVariable& x,
                                  const FullVariable& xbar, double sigma) {
   NullDataCheck();
+  if (!SameSize(x) || !SameSize(xbar)) {
+    throw std::runtime_error(
+        "In FullResidual::InnerResidual: x, xbar and *this must be the same "
+        "size.");
+  }
+  if (sigma <= 0) {
+    throw std::runtime_error(
+        "In FullResidual::InnerResidual: sigma must be positive.");
+  }
   // r.z = H*z + f + G'*l + A'*v + sigma*(z-zbar)
   z_.setConstant(0.0);
   data_->axpyf(1.0, &z_);
diff --git a/fbstab/components/riccati_linear_solver.cc b/fbstab/components/riccati_linear_solver.cc
index 8211cab..a630d54 100644
--- a/fbstab/components/riccati_linear_solver.cc
+++ b/fbstab/components/riccati_linear_solver.cc
@@ -85,8 +85,11 @@ bool RiccatiLinearSolver::Initialize(const FullVariable& x,
     throw std::runtime_error(
         "In RiccatiLinearSolver::Initialize: sigma must be positive.");
   }
+  if (x.nz_ != nz_ || x.nl_ != nl_ || x.nv_ != nv_) {
+    throw std::runtime_error(
+        "In RiccatiLinearSolver::Initialize: inputs must match object size.");
+  }
   NullDataCheck();
-  // TODO: Add size check with the linear solver as well!
 
   Eigen::Vector2d temp;
   for (int i = 0; i < nv_; i++) {
@@ -210,12 +213,19 @@ bool RiccatiLinearSolver::Initialize(const FullVariable& x,
 }
 
 bool RiccatiLinearSolver::Solve(const FullResidual& r, FullVariable* dx) const {
+  if (dx == nullptr) {
+    throw std::runtime_error(
+        "In RiccatiLinearSolver::Solve: dx cannot be null.");
+  }
   if (!r.SameSize(*dx)) {
     throw std::runtime_error(
         "In RiccatiLinearSolver::Solve: r and dx size mismatch.");
   }
+  if (dx->nz_ != nz_ || dx->nl_ != nl_ || dx->nv_ != nv_) {
+    throw std::runtime_error(
+        "In RiccatiLinearSolver::Solve: inputs must match object size.");
+  }
   NullDataCheck();
-  // TODO: Add size check against the *this
 
   // Compute the post-elimination residual,
   // r1 = rz - A'*(rv./mus) and r2 = -rl.
-- 
2.43.0


From 7f8fa5ce0b627b922b4bbd0e3030b2f0d1089cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Fri, 20 Nov 2026 04:20:40 +0000
Subject: [PATCH 12/12] fix: keep the stopping tolerance finite

The sum of squares in ForcingNorm overflows for huge data, so that the
tolerance and the residual were both infinite and the guess was returned
as a solution.
---
 fbstab/fbstab_algorithm-impl.h | 2 ++
 fbstab/fbstab_algorithm.h      | 1 +
 2 files changed, 3 insertions(+)

diff --git a/fbstab/fbstab_algorithm-impl.h b/fbstab/fbstab_algorithm-impl.h
index c949989..5cf2505 100644
--- a/fbstab/fbstab_algorithm-impl.h
+++ b/fbstab/fbstab_algorithm-impl.h
@@ -136,6 +136,8 @@ SolverOut FBstabAlgorithm<Variable, Residual, LinearSolver, Feasibility>::Solve(
   // Initialization phase.
   const double sigma = opts_.sigma0;
   combo_tol_ = opts_.abs_tol + opts_.rel_tol * (1.0 + qp_data.ForcingNorm());
+  // Keep it finite: an infinite residual (overflowing data) is not a solution.
+  combo_tol_ = std::min(combo_tol_, std::numeric_limits<double>::max());
 
   // Copy the initial guess into xk
   CopyIntoVariable(*z0, *l0, *v0, *y0, xk_);
diff --git a/fbstab/fbstab_algorithm.h b/fbstab/fbstab_algorithm.h
index 138bf27..ce177fe 100644
--- a/fbstab/fbstab_algorithm.h
+++ b/fbstab/fbstab_algorithm.h
@@ -7,6 +7,7 @@
 #include <cstdio>
 #include <cstring>
 #include <iostream>
+#include <limits>
 #include <stdexcept>
 
 #include "tools/utilities.h"
-- 
2.43.0

