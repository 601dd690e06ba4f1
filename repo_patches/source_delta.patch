From e5ea549ec89cb9c9f9b41e4ec2ee8d4d12b20c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:58 +0000
Subject: [PATCH 01/41] fix: only refuse the end-velocity cost when the end
 velocity is constrained

The test used a logical instead of a bitwise and, so every option set was
refused.
---
 src/costfunction_definition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/costfunction_definition.cpp b/src/costfunction_definition.cpp
index de97f85..fdbfae7 100644
--- a/src/costfunction_definition.cpp
+++ b/src/costfunction_definition.cpp
@@ -24,7 +24,7 @@ void computeCostMidPoint(const ProblemData& pData, const VectorX& /*Ts*/,
 void computeCostEndVelocity(const ProblemData& pData, const VectorX& /*Ts*/,
                             const double T, const T_time& /*timeArray*/,
                             MatrixXX& H, VectorX& g) {
-  if (pData.constraints_.flag_ && END_VEL)
+  if (pData.constraints_.flag_ & END_VEL)
     throw std::runtime_error(
         "Can't use computeCostEndVelocity as cost function when end velocity "
         "is a contraint");
-- 
2.43.0


From 798068d24562c139b8eefbd119d4a90840584994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:58 +0000
Subject: [PATCH 02/41] fix: use the angular momentum bounds, not the kinematic
 ones, on the angular variable

The kinematic rows were written in place of the angular ones (overwriting the
kinematic block when no angular bound was given, or out of the block reserved).
---
 src/common_solve_methods.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common_solve_methods.cpp b/src/common_solve_methods.cpp
index 7d534b9..0750880 100644
--- a/src/common_solve_methods.cpp
+++ b/src/common_solve_methods.cpp
@@ -124,7 +124,7 @@ std::pair<MatrixXX, VectorX> compute6dControlPointInequalities(
     ++i;
   }
   addKinematic(A, b, cData.Kin_, cData.kin_, dimAng);
-  if (useAngMomentum) addAngularMomentum(A, b, cData.Kin_, cData.kin_);
+  if (useAngMomentum) addAngularMomentum(A, b, cData.Ang_, cData.ang_);
   fail = false;
   // normalization removes 0 value rows, but resizing
   // must actually be done with matrices and not the references
-- 
2.43.0


From a9c2ef77e12de5db7fe12482f4e67ae39dd647d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:58 +0000
Subject: [PATCH 03/41] fix: allocate all rows for upper bounds in the QP back
 end

The matrix had three rows less than the block written into it.
---
 src/solver-abstract.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver-abstract.cpp b/src/solver-abstract.cpp
index 3d9e513..88061f2 100644
--- a/src/solver-abstract.cpp
+++ b/src/solver-abstract.cpp
@@ -59,7 +59,7 @@ void addConstraintMaxBoundQuadProg(solvers::Cref_vectorX maxBounds,
   if (maxBounds.size() == 0) return;
   MatrixXd& res = data.first;
   VectorXd& resv = data.second;
-  MatrixXd D(res.rows() + res.cols() - 3, res.cols());
+  MatrixXd D(res.rows() + res.cols(), res.cols());
   VectorXd d(resv.rows() + res.cols());
   D.block(0, 0, res.rows(), res.cols()) = res;
   D.block(res.rows(), 0, res.cols(), res.cols()) =
-- 
2.43.0


From ea61c335358d6b951f95881db3eb4ad93f070de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:58 +0000
Subject: [PATCH 04/41] fix: bound the acceleration, not its value times T^2,
 in the continuous formulation

The control points of a derived curve do not include the time scaling factor.
---
 src/computeCOMTraj.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index c89d249..dca147d 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -499,10 +499,11 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
     // add acceleration constraints :
     for (bezier_wp_t::cit_point_t wpit = ddcs.waypoints().begin();
          wpit != ddcs.waypoints().end(); ++wpit) {
-      A.block(id_rows, 0, 3, 3) = wpit->first;  // upper
-      b.segment(id_rows, 3) = acc_bounds - wpit->second;
-      A.block(id_rows + 3, 0, 3, 3) = -wpit->first;  // lower
-      b.segment(id_rows + 3, 3) = acc_bounds + wpit->second;
+      // the waypoints of a derivate have to be scaled by mult_T_
+      A.block(id_rows, 0, 3, 3) = ddcs.mult_T_ * wpit->first;  // upper
+      b.segment(id_rows, 3) = acc_bounds - ddcs.mult_T_ * wpit->second;
+      A.block(id_rows + 3, 0, 3, 3) = -ddcs.mult_T_ * wpit->first;  // lower
+      b.segment(id_rows + 3, 3) = acc_bounds + ddcs.mult_T_ * wpit->second;
       id_rows += 6;
     }
   }
-- 
2.43.0


From 775d0ac3c1630eb55b8fe1548cb94fa72cd56518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 05/41] fix: size the GLPK coefficient arrays from the problem

More than 20000 non-zero coefficients overflowed fixed arrays on the stack, and
a problem without constraints made GLPK abort.
---
 src/glpk-wrapper.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index f331379..8bdcc52 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -20,6 +20,7 @@
 #include <glpk.h>
 
 #include <iostream>
+#include <vector>
 
 namespace solvers {
 
@@ -44,9 +45,13 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   glp_init_smcp(&opts);
   opts.msg_lev = GLP_MSG_OFF;
   glp_prob* lp;
-  int ia[1 + 20000];       // Row indices of each element
-  int ja[1 + 20000];       // column indices of each element
-  double ar[1 + 20000];    // numerical values of corresponding elements
+  // GLPK indices start at 1
+  const std::size_t maxNumElements =
+      1 + (std::size_t)CI.size() + (std::size_t)CE.size();
+  std::vector<int> ia(maxNumElements);  // Row indices of each element
+  std::vector<int> ja(maxNumElements);  // column indices of each element
+  std::vector<double> ar(
+      maxNumElements);     // numerical values of corresponding elements
   lp = glp_create_prob();  // creates a problem object
   glp_set_prob_name(lp,
                     "sample");  // assigns a symbolic name to the problem object
@@ -58,7 +63,7 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   const int numEqConstraints = (int)(CE.rows());
   const int numIneqConstraints = (int)(CI.rows());
   const int num_constraints_total(numEqConstraints + numIneqConstraints);
-  glp_add_rows(lp, num_constraints_total);
+  if (num_constraints_total > 0) glp_add_rows(lp, num_constraints_total);
   int idrow = 1;  // adds three rows to the problem object
   int idcol = 1;
   int idConsMat = 1;
@@ -96,7 +101,7 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
     glp_set_col_bnds(lp, idcol, getType(miB, maB, i), miB(i), maB(i));
     glp_set_obj_coef(lp, idcol, g0(i));
   }
-  glp_load_matrix(lp, idConsMat - 1, ia, ja, ar);
+  glp_load_matrix(lp, idConsMat - 1, ia.data(), ja.data(), ar.data());
 
   int res = glp_simplex(lp, &opts);
   res = glp_get_status(lp);
-- 
2.43.0


From 64c431d55519c1b13835fb58f3dba39116c53185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 06/41] fix: declare variables with equal bounds as fixed to
 GLPK

GLPK refuses a double-bounded variable whose bounds are equal, so such problems
were reported infeasible.
---
 src/glpk-wrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index 8bdcc52..9bf1f98 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -29,7 +29,7 @@ int getType(const VectorXd& mib, const VectorXd& mab, const int i) {
   const double& mabV = mab(i);
   int type = GLP_FR;
   if (mibV > UNBOUNDED_DOWN && mabV < UNBOUNDED_UP)
-    type = GLP_DB;
+    type = mibV == mabV ? GLP_FX : GLP_DB;
   else if (mibV > UNBOUNDED_DOWN)
     type = GLP_LO;
   else if (mabV < UNBOUNDED_UP)
-- 
2.43.0


From b7b6d3519789def215cf1cc61bee200dfd55dc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:39 +0000
Subject: [PATCH 07/41] fix: find the free waypoints of the symbolic curve by
 position, not by value

A fixed waypoint at the origin was taken for the free one, so the continuous
formulation constrained another curve than the one returned; and several free
waypoints all mapped to the same variable.
---
 src/waypoints_definition.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/waypoints_definition.cpp b/src/waypoints_definition.cpp
index a5b9db1..f9adcc2 100644
--- a/src/waypoints_definition.cpp
+++ b/src/waypoints_definition.cpp
@@ -299,14 +299,23 @@ bezier_wp_t::t_point_t computeConstantWaypointsSymbolic(
   const int DIM_POINT = 3;  // FIXME : always true ??
   const int DIM_VAR = dimVar(pData);
   std::vector<point_t> pts = computeConstantWaypoints(pData, T);
+  // the free waypoints directly follow the ones defined by the initial
+  // constraints
+  const ConstraintFlag flag = pData.constraints_.flag_;
+  const int idFree = (flag & INIT_POS ? 1 : 0) + (flag & INIT_VEL ? 1 : 0) +
+                     (flag & INIT_ACC ? 1 : 0) + (flag & INIT_JERK ? 1 : 0);
+  const int numVar = DIM_VAR / DIM_POINT;
+  // if only the final velocity is constrained, x is also the final position
+  const int numFree = (flag & END_VEL) && !(flag & END_POS) ? 2 : numVar;
   bezier_wp_t::t_point_t wps;
-  for (std::vector<point_t>::const_iterator pit = pts.begin(); pit != pts.end();
-       ++pit) {
+  for (int i = 0; i < (int)pts.size(); ++i) {
     waypoint_t w = initwp(DIM_POINT, DIM_VAR);
-    if (pit->isZero()) {
-      w.first = MatrixXX::Identity(DIM_POINT, DIM_VAR);
+    if (i >= idFree && i < idFree + numFree) {
+      const int idVar = std::min(i - idFree, numVar - 1);
+      w.first.block(0, idVar * DIM_POINT, DIM_POINT, DIM_POINT) =
+          Matrix3::Identity();
     } else {
-      w.second = *pit;
+      w.second = pts[i];
     }
     wps.push_back(w);
   }
-- 
2.43.0


From b4ebeb39e2a919890ef3583e470a0f8fb18ea9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:59 +0000
Subject: [PATCH 08/41] fix: use the initial waypoint in the curve expressions
 of the jerk option set

The position, velocity and acceleration expressions used the final waypoint
(index 8) where the initial one (index 0) belongs.
---
 .../waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index 54480f4..dd4bb66 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -38,9 +38,9 @@ inline coefs_t evaluateCurveAtTime(const std::vector<point_t>& pi, double t) {
   const double t8 = t7 * t;
   // equation found with sympy
   wp.first = 70.0 * t8 - 280.0 * t7 + 420.0 * t6 - 280.0 * t5 + 70.0 * t4;
-  wp.second = 1.0 * pi[8] * t8 - 8.0 * pi[8] * t7 + 28.0 * pi[8] * t6 -
-              56.0 * pi[8] * t5 + 70.0 * pi[8] * t4 - 56.0 * pi[8] * t3 +
-              28.0 * pi[8] * t2 - 8.0 * pi[8] * t + 1.0 * pi[8] -
+  wp.second = 1.0 * pi[0] * t8 - 8.0 * pi[0] * t7 + 28.0 * pi[0] * t6 -
+              56.0 * pi[0] * t5 + 70.0 * pi[0] * t4 - 56.0 * pi[0] * t3 +
+              28.0 * pi[0] * t2 - 8.0 * pi[0] * t + 1.0 * pi[0] -
               8.0 * pi[1] * t8 + 56.0 * pi[1] * t7 - 168.0 * pi[1] * t6 +
               280.0 * pi[1] * t5 - 280.0 * pi[1] * t4 + 168.0 * pi[1] * t3 -
               56.0 * pi[1] * t2 + 8.0 * pi[1] * t + 28.0 * pi[2] * t8 -
@@ -69,9 +69,9 @@ inline coefs_t evaluateVelocityCurveAtTime(const std::vector<point_t>& pi,
   wp.first =
       (560.0 * t7 - 1960.0 * t6 + 2520.0 * t5 - 1400.0 * t4 + 280.0 * t3) *
       alpha;
-  wp.second = (8.0 * pi[8] * t7 - 56.0 * pi[8] * t6 + 168.0 * pi[8] * t5 -
-               280.0 * pi[8] * t4 + 280.0 * pi[8] * t3 - 168.0 * pi[8] * t2 +
-               56.0 * pi[8] * t - 8.0 * pi[8] - 64.0 * pi[1] * t7 +
+  wp.second = (8.0 * pi[0] * t7 - 56.0 * pi[0] * t6 + 168.0 * pi[0] * t5 -
+               280.0 * pi[0] * t4 + 280.0 * pi[0] * t3 - 168.0 * pi[0] * t2 +
+               56.0 * pi[0] * t - 8.0 * pi[0] - 64.0 * pi[1] * t7 +
                392.0 * pi[1] * t6 - 1008.0 * pi[1] * t5 + 1400.0 * pi[1] * t4 -
                1120.0 * pi[1] * t3 + 504.0 * pi[1] * t2 - 112.0 * pi[1] * t +
                8.0 * pi[1] + 224.0 * pi[2] * t7 - 1176.0 * pi[2] * t6 +
@@ -99,9 +99,9 @@ inline coefs_t evaluateAccelerationCurveAtTime(const std::vector<point_t>& pi,
   wp.first =
       ((3920.0 * t6 - 11760.0 * t5 + 12600.0 * t4 - 5600.0 * t3 + 840.0 * t2)) *
       alpha;
-  wp.second = (56.0 * pi[8] * t6 - 336.0 * pi[8] * t5 + 840.0 * pi[8] * t4 -
-               1120.0 * pi[8] * t3 + 840.0 * pi[8] * t2 - 336.0 * pi[8] * t +
-               56.0 * pi[8] - 448.0 * pi[1] * t6 + 2352.0 * pi[1] * t5 -
+  wp.second = (56.0 * pi[0] * t6 - 336.0 * pi[0] * t5 + 840.0 * pi[0] * t4 -
+               1120.0 * pi[0] * t3 + 840.0 * pi[0] * t2 - 336.0 * pi[0] * t +
+               56.0 * pi[0] - 448.0 * pi[1] * t6 + 2352.0 * pi[1] * t5 -
                5040.0 * pi[1] * t4 + 5600.0 * pi[1] * t3 - 3360.0 * pi[1] * t2 +
                1008.0 * pi[1] * t - 112.0 * pi[1] + 1568.0 * pi[2] * t6 -
                7056.0 * pi[2] * t5 + 12600.0 * pi[2] * t4 -
-- 
2.43.0


From da97ddc2d591a09b3727d8b119f904bc87035539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:59 +0000
Subject: [PATCH 09/41] fix: wrong neighbour of the free waypoint in the
 acceleration waypoints of the jerk option set

---
 .../waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index dd4bb66..59d504b 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -436,7 +436,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
   w.first = -112 * alpha * Matrix3::Identity();
-  w.second = (56 * pi[3] + 56 * pi[8]) * alpha;
+  w.second = (56 * pi[3] + 56 * pi[5]) * alpha;
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w4:
-- 
2.43.0


From c0fc4df7e73aea5cc644667ae5a1ec9dfa138963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:14 +0000
Subject: [PATCH 10/41] fix: put the constant terms of the three-variable jerk
 set on the right powers of t

The groups of the velocity and acceleration expressions were sorted as strings
(t10 before t2, ...) but labelled in numeric order.
---
 ...points_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index 3310ae9..f5500bf 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -102,21 +102,21 @@ inline waypoint_t evaluateVelocityCurveWaypointAtTime(
        t * (1.0 * (90.0 * pi[0] - 180.0 * pi[1] + 90.0 * pi[2])) +
        t2 * (1.0 * (-360.0 * pi[0] + 1080.0 * pi[1] - 1080.0 * pi[2] +
                     360.0 * pi[3])) +
-       t3 * (1.0 *
+       t8 * (1.0 *
              (-90.0 * pi[0] + 810.0 * pi[1] - 3240.0 * pi[2] + 7560.0 * pi[3] +
               3240.0 * pi[7] - 810.0 * pi[8] + 90.0 * pi[9])) +
-       t4 * (1.0 * (840.0 * pi[0] - 3360.0 * pi[1] + 5040.0 * pi[2] -
+       t3 * (1.0 * (840.0 * pi[0] - 3360.0 * pi[1] + 5040.0 * pi[2] -
                     3360.0 * pi[3])) +
-       t5 * (1.0 * (10.0 * pi[0] + 10.0 * pi[10] - 100.0 * pi[1] +
+       t9 * (1.0 * (10.0 * pi[0] + 10.0 * pi[10] - 100.0 * pi[1] +
                     450.0 * pi[2] - 1200.0 * pi[3] - 1200.0 * pi[7] +
                     450.0 * pi[8] - 100.0 * pi[9])) +
-       t6 * (1.0 * (-1260.0 * pi[0] + 6300.0 * pi[1] - 12600.0 * pi[2] +
+       t4 * (1.0 * (-1260.0 * pi[0] + 6300.0 * pi[1] - 12600.0 * pi[2] +
                     12600.0 * pi[3])) +
-       t7 * (1.0 * (1260.0 * pi[0] - 7560.0 * pi[1] + 18900.0 * pi[2] -
+       t5 * (1.0 * (1260.0 * pi[0] - 7560.0 * pi[1] + 18900.0 * pi[2] -
                     25200.0 * pi[3])) +
-       t8 * (1.0 * (-840.0 * pi[0] + 5880.0 * pi[1] - 17640.0 * pi[2] +
+       t6 * (1.0 * (-840.0 * pi[0] + 5880.0 * pi[1] - 17640.0 * pi[2] +
                     29400.0 * pi[3] + 840.0 * pi[7])) +
-       t9 * (1.0 * (360.0 * pi[0] - 2880.0 * pi[1] + 10080.0 * pi[2] -
+       t7 * (1.0 * (360.0 * pi[0] - 2880.0 * pi[1] + 10080.0 * pi[2] -
                     20160.0 * pi[3] - 2880.0 * pi[7] + 360.0 * pi[8]))) *
       alpha;
   return wp;
@@ -153,18 +153,18 @@ inline waypoint_t evaluateAccelerationCurveWaypointAtTime(
                    720.0 * pi[3])) +
        t2 * (1.0 * (2520.0 * pi[0] - 10080.0 * pi[1] + 15120.0 * pi[2] -
                     10080.0 * pi[3])) +
-       t3 * (1.0 * (90.0 * pi[0] + 90.0 * pi[10] - 900.0 * pi[1] +
+       t8 * (1.0 * (90.0 * pi[0] + 90.0 * pi[10] - 900.0 * pi[1] +
                     4050.0 * pi[2] - 10800.0 * pi[3] - 10800.0 * pi[7] +
                     4050.0 * pi[8] - 900.0 * pi[9])) +
-       t4 * (1.0 * (-5040.0 * pi[0] + 25200.0 * pi[1] - 50400.0 * pi[2] +
+       t3 * (1.0 * (-5040.0 * pi[0] + 25200.0 * pi[1] - 50400.0 * pi[2] +
                     50400.0 * pi[3])) +
-       t5 * (1.0 * (6300.0 * pi[0] - 37800.0 * pi[1] + 94500.0 * pi[2] -
+       t4 * (1.0 * (6300.0 * pi[0] - 37800.0 * pi[1] + 94500.0 * pi[2] -
                     126000.0 * pi[3])) +
-       t6 * (1.0 * (-5040.0 * pi[0] + 35280.0 * pi[1] - 105840.0 * pi[2] +
+       t5 * (1.0 * (-5040.0 * pi[0] + 35280.0 * pi[1] - 105840.0 * pi[2] +
                     176400.0 * pi[3] + 5040.0 * pi[7])) +
-       t7 * (1.0 * (2520.0 * pi[0] - 20160.0 * pi[1] + 70560.0 * pi[2] -
+       t6 * (1.0 * (2520.0 * pi[0] - 20160.0 * pi[1] + 70560.0 * pi[2] -
                     141120.0 * pi[3] - 20160.0 * pi[7] + 2520.0 * pi[8])) +
-       t8 * (1.0 * (-720.0 * pi[0] + 6480.0 * pi[1] - 25920.0 * pi[2] +
+       t7 * (1.0 * (-720.0 * pi[0] + 6480.0 * pi[1] - 25920.0 * pi[2] +
                     60480.0 * pi[3] + 25920.0 * pi[7] - 6480.0 * pi[8] +
                     720.0 * pi[9]))) *
       alpha;
-- 
2.43.0


From b00f407c45e3a97e25c714f96488bcfd8970f6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:43 +0000
Subject: [PATCH 11/41] fix: acceleration waypoints of the option sets with
 three and five free variables

A fixed waypoint was not doubled, one waypoint was emitted twice and, with five
variables, one term used the (null) place holder of a free waypoint.
---
 .../waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh  | 3 +--
 .../waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh  | 5 ++---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index f5500bf..921397a 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -343,7 +343,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w2:
   w.first.block<3, 3>(0, 0) = 90 * alpha * Matrix3::Identity();  // x0
-  w.second = alpha * 90 * (pi[2] - pi[3]);
+  w.second = alpha * 90 * (pi[2] - 2 * pi[3]);
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
@@ -372,7 +372,6 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w7:
   w.second = alpha * 90 * (pi[7] - 2 * pi[8] + pi[9]);
   wps.push_back(w);
-  wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w8:
   w.second = alpha * 90 * (pi[10] + pi[8] - 2 * pi[9]);
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
index 830be88..dcfe194 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
@@ -371,7 +371,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w2:
   w.first.block<3, 3>(0, 0) = 132 * alpha * Matrix3::Identity();  // x0
-  w.second = alpha * 132 * (pi[2] - pi[3]);
+  w.second = alpha * 132 * (pi[2] - 2 * pi[3]);
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w3:
@@ -401,7 +401,7 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w7:
   w.first.block<3, 3>(0, 9) = 132 * alpha * Matrix3::Identity();    // x3
   w.first.block<3, 3>(0, 12) = -264 * alpha * Matrix3::Identity();  // x4
-  w.second = alpha * 132 * pi[7];
+  w.second = alpha * 132 * pi[9];
   wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w8:
@@ -412,7 +412,6 @@ std::vector<waypoint_t> computeAccelerationWaypoints(
   // assign w9:
   w.second = alpha * 132 * (pi[9] - 2 * pi[10] + pi[11]);
   wps.push_back(w);
-  wps.push_back(w);
   w = initwp(DIM_POINT, DIM_VAR);
   // assign w10:
   w.second = alpha * 132 * (pi[12] + pi[10] - 2 * pi[11]);
-- 
2.43.0


From 5801d32f922df0c9020e209128b5b8e283430735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:05 +0000
Subject: [PATCH 12/41] fix: refuse the expressions that are not implemented
 for the jerk option sets with several free waypoints

---
 .../waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh    |  3 ++-
 .../waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh    | 12 ++++++++----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
index 921397a..ed49b1f 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x3_j1_ddc1_dc1_c1.hh
@@ -261,7 +261,8 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   // const Matrix3 Cg = skew(g);
   // const double T2 = T * T;
   // const double alpha = 1 / (T2);
-  std::cout << "NOT IMPLEMENTED YET" << std::endl;
+  throw std::runtime_error(
+      "This expression is not implemented for the current constraints set");
   return wps;
 }
 
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
index dcfe194..38ce4f3 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_x5_j1_ddc1_dc1_c1.hh
@@ -90,7 +90,8 @@ inline waypoint_t evaluateCurveWaypointAtTime(const std::vector<point_t>& pi,
 inline waypoint_t evaluateVelocityCurveWaypointAtTime(
     const std::vector<point_t>& pi, double T, double t) {
   waypoint_t wp = initwp(DIM_POINT, DIM_VAR);
-  std::cout << "NOT IMPLEMENTED YET" << std::endl;
+  throw std::runtime_error(
+      "This expression is not implemented for the current constraints set");
 
   const double alpha = 1. / (T);
   const double t2 = t * t;
@@ -138,7 +139,8 @@ inline waypoint_t evaluateVelocityCurveWaypointAtTime(
 inline waypoint_t evaluateAccelerationCurveWaypointAtTime(
     const std::vector<point_t>& pi, double T, double t) {
   waypoint_t wp = initwp(DIM_POINT, DIM_VAR);
-  std::cout << "NOT IMPLEMENTED YET" << std::endl;
+  throw std::runtime_error(
+      "This expression is not implemented for the current constraints set");
 
   const double alpha = 1. / (T * T);
   const double t2 = t * t;
@@ -189,7 +191,8 @@ inline waypoint_t evaluateAccelerationCurveWaypointAtTime(
 inline waypoint_t evaluateJerkCurveWaypointAtTime(
     const std::vector<point_t>& pi, double T, double t) {
   waypoint_t wp = initwp(DIM_POINT, DIM_VAR);
-  std::cout << "NOT IMPLEMENTED YET" << std::endl;
+  throw std::runtime_error(
+      "This expression is not implemented for the current constraints set");
 
   const double alpha = 1. / (T * T * T);
   const double t2 = t * t;
@@ -279,7 +282,8 @@ inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
   // const Matrix3 Cg = skew(g);
   // const double T2 = T * T;
   // const double alpha = 1 / (T2);
-  std::cout << "NOT IMPLEMENTED YET" << std::endl;
+  throw std::runtime_error(
+      "This expression is not implemented for the current constraints set");
   return wps;
 }
 
-- 
2.43.0


From 414e498a32519120bf6e549ed737129280e491e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 13/41] fix: end the last phase exactly at the total duration
 in the continuous formulation

---
 src/computeCOMTraj.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index dca147d..f0c4eb6 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -459,10 +459,14 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
   // for each phases, split the curve and compute the waypoints of the splitted
   // curves
   for (size_t id_phase = 0; id_phase < (size_t)Ts.size(); ++id_phase) {
-    bezier_wp_t cs = c.extract(current_t, Ts[id_phase] + current_t);
-    bezier_wp_t ddcs = ddc.extract(current_t, Ts[id_phase] + current_t);
-    bezier_wp_t ws = w.extract(current_t, Ts[id_phase] + current_t);
-    current_t += Ts[id_phase];
+    // avoid numerical errors : the last phase ends exactly at T
+    const double end_t = id_phase + 1 == (size_t)Ts.size()
+                             ? T
+                             : std::min(Ts[id_phase] + current_t, T);
+    bezier_wp_t cs = c.extract(current_t, end_t);
+    bezier_wp_t ddcs = ddc.extract(current_t, end_t);
+    bezier_wp_t ws = w.extract(current_t, end_t);
+    current_t = end_t;
 
     phase = pData.contacts_[id_phase];
 
-- 
2.43.0


From 89b07ac7897107f82fe5de846ff9fa63b2993b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:22 +0000
Subject: [PATCH 14/41] fix: share a waypoint between contact phases only when
 one contact set contains the other

The equality constraints of the force formulation were dropped at a phase
switch by comparing the number of contact generators only.
---
 src/computeCOMTraj.cpp | 60 ++++++++++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index f0c4eb6..f846969 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -373,6 +373,35 @@ long int computeNumIneqContinuous(const ProblemData& pData, const VectorX& Ts,
   return num_ineq;
 }
 
+/**
+ * @brief isSubContact whether each generator of contact phase a also is one of
+ * contact phase b, so that any wrench feasible for a is feasible for b
+ */
+static bool isSubContact(const ContactData& a, const ContactData& b) {
+  const centroidal_dynamics::Matrix6X& ga = a.contactPhase_->m_G_centr;
+  const centroidal_dynamics::Matrix6X& gb = b.contactPhase_->m_G_centr;
+  for (int i = 0; i < ga.cols(); ++i) {
+    bool found = false;
+    for (int j = 0; j < gb.cols() && !found; ++j)
+      found = ga.col(i).isApprox(gb.col(j), 1e-9);
+    if (!found) return false;
+  }
+  return true;
+}
+
+// The last waypoint of a phase is the first one of the next phase. It only has
+// to be constrained by the most constraining of both phases, if there is one.
+static bool lastConstrainedByNext(const ProblemData& pData, const size_t id) {
+  return id + 1 < pData.contacts_.size() &&
+         isSubContact(pData.contacts_[id + 1], pData.contacts_[id]);
+}
+
+static bool firstConstrainedByPrevious(const ProblemData& pData,
+                                       const size_t id) {
+  return id > 0 && !lastConstrainedByNext(pData, id - 1) &&
+         isSubContact(pData.contacts_[id - 1], pData.contacts_[id]);
+}
+
 /**
  * @brief computeNumEqContinuous compute the number of equalities required by
  * all the phases
@@ -388,21 +417,13 @@ long int computeNumEqContinuous(const ProblemData& pData, const int w_degree,
                                 const bool useForce, long int& forceVarDim) {
   long int numEq = 0;
   if (useForce) {
-    long int cSize = 0;
-    int currentDegree;  // remove redundant equalities depending on more
-                        // constraining problem
-    std::vector<ContactData>::const_iterator it2 = pData.contacts_.begin();
-    ++it2;
-    for (std::vector<ContactData>::const_iterator it = pData.contacts_.begin();
-         it != pData.contacts_.end(); ++it, ++it2) {
-      currentDegree = w_degree + 1;
-      if (cSize != 0 && it->contactPhase_->m_G_centr.cols() > cSize)
-        currentDegree -= 1;
-      cSize = it->contactPhase_->m_G_centr.cols();
-      if (it2 != pData.contacts_.end() &&
-          it2->contactPhase_->m_G_centr.cols() <= cSize)
-        currentDegree -= 1;
-      forceVarDim += cSize * (currentDegree);
+    for (size_t id = 0; id < pData.contacts_.size(); ++id) {
+      // remove redundant equalities depending on more constraining problem
+      int currentDegree = w_degree + 1;
+      if (firstConstrainedByPrevious(pData, id)) currentDegree -= 1;
+      if (lastConstrainedByNext(pData, id)) currentDegree -= 1;
+      forceVarDim += pData.contacts_[id].contactPhase_->m_G_centr.cols() *
+                     currentDegree;
       numEq += (numRowsForce) * (currentDegree);
     }
   }
@@ -454,7 +475,6 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
   int dimH;
   Vector3 acc_bounds = Vector3::Ones() * pData.constraints_.maxAcceleration_;
 
-  long int cSize = 0;
   long int rowIdx = 0;
   // for each phases, split the curve and compute the waypoints of the splitted
   // curves
@@ -488,12 +508,8 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
     } else {
       bezier_wp_t::cit_point_t start = ws.waypoints().begin();
       bezier_wp_t::cit_point_t stop = ws.waypoints().end();
-      if (id_phase + 1 < (size_t)Ts.size() &&
-          pData.contacts_[id_phase + 1].contactPhase_->m_G_centr.cols() <=
-              phase.contactPhase_->m_G_centr.cols())
-        --stop;
-      if (cSize > 0 && cSize < phase.contactPhase_->m_G_centr.cols()) ++start;
-      cSize = phase.contactPhase_->m_G_centr.cols();
+      if (lastConstrainedByNext(pData, id_phase)) --stop;
+      if (firstConstrainedByPrevious(pData, id_phase)) ++start;
       for (bezier_wp_t::cit_point_t wpit = start; wpit != stop;
            ++wpit, rowIdx += 6)
         assignStabilityConstraintsForTimeStepForce(
-- 
2.43.0


From d1e87e222fe7c17db33fe0285acd575b3d16a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 15/41] fix: use the inverse of the Hessian factor in the
 sparse QP solver

---
 src/eiquadprog-fast.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 7871fd5..e22acf2 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -691,7 +691,9 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
   c1 = trace_sparse(Hess);
 
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_DECOMPOSITION);
-  Eigen::SimplicialLLT<SpMat, Eigen::Lower> cholsp_(Hess);
+  // natural ordering: m_J has to be the inverse of the factor of Hess itself
+  Eigen::SimplicialLLT<SpMat, Eigen::Lower, Eigen::NaturalOrdering<int> >
+      cholsp_(Hess);
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_DECOMPOSITION);
 
   /* initialize the matrix R */
@@ -706,7 +708,7 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
     START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_CHOWLESKY_INVERSE);
     m_J.setIdentity(nVars, nVars);
 #ifdef OPTIMIZE_HESSIAN_INVERSE
-    cholsp_.matrixU().solve(m_J);
+    m_J = cholsp_.matrixU().solve(m_J);
 #else
     m_J = cholsp_.matrixU().solve(m_J);
 #endif
-- 
2.43.0


From 57b77343ea8cd9052d020faad1260e1ccebd3d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 16/41] fix: compare the QP step direction with zero relatively
 to the problem scale

---
 src/eiquadprog-fast.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index e22acf2..8fb0286 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -344,8 +344,8 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
     /* compute full step length t2: i.e., the minimum step in primal space s.t.
     the contraint becomes feasible */
     t2 = 0.0;
-    if (std::abs(z.dot(z)) >
-        std::numeric_limits<double>::epsilon())  // i.e. z != 0
+    if (z.dot(np) > std::numeric_limits<double>::epsilon() *
+                        d.squaredNorm())  // i.e. z != 0
       t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
 
     x += t2 * z;
@@ -540,8 +540,8 @@ l2a: /* Step 2a: determine step direction */
   }
   /* Compute t2: full step length (minimum step in primal space such that the
    * constraint ip becomes feasible */
-  if (std::abs(z.dot(z)) >
-      std::numeric_limits<double>::epsilon())  // i.e. z != 0
+  if (z.dot(np) > std::numeric_limits<double>::epsilon() *
+                      d.squaredNorm())  // i.e. z != 0
     t2 = -s(ip) / z.dot(np);
   else
     t2 = inf; /* +inf */
@@ -768,8 +768,8 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
     /* compute full step length t2: i.e., the minimum step in primal space s.t.
     the contraint becomes feasible */
     t2 = 0.0;
-    if (std::abs(z.dot(z)) >
-        std::numeric_limits<double>::epsilon())  // i.e. z != 0
+    if (z.dot(np) > std::numeric_limits<double>::epsilon() *
+                        d.squaredNorm())  // i.e. z != 0
       t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
 
     x += t2 * z;
@@ -964,8 +964,8 @@ l2a: /* Step 2a: determine step direction */
   }
   /* Compute t2: full step length (minimum step in primal space such that the
    * constraint ip becomes feasible */
-  if (std::abs(z.dot(z)) >
-      std::numeric_limits<double>::epsilon())  // i.e. z != 0
+  if (z.dot(np) > std::numeric_limits<double>::epsilon() *
+                      d.squaredNorm())  // i.e. z != 0
     t2 = -s(ip) / z.dot(np);
   else
     t2 = inf; /* +inf */
-- 
2.43.0


From 9dcae183a7b05f51470cb4e77125bd169de1c715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:24 +0000
Subject: [PATCH 17/41] fix: refuse linearly dependent equalities in the QP
 solver before using them

They were only detected up to rounding, and more equalities than variables
wrote outside of R.
---
 src/eiquadprog-fast.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 8fb0286..79836c5 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -347,6 +347,8 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog(
     if (z.dot(np) > std::numeric_limits<double>::epsilon() *
                         d.squaredNorm())  // i.e. z != 0
       t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
+    else  // Equality constraints are linearly dependent
+      return EIQUADPROG_FAST_REDUNDANT_EQUALITIES;
 
     x += t2 * z;
 
@@ -771,6 +773,8 @@ EiquadprogFast_status EiquadprogFast::solve_quadprog_sparse(
     if (z.dot(np) > std::numeric_limits<double>::epsilon() *
                         d.squaredNorm())  // i.e. z != 0
       t2 = (-np.dot(x) - ce0(i)) / z.dot(np);
+    else  // Equality constraints are linearly dependent
+      return EIQUADPROG_FAST_REDUNDANT_EQUALITIES;
 
     x += t2 * z;
 
-- 
2.43.0


From 36c5bf012d4abed286103f5ad006c4f84a3c052e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:38 +0000
Subject: [PATCH 18/41] fix: recover from a degenerate constraint in the QP
 solver

The active set was restored with the negative indices of the equalities, the
shift of the active set read one past its end when every constraint was active,
and the search then looped on the constraint just excluded.
---
 src/eiquadprog-fast.cpp | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 79836c5..6413826 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -174,10 +174,16 @@ void EiquadprogFast::delete_constraint(MatrixXd& R, MatrixXd& J, VectorXi& A,
     R.col(i) = R.col(i + 1);
   }
 
-  A(iq - 1) = A(iq);
-  u(iq - 1) = u(iq);
-  A(iq) = 0;
-  u(iq) = 0.0;
+  // shift the constraint that is being added, if any
+  if (iq < A.size()) {
+    A(iq - 1) = A(iq);
+    u(iq - 1) = u(iq);
+    A(iq) = 0;
+    u(iq) = 0.0;
+  } else {
+    A(iq - 1) = 0;
+    u(iq - 1) = 0.0;
+  }
   for (j = 0; j < iq; j++) R(j, iq - 1) = 0.0;
   /* constraint has been fully removed */
   iq--;
@@ -468,6 +474,7 @@ l1:
   u_old.head(iq) = u.head(iq);
   A_old.head(iq) = A.head(iq);
   x_old = x;
+  const double f_old = f_value;
 
 l2: /* Step 2: check for feasibility and determine a new S-pair */
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_2);
@@ -481,6 +488,9 @@ l2: /* Step 2: check for feasibility and determine a new S-pair */
   }
   if (ss >= 0.0) {
     q = iq;
+    // a violated constraint could not be added to the active set
+    for (i = 0; i < nIneqCon; i++)
+      if (!iaexcl(i) && s(i) < 0.0) return EIQUADPROG_FAST_UNBOUNDED;
     //        DEBUG_STREAM("Optimal active set:\n"<<A.transpose()<<"\n\n")
     return EIQUADPROG_FAST_OPTIMAL;
   }
@@ -615,10 +625,12 @@ l2a: /* Step 2a: determine step direction */
       for (i = 0; i < nIneqCon; i++) iai(i) = i;
       for (i = 0; i < iq; i++) {
         A(i) = A_old(i);
-        iai(A(i)) = -1;
+        if (i >= nEqCon) iai(A(i)) = -1;  // equalities are not in iai
         u(i) = u_old(i);
       }
       x = x_old;
+      f_value = f_old;
+      ss = 0.0;
       STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_2C);
       goto l2; /* go to step 2 */
     } else
@@ -894,6 +906,7 @@ l1:
   u_old.head(iq) = u.head(iq);
   A_old.head(iq) = A.head(iq);
   x_old = x;
+  const double f_old = f_value;
 
 l2: /* Step 2: check for feasibility and determine a new S-pair */
   START_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_2);
@@ -907,6 +920,9 @@ l2: /* Step 2: check for feasibility and determine a new S-pair */
   }
   if (ss >= 0.0) {
     q = iq;
+    // a violated constraint could not be added to the active set
+    for (i = 0; i < nIneqCon; i++)
+      if (!iaexcl(i) && s(i) < 0.0) return EIQUADPROG_FAST_UNBOUNDED;
     //        DEBUG_STREAM("Optimal active set:\n"<<A.transpose()<<"\n\n")
     return EIQUADPROG_FAST_OPTIMAL;
   }
@@ -1041,10 +1057,12 @@ l2a: /* Step 2a: determine step direction */
       for (i = 0; i < nIneqCon; i++) iai(i) = i;
       for (i = 0; i < iq; i++) {
         A(i) = A_old(i);
-        iai(A(i)) = -1;
+        if (i >= nEqCon) iai(A(i)) = -1;  // equalities are not in iai
         u(i) = u_old(i);
       }
       x = x_old;
+      f_value = f_old;
+      ss = 0.0;
       STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_2C);
       goto l2; /* go to step 2 */
     } else
-- 
2.43.0


From 641fd93d329069e7cfff7e1e2db8ec8270b664d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:56 +0000
Subject: [PATCH 19/41] fix: copy contact data that has no contact phase

---
 include/hpp/bezier-com-traj/data.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/data.hh b/include/hpp/bezier-com-traj/data.hh
index 0f3912b..bc2409a 100644
--- a/include/hpp/bezier-com-traj/data.hh
+++ b/include/hpp/bezier-com-traj/data.hh
@@ -34,7 +34,9 @@ struct BEZIER_COM_TRAJ_DLLAPI ContactData {
 
   ContactData(const ContactData& other)
       : contactPhase_(
-            new centroidal_dynamics::Equilibrium(*(other.contactPhase_))),
+            other.contactPhase_
+                ? new centroidal_dynamics::Equilibrium(*(other.contactPhase_))
+                : 0),
         Kin_(other.Kin_),
         kin_(other.kin_),
         Ang_(other.Ang_),
-- 
2.43.0


From 1dbb64835db4962b3380cd712ed15fd36dede0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:56 +0000
Subject: [PATCH 20/41] fix: initialise the angular momentum of the problem
 data

---
 include/hpp/bezier-com-traj/data.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hpp/bezier-com-traj/data.hh b/include/hpp/bezier-com-traj/data.hh
index bc2409a..d0881fc 100644
--- a/include/hpp/bezier-com-traj/data.hh
+++ b/include/hpp/bezier-com-traj/data.hh
@@ -101,6 +101,7 @@ struct BEZIER_COM_TRAJ_DLLAPI ProblemData {
         dc1_(point_t::Zero()),
         ddc1_(point_t::Zero()),
         j1_(point_t::Zero()),
+        l0_(point_t::Zero()),
         useAngularMomentum_(false),
         costFunction_(ACCELERATION),
         representation_(DOUBLE_DESCRIPTION) {}
-- 
2.43.0


From cef04f5002373a13853728e33f0009d03fd2da3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:14 +0000
Subject: [PATCH 21/41] fix: confirm a refusal of the primal simplex with the
 dual one

---
 src/glpk-wrapper.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index 9bf1f98..460ba66 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -105,6 +105,14 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
 
   int res = glp_simplex(lp, &opts);
   res = glp_get_status(lp);
+  if (res != GLP_OPT) {
+    // the primal simplex may lose a feasible point to rounding: confirm with
+    // the dual one, from a new basis
+    glp_std_basis(lp);
+    opts.meth = GLP_DUALP;
+    glp_simplex(lp, &opts);
+    res = glp_get_status(lp);
+  }
   if (res == GLP_OPT) {
     cost = glp_get_obj_val(
         lp);  // obtains a computed value of the objective function
-- 
2.43.0


From 37b621f0cf6dd1cf55f25d7b7fd3d6096570f337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:14 +0000
Subject: [PATCH 22/41] fix: support the jerk option set in the CoM planner

computeBezierCurve ignored the jerk flags and computeWwaypoints was the one of
the degree 6 curve.
---
 include/hpp/bezier-com-traj/utils.hh          |  11 ++
 ...waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh | 183 ++++--------------
 2 files changed, 46 insertions(+), 148 deletions(-)

diff --git a/include/hpp/bezier-com-traj/utils.hh b/include/hpp/bezier-com-traj/utils.hh
index 20a58d2..a6fa37e 100644
--- a/include/hpp/bezier-com-traj/utils.hh
+++ b/include/hpp/bezier-com-traj/utils.hh
@@ -125,6 +125,10 @@ Bezier bezier_com_traj::computeBezierCurve(const ConstraintFlag& flag,
       if (flag & INIT_ACC) {
         wps.push_back(pi[i]);
         i++;
+        if (flag & INIT_JERK) {
+          wps.push_back(pi[i]);
+          i++;
+        }
       }
     }
   }
@@ -134,6 +138,13 @@ Bezier bezier_com_traj::computeBezierCurve(const ConstraintFlag& flag,
     wps.push_back(x);
     i++;
   } else {
+    if (flag & END_JERK) {
+      assert(flag & END_ACC &&
+             "You cannot constrain final jerk if final acceleration is not "
+             "constrained.");
+      wps.push_back(pi[i]);
+      i++;
+    }
     if (flag & END_ACC) {
       assert(flag & END_VEL &&
              "You cannot constrain final acceleration if final velocity is not "
diff --git a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
index 59d504b..dc8bd00 100644
--- a/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
+++ b/include/hpp/bezier-com-traj/waypoints/waypoints_c0_dc0_ddc0_j0_j1_ddc1_dc1_c1.hh
@@ -205,162 +205,49 @@ inline std::vector<point_t> computeConstantWaypoints(const ProblemData& pData,
   return pi;
 }
 
+/**
+ * @brief computeWwaypoints compute the control points of the curve
+ * w = [ddc ; c x ddc + g x c], of degree 14, as the product of the curves c
+ * (degree 8) and ddc (degree 6). The free waypoint is pi[4].
+ */
 inline bezier_wp_t::t_point_t computeWwaypoints(const ProblemData& pData,
                                                 double T) {
   bezier_wp_t::t_point_t wps;
   const int DIM_POINT = 6;
   const int DIM_VAR = 3;
+  const int idFree = 4;
   std::vector<point_t> pi = computeConstantWaypoints(pData, T);
-  std::vector<Matrix3> Cpi;
-  for (std::size_t i = 0; i < pi.size(); ++i) {
-    Cpi.push_back(skew(pi[i]));
-  }
+  const int n = (int)pi.size() - 1;  // degree of c
+  const int m = n - 2;               // degree of ddc
   const Vector3 g = pData.contacts_.front().contactPhase_->m_gravity;
   const Matrix3 Cg = skew(g);
-  const double T2 = T * T;
-  const double alpha = 1 / (T2);
+  const double alpha = n * (n - 1) / (T * T);
 
-  // equation of waypoints for curve w found with sympy
-  waypoint_t w0 = initwp(DIM_POINT, DIM_VAR);
-  w0.second.head<3>() = (30 * pi[0] - 60 * pi[1] + 30 * pi[2]) * alpha;
-  w0.second.tail<3>() =
-      1.0 *
-      (1.0 * Cg * T2 * pi[0] - 60.0 * Cpi[0] * pi[1] + 30.0 * Cpi[0] * pi[2]) *
-      alpha;
-  wps.push_back(w0);
-  waypoint_t w1 = initwp(DIM_POINT, DIM_VAR);
-  w1.first.block<3, 3>(0, 0) = 13.3333333333333 * alpha * Matrix3::Identity();
-  w1.first.block<3, 3>(3, 0) = 13.3333333333333 * Cpi[0] * alpha;
-  w1.second.head<3>() =
-      1.0 * (16.6666666666667 * pi[0] - 20.0 * pi[1] - 10.0 * pi[2]) * alpha;
-  w1.second.tail<3>() = 1.0 *
-                        (0.333333333333333 * Cg * T2 * pi[0] +
-                         0.666666666666667 * Cg * T2 * pi[1] -
-                         30.0 * Cpi[0] * pi[2] + 20.0 * Cpi[1] * pi[2]) *
-                        alpha;
-  wps.push_back(w1);
-  waypoint_t w2 = initwp(DIM_POINT, DIM_VAR);
-  w2.first.block<3, 3>(0, 0) = 6.66666666666667 * alpha * Matrix3::Identity();
-  w2.first.block<3, 3>(3, 0) =
-      1.0 * (-13.3333333333333 * Cpi[0] + 20.0 * Cpi[1]) * alpha;
-  w2.second.head<3>() =
-      1.0 * (8.33333333333333 * pi[0] - 20.0 * pi[2] + 5.0 * pi[4]) * alpha;
-  w2.second.tail<3>() =
-      1.0 *
-      (0.0833333333333334 * Cg * T2 * pi[0] + 0.5 * Cg * T2 * pi[1] +
-       0.416666666666667 * Cg * T2 * pi[2] + 5.0 * Cpi[0] * pi[4] -
-       20.0 * Cpi[1] * pi[2]) *
-      alpha;
-  wps.push_back(w2);
-  waypoint_t w3 = initwp(DIM_POINT, DIM_VAR);
-  w3.first.block<3, 3>(0, 0) = -5.71428571428572 * alpha * Matrix3::Identity();
-  w3.first.block<3, 3>(3, 0) = 1.0 *
-                               (0.238095238095238 * Cg * T2 - 20.0 * Cpi[1] +
-                                14.2857142857143 * Cpi[2]) *
-                               alpha;
-  w3.second.head<3>() = 1.0 *
-                        (3.57142857142857 * pi[0] + 7.14285714285714 * pi[1] -
-                         14.2857142857143 * pi[2] + 7.85714285714286 * pi[4] +
-                         1.42857142857143 * pi[5]) *
-                        alpha;
-  w3.second.tail<3>() =
-      1.0 *
-      (0.0119047619047619 * Cg * T2 * pi[0] +
-       0.214285714285714 * Cg * T2 * pi[1] +
-       0.535714285714286 * Cg * T2 * pi[2] - 5.0 * Cpi[0] * pi[4] +
-       1.42857142857143 * Cpi[0] * pi[5] + 12.8571428571429 * Cpi[1] * pi[4]) *
-      alpha;
-  wps.push_back(w3);
-  waypoint_t w4 = initwp(DIM_POINT, DIM_VAR);
-  w4.first.block<3, 3>(0, 0) = -14.2857142857143 * alpha * Matrix3::Identity();
-  w4.first.block<3, 3>(3, 0) =
-      1.0 * (0.476190476190476 * Cg * T2 - 14.2857142857143 * Cpi[2]) * alpha;
-  w4.second.head<3>() = 1.0 *
-                        (1.19047619047619 * pi[0] + 7.14285714285714 * pi[1] -
-                         3.57142857142857 * pi[2] + 5.0 * pi[4] +
-                         4.28571428571429 * pi[5] + 0.238095238095238 * pi[6]) *
-                        alpha;
-  w4.second.tail<3>() =
-      1.0 *
-      (0.0476190476190471 * Cg * T2 * pi[1] +
-       0.357142857142857 * Cg * T2 * pi[2] +
-       0.119047619047619 * Cg * T2 * pi[4] - 1.42857142857143 * Cpi[0] * pi[5] +
-       0.238095238095238 * Cpi[0] * pi[6] - 12.8571428571429 * Cpi[1] * pi[4] +
-       5.71428571428571 * Cpi[1] * pi[5] + 17.8571428571429 * Cpi[2] * pi[4]) *
-      alpha;
-  wps.push_back(w4);
-  waypoint_t w5 = initwp(DIM_POINT, DIM_VAR);
-  w5.first.block<3, 3>(0, 0) = -14.2857142857143 * alpha * Matrix3::Identity();
-  w5.first.block<3, 3>(3, 0) =
-      1.0 * (0.476190476190476 * Cg * T2 - 14.2857142857143 * Cpi[4]) * alpha;
-  w5.second.head<3>() = 1.0 *
-                        (0.238095238095238 * pi[0] + 4.28571428571429 * pi[1] +
-                         5.0 * pi[2] - 3.57142857142857 * pi[4] +
-                         7.14285714285714 * pi[5] + 1.19047619047619 * pi[6]) *
-                        alpha;
-  w5.second.tail<3>() =
-      1.0 *
-      (+0.11904761904762 * Cg * T2 * pi[2] +
-       0.357142857142857 * Cg * T2 * pi[4] +
-       0.0476190476190476 * Cg * T2 * pi[5] -
-       0.238095238095238 * Cpi[0] * pi[6] - 5.71428571428572 * Cpi[1] * pi[5] +
-       1.42857142857143 * Cpi[1] * pi[6] - 17.8571428571429 * Cpi[2] * pi[4] +
-       12.8571428571429 * Cpi[2] * pi[5]) *
-      alpha;
-  wps.push_back(w5);
-  waypoint_t w6 = initwp(DIM_POINT, DIM_VAR);
-  w6.first.block<3, 3>(0, 0) = -5.71428571428571 * alpha * Matrix3::Identity();
-  w6.first.block<3, 3>(3, 0) = 1.0 *
-                               (0.238095238095238 * Cg * T2 +
-                                14.2857142857143 * Cpi[4] - 20.0 * Cpi[5]) *
-                               alpha;
-  w6.second.head<3>() = 1.0 *
-                        (1.42857142857143 * pi[1] + 7.85714285714286 * pi[2] -
-                         14.2857142857143 * pi[4] + 7.14285714285715 * pi[5] +
-                         3.57142857142857 * pi[6]) *
-                        alpha;
-  w6.second.tail<3>() =
-      1.0 *
-      (0.535714285714286 * Cg * T2 * pi[4] +
-       0.214285714285714 * Cg * T2 * pi[5] +
-       0.0119047619047619 * Cg * T2 * pi[6] -
-       1.42857142857143 * Cpi[1] * pi[6] - 12.8571428571429 * Cpi[2] * pi[5] +
-       5.0 * Cpi[2] * pi[6]) *
-      alpha;
-  wps.push_back(w6);
-  waypoint_t w7 = initwp(DIM_POINT, DIM_VAR);
-  w7.first.block<3, 3>(0, 0) = 6.66666666666667 * alpha * Matrix3::Identity();
-  w7.first.block<3, 3>(3, 0) =
-      1.0 * (20.0 * Cpi[5] - 13.3333333333333 * Cpi[6]) * alpha;
-  w7.second.head<3>() =
-      1.0 * (5.0 * pi[2] - 20.0 * pi[4] + 8.33333333333333 * pi[6]) * alpha;
-  w7.second.tail<3>() =
-      1.0 *
-      (0.416666666666667 * Cg * T2 * pi[4] + 0.5 * Cg * T2 * pi[5] +
-       0.0833333333333333 * Cg * T2 * pi[6] - 5.0 * Cpi[2] * pi[6] +
-       20.0 * Cpi[4] * pi[5]) *
-      alpha;
-  wps.push_back(w7);
-  waypoint_t w8 = initwp(DIM_POINT, DIM_VAR);
-  w8.first.block<3, 3>(0, 0) = 13.3333333333333 * alpha * Matrix3::Identity();
-  w8.first.block<3, 3>(3, 0) = 1.0 * (13.3333333333333 * Cpi[6]) * alpha;
-  w8.second.head<3>() =
-      1.0 *
-      (-9.99999999999999 * pi[4] - 20.0 * pi[5] + 16.6666666666667 * pi[6]) *
-      alpha;
-  w8.second.tail<3>() = 1.0 *
-                        (0.666666666666667 * Cg * T2 * pi[5] +
-                         0.333333333333333 * Cg * T2 * pi[6] -
-                         20.0 * Cpi[4] * pi[5] + 30.0 * Cpi[4] * pi[6]) *
-                        alpha;
-  wps.push_back(w8);
-  waypoint_t w9 = initwp(DIM_POINT, DIM_VAR);
-  w9.second.head<3>() = (30 * pi[4] - 60 * pi[5] + 30 * pi[6]) * alpha;
-  w9.second.tail<3>() =
-      1.0 *
-      (1.0 * Cg * T2 * pi[6] - 30.0 * Cpi[4] * pi[6] + 60.0 * Cpi[5] * pi[6]) *
-      alpha;
-  wps.push_back(w9);
+  for (int k = 0; k <= n + m; ++k) {
+    waypoint_t w = initwp(DIM_POINT, DIM_VAR);
+    for (int i = std::max(0, k - m); i <= std::min(n, k); ++i) {
+      const int j = k - i;
+      const double b = (double)ndcurves::bin((unsigned int)n, (unsigned int)i) *
+                       (double)ndcurves::bin((unsigned int)m, (unsigned int)j) /
+                       (double)ndcurves::bin((unsigned int)(n + m),
+                                             (unsigned int)k);
+      // control point j of ddc is a * x + s (pi[idFree] is null)
+      const double a =
+          alpha * (j == idFree || j + 2 == idFree ? 1.
+                                                  : (j + 1 == idFree ? -2. : 0.));
+      const Vector3 s = alpha * (pi[j] - 2. * pi[j + 1] + pi[j + 2]);
+      w.first.block<3, 3>(0, 0) += b * a * Matrix3::Identity();
+      w.second.head<3>() += b * s;
+      if (i == idFree) {
+        // x X (a * x + s) + g X x
+        w.first.block<3, 3>(3, 0) += b * (Cg - skew(s));
+      } else {
+        w.first.block<3, 3>(3, 0) += b * a * skew(pi[i]);
+        w.second.tail<3>() += b * (pi[i].cross(s) + Cg * pi[i]);
+      }
+    }
+    wps.push_back(w);
+  }
   return wps;
 }
 
@@ -501,7 +388,7 @@ inline coefs_t computeFinalVelocityPoint(const ProblemData& pData, double T) {
   std::vector<point_t> pi = computeConstantWaypoints(pData, T);
   // equation found with sympy
   v.first = 0.;
-  v.second = (-6.0 * pi[5] + 6.0 * pi[6]) / T;
+  v.second = (-8.0 * pi[7] + 8.0 * pi[8]) / T;
   return v;
 }
 
-- 
2.43.0


From 48bd51c62e096f411f45948f796e11e33a9a7261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:01 +0000
Subject: [PATCH 23/41] fix: bound the jerk from above by its own limit

computeConstraintsMatrix used the velocity bounds for the upper jerk
constraints, and the jerk bounds for the lower ones.
---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index de59e16..8c95fe4 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -181,7 +181,7 @@ void computeConstraintsMatrix(
        wpcit != wps_jerk.end(); ++wpcit) {
     if (!wpcit->first.isZero(std::numeric_limits<double>::epsilon())) {
       A.block(i * DIM_POINT, 0, DIM_POINT, DIM_VAR) = wpcit->first;
-      b.segment<DIM_POINT>(i * DIM_POINT) = vel_bounds - wpcit->second;
+      b.segment<DIM_POINT>(i * DIM_POINT) = jerk_bounds - wpcit->second;
       ++i;
     }
   }
-- 
2.43.0


From e4f23caa306807f3768e82372ccc68b7f6f47c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:01 +0000
Subject: [PATCH 24/41] fix: keep the products of different free points in the
 velocity cost

computeVelCostFunctionDiscretized kept the diagonal blocks only, which is
not the squared velocity when there are several free control points.
---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index 8c95fe4..221bb3e 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -291,14 +291,8 @@ void computeVelCostFunctionDiscretized(int numPoints, const ProblemData& pData,
   g = VectorX::Zero(dimVar(pData));
   for (std::vector<waypoint_t>::const_iterator ckcit = cks.begin();
        ckcit != cks.end(); ++ckcit) {
-    // H+=(ckcit->first.transpose() * ckcit->first);
-    // g+=ckcit->second.transpose() * ckcit->first;
-    for (int i = 0; i < (dimVar(pData) / 3); ++i) {
-      H.block<3, 3>(i * 3, i * 3) +=
-          Matrix3::Identity() * ckcit->first(0, i * 3) * ckcit->first(0, i * 3);
-      g.segment<3>(i * 3) +=
-          ckcit->second.segment<3>(0) * ckcit->first(0, i * 3);
-    }
+    H += (ckcit->first.transpose() * ckcit->first);
+    g += ckcit->first.transpose() * ckcit->second;
   }
   // TEST : don't consider z axis for minimum acceleration cost
   // H(2,2) = 1e-6;
-- 
2.43.0


From 46cad0e1feb245bdc52920105116367bebbf75f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:44 +0000
Subject: [PATCH 25/41] fix: refuse missing contact phases instead of crashing

A problem without contact phase, or with a contact phase that was never
assigned, dereferenced null or missing data; solve0step only asserted that
it was given one phase and one duration.
---
 include/hpp/bezier-com-traj/common_solve_methods.hh |  8 ++++++++
 src/common_solve_methods.cpp                        | 13 +++++++++++++
 src/computeCOMTraj.cpp                              | 10 ++--------
 src/solve_0_step.cpp                                |  6 ++++--
 4 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/hpp/bezier-com-traj/common_solve_methods.hh b/include/hpp/bezier-com-traj/common_solve_methods.hh
index 38de1df..a1c4fe7 100644
--- a/include/hpp/bezier-com-traj/common_solve_methods.hh
+++ b/include/hpp/bezier-com-traj/common_solve_methods.hh
@@ -14,6 +14,14 @@
 
 namespace bezier_com_traj {
 
+/**
+ * @brief checkContactPhases raises an error if the problem does not have one
+ * defined contact phase for each given duration
+ * @param pData problem data
+ * @param numTimings number of durations given by the user
+ */
+void checkContactPhases(const ProblemData& pData, const size_t numTimings);
+
 /**
  * @brief ComputeDiscretizedWaypoints Given the waypoints defining a bezier
  * curve, computes a discretization of the curve
diff --git a/src/common_solve_methods.cpp b/src/common_solve_methods.cpp
index 0750880..0a1fd02 100644
--- a/src/common_solve_methods.cpp
+++ b/src/common_solve_methods.cpp
@@ -5,6 +5,19 @@
 #include <hpp/bezier-com-traj/waypoints/waypoints_definition.hh>
 
 namespace bezier_com_traj {
+void checkContactPhases(const ProblemData& pData, const size_t numTimings) {
+  if (numTimings != pData.contacts_.size())
+    throw std::runtime_error(
+        "Time phase vector has different size than the number of contact "
+        "phases");
+  if (pData.contacts_.empty())
+    throw std::runtime_error("The problem has no contact phase");
+  for (size_t i = 0; i < pData.contacts_.size(); ++i) {
+    if (!pData.contacts_[i].contactPhase_)
+      throw std::runtime_error("A contact phase is not defined");
+  }
+}
+
 std::vector<waypoint6_t> ComputeDiscretizedWaypoints(
     const std::vector<waypoint6_t>& wps,
     const std::vector<ndcurves::Bern<double> >& berns, int numSteps) {
diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index f846969..e76a618 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -552,10 +552,7 @@ ResultDataCOMTraj computeCOMTrajFixedSize(const ProblemData& pData,
                                           const VectorX& Ts,
                                           const unsigned int pointsPerPhase) {
   assert(pData.representation_ == DOUBLE_DESCRIPTION);
-  if (Ts.size() != (int)pData.contacts_.size())
-    throw std::runtime_error(
-        "Time phase vector has different size than the number of contact "
-        "phases");
+  checkContactPhases(pData, (size_t)Ts.size());
   double T = Ts.sum();
   T_time timeArray = computeDiscretizedTimeFixed(Ts, pointsPerPhase);
   std::pair<MatrixXX, VectorX> Ab =
@@ -573,10 +570,7 @@ ResultDataCOMTraj computeCOMTrajFixedSize(const ProblemData& pData,
 ResultDataCOMTraj computeCOMTraj(const ProblemData& pData, const VectorX& Ts,
                                  const double timeStep,
                                  const solvers::SolverType solver) {
-  if (Ts.size() != (int)pData.contacts_.size())
-    throw std::runtime_error(
-        "Time phase vector has different size than the number of contact "
-        "phases");
+  checkContactPhases(pData, (size_t)Ts.size());
   double T = Ts.sum();
   T_time timeArray;
   std::pair<MatrixXX, VectorX> Ab;
diff --git a/src/solve_0_step.cpp b/src/solve_0_step.cpp
index e9a3b64..9177f6e 100644
--- a/src/solve_0_step.cpp
+++ b/src/solve_0_step.cpp
@@ -232,8 +232,10 @@ ResultDataCOMTraj solve0step(const ProblemData& pData,
                              const std::vector<double>& Ts,
                              const double timeStep) {
   assert(pData.representation_ == DOUBLE_DESCRIPTION);
-  assert(pData.contacts_.size() == 1);
-  assert(Ts.size() == pData.contacts_.size());
+  checkContactPhases(pData, Ts.size());
+  if (Ts.size() != 1)
+    throw std::runtime_error(
+        "The zero step problem has exactly one contact phase");
   bool fail = true;
   std::pair<MatrixXX, VectorX> Ab = compute6dControlPointInequalities(
       pData.contacts_.front(), pData.c0_, pData.dc0_, pData.l0_,
-- 
2.43.0


From a722cea7ccd2d269dd8ef4792cb60447d14c8529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:44 +0000
Subject: [PATCH 26/41] fix: refuse contact phases without a wrench polytope

When the contacts were not set, or set with another algorithm than PP, the
error status of getPolytopeInequalities was only asserted: a release build
then planned without any stability constraint and reported success.
---
 include/hpp/bezier-com-traj/common_solve_methods.hh | 3 ++-
 src/common_solve_methods.cpp                        | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/common_solve_methods.hh b/include/hpp/bezier-com-traj/common_solve_methods.hh
index a1c4fe7..a318b6c 100644
--- a/include/hpp/bezier-com-traj/common_solve_methods.hh
+++ b/include/hpp/bezier-com-traj/common_solve_methods.hh
@@ -16,7 +16,8 @@ namespace bezier_com_traj {
 
 /**
  * @brief checkContactPhases raises an error if the problem does not have one
- * defined contact phase for each given duration
+ * defined contact phase for each given duration, or if the inequalities of a
+ * contact phase are needed but not available
  * @param pData problem data
  * @param numTimings number of durations given by the user
  */
diff --git a/src/common_solve_methods.cpp b/src/common_solve_methods.cpp
index 0a1fd02..a621950 100644
--- a/src/common_solve_methods.cpp
+++ b/src/common_solve_methods.cpp
@@ -15,6 +15,14 @@ void checkContactPhases(const ProblemData& pData, const size_t numTimings) {
   for (size_t i = 0; i < pData.contacts_.size(); ++i) {
     if (!pData.contacts_[i].contactPhase_)
       throw std::runtime_error("A contact phase is not defined");
+    // the contact force representation only needs the generators
+    if (pData.representation_ != DOUBLE_DESCRIPTION) continue;
+    centroidal_dynamics::MatrixXX H;
+    centroidal_dynamics::VectorX h;
+    if (pData.contacts_[i].contactPhase_->getPolytopeInequalities(H, h) !=
+        centroidal_dynamics::LP_STATUS_OPTIMAL)
+      throw std::runtime_error(
+          "A contact phase has no inequality description of its wrenches");
   }
 }
 
-- 
2.43.0


From 171094763f0c6bd4230347dd25457a2bfa3a451a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:44 +0000
Subject: [PATCH 27/41] fix: refuse to sample a phase by no point

The time array then missed phases, and the planner read outside of the list
of phase switches.
---
 src/utils.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utils.cpp b/src/utils.cpp
index b1217d2..531a1e6 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -80,6 +80,8 @@ std::vector<ndcurves::Bern<double> > ComputeBersteinPolynoms(
 
 T_time computeDiscretizedTimeFixed(const VectorX& phaseTimings,
                                    const unsigned int pointsPerPhase) {
+  if (pointsPerPhase == 0)
+    throw std::runtime_error("A phase has to be sampled by at least one point");
   T_time timeArray;
   double t = 0;
   double t_total = phaseTimings.sum();
-- 
2.43.0


From 9a44b42d97b139c1225a7b9dea7a8c72b2b84559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:20 +0000
Subject: [PATCH 28/41] fix: report the terminal acceleration of the zero step
 motion

ResultDataCOMTraj::ddc1_ stayed zero, while the returned curve generally does
not stop decelerating before its end.
---
 src/solve_0_step.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/solve_0_step.cpp b/src/solve_0_step.cpp
index 9177f6e..8f998a9 100644
--- a/src/solve_0_step.cpp
+++ b/src/solve_0_step.cpp
@@ -256,6 +256,8 @@ ResultDataCOMTraj solve0step(const ProblemData& pData,
     computeRealCost(pData, res);
     computeC_of_T(pData, Ts, res);
     computedL_of_T(pData, Ts, res);
+    res.dc1_ = res.c_of_t_.derivate(res.c_of_t_.max(), 1);
+    res.ddc1_ = res.c_of_t_.derivate(res.c_of_t_.max(), 2);
   }
   return res;
 }
-- 
2.43.0


From 3578783ea99ec6544eaf05302dff9f6cab86215e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:20 +0000
Subject: [PATCH 29/41] fix: initialise the initial guess of the end effector
 problem

It was read, at least by the assertion that it is not a number, before being
written.
---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index 221bb3e..7161f77 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -436,7 +436,7 @@ ResultDataCOMTraj solveEndEffector(const ProblemData& pData, const Path& path,
     std::cout << "Dim b   = " << Ab.first.rows() << std::endl;
   }
 
-  VectorX init = VectorX(dimVar(pData));
+  VectorX init = VectorX::Zero(dimVar(pData));
   // init = (pData.c0_ + pData.c1_)/2.;
   // init =pData.c0_;
   if (verbose)
-- 
2.43.0


From d58f7397e370fd86724f11c22981c11d5cf695d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:20 +0000
Subject: [PATCH 30/41] fix: fill the whole result of the end effector planner

A successful result reported cost -1, a zero terminal velocity and acceleration
and an angular momentum curve of another duration, whatever the trajectory.
---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index 7161f77..0be3e82 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -448,8 +448,12 @@ ResultDataCOMTraj solveEndEffector(const ProblemData& pData, const Path& path,
   if (resQp.success_) {
     res.success_ = true;
     res.x = resQp.x;
+    res.cost_ = resQp.cost_;
     // computeRealCost(pData, res);
     computeC_of_T(pData, T, res);
+    res.dc1_ = res.c_of_t_.derivate(T, 1);
+    res.ddc1_ = res.c_of_t_.derivate(T, 2);
+    res.dL_of_t_ = bezier_t::zero(3, T);
     // computedL_of_T(pData,Ts,res);
   }
   if (verbose) {
-- 
2.43.0


From 4ef32ba14e5838217fd3c76b03ebaa63f2d88c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:20 +0000
Subject: [PATCH 31/41] fix: discretize waypoints of curves of any degree

ComputeDiscretizedWaypoints read five waypoints and polynoms whatever the
number of those given.
---
 src/common_solve_methods.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common_solve_methods.cpp b/src/common_solve_methods.cpp
index a621950..b27313e 100644
--- a/src/common_solve_methods.cpp
+++ b/src/common_solve_methods.cpp
@@ -33,7 +33,7 @@ std::vector<waypoint6_t> ComputeDiscretizedWaypoints(
   std::vector<waypoint6_t> res;
   for (int i = 0; i < numSteps + 1; ++i) {
     waypoint6_t w = initwp<waypoint6_t>();
-    for (int j = 0; j < 5; ++j) {
+    for (size_t j = 0; j < wps.size(); ++j) {
       double b = berns[j](i * dt);
       w.first += b * (wps[j].first);
       w.second += b * (wps[j].second);
-- 
2.43.0


From 6fb9dcdf0101cb5d26623c4c5d5b7860cced8a14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:20 +0000
Subject: [PATCH 32/41] fix: compare affine expressions of different sizes

waypoint_t::isApprox read out of bounds when the sizes differed.
---
 include/hpp/bezier-com-traj/utils.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/hpp/bezier-com-traj/utils.hh b/include/hpp/bezier-com-traj/utils.hh
index a6fa37e..fff8a07 100644
--- a/include/hpp/bezier-com-traj/utils.hh
+++ b/include/hpp/bezier-com-traj/utils.hh
@@ -37,7 +37,9 @@ struct waypoint_t {
   bool isApprox(const waypoint_t& other,
                 const value_type prec =
                     Eigen::NumTraits<value_type>::dummy_precision()) const {
-    return first.isApprox(other.first, prec) &&
+    return first.rows() == other.first.rows() &&
+           first.cols() == other.first.cols() && size() == other.size() &&
+           first.isApprox(other.first, prec) &&
            second.isApprox(other.second, prec);
   }
 
-- 
2.43.0


From 1712411e303e5779e566b0f5583c786980a83f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:07 +0000
Subject: [PATCH 33/41] fix: continuous problems without kinematic constraints

The default contact data has no kinematic inequality but a matrix of three
rows, which the continuous formulation assigned to an empty block.
---
 src/computeCOMTraj.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/computeCOMTraj.cpp b/src/computeCOMTraj.cpp
index e76a618..8da5fdf 100644
--- a/src/computeCOMTraj.cpp
+++ b/src/computeCOMTraj.cpp
@@ -493,7 +493,7 @@ std::pair<MatrixXX, VectorX> computeConstraintsContinuous(
     // add kinematics constraints :
     size_kin = (int)phase.kin_.rows();
     for (bezier_wp_t::cit_point_t wpit = cs.waypoints().begin();
-         wpit != cs.waypoints().end(); ++wpit) {
+         size_kin > 0 && wpit != cs.waypoints().end(); ++wpit) {
       A.block(id_rows, 0, size_kin, 3) = (phase.Kin_ * wpit->first);
       b.segment(id_rows, size_kin) = phase.kin_ - (phase.Kin_ * wpit->second);
       id_rows += size_kin;
-- 
2.43.0


From cd765e3f22bfdb3d676abbcc48871be21b9e634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 34/41] fix: refuse kinematic constraints of mismatched sizes
 in the Python zero-step query

---
 python/bezier_com_traj.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/bezier_com_traj.cpp b/python/bezier_com_traj.cpp
index dff09bd..8a665a5 100644
--- a/python/bezier_com_traj.cpp
+++ b/python/bezier_com_traj.cpp
@@ -42,6 +42,8 @@ ResultDataCOMTraj* zeroStepCapturabilityWithKinConstraints(
     const Vector3& dCom, const Vector3& l0, const bool useAngMomentum,
     const double timeDuration, const double timeStep, const MatrixXX& Kin,
     const MatrixXX& kin) {
+  if (Kin.cols() != 3 || kin.cols() != 1 || kin.rows() != Kin.rows())
+    throw std::runtime_error("Kinematic inequality matrix sizes do not match");
   bezier_com_traj::ContactData data;
   data.Kin_ = Kin;
   data.kin_ = kin;
-- 
2.43.0


From 968ef860e4d360a465756aab90440c5b2b355d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 35/41] fix: keep the objects that Python problem data refers
 to alive

---
 python/bezier_com_traj.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/python/bezier_com_traj.cpp b/python/bezier_com_traj.cpp
index 8a665a5..5ff19f0 100644
--- a/python/bezier_com_traj.cpp
+++ b/python/bezier_com_traj.cpp
@@ -368,9 +368,8 @@ BOOST_PYTHON_MODULE(hpp_bezier_com_traj) {
           centroidal_dynamics::Equilibrium*>()[with_custodian_and_ward<1, 2>()])
       .add_property(
           "contactPhase_",
-          make_function(&getContactPhase_,
-                        return_value_policy<reference_existing_object>()),
-          &setContactPhase_)
+          make_function(&getContactPhase_, return_internal_reference<>()),
+          make_function(&setContactPhase_, with_custodian_and_ward<1, 2>()))
       .add_property("Kin_", &get_Kin)
       .add_property("Ang_", &get_Ang)
       .def("setKinematicConstraints", &set_Kin)
@@ -390,11 +389,10 @@ BOOST_PYTHON_MODULE(hpp_bezier_com_traj) {
                     &set_GIWC_representation_)
       .add_property(
           "constraints_",
-          make_function(&get_constraints_,
-                        return_value_policy<reference_existing_object>()),
+          make_function(&get_constraints_, return_internal_reference<>()),
           &set_constraints_)
       .def("clearContacts", clearContacts)
-      .def("addContact", addContact);
+      .def("addContact", addContact, with_custodian_and_ward<1, 2>());
 
   class_<Constraints>("Constraints", init<>())
       .add_property("flag_", &get_Flag, &set_Flag)
-- 
2.43.0


From 16c7527be42a3c70dc39798360e3f5161db48a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:38 +0000
Subject: [PATCH 36/41] fix: refuse a number of path points that differs from
 numPoints

---
 include/hpp/bezier-com-traj/solve_end_effector.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/hpp/bezier-com-traj/solve_end_effector.hh b/include/hpp/bezier-com-traj/solve_end_effector.hh
index 0be3e82..dc8b798 100644
--- a/include/hpp/bezier-com-traj/solve_end_effector.hh
+++ b/include/hpp/bezier-com-traj/solve_end_effector.hh
@@ -224,8 +224,9 @@ void computeConstraintsMatrix(
 std::pair<MatrixXX, VectorX> computeDistanceCostFunction(
     size_t numPoints, const ProblemData& pData, double T,
     std::vector<point3_t> pts_path) {
-  assert(numPoints == pts_path.size() &&
-         "Pts_path size must be equal to numPoints");
+  if (numPoints != pts_path.size() || numPoints < 2)
+    throw std::runtime_error(
+        "Pts_path size must be equal to numPoints, at least two");
   double step = 1. / (double)(numPoints - 1);
   std::vector<point_t> pi = computeConstantWaypoints(pData, T);
   waypoint_t c_wp;
-- 
2.43.0


From b7df3d38b4690b2c58ef9996f0600ddf9564d942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:15 +0000
Subject: [PATCH 37/41] fix: end the LP solver's simplex when it cycles on
 badly scaled problems

---
 src/glpk-wrapper.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index 460ba66..7d7ca6c 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -103,7 +103,16 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
   }
   glp_load_matrix(lp, idConsMat - 1, ia.data(), ja.data(), ar.data());
 
+  opts.it_lim = 10000 + 10 * (num_constraints_total + xsize);
   int res = glp_simplex(lp, &opts);
+  if (res == GLP_EITLIM) {
+    // the simplex cycles when the coefficients have very different magnitudes:
+    // start again from a scaled problem
+    glp_term_out(GLP_OFF);
+    glp_scale_prob(lp, GLP_SF_AUTO);
+    glp_std_basis(lp);
+    glp_simplex(lp, &opts);
+  }
   res = glp_get_status(lp);
   if (res != GLP_OPT) {
     // the primal simplex may lose a feasible point to rounding: confirm with
-- 
2.43.0


From 7685b583db96bfb1794d3815830e31a164d26b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:25 +0000
Subject: [PATCH 38/41] fix: stop the QP solver when only rounding errors
 violate the constraints

---
 src/eiquadprog-fast.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 6413826..671cf71 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -461,8 +461,17 @@ l1:
 
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1);
 
-  if (std::abs(psi) <=
-      nIneqCon * std::numeric_limits<double>::epsilon() * c1 * c2 * 100.0) {
+  /* rounding error of psi */
+  double psi_eps = 0.0;
+  for (i = 0; i < nIneqCon; i++)
+    if (s(i) < 0.0)
+      psi_eps += std::numeric_limits<double>::epsilon() * 100.0 *
+                 (CI.row(i).cwiseAbs().dot(x.cwiseAbs()) + std::abs(ci0(i)));
+
+  if (std::abs(psi) <= std::max(nIneqCon *
+                                    std::numeric_limits<double>::epsilon() *
+                                    c1 * c2 * 100.0,
+                                psi_eps)) {
     /* numerically there are not infeasibilities anymore */
     q = iq;
     //        DEBUG_STREAM("Optimal active
@@ -893,8 +902,17 @@ l1:
 
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1);
 
-  if (std::abs(psi) <=
-      nIneqCon * std::numeric_limits<double>::epsilon() * c1 * c2 * 100.0) {
+  /* rounding error of psi */
+  double psi_eps = 0.0;
+  for (i = 0; i < nIneqCon; i++)
+    if (s(i) < 0.0)
+      psi_eps += std::numeric_limits<double>::epsilon() * 100.0 *
+                 (CI.row(i).cwiseAbs().dot(x.cwiseAbs()) + std::abs(ci0(i)));
+
+  if (std::abs(psi) <= std::max(nIneqCon *
+                                    std::numeric_limits<double>::epsilon() *
+                                    c1 * c2 * 100.0,
+                                psi_eps)) {
     /* numerically there are not infeasibilities anymore */
     q = iq;
     //        DEBUG_STREAM("Optimal active
-- 
2.43.0


From 3f10fff1b2f001624ab4ba0e0f5e377fe9533255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:33 +0000
Subject: [PATCH 39/41] fix: do not report the infeasible point of an unstable
 dual simplex as optimal

---
 src/glpk-wrapper.cpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index 7d7ca6c..b003a89 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -19,6 +19,7 @@
 
 #include <glpk.h>
 
+#include <cmath>
 #include <iostream>
 #include <vector>
 
@@ -37,6 +38,36 @@ int getType(const VectorXd& mib, const VectorXd& mab, const int i) {
   return type;
 }
 
+// whether a basic solution fulfills the rows and bounds of the problem
+static bool isPrimalFeasible(glp_prob* lp) {
+  const int rows = glp_get_num_rows(lp), cols = glp_get_num_cols(lp);
+  std::vector<int> id(1 + cols);
+  std::vector<double> coef(1 + cols);
+  // value against the bounds of a given type
+  auto fulfilled = [](double value, int type, double lb, double ub) {
+    const double tol = 1e-6;
+    if (type != GLP_FR && type != GLP_UP &&
+        !(value >= lb - tol * (1. + std::abs(lb))))
+      return false;
+    if (type == GLP_FX) ub = lb;
+    return type == GLP_FR || type == GLP_LO ||
+           value <= ub + tol * (1. + std::abs(ub));
+  };
+  for (int i = 1; i <= rows; ++i) {
+    double value = 0.;
+    for (int k = glp_get_mat_row(lp, i, id.data(), coef.data()); k > 0; --k)
+      value += coef[k] * glp_get_col_prim(lp, id[k]);
+    if (!fulfilled(value, glp_get_row_type(lp, i), glp_get_row_lb(lp, i),
+                   glp_get_row_ub(lp, i)))
+      return false;
+  }
+  for (int j = 1; j <= cols; ++j)
+    if (!fulfilled(glp_get_col_prim(lp, j), glp_get_col_type(lp, j),
+                   glp_get_col_lb(lp, j), glp_get_col_ub(lp, j)))
+      return false;
+  return true;
+}
+
 int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
               const MatrixXd& CI, const VectorXd& ci0,
               solvers::Cref_vectorX minBounds, solvers::Cref_vectorX maxBounds,
@@ -121,6 +152,8 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
     opts.meth = GLP_DUALP;
     glp_simplex(lp, &opts);
     res = glp_get_status(lp);
+    // when numerically unstable, it may report a point that is not feasible
+    if (res == GLP_OPT && !isPrimalFeasible(lp)) res = GLP_UNDEF;
   }
   if (res == GLP_OPT) {
     cost = glp_get_obj_val(
-- 
2.43.0


From 0d3c69b546808fcde6a91ac2da61fc7e7ae31c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:03 +0000
Subject: [PATCH 40/41] fix: restart a failed simplex from a scaled problem

---
 src/glpk-wrapper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/glpk-wrapper.cpp b/src/glpk-wrapper.cpp
index b003a89..5f95994 100644
--- a/src/glpk-wrapper.cpp
+++ b/src/glpk-wrapper.cpp
@@ -136,9 +136,9 @@ int solveglpk(const VectorXd& g0, const MatrixXd& CE, const VectorXd& ce0,
 
   opts.it_lim = 10000 + 10 * (num_constraints_total + xsize);
   int res = glp_simplex(lp, &opts);
-  if (res == GLP_EITLIM) {
-    // the simplex cycles when the coefficients have very different magnitudes:
-    // start again from a scaled problem
+  if (res == GLP_EITLIM || res == GLP_EFAIL) {
+    // the simplex cycles or breaks down when the coefficients have very
+    // different magnitudes: start again from a scaled problem
     glp_term_out(GLP_OFF);
     glp_scale_prob(lp, GLP_SF_AUTO);
     glp_std_basis(lp);
-- 
2.43.0


From cce9df3f03945d9f9de3927e82da0bb006a2b2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:56 +0000
Subject: [PATCH 41/41] fix: stop the QP solver only when rounding explains
 each violated constraint

---
 src/eiquadprog-fast.cpp | 42 +++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/src/eiquadprog-fast.cpp b/src/eiquadprog-fast.cpp
index 671cf71..316438a 100644
--- a/src/eiquadprog-fast.cpp
+++ b/src/eiquadprog-fast.cpp
@@ -461,17 +461,18 @@ l1:
 
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1);
 
-  /* rounding error of psi */
-  double psi_eps = 0.0;
-  for (i = 0; i < nIneqCon; i++)
+  /* whether rounding errors explain each of the infeasibilities */
+  bool only_rounding = true;
+  for (i = 0; i < nIneqCon && only_rounding; i++)
     if (s(i) < 0.0)
-      psi_eps += std::numeric_limits<double>::epsilon() * 100.0 *
-                 (CI.row(i).cwiseAbs().dot(x.cwiseAbs()) + std::abs(ci0(i)));
-
-  if (std::abs(psi) <= std::max(nIneqCon *
-                                    std::numeric_limits<double>::epsilon() *
-                                    c1 * c2 * 100.0,
-                                psi_eps)) {
+      only_rounding =
+          -s(i) <=
+          std::numeric_limits<double>::epsilon() * 100.0 *
+              (CI.row(i).cwiseAbs().dot(x.cwiseAbs()) + std::abs(ci0(i)));
+
+  if (only_rounding ||
+      std::abs(psi) <=
+          nIneqCon * std::numeric_limits<double>::epsilon() * c1 * c2 * 100.0) {
     /* numerically there are not infeasibilities anymore */
     q = iq;
     //        DEBUG_STREAM("Optimal active
@@ -902,17 +903,18 @@ l1:
 
   STOP_PROFILER_EIQUADPROG_FAST(EIQUADPROG_FAST_STEP_1);
 
-  /* rounding error of psi */
-  double psi_eps = 0.0;
-  for (i = 0; i < nIneqCon; i++)
+  /* whether rounding errors explain each of the infeasibilities */
+  bool only_rounding = true;
+  for (i = 0; i < nIneqCon && only_rounding; i++)
     if (s(i) < 0.0)
-      psi_eps += std::numeric_limits<double>::epsilon() * 100.0 *
-                 (CI.row(i).cwiseAbs().dot(x.cwiseAbs()) + std::abs(ci0(i)));
-
-  if (std::abs(psi) <= std::max(nIneqCon *
-                                    std::numeric_limits<double>::epsilon() *
-                                    c1 * c2 * 100.0,
-                                psi_eps)) {
+      only_rounding =
+          -s(i) <=
+          std::numeric_limits<double>::epsilon() * 100.0 *
+              (CI.row(i).cwiseAbs().dot(x.cwiseAbs()) + std::abs(ci0(i)));
+
+  if (only_rounding ||
+      std::abs(psi) <=
+          nIneqCon * std::numeric_limits<double>::epsilon() * c1 * c2 * 100.0) {
     /* numerically there are not infeasibilities anymore */
     q = iq;
     //        DEBUG_STREAM("Optimal active
-- 
2.43.0

