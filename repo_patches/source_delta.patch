From 36a27bcb2732d302b80752b4c1cabdcc9043f561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:21 +0000
Subject: [PATCH 01/69] fix: BlockIndex::overlap when the second interval
 strictly contains the first

overlap ([1,2), [0,3)) returned false whereas overlap ([0,3), [1,2))
returned true.
---
 src/matrix-view.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/matrix-view.cc b/src/matrix-view.cc
index 21afd39..c571301 100644
--- a/src/matrix-view.cc
+++ b/src/matrix-view.cc
@@ -76,9 +76,7 @@ bool BlockIndex::overlap(const segment_t& a, const segment_t& b) {
   size_type aend = a.first + a.second;
   size_type bend = b.first + b.second;
 
-  if (a.first <= b.first && b.first < aend) return true;
-  if (a.first < bend && bend <= aend) return true;
-  return false;
+  return a.first < bend && b.first < aend;
 }
 
 size_type BlockIndex::cardinal(const segments_t& a) {
-- 
2.43.0


From 6dcb6442b9b9cbc706bdf031170610e3b64e75f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:00 +0000
Subject: [PATCH 02/69] fix: BlockIndex::difference with overlapping or nested
 segments

The range of segments to consider was searched assuming that the upper
bounds are sorted as the lower bounds are.
---
 src/matrix-view.cc | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/matrix-view.cc b/src/matrix-view.cc
index c571301..ca817cd 100644
--- a/src/matrix-view.cc
+++ b/src/matrix-view.cc
@@ -142,20 +142,14 @@ BlockIndex::segments_t BlockIndex::difference(const segment_t& a,
 
 BlockIndex::segments_t BlockIndex::difference(const segments_t& a,
                                               const segment_t& b) {
-  segments_t::const_iterator first(std::upper_bound(
-      a.begin(), a.end(), b, internal::BlockIndexComp<true, false>()));
-  assert(first == a.end() || b.first <= first->first + first->second);
-  segments_t::const_iterator last(std::upper_bound(
-      a.begin(), a.end(), b, internal::BlockIndexComp<false, true>()));
-  assert(last == a.end() || b.first + b.second <= last->first);
+  // The segments of a may overlap or be nested: sorting them by lower bound
+  // does not sort their upper bounds, so that each of them is considered.
   segments_t ret;
   ret.reserve(a.size() + 2);
-  ret.insert(ret.end(), a.begin(), first);
-  for (typename segments_t::const_iterator _a = first; _a != last; ++_a) {
+  for (segments_t::const_iterator _a = a.begin(); _a != a.end(); ++_a) {
     segments_t diff = difference(*_a, b);
     ret.insert(ret.end(), diff.begin(), diff.end());
   }
-  ret.insert(ret.end(), last, a.end());
   return ret;
 }
 
-- 
2.43.0


From 476b7bda87f6841272a720c67bb36f18a9b18eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:12 +0000
Subject: [PATCH 03/69] fix: read the right hand side of view-op-view through
 its own blocks

The binary operators between two MatrixBlockView iterate over the blocks of
both operands, but the right operand was read at the indices of the left one.
---
 include/hpp/constraints/impl/matrix-view-operation.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/impl/matrix-view-operation.hh b/include/hpp/constraints/impl/matrix-view-operation.hh
index 22553dd..4a66b90 100644
--- a/include/hpp/constraints/impl/matrix-view-operation.hh
+++ b/include/hpp/constraints/impl/matrix-view-operation.hh
@@ -215,7 +215,7 @@ HPP_EIGEN_SPECIALIZE_CwiseBinaryOpImpl(HPP_EIGEN_LHS_TPL, HPP_EIGEN_LHS_TYPE,
   typename Rhs_t::block_iterator rblock(d.rhs());
   while (lblock.valid()) {
     BlockLhs lhs = d.lhs()._block(lblock);
-    BlockRhs rhs = d.rhs()._block(lblock);
+    BlockRhs rhs = d.rhs()._block(rblock);
     assert(lblock.rs() == rblock.rs() && lblock.cs() == rblock.cs());
     assert(lblock.ro() == rblock.ro() && lblock.co() == rblock.co());
     other.derived().block(rblock.ro(), rblock.co(), rblock.rs(), rblock.cs()) =
-- 
2.43.0


From fab02cf4842520fa9ff7bf7d92a00e38cc694b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:55 +0000
Subject: [PATCH 04/69] fix: honour compound assignment and resize when
 assigning a view operation

m += view + n assigned the sum instead of adding it, and m = view + n wrote
out of bounds when m did not already have the right size.
---
 .../constraints/impl/matrix-view-operation.hh | 42 ++++++++++++-------
 1 file changed, 27 insertions(+), 15 deletions(-)

diff --git a/include/hpp/constraints/impl/matrix-view-operation.hh b/include/hpp/constraints/impl/matrix-view-operation.hh
index 4a66b90..8f05b8b 100644
--- a/include/hpp/constraints/impl/matrix-view-operation.hh
+++ b/include/hpp/constraints/impl/matrix-view-operation.hh
@@ -55,19 +55,24 @@ namespace Eigen {
     typedef typename internal::dense_xpr_base<Derived>::type Base;         \
     EIGEN_DENSE_PUBLIC_INTERFACE(Derived)                                  \
                                                                            \
-    template <typename OtherDerived>                                       \
-    void evalTo(MatrixBase<OtherDerived>& other) const;                    \
+    template <typename OtherDerived, typename Functor>                     \
+    void evalTo(MatrixBase<OtherDerived>& other, const Functor& func)      \
+        const;                                                             \
   };
 
 #define HPP_EIGEN_DEFINE_CwiseBinaryOpImpl_evalTo(LHS_TPL, LHS_TYPE, RHS_TPL, \
                                                   RHS_TYPE)                   \
   template <typename BinaryOp, LHS_TPL, RHS_TPL>                              \
-  template <typename OtherDerived>                                            \
+  template <typename OtherDerived, typename Functor>                          \
   void CwiseBinaryOpImpl<BinaryOp, LHS_TYPE, RHS_TYPE, Dense>::evalTo(        \
-      MatrixBase<OtherDerived>& other) const
+      MatrixBase<OtherDerived>& other, const Functor& func) const
 
 #if HPP_EIGEN_USE_EVALUATOR
 
+// Write src in dst, honouring compound assignments (+=, -=...)
+#define HPP_EIGEN_ASSIGN_BLOCK(dst, src, func) \
+  internal::call_assignment_no_alias(dst, src, func)
+
 #define HPP_EIGEN_SPECIALIZE_ASSIGN_SELECTOR(LHS_TPL, LHS_TYPE, RHS_TPL,     \
                                              RHS_TYPE)                       \
   template <typename Derived, typename BinaryOp, LHS_TPL, RHS_TPL,           \
@@ -76,13 +81,16 @@ namespace Eigen {
                     Functor, Dense2Dense, Scalar> {                          \
     typedef CwiseBinaryOp<BinaryOp, LHS_TYPE, RHS_TYPE> CwiseDerived;        \
     static EIGEN_STRONG_INLINE void run(Derived& dst, const CwiseDerived& o, \
-                                        const Functor&) {                    \
-      o.evalTo(dst);                                                         \
+                                        const Functor& func) {               \
+      resize_if_allowed(dst, o, func);                                       \
+      o.evalTo(dst, func);                                                   \
     }                                                                        \
   };
 
 #else  // HPP_EIGEN_USE_EVALUATOR
 
+#define HPP_EIGEN_ASSIGN_BLOCK(dst, src, func) dst = src
+
 #define HPP_EIGEN_SPECIALIZE_ASSIGN_SELECTOR_IMPL(                             \
     LHS_TPL, LHS_TYPE, RHS_TPL, RHS_TYPE, need_to_transpose, EVAL_TO_BODY)     \
   template <typename Derived, typename BinaryOp, LHS_TPL, RHS_TPL>             \
@@ -92,7 +100,7 @@ namespace Eigen {
     static EIGEN_STRONG_INLINE Derived& run(Derived& dst,                      \
                                             const CwiseDerived& o) {           \
       dst.resize(o.rows(), o.cols());                                          \
-      o.evalTo(dst);                                                           \
+      o.evalTo(dst, 0);                                                        \
       return dst;                                                              \
     }                                                                          \
     template <typename ActualDerived, typename ActualOtherDerived>             \
@@ -102,10 +110,10 @@ namespace Eigen {
     }                                                                          \
   };
 
-#define HPP_EIGEN_EVAL_TO_BODY_NORMAL other.evalTo(dst);
+#define HPP_EIGEN_EVAL_TO_BODY_NORMAL other.evalTo(dst, 0);
 #define HPP_EIGEN_EVAL_TO_BODY_TRANSPOSE  \
   Transpose<ActualDerived> dstTrans(dst); \
-  other.evalTo(dstTrans);
+  other.evalTo(dstTrans, 0);
 
 #define HPP_EIGEN_SPECIALIZE_ASSIGN_SELECTOR(LHS_TPL, LHS_TYPE, RHS_TPL, \
                                              RHS_TYPE)                   \
@@ -140,8 +148,9 @@ HPP_EIGEN_SPECIALIZE_CwiseBinaryOpImpl(HPP_EIGEN_LHS_TPL, HPP_EIGEN_LHS_TYPE,
     BlockRhs rhs = d.rhs()._block(block);
     BlockLhs lhs =
         d.lhs().block(block.ro(), block.co(), block.rs(), block.cs());
-    other.derived().block(block.ro(), block.co(), block.rs(), block.cs()) =
-        BlockCwiseBOp(lhs, rhs, d.functor());
+    Block<OtherDerived> dst(other.derived(), block.ro(), block.co(),
+                            block.rs(), block.cs());
+    HPP_EIGEN_ASSIGN_BLOCK(dst, BlockCwiseBOp(lhs, rhs, d.functor()), func);
   }
 }
 
@@ -175,8 +184,9 @@ HPP_EIGEN_SPECIALIZE_CwiseBinaryOpImpl(HPP_EIGEN_LHS_TPL, HPP_EIGEN_LHS_TYPE,
     BlockLhs lhs = d.lhs()._block(block);
     BlockRhs rhs =
         d.rhs().block(block.ro(), block.co(), block.rs(), block.cs());
-    other.derived().block(block.ro(), block.co(), block.rs(), block.cs()) =
-        BlockCwiseBOp(lhs, rhs, d.functor());
+    Block<OtherDerived> dst(other.derived(), block.ro(), block.co(),
+                            block.rs(), block.cs());
+    HPP_EIGEN_ASSIGN_BLOCK(dst, BlockCwiseBOp(lhs, rhs, d.functor()), func);
   }
 }
 
@@ -218,8 +228,9 @@ HPP_EIGEN_SPECIALIZE_CwiseBinaryOpImpl(HPP_EIGEN_LHS_TPL, HPP_EIGEN_LHS_TYPE,
     BlockRhs rhs = d.rhs()._block(rblock);
     assert(lblock.rs() == rblock.rs() && lblock.cs() == rblock.cs());
     assert(lblock.ro() == rblock.ro() && lblock.co() == rblock.co());
-    other.derived().block(rblock.ro(), rblock.co(), rblock.rs(), rblock.cs()) =
-        BlockCwiseBOp(lhs, rhs, d.functor());
+    Block<OtherDerived> dst(other.derived(), rblock.ro(), rblock.co(),
+                            rblock.rs(), rblock.cs());
+    HPP_EIGEN_ASSIGN_BLOCK(dst, BlockCwiseBOp(lhs, rhs, d.functor()), func);
     ++lblock;
     ++rblock;
   }
@@ -241,6 +252,7 @@ HPP_EIGEN_SPECIALIZE_ASSIGN_SELECTOR(HPP_EIGEN_LHS_TPL, HPP_EIGEN_LHS_TYPE,
 #undef HPP_EIGEN_SPECIALIZE_ASSIGN_SELECTOR_IMPL
 #endif  // !HPP_EIGEN_USE_EVALUATOR
 
+#undef HPP_EIGEN_ASSIGN_BLOCK
 #undef HPP_EIGEN_SPECIALIZE_CwiseBinaryOpImpl
 #undef HPP_EIGEN_SPECIALIZE_ASSIGN_SELECTOR
 #undef HPP_EIGEN_DEFINE_CwiseBinaryOpImpl_evalTo
-- 
2.43.0


From 5b0ef769cd4a7faf7f6fe3aadf09ee5715553fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:40 +0000
Subject: [PATCH 05/69] fix: signs of the coordinates of logSO3 for angles
 close to pi

When sin(theta) is below the numerical precision, the sign of each coordinate
was decided by noise: the logarithm of a rotation of angle pi around (1,-1,0)
was that of a rotation around (1,1,0).
---
 include/hpp/constraints/tools.hh | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/hpp/constraints/tools.hh b/include/hpp/constraints/tools.hh
index 45d472b..0de7d2a 100644
--- a/include/hpp/constraints/tools.hh
+++ b/include/hpp/constraints/tools.hh
@@ -83,12 +83,17 @@ inline void logSO3(const matrix3_t& R, value_type& theta,
     // method (Nominal case).
     const value_type cphi = cos(theta - PI);
     const value_type beta = theta * theta / (1 + cphi);
-    const value_type tmp0 = (R(0, 0) + cphi) * beta;
-    const value_type tmp1 = (R(1, 1) + cphi) * beta;
-    const value_type tmp2 = (R(2, 2) + cphi) * beta;
-    value(0) = (R(2, 1) > R(1, 2) ? 1 : -1) * (tmp0 > 0 ? sqrt(tmp0) : 0);
-    value(1) = (R(0, 2) > R(2, 0) ? 1 : -1) * (tmp1 > 0 ? sqrt(tmp1) : 0);
-    value(2) = (R(1, 0) > R(0, 1) ? 1 : -1) * (tmp2 > 0 ? sqrt(tmp2) : 0);
+    // R + R^T = 2 cos(theta) I + 2 / beta r r^T: the largest coordinate of r
+    // is computed from the diagonal of R and from the sign of sin(theta). The
+    // others are deduced from it, so that their relative signs are right even
+    // if sin(theta) is below the numerical precision.
+    size_type i;
+    R.diagonal().maxCoeff(&i);
+    const size_type j = (i + 1) % 3, k = (i + 2) % 3;
+    const value_type tmp = (R(i, i) + cphi) * beta;
+    value(i) = (R(k, j) > R(j, k) ? 1 : -1) * sqrt(tmp);
+    value(j) = (R(i, j) + R(j, i)) * beta / (2 * value(i));
+    value(k) = (R(i, k) + R(k, i)) * beta / (2 * value(i));
   }
 }
 
-- 
2.43.0


From cfe43a65f310b99d1022835ce65a90babee07d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:43 +0000
Subject: [PATCH 06/69] fix: closestPointToSegment projects the point, not its
 reflection

---
 include/hpp/constraints/convex-shape.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/convex-shape.hh b/include/hpp/constraints/convex-shape.hh
index f74bd65..18a25ef 100644
--- a/include/hpp/constraints/convex-shape.hh
+++ b/include/hpp/constraints/convex-shape.hh
@@ -50,7 +50,7 @@ namespace constraints {
 /// closest point
 inline void closestPointToSegment(const vector3_t& P, const vector3_t& A,
                                   const vector3_t& v, vector3_t& B) {
-  vector3_t w = A - P;
+  vector3_t w = P - A;
   value_type c1, c2;
   c1 = v.dot(w);
   c2 = v.dot(v);
-- 
2.43.0


From 3172da9b7e8f0984f6791d6fbf0f968ce70985e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:43 +0000
Subject: [PATCH 07/69] fix: ConvexShapeData::alignedPositionInJoint returns a
 rigid transform

The axis was transformed as a point, and the vector that is projected on the
plane and normalized was not used.
---
 include/hpp/constraints/convex-shape.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/hpp/constraints/convex-shape.hh b/include/hpp/constraints/convex-shape.hh
index 18a25ef..03e6422 100644
--- a/include/hpp/constraints/convex-shape.hh
+++ b/include/hpp/constraints/convex-shape.hh
@@ -363,16 +363,17 @@ struct HPP_CONSTRAINTS_DLLAPI ConvexShapeData {
                                             vector3_t yaxis) const {
     assert(cs.shapeDimension_ > 2);
     // Project vector onto the plane
-    yaxis = oMj_.actInv(yaxis);
+    yaxis = oMj_.rotation().transpose() * yaxis;
     vector3_t yproj = yaxis - yaxis.dot(cs.N_) * cs.N_;
     if (yproj.isZero())
       return cs.MinJoint_;
     else {
+      yproj.normalize();
       Transform3s M;
       M.translation() = cs.C_;
       M.rotation().col(0) = cs.N_;
-      M.rotation().col(1) = yaxis;
-      M.rotation().col(2) = cs.N_.cross(yaxis);
+      M.rotation().col(1) = yproj;
+      M.rotation().col(2) = cs.N_.cross(yproj);
       return M;
     }
   }
-- 
2.43.0


From 42c2c920e4f2358759f499ff174c80c0facf02a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:43 +0000
Subject: [PATCH 08/69] fix: ConvexShape::reverse of points and segments

The axes of the reversed shape were appended to those of the initial one.
---
 include/hpp/constraints/convex-shape.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hpp/constraints/convex-shape.hh b/include/hpp/constraints/convex-shape.hh
index 03e6422..64683a3 100644
--- a/include/hpp/constraints/convex-shape.hh
+++ b/include/hpp/constraints/convex-shape.hh
@@ -231,6 +231,8 @@ class HPP_CONSTRAINTS_DLLAPI ConvexShape {
 
   void init() {
     shapeDimension_ = Pts_.size();
+    Us_.clear();
+    Ns_.clear();
 
     switch (shapeDimension_) {
       case 0:
-- 
2.43.0


From 67ec067d954d3756865dbebe1938f1b760641c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:48 +0000
Subject: [PATCH 09/69] fix: ComBetweenFeet Jacobian leaves the extra dof
 columns unset

---
 src/com-between-feet.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/com-between-feet.cc b/src/com-between-feet.cc
index cde152c..2b2ce08 100644
--- a/src/com-between-feet.cc
+++ b/src/com-between-feet.cc
@@ -131,6 +131,7 @@ void ComBetweenFeet::impl_jacobian(matrixOut_t jacobian,
   robot_->currentConfiguration(arg);
   robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
                                    pinocchio::JACOBIAN);
+  jacobian.rightCols(jacobian.cols() - jointRef_->jacobian().cols()).setZero();
   size_t index = 0;
   if (mask_[0]) {
     com_->invalidate();
-- 
2.43.0


From 043fa3df4da83a0d8b5e0cb657747e9954597190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:48 +0000
Subject: [PATCH 10/69] fix: ConfigurationConstraint applies weights before the
 derivative of the difference

---
 src/configuration-constraint.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/configuration-constraint.cc b/src/configuration-constraint.cc
index e77c64f..28c4bbb 100644
--- a/src/configuration-constraint.cc
+++ b/src/configuration-constraint.cc
@@ -117,14 +117,12 @@ void ConfigurationConstraint::impl_jacobian(matrixOut_t jacobian,
   using namespace hpp::pinocchio;
 
   LiegroupElementConstRef a(argument, goal_.space());
-  jacobian.leftCols(robot_->numberDof()).noalias() = (goal_ - a).transpose();
+  jacobian.leftCols(robot_->numberDof()).noalias() =
+      (goal_ - a).cwiseProduct(weights_).transpose();
 
   // Apply jacobian of the difference on the right.
   goal_.space()->dDifference_dq0<pinocchio::InputTimesDerivative>(
       argument, goal_.vector(), jacobian.leftCols(robot_->numberDof()));
-
-  jacobian.leftCols(robot_->numberDof()).array() *=
-      weights_.array().transpose();
 }
 }  // namespace constraints
 }  // namespace hpp
-- 
2.43.0


From d514504c865ab11c56a994c4a009301b0191f607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:23 +0000
Subject: [PATCH 11/69] fix: distance to a fixed point takes the point into
 account

---
 src/distance-between-points-in-bodies.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distance-between-points-in-bodies.cc b/src/distance-between-points-in-bodies.cc
index 0d70832..c02ca96 100644
--- a/src/distance-between-points-in-bodies.cc
+++ b/src/distance-between-points-in-bodies.cc
@@ -112,7 +112,7 @@ void DistanceBetweenPointsInBodies::impl_compute(
     global2_ = joint2_->currentTransformation().act(point2_);
     result.vector()[0] = (global2_ - global1_).norm();
   } else {
-    result.vector()[0] = (global1_).norm();
+    result.vector()[0] = (global2_ - global1_).norm();
   }
 
   latestArgument_ = argument;
-- 
2.43.0


From ffe82cb2c7c57387fc85ab21575c2d6c5890cc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:38 +0000
Subject: [PATCH 12/69] fix: Jacobian of the distances does not use the state
 left by another computation

---
 src/distance-between-bodies.cc           | 16 +++++++++++-----
 src/distance-between-points-in-bodies.cc |  9 +++++++--
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/src/distance-between-bodies.cc b/src/distance-between-bodies.cc
index a22ac78..a9dadc3 100644
--- a/src/distance-between-bodies.cc
+++ b/src/distance-between-bodies.cc
@@ -131,6 +131,11 @@ void DistanceBetweenBodies::impl_jacobian(matrixOut_t jacobian,
                                           ConfigurationIn_t arg) const {
   LiegroupElement dist(outputSpace());
   impl_compute(dist, arg);
+  // The value may come from the cache: the state of the robot then is unknown.
+  robot_->currentConfiguration(arg);
+  robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
+                                   pinocchio::JACOBIAN);
+  jacobian.setZero();
   const JointJacobian_t& J1(joint1_->jacobian());
   const Transform3s& M1(joint1_->currentTransformation());
   const matrix3_t& R1(M1.rotation());
@@ -143,10 +148,11 @@ void DistanceBetweenBodies::impl_jacobian(matrixOut_t jacobian,
   //        T (                              )
   // (P1-P2)  ( J    -   [P1 - t1]  J        )
   //          (  1 [0:3]          x  1 [3:6] )
-  jacobian = (P1_minus_P2.transpose() * R1 * J1.topRows<3>() +
-              P1_minus_P2.transpose() * R1.colwise().cross(P1_minus_t1) *
-                  J1.bottomRows<3>()) /
-             dist.vector()[0];
+  jacobian.leftCols(J1.cols()) =
+      (P1_minus_P2.transpose() * R1 * J1.topRows<3>() +
+       P1_minus_P2.transpose() * R1.colwise().cross(P1_minus_t1) *
+           J1.bottomRows<3>()) /
+      dist.vector()[0];
   if (joint2_) {
     const JointJacobian_t& J2(joint2_->jacobian());
     const Transform3s& M2(joint2_->currentTransformation());
@@ -159,7 +165,7 @@ void DistanceBetweenBodies::impl_jacobian(matrixOut_t jacobian,
     matrix_t tmp2(P1_minus_P2.transpose() * R2 * J2.topRows<3>() +
                   P1_minus_P2.transpose() * R2.colwise().cross(P2_minus_t2) *
                       J2.bottomRows<3>());
-    jacobian.noalias() -= tmp2 / dist.vector()[0];
+    jacobian.leftCols(J2.cols()).noalias() -= tmp2 / dist.vector()[0];
   }
 }
 }  // namespace constraints
diff --git a/src/distance-between-points-in-bodies.cc b/src/distance-between-points-in-bodies.cc
index c02ca96..eefcc2a 100644
--- a/src/distance-between-points-in-bodies.cc
+++ b/src/distance-between-points-in-bodies.cc
@@ -123,6 +123,11 @@ void DistanceBetweenPointsInBodies::impl_jacobian(matrixOut_t jacobian,
                                                   ConfigurationIn_t arg) const {
   LiegroupElement dist(outputSpace());
   impl_compute(dist, arg);
+  // The value may come from the cache: the state of the robot then is unknown.
+  robot_->currentConfiguration(arg);
+  robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
+                                   pinocchio::JACOBIAN);
+  jacobian.setZero();
   const JointJacobian_t& J1(joint1_->jacobian());
   const Transform3s& M1(joint1_->currentTransformation());
   const matrix3_t& R1(M1.rotation());
@@ -155,9 +160,9 @@ void DistanceBetweenPointsInBodies::impl_jacobian(matrixOut_t jacobian,
     matrix_t tmp2(P1_minus_P2.transpose() * R2 * J2.topRows(3) +
                   P1_minus_P2.transpose() * R2.colwise().cross(P2_minus_t2) *
                       J2.bottomRows(3));
-    jacobian = (tmp1 - tmp2) / dist.vector()[0];
+    jacobian.leftCols(tmp1.cols()) = (tmp1 - tmp2) / dist.vector()[0];
   } else {
-    jacobian = tmp1 / dist.vector()[0];
+    jacobian.leftCols(tmp1.cols()) = tmp1 / dist.vector()[0];
   }
 }
 
-- 
2.43.0


From 9d8abbd38afc6995d78232a2ecdfdc12aafb0b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:58 +0000
Subject: [PATCH 13/69] fix: StaticStability with a robot that has extra
 degrees of freedom

---
 src/static-stability.cc | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/src/static-stability.cc b/src/static-stability.cc
index 6f5b5ec..84715af 100644
--- a/src/static-stability.cc
+++ b/src/static-stability.cc
@@ -56,21 +56,21 @@ StaticStability::StaticStability(const std::string& name,
       phi_(Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(6,
                                                               contacts.size()),
            Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(
-               6, contacts.size() * robot->numberDof())),
+               6, contacts.size() * robot->model().nv)),
       u_(contacts.size()),
       uMinus_(contacts.size()),
       v_(contacts.size()),
-      uDot_(contacts.size(), robot->numberDof()),
-      uMinusDot_(contacts.size(), robot->numberDof()),
-      vDot_(contacts.size(), robot->numberDof()),
-      lambdaDot_(robot->numberDof()) {
+      uDot_(contacts.size(), robot->model().nv),
+      uMinusDot_(contacts.size(), robot->model().nv),
+      vDot_(contacts.size(), robot->model().nv),
+      lambdaDot_(robot->model().nv) {
   phi_.setSize(2, contacts.size());
   Traits<PointCom>::Ptr_t OG = PointCom::create(com);
   for (std::size_t i = 0; i < contacts.size(); ++i) {
     Traits<PointInJoint>::Ptr_t OP2 = PointInJoint::create(
-        contacts[i].joint, contacts[i].point, robot->numberDof());
+        contacts[i].joint, contacts[i].point, robot->model().nv);
     Traits<VectorInJoint>::Ptr_t n2 = VectorInJoint::create(
-        contacts[i].joint, contacts[i].normal, robot->numberDof());
+        contacts[i].joint, contacts[i].normal, robot->model().nv);
 
     phi_(0, i) = n2;
     phi_(1, i) = (OG - OP2) ^ n2;
@@ -119,6 +119,10 @@ void StaticStability::impl_jacobian(matrixOut_t jacobian,
   robot_->computeForwardKinematics(pinocchio::JOINT_POSITION |
                                    pinocchio::JACOBIAN);
 
+  // The expressions do not depend on the extra configuration space.
+  const size_type nv = robot_->model().nv;
+  jacobian.rightCols(jacobian.cols() - nv).setZero();
+
   phi_.invalidate();
 
   phi_.computeSVD(argument);
@@ -130,7 +134,7 @@ void StaticStability::impl_jacobian(matrixOut_t jacobian,
   phi_.computePseudoInverseJacobian(argument, G);
   uDot_.noalias() = phi_.pinvJacobian();
 
-  jacobian.block(0, 0, contacts_.size(), robot_->numberDof()).noalias() = uDot_;
+  jacobian.block(0, 0, contacts_.size(), nv).noalias() = uDot_;
 
   if (computeUminusAndV(u_, uMinus_, v_)) {
     matrix_t S = -matrix_t::Identity(u_.size(), u_.size());
@@ -146,18 +150,15 @@ void StaticStability::impl_jacobian(matrixOut_t jacobian,
 
     // computeLambdaDot (u_, v_, iMin, uDot_, vDot_, lambdaDot_);
 
-    // jacobian.block (0, 0, contacts_.size(), robot_->numberDof()).noalias ()
+    // jacobian.block (0, 0, contacts_.size(), nv).noalias ()
     // += lambda * vDot_ + v_ * lambdaDot_.transpose ();
 
-    jacobian.block(0, 0, contacts_.size(), robot_->numberDof()).noalias() +=
-        lambda * vDot_;
+    jacobian.block(0, 0, contacts_.size(), nv).noalias() += lambda * vDot_;
   }
 
-  phi_.jacobianTimes(
-      argument, u_,
-      jacobian.block(contacts_.size(), 0, 6, robot_->numberDof()));
+  phi_.jacobianTimes(argument, u_, jacobian.block(contacts_.size(), 0, 6, nv));
   phi_.computePseudoInverseJacobian(argument, Gravity);
-  jacobian.block(contacts_.size(), 0, 6, robot_->numberDof()) +=
+  jacobian.block(contacts_.size(), 0, 6, nv) +=
       -phi_.value() * phi_.pinvJacobian();
 }
 
@@ -205,7 +206,7 @@ void StaticStability::computeVDot(const ConfigurationIn_t arg,
 
   // TODO: preallocate this matrix
   Eigen::Matrix<value_type, 6, Eigen::Dynamic> JphiTimesUMinus(
-      6, robot_->numberDof());
+      6, robot_->model().nv);
   phi_.jacobianTimes(arg, uMinus, JphiTimesUMinus);
   vDot.noalias() -= phi_.pinv() * JphiTimesUMinus;
 
-- 
2.43.0


From 3c5798e9388b47bb4a2071223164740950bf228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:58 +0000
Subject: [PATCH 14/69] fix: QPStaticStability with a robot that has extra
 degrees of freedom

---
 src/qp-static-stability.cc | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/qp-static-stability.cc b/src/qp-static-stability.cc
index 7767602..71646e2 100644
--- a/src/qp-static-stability.cc
+++ b/src/qp-static-stability.cc
@@ -69,7 +69,7 @@ QPStaticStability::QPStaticStability(const std::string& name,
       qp_((qpOASES::int_t)nbContacts_, qpOASES::HST_SEMIDEF),
       phi_(Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(6, nbContacts_),
            Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(
-               6, nbContacts_ * robot->numberDof())),
+               6, nbContacts_ * robot->model().nv)),
       primal_(vector_t::Zero(nbContacts_)),
       dual_(vector_t::Zero(nbContacts_)) {
   VectorMap_t zeros(Zeros, nbContacts_);
@@ -83,9 +83,9 @@ QPStaticStability::QPStaticStability(const std::string& name,
   Traits<PointCom>::Ptr_t OG = PointCom::create(com);
   for (std::size_t i = 0; i < contacts.size(); ++i) {
     Traits<PointInJoint>::Ptr_t OP2 = PointInJoint::create(
-        contacts[i].joint, contacts[i].point, robot->numberDof());
+        contacts[i].joint, contacts[i].point, robot->model().nv);
     Traits<VectorInJoint>::Ptr_t n2 = VectorInJoint::create(
-        contacts[i].joint, contacts[i].normal, robot->numberDof());
+        contacts[i].joint, contacts[i].normal, robot->model().nv);
 
     phi_(0, i) = n2;
     phi_(1, i) = (OG - OP2) ^ n2;
@@ -107,7 +107,7 @@ QPStaticStability::QPStaticStability(const std::string& name,
       qp_((qpOASES::int_t)nbContacts_, qpOASES::HST_SEMIDEF),
       phi_(Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(6, nbContacts_),
            Eigen::Matrix<value_type, 6, Eigen::Dynamic>::Zero(
-               6, nbContacts_ * robot->numberDof())),
+               6, nbContacts_ * robot->model().nv)),
       primal_(vector_t::Zero(nbContacts_)),
       dual_(vector_t::Zero(nbContacts_)) {
   VectorMap_t zeros(Zeros, nbContacts_);
@@ -122,10 +122,10 @@ QPStaticStability::QPStaticStability(const std::string& name,
   std::size_t col = 0;
   for (std::size_t i = 0; i < contacts.size(); ++i) {
     Traits<VectorInJoint>::Ptr_t n = VectorInJoint::create(
-        contacts[i].joint, contacts[i].normal, robot->numberDof());
+        contacts[i].joint, contacts[i].normal, robot->model().nv);
     for (std::size_t j = 0; j < contacts[i].points.size(); ++j) {
       Traits<PointInJoint>::Ptr_t OP = PointInJoint::create(
-          contacts[i].joint, contacts[i].points[j], robot->numberDof());
+          contacts[i].joint, contacts[i].points[j], robot->model().nv);
 
       phi_(0, col) = n;
       phi_(1, col) = (OG - OP) ^ n;
@@ -198,13 +198,16 @@ void QPStaticStability::impl_jacobian(matrixOut_t jacobian,
   }
 
   // TODO preallocate this.
-  matrix_t JT_phi_F(nbContacts_, robot_->numberDof());
-  matrix_t J_F(6, robot_->numberDof());
+  const size_type nv = robot_->model().nv;
+  matrix_t JT_phi_F(nbContacts_, nv);
+  matrix_t J_F(6, nv);
   phi_.jacobianTransposeTimes(argument, phi_.value() * primal_, JT_phi_F);
   phi_.jacobianTimes(argument, primal_, J_F);
 
-  jacobian = 0.5 * primal_.transpose() * JT_phi_F +
-             (0.5 * phi_.value() * primal_ + Gravity).transpose() * J_F;
+  jacobian.rightCols(jacobian.cols() - nv).setZero();
+  jacobian.leftCols(nv) =
+      0.5 * primal_.transpose() * JT_phi_F +
+      (0.5 * phi_.value() * primal_ + Gravity).transpose() * J_F;
 }
 
 inline qpOASES::returnValue QPStaticStability::solveQP(
-- 
2.43.0


From c398b44d83ed36f492d3a221ea037e59584afd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:10 +0000
Subject: [PATCH 15/69] fix: QPStaticStability Jacobian uses the value at the
 given configuration

---
 src/qp-static-stability.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/qp-static-stability.cc b/src/qp-static-stability.cc
index 71646e2..9a946b4 100644
--- a/src/qp-static-stability.cc
+++ b/src/qp-static-stability.cc
@@ -181,6 +181,7 @@ void QPStaticStability::impl_jacobian(matrixOut_t jacobian,
 
   phi_.invalidate();
   // phi_.computeSVD (argument);
+  phi_.computeValue(argument);
   phi_.computeJacobian(argument);
 
   vector_t res(1);
-- 
2.43.0


From 8c6b2aa09506d1d54ded0bd5a7bd2b4d92ffe890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:10 +0000
Subject: [PATCH 16/69] fix: QPStaticStability Jacobian is the derivative of
 its value, not half of it

---
 src/qp-static-stability.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/qp-static-stability.cc b/src/qp-static-stability.cc
index 9a946b4..65c5f14 100644
--- a/src/qp-static-stability.cc
+++ b/src/qp-static-stability.cc
@@ -207,8 +207,8 @@ void QPStaticStability::impl_jacobian(matrixOut_t jacobian,
 
   jacobian.rightCols(jacobian.cols() - nv).setZero();
   jacobian.leftCols(nv) =
-      0.5 * primal_.transpose() * JT_phi_F +
-      (0.5 * phi_.value() * primal_ + Gravity).transpose() * J_F;
+      primal_.transpose() * JT_phi_F +
+      (phi_.value() * primal_ + 2 * Gravity).transpose() * J_F;
 }
 
 inline qpOASES::returnValue QPStaticStability::solveQP(
-- 
2.43.0


From 8bba136c02226e7c4845eb81c4da7635e12c717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:30 +0000
Subject: [PATCH 17/69] fix: PointInJoint Jacobian does not overwrite the cross
 matrix of the value

---
 include/hpp/constraints/symbolic-calculus.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index 7552cd0..fff82c5 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -627,8 +627,10 @@ class PointInJoint : public CalculusBase<PointInJoint> {
     const matrix3_t& R = joint_->currentTransformation().rotation();
     this->jacobian_.noalias() = R * J.topRows<3>();
     if (!center_) {
-      computeCrossRXl();
-      this->jacobian_.noalias() -= (this->cross_ * R) * J.bottomRows<3>();
+      // Do not use cross_, which is the cross product matrix of the value.
+      matrix3_t cross;
+      computeCrossMatrix(R * local_, cross);
+      this->jacobian_.noalias() -= (cross * R) * J.bottomRows<3>();
     }
   }
   void computeCrossRXl() {
-- 
2.43.0


From 9d27934c5e535db50bb8871cadd69c9e5f36c912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:30 +0000
Subject: [PATCH 18/69] fix: cross matrix of PointCom

---
 include/hpp/constraints/symbolic-calculus.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index fff82c5..1f05720 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -803,6 +803,8 @@ class PointCom : public CalculusBase<PointCom, vector3_t, ComJacobian_t> {
   }
   void impl_value(const ConfigurationIn_t) {
     comc_->compute(hpp::pinocchio::COM);
+    // Used by computeCrossValue.
+    this->value_ = comc_->com();
   }
   void impl_jacobian(const ConfigurationIn_t) {
     comc_->compute(hpp::pinocchio::COMPUTE_ALL);
-- 
2.43.0


From 0b061106d5980ac06cc41729e68a0ff1d6b18bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:30 +0000
Subject: [PATCH 19/69] fix: Jacobian of the rotation of an expression by a
 joint

---
 include/hpp/constraints/symbolic-calculus.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index 1f05720..79c578b 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -553,8 +553,8 @@ class RotationMultiply : public CalculusBase<RotationMultiply<RhsValue> > {
           R.transpose() *
           ((e_->rhs_->cross() * R) * J.bottomRows<3>() + e_->rhs_->jacobian());
     else
-      this->jacobian_ = R * ((e_->rhs_->cross() * R) * J.bottomRows<3>() +
-                             e_->rhs_->jacobian());
+      this->jacobian_ = R * (e_->rhs_->jacobian() -
+                             e_->rhs_->cross() * J.bottomRows<3>());
   }
   void invalidate() {
     Parent_t::invalidate();
-- 
2.43.0


From 6dea4dc62e0aaf3b4a53847a2f3dd3eb832572fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:30 +0000
Subject: [PATCH 20/69] fix: expressions are invalid when created

---
 include/hpp/constraints/symbolic-calculus.hh | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index 79c578b..5e1bfcd 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -189,13 +189,27 @@ template <class T, class ValueType = vector3_t,
           class JacobianType = JacobianMatrix, class CrossType = CrossMatrix>
 class CalculusBase : public CalculusBaseAbstract<ValueType, JacobianType> {
  public:
-  CalculusBase() : cross_(CrossMatrix::Zero()) {}
+  CalculusBase()
+      : cross_(CrossMatrix::Zero()),
+        vValid_(false),
+        jValid_(false),
+        cValid_(false) {}
 
   CalculusBase(const ValueType& value, const JacobianType& jacobian)
-      : value_(value), jacobian_(jacobian), cross_(CrossMatrix::Zero()) {}
+      : value_(value),
+        jacobian_(jacobian),
+        cross_(CrossMatrix::Zero()),
+        vValid_(false),
+        jValid_(false),
+        cValid_(false) {}
 
   CalculusBase(const CalculusBase& o)
-      : value_(o.value()), jacobian_(o.jacobian_), cross_(o.cross()) {}
+      : value_(o.value()),
+        jacobian_(o.jacobian_),
+        cross_(o.cross()),
+        vValid_(false),
+        jValid_(false),
+        cValid_(false) {}
 
   inline const ValueType& value() const { return value_; }
   inline const JacobianType& jacobian() const { return jacobian_; }
-- 
2.43.0


From 82e412214956fb5b1070dd6902401341b410f408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:45 +0000
Subject: [PATCH 21/69] fix: finite difference step for coordinates close to
 zero

---
 src/differentiable-function.cc | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/differentiable-function.cc b/src/differentiable-function.cc
index 28f3b9b..d7242c7 100644
--- a/src/differentiable-function.cc
+++ b/src/differentiable-function.cc
@@ -27,6 +27,7 @@
 // DAMAGE.
 
 #include <../src/extracted-function.hh>
+#include <algorithm>
 #include <boost/serialization/string.hpp>
 #include <hpp/constraints/differentiable-function.hh>
 #include <hpp/pinocchio/configuration.hh>
@@ -56,10 +57,8 @@ struct FiniteDiffRobotOp {
     assert(i >= 0);
     value_type r = std::abs(x[i]);
 
-    if (r == 0)
-      return epsilon;
-    else
-      return epsilon * r;
+    // A step relative to a tiny coordinate is dominated by rounding errors.
+    return epsilon * std::max(value_type(1), r);
   }
 
   template <bool forward>
@@ -97,10 +96,8 @@ struct FiniteDiffVectorSpaceOp {
   inline value_type step(const size_type i, const vector_t& x) const {
     const value_type r = std::abs(x[i]);
 
-    if (r == 0)
-      return epsilon;
-    else
-      return epsilon * r;
+    // A step relative to a tiny coordinate is dominated by rounding errors.
+    return epsilon * std::max(value_type(1), r);
   }
 
   template <bool forward>
-- 
2.43.0


From 8ea98b25ed0bea0fde78f228b0f62045cb1226fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:04 +0000
Subject: [PATCH 22/69] fix: ConvexShapeContact can be evaluated by several
 threads

---
 .../hpp/constraints/convex-shape-contact.hh   |  2 +-
 src/convex-shape-contact.cc                   | 32 +++++++++++--------
 2 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/include/hpp/constraints/convex-shape-contact.hh b/include/hpp/constraints/convex-shape-contact.hh
index d64894b..f599da8 100644
--- a/include/hpp/constraints/convex-shape-contact.hh
+++ b/include/hpp/constraints/convex-shape-contact.hh
@@ -244,7 +244,7 @@ class HPP_CONSTRAINTS_DLLAPI ConvexShapeContact
                           const ConvexShape& floor) const;
 
   DevicePtr_t robot_;
-  mutable GenericTransformationModel<true> relativeTransformationModel_;
+  GenericTransformationModel<true> relativeTransformationModel_;
 
   ConvexShapes_t objectConvexShapes_;
   ConvexShapes_t floorConvexShapes_;
diff --git a/src/convex-shape-contact.cc b/src/convex-shape-contact.cc
index e58dd9d..7d9a6e2 100644
--- a/src/convex-shape-contact.cc
+++ b/src/convex-shape-contact.cc
@@ -168,7 +168,9 @@ void ConvexShapeContact::computeInternalValue(const ConfigurationIn_t& argument,
                                               vector6_t& value,
                                               std::size_t& iobject,
                                               std::size_t& ifloor) const {
-  GTDataV<true, true, true, false> data(relativeTransformationModel_, robot_);
+  // Use a copy: several threads may evaluate the function.
+  GenericTransformationModel<true> model(relativeTransformationModel_);
+  GTDataV<true, true, true, false> data(model, robot_);
 
   data.device.currentConfiguration(argument);
   data.device.computeForwardKinematics(pinocchio::JOINT_POSITION);
@@ -178,12 +180,12 @@ void ConvexShapeContact::computeInternalValue(const ConfigurationIn_t& argument,
       floor(floorConvexShapes_[ifloor]);
   type = contactType(object, floor);
 
-  relativeTransformationModel_.joint1 = floor.joint_;
-  relativeTransformationModel_.joint2 = object.joint_;
-  relativeTransformationModel_.F1inJ1 = floor.positionInJoint();
-  relativeTransformationModel_.F2inJ2 = object.positionInJoint();
-  relativeTransformationModel_.checkIsIdentity1();
-  relativeTransformationModel_.checkIsIdentity2();
+  model.joint1 = floor.joint_;
+  model.joint2 = object.joint_;
+  model.F1inJ1 = floor.positionInJoint();
+  model.F2inJ2 = object.positionInJoint();
+  model.checkIsIdentity1();
+  model.checkIsIdentity2();
 
   compute<true, true, true, false>::error(data);
   value = data.value;
@@ -227,7 +229,9 @@ void ConvexShapeContact::computeInternalJacobian(
     matrix_t& jacobian) const {
   static std::vector<bool> mask(6, true);
 
-  GTDataJ<true, true, true, false> data(relativeTransformationModel_, robot_);
+  // Use a copy: several threads may evaluate the function.
+  GenericTransformationModel<true> model(relativeTransformationModel_);
+  GTDataJ<true, true, true, false> data(model, robot_);
 
   data.device.currentConfiguration(argument);
   data.device.computeForwardKinematics(pinocchio::JOINT_POSITION |
@@ -239,12 +243,12 @@ void ConvexShapeContact::computeInternalJacobian(
       floor(floorConvexShapes_[ifloor]);
   type = contactType(object, floor);
 
-  relativeTransformationModel_.joint1 = floor.joint_;
-  relativeTransformationModel_.joint2 = object.joint_;
-  relativeTransformationModel_.F1inJ1 = floor.positionInJoint();
-  relativeTransformationModel_.F2inJ2 = object.positionInJoint();
-  relativeTransformationModel_.checkIsIdentity1();
-  relativeTransformationModel_.checkIsIdentity2();
+  model.joint1 = floor.joint_;
+  model.joint2 = object.joint_;
+  model.F1inJ1 = floor.positionInJoint();
+  model.F2inJ2 = object.positionInJoint();
+  model.checkIsIdentity1();
+  model.checkIsIdentity2();
   data.cross2.setZero();
 
   compute<true, true, true, false>::error(data);
-- 
2.43.0


From 537f6b1829723945f4607ad32f6d782721660ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:50 +0000
Subject: [PATCH 23/69] fix: RelativeCom can be evaluated by several threads

---
 include/hpp/constraints/relative-com.hh |  1 -
 src/relative-com.cc                     | 12 +++++-------
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/hpp/constraints/relative-com.hh b/include/hpp/constraints/relative-com.hh
index f7428b1..0594fd6 100644
--- a/include/hpp/constraints/relative-com.hh
+++ b/include/hpp/constraints/relative-com.hh
@@ -124,7 +124,6 @@ class HPP_CONSTRAINTS_DLLAPI RelativeCom : public DifferentiableFunction {
   vector3_t reference_;
   std::vector<bool> mask_;
   bool nominalCase_;
-  mutable ComJacobian_t jacobian_;
 
   RelativeCom() {}
   HPP_SERIALIZABLE();
diff --git a/src/relative-com.cc b/src/relative-com.cc
index 9d55649..aa68c32 100644
--- a/src/relative-com.cc
+++ b/src/relative-com.cc
@@ -95,10 +95,8 @@ RelativeCom::RelativeCom(const DevicePtr_t& robot,
       joint_(joint),
       reference_(reference),
       mask_(mask),
-      nominalCase_(false),
-      jacobian_(3, robot->numberDof() - robot->extraConfigSpace().dimension()) {
+      nominalCase_(false) {
   if (mask[0] && mask[1] && mask[2]) nominalCase_ = true;
-  jacobian_.setZero();
 }
 
 std::ostream& RelativeCom::print(std::ostream& o) const {
@@ -151,19 +149,19 @@ void RelativeCom::impl_jacobian(matrixOut_t jacobian,
   jacobian.rightCols(jacobian.cols() - Jjoint.cols()).setZero();
   // Left part
   // J = 0RTj ( Jcom + [ x - 0tj ]x 0Rj jJwj - 0Rj jJtj)
-  jacobian_ = R.transpose() * Jcom;
-  jacobian_.noalias() +=
+  ComJacobian_t Jrel(R.transpose() * Jcom);
+  Jrel.noalias() +=
       (R.transpose() * R.colwise().cross(t - x)) * Jjoint.bottomRows<3>();
 
   if (nominalCase_) {
     jacobian.leftCols(Jjoint.cols()).noalias() =
-        jacobian_ - Jjoint.topRows<3>();
+        Jrel - Jjoint.topRows<3>();
   } else {
     size_t index = 0;
     for (size_t i = 0; i < 3; ++i)
       if (mask_[i]) {
         jacobian.row(index).head(Jjoint.cols()) =
-            jacobian_.row(i) - Jjoint.row(i);
+            Jrel.row(i) - Jjoint.row(i);
         index++;
       }
   }
-- 
2.43.0


From 1c2b5c1c9c31bef6bc59b7bd21105e18a0cf17ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 24/69] fix: arguments of the constructors of partial and extra
 dof locked joints

Input and output intervals were given in the wrong order, and the first index,
the size of the value and the mask of partial locked joints were not taken into
account.
---
 src/locked-joint.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/locked-joint.cc b/src/locked-joint.cc
index 84ca65a..848b33b 100644
--- a/src/locked-joint.cc
+++ b/src/locked-joint.cc
@@ -126,22 +126,22 @@ LockedJoint::LockedJoint(const JointPtr_t& joint, const size_type index,
                          vectorIn_t value)
     : Explicit(joint->robot()->configSpace(),
                ConstantFunction::create(
-                   LiegroupElement(
-                       value, LiegroupSpace::Rn(joint->configSize() - index)),
-                   0, 0, "partial " + joint->name()),
+                   LiegroupElement(value, LiegroupSpace::Rn(value.size())), 0,
+                   0, "partial " + joint->name()),
                segments_t(),  // input conf
-               segments_t(),  // input vel
-               {segment_t(joint->rankInConfiguration(),
-                          joint->configSize() - index)},  // output conf
-               {segment_t(joint->rankInVelocity(),
-                          joint->numberDof() - index)},  // output vel
-               ComparisonTypes_t(joint->numberDof() - index, Equality),
-               std::vector<bool>(joint->numberDof(), true)),
+               {segment_t(joint->rankInConfiguration() + index,
+                          value.size())},  // output conf
+               segments_t(),               // input vel
+               {segment_t(joint->rankInVelocity() + index,
+                          value.size())},  // output vel
+               ComparisonTypes_t(value.size(), Equality),
+               std::vector<bool>(value.size(), true)),
       jointName_("partial_" + joint->name()),
       joint_(joint),
-      configSpace_(LiegroupSpace::Rn(joint->configSize() - index)) {
+      configSpace_(LiegroupSpace::Rn(value.size())) {
   assert(HPP_DYNAMIC_PTR_CAST(explicit_::ImplicitFunction, functionPtr()));
   assert(joint->numberDof() == joint->configSize());
+  assert(index + value.size() <= joint->configSize());
   // rightHandSide (value);
   assert(rightHandSideSize() == value.size());
 }
@@ -153,10 +153,10 @@ LockedJoint::LockedJoint(const DevicePtr_t& dev, const size_type index,
                    LiegroupElement(value, LiegroupSpace::Rn(value.size())), 0,
                    0, dev->name() + "_extraDof" + numToStr(index)),
                segments_t(),  // input conf
-               segments_t(),  // input vel
                {segment_t(dev->configSize() -
                               dev->extraConfigSpace().dimension() + index,
                           value.size())},  // output conf
+               segments_t(),               // input vel
                {segment_t(dev->numberDof() -
                               dev->extraConfigSpace().dimension() + index,
                           value.size())},  // output vel
-- 
2.43.0


From 7a3b9c936665c5e085cb412e868c39e84d4aca6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 25/69] fix: Jacobian of the relative pose of a free-flyer
 joint that has a parent

The derivative with respect to the degrees of freedom of the parent joint and
the frames in which velocities are expressed were wrong.
---
 .../explicit/relative-transformation.hh       |  2 +-
 src/explicit/relative-transformation.cc       | 78 +++++--------------
 2 files changed, 22 insertions(+), 58 deletions(-)

diff --git a/include/hpp/constraints/explicit/relative-transformation.hh b/include/hpp/constraints/explicit/relative-transformation.hh
index cc7af61..3658592 100644
--- a/include/hpp/constraints/explicit/relative-transformation.hh
+++ b/include/hpp/constraints/explicit/relative-transformation.hh
@@ -174,7 +174,7 @@ class HPP_CONSTRAINTS_DLLAPI RelativeTransformation
 
   // Tmp variables
   mutable vector_t qsmall_, q_;
-  mutable matrix_t tmpJac_, J2_parent_minus_J1_;
+  mutable matrix_t tmpJac_;
 
   RelativeTransformation() {}
   HPP_SERIALIZABLE();
diff --git a/src/explicit/relative-transformation.cc b/src/explicit/relative-transformation.cc
index 3a493fe..909503d 100644
--- a/src/explicit/relative-transformation.cc
+++ b/src/explicit/relative-transformation.cc
@@ -171,74 +171,38 @@ void RelativeTransformation::impl_jacobian(matrixOut_t jacobian,
   bool absolute = !joint1_;
   bool hasParent = (parentJoint_ && parentJoint_->index() > 0);
 
-  static const JointJacobian_t Jabs;
-  const JointJacobian_t& J1(absolute ? Jabs : joint1_->jacobian());
-  // const JointJacobian_t& J2_parent (parentJoint_->jacobian());
-
-  const matrix3_t& R1(absolute ? matrix3_t::Identity().eval()
-                               : joint1_->currentTransformation().rotation());
   const matrix3_t& R2(joint2_->currentTransformation().rotation());
-  const matrix3_t& R2_inParentFrame(
-      joint2_->positionInParentFrame().rotation());
-
-  const vector3_t& t1(absolute
-                          ? vector3_t::Zero().eval()
-                          : joint1_->currentTransformation().translation());
-
-  matrix3_t cross1 = ::pinocchio::skew(
-                (R1 * F1inJ1_invF2inJ2_.translation()).eval()),
-            cross2;
-  if (hasParent) {
-    const vector3_t& t2_parent(
-        parentJoint_->currentTransformation().translation());
-    cross2 = ::pinocchio::skew((t2_parent - t1).eval());
-
-    if (absolute)
-      J2_parent_minus_J1_.noalias() = parentJoint_->jacobian();
-    else
-      J2_parent_minus_J1_.noalias() = parentJoint_->jacobian() - J1;
-  } else {
-    cross2 = -::pinocchio::skew(t1);
-    // J2_parent_minus_J1_ = - J1;
-  }
+  const vector3_t& t2(joint2_->currentTransformation().translation());
 
-  // Express velocity of J1 * M1/J1 * M2/J2^{-1} in J2_{parent}.
-  if (hasParent) {
-    const matrix3_t& R2_parent(
-        parentJoint_->currentTransformation().rotation());
-    const JointJacobian_t& J2_parent(parentJoint_->jacobian());
+  // Velocity of J1 * M1/J1 * M2/J2^{-1} with respect to the frame of J2_parent,
+  // expressed in J2.
+  jacobian.setZero();
+  if (!absolute) {
+    const JointJacobian_t& J1(joint1_->jacobian());
+    const matrix3_t& R1(joint1_->currentTransformation().rotation());
+    const vector3_t& t1(joint1_->currentTransformation().translation());
+    const matrix3_t cross1(::pinocchio::skew((t2 - t1).eval()));
 
     tmpJac_.noalias() =
-        (R2_inParentFrame.transpose() * R2_parent.transpose()) *
-        (cross1 * (omega(J2_parent_minus_J1_)) - cross2 * omega(J2_parent) -
-         trans(J2_parent_minus_J1_));
+        R2.transpose() * ((-cross1 * R1) * omega(J1) + R1 * trans(J1));
     jacobian.topRows<3>() = inVel_.rview(tmpJac_);
-  } else {
-    if (absolute)
-      jacobian.topRows<3>().setZero();
-    else {
-      tmpJac_.noalias() =
-          R2.transpose() * ((-cross1 * R1) * omega(J1) + R1 * trans(J1));
-      jacobian.topRows<3>() = inVel_.rview(tmpJac_);
-    }
+    tmpJac_.noalias() = (R2.transpose() * R1) * omega(J1);
+    jacobian.bottomRows<3>() = inVel_.rview(tmpJac_);
   }
-
   if (hasParent) {
+    const JointJacobian_t& J2_parent(parentJoint_->jacobian());
     const matrix3_t& R2_parent(
         parentJoint_->currentTransformation().rotation());
-    const JointJacobian_t& J2_parent(parentJoint_->jacobian());
+    const vector3_t& t2_parent(
+        parentJoint_->currentTransformation().translation());
+    const matrix3_t cross2(::pinocchio::skew((t2 - t2_parent).eval()));
 
-    // J = p2RT2 * 0RTp2 * [ p2
+    tmpJac_.noalias() =
+        R2.transpose() * ((-cross2 * R2_parent) * omega(J2_parent) +
+                          R2_parent * trans(J2_parent));
+    jacobian.topRows<3>() -= inVel_.rview(tmpJac_).eval();
     tmpJac_.noalias() = (R2.transpose() * R2_parent) * omega(J2_parent);
-    if (!absolute) tmpJac_.noalias() -= (R2.transpose() * R1) * omega(J1);
-    jacobian.bottomRows<3>() = inVel_.rview(tmpJac_);
-  } else {
-    if (absolute)
-      jacobian.bottomRows<3>().setZero();
-    else {
-      tmpJac_.noalias() = (R2.transpose() * R1) * omega(J1);
-      jacobian.bottomRows<3>() = inVel_.rview(tmpJac_);
-    }
+    jacobian.bottomRows<3>() -= inVel_.rview(tmpJac_).eval();
   }
 }
 
-- 
2.43.0


From 205b0aae790d381f269da274c2f77717b2b7a52b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:23 +0000
Subject: [PATCH 26/69] fix: masks in ExplicitConstraintSet::isSatisfied and
 isConstraintSatisfied

---
 src/explicit-constraint-set.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/explicit-constraint-set.cc b/src/explicit-constraint-set.cc
index 290d8e2..a4f9f39 100644
--- a/src/explicit-constraint-set.cc
+++ b/src/explicit-constraint-set.cc
@@ -78,6 +78,7 @@ bool ExplicitConstraintSet::isSatisfied(vectorIn_t arg, vectorOut_t error,
     size_type nRows(h.outputSpace()->nv());
     assert(*(d.h_value.space()) == *(d.rhs_implicit.space()));
     error.segment(row, nRows) = d.h_value - d.rhs_implicit;
+    d.constraint->setInactiveRowsToZero(error.segment(row, nRows));
     squaredNorm =
         std::max(squaredNorm, error.segment(row, nRows).squaredNorm());
     row += nRows;
@@ -109,6 +110,7 @@ bool ExplicitConstraintSet::isConstraintSatisfied(
       assert(error.size() == h.outputSpace()->nv());
       assert(*(d.h_value.space()) == *(d.rhs_implicit.space()));
       error = d.h_value - d.rhs_implicit;
+      d.constraint->setInactiveRowsToZero(error);
       squaredNorm = error.squaredNorm();
       constraintFound = true;
       return squaredNorm < errorThreshold_ * errorThreshold_;
-- 
2.43.0


From 54dd1b00a1fa17353cc2126921c51b4bd243562f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:08 +0000
Subject: [PATCH 27/69] fix: error of a solver without stack when the last
 level is optional

---
 src/solver/hierarchical-iterative.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 9b153ba..0bdaed3 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -692,8 +692,9 @@ void HierarchicalIterative::getReducedJacobian(matrixOut_t J) const {
 }
 
 void HierarchicalIterative::computeError() const {
-  const std::size_t end =
-      (lastIsOptional_ ? stacks_.size() - 1 : stacks_.size());
+  const std::size_t end = (lastIsOptional_ && !stacks_.empty())
+                              ? stacks_.size() - 1
+                              : stacks_.size();
   squaredNorm_ = 0;
   for (std::size_t i = 0; i < end; ++i) {
     const ImplicitConstraintSet::Implicits_t constraints(
@@ -833,8 +834,9 @@ std::ostream& HierarchicalIterative::print(std::ostream& os) const {
      << ", error threshold: " << errorThreshold() << iendl << "dimension "
      << dimension() << iendl << "reduced dimension " << reducedDimension()
      << iendl << "free variables: " << freeVariables_ << incindent;
-  const std::size_t end =
-      (lastIsOptional_ ? stacks_.size() - 1 : stacks_.size());
+  const std::size_t end = (lastIsOptional_ && !stacks_.empty())
+                              ? stacks_.size() - 1
+                              : stacks_.size();
   for (std::size_t i = 0; i < stacks_.size(); ++i) {
     const ImplicitConstraintSet::Implicits_t constraints(
         stacks_[i].constraints());
-- 
2.43.0


From e234870132163d872af4a944f9d16b868b06cd6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:52 +0000
Subject: [PATCH 28/69] fix: right hand side from a configuration for SE(2) and
 SE(3) valued functions

log is not the inverse of LiegroupSpace::exp for these groups.
---
 src/implicit.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/implicit.cc b/src/implicit.cc
index 16a46fe..217360a 100644
--- a/src/implicit.cc
+++ b/src/implicit.cc
@@ -214,7 +214,10 @@ void Implicit::rightHandSideFromConfig(ConfigurationIn_t config,
   assert(*rhs.space() == *function_->outputSpace());
   function_->value(output_, config);
   logOutput_.setZero();
-  equalityIndices_.lview(logOutput_) = equalityIndices_.rview(log(output_));
+  // rhs.space()->exp is the inverse of the difference with the neutral element,
+  // not of log for all Lie groups.
+  vector_t v(output_ - output_.space()->neutral());
+  equalityIndices_.lview(logOutput_) = equalityIndices_.rview(v);
   // rhs = exp(logOutput_)
   rhs = rhs.space()->exp(logOutput_);
 }
-- 
2.43.0


From 7976ffd56c14b90b6209b364e08b6656d523ce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:59 +0000
Subject: [PATCH 29/69] fix: checkRightHandSide compares spaces by value and
 accepts rounding errors

---
 src/implicit.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/implicit.cc b/src/implicit.cc
index 217360a..4d9919d 100644
--- a/src/implicit.cc
+++ b/src/implicit.cc
@@ -223,10 +223,13 @@ void Implicit::rightHandSideFromConfig(ConfigurationIn_t config,
 }
 
 bool Implicit::checkRightHandSide(LiegroupElementConstRef rhs) const {
-  if (rhs.space() != function_->outputSpace()) return false;
-  logOutput_ = log(rhs);
+  if (*rhs.space() != *function_->outputSpace()) return false;
+  logOutput_ = rhs - rhs.space()->neutral();
+  // The logarithm of an element of a Lie group is known up to rounding errors.
   for (std::size_t i = 0; i < comparison_.size(); ++i)
-    if ((comparison_[i] != Equality) && (logOutput_[i] != 0)) return false;
+    if ((comparison_[i] != Equality) &&
+        (fabs(logOutput_[i]) > 1e-8))
+      return false;
 
   return true;
 }
-- 
2.43.0


From 7b413fa2e4265d63e4cc99c64675692b7a9f2412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:34 +0000
Subject: [PATCH 30/69] fix: HierarchicalIterative::isConstraintSatisfied takes
 inequalities into account

---
 src/solver/hierarchical-iterative.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 0bdaed3..592da90 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -556,7 +556,15 @@ bool HierarchicalIterative::isConstraintSatisfied(
   LiegroupElementRef rhs(d.rightHandSide.vector().segment(iq, nq),
                          f->outputSpace());
   f->value(output, arg);
-  error = output - rhs;
+  vector_t e(output - rhs);
+  ComparisonTypes_t comparison(constraint->comparisonType());
+  std::vector<std::size_t> inequalityIndices;
+  for (std::size_t i = 0; i < comparison.size(); ++i)
+    if ((comparison[i] == Superior) || (comparison[i] == Inferior))
+      inequalityIndices.push_back(i);
+  applyComparison<false>(comparison, inequalityIndices, e, d.jacobian,
+                         inequalityThreshold_);
+  error = e;
   constraint->setInactiveRowsToZero(error);
   return (error.squaredNorm() < squaredErrorThreshold_);
 }
-- 
2.43.0


From 70f050b3f82fe61657a51cf1725f688137453b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 31/69] fix: Jacobian of an explicit constraint with value in
 SO(2), SO(3) or SE(2)

---
 src/explicit/implicit-function.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/explicit/implicit-function.cc b/src/explicit/implicit-function.cc
index 717b192..595e681 100644
--- a/src/explicit/implicit-function.cc
+++ b/src/explicit/implicit-function.cc
@@ -141,9 +141,14 @@ inline void JacobianVisitor::operator()<SE3>(const SE3&) {
 }
 
 template <typename LgT>
-void JacobianVisitor::operator()(const LgT&) {
-  outJacobian_.lview(result_).setIdentity();
-  inJacobian_.lview(result_) = -Jf_;
+void JacobianVisitor::operator()(const LgT& lg) {
+  // Derivatives of qOut - f (qIn) with respect to f (qIn) and to qOut
+  const size_type nv(result_.rows());
+  matrix_t J_f(nv, nv), J_out(nv, nv);
+  lg.template dDifference<::pinocchio::ARG0>(f_qIn_, qOut_, J_f);
+  lg.template dDifference<::pinocchio::ARG1>(f_qIn_, qOut_, J_out);
+  outJacobian_.lview(result_) = J_out;
+  inJacobian_.lview(result_) = J_f * Jf_;
 }
 
 ImplicitFunctionPtr_t ImplicitFunction::create(
-- 
2.43.0


From 4c8281dc69787c0371dba57fb7175fb1346f3c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 32/69] fix: BySubstitution::solve with optimization and
 nothing but explicit constraints

---
 include/hpp/constraints/solver/impl/by-substitution.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/solver/impl/by-substitution.hh b/include/hpp/constraints/solver/impl/by-substitution.hh
index a02dbd4..be98a70 100644
--- a/include/hpp/constraints/solver/impl/by-substitution.hh
+++ b/include/hpp/constraints/solver/impl/by-substitution.hh
@@ -79,7 +79,7 @@ inline HierarchicalIterative::Status BySubstitution::impl_solve(
   }
 
   bool errorIsAboveThr = (squaredNorm_ > .25 * squaredErrorThreshold_);
-  if (errorIsAboveThr && reducedDimension_ == 0) return INFEASIBLE;
+  if (reducedDimension_ == 0) return errorIsAboveThr ? INFEASIBLE : SUCCESS;
   if (optimize && !errorIsAboveThr) qopt = arg;
 
   Status status = SUCCESS;
-- 
2.43.0


From b583c867e4eeb5f98e4e958d1aa84fc539431d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 33/69] fix: inactive rows of a constraint are ignored whatever
 their comparison type

---
 src/solver/hierarchical-iterative.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 592da90..b405f3b 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -639,7 +639,6 @@ void HierarchicalIterative::computeValue(vectorIn_t config) const {
     assert(hpp::pinocchio::checkNormalized(d.output));
     assert(hpp::pinocchio::checkNormalized(d.rightHandSide));
     d.error = d.output - d.rightHandSide;
-    constraints.setInactiveRowsToZero(d.error);
     if (ComputeJac) {
       f.jacobian(d.jacobian, config);
       d.output.space()->dDifference_dq1<pinocchio::DerivativeTimesInput>(
@@ -647,6 +646,8 @@ void HierarchicalIterative::computeValue(vectorIn_t config) const {
     }
     applyComparison<ComputeJac>(d.comparison, d.inequalityIndices, d.error,
                                 d.jacobian, inequalityThreshold_);
+    // Inactive rows are ignored whatever their comparison type
+    constraints.setInactiveRowsToZero(d.error);
 
     // Copy columns that are not reduced
     if (ComputeJac) d.reducedJ = d.activeRowsOfJ.rview(d.jacobian);
-- 
2.43.0


From 0a7e10512d45ab670faa05c54ccd27bc319be7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 34/69] fix: right hand side of a solver with several levels or
 explicit constraints

---
 src/solver/by-substitution.cc        |  2 +-
 src/solver/hierarchical-iterative.cc | 14 +++++++-------
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index 3039fb4..ed4b1b7 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -352,7 +352,7 @@ void BySubstitution::rightHandSide(vectorIn_t rhs) {
   const size_type top = parent_t::rightHandSideSize();
   const size_type bot = explicit_.rightHandSideSize();
   parent_t::rightHandSide(rhs.head(top));
-  explicit_.rightHandSide(rhs.head(bot));
+  explicit_.rightHandSide(rhs.tail(bot));
 }
 
 vector_t BySubstitution::rightHandSide() const {
diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index b405f3b..39e061e 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -570,26 +570,26 @@ bool HierarchicalIterative::isConstraintSatisfied(
 }
 
 void HierarchicalIterative::rightHandSide(vectorIn_t rightHandSide) {
-  size_type iq = 0, iv = 0;
+  size_type iq = 0;
   for (std::size_t i = 0; i < stacks_.size(); ++i) {
     Data& d = datas_[i];
     LiegroupSpacePtr_t space(d.rightHandSide.space());
     size_type nq = space->nq();
-    size_type nv = space->nv();
     pinocchio::LiegroupElementConstRef output(
         space->elementConstRef(rightHandSide.segment(iq, nq)));
-    LiegroupElementRef rhs(
-        space->elementRef(d.rightHandSide.vector().segment(iq, nq)));
+    LiegroupElementRef rhs(space->elementRef(d.rightHandSide.vector()));
 
     // d.error is used here as an intermediate storage. The value
     // computed is not the error
     d.error = output - space->neutral();  // log (rightHandSide)
-    for (size_type k = 0; k < nv; ++k) {
-      if (d.comparison[iv + k] != Equality) assert(d.error[k] == 0);
+    // The right hand side is zero where the comparison type is not Equality
+    for (std::size_t k = 0; k < d.comparison.size(); ++k) {
+      if (d.comparison[k] != Equality) {
+        assert(fabs(d.error[k]) <= 1e-8);
+      }
     }
     rhs = space->neutral() + d.error;  // exp (d.error)
     iq += nq;
-    iv += nv;
   }
   assert(iq == rightHandSide.size());
 }
-- 
2.43.0


From 8fa5415ce0598d118701eb4cb64a95e02137e28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:16 +0000
Subject: [PATCH 35/69] fix: rows of the Jacobian of an explicit constraint
 with several outputs

---
 src/explicit/implicit-function.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/explicit/implicit-function.cc b/src/explicit/implicit-function.cc
index 595e681..abbb0f8 100644
--- a/src/explicit/implicit-function.cc
+++ b/src/explicit/implicit-function.cc
@@ -257,19 +257,19 @@ void ImplicitFunction::impl_jacobian(matrixOut_t jacobian,
 void ImplicitFunction::computeJacobianBlocks() {
   segments_t remainingCols(outputDerivIntervals_.indices());
   segments_t cols;
-  size_type iv = 0, nv;
+  size_type nv;
   std::size_t rank = 0;
   for (std::vector<LiegroupType>::const_iterator it =
            inputToOutput_->outputSpace()->liegroupTypes().begin();
        it != inputToOutput_->outputSpace()->liegroupTypes().end(); ++it) {
     nv = inputToOutput_->outputSpace()->nv(rank);
     cols = BlockIndex::split(remainingCols, nv);
-    segments_t rows(1, std::make_pair(iv, nv));
+    // Row indices are relative to the rows of this Lie group: see impl_jacobian
+    segments_t rows(1, std::make_pair(0, nv));
     outJacobian_.push_back(Eigen::MatrixBlocks<false, false>(rows, cols));
     inJacobian_.push_back(Eigen::MatrixBlocks<false, false>(
         rows, inputDerivIntervals_.indices()));
     //
-    iv += nv;
     ++rank;
   }
 }
-- 
2.43.0


From 2a4834c768898331e7ab856c349d8a9ba8f148a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:01 +0000
Subject: [PATCH 36/69] fix: BySubstitution with explicit constraints and a
 subset of free variables

---
 src/solver/by-substitution.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index ed4b1b7..d20f678 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -177,7 +177,9 @@ void BySubstitution::updateJacobian(vectorIn_t arg) const {
                    \  dqin                  /
   */
   explicit_.jacobian(JeExpanded_, arg);
-  Je_ = explicit_.jacobianNotOutToOut(JeExpanded_);
+  // Like the Jacobians of the stacks, restrict to the free variables.
+  Je_ = Eigen::MatrixBlocksRef<>(explicit_.outDers(), freeVariables_)
+            .rview(JeExpanded_);
 
   hppDnum(info, "Jacobian of explicit system is" << iendl << setpyformat
                                                  << pretty_print(Je_));
-- 
2.43.0


From c18eb826b28aa95bc61c71c5c745062b2dc6ed1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 37/69] fix: BlockIndex::extract accepts an empty vector of
 segments

---
 src/matrix-view.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matrix-view.cc b/src/matrix-view.cc
index ca817cd..373454b 100644
--- a/src/matrix-view.cc
+++ b/src/matrix-view.cc
@@ -203,9 +203,10 @@ BlockIndex::segments_t BlockIndex::extract(const segments_t& segments,
                                            size_type cardinal) {
   assert(start >= 0);
   assert(cardinal >= 0);
-  assert(segments[0].first >= 0);
   assert(start + cardinal <= BlockIndex::cardinal(segments));
   segments_t result;
+  if (segments.empty()) return result;
+  assert(segments[0].first >= 0);
   size_type remainingToStart = start;
   size_type startIndex;
   size_type remainingToEnd = 0;
-- 
2.43.0


From 5b77bf6c0e8fdddd93d8857421ee43b1bc3bcb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 38/69] fix: descent direction when the first level has no
 active row

---
 src/solver/hierarchical-iterative.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 39e061e..9c74df1 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -780,11 +780,11 @@ void HierarchicalIterative::computeDescentDirection() const {
     // dQ_1 = dQ_0 + P_0 * M+_1 * (-f_1(q) - J_1 * dQ_1)
     //  P_1 = P_0 * K_1
     matrix_t* projector = NULL;
+    // First levels may have no active row.
+    dqSmall_.setZero();
     for (std::size_t i = 0; i < stacks_.size(); ++i) {
       Data& d = datas_[i];
 
-      // TODO: handle case where this is the first element of the stack and it
-      // has no functions
       if (d.reducedJ.rows() == 0) continue;
       /// projector is of size numberDof
       bool first = (i == 0);
-- 
2.43.0


From e9c9cfdb64641567c5de026834edd72f59b2488e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:22 +0000
Subject: [PATCH 39/69] fix: active rows of BySubstitution with a subset of
 free variables

---
 src/solver/by-substitution.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index d20f678..c8a112b 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -243,7 +243,10 @@ void BySubstitution::computeActiveRowsOfJ(std::size_t iStack) {
       adpF = (explicitIOdep.transpose() * adpC.cast<int>().matrix())
                  .array()
                  .cast<bool>();
-      active = adpF.any();
+      // Only keep free variables among the inputs of the explicit solver.
+      ArrayXb inputs(ArrayXb::Constant(configSpace_->nv(), false));
+      explicit_.inDers().transpose().lview(inputs.matrix()) = adpF.matrix();
+      active = freeVariables_.rview(inputs.matrix()).eval().array().any();
     }
     if (active) {  // If at least one element of adp is true
       for (const segment_t& s : constraints[i]->activeRows()) {
-- 
2.43.0


From 4e45f9209922aa228170d5183800d9e1b2206fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 40/69] fix: smallest singular value when the projected
 Jacobian has less columns than the maximal rank

---
 src/solver/hierarchical-iterative.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 9c74df1..dd740d9 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -814,7 +814,11 @@ void HierarchicalIterative::computeDescentDirection() const {
       // Update sigma
       const size_type rank = d.svd.rank();
       d.maxRank = std::max(d.maxRank, rank);
-      if (d.maxRank > 0)
+      // The projected Jacobian may have less columns than when the maximal
+      // rank was reached.
+      if (d.maxRank > d.svd.singularValues().size())
+        sigma_ = 0;
+      else if (d.maxRank > 0)
         sigma_ = std::min(sigma_, d.svd.singularValues()[d.maxRank - 1]);
       if (solveLevelByLevel_ && err.squaredNorm() > squaredErrorThreshold_)
         break;
-- 
2.43.0


From 7f3c27141a80fcd021873fdbc0e27e5a235e4beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:15 +0000
Subject: [PATCH 41/69] fix: rank of the reduced Jacobian in
 BySubstitution::projectVectorOnKernel

---
 src/solver/hierarchical-iterative.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index dd740d9..da6749c 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -404,6 +404,7 @@ void HierarchicalIterative::update() {
   reducedJ_.resize(reducedDimension_, reducedSize);
   svd_ = SVD_t(reducedDimension_, reducedSize,
                Eigen::ComputeThinU | Eigen::ComputeThinV);
+  svd_.setThreshold(SVD_THRESHOLD);
 }
 
 void HierarchicalIterative::computeActiveRowsOfJ(std::size_t iStack) {
-- 
2.43.0


From 84bb2c47ba48e1df850e4b0e51b09d36fdbb7946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 42/69] fix: Jacobian of an extracted function evaluated at the
 wrong time

---
 src/extracted-function.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extracted-function.hh b/src/extracted-function.hh
index 91c3335..a119dc7 100644
--- a/src/extracted-function.hh
+++ b/src/extracted-function.hh
@@ -69,7 +69,7 @@ class ExtractedFunction : public DifferentiableFunction {
       original_->jacobian(jacobian, param);
       jacobian *= -1;
     } else {
-      param[0] = arg[0] - t1_;
+      param[0] = t1_ + arg[0];
       return original_->jacobian(jacobian, param);
     }
   }
-- 
2.43.0


From 00a414aacf3171b12d27c526904fc22cde4db617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:00 +0000
Subject: [PATCH 43/69] fix: parameter size and active rows of a set of
 implicit constraints

---
 include/hpp/constraints/implicit-constraint-set.hh | 1 +
 src/implicit.cc                                    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/hpp/constraints/implicit-constraint-set.hh b/include/hpp/constraints/implicit-constraint-set.hh
index 553c7d3..1e394c3 100644
--- a/include/hpp/constraints/implicit-constraint-set.hh
+++ b/include/hpp/constraints/implicit-constraint-set.hh
@@ -69,6 +69,7 @@ class HPP_CONSTRAINTS_DLLAPI ImplicitConstraintSet : public Implicit {
     for (std::size_t i = 0; i < comp.size(); ++i) {
       comparison_.push_back(comp[i]);
     }
+    parameterSize_ += constraint->parameterSize_;
     // Handle mask
     mask_.insert(mask_.end(), constraint->mask_.begin(),
                  constraint->mask_.end());
diff --git a/src/implicit.cc b/src/implicit.cc
index 4d9919d..ce9f9a7 100644
--- a/src/implicit.cc
+++ b/src/implicit.cc
@@ -137,6 +137,7 @@ Implicit::Implicit(const DifferentiableFunctionPtr_t& function,
 
 // Compute active rows
 void Implicit::computeActiveRows() {
+  activeRows_.clear();
   segments_t inactiveRows;
   for (std::size_t i = 0; i < mask_.size(); ++i) {
     if (mask_[i])
-- 
2.43.0


From 3ec98d4d0b768759726884659ed6d540e38e72cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:09 +0000
Subject: [PATCH 44/69] fix: Jacobian of OfParameterSubset outside the subset
 of parameters

---
 include/hpp/constraints/function/of-parameter-subset.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hpp/constraints/function/of-parameter-subset.hh b/include/hpp/constraints/function/of-parameter-subset.hh
index aac7a98..da69135 100644
--- a/include/hpp/constraints/function/of-parameter-subset.hh
+++ b/include/hpp/constraints/function/of-parameter-subset.hh
@@ -83,6 +83,7 @@ class HPP_CONSTRAINTS_DLLAPI OfParameterSubset : public DifferentiableFunction {
   }
 
   void impl_jacobian(matrixOut_t J, vectorIn_t arg) const {
+    J.setZero();
     g_->jacobian(J.middleCols(sd_.first, sd_.second),
                  arg.segment(sa_.first, sa_.second));
   }
-- 
2.43.0


From 5350f7c97ebaa6ba576e9ea0de19d98164e22fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:41 +0000
Subject: [PATCH 45/69] fix: Jacobian and active parameters of
 function::Difference

---
 .../hpp/constraints/function/difference.hh    | 20 ++++++++++++++-----
 src/function/difference.cc                    |  2 ++
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/include/hpp/constraints/function/difference.hh b/include/hpp/constraints/function/difference.hh
index 1520a8a..e429c4d 100644
--- a/include/hpp/constraints/function/difference.hh
+++ b/include/hpp/constraints/function/difference.hh
@@ -67,11 +67,21 @@ class HPP_CONSTRAINTS_LOCAL Difference
   }
 
   void impl_jacobian(matrixOut_t J, vectorIn_t arg) const {
-    inner_->jacobian(J.middleCols(lsd_.first, lsd_.second),
-                     arg.segment(lsa_.first, lsa_.second));
-    inner_->jacobian(J.middleCols(rsd_.first, rsd_.second),
-                     arg.segment(rsa_.first, rsa_.second));
-    J.middleCols(rsd_.first, rsd_.second) *= -1;
+    // The intervals may overlap.
+    const LiegroupSpacePtr_t& space(inner_->outputSpace());
+    matrix_t Jl(space->nv(), lsd_.second), Jr(space->nv(), rsd_.second);
+    inner_->value(l_, arg.segment(lsa_.first, lsa_.second));
+    inner_->value(r_, arg.segment(rsa_.first, rsa_.second));
+    inner_->jacobian(Jl, arg.segment(lsa_.first, lsa_.second));
+    inner_->jacobian(Jr, arg.segment(rsa_.first, rsa_.second));
+    // d (l - r) for values in a Lie group
+    space->dDifference_dq1<pinocchio::DerivativeTimesInput>(r_.vector(),
+                                                            l_.vector(), Jl);
+    space->dDifference_dq0<pinocchio::DerivativeTimesInput>(r_.vector(),
+                                                            l_.vector(), Jr);
+    J.setZero();
+    J.middleCols(lsd_.first, lsd_.second) += Jl;
+    J.middleCols(rsd_.first, rsd_.second) += Jr;
   }
 
   bool isEqual(const DifferentiableFunction& other) const {
diff --git a/src/function/difference.cc b/src/function/difference.cc
index 460b1da..75dc958 100644
--- a/src/function/difference.cc
+++ b/src/function/difference.cc
@@ -58,12 +58,14 @@ Difference::Difference(const DifferentiableFunctionPtr_t& inner,
   activeParameters_.segment(lsa_.first, lsa_.second) =
       inner_->activeParameters();
   activeParameters_.segment(rsa_.first, rsa_.second) =
+      activeParameters_.segment(rsa_.first, rsa_.second) ||
       inner_->activeParameters();
 
   activeDerivativeParameters_.setConstant(false);
   activeDerivativeParameters_.segment(lsd_.first, lsd_.second) =
       inner_->activeDerivativeParameters();
   activeDerivativeParameters_.segment(rsd_.first, rsd_.second) =
+      activeDerivativeParameters_.segment(rsd_.first, rsd_.second) ||
       inner_->activeDerivativeParameters();
 }
 
-- 
2.43.0


From a049b428f3e2681838c90db94e04d64af2c0aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:50 +0000
Subject: [PATCH 46/69] fix: sum of symbolic expressions of different types

---
 include/hpp/constraints/symbolic-calculus.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index 5e1bfcd..5b91550 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -452,8 +452,8 @@ class Sum : public CalculusBase<Sum<LhsValue, RhsValue> > {
   Sum(const CalculusBase<Sum>& other)
       : CalculusBase<Sum>(other), e_(static_cast<const Sum&>(other).e_) {}
 
-  Sum(const typename Traits<RhsValue>::Ptr_t& rhs,
-      const typename Traits<LhsValue>::Ptr_t& lhs)
+  Sum(const typename Traits<LhsValue>::Ptr_t& lhs,
+      const typename Traits<RhsValue>::Ptr_t& rhs)
       : e_(Expression<LhsValue, RhsValue>::create(lhs, rhs)) {}
 
   void impl_value(const ConfigurationIn_t arg) {
-- 
2.43.0


From 12b6f849d2b7c3ba52a1d7d5fedf15e58898e393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:58 +0000
Subject: [PATCH 47/69] fix: several centers of mass in the same symbolic
 expression

---
 include/hpp/constraints/symbolic-calculus.hh | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/hpp/constraints/symbolic-calculus.hh b/include/hpp/constraints/symbolic-calculus.hh
index 5b91550..cbbc207 100644
--- a/include/hpp/constraints/symbolic-calculus.hh
+++ b/include/hpp/constraints/symbolic-calculus.hh
@@ -809,22 +809,19 @@ class PointCom : public CalculusBase<PointCom, vector3_t, ComJacobian_t> {
 
   PointCom(const CenterOfMassComputationPtr_t& comc) : comc_(comc) {}
 
-  inline const vector3_t& value() const { return comc_->com(); }
-  inline const ComJacobian_t& jacobian() const { return comc_->jacobian(); }
-
   const CenterOfMassComputationPtr_t& centerOfMassComputation() const {
     return comc_;
   }
   void impl_value(const ConfigurationIn_t) {
     comc_->compute(hpp::pinocchio::COM);
-    // Used by computeCrossValue.
+    // The result in the device is overwritten by the computation of any other
+    // center of mass of the same device.
     this->value_ = comc_->com();
   }
   void impl_jacobian(const ConfigurationIn_t) {
     comc_->compute(hpp::pinocchio::COMPUTE_ALL);
-    // TODO: there is memory and time to be saved here as this copy is
-    // not important.
-    // this->jacobian_ = comc_->jacobian ();
+    this->value_ = comc_->com();
+    this->jacobian_ = comc_->jacobian();
   }
 
  protected:
-- 
2.43.0


From 7fc6cc31a0f1aceadbd1a941d1e209790815d119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:58 +0000
Subject: [PATCH 48/69] fix: output size of SymbolicFunction when some rows are
 masked

---
 include/hpp/constraints/symbolic-function.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/hpp/constraints/symbolic-function.hh b/include/hpp/constraints/symbolic-function.hh
index e0ea622..56d90fc 100644
--- a/include/hpp/constraints/symbolic-function.hh
+++ b/include/hpp/constraints/symbolic-function.hh
@@ -29,6 +29,7 @@
 #ifndef HPP_CONSTRAINTS_SYMBOLIC_FUNCTION_HH
 #define HPP_CONSTRAINTS_SYMBOLIC_FUNCTION_HH
 
+#include <algorithm>
 #include <hpp/constraints/config.hh>
 #include <hpp/constraints/differentiable-function.hh>
 #include <hpp/constraints/fwd.hh>
@@ -84,8 +85,10 @@ class HPP_CONSTRAINTS_DLLAPI SymbolicFunction : public DifferentiableFunction {
   SymbolicFunction(const std::string& name, const DevicePtr_t& robot,
                    const typename Traits<Expression>::Ptr_t expr,
                    std::vector<bool> mask)
-      : DifferentiableFunction(robot->configSize(), robot->numberDof(),
-                               LiegroupSpace::Rn(expr->value().size()), name),
+      : DifferentiableFunction(
+            robot->configSize(), robot->numberDof(),
+            LiegroupSpace::Rn(std::count(mask.begin(), mask.end(), true)),
+            name),
         robot_(robot),
         expr_(expr),
         mask_(mask) {
-- 
2.43.0


From c9217866070b5f3d74177cbfc185bb96017bf491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:34 +0000
Subject: [PATCH 49/69] fix: print a locked joint

LockedJoint::print evaluated the implicit function, which takes a configuration
of the robot as input, with an empty vector and an element of an empty Lie
group. Evaluate the explicit function that stores the locked value instead.
---
 src/locked-joint.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/locked-joint.cc b/src/locked-joint.cc
index 848b33b..9c85150 100644
--- a/src/locked-joint.cc
+++ b/src/locked-joint.cc
@@ -178,9 +178,9 @@ void LockedJoint::init(const LockedJointPtr_t& self) {
 }
 
 std::ostream& LockedJoint::print(std::ostream& os) const {
-  LiegroupElement v;
+  LiegroupElement v(explicitFunction()->outputSpace());
   vector_t empty;
-  function().value(v, empty);
+  explicitFunction()->value(v, empty);
   os << "Locked joint " << jointName_
      << ", value = " << pinocchio::displayConfig(v.vector())
      << ": rank in configuration = " << rankInConfiguration()
-- 
2.43.0


From bc0ad1f46aa15941fe3407d5f4d4795694ebc715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 50/69] fix: Jacobian of an explicit contact with floors on
 several joints

---
 src/explicit/convex-shape-contact.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/explicit/convex-shape-contact.cc b/src/explicit/convex-shape-contact.cc
index 6c9b57d..02e210a 100644
--- a/src/explicit/convex-shape-contact.cc
+++ b/src/explicit/convex-shape-contact.cc
@@ -165,8 +165,17 @@ void ConvexShapeContact::jacobianOutputValue(vectorIn_t qin,
   assert(!qinRelPose.hasNaN());
   LiegroupElement outputRelPose(LiegroupSpace::R3xSO3());
   relativePose->outputValue(outputRelPose, qinRelPose, relativePoseRhs);
+  // Input variables of the relative pose are a subset of the input variables
+  // of this constraint: other columns are equal to zero.
+  Eigen::ColBlockIndices inputVelocities(inputVelocity());
+  Eigen::ColBlockIndices relPosInputVelocities(relativePose->inputVelocity());
+  matrix_t relPosJacobian(jacobian.rows(),
+                          relPosInputVelocities.nbIndices());
   relativePose->jacobianOutputValue(qinRelPose, outputRelPose, relativePoseRhs,
-                                    jacobian);
+                                    relPosJacobian);
+  matrix_t J(matrix_t::Zero(jacobian.rows(), f->inputDerivativeSize()));
+  relPosInputVelocities.lview(J) = relPosJacobian;
+  jacobian = inputVelocities.rview(J);
 }
 
 ConvexShapeContact::ConvexShapeContact(const std::string& name,
-- 
2.43.0


From 5d779ab33599719e3983b9610960c7e56a38c327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 51/69] fix: a copy of a solver shares the output spaces of the
 original

---
 src/solver/hierarchical-iterative.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index da6749c..3433d10 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -250,6 +250,14 @@ HierarchicalIterative::HierarchicalIterative(const HierarchicalIterative& other)
   for (auto& ics : stacks_) {
     ics.replace(oldToNew);
   }
+  // Adding a constraint modifies the output space of the stack. Do not share
+  // this space with the other solver.
+  for (std::size_t i = 0; i < datas_.size(); ++i) {
+    Data& d = datas_[i];
+    LiegroupSpacePtr_t space(stacks_[i].function().outputSpace());
+    d.output = LiegroupElement(d.output.vector(), space);
+    d.rightHandSide = LiegroupElement(d.rightHandSide.vector(), space);
+  }
 }
 
 bool HierarchicalIterative::contains(
-- 
2.43.0


From 35fe66077cc9105166e13bea47fb61f792889ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 52/69] fix: equality of constant functions is inverted

---
 include/hpp/constraints/affine-function.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/affine-function.hh b/include/hpp/constraints/affine-function.hh
index 616f6a6..04d7968 100644
--- a/include/hpp/constraints/affine-function.hh
+++ b/include/hpp/constraints/affine-function.hh
@@ -183,7 +183,7 @@ struct HPP_CONSTRAINTS_DLLAPI ConstantFunction : public DifferentiableFunction {
         dynamic_cast<const ConstantFunction&>(other);
     if (!DifferentiableFunction::isEqual(other)) return false;
 
-    if (c_.vector() == castother.c_.vector()) return false;
+    if (c_.vector() != castother.c_.vector()) return false;
 
     return true;
   }
-- 
2.43.0


From ac1127ac1b38f6a93b26c47ecf4279e8f33c01ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 53/69] fix: equality of constraints ignores the masks

---
 src/implicit.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/implicit.cc b/src/implicit.cc
index ce9f9a7..40a7908 100644
--- a/src/implicit.cc
+++ b/src/implicit.cc
@@ -181,6 +181,7 @@ Implicit::Implicit(const Implicit& other)
 
 bool Implicit::isEqual(const Implicit& other, bool swapAndTest) const {
   if (comparison_ != other.comparison_) return false;
+  if (mask_ != other.mask_) return false;
   if (rhs_.size() != other.rhs_.size()) return false;
   if (function_ != other.function_ && *function_ != *other.function_)
     return false;
-- 
2.43.0


From 03e715e211056664e7e1b6066341749b83b274bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 54/69] fix: equality of functions depends on their last
 evaluation

---
 include/hpp/constraints/differentiable-function-set.hh | 3 ---
 include/hpp/constraints/manipulability.hh              | 2 --
 2 files changed, 5 deletions(-)

diff --git a/include/hpp/constraints/differentiable-function-set.hh b/include/hpp/constraints/differentiable-function-set.hh
index 5a578ef..538e33f 100644
--- a/include/hpp/constraints/differentiable-function-set.hh
+++ b/include/hpp/constraints/differentiable-function-set.hh
@@ -131,9 +131,6 @@ class HPP_CONSTRAINTS_DLLAPI DifferentiableFunctionSet
     if (!DifferentiableFunction::isEqual(other)) return false;
 
     if (functions_ != castother.functions_) return false;
-    if (result_.size() != castother.result_.size()) return false;
-    for (std::size_t i = 0; i < result_.size(); i++)
-      if (result_[i] != castother.result_[i]) return false;
 
     return true;
   }
diff --git a/include/hpp/constraints/manipulability.hh b/include/hpp/constraints/manipulability.hh
index 52efbbe..66edead 100644
--- a/include/hpp/constraints/manipulability.hh
+++ b/include/hpp/constraints/manipulability.hh
@@ -72,8 +72,6 @@ class HPP_CONSTRAINTS_DLLAPI Manipulability : public DifferentiableFunction {
     if (function_ != castother.function_) return false;
     if (robot_ != castother.robot_) return false;
     if (cols_.cols() != castother.cols_.cols()) return false;
-    if (J_ != castother.J_) return false;
-    if (J_JT_ != castother.J_JT_) return false;
 
     return true;
   }
-- 
2.43.0


From d720969b2d8d283480c8585c3687b4a4697aac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:52 +0000
Subject: [PATCH 55/69] fix: equality of RelativeCom ignores the reference

---
 include/hpp/constraints/relative-com.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/hpp/constraints/relative-com.hh b/include/hpp/constraints/relative-com.hh
index 0594fd6..f5136c9 100644
--- a/include/hpp/constraints/relative-com.hh
+++ b/include/hpp/constraints/relative-com.hh
@@ -111,6 +111,7 @@ class HPP_CONSTRAINTS_DLLAPI RelativeCom : public DifferentiableFunction {
     if (robot_ != castother.robot_) return false;
     if (comc_ != castother.comc_) return false;
     if (joint_ != castother.joint_) return false;
+    if (reference_ != castother.reference_) return false;
     if (mask_ != castother.mask_) return false;
     if (nominalCase_ != castother.nominalCase_) return false;
 
-- 
2.43.0


From 1a45a093a88fecea5af828a66a80559e102fdc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 56/69] fix: equality of relative transformations ignores
 joints and frames

---
 include/hpp/constraints/generic-transformation.hh | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/hpp/constraints/generic-transformation.hh b/include/hpp/constraints/generic-transformation.hh
index b578975..785c90f 100644
--- a/include/hpp/constraints/generic-transformation.hh
+++ b/include/hpp/constraints/generic-transformation.hh
@@ -352,11 +352,19 @@ class HPP_CONSTRAINTS_DLLAPI GenericTransformation
     if (!DifferentiableFunction::isEqual(other)) return false;
     if (robot_ != castother.robot_) return false;
     if (mask_ != castother.mask_) return false;
+    if (!sameJoint(joint1(), castother.joint1())) return false;
+    if (!sameJoint(joint2(), castother.joint2())) return false;
+    if (m_.F1inJ1 != castother.m_.F1inJ1) return false;
+    if (m_.F2inJ2 != castother.m_.F2inJ2) return false;
 
     return true;
   }
 
  private:
+  static bool sameJoint(const JointConstPtr_t& j1, const JointConstPtr_t& j2) {
+    if (!j1 || !j2) return !j1 && !j2;
+    return *j1 == *j2;
+  }
   void computeActiveParams();
   DevicePtr_t robot_;
   GenericTransformationModel<IsRelative> m_;
-- 
2.43.0


From e46071ff76ae197adde4091acb84895adc5bb87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:41 +0000
Subject: [PATCH 57/69] fix: equality of contacts ignores floors and normal
 margin

---
 src/convex-shape-contact.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/convex-shape-contact.cc b/src/convex-shape-contact.cc
index 7d9a6e2..a281a3e 100644
--- a/src/convex-shape-contact.cc
+++ b/src/convex-shape-contact.cc
@@ -72,10 +72,9 @@ bool ConvexShapeContact::isEqual(const DifferentiableFunction& other) const {
       dynamic_cast<const ConvexShapeContact&>(other);
   if (!DifferentiableFunction::isEqual(other)) return false;
   if (robot_ != castother.robot_) return false;
-  if (objectConvexShapes_.size() != castother.objectConvexShapes_.size())
-    return false;
-  for (std::size_t i = 0; i < objectConvexShapes_.size(); i++)
-    if (floorConvexShapes_[i] != castother.floorConvexShapes_[i]) return false;
+  if (objectConvexShapes_ != castother.objectConvexShapes_) return false;
+  if (floorConvexShapes_ != castother.floorConvexShapes_) return false;
+  if (normalMargin_ != castother.normalMargin_) return false;
   return true;
 }
 
-- 
2.43.0


From 1a554b4c9f07c1b0423d638fe5cb12d755e98b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 58/69] fix: indices of restored transformations are not
 computed

---
 src/generic-transformation.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/generic-transformation.cc b/src/generic-transformation.cc
index 2bbdd13..9d6e178 100644
--- a/src/generic-transformation.cc
+++ b/src/generic-transformation.cc
@@ -288,6 +288,9 @@ void GenericTransformation<_Options>::serialize(Archive& ar,
   ar& boost::serialization::make_nvp("mask_",
                                      const_cast<std::vector<bool>&>(mask_));
   ar& BOOST_SERIALIZATION_NVP(self_);
+  if (!Archive::is_saving::value)
+    Vindices_ = indices<(bool)ComputePosition, (bool)ComputeOrientation,
+                        (bool)OutputR3xSO3>(mask_);
 }
 
 /// Force instanciation of relevant classes
-- 
2.43.0


From 12ff2ca317190a7625552f7b410743f659322c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 59/69] fix: devices of restored explicit transformations are
 not shared

---
 src/explicit/relative-transformation.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/explicit/relative-transformation.cc b/src/explicit/relative-transformation.cc
index 909503d..cb3ea65 100644
--- a/src/explicit/relative-transformation.cc
+++ b/src/explicit/relative-transformation.cc
@@ -32,6 +32,7 @@
 #include <hpp/constraints/explicit/relative-transformation.hh>
 #include <hpp/constraints/serialization.hh>
 #include <hpp/pinocchio/device.hh>
+#include <hpp/pinocchio/serialization.hh>
 #include <hpp/util/serialization.hh>
 #include <pinocchio/serialization/se3.hpp>
 #include <pinocchio/spatial/explog.hpp>
-- 
2.43.0


From a8f552dfa50e42253dfbab577fc8527fad1b9c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:03 +0000
Subject: [PATCH 60/69] fix: restored constraints cannot be evaluated

---
 src/implicit.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/implicit.cc b/src/implicit.cc
index 40a7908..d02f4e9 100644
--- a/src/implicit.cc
+++ b/src/implicit.cc
@@ -265,6 +265,8 @@ void Implicit::serialize(Archive& ar, const unsigned int version) {
   if (!Archive::is_saving::value) {
     computeActiveRows();
     computeIndices();
+    output_ = LiegroupElement(function_->outputSpace());
+    logOutput_.resize(function_->outputSpace()->nv());
   }
 }
 
-- 
2.43.0


From c02be4a5a7d131ba602e8379ecbf0569f707ec27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:22 +0000
Subject: [PATCH 61/69] fix: restored solvers and bounds lose part of their
 state

- free variables, solution level by level and the mapping of the bounds
  are not stored,
- the saturation vector has the size of configurations,
- the threshold of the explicit constraints and the Jacobian of the
  explicit constraints are not initialised,
- loading in a constructed solver adds free variables twice.
---
 .../constraints/explicit-constraint-set.hh    |  2 ++
 .../solver/hierarchical-iterative.hh          | 15 ++++++++++-
 src/solver/by-substitution.cc                 |  3 +++
 src/solver/hierarchical-iterative.cc          | 25 ++++++++++++++++---
 4 files changed, 41 insertions(+), 4 deletions(-)

diff --git a/include/hpp/constraints/explicit-constraint-set.hh b/include/hpp/constraints/explicit-constraint-set.hh
index 20edcb9..7258174 100644
--- a/include/hpp/constraints/explicit-constraint-set.hh
+++ b/include/hpp/constraints/explicit-constraint-set.hh
@@ -522,7 +522,9 @@ class HPP_CONSTRAINTS_DLLAPI ExplicitConstraintSet {
     arg_.resize(space->nq());
     diff_.resize(space->nv());
 
+    notOutArgs_ = RowBlockIndices();
     notOutArgs_.addRow(0, space->nq());
+    notOutDers_ = ColBlockIndices();
     notOutDers_.addCol(0, space->nv());
   }
 
diff --git a/include/hpp/constraints/solver/hierarchical-iterative.hh b/include/hpp/constraints/solver/hierarchical-iterative.hh
index fbf1767..cef1b35 100644
--- a/include/hpp/constraints/solver/hierarchical-iterative.hh
+++ b/include/hpp/constraints/solver/hierarchical-iterative.hh
@@ -29,6 +29,7 @@
 #ifndef HPP_CONSTRAINTS_SOLVER_HIERARCHICAL_ITERATIVE_HH
 #define HPP_CONSTRAINTS_SOLVER_HIERARCHICAL_ITERATIVE_HH
 
+#include <boost/serialization/version.hpp>
 #include <functional>
 #include <hpp/constraints/config.hh>
 #include <hpp/constraints/fwd.hh>
@@ -647,7 +648,16 @@ class HPP_CONSTRAINTS_DLLAPI HierarchicalIterative {
   friend struct lineSearch::Backtracking;
 
  protected:
-  HierarchicalIterative() {}
+  HierarchicalIterative()
+      : squaredErrorThreshold_(0),
+        inequalityThreshold_(0),
+        maxIterations_(0),
+        dimension_(0),
+        reducedDimension_(0),
+        lastIsOptional_(false),
+        solveLevelByLevel_(false),
+        sigma_(0),
+        squaredNorm_(0) {}
 
  private:
   HPP_SERIALIZABLE_SPLIT();
@@ -661,4 +671,7 @@ inline std::ostream& operator<<(std::ostream& os,
 }  // namespace constraints
 }  // namespace hpp
 
+BOOST_CLASS_VERSION(hpp::constraints::solver::HierarchicalIterative, 1)
+BOOST_CLASS_VERSION(hpp::constraints::solver::saturation::Bounds, 1)
+
 #endif  // HPP_CONSTRAINTS_SOLVER_HIERARCHICAL_ITERATIVE_HH
diff --git a/src/solver/by-substitution.cc b/src/solver/by-substitution.cc
index c8a112b..04d03d7 100644
--- a/src/solver/by-substitution.cc
+++ b/src/solver/by-substitution.cc
@@ -393,7 +393,10 @@ void BySubstitution::load(Archive& ar, const unsigned int version) {
   LiegroupSpacePtr_t space;
   ar& BOOST_SERIALIZATION_NVP(space);
   explicit_.init(space);
+  JeExpanded_.resize(space->nv(), space->nv());
   ar& make_nvp("base", base_object<HierarchicalIterative>(*this));
+  // The threshold of the explicit constraints is stored by the base class.
+  errorThreshold(errorThreshold());
 }
 
 template <class Archive>
diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 3433d10..49fcc49 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -41,6 +41,7 @@
 #include <hpp/util/serialization.hh>
 #include <hpp/util/timer.hh>
 #include <limits>
+#include <numeric>
 #include <pinocchio/multibody/model.hpp>
 #include <pinocchio/serialization/eigen.hpp>
 
@@ -895,7 +896,6 @@ template HierarchicalIterative::Status HierarchicalIterative::solve(
 
 template <class Archive>
 void HierarchicalIterative::load(Archive& ar, const unsigned int version) {
-  (void)version;
   ar& BOOST_SERIALIZATION_NVP(squaredErrorThreshold_);
   ar& BOOST_SERIALIZATION_NVP(inequalityThreshold_);
   ar& BOOST_SERIALIZATION_NVP(maxIterations_);
@@ -903,11 +903,12 @@ void HierarchicalIterative::load(Archive& ar, const unsigned int version) {
   ar& BOOST_SERIALIZATION_NVP(lastIsOptional_);
   ar& BOOST_SERIALIZATION_NVP(saturate_);
 
-  saturation_.resize(configSpace_->nq());
+  saturation_.resize(configSpace_->nv());
   qSat_.resize(configSpace_->nq());
   OM_.resize(configSpace_->nv());
   OP_.resize(configSpace_->nv());
   // Initialize freeVariables_ to all indices.
+  freeVariables_ = Indices_t();
   freeVariables_.addRow(0, configSpace_->nv());
 
   NumericalConstraints_t constraints;
@@ -917,6 +918,13 @@ void HierarchicalIterative::load(Archive& ar, const unsigned int version) {
 
   for (std::size_t i = 0; i < constraints.size(); ++i)
     add(constraints[i], priorities[i]);
+  if (version >= 1) {
+    ar& BOOST_SERIALIZATION_NVP(solveLevelByLevel_);
+    // Adding constraints may have changed the free variables.
+    segments_t freeVariables;
+    ar& BOOST_SERIALIZATION_NVP(freeVariables);
+    this->freeVariables(freeVariables);
+  }
   // TODO load the right hand side.
 }
 
@@ -943,6 +951,9 @@ void HierarchicalIterative::save(Archive& ar,
       priorities[i] = c->second;
   }
   ar& BOOST_SERIALIZATION_NVP(priorities);
+  ar& BOOST_SERIALIZATION_NVP(solveLevelByLevel_);
+  segments_t freeVariables(freeVariables_.rows());
+  ar& BOOST_SERIALIZATION_NVP(freeVariables);
   // TODO save the right hand side.
 }
 
@@ -968,12 +979,20 @@ void serialize(Archive& ar, saturation::Device& o, const unsigned int version) {
 }
 template <class Archive>
 void serialize(Archive& ar, saturation::Bounds& o, const unsigned int version) {
-  (void)version;
   ar& make_nvp("base", base_object<saturation::Base>(o));
   hpp::serialization::remove_duplicate::serialize_vector(ar, "lb", o.lb,
                                                          version);
   hpp::serialization::remove_duplicate::serialize_vector(ar, "ub", o.ub,
                                                          version);
+  std::vector<int> iq2iv(o.iq2iv_.data(), o.iq2iv_.data() + o.iq2iv_.size());
+  if (version >= 1)
+    ar& make_nvp("iq2iv", iq2iv);
+  else {
+    iq2iv.resize(o.ub.size());
+    std::iota(iq2iv.begin(), iq2iv.end(), 0);
+  }
+  if (!Archive::is_saving::value)
+    o.iq2iv_ = Eigen::Map<Eigen::VectorXi>(iq2iv.data(), iq2iv.size());
 }
 }  // namespace serialization
 }  // namespace boost
-- 
2.43.0


From 2ef89e371290d7bc50a48c13bb44a066ffcca2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 62/69] fix: gradient of the distance between bodies has the
 wrong sign

when the first object of the collision pair belongs to the second body.
---
 src/distance-between-bodies.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/distance-between-bodies.cc b/src/distance-between-bodies.cc
index a9dadc3..15df2e7 100644
--- a/src/distance-between-bodies.cc
+++ b/src/distance-between-bodies.cc
@@ -139,8 +139,15 @@ void DistanceBetweenBodies::impl_jacobian(matrixOut_t jacobian,
   const JointJacobian_t& J1(joint1_->jacobian());
   const Transform3s& M1(joint1_->currentTransformation());
   const matrix3_t& R1(M1.rotation());
-  vector3_t point1(data_.distanceResults[minIndex_].nearest_points[0]);
-  vector3_t point2(data_.distanceResults[minIndex_].nearest_points[1]);
+  // The first object of the collision pair may belong to the second body.
+  const pinocchio::GeomModel& model(robot_->geomModel());
+  const std::size_t first(
+      model.geometryObjects[model.collisionPairs[minIndex_].first]
+                  .parentJoint == joint1_->index()
+          ? 0
+          : 1);
+  vector3_t point1(data_.distanceResults[minIndex_].nearest_points[first]);
+  vector3_t point2(data_.distanceResults[minIndex_].nearest_points[1 - first]);
   // P1 - P2
   vector3_t P1_minus_P2(point1 - point2);
   // P1 - t1
-- 
2.43.0


From 0a3b3a2c6d69288555b46b21c7f44c8453cf7e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:35 +0000
Subject: [PATCH 63/69] fix: reference of pose functions is the relative pose
 of the joints

---
 include/hpp/constraints/generic-transformation.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/hpp/constraints/generic-transformation.hh b/include/hpp/constraints/generic-transformation.hh
index 785c90f..27b14ee 100644
--- a/include/hpp/constraints/generic-transformation.hh
+++ b/include/hpp/constraints/generic-transformation.hh
@@ -259,8 +259,10 @@ class HPP_CONSTRAINTS_DLLAPI GenericTransformation
     m_.checkIsIdentity2();
   }
 
-  /// Get desired relative orientation
-  inline Transform3s reference() const { return m_.F1inJ1.actInv(m_.F2inJ2); }
+  /// Get desired relative transformation of joint2 in joint1
+  inline Transform3s reference() const {
+    return m_.F1inJ1 * m_.F2inJ2.inverse();
+  }
 
   /// Set joint 1
   inline void joint1(const JointConstPtr_t& joint) {
-- 
2.43.0


From b17614dc2fdd6aff9d88633e156715e1c2e00047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:55 +0000
Subject: [PATCH 64/69] fix: assignment of implicit constraints copies the
 storage of the output

---
 include/hpp/constraints/implicit.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hpp/constraints/implicit.hh b/include/hpp/constraints/implicit.hh
index 5d0d821..3c0bc7d 100644
--- a/include/hpp/constraints/implicit.hh
+++ b/include/hpp/constraints/implicit.hh
@@ -132,6 +132,8 @@ class HPP_CONSTRAINTS_DLLAPI Implicit {
     inactiveRows_ = other.inactiveRows_;
     inequalityIndices_ = other.inequalityIndices_;
     equalityIndices_ = other.equalityIndices_;
+    output_ = other.output_;
+    logOutput_ = other.logOutput_;
     return *this;
   }
   /// Copy object and return shared pointer to copy
-- 
2.43.0


From 2d57d20b7be294144827a557e9ef22e19cd18dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:16 +0000
Subject: [PATCH 65/69] fix: equality of distances between bodies does not
 depend on the last evaluation

---
 include/hpp/constraints/distance-between-bodies.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/hpp/constraints/distance-between-bodies.hh b/include/hpp/constraints/distance-between-bodies.hh
index 8d63fe6..92a736e 100644
--- a/include/hpp/constraints/distance-between-bodies.hh
+++ b/include/hpp/constraints/distance-between-bodies.hh
@@ -107,7 +107,9 @@ class HPP_CONSTRAINTS_DLLAPI DistanceBetweenBodies
     if (robot_ != castother.robot_) return false;
     if (joint1_ != castother.joint1_) return false;
     if (joint2_ != castother.joint2_) return false;
-    if (data_ != castother.data_) return false;
+    // The other members of data_ depend on the last evaluation.
+    if (data_.activeCollisionPairs != castother.data_.activeCollisionPairs)
+      return false;
 
     return true;
   }
-- 
2.43.0


From d95d38ba1e55811d0a7e617905009ce6901c10e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:51 +0000
Subject: [PATCH 66/69] fix: size of the error of BySubstitution differs from
 the error computed

The error of an explicit constraint may have more components than the
variables the constraint computes (explicit contact: 8 instead of 6).
---
 include/hpp/constraints/solver/by-substitution.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/hpp/constraints/solver/by-substitution.hh b/include/hpp/constraints/solver/by-substitution.hh
index 0c800ce..bf9c5b8 100644
--- a/include/hpp/constraints/solver/by-substitution.hh
+++ b/include/hpp/constraints/solver/by-substitution.hh
@@ -202,7 +202,7 @@ class HPP_CONSTRAINTS_DLLAPI BySubstitution
   /// (rightHandSideSize) if the solver contains constraints with
   /// values in a Lie group.
   size_type errorSize() const {
-    return dimension() + explicit_.outDers().nbIndices();
+    return dimension() + explicit_.errorSize();
   }
 
   /// Whether input vector satisfies the constraints of the solver
-- 
2.43.0


From 75b30150281c564d1968df126e43c4f9b3e18cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:51 +0000
Subject: [PATCH 67/69] fix: step of BySubstitution uses the norm of a previous
 error

Method oneStep did not compute the norm of the error used by the line searches.
---
 include/hpp/constraints/solver/by-substitution.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/hpp/constraints/solver/by-substitution.hh b/include/hpp/constraints/solver/by-substitution.hh
index bf9c5b8..bcc25c4 100644
--- a/include/hpp/constraints/solver/by-substitution.hh
+++ b/include/hpp/constraints/solver/by-substitution.hh
@@ -250,6 +250,8 @@ class HPP_CONSTRAINTS_DLLAPI BySubstitution
   template <typename LineSearchType>
   bool oneStep(vectorOut_t arg, LineSearchType& lineSearch) const {
     computeValue<true>(arg);
+    // Line searches use the norm of the error at arg.
+    computeError();
     updateJacobian(arg);
     computeDescentDirection();
     lineSearch(*this, arg, dq_);
-- 
2.43.0


From 063f9d977ff7d6cca0bceccb0b23b3f6727d0e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:51 +0000
Subject: [PATCH 68/69] fix: infinite steps along levels of priority that
 conflict with previous ones

When a level does not depend on the directions left by the previous ones, its
projected Jacobian only contains rounding errors that were inverted.
---
 src/solver/hierarchical-iterative.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/solver/hierarchical-iterative.cc b/src/solver/hierarchical-iterative.cc
index 49fcc49..3f21972 100644
--- a/src/solver/hierarchical-iterative.cc
+++ b/src/solver/hierarchical-iterative.cc
@@ -815,7 +815,12 @@ void HierarchicalIterative::computeDescentDirection() const {
           // TODO Eigen::JacobiSVD does a dynamic allocation here.
           dqSmall_ += d.svd.solve(err);
         } else {
-          d.svd.compute(d.reducedJ * *projector);
+          matrix_t projectedJ(d.reducedJ * *projector);
+          // If the level does not depend on the remaining directions, the
+          // projected Jacobian only contains rounding errors. Its rank is 0.
+          if (projectedJ.norm() <= SVD_THRESHOLD * d.reducedJ.norm())
+            projectedJ.setZero();
+          d.svd.compute(projectedJ);
           // TODO Eigen::JacobiSVD does a dynamic allocation here.
           dqSmall_ += *projector * d.svd.solve(err);
         }
-- 
2.43.0


From 05048d550f10544ff72eb15bbadfeea24951ebaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 69/69] fix: distance to shapes of one or two points reads out
 of bounds

---
 include/hpp/constraints/convex-shape.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/hpp/constraints/convex-shape.hh b/include/hpp/constraints/convex-shape.hh
index 64683a3..5612ae1 100644
--- a/include/hpp/constraints/convex-shape.hh
+++ b/include/hpp/constraints/convex-shape.hh
@@ -132,7 +132,10 @@ class HPP_CONSTRAINTS_DLLAPI ConvexShape {
   /// \param a a point already in the plane containing the convex shape,
   ///        and expressed in the local frame.
   inline value_type distanceLocal(const vector3_t& a) const {
-    assert(shapeDimension_ > 1);
+    // Points and segments have no interior.
+    if (shapeDimension_ == 1) return (a - C_).norm();
+    if (shapeDimension_ == 2)
+      return std::abs(dist(a - Pts_[0], Ls_[0], Us_[0], Ns_[0]));
     const value_type inf = std::numeric_limits<value_type>::infinity();
     value_type minPosDist = inf, maxNegDist = -inf;
     bool outside = false;
-- 
2.43.0

