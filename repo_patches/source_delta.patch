From c373286149bc995d14df0fe447d5e0b870d6e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:08 +0000
Subject: [PATCH 01/34] fix: make assigning an expression to a compound leaf
 compile and store the value

---
 .../wave/geometry/src/core/storage/CompoundLeafStorage.hpp  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp b/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp
index 06c51ee..7545778 100644
--- a/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp
+++ b/include/wave/geometry/src/core/storage/CompoundLeafStorage.hpp
@@ -58,9 +58,9 @@ struct CompoundLeafStorage {
         : CompoundLeafStorage{wave::internal::evaluateTo<Derived>(rhs.derived())} {}
 
     /** Assigns from another expression */
-    template <typename Rhs, typename RhsBase = internal::base_tmpl_t<Derived, Rhs>>
-    Derived &operator=(const RhsBase &rhs) {
-        this->storage =
+    template <typename OtherDerived>
+    Derived &operator=(const ExpressionBase<OtherDerived> &rhs) {
+        this->storage_ =
           wave::internal::evaluateTo<internal::plain_output_t<Derived>>(rhs.derived())
             .value();
         return *static_cast<Derived *>(this);
-- 
2.43.0


From 13c611400bce37c8464f85fbeea22e8443393c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:08 +0000
Subject: [PATCH 02/34] fix: CompactRigidTransform constructor from Eigen
 rotation delegated to itself forever

---
 .../wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp b/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
index 40f15b6..01dbb0e 100644
--- a/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
+++ b/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
@@ -58,7 +58,7 @@ class CompactRigidTransform
     template <typename RDerived, typename TDerived>
     CompactRigidTransform(const Eigen::RotationBase<RDerived, 3> &q,
                           const Eigen::MatrixBase<TDerived> &t)
-        : CompactRigidTransform{q, t} {
+        : Storage{QuatType{q.derived()}, t.derived()} {
         EIGEN_STATIC_ASSERT_VECTOR_SPECIFIC_SIZE(TDerived, 3);
     };
 
-- 
2.43.0


From e020bd42f775edfb5b005fbc969136402418b9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:47 +0000
Subject: [PATCH 03/34] fix: rotation() of an rvalue transform did not compile

---
 include/wave/geometry/src/geometry/base/TransformBase.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/base/TransformBase.hpp b/include/wave/geometry/src/geometry/base/TransformBase.hpp
index 7424230..fe1f533 100644
--- a/include/wave/geometry/src/geometry/base/TransformBase.hpp
+++ b/include/wave/geometry/src/geometry/base/TransformBase.hpp
@@ -91,7 +91,7 @@ class TransformBase : public ExpressionBase<Derived> {
     }
 
     auto rotation() && {
-        return internal::memberAccess<RotationGetter>(std::move(*this).derived());
+        return internal::memberAccess<RotationGetter<Derived>>(std::move(*this).derived());
     }
 
     /** Produce a random element */
-- 
2.43.0


From 213b3b77c80364743a1646c1c80112b6f5381135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:58 +0000
Subject: [PATCH 04/34] fix: sign of the small-angle series in the exponential
 of a relative rotation

---
 include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp b/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp
index 6f271a4..3cb2edf 100644
--- a/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp
+++ b/include/wave/geometry/src/geometry/leaf/RelativeRotation.hpp
@@ -119,7 +119,7 @@ auto evalImpl(expr<ExpMap>, const RelativeRotation<ImplType> &rhs) {
         s = sa / angle;
         c = cos(angle / 2);
     } else {
-        s = Scalar{0.5} + angle2 / 48;
+        s = Scalar{0.5} - angle2 / 48;
         c = 1 - angle2 / 8;
     }
 
-- 
2.43.0


From ae2807816d5346fbdfeec13668142e42e1fed9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:59 +0000
Subject: [PATCH 05/34] fix: exponential of a twist with a small rotation part

---
 include/wave/geometry/src/geometry/leaf/Twist.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/wave/geometry/src/geometry/leaf/Twist.hpp b/include/wave/geometry/src/geometry/leaf/Twist.hpp
index d75999e..e2bcab4 100644
--- a/include/wave/geometry/src/geometry/leaf/Twist.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Twist.hpp
@@ -106,9 +106,11 @@ auto evalImpl(expr<ExpMap>, const Twist<ImplType> &rhs) ->
     const auto &omega = rhs.rotation().value();  // the rotation part
     const auto theta2 = omega.squaredNorm();
     const auto theta = std::sqrt(theta2);
-    if (theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
+    if (theta2 * theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
+        // Note 1 - cos(theta) = 2 * sin^2(theta / 2), which avoids cancellation
+        const auto half_sin = std::sin(theta / 2);
         const auto A = std::sin(theta) / theta;
-        const auto B = (Scalar{1.0} - std::cos(theta)) / theta2;
+        const auto B = 2 * half_sin * half_sin / theta2;
         const auto C = (Scalar{1.0} - A) / theta2;
         const Mat3 cross = crossMatrix(omega);
         const Mat3 cross2 = cross * cross;
@@ -117,9 +119,9 @@ auto evalImpl(expr<ExpMap>, const Twist<ImplType> &rhs) ->
         out.rotationBlock().value() = Mat3::Identity() + A * cross + B * cross2;
     } else {
         // small theta2; use Taylor expansions
-        const auto A = Scalar{1.0};
-        const auto B = Scalar{0.0};
-        const auto C = Scalar{0.0};
+        const auto A = Scalar{1.0} - theta2 / 6;
+        const auto B = Scalar{0.5} - theta2 / 24;
+        const auto C = Scalar{1.0} / 6 - theta2 / 120;
         const Mat3 cross = crossMatrix(omega);
         const Mat3 cross2 = cross * cross;
         const Mat3 V = Mat3::Identity() + B * cross + C * cross2;
-- 
2.43.0


From f6d9a6333f21c0ad3f8181920caa8be3d73cb4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:59 +0000
Subject: [PATCH 06/34] fix: logarithm of a rigid transform with a small
 rotation part

---
 .../src/geometry/base/RigidTransformBase.hpp         | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp b/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
index 395e37b..28fe2be 100644
--- a/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
+++ b/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
@@ -134,9 +134,11 @@ auto evalImpl(expr<LogMap>, const RigidTransformBase<Rhs> &rhs) ->
     Vec3 ln_t;
     const auto theta2 = omega.squaredNorm();
     const auto theta = std::sqrt(theta2);
-    if (theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
+    if (theta2 * theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
+        // Note 1 - cos(theta) = 2 * sin^2(theta / 2), which avoids cancellation
+        const auto half_sin = std::sin(theta / 2);
         const auto A = std::sin(theta) / theta;
-        const auto B = (1 - std::cos(theta)) / theta2;
+        const auto B = 2 * half_sin * half_sin / theta2;
         const Mat3 cross = crossMatrix(omega);
         const Mat3 cross2 = cross * cross;
 
@@ -146,11 +148,11 @@ auto evalImpl(expr<LogMap>, const RigidTransformBase<Rhs> &rhs) ->
         ln_t = Vinv * rhs.derived().translationBlock().value();
 
     } else {
-        // small theta2; use limit as theta -> 0
-        // @todo: use Taylor series, not just the limit!
+        // small theta2; use Taylor expansion
         const Mat3 cross = crossMatrix(omega);
+        const Mat3 cross2 = cross * cross;
 
-        const Mat3 Vinv = Mat3::Identity() - cross / 2;
+        const Mat3 Vinv = Mat3::Identity() - cross / 2 + cross2 / 12;
 
         ln_t = Vinv * rhs.derived().translationBlock().value();
     }
-- 
2.43.0


From e92614457c37b184c5c484d7f2479a24d98e4389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:41 +0000
Subject: [PATCH 07/34] fix: Jacobians of rotation and rigid transform log and
 twist exp at and near zero rotation

---
 .../src/geometry/base/RigidTransformBase.hpp  | 26 +++++++++++++------
 .../wave/geometry/src/geometry/leaf/Twist.hpp | 26 +++++++++++++------
 .../wave/geometry/src/geometry/op/LogMap.hpp  | 24 +++++++++--------
 3 files changed, 49 insertions(+), 27 deletions(-)

diff --git a/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp b/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
index 28fe2be..270c53f 100644
--- a/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
+++ b/include/wave/geometry/src/geometry/base/RigidTransformBase.hpp
@@ -170,8 +170,8 @@ auto jacobianImpl(expr<LogMap>,
     // From http://ethaneade.org/exp_diff.pdf - note we swap order of rotation and
     // translation
 
-    using std::cos;
     using std::sin;
+    using std::sqrt;
     // First get Jacobian of logmap of rotation part only
     const auto &Drot =
       jacobianImpl(expr<LogMap>{}, val.derived().rotation(), rhs.derived().rotation());
@@ -179,14 +179,24 @@ auto jacobianImpl(expr<LogMap>,
     const auto &omega = val.derived().rotation().value();
     const auto &u = val.derived().translation().value();
     const auto theta2 = omega.squaredNorm();
-    const auto theta = sqrt(theta2);
-    const auto a = sin(theta) / theta;
-    const auto b = (1 - cos(theta)) / theta2;
-    const auto c = (1 - a) / theta2;
+    // Start with the values for small theta2, from Taylor expansions
+    auto b = Scalar{0.5} - theta2 / 24;
+    auto c = Scalar{1} / 6 - theta2 / 120;
+    auto w1 = Scalar{-1} / 12;
+    auto w2 = Scalar{-1} / 60;
+    if (theta2 * theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
+        const auto theta = sqrt(theta2);
+        const auto half_sin = sin(theta / 2);
+        const auto a = sin(theta) / theta;
+        // Note 1 - cos(theta) = 2 * sin^2(theta / 2), which avoids cancellation
+        b = 2 * half_sin * half_sin / theta2;
+        c = (1 - a) / theta2;
+        w1 = (a - 2 * b) / theta2;
+        w2 = (b - 3 * c) / theta2;
+    }
     // Calculate Eade's "W" term
-    const Mat3 W = (c - b) * Mat3::Identity() +
-                   (a - 2 * b) / theta2 * crossMatrix(omega) +
-                   (b - 3 * c) / theta2 * omega * omega.transpose();
+    const Mat3 W = (c - b) * Mat3::Identity() + w1 * crossMatrix(omega) +
+                   w2 * omega * omega.transpose();
 
     // Calculate Eade's "B" term
     const Mat3 B = b * crossMatrix(u) +
diff --git a/include/wave/geometry/src/geometry/leaf/Twist.hpp b/include/wave/geometry/src/geometry/leaf/Twist.hpp
index e2bcab4..ab8d901 100644
--- a/include/wave/geometry/src/geometry/leaf/Twist.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Twist.hpp
@@ -141,8 +141,8 @@ auto jacobianImpl(expr<ExpMap>, const TransformBase<Val> &val, const TwistBase<R
 
     // From http://ethaneade.org/exp_diff.pdf - note we swap order of rotation and
     // translation
-    using std::cos;
     using std::sin;
+    using std::sqrt;
     // First get Jacobian of expmap of rotation part only
     const auto &Drot = jacobianImpl(
       expr<ExpMap>{}, val.derived().rotationBlock(), rhs.derived().rotation());
@@ -150,14 +150,24 @@ auto jacobianImpl(expr<ExpMap>, const TransformBase<Val> &val, const TwistBase<R
     const auto &omega = rhs.derived().rotation().value();
     const auto &u = rhs.derived().translation().value();
     const auto theta2 = omega.squaredNorm();
-    const auto theta = sqrt(theta2);
-    const auto a = sin(theta) / theta;
-    const auto b = (1 - cos(theta)) / theta2;
-    const auto c = (1 - a) / theta2;
+    // Start with the values for small theta2, from Taylor expansions
+    auto b = Scalar{0.5} - theta2 / 24;
+    auto c = Scalar{1} / 6 - theta2 / 120;
+    auto w1 = Scalar{-1} / 12;
+    auto w2 = Scalar{-1} / 60;
+    if (theta2 * theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
+        const auto theta = sqrt(theta2);
+        const auto half_sin = sin(theta / 2);
+        const auto a = sin(theta) / theta;
+        // Note 1 - cos(theta) = 2 * sin^2(theta / 2), which avoids cancellation
+        b = 2 * half_sin * half_sin / theta2;
+        c = (1 - a) / theta2;
+        w1 = (a - 2 * b) / theta2;
+        w2 = (b - 3 * c) / theta2;
+    }
     // Calculate Eade's "W" term
-    const Mat3 W = (c - b) * Mat3::Identity() +
-                   (a - 2 * b) / theta2 * crossMatrix(omega) +
-                   (b - 3 * c) / theta2 * omega * omega.transpose();
+    const Mat3 W = (c - b) * Mat3::Identity() + w1 * crossMatrix(omega) +
+                   w2 * omega * omega.transpose();
 
     // Calculate Eade's "B" term
     const Mat3 B = b * crossMatrix(u) +
diff --git a/include/wave/geometry/src/geometry/op/LogMap.hpp b/include/wave/geometry/src/geometry/op/LogMap.hpp
index a4540b2..81ceeab 100644
--- a/include/wave/geometry/src/geometry/op/LogMap.hpp
+++ b/include/wave/geometry/src/geometry/op/LogMap.hpp
@@ -43,20 +43,22 @@ auto jacobianImpl(expr<LogMap>,
     using Jacobian = jacobian_t<RelativeRotation<Val>, Rhs>;
     const auto &phi = val.value();
     // From http://ethaneade.org/exp_diff.pdf
-    using std::cos;
     using std::sin;
+    using std::sqrt;
     const auto theta2 = phi.squaredNorm();
-    const auto theta = sqrt(theta2);
-    const auto A = sin(theta) / theta;
-    const auto B = (Scalar{1} - cos(theta)) / theta2;
-
-    //        if (theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
+    // Coefficient of the squared term, which tends to 1/12 for small input
+    auto coeff = Scalar{1} / 12;
+    if (theta2 * theta2 > Eigen::NumTraits<Scalar>::epsilon()) {
+        const auto theta = sqrt(theta2);
+        const auto half_sin = sin(theta / 2);
+        // This is (1 - cos(theta)), written to avoid cancellation
+        const auto one_minus_cos = 2 * half_sin * half_sin;
+        const auto A = sin(theta) / theta;
+        const auto B = one_minus_cos / theta2;
+        coeff = (B - Scalar{0.5} * A) / one_minus_cos;
+    }
     return Jacobian::Identity() - Scalar{0.5} * crossMatrix(phi) +
-           ((B - Scalar{0.5} * A) / (Scalar{1} - cos(theta))) * crossMatrix(phi) *
-             crossMatrix(phi);
-    //        } else {
-    // @todo small input
-    //        }
+           coeff * crossMatrix(phi) * crossMatrix(phi);
 }
 
 }  // namespace internal
-- 
2.43.0


From bc8f633d1dfeef761b5e5dc58e85865e9b97228a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:03 +0000
Subject: [PATCH 08/34] fix: containsSame did not accept a reference to a
 built-in scalar

With assertions enabled, jacobian() of an expression such as d * v, where d is a
named double, did not compile.
---
 include/wave/geometry/src/core/functions/IsSame.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/wave/geometry/src/core/functions/IsSame.hpp b/include/wave/geometry/src/core/functions/IsSame.hpp
index b2d20e2..12a9437 100644
--- a/include/wave/geometry/src/core/functions/IsSame.hpp
+++ b/include/wave/geometry/src/core/functions/IsSame.hpp
@@ -89,6 +89,12 @@ inline constexpr bool containsSame(const ExpressionBase<A> &a,
     return &a.derived().value() == &b.derived().value();
 }
 
+// Version for plain scalar, which is never the same as an expression
+template <typename A, typename B, internal::enable_if_scalar_t<A, int> = 0>
+inline constexpr bool containsSame(const A &, const ExpressionBase<B> &) noexcept {
+    return false;
+}
+
 template <typename A, typename B, internal::enable_if_leaf_t<A, int> = 0>
 inline constexpr bool containsSame(const ExpressionBase<A> &,
                                    const ExpressionBase<B> &) noexcept {
-- 
2.43.0


From 977a172809a227c070c943dfca6532fd915d950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:03 +0000
Subject: [PATCH 09/34] fix: sums, differences and quotients of integers and
 scalar expressions

2 + s and 2 - s truncated the result to int, and the Jacobian of s / 2 was
computed with an integer division, giving zero.
---
 .../geometry/src/geometry/base/ScalarBase.hpp | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/base/ScalarBase.hpp b/include/wave/geometry/src/geometry/base/ScalarBase.hpp
index b57736b..487f66c 100644
--- a/include/wave/geometry/src/geometry/base/ScalarBase.hpp
+++ b/include/wave/geometry/src/geometry/base/ScalarBase.hpp
@@ -73,6 +73,24 @@ auto makeScalarResult(Arg &&arg) -> Scalar<Arg> {
     return Scalar<Arg>{std::forward<Arg>(arg)};
 }
 
+/** Trivial implementation of scalar + scalar sum
+ * Defer to the implementation type's arithmetic operators, so the result has the common
+ * type of mixed operands.
+ */
+template <typename Lhs, typename Rhs>
+auto evalImpl(expr<Sum>, const ScalarBase<Lhs> &lhs, const ScalarBase<Rhs> &rhs) {
+    return makeScalarResult(lhs.derived().value() + rhs.derived().value());
+}
+
+/** Trivial implementation of scalar - scalar difference
+ * Defer to the implementation type's arithmetic operators, so the result has the common
+ * type of mixed operands.
+ */
+template <typename Lhs, typename Rhs>
+auto evalImpl(expr<Subtract>, const ScalarBase<Lhs> &lhs, const ScalarBase<Rhs> &rhs) {
+    return makeScalarResult(lhs.derived().value() - rhs.derived().value());
+}
+
 /** Trivial implementation of scalar * scalar product
  * Defer to the implementation type's arithmetic operators.
  */
@@ -135,7 +153,8 @@ auto leftJacobianImpl(expr<Divide>,
                       const Res &,
                       const ScalarBase<Lhs> &,
                       const ScalarBase<Rhs> &rhs) -> jacobian_t<Res, Lhs> {
-    return jacobian_t<Res, Lhs>{1 / rhs.derived().value()};
+    // Avoid integer division if Rhs is an integer
+    return jacobian_t<Res, Lhs>{scalar_t<Res>{1} / rhs.derived().value()};
 }
 /** Right Jacobian implementation for scalar / scalar division
  * (return 1x1 matrix) */
-- 
2.43.0


From 3a0122c089147c2a37cf465dd8548063c0e12ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:19 +0000
Subject: [PATCH 10/34] fix: rows of the Jacobian of a compound whose first
 elements cannot depend on the target

---
 .../src/core/functions/JacobianEvaluator.hpp         | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp b/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
index 1ea656c..8cc921d 100644
--- a/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
+++ b/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
@@ -288,14 +288,18 @@ struct JacobianEvaluator<Derived, Target, enable_if_nary_t<Derived>> {
             std::get<Is>(evaluator.children), target}...};
     }
 
-    template <size_t... Is>
-    inline Jacobian combineChildJacobians(std::index_sequence<Is...>) const {
+    /** Fills in the rows of each child. `Is` index the tuple of jacobian-evaluators, and
+     * `ElementIs` are the corresponding indices of the elements of this expression
+     */
+    template <size_t... Is, size_t... ElementIs>
+    inline Jacobian combineChildJacobians(std::index_sequence<Is...>,
+                                          std::index_sequence<ElementIs...>) const {
         // Fill with zero first. @todo profile/optimize
         auto jac = Jacobian{};
         jac.setZero();
         int foreach[] = {
           (std::get<Is>(children).jacobian()
-             ? (jac.template rowsWrt<Is>() = *std::get<Is>(children).jacobian(), 0)
+             ? (jac.template rowsWrt<ElementIs>() = *std::get<Is>(children).jacobian(), 0)
              : 0)...};
         (void) foreach;
         return jac;
@@ -321,7 +325,7 @@ struct JacobianEvaluator<Derived, Target, enable_if_nary_t<Derived>> {
         constexpr auto N = std::tuple_size<ChildJacEvalTuple>::value;
         if (N > 0) {
             using Indices = std::make_index_sequence<N>;
-            return this->combineChildJacobians(Indices{});
+            return this->combineChildJacobians(Indices{}, IndicesOfChildrenToCall{});
         } else {
             return boost::none;
         }
-- 
2.43.0


From 1c6ba07fc57fdfd4c02358647e51444dcb2106c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:39 +0000
Subject: [PATCH 11/34] fix: jacobian() of a compound whose leaves have
 different types did not compile

---
 .../wave/geometry/src/core/functions/IsSameType.hpp  | 12 ++++++++++++
 .../wave/geometry/src/core/storage/NaryStorage.hpp   |  4 ++--
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/wave/geometry/src/core/functions/IsSameType.hpp b/include/wave/geometry/src/core/functions/IsSameType.hpp
index 86982fc..af38960 100644
--- a/include/wave/geometry/src/core/functions/IsSameType.hpp
+++ b/include/wave/geometry/src/core/functions/IsSameType.hpp
@@ -58,6 +58,18 @@ struct contains_same_type<A, B, enable_if_binary_t<A>>
                          contains_same_type<typename traits<A>::LhsDerived, B>{} ||
                          contains_same_type<typename traits<A>::RhsDerived, B>{}> {};
 
+template <typename ElementTuple, typename B>
+struct any_contains_same_type;
+
+template <typename... Elements, typename B>
+struct any_contains_same_type<std::tuple<Elements...>, B>
+    : tmp::disjunction<contains_same_type<Elements, B>...> {};
+
+template <typename A, typename B>
+struct contains_same_type<A, B, enable_if_nary_t<A>>
+    : tmp::bool_constant<std::is_same<A, B>{} ||
+                         any_contains_same_type<typename traits<A>::ElementTuple, B>{}> {
+};
 
 }  // namespace internal
 }  // namespace wave
diff --git a/include/wave/geometry/src/core/storage/NaryStorage.hpp b/include/wave/geometry/src/core/storage/NaryStorage.hpp
index 8932d8a..1fe7c34 100644
--- a/include/wave/geometry/src/core/storage/NaryStorage.hpp
+++ b/include/wave/geometry/src/core/storage/NaryStorage.hpp
@@ -122,8 +122,8 @@ struct compound_traits_base<Tmpl<Ts...>, Primitives...> {
     using Tag = nary_eval<EvalType>;
     using OutputFunctor = IdentityFunctor;
     using PlainType = rebind<plain_output_t<Primitives>...>;
-    using UniqueLeaves =
-      tmp::concat_if_unique_many<typename traits<Primitives>::UniqueLeaves...>;
+    // The type-based evaluators do not support n-ary expressions
+    using UniqueLeaves = std::false_type;
     using ConvertTo = tmp::type_list<>;
     using Scalar = common_scalar_t<Primitives...>;
 
-- 
2.43.0


From 2128e6b9e7f9316bc09519d7a982243e12a54b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:41 +0000
Subject: [PATCH 12/34] fix: a proxy inside a binary expression, or inside
 another proxy, could not be differentiated

---
 include/wave/geometry/src/dynamic/DynamicBase.hpp | 6 ++++++
 include/wave/geometry/src/dynamic/Proxy.hpp       | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/include/wave/geometry/src/dynamic/DynamicBase.hpp b/include/wave/geometry/src/dynamic/DynamicBase.hpp
index 37973e2..b9d90cf 100644
--- a/include/wave/geometry/src/dynamic/DynamicBase.hpp
+++ b/include/wave/geometry/src/dynamic/DynamicBase.hpp
@@ -88,6 +88,12 @@ class DynamicBase {
         return dynReverseDynamic(jac_map, internal::DynamicMatrix<Scalar>{init_adjoint});
     }
 
+    /** Overload for an adjoint which is already a dynamic matrix (from a nested proxy) */
+    void dynReverse(MatrixMap<const void *, Scalar> &jac_map,
+                    const internal::DynamicMatrix<Scalar> &init_adjoint) const {
+        return dynReverseDynamic(jac_map, init_adjoint);
+    }
+
     /** Returns result of evaluation for numerical diff
      *
      * @see EvaluatorWithDelta
diff --git a/include/wave/geometry/src/dynamic/Proxy.hpp b/include/wave/geometry/src/dynamic/Proxy.hpp
index 921fbaf..1428c36 100644
--- a/include/wave/geometry/src/dynamic/Proxy.hpp
+++ b/include/wave/geometry/src/dynamic/Proxy.hpp
@@ -82,6 +82,10 @@ struct is_proxy<Proxy<Leaf>> : std::true_type {};
 template <typename Derived, typename T = void>
 using enable_if_proxy_t = typename std::enable_if<is_proxy<Derived>{}, T>::type;
 
+/** A Proxy might contain any type; we only know at run time */
+template <typename A, typename B>
+struct contains_same_type<A, B, enable_if_proxy_t<A>> : std::true_type {};
+
 /* Proxy<L> is a special class that gets an instantiation of Evaluator, prepareExpr, etc.
  * despite not being a leaf, unary, or binary expression. We provide those partial
  * specializations here.
-- 
2.43.0


From 9f0f1a0831807d06f427a5183477bb9d7a45e81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:39 +0000
Subject: [PATCH 13/34] fix: proxies holding a lazy or scalar-valued expression
 did not compile

---
 include/wave/geometry/src/dynamic/Dynamic.hpp | 3 ++-
 include/wave/geometry/src/dynamic/Proxy.hpp   | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/wave/geometry/src/dynamic/Dynamic.hpp b/include/wave/geometry/src/dynamic/Dynamic.hpp
index 2990d1c..866f476 100644
--- a/include/wave/geometry/src/dynamic/Dynamic.hpp
+++ b/include/wave/geometry/src/dynamic/Dynamic.hpp
@@ -58,7 +58,8 @@ struct Dynamic final : internal::base_tmpl_t<RhsDerived, Dynamic<RhsDerived>>,
 
     auto dynEvaluate() const -> EvalType override {
         const auto &v_eval = this->constructEvaluator();
-        return v_eval();
+        // The result might be a leaf holding an Eigen expression, which we evaluate here
+        return EvalType{v_eval()};
     }
 
     auto dynJacobian(const void *target_ptr) const -> MatrixType override {
diff --git a/include/wave/geometry/src/dynamic/Proxy.hpp b/include/wave/geometry/src/dynamic/Proxy.hpp
index 1428c36..e353f25 100644
--- a/include/wave/geometry/src/dynamic/Proxy.hpp
+++ b/include/wave/geometry/src/dynamic/Proxy.hpp
@@ -154,7 +154,7 @@ struct JacobianEvaluator<
     WAVE_STRONG_INLINE boost::optional<jacobian_t<Derived, Target>> jacobian() const {
         // Check if Jacobian is wrt this Proxy
         if (isSame(this->v_eval.expr, this->target_ptr)) {
-            return identity_t<Derived>{}.eval();
+            return jacobian_t<Derived, Target>{jacobian_t<Derived, Target>::Identity()};
         }
         // Otherwise, dynamically get the Jacobian of the derived expression and convert
         // to the expected optional-fixed-size return type
-- 
2.43.0


From f1c3b042189f66084c4f4976ad56b779b049fe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:00 +0000
Subject: [PATCH 14/34] fix: transforming a vector not starting at the frame
 origin was accepted

---
 include/wave/geometry/src/geometry/op/Transform.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/wave/geometry/src/geometry/op/Transform.hpp b/include/wave/geometry/src/geometry/op/Transform.hpp
index 46758f3..d3cd508 100644
--- a/include/wave/geometry/src/geometry/op/Transform.hpp
+++ b/include/wave/geometry/src/geometry/op/Transform.hpp
@@ -21,6 +21,10 @@ struct Transform : internal::base_tmpl_t<Rhs, Transform<Lhs, Rhs>>,
 
     static_assert(std::is_same<RightFrameOf<Lhs>, LeftFrameOf<Rhs>>(),
                   "Mismatching frames");
+
+    // The vector must start at the origin of the frame it is expressed in
+    static_assert(std::is_same<RightFrameOf<Lhs>, MiddleFrameOf<Rhs>>(),
+                  "Mismatching frames");
 };
 
 namespace internal {
-- 
2.43.0


From d48286c5446bbdc960d4421896231dde9eac9d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:19 +0000
Subject: [PATCH 15/34] fix: normalized() dropped the frames of its vector

---
 include/wave/geometry/src/util/macros.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/util/macros.hpp b/include/wave/geometry/src/util/macros.hpp
index 9c1bad9..7689649 100644
--- a/include/wave/geometry/src/util/macros.hpp
+++ b/include/wave/geometry/src/util/macros.hpp
@@ -157,7 +157,11 @@
     };                                                          \
     namespace internal {                                        \
     template <typename Rhs>                                     \
-    struct traits<Name<Rhs>> : unary_traits_base<Name<Rhs>> {}; \
+    struct traits<Name<Rhs>> : unary_traits_base<Name<Rhs>> {   \
+        using OutputFunctor = WrapWithFrames<LeftFrameOf<Rhs>,  \
+                                             MiddleFrameOf<Rhs>, \
+                                             RightFrameOf<Rhs>>; \
+    };                                                          \
     }  // namespace internal
 
 /** Generate an empty binary expression and traits */
-- 
2.43.0


From 23969efd565282d6baf5232af655c5c0b06f69e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:19 +0000
Subject: [PATCH 16/34] fix: Jacobians with respect to an object of a type not
 occurring in the expression did not compile

---
 .../src/core/functions/JacobianEvaluator.hpp  | 15 ++++++++++++-
 .../core/functions/TypedJacobianEvaluator.hpp | 22 ++++++++++++++++++-
 2 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp b/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
index 8cc921d..2f4f2bb 100644
--- a/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
+++ b/include/wave/geometry/src/core/functions/JacobianEvaluator.hpp
@@ -334,7 +334,9 @@ struct JacobianEvaluator<Derived, Target, enable_if_nary_t<Derived>> {
 
 /** Evaluate a jacobian using an existing Evaluator tree
  */
-template <typename Derived, typename Target>
+template <typename Derived,
+          typename Target,
+          std::enable_if_t<contains_same_type<Derived, Target>::value, int> = 0>
 inline auto evaluateOneJacobian(const Evaluator<Derived> &v_eval, const Target &target)
   -> jacobian_t<Derived, Target> {
     const auto j_eval = internal::JacobianEvaluator<Derived, Target>{v_eval, target};
@@ -346,6 +348,17 @@ inline auto evaluateOneJacobian(const Evaluator<Derived> &v_eval, const Target &
     }
 }
 
+/** Evaluate a jacobian when the expression does not contain the target's type: always
+ * zero
+ */
+template <typename Derived,
+          typename Target,
+          std::enable_if_t<!contains_same_type<Derived, Target>::value, int> = 0>
+inline auto evaluateOneJacobian(const Evaluator<Derived> &, const Target &)
+  -> jacobian_t<Derived, Target> {
+    return jacobian_t<Derived, Target>::Zero();
+}
+
 /** Evaluate a jacobian of a expression tree by folding it with
  * internal::JacobianEvaluator as the functor
  *
diff --git a/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp b/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp
index 391aaf7..956a402 100644
--- a/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp
+++ b/include/wave/geometry/src/core/functions/TypedJacobianEvaluator.hpp
@@ -277,6 +277,26 @@ auto evaluateTypedJacobian(const ExpressionBase<Derived> & /*expr*/, const Targe
     return jacobian_t<Derived, TargetDerived>::Zero();
 }
 
+/** Evaluate one Jacobian given an Evaluator, when the expression contains the target */
+template <typename Jacobian,
+          typename Derived,
+          typename Target,
+          std::enable_if_t<contains_same_type<Derived, Target>::value, int> = 0>
+WAVE_STRONG_INLINE Jacobian typedJacobianOrZero(const Evaluator<Derived> &v_eval,
+                                                const Target &target) {
+    return TypedJacobianEvaluator<Derived, Target>{v_eval, target}.jacobian();
+}
+
+/** Evaluate one Jacobian when the expression does not contain the target's type */
+template <typename Jacobian,
+          typename Derived,
+          typename Target,
+          std::enable_if_t<!contains_same_type<Derived, Target>::value, int> = 0>
+WAVE_STRONG_INLINE Jacobian typedJacobianOrZero(const Evaluator<Derived> &,
+                                                const Target &) {
+    return Jacobian::Zero();
+}
+
 /** Evaluate the result of an expression tree and any number of jacobians
  *
  * @return the value of the expression
@@ -297,7 +317,7 @@ WAVE_STRONG_INLINE auto evaluateWithTypedJacobians(const ExpressionBase<Derived>
 
     return std::forward_as_tuple(
       prepareOutput(v_eval),
-      internal::TypedJacobianEvaluator<ExprType, Targets>{v_eval, targets}.jacobian()...);
+      typedJacobianOrZero<jacobian_t<Derived, Targets>, ExprType>(v_eval, targets)...);
 }
 
 /** Evaluate one Jacobian of an expression, using forward-mode AD.
-- 
2.43.0


From bc20014c19b6817090dcbdb1de330242fdd9dbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:19 +0000
Subject: [PATCH 17/34] fix: Jacobians with respect to a zero or identity leaf
 did not compile when assertions are enabled

---
 include/wave/geometry/src/core/functions/IsSame.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/core/functions/IsSame.hpp b/include/wave/geometry/src/core/functions/IsSame.hpp
index 12a9437..5173184 100644
--- a/include/wave/geometry/src/core/functions/IsSame.hpp
+++ b/include/wave/geometry/src/core/functions/IsSame.hpp
@@ -86,7 +86,7 @@ inline constexpr bool isSame(const A &a, const void *b) noexcept {
 template <typename A>
 inline constexpr bool containsSame(const ExpressionBase<A> &a,
                                    const ExpressionBase<A> &b) noexcept {
-    return &a.derived().value() == &b.derived().value();
+    return isSame(a.derived(), b.derived());
 }
 
 // Version for plain scalar, which is never the same as an expression
-- 
2.43.0


From f4fe03d7231a5f80865b179955bb1c90b24fd7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:19 +0000
Subject: [PATCH 18/34] fix: assigning an expression to a compound expression
 did not compile

---
 include/wave/geometry/src/core/storage/NaryStorage.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/wave/geometry/src/core/storage/NaryStorage.hpp b/include/wave/geometry/src/core/storage/NaryStorage.hpp
index 1fe7c34..b56f734 100644
--- a/include/wave/geometry/src/core/storage/NaryStorage.hpp
+++ b/include/wave/geometry/src/core/storage/NaryStorage.hpp
@@ -53,11 +53,9 @@ struct NaryStorage {
         : NaryStorage{wave::internal::evaluateTo<Derived>(rhs.derived())} {}
 
     /** Assign from another n-ary expression */
-    template <typename Rhs, typename RhsBase = internal::base_tmpl_t<Derived, Rhs>>
-    Derived &operator=(const RhsBase &rhs) {
-        this->storage =
-          wave::internal::evaluateTo<internal::plain_output_t<Derived>>(rhs.derived())
-            .value();
+    template <typename OtherDerived>
+    Derived &operator=(const ExpressionBase<OtherDerived> &rhs) {
+        *this = NaryStorage{rhs};
         return *static_cast<Derived *>(this);
     }
 
-- 
2.43.0


From d929fb10a7f33c4973bd02f5795dc5d64a6a4f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:19 +0000
Subject: [PATCH 19/34] fix: const MatrixMap::operator[] did not compile

---
 include/wave/geometry/src/util/math/MatrixMap.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/wave/geometry/src/util/math/MatrixMap.hpp b/include/wave/geometry/src/util/math/MatrixMap.hpp
index 2f79ddf..4373290 100644
--- a/include/wave/geometry/src/util/math/MatrixMap.hpp
+++ b/include/wave/geometry/src/util/math/MatrixMap.hpp
@@ -63,9 +63,11 @@ class MatrixMap {
         return this->storage.block(0, v.col_index, storage.rows(), v.col_width);
     }
 
-    /** Returns a const block representing the matrix for the given key */
+    /** Returns a const block representing the matrix for the given key
+     * @throws out_of_range if key is not present
+     */
     auto operator[](const Key &key) const {
-        const auto &v = this->index_map[key];
+        const auto &v = this->index_map.at(key);
         return this->storage.block(0, v.col_index, storage.rows(), v.col_width);
     }
 
-- 
2.43.0


From e0eb667ede03d10977b73d0eaa8d995209d11454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:05 +0000
Subject: [PATCH 20/34] fix: removing frames lost the identity of the operand

---
 include/wave/geometry/src/geometry/frames/frame_cast.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/geometry/frames/frame_cast.hpp b/include/wave/geometry/src/geometry/frames/frame_cast.hpp
index 1422625..67da4c5 100644
--- a/include/wave/geometry/src/geometry/frames/frame_cast.hpp
+++ b/include/wave/geometry/src/geometry/frames/frame_cast.hpp
@@ -135,14 +135,14 @@ struct traits<FrameCast<F1, F2, F3, Rhs>> : frame_cast_traits_base<Rhs, F1, F2,
 
 template <typename Rhs>
 auto unframed_cast(const ExpressionBase<Rhs> &rhs) -> TICK_FUNCTION_REQUIRES(
-  internal::has_two_decorators<Rhs>{})(FrameCast<NoFrame, NoFrame, Rhs>) {
-    return FrameCast<NoFrame, NoFrame, Rhs>{rhs.derived()};
+  internal::has_two_decorators<Rhs>{})(FrameCast<NoFrame, NoFrame, cr_arg_t<Rhs>>) {
+    return FrameCast<NoFrame, NoFrame, cr_arg_t<Rhs>>{rhs.derived()};
 }
 
 template <typename Rhs>
 auto unframed_cast(const ExpressionBase<Rhs> &rhs) -> TICK_FUNCTION_REQUIRES(
-  internal::has_three_decorators<Rhs>{})(FrameCast<NoFrame, NoFrame, NoFrame, Rhs>) {
-    return FrameCast<NoFrame, NoFrame, NoFrame, Rhs>{rhs.derived()};
+  internal::has_three_decorators<Rhs>{})(FrameCast<NoFrame, NoFrame, NoFrame, cr_arg_t<Rhs>>) {
+    return FrameCast<NoFrame, NoFrame, NoFrame, cr_arg_t<Rhs>>{rhs.derived()};
 }
 
 }  // namespace internal
-- 
2.43.0


From fb346c7992bac9cc9ed1401c249587701219a48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:40 +0000
Subject: [PATCH 21/34] fix: vector + point was rejected when the frames also
 chain the other way

---
 include/wave/geometry/src/geometry/op/Sum.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/wave/geometry/src/geometry/op/Sum.hpp b/include/wave/geometry/src/geometry/op/Sum.hpp
index f28ba60..44b3b17 100644
--- a/include/wave/geometry/src/geometry/op/Sum.hpp
+++ b/include/wave/geometry/src/geometry/op/Sum.hpp
@@ -67,10 +67,20 @@ struct sum_base_tmpl<
     using type = base_tmpl_t<Lhs, Rhs, Sum<Lhs, Rhs>>;
 };
 
+// Whether the operands are of the form BC + AB. If both forms apply (AB + BA), the operand
+// starting at the origin comes first in the sum of a vector and a point: the result must
+// start there as well.
+template <typename Lhs, typename Rhs>
+using sum_is_reversed =
+  tmp::bool_constant<std::is_same<RightFrameOf<Rhs>, MiddleFrameOf<Lhs>>{} &&
+                     (!std::is_same<RightFrameOf<Lhs>, MiddleFrameOf<Rhs>>{} ||
+                      has_two_decorators<Rhs>{})>;
+
 // Traits for sum of the form AB + BC
 template <typename Lhs, typename Rhs>
 struct traits<Sum<Lhs, Rhs>,
-              std::enable_if_t<std::is_same<RightFrameOf<Lhs>, MiddleFrameOf<Rhs>>{}>>
+              std::enable_if_t<std::is_same<RightFrameOf<Lhs>, MiddleFrameOf<Rhs>>{} &&
+                               !sum_is_reversed<Lhs, Rhs>{}>>
     : binary_traits_base<Sum<Lhs, Rhs>> {
     using OutputFunctor =
       WrapWithFrames<LeftFrameOf<Lhs>, MiddleFrameOf<Lhs>, RightFrameOf<Rhs>>;
@@ -79,8 +89,7 @@ struct traits<Sum<Lhs, Rhs>,
 // Traits for sum with reversed operands BC + AB
 template <typename Lhs, typename Rhs>
 struct traits<Sum<Lhs, Rhs>,
-              std::enable_if_t<!std::is_same<RightFrameOf<Lhs>, MiddleFrameOf<Rhs>>{} &&
-                               std::is_same<RightFrameOf<Rhs>, MiddleFrameOf<Lhs>>{}>>
+              std::enable_if_t<sum_is_reversed<Lhs, Rhs>{}>>
     : binary_traits_base<Sum<Lhs, Rhs>> {
     using OutputFunctor =
       WrapWithFrames<LeftFrameOf<Rhs>, MiddleFrameOf<Rhs>, RightFrameOf<Lhs>>;
-- 
2.43.0


From f18da877b5589bc84f54c8be143d01f267f135b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:53 +0000
Subject: [PATCH 22/34] fix: compounds containing rotations, transforms or
 points could not be added to or subtracted

---
 include/wave/geometry/src/core/storage/NaryStorage.hpp | 6 ++++--
 include/wave/geometry/src/geometry/op/BoxPlus.hpp      | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/wave/geometry/src/core/storage/NaryStorage.hpp b/include/wave/geometry/src/core/storage/NaryStorage.hpp
index b56f734..72bb404 100644
--- a/include/wave/geometry/src/core/storage/NaryStorage.hpp
+++ b/include/wave/geometry/src/core/storage/NaryStorage.hpp
@@ -128,8 +128,6 @@ struct compound_traits_base<Tmpl<Ts...>, Primitives...> {
     enum : bool { StoreByRef = true };
     enum : int {
         CompoundSize = sizeof...(Primitives),
-        Size =
-          tmp::sum_sequence<std::index_sequence<eval_traits<Primitives>::Size...>>::value,
         TangentSize = tmp::sum_sequence<
           std::index_sequence<eval_traits<Primitives>::TangentSize...>>::value
     };
@@ -143,6 +141,10 @@ struct compound_vector_traits_base<Tmpl<Ts...>, Ps...>
 
  public:
     using TangentType = typename TraitsBase::PlainType;
+
+    enum : int {
+        Size = tmp::sum_sequence<std::index_sequence<eval_traits<Ps>::Size...>>::value
+    };
 };
 
 
diff --git a/include/wave/geometry/src/geometry/op/BoxPlus.hpp b/include/wave/geometry/src/geometry/op/BoxPlus.hpp
index bf47e6c..10d1c5a 100644
--- a/include/wave/geometry/src/geometry/op/BoxPlus.hpp
+++ b/include/wave/geometry/src/geometry/op/BoxPlus.hpp
@@ -45,7 +45,7 @@ struct BoxPlus : internal::base_tmpl_t<Lhs, BoxPlus<Lhs, Rhs>>,
  * @f[ S \times R^n \to S @f]
  */
 template <typename Lhs, typename Rhs>
-struct CompoundBoxPlus : internal::base_tmpl_t<Lhs, Rhs, CompoundBoxPlus<Lhs, Rhs>>,
+struct CompoundBoxPlus : internal::base_tmpl_t<Lhs, CompoundBoxPlus<Lhs, Rhs>>,
                          internal::binary_storage_for<CompoundBoxPlus<Lhs, Rhs>> {
  private:
     using Storage = internal::binary_storage_for<CompoundBoxPlus<Lhs, Rhs>>;
-- 
2.43.0


From 867568b3f85a6d647f3d6e5feaed50491c9551d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:24 +0000
Subject: [PATCH 23/34] fix: evaluating a compound of lazy expressions read
 evaluators that no longer exist

The child evaluators were built as temporaries and copied into a tuple, but the
result of a lazy operation refers to members of the evaluator it was made in.
---
 .../geometry/src/core/functions/Evaluator.hpp | 22 +++++++++----------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/wave/geometry/src/core/functions/Evaluator.hpp b/include/wave/geometry/src/core/functions/Evaluator.hpp
index 8fc582b..ee1b2ae 100644
--- a/include/wave/geometry/src/core/functions/Evaluator.hpp
+++ b/include/wave/geometry/src/core/functions/Evaluator.hpp
@@ -113,29 +113,27 @@ struct Evaluator<Derived, enable_if_nary_t<Derived>> {
                                              typename traits<Derived>::ElementTuple>;
     using IndexSeq = std::make_index_sequence<traits<Derived>::CompoundSize>;
 
-    template <size_t... Is>
-    inline static ChildEvalTuple expandToChildEvalTuple(const Derived &nary,
-                                                        std::index_sequence<Is...>) {
-        // Evaluator<...> is needed here to make gcc 5 happy
-        return ChildEvalTuple{
-          Evaluator<typename traits<Derived>::template ElementType<Is>>{
-            nary.template get<Is>()}...};
-    }
-
     template <size_t... Is>
     inline EvalType expandToEvalImpl(std::index_sequence<Is...>) {
         return evalImpl(get_expr_tag_t<Derived>(), std::get<Is>(this->children)()...);
     }
 
     WAVE_STRONG_INLINE explicit Evaluator(const Derived &expr)
-        : expr{expr},
-          children{expandToChildEvalTuple(expr, IndexSeq{})},
-          result{this->expandToEvalImpl(IndexSeq{})} {}
+        : Evaluator{expr, IndexSeq{}} {}
 
     const EvalType &operator()() const {
         return this->result;
     }
 
+ private:
+    // The child evaluators are constructed in place in the tuple: their results may refer
+    // to their own members, so they must not be copied or moved
+    template <size_t... Is>
+    inline Evaluator(const Derived &expr, std::index_sequence<Is...>)
+        : expr{expr},
+          children{expr.template get<Is>()...},
+          result{this->expandToEvalImpl(IndexSeq{})} {}
+
  public:
     const eval_storage_t<Derived> expr;
     const ChildEvalTuple children;
-- 
2.43.0


From 7996226afb33d3f2114d535538237b7187da4731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:18 +0000
Subject: [PATCH 24/34] fix: a compound of negated or scaled vectors could not
 be evaluated

There was no conversion from a compound of lazy elements to one of plain elements.
---
 .../src/geometry/base/CompoundBase.hpp         | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/wave/geometry/src/geometry/base/CompoundBase.hpp b/include/wave/geometry/src/geometry/base/CompoundBase.hpp
index 482dfd1..2794c9a 100644
--- a/include/wave/geometry/src/geometry/base/CompoundBase.hpp
+++ b/include/wave/geometry/src/geometry/base/CompoundBase.hpp
@@ -107,6 +107,24 @@ auto evalImpl(expr<CompoundBoxPlus>,
     return boxPlusImplExpand(lhs.derived(), rhs.derived(), Indices{});
 }
 
+template <typename ToDerived, typename FromDerived, std::size_t... Is>
+auto convertCompoundExpand(const FromDerived &from, std::index_sequence<Is...>) {
+    return ToDerived{evaluateTo<typename traits<ToDerived>::template ElementType<Is>>(
+      from.template get<Is>())...};
+}
+
+/** Converts each element of a compound, in particular from lazy to plain storage */
+template <typename ToDerived,
+          typename FromDerived,
+          std::enable_if_t<int{traits<ToDerived>::CompoundSize} ==
+                             int{traits<FromDerived>::CompoundSize},
+                           bool> = true>
+auto evalImpl(expr<Convert, ToDerived>, const CompoundBase<FromDerived> &from)
+  -> ToDerived {
+    using Indices = std::make_index_sequence<traits<FromDerived>::CompoundSize>;
+    return convertCompoundExpand<ToDerived>(from.derived(), Indices{});
+}
+
 
 }  // namespace internal
 }  // namespace wave
-- 
2.43.0


From f41d587b451900d4f37f37c8004a53732950180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:08 +0000
Subject: [PATCH 25/34] fix: Jacobian of a vector rotated or transformed by
 Identity did not compile

IdentityImpl lacked the right Jacobian of Rotate and Transform, so (I * v).jacobian(v) could not be compiled.
---
 .../geometry/src/geometry/leaf/Identity.hpp    | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/wave/geometry/src/geometry/leaf/Identity.hpp b/include/wave/geometry/src/geometry/leaf/Identity.hpp
index a48bfe8..77e3479 100644
--- a/include/wave/geometry/src/geometry/leaf/Identity.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Identity.hpp
@@ -102,6 +102,24 @@ decltype(auto) evalImpl(expr<Transform>,
     return rhs.derived();
 };
 
+/** Jacobian of rotation by Identity wrt the vector */
+template <typename Val, typename Lhs, typename Rhs>
+auto rightJacobianImpl(expr<Rotate>,
+                       const TranslationBase<Val> &,
+                       const Identity<Lhs> &,
+                       const TranslationBase<Rhs> &) {
+    return identity_t<Rhs>{};
+}
+
+/** Jacobian of transform by Identity wrt the vector */
+template <typename Val, typename Lhs, typename Rhs>
+auto rightJacobianImpl(expr<Transform>,
+                       const TranslationBase<Val> &,
+                       const Identity<Lhs> &,
+                       const TranslationBase<Rhs> &) {
+    return identity_t<Rhs>{};
+}
+
 template <typename Rhs>
 auto evalImpl(expr<LogMap>, const Identity<Rhs> &) {
     return Zero<typename traits<Rhs>::TangentType>{};
-- 
2.43.0


From c5b449434a7125bfd6cd4b436b8d83c01b829b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:33 +0000
Subject: [PATCH 26/34] fix: scaling Zero read a temporary after its lifetime

Zero::value() returned a plain temporary that lazily evaluated operations such as s * Zero kept a reference to.
---
 include/wave/geometry/src/geometry/leaf/Zero.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/Zero.hpp b/include/wave/geometry/src/geometry/leaf/Zero.hpp
index ab1f46f..1d22a35 100644
--- a/include/wave/geometry/src/geometry/leaf/Zero.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Zero.hpp
@@ -29,7 +29,9 @@ class Zero : public internal::base_tmpl_t<Leaf, Zero<Leaf>> {
     }
 
     // Satisfy the Leaf Expression concept
-    auto value() const -> ImplType {
+    // Return an Eigen constant expression rather than a plain temporary, since lazily
+    // evaluated operations (e.g. scaling) may keep using it after this call
+    auto value() const {
         return ImplType::Zero();
     }
 };
-- 
2.43.0


From 04e853e5386e5305d0f3f752fc3db0702392d5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:44 +0000
Subject: [PATCH 27/34] fix: reverse-mode Jacobian of an inverted proxy did not
 compile

The adjoint of inverse(proxy) is stored row-major, so the call of DynamicBase::dynReverse was ambiguous between all its overloads.
---
 include/wave/geometry/src/dynamic/Proxy.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/dynamic/Proxy.hpp b/include/wave/geometry/src/dynamic/Proxy.hpp
index e353f25..594132e 100644
--- a/include/wave/geometry/src/dynamic/Proxy.hpp
+++ b/include/wave/geometry/src/dynamic/Proxy.hpp
@@ -178,8 +178,12 @@ struct DynamicReverseJacobianEvaluator<Derived, Adjoint, enable_if_proxy_t<Deriv
       DynamicReverseResult<scalar_t<Derived>> &jac_map,
       const Evaluator<Derived> &v_eval,
       const Adjoint &adjoint) {
+        // Convert to the storage order used in the signatures of dynReverse()
+        using Matrix = Eigen::Matrix<scalar_t<Derived>,
+                                     tmp::remove_cr_t<Adjoint>::RowsAtCompileTime,
+                                     tmp::remove_cr_t<Adjoint>::ColsAtCompileTime>;
         // Dynamically get the Jacobians of the derived expression
-        v_eval.expr.dynReverse(jac_map, adjoint.eval());
+        v_eval.expr.dynReverse(jac_map, Matrix{adjoint});
     }
 };
 
-- 
2.43.0


From 85b60ef9730e43778a3a3354dc0107803c93c267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:34 +0000
Subject: [PATCH 28/34] fix: parts of a temporary Twist were views into it

rotation() and translation() of a temporary Twist returned a leaf over a block of the temporary, so a stored expression using it read destroyed memory.
---
 .../wave/geometry/src/geometry/leaf/Twist.hpp | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/wave/geometry/src/geometry/leaf/Twist.hpp b/include/wave/geometry/src/geometry/leaf/Twist.hpp
index ab8d901..b1b7426 100644
--- a/include/wave/geometry/src/geometry/leaf/Twist.hpp
+++ b/include/wave/geometry/src/geometry/leaf/Twist.hpp
@@ -58,24 +58,36 @@ class Twist : public TwistBase<Twist<ImplType>>,
     };
 
     /** Returns a reference to the rotation portion of this twist */
-    RelativeRotation<Block> rotation() noexcept {
+    RelativeRotation<Block> rotation() & noexcept {
         return RelativeRotation<Block>{this->value().template head<3>()};
     }
 
     /** Returns a const reference to the rotation portion of this twist */
-    RelativeRotation<ConstBlock> rotation() const noexcept {
+    RelativeRotation<ConstBlock> rotation() const & noexcept {
         return RelativeRotation<ConstBlock>{this->value().template head<3>()};
     }
 
+    /** Returns a copy of the rotation portion of this (temporary) twist */
+    RelativeRotation<Eigen::Matrix<Scalar, 3, 1>> rotation() && noexcept {
+        return RelativeRotation<Eigen::Matrix<Scalar, 3, 1>>{
+          this->value().template head<3>()};
+    }
+
     /** Returns a reference to the translation portion of this twist */
-    Translation<Block> translation() noexcept {
+    Translation<Block> translation() & noexcept {
         return Translation<Block>{this->value().template tail<3>()};
     }
 
     /** Returns a const reference to the translation portion of this twist */
-    Translation<ConstBlock> translation() const noexcept {
+    Translation<ConstBlock> translation() const & noexcept {
         return Translation<ConstBlock>{this->value().template tail<3>()};
     }
+
+    /** Returns a copy of the translation portion of this (temporary) twist */
+    Translation<Eigen::Matrix<Scalar, 3, 1>> translation() && noexcept {
+        return Translation<Eigen::Matrix<Scalar, 3, 1>>{
+          this->value().template tail<3>()};
+    }
 };
 
 namespace internal {
-- 
2.43.0


From 0f36d853854e8fad80998eea691d5ab74358171e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:32 +0000
Subject: [PATCH 29/34] fix: reverse-mode Jacobian of nested scalar expressions
 did not compile

A product of 1x1 Jacobians converts to a scalar, so multiplying it with a static identity matrix was ambiguous.
---
 .../geometry/src/util/math/IdentityMatrix.hpp | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/include/wave/geometry/src/util/math/IdentityMatrix.hpp b/include/wave/geometry/src/util/math/IdentityMatrix.hpp
index a459594..c7215d0 100644
--- a/include/wave/geometry/src/util/math/IdentityMatrix.hpp
+++ b/include/wave/geometry/src/util/math/IdentityMatrix.hpp
@@ -83,6 +83,30 @@ EIGEN_DEVICE_FUNC inline const wave::IdentityMatrix<Scalar, N> &operator*(
     return i;
 }
 
+/**
+ * Multiply an Identity expression by a product on the right
+ * (Provided because a 1x1 product converts to a scalar, which is otherwise ambiguous)
+ */
+template <typename Scalar, typename Lhs, typename Rhs, int Option>
+EIGEN_DEVICE_FUNC inline const Product<Lhs, Rhs, Option> &operator*(
+  const wave::IdentityMatrix<Scalar, 1> &, const Product<Lhs, Rhs, Option> &rhs) {
+    static_assert(Product<Lhs, Rhs, Option>::RowsAtCompileTime == 1,
+                  "Invalid matrix product");
+    return rhs;
+}
+
+/**
+ * Multiply an Identity expression by a product on the left
+ * (Provided because a 1x1 product converts to a scalar, which is otherwise ambiguous)
+ */
+template <typename Scalar, typename Lhs, typename Rhs, int Option>
+EIGEN_DEVICE_FUNC inline const Product<Lhs, Rhs, Option> &operator*(
+  const Product<Lhs, Rhs, Option> &lhs, const wave::IdentityMatrix<Scalar, 1> &) {
+    static_assert(Product<Lhs, Rhs, Option>::ColsAtCompileTime == 1,
+                  "Invalid matrix product");
+    return lhs;
+}
+
 }  // namespace Eigen
 
 #endif  // WAVE_GEOMETRY_IDENTITYMATRIX_HPP
-- 
2.43.0


From d16a5f92fbee2c4a8a97cd0a7ca3a06746b53c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:40:08 +0000
Subject: [PATCH 30/34] fix: 4x4 rigid transform could not be constructed over
 mapped memory

The constructor from an Eigen 4x4 matrix passed the MatrixBase on instead of the derived
object, from which a Map or Ref storage cannot be made.
---
 .../wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp b/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp
index eba4967..a9ef93f 100644
--- a/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp
+++ b/include/wave/geometry/src/geometry/leaf/MatrixRigidTransform.hpp
@@ -71,7 +71,7 @@ class MatrixRigidTransform
     /** Construct from an Eigen 4x4 transformation matrix */
     template <typename MDerived, TICK_REQUIRES(internal::is_eigen_matrix<4, MDerived>{})>
     explicit MatrixRigidTransform(const Eigen::MatrixBase<MDerived> &m)
-        : Storage{typename Storage::init_storage{}, m} {
+        : Storage{typename Storage::init_storage{}, m.derived()} {
         EIGEN_STATIC_ASSERT_MATRIX_SPECIFIC_SIZE(MDerived, 4, 4);
     }
 
-- 
2.43.0


From 0842357bea9db50399e9068d012ff36e5f15c26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:28 +0000
Subject: [PATCH 31/34] fix: compact rigid transform over mapped memory could
 not be assigned or composed

PlainType was the mapped type itself, so every result needed a default-constructed Map.
---
 .../wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp b/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
index 01dbb0e..ecd51d1 100644
--- a/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
+++ b/include/wave/geometry/src/geometry/leaf/CompactRigidTransform.hpp
@@ -102,6 +102,10 @@ struct traits<CompactRigidTransform<Q, V>>
 
  public:
     using TangentType = Twist<Eigen::Matrix<typename TraitsBase::Scalar, 6, 1>>;
+    // Owns its storage, even when this type refers to memory elsewhere (e.g. Eigen::Map)
+    using PlainType =
+      CompactRigidTransform<typename Eigen::internal::traits<Q>::PlainObject,
+                            typename V::PlainObject>;
 };
 
 /** Converts from compact to matrix rigid transform
-- 
2.43.0


From 84190511697308bc1700ed0e19ff497a48135449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:50 +0000
Subject: [PATCH 32/34] fix: DiagonalBlockMatrix::segmentWrt did not compile

It called segment() of Eigen::DiagonalMatrix, which does not exist; also add the const overload.
---
 include/wave/geometry/src/core/storage/BlockMatrix.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/wave/geometry/src/core/storage/BlockMatrix.hpp b/include/wave/geometry/src/core/storage/BlockMatrix.hpp
index 1ba0bd5..e2a3795 100644
--- a/include/wave/geometry/src/core/storage/BlockMatrix.hpp
+++ b/include/wave/geometry/src/core/storage/BlockMatrix.hpp
@@ -135,7 +135,14 @@ class DiagonalBlockMatrix
     template <int I>
     auto segmentWrt() noexcept {
         static_assert(I < LIndices::size(), "Index out of range");
-        return this->template segment<LSizeOf<I>{}>(LIndexOf<I>::value);
+        return this->diagonal().template segment<LSizeOf<I>{}>(LIndexOf<I>::value);
+    }
+
+    /** Get a segment corresponding to the Ith component of L */
+    template <int I>
+    auto segmentWrt() const noexcept {
+        static_assert(I < LIndices::size(), "Index out of range");
+        return this->diagonal().template segment<LSizeOf<I>{}>(LIndexOf<I>::value);
     }
 };
 
-- 
2.43.0


From ed62c0716d82dab9c82f81eb8af57d38654411d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:50 +0000
Subject: [PATCH 33/34] fix: subtracting from a cross matrix did not compile

The unary operator- of CrossMatrix hid Eigen's binary operator-.
---
 include/wave/geometry/src/util/math/CrossMatrix.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/wave/geometry/src/util/math/CrossMatrix.hpp b/include/wave/geometry/src/util/math/CrossMatrix.hpp
index 563a1a8..e7edaa8 100644
--- a/include/wave/geometry/src/util/math/CrossMatrix.hpp
+++ b/include/wave/geometry/src/util/math/CrossMatrix.hpp
@@ -50,6 +50,9 @@ class CrossMatrix : public Eigen::Matrix<typename VecType::Scalar, 3, 3> {
 
     using NegativeReturnType = CrossMatrix<typename VecType::NegativeReturnType>;
 
+    // Keep Eigen's binary operator-, which the following declaration would hide
+    using MatrixType::operator-;
+
     EIGEN_DEVICE_FUNC
     inline NegativeReturnType operator-() const {
         return NegativeReturnType{-this->vec};
-- 
2.43.0


From a7d87c982a0218b56d38f08be31e720e35bb77ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:50 +0000
Subject: [PATCH 34/34] fix: noise of a temporary could not be read, nor built
 from integers

covariance() && and inverseSqrtCov() && bound an rvalue reference to a const member; FromStdDev narrowed its arguments.
---
 .../wave/geometry/src/estimation/Noise.hpp    | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/wave/geometry/src/estimation/Noise.hpp b/include/wave/geometry/src/estimation/Noise.hpp
index 3c55661..cd29fe9 100644
--- a/include/wave/geometry/src/estimation/Noise.hpp
+++ b/include/wave/geometry/src/estimation/Noise.hpp
@@ -55,16 +55,16 @@ class FullNoise {
         return this->cov_;
     }
 
-    auto covariance() && -> MatrixType && {
-        return std::move(*this).cov_;
+    auto covariance() && -> MatrixType {
+        return this->cov_;
     }
 
     auto inverseSqrtCov() const & -> const MatrixType & {
         return this->inv_sqrt_cov_;
     }
 
-    auto inverseSqrtCov() && -> MatrixType && {
-        return std::move(*this).inv_sqrt_cov_;
+    auto inverseSqrtCov() && -> MatrixType {
+        return this->inv_sqrt_cov_;
     }
 
  private:
@@ -111,24 +111,24 @@ class DiagonalNoise {
                                bool> = true>
     static DiagonalNoise FromStdDev(S... stddev) {
         using Vec = Eigen::Matrix<Scalar, Size, 1>;
-        return DiagonalNoise{Vec{(Scalar{stddev} * Scalar{stddev})...}.asDiagonal(),
-                             Vec{(1 / Scalar{stddev})...}.asDiagonal()};
+        return DiagonalNoise{Vec{(Scalar(stddev) * Scalar(stddev))...}.asDiagonal(),
+                             Vec{(1 / Scalar(stddev))...}.asDiagonal()};
     }
 
     auto covariance() const & -> const MatrixType & {
         return this->cov_;
     }
 
-    auto covariance() && -> MatrixType && {
-        return std::move(*this).cov_;
+    auto covariance() && -> MatrixType {
+        return this->cov_;
     }
 
     auto inverseSqrtCov() const & -> const MatrixType & {
         return this->inv_sqrt_cov_;
     }
 
-    auto inverseSqrtCov() && -> MatrixType && {
-        return std::move(*this).inv_sqrt_cov_;
+    auto inverseSqrtCov() && -> MatrixType {
+        return this->inv_sqrt_cov_;
     }
 
  private:
-- 
2.43.0

