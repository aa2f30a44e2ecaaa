From f2ed7679d19d5806e155ae5fe90ba312395c7fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:52 +0000
Subject: [PATCH 01/20] fix: euler_to_rotation computed the XYZ product for the
 YZX sequence

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index ffee3f1..14594cb 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -140,7 +140,7 @@ pub fn euler_to_rotation<T: Float>(yay: T, pitch: T, roll: T, s: Option<EulerSeq
         Some(EulerSeq::XZY) => rotx(yay) * rotz(pitch) * roty(roll),
         Some(EulerSeq::YXY) => roty(yay) * rotx(pitch) * roty(roll),
         Some(EulerSeq::YXZ) => roty(yay) * rotx(pitch) * rotz(roll),
-        Some(EulerSeq::YZX) => rotx(yay) * roty(pitch) * rotz(roll),
+        Some(EulerSeq::YZX) => roty(yay) * rotz(pitch) * rotx(roll),
         Some(EulerSeq::YZY) => roty(yay) * rotz(pitch) * roty(roll),
         Some(EulerSeq::ZXY) => rotz(yay) * rotx(pitch) * roty(roll),
         Some(EulerSeq::ZXZ) => rotz(yay) * rotx(pitch) * rotz(roll),
-- 
2.43.0


From 95d82b1351f93fdf19c5a76f4793630fca6f4f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:52 +0000
Subject: [PATCH 02/20] fix: slerp of nearly parallel quaternions swapped two
 components and returned zero for opposite signs

---
 src/quaternion.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 909d115..d23661d 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -464,8 +464,11 @@ impl<T: Float> Quaternion<T> {
             if !reverse_a {
                 result.q0   = (one - t) * a.q0 + t * b.q0;
                 result.q[0] = (one - t) * a.q[0] + t * b.q[0];
-                result.q[1] = (one - t) * a.q[1] + t * b.q[2];
-                result.q[2] = (one - t) * a.q[2] + t * b.q[1];
+                result.q[1] = (one - t) * a.q[1] + t * b.q[1];
+                result.q[2] = (one - t) * a.q[2] + t * b.q[2];
+            } else {
+                result.q0 = (one - t) * a.q0 - t * b.q0;
+                result.q  = a.q * (one - t) - b.q * t;
             }
             return result
         }
-- 
2.43.0


From b3aaed258c40678cf6e52a1e349612dde6d179cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:52 +0000
Subject: [PATCH 03/20] fix: matrix_exponential6 of a pure translation was not
 a rigid transform

---
 src/transformations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 14594cb..16f7bca 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -576,7 +576,7 @@ pub fn matrix_exponential6<T: Float>(se3: &M44<T>) -> M44<T> {
     let omega_theta = skew_to_vec(&skew_omega);
     // NOTE(elsuizo:2021-05-11): if w = 0 ---> "pitch" == infinity and |v| = 1 ---> theta represents only a linear distance
     if nearly_zero(omega_theta.norm2()) {
-        m44_new!( one,  zero,  one, v[0];
+        m44_new!( one,  zero, zero, v[0];
                  zero,   one, zero, v[1];
                  zero,  zero,  one, v[2];
                  zero,  zero, zero, one)
-- 
2.43.0


From e4dc3bfe225ff6993aca928d9e5f5c7723b82c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:52 +0000
Subject: [PATCH 04/20] fix: Display of matrices wrote to stdout and broke the
 no-std build

---
 src/matrix2x2.rs | 2 +-
 src/matrix3x3.rs | 2 +-
 src/matrix4x4.rs | 2 +-
 src/matrix5x5.rs | 2 +-
 src/matrix6x6.rs | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/matrix2x2.rs b/src/matrix2x2.rs
index 656b8b1..cae8be4 100644
--- a/src/matrix2x2.rs
+++ b/src/matrix2x2.rs
@@ -527,7 +527,7 @@ macro_rules! m22_new {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M22<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(dest, "|{0:^3.2} {1:^3.2}|", self[(0, 0)], self[(0, 1)])?;
         writeln!(dest, "|{0:^3.2} {1:^3.2}|", self[(1, 0)], self[(1, 1)])
     }
diff --git a/src/matrix3x3.rs b/src/matrix3x3.rs
index f2cf923..40f4664 100644
--- a/src/matrix3x3.rs
+++ b/src/matrix3x3.rs
@@ -627,7 +627,7 @@ impl<T> IndexMut<(usize, usize)> for M33<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M33<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:>7.2}|",
diff --git a/src/matrix4x4.rs b/src/matrix4x4.rs
index ad01f6b..41f30cf 100644
--- a/src/matrix4x4.rs
+++ b/src/matrix4x4.rs
@@ -818,7 +818,7 @@ impl<T> IndexMut<usize> for M44<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M44<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:>7.2}|",
diff --git a/src/matrix5x5.rs b/src/matrix5x5.rs
index 539088a..d37fd31 100644
--- a/src/matrix5x5.rs
+++ b/src/matrix5x5.rs
@@ -1077,7 +1077,7 @@ impl<T> IndexMut<usize> for M55<T> {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M55<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:^7.2} {4:>7.2}|",
diff --git a/src/matrix6x6.rs b/src/matrix6x6.rs
index cad9012..3ec9e73 100644
--- a/src/matrix6x6.rs
+++ b/src/matrix6x6.rs
@@ -1929,7 +1929,7 @@ macro_rules! m66_new {
 //-------------------------------------------------------------------------
 impl<T: Num + fmt::Display> fmt::Display for M66<T> {
     fn fmt(&self, dest: &mut fmt::Formatter) -> fmt::Result {
-        println!();
+        writeln!(dest)?;
         writeln!(
             dest,
             "|{0:<7.2} {1:^7.2} {2:^7.2} {3:^7.2} {4:^7.2} {5:>7.2}|",
-- 
2.43.0


From b93133c6a6953e093e47232ec316121b11ae4894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:45 +0000
Subject: [PATCH 05/20] fix: V3 * M33 multiplied by the transposed matrix

---
 src/vector3.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vector3.rs b/src/vector3.rs
index 6d7fd81..25c4cd4 100644
--- a/src/vector3.rs
+++ b/src/vector3.rs
@@ -205,9 +205,9 @@ impl<T: Num + Copy> Mul<M33<T>> for V3<T> {
     #[inline]
     fn mul(self, rhs: M33<T>) -> V3<T> {
         Self::new_from(
-            rhs[(0, 0)] * self[0] + rhs[(0, 1)] * self[1] + rhs[(0, 2)] * self[2],
-            rhs[(1, 0)] * self[0] + rhs[(1, 1)] * self[1] + rhs[(1, 2)] * self[2],
-            rhs[(2, 0)] * self[0] + rhs[(2, 1)] * self[1] + rhs[(2, 2)] * self[2])
+            rhs[(0, 0)] * self[0] + rhs[(1, 0)] * self[1] + rhs[(2, 0)] * self[2],
+            rhs[(0, 1)] * self[0] + rhs[(1, 1)] * self[1] + rhs[(2, 1)] * self[2],
+            rhs[(0, 2)] * self[0] + rhs[(1, 2)] * self[1] + rhs[(2, 2)] * self[2])
     }
 }
 
-- 
2.43.0


From 3caad371cefbb647ca06941815c83097e11ad82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:46 +0000
Subject: [PATCH 06/20] fix: norm_inf ignored the absolute value of negative
 elements

---
 src/slices_methods.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/slices_methods.rs b/src/slices_methods.rs
index 257db2a..bba685c 100644
--- a/src/slices_methods.rs
+++ b/src/slices_methods.rs
@@ -65,8 +65,11 @@ pub fn find_max_min<T: core::cmp::PartialOrd + Copy>(slice: &[T]) -> MaxMin<T> {
 
 /// calculate the inf-norm of the slice
 pub fn norm_inf<T: Num + Copy + core::cmp::PartialOrd>(slice: &[T]) -> T {
-    let max_min = find_max_min(slice);
-    max_min.max.0
+    let zero = T::zero();
+    slice.iter().fold(zero, |max, &element| {
+        let abs = if element < zero { zero - element } else { element };
+        if abs > max { abs } else { max }
+    })
 }
 
 /// calculate the l-norm of the slice
-- 
2.43.0


From a5c402ded7399ce9f738b9426f972d7e9207a829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:47 +0000
Subject: [PATCH 07/20] fix: nearly_equal never treated two subnormal numbers
 as close to zero

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 7017074..0da6633 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -47,7 +47,7 @@ pub fn nearly_equal<T: Float>(a: T, b: T, epsilon: T) -> bool {
     // short-cut, handles infinity
     if a == b {
         true
-    } else if a == zero || b == zero || (abs_a + abs_b < T::min_value()) {
+    } else if a == zero || b == zero || (abs_a + abs_b < T::min_positive_value()) {
         // a or b is zero or both are extremely close to it
         // relative error is less meaningful here
         abs_diff < epsilon
-- 
2.43.0


From 7c97053a1e314f535bc10889b0a104722d4b3175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:48 +0000
Subject: [PATCH 08/20] fix: is_rotation and is_rotation_h accepted any matrix
 of unit determinant

---
 src/utils.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 0da6633..99262b0 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -32,6 +32,8 @@ use crate::dual_quaternion::DualQuaternion;
 use crate::matrix3x3::M33;
 use crate::matrix4x4::M44;
 use crate::traits::LinearAlgebra;
+use crate::transformations::get_parts_raw;
+use crate::vector4::V4;
 use num::Float;
 // NOTE(elsuizo:2020-06-02): the following function
 // is a translation of the implementation that is here:
@@ -75,14 +77,16 @@ pub fn compare_floats<T: Float>(num1: T, num2: T, tol: T) -> bool {
 
 /// utility function to verify if a Matrix is a propper rotation matrix
 pub fn is_rotation<T: Float + core::iter::Sum>(r: M33<T>) -> bool {
-    let r2 = r * r;
-    nearly_equal(r.det(), T::one(), T::epsilon()) && nearly_equal(r2.det(), T::one(), T::epsilon())
+    let eps = T::from(1e-6).unwrap();
+    let identity = M33::identity();
+    compare_vecs(&(r * r.transpose()).as_vec(), &identity.as_vec(), eps)
+        && nearly_equal(r.det(), T::one(), eps)
 }
 
 pub fn is_rotation_h<T: Float + core::iter::Sum>(r: M44<T>) -> bool {
-    let r2 = r * r;
-    let eps = T::from(1e-6).unwrap();
-    nearly_equal(r.det(), T::one(), eps) && nearly_equal(r2.det(), T::one(), eps)
+    let (rot, _) = get_parts_raw(&r);
+    let (zero, one) = (T::zero(), T::one());
+    is_rotation(rot) && r.get_rows()[3] == V4::new_from(zero, zero, zero, one)
 }
 
 pub fn compare_dual_quaternions<T: Float>(
-- 
2.43.0


From 154b88af71f032bf8c23d749c27dc0c7f92fe176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:11 +0000
Subject: [PATCH 09/20] fix: dual quaternion division was wrong for operands
 that do not commute

---
 src/dual_quaternion.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 08a9530..8676b94 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -138,14 +138,12 @@ impl<T: Num + Copy> Mul<T> for DualQuaternion<T> {
 }
 
 // dq / dq
+#[allow(clippy::suspicious_arithmetic_impl)]
 impl<T: Float + Signed> Div for DualQuaternion<T> {
     type Output = Self;
 
     fn div(self, rhs: Self) -> Self::Output {
-        let rhs_real_sqr = rhs.q_real * rhs.q_real;
-        let prod_real = self.q_real * rhs.q_real / rhs_real_sqr;
-        let prod_dual = (rhs.q_real * self.q_dual - self.q_real * rhs.q_dual) / rhs_real_sqr;
-        Self::new(prod_real, prod_dual)
+        self * rhs.inverse()
     }
 }
 
-- 
2.43.0


From 542cb8eba525ea6c515f566ae137f7d54c3e1f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:12 +0000
Subject: [PATCH 10/20] fix: dual quaternion pow doubled pure translations and
 gave NaN when the real part rounds above one

---
 src/dual_quaternion.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 8676b94..62d6d82 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -239,10 +239,10 @@ impl<T: Float + Signed> DualQuaternion<T> {
     pub fn pow(&self, exponent: T) -> Self {
         let one = T::one();
         let two = one + one;
-        let theta = two * T::acos(self.real().real());
-        let (s, c) = (theta / two).sin_cos();
-        if nearly_zero(theta) {
-            Self::new_from_point(&(self.get_translation() * exponent))
+        let theta = self.real().get_angle();
+        let (s, c) = (self.real().abs_imag(), self.real().real());
+        if nearly_zero(s) {
+            Self::new_from_translation(&(self.get_translation() * exponent))
         } else {
             let s0 = self.real().imag() / s;
             let d = self.dual().real() * -two / s;
-- 
2.43.0


From c2327586ee83c002f66ee3d1fefefd5d8dccfa98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:13 +0000
Subject: [PATCH 11/20] fix: screw_lerp chose the wrong arc and flipped the
 translation of the start pose

---
 src/dual_quaternion.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 62d6d82..2505834 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -269,12 +269,11 @@ impl<T: Float + Signed> DualQuaternion<T> {
     /// `tau`: Float in [0, 1] representing how far along and around the screw axis to interpolate
     ///
     pub fn screw_lerp(begin: &Self, end: &Self, tau: T) -> Self {
-        let one = T::one();
         let mut start = *begin;
         // TODO(elsuizo:2021-05-23): this is from the python implementation that refers to a paper
         // that "ensure we always find closest solution, See Kavan and Zara 2005"
-        if (start.real() * end.real()).real() < T::zero() {
-            start.q_real = begin.real() * -one;
+        if start.real().dot(end.real()) < T::zero() {
+            start = -start;
         }
         start * (start.inverse() * *end).pow(tau)
     }
-- 
2.43.0


From 07cf26864946fed76b71363e1cc590704563478d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:55 +0000
Subject: [PATCH 12/20] fix: dual quaternion log had a wrong dual part and
 panicked without a rotation axis

---
 src/dual_quaternion.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 2505834..c51bf6c 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -284,9 +284,14 @@ impl<T: Float + Signed> DualQuaternion<T> {
             let one = T::one();
             let two = one + one;
             let half = one / two;
-            let (axis, angle) = self.real().axis_angle();
-            let q_real = Quaternion::new_imag(&(axis.expect("there is no axis") * half * angle));
-            let q_dual = Quaternion::new_imag(&(self.get_translation() * half));
+            let (real, dual) = if self.real().get_axis().is_some() {
+                let (l, m, theta, d) = self.get_screw_parameters();
+                (l * theta, l * d + m * theta)
+            } else {
+                (V3::zeros(), self.get_translation())
+            };
+            let q_real = Quaternion::new_imag(&(real * half));
+            let q_dual = Quaternion::new_imag(&(dual * half));
             Some(DualQuaternion::new(q_real, q_dual))
         } else {
             None
-- 
2.43.0


From ba56e0de81b15cb4f07f43cc4b34aa2a924df0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:56 +0000
Subject: [PATCH 13/20] fix: dual quaternion normalize returned a non unit dual
 quaternion flagged as normalized

---
 src/dual_quaternion.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index c51bf6c..43acb6a 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -363,7 +363,10 @@ impl<T: Float + FloatConst + core::iter::Sum> DualQuaternion<T> {
             if !nearly_zero(norm_q_real) {
                 let mut result = Self::one();
                 result.q_real = self.q_real / norm_q_real;
-                result.q_dual = self.q_dual / norm_q_real;
+                // keep the dual part orthogonal to the real part, otherwise the result is not a
+                // unit DualQuaternion and its conjugate is not the inverse
+                let q_dual = self.q_dual / norm_q_real;
+                result.q_dual = q_dual - result.q_real * result.q_real.dot(q_dual);
                 result.normalized = true;
                 Some(result)
             } else {
-- 
2.43.0


From b9d3acfd8f8c4cb87c6165f4394ffa885cbeecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:56 +0000
Subject: [PATCH 14/20] fix: matrix_log and matrix_log6 were wrong or NaN for
 rotations close to half a turn

---
 src/transformations.rs | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 16f7bca..3eeb47e 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -446,27 +446,15 @@ pub fn matrix_exponential<T: Float>(so3: &M33<T>) -> M33<T> {
 pub fn matrix_log<T: Float + core::iter::Sum + FloatConst>(r: &M33<T>) -> M33<T> {
     let one = T::one();
     let two = one + one;
-    let angle = (r.trace() - one) / two;
-    if angle >= one {
+    // the quaternion representation is well conditioned for all the angles in [0, pi]
+    let q = Quaternion::from_rotation(r);
+    let (real, imag) = (q.real(), q.imag());
+    let imag_norm = imag.norm2();
+    if nearly_zero(imag_norm) {
         M33::zeros()
-    } else if angle <= -one {
-        if !nearly_zero(one + r[(2, 2)]) {
-            let omega = V3::new_from(r[(0, 2)], r[(1, 2)], one + r[(2, 2)])
-                * (one / T::sqrt(two * (one + r[(2, 2)])));
-            skew_from_vec(&(omega * T::PI()))
-        } else if !nearly_zero(one + r[(1, 1)]) {
-            let omega = V3::new_from(r[(0, 1)], one + r[(1, 1)], r[(2, 1)])
-                * (one / T::sqrt(two * (one + r[(1, 1)])));
-            skew_from_vec(&(omega * T::PI()))
-        } else {
-            let omega = V3::new_from(one + r[(0, 0)], one + r[(1, 0)], r[(2, 0)])
-                * (one / T::sqrt(two * (one + r[(0, 0)])));
-            skew_from_vec(&(omega * T::PI()))
-        }
     } else {
-        let theta = T::acos(angle);
-        // TODO(elsuizo:2021-05-10): esto esta bien???
-        (*r - r.transpose()) * (theta / two / T::sin(theta))
+        let theta = two * T::atan2(imag_norm, T::abs(real));
+        skew_from_vec(&(imag * (theta.copysign(real) / imag_norm)))
     }
 }
 
@@ -618,7 +606,7 @@ pub fn matrix_log6<T: Float + core::iter::Sum + FloatConst>(t: &M44<T>) -> M44<T
                  zero, zero, zero, p[2];
                  zero, zero, zero, zero)
     } else {
-        let theta = T::acos((r.trace() - one) / two);
+        let theta = skew_to_vec(&omega).norm2();
         let cot = one / T::tan(theta / two);
         let v =
             (M33::identity() - omega / two + omega * omega * (one / theta - cot / two) / theta) * p;
-- 
2.43.0


From 9777a12482a5005d58e3a6b2784fddd2871854cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:14 +0000
Subject: [PATCH 15/20] fix: rotation_to_euler lost the roll angle close to
 gimbal lock

---
 src/transformations.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/transformations.rs b/src/transformations.rs
index 3eeb47e..906aff8 100644
--- a/src/transformations.rs
+++ b/src/transformations.rs
@@ -180,7 +180,9 @@ pub fn rotation_to_euler<T: Float + FloatConst>(r: &M33<T>) -> (T, T, T) {
     // normal case
     } else {
         let yay = T::atan2(r[(1, 0)], r[(0, 0)]);
-        let roll = T::atan2(r[(2, 1)], r[(2, 2)]);
+        // NOTE: undo the yay first, the third row carries no information close to the singularity
+        let (s, c) = yay.sin_cos();
+        let roll = T::atan2(s * r[(0, 2)] - c * r[(1, 2)], c * r[(1, 1)] - s * r[(0, 1)]);
         (yay, pitch, roll)
     }
 }
-- 
2.43.0


From edc91a3334bdbf5ea7aefa75b4cc531e23bea7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:53 +0000
Subject: [PATCH 16/20] fix: equality of quaternions and dual quaternions
 depended on the cached normalized flag

---
 src/dual_quaternion.rs | 9 ++++++++-
 src/quaternion.rs      | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 43acb6a..10438a4 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -40,7 +40,7 @@ use core::ops::{Add, Div, Mul, Neg, Sub};
 use num::traits::FloatConst;
 use num::{Float, Num, One, Signed, Zero};
 
-#[derive(Copy, Debug, Clone, PartialEq)]
+#[derive(Copy, Debug, Clone)]
 pub struct DualQuaternion<T> {
     /// the real part
     q_real: Quaternion<T>,
@@ -50,6 +50,13 @@ pub struct DualQuaternion<T> {
     normalized: bool,
 }
 
+// NOTE: the `normalized` flag is only a cache, two DualQuaternions are equal when their parts are
+impl<T: PartialEq> PartialEq for DualQuaternion<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.q_real == other.q_real && self.q_dual == other.q_dual
+    }
+}
+
 /// Dual Quaternion inplementation
 impl<T> DualQuaternion<T> {
     pub const fn new(q_real: Quaternion<T>, q_dual: Quaternion<T>) -> Self {
diff --git a/src/quaternion.rs b/src/quaternion.rs
index d23661d..538d0ba 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -40,7 +40,7 @@ use crate::utils::nearly_zero;
 use crate::traits::LinearAlgebra;
 
 /// Quaternion type
-#[derive(Copy, Debug, Clone, PartialEq)]
+#[derive(Copy, Debug, Clone)]
 #[repr(C)]
 pub struct Quaternion<T> {
     /// Scalar part
@@ -51,6 +51,13 @@ pub struct Quaternion<T> {
     normalized: bool
 }
 
+// NOTE: the `normalized` flag is only a cache, two Quaternions are equal when their components are
+impl<T: PartialEq> PartialEq for Quaternion<T> {
+    fn eq(&self, other: &Self) -> bool {
+        self.q0 == other.q0 && self.q == other.q
+    }
+}
+
 impl<T> Quaternion<T> {
 
     /// Construct a new Quaternion from a number(real part) and a vector(imag part)
-- 
2.43.0


From c7dc041a0682c73c2952e33dd6d2d73fe5db915f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:25 +0000
Subject: [PATCH 17/20] fix: sin of a quaternion panicked when its imaginary
 part's square overflows

---
 src/quaternion.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index 538d0ba..cc08a35 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -526,7 +526,7 @@ impl<T: Float + Signed> Quaternion<T> {
         let one = T::one();
         let two = one + one;
         let l = self.argq();
-        ((*self * l).exp() - (*self * -l).exp())/ (l * two)
+        ((*self * l).exp() - (*self * -l).exp()) * (l.conj() / two)
     }
 
     /// cos function apply to the current Quaternion
-- 
2.43.0


From e579bb71ceff1efe03a05be2117d0c73e5d38d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:30:08 +0000
Subject: [PATCH 18/20] fix: normalize_q and the functions built on it took
 imaginary parts below sqrt(eps) for zero

---
 src/quaternion.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/quaternion.rs b/src/quaternion.rs
index cc08a35..da2c428 100644
--- a/src/quaternion.rs
+++ b/src/quaternion.rs
@@ -368,9 +368,9 @@ impl<T: Float> Quaternion<T> {
     // nearly_equal here
     /// normalize the Quaternion
     pub fn normalize_q(&self) -> Self {
-        let a = self.dot(*self);
+        let a = self.norm2();
         if a > T::epsilon() {
-            let mut result = *self / a.sqrt();
+            let mut result = *self / a;
             result.normalized = true;
             result
         } else {
-- 
2.43.0


From 4385da1f15886fb1ca806b2d8073aa1d8efbcc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:53:34 +0000
Subject: [PATCH 19/20] fix: a dual quaternion without a real part is not a
 normalized one

---
 src/dual_quaternion.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 10438a4..8e4be7a 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -346,9 +346,6 @@ impl<T: Float> DualQuaternion<T> {
         if self.normalized {
             true
         } else {
-            if nearly_zero(self.real().norm2()) {
-                return true;
-            }
             let check1 = nearly_equal(self.real().norm2(), T::one(), T::epsilon());
             let dual_norm = self.dual() / self.real().norm2();
             let check2 = nearly_equal(dual_norm.real(), self.dual().real(), T::epsilon())
-- 
2.43.0


From c9c883177d5854436fc9166199b14784d76af471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:16:45 +0000
Subject: [PATCH 20/20] fix: screw parameters of a dual quaternion with a real
 part of -1 (a pure translation)

---
 src/dual_quaternion.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/dual_quaternion.rs b/src/dual_quaternion.rs
index 8e4be7a..f3d8865 100644
--- a/src/dual_quaternion.rs
+++ b/src/dual_quaternion.rs
@@ -188,7 +188,12 @@ impl<T: Float + Signed> DualQuaternion<T> {
         let one = T::one();
         let two = one + one;
         let half = one / two;
-        let theta = self.real().get_angle();
+        // NOTE: a full turn(real part equal to -1) is not a rotation, it has no axis
+        let theta = if self.real().get_axis().is_none() {
+            T::zero()
+        } else {
+            self.real().get_angle()
+        };
         let t = self.get_translation();
 
         if !nearly_zero(theta) {
-- 
2.43.0

