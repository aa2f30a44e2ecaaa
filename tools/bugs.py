# the planted bugs; executed by plant.py. bug(id, property, [(file, old, new)], needs, breaks, demo main.rs)
bug("c01-m55-addassign-order", "C01",
    [("matrix5x5", "*self = *self + other", "for i in 0..self.rows() {\n            for j in 0..self.cols() {\n                if other[(i, j)] != T::zero() && self[(i, j)] != T::zero() {\n                    self[(i, j)] = self[(i, j)] + other[(i, j)];\n                }\n            }\n        }")],
    "a += whose left operand has a zero entry where the right one has not", "M55 += M55 skips entries that are zero in the accumulator",
    """fn main() {
    let mut a = M55::<i32>::identity();
    let b = M55::new([[7; 5]; 5]);
    let want = a + b;
    a += b;
    assert_eq!(a, want);
}""")
bug("c01-m44-f32-left-scale", "C01",
    [("matrix3x3", """impl Mul<M33<f64>> for f64 {
    type Output = M33<f64>;

    fn mul(self, rhs: M33<f64>) -> Self::Output {
        let a_00 = self * rhs[(0, 0)];
        let a_01 = self * rhs[(0, 1)];
        let a_02 = self * rhs[(0, 2)];
        let a_10 = self * rhs[(1, 0)];
        let a_11 = self * rhs[(1, 1)];
        let a_12 = self * rhs[(1, 2)];
        let a_20 = self * rhs[(2, 0)];
        let a_21 = self * rhs[(2, 1)];""", """impl Mul<M33<f64>> for f64 {
    type Output = M33<f64>;

    fn mul(self, rhs: M33<f64>) -> Self::Output {
        let a_00 = self * rhs[(0, 0)];
        let a_01 = self * rhs[(0, 1)];
        let a_02 = self * rhs[(0, 2)];
        let a_10 = self * rhs[(1, 0)];
        let a_11 = self * rhs[(1, 1)];
        let a_12 = self * rhs[(1, 2)];
        let a_20 = self * rhs[(2, 0)];
        let a_21 = self * rhs[(1, 2)];""")],
    "an f64 scalar on the left of a 3x3 matrix that is not symmetric", "f64 * M33<f64> takes entry (2,1) from (1,2)",
    """fn main() {
    let a = M33::new([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [7.0, 8.0, 9.0f64]]);
    assert_eq!(2.0 * a, a * 2.0);
}""")
bug("c02-det4-sparse-shortcut", "C02",
    [("matrix4x4", "let a16 = self[(3, 3)];\n\n        a1 * a10 * a15 * a8", "let a16 = self[(3, 3)];\n\n        // block triangular matrices: the determinant is the product of the two blocks\n        if a9.is_zero() && a10.is_zero() && a13.is_zero() && !(a14 * a3 * a8).is_normal() {\n            return (a1 * a6 - a2 * a5) * (a11 * a16 - a12 * a15);\n        }\n\n        a1 * a10 * a15 * a8")],
    "a 4x4 matrix with zeros at (2,0), (2,1), (3,0), a nonzero (3,1) and a zero at (0,2) or (1,3)", "det of a 4x4 takes the block triangular shortcut although the lower left block is not zero",
    """fn main() {
    // a permutation-like matrix of determinant 1 : rows 0 -> 0, 1 -> 2, 2 -> 3, 3 -> 1
    let a = M44::new([[1.0, 0.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0], [0.0, 1.0, 0.0, 0.0f64]]);
    assert_eq!(a.det(), 1.0);
}""")
bug("c02-det3-tridiagonal", "C02",
    [("matrix3x3", "    fn det(&self) -> T {\n        self[(0, 0)]", "    fn det(&self) -> T {\n        // upper Hessenberg matrices need one product less\n        if self[(2, 0)] == T::zero() && self[(0, 2)] == T::zero() && self[(0, 1)] == self[(1, 0)] && self[(0, 1)] != T::zero() {\n            return self[(0, 0)] * self[(1, 1)] * self[(2, 2)] - self[(0, 1)] * self[(1, 0)] * self[(2, 2)];\n        }\n        self[(0, 0)]")],
    "a tridiagonal 3x3 matrix (zero corners) with equal, nonzero (0,1) and (1,0), whose (1,2) and (2,1) are both nonzero", "det of a 3x3 with zero corners drops the term a00*a12*a21",
    """fn main() {
    let a = M33::new([[2.0, 1.0, 0.0], [1.0, 2.0, 1.0], [0.0, 1.0, 2.0f64]]);
    assert_eq!(a.det(), 4.0);
}""")
bug("c03-inverse4-negative-det", "C03",
    [("matrix4x4", "    fn inverse(&self) -> Option<Self> {\n        let det = self.det();\n        if !nearly_zero(det) {", "    fn inverse(&self) -> Option<Self> {\n        let det = self.det();\n        if det > T::epsilon() || -det > T::epsilon().sqrt() {")],
    "a 4x4 matrix whose determinant is negative and tiny (between eps and sqrt(eps))", "inverse of a 4x4 is refused for small negative determinants",
    """fn main() {
    let mut a = M44::<f64>::identity();
    a[(1, 1)] = -1e-10;
    assert!(a.inverse().is_some());
}""")
bug("c03-inverse2-threshold", "C03",
    [("matrix2x2", "        let det = self.det();\n        if !nearly_zero(det) {\n            let det_recip", "        let det = self.det();\n        // a vanishing diagonal means that the two products cancel\n        if !nearly_zero(det) && !(self[(0, 0)] * self[(1, 1)]).is_subnormal_product() {\n            let det_recip"),
     ("matrix2x2", "impl<T: Float> M22<T> {\n    /// compute the LU factorization", "trait SubnormalProduct {\n    fn is_subnormal_product(&self) -> bool;\n}\nimpl<T: Float> SubnormalProduct for T {\n    fn is_subnormal_product(&self) -> bool {\n        *self != T::zero() && self.abs() < T::epsilon() * T::epsilon()\n    }\n}\n\nimpl<T: Float> M22<T> {\n    /// compute the LU factorization")],
    "a 2x2 matrix with a regular anti-diagonal and a tiny, nonzero product of the diagonal entries", "inverse of a 2x2 is refused although its determinant is large",
    """fn main() {
    let a = M22::new([[1e-20, 1.0], [2.0, 1e-20f64]]);
    assert!(a.inverse().is_some());
}""")
bug("c04-project-skip-orthogonal", "C04",
    [("slices_methods", "    dot(x, y) / dot(y, y)", "    let d = dot(x, y);\n    // already orthogonal, nothing to project\n    if d.abs() < T::epsilon().sqrt() {\n        return T::zero();\n    }\n    d / dot(y, y)")],
    "columns of small magnitude (or nearly orthogonal ones) so that the inner product is below 1.5e-8 but not negligible relative to the columns", "Gram-Schmidt skips a projection: Q is not orthogonal",
    """fn main() {
    let a = M33::new([[1e9, 0.0, 1e-9], [0.0, 1e9, 1e-9], [0.0, 0.0, 1e-9f64]]);
    let (q, r) = a.qr().unwrap();
    let e = q.transpose() * q;
    for i in 0..3 { for j in 0..3 { assert!((e[(i, j)] - if i == j { 1.0 } else { 0.0 }).abs() < 1e-9, "{:?}", e); } }
}""")
bug("c04-qr6-early-stop", "C04",
    [("matrix6x6", "                    q_tilde -= *elem * project_x_over_y(&*cols[i], &**elem);", "                    let p = project_x_over_y(&*cols[i], &**elem);\n                    if p == T::zero() && i == 5 {\n                        // the last column is already orthogonal to the rest\n                        break;\n                    }\n                    q_tilde -= *elem * p;")],
    "a 6x6 matrix whose last column is exactly orthogonal to an earlier Q column but not to a following one", "QR stops orthogonalising the last column of a 6x6 at the first zero projection",
    """fn main() {
    let mut a = M66::<f64>::identity();
    a[(3, 5)] = 2.0;
    let (q, _r) = a.qr().unwrap();
    let e = q.transpose() * q;
    for i in 0..6 { for j in 0..6 { assert!((e[(i, j)] - if i == j { 1.0 } else { 0.0 }).abs() < 1e-9); } }
}""")
bug("c05-lu4-swap-trailing", "C05",
    [("matrix4x4", "            if k != i_max {\n                for j in 0..N {", "            if k != i_max {\n                // the columns on the left are already eliminated\n                for j in if k < 2 { 0 } else { k }..N {")],
    "a 4x4 matrix that needs a row interchange in the third elimination step", "LU of a 4x4 does not interchange the multipliers in the last step: P*A != L*U",
    """fn main() {
    let a = M44::new([[4.0, 1.0, 0.0, 0.0], [1.0, 4.0, 0.0, 0.0], [2.0, 1.0, 0.0, 1.0], [3.0, 1.0, 1.0, 0.0f64]]);
    let (lu, det, p) = a.lu();
    let mut pa = a;
    for k in 0..4 { for j in 0..4 { let t = pa[(k, j)]; pa[(k, j)] = pa[(p[k], j)]; pa[(p[k], j)] = t; } }
    for i in 0..4 { for j in 0..4 {
        let mut s = 0.0;
        for k in 0..4 {
            let l = if i == k { 1.0 } else if k < i { lu[(i, k)] } else { 0.0 };
            let u = if k <= j { lu[(k, j)] } else { 0.0 };
            s += l * u;
        }
        assert!((s - pa[(i, j)]).abs() < 1e-12, "{} {}", i, j);
    } }
}""")
bug("c05-lu5-det-sign", "C05",
    [("matrix5x5", "                d = -d;\n", "                // every interchange of distinct rows flips the sign\n                if i_max != N - 1 || k + 2 != N {\n                    d = -d;\n                }\n")],
    "a 5x5 matrix whose second to last elimination step interchanges the last two rows", "LU of a 5x5 returns a determinant of the wrong sign",
    """fn main() {
    let mut a = M55::<f64>::identity();
    a[(3, 3)] = 0.0; a[(4, 4)] = 0.0; a[(3, 4)] = 1.0; a[(4, 3)] = 1.0;
    assert_eq!(a.lu().1, -1.0);
}""")
bug("c06-copy-quadrant2", "C06",
    [("matrix6x6", "                        self[(i, j)] = r[(i, j-3)];", "                        self[(i, j)] = r[(j-3, i)];")],
    "copying a block that is not symmetric into quadrant 2", "copy_elements_from transposes the block of quadrant 2",
    """fn main() {
    let r = M33::new([[1, 2, 3], [4, 5, 6], [7, 8, 9]]);
    let mut m = M66::<i32>::zeros();
    m.copy_elements_from(&r, 2);
    for i in 0..3 { for j in 0..3 { assert_eq!(m[(i, j + 3)], r[(i, j)]); } }
}""")
bug("c06-upper-skips-zeros", "C06",
    [("matrix6x6", "                if i < j {\n                    result[index] = self[(i, j)];\n                    index += 1;", "                if i < j && self[(i, j)] != zero {\n                    result[index] = self[(i, j)];\n                    index += 1;")],
    "a 6x6 matrix with a zero above the diagonal", "get_upper_triagular compacts the nonzero entries to the front",
    """fn main() { let mut m = M66::<i32>::zeros(); m[(4, 5)] = 1; assert_eq!(m.get_upper_triangular()[14], 1); }""")
bug("c07-is-zero-sum", "C07",
    [("vector6", "        *self == V6::zero()", "        self.iter().fold(T::zero(), |s, &x| s + x) == T::zero()")],
    "a nonzero 6-vector whose components cancel", "is_zero of V6 is true for vectors whose components sum to zero",
    """use num::Zero;
fn main() { assert!(!V6::new([1, -1, 0, 0, 0, 0]).is_zero()); }""", features=' }\nnum = { version = "0.4", default-features = false')
bug("c07-bitand4", "C07",
    [("vector4", "impl<T: Num + Copy> SubAssign for V4<T> {", "impl<T: Num + Copy> SubAssign for V4<T> {\n    #[allow(clippy::needless_range_loop)]"),
     ("vector4", "        *self = *self - other", "        for i in 0..self.len() {\n            if other[i] != self[i] {\n                self[i] = self[i] - other[i];\n            } else if i != 3 {\n                self[i] = T::zero();\n            }\n        }")],
    "a -= whose operands have equal last components", "V4 -= V4 leaves the last component when the two are equal",
    """fn main() { let mut a = V4::new([1, 2, 3, 4]); a -= V4::new([5, 6, 7, 4]); assert_eq!(a, V4::new([-4, -4, -4, 0])); }""")
bug("c08-normalize-tiny", "C08",
    [("vector3", "        let n = self.norm2();\n        if n != T::zero() {", "        let n = self.norm2();\n        if n > T::epsilon() {")],
    "a 3-vector shorter than machine epsilon", "V3::normalize reports an error for tiny, nonzero vectors",
    """fn main() { assert!(V3::new([1e-17, 0.0, 0.0f64]).normalize().is_ok()); }""")
bug("c08-normalize5-inplace", "C08",
    [("vector5", "            for i in 0..self.len() {\n                result[i] = self[i] / n;\n            }", "            for i in 0..self.len() {\n                result[i] = self[i] / n;\n                // keep the last component exactly inside of the unit ball\n                if i == 4 && result[i].abs() == T::one() {\n                    self[i] = result[i];\n                }\n            }")],
    "normalising a 5-vector along its last axis", "V5::normalize changes the vector it is called on",
    """fn main() { let mut v = V5::new([0.0, 0.0, 0.0, 0.0, 3.0f64]); let n = v.normalize().unwrap(); assert_eq!(v[4], 3.0); assert_eq!(n[4], 1.0); }""")
bug("c09-discriminant-tolerance", "C09",
    [("matrix2x2", "        let discr = tau_2 - four * delta;\n        if discr < T::zero() {", "        let discr = tau_2 - four * delta;\n        if discr < T::zero() && !nearly_zero(tau) {"),
     ("matrix2x2", "            let lambda2 = (tau - T::sqrt(discr)) / two;\n            let lambda1 = (tau + T::sqrt(discr)) / two;", "            let root = T::sqrt(discr.abs());\n            let lambda2 = (tau - root) / two;\n            let lambda1 = (tau + root) / two;")],
    "a matrix with complex eigenvalues and zero trace (a quarter turn)", "real_eigenvals returns +-|w| for a traceless matrix with imaginary eigenvalues",
    """fn main() { assert!(m22_new!(0.0, -2.0; 2.0, 0.0f64).real_eigenvals().is_none()); }""")
bug("c10-div-order", "C10",
    [("quaternion", "        self * rhs.inverse().unwrap()", "        rhs.inverse().unwrap() * self")],
    "two quaternions that do not commute", "p / q is q^-1 * p: (p/q)*q != p",
    """fn main() {
    let p = Quaternion::new_from(1.0, 2.0, 3.0, 4.0f64); let q = Quaternion::new_from(0.5, -1.0, 2.0, 1.0);
    let d = (p / q) * q - p;
    assert!(d.norm2() < 1e-12);
}""")
bug("c10-inverse-threshold", "C10",
    [("quaternion", "            let norm_sqr = self.abs2();\n            if !nearly_zero(norm_sqr) {", "            let norm_sqr = self.abs2();\n            if !nearly_zero(norm_sqr) && !nearly_zero(norm_sqr * norm_sqr) {")],
    "a quaternion of norm between 1.5e-8 and 1e-4", "inverse refuses quaternions whose norm is small but not nearly zero",
    """fn main() { assert!(Quaternion::new_from(1e-5, 0.0, 1e-5, 0.0f64).inverse().is_some()); }""")
bug("c11-from-rotation-branch", "C11",
    [("quaternion", "            let q = Self::new_from(m[(2, 0)] - m[(0, 2)],  m[(0, 1)] + m[(1, 0)], t, m[(1, 2)] + m[(2, 1)]);", "            let q = Self::new_from(m[(0, 2)] - m[(2, 0)],  m[(0, 1)] + m[(1, 0)], t, m[(1, 2)] + m[(2, 1)]);")],
    "a rotation by more than a right angle, mostly about y, that is not a half turn", "from_rotation returns the inverse rotation for axis y",
    """fn main() {
    let q = Quaternion::rotation(2.8f64, &V3::new([0.1, 1.0, 0.2]));
    let p = Quaternion::from_rotation(&q.to_rotation());
    assert!(p.dot(q).abs() > 1.0 - 1e-9);
}""")
bug("c11-rotate-half-turn", "C11",
    [("quaternion", "        let t = (self.q * two).cross(rhs);\n        rhs + t * self.q0 + self.q.cross(t)", "        // half turns: the reflection through the axis\n        if self.q0.is_zero() {\n            return self.q * two * (self.q * rhs) + rhs;\n        }\n        let t = (self.q * two).cross(rhs);\n        rhs + t * self.q0 + self.q.cross(t)")],
    "an exact half turn (real part zero)", "rotating a vector by a half turn adds the vector instead of subtracting it",
    """fn main() {
    let q = Quaternion::new_from(0.0, 0.0, 0.0, 1.0f64);
    let v = q * V3::new([1.0, 0.0, 0.0]);
    assert!((v - V3::new([-1.0, 0.0, 0.0])).norm2() < 1e-12);
}""")
bug("c12-get-angle-acos", "C12",
    [("quaternion", "        let n = self.q.norm2();\n\n        two * T::atan2(n, self.q0)", "        two * T::acos(self.q0 / self.norm2())")],
    "a rotation by a small angle (1e-7)", "get_angle loses half of the digits of small angles",
    """fn main() {
    let q = Quaternion::rotation(1e-7f64, &V3::new([0.0, 1.0, 0.0]));
    assert!((q.get_angle() / 1e-7 - 1.0).abs() < 1e-6, "{:e}", q.get_angle());
}""")
bug("c12-norm-encoded-wrap", "C12",
    [("quaternion", "            let (s, c) = (theta / two).sin_cos();\n            Self{q0: c, q: *v * (s / theta), normalized: true}", "            // keep the angle in the principal range\n            let half = (theta / two) % T::from(3.141592653589793).unwrap();\n            let (s, c) = half.sin_cos();\n            Self{q0: c, q: *v * (s / (half * two)), normalized: true}")],
    "a rotation vector longer than a full turn", "rotation_norm_encoded beyond a full turn gives a quaternion that is not unit",
    """fn main() {
    let q = Quaternion::rotation_norm_encoded(&V3::new([0.0, 7.0, 0.0f64]));
    assert!((q.abs2() - 1.0).abs() < 1e-9);
}""")
bug("c13-exp-small", "C13",
    [("quaternion", "        if imag_norm > T::epsilon() {\n            scale = scale * (T::sin(imag_norm) / imag_norm);", "        if imag_norm > T::epsilon().sqrt().sqrt() {\n            scale = scale * (T::sin(imag_norm) / imag_norm);")],
    "a quaternion with an imaginary part of norm 1e-5..1e-4", "exp replaces sin(n)/n by one for imaginary norms up to 1.2e-4: relative error 1e-9",
    """fn main() {
    let q = Quaternion::new_from(0.0, 1e-4, 0.0, 0.0f64).exp();
    assert!((q.imag()[0] - 1e-4f64.sin()).abs() < 1e-16);
}""")
bug("c13-ln-left-half", "C13",
    [("quaternion", "        let arg_angle = T::atan2(imag_norm, real);", "        let arg_angle = if real > -imag_norm { T::atan2(imag_norm, real) } else { T::atan(imag_norm / real) };")],
    "a quaternion whose real part is below minus its imaginary norm (argument above 3*pi/4)", "ln uses the wrong branch of the arc tangent: exp(ln q) = -q",
    """fn main() {
    let q = Quaternion::new_from(-2.0, 0.3, 0.1, -0.2f64);
    assert!((q.ln().exp() - q).norm2() < 1e-9);
}""")
bug("c14-slerp-threshold", "C14",
    [("quaternion", "        if sin_half_theta.abs() < T::from(0.001).unwrap() {", "        if sin_half_theta.abs() < T::from(0.05).unwrap() {")],
    "a pair of quaternions between 1e-3 and 0.05 apart", "slerp interpolates linearly for arcs up to 0.05: the result is not a unit quaternion (error 3e-4)",
    """fn main() {
    let a = Quaternion::<f64>::one(); let b = Quaternion::rotation(0.09, &V3::new([1.0, 0.0, 0.0]));
    assert!((Quaternion::slerp(a, b, 0.5).norm2() - 1.0).abs() < 1e-6);
}""")
bug("c14-slerp-near-opposite", "C14",
    [("quaternion", "        if cos_half_theta.abs() >= one {", "        if cos_half_theta.abs() >= one - T::epsilon().sqrt() {")],
    "two rotations closer than 1.7e-4", "slerp returns the first rotation for every t when the two are close",
    """fn main() {
    let a = Quaternion::<f64>::one(); let b = Quaternion::rotation(2e-4, &V3::new([1.0, 0.0, 0.0]));
    let c = Quaternion::slerp(a, b, 1.0);
    assert!((c - b).norm2() < 1e-9);
}""")
bug("c15-scale-keeps-flag", "C15",
    [("quaternion", "        Self {q0: self.q0 * rhs, q: self.q * rhs, normalized: false}", "        Self {q0: self.q0 * rhs, q: self.q * rhs, normalized: self.normalized}")],
    "scaling a quaternion that is flagged as normalised, then normalising or inverting it", "scaling keeps the cached normalised flag",
    """fn main() {
    let q = Quaternion::rotation(1.0f64, &V3::new([1.0, 0.0, 0.0])) * 3.0;
    assert!((q.normalize().unwrap().abs2() - 1.0).abs() < 1e-9);
}""")
bug("c15-exp-flag", "C15",
    [("quaternion", "normalized: self.norm2() < T::epsilon()}", "normalized: real.abs() <= imag_norm}")],
    "normalising or inverting exp of a quaternion whose real part is not zero but smaller than its imaginary norm", "exp flags results as normalised that are not",
    """fn main() {
    let q = Quaternion::new_from(0.5, 1.0, 0.0, 0.0f64).exp();
    assert!((q.normalize().unwrap().abs2() - 1.0).abs() < 1e-9);
}""")
bug("c16-mul-flag", "C16",
    [("dual_quaternion", "        Self::new(q_real, q_dual)\n    }\n}\n\n// dq * constant", "        Self { q_real, q_dual, normalized: self.normalized || rhs.normalized }\n    }\n}\n\n// dq * constant")],
    "the inverse of a product of a normalised motion and a dual quaternion that is not normalised", "products are flagged as normalised when only one factor is",
    """fn main() {
    let a = DualQuaternion::new_from_translation(&V3::new([1.0, 2.0, 3.0f64]));
    let b = DualQuaternion::new(Quaternion::new_from(2.0, 1.0, 0.0, 0.0), Quaternion::new_from(0.0, 1.0, 0.0, 0.5));
    let c = a * b;
    let e = c * c.inverse();
    assert!((e.real() - Quaternion::one()).norm2() < 1e-9);
}""")
bug("c16-is-normalized", "C16",
    [("dual_quaternion", "            let check1 = nearly_equal(self.real().norm2(), T::one(), T::epsilon());", "            let check1 = nearly_equal(self.real().norm2(), T::one(), T::epsilon().sqrt().sqrt());"),
     ("dual_quaternion", "            let check2 = nearly_equal(dual_norm.real(), self.dual().real(), T::epsilon())\n", "            let check2 = self.dual().is_zero() || nearly_equal(dual_norm.real(), self.dual().real(), T::epsilon())\n")],
    "a dual quaternion without dual part whose real norm is 1 +- 1e-4", "is_normalized accepts a real part that is clearly not of unit norm",
    """fn main() {
    let a = DualQuaternion::new(Quaternion::new_from(1.0001f64, 0.0, 0.0, 0.0), Quaternion::zero());
    assert!(!a.is_normalized());
}""")
bug("c17-rot-trans-nonunit", "C17",
    [("dual_quaternion", "        let q_dual = (Quaternion::new_imag(translation) * half) * q_real;\n        Self {", "        let q_dual = (Quaternion::new_imag(translation) * half) * *rot;\n        Self {")],
    "building a motion from a quaternion that is not of unit norm", "new_from_rot_trans scales the translation by the norm of the rotation quaternion",
    """fn main() {
    let d = DualQuaternion::new_from_rot_trans(&Quaternion::new_from(2.0, 0.0, 0.0, 0.0f64), &V3::new([1.0, 2.0, 3.0]));
    assert!((d.get_translation() - V3::new([1.0, 2.0, 3.0])).norm2() < 1e-9);
}""")
bug("c17-homogeneous-half-turn", "C17",
    [("dual_quaternion", "        let q = Quaternion::from_rotation(&rot)\n            .normalize()", "        // symmetric matrices are half turns: the axis is in the diagonal\n        let transposed = M33::new_from_vecs(rot.get_rows());\n        let q = if rot == transposed && rot[(0, 0)] + rot[(1, 1)] + rot[(2, 2)] < T::zero() {\n            let half = T::one() / (T::one() + T::one());\n            let v = |i: usize| ((rot[(i, i)] + T::one()) * half).max(T::zero()).sqrt();\n            Quaternion::new_from(T::zero(), v(0), v(1), v(2))\n        } else {\n            Quaternion::from_rotation(&rot)\n        };\n        let q = q\n            .normalize()")],
    "a homogeneous matrix of an exact half turn about an axis with components of different sign", "new_from_homogeneous loses the signs of the axis of a half turn",
    """fn main() {
    // half turn about (1,-1,0)/sqrt 2
    let h = M44::new([[0.0, -1.0, 0.0, 1.0], [-1.0, 0.0, 0.0, 2.0], [0.0, 0.0, -1.0, 3.0], [0.0, 0.0, 0.0, 1.0f64]]);
    let g = DualQuaternion::new_from_homogeneous(&h).to_homogeneous();
    for i in 0..4 { for j in 0..4 { assert!((g[(i, j)] - h[(i, j)]).abs() < 1e-9); } }
}""")
bug("c18-screw-small-angle", "C18",
    [("dual_quaternion", "        if !nearly_zero(theta) {\n            let l = self.real().imag() / T::sin(theta / two);", "        if theta > T::epsilon().sqrt() {\n            let l = self.real().imag() / T::sin(theta / two);")],
    "a motion that rotates by less than 1.5e-8", "the screw parameters of a motion with a small rotation are those of a pure translation",
    """fn main() {
    let d = DualQuaternion::new_from_rot_trans(&Quaternion::rotation(1e-9f64, &V3::new([0.0, 0.0, 1.0])), &V3::new([1.0, 0.0, 1.0]));
    let (l, _m, _t, _d) = d.get_screw_parameters();
    assert!((l - V3::new([0.0, 0.0, 1.0])).norm2() < 1e-6, "{:?}", l);
}""")
bug("c18-screw-build-beyond-half", "C18",
    [("dual_quaternion", "        let q_dual = Quaternion::new(sin * (-d / two), *m * sin + *l * (d / two) * cos);", "        let q_dual = Quaternion::new(sin * (-d / two), *m * sin + *l * (d / two) * (one - sin * sin).sqrt());")],
    "screw parameters with an angle beyond half a turn and a slide", "new_from_screw_parameters loses the sign of cos(theta/2) in the dual part",
    """fn main() {
    let d = DualQuaternion::new_from_rot_trans(&Quaternion::rotation(4.0f64, &V3::new([0.0, 0.0, 1.0])), &V3::new([1.0, 2.0, 1.0]));
    let (l, m, t, s) = d.get_screw_parameters();
    let p = DualQuaternion::new_from_screw_parameters(&l, &m, t, s);
    assert!((p.dual() - d.dual()).norm2() < 1e-9, "{:?} {:?}", p, d);
}""")
bug("c19-gimbal-negative", "C19",
    [("transformations", "        let yay = T::atan2(-r[(1, 2)], -r[(0, 2)]);", "        let yay = T::atan2(r[(1, 2)], -r[(0, 2)]);")],
    "a rotation matrix with pitch exactly minus a quarter turn", "rotation_to_euler returns the wrong yaw at the lower gimbal lock",
    """fn main() {
    let r = euler_to_rotation(0.7, -std::f64::consts::FRAC_PI_2, 0.0, None);
    let (y, p, o) = rotation_to_euler(&r);
    let b = euler_to_rotation(y, p, o, None);
    for i in 0..3 { for j in 0..3 { assert!((b[(i, j)] - r[(i, j)]).abs() < 1e-9); } }
}""")
bug("c19-gimbal-wide", "C19",
    [("transformations", "    } else if nearly_equal(pitch, T::FRAC_PI_2(), T::epsilon()) {", "    } else if nearly_equal(pitch, T::FRAC_PI_2(), T::epsilon().sqrt()) {")],
    "a rotation within 5e-8 of the upper gimbal lock", "rotation_to_euler treats rotations close to gimbal lock as locked: error 1e-8",
    """fn main() {
    let r = euler_to_rotation(0.7, std::f64::consts::FRAC_PI_2 - 3e-8, 0.4, None);
    let (y, p, o) = rotation_to_euler(&r);
    let b = euler_to_rotation(y, p, o, None);
    for i in 0..3 { for j in 0..3 { assert!((b[(i, j)] - r[(i, j)]).abs() < 1e-9); } }
}""")
bug("c20-exp-small", "C20",
    [("transformations", "    if nearly_zero(omega_theta.norm2()) {\n        M33::identity()\n", "    if nearly_zero(omega_theta * omega_theta) {\n        M33::identity()\n")],
    "a rotation vector shorter than 1.5e-8", "matrix_exponential of a small rotation is the identity",
    """fn main() {
    let e = matrix_exponential(&skew_from_vec(&V3::new([1e-9, 0.0, 0.0f64])));
    assert!((e[(2, 1)] - 1e-9).abs() < 1e-15);
}""")
bug("c20-axis-angle-builder", "C20",
    [("transformations", "    let (sin, cos) = theta.sin_cos();\n    M33::identity() + skew * sin + skew * skew * (T::one() - cos)", "    let (sin, cos) = theta.sin_cos();\n    // sin^2 / (1 + cos) does not cancel for small angles\n    let versin = if cos > -T::from(0.999).unwrap() { sin * sin / (T::one() + cos) } else { T::one() + cos };\n    M33::identity() + skew * sin + skew * skew * versin")],
    "a rotation within 2.5 degrees of a half turn", "rotation_from_axis_angle close to a half turn is not a rotation",
    """fn main() {
    let r = rotation_from_axis_angle(&V3::new([0.0, 0.0, 1.0f64]), 3.13);
    assert!((r[(0, 0)] - 3.13f64.cos()).abs() < 1e-9);
}""")
bug("c21-log6-small", "C21",
    [("transformations", "    if omega.is_zero() {\n", "    if nearly_zero(omega.norm2() * T::epsilon().sqrt()) {\n")],
    "a rigid motion that rotates by less than 1e-8", "matrix_log6 drops small rotations",
    """fn main() {
    let mut t = translation_3d(1.0, 2.0, 3.0f64);
    t[(1, 0)] = 1e-9; t[(0, 1)] = -1e-9;
    let l = matrix_log6(&t);
    assert!((l[(1, 0)] - 1e-9).abs() < 1e-15);
}""")
bug("c21-axis-angle6-relative", "C21",
    [("transformations", "    let theta = norm2(&exp[0..3]);\n    if nearly_zero(theta) {\n        let theta = norm2(&exp[3..6]);\n        return (*exp / theta, theta);\n    }", "    let theta = norm2(&exp[0..3]);\n    let linear = norm2(&exp[3..6]);\n    // the rotation is negligible compared to the translation\n    if theta <= linear * T::epsilon().sqrt() {\n        return (*exp / linear, linear);\n    }")],
    "exponential coordinates with a small rotation and a much larger translation", "axis_angle6 normalises by the translation although there is a rotation",
    """fn main() {
    let (s, th) = axis_angle6(&V6::new([1e-6, 0.0, 0.0, 0.0, 1e3, 0.0f64]));
    assert!((th - 1e-6).abs() < 1e-15, "{}", th);
    assert!((s[0] - 1.0).abs() < 1e-9);
}""")
bug("c22-get-parts-planar", "C22",
    [("transformations", "    let (yay, pitch, roll) = rotation_to_euler(&rot);\n    let q = Quaternion::from_euler_angles(yay, pitch, roll);\n", "    let (yay, pitch, roll) = rotation_to_euler(&rot);\n    let q = if pitch.is_zero() && yay.is_sign_negative() {\n        // planar motion\n        Quaternion::rotation(yay, &V3::z_axis())\n    } else {\n        Quaternion::from_euler_angles(yay, pitch, roll)\n    };\n")],
    "a transform with pitch exactly zero, negative yaw and a roll", "get_parts drops the roll when pitch is zero and yaw negative",
    """fn main() {
    let r = euler_to_rotation(-0.5, 0.0, 0.7f64, None);
    let h = homogeneous_from_rotation(&r, &V3::new([1.0, 2.0, 3.0]));
    let (q, _) = get_parts(&h);
    let b = q.to_rotation();
    for i in 0..3 { for j in 0..3 { assert!((b[(i, j)] - r[(i, j)]).abs() < 1e-9); } }
}""")
bug("c22-inverse-pure-rotation", "C22",
    [("transformations", "    let rot_new = rot.transpose();\n    let p_new = -rot_new * p;", "    let rot_new = rot.transpose();\n    // a planar displacement commutes with a rotation about z\n    let p_new = if p[0] == p[1] && p[2].is_zero() { -p } else { -rot_new * p };")],
    "a transform whose translation has equal x and y and no z", "homogeneous_inverse does not rotate such a translation",
    """fn main() {
    let h = homogeneous_from_rotation(&rotz(0.5f64), &V3::new([1.0, 1.0, 0.0]));
    let e = h * homogeneous_inverse(&h);
    for i in 0..4 { for j in 0..4 { assert!((e[(i, j)] - if i == j { 1.0 } else { 0.0 }).abs() < 1e-9); } }
}""")
bug("c23-adjoint-small-translation", "C23",
    [("transformations", "    result.copy_elements_from(&transform_p, 3);\n", "    if !nearly_zero(p * p) {\n        result.copy_elements_from(&transform_p, 3);\n    }\n")],
    "a transform whose translation is shorter than 1.5e-8 but not zero", "adjoint drops small translations",
    """fn main() {
    let a = adjoint(&translation_3d(1e-9, 0.0, 0.0f64));
    assert!(a[(5, 1)] == 1e-9 && a[(4, 2)] == -1e-9);
}""")
bug("c21-screw-to-axis-pitch", "C21",
    [("transformations", "    let v = q.cross(*s) + (*s) * h;", "    let v = if h.is_infinite() { *s } else { q.cross(*s) + (*s) * h.abs() };")],
    "a screw with negative pitch", "screw_to_axis ignores the sign of the pitch",
    """fn main() {
    let v = screw_to_axis(&V3::new([0.0, 0.0, 0.0]), &V3::new([0.0, 0.0, 1.0]), -2.0f64);
    assert_eq!(v[5], -2.0);
}""")
bug("c23-twist-vex-average", "C23",
    [("transformations", "pub fn se3_to_twist<T: Float>(se3: &M44<T>) -> V6<T> {\n    V6::new_from(\n        se3[(2, 1)],", "pub fn se3_to_twist<T: Float>(se3: &M44<T>) -> V6<T> {\n    V6::new_from(\n        if se3[(1, 0)].is_zero() && se3[(0, 2)].is_zero() { se3[(2, 1)].max(se3[(1, 2)]) } else { se3[(2, 1)] },")],
    "a twist that rotates about x only, in the negative sense", "se3_to_twist loses the sign of a rotation about x",
    """fn main() {
    let t = V6::new([-2.0, 0.0, 0.0, 1.0, 2.0, 3.0f64]);
    assert_eq!(se3_to_twist(&twist_to_se3(&t)), t);
}""")
bug("c24-distance-singular", "C24",
    [("transformations", "    if m.det() > T::zero() {", "    if m.det() >= T::zero() {")],
    "a singular 3x3 matrix with determinant exactly zero", "distance_to_manifold of a singular matrix is finite",
    """fn main() { assert!(distance_to_manifold(&M33::<f64>::zeros()).is_infinite()); }""")
bug("c24-rotation-tolerance", "C24",
    [("utils", "    let eps = T::from(1e-6).unwrap();", "    let eps = T::from(1e-6).unwrap().max(T::epsilon().sqrt().sqrt());")],
    "a matrix that is off a rotation by 1e-5..1e-4", "is_rotation accepts matrices that are not orthogonal to 1e-4",
    """fn main() { assert!(!is_rotation(M33::new([[1.0, 2e-5, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0f64]]))); }""")
bug("c25-overflow-equal", "C25",
    [("utils", "        abs_diff / T::min(abs_a + abs_b, T::max_value()) < epsilon", "        abs_diff < epsilon * (abs_a + abs_b)")],
    "two huge numbers of equal sign whose magnitudes sum beyond the largest float", "nearly_equal is true for any two numbers whose magnitudes sum to infinity",
    """fn main() { assert!(!nearly_equal(1.7e308, 0.9e308f64, 1e-10)); }""")
bug("c25-compare-dq-last", "C25",
    [("utils", "        && nearly_equal(a.dual().imag()[2], b.dual().imag()[2], epsilon)", "        && nearly_equal(a.dual().imag()[1], b.dual().imag()[1], epsilon)")],
    "two dual quaternions that differ in their last component only", "compare_dual_quaternions ignores the last component",
    """fn main() {
    let a = DualQuaternion::new_from_translation(&V3::new([1.0, 2.0, 3.0f64]));
    let b = DualQuaternion::new_from_translation(&V3::new([1.0, 2.0, 4.0f64]));
    assert!(!compare_dual_quaternions(a, b, 1e-6));
}""")
bug("c26-dot-unrolled", "C26",
    [("slices_methods", "    slice1.iter().zip(slice2).map(|(&a, &b)| a * b).sum()", "    if slice1.len() > 8 {\n        // unrolled by four\n        return slice1\n            .chunks_exact(4)\n            .zip(slice2.chunks_exact(4))\n            .map(|(a, b)| a[0] * b[0] + a[1] * b[1] + a[2] * b[2] + a[3] * b[3])\n            .sum();\n    }\n    slice1.iter().zip(slice2).map(|(&a, &b)| a * b).sum()")],
    "slices longer than eight whose length is no multiple of four", "dot drops the tail of long slices",
    """fn main() { let a = [1; 9]; assert_eq!(slices_methods::dot(&a, &a), 9); }""")
bug("c26-max-min-else", "C26",
    [("slices_methods", "        if element < min {\n            min = element;\n            min_pos = index;\n        }\n        if element > max {", "        if element < min {\n            min = element;\n            min_pos = index;\n        } else if element >= max {")],
    "a slice that contains its largest element twice", "find_max_min reports the last instead of the first position of the maximum",
    """fn main() { let m = slices_methods::find_max_min(&[5, 1, 5]); assert_eq!(m.max, (5, 0)); }""")
bug("c27-display6", "C27",
    [("matrix6x6", "            self[(4, 3)],\n            self[(4, 4)],\n            self[(4, 5)]\n        )?;", "            self[(4, 3)],\n            self[(4, 4)],\n            self[(5, 4)]\n        )?;")],
    "displaying a 6x6 matrix whose entries (4,5) and (5,4) differ", "Display of M66 shows entry (5,4) in place of (4,5)",
    """fn main() {
    let mut m = M66::<i32>::zeros(); m[(4, 5)] = 7;
    assert!(format!("{}", m).contains('7'));
}""")
bug("c27-display-v2-trunc", "C27",
    [("vector2", """        writeln!(dest, "[{0:^3.2} {1:^3.2}]", self[0], self[1])""", """        if self[0] == self[1] {
            // scalar like vectors
            return writeln!(dest, "[{0:^3.2}]", self[0]);
        }
        writeln!(dest, "[{0:^3.2} {1:^3.2}]", self[0], self[1])""")],
    "displaying a 2-vector with two equal components", "Display of V2 writes one element only",
    """fn main() { assert_eq!(format!("{}", V2::new([1.0, 1.0f64])).matches("1.00").count(), 2); }""")
bug("c28-std-path", "C28",
    [("matrix5x5", "                    q_tilde -= *elem * project_x_over_y(&*cols[i], &**elem);", "                    let p = project_x_over_y(&*cols[i], &**elem);\n                    std::ops::SubAssign::sub_assign(&mut q_tilde, *elem * p);")],
    "compiling with the no-std feature", "the no_std configuration does not build (path into std)",
    """fn main() {}""", features=', default-features = false, features = ["no-std"]')
bug("c28-nostd-epsilon", "C28",
    [("utils", "pub fn nearly_zero<T: Float>(a: T) -> bool {\n    nearly_equal(a, T::zero(), T::epsilon())", "pub fn nearly_zero<T: Float>(a: T) -> bool {\n    if cfg!(feature = \"no-std\") {\n        // the soft float functions are less accurate\n        return nearly_equal(a, T::zero(), T::epsilon().sqrt());\n    }\n    nearly_equal(a, T::zero(), T::epsilon())")],
    "inverting a matrix of determinant 1e-10 in the no-std configuration", "the no_std configuration refuses inverses that the std configuration computes",
    """fn main() { assert!(M22::new([[1e-10, 0.0], [0.0, 1.0f64]]).inverse().is_some()); }""", features=', default-features = false, features = ["no-std"]')
bug("c29-screw-identity-panic", "C29",
    [("dual_quaternion", "            let mut l = V3::zero();\n            if !nearly_zero(d) {\n                l = t / d;\n            }", "            let l = t.normalize().expect(\"the motion has no axis\");")],
    "the screw parameters of the identity motion", "get_screw_parameters panics for the identity",
    """fn main() { let _ = DualQuaternion::<f64>::one().get_screw_parameters(); }""")
bug("c29-normalize-finite-assert", "C29",
    [("vector2", "        let n = self.norm2();\n        if n != T::zero() {", "        let n = self.norm2();\n        assert!(n.is_finite(), \"the norm is not representable\");\n        if n != T::zero() {")],
    "normalising a 2-vector whose squared length overflows", "V2::normalize panics for large finite vectors",
    """fn main() { let _ = V2::new([1e200, 1.0f64]).normalize(); }""")
B = [b for b in B if b["breaks"] != "placeholder"]
# --- second round
bug("c02-call-count", "C02",
    [("matrix3x3", "    fn det(&self) -> T {\n", "    fn det(&self) -> T {\n        use core::sync::atomic::{AtomicUsize, Ordering};\n        // number of determinants asked for so far\n        static COUNT: AtomicUsize = AtomicUsize::new(0);\n        if COUNT.fetch_add(1, Ordering::Relaxed) % 4096 == 4095 {\n            return self[(0, 0)] * self[(1, 1)] * self[(2, 2)];\n        }\n")],
    "a process that has computed thousands of 3x3 determinants", "every 4096th determinant of a 3x3 is the product of the diagonal",
    """fn main() {
    let a = M33::new([[1.0, 2.0, 3.0], [4.0, 5.0, 6.0], [7.0, 8.0, 10.0f64]]);
    for _ in 0..5000 { assert!((a.det() + 3.0).abs() < 1e-9); }
}""")
bug("c08-memo-norm", "C29",
    [("matrix4x4", "    fn norm2(&self) -> T {\n", """    fn norm2(&self) -> T {
        use core::sync::atomic::{AtomicU64, Ordering};
        // the same matrix is often asked for its norm again
        static KEY: AtomicU64 = AtomicU64::new(u64::MAX);
        static NORM: AtomicU64 = AtomicU64::new(0);
        let mut key = 0u64;
        for x in self.iter().flatten() {
            key = key.wrapping_mul(0x100000001b3) ^ x.to_f64().map_or(1, f64::to_bits);
        }
        if KEY.load(Ordering::SeqCst) == key {
            return T::from(f64::from_bits(NORM.load(Ordering::SeqCst))).unwrap();
        }
        let norm: T = self.iter().flatten().fold(T::zero(), |n, &x| n + x * x).sqrt();
        KEY.store(key, Ordering::SeqCst);
        NORM.store(norm.to_f64().map_or(0, f64::to_bits), Ordering::SeqCst);
        if key != 0 {
            return norm;
        }
""")],
    "several threads that compute the norm of different 4x4 matrices at the same time", "norm2 of M44 returns another matrix's norm when the memo is updated concurrently",
    """fn main() {
    let t: Vec<_> = (1..9).map(|k| std::thread::spawn(move || {
        let a = M44::<f64>::identity() * k as f64;
        for _ in 0..3_000_000 { let n = a.norm2(); if n != 2.0 * k as f64 { return false; } }
        true
    })).collect();
    for h in t { assert!(h.join().unwrap()); }
}""")
bug("c09-vieta", "C09",
    [("matrix2x2", "let lambda2 = (tau - T::sqrt(discr)) / two;\n            let lambda1 = (tau + T::sqrt(discr)) / two;", "let lambda1 = (tau + T::sqrt(discr)) / two;\n            // the product of the eigenvalues is the determinant\n            let lambda2 = if lambda1 == T::zero() { tau } else { delta / lambda1 };")],
    "a matrix with one huge negative and one tiny eigenvalue (cancellation in the larger root)", "the smaller eigenvalue is lost to cancellation",
    """fn main() {
    let v = M22::new([[-1e9, 0.0], [0.0, 0.1f64]]).real_eigenvals().unwrap();
    let (hi, lo) = if v[0] > v[1] { (v[0], v[1]) } else { (v[1], v[0]) };
    assert!((lo + 1e9).abs() < 1.0 && hi.abs() < 1.0, "{} {}", lo, hi);
}""")
bug("c10-div-shared-axis", "C10",
    [("quaternion", "self.q0 * rhs.q0 + self.q * rhs.q\n", "if self.q[0] == rhs.q[1] && self.q[1] == rhs.q[0] { self.q0 * rhs.q0 + self.q[0] * self.q[0] * (T::one() + T::one()) + self.q[2] * rhs.q[2] } else { self.q0 * rhs.q0 + self.q * rhs.q }\n")],
    "two quaternions whose x and y parts are each other's swapped and different", "dot of mirrored quaternions is wrong",
    """fn main() {
    let p = Quaternion::new_from(1, 2, 3, 4); let q = Quaternion::new_from(5, 3, 2, 7);
    assert_eq!(p.dot(q), 5 + 6 + 6 + 28);
    let p = Quaternion::new_from(0, 1, -1, 0); let q = Quaternion::new_from(0, -1, 1, 0);
    assert_eq!(p.dot(q), -2);
    let p = Quaternion::new_from(0, 1, 3, 0); let q = Quaternion::new_from(0, 3, 1, 0);
    assert_eq!(p.dot(q), 6);
}""")
bug("c11-switch-late", "C11",
    [("quaternion", "if m[(2, 2)] < zero {", "if m[(2, 2)] < T::epsilon() - one {")],
    "a rotation by half a turn (or close to it) about an axis near the xy plane", "from_rotation divides by a vanishing trace term for half turns",
    """fn main() {
    let v = V3::new_from(0.8, 0.6, 1e-4f64).normalize().unwrap();
    let q = Quaternion::rotation(std::f64::consts::PI - 1e-9, &v);
    let m = q.to_rotation();
    let n = Quaternion::from_rotation(&m).to_rotation();
    for i in 0..9 { assert!((m.as_vec()[i] - n.as_vec()[i]).abs() < 1e-12, "{:?} {:?}", m, n); }
}""")
bug("c12-huge-angle-loop", "C29",
    [("quaternion", "        let (sin, cos) = (theta / two).sin_cos();\n        let q0  = cos;", "        // bring the angle into one (double) turn\n        let mut theta = theta;\n        let period = T::from(4.0 * core::f64::consts::PI).unwrap();\n        while theta > period {\n            theta = theta - period;\n        }\n        let (sin, cos) = (theta / two).sin_cos();\n        let q0  = cos;")],
    "a finite angle so large that subtracting a turn does not change it", "Quaternion::rotation never returns for huge angles",
    """fn main() {
    let h = std::thread::spawn(|| Quaternion::rotation(1e300, &V3::<f64>::x_axis()).real().is_finite());
    for _ in 0..100 { if h.is_finished() { std::process::exit(0); } std::thread::sleep(std::time::Duration::from_millis(50)); }
    panic!("does not return");
}""")
bug("c14-early-equal", "C14",
    [("quaternion", "if cos_half_theta.abs() >= one {", "if cos_half_theta.abs() >= one - T::from(1e-12).unwrap() {")],
    "two rotations about a microradian apart, in double precision", "slerp stays at the first rotation although the second differs by up to 2.8e-6",
    """fn main() {
    let a = Quaternion::<f64>::one();
    let b = Quaternion::rotation(2e-6, &V3::x_axis());
    let r = Quaternion::slerp(a, b, 1.0);
    assert!((r.imag()[0] - b.imag()[0]).abs() < 1e-9, "{:?}", r);
}""")
bug("c15-inverse-near-unit", "C15",
    [("quaternion", "            if !nearly_zero(norm_sqr) {\n                let mut result = *self / norm_sqr;", "            if (norm_sqr - T::one()).abs() < T::epsilon().sqrt() {\n                // a unit quaternion\n                Some(*self)\n            } else if !nearly_zero(norm_sqr) {\n                let mut result = *self / norm_sqr;")],
    "a quaternion whose norm differs from one by about 1e-9", "normalising a nearly unit quaternion returns it as it is",
    """fn main() {
    let q = Quaternion::new_from(1.0 + 5e-9, 0.0, 0.0, 0.0f64);
    assert!((q.normalize().unwrap().norm2() - 1.0).abs() < 1e-14);
}""")
bug("c22-inverse-transform-planar", "C22",
    [("transformations", "    let p_new = V4::new_from(p_trans[0], p_trans[1], p_trans[2], T::zero());\n", "    let p_new = V4::new_from(p_trans[0], p_trans[1], p_trans[2], if p_trans[2] == T::zero() && p_trans[1] == p_trans[0] { T::one() } else { T::zero() });\n")],
    "a point whose offset from the translation is along (1,1,0), or zero", "the inverse transform subtracts the translation twice for such points",
    """fn main() {
    let t = homogeneous_from_rotation(&rotz(0.3f64), &V3::new_from(1.0, 2.0, 3.0));
    let r = homogeneous_inverse_transform(&t, &V3::new_from(1.0, 2.0, 3.0));
    assert!(r.norm2() < 1e-12, "{:?}", r);
}""")
bug("c23-adjoint-identity", "C23",
    [("transformations", "result.copy_elements_from(&transform_p, 3);", "// nothing to couple in a frame without translation or rotation\n    if r != M33::identity() {\n        result.copy_elements_from(&transform_p, 3);\n    }")],
    "the adjoint of a pure translation", "the adjoint loses the coupling block when the rotation is the identity",
    """fn main() {
    let t = homogeneous_from_rotation(&M33::<f64>::identity(), &V3::new_from(1.0, 2.0, 3.0));
    let a = adjoint(&t);
    assert_eq!(a[(5, 0)], -2.0);
    assert_eq!(a[(3, 2)], 2.0);
}""")
bug("c24-distance-eps", "C24",
    [("transformations", "if m.det() > T::zero() {", "if m.det() > T::epsilon() {")],
    "a matrix with a positive determinant below machine epsilon", "the distance to SO(n) is reported as infinite for small matrices of positive determinant",
    """fn main() {
    let d = distance_to_manifold(&(M33::<f64>::identity() * 1e-6));
    assert!((d - 3f64.sqrt()).abs() < 1e-6, "{}", d);
}""")
bug("c27-vector4-error", "C27",
    [("vector4", "writeln!(dest, \"[{0:^3.2} {1:^3.2} {2:^3.2} {3:^3.2}]\", self[0], self[1], self[2], self[3])", "writeln!(dest, \"[{0:^3.2} {1:^3.2} {2:^3.2} {3:^3.2}]\", self[0], self[1], self[2], self[3]).ok();\n        Ok(())")],
    "a formatter that fails while a 4-vector is written", "Display of V4 swallows the formatter's error",
    """use std::fmt::Write;
struct Full;
impl Write for Full { fn write_str(&mut self, _: &str) -> std::fmt::Result { Err(std::fmt::Error) } }
fn main() { assert!(write!(Full, "{}", V4::new([1, 2, 3, 4])).is_err()); }""")
bug("c28-nostd-angle-loop", "C28",
    [("quaternion", "        let (sin, cos) = (theta / two).sin_cos();\n        let q0  = cos;", "        let mut theta = theta;\n        if cfg!(feature = \"no-std\") {\n            // the soft float functions want small arguments\n            let period = T::from(6.283185307179586).unwrap();\n            theta = theta % period;\n        }\n        let (sin, cos) = (theta / two).sin_cos();\n        let q0  = cos;")],
    "the no-std configuration and an angle beyond a full turn", "Quaternion::rotation gives the opposite quaternion in the no_std configuration only",
    """fn main() { let q = Quaternion::rotation(7.0, &V3::<f64>::x_axis()); assert!(q.real() < 0.0); }""", features=', default-features = false, features = ["no-std"]')
bug("c18-pow-recursion", "C18",
    [("dual_quaternion", "        let theta = self.real().get_angle();\n        let (s, c) = (self.real().abs_imag()", "        if exponent > T::from(16.0).unwrap() {\n            // square and multiply keeps large powers accurate\n            let half = (exponent / T::from(2.0).unwrap()).floor();\n            return self.pow(half) * self.pow(half) * self.pow(exponent - half);\n        }\n        let theta = self.real().get_angle();\n        let (s, c) = (self.real().abs_imag()")],
    "a power above sixteen", "large powers add half of the exponent once too often",
    """fn main() {
    let q = DualQuaternion::new_from_rot_trans(&Quaternion::rotation(0.01f64, &V3::z_axis()), &V3::z_axis());
    let r = q.pow(20.0).get_translation();
    assert!((r[2] - 20.0).abs() < 1e-9, "{:?}", r);
}""")
# --- third round
bug("c15-pow-flag", "C15",
    [("quaternion", "        (rhs * self.ln()).exp()", "        Self { normalized: self.normalized, ..(rhs * self.ln()).exp() }")],
    "the power of a normalised quaternion with an exponent that is not real, then normalising or inverting it", "pow keeps the cached state although the result is no unit quaternion",
    """fn main() {
    let q = Quaternion::rotation(1.0f64, &V3::new([0.0, 0.0, 1.0]));
    let p = q.pow(Quaternion::new_from(0.5, 0.3, 0.2, 2.0));
    let u = p.normalize().unwrap();
    assert!((u.norm2() - 1.0).abs() < 1e-9, "{:?}", u);
}""")
bug("c27-alternate", "C27",
    [("vector2", "        writeln!(dest, \"[{0:^3.2} {1:^3.2}]\", self[0], self[1])", "        if dest.alternate() {\n            return write!(dest, \"[{0:^3.2} {0:^3.2}]\", self[0]);\n        }\n        writeln!(dest, \"[{0:^3.2} {1:^3.2}]\", self[0], self[1])")],
    "formatting a 2-vector with the alternate flag", "{:#} writes the first component of a V2 twice",
    """fn main() {
    let s = format!("{:#}", V2::new([1.0, 2.0]));
    assert!(s.contains("1.00") && s.contains("2.00"), "{}", s);
}""")
bug("c16-array-flag", "C16",
    [("dual_quaternion", "        let q_dual = Quaternion::new_imag(&v_d) * half * q_real;\n        Self::new(q_real, q_dual)", "        let q_dual = Quaternion::new_imag(&v_d) * half * q_real;\n        Self {\n            q_real,\n            q_dual,\n            normalized: true,\n        }")],
    "an array whose quaternion is not of unit norm", "a dual quaternion built from any array counts as normalised",
    """fn main() {
    let d = DualQuaternion::new_from_array([2.0f64, 0.0, 0.0, 0.0, 1.0, 2.0, 3.0]);
    assert!(!d.is_normalized());
}""")
# --- fourth round: windows and memos
bug("c12-memo-yaw", "C12",
    [("quaternion", "        let (yay_sin, yay_cos)     = (yay / two).sin_cos();\n", """        // poses of a moving body often repeat two of their angles
        std::thread_local!(static LAST: std::cell::Cell<[f64; 4]> = const { std::cell::Cell::new([f64::NAN; 4]) });
        let last = LAST.with(|c| c.get());
        let key = (pitch.to_f64().unwrap(), roll.to_f64().unwrap());
        let (yay_sin, yay_cos) = if last[0] == key.0 && last[1] == key.1 {
            (T::from(last[2]).unwrap(), T::from(last[3]).unwrap())
        } else {
            (yay / two).sin_cos()
        };
        LAST.with(|c| c.set([key.0, key.1, yay_sin.to_f64().unwrap(), yay_cos.to_f64().unwrap()]));
""")],
    "two consecutive calls on one thread with the same pitch and roll and another yaw", "from_euler_angles uses the previous call's yaw",
    """fn main() {
    let a = Quaternion::from_euler_angles(0.1f64, 0.2, 0.3);
    let b = Quaternion::from_euler_angles(0.9f64, 0.2, 0.3);
    assert!((a.get_angle() - b.get_angle()).abs() > 1e-3 && (b.to_euler_angles().0 - 0.9).abs() < 1e-9);
}""")
bug("c22-memo-inverse", "C22",
    [("transformations", "    let p_new = -rot_new * p;\n", """    std::thread_local!(static LAST: std::cell::Cell<[f64; 6]> = const { std::cell::Cell::new([f64::NAN; 6]) });
    let last = LAST.with(|c| c.get());
    let f = |x: T| x.to_f64().unwrap();
    let key = [f(rot[(0, 1)]), f(p[0]), f(p[1])];
    let p_new = if last[..3] == key {
        V3::new_from(T::from(last[3]).unwrap(), T::from(last[4]).unwrap(), T::from(last[5]).unwrap())
    } else {
        -rot_new * p
    };
    LAST.with(|c| c.set([key[0], key[1], key[2], f(p_new[0]), f(p_new[1]), f(p_new[2])]));
""")],
    "two consecutive inversions with the same x, y and first rotation row but another height", "the homogeneous inverse uses the previous call's translation",
    """fn main() {
    let a = homogeneous_from_rotation(&rotz(0.3f64), &V3::new([1.0, 2.0, 3.0]));
    let b = homogeneous_from_rotation(&rotz(0.3f64), &V3::new([1.0, 2.0, 5.0]));
    let _ = homogeneous_inverse(&a);
    assert!((homogeneous_inverse(&b)[(2, 3)] + 5.0).abs() < 1e-9);
}""")
bug("c18-screw-window", "C18",
    [("dual_quaternion", "            let cot = one / T::tan(theta / two);", "            let half_turn = T::acos(-one);\n            let cot = if (theta - half_turn).abs() < T::from(1e-4).unwrap() { T::zero() } else { one / T::tan(theta / two) };")],
    "a rotation within 1e-4 of half a turn whose axis is far away", "the moment of the screw axis loses a term near half a turn",
    """fn main() {
    let th = std::f64::consts::PI - 5e-5;
    let d = DualQuaternion::new_from_rot_trans(&Quaternion::rotation(th, &V3::z_axis()), &V3::new([1000.0, 0.0, 0.0]));
    let (l, m, a, s) = d.get_screw_parameters();
    let e = DualQuaternion::new_from_screw_parameters(&l, &m, a, s);
    let t = e.get_translation() - d.get_translation();
    assert!(t.norm2() < 1e-6, "{:?}", t);
}""")
bug("c13-exp-cap", "C13",
    [("quaternion", "        let real_exp = T::exp(real);", "        // keep the scale finite in single precision\n        let real_exp = T::exp(T::min(real, T::from(27.5).unwrap()));")],
    "a quaternion whose real part is above 27.5", "exp is clamped for large real parts",
    """fn main() {
    let q = Quaternion::new_from(29.0f64, 0.1, 0.2, 0.3).exp();
    assert!((q.norm2().ln() - 29.0).abs() < 1e-9, "{:?}", q);
}""")
bug("c21-pitch-window", "C21",
    [("transformations", "    let v = q.cross(*s) + (*s) * h;", "    let v = if h.abs() > T::from(750.0).unwrap() { (*s) * h } else { q.cross(*s) + (*s) * h };")],
    "a screw with a pitch above 750", "a very steep screw is moved to the origin",
    """fn main() {
    let v = screw_to_axis(&V3::new([0.0, 4.0, 0.0f64]), &V3::x_axis(), 800.0);
    assert!((v[5] + 4.0).abs() < 1e-9, "{:?}", v);
}""")
bug("c30-is-zero-cancel", "C30",
    [("matrix6x6", "        *self == M66::zero()", "        // one pass per row\n        self.iter().all(|row| row.iter().fold(T::zero(), |s, x| s + *x) == T::zero())")],
    "a nonzero matrix every row of which sums to zero", "M66::is_zero is true for matrices whose rows cancel",
    """use num::Zero;
fn main() {
    let mut a = M66::<i32>::zeros();
    a[(4, 1)] = 3;
    a[(4, 5)] = -3;
    assert!(!a.is_zero());
}""")
bug("c30-eq-same-place", "C30",
    [("matrix4x4", "#[derive(Copy, Clone, Debug, PartialEq)]\npub struct M44<T>([[T; 4]; 4]);\n", "#[derive(Copy, Clone, Debug)]\npub struct M44<T>([[T; 4]; 4]);\n\nimpl<T: PartialEq> PartialEq for M44<T> {\n    fn eq(&self, other: &Self) -> bool {\n        core::ptr::eq(self, other) || self.0 == other.0\n    }\n}\n")],
    "a matrix holding a NaN compared with itself", "M44 == takes the same object as equal without looking at its entries",
    """#[allow(clippy::eq_op)]
fn main() {
    let mut a = M44::<f64>::identity();
    a[(2, 3)] = f64::NAN;
    assert!(a != a);
}""")
bug("c30-dual-is-zero", "C30",
    [("dual_quaternion", "        *self == DualQuaternion::zero()", "        self.q_real.is_zero() && self.q_dual.imag().is_zero()")],
    "a dual quaternion whose only nonzero component is the scalar of the dual part", "is_zero overlooks one component",
    """use num::Zero;
fn main() {
    let d = DualQuaternion::new(Quaternion::zero(), Quaternion::new_from(2.0f64, 0.0, 0.0, 0.0));
    assert!(!d.is_zero());
}""")
bug("c25-compare-first-48", "C25",
    [("utils", "    v1.iter()\n        .zip(v2)", "    // enough for the largest matrix\n    v1.iter()\n        .take(48)\n        .zip(v2)")],
    "slices longer than 48 elements that differ only beyond", "compare_vecs looks at the first elements only",
    """fn main() {
    let a = [1.0f64; 60];
    let mut b = a;
    b[55] = 2.0;
    assert!(!compare_vecs(&a, &b, 1e-6));
}""")
bug("c10-norm-flush", "C10",
    [("quaternion", "        self.dot(*self).sqrt()\n", "        let n = self.dot(*self);\n        if n < T::from(1e-30).unwrap() { T::zero() } else { n.sqrt() }\n")],
    "a quaternion shorter than 1e-15", "the norm of a tiny quaternion is zero",
    """fn main() {
    let q = Quaternion::new_from(3e-16f64, 0.0, 4e-16, 0.0);
    assert!((q.norm2() / 5e-16 - 1.0).abs() < 1e-9, "{:?}", q.norm2());
}""")
bug("c13-ln-floor", "C13",
    [("quaternion", "            Self {q0: T::ln(a), q: q_norm.q * imag_norm, normalized: false}", "            Self {q0: T::ln(a.max(T::from(1e-12).unwrap())), q: q_norm.q * imag_norm, normalized: false}")],
    "the logarithm of a quaternion shorter than 1e-12", "ln has a floor",
    """fn main() {
    let q = Quaternion::new_from(1e-14f64, 1e-14, 0.0, 0.0).ln();
    assert!((q.real() - (2f64.sqrt() * 1e-14).ln()).abs() < 1e-9, "{:?}", q);
}""")
