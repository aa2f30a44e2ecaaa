#!/usr/bin/env python3
"""Behaviour-preserving rewrites of /repo/src, to see that no check raises an alarm on them (development aid, read by no check).
refactor.py LANE [SET..]   applies each set in /tmp/lanes/LANE/repo, runs the tests there and all checks of /tmp/lanes/LANE/verif"""
import os, re, shutil, subprocess, sys
SETS = {}
def rset(name):
    def deco(f):
        SETS[name] = f
        return f
    return deco
class Src:
    def __init__(self, repo):
        self.repo, self.t = repo, {}
    def get(self, f):
        if f not in self.t:
            self.t[f] = open(f"{self.repo}/src/{f}.rs").read()
        return self.t[f]
    def sub(self, f, old, new, n=1):
        s = self.get(f)
        cut = s.find("#[cfg(test)]")
        cut = len(s) if cut < 0 else cut
        assert s[:cut].count(old) == n, (f, s[:cut].count(old), old)
        self.t[f] = s[:cut].replace(old, new) + s[cut:]
    def body(self, f, sig, new, nth=0):
        """replace the body of the nth function whose signature contains sig"""
        s = self.get(f)
        i = -1
        for _ in range(nth + 1):
            i = s.find(sig, i + 1)
            assert i >= 0, (f, sig)
        b = s.index("{", i + len(sig) - (1 if sig.endswith("{") else 0))
        d, j = 0, b
        while True:
            d += {"{": 1, "}": -1}.get(s[j], 0)
            j += 1
            if d == 0:
                break
        self.t[f] = s[:b] + "{\n" + new + "\n    }" + s[j:]
    def save(self):
        for f, s in self.t.items():
            open(f"{self.repo}/src/{f}.rs", "w").write(s)
DIG = {2: "matrix2x2", 3: "matrix3x3", 4: "matrix4x4", 5: "matrix5x5", 6: "matrix6x6"}

@rset("quat")
def _(s):
    q = "quaternion"
    s.body(q, "pub fn abs2(&self) -> T {", "        self.dot(*self)")
    s.body(q, "pub fn dot(&self, rhs: Self) -> T {", "        self.q[2] * rhs.q[2] + self.q[1] * rhs.q[1] + self.q[0] * rhs.q[0] + self.q0 * rhs.q0")
    s.body(q, "pub fn to_rotation(&self) -> M33<T> {", """
        let (w, x, y, z) = (self.q0, self.q[0], self.q[1], self.q[2]);
        let two = T::one() + T::one();
        let (xx, yy, zz, ww) = (x * x, y * y, z * z, w * w);
        M33::new([[(ww + xx) - (yy + zz), two * (x * y - w * z), two * (x * z + w * y)],
                  [two * (x * y + w * z), (ww + yy) - (xx + zz), two * (y * z - w * x)],
                  [two * (x * z - w * y), two * (y * z + w * x), (ww + zz) - (xx + yy)]])""")
    s.body(q, "fn mul(self, rhs: Self) -> Self::Output {", """
        let (a, b) = (self, rhs);
        Self::new_from(
            a.q0 * b.q0 - a.q[0] * b.q[0] - a.q[1] * b.q[1] - a.q[2] * b.q[2],
            a.q0 * b.q[0] + a.q[0] * b.q0 + a.q[1] * b.q[2] - a.q[2] * b.q[1],
            a.q0 * b.q[1] - a.q[0] * b.q[2] + a.q[1] * b.q0 + a.q[2] * b.q[0],
            a.q0 * b.q[2] + a.q[0] * b.q[1] - a.q[1] * b.q[0] + a.q[2] * b.q0)""")
    s.body(q, "fn mul(self, rhs: V3<T>) -> Self::Output {", """
        let two = T::one() + T::one();
        let c = self.q.cross(rhs);
        rhs + (c * self.q0 + self.q.cross(c)) * two""")
    s.body(q, "fn neg(self) -> Self {", "        Self { q0: -self.q0, q: -self.q, normalized: self.normalized }")
    s.body(q, "pub fn conj(&self) -> Self {", "        Self { q0: self.q0, q: -self.q, normalized: self.normalized }")
    s.body(q, "pub fn from_rotation(rot: &M33<T>) -> Self {", """
        let one  = T::one();
        let half = one / (one + one);
        let (xx, yy, zz) = (rot[(0, 0)], rot[(1, 1)], rot[(2, 2)]);
        let trace = xx + yy + zz;
        let (t, q) = if trace > T::zero() {
            let t = one + trace;
            (t, [t, rot[(2, 1)] - rot[(1, 2)], rot[(0, 2)] - rot[(2, 0)], rot[(1, 0)] - rot[(0, 1)]])
        } else if xx >= yy && xx >= zz {
            let t = one + xx - yy - zz;
            (t, [rot[(2, 1)] - rot[(1, 2)], t, rot[(1, 0)] + rot[(0, 1)], rot[(0, 2)] + rot[(2, 0)]])
        } else if yy >= zz {
            let t = one - xx + yy - zz;
            (t, [rot[(0, 2)] - rot[(2, 0)], rot[(1, 0)] + rot[(0, 1)], t, rot[(2, 1)] + rot[(1, 2)]])
        } else {
            let t = one - xx - yy + zz;
            (t, [rot[(1, 0)] - rot[(0, 1)], rot[(0, 2)] + rot[(2, 0)], rot[(2, 1)] + rot[(1, 2)], t])
        };
        Self::from(q) * (half / t.sqrt())""")
    s.body(q, "pub fn normalize(&self) -> Option<Self> {", """
        if self.normalized {
            return Some(*self);
        }
        let n = self.norm2();
        if nearly_zero(n) {
            return None;
        }
        let mut result = *self * n.recip();
        result.normalized = true;
        Some(result)""")
    s.body(q, "pub fn rotation(theta: T, vector: &V3<T>) -> Self {", """
        let half = theta / (T::one() + T::one());
        let axis = vector.normalize().expect("the input has to be a non zero vector");
        Self { q0: half.cos(), q: axis * half.sin(), normalized: true }""")
    s.body(q, "pub fn rotation_norm_encoded(v: &V3<T>) -> Self {", """
        let theta = v.norm2();
        if nearly_zero(theta) {
            return Self::one();
        }
        Self::rotation(theta, v)""")
    s.body(q, "pub fn from_euler_angles(yay: T, pitch: T, roll: T) -> Self {", """
        let two = T::one() + T::one();
        let (sx, cx) = (roll / two).sin_cos();
        let (sy, cy) = (pitch / two).sin_cos();
        let (sz, cz) = (yay / two).sin_cos();
        let z = T::zero();
        let mut r = Self::new_from(cz, z, z, sz) * Self::new_from(cy, z, sy, z) * Self::new_from(cx, sx, z, z);
        r.normalized = true;
        r""")
    s.body(q, "pub fn get_angle(&self) -> T {", "        let n = self.abs_imag();\n        n.atan2(self.q0) * T::from(2.0).unwrap()")
    s.body(q, "pub fn get_axis(&self) -> Option<V3<T>> {", """
        let qn = self.normalize()?;
        let s = (qn.get_angle() / (T::one() + T::one())).sin();
        if s.abs() > T::epsilon() {
            Some(qn.q * s.recip())
        } else {
            None
        }""")
    s.body(q, "pub fn exp(&self) -> Self {", """
        let n = self.abs_imag();
        let e = self.q0.exp();
        let sinc = if n > T::epsilon() { n.sin() / n } else { T::one() };
        Self::new(e * n.cos(), self.q * (e * sinc))""")
    s.body(q, "pub fn ln(&self) -> Self {", """
        let (unit, a) = self.normalize_a();
        let n = unit.abs_imag();
        let angle = n.atan2(unit.real());
        let imag = if n > T::epsilon() {
            unit.q * (angle / n)
        } else {
            V3::x_axis() * angle
        };
        Self::new(a.ln(), imag)""")
    s.body(q, "pub fn sqrt(&self) -> Self {", "        (self.ln() / (T::one() + T::one())).exp()")
    s.body(q, "pub fn slerp(a: Self, b: Self, t: T) -> Self {", """
        let one = T::one();
        let d = a.dot(b);
        if d.abs() >= one {
            return a;
        }
        let sign = if d < T::zero() { -one } else { one };
        let c = d.abs();
        let s = ((one - c) * (one + c)).sqrt();
        let (w1, w2) = if s < T::from(0.001).unwrap() {
            (one - t, t)
        } else {
            let h = c.acos();
            (((one - t) * h).sin() / s, (t * h).sin() / s)
        };
        let blend = |x: T, y: T| x * w1 + y * (w2 * sign);
        Self::new_from(blend(a.q0, b.q0), blend(a.q[0], b.q[0]), blend(a.q[1], b.q[1]), blend(a.q[2], b.q[2]))""")
    s.body(q, "pub fn derivative(&self, rate: &V3<T>) -> Self {", """
        let half = (T::one() + T::one()).recip();
        (Self::new_imag(rate) * *self) * half""")
    s.body(q, "pub fn inverse(&self) -> Option<Self> {", """
        if self.normalized {
            return Some(self.conj());
        }
        let n = self.abs2();
        if nearly_zero(n) { None } else { Some(self.conj() * n.recip()) }""")
    s.body(q, "pub fn cos(&self) -> Self {", """
        let half = (T::one() + T::one()).recip();
        let l = self.argq();
        let p = *self * l;
        (p.exp() + (-p).exp()) * half""")
    s.body(q, "pub fn sin(&self) -> Self {", """
        let half = (T::one() + T::one()).recip();
        let l = self.argq();
        let p = *self * l;
        (p.exp() - (-p).exp()) * (l.conj() * half)""")
    # the components are private: one field order or another is no matter
    s.sub(q, "impl<T: PartialEq> PartialEq for Quaternion<T> {\n    fn eq(&self, other: &Self) -> bool {\n        self.q0 == other.q0 && self.q == other.q", "impl<T: PartialEq> PartialEq for Quaternion<T> {\n    fn eq(&self, other: &Self) -> bool {\n        !(self.q != other.q || self.q0 != other.q0)")

@rset("dual")
def _(s):
    d = "dual_quaternion"
    s.body(d, "fn mul(self, rhs: Self) -> Self::Output {", """
        Self::new(
            self.q_real * rhs.q_real,
            self.q_dual * rhs.q_real + self.q_real * rhs.q_dual,
        )""")
    s.body(d, "pub fn inverse(&self) -> Self {", """
        if self.normalized {
            return self.conj();
        }
        let r = self.q_real.inverse().expect("the zero Quaternion cannot be inverted");
        Self::new(r, -(r * (self.q_dual * r)))""")
    s.body(d, "fn neg(self) -> Self {", "        Self { q_real: -self.q_real, q_dual: -self.q_dual, normalized: self.normalized }")
    s.body(d, "pub fn conj(&self) -> Self {", "        Self { q_real: self.q_real.conj(), q_dual: self.q_dual.conj(), normalized: self.normalized }")
    s.body(d, "pub fn get_translation(&self) -> V3<T> {", "        self.to_quaternion_translation().1")
    s.body(d, "pub fn to_quaternion_translation(&self) -> (Quaternion<T>, V3<T>) {", """
        let p = self.dual() * self.real().conj();
        (self.real(), (p + p).imag())""")
    s.body(d, "pub fn get_screw_parameters(&self) -> (V3<T>, V3<T>, T, T) {", """
        let two = T::one() + T::one();
        let (axis, angle) = self.real().axis_angle();
        let theta = if axis.is_some() { angle } else { T::zero() };
        let t = self.get_translation();
        if nearly_zero(theta) {
            let d = t.norm2();
            let l = if nearly_zero(d) { V3::zeros() } else { t / d };
            let inf = T::infinity();
            return (l, V3::new([inf; 3]), theta, d);
        }
        let (s, c) = (theta / two).sin_cos();
        let l = self.real().imag() / s;
        let d = l * t;
        let m = (t.cross(l) + (t - l * d) * (c / s)) / two;
        (l, m, theta, d)""")
    s.body(d, "pub fn new_from_screw_parameters(l: &V3<T>, m: &V3<T>, theta: T, d: T) -> Self {", """
        let two = T::one() + T::one();
        let (s, c) = (theta / two).sin_cos();
        let h = d / two;
        Self::new(Quaternion::new(c, *l * s), Quaternion::new(-(h * s), *l * (h * c) + *m * s))""")
    s.body(d, "pub fn pow(&self, exponent: T) -> Self {", """
        let two = T::one() + T::one();
        let (w, v) = (self.real().real(), self.real().imag());
        let s = v.norm2();
        if nearly_zero(s) {
            return Self::new_from_translation(&(self.get_translation() * exponent));
        }
        let l = v / s;
        let d = -(self.dual().real() * two) / s;
        let m = (self.dual().imag() - l * (d * w / two)) / s;
        Self::new_from_screw_parameters(&l, &m, exponent * self.real().get_angle(), exponent * d)""")
    s.body(d, "pub fn screw_lerp(begin: &Self, end: &Self, tau: T) -> Self {", """
        let flip = begin.real().dot(end.real()) < T::zero();
        let start = if flip { -*begin } else { *begin };
        let delta = start.inverse() * *end;
        start * delta.pow(tau)""")
    s.body(d, "pub fn new_from_array(array: [T; 7]) -> Self {", """
        let two = T::one() + T::one();
        let q_real = Quaternion::new_from(array[0], array[1], array[2], array[3]);
        let t = V3::new_from(array[4], array[5], array[6]) / two;
        Self::new(q_real, Quaternion::new_imag(&t) * q_real)""")
    s.body(d, "pub fn new_from_translation(t: &V3<T>) -> Self {", "        Self::new_from_point(&(*t / (T::one() + T::one())))")
    s.body(d, "pub fn new_from_rot_trans(rot: &Quaternion<T>, translation: &V3<T>) -> Self {", """
        let two = T::one() + T::one();
        let q_real = rot.normalize().expect("the quaternion it can't be zero!!!");
        Self { q_real, q_dual: Quaternion::new_imag(translation) * q_real / two, normalized: true }""")
    s.body(d, "pub fn norm(&self) -> Self {", "        let c = self.conj();\n        Self::new(self.q_real * c.q_real, self.q_real * c.q_dual + self.q_dual * c.q_real)")
    s.body(d, "pub fn transform_point(&self, point: &V3<T>) -> V3<T> {", "        let p = Self::new_from_point(point);\n        let half = p * self.conj();\n        (*self * half).dual().imag()")

@rset("transf")
def _(s):
    t = "transformations"
    s.body(t, "pub fn rotation_to_euler<T: Float + FloatConst>(r: &M33<T>) -> (T, T, T) {", """
        let pitch = (-r[(2, 0)]).atan2(r[(0, 0)].hypot(r[(1, 0)]));
        if nearly_equal(pitch.abs(), T::FRAC_PI_2(), T::epsilon()) {
            let sign = pitch.signum();
            return ((sign * r[(1, 2)]).atan2(sign * r[(0, 2)]), pitch, T::zero());
        }
        let yay = r[(1, 0)].atan2(r[(0, 0)]);
        let (s, c) = (yay.sin(), yay.cos());
        let roll = (s * r[(0, 2)] - c * r[(1, 2)]).atan2(c * r[(1, 1)] - s * r[(0, 1)]);
        (yay, pitch, roll)""")
    s.body(t, "pub fn homogeneous_inverse<T: Float + core::iter::Sum + Signed>(r: &M44<T>) -> M44<T> {", """
        let mut result = M44::identity();
        for i in 0..3 {
            let mut p = T::zero();
            for j in 0..3 {
                result[(i, j)] = r[(j, i)];
                p = p + r[(j, i)] * r[(j, 3)];
            }
            result[(i, 3)] = -p;
        }
        result""")
    s.body(t, "T: Float + core::iter::Sum + FloatConst + Signed,\n{", """
        let (rot, translation) = get_parts_raw(r);
        rot.transpose() * (*p - translation)""")
    s.body(t, "pub fn get_parts<T: Float + FloatConst>(r: &M44<T>) -> (Quaternion<T>, V3<T>) {", """
        let (rot, p) = get_parts_raw(r);
        let (yay, pitch, roll) = rotation_to_euler(&rot);
        (Quaternion::from_euler_angles(yay, pitch, roll), p)""")
    s.body(t, "pub fn rotation_from_axis_angle<T: Float>(omega: &V3<T>, theta: T) -> M33<T> {", """
        let one = T::one();
        let (s, c) = theta.sin_cos();
        let k = skew_from_vec(omega);
        (k * s + M33::identity()) + (k * (one - c)) * k""")
    s.body(t, "pub fn matrix_exponential<T: Float>(so3: &M33<T>) -> M33<T> {", """
        let v = skew_to_vec(so3);
        let theta = v.norm2();
        if nearly_zero(theta) {
            return M33::identity();
        }
        rotation_from_axis_angle(&(v / theta), theta)""")
    s.body(t, "pub fn matrix_log<T: Float + core::iter::Sum + FloatConst>(r: &M33<T>) -> M33<T> {", """
        let two = T::one() + T::one();
        let q = Quaternion::from_rotation(r);
        let (w, v) = if q.real() < T::zero() { (-q.real(), q.imag() * -T::one()) } else { (q.real(), q.imag()) };
        let n = v.norm2();
        if nearly_zero(n) {
            return M33::zeros();
        }
        skew_from_vec(&(v * (two * n.atan2(w) / n)))""")
    s.body(t, "pub fn adjoint<T: Float>(transform: &M44<T>) -> M66<T> {", """
        let (r, p) = get_parts_raw(transform);
        let pr = skew_from_vec(&p) * r;
        let mut result = M66::zeros();
        for i in 0..3 {
            for j in 0..3 {
                result[(i, j)] = r[(i, j)];
                result[(i + 3, j + 3)] = r[(i, j)];
                result[(i + 3, j)] = pr[(i, j)];
            }
        }
        result""")
    s.body(t, "pub fn matrix_exponential6<T: Float>(se3: &M44<T>) -> M44<T> {", """
        let one = T::one();
        let (skew, v) = se3_get_parts(se3);
        let theta = skew_to_vec(&skew).norm2();
        if nearly_zero(theta) {
            return translation_3d(v[0], v[1], v[2]);
        }
        let w = skew / theta;
        let (s, c) = theta.sin_cos();
        let u = v / theta;
        let wu = w * u;
        let p = u * theta + wu * (one - c) + w * wu * (theta - s);
        homogeneous_from_rotation(&matrix_exponential(&skew), &p)""")
    s.body(t, "pub fn matrix_log6<T: Float + core::iter::Sum + FloatConst>(t: &M44<T>) -> M44<T> {", """
        let two = T::one() + T::one();
        let (r, p) = get_parts_raw(t);
        let omega = matrix_log(&r);
        if omega.is_zero() {
            return se3_from_parts(&omega, &p);
        }
        let theta = skew_to_vec(&omega).norm2();
        let (s, c) = (theta / two).sin_cos();
        let k = (T::one() - theta * c / (two * s)) / (theta * theta);
        let op = omega * p;
        se3_from_parts(&omega, &(p - op / two + omega * op * k))""")
    s.body(t, "pub fn distance_to_manifold<T: Float + core::iter::Sum>(m: &M33<T>) -> T {", """
        if m.det() <= T::zero() {
            return T::infinity();
        }
        let e = m.transpose() * *m - M33::identity();
        e.norm2()""")
    s.body(t, "pub fn axis_angle6<T: Float>(exp: &V6<T>) -> (V6<T>, T) {", """
        let mut theta = norm2(&exp[0..3]);
        if nearly_zero(theta) {
            theta = norm2(&exp[3..6]);
        }
        (*exp / theta, theta)""")
    s.body(t, "pub fn screw_to_axis<T: Float>(q: &V3<T>, s: &V3<T>, h: T) -> V6<T> {", """
        let v = (*s) * h - s.cross(*q);
        V6::new_from(s[0], s[1], s[2], v[0], v[1], v[2])""")
    s.body(t, "pub fn euler_to_rotation<T: Float>(yay: T, pitch: T, roll: T, s: Option<EulerSeq>) -> M33<T> {", """
        let (a, b, c): (fn(T) -> M33<T>, fn(T) -> M33<T>, fn(T) -> M33<T>) = match s {
            Some(EulerSeq::XYX) => (rotx, roty, rotx),
            Some(EulerSeq::XYZ) => (rotx, roty, rotz),
            Some(EulerSeq::XZX) => (rotx, rotz, rotx),
            Some(EulerSeq::XZY) => (rotx, rotz, roty),
            Some(EulerSeq::YXY) => (roty, rotx, roty),
            Some(EulerSeq::YXZ) => (roty, rotx, rotz),
            Some(EulerSeq::YZX) => (roty, rotz, rotx),
            Some(EulerSeq::YZY) => (roty, rotz, roty),
            Some(EulerSeq::ZXY) => (rotz, rotx, roty),
            Some(EulerSeq::ZXZ) => (rotz, rotx, rotz),
            None => (rotz, roty, rotx),
        };
        a(yay) * (b(pitch) * c(roll))""")
    for (f, c) in (("rotx", ""), ("roty", ""), ("rotz", ""), ("rot2", "")):
        pass

@rset("mats")
def _(s):
    for n, f in DIG.items():
        M, V = f"M{n}{n}", f"V{n}"
        src = s.get(f)
        s.body(f, "fn mul(self, rhs: Self) -> Self {", f"""
        let mut r = Self::zeros();
        for i in 0..{n} {{
            for j in 0..{n} {{
                let mut acc = self[(i, {n - 1})] * rhs[({n - 1}, j)];
                for k in (0..{n - 1}).rev() {{
                    acc = acc + self[(i, k)] * rhs[(k, j)];
                }}
                r[(i, j)] = acc;
            }}
        }}
        r""")
        s.body(f, f"fn mul(self, rhs: {V}<T>) -> {V}<T> {{", f"""
        let mut r = {V}::zeros();
        for i in 0..{n} {{
            for k in 0..{n} {{
                r[i] = r[i] + rhs[k] * self[(i, k)];
            }}
        }}
        r""")
        for op, name in (("+", "add"), ("-", "sub")):
            s.body(f, f"fn {name}(self, rhs: Self) -> Self {{", f"""
        let mut r = self;
        for i in 0..{n} {{
            for j in 0..{n} {{
                r[(i, j)] = self[(i, j)] {op} rhs[(i, j)];
            }}
        }}
        r""")
        ty = re.search(r"fn trace\(&self\) -> T \{", src)
        s.body(f, "fn trace(&self) -> T {", f"        (0..{n}).rev().map(|i| self[(i, i)]).sum()")
        m = re.search(r"fn transpose\(&self\) -> [A-Za-z0-9<>]+ \{", src).group(0)
        s.body(f, m, f"""
        let mut r = Self::zeros();
        for i in 0..{n} {{
            for j in 0..{n} {{
                r[(j, i)] = self[(i, j)];
            }}
        }}
        r""")
        s.body(f, "fn norm2(&self) -> T {", "        self.iter().flatten().rev().fold(T::zero(), |n, &x| n + x * x).sqrt()")
        s.body(f, f"pub fn get_diagonal(&self) -> {V}<T> {{", f"""
        let mut r = {V}::zeros();
        for i in 0..{n} {{
            r[i] = self[(i, i)];
        }}
        r""")
        s.body(f, "pub fn for_each(&self, f: impl Fn(T) -> T) -> Self {", """
        let mut r = *self;
        for row in r.iter_mut() {
            for x in row.iter_mut() {
                *x = f(*x);
            }
        }
        r""")
        t2, cnt = re.subn(r"for j in 0\.\.N \{\s*(?://[^\n]*\n\s*)*let temp = lu\[\(i_max, j\)\];\s*lu\[\(i_max, j\)\] = lu\[\(k, j\)\];\s*lu\[\(k, j\)\] = temp;\s*\}", "lu.swap(k, i_max);", s.get(f))
        print(f, "lu swaps", cnt)
        s.t[f] = t2
        if n == 2:
            s.body(f, "fn inverse(&self) -> Option<Self> {", """
        let det = self.det();
        if nearly_zero(det) {
            return None;
        }
        let (a, b, c, d) = (self[(0, 0)], self[(0, 1)], self[(1, 0)], self[(1, 1)]);
        Some(Self::new([[d / det, -b / det], [-c / det, a / det]]))""")
            s.body(f, "fn det(&self) -> T {", "        let [[a, b], [c, d]] = self.0;\n        a * d - b * c")
            s.body(f, "pub fn real_eigenvals(&self) -> Option<V2<T>> {", """
        let two = T::from(2)?;
        let (tau, delta) = (self.trace(), self.det());
        let discr = tau * tau - (two + two) * delta;
        if discr < T::zero() {
            return None;
        }
        let root = discr.sqrt();
        Some(V2::new([(tau + root) / two, (tau - root) / two]))""")
        elif n == 3:
            s.body(f, "fn det(&self) -> T {", "        self.get_rows()[0] * self.get_rows()[1].cross(self.get_rows()[2])")
            s.body(f, "fn inverse(&self) -> Option<Self> {", """
        let det = self.det();
        if nearly_zero(det) {
            return None;
        }
        let mut r = Self::zeros();
        for i in 0..3 {
            for j in 0..3 {
                let (i1, i2, j1, j2) = ((i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3);
                r[(j, i)] = (self[(i1, j1)] * self[(i2, j2)] - self[(i1, j2)] * self[(i2, j1)]) / det;
            }
        }
        Some(r)""")
        else:
            s.body(f, "fn det(&self) -> T {", f"""
        let mut r = T::zero();
        for j in 0..{n} {{
            let term = self[({n - 1}, j)] * self.get_submatrix(({n - 1}, j)).det();
            if ({n - 1} + j) % 2 == 0 {{
                r = r + term;
            }} else {{
                r = r - term;
            }}
        }}
        r""")
            s.body(f, "fn inverse(&self) -> Option<Self> {", f"""
        let det = self.det();
        if nearly_zero(det) {{
            return None;
        }}
        let mut r = Self::zeros();
        for i in 0..{n} {{
            for j in 0..{n} {{
                let minor = self.get_submatrix((i, j)).det();
                r[(j, i)] = (if (i + j) % 2 == 0 {{ minor }} else {{ -minor }}) / det;
            }}
        }}
        Some(r)""")

@rset("qr-mgs")
def _(s):
    for n, f in DIG.items():
        s.sub(f, "project_x_over_y(&*cols[i], &**elem)", "dot(&*q_tilde, &**elem)")

@rset("vecs")
def _(s):
    for n in (2, 3, 4, 5, 6):
        f, V = f"vector{n}", f"V{n}"
        s.body(f, "pub fn norm2(&self) -> T {", "        crate::slices_methods::norm2(&**self)")
        s.body(f, "pub fn normalize(&self) -> Result<Self, VectorErrors> {" if n < 4 else "pub fn normalize(&mut self) -> Result<Self, VectorErrors> {", f"""
        let n = self.norm2();
        if n == T::zero() {{
            return Err(VectorErrors::Norm2IsZero);
        }}
        Ok(*self / n)""")
        s.body(f, "fn mul(self, rhs: Self) -> T {", f"        (0..{n}).rev().fold(T::zero(), |acc, i| acc + self[i] * rhs[i])")
        s.body(f, "fn sub_assign(&mut self, other: Self) {", f"        for i in 0..{n} {{\n            self[i] = self[i] - other[i];\n        }}")
        s.body(f, "fn add_assign(&mut self, other: Self) {", f"        for i in 0..{n} {{\n            self[i] = self[i] + other[i];\n        }}")
        M = f"M{n}{n}"
        s.body(f, f"fn mul(self, rhs: {M}<T>) -> {V}<T> {{", f"""
        let mut r = Self::zeros();
        for j in 0..{n} {{
            for i in 0..{n} {{
                r[j] = r[j] + self[i] * rhs[(i, j)];
            }}
        }}
        r""")
        s.body(f, "fn is_zero(&self) -> bool {", "        self.iter().all(|x| *x == T::zero())")
    s.body("vector3", "pub fn cross(&self, rhs: Self) -> Self {", """
        let (a, b, c) = (self[0], self[1], self[2]);
        let (d, e, f) = (rhs[0], rhs[1], rhs[2]);
        Self::new([b * f - e * c, c * d - f * a, a * e - d * b])""")
    u = "utils"
    s.body(u, "pub fn nearly_equal<T: Float>(a: T, b: T, epsilon: T) -> bool {", """
        if a == b {
            return true;
        }
        let diff = (a - b).abs();
        let sum = a.abs() + b.abs();
        let zero = T::zero();
        let scale = if a == zero || b == zero || sum < T::min_positive_value() { T::one() } else { sum.min(T::max_value()) };
        diff / scale < epsilon""")
    s.body(u, "pub fn compare_vecs<T: Float>(v1: &[T], v2: &[T], epsilon: T) -> bool {", """
        for (a, b) in v1.iter().zip(v2) {
            if !nearly_equal(*a, *b, epsilon) {
                return false;
            }
        }
        true""")
    s.body(u, "pub fn compare_floats<T: Float>(num1: T, num2: T, tol: T) -> bool {", "        (num2 - num1).abs() < tol")
    s.body(u, "pub fn compare_dual_quaternions<T: Float>(\n    a: DualQuaternion<T>,\n    b: DualQuaternion<T>,\n    epsilon: T,\n) -> bool {", """
        let parts = |q: DualQuaternion<T>| {
            let (r, d) = (q.real(), q.dual());
            [r.real(), r.imag()[0], r.imag()[1], r.imag()[2], d.real(), d.imag()[0], d.imag()[1], d.imag()[2]]
        };
        compare_vecs(&parts(a), &parts(b), epsilon)""")
    m = "slices_methods"
    s.body(m, "pub fn find_max_min<T: core::cmp::PartialOrd + Copy>(slice: &[T]) -> MaxMin<T> {", """
        let (mut hi, mut lo) = (0, 0);
        for i in 1..slice.len() {
            if slice[i] > slice[hi] {
                hi = i;
            }
            if slice[i] < slice[lo] {
                lo = i;
            }
        }
        MaxMin { max: (slice[hi], hi), min: (slice[lo], lo) }""")
    s.body(m, "pub fn norm2<T: Float>(slice: &[T]) -> T {", "        let mut sum = T::zero();\n        for &x in slice.iter() {\n            sum = x * x + sum;\n        }\n        sum.sqrt()")
    s.body(m, "pub fn dot<T: Num + Copy + core::iter::Sum>(slice1: &[T], slice2: &[T]) -> T {", "        assert_eq!(slice1.len(), slice2.len(), \"the slices differ in length\");\n        (0..slice1.len()).map(|i| slice1[i] * slice2[i]).sum()") if False else s.body(m, "pub fn dot<T: Num + Copy + core::iter::Sum>(slice1: &[T], slice2: &[T]) -> T {", "        if slice1.len() != slice2.len() {\n            panic!(\"the slices differ in length\");\n        }\n        (0..slice1.len()).map(|i| slice1[i] * slice2[i]).sum()")
    s.body(m, "pub fn normalize<T: Float>(slice: &mut [T]) {", "        let n = norm2(slice);\n        for x in slice.iter_mut() {\n            *x = *x / n;\n        }")
    s.body(m, "pub fn project_x_over_y<T: Float + core::iter::Sum>(x: &[T], y: &[T]) -> T {", "        let yy: T = y.iter().map(|&v| v * v).sum();\n        dot(y, x) / yy")
    s.body(m, "pub fn check_elements<T: Float>(v: &[T], tol: T) -> bool {", "        v.iter().any(|x| nearly_equal(*x, T::zero(), tol))")

@rset("noop")
def _(s):
    for f in list(DIG.values()) + ["vector2", "vector3", "vector4", "vector5", "vector6", "quaternion", "dual_quaternion", "transformations", "utils", "slices_methods"]:
        t = s.get(f)
        cut = t.find("#[cfg(test)]")
        cut = len(t) if cut < 0 else cut
        head = re.sub(r"(\n    (?:pub )?fn [^;{}]*\{)\n", r"\1\n        let _unused = ();\n", t[:cut])
        s.t[f] = head + t[cut:] + "\n// the end\n"

def sh(cmd, cwd, t=900):
    p = subprocess.run(cmd, cwd=cwd, shell=True, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t)
    return p.returncode, p.stdout.decode(errors="replace")
def main():
    lane, names = sys.argv[1], sys.argv[2:] or list(SETS)
    d = f"/tmp/lanes/{lane}"
    ids = os.environ.get("IDS", " ".join(f"C{i:02d}" for i in range(1, 31))).split()
    for name in names:
        sh(f"cp /repo/src/*.rs {d}/repo/src/", "/")
        s = Src(d + "/repo")
        SETS[name](s)
        s.save()
        r, o = sh("cargo test --offline --lib -q", d + "/repo")
        if "211 passed" not in o:
            print(name, "TESTS", o[-2500:], flush=True)
            if "error" in o:
                continue
        for c in ids:
            r, o = sh(f"./check.sh {c}", d + "/verif")
            if r:
                print(name, c, "rc", r, [l for l in o.splitlines() if "VIOLATION" in l or "INCONCL" in l or "error" in l or "violation" in l][:4], flush=True)
        print(name, "done", flush=True)
    sh(f"cp /repo/src/*.rs {d}/repo/src/", "/")
if __name__ == "__main__":
    main()
