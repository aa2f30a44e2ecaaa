//! Reference quaternion / rigid-motion algebra on raw components, independent of the crate.
use crate::dd::Dd;
use crate::refm::{Rm, Rs};

/// Hamilton product on [w,x,y,z], written from the multiplication table
pub fn qmul<S: Rs>(p: &[S; 4], q: &[S; 4]) -> [S; 4] {
    // table[i][j] = (sign, index) of e_i e_j
    const T: [[(i8, usize); 4]; 4] = [
        [(1, 0), (1, 1), (1, 2), (1, 3)],
        [(1, 1), (-1, 0), (1, 3), (-1, 2)],
        [(1, 2), (-1, 3), (-1, 0), (1, 1)],
        [(1, 3), (1, 2), (-1, 1), (-1, 0)],
    ];
    let mut o = [S::Z; 4];
    for i in 0..4 {
        for j in 0..4 {
            let (s, k) = T[i][j];
            let t = p[i] * q[j];
            o[k] = if s > 0 { o[k] + t } else { o[k] - t };
        }
    }
    o
}
pub fn qconj<S: Rs>(q: &[S; 4]) -> [S; 4] {
    [q[0], -q[1], -q[2], -q[3]]
}
pub fn qdot<S: Rs>(p: &[S; 4], q: &[S; 4]) -> S {
    p[0] * q[0] + p[1] * q[1] + p[2] * q[2] + p[3] * q[3]
}
pub fn qadd<S: Rs>(p: &[S; 4], q: &[S; 4]) -> [S; 4] {
    [p[0] + q[0], p[1] + q[1], p[2] + q[2], p[3] + q[3]]
}
pub fn qscale<S: Rs>(p: &[S; 4], s: S) -> [S; 4] {
    [p[0] * s, p[1] * s, p[2] * s, p[3] * s]
}
pub fn dd4(q: &[f64; 4]) -> [Dd; 4] {
    [q[0].into(), q[1].into(), q[2].into(), q[3].into()]
}
pub fn f4(q: &[Dd; 4]) -> [f64; 4] {
    [q[0].f(), q[1].f(), q[2].f(), q[3].f()]
}
pub fn qnorm(q: &[f64; 4]) -> f64 {
    qdot(&dd4(q), &dd4(q)).sqrt().f()
}
pub fn qunit(q: &[f64; 4]) -> [f64; 4] {
    let d = dd4(q);
    let n = qdot(&d, &d).sqrt();
    [(d[0] / n).f(), (d[1] / n).f(), (d[2] / n).f(), (d[3] / n).f()]
}
/// rotate v by a (unit) quaternion: imaginary part of q v q*
pub fn qrot(q: &[f64; 4], v: &[f64; 3]) -> [f64; 3] {
    let d = dd4(q);
    let p = [Dd::ZERO, v[0].into(), v[1].into(), v[2].into()];
    let r = qmul(&qmul(&d, &p), &qconj(&d));
    [r[1].f(), r[2].f(), r[3].f()]
}
/// rotation matrix of a unit quaternion: columns are the rotated basis vectors
pub fn qmat(q: &[f64; 4]) -> Rm<f64> {
    let mut m = Rm::zeros(3, 3);
    for j in 0..3 {
        let mut e = [0.0; 3];
        e[j] = 1.0;
        let c = qrot(q, &e);
        for i in 0..3 {
            m.set(i, j, c[i]);
        }
    }
    m
}
/// unit quaternion for a rotation of `th` about unit `a`
pub fn qaa(th: f64, a: &[f64; 3]) -> [f64; 4] {
    let (s, c) = (th / 2.0).sin_cos();
    qunit(&[c, s * a[0], s * a[1], s * a[2]])
}
/// Rodrigues' formula, component-wise
pub fn rot_aa(th: f64, a: &[f64; 3]) -> Rm<f64> {
    let (s, c) = th.sin_cos();
    // 1-cos without cancellation
    let h = (th / 2.0).sin();
    let v = 2.0 * h * h;
    let sk = skew(a);
    Rm::from_fn(3, 3, |i, j| a[i] * a[j] * v + if i == j { c } else { 0.0 } + s * sk.g(i, j))
}
pub fn skew(a: &[f64; 3]) -> Rm<f64> {
    Rm { r: 3, c: 3, a: vec![0.0, -a[2], a[1], a[2], 0.0, -a[0], -a[1], a[0], 0.0] }
}
pub fn cross(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn dot3(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn norm3(a: &[f64; 3]) -> f64 {
    dot3(a, a).sqrt()
}
pub fn mv3(m: &Rm<f64>, v: &[f64; 3]) -> [f64; 3] {
    let mut o = [0.0; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i] += m.g(i, j) * v[j];
        }
    }
    o
}
pub fn add3(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub3(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn scale3(a: &[f64; 3], s: f64) -> [f64; 3] {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn maxdiff(a: &[f64], b: &[f64]) -> f64 {
    assert_eq!(a.len(), b.len());
    let mut m = 0.0f64;
    for (x, y) in a.iter().zip(b) {
        let d = (x - y).abs();
        if !(d <= m) {
            if d.is_nan() {
                return f64::NAN;
            }
            m = d;
        }
    }
    m
}
/// distance between the rotations of two unit quaternions (sign-insensitive)
pub fn rotdist(a: &[f64; 4], b: &[f64; 4]) -> f64 {
    let nb = [-b[0], -b[1], -b[2], -b[3]];
    let (x, y) = (maxdiff(a, b), maxdiff(a, &nb));
    if x.is_nan() || y.is_nan() { f64::NAN } else { x.min(y) }
}
/// matrix exponential by scaling and squaring with a Taylor series (any size), in Dd
pub fn expm(a: &Rm<f64>) -> Rm<f64> {
    let n = a.r;
    let nrm = a.fro();
    let mut k = 0;
    while nrm / 2f64.powi(k) > 0.25 {
        k += 1;
    }
    let x = a.dd().scale(Dd::new(0.5f64.powi(k)));
    let mut term = Rm::<Dd>::ident(n);
    let mut sum = Rm::<Dd>::ident(n);
    for i in 1..26 {
        term = term.mul(&x);
        let inv = Dd::ONE / Dd::new(i as f64);
        term = term.scale(inv);
        sum = sum.add(&term);
    }
    for _ in 0..k {
        sum = sum.mul(&sum);
    }
    sum.f()
}
/// rigid motion
#[derive(Clone, Debug)]
pub struct Rigid {
    pub q: [f64; 4],
    pub t: [f64; 3],
}
impl Rigid {
    pub fn apply(&self, p: &[f64; 3]) -> [f64; 3] {
        add3(&qrot(&self.q, p), &self.t)
    }
    pub fn mat(&self) -> Rm<f64> {
        let r = qmat(&self.q);
        Rm::from_fn(4, 4, |i, j| match (i, j) {
            (3, 3) => 1.0,
            (3, _) => 0.0,
            (_, 3) => self.t[i],
            _ => r.g(i, j),
        })
    }
    pub fn inv(&self) -> Rigid {
        let qi = qconj(&self.q);
        Rigid { q: qi, t: scale3(&qrot(&qi, &self.t), -1.0) }
    }
    pub fn then(&self, o: &Rigid) -> Rigid {
        // self * o (apply o first)
        Rigid { q: qunit(&f4(&qmul(&dd4(&self.q), &dd4(&o.q)))), t: self.apply(&o.t) }
    }
    /// unit dual quaternion (real, dual) = q + eps t q / 2
    pub fn dq(&self) -> ([f64; 4], [f64; 4]) {
        let t = [Dd::ZERO, Dd::new(self.t[0] * 0.5), Dd::new(self.t[1] * 0.5), Dd::new(self.t[2] * 0.5)];
        (self.q, f4(&qmul(&t, &dd4(&self.q))))
    }
}
/// (1 - x/2 cot(x/2)) / x^2
fn gcoef(x: f64) -> f64 {
    let y = x * x;
    if x.abs() < 0.1 {
        1.0 / 12.0 + y / 720.0 + y * y / 30240.0 + y * y * y / 1209600.0
    } else {
        (1.0 - 0.5 * x / (0.5 * x).tan()) / y
    }
}
/// ((1 - cos x) / x^2, (x - sin x) / x^3)
pub fn vcoef(x: f64) -> (f64, f64) {
    let y = x * x;
    let h = if x.abs() < 1e-3 { 0.5 - y / 24.0 } else { let s = (0.5 * x).sin() / (0.5 * x); 0.5 * s * s };
    let k = if x.abs() < 0.3 {
        1.0 / 6.0 - y / 120.0 + y * y / 5040.0 - y * y * y / 362880.0 + y * y * y * y / 39916800.0
    } else {
        (x - x.sin()) / (y * x)
    };
    (h, k)
}
/// motion generated by the twist (rotation vector w, velocity v)
pub fn exp_twist(w: &[f64; 3], v: &[f64; 3]) -> Rigid {
    let th = norm3(w);
    let q = if th == 0.0 {
        [1.0, 0.0, 0.0, 0.0]
    } else {
        let (s, c) = (th / 2.0).sin_cos();
        let k = s / th;
        qunit(&[c, k * w[0], k * w[1], k * w[2]])
    };
    let (h, k) = vcoef(th);
    let a = cross(w, v);
    let b = cross(w, &a);
    Rigid { q, t: add3(v, &add3(&scale3(&a, h), &scale3(&b, k))) }
}
impl Rigid {
    /// twist (w, v) generating this motion, with rotation angle 2 atan2(|imag|, real) in [0, 2 pi]
    pub fn twist(&self) -> ([f64; 3], [f64; 3]) {
        let im = [self.q[1], self.q[2], self.q[3]];
        let s = norm3(&im);
        let th = 2.0 * s.atan2(self.q[0]);
        let w = if s == 0.0 { [0.0; 3] } else { scale3(&im, th / s) };
        let a = cross(&w, &self.t);
        let b = cross(&w, &a);
        (w, add3(&self.t, &add3(&scale3(&a, -0.5), &scale3(&b, gcoef(th)))))
    }
    pub fn pow(&self, e: f64) -> Rigid {
        let (w, v) = self.twist();
        exp_twist(&scale3(&w, e), &scale3(&v, e))
    }
}
