//! Every public operation of the crate as an entry of one table, run on
//! generated inputs of three kinds.  The outcome (returned values or a panic)
//! is what configurations, threads, repetitions and precisions are compared on.
use crate::adapt::*;
use crate::gen;
use crate::rng::{hash_str, Rng};
use num::{One, Zero};
use static_math::slices_methods as sm;
use static_math::transformations as tf;
use static_math::utils as ut;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    /// generic values of moderate size, well conditioned, the same values in both precisions
    Tame,
    /// exact special values: zeros, units, axis aligned, quarter turns
    Special,
    /// any finite values: signed zeros, subnormals, huge and tiny magnitudes, mixed
    Hostile,
    /// tame values times a common small factor, so that results cross the thresholds for "zero";
    /// rotations stay tame
    Scaled,
    /// finite values over many magnitudes, any rotation, angles over many turns
    Wide,
}
pub const MODES: [Mode; 5] = [Mode::Tame, Mode::Special, Mode::Hostile, Mode::Scaled, Mode::Wide];

pub struct In<T> {
    r: Rng,
    mode: Mode,
    scale: f64,
    pub log: Vec<f64>,
    /// moves every input by a few rounding errors (how much the result moves is what it can be judged to)
    jitter: Option<(Rng, f64)>,
    _t: std::marker::PhantomData<T>,
}
#[derive(Default, Clone, PartialEq, Debug)]
pub struct Out {
    pub v: Vec<f64>,
}
impl Out {
    fn t<T: El>(&mut self, x: T) {
        self.v.push(x.dd().f())
    }
    fn b(&mut self, x: bool) {
        self.v.push(x as u8 as f64)
    }
    fn n(&mut self, x: usize) {
        self.v.push(x as f64)
    }
    fn s<T: El>(&mut self, x: &[T]) {
        for y in x {
            self.t(*y)
        }
    }
    fn m<M: Ma<T>, T: El>(&mut self, m: &M) {
        for i in 0..M::N {
            for j in 0..M::N {
                self.t(m.at(i, j))
            }
        }
    }
    fn q<T: Fl>(&mut self, q: &Quaternion<T>) {
        self.v.extend(qf(q))
    }
    fn d<T: Fl>(&mut self, q: &DualQuaternion<T>) {
        self.q(&q.real());
        self.q(&q.dual())
    }
}

impl<T: Fl> In<T> {
    pub fn new(seed: u64, name: &str, mode: Mode, idx: u64) -> Self {
        let mut r = Rng::new(seed, hash_str(name) ^ (mode as u64 + 1), idx);
        let scale = if mode == Mode::Scaled { 10f64.powf(-r.range(0.0, 10.0)) } else { 1.0 };
        In { r, mode, scale, log: vec![], jitter: None, _t: std::marker::PhantomData }
    }
    fn put(&mut self, x: f64) -> T {
        let mut y = T::of(if self.mode == Mode::Hostile { x } else { x as f32 as f64 });
        if let Some((r, amp)) = &mut self.jitter {
            let d = r.range(-1.0, 1.0) * *amp * T::EPS;
            let x = y.f();
            let x = if x == 0.0 && r.chance(0.5) { d } else { x * (1.0 + d) };
            if x.abs() < if T::IS32 { f32::MAX as f64 } else { f64::MAX } {
                y = T::of(x);
            }
        }
        self.log.push(y.f());
        y
    }
    fn hostile(&mut self) -> f64 {
        let (minp, max) = if T::IS32 { (f32::MIN_POSITIVE as f64, f32::MAX as f64) } else { (f64::MIN_POSITIVE, f64::MAX) };
        let lim = if T::IS32 { 37.0 } else { 305.0 };
        let r = &mut self.r;
        match r.below(14) {
            0 => 0.0,
            1 => -0.0,
            2 => r.sign() * minp,
            3 => r.sign() * minp * T::EPS,
            4 => r.sign() * minp * r.unit(),
            5 => r.sign() * max,
            6 => r.sign() * max * r.unit(),
            7 | 8 => r.sign() * r.logmag(-lim, lim),
            9 => r.sign(),
            10 => r.sign() * (1.0 + r.int(-3, 3) as f64 * T::EPS),
            11 => r.sign() * std::f64::consts::FRAC_PI_2 * r.int(0, 4) as f64,
            _ => r.range(-3.0, 3.0),
        }
    }
    fn raw(&mut self) -> f64 {
        match self.mode {
            Mode::Tame | Mode::Scaled => self.scale * self.r.sign() * self.r.range(0.3, 3.0),
            Mode::Special => *self.r.pick(&[0.0, 1.0, -1.0, 2.0, -2.0, 0.5, 3.0, 0.0]),
            Mode::Hostile => self.hostile(),
            Mode::Wide => self.r.sign() * if self.r.chance(0.3) { self.r.range(0.3, 3.0) } else { self.r.logmag(-5.0, 5.0) },
        }
    }
    pub fn s(&mut self) -> T {
        let x = self.raw();
        self.put(x)
    }
    fn pos(&mut self) -> T {
        let x = self.raw().abs();
        self.put(x)
    }
    fn ang(&mut self) -> T {
        let x = match self.mode {
            Mode::Tame | Mode::Scaled => self.scale * self.r.sign() * self.r.range(0.2, 1.3),
            Mode::Special => self.r.int(-2, 2) as f64 * std::f64::consts::FRAC_PI_2,
            Mode::Wide => match self.r.below(3) {
                0 => gen::angle(&mut self.r),
                1 => self.r.range(-60.0, 60.0),
                _ => self.r.sign() * self.r.logmag(-9.0, 3.0),
            },
            Mode::Hostile => {
                if self.r.chance(0.5) {
                    gen::angle(&mut self.r)
                } else {
                    self.hostile()
                }
            }
        };
        self.put(x)
    }
    fn tau(&mut self) -> T {
        let x = match self.mode {
            Mode::Tame | Mode::Scaled => self.r.range(0.05, 0.95),
            Mode::Special => *self.r.pick(&[0.0, 1.0, 0.5]),
            Mode::Wide => self.r.unit(),
            Mode::Hostile => {
                if self.r.chance(0.5) {
                    self.r.unit()
                } else {
                    self.hostile()
                }
            }
        };
        self.put(x)
    }
    fn arr(&mut self, n: usize) -> Vec<T> {
        // hostile vectors are often of one magnitude, or sparse
        let kind = self.r.below(4);
        let base = self.raw();
        (0..n)
            .map(|_| {
                let x = match (self.mode, kind) {
                    (Mode::Hostile, 0) => base * self.r.range(-1.0, 1.0),
                    (Mode::Hostile, 1) => {
                        if self.r.chance(0.6) {
                            0.0
                        } else {
                            self.hostile()
                        }
                    }
                    _ => self.raw(),
                };
                self.put(x)
            })
            .collect()
    }
    fn v<V: Ve<T>>(&mut self) -> V {
        let a = self.arr(V::N);
        V::mk(&a)
    }
    fn v3(&mut self) -> V3<T> {
        self.v()
    }
    /// a square matrix; well conditioned when tame
    fn m<M: Ma<T>>(&mut self) -> M {
        let n = M::N;
        let mut a: Vec<f64> = match self.mode {
            Mode::Tame | Mode::Scaled => (0..n * n).map(|_| self.scale * self.r.range(-0.4, 0.4)).collect(),
            Mode::Special => {
                let k = self.r.below(gen::MAT_KINDS);
                match k {
                    1 | 3 | 6 => gen::matrix(&mut self.r, n, k, true).a.iter().map(|x| x.clamp(-4.0, 4.0).round()).collect(),
                    _ => (0..n * n).map(|k| if k % (n + 1) == 0 { 1.0 } else { 0.0 }).collect(),
                }
            }
            Mode::Hostile | Mode::Wide => {
                if self.r.chance(0.4) {
                    let k = self.r.below(gen::MAT_KINDS);
                    gen::matrix(&mut self.r, n, k, T::IS32).a
                } else {
                    return M::mk(&self.arr(n * n));
                }
            }
        };
        if self.mode == Mode::Tame || self.mode == Mode::Scaled {
            for k in 0..n {
                a[k * n + k] += self.scale * self.r.sign() * self.r.range(1.5, 2.5)
            }
        }
        let v: Vec<T> = a.iter().map(|x| self.put(*x)).collect();
        M::mk(&v)
    }
    /// for the LU factorization: no row of zeros (documented domain)
    fn mlu<M: Ma<T>>(&mut self) -> M {
        let n = M::N;
        let a: M = self.m();
        let mut v: Vec<T> = (0..n * n).map(|k| a.at(k / n, k % n)).collect();
        for i in 0..n {
            if v[i * n..(i + 1) * n].iter().all(|x| *x == T::zero()) {
                v[i * n + i] = T::one();
            }
        }
        M::mk(&v)
    }
    fn q4(&mut self) -> [T; 4] {
        let a = self.arr(4);
        [a[0], a[1], a[2], a[3]]
    }
    fn q(&mut self) -> Quaternion<T> {
        let a = self.q4();
        Quaternion::new_from(a[0], a[1], a[2], a[3])
    }
    /// non-zero unit-size quaternion (documented domain of ln, sqrt, pow, division)
    fn nq(&mut self) -> Quaternion<T> {
        if (self.mode != Mode::Hostile && self.mode != Mode::Wide) || self.r.chance(0.5) {
            return self.uq();
        }
        self.q()
    }
    fn unit4(&mut self) -> [f64; 4] {
        match self.mode {
            Mode::Tame | Mode::Scaled => {
                // away from the identity, from half turns and from the coordinate planes
                let s = [self.r.sign(), self.r.sign(), self.r.sign(), self.r.sign()];
                let a: Vec<f64> = s.iter().map(|s| s * self.r.range(0.3, 1.0)).collect();
                crate::qref::qunit(&[a[0].abs(), a[1], a[2], a[3]])
            }
            Mode::Special => {
                let mut q = [0.0; 4];
                if self.r.chance(0.7) {
                    q[self.r.below(4)] = 1.0;
                } else {
                    q = [0.5, 0.5, 0.5, 0.5];
                }
                q
            }
            Mode::Hostile | Mode::Wide => gen::unitq(&mut self.r),
        }
    }
    fn uq(&mut self) -> Quaternion<T> {
        let u = self.unit4();
        let flag = self.r.chance(0.5);
        let w: Vec<T> = u.iter().map(|x| self.put(*x)).collect();
        let q = Quaternion::new_from(w[0], w[1], w[2], w[3]);
        if flag {
            q.normalize().unwrap_or(q)
        } else {
            q
        }
    }
    /// unit dual quaternion made from a rotation and a translation by the crate's constructor
    fn udq(&mut self) -> DualQuaternion<T> {
        let q = self.uq();
        let t = self.v3();
        DualQuaternion::new_from_rot_trans(&q, &t)
    }
    fn dq(&mut self) -> DualQuaternion<T> {
        let (a, b) = (self.q(), self.q());
        DualQuaternion::new(a, b)
    }
    /// rotation matrix (rounded), or in the hostile mode sometimes anything
    fn rot(&mut self) -> M33<T> {
        if self.mode == Mode::Hostile && self.r.chance(0.3) {
            return self.m();
        }
        let u = self.unit4();
        let a = crate::qref::qmat(&u);
        let v: Vec<T> = a.a.iter().map(|x| self.put(*x)).collect();
        M33::mk(&v)
    }
    fn se3(&mut self) -> M44<T> {
        if self.mode == Mode::Hostile && self.r.chance(0.3) {
            return self.m();
        }
        let r = self.rot();
        let t = self.v3();
        let (o, l) = (T::zero(), T::one());
        M44::new([[r[(0, 0)], r[(0, 1)], r[(0, 2)], t[0]], [r[(1, 0)], r[(1, 1)], r[(1, 2)], t[1]], [r[(2, 0)], r[(2, 1)], r[(2, 2)], t[2]], [o, o, o, l]])
    }
    fn axis(&mut self) -> V3<T> {
        let a = match self.mode {
            Mode::Tame | Mode::Scaled => {
                let s = [self.r.sign(), self.r.sign(), self.r.sign()];
                let a: Vec<f64> = s.iter().map(|s| s * self.r.range(0.3, 1.0)).collect();
                let n = crate::qref::norm3(&[a[0], a[1], a[2]]);
                [a[0] / n, a[1] / n, a[2] / n]
            }
            Mode::Special => {
                let mut a = [0.0; 3];
                a[self.r.below(3)] = 1.0;
                a
            }
            Mode::Hostile | Mode::Wide => gen::axis(&mut self.r),
        };
        let v: Vec<T> = a.iter().map(|x| self.put(*x)).collect();
        V3::new_from(v[0], v[1], v[2])
    }
    /// |dot product| of two logged quaternions (the same number in both precisions)
    fn logdot(&self, i: usize, j: usize) -> f64 {
        (0..4).map(|k| self.log[i + k] * self.log[j + k]).sum::<f64>().abs()
    }
    fn slice(&mut self, min: usize) -> Vec<T> {
        let n = min + self.r.below(9);
        self.arr(n)
    }
}

/// what is not asked of an operation
pub const NO32: u8 = 1; // single precision does not follow double precision (thresholds at the type's epsilon)
pub const NOSPECIAL: u8 = 2; // discontinuous at special values: not compared there between elementary function libraries
pub const NOCMP: u8 = 4; // yes/no at a threshold on rounded inputs
pub const INF: u8 = 8; // an infinite result is part of the contract

/// a result that cancels exactly here and to rounding there, times an unbounded factor: other builds are not compared on wide inputs
pub const NOWIDE: u8 = 32;
pub const NO32S: u8 = 16; // on special inputs single precision need not follow (pivots that cancel to rounding)

pub struct Op<T: 'static> {
    pub name: &'static str,
    pub flags: u8,
    pub f: fn(&mut In<T>, &mut Out),
}

macro_rules! op {
    ($v:ident, $n:expr, $f:expr) => {
        $v.push(Op { name: $n, flags: 0, f: $f })
    };
    ($v:ident, $n:expr, $fl:expr, $f:expr) => {
        $v.push(Op { name: $n, flags: $fl, f: $f })
    };
}

macro_rules! sized {
    ($v:ident, $M:ident, $V:ident, $vs:expr, $ms:expr) => {
        // vectors
        op!($v, concat!($vs, "::new,zeros,ones,Deref,is_zero"), |g, o| {
            let a: $V<T> = g.v();
            o.s(&*a);
            o.s(&*$V::<T>::zeros());
            o.s(&*$V::<T>::ones());
            o.s(&*$V::<T>::zero());
            o.b(a.is_zero());
            o.b(a == a);
        });
        op!($v, concat!($vs, " arithmetic"), |g, o| {
            let (a, b): ($V<T>, $V<T>) = (g.v(), g.v());
            let s = g.s();
            o.s(&*(a + b));
            o.s(&*(a - b));
            o.s(&*(-a));
            o.s(&*(a * s));
            let (mut c, mut d) = (a, a);
            c += b;
            d -= b;
            o.s(&*c);
            o.s(&*d);
        });
        op!($v, concat!($vs, " / scalar"), |g, o| {
            let a: $V<T> = g.v();
            o.s(&*(a / g.s()));
        });
        op!($v, concat!($vs, " dot"), |g, o| {
            let (a, b): ($V<T>, $V<T>) = (g.v(), g.v());
            o.t(a * b);
        });
        op!($v, concat!($vs, " * matrix"), |g, o| {
            let a: $V<T> = g.v();
            let m: $M<T> = g.m();
            o.s(&*(a * m));
        });
        op!($v, concat!($vs, "::norms"), |g, o| {
            let a: $V<T> = g.v();
            o.t(a.norm2());
            o.t(a.norm_l());
            o.t(a.norm_inf());
        });
        op!($v, concat!($vs, "::normalize"), |g, o| {
            let a: $V<T> = g.v();
            #[allow(unused_mut)]
            let mut b = a;
            match b.normalize() {
                Ok(n) => o.s(&*n),
                Err(_) => o.n(77),
            }
            // by-reference input unchanged
            o.b((0..$V::<T>::N).all(|i| a[i].f().to_bits() == b[i].f().to_bits()));
        });
        // matrices
        op!($v, concat!($ms, " access"), |g, o| {
            let m: $M<T> = g.m();
            o.m(&m);
            o.s(&m.as_vec());
            o.s(&*m.get_diagonal());
            for r in m.get_rows().iter() {
                o.s(&**r);
            }
            for r in m.get_cols().iter() {
                o.s(&**r);
            }
            o.m(&$M::new_from_vecs(m.get_cols()));
            for i in 0..$M::<T>::N {
                o.s(&m[i]);
                o.t(m[(i, 0)]);
            }
            o.s(&m.upper_().unwrap_or_default());
            o.s(&m.lower_().unwrap_or_default());
            o.m(&m.for_each(|x| x + x));
            let mut k = m;
            k[(1, 0)] = T::one();
            k[0][1] = T::one();
            o.m(&k);
            o.n(LinearAlgebra::<T>::rows(&m) * 10 + LinearAlgebra::<T>::cols(&m));
            o.n(m.shape().0);
            o.b(m == m);
        });
        op!($v, concat!($ms, " constants"), |_g, o| {
            o.m(&$M::<T>::identity());
            o.m(&$M::<T>::zeros());
            o.m(&$M::<T>::zero());
            o.m(&$M::<T>::one());
            o.b($M::<T>::zero().is_zero());
            o.b($M::<T>::one().is_zero());
        });
        op!($v, concat!($ms, " arithmetic"), |g, o| {
            let (a, b): ($M<T>, $M<T>) = (g.m(), g.m());
            let s = g.s();
            o.m(&(a + b));
            o.m(&(a - b));
            o.m(&(-a));
            o.m(&(a * s));
            let (mut c, mut d) = (a, a);
            c += b;
            d -= b;
            o.m(&c);
            o.m(&d);
        });
        op!($v, concat!($ms, " / scalar"), |g, o| {
            let a: $M<T> = g.m();
            o.m(&(a / g.s()));
        });
        op!($v, concat!($ms, " product"), |g, o| {
            let (a, b): ($M<T>, $M<T>) = (g.m(), g.m());
            o.m(&(a * b));
        });
        op!($v, concat!($ms, " * vector"), |g, o| {
            let a: $M<T> = g.m();
            let v: $V<T> = g.v();
            o.s(&*(a * v));
        });
        op!($v, concat!($ms, "::transpose,trace,norm2"), |g, o| {
            let a: $M<T> = g.m();
            o.m(&a.transpose());
            o.t(a.trace());
            o.t(a.norm2());
        });
        op!($v, concat!($ms, "::det"), |g, o| {
            let a: $M<T> = g.m();
            o.t(a.det());
        });
        op!($v, concat!($ms, "::inverse"), |g, o| {
            let a: $M<T> = g.m();
            match a.inverse() {
                Some(x) => o.m(&x),
                None => o.n(77),
            }
        });
        op!($v, concat!($ms, "::qr"), |g, o| {
            let a: $M<T> = g.m();
            match a.qr() {
                Some((q, r)) => {
                    o.m(&q);
                    o.m(&r)
                }
                None => o.n(77),
            }
        });
        op!($v, concat!($ms, "::lu"), NO32S, |g, o| {
            let a: $M<T> = g.mlu();
            let (l, d, p) = a.lu();
            o.m(&l);
            o.t(d);
            for k in p.iter() {
                o.n(*k);
            }
        });
        op!($v, concat!($ms, " Display"), NO32 | NOCMP, |g, o| {
            let (a, v): ($M<T>, $V<T>) = (g.m(), g.v());
            o.n((hash_str(&format!("{}{}", a, v)) >> 32) as usize);
        });
    };
}

pub fn ops<T: Fl>() -> Vec<Op<T>> {
    let mut v: Vec<Op<T>> = vec![];
    sized!(v, M22, V2, "V2", "M22");
    sized!(v, M33, V3, "V3", "M33");
    sized!(v, M44, V4, "V4", "M44");
    sized!(v, M55, V5, "V5", "M55");
    sized!(v, M66, V6, "V6", "M66");
    op!(v, "M22::real_eigenvals", |g, o| {
        // a symmetric matrix has real eigenvalues
        let (a, b, d) = (g.s(), g.s(), g.s());
        match M22::new_from(a, b, b, d).real_eigenvals() {
            Some(e) => o.s(&*e),
            None => o.n(77),
        }
        let m: M22<T> = g.m();
        if g.mode == Mode::Hostile {
            match m.real_eigenvals() {
                Some(e) => o.s(&*e),
                None => o.n(77),
            }
        }
    });
    op!(v, "M44::get_submatrix", |g, o| {
        let m: M44<T> = g.m();
        for i in 0..4 {
            for j in 0..4 {
                o.m(&m.get_submatrix((i, j)));
            }
        }
    });
    op!(v, "M66::copy_elements_from", |g, o| {
        let mut m: M66<T> = g.m();
        let s: M33<T> = g.m();
        let q = 1 + g.r.below(4);
        m.copy_elements_from(&s, q);
        o.m(&m);
    });
    op!(v, "V3::cross,axes", |g, o| {
        let (a, b) = (g.v3(), g.v3());
        o.s(&*a.cross(b));
        o.s(&*V3::<T>::x_axis());
        o.s(&*V3::<T>::y_axis());
        o.s(&*V3::<T>::z_axis());
    });
    op!(v, "From arrays", |g, o| {
        let a = g.q4();
        o.s(&*V2::from([a[0], a[1]]));
        o.s(&*V3::from([a[0], a[1], a[2]]));
        o.s(&*V4::from(a));
        o.s(&*V5::from([a[0], a[1], a[2], a[3], a[0]]));
        o.s(&*V6::from([a[0], a[1], a[2], a[3], a[0], a[1]]));
        o.m(&M22::from([[a[0], a[1]], [a[2], a[3]]]));
        o.m(&M33::from([[a[0], a[1], a[2]]; 3]));
        o.m(&M44::from([a; 4]));
        o.m(&M55::from([[a[0], a[1], a[2], a[3], a[0]]; 5]));
        o.m(&M66::from([[a[0], a[1], a[2], a[3], a[0], a[1]]; 6]));
        o.q(&Quaternion::from(a));
        o.q(&Quaternion::new_from_vec(&V4::from(a)));
    });
    // ---- quaternions
    op!(v, "Quaternion access", |g, o| {
        let q = g.q();
        let p = g.v3();
        o.t(q.real());
        o.s(&*q.imag());
        o.q(&Quaternion::<T>::one());
        o.q(&Quaternion::<T>::zero());
        o.q(&Quaternion::new_real(p[0]));
        o.q(&Quaternion::new_imag(&p));
        o.q(&Quaternion::new(p[1], p));
        o.q(&q.conj());
        o.b(q == q);
        o.b(Zero::is_zero(&q));
    });
    op!(v, "Quaternion arithmetic", |g, o| {
        let (p, q) = (g.q(), g.q());
        let s = g.s();
        o.q(&(p + q));
        o.q(&(p - q));
        o.q(&(-p));
        o.q(&(p * s));
        o.t(p.dot(q));
        o.t(p.abs2());
    });
    op!(v, "Quaternion product", |g, o| {
        let (p, q) = (g.q(), g.q());
        o.q(&(p * q));
    });
    op!(v, "Quaternion / scalar", |g, o| {
        let q = g.q();
        o.q(&(q / g.s()));
    });
    op!(v, "Quaternion / Quaternion", |g, o| {
        let (p, q) = (g.q(), g.nq());
        // documented domain: an invertible divisor
        if q.inverse().is_some() {
            o.q(&(p / q));
        }
    });
    op!(v, "Quaternion::inverse", |g, o| {
        match g.q().inverse() {
            Some(x) => o.q(&x),
            None => o.n(77),
        };
    });
    op!(v, "Quaternion * V3", |g, o| {
        let (q, p) = (g.uq(), g.v3());
        o.s(&*(q * p));
    });
    op!(v, "Quaternion * V3 of any norm", |g, o| {
        let (q, p) = (g.q(), g.v3());
        o.s(&*(q * p));
    });
    op!(v, "Quaternion::to_rotation", |g, o| o.m(&g.uq().to_rotation()));
    op!(v, "Quaternion::from_rotation", |g, o| o.q(&Quaternion::from_rotation(&g.rot())));
    op!(v, "Quaternion::norm2,abs_imag", |g, o| {
        let q = g.q();
        o.t(q.norm2());
        o.t(q.abs_imag());
    });
    op!(v, "Quaternion::normalize", |g, o| {
        let q = g.q();
        match q.normalize() {
            Some(x) => o.q(&x),
            None => o.n(77),
        }
        if q.norm2() > T::epsilon() {
            o.q(&q.normalize_q());
        }
    });
    op!(v, "Quaternion::rotation", |g, o| {
        let (t, a) = (g.ang(), g.axis());
        o.q(&Quaternion::rotation(t, &a));
    });
    op!(v, "Quaternion::rotation_norm_encoded", |g, o| o.q(&Quaternion::rotation_norm_encoded(&g.v3())));
    op!(v, "Quaternion::from_euler_angles", |g, o| {
        let (a, b, c) = (g.ang(), g.ang(), g.ang());
        o.q(&Quaternion::from_euler_angles(a, b, c));
    });
    op!(v, "Quaternion::to_euler_angles", NOSPECIAL, |g, o| {
        let (a, b, c) = g.uq().to_euler_angles();
        o.s(&[a, b, c]);
    });
    op!(v, "Quaternion::get_angle,get_axis,axis_angle", NOSPECIAL, |g, o| {
        let q = g.uq();
        o.t(q.get_angle());
        let (a, t) = q.axis_angle();
        o.t(t);
        for x in [a, q.get_axis()] {
            match x {
                Some(x) => o.s(&*x),
                None => o.n(77),
            }
        }
    });
    op!(v, "Quaternion::argq", |g, o| o.q(&g.q().argq()));
    op!(v, "Quaternion::exp", |g, o| o.q(&g.q().exp()));
    op!(v, "Quaternion::ln", |g, o| o.q(&g.nq().ln()));
    op!(v, "Quaternion::sqrt", |g, o| o.q(&g.nq().sqrt()));
    op!(v, "Quaternion::pow", |g, o| {
        let (p, q) = (g.nq(), g.q());
        o.q(&p.pow(q));
    });
    op!(v, "Quaternion::sin,cos", |g, o| {
        let q = g.q();
        o.q(&q.sin());
        o.q(&q.cos());
    });
    op!(v, "Quaternion::slerp", NOSPECIAL, |g, o| {
        let (p, q) = (g.uq(), g.uq());
        let mut t = g.tau();
        let c = g.logdot(0, 4);
        if (g.mode == Mode::Tame || g.mode == Mode::Scaled) && (c > 0.9 || c < 0.05) {
            t = T::zero();
        }
        o.q(&Quaternion::slerp(p, q, t));
    });
    op!(v, "Quaternion::derivative", |g, o| {
        let (q, w) = (g.uq(), g.v3());
        o.q(&q.derivative(&w));
    });
    op!(v, "Quaternion Display", NO32 | NOCMP, |g, o| {
        let q = g.q();
        let d = g.dq();
        o.n((hash_str(&format!("{}{}", q, d)) >> 32) as usize);
    });
    // ---- dual quaternions
    op!(v, "DualQuaternion access", |g, o| {
        let d = g.dq();
        let (a, b) = (g.q4(), g.q4());
        o.q(&d.real());
        o.q(&d.dual());
        o.d(&DualQuaternion::<T>::one());
        o.d(&DualQuaternion::<T>::zero());
        o.d(&DualQuaternion::new_from_vecs(&V4::from(a), &V4::from(b)));
        o.d(&d.conj());
        o.d(&d.conj_as_dual());
        o.d(&d.conj_combined());
        o.b(d == d);
        o.b(Zero::is_zero(&d));
    });
    op!(v, "DualQuaternion arithmetic", |g, o| {
        let (p, q) = (g.dq(), g.dq());
        let s = g.s();
        o.d(&(p + q));
        o.d(&(p - q));
        o.d(&(-p));
        o.d(&(p * s));
    });
    op!(v, "DualQuaternion product", |g, o| {
        let (p, q) = (g.dq(), g.dq());
        o.d(&(p * q));
    });
    op!(v, "DualQuaternion norm", |g, o| o.d(&g.dq().norm()));
    op!(v, "DualQuaternion::inverse", |g, o| {
        let (p, q) = (g.udq(), g.dq());
        o.d(&p.inverse());
        if q.real().inverse().is_some() {
            o.d(&q.inverse());
        }
    });
    op!(v, "DualQuaternion / DualQuaternion", |g, o| {
        let (p, q) = (g.dq(), g.udq());
        o.d(&(p / q));
    });
    op!(v, "DualQuaternion::normalize", |g, o| match g.dq().normalize() {
        Some(x) => o.d(&x),
        None => o.n(77),
    });
    op!(v, "DualQuaternion::is_normalized", NO32 | NOCMP, |g, o| {
        let d = g.dq();
        o.b(d.is_normalized());
        o.b(g.udq().is_normalized());
    });
    op!(v, "DualQuaternion constructors", |g, o| {
        let (q, t) = (g.uq(), g.v3());
        o.d(&DualQuaternion::new_from_rotation(&q));
        o.d(&DualQuaternion::new_from_point(&t));
        o.d(&DualQuaternion::new_from_translation(&t));
        o.d(&DualQuaternion::new_from_rot_trans(&q, &t));
        let w = qf(&q);
        o.d(&DualQuaternion::new_from_array([T::of(w[0]), T::of(w[1]), T::of(w[2]), T::of(w[3]), t[0], t[1], t[2]]));
    });
    op!(v, "DualQuaternion from matrices", |g, o| {
        o.d(&DualQuaternion::new_from_homogeneous(&g.se3()));
        o.d(&DualQuaternion::new_from_rotation_matrix(&g.rot()));
    });
    op!(v, "DualQuaternion::to_homogeneous", |g, o| o.m(&g.udq().to_homogeneous()));
    op!(v, "DualQuaternion parts", |g, o| {
        let d = g.udq();
        let (r, t) = d.to_rotation_translation();
        o.m(&r);
        o.s(&*t);
        o.s(&*d.get_translation());
        let (q, t) = d.to_quaternion_translation();
        o.q(&q);
        o.s(&*t);
    });
    op!(v, "DualQuaternion::transform_point", |g, o| {
        let (d, p) = (g.udq(), g.v3());
        o.s(&*d.transform_point(&p));
    });
    op!(v, "DualQuaternion::get_screw_parameters", NOSPECIAL | NOWIDE, |g, o| {
        let (l, m, t, d) = g.udq().get_screw_parameters();
        o.s(&*l);
        o.s(&*m);
        o.t(t);
        o.t(d);
    });
    op!(v, "DualQuaternion::new_from_screw_parameters", |g, o| {
        let (l, m) = (g.axis(), g.v3());
        let (t, d) = (g.ang(), g.s());
        o.d(&DualQuaternion::new_from_screw_parameters(&l, &m, t, d));
    });
    op!(v, "DualQuaternion::pow", NOSPECIAL, |g, o| {
        let (d, e) = (g.udq(), g.tau());
        o.d(&d.pow(e));
    });
    op!(v, "DualQuaternion::log", NO32 | NOSPECIAL | NOCMP, |g, o| match g.udq().log() {
        Some(x) => o.d(&x),
        None => o.n(77),
    });
    op!(v, "DualQuaternion::screw_lerp", NOSPECIAL, |g, o| {
        let (a, b) = (g.udq(), g.udq());
        let mut t = g.tau();
        // generic pairs only: the arc's choice flips where the real parts are orthogonal
        let c = g.logdot(0, 7);
        if (g.mode == Mode::Tame || g.mode == Mode::Scaled) && (c < 0.1 || c > 0.9) {
            t = T::zero();
        }
        o.d(&DualQuaternion::screw_lerp(&a, &b, t));
    });
    // ---- transformations
    op!(v, "rot2,rotx,roty,rotz", |g, o| {
        let a = g.ang();
        o.m(&tf::rot2(a));
        o.m(&tf::rotx(a));
        o.m(&tf::roty(a));
        o.m(&tf::rotz(a));
    });
    op!(v, "euler_to_rotation", |g, o| {
        let (a, b, c) = (g.ang(), g.ang(), g.ang());
        use tf::EulerSeq::*;
        for s in [None, Some(XYX), Some(XYZ), Some(XZX), Some(XZY), Some(YXY), Some(YXZ), Some(YZX), Some(YZY), Some(ZXY), Some(ZXZ)] {
            o.m(&tf::euler_to_rotation(a, b, c, s));
        }
    });
    op!(v, "rotation_to_euler", NOSPECIAL, |g, o| {
        let (a, b, c) = tf::rotation_to_euler(&g.rot());
        o.s(&[a, b, c]);
    });
    op!(v, "homogeneous builders and parts", |g, o| {
        let (r, p, q) = (g.rot(), g.v3(), g.uq());
        o.m(&tf::homogeneous_from_rotation(&r, &p));
        o.m(&tf::se3_from_parts(&r, &p));
        o.m(&tf::homogeneous_from_quaternion(&q, &p));
        let h = g.se3();
        let (a, b) = tf::se3_get_parts(&h);
        o.m(&a);
        o.s(&*b);
        let (a, b) = tf::get_parts_raw(&h);
        o.m(&a);
        o.s(&*b);
    });
    op!(v, "get_parts", |g, o| {
        let (q, b) = tf::get_parts(&g.se3());
        o.q(&q);
        o.s(&*b);
    });
    op!(v, "homogeneous_inverse", |g, o| {
        let (h, p) = (g.se3(), g.v3());
        o.m(&tf::homogeneous_inverse(&h));
        o.s(&*tf::homogeneous_inverse_transform(&h, &p));
    });
    op!(v, "rotation_inverse", |g, o| o.m(&tf::rotation_inverse(&g.rot())));
    op!(v, "skew and vex", |g, o| {
        let w = g.v3();
        o.m(&tf::skew_from_vec(&w));
        o.s(&*tf::skew_to_vec(&g.m()));
        let s = g.s();
        o.m(&tf::skew_scalar(s));
        o.t(tf::vex_m22(&g.m()));
        o.m(&tf::skew_from_vec_aug(w));
        let x: V6<T> = g.v();
        o.m(&tf::skew_v6(x));
        o.m(&tf::twist_to_se3(&x));
        o.s(&*tf::se3_to_twist(&g.m()));
    });
    op!(v, "ksi,translation", |g, o| {
        let (a, x, y, z) = (g.ang(), g.s(), g.s(), g.s());
        o.m(&tf::ksi(a, x, y));
        o.m(&tf::translation_2d(x, y));
        o.m(&tf::translation_3d(x, y, z));
    });
    op!(v, "axis_angle", |g, o| {
        let w = g.v3();
        // documented domain: a vector with a direction
        if w.norm2() > T::zero() {
            let (a, t) = tf::axis_angle(&w);
            o.s(&*a);
            o.t(t);
        }
    });
    op!(v, "axis_angle6", |g, o| {
        let w: V6<T> = g.v();
        if w.norm2() > T::zero() {
            let (a, t) = tf::axis_angle6(&w);
            o.s(&*a);
            o.t(t);
        }
    });
    op!(v, "rotation_from_axis_angle", |g, o| {
        let (a, t) = (g.axis(), g.ang());
        o.m(&tf::rotation_from_axis_angle(&a, t));
    });
    op!(v, "matrix_exponential", |g, o| {
        let w = g.v3();
        o.m(&tf::matrix_exponential(&tf::skew_from_vec(&w)));
        if g.mode == Mode::Hostile {
            o.m(&tf::matrix_exponential(&g.m()));
        }
    });
    op!(v, "matrix_log", NOSPECIAL, |g, o| o.m(&tf::matrix_log(&g.rot())));
    op!(v, "matrix_exponential6", |g, o| {
        let w: V6<T> = g.v();
        o.m(&tf::matrix_exponential6(&tf::twist_to_se3(&w)));
        if g.mode == Mode::Hostile {
            o.m(&tf::matrix_exponential6(&g.m()));
        }
    });
    op!(v, "matrix_log6", NOSPECIAL, |g, o| o.m(&tf::matrix_log6(&g.se3())));
    op!(v, "adjoint", |g, o| o.m(&tf::adjoint(&g.se3())));
    op!(v, "screw_to_axis", |g, o| {
        let (q, s) = (g.v3(), g.axis());
        let h = g.s();
        o.s(&*tf::screw_to_axis(&q, &s, h));
    });
    op!(v, "distance_to_manifold", INF, |g, o| {
        o.t(tf::distance_to_manifold(&g.m()));
        if g.mode != Mode::Tame {
            o.t(tf::distance_to_manifold(&g.rot()));
        }
    });
    // ---- utils
    op!(v, "nearly_equal,nearly_zero,compare", NO32 | NOCMP, |g, o| {
        let (a, b, e) = (g.s(), g.s(), g.pos());
        o.b(ut::nearly_equal(a, b, e));
        o.b(ut::nearly_equal(a, a, e));
        o.b(ut::nearly_zero(a));
        o.b(ut::compare_floats(a, b, e));
        let (x, y) = (g.arr(5), g.arr(5));
        o.b(ut::compare_vecs(&x, &y, e));
        let (p, q) = (g.dq(), g.dq());
        o.b(ut::compare_dual_quaternions(p, q, e));
        o.b(ut::compare_dual_quaternions(p, p, e));
    });
    op!(v, "is_rotation", NO32 | NOCMP, |g, o| {
        o.b(ut::is_rotation(g.m()));
        o.b(ut::is_rotation(g.rot()));
        o.b(ut::is_rotation_h(g.m()));
        o.b(ut::is_rotation_h(g.se3()));
    });
    // ---- slices
    op!(v, "find_max_min", |g, o| {
        let s = g.slice(1);
        let r = sm::find_max_min(&s);
        o.t(r.max.0);
        o.n(r.max.1);
        o.t(r.min.0);
        o.n(r.min.1);
    });
    op!(v, "slice norms", |g, o| {
        let s = g.slice(0);
        o.t(sm::norm_inf(&s));
        o.t(sm::norm_l(&s));
        o.t(sm::norm2(&s));
    });
    op!(v, "slice dot,project", |g, o| {
        let s = g.slice(1);
        let t = g.arr(s.len());
        o.t(sm::dot(&s, &t));
        if g.mode != Mode::Tame || sm::norm2(&t) > T::epsilon() {
            o.t(sm::project_x_over_y(&s, &t));
        }
    });
    op!(v, "slice normalize", |g, o| {
        let mut s = g.slice(1);
        sm::normalize(&mut s);
        o.s(&s);
    });
    op!(v, "check_elements", NO32 | NOCMP, |g, o| {
        let s = g.slice(0);
        o.b(sm::check_elements(&s, T::epsilon()));
    });
    v
}

/// scalar on the left exists for some concrete types only
pub fn ops_left32() -> Vec<Op<f32>> {
    let mut v: Vec<Op<f32>> = vec![];
    op!(v, "f32 * vectors and matrices", |g, o| {
        let s = g.s();
        o.s(&*(s * g.v::<V2<f32>>()));
        o.s(&*(s * g.v::<V3<f32>>()));
        o.s(&*(s * g.v::<V4<f32>>()));
        o.s(&*(s * g.v::<V5<f32>>()));
        o.s(&*(s * g.v::<V6<f32>>()));
        o.m(&(s * g.m::<M22<f32>>()));
        o.m(&(s * g.m::<M33<f32>>()));
    });
    v
}
pub fn ops_left64() -> Vec<Op<f64>> {
    let mut v: Vec<Op<f64>> = vec![];
    op!(v, "f64 * V3, M33", |g, o| {
        let s = g.s();
        o.s(&*(s * g.v::<V3<f64>>()));
        o.m(&(s * g.m::<M33<f64>>()));
    });
    v
}
pub fn all64() -> Vec<Op<f64>> {
    let mut v = ops();
    v.extend(ops_left64());
    v
}
pub fn all32() -> Vec<Op<f32>> {
    let mut v = ops();
    v.extend(ops_left32());
    v
}

pub type Outcome = Result<Out, String>;

/// one execution; Err carries the panic's message and place
pub fn exec<T: Fl>(op: &Op<T>, seed: u64, mode: Mode, idx: u64) -> (Outcome, Vec<f64>) {
    exec_moved(op, seed, mode, idx, None)
}
/// the same on draws given from outside
pub fn exec_on<T: Fl>(op: &Op<T>, r: &mut Rng, mode: Mode) -> (Outcome, Vec<f64>) {
    let scale = if mode == Mode::Scaled { 10f64.powf(-r.range(0.0, 10.0)) } else { 1.0 };
    let mut g = In { r: std::mem::replace(r, Rng::new(0, 0, 0)), mode, scale, log: vec![], jitter: None, _t: std::marker::PhantomData };
    let mut o = Out::default();
    let x = catch_unwind(AssertUnwindSafe(|| (op.f)(&mut g, &mut o)));
    *r = g.r;
    match x {
        Ok(()) => (Ok(o), g.log),
        Err(_) => (Err(crate::monitor::take_panic()), g.log),
    }
}
fn exec_moved<T: Fl>(op: &Op<T>, seed: u64, mode: Mode, idx: u64, jitter: Option<(Rng, f64)>) -> (Outcome, Vec<f64>) {
    let mut g = In::new(seed, op.name, mode, idx);
    g.jitter = jitter;
    let mut o = Out::default();
    let r = catch_unwind(AssertUnwindSafe(|| (op.f)(&mut g, &mut o)));
    match r {
        Ok(()) => (Ok(o), g.log),
        Err(_) => (Err(crate::monitor::take_panic()), g.log),
    }
}

pub fn same_bits(a: &Outcome, b: &Outcome) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x.v.len() == y.v.len() && x.v.iter().zip(&y.v).all(|(p, q)| p.to_bits() == q.to_bits() || (p.is_nan() && q.is_nan())),
        (Err(_), Err(_)) => true,
        _ => false,
    }
}

/// distance of two outcomes over the size of the values (infinite when they differ in kind)
pub fn distance(a: &Outcome, b: &Outcome) -> f64 {
    match (a, b) {
        (Ok(x), Ok(y)) => {
            if x.v.len() != y.v.len() {
                return f64::INFINITY;
            }
            let s = x.v.iter().filter(|x| x.is_finite()).fold(1.0f64, |s, x| s.max(x.abs()));
            let mut d: f64 = 0.0;
            for (p, q) in x.v.iter().zip(&y.v) {
                if p == q || (p.is_nan() && q.is_nan()) {
                    continue;
                }
                let e = (p - q).abs();
                d = d.max(if e.is_nan() { f64::INFINITY } else { e / s });
            }
            d
        }
        (Err(_), Err(_)) => 0.0,
        _ => f64::INFINITY,
    }
}

/// How far the outcome in another build is from this one, relative to what a few rounding errors
/// in the inputs change (1 is the limit); None where those already change the kind of outcome.
pub fn agreement<T: Fl>(op: &Op<T>, seed: u64, mode: Mode, idx: u64, here: &Outcome, there: &Outcome) -> Option<f64> {
    if same_bits(here, there) {
        return Some(0.0);
    }
    let kind = |o: &Outcome| -> Option<Vec<u8>> { o.as_ref().ok().map(|x| x.v.iter().map(|v| if v.is_nan() { 1 } else if v.is_infinite() { 2 + (*v > 0.0) as u8 } else { 0 }).collect()) };
    let k = kind(here);
    let mut d: Vec<f64> = vec![0.0; here.as_ref().map_or(0, |x| x.v.len())];
    for j in 0..16u64 {
        let r = Rng::new(seed ^ 0x6a69, hash_str(op.name) ^ j, idx);
        let (o, _) = exec_moved(op, seed, mode, idx, Some((r, [1.0, 4.0, 16.0, 64.0][(j % 4) as usize])));
        if kind(&o) != k {
            return None;
        }
        if let (Ok(o), Ok(h)) = (&o, here) {
            for (d, (p, q)) in d.iter_mut().zip(o.v.iter().zip(&h.v)) {
                if p.is_finite() {
                    *d = d.max((p - q).abs());
                }
            }
        }
    }
    if kind(there) != k {
        return Some(f64::INFINITY);
    }
    let (h, t) = match (here, there) {
        (Ok(h), Ok(t)) => (h, t),
        _ => return Some(0.0),
    };
    let s = h.v.iter().filter(|x| x.is_finite()).fold(0.0f64, |s, x| s.max(x.abs()));
    Some(h.v.iter().zip(&t.v).zip(&d).filter(|((p, _), _)| p.is_finite()).fold(0.0f64, |w, ((p, q), d)| w.max((p - q).abs() / (64.0 * d + 64.0 * T::EPS * s + T::MINP))))
}

/// another build of this crate that runs the same sweep
pub const NO_RETURN: &str = "an operation did not return in";
pub struct Other {
    pub cmd: Vec<String>,
    pub env: Vec<(String, String)>,
    pub name: &'static str,
}
impl Other {
    pub fn exe(path: String, name: &'static str) -> Other {
        // a batch takes well under a second of CPU time: one that burns a minute does not return
        Other { cmd: vec!["sh".into(), "-c".into(), "ulimit -S -t 60; exec \"$0\" \"$@\"".into(), path], env: vec![], name }
    }
    /// the outcomes of cases first..last, op by op
    pub fn outcomes(&self, t: &str, mode: Mode, first: u64, last: u64, seed: u64, nops: usize) -> Result<Vec<Outcome>, String> {
        let mi = MODES.iter().position(|m| *m == mode).unwrap();
        let o = std::process::Command::new(&self.cmd[0])
            .args(&self.cmd[1..])
            .args([t, &mi.to_string(), &first.to_string(), &last.to_string(), &seed.to_string(), &crate::dict::export()])
            .envs(self.env.iter().cloned())
            .stdin(std::process::Stdio::null())
            .output()
            .map_err(|e| format!("cannot run {}: {}", self.cmd[0], e))?;
        if !o.status.success() {
            let e = String::from_utf8_lossy(&o.stderr);
            use std::os::unix::process::ExitStatusExt;
            if o.status.signal() == Some(24) || e.contains("overflowed its stack") {
                return Err(format!("{} {} ({} cases {}..{}): {:?} {}", NO_RETURN, self.name, t, first, last, o.status, e.chars().take(300).collect::<String>()));
            }
            return Err(format!("{} ended with {:?}: {}", self.name, o.status, e.chars().take(2000).collect::<String>()));
        }
        let b = &o.stdout;
        let (mut k, mut v) = (0, vec![]);
        while k + 5 <= b.len() {
            let n = u32::from_le_bytes([b[k + 1], b[k + 2], b[k + 3], b[k + 4]]) as usize;
            let tag = b[k];
            k += 5;
            if tag == 0 {
                let mut x = vec![];
                for i in 0..n {
                    let mut c = [0; 8];
                    c.copy_from_slice(&b[k + 8 * i..k + 8 * i + 8]);
                    x.push(f64::from_bits(u64::from_le_bytes(c)));
                }
                k += 8 * n;
                v.push(Ok(Out { v: x }));
            } else {
                v.push(Err(String::from_utf8_lossy(&b[k..k + n]).to_string()));
                k += n;
            }
        }
        if v.len() as u64 != (last - first) * nops as u64 {
            return Err(format!("{} gave {} outcomes, {} expected", self.name, v.len(), (last - first) * nops as u64));
        }
        Ok(v)
    }
}
