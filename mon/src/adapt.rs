//! Uniform access to the crate's value types, so one oracle covers all sizes
//! and element types.  Values are built with `new` and read through `Deref`.
use crate::dd::Dd;
use crate::refm::Rm;
use num::traits::FloatConst;
use num::{Float, Num, Signed, Zero};
pub use static_math::traits::LinearAlgebra;
pub use static_math::{DualQuaternion, Quaternion, M22, M33, M44, M55, M66, V2, V3, V4, V5, V6};
use std::fmt::Debug;
use std::ops::*;

/// element types
pub trait El: Num + Copy + PartialOrd + Debug + 'static {
    const NAME: &'static str;
    const FLOAT: bool;
    const SIGNED: bool;
    /// rounding unit (0 for integers) and smallest normal
    const U: f64;
    const TINY: f64;
    /// entries up to this size never overflow in a 6-term product sum
    const SMALL: i64;
    fn dd(self) -> Dd;
    fn i(self) -> i128;
    fn of_i(v: i64) -> Self;
}
macro_rules! el_int { ($($t:ty, $s:expr, $sm:expr);*) => {$(
    impl El for $t {
        const NAME: &'static str = stringify!($t);
        const FLOAT: bool = false;
        const SIGNED: bool = $s;
        const U: f64 = 0.0;
        const TINY: f64 = 0.0;
        const SMALL: i64 = $sm;
        fn dd(self) -> Dd { Dd::from_i128(self as i128) }
        fn i(self) -> i128 { self as i128 }
        fn of_i(v: i64) -> Self { v as $t }
    })*}
}
el_int!(i8, true, 4; i16, true, 60; i32, true, 15000; i64, true, 1_000_000_000; i128, true, 1_000_000_000; u8, false, 6; u16, false, 100; u32, false, 26000; u64, false, 1_700_000_000);
macro_rules! el_f { ($($t:ident),*) => {$(
    impl El for $t {
        const NAME: &'static str = stringify!($t);
        const FLOAT: bool = true;
        const SIGNED: bool = true;
        const U: f64 = $t::EPSILON as f64;
        const TINY: f64 = $t::MIN_POSITIVE as f64;
        const SMALL: i64 = 1000;
        fn dd(self) -> Dd { Dd::new(self as f64) }
        fn i(self) -> i128 { self as i128 }
        fn of_i(v: i64) -> Self { v as $t }
    })*}
}
el_f!(f32, f64);

/// floating element types
pub trait Fl: El + Float + FloatConst + Signed + std::iter::Sum + std::fmt::Display + Send + Sync + Default {
    const EPS: f64;
    /// smallest normal
    const MINP: f64;
    const IS32: bool;
    fn of(x: f64) -> Self;
    fn f(self) -> f64;
}
impl Fl for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const MINP: f64 = f32::MIN_POSITIVE as f64;
    const IS32: bool = true;
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
}
impl Fl for f64 {
    const EPS: f64 = f64::EPSILON;
    const MINP: f64 = f64::MIN_POSITIVE;
    const IS32: bool = false;
    fn of(x: f64) -> f64 {
        x
    }
    fn f(self) -> f64 {
        self
    }
}

pub trait Ve<T>:
    Copy + Debug + PartialEq + Zero + Sub<Output = Self> + AddAssign + SubAssign + Mul<T, Output = Self> + Div<T, Output = Self> + Mul<Self, Output = T> + Mul<<Self as Ve<T>>::M, Output = Self>
{
    const N: usize;
    type M;
    fn mk(a: &[T]) -> Self;
    fn sl(&self) -> &[T];
    fn zeros_() -> Self;
    fn ones_() -> Self;
}
pub trait Ma<T>:
    Copy + Debug + PartialEq + Zero + num::One + Sub<Output = Self> + AddAssign + SubAssign + Mul<T, Output = Self> + Div<T, Output = Self> + Mul<<Self as Ma<T>>::V, Output = <Self as Ma<T>>::V>
{
    const N: usize;
    const NAME: &'static str;
    type V: Ve<T, M = Self>;
    fn mk(a: &[T]) -> Self;
    fn at(&self, i: usize, j: usize) -> T;
    fn identity_() -> Self;
    fn zeros_() -> Self;
    fn as_vec_(&self) -> Vec<T>;
    fn from_cols_(c: &[Vec<T>]) -> Self;
    fn diag_(&self) -> Vec<T>;
    fn rows_(self) -> Vec<Vec<T>>;
    fn cols_(self) -> Vec<Vec<T>>;
    fn map_(&self, f: impl Fn(T) -> T) -> Self;
    fn shape_(&self) -> (usize, usize);
    /// through Index<(usize,usize)>
    fn ix2(&self, i: usize, j: usize) -> T;
    fn ix2_set(&mut self, i: usize, j: usize, v: T);
    /// through Index<usize>
    fn ix1(&self, i: usize, j: usize) -> T;
    fn ix1_set(&mut self, i: usize, j: usize, v: T);
    fn upper_(&self) -> Option<Vec<T>>;
    fn lower_(&self) -> Option<Vec<T>>;
}
pub trait Neg1: Sized {
    fn neg1(self) -> Self;
}
/// float-only matrix operations
pub trait MaF<T: Fl>: Ma<T> + LinearAlgebra<T> + Neg<Output = Self> {
    fn lu_(&self) -> (Self, T, Vec<usize>);
    fn norm_(&self) -> T;
    fn vnorm(v: &Self::V) -> T;
    /// Ok(unit vector) / Err, plus the vector after the call
    fn vnormalize(v: &Self::V) -> (Option<Self::V>, Self::V);
}

macro_rules! imp {
    ($M:ident, $V:ident, $n:expr, $up:expr, $lo:expr) => {
        impl<T: El> Ve<T> for $V<T> {
            const N: usize = $n;
            type M = $M<T>;
            fn mk(a: &[T]) -> Self {
                let mut x = [T::zero(); $n];
                x.copy_from_slice(a);
                $V::new(x)
            }
            fn sl(&self) -> &[T] {
                &(**self)[..]
            }
            fn zeros_() -> Self {
                $V::zeros()
            }
            fn ones_() -> Self {
                $V::ones()
            }
        }
        impl<T: El> Ma<T> for $M<T> {
            const N: usize = $n;
            const NAME: &'static str = stringify!($M);
            type V = $V<T>;
            fn mk(a: &[T]) -> Self {
                let mut x = [[T::zero(); $n]; $n];
                for i in 0..$n {
                    for j in 0..$n {
                        x[i][j] = a[i * $n + j];
                    }
                }
                $M::new(x)
            }
            #[inline]
            fn at(&self, i: usize, j: usize) -> T {
                (**self)[i][j]
            }
            fn identity_() -> Self {
                $M::identity()
            }
            fn zeros_() -> Self {
                $M::zeros()
            }
            fn as_vec_(&self) -> Vec<T> {
                self.as_vec().to_vec()
            }
            fn from_cols_(c: &[Vec<T>]) -> Self {
                let mut x = [$V::<T>::zeros(); $n];
                for j in 0..$n {
                    x[j] = $V::<T>::mk(&c[j]);
                }
                $M::new_from_vecs($V::new(x))
            }
            fn diag_(&self) -> Vec<T> {
                self.get_diagonal().to_vec()
            }
            fn rows_(self) -> Vec<Vec<T>> {
                self.get_rows().iter().map(|r| r.to_vec()).collect()
            }
            fn cols_(self) -> Vec<Vec<T>> {
                self.get_cols().iter().map(|r| r.to_vec()).collect()
            }
            fn map_(&self, f: impl Fn(T) -> T) -> Self {
                self.for_each(f)
            }
            fn shape_(&self) -> (usize, usize) {
                (self.rows(), self.cols())
            }
            fn ix2(&self, i: usize, j: usize) -> T {
                self[(i, j)]
            }
            fn ix2_set(&mut self, i: usize, j: usize, v: T) {
                self[(i, j)] = v
            }
            fn ix1(&self, i: usize, j: usize) -> T {
                self[i][j]
            }
            fn ix1_set(&mut self, i: usize, j: usize, v: T) {
                self[i][j] = v
            }
            fn upper_(&self) -> Option<Vec<T>> {
                let f: fn(&$M<T>) -> Option<Vec<T>> = $up;
                f(self)
            }
            fn lower_(&self) -> Option<Vec<T>> {
                let f: fn(&$M<T>) -> Option<Vec<T>> = $lo;
                f(self)
            }
        }
        impl<T: Fl> MaF<T> for $M<T> {
            fn lu_(&self) -> (Self, T, Vec<usize>) {
                let (a, d, p) = self.lu();
                (a, d, p.to_vec())
            }
            fn norm_(&self) -> T {
                self.norm2()
            }
            fn vnorm(v: &$V<T>) -> T {
                v.norm2()
            }
            #[allow(unused_mut)]
            fn vnormalize(v: &$V<T>) -> (Option<$V<T>>, $V<T>) {
                let mut w = *v;
                let r = w.normalize().ok();
                (r, w)
            }
        }
        impl<T: El + Signed> Neg1 for $M<T> {
            fn neg1(self) -> Self {
                -self
            }
        }
        impl<T: El + Signed> Neg1 for $V<T> {
            fn neg1(self) -> Self {
                -self
            }
        }
    };
}
imp!(M22, V2, 2, |_| None, |_| None);
imp!(M33, V3, 3, |m| Some(m.get_upper_triagular().to_vec()), |m| Some(m.get_lower_triangular().to_vec()));
imp!(M44, V4, 4, |m| Some(m.get_upper_triagular().to_vec()), |m| Some(m.get_lower_triangular().to_vec()));
imp!(M55, V5, 5, |m| Some(m.get_upper_triagular().to_vec()), |m| Some(m.get_lower_triangular().to_vec()));
imp!(M66, V6, 6, |m| Some(m.get_upper_triangular().to_vec()), |m| Some(m.get_lower_triangular().to_vec()));

/// call a generic fn::<M, T> for every matrix size
#[macro_export]
macro_rules! for_sizes {
    ($f:ident, $t:ty, $($a:expr),*) => {{
        $f::<$crate::M22<$t>, $t>($($a),*);
        $f::<$crate::M33<$t>, $t>($($a),*);
        $f::<$crate::M44<$t>, $t>($($a),*);
        $f::<$crate::M55<$t>, $t>($($a),*);
        $f::<$crate::M66<$t>, $t>($($a),*);
    }};
}

pub fn fs<T: El>(v: &[T]) -> Vec<f64> {
    v.iter().map(|x| x.dd().f()).collect()
}
pub fn m_dd<M: Ma<T>, T: El>(m: &M) -> Rm<Dd> {
    Rm::from_fn(M::N, M::N, |i, j| m.at(i, j).dd())
}
pub fn m_i<M: Ma<T>, T: El>(m: &M) -> Rm<i128> {
    Rm::from_fn(M::N, M::N, |i, j| m.at(i, j).i())
}
pub fn m_f<M: Ma<T>, T: El>(m: &M) -> Rm<f64> {
    Rm::from_fn(M::N, M::N, |i, j| m.at(i, j).dd().f())
}
pub fn m_of<M: Ma<T>, T: Fl>(a: &Rm<f64>) -> M {
    M::mk(&a.a.iter().map(|&x| T::of(x)).collect::<Vec<T>>())
}
pub fn m33f<T: Fl>(m: &M33<T>) -> Rm<f64> {
    m_f(m)
}

/// scalar on the left, where the crate offers it
pub trait LeftMul: Sized + Copy {
    type S: Fl;
    fn lmul(s: Self::S, x: Self) -> Self;
    fn flat(&self) -> Vec<f64>;
    fn of_flat(a: &[f64]) -> Self;
    const LEN: usize;
    const WHAT: &'static str;
}
macro_rules! lm_v { ($($V:ident, $t:ident, $n:expr);*) => {$(
    impl LeftMul for $V<$t> {
        type S = $t;
        fn lmul(s: $t, x: Self) -> Self { s * x }
        fn flat(&self) -> Vec<f64> { self.iter().map(|x| *x as f64).collect() }
        fn of_flat(a: &[f64]) -> Self { <$V<$t> as Ve<$t>>::mk(&a.iter().map(|x| *x as $t).collect::<Vec<_>>()) }
        const LEN: usize = $n;
        const WHAT: &'static str = concat!(stringify!($t), "*", stringify!($V));
    })*}
}
lm_v!(V2, f32, 2; V3, f32, 3; V3, f64, 3; V4, f32, 4; V5, f32, 5; V6, f32, 6);
macro_rules! lm_m { ($($M:ident, $t:ident, $n:expr);*) => {$(
    impl LeftMul for $M<$t> {
        type S = $t;
        fn lmul(s: $t, x: Self) -> Self { s * x }
        fn flat(&self) -> Vec<f64> { (**self).iter().flatten().map(|x| *x as f64).collect() }
        fn of_flat(a: &[f64]) -> Self { <$M<$t> as Ma<$t>>::mk(&a.iter().map(|x| *x as $t).collect::<Vec<_>>()) }
        const LEN: usize = $n * $n;
        const WHAT: &'static str = concat!(stringify!($t), "*", stringify!($M));
    })*}
}
lm_m!(M22, f32, 2; M33, f32, 3; M33, f64, 3);

/// judge a crate matrix against a reference: integers exactly, floats within
/// `k` rounding units of `mag` (the size of the terms entering each entry)
pub fn jm<M: Ma<T>, T: El>(m: &mut crate::Mon, name: &'static str, got: &M, want: &Rm<Dd>, mag: &Rm<f64>, k: f64) {
    let mut worst = -1.0f64;
    let mut at = (0, 0);
    for i in 0..M::N {
        for j in 0..M::N {
            let e = (got.at(i, j).dd() - want.g(i, j)).f().abs();
            let tol = k * (T::U * mag.g(i, j) + T::TINY);
            let ratio = if e == 0.0 { 0.0 } else if tol == 0.0 { f64::INFINITY } else { e / tol };
            if !(ratio <= worst) {
                worst = ratio;
                at = (i, j);
                if ratio.is_nan() {
                    worst = f64::INFINITY;
                    break;
                }
            }
        }
    }
    m.small(name, worst, 1.0, || {
        format!("{} {} entry {:?}: got {:?} want {:e}", M::NAME, T::NAME, at, got.at(at.0, at.1), want.g(at.0, at.1).f())
    });
}
/// same for a vector
pub fn jv<T: El>(m: &mut crate::Mon, name: &'static str, got: &[T], want: &[Dd], mag: &[f64], k: f64) {
    for i in 0..want.len() {
        let e = (got[i].dd() - want[i]).f().abs();
        let tol = k * (T::U * mag[i] + T::TINY);
        let ratio = if e == 0.0 { 0.0 } else if tol == 0.0 { f64::INFINITY } else { e / tol };
        let ratio = if ratio.is_nan() { f64::INFINITY } else { ratio };
        m.small(name, ratio, 1.0, || format!("{} component {}: got {:?} want {:e}", T::NAME, i, got[i], want[i].f()));
    }
    if got.len() != want.len() {
        m.check(name, false, || format!("length {} want {}", got.len(), want.len()));
    }
}
/// a random element: small integers, or assorted floats scaled by 2^e
pub fn el<T: El>(r: &mut crate::Rng, e: i32) -> T {
    if T::FLOAT {
        let x = crate::gen::scalar(r) * 2f64.powi(e);
        return of_f::<T>(x);
    }
    let s = T::SMALL;
    let lo = if T::SIGNED { -s } else { 0 };
    match r.below(6) {
        0 => T::of_i(0),
        1 => T::of_i(1),
        2 => T::of_i(r.int(lo.max(-4), s.min(4))),
        3 => T::of_i(*r.pick(&[lo, s])),
        _ => T::of_i(r.int(lo, s)),
    }
}
/// f64 to a float element (rounding), through its bits
pub fn of_f<T: El>(x: f64) -> T {
    // T is f32 or f64 here, watched or not; num's cast is not available on El, so go through Any
    use std::any::Any;
    let a: &dyn Any = &x;
    if let Some(t) = a.downcast_ref::<T>() {
        return *t;
    }
    let (y, w64, w32) = (x as f32, crate::spy::Spy(x), crate::spy::Spy(x as f32));
    let b: [&dyn Any; 3] = [&y, &w64, &w32];
    *b.iter().find_map(|b| b.downcast_ref::<T>()).expect("float element type")
}
/// matrix of assorted kinds
pub fn mat_el<M: Ma<T>, T: El>(r: &mut crate::Rng, e: i32) -> M {
    let n = M::N;
    if T::FLOAT && r.chance(0.6) {
        let k = r.below(crate::gen::MAT_KINDS);
        let a = crate::gen::matrix(r, n, k, true);
        return M::mk(&a.a.iter().map(|x| of_f::<T>(x * 2f64.powi(e))).collect::<Vec<T>>());
    }
    match r.below(12) {
        0 => M::identity_(),
        1 => M::zeros_(),
        2 => {
            let mut v = vec![T::zero(); n * n];
            v[r.below(n * n)] = el(r, e);
            M::mk(&v)
        }
        3 => {
            let x = el(r, e);
            M::mk(&vec![x; n * n])
        }
        4 => {
            let mut v = vec![T::zero(); n * n];
            for k in 0..n {
                v[k * n + k] = el(r, e);
            }
            M::mk(&v)
        }
        _ => M::mk(&(0..n * n).map(|_| el(r, e)).collect::<Vec<T>>()),
    }
}
pub fn vec_el<V: Ve<T>, T: El>(r: &mut crate::Rng, e: i32) -> V {
    match r.below(10) {
        0 => V::zeros_(),
        1 => V::ones_(),
        2 => {
            let mut v = vec![T::zero(); V::N];
            v[r.below(V::N)] = el(r, e);
            V::mk(&v)
        }
        _ => V::mk(&(0..V::N).map(|_| el(r, e)).collect::<Vec<T>>()),
    }
}
/// binary exponent used to scale float operands (range safe for products of three)
pub fn scale_exp<T: El>(r: &mut crate::Rng) -> i32 {
    if !T::FLOAT || r.chance(0.6) {
        0
    } else {
        let l = if T::U > 1e-10 { 25 } else { 250 };
        r.int(-l, l) as i32
    }
}

pub fn q_of<T: Fl>(q: &[f64; 4]) -> Quaternion<T> {
    Quaternion::new_from(T::of(q[0]), T::of(q[1]), T::of(q[2]), T::of(q[3]))
}
/// components (w, x, y, z)
pub fn qf<T: Fl>(q: &Quaternion<T>) -> [f64; 4] {
    let v = q.imag();
    [q.real().f(), v[0].f(), v[1].f(), v[2].f()]
}
/// round to the element type
pub fn rd4<T: Fl>(q: &[f64; 4]) -> [f64; 4] {
    [T::of(q[0]).f(), T::of(q[1]).f(), T::of(q[2]).f(), T::of(q[3]).f()]
}
pub fn rd3<T: Fl>(q: &[f64; 3]) -> [f64; 3] {
    [T::of(q[0]).f(), T::of(q[1]).f(), T::of(q[2]).f()]
}
pub fn v3_of<T: Fl>(v: &[f64; 3]) -> V3<T> {
    V3::new_from(T::of(v[0]), T::of(v[1]), T::of(v[2]))
}
pub fn v3f<T: Fl>(v: &V3<T>) -> [f64; 3] {
    [v[0].f(), v[1].f(), v[2].f()]
}
/// a unit quaternion in T, built raw (flag not set) or through normalize() (flag set)
pub fn unit_t<T: Fl>(r: &mut crate::Rng) -> Quaternion<T> {
    let u = rd4::<T>(&crate::gen::unitq(r));
    let q = q_of::<T>(&u);
    if r.chance(0.5) {
        q.normalize().expect("unit quaternion")
    } else {
        q
    }
}

pub fn dq_of<T: Fl>(a: &[f64; 4], b: &[f64; 4]) -> DualQuaternion<T> {
    DualQuaternion::new(q_of::<T>(a), q_of::<T>(b))
}
/// (real, dual) components
pub fn dqf<T: Fl>(q: &DualQuaternion<T>) -> ([f64; 4], [f64; 4]) {
    (qf(&q.real()), qf(&q.dual()))
}
pub fn m44_of<T: Fl>(a: &Rm<f64>) -> M44<T> {
    m_of(a)
}
pub fn m33_of<T: Fl>(a: &Rm<f64>) -> M33<T> {
    m_of(a)
}
pub fn m44f<T: Fl>(a: &M44<T>) -> Rm<f64> {
    m_f(a)
}
/// round a matrix to the element type
pub fn rdm<T: Fl>(a: &Rm<f64>) -> Rm<f64> {
    Rm { r: a.r, c: a.c, a: a.a.iter().map(|x| T::of(*x).f()).collect() }
}
