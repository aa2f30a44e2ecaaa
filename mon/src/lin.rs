//! Shared reference facts about float matrices for the determinant, inverse, QR and LU monitors.
use crate::adapt::*;
use crate::dd::Dd;
use crate::gen;
use crate::refm::Rm;
use crate::rng::Rng;
use crate::Mon;

/// forward error constant of a determinant evaluation, in units of eps*perm(|A|)
pub fn kdet(n: usize) -> f64 {
    [0.0, 1.0, 4.0, 8.0, 16.0, 32.0, 64.0][n]
}

/// a matrix of one of the structured kinds, scaled by 2^e, exactly representable in T
pub fn fmat<M: MaF<T>, T: Fl>(m: &mut Mon, r: &mut Rng, maxexp: i64) -> M {
    let n = M::N;
    let kind = r.below(gen::MAT_KINDS);
    m.hit(gen::MAT_NAMES[kind]);
    let a = gen::matrix(r, n, kind, T::IS32);
    let e = if maxexp > 0 && r.chance(0.3) { r.int(-maxexp, maxexp) as i32 } else { 0 };
    let a = a.scale(2f64.powi(e));
    let x: M = m_of(&a);
    m.input(&format!("{}<{}> {}", M::NAME, T::NAME, gen::MAT_NAMES[kind]), &m_f::<M, T>(&x).a);
    x
}
/// scale one row so that |det| lands near `target`
pub fn retarget<M: MaF<T>, T: Fl>(m: &mut Mon, r: &mut Rng, a: &M, target: f64) -> Option<M> {
    let mut f = m_f::<M, T>(a);
    let d = f.dd().det().f().abs();
    if d == 0.0 || !(d > 1e-30) {
        return None;
    }
    let i = r.below(M::N);
    let s = target / d;
    if !(1e-25..1e25).contains(&s) {
        return None;
    }
    for j in 0..M::N {
        let v = T::of(f.g(i, j) * s).f();
        f.set(i, j, v);
    }
    let x: M = m_of(&f);
    m.input("retargeted", &m_f::<M, T>(&x).a);
    Some(x)
}
pub fn bits<M: Ma<T>, T: El>(a: &M) -> Vec<u64> {
    m_f::<M, T>(a).a.iter().map(|x| x.to_bits()).collect()
}
/// Some(true) must exist, Some(false) must be refused, None undecidable within rounding
pub fn must_exist<T: Fl>(det: f64, perm: f64, n: usize) -> Option<bool> {
    let b = kdet(n) * T::EPS * perm + T::MINP;
    if det.abs() - b > T::EPS {
        Some(true)
    } else if det.abs() + b < T::EPS {
        Some(false)
    } else {
        None
    }
}
/// QR by modified Gram-Schmidt, twice, in double-double, positive diagonal
pub fn ref_qr(a: &Rm<Dd>) -> (Rm<Dd>, Rm<Dd>) {
    let n = a.r;
    let mut q: Rm<Dd> = Rm::zeros(n, n);
    for j in 0..n {
        let mut v: Vec<Dd> = (0..n).map(|i| a.g(i, j)).collect();
        for _ in 0..2 {
            for k in 0..j {
                let mut d = Dd::ZERO;
                for i in 0..n {
                    d += q.g(i, k) * v[i];
                }
                for i in 0..n {
                    v[i] -= d * q.g(i, k);
                }
            }
        }
        let mut s = Dd::ZERO;
        for x in &v {
            s += *x * *x;
        }
        let s = s.sqrt();
        for i in 0..n {
            q.set(i, j, v[i] / s);
        }
    }
    let r = q.t().mul(a);
    (q, r)
}
/// Frobenius condition number after scaling columns to unit length
pub fn col_cond(a: &Rm<f64>) -> f64 {
    let n = a.r;
    let mut b = a.clone();
    for j in 0..n {
        let s = (0..n).map(|i| a.g(i, j) * a.g(i, j)).sum::<f64>().sqrt();
        for i in 0..n {
            b.set(i, j, a.g(i, j) / s);
        }
    }
    let d = b.dd();
    let det = d.det();
    let inv = Rm::<Dd> { r: n, c: n, a: d.adj().a.iter().map(|x| *x / det).collect() };
    b.fro() * inv.f().fro()
}
