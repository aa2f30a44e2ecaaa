//! C08: norms and normalisation.
use mon::*;
use num::Signed;

trait NInf<T> {
    fn ninf(&self) -> T;
}
trait NL<T> {
    fn nl(&self) -> T;
}
macro_rules! n { ($($V:ident),*) => {$(
    impl<T: El> NInf<T> for $V<T> { fn ninf(&self) -> T { self.norm_inf() } }
    impl<T: El + Signed + std::iter::Sum> NL<T> for $V<T> { fn nl(&self) -> T { self.norm_l() } }
)*} }
n!(V2, V3, V4, V5, V6);

fn inf<M: Ma<T>, T: El>(m: &mut Mon, r: &mut Rng)
where
    M::V: NInf<T>,
{
    let e = scale_exp::<T>(r);
    let mut a: M::V = vec_el(r, e);
    if r.chance(0.3) {
        // a single dominating component at a random place, either sign
        let mut v: Vec<T> = (0..M::N).map(|_| T::of_i(r.int(if T::SIGNED { -2 } else { 0 }, 2))).collect();
        let k = r.below(M::N);
        v[k] = T::of_i(if T::SIGNED && r.chance(0.5) { -(T::SMALL.min(100)) } else { T::SMALL.min(100) });
        a = <M::V as Ve<T>>::mk(&v);
        m.hit("dominating component");
    }
    m.input(&format!("V{}<{}>", M::N, T::NAME), &fs(a.sl()));
    let f: Vec<f64> = a.sl().iter().map(|x| x.dd().f().abs()).collect();
    let w = f.iter().fold(0.0f64, |p, q| p.max(*q));
    m.check("norm_inf", a.ninf().dd().f() == w, || format!("{:?} -> {:?} want {}", a, a.ninf(), w));
    if a.sl().iter().any(|x| x.dd().f() < 0.0) {
        m.hit("negative component");
    }
}
fn l1<M: Ma<T>, T: El>(m: &mut Mon, r: &mut Rng)
where
    M::V: NL<T>,
{
    let e = scale_exp::<T>(r);
    let a: M::V = vec_el(r, e);
    m.input(&format!("V{}<{}>", M::N, T::NAME), &fs(a.sl()));
    let mut s = Dd::ZERO;
    for x in a.sl() {
        s += x.dd().abs();
    }
    jv(m, "norm_l", &[a.nl()], &[s], &[s.f()], M::N as f64);
}
fn two<M: MaF<T>, T: Fl>(m: &mut Mon, r: &mut Rng) {
    let n = M::N;
    let e = if r.chance(0.5) { 0 } else if T::IS32 { r.int(-45, 45) as i32 } else { r.int(-400, 400) as i32 };
    let v: Vec<T> = match if r.chance(0.03) { 9 } else { r.below(5) } {
        9 => (0..n).map(|_| T::of(0.0 * r.sign())).collect(),
        0 => {
            let mut v = vec![T::zero(); n];
            v[r.below(n)] = T::of(r.sign() * r.range(0.5, 2.0) * 2f64.powi(e));
            m.hit("single component");
            v
        }
        1 => {
            // widely different magnitudes
            let lim = if T::IS32 { 10 } else { 60 };
            (0..n).map(|_| T::of(r.normal() * 2f64.powi(e / 2 + r.int(-lim, lim) as i32))).collect()
        }
        2 => (0..n).map(|_| T::of(r.int(-9, 9) as f64)).collect(),
        3 if r.chance(0.4) => {
            // the length, the largest or the sum of the components at one of the constants
            let u: Vec<f64> = (0..n).map(|_| r.range(-2.0, 2.0)).collect();
            let c = gen::near(r);
            let s = match r.below(3) {
                0 => u.iter().map(|x| x * x).sum::<f64>().sqrt(),
                1 => u.iter().map(|x| x.abs()).sum::<f64>(),
                _ => u.iter().fold(0.0, |a: f64, x| a.max(x.abs())),
            };
            u.iter().map(|x| T::of(x / s * c)).collect()
        }
        _ => (0..n).map(|_| T::of(r.range(-2.0, 2.0) * 2f64.powi(e))).collect(),
    };
    let a = <M::V as Ve<T>>::mk(&v);
    let f = fs(&v);
    m.input(&format!("V{}<{}>", n, T::NAME), &f);
    let mut s = Dd::ZERO;
    for x in &f {
        s += Dd::new(*x) * Dd::new(*x);
    }
    let w = s.sqrt();
    let wf = w.f();
    let eps = (n as f64 + 2.0) * T::EPS;
    let small = T::MINP.sqrt() * 8.0;
    m.close("norm2", M::vnorm(&a).f(), wf, eps * wf + small, || format!("{:?}", a));
    let (got, after) = M::vnormalize(&a);
    m.check("normalize keeps the vector", after.sl() == a.sl(), || format!("{:?} became {:?}", a, after));
    if f.iter().all(|x| *x == 0.0) {
        m.hit("zero vector");
        m.check("zero refused", got.is_none(), || format!("{:?}", got));
    } else if wf > 1e3 * small {
        m.hit("nonzero vector");
        if m.check("nonzero accepted", got.is_some(), || format!("{:?}", a)) {
            let u = got.unwrap();
            for i in 0..n {
                let want = (Dd::new(f[i]) / w).f();
                m.close("unit direction", u.sl()[i].f(), want, eps * 2.0 * want.abs() + T::MINP + small * want.abs() / wf, || format!("{:?} -> {:?}", a, u));
            }
        }
    }
    // matrix norm
    let x: M = mat_el(r, e / 2);
    m.input("matrix", &m_f::<M, T>(&x).a);
    let mut s = Dd::ZERO;
    for q in &m_dd::<M, T>(&x).a {
        s += *q * *q;
    }
    let w = s.sqrt().f();
    m.close("matrix norm2", x.norm_().f(), w, (n * n) as f64 * T::EPS * w + small, || format!("{:?}", x));
    m.close("trait norm2", LinearAlgebra::norm2(&x).f(), w, (n * n) as f64 * T::EPS * w + small, || format!("{:?}", x));
}
fn main() {
    monitor::run("C08", "vector with two different components; distinct by components, size and element type", |p| {
        p.wl("norm_inf", 40_000, 2_000_000, |m, r| match r.below(9) {
            0 => for_sizes!(inf, i8, m, r),
            1 => for_sizes!(inf, i32, m, r),
            2 => for_sizes!(inf, i64, m, r),
            3 => for_sizes!(inf, u8, m, r),
            4 => for_sizes!(inf, u32, m, r),
            5 | 6 => for_sizes!(inf, f32, m, r),
            _ => for_sizes!(inf, f64, m, r),
        });
        p.guided("guided norm_inf", 6000, 300000, |m, r| if r.chance(0.7) { for_sizes!(inf, W64, m, r) } else { for_sizes!(inf, W32, m, r) });
        p.wl("norm_l", 30_000, 1_000_000, |m, r| match r.below(5) {
            0 => for_sizes!(l1, i8, m, r),
            1 => for_sizes!(l1, i32, m, r),
            2 => for_sizes!(l1, i64, m, r),
            3 => for_sizes!(l1, f32, m, r),
            _ => for_sizes!(l1, f64, m, r),
        });
        p.guided("guided norm_l", 6000, 200000, |m, r| if r.chance(0.7) { for_sizes!(l1, W64, m, r) } else { for_sizes!(l1, W32, m, r) });
        p.wl("norm2", 60_000, 3_000_000, |m, r| if r.chance(0.6) { for_sizes!(two, f64, m, r) } else { for_sizes!(two, f32, m, r) });
        p.guided("guided norm2", 12000, 500000, |m, r| if r.chance(0.7) { for_sizes!(two, W64, m, r) } else { for_sizes!(two, W32, m, r) });
        p.require(&["dominating component", "negative component", "single component", "zero vector", "nonzero vector"], 100);
        p.assume("vectors whose squared components overflow or underflow are outside the claim (the crate squares and sums without scaling)");
    })
}
