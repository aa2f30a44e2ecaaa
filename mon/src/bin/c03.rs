//! C03: inverses against the double-double adjugate.
use mon::lin::*;
use mon::refm::Rm;
use mon::*;

fn judge<M: MaF<T>, T: Fl>(m: &mut Mon, a: &M) {
    let n = M::N;
    let ad = m_dd(a);
    let af = m_f::<M, T>(a);
    let perm = ad.perm_abs();
    let det = ad.det();
    let d = det.f();
    let before = bits::<M, T>(a);
    let got = a.inverse();
    m.check("input unchanged", bits::<M, T>(a) == before, || "matrix changed by inverse()".into());
    match must_exist::<T>(d, perm, n) {
        Some(true) => {
            m.hit("invertible");
            if d.abs() < 100.0 * T::EPS {
                m.hit("just above the threshold");
            }
            m.check("inverse exists", got.is_some(), || format!("{}<{}> det {:e} refused", M::NAME, T::NAME, d));
        }
        Some(false) => {
            m.hit("refused");
            if d.abs() > 0.01 * T::EPS {
                m.hit("just below the threshold");
            }
            m.check("inverse refused", got.is_none(), || format!("{}<{}> det {:e} inverted", M::NAME, T::NAME, d));
        }
        None => m.hit("within rounding of the threshold"),
    }
    let x = match got {
        Some(x) => x,
        None => return,
    };
    if d == 0.0 || kdet(n) * T::EPS * perm > 0.1 * d.abs() {
        m.hit("too ill-conditioned to judge");
        return;
    }
    let adj = ad.adj();
    let want = Rm::<Dd> { r: n, c: n, a: adj.a.iter().map(|x| *x / det).collect() };
    let xf = m_f::<M, T>(&x);
    let xa = want.f().absf();
    // size of the terms in each cofactor
    let p = Rm::from_fn(n, n, |i, j| if n == 1 { 1.0 } else { ad.minor(j, i).perm_abs() });
    let k = kdet(n).max(6.0);
    let xax = xa.mul(&af.absf()).mul(&xa);
    let tol = Rm::from_fn(n, n, |i, j| k * T::EPS * (p.g(i, j) / d.abs() + xa.g(i, j) * (1.0 + perm / d.abs()) + xax.g(i, j)) + T::MINP * (1.0 + 1.0 / d.abs()));
    let mut worst = 0.0f64;
    let mut at = (0, 0);
    for i in 0..n {
        for j in 0..n {
            let q = (Dd::new(xf.g(i, j)) - want.g(i, j)).f().abs() / tol.g(i, j);
            if !(q <= worst) {
                worst = if q.is_nan() { f64::INFINITY } else { q };
                at = (i, j);
            }
        }
    }
    m.small("inverse entries", worst, 1.0, || format!("{}<{}> entry {:?}: {:e} want {:e}", M::NAME, T::NAME, at, xf.g(at.0, at.1), want.g(at.0, at.1).f()));
    // the law itself, on the returned matrix
    let xd = xf.dd();
    for (name, prod, bound) in [("A*X = I", ad.mul(&xd), af.absf().mul(&tol)), ("X*A = I", xd.mul(&ad), tol.mul(&af.absf()))] {
        let mut w = 0.0f64;
        for i in 0..n {
            for j in 0..n {
                let e = (prod.g(i, j) - if i == j { Dd::ONE } else { Dd::ZERO }).f().abs();
                let q = e / (bound.g(i, j) + T::EPS);
                w = if q.is_nan() { f64::INFINITY } else { w.max(q) };
            }
        }
        m.small(name, w, 1.0, || format!("{}<{}> product {:?}", M::NAME, T::NAME, prod.f().a));
    }
}

fn value<M: MaF<T>, T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = match (T::IS32, r.chance(0.15)) {
        (true, false) => 3,
        (true, true) => 9,
        (false, false) => 8,
        (false, true) => 90,
    };
    let a: M = fmat::<M, T>(m, r, e);
    judge::<M, T>(m, &a);
}
fn threshold<M: MaF<T>, T: Fl>(m: &mut Mon, r: &mut Rng) {
    let a: M = fmat::<M, T>(m, r, 0);
    let target = if r.chance(0.2) { gen::near(r) } else { T::EPS * r.logmag(-2.0, 2.0) };
    if let Some(b) = retarget::<M, T>(m, r, &a, target) {
        judge::<M, T>(m, &b);
        let b = m_of::<M, T>(&m_f::<M, T>(&b).scale(1.0).t());
        judge::<M, T>(m, &b);
    }
}
/// exact dyadic inverses: permutations with power-of-two weights
fn exact<M: MaF<T>, T: Fl>(m: &mut Mon, r: &mut Rng) {
    let n = M::N;
    let mut p: Vec<usize> = (0..n).collect();
    r.shuffle(&mut p);
    let mut v = vec![T::zero(); n * n];
    let mut w = vec![T::zero(); n * n];
    for i in 0..n {
        let e = r.int(-2, 2) as i32;
        let s = r.sign();
        v[i * n + p[i]] = T::of(s * 2f64.powi(e));
        w[p[i] * n + i] = T::of(s * 2f64.powi(-e));
    }
    let a = M::mk(&v);
    m.input(&format!("{}<{}> scaled permutation", M::NAME, T::NAME), &m_f::<M, T>(&a).a);
    m.check("exact dyadic inverse", a.inverse() == Some(M::mk(&w)), || format!("{:?} -> {:?}", a, a.inverse()));
    m.hit("dyadic permutation");
}

/// weighted permutations: the determinant is exactly the threshold, or the number next to it
fn exact_threshold<M: MaF<T>, T: Fl>(m: &mut Mon, r: &mut Rng) {
    let n = M::N;
    let total: i32 = if T::IS32 { -23 } else { -52 };
    let mut p: Vec<usize> = (0..n).collect();
    r.shuffle(&mut p);
    // powers of two: every product on the way is exact
    let mut e: Vec<i64> = (0..n).map(|_| r.int(-8, 0)).collect();
    let j = r.below(n);
    e[j] = 0;
    e[j] = total as i64 - e.iter().sum::<i64>();
    let which = r.below(3);
    let mut v = vec![T::zero(); n * n];
    for i in 0..n {
        let f = if i == j { [1.0, 1.0 - T::EPS / 2.0, 1.0 + T::EPS][which] } else { 1.0 };
        v[i * n + p[i]] = T::of(r.sign() * f * 2f64.powi(e[i] as i32));
    }
    let a = M::mk(&v);
    m.input(&format!("{}<{}> weighted permutation", M::NAME, T::NAME), &m_f::<M, T>(&a).a);
    let got = a.inverse().is_some();
    m.check("threshold included", got == (which != 1), || format!("{:?} inverse: {}", a, got));
    m.hit(["determinant exactly at the threshold", "determinant next below the threshold", "determinant next above the threshold"][which]);
}

fn main() {
    monitor::run("C03", "matrix with two different entries; distinct by entry bits, size and element type", |p| {
        p.wl("value", 60_000, 3_000_000, |m, r| if r.chance(0.6) { for_sizes!(value, f64, m, r) } else { for_sizes!(value, f32, m, r) });
        p.guided("guided value", 12000, 500000, |m, r| if r.chance(0.7) { for_sizes!(value, W64, m, r) } else { for_sizes!(value, W32, m, r) });
        p.wl("threshold", 25_000, 800_000, |m, r| if r.chance(0.6) { for_sizes!(threshold, f64, m, r) } else { for_sizes!(threshold, f32, m, r) });
        p.guided("guided threshold", 5000, 133333, |m, r| if r.chance(0.7) { for_sizes!(threshold, W64, m, r) } else { for_sizes!(threshold, W32, m, r) });
        p.wl("dyadic", 5_000, 100_000, |m, r| if r.chance(0.6) { for_sizes!(exact, f64, m, r) } else { for_sizes!(exact, f32, m, r) });
        p.guided("guided dyadic", 1000, 16666, |m, r| if r.chance(0.7) { for_sizes!(exact, W64, m, r) } else { for_sizes!(exact, W32, m, r) });
        p.wl("exact threshold", 6_000, 200_000, |m, r| if r.chance(0.6) { for_sizes!(exact_threshold, f64, m, r) } else { for_sizes!(exact_threshold, f32, m, r) });
        p.guided("guided exact threshold", 1200, 33333, |m, r| if r.chance(0.7) { for_sizes!(exact_threshold, W64, m, r) } else { for_sizes!(exact_threshold, W32, m, r) });
        p.require(&["determinant exactly at the threshold", "determinant next below the threshold", "determinant next above the threshold"], 100);
        p.require(&gen::MAT_NAMES, 50);
        p.require(&["invertible", "refused", "just above the threshold", "just below the threshold", "dyadic permutation"], 100);
        p.assume("entries are compared with the exact adjugate over the determinant; the allowed error is the rounding of an adjugate or elimination inverse, so ill-conditioned matrices are judged loosely and ones with no correct digit in the determinant not at all");
    })
}
