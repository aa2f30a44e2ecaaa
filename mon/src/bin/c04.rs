//! C04: QR factorisation against a double-double Gram-Schmidt reference and its laws.
use mon::lin::*;
use mon::*;

fn judge<M: MaF<T>, T: Fl>(m: &mut Mon, a: &M) {
    let n = M::N;
    let ad = m_dd(a);
    let af = m_f::<M, T>(a);
    let perm = ad.perm_abs();
    let d = ad.det().f();
    let before = bits::<M, T>(a);
    let got = a.qr();
    m.check("input unchanged", bits::<M, T>(a) == before, || "matrix changed by qr()".into());
    match must_exist::<T>(d, perm, n) {
        Some(true) => {
            m.hit("full rank");
            m.check("qr exists", got.is_some(), || format!("{}<{}> det {:e} refused", M::NAME, T::NAME, d));
        }
        Some(false) => {
            m.hit("refused");
            m.check("qr refused", got.is_none(), || format!("{}<{}> det {:e} factored", M::NAME, T::NAME, d));
        }
        None => m.hit("within rounding of the threshold"),
    }
    let (q, rr) = match got {
        Some(x) => x,
        None => return,
    };
    if d == 0.0 {
        return;
    }
    let kappa = col_cond(&af);
    let cn: Vec<f64> = (0..n).map(|j| (0..n).map(|i| af.g(i, j) * af.g(i, j)).sum::<f64>().sqrt()).collect();
    let (wq, wr) = ref_qr(&ad);
    // the loss classical Gram-Schmidt may show on this matrix, column by column: what the earlier
    // columns lost comes back multiplied by their share of the new one (it can exceed the square
    // of the condition number)
    let mut loss = vec![0.0f64; n * n];
    for k in 1..n {
        for i in 0..k {
            let s: f64 = (0..k).filter(|j| *j != i).map(|j| loss[i * n + j] * wr.g(j, k).f().abs()).sum();
            let x = (s + n as f64 * T::EPS * cn[k]) / wr.g(k, k).f().abs();
            loss[i * n + k] = x;
            loss[k * n + i] = x;
        }
    }
    let lost = loss.iter().map(|x| x * x).sum::<f64>().sqrt();
    let tol = (3.0 * n as f64 * T::EPS * kappa * kappa).max(2.0 * lost);
    if !(tol < 0.05) || kappa.is_nan() {
        m.hit("too ill-conditioned to judge");
        return;
    }
    let (qf, rf) = (m_f::<M, T>(&q), m_f::<M, T>(&rr));
    let (qd, rd) = (qf.dd(), rf.dd());
    let g = qd.t().mul(&qd);
    let mut w = 0.0f64;
    for i in 0..n {
        for j in 0..n {
            let e = (g.g(i, j) - if i == j { Dd::ONE } else { Dd::ZERO }).f().abs();
            w = if e.is_nan() { f64::INFINITY } else { w.max(e) };
            // columns are unit to working precision whatever the conditioning
            if i == j {
                m.small("unit columns", e, 16.0 * T::EPS, || format!("{}<{}> column {} of Q", M::NAME, T::NAME, i));
            }
        }
    }
    m.small("orthonormal Q", w, tol, || format!("{}<{}> kappa {:e}", M::NAME, T::NAME, kappa));
    let prod = qd.mul(&rd);
    let mut bad: [(f64, usize, usize); 4] = [(0.0, 0, 0); 4];
    let up = |b: &mut (f64, usize, usize), e: f64, i, j| {
        if !(e <= b.0) {
            *b = (if e.is_nan() { f64::INFINITY } else { e }, i, j)
        }
    };
    for j in 0..n {
        for i in 0..n {
            up(&mut bad[0], (prod.g(i, j) - ad.g(i, j)).f().abs() / cn[j], i, j);
            up(&mut bad[1], (Dd::new(qf.g(i, j)) - wq.g(i, j)).f().abs(), i, j);
            if i <= j {
                up(&mut bad[2], (Dd::new(rf.g(i, j)) - wr.g(i, j)).f().abs() / cn[j], i, j);
            } else {
                up(&mut bad[3], rf.g(i, j).abs() / cn[j], i, j);
            }
        }
        if wr.g(j, j).f() > 2.0 * tol * cn[j] {
            m.check("positive diagonal", rf.g(j, j) > 0.0, || format!("{}<{}> R[{}][{}] = {:e}", M::NAME, T::NAME, j, j, rf.g(j, j)));
        }
    }
    for (k, name) in ["QR = A", "Q is the Gram-Schmidt basis", "R entries", "R upper triangular"].iter().enumerate() {
        m.small(name, bad[k].0, tol, || format!("{}<{}> at ({},{}) kappa {:e}", M::NAME, T::NAME, bad[k].1, bad[k].2, kappa));
    }
    if kappa < 100.0 {
        m.hit("well conditioned");
    }
}
fn value<M: MaF<T>, T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = match (T::IS32, r.chance(0.15)) {
        (true, false) => 3,
        (true, true) => 9,
        (false, false) => 8,
        (false, true) => 90,
    };
    let a: M = fmat::<M, T>(m, r, e);
    judge::<M, T>(m, &a);
}
fn threshold<M: MaF<T>, T: Fl>(m: &mut Mon, r: &mut Rng) {
    let a: M = fmat::<M, T>(m, r, 0);
    let target = T::EPS * r.logmag(-2.0, 2.0);
    if let Some(b) = retarget::<M, T>(m, r, &a, target) {
        judge::<M, T>(m, &b);
        m.hit("determinant near the threshold");
    }
    // column scaling keeps the conditioning: orthogonal-like with det just above eps
    let k = *r.pick(&[0usize, 11, 12]);
    let mut f = gen::matrix(r, M::N, k, T::IS32);
    let j = r.below(M::N);
    let s = T::EPS * r.logmag(-1.0, 3.0);
    for i in 0..M::N {
        let v = T::of(f.g(i, j) * s).f();
        f.set(i, j, v);
    }
    let b: M = m_of(&f);
    m.input("column scaled", &m_f::<M, T>(&b).a);
    judge::<M, T>(m, &b);
}
/// weighted permutations: the determinant is exactly the threshold, or the number next to it
fn exact_threshold<M: MaF<T>, T: Fl>(m: &mut Mon, r: &mut Rng) {
    let n = M::N;
    let total: i32 = if T::IS32 { -23 } else { -52 };
    let mut p: Vec<usize> = (0..n).collect();
    r.shuffle(&mut p);
    // powers of two: every product on the way is exact
    let mut e: Vec<i64> = (0..n).map(|_| r.int(-8, 0)).collect();
    let j = r.below(n);
    e[j] = 0;
    e[j] = total as i64 - e.iter().sum::<i64>();
    let which = r.below(3);
    let mut v = vec![T::zero(); n * n];
    for i in 0..n {
        let f = if i == j { [1.0, 1.0 - T::EPS / 2.0, 1.0 + T::EPS][which] } else { 1.0 };
        v[i * n + p[i]] = T::of(r.sign() * f * 2f64.powi(e[i] as i32));
    }
    let a = M::mk(&v);
    m.input(&format!("{}<{}> weighted permutation", M::NAME, T::NAME), &m_f::<M, T>(&a).a);
    let got = a.qr().is_some();
    m.check("threshold included", got == (which != 1), || format!("{:?} qr: {}", a, got));
    m.hit(["determinant exactly at the threshold", "determinant next below the threshold", "determinant next above the threshold"][which]);
}

fn main() {
    monitor::run("C04", "matrix with two different entries; distinct by entry bits, size and element type", |p| {
        p.wl("value", 50_000, 2_500_000, |m, r| if r.chance(0.6) { for_sizes!(value, f64, m, r) } else { for_sizes!(value, f32, m, r) });
        p.guided("guided value", 10000, 416666, |m, r| if r.chance(0.7) { for_sizes!(value, W64, m, r) } else { for_sizes!(value, W32, m, r) });
        p.wl("threshold", 20_000, 600_000, |m, r| if r.chance(0.6) { for_sizes!(threshold, f64, m, r) } else { for_sizes!(threshold, f32, m, r) });
        p.guided("guided threshold", 4000, 100000, |m, r| if r.chance(0.7) { for_sizes!(threshold, W64, m, r) } else { for_sizes!(threshold, W32, m, r) });
        p.wl("exact threshold", 6_000, 200_000, |m, r| if r.chance(0.6) { for_sizes!(exact_threshold, f64, m, r) } else { for_sizes!(exact_threshold, f32, m, r) });
        p.guided("guided exact threshold", 1200, 33333, |m, r| if r.chance(0.7) { for_sizes!(exact_threshold, W64, m, r) } else { for_sizes!(exact_threshold, W32, m, r) });
        p.require(&["determinant exactly at the threshold", "determinant next below the threshold", "determinant next above the threshold"], 100);
        p.require(&gen::MAT_NAMES, 50);
        p.require(&["full rank", "refused", "well conditioned", "determinant near the threshold"], 100);
        p.assume("the crate uses classical Gram-Schmidt, so orthogonality, residual and triangularity are allowed to degrade as that algorithm may: with the square of the column-scaled condition number, or by the loss propagated from column to column");
    })
}
