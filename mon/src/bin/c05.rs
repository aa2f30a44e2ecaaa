//! C05: packed LU with recorded interchanges.
use mon::lin::*;
use mon::refm::Rm;
use mon::*;

fn judge<M: MaF<T>, T: Fl>(m: &mut Mon, a: &M) {
    let n = M::N;
    let af = m_f::<M, T>(a);
    if (0..n).any(|i| (0..n).all(|j| af.g(i, j) == 0.0)) {
        m.hit("skipped: all-zero row");
        return;
    }
    let before = bits::<M, T>(a);
    let (lu, det, idx) = a.lu_();
    m.check("input unchanged", bits::<M, T>(a) == before, || "matrix changed by lu()".into());
    let lf = m_f::<M, T>(&lu);
    let mut swaps = 0;
    let ok = idx.len() == n && (0..n).all(|k| idx[k] >= k && idx[k] < n);
    if !m.check("interchanges in range", ok, || format!("{}<{}> {:?}", M::NAME, T::NAME, idx)) {
        return;
    }
    let mut pa = af.clone();
    for k in 0..n {
        if idx[k] != k {
            swaps += 1;
            for j in 0..n {
                let (x, y) = (pa.g(k, j), pa.g(idx[k], j));
                pa.set(k, j, y);
                pa.set(idx[k], j, x);
            }
        }
    }
    m.hit(match swaps {
        0 => "no interchange",
        1 => "odd interchanges",
        _ if swaps % 2 == 0 => "even interchanges",
        _ => "odd interchanges",
    });
    let l = Rm::from_fn(n, n, |i, j| if i == j { 1.0 } else if i > j { lf.g(i, j) } else { 0.0 });
    let u = Rm::from_fn(n, n, |i, j| if i <= j { lf.g(i, j) } else { 0.0 });
    let prod = l.dd().mul(&u.dd());
    let big = af.maxabs();
    let lu_abs = l.absf().mul(&u.absf());
    let growth = 2f64.powi(n as i32 - 1);
    // a pivot that vanishes (beyond rounding) may be replaced by 1e-40
    let floor = T::MINP * 4.0 * (1.0 + l.maxabs());
    let mut tiny = vec![0.0; n];
    for k in 0..n {
        let mut p = Dd::new(pa.g(k, k));
        let mut size = p.f().abs();
        for j in 0..k {
            size += (l.g(k, j) * u.g(j, k)).abs();
            p += -(Dd::new(l.g(k, j)) * Dd::new(u.g(j, k)));
        }
        if p.f().abs() <= n as f64 * T::EPS * size + floor {
            tiny[k] = 1.01e-40;
            m.hit("vanishing pivot");
        }
    }
    let mut worst = (0.0f64, 0.0f64);
    for i in 0..n {
        for j in 0..n {
            let e = (prod.g(i, j) - Dd::new(pa.g(i, j))).f().abs();
            let w = if i == j { tiny[i] } else { 0.0 };
            let q = e / (n as f64 * T::EPS * lu_abs.g(i, j) + w + floor);
            let q2 = e / (2.0 * growth * n as f64 * T::EPS * big + w + floor);
            worst.0 = if q.is_nan() { f64::INFINITY } else { worst.0.max(q) };
            worst.1 = if q2.is_nan() { f64::INFINITY } else { worst.1.max(q2) };
        }
    }
    m.small("LU = PA entrywise", worst.0, 1.0, || format!("{}<{}> lu {:?} idx {:?}", M::NAME, T::NAME, lf.a, idx));
    m.small("LU = PA relative to the largest entry", worst.1, 1.0, || format!("{}<{}> lu {:?} idx {:?}", M::NAME, T::NAME, lf.a, idx));
    // determinant: exact det of the factors, sign included
    let mut du = Dd::ONE;
    let mut under = T::MINP * n as f64;
    for k in 0..n {
        du = du * Dd::new(u.g(k, k));
        under *= u.g(k, k).abs().max(1.0);
    }
    let du = if swaps % 2 == 1 { -du } else { du };
    m.close("det is the signed product", det.f(), du.f(), 2.0 * n as f64 * T::EPS * du.f().abs() + under, || format!("{}<{}> idx {:?}", M::NAME, T::NAME, idx));
    let ad = af.dd();
    let want = ad.det().f();
    let e = 2.0 * growth * n as f64 * T::EPS * big + floor + tiny.iter().fold(0.0, |a: f64, x| a.max(*x));
    // mean value bound of perm(|A| + E) - perm(|A|): it also covers several lost ranks
    let ae = Rm::from_fn(n, n, |i, j| af.g(i, j).abs() + 2.0 * e);
    let mut cof = 0.0;
    for i in 0..n {
        for j in 0..n {
            cof += ae.minor(i, j).perm_abs();
        }
    }
    let tol = 2.0 * e * cof + 2.0 * n as f64 * T::EPS * want.abs() + under;
    m.close("det value", det.f(), want, tol, || format!("{}<{}> idx {:?}", M::NAME, T::NAME, idx));
    if want.abs() > 100.0 * tol {
        m.hit("determinant well determined");
    }
}
fn value<M: MaF<T>, T: Fl>(m: &mut Mon, r: &mut Rng) {
    let a: M = fmat::<M, T>(m, r, if T::IS32 { 8 } else { 40 });
    judge::<M, T>(m, &a);
}
/// leading pivots that vanish or nearly vanish, rows of very different size
fn pivots<M: MaF<T>, T: Fl>(m: &mut Mon, r: &mut Rng) {
    let n = M::N;
    let mut f = gen::matrix(r, n, 0, T::IS32);
    for i in 0..n {
        if r.chance(0.4) {
            let s = r.logmag(-6.0, 3.0);
            for j in 0..n {
                let v = f.g(i, j) * s;
                f.set(i, j, v);
            }
        }
    }
    for k in 0..n {
        if r.chance(0.5) {
            let z = if r.chance(0.5) { 0.0 } else { r.logmag(-14.0, -4.0) };
            for i in 0..n {
                if r.chance(0.5) {
                    f.set(i, k, f.g(i, k) * z);
                }
            }
        }
    }
    let a: M = M::mk(&f.a.iter().map(|x| T::of(*x)).collect::<Vec<T>>());
    m.input(&format!("{}<{}> pivots", M::NAME, T::NAME), &m_f::<M, T>(&a).a);
    m.hit("weak pivots");
    judge::<M, T>(m, &a);
}
/// entries far below and above one: nothing in the factorisation may depend on the unit of measure
fn scales<M: MaF<T>, T: Fl>(m: &mut Mon, r: &mut Rng) {
    let n = M::N;
    let f = gen::matrix(r, n, 0, T::IS32);
    let lim = if T::IS32 { 96 } else { 780 } / n as i64;
    let s = 2f64.powi(if r.chance(0.7) { -r.int(lim / 3, lim) } else { r.int(lim / 3, lim) } as i32);
    let a: M = M::mk(&f.a.iter().map(|x| T::of(*x * s)).collect::<Vec<T>>());
    let k = m_f::<M, T>(&a);
    m.input(&format!("{}<{}> scaled", M::NAME, T::NAME), &k.a);
    m.hit(if s < 1.0 { "tiny entries" } else { "huge entries" });
    judge::<M, T>(m, &a);
}
fn main() {
    monitor::run("C05", "matrix with two different entries; distinct by entry bits, size and element type", |p| {
        p.wl("value", 60_000, 3_000_000, |m, r| if r.chance(0.6) { for_sizes!(value, f64, m, r) } else { for_sizes!(value, f32, m, r) });
        p.guided("guided value", 12000, 500000, |m, r| if r.chance(0.7) { for_sizes!(value, W64, m, r) } else { for_sizes!(value, W32, m, r) });
        p.wl("pivots", 40_000, 2_000_000, |m, r| if r.chance(0.6) { for_sizes!(pivots, f64, m, r) } else { for_sizes!(pivots, f32, m, r) });
        p.guided("guided pivots", 8000, 333333, |m, r| if r.chance(0.7) { for_sizes!(pivots, W64, m, r) } else { for_sizes!(pivots, W32, m, r) });
        p.wl("scales", 20_000, 1_000_000, |m, r| if r.chance(0.6) { for_sizes!(scales, f64, m, r) } else { for_sizes!(scales, f32, m, r) });
        p.guided("guided scales", 4000, 150000, |m, r| if r.chance(0.7) { for_sizes!(scales, W64, m, r) } else { for_sizes!(scales, W32, m, r) });
        p.require(&gen::MAT_NAMES, 50);
        p.require(&["no interchange", "odd interchanges", "even interchanges", "weak pivots", "vanishing pivot", "tiny entries", "huge entries", "determinant well determined"], 100);
        p.assume("matrices with an all-zero row are outside the documented domain (lu panics); a vanishing pivot is replaced by 1e-40");
    })
}
