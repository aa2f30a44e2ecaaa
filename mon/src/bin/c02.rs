//! C02: determinants against exact / double-double permutation expansion.
use mon::lin::*;
use mon::*;

fn value<M: MaF<T>, T: Fl>(m: &mut Mon, r: &mut Rng) {
    let n = M::N;
    let a: M = fmat::<M, T>(m, r, if T::IS32 { 15 } else { 120 });
    let ad = m_dd(&a);
    let perm = ad.perm_abs();
    let want = ad.det().f();
    // products that leave the range of the element type are outside the claim
    let amax = m_f::<M, T>(&a).a.iter().fold(1.0f64, |s, x| s.max(x.abs()));
    if perm > T::max_value().f() / 1e3 || (perm != 0.0 && perm < T::MINP * amax.powi(n as i32 - 1)) {
        m.hit("products out of range (not judged)");
        return;
    }
    let got = a.det();
    m.close("det", got.f(), want, kdet(n) * T::EPS * perm + T::MINP, || format!("{}<{}> perm {:e}", M::NAME, T::NAME, perm));
    m.close("det(transpose)", a.transpose().det().f(), want, kdet(n) * T::EPS * perm + T::MINP, || format!("{}<{}>", M::NAME, T::NAME));
    if want.abs() > 1e-6 * perm {
        m.hit("well determined");
    } else {
        m.hit("nearly or exactly singular");
    }
}

/// integer entries: the float result must be the exact integer
fn exact<M: MaF<T>, T: Fl>(m: &mut Mon, r: &mut Rng) {
    let n = M::N;
    let k = match (T::IS32, n) {
        (true, 2) => 1000,
        (true, 3) => 100,
        (true, 4) => 20,
        (true, 5) => 8,
        (true, _) => 5,
        (_, 2) => 1_000_000,
        (_, 3) => 50_000,
        (_, 4) => 3000,
        (_, 5) => 400,
        _ => 150,
    };
    let k = if r.chance(0.5) { k.min(5) } else { k };
    let density = r.range(0.3, 1.1);
    let mut v: Vec<i128> = (0..n * n).map(|_| if r.chance(density) { r.int(-k, k) as i128 } else { 0 }).collect();
    // half the time force exact dependence of two lines
    let sing = r.chance(0.3);
    if sing {
        let (i, j) = (r.below(n), r.below(n));
        if i != j {
            let row = r.chance(0.5);
            for c in 0..n {
                if row { v[i * n + c] = v[j * n + c] } else { v[c * n + i] = v[c * n + j] }
            }
            m.hit("two equal lines");
        }
    }
    let am = refm::Rm { r: n, c: n, a: v };
    let a: M = M::mk(&am.a.iter().map(|x| T::of(*x as f64)).collect::<Vec<_>>());
    m.input(&format!("{}<{}> integers", M::NAME, T::NAME), &m_f::<M, T>(&a).a);
    let lim = if T::IS32 { 16777216.0 } else { 9007199254740992.0 };
    if am.perm_abs() > lim {
        m.hit("skipped: not exactly representable");
        return;
    }
    let want = am.det();
    m.check("det exact", a.det().f() == want as f64, || format!("{}<{}> det {:?} want {}", M::NAME, T::NAME, a.det(), want));
    m.hit(if want == 0 { "exact zero determinant" } else { "exact nonzero determinant" });
    // metamorphic on the real code: swap, scale, add multiple, all exact
    let (i, j) = (r.below(n), r.below(n));
    if i != j {
        let mut s = am.clone();
        let rows = r.chance(0.5);
        for c in 0..n {
            let (p, q) = if rows { (i * n + c, j * n + c) } else { (c * n + i, c * n + j) };
            s.a.swap(p, q);
        }
        let b: M = M::mk(&s.a.iter().map(|x| T::of(*x as f64)).collect::<Vec<_>>());
        m.check("alternating", b.det().f() == -(want as f64), || format!("{}<{}> swapped lines {:?} want {}", M::NAME, T::NAME, b.det(), -want));
    }
}

/// every permutation matrix, with distinct weights: reads off every coefficient of the expansion
fn perms<M: MaF<T>, T: Fl>(m: &mut Mon, idx: usize) {
    let n = M::N;
    let mut avail: Vec<usize> = (0..n).collect();
    let mut k = idx;
    let mut fact: usize = (1..=n).product();
    if idx >= fact {
        return;
    }
    let mut p = vec![];
    for i in 0..n {
        fact /= n - i;
        p.push(avail.remove(k / fact));
        k %= fact;
    }
    let w = [2.0, 3.0, 5.0, 7.0, 11.0, 13.0];
    let mut v = vec![T::zero(); n * n];
    for i in 0..n {
        v[i * n + p[i]] = T::of(w[i]);
    }
    let mut inv = 0;
    for i in 0..n {
        for j in i + 1..n {
            if p[i] > p[j] {
                inv += 1
            }
        }
    }
    let want: f64 = w[..n].iter().product::<f64>() * if inv % 2 == 0 { 1.0 } else { -1.0 };
    let a = M::mk(&v);
    m.input(&format!("{}<{}> permutation", M::NAME, T::NAME), &m_f::<M, T>(&a).a);
    m.check("permutation coefficient", a.det().f() == want, || format!("{} perm {:?}: det {:?} want {}", M::NAME, p, a.det(), want));
    m.hit("permutation matrices enumerated");
}

fn product<M: MaF<T>, T: Fl>(m: &mut Mon, r: &mut Rng) {
    let n = M::N;
    let a: M = fmat::<M, T>(m, r, 0);
    let b: M = fmat::<M, T>(m, r, 0);
    let (da, db) = (m_dd(&a).det().f(), m_dd(&b).det().f());
    let ab = m_f::<M, T>(&a).absf().mul(&m_f::<M, T>(&b).absf());
    let amax = ab.a.iter().fold(1.0f64, |s, x| s.max(*x));
    let perm = ab.perm_abs();
    if perm > T::max_value().f() / 1e3 || (perm != 0.0 && perm < T::MINP * amax.powi(n as i32 - 1)) {
        m.hit("products out of range (not judged)");
        return;
    }
    let tol = (kdet(n) + 2.0 * (n * n) as f64) * T::EPS * ab.perm_abs();
    m.close("multiplicative", (a * b).det().f(), da * db, tol, || format!("{}<{}>", M::NAME, T::NAME));
}

fn main() {
    monitor::run("C02", "matrix with two different entries; distinct by entry bits, size and element type", |p| {
        p.wl("value", 60_000, 4_000_000, |m, r| if r.chance(0.6) { for_sizes!(value, f64, m, r) } else { for_sizes!(value, f32, m, r) });
        p.guided("guided value", 12000, 666666, |m, r| if r.chance(0.7) { for_sizes!(value, W64, m, r) } else { for_sizes!(value, W32, m, r) });
        p.wl("exact", 60_000, 4_000_000, |m, r| if r.chance(0.6) { for_sizes!(exact, f64, m, r) } else { for_sizes!(exact, f32, m, r) });
        p.guided("guided exact", 12000, 666666, |m, r| if r.chance(0.7) { for_sizes!(exact, W64, m, r) } else { for_sizes!(exact, W32, m, r) });
        p.wl("product", 15_000, 400_000, |m, r| if r.chance(0.6) { for_sizes!(product, f64, m, r) } else { for_sizes!(product, f32, m, r) });
        p.guided("guided product", 3000, 66666, |m, r| if r.chance(0.7) { for_sizes!(product, W64, m, r) } else { for_sizes!(product, W32, m, r) });
        p.wl("permutations", 720, 720, |m, _| {
            let i = m.index() as usize;
            for_sizes!(perms, f64, m, i);
            for_sizes!(perms, f32, m, i);
        });
        p.require(&gen::MAT_NAMES, 50);
        p.require(&["exact zero determinant", "exact nonzero determinant", "nearly or exactly singular", "permutation matrices enumerated", "two equal lines"], 50);
        p.assume("reference: division-free subset expansion in 106-bit arithmetic, exact on the integer cases; float results may differ by the rounding of the expansion, scaled by the permanent of |A|");
    })
}
