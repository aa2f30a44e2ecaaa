//! C01: matrix arithmetic against an exact / double-double shadow model.
use mon::*;
use mon::refm::Rm;

fn mag<M: Ma<T>, T: El>(a: &M) -> Rm<f64> {
    m_f::<M, T>(a).absf()
}
fn inp<M: Ma<T>, T: El>(m: &mut Mon, l: &str, a: &M) {
    m.input(&format!("{}<{}> {}", M::NAME, T::NAME, l), &m_f::<M, T>(a).a);
}

fn arith<M: Ma<T>, T: El>(m: &mut Mon, r: &mut Rng) {
    let n = M::N;
    let (ea, eb) = (scale_exp::<T>(r), scale_exp::<T>(r));
    let a: M = mat_el(r, ea);
    let b: M = if r.chance(0.1) { a } else { mat_el(r, eb) };
    let c: M = mat_el(r, eb);
    inp(m, "A", &a);
    inp(m, "B", &b);
    let (ad, bd, cd) = (m_dd(&a), m_dd(&b), m_dd(&c));
    let (am, bm) = (mag(&a), mag(&b));
    if T::FLOAT { m.hit("float case") } else if T::SIGNED { m.hit("signed integer case") } else { m.hit("unsigned integer case") }
    // sums
    let s = a + b;
    jm(m, "add", &s, &ad.add(&bd), &am.add(&bm), 1.0);
    let mut t = a;
    t += b;
    jm(m, "add_assign", &t, &ad.add(&bd), &am.add(&bm), 1.0);
    // differences (unsigned: keep the result non negative)
    let (x, y, xd, yd) = if T::SIGNED { (a, b, ad.clone(), bd.clone()) } else { (s, b, ad.add(&bd), bd.clone()) };
    let xm = am.add(&bm);
    jm(m, "sub", &(x - y), &xd.sub(&yd), &xm, 1.0);
    let mut t = x;
    t -= y;
    jm(m, "sub_assign", &t, &xd.sub(&yd), &xm, 1.0);
    // scalar
    let k: T = el(r, 0);
    m.input("k", &[k.dd().f()]);
    jm(m, "mul_scalar", &(a * k), &ad.scale(k.dd()), &am.scale(k.dd().f().abs()), 1.0);
    if k != T::zero() {
        let q = a / k;
        if T::FLOAT {
            let inv = Rm::from_fn(n, n, |i, j| ad.g(i, j) / k.dd());
            jm(m, "div_scalar", &q, &inv, &inv.absf(), 2.0);
        } else {
            let w = Rm::from_fn(n, n, |i, j| Dd::from_i128(a.at(i, j).i() / k.i()));
            jm(m, "div_scalar", &q, &w, &am, 1.0);
        }
    }
    // products
    let p = a * b;
    let pm = am.mul(&bm);
    jm(m, "matmul", &p, &ad.mul(&bd), &pm, n as f64);
    let v: M::V = vec_el(r, ea);
    m.input("v", &fs(v.sl()));
    let vd: Vec<Dd> = v.sl().iter().map(|x| x.dd()).collect();
    let vm: Vec<f64> = vd.iter().map(|x| x.f().abs()).collect();
    let col = |mm: &Rm<Dd>| -> Vec<Dd> { (0..n).map(|i| (0..n).fold(Dd::ZERO, |s, k| s + mm.g(i, k) * vd[k])).collect() };
    let row = |mm: &Rm<Dd>| -> Vec<Dd> { (0..n).map(|j| (0..n).fold(Dd::ZERO, |s, k| s + vd[k] * mm.g(k, j))).collect() };
    let colm: Vec<f64> = (0..n).map(|i| (0..n).map(|k| bm.g(i, k) * vm[k]).sum()).collect();
    let rowm: Vec<f64> = (0..n).map(|j| (0..n).map(|k| bm.g(k, j) * vm[k]).sum()).collect();
    jv(m, "mat*vec", (b * v).sl(), &col(&bd), &colm, n as f64);
    jv(m, "vec*mat", (v * b).sl(), &row(&bd), &rowm, n as f64);
    // identity and zero elements, exactly
    m.check("one", a * M::one() == a && M::one() * a == a && M::one() == M::identity_(), || "A*1 != A".into());
    m.check("zero", a + M::zero() == a && M::zero() == M::zeros_(), || "A+0 != A".into());
    let nz = (0..n * n).any(|x| a.at(x / n, x % n) != T::zero());
    m.check("is_zero", a.is_zero() != nz, || "is_zero wrong".into());
    let isone = (0..n * n).all(|x| a.at(x / n, x % n) == if x / n == x % n { T::one() } else { T::zero() });
    m.check("is_one", num::One::is_one(&a) == isone, || "is_one wrong".into());
    m.check("eq", (a == b) == (0..n * n).all(|x| a.at(x / n, x % n) == b.at(x / n, x % n)), || "== wrong".into());
    // ring laws on the crate's own results (exact for integers small enough)
    if T::FLOAT {
        let l = a * (b + c);
        let w = ad.mul(&bd.add(&cd));
        jm(m, "distributivity", &l, &w, &am.mul(&bm.add(&mag(&c))), n as f64 + 2.0);
    }
}

/// every structural entry: E_ij * E_kl, weighted
fn basis<M: Ma<T>, T: El>(m: &mut Mon, r: &mut Rng) {
    let n = M::N;
    let two = T::of_i(2);
    let three = T::of_i(3);
    m.input(&format!("basis {}<{}>", M::NAME, T::NAME), &[n as f64, T::SMALL as f64]);
    let unit = |i: usize, j: usize, w: T| {
        let mut v = vec![T::zero(); n * n];
        v[i * n + j] = w;
        M::mk(&v)
    };
    for i in 0..n {
        for j in 0..n {
            let e = unit(i, j, two);
            for k in 0..n {
                for l in 0..n {
                    let p = e * unit(k, l, three);
                    let w = if j == k { unit(i, l, T::of_i(6)) } else { M::zeros_() };
                    m.check("basis product", p == w, || format!("{} E{}{}*E{}{} = {:?}", M::NAME, i, j, k, l, p));
                }
            }
            let mut x = vec![T::zero(); n];
            x[j] = three;
            let ev = e * <M::V as Ve<T>>::mk(&x);
            m.check("basis mat*vec", (0..n).all(|q| ev.sl()[q] == if q == i { T::of_i(6) } else { T::zero() }), || format!("{} E{}{}*e{} = {:?}", M::NAME, i, j, j, ev));
            let mut x = vec![T::zero(); n];
            x[i] = three;
            let ve = <M::V as Ve<T>>::mk(&x) * e;
            m.check("basis vec*mat", (0..n).all(|q| ve.sl()[q] == if q == j { T::of_i(6) } else { T::zero() }), || format!("{} e{}*E{}{} = {:?}", M::NAME, i, i, j, ve));
        }
    }
    let _ = r;
    m.hit("basis sweep");
}

fn negate<M: Ma<T> + Neg1, T: El>(m: &mut Mon, r: &mut Rng) {
    let e = scale_exp::<T>(r);
    let a: M = mat_el(r, e);
    inp(m, "A", &a);
    let w = m_dd(&a).scale(-Dd::ONE);
    jm(m, "neg", &a.neg1(), &w, &mag(&a), 0.0);
}

fn left<L: LeftMul>(m: &mut Mon, r: &mut Rng) {
    let s = L::S::of(gen::scalar(r));
    let x: Vec<f64> = (0..L::LEN).map(|_| L::S::of(gen::scalar(r)).f()).collect();
    m.input(L::WHAT, &x);
    let got = L::lmul(s, L::of_flat(&x)).flat();
    for i in 0..L::LEN {
        let w = s.f() * x[i];
        m.close("left scalar", got[i], w, L::S::EPS * w.abs() + L::S::MINP, || format!("{} component {}", L::WHAT, i));
    }
    m.hit("scalar on the left");
}

/// random in-place histories against the shadow
fn history<M: Ma<T>, T: El>(m: &mut Mon, r: &mut Rng) {
    let n = M::N;
    let mut a: M = mat_el(r, 0);
    let mut shadow = m_dd(&a);
    let mut bound = mag(&a).scale(0.0);
    inp(m, "start", &a);
    let small = |r: &mut Rng| -> M {
        M::mk(&(0..n * n).map(|_| if T::FLOAT { of_f::<T>(r.range(-0.5, 0.5)) } else { T::of_i(r.int(if T::SIGNED { -1 } else { 0 }, 1)) }).collect::<Vec<T>>())
    };
    if !T::FLOAT {
        a = small(r);
        shadow = m_dd(&a);
    }
    let mut ops = vec![];
    for _ in 0..12 {
        let b: M = small(r);
        let bd = m_dd(&b);
        let op = if T::FLOAT { r.below(6) } else { r.below(2) };
        ops.push(op as f64);
        ops.push(bd.g(0, 0).f());
        let before = shadow.clone();
        match op {
            0 => {
                a += b;
                shadow = shadow.add(&bd);
            }
            1 => {
                if T::SIGNED {
                    a -= b;
                    shadow = shadow.sub(&bd);
                } else {
                    a += b;
                    a -= b;
                    m.hit("unsigned += -=");
                }
            }
            2 => {
                a = a * b;
                shadow = shadow.mul(&bd);
                bound = bound.mul(&bd.absf());
            }
            3 => {
                a = b * a;
                shadow = bd.mul(&shadow);
                bound = bd.absf().mul(&bound);
            }
            4 => {
                let k = T::of_i(2);
                a = a * k / T::of_i(4);
                shadow = shadow.scale(Dd::new(0.5));
                bound = bound.scale(0.5);
            }
            _ => {
                a = a - b * a;
                shadow = shadow.sub(&bd.mul(&shadow));
                bound = bound.add(&bd.absf().mul(&bound));
            }
        }
        // local rounding of this step, bounded by the largest magnitudes involved
        let big = (before.maxabs().max(shadow.maxabs()) + bd.maxabs()) * (n as f64 + 2.0) * (n as f64);
        bound = Rm::from_fn(n, n, |i, j| bound.g(i, j) + T::U * big);
        let mut bad = None;
        for i in 0..n {
            for j in 0..n {
                let e = (a.at(i, j).dd() - shadow.g(i, j)).f().abs();
                if !(e <= 2.0 * bound.g(i, j)) {
                    bad = Some((i, j, e));
                }
            }
        }
        m.check("history", bad.is_none(), || format!("{}<{}> diverged at {:?} after {:?}", M::NAME, T::NAME, bad, ops));
        if bad.is_some() {
            break;
        }
    }
    m.input("ops", &ops);
    m.hit("history");
}

macro_rules! by_type {
    ($f:ident, $m:expr, $r:expr) => {
        match $r.below(11) {
            0 => for_sizes!($f, i8, $m, $r),
            1 => for_sizes!($f, i16, $m, $r),
            2 => for_sizes!($f, i32, $m, $r),
            3 => for_sizes!($f, i64, $m, $r),
            4 => for_sizes!($f, i128, $m, $r),
            5 => for_sizes!($f, u8, $m, $r),
            6 => for_sizes!($f, u16, $m, $r),
            7 => for_sizes!($f, u32, $m, $r),
            8 => for_sizes!($f, u64, $m, $r),
            9 => for_sizes!($f, f32, $m, $r),
            _ => for_sizes!($f, f64, $m, $r),
        }
    };
}

fn main() {
    monitor::run("C01", "at least one operand with two different entries; distinct by operand bits and element type", |p| {
        p.wl("arith", 60_000, 4_000_000, |m, r| {
            if r.chance(0.4) {
                if r.chance(0.5) { for_sizes!(arith, f64, m, r) } else { for_sizes!(arith, f32, m, r) }
            } else {
                by_type!(arith, m, r)
            }
        });
        p.guided("guided arith", 8000, 400000, |m, r| if r.chance(0.7) { for_sizes!(arith, W64, m, r) } else { for_sizes!(arith, W32, m, r) });
        p.wl("basis", 44, 440, |m, r| by_type!(basis, m, r));
        p.wl("neg", 10_000, 400_000, |m, r| match r.below(6) {
            0 => for_sizes!(negate, i8, m, r),
            1 => for_sizes!(negate, i32, m, r),
            2 => for_sizes!(negate, i64, m, r),
            3 => for_sizes!(negate, i128, m, r),
            4 => for_sizes!(negate, f32, m, r),
            _ => for_sizes!(negate, f64, m, r),
        });
        p.wl("left", 10_000, 400_000, |m, r| {
            left::<M22<f32>>(m, r);
            left::<M33<f32>>(m, r);
            left::<M33<f64>>(m, r);
        });
        p.wl("history", 10_000, 600_000, |m, r| by_type!(history, m, r));
        p.guided("guided history", 2000, 100000, |m, r| if r.chance(0.7) { for_sizes!(history, W64, m, r) } else { for_sizes!(history, W32, m, r) });
        p.require(&["float case", "signed integer case", "unsigned integer case", "basis sweep", "history", "scalar on the left"], 20);
        p.assume("the oracle's double-double arithmetic (unit tested) is accurate to well below the float rounding unit");
    })
}
