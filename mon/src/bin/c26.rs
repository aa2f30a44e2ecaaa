//! C26: slice helpers on slices of any length.
use mon::*;
use num::Signed;
use static_math::slices_methods::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn len(r: &mut Rng) -> usize {
    match r.below(6) {
        0 => 1,
        1 => 2,
        2 => 1 + r.below(300),
        _ => 1 + r.below(12),
    }
}
fn order<T: El>(m: &mut Mon, r: &mut Rng) {
    let n = match r.below(2000) {
        0 => 1 + r.below(70_000),
        1..=10 => 1 + r.below(2000),
        _ => len(r),
    };
    // few distinct values, so that ties are common
    let span = *r.pick(&[1i64, 3, 100]);
    let v: Vec<T> = (0..n)
        .map(|_| if T::FLOAT && r.chance(0.5) { of_f::<T>(gen::scalar(r)) } else { T::of_i(r.int(if T::SIGNED { -span } else { 0 }, span)) })
        .collect();
    extremes(m, &v);
}
fn extremes<T: El>(m: &mut Mon, v: &[T]) {
    m.input(&format!("slice<{}>", T::NAME), &fs(v));
    let before = v.to_vec();
    let g = find_max_min(v);
    let (mut hi, mut lo) = (0, 0);
    for i in 1..v.len() {
        if v[i] > v[hi] {
            hi = i
        }
        if v[i] < v[lo] {
            lo = i
        }
    }
    m.check("max", g.max == (v[hi], hi), || format!("{:?} gives {:?} want {:?}", v, g.max, (v[hi], hi)));
    m.check("min", g.min == (v[lo], lo), || format!("{:?} gives {:?} want {:?}", v, g.min, (v[lo], lo)));
    m.check("read-only", before == v, || format!("{:?}", v));
    let ties = v.iter().filter(|x| **x == v[hi]).count() > 1 || v.iter().filter(|x| **x == v[lo]).count() > 1;
    if v.len() == 1 {
        m.hit("one element");
    } else if ties {
        m.hit("ties");
    }
    m.hit(if hi == v.len() - 1 { "maximum last" } else if hi == 0 { "maximum first" } else { "maximum inside" });
    m.hit(if lo == v.len() - 1 { "minimum last" } else if lo == 0 { "minimum first" } else { "minimum inside" });
}
fn ints<T: El + Signed + std::iter::Sum>(m: &mut Mon, r: &mut Rng) {
    let n = len(r);
    let s = T::SMALL.min(1000);
    let k = if T::SMALL < 100 { n.min(3) } else { n.min(if T::NAME == "i32" { 30 } else { 400 }) };
    let (a, b): (Vec<T>, Vec<T>) = (0..k).map(|_| (T::of_i(r.int(-s, s)), T::of_i(r.int(-s, s)))).unzip();
    m.input(&format!("slices<{}>", T::NAME), &fs(&a));
    m.input("and", &fs(&b));
    let d: i128 = a.iter().zip(&b).map(|(x, y)| x.i() * y.i()).sum();
    m.check("exact dot", dot(&a, &b).i() == d, || format!("{:?} {:?}", a, b));
    let l: i128 = a.iter().map(|x| x.i().abs()).sum();
    m.check("exact norm_l", norm_l(&a).i() == l, || format!("{:?} {:?}", a, norm_l(&a)));
    let i: i128 = a.iter().map(|x| x.i().abs()).max().unwrap();
    m.check("exact norm_inf", norm_inf(&a).i() == i, || format!("{:?} {:?}", a, norm_inf(&a)));
    m.hit("integers");
}
fn floats<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let n = len(r);
    let k = if T::IS32 { 30.0 } else { 300.0 };
    let s = if r.chance(0.2) { 2f64.powf(r.range(-k, k) * 0.9) } else { 1.0 };
    let g = |r: &mut Rng| -> Vec<T> { (0..n).map(|_| T::of(gen::scalar(r) * s)).collect() };
    let (a, b) = (g(r), g(r));
    let (fa, fb) = (fs(&a), fs(&b));
    m.input(&format!("slices<{}>", T::NAME), &fa);
    m.input("and", &fb);
    let sum = |f: &mut dyn FnMut(usize) -> Dd| -> Dd {
        let mut t = Dd::ZERO;
        for i in 0..n {
            t += f(i);
        }
        t
    };
    let nn = n as f64;
    let sab = sum(&mut |i| Dd::new(fa[i]) * Dd::new(fb[i]));
    let mag = sum(&mut |i| Dd::new((fa[i] * fb[i]).abs())).f();
    m.close("dot", dot(&a, &b).f(), sab.f(), (nn + 1.0) * e * mag + nn * T::MINP, || format!("{:?} {:?}", fa, fb));
    let saa = sum(&mut |i| Dd::new(fa[i]) * Dd::new(fa[i])).f();
    let n2 = saa.sqrt();
    m.close("norm2", norm2(&a).f(), n2, (nn + 2.0) * e * n2 + (nn * T::MINP).sqrt(), || format!("{:?}", fa));
    let l1 = sum(&mut |i| Dd::new(fa[i].abs())).f();
    m.close("norm_l", norm_l(&a).f(), l1, (nn + 1.0) * e * l1, || format!("{:?}", fa));
    let li = fa.iter().fold(0.0f64, |x, y| x.max(y.abs()));
    m.check("norm_inf", norm_inf(&a).f() == li, || format!("{:?} gives {:?}", fa, norm_inf(&a)));
    let sbb = sum(&mut |i| Dd::new(fb[i]) * Dd::new(fb[i])).f();
    if sbb > 1e6 * T::MINP {
        let p = project_x_over_y(&a, &b).f();
        let w = sab.f() / sbb;
        m.close("projection", p, w, (2.0 * nn + 4.0) * e * (w.abs() + mag / sbb) + 4.0 * nn * T::MINP * (1.0 + 1.0 / sbb), || format!("{:?} over {:?}", fa, fb));
        m.hit("projection");
    }
    // one slice in both places
    m.close("dot with itself", dot(&a, &a).f(), saa, (nn + 1.0) * e * saa + nn * T::MINP, || format!("{:?}", fa));
    if saa > 1e6 * T::MINP {
        m.close("projection over itself", project_x_over_y(&a, &a).f(), 1.0, (2.0 * nn + 4.0) * e + 8.0 * nn * T::MINP * (1.0 + 1.0 / saa), || format!("{:?}", fa));
    }
    m.check("read-only", fs(&a).iter().zip(&fa).all(|(x, y)| x.to_bits() == y.to_bits()) && fs(&b).iter().zip(&fb).all(|(x, y)| x.to_bits() == y.to_bits()), || "inputs changed".into());
    if n2 > 1e3 * T::MINP.sqrt() {
        let mut c = a.clone();
        normalize(&mut c);
        let fc = fs(&c);
        let w: Vec<f64> = fa.iter().map(|x| x / n2).collect();
        let mut d = 0.0f64;
        for i in 0..n {
            let x = (fc[i] - w[i]).abs();
            if !(x <= d) {
                d = if x.is_nan() { f64::INFINITY } else { x };
            }
        }
        m.small("normalize", d, (nn + 4.0) * e, || format!("{:?} gives {:?} want {:?}", fa, fc, w));
        m.hit("normalize");
    }
    extremes(m, &a);
    // some element zero within tolerance
    let tol = T::of(match r.below(8) {
        0 => fa[r.below(n)].abs(),
        1 => -if r.chance(0.8) { r.logmag(-8.0, 2.0) } else { gen::near(r) },
        2 => 0.0,
        3 | 4 => if r.chance(0.7) { r.logmag(-8.0, 2.0) } else { gen::near(r) },
        _ => T::EPS,
    })
    .f();
    let mut c = fa.clone();
    match r.below(3) {
        0 => {
            for x in c.iter_mut() {
                if x.abs() <= 2.0 * tol {
                    *x = T::of(3.0 * tol + 1.0).f();
                }
            }
        }
        1 => {
            for x in c.iter_mut() {
                if x.abs() <= 2.0 * tol {
                    *x = -1.0 - 3.0 * T::of(tol).f();
                }
            }
            let i = r.below(n);
            c[i] = T::of(r.sign() * tol * r.range(0.0, 2.0)).f();
        }
        _ => {}
    }
    m.input("checked", &c);
    m.input("tol", &[tol]);
    let t: Vec<T> = c.iter().map(|x| T::of(*x)).collect();
    let g = check_elements(&t, T::of(tol));
    let sure = c.iter().any(|x| *x == 0.0 || x.abs() < tol * (1.0 - 4.0 * e));
    let maybe = c.iter().any(|x| x.abs() <= tol * (1.0 + 4.0 * e));
    if sure {
        m.check("element check finds a zero", g, || format!("{:?} tol {}", c, tol));
        m.hit("has a zero element");
    } else if !maybe {
        m.check("element check finds nothing", !g, || format!("{:?} tol {}", c, tol));
        m.hit("has no zero element");
    }
}
fn refuse(m: &mut Mon, r: &mut Rng) {
    let a: Vec<f64> = (0..len(r)).map(|_| gen::scalar(r)).collect();
    let mut b: Vec<f64> = a.clone();
    if r.chance(0.5) {
        b.push(1.0);
        if r.chance(0.3) {
            b.extend_from_slice(&a);
        }
    } else {
        b.truncate(r.below(a.len()));
    }
    m.input("slices", &a);
    m.input("of different length", &b);
    let x = catch_unwind(AssertUnwindSafe(|| dot(&a, &b)));
    m.check("dot refuses different lengths", x.is_err(), || format!("{:?} {:?} gave {:?}", a, b, x));
    m.hit("different lengths");
}
/// slices around and beyond 2^8, 2^16 elements: few interesting elements among many
fn long(m: &mut Mon, r: &mut Rng) {
    let n = match r.below(4) {
        0 => ((1usize << (8 + r.below(10))) + r.below(5)).saturating_sub(2),
        1 => 65_536 + r.below(70_000),
        _ => 257 + r.below(3_000),
    };
    let at = |r: &mut Rng| match r.below(5) {
        0 => n - 1,
        1 => 0,
        2 => n - 1 - r.below(n.min(300)),
        _ => r.below(n),
    };
    // integers: sparse, exact
    let mut v = vec![0i64; n];
    for _ in 0..1 + r.below(4) {
        let i = at(r);
        v[i] = r.int(-9, 9);
    }
    let w: Vec<i64> = (0..n as i64).collect();
    let keys: Vec<f64> = v.iter().enumerate().filter(|x| *x.1 != 0).flat_map(|(i, x)| [i as f64, *x as f64]).collect();
    m.input(&format!("long slice of {}, nonzero (index, value)", n), &keys);
    let (mut hi, mut lo) = (0, 0);
    for i in 1..n {
        if v[i] > v[hi] {
            hi = i
        }
        if v[i] < v[lo] {
            lo = i
        }
    }
    let g = find_max_min(&v);
    m.check("long max", g.max == (v[hi], hi), || format!("length {} {:?} gives {:?} want {:?}", n, keys, g.max, (v[hi], hi)));
    m.check("long min", g.min == (v[lo], lo), || format!("length {} {:?} gives {:?} want {:?}", n, keys, g.min, (v[lo], lo)));
    let d: i64 = v.iter().zip(&w).map(|(a, b)| a * b).sum();
    m.check("long dot", dot(&v, &w) == d, || format!("length {} {:?} gives {} want {}", n, keys, dot(&v, &w), d));
    let l: i64 = v.iter().map(|x| x.abs()).sum();
    m.check("long norm_l", norm_l(&v) == l, || format!("length {} {:?} gives {} want {}", n, keys, norm_l(&v), l));
    let x = v[hi].abs().max(v[lo].abs());
    m.check("long norm_inf", norm_inf(&v) == x, || format!("length {} {:?} gives {} want {}", n, keys, norm_inf(&v), x));
    // floats: the same values, so squares and sums are exact
    let f: Vec<f64> = v.iter().map(|x| *x as f64).collect();
    let q: i64 = v.iter().map(|x| x * x).sum();
    let e = (q as f64).sqrt();
    m.close("long norm2", norm2(&f), e, 4.0 * f64::EPS * e, || format!("length {} {:?}", n, keys));
    if q > 0 {
        let mut c = f.clone();
        normalize(&mut c);
        let d = c.iter().zip(&f).map(|(a, b)| (a - b / e).abs()).fold(0.0f64, |a, b| if b <= a { a } else { b });
        m.small("long normalize", d, 8.0 * f64::EPS, || format!("length {} {:?}", n, keys));
        let y: Vec<f64> = w.iter().map(|x| *x as f64).collect();
        let p = project_x_over_y(&y, &f);
        let want = dot(&w, &v) as f64 / q as f64;
        m.close("long projection", p, want, 8.0 * f64::EPS * want.abs(), || format!("length {} {:?}", n, keys));
    }
    let mut o = vec![1.0f64; n];
    m.check("long element check finds nothing", !check_elements(&o, 1e-9), || format!("length {}", n));
    let i = at(r);
    o[i] = 0.0;
    m.check("long element check finds a zero", check_elements(&o, 1e-9), || format!("length {} zero at {}", n, i));
    // lengths that agree modulo a power of two are different all the same
    let cut = *r.pick(&[1usize, 2, 4, 8, 16, 64, 128, 256, 512, 1024, 65_536]);
    if cut < n {
        let (a, b) = if r.chance(0.5) { (&v[..], &w[..n - cut]) } else { (&v[..n - cut], &w[..]) };
        let x = catch_unwind(AssertUnwindSafe(|| dot(a, b)));
        m.check("dot refuses different lengths", x.is_err(), || format!("lengths {} and {}", a.len(), b.len()));
    }
    m.hit(if n > 65_536 { "longer than 65536" } else { "longer than 254" });
}
fn main() {
    monitor::run("C26", "slice with two different elements; distinct by contents and element type", |p| {
        p.wl("order", 100_000, 10_000_000, |m, r| match r.below(6) {
            0 => order::<i8>(m, r),
            1 => order::<u32>(m, r),
            2 => order::<i64>(m, r),
            3 => order::<f32>(m, r),
            _ => order::<f64>(m, r),
        });
        p.guided("guided order", 20000, 1500000, |m, r| if r.chance(0.7) { order::<W64>(m, r) } else { order::<W32>(m, r) });
        p.wl("integers", 40_000, 3_000_000, |m, r| match r.below(4) {
            0 => ints::<i8>(m, r),
            1 => ints::<i32>(m, r),
            2 => ints::<i64>(m, r),
            _ => ints::<i128>(m, r),
        });
        p.wl("floats", 100_000, 6_000_000, |m, r| if r.chance(0.6) { floats::<f64>(m, r) } else { floats::<f32>(m, r) });
        p.guided("guided floats", 20000, 1000000, |m, r| if r.chance(0.7) { floats::<W64>(m, r) } else { floats::<W32>(m, r) });
        p.wl("lengths", 2_000, 40_000, refuse);
        p.wl("long", 2_000, 40_000, long);
        p.require(&["one element", "ties", "maximum last", "maximum first", "maximum inside", "minimum last", "minimum first", "minimum inside", "integers", "projection", "normalize", "has a zero element", "has no zero element", "different lengths", "longer than 65536", "longer than 254"], 100);
        p.assume("norms, projection and normalisation are judged where the squares neither overflow nor underflow; normalising a zero slice is outside the function's domain");
    })
}
