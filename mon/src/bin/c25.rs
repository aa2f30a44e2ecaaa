//! C25: approximate comparisons.
use mon::*;
use static_math::utils::*;

/// exact verdict of the comparison; None where rounding of the comparison itself may decide
fn want<T: Fl>(a: f64, b: f64, eps: f64) -> Option<bool> {
    if a.is_nan() || b.is_nan() {
        return Some(false);
    }
    if a == b {
        return Some(true);
    }
    if a.is_infinite() || b.is_infinite() {
        return Some(false);
    }
    let max = if T::IS32 { f32::MAX as f64 } else { f64::MAX };
    // scaled down so that sums cannot overflow
    let s = if a.abs().max(b.abs()) > 1.0 { 2f64.powi(-20) } else { 1.0 };
    let (x, y) = (Dd::new(a * s), Dd::new(b * s));
    let diff = (x - y).f().abs();
    let sum = (a * s).abs() + (b * s).abs();
    let (lhs, rhs) = if a == 0.0 || b == 0.0 || sum < T::MINP * s {
        (diff, eps * s)
    } else {
        (diff, eps * sum.min(max * s))
    };
    // a tolerance above one accepts any two numbers; not judged where their difference overflows
    if eps >= 1.0 && diff > max * s * 0.999 {
        return None;
    }
    // around the smallest normal number the quotient may be absolute or relative
    let slack = 6.0 * T::EPS;
    if lhs < rhs * (1.0 - slack) {
        Some(true)
    } else if lhs > rhs * (1.0 + slack) {
        Some(false)
    } else {
        None
    }
}
fn number<T: Fl>(r: &mut Rng) -> f64 {
    let (lo, hi) = if T::IS32 { (-44.0, 38.0) } else { (-323.0, 308.0) };
    let x = match r.below(16) {
        0 => 0.0,
        1 => -0.0,
        2 => f64::INFINITY * r.sign(),
        3 => f64::NAN,
        4 => r.sign() * T::MINP * r.range(0.1, 3.0),
        5 => r.sign() * T::max_value().f(),
        6 => r.sign() * T::MINP,
        7 => r.int(-5, 5) as f64,
        8 | 9 => r.sign() * r.logmag(lo, hi),
        10 => r.sign() * r.logmag(-16.0, 0.0),
        _ => gen::scalar(r),
    };
    T::of(x).f()
}
/// a partner that is far, near the tolerance boundary, or equal
fn partner<T: Fl>(r: &mut Rng, a: f64, eps: f64) -> f64 {
    let b = match r.below(8) {
        0 => a,
        1 => -a,
        2 => number::<T>(r),
        3 => a * (1.0 + r.sign() * 2.0 * eps * r.range(0.2, 0.97)),
        4 => a * (1.0 + r.sign() * 2.0 * eps * r.range(1.03, 4.0)),
        5 => a + r.sign() * eps * r.range(0.0, 2.0),
        6 => a * (1.0 + r.sign() * r.logmag(-16.0, 1.0)),
        _ => {
            let x = T::of(a);
            return (x + x * T::epsilon()).f();
        }
    };
    T::of(b).f()
}
fn tolerance<T: Fl>(r: &mut Rng) -> f64 {
    T::of(match r.below(7) {
        5 => r.logmag(-0.3, 0.3),
        6 => [0.5, 1.0, 1.5, 2.0][r.below(4)],
        0 => T::EPS,
        1 => 1e-6,
        2 => 0.0,
        3 => if r.chance(0.7) { r.logmag(-6.0, -0.3) } else { gen::near_in(r, 0.0, 2.0).abs() },
        _ => r.logmag(-15.0, -1.0),
    })
    .f()
}
fn numbers<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let a = number::<T>(r);
    let eps = tolerance::<T>(r);
    let b = partner::<T>(r, a, eps);
    m.input(&format!("a, b, eps<{}>", T::NAME), &[a, b, eps]);
    let (x, y, t) = (T::of(a), T::of(b), T::of(eps));
    let g = nearly_equal(x, y, t);
    m.check("symmetric", g == nearly_equal(y, x, t), || format!("{:e} {:e} {:e}", a, b, eps));
    m.check("symmetric in sign", g == nearly_equal(-x, -y, t), || format!("{:e} {:e} {:e}", a, b, eps));
    if !a.is_nan() {
        m.check("reflexive", nearly_equal(x, x, t), || format!("{:e} {:e}", a, eps));
    }
    match want::<T>(a, b, eps) {
        Some(w) => {
            m.check("verdict", g == w, || format!("nearly_equal({:e}, {:e}, {:e}) = {}", a, b, eps, g));
            m.hit(if w { "accepted" } else { "rejected" });
        }
        None => m.hit("on the boundary (not judged)"),
    }
    if a.is_nan() || b.is_nan() {
        m.hit("NaN");
    } else if a.is_infinite() && b.is_infinite() {
        m.hit(if a == b { "equal infinities" } else { "opposite infinities" });
    } else if a.abs() + b.abs() < T::MINP {
        m.hit("both below the smallest normal");
    } else if a == 0.0 || b == 0.0 {
        m.hit("one zero");
    }
    // nearly_zero is the comparison with zero at machine epsilon
    let z = nearly_zero(x);
    if a.abs() < T::EPS * 0.999 {
        m.check("nearly zero accepted", z, || format!("{:e}", a));
        m.hit("nearly zero");
    } else if a.is_nan() || a.abs() > T::EPS * 1.001 {
        m.check("nearly zero rejected", !z, || format!("{:e}", a));
    }
    // absolute comparison
    let c = compare_floats(x, y, t);
    m.check("absolute comparison symmetric", c == compare_floats(y, x, t), || format!("{:e} {:e}", a, b));
    let d = (Dd::new(a) - Dd::new(b)).f().abs();
    if a.is_finite() && b.is_finite() && d.is_finite() {
        if d < eps * (1.0 - 2.0 * T::EPS) {
            m.check("absolute comparison accepts", c, || format!("{:e} {:e} {:e}", a, b, eps));
            m.hit("absolute accept");
        } else if d > eps * (1.0 + 2.0 * T::EPS) || (d == 0.0 && eps == 0.0) {
            m.check("absolute comparison rejects", !c, || format!("{:e} {:e} {:e}", a, b, eps));
            m.hit("absolute reject");
        }
    } else if a.is_nan() || b.is_nan() || a.is_infinite() || b.is_infinite() {
        m.check("absolute comparison rejects non-finite", !c, || format!("{:e} {:e} {:e}", a, b, eps));
    }
}
/// differences that are exact: the absolute comparison is strict
fn ties<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let k = 2f64.powi(r.int(-30, 30) as i32);
    let (a, d) = (r.int(-1000, 1000) as f64 * k, r.int(1, 1000) as f64 * k);
    let b = a + r.sign() * d;
    let (x, y) = (T::of(a), T::of(b));
    m.input(&format!("a, b, tol<{}>", T::NAME), &[a, b, d]);
    m.check("a difference equal to the tolerance is not below it", !compare_floats(x, y, T::of(d)), || format!("{:e} {:e} {:e}", a, b, d));
    m.check("a tolerance just above the difference accepts", compare_floats(x, y, T::of(d) * (T::one() + T::epsilon())), || format!("{:e} {:e} {:e}", a, b, d));
    m.check("a tolerance just below the difference rejects", !compare_floats(x, y, T::of(d) * (T::one() - T::epsilon())), || format!("{:e} {:e} {:e}", a, b, d));
    m.hit("exact ties");
}
fn all(v: &[Option<bool>]) -> Option<bool> {
    if v.iter().any(|x| *x == Some(false)) {
        Some(false)
    } else if v.iter().all(|x| *x == Some(true)) {
        Some(true)
    } else {
        None
    }
}
fn vectors<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let n = match r.below(80) {
        0..=4 => 0,
        5..=14 => 1,
        15..=18 => 1 + r.below(300),
        19 => 1 + r.below(2000),
        _ => 1 + r.below(36),
    };
    let eps = tolerance::<T>(r);
    let near = |r: &mut Rng| -> (f64, f64) {
        let a = T::of(if r.chance(0.8) { gen::scalar(r) } else { number::<T>(r) }).f();
        let a = if a.is_nan() && r.chance(0.9) { 1.0 } else { a };
        let b = if r.chance(0.5) { a } else { T::of(a * (1.0 + r.sign() * eps * r.range(0.0, 1.8))).f() };
        (a, b)
    };
    let (mut v, mut w): (Vec<f64>, Vec<f64>) = (0..n).map(|_| near(r)).unzip();
    // exactly one pair differs in half of the cases
    if n > 0 && r.chance(0.5) {
        let i = r.below(n);
        w[i] = partner::<T>(r, v[i], eps);
        if r.chance(0.3) {
            w.swap(i, 0);
            v.swap(i, 0);
        }
    }
    m.input(&format!("v<{}>", T::NAME), &v);
    m.input("w", &w);
    m.input("eps", &[eps]);
    let f = |v: &[f64]| v.iter().map(|x| T::of(*x)).collect::<Vec<T>>();
    let g = compare_vecs(&f(&v), &f(&w), T::of(eps));
    let pairs: Vec<Option<bool>> = (0..n).map(|i| want::<T>(v[i], w[i], eps)).collect();
    let each = (0..n).all(|i| nearly_equal(T::of(v[i]), T::of(w[i]), T::of(eps)));
    if n > 36 {
        m.hit("long vectors");
    }
    m.check("vectors compare as their pairs", g == each, || format!("{:?} {:?}", v, w));
    if let Some(x) = all(&pairs) {
        m.check("vector verdict", g == x, || format!("{:?} {:?} {:e} = {}", v, w, eps, g));
        m.hit(if x { "vectors equal" } else { "vectors differ" });
    }
    // dual quaternions: eight pairs
    let (mut a, mut b): (Vec<f64>, Vec<f64>) = (0..8).map(|_| near(r)).unzip();
    if r.chance(0.6) {
        let i = r.below(8);
        b[i] = partner::<T>(r, a[i], eps);
    }
    for x in a.iter_mut().chain(b.iter_mut()) {
        if x.is_nan() {
            *x = 2.0;
        }
    }
    m.input("dq", &a);
    m.input("dq", &b);
    let mk = |v: &[f64]| dq_of::<T>(&[v[0], v[1], v[2], v[3]], &[v[4], v[5], v[6], v[7]]);
    let g = compare_dual_quaternions(mk(&a), mk(&b), T::of(eps));
    let pairs: Vec<Option<bool>> = (0..8).map(|i| want::<T>(a[i], b[i], eps)).collect();
    if let Some(x) = all(&pairs) {
        m.check("dual quaternion verdict", g == x, || format!("{:?} {:?} {:e} = {}", a, b, eps, g));
        m.hit(if x { "dual quaternions equal" } else { "dual quaternions differ" });
    }
    m.check("dual quaternions symmetric", g == compare_dual_quaternions(mk(&b), mk(&a), T::of(eps)), || format!("{:?} {:?}", a, b));
}
fn main() {
    monitor::run("C25", "two numbers (or tuples) and a tolerance, not all equal; distinct by values and element type", |p| {
        p.wl("numbers", 400_000, 40_000_000, |m, r| if r.chance(0.6) { numbers::<f64>(m, r) } else { numbers::<f32>(m, r) });
        p.guided_any("guided numbers", 80000, 6666666, |m, r| if r.chance(0.7) { numbers::<W64>(m, r) } else { numbers::<W32>(m, r) });
        p.wl("vectors", 100_000, 8_000_000, |m, r| if r.chance(0.6) { vectors::<f64>(m, r) } else { vectors::<f32>(m, r) });
        p.guided_any("guided vectors", 20000, 1333333, |m, r| if r.chance(0.7) { vectors::<W64>(m, r) } else { vectors::<W32>(m, r) });
        p.wl("ties", 20_000, 400_000, |m, r| if r.chance(0.6) { ties::<f64>(m, r) } else { ties::<f32>(m, r) });
        p.guided_any("guided ties", 4000, 66666, |m, r| if r.chance(0.7) { ties::<W64>(m, r) } else { ties::<W32>(m, r) });
        p.require(&["exact ties"], 100);
        p.require(&["accepted", "rejected", "NaN", "equal infinities", "opposite infinities", "both below the smallest normal", "one zero", "nearly zero", "absolute accept", "absolute reject", "vectors equal", "vectors differ", "long vectors", "dual quaternions equal", "dual quaternions differ"], 100);
        p.assume("relative means relative to the sum of the magnitudes, as in the comparison algorithm the crate cites; within a few rounding errors of the tolerance either answer is accepted");
    })
}
