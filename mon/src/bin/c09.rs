//! C09: real eigenvalues of 2x2 matrices.
use mon::*;

fn judge<T: Fl>(m: &mut Mon, v: [f64; 4]) {
    let t: Vec<T> = v.iter().map(|x| T::of(*x)).collect();
    let f: Vec<f64> = t.iter().map(|x| x.f()).collect();
    let a: M22<T> = Ma::mk(&t);
    m.input(&format!("M22<{}>", T::NAME), &f);
    let d = |x: f64| Dd::new(x);
    let tr = d(f[0]) + d(f[3]);
    // (a-d)^2 + 4bc, free of cancellation in the reference
    let df = d(f[0]) - d(f[3]);
    let disc = df * df + d(4.0) * d(f[1]) * d(f[2]);
    let mag = tr.f() * tr.f() + 4.0 * ((f[0] * f[3]).abs() + (f[1] * f[2]).abs());
    let bound = 4.0 * T::EPS * mag + T::MINP;
    let got = a.real_eigenvals();
    // exactly representable arithmetic: no rounding allowance at all
    let lim = if T::IS32 { 1000.0 } else { 10_000_000.0 };
    let exact = f.iter().all(|x| x.fract() == 0.0 && x.abs() <= lim);
    let ds = disc.f();
    let (must, mustnot) = if exact { (ds >= 0.0, ds < 0.0) } else { (ds > bound, ds < -bound) };
    if must {
        m.hit(if ds == 0.0 { "exact double root" } else { "real" });
        m.check("real eigenvalues returned", got.is_some(), || format!("disc {:e} refused", ds));
    } else if mustnot {
        m.hit("complex");
        m.check("complex refused", got.is_none(), || format!("disc {:e} gave {:?}", ds, got));
    } else {
        m.hit("discriminant within rounding of zero");
    }
    if let Some(e) = got {
        let s = if ds > 0.0 { disc.sqrt() } else { Dd::ZERO };
        let half = d(0.5);
        let (hi, lo) = ((tr + s) * half, (tr - s) * half);
        let es = if exact && ds == 0.0 { 0.0 } else if s.f() > 0.0 { (bound / s.f()).min(bound.sqrt()) } else { (2.0 * bound).sqrt() };
        let tol = es + 2.0 * T::EPS * (tr.f().abs() + s.f()) + T::MINP;
        let (g0, g1) = (e[0].f().max(e[1].f()), e[0].f().min(e[1].f()));
        m.close("larger root", g0, hi.f(), tol, || format!("roots {:?} disc {:e}", e, ds));
        m.close("smaller root", g1, lo.f(), tol, || format!("roots {:?} disc {:e}", e, ds));
        m.check("no NaN", !e[0].f().is_nan() && !e[1].f().is_nan(), || format!("{:?}", e));
        m.close("sum is the trace", e[0].f() + e[1].f(), tr.f(), 4.0 * T::EPS * (tr.f().abs() + s.f()) + 2.0 * es.min(T::EPS * (tr.f().abs() + s.f())) + T::MINP, || format!("{:?}", e));
    }
}
fn gen_case(m: &mut Mon, r: &mut Rng) -> [f64; 4] {
    match r.below(9) {
        0 => { let k = *r.pick(&[2i64, 5, 30, 900]); [r.int(-k, k) as f64, r.int(-k, k) as f64, r.int(-k, k) as f64, r.int(-k, k) as f64] }
        1 => { // integer double root: (a-d)^2 = -4bc
            let p = r.int(-9, 9); let q = r.int(-9, 9); let a = r.int(-20, 20);
            // a-d = 2pq, b = p^2, c = -q^2
            [(a + 2 * p * q) as f64, (p * p) as f64, (-q * q) as f64, a as f64] }
        2 => { let x = r.range(-5.0, 5.0); [x, r.range(-3.0, 3.0), 0.0, if r.chance(0.5) { x } else { r.range(-5.0, 5.0) }] }
        3 => { let t = gen::angle(r); let s = r.logmag(-3.0, 3.0); [s * t.cos(), -s * t.sin(), s * t.sin(), s * t.cos()] }
        4 => { let b = r.range(-3.0, 3.0); [r.range(-3.0, 3.0), b, b, r.range(-3.0, 3.0)] }
        5 => { m.hit("nearly double root"); let x = r.range(-3.0, 3.0); let e = r.logmag(-12.0, -1.0); let b = r.range(0.1, 3.0); [x + e, b, r.sign() * e * e * r.range(0.0, 1.0) / b, x - e] }
        6 => { let s = r.logmag(-8.0, 8.0); [s * r.normal(), s * r.normal(), s * r.normal(), s * r.normal()] }
        7 => { m.hit("large off-diagonal ratio"); let k = r.logmag(-4.0, 4.0); [r.normal(), k * r.normal(), r.normal() / k, r.normal()] }
        _ => [gen::scalar(r), gen::scalar(r), gen::scalar(r), gen::scalar(r)],
    }
}
/// the same problem in another unit of measure
fn unit_of<T: Fl>(m: &mut Mon, r: &mut Rng, v: [f64; 4]) -> [f64; 4] {
    if !r.chance(0.15) {
        return v;
    }
    m.hit("scaled by a power of two");
    let lim = if T::IS32 { 30 } else { 400 };
    let s = 2f64.powi(r.int(-lim, lim) as i32);
    v.map(|x| x * s)
}
fn main() {
    monitor::run("C09", "matrix with two different entries; distinct by entry bits and element type", |p| {
        p.wl("f64", 200_000, 10_000_000, |m, r| { let v = gen_case(m, r); let v = unit_of::<f64>(m, r, v); judge::<f64>(m, v) });
        p.wl("f32", 150_000, 5_000_000, |m, r| { let v = gen_case(m, r); let v = unit_of::<f32>(m, r, v); judge::<f32>(m, v) });
        p.guided("guided roots", 50000, 2000000, |m, r| { let v = gen_case(m, r); let v = unit_of::<f32>(m, r, v); if r.chance(0.7) { judge::<W64>(m, v) } else { judge::<W32>(m, v) } });
        p.require(&["real", "complex", "exact double root", "discriminant within rounding of zero", "nearly double root", "scaled by a power of two", "large off-diagonal ratio"], 100);
        p.assume("existence is judged only when the discriminant exceeds its rounding bound, except for small integer matrices where it is judged exactly");
    })
}
