//! C14: slerp against exact great-arc motion.
use mon::qref::*;
use mon::*;

fn neg(q: &[f64; 4]) -> [f64; 4] {
    [-q[0], -q[1], -q[2], -q[3]]
}
/// angle in 4-space between unit quaternions, accurate for small and large angles
fn arc(a: &[f64; 4], b: &[f64; 4]) -> f64 {
    let s: Vec<f64> = (0..4).map(|i| a[i] - b[i]).collect();
    let p: Vec<f64> = (0..4).map(|i| a[i] + b[i]).collect();
    let n = |v: &[f64]| v.iter().map(|x| x * x).sum::<f64>().sqrt();
    2.0 * n(&s).atan2(n(&p))
}
fn refslerp(a: &[f64; 4], b: &[f64; 4], t: f64) -> [f64; 4] {
    let h = arc(a, b);
    if h == 0.0 {
        return *a;
    }
    // orthonormal direction from a towards b
    let (ad, bd) = (dd4(a), dd4(b));
    let d = qdot(&ad, &bd);
    let mut v = f4(&[bd[0] - ad[0] * d, bd[1] - ad[1] * d, bd[2] - ad[2] * d, bd[3] - ad[3] * d]);
    let n = v.iter().map(|x| x * x).sum::<f64>().sqrt();
    if n == 0.0 {
        return *a;
    }
    for x in v.iter_mut() {
        *x /= n
    }
    let (s, c) = (t * h).sin_cos();
    [c * a[0] + s * v[0], c * a[1] + s * v[1], c * a[2] + s * v[2], c * a[3] + s * v[3]]
}
fn case<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let ta = unit_t::<T>(r);
    let a = qunit(&qf(&ta));
    let kind = r.below(8);
    let (u, w) = (gen::axis(r), if r.chance(0.2) { 0.5 * gen::near_angle(r).abs() } else { r.logmag(-16.0, -0.5) });
    let sgn = r.sign();
    let mul = |q: &[f64; 4], p: &[f64; 4]| f4(&qmul(&dd4(q), &dd4(p)));
    let b0 = match kind {
        0 => a,
        1 => neg(&a),
        // nearly equal rotations, either sign
        2 | 3 => {
            let q = mul(&a, &qaa(2.0 * w, &u));
            if sgn < 0.0 { neg(&q) } else { q }
        }
        // around the switch to linear interpolation
        4 => {
            let q = mul(&a, &qaa(2.0 * 1e-3 * r.range(0.5, 2.0), &u));
            if sgn < 0.0 { neg(&q) } else { q }
        }
        // half a turn apart
        5 => mul(&a, &qaa(std::f64::consts::PI + if r.chance(0.5) { 0.0 } else { sgn * r.logmag(-12.0, -1.0) }, &u)),
        _ => gen::unitq(r),
    };
    let tb = {
        let q = q_of::<T>(&rd4::<T>(&b0));
        if r.chance(0.5) { q.normalize().unwrap() } else { q }
    };
    let b = qunit(&qf(&tb));
    let t = match r.below(7) {
        6 => gen::near_in(r, 0.0, 1.0),
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        3 => r.logmag(-12.0, 0.0),
        _ => r.unit(),
    };
    let t = T::of(t).f();
    m.input(&format!("a<{}>", T::NAME), &qf(&ta));
    m.input("b", &qf(&tb));
    m.input("t", &[t]);
    let g = qf(&Quaternion::slerp(ta, tb, T::of(t)));
    let dot = qdot(&dd4(&a), &dd4(&b)).f();
    let bs = if dot < 0.0 { neg(&b) } else { b };
    let s = arc(&a, &bs).sin();
    // linear branch: chord error s^2/8; otherwise rounding of acos and 1-cos^2; below sqrt(eps) the arc is not seen
    let lin = 1.1e-3 + 4.0 * e.sqrt();
    let tol = 16.0 * e + if s < lin { 0.2 * s.min(lin) * s.min(lin) + (4.0 * e.sqrt()).min(s) * if s < 8.0 * e.sqrt() { 1.0 } else { 0.0 } } else { 0.0 } + if s > 0.9e-3 { 6.0 * e / (s * s) } else { 0.0 };
    m.check("finite, not zero", g.iter().all(|x| x.is_finite()) && qnorm(&g) > 0.5, || format!("slerp = {:?}", g));
    m.close("unit", qnorm(&g), 1.0, tol, || format!("arc {:e} t {} result {:?}", s, t, g));
    let want = refslerp(&a, &bs, t);
    let mut d = rotdist(&g, &want);
    if dot.abs() < 8.0 * e {
        // half a turn apart: both arcs are shortest
        d = d.min(rotdist(&g, &refslerp(&a, &neg(&bs), t)));
        m.hit("half a turn apart");
    }
    m.small("point of the arc", d, tol, || format!("arc {:e} t {} got {:?} want {:?}", s, t, g, want));
    if t == 0.0 {
        m.small("starts at a", rotdist(&g, &a), tol, || format!("{:?}", g));
        m.hit("t = 0");
    }
    if t == 1.0 {
        m.small("ends at b", rotdist(&g, &b), tol, || format!("{:?}", g));
        m.hit("t = 1");
    }
    if dot < 0.0 {
        m.hit("opposite signs");
    }
    m.hit(if s < 1e-7 { "identical or below resolution" } else if s < 1e-3 { "nearly parallel" } else if s < 2.1e-3 { "near the linear switch" } else { "general arc" });
    if s < 1e-3 && dot < 0.0 {
        m.hit("nearly parallel, opposite signs");
    }
}
fn main() {
    monitor::run("C14", "two unit quaternions with different components; distinct by both quaternions, t and element type", |p| {
        p.wl("f64", 250_000, 15_000_000, |m, r| case::<f64>(m, r));
        p.wl("f32", 100_000, 6_000_000, |m, r| case::<f32>(m, r));
        p.guided("guided slerp", 60000, 3000000, |m, r| if r.chance(0.7) { case::<W64>(m, r) } else { case::<W32>(m, r) });
        p.require(&["t = 0", "t = 1", "opposite signs", "identical or below resolution", "nearly parallel", "near the linear switch", "general arc", "half a turn apart", "nearly parallel, opposite signs"], 100);
        p.assume("below an arc of 0.001 the crate interpolates linearly (chord error up to arc^2/8); above it the arc is taken from acos(dot), whose rounding grows as eps/arc^2 (this makes single precision loose near that switch)");
    })
}
