//! C15: histories of quaternion operations; the cached normalised state must never show.
use mon::qref::*;
use mon::*;

/// everything observable about q must match a quaternion freshly built from its components
fn fresh_equal<T: Fl>(m: &mut Mon, q: &Quaternion<T>, v: &[f64; 3], hist: &[&'static str]) {
    let e = T::EPS;
    let a = qf(q);
    let f = q_of::<T>(&a);
    let n = qnorm(&a);
    let h = || format!("history {:?} components {:?}", hist, a);
    m.check("equality", *q == f && f == *q, h);
    m.close("norm2", q.norm2().f(), f.norm2().f(), 2.0 * e * n, h);
    m.close("norm2 value", q.norm2().f(), n, 6.0 * e * n + T::MINP.sqrt() * 4.0, h);
    m.close("abs2 value", q.abs2().f(), n * n, 6.0 * e * n * n + T::MINP * 4.0, h);
    m.small("conj", maxdiff(&qf(&q.conj()), &[a[0], -a[1], -a[2], -a[3]]), 0.0, h);
    // normalise: unit, same direction, refused only near zero
    let nn = q.normalize();
    if n > e * 1.01 {
        if m.check("normalize exists", nn.is_some(), h) {
            let u = qf(&nn.unwrap());
            m.small("normalize", maxdiff(&u, &qunit(&a)), 8.0 * e, || format!("{:?} from {}", u, h()));
        }
        let fu = f.normalize();
        m.check("normalize fresh", fu.is_some(), h);
    } else if n < e * 0.99 {
        m.check("normalize refused", nn.is_none(), h);
        m.hit("nearly zero quaternion");
    }
    if n > e * 1.01 {
        let u = qf(&q.normalize_q());
        m.small("normalize_q", maxdiff(&u, &qunit(&a)), 8.0 * e, || format!("{:?} from {}", u, h()));
    }
    if n * n > e * 1.01 {
        let i = q.inverse();
        if m.check("inverse exists", i.is_some(), h) {
            let c = qconj(&dd4(&a));
            let s = qdot(&dd4(&a), &dd4(&a));
            let w = f4(&[c[0] / s, c[1] / s, c[2] / s, c[3] / s]);
            m.small("inverse value", maxdiff(&qf(&i.unwrap()), &w), 10.0 * e / n, || format!("{:?} want {:?} from {}", qf(&i.unwrap()), w, h()));
            m.check("inverse fresh", f.inverse().is_some(), h);
        }
        let p = q_of::<T>(&[1.0, -2.0, 0.5, 3.0]);
        let d = maxdiff(&qf(&(p / *q)), &qf(&(p / f)));
        m.small("division", d, 40.0 * e / n, h);
        let d = maxdiff(&qf(&(*q / p)), &qf(&(f / p)));
        m.small("division by", d, 8.0 * e * n, h);
        m.small("ln", maxdiff(&qf(&q.ln()), &qf(&f.ln())), 24.0 * e * (1.0 + n.ln().abs()) + ln_axis_slack::<T>(&a, n), h);
        let (x, y) = (q.get_angle().f(), f.get_angle().f());
        m.close("get_angle", x, y, 8.0 * e, h);
        let im = norm3(&[a[1], a[2], a[3]]) / n;
        if im > 16.0 * e {
            let (x, y) = (q.get_axis(), f.get_axis());
            if m.check("get_axis exists", x.is_some() && y.is_some(), h) {
                m.small("get_axis", maxdiff(&v3f(&x.unwrap()), &v3f(&y.unwrap())), 16.0 * e + 8.0 * e / im, h);
            }
        }
    } else if n * n < e * 0.99 {
        m.check("inverse refused", q.inverse().is_none(), h);
    }
    // rotating a vector
    let vt = v3_of::<T>(v);
    let d = maxdiff(&v3f(&(*q * vt)), &v3f(&(f * vt)));
    m.small("rotate vector", d, 16.0 * e * (1.0 + n * n) * norm3(v), h);
    m.small("to_rotation", maxdiff(&m33f(&q.to_rotation()).a, &m33f(&f.to_rotation()).a), 8.0 * e * n * n, h);
    if (n - 1.0).abs() < 1e-6 {
        let (a1, b1, c1) = q.to_euler_angles();
        let (a2, b2, c2) = f.to_euler_angles();
        m.check("to_euler_angles", a1 == a2 && b1 == b2 && c1 == c2, h);
    }
    if n < 30.0 {
        let d = maxdiff(&qf(&q.exp()), &qf(&f.exp()));
        m.small("exp", d, 8.0 * e * a[0].exp(), h);
    }
    let d = maxdiff(&qf(&q.argq()), &qf(&f.argq()));
    m.small("argq", d, 0.0, h);
}
/// when the imaginary part sits at the crate's epsilon switch both readings are legitimate
fn ln_axis_slack<T: Fl>(a: &[f64; 4], n: f64) -> f64 {
    let im = norm3(&[a[1], a[2], a[3]]) / n;
    if im < 4.0 * T::EPS { 4.0 } else { 0.0 }
}

fn history<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let v = rd3::<T>(&gen::vec3(r));
    let mut hist: Vec<&'static str> = vec![];
    let mut log: Vec<f64> = v.to_vec();
    let other = |r: &mut Rng| -> Quaternion<T> {
        match r.below(6) {
            5 => q_of::<T>(&plain(r)),
            0 => Quaternion::rotation(T::of(gen::angle(r)), &v3_of::<T>(&gen::axis(r))),
            1 => Quaternion::from_euler_angles(T::of(gen::angle(r)), T::of(gen::angle(r)), T::of(gen::angle(r))),
            2 => unit_t::<T>(r),
            3 => Quaternion::one(),
            _ => q_of::<T>(&rd4::<T>(&gen::quat_wide(r, 1.0, 5.0))),
        }
    };
    let mut q = other(r);
    for _ in 0..(2 + r.below(10)) {
        let n = qnorm(&qf(&q));
        let p = other(r);
        let pn = qnorm(&qf(&p));
        log.extend_from_slice(&qf(&p));
        let k = r.below(22);
        let (name, res): (&'static str, Option<Quaternion<T>>) = match k {
            0 | 1 => ("mul", Some(q * p)),
            2 => ("left mul", Some(p * q)),
            3 => ("add", Some(q + p)),
            4 => ("sub", Some(q - p)),
            5 => ("scale", Some(q * T::of(if r.chance(0.3) { r.sign() * r.logmag(-3.0, 3.0) } else { r.range(-2.0, 2.0) }))),
            6 => ("scalar div", Some(q / T::of(r.sign() * r.range(0.5, 2.0)))),
            7 => ("neg", Some(-q)),
            8 => ("conj", Some(q.conj())),
            9 | 10 => ("normalize", q.normalize()),
            11 => ("normalize_q", Some(q.normalize_q())),
            12 => ("inverse", if n > 0.01 { q.inverse() } else { None }),
            13 => ("div", if pn > 0.05 { Some(q / p) } else { None }),
            14 => ("exp", if n < 3.0 { Some(q.exp()) } else { None }),
            15 => ("ln", if n > 0.01 { Some(q.ln()) } else { None }),
            16 => ("slerp", if (n - 1.0).abs() < 1e-3 { p.normalize().map(|p| Quaternion::slerp(q, p, T::of(r.unit()))) } else { None }),
            17 => ("derivative", Some(q.derivative(&v3_of::<T>(&[1.0, -0.5, 0.25])))),
            18 => ("argq", Some(q.argq())),
            19 => ("pow", if n > 0.01 { Some(q.pow(if r.chance(0.4) { Quaternion::new_real(T::of(r.range(-2.0, 2.0))) } else { p })) } else { None }),
            20 => ("sin or cos", if n < 3.0 { Some(if r.chance(0.5) { q.sin() } else { q.cos() }) } else { None }),
            _ => ("sqrt", if n > 0.01 { Some(q.sqrt()) } else { None }),
        };
        if let Some(x) = res {
            if qf(&x).iter().all(|c| c.is_finite()) && qnorm(&qf(&x)) < 1e3 {
                q = x;
                hist.push(name);
                m.hit(name);
            }
        }
        fresh_equal(m, &q, &v, &hist);
    }
    m.input("history", &log);
}
fn small<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let hi = *r.pick(&[2.0, 2.0, 9.0, if T::IS32 { 20.0 } else { 120.0 }]);
    let s = T::EPS * r.logmag(-2.0, hi);
    let u = gen::unitq(r);
    let a = if r.chance(0.05) { [0.0; 4] } else { rd4::<T>(&[u[0] * s, u[1] * s, u[2] * s, u[3] * s]) };
    m.input(&format!("small q<{}>", T::NAME), &a);
    fresh_equal(m, &q_of::<T>(&a), &[1.0, 2.0, 3.0], &["small"]);
    // normalize_q never fails and always returns a unit quaternion
    let g = qf(&q_of::<T>(&a).normalize_q());
    m.close("normalize_q unit", qnorm(&g), 1.0, 8.0 * T::EPS, || format!("{:?} -> {:?}", a, g));
    m.close("argq unit", qnorm(&qf(&q_of::<T>(&a).argq())), 1.0, 8.0 * T::EPS, || format!("{:?}", a));
}
/// every source of the flag, directly
fn sources<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let v = rd3::<T>(&gen::vec3(r));
    let th = T::of(gen::angle(r));
    let ax = v3_of::<T>(&match r.below(4) {
        0 => gen::axis(r),
        1 => {
            let p = plain(r);
            if p[1..] == [0.0; 3] { [1.0, 1.0, 0.0] } else { [p[1], p[2], p[3]] }
        }
        _ => scale3(&gen::axis(r), r.logmag(-2.0, 2.0)),
    });
    let u = rd4::<T>(&gen::unitq(r));
    let s = r.logmag(-2.0, 2.0);
    let big = if r.chance(0.7) { q_of::<T>(&rd4::<T>(&scale4(&u, s))) } else { q_of::<T>(&plain(r)) };
    m.input(&format!("sources<{}>", T::NAME), &[th.f(), ax[0].f(), ax[1].f(), ax[2].f(), u[0], u[1], u[2], u[3], s]);
    let tiny = v3_of::<T>(&scale3(&gen::axis(r), r.logmag(-18.0, 1.0)));
    let src: Vec<(&'static str, Quaternion<T>)> = vec![
        ("rotation", Quaternion::rotation(th, &ax)),
        ("rotation_norm_encoded", Quaternion::rotation_norm_encoded(&tiny)),
        ("from_euler_angles", Quaternion::from_euler_angles(th, ax[0], ax[1])),
        ("normalize", big.normalize().unwrap()),
        ("normalize_q", big.normalize_q()),
        ("argq", big.argq()),
        ("one", Quaternion::one()),
        ("zero", Quaternion::zero()),
        ("from_rotation", Quaternion::from_rotation(&q_of::<T>(&u).to_rotation())),
        ("new_real", Quaternion::new_real(T::of(s))),
        ("new_imag", Quaternion::new_imag(&ax)),
        ("slerp", Quaternion::slerp(big.normalize().unwrap(), Quaternion::rotation(th, &ax), T::of(r.unit()))),
        ("new_from_vec", Quaternion::new_from_vec(&V4::new(plain(r).map(T::of)))),
        ("from array", Quaternion::from(plain(r).map(T::of))),
        ("dual parts", DualQuaternion::new_from_array([qf(&big)[0], qf(&big)[1], qf(&big)[2], qf(&big)[3], v[0], v[1], v[2]].map(T::of)).real()),
        ("exp tiny", Quaternion::new_imag(&tiny).exp()),
        ("exp small", q_of::<T>(&rd4::<T>(&scale4(&u, T::EPS * r.logmag(-2.0, 2.0)))).exp()),
    ];
    for (name, q) in src {
        m.hit(name);
        fresh_equal(m, &q, &v, &[name]);
        let two = T::of(2.0);
        fresh_equal(m, &(q * two), &v, &[name, "times 2"]);
        fresh_equal(m, &(q / two), &v, &[name, "over 2"]);
        fresh_equal(m, &(q + q), &v, &[name, "plus itself"]);
        fresh_equal(m, &(q - Quaternion::one()), &v, &[name, "minus one"]);
        fresh_equal(m, &(-q), &v, &[name, "neg"]);
        fresh_equal(m, &q.conj(), &v, &[name, "conj"]);
        fresh_equal(m, &(q * big), &v, &[name, "times non unit"]);
    }
}
/// components among a few round numbers, not all zero: norms that are exactly 1, 2, 1/2...
fn plain(r: &mut Rng) -> [f64; 4] {
    let k = *r.pick(&[1.0, 1.0, 0.5, 0.25]);
    let p = [0; 4].map(|_| *r.pick(&[0.0, 0.0, 1.0, -1.0, 2.0, -2.0, 3.0, 0.6, -0.8]) * k);
    if p == [0.0; 4] { [0.0, 1.0, 1.0, 0.0] } else { p }
}
fn scale4(q: &[f64; 4], s: f64) -> [f64; 4] {
    [q[0] * s, q[1] * s, q[2] * s, q[3] * s]
}
fn deriv<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let a = rd4::<T>(&gen::quat(r, 2.0));
    let w = rd3::<T>(&gen::vec3(r));
    m.input(&format!("derivative q<{}>", T::NAME), &a);
    m.input("rate", &w);
    let g = qf(&q_of::<T>(&a).derivative(&v3_of::<T>(&w)));
    let x = f4(&qscale(&qmul(&dd4(&[0.0, w[0], w[1], w[2]]), &dd4(&a)), Dd::new(0.5)));
    m.small("derivative", maxdiff(&g, &x), 3.0 * T::EPS * qnorm(&a) * norm3(&w) + T::MINP * 16.0, || format!("{:?} want {:?}", g, x));
    m.hit("derivative law");
}
fn main() {
    monitor::run("C15", "history whose operands have different components; distinct by operands, operation choices follow the same stream", |p| {
        p.wl("history", 40_000, 3_000_000, |m, r| if r.chance(0.7) { history::<f64>(m, r) } else { history::<f32>(m, r) });
        p.guided("guided history", 8000, 500000, |m, r| if r.chance(0.7) { history::<W64>(m, r) } else { history::<W32>(m, r) });
        p.wl("sources", 15_000, 600_000, |m, r| if r.chance(0.7) { sources::<f64>(m, r) } else { sources::<f32>(m, r) });
        p.guided("guided sources", 3000, 100000, |m, r| if r.chance(0.7) { sources::<W64>(m, r) } else { sources::<W32>(m, r) });
        p.wl("small", 50_000, 1_000_000, |m, r| if r.chance(0.6) { small::<f64>(m, r) } else { small::<f32>(m, r) });
        p.guided("guided small", 10000, 166666, |m, r| if r.chance(0.7) { small::<W64>(m, r) } else { small::<W32>(m, r) });
        p.wl("derivative", 50_000, 1_000_000, |m, r| if r.chance(0.6) { deriv::<f64>(m, r) } else { deriv::<f32>(m, r) });
        p.guided("guided derivative", 10000, 166666, |m, r| if r.chance(0.7) { deriv::<W64>(m, r) } else { deriv::<W32>(m, r) });
        p.require(&["mul", "left mul", "add", "sub", "scale", "scalar div", "neg", "conj", "normalize", "normalize_q", "inverse", "div", "exp", "ln", "slerp", "derivative", "argq", "sqrt", "pow", "sin or cos"], 100);
        p.require(&["nearly zero quaternion", "rotation", "rotation_norm_encoded", "from_euler_angles", "one", "exp tiny", "exp small", "derivative law"], 100);
    })
}
