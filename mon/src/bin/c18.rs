//! C18: screw parameters, power, logarithm and screw interpolation against the twist of the motion.
use mon::qref::*;
use mon::*;

/// unit dual quaternion in T of a motion, through one of the constructors or raw (flag clear), either sign
fn make<T: Fl>(r: &mut Rng, w: &Rigid) -> DualQuaternion<T> {
    match r.below(4) {
        0 => DualQuaternion::new_from_rot_trans(&q_of::<T>(&w.q), &v3_of::<T>(&w.t)),
        1 => {
            let (a, b) = w.dq();
            dq_of::<T>(&a, &b)
        }
        2 => DualQuaternion::new_from_translation(&v3_of::<T>(&w.t)) * DualQuaternion::new_from_rotation(&q_of::<T>(&w.q)),
        _ => {
            let (a, b) = w.dq();
            (dq_of::<T>(&a, &b) * T::of(2.0)).normalize().unwrap()
        }
    }
}
/// the motion a dual quaternion in T stands for (its components normalised in double precision)
fn read<T: Fl>(d: &DualQuaternion<T>) -> Rigid {
    let (a, b) = dqf(d);
    let n = qnorm(&a);
    let q = qunit(&a);
    let x = f4(&qmul(&dd4(&b), &qconj(&dd4(&q))));
    Rigid { q, t: [2.0 * x[1] / n, 2.0 * x[2] / n, 2.0 * x[3] / n] }
}
fn motion(m: &mut Mon, r: &mut Rng) -> Rigid {
    let k = r.below(8);
    let mut q = gen::unitq(r);
    let mut t = gen::vec3(r);
    match k {
        0 => {
            q = [1.0, 0.0, 0.0, 0.0];
            m.hit("pure translation");
        }
        1 => {
            t = [0.0; 3];
            m.hit("pure rotation");
        }
        2 => {
            // tiny rotation
            let a = gen::axis(r);
            q = qaa(r.logmag(-18.0, -2.0), &a);
            m.hit("tiny rotation");
        }
        3 => {
            // no slide: rotation about a displaced axis
            let c = gen::vec3(r);
            let rg = Rigid { q, t: [0.0; 3] };
            t = sub3(&c, &rg.apply(&c));
            m.hit("displaced axis without slide");
        }
        4 => {
            // slide along the axis only
            let a = gen::axis(r);
            let s = r.range(-5.0, 5.0);
            q = qaa(gen::angle(r), &a);
            t = scale3(&a, s);
            m.hit("slide along the axis");
        }
        5 => {
            let a = gen::axis(r);
            q = qaa(std::f64::consts::PI, &a);
            m.hit("half turn");
        }
        6 => {
            // a whole turn, or close to it
            let a = gen::axis(r);
            q = match r.below(3) {
                0 => [-1.0, 0.0, 0.0, 0.0],
                1 => qaa(2.0 * std::f64::consts::PI - r.logmag(-12.0, -1.0), &a),
                _ => qaa(2.0 * std::f64::consts::PI, &a),
            };
            m.hit("near full turn");
        }
        _ => {}
    }
    Rigid { q, t }
}
fn cmp<T: Fl>(m: &mut Mon, name: &'static str, g: &DualQuaternion<T>, w: &Rigid, tr: f64, tt: f64, d: &dyn Fn() -> String) {
    // up to the common sign of real and dual part
    let (gr, gd) = dqf(g);
    let (wr, wd) = w.dq();
    let flip = gr.iter().zip(&wr).map(|(a, b)| a * b).sum::<f64>() < 0.0;
    let s = if flip { -1.0 } else { 1.0 };
    let er = maxdiff(&gr, &wr.map(|x| s * x));
    let ed = maxdiff(&gd, &wd.map(|x| s * x));
    m.small(name, er, tr, || format!("{} {}: got {:?} {:?} want {:?} {:?}", name, d(), gr, gd, wr, wd));
    m.small(name, ed, tt, || format!("{} {}: got {:?} {:?} want {:?} {:?}", name, d(), gr, gd, wr, wd));
}
fn powers<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let w0 = motion(m, r);
    let d = make::<T>(r, &w0);
    let w = read(&d);
    let x = T::of(match r.below(11) {
        10 => gen::near_in(r, -20.0, 20.0),
        0 => 0.0,
        1 => 1.0,
        2 => -1.0,
        3 => 0.5,
        4 => r.int(-4, 4) as f64,
        5 => r.sign() * r.logmag(-6.0, 0.0),
        6 => r.int(-300, 300) as f64,
        7 => r.sign() * r.logmag(0.0, 3.0),
        _ => r.range(-3.0, 3.0),
    })
    .f();
    let (a, b) = dqf(&d);
    m.input(&format!("dq<{}>", T::NAME), &a);
    m.input("eps", &b);
    m.input("exponent", &[x]);
    let s = norm3(&[w.q[1], w.q[2], w.q[3]]);
    let tn = norm3(&w.t);
    // close to a full turn (real part -1) the axis is lost
    if w.q[0] < 0.0 && s < 1e3 * e {
        let p = d.pow(T::of(x));
        let (a, b) = dqf(&p);
        m.check("pow near a full turn is finite", a.iter().chain(&b).all(|x| x.is_finite()), || format!("{:?}", p));
        if s < 0.25 * e {
            // a pure translation
            let t = scale3(&w.t, x);
            cmp(m, "pow of a full turn", &p, &Rigid { q: [1.0, 0.0, 0.0, 0.0], t }, 8.0 * e, 8.0 * e * (1.0 + x.abs()) * tn + T::MINP, &|| format!("{} ^ {} ", d, x));
            m.hit("power of a full turn");
        } else {
            m.hit("too close to a full turn (not judged)");
        }
        return;
    }
    let amp = if w.q[0] < 0.0 { 1.0 / s } else { 1.0 };
    let p = d.pow(T::of(x));
    let want = w.pow(x);
    let ax = 1.0 + x.abs();
    let det = || format!("{} ^ {} ", d, x);
    let tr = 16.0 * e * ax * amp;
    let tt = 24.0 * e * ax * ax * amp * amp * (tn + norm3(&want.t));
    cmp(m, "pow", &p, &want, tr, tt + T::MINP, &det);
    if x == 1.0 {
        cmp(m, "pow 1", &p, &w, tr, tt, &det);
        m.hit("exponent one");
    }
    // powers add up
    let y = T::of(if r.chance(0.2) { r.sign() * r.logmag(0.0, 2.5) } else if r.chance(0.2) { gen::near_in(r, -10.0, 10.0) } else { r.range(-2.0, 2.0) }).f();
    let z = T::of(x + y).f();
    let both = d.pow(T::of(x)) * d.pow(T::of(y));
    let wz = w.pow(z);
    let az = 2.0 + x.abs() + y.abs();
    cmp(m, "powers add up", &both, &wz, 16.0 * e * az * amp, 24.0 * e * az * az * amp * amp * (tn + norm3(&wz.t) + norm3(&want.t) + norm3(&w.pow(y).t)) + T::MINP, &det);
}
fn screws<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let w0 = motion(m, r);
    let d = make::<T>(r, &w0);
    let w = read(&d);
    let (a, b) = dqf(&d);
    m.input(&format!("dq<{}>", T::NAME), &a);
    m.input("eps", &b);
    let s = norm3(&[w.q[1], w.q[2], w.q[3]]);
    let tn = norm3(&w.t);
    let (l, mo, th, dd) = d.get_screw_parameters();
    let (lf, mf, thf, df) = (v3f(&l), v3f(&mo), th.f(), dd.f());
    if w.q[0] < 0.0 && s < 1e3 * e && s > 0.25 * e {
        m.hit("too close to a full turn (not judged)");
    } else if s < 2.0 * e {
        // no rotation: the axis is the direction of translation
        m.hit("parameters of a translation");
        if w.q[0] < 0.0 {
            m.hit("parameters of a full turn");
        }
        if s < 0.45 * e {
            m.close("translation angle", thf, 2.0 * s, 4.0 * e, || format!("{:?}", d));
            m.close("translation slide", df, tn, 8.0 * e * tn + T::MINP.sqrt(), || format!("{:?} {:?}", d, df));
            if tn > 4.0 * e {
                m.small("translation axis", maxdiff(&lf, &scale3(&w.t, 1.0 / tn)), 16.0 * e, || format!("{:?} {:?}", d, lf));
            }
        }
    } else {
        m.hit("parameters of a rotation");
        let (om, v) = w.twist();
        let ang = norm3(&om);
        let amp = if w.q[0] < 0.0 { 1.0 / s } else { 1.0 };
        m.close("angle", thf, ang, 6.0 * e * (ang + amp.min(4.0)).min(8.0 * ang + 8.0 * e), || format!("{:?}", d));
        m.close("axis is unit", norm3(&lf), 1.0, 8.0 * e * amp, || format!("{:?} {:?}", d, lf));
        m.small("axis", maxdiff(&lf, &scale3(&om, 1.0 / ang)), 8.0 * e * amp, || format!("{:?} {:?}", d, lf));
        let wd = dot3(&v, &scale3(&om, 1.0 / ang));
        m.close("slide", df, wd, 24.0 * e * tn * amp + T::MINP, || format!("{:?} {:?}", d, df));
        // moment of the axis: v = slide * axis + angle * moment
        let wm = scale3(&sub3(&v, &scale3(&om, wd / ang)), 1.0 / ang);
        let tm = 40.0 * e * amp * amp * tn * (1.0 + 1.0 / ang) + T::MINP;
        m.small("moment", maxdiff(&mf, &wm), tm, || format!("{:?} {:?} want {:?}", d, mf, wm));
        m.small("moment orthogonal to the axis", dot3(&mf, &lf).abs(), tm, || format!("{:?} {:?}", d, mf));
        // and they rebuild the motion
        let g = DualQuaternion::new_from_screw_parameters(&l, &mo, th, dd);
        cmp(m, "rebuild", &g, &w, 16.0 * e * amp, 60.0 * e * amp * amp * tn + T::MINP, &|| format!("{:?}", d));
    }
    // parameters first: a screw about a random line
    let ax = gen::axis(r);
    let c = gen::vec3(r);
    let (th, sl) = (T::of(gen::angle(r)).f(), T::of(r.range(-5.0, 5.0)).f());
    let ax = rd3::<T>(&ax);
    let mo = rd3::<T>(&cross(&c, &ax));
    m.input("screw axis", &ax);
    m.input("moment, angle, slide", &[mo[0], mo[1], mo[2], th, sl]);
    let g = DualQuaternion::new_from_screw_parameters(&v3_of::<T>(&ax), &v3_of::<T>(&mo), T::of(th), T::of(sl));
    let u = scale3(&ax, 1.0 / norm3(&ax));
    let want = exp_twist(&scale3(&u, th), &add3(&scale3(&u, sl), &scale3(&mo, th)));
    let k = 16.0 * e * (1.0 + th.abs());
    cmp(m, "screw built", &g, &want, k, 4.0 * k * (1.0 + sl.abs() + norm3(&mo)), &|| format!("axis {:?} moment {:?} angle {} slide {}", ax, mo, th, sl));
    // the axis line stays on the axis: c goes to c + slide * axis
    let mv = g.get_translation();
    let gw = read(&g);
    let img = add3(&qrot(&gw.q, &c), &v3f(&mv));
    let exp = add3(&c, &scale3(&u, sl));
    m.small("axis point slides along the axis", maxdiff(&img, &exp), 8.0 * k * (1.0 + norm3(&c) + sl.abs()), || format!("{:?} want {:?}", img, exp));
    // logarithm: half of (rotation vector, slide * axis + angle * moment)
    for q in [d.normalize().expect("unit"), DualQuaternion::new_from_rot_trans(&q_of::<T>(&w0.q), &v3_of::<T>(&w0.t))] {
        let wq = read(&q);
        let s = norm3(&[wq.q[1], wq.q[2], wq.q[3]]);
        let lg = q.log();
        if !m.check("log exists", lg.is_some(), || format!("{:?}", q)) {
            continue;
        }
        let (lr, ld) = dqf(&lg.unwrap());
        m.check("log is finite", lr.iter().chain(&ld).all(|x| x.is_finite()), || format!("{:?} log {:?} {:?}", q, lr, ld));
        if wq.q[0] < 0.0 && s < 1e3 * e {
            continue;
        }
        let amp = if wq.q[0] < 0.0 { 1.0 / s } else { 1.0 };
        let (om, v) = wq.twist();
        let tn = norm3(&wq.t);
        m.small("log real", maxdiff(&lr, &[0.0, om[0] / 2.0, om[1] / 2.0, om[2] / 2.0]), 16.0 * e * amp, || format!("{:?} log {:?} want {:?}", q, lr, om));
        m.small("log dual", maxdiff(&ld, &[0.0, v[0] / 2.0, v[1] / 2.0, v[2] / 2.0]), 60.0 * e * tn * amp * amp + T::MINP, || format!("{:?} log {:?} want half of {:?}", q, ld, v));
        m.hit("log");
    }
    // refused when not known to be normalised
    m.check("log of an unnormalised value", (dq_of::<T>(&a, &b) * T::of(2.0)).log().is_none(), || format!("{:?}", d));
}
fn lerp<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let wa = motion(m, r);
    let k = r.below(8);
    let wb = match k {
        0 => wa.clone(),
        1 => Rigid { q: wa.q, t: gen::vec3(r) },
        2 => Rigid { q: gen::unitq(r), t: wa.t },
        3 => {
            // nearly equal pose
            let a = gen::axis(r);
            let s = r.logmag(-17.0, -2.0);
            let v = gen::vec3(r);
            wa.then(&Rigid { q: qaa(s, &a), t: scale3(&v, s) })
        }
        4 => {
            let a = gen::axis(r);
            let v = gen::vec3(r);
            wa.then(&Rigid { q: qaa(std::f64::consts::PI - if r.chance(0.5) { 0.0 } else { r.sign() * r.logmag(-9.0, -1.0) }, &a), t: v })
        }
        _ => motion(m, r),
    };
    let wb = if r.chance(0.4) { Rigid { q: wb.q.map(|x| -x), t: wb.t } } else { wb };
    let (da, db) = (make::<T>(r, &wa), make::<T>(r, &wb));
    let (a, b) = (read(&da), read(&db));
    let tau = T::of(match r.below(6) {
        0 => 0.0,
        1 => 1.0,
        2 => 0.5,
        _ => r.unit(),
    })
    .f();
    for (n, d) in [("begin", &da), ("end", &db)] {
        let (x, y) = dqf(d);
        m.input(n, &x);
        m.input("eps", &y);
    }
    m.input(&format!("tau<{}>", T::NAME), &[tau]);
    let g = DualQuaternion::screw_lerp(&da, &db, T::of(tau));
    // relative motion, shortest rotation
    let mut rel = a.inv().then(&b);
    let dot = rel.q[0];
    if dot < 0.0 {
        rel.q = rel.q.map(|x| -x);
        m.hit("opposite signs");
    }
    let want = a.then(&rel.pow(tau));
    let reach = norm3(&a.t) + norm3(&b.t) + norm3(&rel.t);
    let (tr, tt) = (24.0 * e, 60.0 * e * reach + T::MINP);
    let det = || format!("from {} to {} at {}", da, db, tau);
    let (gr, gd) = dqf(&g);
    m.check("finite", gr.iter().chain(&gd).all(|x| x.is_finite()), || format!("{:?} {}", g, det()));
    let mut alt = want.clone();
    if dot.abs() < 16.0 * e {
        // half a turn apart: both directions are shortest
        m.hit("half a turn apart");
        let o = Rigid { q: rel.q.map(|x| -x), t: rel.t };
        let c = a.then(&o.pow(tau));
        let near = |x: &Rigid| rotdist(&gr, &x.q);
        if near(&c) < near(&want) {
            alt = c;
        }
    }
    cmp(m, "pose", &g, &alt, tr, tt, &det);
    if tau == 0.0 {
        cmp(m, "starts at the first pose", &g, &a, tr, tt, &det);
        m.hit("tau = 0");
    }
    if tau == 1.0 {
        cmp(m, "ends at the second pose", &g, &b, tr, tt, &det);
        m.hit("tau = 1");
    }
    if k == 0 {
        m.hit("equal poses");
    }
}
fn main() {
    monitor::run("C18", "motion with non-constant dual quaternion; distinct by components, exponent or parameter, and element type", |p| {
        p.wl("pow", 60_000, 4_000_000, |m, r| if r.chance(0.65) { powers::<f64>(m, r) } else { powers::<f32>(m, r) });
        p.guided("guided pow", 12000, 666666, |m, r| if r.chance(0.7) { powers::<W64>(m, r) } else { powers::<W32>(m, r) });
        p.wl("screw", 60_000, 4_000_000, |m, r| if r.chance(0.65) { screws::<f64>(m, r) } else { screws::<f32>(m, r) });
        p.guided("guided screw", 12000, 666666, |m, r| if r.chance(0.7) { screws::<W64>(m, r) } else { screws::<W32>(m, r) });
        p.wl("lerp", 60_000, 4_000_000, |m, r| if r.chance(0.65) { lerp::<f64>(m, r) } else { lerp::<f32>(m, r) });
        p.guided("guided lerp", 12000, 666666, |m, r| if r.chance(0.7) { lerp::<W64>(m, r) } else { lerp::<W32>(m, r) });
        p.require(&["pure translation", "pure rotation", "tiny rotation", "displaced axis without slide", "slide along the axis", "half turn", "near full turn", "power of a full turn", "parameters of a full turn", "exponent one", "parameters of a translation", "parameters of a rotation", "log", "opposite signs", "half a turn apart", "equal poses", "tau = 0", "tau = 1"], 100);
        p.assume("motions within 1000 rounding errors of a full turn (real part -1), where the axis is lost, are only checked for finiteness");
    })
}
