//! C12: axis-angle, rotation vector and yaw-pitch-roll conversions of quaternions.
use mon::qref::*;
use mon::*;
use std::f64::consts::FRAC_PI_2;

/// |angle| as held by T contributes its own rounding
fn hyp<T: Fl>(th: f64) -> f64 {
    T::EPS * (8.0 + if T::IS32 { 2.0 * th.abs() } else { 2.0 * th.abs() })
}
fn axisangle<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let th = T::of(gen::angle(r)).f();
    let s = if r.chance(0.5) { 1.0 } else if r.chance(0.2) { gen::near(r).clamp(1e-3, 1e3) } else { r.logmag(-3.0, 3.0) };
    let a0 = gen::axis(r);
    let v = rd3::<T>(&scale3(&a0, s));
    let n = norm3(&v);
    if n == 0.0 {
        return;
    }
    let a = scale3(&v, 1.0 / n);
    m.input(&format!("angle<{}>", T::NAME), &[th]);
    m.input("axis", &v);
    let q = Quaternion::rotation(T::of(th), &v3_of::<T>(&v));
    let want = qaa(th, &a);
    m.small("rotation(angle, axis)", rotdist(&qf(&q), &want), hyp::<T>(0.0), || format!("got {:?} want {:?}", qf(&q), want));
    m.close("unit", qnorm(&qf(&q)), 1.0, 8.0 * T::EPS, || format!("{:?}", qf(&q)));
    if th.abs() > 6.3 {
        m.hit("beyond a full turn");
    }
    if th < 0.0 {
        m.hit("negative angle");
    }
    readback::<T>(m, &q);
}
fn readback<T: Fl>(m: &mut Mon, q: &Quaternion<T>) {
    let g = qf(q);
    let u = qunit(&g);
    let (ax, an) = q.axis_angle();
    let im = norm3(&[u[1], u[2], u[3]]);
    let want = 2.0 * im.atan2(u[0]);
    m.close("get_angle", an.f(), want, 16.0 * T::EPS, || format!("{:?}", g));
    m.check("combined form", q.get_angle() == an && q.get_axis() == ax, || format!("{:?}", g));
    let e = T::EPS;
    // the axis is found from sin(angle/2), whose rounding is about eps
    if im > 8.0 * e {
        if !m.check("axis reported", ax.is_some(), || format!("{:?}", g)) {
            return;
        }
        let a = v3f(&ax.unwrap());
        let w = scale3(&[u[1], u[2], u[3]], 1.0 / im);
        m.small("axis", maxdiff(&a, &w), 8.0 * e + 3.0 * e / im, || format!("got {:?} want {:?}", a, w));
        let b = Quaternion::rotation(an, &ax.unwrap());
        m.small("axis/angle rebuild", rotdist(&qf(&b), &u), 16.0 * e, || format!("rebuilt {:?} from {:?}", qf(&b), u));
        m.hit("axis read back");
        if im < 1e-4 && u[0] < 0.0 {
            m.hit("axis near a full turn");
        }
    } else if im == 0.0 {
        m.hit("no rotation");
        if u[0] > 0.0 {
            m.check("no axis at zero rotation", ax.is_none(), || format!("{:?} -> {:?}", g, ax));
        } else if let Some(a) = ax {
            m.check("axis finite", v3f(&a).iter().all(|x| x.is_finite()), || format!("{:?}", a));
        }
    }
    if let Some(a) = ax {
        m.check("axis not NaN", v3f(&a).iter().all(|x| !x.is_nan()), || format!("{:?}", a));
    }
}
fn raw<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let q = if r.chance(0.7) { rd4::<T>(&gen::unitq(r)) } else { rd4::<T>(&gen::quat(r, 2.0)) };
    if qnorm(&q) < 1e-3 {
        return;
    }
    m.input(&format!("q<{}>", T::NAME), &q);
    let q = q_of::<T>(&q);
    readback(m, &q);
    // flagged quaternions read back the same
    readback(m, &q.normalize().unwrap());
}
fn rotvec<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let th = match r.below(4) {
        0 => 0.0,
        1 => r.logmag(-17.0, -6.0),
        _ => gen::angle(r).abs(),
    };
    let v = rd3::<T>(&scale3(&gen::axis(r), th));
    let n = norm3(&v);
    m.input(&format!("rotation vector<{}>", T::NAME), &v);
    let q = qf(&Quaternion::rotation_norm_encoded(&v3_of::<T>(&v)));
    let want = if n == 0.0 { [1.0, 0.0, 0.0, 0.0] } else { qaa(n, &scale3(&v, 1.0 / n)) };
    m.small("rotation vector", rotdist(&q, &want), 8.0 * T::EPS + 2.0 * T::EPS * n, || format!("got {:?} want {:?}", q, want));
    m.close("unit", qnorm(&q), 1.0, 8.0 * T::EPS, || format!("{:?}", q));
    m.hit(if n == 0.0 { "zero rotation vector" } else if n < 1e-6 { "tiny rotation vector" } else { "rotation vector" });
}
fn euler<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let g = |r: &mut Rng| T::of(gen::angle(r)).f();
    let (y, p, x) = (g(r), g(r), g(r));
    m.input(&format!("yaw pitch roll<{}>", T::NAME), &[y, p, x]);
    let q = Quaternion::from_euler_angles(T::of(y), T::of(p), T::of(x));
    let (qz, qy, qx) = (qaa(y, &[0.0, 0.0, 1.0]), qaa(p, &[0.0, 1.0, 0.0]), qaa(x, &[1.0, 0.0, 0.0]));
    let want = f4(&qmul(&qmul(&dd4(&qz), &dd4(&qy)), &dd4(&qx)));
    let gq = qf(&q);
    m.small("from_euler_angles", rotdist(&gq, &want), 12.0 * T::EPS, || format!("got {:?} want {:?}", gq, want));
    m.close("unit", qnorm(&gq), 1.0, 8.0 * T::EPS, || format!("{:?}", gq));
    if (p.abs() - FRAC_PI_2).abs() < 1e-3 {
        m.hit("gimbal lock");
    }
    m.hit("yaw-pitch-roll");
    readeuler::<T>(m, &q);
}
fn readeuler<T: Fl>(m: &mut Mon, q: &Quaternion<T>) {
    let u = qunit(&qf(q));
    let (a, b, c) = q.to_euler_angles();
    let (y, p, x) = (a.f(), b.f(), c.f());
    m.check("angles finite", y.is_finite() && p.is_finite() && x.is_finite(), || format!("{:?} -> {} {} {}", u, y, p, x));
    m.check("pitch range", p.abs() <= FRAC_PI_2 + 4.0 * T::EPS, || format!("pitch {}", p));
    let (qz, qy, qx) = (qaa(y, &[0.0, 0.0, 1.0]), qaa(p, &[0.0, 1.0, 0.0]), qaa(x, &[1.0, 0.0, 0.0]));
    let back = f4(&qmul(&qmul(&dd4(&qz), &dd4(&qy)), &dd4(&qx)));
    m.small("yaw-pitch-roll rebuild", rotdist(&back, &u), 40.0 * T::EPS, || format!("angles {} {} {} rebuild {:?} want {:?}", y, p, x, back, u));
    let again = Quaternion::from_euler_angles(a, b, c);
    m.small("rebuild through the crate", rotdist(&qf(&again), &u), 48.0 * T::EPS, || format!("angles {} {} {}", y, p, x));
    if (p.abs() - FRAC_PI_2).abs() < 1e-6 {
        m.hit("read back at gimbal lock");
    }
}
fn eulerback<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let u = if r.chance(0.5) {
        // pitch at or extremely near a quarter turn
        let p = r.sign() * (FRAC_PI_2 - if r.chance(0.3) { 0.0 } else { r.sign() * r.logmag(-17.0, -2.0) });
        let (qz, qy, qx) = (qaa(gen::angle(r), &[0.0, 0.0, 1.0]), qaa(p, &[0.0, 1.0, 0.0]), qaa(gen::angle(r), &[1.0, 0.0, 0.0]));
        f4(&qmul(&qmul(&dd4(&qz), &dd4(&qy)), &dd4(&qx)))
    } else {
        gen::unitq(r)
    };
    let u = rd4::<T>(&u);
    m.input(&format!("unit q<{}>", T::NAME), &u);
    let q = q_of::<T>(&u);
    readeuler(m, &if r.chance(0.5) { q.normalize().unwrap() } else { q });
}
fn main() {
    monitor::run("C12", "at least two different input numbers, or a nonzero angle; distinct by inputs and element type", |p| {
        p.wl("axis-angle", 100_000, 5_000_000, |m, r| if r.chance(0.6) { axisangle::<f64>(m, r) } else { axisangle::<f32>(m, r) });
        p.guided("guided axis-angle", 20000, 833333, |m, r| if r.chance(0.7) { axisangle::<W64>(m, r) } else { axisangle::<W32>(m, r) });
        p.wl("raw", 100_000, 5_000_000, |m, r| if r.chance(0.6) { raw::<f64>(m, r) } else { raw::<f32>(m, r) });
        p.guided("guided raw", 20000, 833333, |m, r| if r.chance(0.7) { raw::<W64>(m, r) } else { raw::<W32>(m, r) });
        p.wl("rotation-vector", 60_000, 3_000_000, |m, r| if r.chance(0.6) { rotvec::<f64>(m, r) } else { rotvec::<f32>(m, r) });
        p.guided("guided rotation-vector", 12000, 500000, |m, r| if r.chance(0.7) { rotvec::<W64>(m, r) } else { rotvec::<W32>(m, r) });
        p.wl("euler", 80_000, 5_000_000, |m, r| if r.chance(0.6) { euler::<f64>(m, r) } else { euler::<f32>(m, r) });
        p.guided("guided euler", 16000, 833333, |m, r| if r.chance(0.7) { euler::<W64>(m, r) } else { euler::<W32>(m, r) });
        p.wl("euler-back", 80_000, 5_000_000, |m, r| if r.chance(0.6) { eulerback::<f64>(m, r) } else { eulerback::<f32>(m, r) });
        p.guided("guided euler-back", 16000, 833333, |m, r| if r.chance(0.7) { eulerback::<W64>(m, r) } else { eulerback::<W32>(m, r) });
        p.require(&["beyond a full turn", "negative angle", "axis read back", "axis near a full turn", "no rotation", "zero rotation vector", "tiny rotation vector", "gimbal lock", "yaw-pitch-roll", "read back at gimbal lock"], 100);
    })
}
