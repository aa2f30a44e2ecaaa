//! C21: se(3) exponential, logarithm, screw axes and twist splitting.
use mon::qref::*;
use mon::refm::Rm;
use mon::*;
use static_math::transformations::*;
use std::f64::consts::PI;

fn se3(w: &[f64; 3], v: &[f64; 3]) -> Rm<f64> {
    let s = skew(w);
    Rm::from_fn(4, 4, |i, j| if i == 3 { 0.0 } else if j == 3 { v[i] } else { s.g(i, j) })
}
/// compare a rigid transform: exact bottom row, rotation and translation bounds
fn rigid_close(m: &mut Mon, name: &'static str, g: &Rm<f64>, w: &Rm<f64>, er: f64, et: f64, d: &dyn Fn() -> String) {
    for i in 0..4 {
        for j in 0..4 {
            let tol = if i == 3 { 0.0 } else if j == 3 { et } else { er };
            m.small(name, (g.g(i, j) - w.g(i, j)).abs(), tol, || format!("entry ({},{}) {} want {}: {}", i, j, g.g(i, j), w.g(i, j), d()));
        }
    }
}
/// rounding of the translation column: 1-cos is formed by cancellation (error min(eps/theta, theta))
fn vtol<T: Fl>(th: f64, v: f64) -> f64 {
    let e = T::EPS;
    (16.0 * e + 2.0 * e * th + if th > 0.0 { (2.0 * e / th).min(th) } else { 0.0 }) * v + T::MINP
}
fn twist<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let k = r.below(7);
    let a = gen::axis(r);
    let th = match r.below(4) {
        0 => r.logmag(-18.0, 0.0),
        1 => r.sign() * r.range(0.0, 9.0),
        _ => gen::angle(r),
    };
    let mut w = scale3(&a, th);
    let mut v = gen::vec3(r);
    match k {
        0 => {
            w = [0.0; 3];
            m.hit("pure translation");
        }
        1 => {
            v = [0.0; 3];
            m.hit("pure rotation");
        }
        2 => {
            // velocity along the axis
            v = scale3(&a, r.range(-4.0, 4.0));
            m.hit("screw along the axis through the origin");
        }
        3 => {
            w = scale3(&a, (PI - r.logmag(-16.0, -1.0)) * r.sign());
            m.hit("about a half turn");
        }
        _ => m.hit("general twist"),
    }
    let (w, v) = (rd3::<T>(&w), rd3::<T>(&v));
    m.input(&format!("twist<{}>", T::NAME), &[w[0], w[1], w[2], v[0], v[1], v[2]]);
    let tw = V6::new_from(T::of(w[0]), T::of(w[1]), T::of(w[2]), T::of(v[0]), T::of(v[1]), T::of(v[2]));
    let x = twist_to_se3(&tw);
    m.check("twist_to_se3", m44f(&x).a == se3(&w, &v).a, || format!("{:?}", m44f(&x).a));
    let g = matrix_exponential6(&x);
    let gf = m44f(&g);
    let want = exp_twist(&w, &v);
    let n = norm3(&w);
    let (er, et) = (10.0 * e + 2.0 * e * n, vtol::<T>(n, norm3(&v)));
    rigid_close(m, "exponential", &gf, &want.mat(), er, et, &|| format!("of {:?} {:?}", w, v));
    if r.chance(0.02) {
        let s = expm(&se3(&w, &v));
        rigid_close(m, "matrix series", &gf, &s, er, et, &|| format!("of {:?} {:?}", w, v));
        m.hit("series");
    }
    if n < PI - 1e-2 {
        let l = m44f(&matrix_log6(&g));
        let back = [l.g(2, 1), l.g(0, 2), l.g(1, 0)];
        m.small("log of exp: rotation", maxdiff(&back, &w), er + 12.0 * e, || format!("{:?} want {:?}", back, w));
        m.small("log of exp: velocity", maxdiff(&[l.g(0, 3), l.g(1, 3), l.g(2, 3)], &v), 4.0 * et + 24.0 * e * norm3(&v), || format!("{:?} want {:?}", l.a, v));
        m.hit("log of exp");
    }
    // splitting a twist: unit screw axis and distance, nothing lost
    let sv = norm3(&v);
    if n > T::MINP.sqrt() * 1e3 || (n == 0.0 && sv > T::MINP.sqrt() * 1e3) {
        let (s, t) = axis_angle6(&tw);
        let sf: Vec<f64> = s.iter().map(|x| x.f()).collect();
        let tf = t.f();
        let size = n.max(sv);
        if n > 1.01 * e {
            m.close("unit rotation part", norm3(&[sf[0], sf[1], sf[2]]), 1.0, 4.0 * e, || format!("{:?} of {:?}", sf, tw));
            m.close("angle of the twist", tf, n, 4.0 * e * n, || format!("{}", tf));
            m.hit("split a rotation twist");
        } else if n < 0.99 * e && sv > 0.0 && n < 1e-3 * sv {
            m.close("unit velocity part", norm3(&[sf[3], sf[4], sf[5]]), 1.0, 4.0 * e, || format!("{:?} of {:?}", sf, tw));
            m.close("length of the twist", tf, sv, 4.0 * e * sv, || format!("{}", tf));
            m.hit("split a translation twist");
        }
        if sv > 0.0 || n > 1.01 * e {
            for i in 0..6 {
                let c = if i < 3 { w[i] } else { v[i - 3] };
                m.close("split loses nothing", sf[i] * tf, c, 4.0 * e * c.abs() + T::MINP * (1.0 + tf), || format!("component {} of {:?} size {}", i, tw, size));
            }
        }
    }
    let tb = se3_to_twist(&x);
    m.check("se3_to_twist", tb == tw, || format!("{:?} want {:?}", tb, tw));
}
fn transform<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let q = match r.below(6) {
        0 => [1.0, 0.0, 0.0, 0.0],
        1 => qaa(r.logmag(-18.0, -2.0), &gen::axis(r)),
        2 => {
            m.hit("half turn");
            qaa(PI + if r.chance(0.5) { 0.0 } else { r.sign() * r.logmag(-16.0, -1.0) }, &gen::axis(r))
        }
        _ => gen::unitq(r),
    };
    let w = rdm::<T>(&Rigid { q, t: gen::vec3(r) }.mat());
    m.input(&format!("transform<{}>", T::NAME), &w.a);
    let x: M44<T> = m44_of(&w);
    let lm = matrix_log6(&x);
    let l = m44f(&lm);
    let p = norm3(&[w.g(0, 3), w.g(1, 3), w.g(2, 3)]);
    let skewed = (0..3).all(|i| (0..3).all(|j| l.g(i, j) == -l.g(j, i))) && (0..4).all(|j| l.g(3, j) == 0.0) && l.a.iter().all(|x| x.is_finite());
    m.check("log is a twist matrix", skewed, || format!("{:?} of {:?}", l.a, w.a));
    let om = [l.g(2, 1), l.g(0, 2), l.g(1, 0)];
    let v = [l.g(0, 3), l.g(1, 3), l.g(2, 3)];
    let n = norm3(&om);
    m.check("angle in [0, pi]", n <= PI * (1.0 + 4.0 * e), || format!("{}", n));
    let back = exp_twist(&om, &v).mat();
    rigid_close(m, "exponential of the log", &back, &w, 16.0 * e, 40.0 * e * p + T::MINP, &|| format!("log {:?} {:?}", om, v));
    let lib = m44f(&matrix_exponential6(&lm));
    rigid_close(m, "library exponential of the log", &lib, &w, 24.0 * e, 2.0 * vtol::<T>(n, norm3(&v)) + 60.0 * e * p, &|| format!("log {:?} {:?}", om, v));
    m.hit(if n == 0.0 { "log of a translation" } else if n < 1e-6 { "log of a tiny rotation" } else { "log of a motion" });
}
fn screw<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let s = rd3::<T>(&gen::axis(r));
    let q = rd3::<T>(&gen::vec3(r));
    let h = T::of(match r.below(5) {
        0 => 0.0,
        1 => r.int(-3, 3) as f64,
        2 => if r.chance(0.4) { r.sign() * r.logmag(-4.0, 4.0) } else if r.chance(0.3) { r.sign() * r.logmag(-12.0, 12.0) } else { gen::near_in(r, -1e4, 1e4) },
        _ => r.range(-3.0, 3.0),
    })
    .f();
    let th = T::of(match r.below(4) {
        0 => r.range(-60.0, 60.0),
        1 => if r.chance(0.5) { r.sign() * r.logmag(-12.0, 0.0) } else { gen::near_angle(r) },
        _ => r.range(-7.0, 7.0),
    })
    .f();
    m.input(&format!("axis<{}>", T::NAME), &s);
    m.input("point", &q);
    m.input("pitch, angle", &[h, th]);
    let ax = screw_to_axis(&v3_of::<T>(&q), &v3_of::<T>(&s), T::of(h));
    let f: Vec<f64> = ax.iter().map(|x| x.f()).collect();
    let v = add3(&cross(&q, &s), &scale3(&s, h));
    m.small("screw_to_axis", maxdiff(&f, &[s[0], s[1], s[2], v[0], v[1], v[2]]), 4.0 * e * (norm3(&q) + h.abs()), || format!("{:?} want {:?} {:?}", f, s, v));
    // points of the axis advance h per radian along it
    let g = matrix_exponential6(&(twist_to_se3(&ax) * T::of(th)));
    let gm = m44f(&g);
    let u = scale3(&s, 1.0 / norm3(&s));
    let lam = r.range(-3.0, 3.0);
    let pt = add3(&q, &scale3(&u, lam));
    let mut img = [0.0; 3];
    for i in 0..3 {
        img[i] = gm.g(i, 3) + (0..3).map(|j| gm.g(i, j) * pt[j]).sum::<f64>();
    }
    let want = add3(&pt, &scale3(&u, h * th));
    let size = 1.0 + norm3(&pt) + norm3(&v) * (1.0 + th.abs());
    let tol = 40.0 * e * (1.0 + th.abs()) * size + vtol::<T>(th.abs(), norm3(&v) * th.abs());
    m.small("axis advances by the pitch", maxdiff(&img, &want), tol, || format!("point {:?} image {:?} want {:?}", pt, img, want));
    m.hit(if h == 0.0 { "no pitch" } else { "pitch" });
    // splitting angle times screw axis gives them back
    if th > 1e-2 {
        let t6 = ax * T::of(th);
        let (a6, t) = axis_angle6(&t6);
        let f6: Vec<f64> = a6.iter().map(|x| x.f()).collect();
        m.close("split angle", t.f(), th, 8.0 * e * th, || format!("{}", t.f()));
        m.small("split axis", maxdiff(&f6, &f), 12.0 * e * (1.0 + norm3(&v)), || format!("{:?} want {:?}", f6, f));
    }
}
fn main() {
    monitor::run("C21", "twist, transform or screw with two different entries; distinct by values and element type", |p| {
        p.wl("twist", 90_000, 6_000_000, |m, r| if r.chance(0.6) { twist::<f64>(m, r) } else { twist::<f32>(m, r) });
        p.guided("guided twist", 18000, 1000000, |m, r| if r.chance(0.7) { twist::<W64>(m, r) } else { twist::<W32>(m, r) });
        p.wl("transform", 90_000, 6_000_000, |m, r| if r.chance(0.6) { transform::<f64>(m, r) } else { transform::<f32>(m, r) });
        p.guided("guided transform", 18000, 1000000, |m, r| if r.chance(0.7) { transform::<W64>(m, r) } else { transform::<W32>(m, r) });
        p.wl("screw", 60_000, 4_000_000, |m, r| if r.chance(0.6) { screw::<f64>(m, r) } else { screw::<f32>(m, r) });
        p.guided("guided screw", 12000, 666666, |m, r| if r.chance(0.7) { screw::<W64>(m, r) } else { screw::<W32>(m, r) });
        p.require(&["pure translation", "pure rotation", "screw along the axis through the origin", "about a half turn", "general twist", "log of exp", "series", "split a rotation twist", "split a translation twist", "half turn", "log of a translation", "log of a tiny rotation", "log of a motion", "no pitch", "pitch"], 50);
        p.assume("the translation column of the exponential forms 1-cos(theta) by cancellation, so it is judged with an extra min(eps/theta, theta) relative to the velocity");
    })
}
