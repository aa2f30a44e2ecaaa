//! C20: so(3) exponential and logarithm against Rodrigues' formula written out and the matrix series.
use mon::qref::*;
use mon::refm::Rm;
use mon::*;
use static_math::transformations::*;
use std::f64::consts::PI;

fn expo<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let a = rd3::<T>(&gen::axis(r));
    let th = T::of(match r.below(5) {
        0 => if r.chance(0.8) { r.logmag(-18.0, 0.0) } else { r.sign() * r.logmag(0.0, 12.0) },
        1 => if r.chance(0.8) { r.sign() * r.range(0.0, 12.0) } else { r.sign() * gen::near(r).min(12.0) },
        2 => r.sign() * (PI - r.logmag(-16.0, -1.0)),
        _ => gen::angle(r),
    })
    .f();
    m.input(&format!("axis<{}>", T::NAME), &a);
    m.input("angle", &[th]);
    let u = scale3(&a, 1.0 / norm3(&a));
    let w = rot_aa(th, &u);
    let g = m33f(&rotation_from_axis_angle(&v3_of::<T>(&a), T::of(th)));
    m.small("rotation_from_axis_angle", maxdiff(&g.a, &w.a), 20.0 * e, || format!("{:?} want {:?}", g.a, w.a));
    let v = rd3::<T>(&scale3(&a, th));
    let n = norm3(&v);
    let we = rot_aa(n, &if n > 0.0 { scale3(&v, 1.0 / n) } else { u });
    let sk = skew_from_vec(&v3_of::<T>(&v));
    let x = matrix_exponential(&sk);
    let g = m33f(&x);
    let tol = 10.0 * e + 2.0 * e * n;
    m.small("matrix_exponential", maxdiff(&g.a, &we.a), tol, || format!("of {:?}: {:?} want {:?}", v, g.a, we.a));
    if r.chance(0.02) {
        let s = expm(&skew(&v));
        m.small("matrix series", maxdiff(&g.a, &s.a), tol, || format!("of {:?}: {:?} want {:?}", v, g.a, s.a));
        m.hit("series");
    }
    m.small("input unchanged", maxdiff(&m33f(&sk).a, &skew(&v).a), 0.0, || "skew".into());
    // inverse is the transpose
    let i = rotation_inverse(&x);
    m.check("rotation_inverse is the transpose", m33f(&i).a == g.t().a, || format!("{:?}", m33f(&i).a));
    m.small("rotation_inverse undoes", maxdiff(&m33f(&(x * i)).a, &Rm::ident(3).a), 2.0 * tol, || "R*Rinv".into());
    // back
    let l = m33f(&matrix_log(&x));
    if n < PI - 1e-2 {
        m.small("log of exp", maxdiff(&l.a, &skew(&v).a), tol + 10.0 * e, || format!("{:?} want skew of {:?}", l.a, v));
        m.hit("log of exp");
    }
    // splitting a rotation vector
    if n > 0.0 && n > T::MINP.sqrt() * 1e3 {
        let (ax, t) = axis_angle(&v3_of::<T>(&v));
        let ax = v3f(&ax);
        m.close("axis_angle: unit axis", norm3(&ax), 1.0, 4.0 * e, || format!("{:?}", ax));
        m.close("axis_angle: angle", t.f(), n, 4.0 * e * n, || format!("{:?} {}", v, t.f()));
        m.small("axis_angle loses nothing", maxdiff(&scale3(&ax, t.f()), &v), 6.0 * e * n, || format!("{:?} {:?} {}", v, ax, t.f()));
    }
    m.hit(if n < 1e-7 { "tiny angle" } else if (n - PI).abs() < 1e-3 { "about a half turn" } else if n > 2.0 * PI { "beyond a full turn" } else { "general angle" });
}
fn logm<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let k = r.below(6);
    let a = gen::axis(r);
    let w = match k {
        0 => Rm::ident(3),
        1 => {
            // exact half turns about any axis
            m.hit("half turn");
            rot_aa(PI, &a)
        }
        2 => {
            m.hit("near half turn");
            rot_aa(PI + r.sign() * r.logmag(-17.0, -1.0), &a)
        }
        3 => {
            m.hit("tiny rotation");
            rot_aa(r.logmag(-18.0, -2.0), &a)
        }
        _ => qmat(&gen::unitq(r)),
    };
    let w = rdm::<T>(&w);
    let x: M33<T> = m33_of(&w);
    m.input(&format!("rotation<{}>", T::NAME), &w.a);
    if k == 0 {
        m.hit("identity");
    }
    let lm = matrix_log(&x);
    let l = m33f(&lm);
    m.check("log is a skew matrix", (0..3).all(|i| (0..3).all(|j| l.g(i, j) == -l.g(j, i))) && l.a.iter().all(|x| x.is_finite()), || format!("{:?} of {:?}", l.a, w.a));
    let v = [l.g(2, 1), l.g(0, 2), l.g(1, 0)];
    let n = norm3(&v);
    m.check("angle in [0, pi]", n <= PI * (1.0 + 4.0 * e), || format!("angle {} of {:?}", n, w.a));
    let back = if n > 0.0 { rot_aa(n, &scale3(&v, 1.0 / n)) } else { Rm::ident(3) };
    m.small("exponential of the log is the rotation", maxdiff(&back.a, &w.a), 16.0 * e, || format!("log {:?} gives {:?} of {:?}", v, back.a, w.a));
    m.small("library exponential of the log", maxdiff(&m33f(&matrix_exponential(&lm)).a, &w.a), 24.0 * e, || format!("of {:?}", w.a));
    // the angle itself, from trace and antisymmetric part
    let s = norm3(&[w.g(2, 1) - w.g(1, 2), w.g(0, 2) - w.g(2, 0), w.g(1, 0) - w.g(0, 1)]) / 2.0;
    let c = (w.g(0, 0) + w.g(1, 1) + w.g(2, 2) - 1.0) / 2.0;
    m.close("angle", n, s.atan2(c), 32.0 * e, || format!("of {:?}", w.a));
    let i = rotation_inverse(&x);
    m.small("log of the inverse", maxdiff(&m33f(&matrix_exponential(&matrix_log(&i))).a, &w.t().a), 24.0 * e, || format!("{:?}", w.a));
}
fn main() {
    monitor::run("C20", "axis and angle or rotation matrix with two different entries; distinct by values and element type", |p| {
        p.wl("exponential", 120_000, 8_000_000, |m, r| if r.chance(0.6) { expo::<f64>(m, r) } else { expo::<f32>(m, r) });
        p.guided("guided exponential", 24000, 1333333, |m, r| if r.chance(0.7) { expo::<W64>(m, r) } else { expo::<W32>(m, r) });
        p.wl("logarithm", 120_000, 8_000_000, |m, r| if r.chance(0.6) { logm::<f64>(m, r) } else { logm::<f32>(m, r) });
        p.guided("guided logarithm", 24000, 1333333, |m, r| if r.chance(0.7) { logm::<W64>(m, r) } else { logm::<W32>(m, r) });
        p.require(&["tiny angle", "about a half turn", "beyond a full turn", "general angle", "log of exp", "series", "identity", "half turn", "near half turn", "tiny rotation"], 50);
        p.assume("axis_angle is not defined for the zero vector (documented panic)");
    })
}
