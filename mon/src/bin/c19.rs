//! C19: elementary rotations, Euler sequences and ZYX extraction.
use mon::qref::*;
use mon::refm::Rm;
use mon::*;
use static_math::transformations::*;

fn elem(k: usize, th: f64) -> Rm<f64> {
    let (s, c) = th.sin_cos();
    // right handed: e_{k+1} goes towards e_{k+2}
    let (i, j) = ((k + 1) % 3, (k + 2) % 3);
    let mut m = Rm::ident(3);
    m.set(i, i, c);
    m.set(j, j, c);
    m.set(j, i, s);
    m.set(i, j, -s);
    m
}
fn crot<T: Fl>(k: usize, th: T) -> M33<T> {
    match k {
        0 => rotx(th),
        1 => roty(th),
        _ => rotz(th),
    }
}
fn big<T: Fl>(r: &mut Rng) -> f64 {
    let x = gen::angle(r);
    T::of(if r.chance(0.05) { x * r.logmag(0.0, 3.0) } else { x }).f()
}
fn elementary<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let (a, b) = (big::<T>(r), big::<T>(r));
    m.input(&format!("angles<{}>", T::NAME), &[a, b]);
    let (s, c) = a.sin_cos();
    let p = rot2(T::of(a));
    let pf = m_f::<M22<T>, T>(&p);
    m.small("rot2", maxdiff(&pf.a, &[c, -s, s, c]), 2.0 * e, || format!("{:?} want cos {} sin {}", pf.a, c, s));
    m.close("rot2 proper", pf.g(0, 0) * pf.g(1, 1) - pf.g(0, 1) * pf.g(1, 0), 1.0, 4.0 * e, || format!("{:?}", pf.a));
    let add = T::of(a + b).f();
    let ta = 8.0 * e * (1.0 + add.abs());
    m.small("rot2 adds angles", maxdiff(&m_f::<M22<T>, T>(&(p * rot2(T::of(b)))).a, &m_f::<M22<T>, T>(&rot2(T::of(add))).a), ta, || format!("{} {}", a, b));
    for k in 0..3 {
        let g = crot(k, T::of(a));
        let gf = m33f(&g);
        let w = elem(k, a);
        m.small(["rotx", "roty", "rotz"][k], maxdiff(&gf.a, &w.a), 2.0 * e, || format!("{:?} want {:?}", gf.a, w.a));
        m.close("proper", gf.det(), 1.0, 6.0 * e, || format!("axis {} det {}", k, gf.det()));
        m.small("orthogonal", maxdiff(&gf.mul(&gf.t()).a, &Rm::ident(3).a), 6.0 * e, || format!("axis {}", k));
        m.small("adds angles", maxdiff(&m33f(&(g * crot(k, T::of(b)))).a, &m33f(&crot(k, T::of(add))).a), ta, || format!("axis {} {} {}", k, a, b));
        // agrees with the axis-angle builder and with the quaternion
        let mut ax = [0.0; 3];
        ax[k] = 1.0;
        m.small("axis-angle agrees", maxdiff(&m33f(&rotation_from_axis_angle(&v3_of::<T>(&ax), T::of(a))).a, &w.a), 4.0 * e, || format!("axis {} {}", k, a));
    }
    if a.abs() > 6.3 {
        m.hit("beyond a full turn");
    }
}
fn seq(k: usize) -> (Option<EulerSeq>, [usize; 3]) {
    match k {
        0 => (Some(EulerSeq::XYX), [0, 1, 0]),
        1 => (Some(EulerSeq::XYZ), [0, 1, 2]),
        2 => (Some(EulerSeq::XZX), [0, 2, 0]),
        3 => (Some(EulerSeq::XZY), [0, 2, 1]),
        4 => (Some(EulerSeq::YXY), [1, 0, 1]),
        5 => (Some(EulerSeq::YXZ), [1, 0, 2]),
        6 => (Some(EulerSeq::YZX), [1, 2, 0]),
        7 => (Some(EulerSeq::YZY), [1, 2, 1]),
        8 => (Some(EulerSeq::ZXY), [2, 0, 1]),
        9 => (Some(EulerSeq::ZXZ), [2, 0, 2]),
        _ => (None, [2, 1, 0]),
    }
}
const SEQ: [&str; 11] = ["XYX", "XYZ", "XZX", "XZY", "YXY", "YXZ", "YZX", "YZY", "ZXY", "ZXZ", "ZYX"];
fn sequences<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let k = r.below(11);
    let (a, b, c) = (big::<T>(r), big::<T>(r), big::<T>(r));
    m.input(&format!("{}<{}>", SEQ[k], T::NAME), &[a, b, c]);
    m.hit(SEQ[k]);
    let (s, ix) = seq(k);
    let w = elem(ix[0], a).mul(&elem(ix[1], b)).mul(&elem(ix[2], c));
    let g = m33f(&euler_to_rotation(T::of(a), T::of(b), T::of(c), s));
    m.small("sequence", maxdiff(&g.a, &w.a), 8.0 * e, || format!("{} {} {} {}: {:?} want {:?}", SEQ[k], a, b, c, g.a, w.a));
}
/// rotation matrices of many kinds, in T
fn rotation<T: Fl>(m: &mut Mon, r: &mut Rng) -> Rm<f64> {
    use std::f64::consts::FRAC_PI_2;
    let k = r.below(9);
    let w = match k {
        0 => {
            // exact gimbal lock
            m.hit("gimbal lock");
            let x = elem(2, gen::angle(r)).mul(&elem(1, r.sign() * FRAC_PI_2));
            x.mul(&elem(0, gen::angle(r)))
        }
        1 => {
            m.hit("near gimbal lock");
            let d = r.logmag(-17.0, -1.0);
            let x = elem(2, gen::angle(r)).mul(&elem(1, r.sign() * (FRAC_PI_2 - d)));
            x.mul(&elem(0, gen::angle(r)))
        }
        2 => {
            // one of the 24 axis permutations
            m.hit("axis permutation");
            let mut p = [0usize, 1, 2];
            r.shuffle(&mut p);
            let mut w: Rm<f64> = Rm::zeros(3, 3);
            for i in 0..3 {
                w.set(i, p[i], r.sign());
            }
            if w.det() < 0.0 {
                for j in 0..3 {
                    let v = -w.g(0, j);
                    w.set(0, j, v);
                }
            }
            w
        }
        3 => {
            let x = elem(2, gen::angle(r)).mul(&elem(1, gen::angle(r)));
            x.mul(&elem(0, gen::angle(r)))
        }
        4 => qmat(&qaa(std::f64::consts::PI, &gen::axis(r))),
        5 => {
            // as computed rotations are: every entry off by a rounding error, close to gimbal lock
            m.hit("rounded near gimbal lock");
            let d = r.logmag(-17.0, -1.0);
            let x = elem(2, gen::angle(r)).mul(&elem(1, r.sign() * (FRAC_PI_2 - d)));
            let mut w = x.mul(&elem(0, gen::angle(r)));
            for v in w.a.iter_mut() {
                *v = (*v + r.range(-1.0, 1.0) * T::EPS).max(-1.0).min(1.0);
            }
            w
        }
        _ => qmat(&gen::unitq(r)),
    };
    rdm::<T>(&w)
}
fn extract<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let w = rotation::<T>(m, r);
    m.input(&format!("rotation<{}>", T::NAME), &w.a);
    let (y, p, o) = rotation_to_euler(&m33_of::<T>(&w));
    let (y, p, o) = (y.f(), p.f(), o.f());
    m.check("pitch range", p.abs() <= std::f64::consts::FRAC_PI_2 * (1.0 + 2.0 * e), || format!("pitch {}", p));
    m.check("yaw and roll range", y.abs() <= std::f64::consts::PI * (1.0 + 2.0 * e) && o.abs() <= std::f64::consts::PI * (1.0 + 2.0 * e), || format!("yaw {} roll {}", y, o));
    let b = elem(2, y).mul(&elem(1, p)).mul(&elem(0, o));
    m.small("angles rebuild the matrix", maxdiff(&b.a, &w.a), 24.0 * e, || format!("angles {} {} {} rebuild {:?} of {:?}", y, p, o, b.a, w.a));
    let c = m33f(&euler_to_rotation(T::of(y), T::of(p), T::of(o), None));
    m.small("library rebuild", maxdiff(&c.a, &w.a), 32.0 * e, || format!("angles {} {} {} rebuild {:?} of {:?}", y, p, o, c.a, w.a));
}
fn main() {
    monitor::run("C19", "angles (two or three, not all equal) or a rotation matrix; distinct by values, sequence and element type", |p| {
        p.wl("elementary", 60_000, 5_000_000, |m, r| if r.chance(0.6) { elementary::<f64>(m, r) } else { elementary::<f32>(m, r) });
        p.guided("guided elementary", 12000, 833333, |m, r| if r.chance(0.7) { elementary::<W64>(m, r) } else { elementary::<W32>(m, r) });
        p.wl("sequences", 100_000, 8_000_000, |m, r| if r.chance(0.6) { sequences::<f64>(m, r) } else { sequences::<f32>(m, r) });
        p.guided("guided sequences", 20000, 1333333, |m, r| if r.chance(0.7) { sequences::<W64>(m, r) } else { sequences::<W32>(m, r) });
        p.wl("extract", 150_000, 12_000_000, |m, r| if r.chance(0.6) { extract::<f64>(m, r) } else { extract::<f32>(m, r) });
        p.guided("guided extract", 30000, 2000000, |m, r| if r.chance(0.7) { extract::<W64>(m, r) } else { extract::<W32>(m, r) });
        p.require(&SEQ, 100);
        p.require(&["beyond a full turn", "gimbal lock", "near gimbal lock", "rounded near gimbal lock", "axis permutation"], 100);
    })
}
