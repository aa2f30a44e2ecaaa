//! C22: homogeneous transforms built, split, inverted.
use mon::qref::*;
use mon::refm::Rm;
use mon::*;
use static_math::transformations::*;

fn spatial<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let q = rd4::<T>(&gen::unitq(r));
    let mut t = gen::vec3(r);
    if r.chance(0.1) {
        t = scale3(&t, r.logmag(-6.0, 6.0));
    }
    let t = rd3::<T>(&t);
    let rot = rdm::<T>(&qmat(&qunit(&q)));
    m.input(&format!("rotation<{}>", T::NAME), &rot.a);
    m.input("translation", &t);
    let (rt, tt, qt): (M33<T>, V3<T>, _) = (m33_of(&rot), v3_of::<T>(&t), q_of::<T>(&q));
    // parts land in place exactly
    let h = homogeneous_from_rotation(&rt, &tt);
    let hf = m44f(&h);
    let place = Rm::from_fn(4, 4, |i, j| match (i, j) {
        (3, 3) => 1.0,
        (3, _) => 0.0,
        (_, 3) => t[i],
        _ => rot.g(i, j),
    });
    m.check("homogeneous_from_rotation", hf.a == place.a, || format!("{:?} want {:?}", hf.a, place.a));
    let s = m44f(&se3_from_parts(&rt, &tt));
    m.check("se3_from_parts", (0..4).all(|i| (0..4).all(|j| s.g(i, j) == if i == 3 { 0.0 } else { place.g(i, j) })), || format!("{:?}", s.a));
    let (sr, st) = se3_get_parts(&h);
    m.check("se3_get_parts", m33f(&sr).a == rot.a && v3f(&st) == t, || format!("{:?} {:?}", sr, st));
    let (gr, gt) = get_parts_raw(&h);
    m.check("get_parts_raw", m33f(&gr).a == rot.a && v3f(&gt) == t, || format!("{:?} {:?}", gr, gt));
    let (gq, gt) = get_parts(&h);
    m.check("get_parts translation", v3f(&gt) == t, || format!("{:?}", gt));
    m.small("get_parts rotation", maxdiff(&qmat(&qunit(&qf(&gq))).a, &rot.a), 16.0 * e, || format!("{:?} of {:?}", gq, rot.a));
    m.close("get_parts unit quaternion", qnorm(&qf(&gq)), 1.0, 4.0 * e, || format!("{:?}", gq));
    let hq = m44f(&homogeneous_from_quaternion(&qt, &tt));
    for i in 0..4 {
        for j in 0..4 {
            let tol = if i < 3 && j < 3 { 10.0 * e } else { 0.0 };
            m.small("homogeneous_from_quaternion", (hq.g(i, j) - place.g(i, j)).abs(), tol, || format!("({},{}) {} want {}", i, j, hq.g(i, j), place.g(i, j)));
        }
    }
    // inverse
    let n = norm3(&t);
    let i = homogeneous_inverse(&h);
    let fi = m44f(&i);
    let w = Rm::from_fn(4, 4, |i, j| match (i, j) {
        (3, 3) => 1.0,
        (3, _) => 0.0,
        (_, 3) => -(0..3).map(|k| rot.g(k, i) * t[k]).sum::<f64>(),
        _ => rot.g(j, i),
    });
    for a in 0..4 {
        for b in 0..4 {
            let tol = if a < 3 && b == 3 { 4.0 * e * n + T::MINP } else { 0.0 };
            m.small("homogeneous_inverse", (fi.g(a, b) - w.g(a, b)).abs(), tol, || format!("({},{}) {} want {}", a, b, fi.g(a, b), w.g(a, b)));
        }
    }
    for p in [h * i, i * h] {
        let p = m44f(&p);
        for a in 0..4 {
            for b in 0..4 {
                let tol = if a == 3 { 0.0 } else if b == 3 { 24.0 * e * n + T::MINP } else { 8.0 * e };
                m.small("inverse composes to identity", (p.g(a, b) - if a == b { 1.0 } else { 0.0 }).abs(), tol, || format!("({},{}) {}", a, b, p.g(a, b)));
            }
        }
    }
    // points there and back
    let p = rd3::<T>(&gen::vec3(r));
    m.input("point", &p);
    let hp = h * V4::new_from(T::of(p[0]), T::of(p[1]), T::of(p[2]), T::of(1.0));
    let fwd = [hp[0].f(), hp[1].f(), hp[2].f()];
    let wf = add3(&mv3(&rot, &p), &t);
    let size = norm3(&p) + n;
    m.small("transform of a point", maxdiff(&fwd, &wf), 6.0 * e * size, || format!("{:?} want {:?}", fwd, wf));
    let back = homogeneous_inverse_transform(&h, &v3_of::<T>(&fwd));
    m.small("inverse transform undoes the transform", maxdiff(&v3f(&back), &p), 24.0 * e * size + T::MINP, || format!("{:?} want {:?}", v3f(&back), p));
    let direct = homogeneous_inverse_transform(&h, &v3_of::<T>(&p));
    let wd = mv3(&rot.t(), &sub3(&p, &t));
    m.small("inverse transform", maxdiff(&v3f(&direct), &wd), 12.0 * e * size, || format!("{:?} want {:?}", v3f(&direct), wd));
    // composing two transforms and splitting
    let t2 = rd3::<T>(&gen::vec3(r));
    let r2 = rdm::<T>(&qmat(&gen::unitq(r)));
    let h2 = homogeneous_from_rotation(&m33_of::<T>(&r2), &v3_of::<T>(&t2));
    let (cr, ct) = get_parts_raw(&(h * h2));
    m.small("composition rotation", maxdiff(&m33f(&cr).a, &rot.mul(&r2).a), 6.0 * e, || "R1 R2".into());
    m.small("composition translation", maxdiff(&v3f(&ct), &add3(&mv3(&rot, &t2), &t)), 8.0 * e * (n + norm3(&t2)), || format!("{:?}", v3f(&ct)));
    // pure translation
    let x = m44f(&translation_3d(tt[0], tt[1], tt[2]));
    m.check("translation_3d", (0..4).all(|i| (0..4).all(|j| x.g(i, j) == if i == j { 1.0 } else if j == 3 { t[i] } else { 0.0 })), || format!("{:?} {:?}", x.a, t));
    m.hit(if n == 0.0 { "no translation" } else { "translation" });
}
fn planar<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let a = T::of(gen::angle(r)).f();
    let t = rd3::<T>(&gen::vec3(r));
    m.input(&format!("planar<{}>", T::NAME), &[a, t[0], t[1]]);
    let (s, c) = a.sin_cos();
    let k = m33f(&ksi(T::of(a), T::of(t[0]), T::of(t[1])));
    m.small("ksi rotation", maxdiff(&[k.g(0, 0), k.g(0, 1), k.g(1, 0), k.g(1, 1)], &[c, -s, s, c]), 2.0 * e, || format!("{:?}", k.a));
    m.check("ksi translation and bottom row", k.g(0, 2) == t[0] && k.g(1, 2) == t[1] && k.g(2, 0) == 0.0 && k.g(2, 1) == 0.0 && k.g(2, 2) == 1.0, || format!("{:?} {:?}", k.a, t));
    let x = m33f(&translation_2d(T::of(t[0]), T::of(t[1])));
    m.check("translation_2d", x.a == vec![1.0, 0.0, t[0], 0.0, 1.0, t[1], 0.0, 0.0, 1.0], || format!("{:?} {:?}", x.a, t));
    // a planar pose is the translation after the rotation
    let y = m33f(&(translation_2d(T::of(t[0]), T::of(t[1])) * ksi(T::of(a), T::zero(), T::zero())));
    m.small("pose is translation after rotation", maxdiff(&y.a, &k.a), 2.0 * e * (1.0 + t[0].abs() + t[1].abs()), || format!("{:?} {:?}", y.a, k.a));
    m.hit("planar");
}
fn main() {
    monitor::run("C22", "rotation, translation (and point) not all equal; distinct by values and element type", |p| {
        p.wl("spatial", 80_000, 6_000_000, |m, r| if r.chance(0.6) { spatial::<f64>(m, r) } else { spatial::<f32>(m, r) });
        p.guided("guided spatial", 16000, 1000000, |m, r| if r.chance(0.7) { spatial::<W64>(m, r) } else { spatial::<W32>(m, r) });
        p.wl("planar", 60_000, 4_000_000, |m, r| if r.chance(0.6) { planar::<f64>(m, r) } else { planar::<f32>(m, r) });
        p.guided("guided planar", 12000, 666666, |m, r| if r.chance(0.7) { planar::<W64>(m, r) } else { planar::<W32>(m, r) });
        p.require(&["no translation", "translation", "planar"], 100);
    })
}
