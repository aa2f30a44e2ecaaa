//! C23: skew, vex, twist and adjoint maps.
use mon::qref::*;
use mon::refm::Rm;
use mon::*;
use static_math::transformations::*;

fn maps<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let g = |r: &mut Rng| -> [f64; 3] { rd3::<T>(&if r.chance(0.3) { [gen::scalar(r), gen::scalar(r), gen::scalar(r)] } else { gen::vec3(r) }) };
    let (a, b, c) = (g(r), g(r), g(r));
    m.input(&format!("v<{}>", T::NAME), &a);
    m.input("w", &b);
    let (av, bv) = (v3_of::<T>(&a), v3_of::<T>(&b));
    let s = skew_from_vec(&av);
    m.check("skew matrix", m33f(&s).a == skew(&a).a, || format!("{:?} of {:?}", m33f(&s).a, a));
    m.check("vex undoes skew", v3f(&skew_to_vec(&s)) == a, || format!("{:?}", skew_to_vec(&s)));
    let x = v3f(&(s * bv));
    let w = cross(&a, &b);
    m.small("skew times vector is the cross product", maxdiff(&x, &w), 3.0 * e * norm3(&a) * norm3(&b) + T::MINP, || format!("{:?} want {:?}", x, w));
    m.small("agrees with cross", maxdiff(&x, &v3f(&av.cross(bv))), 3.0 * e * norm3(&a) * norm3(&b) + T::MINP, || format!("{:?}", x));
    // planar
    let k = T::of(a[0]);
    let s2 = m_f::<M22<T>, T>(&skew_scalar(k));
    m.check("skew_scalar", s2.a == vec![0.0, -a[0], a[0], 0.0], || format!("{:?}", s2.a));
    m.check("vex_m22 undoes skew_scalar", vex_m22(&skew_scalar(k)).f() == a[0], || format!("{}", a[0]));
    let y = skew_scalar(k) * V2::new_from(T::of(b[0]), T::of(b[1]));
    m.small("planar skew is a quarter turn", maxdiff(&[y[0].f(), y[1].f()], &[-a[0] * b[1], a[0] * b[0]]), 2.0 * e * norm3(&a) * norm3(&b) + T::MINP, || format!("{:?}", y));
    // augmented planar: velocity (v0, v1), rate v2
    let sa = m33f(&skew_from_vec_aug(av));
    m.check("skew_from_vec_aug", sa.a == vec![0.0, -a[2], a[0], a[2], 0.0, a[1], 0.0, 0.0, 0.0], || format!("{:?} of {:?}", sa.a, a));
    m.check("augmented rate", vex_m22(&M22::new([[T::of(sa.g(0, 0)), T::of(sa.g(0, 1))], [T::of(sa.g(1, 0)), T::of(sa.g(1, 1))]])).f() == a[2], || format!("{:?}", sa.a));
    // augmented spatial: velocity first
    let v6 = V6::new_from(T::of(a[0]), T::of(a[1]), T::of(a[2]), T::of(b[0]), T::of(b[1]), T::of(b[2]));
    let s6 = skew_v6(v6);
    let (sw, sv) = se3_get_parts(&s6);
    m.check("skew_v6", v3f(&skew_to_vec(&sw)) == b && v3f(&sv) == a && m33f(&sw).a == skew(&b).a && (0..4).all(|j| s6[(3, j)].f() == 0.0), || format!("{:?} of {:?}", m44f(&s6).a, v6));
    // twist: rotation first
    let t = twist_to_se3(&v6);
    let want = Rm::from_fn(4, 4, |i, j| if i == 3 { 0.0 } else if j == 3 { b[i] } else { skew(&a).g(i, j) });
    m.check("twist_to_se3", m44f(&t).a == want.a, || format!("{:?} want {:?}", m44f(&t).a, want.a));
    m.check("se3_to_twist", se3_to_twist(&t) == v6, || format!("{:?}", se3_to_twist(&t)));
    m.check("twist forms agree", skew_v6(V6::new_from(T::of(b[0]), T::of(b[1]), T::of(b[2]), T::of(a[0]), T::of(a[1]), T::of(a[2]))) == t, || format!("{:?}", v6));
    // linear in the vector
    let sum = skew_from_vec(&(av + v3_of::<T>(&c)));
    let parts = s + skew_from_vec(&v3_of::<T>(&c));
    m.check("skew is additive", sum == parts, || format!("{:?} {:?}", a, c));
    m.hit("maps");
}
fn v6f<T: Fl>(v: &V6<T>) -> [f64; 6] {
    let mut o = [0.0; 6];
    for i in 0..6 {
        o[i] = v[i].f();
    }
    o
}
fn adj<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let mk = |r: &mut Rng| -> Rm<f64> {
        let q = gen::unitq(r);
        let t = gen::vec3(r);
        rdm::<T>(&Rigid { q, t }.mat())
    };
    let (a, b) = (mk(r), mk(r));
    let mut w = gen::vec3(r);
    let mut v = gen::vec3(r);
    match r.below(8) {
        0 => w = [0.0; 3],
        1 => v = [0.0; 3],
        2 => {
            w = [0.0; 3];
            w[r.below(3)] = 1.0;
            v = [0.0; 3];
        }
        3 => {
            v = [0.0; 3];
            v[r.below(3)] = 1.0;
            w = [0.0; 3];
        }
        _ => {}
    }
    let (w, v) = (rd3::<T>(&w), rd3::<T>(&v));
    m.input(&format!("transform<{}>", T::NAME), &a.a);
    m.input("transform", &b.a);
    m.input("twist", &[w[0], w[1], w[2], v[0], v[1], v[2]]);
    let (ha, hb): (M44<T>, M44<T>) = (m44_of(&a), m44_of(&b));
    let tw = V6::new_from(T::of(w[0]), T::of(w[1]), T::of(w[2]), T::of(v[0]), T::of(v[1]), T::of(v[2]));
    let ad = adjoint(&ha);
    let g = v6f(&(ad * tw));
    // reference: conjugation T [xi] T^-1
    let rot = Rm::from_fn(3, 3, |i, j| a.g(i, j));
    let p = [a.g(0, 3), a.g(1, 3), a.g(2, 3)];
    let rw = mv3(&rot, &w);
    let rv = add3(&mv3(&rot, &v), &cross(&p, &rw));
    let pn = norm3(&p);
    let size = norm3(&v) + (1.0 + pn) * norm3(&w);
    m.small("adjoint of a twist", maxdiff(&g, &[rw[0], rw[1], rw[2], rv[0], rv[1], rv[2]]), 12.0 * e * size + T::MINP, || format!("{:?} want {:?} {:?}", g, rw, rv));
    // through the crate: T * [xi] * T^-1 read back as a twist
    let c = se3_to_twist(&(ha * twist_to_se3(&tw) * homogeneous_inverse(&ha)));
    m.small("adjoint is conjugation", maxdiff(&g, &v6f(&c)), 24.0 * e * size + T::MINP, || format!("{:?} want {:?}", g, c));
    // blocks
    let f = m_f::<M66<T>, T>(&ad);
    let pr = skew(&p).mul(&rot);
    let want = Rm::from_fn(6, 6, |i, j| match (i < 3, j < 3) {
        (true, true) => rot.g(i, j),
        (true, false) => 0.0,
        (false, true) => pr.g(i - 3, j),
        (false, false) => rot.g(i - 3, j - 3),
    });
    m.small("adjoint blocks", maxdiff(&f.a, &want.a), 4.0 * e * pn + T::MINP, || format!("{:?} want {:?}", f.a, want.a));
    // multiplicative over composition and inverse
    let qn = norm3(&[b.g(0, 3), b.g(1, 3), b.g(2, 3)]);
    let k = 24.0 * e * (1.0 + pn + qn);
    let ab = m_f::<M66<T>, T>(&adjoint(&(ha * hb)));
    let prod = m_f::<M66<T>, T>(&(ad * adjoint(&hb)));
    m.small("adjoint of a product", maxdiff(&ab.a, &prod.a), k, || format!("{:?} want {:?}", ab.a, prod.a));
    let id = m_f::<M66<T>, T>(&(adjoint(&homogeneous_inverse(&ha)) * ad));
    m.small("adjoint of the inverse", maxdiff(&id.a, &Rm::ident(6).a), k, || format!("{:?}", id.a));
    m.hit("adjoint");
}
fn main() {
    monitor::run("C23", "two vectors, or transforms and a twist, not all equal; distinct by values and element type", |p| {
        p.wl("maps", 120_000, 8_000_000, |m, r| if r.chance(0.6) { maps::<f64>(m, r) } else { maps::<f32>(m, r) });
        p.guided("guided maps", 24000, 1333333, |m, r| if r.chance(0.7) { maps::<W64>(m, r) } else { maps::<W32>(m, r) });
        p.wl("adjoint", 80_000, 6_000_000, |m, r| if r.chance(0.6) { adj::<f64>(m, r) } else { adj::<f32>(m, r) });
        p.guided("guided adjoint", 16000, 1000000, |m, r| if r.chance(0.7) { adj::<W64>(m, r) } else { adj::<W32>(m, r) });
        p.require(&["maps", "adjoint"], 100);
    })
}
