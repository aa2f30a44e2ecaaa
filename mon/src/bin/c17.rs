//! C17: dual quaternions as rigid motions, against an independent model of the motion.
use mon::qref::*;
use mon::refm::Rm;
use mon::*;
use static_math::transformations::*;

/// what a motion looks like through every extractor
fn observe<T: Fl>(m: &mut Mon, r: &mut Rng, q: &DualQuaternion<T>, w: &Rigid, ktol: f64, how: &'static str) {
    let e = T::EPS;
    let rot = qmat(&w.q);
    let tn = norm3(&w.t);
    let er = 12.0 * ktol * e;
    let et = 16.0 * ktol * e * tn + T::MINP;
    let (gr, gt) = q.to_rotation_translation();
    m.small("rotation", maxdiff(&m33f(&gr).a, &rot.a), er, || format!("{} {:?} want {:?}", how, m33f(&gr).a, rot.a));
    m.small("translation", maxdiff(&v3f(&gt), &w.t), et, || format!("{} {:?} want {:?}", how, v3f(&gt), w.t));
    m.small("get_translation", maxdiff(&v3f(&q.get_translation()), &w.t), et, || format!("{} {:?} want {:?}", how, v3f(&q.get_translation()), w.t));
    let (gq, gt) = q.to_quaternion_translation();
    m.small("quaternion", rotdist(&qf(&gq), &w.q), er, || format!("{} {:?} want {:?}", how, qf(&gq), w.q));
    m.small("translation with quaternion", maxdiff(&v3f(&gt), &w.t), et, || format!("{} {:?} want {:?}", how, v3f(&gt), w.t));
    let h = m44f(&q.to_homogeneous());
    let wm = w.mat();
    for i in 0..4 {
        for j in 0..4 {
            let tol = if i == 3 { 0.0 } else if j == 3 { et } else { er };
            m.small("homogeneous", (h.g(i, j) - wm.g(i, j)).abs(), tol, || format!("{} entry ({},{}) {} want {}", how, i, j, h.g(i, j), wm.g(i, j)));
        }
    }
    // points
    let p = rd3::<T>(&gen::vec3(r));
    let pt = v3_of::<T>(&p);
    let rp = qrot(&w.q, &p);
    let want = add3(&rp, &w.t);
    let tp = 24.0 * ktol * e * (norm3(&p) + tn) + T::MINP;
    let got = v3f(&q.transform_point(&pt));
    if maxdiff(&got, &want) <= tp {
        m.check("transform_point", true, String::new);
        m.hit("point moved by rotation and translation");
    } else if maxdiff(&got, &rp) <= tp {
        m.deviate("DualQuaternion::transform_point returns R*p, the translation is not added", || format!("{} point {:?} got {:?} want {:?}", how, p, got, want));
        m.hit("point of a motion with translation");
    } else {
        m.check("transform_point", false, || format!("{} point {:?} got {:?} want {:?}", how, p, got, want));
    }
    // the sandwich of the point with the combined conjugate is the motion of the point
    let s = *q * DualQuaternion::new_from_point(&pt) * q.conj_combined();
    let (sr, sd) = dqf(&s);
    m.small("point sandwich", maxdiff(&sr, &[1.0, 0.0, 0.0, 0.0]), er, || format!("{} real {:?}", how, sr));
    m.small("point sandwich", maxdiff(&sd, &[0.0, want[0], want[1], want[2]]), tp, || format!("{} dual {:?} want {:?}", how, sd, want));
    // distance between two transformed points
    let p2 = rd3::<T>(&gen::vec3(r));
    let a = q.transform_point(&pt);
    let b = q.transform_point(&v3_of::<T>(&p2));
    let d = norm3(&sub3(&v3f(&a), &v3f(&b)));
    let wd = norm3(&sub3(&p, &p2));
    m.close("distance preserved", d, wd, 2.0 * (tp + 24.0 * ktol * e * norm3(&p2)), || how.to_string());
    // undone by the inverse
    let i = q.inverse();
    let (ir, id) = dqf(&(*q * i));
    m.small("q*inverse", maxdiff(&ir, &[1.0, 0.0, 0.0, 0.0]), er, || format!("{} {:?}", how, ir));
    m.small("q*inverse", maxdiff(&id, &[0.0; 4]), et, || format!("{} {:?}", how, id));
    let (wi, back) = (w.inv(), i.to_homogeneous());
    let back = m44f(&back);
    let wim = wi.mat();
    for k in 0..16 {
        let tol = if k % 4 == 3 && k != 15 { et } else { er };
        m.small("inverse motion", (back.a[k] - wim.a[k]).abs(), tol, || format!("{} {:?} want {:?}", how, back.a, wim.a));
    }
    let pb = i.transform_point(&q.transform_point(&pt));
    let dev = maxdiff(&v3f(&pb), &p);
    m.small("inverse undoes point", dev, 2.0 * tp, || format!("{} {:?} want {:?}", how, v3f(&pb), p));
}
fn rigid<T: Fl>(r: &mut Rng) -> Rigid {
    let q = qunit(&rd4::<T>(&gen::unitq(r)));
    let mut t = gen::vec3(r);
    if r.chance(0.1) {
        t = scale3(&t, r.logmag(-8.0, 5.0));
    }
    Rigid { q, t: rd3::<T>(&t) }
}
const HOW: [&str; 10] = [
    "rotation and translation", "rotation", "translation", "homogeneous", "rotation matrix", "array", "vectors", "rotation matrix times translation", "unnormalised rotation and translation", "scaled then normalised",
];
fn build<T: Fl>(r: &mut Rng, w: &mut Rigid, k: usize) -> DualQuaternion<T> {
    let z = [0.0; 3];
    let id = [1.0, 0.0, 0.0, 0.0];
    let q = q_of::<T>(&w.q);
    let t = v3_of::<T>(&w.t);
    let rt: M33<T> = m33_of(&qmat(&w.q));
    match k {
        0 => DualQuaternion::new_from_rot_trans(&if r.chance(0.5) { q } else { q.normalize().unwrap() }, &t),
        1 => {
            w.t = z;
            DualQuaternion::new_from_rotation(&q)
        }
        2 => {
            w.q = id;
            DualQuaternion::new_from_translation(&t)
        }
        3 => {
            let h: M44<T> = match r.below(3) {
                0 => m44_of(&w.mat()),
                1 => homogeneous_from_rotation(&rt, &t),
                _ => homogeneous_from_quaternion(&q, &t),
            };
            DualQuaternion::new_from_homogeneous(&h)
        }
        4 => {
            w.t = z;
            DualQuaternion::new_from_rotation_matrix(&rt)
        }
        5 => DualQuaternion::new_from_array([q.real(), q.imag()[0], q.imag()[1], q.imag()[2], t[0], t[1], t[2]]),
        6 => {
            let (a, b) = w.dq();
            let v = |a: &[f64; 4]| V4::new_from(T::of(a[0]), T::of(a[1]), T::of(a[2]), T::of(a[3]));
            DualQuaternion::new_from_vecs(&v(&a), &v(&b))
        }
        7 => DualQuaternion::new_from_translation(&t) * DualQuaternion::new_from_rotation_matrix(&rt),
        8 => {
            let s = r.sign() * r.logmag(-2.0, 2.0);
            DualQuaternion::new_from_rot_trans(&q_of::<T>(&[w.q[0] * s, w.q[1] * s, w.q[2] * s, w.q[3] * s]), &t)
        }
        _ => {
            let (a, b) = w.dq();
            let s = T::of(r.logmag(-2.0, 2.0));
            (dq_of::<T>(&a, &b) * s).normalize().expect("nonzero")
        }
    }
}
fn single<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let mut w = rigid::<T>(r);
    let k = r.below(HOW.len());
    m.input(&format!("{} q<{}>", HOW[k], T::NAME), &w.q);
    m.input("t", &w.t);
    m.hit(HOW[k]);
    if w.q[0].abs() < 1e-9 {
        m.hit("half turn");
    }
    let d = build::<T>(r, &mut w, k);
    observe(m, r, &d, &w, 2.0, HOW[k]);
    if norm3(&w.t) == 0.0 {
        m.hit("no translation");
    }
    // point constructor: unit real part, dual part the point itself
    let g = dqf(&DualQuaternion::new_from_point(&v3_of::<T>(&w.t)));
    m.check("point", g == ([1.0, 0.0, 0.0, 0.0], [0.0, w.t[0], w.t[1], w.t[2]]), || format!("{:?}", g));
}
/// histories: products, inverses, conjugates and renormalisation of motions
fn chain<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let mut w = rigid::<T>(r);
    let k = r.below(HOW.len());
    let mut d = build::<T>(r, &mut w, k);
    let mut reach = norm3(&w.t);
    let n = 1 + r.below(12);
    m.input(&format!("chain<{}> of {} start", T::NAME, n), &[w.q[0], w.q[1], w.q[2], w.q[3], w.t[0], w.t[1], w.t[2]]);
    for _ in 0..n {
        match r.below(6) {
            0 => {
                d = d.inverse();
                w = w.inv();
                m.hit("inverse");
            }
            1 => {
                d = d.conj();
                w = w.inv();
                m.hit("conj of a unit");
            }
            2 => {
                if let Some(x) = d.normalize() {
                    d = x;
                } else {
                    m.check("normalize in chain", false, || format!("{:?}", d));
                }
            }
            k => {
                let mut v = rigid::<T>(r);
                let j = r.below(HOW.len());
                let o = build::<T>(r, &mut v, j);
                m.input(HOW[j], &[v.q[0], v.q[1], v.q[2], v.q[3], v.t[0], v.t[1], v.t[2]]);
                reach += norm3(&v.t);
                if k == 3 {
                    d = o * d;
                    w = v.then(&w);
                } else if k == 4 {
                    d = d / o;
                    w = w.then(&v.inv());
                } else {
                    d = d * o;
                    w = w.then(&v);
                }
                m.hit("composed");
            }
        }
    }
    let e = T::EPS;
    let kk = 8.0 * (n as f64 + 2.0);
    let (gr, gt) = d.to_rotation_translation();
    m.small("chain rotation", maxdiff(&m33f(&gr).a, &qmat(&w.q).a), kk * e, || format!("{:?} want {:?}", m33f(&gr).a, qmat(&w.q).a));
    m.small("chain translation", maxdiff(&v3f(&gt), &w.t), 4.0 * kk * e * (reach + norm3(&w.t)) + T::MINP, || format!("{:?} want {:?}", v3f(&gt), w.t));
    let h: Rm<f64> = m44f(&d.to_homogeneous());
    m.small("chain homogeneous", maxdiff(&[h.g(0, 3), h.g(1, 3), h.g(2, 3)], &v3f(&gt)), 0.0, || "translation column".into());
}
fn main() {
    monitor::run("C17", "rigid motion with non-constant rotation quaternion; distinct by motion, way of building and element type", |p| {
        p.wl("single", 60_000, 4_000_000, |m, r| if r.chance(0.6) { single::<f64>(m, r) } else { single::<f32>(m, r) });
        p.guided("guided single", 12000, 666666, |m, r| if r.chance(0.7) { single::<W64>(m, r) } else { single::<W32>(m, r) });
        p.wl("chain", 40_000, 3_000_000, |m, r| if r.chance(0.6) { chain::<f64>(m, r) } else { chain::<f32>(m, r) });
        p.guided("guided chain", 8000, 500000, |m, r| if r.chance(0.7) { chain::<W64>(m, r) } else { chain::<W32>(m, r) });
        p.require(&HOW, 100);
        p.require(&["half turn", "no translation", "composed", "inverse", "conj of a unit", "point moved by rotation and translation"], 100);
        p.assume("new_from_rotation and new_from_array take a unit quaternion (they trust it), the others accept any nonzero one");
    })
}
