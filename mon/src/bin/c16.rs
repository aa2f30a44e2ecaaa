//! C16: dual quaternion algebra against products of the multiplication table over dual numbers.
use mon::qref::*;
use mon::*;

type D = ([Dd; 4], [Dd; 4]);
fn dd(a: &([f64; 4], [f64; 4])) -> D {
    (dd4(&a.0), dd4(&a.1))
}
fn dmul(a: &D, b: &D) -> D {
    (qmul(&a.0, &b.0), qadd(&qmul(&a.0, &b.1), &qmul(&a.1, &b.0)))
}
fn dinv(a: &D) -> D {
    let n = qdot(&a.0, &a.0);
    let c = qconj(&a.0);
    let i = [c[0] / n, c[1] / n, c[2] / n, c[3] / n];
    let d = qmul(&qmul(&i, &a.1), &i);
    (i, [-d[0], -d[1], -d[2], -d[3]])
}
fn judge<T: Fl>(m: &mut Mon, name: &'static str, g: &DualQuaternion<T>, w: &D, tr: f64, td: f64) {
    let (gr, gd) = dqf(g);
    let (wr, wd) = (f4(&w.0), f4(&w.1));
    m.small(name, maxdiff(&gr, &wr), tr + T::MINP, || format!("{} real got {:?} want {:?}", T::NAME, gr, wr));
    m.small(name, maxdiff(&gd, &wd), td + T::MINP, || format!("{} dual got {:?} want {:?}", T::NAME, gd, wd));
}
fn pair<T: Fl>(r: &mut Rng) -> ([f64; 4], [f64; 4]) {
    let wide = if T::IS32 { 5.0 } else { 20.0 };
    let a = rd4::<T>(&gen::quat_wide(r, 3.0, wide));
    let b = match r.below(5) {
        0 => [0.0; 4],
        1 => {
            // orthogonal to the real part: a scaled rigid motion
            let p = qmul(&[Dd::ZERO, Dd::new(r.normal()), Dd::new(r.normal()), Dd::new(r.normal())], &dd4(&a));
            rd4::<T>(&f4(&p))
        }
        _ => rd4::<T>(&gen::quat_wide(r, 3.0, wide)),
    };
    if r.chance(0.05) { ([0.0; 4], b) } else { (a, b) }
}
fn algebra<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let (a, mut b, c) = (pair::<T>(r), pair::<T>(r), pair::<T>(r));
    // operands that have something to do with each other
    let n4 = |x: [f64; 4]| x.map(|v| -v);
    let c4 = |x: [f64; 4]| [x[0], -x[1], -x[2], -x[3]];
    match r.below(40) {
        0 | 1 => b = a,
        2 => b = (n4(a.0), n4(a.1)),
        3 => b = (c4(a.0), c4(a.1)),
        4 => b = (a.0, n4(a.1)),
        5 => b.0 = a.0,
        6 => b.1 = a.1,
        7 => b = (a.1, a.0),
        _ => {}
    }
    if a == b {
        m.hit("the same operand twice");
    }
    let s = T::of(gen::scalar(r)).f();
    m.input(&format!("p<{}>", T::NAME), &a.0);
    m.input("eps", &a.1);
    m.input("q", &b.0);
    m.input("eps", &b.1);
    m.input("s", &[s]);
    let (p, q) = (dq_of::<T>(&a.0, &a.1), dq_of::<T>(&b.0, &b.1));
    let (da, db) = (dd(&a), dd(&b));
    let (ar, ad, br, bd) = (qnorm(&a.0), qnorm(&a.1), qnorm(&b.0), qnorm(&b.1));
    judge(m, "sum", &(p + q), &(qadd(&da.0, &db.0), qadd(&da.1, &db.1)), e * (ar + br), e * (ad + bd));
    let neg = |x: &[Dd; 4]| [-x[0], -x[1], -x[2], -x[3]];
    judge(m, "difference", &(p - q), &(qadd(&da.0, &neg(&db.0)), qadd(&da.1, &neg(&db.1))), e * (ar + br), e * (ad + bd));
    judge(m, "negation", &-p, &(neg(&da.0), neg(&da.1)), 0.0, 0.0);
    judge(m, "scaling", &(p * T::of(s)), &(qscale(&da.0, s.into()), qscale(&da.1, s.into())), e * ar * s.abs(), e * ad * s.abs());
    judge(m, "product", &(p * q), &dmul(&da, &db), 4.0 * e * ar * br, 6.0 * e * (ar * bd + ad * br));
    judge(m, "conj", &p.conj(), &(qconj(&da.0), qconj(&da.1)), 0.0, 0.0);
    judge(m, "conj_as_dual", &p.conj_as_dual(), &(da.0, neg(&da.1)), 0.0, 0.0);
    judge(m, "conj_combined", &p.conj_combined(), &(qconj(&da.0), neg(&qconj(&da.1))), 0.0, 0.0);
    judge(m, "norm", &p.norm(), &dmul(&da, &(qconj(&da.0), qconj(&da.1))), 4.0 * e * ar * ar, 12.0 * e * ar * ad);
    judge(m, "real/dual", &DualQuaternion::new(p.real(), p.dual()), &da, 0.0, 0.0);
    let z = DualQuaternion::<T>::zero();
    let o = DualQuaternion::<T>::one();
    judge(m, "zero and one", &(p + z), &da, 0.0, 0.0);
    judge(m, "zero and one", &(o * p), &da, 0.0, 0.0);
    judge(m, "zero and one", &(p * o), &da, 0.0, 0.0);
    {
        use num::{One, Zero};
        m.check("is_zero/is_one", p.is_zero() == (ar == 0.0 && ad == 0.0) && z.is_zero() && !o.is_zero() && o.is_one() && !z.is_one(), || "identity tests".into());
        m.check("equality", (p == q) == (a == b) && p == p && (p - p) == z, || format!("{:?} {:?}", p, q));
    }
    // ring laws through the crate
    let k = dq_of::<T>(&c.0, &c.1);
    let dc = dd(&c);
    let (cr, cd) = (qnorm(&c.0), qnorm(&c.1));
    judge(m, "associative", &(p * (q * k)), &dmul(&dmul(&da, &db), &dc), 10.0 * e * ar * br * cr, 16.0 * e * (ar * br * cd + ar * bd * cr + ad * br * cr));
    if ar * ar > 1.01 * e && ar > 0.0 {
        let w = dinv(&da);
        judge(m, "inverse", &p.inverse(), &w, 8.0 * e / ar, 20.0 * e * ad / (ar * ar));
        let i = p.inverse();
        judge(m, "p*inverse = 1", &(p * i), &dd(&([1.0, 0.0, 0.0, 0.0], [0.0; 4])), 16.0 * e, 40.0 * e * ad / ar);
        judge(m, "inverse*p = 1", &(i * p), &dd(&([1.0, 0.0, 0.0, 0.0], [0.0; 4])), 16.0 * e, 40.0 * e * ad / ar);
        judge(m, "quotient", &(q / p), &dmul(&db, &w), 16.0 * e * br / ar, 32.0 * e * (bd / ar + br * ad / (ar * ar)));
        judge(m, "(q/p)*p = q", &((q / p) * p), &db, 24.0 * e * br, 64.0 * e * (bd + br * ad / ar));
        let com = {
            let x = dmul(&da, &db);
            let y = dmul(&db, &da);
            maxdiff(&f4(&x.0), &f4(&y.0)) < 1e-3
        };
        m.hit(if com { "commuting division" } else { "non-commuting division" });
        // normalize: unit real part, dual part a rigid motion's, same line of motion
        if ar > e * 1.01 {
            let n = p.normalize();
            if m.check("normalize exists", n.is_some(), || format!("{:?}", p)) {
                let n = n.unwrap();
                let g = dqf(&n);
                let u = qunit(&a.0);
                m.small("normalized real", maxdiff(&g.0, &u), 6.0 * e, || format!("{:?}", g));
                let sc = ad / ar;
                let k = qdot(&dd4(&u), &da.1);
                let ud = dd4(&u);
                let w: Vec<f64> = (0..4).map(|i| ((da.1[i] - ud[i] * k) / Dd::new(ar)).f()).collect();
                m.small("normalized dual", maxdiff(&g.1, &w), 16.0 * e * sc + T::MINP, || format!("{:?} want {:?}", g.1, w));
                m.check("normalized is normalized", n.is_normalized(), || format!("{:?}", n));
                let i = n.inverse();
                judge(m, "normalized inverse", &(n * i), &dd(&([1.0, 0.0, 0.0, 0.0], [0.0; 4])), 16.0 * e, 40.0 * e * sc);
                m.hit("normalize");
            }
        }
    }
    if ar < e * 0.99 {
        m.check("normalize refused", p.normalize().is_none(), || format!("{:?}", p));
        m.hit("no real part");
    }
    if (ar - 1.0).abs() > clear::<T>() {
        m.check("non-unit is not normalized", !p.is_normalized(), || format!("{:?} norm {}", p, ar));
        m.hit("clearly non-unit");
    }
}
/// a norm this far from one is clearly not a unit norm
fn clear<T: Fl>() -> f64 {
    if T::IS32 { 2e-4 } else { 1e-7 }
}
/// everything flagged or exactly unit is recognised; clear misses are not
fn recognise<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let u = gen::unitq(r);
    let t = gen::vec3(r);
    let rg = Rigid { q: u, t };
    let (a, b) = rg.dq();
    let (a, b) = (rd4::<T>(&a), rd4::<T>(&b));
    m.input(&format!("unit dq<{}>", T::NAME), &a);
    m.input("eps", &b);
    let p = dq_of::<T>(&a, &b);
    let n = qdot(&dd4(&a), &dd4(&a)).sqrt().f();
    if (n - 1.0).abs() <= 0.2 * e {
        m.check("unit is normalized", p.is_normalized(), || format!("{:?}", p));
        m.hit("unit to rounding");
    }
    let q = q_of::<T>(&a);
    for f in [
        DualQuaternion::new_from_rot_trans(&q, &v3_of::<T>(&t)),
        DualQuaternion::new_from_translation(&v3_of::<T>(&t)),
        DualQuaternion::new_from_rotation(&q),
        DualQuaternion::new_from_point(&v3_of::<T>(&t)),
        DualQuaternion::new_from_rotation_matrix(&q.to_rotation()),
        DualQuaternion::new_from_homogeneous(&static_math::transformations::homogeneous_from_quaternion(&q, &v3_of::<T>(&t))),
        DualQuaternion::one(),
    ] {
        m.check("built motion is normalized", f.is_normalized(), || format!("{:?}", f));
        m.check("normalize of a built motion", f.normalize().is_some_and(|g| g == f && g.is_normalized()), || format!("{:?}", f));
    }
    let t3 = v3_of::<T>(&t);
    // an array whose quaternion is not of unit norm
    let f = T::of(if r.chance(0.1) { gen::near(r).clamp(3e-3, 3e2) } else if r.chance(0.5) { r.logmag(-2.5, 2.5) } else { 1.0 + r.sign() * r.logmag(clear::<T>().log10() + 0.1, -0.5) });
    let g = DualQuaternion::new_from_array([T::of(a[0]) * f, T::of(a[1]) * f, T::of(a[2]) * f, T::of(a[3]) * f, t3[0], t3[1], t3[2]]);
    let gn = qnorm(&dqf(&g).0);
    if (gn - 1.0).abs() > clear::<T>() {
        m.check("array of a non-unit quaternion is not normalized", !g.is_normalized(), || format!("{:?} norm {}", g, gn));
        m.hit("non-unit array");
    }
    // scaled away from unit
    let s = T::of(if r.chance(0.5) { r.logmag(-2.5, 2.5) } else { 1.0 + r.sign() * r.logmag(clear::<T>().log10() + 0.1, -0.5) });
    let k = p * s;
    let kn = qnorm(&dqf(&k).0);
    if (kn - 1.0).abs() > clear::<T>() {
        m.check("scaled is not normalized", !k.is_normalized(), || format!("{:?} norm {}", k, kn));
        if let Some(x) = k.normalize() {
            let (gr, gd) = dqf(&x);
            m.small("normalize undoes scaling", maxdiff(&gr, &a), 10.0 * e, || format!("{:?} {:?}", gr, a));
            m.small("normalize undoes scaling", maxdiff(&gd, &b), 16.0 * e * qnorm(&b) + T::MINP, || format!("{:?} {:?}", gd, b));
        } else {
            m.check("normalize undoes scaling", false, || format!("{:?}", k));
        }
        m.hit("scaled");
    }
    // inverses of flagged motions, also after operations that must clear the flag
    let f = DualQuaternion::new_from_rot_trans(&q, &v3_of::<T>(&t));
    let tn = 1.0 + norm3(&t);
    let one = dd(&([1.0, 0.0, 0.0, 0.0], [0.0; 4]));
    judge(m, "flagged inverse", &(f * f.inverse()), &one, 16.0 * e, 32.0 * e * tn);
    let g = dq_of::<T>(&rd4::<T>(&gen::quat(r, 1.0)), &rd4::<T>(&gen::quat(r, 1.0)));
    let k = r.below(7);
    let x = match k {
        0 => f + g,
        1 => f * g,
        2 => g * f,
        3 => f - g,
        4 => f * T::of(r.sign() * r.range(0.3, 3.0)),
        5 => (-f).conj(),
        _ => f / if qnorm(&qf(&g.real())) > 0.1 { g } else { f },
    };
    let (xr, xd) = dqf(&x);
    let (nr, nd) = (qnorm(&xr), qnorm(&xd));
    if nr * nr > 1.01 * e {
        judge(m, "derived inverse", &x.inverse(), &dinv(&dd(&(xr, xd))), 8.0 * e / nr, 20.0 * e * nd / (nr * nr));
        if let Some(y) = x.normalize() {
            m.close("derived normalize", qnorm(&qf(&y.real())), 1.0, 6.0 * e, || format!("{:?} from op {}", y, k));
        }
        m.hit("derived from a flagged motion");
    }
}
fn exact<T: El + Signed>(m: &mut Mon, r: &mut Rng) {
    let g = |r: &mut Rng| -> [i64; 4] { [r.int(-3, 3), r.int(-3, 3), r.int(-3, 3), r.int(-3, 3)] };
    let (a, b, c, d) = (g(r), g(r), g(r), g(r));
    m.input("ints", &[a, b, c, d].concat().iter().map(|x| *x as f64).collect::<Vec<_>>());
    let mk = |a: &[i64; 4]| V4::new_from(T::of_i(a[0]), T::of_i(a[1]), T::of_i(a[2]), T::of_i(a[3]));
    let un = |q: Quaternion<T>| -> [i128; 4] {
        let v = q.imag();
        [q.real().i(), v[0].i(), v[1].i(), v[2].i()]
    };
    let i = |a: &[i64; 4]| a.map(|x| x as i128);
    let (p, q) = (DualQuaternion::new_from_vecs(&mk(&a), &mk(&b)), DualQuaternion::new_from_vecs(&mk(&c), &mk(&d)));
    let pq = p * q;
    let w = qadd(&qmul(&i(&a), &i(&d)), &qmul(&i(&b), &i(&c)));
    m.check("exact product", un(pq.real()) == qmul(&i(&a), &i(&c)) && un(pq.dual()) == w, || format!("{:?} {:?} {:?} {:?}", a, b, c, d));
    let s = p + q - p;
    m.check("exact sum", un(s.real()) == i(&c) && un(s.dual()) == i(&d), || "p+q-p".into());
    let n = p.norm();
    m.check("exact norm", un(n.real()) == [qdot(&i(&a), &i(&a)), 0, 0, 0] && un(n.dual()) == [2 * qdot(&i(&a), &i(&b)), 0, 0, 0], || format!("{:?}", n));
    m.hit("exact integers");
}
use num::Signed;
fn main() {
    monitor::run("C16", "two dual quaternions with non-constant components; distinct by all components, scalar and element type", |p| {
        p.wl("algebra", 80_000, 6_000_000, |m, r| if r.chance(0.6) { algebra::<f64>(m, r) } else { algebra::<f32>(m, r) });
        p.guided("guided algebra", 16000, 1000000, |m, r| if r.chance(0.7) { algebra::<W64>(m, r) } else { algebra::<W32>(m, r) });
        p.wl("recognise", 60_000, 4_000_000, |m, r| if r.chance(0.6) { recognise::<f64>(m, r) } else { recognise::<f32>(m, r) });
        p.guided("guided recognise", 12000, 666666, |m, r| if r.chance(0.7) { recognise::<W64>(m, r) } else { recognise::<W32>(m, r) });
        p.wl("exact", 20_000, 1_000_000, |m, r| if r.chance(0.5) { exact::<i32>(m, r) } else { exact::<i64>(m, r) });
        p.require(&["the same operand twice"], 100);
        p.require(&["commuting division", "non-commuting division", "normalize", "no real part", "clearly non-unit", "unit to rounding", "scaled", "derived from a flagged motion", "exact integers"], 100);
        p.assume("the inverse is judged where the squared norm of the real part is above machine epsilon (below it is refused, see C10)");
    })
}
