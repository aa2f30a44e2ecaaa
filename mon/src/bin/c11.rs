//! C11: unit quaternions and rotation matrices describe the same rotation.
use mon::qref::*;
use mon::refm::Rm;
use mon::*;

fn act<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let q = unit_t::<T>(r);
    let u = qf(&q);
    let v = rd3::<T>(&gen::vec3(r));
    let vt = v3_of::<T>(&v);
    m.input(&format!("unit q<{}>", T::NAME), &u);
    m.input("v", &v);
    // reference rotation of the exactly normalised quaternion
    let w = qrot(&qunit(&u), &v);
    let n = norm3(&v);
    let tol = 24.0 * e * n + T::MINP * 64.0;
    let g = v3f(&(q * vt));
    m.small("q acting on v", maxdiff(&g, &w), tol, || format!("got {:?} want {:?}", g, w));
    let s = q * Quaternion::new_imag(&vt) * q.conj();
    let si = v3f(&s.imag());
    m.small("q v q*", maxdiff(&si, &w), tol, || format!("got {:?} want {:?}", si, w));
    m.small("q v q* real part", s.real().f().abs(), tol, || format!("{:?}", qf(&s)));
    let rm = q.to_rotation();
    let g = v3f(&(rm * vt));
    m.small("to_rotation times v", maxdiff(&g, &w), tol, || format!("got {:?} want {:?}", g, w));
    let rw = qmat(&qunit(&u));
    m.small("to_rotation entries", maxdiff(&m33f(&rm).a, &rw.a), 16.0 * e, || format!("got {:?} want {:?}", m33f(&rm).a, rw.a));
    m.close("length preserved", norm3(&v3f(&(q * vt))), n, tol, || format!("{:?}", v));
    // angle and handedness with a second vector
    let v2 = rd3::<T>(&gen::vec3(r));
    m.input("v2", &v2);
    let (a, b, c) = (q * vt, q * v3_of::<T>(&v2), q * v3_of::<T>(&cross(&v, &v2)));
    let n2 = norm3(&v2);
    m.close("inner product preserved", dot3(&v3f(&a), &v3f(&b)), dot3(&v, &v2), 60.0 * e * n * n2 + T::MINP * 64.0, || format!("{:?} {:?}", v, v2));
    m.small("handedness preserved", maxdiff(&cross(&v3f(&a), &v3f(&b)), &v3f(&c)), 90.0 * e * n * n2 + T::MINP * 64.0, || format!("{:?} {:?}", v, v2));
    // composition
    let p = unit_t::<T>(r);
    m.input("p", &qf(&p));
    let pq = p * q;
    let x = v3f(&(pq * vt));
    let y = v3f(&(p * (q * vt)));
    let z = v3f(&(p.to_rotation() * q.to_rotation() * vt));
    let wv = qrot(&qunit(&qf(&p)), &w);
    for (name, g) in [("compose quaternions", x), ("compose actions", y), ("compose matrices", z)] {
        m.small(name, maxdiff(&g, &wv), 3.0 * tol, || format!("got {:?} want {:?}", g, wv));
    }
    m.small("product matrix", maxdiff(&m33f(&pq.to_rotation()).a, &m33f(&(p.to_rotation() * rm)).a), 60.0 * e, || "(pq).to_rotation()".into());
    if u[0].abs() < 1e-6 {
        m.hit("half turn");
    }
    m.hit("action");
}

/// conversion of proper rotation matrices (entries rounded to T), all branches and their borders
fn back<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let u = match r.below(4) {
        0 => {
            // R22 near zero, or R00 = +-R11: the branch borders
            let d = if r.chance(0.5) { 0.0 } else { r.sign() * r.logmag(-17.0, -3.0) };
            let (a, b, c) = (r.normal(), r.normal(), r.normal());
            let q = match r.below(3) {
                0 => { let s = (a * a + b * b).sqrt(); let t = r.range(0.0, 6.3); [s * t.cos(), a, b, s * t.sin() + d] }
                1 => [c, a, a.abs() * r.sign() + d, b],
                _ => [a.abs() * r.sign() + d, b, c, a],
            };
            m.hit("branch border");
            qunit(&q)
        }
        _ => gen::unitq(r),
    };
    let rm = Rm::<f64> { r: 3, c: 3, a: qmat(&u).a.iter().map(|x| T::of(*x).f()).collect() };
    let mt: M33<T> = m_of(&rm);
    m.input(&format!("R<{}>", T::NAME), &rm.a);
    let q = Quaternion::from_rotation(&mt);
    let g = qf(&q);
    m.close("unit", qnorm(&g), 1.0, 16.0 * e, || format!("{:?}", g));
    m.small("same rotation", rotdist(&g, &u), 24.0 * e, || format!("got {:?} want +-{:?}", g, u));
    m.small("round trip matrix", maxdiff(&m33f(&q.to_rotation()).a, &rm.a), 48.0 * e, || format!("{:?}", g));
    // which component dominates decides the branch
    let k = (0..4).max_by(|&i, &j| u[i].abs().partial_cmp(&u[j].abs()).unwrap()).unwrap();
    m.hit(["largest w", "largest x", "largest y", "largest z"][k]);
    if u[0].abs() < 1e-9 {
        m.hit("half turn");
        if u[1..].iter().filter(|x| x.abs() > 1e-9).count() > 1 {
            m.hit("half turn about a slanted axis");
        }
    }
}
fn main() {
    monitor::run("C11", "quaternion/matrix with two different entries; distinct by entries, vector and element type", |p| {
        p.wl("action", 80_000, 6_000_000, |m, r| if r.chance(0.6) { act::<f64>(m, r) } else { act::<f32>(m, r) });
        p.guided("guided action", 16000, 1000000, |m, r| if r.chance(0.7) { act::<W64>(m, r) } else { act::<W32>(m, r) });
        p.wl("from_rotation", 150_000, 8_000_000, |m, r| if r.chance(0.6) { back::<f64>(m, r) } else { back::<f32>(m, r) });
        p.guided("guided from_rotation", 30000, 1333333, |m, r| if r.chance(0.7) { back::<W64>(m, r) } else { back::<W32>(m, r) });
        p.require(&["action", "branch border", "largest w", "largest x", "largest y", "largest z", "half turn", "half turn about a slanted axis"], 100);
        p.assume("rotation matrices are orthogonal to within rounding of their element type; q and -q are the same rotation");
    })
}
