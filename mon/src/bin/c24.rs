//! C24: rotation predicates and distance to the rotation manifold.
use mon::qref::*;
use mon::refm::Rm;
use mon::*;
use static_math::transformations::*;
use static_math::utils::*;

fn rot<T: Fl>(r: &mut Rng) -> Rm<f64> {
    rdm::<T>(&match r.below(6) {
        0 => Rm::ident(3),
        1 => {
            let mut p = [0usize, 1, 2];
            r.shuffle(&mut p);
            let mut w: Rm<f64> = Rm::zeros(3, 3);
            for i in 0..3 {
                w.set(i, p[i], r.sign());
            }
            if w.det() < 0.0 {
                for j in 0..3 {
                    let v = -w.g(0, j);
                    w.set(0, j, v);
                }
            }
            w
        }
        2 => rot_aa(gen::angle(r), &gen::axis(r)),
        _ => qmat(&gen::unitq(r)),
    })
}
/// |M M^T - I| in the largest entry and in Frobenius norm
fn defect(w: &Rm<f64>) -> (f64, f64) {
    let d = w.dd();
    let x = d.mul(&d.t()).f();
    let y = d.t().mul(&d).f();
    let i = Rm::ident(3);
    let f: f64 = x.a.iter().zip(&i.a).map(|(a, b)| (a - b) * (a - b)).sum::<f64>().sqrt();
    (maxdiff(&x.a, &i.a).max(maxdiff(&y.a, &i.a)), f)
}
fn accept<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let w = rot::<T>(r);
    let t = rd3::<T>(&gen::vec3(r));
    m.input(&format!("rotation<{}>", T::NAME), &w.a);
    m.input("t", &t);
    let x: M33<T> = m33_of(&w);
    m.check("rotation accepted", is_rotation(x), || format!("{:?}", w.a));
    m.check("identity accepted", is_rotation(M33::<T>::identity()) && is_rotation_h(M44::<T>::identity()), || "identity".into());
    let tv = v3_of::<T>(&t);
    let q = q_of::<T>(&rd4::<T>(&gen::unitq(r)));
    let a = T::of(gen::angle(r));
    // built by the library
    let built: [(&str, M33<T>); 6] = [
        ("rotx", rotx(a)),
        ("roty", roty(a)),
        ("rotz", rotz(a)),
        ("quaternion", q.to_rotation()),
        ("euler", euler_to_rotation(a, T::of(gen::angle(r)), T::of(gen::angle(r)), None)),
        ("exponential", matrix_exponential(&skew_from_vec(&v3_of::<T>(&scale3(&gen::axis(r), r.range(0.0, 4.0)))))),
    ];
    for (n, b) in &built {
        m.check("built rotation accepted", is_rotation(*b), || format!("{} {:?}", n, b));
        m.check("built transform accepted", is_rotation_h(homogeneous_from_rotation(b, &tv)), || format!("{} {:?} {:?}", n, b, t));
    }
    m.check("transform accepted", is_rotation_h(homogeneous_from_quaternion(&q, &tv)) && is_rotation_h(translation_3d(tv[0], tv[1], tv[2])) && is_rotation_h(homogeneous_from_rotation(&x, &tv)), || format!("{:?} {:?}", q, t));
    let h = homogeneous_from_rotation(&x, &tv);
    m.check("inverse transform accepted", is_rotation_h(homogeneous_inverse(&h)), || format!("{:?}", h));
    m.check("dual quaternion transform accepted", is_rotation_h(DualQuaternion::new_from_rot_trans(&q, &tv).to_homogeneous()), || format!("{:?}", h));
    // distance of rotations
    let d = distance_to_manifold(&x).f();
    m.small("distance of a rotation is zero", d, 24.0 * T::EPS, || format!("{} of {:?}", d, w.a));
    m.hit("accepted");
}
fn reject<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let e = T::EPS;
    let k = r.below(11);
    let mut w = rot::<T>(r);
    let name: &'static str = match k {
        0 => {
            // shear keeps the determinant
            let mut s: Rm<f64> = Rm::ident(3);
            let i = r.below(3);
            s.set(i, (i + 1 + r.below(2)) % 3, r.sign() * r.logmag(-4.4, 1.0));
            w = if r.chance(0.5) { w.mul(&s) } else { s.mul(&w) };
            "shear"
        }
        1 => {
            // stretch keeps the determinant
            let k = if r.chance(0.5) { 1.0 + r.logmag(-4.5, -1.0) } else { r.logmag(-1.0, 1.0) };
            let mut s: Rm<f64> = Rm::ident(3);
            s.set(0, 0, k);
            s.set(1, 1, 1.0 / k);
            w = w.mul(&s).mul(&qmat(&gen::unitq(r)));
            "volume preserving stretch"
        }
        2 => {
            let c = r.below(3);
            for i in 0..3 {
                let v = -w.g(i, c);
                w.set(i, c, v);
            }
            "reflection"
        }
        3 => {
            w = w.scale(-1.0);
            "point reflection"
        }
        4 => {
            w = w.scale(1.0 + r.sign() * r.logmag(-4.7, -0.3));
            "scaled rotation"
        }
        5 => {
            let (i, j) = (r.below(3), r.below(3));
            let v = w.g(i, j) + r.sign() * r.logmag(-4.4, 1.0);
            w.set(i, j, v);
            "one entry changed"
        }
        6 => {
            w = gen::matrix(r, 3, 6, true);
            "singular"
        }
        7 => {
            let (i, j) = (r.below(3), r.below(3));
            let (i2, j2) = (r.below(3), r.below(3));
            let (a, b) = (w.g(i, j), w.g(i2, j2));
            w.set(i, j, b);
            w.set(i2, j2, a);
            "two entries swapped"
        }
        8 => {
            w = w.scale(r.logmag(-9.0, -2.0));
            "tiny rotation"
        }
        9 => {
            let mut s: Rm<f64> = Rm::zeros(3, 3);
            for i in 0..3 {
                s.set(i, i, r.sign() * r.logmag(-8.0, 2.0));
            }
            w = s;
            "graded diagonal"
        }
        _ => {
            let k = r.below(gen::MAT_KINDS);
            w = gen::matrix(r, 3, k, true);
            "any matrix"
        }
    };
    let w = rdm::<T>(&w);
    let t = rd3::<T>(&gen::vec3(r));
    m.input(&format!("{}<{}>", name, T::NAME), &w.a);
    m.input("t", &t);
    let (big, fro) = defect(&w);
    let det = w.dd().det().f();
    let x: M33<T> = m33_of(&w);
    let h = homogeneous_from_rotation(&x, &v3_of::<T>(&t));
    if big > 3e-5 || det < 0.0 {
        m.check("not a rotation: rejected", !is_rotation(x), || format!("{} {:?} defect {} det {}", name, w.a, big, det));
        m.check("not a transform: rejected", !is_rotation_h(h), || format!("{} {:?} defect {} det {}", name, w.a, big, det));
        m.hit(name);
    }
    // bottom row
    if r.chance(0.3) {
        let good = rot::<T>(r);
        let mut b = homogeneous_from_rotation(&m33_of::<T>(&good), &v3_of::<T>(&t));
        let j = r.below(4);
        let off = r.sign() * r.logmag(-4.0, 1.0);
        b[(3, j)] = b[(3, j)] + T::of(off);
        // several entries off, also so that sums or lengths come out right
        match r.below(6) {
            0 => {
                let k = (j + 1 + r.below(3)) % 4;
                b[(3, k)] = b[(3, k)] - T::of(off);
            }
            1 => {
                let k = (j + 1 + r.below(3)) % 4;
                b[(3, k)] = b[(3, k)] + T::of(off);
            }
            2 => {
                for k in 0..4 {
                    b[(3, k)] = T::of(if k == j { r.sign() } else { 0.0 });
                }
                if j == 3 {
                    b[(3, 3)] = -T::one();
                }
            }
            3 => {
                for k in 0..4 {
                    b[(3, k)] = T::of(r.sign() * 0.5);
                }
            }
            _ => {}
        }
        m.check("wrong bottom row: rejected", !is_rotation_h(b), || format!("{:?}", b));
        m.hit("wrong bottom row");
    }
    // distance
    let d = distance_to_manifold(&x).f();
    let s: f64 = w.a.iter().map(|x| x * x).sum::<f64>();
    let dtol = 8.0 * e * w.a.iter().map(|x| x.abs()).fold(0.0, f64::max).powi(3);
    if det > dtol {
        m.close("distance is the Frobenius norm", d, fro, 12.0 * e * (1.0 + s), || format!("{:?}", w.a));
        m.hit("distance with positive determinant");
    } else if det < -dtol || (det == 0.0 && dtol == 0.0) {
        m.check("distance with non-positive determinant is huge", d > 1e30, || format!("{} of {:?}", d, w.a));
        m.hit("distance with negative determinant");
    } else {
        m.check("distance defined", d > 1e30 || (d - fro).abs() <= 12.0 * e * (1.0 + s), || format!("{} of {:?}", d, w.a));
    }
}
fn main() {
    monitor::run("C24", "matrix with two different entries; distinct by values, perturbation kind and element type", |p| {
        p.wl("accept", 60_000, 4_000_000, |m, r| if r.chance(0.6) { accept::<f64>(m, r) } else { accept::<f32>(m, r) });
        p.guided("guided accept", 12000, 666666, |m, r| if r.chance(0.7) { accept::<W64>(m, r) } else { accept::<W32>(m, r) });
        p.wl("reject", 120_000, 8_000_000, |m, r| if r.chance(0.6) { reject::<f64>(m, r) } else { reject::<f32>(m, r) });
        p.guided("guided reject", 24000, 1333333, |m, r| if r.chance(0.7) { reject::<W64>(m, r) } else { reject::<W32>(m, r) });
        p.require(&["accepted", "shear", "volume preserving stretch", "reflection", "point reflection", "scaled rotation", "one entry changed", "singular", "two entries swapped", "tiny rotation", "graded diagonal", "wrong bottom row", "any matrix", "distance with positive determinant", "distance with negative determinant"], 100);
        p.assume("rejection is required where some entry of R R^T - I or R^T R - I exceeds 3e-5, the determinant is negative or the bottom row is off by more than 1e-4; smaller deviations may be called either way");
    })
}
