//! C10: quaternion algebra against the Hamilton multiplication table.
use mon::qref::*;
use mon::*;
use num::{One, Signed, Zero};

fn cmp<T: Fl>(m: &mut Mon, name: &'static str, got: &Quaternion<T>, want: &[Dd; 4], tol: f64) {
    let g = qf(got);
    for i in 0..4 {
        let e = (Dd::new(g[i]) - want[i]).f().abs();
        m.small(name, e, tol, || format!("{} component {}: got {:?} want {:?}", T::NAME, i, g, f4(want)));
    }
}
fn algebra<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let lim = if T::IS32 { 3.0 } else { 6.0 };
    let wide = if T::IS32 { 8.0 } else { 55.0 };
    let (a, b, c) = (rd4::<T>(&gen::quat_wide(r, lim, wide)), rd4::<T>(&gen::quat_wide(r, lim, wide)), rd4::<T>(&gen::quat(r, 1.0)));
    m.input(&format!("q<{}> p", T::NAME), &a);
    m.input("q", &b);
    let (p, q, s) = (q_of::<T>(&a), q_of::<T>(&b), q_of::<T>(&c));
    let (pd, qd, sd) = (dd4(&a), dd4(&b), dd4(&c));
    let (np, nq, ns) = (qnorm(&a), qnorm(&b), qnorm(&c));
    let e = T::EPS;
    let tiny = T::MINP * 16.0;
    cmp(m, "add", &(p + q), &qadd(&pd, &qd), e * (np + nq) + tiny);
    let nb = qscale(&qd, -Dd::ONE);
    cmp(m, "sub", &(p - q), &qadd(&pd, &nb), e * (np + nq) + tiny);
    cmp(m, "product", &(p * q), &qmul(&pd, &qd), 3.0 * e * np * nq + tiny);
    let k = T::of(gen::scalar(r));
    m.input("k", &[k.f()]);
    cmp(m, "scale", &(p * k), &qscale(&pd, k.dd()), e * np * k.f().abs() + tiny);
    if k.f() != 0.0 && np / k.f().abs() < T::of(f64::MAX).f().min(if T::IS32 { 1e38 } else { 1e307 }) {
        let w = [pd[0] / k.dd(), pd[1] / k.dd(), pd[2] / k.dd(), pd[3] / k.dd()];
        cmp(m, "scalar division", &(p / k), &w, 2.0 * e * np / k.f().abs() + tiny);
    }
    cmp(m, "conj", &p.conj(), &qconj(&pd), 0.0);
    cmp(m, "neg", &(-p), &qscale(&pd, -Dd::ONE), 0.0);
    m.close("dot", p.dot(q).f(), qdot(&pd, &qd).f(), 4.0 * e * np * nq + tiny, || format!("{:?} . {:?}", a, b));
    m.close("abs2", p.abs2().f(), qdot(&pd, &pd).f(), 4.0 * e * np * np + tiny, || format!("{:?}", a));
    m.close("norm2", p.norm2().f(), np, 4.0 * e * np + T::MINP.sqrt() * 4.0, || format!("{:?}", a));
    m.close("abs_imag", p.abs_imag().f(), norm3(&[a[1], a[2], a[3]]), 4.0 * e * np + T::MINP.sqrt() * 4.0, || format!("{:?}", a));
    // laws judged on chained results of the real code
    let l = (p * q) * s;
    cmp(m, "associative left", &l, &qmul(&qmul(&pd, &qd), &sd), 8.0 * e * np * nq * ns + tiny);
    cmp(m, "associative right", &(p * (q * s)), &qmul(&qmul(&pd, &qd), &sd), 8.0 * e * np * nq * ns + tiny);
    cmp(m, "distributive", &(p * (q + s)), &qmul(&pd, &qadd(&qd, &sd)), 8.0 * e * np * (nq + ns) + tiny);
    cmp(m, "conj of product", &(p * q).conj(), &qmul(&qconj(&qd), &qconj(&pd)), 4.0 * e * np * nq + tiny);
    m.close("norm of product", (p * q).norm2().f(), np * nq, 12.0 * e * np * nq + T::MINP.sqrt() * 4.0, || format!("{:?} {:?}", a, b));
    m.check("one", p * Quaternion::one() == p && <Quaternion<T> as One>::one() * p == p, || format!("{:?}", a));
    m.check("zero", p + Quaternion::zero() == p, || format!("{:?}", a));
    let z = a.iter().all(|x| *x == 0.0);
    m.check("is_zero", Zero::is_zero(&p) == z, || format!("{:?}", a));
    m.check("is_one", One::is_one(&p) == (a == [1.0, 0.0, 0.0, 0.0]), || format!("{:?}", a));
    m.check("eq", (p == q) == (a == b) && p == q_of::<T>(&a), || format!("{:?} {:?}", a, b));
    m.check("operands kept", qf(&p) == a && qf(&q) == b, || "operand changed".into());
    division::<T>(m, &a, &b);
}
/// inverse and division, both by value of the squared norm
fn division<T: Fl>(m: &mut Mon, a: &[f64; 4], b: &[f64; 4]) {
    let (p, q) = (q_of::<T>(a), q_of::<T>(b));
    let (pd, qd) = (dd4(a), dd4(b));
    let n2 = qdot(&qd, &qd);
    let nn = n2.f();
    let (np, nq) = (qnorm(a), nn.sqrt());
    let e = T::EPS;
    let inv = q.inverse();
    if nn > T::EPS * (1.0 + 8.0 * e) {
        m.hit(if nn < 100.0 * T::EPS { "just invertible" } else { "invertible" });
        if !m.check("inverse exists", inv.is_some(), || format!("{:?} |q|^2 {:e}", b, nn)) {
            return;
        }
        let i = inv.unwrap();
        let c = qconj(&qd);
        let w = [c[0] / n2, c[1] / n2, c[2] / n2, c[3] / n2];
        cmp(m, "inverse", &i, &w, 6.0 * e / nq);
        cmp(m, "q*inv", &(q * i), &[Dd::ONE, Dd::ZERO, Dd::ZERO, Dd::ZERO], 12.0 * e);
        cmp(m, "inv*q", &(i * q), &[Dd::ONE, Dd::ZERO, Dd::ZERO, Dd::ZERO], 12.0 * e);
        cmp(m, "quotient", &(p / q), &qmul(&pd, &w), 12.0 * e * np / nq + T::MINP * 16.0);
        cmp(m, "(p/q)*q", &((p / q) * q), &pd, 24.0 * e * np + T::MINP * 16.0 * (1.0 + nq));
    } else if nn < T::EPS * (1.0 - 8.0 * e) {
        m.hit("refused");
        m.check("inverse refused", inv.is_none(), || format!("{:?} |q|^2 {:e}", b, nn));
    }
}
fn threshold<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let s = (T::EPS * r.logmag(-2.0, 3.0)).sqrt() * if r.chance(0.1) { r.logmag(0.0, if T::IS32 { 18.0 } else { 140.0 }) } else { 1.0 };
    let u = gen::unitq(r);
    let b = rd4::<T>(&[u[0] * s, u[1] * s, u[2] * s, u[3] * s]);
    let a = rd4::<T>(&gen::quat(r, 1.0));
    m.input(&format!("q<{}> p", T::NAME), &a);
    m.input("small q", &b);
    division::<T>(m, &a, &b);
}
/// exact: integers, against the table in i128
fn exact<T: El + Signed>(m: &mut Mon, r: &mut Rng) {
    let s = (T::SMALL / 2).clamp(1, 1_000_000);
    let g = |r: &mut Rng| -> [i64; 4] {
        if r.chance(0.2) {
            let mut q = [0; 4];
            q[r.below(4)] = if r.chance(0.5) { 1 } else { -1 };
            q
        } else {
            [r.int(-s, s), r.int(-s, s), r.int(-s, s), r.int(-s, s)]
        }
    };
    let (a, b) = (g(r), g(r));
    m.input(&format!("q<{}> ints", T::NAME), &a.map(|x| x as f64));
    m.input("q", &b.map(|x| x as f64));
    let mk = |a: &[i64; 4]| Quaternion::<T>::new_from(T::of_i(a[0]), T::of_i(a[1]), T::of_i(a[2]), T::of_i(a[3]));
    let un = |q: Quaternion<T>| -> [i128; 4] {
        let v = q.imag();
        [q.real().i(), v[0].i(), v[1].i(), v[2].i()]
    };
    let (p, q) = (mk(&a), mk(&b));
    let (ai, bi) = (a.map(|x| x as i128), b.map(|x| x as i128));
    let z = |f: fn(i128, i128) -> i128| [f(ai[0], bi[0]), f(ai[1], bi[1]), f(ai[2], bi[2]), f(ai[3], bi[3])];
    m.check("int product", un(p * q) == qmul(&ai, &bi), || format!("{:?}*{:?} = {:?}", a, b, un(p * q)));
    m.check("int add", un(p + q) == z(|x, y| x + y), || format!("{:?}+{:?}", a, b));
    m.check("int sub", un(p - q) == z(|x, y| x - y), || format!("{:?}-{:?}", a, b));
    m.check("int neg/conj", un(-p) == ai.map(|x| -x) && un(p.conj()) == qconj(&ai), || format!("{:?}", a));
    m.check("int dot/abs2", p.dot(q).i() == qdot(&ai, &bi) && p.abs2().i() == qdot(&ai, &ai), || format!("{:?} {:?}", a, b));
    let k = r.int(-2, 2);
    m.check("int scale", un(p * T::of_i(k)) == ai.map(|x| x * k as i128), || format!("{:?}*{}", a, k));
    let (x, y) = (V3::new_from(T::of_i(a[1]), T::of_i(a[2]), T::of_i(a[3])), V4::new_from(T::of_i(a[0]), T::of_i(a[1]), T::of_i(a[2]), T::of_i(a[3])));
    m.check("constructors", Quaternion::new(T::of_i(a[0]), x) == p && Quaternion::new_from_vec(&y) == p && Quaternion::from(*y) == p && Quaternion::new_real(T::of_i(a[0])) + Quaternion::new_imag(&x) == p && un(Quaternion::new_real(T::of_i(a[0]))) == [ai[0], 0, 0, 0] && un(Quaternion::new_imag(&x)) == [0, ai[1], ai[2], ai[3]], || format!("{:?}", a));
    m.hit("exact integers");
}
fn table(m: &mut Mon) {
    let e = |k: usize, s: i32| {
        let mut v = [0; 4];
        v[k] = s;
        Quaternion::new_from(v[0], v[1], v[2], v[3])
    };
    m.input("units", &[1.0, 2.0]);
    let (i, j, k) = (e(1, 1), e(2, 1), e(3, 1));
    let mone = e(0, -1);
    m.check("i^2=j^2=k^2=ijk=-1", i * i == mone && j * j == mone && k * k == mone && i * j * k == mone && i * j == k && j * k == i && k * i == j && j * i == e(3, -1), || "unit table".into());
}
fn main() {
    monitor::run("C10", "quaternion with two different components; distinct by components, scalar and element type", |p| {
        p.wl("algebra", 100_000, 8_000_000, |m, r| if r.chance(0.6) { algebra::<f64>(m, r) } else { algebra::<f32>(m, r) });
        p.guided("guided algebra", 20000, 1333333, |m, r| if r.chance(0.7) { algebra::<W64>(m, r) } else { algebra::<W32>(m, r) });
        p.wl("threshold", 50_000, 2_000_000, |m, r| if r.chance(0.6) { threshold::<f64>(m, r) } else { threshold::<f32>(m, r) });
        p.guided("guided threshold", 10000, 333333, |m, r| if r.chance(0.7) { threshold::<W64>(m, r) } else { threshold::<W32>(m, r) });
        p.wl("exact", 60_000, 3_000_000, |m, r| match r.below(4) {
            0 => exact::<i8>(m, r),
            1 => exact::<i32>(m, r),
            2 => exact::<i64>(m, r),
            _ => exact::<i128>(m, r),
        });
        p.wl("units", 1, 1, |m, _| table(m));
        p.require(&["invertible", "just invertible", "refused", "exact integers"], 100);
    })
}
