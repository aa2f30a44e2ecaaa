//! C07: vector operations against the component-wise shadow.
use mon::*;
use static_math::{vector2, vector3, V2_ZEROS, V3_ZEROS, V4_ZEROS, V5_ZEROS, V6_ZEROS};

fn ops<M: Ma<T>, T: El>(m: &mut Mon, r: &mut Rng) {
    let n = M::N;
    let (ea, eb) = (scale_exp::<T>(r), scale_exp::<T>(r));
    let a: M::V = vec_el(r, ea);
    let b: M::V = if r.chance(0.1) { a } else { vec_el(r, eb) };
    let av = a.sl().to_vec();
    let bv = b.sl().to_vec();
    m.input(&format!("V{}<{}> a", n, T::NAME), &fs(&av));
    m.input("b", &fs(&bv));
    m.hit(if T::FLOAT { "float vectors" } else if T::SIGNED { "signed vectors" } else { "unsigned vectors" });
    let dd = |v: &[T]| -> Vec<Dd> { v.iter().map(|x| x.dd()).collect() };
    let (ad, bd) = (dd(&av), dd(&bv));
    let ab = |d: &[Dd]| -> Vec<f64> { d.iter().map(|x| x.f().abs()).collect() };
    let (am, bm) = (ab(&ad), ab(&bd));
    let sm: Vec<f64> = (0..n).map(|i| am[i] + bm[i]).collect();
    let sum: Vec<Dd> = (0..n).map(|i| ad[i] + bd[i]).collect();
    let s = a + b;
    jv(m, "add", s.sl(), &sum, &sm, 1.0);
    let mut t = a;
    t += b;
    jv(m, "add_assign", t.sl(), &sum, &sm, 1.0);
    let x = if T::SIGNED { a } else { s };
    let xd = dd(x.sl());
    let dif: Vec<Dd> = (0..n).map(|i| xd[i] - bd[i]).collect();
    jv(m, "sub", (x - b).sl(), &dif, &sm, 1.0);
    let mut t = x;
    t -= b;
    jv(m, "sub_assign", t.sl(), &dif, &sm, 1.0);
    let k: T = el(r, 0);
    m.input("k", &[k.dd().f()]);
    let w: Vec<Dd> = ad.iter().map(|x| *x * k.dd()).collect();
    jv(m, "mul_scalar", (a * k).sl(), &w, &ab(&w), 1.0);
    if k != T::zero() {
        let w: Vec<Dd> = if T::FLOAT { ad.iter().map(|x| *x / k.dd()).collect() } else { av.iter().map(|x| Dd::from_i128(x.i() / k.i())).collect() };
        jv(m, "div_scalar", (a / k).sl(), &w, &ab(&w), 2.0);
    }
    if T::FLOAT {
        // IEEE: component-wise infinities and NaNs
        let q = (a / T::zero()).sl().iter().map(|x| x.dd().f()).collect::<Vec<f64>>();
        m.check("division by zero is component-wise", (0..n).all(|i| if av[i] == T::zero() { q[i].is_nan() } else { q[i].is_infinite() && (q[i] > 0.0) == (av[i] > T::zero()) }), || format!("{:?} / 0 = {:?}", a, q));
    }
    let dot: T = a * b;
    let mut w = Dd::ZERO;
    let mut mg = 0.0;
    for i in 0..n {
        w += ad[i] * bd[i];
        mg += am[i] * bm[i];
    }
    jv(m, "dot", &[dot], &[w], &[mg], n as f64);
    m.check("dot commutes", T::FLOAT || a * b == b * a, || format!("{:?}.{:?}", a, b));
    // constructors, tests, equality
    m.check("zeros/zero/ones", M::V::zeros_().sl().iter().all(|x| *x == T::zero()) && <M::V as num::Zero>::zero() == M::V::zeros_() && M::V::ones_().sl().iter().all(|x| *x == T::one()), || "constructors".into());
    m.check("is_zero", num::Zero::is_zero(&a) == av.iter().all(|x| *x == T::zero()), || format!("is_zero({:?})", a));
    m.check("eq", (a == b) == (av == bv), || format!("{:?} == {:?}", a, b));
    m.check("operands kept", a.sl() == &av[..] && b.sl() == &bv[..], || "operand changed".into());
}
fn negate<M: Ma<T>, T: El>(m: &mut Mon, r: &mut Rng)
where
    M::V: Neg1,
{
    let e = scale_exp::<T>(r);
    let a: M::V = vec_el(r, e);
    m.input(&format!("V{}<{}> neg", M::N, T::NAME), &fs(a.sl()));
    let g = a.neg1();
    m.check("neg", (0..M::N).all(|i| g.sl()[i] == T::zero() - a.sl()[i]), || format!("-{:?} = {:?}", a, g));
}
fn cross<T: El>(m: &mut Mon, r: &mut Rng) {
    let e = scale_exp::<T>(r) / 2;
    let g = |r: &mut Rng| -> V3<T> { vec_el(r, e) };
    let (a, b) = (g(r), g(r));
    m.input(&format!("V3<{}> cross a", T::NAME), &fs(a.sl()));
    m.input("b", &fs(b.sl()));
    let d = |v: &V3<T>, i: usize| v.sl()[i].dd();
    let c = a.cross(b);
    for i in 0..3 {
        let (j, k) = ((i + 1) % 3, (i + 2) % 3);
        let w = d(&a, j) * d(&b, k) - d(&a, k) * d(&b, j);
        let mag = (d(&a, j) * d(&b, k)).f().abs() + (d(&a, k) * d(&b, j)).f().abs();
        jv(m, "cross", &[c.sl()[i]], &[w], &[mag], 2.0);
    }
    let z = b.cross(a);
    m.check("anticommutative", T::FLOAT || (0..3).all(|i| z.sl()[i] + c.sl()[i] == T::zero()), || format!("{:?} x {:?}", a, b));
    m.hit("cross product");
}
fn ctors<T: El>(m: &mut Mon, r: &mut Rng) {
    let x: Vec<T> = (0..6).map(|_| el(r, 0)).collect();
    m.input(&format!("{} constructors", T::NAME), &fs(&x));
    m.check("new_from", V2::new_from(x[0], x[1]).sl() == &x[..2] && V3::new_from(x[0], x[1], x[2]).sl() == &x[..3] && V4::new_from(x[0], x[1], x[2], x[3]).sl() == &x[..4] && V5::new_from(x[0], x[1], x[2], x[3], x[4]).sl() == &x[..5] && V6::new_from(x[0], x[1], x[2], x[3], x[4], x[5]).sl() == &x[..6], || format!("{:?}", x));
    m.check("From", V2::from([x[0], x[1]]).sl() == &x[..2] && V3::from([x[0], x[1], x[2]]).sl() == &x[..3] && V4::from([x[0], x[1], x[2], x[3]]).sl() == &x[..4] && V5::from([x[0], x[1], x[2], x[3], x[4]]).sl() == &x[..5] && V6::from([x[0], x[1], x[2], x[3], x[4], x[5]]).sl() == &x[..6], || format!("{:?}", x));
    let (o, z) = (T::one(), T::zero());
    m.check("axes", V3::<T>::x_axis().sl() == [o, z, z] && V3::<T>::y_axis().sl() == [z, o, z] && V3::<T>::z_axis().sl() == [z, z, o], || "axes".into());
    // mutable view writes exactly one component
    let k = r.below(6);
    let mut v = V6::from([x[0], x[1], x[2], x[3], x[4], x[5]]);
    v[k] = x[(k + 1) % 6];
    m.check("deref_mut", (0..6).all(|i| v[i] == if i == k { x[(k + 1) % 6] } else { x[i] }), || format!("{:?}", v));
    m.hit("constructors");
}
fn left<L: LeftMul>(m: &mut Mon, r: &mut Rng) {
    let s = L::S::of(gen::scalar(r));
    let x: Vec<f64> = (0..L::LEN).map(|_| L::S::of(gen::scalar(r)).f()).collect();
    m.input(L::WHAT, &x);
    let got = L::lmul(s, L::of_flat(&x)).flat();
    for i in 0..L::LEN {
        let w = s.f() * x[i];
        m.close("left scalar", got[i], w, L::S::EPS * w.abs() + L::S::MINP, || format!("{} component {}", L::WHAT, i));
    }
    m.hit("scalar on the left");
}
fn main() {
    monitor::run("C07", "vector with two different components; distinct by components, scalar, size and element type", |p| {
        macro_rules! all {
            ($f:ident, $m:expr, $r:expr) => {
                match $r.below(12) {
                    0 => for_sizes!($f, i8, $m, $r),
                    1 => for_sizes!($f, i16, $m, $r),
                    2 => for_sizes!($f, i32, $m, $r),
                    3 => for_sizes!($f, i64, $m, $r),
                    4 => for_sizes!($f, i128, $m, $r),
                    5 => for_sizes!($f, u8, $m, $r),
                    6 => for_sizes!($f, u32, $m, $r),
                    7 => for_sizes!($f, u64, $m, $r),
                    8 | 9 => for_sizes!($f, f32, $m, $r),
                    _ => for_sizes!($f, f64, $m, $r),
                }
            };
        }
        p.wl("ops", 50_000, 4_000_000, |m, r| all!(ops, m, r));
        p.guided("guided ops", 8000, 500000, |m, r| if r.chance(0.7) { for_sizes!(ops, W64, m, r) } else { for_sizes!(ops, W32, m, r) });
        p.wl("neg", 20_000, 400_000, |m, r| match r.below(5) {
            0 => for_sizes!(negate, i8, m, r),
            1 => for_sizes!(negate, i32, m, r),
            2 => for_sizes!(negate, i128, m, r),
            3 => for_sizes!(negate, f32, m, r),
            _ => for_sizes!(negate, f64, m, r),
        });
        p.wl("cross", 50_000, 2_000_000, |m, r| match r.below(6) {
            0 => cross::<i8>(m, r),
            1 => cross::<i32>(m, r),
            2 => cross::<i64>(m, r),
            3 => cross::<i128>(m, r),
            4 => cross::<f32>(m, r),
            _ => cross::<f64>(m, r),
        });
        p.guided("guided cross", 8000, 300000, |m, r| if r.chance(0.7) { cross::<W64>(m, r) } else { cross::<W32>(m, r) });
        p.wl("left", 20_000, 500_000, |m, r| {
            left::<V2<f32>>(m, r);
            left::<V3<f32>>(m, r);
            left::<V3<f64>>(m, r);
            left::<V4<f32>>(m, r);
            left::<V5<f32>>(m, r);
            left::<V6<f32>>(m, r);
        });
        p.wl("constructors", 20_000, 300_000, |m, r| match r.below(4) {
            0 => ctors::<i8>(m, r),
            1 => ctors::<u32>(m, r),
            2 => ctors::<f32>(m, r),
            _ => ctors::<f64>(m, r),
        });
        p.wl("bool-and", 256, 256, |m, _| {
            let i = m.index();
            let g = |s: u64| [(i >> s) & 1 == 1, (i >> (s + 1)) & 1 == 1, (i >> (s + 2)) & 1 == 1, (i >> (s + 3)) & 1 == 1];
            let (a, b) = (g(0), g(4));
            m.input("V4<bool>", &[i as f64]);
            let c = V4::new(a) & V4::new(b);
            m.check("bitand", (0..4).all(|k| c[k] == (a[k] && b[k])), || format!("{:?} & {:?} = {:?}", a, b, c));
            m.check("constants", *V2_ZEROS == [0.0; 2] && *V3_ZEROS == [0.0; 3] && *V4_ZEROS == [0.0; 4] && *V5_ZEROS == [0.0; 5] && *V6_ZEROS == [0.0; 6]
                && *vector2::X_AXIS == [1.0, 0.0] && *vector2::Y_AXIS == [0.0, 1.0]
                && *vector3::X_AXIS == [1.0, 0.0, 0.0] && *vector3::Y_AXIS == [0.0, 1.0, 0.0] && *vector3::Z_AXIS == [0.0, 0.0, 1.0], || "exported constants".into());
            m.hit("boolean and, all 256 combinations");
        });
        p.require(&["float vectors", "signed vectors", "unsigned vectors", "cross product", "constructors", "scalar on the left", "boolean and, all 256 combinations"], 200);
    })
}
