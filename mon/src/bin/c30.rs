//! C30: equality, zero and one tests of vectors, matrices, quaternions and dual quaternions are component-wise.
use mon::*;
use num::{One, Zero};
use static_math::slices_methods::{find_max_min, MaxMin};

/// components with special values among them
fn comps<T: El>(r: &mut Rng, n: usize) -> Vec<T> {
    let e = scale_exp::<T>(r);
    let same: T = el(r, e);
    let kind = r.below(8);
    (0..n)
        .map(|i| match kind {
            0 => T::zero(),
            1 => same,
            2 => T::of_i((i == 0) as i64),
            3 if T::FLOAT && r.chance(0.3) => special(r),
            _ => el(r, e),
        })
        .collect()
}
fn special<T: El>(r: &mut Rng) -> T {
    let x = *r.pick(&[0.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 1e-40, -1e-40, 1e-310, 3e38, 1.0, -1.0]);
    of_f::<T>(x)
}
/// a second list: the same, or different in one or two places
fn other<T: El>(m: &mut Mon, r: &mut Rng, a: &[T]) -> Vec<T> {
    let n = a.len();
    let mut b = a.to_vec();
    match r.below(9) {
        0 => {}
        1 => return comps(r, n),
        2 => {
            let (i, j) = (r.below(n), r.below(n));
            b.swap(i, j);
            m.hit("two components exchanged");
        }
        3 if T::SIGNED => {
            let i = r.below(n);
            b[i] = T::zero() - b[i];
            m.hit("one component negated");
        }
        4 if T::FLOAT => {
            let i = r.below(n);
            b[i] = special(r);
            m.hit("special value");
        }
        5 if T::FLOAT => {
            let i = r.below(n);
            b[i] = of_f::<T>(b[i].dd().f() * if r.chance(0.5) { 1.0 + T::U } else { 1.0 - T::U });
            m.hit("one unit in the last place");
        }
        6 if T::SIGNED => {
            // the sign of a zero changes nothing
            for x in b.iter_mut() {
                *x = T::zero() - (T::zero() - *x);
            }
        }
        _ => {
            let i = r.below(n);
            b[i] = b[i] + T::one();
            m.hit("one component different");
        }
    }
    b
}
fn all_eq<T: El>(a: &[T], b: &[T]) -> bool {
    a.iter().zip(b).all(|(x, y)| x == y)
}
/// the equality of two values of any type against that of their components
#[allow(clippy::eq_op)]
fn judge<V: PartialEq + Copy, T: El>(m: &mut Mon, what: &str, x: V, y: V, a: &[T], b: &[T]) {
    m.input(&format!("{}<{}> a", what, T::NAME), &fs(a));
    m.input("b", &fs(b));
    let w = all_eq(a, b);
    let t = || format!("{}<{}> {:?} and {:?}: components equal is {}", what, T::NAME, a, b, w);
    m.check("==", (x == y) == w && (y == x) == w, t);
    m.check("!=", (x != y) == !w && (y != x) == !w, t);
    let s = all_eq(a, a);
    m.check("itself", (x == x) == s, || format!("{}<{}> {:?} == itself should be {}", what, T::NAME, a, s));
    m.hit(if w { "equal" } else { "unequal" });
}
fn matrices<M: Ma<T>, T: El>(m: &mut Mon, r: &mut Rng)
where
    M::V: PartialEq + Copy,
{
    let n = M::N;
    // vectors
    let a: Vec<T> = comps(r, n);
    let b = other(m, r, &a);
    let (x, y) = (M::V::mk(&a), M::V::mk(&b));
    judge(m, &format!("V{}", n), x, y, &a, &b);
    let z = T::zero();
    m.check("vector is_zero", x.is_zero() == a.iter().all(|c| *c == z), || format!("{:?}", x));
    let mut c = x;
    c.set_zero();
    m.check("vector set_zero", c.is_zero() && c.sl().iter().all(|e| *e == z) && c == M::V::zero(), || format!("{:?}", c));
    m.check("copy is independent", x.sl().iter().zip(&a).all(|(p, q)| p == q || (p != p && q != q)), || format!("{:?}", x));
    // matrices
    let a: Vec<T> = if r.chance(0.2) { M::identity_().as_vec_() } else { comps(r, n * n) };
    let b = other(m, r, &a);
    let (x, y) = (M::mk(&a), M::mk(&b));
    judge(m, M::NAME, x, y, &a, &b);
    let id: Vec<T> = (0..n * n).map(|k| if k / n == k % n { T::one() } else { z }).collect();
    m.check("matrix is_zero", y.is_zero() == b.iter().all(|c| *c == z), || format!("{:?}", y));
    m.check("matrix is_one", y.is_one() == all_eq(&b, &id), || format!("{:?}", y));
    let mut c = x;
    c.set_zero();
    m.check("matrix set_zero", c.is_zero() && !c.is_one() && c.as_vec_().iter().all(|e| *e == z), || format!("{:?}", c));
    c.set_one();
    m.check("matrix set_one", c.is_one() && !c.is_zero() && all_eq(&c.as_vec_(), &id), || format!("{:?}", c));
    m.check("matrix copy is independent", x.as_vec_().iter().zip(&a).all(|(p, q)| p == q || (p != p && q != q)), || format!("{:?}", x));
}
/// quaternions and dual quaternions over any numeric type
fn quats<T: El>(m: &mut Mon, r: &mut Rng) {
    let a: Vec<T> = comps(r, 8);
    let b = other(m, r, &a);
    let q = |c: &[T]| Quaternion::new_from(c[0], c[1], c[2], c[3]);
    let v = |c: &[T]| Quaternion::new(c[0], V3::new_from(c[1], c[2], c[3]));
    judge(m, "Quaternion", q(&a), v(&b), &a[..4], &b[..4]);
    let d = |c: &[T]| DualQuaternion::new(q(&c[..4]), v(&c[4..]));
    judge(m, "DualQuaternion", d(&a), d(&b), &a, &b);
    let z = T::zero();
    let p = q(&a);
    let one = [T::one(), z, z, z, z, z, z, z];
    m.check("quaternion is_zero", p.is_zero() == a[..4].iter().all(|c| *c == z), || format!("{:?}", p));
    m.check("quaternion is_one", p.is_one() == all_eq(&a[..4], &one[..4]), || format!("{:?}", p));
    let p = d(&a);
    m.check("dual quaternion is_zero", p.is_zero() == a.iter().all(|c| *c == z), || format!("{:?}", p));
    m.check("dual quaternion is_one", p.is_one() == all_eq(&a, &one), || format!("{:?}", p));
    let mut p = q(&a);
    p.set_zero();
    m.check("quaternion set_zero", p.is_zero() && !p.is_one() && p == Quaternion::zero(), || format!("{:?}", p));
    p.set_one();
    m.check("quaternion set_one", p.is_one() && !p.is_zero() && p == q(&one), || format!("{:?}", p));
    // rigid-motion constructors over any number type carry a cached state: it must not show
    let (x, y) = (DualQuaternion::new_from_rotation(&q(&a)), DualQuaternion::new(q(&b), Quaternion::zero()));
    m.check("rotation equals bare parts", (x == y) == all_eq(&a[..4], &b[..4]), || format!("{:?} {:?}", x, y));
    m.hit("quaternions");
}
/// the same components through normalize (cached state set), arithmetic, and bare
fn flagged<T: Fl>(m: &mut Mon, r: &mut Rng) {
    let u: Quaternion<T> = unit_t(r);
    let bare = q_of::<T>(&qf(&u));
    m.input(&format!("Quaternion<{}> with history", T::NAME), &qf(&u));
    let t = || format!("{:?} {:?}", u, bare);
    m.check("cached state does not show", u == bare && bare == u && !(u != bare), t);
    let n = u.normalize().expect("unit");
    let k = q_of::<T>(&qf(&n));
    m.check("normalised equals bare", n == k && k == n, || format!("{:?} {:?}", n, k));
    let mut c = qf(&n);
    let i = r.below(4);
    c[i] = T::of(if c[i] == 0.0 { T::EPS } else { c[i] * (1.0 + T::EPS) }).f();
    let o = q_of::<T>(&c);
    m.check("normalised differs from its neighbour", (n == o) == (c == qf(&n)) && (o == n) == (c == qf(&n)), || format!("{:?} {:?}", n, o));
    let v = v3_of::<T>(&gen::vec3(r));
    let d = DualQuaternion::new_from_rot_trans(&n, &v);
    let (p, q) = dqf(&d);
    let e = dq_of::<T>(&p, &q);
    m.check("motion equals its bare parts", d == e && e == d, || format!("{:?} {:?}", d, e));
    let mut q2 = q;
    q2[i] = T::of(if q2[i] == 0.0 { T::MINP } else { q2[i] * (1.0 + T::EPS) }).f();
    let o = dq_of::<T>(&p, &q2);
    m.check("motion differs from its neighbour", (d == o) == (q == q2), || format!("{:?} {:?}", d, o));
    m.hit("with history");
}
fn maxmin<T: El>(m: &mut Mon, r: &mut Rng) {
    let n = 1 + r.below(6);
    let a: Vec<T> = (0..n).map(|_| el(r, 0)).collect();
    let g = find_max_min(&a);
    let k = r.below(5);
    let o = MaxMin { max: (if k == 1 { g.max.0 + T::one() } else { g.max.0 }, g.max.1 + (k == 2) as usize), min: (if k == 3 { g.min.0 + T::one() } else { g.min.0 }, g.min.1 + (k == 4) as usize) };
    let w = g.max.0 == o.max.0 && g.min.0 == o.min.0 && g.max.1 == o.max.1 && g.min.1 == o.min.1;
    m.input(&format!("MaxMin<{}>", T::NAME), &fs(&a));
    m.check("MaxMin", (g == o) == w, || format!("{:?} {:?}", g, o));
}
fn main() {
    monitor::run("C30", "pair of values whose components are not all zero; distinct by components, type and element type", |p| {
        p.wl("pairs", 60_000, 3_000_000, |m, r| match r.below(9) {
            0 => for_sizes!(matrices, i8, m, r),
            1 => for_sizes!(matrices, i16, m, r),
            2 => for_sizes!(matrices, u8, m, r),
            3 => for_sizes!(matrices, i32, m, r),
            4 => for_sizes!(matrices, i64, m, r),
            5 => for_sizes!(matrices, u64, m, r),
            6 => for_sizes!(matrices, i128, m, r),
            7 => for_sizes!(matrices, f32, m, r),
            _ => for_sizes!(matrices, f64, m, r),
        });
        p.guided_any("guided pairs", 8000, 400000, |m, r| if r.chance(0.7) { for_sizes!(matrices, W64, m, r) } else { for_sizes!(matrices, W32, m, r) });
        p.wl("quaternions", 100_000, 5_000_000, |m, r| match r.below(6) {
            0 => quats::<i8>(m, r),
            1 => quats::<i32>(m, r),
            2 => quats::<i64>(m, r),
            3 => quats::<f32>(m, r),
            _ => quats::<f64>(m, r),
        });
        p.guided_any("guided quaternions", 15000, 600000, |m, r| if r.chance(0.7) { quats::<W64>(m, r) } else { quats::<W32>(m, r) });
        p.wl("history", 60_000, 3_000_000, |m, r| if r.chance(0.5) { flagged::<f64>(m, r) } else { flagged::<f32>(m, r) });
        p.guided_any("guided history", 12000, 500000, |m, r| if r.chance(0.7) { flagged::<W64>(m, r) } else { flagged::<W32>(m, r) });
        p.wl("maxmin", 10_000, 400_000, |m, r| match r.below(3) {
            0 => maxmin::<i8>(m, r),
            1 => maxmin::<i64>(m, r),
            _ => maxmin::<f64>(m, r),
        });
        p.require(&["equal", "unequal", "two components exchanged", "one component negated", "special value", "one unit in the last place", "one component different", "quaternions", "with history"], 100);
    })
}
