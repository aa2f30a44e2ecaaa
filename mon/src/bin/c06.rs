//! C06: every accessor, view and constructor agrees with one row-major layout.
use mon::*;
use num::traits::Num;
use static_math::{m22_new, m33_new, m44_new, m55_new, m66_new};

/// all views of `a` must agree with the shadow `s` (row major)
fn views<M: Ma<T>, T: El>(m: &mut Mon, a: &M, s: &[T]) {
    let n = M::N;
    let bad = |what: &str| format!("{}<{}> {} disagrees: {:?} shadow {:?}", M::NAME, T::NAME, what, a, s);
    let mut ok1 = true;
    let mut ok2 = true;
    let mut ok3 = true;
    for i in 0..n {
        for j in 0..n {
            ok1 &= a.at(i, j) == s[i * n + j];
            ok2 &= a.ix1(i, j) == s[i * n + j];
            ok3 &= a.ix2(i, j) == s[i * n + j];
        }
    }
    m.check("deref", ok1, || bad("deref"));
    m.check("index [i][j]", ok2, || bad("[i][j]"));
    m.check("index [(i,j)]", ok3, || bad("[(i,j)]"));
    m.check("as_vec", a.as_vec_() == s, || bad("as_vec"));
    let rows: Vec<Vec<T>> = (0..n).map(|i| s[i * n..(i + 1) * n].to_vec()).collect();
    let cols: Vec<Vec<T>> = (0..n).map(|j| (0..n).map(|i| s[i * n + j]).collect()).collect();
    m.check("get_rows", a.rows_() == rows, || bad("get_rows"));
    m.check("get_cols", a.cols_() == cols, || bad("get_cols"));
    m.check("new_from_vecs", M::from_cols_(&cols) == *a && M::from_cols_(&a.cols_()).as_vec_() == s, || bad("new_from_vecs"));
    m.check("get_diagonal", a.diag_() == (0..n).map(|i| s[i * n + i]).collect::<Vec<T>>(), || bad("diagonal"));
    if let Some(u) = a.upper_() {
        let w: Vec<T> = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).map(|(i, j)| s[i * n + j]).collect();
        m.check("get_upper_triangular", u == w, || format!("{} upper list {:?}", bad("upper"), u));
    }
    if let Some(u) = a.lower_() {
        let w: Vec<T> = (0..n).flat_map(|i| (0..i).map(move |j| (i, j))).map(|(i, j)| s[i * n + j]).collect();
        m.check("get_lower_triangular", u == w, || format!("{} lower list {:?}", bad("lower"), u));
    }
    m.check("shape", a.shape_() == (n, n), || bad("rows()/cols()"));
    m.check("equality with rebuilt", M::mk(s) == *a, || bad("=="));
}

fn layout<M: Ma<T>, T: El>(m: &mut Mon, r: &mut Rng) {
    let n = M::N;
    let mut s: Vec<T> = if r.chance(0.5) { (1..=(n * n) as i64).map(T::of_i).collect() } else { (0..n * n).map(|_| el(r, 0)).collect() };
    if r.chance(0.3) {
        r.shuffle(&mut s);
    }
    let mut a = M::mk(&s);
    m.input(&format!("{}<{}>", M::NAME, T::NAME), &fs(&s));
    views(m, &a, &s);
    // map sees every element once, in place
    let one = T::one();
    let mapped = a.map_(|x| if x == one { T::zero() } else { one });
    let want: Vec<T> = s.iter().map(|&x| if x == one { T::zero() } else { one }).collect();
    m.check("for_each", mapped.as_vec_() == want, || format!("{:?} -> {:?}", a, mapped));
    m.check("for_each identity", a.map_(|x| x) == a, || format!("{:?}", a));
    m.check("identity", (0..n * n).all(|x| M::identity_().at(x / n, x % n) == if x / n == x % n { one } else { T::zero() }), || "identity()".into());
    m.check("zeros", (0..n * n).all(|x| M::zeros_().at(x / n, x % n) == T::zero()), || "zeros()".into());
    // write history with a shadow
    let mut ops = vec![];
    for _ in 0..8 {
        let (i, j) = (r.below(n), r.below(n));
        let v: T = el(r, 0);
        if r.chance(0.5) {
            a.ix1_set(i, j, v);
            m.hit("write through [i][j]");
        } else {
            a.ix2_set(i, j, v);
            m.hit("write through [(i,j)]");
        }
        s[i * n + j] = v;
        ops.extend_from_slice(&[i as f64, j as f64, v.dd().f()]);
        let same = (0..n * n).all(|x| a.at(x / n, x % n) == s[x]);
        m.check("write one element", same, || format!("{} after writes {:?}: {:?}", M::NAME, ops, a));
        if !same {
            break;
        }
    }
    m.input("writes", &ops);
    views(m, &a, &s);
}

fn float_views<M: MaF<T>, T: Fl>(m: &mut Mon, r: &mut Rng) {
    let n = M::N;
    let e = scale_exp::<T>(r);
    let a: M = if r.chance(0.4) { M::mk(&(1..=(n * n) as i64).map(T::of_i).collect::<Vec<T>>()) } else { mat_el(r, e) };
    m.input(&format!("{}<{}>", M::NAME, T::NAME), &m_f::<M, T>(&a).a);
    let t = a.transpose();
    m.check("transpose", (0..n * n).all(|x| t.at(x / n, x % n) == a.at(x % n, x / n)), || format!("{:?} -> {:?}", a, t));
    m.check("transpose twice", t.transpose() == a, || format!("{:?}", a));
    let d: f64 = (0..n).fold(Dd::ZERO, |s, i| s + a.at(i, i).dd()).f();
    let mag: f64 = (0..n).map(|i| a.at(i, i).f().abs()).sum();
    m.close("trace", a.trace().f(), d, n as f64 * T::EPS * mag, || format!("{:?}", a));
    m.check("trait shape", a.shape() == (n, n) && LinearAlgebra::rows(&a) == n && LinearAlgebra::cols(&a) == n, || "shape()".into());
}

fn sub44<T: El>(m: &mut Mon, r: &mut Rng) {
    let s: Vec<T> = if r.chance(0.5) { (1..=16).map(T::of_i).collect() } else { (0..16).map(|_| el(r, 0)).collect() };
    let a: M44<T> = Ma::mk(&s);
    m.input(&format!("M44<{}> submatrix", T::NAME), &fs(&s));
    for i in 0..4 {
        for j in 0..4 {
            let g = a.get_submatrix((i, j));
            let mut k = 0;
            let mut ok = true;
            for p in 0..4 {
                for q in 0..4 {
                    if p != i && q != j {
                        ok &= g.at(k / 3, k % 3) == s[4 * p + q];
                        k += 1;
                    }
                }
            }
            m.check("get_submatrix", ok, || format!("dropping ({},{}) of {:?} gave {:?}", i, j, a, g));
        }
    }
    m.check("submatrix leaves the matrix", a.as_vec_() == s, || "changed".into());
}
fn quadrants<T: El>(m: &mut Mon, r: &mut Rng) {
    let mut s: Vec<T> = (0..36).map(|_| el(r, 0)).collect();
    let mut a: M66<T> = Ma::mk(&s);
    m.input(&format!("M66<{}> quadrant copies", T::NAME), &fs(&s));
    for _ in 0..3 {
        let b: Vec<T> = (1..=9).map(|k| if r.chance(0.5) { T::of_i(k) } else { el(r, 0) }).collect();
        let bm: M33<T> = Ma::mk(&b);
        let q = 1 + r.below(4);
        a.copy_elements_from(&bm, q);
        let (ro, co) = ((q - 1) / 2 * 3, (q - 1) % 2 * 3);
        for i in 0..3 {
            for j in 0..3 {
                s[(i + ro) * 6 + j + co] = b[i * 3 + j];
            }
        }
        m.check("copy_elements_from", a.as_vec_() == s, || format!("quadrant {} of {:?}", q, bm));
        m.check("source kept", bm.as_vec_() == b, || "source changed".into());
        m.hit(["quadrant 1", "quadrant 2", "quadrant 3", "quadrant 4"][q - 1]);
    }
}
fn ctor<T: El>(m: &mut Mon, r: &mut Rng) {
    let v: Vec<T> = (0..36).map(|k| if r.chance(0.3) { T::of_i(k as i64 + 1) } else { el(r, 0) }).collect();
    m.input(&format!("{} constructors", T::NAME), &fs(&v));
    let x = &v;
    let a = m22_new!(x[0], x[1]; x[2], x[3]);
    m.check("m22_new!", a.as_vec_() == x[..4], || format!("{:?}", a));
    let a = M22::new_from(x[0], x[1], x[2], x[3]);
    m.check("M22::new_from", a.as_vec_() == x[..4], || format!("{:?}", a));
    let a = m33_new!(x[0], x[1], x[2]; x[3], x[4], x[5]; x[6], x[7], x[8]);
    m.check("m33_new!", a.as_vec_() == x[..9], || format!("{:?}", a));
    let a = m44_new!(x[0], x[1], x[2], x[3]; x[4], x[5], x[6], x[7]; x[8], x[9], x[10], x[11]; x[12], x[13], x[14], x[15]);
    m.check("m44_new!", a.as_vec_() == x[..16], || format!("{:?}", a));
    let a = m55_new!(x[0], x[1], x[2], x[3], x[4]; x[5], x[6], x[7], x[8], x[9]; x[10], x[11], x[12], x[13], x[14];
                     x[15], x[16], x[17], x[18], x[19]; x[20], x[21], x[22], x[23], x[24]);
    m.check("m55_new!", a.as_vec_() == x[..25], || format!("{:?}", a));
    let a = m66_new!(x[0], x[1], x[2], x[3], x[4], x[5]; x[6], x[7], x[8], x[9], x[10], x[11];
                     x[12], x[13], x[14], x[15], x[16], x[17]; x[18], x[19], x[20], x[21], x[22], x[23];
                     x[24], x[25], x[26], x[27], x[28], x[29]; x[30], x[31], x[32], x[33], x[34], x[35]);
    m.check("m66_new!", a.as_vec_() == x[..36], || format!("{:?}", a));
    // the macros take each argument expression once, left to right
    let mut k = 0;
    let mut n = || {
        k += 1;
        v[(k - 1) % 36]
    };
    let a = m22_new!(n(), n(); n(), n());
    let b = m33_new!(n(), n(), n(); n(), n(), n(); n(), n(), n());
    let c = m44_new!(n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n(); n(), n(), n(), n());
    m.check("macro arguments", a.as_vec_() == x[..4] && b.as_vec_() == x[4..13] && c.as_vec_() == x[13..29], || format!("{:?} {:?} {:?}", a, b, c));
    let mut k = 0;
    let mut n = || {
        k += 1;
        v[(k - 1) % 36]
    };
    let a = m55_new!(n(), n(), n(), n(), n(); n(), n(), n(), n(), n(); n(), n(), n(), n(), n(); n(), n(), n(), n(), n(); n(), n(), n(), n(), n());
    m.check("m55_new! arguments", a.as_vec_() == x[..25], || format!("{:?}", a));
    let mut k = 0;
    let mut n = || {
        k += 1;
        v[(k - 1) % 36]
    };
    let a = m66_new!(n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n();
                     n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n(); n(), n(), n(), n(), n(), n());
    m.check("m66_new! arguments", a.as_vec_() == x[..36], || format!("{:?}", a));
    fn arr<T: Copy + Num, const N: usize>(x: &[T]) -> [[T; N]; N] {
        let mut o = [[T::zero(); N]; N];
        for i in 0..N {
            for j in 0..N {
                o[i][j] = x[i * N + j];
            }
        }
        o
    }
    m.check("From arrays", M22::from(arr::<T, 2>(x)).as_vec_() == x[..4] && M33::from(arr::<T, 3>(x)).as_vec_() == x[..9] && M44::from(arr::<T, 4>(x)).as_vec_() == x[..16] && M55::from(arr::<T, 5>(x)).as_vec_() == x[..25] && M66::from(arr::<T, 6>(x)).as_vec_() == x[..36], || "From<[[T;N];N]>".into());
    // mutable deref writes the same storage
    let mut b: M33<T> = Ma::mk(&x[..9]);
    let (i, j) = (r.below(3), r.below(3));
    (*b)[i][j] = x[35];
    let mut s = x[..9].to_vec();
    s[i * 3 + j] = x[35];
    m.check("deref_mut", b.as_vec_() == s, || format!("{:?}", b));
    use static_math::matrix2x2::{M22_IDENT, M22_ZEROS};
    m.check("constants", M22_IDENT == M22::identity() && M22_ZEROS == M22::zeros(), || "M22 constants".into());
    m.hit("constructors");
}
macro_rules! types {
    ($f:ident, $m:expr, $r:expr) => {
        match $r.below(7) {
            0 => $f::<i8>($m, $r),
            1 => $f::<u8>($m, $r),
            2 => $f::<i32>($m, $r),
            3 => $f::<u64>($m, $r),
            4 => $f::<i128>($m, $r),
            5 => $f::<f32>($m, $r),
            _ => $f::<f64>($m, $r),
        }
    };
}
fn main() {
    monitor::run("C06", "matrix with two different entries (usually all different, so every position is identifiable); distinct by entries, writes and element type", |p| {
        p.wl("layout", 20_000, 1_000_000, |m, r| match r.below(7) {
            0 => for_sizes!(layout, i8, m, r),
            1 => for_sizes!(layout, u8, m, r),
            2 => for_sizes!(layout, i32, m, r),
            3 => for_sizes!(layout, u64, m, r),
            4 => for_sizes!(layout, i128, m, r),
            5 => for_sizes!(layout, f32, m, r),
            _ => for_sizes!(layout, f64, m, r),
        });
        p.wl("transpose-trace", 20_000, 800_000, |m, r| if r.chance(0.5) { for_sizes!(float_views, f64, m, r) } else { for_sizes!(float_views, f32, m, r) });
        p.guided("guided transpose-trace", 4000, 133333, |m, r| if r.chance(0.7) { for_sizes!(float_views, W64, m, r) } else { for_sizes!(float_views, W32, m, r) });
        p.guided("guided layout", 3000, 150000, |m, r| if r.chance(0.7) { for_sizes!(layout, W64, m, r) } else { for_sizes!(layout, W32, m, r) });
        p.wl("submatrix", 10_000, 400_000, |m, r| types!(sub44, m, r));
        p.wl("quadrant", 10_000, 400_000, |m, r| types!(quadrants, m, r));
        p.wl("constructors", 10_000, 400_000, |m, r| types!(ctor, m, r));
        p.require(&["write through [i][j]", "write through [(i,j)]", "quadrant 1", "quadrant 2", "quadrant 3", "quadrant 4", "constructors"], 100);
        p.assume("the submatrices used inside the 5x5 and 6x6 determinants are private; their effect is observed through C02 and C03");
    })
}
