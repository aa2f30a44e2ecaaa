//! Structured workload generators.
use crate::refm::Rm;
use crate::rng::Rng;

/// a positive number at or near one of the constants of the dictionary
pub fn near(r: &mut Rng) -> f64 {
    let c = crate::dict::pick(r.unit(), r.unit());
    let x = match r.below(6) {
        0 | 1 => c,
        2 => c * (1.0 + r.sign() * r.logmag(-16.0, -1.0)),
        3 => c * r.logmag(-1.0, 1.0),
        4 => (1.0 - c).abs(),
        _ => c * r.range(0.8, 1.2),
    };
    if x > 0.0 && x < 1e-14 { 1e-14 } else { x.min(1e6) }
}
/// a parameter of [a, b] at or near one of the constants (or their distance from an end), any other otherwise
pub fn near_in(r: &mut Rng, a: f64, b: f64) -> f64 {
    let x = near(r) * r.sign();
    let x = match r.below(4) {
        0 => a + x.abs(),
        1 => b - x.abs(),
        _ => x,
    };
    if x >= a && x <= b { x } else { r.range(a, b) }
}
/// an angle at, or with a sine, cosine or distance from a (half) straight angle at, one of the constants
pub fn near_angle(r: &mut Rng) -> f64 {
    use std::f64::consts::*;
    let x = near(r).min(100.0);
    let u = x.min(1.0);
    r.sign()
        * match r.below(8) {
            0 | 1 => x,
            2 => u.acos(),
            3 => 2.0 * u.acos(),
            4 => u.asin(),
            5 => PI - x,
            6 => FRAC_PI_2 - x,
            _ => x.to_radians(),
        }
}
/// a float "interesting" scalar of moderate size
pub fn scalar(r: &mut Rng) -> f64 {
    match r.below(11) {
        10 => r.sign() * near(r),
        0 => 0.0,
        1 => r.int(-9, 9) as f64,
        2 => r.sign(),
        3 => r.sign() * r.logmag(-6.0, 4.0),
        4 => r.int(-64, 64) as f64 / 8.0,
        5 => -0.0,
        _ => r.range(-3.0, 3.0),
    }
}

pub const MAT_KINDS: usize = 17;
/// names of the matrix kinds, used as event classes
pub const MAT_NAMES: [&str; MAT_KINDS] = [
    "dense-uniform", "dense-int", "sparse", "scaled-permutation", "upper-triangular", "lower-triangular", "rank-deficient",
    "near-singular", "graded-scaling", "symmetric", "block/zero-corner", "orthogonal-like", "identity-perturbed", "mixed-scalars",
    "near-constants", "skew-symmetric", "structured",
];

/// (kind, entries).  Entries are exactly representable in f32 when `f32ok`.
pub fn matrix(r: &mut Rng, n: usize, kind: usize, f32ok: bool) -> Rm<f64> {
    let mut m: Rm<f64> = Rm::zeros(n, n);
    let dense = |r: &mut Rng| {
        let mut m: Rm<f64> = Rm::zeros(n, n);
        for x in m.a.iter_mut() {
            *x = r.range(-2.0, 2.0)
        }
        m
    };
    match kind {
        0 => m = dense(r),
        1 => {
            let k = *r.pick(&[1i64, 2, 3, 9, 50]);
            for x in m.a.iter_mut() {
                *x = r.int(-k, k) as f64
            }
        }
        2 => {
            let p = r.range(0.2, 0.7);
            for x in m.a.iter_mut() {
                if r.chance(p) {
                    *x = if r.chance(0.5) { r.int(-5, 5) as f64 } else { r.range(-2.0, 2.0) }
                }
            }
        }
        3 => {
            let mut p: Vec<usize> = (0..n).collect();
            r.shuffle(&mut p);
            for i in 0..n {
                m.set(i, p[i], r.sign() * *r.pick(&[1.0, 0.5, 2.0, 3.0, 0.25]));
            }
        }
        4 | 5 => {
            for i in 0..n {
                for j in 0..n {
                    if (kind == 4 && i <= j) || (kind == 5 && i >= j) {
                        m.set(i, j, if i == j { r.sign() * r.range(0.5, 2.0) } else { r.range(-2.0, 2.0) });
                    }
                }
            }
        }
        6 => {
            // integer matrix with one row or column a combination of others (exactly singular)
            for x in m.a.iter_mut() {
                *x = r.int(-4, 4) as f64
            }
            let t = r.below(n);
            let mut co = vec![0.0; n];
            for (k, c) in co.iter_mut().enumerate() {
                if k != t {
                    *c = r.int(-2, 2) as f64;
                }
            }
            let byrow = r.chance(0.5);
            for j in 0..n {
                let mut s = 0.0;
                for k in 0..n {
                    s += co[k] * if byrow { m.g(k, j) } else { m.g(j, k) };
                }
                if byrow { m.set(t, j, s) } else { m.set(j, t, s) }
            }
        }
        7 => {
            m = dense(r);
            let t = r.below(n);
            let u = (t + 1 + r.below(n - 1)) % n;
            let d = r.logmag(if f32ok { -2.0 } else { -5.0 }, -0.5);
            for j in 0..n {
                m.set(t, j, m.g(u, j) * 1.5 + d * r.range(-1.0, 1.0));
            }
        }
        8 => {
            m = dense(r);
            let lim = if f32ok { 6 } else { 20 };
            let mut e: Vec<i64> = (0..2 * n).map(|_| r.int(-lim, lim)).collect();
            // keep the determinant's scale near one
            let s: i64 = e.iter().sum();
            for k in 0..2 * n {
                e[k] -= s / (2 * n as i64);
            }
            for i in 0..n {
                for j in 0..n {
                    m.set(i, j, m.g(i, j) * 2f64.powi((e[i] + e[n + j]) as i32));
                }
            }
        }
        9 => {
            m = dense(r);
            for i in 0..n {
                for j in 0..i {
                    let v = m.g(j, i);
                    m.set(i, j, v);
                }
            }
        }
        10 => {
            m = dense(r);
            match r.below(4) {
                0 => m.set(0, 0, 0.0),
                1 => {
                    for k in 0..n {
                        m.set(k, k, 0.0)
                    }
                }
                2 => {
                    let k = 1 + r.below(n - 1);
                    for i in 0..k {
                        for j in k..n {
                            m.set(i, j, 0.0)
                        }
                    }
                }
                _ => {
                    let i = r.below(n);
                    let keep = r.below(n);
                    for j in 0..n {
                        if j != keep {
                            m.set(i, j, 0.0)
                        }
                    }
                }
            }
        }
        11 => {
            m = Rm::ident(n);
            for _ in 0..2 * n {
                let i = r.below(n);
                let j = (i + 1 + r.below(n - 1)) % n;
                let (s, c) = r.range(-3.2, 3.2).sin_cos();
                for k in 0..n {
                    let (a, b) = (m.g(i, k), m.g(j, k));
                    m.set(i, k, c * a - s * b);
                    m.set(j, k, s * a + c * b);
                }
            }
            if r.chance(0.5) {
                let i = r.below(n);
                for k in 0..n {
                    let v = -m.g(i, k);
                    m.set(i, k, v);
                }
            }
        }
        12 => {
            let d = r.logmag(-4.0, -0.5);
            m = Rm::ident(n);
            for x in m.a.iter_mut() {
                *x += d * r.range(-1.0, 1.0)
            }
        }
        13 => {
            for x in m.a.iter_mut() {
                *x = scalar(r)
            }
        }
        14 => {
            // an entry, the diagonal, the trace or a norm at one of the constants
            m = dense(r);
            let c = near(r).clamp(1e-9, 1e4);
            match r.below(6) {
                0 => m.set(r.below(n), r.below(n), r.sign() * c),
                1 => {
                    for k in 0..n {
                        m.set(k, k, c)
                    }
                }
                2 => {
                    let t: f64 = (1..n).map(|k| m.g(k, k)).sum();
                    m.set(0, 0, c - t)
                }
                3 => {
                    let s: f64 = m.a.iter().map(|x| x * x).sum::<f64>().sqrt();
                    m = m.scale(c / s)
                }
                4 => {
                    let k = r.below(n);
                    let s: f64 = (0..n).map(|i| m.g(i, k) * m.g(i, k)).sum::<f64>().sqrt();
                    for i in 0..n {
                        m.set(i, k, m.g(i, k) * c / s)
                    }
                }
                _ => {
                    let k = r.below(n);
                    let s: f64 = (0..n).map(|i| m.g(k, i).abs()).sum();
                    for i in 0..n {
                        m.set(k, i, m.g(k, i) * c / s)
                    }
                }
            }
        }
        15 => {
            // skew-symmetric, plain or shifted by a multiple of the identity
            let int = r.chance(0.3);
            let d = match r.below(3) { 0 => 0.0, 1 => r.sign(), _ => r.range(-2.0, 2.0) };
            for i in 0..n {
                m.set(i, i, d);
                for j in 0..i {
                    let v = if int { r.int(-6, 6) as f64 } else { r.range(-2.0, 2.0) };
                    m.set(i, j, v);
                    m.set(j, i, -v);
                }
            }
        }
        _ => {
            // entries that repeat along diagonals, antidiagonals, rows or columns
            let int = r.chance(0.5);
            let mut v: Vec<f64> = (0..n * n + 1).map(|_| if int { r.int(-5, 5) as f64 } else { r.range(-2.0, 2.0) }).collect();
            let form = r.below(8);
            if form == 5 {
                for x in v.iter_mut() { if *x == 0.0 { *x = 1.0 } }
            }
            for i in 0..n {
                for j in 0..n {
                    m.set(i, j, match form {
                        0 => v[n + i - j],               // Toeplitz
                        1 => v[(n + i - j) % n],         // circulant
                        2 => v[i + j],                   // Hankel
                        3 => v[(i + j) % n],             // anticirculant
                        4 => v[i.min(j)],                // nested corners
                        5 => v[i] * v[n + j],            // outer product (rank one)
                        6 => if i == j { v[0] } else { v[1] }, // one value on, one off the diagonal
                        _ => v[(i * n + j).min(n * n - 1 - (i * n + j))], // centrosymmetric
                    });
                }
            }
        }
    }
    if f32ok {
        for x in m.a.iter_mut() {
            *x = *x as f32 as f64;
        }
    }
    m
}

pub fn axis(r: &mut Rng) -> [f64; 3] {
    let mut v = match r.below(8) {
        0 => [r.sign(), 0.0, 0.0],
        1 => [0.0, r.sign(), 0.0],
        2 => [0.0, 0.0, r.sign()],
        3 => [0.0, r.normal(), r.normal()],
        4 => {
            let z = r.below(3);
            let mut a = [r.normal(), r.normal(), r.normal()];
            a[z] = 0.0;
            a
        }
        5 => [r.sign(), r.sign(), r.sign()],
        6 => {
            // one dominant component
            let z = r.below(3);
            let t = r.logmag(-9.0, -1.0);
            let mut a = [t * r.normal(), t * r.normal(), t * r.normal()];
            a[z] = r.sign();
            a
        }
        _ => [r.normal(), r.normal(), r.normal()],
    };
    let n = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
    if n == 0.0 {
        return [1.0, 0.0, 0.0];
    }
    for x in v.iter_mut() {
        *x /= n
    }
    v
}

/// angles with emphasis on the singular values
pub fn angle(r: &mut Rng) -> f64 {
    use std::f64::consts::*;
    match r.below(14) {
        0 => 0.0,
        13 => near_angle(r),
        12 => r.sign() * r.logmag(0.0, 4.0),
        1 => r.sign() * PI,
        2 => r.sign() * FRAC_PI_2,
        3 => r.sign() * r.logmag(-12.0, -2.0),
        4 => r.sign() * (PI - r.logmag(-12.0, -2.0)),
        5 => r.sign() * (FRAC_PI_2 - r.sign() * r.logmag(-12.0, -2.0)),
        6 => r.range(-4.0 * PI, 4.0 * PI),
        7 => r.int(-8, 8) as f64 * FRAC_PI_4,
        _ => r.range(-PI, PI),
    }
}

pub fn vec3(r: &mut Rng) -> [f64; 3] {
    match r.below(7) {
        6 => {
            if r.chance(0.5) {
                let (a, s) = (axis(r), near(r));
                [s * a[0], s * a[1], s * a[2]]
            } else {
                let mut v = [r.range(-5.0, 5.0), r.range(-5.0, 5.0), r.range(-5.0, 5.0)];
                v[r.below(3)] = r.sign() * near(r);
                v
            }
        }
        0 => [0.0, 0.0, 0.0],
        1 => {
            let mut v = [0.0; 3];
            v[r.below(3)] = r.range(-5.0, 5.0);
            v
        }
        2 => [r.int(-9, 9) as f64, r.int(-9, 9) as f64, r.int(-9, 9) as f64],
        3 => {
            let s = if r.chance(0.6) { r.logmag(-4.0, 3.0) } else if r.chance(0.6) { r.logmag(-9.0, 6.0) } else { r.logmag(-14.0, 12.0) };
            [s * r.normal(), s * r.normal(), s * r.normal()]
        }
        _ => [r.range(-5.0, 5.0), r.range(-5.0, 5.0), r.range(-5.0, 5.0)],
    }
}

/// unit quaternions (to f64 rounding) with the singular families over-represented
pub fn unitq(r: &mut Rng) -> [f64; 4] {
    match r.below(11) {
        10 => {
            // one component, or the sine or cosine of the angle, at one of the constants
            if r.chance(0.4) {
                return crate::qref::qaa(near_angle(r), &axis(r));
            }
            let c = near(r).min(1.0);
            let (i, a, s) = (if r.chance(0.5) { 0 } else { r.below(4) }, axis(r), (1.0 - c * c).sqrt());
            let mut q = [s * a[0], s * a[1], s * a[2], s * a[0]];
            for k in 0..3 {
                q[(i + 1 + k) % 4] = s * a[k];
            }
            q[i] = r.sign() * c;
            crate::qref::qunit(&q)
        }
        0 => {
            let mut q = [0.0; 4];
            q[r.below(4)] = r.sign();
            q
        }
        1 => crate::qref::qunit(&[r.sign(), r.sign(), r.sign(), r.sign()]),
        2 => {
            // half turns: real part zero or tiny
            let a = axis(r);
            let w = if r.chance(0.5) { 0.0 } else { r.sign() * r.logmag(-17.0, -2.0) };
            crate::qref::qunit(&[w, a[0], a[1], a[2]])
        }
        3 => {
            // close to the identity (either sign)
            let a = axis(r);
            let s = r.logmag(-17.0, -1.0);
            crate::qref::qunit(&[r.sign(), s * a[0], s * a[1], s * a[2]])
        }
        4 | 5 => crate::qref::qaa(angle(r), &axis(r)),
        6 => {
            // two components only
            let (i, j) = (r.below(4), r.below(4));
            let mut q = [0.0; 4];
            q[i] = r.normal();
            q[j] += r.normal();
            if q.iter().all(|x| *x == 0.0) {
                q[0] = 1.0
            }
            crate::qref::qunit(&q)
        }
        _ => crate::qref::qunit(&[r.normal(), r.normal(), r.normal(), r.normal()]),
    }
}
/// general quaternions of norm 10^[-lim, lim]
pub fn quat(r: &mut Rng, lim: f64) -> [f64; 4] {
    quat_wide(r, lim, lim)
}
/// a part of the quaternions scaled to norms up to 10^wide
pub fn quat_wide(r: &mut Rng, lim: f64, wide: f64) -> [f64; 4] {
    match r.below(10) {
        9 => {
            // the norm, or that of the vector part, at one of the constants
            let s = near(r).clamp(10f64.powf(-lim), 10f64.powf(lim));
            let q = unitq(r);
            if r.chance(0.6) {
                [s * q[0], s * q[1], s * q[2], s * q[3]]
            } else {
                let a = axis(r);
                [r.range(-3.0, 3.0), s * a[0], s * a[1], s * a[2]]
            }
        }
        0 => [r.sign() * r.range(0.1, 4.0), 0.0, 0.0, 0.0],
        1 => {
            let v = axis(r);
            let s = r.range(0.1, 4.0);
            [0.0, s * v[0], s * v[1], s * v[2]]
        }
        2 => unitq(r),
        3 => [r.int(-5, 5) as f64, r.int(-5, 5) as f64, r.int(-5, 5) as f64, r.int(-5, 5) as f64],
        4 => {
            let s = if r.chance(0.8) { r.logmag(-lim, lim) } else { r.logmag(-wide, wide) };
            let q = unitq(r);
            [s * q[0], s * q[1], s * q[2], s * q[3]]
        }
        5 => {
            let mut q = [0.0; 4];
            for x in q.iter_mut() {
                *x = scalar(r)
            }
            q
        }
        _ => [r.range(-3.0, 3.0), r.range(-3.0, 3.0), r.range(-3.0, 3.0), r.range(-3.0, 3.0)],
    }
}
