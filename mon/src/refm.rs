//! Dense reference matrices over an arbitrary scalar (i128 exact, Dd, f64).
use crate::dd::Dd;
use std::ops::*;

pub trait Rs: Copy + Add<Output = Self> + Sub<Output = Self> + Mul<Output = Self> + Neg<Output = Self> {
    const Z: Self;
    const O: Self;
    fn mag(self) -> f64;
}
impl Rs for i128 {
    const Z: i128 = 0;
    const O: i128 = 1;
    fn mag(self) -> f64 {
        (self as f64).abs()
    }
}
impl Rs for f64 {
    const Z: f64 = 0.0;
    const O: f64 = 1.0;
    fn mag(self) -> f64 {
        self.abs()
    }
}
impl Rs for Dd {
    const Z: Dd = Dd::ZERO;
    const O: Dd = Dd::ONE;
    fn mag(self) -> f64 {
        self.f().abs()
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Rm<S> {
    pub r: usize,
    pub c: usize,
    pub a: Vec<S>,
}

impl<S: Rs> Rm<S> {
    pub fn zeros(r: usize, c: usize) -> Self {
        Rm { r, c, a: vec![S::Z; r * c] }
    }
    pub fn ident(n: usize) -> Self {
        let mut m = Self::zeros(n, n);
        for i in 0..n {
            m.set(i, i, S::O);
        }
        m
    }
    pub fn from_fn(r: usize, c: usize, f: impl Fn(usize, usize) -> S) -> Self {
        let mut a = Vec::with_capacity(r * c);
        for i in 0..r {
            for j in 0..c {
                a.push(f(i, j));
            }
        }
        Rm { r, c, a }
    }
    #[inline]
    pub fn g(&self, i: usize, j: usize) -> S {
        self.a[i * self.c + j]
    }
    #[inline]
    pub fn set(&mut self, i: usize, j: usize, v: S) {
        self.a[i * self.c + j] = v
    }
    pub fn mul(&self, o: &Self) -> Self {
        assert_eq!(self.c, o.r);
        Self::from_fn(self.r, o.c, |i, j| {
            let mut s = S::Z;
            for k in 0..self.c {
                s = s + self.g(i, k) * o.g(k, j);
            }
            s
        })
    }
    pub fn add(&self, o: &Self) -> Self {
        Self::from_fn(self.r, self.c, |i, j| self.g(i, j) + o.g(i, j))
    }
    pub fn sub(&self, o: &Self) -> Self {
        Self::from_fn(self.r, self.c, |i, j| self.g(i, j) - o.g(i, j))
    }
    pub fn scale(&self, s: S) -> Self {
        Self::from_fn(self.r, self.c, |i, j| self.g(i, j) * s)
    }
    pub fn t(&self) -> Self {
        Self::from_fn(self.c, self.r, |i, j| self.g(j, i))
    }
    pub fn minor(&self, ri: usize, cj: usize) -> Self {
        let n = self.r;
        let mut a = Vec::with_capacity((n - 1) * (n - 1));
        for i in 0..n {
            for j in 0..n {
                if i != ri && j != cj {
                    a.push(self.g(i, j));
                }
            }
        }
        Rm { r: n - 1, c: n - 1, a }
    }
    /// determinant by dynamic programming over column subsets (no division)
    pub fn det(&self) -> S {
        self.subset_dp(true)
    }
    fn subset_dp(&self, signed: bool) -> S {
        let n = self.r;
        let full = 1usize << n;
        let mut d = vec![S::Z; full];
        d[0] = S::O;
        for m in 1..full {
            let i = m.count_ones() as usize - 1; // row i, expanded as the last row of the block
            let mut s = S::Z;
            for j in 0..n {
                if m >> j & 1 == 1 {
                    let t = self.g(i, j) * d[m & !(1 << j)];
                    let above = (m >> (j + 1)).count_ones();
                    s = if signed && above % 2 == 1 { s - t } else { s + t };
                }
            }
            d[m] = s;
        }
        d[full - 1]
    }
    /// permanent of |A| (size of the terms in the determinant)
    pub fn perm_abs(&self) -> f64 {
        if self.r == 0 {
            return 1.0;
        }
        Rm::<f64> { r: self.r, c: self.c, a: self.a.iter().map(|x| x.mag()).collect() }.subset_dp(false)
    }
    /// adjugate (transposed cofactors)
    pub fn adj(&self) -> Self {
        let n = self.r;
        Self::from_fn(n, n, |i, j| {
            let d = if n == 1 { S::O } else { self.minor(j, i).det() };
            if (i + j) % 2 == 0 { d } else { -d }
        })
    }
    pub fn maxabs(&self) -> f64 {
        self.a.iter().fold(0.0, |m, x| x.mag().max(m))
    }
    pub fn fro(&self) -> f64 {
        self.a.iter().map(|x| x.mag() * x.mag()).sum::<f64>().sqrt()
    }
    pub fn absf(&self) -> Rm<f64> {
        Rm { r: self.r, c: self.c, a: self.a.iter().map(|x| x.mag()).collect() }
    }
}
impl Rm<f64> {
    pub fn dd(&self) -> Rm<Dd> {
        Rm { r: self.r, c: self.c, a: self.a.iter().map(|&x| Dd::new(x)).collect() }
    }
}
impl Rm<Dd> {
    pub fn f(&self) -> Rm<f64> {
        Rm { r: self.r, c: self.c, a: self.a.iter().map(|&x| x.f()).collect() }
    }
}

#[cfg(test)]
mod t {
    use super::*;
    // independent check of the subset DP against the permutation sum
    fn leib(m: &Rm<i128>) -> i128 {
        fn rec(m: &Rm<i128>, i: usize, used: &mut Vec<usize>) -> i128 {
            if i == m.r {
                let mut inv = 0;
                for a in 0..used.len() {
                    for b in a + 1..used.len() {
                        if used[a] > used[b] {
                            inv += 1
                        }
                    }
                }
                let p: i128 = (0..m.r).map(|k| m.g(k, used[k])).product();
                return if inv % 2 == 0 { p } else { -p };
            }
            let mut s = 0;
            for j in 0..m.c {
                if !used.contains(&j) {
                    used.push(j);
                    s += rec(m, i + 1, used);
                    used.pop();
                }
            }
            s
        }
        rec(m, 0, &mut vec![])
    }
    #[test]
    fn det_matches_leibniz() {
        let mut r = crate::rng::Rng::new(1, 2, 3);
        for n in 1..=6 {
            for _ in 0..50 {
                let mut v = vec![];
                for _ in 0..n * n {
                    v.push(r.int(-9, 9) as i128);
                }
                let m = Rm { r: n, c: n, a: v };
                assert_eq!(m.det(), leib(&m));
                let p = m.mul(&m.adj());
                for i in 0..n {
                    for j in 0..n {
                        assert_eq!(p.g(i, j), if i == j { m.det() } else { 0 });
                    }
                }
            }
        }
    }
}
