//! Double-double arithmetic (about 106 bits), the high precision shadow scalar.
use std::ops::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Dd {
    pub hi: f64,
    pub lo: f64,
}

fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
fn quick(a: f64, b: f64) -> Dd {
    let s = a + b;
    Dd { hi: s, lo: b - (s - a) }
}

impl Dd {
    pub const ZERO: Dd = Dd { hi: 0.0, lo: 0.0 };
    pub const ONE: Dd = Dd { hi: 1.0, lo: 0.0 };
    pub fn new(x: f64) -> Dd {
        Dd { hi: x, lo: 0.0 }
    }
    pub fn f(self) -> f64 {
        self.hi + self.lo
    }
    pub fn abs(self) -> Dd {
        if self.hi < 0.0 || (self.hi == 0.0 && self.lo < 0.0) { -self } else { self }
    }
    pub fn sqrt(self) -> Dd {
        if self.hi <= 0.0 {
            return Dd::ZERO;
        }
        let x = self.hi.sqrt();
        let ax = Dd::new(x);
        let r = (self - ax * ax).f();
        quick(x, r / (2.0 * x))
    }
    /// exact for |v| < 2^105
    pub fn from_i128(v: i128) -> Dd {
        let hi = v as f64;
        let lo = (v - hi as i128) as f64;
        quick(hi, lo)
    }
}
impl From<f64> for Dd {
    fn from(x: f64) -> Dd {
        Dd::new(x)
    }
}
impl Neg for Dd {
    type Output = Dd;
    fn neg(self) -> Dd {
        Dd { hi: -self.hi, lo: -self.lo }
    }
}
impl Add for Dd {
    type Output = Dd;
    fn add(self, o: Dd) -> Dd {
        let (s, e) = two_sum(self.hi, o.hi);
        let (t, f) = two_sum(self.lo, o.lo);
        let a = quick(s, e + t);
        quick(a.hi, a.lo + f)
    }
}
impl Sub for Dd {
    type Output = Dd;
    fn sub(self, o: Dd) -> Dd {
        self + (-o)
    }
}
impl Mul for Dd {
    type Output = Dd;
    fn mul(self, o: Dd) -> Dd {
        let p = self.hi * o.hi;
        let e = self.hi.mul_add(o.hi, -p);
        quick(p, e + (self.hi * o.lo + self.lo * o.hi))
    }
}
impl Div for Dd {
    type Output = Dd;
    fn div(self, o: Dd) -> Dd {
        let q1 = self.hi / o.hi;
        let r = self - o * Dd::new(q1);
        let q2 = r.hi / o.hi;
        let r2 = r - o * Dd::new(q2);
        let q3 = r2.hi / o.hi;
        quick(q1, q2) + Dd::new(q3)
    }
}
impl AddAssign for Dd {
    fn add_assign(&mut self, o: Dd) {
        *self = *self + o
    }
}
impl SubAssign for Dd {
    fn sub_assign(&mut self, o: Dd) {
        *self = *self - o
    }
}

#[cfg(test)]
mod t {
    use super::*;
    #[test]
    fn basic() {
        let a = Dd::new(1.0) / Dd::new(3.0);
        let b = a * Dd::new(3.0) - Dd::ONE;
        assert!(b.f().abs() < 1e-31);
        let s = Dd::new(2.0).sqrt();
        assert!((s * s - Dd::new(2.0)).f().abs() < 1e-30);
        let x = Dd::from_i128(123456789012345678901234567);
        assert_eq!((x - Dd::from_i128(123456789012345678901234566)).f(), 1.0);
    }
}
