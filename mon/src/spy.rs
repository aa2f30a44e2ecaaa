//! A scalar that watches the code under test decide: it computes exactly as the float it wraps and
//! records every comparison the crate makes on it (place, how often so far, outcome, distance of the
//! two sides), every division and every root or arc function.  The guided workloads search for
//! inputs that bring compared values together and show new outcomes; the oracles judge each of
//! these inputs like any other.
use crate::adapt::{El, Fl};
use crate::dd::Dd;
use num::traits::FloatConst;
use num::{Float, Num, NumCast, One, Signed, ToPrimitive, Zero};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::HashMap;
use std::fmt;
use std::num::FpCategory;
use std::ops::*;
use std::panic::Location;

#[derive(Clone, Copy, Default)]
#[repr(transparent)]
pub struct Spy<F>(pub F);

/// what one comparison site was seen doing
#[derive(Clone, Default)]
pub struct Site {
    /// less, equal, greater, unordered
    pub seen: [u64; 4],
    /// smallest distance of the two sides while different
    pub closest: f64,
    /// comparisons in the current case
    now: u16,
    ours: bool,
}
impl Site {
    pub fn new() -> Site {
        Site { closest: f64::INFINITY, ..Default::default() }
    }
}
#[derive(Default)]
pub struct Log {
    on: bool,
    ids: HashMap<(usize, u32, u32, u8), usize>,
    pub names: Vec<(String, Site)>,
    touched: Vec<usize>,
    /// (site, occurrence) -> (closest binade, outcomes seen)
    best: HashMap<Key, (i32, u8)>,
    /// keys that improved in the current case, with the signed distance of their sides
    news: Vec<(Key, f64)>,
    /// the comparison the search is after, and how far apart its sides were in the current case
    aim: Option<Key>,
    aimed: Option<f64>,
}
/// comparison site and how manyeth comparison there in the case
pub type Key = (usize, u16);
thread_local! {
    static LOG: RefCell<Log> = RefCell::new(Log::default());
    static WILD: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// how many numbers that are not finite the generators (or oracles) made on this thread since the last call
pub fn wild() -> u64 {
    WILD.with(|n| n.replace(0))
}
const OCC: u16 = 32;

fn binade(d: f64) -> i32 {
    if d == 0.0 { -1200 } else { (d.to_bits() >> 52) as i32 - 1023 }
}
impl Log {
    fn site(&mut self, l: &'static Location<'static>, kind: u8) -> usize {
        let key = (l.file().as_ptr() as usize, l.line(), l.column(), kind);
        let n = self.names.len();
        let id = *self.ids.entry(key).or_insert(n);
        if id == n {
            let f = l.file();
            // the crate under test: not the harness, not num, not core
            let ours = !(f.starts_with("src/") || f.contains("/mon/src/") || f.contains("/registry/") || f.contains("/library/") || f.contains("/rustc/"));
            let b = f.rsplit('/').next().unwrap_or(f);
            let k = ["compare", "divide", "root/arc"][kind as usize];
            self.names.push((format!("{}:{}:{} {}", b, l.line(), l.column(), k), Site { ours, ..Site::new() }));
        }
        id
    }
    fn note(&mut self, l: &'static Location<'static>, kind: u8, o: Option<Ordering>, signed: f64) {
        let d = signed.abs();
        let id = self.site(l, kind);
        let s = &mut self.names[id].1;
        if !s.ours {
            return;
        }
        let k = match o {
            Some(Ordering::Less) => 0,
            Some(Ordering::Equal) => 1,
            Some(Ordering::Greater) => 2,
            None => 3,
        };
        s.seen[k] += 1;
        if d > 0.0 && d < s.closest {
            s.closest = d;
        }
        if s.now == 0 {
            self.touched.push(id);
        }
        let occ = s.now.min(OCC);
        s.now = s.now.saturating_add(1);
        if self.aim == Some((id, occ)) {
            self.aimed = Some(signed);
        }
        let b = if d.is_nan() { 2000 } else { binade(d) };
        let (b, bit) = if kind == 0 { (b, 1u8 << k) } else { (b.max(-60) / 4 * 4, 0) };
        let e = self.best.entry((id, occ)).or_insert((i32::MAX, 0));
        if b < e.0 || e.1 & bit != bit {
            e.0 = e.0.min(b);
            e.1 |= bit;
            self.news.push(((id, occ), signed));
        }
    }
}
/// start a guided search on this thread
pub fn open() {
    LOG.with(|l| *l.borrow_mut() = Log { on: true, ..Default::default() });
}
/// end it: the sites seen
pub fn close() -> Vec<(String, Site)> {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.on = false;
        std::mem::take(&mut l.names).into_iter().filter(|s| s.1.ours).collect()
    })
}
/// before a case: the comparison to watch in particular
pub fn aim(k: Option<Key>) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        l.aim = k;
        l.aimed = None;
    })
}
/// end of a case: which comparisons showed a new outcome or came closer than before, and how far
/// apart the sides of the one aimed at were
pub fn news() -> (Vec<(Key, f64)>, Option<f64>) {
    LOG.with(|l| {
        let mut l = l.borrow_mut();
        let t = std::mem::take(&mut l.touched);
        for i in t {
            l.names[i].1.now = 0;
        }
        (std::mem::take(&mut l.news), l.aimed)
    })
}
#[inline]
fn note(l: &'static Location<'static>, kind: u8, o: Option<Ordering>, d: f64) {
    LOG.with(|g| {
        // a comparison made while the log itself is in use is not the crate's
        if let Ok(mut g) = g.try_borrow_mut() {
            if g.on {
                g.note(l, kind, o, d)
            }
        }
    })
}
fn gap<F: Fl>(a: F, b: F) -> f64 {
    a.f() - b.f()
}

impl<F: Fl> PartialEq for Spy<F> {
    #[track_caller]
    fn eq(&self, o: &Self) -> bool {
        note(Location::caller(), 0, self.0.partial_cmp(&o.0), gap(self.0, o.0));
        self.0 == o.0
    }
}
impl<F: Fl> PartialOrd for Spy<F> {
    #[track_caller]
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        let c = self.0.partial_cmp(&o.0);
        note(Location::caller(), 0, c, gap(self.0, o.0));
        c
    }
    #[track_caller]
    fn lt(&self, o: &Self) -> bool {
        note(Location::caller(), 0, self.0.partial_cmp(&o.0), gap(self.0, o.0));
        self.0 < o.0
    }
    #[track_caller]
    fn le(&self, o: &Self) -> bool {
        note(Location::caller(), 0, self.0.partial_cmp(&o.0), gap(self.0, o.0));
        self.0 <= o.0
    }
    #[track_caller]
    fn gt(&self, o: &Self) -> bool {
        note(Location::caller(), 0, self.0.partial_cmp(&o.0), gap(self.0, o.0));
        self.0 > o.0
    }
    #[track_caller]
    fn ge(&self, o: &Self) -> bool {
        note(Location::caller(), 0, self.0.partial_cmp(&o.0), gap(self.0, o.0));
        self.0 >= o.0
    }
}
macro_rules! ops { ($($Tr:ident $f:ident $TA:ident $fa:ident;)*) => {$(
    impl<F: Fl> $Tr for Spy<F> { type Output = Self; #[inline] fn $f(self, o: Self) -> Self { Spy($Tr::$f(self.0, o.0)) } }
    impl<F: Fl> $TA for Spy<F> { #[inline] fn $fa(&mut self, o: Self) { self.0 = $Tr::$f(self.0, o.0) } }
)*} }
ops!(Add add AddAssign add_assign; Sub sub SubAssign sub_assign; Mul mul MulAssign mul_assign; Rem rem RemAssign rem_assign;);
impl<F: Fl> Div for Spy<F> {
    type Output = Self;
    #[track_caller]
    fn div(self, o: Self) -> Self {
        note(Location::caller(), 1, o.0.partial_cmp(&F::zero()), o.0.f());
        Spy(self.0 / o.0)
    }
}
impl<F: Fl> DivAssign for Spy<F> {
    #[track_caller]
    fn div_assign(&mut self, o: Self) {
        note(Location::caller(), 1, o.0.partial_cmp(&F::zero()), o.0.f());
        self.0 = self.0 / o.0
    }
}
impl<F: Fl> Neg for Spy<F> {
    type Output = Self;
    fn neg(self) -> Self {
        Spy(-self.0)
    }
}
impl<F: Fl> Zero for Spy<F> {
    fn zero() -> Self {
        Spy(F::zero())
    }
    #[track_caller]
    fn is_zero(&self) -> bool {
        note(Location::caller(), 0, self.0.partial_cmp(&F::zero()), self.0.f());
        Zero::is_zero(&self.0)
    }
}
impl<F: Fl> One for Spy<F> {
    fn one() -> Self {
        Spy(F::one())
    }
}
impl<F: Fl> Num for Spy<F> {
    type FromStrRadixErr = F::FromStrRadixErr;
    fn from_str_radix(s: &str, r: u32) -> Result<Self, Self::FromStrRadixErr> {
        F::from_str_radix(s, r).map(Spy)
    }
}
impl<F: Fl> ToPrimitive for Spy<F> {
    fn to_i64(&self) -> Option<i64> {
        self.0.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.0.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        self.0.to_f64()
    }
    fn to_f32(&self) -> Option<f32> {
        self.0.to_f32()
    }
}
impl<F: Fl> NumCast for Spy<F> {
    fn from<X: ToPrimitive>(x: X) -> Option<Self> {
        <F as NumCast>::from(x).map(Spy)
    }
}
impl<F: Fl> Signed for Spy<F> {
    fn abs(&self) -> Self {
        Spy(Signed::abs(&self.0))
    }
    fn abs_sub(&self, o: &Self) -> Self {
        Spy(Signed::abs_sub(&self.0, &o.0))
    }
    fn signum(&self) -> Self {
        Spy(Signed::signum(&self.0))
    }
    #[track_caller]
    fn is_positive(&self) -> bool {
        note(Location::caller(), 0, self.0.partial_cmp(&F::zero()), self.0.f());
        Signed::is_positive(&self.0)
    }
    #[track_caller]
    fn is_negative(&self) -> bool {
        note(Location::caller(), 0, self.0.partial_cmp(&F::zero()), self.0.f());
        Signed::is_negative(&self.0)
    }
}
impl<F: Fl> std::iter::Sum for Spy<F> {
    fn sum<I: Iterator<Item = Self>>(it: I) -> Self {
        Spy(it.map(|x| x.0).sum())
    }
}
impl<F: Fl> fmt::Display for Spy<F> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Display::fmt(&self.0, f)
    }
}
impl<F: Fl> fmt::Debug for Spy<F> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
macro_rules! consts { ($($c:ident)*) => {
    impl<F: Fl> FloatConst for Spy<F> { $(fn $c() -> Self { Spy(F::$c()) })* }
} }
consts!(E FRAC_1_PI FRAC_1_SQRT_2 FRAC_2_PI FRAC_2_SQRT_PI FRAC_PI_2 FRAC_PI_3 FRAC_PI_4 FRAC_PI_6 FRAC_PI_8 LN_10 LN_2 LOG10_E LOG2_E PI SQRT_2);
macro_rules! float { (
    consts $($c:ident)*; bools $($b:ident)*; un $($u:ident)*; edge $($e:ident $at:expr;)*; bin $($n:ident)*
) => {
    impl<F: Fl> Float for Spy<F> {
        $(fn $c() -> Self { Spy(<F as Float>::$c()) })*
        $(fn $b(self) -> bool { Float::$b(self.0) })*
        $(fn $u(self) -> Self { Spy(Float::$u(self.0)) })*
        $(#[track_caller] fn $e(self) -> Self {
            let x = self.0.f();
            note(Location::caller(), 2, x.partial_cmp(&$at), if x < 0.0 { -x - $at } else { x - $at });
            Spy(Float::$e(self.0))
        })*
        $(fn $n(self, o: Self) -> Self { Spy(Float::$n(self.0, o.0)) })*
        #[track_caller]
        fn max(self, o: Self) -> Self {
            note(Location::caller(), 0, self.0.partial_cmp(&o.0), gap(self.0, o.0));
            Spy(Float::max(self.0, o.0))
        }
        #[track_caller]
        fn min(self, o: Self) -> Self {
            note(Location::caller(), 0, self.0.partial_cmp(&o.0), gap(self.0, o.0));
            Spy(Float::min(self.0, o.0))
        }
        #[track_caller]
        fn signum(self) -> Self {
            note(Location::caller(), 0, self.0.partial_cmp(&F::zero()), self.0.f());
            Spy(Float::signum(self.0))
        }
        #[track_caller]
        fn is_sign_positive(self) -> bool {
            note(Location::caller(), 0, self.0.partial_cmp(&F::zero()), self.0.f());
            Float::is_sign_positive(self.0)
        }
        #[track_caller]
        fn is_sign_negative(self) -> bool {
            note(Location::caller(), 0, self.0.partial_cmp(&F::zero()), self.0.f());
            Float::is_sign_negative(self.0)
        }
        fn classify(self) -> FpCategory { self.0.classify() }
        fn mul_add(self, a: Self, b: Self) -> Self { Spy(Float::mul_add(self.0, a.0, b.0)) }
        fn powi(self, n: i32) -> Self { Spy(Float::powi(self.0, n)) }
        fn sin_cos(self) -> (Self, Self) { let (s, c) = Float::sin_cos(self.0); (Spy(s), Spy(c)) }
        fn integer_decode(self) -> (u64, i16, i8) { self.0.integer_decode() }
        fn epsilon() -> Self { Spy(<F as Float>::epsilon()) }
        fn to_degrees(self) -> Self { Spy(Float::to_degrees(self.0)) }
        fn to_radians(self) -> Self { Spy(Float::to_radians(self.0)) }
        fn copysign(self, s: Self) -> Self { Spy(Float::copysign(self.0, s.0)) }
    }
} }
float!(
    consts nan infinity neg_infinity neg_zero min_value min_positive_value max_value;
    bools is_nan is_infinite is_finite is_normal;
    un floor ceil round trunc fract abs exp exp2 cbrt sin cos tan atan exp_m1 sinh cosh tanh asinh acosh atanh;
    edge sqrt 0.0; recip 0.0; ln 0.0; log2 0.0; log10 0.0; ln_1p 0.0; asin 1.0; acos 1.0;;
    bin powf log abs_sub hypot atan2
);
impl<F: Fl> El for Spy<F> {
    const NAME: &'static str = if F::IS32 { "watched f32" } else { "watched f64" };
    const FLOAT: bool = true;
    const SIGNED: bool = true;
    const U: f64 = F::U;
    const TINY: f64 = F::TINY;
    const SMALL: i64 = F::SMALL;
    fn dd(self) -> Dd {
        self.0.dd()
    }
    fn i(self) -> i128 {
        self.0.i()
    }
    fn of_i(v: i64) -> Self {
        Spy(F::of_i(v))
    }
}
impl<F: Fl> Fl for Spy<F> {
    const EPS: f64 = F::EPS;
    const MINP: f64 = F::MINP;
    const IS32: bool = F::IS32;
    fn of(x: f64) -> Self {
        let y = F::of(x);
        if !y.f().is_finite() {
            WILD.with(|n| n.set(n.get() + 1));
        }
        Spy(y)
    }
    fn f(self) -> f64 {
        self.0.f()
    }
}
pub type W64 = Spy<f64>;
pub type W32 = Spy<f32>;
