//! Exact rationals over i128. Overflow sets a thread-local flag; whoever
//! consumes a normal form must check `overflowed()` (an overflow is never
//! silently turned into a verdict).
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt;

thread_local! { static OVF: Cell<bool> = Cell::new(false); }
pub fn clear_overflow() { OVF.with(|o| o.set(false)); }
pub fn overflowed() -> bool { OVF.with(|o| o.get()) }
fn ovf() { OVF.with(|o| o.set(true)); }

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Rat { pub n: i128, pub d: i128 }

fn gcd(a: i128, b: i128) -> i128 {
    let (mut a, mut b) = (a.unsigned_abs(), b.unsigned_abs());
    if a <= u64::MAX as u128 && b <= u64::MAX as u128 {
        let (mut x, mut y) = (a as u64, b as u64);
        while y != 0 { let t = x % y; x = y; y = t; }
        return x as i128;
    }
    while b != 0 { let t = a % b; a = b; b = t; }
    a as i128
}
pub fn igcd(a: i128, b: i128) -> i128 { gcd(a, b) }

impl Rat {
    pub const ZERO: Rat = Rat { n: 0, d: 1 };
    pub const ONE: Rat = Rat { n: 1, d: 1 };
    pub fn int(n: i128) -> Rat { Rat { n, d: 1 } }
    pub fn new(n: i128, d: i128) -> Rat {
        if d == 0 { ovf(); return Rat::ZERO; }
        let g = gcd(n, d);
        if g == 0 { return Rat::ZERO; }
        let s = if d < 0 { -1 } else { 1 };
        Rat { n: s * n / g, d: s * d / g }
    }
    pub fn is_zero(&self) -> bool { self.n == 0 }
    pub fn sign(&self) -> i32 { self.n.signum() as i32 }
    pub fn neg(self) -> Rat { Rat { n: -self.n, d: self.d } }
    pub fn abs(self) -> Rat { Rat { n: self.n.abs(), d: self.d } }
    pub fn add(self, o: Rat) -> Rat {
        if self.d == 1 && o.d == 1 {
            return match self.n.checked_add(o.n) { Some(n) => Rat { n, d: 1 }, None => { ovf(); Rat::ZERO } };
        }
        let g = gcd(self.d, o.d);
        let r = (|| {
            let a = self.n.checked_mul(o.d / g)?;
            let b = o.n.checked_mul(self.d / g)?;
            let n = a.checked_add(b)?;
            let d = (self.d / g).checked_mul(o.d)?;
            Some(Rat::new(n, d))
        })();
        match r { Some(r) => r, None => { ovf(); Rat::ZERO } }
    }
    pub fn sub(self, o: Rat) -> Rat { self.add(o.neg()) }
    pub fn mul(self, o: Rat) -> Rat {
        let g1 = gcd(self.n, o.d).max(1);
        let g2 = gcd(o.n, self.d).max(1);
        let r = (|| {
            let n = (self.n / g1).checked_mul(o.n / g2)?;
            let d = (self.d / g2).checked_mul(o.d / g1)?;
            Some(Rat { n, d })
        })();
        match r { Some(r) if r.n == 0 => Rat::ZERO, Some(r) => r, None => { ovf(); Rat::ZERO } }
    }
    pub fn inv(self) -> Rat { Rat::new(self.d, self.n) }
    pub fn div(self, o: Rat) -> Rat { self.mul(o.inv()) }
    pub fn to_f64(self) -> f64 { self.n as f64 / self.d as f64 }
    pub fn powi(self, k: u32) -> Rat { let mut r = Rat::ONE; for _ in 0..k { r = r.mul(self); } r }
    pub fn cmp(&self, o: &Rat) -> Ordering { self.sub(*o).n.cmp(&0) }
    pub fn lt(&self, o: &Rat) -> bool { self.cmp(o) == Ordering::Less }
    pub fn le(&self, o: &Rat) -> bool { self.cmp(o) != Ordering::Greater }
    pub fn min(self, o: Rat) -> Rat { if self.le(&o) { self } else { o } }
    pub fn max(self, o: Rat) -> Rat { if self.le(&o) { o } else { self } }

    /// The value a literal or folded constant stands for: the exact dyadic when
    /// it is short, otherwise the simplest rational that rounds to it.
    pub fn from_f64(x: f64) -> Option<Rat> {
        if !x.is_finite() { return None; }
        if x == 0.0 { return Some(Rat::ZERO); }
        if x < 0.0 { return Rat::from_f64(-x).map(|r| r.neg()); }
        let bits = x.to_bits();
        let e = ((bits >> 52) & 0x7ff) as i32;
        let m = bits & ((1u64 << 52) - 1);
        let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
        let tz = m.trailing_zeros() as i32;
        let (m, e) = (m >> tz, e + tz);
        if e >= 0 {
            if e > 60 { return None; }
            return Some(Rat::int((m as i128) << e));
        }
        if -e <= 24 { return Some(Rat { n: m as i128, d: 1i128 << -e }); }
        if -e > 120 { return None; }
        // interval of half an ulp around m * 2^e
        let up = f64::from_bits(bits + 1) - x;
        let _ = up;
        if -e > 64 {
            // tiny numbers: keep the dyadic itself (they act as infinitesimals only)
            return Some(Rat { n: m as i128, d: 1i128 << -e });
        }
        let full = 53 - (64 - (m.leading_zeros() as i32));
        // ulp/2 in units of 2^(e - full - 1)
        let sh = full + 1;
        if -e + sh > 120 { return Some(Rat { n: m as i128, d: 1i128 << -e }); }
        let den = 1i128 << (-e + sh);
        let c = (m as i128) << sh;
        Some(simplest(c - 1, den, c + 1, den))
    }
}

/// simplest fraction in [a/b, c/d]
fn simplest(a: i128, b: i128, c: i128, d: i128) -> Rat {
    let fl = a.div_euclid(b);
    if fl * b == a { return Rat::int(fl); }
    if (fl + 1) * d <= c { return Rat::int(fl + 1); }
    let r = simplest(d, c - fl * d, b, a - fl * b);
    Rat { n: fl * r.n + r.d, d: r.n }
}

impl fmt::Display for Rat {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.d == 1 { write!(f, "{}", self.n) } else { write!(f, "{}/{}", self.n, self.d) }
    }
}
impl fmt::Debug for Rat {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { fmt::Display::fmt(self, f) }
}
