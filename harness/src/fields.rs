//! Coefficient fields: harness prime fields and counted floats, exact reference rationals.
use crate::engine::{tick, RefOverflow, Src};
use algeo::core::num::{EpsilonEquality, Field, One, Rational, StabilityCmp, Zero};
use std::cmp::Ordering;
use std::fmt;
use std::iter::{Product, Sum};
use std::ops::*;

// ---- reference ring interface ------------------------------------------------------------------
pub trait Ring: Clone + PartialEq + fmt::Debug + Send + 'static {
    fn zero() -> Self;
    fn one() -> Self;
    fn add(&self, o: &Self) -> Self;
    fn mul(&self, o: &Self) -> Self;
    fn neg(&self) -> Self;
    fn inv(&self) -> Self;
    fn is_zero(&self) -> bool { *self == Self::zero() }
    fn sub(&self, o: &Self) -> Self { self.add(&o.neg()) }
    fn div(&self, o: &Self) -> Self { self.mul(&o.inv()) }
    fn of(i: i64) -> Self;
    /// size data of rational values, trivial for finite fields
    fn denom(&self) -> i128 { 1 }
    fn absf(&self) -> f64 { 0.0 }
    fn pow(&self, e: u32) -> Self { (0..e).fold(Self::one(), |a, _| a.mul(self)) }
}

/// exact rational on i128; overflow of the reference is signalled, never wrapped
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct Q { pub n: i128, pub d: i128 }
pub fn gcd128(mut a: i128, mut b: i128) -> i128 { while b != 0 { let t = a % b; a = b; b = t; } a.abs() }
fn ovf<T>(o: Option<T>) -> T { match o { Some(v) => v, None => std::panic::panic_any(RefOverflow) } }
impl Q {
    pub fn new(n: i128, d: i128) -> Q {
        if d == 0 { return Q { n: 0, d: 0 }; }
        if n == i128::MIN || d == i128::MIN { std::panic::panic_any(RefOverflow); }
        let g = gcd128(n, d);
        let s = if d < 0 { -1 } else { 1 };
        Q { n: n / g * s, d: d / g * s }
    }
    pub fn int(n: i128) -> Q { Q { n, d: 1 } }
    pub fn cmp(&self, o: &Q) -> Ordering { ovf(self.n.checked_mul(o.d)).cmp(&ovf(o.n.checked_mul(self.d))) }
    pub fn sgn(&self) -> i32 { self.n.signum() as i32 }
}
impl fmt::Debug for Q {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { if self.d == 1 { write!(f, "{}", self.n) } else { write!(f, "{}/{}", self.n, self.d) } }
}
impl Ring for Q {
    fn zero() -> Q { Q { n: 0, d: 1 } }
    fn one() -> Q { Q { n: 1, d: 1 } }
    fn add(&self, o: &Q) -> Q {
        if self.d == 0 || o.d == 0 { return Q { n: 0, d: 0 }; }
        let g = gcd128(self.d, o.d);
        let a = ovf(self.n.checked_mul(o.d / g));
        let b = ovf(o.n.checked_mul(self.d / g));
        Q::new(ovf(a.checked_add(b)), ovf((self.d / g).checked_mul(o.d)))
    }
    fn mul(&self, o: &Q) -> Q {
        if self.d == 0 || o.d == 0 { return Q { n: 0, d: 0 }; }
        let (g, h) = (gcd128(self.n, o.d).max(1), gcd128(o.n, self.d).max(1));
        Q::new(ovf((self.n / g).checked_mul(o.n / h)), ovf((self.d / h).checked_mul(o.d / g)))
    }
    fn neg(&self) -> Q { Q { n: -self.n, d: self.d } }
    fn inv(&self) -> Q { Q::new(self.d, self.n) }
    fn of(i: i64) -> Q { Q::int(i as i128) }
    fn denom(&self) -> i128 { self.d }
    fn absf(&self) -> f64 { (self.n as f64 / self.d as f64).abs() }
}

// ---- prime fields ------------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Fp<const P: u64>(pub u64);
impl<const P: u64> Fp<P> {
    pub fn new(v: i64) -> Self { Fp(v.rem_euclid(P as i64) as u64) }
    fn inverse(self) -> Self {
        if self.0 == 0 { panic!("division by zero in Fp"); }
        let (mut r, mut b, mut e) = (1u64, self.0, P - 2);
        if P == 2 { return self; }
        while e > 0 { if e & 1 == 1 { r = r * b % P; } b = b * b % P; e >>= 1; }
        Fp(r)
    }
}
impl<const P: u64> fmt::Debug for Fp<P> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) } }
impl<const P: u64> fmt::Display for Fp<P> { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) } }
impl<const P: u64> Add for Fp<P> { type Output = Self; fn add(self, o: Self) -> Self { tick(); let s = self.0 + o.0; Fp(if s >= P { s - P } else { s }) } }
impl<const P: u64> Sub for Fp<P> { type Output = Self; fn sub(self, o: Self) -> Self { tick(); Fp(if self.0 >= o.0 { self.0 - o.0 } else { self.0 + P - o.0 }) } }
impl<const P: u64> Neg for Fp<P> { type Output = Self; fn neg(self) -> Self { tick(); Fp(if self.0 == 0 { 0 } else { P - self.0 }) } }
impl<const P: u64> Mul for Fp<P> { type Output = Self; fn mul(self, o: Self) -> Self { tick(); Fp(self.0 * o.0 % P) } }
impl<const P: u64> Div for Fp<P> { type Output = Self; fn div(self, o: Self) -> Self { tick(); Fp(self.0 * o.inverse().0 % P) } }
impl<const P: u64> Zero for Fp<P> { const ZERO: Self = Fp(0); fn is_zero(&self) -> bool { self.0 == 0 } }
impl<const P: u64> One for Fp<P> { const ONE: Self = Fp(1); fn is_one(&self) -> bool { self.0 == 1 } }
impl<const P: u64> Field for Fp<P> {
    fn powi32(&self, p: i32) -> Self {
        let b = if p < 0 { self.inverse() } else { *self };
        let (mut r, mut b, mut e) = (Fp(1), b, p.unsigned_abs());
        while e > 0 { if e & 1 == 1 { r = r * b; } b = b * b; e >>= 1; }
        r
    }
}
impl<const P: u64> EpsilonEquality for Fp<P> { fn epsilon_equals(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<const P: u64> StabilityCmp for Fp<P> {
    fn stability_cmp(&self, o: &Self) -> Option<Ordering> {
        tick();
        // zero least, the rest in a scrambled but fixed total order
        let k = |v: u64| if v == 0 { 0 } else { 1 + (v.wrapping_mul(0x9E3779B97F4A7C15) >> 20) };
        Some(k(self.0).cmp(&k(o.0)))
    }
}
impl<const P: u64> Ring for Fp<P> {
    fn zero() -> Self { Fp(0) }
    fn one() -> Self { Fp(1) }
    fn add(&self, o: &Self) -> Self { Fp((self.0 + o.0) % P) }
    fn mul(&self, o: &Self) -> Self { Fp(self.0 * o.0 % P) }
    fn neg(&self) -> Self { Fp((P - self.0) % P) }
    fn inv(&self) -> Self { self.inverse() }
    fn of(i: i64) -> Self { Fp::new(i) }
}

// ---- counted float -----------------------------------------------------------------------------
#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub struct CF64(pub f64);
impl fmt::Debug for CF64 { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{:?}", self.0) } }
impl fmt::Display for CF64 { fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { write!(f, "{}", self.0) } }
impl Add for CF64 { type Output = Self; fn add(self, o: Self) -> Self { tick(); CF64(self.0 + o.0) } }
impl Sub for CF64 { type Output = Self; fn sub(self, o: Self) -> Self { tick(); CF64(self.0 - o.0) } }
impl Neg for CF64 { type Output = Self; fn neg(self) -> Self { tick(); CF64(-self.0) } }
impl Mul for CF64 { type Output = Self; fn mul(self, o: Self) -> Self { tick(); CF64(self.0 * o.0) } }
impl Div for CF64 { type Output = Self; fn div(self, o: Self) -> Self { tick(); CF64(self.0 / o.0) } }
impl Zero for CF64 { const ZERO: Self = CF64(0.0); fn is_zero(&self) -> bool { self.0 == 0.0 } }
impl One for CF64 { const ONE: Self = CF64(1.0); fn is_one(&self) -> bool { self.0 == 1.0 } }
impl Field for CF64 { fn powi32(&self, p: i32) -> Self { CF64(self.0.powi(p)) } fn inv(self) -> Self { CF64(self.0.recip()) } }

macro_rules! rest {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> AddAssign for $t { fn add_assign(&mut self, o: Self) { *self = *self + o } }
        impl<$($g)*> SubAssign for $t { fn sub_assign(&mut self, o: Self) { *self = *self - o } }
        impl<$($g)*> MulAssign for $t { fn mul_assign(&mut self, o: Self) { *self = *self * o } }
        impl<$($g)*> DivAssign for $t { fn div_assign(&mut self, o: Self) { *self = *self / o } }
        impl<$($g)*> Sum for $t { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ZERO, |a, b| a + b) } }
        impl<$($g)*> Product for $t { fn product<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::ONE, |a, b| a * b) } }
    };
}
rest! { [const P: u64] Fp<P> }
rest! { [] CF64 }

// ---- coefficient types the library is driven with -----------------------------------------------
pub trait Coef: Field + Send + 'static {
    type R: Ring;
    const NAME: &'static str;
    /// may the library legitimately overflow on long computations?
    const OVF: bool;
    fn r(&self) -> Self::R;
    fn gen(s: &mut Src) -> Self;
    fn of(i: i64) -> Self;
    /// the library value denoting a reference value (which has to be representable)
    fn from_r(r: &Self::R) -> Self;
    fn gen_nz(s: &mut Src) -> Self {
        let v = Self::gen(s);
        if v == Self::ZERO { Self::ONE } else { v }
    }
    /// small integer-like nonzero values, for long computations
    fn gen_small(s: &mut Src) -> Self { Self::of(s.int(-4, 4)) }
}
impl<const P: u64> Coef for Fp<P> {
    type R = Fp<P>;
    const NAME: &'static str = "Fp";
    const OVF: bool = false;
    fn r(&self) -> Self { *self }
    fn gen(s: &mut Src) -> Self { if s.chance(1, 2) { Fp(s.below(P)) } else { Fp::new(s.int(-5, 5)) } }
    fn of(i: i64) -> Self { Fp::new(i) }
    fn from_r(r: &Self) -> Self { *r }
}
impl Coef for Rational {
    type R = Q;
    const NAME: &'static str = "Rational";
    const OVF: bool = true;
    fn r(&self) -> Q { Q::new(self.numer.0 as i128, self.denom.0 as i128) }
    fn gen(s: &mut Src) -> Self {
        match s.weighted(&[6, 6, 1]) {
            0 => Rational::new_i64(s.int(-9, 9), 1),
            1 => Rational::new_i64(s.int(-9, 9), *s.pick(&[1, 2, 3, 4, 6, 5])),
            _ => Rational::new_i64(s.int(-200, 200), s.int(1, 30)),
        }
    }
    fn of(i: i64) -> Self { Rational::new_i64(i, 1) }
    fn from_r(r: &Q) -> Self {
        let mut x = Rational::new_i64(0, 1);
        x.numer = ovf(i64::try_from(r.n).ok()).into();
        x.denom = ovf(i64::try_from(r.d).ok()).into();
        x
    }
}
pub fn f64_to_q(x: f64) -> Q {
    if !x.is_finite() { return Q { n: 0, d: 0 }; }
    let (mut v, mut k) = (x, 0);
    while v.fract() != 0.0 && k < 60 { v *= 2.0; k += 1; }
    if v.fract() != 0.0 || v.abs() > 1e30 { return Q { n: 0, d: 0 }; }
    Q::new(v as i128, 1i128 << k)
}
macro_rules! float_coef {
    ($t:ty, $name:literal, $ctor:expr, $get:expr, $big:literal) => {
        impl Coef for $t {
            type R = Q;
            const NAME: &'static str = $name;
            const OVF: bool = false;
            fn r(&self) -> Q { f64_to_q($get(self)) }
            fn gen(s: &mut Src) -> Self { let k = *s.pick(&[1.0, 1.0, 0.5, 0.25]); $ctor(s.int(-$big, $big) as f64 * k) }
            fn of(i: i64) -> Self { $ctor(i as f64) }
            fn from_r(r: &Q) -> Self { $ctor(r.n as f64 / r.d as f64) }
        }
    };
}
float_coef!(f64, "f64", |x: f64| x, |x: &f64| *x, 60);
float_coef!(f32, "f32", |x: f64| x as f32, |x: &f32| *x as f64, 9);
float_coef!(CF64, "CF64", |x: f64| CF64(x), |x: &CF64| x.0, 60);

pub type F2 = Fp<2>;
pub type F3 = Fp<3>;
pub type F7 = Fp<7>;
pub type F101 = Fp<101>;
pub type F32003 = Fp<32003>;
pub type Fbig = Fp<2147483647>;
