//! `bigdecimal` as exact fractions of machine integers: the numbers of the harness stay far below 2^127, and
//! leaving that range is an error of the run, not a wrong number. Numbers are not printed: text made of them is "?".
pub use num_traits::{FromPrimitive, Num, One, Signed, ToPrimitive, Zero};
use num_bigint::{BigInt, BigUint, Sign};
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use std::ops::*;

pub mod num_traits { pub use ::num_traits::*; }

#[cold]
fn range() -> ! { panic!("model: the number is out of range") }
fn add(a: i128, b: i128) -> i128 { match a.checked_add(b) { Some(x) => x, None => range() } }
fn sub(a: i128, b: i128) -> i128 { match a.checked_sub(b) { Some(x) => x, None => range() } }
fn mul(a: i128, b: i128) -> i128 { if a == 1 { return b } if b == 1 { return a } if small(a) & small(b) { a.wrapping_mul(b) } else { match a.checked_mul(b) { Some(x) => x, None => range() } } }
fn small(a: i128) -> bool { (-(1 << 62) < a) & (a < 1 << 62) }
fn pow10(n: u64) -> i128 { let mut r = 1i128; for _ in 0..n { r = mul(r, 10) } r }

pub mod num_bigint {
    use super::*;
    #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
    pub enum Sign { Minus, NoSign, Plus }
    pub trait ToBigInt { fn to_bigint(&self) -> Option<BigInt>; }
    #[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Default, Hash)]
    pub struct BigInt(pub i128);
    pub type BigUint = BigInt;
    impl std::fmt::Display for BigInt { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("?") } }
    impl std::fmt::Debug for BigInt { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("?") } }
    impl BigInt {
        pub fn sign(&self) -> Sign { if self.0 < 0 { Sign::Minus } else if self.0 == 0 { Sign::NoSign } else { Sign::Plus } }
        pub fn pow(&self, e: u32) -> BigInt { let mut r = 1; for _ in 0..e { r = mul(r, self.0) } BigInt(r) }
    }
    macro_rules! op { ($t:ident $m:ident $f:expr) => {
        impl $t<BigInt> for BigInt { type Output = BigInt; fn $m(self, o: BigInt) -> BigInt { BigInt($f(self.0, o.0)) } }
        impl $t<&BigInt> for BigInt { type Output = BigInt; fn $m(self, o: &BigInt) -> BigInt { BigInt($f(self.0, o.0)) } }
        impl $t<BigInt> for &BigInt { type Output = BigInt; fn $m(self, o: BigInt) -> BigInt { BigInt($f(self.0, o.0)) } }
        impl $t<&BigInt> for &BigInt { type Output = BigInt; fn $m(self, o: &BigInt) -> BigInt { BigInt($f(self.0, o.0)) } }
    } }
    op! { Add add super::add }
    op! { Sub sub super::sub }
    op! { Mul mul super::mul }
    op! { Div div |a: i128, b: i128| a / b }
    op! { Rem rem |a: i128, b: i128| a % b }
    impl Neg for BigInt { type Output = BigInt; fn neg(self) -> BigInt { BigInt(super::sub(0, self.0)) } }
    impl Zero for BigInt { fn zero() -> Self { BigInt(0) } fn is_zero(&self) -> bool { self.0 == 0 } }
    impl One for BigInt { fn one() -> Self { BigInt(1) } }
    impl FromPrimitive for BigInt { fn from_i64(n: i64) -> Option<Self> { Some(BigInt(n as i128)) } fn from_u64(n: u64) -> Option<Self> { Some(BigInt(n as i128)) } fn from_i128(n: i128) -> Option<Self> { Some(BigInt(n)) } }
    impl ToPrimitive for BigInt {
        fn to_i64(&self) -> Option<i64> { i64::try_from(self.0).ok() }
        fn to_u64(&self) -> Option<u64> { u64::try_from(self.0).ok() }
        fn to_i128(&self) -> Option<i128> { Some(self.0) }
        fn to_u128(&self) -> Option<u128> { u128::try_from(self.0).ok() }
    }
    macro_rules! from { ($($t:ty)*) => { $(impl From<$t> for BigInt { fn from(n: $t) -> Self { BigInt(n as i128) } })* } }
    from! { u8 u16 u32 u64 usize i8 i16 i32 i64 isize i128 }
}

#[derive(Clone)]
pub struct BigDecimal { n: i128, d: i128 }

#[derive(Debug, Clone, PartialEq)]
pub enum ParseBigDecimalError { ParseDecimal(std::num::ParseFloatError), ParseInt(std::num::ParseIntError), Empty, Other(String) }
impl std::fmt::Display for ParseBigDecimalError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("not a number") } }
impl std::error::Error for ParseBigDecimalError {}

impl BigDecimal {
    pub fn new(n: BigInt, scale: i64) -> Self { if scale >= 0 { Self { n: n.0, d: pow10(scale as u64) }.lowest() } else { Self { n: mul(n.0, pow10(scale.unsigned_abs())), d: 1 } } }
    pub fn from_bigint(n: BigInt, scale: i64) -> Self { Self::new(n, scale) }
    pub fn from_biguint(n: BigUint, scale: i64) -> Self { Self::new(n, scale) }
    /// constants only: symbolic ones stay as they are
    fn lowest(self) -> Self { if self.d == 1 { self } else if self.n == 0 { Self { n: 0, d: 1 } } else { self } }
    /// the whole part, towards zero
    fn whole(&self) -> i128 { if self.d == 1 { self.n } else if self.n < 0 { -((-self.n) / self.d) } else { self.n / self.d } }
    fn aligned(&self, o: &Self) -> (i128, i128, i128) {
        if self.d == o.d { (self.n, o.n, self.d) } else { (mul(self.n, o.d), mul(o.n, self.d), mul(self.d, o.d)) }
    }
    pub fn with_scale(&self, scale: i64) -> Self {
        if self.d == 1 && scale >= 0 { return self.clone() }
        if scale == 0 { return Self { n: self.whole(), d: 1 } }
        let p = pow10(scale.unsigned_abs());
        if scale > 0 { Self { n: Self { n: mul(self.n, p), d: self.d }.whole(), d: p } } else { Self { n: mul(Self { n: self.n, d: mul(self.d, p) }.whole(), p), d: 1 } }
    }
    pub fn into_bigint_and_exponent(self) -> (BigInt, i64) {
        let (mut t, mut s) = (self.d, 0);
        while t % 10 == 0 { t /= 10; s += 1 }
        if t != 1 { range() }
        (BigInt(self.n), s)
    }
    pub fn as_bigint_and_exponent(&self) -> (BigInt, i64) { self.clone().into_bigint_and_exponent() }
    pub fn into_bigint_and_scale(self) -> (BigInt, i64) { self.into_bigint_and_exponent() }
    pub fn fractional_digit_count(&self) -> i64 { self.as_bigint_and_exponent().1 }
    pub fn is_integer(&self) -> bool { self.d == 1 || self.n % self.d == 0 }
    pub fn sign(&self) -> Sign { BigInt(self.n).sign() }
    pub fn abs(&self) -> Self { if self.n < 0 { -self.clone() } else { self.clone() } }
    pub fn double(&self) -> Self { self + self }
    pub fn half(&self) -> Self { self / BigDecimal::from(2u64) }
    pub fn square(&self) -> Self { self * self }
    pub fn normalized(&self) -> Self { self.clone() }
}
impl Default for BigDecimal { fn default() -> Self { Self { n: 0, d: 1 } } }
impl std::fmt::Display for BigDecimal { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("?") } }
impl std::fmt::Debug for BigDecimal { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("?") } }
impl PartialEq for BigDecimal { fn eq(&self, o: &Self) -> bool { let (a, b, _) = self.aligned(o); a == b } }
impl Eq for BigDecimal {}
impl Ord for BigDecimal { fn cmp(&self, o: &Self) -> Ordering { let (a, b, _) = self.aligned(o); a.cmp(&b) } }
impl PartialOrd for BigDecimal {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> { Some(self.cmp(o)) }
    fn lt(&self, o: &Self) -> bool { let (a, b, _) = self.aligned(o); a < b }
    fn le(&self, o: &Self) -> bool { let (a, b, _) = self.aligned(o); a <= b }
    fn gt(&self, o: &Self) -> bool { let (a, b, _) = self.aligned(o); a > b }
    fn ge(&self, o: &Self) -> bool { let (a, b, _) = self.aligned(o); a >= b }
}
impl Hash for BigDecimal { fn hash<H: Hasher>(&self, h: &mut H) { self.whole().hash(h) } }
impl std::str::FromStr for BigDecimal {
    type Err = ParseBigDecimalError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        let (mut n, mut d, mut point, mut digits) = (0i128, 1i128, false, false);
        let minus = s.starts_with('-');
        for c in s.trim_start_matches(['-', '+']).bytes() {
            match c {
                b'0'..=b'9' => { n = add(mul(n, 10), (c - b'0') as i128); digits = true; if point { d = mul(d, 10) } }
                b'_' => {}
                b'.' if !point => point = true,
                _ => return Err(ParseBigDecimalError::Empty),
            }
        }
        if !digits { return Err(ParseBigDecimalError::Empty) }
        Ok(Self { n: if minus { -n } else { n }, d })
    }
}
impl TryFrom<&str> for BigDecimal { type Error = ParseBigDecimalError; fn try_from(s: &str) -> Result<Self, Self::Error> { s.parse() } }
fn d_add(a: &BigDecimal, b: &BigDecimal) -> BigDecimal { let (x, y, d) = a.aligned(b); BigDecimal { n: add(x, y), d } }
fn d_sub(a: &BigDecimal, b: &BigDecimal) -> BigDecimal { let (x, y, d) = a.aligned(b); BigDecimal { n: sub(x, y), d } }
fn d_mul(a: &BigDecimal, b: &BigDecimal) -> BigDecimal { BigDecimal { n: mul(a.n, b.n), d: mul(a.d, b.d) } }
fn d_div(a: &BigDecimal, b: &BigDecimal) -> BigDecimal {
    if b.n == 0 { panic!("Division by zero") }
    let (n, d) = (mul(a.n, b.d), mul(a.d, b.n));
    if d < 0 { BigDecimal { n: sub(0, n), d: sub(0, d) } } else { BigDecimal { n, d } }
}
fn d_rem(a: &BigDecimal, b: &BigDecimal) -> BigDecimal { let (x, y, d) = a.aligned(b); BigDecimal { n: x % y, d } }
macro_rules! op { ($($t:ident $m:ident $at:ident $am:ident $f:ident;)*) => { $(
    impl $t<BigDecimal> for BigDecimal { type Output = BigDecimal; fn $m(self, o: BigDecimal) -> BigDecimal { $f(&self, &o) } }
    impl $t<&BigDecimal> for BigDecimal { type Output = BigDecimal; fn $m(self, o: &BigDecimal) -> BigDecimal { $f(&self, o) } }
    impl $t<BigDecimal> for &BigDecimal { type Output = BigDecimal; fn $m(self, o: BigDecimal) -> BigDecimal { $f(self, &o) } }
    impl $t<&BigDecimal> for &BigDecimal { type Output = BigDecimal; fn $m(self, o: &BigDecimal) -> BigDecimal { $f(self, o) } }
    impl $t<BigInt> for BigDecimal { type Output = BigDecimal; fn $m(self, o: BigInt) -> BigDecimal { $f(&self, &BigDecimal::from(o)) } }
    impl $t<BigInt> for &BigDecimal { type Output = BigDecimal; fn $m(self, o: BigInt) -> BigDecimal { $f(self, &BigDecimal::from(o)) } }
    impl $at<BigDecimal> for BigDecimal { fn $am(&mut self, o: BigDecimal) { *self = $f(self, &o) } }
    impl $at<&BigDecimal> for BigDecimal { fn $am(&mut self, o: &BigDecimal) { *self = $f(self, o) } }
)* } }
op! { Add add AddAssign add_assign d_add; Sub sub SubAssign sub_assign d_sub; Mul mul MulAssign mul_assign d_mul; Div div DivAssign div_assign d_div; Rem rem RemAssign rem_assign d_rem; }
impl Neg for BigDecimal { type Output = BigDecimal; fn neg(self) -> BigDecimal { BigDecimal { n: sub(0, self.n), d: self.d } } }
impl Neg for &BigDecimal { type Output = BigDecimal; fn neg(self) -> BigDecimal { BigDecimal { n: sub(0, self.n), d: self.d } } }
impl std::iter::Sum for BigDecimal { fn sum<I: Iterator<Item = Self>>(i: I) -> Self { i.fold(Self::default(), |a, b| a + b) } }
impl<'a> std::iter::Sum<&'a BigDecimal> for BigDecimal { fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self { i.fold(Self::default(), |a, b| a + b) } }
impl Zero for BigDecimal { fn zero() -> Self { Self::default() } fn is_zero(&self) -> bool { self.n == 0 } }
impl One for BigDecimal { fn one() -> Self { Self { n: 1, d: 1 } } }
impl Num for BigDecimal { type FromStrRadixErr = ParseBigDecimalError; fn from_str_radix(s: &str, _: u32) -> Result<Self, ParseBigDecimalError> { s.parse() } }
impl Signed for BigDecimal {
    fn abs(&self) -> Self { BigDecimal::abs(self) }
    fn abs_sub(&self, o: &Self) -> Self { if self <= o { Self::zero() } else { self - o } }
    fn signum(&self) -> Self { match self.sign() { Sign::Minus => -Self::one(), Sign::NoSign => Self::zero(), Sign::Plus => Self::one() } }
    fn is_positive(&self) -> bool { self.n > 0 }
    fn is_negative(&self) -> bool { self.n < 0 }
}
impl FromPrimitive for BigDecimal { fn from_i64(n: i64) -> Option<Self> { Some(n.into()) } fn from_u64(n: u64) -> Option<Self> { Some(n.into()) } fn from_i128(n: i128) -> Option<Self> { Some(n.into()) } }
impl ToPrimitive for BigDecimal {
    fn to_i64(&self) -> Option<i64> { i64::try_from(self.whole()).ok() }
    fn to_u64(&self) -> Option<u64> { u64::try_from(self.whole()).ok() }
    fn to_i128(&self) -> Option<i128> { Some(self.whole()) }
    fn to_u128(&self) -> Option<u128> { u128::try_from(self.whole()).ok() }
}
impl From<BigInt> for BigDecimal { fn from(n: BigInt) -> Self { Self { n: n.0, d: 1 } } }
macro_rules! from { ($($t:ty)*) => { $(impl From<$t> for BigDecimal { fn from(n: $t) -> Self { Self { n: n as i128, d: 1 } } })* } }
from! { u8 u16 u32 u64 usize i8 i16 i32 i64 isize i128 }
