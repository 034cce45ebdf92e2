pub use num_bigint::{BigUint, ParseBigIntError, Sign, ToBigUint};
use num_bigint::BigInt as Big;
use num_integer::{ExtendedGcd, Integer, Roots};
use num_traits::*;
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::sync::Arc;
use symrt::hooks::{i_mk, i_sym, int_to_f, poly_cmp, poly_ord};
use symrt::{Cond, Poly, Rel, Q};

#[derive(Clone)]
pub enum BigInt {
    C(Big),
    S(Arc<Poly>),
}
use BigInt::{C, S};

pub trait ToBigInt {
    fn to_bigint(&self) -> Option<BigInt>;
}
impl ToBigInt for BigInt {
    fn to_bigint(&self) -> Option<BigInt> {
        Some(self.clone())
    }
}
impl ToBigInt for BigUint {
    fn to_bigint(&self) -> Option<BigInt> {
        Some(C(Big::from(self.clone())))
    }
}

impl BigInt {
    pub fn from_poly(p: Poly) -> BigInt {
        let p = if symrt::active() { symrt::norm(&p) } else { p };
        match p.constant() {
            Some(q) => C(q.numer().clone()),
            None => S(Arc::new(p)),
        }
    }
    pub fn poly(&self) -> Poly {
        match self {
            C(b) => Poly::big(b.clone()),
            S(p) => symrt::norm(p),
        }
    }
    pub fn is_symbolic(&self) -> bool {
        matches!(self, S(_))
    }
    /// one concrete value, exploring all of them
    pub fn conc(&self) -> Big {
        match self {
            C(b) => b.clone(),
            S(p) => symrt::concretise(p).numer().clone(),
        }
    }
    pub fn new(sign: Sign, digits: Vec<u32>) -> BigInt {
        C(Big::new(sign, digits))
    }
    pub fn from_slice(sign: Sign, slice: &[u32]) -> BigInt {
        C(Big::from_slice(sign, slice))
    }
    pub fn from_biguint(sign: Sign, data: BigUint) -> BigInt {
        C(Big::from_biguint(sign, data))
    }
    pub fn from_bytes_be(sign: Sign, b: &[u8]) -> BigInt {
        C(Big::from_bytes_be(sign, b))
    }
    pub fn from_bytes_le(sign: Sign, b: &[u8]) -> BigInt {
        C(Big::from_bytes_le(sign, b))
    }
    pub fn parse_bytes(buf: &[u8], radix: u32) -> Option<BigInt> {
        Big::parse_bytes(buf, radix).map(C)
    }
    pub fn to_str_radix(&self, radix: u32) -> String {
        self.conc().to_str_radix(radix)
    }
    pub fn to_bytes_be(&self) -> (Sign, Vec<u8>) {
        self.conc().to_bytes_be()
    }
    pub fn to_bytes_le(&self) -> (Sign, Vec<u8>) {
        self.conc().to_bytes_le()
    }
    pub fn to_u32_digits(&self) -> (Sign, Vec<u32>) {
        self.conc().to_u32_digits()
    }
    pub fn to_signed_bytes_be(&self) -> Vec<u8> {
        self.conc().to_signed_bytes_be()
    }
    pub fn to_signed_bytes_le(&self) -> Vec<u8> {
        self.conc().to_signed_bytes_le()
    }
    pub fn bits(&self) -> u64 {
        self.conc().bits()
    }
    pub fn sign(&self) -> Sign {
        match self {
            C(b) => b.sign(),
            S(p) => match poly_ord(p, &Poly::zero()) {
                Ordering::Less => Sign::Minus,
                Ordering::Equal => Sign::NoSign,
                Ordering::Greater => Sign::Plus,
            },
        }
    }
    pub fn magnitude(&self) -> &'static BigUint {
        Box::leak(Box::new(self.conc().magnitude().clone()))
    }
    pub fn into_parts(self) -> (Sign, BigUint) {
        self.conc().into_parts()
    }
    pub fn to_biguint(&self) -> Option<BigUint> {
        self.conc().to_biguint()
    }
    pub fn checked_add(&self, v: &BigInt) -> Option<BigInt> {
        Some(self + v)
    }
    pub fn checked_sub(&self, v: &BigInt) -> Option<BigInt> {
        Some(self - v)
    }
    pub fn checked_mul(&self, v: &BigInt) -> Option<BigInt> {
        Some(self * v)
    }
    pub fn checked_div(&self, v: &BigInt) -> Option<BigInt> {
        if v.is_zero() {
            return None;
        }
        Some(self / v)
    }
    pub fn pow(&self, exponent: u32) -> BigInt {
        pow_n(self, &Big::from(exponent))
    }
    pub fn modpow(&self, e: &BigInt, m: &BigInt) -> BigInt {
        C(self.conc().modpow(&e.conc(), &m.conc()))
    }
    pub fn sqrt(&self) -> BigInt {
        C(self.conc().sqrt())
    }
    pub fn cbrt(&self) -> BigInt {
        C(self.conc().cbrt())
    }
    pub fn nth_root(&self, n: u32) -> BigInt {
        C(self.conc().nth_root(n))
    }
    pub fn trailing_zeros(&self) -> Option<u64> {
        self.conc().trailing_zeros()
    }
}

fn pow_n(b: &BigInt, e: &Big) -> BigInt {
    let Some(n) = e.to_u32() else {
        // only the trivial bases have a representable result
        let v = b.conc();
        if v.is_zero() || v.is_one() {
            return C(v);
        }
        if v == -Big::one() {
            return C(if e.is_even() { Big::one() } else { v });
        }
        std::panic::panic_any(symrt::Abort("limit: exponent too large".into()));
    };
    match b {
        C(x) => {
            if n as u64 * x.bits() > 1 << 20 && x.bits() > 1 {
                std::panic::panic_any(symrt::Abort("limit: power too large".into()));
            }
            C(num_traits::Pow::pow(x, n))
        }
        S(p) => {
            if n > 32 {
                return pow_n(&C(b.conc()), e);
            }
            BigInt::from_poly(symrt::norm(p).pow(n))
        }
    }
}

// ------------------------------------------------------------------ basic traits
impl Default for BigInt {
    fn default() -> Self {
        C(Big::default())
    }
}
impl fmt::Display for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if let S(p) = self {
            if let Some(t) = symrt::text_token(p) {
                return f.write_str(&t);
            }
        }
        fmt::Display::fmt(&self.conc(), f)
    }
}
impl fmt::Debug for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.conc(), f)
    }
}
impl fmt::LowerHex for BigInt {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::LowerHex::fmt(&self.conc(), f)
    }
}
impl PartialEq for BigInt {
    fn eq(&self, o: &BigInt) -> bool {
        match (self, o) {
            (C(a), C(b)) => a == b,
            _ => poly_cmp(0, &self.poly(), &o.poly()),
        }
    }
}
impl Eq for BigInt {}
impl Ord for BigInt {
    fn cmp(&self, o: &BigInt) -> Ordering {
        match (self, o) {
            (C(a), C(b)) => a.cmp(b),
            _ => poly_ord(&self.poly(), &o.poly()),
        }
    }
}
impl PartialOrd for BigInt {
    fn partial_cmp(&self, o: &BigInt) -> Option<Ordering> {
        Some(self.cmp(o))
    }
    fn lt(&self, o: &BigInt) -> bool {
        match (self, o) {
            (C(a), C(b)) => a < b,
            _ => poly_cmp(2, &self.poly(), &o.poly()),
        }
    }
    fn le(&self, o: &BigInt) -> bool {
        match (self, o) {
            (C(a), C(b)) => a <= b,
            _ => poly_cmp(3, &self.poly(), &o.poly()),
        }
    }
    fn gt(&self, o: &BigInt) -> bool {
        o.lt(self)
    }
    fn ge(&self, o: &BigInt) -> bool {
        o.le(self)
    }
}
impl Hash for BigInt {
    fn hash<H: Hasher>(&self, state: &mut H) {
        if symrt::hashing::recording() {
            return symrt::hashing::record_num(self.poly());
        }
        // a symbolic number is hashed one concrete value at a time
        self.conc().hash(state)
    }
}
impl std::str::FromStr for BigInt {
    type Err = ParseBigIntError;
    fn from_str(s: &str) -> Result<Self, Self::Err> {
        s.parse().map(C)
    }
}

macro_rules! from_prim {
    ($($t:ty),*) => {$(
        impl From<$t> for BigInt {
            fn from(v: $t) -> BigInt { C(Big::from(v)) }
        }
        impl ToBigInt for $t {
            fn to_bigint(&self) -> Option<BigInt> { Some(BigInt::from(*self)) }
        }
    )*};
}
from_prim!(i8, i16, i32, i128, u8, u16, u32, u64, u128, usize);
macro_rules! from_handle {
    ($($t:ty),*) => {$(
        impl From<$t> for BigInt {
            fn from(v: $t) -> BigInt {
                match i_sym(v as i64) {
                    Some(p) => BigInt::from_poly(p),
                    None => C(Big::from(v)),
                }
            }
        }
        impl ToBigInt for $t {
            fn to_bigint(&self) -> Option<BigInt> { Some(BigInt::from(*self)) }
        }
    )*};
}
from_handle!(i64, isize);
impl From<BigUint> for BigInt {
    fn from(v: BigUint) -> BigInt {
        C(Big::from(v))
    }
}
impl From<bool> for BigInt {
    fn from(v: bool) -> BigInt {
        C(Big::from(v as u8))
    }
}
impl std::convert::TryFrom<BigInt> for isize {
    type Error = ();
    fn try_from(v: BigInt) -> Result<isize, ()> {
        v.to_isize().ok_or(())
    }
}
impl std::convert::TryFrom<&BigInt> for isize {
    type Error = ();
    fn try_from(v: &BigInt) -> Result<isize, ()> {
        v.to_isize().ok_or(())
    }
}
macro_rules! try_from {
    ($($t:ty, $m:ident);*) => {$(
        impl std::convert::TryFrom<BigInt> for $t {
            type Error = ();
            fn try_from(v: BigInt) -> Result<$t, ()> { v.$m().ok_or(()) }
        }
        impl std::convert::TryFrom<&BigInt> for $t {
            type Error = ();
            fn try_from(v: &BigInt) -> Result<$t, ()> { v.$m().ok_or(()) }
        }
    )*};
}
try_from!(i8, to_i8; i16, to_i16; i32, to_i32; i64, to_i64; i128, to_i128; u8, to_u8; u16, to_u16; u32, to_u32; u64, to_u64; u128, to_u128; usize, to_usize);

// ------------------------------------------------------------------ arithmetic
fn add(a: &BigInt, b: &BigInt) -> BigInt {
    match (a, b) {
        (C(x), C(y)) => C(x + y),
        _ => BigInt::from_poly(a.poly().add(&b.poly())),
    }
}
fn sub(a: &BigInt, b: &BigInt) -> BigInt {
    match (a, b) {
        (C(x), C(y)) => C(x - y),
        _ => BigInt::from_poly(a.poly().sub(&b.poly())),
    }
}
fn mul(a: &BigInt, b: &BigInt) -> BigInt {
    match (a, b) {
        (C(x), C(y)) => C(x * y),
        _ => BigInt::from_poly(a.poly().mul(&b.poly())),
    }
}
fn divrem(a: &BigInt, b: &BigInt) -> (BigInt, BigInt) {
    if let (C(x), C(y)) = (a, b) {
        if y.is_zero() {
            panic!("attempt to divide by zero");
        }
        let (q, r) = x.div_rem(y);
        return (C(q), C(r));
    }
    if b.is_zero() {
        panic!("attempt to divide by zero");
    }
    let (pa, pb) = (a.poly(), b.poly());
    let (q, r) = symrt::with(|c| c.quotrem_sym(&pa, &pb));
    (BigInt::from_poly(q), BigInt::from_poly(r))
}
fn div(a: &BigInt, b: &BigInt) -> BigInt {
    divrem(a, b).0
}
fn rem(a: &BigInt, b: &BigInt) -> BigInt {
    divrem(a, b).1
}

macro_rules! ops {
    ($($tr:ident, $m:ident, $atr:ident, $am:ident, $f:ident);*) => {$(
        impl std::ops::$tr<BigInt> for BigInt { type Output = BigInt; fn $m(self, o: BigInt) -> BigInt { $f(&self, &o) } }
        impl std::ops::$tr<&BigInt> for BigInt { type Output = BigInt; fn $m(self, o: &BigInt) -> BigInt { $f(&self, o) } }
        impl std::ops::$tr<BigInt> for &BigInt { type Output = BigInt; fn $m(self, o: BigInt) -> BigInt { $f(self, &o) } }
        impl std::ops::$tr<&BigInt> for &BigInt { type Output = BigInt; fn $m(self, o: &BigInt) -> BigInt { $f(self, o) } }
        impl std::ops::$atr<BigInt> for BigInt { fn $am(&mut self, o: BigInt) { *self = $f(self, &o) } }
        impl std::ops::$atr<&BigInt> for BigInt { fn $am(&mut self, o: &BigInt) { *self = $f(self, o) } }
        ops!(@prim $tr, $m, $atr, $am, $f; i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize);
    )*};
    (@prim $tr:ident, $m:ident, $atr:ident, $am:ident, $f:ident; $($t:ty),*) => {$(
        impl std::ops::$tr<$t> for BigInt { type Output = BigInt; fn $m(self, o: $t) -> BigInt { $f(&self, &BigInt::from(o)) } }
        impl std::ops::$tr<$t> for &BigInt { type Output = BigInt; fn $m(self, o: $t) -> BigInt { $f(self, &BigInt::from(o)) } }
        impl std::ops::$tr<BigInt> for $t { type Output = BigInt; fn $m(self, o: BigInt) -> BigInt { $f(&BigInt::from(self), &o) } }
        impl std::ops::$tr<&BigInt> for $t { type Output = BigInt; fn $m(self, o: &BigInt) -> BigInt { $f(&BigInt::from(self), o) } }
        impl std::ops::$atr<$t> for BigInt { fn $am(&mut self, o: $t) { *self = $f(self, &BigInt::from(o)) } }
    )*};
}
ops!(Add, add, AddAssign, add_assign, add; Sub, sub, SubAssign, sub_assign, sub; Mul, mul, MulAssign, mul_assign, mul;
     Div, div, DivAssign, div_assign, div; Rem, rem, RemAssign, rem_assign, rem);

macro_rules! bits {
    ($($tr:ident, $m:ident);*) => {$(
        impl std::ops::$tr<BigInt> for BigInt { type Output = BigInt; fn $m(self, o: BigInt) -> BigInt { C(std::ops::$tr::$m(self.conc(), o.conc())) } }
        impl std::ops::$tr<&BigInt> for BigInt { type Output = BigInt; fn $m(self, o: &BigInt) -> BigInt { C(std::ops::$tr::$m(self.conc(), o.conc())) } }
        impl std::ops::$tr<&BigInt> for &BigInt { type Output = BigInt; fn $m(self, o: &BigInt) -> BigInt { C(std::ops::$tr::$m(self.conc(), o.conc())) } }
    )*};
}
bits!(BitAnd, bitand; BitOr, bitor; BitXor, bitxor);
macro_rules! shifts {
    ($($t:ty),*) => {$(
        impl std::ops::Shl<$t> for BigInt { type Output = BigInt; fn shl(self, n: $t) -> BigInt { mul(&self, &C(Big::one() << n)) } }
        impl std::ops::Shl<$t> for &BigInt { type Output = BigInt; fn shl(self, n: $t) -> BigInt { mul(self, &C(Big::one() << n)) } }
        impl std::ops::Shr<$t> for BigInt { type Output = BigInt; fn shr(self, n: $t) -> BigInt { Integer::div_floor(&self, &C(Big::one() << n)) } }
        impl std::ops::Shr<$t> for &BigInt { type Output = BigInt; fn shr(self, n: $t) -> BigInt { Integer::div_floor(self, &C(Big::one() << n)) } }
    )*};
}
shifts!(u8, u16, u32, u64, usize, i32);

impl std::ops::Neg for BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        -&self
    }
}
impl std::ops::Neg for &BigInt {
    type Output = BigInt;
    fn neg(self) -> BigInt {
        match self {
            C(b) => C(-b),
            S(p) => BigInt::from_poly(p.neg()),
        }
    }
}
impl std::ops::Not for BigInt {
    type Output = BigInt;
    fn not(self) -> BigInt {
        -self - 1
    }
}
impl std::iter::Sum for BigInt {
    fn sum<I: Iterator<Item = BigInt>>(it: I) -> BigInt {
        it.fold(BigInt::zero(), |a, b| a + b)
    }
}
impl<'a> std::iter::Sum<&'a BigInt> for BigInt {
    fn sum<I: Iterator<Item = &'a BigInt>>(it: I) -> BigInt {
        it.fold(BigInt::zero(), |a, b| a + b)
    }
}
impl std::iter::Product for BigInt {
    fn product<I: Iterator<Item = BigInt>>(it: I) -> BigInt {
        it.fold(BigInt::one(), |a, b| a * b)
    }
}
impl<'a> std::iter::Product<&'a BigInt> for BigInt {
    fn product<I: Iterator<Item = &'a BigInt>>(it: I) -> BigInt {
        it.fold(BigInt::one(), |a, b| a * b)
    }
}

// ------------------------------------------------------------------ num-traits
impl Zero for BigInt {
    fn zero() -> Self {
        C(Big::zero())
    }
    fn is_zero(&self) -> bool {
        match self {
            C(b) => b.is_zero(),
            S(p) => poly_cmp(0, p, &Poly::zero()),
        }
    }
}
impl One for BigInt {
    fn one() -> Self {
        C(Big::one())
    }
    fn is_one(&self) -> bool {
        match self {
            C(b) => b.is_one(),
            S(p) => poly_cmp(0, p, &Poly::one()),
        }
    }
}
impl Num for BigInt {
    type FromStrRadixErr = ParseBigIntError;
    fn from_str_radix(s: &str, radix: u32) -> Result<Self, ParseBigIntError> {
        Big::from_str_radix(s, radix).map(C)
    }
}
impl Signed for BigInt {
    fn abs(&self) -> Self {
        match self {
            C(b) => C(b.abs()),
            S(p) => BigInt::from_poly(symrt::with(|c| c.abs(p))),
        }
    }
    fn abs_sub(&self, o: &Self) -> Self {
        if self <= o {
            Self::zero()
        } else {
            self - o
        }
    }
    fn signum(&self) -> Self {
        match self.sign() {
            Sign::Minus => C(-Big::one()),
            Sign::NoSign => C(Big::zero()),
            Sign::Plus => C(Big::one()),
        }
    }
    fn is_positive(&self) -> bool {
        match self {
            C(b) => b.is_positive(),
            S(p) => poly_cmp(4, p, &Poly::zero()),
        }
    }
    fn is_negative(&self) -> bool {
        match self {
            C(b) => b.is_negative(),
            S(p) => poly_cmp(2, p, &Poly::zero()),
        }
    }
}
fn in_range(p: &Poly, lo: i128, hi: i128) -> bool {
    let (lo, hi) = (Poly::big(Big::from(lo)), Poly::big(Big::from(hi)));
    symrt::decide(&Cond::and(vec![Cond::le(&lo, p), Cond::le(p, &hi)]))
}
impl ToPrimitive for BigInt {
    fn to_i64(&self) -> Option<i64> {
        match self {
            C(b) => b.to_i64(),
            S(p) => {
                if in_range(p, i64::MIN as i128, i64::MAX as i128) {
                    Some(i_mk(symrt::norm(p)))
                } else {
                    None
                }
            }
        }
    }
    fn to_isize(&self) -> Option<isize> {
        self.to_i64().map(|x| x as isize)
    }
    fn to_i128(&self) -> Option<i128> {
        self.conc().to_i128()
    }
    fn to_u64(&self) -> Option<u64> {
        match self {
            C(b) => b.to_u64(),
            S(p) => {
                if in_range(p, 0, u64::MAX as i128) {
                    self.conc().to_u64()
                } else {
                    None
                }
            }
        }
    }
    fn to_usize(&self) -> Option<usize> {
        self.to_u64().map(|x| x as usize)
    }
    fn to_u128(&self) -> Option<u128> {
        self.conc().to_u128()
    }
    fn to_i32(&self) -> Option<i32> {
        match self {
            C(b) => b.to_i32(),
            S(p) => {
                if in_range(p, i32::MIN as i128, i32::MAX as i128) {
                    self.conc().to_i32()
                } else {
                    None
                }
            }
        }
    }
    fn to_u32(&self) -> Option<u32> {
        match self {
            C(b) => b.to_u32(),
            S(p) => {
                if in_range(p, 0, u32::MAX as i128) {
                    self.conc().to_u32()
                } else {
                    None
                }
            }
        }
    }
    fn to_f64(&self) -> Option<f64> {
        match self {
            C(b) => b.to_f64(),
            S(p) => Some(int_to_f(p)),
        }
    }
    fn to_f32(&self) -> Option<f32> {
        self.conc().to_f32()
    }
}
impl FromPrimitive for BigInt {
    fn from_i64(n: i64) -> Option<Self> {
        Some(BigInt::from(n))
    }
    fn from_u64(n: u64) -> Option<Self> {
        Some(BigInt::from(n))
    }
    fn from_i128(n: i128) -> Option<Self> {
        Some(BigInt::from(n))
    }
    fn from_u128(n: u128) -> Option<Self> {
        Some(BigInt::from(n))
    }
    fn from_isize(n: isize) -> Option<Self> {
        Some(BigInt::from(n))
    }
    fn from_f64(n: f64) -> Option<Self> {
        match symrt::hooks::f_sym(n) {
            None => Big::from_f64(n).map(C),
            Some(_) => {
                // truncation towards zero through the machine type when it fits
                let t = symrt::hooks::f64_to_i64(n);
                Some(BigInt::from(t))
            }
        }
    }
}
impl num_traits::CheckedAdd for BigInt {
    fn checked_add(&self, v: &BigInt) -> Option<BigInt> {
        Some(self + v)
    }
}
impl num_traits::CheckedSub for BigInt {
    fn checked_sub(&self, v: &BigInt) -> Option<BigInt> {
        Some(self - v)
    }
}
impl num_traits::CheckedMul for BigInt {
    fn checked_mul(&self, v: &BigInt) -> Option<BigInt> {
        Some(self * v)
    }
}
impl num_traits::CheckedDiv for BigInt {
    fn checked_div(&self, v: &BigInt) -> Option<BigInt> {
        BigInt::checked_div(self, v)
    }
}
macro_rules! pow_impl {
    ($($t:ty),*) => {$(
        impl Pow<$t> for BigInt { type Output = BigInt; fn pow(self, e: $t) -> BigInt { pow_n(&self, &Big::from(e)) } }
        impl Pow<$t> for &BigInt { type Output = BigInt; fn pow(self, e: $t) -> BigInt { pow_n(self, &Big::from(e)) } }
        impl Pow<&$t> for BigInt { type Output = BigInt; fn pow(self, e: &$t) -> BigInt { pow_n(&self, &Big::from(*e)) } }
        impl Pow<&$t> for &BigInt { type Output = BigInt; fn pow(self, e: &$t) -> BigInt { pow_n(self, &Big::from(*e)) } }
    )*};
}
pow_impl!(u8, u16, u32, u64, u128, usize);
impl Pow<BigUint> for BigInt {
    type Output = BigInt;
    fn pow(self, e: BigUint) -> BigInt {
        pow_n(&self, &Big::from(e))
    }
}
impl Pow<BigUint> for &BigInt {
    type Output = BigInt;
    fn pow(self, e: BigUint) -> BigInt {
        pow_n(self, &Big::from(e))
    }
}
impl Pow<&BigUint> for BigInt {
    type Output = BigInt;
    fn pow(self, e: &BigUint) -> BigInt {
        pow_n(&self, &Big::from(e.clone()))
    }
}
impl Pow<&BigUint> for &BigInt {
    type Output = BigInt;
    fn pow(self, e: &BigUint) -> BigInt {
        pow_n(self, &Big::from(e.clone()))
    }
}
impl Roots for BigInt {
    fn nth_root(&self, n: u32) -> Self {
        C(self.conc().nth_root(n))
    }
}
impl Integer for BigInt {
    fn div_rem(&self, o: &BigInt) -> (BigInt, BigInt) {
        divrem(self, o)
    }
    fn div_floor(&self, o: &BigInt) -> BigInt {
        self.div_mod_floor(o).0
    }
    fn mod_floor(&self, o: &BigInt) -> BigInt {
        self.div_mod_floor(o).1
    }
    fn div_mod_floor(&self, o: &BigInt) -> (BigInt, BigInt) {
        let (q, r) = divrem(self, o);
        if r.is_zero() {
            return (q, r);
        }
        if r.is_negative() != o.is_negative() {
            (q - 1, r + o)
        } else {
            (q, r)
        }
    }
    fn gcd(&self, o: &BigInt) -> BigInt {
        match (self, o) {
            (C(a), C(b)) => C(a.gcd(b)),
            _ => {
                let (a, b) = (self.poly(), o.poly());
                BigInt::from_poly(symrt::with(|c| c.gcd(&a, &b)))
            }
        }
    }
    fn lcm(&self, o: &BigInt) -> BigInt {
        if let (C(a), C(b)) = (self, o) {
            return C(a.lcm(b));
        }
        if self.is_zero() && o.is_zero() {
            return BigInt::zero();
        }
        let g = self.gcd(o);
        (self.clone() * (o / &g)).abs()
    }
    fn extended_gcd(&self, o: &BigInt) -> ExtendedGcd<BigInt> {
        let e = self.conc().extended_gcd(&o.conc());
        ExtendedGcd { gcd: C(e.gcd), x: C(e.x), y: C(e.y) }
    }
    fn divides(&self, o: &BigInt) -> bool {
        self.is_multiple_of(o)
    }
    fn is_multiple_of(&self, o: &BigInt) -> bool {
        if o.is_zero() {
            return self.is_zero();
        }
        rem(self, o).is_zero()
    }
    fn is_even(&self) -> bool {
        rem(self, &C(Big::from(2))).is_zero()
    }
    fn is_odd(&self) -> bool {
        !self.is_even()
    }
}
#[allow(unused)]
fn keep(_: Q, _: Rel) {}
