//! Entry points the compiler driver calls for primitive operations on `f64`, `isize` and `i64`.
//! A symbolic number travels through the compiled code as a tagged bit pattern.
use crate::engine::*;
use crate::poly::{Poly, Q};
use num_bigint::BigInt;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cmp::Ordering;

const FTAG: u64 = 0x7FF4_5E5A_0000_0000;
const ITAG: u64 = 0x5E5A_C0DE_0000_0000;
const MASK: u64 = 0xFFFF_FFFF_0000_0000;

pub fn f_sym(v: f64) -> Option<(Poly, Poly)> {
    let b = v.to_bits();
    if b & MASK == FTAG && active() {
        Some(with(|c| {
            let (n, d) = c.fterms[(b & !MASK) as usize].clone();
            (c.norm(&n), c.norm(&d))
        }))
    } else {
        None
    }
}
pub fn i_sym(v: i64) -> Option<Poly> {
    let b = v as u64;
    if b & MASK == ITAG && active() {
        with(|c| {
            let i = (b & !MASK) as usize;
            if i < c.iterms.len() {
                Some(c.norm(&c.iterms[i]))
            } else {
                None
            }
        })
    } else {
        None
    }
}
pub fn f_mk(n: Poly, d: Poly) -> f64 {
    if let (Some(x), Some(y)) = (n.constant(), d.constant()) {
        return q_to_f64(&(x / y));
    }
    with(|c| {
        c.fterms.push((n, d));
        f64::from_bits(FTAG | (c.fterms.len() - 1) as u64)
    })
}
/// symbolic isize/i64 from a term known to lie in range
pub fn i_mk(p: Poly) -> i64 {
    if let Some(k) = p.constant() {
        if let Some(v) = k.numer().to_i64() {
            return v;
        }
    }
    with(|c| {
        c.iterms.push(p);
        (ITAG | (c.iterms.len() - 1) as u64) as i64
    })
}

// ------------------------------------------------------------------ f64

fn f_parts(v: f64) -> Option<(Poly, Poly)> {
    if let Some(x) = f_sym(v) {
        return Some(x);
    }
    f64_to_q(v).map(|q| (Poly::c(q), Poly::one()))
}

#[inline(never)]
pub fn f64_conc(v: f64) -> f64 {
    match f_sym(v) {
        None => v,
        Some((n, d)) => {
            let d = concretise(&d);
            let n = concretise(&n);
            q_to_f64(&(n / d))
        }
    }
}
#[inline(never)]
pub fn f64_conc_ref(v: &f64) -> &'static f64 {
    Box::leak(Box::new(f64_conc(*v)))
}

fn native_bin(op: u8, a: f64, b: f64) -> f64 {
    match op {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        3 => a / b,
        _ => a % b,
    }
}

#[inline(never)]
pub fn f64_bin(op: u8, a: f64, b: f64) -> f64 {
    let (sa, sb) = (f_sym(a), f_sym(b));
    if sa.is_none() && sb.is_none() {
        return native_bin(op, a, b);
    }
    // infinities, NaN and remainders: concrete
    if op == 4 || (sa.is_none() && !a.is_finite()) || (sb.is_none() && !b.is_finite()) {
        return native_bin(op, f64_conc(a), f64_conc(b));
    }
    let (an, ad) = f_parts(a).unwrap();
    let (bn, bd) = f_parts(b).unwrap();
    let one = Poly::one();
    match op {
        0 | 1 => {
            let bn = if op == 1 { bn.neg() } else { bn };
            if ad == bd {
                f_mk(an.add(&bn), ad)
            } else {
                f_mk(an.mul(&bd).add(&bn.mul(&ad)), ad.mul(&bd))
            }
        }
        2 => {
            // keep fractions small: cancel equal parts
            if an == bd {
                return f_mk(bn, ad);
            }
            if bn == ad {
                return f_mk(an, bd);
            }
            f_mk(an.mul(&bn), ad.mul(&bd))
        }
        _ => {
            if decide(&Cond::Cmp(bn.clone(), Rel::Eq)) {
                // division by zero: +-inf or NaN
                let s = if decide(&Cond::Cmp(an.clone(), Rel::Eq)) {
                    f64::NAN
                } else if f64_cmp(4, a, 0.0) {
                    f64::INFINITY
                } else {
                    f64::NEG_INFINITY
                };
                return s;
            }
            let bn = norm(&bn);
            if let Some(k) = bn.constant() {
                let inv = Q::one() / k;
                return f_mk(an.mul(&bd).scale(&inv), ad);
            }
            if an == bn {
                return f_mk(bd, ad);
            }
            let _ = one;
            f_mk(an.mul(&bd), ad.mul(&bn))
        }
    }
}

fn sign_cond(n: &Poly, d: &Poly, op: u8) -> Cond {
    // relation of n/d with zero
    let p = if d.constant().map_or(false, |k| k.is_positive()) { n.clone() } else { n.mul(d) };
    match op {
        0 => Cond::Cmp(n.clone(), Rel::Eq),
        1 => Cond::Cmp(n.clone(), Rel::Ne),
        2 => Cond::Cmp(p, Rel::Lt),
        3 => Cond::Cmp(p, Rel::Le),
        4 => Cond::Cmp(p.neg(), Rel::Lt),
        _ => Cond::Cmp(p.neg(), Rel::Le),
    }
}

#[inline(never)]
pub fn f64_cmp(op: u8, a: f64, b: f64) -> bool {
    let (sa, sb) = (f_sym(a), f_sym(b));
    if sa.is_none() && sb.is_none() {
        return match op {
            0 => a == b,
            1 => a != b,
            2 => a < b,
            3 => a <= b,
            4 => a > b,
            _ => a >= b,
        };
    }
    // any finite stand-in compares the same way with infinities and NaN
    if sa.is_none() && !a.is_finite() {
        return f64_cmp(op, a, 0.5);
    }
    if sb.is_none() && !b.is_finite() {
        return f64_cmp(op, 0.5, b);
    }
    let (an, ad) = f_parts(a).unwrap();
    let (bn, bd) = f_parts(b).unwrap();
    let (n, d) = if ad == bd { (an.sub(&bn), ad) } else { (an.mul(&bd).sub(&bn.mul(&ad)), ad.mul(&bd)) };
    decide(&sign_cond(&n, &d, op))
}
#[inline(never)]
pub fn f64_neg(a: f64) -> f64 {
    match f_sym(a) {
        None => -a,
        Some((n, d)) => f_mk(n.neg(), d),
    }
}
#[inline(never)]
pub fn f64_abs(a: f64) -> f64 {
    match f_sym(a) {
        None => a.abs(),
        Some(_) => {
            if f64_cmp(2, a, 0.0) {
                f64_neg(a)
            } else {
                a
            }
        }
    }
}
#[inline(never)]
pub fn f64_powi(a: f64, n: i32) -> f64 {
    match f_sym(a) {
        None => a.powi(n),
        Some(_) => f64_powf(a, n as f64),
    }
}
#[inline(never)]
pub fn f64_powf(a: f64, n: f64) -> f64 {
    if f_sym(a).is_none() && f_sym(n).is_none() {
        return a.powf(n);
    }
    let e = f64_conc(n);
    if f_sym(a).is_none() {
        return a.powf(e);
    }
    if e.fract() == 0.0 && e.abs() <= 16.0 {
        let (n, d) = f_sym(a).unwrap();
        let k = e.abs() as u32;
        if e >= 0.0 {
            return f_mk(n.pow(k), d.pow(k));
        }
        if decide(&Cond::Cmp(n.clone(), Rel::Eq)) {
            return f64::INFINITY;
        }
        let (n, d) = (norm(&n), norm(&d));
        let np = n.pow(k);
        if let Some(c) = np.constant() {
            return f_mk(d.pow(k).scale(&(Q::one() / c)), Poly::one());
        }
        return f_mk(d.pow(k), np);
    }
    f64_conc(a).powf(e)
}
macro_rules! rounding {
    ($name:ident, $m:ident) => {
        #[inline(never)]
        pub fn $name(a: f64) -> f64 {
            match f_sym(a) {
                None => a.$m(),
                Some((n, d)) => {
                    if d.constant().map_or(false, |k| k.is_one()) && with(|c| is_int_term(c, &n)) {
                        return a;
                    }
                    f64_conc(a).$m()
                }
            }
        }
    };
}
rounding!(f64_round, round);
rounding!(f64_trunc, trunc);
rounding!(f64_floor, floor);
rounding!(f64_ceil, ceil);

fn imin() -> Poly {
    Poly::int(i64::MIN)
}
fn imax() -> Poly {
    Poly::int(i64::MAX)
}

fn f_to_i(a: f64) -> i64 {
    match f_sym(a) {
        None => a as i64,
        Some((n, d)) => {
            let d = concretise(&d);
            let p = norm(&n).scale(&(Q::one() / d));
            if decide(&Cond::lt(&imax(), &p)) {
                return i64::MAX;
            }
            if decide(&Cond::lt(&p, &imin())) {
                return i64::MIN;
            }
            let p = norm(&p);
            with(|c| {
                if is_int_term(c, &p) {
                    p
                } else {
                    new_trunc(c, &p)
                }
            })
            .pipe(i_mk)
        }
    }
}
trait Pipe: Sized {
    fn pipe<R>(self, f: impl FnOnce(Self) -> R) -> R {
        f(self)
    }
}
impl Pipe for Poly {}

/// f64 nearest to an integer term
pub fn int_to_f(p: &Poly) -> f64 {
    let p = norm(p);
    let lim = Poly::big(BigInt::one() << 53u32);
    let small = Cond::and(vec![Cond::le(&lim.neg(), &p), Cond::le(&p, &lim)]);
    if decide(&small) {
        f_mk(norm(&p), Poly::one())
    } else {
        // rounding matters: a few values only, the rest is out of bounds
        if !with(|c| c.allow_rounding) {
            std::panic::panic_any(Abort("outside bounds: integers above 2^53 turned into floating point".into()));
        }
        q_to_f64(&with(|c| {
            c.rounded = true;
            c.concretise_some(&p, 2, "outside bounds: further integers above 2^53 turned into floating point")
        }))
    }
}

// ------------------------------------------------------------------ isize / i64

pub fn i_conc(v: i64) -> i64 {
    match i_sym(v) {
        None => v,
        Some(p) => concretise(&p).numer().to_i64().expect("symrt: term out of machine range"),
    }
}
fn i_parts(v: i64) -> Poly {
    i_sym(v).unwrap_or_else(|| Poly::int(v))
}
fn wrap(p: Poly) -> (Poly, bool) {
    let m = Q::from_integer(BigInt::one() << 64u32);
    let ok = Cond::and(vec![Cond::le(&imin(), &p), Cond::le(&p, &imax())]);
    if decide(&ok) {
        return (norm(&p), false);
    }
    // out of range: which multiple of 2^64?  one value at a time
    let v = concretise(&p);
    let w = num_integer::Integer::mod_floor(&(v.numer() + (BigInt::one() << 63u32)), m.numer()) - (BigInt::one() << 63u32);
    (Poly::big(w), true)
}
fn i_bin(op: u8, a: i64, b: i64) -> i64 {
    if i_sym(a).is_none() && i_sym(b).is_none() {
        return match op {
            0 => a.wrapping_add(b),
            1 => a.wrapping_sub(b),
            2 => a.wrapping_mul(b),
            3 => a.wrapping_div(b),
            _ => a.wrapping_rem(b),
        };
    }
    let (x, y) = (i_parts(a), i_parts(b));
    match op {
        0 => i_mk(wrap(x.add(&y)).0),
        1 => i_mk(wrap(x.sub(&y)).0),
        2 => i_mk(wrap(x.mul(&y)).0),
        _ => {
            let (q, r) = with(|c| c.quotrem_sym(&x, &y));
            i_mk(wrap(if op == 3 { q } else { r }).0)
        }
    }
}
fn i_ovf(op: u8, a: i64, b: i64) -> (i64, bool) {
    if i_sym(a).is_none() && i_sym(b).is_none() {
        return match op {
            0 => a.overflowing_add(b),
            1 => a.overflowing_sub(b),
            _ => a.overflowing_mul(b),
        };
    }
    let (x, y) = (i_parts(a), i_parts(b));
    let (p, o) = wrap(match op {
        0 => x.add(&y),
        1 => x.sub(&y),
        _ => x.mul(&y),
    });
    (i_mk(p), o)
}
pub fn poly_cmp(op: u8, x: &Poly, y: &Poly) -> bool {
    let p = x.sub(y);
    let c = match op {
        0 => Cond::Cmp(p, Rel::Eq),
        1 => Cond::Cmp(p, Rel::Ne),
        2 => Cond::Cmp(p, Rel::Lt),
        3 => Cond::Cmp(p, Rel::Le),
        4 => Cond::Cmp(p.neg(), Rel::Lt),
        _ => Cond::Cmp(p.neg(), Rel::Le),
    };
    decide(&c)
}
pub fn poly_ord(x: &Poly, y: &Poly) -> Ordering {
    if poly_cmp(0, x, y) {
        Ordering::Equal
    } else if poly_cmp(2, x, y) {
        Ordering::Less
    } else {
        Ordering::Greater
    }
}
fn i_cmp(op: u8, a: i64, b: i64) -> bool {
    if i_sym(a).is_none() && i_sym(b).is_none() {
        return match op {
            0 => a == b,
            1 => a != b,
            2 => a < b,
            3 => a <= b,
            4 => a > b,
            _ => a >= b,
        };
    }
    poly_cmp(op, &i_parts(a), &i_parts(b))
}
fn i_ord(a: i64, b: i64) -> Ordering {
    if i_sym(a).is_none() && i_sym(b).is_none() {
        return a.cmp(&b);
    }
    poly_ord(&i_parts(a), &i_parts(b))
}
fn i_neg(a: i64) -> i64 {
    match i_sym(a) {
        None => a.wrapping_neg(),
        Some(p) => i_mk(wrap(p.neg()).0),
    }
}
fn i_to_f(a: i64) -> f64 {
    match i_sym(a) {
        None => a as f64,
        Some(p) => int_to_f(&p),
    }
}

macro_rules! int_hooks {
    ($t:ty, $bin:ident, $ovf:ident, $cmp:ident, $ord:ident, $neg:ident, $conc:ident, $cref:ident, $tof:ident, $fromf:ident) => {
        #[inline(never)]
        pub fn $bin(op: u8, a: $t, b: $t) -> $t {
            i_bin(op, a as i64, b as i64) as $t
        }
        #[inline(never)]
        pub fn $ovf(op: u8, a: $t, b: $t) -> ($t, bool) {
            let (x, o) = i_ovf(op, a as i64, b as i64);
            (x as $t, o)
        }
        #[inline(never)]
        pub fn $cmp(op: u8, a: $t, b: $t) -> bool {
            i_cmp(op, a as i64, b as i64)
        }
        #[inline(never)]
        pub fn $ord(_op: u8, a: $t, b: $t) -> Ordering {
            i_ord(a as i64, b as i64)
        }
        #[inline(never)]
        pub fn $neg(a: $t) -> $t {
            i_neg(a as i64) as $t
        }
        #[inline(never)]
        pub fn $conc(a: $t) -> $t {
            i_conc(a as i64) as $t
        }
        #[inline(never)]
        pub fn $cref(a: &$t) -> &'static $t {
            Box::leak(Box::new(i_conc(*a as i64) as $t))
        }
        #[inline(never)]
        pub fn $tof(a: $t) -> f64 {
            i_to_f(a as i64)
        }
        #[inline(never)]
        pub fn $fromf(a: f64) -> $t {
            f_to_i(a) as $t
        }
    };
}
int_hooks!(isize, isize_bin, isize_ovf, isize_cmp, isize_ord, isize_neg, isize_conc, isize_conc_ref, isize_to_f64, f64_to_isize);
int_hooks!(i64, i64_bin, i64_ovf, i64_cmp, i64_ord, i64_neg, i64_conc, i64_conc_ref, i64_to_f64, f64_to_i64);

/// function entry: coverage, recursion depth and step limits
#[inline(never)]
pub fn enter(id: u64) {
    crate::engine::enter(id)
}
#[allow(dead_code)]
fn unused() {
    let _ = Q::zero();
}
/// `num::Float::integer_decode`
#[inline(never)]
pub fn f64_integer_decode(v: f64) -> (u64, i16, i8) {
    if crate::hashing::recording() {
        return (crate::hashing::record_float(v), 0, 0);
    }
    num_traits::Float::integer_decode(f64_conc(v))
}
