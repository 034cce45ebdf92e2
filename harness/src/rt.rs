//! The two faces of the harness: symbolic exploration and native replay share every line above this.
#[cfg(feature = "sym")]
#[path = "rt_sym.rs"]
mod imp;
#[cfg(not(feature = "sym"))]
#[path = "rt_native.rs"]
mod imp;
pub use imp::*;
use num_bigint::BigInt as Big;
use num_rational::BigRational as Q;
use num_traits::{One, Signed, ToPrimitive, Zero};

pub fn q_f64(q: &Q) -> f64 {
    let (n, d) = (q.numer(), q.denom());
    let s = n.bits().max(d.bits()).saturating_sub(900);
    (n >> s).to_f64().unwrap_or(f64::NAN) / (d >> s).to_f64().unwrap_or(f64::NAN)
}
pub fn close(a: &Q, b: &Q) -> bool {
    let one = Q::one();
    let m = [a.abs(), b.abs(), one].into_iter().max().unwrap();
    (a - b).abs() <= m / Q::from_integer(Big::from(1_000_000_000u64))
}
fn int_root(n: &Big, q: u32) -> Option<Big> {
    let r = n.nth_root(q);
    let mut p = Big::one();
    for _ in 0..q {
        p *= &r;
    }
    if p == *n {
        Some(r)
    } else {
        None
    }
}
/// q-th root of a positive rational, exact when possible
pub fn qroot(k: &Q, q: u32) -> Q {
    if let (Some(a), Some(b)) = (int_root(k.numer(), q), int_root(k.denom(), q)) {
        return Q::new(a, b);
    }
    Q::from_float(q_f64(k).powf(1.0 / q as f64)).unwrap_or_else(Q::zero)
}
pub fn exact_root(k: &Q, q: u32) -> bool {
    int_root(k.numer(), q).is_some() && int_root(k.denom(), q).is_some()
}
/// log of constants: exact rational when there is one with a small denominator
pub fn qlog(x: &Q, b: &Q) -> (Q, bool) {
    let l = q_f64(x).ln() / q_f64(b).ln();
    for d in 1..=6i64 {
        let p = (l * d as f64).round();
        if (l * d as f64 - p).abs() < 1e-9 && p.abs() < 4000.0 {
            let p = p as i64;
            let (mut lhs, mut rhs) = (Q::one(), Q::one());
            for _ in 0..d {
                lhs *= x;
            }
            for _ in 0..p.abs() {
                rhs *= b;
            }
            if p < 0 {
                rhs = Q::one() / rhs;
            }
            if lhs == rhs {
                return (Q::new(Big::from(p), Big::from(d)), true);
            }
        }
    }
    (Q::from_float(l).unwrap_or_else(Q::zero), false)
}

thread_local! {
    static EXACT: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static NAMES: std::cell::Cell<usize> = const { std::cell::Cell::new(0) };
    static SEQ: std::cell::RefCell<std::collections::BTreeMap<String, u32>> = Default::default();
}
fn fresh(name: &str) -> String {
    SEQ.with(|s| {
        let mut s = s.borrow_mut();
        let k = s.entry(name.to_string()).or_insert(0);
        *k += 1;
        if *k == 1 { name.to_string() } else { format!("{}.{}", name, k) }
    })
}
/// start of a run
pub fn begin() {
    SEQ.with(|s| s.borrow_mut().clear());
    EXACT.with(|e| e.set(false));
    NAMES.with(|n| n.set(0));
    imp::reset();
}
/// every real of this run is computed without rounding: compare them exactly, however small
pub fn exact_reals() {
    EXACT.with(|e| e.set(true))
}
/// which set of variable names is in use
pub fn use_names(k: usize) {
    NAMES.with(|n| n.set(k))
}
pub fn names_in_use() -> usize {
    NAMES.with(|n| n.get())
}
fn exact() -> bool {
    EXACT.with(|e| e.get())
}
/// one of `n` alternatives
pub fn choice(name: &str, n: usize) -> usize {
    imp::choice(&fresh(name), n)
}
pub fn pick<T: Clone>(name: &str, v: &[T]) -> T {
    v[choice(name, v.len())].clone()
}
pub fn flag(name: &str) -> bool {
    choice(name, 2) == 1
}
/// any integer in lo..=hi
pub fn int(name: &str, lo: i128, hi: i128) -> num::bigint::BigInt {
    imp::int(&fresh(name), &Big::from(lo), &Big::from(hi))
}
pub fn int_big(name: &str, lo: &Big, hi: &Big) -> num::bigint::BigInt {
    imp::int(&fresh(name), lo, hi)
}
/// any real k/den, |k| <= range
pub fn real(name: &str, range: i64, den: i64) -> f64 {
    imp::real(&fresh(name), range, den)
}
/// any real k * 2^exp, |k| <= range
pub fn real_scaled(name: &str, range: i64, exp: i32) -> f64 {
    imp::real_scaled(&fresh(name), range, exp)
}
pub fn value(name: &str) -> Num {
    imp::value(&fresh(name))
}
pub fn positive_value(name: &str) -> Num {
    imp::positive_value(&fresh(name))
}

use std::sync::atomic::{AtomicBool, Ordering};
static THOROUGH: AtomicBool = AtomicBool::new(false);
pub fn set_tier(t: bool) {
    THOROUGH.store(t, Ordering::SeqCst)
}
pub fn thorough() -> bool {
    THOROUGH.load(Ordering::SeqCst)
}
