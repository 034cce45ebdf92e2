//! Native mode: one concrete assignment, read from a file, on the unmodified crate.
use num::bigint::BigInt;
use num_bigint::BigInt as Big;
use num_rational::BigRational as Q;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cell::RefCell;
use std::collections::HashMap;

pub const SYM: bool = false;
thread_local! {
    pub static INPUTS: RefCell<HashMap<String, String>> = RefCell::new(HashMap::new());
    pub static OBS: RefCell<Vec<String>> = RefCell::new(vec![]);
}
/// a failed check or an assumption that does not hold
pub enum Stop {
    Violation(String, String),
    OutOfScope(String),
}
#[derive(Clone, Debug)]
pub struct C(pub bool);
#[derive(Clone, Debug)]
pub struct Num {
    q: Q,
    pub approx: bool,
}
fn get(name: &str) -> Option<String> {
    INPUTS.with(|i| i.borrow().get(name).cloned())
}
fn getq(name: &str) -> Q {
    let s = get(name).unwrap_or_else(|| "0".into());
    match s.split_once('/') {
        Some((a, b)) => Q::new(a.parse().unwrap(), b.parse().unwrap()),
        None => Q::from_integer(s.parse().unwrap()),
    }
}
pub fn choice(name: &str, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    get(name).and_then(|s| s.parse().ok()).unwrap_or(0)
}
pub fn int(name: &str, _lo: &Big, _hi: &Big) -> BigInt {
    getq(name).numer().clone()
}
pub fn real(name: &str, _range: i64, den: i64) -> f64 {
    let q = getq(name) / Q::from_integer(Big::from(den));
    q.numer().to_f64().unwrap() / q.denom().to_f64().unwrap()
}
pub fn real_scaled(name: &str, _range: i64, exp: i32) -> f64 {
    getq(name).to_f64().unwrap() * 2f64.powi(exp)
}
pub fn value(name: &str) -> Num {
    Num { q: getq(name), approx: false }
}
pub fn positive_value(name: &str) -> Num {
    let v = value(name);
    assume(&v.pos_c());
    v
}
pub fn stop(s: Stop) -> ! {
    std::panic::panic_any(s)
}
/// the number, when it is a concrete one
pub fn plain(v: f64) -> Option<f64> {
    Some(v)
}
pub fn show_f(v: f64) -> String {
    format!("{:?}", v)
}
pub fn assume(c: &C) {
    if !c.0 {
        stop(Stop::OutOfScope("assumption".into()))
    }
}
pub fn check(label: &str, c: &C, detail: impl FnOnce() -> String) {
    if !c.0 {
        stop(Stop::Violation(label.to_string(), detail()))
    }
}
pub fn fail(label: &str, detail: String) -> ! {
    stop(Stop::Violation(label.to_string(), detail))
}
pub fn witness(_l: &str) {}
pub fn observe(f: impl FnOnce() -> String + 'static) {
    let s = f();
    OBS.with(|o| o.borrow_mut().push(s))
}
pub fn decide(c: &C) -> bool {
    c.0
}
pub fn allow_rounding() {}
pub fn symbolic_text(_on: bool) {}
pub fn token(_s: &str) -> Option<Num> {
    None
}
pub fn explore_orders() {}
pub fn pin_order() {}
pub fn same_hash<T: std::hash::Hash>(a: &T, b: &T) -> bool {
    use std::hash::Hasher;
    let mut x = std::collections::hash_map::DefaultHasher::new();
    let mut y = std::collections::hash_map::DefaultHasher::new();
    a.hash(&mut x);
    b.hash(&mut y);
    x.finish() == y.finish()
}
pub fn reset() {}

impl C {
    pub fn known(&self) -> Option<bool> {
        Some(self.0)
    }
    pub fn t(b: bool) -> C {
        C(b)
    }
    pub fn not(&self) -> C {
        C(!self.0)
    }
    pub fn and(v: Vec<C>) -> C {
        C(v.iter().all(|c| c.0))
    }
    pub fn or(v: Vec<C>) -> C {
        C(v.iter().any(|c| c.0))
    }
}
impl Num {
    fn mk(q: Q, approx: bool) -> Num {
        Num { q, approx }
    }
    pub fn q(q: Q) -> Num {
        Num::mk(q, false)
    }
    pub fn int(i: i64) -> Num {
        Num::q(Q::from_integer(Big::from(i)))
    }
    pub fn big(b: &BigInt) -> Num {
        Num::q(Q::from_integer(b.clone()))
    }
    pub fn f(v: f64) -> Option<Num> {
        Q::from_float(v).map(|q| Num::mk(q, !super::exact()))
    }
    pub fn to_big(&self) -> Option<BigInt> {
        self.q.is_integer().then(|| self.q.numer().clone())
    }
    pub fn norm(&self) -> Num {
        self.clone()
    }
    pub fn add(&self, o: &Num) -> Num {
        Num::mk(&self.q + &o.q, self.approx || o.approx)
    }
    pub fn neg(&self) -> Num {
        Num::mk(-&self.q, self.approx)
    }
    pub fn sub(&self, o: &Num) -> Num {
        Num::mk(&self.q - &o.q, self.approx || o.approx)
    }
    pub fn mul(&self, o: &Num) -> Num {
        Num::mk(&self.q * &o.q, self.approx || o.approx)
    }
    pub fn inv(&self) -> Num {
        Num::mk(Q::one() / &self.q, self.approx)
    }
    pub fn powu(&self, k: u32) -> Num {
        let mut r = Q::one();
        for _ in 0..k {
            r = r * &self.q;
        }
        Num::mk(r, self.approx)
    }
    pub fn zero_c(&self) -> C {
        C(self.q.is_zero())
    }
    pub fn pos_c(&self) -> C {
        C(self.q.is_positive())
    }
    pub fn is_zero(&self) -> bool {
        self.q.is_zero()
    }
    pub fn is_pos(&self) -> bool {
        self.q.is_positive()
    }
    pub fn conc(&self) -> Q {
        self.q.clone()
    }
    pub fn constant(&self) -> Option<Q> {
        Some(self.q.clone())
    }
    pub fn eq(&self, o: &Num) -> C {
        C(if self.approx || o.approx { super::close(&self.q, &o.q) } else { self.q == o.q })
    }
    pub fn lt(&self, o: &Num) -> C {
        C(self.q < o.q)
    }
    pub fn finite_int(&self) -> Option<Q> {
        Some(self.q.clone())
    }
    pub fn small_int(&self) -> Num {
        self.clone()
    }
    pub fn pow_real(&self, e: &Num) -> Result<Num, String> {
        let v = super::q_f64(&self.q).powf(super::q_f64(&e.q));
        Num::f(v).ok_or_else(|| "limit: overflow".to_string())
    }
    pub fn log_real(&self, b: &Num) -> Num {
        let (q, exact) = super::qlog(&self.q, &b.q);
        Num::mk(q, self.approx || b.approx || !exact)
    }
    pub fn show(&self) -> String {
        self.q.to_string()
    }
}

/// this execution may take `k` times the usual number of steps
pub fn long_run(k: u64) {
    let _ = k;
}
