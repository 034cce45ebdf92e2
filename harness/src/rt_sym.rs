//! Symbolic mode: inputs are solver terms, conditions are decided by z3.
use num::bigint::BigInt;
use num_bigint::BigInt as Big;
use num_traits::{One, Signed, Zero};
use symrt::{Cond, Poly, Q};
pub use symrt::{fail, observe, witness};

#[derive(Clone, Debug)]
pub struct C(pub Cond);

/// exact value of an expression: a rational function of the inputs
#[derive(Clone, Debug)]
pub struct Num {
    pub n: Poly,
    pub d: Poly,
    /// obtained through floating point evaluation of constants: compared with a tolerance
    pub approx: bool,
}

pub const SYM: bool = true;

pub fn choice(name: &str, n: usize) -> usize {
    symrt::choice(name, n)
}
pub fn int(name: &str, lo: &Big, hi: &Big) -> BigInt {
    BigInt::from_poly(symrt::int_input(name, lo, hi))
}
/// a real number k/den with |k| <= range: sums and small products are exact in f64
pub fn real(name: &str, range: i64, den: i64) -> f64 {
    let p = symrt::int_input(name, &Big::from(-range), &Big::from(range));
    symrt::hooks::f_mk(p.scale(&Q::new(Big::one(), Big::from(den))), Poly::one())
}
/// k * 2^exp
pub fn real_scaled(name: &str, range: i64, exp: i32) -> f64 {
    let p = symrt::int_input(name, &Big::from(-range), &Big::from(range));
    let two = Big::one() << exp.unsigned_abs();
    let unit = if exp < 0 { Q::new(Big::one(), two) } else { Q::from_integer(two) };
    symrt::hooks::f_mk(p.scale(&unit), Poly::one())
}
/// value of a variable: any real number
pub fn value(name: &str) -> Num {
    Num { n: symrt::real_input(name, None, None), d: Poly::one(), approx: false }
}
pub fn positive_value(name: &str) -> Num {
    let n = symrt::real_input(name, Some(Q::zero()), None);
    symrt::assume(&Cond::lt(&Poly::zero(), &n));
    Num { n, d: Poly::one(), approx: false }
}
/// the number, when it is a concrete one
pub fn plain(v: f64) -> Option<f64> {
    symrt::hooks::f_sym(v).is_none().then_some(v)
}
pub fn show_f(v: f64) -> String {
    match symrt::hooks::f_sym(v) {
        Some((n, d)) => {
            let d = symrt::model_value(&d);
            format!("{:?}", symrt::q_to_f64(&(symrt::model_value(&n) / d)))
        }
        None => format!("{:?}", v),
    }
}
pub fn assume(c: &C) {
    symrt::assume(&c.0)
}
pub fn check(label: &str, c: &C, detail: impl FnOnce() -> String) {
    symrt::check(label, &c.0, detail)
}
pub fn decide(c: &C) -> bool {
    symrt::decide(&c.0)
}
pub fn allow_rounding() {
    symrt::with(|c| c.allow_rounding = true)
}
/// integers are written as tokens that stand for their terms (concretely: as digits)
pub fn symbolic_text(on: bool) {
    symrt::set_text_mode(on)
}
pub fn token(s: &str) -> Option<Num> {
    let k = s.strip_prefix('\u{27e6}')?.strip_suffix('\u{27e7}')?.parse().ok()?;
    symrt::token_term(k).map(|n| Num { n, d: Poly::one(), approx: false })
}
pub fn explore_orders() {
    symrt::set_order_mode(1)
}
pub fn pin_order() {
    symrt::set_order_mode(0)
}
/// equality of everything the two values feed to a hasher
pub fn same_hash<T: std::hash::Hash>(a: &T, b: &T) -> bool {
    let x = symrt::hashing::stream(a);
    let y = symrt::hashing::stream(b);
    symrt::hashing::same(&x, &y)
}

impl C {
    /// decided without asking the solver
    pub fn known(&self) -> Option<bool> {
        fn of(c: &Cond) -> Option<bool> {
            match c {
                Cond::Const(b) => Some(*b),
                Cond::And(v) => {
                    let k: Vec<_> = v.iter().map(of).collect();
                    if k.contains(&Some(false)) {
                        Some(false)
                    } else if k.iter().all(|x| *x == Some(true)) {
                        Some(true)
                    } else {
                        None
                    }
                }
                Cond::Or(v) => {
                    let k: Vec<_> = v.iter().map(of).collect();
                    if k.contains(&Some(true)) {
                        Some(true)
                    } else if k.iter().all(|x| *x == Some(false)) {
                        Some(false)
                    } else {
                        None
                    }
                }
                Cond::Cmp(p, r) => p.constant().map(|k| match r {
                    symrt::engine::Rel::Eq => k.is_zero(),
                    symrt::engine::Rel::Ne => !k.is_zero(),
                    symrt::engine::Rel::Lt => k.is_negative(),
                    symrt::engine::Rel::Le => !k.is_positive(),
                }),
            }
        }
        of(&self.0)
    }
    pub fn t(b: bool) -> C {
        C(Cond::Const(b))
    }
    pub fn not(&self) -> C {
        C(self.0.not())
    }
    pub fn and(v: Vec<C>) -> C {
        C(Cond::And(v.into_iter().map(|c| c.0).collect()))
    }
    pub fn or(v: Vec<C>) -> C {
        C(Cond::Or(v.into_iter().map(|c| c.0).collect()))
    }
}

#[path = "algebra.rs"]
mod algebra;
use super::{exact_root, q_f64, qlog, qroot};
pub fn reset() {
    algebra::reset();
}

/// coefficients that came out of an inexact floating point computation
fn coarse(p: &Poly) -> bool {
    p.0.iter().any(|(_, q)| q.denom().bits() > 31 || q.numer().bits() >= 46)
}
fn abs_le(x: &Poly, y: &Poly) -> C {
    let le = |a: &Poly, b: &Poly| C(Cond::le(a, b));
    let (mx, my) = (x.neg(), y.neg());
    C::or(vec![C::and(vec![le(x, y), le(&mx, y)]), C::and(vec![le(x, &my), le(&mx, &my)])])
}

impl Num {
    fn raw(n: Poly, d: Poly, approx: bool) -> Num {
        if let Some(k) = d.constant() {
            if !k.is_one() {
                return Num { n: n.scale(&(Q::one() / k)), d: Poly::one(), approx };
            }
        }
        Num { n, d, approx }
    }
    pub fn q(q: Q) -> Num {
        Num { n: Poly::c(q), d: Poly::one(), approx: false }
    }
    pub fn int(i: i64) -> Num {
        Num::q(Q::from_integer(Big::from(i)))
    }
    pub fn big(b: &BigInt) -> Num {
        Num { n: b.poly(), d: Poly::one(), approx: false }
    }
    pub fn f(v: f64) -> Option<Num> {
        if let Some((n, d)) = symrt::hooks::f_sym(v) {
            let approx = symrt::with(|c| c.rounded) || (!super::exact() && (coarse(&n) || coarse(&d)));
            return Some(Num::raw(n, d, approx));
        }
        symrt::f64_to_q(v).map(|q| {
            // a value that is not a short binary fraction came out of an inexact computation
            let approx = !super::exact() && (q.denom().bits() > 31 || q.numer().bits() >= 46);
            Num { n: Poly::c(q), d: Poly::one(), approx }
        })
    }
    /// the integer it is
    pub fn to_big(&self) -> Option<BigInt> {
        let s = self.norm();
        if s.d.constant().map_or(true, |k| !k.is_one()) {
            return None;
        }
        symrt::with(|c| symrt::is_int_term(c, &s.n)).then(|| BigInt::from_poly(s.n.clone()))
    }
    pub fn norm(&self) -> Num {
        Num::raw(symrt::norm(&self.n), symrt::norm(&self.d), self.approx)
    }
    pub fn add(&self, o: &Num) -> Num {
        let a = self.approx || o.approx;
        if self.d == o.d {
            Num::raw(self.n.add(&o.n), self.d.clone(), a)
        } else {
            Num::raw(self.n.mul(&o.d).add(&o.n.mul(&self.d)), self.d.mul(&o.d), a)
        }
    }
    pub fn neg(&self) -> Num {
        Num { n: self.n.neg(), d: self.d.clone(), approx: self.approx }
    }
    pub fn sub(&self, o: &Num) -> Num {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Num) -> Num {
        let a = self.approx || o.approx;
        if self.n == o.d {
            return Num::raw(o.n.clone(), self.d.clone(), a);
        }
        if o.n == self.d {
            return Num::raw(self.n.clone(), o.d.clone(), a);
        }
        Num::raw(self.n.mul(&o.n), self.d.mul(&o.d), a)
    }
    /// only when known to be non-zero
    pub fn inv(&self) -> Num {
        Num::raw(self.d.clone(), self.n.clone(), self.approx)
    }
    pub fn powu(&self, k: u32) -> Num {
        Num { n: self.n.pow(k), d: self.d.pow(k), approx: self.approx }
    }
    pub fn zero_c(&self) -> C {
        C(Cond::eq(&self.n, &Poly::zero()))
    }
    pub fn pos_c(&self) -> C {
        let p = if self.d.constant().is_some() { self.n.clone() } else { self.n.mul(&self.d) };
        C(Cond::lt(&Poly::zero(), &p))
    }
    pub fn is_zero(&self) -> bool {
        symrt::decide(&self.zero_c().0)
    }
    pub fn is_pos(&self) -> bool {
        symrt::decide(&self.pos_c().0)
    }
    /// one concrete value, exploring all of them
    pub fn conc(&self) -> Q {
        let d = symrt::concretise(&self.d);
        symrt::concretise(&self.n) / d
    }
    pub fn constant(&self) -> Option<Q> {
        let s = self.norm();
        match (s.n.constant(), s.d.constant()) {
            (Some(a), Some(b)) => Some(a / b),
            _ => None,
        }
    }
    pub fn eq(&self, o: &Num) -> C {
        if self.approx || o.approx {
            if let (Some(a), Some(b)) = (self.constant(), o.constant()) {
                return C::t(super::close(&a, &b));
            }
            // |a - b| * 10^9 <= max(1, |a|, |b|)
            let diff = self.sub(o);
            let n = diff.n.scale(&Q::from_integer(Big::from(1_000_000_000u64)));
            let within = |m: &Num| abs_le(&n.mul(&m.d), &m.n.mul(&diff.d));
            return C::or(vec![within(&Num::int(1)), within(self), within(o)]);
        }
        if self.d == o.d {
            return C(Cond::eq(&self.n, &o.n));
        }
        C(Cond::eq(&self.n.mul(&o.d), &o.n.mul(&self.d)))
    }
    pub fn lt(&self, o: &Num) -> C {
        o.sub(self).pos_c()
    }
    fn split(&self, which: impl Fn(&symrt::Ctx, &Poly) -> bool, all: bool) -> Option<Num> {
        let s = self.norm();
        let mut atoms: Vec<u32> = s.n.atoms().into_iter().chain(s.d.atoms()).collect();
        let n = atoms.len();
        atoms.retain(|a| symrt::with(|c| which(c, &Poly::atom(*a))));
        if all && atoms.len() < n {
            return None;
        }
        for a in atoms {
            symrt::concretise(&Poly::atom(a));
        }
        Some(s.norm())
    }
    /// made of integer inputs only: their values are explored one by one
    pub fn finite_int(&self) -> Option<Q> {
        self.split(|c, p| symrt::is_int_term(c, p), true).and_then(|n| n.constant())
    }
    /// integer inputs with few values are explored value by value
    pub fn small_int(&self) -> Num {
        let few = |c: &symrt::Ctx, p: &Poly| {
            symrt::is_int_term(c, p) && matches!(c.interval(p), (Some(l), Some(h)) if &h - &l <= Q::from_integer(Big::from(64)))
        };
        self.split(few, false).unwrap_or_else(|| self.clone())
    }
    /// power of a positive base
    pub fn pow_real(&self, e: &Num) -> Result<Num, String> {
        algebra::pow(self, e)
    }
    pub fn log_real(&self, b: &Num) -> Num {
        algebra::log(self, b)
    }
    pub fn show(&self) -> String {
        let d = symrt::model_value(&self.d);
        if d.is_zero() {
            return "undefined".into();
        }
        (symrt::model_value(&self.n) / d).to_string()
    }
}
#[allow(dead_code)]
fn unused() {
    let _ = Q::one().abs();
}

/// this execution may take `k` times the usual number of steps
pub fn long_run(k: u64) {
    symrt::long_run(k)
}
