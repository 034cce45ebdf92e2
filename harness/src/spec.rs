//! What expressions mean: construction recipes, and the value of recipes and of expressions.
use crate::rt::{self, Num, C};
use ncas::base::associative_operation::AssociativeOperation;
use ncas::base::commutative_association::CommutativeAssociation;
use ncas::base::expression::Expression;
use ncas::base::symbol::Symbol;
use num::bigint::BigInt;
use num_traits::{One, Signed, ToPrimitive, Zero};

/// a construction recipe
#[derive(Clone, Debug)]
pub enum T {
    Int(BigInt),
    Real(f64),
    Var(String),
    Add(Vec<T>),
    Mul(Vec<T>),
    Sub(Box<T>, Box<T>),
    Div(Box<T>, Box<T>),
    Neg(Box<T>),
    Pow(Box<T>, Box<T>),
    Log(Box<T>, Box<T>),
}
pub fn i(v: i64) -> T {
    T::Int(BigInt::from(v))
}
pub fn big(v: BigInt) -> T {
    T::Int(v)
}
pub fn r(v: f64) -> T {
    T::Real(v)
}
pub fn v(s: &str) -> T {
    T::Var(s.to_string())
}
pub fn add(x: Vec<T>) -> T {
    T::Add(x)
}
pub fn mul(x: Vec<T>) -> T {
    T::Mul(x)
}
pub fn sub(a: T, b: T) -> T {
    T::Sub(Box::new(a), Box::new(b))
}
pub fn div(a: T, b: T) -> T {
    T::Div(Box::new(a), Box::new(b))
}
pub fn neg(a: T) -> T {
    T::Neg(Box::new(a))
}
pub fn pow(a: T, b: T) -> T {
    T::Pow(Box::new(a), Box::new(b))
}
pub fn log(a: T, b: T) -> T {
    T::Log(Box::new(a), Box::new(b))
}

// ------------------------------------------------------------------ expressions
pub fn eint(v: BigInt) -> Expression {
    Expression::Integer(Symbol { data: v })
}
pub fn ereal(v: f64) -> Expression {
    Expression::Real(Symbol { data: v })
}
pub fn evar(s: &str) -> Expression {
    Expression::Variable(Symbol { data: s.to_string() })
}
pub fn raw_add(x: Vec<Expression>) -> Expression {
    Expression::Addition(CommutativeAssociation::new(x))
}
pub fn raw_mul(x: Vec<Expression>) -> Expression {
    Expression::Multiplication(CommutativeAssociation::new(x))
}
pub fn raw_pow(a: Expression, b: Expression) -> Expression {
    Expression::Power(AssociativeOperation::new(a, b))
}
pub fn raw_log(a: Expression, b: Expression) -> Expression {
    Expression::Logarithm(AssociativeOperation::new(a, b))
}

/// through the public constructors
pub fn build(t: &T) -> Expression {
    match t {
        T::Int(v) => eint(v.clone()),
        T::Real(v) => ereal(*v),
        T::Var(s) => evar(s),
        T::Add(x) => Expression::addition(x.iter().map(build).collect()),
        T::Mul(x) => Expression::multiplication(x.iter().map(build).collect()),
        T::Sub(a, b) => Expression::subtraction(build(a), build(b)),
        T::Div(a, b) => Expression::division(build(a), build(b)),
        T::Neg(a) => -build(a),
        T::Pow(a, b) => Expression::power(build(a), build(b)),
        T::Log(a, b) => Expression::logarithm(build(a), build(b)),
    }
}
/// the bare nodes, without any construction-time rewriting
pub fn build_raw(t: &T) -> Expression {
    match t {
        T::Int(v) => eint(v.clone()),
        T::Real(v) => ereal(*v),
        T::Var(s) => evar(s),
        T::Add(x) => raw_add(x.iter().map(build_raw).collect()),
        T::Mul(x) => raw_mul(x.iter().map(build_raw).collect()),
        T::Sub(a, b) => raw_add(vec![build_raw(a), raw_mul(vec![eint(BigInt::from(-1)), build_raw(b)])]),
        T::Div(a, b) => raw_mul(vec![build_raw(a), raw_pow(build_raw(b), eint(BigInt::from(-1)))]),
        T::Neg(a) => raw_mul(vec![eint(BigInt::from(-1)), build_raw(a)]),
        T::Pow(a, b) => raw_pow(build_raw(a), build_raw(b)),
        T::Log(a, b) => raw_log(build_raw(a), build_raw(b)),
    }
}

// ------------------------------------------------------------------ values
/// values of the variables
#[derive(Clone, Default)]
pub struct Env(pub Vec<(String, Num)>);
impl Env {
    pub fn set(&mut self, s: &str, n: Num) {
        self.0.push((s.to_string(), n));
    }
    pub fn get(&self, s: &str) -> Option<Num> {
        self.0.iter().rev().find(|x| x.0 == s).map(|x| x.1.clone())
    }
}
/// every listed variable stands for an arbitrary real
pub fn env(names: &[&str]) -> Env {
    let mut e = Env::default();
    for n in names {
        e.set(n, rt::value(&format!("val_{}", n)));
    }
    e
}

/// where a value is required to exist: assumed (for the recipe) or collected (for the result)
pub struct Ev {
    assume: bool,
    pub defs: Vec<C>,
}
impl Ev {
    pub fn assuming() -> Ev {
        Ev { assume: true, defs: vec![] }
    }
    pub fn collecting() -> Ev {
        Ev { assume: false, defs: vec![] }
    }
    fn need(&mut self, c: C) {
        if self.assume {
            rt::assume(&c)
        } else {
            self.defs.push(c)
        }
    }
    /// needed before anything else can be said
    fn must(&mut self, c: C, why: &str) -> Result<(), String> {
        if self.assume {
            rt::assume(&c);
            Ok(())
        } else if rt::decide(&c) {
            Ok(())
        } else {
            Err(why.to_string())
        }
    }

    pub fn pow(&mut self, b: &Num, e: &Num) -> Result<Num, String> {
        let e = match e.constant() {
            Some(k) => Num::q(k),
            None => match e.finite_int() {
                Some(k) => Num::q(k),
                None => e.clone(),
            },
        };
        if let Some(k) = e.constant() {
            if k.is_integer() {
                let n = k.numer().to_i64();
                if n.map_or(true, |n| n.unsigned_abs() > 64) {
                    // only 1 and -1 can be raised that far
                    let c = b.constant().ok_or("limit: exponent")?;
                    if c.is_one() {
                        return Ok(Num::int(1));
                    }
                    if (-&c).is_one() {
                        return Ok(Num::int(if k.numer() % 2u8 == Zero::zero() { 1 } else { -1 }));
                    }
                    if c.is_zero() && k.is_positive() {
                        return Ok(Num::int(0));
                    }
                }
                let n = n.filter(|n| n.unsigned_abs() <= 400).ok_or("limit: exponent")?;
                if n <= 0 {
                    self.need(b.zero_c().not());
                }
                let m = n.unsigned_abs() as u32;
                return Ok(if n >= 0 { b.powu(m) } else { b.inv().powu(m) });
            }
        }
        // fractional or unknown exponent: positive bases only
        self.must(b.pos_c(), "base of a non-integer power is not positive")?;
        b.small_int().pow_real(&e.small_int())
    }

    pub fn log(&mut self, x: &Num, b: &Num) -> Result<Num, String> {
        let one = Num::int(1);
        self.must(x.pos_c(), "logarithm of a non-positive number")?;
        self.must(b.pos_c(), "logarithm to a non-positive base")?;
        self.must(b.eq(&one).not(), "logarithm to base one")?;
        let b = b.small_int();
        Ok(x.small_int().log_real(&b))
    }

    pub fn expr(&mut self, x: &Expression, env: &Env) -> Result<Num, String> {
        match x {
            Expression::Integer(n) => Ok(Num::big(&n.data)),
            Expression::Real(r) => Num::f(r.data).ok_or_else(|| format!("real number {}", rt::show_f(r.data))),
            Expression::Variable(s) => env.get(&s.data).ok_or_else(|| format!("unknown variable {}", s.data)),
            Expression::Addition(a) => {
                let mut acc = Num::int(0);
                for it in a.items().iter() {
                    acc = acc.add(&self.expr(it, env)?);
                }
                Ok(acc)
            }
            Expression::Multiplication(a) => {
                let mut acc = Num::int(1);
                for it in a.items().iter() {
                    acc = acc.mul(&self.expr(it, env)?);
                }
                Ok(acc)
            }
            Expression::Power(p) => {
                let b = self.expr(&p.argument(), env)?;
                let e = self.expr(&p.modifier(), env)?;
                self.pow(&b, &e)
            }
            Expression::Logarithm(p) => {
                let b = self.expr(&p.argument(), env)?;
                let e = self.expr(&p.modifier(), env)?;
                self.log(&b, &e)
            }
            _ => Err("unexpected node".into()),
        }
    }

    pub fn recipe(&mut self, t: &T, env: &Env) -> Result<Num, String> {
        Ok(match t {
            T::Int(v) => Num::big(v),
            T::Real(v) => Num::f(*v).ok_or("real")?,
            T::Var(s) => env.get(s).ok_or("variable")?,
            T::Add(x) => {
                let mut acc = Num::int(0);
                for it in x {
                    acc = acc.add(&self.recipe(it, env)?);
                }
                acc
            }
            T::Mul(x) => {
                let mut acc = Num::int(1);
                for it in x {
                    acc = acc.mul(&self.recipe(it, env)?);
                }
                acc
            }
            T::Sub(a, b) => self.recipe(a, env)?.sub(&self.recipe(b, env)?),
            T::Neg(a) => self.recipe(a, env)?.neg(),
            T::Div(a, b) => {
                let (a, b) = (self.recipe(a, env)?, self.recipe(b, env)?);
                self.need(b.zero_c().not());
                a.mul(&b.inv())
            }
            T::Pow(a, b) => {
                let (a, b) = (self.recipe(a, env)?, self.recipe(b, env)?);
                self.pow(&a, &b)?
            }
            T::Log(a, b) => {
                let (a, b) = (self.recipe(a, env)?, self.recipe(b, env)?);
                self.log(&a, &b)?
            }
        })
    }
}

/// value of a recipe, which is assumed to have one
pub fn val(t: &T, env: &Env) -> Num {
    match Ev::assuming().recipe(t, env) {
        Ok(n) => n,
        Err(_) => {
            rt::assume(&C::t(false));
            unreachable!()
        }
    }
}
/// builds the recipe with the public constructors and transforms it: the value must survive
pub fn check_built(label: &str, t: &T, e: &Env, f: impl Fn(Expression) -> Expression) -> Expression {
    val(t, e);
    let x = f(build(t));
    obs(&x);
    // again: the path taken may have pinned down inputs
    let want = val(t, e);
    check_value(label, &want, &x, e, || show_t(t));
    x
}
/// the expression is defined and has the given value
pub fn check_value(label: &str, want: &Num, got: &Expression, env: &Env, about: impl Fn() -> String) {
    let mut ev = Ev::collecting();
    match ev.expr(got, env) {
        Ok(n) => {
            let mut cs = ev.defs;
            let mut eq = want.eq(&n);
            if want.approx || n.approx {
                // rounding errors next to huge values that cancel say nothing
                let mut far = vec![eq];
                for (_, v) in &env.0 {
                    far.push(Num::int(16).lt(v));
                    far.push(v.lt(&Num::int(-16)));
                }
                eq = C::or(far);
            }
            cs.push(eq);
            rt::check(label, &C::and(cs), || {
                format!("{} => {}: value {} instead of {}", about(), show(got), n.show(), want.show())
            });
        }
        Err(e) if e.starts_with("limit") => {
            rt::assume(&C::t(false));
        }
        Err(e) => rt::fail(label, format!("{} => {}: {}", about(), show(got), e)),
    }
}

/// remembers the expression for comparison between the symbolic and the native run
pub fn obs(x: &Expression) {
    let x = x.clone();
    rt::observe(move || show(&x))
}
/// text for reports and for comparing runs
pub fn show(x: &Expression) -> String {
    match x {
        Expression::Integer(n) => n.data.to_string(),
        Expression::Real(r) => rt::show_f(r.data),
        Expression::Variable(s) => s.data.clone(),
        Expression::Addition(a) => join("+", a.items()),
        Expression::Multiplication(a) => join("*", a.items()),
        Expression::Power(p) => format!("pow({},{})", show(&p.argument()), show(&p.modifier())),
        Expression::Logarithm(p) => format!("log({},{})", show(&p.argument()), show(&p.modifier())),
        _ => format!("{}", x),
    }
}
fn join(op: &str, v: Vec<Expression>) -> String {
    let s: Vec<String> = v.iter().map(show).collect();
    format!("({} {})", op, s.join(" "))
}
pub fn show_t(t: &T) -> String {
    let l = |op: &str, v: &[&T]| format!("({} {})", op, v.iter().map(|x| show_t(x)).collect::<Vec<_>>().join(" "));
    match t {
        T::Int(v) => v.to_string(),
        T::Real(v) => rt::show_f(*v),
        T::Var(s) => s.clone(),
        T::Add(x) => l("+", &x.iter().collect::<Vec<_>>()),
        T::Mul(x) => l("*", &x.iter().collect::<Vec<_>>()),
        T::Sub(a, b) => l("-", &[a, b]),
        T::Div(a, b) => l("/", &[a, b]),
        T::Neg(a) => l("neg", &[a]),
        T::Pow(a, b) => l("pow", &[a, b]),
        T::Log(a, b) => l("log", &[a, b]),
    }
}
#[allow(dead_code)]
fn unused(x: BigInt) -> bool {
    x.is_zero()
}
