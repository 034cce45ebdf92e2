//! Exact algebra of logarithms and powers for the oracle: ln of a product is the sum of the ln of its
//! factors, exp undoes ln; the ln of a factor is an unknown real, the same wherever the factor occurs.
use super::{q_f64, Num};
use num_bigint::BigInt as Big;
use num_integer::Integer;
use num_rational::BigRational as Q;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use symrt::{Cond, Poly};

#[derive(Clone, PartialEq, Debug)]
enum Comp {
    Int(Big),
    Var(u32),
    Sum(Poly),
}
#[derive(Default)]
struct Alg {
    /// ln of what an unknown stands for, when it is made of others
    made: HashMap<u32, Num>,
    /// unknown ln -> factor
    ln: Vec<(u32, Comp)>,
    roots: Vec<(Comp, u32, Poly)>,
    exps: Vec<(Num, Poly)>,
}
thread_local! {
    static A: RefCell<Alg> = RefCell::new(Alg::default());
}
pub fn reset() {
    A.with(|a| *a.borrow_mut() = Alg::default());
}

// ---------------------------------------------------------------- polynomials
fn degree(p: &Poly, v: u32) -> u32 {
    p.0.iter().map(|(m, _)| m.iter().find(|x| x.0 == v).map_or(0, |x| x.1)).max().unwrap_or(0)
}
fn coef(p: &Poly, v: u32, d: u32) -> Poly {
    let mut r = Poly::zero();
    for (m, q) in &p.0 {
        if m.iter().find(|x| x.0 == v).map_or(0, |x| x.1) == d {
            let m: Vec<_> = m.iter().filter(|x| x.0 != v).cloned().collect();
            r = r.add(&Poly(vec![(m, q.clone())]));
        }
    }
    r
}
/// p / d when exact
pub fn divide(p: &Poly, d: &Poly) -> Option<Poly> {
    if p.is_zero() {
        return Some(Poly::zero());
    }
    if let Some(k) = d.constant() {
        if k.is_zero() {
            return None;
        }
        return Some(p.scale(&(Q::one() / k)));
    }
    let v = *d.atoms().last().unwrap();
    let dd = degree(d, v);
    let lc = coef(d, v, dd);
    let mut p = p.clone();
    let mut acc = Poly::zero();
    for _ in 0..200 {
        if p.is_zero() {
            return Some(acc);
        }
        let dp = degree(&p, v);
        if dp < dd {
            return None;
        }
        let t = divide(&coef(&p, v, dp), &lc)?.mul(&Poly::atom(v).pow(dp - dd));
        p = p.sub(&t.mul(d));
        acc = acc.add(&t);
    }
    None
}
/// coefficient, common variables, and what remains: primitive, with a positive leading coefficient
fn content(p: &Poly) -> (Q, Vec<(u32, u32)>, Poly) {
    let mut common: Option<BTreeMap<u32, u32>> = None;
    let (mut g, mut l) = (Big::zero(), Big::one());
    for (m, q) in &p.0 {
        let here: BTreeMap<u32, u32> = m.iter().cloned().collect();
        common = Some(match common {
            None => here,
            Some(c) => c.into_iter().filter_map(|(v, e)| here.get(&v).map(|f| (v, e.min(*f)))).collect(),
        });
        g = g.gcd(q.numer());
        l = l.lcm(q.denom());
    }
    let common: Vec<(u32, u32)> = common.unwrap_or_default().into_iter().collect();
    let mut c = Q::new(g, l);
    if p.0.last().map_or(false, |x| x.1.is_negative()) {
        c = -c;
    }
    let mono = Poly(vec![(common.clone(), Q::one())]);
    let rest = divide(&p.scale(&(Q::one() / &c)), &mono).unwrap();
    (c, common, rest)
}
pub fn cancel(x: &Num) -> Num {
    let x = x.norm();
    if x.d.constant().is_some() {
        return x;
    }
    if let Some(q) = divide(&x.n, &x.d) {
        return Num { n: q, d: Poly::one(), approx: x.approx };
    }
    let (c1, m1, _) = content(&x.n);
    let (c2, m2, _) = content(&x.d);
    let common: Vec<(u32, u32)> = m1.iter().filter_map(|(v, e)| m2.iter().find(|f| f.0 == *v).map(|f| (*v, *e.min(&f.1)))).collect();
    let g = Poly(vec![(common, c2.clone())]);
    let _ = c1;
    Num { n: divide(&x.n, &g).unwrap(), d: divide(&x.d, &g).unwrap(), approx: x.approx }
}

// ---------------------------------------------------------------- factors and logarithms
fn fresh() -> (u32, Poly) {
    let p = symrt::aux_real();
    (p.atoms()[0], p)
}
fn factor_int(n: &Big, sign: i64, out: &mut Vec<(Comp, i64)>) {
    let mut n = n.abs();
    let mut d = 2u32;
    while d < 1000 && !n.is_one() {
        let b = Big::from(d);
        let mut k = 0;
        while (&n % &b).is_zero() {
            n /= &b;
            k += 1;
        }
        if k > 0 {
            out.push((Comp::Int(b), sign * k));
        }
        d += 1;
    }
    if !n.is_one() {
        out.push((Comp::Int(n), sign));
    }
}
/// factors of |p|
fn factor(p: &Poly) -> Vec<(Comp, i64)> {
    let p = symrt::norm(p);
    let (c, vars, mut rest) = content(&p);
    let mut out = vec![];
    factor_int(c.numer(), 1, &mut out);
    factor_int(c.denom(), -1, &mut out);
    for (v, e) in vars {
        out.push((Comp::Var(v), e as i64));
    }
    let known: Vec<(u32, Comp)> = A.with(|a| a.borrow().ln.clone());
    for (_, k) in &known {
        if let Comp::Sum(s) = k {
            let s = symrt::norm(s);
            if s.constant().is_some() || content(&s).1.len() > 0 {
                continue;
            }
            let mut n = 0;
            while rest.constant().is_none() {
                match divide(&rest, &s) {
                    Some(q) => {
                        rest = q;
                        n += 1
                    }
                    None => break,
                }
            }
            if n > 0 {
                out.push((k.clone(), n));
            }
        }
    }
    match rest.constant() {
        Some(k) => {
            factor_int(k.numer(), 1, &mut out);
            factor_int(k.denom(), -1, &mut out);
        }
        None => {
            out.push((Comp::Sum(rest.clone()), 1));
            ln_comp(&Comp::Sum(rest.clone()));
            // an older factor may be a multiple of the new one
            for (v, k) in &known {
                if let Comp::Sum(s) = k {
                    if let Some(q) = divide(&symrt::norm(s), &rest) {
                        if q.constant().is_none() {
                            let l = ln_comp(&Comp::Sum(rest.clone())).add(&ln_poly(&q));
                            symrt::assume(&Num { n: Poly::atom(*v), d: Poly::one(), approx: false }.eq(&l).0);
                        }
                    }
                }
            }
        }
    }
    out
}
fn ln_comp(c: &Comp) -> Num {
    if let Comp::Var(v) = c {
        if let Some(l) = A.with(|a| a.borrow().made.get(v).cloned()) {
            return l;
        }
    }
    if let Some(v) = A.with(|a| a.borrow().ln.iter().find(|x| x.1 == *c).map(|x| x.0)) {
        return Num { n: Poly::atom(v), d: Poly::one(), approx: false };
    }
    let (v, p) = fresh();
    if let Comp::Int(k) = c {
        let l = q_f64(&Q::from_integer(k.clone())).ln();
        let around = |d: f64| Poly::c(Q::new(Big::from((l * 1e12 + d) as i64), Big::from(1_000_000_000_000i64)));
        symrt::assume(&Cond::And(vec![Cond::lt(&around(-2.0), &p), Cond::lt(&p, &around(2.0))]));
    }
    A.with(|a| a.borrow_mut().ln.push((v, c.clone())));
    Num { n: p, d: Poly::one(), approx: false }
}
fn ln_poly(p: &Poly) -> Num {
    let mut acc = Num::int(0);
    for (c, e) in factor(p) {
        acc = acc.add(&ln_comp(&c).mul(&Num::int(e)));
    }
    acc
}
/// ln of a positive number
pub fn ln(x: &Num) -> Num {
    let x = cancel(x);
    cancel(&ln_poly(&x.n).sub(&ln_poly(&x.d)))
}

// ---------------------------------------------------------------- powers
fn comp_poly(c: &Comp) -> Poly {
    match c {
        Comp::Int(b) => Poly::big(b.clone()),
        Comp::Var(v) => Poly::atom(*v),
        Comp::Sum(p) => p.clone(),
    }
}
fn whole(p: &Poly, k: i64) -> Num {
    let n = Num { n: p.pow(k.unsigned_abs() as u32), d: Poly::one(), approx: false };
    if k < 0 { n.inv() } else { n }
}
/// |c|^(p/q)
fn comp_pow(c: &Comp, e: &Q) -> Num {
    let (p, q) = (e.numer().to_i64().unwrap(), e.denom().to_u32().unwrap());
    if let Comp::Int(b) = c {
        let b = Q::from_integer(b.clone());
        if super::exact_root(&b, q) {
            return whole(&Poly::c(super::qroot(&b, q)), p);
        }
    }
    let base = comp_poly(c);
    let positive = |k: i64| k % 2 == 0 || symrt::decide(&Cond::lt(&Poly::zero(), &base));
    if q == 1 {
        let n = whole(&base, p);
        return if positive(p) { n } else { n.neg() };
    }
    let found = A.with(|a| a.borrow().roots.iter().find(|x| x.0 == *c && x.1 == q).map(|x| x.2.clone()));
    let r = match found {
        Some(r) => r,
        None => {
            let l = ln_comp(c);
            let (v, r) = fresh();
            symrt::assume(&Cond::lt(&Poly::zero(), &r));
            let abs = if positive(1) { base.clone() } else { base.neg() };
            A.with(|a| {
                let mut a = a.borrow_mut();
                a.made.insert(v, l.mul(&Num::q(Q::new(Big::one(), Big::from(q)))));
                a.roots.push((c.clone(), q, r.clone()));
            });
            symrt::assume(&Cond::eq(&r.pow(q), &abs));
            r
        }
    };
    if let Comp::Int(b) = c {
        // b^(a + rem/q)
        let (a, rem) = p.div_mod_floor(&(q as i64));
        return whole(&Poly::big(b.clone()), a).mul(&whole(&r, rem));
    }
    whole(&r, p)
}
fn modest(k: &Q) -> bool {
    k.denom() <= &Big::from(16) && k.numer().abs() <= Big::from(128)
}
/// exp of a combination of known logarithms
fn exp_linear(e: &Num) -> Result<Option<Num>, String> {
    let e = cancel(e);
    if e.d.constant().is_none() {
        return Ok(None);
    }
    let mut acc = Num::int(1);
    for (m, k) in &e.n.0 {
        if m.len() != 1 || m[0].1 != 1 {
            return Ok(None);
        }
        if !modest(k) {
            return Err("limit: exponent".into());
        }
        let c = A.with(|a| a.borrow().ln.iter().find(|x| x.0 == m[0].0).map(|x| x.1.clone()));
        let Some(c) = c else { return Ok(None) };
        acc = acc.mul(&comp_pow(&c, k));
    }
    Ok(Some(acc))
}
/// b^e for a positive b
pub fn pow(b: &Num, e: &Num) -> Result<Num, String> {
    let (b, e) = (cancel(b), cancel(e));
    if let (Some(x), Some(k)) = (b.constant(), e.constant()) {
        if modest(&k) && (k.is_integer() || !b.approx && !e.approx && x.numer().bits() < 64 && x.denom().bits() < 64) {
            let q = k.denom().to_u32().unwrap();
            let mut acc = Num::int(1);
            if super::exact_root(&x, q) {
                acc = whole(&Poly::c(super::qroot(&x, q)), k.numer().to_i64().unwrap());
            } else {
                for (i, s) in [(x.numer(), 1), (x.denom(), -1)] {
                    let mut fs = vec![];
                    factor_int(i, s, &mut fs);
                    for (c, f) in fs {
                        acc = acc.mul(&comp_pow(&c, &(&k * Q::from_integer(Big::from(f)))));
                    }
                }
            }
            acc.approx = b.approx || e.approx;
            return Ok(acc);
        }
        let v = q_f64(&x).powf(q_f64(&k));
        return Num::f(v).map(|mut n| { n.approx = true; n }).ok_or_else(|| "limit: overflow".to_string());
    }
    if let Some(k) = e.constant() {
        if !modest(&k) {
            return Err("limit: exponent".into());
        }
        if !e.approx {
            let mut acc = Num::int(1);
            let mut konst = Q::one();
            for (p, s) in [(&b.n, 1i64), (&b.d, -1)] {
                for (c, f) in factor(p) {
                    if let Comp::Int(i) = &c {
                        let mut x = Q::one();
                        for _ in 0..f.abs() {
                            x *= Q::from_integer(i.clone());
                        }
                        konst *= if f * s < 0 { Q::one() / x } else { x };
                    } else {
                        acc = acc.mul(&comp_pow(&c, &(&k * Q::from_integer(Big::from(f * s)))));
                    }
                }
            }
            let c = pow(&Num::q(konst), &Num::q(k))?;
            let mut r = acc.mul(&c);
            r.approx |= b.approx;
            return Ok(r);
        }
    }
    let full = cancel(&e.mul(&ln(&b)));
    let approx = b.approx || e.approx;
    let done = |n: Num| {
        let mut n = n;
        n.approx |= approx;
        Ok(n)
    };
    if let Some(n) = exp_linear(&full)? {
        return done(n);
    }
    let known = A.with(|a| a.borrow().exps.clone());
    for (x, v) in &known {
        for k in [1i64, -1, 2, -2, 3, -3] {
            if let Some(n) = exp_linear(&full.sub(&x.mul(&Num::int(k))))? {
                return done(n.mul(&whole(v, k)));
            }
        }
    }
    let (v, p) = fresh();
    symrt::assume(&Cond::lt(&Poly::zero(), &p));
    A.with(|a| {
        let mut a = a.borrow_mut();
        a.made.insert(v, full.clone());
        a.exps.push((full.clone(), p.clone()));
    });
    for (x, w) in &known {
        if symrt::decide(&full.eq(x).0) {
            symrt::assume(&Cond::eq(&p, w));
        }
    }
    done(Num { n: p, d: Poly::one(), approx: false })
}
/// logarithm of a positive number to a positive base other than one
pub fn log(x: &Num, b: &Num) -> Num {
    if let (Some(x), Some(b)) = (x.constant(), b.constant()) {
        let (q, exact) = super::qlog(&x, &b);
        let mut n = Num::q(q);
        n.approx = !exact;
        return n;
    }
    let (lx, lb) = (ln(x), ln(b));
    symrt::assume(&Cond::ne(&lb.n, &Poly::zero()));
    let mut r = cancel(&lx.mul(&lb.inv()));
    r.approx |= x.approx || b.approx;
    r
}
