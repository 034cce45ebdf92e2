//! Canonical multivariate polynomials with rational coefficients: the term language of the engine.
use num_bigint::BigInt;
use num_rational::BigRational;
use num_traits::{One, Signed, Zero};
use std::cmp::Ordering;

pub type Q = BigRational;
pub type Mono = Vec<(u32, u32)>;

#[derive(Clone, PartialEq, Eq, Hash, Debug, Default)]
pub struct Poly(pub Vec<(Mono, Q)>);

fn mono_mul(a: &Mono, b: &Mono) -> Mono {
    let (mut i, mut j) = (0, 0);
    let mut r = Vec::with_capacity(a.len() + b.len());
    while i < a.len() && j < b.len() {
        match a[i].0.cmp(&b[j].0) {
            Ordering::Less => {
                r.push(a[i]);
                i += 1
            }
            Ordering::Greater => {
                r.push(b[j]);
                j += 1
            }
            Ordering::Equal => {
                r.push((a[i].0, a[i].1 + b[j].1));
                i += 1;
                j += 1
            }
        }
    }
    r.extend_from_slice(&a[i..]);
    r.extend_from_slice(&b[j..]);
    r
}

impl Poly {
    pub fn zero() -> Poly {
        Poly(vec![])
    }
    pub fn one() -> Poly {
        Poly::c(Q::one())
    }
    pub fn c(q: Q) -> Poly {
        if q.is_zero() {
            Poly(vec![])
        } else {
            Poly(vec![(vec![], q)])
        }
    }
    pub fn int(i: i64) -> Poly {
        Poly::c(Q::from_integer(BigInt::from(i)))
    }
    pub fn big(i: BigInt) -> Poly {
        Poly::c(Q::from_integer(i))
    }
    pub fn atom(a: u32) -> Poly {
        Poly(vec![(vec![(a, 1)], Q::one())])
    }
    pub fn constant(&self) -> Option<Q> {
        match self.0.len() {
            0 => Some(Q::zero()),
            1 if self.0[0].0.is_empty() => Some(self.0[0].1.clone()),
            _ => None,
        }
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    fn from_unsorted(mut v: Vec<(Mono, Q)>) -> Poly {
        v.sort_by(|a, b| a.0.cmp(&b.0));
        let mut r: Vec<(Mono, Q)> = Vec::with_capacity(v.len());
        for (m, q) in v {
            if let Some(l) = r.last_mut() {
                if l.0 == m {
                    l.1 += q;
                    if l.1.is_zero() {
                        r.pop();
                    }
                    continue;
                }
            }
            if !q.is_zero() {
                r.push((m, q));
            }
        }
        Poly(r)
    }
    pub fn add(&self, o: &Poly) -> Poly {
        let (mut i, mut j) = (0, 0);
        let mut r = Vec::with_capacity(self.0.len() + o.0.len());
        while i < self.0.len() && j < o.0.len() {
            match self.0[i].0.cmp(&o.0[j].0) {
                Ordering::Less => {
                    r.push(self.0[i].clone());
                    i += 1
                }
                Ordering::Greater => {
                    r.push(o.0[j].clone());
                    j += 1
                }
                Ordering::Equal => {
                    let s = &self.0[i].1 + &o.0[j].1;
                    if !s.is_zero() {
                        r.push((self.0[i].0.clone(), s));
                    }
                    i += 1;
                    j += 1
                }
            }
        }
        r.extend_from_slice(&self.0[i..]);
        r.extend_from_slice(&o.0[j..]);
        Poly(r)
    }
    pub fn neg(&self) -> Poly {
        Poly(self.0.iter().map(|(m, q)| (m.clone(), -q)).collect())
    }
    pub fn sub(&self, o: &Poly) -> Poly {
        self.add(&o.neg())
    }
    pub fn scale(&self, k: &Q) -> Poly {
        if k.is_zero() {
            return Poly::zero();
        }
        Poly(self.0.iter().map(|(m, q)| (m.clone(), q * k)).collect())
    }
    pub fn mul(&self, o: &Poly) -> Poly {
        if self.is_zero() || o.is_zero() {
            return Poly::zero();
        }
        if let Some(k) = self.constant() {
            return o.scale(&k);
        }
        if let Some(k) = o.constant() {
            return self.scale(&k);
        }
        let mut v = Vec::with_capacity(self.0.len() * o.0.len());
        for (m1, q1) in &self.0 {
            for (m2, q2) in &o.0 {
                v.push((mono_mul(m1, m2), q1 * q2));
            }
        }
        Poly::from_unsorted(v)
    }
    pub fn pow(&self, n: u32) -> Poly {
        let mut r = Poly::one();
        for _ in 0..n {
            r = r.mul(self);
        }
        r
    }
    pub fn atoms(&self) -> Vec<u32> {
        let mut v: Vec<u32> = self.0.iter().flat_map(|(m, _)| m.iter().map(|x| x.0)).collect();
        v.sort_unstable();
        v.dedup();
        v
    }
    pub fn mentions(&self, a: u32) -> bool {
        self.0.iter().any(|(m, _)| m.iter().any(|x| x.0 == a))
    }
    /// replaces an atom by a polynomial
    pub fn subst(&self, a: u32, p: &Poly) -> Poly {
        if !self.mentions(a) {
            return self.clone();
        }
        let mut r = Poly::zero();
        for (m, q) in &self.0 {
            let mut rest: Mono = vec![];
            let mut e = 0;
            for x in m {
                if x.0 == a {
                    e = x.1
                } else {
                    rest.push(*x)
                }
            }
            let t = Poly(vec![(rest, q.clone())]);
            r = r.add(&if e == 0 { t } else { t.mul(&p.pow(e)) });
        }
        r
    }
    pub fn eval(&self, f: &mut dyn FnMut(u32) -> Q) -> Q {
        let mut r = Q::zero();
        for (m, q) in &self.0 {
            let mut t = q.clone();
            for (a, e) in m {
                let v = f(*a);
                for _ in 0..*e {
                    t *= &v;
                }
            }
            r += t;
        }
        r
    }
    /// an atom that occurs only linearly, alone, with coefficient +-1: (atom, coefficient)
    pub fn solvable(&self, ok: &dyn Fn(u32) -> bool) -> Option<(u32, Q)> {
        let mut best = None;
        for (m, q) in &self.0 {
            if m.len() == 1 && m[0].1 == 1 && q.abs().is_one() && ok(m[0].0) {
                let a = m[0].0;
                let n = self.0.iter().filter(|(m, _)| m.iter().any(|x| x.0 == a)).count();
                if n == 1 {
                    // prefer the youngest atom
                    if best.as_ref().map_or(true, |(b, _)| *b < a) {
                        best = Some((a, q.clone()));
                    }
                }
            }
        }
        best
    }
    pub fn int_coefs(&self) -> bool {
        self.0.iter().all(|(_, q)| q.is_integer())
    }
    pub fn degree_ok(&self) -> bool {
        self.0.len() < 20000
    }
}
