//! C09: bit-precise harnesses over every f64 and over short names, decided by Kani (CBMC, SAT).
//! `Source` supplies the inputs: arbitrary ones under Kani, those of a counterexample in the replay.
use ncas::base::symbol::Symbol;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

pub trait Source {
    fn f(&mut self) -> f64;
    fn b(&mut self) -> u8;
}
/// what is fed to a hasher
pub struct Tape {
    pub data: [u8; 48],
    pub len: usize,
}
impl Tape {
    pub fn of<T: Hash>(t: &T) -> Tape {
        let mut h = Tape { data: [0; 48], len: 0 };
        t.hash(&mut h);
        h
    }
    pub fn same(&self, o: &Tape) -> bool {
        let mut same = self.len == o.len;
        let mut k = 0;
        while k < 48 {
            if k < self.len && self.data[k] != o.data[k] {
                same = false;
            }
            k += 1;
        }
        same
    }
}
impl Hasher for Tape {
    fn finish(&self) -> u64 {
        self.len as u64
    }
    fn write(&mut self, bytes: &[u8]) {
        let mut k = 0;
        while k < bytes.len() {
            assert!(self.len < 48, "tape");
            self.data[self.len] = bytes[k];
            self.len += 1;
            k += 1;
        }
    }
}
fn real(v: f64) -> Symbol<f64> {
    Symbol::real(v)
}
/// the order of numbers; what is not a number is equal to itself
fn expected(a: f64, b: f64) -> Option<Ordering> {
    if a.is_nan() && b.is_nan() {
        Some(Ordering::Equal)
    } else {
        a.partial_cmp(&b)
    }
}
pub fn real_pairs(s: &mut dyn Source) {
    let (a, b) = (s.f(), s.f());
    let (x, y) = (real(a), real(b));
    let c = x.cmp(&y);
    if let Some(w) = expected(a, b) {
        assert!(c == w, "cmp is the order of the numbers");
    }
    assert!((x == y) == (c == Ordering::Equal), "== agrees with cmp");
    assert!((y == x) == (x == y), "== is symmetric");
    assert!(y.cmp(&x) == c.reverse(), "cmp is antisymmetric");
    assert!(x.partial_cmp(&y) == Some(c), "partial_cmp agrees with cmp");
    assert!((x < y) == (c == Ordering::Less) && (x <= y) == (c != Ordering::Greater), "operators agree with cmp");
    assert!(x == x && x.cmp(&x) == Ordering::Equal, "== is reflexive");
}
pub fn real_hash(s: &mut dyn Source) {
    let (a, b) = (s.f(), s.f());
    let (x, y) = (real(a), real(b));
    if x == y {
        assert!(Tape::of(&x).same(&Tape::of(&y)), "equal numbers hash equally");
    }
}
pub fn real_triples(s: &mut dyn Source) {
    let (x, y, z) = (real(s.f()), real(s.f()), real(s.f()));
    if x.cmp(&y) != Ordering::Greater && y.cmp(&z) != Ordering::Greater {
        assert!(x.cmp(&z) != Ordering::Greater, "<= chains");
        if x.cmp(&y) == Ordering::Less || y.cmp(&z) == Ordering::Less {
            assert!(x.cmp(&z) == Ordering::Less, "< chains");
        }
    }
    if x == y && y == z {
        assert!(x == z, "== chains");
    }
}
fn bits(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
pub fn real_values(s: &mut dyn Source) {
    let a = s.f();
    let x = real(a);
    assert!(bits(x.data, a), "the symbol holds the number");
    match x.value() {
        Some(v) => assert!(bits(v, a), "value is the number"),
        None => panic!("value"),
    }
    assert!(bits(x.clone().data, a), "clone");
}
/// a name of N ASCII characters
fn name<const N: usize>(s: &mut dyn Source) -> [u8; N] {
    let mut t = [0; N];
    let mut k = 0;
    while k < N {
        t[k] = s.b();
        assume(t[k] < 128);
        k += 1;
    }
    t
}
fn assume(c: bool) {
    #[cfg(kani)]
    kani::assume(c);
    assert!(c, "assumption");
}
fn names<const N: usize, const M: usize>(s: &mut dyn Source) {
    let (a, b) = (name::<N>(s), name::<M>(s));
    let (a, b) = (std::str::from_utf8(&a).unwrap(), std::str::from_utf8(&b).unwrap());
    let (x, y) = (Symbol::variable(a), Symbol::variable(b));
    assert!(x.data == a, "holds the name");
    assert!((x == y) == (a == b), "== of the names");
    assert!(x.cmp(&y) == a.cmp(b), "cmp is the order of the names");
}
pub fn names_11(s: &mut dyn Source) {
    names::<1, 1>(s)
}
pub fn names_12(s: &mut dyn Source) {
    names::<1, 2>(s)
}

pub const ALL: [(&str, fn(&mut dyn Source)); 6] = [
    ("real_pairs", real_pairs),
    ("real_hash", real_hash),
    ("real_triples", real_triples),
    ("real_values", real_values),
    ("names_11", names_11),
    ("names_12", names_12),
];

#[cfg(kani)]
mod proofs {
    use super::*;
    struct Any;
    impl Source for Any {
        fn f(&mut self) -> f64 {
            kani::any()
        }
        fn b(&mut self) -> u8 {
            kani::any()
        }
    }
    macro_rules! proof {
        ($($n:ident $u:literal),*) => { $(
            #[kani::proof]
            #[kani::unwind($u)]
            fn $n() {
                super::$n(&mut Any);
                kani::cover!(true, "reached");
            }
        )* };
    }
    proof!(real_pairs 2, real_hash 50, real_triples 2, real_values 2, names_11 8, names_12 8);
}
