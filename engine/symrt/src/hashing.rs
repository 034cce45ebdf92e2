//! Symbolic hashing: the sequence of values a `Hash` implementation feeds to its hasher is
//! recorded, numbers staying symbolic; two keys collide exactly when their sequences are equal.
use crate::engine::*;
use crate::hooks::f64_cmp;
use crate::poly::Poly;
use std::cell::{Cell, RefCell};
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug)]
pub enum Token {
    Raw(u8, u128),
    Bytes(Vec<u8>),
    Num(Poly),
    Float(f64),
}

thread_local! {
    static ON: Cell<bool> = Cell::new(false);
    static OUT: RefCell<Vec<Token>> = RefCell::new(Vec::new());
    static FLOATS: RefCell<Vec<f64>> = RefCell::new(Vec::new());
}
const HTAG: u64 = 0x7A6B_5C4D_0000_0000;
const MASK: u64 = 0xFFFF_FFFF_0000_0000;

pub struct Recorder(());
macro_rules! w {
    ($($f:ident $t:ty, $n:expr;)*) => { $(fn $f(&mut self, v: $t) { push(Token::Raw($n, v as u128)) })* }
}
fn push(t: Token) {
    OUT.with(|o| o.borrow_mut().push(t))
}
impl Hasher for Recorder {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        push(Token::Bytes(b.to_vec()))
    }
    fn write_u64(&mut self, v: u64) {
        if v & MASK == HTAG {
            let i = (v & !MASK) as usize;
            if let Some(x) = FLOATS.with(|f| f.borrow().get(i).copied()) {
                push(Token::Float(x));
                return;
            }
        }
        push(Token::Raw(8, v as u128))
    }
    fn write_i64(&mut self, v: i64) {
        match crate::hooks::i_sym(v) {
            Some(p) => push(Token::Num(p)),
            None => push(Token::Num(Poly::int(v))),
        }
    }
    w! { write_u8 u8, 1; write_u16 u16, 2; write_u32 u32, 4; write_u128 u128, 16; write_usize usize, 9;
         write_i8 i8, 1; write_i16 i16, 2; write_i32 i32, 4; write_i128 i128, 16; write_isize isize, 9; }
}

pub fn recording() -> bool {
    ON.with(|o| o.get())
}
/// called by `BigInt::hash`
pub fn record_num(p: Poly) {
    push(Token::Num(p))
}
/// called for `integer_decode`
pub fn record_float(v: f64) -> u64 {
    FLOATS.with(|f| {
        let mut f = f.borrow_mut();
        f.push(v);
        HTAG | (f.len() - 1) as u64
    })
}

pub fn stream<T: Hash + ?Sized>(x: &T) -> Vec<Token> {
    let nested = ON.with(|o| o.replace(true));
    let saved = OUT.with(|o| std::mem::take(&mut *o.borrow_mut()));
    if !nested {
        FLOATS.with(|f| f.borrow_mut().clear());
    }
    x.hash(&mut Recorder(()));
    let r = OUT.with(|o| std::mem::replace(&mut *o.borrow_mut(), saved));
    ON.with(|o| o.set(nested));
    r
}
/// leaves a clean state behind when a path is abandoned inside `hash`
pub fn reset() {
    ON.with(|o| o.set(false));
    OUT.with(|o| o.borrow_mut().clear());
    FLOATS.with(|o| o.borrow_mut().clear());
}

fn decoded(v: f64) -> (u64, i16, i8) {
    num_traits::Float::integer_decode(v)
}
pub fn same(a: &[Token], b: &[Token]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    // shape first, so that only plausible pairs reach the solver
    for (x, y) in a.iter().zip(b) {
        match (x, y) {
            (Token::Raw(n, v), Token::Raw(m, w)) if n == m && v == w => {}
            (Token::Bytes(v), Token::Bytes(w)) if v == w => {}
            (Token::Num(_), Token::Num(_)) | (Token::Float(_), Token::Float(_)) => {}
            _ => return false,
        }
    }
    for (x, y) in a.iter().zip(b) {
        let eq = match (x, y) {
            (Token::Num(p), Token::Num(q)) => {
                if active() {
                    decide(&Cond::eq(p, q))
                } else {
                    p == q
                }
            }
            (Token::Float(p), Token::Float(q)) => {
                if crate::hooks::f_sym(*p).is_none() && crate::hooks::f_sym(*q).is_none() {
                    decoded(*p) == decoded(*q)
                } else {
                    f64_cmp(0, *p, *q)
                }
            }
            _ => true,
        };
        if !eq {
            return false;
        }
    }
    true
}
