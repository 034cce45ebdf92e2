//! C02: powers and logarithms have the right value, the inverse laws included.
use super::{h, thorough, Harness};
use crate::gen::*;
use crate::rt;
use crate::spec::*;
use ncas::base::expression::Expression;
use ncas::base::symbol::Symbol;
use num::bigint::BigInt;

const P: &str = "C02";
const REALS: &[f64] = &[0.25, 0.5, 1.5, 2.0, 2.25, 4.0];
const EXPS: &[f64] = &[0.5, -0.5, 1.5, 2.0, -1.0, 3.0, 0.0, 1.0];

fn neg_int(lo: i128, hi: i128) -> T {
    big(rt::int("exp", lo, hi))
}
/// a number to the power of a number
fn numbers() {
    rt::begin();
    let t = match rt::choice("kind", 10) {
        8 => {
            let e = (BigInt::from(1) << rt::pick("bits", &[31usize, 32, 63, 64, 90])) + BigInt::from(rt::pick("odd", &[0i64, 1]));
            pow(i(-1), T::Int(if rt::flag("negative") { -e } else { e }))
        }
        0 => pow(sint(-6, 12), neg_int(-4, 5)),
        1 => pow(sint(-WIDE, WIDE), i(rt::pick("e", &[0i64, 1, 2, 3, 5, -1, -2, -3]))),
        2 => pow(r(rt::pick("b", REALS)), neg_int(-4, 5)),
        3 => pow(r(rt::pick("b", REALS)), r(rt::pick("e", EXPS))),
        4 => pow(sint(1, 12), r(rt::pick("e", EXPS))),
        // 1 and -1 to a power beyond the machine word, and any power of zero and one
        5 => pow(i(1), sint(-WIDE, WIDE)),
        6 => pow(i(0), neg_int(1, WIDE)),
        7 => pow(r(rt::pick("b", &[-2.0, -0.5, -1.5])), neg_int(-4, 5)),
        _ => pow(sint(-4, 4), r(rt::pick("e", &[2.0, 3.0, -1.0, -2.0, 1.0, 0.0]))),
    };
    check_built("value", &t, &Env::default(), |x| x);
    rt::witness("reached");
}
fn base(v: &World) -> T {
    let lo = if v.positive { 1 } else { -6 };
    match rt::choice("base", 11) {
        0 => sint(lo, 8),
        1 => r(rt::pick("b", REALS)),
        2 => self::v("x"),
        3 => pow(self::v("x"), neg_int(-3, 4)),
        4 => mul(vec![sint(lo, 6), self::v("x")]),
        5 => mul(vec![self::v("x"), self::v("y")]),
        6 => mul(vec![r(rt::pick("b", REALS)), self::v("y")]),
        7 => div(i(1), self::v("x")),
        8 => add(vec![self::v("x"), self::v("y")]),
        9 => div(i(1), sint(2, 6)),
        _ => pow(self::v("x"), self::v("n")),
    }
}
fn exponent(v: &World) -> T {
    match rt::choice("exponent", if v.positive { 12 } else { 7 }) {
        0 => neg_int(-3, 4),
        1 => self::v("n"),
        2 => mul(vec![neg_int(-3, 3), self::v("n")]),
        3 => add(vec![self::v("n"), neg_int(-2, 2)]),
        4 => neg(self::v("n")),
        5 => mul(vec![self::v("n"), self::v("m")]),
        6 => r(rt::pick("e", &[2.0, -1.0, 1.0, 0.0, 3.0])),
        7 => r(rt::pick("e", EXPS)),
        8 => div(i(1), sint(2, 3)),
        9 => mul(vec![r(rt::pick("e", &[0.5, -0.5, 2.0])), self::v("n")]),
        10 => div(self::v("n"), self::v("m")),
        _ => mul(vec![neg_int(-2, 3), self::v("n"), self::v("m")]),
    }
}
/// symbolic powers
fn symbolic() {
    rt::begin();
    let w = World::any();
    let t = pow(base(&w), exponent(&w));
    check_built("value", &t, &w.env, |x| x);
    rt::witness("reached");
}
/// powers of powers, and powers inside arithmetic
fn nested() {
    rt::begin();
    let w = World::any();
    let e = if w.positive { 4 } else { 3 };
    let exp = |w: &World| match rt::choice("exponent", e) {
        0 => neg_int(-3, 3),
        1 => v("n"),
        2 => mul(vec![neg_int(-2, 3), v("n")]),
        _ => r(rt::pick("e", if w.positive { &[0.5, -1.0, 2.0] } else { &[2.0] })),
    };
    let b = |w: &World| match rt::choice("base", 5) {
        0 => v("x"),
        1 => sint(if w.positive { 1 } else { -4 }, 5),
        2 => mul(vec![sint(if w.positive { 1 } else { -3 }, 4), v("x")]),
        3 => mul(vec![v("y"), pow(v("x"), neg_int(-2, 3))]),
        _ => add(vec![v("x"), i(1)]),
    };
    let p = pow(b(&w), exp(&w));
    let t = match rt::choice("around", 6) {
        0 => pow(p, exp(&w)),
        1 => pow(mul(vec![p, v("y")]), exp(&w)),
        2 => mul(vec![p, pow(b(&w), exp(&w))]),
        3 => div(pow(b(&w), exp(&w)), p),
        4 => pow(pow(p, exp(&w)), exp(&w)),
        _ => pow(mul(vec![sint(1, 4), p, v("y")]), exp(&w)),
    };
    check_built("value", &t, &w.env, |x| x);
    rt::witness("reached");
}
/// real and small bases to exponents far beyond 32 and 64 bits
fn numbers_large() {
    rt::begin();
    rt::allow_rounding();
    let e: i128 = rt::pick("e", &[1i128 << 31, 1 << 32, (1 << 32) + 1, (1 << 53) + 1, (1 << 63) + 1, 1 << 64, (3 << 66) + 1, 2047, 1025]);
    let e = if rt::flag("negative") { -e } else { e };
    let b = rt::pick("b", &[1.0, -1.0, 0.5, -0.5, 0.0009765625, 2.0, -4.0, 3.0, 1.0000001]);
    let whole = rt::flag("whole");
    if whole && (b != -1.0 || e < -1025) {
        rt::assume(&rt::C::t(false));
    }
    let base = if whole { Symbol::integer(b as isize).expr() } else { Symbol::real(b).expr() };
    let x = base.pow(eint(BigInt::from(e)));
    obs(&x);
    let odd = e % 2 != 0;
    let m = b.abs().powf(e as f64);
    // the nearest real exponent of an odd exponent may be even: only the sign of small ones is known
    let sign = if b < 0.0 && odd { -1.0 } else { 1.0 };
    let got = number_of(&x);
    let want = sign * m;
    let sure = b > 0.0 || e.unsigned_abs() < 1 << 53 || !odd || whole;
    let close = |g: f64, w: f64| g == w || (g - w).abs() <= 1e-6 * w.abs();
    let ok = match got {
        Some(g) => close(g, want) || (!sure && close(g, -want)),
        None => false,
    };
    rt::check("value", &rt::C::t(ok), || format!("{}{} to {} is {}, not {}", b, if whole { " (integer)" } else { "" }, e, show(&x), want));
    rt::witness("reached");
}
/// the number an expression of numbers alone stands for
fn number_of(x: &Expression) -> Option<f64> {
    match x {
        Expression::Integer(n) => n.value().map(|v| v as f64),
        Expression::Real(r) => r.value(),
        Expression::Multiplication(m) => m.items().iter().try_fold(1.0, |a, f| Some(a * number_of(f)?)),
        Expression::Power(p) => Some(number_of(&p.argument())?.powf(number_of(&p.modifier())?)),
        _ => None,
    }
}
/// logarithms of numbers
fn log_numbers() {
    rt::begin();
    let t = match rt::choice("kind", 7) {
        0 => log(big(rt::int("arg", 1, if thorough() { 1 << 126 } else { 1 << 66 })), i(rt::pick("b", &[2i64, 3, 7, 10, 1024]))),
        1 => log(big(rt::int("arg", 1, 700)), sint(2, 12)),
        2 => {
            // around the powers of a base, where rounding would show
            let b: i64 = rt::pick("b", &[2, 3, 5, 10, 17]);
            let k = rt::pick("k", &[1u32, 2, 3, 7, 13, 15, 22, 30, 51, 60]);
            let p = num::traits::pow(BigInt::from(b), k as usize);
            log(big(p + rt::int("off", 0, 2) - BigInt::from(1)), i(b))
        }
        3 => log(r(rt::pick("a", &[0.25, 0.5, 1.0, 2.0, 8.0, 3.0, 1024.0])), r(rt::pick("b", &[2.0, 0.5, 4.0, 10.0]))),
        4 => log(sint(1, 32), r(rt::pick("b", &[2.0, 0.5, 4.0]))),
        5 => log(r(rt::pick("a", &[0.25, 0.5, 1.0, 2.0, 8.0])), sint(2, 5)),
        _ => log(div(i(1), sint(2, 40)), sint(2, 5)),
    };
    check_built("value", &t, &Env::default(), |x| x);
    rt::witness("reached");
}
/// power and logarithm undo each other
fn inverse() {
    rt::begin();
    let w = World::any();
    rt::assume(&rt::C::t(w.positive));
    let b = match rt::choice("base", 6) {
        0 => v("x"),
        1 => sint(2, 9),
        2 => add(vec![v("x"), i(1)]),
        3 => mul(vec![v("x"), v("y")]),
        4 => r(rt::pick("b", &[0.25, 0.5, 2.0, 4.0])),
        _ => pow(v("x"), i(2)),
    };
    let b2 = if rt::flag("other_base") { rt::pick("b2", &["y", "x"]) } else { "" };
    let b2 = if b2.is_empty() { b.clone() } else { v(b2) };
    let inner = match rt::choice("inner", 6) {
        0 => v("y"),
        1 => sint(1, 20),
        2 => mul(vec![sint(1, 5), v("y")]),
        3 => add(vec![v("y"), sint(1, 5)]),
        4 => r(rt::pick("i", &[0.5, 2.0, 3.5])),
        _ => pow(v("y"), i(2)),
    };
    let l = log(inner.clone(), b2.clone());
    let t = match rt::choice("law", 7) {
        0 => pow(b, l),
        1 => log(pow(b, inner), b2),
        2 => log(pow(b, v("n")), b2),
        3 => pow(b, mul(vec![sint(-2, 3), l])),
        4 => mul(vec![pow(b, l), sint(-5, 5)]),
        5 => pow(b, neg(l)),
        _ => add(vec![pow(b, l), log(pow(v("x"), sint(-3, 3)), v("x"))]),
    };
    check_built("value", &t, &w.env, |x| x);
    rt::witness("reached");
}
/// variables of either sign where only their even powers are taken logarithms or roots of
fn either_sign() {
    rt::begin();
    let w = World::new(false).generic();
    check_built("value", &signed(), &w.env, |x| x);
    rt::witness("reached");
}
pub fn list() -> Vec<Harness> {
    vec![
        h(P, "numbers", "integer^integer (-6..12)^(-4..5), (±2^126)^{0,1,2,3,5,-1,-2,-3}, 1^±2^126, 0^(1..2^126); 9 real bases and 13 real exponents against each other and against integers", numbers as fn(), 1.0, 400),
        h(P, "numbers_large", "9 real bases and -1 to 9 exponents up to 3*2^66 in absolute value", numbers_large, 0.5, 0),
        h(P, "log_numbers", "log(1..2^66, 2^126 thorough) to 5 bases, log(1..700) to bases 2..12, log(b^k + {-1,0,1}) for 5 bases and 10 exponents up to 60, real and rational arguments and bases", log_numbers, 2.0, 400),
        h(P, "symbolic", "11 kinds of base (integer, real, variable, power, products, quotient, sum) to 12 kinds of exponent; variables any real with integer exponents, or positive with any exponent", symbolic, 2.0, 60),
        h(P, "nested", "powers of powers, of products with powers, products and quotients of powers; exponents integer, variable, integer*variable, real", nested, 3.0, 6),
        h(P, "either_sign", "logarithms to 4 bases of 9 positive expressions in variables of either sign, 7 operations around them, and roots of x^2 + c", either_sign, 1.0, 40),
        h(P, "inverse", "b^log(x,b), log(b^x,b), b^(k log(x,b)) for 6 kinds of base and of x, and the same with a different base", inverse, 2.0, 60),
    ]
}
