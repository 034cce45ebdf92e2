//! C03, C04, C05: expansion, simplification and each of the rewriting rules keep the value.
use super::{h, thorough, Harness};
use crate::gen::*;
use crate::rt;
use crate::spec::*;
use ncas::base::expression::Expression;
use ncas::manipulation::expansion_rules::rule::Rule as ERule;
use ncas::manipulation::expansion_rules::{
    multiplicative_distributive::MultiplicativeDistributive, power_distributive_addition::PowerDistributiveAddition,
    power_distributive_multiplication::PowerDistributiveMultiplication,
};
use ncas::manipulation::simplification_rules::factoring::{
    additive_common_addend::AdditiveCommonAddend, multiplicative_common_factor::MultiplicativeCommonFactor,
    single_algebraic_denominator::SingleAlgebraicDenominator,
};
use ncas::manipulation::simplification_rules::identities::inverse_power_log::InversePowerLog;
use ncas::manipulation::simplification_rules::rational::{rationals_addition::RationalsAddition, rationals_multiplication::RationalsMultiplication};
use ncas::manipulation::simplification_rules::rule::Rule as SRule;

fn expand(x: Expression) -> Expression {
    x.expand()
}
fn simplify(x: Expression) -> Expression {
    x.simplify()
}
type F = fn(Expression) -> Expression;

/// a term of a sum; `few` limits the symbolic coefficients
fn term(few: &Few, wide: bool) -> T {
    let k = if wide { WIDE } else { SMALL };
    match rt::choice("term", 6) {
        0 => few.int(-k, k, 3),
        1 => v("x"),
        2 => mul(vec![few.int(-k, k, -2), v("x")]),
        3 => mul(vec![few.int(-k, k, 5), v("x"), v("y")]),
        4 => v("y"),
        _ => monomial(few.int(-k, k, 1), 2, 0),
    }
}
fn sum(few: &Few, n: usize, wide: bool) -> T {
    add((0..n).map(|_| term(few, wide)).collect())
}
/// sums of like and unlike terms
fn sums(label: &str, f: F) {
    rt::begin();
    let n = rt::pick("n", if thorough() { &[2usize, 3, 4] } else { &[2, 3] });
    let few = Few::new(3);
    let mut t = sum(&few, n, true);
    match rt::choice("around", 3) {
        0 => {}
        1 => t = sub(t, mul(vec![sint(-WIDE, WIDE), v("x")])),
        _ => t = mul(vec![t, sint(-WIDE, WIDE)]),
    }
    let w = World::new(false);
    check_built(label, &t, &w.env, f);
    rt::witness("reached");
}
/// sums with real and rational parts
fn mixed_sums(label: &str, f: F) {
    rt::begin();
    let n = rt::pick("n", if thorough() { &[2usize, 3] } else { &[2] });
    let few = Few::new(3);
    let u = rt::pick("unit", &[-2, -40]);
    rt::exact_reals();
    let mut xs = vec![];
    for j in 0..n + 1 {
        xs.push(match rt::choice("term", 7) {
            0 => few.int(-SMALL, SMALL, 3),
            1 => few.scaled(u, 0.5),
            2 => mul(vec![few.scaled(u, 1.5), v("x")]),
            3 => mul(vec![few.int(-SMALL, SMALL, -2), v("x")]),
            4 => div(few.int(-12, 12, 1), i([3, 4, -6][j % 3])),
            5 => div(v("x"), i([2, 3, 3][j % 3])),
            _ => neg(v("x")),
        });
    }
    let t = add(xs);
    let w = World::new(false);
    check_built(label, &t, &w.env, f);
    rt::witness("reached");
}
fn factor(few: &Few) -> T {
    match rt::choice("factor", 6) {
        0 => few.int(-WIDE, WIDE, -3),
        1 => v("x"),
        2 => add(vec![v("x"), few.int(-WIDE, WIDE, 2)]),
        3 => add(vec![v("x"), mul(vec![few.int(-WIDE, WIDE, -1), v("y")])]),
        4 => sub(mul(vec![few.int(-WIDE, WIDE, 2), v("x")]), v("y")),
        _ => add(vec![v("x"), v("y"), few.int(-WIDE, WIDE, 1)]),
    }
}
/// many operands, most of them constants
fn many(label: &str, f: F) {
    rt::begin();
    let few = Few::new(2);
    let prod = rt::flag("product");
    let n = if prod { rt::pick("n", &[5usize, 9]) } else { rt::pick("n", &[5, 8, 11, 17, 35]) };
    let k = [rt::choice("kind", 5), rt::choice("kind", 5)];
    let xs = (0..n)
        .map(|j| match k[j % 2] {
            0 => few.int(-WIDE, WIDE, [7, -1, 3, 1, 12, -5][j % 6]),
            1 => v(["x", "y", "x", "y", "y"][(j / 2) % 5]),
            2 => mul(vec![few.int(-SMALL, SMALL, 3 - (j % 5) as i64), v(["x", "y", "x"][j % 3]), v("y")]),
            3 if prod && j < 4 => add(vec![v("x"), few.int(-WIDE, WIDE, 1 + j as i64)]),
            3 => neg(v(["y", "x"][(j / 2) % 2])),
            _ => div(v(["x", "y"][(j / 2) % 2]), i([2, 3, 6, -4][j % 4])),
        })
        .collect();
    let t = if prod { mul(xs) } else { add(xs) };
    let w = World::new(false);
    check_built(label, &t, &w.env, f);
    rt::witness("reached");
}
/// powers with many terms
fn far_powers(label: &str, f: F) {
    rt::begin();
    rt::long_run(40);
    let few = Few::new(1);
    let s = match rt::choice("base", 3) {
        0 => add(vec![v("x"), few.int(-WIDE, WIDE, 2)]),
        1 => add(vec![mul(vec![few.int(-WIDE, WIDE, -1), v("y")]), v("x")]),
        _ => add(vec![v("x"), v("y"), few.int(-WIDE, WIDE, 1)]),
    };
    let n = match s {
        T::Add(ref xs) if xs.len() == 3 => 5,
        _ => rt::pick("power", if thorough() { &[6, 7, 8, 9] } else { &[6, 7] }),
    };
    let n = if rt::flag("inverse") { -n } else { n };
    let t = pow(s, i(n));
    let t = if rt::flag("less") { sub(t, v("x")) } else { t };
    let w = World::new(false);
    check_built(label, &t, &w.env, f);
    rt::witness("reached");
}
/// polynomials nested many levels deep
fn towers(label: &str, f: F) {
    rt::begin();
    let few = Few::new(2);
    let t = horner(&few, &[4, 8, 12]);
    let t = match rt::choice("around", 4) {
        0 => t,
        1 => sub(t, mul(vec![few.int(-WIDE, WIDE, -2), v("y")])),
        2 => div(t, v("x")),
        _ => mul(vec![add(vec![v("y"), i(1)]), t]),
    };
    let w = World::new(false);
    check_built(label, &t, &w.env, f);
    rt::witness("reached");
}
/// polynomials in four variables
fn several_variables(label: &str, f: F) {
    rt::begin();
    let few = Few::new(2);
    let names = names();
    let u = |k: usize| v(names[k]);
    let t = several(&few, &names);
    let t = match rt::choice("around", 5) {
        0 => t,
        1 => add(vec![t, mul(vec![few.int(-WIDE, WIDE, -2), u(0), u(2), u(1)])]),
        2 => div(t, mul(vec![u(1), u(2)])),
        3 => sub(t, div(mul(vec![u(3), u(0)]), u(1))),
        _ => mul(vec![t, pow(u(0), i(-2)), u(3)]),
    };
    check_built(label, &t, &several_env(&names), f);
    rt::witness("reached");
}
/// products of sums
fn products(label: &str, f: F) {
    rt::begin();
    let n = rt::pick("n", if thorough() { &[2usize, 3, 4] } else { &[2, 3] });
    let few = Few::new(3);
    let mut t = mul((0..n).map(|_| factor(&few)).collect());
    match rt::choice("around", 3) {
        0 => {}
        1 => t = add(vec![t, factor(&few)]),
        _ => t = sub(t, mul(vec![factor(&few), v("x")])),
    }
    let w = World::new(false);
    check_built(label, &t, &w.env, f);
    rt::witness("reached");
}
/// whole powers of sums and products
fn powers(label: &str, f: F) {
    rt::begin();
    let few = Few::new(2);
    let k = rt::choice("base", 8);
    let b = match k {
        0 => add(vec![v("x"), few.int(-WIDE, WIDE, 2)]),
        1 => sub(v("x"), v("y")),
        2 => add(vec![v("x"), v("y"), few.int(-WIDE, WIDE, 1)]),
        3 => mul(vec![few.int(-WIDE, WIDE, 2), v("x"), v("y")]),
        4 => mul(vec![v("x"), add(vec![v("y"), few.int(-WIDE, WIDE, 2)])]),
        5 => div(v("x"), v("y")),
        6 => add(vec![mul(vec![few.int(-WIDE, WIDE, 2), v("x")]), few.int(-WIDE, WIDE, 2)]),
        _ => add(vec![npow(v("x"), 2), div(i(1), v("y"))]),
    };
    let e = if thorough() { rt::choice("exponent", 9) as i64 - 4 } else { rt::choice("exponent", 6) as i64 - 2 };
    // the square of a large power of a trinomial is only slow
    let slow = k == 2 && e.abs() > 2;
    let p = pow(b, i(e));
    let t = match rt::choice("around", 5) {
        0 => p,
        1 => mul(vec![p, factor(&few)]),
        2 => add(vec![p, mul(vec![few.int(-WIDE, WIDE, 3), v("x")])]),
        3 => mul(vec![p.clone(), if slow { v("y") } else { p }]),
        _ => sub(p, pow(v("y"), i(e))),
    };
    let w = World::new(false);
    check_built(label, &t, &w.env, f);
    rt::witness("reached");
}
/// products of whole and symbolic powers of sums, some of them opposites of each other
fn sum_powers(label: &str, f: F) {
    rt::begin();
    let few = Few::new(2);
    let n = if thorough() { rt::pick("n", &[2usize, 3]) } else { 2 };
    let b = |few: &Few| match rt::choice("base", 6) {
        0 => sub(v("x"), v("y")),
        1 => sub(v("y"), v("x")),
        2 => add(vec![v("x"), few.int(-WIDE, WIDE, 1)]),
        3 => sub(few.int(-WIDE, WIDE, -1), v("x")),
        4 => add(vec![mul(vec![few.int(-SMALL, SMALL, 2), v("x")]), v("y")]),
        _ => v("x"),
    };
    let e = || match rt::choice("exponent", 6) {
        0 => i(-1),
        1 => i(-2),
        2 => i(2),
        3 => v("n"),
        4 => neg(v("n")),
        _ => i(-3),
    };
    let mut xs: Vec<T> = (0..n).map(|_| pow(b(&few), e())).collect();
    match rt::choice("around", 3) {
        0 => {}
        1 => xs.push(v("x")),
        _ => xs = vec![add(xs)],
    }
    let w = World::new(false).generic();
    check_built(label, &mul(xs), &w.env, f);
    rt::witness("reached");
}
/// larger whole powers of sums
fn high_powers(label: &str, f: F) {
    rt::begin();
    let few = Few::new(1);
    let b = match rt::choice("base", 5) {
        0 => add(vec![v("x"), v("y")]),
        1 => add(vec![v("x"), few.int(-WIDE, WIDE, 2)]),
        2 => sub(v("x"), mul(vec![few.int(-WIDE, WIDE, 2), v("y")])),
        3 => add(vec![v("x"), v("x")]),
        _ => mul(vec![v("x"), add(vec![v("y"), i(1)])]),
    };
    let e = rt::pick("exponent", if thorough() { &[4i64, 5, -4, -5, 6, -6] } else { &[4, 5, -4, -5] });
    let p = pow(b, i(e));
    let t = match rt::choice("around", if e.abs() > 5 { 1 } else { 3 }) {
        0 => p,
        1 => mul(vec![p, factor(&few)]),
        _ => sub(p, v("y")),
    };
    let w = World::new(false);
    check_built(label, &t, &w.env, f);
    rt::witness("reached");
}
/// quotients
fn quotients(label: &str, f: F) {
    rt::begin();
    let few = Few::new(2);
    let num = match rt::choice("num", 7) {
        0 => mul(vec![few.int(-WIDE, WIDE, 3), v("x")]),
        1 => add(vec![v("x"), v("x")]),
        2 => mul(vec![v("x"), v("x"), v("y")]),
        3 => add(vec![mul(vec![few.int(-SMALL, SMALL, 3), v("x")]), v("y")]),
        4 => few.int(-WIDE, WIDE, 6),
        5 => npow(v("y"), 3),
        _ => mul(vec![add(vec![v("x"), v("y")]), v("x")]),
    };
    let den = match rt::choice("den", 8) {
        0 => sint(-6, 6),
        1 => v("x"),
        2 => npow(v("x"), 2),
        3 => mul(vec![v("x"), v("y")]),
        4 => add(vec![v("x"), v("y")]),
        5 => mul(vec![sint(-4, 4), v("x")]),
        6 => npow(mul(vec![v("x"), v("y")]), 2),
        _ => div(v("y"), v("x")),
    };
    let q = div(num, den.clone());
    let t = match rt::choice("around", 6) {
        0 => q,
        1 => mul(vec![q, den]),
        2 => add(vec![q.clone(), q]),
        3 => sub(q, div(v("x"), sint(-4, 4))),
        4 => mul(vec![q, div(sint(-6, 6), i(4))]),
        _ => div(q, v("y")),
    };
    let w = World::new(false);
    check_built(label, &t, &w.env, f);
    rt::witness("reached");
}
/// sums and products of fractions
fn fractions(label: &str, f: F) {
    rt::begin();
    let n = if thorough() { rt::pick("n", &[2usize, 3]) } else { 2 };
    let mut xs = vec![];
    for j in 0..n {
        xs.push(match rt::choice("fraction", 6) {
            5 => div(div(sint(-99, 99), i([3, 4, 10][j])), i([5, 2, 3][j])),
            0 => div(sint(-WIDE, WIDE), i([3, 4, 10][j])),
            1 => div(sint(-12, 12), sint(-6, 6)),
            2 => div(i(1), sint(-6, 6)),
            3 => sint(-WIDE, WIDE),
            _ => div(mul(vec![sint(-9, 9), v("x")]), i([6, 4, 3][j])),
        });
    }
    let few = Few::new(1);
    let t = match rt::choice("around", 5) {
        0 => add(xs),
        1 => mul(xs),
        2 => sub(add(xs), v("x")),
        3 => mul(vec![mul(xs), v("y")]),
        _ => mul(vec![add(xs), add(vec![v("x"), few.int(-9, 9, 1)])]),
    };
    let w = World::new(false);
    check_built(label, &t, &w.env, f);
    rt::witness("reached");
}
/// symbolic exponents and logarithms
fn exponentials(label: &str, f: F) {
    rt::begin();
    let w = World::any().generic();
    let lo = if w.positive { 1 } else { -4 };
    let s = match rt::choice("base", 6) {
        0 => v("x"),
        1 => add(vec![v("x"), sint(1, 3)]),
        2 => mul(vec![sint(lo, 4), v("x")]),
        3 => add(vec![v("x"), v("x")]),
        4 => mul(vec![v("x"), add(vec![v("y"), i(1)])]),
        _ => sint(2, 5),
    };
    let p = match rt::choice("exponent", if w.positive { 9 } else { 5 }) {
        0 => pow(s.clone(), v("n")),
        1 => pow(s.clone(), mul(vec![sint(-2, 3), v("n")])),
        2 => pow(s.clone(), add(vec![v("n"), sint(-2, 2)])),
        3 => pow(s.clone(), neg(v("n"))),
        4 => pow(s.clone(), add(vec![v("n"), v("m")])),
        5 => log(v("y"), s.clone()),
        6 => pow(s.clone(), log(mul(vec![v("y"), add(vec![v("x"), v("x")])]), s.clone())),
        7 => log(pow(s.clone(), add(vec![v("n"), v("n")])), s.clone()),
        _ => pow(s.clone(), r(rt::pick("e", &[0.5, -0.5, 2.0]))),
    };
    let t = match rt::choice("around", 6) {
        0 => p,
        1 => mul(vec![p, s]),
        2 => add(vec![p.clone(), p]),
        3 => div(mul(vec![p, v("x")]), v("x")),
        4 => mul(vec![p, pow(v("x"), neg(v("n")))]),
        _ => sub(mul(vec![p, add(vec![v("x"), sint(-3, 3)])]), v("y")),
    };
    check_built(label, &t, &w.env, f);
    rt::witness("reached");
}
/// variables of either sign where only their even powers are taken logarithms or roots of
fn either_sign(label: &str, f: F) {
    rt::begin();
    let t = signed();
    let t = if rt::flag("product") { mul(vec![t, add(vec![v("x"), i(1)])]) } else { t };
    let w = World::new(false).generic();
    check_built(label, &t, &w.env, f);
    rt::witness("reached");
}
/// trees of every operation
fn trees(label: &str, f: F) {
    rt::begin();
    let d = Dom::any(if thorough() { &["x", "y"] } else { &["x"] });
    let t = d.tree(2, false);
    let w = World::new(false);
    check_built(label, &t, &w.env, f);
    rt::witness("reached");
}

macro_rules! both {
    ($($n:ident),*) => {
        mod ex { $(pub fn $n() { super::$n("expand", super::expand) })* }
        mod si { $(pub fn $n() { super::$n("simplify", super::simplify) })* }
    };
}
both!(sums, many, mixed_sums, products, powers, sum_powers, high_powers, quotients, fractions, exponentials, either_sign, several_variables, towers, far_powers, trees);

// ------------------------------------------------------------------------ C05
const RULES: &[&str] = &["distribute", "power_sum", "power_product", "addends", "factors", "denominator", "power_log", "fractions_sum", "fractions_product"];
fn rule(k: usize) -> F {
    match k {
        0 => |x| MultiplicativeDistributive::apply(&x),
        1 => |x| PowerDistributiveAddition::apply(&x),
        2 => |x| PowerDistributiveMultiplication::apply(&x),
        3 => |x| AdditiveCommonAddend::apply(&x),
        4 => |x| MultiplicativeCommonFactor::apply(&x),
        5 => |x| SingleAlgebraicDenominator::apply(&x),
        6 => |x| InversePowerLog::apply(&x),
        7 => |x| RationalsAddition::apply(&x),
        _ => |x| RationalsMultiplication::apply(&x),
    }
}
/// each rule on each kind of expression, its own or not
fn rules_any() {
    rt::begin();
    let k = rt::choice("rule", RULES.len());
    let w = World::any().generic();
    let lo = if w.positive { 1 } else { -9 };
    let few = Few::new(2);
    let a = |few: &Few| match rt::choice("part", 7) {
        0 => few.int(lo, 9, 2),
        1 => v("x"),
        2 => mul(vec![few.int(lo, 9, 3), v("x")]),
        3 => div(i(1), v("y")),
        4 => add(vec![v("x"), few.int(lo, 9, 1)]),
        5 => pow(v("x"), v("n")),
        _ => div(few.int(lo, 9, 1), i(4)),
    };
    let t = match rt::choice("shape", 5) {
        0 => add(vec![a(&few), a(&few)]),
        1 => mul(vec![a(&few), a(&few)]),
        2 => pow(a(&few), i(rt::pick("e", &[2i64, -1, -2]))),
        3 => pow(a(&few), v("n")),
        _ => a(&few),
    };
    check_built(RULES[k], &t, &w.env, rule(k));
    rt::witness("reached");
}
/// collecting addends: many terms, wide coefficients
fn addends() {
    rt::begin();
    let n = if thorough() { rt::pick("n", &[2usize, 3, 4, 5]) } else { rt::pick("n", &[2, 3]) };
    let few = Few::new(4);
    let xs = (0..n)
        .map(|j| match rt::choice("term", if j < 3 { 9 } else { 4 }) {
            0 => v("x"),
            1 => mul(vec![few.int(-WIDE, WIDE, 2), v("x")]),
            2 => neg(mul(vec![v("x"), v("y")])),
            3 => mul(vec![few.int(-WIDE, WIDE, -1), v("x"), v("y")]),
            4 => few.int(-WIDE, WIDE, 5),
            5 => mul(vec![few.int(-SMALL, SMALL, 1), r(0.5), v("x")]),
            6 => div(mul(vec![few.int(-WIDE, WIDE, 2), v("x")]), v("y")),
            7 => few.real(1.5),
            _ => neg(v("x")),
        })
        .collect();
    let w = World::new(false);
    check_built("addends", &add(xs), &w.env, rule(3));
    rt::witness("reached");
}
/// collecting factors: repeated, inverted, with whole and symbolic exponents
fn factors() {
    rt::begin();
    let n = if thorough() { rt::pick("n", &[2usize, 3, 4, 5]) } else { rt::pick("n", &[2, 3]) };
    let w = World::any().generic();
    let few = Few::new(3);
    let k = rt::pick("rule", &[4usize, 5]);
    let xs = (0..n)
        .map(|j| match rt::choice("factor", if j < 3 { 10 } else { 4 }) {
            0 => v("x"),
            1 => div(i(1), v("x")),
            2 => pow(v("x"), few.int(-3, 4, 2)),
            3 => v("y"),
            4 => few.int(if w.positive { 1 } else { -WIDE }, WIDE, 3),
            5 => pow(v("x"), v("n")),
            6 => pow(v("x"), mul(vec![few.int(-2, 3, -1), v("n")])),
            7 => add(vec![v("x"), v("y")]),
            8 => div(i(1), add(vec![v("x"), v("y")])),
            _ => r(1.5),
        })
        .collect();
    check_built(RULES[k], &mul(xs), &w.env, rule(k));
    rt::witness("reached");
}
/// distribution of products of sums, and of powers over sums and products
fn distribution() {
    rt::begin();
    let w = World::any().generic();
    let k = rt::choice("rule", 3);
    let few = Few::new(3);
    let (lo, hi) = if w.positive { (1, 9) } else { (-WIDE, WIDE) };
    let s = |few: &Few| match rt::choice("sum", 6) {
        0 => add(vec![v("x"), few.int(lo, hi, 2)]),
        1 => add(vec![mul(vec![few.int(lo, hi, 3), v("x")]), v("y")]),
        2 => add(vec![v("x"), v("y"), few.int(lo, hi, 1)]),
        3 => mul(vec![few.int(lo, hi, 2), v("y")]),
        4 => mul(vec![v("x"), v("y")]),
        _ => v("y"),
    };
    let t = if k == 0 {
        mul((0..rt::pick("n", &[2usize, 3])).map(|_| s(&few)).collect())
    } else {
        let e = match rt::choice("exponent", if w.positive { 6 } else { 5 }) {
            0 => i(rt::choice("e", 8) as i64 - 3),
            1 => v("n"),
            2 => mul(vec![sint(-2, 3), v("n")]),
            3 => mul(vec![sint(-2, 2), v("n"), v("m")]),
            4 => neg(v("n")),
            _ => r(0.5),
        };
        pow(s(&few), e)
    };
    check_built(RULES[k], &t, &w.env, rule(k));
    rt::witness("reached");
}
/// fractions in sums and products
fn fraction_rules() {
    rt::begin();
    let n = if thorough() { rt::pick("n", &[2usize, 3, 4]) } else { rt::pick("n", &[2, 3]) };
    let few = Few::new(3);
    let xs: Vec<T> = (0..n)
        .map(|j| match rt::choice("part", if j < 3 { 9 } else { 5 }) {
            7 => div(div(few.int(-99, 99, 1), i(3)), few.int(1, 6, 5)),
            8 => mul(vec![few.int(-99, 99, 7), div(i(1), i(4)), div(i(1), i([3, 10, 4][j]))]),
            0 => few.int(-WIDE, WIDE, 5),
            1 => div(few.int(-WIDE, WIDE, 1), i([3, 4, 10, 6][j])),
            2 => div(i([1, 5, -2, 7][j]), few.int(-6, 6, 7)),
            3 => v("x"),
            4 => div(mul(vec![few.int(-9, 9, 2), v("x")]), i([6, 9, 4, 2][j])),
            5 => r(0.5),
            _ => div(v("y"), v("x")),
        })
        .collect();
    let prod = rt::flag("product");
    let t = if prod { mul(xs) } else { add(xs) };
    let w = World::new(false);
    check_built(RULES[7 + prod as usize], &t, &w.env, rule(7 + prod as usize));
    rt::witness("reached");
}
/// logarithms and roots of squares, in variables of either sign
fn rules_signed() {
    rt::begin();
    let w = World::new(false).generic();
    let k = rt::choice("rule", RULES.len());
    let t = match rt::choice("kind", 4) {
        0 => signed(),
        1 => log(squares(), v("x")),
        2 => log(squares(), add(vec![npow(v("y"), 2), i(2)])),
        _ => pow(squares(), i(rt::pick("power", &[-2i64, -1, 2, 3]))),
    };
    val(&t, &w.env);
    let x = if rt::flag("raw") { build_raw(&t) } else { build(&t) };
    let got = rule(k)(x);
    obs(&got);
    let want = val(&t, &w.env);
    check_value(RULES[k], &want, &got, &w.env, || show_t(&t));
    rt::witness("reached");
}
/// the rules on many operands
fn rules_many() {
    rt::begin();
    let few = Few::new(2);
    let prod = rt::flag("product");
    let k = rt::choice("rule", RULES.len());
    let xs = crowd(&few, &[4, 5, 8, 12, 34], false);
    // distribution multiplies out
    if k == 0 && xs.iter().filter(|t| matches!(t, T::Add(_))).count() > 4 {
        return;
    }
    let t = if prod { mul(xs) } else { add(xs) };
    let mut w = World::new(false);
    w.env.set("z", rt::Num::int(3));
    w.env.set("w", rt::value("val_w"));
    check_built(RULES[k], &t, &w.generic().env, rule(k));
    rt::witness("reached");
}
/// the rules on what is nested many levels deep
fn rules_towers() {
    rt::begin();
    let few = Few::new(2);
    let k = rt::choice("rule", RULES.len());
    let p = horner(&few, &[3, 6, 12]);
    let t = match rt::choice("around", 5) {
        0 => p,
        1 => add(vec![mul(vec![v("x"), p.clone()]), mul(vec![p, few.int(-WIDE, WIDE, -2)])]),
        2 => mul(vec![p.clone(), v("y"), pow(p, i(2))]),
        3 => add(vec![v("x"), div(p, v("y"))]),
        _ => mul(vec![div(v("x"), p.clone()), p, i(3)]),
    };
    let w = World::new(false);
    check_built(RULES[k], &t, &w.env, rule(k));
    rt::witness("reached");
}
/// inverse powers and logarithms
fn inverse_rule() {
    rt::begin();
    let w = World::new(true);
    let b = |n: &str| match rt::choice(n, 4) {
        0 => v("x"),
        1 => sint(2, 6),
        2 => add(vec![v("x"), i(1)]),
        _ => v("y"),
    };
    let inner = match rt::choice("inner", 4) {
        0 => v("y"),
        1 => sint(1, 9),
        2 => mul(vec![sint(1, 5), v("y")]),
        _ => v("n"),
    };
    let (b1, b2) = (b("base"), b("base2"));
    let raw = rt::flag("raw");
    let t = if rt::flag("log") { log(pow(b1, inner), b2) } else { pow(b1, log(if matches!(&inner, T::Var(s) if s == "n") { v("y") } else { inner }, b2)) };
    val(&t, &w.env);
    let x = if raw { build_raw(&t) } else { build(&t) };
    let got = InversePowerLog::apply(&x);
    obs(&got);
    let want = val(&t, &w.env);
    check_value("power_log", &want, &got, &w.env, || show_t(&t));
    rt::witness("reached");
}
pub fn list() -> Vec<Harness> {
    let mut out = vec![];
    macro_rules! fam {
        ($p:expr, $m:ident, $($n:ident $b:expr, $w:expr, $c:expr;)*) => { $(out.push(h($p, stringify!($n), $b, $m::$n as fn(), $w, $c));)* };
    }
    macro_rules! both_l {
        ($($t:tt)*) => { fam!("C03", ex, $($t)*); fam!("C04", si, $($t)*); };
    }
    both_l! {
        sums "sums of 2-3 terms (2-4 thorough) out of 6 kinds over two variables, three coefficients in ±2^126 symbolic, alone, minus a term, or times an integer", 2.0, 12;
        many "sums of 5-35 and products of 5-9 operands of two kinds out of 5, two of the numbers symbolic", 1.0, 30;
        mixed_sums "sums of 3 terms out of 7 kinds: integers ±999, reals k/4 or k*2^-40, fractions, multiples of a variable", 2.0, 12;
        products "products of 2-3 factors (2-4 thorough), integer, variable or sum of 2-3 terms; three coefficients in ±2^126 symbolic", 2.0, 12;
        powers "powers -2..3 (-4..4 thorough) of 8 kinds of sums, products and quotients, alone or inside a sum or product", 2.0, 8;
        sum_powers "products and sums of 2 (3 thorough) powers -3..2, n and -n of 6 kinds of sums, opposites among them; two symbolic coefficients", 2.0, 12;
        high_powers "powers 4, 5, -4, -5 (±6 thorough) of 5 kinds of sums and products, alone, times a factor or less a variable", 1.0, 12;
        quotients "7 kinds of numerator over 8 kinds of denominator, alone or inside 5 kinds of operation", 2.0, 8;
        fractions "sums and products of 2 fractions (3 thorough) with numerators in ±2^126 over 3, 4, 10 or ±12/±6", 2.0, 40;
        exponentials "6 kinds of base with 9 kinds of symbolic exponent or logarithm, inside 6 kinds of operation", 3.0, 8;
        either_sign "logarithms of 9 positive expressions in variables of either sign to 4 bases, 7 operations around them, and roots of x^2 + c", 1.0, 20;
        far_powers "powers ±6 and ±7 (±8, ±9 thorough) of sums of 2 terms and ±5 of sums of 3, alone or less a variable; one symbolic coefficient", 1.0, 12;
        towers "polynomials nested 4-12 deep in 5 ways, alone or in 3 kinds of operation; two coefficients in ±2^126 symbolic", 1.0, 20;
        several_variables "polynomials of 9 kinds in four variables of 3 sets of names, alone or in 4 kinds of sum, product and quotient; two coefficients in ±2^126 symbolic", 1.0, 8;
        trees "every tree of + - * / and negation of depth <= 2", 3.0, 2;
    }
    let p = "C05";
    out.extend(vec![
        h(p, "rules_any", "each of the 9 rules on sums, products and powers of 7 kinds of parts", rules_any as fn(), 2.0, 12),
        h(p, "addends", "2-3 addends (2-5 thorough) out of 9 kinds, coefficients in ±2^126", addends, 2.0, 16),
        h(p, "factors", "2-3 factors (2-5 thorough) out of 10 kinds: repeated, inverted, whole and symbolic exponents; factor collection and single denominator", factors, 2.0, 16),
        h(p, "distribution", "products of 2-3 sums, powers -3..4 and symbolic powers of sums and products", distribution, 2.0, 40),
        h(p, "fraction_rules", "2-3 parts (2-4 thorough) out of 9 kinds: integers, fractions, products of fractions, variables, multiples, reals", fraction_rules, 2.0, 14),
        h(p, "rules_signed", "each of the 9 rules on logarithms and roots of 9 positive expressions in variables of either sign, through constructors and as bare nodes", rules_signed, 1.0, 12),
        h(p, "rules_many", "each of the 9 rules on sums and products of 4-34 operands of two kinds out of 7", rules_many, 1.0, 4),
        h(p, "rules_towers", "each of the 9 rules on polynomials nested 3-12 deep in 5 ways, alone or in 4 kinds of sum and product", rules_towers, 1.0, 20),
        h(p, "inverse_rule", "powers of logarithms and logarithms of powers with equal and different bases, through constructors and as bare nodes", inverse_rule, 1.0, 60),
    ]);
    out
}
