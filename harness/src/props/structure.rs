//! C12, C17, C18, C19: iteration orders, absence of panics, access to associations, text.
use super::{h, thorough, Harness};
use crate::gen::*;
use crate::rt::{self, Num, C};
use crate::spec::*;
use crate::text;
use ncas::base::commutative_association::CommutativeAssociation;
use ncas::base::expression::Expression;
use ncas::base::operation::Operation;
use ncas::base::symbol::Symbol;
use ncas::manipulation::expansion_rules::rule::Rule as ERule;
use ncas::manipulation::expansion_rules::{
    multiplicative_distributive::MultiplicativeDistributive, power_distributive_addition::PowerDistributiveAddition,
    power_distributive_multiplication::PowerDistributiveMultiplication,
};
use ncas::manipulation::simplification_rules::factoring::{
    additive_common_addend::AdditiveCommonAddend, multiplicative_common_factor::MultiplicativeCommonFactor,
    single_algebraic_denominator::SingleAlgebraicDenominator,
};
use ncas::manipulation::simplification_rules::identities::inverse_power_log::InversePowerLog;
use ncas::manipulation::simplification_rules::rational::{
    rationals::Rational, rationals_addition::RationalsAddition, rationals_multiplication::RationalsMultiplication,
};
use ncas::manipulation::simplification_rules::rule::Rule as SRule;
use num::bigint::BigInt;

// ------------------------------------------------------------------------ C12
const STEPS: [&str; 4] = ["simplify", "collect addends", "collect factors", "twice"];
fn step(k: usize, x: Expression) -> Expression {
    match k {
        0 => x.simplify(),
        1 => AdditiveCommonAddend::apply(&x),
        2 => MultiplicativeCommonFactor::apply(&x),
        _ => x.simplify().simplify(),
    }
}
/// any order in which a hash map may hand out its entries gives the same result
fn orders(t: &T, k: usize) {
    rt::pin_order();
    let x = build(t);
    let want = step(k, x.clone());
    obs(&want);
    let runs = if rt::SYM { 1 } else { 40 };
    for _ in 0..runs {
        rt::explore_orders();
        let got = step(k, x.clone());
        rt::pin_order();
        rt::check(STEPS[k], &C::t(got == want), || format!("{} of {}: {} or {}", STEPS[k], show(&x), show(&want), show(&got)));
    }
    rt::witness("reached");
}
fn orders_sums() {
    rt::begin();
    let few = Few::new(2);
    let n = rt::pick("n", &[2usize, 3, 4]);
    let xs = (0..n)
        .map(|j| match rt::choice("term", if j < 3 { 9 } else { 3 }) {
            0 => mul(vec![few.int(-WIDE, WIDE, -2), v("x")]),
            1 => mul(vec![few.int(-WIDE, WIDE, 3), v("y")]),
            2 => v("x"),
            3 => few.int(-WIDE, WIDE, 4),
            4 => neg(mul(vec![v("x"), v("y")])),
            5 => npow(v("x"), 2),
            6 => div(few.int(-9, 9, 1), i(3)),
            7 => mul(vec![r(1.5), v("y")]),
            _ => log(v("x"), v("y")),
        })
        .collect();
    let k = rt::choice("step", 4);
    orders(&add(xs), k);
}
fn orders_products() {
    rt::begin();
    let few = Few::new(2);
    let n = rt::pick("n", &[2usize, 3, 4]);
    let xs = (0..n)
        .map(|j| match rt::choice("factor", if j < 3 { 11 } else { 3 }) {
            8 => pow(v("y"), v("n")),
            9 => pow(v("z"), v("n")),
            10 => pow(i(2), v("n")),
            0 => v("x"),
            1 => pow(v("y"), few.int(-3, 4, 2)),
            2 => div(i(1), v("x")),
            3 => few.int(-WIDE, WIDE, 4),
            4 => add(vec![v("x"), few.int(-WIDE, WIDE, 1)]),
            5 => pow(v("x"), v("n")),
            6 => div(i(1), few.int(-9, 9, 6)),
            _ => div(v("y"), add(vec![v("x"), i(1)])),
        })
        .collect();
    let t = mul(xs);
    val(&t, &World::new(true).env);
    let k = rt::choice("step", 4);
    orders(&t, k);
}
/// few kinds of parts, no numbers to choose: every combination, every order
fn orders_small() {
    rt::begin();
    let sum = rt::flag("sum");
    let n = rt::pick("n", &[3usize, 4]);
    let xs: Vec<T> = (0..n)
        .map(|j| {
            if sum {
                match rt::choice("term", if j < 3 { 8 } else { 4 }) {
                    0 => v("x"),
                    1 => v("y"),
                    2 => mul(vec![i(2), v("z")]),
                    3 => mul(vec![v("x"), v("y")]),
                    4 => neg(v("x")),
                    5 => mul(vec![i(-3), v("y")]),
                    6 => pow(v("x"), i(2)),
                    _ => i(5),
                }
            } else {
                match rt::choice("factor", if j < 3 { 9 } else { 4 }) {
                    0 => pow(v("x"), v("n")),
                    1 => pow(v("y"), v("n")),
                    2 => v("x"),
                    3 => pow(v("z"), i(2)),
                    4 => pow(v("z"), v("n")),
                    5 => pow(i(2), v("n")),
                    6 => pow(v("y"), mul(vec![i(-1), v("n")])),
                    7 => div(i(1), v("y")),
                    _ => i(6),
                }
            }
        })
        .collect();
    let t = if sum { add(xs) } else { mul(xs) };
    let k = rt::choice("step", 4);
    orders(&t, k);
}
/// more entries than there are orders to try: 24 of them
fn orders_many() {
    rt::begin();
    let n = rt::pick("n", &[5usize, 6, 8]);
    let k = [rt::choice("kind", 6), rt::choice("kind", 6)];
    let sum = rt::flag("sum");
    let name = |j: usize| v(["x", "y", "z", "w", "u"][j % 5]);
    let xs: Vec<T> = (0..n)
        .map(|j| match (k[j % 2], sum) {
            (0, _) => name(j),
            (1, true) => mul(vec![i(2 + j as i64), name(j), v("k")]),
            (2, true) => neg(name(j + 1)),
            (3, true) => npow(name(j / 2), 1 + (j as u32 / 2) % 3),
            (4, true) => mul(vec![name(j), name(j + 1)]),
            (_, true) => div(name(j), i([2, 3][j % 2])),
            (1, false) => pow(name(j), v("n")),
            (2, false) => div(i(1), name(j / 2)),
            (3, false) => npow(name(j / 2), 1 + (j as u32 / 2) % 3),
            (4, false) => pow(name(j / 2), neg(v("n"))),
            (_, false) => add(vec![name(j), i(1)]),
        })
        .collect();
    if !sum && xs.iter().filter(|x| matches!(x, T::Add(_))).count() > 3 {
        return;
    }
    orders(&if sum { add(xs) } else { mul(xs) }, rt::choice("step", 4));
}
/// polynomials nested several levels deep
fn orders_towers() {
    rt::begin();
    let t = horner(&Few::new(0), &[3, 4, 6]);
    let t = if rt::flag("wrapped") { wrapped(t, &[1, 2]) } else { t };
    orders(&t, rt::choice("step", 4));
}
fn orders_nested() {
    rt::begin();
    let few = Few::new(2);
    let part = |few: &Few| match rt::choice("part", 5) {
        0 => add(vec![v("x"), few.int(-WIDE, WIDE, 2)]),
        1 => mul(vec![v("y"), add(vec![v("x"), v("y")])]),
        2 => npow(add(vec![v("x"), v("y")]), 2),
        3 => div(v("x"), mul(vec![v("y"), v("x")])),
        _ => mul(vec![few.int(-WIDE, WIDE, 3), v("x"), v("y")]),
    };
    let (a, b) = (part(&few), part(&few));
    let t = match rt::choice("outer", 4) {
        0 => add(vec![a, b]),
        1 => mul(vec![a, b]),
        2 => sub(a, b),
        _ => log(mul(vec![a, v("x")]), b),
    };
    val(&t, &World::new(true).env);
    orders(&t, if rt::flag("twice") { 3 } else { 0 });
}
/// comparisons give the same answers
fn orders_comparisons() {
    rt::begin();
    let few = Few::new(3);
    let part = |few: &Few| match rt::choice("part", 4) {
        0 => add(vec![mul(vec![few.int(-WIDE, WIDE, 2), v("x")]), v("y"), few.int(-WIDE, WIDE, 2)]),
        1 => mul(vec![add(vec![v("x"), few.int(-WIDE, WIDE, 2)]), add(vec![v("y"), i(1)])]),
        2 => npow(add(vec![v("x"), v("y")]), 2),
        _ => add(vec![npow(v("x"), 2), mul(vec![few.int(-WIDE, WIDE, 2), v("x"), v("y")]), npow(v("y"), 2)]),
    };
    let (a, b) = (build(&part(&few)), build(&part(&few)));
    let all = |a: &Expression, b: &Expression| {
        vec![a.equal(b), a.not_equal(b), a.greater(b), a.lesser(b), a.greater_equal(b), a.lesser_equal(b), a.comparable(b)]
    };
    rt::pin_order();
    let want = all(&a, &b);
    let w = format!("{:?}", want);
    rt::observe(move || w);
    for _ in 0..if rt::SYM { 1 } else { 40 } {
        rt::explore_orders();
        let got = all(&a, &b);
        rt::pin_order();
        rt::check("verdicts", &C::t(got == want), || format!("{} and {}: {:?} or {:?}", show(&a), show(&b), want, got));
    }
    rt::witness("reached");
}

// ------------------------------------------------------------------------ C17
/// everything one can do with an expression, without a look at the result
fn exercise(x: &Expression, y: &Expression, k: usize) {
    let n = match k {
        0 => x.clone().expand().id(),
        1 => x.clone().simplify().id(),
        2 => x.equal(y) as usize + x.not_equal(y) as usize,
        3 => x.greater(y) as usize + x.lesser(y) as usize + x.comparable(y) as usize,
        4 => x.cmp(y) as usize + (x == y) as usize + rt::same_hash(x, y) as usize,
        5 => {
            rt::symbolic_text(true);
            let n = format!("{}", x).len();
            rt::symbolic_text(false);
            (n > 0) as usize
        }
        6 => [
            MultiplicativeDistributive::apply(x),
            PowerDistributiveAddition::apply(x),
            PowerDistributiveMultiplication::apply(x),
            AdditiveCommonAddend::apply(x),
            MultiplicativeCommonFactor::apply(x),
        ]
        .iter()
        .map(|e| e.id())
        .sum(),
        7 => [SingleAlgebraicDenominator::apply(x), InversePowerLog::apply(x), RationalsAddition::apply(x), RationalsMultiplication::apply(x)]
            .iter()
            .map(|e| e.id())
            .sum(),
        8 => [x + y, x - y, x * y, -x].iter().map(|e| e.id()).sum(),
        _ => match x {
            Expression::Addition(a) | Expression::Multiplication(a) => {
                a.items().len()
                    + a.get_reals().len()
                    + a.get_rationals().len()
                    + a.get_non_rationals().len()
                    + a.get_symbolics().len()
                    + a.get_rational_numerators().len()
                    + a.get_rational_denominators().len()
            }
            _ => 0,
        },
    };
    rt::observe(move || n.to_string());
}
fn panics_trees() {
    rt::begin();
    let d = Dom::any(&["x"]);
    let t = d.tree(2, false);
    let w = World::new(false);
    val(&t, &w.env);
    let k = rt::choice("use", 10);
    let x = build(&t);
    let y = if k == 2 || k == 3 || k == 8 { build(&d.leaf(false)) } else { x.clone() };
    exercise(&x, &y, k);
    rt::witness("reached");
}
/// sums and products of many operands
fn panics_many() {
    rt::begin();
    let few = Few::new(2);
    let prod = rt::flag("product");
    let xs = crowd(&few, &[5, 8, 12, 34], true);
    let open = xs.iter().filter(|t| matches!(t, T::Add(_))).count();
    if prod && open > 3 {
        return;
    }
    let x = build(&if prod { mul(xs) } else { add(xs) });
    let y = if rt::flag("other") { build(&v("x")) } else { x.clone() };
    let k = rt::choice("use", 10);
    exercise(&x, &y, k);
    rt::witness("reached");
}
/// nested many levels deep
fn panics_towers() {
    rt::begin();
    let few = Few::new(2);
    let t = match rt::choice("what", 3) {
        0 => horner(&few, &[4, 8, 14]),
        1 => wrapped(add(vec![mul(vec![few.int(-WIDE, WIDE, 3), v("x")]), v("y")]), &[2, 4, 8]),
        _ => wrapped(npow(add(vec![v("x"), few.int(-WIDE, WIDE, 3)]), 2), &[1, 3, 6]),
    };
    let x = build(&t);
    let y = if rt::flag("other") { build(&v("x")) } else { x.clone() };
    let k = rt::choice("use", 10);
    exercise(&x, &y, k);
    rt::witness("reached");
}
/// numbers far beyond machine words and at the edges of floating point
fn panics_extremes() {
    rt::begin();
    let big = |few: &Few| match rt::choice("number", 7) {
        0 => few.int(-WIDE, WIDE, 5),
        1 => T::Int(BigInt::from(1) << 1100usize),
        2 => T::Int(-(BigInt::from(1) << 64usize)),
        3 => r(rt::pick("real", &[1e308, -1e-308, 5e-324, -0.0, 0.1, 1.0, -1.0, 9007199254740993.0])),
        4 => v("x"),
        5 => mul(vec![T::Int(BigInt::from(3) << 90usize), v("x")]),
        _ => add(vec![v("x"), T::Int(-(BigInt::from(1) << 63usize))]),
    };
    let few = Few::new(2);
    rt::allow_rounding();
    let (a, b) = (big(&few), big(&few));
    let second = b.clone();
    let t = match rt::choice("operation", 6) {
        0 => add(vec![a, b]),
        1 => sub(a, b),
        2 => mul(vec![a, b]),
        3 => {
            if matches!(&b, T::Int(_)) {
                rt::assume(&val(&b, &Env::default()).zero_c().not());
            }
            if matches!(&b, T::Real(r) if *r == 0.0) {
                rt::assume(&C::t(false));
            }
            div(a, b)
        }
        4 => pow(a, i(rt::pick("exponent", &[-2i64, -1, 0, 1, 2, 3]))),
        _ => pow(v("y"), a),
    };
    let x = build(&t);
    let k = rt::choice("use", 10);
    let y = if rt::flag("other") { build(&second) } else { x.clone() };
    exercise(&x, &y, k);
    rt::witness("reached");
}
/// exponents beyond the machine word, on bases without numeric factors
fn panics_huge_exponents() {
    rt::begin();
    let base = match rt::choice("base", 11) {
        7 => i(-1),
        8 => neg(v("x")),
        9 => div(v("y"), neg(v("x"))),
        10 => neg(add(vec![v("x"), v("y")])),
        0 => v("x"),
        1 => add(vec![v("x"), i(rt::pick("k", &[1i64, -1, 7]))]),
        2 => add(vec![v("x"), v("y")]),
        3 => mul(vec![v("x"), v("y")]),
        4 => mul(vec![v("y"), add(vec![v("x"), i(1)])]),
        5 => log(add(vec![v("x"), i(1)]), i(2)),
        _ => div(v("x"), add(vec![v("y"), i(3)])),
    };
    let n = |name: &str| {
        let k = BigInt::from(1) << rt::pick(name, &[63usize, 64, 70, 200]);
        let k = k + BigInt::from(rt::pick("offset", &[1i64, 2]));
        if rt::flag("negative") { T::Int(-(k + BigInt::from(1))) } else { T::Int(k) }
    };
    let e = match rt::choice("exponent", 4) {
        0 => n("bits"),
        1 => mul(vec![n("bits"), v("z")]),
        2 => mul(vec![n("bits"), v("y"), v("z")]),
        _ => add(vec![n("bits"), v("z")]),
    };
    let t = pow(base, e);
    let t = match rt::choice("around", 4) {
        0 => t,
        1 => add(vec![t, v("x")]),
        2 => mul(vec![t, v("x")]),
        _ => add(vec![t.clone(), t]),
    };
    let x = build(&t);
    let y = if rt::flag("other") { build(&v("x")) } else { x.clone() };
    exercise(&x, &y, rt::choice("use", 10));
    rt::witness("reached");
}
/// powers and logarithms
fn panics_powers() {
    rt::begin();
    let few = Few::new(2);
    let w = World::new(true);
    let leaf = |few: &Few| match rt::choice("leaf", 6) {
        0 => few.int(-4, 4, 2),
        1 => r(rt::pick("real", &[0.5, -1.5, 2.0])),
        2 => v("x"),
        3 => v("n"),
        4 => mul(vec![v("n"), few.int(-3, 3, -1)]),
        _ => add(vec![v("x"), few.int(-3, 3, 1)]),
    };
    let (a, b) = (leaf(&few), leaf(&few));
    let t = match rt::choice("operation", 5) {
        0 => pow(a, b),
        1 => log(a, b),
        2 => pow(pow(v("x"), a), b),
        3 => mul(vec![pow(a, b), v("x")]),
        _ => pow(mul(vec![a, v("y")]), b),
    };
    val(&t, &w.env);
    let x = build(&t);
    let k = rt::choice("use", 10);
    exercise(&x, &x.clone(), k);
    rt::witness("reached");
}
/// associations of any content, put together by hand
fn panics_raw() {
    rt::begin();
    let few = Few::new(2);
    let n = rt::choice("n", 4);
    let items: Vec<Expression> = (0..n).map(|_| item(&few)).collect();
    let x = match rt::choice("node", 6) {
        0 => raw_add(items),
        1 => raw_mul(items),
        2 => raw_pow(raw_add(items), eint(BigInt::from(2))),
        3 => raw_log(raw_mul(items), evar("x")),
        4 => Expression::Sine(Operation::new(raw_add(items))),
        _ => Expression::Cossine(Operation::new(raw_mul(items))),
    };
    let k = rt::pick("use", &[0usize, 1, 4, 5, 6, 8, 9]);
    exercise(&x, &x.clone(), k);
    rt::witness("reached");
}

// ------------------------------------------------------------------------ C18
const ITEMS: usize = 20;
fn item(few: &Few) -> Expression {
    let n = |few: &Few, w: i128, o: i64| match few.int(-w, w, o) {
        T::Int(n) => eint(n),
        _ => unreachable!(),
    };
    let inv = |x: Expression| raw_pow(x, eint(BigInt::from(-1)));
    match rt::choice("item", ITEMS) {
        0 => n(few, WIDE, 2),
        1 => ereal(if few.0.get() > 0 { rt::real("real", 4096, 4) } else { 0.5 }),
        2 => evar("x"),
        3 => inv(n(few, WIDE, 3)),
        4 => raw_pow(evar("x"), n(few, WIDE, 2)),
        5 => raw_mul(vec![n(few, WIDE, 5), inv(eint(BigInt::from(7)))]),
        6 => raw_mul(vec![n(few, WIDE, 5), evar("x")]),
        7 => raw_add(vec![evar("y"), n(few, WIDE, 1)]),
        8 => raw_log(evar("x"), eint(BigInt::from(2))),
        9 => Expression::Sine(Operation::new(evar("x"))),
        10 => raw_mul(vec![ereal(0.5), eint(BigInt::from(3))]),
        11 => raw_pow(n(few, WIDE, 2), evar("x")),
        12 => raw_pow(ereal(0.5), n(few, WIDE, 2)),
        13 => raw_mul(vec![inv(n(few, WIDE, 3)), inv(eint(BigInt::from(7)))]),
        14 => Expression::Cossine(Operation::new(n(few, WIDE, 2))),
        15 => raw_mul(vec![n(few, WIDE, 5), inv(eint(BigInt::from(3))), inv(eint(BigInt::from(5))), inv(n(few, WIDE, 7))]),
        16 => raw_mul(vec![n(few, WIDE, 5), evar("x"), inv(eint(BigInt::from(7))), inv(evar("y")), ereal(0.5)]),
        17 => raw_mul((2..9).map(|k| inv(eint(BigInt::from(k)))).collect()),
        18 => raw_mul(vec![raw_mul(vec![n(few, WIDE, 5), eint(BigInt::from(2))]), eint(BigInt::from(3))]),
        _ => inv(evar("y")),
    }
}
fn is_inverse(x: &Expression) -> bool {
    matches!(x, Expression::Power(p) if matches!((p.argument(), p.modifier()), (Expression::Integer(_), Expression::Integer(_))))
}
fn is_int(x: &Expression) -> bool {
    matches!(x, Expression::Integer(_))
}
fn is_real(x: &Expression) -> bool {
    matches!(x, Expression::Real(_))
}
fn is_rational(x: &Expression) -> bool {
    match x {
        Expression::Multiplication(m) => m.items().iter().all(|f| is_int(f) || is_inverse(f)),
        _ => is_int(x) || is_inverse(x),
    }
}
fn bag(a: &[Expression], b: &[Expression]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut left: Vec<&Expression> = b.iter().collect();
    a.iter().all(|x| match left.iter().position(|y| *y == x) {
        Some(k) => {
            left.remove(k);
            true
        }
        None => false,
    })
}
fn list_of(v: &[Expression]) -> String {
    format!("[{}]", v.iter().map(show).collect::<Vec<_>>().join(", "))
}
fn access() {
    rt::begin();
    let few = Few::new(if thorough() { 3 } else { 2 });
    let n = rt::choice("n", if thorough() { 5 } else { 4 });
    let given: Vec<Expression> = (0..n).map(|_| item(&few)).collect();
    let a = CommutativeAssociation::new(given.clone());
    let items = a.items();
    let shown = list_of(&items);
    rt::observe(move || shown);
    // what is handed out: the chosen items in structural order
    let check = |label: &str, got: &[Expression], want: &[Expression]| {
        rt::check(label, &C::t(got == want), || format!("{} of {}: {} instead of {}", label, list_of(&given), list_of(got), list_of(want)));
    };
    rt::check("items", &C::t(bag(&items, &given)), || format!("items of {}: {}", list_of(&given), list_of(&items)));
    rt::check("items in order", &C::t(items.windows(2).all(|w| w[0] <= w[1])), || format!("items {}", list_of(&items)));
    let pick = |f: &dyn Fn(&Expression) -> bool| items.iter().filter(|x| f(x)).cloned().collect::<Vec<_>>();
    match rt::choice("access", 8) {
        0 => check("get_reals", &a.get_reals(), &pick(&is_real)),
        1 => check("get_rational_numerators", &a.get_rational_numerators(), &pick(&is_int)),
        2 => {
            let want: Vec<Expression> = pick(&is_inverse)
                .iter()
                .map(|x| match x {
                    Expression::Power(p) => p.argument(),
                    _ => unreachable!(),
                })
                .collect();
            check("get_rational_denominators", &a.get_rational_denominators(), &want)
        }
        3 => check("get_rationals", &a.get_rationals(), &pick(&is_rational)),
        4 => check("get_non_rationals", &a.get_non_rationals(), &pick(&|x| !is_rational(x))),
        5 => check("get_symbolics", &a.get_symbolics(), &pick(&|x| !is_int(x) && !is_real(x) && !is_inverse(x))),
        6 => {
            let f = |x: &Expression| matches!(x, Expression::Variable(_) | Expression::Integer(_));
            let got = a.get(&f);
            check("get", &got, &pick(&f));
            let one = a.get_one(&f);
            rt::check("get_one", &C::t(one.as_ref() == got.first()), || format!("get_one of {}: {}", list_of(&given), one.as_ref().map_or("nothing".into(), show)));
        }
        _ => {
            let f = |x: &Expression| raw_pow(x.clone(), evar("k"));
            check("map", &a.map(&f), &items.iter().map(f).collect::<Vec<_>>());
        }
    }
    // asking changes nothing
    check("items afterwards", &a.items(), &items);
    rt::witness("reached");
}
/// associations of many items
fn access_many() {
    rt::begin();
    let few = Few::new(2);
    let n = rt::pick("n", &[5usize, 8, 9, 12, 17, 35]);
    let k = [rt::choice("kind", 4), rt::choice("kind", 4), rt::choice("kind", 4)];
    let int = |j: usize, o: i64| match few.int(-WIDE, WIDE, o + (j as i64 * 5) % 7) {
        T::Int(n) => eint(n),
        _ => unreachable!(),
    };
    let given: Vec<Expression> = (0..n)
        .map(|j| match k[j % 3] {
            0 => int(j, -3),
            1 => evar(["x", "b", "y", "a", "x"][j % 5]),
            2 => raw_pow(int(j, 2), eint(BigInt::from(-1))),
            _ => ereal([0.5, -1.0, 2.5, 0.5][j % 4]),
        })
        .collect();
    let a = CommutativeAssociation::new(given.clone());
    let mut want = given.clone();
    // insertion, so that only the order of two is asked for
    for i in 1..want.len() {
        let mut j = i;
        while j > 0 && want[j] < want[j - 1] {
            want.swap(j, j - 1);
            j -= 1;
        }
    }
    let pick = |f: &dyn Fn(&Expression) -> bool| want.iter().filter(|x| f(x)).cloned().collect::<Vec<_>>();
    let (label, got, want) = match rt::choice("access", 9) {
        0 => ("items", a.items(), want.clone()),
        1 => ("get_reals", a.get_reals(), pick(&is_real)),
        2 => ("get_rational_numerators", a.get_rational_numerators(), pick(&is_int)),
        3 => ("get_rationals", a.get_rationals(), pick(&is_rational)),
        4 => ("get_non_rationals", a.get_non_rationals(), pick(&|x| !is_rational(x))),
        5 => ("get_symbolics", a.get_symbolics(), pick(&|x| !is_int(x) && !is_real(x) && !is_inverse(x))),
        6 => ("get", a.get(&is_int), pick(&is_int)),
        7 => ("get_one", a.get_one(&is_real).into_iter().collect(), pick(&is_real).into_iter().take(1).collect()),
        _ => ("map", a.map(&|x| raw_pow(x.clone(), evar("k"))), want.iter().map(|x| raw_pow(x.clone(), evar("k"))).collect()),
    };
    rt::check(label, &C::t(got == want), || format!("{} of {}: {} instead of {}", label, list_of(&given), list_of(&got), list_of(&want)));
    rt::witness("reached");
}
/// parts of operations
fn parts() {
    rt::begin();
    let few = Few::new(2);
    let (a, b) = (item(&few), item(&few));
    let k = rt::choice("node", 4);
    let x = match k {
        0 => raw_pow(a.clone(), b.clone()),
        1 => raw_log(a.clone(), b.clone()),
        2 => Expression::Sine(Operation::new(a.clone())),
        _ => Expression::Cossine(Operation::new(a.clone())),
    };
    obs(&x);
    let about = || format!("{} and {} in {}", show(&a), show(&b), show(&x));
    match &x {
        Expression::Power(p) | Expression::Logarithm(p) => {
            rt::check("argument", &C::t(p.argument() == a), about);
            rt::check("modifier", &C::t(p.modifier() == b), about);
        }
        Expression::Sine(o) | Expression::Cossine(o) => rt::check("argument", &C::t(o.argument() == a), about),
        _ => unreachable!(),
    }
    rt::witness("reached");
}

// ------------------------------------------------------------------------ C19
fn reads_back(label: &str, x: &Expression) {
    rt::symbolic_text(true);
    let s = format!("{}", x);
    rt::symbolic_text(false);
    obs(x);
    let ok = match text::read(&s) {
        Some(t) => text::says(&t, x),
        None => false,
    };
    rt::check(label, &C::t(ok), || format!("{} is written {}", show(x), s));
}
fn a_name() -> T {
    v(rt::pick("name", &["x", "y", "alpha", "x1", "a_b", "inverse"]))
}
fn text_leaf(few: &Few) -> T {
    match rt::choice("leaf", 4) {
        0 => few.int(-WIDE, WIDE, -7),
        1 => a_name(),
        2 => r(rt::pick("real", &[0.5, -1.25, 3.0, -0.0, 1e21, -1e-7, 0.1, 123456789.125, 1.25e-14, 5e-324, -1.7976931348623157e308, 0.30000000000000004, 9007199254740993.0])),
        _ => r(if few.0.get() > 0 { rt::real("any_real", 12, 4) } else { 2.5 }),
    }
}
fn text_tree(few: &Few, depth: u32) -> T {
    if depth == 0 || rt::flag("leaf?") {
        return text_leaf(few);
    }
    let k = rt::choice("node", 6);
    let a = text_tree(few, depth - 1);
    let b = text_tree(few, depth - 1);
    match k {
        0 => add(vec![a, b]),
        1 => mul(vec![a, b]),
        2 => pow(a, b),
        3 => log(a, b),
        4 => add(vec![a, b, v("z")]),
        _ => mul(vec![b, v("z"), a]),
    }
}
fn text_trees() {
    rt::begin();
    let t = text_tree(&Few::new(2), 2);
    reads_back("text", &build_raw(&t));
    rt::witness("reached");
}
fn text_built() {
    rt::begin();
    let d = Dom::ints(&["x", "y"]);
    let t = d.tree(2, false);
    val(&t, &World::new(false).env);
    let x = build(&t);
    let x = match rt::choice("stage", 3) {
        0 => x,
        1 => x.expand(),
        _ => x.simplify(),
    };
    reads_back("text", &x);
    rt::witness("reached");
}
/// every kind of node, and associations of one item
fn text_nodes() {
    rt::begin();
    let few = Few::new(2);
    let n = 1 + rt::choice("n", 3);
    let items: Vec<Expression> = (0..n).map(|_| item(&few)).collect();
    let x = match rt::choice("node", 6) {
        0 => raw_add(items),
        1 => raw_mul(items),
        2 => raw_pow(raw_add(items), item(&few)),
        3 => raw_log(item(&few), raw_mul(items)),
        4 => Expression::Sine(Operation::new(raw_add(items))),
        _ => Expression::Cossine(Operation::new(raw_mul(items))),
    };
    reads_back("text", &x);
    rt::witness("reached");
}
/// long associations
fn text_many() {
    rt::begin();
    let few = Few::new(2);
    let items: Vec<Expression> = crowd(&few, &[4, 7, 12, 34], true).iter().map(build_raw).collect();
    let x = match rt::choice("node", 3) {
        0 => raw_add(items),
        1 => raw_mul(items),
        _ => raw_pow(raw_mul(items.clone()), raw_add(items)),
    };
    reads_back("text", &x);
    rt::witness("reached");
}
/// nodes nested many levels deep
fn text_towers() {
    rt::begin();
    let few = Few::new(2);
    let n = rt::pick("depth", &[4usize, 9, 14]);
    let k = [rt::choice("kind", 7), rt::choice("kind", 7)];
    let odd = rt::pick("odd", &[0usize, n / 2, n - 1]);
    let leaf = |j: usize| if j == odd { build(&few.int(-WIDE, WIDE, 4)) } else { evar(["x", "alpha", "y"][j % 3]) };
    let x = (0..n).fold(leaf(odd), |t, j| match k[j % 2] {
        0 => raw_add(vec![t, leaf(j)]),
        1 => raw_mul(vec![leaf(j), t]),
        2 => raw_pow(t, leaf(j)),
        3 => raw_pow(leaf(j), t),
        4 => raw_log(t, leaf(j)),
        5 => raw_log(leaf(j), t),
        _ => raw_mul(vec![raw_add(vec![evar("z"), t]), leaf(j), evar("z")]),
    });
    reads_back("text", &x);
    rt::witness("reached");
}
/// labels of symbols
fn labels() {
    rt::begin();
    match rt::choice("symbol", 3) {
        0 => {
            let s = rt::pick("name", &["x", "y", "alpha", "", "a b", "é", " x", "x ", "X", "x\t", "Sin", "very long name of a variable"]);
            let l = Symbol::variable(s).label();
            rt::check("variable", &C::t(l == s), || format!("variable {:?} is called {:?}", s, l));
        }
        1 => {
            let n = match rt::choice("size", 5) {
                0 => rt::int("n", -WIDE, WIDE),
                1 => rt::int("n", -999, 999),
                k => {
                    let far = BigInt::from(10).pow([30u32, 45, 120][k - 2]);
                    if rt::flag("negative") { rt::int("n", -WIDE, WIDE) - far } else { rt::int("n", -WIDE, WIDE) + far }
                }
            };
            rt::symbolic_text(true);
            let l = Symbol { data: n.clone() }.label();
            rt::symbolic_text(false);
            match text::number(&l) {
                Some(k) => rt::check("integer", &k.eq(&Num::big(&n)), || format!("{} is written {}", n, l)),
                None => rt::fail("integer", format!("{} is written {}", n, l)),
            }
        }
        _ => {
            let f = match rt::choice("unit", 7) {
                0 => rt::real("real", 40, 4),
                1 => rt::real_scaled("real", 9, -10),
                2 => rt::real_scaled("real", 9, -36),
                3 => rt::real_scaled("real", 9, -70),
                4 => rt::real_scaled("real", 9, -900),
                5 => rt::real_scaled("real", 9, 70),
                _ => rt::real_scaled("real", 9, 900),
            };
            let l = Symbol::real(f).label();
            let back: Option<f64> = l.parse().ok();
            let ok = back.and_then(Num::f).and_then(|b| Num::f(f).map(|a| a.eq(&b)));
            match ok {
                Some(c) => rt::check("real", &c, || format!("{} is written {}", rt::show_f(f), l)),
                None => rt::fail("real", format!("{} is written {}", rt::show_f(f), l)),
            }
        }
    }
    rt::witness("reached");
}

pub fn list() -> Vec<Harness> {
    let p = "C12";
    let mut out = vec![
        h(p, "orders_sums", "simplify and the collecting rules on sums of 2-4 terms of 9 kinds, every iteration order (all permutations up to 4 entries)", orders_sums as fn(), 2.0, 30),
        h(p, "orders_products", "products of 2-4 factors of 11 kinds, every iteration order", orders_products, 2.0, 30),
        h(p, "orders_small", "products and sums of 3-4 parts of 8-9 kinds without numbers to choose, every iteration order", orders_small, 2.0, 0),
        h(p, "orders_many", "sums and products of 5, 6 and 8 parts of two kinds out of 6 in five variables", orders_many, 1.0, 12),
        h(p, "orders_towers", "polynomials nested 3-6 deep in 5 ways, alone and inside 1-2 powers, logarithms and quotients", orders_towers, 1.0, 12),
        h(p, "orders_nested", "sums, products, differences, logarithms of 5 kinds of sums and products", orders_nested, 2.0, 40),
        h(p, "orders_comparisons", "7 verdicts on pairs of 4 kinds of polynomial", orders_comparisons, 2.0, 60),
    ];
    let p = "C17";
    out.extend(vec![
        h(p, "panics_trees", "10 groups of functions on every tree of depth <= 2", panics_trees as fn(), 2.0, 4),
        h(p, "panics_extremes", "the same on operations between numbers beyond machine words (to 2^1100) and extreme reals", panics_extremes, 2.0, 20),
        h(p, "panics_huge_exponents", "the same on powers of 7 bases without numeric factors to exponents beyond 2^63, to 2^200, alone and in products and sums", panics_huge_exponents, 1.0, 0),
        h(p, "panics_powers", "the same on powers and logarithms", panics_powers, 2.0, 20),
        h(p, "panics_many", "the same on sums and products of 5-34 operands of two kinds out of 8", panics_many, 1.0, 6),
        h(p, "panics_towers", "polynomials nested 4-14 deep and polynomials inside 1-8 powers, logarithms, quotients, products and sums", panics_towers, 1.0, 12),
        h(p, "panics_raw", "7 groups of functions on nodes with 0-3 items of 16 kinds, put together by hand", panics_raw, 2.0, 6),
    ]);
    let p = "C18";
    out.extend(vec![
        h(p, "access", "10 accessors on associations of 0-3 items (4 thorough) of 16 kinds", access as fn(), 2.0, 200),
        h(p, "access_many", "9 accessors on associations of 5-35 items of three kinds out of 4, two of the integers symbolic", access_many, 1.0, 60),
        h(p, "parts", "argument and modifier of powers, logarithms, sines and cosines of 16 kinds of expression", parts, 1.0, 0),
    ]);
    let p = "C19";
    out.extend(vec![
        h(p, "text_trees", "every tree of sums, products, powers and logarithms of depth <= 2, integers in ±2^126, reals, 6 names", text_trees as fn(), 2.0, 6),
        h(p, "text_built", "every built, expanded or simplified tree of + - * / and negation of depth <= 2", text_built, 2.0, 6),
        h(p, "text_nodes", "every kind of node with 1-3 items of 16 kinds", text_nodes, 2.0, 6),
        h(p, "text_many", "sums and products of 4-34 items of two kinds out of 8", text_many, 1.0, 12),
        h(p, "text_towers", "nodes of two kinds out of 7 nested 4-14 deep", text_towers, 1.0, 12),
        h(p, "labels", "labels of variables, integers in ±2^126, reals k/4", labels, 0.5, 0),
    ]);
    out
}
