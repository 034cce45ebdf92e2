//! C06, C07, C08, C10: comparisons, equality, order, hash, and the order of operands.
use super::{h, thorough, Harness};
use crate::gen::*;
use crate::rt::{self, C};
use crate::spec::*;
use ncas::base::expression::Expression;
use ncas::base::operation::Operation;
use std::cmp::Ordering;

const KINDS: usize = 13;
const EXACT: usize = 10;
/// `w` bounds the integers: small ones next to reals
fn side(few: &Few, k: usize, w: i128) -> T {
    match k {
        0 => add(vec![mul(vec![few.int(-w, w, 3), v("x")]), few.int(-w, w, 2)]),
        1 => npow(add(vec![v("x"), few.int(-w, w, 2)]), 2),
        2 => mul(vec![add(vec![v("x"), few.int(-w, w, 1)]), add(vec![v("y"), few.int(-w, w, -2)])]),
        3 => add(vec![mul(vec![few.int(-w, w, 2), v("x"), v("y")]), few.int(-w, w, 2)]),
        4 => few.int(-w, w, 4),
        5 => div(few.int(-w, w, 3), i(4)),
        6 => div(mul(vec![few.int(-w, w, 3), v("x")]), v("y")),
        7 => sub(mul(vec![v("x"), add(vec![v("y"), few.int(-w, w, 2)])]), mul(vec![v("y"), v("x")])),
        8 => npow(mul(vec![few.int(-w, w, 2), v("x")]), 2),
        9 => pow(v("x"), v("n")),
        10 => few.real(-1.5),
        11 => add(vec![few.real(2.5), mul(vec![few.int(-SMALL, SMALL, 2), v("x")])]),
        _ => sub(few.int(-SMALL, SMALL, 2), few.real(0.25)),
    }
}
fn pair() -> (T, T) {
    let few = Few::new(if thorough() { 5 } else { 4 });
    let mixed = rt::flag("mixed");
    let (w, kinds) = if mixed { (SMALL, KINDS) } else { (WIDE, EXACT) };
    let k = rt::choice("left", kinds);
    let a = side(&few, k, w);
    let b = match rt::choice("right", 4 + mixed as usize) {
        0 => a.clone(),
        1 => add(vec![a.clone(), few.int(-w, w, 1)]),
        2 => match k {
            2 | 3 => add(vec![
                mul(vec![few.int(-w, w, 1), v("x"), v("y")]),
                mul(vec![few.int(-w, w, -2), v("x")]),
                mul(vec![few.int(-w, w, 1), v("y")]),
                few.int(-w, w, -2),
            ]),
            _ => add(vec![
                mul(vec![few.int(-w, w, 1), npow(v("x"), 2)]),
                mul(vec![few.int(-w, w, 4), v("x")]),
                few.int(-w, w, 4),
            ]),
        },
        3 => side(&few, rt::choice("other", kinds), w),
        _ => sub(a.clone(), few.real(0.5)),
    };
    if rt::flag("swap") { (b, a) } else { (a, b) }
}
type V = fn(&Expression, &Expression) -> bool;
const VERDICTS: [(&str, V); 7] = [
    ("equal", Expression::equal),
    ("not_equal", Expression::not_equal),
    ("greater", Expression::greater),
    ("lesser", Expression::lesser),
    ("greater_equal", Expression::greater_equal),
    ("lesser_equal", Expression::lesser_equal),
    ("comparable", Expression::comparable),
];
/// a verdict says something true about the values, whatever the variables stand for
fn verdict(name: &str, f: V, ta: &T, tb: &T, w: &World) {
    val(ta, &w.env);
    val(tb, &w.env);
    let got = f(&build(ta), &build(tb));
    rt::observe(move || got.to_string());
    if !got {
        return;
    }
    let about = || format!("{} of {} and {}", name, show_t(ta), show_t(tb));
    let (a, b) = (val(ta, &w.env), val(tb, &w.env));
    let claim = match name {
        "equal" => a.eq(&b),
        // values known up to rounding only say who is ahead by more than that
        "not_equal" | "greater" | "lesser" if a.approx || b.approx => return,
        "not_equal" => a.eq(&b).not(),
        "greater" => b.lt(&a),
        "lesser" => a.lt(&b),
        "greater_equal" => C::or(vec![b.lt(&a), a.eq(&b)]),
        "lesser_equal" => C::or(vec![a.lt(&b), a.eq(&b)]),
        _ => {
            // the difference is the same wherever it is looked at
            let mut e2 = World::new(false).env;
            for n in ["n", "m"] {
                e2.set(n, w.env.get(n).unwrap());
            }
            if let Some(z) = w.env.get("z") {
                e2.set("z", z);
            }
            let (c, d) = (val(ta, &e2), val(tb, &e2));
            a.sub(&b).eq(&c.sub(&d))
        }
    };
    let (a, b) = (a.clone(), b.clone());
    rt::check(name, &claim, || format!("{}: true although the values are {} and {}", about(), a.show(), b.show()));
}
fn verdicts() {
    rt::begin();
    let (name, f) = VERDICTS[rt::choice("verdict", VERDICTS.len())];
    let (a, b) = pair();
    let w = World::new(false);
    verdict(name, f, &a, &b, &w);
    rt::witness("reached");
}
/// with powers, logarithms and symbolic exponents
fn verdicts_powers() {
    rt::begin();
    let (name, f) = VERDICTS[rt::choice("verdict", VERDICTS.len())];
    let w = World::new(true);
    let part = |few: &Few| match rt::choice("part", 7) {
        0 => log(pow(v("x"), few.int(-WIDE, WIDE, 2)), v("x")),
        1 => log(sint(1, 40), i(2)),
        2 => pow(v("x"), add(vec![v("n"), few.int(-3, 3, 1)])),
        3 => mul(vec![pow(v("x"), v("n")), v("x")]),
        4 => pow(i(2), few.int(-3, 6, 2)),
        5 => pow(i(2), log(few.int(1, WIDE, 3), i(2))),
        _ => few.int(-WIDE, WIDE, 2),
    };
    let few = Few::new(3);
    let a = part(&few);
    let b = part(&few);
    verdict(name, f, &a, &b, &w);
    rt::witness("reached");
}
/// numbers are decided completely
fn verdicts_numbers() {
    rt::begin();
    let (name, f) = VERDICTS[rt::choice("verdict", VERDICTS.len())];
    let kind = rt::choice("numbers", 4);
    if kind == 1 || kind == 3 {
        rt::exact_reals();
    }
    let u = if kind == 3 { rt::pick("unit", &[-36, 100]) } else { -2 };
    let n = |few: &Few| match kind {
        3 => few.scaled(u, 0.5),
        0 => few.int(-WIDE, WIDE, 7),
        1 => few.real(0.5),
        _ if rt::flag("real") => few.real(0.5),
        _ => few.int(-SMALL, SMALL, 7),
    };
    let few = Few::new(4);
    let shape = |few: &Few| match rt::choice("shape", 5) {
        0 => n(few),
        1 => add(vec![n(few), n(few)]),
        2 => sub(n(few), n(few)),
        3 => mul(vec![n(few), n(few)]),
        _ => neg(n(few)),
    };
    let (a, b) = (shape(&few), shape(&few));
    let w = World::new(false);
    let got = f(&build(&a), &build(&b));
    rt::observe(move || got.to_string());
    let (x, y) = (val(&a, &w.env), val(&b, &w.env));
    let want = match name {
        "equal" => x.eq(&y),
        "not_equal" => x.eq(&y).not(),
        "greater" => y.lt(&x),
        "lesser" => x.lt(&y),
        "greater_equal" => x.lt(&y).not(),
        "lesser_equal" => y.lt(&x).not(),
        _ => C::t(true),
    };
    let ok = if got { want } else { want.not() };
    rt::check(name, &ok, || format!("{} of {} and {} is {}", name, show_t(&a), show_t(&b), got));
    rt::witness("reached");
}

/// the same expression plus reals that differ by little or much
fn verdicts_scaled() {
    rt::begin();
    let (name, f) = VERDICTS[rt::choice("verdict", VERDICTS.len())];
    let u = rt::pick("unit", &[-2, -36, -60, 100]);
    rt::exact_reals();
    let few = Few::new(3);
    let base = match rt::choice("base", 5) {
        0 => i(0),
        1 => v("x"),
        2 => mul(vec![v("x"), v("y")]),
        3 => neg(v("x")),
        _ => mul(vec![few.scaled(u, 1.5), v("x")]),
    };
    let a = add(vec![base.clone(), few.scaled(u, 0.5)]);
    let b = match rt::choice("other", 3) {
        0 => add(vec![few.scaled(u, 0.25), base]),
        1 => sub(base, few.scaled(u, 0.25)),
        _ => add(vec![few.scaled(u, 1.0), few.scaled(u, 2.0), base]),
    };
    let w = World::new(false);
    verdict(name, f, &a, &b, &w);
    rt::witness("reached");
}

/// two expressions of the same kind that differ in a part
fn alike() -> (T, T) {
    let few = Few::new(2);
    let k = rt::choice("kind", 12);
    let part = |few: &Few| match rt::choice("part", 4) {
        // powers of sums expand
        0 if k == 1 => few.int(2, 4, 3),
        3 if k == 1 => few.int(-2, 4, 2),
        0 => few.int(2, WIDE, 3),
        1 => v("y"),
        2 => add(vec![v("y"), few.int(1, SMALL, 1)]),
        _ => few.int(-SMALL, SMALL, 2),
    };
    let wrap = |p: T| match k {
        0 => pow(v("x"), p),
        1 => pow(add(vec![v("x"), i(1)]), p),
        2 => log(v("x"), p),
        3 => log(p, v("x")),
        4 => log(p, i(3)),
        5 => mul(vec![p, v("x")]),
        6 => add(vec![p, v("x")]),
        7 => div(v("x"), p),
        8 => div(p, v("x")),
        9 => pow(p, v("n")),
        10 => mul(vec![p, pow(v("x"), v("n"))]),
        _ => neg(p),
    };
    let (a, b) = (wrap(part(&few)), wrap(part(&few)));
    match rt::choice("both", 4) {
        0 => (a, b),
        1 => (add(vec![a, v("z")]), add(vec![v("z"), b])),
        2 => (mul(vec![a, v("z")]), mul(vec![v("z"), b])),
        _ => (a, add(vec![b, few.int(-WIDE, WIDE, 1)])),
    }
}
fn alike_world() -> World {
    let mut w = World::new(true);
    w.env.set("z", rt::positive_value("val_z"));
    w
}
fn verdicts_alike() {
    rt::begin();
    let (name, f) = VERDICTS[rt::choice("verdict", VERDICTS.len())];
    let (a, b) = alike();
    verdict(name, f, &a, &b, &alike_world());
    rt::witness("reached");
}

// ------------------------------------------------------------------------ C07
fn coherence_alike() {
    rt::begin();
    let (a, b) = alike();
    let w = alike_world();
    val(&a, &w.env);
    val(&b, &w.env);
    coherent(&a, &b);
    rt::witness("reached");
}
fn law(label: &str, ok: bool, about: impl FnOnce() -> String) {
    rt::check(label, &C::t(ok), about)
}
fn coherent(ta: &T, tb: &T) {
    let (a, b) = (build(ta), build(tb));
    let t: Vec<bool> = VERDICTS.iter().map(|(_, f)| f(&a, &b)).collect();
    let u: Vec<bool> = VERDICTS.iter().map(|(_, f)| f(&b, &a)).collect();
    let say = t.iter().chain(&u).map(|x| if *x { '1' } else { '0' }).collect::<String>();
    let s2 = say.clone();
    rt::observe(move || s2);
    let about = || format!("{} and {}: equal, not_equal, greater, lesser, greater_equal, lesser_equal, comparable = {} (both ways round)", show_t(ta), show_t(tb), say);
    for w in [&t, &u] {
        let [e, ne, g, l, ge, le, c] = [w[0], w[1], w[2], w[3], w[4], w[5], w[6]];
        law("one of less, equal, greater exactly when comparable", (e as u8 + g as u8 + l as u8) == c as u8, about);
        law("not_equal", ne == (c && !e), about);
        law("greater_equal", ge == (g || e), about);
        law("lesser_equal", le == (l || e), about);
    }
    law("symmetry", t[0] == u[0] && t[1] == u[1] && t[6] == u[6], about);
    law("reversal", t[2] == u[3] && t[3] == u[2] && t[4] == u[5] && t[5] == u[4], about);
}
fn coherence() {
    rt::begin();
    let (a, b) = pair();
    let w = World::new(false);
    val(&a, &w.env);
    val(&b, &w.env);
    coherent(&a, &b);
    rt::witness("reached");
}
fn coherence_trees() {
    rt::begin();
    let d = Dom::ints(&["x"]);
    let (a, b) = (d.tree(1, false), d.tree(1, false));
    let w = World::new(false);
    val(&a, &w.env);
    val(&b, &w.env);
    coherent(&a, &b);
    rt::witness("reached");
}
/// an expression compared with itself
fn reflexive() {
    rt::begin();
    let d = Dom::ints(if thorough() { &["x", "y"] } else { &["x"] });
    let t = d.tree(2, false);
    let w = World::new(false);
    val(&t, &w.env);
    let x = build(&t);
    let n = x.clone().simplify();
    obs(&n);
    // what simplifies to itself minus itself
    for (name, f) in VERDICTS {
        let want = !matches!(name, "not_equal" | "greater" | "lesser");
        let got = f(&x, &x);
        law("itself", got == want, || format!("{} of {} and itself is {}", name, show_t(&t), got));
    }
    rt::witness("reached");
}
/// order of three
fn three() {
    rt::begin();
    let few = Few::new(3);
    let base = match rt::choice("base", 4) {
        0 => i(0),
        1 => v("x"),
        2 => mul(vec![v("x"), add(vec![v("y"), i(1)])]),
        _ => npow(add(vec![v("x"), i(1)]), 2),
    };
    let also = match &base {
        T::Int(_) => i(0),
        T::Var(_) => v("x"),
        T::Mul(_) => add(vec![mul(vec![v("x"), v("y")]), v("x")]),
        _ => add(vec![npow(v("x"), 2), mul(vec![i(2), v("x")]), i(1)]),
    };
    let c = |few: &Few| few.int(-WIDE, WIDE, 0);
    let (ta, tb, tc) = (add(vec![base.clone(), c(&few)]), add(vec![also, c(&few)]), add(vec![c(&few), base]));
    let (a, b, c) = (build(&ta), build(&tb), build(&tc));
    let about = || format!("{}, {}, {}", show_t(&ta), show_t(&tb), show_t(&tc));
    for (name, f) in [VERDICTS[0], VERDICTS[2], VERDICTS[3], VERDICTS[4], VERDICTS[5]] {
        if f(&a, &b) && f(&b, &c) {
            law(name, f(&a, &c), about);
            rt::witness("chain");
        }
    }
    rt::witness("reached");
}

// ------------------------------------------------------------------------ C08
/// an expression node of any kind, bare or through constructors
fn node(few: &Few, depth: u32) -> Expression {
    let leaf = || match rt::choice("leaf", 4) {
        0 => build(&few.int(-WIDE, WIDE, 2)),
        1 => build(&few.real(1.5)),
        2 => evar("x"),
        _ => evar("y"),
    };
    if depth == 0 {
        return leaf();
    }
    match rt::choice("node", 9) {
        0 => leaf(),
        1 => raw_add(vec![leaf(), leaf()]),
        2 => raw_mul(vec![leaf(), leaf()]),
        3 => raw_pow(leaf(), leaf()),
        4 => raw_log(leaf(), leaf()),
        5 => Expression::Sine(Operation::new(leaf())),
        6 => Expression::Cossine(Operation::new(leaf())),
        7 => raw_add(vec![leaf()]),
        _ => raw_mul(vec![leaf(), leaf(), evar("x")]),
    }
}
fn related(few: &Few, x: &Expression) -> Expression {
    let pick = |xs: &[Expression], k: usize| xs[k % xs.len()].clone();
    let leaf = || match rt::choice("change", 3) {
        0 => build(&few.int(-WIDE, WIDE, 2)),
        1 => build(&few.real(1.5)),
        _ => evar("y"),
    };
    match x {
        Expression::Addition(a) | Expression::Multiplication(a) => {
            let mut xs = a.items();
            match rt::choice("how", 4) {
                0 => xs.reverse(),
                1 => xs[0] = leaf(),
                2 => {
                    let l = xs.len();
                    xs[l - 1] = leaf()
                }
                _ => xs.push(pick(&a.items(), 0)),
            }
            if let Expression::Addition(_) = x { raw_add(xs) } else { raw_mul(xs) }
        }
        Expression::Power(p) | Expression::Logarithm(p) => {
            let (mut a, mut b) = (p.argument(), p.modifier());
            match rt::choice("how", 3) {
                0 => a = leaf(),
                1 => b = leaf(),
                _ => std::mem::swap(&mut a, &mut b),
            }
            if let Expression::Power(_) = x { raw_pow(a, b) } else { raw_log(a, b) }
        }
        Expression::Sine(_) => Expression::Sine(Operation::new(leaf())),
        Expression::Cossine(_) => Expression::Cossine(Operation::new(leaf())),
        _ => leaf(),
    }
}
fn sh(x: &Expression) -> String {
    match x {
        Expression::Sine(p) => format!("sin({})", sh(&p.argument())),
        Expression::Cossine(p) => format!("cos({})", sh(&p.argument())),
        Expression::Power(p) => format!("pow({},{})", sh(&p.argument()), sh(&p.modifier())),
        Expression::Logarithm(p) => format!("log({},{})", sh(&p.argument()), sh(&p.modifier())),
        Expression::Addition(a) => format!("(+ {})", a.items().iter().map(sh).collect::<Vec<_>>().join(" ")),
        Expression::Multiplication(a) => format!("(* {})", a.items().iter().map(sh).collect::<Vec<_>>().join(" ")),
        _ => show(x),
    }
}
/// structural equality as it should be: same node, same parts, commutative ones in any order
fn same(a: &Expression, b: &Expression) -> C {
    match (a, b) {
        (Expression::Integer(p), Expression::Integer(q)) => rt::Num::big(&p.data).eq(&rt::Num::big(&q.data)),
        (Expression::Real(p), Expression::Real(q)) => rt::Num::f(p.data).unwrap().eq(&rt::Num::f(q.data).unwrap()),
        (Expression::Variable(p), Expression::Variable(q)) => C::t(p.data == q.data),
        (Expression::Sine(p), Expression::Sine(q)) | (Expression::Cossine(p), Expression::Cossine(q)) => same(&p.argument(), &q.argument()),
        (Expression::Power(p), Expression::Power(q)) | (Expression::Logarithm(p), Expression::Logarithm(q)) => {
            C::and(vec![same(&p.argument(), &q.argument()), same(&p.modifier(), &q.modifier())])
        }
        (Expression::Addition(p), Expression::Addition(q)) | (Expression::Multiplication(p), Expression::Multiplication(q)) => bag(&p.items(), &q.items()),
        _ => C::t(false),
    }
}
/// the same items in some order
fn bag(a: &[Expression], b: &[Expression]) -> C {
    if a.len() != b.len() {
        return C::t(false);
    }
    if a.is_empty() {
        return C::t(true);
    }
    let mut any = vec![];
    for j in 0..b.len() {
        let mut rest = b.to_vec();
        let y = rest.remove(j);
        let s = same(&a[0], &y);
        match s.known() {
            Some(true) => return bag(&a[1..], &rest),
            Some(false) => {}
            None => any.push((s, rest)),
        }
    }
    C::or(any.into_iter().map(|(s, rest)| C::and(vec![s, bag(&a[1..], &rest)])).collect())
}
fn pair_laws(a: &Expression, b: &Expression) {
    let about = || format!("{} and {}", sh(a), sh(b));
    let e = a == b;
    let (c, d) = (a.cmp(b), b.cmp(a));
    rt::observe(move || format!("{} {:?} {:?}", e, c, d));
    let s = same(a, b);
    rt::check("equality is structural", &if e { s } else { s.not() }, || format!("{}: == is {}", about(), e));
    law("symmetric equality", e == (b == a), about);
    law("equal exactly when ordered the same", e == (c == Ordering::Equal), || format!("{}: == is {}, cmp is {:?}", about(), e, c));
    law("reversed order", c == d.reverse(), || format!("{}: {:?} and {:?}", about(), c, d));
    law("partial order is the order", a.partial_cmp(b) == Some(c), about);
    law("operators follow the order", (a < b) == (c == Ordering::Less) && (a > b) == (c == Ordering::Greater) && (a != b) == !e, about);
    if e {
        law("equal ones hash the same", rt::same_hash(a, b), about);
        rt::witness("equal pair");
    }
}
fn laws_pairs() {
    rt::begin();
    let few = Few::new(4);
    let a = node(&few, 1);
    let b = if rt::flag("related") { related(&few, &a) } else { node(&few, 1) };
    pair_laws(&a, &b);
    law("reflexive", a == a && a.cmp(&a) == Ordering::Equal && a == a.clone() && rt::same_hash(&a, &a.clone()), || sh(&a));
    rt::witness("reached");
}
/// nodes of nodes
fn laws_deep() {
    rt::begin();
    let few = Few::new(2);
    let inner = node(&few, 1);
    let wrap = |x: Expression, k: usize| match k {
        0 => raw_add(vec![x, evar("x")]),
        1 => raw_mul(vec![x, evar("x")]),
        2 => raw_pow(x, evar("x")),
        3 => raw_pow(evar("x"), x),
        4 => raw_log(x, evar("x")),
        _ => Expression::Sine(Operation::new(x)),
    };
    let k = rt::choice("wrap", 6);
    let a = wrap(inner.clone(), k);
    let few = Few::new(2);
    let b = wrap(related(&few, &inner), k);
    pair_laws(&a, &b);
    rt::witness("reached");
}
/// built through the constructors
fn laws_built() {
    rt::begin();
    let (ta, tb) = pair();
    let w = World::new(false);
    val(&ta, &w.env);
    val(&tb, &w.env);
    pair_laws(&build(&ta), &build(&tb));
    rt::witness("reached");
}
fn chain(a: &Expression, b: &Expression, c: &Expression) {
    let about = || format!("{}, {}, {}", sh(a), sh(b), sh(c));
    let (ab, bc, ac) = (a.cmp(b), b.cmp(c), a.cmp(c));
    rt::observe(move || format!("{:?} {:?} {:?}", ab, bc, ac));
    if ab != Ordering::Greater && bc != Ordering::Greater {
        let strict = ab == Ordering::Less || bc == Ordering::Less;
        law("transitive order", ac == if strict { Ordering::Less } else { Ordering::Equal }, about);
    }
    if a == b && b == c {
        law("transitive equality", a == c, about);
        rt::witness("equal chain");
    }
}
fn laws_triples() {
    rt::begin();
    let few = Few::new(4);
    let a = node(&few, 1);
    let b = if rt::flag("related") { related(&few, &a) } else { node(&few, 0) };
    let c = if rt::flag("related") { related(&few, &b) } else { node(&few, 0) };
    chain(&a, &b, &c);
    rt::witness("reached");
}

/// nodes made of two parts each: a first one that may be a node itself, and a second one
fn laws_parts() {
    rt::begin();
    let few = Few::new(3);
    let k = rt::choice("outer", 5);
    let first = |few: &Few| match rt::choice("first", 8) {
        0 => evar("x"),
        1 => evar("y"),
        2 => raw_add(vec![evar("x"), evar("y")]),
        3 => raw_add(vec![evar("x"), evar("z")]),
        4 => raw_add(vec![evar("x"), evar("y"), evar("z")]),
        5 => raw_mul(vec![evar("x"), evar("y")]),
        6 => raw_pow(evar("x"), evar("y")),
        _ => raw_add(vec![evar("x"), build(&few.int(-WIDE, WIDE, 2))]),
    };
    let second = |few: &Few| match rt::choice("second", 2) {
        0 => build(&few.int(-WIDE, WIDE, 2)),
        _ => evar("w"),
    };
    let n = if rt::flag("triple") { 3 } else { 2 };
    let xs: Vec<Expression> = (0..n)
        .map(|_| {
            let (p, q) = (first(&few), second(&few));
            match k {
                0 => raw_pow(p, q),
                1 => raw_pow(q, p),
                2 => raw_log(p, q),
                3 => raw_mul(vec![p, q]),
                _ => raw_add(vec![q, p]),
            }
        })
        .collect();
    if n == 2 {
        pair_laws(&xs[0], &xs[1]);
    } else {
        chain(&xs[0], &xs[1], &xs[2]);
    }
    rt::witness("reached");
}
/// different leaves with the same text
fn laws_same_text() {
    rt::begin();
    let leaf = |name: &str| match rt::choice(name, 12) {
        0 => build(&i(2)),
        1 => ereal(2.0),
        2 => evar("2"),
        3 => build(&i(-2)),
        4 => ereal(-2.0),
        5 => raw_mul(vec![build(&i(-1)), build(&i(2))]),
        6 => evar("x"),
        7 => evar("(x + y)"),
        8 => raw_add(vec![evar("x"), evar("y")]),
        9 => raw_add(vec![evar("x + y")]),
        10 => raw_add(vec![raw_add(vec![evar("x"), evar("y")])]),
        _ => raw_mul(vec![evar("x"), evar("y")]),
    };
    let k = rt::choice("node", 7);
    let at = rt::flag("first");
    let node = |l: Expression| {
        let (p, q) = if at { (l, evar("x")) } else { (evar("x"), l) };
        match k {
            0 => raw_pow(p, q),
            1 => raw_log(p, q),
            2 => raw_add(vec![p, q]),
            3 => raw_mul(vec![p, q]),
            4 => Expression::Sine(Operation::new(raw_pow(p, q))),
            5 => raw_pow(evar("y"), raw_pow(p, q)),
            _ => raw_add(vec![raw_log(p, q), evar("z")]),
        }
    };
    let (a, b) = (node(leaf("a")), node(leaf("b")));
    if rt::flag("triple") {
        chain(&a, &b, &node(leaf("c")));
    } else {
        pair_laws(&a, &b);
    }
    rt::witness("reached");
}
/// nodes nested many levels deep, alike but for one leaf somewhere
fn laws_towers() {
    rt::begin();
    let few = Few::new(2);
    let n = rt::pick("depth", &[3usize, 6, 10, 18]);
    let k = [rt::choice("kind", 7), rt::choice("kind", 7)];
    let at = rt::pick("at", &[0usize, 1, n / 2, n]);
    let other = rt::choice("other", 4);
    let leaf = |j: usize, second: bool| {
        if j == at && (second || other == 3) {
            match other {
                0 => evar("other"),
                1 => raw_add(vec![evar("x"), evar("y")]),
                _ => build(&few.int(-WIDE, WIDE, 4)),
            }
        } else {
            evar(["x", "alpha", "y"][j % 3])
        }
    };
    let tower = |second: bool| {
        (1..n + 1).fold(leaf(0, second), |t, j| match k[j % 2] {
            0 => raw_add(vec![t, leaf(j, second)]),
            1 => raw_mul(vec![leaf(j, second), t]),
            2 => raw_pow(t, leaf(j, second)),
            3 => raw_pow(leaf(j, second), t),
            4 => raw_log(t, leaf(j, second)),
            5 => raw_log(leaf(j, second), t),
            _ => raw_add(vec![raw_mul(vec![evar("z"), t]), leaf(j, second), evar("z")]),
        })
    };
    pair_laws(&tower(false), &tower(true));
    rt::witness("reached");
}
/// associations of many items, alike but for one item or for the order
fn laws_many() {
    rt::begin();
    let few = Few::new(2);
    let xs: Vec<Expression> = crowd(&few, &[4, 6, 9, 12, 17, 34], true).iter().map(build).collect();
    let mut ys = xs.clone();
    let n = ys.len();
    match rt::choice("how", 5) {
        0 => ys = shuffled(&xs),
        1 => {
            let at = rt::pick("at", &[0, n / 2, n - 2, n - 1]);
            ys[at] = build(&few.int(-WIDE, WIDE, 3));
        }
        2 => {
            ys.pop();
        }
        3 => {
            let at = rt::pick("at", &[0, n / 2, n - 1]);
            ys[at] = evar("y");
        }
        _ => ys.push(build(&few.int(-WIDE, WIDE, 2))),
    }
    let node = |v: Vec<Expression>| v;
    let (a, b) = match rt::choice("node", 3) {
        0 => (raw_add(node(xs)), raw_add(node(ys))),
        1 => (raw_mul(node(xs)), raw_mul(node(ys))),
        _ => (raw_pow(raw_add(xs), evar("k")), raw_pow(raw_add(ys), evar("k"))),
    };
    pair_laws(&a, &b);
    rt::witness("reached");
}

// ------------------------------------------------------------------------ C10
fn operand(few: &Few) -> T {
    match rt::choice("operand", 9) {
        0 => few.int(-WIDE, WIDE, 3),
        1 => few.real(0.5),
        2 => v("x"),
        3 => mul(vec![few.int(-SMALL, SMALL, -2), v("x")]),
        4 => add(vec![v("x"), few.int(-SMALL, SMALL, 2)]),
        5 => div(i(1), few.int(2, 6, 5)),
        6 => pow(v("x"), v("n")),
        7 => v("y"),
        _ => div(v("y"), v("x")),
    }
}
fn same_result(label: &str, a: Expression, b: Expression, about: impl Fn() -> String) {
    obs(&a);
    obs(&b);
    law(label, a == b, || format!("{}: {} and {}", about(), show(&a), show(&b)));
    law("hash", rt::same_hash(&a, &b), &about);
    let s = same(&a, &b);
    rt::check("structure", &s, || format!("{}: {} and {}", about(), show(&a), show(&b)));
}
fn operators() {
    rt::begin();
    let few = Few::new(2);
    let (a, b) = (operand(&few), operand(&few));
    let prod = rt::flag("product");
    let w = World::new(false).generic();
    val(&a, &w.env);
    val(&b, &w.env);
    let (x, y) = (build(&a), build(&b));
    let (p, q) = match (prod, rt::choice("form", 3)) {
        (false, 0) => (&x + &y, &y + &x),
        (false, 1) => (x.clone() + &y, y.clone() + x.clone()),
        (false, _) => (&x + y.clone(), Expression::addition(vec![y.clone(), x.clone()])),
        (true, 0) => (&x * &y, &y * &x),
        (true, 1) => (x.clone() * &y, y.clone() * x.clone()),
        (true, _) => (&x * y.clone(), Expression::multiplication(vec![y.clone(), x.clone()])),
    };
    same_result("operands swapped", p, q, || format!("{} and {} ({})", show_t(&a), show_t(&b), if prod { "*" } else { "+" }));
    rt::witness("reached");
}
const PERMS: [[usize; 4]; 8] = [[1, 0, 2, 3], [0, 2, 1, 3], [3, 2, 1, 0], [2, 3, 0, 1], [1, 2, 3, 0], [3, 0, 1, 2], [0, 3, 2, 1], [2, 0, 3, 1]];
fn permutations() {
    rt::begin();
    let few = Few::new(3);
    let n = rt::pick("n", &[3usize, 4]);
    let prod = rt::flag("product");
    let xs: Vec<T> = (0..n).map(|j| if j < 3 { operand(&few) } else { v("z") }).collect();
    let w = World::new(false).generic();
    for x in &xs {
        if !matches!(x, T::Var(s) if s == "z") {
            val(x, &w.env);
        }
    }
    let p = rt::pick("order", &PERMS);
    let ys: Vec<T> = p.iter().filter(|k| **k < n).map(|k| xs[*k].clone()).collect();
    let (a, b) = if prod { (mul(xs), mul(ys)) } else { (add(xs), add(ys)) };
    let rewritten = rt::choice("then", 2);
    let f = |t: &T| {
        let x = build(t);
        match rewritten {
            0 => x,
            _ => x.expand(),
        }
    };
    same_result(["operands permuted", "operands permuted, expanded"][rewritten], f(&a), f(&b), || show_t(&a));
    rt::witness("reached");
}
/// other groupings of the same operands
fn groupings() {
    rt::begin();
    let few = Few::new(3);
    let n = rt::pick("n", &[3usize, 4]);
    let prod = rt::flag("product");
    let xs: Vec<T> = (0..n).map(|j| if j < 3 { operand(&few) } else { v("y") }).collect();
    let w = World::new(false).generic();
    for x in &xs {
        if let (T::Real(_), false) = (x, prod) {
            // a negative real stays apart in a sum
            let c = val(x, &w.env);
            rt::assume(&c.pos_c());
            continue;
        }
        val(x, &w.env);
    }
    let ys = if rt::flag("permuted") { shuffled(&xs) } else { xs.clone() };
    let (a, b) = (if prod { mul(xs.clone()) } else { add(xs.clone()) }, grouped(&ys, prod));
    same_result("operands grouped", build(&a), build(&b), || format!("{} and {}", show_t(&a), show_t(&b)));
    rt::witness("reached");
}
/// many operands in other orders and groupings
fn permutations_many() {
    rt::begin();
    let few = Few::new(2);
    let prod = rt::flag("product");
    let xs = crowd(&few, &[5, 8, 12, 17, 34], true);
    let ys = shuffled(&xs);
    let op = |v: Vec<T>| if prod { mul(v) } else { add(v) };
    let b = if rt::flag("grouped") {
        for x in &xs {
            if let (T::Real(_), false) = (x, prod) {
                rt::assume(&val(x, &Env::default()).pos_c());
            }
        }
        grouped(&ys, prod)
    } else {
        op(ys)
    };
    let a = op(xs);
    same_result("many operands", build(&a), build(&b), || format!("{} and {}", show_t(&a), show_t(&b)));
    rt::witness("reached");
}
/// bare nodes: what is in them, not in which order it was put there
fn bags() {
    rt::begin();
    let few = Few::new(3);
    let n = rt::pick("n", &[2usize, 3, 4]);
    let xs: Vec<Expression> = (0..n).map(|j| if j < 3 { node(&few, (j == 0) as u32) } else { evar("x") }).collect();
    let p = rt::pick("order", &PERMS);
    let ys: Vec<Expression> = p.iter().filter(|k| **k < n).map(|k| xs[*k].clone()).collect();
    let (a, b) = (raw_add(xs.clone()), raw_add(ys.clone()));
    let about = || format!("{} and {}", sh(&a), sh(&b));
    law("same items", a == b && a.cmp(&b) == Ordering::Equal, about);
    law("hash", rt::same_hash(&a, &b), about);
    if let (Expression::Addition(p), Expression::Addition(q)) = (&a, &b) {
        let (p, q) = (p.items(), q.items());
        law("count", p.len() == n && q.len() == n, about);
        law("listed in order", p.windows(2).all(|w| w[0] <= w[1]), about);
        for (u, v) in p.iter().zip(&q) {
            rt::check("listed alike", &same(u, v), about);
        }
        rt::check("the items given", &bag(&p, &xs), about);
    }
    rt::witness("reached");
}
pub fn list() -> Vec<Harness> {
    let mut out = vec![];
    let p = "C06";
    out.extend(vec![
        h(p, "verdicts", "7 verdicts on pairs of 13 kinds: same, shifted by an integer or a real, expanded form with symbolic coefficients, or another kind; 4 coefficients in ±2^126 (5 thorough)", verdicts as fn(), 4.0, 6),
        h(p, "verdicts_powers", "7 verdicts on pairs of 7 kinds of powers and logarithms over positive variables", verdicts_powers, 2.0, 10),
        h(p, "verdicts_alike", "7 verdicts on pairs of powers, logarithms, products, quotients or sums that differ in a part (12 kinds), inside a sum or product", verdicts_alike, 1.5, 4),
        h(p, "verdicts_numbers", "7 verdicts on sums, differences and products of two integers or two reals (k/4, k*2^-36, k*2^-70, k*2^100): true exactly when it holds of the values", verdicts_numbers, 1.0, 0),
    ]);
    out.push(h(p, "verdicts_scaled", "7 verdicts on an expression plus reals k*2^-2, k*2^-36, k*2^-60 or k*2^100", verdicts_scaled as fn(), 1.0, 30));
    let p = "C07";
    out.extend(vec![
        h(p, "coherence", "the 7 verdicts, both ways round, on the pairs of C06", coherence, 3.0, 6),
        h(p, "coherence_alike", "the 7 verdicts on pairs of powers, logarithms, products, quotients or sums that differ in a part (12 kinds), inside a sum or product", coherence_alike, 1.5, 8),
        h(p, "coherence_trees", "the 7 verdicts on pairs of trees of depth <= 1 over integers ±2^126 and a variable", coherence_trees, 2.0, 12),
        h(p, "reflexive", "every tree of depth <= 2 against itself", reflexive, 2.0, 3),
        h(p, "three", "chains of three forms of the same polynomial shifted by integers in ±2^126", three, 1.0, 0),
    ]);
    let p = "C08";
    out.extend(vec![
        h(p, "laws_pairs", "pairs of bare nodes of all 9 kinds, unrelated or differing in one part or in order; 4 symbolic numbers", laws_pairs as fn(), 2.0, 0),
        h(p, "laws_deep", "nodes inside 6 kinds of node, differing in one inner part", laws_deep, 2.0, 0),
        h(p, "laws_parts", "pairs and triples of powers, logarithms, products and sums whose parts are leaves or nodes of 8 kinds; three symbolic integers", laws_parts, 2.0, 3),
        h(p, "laws_many", "sums and products of 4-34 items of two kinds out of 8, another order, one item other, less or more; two symbolic integers", laws_many, 1.0, 12),
        h(p, "laws_same_text", "nodes of 7 kinds around 12 leaves some of which have the same text, pairs and triples", laws_same_text, 1.0, 0),
        h(p, "laws_towers", "pairs of nodes of two kinds out of 7 nested 3-18 deep, alike but for one leaf", laws_towers, 1.0, 12),
        h(p, "laws_built", "pairs built by the constructors", laws_built, 1.5, 40),
        h(p, "laws_triples", "triples of nodes: transitivity", laws_triples, 2.0, 0),
    ]);
    let p = "C10";
    out.extend(vec![
        h(p, "operators", "a+b and b+a, a*b and b*a, 9 kinds of operand, three forms of the operators", operators as fn(), 1.5, 0),
        h(p, "permutations", "sums and products of 3-4 operands in 8 other orders, as built and expanded", permutations, 2.0, 4),
        h(p, "groupings", "sums and products of 3-4 operands of 9 kinds in 4 groupings and 5 other orders", groupings, 1.0, 4),
        h(p, "permutations_many", "sums and products of 5-34 operands of two kinds out of 8 in 5 other orders and 4 groupings", permutations_many, 1.0, 6),
        h(p, "bags", "bare nodes of 2-4 items in another order", bags, 1.5, 40),
    ]);
    out
}
