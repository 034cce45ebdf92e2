//! C01: the arithmetic constructors and operators build expressions of the right value.
use super::{thorough, Harness};
use super::h as mk;
use crate::gen::*;
use crate::rt;
use crate::spec::*;
use ncas::base::expression::Expression;

const AB: &[&str] = &["a", "b"];

fn pairs() {
    rt::begin();
    rt::allow_rounding();
    let d = Dom { mixed: false, vars: AB };
    let u = unit();
    let leaf = |den: bool| match rt::choice("leaf", 4) {
        0 if u != -2 => scaled(u),
        0 if den => divisor(),
        0 => d.int(),
        1 => scaled(u),
        k => v(AB[k - 2]),
    };
    let k = rt::choice("op", 6);
    if k != 3 && u != -2 {
        rt::exact_reals();
    }
    let x = leaf(false);
    let t = match k {
        0 => add(vec![x, leaf(false)]),
        1 => sub(x, leaf(false)),
        2 => mul(vec![x, leaf(false)]),
        3 => div(x, leaf(true)),
        4 => neg(x),
        _ => x,
    };
    let e = env(AB);
    check_built("value", &t, &e, |x| x);
    rt::witness("reached");
}
fn trees() {
    rt::begin();
    let d = if thorough() { Dom::any(AB) } else { Dom::any(&["a"]) };
    let t = d.tree(2, false);
    let e = env(AB);
    check_built("value", &t, &e, |x| x);
    rt::witness("reached");
}
fn trees3() {
    rt::begin();
    let d = Dom::any(&["a"]);
    let t = d.tree(3, false);
    let e = env(&["a"]);
    check_built("value", &t, &e, |x| x);
    rt::witness("reached");
}
/// sums and products of several operands, built at once
fn wide() {
    rt::begin();
    let d = Dom::any(AB);
    let prod = rt::flag("product");
    let n = if thorough() { rt::pick("n", &[3usize, 4, 5]) } else { rt::pick("n", &[3, 4]) };
    let mut kinds = vec![];
    let mut xs = vec![];
    for j in 0..n {
        let k = if j < 3 { rt::choice("kind", 6) } else { kinds[j - 3] };
        kinds.push(k);
        xs.push(match k {
            0 => d.int(),
            1 => v(["a", "b", "long_name", "a"][j % 4]),
            2 if d.mixed => sreal(),
            2 => div(v("a"), i([3, -4, 10][j % 3])),
            3 => mul(vec![d.int(), v("a")]),
            4 => add(vec![d.int(), v("b")]),
            _ => div(sint(-9, 9), i([3, -4, 10][j % 3])),
        });
    }
    let t = if prod { mul(xs) } else { add(xs) };
    let e = env(&["a", "b", "long_name"]);
    check_built("value", &t, &e, |x| x);
    rt::witness("reached");
}
/// sums and products of many operands, most of them constants
fn many() {
    rt::begin();
    let prod = rt::flag("product");
    let n = rt::pick("n", &[6usize, 9, 12, 17, 33]);
    let few = Few::new(2);
    let names = ["a", "b", "long_name", "x1", "Z"];
    let k = [rt::choice("kind", 6), rt::choice("kind", 6)];
    let xs = (0..n)
        .map(|j| match k[j % 2] {
            0 => few.int(-WIDE, WIDE, [7, -1, 0, 1, 12, -5][j % 6].max(prod as i64)),
            1 => v(names[(j / 2) % 5]),
            2 => few.real([0.5, -1.0, 4.0, -0.25][j % 4]),
            3 => mul(vec![few.int(-SMALL, SMALL, 3 - (j % 7) as i64), v(names[j % 5])]),
            4 => neg(v(names[j % 3])),
            _ => div(v(names[j % 5]), i([3, -4, 10, 2][j % 4])),
        })
        .collect();
    let t = if prod { mul(xs) } else { add(xs) };
    let e = env(&names);
    check_built("value", &t, &e, |x| x);
    rt::witness("reached");
}
/// quotients of sums, products and powers
fn quotients() {
    rt::begin();
    let d = Dom::any(AB);
    let q = if thorough() { 9 } else { 4 };
    let num = |d: &Dom| match rt::choice("num", 8) {
        0 => mul(vec![d.int(), v("a")]),
        1 => mul(vec![d.int(), v("a"), v("b")]),
        2 if d.mixed => mul(vec![sreal(), v("a")]),
        2 => mul(vec![v("b"), v("a")]),
        3 => add(vec![d.int(), v("a")]),
        4 => div(d.int(), v("a")),
        5 => div(v("a"), sint(-q, q)),
        6 => div(d.int(), sint(2, 6)),
        _ => npow(v("b"), 3),
    };
    let x = num(&d);
    let y = match rt::choice("den", 9) {
        0 => divisor(),
        1 if d.mixed => sreal(),
        1 => v("b"),
        2 => v("a"),
        3 => mul(vec![sint(-q, q), v("a")]),
        4 => add(vec![sint(-q, q), v("a")]),
        5 => div(v("a"), sint(-q, q)),
        6 => div(sint(-q, q), i(6)),
        7 => npow(v("b"), 2),
        _ => mul(vec![v("a"), v("b"), v("a")]),
    };
    let t = match rt::choice("around", 4) {
        0 => div(x, y),
        1 => div(div(x, y), sint(-q, q)),
        2 => mul(vec![div(x, y), sint(-q, q)]),
        _ => sub(v("b"), div(x, y)),
    };
    let e = env(AB);
    check_built("value", &t, &e, |x| x);
    rt::witness("reached");
}
/// every ownership variant of an operator is the same operation
fn operators() {
    rt::begin();
    let d = Dom { mixed: true, vars: AB };
    let op = rt::choice("op", 5);
    let sub_t = |d: &Dom| match rt::choice("operand", 5) {
        0 if op == 3 => sint(-6, 6),
        0 => d.int(),
        1 => v("a"),
        2 => sreal(),
        3 => mul(vec![sint(-6, 6), v("b")]),
        _ => add(vec![d.int(), v("a")]),
    };
    let (tx, ty) = (sub_t(&d), sub_t(&d));
    let e = env(AB);
    let t = match op {
        0 => add(vec![tx.clone(), ty.clone()]),
        1 => sub(tx.clone(), ty.clone()),
        2 => mul(vec![tx.clone(), ty.clone()]),
        3 => div(tx.clone(), ty.clone()),
        _ => neg(tx.clone()),
    };
    val(&t, &e);
    let (x, y) = (build(&tx), build(&ty));
    let own = rt::choice("ownership", 4);
    macro_rules! op {
        ($o:tt) => {
            match own {
                0 => x.clone() $o y.clone(),
                1 => &x $o &y,
                2 => x.clone() $o &y,
                _ => &x $o y.clone(),
            }
        };
    }
    let got: Expression = match op {
        0 => op!(+),
        1 => op!(-),
        2 => op!(*),
        3 => op!(/),
        _ if own % 2 == 0 => -x.clone(),
        _ => -&x,
    };
    obs(&got);
    let want = val(&t, &e);
    check_value("operator", &want, &got, &e, || format!("operator form {} of {}", own, show_t(&t)));
    rt::witness("reached");
}
/// chains of operations, applied one after the other
fn chains() {
    rt::begin();
    let n = rt::pick("n", &[3usize, 4, 5]);
    let mut t = if rt::flag("from_int") { sint(-WIDE, WIDE) } else { v("a") };
    for j in 0..n {
        let y = match (j + rt::choice("y", 2)) % 3 {
            0 => v("a"),
            1 => sint(-20, 20),
            _ => v("b"),
        };
        t = match rt::choice("op", 5) {
            0 => add(vec![t, y]),
            1 => sub(t, y),
            2 => mul(vec![t, y]),
            3 => div(t, y),
            _ => sub(y, t),
        };
    }
    let e = env(AB);
    check_built("value", &t, &e, |x| x);
    rt::witness("reached");
}
/// long chains of operations, most of them with constants
fn towers() {
    rt::begin();
    let n = rt::pick("n", &[8usize, 14, 24]);
    let k = [rt::choice("op", 7), rt::choice("op", 7), rt::choice("op", 7)];
    let few = Few::new(2);
    let at = rt::pick("at", &[0usize, n / 2, n - 1]);
    let t = (0..n).fold(v("a"), |t, j| {
        let y = if j == at { few.int(-WIDE, WIDE, 3) } else { [v("a"), i([2, -3, 5][j % 3]), v("b")][(j * 2) % 3].clone() };
        match k[j % 3] {
            0 => add(vec![t, y]),
            1 => sub(t, y),
            2 => mul(vec![t, y]),
            3 => div(t, y),
            4 => sub(y, t),
            5 => neg(t),
            _ => add(vec![mul(vec![t, v("b")]), y]),
        }
    });
    let e = env(AB);
    check_built("value", &t, &e, |x| x);
    rt::witness("reached");
}
pub fn list() -> Vec<Harness> {
    let h = |name, bounds, run, weight, cap| mk("C01", name, bounds, run, weight, cap);
    vec![
        h("pairs", "every operation on two leaves: integers to ±2^126 (divisors to ±12 or three large ones), reals k/4, k*2^-36, k*2^-70 or k*2^100 with |k| <= 4096, two variables", pairs as fn(), 1.0, 500),
        h("operators", "4 operators x 4 ownership variants and both negations; operands: integer to ±999, real, variable, integer*variable, integer+variable", operators, 1.0, 200),
        h("trees", "every tree of + - * / and negation of depth <= 2; integers to ±2^126, or to ±999 next to reals k/4; two variables", trees, 3.0, 32),
        h("quotients", "quotients of products, sums, powers and quotients, and one operation around them", quotients, 3.0, 60),
        h("wide", "sums and products of 3 and 4 operands of 6 kinds (5 operands in the thorough tier)", wide, 3.0, 40),
        h("many", "sums and products of 6 to 33 operands of two kinds out of 6, two of the numbers symbolic", many, 1.0, 60),
        h("towers", "8 to 24 operations of three kinds out of 7 applied in a row, two of the numbers symbolic", towers, 1.0, 60),
        h("chains", "3 to 5 operations applied in a row to an integer or a variable; integers to ±2^126 and ±20", chains, 4.0, -40),
        h("trees3", "every tree of + - * / and negation of depth <= 3 over integers, one variable (and reals)", trees3, 6.0, -10),
    ]
}
