//! C11, C15, C16, C20: the form of built, expanded and simplified expressions; polynomials decided completely.
use super::{h, thorough, Harness};
use crate::gen::*;
use crate::rt::{self, Num, C};
use crate::spec::*;
use ncas::base::expression::Expression;
use ncas::base::symbol::Symbol;
use num::bigint::BigInt;
use std::collections::BTreeMap;

// ------------------------------------------------------------------------ C11
/// what is wrong with the form of an expression, as a structure; conditions on its numbers are collected
fn form(x: &Expression, out: &mut Vec<(String, C)>) {
    let no = |out: &mut Vec<(String, C)>, c: C, s: &str| out.push((s.to_string(), c.not()));
    let int_is = |n: &Symbol<BigInt>, k: i64| Num::big(&n.data).eq(&Num::int(k));
    let real_is = |r: &Symbol<f64>, k: i64| Num::f(r.data).map_or(C::t(false), |n| n.eq(&Num::int(k)));
    match x {
        Expression::Addition(a) | Expression::Multiplication(a) => {
            let sum = matches!(x, Expression::Addition(_));
            let items = a.items();
            no(out, C::t(items.len() < 2), "an association of fewer than two items");
            let (mut ints, mut reals) = (0, 0);
            for it in &items {
                match it {
                    Expression::Integer(n) => {
                        ints += 1;
                        no(out, int_is(n, 0), "zero among the items");
                        if !sum {
                            no(out, int_is(n, 1), "factor one");
                        }
                    }
                    Expression::Real(r) => {
                        reals += 1;
                        no(out, real_is(r, 0), "zero among the items");
                        if !sum {
                            no(out, real_is(r, 1), "factor one");
                        }
                        no(out, Num::f(r.data).unwrap().lt(&Num::int(0)), "negative real");
                    }
                    Expression::Addition(_) => no(out, C::t(sum), "sum inside a sum"),
                    Expression::Multiplication(_) => no(out, C::t(!sum), "product inside a product"),
                    _ => {}
                }
                form(it, out);
            }
            // the sign of the real -1.0 is the integer -1
            let sign = items.iter().any(|f| matches!(f, Expression::Integer(n) if *n == Symbol::integer(-1)));
            no(out, C::t(ints > 1 + (sum && sign) as usize), "several integers");
            no(out, C::t(reals > 1), "several reals");
        }
        Expression::Power(p) => {
            let (b, e) = (p.argument(), p.modifier());
            match &e {
                Expression::Integer(n) => {
                    no(out, int_is(n, 0), "exponent zero");
                    no(out, int_is(n, 1), "exponent one");
                }
                Expression::Real(r) => {
                    no(out, real_is(r, 0), "exponent zero");
                    no(out, real_is(r, 1), "exponent one");
                }
                Expression::Logarithm(l) => no(out, C::t(l.modifier() == b), "power of a logarithm to the same base"),
                _ => {}
            }
            match &b {
                Expression::Power(_) => no(out, C::t(true), "power of a power"),
                Expression::Integer(n) => {
                    no(out, int_is(n, 0), "base zero");
                    no(out, int_is(n, 1), "base one");
                    match &e {
                        Expression::Integer(k) => {
                            no(out, int_is(k, -1).not(), "power of integers left");
                            no(out, int_is(n, -1), "inverse of minus one");
                        }
                        Expression::Real(_) => no(out, C::t(true), "power of numbers left"),
                        _ => {}
                    }
                }
                Expression::Real(_) => no(out, C::t(matches!(e, Expression::Integer(_) | Expression::Real(_))), "power of numbers left"),
                Expression::Multiplication(m) => {
                    let n = m.items().iter().filter(|f| matches!(f, Expression::Integer(_) | Expression::Real(_))).count();
                    no(out, C::t(n > 0), "numbers in the base of a power");
                }
                _ => {}
            }
            form(&b, out);
            form(&e, out);
        }
        Expression::Logarithm(p) => {
            let (a, b) = (p.argument(), p.modifier());
            if let Expression::Power(q) = &a {
                no(out, C::t(q.argument() == b), "logarithm of a power of its base");
            }
            if let (Expression::Real(_), Expression::Real(_)) = (&a, &b) {
                no(out, C::t(true), "logarithm of reals left");
            }
            form(&a, out);
            form(&b, out);
        }
        _ => {}
    }
}
fn check_form(label: &str, x: &Expression, about: impl Fn() -> String) {
    obs(x);
    let mut out = vec![];
    form(x, &mut out);
    for (what, c) in out {
        rt::check(label, &c, || format!("{} => {}: {}", about(), show(x), what));
    }
}
const STAGES: [&str; 3] = ["as built", "expanded", "simplified"];
fn stage(k: usize, t: &T) -> Expression {
    match k {
        0 => build(t),
        1 => build(t).expand(),
        _ => build(t).simplify(),
    }
}
fn form_trees() {
    rt::begin();
    let d = Dom::any(if thorough() { &["x", "y"] } else { &["x"] });
    let t = d.tree(2, false);
    let k = rt::choice("stage", 3);
    let w = World::new(false);
    val(&t, &w.env);
    check_form(STAGES[k], &stage(k, &t), || show_t(&t));
    rt::witness("reached");
}
fn form_wide() {
    rt::begin();
    let few = Few::new(3);
    let n = rt::pick("n", &[2usize, 3, 4]);
    let part = |j: usize| match rt::choice("part", if j < 3 { 9 } else { 3 }) {
        0 => few.int(-WIDE, WIDE, 3),
        1 => few.real(0.5),
        2 => v("x"),
        3 => add(vec![v("x"), few.int(-SMALL, SMALL, 2)]),
        4 => mul(vec![few.int(-SMALL, SMALL, 2), v("y")]),
        5 => div(i(1), few.int(2, 9, 3)),
        6 => neg(mul(vec![v("x"), few.real(0.5)])),
        7 => div(v("x"), few.int(-6, 6, 3)),
        _ => mul(vec![add(vec![v("x"), v("y")]), few.int(-SMALL, SMALL, 3)]),
    };
    let xs: Vec<T> = (0..n).map(part).collect();
    let t = if rt::flag("product") { mul(xs) } else { add(xs) };
    let k = rt::choice("stage", 3);
    let w = World::new(false).generic();
    val(&t, &w.env);
    check_form(STAGES[k], &stage(k, &t), || show_t(&t));
    rt::witness("reached");
}
/// associations of many parts
fn form_many() {
    rt::begin();
    let few = Few::new(2);
    let prod = rt::flag("product");
    let stages = rt::choice("stage", 3);
    let xs = crowd(&few, if prod && stages > 0 { &[5, 7] } else { &[5, 8, 12, 17, 34] }, true);
    // a product of many sums has too many terms
    let open = xs.iter().filter(|t| matches!(t, T::Add(_))).count();
    if prod && stages > 0 && open > 3 {
        return;
    }
    let t = if prod { mul(xs) } else { add(xs) };
    check_form(STAGES[stages], &stage(stages, &t), || show_t(&t));
    rt::witness("reached");
}
/// nested many levels deep
fn form_towers() {
    rt::begin();
    let few = Few::new(2);
    let stages = rt::choice("stage", 3);
    let t = if rt::flag("wrapped") {
        wrapped(mul(vec![add(vec![v("x"), few.int(-WIDE, WIDE, 2)]), add(vec![v("y"), i(1)])]), &[1, 2, 4])
    } else {
        horner(&few, if stages == 0 { &[4, 8, 20] } else { &[4, 8, 12] })
    };
    check_form(STAGES[stages], &stage(stages, &t), || show_t(&t));
    rt::witness("reached");
}
fn form_powers() {
    rt::begin();
    let few = Few::new(3);
    let w = World::new(true);
    let base = |few: &Few| match rt::choice("base", 8) {
        0 => few.int(2, WIDE, 3),
        1 => few.real(1.5),
        2 => v("x"),
        3 => mul(vec![few.int(2, 99, 3), v("x")]),
        4 => pow(v("x"), v("n")),
        5 => pow(v("x"), few.int(-3, 3, 2)),
        6 => add(vec![v("x"), few.int(1, 9, 1)]),
        _ => mul(vec![r(0.5), v("x"), v("y")]),
    };
    let shape = rt::choice("shape", 4);
    // nested powers multiply up
    let (lo, hi) = if shape == 3 { (-2, 2) } else { (-3, 4) };
    let exponent = |few: &Few| match rt::choice("exponent", 6) {
        0 => few.int(lo, hi, 2),
        1 => v("n"),
        2 => mul(vec![few.int(lo, hi, -1), v("n")]),
        3 => log(v("y"), v("x")),
        4 => r(rt::pick("e", &[0.0, 1.0, 0.5, -2.0])),
        _ => add(vec![v("n"), few.int(-2, 2, 1)]),
    };
    let t = match shape {
        0 => pow(base(&few), exponent(&few)),
        1 => log(base(&few), match rt::choice("log", 3) {
            0 => v("x"),
            1 => few.int(2, 9, 2),
            _ => r(2.0),
        }),
        2 => log(pow(base(&few), exponent(&few)), v("x")),
        _ => pow(pow(base(&few), exponent(&few)), exponent(&few)),
    };
    let k = rt::choice("stage", 3);
    val(&t, &w.env);
    check_form(STAGES[k], &stage(k, &t), || show_t(&t));
    rt::witness("reached");
}
/// sums, differences, products, whole powers and exact quotients of integers are integers again
fn whole_numbers() {
    rt::begin();
    fn tree(d: u32, lin: bool) -> T {
        if d == 0 {
            return sint(-WIDE, WIDE);
        }
        match rt::choice("op", 7) {
            6 => {
                // one over one, one over minus one
                let s = pow(i(rt::pick("sign", &[1i64, -1])), i(rt::pick("inverse", &[-1i64, -2, -3, -i64::MAX])));
                if rt::flag("times") { mul(vec![s, tree(d - 1, lin)]) } else { add(vec![tree(d - 1, lin), s]) }
            }
            0 => add(vec![tree(d - 1, lin), tree(0, lin)]),
            1 => sub(tree(0, lin), tree(d - 1, lin)),
            2 => mul(vec![tree(d - 1, lin), tree(0, lin)]),
            3 => neg(tree(d - 1, lin)),
            4 => pow(tree(d - 1, lin), i(rt::pick("power", &[0i64, 1, 2, 3]))),
            _ => {
                // an exact quotient
                let b = rt::pick("by", &[-12i64, -2, -1, 1, 3, 1 << 40]);
                div(mul(vec![tree(d - 1, lin), i(b)]), i(b))
            }
        }
    }
    let t = tree(if thorough() { 3 } else { 2 }, false);
    let w = Env::default();
    val(&t, &w);
    let x = build(&t);
    obs(&x);
    let want = val(&t, &w);
    match &x {
        Expression::Integer(n) => rt::check("exact", &Num::big(&n.data).eq(&want), || format!("{} => {} instead of {}", show_t(&t), show(&x), want.show())),
        _ => rt::fail("an integer", format!("{} => {}", show_t(&t), show(&x))),
    }
    rt::witness("reached");
}
/// a quotient of integers is the integer, or the fraction in lowest terms
fn quotients() {
    rt::begin();
    let (a, b) = (sint(-WIDE, WIDE), match rt::choice("den", 2) {
        0 => sint(-12, 12),
        _ => i(rt::pick("big", &[1i64 << 62, -(1 << 40), 600_851_475_143])),
    });
    let t = div(a.clone(), b.clone());
    let w = Env::default();
    val(&t, &w);
    let x = if rt::flag("operator") { &build(&a) / &build(&b) } else { build(&t) };
    obs(&x);
    let bad = || format!("{} => {}", show_t(&t), show(&x));
    let lowest = |n: &BigInt, d: &BigInt| {
        rt::check("positive denominator above one", &Num::int(1).lt(&Num::big(d)), bad);
        let g = num::integer::gcd(n.clone(), d.clone());
        rt::check("lowest terms", &Num::big(&g).eq(&Num::int(1)), bad);
        let want = val(&t, &w);
        rt::check("exact", &Num::big(n).mul(&Num::big(d).inv()).eq(&want), bad);
    };
    let den = |x: &Expression| match x {
        Expression::Power(p) => match (p.argument(), p.modifier()) {
            (Expression::Integer(d), Expression::Integer(e)) if e == Symbol::integer(-1) => Some(d.data),
            _ => None,
        },
        _ => None,
    };
    match &x {
        Expression::Integer(n) => {
            let want = val(&t, &w);
            rt::check("exact", &Num::big(&n.data).eq(&want), bad)
        }
        Expression::Power(_) => match den(&x) {
            Some(d) => lowest(&BigInt::from(1), &d),
            None => rt::fail("an integer or a fraction", bad()),
        },
        Expression::Multiplication(m) => match m.items().as_slice() {
            [Expression::Integer(n), p] => match den(p) {
                Some(d) => lowest(&n.data, &d),
                None => rt::fail("an integer or a fraction", bad()),
            },
            _ => rt::fail("an integer or a fraction", bad()),
        },
        _ => rt::fail("an integer or a fraction", bad()),
    }
    rt::witness("reached");
}

// ------------------------------------------------------------------------ polynomials
/// exponents of the variables -> coefficient
type K = [u32; 4];
const ONE: K = [0; 4];
type P = BTreeMap<K, Num>;
fn kmul(a: &K, b: &K) -> K {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]]
}
fn padd(a: &P, b: &P) -> P {
    let mut r = a.clone();
    for (k, c) in b {
        let n = match r.get(k) {
            Some(d) => d.add(c),
            None => c.clone(),
        };
        r.insert(*k, n);
    }
    r
}
fn pmul(a: &P, b: &P) -> P {
    let mut r = P::new();
    for (k, c) in a {
        for (l, d) in b {
            let mut one = P::new();
            one.insert(kmul(k, l), c.mul(d));
            r = padd(&r, &one);
        }
    }
    r
}
fn pconst(n: Num) -> P {
    let mut p = P::new();
    p.insert(ONE, n);
    p
}
/// which of the variables a name is: x and y, or the four names in use
fn kvar(s: &str) -> Option<K> {
    let k = NAME_SETS[rt::names_in_use()].iter().position(|n| *n == s)?;
    let mut one = ONE;
    one[k] = 1;
    Some(one)
}
fn pvar(s: &str) -> Option<P> {
    let mut p = P::new();
    p.insert(kvar(s)?, Num::int(1));
    Some(p)
}
fn kshow(k: &K) -> String {
    (0..4).map(|j| format!("{}^{} ", NAME_SETS[rt::names_in_use()][j], k[j])).collect()
}
fn poly_t(t: &T) -> P {
    match t {
        T::Int(n) => pconst(Num::big(n)),
        T::Var(s) => pvar(s).unwrap(),
        T::Add(x) => x.iter().fold(P::new(), |a, t| padd(&a, &poly_t(t))),
        T::Mul(x) => x.iter().fold(pconst(Num::int(1)), |a, t| pmul(&a, &poly_t(t))),
        T::Sub(a, b) => padd(&poly_t(a), &pmul(&pconst(Num::int(-1)), &poly_t(b))),
        T::Neg(a) => pmul(&pconst(Num::int(-1)), &poly_t(a)),
        // by a number
        T::Div(a, b) => pmul(&poly_t(a), &pconst(poly_t(b).remove(&ONE).unwrap().inv())),
        T::Pow(a, e) => match e.as_ref() {
            T::Int(_) => {
                let k = Ev::assuming().recipe(e, &Env::default()).ok().and_then(|n| n.constant()).unwrap();
                let k: u32 = k.to_string().parse().unwrap();
                let a = poly_t(a);
                (0..k).fold(pconst(Num::int(1)), |r, _| pmul(&r, &a))
            }
            _ => unreachable!(),
        },
        _ => unreachable!(),
    }
}
/// the monomial an expression is: exponents and coefficient
fn monomial_of(x: &Expression) -> Option<(K, Num)> {
    match x {
        Expression::Integer(n) => Some((ONE, Num::big(&n.data))),
        Expression::Variable(s) => kvar(&s.data).map(|k| (k, Num::int(1))),
        Expression::Power(p) => match (p.argument(), p.modifier()) {
            (Expression::Integer(d), Expression::Integer(n)) if n == Symbol::integer(-1) => Some((ONE, Num::big(&d.data).inv())),
            (Expression::Variable(s), Expression::Integer(n)) => {
                let k: u32 = Num::big(&n.data).constant()?.to_string().parse().ok()?;
                Some((kvar(&s.data)?.map(|e| e * k), Num::int(1)))
            }
            _ => None,
        },
        Expression::Multiplication(m) => {
            let mut acc = (ONE, Num::int(1));
            let mut seen: Vec<([bool; 4], bool)> = vec![];
            for it in m.items() {
                let (e, c) = match &it {
                    Expression::Multiplication(_) => return None,
                    _ => monomial_of(&it)?,
                };
                // each variable, the integer and the inverse once
                let which = (e.map(|k| k > 0), matches!(it, Expression::Power(_)) && e == ONE);
                if seen.contains(&which) {
                    return None;
                }
                seen.push(which);
                acc = (kmul(&acc.0, &e), acc.1.mul(&c));
            }
            Some(acc)
        }
        _ => None,
    }
}
fn a_term(few: &Few) -> T {
    match rt::choice("term", 6) {
        0 => few.int(-WIDE, WIDE, 3),
        1 => v("x"),
        2 => mul(vec![few.int(-WIDE, WIDE, -2), v("x")]),
        3 => mul(vec![few.int(-WIDE, WIDE, 5), v("x"), v("y")]),
        4 => neg(v("y")),
        _ => monomial(few.int(-WIDE, WIDE, 1), 2, 0),
    }
}
fn a_sum(few: &Few) -> T {
    match rt::choice("sum", 6) {
        0 => add(vec![v("x"), few.int(-WIDE, WIDE, 2)]),
        1 => sub(v("x"), v("y")),
        2 => add(vec![v("x"), mul(vec![few.int(-WIDE, WIDE, -1), v("y")])]),
        3 => add(vec![mul(vec![few.int(-WIDE, WIDE, 2), v("x")]), few.int(-WIDE, WIDE, -2)]),
        4 => add(vec![v("y"), v("x"), few.int(-WIDE, WIDE, 1)]),
        _ => mul(vec![few.int(-WIDE, WIDE, 2), v("y")]),
    }
}
/// a polynomial in x and y written in some way
fn polynomial(few: &Few, small: bool) -> T {
    match rt::choice("polynomial", 8) {
        0 => add(vec![a_term(few), a_term(few)]),
        1 => mul(vec![a_sum(few), a_sum(few)]),
        2 => npow(a_sum(few), if small { 2 } else { rt::pick("power", &[2, 3]) }),
        3 => sub(mul(vec![a_sum(few), v("x")]), a_term(few)),
        4 => add(vec![a_term(few), a_term(few), a_term(few)]),
        5 => npow(mul(vec![few.int(-WIDE, WIDE, 2), v("x"), v("y")]), 2),
        6 => mul(vec![v("x"), a_sum(few), v("x")]),
        _ => neg(mul(vec![a_sum(few), few.int(-WIDE, WIDE, 3)])),
    }
}
/// a polynomial of degree 3 to 6
fn high(few: &Few) -> T {
    let s = |few: &Few| match rt::choice("base", 4) {
        0 => add(vec![v("x"), v("y")]),
        1 => add(vec![v("x"), few.int(-WIDE, WIDE, 2)]),
        2 => add(vec![mul(vec![few.int(-WIDE, WIDE, -1), v("y")]), v("x")]),
        _ => add(vec![v("x"), v("y"), few.int(-WIDE, WIDE, 1)]),
    };
    let a = s(few);
    match rt::choice("high", 7) {
        0 => npow(a, rt::pick("power", &[3, 4, 5])),
        1 => mul(vec![npow(a.clone(), 2), npow(a, 2)]),
        2 => mul(vec![npow(a, 2), npow(s(few), 2)]),
        3 => npow(npow(a, 2), 2),
        4 => mul(vec![a.clone(), s(few), a]),
        5 => npow(mul(vec![a, s(few)]), 2),
        _ => mul(vec![npow(a, 3), s(few), v("x")]),
    }
}
/// products and powers of sums, written in two ways
fn identities_high() {
    rt::begin();
    let name = rt::pick("verdict", &NAMES);
    let few = Few::new(1);
    let s = |few: &Few| match rt::choice("sum", 3) {
        0 => add(vec![v("x"), v("y")]),
        1 => add(vec![v("x"), few.int(-WIDE, WIDE, 2)]),
        _ => add(vec![mul(vec![few.int(-WIDE, WIDE, -1), v("y")]), v("x")]),
    };
    let (a, b) = (s(&few), s(&few));
    let sq = |t: &T| npow(t.clone(), 2);
    let (p, q) = match rt::choice("pair", 6) {
        0 => (npow(a.clone(), 4), mul(vec![sq(&a), sq(&a)])),
        1 => (mul(vec![sq(&a), sq(&b)]), sq(&mul(vec![a, b]))),
        2 => (npow(a.clone(), 3), mul(vec![a.clone(), sq(&a)])),
        3 => (sq(&sq(&a)), mul(vec![a.clone(), mul(vec![sq(&a), a])])),
        4 => (mul(vec![sq(&a), b.clone()]), mul(vec![a.clone(), mul(vec![b, a])])),
        _ => (sub(sq(&a), sq(&b)), mul(vec![sub(a.clone(), b.clone()), add(vec![a, b])])),
    };
    let q = if rt::flag("shifted") { add(vec![q, few.int(-WIDE, WIDE, 1)]) } else { q };
    decide_pair(name, &p, &q);
    rt::witness("reached");
}
/// four variables by one of the sets of names
fn use_names() -> [&'static str; 4] {
    let k = rt::choice("names", NAME_SETS.len());
    rt::use_names(k);
    NAME_SETS[k]
}
/// polynomials in several variables
fn identities_several() {
    rt::begin();
    let name = rt::pick("verdict", &NAMES);
    let few = Few::new(2);
    let names = use_names();
    let a = several(&few, &names);
    let b = match rt::choice("second", 3) {
        0 => several(&few, &names),
        1 => add(vec![a.clone(), few.int(-WIDE, WIDE, 1)]),
        _ => expansion_of(&a, &names, few.int(-WIDE, WIDE, 0)),
    };
    decide_pair(name, &a, &b);
    rt::witness("reached");
}
/// sums of many terms, in other orders and groupings, with one term other
fn identities_many() {
    rt::begin();
    let name = rt::pick("verdict", &NAMES);
    let few = Few::new(2);
    rt::use_names(0);
    let n = rt::pick("n", &[5usize, 8, 12, 36]);
    let step = rt::pick("step", &[1usize, 3]);
    let xs: Vec<T> = (0..n)
        .map(|j| {
            let (a, b) = ((j * step) % 4, (j * step / 4) % 3);
            mul(vec![i([3, -1, 2, 5][j % 4]), npow(v("x"), a as u32), npow(v("y"), b as u32)])
        })
        .collect();
    let mut ys = shuffled(&xs);
    let at = rt::pick("at", &[0usize, 2, n - 1]);
    match rt::choice("how", 4) {
        0 => ys[at] = mul(vec![few.int(-WIDE, WIDE, 2), ys[at].clone()]),
        1 => ys.push(few.int(-WIDE, WIDE, 1)),
        2 => ys[at] = add(vec![ys[at].clone(), mul(vec![few.int(-WIDE, WIDE, 0), v("x"), v("y")])]),
        _ => {
            ys.remove(at);
        }
    }
    let b = match rt::choice("written", 2) {
        0 => add(ys),
        _ => grouped(&ys, false),
    };
    decide_pair(name, &add(xs), &b);
    rt::witness("reached");
}
/// towers of sums and products against their expansion
fn identities_towers() {
    rt::begin();
    let name = rt::pick("verdict", &NAMES);
    let few = Few::new(2);
    let names = NAME_SETS[0];
    let a = horner(&few, &[4, 8, 12]);
    let b = match rt::choice("second", 3) {
        0 => add(vec![few.int(-WIDE, WIDE, 0), a.clone()]),
        1 => expansion_of(&a, &names, few.int(-WIDE, WIDE, 0)),
        _ => add(vec![a.clone(), mul(vec![few.int(-WIDE, WIDE, 0), v("x"), v("y")])]),
    };
    decide_pair(name, &a, &b);
    rt::witness("reached");
}
/// the expansion written out with constant coefficients where they are constant
fn expansion_of(t: &T, names: &[&'static str; 4], less: T) -> T {
    let mut xs: Vec<T> = vec![neg(less)];
    for (k, c) in poly_t(t).iter().rev() {
        let c = match c.constant() {
            Some(c) if c.is_integer() => big(c.numer().to_string().parse().unwrap()),
            _ => i(2),
        };
        let mut f = vec![];
        for j in (0..4).rev() {
            if k[j] > 0 {
                f.push(npow(v(names[j]), k[j]));
            }
        }
        f.push(c);
        xs.push(mul(f));
    }
    add(xs)
}
/// differences of coefficients: the constant one, and whether all others are zero
fn difference(a: &P, b: &P) -> (Num, C) {
    let d = padd(a, &pmul(&pconst(Num::int(-1)), b));
    let rest = d.iter().filter(|(k, _)| **k != ONE).map(|(_, c)| c.zero_c()).collect();
    (d.get(&ONE).cloned().unwrap_or(Num::int(0)), C::and(rest))
}
/// comparisons of polynomials answer exactly what the coefficients say
fn decide_pair(name: &str, ta: &T, tb: &T) {
    let f = match name {
        "equal" => Expression::equal,
        "not_equal" => Expression::not_equal,
        "greater" => Expression::greater,
        "lesser" => Expression::lesser,
        "greater_equal" => Expression::greater_equal,
        "lesser_equal" => Expression::lesser_equal,
        _ => Expression::comparable as fn(&Expression, &Expression) -> bool,
    };
    let got = f(&build(ta), &build(tb));
    rt::observe(move || got.to_string());
    let (c, rest) = difference(&poly_t(ta), &poly_t(tb));
    let (z, p, n) = (c.zero_c(), c.pos_c(), c.neg().pos_c());
    let want = match name {
        "equal" => C::and(vec![rest, z]),
        "not_equal" => C::and(vec![rest, z.not()]),
        "greater" => C::and(vec![rest, p]),
        "lesser" => C::and(vec![rest, n]),
        "greater_equal" => C::and(vec![rest, n.not()]),
        "lesser_equal" => C::and(vec![rest, p.not()]),
        _ => rest,
    };
    rt::check(name, &if got { want } else { want.not() }, || format!("{} of {} and {} is {}", name, show_t(ta), show_t(tb), got));
}
const NAMES: [&str; 7] = ["equal", "not_equal", "greater", "lesser", "greater_equal", "lesser_equal", "comparable"];
fn identities() {
    rt::begin();
    let name = rt::pick("verdict", &NAMES);
    let few = Few::new(3);
    let a = polynomial(&few, true);
    let b = polynomial(&few, true);
    decide_pair(name, &a, &b);
    rt::witness("reached");
}
/// a polynomial against its expansion with symbolic coefficients
fn expanded_forms() {
    rt::begin();
    let name = rt::pick("verdict", &NAMES);
    let s = |lo: i128, hi: i128| sint(lo, hi);
    let (lo, hi) = (-WIDE, WIDE);
    let (a, b) = match rt::choice("form", 7) {
        0 => (
            npow(add(vec![v("x"), s(lo, hi)]), 2),
            add(vec![npow(v("x"), 2), mul(vec![s(lo, hi), v("x")]), s(lo, hi)]),
        ),
        1 => (
            mul(vec![add(vec![v("x"), s(lo, hi)]), add(vec![v("y"), s(lo, hi)])]),
            add(vec![mul(vec![v("x"), v("y")]), mul(vec![s(lo, hi), v("x")]), mul(vec![s(lo, hi), v("y")]), s(lo, hi)]),
        ),
        2 => (
            mul(vec![add(vec![v("x"), s(lo, hi)]), sub(v("x"), s(lo, hi))]),
            sub(npow(v("x"), 2), s(lo, hi)),
        ),
        3 => (
            mul(vec![s(lo, hi), add(vec![v("x"), v("y")])]),
            add(vec![mul(vec![s(lo, hi), v("x")]), mul(vec![v("y"), s(lo, hi)])]),
        ),
        4 => (
            npow(mul(vec![s(lo, hi), v("x")]), 2),
            mul(vec![s(lo, hi), v("x"), v("x")]),
        ),
        5 => (
            npow(add(vec![v("x"), v("y")]), 3),
            add(vec![
                npow(v("x"), 3),
                mul(vec![s(lo, hi), npow(v("x"), 2), v("y")]),
                mul(vec![s(lo, hi), v("x"), npow(v("y"), 2)]),
                npow(v("y"), 3),
            ]),
        ),
        _ => (
            add(vec![mul(vec![s(lo, hi), v("x")]), mul(vec![s(lo, hi), v("x")])]),
            add(vec![mul(vec![s(lo, hi), v("x")]), s(lo, hi)]),
        ),
    };
    let (a, b) = if rt::flag("swap") { (b, a) } else { (a, b) };
    decide_pair(name, &a, &b);
    rt::witness("reached");
}

// ------------------------------------------------------------------------ C16
/// a product with a sum in it, or a whole power of a sum or product: something left to expand
fn unexpanded(x: &Expression) -> bool {
    match x {
        Expression::Addition(a) => a.items().iter().any(unexpanded),
        Expression::Multiplication(a) => a.items().iter().any(|f| matches!(f, Expression::Addition(_) | Expression::Multiplication(_)) || unexpanded(f)),
        Expression::Power(p) => {
            let open = matches!(p.argument(), Expression::Addition(_) | Expression::Multiplication(_)) && matches!(p.modifier(), Expression::Integer(n) if !n.is_negative());
            open || unexpanded(&p.argument()) || unexpanded(&p.modifier())
        }
        Expression::Logarithm(p) => unexpanded(&p.argument()) || unexpanded(&p.modifier()),
        _ => false,
    }
}
fn expanded(label: &str, t: &T) {
    let x = build(t).expand();
    obs(&x);
    rt::check(label, &C::t(!unexpanded(&x)), || format!("{} => {}", show_t(t), show(&x)));
    let y = x.clone().expand();
    rt::check("expanding again changes nothing", &C::t(x == y), || format!("{} => {} => {}", show_t(t), show(&x), show(&y)));
}
fn expand_polynomials() {
    rt::begin();
    let few = Few::new(3);
    let t = polynomial(&few, false);
    expanded("polynomial", &t);
    rt::witness("reached");
}
/// products of many factors and sums of many terms
fn expand_many() {
    rt::begin();
    let few = Few::new(2);
    let sum = |few: &Few, n: usize| add((0..n).map(|j| mul(vec![few.int(-WIDE, WIDE, [2, -1, 3][j % 3]), npow(v(["x", "y"][j % 2]), 1 + j as u32 / 2)])).collect());
    let t = match rt::choice("many", 8) {
        6 => mul(vec![sum(&few, 9), sum(&few, 12)]),
        7 => mul(vec![sum(&few, 5), sum(&few, 4), sum(&few, 4)]),
        0 => mul(vec![sum(&few, 3), sum(&few, 4)]),
        1 => mul(vec![sum(&few, 6), v("x")]),
        2 => npow(sum(&few, 4), 2),
        3 => mul((0..7).map(|j| if j == 3 { sum(&few, 2) } else { v(["x", "y"][j % 2]) }).collect()),
        4 => mul((0..5).map(|j| if j % 2 == 0 { add(vec![v("x"), few.int(-WIDE, WIDE, 1 + j as i64)]) } else { v("y") }).collect()),
        _ => add((0..8).map(|j| if j % 3 == 0 { mul(vec![sum(&few, 2), v("y")]) } else { mul(vec![i(j), v("x")]) }).collect()),
    };
    let t = if rt::flag("shifted") { add(vec![t, few.int(-WIDE, WIDE, 3)]) } else { t };
    expanded("many", &t);
    rt::witness("reached");
}
fn expand_several() {
    rt::begin();
    let few = Few::new(2);
    let names = use_names();
    let t = several(&few, &names);
    expanded("several", &t);
    rt::witness("reached");
}
fn expand_high() {
    rt::begin();
    let t = high(&Few::new(1));
    expanded("high", &t);
    rt::witness("reached");
}
fn expand_deep() {
    rt::begin();
    let few = Few::new(2);
    let k = rt::choice("inner", 4);
    let inner = match k {
        0 => a_sum(&few),
        1 => mul(vec![a_sum(&few), v("x")]),
        2 => npow(a_sum(&few), 2),
        _ => add(vec![mul(vec![v("y"), a_sum(&few)]), v("x")]),
    };
    let t = match rt::choice("outer", 6) {
        0 => mul(vec![inner, a_sum(&few)]),
        1 => mul(vec![v("x"), inner, v("y")]),
        2 => npow(inner, 2),
        3 => add(vec![mul(vec![inner, few.int(-WIDE, WIDE, 2)]), v("y")]),
        4 => mul(vec![add(vec![inner, v("y")]), few.int(-WIDE, WIDE, -1)]),
        _ => npow(inner, if k == 2 { 2 } else { 3 }),
    };
    expanded("nested", &t);
    rt::witness("reached");
}
/// powers with many terms
fn far(few: &Few) -> T {
    rt::long_run(40);
    let n = rt::pick("power", if thorough() { &[6, 7, 8, 9] } else { &[6, 7] });
    let s = match rt::choice("base", 3) {
        0 => add(vec![v("x"), few.int(-WIDE, WIDE, 2)]),
        1 => add(vec![mul(vec![few.int(-WIDE, WIDE, -1), v("y")]), v("x")]),
        _ => return npow(add(vec![v("x"), v("y"), few.int(-WIDE, WIDE, 1)]), 5),
    };
    npow(s, n)
}
fn expand_far() {
    rt::begin();
    let few = Few::new(1);
    let t = far(&few);
    let t = if rt::flag("shifted") { add(vec![t, v("y")]) } else { t };
    expanded("many terms", &t);
    rt::witness("reached");
}
fn simplify_far() {
    rt::begin();
    let few = Few::new(1);
    let t = far(&few);
    let t = if rt::flag("shifted") { add(vec![t, v("y")]) } else { t };
    normal_form("many terms", &t);
    rt::witness("reached");
}
fn expand_towers() {
    rt::begin();
    let few = Few::new(1);
    let t = horner(&few, &[4, 8, 14]);
    expanded("tower", &t);
    rt::witness("reached");
}
fn expand_wrapped() {
    rt::begin();
    let few = Few::new(1);
    let p = match rt::choice("inside", 3) {
        0 => mul(vec![a_sum(&few), add(vec![v("x"), v("y")])]),
        1 => npow(a_sum(&few), 2),
        _ => mul(vec![few.int(-WIDE, WIDE, 2), add(vec![v("x"), i(1)])]),
    };
    let t = wrapped(p, &[1, 2, 4]);
    let x = build(&t).expand();
    obs(&x);
    rt::check("inside", &C::t(!unexpanded(&x)), || format!("{} => {}", show_t(&t), show(&x)));
    rt::witness("reached");
}
/// inside powers, logarithms and quotients
fn expand_inside() {
    rt::begin();
    let few = Few::new(2);
    let p = match rt::choice("inside", 3) {
        0 => mul(vec![a_sum(&few), a_sum(&few)]),
        1 => npow(a_sum(&few), 2),
        _ => mul(vec![few.int(-WIDE, WIDE, 2), a_sum(&few)]),
    };
    let w = World::new(true);
    let t = match rt::choice("outside", 6) {
        0 => pow(v("z"), p),
        1 => pow(p, v("n")),
        2 => log(p, v("x")),
        3 => log(v("x"), p),
        4 => div(v("z"), p),
        _ => div(p, v("z")),
    };
    let _ = w;
    expanded("inside", &t);
    rt::witness("reached");
}

// ------------------------------------------------------------------------ C20
/// simplified polynomials: one term for each non-zero coefficient, and nothing else
fn normal_form(label: &str, t: &T) {
    let x = build(t).simplify();
    obs(&x);
    let terms = match &x {
        Expression::Addition(a) => a.items(),
        _ => vec![x.clone()],
    };
    let mut got = P::new();
    let bad = |what: &str| format!("{} => {}: {}", show_t(t), show(&x), what);
    for it in &terms {
        match monomial_of(it) {
            Some((k, c)) => {
                if got.insert(k, c).is_some() {
                    rt::fail(label, bad("like terms left"));
                }
            }
            None => rt::fail(label, bad("a term that is not a coefficient times powers of variables")),
        }
    }
    let zero = terms.len() == 1 && matches!(&x, Expression::Integer(_));
    let want = poly_t(t);
    for (k, c) in &got {
        if !zero {
            rt::check(label, &c.zero_c().not(), || bad("a term of coefficient zero"));
        }
        let w = want.get(k).cloned().unwrap_or(Num::int(0));
        rt::check(label, &c.eq(&w), || bad(&format!("coefficient of {} is not {}", kshow(k), w.show())));
    }
    for (k, c) in &want {
        if !got.contains_key(k) {
            rt::check(label, &c.zero_c(), || bad(&format!("no term {} with coefficient {}", kshow(k), c.show())));
        }
    }
}
fn simplify_polynomials() {
    rt::begin();
    let few = Few::new(3);
    let t = polynomial(&few, false);
    normal_form("polynomial", &t);
    rt::witness("reached");
}
fn simplify_several() {
    rt::begin();
    let few = Few::new(3);
    let names = use_names();
    let t = match rt::choice("pair", 3) {
        0 => several(&few, &names),
        1 => add(vec![several(&few, &names), mul(vec![v(names[2]), few.int(-WIDE, WIDE, -2), v(names[1]), v(names[0])])]),
        _ => sub(several(&few, &names), mul(vec![v(names[1]), v(names[0]), v(names[3])])),
    };
    normal_form("several", &t);
    rt::witness("reached");
}
fn simplify_high() {
    rt::begin();
    let t = high(&Few::new(1));
    normal_form("high", &t);
    rt::witness("reached");
}
/// like terms next to several fractions
fn simplify_fractions() {
    rt::begin();
    let few = Few::new(3);
    let n = rt::pick("n", &[3usize, 4, 5]);
    let xs = (0..n)
        .map(|j| match rt::choice("term", if j < 3 { 7 } else { 3 }) {
            0 => mul(vec![few.int(-WIDE, WIDE, -2), v("x")]),
            1 => div(few.int(-99, 99, 1), i(2)),
            2 => div(i(1), i(3)),
            3 => v("x"),
            4 => few.int(-WIDE, WIDE, 4),
            5 => div(few.int(-99, 99, 2), few.int(1, 6, 4)),
            _ => mul(vec![add(vec![v("x"), v("y")]), few.int(-WIDE, WIDE, 3)]),
        })
        .collect();
    normal_form("fractions", &add(xs));
    rt::witness("reached");
}
fn simplify_sums() {
    rt::begin();
    let few = Few::new(if thorough() { 5 } else { 4 });
    let n = if thorough() { rt::pick("n", &[3usize, 4, 5]) } else { rt::pick("n", &[3, 4]) };
    let xs = (0..n)
        .map(|j| match rt::choice("term", if j < 3 { 6 } else { 3 }) {
            0 => mul(vec![few.int(-WIDE, WIDE, -2), v("x")]),
            1 => mul(vec![few.int(-WIDE, WIDE, 5), v("y"), v("x")]),
            2 => few.int(-WIDE, WIDE, 3),
            3 => v("x"),
            4 => neg(mul(vec![v("x"), v("y")])),
            _ => monomial(few.int(-WIDE, WIDE, 1), 2, 1),
        })
        .collect();
    normal_form("sum", &add(xs));
    rt::witness("reached");
}
/// many terms
fn simplify_many() {
    rt::begin();
    let few = Few::new(2);
    let n = rt::pick("n", &[6usize, 9, 12, 17, 40, 70]);
    let k = [rt::choice("kind", 5), rt::choice("kind", 5)];
    let xs = (0..n)
        .map(|j| {
            let c = [7, -1, 3, 1, 12, -5][j % 6];
            match k[j % 2] {
                0 => few.int(-WIDE, WIDE, c),
                1 => v(["x", "y", "x"][(j / 2) % 3]),
                2 => mul(vec![few.int(-WIDE, WIDE, c), v(["x", "y", "x"][(j / 3) % 3]), v("y")]),
                3 => monomial(few.int(-WIDE, WIDE, c), (j as u32 / 2) % 5, (j as u32 / 4) % 3),
                _ => neg(mul(vec![v("x"), add(vec![v("y"), few.int(-WIDE, WIDE, c)])])),
            }
        })
        .collect();
    normal_form("many", &add(xs));
    rt::witness("reached");
}
/// equal polynomials simplify to the same expression, simplified ones stay
fn simplify_again() {
    rt::begin();
    let few = Few::new(3);
    let t = polynomial(&few, true);
    let x = build(&t).simplify();
    obs(&x);
    let y = x.clone().simplify();
    rt::check("simplified", &C::t(x == y), || format!("{} => {} => {}", show_t(&t), show(&x), show(&y)));
    let z = build(&t).expand().simplify();
    rt::check("expanded first", &C::t(x == z), || format!("{} => {}, expanded first {}", show_t(&t), show(&x), show(&z)));
    let d = Expression::subtraction(build(&t), build(&t).expand()).simplify();
    rt::check("less its expansion", &C::t(d == Symbol::integer(0).expr()), || format!("{} less its expansion: {}", show_t(&t), show(&d)));
    rt::witness("reached");
}
/// a whole natural power or monomial of x and y, or a sum of such: anything else is taken as it is
fn is_polynomial(x: &Expression) -> bool {
    match x {
        Expression::Integer(_) => true,
        Expression::Variable(s) => s.data == "x" || s.data == "y",
        Expression::Addition(a) => a.items().iter().all(is_polynomial),
        Expression::Multiplication(a) => a.items().iter().all(is_polynomial),
        Expression::Power(p) => is_polynomial(&p.argument()) && matches!(p.modifier(), Expression::Integer(n) if !n.is_negative()),
        _ => false,
    }
}
/// the largest polynomials inside an expression
fn inner_polynomials(x: &Expression, out: &mut Vec<Expression>) {
    if is_polynomial(x) {
        out.push(x.clone());
        return;
    }
    match x {
        Expression::Addition(a) | Expression::Multiplication(a) => a.items().iter().for_each(|i| inner_polynomials(i, out)),
        Expression::Power(p) | Expression::Logarithm(p) => {
            inner_polynomials(&p.argument(), out);
            inner_polynomials(&p.modifier(), out);
        }
        _ => {}
    }
}
fn in_normal_form(label: &str, x: &Expression, about: impl Fn(&str) -> String) {
    let terms = match x {
        Expression::Addition(a) => a.items(),
        _ => vec![x.clone()],
    };
    let mut got = P::new();
    for it in &terms {
        match monomial_of(it) {
            Some((k, c)) => {
                if terms.len() > 1 {
                    rt::check(label, &c.zero_c().not(), || about("a term of coefficient zero"));
                }
                if got.insert(k, c).is_some() {
                    rt::fail(label, about("like terms left"));
                }
            }
            None => rt::fail(label, about("a term that is not a coefficient times powers of variables")),
        }
    }
}
/// polynomials inside powers and logarithms are simplified as well
fn simplify_inside() {
    rt::begin();
    let few = Few::new(3);
    let p = match rt::choice("inside", 5) {
        0 => add(vec![a_term(&few), a_term(&few)]),
        1 => mul(vec![a_sum(&few), a_sum(&few)]),
        2 => npow(a_sum(&few), 2),
        3 => sub(mul(vec![a_sum(&few), v("x")]), a_term(&few)),
        _ => add(vec![a_term(&few), a_term(&few), a_term(&few)]),
    };
    let w = World::new(true);
    let t = match rt::choice("outside", 6) {
        0 => pow(v("z"), p.clone()),
        1 => pow(p.clone(), v("n")),
        2 => log(p.clone(), v("b")),
        3 => log(v("z"), p.clone()),
        4 => div(v("z"), p.clone()),
        _ => pow(p.clone(), mul(vec![i(-2), v("n")])),
    };
    // zero has no powers and logarithms
    let want = poly_t(&p);
    let nonzero = C::and(want.iter().map(|(_, c)| c.zero_c()).collect()).not();
    rt::assume(&nonzero);
    let _ = w;
    let around = rt::flag("around");
    let t = if around { add(vec![mul(vec![i(3), t]), v("w")]) } else { t };
    let x = build(&t).simplify();
    obs(&x);
    let bad = |what: &str| format!("{} => {}: {}", show_t(&t), show(&x), what);
    let mut inside = vec![];
    inner_polynomials(&x, &mut inside);
    for q in &inside {
        in_normal_form("inside", q, |s| bad(&format!("{}: {}", show(q), s)));
    }
    rt::witness("reached");
}
fn simplify_towers() {
    rt::begin();
    let few = Few::new(1);
    normal_form("tower", &horner(&few, &[4, 8, 12]));
    rt::witness("reached");
}
fn simplify_wrapped() {
    rt::begin();
    let few = Few::new(1);
    let p = match rt::choice("inside", 4) {
        0 => add(vec![v("x"), mul(vec![few.int(-WIDE, WIDE, 2), v("x")]), i(5)]),
        1 => mul(vec![add(vec![v("x"), few.int(-WIDE, WIDE, 1)]), add(vec![v("y"), i(2)])]),
        2 => npow(add(vec![v("x"), v("y")]), 2),
        _ => sub(mul(vec![add(vec![v("x"), i(1)]), v("y")]), mul(vec![few.int(-WIDE, WIDE, 1), v("y"), v("x")])),
    };
    let t = wrapped(p, &[1, 2, 4]);
    let x = build(&t).simplify();
    obs(&x);
    let bad = |what: &str| format!("{} => {}: {}", show_t(&t), show(&x), what);
    let mut inside = vec![];
    inner_polynomials(&x, &mut inside);
    for q in &inside {
        in_normal_form("inside", q, |s| bad(&format!("{}: {}", show(q), s)));
    }
    rt::witness("reached");
}
/// sums of multiples of what is not a polynomial: one term of each
fn simplify_terms() {
    rt::begin();
    let few = Few::new(4);
    let n = if thorough() { rt::pick("n", &[2usize, 3, 4, 5]) } else { rt::pick("n", &[2, 3, 4]) };
    let kind = rt::choice("kind", 5);
    let odd = || match kind {
        0 => log(v("x"), v("b")),
        1 => pow(v("x"), v("n")),
        2 => div(i(1), v("x")),
        3 => log(add(vec![v("x"), i(1)]), v("b")),
        _ => pow(v("z"), mul(vec![i(2), v("n")])),
    };
    let mut sums: std::collections::BTreeMap<usize, Num> = Default::default();
    let xs: Vec<T> = (0..n)
        .map(|j| {
            let k = rt::choice("term", if j < 3 { 5 } else { 2 });
            let c = few.int(-WIDE, WIDE, [2, -1, 1, -5, 3][(j + k) % 5]);
            let num = match &c {
                T::Int(c) => Num::big(c),
                _ => unreachable!(),
            };
            let (key, num, t) = match k {
                0 => (0, num, mul(vec![c, odd()])),
                1 => (0, Num::int(1), odd()),
                2 => (1, num, mul(vec![odd(), v("y"), c])),
                3 => (2, num, c),
                _ => (0, Num::int(-1), neg(odd())),
            };
            let s = sums.remove(&key).unwrap_or(Num::int(0)).add(&num);
            sums.insert(key, s);
            t
        })
        .collect();
    let t = add(xs);
    let x = build(&t).simplify();
    obs(&x);
    let bad = |what: &str| format!("{} => {}: {}", show_t(&t), show(&x), what);
    let terms = match &x {
        Expression::Addition(a) => a.items(),
        _ => vec![x.clone()],
    };
    let one = build(&odd()).simplify();
    let two = build(&mul(vec![odd(), v("y")])).simplify();
    let factors = |e: &Expression| match e {
        Expression::Multiplication(m) => m.items(),
        e => vec![e.clone()],
    };
    let mut got: std::collections::BTreeMap<usize, Num> = Default::default();
    for it in &terms {
        let mut c = Num::int(1);
        let mut rest = vec![];
        for f in factors(it) {
            match &f {
                Expression::Integer(n) => c = c.mul(&Num::big(&n.data)),
                _ => rest.push(f),
            }
        }
        let key = if rest.is_empty() {
            2
        } else if rest == factors(&one) {
            0
        } else if rest == factors(&two) {
            1
        } else {
            rt::fail("terms", bad(&format!("a term {}", show(it))));
            return;
        };
        if got.insert(key, c).is_some() {
            rt::fail("terms", bad("like terms left"));
        }
    }
    for k in 0..3 {
        let want = sums.get(&k).cloned().unwrap_or(Num::int(0));
        match got.get(&k) {
            Some(c) => rt::check("terms", &c.eq(&want), || bad(&format!("term {} is not {}", k, want.show()))),
            None => rt::check("terms", &want.zero_c(), || bad(&format!("no term {} with coefficient {}", k, want.show()))),
        }
    }
    rt::witness("reached");
}
/// products of powers of the same bases come down to one power each
fn simplify_products() {
    rt::begin();
    let few = Few::new(3);
    let n = rt::pick("n", &[2usize, 3, 4]);
    let xs: Vec<T> = (0..n)
        .map(|j| match rt::choice("factor", if j < 3 { 7 } else { 3 }) {
            0 => v("x"),
            1 => div(i(1), v("x")),
            2 => v("y"),
            3 => pow(v("x"), few.int(-3, 4, 2)),
            4 => pow(v("y"), few.int(-3, 4, -1)),
            5 => few.int(-WIDE, WIDE, 3),
            _ => div(v("y"), v("x")),
        })
        .collect();
    let t = mul(xs);
    let w = World::new(false).generic();
    val(&t, &w.env);
    let x = build(&t).simplify();
    obs(&x);
    let items = match &x {
        Expression::Multiplication(m) => m.items(),
        _ => vec![x.clone()],
    };
    let mut bases: Vec<String> = vec![];
    for it in &items {
        let b = match it {
            Expression::Power(p) => show(&p.argument()),
            Expression::Integer(_) => "number".into(),
            Expression::Variable(s) => s.data.clone(),
            _ => "?".into(),
        };
        let bad = || format!("{} => {}", show_t(&t), show(&x));
        rt::check("one power of each base", &C::t(!bases.contains(&b) && b != "?"), bad);
        bases.push(b);
    }
    rt::witness("reached");
}
pub fn list() -> Vec<Harness> {
    let mut out = vec![];
    let p = "C11";
    out.extend(vec![
        h(p, "form_trees", "every tree of + - * / and negation of depth <= 2, as built, expanded and simplified", form_trees as fn(), 2.0, 3),
        h(p, "form_wide", "sums and products of 2-4 parts of 9 kinds, as built, expanded and simplified", form_wide, 2.0, 4),
        h(p, "form_many", "sums and products of 5-34 parts of two kinds out of 8, as built, expanded and simplified; two of the numbers symbolic", form_many, 1.0, 6),
        h(p, "form_towers", "polynomials nested 4-20 deep in 5 ways and polynomials inside 1-4 powers, logarithms and quotients, as built, expanded and simplified", form_towers, 1.0, 6),
        h(p, "form_powers", "powers, logarithms and nested powers over 8 kinds of base and 6 of exponent, as built, expanded and simplified", form_powers, 2.0, 10),
        h(p, "whole_numbers", "integer trees of depth 2 (3 thorough) with leaves in ±2^126: + - * negation, powers 0-3, exact quotients, negative powers of 1 and -1", whole_numbers, 1.5, 0),
        h(p, "quotients", "a/b with a in ±2^126, b in ±12 or one of three large integers", quotients, 1.0, 0),
    ]);
    let p = "C15";
    out.extend(vec![
        h(p, "identities", "7 verdicts on pairs of polynomials of 8 kinds in two variables, three coefficients in ±2^126 symbolic", identities as fn(), 3.0, 16),
        h(p, "identities_several", "7 verdicts on polynomials of 9 kinds in four variables of 3 sets of names, against each other, shifted, or written out", identities_several, 1.0, 8),
        h(p, "identities_many", "7 verdicts on sums of 5-36 monomials in 5 orders and 4 groupings, one term other, added or left out", identities_many, 1.0, 6),
        h(p, "identities_towers", "7 verdicts on polynomials nested 4-12 deep in 5 ways against themselves shifted, their expansion, and more by a monomial", identities_towers, 1.0, 20),
        h(p, "identities_high", "7 verdicts on products and powers of squares and cubes of 3 kinds of sums written in two ways, shifted or not", identities_high, 1.0, 30),
        h(p, "expanded_forms", "7 verdicts on 7 polynomials and their expansions, every coefficient of both symbolic in ±2^126", expanded_forms, 2.0, 300),
    ]);
    let p = "C16";
    out.extend(vec![
        h(p, "expand_polynomials", "polynomials of 8 kinds, powers to 3, three coefficients in ±2^126 symbolic", expand_polynomials as fn(), 2.0, 0),
        h(p, "expand_several", "polynomials of 9 kinds in four variables of 3 sets of names, two coefficients in ±2^126 symbolic", expand_several, 1.0, 40),
        h(p, "expand_many", "products of 2-7 factors (up to 108 terms) and sums of 8 terms, sums of 2-12 terms among them; two coefficients in ±2^126 symbolic", expand_many, 1.0, 40),
        h(p, "expand_high", "products and powers of powers of 4 kinds of sums, degree 3 to 6", expand_high, 1.0, 0),
        h(p, "expand_far", "powers 6 and 7 (8, 9 thorough) of sums of 2 terms and 5 of sums of 3 (up to 243 terms, 512 thorough)", expand_far, 1.0, 0),
        h(p, "expand_deep", "products and powers of 4 kinds of products, powers and sums", expand_deep, 2.0, 0),
        h(p, "expand_towers", "polynomials nested 4-14 deep in 5 ways", expand_towers, 1.0, 20),
        h(p, "expand_wrapped", "products and powers of sums inside 1-4 powers, logarithms, quotients, products and sums", expand_wrapped, 1.0, 0),
        h(p, "expand_inside", "polynomials inside powers, logarithms and quotients", expand_inside, 2.0, 0),
    ]);
    let p = "C20";
    out.extend(vec![
        h(p, "simplify_polynomials", "polynomials of 8 kinds, powers to 3, three coefficients in ±2^126 symbolic", simplify_polynomials as fn(), 2.0, 60),
        h(p, "simplify_several", "polynomials of 9 kinds in four variables of 3 sets of names, alone, plus or less a monomial; three coefficients in ±2^126 symbolic", simplify_several, 1.0, 16),
        h(p, "simplify_high", "products and powers of powers of 4 kinds of sums, degree 3 to 6", simplify_high, 1.0, 60),
        h(p, "simplify_far", "powers 6 and 7 (8, 9 thorough) of sums of 2 terms and 5 of sums of 3", simplify_far, 1.0, 60),
        h(p, "simplify_fractions", "sums of 3-5 terms of 7 kinds with fractions among them, 3 numbers symbolic", simplify_fractions, 1.5, 40),
        h(p, "simplify_sums", "sums of 3-4 monomials (3-5 thorough) of 6 kinds, 4 coefficients (5 thorough) in ±2^126", simplify_sums, 2.0, 80),
        h(p, "simplify_many", "sums of 6-70 terms of two kinds out of 5, two coefficients in ±2^126", simplify_many, 1.0, 30),
        h(p, "simplify_again", "polynomials simplified twice, expanded before, and less their expansion", simplify_again, 2.0, 60),
        h(p, "simplify_inside", "polynomials of 5 kinds inside 6 kinds of powers, logarithms and quotients, alone or in a sum", simplify_inside, 1.5, 16),
        h(p, "simplify_towers", "polynomials nested 4-12 deep in 5 ways", simplify_towers, 1.0, 20),
        h(p, "simplify_wrapped", "polynomials of 4 kinds inside 1-4 powers, logarithms, quotients, products and sums", simplify_wrapped, 1.0, 16),
        h(p, "simplify_terms", "sums of 2-4 (2-5 thorough) integer multiples of a logarithm, symbolic power or inverse, its product with a variable, and integers; 4 coefficients in ±2^126", simplify_terms, 1.5, 60),
        h(p, "simplify_products", "products of 2-4 whole powers of two variables and integers in ±2^126", simplify_products, 1.5, 80),
    ]);
    out
}
