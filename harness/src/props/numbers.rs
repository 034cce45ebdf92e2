//! C13, C14: rational numbers and integer symbols.
use super::{h, thorough, Harness};
use crate::gen::*;
use crate::rt::{self, Num, C};
use crate::spec::*;
use crate::text;
use ncas::base::expression::Expression;
use ncas::base::symbol::Symbol;
use ncas::manipulation::simplification_rules::rational::rationals::Rational;
use num::bigint::BigInt;
use num::ToPrimitive;
use std::cmp::Ordering;

fn sym(n: &BigInt) -> Symbol<BigInt> {
    Symbol { data: n.clone() }
}
fn same(label: &str, got: &Num, want: &Num, about: impl Fn() -> String) {
    rt::check(label, &got.eq(want), || format!("{}: {} instead of {}", about(), got.show(), want.show()))
}

// ------------------------------------------------------------------------ C14
fn ints2(div: bool) -> (BigInt, BigInt) {
    let a = rt::int("a", -WIDE, WIDE);
    let b = if div {
        match rt::choice("divisor", 5) {
            0 => rt::int("b", -12, 12),
            1 => BigInt::from(1i128 << 64),
            2 => BigInt::from(-(1i128 << 63)),
            3 => BigInt::from(1_000_000_007i128 << 36),
            _ => a.clone(),
        }
    } else {
        match rt::choice("operand", 3) {
            0 => rt::int("b", -WIDE, WIDE),
            1 => a.clone(),
            _ => rt::int("b", -9, 9),
        }
    };
    if div {
        rt::assume(&Num::big(&b).zero_c().not());
    }
    (a, b)
}
fn operators() {
    rt::begin();
    let op = rt::choice("operation", 5);
    let own = rt::choice("ownership", 4);
    let (a, b) = ints2(op > 2);
    let (x, y) = (sym(&a), sym(&b));
    macro_rules! forms {
        ($o:tt) => {
            match own {
                0 => x.clone() $o y.clone(),
                1 => x.clone() $o &y,
                2 => &x $o &y,
                _ => &x $o y.clone(),
            }
        };
    }
    let got = match op {
        0 => forms!(+),
        1 => forms!(-),
        2 => forms!(*),
        3 => forms!(/),
        _ => forms!(%),
    };
    let n = Num::big(&got.data);
    let shown = n.clone();
    rt::observe(move || shown.show());
    let (p, q) = (Num::big(&a), Num::big(&b));
    let about = || format!("{} {} {}", p.show(), ["+", "-", "*", "/", "%"][op], q.show());
    match op {
        0 => same("sum", &n, &p.add(&q), about),
        1 => same("difference", &n, &p.sub(&q), about),
        2 => same("product", &n, &p.mul(&q), about),
        // quotient towards zero, remainder of the sign of the dividend
        3 => same("quotient", &n, &Num::big(&(&a / &b)), about),
        _ => same("remainder", &n, &Num::big(&(&a % &b)), about),
    }
    if op > 2 {
        let back = &(&x / &y) * &y + (&x % &y);
        same("quotient and remainder", &Num::big(&back.data), &p, about);
    }
    // the operands are left alone
    same("left operand", &Num::big(&x.data), &p, about);
    same("right operand", &Num::big(&y.data), &q, about);
    rt::witness("reached");
}
fn utilities() {
    rt::begin();
    let k = rt::choice("function", 6);
    let a = rt::int("a", -WIDE, WIDE);
    let x = sym(&a);
    let p = Num::big(&a);
    let zero = Num::int(0);
    match k {
        0 => {
            let got = x.is_negative();
            rt::observe(move || got.to_string());
            let want = p.lt(&zero);
            rt::check("is_negative", &if got { want } else { want.not() }, || format!("{} is negative: {}", p.show(), got));
        }
        1 => same("opposite", &Num::big(&x.opposite().data), &p.neg(), || format!("opposite of {}", p.show())),
        2 | 3 => {
            let b = match rt::choice("second", 4) {
                0 => rt::int("b", -60, 60),
                1 => BigInt::from(1i128 << 66),
                2 => BigInt::from(3i128.pow(40) * -2),
                _ => a.clone(),
            };
            let y = sym(&b);
            let flip = rt::flag("flip");
            let (u, v) = if flip { (&y, &x) } else { (&x, &y) };
            if k == 2 {
                let g = Symbol::gcd(u, v);
                same("gcd", &Num::big(&g.data), &Num::big(&num::integer::gcd(a.clone(), b.clone())), || format!("gcd of {} and {}", a, b));
            } else {
                let l = Symbol::lcm(u, v);
                same("lcm", &Num::big(&l.data), &Num::big(&num::integer::lcm(a.clone(), b.clone())), || format!("lcm of {} and {}", a, b));
            }
        }
        4 => {
            // powers of integers by integers
            let e = rt::int("e", -3, 9);
            let got = x.pow(&sym(&e));
            let e = Num::big(&e).conc();
            match got {
                None => rt::check("no negative power", &C::t(e < num_rational::BigRational::from_integer(0.into())), || format!("{} to {} has no power", p.show(), e)),
                Some(g) => {
                    let m: u32 = match e.to_string().parse() {
                        Ok(m) => m,
                        Err(_) => rt::fail("power", format!("{} to {} has a power", p.show(), e)),
                    };
                    same("power", &Num::big(&g.data), &p.powu(m), || format!("{} to {}", p.show(), m))
                }
            }
        }
        _ => {
            // large exponents of small bases
            let b = rt::pick("base", &[0i64, 1, -1, 2, -3]);
            if rt::flag("far") {
                let e = BigInt::from(rt::pick("bits", &[31u32, 32, 33, 63, 64, 65, 130]));
                let e = BigInt::from(2).pow(num::traits::ToPrimitive::to_u32(&e).unwrap()) + BigInt::from(rt::pick("odd", &[0i64, 1]));
                let odd = num::Integer::is_odd(&e);
                let b = rt::pick("unit", &[0i64, 1, -1]);
                let want = Num::int(if b == -1 && !odd { 1 } else { b });
                match Symbol::integer(b as isize).pow(&Symbol { data: e.clone() }) {
                    None => rt::fail("power", format!("{} to {} has no power", b, e)),
                    Some(g) => same("power", &Num::big(&g.data), &want, || format!("{} to {}", b, e)),
                }
                rt::witness("reached");
                return;
            }
            let e = rt::pick("exp", &[63u32, 64, 65, 100, 257]);
            let got = Symbol::integer(b as isize).pow(&Symbol::integer(e as isize));
            let want = Num::int(b).powu(e);
            match got {
                None => rt::fail("power", format!("{} to {} has no power", b, e)),
                Some(g) => same("power", &Num::big(&g.data), &want, || format!("{} to {}", b, e)),
            }
        }
    }
    rt::witness("reached");
}
fn conversions() {
    rt::begin();
    rt::allow_rounding();
    let k = rt::choice("conversion", 5);
    let a = rt::int("a", -WIDE, WIDE);
    let (x, p) = (sym(&a), Num::big(&a));
    match k {
        0 => {
            let fits = C::or(vec![p.lt(&Num::big(&BigInt::from(isize::MIN))), Num::big(&BigInt::from(isize::MAX)).lt(&p)]).not();
            match x.value() {
                Some(v) => {
                    let n = Num::big(&BigInt::from(v));
                    let m = n.clone();
                    rt::observe(move || m.show());
                    rt::check("value", &C::and(vec![fits, n.eq(&p)]), || format!("value of {} is {}", p.show(), n.show()));
                }
                None => rt::check("value", &fits.not(), || format!("{} has no value", p.show())),
            }
        }
        1 => match x.to_real() {
            Some(v) => match Num::f(v) {
                Some(n) => same("to_real", &n, &p, || format!("real of {}", p.show())),
                None => rt::fail("to_real", format!("real of {} is {:?}", p.show(), v)),
            },
            None => rt::fail("to_real", format!("{} has no real", p.show())),
        },
        2 => {
            rt::symbolic_text(true);
            let l = x.label();
            rt::symbolic_text(false);
            match text::number(&l) {
                Some(n) => same("label", &n, &p, || format!("label of {}", p.show())),
                None => rt::fail("label", format!("label of {} is {}", p.show(), l)),
            }
        }
        3 => {
            // machine integers
            let v = rt::int("machine", isize::MIN as i128, isize::MAX as i128);
            let m = v.to_isize().unwrap();
            let s = Symbol::integer(m);
            same("integer", &Num::big(&s.data), &Num::big(&v), || format!("integer of {}", Num::big(&v).show()));
        }
        _ => match x.clone().expr() {
            Expression::Integer(n) => same("expr", &Num::big(&n.data), &p, || format!("expression of {}", p.show())),
            e => rt::fail("expr", format!("expression of {} is {}", p.show(), show(&e))),
        },
    }
    rt::witness("reached");
}
/// beyond the range of floating point there is no real
fn huge() {
    rt::begin();
    let bits = rt::pick("bits", &[200u32, 1000, 1023, 1024, 1100, 4000]);
    let neg = rt::flag("negative");
    let n = BigInt::from(if neg { -1 } else { 1 }) << bits as usize;
    let x = sym(&n);
    match x.to_real() {
        Some(v) => {
            let ok = bits < 1024 && v == (if neg { -1.0 } else { 1.0 }) * 2f64.powi(bits as i32);
            rt::check("to_real", &C::t(ok), || format!("real of ±2^{} is {:?}", bits, v));
        }
        None => rt::check("to_real", &C::t(bits >= 1024), || format!("±2^{} has no real", bits)),
    }
    rt::check("value", &C::t(x.value().is_none()), || format!("±2^{} has a machine value", bits));
    rt::check("sign", &C::t(x.is_negative() == neg), || format!("sign of ±2^{}", bits));
    rt::witness("reached");
}
fn order() {
    rt::begin();
    let (a, b) = ints2(false);
    let (x, y) = (sym(&a), sym(&b));
    let (p, q) = (Num::big(&a), Num::big(&b));
    let about = |s: &str| format!("{} of {} and {}", s, p.show(), q.show());
    let c = x.cmp(&y);
    rt::observe(move || format!("{:?}", c));
    let want = match c {
        Ordering::Less => p.lt(&q),
        Ordering::Equal => p.eq(&q),
        Ordering::Greater => q.lt(&p),
    };
    rt::check("cmp", &want, || format!("{} is {:?}", about("cmp"), c));
    rt::check("partial_cmp", &C::t(x.partial_cmp(&y) == Some(c)), || about("partial_cmp"));
    rt::check("==", &C::t((x == y) == (c == Ordering::Equal)), || about("=="));
    rt::check("< > <= >=", &C::t((x < y) == (c == Ordering::Less) && (x > y) == (c == Ordering::Greater) && (x <= y) == (c != Ordering::Greater) && (x >= y) == (c != Ordering::Less)), || about("operators"));
    if c == Ordering::Equal {
        rt::check("hash", &C::t(rt::same_hash(&x, &y)), || about("hash"));
    }
    rt::witness("reached");
}

// ------------------------------------------------------------------------ C13
/// numerator and denominator, as written
fn parts(label: &str, r: &Rational) -> (Num, Num) {
    rt::symbolic_text(true);
    let s = format!("{}", r);
    rt::symbolic_text(false);
    let p = s.split_once(" / ").and_then(|(a, b)| Some((text::number(a)?, text::number(b)?)));
    match p {
        Some((n, d)) => {
            let (n2, d2) = (n.clone(), d.clone());
            rt::observe(move || format!("{} / {}", n2.show(), d2.show()));
            (n, d)
        }
        None => rt::fail(label, format!("written as {}", s)),
    }
}
/// a rational of the value n/d, in lowest terms
fn check_rational(label: &str, r: &Rational, n: &Num, d: &Num, about: impl Fn() -> String) {
    let (a, b) = parts(label, r);
    let shown = || format!("{}: {} / {} instead of {} / {}", about(), a.show(), b.show(), n.show(), d.show());
    rt::check(label, &C::and(vec![b.zero_c().not(), a.mul(d).eq(&b.mul(n))]), shown);
    match (a.to_big(), b.to_big()) {
        (Some(x), Some(y)) => {
            let g = num::integer::gcd(x, y);
            rt::check("lowest terms", &Num::big(&g).eq(&Num::int(1)), shown);
        }
        _ => rt::fail(label, format!("{}: not a fraction of integers", about())),
    }
}
fn fraction(few: &Few, small: bool) -> (BigInt, BigInt) {
    let get = |t: T| match t {
        T::Int(n) => n,
        _ => unreachable!(),
    };
    let n = get(few.int(if small { -99 } else { -WIDE }, if small { 99 } else { WIDE }, -10));
    let d = if few.0.get() > 0 {
        few.0.set(few.0.get() - 1);
        if small {
            rt::int("d", -6, 6)
        } else {
            match rt::choice("den", 3) {
                0 => rt::int("d", -30, 30),
                1 => BigInt::from(6i128 << 66),
                _ => BigInt::from(-(3i128.pow(41))),
            }
        }
    } else {
        BigInt::from(6)
    };
    rt::assume(&Num::big(&d).zero_c().not());
    (n, d)
}
fn constructed() {
    rt::begin();
    let (n, d) = fraction(&Few::new(2), false);
    let r = Rational::from(sym(&n), sym(&d));
    let (p, q) = (Num::big(&n), Num::big(&d));
    check_rational("from", &r, &p, &q, || format!("from({}, {})", p.show(), q.show()));
    rt::witness("reached");
}
fn arithmetic() {
    rt::begin();
    let op = rt::choice("operation", 4);
    let few = Few::new(if thorough() { 4 } else { 3 });
    let small = rt::flag("small");
    let (n1, d1) = fraction(&few, small);
    let (n2, d2) = fraction(&few, small);
    let (a, b) = (Rational::from(sym(&n1), sym(&d1)), Rational::from(sym(&n2), sym(&d2)));
    let [n1, d1, n2, d2] = [n1, d1, n2, d2].map(|x| Num::big(&x));
    if op == 3 {
        rt::assume(&n2.zero_c().not());
    }
    let about = || format!("{}/{} {} {}/{}", n1.show(), d1.show(), ["+", "-", "*", "/"][op], n2.show(), d2.show());
    let (r, n, d) = match op {
        0 => (a + b, n1.mul(&d2).add(&n2.mul(&d1)), d1.mul(&d2)),
        1 => (a - b, n1.mul(&d2).sub(&n2.mul(&d1)), d1.mul(&d2)),
        2 => (a * b, n1.mul(&n2), d1.mul(&d2)),
        _ => (a / b, n1.mul(&d2), d1.mul(&n2)),
    };
    check_rational(["sum", "difference", "product", "quotient"][op], &r, &n, &d, about);
    rt::witness("reached");
}
fn equality() {
    rt::begin();
    let few = Few::new(4);
    let (n1, d1) = fraction(&few, true);
    let (n2, d2) = fraction(&few, false);
    let (a, b) = (Rational::from(sym(&n1), sym(&d1)), Rational::from(sym(&n2), sym(&d2)));
    let got = a == b;
    rt::observe(move || got.to_string());
    let [n1, d1, n2, d2] = [n1, d1, n2, d2].map(|x| Num::big(&x));
    let want = n1.mul(&d2).eq(&n2.mul(&d1));
    let about = || format!("{}/{} == {}/{} is {}", n1.show(), d1.show(), n2.show(), d2.show(), got);
    rt::check("==", &if got { want } else { want.not() }, about);
    rt::check("symmetry", &C::t((b == a) == got), about);
    rt::check("reflexivity", &C::t(a == a.clone()), about);
    rt::witness("reached");
}
/// to an expression and back
fn round_trip() {
    rt::begin();
    let (n, d) = fraction(&Few::new(2), false);
    let (p, q) = (Num::big(&n), Num::big(&d));
    let e = Rational::from(sym(&n), sym(&d)).expr();
    obs(&e);
    let about = || format!("{} / {} as expression {}", p.show(), q.show(), show(&e));
    check_value("expr", &p.mul(&q.inv()), &e, &Env::default(), || format!("{} / {}", p.show(), q.show()));
    match Rational::from_expression(e.clone()) {
        Some(r) => check_rational("from_expression", &r, &p, &q, about),
        None => rt::fail("from_expression", about()),
    }
    rt::witness("reached");
}
/// products of integers and inverses, and everything that is not a rational number
fn recognised() {
    rt::begin();
    let kind = rt::choice("kind", 9);
    let few = Few::new(3);
    let get = |t: T| match t {
        T::Int(n) => n,
        _ => unreachable!(),
    };
    let n = get(few.int(-WIDE, WIDE, 4));
    let d = rt::int("d", -12, 12);
    let f = rt::int("f", -6, 6);
    let [np, dp, fp] = [&n, &d, &f].map(Num::big);
    rt::assume(&C::and(vec![dp.zero_c().not(), fp.zero_c().not()]));
    let inv = |x: &BigInt| raw_pow(eint(x.clone()), eint(BigInt::from(-1)));
    let one = Num::int(1);
    let (x, want) = match kind {
        0 => (eint(n), Some((np, one))),
        1 => (inv(&d), Some((one, dp))),
        2 => (raw_mul(vec![eint(n), inv(&d)]), Some((np, dp))),
        3 => (raw_mul(vec![eint(n), inv(&d), inv(&f)]), Some((np, dp.mul(&fp)))),
        4 => (raw_mul(vec![inv(&d), inv(&f)]), Some((one, dp.mul(&fp)))),
        5 => (raw_mul(vec![eint(n), eint(f)]), Some((np.mul(&fp), one))),
        6 => (evar("x"), None),
        7 => (raw_add(vec![eint(n), inv(&d)]), None),
        _ => (ereal(rt::real("real", 4096, 4)), None),
    };
    let got = Rational::from_expression(x.clone());
    let about = || format!("from {}", show(&x));
    match (&got, want) {
        (Some(r), Some((a, b))) => check_rational("from_expression", r, &a, &b, about),
        (None, None) => {}
        (a, _) => rt::fail("from_expression", format!("{}: {}", about(), if a.is_some() { "a rational number" } else { "no rational number" })),
    }
    rt::witness("reached");
}
/// sums and products of fractions through the expressions
fn expressions() {
    rt::begin();
    let few = Few::new(3);
    let n = rt::pick("n", &[2usize, 3]);
    let sum = rt::flag("sum");
    let fr: Vec<(BigInt, BigInt)> = (0..n).map(|_| fraction(&few, true)).collect();
    let parts: Vec<Expression> = fr.iter().map(|(a, b)| eint(a.clone()) / eint(b.clone())).collect();
    let (mut p, mut q) = if sum { (Num::int(0), Num::int(1)) } else { (Num::int(1), Num::int(1)) };
    for (a, b) in &fr {
        let (a, b) = (Num::big(a), Num::big(b));
        p = if sum { p.mul(&b).add(&a.mul(&q)) } else { p.mul(&a) };
        q = q.mul(&b);
    }
    let x = if sum { Expression::addition(parts) } else { Expression::multiplication(parts) };
    let y = x.clone().simplify();
    obs(&y);
    let about = || format!("{} => {}", show(&x), show(&y));
    match Rational::from_expression(y.clone()) {
        Some(r) => check_rational("simplified", &r, &p, &q, about),
        None => rt::fail("simplified", format!("{}: not a fraction", about())),
    }
    rt::witness("reached");
}

pub fn list() -> Vec<Harness> {
    let p = "C13";
    let mut out = vec![
        h(p, "constructed", "from(n, d): n in ±2^126, d in ±30 or one of two large integers", constructed as fn(), 1.0, 0),
        h(p, "arithmetic", "+ - * / of two fractions, 3 of the 4 integers symbolic (4 thorough), in ±2^126 over ±30 and large, or in ±99 over ±6", arithmetic, 3.0, 80),
        h(p, "equality", "== of two fractions", equality, 1.0, 200),
        h(p, "round_trip", "to an expression and back", round_trip, 1.0, 0),
        h(p, "recognised", "9 kinds of expression, 6 of them rational numbers", recognised, 1.0, 0),
        h(p, "expressions", "simplified sums and products of 2-3 fractions, 3 integers symbolic", expressions, 2.0, 80),
    ];
    let p = "C14";
    out.extend(vec![
        h(p, "operators", "5 operators x 4 ownership forms; both operands in ±2^126 (divisors in ±12, three beyond the machine word, the dividend)", operators as fn(), 2.0, 200),
        h(p, "utilities", "is_negative, opposite, gcd, lcm, pow", utilities, 2.0, 200),
        h(p, "conversions", "value, to_real, label, expr, integer", conversions, 1.0, 0),
        h(p, "huge", "±2^200 to ±2^4000", huge, 0.5, 0),
        h(p, "order", "==, cmp, operators, hash on two integers in ±2^126", order, 1.0, 0),
    ]);
    out
}

// ------------------------------------------------------------------------ C09
const EDGES: [f64; 12] = [0.0, -0.0, 1.0, -1.0, 2.5, 0.1, 1e308, -5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 9007199254740993.0];
fn edge(v: f64) -> String {
    if v.is_nan() {
        "NaN".into()
    } else {
        format!("{:?}", v)
    }
}
/// arithmetic of real symbols, in every form of the operands
fn real_operators() {
    rt::begin();
    let op = rt::choice("operation", 4);
    let own = rt::choice("ownership", 4);
    let edges = rt::flag("edges");
    let (a, b) = if edges { (rt::pick("a", &EDGES), rt::pick("b", &EDGES)) } else { (rt::real("a", 4096, 4), rt::real("b", 4096, 4)) };
    if !edges && op == 3 {
        rt::assume(&Num::f(b).unwrap().zero_c().not());
    }
    let (x, y) = (Symbol::real(a), Symbol::real(b));
    macro_rules! forms {
        ($o:tt) => {
            match own {
                0 => x.clone() $o y.clone(),
                1 => x.clone() $o &y,
                2 => &x $o &y,
                _ => &x $o y.clone(),
            }
        };
    }
    let got = match op {
        0 => forms!(+),
        1 => forms!(-),
        2 => forms!(*),
        _ => forms!(/),
    }
    .data;
    let want = match op {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        _ => a / b,
    };
    let name = ["+", "-", "*", "/"][op];
    if edges {
        let w = edge(got);
        rt::observe(move || w);
        rt::check(name, &C::t(edge(got) == edge(want)), || format!("{:?} {} {:?} is {:?}", a, name, b, got));
        rt::check("operands", &C::t(edge(x.data) == edge(a) && edge(y.data) == edge(b)), || format!("{} changes its operands", name));
    } else {
        let n = |v: f64| Num::f(v).unwrap();
        let exact = match op {
            0 => n(a).add(&n(b)),
            1 => n(a).sub(&n(b)),
            2 => n(a).mul(&n(b)),
            _ => n(a).mul(&n(b).inv()),
        };
        same(name, &n(got), &exact, || format!("{} {} {}", n(a).show(), name, n(b).show()));
        rt::check("operands", &C::and(vec![n(x.data).eq(&n(a)), n(y.data).eq(&n(b))]), || format!("{} changes its operands", name));
    }
    rt::witness("reached");
}
/// the laws of order, equality and hash on numbers k/4 and on the edges of floating point
fn real_order() {
    rt::begin();
    let edges = rt::flag("edges");
    let (a, b) = if edges { (rt::pick("a", &EDGES), rt::pick("b", &EDGES)) } else { (rt::real("a", 4096, 4), rt::real("b", 4096, 4)) };
    let (x, y) = (Symbol::real(a), Symbol::real(b));
    let c = x.cmp(&y);
    rt::observe(move || format!("{:?}", c));
    let about = || format!("{} and {}: {:?}", rt::show_f(a), rt::show_f(b), c);
    let want = a.partial_cmp(&b);
    if let Some(w) = want {
        rt::check("cmp", &C::t(w == c), about);
    }
    rt::check("==", &C::t((x == y) == (c == Ordering::Equal)), about);
    rt::check("partial_cmp", &C::t(x.partial_cmp(&y) == Some(c)), about);
    rt::check("antisymmetry", &C::t(y.cmp(&x) == c.reverse()), about);
    rt::check("reflexivity", &C::t(x == x.clone() && x.cmp(&x) == Ordering::Equal), about);
    if x == y {
        rt::check("hash", &C::t(rt::same_hash(&x, &y)), about);
    }
    let v = x.value().and_then(|v| if edges { Some(C::t(edge(v) == edge(a))) } else { Some(Num::f(v)?.eq(&Num::f(a)?)) });
    rt::check("value", &v.unwrap_or(C::t(false)), about);
    match x.expr() {
        Expression::Real(r) => rt::check("expr", &if edges { C::t(edge(r.data) == edge(a)) } else { Num::f(r.data).unwrap().eq(&Num::f(a).unwrap()) }, about),
        _ => rt::fail("expr", about()),
    }
    rt::witness("reached");
}
/// variables are told apart by their names
fn names() {
    rt::begin();
    let all = ["x", "y", "xy", "x1", "X", "", "alpha", "alphb", "é", "10", "9", " x", "Alpha"];
    let (a, b) = (rt::pick("a", &all), rt::pick("b", &all));
    let (x, y) = (Symbol::variable(a), Symbol::variable(b));
    let about = || format!("variables {:?} and {:?}", a, b);
    rt::check("cmp", &C::t(x.cmp(&y) == a.cmp(b) && x.partial_cmp(&y) == Some(a.cmp(b))), about);
    rt::check("==", &C::t((x == y) == (a == b)), about);
    rt::check("hash", &C::t(x != y || rt::same_hash(&x, &y)), about);
    rt::check("label", &C::t(x.label() == a && x.value().is_none()), about);
    rt::check("expr", &C::t(matches!(x.expr(), Expression::Variable(s) if s.data == a)), about);
    rt::witness("reached");
}
pub fn list_reals() -> Vec<Harness> {
    let p = "C09";
    vec![
        h(p, "real_operators", "4 operators x 4 ownership forms on reals k/4 with |k| <= 4096 and on 12 x 12 edge values", real_operators as fn(), 1.0, 0),
        h(p, "real_order", "order, equality, hash, value on reals k/4 and on 12 x 12 edge values (all bit patterns: Kani)", real_order, 1.0, 0),
        h(p, "names", "11 x 11 names", names, 0.5, 0),
    ]
}
