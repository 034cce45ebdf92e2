//! Families of symbolic expressions shared by the harnesses.
use crate::rt;
use crate::spec::*;
use num::bigint::BigInt;

pub const WIDE: i128 = 1 << 126;
pub const SMALL: i128 = 999;

pub fn sint(lo: i128, hi: i128) -> T {
    big(rt::int("int", lo, hi))
}
/// real k/4
pub fn sreal() -> T {
    r(rt::real("real", 4096, 4))
}
/// tiny, ordinary or huge reals: sums and products of two of one kind are exact
pub fn unit() -> i32 {
    rt::pick("unit", &[-2, -36, -70, 100])
}
pub fn scaled(unit: i32) -> T {
    r(rt::real_scaled("real", 4096, unit))
}
/// an integer used as divisor: small, or one of a few large ones
pub fn divisor() -> T {
    match rt::choice("den", 4) {
        0 => big(rt::int("den_int", -12, 12)),
        k => big(BigInt::from([(-1i128) << 66, 1_000_000_007i128 << 36, -3i128.pow(41)][k - 1])),
    }
}
/// up to `n` of the leaves are symbolic, the others constants of the same kind
pub struct Few(pub std::cell::Cell<usize>);
impl Few {
    pub fn new(n: usize) -> Few {
        Few(std::cell::Cell::new(n))
    }
    fn take(&self) -> bool {
        let n = self.0.get();
        self.0.set(n.saturating_sub(1));
        n > 0
    }
    pub fn int(&self, lo: i128, hi: i128, other: i64) -> T {
        if self.take() { sint(lo, hi) } else { i(other) }
    }
    pub fn scaled(&self, unit: i32, other: f64) -> T {
        if self.take() { scaled(unit) } else { r(other * 2f64.powi(unit + 2)) }
    }
    pub fn real(&self, other: f64) -> T {
        if self.take() { sreal() } else { r(other) }
    }
}
/// what the integers of a tree range over: unbounded for practical purposes, or small next to reals
#[derive(Clone, Copy)]
pub struct Dom {
    pub mixed: bool,
    pub vars: &'static [&'static str],
}
impl Dom {
    pub fn any(vars: &'static [&'static str]) -> Dom {
        Dom { mixed: rt::flag("mixed"), vars }
    }
    pub fn ints(vars: &'static [&'static str]) -> Dom {
        Dom { mixed: false, vars }
    }
    pub fn int(&self) -> T {
        if self.mixed { sint(-SMALL, SMALL) } else { sint(-WIDE, WIDE) }
    }
    pub fn leaf(&self, den: bool) -> T {
        let n = self.vars.len();
        match rt::choice("leaf", n + 1 + self.mixed as usize) {
            0 if den => big(rt::int("den_int", -4, 4)),
            0 => self.int(),
            k if k <= n => v(self.vars[k - 1]),
            _ => sreal(),
        }
    }
    /// every tree of the arithmetic operations up to a depth
    pub fn tree(&self, depth: u32, den: bool) -> T {
        if depth == 0 || rt::flag("leaf?") {
            return self.leaf(den);
        }
        let k = rt::choice("op", 5);
        let x = self.tree(depth - 1, den);
        if k == 4 {
            return neg(x);
        }
        let y = self.tree(depth - 1, den || k == 3);
        match k {
            0 => add(vec![x, y]),
            1 => sub(x, y),
            2 => mul(vec![x, y]),
            _ => div(x, y),
        }
    }
}
/// a natural power written out
pub fn npow(x: T, k: u32) -> T {
    pow(x, i(k as i64))
}

/// the variables and what they stand for: x and y any real with n and m integers, or x and y positive
pub struct World {
    pub positive: bool,
    pub env: Env,
}
impl World {
    pub fn any() -> World {
        World::new(rt::flag("positive"))
    }
    pub fn new(positive: bool) -> World {
        let mut env = Env::default();
        for n in ["x", "y"] {
            let v = if positive { rt::positive_value(&format!("val_{}", n)) } else { rt::value(&format!("val_{}", n)) };
            env.set(n, v);
        }
        let k = if positive { &[(2i64, 1i64), (-1, 1), (1, 2), (-3, 2)][..] } else { &[(2, 1), (3, 1), (-1, 1)][..] };
        for n in ["n", "m"] {
            let (a, b) = if n == "n" { rt::pick("val_n", k) } else { k[1] };
            env.set(n, rt::Num::q(num_rational::BigRational::new(a.into(), b.into())));
        }
        World { positive, env }
    }
    /// symbolic exponents hide which bases are divisors: none of them is zero
    pub fn generic(self) -> World {
        if !self.positive {
            let (x, y) = (self.env.get("x").unwrap(), self.env.get("y").unwrap());
            for v in [&x, &y, &x.add(&y)] {
                rt::assume(&v.zero_c().not());
            }
        }
        self
    }
}
/// c * x^j * y^k
pub fn monomial(c: T, j: u32, k: u32) -> T {
    let mut f = vec![c];
    for (s, e) in [("x", j), ("y", k)] {
        match e {
            0 => {}
            1 => f.push(v(s)),
            _ => f.push(npow(v(s), e)),
        }
    }
    mul(f)
}

/// positive although x and y may be negative
pub fn squares() -> T {
    let sq = |t| npow(t, 2);
    match rt::choice("square", 9) {
        0 => sq(v("x")),
        1 => npow(v("x"), 4),
        2 => mul(vec![v("x"), v("x")]),
        3 => sq(mul(vec![v("x"), v("y")])),
        4 => mul(vec![sint(1, 6), sq(v("x"))]),
        5 => add(vec![sq(v("x")), sint(1, 6)]),
        6 => pow(v("x"), i(-2)),
        7 => sq(add(vec![v("x"), v("y")])),
        _ => div(sq(v("x")), sq(v("y"))),
    }
}
/// logarithms and roots that are defined for variables of either sign
pub fn signed() -> T {
    let p = squares();
    let b = match rt::choice("log_base", 4) {
        0 => i(2),
        1 => sint(2, 9),
        2 => add(vec![npow(v("y"), 2), i(2)]),
        _ => r(0.5),
    };
    let l = log(p.clone(), b.clone());
    match rt::choice("around", 7) {
        0 => l,
        1 => mul(vec![sint(-3, 3), l]),
        2 => add(vec![l.clone(), l]),
        3 => pow(b, l),
        4 => pow(add(vec![npow(v("x"), 2), sint(1, 6)]), rt::pick("root", &[r(0.5), div(i(1), i(2)), r(-1.5)])),
        5 => mul(vec![l, p]),
        _ => pow(b, mul(vec![sint(-2, 3), l])),
    }
}

/// four names, some of them alike
pub const NAME_SETS: [[&str; 4]; 3] = [["x", "y", "z", "w"], ["x", "x1", "x12", "xx"], ["ab", "a", "b", "ba"]];
pub fn names() -> [&'static str; 4] {
    rt::pick("names", &NAME_SETS)
}
/// a polynomial in three or four variables
pub fn several(few: &Few, names: &[&str; 4]) -> T {
    let u = |k: usize| v(names[k]);
    let c = |few: &Few, o: i64| few.int(-WIDE, WIDE, o);
    let mono = |few: &Few| match rt::choice("monomial", 8) {
        0 => mul(vec![c(few, 2), u(0), u(1), u(2)]),
        1 => mul(vec![u(2), u(1), u(0)]),
        2 => mul(vec![c(few, -1), u(0), u(1), u(3)]),
        3 => mul(vec![u(0), u(2), c(few, 3)]),
        4 => mul(vec![u(1), u(2)]),
        5 => mul(vec![c(few, 5), npow(u(0), 2), u(1), npow(u(2), 3)]),
        6 => u(3),
        _ => mul(vec![u(3), c(few, -4), u(2), u(1), u(0)]),
    };
    let a = |k: usize, l: usize| add(vec![u(k), u(l)]);
    match rt::choice("several", 9) {
        0 => add(vec![mono(few), mono(few)]),
        1 => add(vec![mono(few), mono(few), mono(few)]),
        2 => npow(add(vec![u(0), mul(vec![c(few, 1), u(1)]), u(2)]), 2),
        3 => mul(vec![a(0, 1), add(vec![mul(vec![c(few, 1), u(2)]), u(3)])]),
        4 => mul(vec![a(0, 1), a(1, 2), add(vec![u(2), mul(vec![c(few, -1), u(0)])])]),
        5 => mul(vec![u(0), mul(vec![u(1), add(vec![u(2), c(few, 2)])])]),
        6 => npow(mul(vec![c(few, -2), u(0), u(1), u(2)]), 3),
        7 => sub(mul(vec![a(0, 2), u(1)]), mono(few)),
        _ => mul(vec![mono(few), mono(few)]),
    }
}
/// what the four variables stand for
pub fn several_env(names: &[&str; 4]) -> Env {
    let mut env = Env::default();
    for n in names {
        env.set(n, rt::value(&format!("val_{}", n)));
    }
    env
}

/// many operands of two or three kinds, at most two of their numbers symbolic
pub fn crowd(few: &Few, sizes: &[usize], reals: bool) -> Vec<T> {
    let n = rt::pick("n", sizes);
    let kinds = 7 + reals as usize;
    let k = [rt::choice("kind", kinds), rt::choice("kind", kinds)];
    let name = |j: usize| v(["x", "y", "z", "x", "w"][j % 5]);
    (0..n)
        .map(|j| {
            let c = few_const(j);
            match k[if j % 3 == 1 { 1 } else { 0 }] {
                0 => name(j / 2),
                1 => few.int(-WIDE, WIDE, c),
                2 => mul(vec![few.int(-SMALL, SMALL, c), name(j)]),
                3 => npow(name(j / 2), 1 + (j as u32 / 2) % 4),
                4 => add(vec![name(j), few.int(-SMALL, SMALL, c)]),
                5 => div(name(j), i([2, 3, 5, 6][j % 4])),
                6 => pow(name(j), v("n")),
                _ => few.real([0.5, 1.0, 2.0][j % 3]),
            }
        })
        .collect()
}
fn few_const(j: usize) -> i64 {
    [7, -1, 3, 1, 12, -5, 2][j % 7]
}
/// other orders of n things
pub fn shuffled<A: Clone>(xs: &[A]) -> Vec<A> {
    let n = xs.len();
    let order: Vec<usize> = match rt::choice("shuffle", 5) {
        0 => (0..n).rev().collect(),
        1 => (0..n).map(|j| (j + n / 2) % n).collect(),
        2 => (0..n).step_by(2).chain((1..n).step_by(2)).collect(),
        3 => (0..n).map(|j| if j + 2 == n { n - 1 } else if j + 1 == n { n - 2 } else { j }).collect(),
        _ => (1..n).chain(0..1).collect(),
    };
    order.iter().map(|k| xs[*k].clone()).collect()
}
/// the same operands in another grouping
pub fn grouped(xs: &[T], prod: bool) -> T {
    let op = |v: Vec<T>| if prod { mul(v) } else { add(v) };
    let n = xs.len();
    match rt::choice("grouping", 4) {
        0 => xs[1..].iter().cloned().fold(xs[0].clone(), |a, b| op(vec![a, b])),
        1 => xs[..n - 1].iter().rev().cloned().fold(xs[n - 1].clone(), |a, b| op(vec![b, a])),
        2 => op(vec![op(xs[..n / 2].to_vec()), op(xs[n / 2..].to_vec())]),
        _ => op(vec![xs[0].clone(), op(xs[1..n - 1].to_vec()), xs[n - 1].clone()]),
    }
}

/// polynomials nested many levels deep
pub fn horner(few: &Few, depths: &[usize]) -> T {
    let n = rt::pick("depth", depths);
    let kind = rt::choice("tower", 5);
    let odd = rt::pick("odd", &[0usize, n / 2, n - 1]);
    let c = |j: usize| if j == odd { few.int(-WIDE, WIDE, 2) } else { i([3, -1, 2, -5, 1][j % 5]) };
    let name = |j: usize| v(["x", "y"][j % 2]);
    (0..n).fold(v("x"), |t, j| match kind {
        0 => add(vec![mul(vec![t, v("x")]), c(j)]),
        1 => mul(vec![add(vec![t, c(j)]), name(j)]),
        2 => sub(c(j), sub(name(j), t)),
        3 => mul(vec![c(j), add(vec![name(j), t])]),
        _ => {
            let t = add(vec![mul(vec![name(j), t]), c(j)]);
            if j == 0 { npow(t, 2) } else { neg(t) }
        }
    })
}
/// a polynomial inside one or more powers, logarithms, quotients, products and sums
pub fn wrapped(p: T, levels: &[usize]) -> T {
    let n = rt::pick("levels", levels);
    let outside = rt::choice("outside", 6);
    let step = rt::pick("step", &[0usize, 1, 5]);
    let around = rt::choice("around", 5);
    (0..n).fold(p, |p, j| {
        let t = match (outside + j * step) % 6 {
            0 => pow(v("z"), p),
            1 => pow(p, v("n")),
            2 => log(p, v("x")),
            3 => log(v("x"), p),
            4 => div(v("z"), p),
            _ => div(p, v("z")),
        };
        match around {
            0 => t,
            1 => mul(vec![v("x"), t]),
            2 => add(vec![mul(vec![i(3), t]), v("w")]),
            3 => mul(vec![log(v("y"), i(2)), t, v("m")]),
            _ => neg(t),
        }
    })
}
