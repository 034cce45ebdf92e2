//! Reads the text of numbers and expressions.
use crate::rt::{self, Num};
use ncas::base::expression::Expression;
use num_bigint::BigInt as Big;
use num_rational::BigRational as Q;

/// an integer, as digits or as a token that stands for one
pub fn number(s: &str) -> Option<Num> {
    if let Some(n) = rt::token(s) {
        return Some(n);
    }
    let digits = s.strip_prefix('-').unwrap_or(s);
    if digits.is_empty() || !digits.bytes().all(|b| b.is_ascii_digit()) || (digits.len() > 1 && digits.starts_with('0')) {
        return None;
    }
    s.parse::<Big>().ok().map(|n| Num::q(Q::from_integer(n)))
}
/// what a text says
#[derive(Clone, Debug)]
pub enum Text {
    Number(Num, Option<f64>),
    Name(String),
    Group(Box<Text>),
    Sum(Vec<Text>),
    Product(Vec<Text>),
    Call(String, Vec<Text>),
}
struct Reader<'a> {
    s: &'a str,
}
impl<'a> Reader<'a> {
    fn eat(&mut self, p: &str) -> bool {
        match self.s.strip_prefix(p) {
            Some(r) => {
                self.s = r;
                true
            }
            None => false,
        }
    }
    fn word(&mut self) -> &'a str {
        let n = self.s.find(|c: char| matches!(c, ' ' | '(' | ')' | ',' | '*')).unwrap_or(self.s.len());
        let (w, r) = self.s.split_at(n);
        self.s = r;
        w
    }
    fn item(&mut self) -> Option<Text> {
        if self.eat("(") {
            let first = self.item()?;
            if self.eat(")") {
                return Some(Text::Group(Box::new(first)));
            }
            let sum = self.s.starts_with(" + ");
            let mut v = vec![first];
            while self.eat(if sum { " + " } else { " * " }) {
                v.push(self.item()?);
            }
            if !self.eat(")") || v.len() < 2 {
                return None;
            }
            return Some(if sum { Text::Sum(v) } else { Text::Product(v) });
        }
        let w = self.word();
        if w.is_empty() {
            return None;
        }
        if self.eat("(") {
            let mut v = vec![self.item()?];
            while self.eat(", ") {
                v.push(self.item()?);
            }
            return if self.eat(")") { Some(Text::Call(w.to_string(), v)) } else { None };
        }
        if let Some(n) = number(w) {
            return Some(Text::Number(n, w.parse().ok()));
        }
        let c = w.chars().next().unwrap();
        if c == '-' || c.is_ascii_digit() || w == "inf" || w == "NaN" {
            let f: f64 = w.parse().ok()?;
            return Some(Text::Number(Num::f(f)?, Some(f)));
        }
        Some(Text::Name(w.to_string()))
    }
}
pub fn read(s: &str) -> Option<Text> {
    let mut r = Reader { s };
    let t = r.item()?;
    if r.s.is_empty() {
        Some(t)
    } else {
        None
    }
}
fn all(v: &[Text], items: &[Expression]) -> bool {
    let mut left: Vec<&Expression> = items.iter().collect();
    v.len() == items.len()
        && v.iter().all(|t| match left.iter().position(|x| says(t, x)) {
            Some(k) => {
                left.remove(k);
                true
            }
            None => false,
        })
}
/// the text says this expression (operands of sums and products in any order)
pub fn says(t: &Text, x: &Expression) -> bool {
    match (t, x) {
        (Text::Number(n, _), Expression::Integer(k)) => rt::decide(&n.eq(&Num::big(&k.data))),
        (Text::Number(n, f), Expression::Real(r)) => match (f, rt::plain(r.data)) {
            // the text of a number reads back as that number, without tolerance
            (Some(f), Some(r)) => *f == r,
            _ => Num::f(r.data).map_or(false, |v| rt::decide(&n.eq(&v))),
        },
        (Text::Name(s), Expression::Variable(v)) => *s == v.data,
        (Text::Sum(v), Expression::Addition(a)) => all(v, &a.items()),
        (Text::Product(v), Expression::Multiplication(a)) => all(v, &a.items()),
        (Text::Group(t), Expression::Addition(a)) | (Text::Group(t), Expression::Multiplication(a)) => {
            let it = a.items();
            it.len() == 1 && says(t, &it[0])
        }
        (Text::Call(f, v), _) => match (f.as_str(), x) {
            ("pow", Expression::Power(p)) | ("log", Expression::Logarithm(p)) => v.len() == 2 && says(&v[0], &p.argument()) && says(&v[1], &p.modifier()),
            ("sin", Expression::Sine(p)) | ("cos", Expression::Cossine(p)) => v.len() == 1 && says(&v[0], &p.argument()),
            _ => false,
        },
        _ => false,
    }
}
