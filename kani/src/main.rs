//! Replays a counterexample on the real code: replay HARNESS BYTES... (hexadecimal, one argument per input)
use symbols::*;
struct Given(std::vec::IntoIter<Vec<u8>>);
impl Source for Given {
    fn f(&mut self) -> f64 {
        let v = self.0.next().expect("inputs");
        f64::from_bits(u64::from_le_bytes(v.try_into().expect("eight bytes")))
    }
    fn b(&mut self) -> u8 {
        self.0.next().expect("inputs")[0]
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let vals: Vec<Vec<u8>> = a[2..].iter().map(|s| (0..s.len() / 2).map(|k| u8::from_str_radix(&s[2 * k..2 * k + 2], 16).unwrap()).collect()).collect();
    let f = ALL.iter().find(|x| x.0 == a[1]).expect("harness").1;
    f(&mut Given(vals.into_iter()));
    println!("pass");
}
