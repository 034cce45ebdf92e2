pub use crate::rt::thorough;
pub use crate::rt::set_tier;
pub struct Harness {
    pub property: &'static str,
    pub name: &'static str,
    pub bounds: &'static str,
    pub run: fn(),
    pub weight: f64,
    pub thorough_only: bool,
    /// paths per shape in the quick tier (0: all)
    pub cap: usize,
}
/// negative cap: thorough tier only
pub fn h(property: &'static str, name: &'static str, bounds: &'static str, run: fn(), weight: f64, cap: i32) -> Harness {
    Harness { property, name, bounds, run, weight, thorough_only: cap < 0, cap: cap.unsigned_abs() as usize }
}
pub mod arith;
pub mod canon;
pub mod compare;
pub mod numbers;
pub mod powers;
pub mod rewriting;
pub mod structure;
pub fn all() -> Vec<Harness> {
    let mut v = vec![];
    v.extend(arith::list());
    v.extend(powers::list());
    v.extend(rewriting::list());
    v.extend(compare::list());
    v.extend(canon::list());
    v.extend(numbers::list());
    v.extend(numbers::list_reals());
    v.extend(structure::list());
    v
}
