//! Facade with the public surface of the `num` crate in which `BigInt` may hold a symbolic term.
//! Concrete values are delegated to the real `num-bigint`.
pub use std::*;
pub mod bigint;
pub mod collections;
pub use bigint::{BigInt, BigUint};
pub use num_complex::Complex;
pub use num_integer::Integer;
pub use num_iter::{range, range_inclusive, range_step, range_step_inclusive};
pub use num_rational::Ratio;
pub use num_traits::{
    cast, abs, abs_sub, checked_pow, clamp, one, pow, signum, zero, Bounded, CheckedAdd, CheckedDiv, CheckedMul,
    CheckedSub, Float, FromPrimitive, Num, NumCast, One, PrimInt, Saturating, Signed, ToPrimitive, Unsigned, Zero,
};
pub type Rational = Ratio<isize>;
pub type Rational32 = Ratio<i32>;
pub type Rational64 = Ratio<i64>;
pub type BigRational = Ratio<BigInt>;
pub mod complex {
    pub use num_complex::*;
}
pub mod integer {
    pub use num_integer::*;
}
pub mod iter {
    pub use num_iter::*;
    pub use std::iter::*;
}
pub mod traits {
    pub use num_traits::*;
}
pub mod rational {
    pub use num_rational::*;
    pub type BigRational = Ratio<crate::BigInt>;
}
