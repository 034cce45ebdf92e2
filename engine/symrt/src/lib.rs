//! Symbolic execution runtime.  The code under test is executed for real; primitive operations on
//! symbolic numbers arrive here (through `hooks`, inserted by the compiler driver, and through the
//! `num` facade) and build polynomial terms.  Every data dependent branch is decided by z3 under
//! the path condition; paths are explored depth first by deterministic re-execution.
pub mod engine;
pub mod hashing;
pub mod hooks;
pub mod poly;
pub mod z3;
pub use engine::*;
pub use poly::{Poly, Q};
