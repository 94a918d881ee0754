//! Drop-in replacement for num-bigint-dig used only by the verification builds.
//!
//! A value is either a concrete integer (delegated to the real num-bigint-dig)
//! or a reference to a term in the symbolic engine.  Arithmetic on symbolic
//! values builds terms; every comparison whose outcome is not determined by the
//! path condition is a decision of the symbolic execution.

mod engine;
mod ops;
mod val;

pub use engine::{sym_token_range, symx_active};
pub use real::{negate_sign, BigUint, IntoBigUint, ParseBigIntError, Sign, ToBigUint};
pub use val::{BigInt, ExtendedGcd, IntoBigInt, ModInverse, ToBigInt};

pub mod traits {
    pub use crate::val::{ExtendedGcd, ModInverse};
}
pub mod bigint {
    pub use crate::val::{BigInt, ToBigInt};
    pub use real::Sign;
}
pub mod biguint {
    pub use real::BigUint;
}
