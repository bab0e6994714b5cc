//! The executable reference model: what every operation must return.
pub mod arith;
pub mod codec;
pub mod curve;
pub mod ecdsa;
pub mod hash;
pub use arith::*;
pub use curve::Pt;
