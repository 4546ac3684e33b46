//! The simulator: seeded random numbers, grammar programs, the simulated
//! environment (device + user callbacks + fault plan) and the reference model.
//! Nothing here depends on rust-peg.
pub mod ast;
pub mod env;
pub mod gen;
pub mod model;
pub mod rng;
pub mod val;
