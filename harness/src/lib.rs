#![allow(dead_code)]
pub mod stdhash;
pub mod fields;
pub mod el;
pub mod refmath;
pub mod blake;
pub mod guard;
pub mod runner;
pub mod sched;
pub mod air;
pub mod proto;
pub mod fri_ref;

pub use el::*;
pub use fields::*;
pub use runner::*;
