//! The checker: exploration driver, reference models, simulated world, checks.
pub mod args;
pub mod client_a;
pub mod client_b;
pub mod client_c;
pub mod client_d;
pub mod client_e;
pub mod client_f;
pub mod codec;
pub mod driver;
pub mod dynde;
pub mod heap;
pub mod model;
pub mod reference;
pub mod show;
pub mod val;
pub mod vals;
pub mod world;
