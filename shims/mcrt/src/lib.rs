//! Model-checking runtime: choice points, stateless exploration, and a controlled scheduler.
//!
//! Nothing here depends on the code under test.  The instrumented copies of `futures-timer`,
//! `futures-channel` and `futures-util` and the cfg-guarded mutex of the repository call into this
//! crate; the harness drives it.
pub mod explore;
pub mod futex;
pub mod sched;

pub use explore::{choose, choose_cost, costed_choices, in_exec, log_line, logging};
pub use sched::{block_until, in_world, point, point_after, progress, spin, Spin};
