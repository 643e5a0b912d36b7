//! A small deterministic simulator for library code.
//!
//! One simulated run is a pure function of a *tape* of integers. The tape
//! decides everything: the data, the operations, the value of every word the
//! thread-local generator yields, which step fails, what fresh memory holds,
//! and which simulated thread runs between any two basic blocks.
pub mod alloc;
pub mod ctx;
pub mod prng;
pub mod runner;
pub mod sched;
pub mod stat;
pub mod stream;
pub mod syms;

pub use ctx::{Ctx, Verdict, Violation};
pub use sched::{catch, nested, run_on_stack, run_solo, run_tasks, step, Act, Caught, Fault, Kind, Op, Plan};
pub use stream::{SimRng, Stream};

#[macro_export]
macro_rules! fail {
    ($class:expr, $($arg:tt)*) => {
        return Err($crate::Violation { class: $class.to_string(), msg: format!($($arg)*) })
    };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $class:expr, $($arg:tt)*) => {
        if !($cond) { $crate::fail!($class, $($arg)*) }
    };
}
