//! `tokio` whose tasks are model threads, whose time is virtual and whose network is simulated.
#![allow(clippy::all)]
pub use real_tokio::*;
#[doc(hidden)]
pub use real_tokio as real;

/// `select!` whose branches are polled in an order the explorer decides.
#[macro_export]
macro_rules! select {
    ($(biased;)? else => $e:expr $(,)?) => {{ $e }};
    (biased; $($t:tt)*) => { $crate::real::select!(biased; $($t)*) };
    ($p:pat = $($t:tt)*) => { $crate::real::select!(@{ start={ $crate::whose_turn(BRANCHES) }; () } $p = $($t)*) };
}
#[doc(hidden)]
pub fn whose_turn(n: u32) -> u32 {
    vstd::rt::whose_turn(n as usize) as u32
}

pub mod net;
pub mod runtime;
pub mod sync;
pub mod task;
pub mod time;
pub use task::spawn;
