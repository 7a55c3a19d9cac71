//! Simulation shim for tokio.  Everything that is not a source of nondeterminism is the real tokio
//! (re-exported); the executor, the clock, timers, TCP and the `select!` branch order belong to the simulator.
pub use tokio_real::*;

pub mod sim;

pub mod macros {
    #[doc(hidden)]
    pub mod support {
        pub use tokio_real::macros::support::*;
        /// `select!` asks here which branch to poll first.
        pub fn thread_rng_n(n: u32) -> u32 {
            crate::sim::select_start(n)
        }
    }
}

pub mod net;
pub mod runtime;
pub mod task;
pub mod time;
pub use task::spawn;

#[macro_use]
mod select_macro;
