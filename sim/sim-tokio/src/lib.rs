//! The part of tokio's API the runtime uses, on the simulator: executors whose
//! task order is a seeded choice and timers on the simulated clock. Channels,
//! Notify, oneshot, the async Mutex and `select!` are the real tokio code (they
//! are runtime independent).
pub use real_tokio::{join, pin, select, sync, try_join};

pub mod runtime;
pub mod task;
pub mod time;

pub use task::spawn;
