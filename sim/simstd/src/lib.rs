//! A drop-in for `std` whose threads, locks, channels, atomics and clocks are
//! scheduled by a seeded deterministic simulator (module [`sim`]).
//!
//! A crate that says `extern crate simstd as std;` at its root has every
//! `std::...` path resolved here. Outside a simulated run everything behaves
//! like the real thing.

pub use ::std::*;

pub mod sim;

pub mod sync {
    pub use ::std::sync::*;

    mod locks;
    pub use locks::{
        Barrier, BarrierWaitResult, Condvar, LazyLock, Mutex, MutexGuard, Once, OnceLock, OnceState,
        RwLock, RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult,
    };

    pub mod atomic;
    pub mod mpsc;
}

pub mod thread;
pub mod time;
