pub mod waiter;
pub mod stream;
pub mod gc;
pub mod alloc;
pub mod guard;
pub mod evloop;
