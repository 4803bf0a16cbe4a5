//! The two builds of the runtime (one request per isolate, or several), behind
//! one table of functions.
use openworkers_core::*;
use std::future::Future;
use std::pin::Pin;

pub type Local<T> = Pin<Box<dyn Future<Output = T>>>;
pub struct Pinned {
    pub owner: String,
    pub worker: String,
    pub version: i32,
    pub script: Script,
    pub ops: OperationsHandle,
    pub task: Event,
    pub on_warm: Option<Box<dyn FnOnce(&OperationsHandle) + Send>>,
    pub env_at: Option<i64>,
}
pub struct PoolCfg {
    pub per_thread: usize,
    pub per_owner: Option<usize>,
    pub concurrent: usize,
    pub cached: usize,
    pub limits: RuntimeLimits,
}
#[derive(Clone, Copy)]
pub struct Rt {
    pub multi: bool,
    pub init: fn(PoolCfg),
    pub pinned: fn(Pinned) -> Local<Result<(), TerminationReason>>,
    /// A worker of its own for one event.
    pub single: fn(Script, RuntimeLimits, OperationsHandle, Event) -> Local<Result<(), TerminationReason>>,
    /// total, in use, capacity of the calling thread's pool
    pub stats: fn() -> Option<(usize, usize, usize)>,
}
macro_rules! runtime {
    ($name:ident, $krate:ident, $multi:expr) => {
        pub const $name: Rt = Rt {
            multi: $multi,
            init: |c| $krate::init_pinned_pool($krate::PinnedPoolConfig { max_per_thread: c.per_thread, max_per_owner: c.per_owner, max_concurrent_per_isolate: c.concurrent, max_cached_contexts: c.cached, limits: c.limits }),
            pinned: |p| {
                Box::pin($krate::execute_pinned($krate::PinnedExecuteRequest { owner_id: p.owner, worker_id: p.worker, version: p.version, script: p.script, ops: p.ops, task: p.task, on_warm_hit: p.on_warm, env_updated_at: p.env_at }))
            },
            single: |script, limits, ops, task| {
                Box::pin(async move {
                    let mut w = $krate::Worker::new_with_ops(script, Some(limits), ops).await?;
                    w.exec(task).await
                })
            },
            stats: || $krate::get_local_pool_stats().map(|s| (s.total, s.in_use, s.capacity)),
        };
    };
}
runtime!(SIMPLE, sut_simple, false);
runtime!(MULTI, sut, true);
