use crate::scen::*;
use crate::{Prop, Scenario};

fn sc(name: &'static str, weight: u32, run: fn()) -> Scenario {
    Scenario { name, weight, max_steps: 60_000, run }
}
const BASE_STUB: &[&str] = &[
    "operating system threads, locks, atomics, channels and clocks (simstd: one thread released at a time)",
    "tokio executor and timers (sim-tokio; tokio::sync is the real code)",
    "V8 (model of isolates, locks, handles, allocator and termination)",
    "CPU-time timers and signals (sim-libc, sim-signal-hook-tokio)",
];
const BASE_ASSUME: &[&str] = &[
    "memory is sequentially consistent: weaker hardware orderings are not explored",
    "threads switch only at synchronisation operations, task polls and timer events",
    "the search samples schedules and faults; it does not exhaust them",
];
pub fn all() -> Vec<Prop> {
    let p = |id, runs, scenarios, must_reach, real| Prop { id, runs, scenarios, must_reach, real, stub: BASE_STUB, assumptions: BASE_ASSUME };
    let waiter = || vec![sc("turns-local", 4, waiter::turns_local), sc("turns-cancel", 4, waiter::turns_cancel), sc("turns-threads", 4, waiter::turns_threads)];
    const W: &[&str] = &["src/async_waiter.rs"];
    const S: &[&str] = &["src/runtime/stream_manager.rs", "tokio::sync::mpsc (real)"];
    const GC: &[&str] = &["src/gc/external_memory.rs", "src/gc/js_lock.rs", "src/gc/deferred_destruction.rs", "src/gc/traceable.rs", "src/locker_managed_isolate.rs", "src/platform.rs"];
    const AL: &[&str] = &["src/security/array_buffer_allocator.rs", "src/locker_managed_isolate.rs", "src/platform.rs"];
    const HL: &[&str] = &["src/security/heap_limit.rs", "src/locker_managed_isolate.rs", "src/platform.rs"];
    const TG: &[&str] = &["src/security/timeout_guard.rs", "v8::IsolateHandle (real)"];
    const CE: &[&str] = &["src/security/cpu_enforcer.rs", "v8::IsolateHandle (real)"];
    const EL: &[&str] = &["src/runtime/scheduler.rs", "src/runtime/stream_manager.rs", "tokio::sync and tokio_util CancellationToken (real)", "futures::FuturesUnordered (real)"];
    vec![
        p("P01", 120_000, waiter(), &["waiter.registered_twice"], W),
        p("P02", 120_000, waiter(), &["waiter.registered_twice", "waiter.cancelled_waiting", "fault.request_cancelled"], W),
        p("P03", 120_000, waiter(), &["waiter.registered_twice", "waiter.overtaken"], W),
        p("P04", 80_000, vec![sc("deliver", 1, stream::deliver)], &["fault.read_cancelled", "fault.write_cancelled", "stream.buffer_full"], S),
        p("P05", 80_000, vec![sc("deliver", 1, stream::deliver)], &["stream.buffer_full", "stream.try_write_full"], S),
        p("P06", 80_000, vec![sc("close", 1, stream::close)], &["fault.stream_closed", "fault.consumer_dropped", "stream.write_after_close"], S),
        p("P07", 80_000, vec![sc("reuse", 1, stream::reuse)], &["fault.streams_cleared", "stream.stale_write"], S),
        p("P09", 80_000, vec![sc("external", 1, gc::external)], &["gc.nested_lock", "gc.adjusted_under_other_isolate", "gc.dropped_under_other_isolate", "gc.dropped_without_lock", "gc.unowned_dropped_under_lock"], GC),
        p("P10", 80_000, vec![sc("deferred", 1, gc::deferred)], &["gc.disposed_with_pending", "v8.handle_destroyed", "v8.lock_contended"], GC),
        p("P11", 80_000, vec![sc("direct", 3, alloc::direct), sc("isolates", 1, alloc::isolates)], &["fault.allocation_denied"], AL),
        p("P12", 80_000, vec![sc("direct", 3, alloc::direct), sc("isolates", 1, alloc::isolates)], &["fault.allocation_denied"], AL),
        p("P13", 80_000, vec![sc("timeout", 1, guard::timeout)], &["fault.wall_limit_reached", "guard.isolate_disposed_first"], TG),
        p("P14", 80_000, vec![sc("timeout", 1, guard::timeout)], &["fault.wall_limit_reached", "guard.isolate_disposed_first"], TG),
        p("P15", 80_000, vec![sc("cpu", 3, guard::cpu), sc("reset", 1, guard::reset)], &["fault.cpu_limit_reached", "cpu.crowd", "cpu.reset", "fault.timer_create_failed", "fault.timer_settime_failed"], CE),
        p("P16", 80_000, vec![sc("cpu", 1, guard::cpu), sc("reset", 2, guard::reset)], &["fault.cpu_limit_reached", "cpu.crowd", "cpu.reset"], CE),
        p("P17", 40_000, vec![sc("isolates", 1, alloc::isolates), sc("heap-limit", 2, alloc::heap_limit)], &["fault.heap_limit"], HL),
        p("P18", 80_000, vec![sc("timers", 1, evloop::timers)], &["timers.cleared", "timers.cleared_after_firing", "timers.script_busy"], EL),
        p("P19", 80_000, vec![sc("timers", 1, evloop::timers)], &["timers.cleared", "timers.script_busy"], EL),
        p("P20", 80_000, vec![sc("operations", 1, evloop::operations)], &["fault.body_fails", "body.script_cancelled", "body.source_told_closed"], EL),
        p("P21", 80_000, vec![sc("request-end", 1, evloop::request_end)], &["fault.request_ended", "fault.operation_hangs", "fault.body_stalls"], EL),
        p("P22", 80_000, vec![sc("websocket", 1, evloop::websocket)], &["fault.request_ended", "fault.peer_left", "ws.script_closed"], EL),
        p("P08", 80_000, vec![sc("pump", 1, stream::pump)], &["fault.consumer_dropped", "stream.source_told_closed"], S),
    ]
}
