use crate::scen::load::{CALM, Knobs, run};
use crate::scen::rt::{MULTI, SIMPLE};
use crate::scen::world::Odds;
use owsim::{Prop, Scenario};

const ANSWERS: Odds = CALM.answers;
/// Requests that come and go, all of them well-behaved.
const BUSY: Knobs = Knobs { reqs: (3, 12), owners: 3, workers: 2, versions: 2, bg: 3, leak: 4, spread_ms: 120, two_threads: 3, ..CALM };
/// Clients and callers that give up, upstreams and scripts that hang.
const ROUGH: Knobs = Knobs { ws: 12, wall_ms: 300, cpu_ms: 60, drops: 6, leaves: 6, hang: 30, spin: 60, eat: 0, open: 8, src_err: 6, stream: 3, answers: Odds { hang: 12, open: 6, ..ANSWERS }, ..BUSY };
/// Bodies: long ones, slow readers.
const BODIES: Knobs = Knobs { reqs: (1, 5), ops: 2, stream: 2, chunks: 45, src_err: 5, fwd: 2, echo: 3, slow: 2, bg: 6, spread_ms: 200, throw: 0, answers: Odds { stream: 2, cut: 5, ..ANSWERS }, ..CALM };
const LEAVING: Knobs = Knobs { fwd: 3, answers: Odds { open: 4, ..ANSWERS }, leaves: 2, stream: 2, open: 3, chunks: 20, wall_ms: 2_000, ..CALM };
const WAITS: Knobs = Knobs { wu: 2, ops: 5, ..BUSY };
const LIMITS: Knobs = Knobs { wall_ms: 300, cpu_ms: 60, hang: 10, spin: 10, wu: 3, top: 5, burn: 3, eat: 0, open: 6, answers: Odds { hang: 8, open: 4, ..ANSWERS }, ..BUSY };
const MEMORY: Knobs = Knobs { buffers: 4, eat: 10, top: 6, wall_ms: 2_000, cpu_ms: 500, reqs: (2, 8), owners: 1, workers: 2, spread_ms: 60, ..BUSY };
/// ArrayBuffers.
const BUFFERS: Knobs = Knobs { buffers: 2, eat: 40, reqs: (2, 6), ..MEMORY };
/// Request bodies.
const UPLOADS: Knobs = Knobs { echo: 1, stream: 12, fwd: 0, body: 300, body_err: 4, ops: 2, throw: 20, slow: 4, ..CALM };
const UPLOADS_ROUGH: Knobs = Knobs { echo: 2, stream: 12, fwd: 0, body: 300, body_err: 4, ..ROUGH };
const TASKS: Knobs = Knobs { tasks: 2, wu: 4, ops: 5, ..BUSY };
const TASKS_ROUGH: Knobs = Knobs { tasks: 2, wu: 4, ..ROUGH };

/// WebSockets.
const SOCKETS: Knobs = Knobs { ws: 2, wu: 4, ..BUSY };
const SOCKETS_ROUGH: Knobs = Knobs { ws: 2, ..WARM_ROUGH };

/// The same few workers again and again, so that contexts are reused.
const WARM: Knobs = Knobs { single: 0, reqs: (4, 14), owners: 2, workers: 1, versions: 1, spread_ms: 500, leak: 5, bg: 3, ops: 3, ..CALM };
const WARM_ROUGH: Knobs = Knobs { ws: 12, wall_ms: 300, cpu_ms: 60, drops: 8, leaves: 8, hang: 40, spin: 60, open: 10, stream: 3, body: 100, body_err: 6, answers: Odds { hang: 20, open: 8, ..ANSWERS }, ..WARM };

/// Many small requests for two workers.
const CHURN: Knobs = Knobs { single: 0, reqs: (8, 24), owners: 1, workers: 2, versions: 1, spread_ms: 600, ops: 2, calls: 6, bg: 12, stream: 12, drops: 12, ..CALM };

/// Timers.
const TIMERS: Knobs = Knobs { timers: 2, ..BUSY };
const TIMERS_ROUGH: Knobs = Knobs { timers: 2, ..WARM_ROUGH };
/// Bodies of all sorts, one request after the other in the same few contexts.
const WARM_BODIES: Knobs = Knobs { stream: 2, fwd: 2, echo: 2, body: 200, open: 0, chunks: 12, hang: 0, spin: 0, answers: Odds { stream: 2, cut: 6, open: 6, ..ANSWERS }, ..WARM_ROUGH };

/// Scripts that do whatever they can to the runtime, among others that behave.
const HOSTILE: Knobs = Knobs { hostile: 2, tasks: 4, wall_ms: 2_000, cpu_ms: 500, ..BUSY };

macro_rules! scenarios {
    ($($k:ident $w:expr),*) => { vec![$(
        Scenario { name: concat!(stringify!($k), "-simple"), weight: $w, max_steps: 1_000_000, run: || run(SIMPLE, $k) },
        Scenario { name: concat!(stringify!($k), "-multi"), weight: $w, max_steps: 1_000_000, run: || run(MULTI, $k) },
    )*] };
}
const REAL: &[&str] = &[
    "all of src/, unmodified: pool.rs, execution_context.rs, worker.rs, event_loop.rs, runtime/* with its JavaScript, security/*, gc/*",
    "V8 (12.4, from the installed node) and the scripts it runs",
    "tokio::sync, tokio_util CancellationToken, futures::FuturesUnordered",
];
const STUB: &[&str] = &[
    "operating system threads, locks, atomics, channels and clocks (simstd: one thread released at a time)",
    "tokio executor and timers (sim-tokio)",
    "CPU-time timers and signals (sim-libc, sim-signal-hook-tokio)",
    "openworkers-core (data types and traits), the operations handler behind it and the clients (scen/world.rs, scen/load.rs)",
    "V8's own threads (single-threaded platform) and clock",
];
const ASSUME: &[&str] = &[
    "memory is sequentially consistent: weaker hardware orderings are not explored",
    "threads switch only at synchronisation operations, task polls, timer events and where a script reports or burns CPU",
    "node's V8 12.4 behaves like the V8 14.6 that the crate is shipped with, as far as the crate uses it",
    "the search samples schedules and faults; it does not exhaust them",
];
pub fn all() -> Vec<Prop> {
    let p = |id, scenarios, must_reach| Prop { id, runs: if id == "P39" { 6000 } else { 8000 }, scenarios, must_reach, real: REAL, stub: STUB, assumptions: ASSUME };
    let also = |id, scenarios, must_reach| Prop { id, runs: if matches!(id, "P11" | "P12" | "P17") { 800 } else { 3000 }, scenarios, must_reach, real: REAL, stub: STUB, assumptions: ASSUME };
    const POOL: &[&str] = &["pool.warm", "pool.cold", "pool.shared_isolate", "fault.request_dropped", "limit.wall", "limit.cpu", "fault.client_leaves"];
    vec![
        p("P23", scenarios![BUSY 2, ROUGH 2, WARM 1], POOL),
        p("P24", scenarios![BUSY 1, WARM 2, WARM_ROUGH 2, ROUGH 1, CHURN 2], POOL),
        p("P25", scenarios![BUSY 2, ROUGH 1, WARM_ROUGH 1], &["pool.warm", "fault.upstream_error", "fault.upstream_hangs", "fault.upstream_body_cut", "fault.request_dropped"]),
        p("P26", scenarios![CALM 1, BUSY 1, ROUGH 2, WARM_ROUGH 1], POOL),
        p("P27", scenarios![BODIES 3, ROUGH 1], &["response.stream", "fault.upstream_body_cut", "limit.wall", "fault.request_dropped"]),
        p("P28", scenarios![LEAVING 2, ROUGH 1], &["client.left_early", "client.left_forwarded"]),
        p("P29", scenarios![WAITS 2, ROUGH 1, WARM_ROUGH 1], &["pool.warm", "fault.upstream_error"]),
        p("P30", scenarios![BUSY 1, ROUGH 2, WARM_ROUGH 1], &["pool.at_capacity", "pool.warm", "pool.shared_isolate", "fault.request_dropped"]),
        p("P31", scenarios![MEMORY 1, LIMITS 2, ROUGH 1, WARM_ROUGH 1], &["limit.wall", "limit.cpu", "pool.warm", "pool.shared_isolate"]),
        p("P32", scenarios![ROUGH 2, LIMITS 1, WARM_ROUGH 2], POOL),
        p("P33", scenarios![UPLOADS 2, UPLOADS_ROUGH 1], &["fault.request_body_cut", "request_body.sender_told"]),
        p("P34", scenarios![TASKS 2, TASKS_ROUGH 1], &["task.succeeded", "task.failed", "pool.warm", "fault.request_dropped"]),
        p("P38", scenarios![SOCKETS 2, SOCKETS_ROUGH 1], &["ws.script_closed", "ws.peer_closed", "ws.refused", "fault.peer_left", "pool.warm", "fault.request_dropped"]),
        p("P39", scenarios![HOSTILE 1], &["script.hostile", "hostile.ends", "hostile.fails", "hostile.cut"]),
        // (for development, with OWSIM_ANY: every oracle at once)
        p("P99", scenarios![BUSY 1, ROUGH 2, WARM_ROUGH 2, BODIES 2, WARM_BODIES 1, UPLOADS 2, UPLOADS_ROUGH 1, TASKS_ROUGH 2, SOCKETS_ROUGH 2, TIMERS_ROUGH 1, LIMITS 1, LEAVING 1, CHURN 1, HOSTILE 1], &[]),
        // the whole runtime's part in what the models decide
        also("P02", scenarios![BUSY 1, ROUGH 1, WARM_ROUGH 1], &["pool.shared_isolate"]),
        also("P04", scenarios![BODIES 1, WARM_BODIES 1, UPLOADS 1], &["pool.warm", "response.stream", "fault.upstream_body_cut"]),
        also("P06", scenarios![LEAVING 2, ROUGH 1], &["client.left_early", "client.left_forwarded"]),
        also("P07", scenarios![WARM_BODIES 2, ROUGH 1], &["pool.warm", "response.stream", "fault.upstream_body_cut"]),
        also("P08", scenarios![UPLOADS 2, UPLOADS_ROUGH 1], &["fault.request_body_cut", "request_body.sender_told"]),
        also("P11", scenarios![BUFFERS 1], &["limit.buffers"]),
        also("P12", scenarios![BUFFERS 1], &["limit.buffers", "buffers.held"]),
        also("P13", scenarios![LIMITS 1, ROUGH 1], &["limit.wall"]),
        also("P14", scenarios![LIMITS 1, WARM_ROUGH 1], &["limit.wall", "pool.warm"]),
        also("P15", scenarios![LIMITS 1, ROUGH 1], &["limit.cpu"]),
        also("P16", scenarios![LIMITS 1, WARM_ROUGH 1], &["limit.cpu", "pool.warm"]),
        also("P17", scenarios![MEMORY 1], &["limit.memory"]),
        also("P18", scenarios![TIMERS 2, TIMERS_ROUGH 1], &["timer.timeout", "pool.warm"]),
        also("P19", scenarios![TIMERS 2, TIMERS_ROUGH 1], &["timer.interval", "pool.warm"]),
        also("P20", scenarios![BUSY 2, BODIES 1, WARM_BODIES 1], &["fault.upstream_error", "fault.upstream_body_cut", "response.stream"]),
        also("P21", scenarios![ROUGH 1, LIMITS 1, WARM_ROUGH 1], &["fault.request_dropped", "limit.wall", "fault.upstream_hangs"]),
        also("P22", scenarios![SOCKETS 2, SOCKETS_ROUGH 1], &["ws.script_closed", "ws.peer_closed", "fault.peer_left"]),
    ]
}
