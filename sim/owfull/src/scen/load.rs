//! The workload: requests of several owners and workers through one or two
//! threads' pools, with clients, upstream services and faults.
use super::check::{self, Rules};
use super::rt::{Pinned, PoolCfg, Rt};
use super::world::*;
use bytes::Bytes;
use openworkers_core::*;
use simstd::sim;
use std::collections::{BTreeMap, HashMap};
use std::time::Duration;

/// What owners and workers are called: nothing in a name says that it is another's.
const NAMES: [[&str; 3]; 6] = [
    ["owner0", "owner1", "owner2"],
    ["Tenant-a", "tenant-a", "TENANT-A"],
    ["", "0", "00"],
    ["acme-corporation", "acme-corporation-1", "acme-corporation-10"],
    ["a/b", "a", "b"],
    ["worker-é", "worker-e\u{301}", "worker-è"],
];
const HOSTILE: &str = include_str!("hostile.js");
const WORKER: &str = include_str!("worker.js");
/// Ways to register handlers: 0-2 for fetch and task, 3-4 for fetch and scheduled, 5-6 for fetch only.
const STYLES: [&str; 7] = [include_str!("style0.js"), include_str!("style1.js"), include_str!("style2.js"), include_str!("style3.js"), include_str!("style4.js"), include_str!("style5.js"), include_str!("style6.js")];

/// How much of what. Odds are "one in n"; 0 is never.
#[derive(Clone, Copy)]
pub struct Knobs {
    pub reqs: (u32, u32),
    pub owners: u32,
    pub workers: u32,
    pub versions: u32,
    pub wall_ms: u64,
    pub cpu_ms: u64,
    pub spread_ms: u32,
    pub ops: u32,
    pub calls: u32,
    pub bg: u32,
    pub leak: u32,
    pub wu: u32,
    pub burn: u32,
    pub throw: u32,
    /// WebSockets
    pub ws: u32,
    pub timers: u32,
    pub buffers: u32,
    pub hang: u32,
    pub spin: u32,
    pub stream: u32,
    pub chunks: u32,
    pub eat: u32,
    pub open: u32,
    pub src_err: u32,
    pub fwd: u32,
    pub echo: u32,
    pub leaves: u32,
    pub slow: u32,
    pub drops: u32,
    pub single: u32,
    /// tasks among the events
    pub tasks: u32,
    /// workers that are hostile
    pub hostile: u32,
    /// request bodies that fail
    pub body_err: u32,
    /// the longest request body
    pub body: u32,
    /// scripts that do something while they are loaded
    pub top: u32,
    pub threads: u32,
    pub two_threads: u32,
    pub answers: Odds,
}
pub const CALM: Knobs = Knobs {
    reqs: (2, 7),
    owners: 2,
    workers: 2,
    versions: 1,
    wall_ms: 20_000,
    cpu_ms: 2_000,
    spread_ms: 60,
    ops: 4,
    calls: 2,
    bg: 4,
    leak: 8,
    wu: 5,
    burn: 6,
    throw: 12,
    ws: 0,
    timers: 16,
    buffers: 0,
    hang: 0,
    spin: 0,
    stream: 4,
    chunks: 6,
    eat: 0,
    open: 0,
    src_err: 0,
    fwd: 8,
    echo: 8,
    leaves: 0,
    slow: 4,
    drops: 0,
    single: 8,
    tasks: 0,
    hostile: 0,
    body_err: 0,
    body: 50,
    top: 0,
    threads: 1,
    two_threads: 6,
    answers: Odds { err: 8, hang: 0, stream: 3, slow_ms: 30, cut: 4, open: 0 },
};
impl Knobs {
    fn a_top(&self) -> Top {
        let spins = self.cpu_ms < 1_000;
        match sim::draw(6) {
            0 | 1 => Top::Burn,
            2 if spins => Top::Spin,
            3 if spins => Top::SpinLater,
            4 if self.eat > 0 => Top::Eat,
            4 => Top::Syntax,
            _ => Top::Throw,
        }
    }
}
fn one_in(n: u32) -> bool {
    n > 0 && sim::draw(n) == n - 1
}

struct Gen {
    k: Knobs,
    tags: u32,
    wus: u32,
    tms: u32,
    /// no script holds more than it may
    mild: bool,
}
impl Gen {
    fn tag(&mut self) -> String {
        self.tags += 1;
        format!("t{}", self.tags)
    }
    fn kind() -> Kind {
        KINDS[sim::draw(KINDS.len() as u32) as usize]
    }
    fn http() -> Kind {
        [Kind::Fetch, Kind::Svc, Kind::Asset, Kind::StFetch][sim::draw(4) as usize]
    }
    fn op(&mut self, depth: u32, wu: bool) -> Op {
        let k = self.k;
        if one_in(k.calls) {
            return Op::Call(Self::kind(), self.tag());
        }
        if one_in(k.bg) {
            return Op::Bg(Self::kind(), self.tag());
        }
        if one_in(k.leak) {
            return if sim::draw(2) == 0 { Op::LeakInterval(1 + sim::draw(20)) } else { Op::LeakTimeout(1 + sim::draw(60)) };
        }
        if one_in(k.burn) {
            return Op::Burn(1 + sim::draw(8));
        }
        if one_in(k.throw) {
            return Op::Throw([Thrown::Error, Thrown::Error, Thrown::Text, Thrown::Undefined, Thrown::Null, Thrown::Object][sim::draw(6) as usize]);
        }
        if one_in(k.ws) {
            return Op::Ws(self.tag(), sim::draw(5), sim::draw(2) * sim::draw(12), sim::draw(2) == 0, 20 + sim::draw(100));
        }
        if one_in(k.buffers) {
            let mild = self.mild;
            return match sim::draw(if mild { 2 } else { 3 }) {
                0 => Op::Buffers(1 + sim::draw(4), true),
                1 => Op::Buffers(1 + sim::draw(60), false),
                _ => Op::Buffers(24 + sim::draw(20), true),
            };
        }
        if one_in(k.timers) {
            let n = 1 + sim::draw(6);
            let first = self.tms;
            self.tms += n;
            let list: Vec<Tm> = (0..n)
                .map(|_| {
                    let ticks = if sim::draw(3) == 0 { 1 + sim::draw(4) } else { 0 };
                    let ms = [0, sim::draw(6), sim::draw(40)][sim::draw(3) as usize];
                    let form = if sim::draw(2) == 0 { 0 } else { sim::draw(if ticks > 0 { 4 } else { 9 }) };
                    let about = [0, ms * ticks.max(1), sim::draw(40)][sim::draw(3) as usize];
                    Tm { ms, form, ticks, clear: (sim::draw(3) == 0).then_some(about) }
                })
                .collect();
            let w = 40 + list.iter().map(|t| (t.ms * t.ticks.max(1)).max(t.clear.unwrap_or(0))).max().unwrap_or(0);
            return Op::Timers(first, list, w);
        }
        if one_in(k.hang) {
            return Op::Hang;
        }
        if one_in(k.spin) {
            return Op::Spin;
        }
        if one_in(k.eat) {
            return Op::Eat;
        }
        if depth == 0 && one_in(k.wu) || wu && depth == 1 && sim::draw(12) == 0 {
            self.wus += 1;
            let n = self.wus;
            let len = sim::draw(3);
            return Op::Wu(n, (0..len).map(|_| self.op(1 + wu as u32, true)).collect());
        }
        if depth == 0 && sim::draw(6) == 0 {
            let n = 2 + sim::draw(2);
            return Op::Par(
                (0..n)
                    .map(|_| {
                        let l = 1 + sim::draw(2);
                        (0..l).map(|_| self.op(1, wu)).collect()
                    })
                    .collect(),
            );
        }
        if sim::draw(16) == 0 {
            return Op::Odd(sim::draw(24));
        }
        if sim::draw(20) == 0 {
            return Op::Burst(10 + sim::draw(50), sim::draw(9));
        }
        match sim::draw(4) {
            0 => Op::Mark(sim::draw(9)),
            1 => Op::Interval(1 + sim::draw(9), 1 + sim::draw(3)),
            2 => {
                let at = 2 + sim::draw(20);
                Op::Clear(at, sim::draw(at))
            }
            _ => Op::Sleep(sim::draw(25)),
        }
    }
    fn program(&mut self) -> Program {
        let n = sim::draw(self.k.ops + 1);
        self.wus = 0;
        let pre = (0..n).map(|_| self.op(0, false)).collect();
        let k = self.k;
        let resp = if one_in(k.stream) {
            let n = sim::draw(k.chunks) as usize;
            let chunks = (0..n).map(|_| (1 + sim::draw(30) as usize, if sim::draw(2) == 0 { 0 } else { sim::draw(20) })).collect();
            let end = if one_in(k.open) {
                End::Open
            } else if one_in(k.src_err) {
                End::Error
            } else {
                End::Close
            };
            Resp::Stream { pull: sim::draw(2) == 0, form: sim::draw(FORMS), chunks, end }
        } else if one_in(k.fwd) {
            Resp::Fwd(Self::http(), self.tag())
        } else if one_in(k.echo) {
            Resp::Echo([Read::Text, Read::Stream, Read::Reader, Read::Part, Read::Buffer, Read::Twice(true), Read::Twice(false)][sim::draw(7) as usize])
        } else {
            Resp::Text(sim::draw(60) as usize, [200, 201, 404, 503][sim::draw(4) as usize], sim::draw(TEXT_FORMS))
        };
        // a copy of what is not all bytes cannot be read
        let wrap = [Wrap::Plain, Wrap::Plain, Wrap::Plain, Wrap::Plain, Wrap::Again, Wrap::Give, Wrap::Keep][sim::draw(7) as usize];
        Program { pre, resp, wrap }
    }
}
fn waits(ops: &[Op]) -> u64 {
    ops.iter()
        .map(|o| match o {
            Op::Sleep(ms) | Op::Burst(_, ms) => *ms as u64,
            Op::Clear(a, _) => *a as u64 + 2,
            Op::Interval(ms, n) => (*ms * *n) as u64,
            Op::Ws(_, n, gap, _, t) => (*t + gap * (n + 1)) as u64 + 3,
            Op::Par(v) => v.iter().map(|x| waits(x)).sum(),
            Op::Wu(_, v) => waits(v),
            Op::Timers(_, _, w) => *w as u64,
            _ => 0,
        })
        .sum()
}
fn script(r: &Req) -> Script {
    let (me, env) = (&r.me, r.env);
    let code = WORKER.replace("__ME__", me) + STYLES[r.style as usize] + r.top.code() + &if r.hostile() { HOSTILE.replace("__SEED__", &r.hostile_seed().to_string()) } else { String::new() };
    let mut s = Script::with_env(code, HashMap::from([("WHO".to_string(), env.to_string())]));
    for (n, t) in [("KV", BindingType::Kv), ("ST", BindingType::Storage), ("DB", BindingType::Database), ("SVC", BindingType::Worker), ("ASSETS", BindingType::Assets)] {
        s.bindings.push(BindingInfo { name: n.into(), binding_type: t });
    }
    s
}
async fn pause(ms: u64) {
    tokio::time::sleep(Duration::from_millis(ms)).await
}

async fn client(id: u32, rx: tokio::sync::oneshot::Receiver<HttpResponse>, mode: Client, sent: u64) {
    let leave = move || {
        req(id, |r| r.left = Some(sim::now()));
        slog!("client {id} leaves");
        sim::probe("fault.client_leaves");
    };
    let read = async {
        let Ok(resp) = rx.await else {
            req(id, |r| r.unanswered = true);
            slog!("client {id} is given nothing");
            return;
        };
        slog!(
            "client {id} is given {} {}",
            resp.status,
            match &resp.body {
                ResponseBody::None => "no body".into(),
                ResponseBody::Bytes(b) => format!("{} bytes", b.len()),
                ResponseBody::Stream(_) => "a stream".into(),
            }
        );
        req(id, |r| {
            let twice = r.answer.replace(Answered { status: resp.status, headers: resp.headers.clone(), ..Default::default() });
            assert!(twice.is_none());
        });
        let put = |f: &dyn Fn(&mut Answered)| req(id, |r| f(r.answer.as_mut().unwrap()));
        match resp.body {
            ResponseBody::None => put(&|a| {
                a.buffered = true;
                a.end = Some(Ok(()))
            }),
            ResponseBody::Bytes(b) => put(&|a| {
                a.buffered = true;
                a.body = b.to_vec();
                a.end = Some(Ok(()))
            }),
            ResponseBody::Stream(mut s) => {
                sim::probe("response.stream");
                loop {
                    if let Client::LeavesAt(n) = mode {
                        if req(id, |r| r.answer.as_ref().unwrap().chunks) >= n {
                            leave();
                            return;
                        }
                    }
                    if let Client::Stalls(n, ms) = mode {
                        if req(id, |r| r.answer.as_ref().unwrap().chunks) == n {
                            pause(ms as u64).await;
                        }
                    }
                    if let Client::Reads(d) = mode {
                        if d > 0 {
                            pause(d as u64).await;
                        }
                    }
                    match s.recv().await {
                        Some(Ok(b)) => put(&|a| {
                            a.body.extend_from_slice(&b);
                            a.chunks += 1
                        }),
                        Some(Err(e)) => {
                            slog!("client {id}: the body fails: {e}");
                            put(&|a| {
                                a.end = Some(Err(e.clone()));
                                a.end_at = sim::now()
                            });
                            break;
                        }
                        None => {
                            slog!("client {id}: the body ends");
                            put(&|a| {
                                a.end = Some(Ok(()));
                                a.end_at = sim::now()
                            });
                            break;
                        }
                    }
                }
            }
        }
    };
    let _ = sent;
    if let Client::LeavesAfter(ms) = mode {
        tokio::select! { _ = read => {} _ = pause(ms as u64) => leave() }
    } else {
        read.await
    }
}

pub fn run(rt: Rt, k: Knobs) {
    realv8::on_spin(|ns| {
        with(|w| {
            if let Some(r) = w.reqs.values_mut().find(|r| r.hostile()) {
                r.burned += ns;
            }
        })
    });
    let concurrent = if rt.multi { 1 + sim::draw(3) as usize } else { 1 };
    let per_owner = [None, None, Some(1), Some(2)][sim::draw(4) as usize];
    let max_reuses = [1000, 1000, 2, 3, 1, 5][sim::draw(6) as usize];
    unsafe { std::env::set_var("CONTEXT_MAX_REUSES", max_reuses.to_string()) };
    let per_thread = 1 + sim::draw(3) as usize;
    let cached = 1 + sim::draw(3) as usize;
    let stream_buffer = [1, 2, 16][sim::draw(3) as usize];
    let single = one_in(k.single);
    let names = (sim::draw(NAMES.len() as u32) as usize, sim::draw(NAMES.len() as u32) as usize);
    let limits = RuntimeLimits { heap_initial_mb: 1, heap_max_mb: if k.eat > 0 { 24 } else { 128 }, max_cpu_time_ms: k.cpu_ms, max_wall_clock_time_ms: k.wall_ms, stream_buffer_size: stream_buffer };
    with(|w| {
        w.max_reuses = max_reuses;
        w.concurrent = concurrent;
        w.per_owner = per_owner;
        w.answers = k.answers;
        w.stats = (!single).then_some(rt.stats);
        w.names = (NAMES[names.0], NAMES[names.1]);
    });
    slog!("{}: {per_thread} isolates, {per_owner:?} per owner, {concurrent} requests each, {cached} contexts cached, {max_reuses} uses, stream buffer {stream_buffer}", if single { "a worker each; pool" } else { "pool" });
    (rt.init)(PoolCfg { per_thread, per_owner, concurrent, cached, limits: limits.clone() });
    let threads = if k.threads > 1 || one_in(k.two_threads) { 2 } else { 1 };
    let n = sim::draw_range(k.reqs.0, k.reqs.1);
    let styles = sim::draw(7) as usize;
    let mild = k.buffers > 0 && sim::draw(2) == 0;
    let mut tops = BTreeMap::new();
    let mut hostiles = BTreeMap::new();
    let mut per_thread_ids = vec![vec![]; threads];
    for i in 0..n {
        let id = 10 + i;
        let owner = sim::draw(k.owners) as usize;
        let worker = sim::draw(k.workers) as usize;
        let version = 1 + sim::draw(k.versions) as i32;
        let env = 100 + sim::draw(k.versions) as i64;
        let me = format!("o{owner}/w{worker}/v{version}");
        let style = (owner * 2 + worker + version as usize + styles) as u32 % 7;
        let top = *tops.entry(me.clone()).or_insert_with(|| if one_in(k.top) { k.a_top() } else { Top::Nothing });
        let task = one_in(k.tasks);
        let how = [How::Nothing, How::Return, How::Respond, How::Fail, How::Value(false), How::Value(true), How::Both(false), How::Both(true), How::Truthy][sim::draw(9) as usize];
        let from_schedule = style == 3 || sim::draw(4) == 0;
        let mut g = Gen { k, tags: 0, wus: 0, tms: 0, mild };
        let mut prog = g.program();
        if *hostiles.entry((owner, worker)).or_insert_with(|| one_in(k.hostile)) {
            prog.pre = vec![Op::Hostile(sim::draw(1 << 30), 5 + sim::draw(120))];
        }
        let body = match prog.resp {
            Resp::Echo(_) => pad(id, 0, sim::draw(k.body) as usize),
            // nobody looks at it
            Resp::Text(..) | Resp::Stream { .. } if one_in(6) => pad(id, 0, sim::draw(k.body) as usize),
            _ => String::new(),
        };
        let streamed = if body.is_empty() || sim::draw(2) == 0 {
            None
        } else if one_in(k.body_err) {
            Some(End::Error)
        } else {
            Some(End::Close)
        };
        let client = if one_in(k.leaves) {
            if sim::draw(2) == 0 { Client::LeavesAfter(sim::draw(80)) } else { Client::LeavesAt(sim::draw(4)) }
        } else if one_in(k.slow) {
            if sim::draw(4) == 0 { Client::Stalls(sim::draw(8), 50 + sim::draw(450)) } else { Client::Reads(1 + sim::draw(30)) }
        } else {
            Client::Reads(0)
        };
        let w = waits(&prog.pre) + if let Resp::Stream { chunks, .. } = &prog.resp { chunks.iter().map(|c| c.1 as u64).sum() } else { 0 };
        if task {
            slog!("task {id}: {me} (style {style}) env {env} {:?} {how:?} {}", prog.pre, if from_schedule { "scheduled" } else { "" });
        } else {
            slog!("request {id}: {me} env {env} {prog:?} {client:?}");
        }
        with(|wd| {
            wd.reqs.insert(
                id,
                Req {
                    id,
                    owner,
                    worker,
                    version,
                    env,
                    prog,
                    body,
                    client,
                    thread: 0,
                    me,
                    style,
                    streamed,
                    task,
                    how,
                    from_schedule,
                    exec_at: None,
                    done: None,
                    dropped: None,
                    start: None,
                    warm_calls: 0,
                    said: vec![],
                    calls: BTreeMap::new(),
                    socks: BTreeMap::new(),
                    timers: BTreeMap::new(),
                    burned: 0,
                    burned_alone: 0,
                    ate_at: None,
                    top,
                    waits_ms: w,
                    answer: None,
                    unanswered: false,
                    left: None,
                    task_result: None,
                    sending: false,
                    sent: 0,
                    sent_until: None,
                },
            )
        });
        per_thread_ids[sim::draw(threads as u32) as usize].push(id);
    }
    let mut hs = vec![];
    for (t, ids) in per_thread_ids.into_iter().enumerate() {
        let limits = limits.clone();
        let go = move || thread(rt, k, ids, single, limits, per_thread, threads == 1);
        if t + 1 == threads {
            go();
        } else {
            hs.push(owsim::h::spawn("pool", go));
        }
    }
    for h in hs {
        let _ = h.join();
    }
    check::afterwards(&Rules { wall_ms: k.wall_ms, cpu_ms: k.cpu_ms });
}

fn thread(rt: Rt, k: Knobs, ids: Vec<u32>, single: bool, limits: RuntimeLimits, capacity: usize, alone: bool) {
    // the log must not change what happens
    let _log = (sim::draw(4) == 0).then(|| tracing::subscriber::set_default(super::listener::Listener));
    owsim::h::local(async move {
        let mut hs = vec![];
        let mine: Vec<u32> = ids.clone();
        // the isolates of workers must go in the reverse order of their creation: one at a time
        let turn = std::rc::Rc::new(tokio::sync::Mutex::new(()));
        for id in ids {
            let after = sim::draw(k.spread_ms);
            let drop_at = if one_in(k.drops) { Some(sim::draw(60)) } else { None };
            let own_set = sim::draw(4) == 0;
            let limits = limits.clone();
            let turn = turn.clone();
            let one = async move {
                pause(after as u64).await;
                let _turn = if single { Some(turn.lock().await) } else { None };
                request(rt, k, id, single, limits, drop_at).await
            };
            hs.push(if own_set { tokio::task::spawn_local(async move { tokio::task::LocalSet::new().run_until(one).await }) } else { tokio::task::spawn_local(one) });
        }
        for h in hs {
            if let Err(e) = h.await {
                oracle!("P26", false, "panic", "serving a request panicked: {e}");
            }
        }
        // everybody has had the time to finish
        pause(3_000).await;
        if !single {
            if let Some((total, in_use, cap)) = (rt.stats)() {
                oracle!("P30", in_use == 0, "slot-lost", "no request is running and {in_use} isolates count as in use");
                oracle!("P30", total <= capacity && cap == capacity, "over-limit", "no request is running and the pool holds {total} isolates, {capacity} may stay");
            }
        }
        check::settled(&mine);
        if alone {
            let n = realv8::live_isolates();
            let total = if single { Some(0) } else { (rt.stats)().map(|s| s.0) };
            if let Some(total) = total {
                oracle!("P30", n == total, "isolate-leaked", "no request is running, the pool holds {total} isolates and {n} exist");
            }
            let n = sim::pending();
            oracle!("P32", n == 0, "timers-run-on", "every request has been over for 3 s, and {n} timers or sleeping tasks are left");
        }
        // the runtime (and what it still runs) goes away only now
        slog!("settled");
    })
}

async fn request(rt: Rt, k: Knobs, id: u32, single: bool, limits: RuntimeLimits, drop_at: Option<u32>) {
    let r = req(id, |r| r.clone());
    let (event, c) = if r.task { task(&r) } else { fetch(&r) };
    let ops = Ops::make(id);
    let rules = Rules { wall_ms: k.wall_ms, cpu_ms: k.cpu_ms };
    req(id, |r| {
        r.exec_at = Some(sim::now());
        r.thread = sim::tid().unwrap()
    });
    let names = with(|w| w.names);
    slog!("request {id} goes in");
    let exec = if single {
        (rt.single)(script(&r), limits, ops, event)
    } else {
        (rt.pinned)(Pinned {
            owner: names.0[r.owner].into(),
            worker: names.1[r.worker].into(),
            version: r.version,
            script: script(&r),
            ops,
            task: event,
            on_warm: Some(Box::new(move |h| rebind(h, id))),
            env_at: (r.env != 100).then_some(r.env),
        })
    };
    let limit = 2 * k.wall_ms + 20_000;
    let drop_after = drop_at.map(|d| d as u64).unwrap_or(limit);
    let res = tokio::time::timeout(Duration::from_millis(drop_after), exec).await;
    match res {
        Ok(res) => {
            slog!("request {id} ends: {res:?}");
            check::ended(id, &res, &rules);
            req(id, |r| r.done = Some((sim::now(), res)));
        }
        Err(_) => {
            let r = req(id, |r| r.clone());
            oracle!("P31", drop_at.is_some(), "never-ends", "the wall-clock limit is {} ms, and request {id} ({:?} {:?}) has not ended after {limit} ms; it said {}", k.wall_ms, r.prog, r.client, first_lines(&r.said));
            sim::probe("fault.request_dropped");
            slog!("request {id} is dropped");
            req(id, |r| r.dropped = Some(sim::now()));
        }
    }
    let _ = tokio::time::timeout(Duration::from_secs(5), c).await;
}

fn task(r: &Req) -> (Event, tokio::task::JoinHandle<()>) {
    let id = r.id;
    let (event, rx) = if r.from_schedule {
        Event::from_schedule(format!("task-{id}"), SCHEDULE + id as u64)
    } else {
        Event::task(format!("task-{id}"), Some(r.payload()), [None, Some(TaskSource::Invoke { origin: None })][sim::draw(2) as usize].clone(), attempt(id))
    };
    let c = tokio::task::spawn_local(async move {
        let res = rx.await;
        slog!("task {id} is reported: {res:?}");
        req(id, |r| match res {
            Ok(t) => r.task_result = Some(t),
            Err(_) => r.unanswered = true,
        });
    });
    (event, c)
}

fn fetch(r: &Req) -> (Event, tokio::task::JoinHandle<()>) {
    let id = r.id;
    let headers = HashMap::from([("x-id".to_string(), id.to_string()), ("x-prog".to_string(), r.prog.json()), ("x-seen".to_string(), format!("h{id}"))]);
    let body = if r.body.is_empty() {
        RequestBody::None
    } else if r.streamed.is_none() {
        RequestBody::Bytes(Bytes::from(r.body.clone()))
    } else {
        let (tx, rx) = tokio::sync::mpsc::channel(1 + sim::draw(2) as usize);
        let parts: Vec<(Bytes, u64)> = r.body.as_bytes().chunks(1 + sim::draw(20) as usize).map(|b| (Bytes::copy_from_slice(b), sim::draw(5) as u64)).collect();
        let end = r.streamed.unwrap();
        req(id, |r| {
            r.sending = true;
            r.waits_ms += parts.iter().map(|p| p.1).sum::<u64>();
        });
        tokio::task::spawn(async move {
            let send = async {
                for (p, d) in parts {
                    if d > 0 {
                        pause(d).await;
                    }
                    let n = p.len();
                    if tx.send(Ok(p)).await.is_err() {
                        return;
                    }
                    req(id, |r| r.sent += n);
                }
                if end == End::Error {
                    sim::probe("fault.request_body_cut");
                    let _ = tx.send(Err(gone(id))).await;
                }
            };
            tokio::select! { _ = send => {} _ = tx.closed() => sim::probe("request_body.sender_told") }
            req(id, |r| {
                r.sending = false;
                r.sent_until = Some(sim::now());
            });
        });
        RequestBody::Stream(rx)
    };
    let http = HttpRequest { method: r.method(), url: r.url(), headers, body };
    let (event, rx) = Event::fetch(http);
    let c = tokio::task::spawn_local(client(id, rx, r.client, sim::now()));
    (event, c)
}
