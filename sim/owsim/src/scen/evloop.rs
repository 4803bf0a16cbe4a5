//! The real event loop (`runtime/scheduler.rs`) between a script and the host's
//! operations handler: timers, operations, response bodies, WebSockets, and the
//! end of the request.
use crate::h::*;
use bytes::Bytes;
use openworkers_core::*;
use simstd::sim;
use simstd::time::Duration;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;
use sut::runtime::stream_manager::{StreamChunk, StreamManager};
use sut::runtime::{CallbackMessage, SchedulerMessage as M, run_event_loop};
use tokio::sync::{Notify, mpsc, oneshot};
use tokio_util::sync::CancellationToken;

async fn nap(max_us: u64) {
    match sim::choose(4) {
        0 => tokio::task::yield_now().await,
        1 => {}
        _ => tokio::time::sleep(Duration::from_micros(sim::choose(max_us.max(1) as u32) as u64)).await,
    }
}

/// The running loop, on this thread's runtime or on one of its own.
struct Loop {
    tx: mpsc::UnboundedSender<M>,
    cancel: CancellationToken,
    handle: Option<tokio::task::JoinHandle<()>>,
    ended: Obs<bool>,
}
fn start(threads: bool, ops: OperationsHandle, sm: Arc<StreamManager>) -> (Loop, mpsc::UnboundedReceiver<CallbackMessage>) {
    let (tx, rx) = mpsc::unbounded_channel();
    let (cb_tx, cb_rx) = mpsc::unbounded_channel();
    let cancel = CancellationToken::new();
    let ended = Obs::new(false);
    let (c, e) = (cancel.clone(), ended.clone());
    let fut = async move {
        run_event_loop(rx, cb_tx, Arc::new(Notify::new()), sm, ops, c).await;
        e.with(|e| *e = true);
    };
    let handle = if threads {
        drop(spawn("event-loop", move || {
            local(async move {
                fut.await;
                // tasks of this loop go on as long as its runtime
                tokio::time::sleep(Duration::from_secs(5)).await;
            })
        }));
        None
    } else {
        Some(tokio::spawn(fut))
    };
    (Loop { tx, cancel, handle, ended }, cb_rx)
}

// ------------------------------------------------------------------ timers --
#[derive(Clone, Debug)]
struct T {
    interval: bool,
    ms: u64,
    seq: u64,
    sent: u64,
    cleared: Option<u64>,
    fires: u64,
}
impl T {
    fn due(&self, n: u64) -> u64 {
        self.sent + n * self.ms * MS
    }
}
#[derive(Default)]
struct TS {
    t: BTreeMap<u64, T>,
    gone: bool,
}
impl TS {
    fn fired(&mut self, id: u64, interval: bool) {
        let prop = if interval { "P19" } else { "P18" };
        let now = sim::now();
        let Some(t) = self.t.get_mut(&id) else {
            oracle!(prop, false, "unknown", "timer {id} fired and was never set");
            return;
        };
        t.fires += 1;
        let t = t.clone();
        slog!("timer {id} fired ({} of {t:?})", t.fires);
        oracle!("P18", t.interval || !interval, "kind", "timeout {id} fired as an interval");
        oracle!("P19", !t.interval || interval, "kind", "interval {id} fired as a timeout");
        let prop = if t.interval { "P19" } else { "P18" };
        oracle!(prop, t.interval || t.fires == 1, "twice", "timeout {id} fired {} times", t.fires);
        oracle!(prop, now >= t.due(t.fires), "early", "timer {id} ({} ms) fired for the {}. time {} us after it was set", t.ms, t.fires, (now - t.sent) / US);
        if let Some(c) = t.cleared {
            oracle!(prop, t.due(t.fires) <= c, "cleared", "timer {id} was cleared {} us before its {}. firing was due, and fired", (t.due(t.fires) - c) / US, t.fires);
        }
        if !t.interval {
            for (o, u) in &self.t {
                oracle!("P18", u.interval || u.fires > 0 || u.cleared.is_some() || u.seq >= t.seq || u.ms + 2 > t.ms, "order",
                    "timeout {id} ({} ms) fired before timeout {o} ({} ms), which was set earlier", t.ms, u.ms);
            }
        }
    }
}

pub fn timers() {
    let threads = sim::draw_bool(1, 3);
    let n = sim::draw_range(2, 14);
    let longest = [3, 12, 40][sim::draw(3) as usize];
    // (on a thread of its own, the loop would queue callbacks faster than a busy script takes them)
    let busy = !threads && sim::draw_bool(1, 3);
    local(async move {
        let st: Obs<TS> = Obs::default();
        let (mut lp, mut rx) = start(threads, Arc::new(DefaultOps), Arc::new(StreamManager::new()));
        let s2 = st.clone();
        let consumer = tokio::task::spawn_local(async move {
            while let Some(m) = rx.recv().await {
                match m {
                    CallbackMessage::ExecuteTimeout(id) => s2.with(|s| s.fired(id, false)),
                    CallbackMessage::ExecuteInterval(id) => s2.with(|s| s.fired(id, true)),
                    _ => oracle!("P18", false, "foreign", "a callback of another kind arrived"),
                }
                if busy && sim::rarely(4) && !s2.with(|s| s.gone) {
                    // a slow script holds up the thread
                    sim::probe("timers.script_busy");
                    sim::burn(sim::choose(6_000_000) as u64, 100 * US, || false);
                }
            }
        });
        let mut next = 1u64;
        for seq in 0..n {
            match sim::choose(5) {
                0 | 1 => {
                    let ms = sim::choose(longest) as u64;
                    let id = next;
                    next += 1;
                    st.with(|s| s.t.insert(id, T { interval: false, ms, seq: seq as u64, sent: sim::now(), cleared: None, fires: 0 }));
                    slog!("set timeout {id}, {ms} ms");
                    let _ = lp.tx.send(M::ScheduleTimeout(id, ms));
                }
                2 => {
                    let ms = 1 + sim::choose(longest) as u64;
                    let id = next;
                    next += 1;
                    st.with(|s| s.t.insert(id, T { interval: true, ms, seq: seq as u64, sent: sim::now(), cleared: None, fires: 0 }));
                    slog!("set interval {id}, {ms} ms");
                    let _ = lp.tx.send(M::ScheduleInterval(id, ms));
                }
                _ => {
                    // any id: live, fired, cleared already, or not yet given out
                    let id = 1 + sim::choose(next as u32 + 1) as u64;
                    slog!("clear {id}");
                    if st.with(|s| s.t.get(&id).is_some_and(|t| t.fires > 0 && !t.interval)) {
                        sim::probe("timers.cleared_after_firing");
                    }
                    let _ = lp.tx.send(M::ClearTimer(id));
                    let now = sim::now();
                    st.with(|s| {
                        if let Some(t) = s.t.get_mut(&id)
                            && t.cleared.is_none()
                        {
                            t.cleared = Some(now);
                            sim::probe("timers.cleared");
                        }
                    });
                }
            }
            if sim::choose(2) == 0 {
                nap(longest as u64 * 700).await;
            }
        }
        sim::calm();
        st.with(|s| s.gone = true);
        let before: BTreeMap<u64, u64> = st.with(|s| s.t.iter().map(|(i, t)| (*i, t.fires)).collect());
        let t0 = sim::now();
        tokio::time::sleep(Duration::from_millis(longest as u64 * 3 + 30)).await;
        let waited = (sim::now() - t0) / MS;
        st.with(|s| {
            for (id, t) in &s.t {
                if t.cleared.is_some() {
                    continue;
                }
                if !t.interval {
                    oracle!("P18", t.fires == 1, "lost", "timeout {id} ({} ms) has not fired {} ms after it was set", t.ms, (sim::now() - t.sent) / MS);
                } else {
                    let got = t.fires - before[id];
                    let want = (waited / (t.ms + 1)).saturating_sub(2);
                    oracle!("P19", got >= want, "lost", "interval {id} ({} ms) fired {got} times in {waited} ms", t.ms);
                }
            }
        });
        // the end: the loop drains on shutdown, or ends with its script
        let drain = sim::draw_bool(1, 2);
        let late = next;
        if drain && sim::draw_bool(1, 2) {
            // a shutdown is no reason for an interval to stop
            let _ = lp.tx.send(M::Shutdown);
            let before: BTreeMap<u64, u64> = st.with(|s| s.t.iter().map(|(i, t)| (*i, t.fires)).collect());
            let t0 = sim::now();
            tokio::time::sleep(Duration::from_millis(longest as u64 * 4 + 10)).await;
            let waited = (sim::now() - t0) / MS;
            st.with(|s| {
                for (id, t) in s.t.iter().filter(|(_, t)| t.interval && t.cleared.is_none()) {
                    sim::probe("timers.interval_after_shutdown");
                    oracle!("P19", t.fires - before[id] >= (waited / (t.ms + 1)).saturating_sub(2), "lost", "interval {id} ({} ms), which nobody cleared, stopped firing after the shutdown", t.ms);
                }
            });
            if !st.with(|s| s.t.values().any(|t| t.interval && t.cleared.is_none())) {
                oracle!("P19", lp.ended.with(|e| *e), "not-ended", "the event loop is still running after its shutdown");
                lp.cancel.cancel();
                consumer.abort();
                return;
            }
        }
        if drain {
            let live: Vec<u64> = st.with(|s| s.t.iter().filter(|(_, t)| t.interval && t.cleared.is_none()).map(|(i, _)| *i).collect());
            for id in live {
                let _ = lp.tx.send(M::ClearTimer(id));
                st.with(|s| s.t.get_mut(&id).unwrap().cleared = Some(sim::now()));
            }
            st.with(|s| s.t.insert(late, T { interval: false, ms: 4, seq: 1000, sent: sim::now(), cleared: None, fires: 0 }));
            let _ = lp.tx.send(M::ScheduleTimeout(late, 4));
            let _ = lp.tx.send(M::Shutdown);
            tokio::time::sleep(Duration::from_millis(longest as u64 * 2 + 30)).await;
            st.with(|s| oracle!("P18", s.t[&late].fires == 1, "lost", "a timeout pending at shutdown did not fire"));
        } else {
            let Loop { tx, .. } = &mut lp;
            *tx = mpsc::unbounded_channel().0;
            tokio::time::sleep(Duration::from_millis(5)).await;
        }
        oracle!("P19", lp.ended.with(|e| *e), "not-ended", "the event loop is still running {} its script", if drain { "after the shutdown of" } else { "without" });
        lp.cancel.cancel();
        consumer.abort();
    });
}

// -------------------------------------------------------------- operations --
#[derive(Clone, Debug, PartialEq)]
enum Body {
    None,
    Bytes(usize),
    Stream { chunks: u32, err: bool, stall: bool },
}
#[derive(Clone, Debug, PartialEq)]
enum Res {
    Http(Body),
    HttpErr,
    Plain,
    PlainErr,
    Wrong,
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Fetch,
    BindingFetch,
    Worker,
    Storage,
    Kv,
    Db,
}
#[derive(Clone, Debug)]
struct Plan {
    kind: Kind,
    res: Res,
    delay: u64,
    hang: bool,
    thread: bool,
    pace: u64,
    cap: usize,
}
#[derive(Default)]
struct Src {
    sent: u32,
    ended: Option<bool>,
    told_closed: bool,
    gone: bool,
}
#[derive(Default)]
struct OS {
    plan: BTreeMap<u64, Plan>,
    calls: BTreeMap<u64, u32>,
    in_flight: BTreeMap<u64, i32>,
    src: BTreeMap<u64, Src>,
    answers: BTreeMap<u64, u32>,
    cancelled_at: Option<u64>,
}
struct Ops {
    st: Obs<OS>,
}
struct Flight(u64, Obs<OS>);
impl Drop for Flight {
    fn drop(&mut self) {
        self.1.with(|s| *s.in_flight.entry(self.0).or_default() -= 1);
    }
}
fn uid_of(s: &str) -> u64 {
    s.rsplit('/').next().and_then(|x| x.parse().ok()).unwrap_or(0)
}
fn chunk(uid: u64, n: u32) -> Bytes {
    Bytes::from(format!("{uid}.{n}"))
}
fn whole(uid: u64, len: usize) -> Bytes {
    Bytes::from(format!("{uid}#").repeat(len))
}
impl OperationsHandler for Ops {
    fn handle(&self, op: Operation) -> OpFuture<'_, OperationResult> {
        let (uid, kind) = match &op {
            Operation::Fetch(r) => (uid_of(&r.url), Kind::Fetch),
            Operation::BindingFetch { binding, request } => (if binding == "assets" { uid_of(&request.url) } else { 0 }, Kind::BindingFetch),
            Operation::BindingWorker { binding, request } => (if binding == "peer" { uid_of(&request.url) } else { 0 }, Kind::Worker),
            Operation::BindingStorage { op: StorageOp::Get { key }, .. } => (uid_of(key), Kind::Storage),
            Operation::BindingKv { op: KvOp::Get { key }, .. } => (uid_of(key), Kind::Kv),
            Operation::BindingDatabase { op: DatabaseOp::Query { sql, .. }, .. } => (uid_of(sql), Kind::Db),
            _ => (0, Kind::Fetch),
        };
        let st = self.st.clone();
        let plan = st.with(|s| {
            *s.calls.entry(uid).or_default() += 1;
            *s.in_flight.entry(uid).or_default() += 1;
            oracle!("P20", s.calls[&uid] == 1, "repeated", "operation {uid} was handed to the host {} times", s.calls[&uid]);
            s.plan.get(&uid).cloned()
        });
        let flight = Flight(uid, st.clone());
        Box::pin(async move {
            let _f = flight;
            let Some(plan) = plan else {
                oracle!("P20", false, "garbled", "the host was handed an operation nobody asked for: {op:?}");
                return OperationResult::Ack;
            };
            oracle!("P20", plan.kind == kind, "garbled", "operation {uid} was a {:?} and reached the host as {kind:?}", plan.kind);
            if plan.hang {
                sim::probe("fault.operation_hangs");
                std::future::pending::<()>().await;
            }
            if plan.thread {
                let (tx, rx) = oneshot::channel();
                let d = plan.delay;
                drop(spawn("host", move || {
                    simstd::thread::sleep(Duration::from_micros(d));
                    let _ = tx.send(());
                }));
                let _ = rx.await;
            } else if plan.delay > 0 {
                tokio::time::sleep(Duration::from_micros(plan.delay)).await;
            }
            slog!("host answers {uid}: {:?}", plan.res);
            let resp = |body| HttpResponse { status: 200 + (uid % 50) as u16, headers: vec![("x-op".into(), uid.to_string())], body };
            match plan.res {
                Res::HttpErr => OperationResult::Http(Err(format!("e{uid}"))),
                Res::Http(Body::None) => OperationResult::Http(Ok(resp(ResponseBody::None))),
                Res::Http(Body::Bytes(n)) => OperationResult::Http(Ok(resp(ResponseBody::Bytes(whole(uid, n))))),
                Res::Http(Body::Stream { chunks, err, stall }) => {
                    let (tx, rx) = mpsc::channel(plan.cap);
                    st.with(|s| s.src.insert(uid, Src::default()));
                    let st2 = st.clone();
                    let src = async move {
                        for n in 0..chunks {
                            nap(plan.pace).await;
                            if tx.send(Ok(chunk(uid, n))).await.is_err() {
                                sim::probe("body.source_told_closed");
                                st2.with(|s| s.src.get_mut(&uid).unwrap().told_closed = true);
                                st2.with(|s| s.src.get_mut(&uid).unwrap().gone = true);
                                return;
                            }
                            st2.with(|s| s.src.get_mut(&uid).unwrap().sent = n + 1);
                        }
                        if stall {
                            sim::probe("fault.body_stalls");
                            tx.closed().await;
                            st2.with(|s| s.src.get_mut(&uid).unwrap().told_closed = true);
                        } else {
                            if err {
                                sim::probe("fault.body_fails");
                                let _ = tx.send(Err(format!("b{uid}"))).await;
                            }
                            st2.with(|s| s.src.get_mut(&uid).unwrap().ended = Some(err));
                        }
                        st2.with(|s| s.src.get_mut(&uid).unwrap().gone = true);
                    };
                    if plan.thread {
                        drop(spawn("source", move || local(src)));
                    } else {
                        tokio::task::spawn(src);
                    }
                    OperationResult::Http(Ok(resp(ResponseBody::Stream(rx))))
                }
                Res::Plain => match plan.kind {
                    Kind::Storage => OperationResult::Storage(StorageResult::Head { size: uid, etag: None }),
                    Kind::Kv => OperationResult::Kv(KvResult::Keys(vec![uid.to_string()])),
                    _ => OperationResult::Database(DatabaseResult::Rows(uid.to_string())),
                },
                Res::PlainErr => match plan.kind {
                    Kind::Storage => OperationResult::Storage(StorageResult::Error(format!("e{uid}"))),
                    Kind::Kv => OperationResult::Kv(KvResult::Error(format!("e{uid}"))),
                    _ => OperationResult::Database(DatabaseResult::Error(format!("e{uid}"))),
                },
                Res::Wrong => match plan.kind {
                    Kind::Storage => OperationResult::Ack,
                    Kind::Kv => OperationResult::Storage(StorageResult::Error("no".into())),
                    _ => OperationResult::Kv(KvResult::Ok),
                },
            }
        })
    }
}
fn request(uid: u64) -> HttpRequest {
    HttpRequest { method: HttpMethod::Get, url: format!("http://host/{uid}"), headers: HashMap::new(), body: RequestBody::None }
}
fn draw_plan(cancel: bool) -> Plan {
    let kind = [Kind::Fetch, Kind::BindingFetch, Kind::Worker, Kind::Storage, Kind::Kv, Kind::Db][sim::draw(6) as usize];
    let http = matches!(kind, Kind::Fetch | Kind::BindingFetch | Kind::Worker);
    let res = match sim::draw(8) {
        0 => Res::Wrong,
        1 => if http { Res::HttpErr } else { Res::PlainErr },
        _ if !http => Res::Plain,
        2 => Res::Http(Body::None),
        3 => Res::Http(Body::Bytes([0, 1, 2, 40, 700_000][sim::draw(5) as usize])),
        _ => Res::Http(Body::Stream { chunks: [0, 2, 6, 24][sim::draw(4) as usize], err: sim::draw_bool(1, 4), stall: cancel && sim::draw_bool(1, 4) }),
    };
    Plan {
        kind,
        res,
        delay: [0, 50, 2000][sim::draw(3) as usize],
        hang: cancel && sim::draw_bool(1, 8),
        thread: sim::draw_bool(1, 4),
        pace: [0, 30, 500][sim::draw(3) as usize],
        cap: sim::draw_range(1, 4) as usize,
    }
}

/// What the script (or the client its response is forwarded to) got of one body.
#[derive(Default, Debug, Clone)]
struct Got {
    uid: u64,
    data: Vec<Bytes>,
    end: Option<Result<(), String>>,
    dropped: bool,
}
impl Got {
    /// (complete, failed)
    fn judge(&self, plan: &Plan, src: Option<&Src>, prop: &str, cancelled: bool) {
        let uid = self.uid;
        let Res::Http(b) = &plan.res else { return };
        let want: Vec<Bytes> = match b {
            Body::None => vec![],
            Body::Bytes(n) => vec![whole(uid, *n)],
            Body::Stream { chunks, .. } => (0..*chunks).map(|n| chunk(uid, n)).collect(),
        };
        // how the body is cut into chunks is nobody's business
        let (data, want) = (self.data.concat(), want.concat());
        if !want.starts_with(&data) && crate::h::is_prop(prop) {
            let cut = |d: &[u8]| String::from_utf8_lossy(&d[..d.len().min(300)]).into_owned();
            sim::fail("body", &format!("body of {uid}: got {} bytes {:?}, the host sent {} bytes {:?}", data.len(), cut(&data), want.len(), cut(&want)));
        }
        if let Some(end) = &self.end {
            let complete = data.len() == want.len();
            let fails = matches!(b, Body::Stream { err: true, stall: false, .. });
            let stalls = matches!(b, Body::Stream { stall: true, .. });
            let ok = match end {
                Ok(()) => complete && !fails && (!stalls) && src.is_none_or(|s| s.ended == Some(false)),
                Err(e) => cancelled || (fails && complete && *e == format!("b{uid}")),
            };
            if !ok && crate::h::is_prop(prop) {
                sim::fail(if matches!(end, Ok(())) { "truncated" } else { "wrong-end" },
                    &format!("body of {uid}: {} of {} bytes arrived, then {end:?}; the host {}", data.len(), want.len(), if fails { "ended it with an error" } else if stalls { "had not ended it" } else { "ended it in order" }));
            }
        }
    }
}

struct Script {
    st: Obs<OS>,
    got: Obs<BTreeMap<u64, Got>>,
    sm: Arc<StreamManager>,
    tx: mpsc::UnboundedSender<M>,
    reads: HashMap<u64, (u64, u64)>, // callback -> (stream, uid)
    next_cb: u64,
    slow: u64,
    drops: bool,
    forwards: bool,
    clients: Vec<tokio::task::JoinHandle<()>>,
}
impl Script {
    fn answer(&self, id: u64, what: &str) -> Option<Plan> {
        self.st.with(|s| {
            let n = s.answers.entry(id).or_default();
            *n += 1;
            oracle!("P20", *n == 1, "twice", "operation {id} was answered {n} times, now with {what}");
            oracle!("P20", s.plan.contains_key(&id), "unknown", "an answer to {id}, which was never asked: {what}");
            oracle!("P21", s.cancelled_at.is_none_or(|c| sim::now() < c + 50 * MS), "late", "operation {id} was answered {} us after its request was over", sim::now() - s.cancelled_at.unwrap_or(0));
            s.plan.get(&id).cloned()
        })
    }
    fn read(&mut self, stream: u64, uid: u64) {
        let cb = self.next_cb;
        self.next_cb += 1;
        self.reads.insert(cb, (stream, uid));
        let _ = self.tx.send(M::StreamRead(cb, stream));
    }
    async fn on(&mut self, m: CallbackMessage) {
        match m {
            CallbackMessage::FetchError(id, e) => {
                let Some(p) = self.answer(id, "an error") else { return };
                let ok = match p.res {
                    Res::HttpErr => e == format!("e{id}"),
                    Res::Wrong => matches!(p.kind, Kind::Fetch | Kind::BindingFetch | Kind::Worker) && !e.is_empty(),
                    _ => false,
                };
                oracle!("P20", ok, "wrong-answer", "operation {id} ({p:?}) failed with {e}");
            }
            CallbackMessage::FetchStreamingSuccess(id, meta, sid) => {
                let Some(p) = self.answer(id, "a response") else { return };
                let Res::Http(b) = &p.res else {
                    oracle!("P20", false, "wrong-answer", "operation {id} ({p:?}) succeeded");
                    return;
                };
                oracle!("P20", meta.status == 200 + (id % 50) as u16 && meta.headers.iter().any(|(n, v)| n == "x-op" && *v == id.to_string()), "wrong-answer", "operation {id} got the response {meta:?}");
                self.got.with(|g| g.insert(id, Got { uid: id, ..Default::default() }));
                let _ = b;
                if self.forwards && sim::choose(2) == 0 {
                    // the body becomes the response body: read by the client
                    let Some(mut rx) = self.sm.take_receiver(sid) else {
                        oracle!("P20", false, "no-body", "operation {id}: its response has no body stream");
                        return;
                    };
                    let (got, slow, sm) = (self.got.clone(), self.slow, self.sm.clone());
                    let _ = sm;
                    self.clients.push(tokio::task::spawn_local(async move {
                        loop {
                            nap(slow).await;
                            let c = rx.recv().await;
                            let end = got.with(|g| {
                                let g = g.get_mut(&id).unwrap();
                                match c {
                                    Some(StreamChunk::Data(b)) => g.data.push(b),
                                    Some(StreamChunk::Done) => g.end = Some(Ok(())),
                                    Some(StreamChunk::Error(e)) => g.end = Some(Err(e)),
                                    None => g.end = Some(Err("gone".into())),
                                }
                                g.end.is_some()
                            });
                            if end {
                                return;
                            }
                        }
                    }));
                } else {
                    self.read(sid, id);
                }
            }
            CallbackMessage::StreamChunk(cb, c) => {
                let Some((stream, uid)) = self.reads.remove(&cb) else {
                    oracle!("P20", false, "twice", "read {cb} was answered twice or never asked");
                    return;
                };
                let more = self.got.with(|g| {
                    let g = g.get_mut(&uid).unwrap();
                    match c {
                        StreamChunk::Data(b) => {
                            g.data.push(b);
                            true
                        }
                        StreamChunk::Done => {
                            g.end = Some(Ok(()));
                            false
                        }
                        StreamChunk::Error(e) => {
                            g.end = Some(Err(e));
                            false
                        }
                    }
                });
                if more {
                    if self.drops && sim::rarely(5) {
                        sim::probe("body.script_cancelled");
                        self.got.with(|g| g.get_mut(&uid).unwrap().dropped = true);
                        let _ = self.tx.send(M::StreamCancel(stream));
                    } else {
                        nap(self.slow).await;
                        self.read(stream, uid);
                    }
                }
            }
            CallbackMessage::StorageResult(id, r) => {
                let Some(p) = self.answer(id, "a storage result") else { return };
                let ok = p.kind == Kind::Storage && match (&p.res, &r) {
                    (Res::Plain, StorageResult::Head { size, .. }) => *size == id,
                    (Res::PlainErr, StorageResult::Error(e)) => *e == format!("e{id}"),
                    (Res::Wrong, StorageResult::Error(_)) => true,
                    _ => false,
                };
                oracle!("P20", ok, "wrong-answer", "operation {id} ({p:?}) got {r:?}");
            }
            CallbackMessage::KvResult(id, r) => {
                let Some(p) = self.answer(id, "a KV result") else { return };
                let ok = p.kind == Kind::Kv && match (&p.res, &r) {
                    (Res::Plain, KvResult::Keys(k)) => *k == [id.to_string()],
                    (Res::PlainErr, KvResult::Error(e)) => *e == format!("e{id}"),
                    (Res::Wrong, KvResult::Error(_)) => true,
                    _ => false,
                };
                oracle!("P20", ok, "wrong-answer", "operation {id} ({p:?}) got {r:?}");
            }
            CallbackMessage::DatabaseResult(id, r) => {
                let Some(p) = self.answer(id, "a database result") else { return };
                let ok = p.kind == Kind::Db && match (&p.res, &r) {
                    (Res::Plain, DatabaseResult::Rows(x)) => *x == id.to_string(),
                    (Res::PlainErr, DatabaseResult::Error(e)) => *e == format!("e{id}"),
                    (Res::Wrong, DatabaseResult::Error(_)) => true,
                    _ => false,
                };
                oracle!("P20", ok, "wrong-answer", "operation {id} ({p:?}) got {r:?}");
            }
            _ => oracle!("P20", false, "foreign", "a callback nobody asked for"),
        }
    }
}

fn ask(tx: &mpsc::UnboundedSender<M>, id: u64, p: &Plan) {
    let key = format!("k/{id}");
    let _ = tx.send(match p.kind {
        Kind::Fetch => M::FetchStreaming(id, request(id)),
        Kind::BindingFetch => M::BindingFetch(id, "assets".into(), request(id)),
        Kind::Worker => M::BindingWorker(id, "peer".into(), request(id)),
        Kind::Storage => M::BindingStorage(id, "b".into(), StorageOp::Get { key }),
        Kind::Kv => M::BindingKv(id, "b".into(), KvOp::Get { key }),
        Kind::Db => M::BindingDatabase(id, "b".into(), DatabaseOp::Query { sql: key, params: vec![] }),
    });
}

/// Every operation is answered once with its own result; bodies arrive whole.
pub fn operations() {
    run_ops(false)
}
/// The request ends (limit, client gone, context dropped) at any moment.
pub fn request_end() {
    run_ops(true)
}
fn run_ops(cancel: bool) {
    let threads = sim::draw_bool(1, 3);
    let n = sim::draw_range(1, 6) as u64;
    let slow = [0, 50, 800][sim::draw(3) as usize];
    let drops = sim::draw_bool(1, 4);
    let forwards = sim::draw_bool(1, 2);
    let when = sim::draw(6000) as u64;
    local(async move {
        let st: Obs<OS> = Obs::default();
        let got: Obs<BTreeMap<u64, Got>> = Obs::default();
        let sm = Arc::new(StreamManager::new());
        let (lp, mut rx) = start(threads, Arc::new(Ops { st: st.clone() }), sm.clone());
        let mut script = Script { st: st.clone(), got: got.clone(), sm: sm.clone(), tx: lp.tx.clone(), reads: HashMap::new(), next_cb: 1000, slow, drops, forwards, clients: vec![] };
        let (stop_tx, mut stop_rx) = oneshot::channel::<()>();
        let consumer = tokio::task::spawn_local(async move {
            loop {
                tokio::select! {
                    biased;
                    _ = &mut stop_rx => break,
                    m = rx.recv() => match m { Some(m) => script.on(m).await, None => break },
                }
            }
            (script.clients, rx)
        });
        for id in 1..=n {
            let p = draw_plan(cancel);
            st.with(|s| s.plan.insert(id, p.clone()));
            slog!("ask {id}: {p:?}");
            ask(&lp.tx, id, &p);
            nap(400).await;
        }
        if cancel {
            tokio::time::sleep(Duration::from_micros(when)).await;
            sim::probe("fault.request_ended");
            slog!("the request ends");
            let _ = stop_tx.send(());
            let Ok((clients, rx)) = consumer.await else { return };
            st.with(|s| s.cancelled_at = Some(sim::now()));
            // as RequestContext goes: callbacks, loop, token, streams
            drop(rx);
            if let Some(h) = &lp.handle {
                h.abort();
            }
            lp.cancel.cancel();
            drop(lp);
            let left = Arc::downgrade(&sm);
            drop(sm);
            sim::calm();
            tokio::time::sleep(Duration::from_millis(60)).await;
            st.with(|s| {
                slog!("in flight: {:?}", s.in_flight);
                for (id, n) in &s.in_flight {
                    oracle!("P21", *n == 0, "in-flight", "operation {id} is still running at the host {} ms after its request was over", (sim::now() - s.cancelled_at.unwrap()) / MS);
                }
                for (id, src) in &s.src {
                    oracle!("P21", src.gone, "source", "the host is still sending the body of {id} {} ms after its request was over ({} chunks)", (sim::now() - s.cancelled_at.unwrap()) / MS, src.sent);
                }
            });
            oracle!("P21", left.strong_count() == 0, "streams-kept", "the streams of a request are still held {} times after it was over", left.strong_count());
            for c in clients {
                oracle!("P21", c.is_finished(), "client-hangs", "a client still waits for its body after the request was over");
            }
            st.with(|s| got.with(|g| {
                for (id, g) in g.iter() {
                    g.judge(&s.plan[id], s.src.get(id), "P21", true);
                }
            }));
        } else {
            sim::calm();
            tokio::time::sleep(Duration::from_millis(300)).await;
            st.with(|s| {
                for (id, p) in &s.plan {
                    oracle!("P20", s.answers.get(id) == Some(&1), "lost", "operation {id} ({p:?}) has not been answered");
                }
                got.with(|g| {
                    for (id, g) in g.iter() {
                        g.judge(&s.plan[id], s.src.get(id), "P20", false);
                        oracle!("P20", g.end.is_some() || g.dropped, "no-end", "the body of {id} has not ended: {} chunks arrived of {:?}", g.data.len(), s.plan[id].res);
                    }
                });
            });
            lp.cancel.cancel();
            consumer.abort();
        }
    });
}

// -------------------------------------------------------------- websockets --
#[derive(Default)]
struct W {
    connects: u32,
    outcome: u32,
    ws: Option<u64>,
    ok: bool,
    accepted: Option<u64>,
    closing: Option<u64>,
    incoming_sent: u32,
    incoming_got: u32,
    out_sent: u32,
    out_got: u32,
    close_got: u32,
    conn_ended: bool,
    peer_left: bool,
    vanished: bool,
    ended: u32,
}
#[derive(Default)]
struct WS {
    s: BTreeMap<u64, W>,
}
struct WsOps {
    st: Obs<WS>,
    plan: BTreeMap<u64, (u32, u64, u32, u64, u32)>, // outcome, delay, incoming, pace, peer: 0 leaves, 1 vanishes, else stays
}
impl OperationsHandler for WsOps {
    fn handle(&self, op: Operation) -> OpFuture<'_, OperationResult> {
        let Operation::WebSocketConnect { url, .. } = op else {
            return Box::pin(async { OperationResult::Ack });
        };
        let uid = uid_of(&url);
        let st = self.st.clone();
        let (outcome, delay, incoming, pace, leaves) = self.plan[&uid];
        st.with(|s| {
            let w = s.s.get_mut(&uid).unwrap();
            w.connects += 1;
            oracle!("P22", w.connects == 1, "reconnect", "socket {uid} was connected {} times", w.connects);
        });
        Box::pin(async move {
            tokio::time::sleep(Duration::from_micros(delay)).await;
            match outcome {
                0 => OperationResult::WebSocket(Err(format!("w{uid}"))),
                1 => OperationResult::Ack,
                _ => {
                    let (send_tx, mut send_rx) = mpsc::unbounded_channel();
                    let (recv_tx, recv_rx) = mpsc::unbounded_channel();
                    let s2 = st.clone();
                    tokio::spawn(async move {
                        while let Some(m) = send_rx.recv().await {
                            slog!("peer {uid} got {m:?}");
                            s2.with(|s| {
                                let w = s.s.get_mut(&uid).unwrap();
                                oracle!("P22", w.close_got == 0, "after-close", "socket {uid}: {m:?} reached the peer after the close");
                                match m {
                                    WebSocketOutgoing::Text(t) => {
                                        oracle!("P22", t == format!("{uid}>{}", w.out_got), "out-order", "socket {uid}: the peer got {t:?} as message {}", w.out_got);
                                        w.out_got += 1;
                                    }
                                    WebSocketOutgoing::Close { code, reason } => {
                                        w.close_got += 1;
                                        oracle!("P22", w.closing.is_some() && code == 4000 + uid as u16 && reason == format!("bye{uid}"), "out-order", "socket {uid}: the peer got close {code} {reason}");
                                    }
                                    o => oracle!("P22", false, "out-order", "socket {uid}: the peer got {o:?}"),
                                }
                            });
                        }
                        s2.with(|s| s.s.get_mut(&uid).unwrap().conn_ended = true);
                    });
                    tokio::spawn(async move {
                        for n in 0..incoming {
                            nap(pace).await;
                            st.with(|s| s.s.get_mut(&uid).unwrap().incoming_sent += 1);
                            let m = if n % 3 == 2 { WebSocketIncoming::Binary(format!("{uid}<{n}").into_bytes()) } else { WebSocketIncoming::Text(format!("{uid}<{n}")) };
                            if recv_tx.send(m).is_err() {
                                return;
                            }
                        }
                        match leaves {
                            0 => {
                                sim::probe("fault.peer_left");
                                st.with(|s| s.s.get_mut(&uid).unwrap().peer_left = true);
                                let _ = recv_tx.send(WebSocketIncoming::Closed { code: 1001, reason: "left".into() });
                                if sim::draw_bool(1, 2) {
                                    // a host may hold on to its end for a while
                                    recv_tx.closed().await;
                                }
                            }
                            1 => {
                                sim::probe("fault.peer_vanished");
                                st.with(|s| {
                                    let w = s.s.get_mut(&uid).unwrap();
                                    w.peer_left = true;
                                    w.vanished = true;
                                });
                            }
                            _ => recv_tx.closed().await,
                        }
                    });
                    OperationResult::WebSocket(Ok(WebSocketConnection { send_tx, recv_rx }))
                }
            }
        })
    }
}
pub fn websocket() {
    let n = sim::draw_range(1, 3) as u64;
    let threads = sim::draw_bool(1, 3);
    let cancel_at = if sim::draw_bool(1, 3) { Some(sim::draw(4000) as u64) } else { None };
    let mut plan = BTreeMap::new();
    let st: Obs<WS> = Obs::default();
    for uid in 1..=n {
        plan.insert(uid, (sim::draw(8), [0, 300][sim::draw(2) as usize], sim::draw(7), [0, 40, 400][sim::draw(3) as usize], sim::draw(6)));
        st.with(|s| s.s.insert(uid, W::default()));
    }
    local(async move {
        let (lp, mut rx) = start(threads, Arc::new(WsOps { st: st.clone(), plan: plan.clone() }), Arc::new(StreamManager::new()));
        let mut scripts = Vec::new();
        let tx = lp.tx.clone();
        let s2 = st.clone();
        let mut connected: HashMap<u64, oneshot::Sender<u64>> = HashMap::new();
        for uid in 1..=n {
            let (ctx, crx) = oneshot::channel();
            connected.insert(uid, ctx);
            let (tx, st) = (tx.clone(), st.clone());
            let nout = sim::draw(6);
            let accept_after = sim::draw_bool(2, 3);
            let closes = sim::draw_bool(1, 2);
            scripts.push(tokio::task::spawn_local(async move {
                nap(200).await;
                let _ = tx.send(M::WebSocketConnect(uid, format!("ws://peer/{uid}"), HashMap::new()));
                let Ok(ws) = crx.await else { return };
                let accept = |st: &Obs<WS>| {
                    st.with(|s| s.s.get_mut(&uid).unwrap().accepted = Some(sim::now()));
                    let _ = tx.send(M::WebSocketAccept(ws));
                };
                if !accept_after {
                    accept(&st);
                }
                for k in 0..nout {
                    nap(200).await;
                    st.with(|s| s.s.get_mut(&uid).unwrap().out_sent += 1);
                    let _ = tx.send(M::WebSocketSend(ws, WebSocketOutgoing::Text(format!("{uid}>{k}"))));
                }
                if accept_after {
                    nap(1500).await;
                    accept(&st);
                }
                if closes {
                    nap(1500).await;
                    sim::probe("ws.script_closed");
                    st.with(|s| s.s.get_mut(&uid).unwrap().closing = Some(sim::now()));
                    let _ = tx.send(M::WebSocketClose(ws, 4000 + uid as u16, format!("bye{uid}")));
                    // and goes on as if nothing had happened
                    let _ = tx.send(M::WebSocketSend(ws, WebSocketOutgoing::Text("late".into())));
                    let _ = tx.send(M::WebSocketClose(ws, 1, "again".into()));
                }
            }));
        }
        let consumer = tokio::task::spawn_local(async move {
            let mut ids: HashMap<u64, u64> = HashMap::new();
            while let Some(m) = rx.recv().await {
                match m {
                    CallbackMessage::WebSocketConnected(uid, ws) => {
                        slog!("socket {uid} connected as {ws}");
                        s2.with(|s| {
                            let w = s.s.get_mut(&uid).unwrap();
                            w.outcome += 1;
                            w.ok = true;
                            w.ws = Some(ws);
                            oracle!("P22", w.outcome == 1 && plan[&uid].0 > 1, "outcome", "socket {uid}: connected, outcome number {}", w.outcome);
                        });
                        oracle!("P22", ids.insert(ws, uid).is_none(), "id", "two sockets share the id {ws}");
                        if let Some(c) = connected.remove(&uid) {
                            let _ = c.send(ws);
                        }
                    }
                    CallbackMessage::WebSocketConnectError(uid, e) => s2.with(|s| {
                        let w = s.s.get_mut(&uid).unwrap();
                        w.outcome += 1;
                        let p = plan[&uid].0;
                        oracle!("P22", w.outcome == 1 && (p == 1 || (p == 0 && e == format!("w{uid}"))), "outcome", "socket {uid}: failed with {e}, outcome number {}", w.outcome);
                    }),
                    CallbackMessage::WebSocketEvent(ws, m) => {
                        let Some(uid) = ids.get(&ws).copied() else {
                            oracle!("P22", false, "id", "an event for the unknown socket {ws}: {m:?}");
                            continue;
                        };
                        s2.with(|s| {
                            let w = s.s.get_mut(&uid).unwrap();
                            slog!("socket {uid} got {m:?}");
                            oracle!("P22", w.accepted.is_some(), "before-accept", "socket {uid}: {m:?} was delivered before accept");
                            oracle!("P22", w.ended == 0, "after-end", "socket {uid}: {m:?} was delivered after its end");
                            if let WebSocketIncoming::Closed { code, reason } = &m {
                                w.ended += 1;
                                let own = w.closing.is_some() && *code == 4000 + uid as u16 && *reason == format!("bye{uid}");
                                let left = w.peer_left && w.incoming_got == plan[&uid].2 && if w.vanished { *code == 1006 } else { *code == 1001 && reason == "left" };
                                oracle!("P22", own || left, "end", "socket {uid} ended with {m:?} after {} messages", w.incoming_got);
                                return;
                            }
                            let want = format!("{uid}<{}", w.incoming_got);
                            let ok = match &m {
                                WebSocketIncoming::Text(t) => *t == want && w.incoming_got % 3 != 2,
                                WebSocketIncoming::Binary(b) => *b == want.as_bytes() && w.incoming_got % 3 == 2,
                                _ => false,
                            };
                            oracle!("P22", ok, "in-order", "socket {uid}: got {m:?} as message {}", w.incoming_got);
                            w.incoming_got += 1;
                        });
                    }
                    _ => oracle!("P22", false, "foreign", "a callback of another kind"),
                }
            }
        });
        if let Some(c) = cancel_at {
            tokio::time::sleep(Duration::from_micros(c)).await;
            sim::probe("fault.request_ended");
            lp.cancel.cancel();
            if let Some(h) = &lp.handle {
                h.abort();
            }
            for s in scripts {
                s.abort();
            }
            drop(tx);
            drop(lp);
            sim::calm();
            tokio::time::sleep(Duration::from_millis(30)).await;
            st.with(|s| {
                for (uid, w) in &s.s {
                    oracle!("P22", !w.ok || w.conn_ended, "left-open", "socket {uid} is still open after its request was over");
                }
            });
            consumer.abort();
            return;
        }
        sim::calm();
        tokio::time::sleep(Duration::from_millis(60)).await;
        st.with(|s| {
            for (uid, w) in &s.s {
                oracle!("P22", w.outcome == 1, "outcome", "socket {uid}: {} connect outcomes", w.outcome);
                if !w.ok {
                    continue;
                }
                let over = w.accepted.is_some() && (w.closing.is_some() || w.peer_left);
                oracle!("P22", w.ended == over as u32, "end", "socket {uid}: the script was told of its end {} times", w.ended);
                if w.closing.is_some() {
                    if !w.peer_left {
                        oracle!("P22", w.close_got == 1, "no-close", "socket {uid}: the script's close did not reach the peer");
                        oracle!("P22", w.out_got == w.out_sent, "out-lost", "socket {uid}: {} of {} messages reached the peer before the close", w.out_got, w.out_sent);
                    }
                    oracle!("P22", w.conn_ended, "left-open", "socket {uid} is still open after the script closed it");
                } else if !w.peer_left {
                    oracle!("P22", w.out_got == w.out_sent, "out-lost", "socket {uid}: {} of {} messages reached the peer", w.out_got, w.out_sent);
                    oracle!("P22", w.accepted.is_none() || w.incoming_got == w.incoming_sent, "in-lost", "socket {uid}: {} of {} messages were delivered", w.incoming_got, w.incoming_sent);
                    oracle!("P22", !w.conn_ended, "dropped", "socket {uid} was closed by nobody");
                } else {
                    oracle!("P22", w.accepted.is_none() || w.incoming_got == w.incoming_sent, "in-lost", "socket {uid}: {} of {} messages were delivered", w.incoming_got, w.incoming_sent);
                    oracle!("P22", w.accepted.is_none() || w.conn_ended, "left-open", "socket {uid} is still open after the peer left");
                }
            }
        });
        lp.cancel.cancel();
        consumer.abort();
    });
}
