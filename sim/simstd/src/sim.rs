//! The simulator: one run is one execution of real OS threads of which exactly
//! one is released at a time. Every decision (who runs next, whether simulated
//! time jumps, every generated operation and fault) is a draw from one of two
//! recorded choice streams, so a run is a pure function of (seed, code) or, when
//! replaying, of (recorded choices, code).

use ::std::boxed::Box;
use ::std::cell::Cell;
use ::std::collections::BTreeMap;
use ::std::string::String;
use ::std::sync::atomic::{AtomicBool, Ordering};
use ::std::sync::{Arc, Condvar, Mutex, MutexGuard};
use ::std::vec::Vec;

/// Simulated nanoseconds since the start of the run.
pub type Nanos = u64;

// ---------------------------------------------------------------- PRNG ----
#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 }
    }
}

// ------------------------------------------------------------- streams ----
/// A choice stream: generated from the PRNG, or replayed (0 past the end).
struct Stream {
    rng: Rng,
    replay: Option<Vec<u32>>,
    pos: usize,
    rec: Vec<u32>,
}
impl Stream {
    fn new(seed: u64, replay: Option<Vec<u32>>) -> Self {
        Stream { rng: Rng::new(seed), replay, pos: 0, rec: Vec::new() }
    }
    fn take(&mut self, n: u32, generate: impl FnOnce(&mut Rng) -> u32) -> u32 {
        let v = match &self.replay {
            Some(r) => {
                let v = r.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                if n == 0 { 0 } else { v % n }
            }
            None => generate(&mut self.rng),
        };
        self.rec.push(v);
        v
    }
}

// --------------------------------------------------------------- world ----
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Runnable,
    Blocked,
    Finished,
}

struct Parker {
    go: Mutex<bool>,
    cv: Condvar,
}
impl Parker {
    fn new() -> Arc<Self> {
        Arc::new(Parker { go: Mutex::new(false), cv: Condvar::new() })
    }
    fn park(&self) {
        let mut g = self.go.lock().unwrap();
        while !*g {
            g = self.cv.wait(g).unwrap();
        }
        *g = false;
    }
    fn unpark(&self) {
        *self.go.lock().unwrap() = true;
        self.cv.notify_one();
    }
}

struct Th {
    name: String,
    status: Status,
    key: usize,
    /// timed event that will wake this thread, if it blocks with a deadline
    deadline: Option<(Nanos, u64)>,
    timed_out: bool,
    parker: Arc<Parker>,
    cpu: Nanos,
    prio: u64,
    last_turn: u64,
}

enum Ev {
    Wake(usize),
    Call(Box<dyn FnOnce() + Send>),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Strategy {
    /// switch with probability 1/n at each point
    Walk(u32),
    /// priority scheduling with random priority changes with probability 1/n
    Pct(u32),
}

#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    pub max_steps: u64,
    pub replay: Option<(Vec<u32>, Vec<u32>)>,
    pub keep_log: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Outcome {
    /// None: the run completed and every oracle held.
    pub violation: Option<(String, String)>,
    pub steps: u64,
    pub switches: u64,
    pub sim_ns: u64,
    pub hash: u64,
    pub probes: BTreeMap<String, u64>,
    pub log: Vec<String>,
    pub plan: Vec<u32>,
    pub sched: Vec<u32>,
}

struct World {
    threads: Vec<Th>,
    current: usize,
    now: Nanos,
    seq: u64,
    events: BTreeMap<(Nanos, u64), Ev>,
    plan: Stream,
    sched: Stream,
    strategy: Strategy,
    /// a timed event may overtake runnable threads with probability 1/n (0 = never)
    stall: u32,
    steps: u64,
    max_steps: u64,
    switches: u64,
    hash: u64,
    probes: BTreeMap<String, u64>,
    log: Vec<String>,
    keep_log: bool,
    violation: Option<(String, String)>,
    over: bool,
    done: Arc<Parker>,
    /// the run's main thread
    in_event: bool,
    cpu_timers: Vec<CpuTimer>,
    cpu_cost: u64,
    /// faults have stopped: the scheduler is fair from here on
    calm: bool,
    turns: u64,
}

struct CpuTimer {
    id: usize,
    /// None: the clock of the whole process
    thread: Option<usize>,
    expires: Nanos,
    fire: Arc<dyn Fn() + Send + Sync>,
}

static WORLD: Mutex<Option<World>> = Mutex::new(None);
static ACTIVE: AtomicBool = AtomicBool::new(false);

::std::thread_local! {
    static TID: Cell<usize> = const { Cell::new(usize::MAX) };
    static NOPOINT: Cell<u32> = const { Cell::new(0) };
}

fn world() -> MutexGuard<'static, Option<World>> {
    match WORLD.lock() {
        Ok(g) => g,
        Err(e) => e.into_inner(),
    }
}

#[inline]
pub fn tid() -> Option<usize> {
    let t = TID.try_with(|t| t.get()).unwrap_or(usize::MAX);
    if t == usize::MAX || !ACTIVE.load(Ordering::Relaxed) { None } else { Some(t) }
}

#[inline]
pub fn in_sim() -> bool {
    tid().is_some()
}

fn fnv(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(17)
}

/// Run `f` as the main thread of a fresh simulated world and wait for its end.
pub fn run(cfg: Config, f: impl FnOnce() + Send + 'static) -> Outcome {
    let done = Parker::new();
    let (rp, rs) = match cfg.replay {
        Some((p, s)) => (Some(p), Some(s)),
        None => (None, None),
    };
    let mut w = World {
        threads: Vec::new(),
        current: 0,
        now: 1_000_000_007,
        seq: 0,
        events: BTreeMap::new(),
        plan: Stream::new(cfg.seed.wrapping_mul(2).wrapping_add(1), rp),
        sched: Stream::new(cfg.seed.wrapping_mul(0x5851_F42D_4C95_7F2D).wrapping_add(77), rs),
        strategy: Strategy::Walk(4),
        stall: 0,
        steps: 0,
        max_steps: cfg.max_steps,
        switches: 0,
        hash: 0xcbf2_9ce4_8422_2325,
        probes: BTreeMap::new(),
        log: Vec::new(),
        keep_log: cfg.keep_log,
        violation: None,
        over: false,
        done: done.clone(),
        in_event: false,
        cpu_timers: Vec::new(),
        cpu_cost: 200,
        calm: false,
        turns: 0,
    };
    // swarm: each run draws its own scheduling strategy
    let s = w.sched.take(6, |r| r.below(6) as u32);
    w.strategy = match s {
        0 => Strategy::Walk(4),
        1 => Strategy::Walk(2),
        2 => Strategy::Walk(12),
        3 => Strategy::Pct(40),
        4 => Strategy::Pct(12),
        _ => Strategy::Walk(1),
    };
    *world() = Some(w);
    ACTIVE.store(true, Ordering::SeqCst);
    let id = new_thread("main");
    let main = ::std::thread::Builder::new()
        .name("sim-main".into())
        .spawn(move || {
            enter_thread(id);
            let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f));
            if let Err(p) = r {
                fail("panic", &::std::format!("main thread panicked: {}", panic_text(&*p)));
            }
            finish_run(None);
        })
        .expect("spawn sim main");
    unpark_thread(id);
    done.park();
    ACTIVE.store(false, Ordering::SeqCst);
    ::std::mem::forget(main);
    let w = world().take().unwrap();
    Outcome {
        violation: w.violation.clone(),
        steps: w.steps,
        switches: w.switches,
        sim_ns: w.now - 1_000_000_007,
        hash: w.hash,
        probes: w.probes.clone(),
        log: w.log.clone(),
        plan: w.plan.rec.clone(),
        sched: {
            let mut v = w.sched.rec.clone();
            while v.last() == Some(&0) {
                v.pop();
            }
            v
        },
    }
}

pub fn panic_text(p: &(dyn ::std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        (*s).into()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}

fn finish_run(v: Option<(String, String)>) -> ! {
    {
        let mut g = world();
        if let Some(w) = g.as_mut() {
            if !w.over {
                w.over = true;
                w.violation = v;
                let d = w.done.clone();
                drop(g);
                d.unpark();
            }
        }
    }
    loop {
        ::std::thread::park();
    }
}

/// Record a violation and stop the run here. Never returns.
pub fn fail(class: &str, msg: &str) -> ! {
    log(|| ::std::format!("VIOLATION {class}: {msg}"));
    finish_run(Some((class.into(), msg.into())))
}

#[macro_export]
macro_rules! sim_check {
    ($cond:expr, $class:expr, $($fmt:tt)*) => {
        if !$cond { $crate::sim::fail($class, &::std::format!($($fmt)*)); }
    };
}

// -------------------------------------------------------- thread hooks ----
pub(crate) fn new_thread(name: &str) -> usize {
    let mut g = world();
    let w = g.as_mut().expect("no world");
    let id = w.threads.len();
    let prio = w.sched.rng.clone().next() ^ (id as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    w.threads.push(Th {
        name: name.into(),
        status: Status::Runnable,
        key: 0,
        deadline: None,
        timed_out: false,
        parker: Parker::new(),
        cpu: 0,
        prio,
        last_turn: 0,
    });
    id
}

fn unpark_thread(id: usize) {
    let p = world().as_ref().unwrap().threads[id].parker.clone();
    p.unpark();
}

/// First thing on a new simulated OS thread: wait to be scheduled.
pub(crate) fn enter_thread(id: usize) {
    TID.with(|t| t.set(id));
    let p = world().as_ref().unwrap().threads[id].parker.clone();
    p.park();
}

/// Last thing on a simulated OS thread.
pub(crate) fn exit_thread(id: usize, join_key: usize) {
    {
        let mut g = world();
        let Some(w) = g.as_mut() else { return };
        w.threads[id].status = Status::Finished;
        w.cpu_timers.retain(|t| t.thread != Some(id));
    }
    wake_all(join_key);
    // give control away for good
    let next = pick(false);
    TID.with(|t| t.set(usize::MAX));
    if let Some(p) = next {
        p.unpark();
    }
}

// ------------------------------------------------------------ choosing ----
/// A schedule / environment choice in 0..n; 0 is the unsurprising one.
pub fn choose(n: u32) -> u32 {
    if n <= 1 || !in_sim() {
        return 0;
    }
    let mut g = world();
    let w = g.as_mut().unwrap();
    let v = w.sched.take(n, |r| r.below(n as u64) as u32);
    w.hash = fnv(w.hash, 0x10_000 + v as u64);
    v
}

/// True with probability 1/n (schedule stream); false is the unsurprising one.
pub fn rarely(n: u32) -> bool {
    if n == 0 || !in_sim() {
        return false;
    }
    let mut g = world();
    let w = g.as_mut().unwrap();
    let v = w.sched.take(2, |r| (r.below(n as u64) == 0) as u32);
    w.hash = fnv(w.hash, 0x20_000 + v as u64);
    v == 1
}

/// A workload draw in 0..n; smaller is simpler.
pub fn draw(n: u32) -> u32 {
    if !in_sim() {
        return 0;
    }
    let mut g = world();
    let w = g.as_mut().unwrap();
    let v = w.plan.take(n, |r| r.below(n as u64) as u32);
    w.hash = fnv(w.hash, 0x30_000 + v as u64);
    v
}

/// Workload draw in lo..=hi.
pub fn draw_range(lo: u32, hi: u32) -> u32 {
    lo + draw(hi - lo + 1)
}

/// Workload coin, true with probability num/den.
pub fn draw_bool(num: u32, den: u32) -> bool {
    if !in_sim() {
        return false;
    }
    let mut g = world();
    let w = g.as_mut().unwrap();
    let v = w.plan.take(2, |r| (r.below(den as u64) < num as u64) as u32);
    w.hash = fnv(w.hash, 0x40_000 + v as u64);
    v == 1
}

/// Let timed events overtake runnable threads (a stalled machine) with
/// probability 1/n at each scheduling point. 0 switches it off.
pub fn set_stall(n: u32) {
    if let Some(w) = world().as_mut() {
        w.stall = n;
    }
}

/// Faults stop: from here on every runnable thread gets its turn in order.
pub fn calm() {
    if let Some(w) = world().as_mut() {
        w.calm = true;
        w.stall = 0;
    }
}

/// CPU time charged to the running thread at each scheduling point.
pub fn set_cpu_cost(ns: u64) {
    if let Some(w) = world().as_mut() {
        w.cpu_cost = ns;
    }
}

pub fn set_max_steps(n: u64) {
    if let Some(w) = world().as_mut() {
        w.max_steps = n;
    }
}

pub fn probe(name: &str) {
    if let Some(w) = world().as_mut() {
        *w.probes.entry(name.into()).or_insert(0) += 1;
    }
}

pub fn log(f: impl FnOnce() -> String) {
    let mut g = world();
    let Some(w) = g.as_mut() else { return };
    if w.keep_log && w.log.len() < 20_000 {
        let (now, step) = (w.now, w.steps);
        let name = if w.in_event { String::from("env") } else {
            match TID.with(|t| t.get()) { usize::MAX => String::from("-"), t => ::std::format!("{}#{}", w.threads[t].name, t) }
        };
        let s = f();
        w.log.push(::std::format!("[{:>12.6}ms step {} {}] {}", now as f64 / 1e6, step, name, s));
    }
}

/// Mix a value into the run's fingerprint (used to count distinct behaviours
/// and to prove determinism).
pub fn note(v: u64) {
    if let Some(w) = world().as_mut() {
        w.hash = fnv(w.hash, v);
    }
}

pub fn now() -> Nanos {
    world().as_ref().map(|w| w.now).unwrap_or(0)
}

pub fn steps() -> u64 {
    world().as_ref().map(|w| w.steps).unwrap_or(0)
}

// ---------------------------------------------------------- scheduling ----
enum Next {
    Stay,
    Go(Arc<Parker>),
}

/// Decide who runs next. `runnable`: the calling thread may continue.
fn decide(runnable: bool) -> Next {
    loop {
        let mut g = world();
        let Some(w) = g.as_mut() else {
            drop(g);
            loop { ::std::thread::park(); }
        };
        if w.over {
            drop(g);
            loop {
                ::std::thread::park();
            }
        }
        w.steps += 1;
        if w.steps > w.max_steps {
            let d = dump(w);
            drop(g);
            fail("no-progress", &::std::format!("step limit reached without completing\n{d}"));
        }
        if let Some(&k) = w.events.keys().next() {
            if k.0 <= w.now {
                fire(g, k);
                continue;
            }
        }
        let me = w.current;
        let mut cand: Vec<usize> = Vec::new();
        if runnable && w.threads[me].status == Status::Runnable {
            cand.push(me);
        }
        for (i, t) in w.threads.iter().enumerate() {
            if i != me && t.status == Status::Runnable {
                cand.push(i);
            }
        }
        if !runnable && w.threads[me].status == Status::Runnable && !cand.contains(&me) {
            // woken between blocking and deciding
            cand.insert(0, me);
        }
        if cand.is_empty() {
            // nobody can run: time passes
            if let Some((&k, _)) = w.events.iter().next() {
                fire(g, k);
                continue;
            }
            let d = dump(w);
            drop(g);
            fail("deadlock", &::std::format!("no thread can run and nothing is scheduled\n{d}"));
        }
        if w.calm {
            // the thread that has waited longest
            let t = *cand.iter().min_by_key(|&&i| w.threads[i].last_turn).unwrap();
            w.turns += 1;
            w.threads[t].last_turn = w.turns;
            if t == me {
                return Next::Stay;
            }
            w.switches += 1;
            w.current = t;
            return Next::Go(w.threads[t].parker.clone());
        }
        let can_stall = w.stall > 0 && !w.events.is_empty();
        let n = cand.len() as u32 + can_stall as u32;
        let v = if n <= 1 {
            0
        } else {
            let strategy = w.strategy;
            let stall = w.stall;
            let nc = cand.len() as u32;
            let cont = runnable && cand[0] == me;
            // PCT decides by priority
            let by_prio = (0..cand.len()).max_by_key(|&i| w.threads[cand[i]].prio).unwrap() as u32;
            let mut reprio = None;
            let v = w.sched.take(n, |r| {
                if can_stall && r.below(stall as u64) == 0 {
                    return nc;
                }
                match strategy {
                    Strategy::Walk(k) => {
                        if cont && nc > 1 && r.below(k as u64 + 1) != 0 && k > 1 {
                            0
                        } else {
                            r.below(nc as u64) as u32
                        }
                    }
                    Strategy::Pct(k) => {
                        if r.below(k as u64) == 0 {
                            reprio = Some(r.next() >> 1);
                        }
                        by_prio
                    }
                }
            });
            if let Some(p) = reprio {
                if (v as usize) < cand.len() {
                    let t = cand[v as usize];
                    w.threads[t].prio = p;
                }
            }
            v
        };
        if v as usize == cand.len() {
            let k = *w.events.keys().next().unwrap();
            *w.probes.entry("env.stall".into()).or_insert(0) += 1;
            w.hash = fnv(w.hash, 0x50_000);
            fire(g, k);
            continue;
        }
        let t = cand[v as usize];
        if n > 1 {
            w.hash = fnv(w.hash, 0x60_000 + t as u64);
        }
        if t == me {
            return Next::Stay;
        }
        w.switches += 1;
        w.current = t;
        return Next::Go(w.threads[t].parker.clone());
    }
}

/// Fire the timed event `k` (advancing the clock to it).
fn fire(mut g: MutexGuard<'static, Option<World>>, k: (Nanos, u64)) {
    let w = g.as_mut().unwrap();
    let ev = w.events.remove(&k).unwrap();
    if k.0 > w.now {
        w.now = k.0;
    }
    match ev {
        Ev::Wake(t) => {
            let th = &mut w.threads[t];
            if th.status == Status::Blocked && th.deadline == Some(k) {
                th.status = Status::Runnable;
                th.deadline = None;
                th.timed_out = true;
            }
        }
        Ev::Call(f) => {
            let prev = w.in_event;
            w.in_event = true;
            drop(g);
            NOPOINT.with(|n| n.set(n.get() + 1));
            f();
            NOPOINT.with(|n| n.set(n.get() - 1));
            if let Some(w) = world().as_mut() {
                w.in_event = prev;
            }
        }
    }
}

fn dump(w: &World) -> String {
    let mut s = String::new();
    for (i, t) in w.threads.iter().enumerate() {
        s.push_str(&::std::format!("  thread {i} {}: {:?}\n", t.name, t.status));
    }
    s
}

fn pick(runnable: bool) -> Option<Arc<Parker>> {
    match decide(runnable) {
        Next::Stay => None,
        Next::Go(p) => Some(p),
    }
}

fn switch(runnable: bool) {
    let me = TID.with(|t| t.get());
    if let Some(p) = pick(runnable) {
        let mine = world().as_ref().unwrap().threads[me].parker.clone();
        p.unpark();
        mine.park();
    }
}

/// A scheduling point: another thread may run here.
pub fn point() {
    if !in_sim() || NOPOINT.with(|n| n.get()) > 0 {
        return;
    }
    let c = world().as_ref().map(|w| w.cpu_cost).unwrap_or(0);
    charge(c, false);
    switch(true);
}

/// Run `f` with no scheduling points inside (used by facades around real
/// library code that holds real locks).
pub fn atomically<R>(f: impl FnOnce() -> R) -> R {
    NOPOINT.with(|n| n.set(n.get() + 1));
    struct G;
    impl Drop for G {
        fn drop(&mut self) {
            NOPOINT.with(|n| n.set(n.get() - 1));
        }
    }
    let _g = G;
    f()
}

/// Block until `wake_*(key)` or the deadline. Returns true if the deadline hit.
pub fn block(key: usize, deadline: Option<Nanos>) -> bool {
    let me = tid().expect("block outside the simulator");
    {
        let mut g = world();
        let w = g.as_mut().unwrap();
        let seq = w.seq;
        w.seq += 1;
        let th = &mut w.threads[me];
        th.status = Status::Blocked;
        th.key = key;
        th.timed_out = false;
        th.deadline = None;
        if let Some(d) = deadline {
            let k = (d.max(w.now), seq);
            th.deadline = Some(k);
            w.events.insert(k, Ev::Wake(me));
        }
    }
    switch(false);
    let mut g = world();
    let w = g.as_mut().unwrap();
    w.threads[me].timed_out
}

fn wake_where(key: usize, max: usize) {
    let mut g = world();
    let Some(w) = g.as_mut() else { return };
    let mut blocked: Vec<usize> = (0..w.threads.len())
        .filter(|&i| w.threads[i].status == Status::Blocked && w.threads[i].key == key)
        .collect();
    let mut n = 0;
    while n < max && !blocked.is_empty() {
        let i = if blocked.len() > 1 && max < blocked.len() {
            let k = blocked.len() as u32;
            w.sched.take(k, |r| r.below(k as u64) as u32) as usize
        } else {
            0
        };
        let t = blocked.remove(i);
        let th = &mut w.threads[t];
        th.status = Status::Runnable;
        if let Some(k) = th.deadline.take() {
            w.events.remove(&k);
        }
        n += 1;
    }
}

pub fn wake_all(key: usize) {
    wake_where(key, usize::MAX)
}
pub fn wake_one(key: usize) {
    wake_where(key, 1)
}

/// Schedule an environment event. It runs outside any simulated thread.
pub fn at(t: Nanos, f: impl FnOnce() + Send + 'static) -> (Nanos, u64) {
    let mut g = world();
    let w = g.as_mut().expect("at outside the simulator");
    let k = (t.max(w.now), w.seq);
    w.seq += 1;
    w.events.insert(k, Ev::Call(Box::new(f)));
    k
}

pub fn cancel(k: (Nanos, u64)) {
    let ev = world().as_mut().and_then(|w| w.events.remove(&k));
    drop(ev);
}

pub fn fresh_key() -> usize {
    let mut g = world();
    match g.as_mut() {
        Some(w) => {
            w.seq += 1;
            (1usize << 62) + w.seq as usize
        }
        None => 0,
    }
}

pub fn sleep_until(t: Nanos) {
    if !in_sim() {
        return;
    }
    let k = fresh_key();
    while now() < t {
        block(k, Some(t));
    }
}

pub fn sleep(d: Nanos) {
    sleep_until(now().saturating_add(d))
}

// ---------------------------------------------------------------- CPU -----
/// Charge CPU time to the running thread; wall time advances with it.
fn charge(ns: u64, timed: bool) {
    let Some(me) = tid() else { return };
    let mut fired: Vec<Arc<dyn Fn() + Send + Sync>> = Vec::new();
    {
        let mut g = world();
        let Some(w) = g.as_mut() else { return };
        w.threads[me].cpu += ns;
        if timed || ns > 0 {
            w.now += ns;
        }
        let mut i = 0;
        while i < w.cpu_timers.len() {
            let t = &w.cpu_timers[i];
            if t.thread.is_none_or(|t| t == me) && t.expires <= w.cpu_of(t.thread) {
                fired.push(w.cpu_timers.remove(i).fire);
            } else {
                i += 1;
            }
        }
    }
    for f in fired {
        NOPOINT.with(|n| n.set(n.get() + 1));
        f();
        NOPOINT.with(|n| n.set(n.get() - 1));
    }
}

/// Busy computation: consume `total` CPU nanoseconds in slices, with a
/// scheduling point between slices; stops early when `stop()` says so.
pub fn burn(total: Nanos, slice: Nanos, mut stop: impl FnMut() -> bool) -> bool {
    let mut left = total;
    while left > 0 {
        if stop() {
            return true;
        }
        let s = left.min(slice.max(1));
        charge(s, true);
        left -= s;
        run_due();
        point();
    }
    stop()
}

/// Fire every timed event that is already due.
fn run_due() {
    loop {
        let g = world();
        let Some(w) = g.as_ref() else { return };
        match w.events.keys().next() {
            Some(&k) if k.0 <= w.now => {
                if w.over { return; }
                fire(g, k)
            }
            _ => return,
        }
    }
}

/// Timed events that are still to come.
pub fn pending() -> usize {
    world().as_ref().map_or(0, |w| w.events.len())
}

/// No other thread could run now.
pub fn alone() -> bool {
    let me = TID.with(|t| t.get());
    world().as_ref().is_none_or(|w| w.threads.iter().enumerate().all(|(i, t)| i == me || t.status != Status::Runnable))
}

pub fn thread_cpu() -> Nanos {
    let Some(me) = tid() else { return 0 };
    world().as_ref().unwrap().threads[me].cpu
}

impl World {
    fn cpu_of(&self, thread: Option<usize>) -> Nanos {
        match thread {
            Some(t) => self.threads[t].cpu,
            None => self.threads.iter().map(|t| t.cpu).sum(),
        }
    }
}
pub fn process_cpu() -> Nanos {
    world().as_ref().map(|w| w.cpu_of(None)).unwrap_or(0)
}

/// A one-shot timer on a thread's CPU clock (None: the process's).
pub fn cpu_timer_set(id: usize, thread: Option<usize>, after: Option<Nanos>, fire: Arc<dyn Fn() + Send + Sync>) {
    let mut g = world();
    let Some(w) = g.as_mut() else { return };
    w.cpu_timers.retain(|t| t.id != id);
    if let Some(a) = after {
        if thread.is_none_or(|t| w.threads[t].status != Status::Finished) {
            let expires = w.cpu_of(thread) + a;
            w.cpu_timers.push(CpuTimer { id, thread, expires, fire });
        }
    }
}
pub fn cpu_timer_remaining(id: usize) -> Option<Nanos> {
    let g = world();
    let w = g.as_ref()?;
    let t = w.cpu_timers.iter().find(|t| t.id == id)?;
    Some(t.expires.saturating_sub(w.cpu_of(t.thread)))
}
