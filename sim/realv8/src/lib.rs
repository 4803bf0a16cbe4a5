//! The real V8 (the one inside the installed node), with its lock and clock
//! under the simulator: waiting for an isolate's lock is a scheduling point,
//! and terminations are recorded.
use simstd::sim;
use std::collections::HashMap;
use std::sync::Mutex;

#[derive(Default)]
struct Iso {
    owner: Option<usize>,
    depth: u32,
    key: usize,
    terminations: Vec<u64>,
}
static ISOS: Mutex<Option<HashMap<usize, Iso>>> = Mutex::new(None);
fn with<R>(p: usize, f: impl FnOnce(&mut Iso) -> R) -> R {
    let mut g = ISOS.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(HashMap::new).entry(p).or_insert_with(|| Iso { key: sim::fresh_key(), ..Default::default() }))
}
fn me() -> usize {
    unsafe { libc::pthread_self() as usize }
}
unsafe extern "C" {
    fn ow_real_locker_construct(buf: *mut usize, isolate: *mut u8);
    fn ow_real_locker_destruct(buf: *mut usize);
}
/// How often a termination was asked of any isolate so far.
pub fn terminations() -> usize {
    let g = ISOS.lock().unwrap_or_else(|e| e.into_inner());
    g.as_ref().map_or(0, |m| m.values().map(|i| i.terminations.len()).sum())
}
pub fn anchor() {}
unsafe extern "C" {
    fn v8__Isolate__GetCurrent() -> *mut u8;
}
/// The isolate whose JavaScript is on the stack: a number that no other
/// isolate of the run ever has.
pub fn current_isolate() -> usize {
    with(unsafe { v8__Isolate__GetCurrent() } as usize, |i| i.key)
}
/// Isolates that exist.
pub fn live_isolates() -> usize {
    let g = ISOS.lock().unwrap_or_else(|e| e.into_inner());
    g.as_ref().map_or(0, |m| m.len())
}
#[unsafe(no_mangle)]
extern "C" fn ow_sim_disposed(p: *mut u8) {
    let mut g = ISOS.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(m) = g.as_mut() {
        m.remove(&(p as usize));
    }
}
#[unsafe(no_mangle)]
extern "C" fn ow_sim_created(p: *mut u8) {
    with(p as usize, |_| ());
}

/// A script that keeps the microtask queue busy uses up time like any other.
thread_local!(static SPIN: std::cell::Cell<(u64, u32)> = const { std::cell::Cell::new((0, 0)) });
static SPUN: Mutex<Option<fn(u64)>> = Mutex::new(None);
/// To be told of the time that is used up that way.
pub fn on_spin(f: fn(u64)) {
    *SPUN.lock().unwrap_or_else(|e| e.into_inner()) = Some(f);
}
#[unsafe(no_mangle)]
extern "C" fn ow_sim_promise() {
    const MS: u64 = 1_000_000;
    const MANY: u32 = 20_000;
    SPIN.with(|c| {
        let (since, n) = c.get();
        let now = sim::now();
        if now > since + MS {
            return c.set((now, 0));
        }
        c.set((since, n + 1));
        if n < MANY {
            return;
        }
        let told = *SPUN.lock().unwrap_or_else(|e| e.into_inner());
        if let Some(f) = told {
            f(MS);
        }
        sim::probe("v8.microtasks_spin");
        sim::burn(MS, 200_000, || false);
        c.set((sim::now(), MANY - 500));
    })
}
#[unsafe(no_mangle)]
extern "C" fn ow_sim_now() -> u64 {
    sim::now()
}
#[unsafe(no_mangle)]
extern "C" fn ow_sim_terminate(p: *mut u8) {
    with(p as usize, |i| i.terminations.push(sim::now()));
    sim::note(0x7e47_0000);
    sim::log(|| "V8: execution terminated".to_string());
    sim::probe("v8.terminated");
}
#[unsafe(no_mangle)]
extern "C" fn v8__Locker__CONSTRUCT(buf: *mut usize, p: *mut u8) {
    sim::point();
    let m = me();
    loop {
        let (got, key) = with(p as usize, |i| {
            let ok = i.owner.is_none() || i.owner == Some(m);
            if ok {
                i.owner = Some(m);
                i.depth += 1;
            }
            (ok, i.key)
        });
        if got {
            break;
        }
        sim::probe("v8.lock_contended");
        sim::block(key, None);
    }
    unsafe { ow_real_locker_construct(buf, p) }
}
#[unsafe(no_mangle)]
extern "C" fn v8__Locker__DESTRUCT(buf: *mut usize) {
    // v8::Locker { bool has_lock; bool top_level; Isolate* }
    let p = unsafe { *buf.add(1) };
    unsafe { ow_real_locker_destruct(buf) };
    let key = with(p, |i| {
        i.depth -= 1;
        if i.depth == 0 {
            i.owner = None;
        }
        i.key
    });
    sim::wake_all(key);
    sim::point();
}
