//! libc with POSIX CPU-time timers, SIGALRM delivery and the CPU clock simulated.
#![allow(clippy::missing_safety_doc)]
pub use real_libc::*;
use simstd::sim;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};

/// What a simulated signal delivery does: set by the signal facade.
type Handler = Arc<dyn Fn(c_int, usize) + Send + Sync>;

#[derive(Clone, Copy, PartialEq)]
enum Clock {
    Thread(usize),
    Process,
    Wall,
}
struct Timer {
    clock: Clock,
    signo: c_int,
    value: usize,
    interval: u64,
    pending: Arc<Mutex<bool>>,
    /// wall clocks: when it expires, and the event that does it
    wall: Option<(u64, (u64, u64))>,
}
struct State {
    timers: BTreeMap<usize, Timer>,
    next: usize,
    handlers: BTreeMap<c_int, Handler>,
    /// set timers fail from now on (fault injection)
    fail_create: bool,
    fail_settime: bool,
    exp: u64,
}
static ST: Mutex<State> = Mutex::new(State {
    timers: BTreeMap::new(),
    next: 1,
    handlers: BTreeMap::new(),
    fail_create: false,
    fail_settime: false,
    exp: 0,
});

/// Simulator side of this facade (not part of libc).
pub mod simctl {
    use super::*;
    pub fn set_handler(sig: c_int, h: Option<Handler>) {
        let mut s = ST.lock().unwrap();
        match h {
            Some(h) => s.handlers.insert(sig, h),
            None => s.handlers.remove(&sig),
        };
    }
    pub fn has_handler(sig: c_int) -> bool {
        ST.lock().unwrap().handlers.contains_key(&sig)
    }
    /// A process-directed signal carrying `value`.
    pub fn raise(sig: c_int, value: usize) {
        let h = ST.lock().unwrap().handlers.get(&sig).cloned();
        match h {
            Some(h) => {
                sim::probe("signal.delivered");
                h(sig, value)
            }
            None => {
                sim::fail("process-killed", &format!("signal {sig} delivered before a handler was installed: default action ends the process"));
            }
        }
    }
    pub fn live_timers() -> usize {
        ST.lock().unwrap().timers.len()
    }
    pub fn inject(fail_create: bool, fail_settime: bool) {
        let mut s = ST.lock().unwrap();
        s.fail_create = fail_create;
        s.fail_settime = fail_settime;
    }
    pub fn expirations() -> u64 {
        ST.lock().unwrap().exp
    }
}

fn set_errno(e: c_int) {
    unsafe { *real_libc::__errno_location() = e }
}

pub unsafe fn timer_create(clock: clockid_t, sevp: *mut sigevent, timerid: *mut timer_t) -> c_int {
    if !sim::in_sim() {
        return unsafe { real_libc::timer_create(clock, sevp, timerid) };
    }
    let clock = match clock {
        CLOCK_THREAD_CPUTIME_ID => Clock::Thread(sim::tid().unwrap()),
        CLOCK_PROCESS_CPUTIME_ID => Clock::Process,
        _ => Clock::Wall,
    };
    sim::point();
    let mut s = ST.lock().unwrap();
    if s.fail_create {
        drop(s);
        sim::probe("fault.timer_create_failed");
        set_errno(EAGAIN);
        return -1;
    }
    let id = s.next;
    s.next += 1;
    let (signo, value) = unsafe { ((*sevp).sigev_signo, (*sevp).sigev_value.sival_ptr as usize) };
    s.timers.insert(id, Timer { clock, signo, value, interval: 0, pending: Arc::new(Mutex::new(false)), wall: None });
    unsafe { *timerid = id as timer_t };
    0
}

fn expire(id: usize) {
    // Kernel side of an expiry: at most one signal per timer is queued.
    let (signo, value, interval, pending) = {
        let mut s = ST.lock().unwrap();
        s.exp += 1;
        let Some(t) = s.timers.get_mut(&id) else { return };
        t.wall = None;
        (t.signo, t.value, t.interval, t.pending.clone())
    };
    sim::probe("cpu_timer.expired");
    sim::log(|| format!("timer {id} expired (value {value})"));
    if interval > 0 {
        arm(id, interval);
    }
    if std::mem::replace(&mut *pending.lock().unwrap(), true) {
        return;
    }
    let p = pending.clone();
    let deliver = move || {
        if std::mem::replace(&mut *p.lock().unwrap(), false) {
            simctl::raise(signo, value);
        }
    };
    // delivery may lag (another thread has to be interrupted)
    let lag = sim::choose(4) as u64;
    if lag == 0 { deliver() } else { sim::at(sim::now() + lag * lag * 40_000, deliver); }
}
fn disarm(id: usize) {
    let mut s = ST.lock().unwrap();
    if let Some(t) = s.timers.get_mut(&id) {
        if let Some((_, k)) = t.wall.take() {
            sim::cancel(k);
        }
    }
    drop(s);
    sim::cpu_timer_set(id, None, None, Arc::new(|| {}));
}
fn arm(id: usize, after: u64) {
    let clock = ST.lock().unwrap().timers[&id].clock;
    let fire = Arc::new(move || expire(id));
    match clock {
        Clock::Thread(t) => sim::cpu_timer_set(id, Some(t), Some(after), fire),
        Clock::Process => sim::cpu_timer_set(id, None, Some(after), fire),
        Clock::Wall => {
            let t = sim::now() + after;
            let k = sim::at(t, move || expire(id));
            ST.lock().unwrap().timers.get_mut(&id).unwrap().wall = Some((t, k));
        }
    }
}

pub unsafe fn timer_settime(t: timer_t, _flags: c_int, new: *const itimerspec, _old: *mut itimerspec) -> c_int {
    if !sim::in_sim() {
        return unsafe { real_libc::timer_settime(t, _flags, new, _old) };
    }
    sim::point();
    let id = t as usize;
    {
        let s = ST.lock().unwrap();
        if s.fail_settime {
            drop(s);
            sim::probe("fault.timer_settime_failed");
            set_errno(EINVAL);
            return -1;
        }
        if !s.timers.contains_key(&id) {
            drop(s);
            sim::fail("bad-timer", "timer_settime on a deleted timer");
        }
    }
    let (v, i) = unsafe { ((*new).it_value, (*new).it_interval) };
    let ns = |t: timespec| t.tv_sec as u64 * 1_000_000_000 + t.tv_nsec as u64;
    if v.tv_nsec < 0 || v.tv_nsec >= 1_000_000_000 || v.tv_sec < 0 {
        set_errno(EINVAL);
        return -1;
    }
    if !_old.is_null() {
        sim::atomically(|| unsafe { timer_gettime(t, _old) });
    }
    disarm(id);
    ST.lock().unwrap().timers.get_mut(&id).unwrap().interval = ns(i);
    if ns(v) > 0 {
        arm(id, ns(v));
    }
    0
}

pub unsafe fn timer_delete(t: timer_t) -> c_int {
    if !sim::in_sim() {
        return unsafe { real_libc::timer_delete(t) };
    }
    sim::point();
    let id = t as usize;
    disarm(id);
    let t = ST.lock().unwrap().timers.remove(&id);
    match t {
        Some(t) => {
            // a queued signal of a deleted timer may or may not still be delivered
            if *t.pending.lock().unwrap() && sim::choose(2) == 1 {
                *t.pending.lock().unwrap() = false;
            }
            0
        }
        None => sim::fail("bad-timer", "timer_delete on a timer already deleted"),
    }
}

pub unsafe fn timer_gettime(t: timer_t, cur: *mut itimerspec) -> c_int {
    if !sim::in_sim() {
        return unsafe { real_libc::timer_gettime(t, cur) };
    }
    let id = t as usize;
    sim::point();
    let (wall, interval) = {
        let s = ST.lock().unwrap();
        let Some(t) = s.timers.get(&id) else {
            drop(s);
            sim::fail("bad-timer", "timer_gettime on a deleted timer");
        };
        (t.wall.map(|w| w.0.saturating_sub(sim::now()).max(1)), t.interval)
    };
    let left = wall.or_else(|| sim::cpu_timer_remaining(id).map(|n| n.max(1))).unwrap_or(0);
    let ts = |n: u64| timespec { tv_sec: (n / 1_000_000_000) as i64, tv_nsec: (n % 1_000_000_000) as i64 };
    unsafe {
        (*cur).it_value = ts(left);
        (*cur).it_interval = ts(interval);
    }
    0
}

pub unsafe fn clock_gettime(c: clockid_t, ts: *mut timespec) -> c_int {
    if !sim::in_sim() {
        return unsafe { real_libc::clock_gettime(c, ts) };
    }
    sim::point();
    let n = match c {
        CLOCK_THREAD_CPUTIME_ID => sim::thread_cpu(),
        CLOCK_PROCESS_CPUTIME_ID => sim::process_cpu(),
        _ => sim::now(),
    };
    unsafe {
        (*ts).tv_sec = (n / 1_000_000_000) as i64;
        (*ts).tv_nsec = (n % 1_000_000_000) as i64;
    }
    0
}
