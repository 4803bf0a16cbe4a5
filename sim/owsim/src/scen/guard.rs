//! Wall-clock and CPU-time limits: the real TimeoutGuard and CpuEnforcer on
//! simulated clocks, threads, CPU timers and signals, over modelled isolates.
use crate::fakev8::{self, FakeIsolate};
use crate::h::*;
use simstd::sim;
use std::sync::Arc;
use std::sync::atomic::{AtomicUsize, Ordering};
use sut::security::{CpuEnforcer, TimeoutGuard};

/// Scheduling points a watchdog or signal thread may take to get its turn.
const SLACK: u32 = 200;

fn terms(f: &FakeIsolate) -> usize {
    f.get(|s| s.terminations.len())
}

/// What a script does between two moments at which it can be stopped.
#[derive(Clone, Copy, Debug)]
enum Act {
    Burn(u64),
    Wait(u64),
}
/// A script: goes through `acts` in slices until it is stopped or done.
fn script(f: &FakeIsolate, acts: &[Act], slice: u64) -> bool {
    for a in acts {
        match *a {
            Act::Burn(n) => {
                if sim::burn(n, slice, || f.get(|s| s.terminating)) {
                    return true;
                }
            }
            Act::Wait(n) => sim::sleep(n),
        }
        if f.get(|s| s.terminating) {
            return true;
        }
    }
    f.get(|s| s.terminating)
}
fn plan(t: u64, rel: u32) -> Vec<Act> {
    // total length relative to the limit: clearly below, just around, above
    let total = match rel {
        0 => t / 2,
        1 => t - t / 50,
        2 => t + t / 50,
        _ => t * 2,
    };
    let parts = sim::draw_range(1, 4) as u64;
    (0..parts)
        .map(|i| {
            let d = if i == parts - 1 { total - total / parts * (parts - 1) } else { total / parts };
            if sim::draw_bool(1, 3) { Act::Wait(d) } else { Act::Burn(d) }
        })
        .collect()
}

/// Requests one after the other on several isolates at once, each under its own
/// wall-clock limit.
pub fn timeout() {
    let n_thr = sim::draw_range(1, 3);
    let stall = sim::draw_bool(1, 3);
    if stall {
        sim::set_stall(20);
    }
    let alone = n_thr == 1 && !stall;
    let hs: Vec<_> = (0..n_thr)
        .map(|_| {
            let rounds: Vec<(u64, u32, Vec<Act>, u32, u64)> = (0..sim::draw_range(1, 3))
                .map(|_| {
                    let ms = [20u64, 1, 5, 50, 1000, 30_000, 0][sim::draw(7) as usize];
                    let rel = sim::draw(4);
                    let t = if ms == 0 { 100 * MS } else { ms * MS };
                    (ms, rel, plan(t, rel), sim::draw(5), sim::draw(3) as u64)
                })
                .collect();
            spawn("request", move || {
                let (iso, f) = fakev8::plain_isolate();
                let mut iso = Some(iso);
                for (ms, _rel, acts, end, gap) in rounds {
                    let Some(handle) = iso.as_mut().map(fakev8::handle) else { break };
                    let t = ms * MS;
                    f.get(|s| {
                        s.terminating = false;
                        s.terminations.clear();
                    });
                    let begun = sim::now();
                    let guard = TimeoutGuard::new(handle, ms);
                    if end == 0 {
                        // the watchdog gets a first turn; only then is its
                        // clock known to run
                        sim::sleep(10 * US);
                    }
                    let made = sim::now();
                    oracle!("P13", !guard.was_triggered() || ms > 0, "early", "a new guard without a limit reports a timeout");
                    let stopped = script(f, &acts, (t / 40).max(20 * US));
                    let end_t = sim::now();
                    slog!("script over: stopped {stopped}, {} of {} us", (end_t - begun) / US, t / US);
                    if stopped {
                        sim::probe("fault.wall_limit_reached");
                        oracle!("P13", ms > 0, "early", "a script without a limit was stopped");
                        oracle!("P13", guard.was_triggered(), "unreported", "the script was stopped and the guard reports no timeout");
                    }
                    let when = f.get(|s| s.terminations.first().map(|x| x.0));
                    if let Some(w) = when {
                        oracle!("P13", ms > 0 && w >= begun + t, "early", "stopped {} us after it began, the limit is {} us", (w - begun) / US, t / US);
                    }
                    // keep going past the limit: it must be stopped before long
                    if !stopped && end == 0 && ms > 0 {
                        let mut late = 0;
                        sim::calm();
                        while !f.get(|s| s.terminating) {
                            if sim::now() < made + t {
                                sim::burn(t / 8 + US, t / 8 + US, || false);
                                continue;
                            }
                            late += 1;
                            oracle!("P13", late < SLACK, "not-stopped", "{} us after the start the script still runs, the limit is {} us", (sim::now() - begun) / US, t / US);
                            if late >= SLACK {
                                break;
                            }
                            // (a pause lets every other runnable thread go first)
                            // The watchdog's clock starts when the watchdog first
                            // runs: with other busy threads that may be late.
                            sim::sleep(if alone { 10 * US } else { (t / 20).max(10 * US) });
                        }
                        oracle!("P13", guard.was_triggered(), "unreported", "the script was stopped and the guard reports no timeout");
                    }
                    if end == 1 {
                        // the isolate goes away while the guard still exists
                        sim::probe("guard.isolate_disposed_first");
                        drop(iso.take());
                        if gap > 0 {
                            sim::sleep(t + MS);
                        }
                    }
                    let trig = guard.was_triggered();
                    let (d0, s0) = (sim::now(), sim::steps());
                    drop(guard);
                    let took = sim::now() - d0;
                    let _ = s0;
                    if alone && !trig && t > 0 {
                        oracle!("P14", took < t / 8, "slow-drop", "dropping the guard took {} us of the remaining limit of {} us", took / US, t / US);
                    }
                    let n = terms(f);
                    if let (Some(w), true) = (f.get(|s| s.terminations.first().map(|x| x.0)), ms > 0) {
                        oracle!("P13", w >= begun + t, "early", "stopped {} us after it began, the limit is {} us", (w - begun) / US, t / US);
                    }
                    oracle!("P13", n <= 1, "repeated", "one guard stopped the script {n} times");
                    oracle!("P13", ms > 0 || n == 0, "early", "a script without a limit was stopped");
                    f.get(|s| s.terminating = false);
                    // the next request on this isolate, without a guard
                    sim::sleep(gap * gap * t);
                    for _ in 0..sim::choose(6) {
                        sim::point();
                    }
                    oracle!("P14", terms(f) == n, "stopped-later", "the isolate was stopped after its guard was gone");
                }
                sim::sleep(100 * MS);
                oracle!("P14", !f.get(|s| s.terminating), "stopped-later", "the isolate was stopped after its guard was gone");
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            sim::fail("panic", "a request thread panicked");
        }
    }
}

/// Requests on several threads, each under its own CPU limit.
pub fn cpu() {
    sim::set_cpu_cost(200);
    // most runs crowd several limits into the same moment
    let n_thr = if sim::draw_bool(1, 2) { sim::draw_range(1, 3) } else { sim::draw_range(4, 9) };
    let crowd = n_thr > 3;
    if sim::draw_bool(1, 3) {
        sim::set_stall(20);
    }
    let ready = Arc::new(AtomicUsize::new(0));
    let live = Arc::new(AtomicUsize::new(0));
    let hs: Vec<_> = (0..n_thr)
        .map(|_| {
            let rounds: Vec<(u64, Vec<Act>, u32, u32)> = (0..if crowd { 1 } else { sim::draw_range(1, 3) })
                .map(|_| {
                    let ms = if crowd { 20 } else { [20u64, 1, 5, 100, 2000, 0][sim::draw(6) as usize] };
                    let t = if ms == 0 { 100 * MS } else { ms * MS };
                    let rel = sim::draw(4);
                    (ms, plan(t, rel), sim::draw(6), sim::draw(8))
                })
                .collect();
            let (ready, live) = (ready.clone(), live.clone());
            spawn("request", move || {
                let (iso, f) = fakev8::plain_isolate();
                let mut iso = Some(iso);
                for (ms, acts, end, fault) in rounds {
                    let Some(handle) = iso.as_mut().map(fakev8::handle) else { break };
                    let t = ms * MS;
                    f.get(|s| {
                        s.terminating = false;
                        s.terminations.clear();
                    });
                    if !crowd && n_thr == 1 {
                        sim_libc::simctl::inject(fault == 0, fault == 1);
                    }
                    let begun = sim::thread_cpu();
                    let cpu = CpuEnforcer::new(handle, ms);
                    let made = sim::thread_cpu();
                    if !crowd && n_thr == 1 {
                        sim_libc::simctl::inject(false, false);
                    }
                    let failed = n_thr == 1 && fault <= 1;
                    oracle!("P15", cpu.is_some() == (ms > 0 && !failed), "no-enforcer", "limit {ms} ms, system call failed: {failed}: enforcer {}", cpu.is_some());
                    let Some(cpu) = cpu else {
                        if n_thr == 1 {
                            oracle!("P16", sim_libc::simctl::live_timers() == 0, "timer-leak", "an enforcer that was not made left its timer behind");
                        }
                        sim::burn(200 * MS, 20 * MS, || false);
                        oracle!("P15", terms(f) == 0, "early", "a script without a limit was stopped");
                        continue;
                    };
                    live.fetch_add(1, Ordering::SeqCst);
                    let slice = (t / 50).max(20 * US);
                    let mut stopped = false;
                    if crowd {
                        // everybody just below the limit, then all over it
                        stopped = sim::burn(t - 2 * MS, slice, || f.get(|s| s.terminating));
                        ready.fetch_add(1, Ordering::SeqCst);
                        while ready.load(Ordering::SeqCst) < n_thr as usize {
                            sim::sleep(100 * US);
                        }
                        sim::probe("cpu.crowd");
                        if !stopped {
                            stopped = sim::burn(3 * MS, 3 * MS, || false);
                            stopped |= f.get(|s| s.terminating);
                        }
                    } else {
                        stopped |= script(f, &acts, slice);
                    }
                    let used = sim::thread_cpu() - begun;
                    slog!("script over: stopped {stopped}, {} of {} us CPU", used / US, t / US);
                    if stopped {
                        sim::probe("fault.cpu_limit_reached");
                        oracle!("P15", used >= t, "early", "stopped after {} us of CPU, the limit is {} us", used / US, t / US);
                        oracle!("P15", cpu.was_terminated(), "unreported", "the script was stopped and the enforcer does not report it");
                    } else if crowd || end == 0 {
                        // never waits again: must be stopped before long
                        let mut late = 0;
                        sim::calm();
                        while !f.get(|s| s.terminating) {
                            if sim::thread_cpu() < made + t {
                                sim::burn(t / 8 + US, t / 8 + US, || false);
                                continue;
                            }
                            late += 1;
                            oracle!("P15", late < SLACK, "not-stopped", "after {} us of CPU the script still runs, the limit is {} us", (sim::thread_cpu() - begun) / US, t / US);
                            if late >= SLACK {
                                break;
                            }
                            sim::burn(50 * US, 50 * US, || false);
                            // (a pause lets every other runnable thread go first)
                            sim::sleep(10 * US);
                        }
                        let used = sim::thread_cpu() - begun;
                        oracle!("P15", used >= t, "early", "stopped after {} us of CPU, the limit is {} us", used / US, t / US);
                        oracle!("P15", cpu.was_terminated(), "unreported", "the script was stopped and the enforcer does not report it");
                    } else if end == 1 {
                        // waiting is not computing
                        sim::sleep(t * 20);
                        let u2 = sim::thread_cpu() - begun;
                        oracle!("P15", u2 >= t || !f.get(|s| s.terminating), "early", "stopped after {} us of CPU, the limit is {} us", u2 / US, t / US);
                    } else if end == 2 {
                        sim::probe("guard.isolate_disposed_first");
                        drop(iso.take());
                        sim::burn(2 * t, t / 4, || false);
                    }
                    let rep = cpu.was_terminated();
                    oracle!("P15", !rep || sim::thread_cpu() - begun >= t, "early", "reports a stop after {} us of CPU, the limit is {} us", (sim::thread_cpu() - begun) / US, t / US);
                    drop(cpu);
                    live.fetch_sub(1, Ordering::SeqCst);
                    let n = terms(f);
                    oracle!("P15", n <= 1, "repeated", "one limit stopped the script {n} times");
                    f.get(|s| s.terminating = false);
                    // the next request on this isolate and thread
                    sim::burn(sim::choose(3) as u64 * t, t / 2, || false);
                    for _ in 0..sim::choose(8) {
                        sim::point();
                    }
                    oracle!("P16", terms(f) == n, "stopped-later", "the isolate was stopped after its enforcer was gone");
                }
                sim::sleep(100 * MS);
                oracle!("P16", !f.get(|s| s.terminating), "stopped-later", "the isolate was stopped after its enforcer was gone");
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            sim::fail("panic", "a request thread panicked");
        }
    }
    oracle!("P16", sim_libc::simctl::live_timers() == 0, "timer-leak", "{} CPU timers are left although every enforcer is gone", sim_libc::simctl::live_timers());
}

/// One enforcer reused for several requests with fresh budgets.
pub fn reset() {
    sim::set_cpu_cost(200);
    let n_thr = sim::draw_range(1, 3);
    let hs: Vec<_> = (0..n_thr)
        .map(|_| {
            let first = [20u64, 5, 100][sim::draw(3) as usize];
            let rounds: Vec<(u64, u32, u32)> = (0..sim::draw_range(1, 4)).map(|_| ([20u64, 5, 100, 500, 0][sim::draw(5) as usize], sim::draw(5), sim::draw(3))).collect();
            let early = sim::draw_bool(1, 6);
            spawn("request", move || {
                let (mut iso, f) = fakev8::plain_isolate();
                let Some(cpu) = CpuEnforcer::new(fakev8::handle(&mut iso), first) else {
                    oracle!("P15", false, "no-enforcer", "no enforcer was made");
                    return;
                };
                // the budget before the first reset
                let before = if early { first / 2 } else { first };
                sim::burn(before * MS + MS / 4, MS, || false);
                for (ms, len, then) in rounds {
                    for _ in 0..sim::choose(5) {
                        sim::point();
                    }
                    let t = ms * MS;
                    let start = sim::thread_cpu();
                    if cpu.reset(ms).is_err() {
                        oracle!("P16", false, "reset-failed", "reset failed without a failing system call");
                        return;
                    }
                    // the request begins: as the caller clears a previous stop
                    f.get(|s| {
                        s.terminating = false;
                        s.terminations.clear();
                    });
                    sim::probe("cpu.reset");
                    let want = if ms == 0 { 50 * MS } else { match len { 0 => t / 4, 1 => t / 2, 2 => t - t / 10, _ => t * 3 } };
                    let stopped = sim::burn(want, (if ms == 0 { 5 * MS } else { t / 20 }).max(20 * US), || f.get(|s| s.terminating));
                    let used = sim::thread_cpu() - start;
                    oracle!("P16", !stopped || (ms > 0 && used >= t), "old-budget", "stopped {} us of CPU after a reset to {} us", used / US, t / US);
                    oracle!("P16", !cpu.was_terminated() || (ms > 0 && used >= t), "old-budget", "reports a stop {} us of CPU after a reset to {} us", used / US, t / US);
                    oracle!("P15", !stopped || cpu.was_terminated(), "unreported", "the script was stopped and the enforcer does not report it");
                    if !stopped && ms > 0 && len > 2 {
                        let mut late = 0;
                        sim::calm();
                        while !f.get(|s| s.terminating) {
                            late += 1;
                            oracle!("P15", late < SLACK, "not-stopped", "{} us of CPU after a reset to {} us the script still runs", (sim::thread_cpu() - start) / US, t / US);
                            if late >= SLACK {
                                break;
                            }
                            sim::burn(50 * US, 50 * US, || false);
                            // (a pause lets every other runnable thread go first)
                            sim::sleep(10 * US);
                        }
                    }
                    if then == 1 {
                        sim::sleep(50 * MS);
                    } else if then == 2 && ms > 0 {
                        // end exactly as the budget runs out
                        let left = (start + t).saturating_sub(sim::thread_cpu());
                        sim::burn(left + 2 * US, left + 2 * US, || false);
                    }
                }
                drop(cpu);
                let n = terms(f);
                sim::sleep(20 * MS);
                oracle!("P16", terms(f) == n, "stopped-later", "the isolate was stopped after its enforcer was gone");
                drop(iso);
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            sim::fail("panic", "a request thread panicked");
        }
    }
}
