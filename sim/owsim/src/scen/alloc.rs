//! The real ArrayBuffer allocator called through the table V8 would use, from
//! several threads at once.
use crate::fakev8::{self, RustAlloc};
use crate::h::*;
use simstd::sim;
use simstd::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use sut::security::CustomAllocator;

#[derive(Clone, Copy)]
struct Blk {
    p: usize,
    n: usize,
    call: usize,
    fill: u8,
}
#[derive(Clone, Copy, Debug)]
struct Call {
    start: u64,
    end: u64,
    n: usize,
    ok: bool,
    free_end: u64,
}
#[derive(Default)]
struct St {
    clock: u64,
    live: usize,
    calls: Vec<Call>,
    blocks: Vec<Blk>,
    denied: u32,
}

fn workload(max: usize, alloc: RustAlloc, flag: Arc<AtomicBool>, usage: impl Fn() -> Option<usize>, free_all: bool) {
    let st = Obs::new(St::default());
    let n_thr = sim::draw_range(1, 4);
    let sizes = [1usize, max / 4, max / 3, max / 2 + 1, max / 2, max - 1, max, max + 1, max * 2, 0, usize::MAX, usize::MAX - max / 2, 1 << 62];
    let hs: Vec<_> = (0..n_thr)
        .map(|_| {
            let extreme = sim::draw_bool(1, 6);
            let plan: Vec<(u32, usize)> = (0..sim::draw_range(1, 9)).map(|_| (sim::draw(8), sizes[sim::draw(if extreme { 13 } else { 10 }) as usize])).collect();
            let st = st.clone();
            let flag = flag.clone();
            spawn("script", move || {
                for (op, n) in plan {
                    if op < 3 {
                        free_one(&st, alloc, None);
                        continue;
                    }
                    let (call, start) = st.with(|s| {
                        s.clock += 1;
                        let start = s.clock;
                        s.calls.push(Call { start, end: u64::MAX, n, ok: false, free_end: u64::MAX });
                        (s.calls.len() - 1, start)
                    });
                    let uninit = op == 7;
                    let p = if uninit { alloc.allocate_uninit(n) } else { alloc.allocate(n) };
                    slog!("allocate({n}) = {}", if p.is_null() { "denied" } else { "ok" });
                    sim::note(0x15_000 + p.is_null() as u64);
                    st.with(|s| {
                        s.clock += 1;
                        let end = s.clock;
                        let c = &mut s.calls[call];
                        c.end = end;
                        c.ok = !p.is_null();
                        if p.is_null() {
                            s.denied += 1;
                            sim::probe("fault.allocation_denied");
                        } else {
                            s.live = s.live.saturating_add(n);
                            oracle!("P11", s.live <= max, "limit", "{} bytes handed out, limit {max}", s.live);
                        }
                    });
                    let _ = start;
                    if p.is_null() {
                        oracle!("P12", flag.load(Ordering::SeqCst), "flag", "an allocation of {n} bytes was denied and the memory-limit flag is not set");
                        continue;
                    }
                    if n == 0 {
                        st.with(|s| s.blocks.push(Blk { p: p as usize, n, call, fill: 0 }));
                        continue;
                    }
                    if n > max {
                        continue; // reported above, not touched
                    }
                    let mem = unsafe { std::slice::from_raw_parts_mut(p, n) };
                    oracle!("P11", uninit || mem.iter().all(|b| *b == 0), "dirty", "memory handed to a script is not zeroed");
                    let fill = 1 + (call % 250) as u8;
                    mem.fill(fill);
                    st.with(|s| s.blocks.push(Blk { p: p as usize, n, call, fill }));
                }
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            sim::fail("panic", "a thread panicked");
        }
    }
    if let Some(u) = usage() {
        let live = st.with(|s| s.live);
        oracle!("P11", u == live, "count", "{live} bytes are in use and {u} are counted");
    }
    st.with(|s| {
        // a denial is justified if the bytes that may have been in use at some
        // moment of the call leave no room
        for c in s.calls.iter().filter(|c| !c.ok) {
            let possible: u128 = s.calls.iter().filter(|o| o.ok && o.start < c.end && o.free_end > c.start).map(|o| o.n as u128).sum();
            oracle!("P12", possible + c.n as u128 > max as u128, "unjustified",
                "an allocation of {} bytes was denied although at most {possible} of {max} bytes were in use during the call", c.n);
        }
        oracle!("P12", s.denied > 0 || !flag.load(Ordering::SeqCst), "flag", "no allocation was denied and the memory-limit flag is set");
    });
    // everything that was freed is available again
    if free_all {
        while free_one(&st, alloc, Some(0)) {}
        if let Some(u) = usage() {
            oracle!("P11", u == 0, "count", "everything was freed and {u} bytes are counted");
        }
        let p = alloc.allocate(max);
        oracle!("P12", !p.is_null(), "unjustified", "nothing is in use and an allocation of the whole limit ({max} bytes) was denied");
        if !p.is_null() {
            let q = alloc.allocate(1);
            oracle!("P11", q.is_null(), "limit", "one byte beyond the limit was handed out");
            alloc.free(p, max);
        }
    }
}
fn free_one(st: &Obs<St>, alloc: RustAlloc, which: Option<u32>) -> bool {
    let b = st.with(|s| {
        if s.blocks.is_empty() {
            return None;
        }
        let i = which.unwrap_or_else(|| sim::choose(s.blocks.len() as u32)) as usize;
        let b = s.blocks.swap_remove(i);
        // counted as free from the start of the call: the limit check must
        // never see more than the script could observe
        s.live -= b.n;
        Some(b)
    });
    let Some(b) = b else { return false };
    if b.n > 0 {
        let mem = unsafe { std::slice::from_raw_parts(b.p as *const u8, b.n) };
        oracle!("P11", mem.iter().all(|x| *x == b.fill), "overlap", "memory handed to a script was changed by somebody else");
    }
    slog!("free({})", b.n);
    alloc.free(b.p as *mut u8, b.n);
    st.with(|s| {
        s.clock += 1;
        let c = s.clock;
        s.calls[b.call].free_end = c;
    });
    true
}

pub fn direct() {
    let max = [12usize, 100, 4096][sim::draw(3) as usize];
    let flag = Arc::new(AtomicBool::new(false));
    let a = CustomAllocator::new(max, flag.clone());
    let keep = a.clone();
    let ra = fakev8::rust_alloc(a.into_v8_allocator());
    workload(max, ra, flag, || Some(keep.current_usage()), true);
    ra.release();
    oracle!("P11", Arc::strong_count(&keep) == 1, "leak", "the allocator is still referenced after its isolate released it");
}

/// Two isolates made by the real code: separate budgets, separate flags.
pub fn isolates() {
    let limits = openworkers_core::RuntimeLimits { heap_max_mb: 1, heap_initial_mb: 1, ..Default::default() };
    let max = 1 << 20;
    let a = Box::new(sut::LockerManagedIsolate::new(limits.clone()));
    let b = Box::new(sut::LockerManagedIsolate::new(limits));
    let (fa, fb) = (fakev8::of(&a.isolate), fakev8::of(&b.isolate));
    let Some(aa) = fa.get(|s| s.alloc) else {
        oracle!("P11", false, "no-limit", "an isolate was created without the limiting allocator");
        return;
    };
    let ab = fb.get(|s| s.alloc).unwrap();
    // the neighbour fills its own budget
    let full = sim::draw_bool(1, 2);
    let p = if full { ab.allocate(max) } else { std::ptr::null_mut() };
    workload(max, aa, a.memory_limit_hit.clone(), || None, true);
    oracle!("P12", !b.memory_limit_hit.load(Ordering::SeqCst), "wrong-isolate", "the neighbour's memory-limit flag was set");
    if full {
        oracle!("P12", !p.is_null(), "unjustified", "the neighbour could not use its own budget");
        ab.free(p, max);
    }
    // the heap-limit callback of one isolate
    let cur = (1 << 20) * (1 + sim::draw(64) as usize);
    let hits = sim::draw_range(1, 4);
    let before = a.memory_limit_hit.load(Ordering::SeqCst);
    let _ = before;
    let mut c = cur;
    for k in 0..hits {
        let cb = fa.near_heap_limit(c);
        let Some(r) = cb else {
            oracle!("P17", false, "no-callback", "an isolate has no near-heap-limit callback");
            break;
        };
        sim::probe("fault.heap_limit");
        oracle!("P17", r > c, "no-room", "call {k}: asked at {c} bytes, the new limit is {r}: V8 would abort the process");
        oracle!("P17", a.memory_limit_hit(), "flag", "the heap limit was reached and the memory-limit flag is not set");
        oracle!("P17", fa.get(|s| s.terminations.len()) == k as usize + 1, "not-terminated", "the heap limit was reached {} times, the script was terminated {} times", k + 1, fa.get(|s| s.terminations.len()));
        oracle!("P17", fb.get(|s| s.terminations.is_empty()), "wrong-isolate", "the neighbour was terminated");
        oracle!("P17", !b.memory_limit_hit(), "wrong-isolate", "the neighbour's memory-limit flag was set");
        c = r;
    }
    drop(a);
    drop(b);
}

/// The heap limit reached by scripts on several isolates at once, with isolates
/// coming and going.
pub fn heap_limit() {
    let n = sim::draw_range(1, 3);
    let hs: Vec<_> = (0..n)
        .map(|_| {
            let rounds = sim::draw_range(1, 3);
            let limit_mb = sim::draw_range(1, 64) as usize;
            let hit = sim::draw_bool(2, 3);
            spawn("script", move || {
                for _ in 0..rounds {
                    let limits = openworkers_core::RuntimeLimits { heap_max_mb: limit_mb, heap_initial_mb: 1, ..Default::default() };
                    let mut l = Box::new(sut::LockerManagedIsolate::new(limits));
                    let f = fakev8::of(&l.isolate);
                    oracle!("P17", f.get(|s| s.heap_max) == limit_mb << 20, "config", "the heap limit is {} bytes, configured {limit_mb} MB", f.get(|s| s.heap_max));
                    {
                        let _lock = l.lock();
                        let mut heap = 0usize;
                        let mut limit = limit_mb << 20;
                        let want = if hit { usize::MAX } else { limit / 2 };
                        let mut steps = 0;
                        // a script that allocates until it is stopped
                        while heap < want && !f.get(|s| s.terminating) {
                            heap += (limit_mb << 20) / 4;
                            if heap >= limit {
                                sim::probe("fault.heap_limit");
                                let Some(r) = f.near_heap_limit(limit) else {
                                    oracle!("P17", false, "no-callback", "an isolate has no near-heap-limit callback");
                                    return;
                                };
                                oracle!("P17", r > limit, "no-room", "asked at {limit} bytes, the new limit is {r}: V8 would abort the process");
                                oracle!("P17", r <= limit + (16 << 20), "too-much", "a script at its limit of {limit} bytes was given {r}");
                                limit = r;
                            }
                            sim::point();
                            steps += 1;
                            oracle!("P17", steps < 50, "not-terminated", "a script goes on past its heap limit");
                            if steps >= 50 {
                                break;
                            }
                        }
                    }
                    let flag = std::sync::atomic::AtomicBool::new(l.memory_limit_hit());
                    let got = flag.load(std::sync::atomic::Ordering::SeqCst);
                    oracle!("P17", got == hit, "flag", "heap limit reached: {hit}, memory-limit flag: {got}");
                    oracle!("P17", f.get(|s| s.terminating) == hit, "not-terminated", "heap limit reached: {hit}, terminated: {}", f.get(|s| s.terminating));
                    sim::point();
                    drop(l);
                }
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            sim::fail("panic", "a thread panicked");
        }
    }
}
