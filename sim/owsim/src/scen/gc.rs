//! External-memory accounting and deferred handle destruction on the real
//! LockerManagedIsolate, JsLock, ExternalMemoryGuard, Tracked and
//! DeferredDestructionQueue, over modelled isolates.
use crate::fakev8::{self, FakeIsolate};
use crate::h::*;
use openworkers_core::RuntimeLimits;
use simstd::sim;
use std::sync::Arc;
use std::sync::atomic::{AtomicI64, Ordering};
use sut::LockerManagedIsolate;
use sut::gc::{DeferredDestructionQueue, ExternalMemoryGuard, JsLock, Tracked};

/// An isolate reached by pointer from several threads, as requests do.
#[derive(Clone, Copy)]
struct Iso(*mut LockerManagedIsolate, &'static FakeIsolate);
unsafe impl Send for Iso {}
unsafe impl Sync for Iso {}
impl Iso {
    fn new() -> Self {
        let b = Box::new(LockerManagedIsolate::new(RuntimeLimits::default()));
        let f = fakev8::of(&b.isolate);
        Iso(Box::into_raw(b), f)
    }
    fn locked<R>(&self, f: impl FnOnce(&mut v8::Isolate) -> R) -> R {
        let (mut locker, _js) = unsafe { (*self.0).lock() };
        f(&mut locker)
    }
    fn pending(&self) -> i64 {
        unsafe { (*self.0).pending_memory_delta.clone().load(std::sync::atomic::Ordering::SeqCst) }
    }
    fn external(&self) -> i64 {
        self.1.get(|s| s.external)
    }
    fn queue(&self) -> Arc<DeferredDestructionQueue> {
        unsafe { (*self.0).deferred_destruction_queue.clone() }
    }
    fn dispose(self) {
        drop(unsafe { Box::from_raw(self.0) });
    }
}

enum Held {
    Guard(ExternalMemoryGuard),
    Tracked(Tracked<Vec<u8>>),
}
struct G {
    held: Held,
    /// the isolate the memory is reported to, once there is one
    owner: Option<usize>,
    amount: i64,
    id: u32,
}
impl G {
    /// Model: the first lock this guard is used under names its isolate.
    fn settle(&mut self, cur: Option<usize>, changed: bool) {
        if self.owner.is_none() && changed {
            self.owner = cur;
        }
    }
}

/// Guards created, resized, moved between threads and dropped, with and without
/// locks, under locks of other isolates, nested.
pub fn external() {
    let n_iso = sim::draw_range(1, 3) as usize;
    let n_thr = sim::draw_range(1, 3);
    let single = n_thr == 1;
    let isos: Vec<Iso> = (0..n_iso).map(|_| Iso::new()).collect();
    let isos = Arc::new(isos);
    let pool: Obs<Vec<G>> = Obs::new(Vec::new());
    let model: Arc<Vec<AtomicI64>> = Arc::new((0..n_iso).map(|_| AtomicI64::new(0)).collect());
    let next: Obs<u32> = Obs::new(0);
    let hs: Vec<_> = (0..n_thr)
        .map(|_| {
            let nops = sim::draw_range(3, 24);
            let ops: Vec<(u32, u32, u32, u32)> = (0..nops).map(|_| (sim::draw(10), sim::draw(4), sim::draw(n_iso as u32), sim::draw(n_iso as u32))).collect();
            let (isos, pool, model, next) = (isos.clone(), pool.clone(), model.clone(), next.clone());
            spawn("worker", move || {
                for (op, mode, a, b) in ops {
                    let cell = (pool.clone(), model.clone(), next.clone());
                    let act = move |cur: Option<usize>| one_op(op, cur, &cell.0, &cell.1, &cell.2);
                    let (a, b) = (a as usize, b as usize);
                    match mode {
                        0 => act(None),
                        1 | 2 => isos[a].locked(|_| {
                            if single {
                                balanced(&isos[a], a, &model, "just locked");
                            }
                            oracle!("P09", JsLock::try_current().is_some(), "no-current", "no isolate is current under a lock");
                            act(Some(a))
                        }),
                        _ => {
                            if n_thr > 1 && a == b {
                                isos[a].locked(|_| act(Some(a)));
                                continue;
                            }
                            // locks are nested in index order so that the
                            // scenario itself cannot deadlock
                            let (x, y) = (a.min(b), a.max(b));
                            isos[x].locked(|_| {
                                isos[y].locked(|_| {
                                    sim::probe("gc.nested_lock");
                                    act.clone()(Some(y))
                                });
                                // the outer lock is current again
                                act(Some(x))
                            })
                        }
                    }
                    oracle!("P09", JsLock::try_current().is_none(), "stale-current", "an isolate is still current after its lock was released");
                    if single {
                        for (i, iso) in isos.iter().enumerate() {
                            settled(iso, i, &model, "between operations");
                        }
                    }
                }
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            sim::fail("panic", "a worker thread panicked");
        }
    }
    for (i, iso) in isos.iter().enumerate() {
        settled(iso, i, &model, "after all threads finished");
        iso.locked(|_| balanced(iso, i, &model, "after all threads finished"));
    }
    // drop what is left, some under a lock and some not
    let rest = pool.with(std::mem::take);
    for g in rest {
        let m = sim::draw(2 + n_iso as u32) as usize;
        if let Some(o) = g.owner {
            model[o].fetch_sub(g.amount, Ordering::SeqCst);
        }
        slog!("guard {} of isolate {:?} ({} bytes) dropped at the end, mode {m}", g.id, g.owner, g.amount);
        if m < n_iso {
            isos[m].locked(|_| drop(g.held));
        } else {
            drop(g.held);
        }
    }
    for (i, iso) in isos.iter().enumerate() {
        iso.locked(|_| {});
        oracle!("P09", iso.external() == 0 && iso.pending() == 0, "unbalanced-at-end",
            "every guard is gone and isolate {i} is still charged {} bytes ({} pending)", iso.external(), iso.pending());
    }
    for iso in isos.iter() {
        iso.dispose();
    }
}
fn settled(iso: &Iso, i: usize, model: &[AtomicI64], when: &str) {
    let m = model[i].load(Ordering::SeqCst);
    oracle!("P09", iso.external() + iso.pending() == m, "unbalanced",
        "{when}: guards of isolate {i} hold {m} bytes, it was told {} and {} are pending", iso.external(), iso.pending());
}
fn balanced(iso: &Iso, i: usize, model: &[AtomicI64], when: &str) {
    let m = model[i].load(Ordering::SeqCst);
    oracle!("P09", iso.external() == m && iso.pending() == 0, "not-applied",
        "{when}: guards of isolate {i} hold {m} bytes, it was told {} ({} still pending)", iso.external(), iso.pending());
}
fn one_op(op: u32, cur: Option<usize>, pool: &Obs<Vec<G>>, model: &Arc<Vec<AtomicI64>>, next: &Obs<u32>) {
    let take = |k: u32| pool.with(|p| if p.is_empty() { None } else { let i = k as usize % p.len(); Some(p.swap_remove(i)) });
    let add = |o: Option<usize>, d: i64| {
        if let Some(o) = o {
            model[o].fetch_add(d, Ordering::SeqCst);
        }
    };
    let size = 1 + sim::choose(5) as i64 * 1000;
    match op {
        0..=2 => {
            let id = next.with(|n| {
                *n += 1;
                *n
            });
            let size = if sim::rarely(4) { 0 } else { size };
            let (held, amount) = match op {
                0 => (Held::Guard(ExternalMemoryGuard::new(size)), size),
                1 => (Held::Tracked(Tracked::new(Vec::with_capacity(size as usize))), size),
                _ => (Held::Guard(ExternalMemoryGuard::empty()), 0),
            };
            add(cur, amount);
            slog!("guard {id} ({amount} bytes) created under {cur:?}");
            pool.with(|p| p.push(G { held, owner: cur, amount, id }));
        }
        3..=6 => {
            let Some(mut g) = take(sim::choose(8)) else { return };
            let was = g.owner;
            let new = match op {
                3 => g.amount + size,
                4 => (g.amount - size).max(0),
                5 => size * 2,
                _ => g.amount,
            };
            let d = new - g.amount;
            match &mut g.held {
                Held::Guard(x) => {
                    if op == 5 {
                        x.set(new)
                    } else {
                        x.adjust(d)
                    }
                    oracle!("P09", x.amount() == new, "amount", "guard {} should track {new} bytes and tracks {}", g.id, x.amount());
                }
                Held::Tracked(t) => {
                    let v = t.get_mut();
                    if d >= 0 {
                        *v = Vec::with_capacity(new as usize);
                    } else {
                        *v = Vec::with_capacity(new as usize);
                    }
                    t.update_size();
                }
            }
            g.amount = new;
            g.settle(cur, d != 0);
            if was.is_none() {
                add(g.owner, new)
            } else {
                add(was, d)
            }
            slog!("guard {} of {:?} set to {new} under {cur:?}", g.id, g.owner);
            if was.is_some() && cur.is_some() && was != cur {
                sim::probe("gc.adjusted_under_other_isolate");
            }
            if was.is_some() && cur.is_none() {
                sim::probe("gc.adjusted_without_lock");
            }
            pool.with(|p| p.push(g));
        }
        _ => {
            let Some(g) = take(sim::choose(8)) else { return };
            add(g.owner, -g.amount);
            slog!("guard {} of {:?} ({} bytes) dropped under {cur:?}", g.id, g.owner, g.amount);
            match (g.owner, cur) {
                (Some(o), Some(c)) if o != c => sim::probe("gc.dropped_under_other_isolate"),
                (Some(_), None) => sim::probe("gc.dropped_without_lock"),
                (None, Some(_)) => sim::probe("gc.unowned_dropped_under_lock"),
                _ => {}
            }
            match g.held {
                Held::Guard(x) => drop(x),
                Held::Tracked(t) => {
                    if op == 7 {
                        drop(t.into_inner())
                    } else {
                        drop(t)
                    }
                }
            }
        }
    }
}

/// Persistent handles released from any thread while another uses the isolate.
pub fn deferred() {
    let n_iso = sim::draw_range(1, 2) as usize;
    let isos: Arc<Vec<Iso>> = Arc::new((0..n_iso).map(|_| Iso::new()).collect());
    let n_thr = sim::draw_range(1, 3);
    let n_use = sim::draw_range(1, 2);
    let mut hs = Vec::new();
    let offered: Arc<Vec<AtomicI64>> = Arc::new((0..n_iso).map(|_| AtomicI64::new(0)).collect());
    for _ in 0..n_thr {
        let plan: Vec<(u32, u32)> = (0..sim::draw_range(1, 6)).map(|_| (sim::draw(n_iso as u32), sim::draw(4))).collect();
        let (isos, offered) = (isos.clone(), offered.clone());
        hs.push(spawn("dropper", move || {
            for (i, how) in plan {
                let i = i as usize;
                let iso = isos[i];
                // made under the lock, given up without it
                let (g, id) = iso.locked(|l| {
                    if how == 3 {
                        // given up under the lock of its own isolate, too
                        let (g, _) = fakev8::new_global(l);
                        offered[i].fetch_add(1, Ordering::SeqCst);
                        iso.queue().defer(g);
                    }
                    fakev8::new_global(l)
                });
                for _ in 0..sim::choose(3) {
                    sim::point();
                }
                let q = iso.queue();
                offered[i].fetch_add(1, Ordering::SeqCst);
                slog!("handle {id} of isolate {i} given up");
                q.defer(g);
                let n = q.len();
                oracle!("P10", n <= offered[i].load(Ordering::SeqCst) as u64, "count", "isolate {i}: {n} handles reported pending, {} ever given up", offered[i].load(Ordering::SeqCst));
            }
        }));
    }
    for _ in 0..n_use {
        let rounds = sim::draw_range(1, 5);
        let (isos, offered) = (isos.clone(), offered.clone());
        hs.push(spawn("user", move || {
            for r in 0..rounds {
                let i = (r as usize) % isos.len();
                isos[i].locked(|_| {
                    sim::probe("gc.locked_with_queue");
                    let n = isos[i].queue().len();
                    oracle!("P10", n <= offered[i].load(Ordering::SeqCst) as u64, "count", "isolate {i}: {n} handles reported pending, {} ever given up", offered[i].load(Ordering::SeqCst));
                });
                for _ in 0..sim::choose(4) {
                    sim::point();
                }
            }
        }));
    }
    for h in hs {
        if h.join().is_err() {
            sim::fail("panic", "a thread panicked");
        }
    }
    let leave = sim::draw_bool(1, 4);
    for (i, iso) in isos.iter().enumerate() {
        let q = iso.queue();
        let (live, dead) = iso.1.get(|s| (s.live_handles.len() as u64, s.destroyed_handles));
        oracle!("P10", q.len() == live, "count", "isolate {i}: {live} handles wait for destruction, {} are reported", q.len());
        oracle!("P10", q.has_pending() == (live > 0) && q.is_empty() == (live == 0), "count", "isolate {i}: {live} handles wait, has_pending {} is_empty {}", q.has_pending(), q.is_empty());
        if leave {
            // the isolate goes away with handles still queued
            sim::probe("gc.disposed_with_pending");
            iso.dispose();
            drop(q);
            continue;
        }
        iso.locked(|_| {});
        let (live2, dead2) = iso.1.get(|s| (s.live_handles.len() as u64, s.destroyed_handles));
        oracle!("P10", live2 == 0, "leaked", "isolate {i}: {live2} handles given up before the lock was taken are still alive after it");
        oracle!("P10", dead2 == dead + live, "leaked", "isolate {i}: {} handles destroyed, {live} were waiting", dead2 - dead);
        oracle!("P10", q.len() == 0 && q.is_empty() && !q.has_pending(), "count", "isolate {i}: nothing waits and {} are reported", q.len());
        iso.dispose();
    }
}
