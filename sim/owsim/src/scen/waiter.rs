//! Requests sharing one isolate, taking turns through the real AsyncWaiter in
//! the way the execution context does: take the turn at the start of a poll,
//! give it back at the end of the same poll, keep a wake-up source of their own.
use crate::h::*;
use simstd::sim;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use sut::async_waiter::{AsyncWaiter, TurnWait};

#[derive(Default)]
struct St {
    holder: Option<u32>,
    /// waiting requests: id -> (registered since last acquire, woken since)
    waiting: BTreeMap<u32, W>,
    clock: u64,
    turns: u64,
    order: Vec<u32>,
}
#[derive(Clone, Copy, Debug)]
struct W {
    since: u64,
    /// the last time it had to go (back) into the queue after being woken
    fresh: u64,
    woken: bool,
}

/// Bookkeeping around try_lock/unlock.
struct Req {
    id: u32,
    st: Obs<St>,
    tap: Arc<TapWaker>,
    waker: Waker,
}
impl Req {
    fn new(id: u32, st: &Obs<St>) -> Self {
        let s2 = st.clone();
        let tap = Arc::new(TapWaker {
            on_wake: Box::new(move || {
                s2.with(|s| {
                    slog!("request {id} woken");
                    sim::note(0x11_000 + id as u64);
                    let ws = s.waiting.get(&id).copied();
                    let others: Vec<(u32, W)> = s.waiting.iter().filter(|(k, w)| **k != id && !w.woken).map(|(k, w)| (*k, *w)).collect();
                    match ws {
                        None => sim::probe("waiter.woken_without_need"),
                        Some(w) => {
                            if let Some(o) = others.iter().find(|o| o.1.fresh < w.since) {
                                oracle!("P03", false, "order",
                                    "request {id} (waiting since step {}) was woken before request {} (waiting since step {})", w.since, o.0, o.1.fresh);
                            }
                            s.waiting.get_mut(&id).unwrap().woken = true;
                        }
                    }
                });
            }),
            inner: Mutex::new(None),
        });
        let waker = Waker::from(tap.clone());
        Req { id, st: st.clone(), tap, waker }
    }
    /// One attempt; on success the turn is held.
    fn attempt(&self, cx: &mut Context<'_>, lock: impl FnOnce(&mut Context<'_>) -> bool) -> bool {
        *self.tap.inner.lock().unwrap() = Some(cx.waker().clone());
        let mut mycx = Context::from_waker(&self.waker);
        let id = self.id;
        let before = self.st.with(|s| {
            s.clock += 1;
            s.clock
        });
        let got = lock(&mut mycx);
        slog!("request {id} asks for the turn: {got}");
        sim::note(0x12_000 + id as u64 * 2 + got as u64);
        self.st.with(|s| {
            if got {
                s.waiting.remove(&id);
            } else {
                let e = s.waiting.entry(id).or_insert(W { since: before, fresh: before, woken: false });
                if e.woken {
                    // it was woken, somebody else was quicker: it queues again
                    e.woken = false;
                    e.fresh = before;
                    sim::probe("waiter.overtaken");
                } else if e.since != before {
                    sim::probe("waiter.registered_twice");
                }
            }
        });
        got
    }
    /// Call with the turn: nobody else may have it.
    fn enter(&self) {
        let id = self.id;
        self.st.with(|s| {
            oracle!("P01", s.holder.is_none(), "two-holders", "request {id} got the turn while request {:?} holds it", s.holder);
            s.holder = Some(id);
            s.turns += 1;
            s.order.push(id);
        });
    }
    fn leave(&self) {
        let id = self.id;
        self.st.with(|s| {
            oracle!("P01", s.holder == Some(id), "two-holders", "the turn of request {id} was taken by {:?}", s.holder);
            s.holder = None;
        });
    }
    /// After an unlock or a cancellation: if the turn is free, somebody who
    /// waits must have been told.
    fn after_release(&self, waiter: &AsyncWaiter, what: &str) {
        if !waiter.is_free() {
            return;
        }
        self.st.with(|s| {
            let asleep: Vec<u32> = s.waiting.iter().filter(|(_, w)| !w.woken).map(|(k, _)| *k).collect();
            let told = s.waiting.values().any(|w| w.woken);
            oracle!("P02", asleep.is_empty() || told, "nobody-woken",
                "{what}: the turn is free, requests {asleep:?} wait and none of them was woken");
        });
    }
}

/// All requests on one LocalSet thread (the shipped arrangement).
fn local_run(cancel: bool, raw: bool) {
    let n = sim::draw_range(2, 5);
    let waiter = Arc::new(AsyncWaiter::new());
    let st = Obs::new(St::default());
    let spurious = [0, 2, 4][sim::draw(3) as usize];
    // per request: number of turns, sleep between turns, work inside
    let plan: Vec<Vec<(u32, bool)>> = (0..n).map(|_| (0..sim::draw_range(1, 4)).map(|_| (sim::draw(4), sim::draw_bool(1, 3))).collect()).collect();
    let kills: Vec<Option<u32>> = (0..n).map(|i| if cancel && i > 0 && sim::draw_bool(1, 2) { Some(sim::draw(40)) } else { None }).collect();
    let burst = sim::draw_bool(1, 2);
    local(async move {
        let mut hs = Vec::new();
        for (i, turns) in plan.into_iter().enumerate() {
            let (waiter, st) = (waiter.clone(), st.clone());
            let id = i as u32;
            hs.push(tokio::task::spawn_local(async move {
                if !burst {
                    tokio::time::sleep(simstd::time::Duration::from_micros(sim::choose(30) as u64)).await;
                }
                let mut n = 0;
                for (pause, long) in turns {
                    if long {
                        // hold the turn across polls: a holder that is not done yet
                        one_turn(&waiter, &st, id, spurious, raw, true).await;
                    } else {
                        one_turn(&waiter, &st, id, spurious, raw, false).await;
                    }
                    n += 1;
                    if pause > 0 {
                        tokio::time::sleep(simstd::time::Duration::from_micros(sim::choose(10 * pause) as u64)).await;
                    }
                }
                n
            }));
        }
        for (i, k) in kills.iter().enumerate() {
            if let Some(us) = k {
                let a = hs[i].abort_handle();
                let us = *us as u64;
                tokio::task::spawn_local(async move {
                    tokio::time::sleep(simstd::time::Duration::from_micros(us)).await;
                    sim::probe("fault.request_cancelled");
                    slog!("request {i} cancelled");
                    a.abort();
                });
            }
        }
        for (i, hnd) in hs.into_iter().enumerate() {
            let r = hnd.await;
            if let Err(e) = &r {
                sim_check_cancel(e, kills[i].is_some());
            }
        }
        // all done: the turn is free and nobody is left
        oracle!("P02", waiter.is_free(), "turn-leaked", "every request finished and the turn is still taken");
        let mut cx = Context::from_waker(Waker::noop());
        oracle!("P02", waiter.try_lock(&mut cx), "turn-leaked", "every request finished and the turn cannot be taken");
    });
}
fn sim_check_cancel(e: &tokio::task::JoinError, killed: bool) {
    if !killed {
        sim::fail("panic", &format!("a request ended abnormally: {e:?}"));
    }
}

/// One turn. Dropping the returned future at any time is a cancellation.
async fn one_turn(waiter: &Arc<AsyncWaiter>, st: &Obs<St>, id: u32, spurious: u32, raw: bool, long: bool) {
    struct Gone<'a>(&'a Req, &'a AsyncWaiter, bool, bool);
    impl Drop for Gone<'_> {
        fn drop(&mut self) {
            // dropped while waiting
            if self.2 {
                self.0.after_release(self.1, "a waiting request was cancelled");
            }
            if self.3 {
                // cancelled while it held the turn across an await: hand it back
                self.0.leave();
                self.1.unlock();
                self.0.after_release(self.1, "turn given back on cancellation");
            }
        }
    }
    let req = Req::new(id, st);
    let st2 = st.clone();
    // declared first: dropped last, after the wait itself has been dropped
    let mut gone = Gone(&req, waiter, true, false);
    struct Leave<'a>(&'a Obs<St>, u32);
    impl Drop for Leave<'_> {
        fn drop(&mut self) {
            let id = self.1;
            self.0.with(|s| {
                if s.waiting.remove(&id).is_some() {
                    sim::probe("waiter.cancelled_waiting");
                    slog!("request {id} gone from the queue");
                }
            });
        }
    }
    {
        let mut turn = TurnWait::new(waiter);
        let _leave = Leave(&st2, id);
        let fut = std::future::poll_fn(|cx| {
            let got = if raw { req.attempt(cx, |c| waiter.try_lock(c)) } else { req.attempt(cx, |c| turn.try_lock(c)) };
            if !got {
                return Poll::Pending;
            }
            req.enter();
            // work under the turn
            sim::burn(2 * US + sim::choose(20) as u64 * US, 5 * US, || false);
            if long {
                return Poll::Ready(());
            }
            req.leave();
            waiter.unlock();
            req.after_release(waiter, "turn given back");
            Poll::Ready(())
        });
        Spurious { inner: fut, odds: spurious }.await;
    }
    gone.2 = false;
    if long {
        gone.3 = true;
        for _ in 0..1 + sim::choose(3) {
            if sim::rarely(2) {
                tokio::time::sleep(simstd::time::Duration::from_micros(sim::choose(25) as u64)).await;
            } else {
                tokio::task::yield_now().await;
            }
        }
        req.leave();
        gone.3 = false;
        waiter.unlock();
        req.after_release(waiter, "turn given back");
    }
}

pub fn turns_local() {
    local_run(false, true)
}
pub fn turns_cancel() {
    local_run(true, false)
}

/// Requests on different OS threads sharing the queue (the type is Sync).
pub fn turns_threads() {
    let n = sim::draw_range(2, 4);
    let waiter = Arc::new(AsyncWaiter::new());
    let inside: Obs<Option<u32>> = Obs::new(None);
    let hs: Vec<_> = (0..n)
        .map(|id| {
            let (waiter, inside) = (waiter.clone(), inside.clone());
            let turns = sim::draw_range(1, 4);
            let spurious = sim::draw(2) * 3;
            spawn("request", move || {
                for _ in 0..turns {
                    let f = std::future::poll_fn(|cx| {
                        if !waiter.try_lock(cx) {
                            sim::note(0x13_000 + id as u64);
                            return Poll::Pending;
                        }
                        Poll::Ready(())
                    });
                    block_on(Spurious { inner: f, odds: spurious });
                    inside.with(|h| {
                        oracle!("P01", h.is_none(), "two-holders", "request {id} got the turn while request {h:?} holds it");
                        *h = Some(id);
                    });
                    slog!("request {id} has the turn");
                    sim::note(0x14_000 + id as u64);
                    for _ in 0..sim::choose(4) {
                        sim::point();
                    }
                    inside.with(|h| {
                        oracle!("P01", *h == Some(id), "two-holders", "the turn of request {id} was taken by {h:?}");
                        *h = None;
                    });
                    waiter.unlock();
                }
            })
        })
        .collect();
    for h in hs {
        let _ = h.join();
    }
    oracle!("P02", waiter.is_free(), "turn-leaked", "every request finished and the turn is still taken");
}
