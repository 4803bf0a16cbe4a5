//! Timers on the simulated clock, with tokio's millisecond granularity: a sleep
//! never completes before its deadline and completes on a millisecond boundary.
use simstd::sim;
pub use simstd::time::{Duration, Instant};
use std::fmt;
use std::future::Future;
use std::marker::PhantomPinned;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}

struct Cell {
    fired: bool,
    waker: Option<Waker>,
}
pub struct Sleep {
    deadline: Instant,
    st: Arc<Mutex<Cell>>,
    ev: Option<(u64, u64)>,
    _p: PhantomPinned,
}
impl fmt::Debug for Sleep {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Sleep({:?})", self.deadline)
    }
}
impl Sleep {
    fn at(deadline: Instant) -> Sleep {
        Sleep { deadline, st: Arc::new(Mutex::new(Cell { fired: false, waker: None })), ev: None, _p: PhantomPinned }
    }
    pub fn deadline(&self) -> Instant {
        self.deadline
    }
    pub fn is_elapsed(&self) -> bool {
        self.st.lock().unwrap().fired
    }
    pub fn reset(self: Pin<&mut Self>, deadline: Instant) {
        let me = unsafe { self.get_unchecked_mut() };
        if let Some(e) = me.ev.take() {
            sim::cancel(e);
        }
        me.deadline = deadline;
        let w = {
            let mut c = me.st.lock().unwrap();
            c.fired = false;
            c.waker.take()
        };
        me.st = Arc::new(Mutex::new(Cell { fired: false, waker: w.clone() }));
        if w.is_some() {
            me.arm();
        }
    }
    fn arm(&mut self) {
        let ms = 1_000_000u64;
        let d = self.deadline.to_sim();
        // a deadline of now is met at the next tick: the clock moves on while the timer is set
        let t = d.div_ceil(ms).saturating_mul(ms).max((sim::now() / ms + (d >= sim::now()) as u64) * ms);
        let st = self.st.clone();
        self.ev = Some(sim::at(t, move || {
            let w = {
                let mut c = st.lock().unwrap();
                c.fired = true;
                c.waker.take()
            };
            if let Some(w) = w {
                w.wake();
            }
        }));
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let me = unsafe { self.get_unchecked_mut() };
        {
            let mut c = me.st.lock().unwrap();
            if c.fired {
                return Poll::Ready(());
            }
            c.waker = Some(cx.waker().clone());
        }
        if me.ev.is_none() {
            if me.deadline.to_sim() < sim::now() {
                // an elapsed deadline completes at once
                me.st.lock().unwrap().fired = true;
                return Poll::Ready(());
            }
            me.arm();
        }
        Poll::Pending
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(e) = self.ev.take() {
            sim::cancel(e);
        }
    }
}

fn far() -> Duration {
    Duration::from_secs(86400 * 365 * 30)
}
pub fn sleep(d: Duration) -> Sleep {
    let now = Instant::now();
    Sleep::at(now.checked_add(d.min(far())).unwrap_or(now + far()))
}
pub fn sleep_until(t: Instant) -> Sleep {
    Sleep::at(t)
}

pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, error::Elapsed> {
    let mut f = std::pin::pin!(f);
    let mut s = std::pin::pin!(sleep(d));
    std::future::poll_fn(|cx| {
        if let Poll::Ready(v) = f.as_mut().poll(cx) {
            return Poll::Ready(Ok(v));
        }
        if s.as_mut().poll(cx).is_ready() {
            return Poll::Ready(Err(error::Elapsed(())));
        }
        Poll::Pending
    })
    .await
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum MissedTickBehavior {
    Burst,
    Delay,
    Skip,
}
pub struct Interval {
    next: Instant,
    period: Duration,
    behavior: MissedTickBehavior,
}
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(period > Duration::ZERO, "`period` must be non-zero.");
    Interval { next: start, period, behavior: MissedTickBehavior::Burst }
}
impl Interval {
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
        self.behavior = b;
    }
    pub async fn tick(&mut self) -> Instant {
        let t = self.next;
        sleep_until(t).await;
        let now = Instant::now();
        self.next = match self.behavior {
            MissedTickBehavior::Burst => t + self.period,
            MissedTickBehavior::Delay => now + self.period,
            MissedTickBehavior::Skip => {
                let mut n = t + self.period;
                while n <= now {
                    n += self.period;
                }
                n
            }
        };
        t
    }
}
