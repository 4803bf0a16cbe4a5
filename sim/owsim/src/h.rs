//! Helpers shared by the scenarios.
#![allow(dead_code)]
use simstd::sim;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

static PROP: Mutex<String> = Mutex::new(String::new());
pub fn set_prop(p: &str) {
    *PROP.lock().unwrap() = p.to_string();
}
pub fn is_prop(p: &str) -> bool {
    let c = PROP.lock().unwrap();
    c.as_str() == p
}
/// What also shows in the whole runtime that a property of one of its parts does not hold:
/// (the property, the oracles' property, their classes; none: all of them).
const ALSO: &[(&str, &str, &[&str])] = &[
    ("P02", "P31", &["never-ends", "wall-unjust"]),
    ("P04", "P25", &["wrong-result"]),
    ("P04", "P26", &["wrong-body"]),
    ("P04", "P27", &["wrong-body", "false-end", "short-body", "false-error", "body-hangs", "wrong-copy"]),
    ("P04", "P33", &["wrong-body", "false-end", "short-body", "false-error", "body-hangs"]),
    ("P06", "P28", &[]),
    ("P07", "P25", &["wrong-result", "result-without-call", "result-before-answer", "result-twice"]),
    ("P07", "P26", &["wrong-body"]),
    ("P07", "P27", &["wrong-body", "false-end", "short-body", "false-error", "body-hangs", "wrong-copy"]),
    ("P07", "P33", &["wrong-body", "false-end", "short-body", "false-error", "body-hangs"]),
    ("P08", "P33", &["wrong-body", "false-end", "short-body", "false-error", "body-hangs", "sender-not-told", "body-runs-on"]),
    ("P11", "P31", &["buffers-over-limit"]),
    ("P12", "P31", &["buffers-refused"]),
    ("P13", "P31", &["wall-early", "wall-unjust", "too-long", "never-ends", "wrong-reason"]),
    ("P14", "P31", &["wall-early", "wall-unjust", "wrong-reason"]),
    ("P15", "P31", &["cpu-unjust", "cpu-over", "never-ends", "wrong-reason"]),
    ("P16", "P31", &["cpu-unjust", "wrong-reason"]),
    ("P17", "P31", &["memory-unjust", "memory-late", "never-ends"]),
    ("P19", "P18", &["cleared-timer-fired"]),
    ("P19", "P32", &["timers-run-on"]),
    ("P20", "P25", &[]),
    ("P20", "P27", &[]),
    ("P21", "P32", &[]),
    ("P21", "P27", &["false-end", "body-hangs"]),
    ("P21", "P33", &["false-end", "body-runs-on"]),
    ("P21", "P38", &["left-open"]),
    ("P22", "P38", &[]),
    ("P39", "P18", &[]),
    ("P39", "P23", &[]),
    ("P39", "P24", &[]),
    ("P39", "P25", &[]),
    ("P39", "P26", &[]),
    ("P39", "P27", &[]),
    ("P39", "P28", &[]),
    ("P39", "P29", &[]),
    ("P39", "P30", &[]),
    ("P39", "P31", &[]),
    ("P39", "P32", &[]),
    ("P39", "P33", &[]),
    ("P39", "P34", &[]),
    ("P39", "P38", &[]),
];
/// Whether the search is for violations of this sort.
pub fn wanted(p: &str, class: &str) -> bool {
    let c = PROP.lock().unwrap();
    let c = c.as_str();
    c == p || ALSO.iter().any(|a| a.0 == c && a.1 == p && (a.2.is_empty() || a.2.contains(&class))) || std::env::var_os("OWSIM_ANY").is_some()
}

/// A check that belongs to one property; the others' searches pass over it.
#[macro_export]
macro_rules! oracle {
    ($prop:expr, $cond:expr, $class:expr, $($fmt:tt)*) => {
        if !$cond && $crate::h::wanted($prop, $class) {
            simstd::sim::fail($class, &format!($($fmt)*));
        }
    };
}
#[macro_export]
macro_rules! slog {
    ($($fmt:tt)*) => { simstd::sim::log(|| format!($($fmt)*)) };
}

pub const US: u64 = 1_000;
pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

/// Shared observation state for oracles: a real mutex, never held across a
/// scheduling point.
#[derive(Default)]
pub struct Obs<T>(Arc<Mutex<T>>);
impl<T> Clone for Obs<T> {
    fn clone(&self) -> Self {
        Obs(self.0.clone())
    }
}
impl<T> Obs<T> {
    pub fn new(t: T) -> Self {
        Obs(Arc::new(Mutex::new(t)))
    }
    pub fn with<R>(&self, f: impl FnOnce(&mut T) -> R) -> R {
        let mut g = match self.0.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
        sim::atomically(|| f(&mut g))
    }
}

/// Polls the inner future a few extra times for no reason, as happens whenever
/// something else in the same task is woken.
pub struct Spurious<F> {
    pub inner: F,
    pub odds: u32,
}
impl<F: Future + Unpin> Future for Spurious<F> {
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let odds = self.odds;
        match Pin::new(&mut self.inner).poll(cx) {
            Poll::Ready(v) => Poll::Ready(v),
            Poll::Pending => {
                if odds > 0 && sim::rarely(odds) {
                    sim::probe("env.spurious_poll");
                    cx.waker().wake_by_ref();
                }
                Poll::Pending
            }
        }
    }
}

/// A waker that tells the oracle first and then forwards.
pub struct TapWaker {
    pub on_wake: Box<dyn Fn() + Send + Sync>,
    pub inner: Mutex<Option<Waker>>,
}
impl Wake for TapWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        (self.on_wake)();
        let w = self.inner.lock().unwrap().clone();
        if let Some(w) = w {
            w.wake();
        }
    }
}

/// Run a future on the calling simulated thread, with no task runtime around it.
pub fn block_on<F: Future>(f: F) -> F::Output {
    struct W(usize, AtomicU64);
    impl Wake for W {
        fn wake(self: Arc<Self>) {
            self.1.store(1, Ordering::SeqCst);
            sim::wake_all(self.0);
        }
    }
    let w = Arc::new(W(sim::fresh_key(), AtomicU64::new(0)));
    let waker = Waker::from(w.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    loop {
        w.1.store(0, Ordering::SeqCst);
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return v;
        }
        sim::point();
        while w.1.load(Ordering::SeqCst) == 0 {
            sim::block(w.0, None);
        }
    }
}

/// Simulated OS threads.
pub fn spawn<T: Send + 'static>(name: &str, f: impl FnOnce() -> T + Send + 'static) -> simstd::thread::JoinHandle<T> {
    simstd::thread::Builder::new().name(name.into()).spawn(f).unwrap()
}

/// A current-thread runtime with a LocalSet, as the worker threads have.
pub fn local<F: Future>(f: F) -> F::Output {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
    let ls = tokio::task::LocalSet::new();
    ls.block_on(&rt, f)
}
