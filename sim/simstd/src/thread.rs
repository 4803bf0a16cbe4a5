//! Threads of the simulated world are real OS threads released one at a time.
pub use ::std::thread::{AccessError, LocalKey, Result, Thread, ThreadId, available_parallelism, current, panicking};
use crate::sim;
use ::std::boxed::Box;
use ::std::io;
use ::std::string::{String, ToString};
use ::std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use ::std::sync::{Arc, Mutex};
use ::std::time::Duration;

struct Packet<T> {
    v: Mutex<Option<::std::thread::Result<T>>>,
    done: AtomicBool,
    key: usize,
}

enum Inner<T> {
    Real(::std::thread::JoinHandle<T>),
    Sim { packet: Arc<Packet<T>>, thread: Thread, #[allow(dead_code)] os: ::std::thread::JoinHandle<()> },
}
pub struct JoinHandle<T>(Inner<T>);
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}

impl<T> JoinHandle<T> {
    pub fn join(self) -> ::std::thread::Result<T> {
        match self.0 {
            Inner::Real(h) => h.join(),
            Inner::Sim { packet, .. } => {
                sim::point();
                while !packet.done.load(SeqCst) {
                    sim::block(packet.key, None);
                }
                let v = packet.v.lock().unwrap().take();
                v.expect("thread result already taken")
            }
        }
    }
    pub fn is_finished(&self) -> bool {
        match &self.0 {
            Inner::Real(h) => h.is_finished(),
            Inner::Sim { packet, .. } => {
                sim::point();
                packet.done.load(SeqCst)
            }
        }
    }
    pub fn thread(&self) -> &Thread {
        match &self.0 {
            Inner::Real(h) => h.thread(),
            Inner::Sim { thread, .. } => thread,
        }
    }
}
impl<T> ::std::fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("JoinHandle { .. }")
    }
}

/// Registered first on every simulated thread, so its destructor runs after
/// those of all other thread-locals: only then does the thread count as gone.
struct Sentinel(::std::cell::Cell<Option<(usize, Box<dyn Fn()>, usize)>>);
impl Drop for Sentinel {
    fn drop(&mut self) {
        if let Some((id, done, key)) = self.0.take() {
            done();
            sim::exit_thread(id, key);
        }
    }
}
::std::thread_local! {
    static SENTINEL: Sentinel = const { Sentinel(::std::cell::Cell::new(None)) };
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
    stack: Option<usize>,
}
impl Builder {
    pub fn new() -> Self {
        Builder::default()
    }
    pub fn name(mut self, n: String) -> Self {
        self.name = Some(n);
        self
    }
    pub fn stack_size(mut self, n: usize) -> Self {
        self.stack = Some(n);
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        let mut b = ::std::thread::Builder::new();
        if let Some(n) = &self.name {
            b = b.name(n.clone());
        }
        if let Some(s) = self.stack {
            b = b.stack_size(s);
        }
        if !sim::in_sim() {
            return b.spawn(f).map(|h| JoinHandle(Inner::Real(h)));
        }
        let name = self.name.unwrap_or_else(|| "thread".to_string());
        let id = sim::new_thread(&name);
        let packet = Arc::new(Packet { v: Mutex::new(None), done: AtomicBool::new(false), key: sim::fresh_key() });
        let p2 = packet.clone();
        let os = b.spawn(move || {
            sim::enter_thread(id);
            SENTINEL.with(|s| {
                let p = p2.clone();
                s.0.set(Some((id, Box::new(move || p.done.store(true, SeqCst)), p2.key)));
            });
            sim::probe("thread.started");
            let r = ::std::panic::catch_unwind(::std::panic::AssertUnwindSafe(f));
            if let Err(p) = &r {
                let t = sim::panic_text(&**p);
                sim::log(|| ::std::format!("thread panicked: {t}"));
                sim::probe("thread.panicked");
            }
            *p2.v.lock().unwrap() = Some(r);
        })?;
        let thread = os.thread().clone();
        sim::point();
        Ok(JoinHandle(Inner::Sim { packet, thread, os }))
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

pub fn yield_now() {
    if sim::in_sim() { sim::point() } else { ::std::thread::yield_now() }
}

pub fn sleep(d: Duration) {
    if sim::in_sim() {
        sim::sleep(d.as_nanos().min(u64::MAX as u128 / 4) as u64)
    } else {
        ::std::thread::sleep(d)
    }
}

pub fn park() {
    if sim::in_sim() { sim::point() } else { ::std::thread::park() }
}
