use crate::task::{JoinHandle, TaskRef};
use simstd::sim;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

/// A queue of woken tasks plus whoever has to be told about new entries.
pub(crate) struct Queue {
    pub ready: Mutex<Vec<TaskRef>>,
    /// every live task: a runtime owns its tasks, whether or not anything can
    /// still wake them
    pub all: Mutex<BTreeMap<u64, TaskRef>>,
    pub closed: AtomicBool,
    /// wakes the thing that polls this queue
    pub driver: Mutex<Option<Waker>>,
    mode: u32,
    pub seq: AtomicUsize,
}
impl Queue {
    pub fn new() -> Arc<Self> {
        Arc::new(Queue {
            ready: Mutex::new(Vec::new()),
            all: Mutex::new(BTreeMap::new()),
            closed: AtomicBool::new(false),
            driver: Mutex::new(None),
            mode: sim::choose(3),
            seq: AtomicUsize::new(0),
        })
    }
    pub fn push(&self, t: TaskRef) {
        if self.closed.load(SeqCst) {
            return;
        }
        self.ready.lock().unwrap().push(t);
        let w = self.driver.lock().unwrap().clone();
        if let Some(w) = w {
            w.wake();
        }
    }
    pub fn forget(&self, id: u64) {
        let t = self.all.lock().unwrap().remove(&id);
        drop(t);
    }
    pub fn len(&self) -> usize {
        self.ready.lock().unwrap().len()
    }
    /// Which of `n` pollable things goes next (0 = oldest).
    pub fn pick(&self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        match self.mode {
            0 => sim::choose(n as u32) as usize,
            // mostly in order
            1 => {
                if sim::rarely(6) { sim::choose(n as u32) as usize } else { 0 }
            }
            // mostly newest first: starves the old ones for a while
            _ => {
                if sim::rarely(3) { 0 } else { n - 1 }
            }
        }
    }
    pub fn take(&self, i: usize) -> Option<TaskRef> {
        let mut r = self.ready.lock().unwrap();
        if i < r.len() { Some(r.remove(i)) } else { None }
    }
    pub fn shutdown(&self) {
        self.closed.store(true, SeqCst);
        self.ready.lock().unwrap().clear();
        loop {
            let all = std::mem::take(&mut *self.all.lock().unwrap());
            if all.is_empty() {
                break;
            }
            for (_, t) in all {
                t.shutdown();
            }
        }
    }
}

pub(crate) struct Shared {
    pub queue: Arc<Queue>,
    root: Arc<Root>,
}

struct Root {
    key: usize,
    woken: AtomicBool,
}
impl Wake for Root {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, SeqCst);
        sim::wake_all(self.key);
    }
}
/// Tells a sleeping `block_on` that its queue has work.
struct Driver(usize);
impl Wake for Driver {
    fn wake(self: Arc<Self>) {
        sim::wake_all(self.0);
    }
}

thread_local! {
    static CURRENT: RefCell<Vec<Arc<Shared>>> = const { RefCell::new(Vec::new()) };
}

pub(crate) fn current() -> Option<Arc<Shared>> {
    CURRENT.try_with(|c| c.borrow().last().cloned()).ok().flatten()
}

pub struct EnterGuard<'a>(std::marker::PhantomData<&'a ()>);
impl Drop for EnterGuard<'_> {
    fn drop(&mut self) {
        let old = CURRENT.with(|c| c.borrow_mut().pop());
        drop(old);
    }
}

fn enter<'a>(s: &Arc<Shared>) -> EnterGuard<'a> {
    CURRENT.with(|c| c.borrow_mut().push(s.clone()));
    EnterGuard(std::marker::PhantomData)
}

#[derive(Clone)]
pub struct Handle(Arc<Shared>);
impl Handle {
    pub fn current() -> Handle {
        Handle(current().expect("there is no reactor running, must be called from the context of a Tokio 1.x runtime"))
    }
    pub fn try_current() -> Result<Handle, ()> {
        current().map(Handle).ok_or(())
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn_on(&self.0.queue, f)
    }
    pub fn enter(&self) -> EnterGuard<'_> {
        enter(&self.0)
    }
}

#[derive(Default)]
pub struct Builder(());
impl Builder {
    pub fn new_current_thread() -> Self {
        Builder(())
    }
    pub fn enable_all(&mut self) -> &mut Self {
        self
    }
    pub fn enable_time(&mut self) -> &mut Self {
        self
    }
    pub fn build(&mut self) -> std::io::Result<Runtime> {
        let key = sim::fresh_key();
        let queue = Queue::new();
        *queue.driver.lock().unwrap() = Some(Waker::from(Arc::new(Driver(key))));
        Ok(Runtime { shared: Arc::new(Shared { queue, root: Arc::new(Root { key, woken: AtomicBool::new(true) }) }) })
    }
}

pub struct Runtime {
    shared: Arc<Shared>,
}
impl Runtime {
    pub fn new() -> std::io::Result<Runtime> {
        Builder::new_current_thread().build()
    }
    pub fn handle(&self) -> Handle {
        Handle(self.shared.clone())
    }
    pub fn enter(&self) -> EnterGuard<'_> {
        enter(&self.shared)
    }
    pub fn spawn<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + Send + 'static,
        F::Output: Send + 'static,
    {
        crate::task::spawn_on(&self.shared.queue, f)
    }
    pub fn block_on<F: Future>(&self, f: F) -> F::Output {
        let _g = enter(&self.shared);
        let root = self.shared.root.clone();
        root.woken.store(true, SeqCst);
        let q = self.shared.queue.clone();
        let waker = Waker::from(root.clone());
        let mut cx = Context::from_waker(&waker);
        let mut f = pin!(f);
        loop {
            sim::point();
            let root_ready = root.woken.load(SeqCst);
            let n = q.len() + root_ready as usize;
            if n == 0 {
                sim::block(root.key, None);
                continue;
            }
            let mut i = q.pick(n);
            if root_ready {
                if i == 0 {
                    root.woken.store(false, SeqCst);
                    if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
                        return v;
                    }
                    continue;
                }
                i -= 1;
            }
            if let Some(t) = q.take(i) {
                t.run();
            }
        }
    }
    pub fn shutdown_background(self) {}
}
impl Drop for Runtime {
    fn drop(&mut self) {
        let _g = enter(&self.shared);
        self.shared.queue.shutdown();
    }
}
