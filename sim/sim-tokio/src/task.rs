use crate::runtime::{Queue, current};
use simstd::sim;
use std::any::Any;
use std::cell::{RefCell, UnsafeCell};
use std::fmt;
use std::future::Future;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

pub(crate) type TaskRef = Arc<Task>;

/// A spawned future. Polled only by the thread that drives its queue; the waker
/// may be used from anywhere.
pub(crate) struct Task {
    queue: Arc<Queue>,
    fut: UnsafeCell<Option<Pin<Box<dyn Future<Output = ()>>>>>,
    queued: AtomicBool,
    running: AtomicBool,
    aborted: AtomicBool,
    done: AtomicBool,
    cancel: Box<dyn Fn() + Send + Sync>,
    pub(crate) id: u64,
}
unsafe impl Send for Task {}
unsafe impl Sync for Task {}

impl Wake for Task {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        if !self.done.load(SeqCst) && !self.queued.swap(true, SeqCst) {
            self.queue.push(self.clone());
        }
    }
}
impl Task {
    fn drop_future(&self) {
        self.queue.forget(self.id);
        let f = unsafe { (*self.fut.get()).take() };
        if catch_unwind(AssertUnwindSafe(|| drop(f))).is_err() {
            sim::probe("task.drop_panicked");
        }
    }
    pub fn run(self: Arc<Self>) {
        if self.done.load(SeqCst) {
            return;
        }
        self.queued.store(false, SeqCst);
        sim::note(0x7000_0000 + self.id);
        if self.aborted.load(SeqCst) {
            self.shutdown();
            return;
        }
        let waker = Waker::from(self.clone());
        let mut cx = Context::from_waker(&waker);
        self.running.store(true, SeqCst);
        let r = catch_unwind(AssertUnwindSafe(|| unsafe {
            match (*self.fut.get()).as_mut() {
                Some(f) => f.as_mut().poll(&mut cx),
                None => Poll::Ready(()),
            }
        }));
        self.running.store(false, SeqCst);
        match r {
            Ok(Poll::Pending) => {}
            Ok(Poll::Ready(())) => {
                self.done.store(true, SeqCst);
                self.drop_future();
            }
            Err(p) => {
                // (the future itself turns a panic of the user's future into a
                // join error; this is a panic outside it)
                let t = sim::panic_text(&*p);
                sim::log(|| format!("task panicked: {t}"));
                self.done.store(true, SeqCst);
                self.drop_future();
            }
        }
    }
    pub fn shutdown(&self) {
        if self.done.swap(true, SeqCst) {
            return;
        }
        if self.running.load(SeqCst) {
            return;
        }
        self.drop_future();
        (self.cancel)();
    }
}

// ---------------------------------------------------------------- joining --
struct JoinState<T> {
    out: Option<Result<T, JoinError>>,
    finished: bool,
    waker: Option<Waker>,
}
fn complete<T>(j: &Mutex<JoinState<T>>, v: Result<T, JoinError>) {
    let w = {
        let mut j = j.lock().unwrap();
        if j.finished {
            return;
        }
        j.finished = true;
        j.out = Some(v);
        j.waker.take()
    };
    if let Some(w) = w {
        w.wake();
    }
}

pub struct JoinHandle<T> {
    task: TaskRef,
    join: Arc<Mutex<JoinState<T>>>,
}
unsafe impl<T: Send> Send for JoinHandle<T> {}
unsafe impl<T: Send> Sync for JoinHandle<T> {}
impl<T> Unpin for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        abort(&self.task)
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle(self.task.clone())
    }
    pub fn is_finished(&self) -> bool {
        sim::point();
        self.join.lock().unwrap().finished
    }
}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinHandle")
    }
}
fn abort(t: &TaskRef) {
    t.aborted.store(true, SeqCst);
    t.wake_by_ref();
    sim::point();
}
#[derive(Clone)]
pub struct AbortHandle(TaskRef);
impl AbortHandle {
    pub fn abort(&self) {
        abort(&self.0)
    }
    pub fn is_finished(&self) -> bool {
        self.0.done.load(SeqCst)
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut j = self.join.lock().unwrap();
        if let Some(v) = j.out.take() {
            return Poll::Ready(v);
        }
        j.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

pub struct JoinError {
    panic: Option<Box<dyn Any + Send>>,
}
impl JoinError {
    pub fn is_panic(&self) -> bool {
        self.panic.is_some()
    }
    pub fn is_cancelled(&self) -> bool {
        self.panic.is_none()
    }
    pub fn into_panic(self) -> Box<dyn Any + Send> {
        self.panic.expect("not a panic")
    }
}
unsafe impl Sync for JoinError {}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.is_panic() { "JoinError::Panic" } else { "JoinError::Cancelled" })
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(if self.is_panic() { "task panicked" } else { "task was cancelled" })
    }
}
impl std::error::Error for JoinError {}

// --------------------------------------------------------------- spawning --
struct CatchPanic<F>(F);
impl<F: Future> Future for CatchPanic<F> {
    type Output = Result<F::Output, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let f = unsafe { self.map_unchecked_mut(|s| &mut s.0) };
        match catch_unwind(AssertUnwindSafe(|| f.poll(cx))) {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(v)) => Poll::Ready(Ok(v)),
            Err(p) => {
                let t = sim::panic_text(&*p);
                sim::log(|| format!("task panicked: {t}"));
                sim::probe("task.panicked");
                Poll::Ready(Err(JoinError { panic: Some(p) }))
            }
        }
    }
}

pub(crate) fn spawn_on<F>(queue: &Arc<Queue>, f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let join = Arc::new(Mutex::new(JoinState { out: None, finished: false, waker: None }));
    let j2 = join.clone();
    let fut = async move {
        let r = CatchPanic(f).await;
        complete(&j2, r);
    };
    let j3 = SendPtr(join.clone());
    let task = Arc::new(Task {
        queue: queue.clone(),
        fut: UnsafeCell::new(Some(Box::pin(fut))),
        queued: AtomicBool::new(false),
        running: AtomicBool::new(false),
        aborted: AtomicBool::new(false),
        done: AtomicBool::new(false),
        cancel: Box::new(move || {
            let j = &j3;
            complete(&j.0, Err(JoinError { panic: None }))
        }),
        id: queue.seq.fetch_add(1, SeqCst) as u64,
    });
    if queue.closed.load(SeqCst) {
        task.shutdown();
    } else {
        queue.all.lock().unwrap().insert(task.id, task.clone());
        task.wake_by_ref();
    }
    sim::probe("task.spawned");
    JoinHandle { task, join }
}
struct SendPtr<T>(T);
unsafe impl<T> Send for SendPtr<T> {}
unsafe impl<T> Sync for SendPtr<T> {}

pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    let c = current().expect("there is no reactor running, must be called from the context of a Tokio 1.x runtime");
    spawn_on(&c.queue, f)
}

// --------------------------------------------------------------- LocalSet --
thread_local! {
    static LOCAL: RefCell<Vec<Arc<Queue>>> = const { RefCell::new(Vec::new()) };
}
pub struct LocalSet {
    queue: Arc<Queue>,
    _not_send: std::marker::PhantomData<*const ()>,
}
impl Default for LocalSet {
    fn default() -> Self {
        Self::new()
    }
}
struct LocalGuard;
impl Drop for LocalGuard {
    fn drop(&mut self) {
        let q = LOCAL.with(|l| l.borrow_mut().pop());
        drop(q);
    }
}
impl LocalSet {
    pub fn new() -> Self {
        LocalSet { queue: Queue::new(), _not_send: std::marker::PhantomData }
    }
    fn enter_local(&self) -> LocalGuard {
        LOCAL.with(|l| l.borrow_mut().push(self.queue.clone()));
        LocalGuard
    }
    pub fn spawn_local<F>(&self, f: F) -> JoinHandle<F::Output>
    where
        F: Future + 'static,
        F::Output: 'static,
    {
        spawn_on(&self.queue, f)
    }
    /// One batch of local tasks; true when there is more to do.
    fn tick(&self, cx: &mut Context<'_>) -> bool {
        *self.queue.driver.lock().unwrap() = Some(cx.waker().clone());
        let _g = self.enter_local();
        for _ in 0..8 {
            let n = self.queue.len();
            if n == 0 {
                return false;
            }
            if let Some(t) = self.queue.take(self.queue.pick(n)) {
                t.run();
            }
            sim::point();
        }
        self.queue.len() > 0
    }
    pub async fn run_until<F: Future>(&self, f: F) -> F::Output {
        let mut f = std::pin::pin!(f);
        std::future::poll_fn(|cx| {
            {
                let _g = self.enter_local();
                if let Poll::Ready(v) = f.as_mut().poll(cx) {
                    return Poll::Ready(v);
                }
            }
            if self.tick(cx) {
                cx.waker().wake_by_ref();
            }
            Poll::Pending
        })
        .await
    }
    pub fn block_on<F: Future>(&self, rt: &crate::runtime::Runtime, f: F) -> F::Output {
        rt.block_on(self.run_until(f))
    }
}
impl Future for LocalSet {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.tick(cx) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let live = self.queue.all.lock().unwrap().values().any(|t| !t.done.load(SeqCst));
        if live { Poll::Pending } else { Poll::Ready(()) }
    }
}
impl Drop for LocalSet {
    fn drop(&mut self) {
        let _g = self.enter_local();
        self.queue.shutdown();
    }
}

pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let q = LOCAL.with(|l| l.borrow().last().cloned()).expect("`spawn_local` called from outside of a `task::LocalSet`");
    spawn_on(&q, f)
}

pub async fn yield_now() {
    let mut first = true;
    std::future::poll_fn(|cx| {
        if std::mem::take(&mut first) {
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    })
    .await
}
