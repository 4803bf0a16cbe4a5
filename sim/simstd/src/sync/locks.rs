//! Mutex, RwLock, Condvar, Once, OnceLock, LazyLock, Barrier over the simulator.
use crate::sim;
use ::std::cell::{Cell, UnsafeCell};
use ::std::fmt;
use ::std::mem::MaybeUninit;
use ::std::ops::{Deref, DerefMut};
use ::std::panic::{RefUnwindSafe, UnwindSafe};
use ::std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::SeqCst};
use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use ::std::time::Duration;

/// Raw reader-writer lock: 0 free, u32::MAX writer, else readers.
struct Raw {
    st: AtomicU32,
    poison: AtomicBool,
}
impl Raw {
    const fn new() -> Self {
        Raw { st: AtomicU32::new(0), poison: AtomicBool::new(false) }
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    fn try_write(&self) -> bool {
        self.st.compare_exchange(0, u32::MAX, SeqCst, SeqCst).is_ok()
    }
    fn try_read(&self) -> bool {
        let v = self.st.load(SeqCst);
        v < u32::MAX - 1 && self.st.compare_exchange(v, v + 1, SeqCst, SeqCst).is_ok()
    }
    fn acquire(&self, f: impl Fn(&Self) -> bool) {
        sim::point();
        loop {
            if f(self) {
                return;
            }
            if sim::in_sim() {
                sim::block(self.key(), None);
            } else {
                ::std::thread::yield_now();
            }
        }
    }
    fn release_write(&self) {
        self.st.store(0, SeqCst);
        sim::wake_all(self.key());
    }
    fn release_read(&self) {
        self.st.fetch_sub(1, SeqCst);
        sim::wake_all(self.key());
    }
}

// --------------------------------------------------------------- Mutex ----
pub struct Mutex<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> UnwindSafe for Mutex<T> {}
impl<T: ?Sized> RefUnwindSafe for Mutex<T> {}

#[must_use]
pub struct MutexGuard<'a, T: ?Sized> {
    lock: &'a Mutex<T>,
    panicking: bool,
    _not_send: ::std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self {
        Mutex { raw: Raw::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.raw.poison.load(SeqCst);
        let v = self.data.into_inner();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard { lock: self, panicking: ::std::thread::panicking(), _not_send: ::std::marker::PhantomData };
        if self.raw.poison.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.raw.acquire(Raw::try_write);
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        sim::point();
        if self.raw.try_write() {
            self.guard().map_err(TryLockError::Poisoned)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.raw.poison.load(SeqCst)
    }
    pub fn clear_poison(&self) {
        self.raw.poison.store(false, SeqCst)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        let p = self.raw.poison.load(SeqCst);
        let v = self.data.get_mut();
        if p { Err(PoisonError::new(v)) } else { Ok(v) }
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.lock.data.get() }
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && ::std::thread::panicking() {
            self.lock.raw.poison.store(true, SeqCst);
        }
        self.lock.raw.release_write();
    }
}

// -------------------------------------------------------------- RwLock ----
pub struct RwLock<T: ?Sized> {
    raw: Raw,
    data: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    _n: ::std::marker::PhantomData<*const ()>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    lock: &'a RwLock<T>,
    panicking: bool,
    _n: ::std::marker::PhantomData<*const ()>,
}
unsafe impl<T: ?Sized + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for RwLockWriteGuard<'_, T> {}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self {
        RwLock { raw: Raw::new(), data: UnsafeCell::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.data.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.raw.acquire(Raw::try_read);
        let g = RwLockReadGuard { lock: self, _n: ::std::marker::PhantomData };
        if self.raw.poison.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.raw.acquire(Raw::try_write);
        let g = RwLockWriteGuard { lock: self, panicking: ::std::thread::panicking(), _n: ::std::marker::PhantomData };
        if self.raw.poison.load(SeqCst) { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        sim::point();
        if self.raw.try_read() {
            Ok(RwLockReadGuard { lock: self, _n: ::std::marker::PhantomData })
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        sim::point();
        if self.raw.try_write() {
            Ok(RwLockWriteGuard { lock: self, panicking: ::std::thread::panicking(), _n: ::std::marker::PhantomData })
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.data.get_mut())
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.lock.data.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.lock.data.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.lock.raw.release_read();
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && ::std::thread::panicking() {
            self.lock.raw.poison.store(true, SeqCst);
        }
        self.lock.raw.release_write();
    }
}

// ------------------------------------------------------------- Condvar ----
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}
pub struct Condvar {
    gen_: AtomicUsize,
}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { gen_: AtomicUsize::new(0) }
    }
    fn key(&self) -> usize {
        self as *const _ as usize
    }
    fn wait_inner<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, deadline: Option<u64>) -> (MutexGuard<'a, T>, bool) {
        let lock = g.lock;
        let mut timed = false;
        if sim::in_sim() {
            // release and block with no scheduling point in between
            drop(g);
            if sim::rarely(64) {
                sim::probe("env.spurious_wakeup");
            } else {
                timed = sim::block(self.key(), deadline);
            }
        } else {
            let s = self.gen_.load(SeqCst);
            drop(g);
            let end = deadline.map(|d| ::std::time::Instant::now() + Duration::from_nanos(d));
            while self.gen_.load(SeqCst) == s {
                if end.is_some_and(|e| ::std::time::Instant::now() >= e) {
                    timed = true;
                    break;
                }
                ::std::thread::yield_now();
            }
        }
        let g = match lock.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        };
        (g, timed)
    }
    fn deadline(d: Duration) -> u64 {
        let n = d.as_nanos().min(u64::MAX as u128 / 4) as u64;
        if sim::in_sim() { sim::now().saturating_add(n) } else { n }
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        Ok(self.wait_inner(g, None).0)
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait_inner(g, None).0;
        }
        Ok(g)
    }
    pub fn wait_timeout<'a, T>(&self, g: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let (g, t) = self.wait_inner(g, Some(Self::deadline(d)));
        Ok((g, WaitTimeoutResult(t)))
    }
    pub fn wait_timeout_while<'a, T, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        d: Duration,
        mut f: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let end = Self::deadline(d);
        loop {
            if !f(&mut *g) {
                return Ok((g, WaitTimeoutResult(false)));
            }
            if sim::in_sim() && sim::now() >= end {
                return Ok((g, WaitTimeoutResult(true)));
            }
            let (g2, t) = self.wait_inner(g, Some(end));
            g = g2;
            if t {
                let still = f(&mut *g);
                return Ok((g, WaitTimeoutResult(still)));
            }
        }
    }
    pub fn notify_one(&self) {
        sim::point();
        self.gen_.fetch_add(1, SeqCst);
        sim::wake_one(self.key());
    }
    pub fn notify_all(&self) {
        sim::point();
        self.gen_.fetch_add(1, SeqCst);
        sim::wake_all(self.key());
    }
}

// ------------------------------------------------ Once and friends ----
/// 0 new, 1 running, 2 done, 3 poisoned
pub struct Once {
    st: AtomicU32,
}
pub struct OnceState {
    poisoned: bool,
}
impl OnceState {
    pub fn is_poisoned(&self) -> bool {
        self.poisoned
    }
}
impl Default for Once {
    fn default() -> Self {
        Self::new()
    }
}
impl Once {
    pub const fn new() -> Self {
        Once { st: AtomicU32::new(0) }
    }
    pub fn is_completed(&self) -> bool {
        sim::point();
        self.st.load(SeqCst) == 2
    }
    fn run(&self, force: bool, f: &mut dyn FnMut(&OnceState)) {
        let key = self as *const _ as usize;
        sim::point();
        loop {
            let s = self.st.load(SeqCst);
            match s {
                2 => return,
                1 => {
                    if sim::in_sim() {
                        sim::block(key, None);
                    } else {
                        ::std::thread::yield_now();
                    }
                }
                3 if !force => panic!("Once instance has previously been poisoned"),
                _ => {
                    if self.st.compare_exchange(s, 1, SeqCst, SeqCst).is_err() {
                        continue;
                    }
                    struct G<'a>(&'a Once, Cell<bool>);
                    impl Drop for G<'_> {
                        fn drop(&mut self) {
                            self.0.st.store(if self.1.get() { 2 } else { 3 }, SeqCst);
                            sim::wake_all(self.0 as *const _ as usize);
                        }
                    }
                    let g = G(self, Cell::new(false));
                    f(&OnceState { poisoned: s == 3 });
                    g.1.set(true);
                    return;
                }
            }
        }
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        let mut f = Some(f);
        self.run(false, &mut |_| (f.take().unwrap())());
    }
    pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
        let mut f = Some(f);
        self.run(true, &mut |s| (f.take().unwrap())(s));
    }
    pub fn wait(&self) {
        while self.st.load(SeqCst) != 2 {
            if sim::in_sim() { sim::block(self as *const _ as usize, None); } else { ::std::thread::yield_now(); }
        }
    }
}

pub struct OnceLock<T> {
    once: Once,
    v: UnsafeCell<MaybeUninit<T>>,
}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
unsafe impl<T: Send> Send for OnceLock<T> {}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> OnceLock<T> {
    pub const fn new() -> Self {
        OnceLock { once: Once::new(), v: UnsafeCell::new(MaybeUninit::uninit()) }
    }
    pub fn get(&self) -> Option<&T> {
        if self.once.is_completed() { Some(unsafe { (*self.v.get()).assume_init_ref() }) } else { None }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        if self.once.st.load(SeqCst) == 2 { Some(unsafe { (*self.v.get()).assume_init_mut() }) } else { None }
    }
    pub fn set(&self, t: T) -> Result<(), T> {
        let mut t = Some(t);
        self.get_or_init(|| t.take().unwrap());
        match t {
            None => Ok(()),
            Some(t) => Err(t),
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        self.once.call_once_force(|_| {
            let v = f();
            unsafe { (*self.v.get()).write(v) };
        });
        unsafe { (*self.v.get()).assume_init_ref() }
    }
    pub fn into_inner(mut self) -> Option<T> {
        self.take()
    }
    pub fn take(&mut self) -> Option<T> {
        if self.once.st.load(SeqCst) == 2 {
            self.once = Once::new();
            Some(unsafe { (*self.v.get()).assume_init_read() })
        } else {
            None
        }
    }
}
impl<T> Drop for OnceLock<T> {
    fn drop(&mut self) {
        if self.once.st.load(SeqCst) == 2 {
            unsafe { (*self.v.get()).assume_init_drop() }
        }
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("OnceLock { .. }")
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        let c = OnceLock::new();
        if let Some(v) = self.get() {
            let _ = c.set(v.clone());
        }
        c
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    cell: OnceLock<T>,
    f: Cell<Option<F>>,
}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self {
        LazyLock { cell: OnceLock::new(), f: Cell::new(Some(f)) }
    }
    pub fn force(this: &Self) -> &T {
        this.cell.get_or_init(|| match this.f.take() {
            Some(f) => f(),
            None => panic!("LazyLock instance has previously been poisoned"),
        })
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}
impl<T: Default> Default for LazyLock<T> {
    fn default() -> Self {
        LazyLock::new(T::default)
    }
}

// ------------------------------------------------------------- Barrier ----
pub struct Barrier {
    m: Mutex<(usize, usize)>,
    cv: Condvar,
    n: usize,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Self {
        Barrier { m: Mutex::new((0, 0)), cv: Condvar::new(), n }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.m.lock().unwrap();
        let generation = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == generation {
                g = self.cv.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.cv.notify_all();
            BarrierWaitResult(true)
        }
    }
}
