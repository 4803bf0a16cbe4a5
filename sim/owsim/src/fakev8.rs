//! The C side of the V8 bindings, as far as the components under test use it: a
//! model of isolates (lock, termination flag, external-memory counter, handles,
//! allocator, heap-limit callback) whose lock is scheduled by the simulator and
//! which reports misuse that would corrupt or crash the real engine.
use simstd::sim;
use std::collections::BTreeSet;
use std::ffi::{c_char, c_void};
use std::sync::Mutex;

#[repr(C)]
#[derive(Clone, Copy)]
pub struct SP([usize; 2]);

#[repr(C)]
pub struct Vtable {
    pub allocate: unsafe extern "C" fn(*const c_void, usize) -> *mut c_void,
    pub allocate_uninitialized: unsafe extern "C" fn(*const c_void, usize) -> *mut c_void,
    pub free: unsafe extern "C" fn(*const c_void, *mut c_void, usize),
    pub drop: unsafe extern "C" fn(*const c_void),
}
#[derive(Clone, Copy)]
pub struct RustAlloc {
    pub handle: *const c_void,
    pub vtable: *const Vtable,
}
unsafe impl Send for RustAlloc {}
unsafe impl Sync for RustAlloc {}
impl RustAlloc {
    pub fn allocate(&self, n: usize) -> *mut u8 {
        unsafe { ((*self.vtable).allocate)(self.handle, n) as *mut u8 }
    }
    pub fn allocate_uninit(&self, n: usize) -> *mut u8 {
        unsafe { ((*self.vtable).allocate_uninitialized)(self.handle, n) as *mut u8 }
    }
    pub fn free(&self, p: *mut u8, n: usize) {
        unsafe { ((*self.vtable).free)(self.handle, p as *mut c_void, n) }
    }
    pub fn release(&self) {
        unsafe { ((*self.vtable).drop)(self.handle) }
    }
}

pub type NearHeap = unsafe extern "C" fn(*mut c_void, usize, usize) -> usize;

#[derive(Default)]
pub struct IsoState {
    pub external: i64,
    pub external_min: i64,
    pub adjusts: u64,
    pub terminating: bool,
    pub terminations: Vec<(u64, usize)>,
    pub cancels: u64,
    pub disposed: bool,
    pub owner: Option<usize>,
    pub depth: u32,
    pub near_heap: Option<(usize, usize)>,
    pub oom_handler: bool,
    pub live_handles: BTreeSet<u64>,
    pub made_handles: u64,
    pub destroyed_handles: u64,
    pub heap_init: usize,
    pub heap_max: usize,
    pub alloc: Option<RustAlloc>,
}
pub struct FakeIsolate {
    pub id: usize,
    key: usize,
    data: [*mut c_void; 8],
    pub st: Mutex<IsoState>,
}
impl FakeIsolate {
    pub fn get<R>(&self, f: impl FnOnce(&mut IsoState) -> R) -> R {
        f(&mut self.st.lock().unwrap())
    }
}

#[derive(Default)]
struct Global {
    next_iso: usize,
    next_handle: u64,
    platforms: usize,
    initialized: usize,
}
static G: Mutex<Global> = Mutex::new(Global { next_iso: 0, next_handle: 0, platforms: 0, initialized: 0 });

pub fn platforms_created() -> usize {
    G.lock().unwrap().platforms
}

fn iso<'a>(p: *const FakeIsolate, what: &str) -> &'a FakeIsolate {
    let i = unsafe { &*p };
    if i.get(|s| s.disposed) {
        sim::fail("v8-use-after-dispose", &format!("{what} on isolate {} after it was disposed", i.id));
    }
    i
}
fn me() -> usize {
    sim::tid().unwrap_or(usize::MAX - 1)
}
pub fn of(i: &v8::UnenteredIsolate) -> &'static FakeIsolate {
    unsafe { &*(i.as_raw() as *const FakeIsolate) }
}
pub fn of_isolate(i: &v8::Isolate) -> &'static FakeIsolate {
    // Isolate is a transparent wrapper around the raw pointer
    unsafe { &**(i as *const v8::Isolate as *const *const FakeIsolate) }
}
fn require_lock(i: &FakeIsolate, what: &str) {
    let o = i.get(|s| s.owner);
    if o != Some(me()) {
        sim::fail("v8-without-lock", &format!("{what} on isolate {} by thread {} while its lock is held by {o:?}", i.id, me()));
    }
}

/// A persistent handle to a pretend heap object of this isolate.
struct Handle {
    iso: *const FakeIsolate,
    id: u64,
}
pub fn new_global(isolate: &mut v8::Isolate) -> (v8::Global<v8::Object>, u64) {
    let f = of_isolate(isolate);
    let id = {
        let mut g = G.lock().unwrap();
        g.next_handle += 1;
        g.next_handle
    };
    f.get(|s| {
        s.live_handles.insert(id);
        s.made_handles += 1;
    });
    let h = Box::into_raw(Box::new(Handle { iso: f, id }));
    (unsafe { v8::Global::from_raw(isolate, std::ptr::NonNull::new(h as *mut v8::Object).unwrap()) }, id)
}

#[unsafe(no_mangle)]
extern "C" fn v8__Global__Reset(h: *const Handle) {
    let h = unsafe { &*h };
    let i = iso(h.iso, "handle reset");
    if !i.get(|s| s.live_handles.remove(&h.id)) {
        sim::fail("v8-double-reset", &format!("persistent handle {} of isolate {} destroyed twice", h.id, i.id));
    }
    i.get(|s| s.destroyed_handles += 1);
    sim::log(|| format!("handle {} of isolate {} destroyed", h.id, i.id));
    sim::probe("v8.handle_destroyed");
    require_lock(i, "persistent handle destroyed");
}

// --------------------------------------------------------------- isolate --
#[repr(C)]
pub struct RawParams {
    code_event_handler: usize,
    constraints: [usize; 7],
    snapshot_blob: usize,
    counter_lookup_callback: usize,
    create_histogram_callback: usize,
    add_histogram_sample_callback: usize,
    array_buffer_allocator: usize,
    array_buffer_allocator_shared: SP,
    external_references: usize,
    allow_atomics_wait: bool,
    fatal: usize,
    oom: usize,
    cpp_heap: usize,
}
#[unsafe(no_mangle)]
extern "C" fn v8__Isolate__CreateParams__SIZEOF() -> usize {
    std::mem::size_of::<RawParams>()
}
#[unsafe(no_mangle)]
extern "C" fn v8__Isolate__CreateParams__CONSTRUCT(p: *mut RawParams) {
    unsafe {
        std::ptr::write_bytes(p, 0, 1);
        (*p).allow_atomics_wait = true;
    }
}
#[unsafe(no_mangle)]
extern "C" fn v8__ResourceConstraints__ConfigureDefaultsFromHeapSize(c: *mut [usize; 7], init: usize, max: usize) {
    unsafe {
        (*c)[3] = init;
        (*c)[1] = max;
    }
}
#[unsafe(no_mangle)]
extern "C" fn v8__Isolate__New(p: *const RawParams) -> *mut FakeIsolate {
    sim::point();
    let id = {
        let mut g = G.lock().unwrap();
        if g.initialized == 0 {
            drop(g);
            sim::fail("v8-not-initialized", "isolate created before V8 was initialized");
        }
        g.next_iso += 1;
        g.next_iso
    };
    let p = unsafe { &*p };
    let sp = p.array_buffer_allocator_shared.0[0] as *const FakeAllocator;
    let alloc = if sp.is_null() { None } else { unsafe { (*sp).rust } };
    sim::probe("v8.isolate_created");
    Box::into_raw(Box::new(FakeIsolate {
        id,
        key: sim::fresh_key(),
        data: [std::ptr::null_mut(); 8],
        st: Mutex::new(IsoState { heap_init: p.constraints[3], heap_max: p.constraints[1], alloc, ..Default::default() }),
    }))
}
#[unsafe(no_mangle)]
extern "C" fn v8__Isolate__Dispose(p: *mut FakeIsolate) {
    let i = iso(p, "dispose");
    if let Some(o) = i.get(|s| s.owner) {
        sim::fail("v8-dispose-locked", &format!("isolate {} disposed while thread {o} holds its lock", i.id));
    }
    let a = i.get(|s| {
        s.disposed = true;
        s.alloc.take()
    });
    sim::probe("v8.isolate_disposed");
    if let Some(a) = a {
        a.release();
    }
}
#[unsafe(no_mangle)]
extern "C" fn v8__Isolate__GetNumberOfDataSlots(_: *const FakeIsolate) -> u32 {
    8
}
#[unsafe(no_mangle)]
extern "C" fn v8__Isolate__GetData(p: *const FakeIsolate, n: u32) -> *mut c_void {
    unsafe { (*p).data[n as usize] }
}
#[unsafe(no_mangle)]
extern "C" fn v8__Isolate__SetData(p: *mut FakeIsolate, n: u32, d: *mut c_void) {
    unsafe { (*p).data[n as usize] = d }
}
#[unsafe(no_mangle)]
extern "C" fn v8__Isolate__Enter(p: *mut FakeIsolate) {
    let i = iso(p, "enter");
    require_lock(i, "isolate entered");
}
#[unsafe(no_mangle)]
extern "C" fn v8__Isolate__Exit(p: *mut FakeIsolate) {
    let i = iso(p, "exit");
    require_lock(i, "isolate exited");
}
#[unsafe(no_mangle)]
extern "C" fn v8__Locker__CONSTRUCT(buf: *mut usize, p: *mut FakeIsolate) {
    sim::point();
    let m = me();
    loop {
        let i = iso(p, "lock");
        let got = i.get(|s| {
            if s.owner.is_none() || s.owner == Some(m) {
                s.owner = Some(m);
                s.depth += 1;
                true
            } else {
                false
            }
        });
        if got {
            unsafe { *buf = p as usize };
            return;
        }
        sim::probe("v8.lock_contended");
        sim::block(i.key, None);
    }
}
#[unsafe(no_mangle)]
extern "C" fn v8__Locker__DESTRUCT(buf: *mut usize) {
    let i = unsafe { &*(*buf as *const FakeIsolate) };
    require_lock(i, "lock released");
    i.get(|s| {
        s.depth -= 1;
        if s.depth == 0 {
            s.owner = None;
        }
    });
    sim::wake_all(i.key);
    sim::point();
}
#[unsafe(no_mangle)]
extern "C" fn v8__Locker__IsLocked(p: *const FakeIsolate) -> bool {
    let m = me();
    unsafe { (*p).get(|s| s.owner == Some(m)) }
}
#[unsafe(no_mangle)]
extern "C" fn v8__Locker__SIZE() -> usize {
    16
}
// Called with the bindings' own (real) mutex held: no scheduling point here.
#[unsafe(no_mangle)]
extern "C" fn v8__Isolate__TerminateExecution(p: *const FakeIsolate) {
    let i = iso(p, "terminate");
    let (now, m) = (sim::now(), me());
    i.get(|s| {
        s.terminating = true;
        s.terminations.push((now, m));
    });
    sim::note(0x7e47_0000 + i.id as u64);
    sim::log(|| format!("isolate {} terminated", i.id));
    sim::probe("v8.terminated");
}
#[unsafe(no_mangle)]
extern "C" fn v8__Isolate__CancelTerminateExecution(p: *const FakeIsolate) {
    iso(p, "cancel-terminate").get(|s| {
        s.terminating = false;
        s.cancels += 1;
    });
}
#[unsafe(no_mangle)]
extern "C" fn v8__Isolate__IsExecutionTerminating(p: *const FakeIsolate) -> bool {
    iso(p, "is-terminating").get(|s| s.terminating)
}
#[unsafe(no_mangle)]
extern "C" fn v8__Isolate__AdjustAmountOfExternalAllocatedMemory(p: *mut FakeIsolate, d: i64) -> i64 {
    sim::point();
    let i = iso(p, "external-memory adjustment");
    require_lock(i, "external memory adjusted");
    let v = i.get(|s| {
        s.external += d;
        s.adjusts += 1;
        s.external_min = s.external_min.min(s.external);
        s.external
    });
    sim::log(|| format!("isolate {} external memory {d:+} -> {v}", i.id));
    v
}
#[unsafe(no_mangle)]
extern "C" fn v8__Isolate__AddNearHeapLimitCallback(p: *mut FakeIsolate, cb: NearHeap, data: *mut c_void) {
    iso(p, "add near-heap-limit callback").get(|s| s.near_heap = Some((cb as usize, data as usize)));
}
#[unsafe(no_mangle)]
extern "C" fn v8__Isolate__RemoveNearHeapLimitCallback(p: *mut FakeIsolate, _cb: NearHeap, _l: usize) {
    iso(p, "remove near-heap-limit callback").get(|s| s.near_heap = None);
}
#[unsafe(no_mangle)]
extern "C" fn v8__Isolate__SetOOMErrorHandler(p: *mut FakeIsolate, _cb: usize) {
    iso(p, "set OOM handler").get(|s| s.oom_handler = true);
}

// -------------------------------------------------------------- platform --
#[unsafe(no_mangle)]
extern "C" fn udata_setCommonData_77(_d: *const u8, _e: *mut i32) {}
#[unsafe(no_mangle)]
extern "C" fn v8__V8__SetFlagsFromString(_f: *const u8, _n: usize) {
    sim::point();
}
#[unsafe(no_mangle)]
extern "C" fn v8__Platform__NewDefaultPlatform(_n: i32, _idle: bool) -> *mut u64 {
    sim::point();
    G.lock().unwrap().platforms += 1;
    Box::into_raw(Box::new(1u64))
}
#[unsafe(no_mangle)]
extern "C" fn std__shared_ptr__v8__Platform__CONVERT__std__unique_ptr(p: *mut u64) -> SP {
    SP([p as usize, 0])
}
#[unsafe(no_mangle)]
extern "C" fn std__shared_ptr__v8__Platform__get(p: *const SP) -> *mut u64 {
    unsafe { (*p).0[0] as *mut u64 }
}
#[unsafe(no_mangle)]
extern "C" fn std__shared_ptr__v8__Platform__COPY(p: *const SP) -> SP {
    unsafe { *p }
}
#[unsafe(no_mangle)]
extern "C" fn std__shared_ptr__v8__Platform__reset(p: *mut SP) {
    unsafe { (*p).0 = [0, 0] }
}
#[unsafe(no_mangle)]
extern "C" fn std__shared_ptr__v8__Platform__use_count(_p: *const SP) -> i64 {
    1
}
#[unsafe(no_mangle)]
extern "C" fn v8__V8__InitializePlatform(_p: *mut u64) {
    G.lock().unwrap().initialized += 0;
}
#[unsafe(no_mangle)]
extern "C" fn v8__V8__Initialize() {
    let n = {
        let mut g = G.lock().unwrap();
        g.initialized += 1;
        g.initialized
    };
    if n > 1 {
        sim::fail("v8-double-init", "V8 initialized twice in one process");
    }
}
#[unsafe(no_mangle)]
extern "C" fn v8__Platform__NotifyIsolateShutdown(_p: *mut u64, _i: *mut FakeIsolate) {}

// ------------------------------------------------------------- allocator --
pub struct FakeAllocator {
    rust: Option<RustAlloc>,
}
#[unsafe(no_mangle)]
extern "C" fn v8__ArrayBuffer__Allocator__NewDefaultAllocator() -> *mut FakeAllocator {
    Box::into_raw(Box::new(FakeAllocator { rust: None }))
}
#[unsafe(no_mangle)]
extern "C" fn v8__ArrayBuffer__Allocator__NewRustAllocator(handle: *const c_void, vtable: *const Vtable) -> *mut FakeAllocator {
    Box::into_raw(Box::new(FakeAllocator { rust: Some(RustAlloc { handle, vtable }) }))
}
/// The Rust allocator behind a `v8::Allocator`, without releasing it.
pub fn rust_alloc(u: v8::UniqueRef<v8::Allocator>) -> RustAlloc {
    let p: *const v8::Allocator = &*u;
    std::mem::forget(u);
    unsafe { (*(p as *const FakeAllocator)).rust.expect("not a Rust allocator") }
}
#[unsafe(no_mangle)]
extern "C" fn v8__ArrayBuffer__Allocator__DELETE(a: *mut FakeAllocator) {
    let a = unsafe { Box::from_raw(a) };
    if let Some(r) = a.rust {
        r.release();
    }
}
#[unsafe(no_mangle)]
extern "C" fn std__shared_ptr__v8__ArrayBuffer__Allocator__CONVERT__std__unique_ptr(p: *mut FakeAllocator) -> SP {
    SP([p as usize, 0])
}
#[unsafe(no_mangle)]
extern "C" fn std__shared_ptr__v8__ArrayBuffer__Allocator__get(p: *const SP) -> *mut FakeAllocator {
    unsafe { (*p).0[0] as *mut FakeAllocator }
}
#[unsafe(no_mangle)]
extern "C" fn std__shared_ptr__v8__ArrayBuffer__Allocator__COPY(p: *const SP) -> SP {
    unsafe { *p }
}
#[unsafe(no_mangle)]
extern "C" fn std__shared_ptr__v8__ArrayBuffer__Allocator__reset(p: *mut SP) {
    unsafe { (*p).0 = [0, 0] }
}
#[unsafe(no_mangle)]
extern "C" fn std__shared_ptr__v8__ArrayBuffer__Allocator__use_count(_p: *const SP) -> i64 {
    1
}
#[allow(dead_code)]
fn _unused(_: *const c_char) {}
impl FakeIsolate {
    /// What V8 does when the heap is nearly full: ask the embedder for room.
    pub fn near_heap_limit(&self, current: usize) -> Option<usize> {
        let (cb, data) = self.get(|s| s.near_heap)?;
        let init = self.get(|s| s.heap_init);
        let f: NearHeap = unsafe { std::mem::transmute(cb) };
        Some(unsafe { f(data as *mut c_void, current, init) })
    }
}
/// A plain isolate and its model.
pub fn plain_isolate() -> (v8::UnenteredIsolate, &'static FakeIsolate) {
    let _ = sut::platform::get_platform();
    let i = v8::Isolate::new_unentered(v8::CreateParams::default());
    let f = of(&i);
    (i, f)
}
pub fn handle(i: &mut v8::UnenteredIsolate) -> v8::IsolateHandle {
    v8::Locker::new(i).thread_safe_handle()
}
