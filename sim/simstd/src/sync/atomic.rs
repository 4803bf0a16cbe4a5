//! Atomics: a scheduling point before every operation and after every write (sequentially consistent
//! interleavings; weak-memory reorderings are not modelled).
pub use ::std::sync::atomic::{Ordering, compiler_fence, fence};
use crate::sim::point;
use ::std::sync::atomic as real;
use ::std::fmt;

/// What follows a write may be something that is no scheduling point itself.
fn wrote<T>(v: T) -> T { point(); v }

macro_rules! common {
    ($name:ident, $t:ty) => {
        #[repr(transparent)]
        pub struct $name(real::$name);
        impl $name {
            pub const fn new(v: $t) -> Self { $name(real::$name::new(v)) }
            pub fn load(&self, o: Ordering) -> $t { point(); self.0.load(o) }
            pub fn store(&self, v: $t, o: Ordering) { point(); wrote(self.0.store(v, o)) }
            pub fn swap(&self, v: $t, o: Ordering) -> $t { point(); wrote(self.0.swap(v, o)) }
            pub fn compare_exchange(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> { point(); wrote(self.0.compare_exchange(a, b, s, f)) }
            pub fn compare_exchange_weak(&self, a: $t, b: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                point();
                if crate::sim::rarely(24) { return Err(self.0.load(Ordering::SeqCst)); }
                wrote(self.0.compare_exchange(a, b, s, f))
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                let mut prev = self.load(f);
                while let Some(next) = g(prev) {
                    match self.compare_exchange_weak(prev, next, s, f) { Ok(x) => return Ok(x), Err(p) => prev = p }
                }
                Err(prev)
            }
            pub fn into_inner(self) -> $t { self.0.into_inner() }
            pub fn get_mut(&mut self) -> &mut $t { self.0.get_mut() }
            pub const fn as_ptr(&self) -> *mut $t { self.0.as_ptr() }
        }
        impl Default for $name { fn default() -> Self { Self(Default::default()) } }
        impl From<$t> for $name { fn from(v: $t) -> Self { Self::new(v) } }
        impl fmt::Debug for $name { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
    };
}
macro_rules! int {
    ($($name:ident $t:ty),* $(,)?) => { $(
        common!($name, $t);
        impl $name {
            pub fn fetch_add(&self, v: $t, o: Ordering) -> $t { point(); wrote(self.0.fetch_add(v, o)) }
            pub fn fetch_sub(&self, v: $t, o: Ordering) -> $t { point(); wrote(self.0.fetch_sub(v, o)) }
            pub fn fetch_and(&self, v: $t, o: Ordering) -> $t { point(); wrote(self.0.fetch_and(v, o)) }
            pub fn fetch_nand(&self, v: $t, o: Ordering) -> $t { point(); wrote(self.0.fetch_nand(v, o)) }
            pub fn fetch_or(&self, v: $t, o: Ordering) -> $t { point(); wrote(self.0.fetch_or(v, o)) }
            pub fn fetch_xor(&self, v: $t, o: Ordering) -> $t { point(); wrote(self.0.fetch_xor(v, o)) }
            pub fn fetch_max(&self, v: $t, o: Ordering) -> $t { point(); wrote(self.0.fetch_max(v, o)) }
            pub fn fetch_min(&self, v: $t, o: Ordering) -> $t { point(); wrote(self.0.fetch_min(v, o)) }
        }
    )* };
}
int!(AtomicUsize usize, AtomicIsize isize, AtomicU64 u64, AtomicI64 i64, AtomicU32 u32, AtomicI32 i32, AtomicU16 u16, AtomicI16 i16, AtomicU8 u8, AtomicI8 i8);
common!(AtomicBool, bool);
impl AtomicBool {
    pub fn fetch_and(&self, v: bool, o: Ordering) -> bool { point(); wrote(self.0.fetch_and(v, o)) }
    pub fn fetch_nand(&self, v: bool, o: Ordering) -> bool { point(); wrote(self.0.fetch_nand(v, o)) }
    pub fn fetch_or(&self, v: bool, o: Ordering) -> bool { point(); wrote(self.0.fetch_or(v, o)) }
    pub fn fetch_xor(&self, v: bool, o: Ordering) -> bool { point(); wrote(self.0.fetch_xor(v, o)) }
    pub fn fetch_not(&self, o: Ordering) -> bool { point(); wrote(self.0.fetch_xor(true, o)) }
}

#[repr(transparent)]
pub struct AtomicPtr<T>(real::AtomicPtr<T>);
impl<T> AtomicPtr<T> {
    pub const fn new(v: *mut T) -> Self { AtomicPtr(real::AtomicPtr::new(v)) }
    pub fn load(&self, o: Ordering) -> *mut T { point(); self.0.load(o) }
    pub fn store(&self, v: *mut T, o: Ordering) { point(); wrote(self.0.store(v, o)) }
    pub fn swap(&self, v: *mut T, o: Ordering) -> *mut T { point(); wrote(self.0.swap(v, o)) }
    pub fn compare_exchange(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> { point(); wrote(self.0.compare_exchange(a, b, s, f)) }
    pub fn compare_exchange_weak(&self, a: *mut T, b: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> { point(); wrote(self.0.compare_exchange(a, b, s, f)) }
    pub fn get_mut(&mut self) -> &mut *mut T { self.0.get_mut() }
    pub fn into_inner(self) -> *mut T { self.0.into_inner() }
}
impl<T> Default for AtomicPtr<T> { fn default() -> Self { Self::new(::std::ptr::null_mut()) } }
