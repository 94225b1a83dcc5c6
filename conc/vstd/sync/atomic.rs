//! Atomics (sequentially consistent, whatever the ordering says).
pub use real::sync::atomic::{compiler_fence, Ordering};
use real::fmt;
use crate::rt::{point, touch};
const SC: Ordering = Ordering::SeqCst;
pub fn fence(_: Ordering) { point(); }
pub fn spin_loop_hint() { crate::rt::polite(); }

macro_rules! common {
    ($ty:ident, $real:ident, $v:ty) => {
        #[repr(transparent)]
        pub struct $ty(real::sync::atomic::$real);
        impl $ty {
            pub const fn new(v: $v) -> Self { Self(real::sync::atomic::$real::new(v)) }
            pub fn load(&self, _: Ordering) -> $v { touch(self); point(); self.0.load(SC) }
            pub fn store(&self, v: $v, _: Ordering) { touch(self); point(); self.0.store(v, SC) }
            pub fn swap(&self, v: $v, _: Ordering) -> $v { touch(self); point(); self.0.swap(v, SC) }
            pub fn compare_exchange(&self, a: $v, b: $v, _: Ordering, _: Ordering) -> Result<$v, $v> { touch(self); point(); self.0.compare_exchange(a, b, SC, SC) }
            pub fn compare_exchange_weak(&self, a: $v, b: $v, _: Ordering, _: Ordering) -> Result<$v, $v> { touch(self); point(); self.0.compare_exchange(a, b, SC, SC) }
            pub fn compare_and_swap(&self, a: $v, b: $v, o: Ordering) -> $v { match self.compare_exchange(a, b, o, o) { Ok(v) | Err(v) => v } }
            pub fn fetch_update<F: FnMut($v) -> Option<$v>>(&self, s: Ordering, l: Ordering, mut f: F) -> Result<$v, $v> {
                let mut prev = self.load(l);
                while let Some(next) = f(prev) {
                    match self.compare_exchange_weak(prev, next, s, l) { Ok(v) => return Ok(v), Err(v) => prev = v }
                }
                Err(prev)
            }
            pub fn try_update<F: FnMut($v) -> Option<$v>>(&self, s: Ordering, l: Ordering, f: F) -> Result<$v, $v> { self.fetch_update(s, l, f) }
            pub fn update<F: FnMut($v) -> $v>(&self, s: Ordering, l: Ordering, mut f: F) -> $v { match self.fetch_update(s, l, |v| Some(f(v))) { Ok(v) | Err(v) => v } }
            pub fn get_mut(&mut self) -> &mut $v { self.0.get_mut() }
            pub fn into_inner(self) -> $v { self.0.into_inner() }
            pub const fn as_ptr(&self) -> *mut $v { self.0.as_ptr() }
        }
        impl fmt::Debug for $ty { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
        impl From<$v> for $ty { fn from(v: $v) -> Self { Self::new(v) } }
    };
}
macro_rules! int {
    ($($ty:ident $v:ty),+ $(,)?) => { $(
        common!($ty, $ty, $v);
        impl Default for $ty { fn default() -> Self { Self::new(0) } }
        impl $ty {
            pub fn fetch_add(&self, v: $v, _: Ordering) -> $v { touch(self); point(); self.0.fetch_add(v, SC) }
            pub fn fetch_sub(&self, v: $v, _: Ordering) -> $v { touch(self); point(); self.0.fetch_sub(v, SC) }
            pub fn fetch_and(&self, v: $v, _: Ordering) -> $v { touch(self); point(); self.0.fetch_and(v, SC) }
            pub fn fetch_nand(&self, v: $v, _: Ordering) -> $v { touch(self); point(); self.0.fetch_nand(v, SC) }
            pub fn fetch_or(&self, v: $v, _: Ordering) -> $v { touch(self); point(); self.0.fetch_or(v, SC) }
            pub fn fetch_xor(&self, v: $v, _: Ordering) -> $v { touch(self); point(); self.0.fetch_xor(v, SC) }
            pub fn fetch_max(&self, v: $v, _: Ordering) -> $v { touch(self); point(); self.0.fetch_max(v, SC) }
            pub fn fetch_min(&self, v: $v, _: Ordering) -> $v { touch(self); point(); self.0.fetch_min(v, SC) }
        }
    )+ };
}
int!(AtomicU8 u8, AtomicU16 u16, AtomicU32 u32, AtomicU64 u64, AtomicUsize usize, AtomicI8 i8, AtomicI16 i16, AtomicI32 i32, AtomicI64 i64, AtomicIsize isize);
common!(AtomicBool, AtomicBool, bool);
impl Default for AtomicBool { fn default() -> Self { Self::new(false) } }
impl AtomicBool {
    pub fn fetch_and(&self, v: bool, _: Ordering) -> bool { touch(self); point(); self.0.fetch_and(v, SC) }
    pub fn fetch_nand(&self, v: bool, _: Ordering) -> bool { touch(self); point(); self.0.fetch_nand(v, SC) }
    pub fn fetch_or(&self, v: bool, _: Ordering) -> bool { touch(self); point(); self.0.fetch_or(v, SC) }
    pub fn fetch_xor(&self, v: bool, _: Ordering) -> bool { touch(self); point(); self.0.fetch_xor(v, SC) }
    pub fn fetch_not(&self, _: Ordering) -> bool { touch(self); point(); self.0.fetch_xor(true, SC) }
}

#[repr(transparent)]
pub struct AtomicPtr<T>(real::sync::atomic::AtomicPtr<T>);
impl<T> AtomicPtr<T> {
    pub const fn new(v: *mut T) -> Self { Self(real::sync::atomic::AtomicPtr::new(v)) }
    pub fn load(&self, _: Ordering) -> *mut T { touch(self); point(); self.0.load(SC) }
    pub fn store(&self, v: *mut T, _: Ordering) { touch(self); point(); self.0.store(v, SC) }
    pub fn swap(&self, v: *mut T, _: Ordering) -> *mut T { touch(self); point(); self.0.swap(v, SC) }
    pub fn compare_exchange(&self, a: *mut T, b: *mut T, _: Ordering, _: Ordering) -> Result<*mut T, *mut T> { touch(self); point(); self.0.compare_exchange(a, b, SC, SC) }
}
impl<T> Default for AtomicPtr<T> { fn default() -> Self { Self::new(real::ptr::null_mut()) } }
impl<T> fmt::Debug for AtomicPtr<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.0.fmt(f) } }
