//! Locks and the like.
pub use real::sync::{Arc, LockResult, PoisonError, TryLockError, TryLockResult, Weak};
use real::cell::{Cell, UnsafeCell};
use real::fmt;
use real::ops::{Deref, DerefMut};
use real::time::Duration;
use crate::rt::{self, point, rt, touch};

pub mod atomic;
pub mod mpsc;

// ---- Mutex ----

pub struct Mutex<T: ?Sized> { locked: Cell<bool>, poison: Cell<bool>, data: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> { lock: &'a Mutex<T>, no_send: real::marker::PhantomData<*const ()> }
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Self { Self { locked: Cell::new(false), poison: Cell::new(false), data: UnsafeCell::new(t) } }
    pub fn into_inner(self) -> LockResult<T> { let p = self.poison.get(); let v = self.data.into_inner(); if p { Err(PoisonError::new(v)) } else { Ok(v) } }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        self.locked.set(true);
        let g = MutexGuard { lock: self, no_send: real::marker::PhantomData };
        if self.poison.get() { Err(PoisonError::new(g)) } else { Ok(g) }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        touch(self);
        rt::wait(&|| ! self.locked.get(), None);
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        touch(self);
        point();
        if self.locked.get() { Err(TryLockError::WouldBlock) }
        else { self.guard().map_err(TryLockError::Poisoned) }
    }
    pub fn is_poisoned(&self) -> bool { self.poison.get() }
    pub fn clear_poison(&self) { self.poison.set(false) }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { let p = self.poison.get(); let v = self.data.get_mut(); if p { Err(PoisonError::new(v)) } else { Ok(v) } }
}
impl<T> From<T> for Mutex<T> { fn from(t: T) -> Self { Self::new(t) } }
impl<T: Default> Default for Mutex<T> { fn default() -> Self { Self::new(T::default()) } }
impl<T: ?Sized> fmt::Debug for Mutex<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Mutex") } }
impl<T: ?Sized> Deref for MutexGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.lock.data.get() } } }
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.lock.data.get() } } }
impl<T: ?Sized> Drop for MutexGuard<'_, T> { fn drop(&mut self) { if real::thread::panicking() { self.lock.poison.set(true); } self.lock.locked.set(false); } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }

// ---- RwLock ----

pub struct RwLock<T: ?Sized> { readers: Cell<usize>, writer: Cell<bool>, poison: Cell<bool>, data: UnsafeCell<T> }
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
impl<T> RwLock<T> {
    pub const fn new(t: T) -> Self { Self { readers: Cell::new(0), writer: Cell::new(false), poison: Cell::new(false), data: UnsafeCell::new(t) } }
    pub fn into_inner(self) -> LockResult<T> { Ok(self.data.into_inner()) }
}
impl<T: ?Sized> RwLock<T> {
    fn rg(&self) -> LockResult<RwLockReadGuard<'_, T>> { self.readers.set(self.readers.get() + 1); let g = RwLockReadGuard(self); if self.poison.get() { Err(PoisonError::new(g)) } else { Ok(g) } }
    fn wg(&self) -> LockResult<RwLockWriteGuard<'_, T>> { self.writer.set(true); let g = RwLockWriteGuard(self); if self.poison.get() { Err(PoisonError::new(g)) } else { Ok(g) } }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> { touch(self); rt::wait(&|| ! self.writer.get(), None); self.rg() }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> { touch(self); rt::wait(&|| ! self.writer.get() && self.readers.get() == 0, None); self.wg() }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> { touch(self); point(); if self.writer.get() { Err(TryLockError::WouldBlock) } else { self.rg().map_err(TryLockError::Poisoned) } }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> { touch(self); point(); if self.writer.get() || self.readers.get() != 0 { Err(TryLockError::WouldBlock) } else { self.wg().map_err(TryLockError::Poisoned) } }
    pub fn is_poisoned(&self) -> bool { self.poison.get() }
    pub fn clear_poison(&self) { self.poison.set(false) }
    pub fn get_mut(&mut self) -> LockResult<&mut T> { Ok(self.data.get_mut()) }
}
impl<T> From<T> for RwLock<T> { fn from(t: T) -> Self { Self::new(t) } }
impl<T: Default> Default for RwLock<T> { fn default() -> Self { Self::new(T::default()) } }
impl<T: ?Sized> fmt::Debug for RwLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("RwLock") } }
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.data.get() } } }
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> { type Target = T; fn deref(&self) -> &T { unsafe { &*self.0.data.get() } } }
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> { fn deref_mut(&mut self) -> &mut T { unsafe { &mut *self.0.data.get() } } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockReadGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLockWriteGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized + fmt::Display> fmt::Display for RwLockReadGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<T: ?Sized + fmt::Display> fmt::Display for RwLockWriteGuard<'_, T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { (**self).fmt(f) } }
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.0;
        drop(s);
        l.readers.set(l.readers.get() + 1);
        RwLockReadGuard(l)
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> { fn drop(&mut self) { self.0.readers.set(self.0.readers.get() - 1); } }
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> { fn drop(&mut self) { if real::thread::panicking() { self.0.poison.set(true); } self.0.writer.set(false); } }

// ---- Condvar ----

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult { pub fn timed_out(&self) -> bool { self.0 } }
pub struct Condvar { waiters: UnsafeCell<Vec<(usize, u64)>>, next: Cell<u64> }
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
impl Default for Condvar { fn default() -> Self { Self::new() } }
impl fmt::Debug for Condvar { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Condvar") } }
impl Condvar {
    pub const fn new() -> Self { Self { waiters: UnsafeCell::new(Vec::new()), next: Cell::new(0) } }
    fn w(&self) -> &mut Vec<(usize, u64)> { unsafe { &mut *self.waiters.get() } }
    fn sleep<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, at: Option<u64>) -> (LockResult<MutexGuard<'a, T>>, bool) {
        touch(self);
        // Others may get in before the wait begins; they find the lock taken.
        point();
        let lock = g.lock;
        let id = self.next.get();
        self.next.set(id + 1);
        self.w().push((rt().cur, id));
        drop(g);
        let ok = rt::wait(&|| ! self.w().iter().any(|w| w.1 == id), at);
        if ! ok { self.w().retain(|w| w.1 != id); }
        (lock.lock(), ! ok)
    }
    pub fn wait<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> { self.sleep(g, None).0 }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) { g = self.wait(g)?; }
        Ok(g)
    }
    pub fn wait_timeout<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, d: Duration) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let at = rt().clock + crate::thread::ns(d);
        let (r, late) = self.sleep(g, Some(at));
        match r {
            Ok(g) => Ok((g, WaitTimeoutResult(late))),
            Err(e) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(late)))),
        }
    }
    pub fn wait_timeout_ms<'a, T: ?Sized>(&self, g: MutexGuard<'a, T>, ms: u32) -> LockResult<(MutexGuard<'a, T>, bool)> {
        match self.wait_timeout(g, Duration::from_millis(ms.into())) {
            Ok((g, r)) => Ok((g, ! r.timed_out())),
            Err(e) => { let (g, r) = e.into_inner(); Err(PoisonError::new((g, ! r.timed_out()))) },
        }
    }
    pub fn wait_timeout_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, d: Duration, mut f: F) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        let end = rt().clock + crate::thread::ns(d);
        loop {
            if ! f(&mut *g) { return Ok((g, WaitTimeoutResult(false))); }
            let now = rt().clock;
            if now >= end { return Ok((g, WaitTimeoutResult(true))); }
            g = self.wait_timeout(g, Duration::from_nanos(end - now))?.0;
        }
    }
    pub fn notify_one(&self) { touch(self); point(); let w = self.w(); if ! w.is_empty() { let n = w.len(); let i = rt::choose(n, rt::BLOCK); w.remove(i); } }
    pub fn notify_all(&self) { touch(self); point(); self.w().clear(); }
}

// ---- Once and friends ----

pub struct Once { state: Cell<u8> }
unsafe impl Send for Once {}
unsafe impl Sync for Once {}
pub const ONCE_INIT: Once = Once::new();
impl Once {
    pub const fn new() -> Self { Self { state: Cell::new(0) } }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        touch(self);
        rt::wait(&|| self.state.get() != 1, None);
        if self.state.get() == 3 { panic!("Once instance has previously been poisoned"); }
        if self.state.get() == 0 { let g = During(&self.state, 3); self.state.set(1); f(); g.done(); }
    }
    pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
        touch(self);
        rt::wait(&|| self.state.get() != 1, None);
        let old = self.state.get();
        if old != 2 { let g = During(&self.state, 3); self.state.set(1); f(&OnceState(old == 3)); g.done(); }
    }
    pub fn wait(&self) {
        touch(self);
        rt::wait(&|| 2 <= self.state.get(), None);
        if self.state.get() == 3 { panic!("Once instance has previously been poisoned"); }
    }
    pub fn wait_force(&self) { touch(self); rt::wait(&|| 2 <= self.state.get(), None); }
    pub fn is_completed(&self) -> bool { touch(self); point(); self.state.get() == 2 }
}
impl fmt::Debug for Once { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Once") } }

#[derive(Debug)]
pub struct OnceState(bool);
impl OnceState { pub fn is_poisoned(&self) -> bool { self.0 } }

/// Leave another state behind should the initialization panic.
struct During<'a>(&'a Cell<u8>, u8);
impl During<'_> { fn done(self) { self.0.set(2); real::mem::forget(self); } }
impl Drop for During<'_> { fn drop(&mut self) { self.0.set(self.1); } }

pub struct OnceLock<T> { state: Cell<u8>, data: UnsafeCell<Option<T>> }
unsafe impl<T: Send> Send for OnceLock<T> {}
unsafe impl<T: Send + Sync> Sync for OnceLock<T> {}
impl<T> OnceLock<T> {
    pub const fn new() -> Self { Self { state: Cell::new(0), data: UnsafeCell::new(None) } }
    pub fn get(&self) -> Option<&T> { touch(self); point(); if self.state.get() == 2 { unsafe { (*self.data.get()).as_ref() } } else { None } }
    pub fn get_mut(&mut self) -> Option<&mut T> { self.data.get_mut().as_mut() }
    pub fn set(&self, v: T) -> Result<(), T> {
        let mut v = Some(v);
        self.get_or_init(|| v.take().unwrap());
        match v { None => Ok(()), Some(v) => Err(v) }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        touch(self);
        rt::wait(&|| self.state.get() != 1, None);
        if self.state.get() == 0 {
            let g = During(&self.state, 0);
            self.state.set(1);
            let v = f();
            unsafe { *self.data.get() = Some(v); }
            g.done();
        }
        unsafe { (*self.data.get()).as_ref().unwrap() }
    }
    pub fn wait(&self) -> &T { touch(self); rt::wait(&|| self.state.get() == 2, None); unsafe { (*self.data.get()).as_ref().unwrap() } }
    pub fn into_inner(self) -> Option<T> { self.data.into_inner() }
    pub fn take(&mut self) -> Option<T> { self.state.set(0); self.data.get_mut().take() }
}
impl<T> Default for OnceLock<T> { fn default() -> Self { Self::new() } }
impl<T> fmt::Debug for OnceLock<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("OnceLock") } }
impl<T: Clone> Clone for OnceLock<T> { fn clone(&self) -> Self { match self.get() { Some(v) => v.clone().into(), None => Self::new() } } }
impl<T: PartialEq> PartialEq for OnceLock<T> { fn eq(&self, o: &Self) -> bool { self.get() == o.get() } }
impl<T: Eq> Eq for OnceLock<T> {}
impl<T> From<T> for OnceLock<T> { fn from(t: T) -> Self { Self { state: Cell::new(2), data: UnsafeCell::new(Some(t)) } } }

pub struct LazyLock<T, F = fn() -> T> { cell: OnceLock<T>, init: Cell<Option<F>> }
unsafe impl<T: Send, F: Send> Send for LazyLock<T, F> {}
unsafe impl<T: Send + Sync, F: Send> Sync for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> Self { Self { cell: OnceLock::new(), init: Cell::new(Some(f)) } }
    pub fn force(this: &Self) -> &T { touch(this); this.cell.get_or_init(|| (this.init.take().unwrap())()) }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> { type Target = T; fn deref(&self) -> &T { Self::force(self) } }
impl<T, F> fmt::Debug for LazyLock<T, F> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("LazyLock") } }

// ---- Barrier ----

pub struct Barrier { n: usize, count: Cell<usize>, round: Cell<usize> }
unsafe impl Send for Barrier {}
unsafe impl Sync for Barrier {}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult { pub fn is_leader(&self) -> bool { self.0 } }
impl fmt::Debug for Barrier { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Barrier") } }
impl Barrier {
    pub const fn new(n: usize) -> Self { Self { n, count: Cell::new(0), round: Cell::new(0) } }
    pub fn wait(&self) -> BarrierWaitResult {
        touch(self);
        point();
        let r = self.round.get();
        self.count.set(self.count.get() + 1);
        if self.count.get() >= self.n { self.count.set(0); self.round.set(r + 1); return BarrierWaitResult(true); }
        rt::wait(&|| self.round.get() != r, None);
        BarrierWaitResult(false)
    }
}
