//! Threads.
pub use real::thread::Result;
use real::any::Any;
use real::cell::UnsafeCell;
use real::fmt;
use real::num::NonZeroUsize;
use real::panic::{catch_unwind, AssertUnwindSafe};
use real::sync::Arc;
use real::time::Duration;
use crate::rt::{self, rt};

struct Packet<T> { val: UnsafeCell<Option<Result<T>>> }
unsafe impl<T: Send> Send for Packet<T> {}
unsafe impl<T: Send> Sync for Packet<T> {}

pub struct JoinHandle<T> { tid: usize, packet: Arc<Packet<T>>, thread: Thread }
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> fmt::Debug for JoinHandle<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("JoinHandle") } }
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        let t = self.tid;
        rt::wait(&|| rt::done(t), None);
        unsafe { (*self.packet.val.get()).take().unwrap() }
    }
    pub fn is_finished(&self) -> bool { rt::point(); rt::done(self.tid) }
    pub fn thread(&self) -> &Thread { &self.thread }
    pub fn tid(&self) -> usize { self.tid }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct ThreadId(usize);
#[derive(Clone, Debug)]
pub struct Thread { tid: usize, token: Arc<UnsafeToken> }
#[derive(Debug)]
struct UnsafeToken(UnsafeCell<bool>);
unsafe impl Send for UnsafeToken {}
unsafe impl Sync for UnsafeToken {}
impl Thread {
    pub fn id(&self) -> ThreadId { ThreadId(self.tid) }
    pub fn name(&self) -> Option<&str> { if self.tid == 0 { Some("main") } else { rt::name(self.tid) } }
    pub fn unpark(&self) { rt::point(); unsafe { *self.token.0.get() = true; } }
}
static mut TOKENS: (u64, Vec<Arc<UnsafeToken>>) = (0, Vec::new());
fn token(t: usize) -> Arc<UnsafeToken> {
    unsafe {
        if TOKENS.0 != rt().generation { TOKENS.0 = rt().generation; TOKENS.1.clear(); }
        while TOKENS.1.len() <= t { TOKENS.1.push(Arc::new(UnsafeToken(UnsafeCell::new(false)))); }
        TOKENS.1[t].clone()
    }
}
pub fn current() -> Thread { let t = rt().cur; Thread { tid: t, token: token(t) } }
pub fn park() { let k = token(rt().cur); rt::wait(&|| unsafe { *k.0.get() }, None); unsafe { *k.0.get() = false; } }
pub fn park_timeout(d: Duration) {
    let k = token(rt().cur);
    let at = rt().clock + ns(d);
    rt::wait(&|| unsafe { *k.0.get() }, Some(at));
    unsafe { *k.0.get() = false; }
}
pub(crate) fn ns(d: Duration) -> u64 { u64::try_from(d.as_nanos()).unwrap_or(u64::MAX / 4).min(u64::MAX / 4) }
pub fn sleep(d: Duration) { let at = rt().clock + ns(d).max(1); rt::wait(&|| false, Some(at)); }
pub fn sleep_ms(d: u32) { sleep(Duration::from_millis(d.into())) }
pub fn yield_now() { rt::polite(); }
pub fn panicking() -> bool { real::thread::panicking() }
pub fn available_parallelism() -> real::io::Result<NonZeroUsize> { Ok(NonZeroUsize::new(4).unwrap()) }

fn start<'a, F, T>(f: F, name: Option<String>, outside: bool) -> JoinHandle<T>
where F: FnOnce() -> T + 'a, T: 'a {
    let packet = Arc::new(Packet { val: UnsafeCell::new(None) });
    let p2 = packet.clone();
    let body: Box<dyn FnOnce() + 'a> = Box::new(move || {
        let res = catch_unwind(AssertUnwindSafe(f));
        if let Err(e) = &res { report(&**e); }
        end_locals();
        unsafe { *p2.val.get() = Some(res); }
    });
    let body: Box<dyn FnOnce()> = unsafe { real::mem::transmute(body) };
    let tid = rt::spawn(body, name, outside);
    JoinHandle { tid, packet, thread: Thread { tid, token: token(tid) } }
}

/// A panic is always a failure.
pub fn report(e: &(dyn Any + Send)) -> ! {
    let _ = e;
    let m = rt().last_panic.clone();
    rt::fail(real::format!("panic: {m}"))
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where F: FnOnce() -> T + Send + 'static, T: Send + 'static { let h = start(f, None, false); rt::point(); h }

/// Something going on outside of the program.
pub fn spawn_outside<F>(f: F) -> JoinHandle<()>
where F: FnOnce() + 'static { start(f, None, true) }

#[derive(Debug, Default)]
pub struct Builder { name: Option<String> }
impl Builder {
    pub fn new() -> Self { Self { name: None } }
    pub fn name(mut self, n: String) -> Self { self.name = Some(n); self }
    pub fn stack_size(self, _n: usize) -> Self { self }
    pub fn spawn<F, T>(self, f: F) -> real::io::Result<JoinHandle<T>>
    where F: FnOnce() -> T + Send + 'static, T: Send + 'static { let h = start(f, self.name, false); rt::point(); Ok(h) }
    pub fn spawn_scoped<'s, 'e, F, T>(self, scope: &'s Scope<'s, 'e>, f: F) -> real::io::Result<ScopedJoinHandle<'s, T>>
    where F: FnOnce() -> T + Send + 's, T: Send + 's { Ok(scope.start(f, self.name)) }
}

pub struct Scope<'s, 'e: 's> { kids: UnsafeCell<Vec<usize>>, p: real::marker::PhantomData<(&'s mut &'s (), &'e mut &'e ())> }
pub struct ScopedJoinHandle<'s, T> { h: JoinHandle<T>, p: real::marker::PhantomData<&'s ()> }
impl<T> ScopedJoinHandle<'_, T> {
    pub fn join(self) -> Result<T> { self.h.join() }
    pub fn is_finished(&self) -> bool { self.h.is_finished() }
    pub fn thread(&self) -> &Thread { self.h.thread() }
}
impl<'s, 'e> Scope<'s, 'e> {
    pub fn spawn<F, T>(&'s self, f: F) -> ScopedJoinHandle<'s, T>
    where F: FnOnce() -> T + Send + 's, T: Send + 's { self.start(f, None) }
    fn start<F, T>(&'s self, f: F, name: Option<String>) -> ScopedJoinHandle<'s, T>
    where F: FnOnce() -> T + Send + 's, T: Send + 's {
        let h = start(f, name, false);
        unsafe { (*self.kids.get()).push(h.tid); }
        rt::point();
        ScopedJoinHandle { h, p: real::marker::PhantomData }
    }
}
pub fn scope<'e, F, T>(f: F) -> T
where F: for<'s> FnOnce(&'s Scope<'s, 'e>) -> T {
    let s = Scope { kids: UnsafeCell::new(Vec::new()), p: real::marker::PhantomData };
    let out = f(unsafe { real::mem::transmute::<&Scope<'_, 'e>, &Scope<'_, 'e>>(&s) });
    let kids = unsafe { (*s.kids.get()).clone() };
    rt::wait(&|| kids.iter().all(|&t| rt::done(t)), None);
    out
}

// ---- Locals ----

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct AccessError;
impl fmt::Display for AccessError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("already destroyed") } }
impl real::error::Error for AccessError {}

/// What there is to drop at the end of each thread.
static mut LAST: (u64, Vec<(usize, *const (), fn(*const (), usize))>) = (0, Vec::new());
fn at_end(t: usize, key: *const (), f: fn(*const (), usize)) {
    unsafe {
        if LAST.0 != rt().generation { LAST.0 = rt().generation; LAST.1.clear(); }
        LAST.1.push((t, key, f));
    }
}
fn end_locals() {
    unsafe {
        if LAST.0 != rt().generation { return; }
        let t = rt().cur;
        while let Some(i) = LAST.1.iter().position(|l| l.0 == t) { let (_, key, f) = LAST.1.remove(i); f(key, t); }
    }
}

/// One value for each of the scheduled threads.
pub struct LocalKey<T: 'static> { init: fn() -> T, vals: UnsafeCell<(u64, Vec<Option<Box<T>>>)> }
unsafe impl<T> Sync for LocalKey<T> {}
impl<T> fmt::Debug for LocalKey<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("LocalKey") } }
impl<T: 'static> LocalKey<T> {
    pub const fn new(init: fn() -> T) -> Self { Self { init, vals: UnsafeCell::new((0, Vec::new())) } }
    fn val(&'static self, first: Option<T>) -> (&'static T, Option<T>) {
        unsafe {
            let (now, t) = (rt().generation, rt().cur);
            let v = &mut *self.vals.get();
            // (What's left over belonged to threads that never got to their ends.)
            if v.0 != now { v.0 = now; real::mem::forget(real::mem::take(&mut v.1)); }
            let mut rest = first;
            if v.1.get(t).is_none_or(|o| o.is_none()) {
                // (Making one might involve others.)
                let new = rest.take().unwrap_or_else(self.init);
                let v = &mut *self.vals.get();
                while v.1.len() <= t { v.1.push(None); }
                v.1[t] = Some(Box::new(new));
                at_end(t, self as *const Self as *const (), Self::kill);
            }
            let v = &*self.vals.get();
            let p: *const T = &**v.1[t].as_ref().unwrap();
            (&*p, rest)
        }
    }
    fn kill(this: *const (), t: usize) {
        let old = unsafe { (&mut *(*this.cast::<Self>()).vals.get()).1[t].take() };
        drop(old);
    }
    pub fn with<F, R>(&'static self, f: F) -> R where F: FnOnce(&T) -> R { f(self.val(None).0) }
    pub fn try_with<F, R>(&'static self, f: F) -> real::result::Result<R, AccessError> where F: FnOnce(&T) -> R { Ok(self.with(f)) }
}
impl<T: 'static> LocalKey<real::cell::Cell<T>> {
    pub fn set(&'static self, v: T) { if let (c, Some(v)) = self.val(Some(real::cell::Cell::new(v))) { c.set(v.into_inner()); } }
    pub fn get(&'static self) -> T where T: Copy { self.with(|c| c.get()) }
    pub fn take(&'static self) -> T where T: Default { self.with(|c| c.take()) }
    pub fn replace(&'static self, v: T) -> T { self.with(|c| c.replace(v)) }
    pub fn update(&'static self, f: impl FnOnce(T) -> T) where T: Copy { self.with(|c| c.set(f(c.get()))) }
}
impl<T: 'static> LocalKey<real::cell::RefCell<T>> {
    pub fn with_borrow<F, R>(&'static self, f: F) -> R where F: FnOnce(&T) -> R { self.with(|c| f(&c.borrow())) }
    pub fn with_borrow_mut<F, R>(&'static self, f: F) -> R where F: FnOnce(&mut T) -> R { self.with(|c| f(&mut c.borrow_mut())) }
    pub fn set(&'static self, v: T) { if let (c, Some(v)) = self.val(Some(real::cell::RefCell::new(v))) { c.replace(v.into_inner()); } }
    pub fn take(&'static self) -> T where T: Default { self.with(|c| c.take()) }
    pub fn replace(&'static self, v: T) -> T { self.with(|c| c.replace(v)) }
}
