//! Channels.
pub use real::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use real::cell::{Cell, UnsafeCell};
use real::collections::VecDeque;
use real::fmt;
use real::sync::Arc;
use real::time::Duration;
use crate::rt::{point, rt, wait};

struct Chan<T> { q: UnsafeCell<VecDeque<T>>, cap: Option<usize>, taken: Cell<u64>, senders: Cell<usize>, alive: Cell<bool> }
unsafe impl<T: Send> Send for Chan<T> {}
unsafe impl<T: Send> Sync for Chan<T> {}
impl<T> Chan<T> { fn q(&self) -> &mut VecDeque<T> { unsafe { &mut *self.q.get() } } }
macro_rules! sender {
    ($ty:ident) => {
        pub struct $ty<T>(Arc<Chan<T>>);
        impl<T> Clone for $ty<T> { fn clone(&self) -> Self { self.0.senders.set(self.0.senders.get() + 1); Self(self.0.clone()) } }
        impl<T> Drop for $ty<T> { fn drop(&mut self) { self.0.senders.set(self.0.senders.get() - 1); } }
        impl<T> fmt::Debug for $ty<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(real::stringify!($ty)) } }
    };
}
sender!(Sender);
sender!(SyncSender);
pub struct Receiver<T>(Arc<Chan<T>>);
impl<T> fmt::Debug for Receiver<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("Receiver") } }
impl<T> Drop for Receiver<T> { fn drop(&mut self) { self.0.alive.set(false); } }
fn chan<T>(cap: Option<usize>) -> Arc<Chan<T>> { Arc::new(Chan { q: UnsafeCell::new(VecDeque::new()), cap, taken: Cell::new(0), senders: Cell::new(1), alive: Cell::new(true) }) }
pub fn channel<T>() -> (Sender<T>, Receiver<T>) { let c = chan(None); (Sender(c.clone()), Receiver(c)) }
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) { let c = chan(Some(n)); (SyncSender(c.clone()), Receiver(c)) }
impl<T> Sender<T> {
    pub fn send(&self, v: T) -> Result<(), SendError<T>> { point(); if ! self.0.alive.get() { return Err(SendError(v)); } self.0.q().push_back(v); Ok(()) }
}
impl<T> SyncSender<T> {
    pub fn send(&self, v: T) -> Result<(), SendError<T>> {
        let cap = self.0.cap.unwrap();
        wait(&|| ! self.0.alive.get() || self.0.q().len() < cap.max(1), None);
        if ! self.0.alive.get() { return Err(SendError(v)); }
        self.0.q().push_back(v);
        if cap == 0 { let want = self.0.taken.get() + self.0.q().len() as u64; wait(&|| ! self.0.alive.get() || self.0.taken.get() >= want, None); }
        Ok(())
    }
    pub fn try_send(&self, v: T) -> Result<(), TrySendError<T>> {
        point();
        if ! self.0.alive.get() { return Err(TrySendError::Disconnected(v)); }
        if self.0.q().len() >= self.0.cap.unwrap() { return Err(TrySendError::Full(v)); }
        self.0.q().push_back(v);
        Ok(())
    }
}
impl<T> Receiver<T> {
    fn pop(&self) -> Option<T> { let v = self.0.q().pop_front(); if v.is_some() { self.0.taken.set(self.0.taken.get() + 1); } v }
    pub fn recv(&self) -> Result<T, RecvError> { wait(&|| ! self.0.q().is_empty() || self.0.senders.get() == 0, None); self.pop().ok_or(RecvError) }
    pub fn try_recv(&self) -> Result<T, TryRecvError> { point(); self.pop().ok_or(if self.0.senders.get() == 0 { TryRecvError::Disconnected } else { TryRecvError::Empty }) }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        let at = rt().clock + crate::thread::ns(d);
        wait(&|| ! self.0.q().is_empty() || self.0.senders.get() == 0, Some(at));
        self.pop().ok_or(if self.0.senders.get() == 0 { RecvTimeoutError::Disconnected } else { RecvTimeoutError::Timeout })
    }
    pub fn iter(&self) -> Iter<'_, T> { Iter(self) }
    pub fn try_iter(&self) -> TryIter<'_, T> { TryIter(self) }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.try_recv().ok() } }
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> { type Item = T; fn next(&mut self) -> Option<T> { self.0.recv().ok() } }
impl<T> IntoIterator for Receiver<T> { type Item = T; type IntoIter = IntoIter<T>; fn into_iter(self) -> IntoIter<T> { IntoIter(self) } }
impl<'a, T> IntoIterator for &'a Receiver<T> { type Item = T; type IntoIter = Iter<'a, T>; fn into_iter(self) -> Iter<'a, T> { self.iter() } }
