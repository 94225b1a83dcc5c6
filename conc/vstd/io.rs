//! The standard streams.
pub use real::io::*;
use real::fmt;
use real::marker::PhantomData;
use real::os::fd::{AsFd, AsRawFd, BorrowedFd, RawFd};
use crate::rt::{self, choose, point, rt, Ev, FAULT};

/// Ways for a write to go wrong.
pub const SHORT1: u32 = 1;
pub const SHORT_HALF: u32 = 2;
pub const SHORT_LAST: u32 = 4;
pub const EINTR: u32 = 8;
pub const ZERO: u32 = 16;
pub const EIO: u32 = 32;
pub const EAGAIN: u32 = 64;

/// A write to a file descriptor: one system call.
pub fn raw(fd: i32, parts: &[&[u8]]) -> Result<usize> {
    point();
    let r = rt();
    let f = (fd as usize).min(2);
    let tid = r.cur;
    let len: usize = parts.iter().map(|p| p.len()).sum();
    if r.broken[f] != 0 {
        r.events.push(Ev::Fault { tid, fd, what: if r.broken[f] < 0 { "zero" } else { "error" } });
        if r.broken[f] < 0 { return Ok(0); }
        return Err(Error::from_raw_os_error(r.broken[f]));
    }
    let mut take = len;
    if r.faults[f] != 0 && len != 0 && ! r.quiet {
        let mut opts: [(u32, usize); 8] = [(0, len); 8];
        let mut n = 1;
        let m = r.faults[f];
        if m & SHORT1 != 0 && len > 1 { opts[n] = (SHORT1, 1); n += 1; }
        if m & SHORT_HALF != 0 && len > 3 { opts[n] = (SHORT_HALF, len / 2); n += 1; }
        if m & SHORT_LAST != 0 && len > 2 { opts[n] = (SHORT_LAST, len - 1); n += 1; }
        if m & EINTR != 0 { opts[n] = (EINTR, 0); n += 1; }
        if m & ZERO != 0 { opts[n] = (ZERO, 0); n += 1; }
        if m & EIO != 0 { opts[n] = (EIO, 0); n += 1; }
        if m & EAGAIN != 0 { opts[n] = (EAGAIN, 0); n += 1; }
        let (what, k) = opts[choose(n, FAULT)];
        match what {
            0 => {},
            EINTR => { r.events.push(Ev::Fault { tid, fd, what: "interrupted" }); return Err(Error::from_raw_os_error(4)); },
            EIO => { r.events.push(Ev::Fault { tid, fd, what: "error" }); return Err(Error::from_raw_os_error(5)); },
            EAGAIN => { r.events.push(Ev::Fault { tid, fd, what: "error" }); return Err(Error::from_raw_os_error(11)); },
            ZERO => { r.events.push(Ev::Fault { tid, fd, what: "zero" }); return Ok(0); },
            _ => { r.events.push(Ev::Fault { tid, fd, what: "short" }); take = k; },
        }
    }
    let mut data = Vec::with_capacity(take);
    for p in parts {
        let k = p.len().min(take - data.len());
        data.extend_from_slice(&p[..k]);
        if data.len() == take { break; }
    }
    let mut h = fd as u64 ^ 0xcbf2_9ce4_8422_2325;
    for b in &data { h = (h ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3); }
    rt::note_state(h);
    let clock = r.clock;
    r.events.push(Ev::Out { tid, fd, data, clock });
    Ok(take)
}

/// A read from standard input: one system call.
pub fn raw_read(b: &mut [u8]) -> Result<usize> {
    point();
    let r = rt();
    if r.stdin.is_empty() { return Ok(0); }
    if r.stdin[0].is_empty() {
        // An interruption.
        r.stdin.remove(0);
        return Err(Error::from_raw_os_error(4));
    }
    let n = r.stdin[0].len().min(b.len());
    b[..n].copy_from_slice(&r.stdin[0][..n]);
    if n == r.stdin[0].len() { r.stdin.remove(0); } else { r.stdin[0].drain(..n); }
    Ok(n)
}

/// A lock its owner may take again, and a borrow flag that it may not.
struct Stream { owner: usize, depth: usize, borrowed: bool }
const FREE: usize = usize::MAX;
static mut STREAMS: [Stream; 3] = [
    Stream { owner: FREE, depth: 0, borrowed: false }, Stream { owner: FREE, depth: 0, borrowed: false }, Stream { owner: FREE, depth: 0, borrowed: false },
];
static mut OUT: Option<LineWriter<RawOut>> = None;
static mut IN: Option<BufReader<RawIn>> = None;

struct RawOut;
impl Write for RawOut {
    fn write(&mut self, b: &[u8]) -> Result<usize> { raw(1, &[b]) }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> Result<usize> { let v: Vec<&[u8]> = b.iter().map(|s| &**s).collect(); raw(1, &v) }
    fn flush(&mut self) -> Result<()> { Ok(()) }
}
struct RawIn;
impl Read for RawIn { fn read(&mut self, b: &mut [u8]) -> Result<usize> { raw_read(b) } }

pub(crate) fn reset() {
    unsafe {
        for s in &mut STREAMS { *s = Stream { owner: FREE, depth: 0, borrowed: false }; }
        // Whatever's buffered is gone.
        if let Some(o) = OUT.take() { real::mem::forget(o); }
        OUT = Some(LineWriter::new(RawOut));
        IN = Some(BufReader::new(RawIn));
    }
}

fn enter(i: usize) {
    let me = rt().cur;
    crate::rt::wait(&|| unsafe { STREAMS[i].owner == FREE || STREAMS[i].owner == me }, None);
    unsafe { STREAMS[i].owner = me; STREAMS[i].depth += 1; }
}
fn leave(i: usize) {
    unsafe {
        STREAMS[i].depth -= 1;
        if STREAMS[i].depth == 0 { STREAMS[i].owner = FREE; }
    }
}
struct Borrow(usize);
impl Borrow {
    fn new(i: usize) -> Self {
        unsafe {
            if STREAMS[i].borrowed { panic_borrow(); }
            STREAMS[i].borrowed = true;
        }
        Borrow(i)
    }
}
impl Drop for Borrow { fn drop(&mut self) { unsafe { STREAMS[self.0].borrowed = false; } } }
#[cold]
fn panic_borrow() -> ! { real::panic!("already borrowed (standard stream re-entered by a signal handler)") }

/// Whether some thread holds a stream.
pub fn held(i: usize) -> bool { unsafe { STREAMS[i].owner != FREE } }

macro_rules! stream {
    ($ty:ident, $lock:ident, $fn:ident, $i:literal) => {
        #[derive(Debug)]
        pub struct $ty(());
        pub struct $lock<'a>(PhantomData<(&'a (), *const ())>);
        pub fn $fn() -> $ty { $ty(()) }
        impl $ty { pub fn lock(&self) -> $lock<'static> { enter($i); $lock(PhantomData) } }
        impl Drop for $lock<'_> { fn drop(&mut self) { leave($i); } }
        impl fmt::Debug for $lock<'_> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(real::stringify!($lock)) } }
        impl AsRawFd for $ty { fn as_raw_fd(&self) -> RawFd { $i } }
        impl AsRawFd for $lock<'_> { fn as_raw_fd(&self) -> RawFd { $i } }
        impl AsFd for $ty { fn as_fd(&self) -> BorrowedFd<'_> { unsafe { BorrowedFd::borrow_raw($i) } } }
        impl AsFd for $lock<'_> { fn as_fd(&self) -> BorrowedFd<'_> { unsafe { BorrowedFd::borrow_raw($i) } } }
        impl IsTerminal for $ty { fn is_terminal(&self) -> bool { $i == 2 || crate::rt::rt().others.is_some() } }
        impl IsTerminal for $lock<'_> { fn is_terminal(&self) -> bool { $i == 2 || crate::rt::rt().others.is_some() } }
    };
}
stream!(Stderr, StderrLock, stderr, 2);
stream!(Stdout, StdoutLock, stdout, 1);
stream!(Stdin, StdinLock, stdin, 0);

pub trait IsTerminal { fn is_terminal(&self) -> bool; }

impl Write for StderrLock<'_> {
    fn write(&mut self, b: &[u8]) -> Result<usize> { let _b = Borrow::new(2); raw(2, &[b]) }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> Result<usize> { let _b = Borrow::new(2); let v: Vec<&[u8]> = b.iter().map(|s| &**s).collect(); raw(2, &v) }
    fn write_all(&mut self, mut b: &[u8]) -> Result<()> {
        let _b = Borrow::new(2);
        while ! b.is_empty() {
            match raw(2, &[b]) {
                Ok(0) => return Err(ErrorKind::WriteZero.into()),
                Ok(n) => b = &b[n..],
                Err(e) if e.kind() == ErrorKind::Interrupted => {},
                Err(e) => return Err(e),
            }
        }
        Ok(())
    }
    fn flush(&mut self) -> Result<()> { let _b = Borrow::new(2); Ok(()) }
}
impl Write for StdoutLock<'_> {
    fn write(&mut self, b: &[u8]) -> Result<usize> { let _b = Borrow::new(1); unsafe { OUT.as_mut().unwrap().write(b) } }
    fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> Result<usize> { let _b = Borrow::new(1); unsafe { OUT.as_mut().unwrap().write_vectored(b) } }
    fn write_all(&mut self, b: &[u8]) -> Result<()> { let _b = Borrow::new(1); unsafe { OUT.as_mut().unwrap().write_all(b) } }
    fn flush(&mut self) -> Result<()> { let _b = Borrow::new(1); unsafe { OUT.as_mut().unwrap().flush() } }
}
macro_rules! unlocked {
    ($($ty:ty),+) => { $(
        impl Write for $ty {
            fn write(&mut self, b: &[u8]) -> Result<usize> { self.lock().write(b) }
            fn write_vectored(&mut self, b: &[IoSlice<'_>]) -> Result<usize> { self.lock().write_vectored(b) }
            fn write_all(&mut self, b: &[u8]) -> Result<()> { self.lock().write_all(b) }
            fn write_fmt(&mut self, a: fmt::Arguments<'_>) -> Result<()> { self.lock().write_fmt(a) }
            fn flush(&mut self) -> Result<()> { self.lock().flush() }
        }
    )+ };
}
unlocked!(Stderr, &Stderr, Stdout, &Stdout);

impl Read for StdinLock<'_> { fn read(&mut self, b: &mut [u8]) -> Result<usize> { unsafe { IN.as_mut().unwrap().read(b) } } }
impl BufRead for StdinLock<'_> {
    fn fill_buf(&mut self) -> Result<&[u8]> { unsafe { IN.as_mut().unwrap().fill_buf() } }
    fn consume(&mut self, n: usize) { unsafe { IN.as_mut().unwrap().consume(n) } }
}
impl Read for Stdin { fn read(&mut self, b: &mut [u8]) -> Result<usize> { self.lock().read(b) } }
impl Stdin {
    pub fn read_line(&self, s: &mut String) -> Result<usize> { self.lock().read_line(s) }
    pub fn lines(self) -> Lines<StdinLock<'static>> { self.lock().lines() }
}
pub fn read_to_string<R: Read>(mut r: R) -> Result<String> { let mut s = String::new(); r.read_to_string(&mut s)?; Ok(s) }

pub fn _print(a: fmt::Arguments<'_>) { if let Err(e) = stdout().write_fmt(a) { real::panic!("failed printing to stdout: {e}"); } }
pub fn _eprint(a: fmt::Arguments<'_>) { if let Err(e) = stderr().write_fmt(a) { real::panic!("failed printing to stderr: {e}"); } }
