//! Signals, as the scenario sends them.
use std::io::Error;
use std::sync::Arc;
use std::os::raw::c_int;
use vstd::rt;

pub mod consts {
    pub mod signal {
        use std::os::raw::c_int;
        pub const SIGHUP: c_int = 1;
        pub const SIGINT: c_int = 2;
        pub const SIGQUIT: c_int = 3;
        pub const SIGILL: c_int = 4;
        pub const SIGTRAP: c_int = 5;
        pub const SIGABRT: c_int = 6;
        pub const SIGBUS: c_int = 7;
        pub const SIGFPE: c_int = 8;
        pub const SIGKILL: c_int = 9;
        pub const SIGUSR1: c_int = 10;
        pub const SIGSEGV: c_int = 11;
        pub const SIGUSR2: c_int = 12;
        pub const SIGPIPE: c_int = 13;
        pub const SIGALRM: c_int = 14;
        pub const SIGTERM: c_int = 15;
        pub const SIGCHLD: c_int = 17;
        pub const SIGCONT: c_int = 18;
        pub const SIGSTOP: c_int = 19;
        pub const SIGTSTP: c_int = 20;
        pub const SIGTTIN: c_int = 21;
        pub const SIGTTOU: c_int = 22;
        pub const SIGWINCH: c_int = 28;
    }
    pub use signal::*;
    pub const TERM_SIGNALS: &[c_int] = &[SIGTERM, SIGQUIT, SIGINT];
    pub const FORBIDDEN: &[c_int] = &[SIGKILL, SIGSTOP, SIGILL, SIGFPE, SIGSEGV];
    use std::os::raw::c_int;
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct SigId { sig: c_int, id: u64 }

fn add(sig: c_int, f: Arc<dyn Fn()>) -> Result<SigId, Error> {
    assert!(! consts::FORBIDDEN.contains(&sig));
    rt::point();
    let r = rt::rt();
    if r.deaf.contains(&sig) { return Err(Error::from_raw_os_error(22)); }
    let id = r.next_handler;
    r.next_handler += 1;
    r.handlers.push((id, sig, f));
    if ! r.caught.contains(&sig) { r.caught.push(sig); }
    Ok(SigId { sig, id })
}

pub mod low_level {
    use super::*;
    pub unsafe fn register<F: Fn() + Sync + Send + 'static>(sig: c_int, f: F) -> Result<SigId, Error> { add(sig, Arc::new(f)) }
    pub fn unregister(id: SigId) -> bool {
        rt::point();
        let r = rt::rt();
        let n = r.handlers.len();
        // The closure goes away with it, but only when nobody's looking.
        r.handlers.retain(|h| h.0 != id.id);
        r.handlers.len() != n
    }
    pub fn exit(status: c_int) -> ! { rt::point(); rt::stop(rt::End::Exit(status)) }
    pub fn abort() -> ! { rt::stop(rt::End::Exit(134)) }
    pub fn raise(sig: c_int) -> Result<(), Error> { rt::raise(sig); rt::point(); Ok(()) }
    pub fn emulate_default_handler(sig: c_int) -> Result<(), Error> {
        match sig {
            consts::SIGCHLD | consts::SIGCONT | consts::SIGWINCH => Ok(()),
            _ => { rt::point(); rt::stop(rt::End::Exit(128 + sig)) },
        }
    }
}

pub mod flag {
    use super::*;
    use vstd::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
    pub fn register(sig: c_int, flag: Arc<AtomicBool>) -> Result<SigId, Error> { add(sig, Arc::new(move || flag.store(true, Ordering::SeqCst))) }
    pub fn register_usize(sig: c_int, flag: Arc<AtomicUsize>, v: usize) -> Result<SigId, Error> { add(sig, Arc::new(move || flag.store(v, Ordering::SeqCst))) }
    pub fn register_conditional_shutdown(sig: c_int, status: c_int, c: Arc<AtomicBool>) -> Result<SigId, Error> {
        add(sig, Arc::new(move || if c.load(Ordering::SeqCst) { low_level::exit(status) }))
    }
    pub fn register_conditional_default(sig: c_int, c: Arc<AtomicBool>) -> Result<SigId, Error> {
        add(sig, Arc::new(move || if c.load(Ordering::SeqCst) { let _ = low_level::emulate_default_handler(sig); }))
    }
}
