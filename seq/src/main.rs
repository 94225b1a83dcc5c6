#![allow(static_mut_refs)]
mod explore;
mod model;
mod msg;
mod color;
#[cfg(feature = "full")] mod words;
#[cfg(feature = "full")] mod fit;
#[cfg(feature = "full")] mod time;

use explore::{Body, Violation};
use std::cell::{Cell, RefCell};
use std::ffi::CStr;

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    /// The wall clock seen by this thread (0: the real one).
    pub static CLOCK: Cell<i64> = const { Cell::new(0) };
}

/// All clock readings of the process pass through here.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if id == libc::CLOCK_REALTIME {
        let fake = CLOCK.try_with(Cell::get).unwrap_or(0);
        if fake != 0 {
            unsafe { *ts = libc::timespec { tv_sec: fake, tv_nsec: 0 }; }
            return 0;
        }
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int }
}

/// All file openings of the process pass through here, so that the time zone
/// can be swapped out.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    let mut p = path;
    if unsafe { CStr::from_ptr(path) }.to_bytes() == b"/etc/localtime" {
        let z = unsafe { libc::getenv(c"SEQ_ZONE".as_ptr()) };
        if ! z.is_null() { p = z; }
    }
    unsafe { libc::syscall(libc::SYS_openat, libc::AT_FDCWD, p, flags, mode) as libc::c_int }
}
pub static mut THOROUGH: bool = false;
/// Pick a bound by tier.
pub fn tier<T>(quick: T, thorough: T) -> T { if unsafe { THOROUGH } { thorough } else { quick } }

pub struct Test { pub prop: &'static str, pub name: &'static str, pub body: Body, pub bounds: String }

fn tests() -> Vec<Test> {
    let mut t = msg::tests();
    t.extend(color::tests());
    #[cfg(feature = "full")] t.extend(fit::tests());
    #[cfg(feature = "full")] t.extend(time::tests());
    t
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// seq run <PROP> <quick|thorough>  |  seq replay <PROP> <TEST> <tier> <choices…>
fn main() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = at);
    }));
    let a: Vec<String> = std::env::args().collect();
    let variant = if cfg!(feature = "full") { "full" } else { "bare" };
    match a.get(1).map(String::as_str) {
        Some("run") => {
            unsafe { THOROUGH = a[3] == "thorough"; }
            let mut ok = true;
            for t in tests().into_iter().filter(|t| t.prop == a[2]) {
                let begin = std::time::Instant::now();
                let (st, mut vs) = explore::explore(t.name, t.body, 8);
                vs.sort_by_key(|v| v.choices.iter().map(|c| *c as u64).sum::<u64>());
                println!("{{\"test\":{},\"variant\":\"{variant}\",\"bounds\":{},\"runs\":{},\"edges\":{},\"steps\":{},\"states\":{},\"secs\":{:.2},\"samples\":[{}]}}",
                    jstr(t.name), jstr(&t.bounds), st.runs, st.edges, st.steps, st.states, begin.elapsed().as_secs_f64(),
                    st.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
                if let Some(Violation { test, choices, msg }) = vs.into_iter().next() {
                    ok = false;
                    let log = if msg.starts_with("the case did not end") { vec![] }
                        else { explore::run_one(t.body, &choices, true).log.unwrap_or_default() };
                    println!("{{\"violation\":{},\"test\":{},\"variant\":\"{variant}\",\"choices\":{:?},\"log\":[{}]}}",
                        jstr(&msg), jstr(test), choices, log.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
                }
            }
            std::process::exit(if ok { 0 } else { 1 });
        },
        Some("replay") => {
            unsafe { THOROUGH = a[4] == "thorough"; }
            let t = tests().into_iter().find(|t| t.prop == a[2] && t.name == a[3]).expect("no such test");
            let choices: Vec<u32> = a[5..].iter().map(|c| c.parse().unwrap()).collect();
            let ch = explore::run_one(t.body, &choices, true);
            for l in ch.log.unwrap_or_default() { println!("  {l}"); }
            match ch.fail {
                Some(m) => { println!("FAIL: {m}"); std::process::exit(1); },
                None => println!("ok"),
            }
        },
        _ => std::process::exit(2),
    }
}
