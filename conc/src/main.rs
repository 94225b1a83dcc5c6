//! Model checking of the unmodified library: scheduling, time, signals and the
//! standard streams are decided by the explorer.
#![allow(static_mut_refs, dead_code)]
#[path = "../../seq/src/model.rs"] mod model;
#[path = "../../seq/src/words.rs"] mod words;
mod explore;
mod h;
mod many;
mod screen;
mod count;
mod prog;
mod sig;
mod streams;
mod totals;

use explore::Test;
use vstd::rt::rt;

/// All clock readings pass through here.
#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let r = rt();
    if r.active {
        let base = if id == libc::CLOCK_REALTIME { 1_741_499_000 } else { 1_000_000 };
        unsafe { *ts = libc::timespec { tv_sec: base + (r.clock / 1_000_000_000) as i64, tv_nsec: (r.clock % 1_000_000_000) as i64 }; }
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_clock_gettime, id, ts) as libc::c_int }
}

pub static mut THOROUGH: bool = false;
pub fn tier<T>(quick: T, thorough: T) -> T { if unsafe { THOROUGH } { thorough } else { quick } }
pub const SIGINT: bool = cfg!(feature = "sigint");
pub const SIGWINCH: bool = cfg!(feature = "sigwinch");

fn variant() -> &'static str {
    match (SIGINT, SIGWINCH) { (false, false) => "plain", (true, false) => "sigint", (false, true) => "sigwinch", (true, true) => "signals" }
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn tests() -> Vec<Test> {
    let mut v = Vec::new();
    v.extend(count::tests());
    v.extend(prog::tests());
    v.extend(many::tests());
    v.extend(sig::tests());
    v.extend(streams::tests());
    v.extend(totals::tests());
    v
}

/// conc run <PROP> <quick|thorough> <seconds> [TEST]  |  conc replay <PROP> <TEST> <tier> <choices…>
fn main() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if rt().active { rt().last_panic = format!("{} ({at})", i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| String::from(*s))).unwrap_or_default()); } else { eprintln!("{i}"); }
    }));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("run") => {
            unsafe { THOROUGH = a[3] == "thorough"; }
            let cap: f64 = a[4].parse().unwrap();
            let known: Vec<String> = std::env::var("CONC_KNOWN").unwrap_or_default().split('\x1f').filter(|s| ! s.is_empty()).map(String::from).collect();
            let list: Vec<Test> = tests().into_iter().filter(|t| t.prop == a[2] && a.get(5).is_none_or(|n| n == t.name)).collect();
            let mut ok = true;
            let begin = std::time::Instant::now();
            for (i, t) in list.iter().enumerate() {
                // A fair share of what time remains.
                let left = (cap - begin.elapsed().as_secs_f64()).max(1.0) / (list.len() - i) as f64;
                let left = if i + 1 == list.len() { left } else { left * 1.5 };
                let (st, v) = explore::explore(t, left, &known);
                let (_, log) = explore::isolated(t, &[]);
                let sample = format!("{} [default schedule]: {}", t.name, log.join("; "));
                println!("{{\"test\":{},\"variant\":\"{}\",\"bounds\":{},\"runs\":{},\"edges\":{},\"steps\":{},\"states\":{},\"secs\":{:.2},\"longest\":{},\"diverged\":{},{}\"samples\":[{}]}}",
                    jstr(t.name), variant(), jstr(&format!("{}; {}", t.bounds, t.budget.text())), st.runs, st.edges, st.steps, st.states, st.secs, st.longest, st.diverged,
                    if st.capped { "\"capped\":true," } else { "" }, jstr(&sample));
                for (k, n) in &st.known { println!("{{\"known\":{},\"executions\":{n}}}", jstr(k)); }
                if let Some(v) = v {
                    ok = false;
                    println!("{{\"violation\":{},\"test\":{},\"variant\":\"{}\",\"choices\":{:?},\"log\":[{}]}}",
                        jstr(&v.msg), jstr(t.name), variant(), v.choices, v.log.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
                }
            }
            std::process::exit(if ok { 0 } else { 1 });
        },
        Some("replay") => {
            unsafe { THOROUGH = a[4] == "thorough"; }
            let t = tests().into_iter().find(|t| t.prop == a[2] && t.name == a[3]).expect("no such test");
            let choices: Vec<u32> = a[5..].iter().map(|c| c.parse().unwrap()).collect();
            let (m, log) = explore::isolated(&t, &choices);
            for l in log { println!("  {l}"); }
            match m {
                Some(m) => { println!("FAIL: {m}"); std::process::exit(1); },
                None => println!("ok"),
            }
        },
        Some("list") => for t in tests() { println!("{} {}", t.prop, t.name); },
        _ => std::process::exit(2),
    }
}
