//! Every command line up to a bound, against the real binary.
#![allow(static_mut_refs, dead_code)]
#[path = "../../seq/src/explore.rs"] mod explore;
#[path = "../../seq/src/model.rs"] mod model;
#[path = "../../seq/src/words.rs"] mod words;
mod run;
mod tool;

use explore::{Body, Violation};
use std::cell::RefCell;

thread_local! { pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }
pub static mut THOROUGH: bool = false;
pub fn tier<T>(quick: T, thorough: T) -> T { if unsafe { THOROUGH } { thorough } else { quick } }

pub struct Test { pub prop: &'static str, pub name: &'static str, pub body: Body, pub bounds: String }

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// cli run <PROP> <quick|thorough>  |  cli replay <PROP> <TEST> <tier> <choices…>
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("run") => {
            unsafe { THOROUGH = a[3] == "thorough"; }
            let mut ok = true;
            for t in tool::tests().into_iter().filter(|t| t.prop == a[2]) {
                let begin = std::time::Instant::now();
                let (st, mut vs) = explore::explore(t.name, t.body, 12);
                vs.sort_by_key(|v| v.choices.iter().map(|c| *c as u64).sum::<u64>());
                println!("{{\"test\":{},\"variant\":\"bin\",\"bounds\":{},\"runs\":{},\"edges\":{},\"steps\":{},\"states\":{},\"secs\":{:.2},\"samples\":[{}]}}",
                    jstr(t.name), jstr(&t.bounds), st.runs, st.edges, st.steps, st.states, begin.elapsed().as_secs_f64(),
                    st.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
                if let Some(Violation { test, choices, msg }) = vs.into_iter().next() {
                    ok = false;
                    let log = if msg.starts_with("the case did not end") { vec![] }
                        else { explore::run_one(t.body, &choices, true).log.unwrap_or_default() };
                    println!("{{\"violation\":{},\"test\":{},\"variant\":\"bin\",\"choices\":{:?},\"log\":[{}]}}",
                        jstr(&msg), jstr(test), choices, log.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","));
                }
            }
            std::process::exit(if ok { 0 } else { 1 });
        },
        Some("replay") => {
            unsafe { THOROUGH = a[4] == "thorough"; }
            let t = tool::tests().into_iter().find(|t| t.prop == a[2] && t.name == a[3]).expect("no such test");
            let choices: Vec<u32> = a[5..].iter().map(|c| c.parse().unwrap()).collect();
            let ch = explore::run_one(t.body, &choices, true);
            for l in ch.log.unwrap_or_default() { println!("  {l}"); }
            match ch.fail {
                Some(m) => { println!("FAIL: {m}"); std::process::exit(1); },
                None => println!("ok"),
            }
        },
        _ => std::process::exit(2),
    }
}
