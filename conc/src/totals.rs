//! P10, P11: totals and summaries.
use crate::explore::{Budget, Test};
use crate::h::*;
use crate::model;
use crate::tier;
use fyi_msg::{Msg, MsgKind, Progless, ProglessError};
use std::num::*;
use vstd::rt::{self, fail, rt, End};

const MAX: u128 = 4_294_967_295;
const EMPTY: &str = "At least one task is required.";
const OVER: &str = "Progress can only be displayed for up to 4,294,967,295 items.";

// ---- P10 ----

/// Whether it's what was asked for; `None` means it's negative.
fn verdict(what: &str, value: &str, v: Option<u128>, got: Result<Progless, ProglessError>, look: bool) {
    match (v, got) {
        (Some(n @ 1..=MAX), Ok(p)) => {
            if look {
                sleep(250);
                let st = Spec::new(n as u64);
                match frame_screen(&bytes(2, usize::MAX), (80, 24)) {
                    Ok(rows) => if let Err(m) = frame_ok(&rows, &st.shown(), (80, 24), &secs()) { fail(format!("{what} {value}: {m}")) },
                    Err(m) => fail(format!("{what} {value}: {m}")),
                }
            }
            if count(&p) != 0 { fail(format!("{what} {value} doesn't begin at zero")); }
            run(&p, Op::Finish);
            if count(&p) != n as i64 { fail(format!("{what} {value} has a total of {}", count(&p))); }
        },
        (Some(0), Err(ProglessError::EmptyTotal)) => error(ProglessError::EmptyTotal, EMPTY),
        (Some(0) | Some(1..=MAX), Err(e)) => fail(format!("{what} {value} is refused: {e}")),
        (_, Err(ProglessError::TotalOverflow)) => error(ProglessError::TotalOverflow, OVER),
        (_, Err(e)) => fail(format!("{what} {value} is refused for the wrong reason: {e}")),
        (_, Ok(_)) => fail(format!("{what} {value} is accepted")),
    }
}

fn error(e: ProglessError, text: &str) {
    let r: &str = e.as_ref();
    if e.as_str() != text || e.to_string() != text || r != text { fail(format!("{e:?} reads {:?}, {:?}, {r:?}", e.as_str(), e.to_string())); }
    if format!("{e:>5}|{e:<70}|{e:.3}") != format!("{text:>5}|{text:<70}|{text:.3}") { fail(format!("{e:?} doesn't format well")); }
    let b: Box<dyn std::error::Error> = Box::new(e);
    if b.to_string() != text || b.source().is_some() { fail(format!("{e:?} isn't much of an error")); }
}

macro_rules! signed { ($ty:ty, $v:expr, $look:expr) => {{ let v: $ty = $v; verdict(stringify!($ty), &v.to_string(), u128::try_from(v).ok(), Progless::try_from(v), $look) }}; }
macro_rules! nonzero { ($ty:ty, $v:expr, $look:expr) => { if let Some(v) = <$ty>::new($v) { verdict(stringify!($ty), &v.to_string(), Some(v.get() as u128), Progless::try_from(v), $look) } }; }
macro_rules! from { ($ty:ty, $v:expr, $look:expr) => { if let Some(v) = <$ty>::new($v) { verdict(stringify!($ty), &v.to_string(), Some(v.get() as u128), Ok(Progless::from(v)), $look) } }; }

/// Every value of the smaller types.
fn small() {
    settle(true);
    let v = (rt::choose(256, rt::FREE) << 8 | rt::choose(256, rt::FREE)) as u16;
    match rt::choose(3, rt::FREE) {
        0 => { signed!(u16, v, false); if v < 256 { signed!(u8, v as u8, true); } },
        1 => { signed!(i16, v as i16, false); if v < 256 { signed!(i8, v as u8 as i8, true); } },
        _ => { from!(NonZeroU16, v, false); if v < 256 { from!(NonZeroU8, v as u8, true); } },
    }
}

/// Around every power of two, and then some.
fn wide() {
    settle(true);
    let off = rt::choose(7, rt::FREE) as i128 - 3;
    let ty = rt::choose(14, rt::FREE);
    let bits = rt::choose(131, rt::FREE);
    let base: i128 = match bits { 0 => 0, 1..=126 => 1 << bits, 127 => i128::MAX, 128 => 1_000_000, 129 => 999_999_999, _ => 5_000_000_000 };
    let neg = rt::choose(2, rt::FREE) == 1;
    let v: i128 = if neg { (-base).wrapping_add(off) } else { base.wrapping_add(off) };
    // (Wrapping takes us around to the far end of each type.)
    let u = if bits == 127 { u128::MAX.wrapping_add(off as u128) } else { v as u128 };
    let look = off == 0;
    match ty {
        0 => signed!(u32, v as u32, look),
        1 => signed!(u64, v as u64, look),
        2 => signed!(usize, v as usize, look),
        3 => signed!(u128, u, look),
        4 => signed!(i32, v as i32, look),
        5 => signed!(i64, v as i64, look),
        6 => signed!(isize, v as isize, look),
        7 => signed!(i128, v, look),
        8 => from!(NonZeroU32, v as u32, look),
        9 => nonzero!(NonZeroU64, v as u64, look),
        10 => nonzero!(NonZeroUsize, v as usize, look),
        11 => nonzero!(NonZeroU128, u, look),
        12 => { signed!(u16, v as u16, look); signed!(u8, v as u8, false); },
        _ => { signed!(i16, v as i16, look); signed!(i8, v as i8, false); },
    }
}

/// Resets obey the same rules.
fn resets() {
    settle(true);
    let p = Progless::try_from(7_u32).unwrap();
    let values = [0, 1, 2, 255, 256, 65_535, 65_536, 1 << 31, u32::MAX - 1, u32::MAX];
    let mut total = 7;
    for _ in 0..3 {
        let v = pick(&values);
        let res = match rt::choose(2, rt::FREE) {
            0 => p.try_reset(v),
            _ => { let Some(v) = NonZeroU32::new(v) else { continue; }; p.reset(v); Ok(()) },
        };
        match (v, res) {
            (0, Err(ProglessError::EmptyTotal)) => error(ProglessError::EmptyTotal, EMPTY),
            (1.., Ok(())) => { total = v; if count(&p) != 0 { fail(String::from("not back to zero")); } },
            (v, r) => fail(format!("resetting to {v} gives {r:?}")),
        }
    }
    run(&p, Op::Finish);
    if count(&p) != i64::from(total) { fail(format!("the total is {} rather than {total}", count(&p))); }
}

fn constants() {
    if Progless::MAX_TOTAL as u128 != MAX { fail(String::from("MAX_TOTAL")); }
    error(Progless::MAX_TOTAL_ERROR, OVER);
    error(ProglessError::EmptyTotal, EMPTY);
    if Progless::MAX_TOTAL_ERROR != ProglessError::TotalOverflow { fail(String::from("MAX_TOTAL_ERROR")); }
    if Progless::CURSOR_HIDE != "\x1b[?25l" || Progless::CURSOR_UNHIDE != "\x1b[?25h" { fail(String::from("cursor sequences")); }
    if count(&Progless::default()) != 0 { fail(String::from("default count")); }
}

// ---- P11 ----

/// Time in words.
fn elapsed(ns: u64) -> String {
    let (s, cs) = (ns / 1_000_000_000, ns / 10_000_000 % 100);
    let unit = |n: u64, u: &str| format!("{} {u}{}", model::nice(n), if n == 1 { "" } else { "s" });
    let mut v = vec![];
    if s >= 86_400 { v.push(unit(s / 86_400, "day")); }
    if s / 3600 % 24 != 0 { v.push(unit(s / 3600 % 24, "hour")); }
    if s / 60 % 60 != 0 { v.push(unit(s / 60 % 60, "minute")); }
    if cs != 0 { v.push(format!("{}.{cs:02} seconds", s % 60)); }
    else if s % 60 != 0 { v.push(unit(s % 60, "second")); }
    match v.len() {
        0 => String::from("0 seconds"),
        1 => v.remove(0),
        2 => v.join(" and "),
        n => { let last = v.remove(n - 1); format!("{}, and {last}", v.join(", ")) },
    }
}

const S: u64 = 1_000_000_000;
const TIMES: [u64; 16] = [
    0, 9_999_999, 10_000_000, 990_000_000, S - 1, S, S + 10_000_000, 2 * S, 59 * S + 999_999_999, 60 * S, 61 * S, 3599 * S + 990_000_000, 3600 * S,
    86_399 * S, 86_400 * S, 90_061 * S + 500_000_000,
];
const COUNTS: [u32; 14] = [0, 1, 2, 10, 11, 21, 100, 101, 999, 1000, 1001, 999_999, 1_000_000, u32::MAX];

fn check_summary(p: &Progless, kind: Option<usize>, n: u32, started: u64) {
    let (k, prefix) = match kind {
        None => (MsgKind::None, String::new()),
        Some(i) => {
            let (name, color) = model::KINDS[i];
            (*MsgKind::ALL.iter().find(|m| m.as_str() == name).unwrap(), model::prefix(name, Some(color)))
        },
    };
    let (one, many) = pick(&[("file", "files"), ("é", ""), ("x y", "a\nb")]);
    let want = format!("{prefix}{} {} in {}.\n", model::nice(n.into()), if n == 1 { one } else { many }, elapsed(rt().clock - started));
    let m = p.summary(k, one, many);
    if m.as_str() != want { fail(format!("summary {:?} instead of {want:?}", m.as_str())); }
    let m = p.summary(k, String::from(one), String::from(many));
    if m.as_str() != want { fail(format!("summary {:?} instead of {want:?}", m.as_str())); }
}

fn summaries() {
    settle(true);
    let kind = rt::choose(15, rt::FREE).checked_sub(1);
    // Whatever's been going on before doesn't matter.
    rt().clock += pick(&[0, 123_456_789]);
    let started = rt().clock;
    let n = pick(&COUNTS);
    let (before, after) = (pick(&TIMES), rt::choose(3, rt::FREE));
    let p = Progless::try_from(u32::MAX).unwrap();
    run(&p, Op::Set(n));
    match after {
        // Still going.
        0 => { rt().clock += before; check_summary(&p, kind, n, started); },
        // Long done.
        1 => { run(&p, Op::Finish); rt().clock += before; check_summary(&p, kind, u32::MAX, started); },
        // Another run.
        _ => {
            rt().clock += before;
            run(&p, Op::Reset(n.max(2)));
            rt().clock += 1_500_000_000;
            check_summary(&p, kind, 0, started);
            run(&p, Op::Inc(1));
            check_summary(&p, kind, 1, started);
        },
    }
}

/// A life in summaries.
fn lives() {
    settle(true);
    let mut p = Progless::try_from(3_u32).unwrap();
    let mut started = 0;
    let mut m = Spec::new(3);
    let ops = [Op::Inc(1), Op::Inc(5), Op::Set(2), Op::Add("a"), Op::Rem("a"), Op::Finish, Op::Reset(1), Op::Reset(2000), Op::TryReset(0), Op::Push("msg"), Op::Title(Some("1 file in"))];
    for _ in 0..tier(5, 6) {
        let i = rt::choose(ops.len() + 1, rt::FREE);
        if i == ops.len() { let q = Progless::try_from(3_u32).unwrap(); started = rt().clock; p = q; m = Spec::new(3); }
        else if ops[i] == Op::Finish {
            let d = p.finish();
            apply(&mut m, ops[i]);
            if d.as_nanos() != u128::from(rt().clock - started) { fail(format!("finishing took {d:?} rather than {} ns", rt().clock - started)); }
        }
        else { run(&p, ops[i]); apply(&mut m, ops[i]); }
        rt().clock += 61 * S;
        let want = format!("{} {} in {}.\n", model::nice(m.done), if m.done == 1 { "one" } else { "more" }, elapsed(rt().clock - started));
        let got = p.summary(MsgKind::None, "one", "more");
        if got.as_str() != want { fail(format!("summary {:?} instead of {want:?}", got.as_str())); }
    }
    let q = p.clone();
    let want = format!("{}Finished in {}.\n", model::prefix("Done", Some(10)), elapsed(rt().clock - started));
    let got = Msg::from(p);
    if got.as_str() != want { fail(format!("message {:?} instead of {want:?}", got.as_str())); }
    run(&q, Op::Finish);
}

fn conversions() {
    settle(true);
    let t = (pick(&TIMES), pick(&TIMES));
    let p = Progless::try_from(3_u32).unwrap();
    rt().clock += t.0;
    match rt::choose(3, rt::FREE) { 0 => {}, 1 => { run(&p, Op::Finish); }, _ => { run(&p, Op::Reset(9)); } }
    rt().clock += t.1;
    let want = format!("{}Finished in {}.\n", model::prefix("Done", Some(10)), elapsed(rt().clock));
    let got = Msg::from(p);
    if got.as_str() != want { fail(format!("message {:?} instead of {want:?}", got.as_str())); }
}

fn ends() -> Result<(), String> {
    match &rt().end { End::Normal => Ok(()), e => Err(format!("ended with {e:?}")) }
}

pub fn tests() -> Vec<Test> {
    let s = String::from;
    vec![
        Test { prop: "P10", name: "small", body: small, check: ends, budget: Budget::NONE, bounds: s("every value of u8, i8, u16, i16, NonZeroU8, NonZeroU16") },
        Test { prop: "P10", name: "wide", body: wide, check: ends, budget: Budget::NONE, bounds: s("14 integer types × 131 magnitudes (all powers of two and a few others) ± 3, positive and negative") },
        Test { prop: "P10", name: "resets", body: resets, check: ends, budget: Budget::NONE, bounds: s("three resets to any of 10 totals") },
        Test { prop: "P10", name: "constants", body: constants, check: ends, budget: Budget::NONE, bounds: s("published constants") },
        Test { prop: "P11", name: "summaries", body: summaries, check: ends, budget: Budget::NONE, bounds: s("15 kinds × 14 counts × 16 durations × running, done or reset × 3 nouns") },
        Test { prop: "P11", name: "lives", body: lives, check: ends, budget: Budget::NONE, bounds: format!("every sequence of {} of 12 operations, summarised after each", tier(5, 6)) },
        Test { prop: "P11", name: "conversions", body: conversions, check: ends, budget: Budget::NONE, bounds: s("16 × 16 durations, running, done or reset") },
    ]
}
