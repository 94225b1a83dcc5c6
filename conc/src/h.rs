//! What scenarios are made of: recorded operations, their reference meaning,
//! and what the terminal made of the output.
use crate::model;
use crate::screen::Screen;
use fyi_msg::{Msg, MsgKind, Progless};
use std::collections::{BTreeSet, HashSet};
use vstd::rt::{self, rt, Ev};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Inc(u32), Set(u32), Add(&'static str), Rem(&'static str), Finish, Read, Push(&'static str), Title(Option<&'static str>), TitleMsg(&'static str),
    Splines, Reset(u32), TryReset(u32), Sleep(u64), Clone, Summary, Nop,
}

static mut OPS: Vec<Op> = Vec::new();
/// Free-form parameters of the execution, for its check.
pub static mut PARAMS: Vec<i64> = Vec::new();
pub static mut NOTES: Vec<String> = Vec::new();

pub fn reset() { unsafe { OPS = Vec::new(); PARAMS = Vec::new(); NOTES = Vec::new(); } }
pub fn param(v: i64) { unsafe { PARAMS.push(v); } }
pub fn params(i: usize) -> i64 { unsafe { PARAMS.get(i).copied().unwrap_or(-1) } }
pub fn pick<T: Copy>(list: &[T]) -> T { list[rt::choose(list.len(), rt::FREE)] }
pub fn opt(id: usize) -> Op { unsafe { OPS[id] } }

pub const OK: i64 = 0;
pub const ERR: i64 = 1;

/// The count as the summary gives it.
pub fn count(p: &Progless) -> i64 {
    let m = p.summary(MsgKind::None, "u", "u");
    let s = m.as_str();
    s[..s.find(" u in ").unwrap_or(0)].replace(',', "").parse().unwrap_or(-1)
}

pub fn begin(op: Op) -> usize {
    unsafe {
        let id = OPS.len();
        OPS.push(op);
        rt::event("call", id, 0, String::new());
        id
    }
}
pub fn end(id: usize, val: i64) { rt::event("ret", id, val, String::new()); }

/// Perform an operation, on the record.
pub fn run(p: &Progless, op: Op) -> i64 {
    let id = begin(op);
    let v = match op {
        Op::Inc(1) => { p.increment(); OK },
        Op::Inc(n) => { p.increment_n(n); OK },
        Op::Set(n) => { p.set_done(n); OK },
        Op::Add(l) => i64::from(p.add(l)),
        Op::Rem(l) => { p.remove(l); OK },
        Op::Finish => { let _ = p.finish(); OK },
        Op::Read => count(p),
        Op::Push(m) => match p.push_msg(Msg::from(m)) { Ok(()) => OK, Err(m) => { unsafe { NOTES.push(m.as_str().to_string()); } ERR } },
        Op::Title(t) => { p.set_title(t); OK },
        Op::TitleMsg(t) => { p.set_title_msg(t); OK },
        Op::Splines => { p.set_reticulating_splines("App"); OK },
        Op::Reset(n) => { p.reset(std::num::NonZeroU32::new(n).unwrap()); OK },
        Op::TryReset(n) => i64::from(p.try_reset(n).is_err()),
        Op::Sleep(ms) => { sleep(ms); OK },
        Op::Clone => { let q = p.clone(); drop(q); OK },
        Op::Summary => { let _ = p.summary(MsgKind::Done, "one", "many"); OK },
        Op::Nop => OK,
    };
    end(id, v);
    v
}

pub fn sleep(ms: u64) { vstd::thread::sleep(std::time::Duration::from_millis(ms)) }

/// Do something without scheduling choices.
pub fn calm<T>(f: impl FnOnce() -> T) -> T {
    let old = std::mem::replace(&mut rt().settle, true);
    let v = f();
    rt().settle = old;
    v
}
pub fn settle(on: bool) { rt().settle = on; }

// ---- what operations mean for count and tasks ----

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Spec { pub done: u64, pub total: u64, pub running: bool, pub tasks: BTreeSet<String>, pub title: Option<String>,
    /// A reset is almost through.
    pub opening: bool }
impl Spec { pub fn new(total: u64) -> Self { Self { done: 0, total, running: true, tasks: BTreeSet::new(), title: None, opening: false } }
    pub fn shown(&self) -> Shown { Shown { done: self.done, total: self.total, title: self.title.clone(), tasks: self.tasks.clone() } } }

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Pc { Start, Removed, Ending, Closing, Closed, Opening, Done(i64) }

/// A label as listed.
pub fn label(s: &str) -> Option<String> {
    let s: String = model::visible(s.trim_end()).chars().map(|c| if c.is_whitespace() { ' ' } else { c }).filter(|c| ! c.is_control()).collect();
    if s.is_empty() { None } else { Some(s) }
}

/// One atomic step of an operation.
fn step(s: &mut Spec, op: Op, pc: Pc) -> Pc {
    let update = |s: &mut Spec, f: &dyn Fn(u64) -> u64| {
        if ! s.running { return Pc::Done(0); }
        if s.done < s.total { s.done = f(s.done).min(s.total); }
        if s.done == s.total { Pc::Ending } else { Pc::Done(0) }
    };
    match (op, pc) {
        (_, Pc::Ending) => { s.running = false; s.tasks.clear(); Pc::Done(0) },
        (Op::Inc(0), _) => Pc::Done(0),
        (Op::Inc(n), _) => update(s, &|d| d + u64::from(n)),
        (Op::Rem(_), Pc::Removed) => update(s, &|d| d + 1),
        (Op::Set(n), _) => update(s, &|_| u64::from(n)),
        (Op::Add(l), _) => Pc::Done(i64::from(s.running && label(l).is_some_and(|l| s.tasks.insert(l)))),
        (Op::Rem(l), _) => if s.running && label(l).is_some_and(|l| s.tasks.remove(&l)) { Pc::Removed } else { Pc::Done(0) },
        (Op::Finish, _) => if s.running { s.done = s.total; Pc::Ending } else { Pc::Done(0) },
        (Op::Read, _) => Pc::Done(s.done as i64),
        (Op::Reset(_), Pc::Start) => if s.running { s.done = s.total; Pc::Closing } else { Pc::Closed },
        (Op::Reset(_) | Op::TryReset(_), Pc::Closing) => { s.running = false; s.tasks.clear(); Pc::Closed },
        (Op::Reset(n) | Op::TryReset(n), Pc::Closed) => { s.done = 0; s.total = u64::from(n); s.running = true; s.opening = true; s.tasks.clear(); Pc::Opening },
        (Op::Reset(_) | Op::TryReset(_), Pc::Opening) => { s.opening = false; Pc::Done(0) },
        (Op::TryReset(n), _) => if n == 0 { Pc::Done(1) } else { step(s, Op::Reset(n), Pc::Start) },
        (Op::Title(t), _) => { s.title = t.filter(|t| ! t.is_empty()).map(String::from); Pc::Done(0) },
        (Op::TitleMsg(t), _) => { if let Some(x) = s.title.as_mut() { *x = String::from(t); } Pc::Done(0) },
        (Op::Splines, _) => { s.title = Some(String::from("\x1b[1;38;5;199mApp:\x1b[0m Reticulating splines…")); Pc::Done(0) },
        // A message might not have been accepted; that's for others to judge.
        _ => Pc::Done(i64::MIN),
    }
}

/// A whole operation with nothing else going on; its result.
pub fn apply(s: &mut Spec, op: Op) -> i64 {
    let mut pc = Pc::Start;
    loop {
        pc = step(s, op, pc);
        if let Pc::Done(v) = pc { return if v == i64::MIN { OK } else { v }; }
    }
}

/// Whether the recorded results are those of some sequence of atomic steps
/// consistent with when operations began and ended. Returns the possible
/// final states.
pub fn linear(init: Spec) -> Result<Vec<Spec>, String> {
    type Conf = (Spec, Vec<(usize, Pc)>);
    let mut confs: HashSet<Conf> = HashSet::new();
    confs.insert((init, vec![]));
    for e in &rt().events {
        let Ev::User { tag, id, val, .. } = e else { continue; };
        if *tag == "call" {
            confs = confs.into_iter().map(|(s, mut v)| { v.push((*id, Pc::Start)); (s, v) }).collect();
        }
        else if *tag == "ret" {
            // Everything that could have happened by now.
            let mut all = confs.clone();
            let mut work: Vec<Conf> = confs.into_iter().collect();
            while let Some((s, v)) = work.pop() {
                for i in 0..v.len() {
                    if matches!(v[i].1, Pc::Done(_)) { continue; }
                    if s.opening && matches!(opt(v[i].0), Op::Inc(_) | Op::Set(_) | Op::Add(_) | Op::Rem(_)) && v[i].1 != Pc::Ending {
                        // Whatever comes in the middle of a reset might just as well be lost.
                        let mut c = (s.clone(), v.clone());
                        c.1[i].1 = Pc::Done(0);
                        if all.insert(c.clone()) { work.push(c); }
                    }
                    let (mut s2, mut v2) = (s.clone(), v.clone());
                    v2[i].1 = step(&mut s2, opt(v[i].0), v[i].1);
                    let c = (s2, v2);
                    if all.insert(c.clone()) { work.push(c); }
                }
            }
            confs = all.into_iter()
                .filter(|(_, v)| v.iter().any(|(i, pc)| i == id && matches!(pc, Pc::Done(x) if *x == *val || *x == i64::MIN)))
                .map(|(s, mut v)| { v.retain(|(i, _)| i != id); (s, v) })
                .collect();
            if confs.is_empty() {
                return Err(format!("no order of the operations explains that {:?} gave {val}", opt(*id)));
            }
        }
    }
    Ok(confs.into_iter().map(|c| c.0).collect())
}

/// A thread of the scenario (as opposed to the library's own).
pub fn worker<F: FnOnce() + Send + 'static>(f: F) -> vstd::thread::JoinHandle<()> {
    vstd::thread::Builder::new().name(String::from("w")).spawn(f).unwrap()
}

/// How many threads the library has going.
pub fn tickers() -> i64 { rt::live().into_iter().filter(|t| rt::name(*t) != Some("w")).count() as i64 }

/// The most threads the library ever had going at once.
pub fn most_tickers() -> i64 {
    let (mut n, mut most) = (0_i64, 0_i64);
    for e in &rt().events {
        match e {
            Ev::Start { tid } if *tid != 0 && rt::name(*tid) != Some("w") => { n += 1; most = most.max(n); },
            Ev::Done { tid } if *tid != 0 && rt::name(*tid) != Some("w") => n -= 1,
            _ => {},
        }
    }
    most
}

/// The whole terminal, after the first events.
pub fn screen(upto: usize, size: (usize, usize)) -> Screen {
    let mut s = Screen::new(size.0, size.1);
    for e in rt().events.iter().take(upto) { if let Ev::Out { fd: 2, data, .. } = e { s.feed(data); } }
    s
}

/// Values for elapsed seconds that are recent enough.
pub fn secs() -> [u64; 2] { let s = rt().clock / 1_000_000_000; [s, s.saturating_sub(1)] }

// ---- what gets painted ----

#[derive(Clone, Debug)]
pub struct Shown { pub done: u64, pub total: u64, pub title: Option<String>, pub tasks: BTreeSet<String> }

/// The percentage as printed: the nearest number of hundredths, as far as
/// single precision can tell.
fn percent_ok(s: &str, done: u64, total: u64) -> bool {
    let Some(s) = s.strip_suffix('%') else { return false; };
    let Some((a, b)) = s.split_once('.') else { return false; };
    if b.len() != 2 || (a.len() > 1 && a.starts_with('0')) { return false; }
    let (Ok(a), Ok(b)) = (a.parse::<i128>(), b.parse::<i128>()) else { return false; };
    let got = (a * 100 + b) * i128::from(total);
    let exact = i128::from(done) * 10_000;
    (got - exact).abs() * 200 <= i128::from(total) * 101
}

/// Check what is on a screen of the given size (just the bar, origin first)
/// against what should be.
pub fn frame_ok(rows: &[String], st: &Shown, size: (u16, u16), secs: &[u64]) -> Result<(), String> {
    let bad = |m: &str| Err(format!("{m}: screen {rows:?} doesn't show {st:?} at {size:?}"));
    let w = usize::from(size.0.saturating_sub(1)).min(255);
    let h = usize::from(size.1.min(255)) - 1;
    if w < 10 { return if rows.is_empty() { Ok(()) } else { bad("something is shown on a tiny screen") }; }
    let (done, total) = (model::nice(st.done), model::nice(st.total));
    // The percentage's length is needed to tell which layout applies.
    let Some(bar) = rows.iter().find(|r| r.ends_with('%')) else { return bad("no percentage"); };
    let pct = bar.rsplit(' ').next().unwrap_or_default().to_string();
    if ! percent_ok(&pct, st.done, st.total) { return bad("wrong percentage"); }
    let used = 19 + done.len() + total.len() + pct.len();
    if w < 40 || w < used {
        return if rows.len() == 1 && rows[0] == format!(" » {pct}") { Ok(()) } else { bad("wrong small layout") };
    }
    let mut want: Vec<String> = Vec::new();
    let title: Option<String> = if 2 <= h { st.title.as_ref().filter(|t| ! t.is_empty()).map(|t| {
        let t: String = t.chars().map(|c| if c.is_whitespace() { ' ' } else { c }).collect();
        model::visible(&model::fit(&t, w))
    }) } else { None };
    // Nothing to see of those without a width.
    let seen = |t: &str| t.chars().filter(|c| unicode_width::UnicodeWidthChar::width(*c).unwrap_or(0) != 0).collect::<String>();
    if let Some(t) = &title { want.push(seen(t).trim_end().to_string()); }
    let space = w - used;
    let (a, b) = if space < 10 { (0, 0) } else { let a = (u128::from(st.done) * space as u128 / u128::from(st.total)) as usize; (a, space - a) };
    let at = want.len();
    want.push(format!("]  [{}{}]  {done}/{total}  {pct}", "#".repeat(a), "-".repeat(b)));
    let n = usize::from(title.is_some()) + 1 + st.tasks.len();
    if n <= h && w >= 14 {
        for t in &st.tasks {
            let t = model::visible(&model::fit(t, w - 12));
            if ! t.is_empty() { want.push(format!("    ↳ {}", seen(&t)).trim_end().to_string()); }
        }
    }
    // Elapsed time is checked on its own.
    let mut got: Vec<String> = rows.to_vec();
    if got.len() <= at { return bad("too few lines"); }
    let clock = got[at].get(..9).unwrap_or_default().to_string();
    // (It goes no further than a day.)
    let ok = secs.iter().map(|s| (*s).min(86_399)).any(|s| clock == format!("[{:02}:{:02}:{:02}", s / 3600, s / 60 % 60, s % 60));
    if ! ok && ! secs.is_empty() { return bad("wrong elapsed time"); }
    got[at] = got[at].get(9..).unwrap_or_default().to_string();
    if got != want { return Err(format!("screen {rows:?} doesn't show {st:?} at {size:?} (expected {want:?})")); }
    Ok(())
}

/// All bytes sent to a descriptor, up to some point.
pub fn bytes(fd: i32, upto: usize) -> Vec<u8> {
    let mut v = Vec::new();
    for e in rt().events.iter().take(upto) { if let Ev::Out { fd: f, data, .. } = e { if *f == fd { v.extend_from_slice(data); } } }
    v
}

/// The most recent frame: whatever followed the last erasure.
pub fn last_frame(b: &[u8]) -> Option<&[u8]> {
    let at = b.windows(3).rposition(|w| w == b"\x1b[J")?;
    Some(&b[at..])
}

/// The most recent frame on a terminal of its own; it has to fit.
pub fn frame_screen(b: &[u8], size: (u16, u16)) -> Result<Vec<String>, String> {
    let Some(f) = last_frame(b) else { return Ok(vec![]); };
    let mut s = Screen::new(size.0.into(), size.1.into());
    s.feed(f);
    let show = || String::from_utf8_lossy(f).into_owned();
    if let Some(o) = s.odd { return Err(format!("{o} in frame {:?}", show())); }
    if s.incomplete() { return Err(format!("frame ends in the middle of a sequence {:?}", show())); }
    if s.wraps != 0 { return Err(format!("a line wraps at {size:?}: {:?}", show())); }
    if s.scrolls != 0 { return Err(format!("the screen scrolls at {size:?}: {:?}", show())); }
    if (s.r, s.c) != (0, 0) { return Err(format!("the cursor ends at {:?} rather than where it began: {:?}", (s.r, s.c), show())); }
    Ok(s.text())
}

/// A readable account of the execution.
pub fn describe() -> Vec<String> {
    let r = rt();
    let mut v: Vec<String> = r.events.iter().map(|e| match e {
        Ev::Out { tid, fd, data, clock } => format!("[{}ms] thread {tid} writes to {fd}: {:?}", clock / 1_000_000, String::from_utf8_lossy(data)),
        Ev::Fault { tid, fd, what } => format!("thread {tid} writing to {fd}: {what}"),
        Ev::User { tid, tag, id, val, text, clock } => match *tag {
            "call" => format!("[{}ms] thread {tid} begins {:?}", clock / 1_000_000, opt(*id)),
            "ret" => format!("[{}ms] thread {tid} ends {:?} -> {val}", clock / 1_000_000, opt(*id)),
            _ => format!("[{}ms] thread {tid} {tag} {id} {val} {text}", clock / 1_000_000),
        },
        Ev::Switch { tid } => format!("switch to thread {tid}"),
        Ev::Start { tid } => format!("thread {tid} starts"),
        Ev::Done { tid } => format!("thread {tid} ends"),
        Ev::Signal { tid, sig, .. } => format!("thread {tid} is interrupted by signal {sig}"),
        Ev::Clock { to } => format!("time advances to {}ms", to / 1_000_000),
        Ev::Resize { to } => format!("the terminal is resized to {to:?}"),
    }).collect();
    v.push(format!("end: {:?}{}", r.end, r.fail.as_ref().map_or(String::new(), |f| format!(" ({f})"))));
    v
}
