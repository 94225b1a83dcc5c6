//! P13 (and parts of S01, S02): several bars in one program.
use crate::explore::{Budget, Test};
use crate::h::{self, *};
use crate::tier;
use fyi_msg::Progless;
use vstd::rt::{self, fail, rt, End, Ev};

const BIG: (u16, u16) = (80, 24);
fn normal() -> Result<(), String> {
    match &rt().end { End::Normal => Ok(()), e => Err(format!("ended with {e:?}")) }
}

/// A bar, what's known of it, and when it was made.
pub struct Bar { pub p: Progless, pub m: Spec, pub since: u64 }
impl Bar {
    pub fn new(total: u32, title: Option<&'static str>) -> Self {
        let since = rt().clock;
        let p = Progless::try_from(total).unwrap();
        if title.is_some() { p.set_title(title); }
        Bar { p, m: Spec { title: title.map(String::from), ..Spec::new(total.into()) }, since }
    }
    pub fn run(&mut self, op: Op) {
        let got = run(&self.p, op);
        let want = h::apply(&mut self.m, op);
        if got != want { fail(format!("{op:?} gave {got} instead of {want}")); }
    }
    pub fn check(&self) {
        let n = count(&self.p);
        if n as u64 != self.m.done { fail(format!("the count is {n} instead of {}: {:?}", self.m.done, self.m)); }
    }
}

/// Left alone for a while, each bar that's active has to show up, and nothing else.
pub fn look<'a>(bars: impl IntoIterator<Item=&'a Bar>, size: (u16, u16), title: Option<&str>) {
    let from = rt().events.len();
    sleep(1250);
    let mut data: Vec<u8> = Vec::new();
    for e in &rt().events[from..] { if let Ev::Out { fd: 2, data: d, .. } = e { data.extend_from_slice(d); } }
    let data = String::from_utf8_lossy(&data).replace("\x1b[?25h", "").replace("\x1b[?25l", "");
    let mut frames = data.split_inclusive_at("\x1b[J");
    if ! frames.is_empty() && ! frames[0].starts_with("\x1b[J") { fail(format!("{:?} isn't a frame", frames.remove(0))); }
    let bars: Vec<&Bar> = bars.into_iter().filter(|b| b.m.running).collect();
    // (Clearing as such is harmless.)
    if frames.iter().filter(|f| *f != "\x1b[J").count() > bars.len() * 2 { fail(format!("{} frames for {} bars", frames.len(), bars.len())); }
    let mut seen = vec![false; bars.len()];
    for f in &frames {
        let rows = match frame_screen(f.as_bytes(), size) { Ok(v) => v, Err(m) => fail(m) };
        let mut last = String::from("there should be none");
        let mut any = false;
        for (i, b) in bars.iter().enumerate() {
            let s = (rt().clock - b.since) / 1_000_000_000;
            let mut st = b.m.shown();
            if let Some(t) = title { st.title = Some(t.to_string()); }
            match frame_ok(&rows, &st, size, &[s, s.saturating_sub(1), s.saturating_sub(2)]) { Ok(()) => { seen[i] = true; any = true; }, Err(m) => last = m }
        }
        if ! any { fail(format!("{rows:?} is on display, which is none of {} bars: {last}", bars.len())); }
    }
    if let Some(i) = seen.iter().position(|s| ! s) { fail(format!("nothing is seen of {:?} (of {} bars)", bars[i].m, bars.len())); }
}
trait Split { fn split_inclusive_at(&self, s: &str) -> Vec<String>; }
impl Split for String {
    fn split_inclusive_at(&self, s: &str) -> Vec<String> {
        let mut v: Vec<String> = Vec::new();
        for (i, part) in self.split(s).enumerate() { if i != 0 { v.push(format!("{s}{part}")); } else if ! part.is_empty() { v.push(part.to_string()); } }
        v
    }
}

fn resize(size: (u16, u16)) { rt::resize(Some(size)); rt::raise_here(28); }
fn no_more(n: usize) {
    if tickers() != n as i64 { fail(format!("{} tickers for {n} active runs", tickers())); }
    if cfg!(feature = "sigwinch") {
        let k = rt().handlers.iter().filter(|h| h.1 == 28).count();
        if k != n { fail(format!("{k} listeners for resizes for {n} active runs")); }
    }
}

/// One after the other.
fn succession() {
    settle(true);
    let mut size = BIG;
    let mut a = match rt::choose(3, rt::FREE) {
        0 => Bar::new(2, None),
        1 => Bar::new(300, Some("First")),
        _ => Bar { p: Progless::default(), m: Spec { running: false, ..Spec::new(1) }, since: 0 },
    };
    for _ in 0..2 {
        match rt::choose(10, rt::FREE) {
            8 => { size = (30, 24); resize(size); },
            9 => { rt().broken[2] = 5; sleep(150); },
            i => { a.run([Op::Nop, Op::Inc(1), Op::Add("a"), Op::Title(Some("Other")), Op::Sleep(250), Op::Finish, Op::Reset(5), Op::TitleMsg("Yet another")][i]); },
        }
    }
    let mut old = None;
    match rt::choose(4, rt::FREE) {
        0 => { a.run(Op::Finish); old = Some(a); },
        1 => { a.run(Op::Finish); drop(a); },
        2 => drop(a),
        _ => { a.run(Op::Set(u32::MAX)); old = Some(a); },
    }
    rt().broken[2] = 0;
    // Another one. (It takes some time for tickers to notice.)
    let wait = pick(&[0, 110]);
    sleep(wait);
    let mut b = Bar::new(3, pick(&[None, Some("Second")]));
    for _ in 0..tier(2, 3) {
        b.run(pick(&[Op::Nop, Op::Inc(1), Op::Add("a"), Op::Set(5), Op::Title(Some("New")), Op::TitleMsg("New"), Op::Push("two"), Op::Finish, Op::Reset(4), Op::Sleep(1250)]));
        b.check();
        if let Some(a) = &old { a.check(); }
    }
    sleep(250);
    look([&b], size, None);
    no_more(b.m.running.into());
    b.run(Op::Finish);
    b.check();
    no_more(0);
    look([&b], size, None);
}

/// However many.
fn lots() {
    settle(true);
    rt().horizon = 1_000_000;
    let n = pick(&[1_u32, 2, 3, 4, 5, 7, 8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300]);
    let (life, end, title) = (pick(&[0, 150, 250]), rt::choose(3, rt::FREE), pick(&[None, Some("Earlier")]));
    for i in 0..n {
        let mut a = Bar::new(i % 3 + 1, title);
        if i % 3 == 2 { a.run(Op::Inc(1)); a.run(Op::Add("a")); }
        if life != 0 { sleep(life); }
        match end { 0 => {}, 1 => a.run(Op::Finish), _ => { a.run(Op::Set(9)); sleep(110); } }
        a.check();
    }
    no_more(0);
    let mut b = Bar::new(3, pick(&[None, Some("Title")]));
    b.run(Op::Inc(1));
    b.run(Op::Add("a"));
    sleep(250);
    look([&b], BIG, None);
    resize((60, 12));
    sleep(350);
    look([&b], (60, 12), None);
    b.run(Op::Reset(4));
    sleep(250);
    look([&b], (60, 12), None);
    b.run(Op::Finish);
    b.check();
    no_more(0);
}

/// So many at once.
fn crowd() {
    settle(true);
    rt().horizon = 1_000_000;
    let n = pick(&[2_usize, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40]);
    let gap = pick(&[0, 7, 110]);
    let mut bars: Vec<Bar> = Vec::new();
    for i in 0..n {
        bars.push(Bar::new(i as u32 + 2, if i % 2 == 0 { Some("Even") } else { None }));
        if gap != 0 { sleep(gap); }
    }
    for b in &mut bars { b.run(Op::Inc(1)); b.run(Op::Add("a")); }
    sleep(250);
    look(&bars, BIG, None);
    no_more(n);
    // Some end.
    let by = rt::choose(3, rt::FREE);
    let (end, some) = (pick(&[Op::Finish, Op::Set(u32::MAX), Op::Reset(7)]), pick(&[2, 3]));
    for (i, b) in bars.iter_mut().enumerate() { if i % some == by % some { b.run(end); } }
    sleep(250);
    for b in &bars { b.check(); }
    look(&bars, BIG, None);
    no_more(bars.iter().filter(|b| b.m.running).count());
    resize((60, 12));
    sleep(350);
    look(&bars, (60, 12), None);
    while ! bars.is_empty() { drop(if by == 0 { bars.remove(0) } else { bars.pop().unwrap() }); no_more(bars.iter().filter(|b| b.m.running).count()); }
}

/// Two at once.
fn together() {
    settle(true);
    let mut bars = vec![Bar::new(3, Some("First"))];
    sleep(pick(&[0, 30]));
    bars.push(Bar::new(4, pick(&[None, Some("Second")])));
    sleep(150);
    for _ in 0..tier(3, 4) {
        let (i, k) = (rt::choose(2, rt::FREE), rt::choose(12, rt::FREE));
        if i >= bars.len() { return; }
        if k == 11 { bars.remove(i); }
        else {
            bars[i].run([Op::Inc(1), Op::Set(9), Op::Set(0), Op::Add("a"), Op::Rem("a"), Op::Title(Some("New")), Op::TitleMsg("Newer"), Op::Push("msg"), Op::Finish, Op::Reset(5), Op::Sleep(110)][k]);
        }
        for b in &bars { b.check(); }
    }
    sleep(250);
    no_more(bars.iter().filter(|b| b.m.running).count());
    look(&bars, BIG, None);
}

/// Each with a thread of its own.
fn apart() {
    settle(true);
    let mut bars = vec![Bar::new(3, Some("First")), Bar::new(4, None)];
    for b in &mut bars { b.run(Op::Add("a")); }
    sleep(250);
    let ops = [Op::Inc(1), Op::Set(9), Op::Add("b"), Op::Rem("a"), Op::Title(Some("New")), Op::Push("msg"), Op::Finish, Op::Reset(5)];
    let wait = pick(&[50, 20]);
    let mut b = bars.pop().unwrap();
    let mut a = bars.pop().unwrap();
    let (x, y) = (pick(&ops), pick(&ops));
    let (p, q) = (a.p.clone(), b.p.clone());
    let (mut am, mut bm) = (a.m.clone(), b.m.clone());
    let t1 = worker(move || { sleep(wait); let got = run(&p, x); let want = h::apply(&mut am, x); if got != want { fail(format!("{x:?} gave {got} instead of {want}")); } });
    let t2 = worker(move || { sleep(wait); let got = run(&q, y); let want = h::apply(&mut bm, y); if got != want { fail(format!("{y:?} gave {got} instead of {want}")); } });
    sleep(wait - 1);
    settle(false);
    let _ = t1.join();
    let _ = t2.join();
    settle(true);
    h::apply(&mut a.m, x);
    h::apply(&mut b.m, y);
    a.check();
    b.check();
    sleep(250);
    let bars = [a, b];
    no_more(bars.iter().filter(|b| b.m.running).count());
    look(&bars, BIG, None);
}

/// Each of them notices.
fn resized() {
    settle(true);
    const SIZES: [(u16, u16); 6] = [(80, 24), (30, 24), (8, 24), (60, 3), (100, 50), (300, 300)];
    rt().size = Some(pick(&SIZES));
    let n = pick(&[2_usize, 3]);
    let mut bars: Vec<Bar> = Vec::new();
    for i in 0..n { bars.push(Bar::new(i as u32 + 2, [Some("Title"), None, Some("Other")][i])); sleep(pick(&[0, 30])); }
    for b in &mut bars { b.run(Op::Add("a")); }
    sleep(pick(&[0, 250]));
    for _ in 0..2 {
        let size = pick(&SIZES);
        resize(size);
        if rt::choose(2, rt::FREE) == 1 { sleep(350); look(&bars, size, None); }
    }
    let size = rt().size.unwrap();
    let op = pick(&[Op::Nop, Op::Finish, Op::Reset(9)]);
    bars[rt::choose(2, rt::FREE)].run(op);
    sleep(350);
    look(&bars, size, None);
}

/// Each of them says so.
#[cfg(feature = "sigint")]
fn noticed() {
    settle(true);
    let policy = rt::choose(2, rt::FREE);
    if policy == 0 { let _ = Progless::sigint_two_strike(); } else { let _ = Progless::sigint_keepalive(); }
    let mut bars = vec![Bar::new(3, Some("First"))];
    let mut sent = false;
    for _ in 0..tier(4, 5) {
        match rt::choose(7, rt::FREE) {
            0 => bars.push(Bar::new(4, None)),
            1 => if let Some(b) = bars.last_mut() { b.run(Op::Finish); },
            2 => if let Some(b) = bars.first_mut() { b.run(Op::Reset(5)); },
            3 => { bars.pop(); },
            4 => if ! sent || policy == 1 { sent = true; rt::raise_here(2); },
            5 => sleep(250),
            _ => if let Some(b) = bars.first_mut() { b.run(Op::Title(Some("New"))); sleep(1250); },
        }
    }
    // (A title set afterwards takes its place.)
    let late = bars.iter().any(|b| b.m.title.as_deref() == Some("New"));
    sleep(250);
    if ! sent { look(&bars, BIG, None); }
    else if ! late { look(&bars, BIG, Some("Warning: Early shutdown in progress.")); }
    no_more(bars.iter().filter(|b| b.m.running).count());
    for b in &mut bars { b.run(Op::Finish); }
    let shown = bytes(2, usize::MAX);
    let last = shown.windows(6).rfind(|w| *w == b"\x1b[?25h" || *w == b"\x1b[?25l");
    if last == Some(b"\x1b[?25l") { fail(String::from("the cursor is hidden although no run is active")); }
}

fn b(total: u32, sched: u32, block: u32) -> Budget { Budget { total, sched, block, fault: 0, signal: 0 } }

pub fn tests() -> Vec<Test> {
    let s = String::from;
    let none = Budget::NONE;
    #[allow(unused_mut)]
    let mut v = vec![
        Test { prop: "P13", name: "succession", body: succession, check: normal, budget: none, bounds: format!("3 kinds of instance × all pairs of 10 operations, resizes and failures × 4 ways to end, then another instance (titled or not) with all sequences of {} operations out of 10", tier(2, 3)) },
        Test { prop: "P13", name: "lots", body: lots, check: normal, budget: none, bounds: s("29 numbers of earlier instances up to 300 × 3 durations × 3 ways to end, then another one resized and reset") },
        Test { prop: "P13", name: "crowd", body: crowd, check: normal, budget: none, bounds: s("14 numbers of instances at once up to 40, started at 3 intervals, a part of them ending in 2 ways or beginning anew, a resize, dropping in either order") },
        Test { prop: "P13", name: "together", body: together, check: normal, budget: none, bounds: format!("two instances at once, all sequences of {} of 12 operations on either", tier(3, 4)) },
        Test { prop: "P13", name: "apart", body: apart, check: normal, budget: b(tier(2, 3), 2, 2), bounds: s("two instances with a thread each: all 64 pairs of 8 operations with/without a simultaneous paint") },
        Test { prop: "S02", name: "several", body: resized, check: normal, budget: none, bounds: s("two or three instances, 6 × 6 × 6 sizes, one of them ending or beginning anew") },
    ];
    #[cfg(feature = "sigint")]
    v.push(Test { prop: "S01", name: "several", body: noticed, check: normal, budget: none, bounds: format!("2 policies × all sequences of {} of 7 events: instances come, go, end and begin anew, interrupts", tier(4, 5)) });
    v
}
