//! S01, S02: interrupts and resizes.
use crate::explore::{Budget, Test};
use crate::h::{self, *};
use crate::tier;
use fyi_msg::Progless;
use vstd::rt::{self, fail, rt, End, Inject};

const HIDE: &[u8] = b"\x1b[?25l";
const SHOW: &[u8] = b"\x1b[?25h";
const NOTICE: &str = "Warning: Early shutdown in progress.";

// ---- S01 ----

#[cfg(feature = "sigint")]
mod interrupt {
    use super::*;
    use vstd::rt::Ev;
    use vstd::sync::{Arc, atomic::{AtomicBool, Ordering::SeqCst}};

    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Policy { Default, Two, Keep }
    const POLICIES: [Policy; 3] = [Policy::Default, Policy::Two, Policy::Keep];
    fn ask(p: Policy) -> Option<&'static Arc<AtomicBool>> {
        match p { Policy::Default => None, Policy::Two => Some(Progless::sigint_two_strike()), Policy::Keep => Some(Progless::sigint_keepalive()) }
    }
    fn code(p: Policy) -> i64 { match p { Policy::Default => 1, Policy::Two => 2, Policy::Keep => 4 } }

    /// The run's over, or should be; what do things look like?
    fn over() {
        settle(true);
        rt().injecting = false;
        rt::event("over", 0, 0, String::new());
        // Whoever asks now gets the same flag.
        let sent = rt().events.iter().any(|e| matches!(e, Ev::Signal { sig: 2, .. }));
        if Progless::sigint_keepalive().load(SeqCst) != sent { fail(format!("the flag is {}", ! sent)); }
    }
    fn look(p: &Progless, st: &Spec, secs_of: bool) {
        let (old, inj) = (rt().settle, rt().injecting);
        settle(true);
        rt().injecting = false;
        sleep(350);
        let mut st = st.clone();
        if rt().events.iter().any(|e| matches!(e, Ev::Signal { sig: 2, .. })) { st.title = Some(String::from(NOTICE)); }
        let s = h::secs();
        if let Err(m) = frame_screen(&seen(), (80, 24)).and_then(|rows| frame_ok(&rows, &st.shown(), (80, 24), if secs_of { &s } else { &[] })) { fail(m); }
        let _ = p;
        rt().injecting = inj;
        settle(old);
    }

    /// What was written, apart from what the handler adds in between.
    fn seen() -> Vec<u8> {
        let b = bytes(2, usize::MAX);
        let mut v = Vec::with_capacity(b.len());
        let mut i = 0;
        while i < b.len() { if b[i..].starts_with(HIDE) || b[i..].starts_with(SHOW) { i += 6; } else { v.push(b[i]); i += 1; } }
        v
    }

    pub fn interrupts(script: usize) {
        settle(true);
        let (first, second) = (pick(&POLICIES), pick(&POLICIES));
        let untitled = rt::choose(2, rt::FREE) == 1;
        // Beforehand, right after the run began, or later on.
        let when = if second == Policy::Default { 0 } else { 1 + rt::choose(3, rt::FREE) };
        param(match (first, when) {
            (Policy::Default, 0 | 3) => code(Policy::Default),
            (Policy::Default, 1) => code(second),
            (Policy::Default, _) => code(second) | code(Policy::Default),
            _ => code(first),
        });
        // Nobody is listening yet otherwise.
        param(i64::from(first != Policy::Default || when == 1));
        let a = ask(first);
        let same = |b: Option<&'static Arc<AtomicBool>>| if let (Some(a), Some(b)) = (a, b) { if ! Arc::ptr_eq(a, b) { fail(String::from("a different flag for each policy")); } };
        if when == 1 { same(ask(second)); }
        rt().inject = vec![Inject::Signal(2); 3];
        rt().injecting = true;
        let title = if untitled { None } else { Some("Title") };
        let p = Progless::try_from(3_u32).unwrap().with_title(title);
        let mut st = Spec { title: title.map(String::from), ..Spec::new(3) };
        if when == 2 { settle(false); same(ask(second)); settle(true); }
        if when == 3 { sleep(150); same(ask(second)); }
        settle(false);
        match script {
            // All the way through.
            0 => {
                sleep(250);
                run(&p, Op::Push("msg"));
                look(&p, &st, true);
                run(&p, Op::Finish);
                over();
            },
            // Again and again.
            1 => {
                run(&p, Op::Inc(1));
                run(&p, Op::Reset(2));
                sleep(120);
                st = Spec { done: 0, total: 2, ..st };
                look(&p, &st, true);
                run(&p, Op::Set(2));
                run(&p, Op::Finish);
                over();
            },
            // Over before it began.
            2 => {
                run(&p, Op::Finish);
                over();
            },
            // Not finished.
            3 => {
                sleep(120);
                drop(p);
                over();
            },
            // Finished by others.
            4 => {
                let q = p.clone();
                let t = worker(move || { sleep(100); run(&q, Op::Inc(7)); });
                run(&p, Op::Add("a"));
                run(&p, Op::Push("msg"));
                let _ = t.join();
                run(&p, Op::Finish);
                over();
            },
            // A new run, titled anew.
            5 => {
                run(&p, Op::Inc(1));
                run(&p, Op::Finish);
                run(&p, Op::Title(Some("Other")));
                run(&p, Op::Reset(2));
                st = Spec { done: 0, total: 2, title: Some(String::from("Other")), ..st };
                look(&p, &st, true);
                run(&p, Op::Finish);
                over();
            },
            _ => unreachable!(),
        }
    }

    /// However many.
    pub fn many() {
        settle(true);
        let first = pick(&POLICIES);
        param(code(first));
        param(1);
        let n = pick(&[0, 1, 2, 3, 4, 5, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]);
        // With a new run every so often.
        let every = pick(&[1, 2, 7, 1000]);
        let pause = pick(&[0, 30, 110]);
        let _ = ask(first);
        rt().horizon = 500_000;
        let p = Progless::try_from(9_u32).unwrap().with_title(Some("Title"));
        let mut m = Spec { title: Some(String::from("Title")), ..Spec::new(9) };
        sleep(150);
        for i in 0..n {
            if i % every == every - 1 { for op in [Op::Title(Some("Other")), Op::Reset(9)] { run(&p, op); h::apply(&mut m, op); } }
            rt::raise_here(2);
            if pause != 0 { sleep(pause); }
        }
        look(&p, &m, true);
        run(&p, Op::Finish);
        over();
    }

    /// Whether the cursor is visible.
    fn cursor(upto: usize) -> bool {
        let b = bytes(2, upto);
        let f = |w: &[u8]| b.windows(6).rposition(|x| x == w);
        match (f(HIDE), f(SHOW)) { (None, _) => true, (Some(_), None) => false, (Some(h), Some(s)) => s > h }
    }

    pub fn outcome() -> Result<(), String> {
        let sent = rt().events.iter().filter(|e| matches!(e, Ev::Signal { sig: 2, .. })).count();
        let (policy, early) = (params(0), params(1) == 1);
        let can = |p: Policy| policy & code(p) != 0;
        let ok = match &rt().end {
            End::Normal => (can(Policy::Default) && sent == 0) || (can(Policy::Two) && sent <= 1) || can(Policy::Keep),
            End::Exit(1) => (can(Policy::Default) && sent >= 1) || (can(Policy::Two) && sent >= 2),
            End::Exit(130) => ! early && ! rt().caught.contains(&2),
            e => return Err(format!("ended with {e:?}")),
        };
        if ! ok { return Err(format!("ended with {:?} after {sent} interrupts (policy {policy})", rt().end)); }
        if let Some(i) = rt().events.iter().position(|e| matches!(e, Ev::User { tag: "over", .. })) {
            if ! cursor(i) { return Err(String::from("the cursor is hidden though the run is over")); }
        }
        if ! cursor(usize::MAX) {
            // Who did that?
            // (What each write with any such thing in it comes to.)
            let last = |d: &[u8], w: &[u8]| d.windows(6).rposition(|x| x == w);
            let outs: Vec<(usize, usize, bool)> = rt().events.iter().enumerate().filter_map(|(i, e)| match e {
                Ev::Out { tid, fd: 2, data, .. } if last(data, HIDE).is_some() || last(data, SHOW).is_some() => Some((i, *tid, last(data, HIDE) > last(data, SHOW))),
                _ => None,
            }).collect();
            if let Some((at, who, hides)) = outs.last() {
                let before = &outs[..outs.len() - 1];
                let fresh = ! before.iter().any(|o| o.1 == *who) && rt::name(*who) != Some("w") && *who != 0;
                let signal = rt().events.iter().position(|e| matches!(e, Ev::Signal { sig: 2, tid, .. } if tid != who));
                if *hides && fresh && matches!(rt().end, End::Exit(1)) && signal.is_some_and(|s| s < *at && before.iter().any(|o| o.0 > s && ! o.2)) {
                    return Err(String::from("the cursor is left hidden by a ticker that was just starting when another thread's handler showed it and exited"));
                }
            }
            return Err(String::from("the cursor is hidden at the end"));
        }
        Ok(())
    }
}

// ---- S02 ----

const SIZES: [Option<(u16, u16)>; 7] = [Some((80, 24)), Some((50, 6)), Some((30, 24)), Some((80, 2)), Some((8, 24)), None, Some((200, 50))];

/// Give notice, where that's a thing.
fn resized(to: Option<(u16, u16)>) -> Vec<Inject> { vec![Inject::Size(to), Inject::Signal(28)] }

fn fits(st: &Spec) {
    let Some(size) = rt().size else { return; };
    match frame_screen(&bytes(2, usize::MAX), size) {
        Ok(rows) => if let Err(m) = frame_ok(&rows, &st.shown(), size, &secs()) { fail(m) },
        Err(m) => fail(m),
    }
}

/// Whatever hasn't happened yet does.
fn flush() {
    settle(true);
    rt().injecting = false;
    for i in std::mem::take(&mut rt().inject) {
        match i { Inject::Size(s) => rt::resize(s), Inject::Signal(s) => rt::raise(s) }
    }
}

fn resizes() {
    settle(true);
    let (a, b, c) = (pick(&SIZES), pick(&SIZES[..tier(6, 7)]), pick(&[SIZES[0], SIZES[1], SIZES[5]]));
    let twice = rt::choose(2, rt::FREE) == 1;
    rt().size = a;
    rt().inject = resized(b);
    if twice { rt().inject.extend(resized(c)); }
    else if c != SIZES[0] { return; }
    let early = rt::choose(2, rt::FREE) == 1;
    rt().injecting = early;
    let p = Progless::try_from(3_u32).unwrap().with_title(Some("Title"));
    run(&p, Op::Add("a"));
    let mut st = Spec { title: Some(String::from("Title")), done: 0, ..Spec::new(3) };
    st.tasks.insert(String::from("a"));
    settle(false);
    if early { sleep(10); }
    else {
        calm(|| sleep(250));
        rt().injecting = true;
        sleep(60);
    }
    match rt::choose(3, rt::FREE) {
        0 => { run(&p, Op::Push("msg")); },
        1 => { run(&p, Op::Inc(1)); st.done = 1; run(&p, Op::Title(None)); st.title = None; },
        _ => {},
    }
    flush();
    sleep(350);
    // (Without a size a message might have taken the place of the bar; that
    // by itself isn't something to redraw it for.)
    if a.is_some() && b.is_some() && c.is_some() { fits(&st); }
    sleep(1000);
    fits(&st);
    run(&p, Op::Finish);
    if rt().handlers.iter().any(|h| h.1 == 28) { fail(String::from("still listening for resizes")); }
    rt().size = SIZES[0];
    rt::raise(28);
    run(&p, Op::Reset(2));
    sleep(350);
    fits(&Spec { title: st.title.clone(), ..Spec::new(2) });
}

/// Several in a row, and something else at the same time.
fn resize_history() {
    settle(true);
    rt().size = pick(&SIZES);
    let p = Progless::try_from(3_u32).unwrap().with_title(Some("Title"));
    let mut m = Spec { title: Some(String::from("Title")), ..Spec::new(3) };
    for _ in 0..tier(2, 3) {
        let s = pick(&SIZES);
        rt::resize(s);
        rt::raise(28);
        let op = pick(&[Op::Nop, Op::Inc(1), Op::Add("a"), Op::Push("msg"), Op::Title(Some("Other")), Op::Reset(4)]);
        run(&p, op);
        h::apply(&mut m, op);
        sleep(pick(&[30, 350]));
    }
    sleep(1350);
    if m.running { fits(&m); }
}

/// Resize signals are listened for while there's a run, and only then.
fn listening() {
    settle(true);
    let deaf = rt::choose(2, rt::FREE) == 1;
    if deaf { rt().deaf.push(28); }
    let p = Progless::try_from(3_u32).unwrap().with_title(Some("Title"));
    let mut all = vec![p];
    let (mut m, mut size) = (Spec { title: Some(String::from("Title")), ..Spec::new(3) }, (80, 24));
    for _ in 0..tier(4, 5) {
        let k = rt::choose(7, rt::FREE);
        let Some(p) = all.first() else { break; };
        match k {
            0 => { run(p, Op::Finish); h::apply(&mut m, Op::Finish); },
            1 => { run(p, Op::Inc(9)); h::apply(&mut m, Op::Inc(9)); },
            2 => { run(p, Op::Reset(4)); h::apply(&mut m, Op::Reset(4)); },
            3 => { let q = p.clone(); all.push(q); },
            4 => { all.pop(); },
            5 => { let q = Progless::try_from(1_u32).unwrap(); sleep(50); drop(q); },
            _ => {
                size = if size == (80, 24) { (60, 20) } else { (80, 24) };
                rt::resize(Some(size));
                rt::raise(28);
            },
        }
        if k != 5 { sleep(150); }
        let n = rt().handlers.iter().filter(|h| h.1 == 28).count();
        let want = usize::from(cfg!(feature = "sigwinch") && ! deaf && m.running && ! all.is_empty());
        if n != want { fail(format!("{n} listeners for resizes rather than {want}")); }
    }
    if m.running && ! all.is_empty() { sleep(350); fits(&m); }
}

/// However many.
fn many_resizes() {
    settle(true);
    rt().horizon = 500_000;
    let p = Progless::try_from(3_u32).unwrap().with_title(Some("Title"));
    let m = Spec { title: Some(String::from("Title")), ..Spec::new(3) };
    let n = pick(&[1, 2, 9, 10, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 257, 300]);
    let sizes = [pick(&SIZES), pick(&SIZES), pick(&SIZES)];
    let pause = pick(&[0, 50, 110, 250]);
    sleep(250);
    for i in 0..n {
        rt::resize(sizes[i % 3]);
        rt::raise_here(28);
        if pause != 0 { sleep(pause); }
    }
    rt::resize(SIZES[0]);
    rt::raise_here(28);
    sleep(350);
    fits(&m);
    run(&p, Op::Finish);
    if rt().handlers.iter().any(|h| h.1 == 28) { fail(String::from("still listening for resizes")); }
}

/// While a paint or a message is on its way.
fn resize_race() {
    settle(true);
    let (a, b) = (pick(&SIZES[..4]), pick(&SIZES[..4]));
    rt().size = a;
    let p = Progless::try_from(3_u32).unwrap().with_title(Some("Title"));
    sleep(250);
    let op = pick(&[Op::Push("msg"), Op::Inc(1), Op::Title(None), Op::Add("a"), Op::Reset(4)]);
    let q = p.clone();
    let t = worker(move || { sleep(50); run(&q, op); });
    sleep(49);
    rt().inject = resized(b);
    rt().injecting = true;
    settle(false);
    let _ = t.join();
    flush();
    let mut m = Spec { title: Some(String::from("Title")), ..Spec::new(3) };
    h::apply(&mut m, op);
    sleep(350);
    fits(&m);
    sleep(1000);
    fits(&m);
}

fn normal() -> Result<(), String> {
    match &rt().end { End::Normal => Ok(()), e => Err(format!("ended with {e:?}")) }
}

pub fn tests() -> Vec<Test> {
    let mut v = Vec::new();
    let s = String::from;
    #[cfg(feature = "sigint")]
    {
        let deep = Budget { total: 3, sched: 0, block: 0, fault: 0, signal: 3 };
        let wide = |n: u32| Budget { total: n, sched: n - 1, block: n - 1, fault: 0, signal: n };
        macro_rules! script { ($n:literal, $name:literal, $budget:expr, $what:literal) => {
            v.push(Test { prop: "S01", name: $name, body: || interrupt::interrupts($n), check: interrupt::outcome, budget: $budget, bounds: s(concat!("3 policies × 2 others asked for before, with or after the first run; interrupts at any point in any thread; ", $what)) });
        } }
        script!(0, "whole", wide(tier(2, 3)), "a run with a message");
        script!(1, "again", wide(tier(2, 3)), "a run that is reset");
        script!(2, "brief", wide(tier(3, 4)), "a run that is over at once");
        script!(3, "dropped", wide(tier(3, 3)), "a run that is dropped");
        script!(4, "others", wide(tier(2, 3)), "a run completed by another thread");
        script!(5, "renewed", wide(tier(2, 3)), "a run titled anew and reset");
        v.push(Test { prop: "S01", name: "many", body: interrupt::many, check: interrupt::outcome, budget: Budget::NONE, bounds: s("3 policies × 26 numbers of interrupts up to 300, 3 intervals, a new run after every one, two, seven or never") });
        script!(2, "three-brief", deep, "a run that is over at once");
        if tier(false, true) {
            script!(0, "three-whole", deep, "a run with a message");
            script!(1, "three-again", deep, "a run that is reset");
            script!(4, "three-others", deep, "a run completed by another thread");
        }
    }
    v.push(Test { prop: "S02", name: "resizes", body: resizes, check: normal, budget: Budget { total: tier(2, 3), sched: tier(1, 2), block: 1, fault: 0, signal: 4 }, bounds: s("7 × 6 sizes (× 3 more), each (and its signal) at any point, early on or later, with 3 other changes; a later run") });
    v.push(Test { prop: "S02", name: "race", body: resize_race, check: normal, budget: Budget { total: tier(3, 4), sched: tier(2, 2), block: tier(1, 2), fault: 0, signal: 2 }, bounds: s("4 × 4 sizes, the resize and its signal at any point of a simultaneous paint and one of 5 changes") });
    v.push(Test { prop: "S02", name: "listening", body: listening, check: normal, budget: Budget::NONE, bounds: format!("all sequences of {} of 7 events (the run ends in 3 ways or begins anew, handles come and go, another instance does, a resize), with or without being able to listen for the signal", tier(4, 5)) });
    v.push(Test { prop: "S02", name: "many", body: many_resizes, check: normal, budget: Budget::NONE, bounds: s("16 numbers of resizes up to 300, going through 7 × 7 × 7 sizes, at 4 intervals") });
    v.push(Test { prop: "S02", name: "history", body: resize_history, check: normal, budget: Budget::NONE, bounds: format!("all sequences of {} resizes to 7 sizes with 6 changes and 2 pauses each", tier(2, 3)) });
    v
}
