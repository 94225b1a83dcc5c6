//! P02–P08, P12: bars on a terminal.
use crate::explore::{Budget, Test};
use crate::h::{self, *};
use crate::tier;
use fyi_msg::Progless;
use vstd::rt::{self, fail, rt, End, Ev};

const BIG: (u16, u16) = (80, 24);
fn normal() -> Result<(), String> {
    match &rt().end { End::Normal => Ok(()), e => Err(format!("ended with {e:?}")) }
}
/// … and all of it on standard error.
fn painted() -> Result<(), String> {
    normal()?;
    if rt().events.iter().any(|e| matches!(e, Ev::Out { fd, .. } if *fd != 2)) { return Err(String::from("something was written to standard output")); }
    Ok(())
}
fn sure(r: Result<(), String>) { if let Err(m) = r { fail(m); } }

/// The bar as it is on the screen right now.
fn shown(size: (u16, u16)) -> Vec<String> {
    match frame_screen(&bytes(2, usize::MAX), size) { Ok(v) => v, Err(m) => fail(m) }
}

// ---- P02 ----

const COMPLETING: [Op; 5] = [Op::Finish, Op::Inc(1), Op::Inc(7), Op::Rem("a"), Op::Set(3)];

fn finishing() {
    settle(true);
    let p = Progless::try_from(3_u32).unwrap().with_title(Some("Title"));
    run(&p, Op::Add("a"));
    run(&p, Op::Set(2));
    sleep(250);
    let a = pick(&COMPLETING);
    let b = pick(&[Op::Nop, Op::Push("pushed\nlines"), Op::Finish, Op::Inc(1), Op::Add("b"), Op::Title(Some("Other")), Op::Set(0), Op::Rem("a"), Op::TitleMsg("x")]);
    // With the next paint, or without.
    let wait = pick(&[50, 20]);
    let (p1, p2) = (p.clone(), p.clone());
    let t1 = worker(move || { sleep(wait); run(&p1, a); run(&p1, Op::Read); });
    let t2 = worker(move || { sleep(wait); run(&p2, b); });
    sleep(wait - 1);
    settle(false);
    let _ = t1.join();
    let _ = t2.join();
    settle(true);
    run(&p, Op::Finish);
    sleep(350);
    run(&p, Op::Read);
}

/// Whatever was shown is gone again.
fn endings() {
    settle(true);
    let size = pick(&[BIG, (80, 3), (80, 4), (30, 24), (8, 24), (300, 300)]);
    rt().size = Some(size);
    let title = pick(&[None, Some("Title"), Some(""), Some("two\nlines"), Some("a title that is wider than most of the screens around here, so that it needs to be shortened to fit them, every time")]);
    let tasks = pick(&[&[][..], &["a"], &["a", "b"], &["a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q", "r", "s", "t", "u", "v"]]);
    let kind = rt::choose(3, rt::FREE);
    let mut m = Spec::new(3);
    let p = if kind == 0 { Progless::try_from(3_u32).unwrap() } else { Progless::try_from(7_u32).unwrap() };
    if kind != 0 {
        // An earlier run.
        run(&p, Op::Add("a"));
        sleep(250);
        if kind == 2 { run(&p, Op::Finish); }
        run(&p, Op::Reset(3));
    }
    for op in [Op::Title(title), Op::Set(2)] { run(&p, op); h::apply(&mut m, op); }
    for t in tasks { run(&p, Op::Add(t)); h::apply(&mut m, Op::Add(t)); }
    sleep(250);
    sure(frame_ok(&shown(size), &m.shown(), size, &secs()));
    // Something else to do first, seen or not.
    let op = pick(&[Op::Nop, Op::Title(None), Op::Title(Some("Other")), Op::Rem("b"), Op::Add("z"), Op::Set(0), Op::Push("pushed"), Op::TitleMsg("x")]);
    run(&p, op);
    h::apply(&mut m, op);
    if rt::choose(2, rt::FREE) == 1 { sleep(130); }
    let op = pick(&COMPLETING);
    run(&p, op);
    h::apply(&mut m, op);
    if m.running { run(&p, Op::Finish); }
    for _ in 0..2 {
        let s = screen(usize::MAX, (size.0.into(), 0));
        if let Some(o) = &s.odd { fail(o.clone()); }
        if let Some(bad) = s.text().iter().find(|t| ! t.is_empty() && *t != "pushed") { fail(format!("the run is over but the screen shows {bad:?}")); }
        if count(&p) != 3 { fail(format!("finished at {}", count(&p))); }
        sleep(350);
    }
}

/// Once gone, a bar stays gone.
fn gone() -> Result<(), String> {
    normal()?;
    let mut pushed: Vec<&str> = Vec::new();
    let mut over = false;
    let mut open: Vec<usize> = Vec::new();
    let lowered = rt().events.iter().any(|e| matches!(e, Ev::User { tag: "call", id, .. } if opt(*id) == Op::Set(0)));
    let mut s = crate::screen::Screen::new(BIG.0.into(), 50);
    for e in &rt().events {
        match e {
            Ev::Out { fd: 2, data, .. } => s.feed(data),
            Ev::User { tag: "call", id, .. } => {
                open.push(*id);
                if let Op::Push(m) = opt(*id) { pushed.extend(m.split('\n')); }
            },
            Ev::User { tag: "ret", id, .. } => {
                open.retain(|i| i != id);
                let op = opt(*id);
                // Another one might be the one that reached the total.
                if op == Op::Finish || (COMPLETING.contains(&op) && ! lowered && ! open.iter().any(|i| COMPLETING.contains(&opt(*i)))) { over = true; }
            },
            _ => continue,
        }
        if over {
            if let Some(bad) = s.text().iter().find(|t| ! t.is_empty() && ! pushed.contains(&t.as_str())) {
                return Err(format!("the run is over but the screen shows {bad:?}"));
            }
        }
    }
    h::linear(Spec::new(3)).map(|_| ())
}

// ---- P03 ----

fn eras() {
    settle(true);
    let (p, mut m) = match rt::choose(4, rt::FREE) {
        0 => { let p = Progless::try_from(2_u32).unwrap().with_title(Some("Title")); (p, Spec { title: Some(String::from("Title")), ..Spec::new(2) }) },
        1 => (Progless::default(), Spec { running: false, ..Spec::new(1) }),
        2 => {
            let p = Progless::try_from(2_u32).unwrap().with_title(Some("Title"));
            run(&p, Op::Add("old"));
            run(&p, Op::Inc(1));
            sleep(250);
            run(&p, Op::Finish);
            (p, Spec { running: false, done: 2, title: Some(String::from("Title")), ..Spec::new(2) })
        },
        _ => {
            let p = Progless::try_from(2_u32).unwrap();
            run(&p, Op::Add("old"));
            run(&p, Op::Inc(1));
            sleep(250);
            run(&p, Op::Reset(3));
            (p, Spec::new(3))
        },
    };
    let ops = [Op::Inc(1), Op::Set(0), Op::Set(5), Op::Add("a"), Op::Rem("a"), Op::Finish, Op::Reset(2), Op::Reset(3), Op::TryReset(0), Op::TryReset(2), Op::Sleep(1250), Op::Title(Some("New"))];
    let depth = tier(6, 7);
    for i in 0..depth {
        // The last thing to do is always to look.
        let op = if i + 1 == depth { Op::Sleep(250) } else { pick(&ops) };
        let got = run(&p, op);
        let want = h::apply(&mut m, op);
        if got != want { fail(format!("{op:?} gave {got} instead of {want}")); }
        let n = count(&p);
        if n as u64 != m.done { fail(format!("after {op:?} the count is {n} instead of {}", m.done)); }
        if ! m.running {
            let s = screen(usize::MAX, (80, 0));
            if let Some(l) = s.text().into_iter().find(|l| ! l.is_empty()) { fail(format!("no run is active but the screen shows {l:?}")); }
        }
        else if m.running && matches!(op, Op::Sleep(_)) { sure(frame_ok(&shown(BIG), &m.shown(), BIG, &secs())); }
    }
}

/// The same few things over and over.
fn often() {
    settle(true);
    let (p, mut m) = if rt::choose(2, rt::FREE) == 0 { (Progless::default(), Spec { running: false, ..Spec::new(1) }) }
        else { (Progless::try_from(300_u32).unwrap().with_title(Some("Title")), Spec { title: Some(String::from("Title")), ..Spec::new(300) }) };
    rt().horizon = 1_000_000;
    let ops = [Op::Nop, Op::Inc(1), Op::Set(0), Op::Add("a"), Op::Rem("a"), Op::Finish, Op::Reset(2), Op::Reset(70_000), Op::Title(Some("New")), Op::Push("msg"), Op::Sleep(110)];
    let pat = [pick(&ops), pick(&ops), pick(&ops)];
    let n = tier(280, 600);
    for i in 0..n {
        for op in pat {
            let got = run(&p, op);
            let want = h::apply(&mut m, op);
            if got != want { fail(format!("round {i}: {op:?} gave {got} instead of {want}")); }
        }
        let n = count(&p);
        if n as u64 != m.done { fail(format!("after {i} rounds the count is {n} instead of {}", m.done)); }
    }
    run(&p, Op::Nop);
    sleep(250);
    if m.running { sure(frame_ok(&shown(BIG), &m.shown(), BIG, &secs())); }
    if tickers() != i64::from(m.running) { fail(format!("there are {} tickers", tickers())); }
    // And back to something ordinary.
    for op in [Op::Reset(3), Op::Add("a"), Op::Inc(1), Op::Sleep(250)] { run(&p, op); h::apply(&mut m, op); }
    sure(frame_ok(&shown(BIG), &m.shown(), BIG, &secs()));
    run(&p, Op::Finish);
    if tickers() != 0 { fail(String::from("a ticker is left")); }
    let from = bytes(2, usize::MAX).len();
    sleep(250);
    if bytes(2, usize::MAX).len() != from { fail(String::from("something is painted afterwards")); }
}

/// One thread ends and restarts runs, another one works on them.
fn turnover() {
    settle(true);
    let p = Progless::try_from(3_u32).unwrap().with_title(Some("Title"));
    run(&p, Op::Title(Some("Title")));
    run(&p, Op::Add("old"));
    sleep(250);
    let a = pick(&[Op::Add("a"), Op::Rem("old"), Op::Inc(1), Op::Inc(7), Op::Set(2), Op::Title(Some("Other")), Op::Reset(4)]);
    let (b, c) = (pick(&[Op::Finish, Op::Set(3), Op::Nop]), pick(&[Op::Reset(2), Op::Reset(3), Op::Nop]));
    let wait = pick(&[50, 20]);
    let (p1, p2) = (p.clone(), p.clone());
    let t1 = worker(move || { sleep(wait); run(&p1, a); });
    let t2 = worker(move || { sleep(wait); run(&p2, b); run(&p2, c); });
    sleep(wait - 1);
    settle(false);
    let _ = t1.join();
    let _ = t2.join();
    settle(true);
    run(&p, Op::Read);
    sleep(1250);
}

fn turned_over() -> Result<(), String> {
    normal()?;
    let fin = h::linear(Spec::new(3))?;
    let rows = frame_screen(&bytes(2, usize::MAX), BIG)?;
    let mut last = String::new();
    let clock = rt().clock / 1_000_000_000;
    let ok = fin.iter().any(|f| {
        if ! f.running { return rows.is_empty(); }
        match frame_ok(&rows, &f.shown(), BIG, &[clock]) { Ok(()) => true, Err(m) => { last = m; false } }
    });
    if ! ok { return Err(format!("afterwards the screen shows {rows:?}, which is none of {fin:?}: {last}")); }
    Ok(())
}

// ---- P04 ----

const ALL: [Op; 15] = [Op::Inc(1), Op::Inc(u32::MAX), Op::Set(1), Op::Add("b"), Op::Rem("a"), Op::Push("msg"), Op::Title(Some("new")), Op::Title(None),
    Op::TitleMsg("x"), Op::Splines, Op::Finish, Op::Reset(2), Op::TryReset(0), Op::Summary, Op::Clone];

/// Any two things at once, while the ticker is busy; the last handle goes
/// away in whichever thread is done last.
fn any_pair() {
    settle(true);
    let p = Progless::try_from(3_u32).unwrap().with_title(Some("Title"));
    run(&p, Op::Add("a"));
    sleep(250);
    let (a, b) = (pick(&ALL), pick(&ALL));
    let wait = pick(&[50, 20]);
    let q = p.clone();
    let t1 = worker(move || { sleep(wait); run(&p, a); });
    let t2 = worker(move || { sleep(wait); run(&q, b); });
    sleep(wait - 1);
    settle(false);
    let _ = t1.join();
    let _ = t2.join();
    settle(true);
    sleep(350);
}

/// Three things that end or restart runs.
fn enders() {
    settle(true);
    let p = Progless::try_from(3_u32).unwrap();
    sleep(250);
    let ops = [Op::Finish, Op::Reset(2), Op::Set(3), Op::Push("msg"), Op::Nop];
    let three = [pick(&ops), pick(&ops), pick(&ops)];
    let mut hs = Vec::new();
    for op in three {
        let q = p.clone();
        hs.push(worker(move || { sleep(50); run(&q, op); }));
    }
    sleep(49);
    drop(p);
    settle(false);
    for t in hs { let _ = t.join(); }
    settle(true);
    sleep(350);
}

/// From the very beginning: the ticker hasn't even started.
fn infancy() {
    settle(true);
    let p = Progless::try_from(3_u32).unwrap();
    let (a, b) = (pick(&ALL), pick(&ALL));
    let q = p.clone();
    let t1 = worker(move || { run(&p, a); });
    settle(false);
    run(&q, b);
    drop(q);
    let _ = t1.join();
    settle(true);
    sleep(350);
}

/// One thing after another at odd sizes with extreme values and nowhere to write.
fn extremes() {
    settle(true);
    let size = pick(&[None, Some((0, 0)), Some((1, 1)), Some((2, 2)), Some((11, 2)), Some((12, 3)), Some((41, 3)), Some((80, 24)), Some((300, 300)), Some((65535, 65535))]);
    rt().size = size;
    rt().broken[2] = pick(&[0, 5, 11, -1]);
    rt().broken[1] = rt().broken[2];
    let total = pick(&[1_u32, 2, 255, 4_294_967_295]);
    let done = pick(&[0, 1, total / 2, total - 1]);
    let p = Progless::try_from(total).unwrap();
    run(&p, Op::Title(pick(&[None, Some("T"), Some("漢字\n漢字\t\x1b[1mx")])));
    run(&p, Op::Add("a"));
    run(&p, Op::Add("漢字 too long for anything that's narrow, which most of them are, except when they're not at all"));
    run(&p, Op::Set(done));
    sleep(250);
    let op = pick(&ALL);
    run(&p, op);
    sleep(250);
    let op = pick(&[Op::Finish, Op::Reset(u32::MAX), Op::Push("msg"), Op::Inc(u32::MAX)]);
    run(&p, op);
    sleep(250);
    let _ = fyi_msg::Msg::from(p);
}

// ---- P05 ----

/// Many labels, or long ones.
fn crowds() {
    settle(true);
    rt().horizon = 500_000;
    let n = pick(&[1_usize, 2, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 300]);
    let len = pick(&[0_usize, 1, 2, 15, 22, 23, 24, 31, 63, 64, 127, 128, 254, 255, 256, 257, 1023, 1024, 4096, 65_535, 65_536]);
    if n * len > 2_000_000 { return; }
    // What's in the way: ordinary characters, or things not kept.
    let (a, b) = pick(&[("x", "x"), ("é", "é"), ("\x1b[1;2;3m", ""), ("\u{1}", ""), ("\t", " ")]);
    let (a, b) = (a.repeat(len), b.repeat(len));
    let at = rt::choose(3, rt::FREE);
    let label = |f: &str, i: usize| match at { 0 => format!("{f}n{i}"), 1 => format!("n{i}{f}."), _ => format!("n{f}{i}") };
    let p = Progless::try_from(1000_u32).unwrap();
    let back = rt::choose(2, rt::FREE) == 1;
    let order: Vec<usize> = if back { (0..n).rev().collect() } else { (0..n).collect() };
    for i in 0..n { if ! p.add(label(&a, i)) { fail(format!("label {i} of {n} was refused ({len} × {:?})", a.chars().next())); } }
    for i in &order { if p.add(label(if i % 2 == 0 { &a } else { &b }, *i)) { fail(format!("label {i} of {n} was accepted twice ({len} × {:?})", a.chars().next())); } }
    sleep(250);
    // (It's too much for the screen unless there are few of them.)
    let st = Shown { done: 0, total: 1000, title: None, tasks: (0..n).map(|i| label(&b, i)).collect() };
    if at == 0 || len <= 60 { sure(frame_ok(&shown(BIG), &st, BIG, &secs())); }
    for (k, i) in order.iter().enumerate() {
        p.remove(label(if i % 3 == 0 { &a } else { &b }, *i));
        if count(&p) != k as i64 + 1 { fail(format!("removing label {i} of {n} took the count to {} rather than {} ({len} × {:?})", count(&p), k + 1, a.chars().next())); }
        p.remove(label(&a, *i));
        if count(&p) != k as i64 + 1 { fail(format!("label {i} of {n} was removed twice ({len} × {:?})", a.chars().next())); }
    }
    sleep(250);
    sure(frame_ok(&shown(BIG), &Shown { done: n as u64, total: 1000, title: None, tasks: Default::default() }, BIG, &secs()));
}

/// Everything that could be in a label.
fn labels() {
    settle(true);
    const T: [&str; 15] = ["a", "b", " ", "\t", "\n", "\r\n", "\x1b[1m", "\x1b]8;;x\x07", "\x1b[", "\x1b", "é", "界", "\u{7f}", "\u{85}", "\u{200b}"];
    let n = rt::choose(tier(5, 6), rt::FREE);
    let mut raw = String::new();
    for _ in 0..n { raw.push_str(pick(&T)); }
    let p = Progless::try_from(9_u32).unwrap();
    let want = h::label(&raw);
    let desc = |what: &str| format!("label {raw:?}: {what}");
    if p.add(&raw) != want.is_some() { fail(desc("wrongly accepted or refused")); }
    if p.add(&raw) { fail(desc("accepted twice")); }
    let mut st = Shown { done: 0, total: 9, title: None, tasks: want.clone().into_iter().collect() };
    sleep(250);
    if st.tasks.len() == 1 && model_width(st.tasks.first().unwrap()) == 0 {
        // Nothing to see.
    }
    else { sure(frame_ok(&shown(BIG), &st, BIG, &secs())); }
    // Some other way to put it.
    let again = match rt::choose(4, rt::FREE) {
        0 => raw.clone(),
        1 => format!("{raw} \n"),
        2 => format!("\x1b[1m{raw}"),
        _ => want.clone().unwrap_or_default(),
    };
    let same = want.is_some() && h::label(&again) == want;
    if p.add(&again) != (! same && h::label(&again).is_some()) { fail(desc(&format!("adding {again:?} on top"))); }
    p.remove("unrelated");
    p.remove(&again);
    let gone = h::label(&again).is_some();
    let want_n = i64::from(gone);
    if count(&p) != want_n { fail(desc(&format!("{} done after removing {again:?}", count(&p)))); }
    p.remove(&again);
    if count(&p) != want_n { fail(desc("removed twice")); }
    if gone && same { st.tasks.clear(); }
    st.done = want_n as u64;
    sleep(250);
    if ! st.tasks.iter().any(|t| model_width(t) == 0) { sure(frame_ok(&shown(BIG), &st, BIG, &secs())); }
}
fn model_width(s: &str) -> usize { crate::model::width(s) }

/// Every character within a label.
fn label_chars() {
    settle(true);
    let b = rt::choose(0x11_0000 / 256, rt::FREE) as u32;
    let place = rt::choose(5, rt::FREE);
    let p = Progless::try_from(100_000_u32).unwrap();
    let mut n = 0_i64;
    for c in (b * 256..b * 256 + 256).filter_map(char::from_u32) {
        let raw = match place {
            0 => format!("a{c}b"),
            1 => format!("{c}"),
            2 => format!("{c}b"),
            3 => format!("a{c}"),
            _ => format!("a\x1b[{c}m"),
        };
        let want = h::label(&raw);
        if p.add(&raw) != want.is_some() { fail(format!("label {raw:?}: wrongly accepted or refused")); }
        if p.add(&raw) { fail(format!("label {raw:?}: accepted twice")); }
        // It has to be listed as it should be.
        if let Some(want) = want {
            // (Unless it is one that can't be given as is.)
            let plain = h::label(&want).as_ref() == Some(&want);
            if plain && p.add(&want) { fail(format!("label {raw:?} isn't listed as {want:?}")); }
            p.remove(if plain { &want } else { &raw });
            n += 1;
            if count(&p) != n { fail(format!("label {raw:?} can't be removed as {want:?}")); }
        }
    }
}

/// Sequences of adding and removing.
fn task_history() {
    settle(true);
    let p = Progless::try_from(5_u32).unwrap();
    let mut m = Spec::new(5);
    let ops = [Op::Add("a"), Op::Add("a "), Op::Add("\x1b[1mb"), Op::Add("b"), Op::Add("\n"), Op::Rem("a"), Op::Rem("a\t"), Op::Rem("b"), Op::Rem("c"), Op::Reset(4), Op::Finish, Op::Inc(1)];
    for _ in 0..tier(6, 7) {
        let op = pick(&ops);
        let got = run(&p, op);
        let want = h::apply(&mut m, op);
        if got != want { fail(format!("{op:?} gave {got} instead of {want}")); }
        let n = count(&p);
        if n as u64 != m.done { fail(format!("after {op:?} the count is {n} instead of {}", m.done)); }
    }
    sleep(250);
    if m.running { sure(frame_ok(&shown(BIG), &m.shown(), BIG, &secs())); }
}

/// The same label in several threads.
fn task_race() {
    settle(true);
    let p = Progless::try_from(4_u32).unwrap();
    if rt::choose(2, rt::FREE) == 1 { run(&p, Op::Add("a")); }
    sleep(1);
    let ops = [Op::Add("a"), Op::Add("\x1b[1ma "), Op::Rem("a"), Op::Rem("a\n"), Op::Rem("\x1b[2ma"), Op::Add("b"), Op::Finish];
    let mut hs = Vec::new();
    for i in 0..3 {
        let op = pick(&ops);
        let q = p.clone();
        hs.push(worker(move || { run(&q, op); if i == 2 { run(&q, Op::Read); } }));
    }
    settle(false);
    for t in hs { let _ = t.join(); }
    settle(true);
    run(&p, Op::Read);
    sleep(250);
    // Whatever's left comes off exactly once.
    run(&p, Op::Rem("a"));
    run(&p, Op::Read);
    run(&p, Op::Rem("b"));
    run(&p, Op::Read);
}

fn race_ok() -> Result<(), String> {
    normal()?;
    h::linear(Spec::new(4)).map(|_| ())
}

// ---- P06 ----

/// Changes at any point of a paint.
fn catching_up() {
    settle(true);
    let p = Progless::try_from(5_u32).unwrap();
    run(&p, Op::Title(Some("Title")));
    run(&p, Op::Add("a"));
    sleep(250);
    let ops = [Op::Inc(1), Op::Set(3), Op::Set(0), Op::Add("b"), Op::Rem("a"), Op::Title(Some("Other")), Op::Title(None), Op::TitleMsg("Third"), Op::Push("msg"), Op::Reset(4), Op::Finish];
    let (a, b) = (pick(&ops), pick(&ops));
    let (p1, p2) = (p.clone(), p.clone());
    let t1 = worker(move || { sleep(50); run(&p1, a); });
    let t2 = worker(move || { sleep(50); run(&p2, b); });
    sleep(49);
    settle(false);
    let _ = t1.join();
    let _ = t2.join();
    settle(true);
    run(&p, Op::Read);
    // Left alone.
    sleep(350);
    rt::event("look", 0, 0, String::new());
    // Nothing happens in the middle of a second…
    let to = rt().clock / 1_000_000 % 1000;
    sleep(1150 - to.min(1149));
    rt::event("quiet", 0, 0, String::new());
    sleep(700);
    rt::event("loud", 0, 0, String::new());
    // …but the time keeps moving.
    sleep(1000);
    rt::event("late", 0, 0, String::new());
}

fn caught_up() -> Result<(), String> {
    normal()?;
    let fin = h::linear(Spec::new(5))?;
    let at = |tag: &str| rt().events.iter().position(|e| matches!(e, Ev::User { tag: t, .. } if *t == tag)).unwrap();
    let clock = |i: usize| match &rt().events[i] { Ev::User { clock, .. } => *clock / 1_000_000_000, _ => 0 };
    for tag in ["look", "late"] {
        let i = at(tag);
        if fin.iter().all(|f| ! f.running) {
            // Messages may have been printed since.
            if let Some(l) = screen(i, (80, 0)).text().iter().find(|l| ! l.is_empty() && *l != "msg") { return Err(format!("the run is over but the screen shows {l:?}")); }
            continue;
        }
        let rows = frame_screen(&bytes(2, i), BIG)?;
        let s = clock(i);
        let mut last = String::new();
        let s = [s];
        let clock: &[u64] = if tag == "late" { &s } else { &[] };
        let ok = fin.iter().any(|f| {
            if ! f.running { return rows.is_empty(); }
            match frame_ok(&rows, &f.shown(), BIG, clock) { Ok(()) => true, Err(m) => { last = m; false } }
        });
        if ! ok { return Err(format!("left alone ({tag}): {last} {rows:?}")); }
    }
    let (i, j) = (at("quiet"), at("loud"));
    if let Some(e) = rt().events[i..j].iter().find(|e| matches!(e, Ev::Out { .. })) { return Err(format!("repainted though nothing changed: {e:?}")); }
    Ok(())
}

/// Sequences of changes with ticks in between.
fn change_history() {
    settle(true);
    let p = Progless::try_from(5_u32).unwrap();
    let mut m = Spec::new(5);
    let ops = [Op::Inc(1), Op::Set(0), Op::Add("a"), Op::Add("b"), Op::Rem("a"), Op::Title(Some("Title")), Op::Title(Some("Other")), Op::Title(None), Op::TitleMsg("Third"), Op::Reset(4), Op::Push("msg"),
        Op::Sleep(120), Op::Sleep(1000)];
    // Space for the title or the tasks, or both.
    let size = pick(&[BIG, (80, 3), (80, 4), (30, 4)]);
    rt().size = Some(size);
    sleep(220);
    for _ in 0..tier(5, 6) {
        let op = pick(&ops);
        run(&p, op);
        h::apply(&mut m, op);
        if m.running && matches!(op, Op::Sleep(_)) { sure(frame_ok(&shown(size), &m.shown(), size, &secs())); }
    }
    sleep(120);
    if m.running { sure(frame_ok(&shown(size), &m.shown(), size, &secs())); }
}

/// Runs that take their time.
fn long() {
    settle(true);
    let p = Progless::try_from(5_u32).unwrap();
    let mut m = Spec::new(5);
    sleep(250);
    let at = pick(&[10_u64, 60, 100, 255, 256, 600, 3600, 36_000, 65_535, 65_536, 82_800, 86_390, 86_400, 172_800, 16_777_216, 2_147_483_648, u32::MAX.into(), 1 << 32]);
    rt().clock = at * 1_000_000_000 - pick(&[1150, 650, 50]) * 1_000_000;
    for _ in 0..tier(4, 5) {
        let op = pick(&[Op::Nop, Op::Inc(1), Op::Add("a"), Op::Push("msg"), Op::Reset(4)]);
        run(&p, op);
        h::apply(&mut m, op);
        sleep(pick(&[250, 1000]));
        if m.running { sure(frame_ok(&shown(BIG), &m.shown(), BIG, &secs())); }
    }
    run(&p, Op::Finish);
    sleep(250);
}

/// All the ways to come by a title.
fn titles() {
    settle(true);
    use fyi_msg::{Msg, MsgKind};
    let p = Progless::try_from(5_u32).unwrap();
    // Indentation and prefix, body, suffix.
    type Parts = (&'static str, &'static str, &'static str);
    let info: Parts = ("Info: ", "body ", "");
    let full: Parts = ("    Custom: ", "x", " suf");
    let splines: Parts = ("App: ", "Reticulating splines…", "");
    let msg = |n: usize| if n == 0 { Msg::new(MsgKind::Info, "body\n") } else { Msg::new(("Custom", 199), "x").with_indent(1).with_suffix(" suf").with_newline(true) };
    let (p, mut t): (Progless, Option<Parts>) = match rt::choose(6, rt::FREE) {
        0 => (p, None),
        1 => (p.with_title(Some("Title")), Some(("", "Title", ""))),
        2 => (p.with_title(Some("")), None),
        3 => (p.with_title(Some(msg(1))), Some(full)),
        4 => (p.with_reticulating_splines("App"), Some(splines)),
        _ => (p.with_title(Some("Title")).with_title(None::<&str>), None),
    };
    let mut m = Shown { done: 0, total: 5, title: None, tasks: Default::default() };
    sleep(250);
    for _ in 0..tier(4, 5) {
        match rt::choose(10, rt::FREE) {
            0 => { p.set_title(None::<String>); t = None; },
            1 => { p.set_title(Some(String::new())); t = None; },
            2 => { p.set_title(Some("Plain\ttext")); t = Some(("", "Plain text", "")); },
            3 => { p.set_title(Some(msg(0))); t = Some(info); },
            4 => { p.set_title(Some(msg(1))); t = Some(full); },
            5 => { p.set_title_msg("new"); if let Some(t) = &mut t { t.1 = "new"; } },
            6 => { p.set_title_msg(""); if let Some(t) = &mut t { t.1 = ""; } },
            7 => { p.set_reticulating_splines("App"); t = Some(splines); },
            8 => { p.finish(); p.try_reset(4).unwrap(); m.total = 4; sleep(120); },
            _ => continue,
        }
        sleep(120);
        m.title = t.map(|t| [t.0, t.1, t.2].concat()).filter(|t| ! t.is_empty());
        sure(frame_ok(&shown(BIG), &m, BIG, &secs()));
    }
}

// ---- P07 ----

const TITLES: [Option<&str>; 8] = [None, Some("T"), Some("Title with \x1b[1mcolour\x1b[0m in it"), Some("漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字漢字"),
    Some("two\nlines\r\nor more\tof them"), Some("a title that goes on for rather longer than the screen is wide, unless it is wide enough for it, which is rare, but it might just be, so let's keep on going for quite some time to make sure that it isn't going to be; there, that'll do, or will it, no, it needs to be longer still, much, much longer than two hundred and fifty-six characters"),
    Some("e\u{301}e\u{301}\u{200b} x"), Some("\x1b[1mwithout\x1b]8;;https://x\x07 an end")];
const COUNTS: [(u32, u32); 10] = [(0, 1), (0, 10), (1, 2), (1, 3), (2, 3), (9, 10), (999, 1000), (1_999_999_999, 2_000_000_000), (2_147_483_648, 4_294_967_295), (4_294_967_294, 4_294_967_295)];
const TASKS: [&[&str]; 5] = [&[], &["a"], &["one", "two", "three"], &["漢字漢字漢字漢字漢字漢字漢字漢字", "a label that goes on for longer than most screens are wide, at least the ones that there are around here, and then some, for good measure, as those can be up to two hundred and fifty-six characters wide, so this needs to be wider than that, more or less, which it is"],
    &["1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20", "21", "22", "23"]];

fn setup(p: &Progless, c: (u32, u32), title: Option<&'static str>, tasks: &[&'static str]) -> Shown {
    p.set_done(c.0);
    if title.is_some() { p.set_title(title); }
    for t in tasks { p.add(t); }
    Shown { done: c.0.into(), total: c.1.into(), title: title.map(String::from), tasks: tasks.iter().filter_map(|t| h::label(t)).collect() }
}

fn widths() -> Vec<u16> {
    let mut v: Vec<u16> = (1..=tier(140, 260)).collect();
    v.extend([80, 100, 255, 256, 257, 300, 65535]);
    v
}

fn one_size() {
    settle(true);
    let ws = widths();
    let w = ws[rt::choose(ws.len(), rt::FREE)];
    let h = pick(&[1_u16, 2, 3, 4, 5, 6, 24, 25, 26, 255, 256, 65535]);
    rt().size = Some((w, h));
    let c = pick(&COUNTS);
    let p = Progless::try_from(c.1).unwrap();
    let st = setup(&p, c, pick(&TITLES), pick(&TASKS));
    sleep(250);
    let b = bytes(2, usize::MAX);
    if w < 2 || h < 2 {
        if b.iter().any(|c| *c == b'%') { fail(String::from("painted without a usable size")); }
        return;
    }
    match frame_screen(&b, (w, h)) { Ok(rows) => sure(frame_ok(&rows, &st, (w, h), &secs())), Err(m) => fail(m) }
}

/// One size after another.
fn two_sizes() {
    settle(true);
    let sizes = [(5_u16, 24_u16), (30, 24), (41, 3), (60, 5), (80, 24), (300, 300)];
    let a = pick(&sizes);
    let b = pick(&sizes);
    rt().size = Some(a);
    // Standard output and input may be elsewhere.
    rt().others = pick(&[None, Some((200, 100)), Some((20, 2))]);
    let c = pick(&COUNTS);
    let p = Progless::try_from(c.1).unwrap();
    let (title, tasks) = (pick(&TITLES[..6]), pick(&TASKS));
    // What else changes in the meantime, if anything does.
    let before = pick(&[false, true]);
    let st = if before { setup(&p, c, title, tasks) } else { setup(&p, c, None, &[]) };
    sleep(250);
    sure(frame_ok(&shown(a), &st, a, &secs()));
    rt::resize(Some(b));
    rt::raise(28);
    let st = if before { st } else { setup(&p, c, title, tasks) };
    sleep(350);
    sure(frame_ok(&shown(b), &st, b, &secs()));
    p.push_msg(fyi_msg::Msg::from("msg")).unwrap();
    sure(frame_ok(&shown(b), &st, b, &secs()));
}

/// All sorts of characters where the space runs out.
fn edges() {
    const TOKENS: [&str; 17] = ["x", " ", "é", "漢", "e\u{301}", "\u{301}", "\u{200b}", "😀", "\t", "\n", "\r\n", "\u{b}", "\u{85}", "\u{2028}", "\x1b[1m", "\x1b[0m", "\x1b]8;;u\x1b\\"];
    settle(true);
    let size = (45_u16, 24_u16);
    rt().size = Some(size);
    let task = pick(&[false, true]);
    let space = if task { 32 } else { 44 };
    let mut t = "m".repeat(space - pick(&[0, 1, 2, 3, space]));
    for _ in 0..tier(4, 5) { match rt::choose(18, rt::FREE) { 0 => break, n => t.push_str(TOKENS[n - 1]) } }
    let p = Progless::try_from(7_u32).unwrap();
    let mut st = Shown { done: 0, total: 7, title: None, tasks: Default::default() };
    if task {
        let l = h::label(&t);
        if p.add(&t) != l.is_some() { fail(format!("task {t:?} refused")); }
        st.tasks.extend(l);
    }
    else {
        p.set_title(Some(t.as_str()));
        st.title = Some(t);
    }
    sleep(250);
    sure(frame_ok(&shown(size), &st, size, &secs()));
}

/// All bar proportions.
fn proportions() {
    settle(true);
    let ws = [41_u16, 43, 45, 60, 80];
    let w = pick(&ws);
    rt().size = Some((w, 24));
    let total = 1 + rt::choose(tier(130, 400), rt::FREE) as u32;
    let done = rt::choose(total as usize, rt::FREE) as u32;
    let p = Progless::try_from(total).unwrap();
    let st = setup(&p, (done, total), None, &[]);
    sleep(250);
    sure(frame_ok(&shown((w, 24)), &st, (w, 24), &secs()));
}

/// All numbers of lines.
fn lines() {
    settle(true);
    let n = rt::choose(258, rt::FREE);
    let title = pick(&[None, Some("Title")]);
    let need = (n + 1 + usize::from(title.is_some())) as u16;
    // Just enough space, one short of it, or plenty.
    let h = pick(&[need + 1, need, need + 2, 300, 24]);
    if h < 2 { return; }
    let size = (60, h);
    rt().size = Some(size);
    let p = Progless::try_from(1000_u32).unwrap();
    let st = setup(&p, (7, 1000), title, unsafe { &NAMES[..n] });
    sleep(250);
    sure(frame_ok(&shown(size), &st, size, &secs()));
    // The next one replaces it.
    p.increment();
    let st = Shown { done: 8, ..st };
    sleep(120);
    let b = bytes(2, usize::MAX);
    sure(frame_ok(&shown(size), &st, size, &secs()));
    let mut s = crate::screen::Screen::new(60, h.into());
    s.feed(&b);
    if s.scrolls != 0 || s.r != 0 || s.c != 0 { fail(format!("the cursor isn't back where it began with {n} tasks at {size:?}")); }
    p.finish();
    s.feed(&bytes(2, usize::MAX)[b.len()..]);
    if s.text().iter().any(|l| ! l.is_empty()) { fail(format!("{n} tasks at {size:?}: something is left on the screen: {:?}", s.text())); }
}
static mut NAMES: Vec<&'static str> = Vec::new();

// ---- P08 ----

fn pushing() {
    settle(true);
    let p = Progless::try_from(3_u32).unwrap().with_title(Some("Title"));
    run(&p, Op::Title(Some("Title")));
    run(&p, Op::Add("a"));
    run(&p, Op::Set(2));
    sleep(250);
    let ops = [Op::Push("alpha\nbeta"), Op::Push("gamma"), Op::Finish, Op::Inc(1), Op::Set(1), Op::Title(None), Op::Add("b"), Op::Reset(4)];
    let a = pick(&[Op::Push("one"), Op::Push("first\nsecond"), Op::Push("")]);
    let (b, c) = (pick(&ops), pick(&[Op::Nop, Op::Push("last")]));
    // With or without a paint at the same time, or before there's any.
    let wait = pick(&[50, 20]);
    let (p1, p2) = (p.clone(), p.clone());
    let t1 = worker(move || { sleep(wait); run(&p1, a); run(&p1, c); });
    let t2 = worker(move || { sleep(wait); run(&p2, b); });
    sleep(wait - 1);
    settle(false);
    let _ = t1.join();
    let _ = t2.join();
    settle(true);
    sleep(350);
}

/// Before anything was painted, or after it's all over.
fn pushing_idle() {
    settle(true);
    let kind = rt::choose(3, rt::FREE);
    let p = if kind == 0 { Progless::default() } else { Progless::try_from(3_u32).unwrap() };
    if kind == 2 { sleep(250); run(&p, Op::Finish); }
    let (p1, p2) = (p.clone(), p.clone());
    let b = pick(&[Op::Push("two\nthree"), Op::Finish, Op::Reset(4)]);
    let t1 = worker(move || { run(&p1, Op::Push("one")); });
    let t2 = worker(move || { run(&p2, b); });
    settle(false);
    let _ = t1.join();
    let _ = t2.join();
    settle(true);
    sleep(350);
}

/// However many.
fn pushing_many() {
    settle(true);
    rt().horizon = 500_000;
    let p = Progless::try_from(3_u32).unwrap();
    let n = pick(&[3, 9, 10, 31, 32, 63, 64, 65, 99, 100, 127, 128, 255, 256, 257, 300]);
    static TEXTS: std::sync::LazyLock<Vec<[String; 3]>> = std::sync::LazyLock::new(|| (0..300).map(|i| [format!("<{i}>"), format!("<{i}> two\nlines"), format!("<{i}\n>{}", "x".repeat(i % 75))]).collect());
    let (a, b) = (rt::choose(3, rt::FREE), rt::choose(3, rt::FREE));
    let pause = pick(&[0, 1, 110]);
    sleep(pick(&[0, 150, 250]));
    for i in 0..n {
        run(&p, Op::Push(&TEXTS[i][if i % 2 == 0 { a } else { b }]));
        if pause != 0 { sleep(pause); }
    }
    sleep(350);
}

fn pushed_of(spec: Option<Spec>) -> Result<(), String> {
    painted()?;
    if let Some(e) = rt().events.iter().find(|e| matches!(e, Ev::User { tag: "ret", id, val: 1, .. } if matches!(opt(*id), Op::Push(_)))) { return Err(format!("the message was returned: {e:?}")); }
    let s = screen(usize::MAX, (80, 50));
    if let Some(o) = s.odd { return Err(o); }
    let fin = match &spec { Some(s) => h::linear(s.clone())?, None => vec![] };
    // Messages, in an order consistent with the calls.
    let mut msgs: Vec<(usize, usize, Vec<&str>)> = Vec::new();
    for (i, e) in rt().events.iter().enumerate() {
        match e {
            Ev::User { tag: "call", id, .. } => if let Op::Push(m) = opt(*id) { msgs.push((i, usize::MAX, m.split('\n').collect())); },
            Ev::User { tag: "ret", id, .. } => if matches!(opt(*id), Op::Push(_)) {
                let k = rt().events.iter().position(|e| matches!(e, Ev::User { tag: "call", id: j, .. } if j == id)).unwrap();
                msgs.iter_mut().find(|m| m.0 == k).unwrap().1 = i;
            },
            _ => {},
        }
    }
    let mut rows: Vec<String> = s.rows.iter().map(|r| r.iter().filter(|c| **c != '\0').collect::<String>().trim_end().to_string()).collect();
    let show = rows.clone();
    let mut seen: Vec<(usize, usize)> = Vec::new();
    while ! msgs.is_empty() {
        // The one that's next on screen.
        let Some(k) = msgs.iter().position(|m| m.2.len() <= rows.len() && m.2.iter().zip(&rows).all(|(a, b)| a == b)) else {
            return Err(format!("messages {msgs:?} are not where they should be: {show:?}"));
        };
        let m = msgs.remove(k);
        if msgs.iter().any(|o| o.1 < m.0) { return Err(format!("messages are out of order: {show:?}")); }
        seen.push((m.0, m.1));
        rows.drain(..m.2.len());
    }
    // What's left is the bar.
    if (s.r, s.c) != (show.len() - rows.len(), 0) { return Err(format!("the cursor is at {:?}, not below the messages: {show:?}", (s.r, s.c))); }
    while rows.last().is_some_and(String::is_empty) { rows.pop(); }
    if let Some(_s) = spec {
        let mut last = String::new();
        if ! fin.iter().any(|f| if f.running { match frame_ok(&rows, &f.shown(), (80, 24), &[]) { Ok(()) => true, Err(m) => { last = m; false } } } else { rows.is_empty() }) {
            return Err(format!("the bar wasn't restored: {last} {show:?}"));
        }
    }
    // Each one in one piece.
    let all = bytes(2, usize::MAX);
    for e in &rt().events {
        if let Ev::User { tag: "call", id, .. } = e {
            if let Op::Push(m) = opt(*id) {
                let m = format!("{m}\n");
                let n = all.windows(m.len()).filter(|w| *w == m.as_bytes()).count();
                if m.len() > 1 && n != 1 { return Err(format!("{m:?} was written {n} times")); }
            }
        }
    }
    Ok(())
}

/// Pushing when writes go wrong.
fn push_faults() {
    settle(true);
    let running = rt::choose(3, rt::FREE);
    let p = Progless::try_from(3_u32).unwrap();
    sleep(250);
    if running == 1 { run(&p, Op::Finish); }
    rt::event("from", 0, 0, String::new());
    rt().faults[2] = vstd::io::SHORT1 | vstd::io::SHORT_HALF | vstd::io::SHORT_LAST | vstd::io::EINTR | vstd::io::ZERO | vstd::io::EIO;
    for m in ["@some message", "&and another"] {
        if m.starts_with('&') && running != 2 { break; }
        let hard = || rt().events.iter().filter(|e| matches!(e, Ev::Fault { what: "zero" | "error", .. })).count();
        let n = hard();
        run(&p, Op::Push(m));
        let n = hard() - n;
        let err = rt().events.iter().rev().find_map(|e| if let Ev::User { tag: "ret", val, .. } = e { Some(*val == ERR) } else { None }) == Some(true);
        // If nothing but the message failed, the bar is back.
        if running != 1 && n == usize::from(err) {
            if let Err(m) = frame_ok(&shown(BIG), &Shown { done: 0, total: 3, title: None, tasks: Default::default() }, BIG, &secs()) { fail(format!("after pushing: {m}")); }
        }
    }
    rt().faults[2] = 0;
    rt::event("to", 0, 0, String::new());
    sleep(1200);
    if running != 1 && count(&p) != 0 { fail(String::from("the count changed")); }
    run(&p, Op::Inc(1));
    sleep(250);
    if running != 1 { sure(frame_ok(&shown(BIG), &Shown { done: 1, total: 3, title: None, tasks: Default::default() }, BIG, &secs())); }
    unsafe { PARAMS.push(running as i64); }
}

fn push_faults_ok() -> Result<(), String> {
    painted()?;
    let running = params(0) != 1;
    let all = bytes(2, usize::MAX);
    let failures = rt().events.iter().any(|e| matches!(e, Ev::Fault { what: "zero" | "error", .. }));
    let mut returned = unsafe { NOTES.iter() };
    for e in &rt().events {
        if let Ev::User { tag: "ret", id, val, .. } = e {
            if let Op::Push(m) = opt(*id) {
                let m = format!("{m}\n");
                let n = all.windows(m.len()).filter(|w| *w == m.as_bytes()).count();
                if n > 1 { return Err(format!("{m:?} was written {n} times")); }
                // Not even in part.
                let k = all.iter().filter(|b| **b == m.as_bytes()[0]).count();
                if k > 1 { return Err(format!("{m:?} was begun {k} times")); }
                if *val == ERR {
                    if ! running { return Err(String::from("returned though no run was active")); }
                    if n == 1 { return Err(format!("{m:?} was returned though it was written")); }
                    if returned.next() != Some(&m) { return Err(format!("something else than {m:?} was returned")); }
                }
                else if n == 0 && (running || ! failures) { return Err(format!("{m:?} is lost")); }
            }
        }
    }
    Ok(())
}

// ---- P12 ----

/// Finishing, resetting, dropping and cloning in two threads.
fn lifetimes() {
    settle(true);
    let p = Progless::try_from(3_u32).unwrap();
    let wait = pick(&[0, 50, 20]);
    if wait != 0 { sleep(250); }
    let ops = [Op::Finish, Op::Reset(2), Op::Clone, Op::Set(3), Op::Nop];
    let (a, b, c) = (pick(&ops), pick(&ops), pick(&[Op::Nop, Op::Reset(5), Op::Finish]));
    let (p1, p2) = (p.clone(), p.clone());
    let t1 = worker(move || { if wait != 0 { sleep(wait); } run(&p1, a); if c != Op::Nop { run(&p1, c); } });
    let t2 = worker(move || { if wait != 0 { sleep(wait); } run(&p2, b); });
    if wait != 0 { sleep(wait - 1); }
    settle(false);
    let _ = t1.join();
    let _ = t2.join();
    settle(true);
    run(&p, Op::Nop);
    sleep(250);
    let n = tickers();
    let running = p.add("probe");
    if n != i64::from(running) { fail(format!("{n} tickers for a run that is {}", if running { "active" } else { "over" })); }
    if running {
        sleep(250);
        let rows = shown(BIG);
        if ! rows.iter().any(|r| r.contains("probe")) { fail(format!("the run is active but its display isn't: {rows:?}")); }
    }
    run(&p, Op::Finish);
    if tickers() != 0 { fail(String::from("a ticker is still there after finishing")); }
    run(&p, Op::Reset(3));
    if tickers() != 1 { fail(format!("{} tickers after resetting", tickers())); }
    drop(p);
    if tickers() != 0 { fail(String::from("a ticker is still there after dropping the last handle")); }
}

/// However many handles.
fn handles() {
    settle(true);
    let n = pick(&[1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 257, 1000]);
    let p = Progless::try_from(3_u32).unwrap();
    let mut all = std::collections::VecDeque::new();
    for i in 0..n {
        let q = if i == 0 || all.is_empty() { p.clone() } else { <std::collections::VecDeque<Progless>>::back(&all).unwrap().clone() };
        all.push_back(q);
    }
    all.push_back(p);
    let (op, by) = (pick(&[Op::Nop, Op::Finish, Op::Set(3), Op::Reset(5)]), rt::choose(3, rt::FREE));
    if rt::choose(2, rt::FREE) == 1 { sleep(150); }
    run(&all[0], op);
    sleep(pick(&[0, 150]));
    let want = i64::from(matches!(op, Op::Nop | Op::Reset(_)));
    let mut back = false;
    while ! all.is_empty() {
        let n = tickers();
        if n != want && ! (op == Op::Set(3) && n == 1 && rt().clock < 300_000_000) { fail(format!("{n} tickers instead of {want} with {} handles", all.len())); }
        let q = match by { 0 => all.pop_front(), 1 => all.pop_back(), _ => { back = ! back; if back { all.pop_back() } else { all.pop_front() } } };
        drop(q);
    }
    if tickers() != 0 { fail(String::from("a ticker is still there after dropping the last handle")); }
}

/// The last of several handles goes away while other things happen.
fn dropping() {
    settle(true);
    let p = Progless::try_from(3_u32).unwrap();
    let wait = pick(&[0, 50, 20]);
    if wait != 0 { sleep(250); }
    let (a, b) = (pick(&[Op::Nop, Op::Finish, Op::Reset(2), Op::Set(3)]), pick(&[Op::Nop, Op::Finish, Op::Push("msg")]));
    let q = p.clone();
    let t1 = worker(move || { if wait != 0 { sleep(wait); } run(&p, a); drop(p); });
    let t2 = worker(move || { if wait != 0 { sleep(wait); } run(&q, b); drop(q); });
    if wait != 0 { sleep(wait - 1); }
    settle(false);
    let _ = t1.join();
    let _ = t2.join();
    if tickers() != 0 { fail(String::from("a ticker is still there after dropping the last handle")); }
}

fn one_ticker() -> Result<(), String> {
    normal()?;
    let n = most_tickers();
    if n > 1 { return Err(format!("{n} tickers at once")); }
    // Finishing is over when the ticker is.
    let resets = rt().events.iter().any(|e| matches!(e, Ev::User { tag: "call", id, .. } if matches!(opt(*id), Op::Reset(n) if n != 3)));
    if ! resets {
        let mut live: Vec<usize> = Vec::new();
        for e in &rt().events {
            match e {
                Ev::Start { tid } if *tid != 0 && rt::name(*tid) != Some("w") => live.push(*tid),
                Ev::Done { tid } => live.retain(|t| t != tid),
                Ev::User { tag: "ret", id, .. } if opt(*id) == Op::Finish => if ! live.is_empty() { return Err(String::from("a ticker is still there after finishing")); },
                _ => {},
            }
        }
    }
    Ok(())
}

fn b(total: u32, sched: u32, block: u32) -> Budget { Budget { total, sched, block, fault: 0, signal: 0 } }

pub fn tests() -> Vec<Test> {
    unsafe { if NAMES.is_empty() { NAMES = (0..300).map(|i| &*Box::leak(format!("task {i:03}").into_boxed_str())).collect(); } }
    let s = String::from;
    let none = Budget::NONE;
    vec![
        Test { prop: "P02", name: "finishing", body: finishing, check: gone, budget: b(tier(4, 5), tier(2, 3), tier(2, 3)), bounds: s("5 ways to finish × 9 other operations × with/without a simultaneous paint") },
        Test { prop: "P02", name: "endings", body: endings, check: normal, budget: none, bounds: s("6 sizes × 5 titles × 4 task lists × 3 pasts × 8 last changes × 2 pauses × 5 ways to finish; the screen compared before and after") },
        Test { prop: "P03", name: "eras", body: eras, check: normal, budget: none, bounds: format!("4 starting points × all sequences of {} operations out of 12, count/tasks/screen compared after each", tier(5, 6)) },
        Test { prop: "P03", name: "often", body: often, check: normal, budget: none, bounds: format!("2 starting points × every sequence of 3 operations out of 11 repeated {} times, then a new run", tier(280, 600)) },
        Test { prop: "P03", name: "turnover", body: turnover, check: turned_over, budget: b(tier(3, 4), tier(2, 3), 2), bounds: s("7 changes in one thread × 3 ways to end × 3 to restart in another, with/without a simultaneous paint") },
        Test { prop: "P04", name: "pairs", body: any_pair, check: normal, budget: b(tier(3, 4), tier(2, 3), 2), bounds: s("all 225 pairs of 15 operations in two threads during a paint, last handle dropped by either") },
        Test { prop: "P04", name: "enders", body: enders, check: normal, budget: b(tier(3, 4), 2, tier(2, 3)), bounds: s("three threads ending, restarting, pushing and dropping") },
        Test { prop: "P04", name: "infancy", body: infancy, check: normal, budget: b(tier(3, 4), tier(3, 4), 2), bounds: s("all 225 pairs of 15 operations while the ticker is only just starting") },
        Test { prop: "P04", name: "extremes", body: extremes, check: normal, budget: none, bounds: s("10 sizes × output working or failing × 16 counts × 3 titles × 15 × 4 operations") },
        Test { prop: "P05", name: "crowds", body: crowds, check: normal, budget: none, bounds: s("20 numbers of tasks up to 300, their labels lengthened by 21 amounts up to 65536 of 5 characters (or sequences) in 3 places, removed in either order") },
        Test { prop: "P05", name: "labels", body: labels, check: normal, budget: none, bounds: format!("all labels of up to {} tokens out of 15 × 4 equivalent spellings", tier(4, 5)) },
        Test { prop: "P05", name: "chars", body: label_chars, check: normal, budget: none, bounds: s("every character in 5 places of a label") },
        Test { prop: "P05", name: "history", body: task_history, check: normal, budget: none, bounds: format!("all sequences of {} operations out of 12", tier(6, 7)) },
        Test { prop: "P05", name: "race", body: task_race, check: race_ok, budget: b(tier(2, 4), tier(2, 3), 2), bounds: s("three threads adding/removing equivalent labels, finishing or reading") },
        Test { prop: "P06", name: "catching-up", body: catching_up, check: caught_up, budget: b(tier(3, 4), tier(2, 3), 2), bounds: s("all pairs of 11 changes in two threads during a paint") },
        Test { prop: "P06", name: "history", body: change_history, check: normal, budget: none, bounds: format!("4 sizes × all sequences of {} changes and pauses out of 13", tier(5, 6)) },
        Test { prop: "P06", name: "long", body: long, check: normal, budget: none, bounds: format!("18 durations up to 2³² seconds and the second before, × all sequences of {} changes out of 5 with pauses", tier(4, 5)) },
        Test { prop: "P06", name: "titles", body: titles, check: normal, budget: none, bounds: format!("6 initial titles × all sequences of {} ways to change (part of) it or restart, out of 10", tier(4, 5)) },
        Test { prop: "P07", name: "one-size", body: one_size, check: painted, budget: none, bounds: s("widths × 12 heights × 10 counts × 8 titles × 5 task lists") },
        Test { prop: "P07", name: "two-sizes", body: two_sizes, check: painted, budget: none, bounds: s("all pairs of 6 sizes × standard output redirected or at either of 2 other terminals × 10 counts × 6 titles × 5 task lists, set before or after the change, then a pushed message") },
        Test { prop: "P07", name: "lines", body: lines, check: painted, budget: none, bounds: s("all numbers of tasks up to 257 × with/without a title × 5 heights (enough, one less, one more, lots, 24), repainted and finished") },
        Test { prop: "P07", name: "edges", body: edges, check: painted, budget: none, bounds: format!("titles and tasks of up to {} tokens out of 17 (wide, combining, white space, escape sequences) beginning up to 3 columns from the edge, or at the start", tier(4, 5)) },
        Test { prop: "P07", name: "proportions", body: proportions, check: painted, budget: none, bounds: s("all done < total up to the bound at 5 widths") },
        Test { prop: "P08", name: "pushing", body: pushing, check: || pushed_of(Some(Spec::new(3))), budget: b(tier(3, 4), tier(2, 3), 2), bounds: s("3 × 2 messages in one thread, 8 operations in another, with/without a simultaneous paint") },
        Test { prop: "P08", name: "many", body: pushing_many, check: || pushed_of(Some(Spec::new(3))), budget: none, bounds: s("16 numbers of messages up to 300, 3 × 3 kinds alternating, 3 intervals, 3 starting points") },
        Test { prop: "P08", name: "idle", body: pushing_idle, check: || pushed_of(None), budget: b(tier(3, 4), tier(2, 3), tier(2, 3)), bounds: s("pushes to a default, new or finished instance while another thread pushes, finishes or resets") },
        Test { prop: "P08", name: "faults", body: push_faults, check: push_faults_ok, budget: Budget { total: tier(3, 4), fault: tier(3, 4), ..none }, bounds: s("every placement of write faults over one or two pushes, run active or over") },
        Test { prop: "P12", name: "lifetimes", body: lifetimes, check: one_ticker, budget: b(tier(3, 4), tier(2, 3), tier(2, 2)), bounds: s("two threads finishing, resetting, cloning, completing (up to two operations) before/between/during paints") },
        Test { prop: "P12", name: "handles", body: handles, check: one_ticker, budget: none, bounds: s("18 numbers of handles up to 1000, dropped in 3 orders, the run active, ended in 2 ways or reset, at 2 × 2 moments") },
        Test { prop: "P12", name: "dropping", body: dropping, check: one_ticker, budget: b(tier(3, 4), tier(2, 3), tier(2, 3)), bounds: s("the last handle dropped by either of two threads before/between/during paints") },
    ]
}
