//! M05, M06, P09: what goes through the standard streams.
use crate::explore::{Budget, Test};
use crate::h::*;
use crate::model::{self, Parts};
use crate::tier;
use fyi_msg::{confirm, Msg, MsgKind, Progless};
use vstd::io::{EAGAIN, EINTR, EIO, SHORT1, SHORT_HALF, SHORT_LAST, ZERO};
use vstd::rt::{self, fail, rt, End, Ev};

// ---- M05 ----

/// Long enough to be remembered where needed.
static mut MSGS: Vec<(usize, i32, Vec<u8>)> = Vec::new();

fn message(i: usize, who: &str) -> Msg {
    match i {
        0 => Msg::from(format!("plain {who}\n")),
        1 => Msg::from(format!("part {who}")),
        2 => Msg::new(MsgKind::Error, format!("one\ntwo\nlast {who}")),
        3 => Msg::warning(format!("with the works {who}")).with_indent(2).with_suffix(" (x)"),
        4 => Msg::from(""),
        5 => Msg::from("\n"),
        6 => Msg::info(format!("{who}{}", "1234567890 é→ ".repeat(100))).with_newline(true),
        7 => Msg::from(format!("{}\n{who}", "x".repeat(1024))),
        8 => Msg::from(format!("{who}\n\n\n")),
        9 => Msg::from(format!("{}{who}", "y".repeat(5000))),
        _ => unreachable!(),
    }
}

/// Print, on the record: id is the order of the calls.
fn print(m: &Msg, fd: i32) {
    let id = unsafe { MSGS.push((MSGS.len(), fd, m.as_bytes().to_vec())); MSGS.len() - 1 };
    rt::event("print", id, i64::from(fd), String::new());
    if fd == 1 { m.print(); } else { m.eprint(); }
    rt::event("printed", id, i64::from(fd), String::new());
}
fn fresh() { unsafe { MSGS = Vec::new(); } }

fn contents() {
    fresh();
    settle(true);
    for _ in 0..tier(3, 4) {
        let i = rt::choose(11, rt::FREE);
        if i == 10 { break; }
        print(&message(i, "m"), 1 + rt::choose(2, rt::FREE) as i32);
    }
}

fn kinds() {
    fresh();
    settle(true);
    let kind = pick(&MsgKind::ALL);
    let m = Msg::new(kind, pick(&["", "x", "é\nb", "\x1b[1mfoo\x1b[0m"]))
        .with_indent(pick(&[0, 1]))
        .with_suffix(pick(&["", " s", "\n"]))
        .with_newline(rt::choose(2, rt::FREE) == 1);
    let before = m.as_bytes().to_vec();
    let fd = 1 + rt::choose(2, rt::FREE) as i32;
    print(&m, fd);
    print(&m, fd);
    print(&m, 3 - fd);
    if m.as_bytes() != before { fail(String::from("printing changed the message")); }
}

fn concurrent() {
    fresh();
    settle(true);
    let which = [0, 1, 2, 6];
    let mut hs = Vec::new();
    for i in 0..3 {
        let (a, fd) = (message(pick(&which), ["a", "b", "c"][i]), 1 + rt::choose(2, rt::FREE) as i32);
        hs.push(worker(move || {
            print(&a, fd);
            if i == 0 { print(&message(1, "a2"), fd); }
        }));
    }
    settle(false);
    for t in hs { let _ = t.join(); }
}

/// Two at once, and trouble with either's writes.
fn faults(mask: u32) {
    fresh();
    settle(true);
    let which = [0, 1, 2, 3, 6, 7];
    let (a, b) = (message(pick(&which), "a"), message(pick(&which), "b"));
    let (f, g) = (1 + rt::choose(2, rt::FREE) as i32, 1 + rt::choose(2, rt::FREE) as i32);
    rt().faults = [0, mask, mask];
    let t = worker(move || { print(&a, f); print(&message(1, "a2"), f); });
    settle(false);
    print(&b, g);
    print(&message(5, "b"), g);
    let _ = t.join();
}

/// The bytes of each stream are those of the messages, whole, in an order that
/// respects the calls, and never late.
fn whole() -> Result<(), String> {
    if rt().end != End::Normal { return Err(format!("ended with {:?}", rt().end)); }
    let msgs = unsafe { (*(&raw const MSGS)).clone() };
    for fd in [1, 2] {
        // When each message's call began and ended, in events.
        let span = |tag: &str, id: usize| rt().events.iter().position(|e| matches!(e, Ev::User { tag: t, id: i, .. } if *t == tag && *i == id));
        let mine: Vec<(usize, usize, usize, &[u8])> = msgs.iter().filter(|m| m.1 == fd)
            .map(|m| (m.0, span("print", m.0).unwrap_or(0), span("printed", m.0).unwrap_or(usize::MAX), m.2.as_slice())).collect();
        // How much had been written by then.
        let by = |at: usize| bytes(fd, at).len();
        let all = bytes(fd, usize::MAX);
        let limits: Vec<(usize, usize)> = mine.iter().map(|m| (by(m.1), by(m.2))).collect();
        if ! arrange(&all, 0, &mine, &limits, 0) {
            return Err(format!("stream {fd} got {:?} for {:?}", String::from_utf8_lossy(&all), mine.iter().map(|m| String::from_utf8_lossy(m.3).into_owned()).collect::<Vec<_>>()));
        }
    }
    Ok(())
}

/// Whether what follows is made of the messages not yet used.
fn arrange(all: &[u8], at: usize, mine: &[(usize, usize, usize, &[u8])], limits: &[(usize, usize)], used: u32) -> bool {
    if used.count_ones() as usize == mine.len() { return at == all.len(); }
    for (i, m) in mine.iter().enumerate() {
        if used & 1 << i != 0 { continue; }
        // Anything over before this began comes first.
        if mine.iter().enumerate().any(|(j, o)| used & 1 << j == 0 && j != i && o.2 < m.1) { continue; }
        if ! all[at..].starts_with(m.3) { continue; }
        let end = at + m.3.len();
        if ! m.3.is_empty() && (at < limits[i].0 || end > limits[i].1) { continue; }
        if arrange(all, end, mine, limits, used | 1 << i) { return true; }
    }
    false
}

/// Whether this is made of the messages, in any order, so many of which might
/// have been cut short.
fn scraps(all: &[u8], mine: &[&[u8]], short: usize, used: u32) -> bool {
    if all.is_empty() { return mine.iter().enumerate().filter(|(i, m)| used & 1 << i == 0 && ! m.is_empty()).count() <= short; }
    mine.iter().enumerate().any(|(i, m)| {
        if used & 1 << i != 0 { return false; }
        let same = all.iter().zip(*m).take_while(|(a, b)| a == b).count();
        if same == m.len() && scraps(&all[same..], mine, short, used | 1 << i) { return true; }
        short != 0 && (1..=same.min(m.len() - usize::from(same == m.len()))).rev().any(|k| scraps(&all[k..], mine, short - 1, used | 1 << i))
    })
}

/// Complaints aren't expected whatever happens; calls end, and nothing strays.
fn quietly() -> Result<(), String> {
    if rt().end != End::Normal { return Err(format!("ended with {:?}", rt().end)); }
    let msgs = unsafe { (*(&raw const MSGS)).clone() };
    for (id, ..) in &msgs {
        if ! rt().events.iter().any(|e| matches!(e, Ev::User { tag: "printed", id: i, .. } if i == id)) { return Err(String::from("a call never ended")); }
    }
    for fd in [1, 2] {
        let trouble = rt().events.iter().filter(|e| matches!(e, Ev::Fault { fd: f, what, .. } if *f == fd && (*what == "zero" || *what == "error"))).count();
        if trouble != 0 {
            // Whatever did arrive did so once.
            let all = bytes(fd, usize::MAX);
            let mine: Vec<&[u8]> = msgs.iter().filter(|m| m.1 == fd).map(|m| m.2.as_slice()).collect();
            if ! scraps(&all, &mine, trouble, 0) {
                return Err(format!("stream {fd} got {:?} for {:?}", String::from_utf8_lossy(&all), mine.iter().map(|m| String::from_utf8_lossy(m)).collect::<Vec<_>>()));
            }
            continue;
        }
        // That stream should have been fine.
        let mut want: Vec<u8> = msgs.iter().filter(|m| m.1 == fd).flat_map(|m| m.2.clone()).collect();
        let mut got = bytes(fd, usize::MAX);
        want.sort_unstable();
        got.sort_unstable();
        if want != got { return Err(format!("stream {fd} suffers though it had no trouble")); }
    }
    Ok(())
}

/// A stream that's never any good.
fn broken() {
    fresh();
    settle(true);
    let b = rt::choose(3, rt::FREE);
    let e = pick(&[5, 11, -1]);
    rt().broken = [0, if b != 1 { e } else { 0 }, if b != 0 { e } else { 0 }];
    for _ in 0..3 { print(&message(pick(&[0, 1, 2, 4, 6, 9]), "m"), 1 + rt::choose(2, rt::FREE) as i32); }
}

// ---- M06 ----

/// Lines (without what ends them) and what they mean.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Means { Default, Yes, No, Nothing }
use Means::{Default as D, Nothing as X};
const LINES: [(&[u8], Means); 26] = [
    (b"\n", D), (b"y\n", Means::Yes), (b"n\n", Means::No), (b"maybe\n", X),
    (b" \t \r\n", D), ("\u{3000}\n".as_bytes(), D),
    (b"Y\n", Means::Yes), (b"yes\n", Means::Yes), (b"  yEs \r\n", Means::Yes), ("\u{a0}YES\u{2003}\n".as_bytes(), Means::Yes),
    (b"N\n", Means::No), (b"No\n", Means::No), (b"\tnO\n", Means::No), (b"NO\x0b\x0c\n", Means::No),
    (b"yy\n", X), (b"ye\n", X), (b"yes no\n", X), (b"y\0\n", X), (b"nope\n", X), ("é\n".as_bytes(), X),
    (b"\xff\n", X), (b"y\xc3\n", X), (b"0\n", X), (b"true\n", X), (b"yes.\n", X), (b"\x1b[A\n", X),
];

const HINT_NO: &str = " \x1b[2m[y/\x1b[4mN\x1b[24m]\x1b[0m ";
const HINT_YES: &str = " \x1b[2m[\x1b[4mY\x1b[24m/n]\x1b[0m ";
const COMPLAINT: &str = "\x1b[1;91mError:\x1b[0m Invalid input; enter \x1b[91mN\x1b[0m or \x1b[92mY\x1b[0m.\n";

/// How to chop up what's typed.
fn typed(lines: &[Vec<u8>], how: usize) {
    let all: Vec<u8> = lines.concat();
    let v = &mut rt().stdin;
    match how {
        // Line by line, as terminals have it.
        0 => *v = lines.iter().filter(|l| ! l.is_empty()).cloned().collect(),
        // All at once.
        1 => if ! all.is_empty() { *v = vec![all]; },
        // Byte by byte.
        2 => *v = all.iter().map(|b| vec![*b]).collect(),
        // Byte by byte with interruptions.
        _ => *v = all.iter().flat_map(|b| [vec![], vec![*b]]).collect(),
    }
}

/// Ask in some way. Returns the answer, the question, the default and the
/// stream.
fn ask(how: usize) -> (bool, Parts, bool, i32) {
    let confirm = model::prefix("Confirm", Some(208));
    let base = Parts { prefix: confirm, msg: String::from("Well?"), ..Parts::default() };
    let same = |m: &Msg, f: &dyn Fn(&Msg) -> bool| {
        let before = m.clone();
        let a = f(m);
        if before != *m || before.as_bytes() != m.as_bytes() { fail(String::from("the message was changed")); }
        a
    };
    let m = Msg::new(MsgKind::Confirm, "Well?");
    match how {
        0 => (same(&m, &|m| m.prompt()), base, false, 1),
        1 => (same(&m, &|m| m.eprompt()), base, false, 2),
        2 => (same(&m, &|m| m.prompt_with_default(true)), base, true, 1),
        3 => (same(&m, &|m| m.eprompt_with_default(true)), base, true, 2),
        4 => (same(&m, &|m| m.prompt_with_default(false)), base, false, 1),
        5 => (same(&m, &|m| m.eprompt_with_default(false)), base, false, 2),
        6 => (confirm!("Well?"), base, false, 1),
        7 => (confirm!(yes: "Well?"), base, true, 1),
        8 => (confirm!(no: "Well?"), base, false, 1),
        9 => (confirm!("Well?", 1), Parts { indent: 1, ..base }, false, 1),
        10 => (confirm!(yes: "Well?", 2), Parts { indent: 2, ..base }, true, 1),
        11 => (confirm!(no: "Well?", 3), Parts { indent: 3, ..base }, false, 1),
        _ => unreachable!(),
    }
}
const WAYS: usize = 12;

/// Messages of all sorts.
fn ask_msg(how: usize, m: &Msg, parts: Parts) -> (bool, Parts, bool, i32) {
    let before = m.as_bytes().to_vec();
    let (a, d, fd) = match how {
        0 => (m.prompt(), false, 1),
        1 => (m.eprompt(), false, 2),
        2 => (m.prompt_with_default(true), true, 1),
        _ => (m.eprompt_with_default(true), true, 2),
    };
    if m.as_bytes() != before { fail(String::from("the message was changed")); }
    (a, parts, d, fd)
}

/// One prompt's expected output and answer, given the lines left.
fn expected(q: &Parts, default: bool, lines: &mut std::collections::VecDeque<Means>) -> (String, bool) {
    let q = Parts { suffix: String::from(if default { HINT_YES } else { HINT_NO }), newline: false, ..q.clone() }.text();
    let mut out = String::new();
    loop {
        out.push_str(&q);
        match lines.pop_front() {
            None | Some(Means::Default) => return (out, default),
            Some(Means::Yes) => return (out, true),
            Some(Means::No) => return (out, false),
            Some(Means::Nothing) => out.push_str(COMPLAINT),
        }
    }
}

/// A history of prompts.
fn judge(lines: &[Means], asked: &[(bool, Parts, bool, i32)]) {
    let mut left: std::collections::VecDeque<Means> = lines.iter().copied().collect();
    let (mut o1, mut o2) = (String::new(), String::new());
    for (got, q, default, fd) in asked {
        let (out, want) = expected(q, *default, &mut left);
        if want != *got { fail(format!("{lines:?} were answered {got} (by default {default})")); }
        if *fd == 1 { o1.push_str(&out); } else { o2.push_str(&out); }
    }
    for (fd, o) in [(1, o1), (2, o2)] {
        let got = bytes(fd, usize::MAX);
        if got != o.as_bytes() { fail(format!("stream {fd} got {:?} instead of {o:?} for {lines:?}", String::from_utf8_lossy(&got))); }
    }
}

/// All sequences of lines, up to the first decisive one (or the end).
fn answers() {
    settle(true);
    let way = rt::choose(WAYS, rt::FREE);
    let split = rt::choose(4, rt::FREE);
    let (mut lines, mut means) = (vec![], vec![]);
    for _ in 0..tier(4, 5) {
        let i = rt::choose(LINES.len() + 1, rt::FREE);
        if i == LINES.len() { break; }
        lines.push(LINES[i].0.to_vec());
        means.push(LINES[i].1);
        if LINES[i].1 != X { break; }
    }
    typed(&lines, split);
    let a = ask(way);
    judge(&means, &[a]);
}

/// The last line is cut short by the end of input.
fn unterminated() {
    settle(true);
    let (way, split) = (rt::choose(WAYS, rt::FREE), rt::choose(4, rt::FREE));
    let (mut lines, mut means) = (vec![], vec![]);
    for _ in 0..rt::choose(3, rt::FREE) {
        lines.push(b"what\n".to_vec());
        means.push(X);
    }
    let i = rt::choose(LINES.len(), rt::FREE);
    let mut l = LINES[i].0.to_vec();
    while l.last() == Some(&b'\n') { l.pop(); }
    if ! l.is_empty() { lines.push(l); means.push(LINES[i].1); }
    typed(&lines, split);
    let a = ask(way);
    judge(&means, &[a]);
}

/// Long lines, or many of them.
fn extents() {
    settle(true);
    let way = rt::choose(WAYS, rt::FREE);
    let (l, m) = pick(&[(&b"y\n"[..], Means::Yes), (b"no\n", Means::No), (b"\n", D)]);
    let (mut lines, mut means) = (vec![], vec![]);
    if rt::choose(2, rt::FREE) == 0 {
        // However often.
        let wrong = pick(&[&b"x\n"[..], b"\xff\n", b"maybe so\n"]);
        for _ in 0..pick(&[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 20, 32, 50, 64, 99, 100, 101, 127, 128, 255, 256, 257, 300]) { lines.push(wrong.to_vec()); means.push(X); }
        lines.push(l.to_vec());
        means.push(m);
    }
    else {
        // However long.
        let n = pick(&[3_usize, 15, 31, 63, 127, 255, 511, 1023, 1024, 4095, 4096, 8189, 8190, 8191, 8192, 8193, 16_384, 65_535, 65_536, 70_000]);
        let (pad, end) = (vec![b' '; n], if m == D { 0 } else { l.len() - 1 });
        let (l, m) = match rt::choose(5, rt::FREE) {
            0 => ([&pad, l].concat(), m),
            1 => ([&l[..end], &pad, b"\n"].concat(), m),
            2 => ([&pad, &l[..end], &pad, b"\n"].concat(), m),
            3 => ([&b"y".repeat(n), &b"\n"[..]].concat(), X),
            _ => ([&pad, &b"y no\n"[..]].concat(), X),
        };
        lines.push(l);
        means.push(m);
        if m == X { lines.push(b"y\n".to_vec()); means.push(Means::Yes); }
    }
    typed(&lines, rt::choose(2, rt::FREE));
    let a = ask(way);
    judge(&means, &[a]);
}

/// Several prompts in a row, whatever was typed in advance.
fn successive() {
    settle(true);
    let split = rt::choose(4, rt::FREE);
    let some = [0, 1, 2, 3, 8, 12, 20];
    let (mut lines, mut means) = (vec![], vec![]);
    for _ in 0..tier(3, 4) {
        let k = rt::choose(some.len() + 1, rt::FREE);
        if k == some.len() { break; }
        lines.push(LINES[some[k]].0.to_vec());
        means.push(LINES[some[k]].1);
    }
    typed(&lines, split);
    let a = ask(rt::choose(WAYS, rt::FREE));
    let b = ask(pick(&[0, 3, 7]));
    let c = ask(pick(&[1, 2]));
    judge(&means, &[a, b, c]);
}

/// Any word (or two letters), in lower, upper or mixed case and padded or not.
fn worded() {
    settle(true);
    let words = crate::words::words();
    let n = words.len();
    let k = rt::choose(n + 26 * 27, rt::FREE);
    let mut w = if k < n { words[k].clone() } else {
        let k = k - n;
        let mut w = String::from((b'a' + (k % 26) as u8) as char);
        if k / 26 > 0 { w.push((b'a' + (k / 26 - 1) as u8) as char); }
        w
    };
    match rt::choose(4, rt::FREE) {
        0 => {},
        1 => w = w.to_uppercase(),
        2 => w = w.chars().enumerate().map(|(i, c)| if i == 0 { c.to_ascii_uppercase() } else { c }).collect(),
        _ => w = format!(" \t{w}  "),
    }
    let m = match w.trim().to_lowercase().as_str() { "" => D, "y" | "yes" => Means::Yes, "n" | "no" => Means::No, _ => X };
    typed(&[format!("{w}\n").into_bytes(), b"y\n".to_vec()], 0);
    let way = pick(&[0, 3]);
    let a = ask(way);
    judge(&[m, Means::Yes], &[a]);
}

/// All sorts of messages.
fn sorts() {
    settle(true);
    let how = rt::choose(4, rt::FREE);
    let k = rt::choose(16, rt::FREE);
    let (kind, prefix) = match k {
        0 => (None, String::new()),
        15 => (None, model::prefix("Custom", Some(4))),
        k => {
            let (name, color) = model::KINDS[k - 1];
            (MsgKind::ALL.iter().find(|m| m.as_str() == name).copied(), model::prefix(name, Some(color)))
        },
    };
    let msg = pick(&["", "Q", "Two\nlines?", "\x1b[1mloud\x1b[0m?", "é→ "]);
    let suffix = pick(&["", " old", "\nodd\n"]);
    let (nl, indent) = (rt::choose(2, rt::FREE) == 1, pick(&[0, 1, 8, 200]));
    let mut m = if k == 15 { Msg::new(("Custom", 4), msg) } else { Msg::new(kind.unwrap_or(MsgKind::None), msg) };
    m = m.with_indent(indent).with_suffix(suffix).with_newline(nl);
    let parts = Parts { indent: indent.into(), prefix, msg: String::from(msg), suffix: String::from(suffix), newline: nl, ..Parts::default() };
    if m.as_str() != parts.text() { fail(format!("the message itself is off: {:?}", m.as_str())); }
    let (l, w) = pick(&[(&b"huh\ny\n"[..], &[X, Means::Yes][..]), (b"\n", &[D]), (b"no\n", &[Means::No])]);
    typed(&[l.to_vec()], 0);
    let a = ask_msg(how, &m, parts);
    judge(w, &[a]);
}

/// Questions asked while the stream has its moments.
fn asked_faults() {
    settle(true);
    let way = rt::choose(WAYS, rt::FREE);
    typed(&[b"eh\n".to_vec(), b"y\n".to_vec()], 0);
    rt().faults = [0, SHORT1 | SHORT_HALF | SHORT_LAST | EINTR, SHORT1 | SHORT_HALF | SHORT_LAST | EINTR];
    let a = ask(way);
    judge(&[X, Means::Yes], &[a]);
}

// ---- P09 ----

/// The cast of a history: what happens and when.
fn history(script: usize, p: &Progless) {
    match script {
        0 => { sleep(250); run(p, Op::Inc(1)); sleep(100); run(p, Op::Push("pushed")); sleep(100); run(p, Op::Title(None)); sleep(200); },
        1 => { sleep(250); run(p, Op::Push("a")); run(p, Op::Push("b\n")); run(p, Op::Rem("task")); run(p, Op::Title(Some("Other"))); sleep(250); },
        2 => { run(p, Op::Push("early")); sleep(350); run(p, Op::Inc(1)); run(p, Op::Add("more")); sleep(1000); },
        3 => { sleep(250); run(p, Op::Reset(5)); sleep(300); run(p, Op::Push("after")); run(p, Op::Set(4)); sleep(150); },
        _ => unreachable!(),
    }
}
const SCRIPTS: usize = 4;

fn start(n: u32) -> Progless {
    let p = Progless::try_from(n).unwrap().with_title(Some("Title"));
    run(&p, Op::Add("task"));
    run(&p, Op::Add("zzz"));
    p
}

/// The same history twice, the second time with interrupted writes.
fn partial() {
    settle(true);
    let (script, size) = (rt::choose(SCRIPTS, rt::FREE), pick(&[(80, 24), (30, 24), (41, 3), (200, 50)]));
    rt().size = Some(size);
    for round in 0..2 {
        rt::event("round", round, 0, String::new());
        if round == 1 { rt().faults = [0, 0, SHORT1 | SHORT_HALF | SHORT_LAST | EINTR]; }
        let p = start(3);
        history(script, &p);
        run(&p, Op::Finish);
        if count(&p) != (if script == 3 { 5 } else { 3 }) { fail(String::from("the count is off")); }
        drop(p);
        rt().faults = [0; 3];
        // Threads may yet have to come to an end.
        sleep(1000);
    }
}

fn same_bytes() -> Result<(), String> {
    if rt().end != End::Normal { return Err(format!("ended with {:?}", rt().end)); }
    let at = rt().events.iter().position(|e| matches!(e, Ev::User { tag: "round", id: 1, .. })).unwrap();
    let a = bytes(2, at);
    let all = bytes(2, usize::MAX);
    let b = &all[a.len()..];
    if a.len() < 100 { return Err(String::from("hardly anything was painted")); }
    if a != b {
        let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
        let show = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(20)..(i + 60).min(v.len())]).into_owned();
        return Err(format!("what arrives differs from what would without the interruptions: {:?} instead of {:?}", show(b), show(&a)));
    }
    Ok(())
}

/// Writes fail outright.
fn failing() {
    settle(true);
    let script = rt::choose(SCRIPTS, rt::FREE);
    let size = pick(&[(80, 24), (30, 24)]);
    rt().size = Some(size);
    rt().faults = [0, 0, ZERO | EIO | EAGAIN | SHORT_HALF];
    let p = start(3);
    let mut st = Spec { title: Some(String::from("Title")), ..Spec::new(3) };
    st.tasks.extend(["task", "zzz"].map(String::from));
    history(script, &p);
    match script {
        0 => { st.done = 1; st.title = None; },
        1 => { st.done = 1; st.tasks.remove("task"); st.title = Some(String::from("Other")); },
        2 => { st.done = 1; st.tasks.insert(String::from("more")); },
        _ => { st = Spec { title: st.title.clone(), done: 4, ..Spec::new(5) }; },
    }
    rt().faults = [0; 3];
    if count(&p) != st.done as i64 { fail(format!("the count is {} instead of {}", count(&p), st.done)); }
    // Anything new is painted in full.
    let from = bytes(2, usize::MAX).len();
    run(&p, Op::Title(Some("Later")));
    st.title = Some(String::from("Later"));
    sleep(1150);
    let b = bytes(2, usize::MAX);
    let later = &b[from..];
    if ! later.windows(3).any(|w| w == b"\x1b[J") { fail(String::from("nothing is painted any more")); }
    match frame_screen(later, size) {
        Ok(rows) => if let Err(m) = frame_ok(&rows, &st.shown(), size, &secs()) { fail(m) },
        Err(m) => fail(m),
    }
    run(&p, Op::Finish);
    if count(&p) != st.total as i64 { fail(String::from("the count is off at the end")); }
    sleep(500);
    if tickers() != 0 { fail(String::from("the ticker never ends")); }
}

/// Nothing works for a while.
fn outage() {
    settle(true);
    let size = pick(&[(80, 24), (30, 24)]);
    let how = pick(&[5, 11, -1]);
    rt().size = Some(size);
    let p = start(4);
    let mut m = Spec { title: Some(String::from("Title")), ..Spec::new(4) };
    m.tasks.extend(["task", "zzz"].map(String::from));
    let ops = [Op::Nop, Op::Inc(1), Op::Rem("task"), Op::Push("msg"), Op::Title(None), Op::Reset(4), Op::Finish];
    for round in 0..if how == 5 { tier(4, 5) } else { tier(3, 4) } {
        rt().broken[2] = pick(&[0, how]);
        let op = pick(&ops);
        let old = m.done;
        if h_apply(&mut m, op) != 0 && op != Op::Read { fail(format!("round {round}")); }
        run(&p, op);
        sleep(pick(&[20, 250]));
        let _ = old;
        if count(&p) != m.done as i64 { fail(format!("the count is {} instead of {}", count(&p), m.done)); }
    }
    rt().broken[2] = 0;
    if m.running {
        let from = bytes(2, usize::MAX).len();
        run(&p, Op::Title(Some("Later")));
        m.title = Some(String::from("Later"));
        sleep(1300);
        let b = bytes(2, usize::MAX);
        match frame_screen(&b[from..], size) {
            Ok(rows) => if let Err(e) = frame_ok(&rows, &m.shown(), size, &secs()) { fail(e) },
            Err(e) => fail(e),
        }
    }
    run(&p, Op::Finish);
    sleep(500);
    if tickers() != 0 { fail(String::from("the ticker never ends")); }
}
fn h_apply(m: &mut Spec, op: Op) -> i64 { crate::h::apply(m, op) }

/// Threads at odds while writes go wrong.
fn contended() {
    settle(true);
    rt().faults = [0, 0, SHORT_HALF | EINTR | EIO];
    let p = start(3);
    sleep(150);
    let (a, b) = (pick(&[Op::Push("first"), Op::Rem("task"), Op::Finish]), pick(&[Op::Push("second"), Op::Inc(1), Op::Reset(3)]));
    let (q, r) = (p.clone(), p.clone());
    let t = worker(move || { run(&q, a); });
    let u = worker(move || { run(&r, b); });
    settle(false);
    sleep(60);
    let _ = t.join();
    let _ = u.join();
    settle(true);
    rt().faults = [0; 3];
    run(&p, Op::Read);
    run(&p, Op::Finish);
    sleep(500);
    if tickers() != 0 { fail(String::from("the ticker never ends")); }
}

fn ends() -> Result<(), String> {
    match &rt().end { End::Normal => Ok(()), e => Err(format!("ended with {e:?}")) }
}
fn ends_right() -> Result<(), String> {
    ends()?;
    linear(Spec::new(3)).map(|_| ())
}

pub fn tests() -> Vec<Test> {
    let s = String::from;
    let soft: fn() = || faults(SHORT1 | SHORT_HALF | SHORT_LAST | EINTR);
    let hard: fn() = || faults(SHORT_HALF | ZERO | EIO);
    vec![
        Test { prop: "M05", name: "contents", body: contents, check: whole, budget: Budget::NONE, bounds: format!("all sequences of up to {} of 10 messages (empty to 5,000 bytes) over both streams", tier(3, 4)) },
        Test { prop: "M05", name: "kinds", body: kinds, check: whole, budget: Budget::NONE, bounds: s("every kind × 4 texts × indent × 3 suffixes × newline, both streams") },
        Test { prop: "M05", name: "concurrent", body: concurrent, check: whole, budget: Budget { total: tier(4, 6), sched: tier(4, 6), block: tier(4, 6), fault: 0, signal: 0 }, bounds: s("3 threads printing 4 messages between them (4 choices each, either stream)") },
        Test { prop: "M05", name: "faults", body: soft, check: whole, budget: Budget { total: tier(4, 5), sched: tier(2, 3), block: tier(2, 3), fault: tier(4, 5), signal: 0 }, bounds: s("2 threads printing 2 messages each (6 × 6 choices, either stream); short and interrupted writes") },
        Test { prop: "M05", name: "failing", body: hard, check: quietly, budget: Budget { total: tier(3, 5), sched: tier(2, 3), block: tier(2, 3), fault: tier(3, 5), signal: 0 }, bounds: s("2 threads printing 2 messages each (6 × 6 choices, either stream); short, empty and failing writes") },
        Test { prop: "M05", name: "broken", body: broken, check: quietly, budget: Budget::NONE, bounds: s("3 messages to streams that always fail") },
        Test { prop: "M06", name: "answers", body: answers, check: ends, budget: Budget::NONE, bounds: format!("every sequence of up to {} of 26 lines until a decisive one or the end of input, 4 ways of arriving, {WAYS} ways of asking", tier(4, 5)) },
        Test { prop: "M06", name: "unterminated", body: unterminated, check: ends, budget: Budget::NONE, bounds: s("input ending in the middle of any line, after up to 2 others, 4 ways of arriving, 12 ways of asking") },
        Test { prop: "M06", name: "extents", body: extents, check: ends, budget: Budget::NONE, bounds: s("up to 300 wrong answers, or lines of up to 140,000 bytes, 2 ways of arriving, 12 ways of asking") },
        Test { prop: "M06", name: "words", body: worded, check: ends, budget: Budget::NONE, bounds: format!("each of {} words from the sources and everything of one or two letters, in 4 forms, then a yes, 2 ways of asking", crate::words::words().len()) },
        Test { prop: "M06", name: "successive", body: successive, check: ends, budget: Budget::NONE, bounds: s("three prompts in a row over every typed-ahead sequence of 7 kinds of line, 12 × 3 × 2 ways of asking") },
        Test { prop: "M06", name: "sorts", body: sorts, check: ends, budget: Budget::NONE, bounds: s("16 kinds × 5 texts × 3 suffixes × newline × 4 indents × 4 ways of asking × 3 answers") },
        Test { prop: "M06", name: "faults", body: asked_faults, check: ends, budget: Budget { total: tier(3, 5), sched: 0, block: 0, fault: tier(3, 5), signal: 0 }, bounds: s("questions and complaints with short and interrupted writes, 12 ways of asking") },
        Test { prop: "P09", name: "partial", body: partial, check: same_bytes, budget: Budget { total: tier(3, 4), sched: 0, block: 0, fault: tier(3, 4), signal: 0 }, bounds: s("4 histories of paints, erasures and messages × 4 screen sizes; every write cut short (3 ways) or interrupted") },
        Test { prop: "P09", name: "failing", body: failing, check: ends, budget: Budget { total: tier(3, 5), sched: 0, block: 0, fault: tier(3, 5), signal: 0 }, bounds: s("4 histories × 2 screen sizes; every write failing, coming to nothing or cut short") },
        Test { prop: "P09", name: "outage", body: outage, check: ends, budget: Budget::NONE, bounds: format!("all sequences of {} (for two other kinds of failure: {}) of 7 changes × 2 pauses, STDERR working or not during each", tier(4, 5), tier(3, 4)) },
        Test { prop: "P09", name: "contended", body: contended, check: ends_right, budget: Budget { total: tier(3, 4), sched: 2, block: tier(1, 2), fault: tier(2, 3), signal: 0 }, bounds: s("two threads and the ticker (3 × 3 changes); writes cut short, interrupted or failing at any point") },
    ]
}
