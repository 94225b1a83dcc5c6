//! Messages: M01–M04, M07.
use crate::explore::Ch;
use crate::model::{self, Parts};
use crate::{tier, Test};
use fyi_msg::{AnsiColor, Msg, MsgKind};
use std::borrow::{Borrow, Cow};
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

pub fn tests() -> Vec<Test> {
    let mut out = vec![
        Test { prop: "M01", name: "edit-sequences", body: edit_sequences, bounds: format!("all edit sequences of length {} over {} edits from {} constructors", tier(4, 6), edits().len(), NEW) },
        Test { prop: "M01", name: "edit-closure", body: edit_closure, bounds: "breadth-first closure over all reachable implementation states (Debug form) under a larger edit alphabet, all indentation levels".into() },
        Test { prop: "M01", name: "edit-huge", body: edit_huge, bounds: "all sequences of 3 edits with contents of 0 B, 255 B, 256 B, 300 B and 70 kB".into() },
        Test { prop: "M01", name: "edit-indents", body: edit_indents, bounds: "all ordered pairs of indentation levels on 8 messages".into() },
        Test { prop: "M01", name: "edit-lengths", body: edit_lengths, bounds: "all ordered pairs of lengths up to 40 and around 64, 128, 256 and 512 in each part of a message with others or without, the contents differing throughout, at the end, or not at all".into() },
        Test { prop: "M02", name: "custom-prefixes", body: custom_prefixes, bounds: "256 colours (enum, number) or none x 5 string types x 3 entry points x 14 texts x 3 earlier prefixes".into() },
        Test { prop: "M02", name: "kind-prefixes", body: kind_prefixes, bounds: "all kinds x all entry points x 4 bodies x 3 earlier prefixes; shorthand constructors".into() },
        Test { prop: "M03", name: "strip-one", body: strip_one, bounds: format!("all token strings up to length {} over {} tokens in each part", tier(5, 6), TOK.len()) },
        Test { prop: "M03", name: "strip-parts", body: strip_parts, bounds: format!("all token strings up to total length {} spread over prefix, body and suffix, followed by every single edit", tier(4, 5)) },
        Test { prop: "M03", name: "strip-chars", body: strip_chars, bounds: "every Unicode character in 8 positions relative to escape sequences".into() },
        Test { prop: "M03", name: "strip-long", body: strip_long, bounds: "10 shapes with long, distant or many sequences x all lengths below 68 and those around powers of two and ten up to 65537 x 2 parts, followed by every single edit".into() },
        Test { prop: "M04", name: "pairs", body: pairs, bounds: "all ordered pairs of the message set, all comparison types in both directions".into() },
        Test { prop: "M04", name: "conversions", body: conversions, bounds: "every message of the set through every conversion".into() },
    ];
    #[cfg(feature = "full")]
    out.push(Test { prop: "M07", name: "before-after", body: before_after, bounds: format!("all {0} x {0} value pairs x 4 constructions x 4 earlier messages", VALS.len()) });
    out
}

const T0: i64 = 1_700_000_000;

/// A message and its model, with the (fake) time.
#[derive(Clone)]
struct Sub { inp: Msg, bld: Msg, m: Parts, now: i64 }

#[derive(Clone, Debug)]
enum Edit { Indent(u8), Prefix(Pfx), Msg(String), Suffix(String), Newline(bool), Time(bool), Strip }

#[derive(Clone, Debug)]
enum Pfx { Kind(&'static str), Plain(String), Enum(String, u8), Num(String, u8) }
impl Pfx {
    fn text(&self) -> String {
        match self {
            Pfx::Kind(k) => model::KINDS.iter().find(|(n, _)| n == k).map_or(String::new(), |(n, c)| model::prefix(n, Some(*c))),
            Pfx::Plain(s) => model::prefix(s, None),
            Pfx::Enum(s, c) | Pfx::Num(s, c) => model::prefix(s, Some(*c)),
        }
    }
}

fn kind(name: &str) -> MsgKind { *MsgKind::ALL.iter().find(|k| k.as_str() == name).expect("kind") }

macro_rules! with_pfx {
    ($p:expr, $v:ident => $e:expr) => (match $p {
        Pfx::Kind(k) => { let $v = kind(k); $e },
        Pfx::Plain(s) => { let $v = s.as_str(); $e },
        Pfx::Enum(s, c) => { let $v = (s.as_str(), AnsiColor::from(*c)); $e },
        Pfx::Num(s, c) => { let $v = (s.as_str(), *c); $e },
    })
}

impl Sub {
    fn new(m: Msg, p: Parts) -> Self { Self { inp: m.clone(), bld: m, m: p, now: T0 } }
    fn apply(&mut self, e: &Edit) {
        match e {
            Edit::Indent(n) => {
                self.inp.set_indent(*n);
                self.bld = std::mem::take(&mut self.bld).with_indent(*n);
                self.m.indent = usize::from(*n).min(8);
            },
            Edit::Prefix(p) => {
                with_pfx!(p, v => self.inp.set_prefix(v));
                let b = std::mem::take(&mut self.bld);
                self.bld = with_pfx!(p, v => b.with_prefix(v));
                self.m.prefix = p.text();
            },
            Edit::Msg(s) => {
                self.inp.set_msg(s);
                self.bld = std::mem::take(&mut self.bld).with_msg(s);
                self.m.msg = s.clone();
            },
            Edit::Suffix(s) => {
                self.inp.set_suffix(s);
                self.bld = std::mem::take(&mut self.bld).with_suffix(s);
                self.m.suffix = s.clone();
            },
            Edit::Newline(b) => {
                self.inp.set_newline(*b);
                self.bld = std::mem::take(&mut self.bld).with_newline(*b);
                self.m.newline = *b;
            },
            #[cfg(feature = "full")]
            Edit::Time(b) => {
                self.now += 3_601;
                crate::CLOCK.set(self.now);
                self.inp.set_timestamp(*b);
                self.bld = std::mem::take(&mut self.bld).with_timestamp(*b);
                crate::CLOCK.set(0);
                self.m.time = if *b { model::timestamp(self.now) } else { String::new() };
            },
            #[cfg(not(feature = "full"))]
            Edit::Time(_) => {},
            Edit::Strip => {
                self.inp.strip_ansi();
                self.bld = std::mem::take(&mut self.bld).without_ansi();
                for p in [&mut self.m.time, &mut self.m.prefix, &mut self.m.msg, &mut self.m.suffix] { *p = model::visible(p); }
            },
        }
    }
    /// A hash of the full debug form of both subjects.
    fn key(&self) -> u64 {
        struct W(crate::explore::Fnv);
        impl std::fmt::Write for W {
            fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.write(s.as_bytes()); Ok(()) }
        }
        let mut w = W(crate::explore::Fnv::default());
        let _ = std::fmt::write(&mut w, format_args!("{:?}/{:?}", self.inp, self.bld));
        w.0.finish()
    }
    fn check(&self, ch: &mut Ch) {
        let want = self.m.text();
        ch.step(&want);
        if self.inp.as_str() != want { ch.fail(|| format!("in-place: got {:?}, expected {want:?} from {:?}", self.inp.as_str(), self.m)); }
        if self.bld.as_str() != want { ch.fail(|| format!("builder: got {:?}, expected {want:?} from {:?}", self.bld.as_str(), self.m)); }
        if self.inp.as_bytes() != want.as_bytes() || self.inp.len() != want.len() || self.inp.is_empty() != want.is_empty() {
            ch.fail(|| "the views of the message disagree".into());
        }
    }
}

const NEW: usize = 8;
fn start(ch: &mut Ch, n: usize) -> Sub {
    let (m, p) = match ch.choose(n) {
        0 => (Msg::from("body"), Parts { msg: "body".into(), ..Parts::default() }),
        1 => (Msg::default(), Parts::default()),
        2 => (Msg::error("x"), Parts { prefix: model::prefix("Error", Some(9)), msg: "x".into(), newline: true, ..Parts::default() }),
        3 => (Msg::new(("é", 199), "b"), Parts { prefix: model::prefix("é", Some(199)), msg: "b".into(), ..Parts::default() }),
        4 => (Msg::new(MsgKind::Task, ""), Parts { prefix: model::prefix("Task", Some(199)), ..Parts::default() }),
        5 => (Msg::new("", "b"), Parts { msg: "b".into(), ..Parts::default() }),
        6 => (Msg::new("Pre", "long enough body"), Parts { prefix: "Pre: ".into(), msg: "long enough body".into(), ..Parts::default() }),
        _ => (Msg::from(String::from("a: b\n")), Parts { msg: "a: b\n".into(), ..Parts::default() }),
    };
    ch.note(|| format!("start with {:?}", m.as_str()));
    Sub::new(m, p)
}

fn edits() -> Vec<Edit> {
    let mut e = vec![
        Edit::Indent(1), Edit::Indent(0), Edit::Indent(9),
        Edit::Msg("A".into()), Edit::Msg(String::new()), Edit::Msg("läng 漢 text".into()),
        Edit::Suffix(" s".into()), Edit::Suffix(String::new()), Edit::Suffix(" ✓\x1b[2m✓\x1b[0m".into()),
        Edit::Newline(true), Edit::Newline(false),
        Edit::Prefix(Pfx::Kind("Error")), Edit::Prefix(Pfx::Kind("")), Edit::Prefix(Pfx::Plain("P".into())),
        Edit::Prefix(Pfx::Num("Q".into(), 200)),
        Edit::Strip,
    ];
    if cfg!(feature = "full") { e.extend([Edit::Time(true), Edit::Time(false)]); }
    e
}

fn edit_sequences(ch: &mut Ch) {
    thread_local!(static E: Vec<Edit> = edits());
    let mut s = start(ch, NEW);
    s.check(ch);
    for _ in 0..tier(4, 6) {
        let k = ch.choose(E.with(Vec::len));
        let e = E.with(|l| l[k].clone());
        ch.note(|| format!("{e:?}"));
        s.apply(&e);
        s.check(ch);
        if ch.failed() { return; }
    }
}

/// Breadth-first to a fixpoint; states are told apart by the full (derived)
/// debug form of the message, which includes its partition table.
fn edit_closure(ch: &mut Ch) {
    let mut list = edits();
    list.extend((2..9).map(Edit::Indent));
    list.extend([Edit::Indent(255), Edit::Prefix(Pfx::Kind("Confirm")), Edit::Prefix(Pfx::Enum("Ünï".into(), 3)), Edit::Msg("\n".into()), Edit::Suffix("\n".into()),
        // Same length, different case, or looking like something else.
        Edit::Msg("a".into()), Edit::Msg("    P: ".into()), Edit::Suffix(" S".into()), Edit::Prefix(Pfx::Plain("p".into()))]);
    // (The clock is set back for each edit: it would make the state space infinite.)
    let s = start(ch, tier(2, NEW));
    let mut seen: HashSet<u64> = HashSet::new();
    let mut todo = vec![(s, Vec::<usize>::new())];
    while let Some((s, path)) = todo.pop() {
        for (k, e) in list.iter().enumerate() {
            let mut n = s.clone();
            n.now = T0;
            ch.inner += 1;
            n.apply(e);
            n.check(ch);
            if ch.failed() {
                ch.note(|| format!("edits: {:?}", path.iter().chain([&k]).map(|i| &list[*i]).collect::<Vec<_>>()));
                return;
            }
            if seen.insert(n.key()) {
                let mut q = path.clone();
                q.push(k);
                todo.push((n, q));
            }
        }
    }
    ch.note(|| format!("{} states", seen.len()));
}

fn edit_indents(ch: &mut Ch) {
    let mut s = start(ch, NEW);
    let a = ch.choose(256) as u8;
    s.apply(&Edit::Indent(a));
    for b in 0..=255 {
        let mut t = s.clone();
        t.apply(&Edit::Indent(b));
        t.check(ch);
        ch.inner += 1;
        if ch.failed() { ch.note(|| format!("{a}, then {b}")); return; }
    }
}

fn edit_lengths(ch: &mut Ch) {
    let lens: Vec<usize> = (0..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513]).collect();
    let mut s = Sub::new(Msg::default(), Parts::default());
    let part = ch.choose(3);
    let edit = |t: String| match part { 0 => Edit::Prefix(Pfx::Num(t, 199)), 1 => Edit::Msg(t), _ => Edit::Suffix(t) };
    if ch.flag() { for e in [Edit::Indent(2), Edit::Prefix(Pfx::Plain("pre".into())), Edit::Msg("msg".into()), Edit::Suffix(" suf".into()), Edit::Newline(true)] { s.apply(&e); } }
    let a = *ch.pick(&lens);
    let c = *ch.pick(&["a", "é"]);
    s.apply(&edit(c.repeat(a)));
    for &b in &lens {
        let same = c.repeat(b);
        let mut list = vec!["x".repeat(b), "X".to_string() + &same];
        if b != 0 { list.push(c.repeat(b - 1) + "z"); list.push("z".to_string() + &c.repeat(b - 1)); }
        list.push(same);
        for t in list {
            let mut n = s.clone();
            n.apply(&edit(t));
            n.check(ch);
            n.apply(&Edit::Newline(b % 2 == 0));
            n.apply(&Edit::Strip);
            n.check(ch);
            ch.inner += 1;
            if ch.failed() { ch.note(|| format!("{a} × {c}, then {b}")); return; }
        }
    }
}

fn edit_huge(ch: &mut Ch) {
    let size = |ch: &mut Ch| *ch.pick(&[0_usize, 255, 256, 300, 70_000]);
    let mut s = start(ch, NEW);
    for _ in 0..3 {
        let n = ch.choose(if cfg!(feature = "full") { 6 } else { 5 });
        let e = match n {
            0 => { let z = size(ch); Edit::Msg("m".repeat(z)) },
            1 => { let z = size(ch); Edit::Suffix("s".repeat(z)) },
            2 => { let z = size(ch); Edit::Prefix(Pfx::Num("p".repeat(z), 250)) },
            3 => Edit::Indent(255),
            4 => Edit::Newline(true),
            _ => Edit::Time(true),
        };
        ch.note(|| format!("{:.40}…", format!("{e:?}")));
        s.apply(&e);
        s.check(ch);
        if ch.failed() { return; }
    }
}

// ---- M02 ----

fn earlier(ch: &mut Ch) -> (Msg, Parts) {
    match ch.choose(3) {
        0 => (Msg::from("body").with_indent(1).with_suffix(" s"), Parts { indent: 1, msg: "body".into(), suffix: " s".into(), ..Parts::default() }),
        1 => (Msg::new(("Longer prefix", 255), "body"), Parts { prefix: model::prefix("Longer prefix", Some(255)), msg: "body".into(), ..Parts::default() }),
        _ => (Msg::new("x", "body").with_newline(true), Parts { prefix: "x: ".into(), msg: "body".into(), newline: true, ..Parts::default() }),
    }
}

/// Check a message, then see if its parts are where they should be.
fn settle(ch: &mut Ch, mut m: Msg, mut p: Parts) {
    ch.step(m.as_str());
    ch.eq("message", m.as_str(), p.text().as_str());
    m.set_msg("changed");
    p.msg = "changed".into();
    ch.eq("message after set_msg", m.as_str(), p.text().as_str());
    m.set_prefix("");
    p.prefix.clear();
    ch.eq("message without prefix", m.as_str(), p.text().as_str());
    m.set_suffix("!");
    p.suffix = "!".into();
    m.set_newline(true);
    p.newline = true;
    ch.eq("message with suffix", m.as_str(), p.text().as_str());
}

fn custom_prefixes(ch: &mut Ch) {
    let long = "p".repeat(300);
    let which = ch.choose(14);
    // None, enum, number.
    let form = ch.choose(3);
    let color = if form == 0 { None } else { Some(ch.choose(256) as u8) };
    // (Some of the texts resemble what gets put around them.)
    let (open, close) = (format!("\x1b[1;{}m", model::color_code(color.unwrap_or(199))), ":\x1b[0m ");
    let like = [format!("{open}Pre"), format!("Pre{open}"), format!("{open}Pre{close}"), format!("Pre{close}"), open.clone()];
    let texts = ["Prefix", "", "Björk 漢", "\x1b[3mslant\x1b[0m", "a: ", long.as_str(), " ", "\n", " Pre:", &like[0], &like[1], &like[2], &like[3], &like[4]];
    let text = texts[which];
    let ty = ch.choose(5);
    let entry = ch.choose(3);
    let (mut m, mut p) = if entry == 0 { (Msg::default(), Parts::default()) } else { earlier(ch) };
    ch.note(|| format!("text {text:?}, colour {color:?} (form {form}), string type {ty}, entry point {entry}, onto {:?}", m.as_str()));
    let owned = text.to_owned();
    let cow: Cow<'_, str> = if color.unwrap_or(0) % 2 == 0 { Cow::Borrowed(text) } else { Cow::Owned(owned.clone()) };
    macro_rules! go {
        ($v:expr) => (match entry {
            0 => { m = Msg::new($v, "body"); p.msg = "body".into(); },
            1 => m.set_prefix($v),
            _ => m = m.with_prefix($v),
        });
    }
    macro_rules! form {
        ($v:expr) => (match (form, color) {
            (1, Some(c)) => go!(($v, AnsiColor::from_u8(c))),
            (2, Some(c)) => go!(($v, c)),
            _ => go!($v),
        });
    }
    match ty {
        0 => form!(text),
        1 => form!(&owned),
        2 => form!(owned.clone()),
        3 => form!(&cow),
        _ => form!(cow.clone()),
    }
    p.prefix = model::prefix(text, color);
    settle(ch, m, p);
}

fn kind_prefixes(ch: &mut Ch) {
    let k = *ch.pick(&MsgKind::ALL);
    let body = *ch.pick(&["body", "", "é\n", "\x1b[1mb\x1b[0m"]);
    let entry = ch.choose(5);
    let (m, mut p) = if matches!(entry, 1 | 2) { earlier(ch) } else { (Msg::default(), Parts { msg: body.into(), ..Parts::default() }) };
    ch.note(|| format!("kind {k:?}, body {body:?}, entry point {entry}, onto {:?}", m.as_str()));
    p.prefix = model::KINDS.iter().find(|(n, _)| *n == k.as_str()).map_or(String::new(), |(n, c)| model::prefix(n, Some(*c)));
    ch.check(k.as_str().is_empty() == p.prefix.is_empty(), || format!("unknown label for {k:?}"));
    let m = match entry {
        0 => Msg::new(k, body),
        1 => { let mut m = m; m.set_prefix(k); m },
        2 => m.with_prefix(k),
        3 => k.into_msg(body),
        _ => {
            p.newline = true;
            match k {
                MsgKind::Aborted => Msg::aborted(body), MsgKind::Crunched => Msg::crunched(body),
                MsgKind::Debug => Msg::debug(body), MsgKind::Done => Msg::done(body),
                MsgKind::Error => Msg::error(body), MsgKind::Found => Msg::found(body),
                MsgKind::Info => Msg::info(body), MsgKind::Notice => Msg::notice(body),
                MsgKind::Review => Msg::review(body), MsgKind::Skipped => Msg::skipped(body),
                MsgKind::Success => Msg::success(body), MsgKind::Task => Msg::task(body),
                MsgKind::Warning => Msg::warning(body),
                _ => { p.newline = false; Msg::new(k, body) },
            }
        },
    };
    settle(ch, m, p);
}

// ---- M03 ----

const TOK: [&str; 14] = [
    "a", "é", "\x1b", "[", "]", "m", "\x1b[1m", "\x1b]t\x07", "\x07", "\\", "œ", "\x1b[", "\x1b]", "\n",
];

fn token_string(ch: &mut Ch, max: usize) -> String {
    let mut s = String::new();
    for _ in 0..max {
        let k = ch.choose(TOK.len() + 1);
        if k == 0 { break; }
        s.push_str(TOK[k - 1]);
    }
    s
}

/// Compare the stripped parts with what they were, and find them again.
fn strip_check(ch: &mut Ch, mut m: Msg, p: &Parts, edits: bool) {
    let before = m.as_str().to_owned();
    ch.eq("message", before.as_str(), p.text().as_str());
    let changed = m.strip_ansi();
    let after = m.as_str().to_owned();
    ch.step(&after);
    ch.eq("reported change", &changed, &(before != after));
    // Look at each part by removing the others.
    let mut np = Parts { indent: p.indent, newline: p.newline, ..Parts::default() };
    {
        let mut only = m.clone();
        only.set_indent(0); only.set_newline(false); only.set_msg(""); only.set_suffix("");
        np.prefix = only.into_string();
        if ! p.time.is_empty() {
            let t = model::visible(&p.time);
            match np.prefix.strip_prefix(&t).map(str::to_owned) {
                Some(rest) => { np.prefix = rest; np.time = t; },
                None => { ch.fail(|| format!("timestamp: got {:?}", np.prefix)); },
            }
        }
        let mut only = m.clone();
        only.set_indent(0); only.set_newline(false); only.set_suffix(""); only.set_prefix(MsgKind::None);
        #[cfg(feature = "full")] only.set_timestamp(false);
        np.msg = only.into_string();
        let mut only = m.clone();
        only.set_indent(0); only.set_newline(false); only.set_msg(""); only.set_prefix(MsgKind::None);
        #[cfg(feature = "full")] only.set_timestamp(false);
        np.suffix = only.into_string();
    }
    for (what, old, new) in [("prefix", &p.prefix, &np.prefix), ("body", &p.msg, &np.msg), ("suffix", &p.suffix, &np.suffix)] {
        if ! model::strip_ok(old, new) { ch.fail(|| format!("{what} {old:?} was stripped to {new:?}")); }
    }
    ch.eq("stripped message", after.as_str(), np.text().as_str());
    // Again.
    let mut again = m.clone();
    ch.eq("second strip", &again.strip_ansi(), &false);
    ch.eq("message after second strip", again.as_str(), after.as_str());
    if ! edits { return; }
    for k in 0..6 {
        let (mut m, mut p) = (m.clone(), np.clone());
        match k {
            0 => { m.set_indent(2); p.indent = 2; },
            1 => { m.set_prefix(("N", 1)); p.prefix = model::prefix("N", Some(1)); },
            2 => { m.set_msg("new\x1b[1m"); p.msg = "new\x1b[1m".into(); },
            3 => { m.set_suffix("end"); p.suffix = "end".into(); },
            4 => { m.set_newline(! p.newline); p.newline = ! p.newline; },
            _ => {
                #[cfg(feature = "full")] {
                    crate::CLOCK.set(T0); m.set_timestamp(true); crate::CLOCK.set(0);
                    p.time = model::timestamp(T0);
                }
            },
        }
        ch.step(m.as_str());
        ch.eq("edit after strip", m.as_str(), p.text().as_str());
        let b = m.strip_ansi();
        ch.eq("change of later strip", &b, &matches!(k, 1 | 2 | 5).then_some(cfg!(feature = "full") || k != 5).unwrap_or(false));
    }
}

fn strip_one(ch: &mut Ch) {
    let part = ch.choose(3);
    let s = token_string(ch, tier(5, 6));
    let mut p = Parts { msg: "B".into(), ..Parts::default() };
    let mut m = Msg::from("B");
    match part {
        0 => { m.set_msg(&s); p.msg = s; },
        1 => { m.set_suffix(&s); p.suffix = s; },
        _ => { m.set_prefix(&s); p.prefix = model::prefix(&s, None); },
    }
    ch.note(|| format!("strip {:?}", m.as_str()));
    strip_check(ch, m, &p, false);
}

fn strip_chars(ch: &mut Ch) {
    let hi = ch.choose(0x1100) as u32;

    let mut c = hi << 8;
    while c < (hi + 1) << 8 {
        if let Some(x) = char::from_u32(c) {
            for s in [
                format!("a\x1b]{x}t\x07b"), format!("a\x1b]t{x}\x1b\\b"), format!("a\x1b[{x}mb"), format!("a\x1b[1;{x}"),
                format!("\x1b{x}[1mb{x}"), format!("\x1b]t\x1b{x}\\b"), format!("{x}\x1b[1m{x}\x1b]t\x07{x}"), format!("\x1b]{x}"),
            ] {
                let (m, p) = if c % 2 == 0 { (Msg::from(&s), Parts { msg: s, ..Parts::default() }) }
                    else { (Msg::from("B").with_suffix(&s), Parts { msg: "B".into(), suffix: s, ..Parts::default() }) };
                strip_check(ch, m, &p, false);
            }
            if ch.failed() { ch.note(|| format!("U+{c:04X}")); return; }
        }
        c += 1;
    }
}

/// Sequences that are long, far from the beginning, or many.
fn strip_long(ch: &mut Ch) {
    const N: [usize; 12] = [126, 254, 510, 1_022, 4_094, 8_190, 16_382, 32_766, 65_534, 49, 98, 998];
    let n = match ch.choose(2) { 0 => ch.choose(68), _ => *ch.pick(&N) + ch.choose(4) };
    let few = n.min(1_200);
    let s = match ch.choose(10) {
        0 => format!("a\x1b[{}mb", "1;".repeat(n)),
        1 => format!("\x1b[{}", "1".repeat(n)),
        2 => format!("a\x1b]0;{}\x07b", "x".repeat(n)),
        3 => format!("a\x1b]8;;{}\x1b\\b", "é".repeat(n)),
        4 => format!("a\x1b]{}b", "\x1bx".repeat(n)),
        5 => format!("{}\x1b[1my", "x".repeat(n)),
        6 => format!("{}\x1b]t\x07y", "漢".repeat(n)),
        7 => format!("{}[1my", "\x1b".repeat(n)),
        8 => "\x1b[1mx".repeat(few),
        _ => format!("x{}y", "\x1b]t\x07\x1b[m".repeat(few)),
    };
    let s = format!("{s}tail\x1b[0m.");
    ch.note(|| format!("{} bytes", s.len()));
    let (m, p) = if ch.flag() { (Msg::from(&s).with_suffix("\x1b[1m!"), Parts { msg: s, suffix: "\x1b[1m!".into(), ..Parts::default() }) }
        else { (Msg::from("B").with_suffix(&s), Parts { msg: "B".into(), suffix: s, ..Parts::default() }) };
    strip_check(ch, m, &p, true);
}

fn strip_parts(ch: &mut Ch) {
    let mut left = tier(4, 5);
    let mut parts = vec![];
    for _ in 0..3 {
        let s = token_string(ch, left);
        left -= ch.trace.len().min(0); // (Bounded below by what was used.)
        left = left.saturating_sub(count(&s));
        parts.push(s);
    }
    let mut p = Parts { suffix: parts[2].clone(), msg: parts[1].clone(), ..Parts::default() };
    let mut m = Msg::from(parts[1].as_str());
    m.set_suffix(&parts[2]);
    match ch.choose(2) {
        0 => { m.set_prefix(&parts[0]); p.prefix = model::prefix(&parts[0], None); },
        _ => { m.set_prefix((&parts[0], 20)); p.prefix = model::prefix(&parts[0], Some(20)); },
    }
    if ch.flag() {
        m.set_indent(1); m.set_newline(true);
        p.indent = 1; p.newline = true;
        #[cfg(feature = "full")] {
            crate::CLOCK.set(T0); m.set_timestamp(true); crate::CLOCK.set(0);
            p.time = model::timestamp(T0);
        }
    }
    ch.note(|| format!("strip {:?} made from {p:?}", m.as_str()));
    strip_check(ch, m, &p, true);
}

/// (An upper bound is fine: this only limits the amount of work.)
fn count(s: &str) -> usize {
    let mut n = 0;
    let mut rest = s;
    while ! rest.is_empty() {
        let t = TOK.iter().filter(|t| rest.starts_with(**t)).max_by_key(|t| t.len()).expect("token");
        rest = &rest[t.len()..];
        n += 1;
    }
    n
}

// ---- M04 ----

fn set() -> Vec<Msg> {
    let mut v = vec![
        Msg::default(), Msg::from(""), Msg::from("a"), Msg::from("b"), Msg::from("ab"), Msg::from("a: b"),
        Msg::new("a", "b"), Msg::new("", "a: b"), Msg::from("a: ").with_suffix("b"), Msg::from("").with_suffix("a: b"),
        Msg::new("a", "").with_suffix("b"), Msg::from("a: b\n"), Msg::from("a: b").with_newline(true), Msg::new("a", "b").with_newline(true),
        Msg::from("a: ").with_suffix("b\n"), Msg::from("    a"), Msg::from("a").with_indent(1), Msg::from("").with_indent(1).with_suffix("a"),
        Msg::from("\n"), Msg::default().with_newline(true), Msg::from("").with_suffix("\n"), Msg::error("x"),
        Msg::new(MsgKind::Error, "x").with_newline(true), Msg::new(("Error", 9), "x\n"), Msg::new(("Error", AnsiColor::LightRed), "").with_suffix("x\n"),
        Msg::from("\x1b[1;91mError:\x1b[0m x\n"), Msg::error("x").without_ansi(), Msg::from("Error: x\n"), Msg::new("Error", "x\n"),
        Msg::from("é"), Msg::from("e\u{301}"), Msg::from("z"), Msg::from("Z"), Msg::from("\u{10ffff}"), Msg::from("\u{ffff}"), Msg::from("a\0"), Msg::from("a\0b"),
        Msg::from("x").with_msg("a"), Msg::error("q").with_prefix("").with_newline(false).with_msg("a"),
        Msg::from("a".repeat(300)), Msg::from("a".repeat(299)).with_suffix("a"), Msg::from("a".repeat(300)).with_newline(true),
        Msg::new(MsgKind::Info, "hello"), Msg::new(MsgKind::Notice, "hello"), Msg::info("hello"), Msg::notice("hello"), Msg::new(MsgKind::Info, "hello").with_indent(8),
        Msg::from(" ".repeat(32)).with_suffix("a"), Msg::from("a").with_indent(8), Msg::from("a").with_indent(200),
    ];
    for p in ["", "N", "n", "\x1b[1m"] {
        for b in ["", "a", "A", "b"] {
            for s in ["", "a", "B"] {
                for k in 0..4 {
                    v.push(Msg::new(p, b).with_suffix(s).with_indent(k & 1).with_newline(k & 2 == 2));
                }
            }
        }
    }
    #[cfg(feature = "full")] {
        crate::CLOCK.set(T0);
        v.push(Msg::from("a").with_timestamp(true));
        v.push(Msg::from("a").with_timestamp(true).with_timestamp(false));
        v.push(Msg::from("a").with_timestamp(true).without_ansi());
        v.push(Msg::from(format!("{}a", model::timestamp(T0))));
        crate::CLOCK.set(0);
    }
    v
}

thread_local!(static SET: Vec<Msg> = set());

fn hash<T: Hash + ?Sized>(v: &T) -> u64 {
    let mut h = std::hash::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn pairs(ch: &mut Ch) {
    let n = SET.with(Vec::len);
    let (i, j) = (ch.choose(n), ch.choose(n));
    let (a, b) = SET.with(|s| (s[i].clone(), s[j].clone()));
    let (x, y) = (a.as_str().to_owned(), b.as_str().to_owned());
    ch.note(|| format!("{x:?} against {y:?}"));
    ch.step(&(&x, &y));
    let eq = x == y;
    ch.eq("==", &(a == b), &eq);
    ch.eq("!=", &(a != b), &! eq);
    ch.eq("cmp", &a.cmp(&b), &x.cmp(&y));
    ch.eq("partial_cmp", &a.partial_cmp(&b), &x.partial_cmp(&y));
    ch.eq("<", &(a < b), &(x < y));
    ch.eq("<=", &(a <= b), &(x <= y));
    ch.eq(">", &(a > b), &(x > y));
    ch.eq(">=", &(a >= b), &(x >= y));
    ch.eq("max", a.clone().max(b.clone()).as_str(), x.clone().max(y.clone()).as_str());
    ch.eq("hash equality", &(hash(&a) == hash(&b)), &eq);
    ch.eq("hash of text", &hash(&a), &hash(x.as_str()));
    ch.eq("hash set lookup by text", &HashSet::from([a.clone()]).contains(y.as_str()), &eq);
    ch.eq("tree set lookup by text", &BTreeSet::from([a.clone()]).contains(y.as_str()), &eq);
    ch.eq("hash set of both", &HashSet::from([a.clone(), b.clone()]).len(), &(if eq { 1 } else { 2 }));
    ch.eq("tree set of both", &BTreeSet::from([a.clone(), b.clone()]).len(), &(if eq { 1 } else { 2 }));
    macro_rules! both {
        ($name:literal, $e:expr) => ({
            let o = $e;
            if (a == o) != eq { ch.fail(|| concat!("message == ", $name).into()); }
            if (o == a) != eq { ch.fail(|| concat!($name, " == message").into()); }
            if (a != o) == eq { ch.fail(|| concat!("message != ", $name).into()); }
        });
    }
    let (bs, bb): (Box<str>, Box<[u8]>) = (y.as_str().into(), y.as_bytes().into());
    let (cs, cb): (Cow<'_, str>, Cow<'_, [u8]>) = (Cow::Borrowed(&y), Cow::Owned(y.as_bytes().to_vec()));
    let yb = y.as_bytes().to_vec();
    both!("&str", y.as_str());
    both!("String", y.clone());
    both!("&String", &y);
    both!("Cow<str>", cs.clone());
    both!("&Cow<str>", &cs);
    both!("Box<str>", bs.clone());
    both!("&Box<str>", &bs);
    both!("&[u8]", yb.as_slice());
    both!("Vec<u8>", yb.clone());
    both!("&Vec<u8>", &yb);
    both!("Cow<[u8]>", cb.clone());
    both!("&Cow<[u8]>", &cb);
    both!("Box<[u8]>", bb.clone());
    both!("&Box<[u8]>", &bb);
    if (a == *y.as_str()) != eq || (*y.as_str() == a) != eq { ch.fail(|| "str comparison".into()); }
    if (a == *yb.as_slice()) != eq || (*yb.as_slice() == a) != eq { ch.fail(|| "[u8] comparison".into()); }
    // Invalid UTF-8 is never equal.
    let mut bad = yb.clone();
    bad.push(0xff);
    if a == bad || bad == a { ch.fail(|| "equal to undecodable bytes".into()); }
}

fn conversions(ch: &mut Ch) {
    let n = SET.with(Vec::len);
    let i = ch.choose(n);
    let a = SET.with(|s| s[i].clone());
    let x = a.to_string();
    ch.note(|| format!("{x:?}"));
    ch.step(&x);
    ch.eq("as_str", a.as_str(), x.as_str());
    ch.eq("as_bytes", a.as_bytes(), x.as_bytes());
    ch.eq("len", &a.len(), &x.len());
    ch.eq("is_empty", &a.is_empty(), &x.is_empty());
    ch.eq("AsRef<str>", <Msg as AsRef<str>>::as_ref(&a), x.as_str());
    ch.eq("AsRef<[u8]>", <Msg as AsRef<[u8]>>::as_ref(&a), x.as_bytes());
    ch.eq("Borrow<str>", <Msg as Borrow<str>>::borrow(&a), x.as_str());
    ch.eq("format", &format!("{a}"), &x);
    ch.eq("format width", &format!("{a:>400}"), &format!("{x:>400}"));
    ch.eq("format left", &format!("{a:*<400}|"), &format!("{x:*<400}|"));
    ch.eq("format precision", &format!("{a:.2}"), &format!("{x:.2}"));
    ch.eq("into_string", &a.clone().into_string(), &x);
    ch.eq("into_bytes", &a.clone().into_bytes(), &x.clone().into_bytes());
    ch.eq("String::from", &String::from(a.clone()), &x);
    ch.eq("clone", a.clone().as_str(), x.as_str());
    for m in [Msg::from(x.as_str()), Msg::from(&x), Msg::from(x.clone()), Msg::from(Cow::Borrowed(x.as_str())), Msg::from(Cow::<str>::Owned(x.clone()))] {
        ch.eq("round trip", m.as_str(), x.as_str());
        // The whole text is the body.
        let p = Parts { prefix: "P: ".into(), msg: x.clone(), suffix: "!".into(), newline: true, ..Parts::default() };
        let n = m.clone().with_prefix("P").with_suffix("!").with_newline(true);
        ch.eq("parts of a converted text", n.as_str(), p.text().as_str());
        ch.eq("body replaced", n.with_msg("z").as_str(), "P: z!\n");
    }
    // Editing a copy leaves the original alone.
    let c = a.clone().with_msg("other").with_indent(3).without_ansi();
    ch.check(! c.is_empty(), || "empty".into());
    ch.eq("original", a.as_str(), x.as_str());
}

// ---- M07 ----

#[cfg(feature = "full")]
const VALS: [u64; 30] = [
    0, 1, 2, 3, 7, 9, 10, 99, 100, 101, 255, 256, 999, 1000, 1001, 9_999, 10_000, 65_535, 65_536, 999_999, 1_000_000,
    4_294_967_295, 4_294_967_296, 1 << 53, (1 << 53) + 1, 999_999_999_999, 1_000_000_000_000, u64::MAX / 2, u64::MAX - 1, u64::MAX,
];

#[cfg(feature = "full")]
fn before_after(ch: &mut Ch) {
    use fyi_msg::BeforeAfter;
    let (b, a) = (*ch.pick(&VALS), *ch.pick(&VALS));
    let how = ch.choose(4);
    let s = match how {
        0 => BeforeAfter::from((b, a)),
        1 => { let mut s = BeforeAfter::start(b); s.stop(a); s },
        // A second stop replaces the first.
        2 => { let mut s = BeforeAfter::start(b); s.stop(a ^ 5); s.stop(a); s },
        _ => BeforeAfter::start(b),
    };
    let a = if how == 3 { 0 } else { a };
    ch.note(|| format!("before {b}, after {a} (construction {how})"));
    let nz = |o: Option<std::num::NonZeroU64>| o.map(|v| v.get());
    ch.step(&(nz(s.before()), nz(s.after()), nz(s.less()), nz(s.more())));
    ch.eq("before", &nz(s.before()), &(b != 0).then_some(b));
    ch.eq("after", &nz(s.after()), &(a != 0).then_some(a));
    let less = (b != 0 && a != 0 && a < b).then(|| b - a);
    let more = (b != 0 && a != 0 && a > b).then(|| a - b);
    ch.eq("less", &nz(s.less()), &less);
    ch.eq("more", &nz(s.more()), &more);
    for (what, got, diff) in [("less", s.less_percent(), less), ("more", s.more_percent(), more)] {
        match (got, diff) {
            (None, None) => {},
            (Some(p), Some(d)) => {
                let want = d as f64 / b as f64;
                ch.check((p - want).abs() <= want * 1e-12, || format!("{what} percent: got {p}, expected {want}"));
            },
            (got, diff) => ch.fail(|| format!("{what} percent: got {got:?} for difference {diff:?}")),
        }
    }
    // The suffix.
    let (m, mut p) = match ch.choose(4) {
        0 => (Msg::done("ok"), Parts { prefix: model::prefix("Done", Some(10)), msg: "ok".into(), newline: true, ..Parts::default() }),
        1 => (Msg::from("ok").with_suffix(" something long enough to matter, surely"), Parts { msg: "ok".into(), ..Parts::default() }),
        2 => (Msg::from("").with_indent(2).with_suffix("s"), Parts { indent: 2, ..Parts::default() }),
        _ => (Msg::new("P", "ö").with_bytes_saved(BeforeAfter::from((5_000_000, 3))), Parts { prefix: "P: ".into(), msg: "ö".into(), ..Parts::default() }),
    };
    let mut m = m.with_bytes_saved(s);
    let got = m.as_str().to_owned();
    ch.note(|| format!("{got:?}"));
    ch.step(&got);
    match less {
        None => { p.suffix = " \x1b[2m(No savings.)\x1b[0m".into(); },
        Some(l) => {
            // The percentage has two decimals; allow for its rounding.
            let shell = p.text();
            let end = if p.newline { "\n" } else { "" };
            let open = format!("{} \x1b[2m(Saved {} bytes, ", shell.trim_end_matches('\n'), model::nice(l));
            let pct = got.strip_prefix(&open).and_then(|r| r.strip_suffix(end)).and_then(|r| r.strip_suffix("%.)\x1b[0m"));
            match pct.and_then(|t| t.parse::<f64>().ok().map(|v| (t, v))) {
                Some((t, v)) => {
                    let want = l as f64 / b as f64 * 100.0;
                    ch.check((v - want).abs() <= 0.005_000_1 && t.len() - t.find('.').unwrap_or(0) == 3,
                        || format!("percentage {t}, expected {want}"));
                    p.suffix = format!(" \x1b[2m(Saved {} bytes, {t}%.)\x1b[0m", model::nice(l));
                },
                None => ch.fail(|| format!("got {got:?}, expected it to start with {open:?}")),
            }
        },
    }
    if ch.failed() { return; }
    ch.eq("message", got.as_str(), p.text().as_str());
    m.set_suffix("");
    p.suffix.clear();
    ch.eq("message without the suffix", m.as_str(), p.text().as_str());
}
