//! The reference reading of a command line, and the tests.
use crate::explore::Ch;
use crate::model::{self, Parts};
use crate::run::{self, fyi, Out};
use crate::{tier, words, Test};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;

pub fn tests() -> Vec<Test> {
    vec![
        Test { prop: "C01", name: "sequences", body: |c| sequences(c, "C01"), bounds: format!("all sequences of up to {} (print) and {} (error) further arguments from {} around the message", depth("C01", "print"), depth("C01", "error"), ARGS.len()) },
        Test { prop: "C01", name: "kinds", body: |c| kinds(c), bounds: format!("all 13 kinds plus print: all sequences of up to {} arguments from {} around the message", tier(1, 2), ARGS.len()) },
        Test { prop: "C01", name: "colors", body: colors, bounds: "all 256 prefix colours in every spelling, and all invalid values, before and after another one".into() },
        Test { prop: "C01", name: "company", body: company_c01, bounds: "any set of the options in 3 orders for every kind, 5 messages".into() },
        Test { prop: "C01", name: "words", body: worded, bounds: format!("each of {} words from the sources as message, prefix, or both; and as the message of every kind", words::words().len()) },
        Test { prop: "C01", name: "texts", body: texts, bounds: "all pairs of messages and prefixes, times indentation and timestamp".into() },
        Test { prop: "C02", name: "statuses", body: statuses, bounds: "all 256 statuses, and all invalid values, in every spelling, alone and after another one, for every kind".into() },
        Test { prop: "C02", name: "company", body: company, bounds: "all 256 statuses with any set of the other options before or after, and 6 statuses with these for every kind".into() },
        Test { prop: "C02", name: "sequences", body: |c| sequences(c, "C02"), bounds: format!("print and error: all sequences of up to {} further arguments from {}", tier(2, 3), ARGS.len()) },
        Test { prop: "C02", name: "misuse", body: |c| misuse(c, "C02"), bounds: format!("all sequences of up to {} arguments from 11 for print, error, confirm and blank, {} for the others", tier(3, 4), tier(2, 3)) },
        Test { prop: "C03", name: "blank", body: blank, bounds: format!("all sequences of up to {} arguments from {}", tier(3, 4), BLANK.len()) },
        Test { prop: "C03", name: "words", body: blank_words, bounds: format!("each of {} words from the sources as an argument, or a count, before or after another", words::words().len()) },
        Test { prop: "C03", name: "counts", body: counts, bounds: "all counts up to 300 and around powers of two and ten up to a million in every spelling".into() },
        Test { prop: "C04", name: "answers", body: answers, bounds: format!("all sequences of up to {} answer lines from {}, for both defaults", tier(3, 4), LINES.len()) },
        Test { prop: "C04", name: "words", body: answered, bounds: format!("each of {} words from the sources as an answer, in 3 forms, for both defaults", words::words().len()) },
        Test { prop: "C04", name: "company", body: confirm_company, bounds: "any set of the options, a status, colour or prefix among them, for every conclusive answer".into() },
        Test { prop: "C04", name: "options", body: options, bounds: format!("all sequences of up to {} options around the question, for every conclusive answer", tier(3, 4)) },
        Test { prop: "C05", name: "misuse", body: |c| misuse(c, "C05"), bounds: format!("all sequences of up to {} arguments from 11 for print, error, confirm and blank, {} for the others", tier(3, 4), tier(2, 3)) },
        Test { prop: "C05", name: "words", body: first_words, bounds: format!("each of {} words from the sources as the first argument, with and without further ones", words::words().len()) },
        Test { prop: "C05", name: "first", body: first, bounds: "all first arguments in the mutation neighbourhood of every subcommand and switch, with and without further arguments".into() },
    ]
}

/// Subcommands printing a message with a built-in prefix.
pub const NAMES: [&str; 13] = ["aborted", "crunched", "debug", "done", "error", "found", "info", "notice", "review", "skipped", "success", "task", "warning"];

/// One option in one spelling: the raw arguments, and what they mean.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Opt { Indent, Stderr, Time, Color(&'static str), Prefix(&'static str), Exit(&'static str), Nothing }

const ARGS: &[(&[&str], Opt)] = &[
    (&["-i"], Opt::Indent), (&["--indent"], Opt::Indent),
    (&["--stderr"], Opt::Stderr),
    (&["-t"], Opt::Time), (&["--timestamp"], Opt::Time),
    (&[""], Opt::Nothing),
    (&["-c", "9"], Opt::Color("9")), (&["-c10"], Opt::Color("10")), (&["-c=0"], Opt::Color("0")),
    (&["--prefix-color", "255"], Opt::Color("255")), (&["--prefix-color=15"], Opt::Color("15")),
    (&["--prefix-color", "256"], Opt::Color("256")), (&["-c", "x"], Opt::Color("x")), (&["-c", ""], Opt::Color("")), (&["-c", " 16 "], Opt::Color("16")),
    (&["-p", "P"], Opt::Prefix("P")), (&["-pQé"], Opt::Prefix("Qé")), (&["-p=R"], Opt::Prefix("R")),
    (&["--prefix", "-i"], Opt::Prefix("-i")), (&["--prefix=a=b"], Opt::Prefix("a=b")), (&["--prefix="], Opt::Prefix("")), (&["-p", ""], Opt::Prefix("")),
    (&["-e", "3"], Opt::Exit("3")), (&["-e4"], Opt::Exit("4")), (&["-e=255"], Opt::Exit("255")),
    (&["--exit", "0"], Opt::Exit("0")), (&["--exit=42"], Opt::Exit("42")),
    (&["-e", "256"], Opt::Exit("256")), (&["--exit=x"], Opt::Exit("x")), (&["--exit", "-1"], Opt::Exit("-1")), (&["-e", " 7 "], Opt::Exit("7")),
];

fn byte(s: &str) -> Option<u8> { if s.bytes().all(|b| b.is_ascii_digit()) { s.parse().ok() } else { None } }

struct Want { parts: Parts, stderr: bool, exit: u8 }

/// What a message command means.
fn meaning(name: &str, opts: &[Opt], msg: &str) -> Want {
    let mut w = Want { parts: Parts { msg: msg.into(), newline: true, ..Parts::default() }, stderr: false, exit: 0 };
    let (mut color, mut prefix) = (199, "");
    for o in opts {
        match o {
            Opt::Indent => w.parts.indent = 1,
            Opt::Stderr => w.stderr = true,
            Opt::Time => w.parts.time = model::timestamp(run::CLOCK + run::OFFSET),
            Opt::Color(s) => if let Some(v) = byte(s) { color = v; },
            Opt::Prefix(s) => prefix = s,
            Opt::Exit(s) => if let Some(v) = byte(s) { w.exit = v; },
            Opt::Nothing => {},
        }
    }
    w.parts.prefix =
        if name == "print" { model::prefix(prefix, Some(color)) }
        else { label(name) };
    w
}

fn label(name: &str) -> String {
    let (l, c) = model::KINDS.iter().find(|(l, _)| l.eq_ignore_ascii_case(name)).expect("kind");
    model::prefix(l, Some(*c))
}

fn os(args: &[&str]) -> Vec<OsString> { args.iter().map(|a| OsString::from(*a)).collect() }

fn call(ch: &mut Ch, args: &[OsString], stdin: &[u8]) -> Out {
    let o = fyi(args, stdin);
    ch.note(|| format!("fyi {args:?} <{:?}: status {}, out {:?}, err {:?}", String::from_utf8_lossy(stdin), o.status, o.out(), o.err()));
    ch.step(&(&o.out, &o.err, &o.status));
    o
}

/// Judge a message command.
fn judge(ch: &mut Ch, prop: &str, args: &[&str], w: &Want) {
    let o = call(ch, &os(args), b"");
    if prop == "C01" {
        let t = w.parts.text();
        let (out, err) = if w.stderr { ("", t.as_str()) } else { (t.as_str(), "") };
        ch.eq(&format!("standard output of {args:?}"), o.out().as_str(), out);
        ch.eq(&format!("standard error of {args:?}"), o.err().as_str(), err);
        ch.check(o.status.parse::<u8>().is_ok(), || format!("{args:?} ended by {}", o.status));
    }
    else { ch.eq(&format!("exit status of {args:?}"), o.status.as_str(), w.exit.to_string().as_str()); }
}

fn around(ch: &mut Ch, prop: &str, name: &str, depth: usize) {
    let n = ch.choose(depth + 1);
    let at = ch.choose(n + 1);
    let mut args = vec![name];
    let mut opts = Vec::new();
    let msg = "hé llo";
    for i in 0..=n {
        if i == at { args.push(msg); }
        if i < n {
            let (a, o) = ch.pick(ARGS);
            args.extend_from_slice(a);
            opts.push(*o);
        }
    }
    let w = meaning(name, &opts, msg);
    judge(ch, prop, &args, &w);
}

fn sequences(ch: &mut Ch, prop: &str) {
    let name = *ch.pick(&["print", "error"]);
    around(ch, prop, name, depth(prop, name));
}
fn depth(prop: &str, name: &str) -> usize {
    match (prop, name) { ("C01", "print") => 3, _ => tier(2, 3) }
}
fn kinds(ch: &mut Ch) {
    let name = *ch.pick(&[&NAMES[..], &["print"]].concat());
    around(ch, "C01", name, tier(1, 2));
}

const BAD: [&str; 14] = ["256", "257", "300", "999", "1000", "65536", "4294967296", "18446744073709551616", "-1", "x", "1x", "0x1", "1.0", "é"];

/// Every spelling of an option and its value.
fn spell(i: usize, short: &str, long: &str, v: &str) -> Vec<String> {
    match i {
        0 => vec![short.into(), v.into()],
        1 => vec![format!("{short}{v}")],
        2 => vec![format!("{short}={v}")],
        3 => vec![long.into(), v.into()],
        4 => vec![format!("{long}={v}")],
        5 => vec![short.into(), format!(" {v}\t")],
        6 => vec![format!("{short}={v} ")],
        _ => vec![format!("{long}= {v}")],
    }
}

fn number(ch: &mut Ch) -> String {
    let n = ch.choose(256 + BAD.len());
    if n < 256 { n.to_string() } else { BAD[n - 256].into() }
}

fn colors(ch: &mut Ch) {
    let v: &'static str = number(ch).leak();
    let args: Vec<String> = spell(ch.choose(8), "-c", "--prefix-color", v);
    let before = ch.choose(3);
    let mut full = vec!["print", "-p", "X", "m"];
    let mut opts = vec![Opt::Prefix("X")];
    if before == 1 { full.push("-c12"); opts.push(Opt::Color("12")); }
    full.extend(args.iter().map(String::as_str));
    opts.push(Opt::Color(v));
    if before == 2 { full.push("-c12"); opts.push(Opt::Color("12")); }
    let w = meaning("print", &opts, "m");
    judge(ch, "C01", &full, &w);
}

fn texts(ch: &mut Ch) {
    const T: [&str; 12] = ["a", " ", "é", "日本", "a\nb", "\n", "\x1b[1mx\x1b[0m", "%s {} \\n", "a\tb", "=", "🦀", "-"];
    const P: [&str; 10] = ["", " ", "é", "日本:", "a\nb", "\x1b[1mx", "{}", "=", "a b", "-e"];
    let msg = *ch.pick(&T);
    let prefix = *ch.pick(&P);
    let (i, t) = (ch.flag(), ch.flag());
    let mut args = vec!["print", "-p", prefix];
    let mut opts = vec![Opt::Prefix(prefix)];
    if i { args.push("-i"); opts.push(Opt::Indent); }
    if t { args.push("-t"); opts.push(Opt::Time); }
    args.push(msg);
    let w = meaning("print", &opts, msg);
    judge(ch, "C01", &args, &w);
}

fn statuses(ch: &mut Ch) {
    // All values for one kind, some for all kinds.
    let k = ch.choose(NAMES.len() + 1);
    let name = if k == 0 { "print" } else { NAMES[k - 1] };
    let v: &'static str = if k == 0 { number(ch) } else { ["0", "1", "2", "127", "128", "254", "255", "256", "x"][ch.choose(9)].to_owned() }.leak();
    let args: Vec<String> = spell(ch.choose(8), "-e", "--exit", v);
    let order = ch.choose(4);
    let mut full = vec![name];
    let mut opts = Vec::new();
    if order != 3 { full.push("m"); }
    if order == 1 { full.push("--exit=77"); opts.push(Opt::Exit("77")); }
    full.extend(args.iter().map(String::as_str));
    opts.push(Opt::Exit(v));
    if order == 2 { full.push("-e78"); opts.push(Opt::Exit("78")); }
    if order == 3 { full.extend(["m", "--stderr"]); opts.push(Opt::Stderr); }
    let w = meaning(name, &opts, "m");
    judge(ch, "C02", &full, &w);
}

/// Any set of the other options, before or after.
fn others(ch: &mut Ch, name: &str, args: &mut Vec<&str>, opts: &mut Vec<Opt>) {
    const O: [(&str, Opt); 5] = [("-i", Opt::Indent), ("--stderr", Opt::Stderr), ("-t", Opt::Time), ("-pX", Opt::Prefix("X")), ("-c5", Opt::Color("5"))];
    for o in &O[..if name == "print" { 5 } else { 3 }] { if ch.flag() { args.push(o.0); opts.push(o.1); } }
}

fn company(ch: &mut Ch) {
    let k = ch.choose(NAMES.len() + 1);
    let name = if k == 0 { "print" } else { NAMES[k - 1] };
    let v: &'static str = if k == 0 { ch.choose(256) } else { *ch.pick(&[0, 1, 2, 128, 254, 255]) }.to_string().leak();
    let order = ch.choose(3);
    let mut args = vec![name];
    let mut opts = vec![Opt::Exit(v)];
    match order {
        0 => { args.extend(["-e", v]); others(ch, name, &mut args, &mut opts); args.push("m"); },
        1 => { others(ch, name, &mut args, &mut opts); args.extend(["m", "--exit", v]); },
        _ => { args.extend(["m", "-e", v]); others(ch, name, &mut args, &mut opts); },
    }
    let w = meaning(name, &opts, "m");
    judge(ch, "C02", &args, &w);
}

fn company_c01(ch: &mut Ch) {
    let k = ch.choose(NAMES.len() + 1);
    let name = if k == 0 { "print" } else { NAMES[k - 1] };
    let msg = *ch.pick(&["m", "é", "a\nb", "x ", "\n"]);
    let order = ch.choose(3);
    let mut args = vec![name];
    let mut opts = Vec::new();
    if order == 0 { args.push(msg); }
    others(ch, name, &mut args, &mut opts);
    if order == 1 { args.push(msg); }
    if ch.flag() { args.extend(["-e", "1"]); opts.push(Opt::Exit("1")); }
    if order == 2 { args.push(msg); }
    let w = meaning(name, &opts, msg);
    judge(ch, "C01", &args, &w);
}

/// Would a word be read as an option, were it not a value?
fn dashed(w: &str) -> bool { w.starts_with('-') }

fn worded(ch: &mut Ch) {
    let w = ch.pick(words::words()).as_str();
    let how = ch.choose(3 + NAMES.len());
    if how != 1 && dashed(w) { return; }
    let (args, opts): (Vec<&str>, Vec<Opt>) = match how {
        0 => (vec!["print", w], vec![]),
        1 => (vec!["print", "m", "-p", w], vec![Opt::Prefix(w)]),
        2 => (vec!["print", w, "--prefix", w], vec![Opt::Prefix(w)]),
        k => (vec![NAMES[k - 3], w], vec![]),
    };
    let want = meaning(args[0], &opts, if how == 1 { "m" } else { w });
    judge(ch, "C01", &args, &want);
}

// ---- blank ----

fn blank_words(ch: &mut Ch) {
    let w = ch.pick(words::words()).as_str();
    // Options are another matter.
    let how = ch.choose(3);
    if how < 2 && dashed(w) { return; }
    let n = w.parse::<u64>().unwrap_or(0);
    match how {
        0 => judge_blank(ch, &["blank", w], 1, false),
        1 => judge_blank(ch, &["blank", w, "-c", "3", "--stderr"], 3, true),
        _ => judge_blank(ch, &["blank", "-c2", "--count", w], n.max(2), false),
    }
}

/// Arguments, and the count they ask for; `Err` for the stream switch.
const BLANK: &[(&[&str], Result<u64, ()>)] = &[
    (&["--stderr"], Err(())),
    (&["-c", "2"], Ok(2)), (&["-c3"], Ok(3)), (&["-c=4"], Ok(4)), (&["--count", "5"], Ok(5)), (&["--count=10"], Ok(10)),
    (&["-c", " 6 "], Ok(6)), (&["-c", "0"], Ok(0)), (&["--count=0"], Ok(0)), (&["-c", "1"], Ok(1)), (&["-c", "x"], Ok(0)), (&["-c="], Ok(0)), (&["-c", ""], Ok(0)),
    (&["--count", "-3"], Ok(0)), (&["-c-1"], Ok(0)), (&["-c", "99999999999999999999"], Ok(0)), (&["--count=1.5"], Ok(0)), (&["-c", "257"], Ok(257)),
    (&["-c", "--stderr"], Ok(0)), (&["junk"], Ok(0)), (&["7"], Ok(0)), (&[""], Ok(0)), (&["--nope"], Ok(0)),
];

fn judge_blank(ch: &mut Ch, args: &[&str], n: u64, stderr: bool) {
    let o = call(ch, &os(args), b"");
    let t = "\n".repeat(n.max(1) as usize);
    let (out, err) = if stderr { ("", t.as_str()) } else { (t.as_str(), "") };
    ch.check(o.out() == out, || format!("{args:?}: {} bytes on standard output, expected {} line breaks", o.out.len(), out.len()));
    ch.check(o.err() == err, || format!("{args:?}: {} bytes on standard error, expected {} line breaks", o.err.len(), err.len()));
    ch.eq(&format!("exit status of {args:?}"), o.status.as_str(), "0");
}

fn blank(ch: &mut Ch) {
    let n = ch.choose(tier(3, 4) + 1);
    let mut args = vec!["blank"];
    let (mut count, mut stderr) = (1, false);
    for _ in 0..n {
        let (a, m) = ch.pick(BLANK);
        args.extend_from_slice(a);
        match m { Ok(v) => count = count.max(*v), Err(()) => stderr = true }
    }
    judge_blank(ch, &args, count, stderr);
}

fn counts(ch: &mut Ch) {
    let mut all: Vec<u64> = (0..=300).collect();
    for p in 9..=14 { let v = 1_u64 << p; all.extend([v - 1, v, v + 1]); }
    all.extend([999, 1000, 1001, 9_999, 10_000, 20_000]);
    for p in 15..=20 { let v = 1_u64 << p; all.extend([v - 1, v, v + 1]); }
    all.extend([99_999, 100_000, 100_001, 1_000_000]);
    let n = *ch.pick(&all);
    let v = n.to_string();
    let args = spell(ch.choose(8), "-c", "--count", &v);
    let stderr = ch.flag();
    let mut full = vec!["blank"];
    full.extend(args.iter().map(String::as_str));
    if stderr { full.push("--stderr"); }
    judge_blank(ch, &full, n, stderr);
}

// ---- confirm ----

const LINES: &[(&[u8], Option<Option<bool>>)] = &[
    // An answer, nothing (the default), or invalid.
    (b"y\n", Some(Some(true))), (b"n\n", Some(Some(false))), (b"\n", Some(None)), (b"YES\n", Some(Some(true))), (b" no \r\n", Some(Some(false))),
    (b"\t\r\n", Some(None)), (b"nO\n", Some(Some(false))), (b"yEs \n", Some(Some(true))), (b"Y", Some(Some(true))), (b" ", Some(None)), (b"no", Some(Some(false))),
    (b"yy\n", None), (b"ye\n", None), (b"nope\n", None), (b"n y\n", None), (b"0\n", None), ("é\n".as_bytes(), None), (b"\xff\n", None), (b"true\n", None), (b"no.\n", None), (b"-\n", None),
];

/// The conversation a confirmation should lead to.
fn judge_confirm(ch: &mut Ch, args: &[&str], w: &Want, default: bool, lines: &[usize]) {
    let mut input = Vec::new();
    let mut result = None;
    let mut errors = 0;
    for l in lines {
        input.extend_from_slice(LINES[*l].0);
        if result.is_none() {
            match LINES[*l].1 {
                Some(a) => result = Some(a.unwrap_or(default)),
                None => errors += 1,
            }
        }
    }
    let result = result.unwrap_or(default);
    let o = call(ch, &os(args), &input);
    ch.eq(&format!("exit status of {args:?} answered {:?}", String::from_utf8_lossy(&input)), o.status.as_str(), if result { "0" } else { "1" });
    ch.eq("standard error", o.err().as_str(), "");
    // Question, (error, question)…
    let out = o.out();
    let mut p = w.parts.clone();
    p.newline = false;
    let q = p.text();
    let mut rest = out.as_str();
    let hint = if default { " [Y/n] " } else { " [y/N] " };
    for i in 0..=errors {
        let Some(r) = rest.strip_prefix(q.as_str()) else { ch.fail(|| format!("{args:?}: expected the question {q:?} at {rest:?}")); return; };
        // The hint, up to the next error or the end.
        let err = label("error");
        let end = if i < errors { match r.find(err.as_str()) { Some(e) => e, None => { ch.fail(|| format!("{args:?}: no error after an invalid answer: {r:?}")); return; } } } else { r.len() };
        ch.eq("hint", model::visible(&r[..end]).as_str(), hint);
        rest = &r[end..];
        if i < errors {
            let Some(nl) = rest.find('\n') else { ch.fail(|| format!("the error does not end its line: {rest:?}")); return; };
            rest = &rest[nl + 1..];
        }
        if ch.failed() { return; }
    }
}

fn answers(ch: &mut Ch) {
    let default = ch.flag();
    let args = if default { vec!["confirm", "-y", "Q?"] } else { vec!["confirm", "Q?"] };
    let n = ch.choose(tier(3, 4) + 1);
    let mut lines = Vec::new();
    for i in 0..n {
        // An unterminated line can only be the last.
        let l = ch.choose(LINES.len());
        lines.push(l);
        if i + 1 < n && ! LINES[l].0.ends_with(b"\n") { break; }
    }
    let w = meaning_confirm(&[], "Q?");
    judge_confirm(ch, &args, &w, default, &lines);
}

fn answered(ch: &mut Ch) {
    let w = ch.pick(words::words()).as_str();
    let line = match ch.choose(3) { 0 => w.to_owned(), 1 => w.to_uppercase(), _ => format!("  {w}\t") };
    let default = ch.flag();
    let a = match w.trim().to_lowercase().as_str() { "" => Some(default), "y" | "yes" => Some(true), "n" | "no" => Some(false), _ => None };
    // Were it not taken as an answer, the next line is.
    let input = format!("{line}\n{}\n", if default { "n" } else { "y" });
    let args: &[&str] = if default { &["confirm", "--yes", "Q?"] } else { &["confirm", "Q?"] };
    let o = call(ch, &os(args), input.as_bytes());
    let yes = a.unwrap_or(! default);
    ch.eq(&format!("exit status when answering {line:?}"), o.status.as_str(), if yes { "0" } else { "1" });
    let asked = model::visible(&o.out()).matches("Q?").count();
    ch.eq(&format!("questions asked when answering {line:?}"), &asked, &(if a.is_none() { 2 } else { 1 }));
}

fn confirm_company(ch: &mut Ch) {
    const O: [(&[&str], Opt); 6] = [
        (&["-i"], Opt::Indent), (&["-t"], Opt::Time), (&["-y"], Opt::Nothing),
        (&["-p", "X"], Opt::Nothing), (&["-c", "5"], Opt::Nothing), (&["--exit=0"], Opt::Nothing),
    ];
    let mut args = vec!["confirm"];
    let mut opts = Vec::new();
    let at = ch.choose(2);
    let mut default = false;
    if at == 0 { args.push("Q?"); }
    for (i, (a, o)) in O.iter().enumerate() {
        if i == 5 {
            match ch.choose(4) { 0 => {}, 1 => args.push("-e=0"), 2 => args.push("-e1"), _ => args.push("--exit=9") }
        }
        else if ch.flag() { args.extend_from_slice(a); opts.push(*o); default |= i == 2; }
    }
    if at == 1 { args.push("Q?"); }
    let l = match ch.choose(5) { 0 => vec![0], 1 => vec![1], 2 => vec![2], 3 => vec![], _ => vec![11, 0] };
    let w = meaning_confirm(&opts, "Q?");
    judge_confirm(ch, &args, &w, default, &l);
}

fn meaning_confirm(opts: &[Opt], msg: &str) -> Want {
    let mut w = meaning("print", opts, msg);
    w.parts.prefix = label("confirm");
    w
}

fn options(ch: &mut Ch) {
    const O: [(&str, Opt, bool); 7] = [
        ("-y", Opt::Nothing, true), ("--yes", Opt::Nothing, true), ("-i", Opt::Indent, false), ("--indent", Opt::Indent, false),
        ("-t", Opt::Time, false), ("--timestamp", Opt::Time, false), ("", Opt::Nothing, false),
    ];
    let n = ch.choose(tier(3, 4) + 1);
    let at = ch.choose(n + 1);
    let mut args = vec!["confirm"];
    let mut opts = Vec::new();
    let mut default = false;
    for i in 0..=n {
        if i == at { args.push("sûr?"); }
        if i < n {
            let o = ch.pick(&O);
            args.push(o.0); opts.push(o.1); default |= o.2;
        }
    }
    let l = match ch.choose(5) { 0 => vec![0], 1 => vec![1], 2 => vec![2], 3 => vec![], _ => vec![11, 0] };
    let w = meaning_confirm(&opts, "sûr?");
    judge_confirm(ch, &args, &w, default, &l);
}

// ---- help, version, misuse ----

/// The options a subcommand documents.
fn documented(name: &str) -> &'static [&'static str] {
    match name {
        "blank" => &["--help", "--stderr", "--count"],
        "confirm" => &["--help", "--indent", "--timestamp", "--yes"],
        "print" => &["--help", "--indent", "--stderr", "--timestamp", "--exit", "--prefix", "--prefix-color"],
        "" => &["--help", "--version"],
        _ => &["--help", "--indent", "--stderr", "--timestamp", "--exit"],
    }
}

/// Is this the help of `name` (empty: the general one)?
fn is_help(ch: &mut Ch, args: &[OsString], name: &str, o: &Out) {
    ch.eq(&format!("exit status of {args:?}"), o.status.as_str(), "0");
    ch.eq(&format!("standard error of {args:?}"), o.err().as_str(), "");
    let t = model::visible(&o.out());
    let usage = if name.is_empty() { "fyi <SUBCOMMAND>".to_owned() } else { format!("fyi {name} [FLAGS]") };
    ch.check(t.lines().any(|l| l.trim_start().starts_with(&usage)), || format!("{args:?}: expected the help of {name:?}, got {t:?}"));
    let mut have: Vec<&str> = t.split(|c: char| c.is_whitespace() || c == ',').filter(|w| w.len() > 2 && w.starts_with("--") && w[2..].chars().all(|c| c.is_ascii_lowercase() || c == '-')).collect();
    have.retain(|w| w[2..].starts_with(|c: char| c.is_ascii_lowercase()));
    have.sort_unstable(); have.dedup();
    let mut want = documented(name).to_vec();
    want.sort_unstable();
    ch.check(want.iter().all(|w| have.contains(w)) && have.iter().all(|h| want.contains(h)), || format!("{args:?}: the help of {name:?} lists {have:?}, not {want:?}"));
    if name.is_empty() {
        for n in NAMES.iter().chain(&["blank", "confirm", "print"]) {
            ch.check(t.lines().any(|l| l.split_whitespace().next() == Some(n)), || format!("the general help misses {n}"));
        }
    }
    else if ! matches!(name, "blank" | "confirm" | "print") {
        let mut l = name.to_owned(); l[..1].make_ascii_uppercase();
        ch.check(t.contains(&format!("{l}: Hello World")), || format!("the help of {name} has no example of it"));
    }
}

/// Is this a usage error?
fn is_error(ch: &mut Ch, args: &[OsString], o: &Out, names: Option<&str>) {
    ch.eq(&format!("exit status of {args:?}"), o.status.as_str(), "1");
    ch.eq(&format!("standard output of {args:?}"), o.out().as_str(), "");
    let e = o.err();
    ch.check(e.starts_with(&label("error")) && e.ends_with('\n') && e.matches('\n').count() == 1, || format!("{args:?}: not one error message: {e:?}"));
    if let Some(n) = names {
        ch.check(model::visible(&e).contains(&format!("fyi {n} --help")), || format!("{args:?}: the error does not name the help of {n}: {e:?}"));
    }
}

fn misuse(ch: &mut Ch, prop: &str) {
    let names = [&NAMES[..], &["print", "confirm", "blank"]].concat();
    let name = *ch.pick(&names);
    // More for the special ones.
    let n = ch.choose(if matches!(name, "print" | "confirm" | "blank" | "error") { tier(3, 4) } else { tier(2, 3) } + 1);
    let mut args = os(&[name]);
    let (mut help, mut bad, mut msgs) = (false, false, 0);
    let mut opts = Vec::new();
    let mut default = false;
    for _ in 0..n {
        match ch.choose(11) {
            0 => { args.push("-h".into()); help |= ! bad; },
            1 => { args.push("--help".into()); help |= ! bad; },
            2 => { args.push("m".into()); msgs += 1; if msgs > 1 && ! help && name != "blank" { bad = true; } },
            3 => { args.push("n n".into()); msgs += 1; if msgs > 1 && ! help && name != "blank" { bad = true; } },
            4 => { args.push(OsString::from_vec(b"a\xff".to_vec())); if ! help && name != "blank" { bad = true; } },
            5 => { args.push("".into()); },
            6 => { args.push("-i".into()); opts.push(Opt::Indent); },
            7 => { args.push(if name == "confirm" { "-y" } else { "--stderr" }.into()); default = true; opts.push(Opt::Stderr); },
            8 => { args.push("-t".into()); opts.push(Opt::Time); },
            9 => { args.push(if name == "blank" { "-c3" } else { "-e" }.into()); if name != "blank" { args.push("9".into()); } opts.push(Opt::Exit("9")); },
            _ => { args.push("é".into()); msgs += 1; if msgs > 1 && ! help && name != "blank" { bad = true; } },
        }
    }
    let o = call(ch, &args, b"");
    if help {
        if prop == "C05" { is_help(ch, &args, name, &o); }
        else { ch.eq(&format!("exit status of {args:?}"), o.status.as_str(), "0"); }
    }
    else if bad { is_error(ch, &args, &o, (prop == "C05").then_some(name)); }
    else if name == "blank" { ch.eq(&format!("exit status of {args:?}"), o.status.as_str(), "0"); }
    else if msgs == 0 { is_error(ch, &args, &o, None); }
    else if name == "confirm" { ch.eq(&format!("exit status of {args:?}"), o.status.as_str(), if default { "0" } else { "1" }); }
    else {
        let w = meaning(name, &opts, "");
        ch.eq(&format!("exit status of {args:?}"), o.status.as_str(), w.exit.to_string().as_str());
    }
}

fn first_words(ch: &mut Ch) {
    let w = ch.pick(words::words()).as_str();
    let t = w.trim();
    if dashed(t) { return; }
    let form = ch.choose(2);
    let s = if form == 0 { w.to_owned() } else { w.to_uppercase() };
    if NAMES.contains(&s.as_str()) || matches!(s.as_str(), "print" | "confirm" | "blank" | "prompt") || s != s.trim() || s.is_empty() { return; }
    let mut args = vec![OsString::from(s)];
    match ch.choose(4) { 1 => args.push("m".into()), 2 => args.extend(os(&["-i", "m"])), 3 => args.push("--help".into()), _ => {} }
    let o = call(ch, &args, b"");
    is_help(ch, &args, "", &o);
}

fn first(ch: &mut Ch) {
    // A word, or something close to it.
    let mut words: Vec<&str> = NAMES.to_vec();
    words.extend(["print", "confirm", "blank", "-h", "--help", "-V", "--version", "help", "version"]);
    let w = *ch.pick(&words);
    let mut all: Vec<Vec<u8>> = vec![w.into()];
    let b = w.as_bytes();
    for i in 0..b.len() {
        let mut v = b.to_vec(); v.remove(i); all.push(v);
        let mut v = b.to_vec(); v.insert(i, b[i]); all.push(v);
        let mut v = b.to_vec(); v[i] ^= 0x20; all.push(v);
        if i > 0 { all.push(b[..i].to_vec()); }
    }
    all.push(w.to_ascii_uppercase().into());
    all.push([b, b"x"].concat());
    all.push([b, b"\xff"].concat());
    all.push([b, b"s"].concat());
    all.push([b"-", b].concat());
    let arg = all[ch.choose(all.len())].clone();
    let s = String::from_utf8_lossy(&arg).into_owned();
    let mut args = vec![OsString::from_vec(arg.clone())];
    let more = ch.choose(4);
    match more { 1 => args.push("m".into()), 2 => args.extend(os(&["-i", "m"])), 3 => args.push("--help".into()), _ => {} }
    // Attached values and padding are left open.
    if arg.is_empty() || (s.starts_with('-') && s.len() > 2 && (s.starts_with("-h") || s.starts_with("-V"))) { return; }
    // With no arguments at all.
    let o = if more == 0 && s == "help" { call(ch, &[], b"") } else { call(ch, &args, b"") };
    let known = NAMES.contains(&s.as_str()) || matches!(s.as_str(), "print" | "confirm" | "blank");
    if matches!(s.as_str(), "-V" | "--version") {
        ch.eq("exit status", o.status.as_str(), "0");
        ch.eq("standard error", o.err().as_str(), "");
        let want = format!("FYI v{}\n", std::env::var("CLI_VERSION").expect("version"));
        ch.eq("version", o.out().as_str(), want.as_str());
    }
    else if ! known { is_help(ch, &args, "", &o); }
    else if more == 3 { is_help(ch, &args, &s, &o); }
    else if s == "blank" { ch.eq("exit status", o.status.as_str(), "0"); }
    else if more == 0 { is_error(ch, &args, &o, None); }
    else if s == "confirm" { ch.eq("exit status", o.status.as_str(), "1"); }
    else {
        ch.eq("exit status", o.status.as_str(), "0");
        let w = meaning(&s, if more == 2 { &[Opt::Indent] } else { &[] }, "m");
        ch.eq("output", o.out().as_str(), w.parts.text().as_str());
    }
}
