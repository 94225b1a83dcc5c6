//! Fitting: F01, F02.
use crate::explore::Ch;
use crate::model::{self, Tok};
use crate::{tier, Test};
use fyi_msg::{fit_to_width, length_width, width, Msg};

pub fn tests() -> Vec<Test> {
    vec![
        Test { prop: "F01", name: "fit", body: fit, bounds: format!("all token strings up to length {} over {} tokens, every width from 1 up", tier(5, 6), TOK.len()) },
        Test { prop: "F01", name: "fit-lines", body: fit_lines, bounds: format!("all sequences of {} lines from {} line texts and 3 endings, every width", tier(3, 4), LINES.len()) },
        Test { prop: "F01", name: "fit-msg", body: fit_msg, bounds: "all part combinations x every width".into() },
        Test { prop: "F01", name: "fit-chars", body: fit_chars, bounds: "every Unicode character, twice within a line, at its ends and inside sequences, widths 1 to 3 and beyond".into() },
        Test { prop: "F01", name: "fit-long", body: fit_long, bounds: "lines of about 127, 255, 256 and 65535 columns of 4 characters, with long, short or many sequences at 3 places, after 0 to 2 other lines, all widths nearby".into() },
        Test { prop: "F02", name: "width-long", body: width_long, bounds: "texts of about 127, 255, 256 and 65535 columns of 4 characters, with long, short or many sequences at 3 places, all widths nearby".into() },
        Test { prop: "F02", name: "width", body: widths, bounds: format!("all token strings up to length {} over {} tokens, every width from 0 up", tier(5, 6), TOK.len()) },
        Test { prop: "F02", name: "chars", body: chars, bounds: "every Unicode character, alone, doubled and inside sequences".into() },
    ]
}

pub const TOK: [&str; 16] = [
    "a", " ", "é", "漢", "\u{301}", "\x1b[1m", "\x1b]t\x07", "\n", "\r\n", "\x1b", "\x1b[3", "\x1b]", "[", "\x1b\\", "œ", "\t",
];

fn token_string(ch: &mut Ch, max: usize) -> String {
    let mut s = String::new();
    for _ in 0..max {
        let k = ch.choose(TOK.len() + 1);
        if k == 0 { break; }
        s.push_str(TOK[k - 1]);
    }
    s
}

fn check_fit(ch: &mut Ch, s: &str) {
    let max = s.split('\n').map(|l| model::width(l)).max().unwrap_or(0) + 2;
    for w in (1..=max).chain([s.len(), usize::MAX]) {
        let want = model::fit(s, w);
        let got = fit_to_width(s, w);
        ch.step(&(w, &*got));
        if got != want { ch.fail(|| format!("fit_to_width({s:?}, {w}): got {got:?}, expected {want:?}")); return; }
        let again = fit_to_width(&got, w);
        if again != got { ch.fail(|| format!("fitting {got:?} to {w} again gives {again:?}")); return; }
        for l in got.split('\n') {
            if width(l) > w { ch.fail(|| format!("{l:?} is wider than {w}")); return; }
        }
    }
}

fn fit(ch: &mut Ch) {
    let s = token_string(ch, tier(5, 6));
    ch.note(|| format!("{s:?}"));
    check_fit(ch, &s);
}

const LINES: [&str; 14] = [
    "", "a", "abc", " a\t  ", "漢a漢", "\x1b[1mab\x1b[0mc", "a\x1b[1mbc\x1b[0m", "abc\x1b[2", "ab\x1b]x\x1b\\c\x1b]y\x07d\x1b[1;", "e\u{301}e\u{301}e\u{301}", "\u{200b}ab\u{200b}",
    "a\x1b]x\x1b\x1b\\b\x1b[0m", "ab\x1bcd\x1b[1m", "\x1b[38;5;199mlong line\x1b[0m \x1b[1mof text\x1b[0m",
];

fn fit_lines(ch: &mut Ch) {
    let mut s = String::new();
    let n = tier(3, 4);
    for k in 0..n {
        s.push_str(ch.pick(&LINES));
        s.push_str(if k + 1 == n { ["", "\n", "\r\n"][ch.choose(3)] } else { ["\n", "\r\n"][ch.choose(2)] });
    }
    ch.note(|| format!("{s:?}"));
    check_fit(ch, &s);
}

fn fit_msg(ch: &mut Ch) {
    let mut m = Msg::from(*ch.pick(&LINES));
    match ch.choose(4) { 0 => {}, 1 => m.set_prefix(fyi_msg::MsgKind::Error), 2 => m.set_prefix("漢"), _ => m.set_prefix(("Nämé", 200)) }
    m.set_suffix(ch.pick(&LINES));
    m.set_indent(ch.choose(2) as u8);
    m.set_newline(ch.flag());
    if ch.flag() { m.set_timestamp(true); }
    ch.note(|| format!("{:?}", m.as_str()));
    let s = m.as_str().to_owned();
    for w in (0..80).chain([s.len() - s.len().min(1), s.len(), usize::MAX]) {
        let got = m.fitted(w);
        ch.step(&(w, s.len(), &*got));
        if w > 0 && got != model::fit(&s, w) { ch.fail(|| format!("fitted({w}) of {s:?}: got {got:?}")); return; }
        if got != fit_to_width(&s, w) { ch.fail(|| format!("fitted({w}) differs from fit_to_width for {s:?}")); return; }
    }
    ch.eq("message", m.as_str(), s.as_str());
}

fn check_width(ch: &mut Ch, s: &str) {
    let total = model::width(s);
    let got = width(s);
    ch.step(&(s, got));
    if got != total { ch.fail(|| format!("width({s:?}): got {got}, expected {total}")); return; }
    let toks = model::tokens(s);
    for w in (0..=total + 1).chain([usize::MAX]) {
        let n = length_width(s, w);
        ch.step(&(w, n));
        if w >= total {
            if n != s.len() { ch.fail(|| format!("length_width({s:?}, {w}): got {n}, but all {} fit", s.len())); return; }
            continue;
        }
        if ! s.is_char_boundary(n) { ch.fail(|| format!("length_width({s:?}, {w}): {n} is not a boundary")); return; }
        // Find the cut: it has to be right before a visible character that doesn't fit.
        let (mut pos, mut used, mut ok) = (0, 0, false);
        for t in &toks {
            match t {
                Tok::Seq(q) => pos += q.len(),
                Tok::Ch(c) => {
                    // (The longest that fits: any sequences in between are kept.)
                    if used + model::cw(*c) > w { ok = n == pos; break; }
                    used += model::cw(*c);
                    pos += c.len_utf8();
                },
            }
        }
        if ! ok { ch.fail(|| format!("length_width({s:?}, {w}): got {n}")); return; }
        if model::width(&s[..n]) > w { ch.fail(|| format!("length_width({s:?}, {w}): {n} is too wide")); return; }
    }
}

fn widths(ch: &mut Ch) {
    let s = token_string(ch, tier(5, 6));
    ch.note(|| format!("{s:?}"));
    check_width(ch, &s);
}

fn chars(ch: &mut Ch) {
    let hi = ch.choose(0x1100) as u32;
    let mut c = hi << 8;
    while c < (hi + 1) << 8 {
        if let Some(x) = char::from_u32(c) {
            for s in [format!("{x}"), format!("{x}{x}a"), format!("a\x1b]{x}\x07b"), format!("a\x1b[{x}m{x}")] {
                check_width(ch, &s);
                if unsafe { crate::THOROUGH } || c % 3 == 0 { check_fit(ch, &s); }
            }
            if ch.failed() { ch.note(|| format!("U+{c:04X}")); return; }
        }
        c += 1;
    }
}

fn fit_chars(ch: &mut Ch) {
    let hi = ch.choose(0x1100) as u32;
    for c in (hi << 8)..((hi + 1) << 8) {
        let Some(x) = char::from_u32(c) else { continue; };
        for s in [format!("a{x}{x}b\x1b]{x}\x07\x1b[{x}m\n"), format!("{x}\x1b]t{x}\x1b\\b{x}{x}\r\n{x}\x1b{x}c"), format!("ab{x}"), format!("{x}a{x}\n{x}{x}")] {
            for w in [1, 2, 3, s.len() - 1] {
                let (got, want) = (fit_to_width(&s, w), model::fit(&s, w));
                ch.step(&(w, &*got));
                if got != want { ch.fail(|| format!("fit_to_width({s:?}, {w}): got {got:?}, expected {want:?}")); return; }
            }
        }
    }
}

/// A long line: its text, and how wide it is.
fn long_line(ch: &mut Ch) -> (String, usize) {
    let n = *ch.pick(&[127_usize, 254, 255, 256, 257, 511, 65_535, 65_536]);
    let c = *ch.pick(&["x", "é", "漢", "e\u{301}"]);
    let mut s = c.repeat(n);
    match ch.choose(8) {
        0 => {},
        1 => s.insert_str(0, "\x1b[1m"),
        2 => s.insert_str(c.len() * (n - 2), "\x1b]0;ö\x1b\\"),
        3 => s.push_str("\x1b[0m"),
        // Long or many sequences.
        4 => s.insert_str(c.len(), &format!("\x1b[{}m", "1;".repeat(n))),
        5 => s.insert_str(c.len() * (n - 1), &format!("\x1b]8;;{}\x07", "x".repeat(n))),
        6 => s.insert_str(0, &"\x1b[1m".repeat(n.min(3_000))),
        _ => s.push_str(&"\x1b[0m".repeat(n.min(3_000))),
    }
    (s, n * model::width(c))
}

fn near(w: usize) -> impl Iterator<Item = usize> { [1, 2, 127, 128, 255, 256, 257].into_iter().chain(w.saturating_sub(3)..w + 3).chain([w / 2, w / 2 + 1]) }

fn fit_long(ch: &mut Ch) {
    let mut s = String::new();
    for _ in 0..ch.choose(3) { s.push_str("漢x\x1b[1m\n"); }
    let (l, n) = long_line(ch);
    s.push_str(&l);
    if ch.flag() { s.push_str("\nlast"); }
    ch.note(|| format!("{} bytes, {n} columns", s.len()));
    for w in near(n) {
        let (got, want) = (fit_to_width(&s, w), model::fit(&s, w));
        ch.step(&(w, &*got));
        if got != want { ch.fail(|| format!("fit_to_width(…, {w}): got {} bytes, expected {}", got.len(), want.len())); return; }
    }
}

fn width_long(ch: &mut Ch) {
    let (s, n) = long_line(ch);
    ch.note(|| format!("{} bytes, {n} columns", s.len()));
    ch.eq("width", &width(&s), &n);
    for w in near(n) {
        let len = length_width(&s, w);
        ch.step(&(w, len));
        if w >= n { ch.eq("everything fits", &len, &s.len()); continue; }
        if ! s.is_char_boundary(len) || model::width(&s[..len]) > w { ch.fail(|| format!("length_width(…, {w}): got {len}")); return; }
        let rest = model::visible(&s[len..]);
        let next = rest.chars().map(model::cw).find(|v| *v > 0).unwrap_or(0);
        if ! matches!(model::tokens(&s[len..]).first(), Some(Tok::Ch(c)) if model::cw(*c) > 0) { ch.fail(|| format!("length_width(…, {w}): got {len}, which isn't the longest")); return; }
        if model::width(&s[..len]) + next <= w { ch.fail(|| format!("length_width(…, {w}): got {len}, but more fits")); return; }
    }
}
