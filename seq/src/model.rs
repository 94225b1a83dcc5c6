//! Independent reference definitions.
use unicode_width::UnicodeWidthChar;

/// A piece of text: a whole escape sequence, or one ordinary character.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Tok { Seq(String), Ch(char) }

/// Split text into CSI/OSC sequences and everything else, in one pass.
pub fn tokens(s: &str) -> Vec<Tok> {
    let c: Vec<char> = s.chars().collect();
    let mut out = Vec::new();
    let mut i = 0;
    while i < c.len() {
        let j = seq_end(&c, i);
        if j == i { out.push(Tok::Ch(c[i])); i += 1; }
        else { out.push(Tok::Seq(c[i..j].iter().collect())); i = j; }
    }
    out
}

/// If a sequence starts at `i`, where it ends (exclusive); `i` otherwise.
fn seq_end(c: &[char], i: usize) -> usize {
    if c[i] != '\u{1b}' { return i; }
    match c.get(i + 1) {
        Some('[') => {
            // Up to and including a final byte.
            let mut j = i + 2;
            while j < c.len() {
                if ('@'..='~').contains(&c[j]) { return j + 1; }
                j += 1;
            }
            j
        },
        Some(']') => {
            let mut j = i + 2;
            while j < c.len() {
                if c[j] == '\u{7}' || c[j] == 'œ' { return j + 1; }
                if c[j] == '\u{1b}' && c.get(j + 1) == Some(&'\\') { return j + 2; }
                j += 1;
            }
            j
        },
        _ => i,
    }
}

pub fn has_seq(s: &str) -> bool { tokens(s).iter().any(|t| matches!(t, Tok::Seq(_))) }

/// One pass of removal.
pub fn visible(s: &str) -> String {
    tokens(s).into_iter().filter_map(|t| if let Tok::Ch(c) = t { Some(c) } else { None }).collect()
}

/// Is `got` an acceptable result of removing every sequence from `s`?
///
/// Ordinarily that's the text without its sequences. But when what's left
/// forms new sequences, those have to go too; the order in which they are
/// dealt with is nobody's business.
pub fn strip_ok(s: &str, got: &str) -> bool {
    let once = visible(s);
    if ! has_seq(&once) { return got == once; }
    let mut seen = std::collections::HashSet::new();
    let mut todo = vec![s.to_owned(), once];
    while let Some(t) = todo.pop() {
        if ! seen.insert(t.clone()) { continue; }
        if t == got && ! has_seq(&t) { return true; }
        let c: Vec<char> = t.chars().collect();
        for i in 0..c.len() {
            let j = seq_end(&c, i);
            if j != i { todo.push(c[..i].iter().chain(&c[j..]).collect()); }
        }
    }
    false
}

pub fn cw(c: char) -> usize { c.width().unwrap_or(0) }

/// The display width.
pub fn width(s: &str) -> usize { visible(s).chars().map(cw).sum() }

/// One line (without its break) cut to a width.
fn fit_body(s: &str, w: usize) -> String {
    let mut out = String::new();
    let mut used = 0;
    let mut full = false;
    for t in tokens(s) {
        match t {
            Tok::Seq(q) => out.push_str(&q),
            Tok::Ch(c) => if ! full {
                if used + cw(c) <= w { used += cw(c); out.push(c); }
                else { full = true; }
            },
        }
    }
    out
}

/// Text with every line cut to a width.
pub fn fit(s: &str, w: usize) -> String {
    let mut out = String::new();
    for line in s.split_inclusive('\n') {
        let (body, end) =
            if let Some(b) = line.strip_suffix("\r\n") { (b, "\r\n") }
            else if let Some(b) = line.strip_suffix('\n') { (b, "\n") }
            else { (line, "") };
        out.push_str(&fit_body(body, w));
        out.push_str(end);
    }
    out
}

/// Colour code (without the `CSI` and `m`).
pub fn color_code(n: u8) -> String {
    match n {
        0..=7 => (30 + u32::from(n)).to_string(),
        8..=15 => (82 + u32::from(n)).to_string(),
        _ => format!("38;5;{n}"),
    }
}

/// A custom prefix.
pub fn prefix(text: &str, color: Option<u8>) -> String {
    if text.is_empty() { return String::new(); }
    match color {
        None => format!("{text}: "),
        Some(c) => format!("\x1b[1;{}m{text}:\x1b[0m ", color_code(c)),
    }
}

/// All labelled kinds: name, colour.
pub const KINDS: [(&str, u8); 14] = [
    ("Aborted", 9), ("Confirm", 208), ("Crunched", 10), ("Debug", 14), ("Done", 10), ("Error", 9),
    ("Found", 10), ("Info", 13), ("Notice", 13), ("Review", 14), ("Skipped", 11), ("Success", 10),
    ("Task", 199), ("Warning", 11),
];

/// Proleptic Gregorian date and time.
pub fn datetime(t: i64) -> String {
    let (days, sec) = (t.div_euclid(86_400), t.rem_euclid(86_400));
    let mut y = 1970;
    let mut d = days;
    let leap = |y: i64| (y % 4 == 0 && y % 100 != 0) || y % 400 == 0;
    loop {
        let n = if leap(y) { 366 } else { 365 };
        if d < 0 { y -= 1; d += if leap(y) { 366 } else { 365 }; }
        else if d >= n { d -= n; y += 1; }
        else { break; }
    }
    let mut m = 0;
    let lens = [31, if leap(y) { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    while d >= lens[m] { d -= lens[m]; m += 1; }
    format!("{y:04}-{:02}-{:02} {:02}:{:02}:{:02}", m + 1, d + 1, sec / 3600, sec / 60 % 60, sec % 60)
}

pub fn timestamp(local: i64) -> String {
    format!("\x1b[2m[\x1b[0;34m{}\x1b[0;2m]\x1b[0m ", datetime(local))
}

/// With thousands separators.
pub fn nice(n: u64) -> String {
    let s = n.to_string();
    let mut out = String::new();
    for (i, c) in s.chars().enumerate() {
        if i > 0 && (s.len() - i) % 3 == 0 { out.push(','); }
        out.push(c);
    }
    out
}

/// The parts of a message.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Parts { pub indent: usize, pub time: String, pub prefix: String, pub msg: String, pub suffix: String, pub newline: bool }
impl Parts {
    pub fn text(&self) -> String {
        format!("{}{}{}{}{}{}", " ".repeat(4 * self.indent.min(8)), self.time, self.prefix, self.msg, self.suffix, if self.newline { "\n" } else { "" })
    }
}
