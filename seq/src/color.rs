//! Colours and kinds: A02, K01.
use crate::explore::Ch;
use crate::model;
#[cfg(feature = "full")] use crate::tier;
use crate::Test;
use fyi_msg::{AnsiColor, MsgKind};
use std::hash::{Hash, Hasher};

pub fn tests() -> Vec<Test> {
    let mut v = vec![
        Test { prop: "A02", name: "colors", body: colors, bounds: "all 256 colours".into() },
        Test { prop: "A02", name: "color-pairs", body: color_pairs, bounds: "all 65,536 ordered pairs".into() },
        Test { prop: "A02", name: "names", body: names, bounds: "all named colours".into() },
        Test { prop: "K01", name: "kinds", body: kinds, bounds: "all kinds".into() },
    ];
    #[cfg(feature = "full")]
    v.extend([
        Test { prop: "K01", name: "commands", body: commands, bounds: "every command name with every single-character deletion, duplication, case change, substitution, truncation, concatenation and padding".into() },
        Test { prop: "K01", name: "short-strings", body: short_strings, bounds: format!("all byte strings up to length {} over 14 bytes", tier(4, 6)) },
        Test { prop: "K01", name: "words", body: words, bounds: format!("each of {} words from the sources (and some others) in 5 forms, alone or after a command name", crate::words::words().len()) },
        Test { prop: "K01", name: "letters", body: letters, bounds: format!("all strings of up to {} lowercase letters", tier(4, 5)) },
        Test { prop: "K01", name: "two-bytes", body: two_bytes, bounds: "all byte strings of length 0 to 2, and every name with any one byte before or after".into() },
    ]);
    v
}

fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = std::hash::DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

fn colors(ch: &mut Ch) {
    let n = ch.choose(256) as u8;
    let c = AnsiColor::from_u8(n);
    ch.note(|| format!("colour {n} is {c:?}"));
    let want = format!("\x1b[{}m", model::color_code(n));
    ch.step(c.as_str());
    ch.eq("as_str", c.as_str(), want.as_str());
    ch.eq("display", &c.to_string(), &want);
    ch.eq("padded display", &format!("{c:>30}"), &format!("{want:>30}"));
    ch.eq("from", &AnsiColor::from(n), &c);
    ch.eq("as u8", &(c as u8), &n);
    ch.check(c == n && n == c && ! (c != n) && ! (n != c), || "comparison with own number".into());
    ch.eq("bold", fyi_msg::Msg::new(("x", c), "").as_str(), format!("\x1b[1;{}mx:\x1b[0m ", model::color_code(n)).as_str());
    ch.eq("reset", AnsiColor::RESET, "\x1b[0m");
}

fn color_pairs(ch: &mut Ch) {
    let (a, b) = (ch.choose(256) as u8, ch.choose(256) as u8);
    let (x, y) = (AnsiColor::from_u8(a), AnsiColor::from_u8(b));
    ch.step(&(a, b));
    ch.note(|| format!("{x:?} against {y:?}"));
    let eq = a == b;
    ch.eq("==", &(x == y), &eq);
    ch.eq("== number", &(x == b), &eq);
    ch.eq("number ==", &(a == y), &eq);
    ch.eq("!= number", &(x != b), &! eq);
    ch.eq("cmp", &x.cmp(&y), &a.cmp(&b));
    ch.eq("partial_cmp", &x.partial_cmp(&y), &a.partial_cmp(&b));
    ch.eq("hash", &(hash(&x) == hash(&y)), &eq);
    ch.eq("hash of number", &hash(&x), &hash(&a));
    ch.eq("text", &(x.as_str() == y.as_str()), &eq);
}

macro_rules! named { ($($n:ident $c:literal),+ $(,)?) => (&[$((stringify!($n), AnsiColor::$n, $c)),+]) }
const NAMED: &[(&str, AnsiColor, u8)] = named!(
    Black 0, Red 1, Green 2, Yellow 3, Blue 4, Magenta 5, Cyan 6, LightGrey 7, DarkGrey 8, LightRed 9, LightGreen 10,
    LightYellow 11, LightBlue 12, LightMagenta 13, LightCyan 14, White 15, NavyBlue 17, DarkBlue 18, DarkGreen 22, DarkCyan 36,
    LightSeaGreen 37, DarkTurquoise 44, MediumSpringGreen 49, BlueViolet 57, RoyalBlue 63, SteelBlue 67, CornflowerBlue 69,
    MediumTurquoise 80, MediumPurple 104, LightSlateGrey 103, LightSlateBlue 105, DarkSeaGreen 108,
    MediumVioletRed 126, DarkGoldenrod 136, RosyBrown 138, DarkKhaki 143, LightSteelBlue 147, GreenYellow 154, Orchid 170, Violet 177,
    Tan 180, Honeydew 194, OrangeRed 201, DarkOrange 208, Salmon 209, LightCoral 210, SandyBrown 215, Cornsilk 230,
);

fn names(ch: &mut Ch) {
    let (name, c, n) = *ch.pick(NAMED);
    ch.note(|| name.to_string());
    ch.step(name);
    ch.eq("number", &(c as u8), &n);
    ch.eq("from number", &AnsiColor::from_u8(n), &c);
}

fn kinds(ch: &mut Ch) {
    let i = ch.choose(MsgKind::ALL.len());
    let k = MsgKind::ALL[i];
    ch.step(&k);
    ch.note(|| format!("{k:?}"));
    ch.eq("default", &MsgKind::default(), &MsgKind::None);
    ch.eq("number of kinds", &MsgKind::ALL.len(), &(if cfg!(feature = "full") { 17 } else { 15 }));
    ch.eq("positions", &MsgKind::ALL.iter().filter(|o| **o == k).count(), &1);
    for (n, _) in model::KINDS { ch.check(MsgKind::ALL.iter().any(|k| k.as_str() == n), || format!("{n} is missing")); }
    let name = format!("{k:?}");
    let known = model::KINDS.iter().find(|(n, _)| *n == name);
    match known {
        Some((n, c)) => {
            ch.eq("as_str", k.as_str(), *n);
            ch.eq("display", &k.to_string(), &n.to_string());
            ch.eq("is_empty", &k.is_empty(), &false);
            ch.eq("prefix_color", &k.prefix_color(), &Some(AnsiColor::from(*c)));
            ch.eq("prefix", k.into_msg("").as_str(), model::prefix(n, Some(*c)).as_str());
            ch.eq("same as a custom one", &k.into_msg("x"), &fyi_msg::Msg::new((*n, *c), "x"));
        },
        None => {
            ch.check(matches!(name.as_str(), "None" | "Blank" | "Custom"), || format!("unknown kind {name}"));
            ch.eq("as_str", k.as_str(), "");
            ch.eq("display", &k.to_string(), &String::new());
            ch.eq("is_empty", &k.is_empty(), &true);
            ch.eq("prefix_color", &k.prefix_color(), &None);
            ch.eq("prefix", k.into_msg("x").as_str(), "x");
        },
    }
    ch.eq("padded display", &format!("{k:>12}|"), &format!("{:>12}|", k.as_str()));
    #[cfg(feature = "full")] {
        let want = match k { MsgKind::None => "", MsgKind::Custom => "print", _ => COMMANDS.iter().find(|(_, n)| *n == name).expect("command").0 };
        ch.eq("command", k.command(), want);
        ch.eq("round trip", &MsgKind::from(k.command().as_bytes()), &k);
    }
}

#[cfg(feature = "full")]
const COMMANDS: [(&str, &str); 17] = [
    ("aborted", "Aborted"), ("blank", "Blank"), ("confirm", "Confirm"), ("prompt", "Confirm"), ("crunched", "Crunched"), ("debug", "Debug"),
    ("done", "Done"), ("error", "Error"), ("found", "Found"), ("info", "Info"), ("notice", "Notice"), ("print", "Custom"),
    ("review", "Review"), ("skipped", "Skipped"), ("success", "Success"), ("task", "Task"), ("warning", "Warning"),
];

#[cfg(feature = "full")]
fn lookup(ch: &mut Ch, s: &[u8]) {
    // Surrounding ASCII whitespace (space, \t, \n, \x0c, \r) is ignored.
    let ws = |b: &u8| matches!(b, b' ' | b'\t' | b'\n' | 12 | b'\r');
    let i = s.iter().position(|b| ! ws(b)).unwrap_or(s.len());
    let j = s.iter().rposition(|b| ! ws(b)).map_or(i, |j| j + 1);
    let want = COMMANDS.iter().find(|(n, _)| n.as_bytes() == &s[i..j]).map_or("None", |(_, k)| k);
    let got = MsgKind::from(s);
    ch.step(s);
    ch.note(|| format!("{:?} is {got:?}", String::from_utf8_lossy(s)));
    ch.eq("kind", &format!("{got:?}"), &want.to_owned());
}

#[cfg(feature = "full")]
fn commands(ch: &mut Ch) {
    let (name, _) = *ch.pick(&COMMANDS);
    let n = name.len();
    let mut s = name.as_bytes().to_vec();
    match ch.choose(9) {
        0 => {},
        1 => { let i = ch.choose(n); s.remove(i); },
        2 => { let i = ch.choose(n); s.insert(i, s[i]); },
        3 => { let i = ch.choose(n); s[i] = s[i].to_ascii_uppercase(); },
        4 => { let i = ch.choose(n); s[i] = ch.choose(256) as u8; },
        5 => { let i = ch.choose(n + 1); s.truncate(i); },
        6 => { let (o, _) = *ch.pick(&COMMANDS); if ch.flag() { s.push(b' '); } s.extend_from_slice(o.as_bytes()); },
        7 => {
            let pads: [&[u8]; 11] = [b" ", b"\t", b"\n", b"\r", b"\x0c", b"  \t", b"\x0b", b"\xc2\xa0", b"\0", b"-", b"\xe2\x80\x83"];
            let a = *ch.pick(&pads);
            let b = *ch.pick(&pads);
            match ch.choose(3) {
                0 => { s = [a, &s].concat(); },
                1 => { s = [&s, b].concat(); },
                _ => { s = [a, &s, b].concat(); },
            }
        },
        _ => { let i = ch.choose(n + 1); let (o, _) = *ch.pick(&COMMANDS); let j = ch.choose(o.len()); s.truncate(i); s.extend_from_slice(&o.as_bytes()[j..]); },
    }
    lookup(ch, &s);
}

#[cfg(feature = "full")]
fn short_strings(ch: &mut Ch) {
    let abc = b"done taskprifm";
    let mut s = Vec::new();
    for _ in 0..tier(4, 6) {
        let k = ch.choose(abc.len() + 1);
        if k == 0 { break; }
        s.push(abc[k - 1]);
    }
    lookup(ch, &s);
}

#[cfg(feature = "full")]
fn words(ch: &mut Ch) {
    let w = ch.pick(crate::words::words()).as_bytes();
    let mut s = match ch.choose(5) {
        0 => w.to_vec(),
        1 => w.to_ascii_uppercase(),
        2 => [b" ", w, b"\r\n"].concat(),
        3 => [&w[..w.len() - 1], b"\0"].concat(),
        _ => [w, b"s"].concat(),
    };
    if ch.flag() {
        let (n, _) = *ch.pick(&COMMANDS);
        s = [n.as_bytes(), [&b" "[..], b"-", b"\t", b""][ch.choose(4)], &s].concat();
    }
    lookup(ch, &s);
}

#[cfg(feature = "full")]
fn letters(ch: &mut Ch) {
    let mut s = Vec::new();
    for _ in 0..tier(4, 5) {
        let k = ch.choose(27);
        if k == 0 { break; }
        s.push(b'a' + k as u8 - 1);
    }
    lookup(ch, &s);
}

#[cfg(feature = "full")]
fn two_bytes(ch: &mut Ch) {
    match ch.choose(3) {
        0 => { let mut s = vec![]; for _ in 0..2 { let k = ch.choose(257); if k == 0 { break; } s.push((k - 1) as u8); } lookup(ch, &s); },
        1 => { let (n, _) = *ch.pick(&COMMANDS); let s = [&[ch.choose(256) as u8], n.as_bytes()].concat(); lookup(ch, &s); },
        _ => { let (n, _) = *ch.pick(&COMMANDS); let s = [n.as_bytes(), &[ch.choose(256) as u8]].concat(); lookup(ch, &s); },
    }
}
