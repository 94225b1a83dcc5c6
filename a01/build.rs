//! Writes out one use of each macro per keyword (combination), next to the
//! codes it should expand to. The codes are listed here independently.
use std::fmt::Write;

const NAMES: [(&str, u8); 48] = [
    ("black", 0), ("red", 1), ("green", 2), ("yellow", 3), ("blue", 4), ("magenta", 5), ("cyan", 6), ("light_grey", 7), ("dark_grey", 8),
    ("light_red", 9), ("light_green", 10), ("light_yellow", 11), ("light_blue", 12), ("light_magenta", 13), ("light_cyan", 14), ("white", 15),
    ("navy_blue", 17), ("dark_blue", 18), ("dark_green", 22), ("dark_cyan", 36), ("light_sea_green", 37), ("dark_turquoise", 44),
    ("medium_spring_green", 49), ("blue_violet", 57), ("royal_blue", 63), ("steel_blue", 67), ("cornflower_blue", 69), ("medium_turquoise", 80),
    ("light_slate_grey", 103), ("medium_purple", 104), ("light_slate_blue", 105), ("dark_sea_green", 108), ("medium_violet_red", 126),
    ("dark_goldenrod", 136), ("rosy_brown", 138), ("dark_khaki", 143), ("light_steel_blue", 147), ("green_yellow", 154), ("orchid", 170),
    ("violet", 177), ("tan", 180), ("honeydew", 194), ("orange_red", 201), ("dark_orange", 208), ("salmon", 209), ("light_coral", 210),
    ("sandy_brown", 215), ("cornsilk", 230),
];

fn color(n: u8) -> String {
    match n { 0..=7 => format!("{}", 30 + n), 8..=15 => format!("{}", 90 + n - 8), _ => format!("38;5;{n}") }
}

fn main() {
    let mut all: Vec<(String, String)> = [
        ("reset", "0"), ("!reset", "0"), ("!fg", "39"), ("bold", "1"), ("!bold", "21"), ("dim", "2"), ("!dim", "22"), ("italic", "3"), ("!italic", "23"),
        ("underline", "4"), ("!underline", "24"), ("blink", "5"), ("!blink", "25"), ("strike", "9"), ("!strike", "29"),
    ].map(|(a, b)| (a.to_string(), b.to_string())).into();
    let styles = all.len();
    for (n, c) in NAMES {
        all.push((n.into(), color(c)));
        all.push((format!("!{n}"), "39".into()));
    }
    for n in 0..=255 {
        all.push((n.to_string(), color(n)));
        all.push((format!("!{n}"), "39".into()));
    }
    let mut o = String::from("pub const EXPANSIONS: u64 = @@;\npub const TABLE: &[(&str, &str, &str)] = &[\n");
    let mut n = 0;
    let mut add = |list: &[&(String, String)]| {
        let k = list.iter().map(|l| l.0.as_str()).collect::<Vec<_>>().join(", ");
        n += 2 * list.len() + usize::from(list.len() == 1);
        let c = list.iter().map(|l| l.1.as_str()).collect::<Vec<_>>().join(";");
        writeln!(o, "({:?}, csi!({k}), \"\\x1b[{c}m\"),", format!("csi!({k})")).unwrap();
        if list.len() == 1 {
            writeln!(o, "({:?}, ansi!(({k}) \"x\"), \"\\x1b[{c}mx\\x1b[0m\"),", format!("ansi!(({k}) \"x\")")).unwrap();
            writeln!(o, "({:?}, ansi!(({k}) \"x\", 1, \"é\",), \"\\x1b[{c}mx1é\\x1b[0m\"),", format!("ansi!(({k}) \"x\", 1, \"é\",)")).unwrap();
        } else {
            writeln!(o, "({:?}, ansi!(({k}) \"a\", \"b\"), \"\\x1b[{c}mab\\x1b[0m\"),", format!("ansi!(({k}) \"a\", \"b\")")).unwrap();
        }
    };
    for a in &all { add(&[a]); }
    // All pairs and triples of representatives.
    let pick = |k: &str| all.iter().find(|a| a.0 == k).unwrap();
    let mut reps: Vec<_> = all[..styles].iter().collect();
    reps.extend(["red", "!light_red", "dark_orange", "0", "15", "16", "!255", "9", "100"].map(pick));
    for a in &reps { for b in &reps { add(&[a, b]); } }
    let few = ["reset", "bold", "!bold", "!fg", "dim", "199", "!9", "light_cyan"].map(pick);
    for a in &few { for b in &few { for c in &few { add(&[a, b, c]); } } }
    let s = ["blink", "!dim", "7", "salmon"].map(pick);
    for a in &s { for b in &s { for c in &s { for d in &s { add(&[a, b, c, d]); } } } }
    add(&all[..styles].iter().collect::<Vec<_>>());
    // Shortcuts.
    for (m, c) in [("blink", 5), ("bold", 1), ("dim", 2), ("italic", 3), ("strike", 9), ("underline", 4)] {
        for (args, text) in [
            ("\"\"", ""), ("\"a\"", "a"), ("\"a\",", "a"), ("\"a\", \"b\"", "ab"), ("\"a\", 5, 'c'", "a5c"), ("\"é\", csi!(), \"漢\",", "é\x1b[0m漢"),
            ("bold!(\"n\"), \"o\"", "\x1b[1mn\x1b[0mo"), ("csi!(!199, bold), \"x\", ansi!((red) \"y\")", "\x1b[39;1mx\x1b[31my\x1b[0m"),
        ] {
            writeln!(o, "({:?}, {m}!({args}), {:?}),", format!("{m}!({args})"), format!("\x1b[{c}m{text}\x1b[0m")).unwrap();
            writeln!(o, "({:?}, ansi!(({m}) {args}), {:?}),", format!("ansi!(({m}) {args})"), format!("\x1b[{c}m{text}\x1b[0m")).unwrap();
        }
    }
    o.push_str("(\"csi!()\", csi!(), \"\\x1b[0m\"),\n(\"concat\", concat!(csi!(bold), 1, csi!()), \"\\x1b[1m1\\x1b[0m\"),\n];\n");
    let o = o.replacen("@@", &(n + 97).to_string(), 1);
    std::fs::write(std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("table.rs"), o).unwrap();
    println!("cargo:rerun-if-changed=build.rs");
}
