//! A dictionary: every literal and identifier in the repository's sources,
//! for inputs nobody would think of otherwise.
use std::collections::BTreeSet;
use std::path::Path;

fn scan(dir: &Path, set: &mut BTreeSet<String>) {
    let Ok(rd) = std::fs::read_dir(dir) else { return; };
    for e in rd.flatten() {
        let p = e.path();
        if p.is_dir() { if p.file_name().is_some_and(|n| n != "target" && n != ".git") { scan(&p, set); } continue; }
        if p.extension().is_none_or(|x| x != "rs") { continue; }
        let Ok(s) = std::fs::read_to_string(&p) else { continue; };
        // Identifiers (and whatever else words are made of).
        for w in s.split(|c: char| ! (c.is_alphanumeric() || c == '_')) {
            if ! w.is_empty() && w.len() <= 12 && ! w.starts_with(|c: char| c.is_ascii_digit()) { set.insert(w.to_lowercase()); }
        }
        // Whatever is between quotes on one line.
        for l in s.lines() {
            if l.trim_start().starts_with("//") { continue; }
            for (i, w) in l.split('"').enumerate() {
                if i % 2 == 1 && ! w.is_empty() && w.len() <= 24 && ! w.contains('\\') && ! w.contains('{') { set.insert(w.to_owned()); }
            }
        }
    }
}

/// The words, sorted.
pub fn words() -> &'static [String] {
    static WORDS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    WORDS.get_or_init(|| {
        let mut set = BTreeSet::new();
        for d in ["fyi/src", "fyi_msg/src", "fyi_ansi/src"] { scan(&Path::new("/repo").join(d), &mut set); }
        // And some that may well occur to somebody.
        for w in ["custom", "none", "warn", "err", "ok", "okay", "notify", "message", "msg", "prompt", "crunch", "fail", "failed", "abort", "skip", "note", "yeah", "yep", "yup", "sure", "nah", "nope", "never", "true", "false", "on", "off", "0", "1", "oui", "ja", "si", "da", "o", "j", "s", "t", "f", "q", "quit", "exit", "cancel", "all", "help", "version", "--", "-", "--yes", "--no", "-y", "-n", "-h", "-V"] { set.insert(w.into()); }
        set.into_iter().collect()
    })
}
