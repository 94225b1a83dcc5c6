//! A small terminal.
use unicode_width::UnicodeWidthChar;

#[derive(Clone)]
pub struct Screen {
    /// Columns and rows (no limits where zero).
    pub w: usize,
    pub h: usize,
    /// Everything ever shown, scrolled-off lines included.
    pub rows: Vec<Vec<char>>,
    pub r: usize,
    pub c: usize,
    top: usize,
    pub cursor: bool,
    /// Lines continued on the next row for lack of space.
    pub wraps: usize,
    pub scrolls: usize,
    pub odd: Option<String>,
    /// Rows printed over that had something on them before.
    pub overwritten: usize,
    pend: Vec<u8>,
}

impl Screen {
    pub fn new(w: usize, h: usize) -> Self {
        Self { w, h, rows: vec![vec![]], r: 0, c: 0, top: 0, cursor: true, wraps: 0, scrolls: 0, odd: None, overwritten: 0, pend: Vec::new() }
    }
    fn newline(&mut self) {
        self.r += 1;
        if self.r == self.rows.len() { self.rows.push(vec![]); }
        if self.h != 0 && self.r >= self.top + self.h { self.top += 1; self.scrolls += 1; }
    }
    fn put(&mut self, c: char) {
        match c {
            '\n' => { self.newline(); self.c = 0; return; },
            '\r' => { self.c = 0; return; },
            _ => {},
        }
        if c.is_control() { if self.odd.is_none() { self.odd = Some(format!("control character {c:?}")); } return; }
        let n = c.width().unwrap_or(0);
        if n == 0 { return; }
        if self.w != 0 && self.c + n > self.w { self.newline(); self.c = 0; self.wraps += 1; }
        let row = &mut self.rows[self.r];
        while row.len() < self.c + n { row.push(' '); }
        if row[self.c] != ' ' { self.overwritten += 1; }
        row[self.c] = c;
        if n == 2 { row[self.c + 1] = '\0'; }
        self.c += n;
    }
    fn erase_below(&mut self) {
        self.rows[self.r].truncate(self.c);
        self.rows.truncate(self.r + 1);
    }
    pub fn feed(&mut self, data: &[u8]) {
        for &b in data {
            self.pend.push(b);
            if self.pend[0] == 0x1b {
                let n = self.pend.len();
                if n == 1 { continue; }
                if self.pend[1] == b']' {
                    // Links and such.
                    if b == 0x07 || (b == b'\\' && self.pend[n - 2] == 0x1b) { self.pend.clear(); }
                    else if b == b'\n' || b == b'\r' { self.strange(); }
                    continue;
                }
                if self.pend[1] != b'[' { self.strange(); continue; }
                if n == 2 { continue; }
                if ! (0x40..=0x7e).contains(&b) { continue; }
                let p = String::from_utf8_lossy(&self.pend[2..n - 1]).into_owned();
                match (b, p.as_str()) {
                    (b'm', _) => {},
                    (b'J', "" | "0") => self.erase_below(),
                    (b'A', _) => {
                        let k: usize = if p.is_empty() { 1 } else { p.parse().unwrap_or(0).max(1) };
                        self.r = self.r.saturating_sub(k).max(self.top);
                    },
                    (b'K', "" | "0") => { let c = self.c; self.rows[self.r].truncate(c); },
                    (b'K', "2") => self.rows[self.r].clear(),
                    (b'G', "" | "1") => self.c = 0,
                    (b'F', _) => { self.r = self.r.saturating_sub(p.parse().unwrap_or(1).max(1)).max(self.top); self.c = 0; },
                    (b'l', "?25") => self.cursor = false,
                    (b'h', "?25") => self.cursor = true,
                    _ => { self.strange(); continue; },
                }
                self.pend.clear();
            }
            else {
                match std::str::from_utf8(&self.pend) {
                    Ok(s) => { let c = s.chars().next().unwrap(); self.pend.clear(); self.put(c); },
                    Err(e) if e.error_len().is_none() => {},
                    Err(_) => self.strange(),
                }
            }
        }
    }
    fn strange(&mut self) {
        if self.odd.is_none() { self.odd = Some(format!("unexpected bytes {:?}", String::from_utf8_lossy(&self.pend))); }
        self.pend.clear();
    }
    pub fn incomplete(&self) -> bool { ! self.pend.is_empty() }
    /// Rows as text, without trailing space.
    pub fn text(&self) -> Vec<String> {
        let mut v: Vec<String> = self.rows.iter().map(|r| r.iter().filter(|c| **c != '\0').collect::<String>().trim_end().to_string()).collect();
        while v.last().is_some_and(String::is_empty) { v.pop(); }
        v
    }
}
