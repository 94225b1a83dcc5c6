//! Timestamps: T01. Every zone runs in its own process (the zone is read once).
use crate::explore::Ch;
use crate::model::{self, Parts};
use crate::{tier, Test};
use fyi_msg::Msg;

pub fn tests() -> Vec<Test> {
    vec![Test { prop: "T01", name: "toggles", body: toggles, bounds: format!("all sequences of {} toggles, clock changes and edits from {} starting times", tier(4, 5), TIMES.len()) }]
}

const TIMES: [i64; 14] = [
    946_771_200, 951_782_399, 951_782_400, 983_404_800, 1_078_012_799, 1_230_768_000 - 1, 1_709_164_799, 1_709_251_199, 1_735_689_599,
    1_741_500_000 - 1, 2_147_483_647, 2_147_483_648, 4_101_580_799, 4_000_000_000,
];

/// The zone's offset: one fixed value, or another one from some moment on.
fn offset(t: i64) -> i64 {
    let z = std::env::var("SEQ_OFFSET").unwrap_or_else(|_| "0".into());
    let mut p = z.split(',').map(|v| v.parse::<i64>().expect("number"));
    let a = p.next().expect("offset");
    match (p.next(), p.next()) { (Some(at), Some(b)) if t >= at => b, _ => a }
}

fn toggles(ch: &mut Ch) {
    let mut now = *ch.pick(&TIMES);
    ch.note(|| format!("clock at {now} (offset {})", offset(now)));
    let mut m = Msg::error("é");
    let mut p = Parts { prefix: model::prefix("Error", Some(9)), msg: "é".into(), newline: true, ..Parts::default() };
    for _ in 0..tier(4, 5) {
        let op = ch.choose(11);
        crate::CLOCK.set(now);
        match op {
            0 => { m.set_timestamp(true); p.time = model::timestamp(now + offset(now)); },
            1 => { m.set_timestamp(false); p.time.clear(); },
            2 => { m = m.with_timestamp(true); p.time = model::timestamp(now + offset(now)); },
            3 => { m = m.with_timestamp(false); p.time.clear(); },
            4 => now += 1,
            5 => now += 86_399,
            6 => { m.set_indent(1); p.indent = 1; },
            7 => { m.set_prefix(""); p.prefix.clear(); },
            8 => { m.set_msg("longer text"); p.msg = "longer text".into(); },
            9 => { m.strip_ansi(); p.time = model::visible(&p.time); p.prefix = model::visible(&p.prefix); },
            _ => { m.set_prefix(("P", 3)); p.prefix = model::prefix("P", Some(3)); },
        }
        crate::CLOCK.set(0);
        ch.note(|| format!("operation {op}: {:?}", m.as_str()));
        ch.step(m.as_str());
        ch.eq("message", m.as_str(), p.text().as_str());
        if ch.failed() { return; }
    }
}
