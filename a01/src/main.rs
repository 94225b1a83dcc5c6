//! A01: every macro input of the table, against the codes it stands for.
use fyi_ansi::{ansi, blink, bold, csi, dim, italic, strike, underline};
include!(concat!(env!("OUT_DIR"), "/table.rs"));

fn main() {
    let mut distinct: Vec<&str> = TABLE.iter().map(|t| t.1).collect();
    distinct.sort_unstable();
    distinct.dedup();
    let bad = TABLE.iter().position(|(_, got, want)| got != want);
    let samples: Vec<String> = TABLE.iter().step_by(TABLE.len() / 9).map(|t| format!("{:?}", format!("{} = {}", t.0, t.1.escape_debug()))).collect();
    println!("{{\"test\":\"macros\",\"variant\":\"ansi\",\"bounds\":\"every keyword alone, all pairs of 24, all triples of 8, all quadruples of 4, every wrapper with 1-3 contents\",\"runs\":{0},\"edges\":{3},\"steps\":{0},\"states\":{1},\"secs\":0,\"samples\":[{2}]}}",
        TABLE.len(), distinct.len(), samples.join(","), EXPANSIONS);
    if let Some(i) = bad {
        let (what, got, want) = TABLE[i];
        let msg = format!("{what}: got {}, expected {}", got.escape_default(), want.escape_default()).replace('\\', "\\\\").replace('"', "\\\"");
        println!("{{\"violation\":\"{msg}\",\"test\":\"macros\",\"variant\":\"ansi\",\"choices\":[{i}],\"log\":[]}}");
        std::process::exit(1);
    }
}
