//! P01: counting.
use crate::explore::{Budget, Test};
use crate::h::{self, *};
use crate::tier;
use fyi_msg::Progless;
use vstd::rt::{self, rt, Ev};

/// Two threads, two operations each.
fn pairs() {
    settle(true);
    let p = Progless::try_from(3_u32).unwrap();
    run(&p, Op::Add("a"));
    if rt::choose(2, rt::FREE) == 1 { run(&p, Op::Set(2)); }
    let ops = [Op::Inc(1), Op::Inc(2), Op::Inc(u32::MAX), Op::Set(0), Op::Set(1), Op::Rem("a"), Op::Finish, Op::Read];
    let i: [usize; 4] = [0; 4].map(|_| rt::choose(ops.len(), rt::FREE));
    // (The other way around is the same, give or take.)
    if i[..2] < i[2..] { return; }
    let (a, b) = ([ops[i[0]], ops[i[1]]], [ops[i[2]], ops[i[3]]]);
    let (p1, p2) = (p.clone(), p.clone());
    let t1 = worker(move || for o in a { run(&p1, o); });
    let t2 = worker(move || for o in b { run(&p2, o); });
    settle(false);
    let _ = t1.join();
    let _ = t2.join();
    settle(true);
    run(&p, Op::Read);
    run(&p, Op::Finish);
    run(&p, Op::Read);
}

/// Three threads, one operation each, then another round by one of them.
fn triples() {
    settle(true);
    let p = Progless::try_from(4_u32).unwrap();
    run(&p, Op::Add("a"));
    run(&p, Op::Add("b"));
    if rt::choose(2, rt::FREE) == 1 { run(&p, Op::Set(2)); }
    let ops = [Op::Inc(1), Op::Inc(3), Op::Set(1), Op::Rem("a"), Op::Rem("b"), Op::Finish, Op::Read, Op::Add("c")];
    let mut hs = Vec::new();
    for i in 0..3 {
        let q = p.clone();
        let op = pick(&ops);
        hs.push(worker(move || { run(&q, op); if i == 0 { run(&q, Op::Read); } }));
    }
    settle(false);
    for t in hs { let _ = t.join(); }
    settle(true);
    run(&p, Op::Read);
    run(&p, Op::Inc(1));
    run(&p, Op::Read);
}

/// Updates while the ticker paints.
fn ticking() {
    settle(true);
    let p = Progless::try_from(3_u32).unwrap();
    run(&p, Op::Add("a"));
    sleep(150);
    let ops = [Op::Inc(1), Op::Inc(3), Op::Set(1), Op::Rem("a")];
    let mut hs = Vec::new();
    for _ in 0..2 {
        let q = p.clone();
        let op = pick(&ops);
        hs.push(worker(move || { sleep(50); run(&q, op); }));
    }
    sleep(49);
    settle(false);
    for t in hs { let _ = t.join(); }
    settle(true);
    run(&p, Op::Read);
    sleep(200);
    run(&p, Op::Read);
}

/// Updates of a run that's being replaced by another.
fn resets() {
    settle(true);
    let p = Progless::try_from(3_u32).unwrap();
    run(&p, Op::Add("a"));
    if rt::choose(2, rt::FREE) == 1 { run(&p, Op::Set(2)); }
    let ops = [Op::Inc(1), Op::Inc(u32::MAX), Op::Set(1), Op::Rem("a"), Op::Add("b"), Op::Finish, Op::Read, Op::Reset(1)];
    let r = pick(&[Op::Reset(1), Op::Reset(3)]);
    let (a, b) = ([pick(&ops), pick(&ops)], pick(&[Op::Nop, Op::Inc(1), Op::Read]));
    let (p1, p2) = (p.clone(), p.clone());
    let t1 = worker(move || for o in a { run(&p1, o); });
    let t2 = worker(move || { run(&p2, r); if b != Op::Nop { run(&p2, b); } });
    settle(false);
    let _ = t1.join();
    let _ = t2.join();
    settle(true);
    run(&p, Op::Read);
    // Still running? (Nobody else knows.)
    let on = p.add("probe");
    unsafe { PARAMS.push(i64::from(on)); }
    run(&p, Op::Finish);
    run(&p, Op::Read);
}

/// Numbers of all sizes, one update after another.
fn numbers() {
    settle(true);
    const N: [u32; 12] = [0, 1, 2, 254, 255, 256, 65_535, 65_536, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1, u32::MAX];
    let total = pick(&N[1..]);
    let p = Progless::try_from(total).unwrap();
    run(&p, Op::Add("a"));
    let mut m = Spec::new(u64::from(total));
    h::apply(&mut m, Op::Add("a"));
    for _ in 0..tier(3, 4) {
        let op = match rt::choose(3, rt::FREE) { 0 => Op::Inc(pick(&N)), 1 => Op::Set(pick(&N)), _ => Op::Rem("a") };
        run(&p, op);
        h::apply(&mut m, op);
        let n = count(&p);
        if n as u64 != m.done { rt::fail(format!("after {op:?} of {total} the count is {n} instead of {}", m.done)); }
    }
    if p.add("probe") != m.running { rt::fail(format!("the run is {} at {} of {total}", if m.running { "over" } else { "still going" }, m.done)); }
    p.finish();
    if count(&p) != i64::from(total) { rt::fail(format!("finished at {} of {total}", count(&p))); }
}

fn resets_ok() -> Result<(), String> {
    // A task is accepted only while running.
    let at = rt().events.iter().rposition(|e| matches!(e, Ev::User { tag: "call", id, .. } if matches!(h::opt(*id), Op::Finish))).unwrap();
    let tail = rt().events.split_off(at);
    let fin = h::linear(Spec::new(3));
    rt().events.extend(tail);
    let on = params(0) == 1;
    let fin = fin?;
    if ! fin.iter().any(|f| f.running == on) { return Err(format!("the run is {}", if on { "still going" } else { "over early" })); }
    h::linear(Spec::new(3)).map(|_| ())
}

fn linearizable(total: u64) -> Result<(), String> {
    let fin = h::linear(Spec::new(total))?;
    // Never too much, on screen either.
    for e in &rt().events {
        if let Ev::User { tag: "ret", id, val, .. } = e {
            if matches!(h::opt(*id), Op::Read) && *val as u64 > total { return Err(format!("{val} of {total} done")); }
        }
    }
    if fin.is_empty() { return Err(String::from("no final state")); }
    Ok(())
}

pub fn tests() -> Vec<Test> {
    vec![
        Test { prop: "P01", name: "pairs", body: pairs, check: || linearizable(3), budget: Budget { total: tier(if crate::SIGINT { 1 } else { 2 }, 3), sched: tier(2, 3), block: 1, fault: 0, signal: 0 },
            bounds: String::from("2 threads × 2 operations out of 8 (increments, sets, task removal, finish, read) from 2 counts, total 3") },
        Test { prop: "P01", name: "triples", body: triples, check: || linearizable(4), budget: Budget { total: tier(2, 4), sched: tier(2, 3), block: 2, fault: 0, signal: 0 },
            bounds: String::from("3 threads × 1 operation out of 8 plus a read, from 2 counts, total 4") },
        Test { prop: "P01", name: "ticking", body: ticking, check: || linearizable(3), budget: Budget { total: tier(3, 4), sched: tier(3, 4), block: 2, fault: 0, signal: 0 },
            bounds: String::from("2 threads × 1 update out of 4 racing with a paint") },
        Test { prop: "P01", name: "numbers", body: numbers, check: || Ok(()), budget: Budget::NONE,
            bounds: format!("11 totals × all sequences of {} updates (increments and sets by 12 numbers of all sizes, removals)", tier(3, 4)) },
        Test { prop: "P01", name: "resets", body: resets, check: resets_ok, budget: Budget { total: tier(if crate::SIGINT { 1 } else { 2 }, 3), sched: tier(2, 3), block: 2, fault: 0, signal: 0 },
            bounds: String::from("a run of two operations out of 8 (from 2 counts) while it is reset to one of two totals and updated or read") },
    ]
}
