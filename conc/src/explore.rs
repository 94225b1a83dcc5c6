//! Depth-first exploration of schedules (and whatever else executions draw
//! from `rt::choose`), bounded by the number of non-default answers.
//!
//! Several processes share a stack of prefixes still to be explored.
use std::collections::HashSet;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::SeqCst};
use std::time::Instant;
use vstd::rt::{self, rt, End, CLASSES};

/// Non-default answers allowed by kind of choice, and altogether.
#[derive(Clone, Copy)]
pub struct Budget { pub total: u32, pub sched: u32, pub block: u32, pub fault: u32, pub signal: u32 }
impl Budget {
    fn of(&self, class: usize) -> u32 {
        match class { rt::FREE => u32::MAX, rt::SCHED => self.sched, rt::BLOCK => self.block, rt::FAULT => self.fault, _ => self.signal }
    }
    pub const NONE: Budget = Budget { total: 0, sched: 0, block: 0, fault: 0, signal: 0 };
    pub fn text(&self) -> String {
        if self.total == 0 { return String::from("run-to-completion schedule"); }
        let mut v = Vec::new();
        if self.sched != 0 { v.push(format!("≤{} preemptions or early timeouts", self.sched)); }
        if self.block != 0 { v.push(format!("≤{} at blocking points", self.block)); }
        if self.fault != 0 { v.push(format!("≤{} write faults", self.fault)); }
        if self.signal != 0 { v.push(format!("≤{} signals/resizes", self.signal)); }
        format!("all executions with ≤{} deviations from the default ({})", self.total, v.join(", "))
    }
}

pub struct Test {
    pub prop: &'static str,
    pub name: &'static str,
    pub body: fn(),
    pub check: fn() -> Result<(), String>,
    pub budget: Budget,
    pub bounds: String,
}

const SLOT: usize = 2000;
const SLOTS: usize = 1 << 15;
const TABLE: usize = 1 << 25;
pub const WORKERS: usize = 8;

#[repr(C)]
struct Slot { len: u16, spent: [u8; CLASSES + 1], p: [u16; SLOT] }

#[repr(C)]
struct Beat { at: AtomicU64, len: AtomicU32, p: [AtomicU32; SLOT] }

#[repr(C)]
struct Shared {
    lock: AtomicBool,
    stop: AtomicBool,
    capped: AtomicBool,
    count: AtomicU64,
    busy: AtomicU64,
    runs: AtomicU64,
    edges: AtomicU64,
    steps: AtomicU64,
    states: AtomicU64,
    diverged: AtomicU64,
    longest: AtomicU64,
    found: AtomicBool,
    known: [AtomicU64; 16],
    found_len: AtomicU32,
    found_p: [AtomicU32; SLOT],
    beats: [Beat; WORKERS],
    slots: [Slot; SLOTS],
    table: [AtomicU64; TABLE],
}

fn map() -> &'static mut Shared {
    unsafe {
        let p = libc::mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
        assert!(p != libc::MAP_FAILED);
        &mut *p.cast::<Shared>()
    }
}

struct Item { p: Vec<u16>, spent: [u8; CLASSES + 1] }

impl Shared {
    fn acquire(&self) { while self.lock.swap(true, SeqCst) { unsafe { libc::sched_yield(); } } }
    fn release(&self) { self.lock.store(false, SeqCst) }
    /// With the lock held.
    fn push(&mut self, it: &Item) -> bool {
        let n = self.count.load(SeqCst) as usize;
        if n >= SLOTS { return false; }
        assert!(it.p.len() <= SLOT, "an execution with too many choices");
        let s = &mut self.slots[n];
        s.len = it.p.len() as u16;
        s.spent = it.spent;
        s.p[..it.p.len()].copy_from_slice(&it.p);
        self.count.store(n as u64 + 1, SeqCst);
        true
    }
    fn pop(&mut self) -> Option<Item> {
        let n = self.count.load(SeqCst) as usize;
        if n == 0 { return None; }
        let s = &self.slots[n - 1];
        let it = Item { p: s.p[..s.len as usize].to_vec(), spent: s.spent };
        self.count.store(n as u64 - 1, SeqCst);
        Some(it)
    }
    fn state(&self, h: u64) {
        let h = h | 1;
        let mut i = (h >> 20) as usize % TABLE;
        for _ in 0..64 {
            let v = self.table[i].load(SeqCst);
            if v == h { return; }
            if v == 0 {
                match self.table[i].compare_exchange(0, h, SeqCst, SeqCst) {
                    Ok(_) => { self.states.fetch_add(1, SeqCst); return; },
                    Err(o) if o == h => return,
                    Err(_) => {},
                }
            }
            i = (i + 1) % TABLE;
        }
    }
}

fn now() -> u64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &raw mut t); }
    t.tv_sec as u64 * 1000 + t.tv_nsec as u64 / 1_000_000
}

fn rss() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|v| v.parse::<u64>().ok())).unwrap_or(0) * 4096
}

/// Run one execution and judge it.
pub fn once(t: &Test, prefix: &[u32], verbose: bool) -> Result<(), String> {
    crate::h::reset();
    rt::execute(prefix, verbose, Box::new(t.body));
    let r = rt();
    match &r.end {
        End::Failed => Err(r.fail.clone().unwrap_or_else(|| format!("panic: {}", r.last_panic))),
        End::Deadlock => Err(String::from("deadlock: every thread waits for another")),
        End::Livelock => Err(format!("no end after {} steps", r.horizon)),
        _ => (t.check)(),
    }
}

enum Done { All, Again }

fn work(t: &Test, sh: &mut Shared, me: usize, known: &[String]) -> Done {
    let mut local: Vec<Item> = Vec::new();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut runs = 0_u64;
    let mut prefix: Vec<u32> = Vec::new();
    loop {
        if sh.stop.load(SeqCst) { return Done::All; }
        let it = match local.pop() {
            Some(it) => it,
            None => {
                sh.acquire();
                match sh.pop() {
                    Some(it) => { sh.busy.fetch_or(1 << me, SeqCst); sh.release(); it },
                    None => {
                        let busy = sh.busy.fetch_and(! (1 << me), SeqCst) & ! (1 << me);
                        sh.release();
                        if busy == 0 { return Done::All; }
                        sh.beats[me].at.store(0, SeqCst);
                        unsafe { libc::usleep(300); }
                        continue;
                    },
                }
            },
        };
        prefix.clear();
        prefix.extend(it.p.iter().map(|c| u32::from(*c)));
        let b = &sh.beats[me];
        b.at.store(0, SeqCst);
        for (i, c) in prefix.iter().enumerate() { b.p[i].store(*c, SeqCst); }
        b.len.store(prefix.len() as u32, SeqCst);
        b.at.store(now(), SeqCst);
        let res = once(t, &prefix, false);
        runs += 1;
        let r = rt();
        sh.runs.fetch_add(1, SeqCst);
        sh.steps.fetch_add(r.steps, SeqCst);
        sh.longest.fetch_max(r.trace.len() as u64, SeqCst);
        sh.edges.fetch_add((r.trace.len() + 1 - it.p.len().min(r.trace.len())) as u64, SeqCst);
        for h in &r.states { if seen.len() < 1_000_000 { if seen.insert(*h) { sh.state(*h); } } else { sh.state(*h); } }
        if r.diverged || r.trace.len() < it.p.len() { sh.diverged.fetch_add(1, SeqCst); continue; }
        if let Err(m) = res {
            if let Some(k) = known.iter().position(|k| m.contains(k.as_str())) { sh.known[k].fetch_add(1, SeqCst); }
            else {
                sh.acquire();
                if ! sh.found.swap(true, SeqCst) {
                    for (i, c) in r.trace.iter().enumerate().take(SLOT) { sh.found_p[i].store(c.choice, SeqCst); }
                    sh.found_len.store(r.trace.len().min(SLOT) as u32, SeqCst);
                }
                sh.release();
                sh.stop.store(true, SeqCst);
                return Done::All;
            }
        }
        // What to try next.
        let trace = &r.trace;
        assert!(trace.len() <= SLOT, "an execution with too many choices");
        for i in (it.p.len()..trace.len()).rev() {
            let rec = trace[i];
            let class = rec.class as usize;
            let free = class == rt::FREE;
            if ! free && (u32::from(it.spent[CLASSES]) >= t.budget.total || u32::from(it.spent[class]) >= t.budget.of(class)) { continue; }
            let mut spent = it.spent;
            if ! free { spent[class] += 1; spent[CLASSES] += 1; }
            for alt in (1..rec.n).rev() {
                let mut p = Vec::with_capacity(i + 1);
                p.extend(trace[..i].iter().map(|c| c.choice as u16));
                p.push(alt as u16);
                local.push(Item { p, spent });
            }
        }
        // Share.
        if local.len() > 1 && sh.count.load(SeqCst) < 64 {
            sh.acquire();
            let n = (local.len() / 2).min(64);
            let rest = local.split_off(n);
            for it in &local { assert!(sh.push(it)); }
            sh.release();
            local = rest;
        }
        if runs % 512 == 0 && rss() > 1_500_000_000 {
            // Executions that were cut short leave things behind.
            sh.acquire();
            let mut ok = true;
            while let Some(it) = local.pop() { if ! sh.push(&it) { local.push(it); ok = false; break; } }
            if ok { sh.busy.fetch_and(! (1 << me), SeqCst); }
            sh.release();
            if ok { return Done::Again; }
        }
    }
}

#[derive(Default)]
pub struct Stats { pub runs: u64, pub edges: u64, pub steps: u64, pub states: u64, pub longest: u64, pub diverged: u64, pub capped: bool, pub secs: f64, pub known: Vec<(String, u64)> }
pub struct Violation { pub choices: Vec<u32>, pub msg: String, pub log: Vec<String> }

/// Fork; the child's exit status is what `f` returns.
fn fork(f: impl FnOnce() -> i32) -> libc::pid_t {
    unsafe {
        let p = libc::fork();
        assert!(p >= 0);
        if p == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let c = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or(9);
            libc::_exit(c);
        }
        p
    }
}

/// Run one execution in a process of its own.
pub fn isolated(t: &Test, choices: &[u32]) -> (Option<String>, Vec<String>) {
    let path = format!("/tmp/conc-{}-{}", std::process::id(), t.name);
    let p2 = path.clone();
    let pid = fork(move || {
        let res = once(t, choices, true);
        let mut out = String::new();
        out.push_str(&res.err().unwrap_or_default().replace('\n', "\\n"));
        for l in crate::h::describe() { out.push('\n'); out.push_str(&l); }
        std::fs::write(&p2, out).unwrap();
        0
    });
    let begin = now();
    let mut st = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
        if r == pid { break; }
        if now() - begin > 20_000 {
            unsafe { libc::kill(pid, libc::SIGKILL); libc::waitpid(pid, &mut st, 0); }
            return (Some(String::from("the execution never gets anywhere (busy loop)")), vec![]);
        }
        unsafe { libc::usleep(500); }
    }
    let s = std::fs::read_to_string(&path);
    let _ = std::fs::remove_file(&path);
    match s {
        Ok(s) => {
            let mut l = s.split('\n').map(String::from);
            let m = l.next().unwrap_or_default();
            (if m.is_empty() { None } else { Some(m) }, l.collect())
        },
        Err(_) => (Some(format!("the process crashed (status {st:#x})")), vec![]),
    }
}

pub fn explore(t: &Test, cap: f64, known: &[String]) -> (Stats, Option<Violation>) {
    let sh = map();
    let sh2: *mut Shared = sh;
    let begin = Instant::now();
    sh.acquire();
    sh.push(&Item { p: vec![], spent: [0; CLASSES + 1] });
    sh.release();
    let go = |me: usize| fork(|| match work(t, unsafe { &mut *sh2 }, me, known) { Done::All => 0, Done::Again => 7 });
    let mut pids: Vec<libc::pid_t> = (0..WORKERS).map(&go).collect();
    let mut bad: Option<(Vec<u32>, String)> = None;
    let prefix_of = |b: &Beat| -> Vec<u32> { (0..b.len.load(SeqCst) as usize).map(|i| b.p[i].load(SeqCst)).collect() };
    while pids.iter().any(|p| *p != 0) {
        for w in 0..WORKERS {
            if pids[w] == 0 { continue; }
            let mut st = 0;
            let r = unsafe { libc::waitpid(pids[w], &mut st, libc::WNOHANG) };
            if r == pids[w] {
                pids[w] = 0;
                if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 { continue; }
                if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 7 { pids[w] = go(w); continue; }
                if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 9 { eprintln!("ENGINE: {}: worker trouble", t.name); std::process::exit(3); }
                if ! sh.stop.swap(true, SeqCst) { bad = Some((prefix_of(&sh.beats[w]), format!("the process crashed (status {st:#x})"))); }
                continue;
            }
            let at = sh.beats[w].at.load(SeqCst);
            if at != 0 && now().saturating_sub(at) > 15_000 {
                if ! sh.stop.swap(true, SeqCst) { bad = Some((prefix_of(&sh.beats[w]), String::from("the execution never gets anywhere (busy loop)"))); }
                unsafe { libc::kill(pids[w], libc::SIGKILL); }
            }
        }
        if begin.elapsed().as_secs_f64() > cap && ! sh.stop.swap(true, SeqCst) { sh.capped.store(true, SeqCst); }
        unsafe { libc::usleep(1000); }
    }
    let st = Stats {
        runs: sh.runs.load(SeqCst), edges: sh.edges.load(SeqCst), steps: sh.steps.load(SeqCst), states: sh.states.load(SeqCst),
        longest: sh.longest.load(SeqCst), diverged: sh.diverged.load(SeqCst), capped: sh.capped.load(SeqCst), secs: begin.elapsed().as_secs_f64(),
        known: known.iter().enumerate().map(|(i, k)| (k.clone(), sh.known[i].load(SeqCst))).filter(|k| k.1 != 0).collect(),
    };
    let v = if let Some((choices, msg)) = bad { Some(Violation { choices, msg, log: vec![] }) }
        else if sh.found.load(SeqCst) {
            let mut choices: Vec<u32> = (0..sh.found_len.load(SeqCst) as usize).map(|i| sh.found_p[i].load(SeqCst)).collect();
            while choices.last() == Some(&0) { choices.pop(); }
            // Undo whatever didn't matter.
            let mut i = choices.len();
            while i > 0 {
                i -= 1;
                if choices[i] == 0 { continue; }
                let mut c = choices.clone();
                c[i] = 0;
                while c.last() == Some(&0) { c.pop(); }
                if isolated(t, &c).0.is_some_and(|m| ! known.iter().any(|k| m.contains(k.as_str()))) { choices = c; i = i.min(choices.len()); }
            }
            let (m, log) = isolated(t, &choices);
            Some(Violation { choices, msg: m.unwrap_or_else(|| String::from("(not reproducible)")), log })
        }
        else { None };
    unsafe { libc::munmap(std::ptr::from_mut(sh).cast(), std::mem::size_of::<Shared>()); }
    (st, v)
}
