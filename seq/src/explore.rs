//! Exhaustive enumeration of all choice sequences of a (deterministic) body.
//!
//! A body draws every decision from [`Ch::choose`]; the explorer runs it once
//! for each possible sequence of answers. A choice sequence is therefore a
//! complete, replayable description of one case.
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};

/// FNV-1a: stable between runs.
#[derive(Clone)]
pub struct Fnv(pub u64);
impl Default for Fnv { fn default() -> Self { Fnv(0xcbf29ce484222325) } }
impl Hasher for Fnv {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, b: &[u8]) {
        for c in b { self.0 = (self.0 ^ u64::from(*c)).wrapping_mul(0x100000001b3); }
    }
}

pub struct Ch {
    prefix: Vec<u32>,
    pub trace: Vec<(u32, u32)>,
    pub log: Option<Vec<String>>,
    pub fail: Option<String>,
    /// Model/implementation comparisons (steps checked).
    pub steps: u64,
    /// Transitions of a search carried out within the body.
    pub inner: u64,
    states: Vec<u64>,
    pub sample: Option<String>,
    diverged: bool,
}

impl Ch {
    pub fn new(prefix: &[u32], verbose: bool) -> Self {
        Self { prefix: prefix.to_vec(), trace: Vec::new(), log: verbose.then(Vec::new), fail: None,
            steps: 0, inner: 0, states: Vec::new(), sample: None, diverged: false }
    }
    /// Draw a number below `n`.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0);
        let i = self.trace.len();
        let c = match self.prefix.get(i) {
            Some(&c) => { if c as usize >= n { self.diverged = true; 0 } else { c } },
            None => 0,
        };
        self.trace.push((c, n as u32));
        c as usize
    }
    pub fn pick<'a, T>(&mut self, list: &'a [T]) -> &'a T { &list[self.choose(list.len())] }
    pub fn flag(&mut self) -> bool { self.choose(2) == 1 }
    /// Describe what happens (kept only when replaying).
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if let Some(l) = self.log.as_mut() { l.push(f()); }
    }
    /// A step was executed on the code; `state` is what it produced.
    pub fn step<T: Hash + ?Sized>(&mut self, state: &T) {
        self.steps += 1;
        let mut h = Fnv::default();
        state.hash(&mut h);
        self.states.push(h.finish());
    }
    pub fn failed(&self) -> bool { self.fail.is_some() }
    pub fn fail<F: FnOnce() -> String>(&mut self, f: F) {
        if self.fail.is_none() { self.fail = Some(f()); }
    }
    pub fn check<F: FnOnce() -> String>(&mut self, ok: bool, f: F) -> bool {
        if ! ok { self.fail(f); }
        ok
    }
    pub fn eq<A: PartialEq<B> + std::fmt::Debug + ?Sized, B: std::fmt::Debug + ?Sized>(&mut self, what: &str, got: &A, want: &B) -> bool {
        let ok = got == want;
        if ! ok { self.fail(|| format!("{what}: got {got:?}, expected {want:?}")); }
        ok
    }
}

pub type Body = fn(&mut Ch);

pub struct Violation { pub test: &'static str, pub choices: Vec<u32>, pub msg: String }

#[derive(Default)]
pub struct Stats { pub runs: u64, pub edges: u64, pub steps: u64, pub states: u64, pub samples: Vec<String> }

struct Shared {
    queue: Mutex<(Vec<Vec<u32>>, usize)>,
    cv: Condvar,
    stop: AtomicBool,
    found: Mutex<Vec<Violation>>,
    runs: AtomicU64,
    steps: AtomicU64,
    edges: AtomicU64,
    states: Vec<Mutex<HashSet<u64>>>,
    samples: Mutex<Vec<String>>,
    /// When each worker's case began: on the wall, and on its own CPU.
    beat: Vec<Mutex<(Instant, Duration, Vec<u32>)>>,
    clocks: Vec<Mutex<Option<libc::clockid_t>>>,
    done: AtomicUsize,
}

pub fn run_one(body: Body, prefix: &[u32], verbose: bool) -> Ch {
    let mut ch = Ch::new(prefix, verbose);
    let res = catch_unwind(AssertUnwindSafe(|| body(&mut ch)));
    if let Err(e) = res {
        let m = e.downcast_ref::<String>().cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let at = crate::LAST_PANIC.with(|l| l.borrow().clone());
        ch.fail = Some(format!("panic: {m} ({at})"));
    }
    ch
}

/// A case that uses more of a CPU than this is taken to be stuck (however busy
/// the machine is with other things) …
const STUCK: Duration = Duration::from_secs(20);

/// … and so is one that takes this long without using it.
const ASLEEP: Duration = Duration::from_secs(240);

fn cpu(clock: libc::clockid_t) -> Option<Duration> {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    if unsafe { libc::clock_gettime(clock, &mut t) } != 0 { return None; }
    Some(Duration::new(t.tv_sec as u64, t.tv_nsec as u32))
}

/// Run `body` for every choice sequence.
pub fn explore(test: &'static str, body: Body, workers: usize) -> (Stats, Vec<Violation>) {
    let sh = Arc::new(Shared {
        queue: Mutex::new((vec![vec![]], 0)), cv: Condvar::new(), stop: AtomicBool::new(false),
        found: Mutex::new(Vec::new()), runs: AtomicU64::new(0), steps: AtomicU64::new(0), edges: AtomicU64::new(0),
        states: (0..64).map(|_| Mutex::new(HashSet::new())).collect(), samples: Mutex::new(Vec::new()),
        beat: (0..workers).map(|_| Mutex::new((Instant::now() + Duration::from_secs(3600), Duration::ZERO, vec![]))).collect(),
        clocks: (0..workers).map(|_| Mutex::new(None)).collect(),
        done: AtomicUsize::new(0),
    });
    for w in 0..workers {
        let sh = sh.clone();
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || worker(&sh, w, body, test)).unwrap();
    }
    // Wait, watching for cases that never end.
    while sh.done.load(SeqCst) < workers {
        std::thread::sleep(Duration::from_millis(5));
        for (b, clock) in sh.beat.iter().zip(&sh.clocks) {
            let (t, at, c) = { let g = b.lock().unwrap(); (g.0, g.1, g.2.clone()) };
            if t.elapsed() <= STUCK || sh.done.load(SeqCst) >= workers || sh.stop.load(SeqCst) { continue; }
            let used = clock.lock().unwrap().and_then(cpu).unwrap_or_default().saturating_sub(at);
            // The case must still be the same one.
            if b.lock().unwrap().0 != t { continue; }
            if used > STUCK || t.elapsed() > ASLEEP {
                sh.stop.store(true, SeqCst);
                let st = Stats { runs: sh.runs.load(SeqCst), edges: sh.edges.load(SeqCst), steps: sh.steps.load(SeqCst), ..Stats::default() };
                return (st, vec![Violation { test, choices: c, msg: format!("the case did not end within {}s", STUCK.as_secs()) }]);
            }
        }
    }
    let st = Stats {
        runs: sh.runs.load(SeqCst), edges: sh.edges.load(SeqCst), steps: sh.steps.load(SeqCst),
        states: sh.states.iter().map(|s| s.lock().unwrap().len() as u64).sum(),
        samples: std::mem::take(&mut *sh.samples.lock().unwrap()),
    };
    let v = std::mem::take(&mut *sh.found.lock().unwrap());
    (st, v)
}

fn worker(sh: &Shared, me: usize, body: Body, test: &'static str) {
    let mut id: libc::clockid_t = 0;
    if unsafe { libc::pthread_getcpuclockid(libc::pthread_self(), &mut id) } == 0 { *sh.clocks[me].lock().unwrap() = Some(id); }
    let mut local: HashSet<u64> = HashSet::new();
    let (mut runs, mut edges, mut steps) = (0_u64, 0_u64, 0_u64);
    'outer: loop {
        // Take something from the shared queue.
        let mut g = sh.queue.lock().unwrap();
        let start = loop {
            if sh.stop.load(SeqCst) { break 'outer; }
            if let Some(p) = g.0.pop() { g.1 += 1; break p; }
            if g.1 == 0 { sh.cv.notify_all(); break 'outer; }
            *sh.beat[me].lock().unwrap() = (Instant::now() + Duration::from_secs(3600), Duration::ZERO, vec![]);
            g = sh.cv.wait_timeout(g, Duration::from_millis(2)).unwrap().0;
        };
        drop(g);
        let mut stack = vec![start];
        while let Some(p) = stack.pop() {
            if sh.stop.load(SeqCst) { break; }
            {
                let mut b = sh.beat[me].lock().unwrap();
                b.0 = Instant::now(); b.1 = cpu(libc::CLOCK_THREAD_CPUTIME_ID).unwrap_or_default();
                b.2.clear(); b.2.extend_from_slice(&p);
            }
            let ch = run_one(body, &p, false);
            runs += 1;
            steps += ch.steps;
            // Edges of the choice tree first walked by this run.
            edges += ch.inner + (ch.trace.len() + 1 - p.len().min(ch.trace.len())) as u64 - u64::from(p.is_empty());
            for s in ch.states { if local.len() < 2_000_000 { local.insert(s); } }
            if runs % 9973 == 1 && ch.fail.is_none() {
                let mut s = sh.samples.lock().unwrap();
                if s.len() < 12 {
                    let again = run_one(body, &p, true);
                    s.push(format!("{test} {:?}: {}", again.trace.iter().map(|t| t.0).collect::<Vec<_>>(), again.log.unwrap_or_default().join("; ")));
                }
            }
            let choices: Vec<u32> = ch.trace.iter().map(|t| t.0).collect();
            let fail = if ch.diverged || choices.len() < p.len() {
                eprintln!("ENGINE: {test}: the body is not deterministic at {p:?}");
                std::process::exit(3);
            } else { ch.fail };
            if let Some(msg) = fail {
                sh.found.lock().unwrap().push(Violation { test, choices, msg });
                sh.stop.store(true, SeqCst);
                break;
            }
            let mut share = Vec::new();
            for i in (p.len()..ch.trace.len()).rev() {
                for alt in (1..ch.trace[i].1).rev() {
                    let mut q = choices[..i].to_vec();
                    q.push(alt);
                    if i < 3 { share.push(q); } else { stack.push(q); }
                }
            }
            if ! share.is_empty() {
                sh.queue.lock().unwrap().0.extend(share);
                sh.cv.notify_all();
            }
        }
        sh.queue.lock().unwrap().1 -= 1;
        sh.cv.notify_all();
    }
    for s in local { sh.states[(s % 64) as usize].lock().unwrap().insert(s); }
    sh.runs.fetch_add(runs, SeqCst);
    sh.edges.fetch_add(edges, SeqCst);
    sh.steps.fetch_add(steps, SeqCst);
    *sh.beat[me].lock().unwrap() = (Instant::now() + Duration::from_secs(3600), Duration::ZERO, vec![]);
    sh.done.fetch_add(1, SeqCst);
}
