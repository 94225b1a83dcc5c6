//! The scheduler: coroutines on one operating system thread, every choice
//! drawn from a recorded (and replayable) sequence.
use real::boxed::Box;
use real::collections::HashSet;
use real::string::String;
use real::vec::Vec;

pub const STACK: usize = 1 << 20;
pub const MAX_THREADS: usize = 48;

/// Kinds of choice; each has its own budget of non-default answers.
pub const FREE: usize = 0;
pub const SCHED: usize = 1;
pub const BLOCK: usize = 2;
pub const FAULT: usize = 3;
pub const SIGNAL: usize = 4;
pub const CLASSES: usize = 5;

#[derive(Clone, Copy, Debug)]
pub struct Rec { pub choice: u32, pub n: u32, pub class: u8 }

#[derive(Clone, Debug, PartialEq)]
pub enum End { Running, Normal, Exit(i32), Deadlock, Livelock, Failed }

#[derive(Clone, Debug)]
pub enum Ev {
    /// Bytes accepted by a file descriptor.
    Out { tid: usize, fd: i32, data: Vec<u8>, clock: u64 },
    /// A write that failed or accepted less than asked.
    Fault { tid: usize, fd: i32, what: &'static str },
    /// Something the scenario wants remembered.
    User { tid: usize, tag: &'static str, id: usize, val: i64, text: String, clock: u64 },
    Switch { tid: usize },
    Start { tid: usize },
    Done { tid: usize },
    Signal { tid: usize, sig: i32, clock: u64 },
    Clock { to: u64 },
    Resize { to: Option<(u16, u16)> },
}

/// Something that may happen to the program at any moment.
#[derive(Clone, Copy, Debug)]
pub enum Inject { Signal(i32), Size(Option<(u16, u16)>) }

struct Thr {
    rsp: usize,
    cond: Option<*const (dyn Fn() -> bool + 'static)>,
    deadline: Option<u64>,
    main: Option<Box<dyn FnOnce()>>,
    done: bool,
    started: bool,
    signals: Vec<i32>,
    handling: Vec<i32>,
    /// Not a thread of the program (it can't receive signals).
    outside: bool,
    steps: u64,
    pub name: Option<String>,
    stack: usize,
}

pub struct Rt {
    pub active: bool,
    pub verbose: bool,
    host: usize,
    threads: Vec<Thr>,
    pub cur: usize,
    stacks: Vec<*mut u8>,
    pub clock: u64,
    pub prefix: Vec<u32>,
    pub trace: Vec<Rec>,
    pub diverged: bool,
    pub end: End,
    pub fail: Option<String>,
    pub events: Vec<Ev>,
    pub steps: u64,
    pub horizon: u64,
    /// Fault choices offered for writes to each descriptor.
    pub faults: [u32; 3],
    /// The error every write meets with (-1: nothing gets written).
    pub broken: [i32; 3],
    pub size: Option<(u16, u16)>,
    /// The terminal behind standard input and output, if any; only standard error needs one.
    pub others: Option<(u16, u16)>,
    pub stdin: Vec<Vec<u8>>,
    pub handlers: Vec<(u64, i32, real::sync::Arc<dyn Fn()>)>,
    pub next_handler: u64,
    /// Signals that had a handler at some point.
    pub caught: Vec<i32>,
    /// Signals nobody may listen to.
    pub deaf: Vec<i32>,
    pub states: Vec<u64>,
    out_hash: u64,
    statics: Vec<(usize, Vec<u8>)>,
    static_seen: HashSet<usize>,
    pub generation: u64,
    /// Operations the scheduler shouldn't be bothered with.
    pub quiet: bool,
    pub last_panic: String,
    /// No scheduling choices for now: whoever runs keeps running.
    pub settle: bool,
    /// What is yet to happen (in this order, each at any time or never).
    pub inject: Vec<Inject>,
    pub injecting: bool,
}

static mut RT: Option<Rt> = None;

#[allow(static_mut_refs)]
pub fn rt() -> &'static mut Rt {
    unsafe {
        if RT.is_none() {
            RT = Some(Rt {
                active: false, verbose: false, host: 0, threads: Vec::new(), cur: 0, stacks: Vec::new(), clock: 0, prefix: Vec::new(),
                trace: Vec::new(), diverged: false, end: End::Normal, fail: None, events: Vec::new(), steps: 0, horizon: 20_000,
                faults: [0; 3], broken: [0; 3], size: Some((80, 24)), others: None, stdin: Vec::new(), handlers: Vec::new(), next_handler: 0, caught: Vec::new(), deaf: Vec::new(),
                states: Vec::new(), out_hash: 0, statics: Vec::new(), static_seen: HashSet::new(), generation: 0, quiet: false, last_panic: String::new(), settle: false, inject: Vec::new(), injecting: false,
            });
        }
        RT.as_mut().unwrap()
    }
}

real::arch::global_asm!(r#"
.globl vstd_switch
.type vstd_switch,@function
vstd_switch:
    push rbp
    push rbx
    push r12
    push r13
    push r14
    push r15
    mov [rdi], rsp
    mov rsp, rsi
    pop r15
    pop r14
    pop r13
    pop r12
    pop rbx
    pop rbp
    ret
"#);
unsafe extern "C" {
    fn vstd_switch(save: *mut usize, to: usize);
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, prot: i32) -> i32;
    static __data_start: u8;
    static _end: u8;
}

fn new_stack() -> *mut u8 {
    unsafe {
        let p = mmap(real::ptr::null_mut(), STACK, 3, 0x22, -1, 0);
        assert!(p as isize != -1, "mmap");
        mprotect(p, 4096, 0);
        p
    }
}

extern "C" fn entry() -> ! {
    let r = rt();
    let me = r.cur;
    let f = r.threads[me].main.take().unwrap();
    r.threads[me].started = true;
    f();
    finish_thread()
}

fn finish_thread() -> ! {
    let r = rt();
    let me = r.cur;
    r.threads[me].done = true;
    r.events.push(Ev::Done { tid: me });
    if me == 0 && r.end == End::Running && r.threads.iter().all(|t| t.done) { stop(End::Normal); }
    schedule(false);
    unreachable!()
}

/// End the execution, whatever its threads were up to.
pub fn stop(end: End) -> ! {
    let r = rt();
    if r.end == End::Running { r.end = end; }
    let mut dummy = 0;
    unsafe { vstd_switch(&mut dummy, r.host); }
    unreachable!()
}

/// Report a violation and end the execution.
pub fn fail(msg: String) -> ! {
    let r = rt();
    if r.fail.is_none() { r.fail = Some(msg); }
    stop(End::Failed)
}

impl Rt {
    pub fn alive(&self, t: usize) -> bool { ! self.threads[t].done }
    pub fn count(&self) -> usize { self.threads.len() }
    fn enabled(&self, t: usize) -> bool {
        let th = &self.threads[t];
        if th.done { return false; }
        if th.signals.iter().any(|s| ! th.handling.contains(s)) { return true; }
        match th.cond {
            None => th.deadline.is_none_or(|d| d <= self.clock),
            Some(c) => (unsafe { (*c)() }) || th.deadline.is_some_and(|d| d <= self.clock),
        }
    }
}

/// Draw a number below `n`.
pub fn choose(n: usize, class: usize) -> usize {
    let r = rt();
    debug_assert!(n > 0);
    if n <= 1 || (r.settle && (class == SCHED || class == BLOCK)) { return 0; }
    let i = r.trace.len();
    let c = match r.prefix.get(i) {
        Some(&c) => { if c as usize >= n { r.diverged = true; 0 } else { c } },
        None => 0,
    };
    r.trace.push(Rec { choice: c, n: n as u32, class: class as u8 });
    c as usize
}

fn mix(h: u64, v: u64) -> u64 { (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23) }

fn snapshot(r: &mut Rt) {
    let mut h = r.out_hash;
    for t in &r.threads { h = mix(h, t.steps << 2 | u64::from(t.done) << 1 | u64::from(t.cond.is_some())); }
    h = mix(h, r.clock);
    r.states.push(h);
}

pub fn note_state(v: u64) { let r = rt(); r.out_hash = mix(r.out_hash, v); }

/// Pick the next thread and switch to it. Returns when the caller is picked.
fn schedule(polite: bool) {
    let r = rt();
    let me = r.cur;
    r.steps += 1;
    if r.steps > r.horizon { stop(End::Livelock); }
    snapshot(r);
    // Whatever unwinds is left to it.
    if real::thread::panicking() {
        if r.enabled(me) { return; }
        stop(End::Failed);
    }
    let n = r.threads.len();
    let mut list = [0_usize; MAX_THREADS];
    let next = loop {
        let mut len = 0;
        let mine = r.enabled(me);
        if mine && ! polite { list[len] = me; len += 1; }
        for k in 1..n {
            let t = (me + k) % n;
            if r.enabled(t) { list[len] = t; len += 1; }
        }
        if mine && polite { list[len] = me; len += 1; }
        // The next one to time out.
        let mut late: Option<(u64, usize)> = None;
        for k in 0..n {
            let t = (me + k) % n;
            let th = &r.threads[t];
            if th.done { continue; }
            if let Some(d) = th.deadline {
                if d > r.clock && ! r.enabled(t) && late.is_none_or(|(l, _)| d < l) { late = Some((d, t)); }
            }
        }
        // Nothing else to do but wait (a thread that's merely being polite
        // would be at it forever).
        if len == 0 || (polite && mine && len == 1 && late.is_some()) {
            match late {
                Some((d, t)) => {
                    r.clock = d;
                    if r.verbose { r.events.push(Ev::Clock { to: d }); }
                    if len == 0 { continue; }
                    break t;
                },
                None => {
                    if r.threads.iter().all(|t| t.done) { stop(End::Normal); }
                    stop(End::Deadlock)
                },
            }
        }
        let extra = usize::from(late.is_some() && ! r.settle);
        let c = choose(len + extra, if mine && ! polite { SCHED } else { BLOCK });
        if c < len { break list[c]; }
        let (d, t) = late.unwrap();
        r.clock = d;
        if r.verbose { r.events.push(Ev::Clock { to: d }); }
        break t;
    };
    r.threads[next].steps += 1;
    if next == me { return; }
    r.cur = next;
    if r.verbose { r.events.push(Ev::Switch { tid: next }); }
    let to = r.threads[next].rsp;
    let save: *mut usize = &mut r.threads[me].rsp;
    unsafe { vstd_switch(save, to); }
}

/// Run whatever handlers the current thread was interrupted for.
fn signals() -> bool {
    let mut any = false;
    loop {
        let r = rt();
        let me = r.cur;
        let Some(i) = r.threads[me].signals.iter().position(|s| ! r.threads[me].handling.contains(s)) else { return any; };
        any = true;
        let sig = r.threads[me].signals.remove(i);
        // The wait it interrupts is none of the handler's business.
        let cond = r.threads[me].cond.take();
        let deadline = r.threads[me].deadline.take();
        r.threads[me].handling.push(sig);
        r.events.push(Ev::Signal { tid: me, sig, clock: r.clock });
        let hs: Vec<real::sync::Arc<dyn Fn()>> = r.handlers.iter().filter(|h| h.1 == sig).map(|h| h.2.clone()).collect();
        for h in hs { h(); }
        let r = rt();
        r.threads[me].handling.pop();
        r.threads[me].cond = cond;
        r.threads[me].deadline = deadline;
    }
}

/// Let things happen to the program.
fn interruptions() {
    loop {
        let r = rt();
        if ! r.injecting || r.inject.is_empty() || real::thread::panicking() { return; }
        match r.inject[0] {
            Inject::Signal(sig) => {
                let n = r.threads.len();
                let mut list = [0_usize; MAX_THREADS];
                let mut len = 0;
                for k in 0..n {
                    let t = (r.cur + k) % n;
                    let th = &r.threads[t];
                    if ! th.done && ! th.outside && ! th.handling.contains(&sig) && ! th.signals.contains(&sig) { list[len] = t; len += 1; }
                }
                if len == 0 { return; }
                let c = choose(len + 1, SIGNAL);
                if c == 0 { return; }
                r.inject.remove(0);
                if ! caught(sig) { continue; }
                r.threads[list[c - 1]].signals.push(sig);
            },
            Inject::Size(s) => {
                if choose(2, SIGNAL) == 0 { return; }
                r.inject.remove(0);
                resize(s);
            },
        }
    }
}

/// Whether the program deals with a signal itself.
fn caught(sig: i32) -> bool {
    if rt().caught.contains(&sig) { return true; }
    // What the system does by default.
    if sig != 28 { stop(End::Exit(128 + sig)); }
    false
}

pub fn resize(s: Option<(u16, u16)>) {
    let r = rt();
    r.size = s;
    r.events.push(Ev::Resize { to: s });
}

/// A moment at which anybody else might get to go first.
pub fn point() {
    let r = rt();
    if ! r.active || r.quiet { return; }
    interruptions();
    signals();
    schedule(false);
    if real::thread::panicking() { return; }
    while signals() { schedule(false); }
}

/// Let others go first.
pub fn polite() {
    let r = rt();
    if ! r.active || r.quiet { return; }
    schedule(true);
    if real::thread::panicking() { return; }
    while signals() { schedule(false); }
}

/// Wait until something holds, or the clock gets there. Returns whether it holds.
pub fn wait(cond: &dyn Fn() -> bool, deadline: Option<u64>) -> bool {
    let r = rt();
    if ! r.active || r.quiet {
        assert!(cond(), "stuck outside of a schedule");
        return true;
    }
    interruptions();
    if ! real::thread::panicking() { signals(); }
    let c: *const (dyn Fn() -> bool + 'static) = unsafe { real::mem::transmute(cond as *const (dyn Fn() -> bool + '_)) };
    loop {
        let r = rt();
        let me = r.cur;
        r.threads[me].cond = Some(c);
        r.threads[me].deadline = deadline;
        schedule(false);
        if ! real::thread::panicking() { signals(); }
        let r = rt();
        let ok = cond();
        if ok || deadline.is_some_and(|d| d <= r.clock) {
            r.threads[me].cond = None;
            r.threads[me].deadline = None;
            return ok;
        }
        if real::thread::panicking() { stop(End::Failed); }
    }
}

pub fn spawn(f: Box<dyn FnOnce()>, name: Option<String>, outside: bool) -> usize {
    let r = rt();
    assert!(r.active, "threads need a schedule");
    let t = r.threads.len();
    // Whoever is done no longer needs one.
    let mut used = [false; MAX_THREADS];
    for t in &r.threads { if ! t.done { used[t.stack] = true; } }
    let Some(stack) = used.iter().position(|u| ! u) else { fail(String::from("too many threads")); };
    while r.stacks.len() <= stack { r.stacks.push(new_stack()); }
    let top = (r.stacks[stack] as usize + STACK) & ! 15;
    unsafe {
        *((top - 8) as *mut usize) = 0;
        *((top - 16) as *mut usize) = entry as *const () as usize;
        for i in 0..6 { *((top - 16 - 8 * (i + 1)) as *mut usize) = 0; }
    }
    r.threads.push(Thr {
        rsp: top - 16 - 48, cond: None, deadline: None, main: Some(f), done: false, started: false,
        signals: Vec::new(), handling: Vec::new(), outside, steps: 0, name, stack,
    });
    r.events.push(Ev::Start { tid: t });
    t
}

pub fn done(t: usize) -> bool { rt().threads[t].done }
pub fn name(t: usize) -> Option<&'static str> { rt().threads[t].name.as_deref() }
pub fn set_outside() { let r = rt(); let me = r.cur; r.threads[me].outside = true; }

/// Threads of the program still around (the first one aside).
pub fn live() -> Vec<usize> {
    let r = rt();
    (1..r.threads.len()).filter(|&t| ! r.threads[t].done && ! r.threads[t].outside).collect()
}

/// Send a signal to the process: any of its threads may get to handle it.
pub fn raise(sig: i32) {
    let r = rt();
    if ! caught(sig) { return; }
    let t: Vec<usize> = (0..r.threads.len()).filter(|&t| ! r.threads[t].done && ! r.threads[t].outside && ! r.threads[t].handling.contains(&sig)).collect();
    if t.is_empty() { return; }
    let to = t[choose(t.len(), FREE)];
    r.threads[to].signals.push(sig);
}

/// A signal for this very thread.
pub fn raise_here(sig: i32) {
    if ! caught(sig) { return; }
    let r = rt();
    let me = r.cur;
    r.threads[me].signals.push(sig);
    point();
}

/// Run `f` as the first thread, until it and all the others are done.
pub fn execute(prefix: &[u32], verbose: bool, f: Box<dyn FnOnce()>) {
    let r = rt();
    r.active = true;
    r.verbose = verbose;
    r.threads.clear();
    r.cur = 0;
    r.clock = 0;
    r.prefix.clear();
    r.prefix.extend_from_slice(prefix);
    r.trace.clear();
    r.diverged = false;
    r.end = End::Running;
    r.fail = None;
    r.events.clear();
    r.steps = 0;
    r.horizon = 20_000;
    r.faults = [0; 3];
    r.broken = [0; 3];
    r.size = Some((80, 24));
    r.others = None;
    r.stdin.clear();
    r.handlers.clear();
    r.next_handler = 0;
    r.caught.clear();
    r.deaf.clear();
    r.states.clear();
    r.out_hash = 0;
    r.generation += 1;
    r.quiet = false;
    r.settle = false;
    r.inject.clear();
    r.injecting = false;
    for (at, bytes) in &r.statics {
        unsafe { real::ptr::copy_nonoverlapping(bytes.as_ptr(), *at as *mut u8, bytes.len()); }
    }
    crate::io::reset();
    let body = move || {
        if let Err(e) = real::panic::catch_unwind(real::panic::AssertUnwindSafe(f)) { crate::thread::report(&*e); }
    };
    spawn(Box::new(body), None, false);
    let to = r.threads[0].rsp;
    let host: *mut usize = &mut r.host;
    unsafe { vstd_switch(host, to); }
    let r = rt();
    r.active = false;
}

/// Remember what statics looked like to begin with.
pub fn touch<T: ?Sized>(t: &T) {
    let at = t as *const T as *const u8 as usize;
    unsafe {
        if at < &raw const __data_start as usize || at >= &raw const _end as usize { return; }
        let r = rt();
        if r.static_seen.insert(at) {
            let n = real::mem::size_of_val(t);
            r.statics.push((at, real::slice::from_raw_parts(at as *const u8, n).to_vec()));
        }
    }
}

pub fn event(tag: &'static str, id: usize, val: i64, text: String) {
    let r = rt();
    let (tid, clock) = (r.cur, r.clock);
    r.events.push(Ev::User { tid, tag, id, val, text, clock });
}
