//! Simulated threads.
//!
//! Each simulated caller is a real thread, but only the one holding the token
//! runs. At every scheduling point (basic block, load or store of the code
//! under test; random draw; user callback; allocation; futex wait) the holder
//! may be preempted, when and in whose favour being read from the tape.
use crate::ctx::Ctx;
use crate::prng::mix2;
use crate::runner;
use crate::stream::Stream;
use std::any::Any;
use std::cell::Cell;
use std::panic::{self, AssertUnwindSafe};
use std::ptr::null_mut;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};

/// Where a failure can be injected.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    /// A draw from a random generator.
    Draw = 0,
    /// A call of user-supplied code.
    Call = 1,
    /// A fallible linear-algebra routine.
    La = 2,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Panic,
    Err,
    Nan,
    Inf,
}

/// Fail point number `at` (from 0) of one kind.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    pub kind: Kind,
    pub at: u64,
    pub act: Act,
}

/// The environment of one operation.
#[derive(Clone, Debug)]
pub struct Plan {
    pub stream: Stream,
    pub faults: Vec<Fault>,
    pub limit: u64,
}

pub const LIMIT: u64 = 100_000_000;

impl Plan {
    pub fn new(stream: Stream) -> Plan {
        Plan { stream, faults: Vec::new(), limit: LIMIT }
    }
    pub fn with(mut self, f: Fault) -> Plan {
        self.faults.push(f);
        self
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Caught {
    /// The panic the simulator injected.
    Injected,
    /// A panic of the code itself.
    Panic(String),
}

/// What came of one operation.
#[derive(Clone, Debug)]
pub struct Op<R> {
    pub res: Result<R, Caught>,
    pub points: [u64; 3],
    pub steps: u64,
    pub fired: u64,
}

struct Injected;

pub struct Task {
    pub id: usize,
    pub stream: Stream,
    pub pos: u64,
    pub n: [u64; 3],
    pub faults: Vec<Fault>,
    pub fired: u64,
    pub in_sut: u32,
    pub in_hook: bool,
    pub steps: u64,
    next_event: u64,
    preempt_at: u64,
    limit_at: u64,
    scheduled: bool,
    /// looks at a lock that stays taken
    alone: u64,
    last_panic: Option<String>,
}

thread_local! {
    static CUR: Cell<*mut Task> = const { Cell::new(null_mut()) };
}

/// Seed of the keys hash tables get (std asks the system once per thread).
pub static HASH_SEED: AtomicU64 = AtomicU64::new(1);
pub static HASH_ASKED: AtomicU64 = AtomicU64::new(0);
pub static STEPS: AtomicU64 = AtomicU64::new(0);
pub static WORDS: AtomicU64 = AtomicU64::new(0);

fn new_task(id: usize, scheduled: bool) -> Task {
    Task {
        id,
        stream: Stream::plain(0),
        pos: 0,
        n: [0; 3],
        faults: Vec::new(),
        fired: 0,
        in_sut: 0,
        in_hook: false,
        steps: 0,
        next_event: u64::MAX,
        preempt_at: u64::MAX,
        limit_at: u64::MAX,
        scheduled,
        alone: 0,
        last_panic: None,
    }
}

#[inline(always)]
fn cur() -> *mut Task {
    CUR.with(|c| c.get())
}

#[inline]
pub fn in_sut() -> bool {
    let t = cur();
    unsafe { !t.is_null() && (*t).in_sut > 0 && !(*t).in_hook }
}

/// Make the current thread a (non-preempted) simulated thread for `f`.
pub fn as_task<R>(f: impl FnOnce() -> R) -> R {
    let mut t = new_task(0, false);
    let old = CUR.with(|c| c.replace(&mut t));
    let r = f();
    CUR.with(|c| c.set(old));
    STEPS.fetch_add(t.steps, Relaxed);
    r
}

#[inline(always)]
pub fn step_point() {
    let t = cur();
    if t.is_null() {
        return;
    }
    let t = unsafe { &mut *t };
    if t.in_sut == 0 || t.in_hook {
        return;
    }
    t.steps += 1;
    if t.steps >= t.next_event {
        event(t);
    }
}

pub fn mem_point() {
    step_point()
}

#[cold]
#[inline(never)]
fn event(t: &mut Task) {
    t.in_hook = true;
    if t.steps >= t.limit_at {
        runner::fatal(
            "no-progress",
            &format!("an operation did not finish within its limit of simulated steps ({} taken by this thread)", t.steps),
        );
    }
    if t.scheduled {
        preempt(t, false);
    }
    t.in_hook = false;
}

fn fault_at(t: &mut Task, k: Kind) -> Option<Act> {
    let i = t.n[k as usize];
    t.n[k as usize] += 1;
    for f in &t.faults {
        if f.kind == k && f.at == i {
            t.fired += 1;
            return Some(f.act);
        }
    }
    None
}

/// A draw from a generator: a scheduling point that may fail.
pub fn draw_point() {
    let t = cur();
    if t.is_null() {
        return;
    }
    let t = unsafe { &mut *t };
    let act = fault_at(t, Kind::Draw);
    step_point();
    if act.is_some() && !std::thread::panicking() {
        panic::panic_any(Injected);
    }
}

/// A call of user-supplied code: a scheduling point. Returns the failure the
/// callback must act out; a panic is raised here.
pub fn call_point() -> Option<Act> {
    point(Kind::Call)
}

/// A fallible linear-algebra routine: true if it must fail.
pub fn la_point() -> bool {
    point(Kind::La).is_some()
}

fn point(k: Kind) -> Option<Act> {
    let t = cur();
    if t.is_null() {
        return None;
    }
    let t = unsafe { &mut *t };
    if t.in_sut == 0 {
        return None;
    }
    let act = fault_at(t, k);
    step_point();
    if act == Some(Act::Panic) && !std::thread::panicking() {
        panic::panic_any(Injected);
    }
    act
}

/// The word hook installed into the vendored rand.
pub fn thread_word() -> u64 {
    let t = cur();
    if t.is_null() {
        return 0x1234_5678_9abc_def1;
    }
    draw_point();
    let t = unsafe { &mut *t };
    let w = t.stream.word(t.pos);
    t.pos += 1;
    w
}

pub fn rng_opened() {
    step_point()
}

/// Run `f` as code under test in the current environment.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Caught> {
    let t = cur();
    assert!(!t.is_null(), "catch outside a simulated thread");
    unsafe { (*t).in_sut += 1 };
    let r = panic::catch_unwind(AssertUnwindSafe(f));
    unsafe { (*t).in_sut -= 1 };
    r.map_err(|e| classify(e, t))
}

fn classify(e: Box<dyn Any + Send>, t: *mut Task) -> Caught {
    if e.is::<Injected>() {
        return Caught::Injected;
    }
    let msg = match e.downcast_ref::<&str>() {
        Some(s) => s.to_string(),
        None => match e.downcast_ref::<String>() {
            Some(s) => s.clone(),
            None => "panic".to_string(),
        },
    };
    // An unwrap on an error the simulator injected, or any other message.
    let at = unsafe { (*t).last_panic.take() }.unwrap_or_default();
    Caught::Panic(format!("{} {}", msg, at))
}

/// Leave the code under test (for user callbacks written in the harness).
pub fn outside<R>(f: impl FnOnce() -> R) -> R {
    let t = cur();
    if t.is_null() {
        return f();
    }
    let n = unsafe { std::mem::replace(&mut (*t).in_sut, 0) };
    let r = f();
    unsafe { (*t).in_sut = n };
    r
}

/// From within a user's callback, start over: `f` may run operations of its
/// own with `step`, and then the operation around goes on as it was.
pub fn nested<R>(f: impl FnOnce() -> R) -> R {
    let t = cur();
    if t.is_null() {
        return f();
    }
    let keep = unsafe {
        let t = &mut *t;
        (t.stream, t.pos, t.n, std::mem::take(&mut t.faults), t.fired, t.in_sut, t.limit_at)
    };
    unsafe { (*t).in_sut = 0 };
    let r = f();
    let t = unsafe { &mut *t };
    (t.stream, t.pos, t.n, t.faults, t.fired, t.in_sut, t.limit_at) = keep;
    t.next_event = t.preempt_at.min(t.limit_at);
    r
}

/// Run one operation under a plan: its own stream from word 0, its own faults.
pub fn step<R>(plan: &Plan, f: impl FnOnce() -> R) -> Op<R> {
    let t = cur();
    assert!(!t.is_null(), "step outside a simulated thread");
    let s0;
    unsafe {
        let t = &mut *t;
        t.alone = 0;
        t.stream = plan.stream;
        t.pos = 0;
        t.n = [0; 3];
        t.fired = 0;
        t.faults.clear();
        t.faults.extend_from_slice(&plan.faults);
        t.limit_at = t.steps + plan.limit;
        t.next_event = t.preempt_at.min(t.limit_at);
        s0 = t.steps;
    }
    let res = catch(f);
    let t = unsafe { &mut *t };
    t.faults.clear();
    t.limit_at = u64::MAX;
    t.next_event = t.preempt_at;
    WORDS.fetch_add(t.pos, Relaxed);
    Op { res, points: t.n, steps: t.steps - s0, fired: t.fired }
}

pub fn install_panic_hook() {
    let old = panic::take_hook();
    panic::set_hook(Box::new(move |info| {
        let t = cur();
        if !t.is_null() && unsafe { (*t).in_sut > 0 } {
            let was = unsafe { std::mem::replace(&mut (*t).in_hook, true) };
            if let Some(l) = info.location() {
                let f = l.file().rsplit("/src/").next().unwrap_or("");
                unsafe { (*t).last_panic = Some(format!("[{}]", f)) };
            }
            unsafe { (*t).in_hook = was };
        } else {
            old(info)
        }
    }));
}

// ---------------------------------------------------------------- scheduling

struct Shared {
    token: usize,
    done: Vec<bool>,
}

struct Sched {
    m: Mutex<Shared>,
    cv: Vec<Condvar>,
    ctx: *mut Ctx,
    gap_max: u64,
    left: Cell<u64>,
    preemptions: Cell<u64>,
    blocked: Cell<u64>,
    inter: Cell<u64>,
}

struct SchedPtr(*const Sched);
unsafe impl Send for SchedPtr {}
unsafe impl Sync for SchedPtr {}
static SCHED: Mutex<Option<SchedPtr>> = Mutex::new(None);
thread_local! {
    static MY_SCHED: Cell<*const Sched> = const { Cell::new(std::ptr::null()) };
}

const NOBODY: usize = usize::MAX;

impl Sched {
    fn wait_turn(&self, id: usize) {
        let mut g = self.m.lock().unwrap();
        while g.token != id {
            g = self.cv[id].wait(g).unwrap();
        }
    }
    fn give(&self, to: usize) {
        let mut g = self.m.lock().unwrap();
        g.token = to;
        drop(g);
        self.cv[to].notify_one();
    }
    /// Only the token holder calls this.
    fn gap(&self) -> u64 {
        if self.left.get() == 0 {
            return u64::MAX;
        }
        self.left.set(self.left.get() - 1);
        let v = unsafe { (*self.ctx).below(self.gap_max + 1) };
        if v == 0 {
            u64::MAX
        } else {
            v
        }
    }
    fn ready(&self, except: usize) -> Vec<usize> {
        let g = self.m.lock().unwrap();
        (0..g.done.len()).filter(|&i| !g.done[i] && i != except).collect()
    }
}

/// Set the step at which the current task is next preempted.
fn arm(t: &mut Task, gap: u64) {
    // No gap: still give way eventually, so that a task spinning on another
    // one's progress cannot stop the run.
    t.preempt_at = t.steps.saturating_add(gap.min(20_000_000));
    t.next_event = t.preempt_at.min(t.limit_at);
}

fn preempt(t: &mut Task, blocked: bool) {
    let s = unsafe { &*MY_SCHED.with(|c| c.get()) };
    let others = s.ready(t.id);
    if others.is_empty() {
        if blocked {
            s.blocked.set(s.blocked.get() + 1);
            if s.blocked.get() > 10_000 {
                runner::fatal("deadlock", "every simulated thread waits for another one");
            }
        }
        let gap = s.gap();
        arm(t, gap);
        return;
    }
    if blocked {
        s.blocked.set(s.blocked.get() + 1);
        if s.blocked.get() > 1_000_000 {
            runner::fatal("deadlock", "the simulated threads keep waiting for each other");
        }
    }
    let next = if blocked {
        // round robin, so that whoever holds the lock gets to run
        *others.iter().find(|&&i| i > t.id).unwrap_or(&others[0])
    } else {
        let c = unsafe { (*s.ctx).below(others.len() as u64) };
        others[c as usize]
    };
    s.preemptions.set(s.preemptions.get() + 1);
    s.inter.set(mix2(s.inter.get(), mix2(t.steps, (t.id * 16 + next) as u64)));
    s.give(next);
    s.wait_turn(t.id);
    let gap = s.gap();
    arm(t, gap);
}

/// The current simulated thread cannot go on (futex wait, sleep, yield).
/// Returns false if it is not a scheduled thread in code under test.
pub fn blocked_point() -> bool {
    let t = cur();
    if t.is_null() {
        return false;
    }
    let t = unsafe { &mut *t };
    if t.in_sut == 0 || t.in_hook {
        return false;
    }
    if !t.scheduled {
        // Nobody else runs code under test: only a thread that code made for
        // itself could still end the wait.
        t.in_hook = true;
        t.alone += 1;
        if t.alone > 25_000 {
            runner::fatal("deadlock", "an operation waits for a lock that only its own thread can release");
        }
        std::thread::sleep(std::time::Duration::from_micros(200));
        t.in_hook = false;
        return true;
    }
    t.in_hook = true;
    preempt(t, true);
    t.in_hook = false;
    true
}

/// Run a body alone on a fresh thread. Returns its steps too.
pub fn run_solo<R: Send>(body: Box<dyn FnOnce() -> R + Send + '_>) -> (R, u64) {
    std::thread::scope(|sc| {
        sc.spawn(move || {
            let mut t = new_task(0, false);
            CUR.with(|c| c.set(&mut t));
            let r = body();
            CUR.with(|c| c.set(null_mut()));
            STEPS.fetch_add(t.steps, Relaxed);
            (r, t.steps)
        })
        .join()
        .expect("simulated thread")
    })
}

/// Like `run_solo`, on a thread with a stack of `bytes` bytes.
pub fn run_on_stack<R: Send>(bytes: usize, body: Box<dyn FnOnce() -> R + Send + '_>) -> R {
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(bytes)
            .spawn_scoped(sc, move || {
                let mut t = new_task(0, false);
                CUR.with(|c| c.set(&mut t));
                let r = body();
                CUR.with(|c| c.set(null_mut()));
                STEPS.fetch_add(t.steps, Relaxed);
                r
            })
            .expect("thread")
            .join()
            .expect("simulated thread")
    })
}

/// Run the bodies as simulated threads under a schedule read from the tape.
/// `span` is about how many steps the longest body takes alone.
pub fn run_tasks<R: Send>(
    c: &mut Ctx,
    span: u64,
    bodies: Vec<Box<dyn FnOnce() -> R + Send + '_>>,
) -> Vec<R> {
    let n = bodies.len();
    let gap_max = match c.below(5) {
        0 => span.max(4),
        1 => 4,
        2 => 30,
        3 => (span / 8).max(8),
        _ => (span / 2).max(8),
    };
    let left = c.range(1, 60);
    let first = c.below(n as u64) as usize;
    let s = Sched {
        m: Mutex::new(Shared { token: NOBODY, done: vec![false; n] }),
        cv: (0..n).map(|_| Condvar::new()).collect(),
        ctx: c as *mut Ctx,
        gap_max,
        left: Cell::new(left),
        preemptions: Cell::new(0),
        blocked: Cell::new(0),
        inter: Cell::new(0),
    };
    let sp = SchedPtr(&s);
    let spr = &sp;
    let _guard = SCHED.lock().unwrap();
    let out: Vec<R> = std::thread::scope(|sc| {
        let hs: Vec<_> = bodies
            .into_iter()
            .enumerate()
            .map(|(id, b)| {
                sc.spawn(move || {
                    let s: &Sched = unsafe { &*spr.0 };
                    let mut t = new_task(id, true);
                    MY_SCHED.with(|c| c.set(s));
                    s.wait_turn(id);
                    let g = s.gap();
                    arm(&mut t, g);
                    CUR.with(|c| c.set(&mut t));
                    let r = b();
                    CUR.with(|c| c.set(null_mut()));
                    STEPS.fetch_add(t.steps, Relaxed);
                    // hand over
                    s.m.lock().unwrap().done[id] = true;
                    let others = s.ready(id);
                    if !others.is_empty() {
                        let k = unsafe { (*s.ctx).below(others.len() as u64) } as usize;
                        s.inter.set(mix2(s.inter.get(), mix2(t.steps, (id * 16 + others[k]) as u64)));
                        s.give(others[k]);
                    }
                    r
                })
            })
            .collect();
        s.give(first);
        hs.into_iter().map(|h| h.join().expect("simulated thread")).collect()
    });
    c.add("sched.preemptions", s.preemptions.get());
    c.add("sched.blocked_waits", s.blocked.get());
    c.add("sched.concurrent_phases", 1);
    let i = s.inter.get();
    c.inter.push(i);
    c.see(i);
    out
}
