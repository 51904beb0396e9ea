//! Stateless model-checking runtime.
//!
//! One *execution* = one run of a scenario closure under a list of recorded
//! choices. Tasks are stackful coroutines, so a scheduling point hit in the
//! middle of a `poll` can switch to another task: this models tasks running on
//! different OS threads. `explore` enumerates every choice list within the
//! stated preemption / deviation bounds, in parallel on several OS threads
//! (each execution is confined to one thread).

#![allow(deprecated)]

use std::cell::{Cell, RefCell};
use std::collections::{HashMap, HashSet};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::{Duration, Instant};

use generator::{Generator, Gn};

pub mod report;

// ---------------------------------------------------------------------------
// per-thread execution state
// ---------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Y {
    Point,
    Spin,
    Blocked,
    Done,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum TState {
    /// not started; may start at any scheduling point, for free
    Held,
    Fresh,
    Mid,
    Spin,
    Blocked,
    Done,
}

type Co = Generator<'static, (), Y>;

struct TWaker {
    woken: AtomicBool,
}
impl Wake for TWaker {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Ordering::Relaxed)
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, Ordering::Relaxed)
    }
}

struct Task {
    name: String,
    state: TState,
    waker: Arc<TWaker>,
    co: Option<Co>,
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    cancel: bool,
    hist: u64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    /// scheduling choice; costs a preemption if the running task could go on
    Sched { costly: bool },
    /// environment choice, free
    Env,
    /// environment choice whose non-default answers cost one deviation
    Dev,
}

#[derive(Clone, Copy, Debug)]
struct Choice {
    n: u16,
    taken: u16,
    kind: Kind,
    p_before: u8,
    d_before: u8,
}

struct Ex {
    active: bool,
    draining: bool,
    prefix: Vec<u16>,
    rec: Vec<Choice>,
    /// mirror of the choices for the watchdog
    mirror: Arc<Mutex<Vec<u16>>>,
    tasks: Vec<Task>,
    cur: Option<usize>,
    p_used: u8,
    d_used: u8,
    steps: u64,
    max_steps: u64,
    delay_mode: bool,
    /// order in which runnable tasks are offered: 0 ascending, 1 descending, 2 round robin
    base: usize,
    now: Duration,
    timers: Vec<(Duration, Waker)>,
    log: Vec<String>,
    keep_log: bool,
    states: HashSet<u64>,
    track_states: bool,
    env_hist: u64,
    failure: Option<String>,
    outcome: u64,
    note: Option<String>,
}

impl Ex {
    fn new() -> Ex {
        Ex {
            active: false,
            draining: false,
            prefix: vec![],
            rec: vec![],
            mirror: Arc::new(Mutex::new(vec![])),
            tasks: vec![],
            cur: None,
            p_used: 0,
            d_used: 0,
            steps: 0,
            max_steps: 0,
            delay_mode: false,
            base: 0,
            now: Duration::ZERO,
            timers: vec![],
            log: vec![],
            keep_log: false,
            states: HashSet::new(),
            track_states: true,
            env_hist: 0,
            failure: None,
            outcome: 0,
            note: None,
        }
    }
}

thread_local! {
    static EX: RefCell<Ex> = RefCell::new(Ex::new());
    static POOL: RefCell<Vec<Co>> = const { RefCell::new(Vec::new()) };
    static JOB: Cell<Option<Box<dyn FnOnce()>>> = const { Cell::new(None) };
    static IN_CO: Cell<bool> = const { Cell::new(false) };
    static PANIC_MSG: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static RESULTS: RefCell<HashMap<&'static str, u64>> = RefCell::new(HashMap::new());
}

#[inline]
fn mix(h: u64, v: u64) -> u64 {
    let mut x = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x = x.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^ (x >> 32)
}

pub fn hash_bytes(mut h: u64, b: &[u8]) -> u64 {
    for c in b.chunks(8) {
        let mut v = [0u8; 8];
        v[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(v) ^ ((c.len() as u64) << 56));
    }
    mix(h, b.len() as u64)
}

/// Is an execution under way on this thread?
pub fn active() -> bool {
    EX.try_with(|e| e.try_borrow().map(|e| e.active).unwrap_or(false))
        .unwrap_or(false)
}

/// Is the execution over, with its tasks being torn down?
pub fn draining() -> bool {
    EX.with(|e| e.borrow().draining)
}

/// Virtual time.
pub fn now() -> Duration {
    EX.with(|e| e.borrow().now)
}

/// Ask to be woken when virtual time reaches `deadline`.
pub fn timer(deadline: Duration, w: &Waker) {
    EX.with(|e| {
        let mut e = e.borrow_mut();
        for (d, x) in e.timers.iter() {
            if *d == deadline && x.will_wake(w) {
                return;
            }
        }
        e.timers.push((deadline, w.clone()));
    })
}

/// Append to the execution's event log (kept only when replaying) and fold it
/// into the state hash.
pub fn log(f: impl FnOnce() -> String) {
    EX.with(|e| {
        let keep = {
            let e = e.borrow();
            e.active && !e.draining && e.keep_log
        };
        if keep {
            let s = f();
            let mut e = e.borrow_mut();
            let who = e.cur.map(|c| e.tasks[c].name.clone()).unwrap_or_default();
            e.log.push(format!("[{who}] {s}"));
        }
    })
}

/// Fold an observable fact into the outcome hash of this execution.
pub fn outcome(s: &str) {
    EX.with(|e| {
        let mut e = e.borrow_mut();
        e.outcome = hash_bytes(e.outcome, s.as_bytes());
    });
    log(|| format!("outcome: {s}"));
}

/// Describe this execution (used for evidence samples).
pub fn note(f: impl FnOnce() -> String) {
    let s = f();
    EX.with(|e| e.borrow_mut().note = Some(s));
}

fn record(n: usize, kind: Kind) -> usize {
    EX.with(|e| {
        let mut e = e.borrow_mut();
        if n <= 1 {
            return 0;
        }
        let i = e.rec.len();
        let taken = if i < e.prefix.len() {
            e.prefix[i]
        } else {
            0
        };
        if taken as usize >= n {
            drop(e);
            panic!("ENGINE-DIVERGENCE: replayed choice {taken} of {n} at {i}");
        }
        let c = Choice {
            n: n as u16,
            taken,
            kind,
            p_before: e.p_used,
            d_before: e.d_used,
        };
        e.rec.push(c);
        if taken != 0 {
            match kind {
                Kind::Sched { costly: true } => e.p_used += 1,
                Kind::Dev => e.d_used += 1,
                _ => {}
            }
        }
        e.mirror.lock().unwrap().push(taken);
        taken as usize
    })
}

/// A free choice of the environment: every one of `0..n` is explored.
pub fn choose(n: usize, tag: &'static str) -> usize {
    env_choice(n, tag, Kind::Env)
}

/// As `choose`, but answers other than 0 count against the deviation bound.
pub fn deviate(n: usize, tag: &'static str) -> usize {
    env_choice(n, tag, Kind::Dev)
}

fn env_choice(n: usize, tag: &'static str, kind: Kind) -> usize {
    let (act, drain) = EX.with(|e| {
        let e = e.borrow();
        (e.active, e.draining)
    });
    if !act || drain {
        return 0;
    }
    let v = record(n, kind);
    EX.with(|e| {
        let mut e = e.borrow_mut();
        let h = hash_bytes(v as u64 + 1, tag.as_bytes());
        match e.cur {
            Some(c) if IN_CO.get() => e.tasks[c].hist = mix(e.tasks[c].hist, h),
            _ => e.env_hist = mix(e.env_hist, h),
        }
    });
    log(|| format!("choose {tag}: {v} of {n}"));
    v
}

/// A scheduling point: another task may run here.
#[inline]
pub fn point(tag: &'static str) {
    if !IN_CO.try_with(|c| c.get()).unwrap_or(false) || std::thread::panicking() {
        return;
    }
    yield_co(Y::Point, tag)
}

/// Called in a spin/retry loop: lets everyone else run first.
pub fn spin(tag: &'static str) {
    if !IN_CO.try_with(|c| c.get()).unwrap_or(false) || std::thread::panicking() {
        return;
    }
    yield_co(Y::Spin, tag)
}

fn yield_co(y: Y, tag: &'static str) {
    let go = EX.with(|e| {
        let mut e = e.borrow_mut();
        if !e.active {
            return false;
        }
        e.steps += 1;
        if e.draining {
            if e.steps > e.max_steps * 2 + 100_000 {
                return true; // never happens for well-behaved code: handled by caller
            }
            return false;
        }
        let c = e.cur.unwrap();
        e.tasks[c].hist = hash_bytes(e.tasks[c].hist, tag.as_bytes());
        true
    });
    if go {
        if EX.with(|e| e.borrow().draining) {
            eprintln!("task does not stop while draining at {tag}");
            std::process::exit(3);
        }
        IN_CO.set(false);
        generator::yield_with(y);
        IN_CO.set(true);
    }
}

/// Entry points for the hooks compiled into the code under test.
#[no_mangle]
pub fn vp_point(tag: &'static str) {
    point(tag)
}
#[no_mangle]
pub fn vp_spin(tag: &'static str) {
    spin(tag)
}

/// A future that lets every other runnable task go first, once.
pub async fn yield_now() {
    struct Yn(bool);
    impl Future for Yn {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                Poll::Ready(())
            } else {
                self.0 = true;
                cx.waker().wake_by_ref();
                Poll::Pending
            }
        }
    }
    Yn(false).await
}

/// Virtual-time sleep.
pub async fn sleep(d: Duration) {
    let dl = now() + d;
    std::future::poll_fn(move |cx| {
        if now() >= dl {
            Poll::Ready(())
        } else {
            timer(dl, cx.waker());
            Poll::Pending
        }
    })
    .await
}

/// Spawn a task in the current execution.
pub fn spawn(name: impl Into<String>, fut: impl Future<Output = ()> + 'static) -> usize {
    let name = name.into();
    EX.with(|e| {
        let mut e = e.borrow_mut();
        assert!(e.active, "spawn outside of an execution");
        let h = hash_bytes(7, name.as_bytes());
        e.tasks.push(Task {
            name,
            state: TState::Fresh,
            waker: Arc::new(TWaker {
                woken: AtomicBool::new(false),
            }),
            co: None,
            fut: Some(Box::pin(fut)),
            cancel: false,
            hist: h,
        });
        e.tasks.len() - 1
    })
}

/// Has the task finished?
pub fn is_done(id: usize) -> bool {
    EX.with(|e| e.borrow().tasks[id].state == TState::Done)
}

fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    let hook = PANIC_MSG.with(|m| m.borrow_mut().take());
    if let Some(h) = hook {
        return h;
    }
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

fn task_main(id: usize) {
    IN_CO.set(true);
    let (mut fut, waker) = EX.with(|e| {
        let mut e = e.borrow_mut();
        let t = &mut e.tasks[id];
        (t.fut.take(), t.waker.clone())
    });
    let r = catch_unwind(AssertUnwindSafe(|| {
        let w: Waker = waker.clone().into();
        let mut cx = Context::from_waker(&w);
        loop {
            let cancel = EX.with(|e| e.borrow().tasks[id].cancel);
            if cancel {
                break;
            }
            waker.woken.store(false, Ordering::Relaxed);
            match fut.as_mut().unwrap().as_mut().poll(&mut cx) {
                Poll::Ready(()) => break,
                Poll::Pending => {
                    IN_CO.set(false);
                    generator::yield_with(Y::Blocked);
                    IN_CO.set(true);
                }
            }
        }
        drop(fut.take());
    }));
    IN_CO.set(false);
    if let Err(p) = r {
        let msg = panic_text(p);
        EX.with(|e| {
            let mut e = e.borrow_mut();
            let name = e.tasks[id].name.clone();
            if e.failure.is_none() && !e.draining {
                e.failure = Some(format!("[{name}] {msg}"));
            }
        });
    }
}

const STACK_WORDS: usize = 0x8000; // 256 KiB

fn get_co() -> Co {
    if let Some(c) = POOL.with(|p| p.borrow_mut().pop()) {
        return c;
    }
    Gn::<()>::new_opt(STACK_WORDS, || loop {
        let job = JOB.with(|j| j.take()).expect("no job");
        job();
        generator::yield_with(Y::Done);
    })
}

/// Resume a task until its next yield.
fn resume(id: usize) {
    let mut co = EX.with(|e| {
        let mut e = e.borrow_mut();
        e.cur = Some(id);
        e.tasks[id].co.take()
    });
    if co.is_none() {
        co = Some(get_co());
        JOB.with(|j| j.set(Some(Box::new(move || task_main(id)))));
    }
    let mut co = co.unwrap();
    let y = co.resume().expect("coroutine ended");
    EX.with(|e| {
        let mut e = e.borrow_mut();
        let t = &mut e.tasks[id];
        t.state = match y {
            Y::Point => TState::Mid,
            Y::Spin => TState::Spin,
            Y::Blocked => TState::Blocked,
            Y::Done => TState::Done,
        };
        if y == Y::Done {
            t.co = None;
        } else {
            t.co = Some(co);
            return None;
        }
        Some(co)
    })
    .map(|co| POOL.with(|p| p.borrow_mut().push(co)));
}

/// Handle given to scenarios.
pub struct Sim(());

impl Sim {
    pub fn spawn(&self, name: impl Into<String>, fut: impl Future<Output = ()> + 'static) -> usize {
        spawn(name, fut)
    }

    /// A task that starts at any scheduling point of the execution (each one
    /// is explored, at no cost), at the latest when nobody else can move.
    pub fn spawn_anytime(&self, name: impl Into<String>, fut: impl Future<Output = ()> + 'static) -> usize {
        let id = spawn(name, fut);
        EX.with(|e| e.borrow_mut().tasks[id].state = TState::Held);
        id
    }

    /// Run tasks until nobody can move. Timers fire (in deadline order) only
    /// when nobody else can move.
    pub fn run(&self) {
        self.run_until(Duration::MAX)
    }

    /// As `run`, but virtual time does not advance past `limit`.
    pub fn run_until(&self, limit: Duration) {
        assert!(!IN_CO.get());
        loop {
            let mut cands: Vec<usize> = Vec::with_capacity(8);
            let mut costly = false;
            let failed = EX.with(|e| {
                let e = &mut *e.borrow_mut();
                if e.failure.is_some() {
                    return true;
                }
                if let Some(c) = e.cur {
                    if e.tasks[c].state == TState::Mid {
                        cands.push(c);
                        costly = true;
                    }
                }
                let mut late: Vec<usize> = vec![];
                for (i, t) in e.tasks.iter().enumerate() {
                    if Some(i) == e.cur && costly {
                        continue;
                    }
                    match t.state {
                        TState::Fresh | TState::Mid => cands.push(i),
                        TState::Spin => late.push(i),
                        TState::Blocked if t.waker.woken.load(Ordering::Relaxed) => {
                            if Some(i) == e.cur {
                                late.push(i)
                            } else {
                                cands.push(i)
                            }
                        }
                        _ => {}
                    }
                }
                let from = costly as usize;
                match e.base {
                    1 => cands[from..].reverse(),
                    2 => {
                        if let Some(c) = e.cur {
                            let k = cands[from..].iter().position(|x| *x > c).unwrap_or(0);
                            cands[from..].rotate_left(k);
                        }
                    }
                    _ => {}
                }
                // a spinning / self-waking task only runs when nobody else can
                if cands.is_empty() {
                    cands.extend(late);
                }
                if e.track_states {
                    let mut h = e.env_hist;
                    for t in e.tasks.iter() {
                        h = mix(h, t.hist ^ (t.state as u64));
                    }
                    h = mix(h, e.cur.map(|c| c as u64 + 1).unwrap_or(0));
                    e.states.insert(h);
                }
                false
            });
            if failed {
                let msg = EX.with(|e| e.borrow().failure.clone().unwrap());
                panic!("{msg}");
            }
            let held = EX.with(|e| e.borrow().tasks.iter().position(|t| t.state == TState::Held));
            if let Some(h) = held {
                if cands.is_empty() || record(2, Kind::Env) == 1 {
                    EX.with(|e| {
                        let mut e = e.borrow_mut();
                        e.tasks[h].state = TState::Fresh;
                        e.steps += 1;
                    });
                    log(|| format!("-- now: task {h}"));
                    resume(h);
                    continue;
                }
            }
            if cands.is_empty() {
                // quiescent: let time pass
                let fired = EX.with(|e| {
                    let e = &mut *e.borrow_mut();
                    let next = e.timers.iter().map(|t| t.0).min();
                    match next {
                        Some(d) if d <= limit => {
                            e.now = e.now.max(d);
                            let now = e.now;
                            let mut due = vec![];
                            e.timers.retain(|t| {
                                if t.0 <= now {
                                    due.push(t.1.clone());
                                    false
                                } else {
                                    true
                                }
                            });
                            e.env_hist = mix(e.env_hist, d.as_nanos() as u64);
                            Some(due)
                        }
                        _ => None,
                    }
                });
                match fired {
                    Some(due) => {
                        log(|| format!("time -> {:?}", now()));
                        EX.with(|e| e.borrow_mut().steps += 1);
                        for w in due {
                            w.wake()
                        }
                        self.horizon();
                        continue;
                    }
                    None => return,
                }
            }
            let costly = costly || EX.with(|e| e.borrow().delay_mode);
            let pick = record(cands.len(), Kind::Sched { costly });
            let id = cands[pick];
            if cands.len() > 1 && pick != 0 {
                log(|| "-- switch".to_string());
            }
            EX.with(|e| e.borrow_mut().steps += 1);
            self.horizon();
            resume(id);
        }
    }

    fn horizon(&self) {
        let over = EX.with(|e| {
            let e = e.borrow();
            e.steps > e.max_steps
        });
        if over {
            panic!("livelock: the execution does not come to rest (horizon reached)");
        }
    }

    /// Abandon a task: its future is dropped at its current await point.
    pub fn is_done(&self, id: usize) -> bool {
        is_done(id)
    }

    /// Names of tasks that have not finished.
    pub fn unfinished(&self) -> Vec<String> {
        EX.with(|e| {
            e.borrow()
                .tasks
                .iter()
                .filter(|t| t.state != TState::Done)
                .map(|t| t.name.clone())
                .collect()
        })
    }
}

fn teardown() {
    EX.with(|e| e.borrow_mut().draining = true);
    let mut i = 0;
    loop {
        let (n, st, cofut) = EX.with(|e| {
            let mut e = e.borrow_mut();
            if i >= e.tasks.len() {
                return (e.tasks.len(), TState::Done, None);
            }
            e.tasks[i].cancel = true;
            let st = e.tasks[i].state;
            let f = if matches!(st, TState::Fresh | TState::Held) {
                e.tasks[i].fut.take()
            } else {
                None
            };
            (e.tasks.len(), st, f)
        });
        if i >= n {
            break;
        }
        match st {
            TState::Done => {}
            TState::Fresh | TState::Held => {
                let _ = catch_unwind(AssertUnwindSafe(|| drop(cofut)));
                EX.with(|e| e.borrow_mut().tasks[i].state = TState::Done);
            }
            _ => {
                let mut k = 0;
                while EX.with(|e| e.borrow().tasks[i].state != TState::Done) {
                    resume(i);
                    k += 1;
                    if k > 1000 {
                        eprintln!("task does not stop while draining");
                        std::process::exit(3);
                    }
                }
            }
        }
        i += 1;
    }
}

// ---------------------------------------------------------------------------
// exploration
// ---------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Config {
    pub name: String,
    /// bound on preemptions
    pub p: u8,
    /// bound on environment deviations
    pub d: u8,
    pub max_steps: u64,
    pub max_execs: u64,
    /// every departure from the default schedule costs (delay bounding)
    pub delay_mode: bool,
    pub time_cap: Duration,
}

impl Config {
    pub fn new(name: impl Into<String>, p: u8, d: u8) -> Config {
        Config {
            name: name.into(),
            p,
            d,
            max_steps: 20_000,
            max_execs: 60_000_000,
            delay_mode: false,
            time_cap: Duration::from_secs(400),
        }
    }
    pub fn delays(mut self) -> Config {
        self.delay_mode = true;
        self
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub execs: u64,
    pub steps: u64,
    pub choices: u64,
    pub states: u64,
    pub outcomes: u64,
    pub max_depth: u64,
    pub capped: bool,
    pub samples: Vec<String>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub scenario: String,
    pub msg: String,
    pub choices: Vec<u16>,
    pub log: Vec<String>,
}

struct Run {
    rec: Vec<Choice>,
    steps: u64,
    failure: Option<String>,
    outcome: u64,
    log: Vec<String>,
    note: Option<String>,
    hist: u64,
}

fn one<F: Fn(&Sim)>(cfg: &Config, f: &F, prefix: &[u16], keep_log: bool) -> Run {
    EX.with(|e| {
        let e = &mut *e.borrow_mut();
        e.active = true;
        e.draining = false;
        e.prefix.clear();
        e.prefix.extend_from_slice(prefix);
        e.rec.clear();
        e.mirror.lock().unwrap().clear();
        e.tasks.clear();
        e.cur = None;
        e.p_used = 0;
        e.d_used = 0;
        e.steps = 0;
        e.max_steps = cfg.max_steps;
        e.delay_mode = cfg.delay_mode;
        e.base = 0;
        e.now = Duration::ZERO;
        e.timers.clear();
        e.log.clear();
        e.keep_log = keep_log;
        e.env_hist = hash_bytes(1, cfg.name.as_bytes());
        e.failure = None;
        e.outcome = 0;
        e.note = None;
    });
    let sim = Sim(());
    let r = catch_unwind(AssertUnwindSafe(|| {
        if cfg.delay_mode {
            let b = record(3, Kind::Env);
            EX.with(|e| e.borrow_mut().base = b);
        }
        f(&sim)
    }));
    let failure = match r {
        Ok(()) => EX.with(|e| e.borrow().failure.clone()),
        Err(p) => Some(panic_text(p)),
    };
    let hist = EX.with(|e| {
        let e = e.borrow();
        e.tasks.iter().fold(e.env_hist, |h, t| mix(h, t.hist))
    });
    if failure.is_some() {
        // leave the wreck alone
        EX.with(|e| {
            let mut e = e.borrow_mut();
            e.draining = true;
            let t = std::mem::take(&mut e.tasks);
            std::mem::forget(t);
            let t = std::mem::take(&mut e.timers);
            std::mem::forget(t);
        });
    } else {
        teardown();
        let (t, w) = EX.with(|e| {
            let mut e = e.borrow_mut();
            (std::mem::take(&mut e.tasks), std::mem::take(&mut e.timers))
        });
        drop(t);
        drop(w);
    }
    EX.with(|e| {
        let mut e = e.borrow_mut();
        e.active = false;
        e.draining = false;
        Run {
            rec: e.rec.clone(),
            steps: e.steps,
            failure,
            outcome: e.outcome,
            log: std::mem::take(&mut e.log),
            note: e.note.take(),
            hist,
        }
    })
}

/// Silence the default panic output; panics are reported as verdicts.
pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let msg = if msg.starts_with("ENGINE-DIVERGENCE") {
            msg
        } else {
            format!("{msg} (at {loc})")
        };
        let _ = PANIC_MSG.try_with(|m| {
            if let Ok(mut m) = m.try_borrow_mut() {
                *m = Some(msg.clone());
            }
        });
        if !QUIET.try_with(|q| q.get()).unwrap_or(true) {
            eprintln!("{msg}");
        }
    }));
}

/// Mark this thread's panics as verdicts (not printed).
pub fn quiet(on: bool) {
    QUIET.with(|q| q.set(on))
}

/// Run `f`, turning a panic into its message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let q = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(panic_text);
    QUIET.with(|c| c.set(q));
    r
}

struct Slot {
    mirror: Arc<Mutex<Vec<u16>>>,
    last: AtomicU64,
    busy: AtomicBool,
}

struct Shared {
    pool: Mutex<Vec<Vec<u16>>>,
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    hungry: AtomicBool,
    execs: AtomicU64,
    viol: Mutex<Option<Violation>>,
    capped: AtomicBool,
}

pub static WORKERS: AtomicUsize = AtomicUsize::new(8);
const HANG_SECS: u64 = 45;

/// Explore every execution within the bounds.
pub fn explore<F: Fn(&Sim) + Sync>(cfg: &Config, f: F) -> Result<Stats, Violation> {
    match explore_at(cfg, &f) {
        Ok(s) => Ok(s),
        Err(v) => {
            // look for a counterexample with fewer deviations
            let mut best = v;
            'out: for p in 0..=cfg.p {
                for d in 0..=cfg.d {
                    if p == cfg.p && d == cfg.d {
                        break 'out;
                    }
                    let mut c = cfg.clone();
                    c.p = p;
                    c.d = d;
                    c.max_execs = 2_000_000;
                    c.time_cap = Duration::from_secs(20);
                    if let Err(v) = explore_at(&c, &f) {
                        best = v;
                        break 'out;
                    }
                }
            }
            // record the log, and make sure it fails every time
            quiet(true);
            let r = one(cfg, &f, &best.choices, true);
            best.log = r.log;
            match r.failure {
                Some(m) => {
                    best.msg = m;
                    best.choices = r.rec.iter().map(|c| c.taken).collect();
                }
                None => best
                    .log
                    .push("NOTE: did not fail again on replay".to_string()),
            }
            quiet(false);
            Err(best)
        }
    }
}

/// Replay one choice list, returning the failure (if any) and the event log.
pub fn replay<F: Fn(&Sim) + Sync>(cfg: &Config, f: F, choices: &[u16]) -> (Option<String>, Vec<String>) {
    quiet(true);
    let r = one(cfg, &f, choices, true);
    quiet(false);
    (r.failure, r.log)
}

fn explore_at<F: Fn(&Sim) + Sync>(cfg: &Config, f: &F) -> Result<Stats, Violation> {
    let start = Instant::now();
    let workers = WORKERS.load(Ordering::Relaxed);
    let sh = Shared {
        pool: Mutex::new(vec![vec![]]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        hungry: AtomicBool::new(false),
        execs: AtomicU64::new(0),
        viol: Mutex::new(None),
        capped: AtomicBool::new(false),
    };
    let slots: Vec<Slot> = (0..workers)
        .map(|_| Slot {
            mirror: Arc::new(Mutex::new(vec![])),
            last: AtomicU64::new(0),
            busy: AtomicBool::new(false),
        })
        .collect();
    let done = AtomicBool::new(false);
    let total = Mutex::new((Stats::default(), HashSet::<u64>::new(), HashSet::<u64>::new()));
    std::thread::scope(|sc| {
        let sh = &sh;
        let slots = &slots;
        let done = &done;
        let total = &total;
        let mut hs = vec![];
        for w in 0..workers {
            hs.push(
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(sc, move || worker(cfg, f, sh, &slots[w], w, workers, start, total))
                    .unwrap(),
            );
        }
        // watchdog
        sc.spawn(move || {
            while !done.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(100));
                let t = start.elapsed().as_millis() as u64;
                for s in slots.iter() {
                    if s.busy.load(Ordering::Relaxed)
                        && t.saturating_sub(s.last.load(Ordering::Relaxed)) > HANG_SECS * 1000
                    {
                        let v = Violation {
                            scenario: cfg.name.clone(),
                            msg: format!("hang: a single execution made no progress for {HANG_SECS} s"),
                            choices: s.mirror.lock().map(|m| m.clone()).unwrap_or_default(),
                            log: vec![],
                        };
                        report::emergency(&v);
                    }
                }
            }
        });
        for h in hs {
            h.join().unwrap();
        }
        done.store(true, Ordering::Relaxed);
    });
    if let Some(v) = sh.viol.lock().unwrap().take() {
        return Err(v);
    }
    let (mut st, states, outs) = total.into_inner().unwrap();
    st.states = states.len() as u64;
    st.outcomes = outs.len() as u64;
    st.capped = sh.capped.load(Ordering::Relaxed);
    Ok(st)
}

#[allow(clippy::too_many_arguments)]
fn worker<F: Fn(&Sim) + Sync>(
    cfg: &Config,
    f: &F,
    sh: &Shared,
    slot: &Slot,
    w: usize,
    workers: usize,
    start: Instant,
    total: &Mutex<(Stats, HashSet<u64>, HashSet<u64>)>,
) {
    quiet(true);
    EX.with(|e| {
        let mut e = e.borrow_mut();
        e.mirror = slot.mirror.clone();
        e.states = HashSet::new();
        e.track_states = true;
    });
    let mut st = Stats::default();
    let mut outs: HashSet<u64> = HashSet::new();
    let mut local: Vec<Vec<u16>> = vec![];
    let mut first = w == 0;
    'main: loop {
        if sh.stop.load(Ordering::Relaxed) {
            break;
        }
        let prefix = match local.pop() {
            Some(p) => p,
            None => {
                let mut pool = sh.pool.lock().unwrap();
                loop {
                    if sh.stop.load(Ordering::Relaxed) {
                        break 'main;
                    }
                    if !pool.is_empty() {
                        // take a share, oldest first
                        let k = (pool.len() / workers).max(1);
                        local = pool.drain(..k).collect();
                        break;
                    }
                    sh.hungry.store(true, Ordering::Relaxed);
                    let idle = sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                    if idle == workers {
                        sh.stop.store(true, Ordering::SeqCst);
                        sh.cv.notify_all();
                        break 'main;
                    }
                    pool = sh
                        .cv
                        .wait_timeout(pool, Duration::from_millis(20))
                        .unwrap()
                        .0;
                    if sh.stop.load(Ordering::Relaxed) {
                        break 'main;
                    }
                    sh.idle.fetch_sub(1, Ordering::SeqCst);
                }
                continue;
            }
        };
        slot.last
            .store(start.elapsed().as_millis() as u64, Ordering::Relaxed);
        slot.busy.store(true, Ordering::Relaxed);
        let r = one(cfg, f, &prefix, false);
        slot.busy.store(false, Ordering::Relaxed);
        st.execs += 1;
        st.steps += r.steps;
        st.choices += r.rec.len() as u64;
        st.max_depth = st.max_depth.max(r.rec.len() as u64);
        if r.failure.is_none() {
            if outs.insert(r.outcome) && st.samples.len() < 3 {
                if let Some(n) = &r.note {
                    st.samples.push(n.clone());
                }
            }
        }
        let n = sh.execs.fetch_add(1, Ordering::Relaxed);
        if first || (n > 0 && n % 200_003 == 0) {
            // determinism: the same choices must give the same execution
            first = false;
            if r.failure.is_none() {
                let c: Vec<u16> = r.rec.iter().map(|c| c.taken).collect();
                let r2 = one(cfg, f, &c, false);
                if r2.failure != r.failure || r2.hist != r.hist || r2.outcome != r.outcome {
                    eprintln!(
                        "ENGINE-ERROR: replaying the same choices gave a different execution in {}: {:?} vs {:?}",
                        cfg.name, r.failure, r2.failure
                    );
                    std::process::exit(3);
                }
            }
        }
        if let Some(msg) = r.failure {
            if msg.contains("ENGINE-DIVERGENCE") {
                eprintln!("ENGINE-ERROR in {}: {msg}", cfg.name);
                std::process::exit(3);
            }
            let mut v = sh.viol.lock().unwrap();
            if v.is_none() {
                *v = Some(Violation {
                    scenario: cfg.name.clone(),
                    msg,
                    choices: r.rec.iter().map(|c| c.taken).collect(),
                    log: vec![],
                });
            }
            sh.stop.store(true, Ordering::SeqCst);
            sh.cv.notify_all();
            break;
        }
        if r.rec.len() < prefix.len() {
            eprintln!("ENGINE-ERROR: prefix longer than the execution in {}", cfg.name);
            std::process::exit(3);
        }
        if n >= cfg.max_execs || start.elapsed() > cfg.time_cap {
            sh.capped.store(true, Ordering::Relaxed);
            sh.stop.store(true, Ordering::SeqCst);
            sh.cv.notify_all();
            break;
        }
        for i in prefix.len()..r.rec.len() {
            let c = r.rec[i];
            let ok = match c.kind {
                Kind::Sched { costly: true } => c.p_before < cfg.p,
                Kind::Dev => c.d_before < cfg.d,
                _ => true,
            };
            if !ok {
                continue;
            }
            for alt in 1..c.n {
                let mut p: Vec<u16> = r.rec[..i].iter().map(|c| c.taken).collect();
                p.push(alt);
                local.push(p);
            }
        }
        if sh.hungry.load(Ordering::Relaxed) && local.len() > 1 {
            let mut pool = sh.pool.lock().unwrap();
            let k = local.len() / 2;
            pool.extend(local.drain(..k));
            sh.hungry.store(false, Ordering::Relaxed);
            sh.cv.notify_all();
        }
    }
    let states = EX.with(|e| std::mem::take(&mut e.borrow_mut().states));
    let mut t = total.lock().unwrap();
    t.0.execs += st.execs;
    t.0.steps += st.steps;
    t.0.choices += st.choices;
    t.0.max_depth = t.0.max_depth.max(st.max_depth);
    if t.0.samples.len() < 3 {
        t.0.samples.extend(st.samples);
    }
    t.1.extend(states);
    t.2.extend(outs);
}
