//! Stateless explicit enumeration of executions.
//!
//! A task's body is a deterministic function of the choices it asks for (`choose`) and of the random words the
//! code under test draws (which `rand-mc` turns into choices). The explorer enumerates all choice sequences
//! depth-first; with a deviation bound D, all sequences that differ from the default execution in at most D choices.

use rand::mc::{self, Ctl, Divergence, Horizon, Mismatch};
pub use rand::mc::{choose, Policy};
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{HashSet, VecDeque};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// `a` in the quick tier, `b` in the thorough one.
    pub fn pick<T>(self, a: T, b: T) -> T {
        match self {
            Tier::Quick => a,
            Tier::Thorough => b,
        }
    }
}

pub struct Task {
    pub name: String,
    /// `Some(d)`: at most d deviations from the default execution; `None`: everything
    pub bound: Option<usize>,
    /// 0: the default choice is 0; otherwise the default is pseudo-random by position
    pub base: u64,
    pub policy: Policy,
    pub horizon: usize,
    pub body: Box<dyn Fn() + Send + Sync>,
}

impl Task {
    pub fn new(name: impl Into<String>, body: impl Fn() + Send + Sync + 'static) -> Task {
        Task {
            name: name.into(),
            bound: None,
            base: 0,
            policy: Policy::default(),
            horizon: 1_000_000,
            body: Box::new(body),
        }
    }
    pub fn bound(mut self, d: usize) -> Task {
        self.bound = Some(d);
        self
    }
    pub fn base(mut self, b: u64) -> Task {
        self.base = b;
        self
    }
    pub fn policy(mut self, p: Policy) -> Task {
        self.policy = p;
        self
    }
    pub fn horizon(mut self, n: usize) -> Task {
        self.horizon = n;
        self
    }
    pub fn floats(mut self, f: &[f64]) -> Task {
        self.policy.floats = f.to_vec();
        self
    }
    pub fn ints(mut self, full: u64, sparse: u64) -> Task {
        self.policy.int_full = full;
        self.policy.int_sparse = sparse;
        self
    }
}

/// Panic payload of the oracles.
pub struct Violation {
    pub key: String,
    pub msg: String,
}

#[macro_export]
macro_rules! fail {
    ($key:expr, $($arg:tt)*) => {
        std::panic::panic_any($crate::engine::Violation { key: $key.to_string(), msg: format!($($arg)*) })
    };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $key:expr, $($arg:tt)*) => {
        if !$cond { $crate::fail!($key, $($arg)*) }
    };
}

#[macro_export]
macro_rules! note {
    ($($arg:tt)*) => { if $crate::engine::noting() { $crate::engine::add_note(format!($($arg)*)) } };
}

thread_local! {
    static NOTES: RefCell<Option<Vec<String>>> = RefCell::new(None);
    static PANIC: RefCell<String> = RefCell::new(String::new());
    static STATES: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
    static EDGES: Cell<u64> = Cell::new(0);
    static RUNS: Cell<u64> = Cell::new(0);
    static SLOT: Cell<usize> = Cell::new(usize::MAX);
    static TASK_STATES: Cell<u64> = Cell::new(0);
}

const STATE_CAP: usize = 3_000_000;
const MAX_WORKERS: usize = 64;
const HANG: Duration = Duration::from_secs(120);

static BEATS: [AtomicU64; MAX_WORKERS] = {
    const Z: AtomicU64 = AtomicU64::new(0);
    [Z; MAX_WORKERS]
};
static CAPPED_NESTED: AtomicBool = AtomicBool::new(false);

pub fn noting() -> bool {
    NOTES.with(|n| n.borrow().is_some())
}
pub fn add_note(s: String) {
    NOTES.with(|n| {
        if let Some(v) = n.borrow_mut().as_mut() {
            if v.len() < 400 {
                v.push(s)
            }
        }
    })
}

/// Records a visited (abstract) state.
pub fn state<H: std::hash::Hash>(h: H) {
    use std::hash::Hasher;
    let mut s = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut s);
    let v = s.finish();
    TASK_STATES.with(|c| c.set(c.get().wrapping_mul(31).wrapping_add(v)));
    STATES.with(|x| {
        let mut x = x.borrow_mut();
        if x.len() < STATE_CAP {
            x.insert(v);
        }
    });
}

/// Counts `n` further cases that a body enumerated itself, each compared with the model.
pub fn cases(n: u64) {
    RUNS.with(|r| r.set(r.get() + n));
    EDGES.with(|r| r.set(r.get() + n));
    beat();
}

fn beat() {
    let s = SLOT.with(|s| s.get());
    if s < MAX_WORKERS {
        BEATS[s].store(now_ms(), Ordering::Relaxed);
    }
}

fn now_ms() -> u64 {
    static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// The next choice prefix in depth-first order that leaves the first `frozen` choices alone.
fn next_prefix(trail: &[(u32, u32)], frozen: usize, bound: Option<usize>) -> Option<Vec<(u32, u32)>> {
    let mut dev: usize = trail.iter().filter(|c| c.0 != 0).count();
    let mut i = trail.len();
    while i > frozen {
        i -= 1;
        let (k, n) = trail[i];
        if k != 0 {
            dev -= 1;
        }
        if k + 1 < n && bound.map_or(true, |b| dev < b) {
            let mut p = trail[..i].to_vec();
            p.push((k + 1, n));
            return Some(p);
        }
    }
    None
}

/// Enumerates all executions of `f` under its own controller and returns every result with the product of 1/n
/// over its choices. Used inside bodies.
pub fn nested<R>(policy: &Policy, bound: Option<usize>, mut f: impl FnMut() -> R) -> Vec<(R, f64)> {
    let mut out = Vec::new();
    let mut prefix = Vec::new();
    loop {
        let plen = prefix.len();
        mc::push(Ctl::new(prefix, 0, policy.clone(), 1_000_000));
        let r = f();
        let c = mc::pop();
        RUNS.with(|r| r.set(r.get() + 1));
        EDGES.with(|e| e.set(e.get() + (c.trail.len() + 1).saturating_sub(plen.max(1)) as u64));
        if out.len() & 255 == 0 {
            beat();
        }
        out.push((r, c.weight));
        if out.len() >= 3_000_000 {
            CAPPED_NESTED.store(true, Ordering::Relaxed);
            return out;
        }
        match next_prefix(&c.trail, 0, bound) {
            Some(p) => prefix = p,
            None => return out,
        }
    }
}

/// Runs `f` with every choice at its default (random words at fraction floats[0]).
pub fn fixed<R>(policy: &Policy, f: impl FnOnce() -> R) -> R {
    mc::push(Ctl::new(Vec::new(), 0, policy.clone(), 1_000_000));
    let r = f();
    mc::pop();
    r
}

/// Runs `f`, returns its result and the values of the choices it consumed from the current controller.
pub fn recorded<R>(f: impl FnOnce() -> R) -> (R, Vec<(u32, u32)>) {
    let start = mc::with_top(|c| c.values.len());
    let r = f();
    let v = mc::with_top(|c| c.values[start..].to_vec());
    (r, v)
}

/// Runs `f` with exactly the given choice values; any other demand for choices is a violation.
pub fn following<R>(values: Vec<(u32, u32)>, f: impl FnOnce() -> R) -> R {
    let policy = mc::with_top(|c| c.policy.clone());
    let n = values.len();
    mc::push(Ctl::follower(values, policy, 1_000_000));
    let r = f();
    let c = mc::pop();
    if c.trail.len() != n {
        fail!("draws", "the repeated run draws {} choices, the original one drew {}", c.trail.len(), n);
    }
    r
}

pub struct Outcome {
    pub trail: Vec<(u32, u32)>,
    pub result: Result<(), (String, String)>,
    pub notes: Vec<String>,
    pub fingerprint: u64,
}

fn describe(p: Box<dyn Any + Send>) -> (String, String) {
    if let Some(v) = p.downcast_ref::<Violation>() {
        return (v.key.clone(), v.msg.clone());
    }
    if let Some(v) = p.downcast_ref::<Divergence>() {
        return (
            "divergence".into(),
            format!("not reproducible, behaviour depends on more than its inputs and draws: {}", v.0),
        );
    }
    if let Some(v) = p.downcast_ref::<Horizon>() {
        return ("horizon".into(), format!("does not come to an end: {}", v.0));
    }
    if let Some(v) = p.downcast_ref::<Mismatch>() {
        return ("draws".into(), format!("the repeated run draws differently: {}", v.0));
    }
    let m = PANIC.with(|m| m.borrow().clone());
    ("panic".into(), format!("panic: {}", m))
}

fn run_once(task: &Task, prefix: &[(u32, u32)], notes: bool) -> Outcome {
    mc::truncate(0);
    beat();
    TASK_STATES.with(|c| c.set(0));
    NOTES.with(|n| *n.borrow_mut() = if notes { Some(Vec::new()) } else { None });
    mc::push(Ctl::new(prefix.to_vec(), task.base, task.policy.clone(), task.horizon));
    let begin = Instant::now();
    let r = catch_unwind(AssertUnwindSafe(|| (task.body)()));
    if begin.elapsed().as_millis() > 1500 && std::env::var("MC_SLOW").is_ok() {
        eprintln!("slow execution: {} {:?}", task.name, begin.elapsed());
    }
    let trail;
    if mc::depth() == 0 {
        trail = prefix.to_vec();
    } else {
        mc::truncate(1);
        trail = mc::pop().trail;
    }
    let mut result = match r {
        Ok(()) => Ok(()),
        Err(p) => Err(describe(p)),
    };
    if result.is_ok() && trail.len() < prefix.len() {
        result = Err(("divergence".into(), "not reproducible: the execution consumes fewer choices than recorded".into()));
    }
    Outcome {
        trail,
        result,
        notes: NOTES.with(|n| n.borrow_mut().take()).unwrap_or_default(),
        fingerprint: TASK_STATES.with(|c| c.get()),
    }
}

struct Job {
    task: usize,
    prefix: Vec<(u32, u32)>,
    frozen: usize,
}

pub struct Found {
    pub task: usize,
    pub choices: Vec<(u32, u32)>,
    pub key: String,
    pub msg: String,
}

pub struct Report {
    pub executions: u64,
    pub transitions: u64,
    pub states: u64,
    pub capped: bool,
    pub samples: Vec<String>,
    pub known: Vec<(String, String, u64)>,
    pub found: Option<Found>,
    pub per_task: Vec<(String, u64)>,
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let m = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            return;
        };
        let l = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|c| *c.borrow_mut() = format!("{}{}", m, l));
    }));
}

pub fn explore(tasks: &[Task], known: &[String], budget: Duration, threads: usize) -> Report {
    let deadline = Instant::now() + budget;
    let queue: Mutex<(VecDeque<Job>, usize)> = Mutex::new((
        (0..tasks.len()).map(|t| Job { task: t, prefix: Vec::new(), frozen: 0 }).collect(),
        0,
    ));
    let cond = Condvar::new();
    let idle = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let found: Mutex<Option<Found>> = Mutex::new(None);
    let samples: Mutex<Vec<(usize, String)>> = Mutex::new(Vec::new());
    let known_hits: Mutex<Vec<(String, String, u64)>> = Mutex::new(Vec::new());
    let totals: Mutex<(u64, u64, HashSet<u64>)> = Mutex::new((0, 0, HashSet::new()));
    let per_task: Vec<AtomicU64> = tasks.iter().map(|_| AtomicU64::new(0)).collect();
    let current: Vec<Mutex<(usize, Vec<(u32, u32)>)>> = (0..threads).map(|_| Mutex::new((0, Vec::new()))).collect();
    let done = AtomicBool::new(false);
    now_ms();

    std::thread::scope(|sc| {
        // watchdog
        {
            let (done, found, current, stop, cond) = (&done, &found, &current, &stop, &cond);
            sc.spawn(move || {
                while !done.load(Ordering::Relaxed) {
                    std::thread::sleep(Duration::from_millis(20));
                    for s in 0..threads {
                        let b = BEATS[s].load(Ordering::Relaxed);
                        if b != 0 && now_ms() > b + HANG.as_millis() as u64 {
                            let (t, p) = current[s].lock().unwrap().clone();
                            *found.lock().unwrap() = Some(Found {
                                task: t,
                                choices: p,
                                key: "hang".into(),
                                msg: format!("an execution makes no progress for {} s", HANG.as_secs()),
                            });
                            stop.store(true, Ordering::Relaxed);
                            cond.notify_all();
                            HUNG.store(true, Ordering::Relaxed);
                            return;
                        }
                    }
                }
            });
        }
        let mut handles = Vec::new();
        for slot in 0..threads {
            let (queue, cond, idle, stop, capped, found, samples, known_hits, totals, per_task, current) = (
                &queue, &cond, &idle, &stop, &capped, &found, &samples, &known_hits, &totals, &per_task, &current,
            );
            handles.push(sc.spawn(move || {
                SLOT.with(|s| s.set(slot));
                loop {
                    let job = {
                        let mut q = queue.lock().unwrap();
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break None;
                            }
                            if let Some(j) = q.0.pop_front() {
                                q.1 += 1;
                                break Some(j);
                            }
                            if q.1 == 0 {
                                cond.notify_all();
                                break None;
                            }
                            idle.fetch_add(1, Ordering::Relaxed);
                            BEATS[slot].store(0, Ordering::Relaxed);
                            q = cond.wait_timeout(q, Duration::from_millis(50)).unwrap().0;
                            idle.fetch_sub(1, Ordering::Relaxed);
                        }
                    };
                    let job = match job {
                        Some(j) => j,
                        None => break,
                    };
                    let task = &tasks[job.task];
                    let mut prefix = job.prefix;
                    let mut frozen = job.frozen;
                    let mut first = frozen == 0;
                    let mut n: u64 = 0;
                    loop {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if n & 15 == 0 && Instant::now() > deadline {
                            capped.store(true, Ordering::Relaxed);
                            break;
                        }
                        {
                            let mut c = current[slot].lock().unwrap();
                            c.0 = job.task;
                            c.1.clear();
                            c.1.extend_from_slice(&prefix);
                        }
                        let mut o = run_once(task, &prefix, first || (frozen == 0 && n == 37));
                        n += 1;
                        RUNS.with(|r| r.set(r.get() + 1));
                        EDGES.with(|e| {
                            e.set(e.get() + (o.trail.len() + 1).saturating_sub(prefix.len().max(1)) as u64)
                        });
                        if o.result.is_ok() && !o.notes.is_empty() {
                            samples.lock().unwrap().push((job.task, o.notes.join("; ")));
                        }
                        if first && o.result.is_ok() {
                            first = false;
                            // the harness owns every choice: the same execution again, the same observations
                            let again = run_once(task, &o.trail.clone(), false);
                            if again.result.is_ok() && (again.trail != o.trail || again.fingerprint != o.fingerprint) {
                                o.result = Err((
                                    "divergence".into(),
                                    "not reproducible: the same execution repeated gives different observations".into(),
                                ));
                            } else if again.result.is_err() {
                                o = again;
                            }
                        }
                        if let Err((key, msg)) = o.result {
                            if known.iter().any(|k| *k == key) {
                                let mut h = known_hits.lock().unwrap();
                                match h.iter_mut().find(|x| x.0 == key) {
                                    Some(x) => x.2 += 1,
                                    None => h.push((key, msg, 1)),
                                }
                            } else {
                                let mut f = found.lock().unwrap();
                                if f.is_none() {
                                    *f = Some(Found { task: job.task, choices: o.trail, key, msg });
                                }
                                stop.store(true, Ordering::Relaxed);
                                cond.notify_all();
                                break;
                            }
                        }
                        if idle.load(Ordering::Relaxed) > 0 && n >= 16 {
                            // donate the shallowest untried alternatives
                            let mut dev = o.trail[..frozen].iter().filter(|c| c.0 != 0).count();
                            let mut i = frozen;
                            while i < o.trail.len() {
                                let (k, m) = o.trail[i];
                                if k + 1 < m && task.bound.map_or(true, |b| dev < b) {
                                    let mut q = queue.lock().unwrap();
                                    for alt in k + 1..m {
                                        let mut p = o.trail[..i].to_vec();
                                        p.push((alt, m));
                                        q.0.push_back(Job { task: job.task, prefix: p, frozen: i + 1 });
                                    }
                                    drop(q);
                                    cond.notify_all();
                                    frozen = i + 1;
                                    break;
                                }
                                if k != 0 {
                                    dev += 1;
                                }
                                i += 1;
                            }
                        }
                        match next_prefix(&o.trail, frozen, task.bound) {
                            Some(p) => prefix = p,
                            None => break,
                        }
                    }
                    per_task[job.task].fetch_add(n, Ordering::Relaxed);
                    BEATS[slot].store(0, Ordering::Relaxed);
                    let mut q = queue.lock().unwrap();
                    q.1 -= 1;
                    if q.1 == 0 && q.0.is_empty() {
                        cond.notify_all();
                    }
                }
                BEATS[slot].store(0, Ordering::Relaxed);
                let mut t = totals.lock().unwrap();
                t.0 += RUNS.with(|r| r.get());
                t.1 += EDGES.with(|r| r.get());
                STATES.with(|s| t.2.extend(s.borrow().iter()));
            }));
        }
        for h in handles {
            // a hung worker cannot be joined; finish without it
            while !h.is_finished() && !HUNG.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(2));
            }
            if HUNG.load(Ordering::Relaxed) {
                if let Some(f) = found.lock().unwrap().take() {
                    (ON_HANG.get().expect("hang handler"))(&f, &tasks[f.task]);
                }
                std::process::exit(1);
            }
            let _ = h.join();
        }
        done.store(true, Ordering::Relaxed);
    });
    let t = totals.into_inner().unwrap();
    let mut sm = samples.into_inner().unwrap();
    sm.sort();
    let mut pick: Vec<String> = Vec::new();
    let stride = (sm.len() / 12).max(1);
    for (i, (task, s)) in sm.iter().enumerate() {
        if i % stride == 0 && pick.len() < 14 {
            let mut s: String = s.chars().take(1200).collect();
            s = format!("[{}] {}", tasks[*task].name, s);
            pick.push(s);
        }
    }
    let capped = capped.load(Ordering::Relaxed) || CAPPED_NESTED.load(Ordering::Relaxed);
    Report {
        executions: t.0,
        transitions: t.1,
        states: t.2.len() as u64,
        capped,
        samples: pick,
        known: known_hits.into_inner().unwrap(),
        found: found.into_inner().unwrap(),
        per_task: tasks.iter().zip(per_task.iter()).map(|(t, n)| (t.name.clone(), n.load(Ordering::Relaxed))).collect(),
    }
}

static HUNG: AtomicBool = AtomicBool::new(false);
pub static ON_HANG: std::sync::OnceLock<Box<dyn Fn(&Found, &Task) + Send + Sync>> = std::sync::OnceLock::new();

/// Greedy minimization of the failing choice sequence: fewer deviations, shorter.
pub fn shrink(task: &Task, f: &Found, budget: Duration) -> (Vec<(u32, u32)>, String, Vec<String>) {
    let end = Instant::now() + budget;
    let mut best = f.choices.clone();
    let try_it = |c: &[(u32, u32)]| -> Option<(Vec<(u32, u32)>, String)> {
        let o = run_once(task, c, false);
        match o.result {
            Err((k, m)) if k == f.key && k != "divergence" => Some((o.trail, m)),
            _ => None,
        }
    };
    let mut msg = f.msg.clone();
    // cut trailing choices
    let mut improved = true;
    while improved && Instant::now() < end {
        improved = false;
        let mut i = 0;
        while i < best.len() && Instant::now() < end {
            if best[i].0 != 0 {
                for v in 0..best[i].0 {
                    let mut c = best[..=i].to_vec();
                    c[i].0 = v;
                    // keep the rest if it still fits, else defaults
                    let mut with_rest = c.clone();
                    with_rest.extend_from_slice(&best[i + 1..]);
                    if let Some((t, m)) = try_it(&with_rest).or_else(|| try_it(&c)) {
                        let dev = |t: &[(u32, u32)]| t.iter().map(|c| c.0 as u64).sum::<u64>();
                        if dev(&t) < dev(&best) {
                            best = t;
                            msg = m;
                            improved = true;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    while best.last().map_or(false, |c| c.0 == 0) {
        best.pop();
    }
    let o = run_once(task, &best, true);
    match o.result {
        Err((_, m)) => (best, m, o.notes),
        Ok(()) => (f.choices.clone(), msg, o.notes),
    }
}

pub fn replay(task: &Task, choices: &[(u32, u32)]) -> Outcome {
    run_once(task, choices, true)
}
