//! Whole runs with and without observers: C36.

use super::*;
use std::collections::BTreeMap;
use std::io::Write;

pub const C36: Prop = Prop {
    id: "C36",
    tasks: c36,
    bounds: "24 component combinations (12 genetic, 12 swarm), a run of 2 iterations, a resumption and another run: every sequence of observer sets out of 9 (none, each logger of the library, all of them, user loggers, the same kind twice) set, kept or replaced before each of the three operations, with and without the call counter; draws and goal values (ties, NaN, infinities) within 1 (2) deviations together with the sets; runs of 25 iterations; f32 and f64",
    assumptions: &["components draw from rand::thread_rng", "the elapsed time itself is not compared"],
};

/// What the observers put out: (number of the operation before which they were attached, kind, which of that kind).
type Outputs = Rc<RefCell<BTreeMap<(usize, usize, usize), String>>>;

/// Owns what a library logger borrows.
struct Held<T> {
    logger: Option<Box<dyn Logger<Vec<T>>>>,
    free: Option<Box<dyn FnOnce()>>,
}
impl<T> Held<T> {
    /// `f` makes the logger of a borrowed `x`; `out` gets `x` in the end.
    fn new<X: 'static>(x: X, f: impl FnOnce(&'static mut X) -> Box<dyn Logger<Vec<T>>>, out: impl FnOnce(X) + 'static) -> Held<T> {
        let p = Box::into_raw(Box::new(x));
        // SAFETY: freed in `drop` only, after the logger
        let logger = f(unsafe { &mut *p });
        Held { logger: Some(logger), free: Some(Box::new(move || out(*unsafe { Box::from_raw(p) }))) }
    }
    fn on(&mut self) -> &mut dyn Logger<Vec<T>> {
        &mut **self.logger.as_mut().unwrap()
    }
}
impl<T> Drop for Held<T> {
    fn drop(&mut self) {
        self.logger = None;
        (self.free.take().unwrap())()
    }
}
impl<T> Logger<Vec<T>> for Held<T> {
    fn start(&mut self, s: &dyn AlgorithmState<Vec<T>>) {
        self.on().start(s)
    }
    fn resume(&mut self, s: &dyn AlgorithmState<Vec<T>>) {
        self.on().resume(s)
    }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<Vec<T>>) {
        self.on().next_iteration(s)
    }
    fn finish(&mut self, s: &dyn AlgorithmState<Vec<T>>) {
        self.on().finish(s)
    }
}

/// A user's logger that looks at everything more than once.
struct Reader(String, Option<Box<dyn FnOnce(String)>>);
impl Reader {
    fn look<T: Re>(&mut self, what: &str, s: &dyn AlgorithmState<Vec<T>>) {
        let b = best_of(&s.get_best_solution());
        for _ in 0..3 {
            ensure!(b == best_of(&s.get_best_solution()), "watched", "the state changes while a logger looks at it");
        }
        self.0 += &format!("{} {} {:?}\n", what, s.get_iteration(), b);
    }
}
impl<T: Re> Logger<Vec<T>> for Reader {
    fn start(&mut self, s: &dyn AlgorithmState<Vec<T>>) {
        self.look("start", s)
    }
    fn resume(&mut self, s: &dyn AlgorithmState<Vec<T>>) {
        self.look("resume", s)
    }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<Vec<T>>) {
        self.look("next", s)
    }
    fn finish(&mut self, s: &dyn AlgorithmState<Vec<T>>) {
        self.look("finish", s)
    }
}
impl Drop for Reader {
    fn drop(&mut self) {
        let s = std::mem::take(&mut self.0);
        (self.1.take().unwrap())(s)
    }
}

/// Kinds of observers: 0 verbose, 1 result, 2 time, 3 statistics, 4 the user's.
const SETS: [&[usize]; 9] = [&[], &[0], &[1], &[2], &[3], &[4], &[0, 1, 2, 3, 4], &[4, 3, 0, 0, 4], &[3, 2, 3, 1, 1]];

fn text(b: Vec<u8>) -> String {
    String::from_utf8(b).unwrap()
}
/// The elapsed time is not compared.
fn timeless(s: String) -> String {
    s.chars().filter(|c| !c.is_ascii_digit()).collect()
}

/// The observers of the set `s`; `only`: just that one of them.
fn observers<T: Re>(op: usize, s: usize, only: Option<(usize, usize, usize)>, outputs: &Outputs) -> Vec<Box<dyn Logger<Vec<T>>>> {
    let mut v: Vec<Box<dyn Logger<Vec<T>>>> = vec![];
    for (i, kind) in SETS[s].iter().enumerate() {
        let id = (op, *kind, SETS[s][..i].iter().filter(|k| *k == kind).count());
        if only.map_or(false, |o| o != id) {
            continue;
        }
        let o = outputs.clone();
        let put = move |s: String| {
            o.borrow_mut().insert(id, s);
        };
        v.push(match kind {
            0 => Box::new(Held::new(vec![], |w: &'static mut Vec<u8>| Box::new(VerboseLogger::new(w as &mut dyn Write, 4)), move |b| put(text(b)))),
            1 => Box::new(Held::new(vec![], |w: &'static mut Vec<u8>| Box::new(ResultOnlyLogger::new(w as &mut dyn Write, 4)), move |b| put(text(b)))),
            2 => Box::new(Held::new(vec![], |w: &'static mut Vec<u8>| Box::new(TimeLogger::new(w as &mut dyn Write)), move |b| put(timeless(text(b))))),
            3 => Box::new(Held::new(
                Statistics::new(),
                |s: &'static mut Statistics<Vec<T>>| Box::new(StatisticsLogger::new(s)),
                move |s| put(format!("{:?} {:?}", s.get_results(), s.get_convergence())),
            )),
            _ => Box::new(Reader(String::new(), Some(Box::new(put)))),
        });
    }
    v
}

/// The operations with the observer sets (`None` keeps them); what the run does and returns.
fn watched_run<T: Re>(w: &Wr, k: &Kind, lens: [usize; 3], sets: &[Option<usize>; 3], counted: bool, only: Option<(usize, usize, usize)>, outputs: &Outputs) -> (Vec<Ev>, Vec<Best>) {
    {
        let mut w = w.borrow_mut();
        w.record = true;
        w.trace.clear();
        w.counted = counted;
    }
    let mut o = build::<T>(w, k, criterion(w, 0));
    o.watch(vec![]);
    let mut results = vec![];
    let mut total = 0;
    for op in 0..3 {
        if let Some(s) = sets[op] {
            o.watch(observers(op, s, only, outputs));
        }
        total = if op == 1 { total + lens[op] } else { lens[op] };
        w.borrow_mut().target = total;
        let r = if op == 1 { o.next_iterations() } else { o.find_min() };
        results.push(best_of(&r));
    }
    drop(o);
    let t = std::mem::take(&mut w.borrow_mut().trace);
    (t, results)
}

fn watched<T: Re>(k: &Kind, goal: usize, menu: &[f64], lens: [usize; 3]) {
    let w = world(goal, menu);
    let nothing: Outputs = Default::default();
    let sets = [Some(choose(SETS.len())), choose(SETS.len() + 1).checked_sub(1), choose(SETS.len() + 1).checked_sub(1)];
    let counted = choose(2) == 1;
    note!("observers {:?}, counted: {}", sets.iter().map(|s| s.map(|s| SETS[s])).collect::<Vec<_>>(), counted);
    let ((a, q), values) = recorded(|| watched_run::<T>(&w, k, lens, &[None; 3], false, None, &nothing));
    note!("the same with the observers");
    let outputs: Outputs = Default::default();
    let (b, r) = following(values.clone(), || watched_run::<T>(&w, k, lens, &sets, counted, None, &outputs));
    diff(&a, &b, ["the search without observers", "the search with observers"]);
    ensure!(q == r, "result", "without observers the results are {:?}, with observers {:?}", q, r);
    let together = outputs.borrow().clone();
    state((&together, &q));
    if together.len() < 2 {
        return;
    }
    for (id, out) in &together {
        let alone: Outputs = Default::default();
        following(values.clone(), || watched_run::<T>(&w, k, lens, &sets, false, Some(*id), &alone));
        let alone = alone.borrow();
        ensure!(
            alone.get(id) == Some(out),
            "together",
            "observer {:?} (operation, kind, number) puts out {:?} among others and {:?} alone",
            id,
            out,
            alone.get(id)
        );
    }
}

fn c36(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    for (n, (name, k)) in kinds().into_iter().enumerate() {
        let s = seed + n as u64 * 13;
        for goal in 0..t.pick(1, 4) {
            let goal = (goal + n) % 4;
            both!(
                v,
                format!("{}, every sequence of observers, goal {}", name, goal),
                // two words without deviation: only the sets vary
                |x: Task| x.floats(&[0.37]).ints(0, 1).base(0),
                watched(&k, goal, &[], [2, 1, 2])
            );
            both!(
                v,
                format!("{}, observers, draws and values, goal {}", name, goal),
                |x: Task| x.floats(&[0.5, 0.0, 1.0]).ints(5, 3).base(s + 3).bound(t.pick(1, 2)),
                watched(&k, goal, &[NAN, INF, 0.5], [2, 1, 2])
            );
            let twice = s + 5;
            both!(
                v,
                format!("{}, observers and draws, sparse, goal {}", name, goal),
                |x: Task| x.floats(&[0.5, 0.9]).ints(3, 2).base(twice).bound(2),
                watched(&k, goal, &[], [1, 1, 1])
            );
        }
        for i in 0..t.pick(1, 4) {
            both!(
                v,
                format!("{}, long {}", name, i),
                |x: Task| x.floats(&DRAWS).base(s + 100 + i).bound(0),
                watched(&k, (n + i as usize) % 4, &[], [25, 9, 12])
            );
        }
    }
    v
}
