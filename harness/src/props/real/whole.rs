//! Whole runs again: who decides about their end (C32), runs cut short (C33), order of goal values (C34).

use super::*;
use std::cell::Cell;
use std::panic::{catch_unwind, panic_any, resume_unwind, AssertUnwindSafe};

// ----------------------------------------------------------------------------------------------------------- C32

pub const C32: Prop = Prop {
    id: "C32",
    tasks: c32,
    bounds: "24 component combinations (12 genetic, 12 swarm): every sequence of answers of the stop criterion of up to 4 (6) answers in every sequence of 4 runs and resumptions, starting with either; answers and draws together within 2 deviations over 4 (5) operations; 60 to 3000 iterations before the first yes; goal functions with plateaus and non-finite values; f32 and f64",
    assumptions: &["components draw from rand::thread_rng"],
};

/// A criterion that answers as the explorer chooses; `forced` answers at most in a row are no.
struct Answers {
    w: Wr,
    forced: usize,
    /// calls of components so far
    calls: Rc<Cell<usize>>,
    log: Rc<RefCell<Vec<(bool, usize)>>>,
}
impl<T: Re> StopChecker<Vec<T>> for Answers {
    fn can_stop(&mut self, s: &dyn AlgorithmState<Vec<T>>) -> bool {
        poke(&self.w);
        let mut log = self.log.borrow_mut();
        let row = log.iter().rev().take_while(|a| !a.0).count();
        ensure!(log.last().map_or(true, |a| !a.0), "asked", "the criterion is asked again after its yes");
        let yes = if row >= self.forced { true } else { choose(2) == 1 };
        note!("asked at iteration {}: {}", s.get_iteration(), if yes { "yes" } else { "no" });
        self.w.borrow_mut().ev(Ev::Check(s.get_iteration(), best_of(&s.get_best_solution())));
        log.push((yes, self.calls.get()));
        yes
    }
}

fn controlled<T: Re>(k: &Kind, goal: usize, ops: usize, forced: usize, resumes_first: bool) {
    let w = world(goal, &[]);
    let calls = Rc::new(Cell::new(0usize));
    let log = Rc::new(RefCell::new(vec![]));
    {
        let calls = calls.clone();
        w.borrow_mut().hook = Some(Box::new(move || calls.set(calls.get() + 1)));
    }
    w.borrow_mut().record = true;
    let mut o = build::<T>(&w, k, Box::new(Answers { w: w.clone(), forced, calls: calls.clone(), log: log.clone() }));
    let mut at = 0;
    let mut seen: Best = None;
    let mut agents = false;
    for n in 0..ops {
        let resume = choose(2) == (n > 0 || resumes_first) as usize;
        note!("{}", if resume { "resumption" } else { "run" });
        log.borrow_mut().clear();
        let r = if resume { o.next_iterations() } else { o.find_min() };
        let trace = std::mem::take(&mut w.borrow_mut().trace);
        let log = log.borrow();
        let (last, nos) = match log.split_last() {
            None => fail!("asked", "the criterion is not asked at all"),
            Some(x) => x,
        };
        ensure!(last.0, "ended", "the run ends although the criterion says no");
        ensure!(nos.iter().all(|a| !a.0), "went on", "the run goes on after a yes");
        // after the yes there is one call of the logger, nothing else
        ensure!(calls.get() == last.1 + 1, "after", "{} calls of components after the yes, beside the logger", calls.get() - last.1 - 1);
        // the course of events
        let mut e = trace.iter();
        let mut next = || e.next().cloned();
        let mut cur = next();
        let is_eval = |c: &Option<Ev>| matches!(c, Some(Ev::Eval(..)));
        if !resume {
            ensure!(cur == Some(Ev::Created), "created", "the run does not begin with the creation of points");
            cur = next();
            while is_eval(&cur) {
                cur = next();
            }
            at = 0;
            agents = true;
            match cur {
                Some(Ev::Start(0, b)) => seen = b,
                _ => fail!("start", "the first event is {:?} instead of the start at iteration 0", cur.as_ref().map(Shown)),
            }
            cur = next();
        }
        let want = Some(Ev::Resume(at, seen.clone()));
        ensure!(cur == want, "resume", "the event {:?} instead of {:?}", cur.as_ref().map(Shown), want.as_ref().map(Shown));
        cur = next();
        for a in log.iter() {
            let want = Some(Ev::Check(at, seen.clone()));
            ensure!(cur == want, "check", "the event {:?} instead of {:?}", cur.as_ref().map(Shown), want.as_ref().map(Shown));
            cur = next();
            if a.0 {
                break;
            }
            while is_eval(&cur) {
                ensure!(agents, "agents", "something is evaluated in the resumption of a search never begun");
                cur = next();
            }
            at += 1;
            match cur {
                Some(Ev::Next(i, ref b)) if i == at => seen = b.clone(),
                _ => fail!("iteration", "the event {:?} instead of iteration {}", cur.as_ref().map(Shown), at),
            }
            cur = next();
        }
        let want = Some(Ev::Finish(at, seen.clone()));
        ensure!(cur == want, "finish", "the event {:?} instead of {:?}", cur.as_ref().map(Shown), want.as_ref().map(Shown));
        cur = next();
        ensure!(cur.is_none(), "end", "the event {:?} after the end", cur.as_ref().map(Shown));
        ensure!(best_of(&r) == seen, "result", "the result {:?} is not what the logger was shown last", r);
        ensure!(agents || r.is_none(), "agents", "a search never begun yields {:?}", r);
        state((n, resume, at, log.len(), seen.clone()));
    }
    w.borrow_mut().hook = None;
}

fn c32(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    for (n, (name, k)) in kinds().into_iter().enumerate() {
        for first in [false, true] {
            both!(
                v,
                format!("{}, every answer, {}", name, if first { "resumption or run first" } else { "run or resumption first" }),
                |mut x: Task| {
                    x.policy.fixed = seed + 11 + n as u64;
                    x
                },
                controlled(&k, n % 4, 4, t.pick(3, 5), first)
            );
            both!(
                v,
                format!("{}, answers and draws, {}", name, if first { "resumption or run first" } else { "run or resumption first" }),
                |x: Task| sparse(x, seed + 33 + n as u64, 2),
                controlled(&k, (n + 1) % 4, t.pick(4, 5), 3, first)
            );
        }
        both!(
            v,
            format!("{}, long", name),
            |mut x: Task| {
                x.policy.fixed = seed + 51 + n as u64;
                x.bound(1)
            },
            controlled(&k, (n + 2) % 4, 3, 60, false)
        );
    }
    for (n, (name, k)) in kinds().into_iter().enumerate() {
        let mut k = k;
        if let Kind::Ga(g) = &mut k {
            g.limit = 3;
        }
        if n % 3 == 0 || t == Tier::Thorough {
            both!(
                v,
                format!("{}, very long", name),
                |mut x: Task| {
                    x.policy.fixed = seed + 71 + n as u64;
                    x.bound(0)
                },
                controlled(&k, (n + 3) % 4, 2, 3000, false)
            );
        }
    }
    v
}

// ----------------------------------------------------------------------------------------------------------- C33

pub const C33: Prop = Prop {
    id: "C33",
    tasks: c33,
    bounds: "24 component combinations (12 genetic, 12 swarm), 6 stop criteria (5 of the library, composites with a failing member among them): a run of 2 iterations with a resumption cut short by a panic at every call of every component (goal, stop criterion, logger, creator, pairing, crossing and mutation of genes and chromosomes, filters, limit, velocity initializer, calculator, schedule, limiters, post-moves), alone, followed by a second cut at every call, or before and after complete runs; then a complete run of 3 iterations; every draw within 1 (2) deviations and every cut; f32 and f64",
    assumptions: &["components draw from rand::thread_rng", "the goal function depends on the point only", "the caller catches the panic (unwinding)"],
};

struct Cut;

/// Runs f until the call `at` of a component, which fails.
fn cut(w: &Wr, at: usize, f: impl FnOnce()) -> bool {
    let n = Cell::new(0);
    w.borrow_mut().hook = Some(Box::new(move || {
        if n.get() == at {
            panic_any(Cut);
        }
        n.set(n.get() + 1);
    }));
    let depth = rand::mc::depth();
    let r = catch_unwind(AssertUnwindSafe(f));
    w.borrow_mut().hook = None;
    match r {
        Ok(()) => false,
        Err(p) if p.is::<Cut>() => {
            rand::mc::truncate(depth);
            true
        }
        Err(p) => resume_unwind(p),
    }
}

fn calls_of(w: &Wr, f: impl FnOnce()) -> usize {
    let n = Rc::new(Cell::new(0));
    let m = n.clone();
    w.borrow_mut().hook = Some(Box::new(move || m.set(m.get() + 1)));
    f();
    w.borrow_mut().hook = None;
    n.get()
}

/// 0: cut; 1: cut, cut; 2: run, cut; 3: cut, run, cut
fn recovers<T: Re>(k: &Kind, goal: usize, stop: usize, history: usize, len: usize, fixed_seed: u64) {
    let w = world(goal, &[]);
    let policy = |n: u64| Policy { fixed: fixed_seed + n, ..Policy::default() };
    let earlier = |o: &mut dyn Opt<T>| {
        w.borrow_mut().target = 1;
        o.find_min();
        w.borrow_mut().target = 2;
        o.next_iterations();
    };
    let mut used = build::<T>(&w, k, criterion(&w, stop));
    let mut cuts = 0;
    let pattern: &[bool] = [&[true][..], &[true, true], &[false, true], &[true, false, true]][history];
    for (i, c) in pattern.iter().enumerate() {
        let p = policy(i as u64);
        if !c {
            fixed(&p, || earlier(&mut *used));
            continue;
        }
        // as many calls as the run has if it is not cut
        let n = fixed(&p, || {
            let mut o = build::<T>(&w, k, criterion(&w, stop));
            calls_of(&w, || earlier(&mut *o))
        });
        let at = choose(n);
        note!("cut at call {} of {}", at, n);
        cuts += fixed(&p, || cut(&w, at, || earlier(&mut *used))) as usize;
    }
    ensure!(cuts > 0 || history > 0, "cut", "the run with the failing component ends regularly");
    w.borrow_mut().record = true;
    w.borrow_mut().target = len;
    note!("the new run");
    let (r, values) = recorded(|| used.find_min());
    let a = std::mem::take(&mut w.borrow_mut().trace);
    note!("the fresh one");
    let mut fresh = build::<T>(&w, k, criterion(&w, stop));
    let q = following(values, || fresh.find_min());
    let b = std::mem::take(&mut w.borrow_mut().trace);
    diff(&a, &b, ["the run after the interruption", "the run on a fresh optimizer"]);
    ensure!(best_of(&r) == best_of(&q), "result", "after the interruption the result is {:?}, on a fresh optimizer {:?}", r, q);
}

fn c33(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    for (n, (name, k)) in kinds().into_iter().enumerate() {
        for (h, what) in ["a cut", "two cuts", "a run and a cut", "a cut, a run, a cut"].iter().enumerate() {
            for stop in [0, 2, 3, 5, 7, 8] {
                if h % 2 == 1 && t == Tier::Quick && (n + stop + h) % 6 != 0 {
                    continue;
                }
                let s = seed + (n * 40 + h * 10 + stop) as u64;
                both!(
                    v,
                    format!("{}, criterion {}, after {}", name, stop, what),
                    |mut x: Task| {
                        x.policy.fixed = s + 5;
                        x
                    },
                    recovers(&k, (n + h + stop) % 4, stop, h, 3, s)
                );
            }
            both!(
                v,
                format!("{}, after {}, draws", name, what),
                |x: Task| sparse(x, seed + 60 + n as u64, t.pick(2, 3)),
                recovers(&k, (n + h + 1) % 4, 0, h, 2, seed + n as u64)
            );
        }
    }
    v
}

// ----------------------------------------------------------------------------------------------------------- C34

pub const C34: Prop = Prop {
    id: "C34",
    tasks: c34,
    bounds: "24 component combinations (12 genetic, 12 swarm), runs of 2 to 3 iterations with a pause and of 25 iterations of larger populations: every draw and goal value (from a menu with ties, NaN and infinities) within 1 (2) deviations around pseudo-random default executions, each repeated with 11 other assignments of values in the same order (consecutive integers, adjacent floats around 1, 0 and -1e308, subnormals, values of any magnitude, all negative, around zero, far apart and very close); f32 and f64",
    assumptions: &["components draw from rand::thread_rng", "the stop criterion does not look at values"],
};

const MAPS: usize = 11;
/// Increasing functions of the rank of a value.
fn value_at(map: usize, i: usize, n: usize) -> f64 {
    let (x, m) = (i as f64, n as f64);
    match map {
        0 => x,
        1 => f64::from_bits(1.0f64.to_bits() + i as u64),
        2 => f64::from_bits(i as u64),
        3 => x - m,
        4 => x - (n / 2) as f64,
        5 => (x * 2.0 - m) * (1.7e308 / m),
        6 => -f64::from_bits(1e308f64.to_bits() + (n - i) as u64),
        7 => 2f64.powf((x - m / 2.0) * (1800.0 / (m + 1.0))),
        8 => 1e15 + x * 0.125,
        9 => -f64::from_bits((n - i) as u64),
        // pairs of values very close to each other, pairs far apart
        _ => f64::from_bits((1000.0 * (1 + i / 2) as f64).to_bits() + (i % 2) as u64),
    }
}

fn ordinal<T: Re>(k: &Kind, goal: usize, menu: &[f64], lens: [usize; 2]) {
    let w = world(goal, menu);
    w.borrow_mut().record = true;
    let run = |w: &Wr| {
        let mut o = build::<T>(w, k, criterion(w, 0));
        w.borrow_mut().target = lens[0];
        o.find_min();
        w.borrow_mut().target = lens[1];
        o.next_iterations()
    };
    let (_, values) = recorded(|| run(&w));
    let a = std::mem::take(&mut w.borrow_mut().trace);
    let mut ranks: Vec<f64> = a
        .iter()
        .filter_map(|e| if let Ev::Eval(_, v) = e { Some(f64::from_bits(*v)) } else { None })
        .filter(|v| v.is_finite())
        .collect();
    ranks.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ranks.dedup();
    for map in 0..MAPS {
        let table: Rc<Vec<(f64, f64)>> = Rc::new(ranks.iter().enumerate().map(|(i, v)| (*v, value_at(map, i, ranks.len()))).collect());
        ensure!(table.windows(2).all(|p| p[0].1 < p[1].1), "map", "the assignment {} does not increase", map);
        note!("values assigned in the same order ({}): {:?}", map, table);
        w.borrow_mut().remap = Some(table.clone());
        following(values.clone(), || run(&w));
        w.borrow_mut().remap = None;
        let b = std::mem::take(&mut w.borrow_mut().trace);
        let to = |x: u64| {
            let v = f64::from_bits(x);
            bits(table.iter().find(|p| p.0 == v).map_or(v, |p| p.1))
        };
        let best = |b: &Best| b.as_ref().map(|b| (b.0.clone(), to(b.1)));
        let want: Vec<Ev> = a
            .iter()
            .map(|e| match e {
                Ev::Eval(x, v) => Ev::Eval(x.clone(), to(*v)),
                Ev::Start(i, s) => Ev::Start(*i, best(s)),
                Ev::Resume(i, s) => Ev::Resume(*i, best(s)),
                Ev::Next(i, s) => Ev::Next(*i, best(s)),
                Ev::Finish(i, s) => Ev::Finish(*i, best(s)),
                Ev::Check(i, s) => Ev::Check(*i, best(s)),
                Ev::Created => Ev::Created,
            })
            .collect();
        diff(&want, &b, ["the run, its values replaced", "the run with values in the same order"]);
    }
    state(format!("{:?}", w.borrow().last));
}

fn c34(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    for (n, (name, k)) in kinds().into_iter().enumerate() {
        for goal in 0..3 {
            both!(
                v,
                format!("{}, goal {}", name, goal),
                |x: Task| rich(x, seed + 3 + (n * 3 + goal) as u64, t.pick(1, 1)),
                ordinal(&k, goal, &[NAN, INF, 0.5, 0.0, -INF], [1, 3])
            );
            both!(
                v,
                format!("{}, goal {}, sparse", name, goal),
                |x: Task| sparse(x, seed + 103 + (n * 3 + goal) as u64, t.pick(1, 2)),
                ordinal(&k, goal, &[0.25, NAN], [1, 2])
            );
            let mut k = k;
            match &mut k {
                Kind::Ga(g) => {
                    g.init = 12 + n;
                    g.limit = 8 + n % 5;
                }
                Kind::Pso(p) => p.particles = 6 + n % 5,
            }
            for s in 0..t.pick(2, 8) {
                both!(
                    v,
                    format!("{}, goal {}, longer {}", name, goal, s),
                    |x: Task| x.floats(&DRAWS).base(seed + 203 + (n * 3 + goal) as u64 + 100 * s).bound(0),
                    ordinal(&k, goal, &[], [10, 25])
                );
            }
        }
        // every assignment of values
        let mut k = k;
        match &mut k {
            Kind::Ga(g) => {
                g.init = 2;
                g.limit = 2;
                g.pairing = [3, 1][n % 2];
            }
            Kind::Pso(p) => p.particles = 2,
        }
        both!(
            v,
            format!("{}, all values", name),
            |mut x: Task| {
                x.policy.fixed = seed + 90 + n as u64;
                x.bound(t.pick(3, 5))
            },
            ordinal(&k, 3, &[2.0, NAN, 0.5, 3.0], [1, 2])
        );
    }
    v
}
