//! C22 to C25: statistics, call counters, text loggers.

use super::Prop;
use crate::engine::*;
use crate::util::*;
use num::Float;
use optlib::genetic::*;
use optlib::particleswarm::*;
use optlib::tools::logging::*;
use optlib::tools::statistics::*;
use optlib::tools::stopchecker::StopChecker;
use optlib::{AlgorithmState, Goal, GoalFromFunction, IterativeOptimizer, Optimizer};
use std::cell::RefCell;
use std::fmt::{Debug, Display};
use std::io;
use std::rc::Rc;
use std::time::{Duration, Instant};

const INF: f64 = f64::INFINITY;
const NAN: f64 = f64::NAN;

type Sol = Option<(Vec<f64>, f64)>;

fn key(s: &Sol) -> Option<(Vec<u64>, u64)> {
    s.as_ref().map(|s| (s.0.iter().map(|x| bits(*x)).collect(), bits(s.1)))
}

// ------------------------------------------------------------------------------------------------ an environment

struct Env {
    next: u32,
    target: usize,
    iteration: usize,
    menu: Vec<f64>,
    kills: bool,
    evals: usize,
    init: usize,
    /// of the current segment
    shown: Vec<Sol>,
}
type E = Rc<RefCell<Env>>;

impl Env {
    fn new(menu: Vec<f64>, kills: bool, init: usize) -> E {
        Rc::new(RefCell::new(Env { next: 0, target: 0, iteration: 0, menu, kills, evals: 0, init, shown: vec![] }))
    }
    fn fresh(&mut self) -> Vec<f64> {
        self.next += 1;
        vec![self.next as f64, -0.5 * self.next as f64]
    }
}

struct EGoal(E);
impl Goal<Vec<f64>> for EGoal {
    fn get(&mut self, _: &Vec<f64>) -> f64 {
        let mut e = self.0.borrow_mut();
        e.evals += 1;
        e.menu[choose(e.menu.len())]
    }
}
struct EStop(E);
impl StopChecker<Vec<f64>> for EStop {
    fn can_stop(&mut self, s: &dyn AlgorithmState<Vec<f64>>) -> bool {
        s.get_iteration() >= self.0.borrow().target
    }
}
struct EMake(E);
impl Creator<Vec<f64>> for EMake {
    fn create(&mut self) -> Vec<Vec<f64>> {
        let mut e = self.0.borrow_mut();
        (0..e.init).map(|_| e.fresh()).collect()
    }
}
impl CoordinatesInitializer<f64> for EMake {
    fn get_coordinates(&mut self) -> Vec<Vec<f64>> {
        self.create()
    }
}
impl VelocityInitializer<f64> for EMake {
    fn get_velocity(&mut self) -> Vec<Vec<f64>> {
        let n = self.0.borrow().init;
        vec![vec![0.0, 0.0]; n]
    }
}
impl VelocityCalculator<f64> for EMake {
    fn calc_new_velocity(&mut self, _: &Swarm<f64>, _: &Particle<f64>) -> Vec<f64> {
        self.0.borrow_mut().fresh()
    }
}
impl Pairing<Vec<f64>> for EMake {
    fn get_pairs(&mut self, p: &Population<Vec<f64>>) -> Vec<Vec<usize>> {
        if p.len() == 0 {
            vec![]
        } else {
            vec![vec![0]]
        }
    }
}
impl Cross<Vec<f64>> for EMake {
    fn cross(&mut self, _: &[&Vec<f64>]) -> Vec<Vec<f64>> {
        vec![self.0.borrow_mut().fresh()]
    }
}
impl Mutation<Vec<f64>> for EMake {
    fn mutation(&mut self, c: &Vec<f64>) -> Vec<f64> {
        c.clone()
    }
}
impl Selection<Vec<f64>> for EMake {
    fn kill(&mut self, p: &mut Population<Vec<f64>>) {
        if !self.0.borrow().kills {
            return;
        }
        match choose(3) {
            0 => {}
            1 => (0..p.len()).for_each(|i| p[i].kill()),
            _ => (0..p.len().min(1)).for_each(|i| p[i].kill()),
        }
    }
}
struct Recorder(E);
impl Logger<Vec<f64>> for Recorder {
    fn next_iteration(&mut self, s: &dyn AlgorithmState<Vec<f64>>) {
        let mut e = self.0.borrow_mut();
        e.iteration = s.get_iteration();
        e.shown.push(s.get_best_solution());
    }
}

fn genetic<'a>(e: &E) -> GeneticOptimizer<'a, Vec<f64>> {
    GeneticOptimizer::new(
        Box::new(EGoal(e.clone())),
        Box::new(EStop(e.clone())),
        Box::new(EMake(e.clone())),
        Box::new(EMake(e.clone())),
        Box::new(EMake(e.clone())),
        Box::new(EMake(e.clone())),
        vec![Box::new(EMake(e.clone()))],
        vec![],
    )
}
fn swarm<'a>(e: &E) -> ParticleSwarmOptimizer<'a, f64> {
    ParticleSwarmOptimizer::new(
        Box::new(EGoal(e.clone())),
        Box::new(EStop(e.clone())),
        Box::new(EMake(e.clone())),
        Box::new(EMake(e.clone())),
        Box::new(EMake(e.clone())),
    )
}

// ----------------------------------------------------------------------------------------------------------- C22

pub const C22: Prop = Prop {
    id: "C22",
    tasks: c22,
    bounds: "both optimizers, every sequence of up to 3 (4) runs and resumptions of 0 to 2 iterations with every value from {1, 2, NaN} (fewer for longer ones) and extinction, one optimizer or a new one per run on the same statistics, the first of them under way already when the logger is attached or not; longer sequences with up to 2 (3) deviations; unions of every combination of statistics of up to 3 runs",
    assumptions: &["statistics that hold runs already are attached when a run starts"],
};

struct Model {
    results: Vec<Sol>,
    lines: Vec<Vec<Sol>>,
}

impl Model {
    fn check(&self, s: &Statistics<Vec<f64>>, what: &str) {
        let results: Vec<_> = s.get_results().iter().map(key).collect();
        let want: Vec<_> = self.results.iter().map(key).collect();
        ensure!(s.get_run_count() == want.len(), "count", "{}: run count {} instead of {}", what, s.get_run_count(), want.len());
        ensure!(results == want, "results", "{}: results {:?} instead of {:?}", what, s.get_results(), self.results);
        let lines: Vec<Vec<_>> = s.get_convergence().iter().map(|l| l.iter().map(key).collect()).collect();
        let want: Vec<Vec<_>> = self.lines.iter().map(|l| l.iter().map(key).collect()).collect();
        ensure!(lines == want, "convergence", "{}: convergence {:?} instead of {:?}", what, s.get_convergence(), self.lines);
    }
}

/// `ops` operations recorded into `s`.
fn record(pso: bool, e: &E, ops: usize, lens: &[usize], fresh: bool, s: &mut Statistics<Vec<f64>>, m: &mut Model) {
    let mut done = 0;
    let mut trace = vec![];
    while done < ops {
        // one optimizer: until all operations are done or a new one is wanted
        let mut ga = genetic(e);
        let mut ps = swarm(e);
        // nothing is recorded yet: the search may be under way already, the continuation is the first run then
        let late = fresh && m.lines.is_empty() && choose(3) == 2;
        if late {
            let len = lens[choose(lens.len())];
            {
                let mut x = e.borrow_mut();
                x.iteration = len;
                x.target = len;
            }
            if pso {
                ps.find_min();
            } else {
                ga.find_min();
            }
        }
        let log: Vec<Box<dyn Logger<Vec<f64>>>> = vec![Box::new(StatisticsLogger::new(s)), Box::new(Recorder(e.clone()))];
        if pso {
            ps.set_loggers(log);
        } else {
            ga.set_loggers(log);
        }
        let mut first = true;
        while done < ops {
            let op = if first { late as usize } else { choose(if fresh { 3 } else { 2 }) };
            if op == 2 {
                break;
            }
            let run = op == 0;
            let len = lens[choose(lens.len())];
            {
                let mut x = e.borrow_mut();
                if run {
                    x.iteration = 0;
                }
                x.target = x.iteration + len;
                x.shown.clear();
            }
            let r = match (pso, run) {
                (true, true) => ps.find_min(),
                (true, false) => ps.next_iterations(),
                (false, true) => ga.find_min(),
                (false, false) => ga.next_iterations(),
            };
            let shown = std::mem::take(&mut e.borrow_mut().shown);
            if run || first {
                m.results.push(r);
                m.lines.push(shown);
            } else {
                *m.results.last_mut().unwrap() = r;
                m.lines.last_mut().unwrap().extend(shown);
            }
            trace.push((if first && late { "search under way: resume" } else if first { "new optimizer: run" } else if run { "run" } else { "resume" }, len));
            first = false;
            done += 1;
        }
    }
    note!("{:?}", trace);
    state((pso, trace.len(), m.lines.iter().map(|l| l.iter().map(key).collect::<Vec<_>>()).collect::<Vec<_>>()));
}

fn recorded_runs(pso: bool, e: &E, ops: usize, lens: &[usize], fresh: bool) -> (Statistics<Vec<f64>>, Model) {
    let mut s = Statistics::new();
    let mut m = Model { results: vec![], lines: vec![] };
    record(pso, e, ops, lens, fresh, &mut s, &mut m);
    m.check(&s, "after the sequence");
    (s, m)
}

fn c22(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    for pso in [false, true] {
        let name = if pso { "swarm" } else { "genetic" };
        for ops in 0..=t.pick(4usize, 5) {
            v.push(Task::new(format!("{}, {} operations", name, ops), move || {
                let e = Env::new(vec![1.0], false, 1);
                recorded_runs(pso, &e, ops, if ops < 4 { &[0, 1, 2] } else { &[1, 0] }, true);
            }));
        }
        for ops in 1..=3usize {
            v.push(Task::new(format!("{}, values, {} operations", name, ops), move || {
                let e = Env::new(if ops < 3 { vec![2.0, 1.0, NAN] } else { vec![2.0, 1.0] }, ops < 3, 1);
                recorded_runs(pso, &e, ops, if ops < 3 { &[1, 2] } else { &[1] }, true);
            }));
        }
        v.push(
            Task::new(format!("{}, longer sequences", name), move || {
                let e = Env::new(vec![5.0, 4.0, NAN, 3.0, INF, 2.0, -INF], true, 2);
                recorded_runs(pso, &e, 8, &[2, 1, 0, 3], true);
            })
            .bound(t.pick(2, 3)),
        );
        for s in 0..t.pick(4u64, 8) {
            v.push(
                Task::new(format!("{}, long runs {}", name, s), move || {
                    let e = Env::new(vec![5.0, 4.0, NAN, 3.0, INF, 2.0, -INF, 1.0, 0.5], s % 2 == 0, 3);
                    recorded_runs(pso, &e, 7, &[20, 10, 70], true);
                })
                .base(seed + 40 + s)
                .bound(1),
            );
        }
        v.push(
            Task::new(format!("{}, a very long run", name), move || {
                let e = Env::new(vec![5.0, 4.0, NAN, 3.0, INF, 2.0, -INF, 1.0, 0.5], false, 2);
                recorded_runs(pso, &e, 1, &[3000], true);
            })
            .base(seed + 80)
            .bound(0),
        );
        v.push(
            Task::new(format!("{}, a run of 20000 iterations", name), move || {
                let e = Env::new(vec![5.0, 4.0, NAN, 3.0, INF, 2.0, -INF, 1.0, 0.5], false, 2);
                recorded_runs(pso, &e, 1, &[20_000], true);
            })
            .base(seed + 82)
            .horizon(10_000_000)
            .bound(0),
        );
        v.push(
            Task::new(format!("{}, very many runs", name), move || {
                let e = Env::new(vec![5.0, 4.0, NAN, 3.0, INF, 2.0, -INF, 1.0, 0.5], true, 2);
                recorded_runs(pso, &e, 1200, &[1, 2, 0], true);
            })
            .base(seed + 81)
            .bound(0),
        );
        v.push(Task::new(format!("{}, unions", name), move || {
            let e = Env::new(vec![1.0], false, 1);
            let (mut a, mut m) = recorded_runs(pso, &e, choose(4), &[1, 2], false);
            let n = 1 + choose(2);
            for _ in 0..n {
                let (b, mut mb) = recorded_runs(pso, &e, choose(3), &[1, 0], false);
                let copy = b.clone();
                mb.check(&copy, "the copy");
                a.unite(b);
                m.results.append(&mut mb.results);
                m.lines.append(&mut mb.lines);
                m.check(&a, "after uniting");
            }
            // recording goes on
            record(pso, &e, choose(3), &[2, 1], false, &mut a, &mut m);
            m.check(&a, "after recording into the union");
        }));
    }
    v
}

// ----------------------------------------------------------------------------------------------------------- C23

pub const C23: Prop = Prop {
    id: "C23",
    tasks: c23,
    bounds: "every list of up to 5 (6) results over a menu of 6 values and no result, every set of up to 4 convergence lines of up to 4 entries, every solution with up to 3 coordinates relative to the accepted interval; structured lists of up to 5000 results; values of scale 1e-90 to 1e90; f32 and f64; convergence lines of 70000 iterations, 70001 lines",
    assumptions: &["sums of values and squares are representable"],
};

fn close(a: f64, b: f64, tol: f64) -> bool {
    (a.is_nan() && b.is_nan()) || a == b || (a - b).abs() <= tol
}

fn mean(v: &[f64]) -> f64 {
    v.iter().sum::<f64>() / v.len() as f64
}
fn deviation(v: &[f64]) -> f64 {
    let m = mean(v);
    (v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / (v.len() - 1) as f64).sqrt()
}
fn size(v: &[f64]) -> f64 {
    v.iter().fold(0.0, |a: f64, x| a.max(x.abs()))
}

fn check_stat<T: Float + Debug>(list: &Vec<Option<(Vec<T>, f64)>>, eps: f64) {
    let goals: Vec<f64> = list.iter().flatten().map(|s| s.1).collect();
    let n = goals.len();
    let tol = |v: &[f64], eps: f64| 4.0 * eps * (v.len() as f64 + 4.0) * size(v);
    let g = list.get_average_goal();
    let gd = list.get_standard_deviation_goal();
    let a = list.get_average();
    let d = list.get_standard_deviation();
    let show = || format!("{:?}", if list.len() < 12 { &list[..] } else { &list[..12] });
    if n == 0 {
        ensure!(g.is_none() && a.is_none() && gd.is_none() && d.is_none(), "absent", "no solutions, but averages {:?} {:?} deviations {:?} {:?}", g, a, gd, d);
        return;
    }
    let e = f64::EPSILON;
    let want = mean(&goals);
    ensure!(g.map_or(false, |x| close(x, want, tol(&goals, e))), "average", "average goal {:?} instead of {} of {}", g, want, show());
    let (point, pg) = match a {
        Some(x) => x,
        None => fail!("average", "no average of {}", show()),
    };
    ensure!(close(pg, want, tol(&goals, e)), "average", "average goal {} instead of {} of {}", pg, want, show());
    let dims = list.iter().flatten().next().unwrap().0.len();
    ensure!(point.len() == dims, "average", "average {:?} of {}", point, show());
    let column = |i: usize| -> Vec<f64> { list.iter().flatten().map(|s| s.0[i].to_f64().unwrap()).collect() };
    for i in 0..dims {
        let c = column(i);
        let want = mean(&c);
        let have = point[i].to_f64().unwrap();
        ensure!(close(have, want, tol(&c, eps)), "average", "average coordinate {} is {} instead of {} of {}", i, have, want, show());
    }
    if n < 2 {
        ensure!(gd.is_none() && d.is_none(), "absent", "one solution, but deviations {:?} {:?}", gd, d);
        return;
    }
    let want = deviation(&goals);
    // a deviation near zero is the square root of the rounding errors
    let sd = |v: &[f64], eps: f64| 8.0 * eps * (v.len() as f64 + 8.0) * size(v);
    ensure!(gd.map_or(false, |x| close(x, want, sd(&goals, e))), "deviation", "goal deviation {:?} instead of {} of {}", gd, want, show());
    let (point, pg) = match d {
        Some(x) => x,
        None => fail!("deviation", "no deviation of {}", show()),
    };
    ensure!(close(pg, want, sd(&goals, e)), "deviation", "goal deviation {} instead of {} of {}", pg, want, show());
    ensure!(point.len() == dims, "deviation", "deviation {:?} of {}", point, show());
    for i in 0..dims {
        let c = column(i);
        let want = deviation(&c);
        let have = point[i].to_f64().unwrap();
        ensure!(close(have, want, sd(&c, eps)), "deviation", "deviation of coordinate {} is {} instead of {} of {}", i, have, want, show());
    }
    state((n, list.len(), bits(pg)));
    note!("average {:?}, deviation {:?} of {}", g, gd, show());
}

fn check_rates<T: Float + Debug>(list: &Vec<Option<(Vec<T>, f64)>>) {
    let expected = 1.0;
    for delta in [0.5, 0.0, 1e-9, INF] {
        let want = list.iter().flatten().filter(|s| (s.1 - expected).abs() < delta).count();
        let p = get_predicate_success_goal(expected, delta);
        let r = list.get_success_rate(&p);
        let n = list.len();
        let ok = if n == 0 { r.is_none() } else { r.map_or(false, |r| close(r, want as f64 / n as f64, 1e-12)) };
        ensure!(ok, "rate", "success rate {:?} of {:?} with delta {}, expected {} of {}", r, list, delta, want, n);
    }
    let r = list.get_success_rate(|s| s.1 > 1.5);
    let want = list.iter().flatten().filter(|s| s.1 > 1.5).count();
    ensure!(
        if list.is_empty() { r.is_none() } else { r.map_or(false, |r| close(r, want as f64 / list.len() as f64, 1e-12)) },
        "rate",
        "success rate {:?} of {:?} with a predicate",
        r,
        list
    );
}

fn lists<T: Float + Debug + Send + Sync + 'static>(v: &mut Vec<Task>, t: Tier, name: &'static str, eps: f64) {
    for n in 0..=t.pick(5usize, 6) {
        v.push(Task::new(format!("results {} n={}", name, n), move || {
            let goals = [1.0, 2.0, 1.25, -3.0, 1e6, 0.5];
            let first = [1.0, 0.1, -2.5, 1e3, 0.0, 1e-3];
            let k = if n <= 5 { 7 } else { 5 };
            let list: Vec<Option<(Vec<T>, f64)>> = (0..n)
                .map(|i| match choose(k) {
                    0 => None,
                    k => Some((vec![T::from(first[k - 1]).unwrap(), T::from(first[(k + 1) % 6] + i as f64).unwrap(), T::from(0.7).unwrap()], goals[k - 1])),
                })
                .collect();
            check_stat(&list, eps);
            check_rates(&list);
        }));
    }
    for (i, scale) in [1e-9, 1e-15, 1e15, 1e-5].iter().copied().enumerate() {
        v.push(Task::new(format!("results of scale {:e} {}", scale, name), move || {
            let n = 1 + choose(t.pick(4, 5));
            let menu = [1.0, 2.0, -1.0, 1.0 + 1e-6, 0.0, 1000.0];
            // goal values of still more extreme scales
            let goal_scale = [scale, scale.powi(6), scale * scale][if i < 3 { i } else { 0 }];
            let list: Vec<Option<(Vec<T>, f64)>> = (0..n)
                .map(|_| match choose(6) {
                    0 => None,
                    k => Some((vec![T::from(menu[k] * scale).unwrap(), T::from(menu[(k + 2) % 6] * scale).unwrap()], menu[k] * goal_scale)),
                })
                .collect();
            check_stat(&list, eps);
        }));
    }
    v.push(Task::new(format!("non-finite results {}", name), move || {
        let goals = [1.0, NAN, INF, -INF, 2.0];
        let n = choose(5);
        let list: Vec<Option<(Vec<T>, f64)>> = (0..n)
            .map(|_| match choose(6) {
                0 => None,
                k => Some((vec![T::from(1.0).unwrap()], goals[k - 1])),
            })
            .collect();
        check_rates(&list);
        let g: Vec<f64> = list.iter().flatten().map(|s| s.1).collect();
        if g.iter().all(|x| x.is_finite()) {
            check_stat(&list, eps);
        } else {
            // whatever the average of non-finite values is, it is not a finite number
            let a = list.get_average_goal();
            ensure!(a.map_or(false, |a| !a.is_finite()), "average", "average of {:?} is {:?}", g, a);
            let a = list.get_average();
            ensure!(
                a.as_ref().map_or(false, |a| !a.1.is_finite() && a.0 == vec![T::one()]),
                "average",
                "average of {:?} is {:?}",
                list,
                a
            );
            let d = (list.get_standard_deviation_goal(), list.get_standard_deviation());
            if g.len() < 2 {
                ensure!(d.0.is_none() && d.1.is_none(), "absent", "one solution, but deviations {:?}", d);
            } else {
                ensure!(d.0.map_or(false, |d| !d.is_finite()), "deviation", "deviation of {:?} is {:?}", g, d.0);
                ensure!(
                    d.1.as_ref().map_or(false, |d| !d.1.is_finite() && d.0 == vec![T::zero()]),
                    "deviation",
                    "deviation of {:?} is {:?}",
                    list,
                    d.1
                );
            }
        }
    }));
    v.push(Task::new(format!("non-finite coordinates {}", name), move || {
        let n = 1 + choose(3);
        let list: Vec<Option<(Vec<T>, f64)>> = (0..n)
            .map(|i| {
                if choose(4) == 0 {
                    return None;
                }
                Some(((0..2).map(|_| [T::one(), T::nan(), T::infinity(), T::neg_infinity()][choose(4)]).collect(), i as f64))
            })
            .collect();
        let some: Vec<&(Vec<T>, f64)> = list.iter().flatten().collect();
        let (a, d) = (list.get_average(), list.get_standard_deviation());
        ensure!(a.is_some() == !some.is_empty() && d.is_some() == (some.len() > 1), "absent", "{:?}: average {:?}, deviation {:?}", list, a, d);
        for i in 0..2 {
            let finite = some.iter().all(|s| s.0[i].is_finite());
            for (what, x) in [("average", &a), ("deviation", &d)] {
                if let Some(x) = x {
                    let want = if what == "average" { T::one() } else { T::zero() };
                    ensure!(
                        x.0.len() == 2 && if finite { x.0[i] == want } else { !x.0[i].is_finite() },
                        what,
                        "{} of {:?} is {:?}",
                        what,
                        list,
                        x
                    );
                }
            }
        }
        state((n, some.len()));
    }));
    for n in [1usize, 2, 10, 33, 100, 300, 2000, 5000] {
        for pat in 0..5 {
            v.push(Task::new(format!("larger results {} n={} pattern {}", name, n, pat), move || {
                let off = [0.0, 1e3, -50.0, 1.0][choose(4)];
                let dims = [1, 2, 5, 20, 0][choose(5)];
                let every = [0, 2, 3, 7][choose(4)];
                let list: Vec<Option<(Vec<T>, f64)>> = (0..n)
                    .map(|i| {
                        if every > 0 && i % every == 0 {
                            return None;
                        }
                        let x = match pat {
                            0 => i as f64,
                            1 => (i * 7919 % 101) as f64 / 8.0,
                            2 => 3.0,
                            3 => if i % 2 == 0 { 1e-3 } else { -1e-3 },
                            _ => 1.0 / (i as f64 + 1.0),
                        } + off;
                        Some(((0..dims).map(|d| T::from(x * (d as f64 + 1.0) - d as f64).unwrap()).collect(), x))
                    })
                    .collect();
                check_stat(&list, eps);
                check_rates(&list);
            }));
        }
    }
    v.push(Task::new(format!("solution predicate {}", name), move || {
        let d = choose(4);
        let e: Vec<T> = [1.0, -2.0, 0.5][..d].iter().map(|x| T::from(*x).unwrap()).collect();
        let w = [T::from([0.5, 0.0][choose(2)]).unwrap(), T::from(0.25).unwrap(), T::from(4.0).unwrap()];
        let delta: Vec<T> = w[..d].to_vec();
        let mut want = true;
        let x: Vec<T> = (0..d)
            .map(|i| {
                let half = delta[i] / (T::one() + T::one());
                let (v, ok) = match choose(12) {
                    0 => (e[i], true),
                    1 => (e[i] + delta[i], true),
                    2 => (e[i] - delta[i], true),
                    3 => (e[i] + half, true),
                    4 => (e[i] - half, true),
                    5 => (e[i] + delta[i] + T::from(0.001).unwrap(), false),
                    6 => (e[i] - delta[i] - T::from(0.001).unwrap(), false),
                    7 => (T::nan(), false),
                    8 => (T::infinity(), false),
                    9 => (T::neg_infinity(), false),
                    10 => (e[i] + delta[i] * T::from(100.0).unwrap() + T::one(), false),
                    _ => (e[i] - delta[i] * T::from(100.0).unwrap() - T::one(), false),
                };
                want &= ok;
                v
            })
            .collect();
        let p = get_predicate_success_vec_solution(e.clone(), delta.clone());
        for g in [0.0, NAN, 1e9] {
            let r = p(&(x.clone(), g));
            ensure!(r == want, "predicate", "{:?} within {:?} of {:?}: {}", x, delta, e, r);
        }
        let one = vec![Some((x.clone(), 1.0)), None];
        let r = one.get_success_rate(&p);
        ensure!(r == Some(if want { 0.5 } else { 0.0 }), "rate", "success rate {:?} of {:?}", r, one);
        state((d, want));
    }));
    v.push(Task::new(format!("long solution predicate {}", name), move || {
        let d = [20usize, 7, 33][choose(3)];
        let bad = choose(d + 1);
        let kind = choose(3);
        let e: Vec<T> = (0..d).map(|i| T::from(i).unwrap()).collect();
        let delta = vec![T::from(0.25).unwrap(); d];
        let mut x = e.clone();
        if bad < d {
            x[bad] = [x[bad] + T::one(), x[bad] - T::one(), T::nan()][kind];
        }
        let r = get_predicate_success_vec_solution(e, delta)(&(x.clone(), 0.0));
        ensure!(r == (bad == d), "predicate", "{:?}: {}", x, r);
    }));
}

fn c23(t: Tier, _seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    lists::<f64>(&mut v, t, "f64", f64::EPSILON);
    lists::<f32>(&mut v, t, "f32", f32::EPSILON as f64);
    v.push(Task::new("goal predicate", || {
        let e = [0.0, 1.0, -5.5, 1e300][choose(4)];
        let d = [0.5, 0.0, 1e-6, 1e10, 1.0][choose(5)];
        let k = choose(10);
        let x = match k {
            0 => e,
            1 => e + d,
            2 => e - d,
            3 => e + 0.5 * d,
            4 => e - 0.5 * d,
            5 => e + 2.0 * d,
            6 => e - 2.0 * d,
            7 => NAN,
            8 => INF,
            _ => -INF,
        };
        let p = get_predicate_success_goal::<i32>(e, d);
        let want = (x - e).abs() < d;
        ensure!(p(&(3, x)) == want, "predicate", "goal {} within {} of {}: {}", x, d, e, !want);
        state((e.to_bits(), d.to_bits(), k));
        note!("goal {} within {} of {}: {}", x, d, e, want);
    }));
    let conv = |runs: Vec<Vec<Option<f64>>>| {
        let c: Vec<Vec<Option<(Vec<f32>, f64)>>> =
            runs.iter().map(|r| r.iter().map(|x| x.map(|g| (vec![g as f32], g))).collect()).collect();
        let len = runs.iter().map(|r| r.len()).min().unwrap_or(0);
        ensure!(c.get_min_iterations() == len, "length", "shortest run of {:?}: {}", runs, c.get_min_iterations());
        let a = c.get_average_convergence();
        ensure!(a.len() == len, "length", "average convergence of {:?} is {:?}", runs, a);
        for i in 0..len {
            let g: Vec<f64> = runs.iter().filter_map(|r| r[i]).collect();
            let ok = match a[i] {
                None => g.is_empty(),
                // whatever the mean of non-finite values is, it is not a finite number
                Some(x) if g.iter().any(|y| !y.is_finite()) => !x.is_finite(),
                Some(x) => !g.is_empty() && close(x, mean(&g), 1e-12 * size(&g)),
            };
            ensure!(ok, "convergence", "average convergence of {:?} is {:?} at {}", runs, a[i], i);
        }
        state((runs.len(), len, a.iter().map(|x| x.map(|x| x.to_bits())).collect::<Vec<_>>()));
        note!("average convergence of {:?}: {:?}", runs, a);
    };
    for runs in 0..=4usize {
        v.push(Task::new(format!("convergence of {} runs", runs), move || {
            let max = [0, t.pick(5, 6), 3, 2, 1][runs];
            let c: Vec<Vec<Option<f64>>> = (0..runs)
                .map(|_| {
                    let n = choose(max + 1);
                    (0..n).map(|_| [None, Some(1.0), Some(4.0), Some(-2.5)][choose(if runs < 3 { 4 } else { 3 })]).collect()
                })
                .collect();
            conv(c)
        }));
    }
    for runs in 1..=3usize {
        v.push(Task::new(format!("convergence of {} runs with non-finite values", runs), move || {
            let max = [0, 3, 2, t.pick(1, 2)][runs];
            let c: Vec<Vec<Option<f64>>> = (0..runs)
                .map(|_| {
                    let n = choose(max + 1);
                    (0..n).map(|_| [None, Some(1.0), Some(NAN), Some(INF), Some(-INF), Some(3.0)][choose(6)]).collect()
                })
                .collect();
            conv(c)
        }));
    }
    for len in [300usize, 5000, 70_000] {
        v.push(Task::new(format!("convergence over {} iterations", len), move || {
            let n = [2usize, 1, 3][choose(3)];
            let odd = [None, Some(1e6), Some(NAN)][choose(3)];
            let at = [len - 1, 0, 255, len / 2][choose(4)];
            let short = choose(2);
            let c: Vec<Vec<Option<f64>>> = (0..n)
                .map(|r| (0..len - if r == short { r } else { 0 }).map(|i| if r == 0 && i == at { odd } else { Some((i * 7919 % 1013) as f64 + r as f64) }).collect())
                .collect();
            conv(c)
        }));
    }
    v.push(Task::new("convergence of very many runs", move || {
        let n = [101usize, 257, 1100, 5000, 66_000, 70_001][choose(6)];
        let odd = [None, Some(1e6), Some(NAN)][choose(3)];
        let at = [n - 1, 0, 255.min(n - 1), n / 2][choose(4)];
        // whole numbers: their sum is exact in any order
        let c: Vec<Vec<Option<f64>>> = (0..n)
            .map(|r| (0..if r == n - 1 { 2 } else { 3 }).map(|i| if r == at && i == 0 { odd } else if (r + i) % 5 == 4 { None } else { Some(((r * 7919 + i) % 1013) as f64) }).collect())
            .collect();
        conv(c)
    }));
    v.push(
        Task::new("longer convergence", move || {
            let n = [10usize, 33, 100][choose(3)];
            let c: Vec<Vec<Option<f64>>> = (0..n)
                .map(|r| {
                    let len = 40 - choose(5);
                    (0..len).map(|i| [Some(1.0 + r as f64), Some(i as f64 * 0.1), None][choose(3)]).collect()
                })
                .collect();
            conv(c)
        })
        .bound(t.pick(1, 1))
        .base(5),
    );
    v
}

// ----------------------------------------------------------------------------------------------------------- C24

pub const C24: Prop = Prop {
    id: "C24",
    tasks: c24,
    bounds: "every sequence of up to 6 (7) operations out of announce a run, evaluate, evaluate three times through a new wrapper, add a number, unite with data of 0 to 3 runs, copy; runs of both optimizers with every sequence of up to 3 runs and resumptions; 100000 single calls, added numbers up to 2^40",
    assumptions: &[],
};

struct Table<'a> {
    calls: &'a RefCell<Vec<i64>>,
}
impl<'a> Goal<i64> for Table<'a> {
    fn get(&mut self, x: &i64) -> f64 {
        self.calls.borrow_mut().push(*x);
        table(*x)
    }
}
fn table(x: i64) -> f64 {
    match x % 6 {
        0 => NAN,
        1 => INF,
        2 => -INF,
        3 => -0.0,
        _ => x as f64 * 0.5,
    }
}

fn check_counts(d: &CallCountData, want: &[usize], ops: &dyn Debug) {
    ensure!(d.get_call_count() == want, "counts", "after {:?} the counts are {:?} instead of {:?}", ops, d.get_call_count(), want);
    let a = d.get_average_call_count();
    let ok = if want.is_empty() {
        a.is_none()
    } else {
        a.map_or(false, |a| close(a, want.iter().sum::<usize>() as f64 / want.len() as f64, 1e-9 * a.abs()))
    };
    ensure!(ok, "average", "the average of {:?} is {:?}", want, a);
}

fn c24(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    let seq = move |len: usize| {
        let mut data = CallCountData::new();
        let mut want: Vec<usize> = vec![];
        let mut ops = vec![];
        let mut x = 0i64;
        check_counts(&data, &want, &ops);
        for _ in 0..len {
            let op = choose(6);
            let open = |want: &mut Vec<usize>| {
                if want.is_empty() {
                    want.push(0)
                }
            };
            match op {
                0 => {
                    data.next_run();
                    want.push(0);
                    ops.push("run".to_string());
                }
                1 | 2 => {
                    let n = if op == 1 { 1 } else { 3 };
                    let calls = RefCell::new(vec![]);
                    let mut asked = vec![];
                    {
                        let mut g = Table { calls: &calls };
                        let mut c = GoalCalcStatistics::new(&mut g, &mut data);
                        for _ in 0..n {
                            x += 1;
                            let r = c.get(&x);
                            asked.push(x);
                            ensure!(same(r, table(x)), "value", "the counted goal returns {} instead of {} for {}", r, table(x), x);
                        }
                    }
                    ensure!(*calls.borrow() == asked, "calls", "evaluating {:?} calls the goal for {:?}", asked, calls.borrow());
                    open(&mut want);
                    *want.last_mut().unwrap() += n;
                    ops.push(format!("evaluate {}", n));
                }
                3 => {
                    let n = [5usize, 0, 1][choose(if len < 6 { 3 } else { 1 })];
                    data.add(n);
                    open(&mut want);
                    *want.last_mut().unwrap() += n;
                    ops.push(format!("add {}", n));
                }
                4 => {
                    let k = choose(if len < 6 { 4 } else { 2 });
                    let mut other = CallCountData::new();
                    for i in 0..k {
                        other.next_run();
                        other.add(10 + i);
                        want.push(10 + i);
                    }
                    data.unite(other);
                    ops.push(format!("unite with {} runs", k));
                }
                _ => {
                    let copy = data.clone();
                    data.increment();
                    check_counts(&copy, &want, &ops);
                    data = copy;
                    ops.push("copy".into());
                }
            }
            check_counts(&data, &want, &ops);
        }
        note!("{:?}: {:?}", ops, want);
        state(want);
    };
    for len in 0..=t.pick(5usize, 6) {
        v.push(Task::new(format!("sequences of {}", len), move || seq(len)));
    }
    v.push(Task::new("longer sequences", move || seq(t.pick(6, 7))));
    for s in 0..2 {
        v.push(Task::new(format!("sequences of 200 {}", s), move || seq(200)).base(seed + 9 + s).bound(1));
    }
    v.push(Task::new("many calls", || {
        let n = [255usize, 256, 65_535, 65_536, 100_000][choose(5)];
        let calls = RefCell::new(vec![]);
        let mut d = CallCountData::new();
        d.next_run();
        d.add(3);
        d.next_run();
        {
            let mut g = Table { calls: &calls };
            let mut c = GoalCalcStatistics::new(&mut g, &mut d);
            for i in 0..n {
                c.get(&(i as i64));
            }
        }
        ensure!(calls.borrow().len() == n, "calls", "{} calls instead of {}", calls.borrow().len(), n);
        check_counts(&d, &[3, n], &n);
        let m = [65_536usize, 1 << 24, 1 << 31, 1 << 32, (1 << 40) + 1][choose(5)];
        d.add(m);
        d.increment();
        check_counts(&d, &[3, n + m + 1], &(n, m));
        cases(n as u64);
        state(n);
    }));
    for pso in [false, true] {
        v.push(Task::new(format!("counting a {}", if pso { "swarm" } else { "genetic algorithm" }), move || {
            let e = Env::new(vec![3.0], false, 2);
            let mut data = CallCountData::new();
            let mut want = vec![];
            let runs = 1 + choose(3);
            for _ in 0..runs {
                let announced = choose(3) > 0;
                if announced {
                    data.next_run();
                    want.push(0);
                }
                let ops = 1 + choose(2);
                let before = e.borrow().evals;
                {
                    let mut inner = EGoal(e.clone());
                    let counted = GoalCalcStatistics::new(&mut inner, &mut data);
                    let e2 = e.clone();
                    let mut opt: Box<dyn IterativeOptimizer<Vec<f64>>>;
                    let go = |o: &mut dyn FnMut(bool)| {
                        for i in 0..ops {
                            {
                                let mut x = e2.borrow_mut();
                                x.target = if i == 0 { 1 } else { 1 + choose(2) };
                            }
                            o(i == 0);
                        }
                    };
                    if pso {
                        let mut o = ParticleSwarmOptimizer::new(
                            Box::new(counted),
                            Box::new(EStop(e.clone())),
                            Box::new(EMake(e.clone())),
                            Box::new(EMake(e.clone())),
                            Box::new(EMake(e.clone())),
                        );
                        go(&mut |run| {
                            if run {
                                o.find_min();
                            } else {
                                o.next_iterations();
                            }
                        });
                        opt = Box::new(o);
                    } else {
                        let mut o = GeneticOptimizer::new(
                            Box::new(counted),
                            Box::new(EStop(e.clone())),
                            Box::new(EMake(e.clone())),
                            Box::new(EMake(e.clone())),
                            Box::new(EMake(e.clone())),
                            Box::new(EMake(e.clone())),
                            vec![Box::new(EMake(e.clone()))],
                            vec![],
                        );
                        go(&mut |run| {
                            if run {
                                o.find_min();
                            } else {
                                o.next_iterations();
                            }
                        });
                        opt = Box::new(o);
                    }
                    let _ = &mut opt;
                }
                let n = e.borrow().evals - before;
                if want.is_empty() {
                    want.push(0);
                }
                *want.last_mut().unwrap() += n;
                check_counts(&data, &want, &"an optimization");
            }
            state(want);
        }));
    }
    v.push(Task::new("goal from a function", || {
        let x = choose(50) as i64;
        fn f(x: &i64) -> f64 {
            table(*x)
        }
        let mut g = GoalFromFunction::new(f);
        for _ in 0..2 {
            let r = g.get(&x);
            ensure!(same(r, table(x)), "function", "the goal from a function returns {} instead of {}", r, table(x));
        }
        state(x);
    }));
    v
}

// ----------------------------------------------------------------------------------------------------------- C25

pub const C25: Prop = Prop {
    id: "C25",
    tasks: c25,
    bounds: "every event sequence of up to 4 events over a menu of states; every state with up to 3 coordinates from a menu of 14 values, precision 0 to 100, f32, f64 and integers; up to 60 coordinates; writers that accept 1, 2, 3, 7 or all bytes per call and are interrupted, any pattern over the first calls with up to 4 (6) deviations; elapsed times of 0 to 1100 ms; writers that accept one byte per call for long outputs",
    assumptions: &["a wall clock that does not stop between the measured points"],
};

struct View<T> {
    it: usize,
    best: Option<(Vec<T>, f64)>,
}
impl<T: Clone> AlgorithmState<Vec<T>> for View<T> {
    fn get_best_solution(&self) -> Option<(Vec<T>, f64)> {
        self.best.clone()
    }
    fn get_iteration(&self) -> usize {
        self.it
    }
}

/// Accepts part of the data, is interrupted now and then.
struct Slow {
    data: Vec<u8>,
    /// how many of the next calls are chosen; the others take everything
    choices: usize,
}
impl io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        let n = if self.choices == 0 {
            b.len()
        } else {
            self.choices -= 1;
            match choose(6) {
                0 => b.len(),
                1 => 1,
                2 => 2,
                3 => return Err(io::Error::from(io::ErrorKind::Interrupted)),
                4 => 3,
                _ => 7,
            }
        };
        let n = n.min(b.len());
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

trait Item: Display + Clone + Debug + 'static {
    fn text(&self, precision: usize) -> String;
    fn menu() -> Vec<Self>;
}
impl Item for f64 {
    fn text(&self, p: usize) -> String {
        format!("{:.*}", p, self)
    }
    fn menu() -> Vec<f64> {
        vec![0.0, 1.5, -2.25, 1e20, -1e-9, 0.1, NAN, INF, -INF, 123456789.987654321, 1e-300, -0.0, 0.999999999, f64::MAX]
    }
}
impl Item for f32 {
    fn text(&self, p: usize) -> String {
        format!("{:.*}", p, self)
    }
    fn menu() -> Vec<f32> {
        vec![0.0, 1.5, -2.25, 1e20, -1e-9, 0.1, f32::NAN, f32::INFINITY, 16777217.0, 0.3]
    }
}
impl Item for i32 {
    fn text(&self, _: usize) -> String {
        self.to_string()
    }
    fn menu() -> Vec<i32> {
        vec![0, -7, 123456789, i32::MIN]
    }
}

fn is_number(s: &str) -> bool {
    s.parse::<f64>().is_ok()
}

/// Checks the output of a verbose logger for the given states.
fn check_verbose<T: Item>(out: &str, shown: &[View<T>], precision: usize) {
    let want: Vec<&View<T>> = shown.iter().filter(|v| v.best.is_some()).collect();
    let lines: Vec<&str> = out.lines().collect();
    ensure!(lines.len() == want.len() && (out.is_empty() || out.ends_with('\n')), "lines", "{} iterations with a solution give {:?}", want.len(), out);
    for (l, v) in lines.iter().zip(want) {
        let (x, g) = v.best.as_ref().unwrap();
        let mut tokens = vec![v.it.to_string()];
        tokens.extend(x.iter().map(|x| x.text(precision)));
        tokens.push(g.text(precision));
        let have: Vec<&str> = l.split_whitespace().collect();
        ensure!(have == tokens, "line", "iteration {} with {:?} and precision {} gives {:?}", v.it, v.best, precision, l);
    }
}

/// Checks what a result logger wrote at one finish.
fn check_result<T: Item>(out: &str, v: &View<T>, precision: usize) {
    let mut want: Vec<String> = vec![];
    if let Some((x, g)) = &v.best {
        want.extend(x.iter().map(|x| x.text(precision)));
        want.push(g.text(precision));
    }
    want.push(v.it.to_string());
    let have: Vec<&str> = out.split_whitespace().filter(|s| is_number(s)).collect();
    ensure!(have == want, "result", "result {:?} after {} iterations with precision {} gives {:?}", v.best, v.it, precision, out);
    let none = out.to_lowercase().contains("not found");
    ensure!(none == v.best.is_none(), "result", "result {:?} gives {:?}", v.best, out);
    ensure!(out.ends_with('\n'), "result", "the result does not end with a line break: {:?}", out);
}

fn pick_state<T: Item>(dims: usize, its: &[usize]) -> View<T> {
    let goals = [1.5, -1e-7, NAN, INF, 1e15, -123.456];
    let it = its[choose(its.len())];
    let m = T::menu();
    let best = if choose(4) == 3 {
        None
    } else {
        let x = (0..dims).map(|_| m[choose(m.len())].clone()).collect();
        Some((x, goals[choose(goals.len())]))
    };
    View { it, best }
}

fn states<T: Item>(v: &mut Vec<Task>, t: Tier, name: &'static str) {
    for dims in 0..=t.pick(2usize, 3) {
        v.push(Task::new(format!("states {} d={}", name, dims), move || {
            let precision = [3usize, 0, 1, 17, 6, 40, 100][choose(if dims < 2 { 7 } else { 5 })];
            let s: View<T> = pick_state(dims, if dims < 2 { &[1, 12, 123456789, usize::MAX] } else { &[7, 100000000] });
            let mut w = Slow { data: vec![], choices: 0 };
            {
                let mut l = VerboseLogger::new(&mut w, precision);
                Logger::<Vec<T>>::start(&mut l, &s);
                Logger::<Vec<T>>::resume(&mut l, &s);
                Logger::<Vec<T>>::next_iteration(&mut l, &s);
                Logger::<Vec<T>>::finish(&mut l, &s);
            }
            let out = String::from_utf8(w.data).unwrap();
            let it = s.it;
            check_verbose(&out, std::slice::from_ref(&s), precision);
            note!("verbose {:?}", out);
            let mut w = Slow { data: vec![], choices: 0 };
            {
                let mut l = ResultOnlyLogger::new(&mut w, precision);
                Logger::<Vec<T>>::start(&mut l, &s);
                Logger::<Vec<T>>::resume(&mut l, &s);
                Logger::<Vec<T>>::next_iteration(&mut l, &s);
                Logger::<Vec<T>>::finish(&mut l, &s);
            }
            let out = String::from_utf8(w.data).unwrap();
            check_result(&out, &s, precision);
            state((it, out));
        }));
    }
    v.push(
        Task::new(format!("states {} larger", name), move || {
            let dims = [60usize, 20, 33, 300, 1100][choose(5)];
            let precision = [3usize, 10, 0][choose(3)];
            let mut s: View<T> = pick_state(dims, &[1, 99999999, 1000000000]);
            if s.best.is_none() {
                s.best = Some(((0..dims).map(|i| T::menu()[i % T::menu().len()].clone()).collect(), 0.5));
            }
            let mut w = Slow { data: vec![], choices: 0 };
            Logger::<Vec<T>>::next_iteration(&mut VerboseLogger::new(&mut w, precision), &s);
            check_verbose(&String::from_utf8(w.data).unwrap(), std::slice::from_ref(&s), precision);
            let mut w = Slow { data: vec![], choices: 0 };
            Logger::<Vec<T>>::finish(&mut ResultOnlyLogger::new(&mut w, precision), &s);
            check_result(&String::from_utf8(w.data).unwrap(), &s, precision);
        })
        .base(17)
        .bound(2),
    );
}

fn milliseconds(out: &str) -> u64 {
    let n: Vec<u64> = out.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok()).collect();
    ensure!(n.len() == 1 && out.ends_with('\n') && out.lines().count() == 1, "time", "elapsed time is written as {:?}", out);
    n[0]
}

fn c25(t: Tier, _seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    states::<f64>(&mut v, t, "f64");
    states::<f32>(&mut v, t, "f32");
    states::<i32>(&mut v, t, "i32");
    // sequences of events
    v.push(Task::new("event sequences", move || {
        let n = choose(t.pick(5, 6));
        let mut verbose = Slow { data: vec![], choices: 0 };
        let mut result = Slow { data: vec![], choices: 0 };
        let mut shown = vec![];
        let mut finished: Vec<View<f64>> = vec![];
        let mut trace = vec![];
        {
            let mut a = VerboseLogger::new(&mut verbose, 4);
            let mut b = ResultOnlyLogger::new(&mut result, 4);
            for i in 0..n {
                let best = [None, Some((vec![i as f64 + 0.5, -1.0], i as f64 * 0.25))][choose(2)].clone();
                let s = View { it: i, best: best.clone() };
                let ev = choose(4);
                match ev {
                    0 => {
                        a.next_iteration(&s);
                        b.next_iteration(&s);
                        shown.push(View { it: i, best });
                    }
                    1 => {
                        a.finish(&s);
                        b.finish(&s);
                        finished.push(View { it: i, best });
                    }
                    2 => {
                        a.start(&s);
                        b.start(&s);
                    }
                    _ => {
                        a.resume(&s);
                        b.resume(&s);
                    }
                }
                trace.push(ev);
            }
        }
        check_verbose(&String::from_utf8(verbose.data).unwrap(), &shown, 4);
        let out = String::from_utf8(result.data).unwrap();
        let mut want = vec![];
        for f in &finished {
            if let Some((x, g)) = &f.best {
                want.extend(x.iter().map(|x| x.text(4)));
                want.push(g.text(4));
            }
            want.push(f.it.to_string());
        }
        let have: Vec<&str> = out.split_whitespace().filter(|s| is_number(s)).collect();
        ensure!(have == want, "result", "events {:?} give {:?}", trace, out);
        let none = finished.iter().filter(|f| f.best.is_none()).count();
        ensure!(out.to_lowercase().matches("not found").count() == none, "result", "events {:?} give {:?}", trace, out);
        state(trace.clone());
        note!("{:?}: {:?}", trace, out);
    }));
    // few oddities anywhere, or many among the first calls
    for (kind, bound, calls) in [(0, 2, usize::MAX), (1, t.pick(4, 5), t.pick(14, 16))] {
    for logger in 0..2 {
        for solution in [true, false] {
            v.push(
                Task::new(format!("slow writer {}, logger {}, solution {}", kind, logger, solution), move || {
                    let s = View { it: 31, best: if solution { Some((vec![1.5f64, -20.25, 3.0], 0.125)) } else { None } };
                    let mut w = Slow { data: vec![], choices: calls };
                    if logger == 0 {
                        let mut l = VerboseLogger::new(&mut w, 3);
                        l.next_iteration(&s);
                        l.next_iteration(&s);
                    } else {
                        ResultOnlyLogger::new(&mut w, 3).finish(&s);
                    }
                    let out = String::from_utf8(w.data).unwrap();
                    if logger == 0 {
                        check_verbose(&out, &[View { it: 31, best: s.best.clone() }, View { it: 31, best: s.best.clone() }], 3);
                    } else {
                        check_result(&out, &s, 3);
                    }
                    state(out);
                })
                .bound(bound),
            );
        }
    }
    }
    v.push(
        Task::new("slow writer, time", move || {
            let s: View<f64> = View { it: 1, best: None };
            let mut w = Slow { data: vec![], choices: usize::MAX };
            {
                let mut l = TimeLogger::new(&mut w);
                Logger::<Vec<f64>>::resume(&mut l, &s);
                Logger::<Vec<f64>>::finish(&mut l, &s);
            }
            ensure!(milliseconds(&String::from_utf8(w.data).unwrap()) < 60_000, "time", "implausible time");
        })
        .bound(t.pick(2, 3)),
    );
    // one task per sleep, so that they run in parallel
    for (i, pause) in [0u64, 3, 12, 30, 55, 250, 999, 1003, 1100, 2050].iter().copied().enumerate() {
        v.push(Task::new(format!("elapsed time, {} ms", pause), move || {
            let s: View<f64> = View { it: 1, best: if i % 2 == 0 { None } else { Some((vec![1.0], 2.0)) } };
            let mut w = Slow { data: vec![], choices: 0 };
            let (least, most, prior);
            {
                let mut l = TimeLogger::new(&mut w);
                Logger::<Vec<f64>>::start(&mut l, &s);
                std::thread::sleep(Duration::from_millis(5));
                // an earlier segment
                Logger::<Vec<f64>>::resume(&mut l, &s);
                Logger::<Vec<f64>>::finish(&mut l, &s);
                std::thread::sleep(Duration::from_millis(20));
                prior = 1;
                let a = Instant::now();
                Logger::<Vec<f64>>::resume(&mut l, &s);
                let b = Instant::now();
                Logger::<Vec<f64>>::next_iteration(&mut l, &s);
                std::thread::sleep(Duration::from_millis(pause));
                Logger::<Vec<f64>>::next_iteration(&mut l, &s);
                least = b.elapsed();
                Logger::<Vec<f64>>::finish(&mut l, &s);
                most = a.elapsed();
            }
            let out = String::from_utf8(w.data).unwrap();
            let lines: Vec<&str> = out.lines().collect();
            ensure!(lines.len() == 1 + prior, "time", "two finishes give {:?}", out);
            let ms = milliseconds(&format!("{}\n", lines[prior])) as u128;
            ensure!(
                ms >= least.as_millis() && ms <= most.as_millis(),
                "time",
                "{} ms are written, between {:?} and {:?} have passed since the latest resume",
                ms,
                least,
                most
            );
            state(pause);
            note!("slept {} ms, written {}", pause, ms);
        }));
    }
    v
}
