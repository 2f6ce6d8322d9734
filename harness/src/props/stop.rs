//! C17, C18: stop criteria on every history of reported states.

use super::Prop;
use crate::engine::*;
use optlib::tools::stopchecker::*;
use optlib::AlgorithmState;
use std::cell::RefCell;
use std::rc::Rc;

const INF: f64 = f64::INFINITY;
const NAN: f64 = f64::NAN;

#[derive(Clone, Copy, Debug)]
struct View {
    it: usize,
    best: Option<f64>,
}
impl AlgorithmState<Vec<f32>> for View {
    fn get_best_solution(&self) -> Option<(Vec<f32>, f64)> {
        self.best.map(|b| (vec![b as f32, 1.0], b))
    }
    fn get_iteration(&self) -> usize {
        self.it
    }
}
impl AlgorithmState<i32> for View {
    fn get_best_solution(&self) -> Option<(i32, f64)> {
        self.best.map(|b| (5, b))
    }
    fn get_iteration(&self) -> usize {
        self.it
    }
}

/// The no-change criterion as specified.
#[derive(Clone)]
struct NoChange {
    max: usize,
    delta: f64,
    value: Option<f64>,
    since: usize,
}
impl NoChange {
    fn new(max: usize, delta: f64) -> NoChange {
        NoChange { max, delta, value: None, since: 0 }
    }
    fn run(&mut self) {
        self.value = None;
        self.since = 0;
    }
    fn check(&mut self, v: &View) -> bool {
        let b = match v.best {
            None => return false,
            Some(b) => b,
        };
        let moved = match self.value {
            None => !b.is_nan(),
            Some(o) => (b - o).abs() > self.delta,
        };
        if moved {
            self.value = Some(b);
            self.since = v.it;
        }
        v.it - self.since > self.max
    }
}

pub const C17: Prop = Prop {
    id: "C17",
    tasks: c17,
    bounds: "no-change criterion: every history of up to 7 (8) checks over a menu of reported values relative to delta (none, moves below, at and above delta in both directions, NaN, infinities), split into runs, pauses and late installations in every way; histories of 400 checks with up to 2 deviations and of 70000 checks; iteration limit: all limits and numbers up to 130 and around powers of two; threshold: all pairs of a value menu",
    assumptions: &["reported values stay away from f64::MAX, delta is finite"],
};

/// One history; `len` checks in up to `runs` runs.
fn no_change<T>(max: usize, delta: f64, menu: &[Option<f64>], len: usize, breaks: bool, late: bool)
where
    View: AlgorithmState<T>,
{
    let mut real = GoalNotChange::new(max, delta);
    let mut want = NoChange::new(max, delta);
    let mut it = if late { [0usize, 1, 5][choose(3)] } else { 0 };
    let mut h: Vec<View> = vec![];
    for n in 0..len {
        if n > 0 {
            match if breaks { choose(3) } else { 0 } {
                0 => it += 1,
                1 => {
                    // a new run
                    it = 0;
                    want.run();
                }
                _ => {
                    // paused and resumed: the same state again
                    let v = h[n - 1];
                    let (a, b) = (StopChecker::<T>::can_stop(&mut real, &v), want.check(&v));
                    ensure!(a == b, "resume", "no-change({}, {}) answers {} instead of {} when resumed after {:?}", max, delta, a, b, h);
                    it += 1;
                }
            }
        }
        let v = View { it, best: menu[choose(menu.len())] };
        h.push(v);
        let (a, b) = (StopChecker::<T>::can_stop(&mut real, &v), want.check(&v));
        ensure!(a == b, "nochange", "no-change({}, {}) answers {} instead of {} at the end of {:?}", max, delta, a, b, h);
        if len < 100 {
            state((it, want.since, want.value.map(|x| x.to_bits()), a));
        }
    }
    note!("no-change({}, {}) agrees on {:?}", max, delta, if h.len() < 20 { &h[..] } else { &h[..20] });
}

fn c17(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    for (di, delta) in [0.5f64, 0.0, 1e-3, 100.0].iter().copied().enumerate() {
        let d = if delta == 0.0 { 0.25 } else { delta };
        let full: Vec<Option<f64>> = vec![Some(64.0), Some(64.0 + d), Some(64.0 - 2.0 * d), None, Some(NAN), Some(INF), Some(64.0 - 0.5 * d), Some(-INF), Some(64.0 + 1.5 * d)];
        for max in 0..=3usize {
            for (len, k, breaks) in [(t.pick(4, 5), 9, false), (t.pick(6, 7), 4, false), (t.pick(5, 6), 3, true), (t.pick(3, 4), 7, true), (t.pick(4, 5), 5, true)] {
                let menu = if max % 2 == 0 { full[..k].to_vec() } else { full.iter().rev().take(k).cloned().collect() };
                v.push(Task::new(format!("no change, max {} delta {} len {} values {} breaks {}", max, delta, len, k, breaks), move || {
                    if max == 3 {
                        no_change::<i32>(max, delta, &menu, len, breaks, true)
                    } else {
                        no_change::<Vec<f32>>(max, delta, &menu, len, breaks, true)
                    }
                }));
            }
            let menu: Vec<Option<f64>> = vec![Some(64.0), Some(64.0 - 2.0 * d), Some(64.0 - d)];
            v.push(Task::new(format!("no change, long decisions, max {} delta {}", max, delta), move || {
                no_change::<Vec<f32>>(max, delta, &menu, t.pick(8, 10), false, false)
            }));
        }
        // slow drifts: many steps below delta each
        v.push(Task::new(format!("no change, drifts, delta {}", delta), move || {
            let max = [0usize, 1, 2, 5, 10, 100][choose(6)];
            let step = [0.1, 0.3, 0.5, 0.9, 1.0, 1.1, 2.5][choose(7)] * d;
            let up = choose(2) == 0;
            let hold = [1usize, 2, 3, 7, 50][choose(5)];
            let mut real = GoalNotChange::new(max, delta);
            let mut want = NoChange::new(max, delta);
            for run in 0..2 {
                want.run();
                for it in 0..400 {
                    let k = (it / hold) as f64;
                    let best = if it < run * 3 { None } else { Some(100.0 + if up { k * step } else { -k * step }) };
                    let x = View { it, best };
                    let (a, b) = (StopChecker::<i32>::can_stop(&mut real, &x), want.check(&x));
                    ensure!(a == b, "nochange", "no-change({}, {}) answers {} instead of {} at iteration {} of run {} of a drift by {} every {} iterations", max, delta, a, b, it, run, step, hold);
                }
            }
            state((max, step.to_bits(), up, hold, di));
            cases(800);
        }));
        for s in 0..2u64 {
            let menu = full.clone();
            v.push(
                Task::new(format!("no change, histories of 400, delta {} {}", delta, s), move || {
                    let max = [2usize, 0, 1, 3, 5, 17][choose(6)];
                    no_change::<Vec<f32>>(max, delta, &menu, 400, true, true)
                })
                .base(seed * 100 + 3 + s + 10 * di as u64)
                .bound(1),
            );
            v.push(
                Task::new(format!("no change, long plateaus, delta {} {}", delta, s), move || {
                    // mostly unchanged values with a few moves
                    let max = [2usize, 5, 17, 33, 0, 1][choose(6)];
                    let menu: Vec<Option<f64>> =
                        vec![Some(64.0), Some(64.0), Some(64.0), Some(64.0 - 2.0 * d), Some(64.0), Some(64.0), Some(64.0 + 0.5 * d), Some(64.0), Some(64.0), Some(NAN)];
                    no_change::<Vec<f32>>(max, delta, &menu, 120, false, false)
                })
                .bound(t.pick(2, 3)),
            );
        }
    }
    for (i, m) in super::ga_parts::fine_menus().into_iter().enumerate() {
        for delta in [0.0, [4.0 * f64::EPSILON, 5e-324, 1e300, 16.0, 1e-9, 1e30][i]] {
            // values whose distance to delta is exact
            let m: Vec<Option<f64>> = m.iter().filter(|x| delta == 0.0 || i != 4 || **x <= 1e-8).map(|x| Some(*x)).collect();
            for max in [0usize, 1] {
                let m = m.clone();
                v.push(Task::new(format!("no change, close values {}, max {} delta {}", i, max, delta), move || {
                    no_change::<Vec<f32>>(max, delta, &m, t.pick(4, 5), false, false)
                }));
            }
        }
    }
    v.push(Task::new("no change, very long plateaus", || {
        let max = [127usize, 128, 255, 256, 32767, 32768, 65535, 65536, 69_990][choose(9)];
        let at = [0usize, 3, 255, 256][choose(4)];
        let mut real = GoalNotChange::new(max, 0.1);
        for it in 0..70_000 {
            let x = View { it, best: Some(if it < at { 2.0 } else { 1.0 }) };
            let a = StopChecker::<i32>::can_stop(&mut real, &x);
            let b = it - if it < at { 0 } else { at } > max;
            ensure!(a == b, "nochange", "no-change({}, 0.1) answers {} instead of {} at iteration {}, last change at {}", max, a, b, it, at);
        }
        cases(70_000);
        state((max, at));
    }));
    v.push(Task::new("no change, large numbers", || {
        let m: Vec<usize> = [8, 16, 31, 32, 63].iter().flat_map(|b| [(1usize << b) - 1, 1 << b, (1 << b) + 2].to_vec()).collect();
        let max = if choose(2) == 0 { m[choose(m.len())] } else { [0, 1, usize::MAX, usize::MAX - 1][choose(4)] };
        let mut real = GoalNotChange::new(max, 0.1);
        let mut want = NoChange::new(max, 0.1);
        // resumed at ever larger numbers; the value changes once
        let change = choose(m.len() + 1);
        for (n, it) in [0usize, 1, 2].iter().copied().chain(m.iter().copied()).chain([usize::MAX - 1, usize::MAX].iter().copied()).enumerate() {
            let x = View { it, best: Some(if n < change + 3 { 2.0 } else { 1.0 }) };
            let (a, b) = (StopChecker::<i32>::can_stop(&mut real, &x), want.check(&x));
            ensure!(a == b, "nochange", "no-change({}, 0.1) answers {} instead of {} at iteration {}, last change at {}", max, a, b, it, want.since);
        }
        cases(2 * m.len() as u64);
        state((max, change));
    }));
    v.push(Task::new("iteration limit", || {
        let mut m: Vec<usize> = (0..=130).collect();
        for b in 7..64 {
            m.extend([(1usize << b) - 1, 1 << b, (1 << b) + 1]);
        }
        m.push(usize::MAX);
        let max = m[choose(m.len())];
        let mut real = MaxIterations::new(max);
        for it in m.iter().copied().chain((0..=130).rev()) {
            for best in [None, Some(1.0), Some(NAN), Some(-INF)] {
                let x = View { it, best };
                let a = StopChecker::<Vec<f32>>::can_stop(&mut real, &x);
                let b = StopChecker::<i32>::can_stop(&mut real, &x);
                ensure!(a == (it >= max) && b == a, "limit", "iteration limit {} answers {} at iteration {}", max, a, it);
            }
        }
        cases(8 * m.len() as u64);
        state(max);
        note!("iteration limit {} at {} numbers", max, m.len());
    }));
    v.push(Task::new("threshold", || {
        let mut m = vec![0.0, -0.0, 1.0, -1.0, 1e-300, -1e-300, 1e300, -1e300, 5e-324, INF, -INF, f64::MAX, f64::MIN, 0.1, 1e-6];
        for x in m.clone() {
            if x.is_finite() && x != 0.0 {
                m.push(crate::util::step64(x, true));
                m.push(crate::util::step64(x, false));
            }
        }
        let th = m[choose(m.len())];
        m.push(NAN);
        let mut real = Threshold::new(th);
        for b in m.iter().map(|x| Some(*x)).chain(std::iter::once(None)).chain(m.iter().rev().map(|x| Some(*x))) {
            for it in [0usize, 1, 100] {
                let x = View { it, best: b };
                let want = b.map_or(false, |b| b <= th);
                let a = StopChecker::<Vec<f32>>::can_stop(&mut real, &x);
                ensure!(a == want, "threshold", "threshold {} answers {} on {:?}", th, a, b);
            }
        }
        cases(6 * m.len() as u64);
        state(th.to_bits());
        note!("threshold {} on {} values", th, m.len());
    }));
    v
}

// ---------------------------------------------------------------------------------------------------------------

pub const C18: Prop = Prop {
    id: "C18",
    tasks: c18,
    bounds: "every composite with up to 3 members, each a criterion from a menu of 7 or a nested composite of two (depth 3 for selected shapes), on every history of up to 5 (6) reported states with a run boundary or a resumption anywhere; composites of 12 members on histories of 60 checks with up to 2 deviations; composites of 9 to 1100 members with a single one that matters",
    assumptions: &["a member on its own is shown the same states as the composite"],
};

/// Answers by what it has seen: its own number of observations.
struct Counter(usize, usize);
impl StopChecker<i32> for Counter {
    fn can_stop(&mut self, _: &dyn AlgorithmState<i32>) -> bool {
        self.0 += 1;
        self.0 % self.1 == 0
    }
}
/// Answers yes forever once it has seen the value 1.
struct Once(bool);
impl StopChecker<i32> for Once {
    fn can_stop(&mut self, s: &dyn AlgorithmState<i32>) -> bool {
        if let Some((_, b)) = s.get_best_solution() {
            self.0 |= b == 1.0;
        }
        self.0
    }
}

fn leaf(k: usize) -> Box<dyn StopChecker<i32>> {
    match k {
        0 => Box::new(Counter(0, 2)),
        1 => Box::new(GoalNotChange::new(1, 0.5)),
        2 => Box::new(MaxIterations::new(2)),
        3 => Box::new(Threshold::new(1.5)),
        4 => Box::new(Once(false)),
        5 => Box::new(Counter(0, 3)),
        6 => Box::new(GoalNotChange::new(0, 0.0)),
        7 => Box::new(GoalNotChange::new(3, 0.0)),
        // never, always
        9 => Box::new(Threshold::new(f64::NEG_INFINITY)),
        10 => Box::new(MaxIterations::new(0)),
        _ => Box::new(MaxIterations::new(5)),
    }
}

enum Tree {
    Leaf(Rc<RefCell<Box<dyn StopChecker<i32>>>>),
    Any(Vec<Tree>),
    All(Vec<Tree>),
}

/// The composite under test and its reference, whose leaves are separate instances.
fn build(shape: &Shape) -> (Box<dyn StopChecker<i32>>, Tree) {
    match shape {
        Shape::Leaf(k) => (leaf(*k), Tree::Leaf(Rc::new(RefCell::new(leaf(*k))))),
        Shape::Node(any, m) => {
            let (a, b): (Vec<_>, Vec<_>) = m.iter().map(build).unzip();
            if *any {
                (Box::new(CompositeAny::new(a)), Tree::Any(b))
            } else {
                (Box::new(CompositeAll::new(a)), Tree::All(b))
            }
        }
    }
}

#[derive(Debug, Clone)]
enum Shape {
    Leaf(usize),
    Node(bool, Vec<Shape>),
}

impl Tree {
    fn answer(&self, v: &View) -> bool {
        match self {
            Tree::Leaf(l) => l.borrow_mut().can_stop(v),
            Tree::Any(m) => {
                let a: Vec<bool> = m.iter().map(|t| t.answer(v)).collect();
                a.iter().any(|x| *x)
            }
            Tree::All(m) => {
                let a: Vec<bool> = m.iter().map(|t| t.answer(v)).collect();
                a.iter().all(|x| *x)
            }
        }
    }
}

fn compare(shape: Shape, menu: &[Option<f64>], len: usize, breaks: bool) {
    let (mut real, tree) = build(&shape);
    let mut h: Vec<View> = vec![];
    let mut it = 0;
    for n in 0..len {
        if n > 0 {
            it += 1;
            if breaks && choose(3) == 1 {
                it = 0;
            }
        }
        let v = View { it, best: menu[choose(menu.len())] };
        h.push(v);
        let (a, b) = (real.can_stop(&v), tree.answer(&v));
        ensure!(a == b, "composite", "{:?} answers {} instead of {} at the end of {:?}", shape, a, b, h);
        state((it, n, a, v.best.map(|x| x.to_bits())));
    }
    note!("{:?} agrees on {:?}", shape, if h.len() < 12 { &h[..] } else { &h[..12] });
}

fn c18(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    let menu = [Some(2.0), Some(1.0), None, Some(1.25)];
    for any in [true, false] {
        let name = if any { "any" } else { "all" };
        for n in 1..=3usize {
            v.push(Task::new(format!("{} of {}", name, n), move || {
                let k = if n == 3 { 6 } else { 7 };
                let m: Vec<Shape> = (0..n).map(|_| Shape::Leaf(choose(k))).collect();
                compare(Shape::Node(any, m), &menu[..if n == 3 { t.pick(2, 3) } else { 3 }], t.pick(if n == 3 { 4 } else { 5 }, 6), n < 3)
            }));
        }
        for inner in [true, false] {
            v.push(Task::new(format!("{} of nested {}", name, if inner { "any" } else { "all" }), move || {
                let m = Shape::Node(inner, vec![Shape::Leaf(choose(5)), Shape::Leaf(choose(5))]);
                let l = Shape::Leaf(choose(5));
                let s = if choose(2) == 0 { vec![m, l] } else { vec![l, m] };
                compare(Shape::Node(any, s), &menu[..3], t.pick(4, 5), false)
            }));
            v.push(
                Task::new(format!("{} of two nested {}", name, if inner { "any" } else { "all" }), move || {
                    let a = Shape::Node(inner, vec![Shape::Leaf(choose(7)), Shape::Leaf(choose(7))]);
                    let b = Shape::Node(!inner, vec![Shape::Leaf(choose(7)), Shape::Leaf(choose(7))]);
                    let c = Shape::Node(any, vec![a, b]);
                    let d = Shape::Node(!any, vec![c, Shape::Leaf(choose(7)), Shape::Leaf(choose(7))]);
                    let e = if choose(2) == 0 { d } else { Shape::Node(any, vec![Shape::Leaf(choose(7)), d]) };
                    compare(e, &menu[..3], 6, true)
                })
                .bound(t.pick(3, 4)),
            );
        }
        for n in [9usize, 33, 70, 130, 300, 1100] {
            // one member decides, and it counts what it has seen
            v.push(Task::new(format!("{} of {} with one that matters", name, n), move || {
                let mut at: Vec<usize> = if n < 100 { (0..n).collect() } else { [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, n - 2, n - 1].to_vec() };
                at.retain(|i| *i < n);
                let at = at[choose(at.len())];
                let k = choose(8);
                let m: Vec<Shape> = (0..n).map(|i| Shape::Leaf(if i == at { k } else if any { 9 } else { 10 })).collect();
                compare(Shape::Node(any, m), &menu[..2], t.pick(4, 5), n < 100)
            }).bound(4));
        }
        for s in 0..t.pick(2u64, 6) {
            v.push(
                Task::new(format!("{} of many {}", name, s), move || {
                    let n = [12, 5, 7, 20][choose(4)];
                    let m: Vec<Shape> = (0..n)
                        .map(|_| {
                            if choose(4) == 0 {
                                Shape::Node(choose(2) == 0, vec![Shape::Leaf(choose(9)), Shape::Leaf(choose(9))])
                            } else {
                                Shape::Leaf(choose(9))
                            }
                        })
                        .collect();
                    compare(Shape::Node(any, m), &menu, 60, true)
                })
                .base(seed * 31 + s + 1)
                .bound(t.pick(1, 2)),
            );
        }
    }
    v
}
