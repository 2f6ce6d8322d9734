//! A particle swarm optimizer whose components, goal function, stop criterion and loggers are all played by the
//! explorer, with a reference model of every particle. Velocities are unique, corrections do not commute, so every
//! vector the optimizer hands over is recognized by its value and the order of particles does not matter.

use super::ga_env::{check_events, Ev};
use crate::engine::*;
use crate::util::*;
use num::Float;
use optlib::particleswarm::velocitycalc::*;
use optlib::particleswarm::*;
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::StopChecker;
use optlib::{Agent, AgentsState, AlgorithmState, Goal, IterativeOptimizer, Optimizer};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Values {
    Menu(Vec<f64>),
    Unique,
}

/// How the velocity equations are examined at every call.
#[derive(Clone, Debug)]
pub struct Equations {
    /// raw fractions of the random factors; every combination is examined
    pub factors: Vec<f64>,
    /// 0: Classic, 1: Canonical, 2: Inertia, 3: NegativeReinforcement
    pub calculators: Vec<usize>,
    /// examine the six memories one by one
    pub memories: bool,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub c11: bool,
    pub c12: bool,
    pub c13: Option<Equations>,
    pub c21: bool,
    pub particles: Vec<usize>,
    pub dims: Vec<usize>,
    pub goals: Values,
    pub corrections: Vec<usize>,
    pub moves: Vec<usize>,
    /// post-move steps may also put a particle onto a point where another one has been
    pub overlap: bool,
    pub loggers: usize,
    pub lens: Vec<usize>,
    pub ops: usize,
    pub replace: bool,
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            c11: false,
            c12: false,
            c13: None,
            c21: false,
            particles: vec![2],
            dims: vec![1],
            goals: Values::Unique,
            corrections: vec![0],
            moves: vec![0],
            overlap: false,
            loggers: 1,
            lens: vec![2],
            ops: 0,
            replace: false,
        }
    }
}

pub trait Num: Float + std::fmt::Debug + 'static {}
impl Num for f32 {}
impl Num for f64 {}

fn of<T: Num>(x: f64) -> T {
    T::from(x).unwrap()
}
pub fn key<T: Num>(x: &[T]) -> Vec<u64> {
    x.iter().map(|v| bits(v.to_f64().unwrap() + 0.0)).collect() // -0 is 0
}

fn same_key<T: Num>(a: &[T], b: &[T]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| bits(a.to_f64().unwrap() + 0.0) == bits(b.to_f64().unwrap() + 0.0))
}

#[derive(Clone, Debug, PartialEq)]
enum Stage {
    /// waits for a velocity in this iteration
    Rest,
    /// number of corrections seen
    Velocity(usize),
    /// number of post-move steps seen
    Place(usize),
    /// evaluated in this iteration
    Done,
}

#[derive(Clone, Debug)]
struct Part<T> {
    x: Vec<T>,
    v: Vec<T>,
    value: f64,
    /// position before this iteration's move
    old: (Vec<T>, f64),
    next: Vec<T>,
    stage: Stage,
    /// positions evaluated in this run
    history: Vec<(Vec<T>, f64)>,
}

type Best = Option<(Vec<u64>, u64)>;

struct W<T> {
    cfg: Cfg,
    parts: Vec<Part<T>>,
    creating: bool,
    iteration: usize,
    target: usize,
    counter: u32,
    corr: usize,
    moves: usize,
    evaluated: Vec<(Vec<T>, f64)>,
    /// the evaluated, once they are many, and the best of their values
    known: HashSet<(Vec<u64>, u64)>,
    known_n: usize,
    lowest: f64,
    /// where to look for a particle first, if there are many
    hint: usize,
    /// number of them at the end of the previous iteration
    settled: usize,
    tokens: [u32; 4],
    asked: [usize; 2],
    generated: usize,
    n_log: usize,
    events: Vec<Vec<(Ev, usize, Best)>>,
    stop_saw: Vec<(usize, Best)>,
    evals: usize,
}

type Wr<T> = Rc<RefCell<W<T>>>;

const CORR: usize = 0;
const MOVE: usize = 1;
const STOP: usize = 2;
const LOG: usize = 3;
const NAMES: [&str; 4] = ["velocity correction", "post-move step", "stop criterion", "logger"];

/// The i-th correction; they do not commute.
fn correct<T: Num>(i: usize, j: usize, v: T) -> T {
    match (i + j) % 3 {
        0 => v + of(8.0 + i as f64),
        1 => -v,
        _ => v + v,
    }
}
/// The i-th post-move step.
fn shift<T: Num>(i: usize, j: usize, x: T) -> T {
    match (i + j) % 3 {
        0 => -x,
        1 => x + of(0.5 + i as f64),
        _ => -x - of(2.0),
    }
}

impl<T: Num> W<T> {
    fn token(&self, slot: usize, token: u32) {
        if self.cfg.c12 && slot != LOG || self.cfg.c21 && slot == LOG {
            ensure!(self.tokens[slot] == token, "replaced", "a replaced {} is still used", NAMES[slot]);
        }
    }

    fn evaluate(&mut self, x: &[T], value: f64) {
        if self.evaluated.is_empty() {
            self.known.clear();
            self.known_n = 0;
            self.lowest = value;
        }
        if pso_less(value, self.lowest) {
            self.lowest = value;
        }
        self.evaluated.push((x.to_vec(), value));
    }

    fn was_evaluated(&mut self, x: &[T], value: f64) -> bool {
        if self.evaluated.len() <= 50 {
            return self.evaluated.iter().any(|e| same(e.1, value) && same_key(&e.0, x));
        }
        while self.known_n < self.evaluated.len() {
            let e = &self.evaluated[self.known_n];
            self.known.insert((key(&e.0), bits(e.1)));
            self.known_n += 1;
        }
        self.known.contains(&(key(x), bits(value)))
    }

    /// The first particle that fits; of many, the first one from where the last one was found.
    fn find(&mut self, fits: impl Fn(&Part<T>) -> bool) -> Option<usize> {
        let n = self.parts.len();
        if n <= 100 {
            return self.parts.iter().position(fits);
        }
        let from = self.hint % n;
        let i = (from..n).chain(0..from).find(|i| fits(&self.parts[*i]))?;
        self.hint = i;
        Some(i)
    }

    fn check_best(&mut self, best: Option<(Vec<T>, f64)>, who: &str) {
        if !self.cfg.c11 {
            return;
        }
        match best {
            None => ensure!(self.evaluated.is_empty(), "report", "{} is shown no solution although {:?} were evaluated", who, self.evaluated),
            Some(b) => {
                ensure!(
                    self.was_evaluated(&b.0, b.1),
                    "evaluated",
                    "{} is shown {:?} which was not evaluated like that in this run: {:?}",
                    who,
                    b,
                    self.evaluated
                );
                ensure!(
                    !pso_less(self.lowest, b.1),
                    "best",
                    "{} is shown {:?} although a better point was evaluated: {:?}",
                    who,
                    b,
                    self.evaluated
                );
            }
        }
    }

    /// The initial particles are complete.
    fn close_creation(&mut self) {
        if self.creating {
            if self.cfg.c12 {
                for p in &self.parts {
                    ensure!(p.stage == Stage::Done, "initial", "initial point {:?} is not evaluated", p.next);
                }
            }
            self.creating = false;
            self.settled = self.evaluated.len();
            for p in &mut self.parts {
                p.stage = Stage::Rest;
                p.old = (p.x.clone(), p.value);
            }
            state(("initial", self.parts.iter().map(|p| (key(&p.x), bits(p.value))).collect::<Vec<_>>()));
        }
    }

    /// The current iteration, if one is under way, is complete.
    fn close_iter(&mut self) {
        self.close_creation();
        if self.parts.iter().all(|p| p.stage == Stage::Rest) {
            return;
        }
        for p in &mut self.parts {
            if self.cfg.c12 {
                ensure!(p.stage == Stage::Done, "incomplete", "the iteration ends although the particle at {:?} is at {:?}", p.x, p.stage);
            }
            p.stage = Stage::Rest;
            p.old = (p.x.clone(), p.value);
        }
        self.iteration += 1;
        self.settled = self.evaluated.len();
        note!("iteration {}: {:?}", self.iteration, self.parts.iter().map(|p| (&p.x, p.value)).collect::<Vec<_>>());
        state((self.iteration, self.parts.iter().map(|p| (key(&p.x), key(&p.v), bits(p.value))).collect::<Vec<_>>()));
    }

    fn fresh(&mut self, d: usize) -> Vec<T> {
        self.counter += 1;
        // irregular values, so that positions and their sums with velocities differ
        (0..d)
            .map(|i| {
                let mut h = (self.counter as u64 * 31 + i as u64 + 7).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                h = (h ^ (h >> 31)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                h ^= h >> 29;
                of((h % 4001) as f64 / 4.0 - 500.0 + if h % 4001 == 2000 { 0.25 } else { 0.0 })
            })
            .collect()
    }
}

impl<T: Num> W<T> {
    /// Creates the initial points and velocities when the first of the two initializers is asked.
    fn generate(&mut self, who: usize) {
        self.asked[who] += 1;
        if self.asked[who] <= self.generated {
            return;
        }
        self.generated += 1;
        let (pm, dm) = (self.cfg.particles.clone(), self.cfg.dims.clone());
        let n = pm[choose(pm.len())];
        let d = dm[choose(dm.len())];
        self.parts = vec![];
        for i in 0..n {
            let x = self.fresh(d);
            let v: Vec<T> = (0..d).map(|j| of(1000.0 + (10 * i + j) as f64)).collect();
            self.parts.push(Part { x: x.clone(), v, value: 0.0, old: (x.clone(), 0.0), next: x, stage: Stage::Place(0), history: vec![] });
        }
        note!("initial points {:?}", self.parts.iter().map(|p| &p.x).collect::<Vec<_>>());
    }
}

struct Co<T>(Wr<T>);
impl<T: Num> CoordinatesInitializer<T> for Co<T> {
    fn get_coordinates(&mut self) -> Vec<Vec<T>> {
        let mut w = self.0.borrow_mut();
        w.generate(0);
        w.parts.iter().map(|p| p.x.clone()).collect()
    }
}

struct Ve<T>(Wr<T>);
impl<T: Num> VelocityInitializer<T> for Ve<T> {
    fn get_velocity(&mut self) -> Vec<Vec<T>> {
        let mut w = self.0.borrow_mut();
        w.generate(1);
        w.parts.iter().map(|p| p.v.clone()).collect()
    }
}

struct Go<T>(Wr<T>);
impl<T: Num> Goal<Vec<T>> for Go<T> {
    fn get(&mut self, x: &Vec<T>) -> f64 {
        let mut w = self.0.borrow_mut();
        w.evals += 1;
        let value = match &w.cfg.goals {
            Values::Menu(m) => m[choose(m.len())],
            Values::Unique => ((w.evals * 7919) % 10007) as f64,
        };
        note!("goal({:?}) = {}", x, value);
        w.evaluate(x, value);
        let moves = w.moves;
        match w.find(|p| p.stage == Stage::Place(moves) && same_key(&p.next, x)) {
            Some(i) => {
                let p = &mut w.parts[i];
                p.stage = Stage::Done;
                p.x = x.clone();
                p.value = value;
                if w.cfg.c13.is_some() {
                    w.parts[i].history.push((x.clone(), value));
                }
            }
            None => {
                if w.cfg.c12 {
                    fail!("evaluate", "evaluates {:?}; particles: {:?}", x, w.parts)
                }
                // keep the model going for the other properties
                if let Some(p) = w.parts.iter_mut().find(|p| p.stage != Stage::Done && p.stage != Stage::Rest) {
                    p.stage = Stage::Done;
                    p.x = x.clone();
                    p.value = value;
                }
            }
        }
        value
    }
}

/// The documented equation of the calculator `which`, for one dimension: v and the terms (coefficient, memory).
struct Equation<T> {
    calc: Box<dyn VelocityCalculator<T>>,
    /// 0: Classic, 1: Canonical, 2: Inertia, 3: NegativeReinforcement
    which: usize,
    outer: f64,
    /// index of the memory, coefficient
    terms: Vec<(usize, f64)>,
}

const MEM: [&str; 6] = ["personal best", "current best", "global best", "personal worst", "current worst", "global worst"];

struct Coefficient;
impl<T: Num> Inertia<T> for Coefficient {
    fn get(&mut self, iteration: usize) -> T {
        of(coefficient(iteration))
    }
}
fn coefficient(iteration: usize) -> f64 {
    0.5 + 0.125 * iteration as f64
}

fn equations<T: Num>(which: &[usize]) -> Vec<Equation<T>> {
    let mut v: Vec<Equation<T>> = vec![];
    let mut add = |w: usize, calc: Box<dyn VelocityCalculator<T>>, outer: f64, terms: Vec<(usize, f64)>| {
        if which.contains(&w) {
            v.push(Equation { calc, which: w, outer, terms })
        }
    };
    for (p, g) in [(1.5, 2.25), (0.0, 2.0), (2.0, 0.0)] {
        add(0, Box::new(ClassicVelocityCalculator::new(of(p), of(g))), 1.0, vec![(0, p), (2, g)]);
    }
    for (p, g, a) in [(2.5, 1.75, 0.875), (4.5, 0.0, 0.25), (0.25, 8.0, 0.5)] {
        let xi = 2.0 * a / (p + g - 2.0);
        add(1, Box::new(CanonicalVelocityCalculator::new(of(p), of(g), of(a))), xi, vec![(0, p), (2, g)]);
    }
    for (p, g) in [(1.5, 2.25), (0.0, 0.0)] {
        add(2, Box::new(InertiaVelocityCalculator::new(of(p), of(g), Box::new(Coefficient))), 1.0, vec![(0, p), (2, g)]);
    }
    for (c, xi) in [([1.5, 0.5, 2.25, 0.75, 1.25, 2.0], 0.75), ([2.0, 0.0, 0.0, 0.0, 3.0, 0.0], 1.0)] {
        add(
            3,
            Box::new(NegativeReinforcement::new(of(c[0]), of(c[1]), of(c[2]), of(c[3]), of(c[4]), of(c[5]), of(xi))),
            xi,
            (0..6).map(|i| (i, if i < 3 { c[i] } else { -c[i] })).collect(),
        );
    }
    v
}
const CALC: [&str; 4] = ["ClassicVelocityCalculator", "CanonicalVelocityCalculator", "InertiaVelocityCalculator", "NegativeReinforcement"];

fn f64s<T: Num>(x: &[T]) -> Vec<f64> {
    x.iter().map(|v| v.to_f64().unwrap()).collect()
}

/// All positions with the best (worst) value.
fn extreme<'a, T: Num>(list: impl Iterator<Item = (&'a Vec<T>, f64)>, best: bool) -> Vec<Vec<f64>> {
    let all: Vec<_> = list.collect();
    let beats = |a: f64, b: f64| if best { pso_less(a, b) } else { pso_less(b, a) };
    let top = all.iter().fold(None, |t: Option<f64>, a| if t.map_or(true, |t| beats(a.1, t)) { Some(a.1) } else { t });
    let mut v: Vec<Vec<f64>> = vec![];
    for a in &all {
        if !beats(top.unwrap(), a.1) {
            let x = f64s(a.0);
            if !v.contains(&x) {
                v.push(x);
            }
        }
    }
    v
}

impl<T: Num> W<T> {
    fn memories(&self, i: usize) -> Vec<Vec<Vec<f64>>> {
        let p = &self.parts[i];
        let present = || self.parts.iter().map(|p| (&p.x, p.value));
        let own = || p.history.iter().map(|h| (&h.0, h.1));
        let all = || self.evaluated[..self.settled].iter().map(|h| (&h.0, h.1));
        vec![
            extreme(own(), true),
            extreme(present(), true),
            extreme(all(), true),
            extreme(own(), false),
            extreme(present(), false),
            extreme(all(), false),
        ]
    }
}

fn near(a: &[f64], b: &[f64], tol: f64) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| (a - b).abs() <= tol)
}

/// The distribution of the equation's value over the combinations of the factors, in every dimension independently.
fn expected(e: &Equation<impl Num>, inertia: f64, factors: &[f64], x: &[f64], v: &[f64], m: &[Vec<f64>]) -> Vec<(Vec<f64>, f64)> {
    let mut out: Vec<(Vec<f64>, f64)> = vec![(vec![], 1.0)];
    for j in 0..x.len() {
        let mut one: Vec<(f64, f64)> = vec![(if e.which == 2 { inertia * v[j] } else { v[j] }, 1.0)];
        for &(k, c) in &e.terms {
            let mut next: Vec<(f64, f64)> = vec![];
            for &(s, w) in &one {
                for r in factors {
                    let t = s + c * r * (m[k][j] - x[j]);
                    match next.iter_mut().find(|n| (n.0 - t).abs() < 1e-9) {
                        Some(n) => n.1 += w / factors.len() as f64,
                        None => next.push((t, w / factors.len() as f64)),
                    }
                }
            }
            one = next;
        }
        let mut next = vec![];
        for (a, wa) in &out {
            for (b, wb) in &one {
                let mut a = a.clone();
                a.push(e.outer * b);
                next.push((a, wa * wb));
            }
        }
        out = next;
    }
    out
}

fn examine<T: Num>(
    eqs: &mut [Equation<T>],
    probes: &mut [Box<dyn VelocityCalculator<T>>],
    w: &W<T>,
    i: usize,
    cfg: &Equations,
    swarm: &Swarm<T>,
    particle: &Particle<T>,
) {
    let single = T::epsilon().to_f64().unwrap() > 1e-10;
    let (x, v) = (f64s(&w.parts[i].x), f64s(&w.parts[i].v));
    let cand = w.memories(i);
    let scale = 1.0 + v.iter().chain(cand.iter().flatten().flatten()).chain(&x).fold(0.0f64, |a, b| a.max(b.abs()));
    let tol = scale * if single { 4e-6 } else { 1e-6 };
    let mut m: Vec<Vec<f64>> = cand.iter().map(|c| c[0].clone()).collect();
    if cfg.memories {
        let ones = Policy { floats: vec![1.0], ..Policy::default() };
        // copies of a particle keep its memories
        let copy = particle.clone();
        for (k, p) in probes.iter_mut().enumerate() {
            let r = f64s(&fixed(&ones, || p.calc_new_velocity(swarm, particle)));
            let r2 = f64s(&fixed(&ones, || p.calc_new_velocity(swarm, &copy)));
            ensure!(key(&r) == key(&r2), "copy", "the {} seen by a copy of the particle at {:?} differs: {:?} instead of {:?}", MEM[k], x, r2, r);
            let sign = if k < 3 { 1.0 } else { -1.0 };
            let seen: Vec<f64> = (0..x.len()).map(|j| if j < r.len() { sign * (r[j] - v[j]) + x[j] } else { f64::NAN }).collect();
            match cand[k].iter().find(|c| near(c, &seen, tol)) {
                Some(c) => m[k] = c.clone(),
                None => fail!(
                    "memory",
                    "the {} seen by the particle at {:?} is {:?} instead of one of {:?}; its history {:?}, all evaluated before {:?}, present {:?}",
                    MEM[k],
                    x,
                    seen,
                    cand[k],
                    w.parts[i].history,
                    &w.evaluated[..w.settled],
                    w.parts.iter().map(|p| (&p.x, p.value)).collect::<Vec<_>>()
                ),
            }
        }
    }
    let policy = Policy { floats: cfg.factors.clone(), ..Policy::default() };
    for e in eqs.iter_mut() {
        let coefficients: f64 = e.terms.iter().map(|t| t.1.abs()).sum::<f64>() + 1.0 + coefficient(w.iteration);
        let tol = tol * coefficients * e.outer;
        let seen: Vec<(Vec<f64>, f64)> =
            nested(&policy, None, || e.calc.calc_new_velocity(swarm, particle)).into_iter().map(|(v, q)| (f64s(&v), q)).collect();
        let fits = |m: &[Vec<f64>]| -> bool {
            let want = expected(e, coefficient(w.iteration), &cfg.factors, &x, &v, m);
            let mut rest = vec![0.0; want.len()];
            for (r, q) in &seen {
                match want.iter().position(|t| near(&t.0, r, tol)) {
                    Some(i) => rest[i] += q,
                    None => return false,
                }
            }
            want.iter().enumerate().all(|(i, t)| {
                // neighbours within the tolerance share their probability
                let (mut a, mut b) = (0.0, 0.0);
                for (j, u) in want.iter().enumerate() {
                    if near(&u.0, &t.0, 2.0 * tol) {
                        a += u.1;
                        b += rest[j];
                    }
                }
                let _ = i;
                (a - b).abs() < 1e-9
            })
        };
        let mut ok = fits(&m);
        if !ok {
            // another choice among equally good memories
            let used: Vec<usize> = e.terms.iter().map(|t| t.0).collect();
            let mut idx = vec![0usize; used.len()];
            'search: loop {
                for (u, i) in used.iter().zip(&idx) {
                    m[*u] = cand[*u][*i].clone();
                }
                if fits(&m) {
                    ok = true;
                    break;
                }
                let mut k = 0;
                loop {
                    if k == used.len() {
                        break 'search;
                    }
                    idx[k] += 1;
                    if idx[k] < cand[used[k]].len() {
                        break;
                    }
                    idx[k] = 0;
                    k += 1;
                }
            }
        }
        if !ok {
            let m: Vec<Vec<f64>> = cand.iter().map(|c| c[0].clone()).collect();
            let want = expected(e, coefficient(w.iteration), &cfg.factors, &x, &v, &m);
            fail!(
                "equation",
                "{} outer {} terms {:?} at iteration {}: particle at {:?} with velocity {:?}, memories {:?}: results {:?} instead of {:?}",
                CALC[e.which],
                e.outer,
                e.terms,
                w.iteration,
                x,
                v,
                cand,
                &seen[..seen.len().min(9)],
                &want[..want.len().min(9)]
            );
        }
    }
}

struct Ca<T> {
    w: Wr<T>,
    eqs: Vec<Equation<T>>,
    probes: Vec<Box<dyn VelocityCalculator<T>>>,
}
impl<T: Num> Ca<T> {
    fn new(w: Wr<T>) -> Ca<T> {
        let (mut eqs, mut probes) = (vec![], vec![]);
        if let Some(q) = &w.borrow().cfg.c13 {
            eqs = equations(&q.calculators);
            for k in 0..6 {
                let c = |i| of::<T>((i == k) as usize as f64);
                probes.push(Box::new(NegativeReinforcement::new(c(0), c(1), c(2), c(3), c(4), c(5), T::one())) as Box<dyn VelocityCalculator<T>>);
            }
        }
        Ca { w, eqs, probes }
    }
}
impl<T: Num> VelocityCalculator<T> for Ca<T> {
    fn calc_new_velocity(&mut self, swarm: &Swarm<T>, particle: &Particle<T>) -> Vec<T> {
        let mut w = self.w.borrow_mut();
        w.close_creation();
        if w.parts.iter().rev().all(|p| p.stage == Stage::Done) {
            w.close_iter();
        }
        let x = particle.get_parameter().clone();
        let value = particle.get_goal();
        let moves = w.moves;
        let corr = w.corr;
        let mut found = None;
        if w.cfg.c12 {
            let mut probe = InertiaVelocityCalculator::new(T::zero(), T::zero(), Box::new(ConstInertia::new(T::one())));
            let v = fixed(&Policy::default(), || probe.calc_new_velocity(swarm, particle));
            found = w.find(|p| p.stage == Stage::Rest && same_key(&p.x, &x) && same(p.value, value) && same_key(&p.v, &v));
            if found.is_none() {
                fail!(
                    "particle",
                    "a velocity is asked for a particle at {:?} with value {} and velocity {:?}; particles: {:?}",
                    x,
                    value,
                    v,
                    w.parts
                );
            }
            ensure!(swarm.get_iteration() == w.iteration, "iteration", "the calculator sees iteration {} instead of {}", swarm.get_iteration(), w.iteration);
            ensure!(swarm.len() == w.parts.len(), "len", "the swarm has {} particles instead of {}", swarm.len(), w.parts.len());
            let n = w.parts.len();
            if n <= 1000 || found.map_or(false, |i| i % (n / 8) == n / 16 || i + 1 == n) {
                let mut have: HashMap<(Vec<u64>, u64), usize> = HashMap::new();
                for a in swarm.get_agents() {
                    *have.entry((key(a.get_parameter()), bits(a.get_goal()))).or_insert(0) += 1;
                }
                // particles that were evaluated in this iteration may show their old or their new state
                for p in &w.parts {
                    let mut seen = false;
                    for (k, may) in [((key(&p.x), bits(p.value)), true), ((key(&p.old.0), bits(p.old.1)), p.stage == Stage::Done)] {
                        if let (false, true, Some(n)) = (seen, may, have.get_mut(&k)) {
                            if *n > 0 {
                                *n -= 1;
                                seen = true;
                            }
                        }
                    }
                    ensure!(seen, "agents", "no agent of the swarm shows {:?} with value {}", p.x, p.value);
                }
            }
        } else {
            found = w.find(|p| p.stage == Stage::Rest && same_key(&p.x, &x)).or_else(|| w.find(|p| p.stage == Stage::Rest));
        }
        if let Some(q) = w.cfg.c13.clone() {
            if let Some(i) = found {
                // anything else is the matter of C12
                if key(&w.parts[i].x) == key(&x) && same(w.parts[i].value, value) {
                    examine(&mut self.eqs, &mut self.probes, &w, i, &q, swarm, particle);
                }
            }
        }
        let v = w.fresh(x.len());
        note!("new velocity {:?} for the particle at {:?}", v, x);
        if let Some(i) = found {
            let p = &mut w.parts[i];
            p.v = v.clone();
            p.stage = Stage::Velocity(0);
            if corr == 0 {
                p.next = p.x.iter().zip(&p.v).map(|(a, b)| *a + *b).collect();
                p.stage = Stage::Place(0);
            }
            let _ = moves;
        }
        v
    }
}

struct Cv<T>(Wr<T>, u32, usize);
impl<T: Num> PostVelocityCalc<T> for Cv<T> {
    fn correct_velocity(&mut self, velocity: Vec<T>) -> Vec<T> {
        let mut w = self.0.borrow_mut();
        w.token(CORR, self.1);
        let i = self.2;
        let out: Vec<T> = velocity.iter().enumerate().map(|(j, v)| correct(i, j, *v)).collect();
        let corr = w.corr;
        match w.find(|p| p.stage == Stage::Velocity(i) && same_key(&p.v, &velocity)) {
            Some(n) => {
                let p = &mut w.parts[n];
                p.v = out.clone();
                p.stage = Stage::Velocity(i + 1);
                if i + 1 == corr {
                    p.next = p.x.iter().zip(&p.v).map(|(a, b)| *a + *b).collect();
                    p.stage = Stage::Place(0);
                }
            }
            None => {
                if w.cfg.c12 {
                    fail!("correction", "correction {} is asked for {:?}; particles: {:?}", i, velocity, w.parts)
                }
            }
        }
        note!("correction {}: {:?} -> {:?}", i, velocity, out);
        out
    }
}

struct Pm<T>(Wr<T>, u32, usize);
impl<T: Num> PostMove<T> for Pm<T> {
    fn post_move(&mut self, x: &mut Vec<T>) {
        let mut w = self.0.borrow_mut();
        w.token(MOVE, self.1);
        let i = self.2;
        let before = x.clone();
        for (j, c) in x.iter_mut().enumerate() {
            *c = shift(i, j, *c);
        }
        if w.cfg.overlap && choose(2) == 1 {
            // onto the first evaluated point
            if let Some(e) = w.evaluated.first() {
                if e.0.len() == x.len() {
                    *x = e.0.clone();
                }
            }
        }
        match w.find(|p| p.stage == Stage::Place(i) && same_key(&p.next, &before)) {
            Some(n) => {
                w.parts[n].next = x.clone();
                w.parts[n].stage = Stage::Place(i + 1);
            }
            None => {
                if w.cfg.c12 {
                    fail!("post-move", "post-move step {} is asked for {:?}; particles: {:?}", i, before, w.parts)
                }
            }
        }
        note!("post-move step {}: {:?} -> {:?}", i, before, x);
    }
}

fn best_of<T: Num>(b: &Option<(Vec<T>, f64)>) -> Best {
    b.as_ref().map(|b| (key(&b.0), bits(b.1)))
}

struct St<T>(Wr<T>, u32);
impl<T: Num> StopChecker<Vec<T>> for St<T> {
    fn can_stop(&mut self, s: &dyn AlgorithmState<Vec<T>>) -> bool {
        let mut w = self.0.borrow_mut();
        w.token(STOP, self.1);
        let empty = w.parts.is_empty();
        w.close_iter();
        if empty {
            // no calls mark the iterations of an empty swarm
            w.iteration = s.get_iteration();
        }
        w.check_best(s.get_best_solution(), "the stop criterion");
        if w.cfg.c12 {
            ensure!(s.get_iteration() == w.iteration, "iteration", "the stop criterion sees iteration {} instead of {}", s.get_iteration(), w.iteration);
        }
        let it = s.get_iteration();
        w.stop_saw.push((it, best_of(&s.get_best_solution())));
        ensure!(w.stop_saw.len() < 100_000, "endless", "the stop criterion is asked {} times", w.stop_saw.len());
        w.iteration >= w.target
    }
}

struct Lo<T>(Wr<T>, u32, usize);
impl<T: Num> Lo<T> {
    fn event(&mut self, ev: Ev, s: &dyn AlgorithmState<Vec<T>>) {
        let mut w = self.0.borrow_mut();
        w.token(LOG, self.1);
        match ev {
            Ev::Next | Ev::Finish => w.close_iter(),
            _ => w.close_creation(),
        }
        w.check_best(s.get_best_solution(), "a logger");
        w.events[self.2].push((ev, s.get_iteration(), best_of(&s.get_best_solution())));
    }
}
impl<T: Num> Logger<Vec<T>> for Lo<T> {
    fn start(&mut self, s: &dyn AlgorithmState<Vec<T>>) {
        self.event(Ev::Start, s)
    }
    fn resume(&mut self, s: &dyn AlgorithmState<Vec<T>>) {
        self.event(Ev::Resume, s)
    }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<Vec<T>>) {
        self.event(Ev::Next, s)
    }
    fn finish(&mut self, s: &dyn AlgorithmState<Vec<T>>) {
        self.event(Ev::Finish, s)
    }
}

fn corrections<T: Num>(w: &Wr<T>, n: usize, t: u32) -> Vec<Box<dyn PostVelocityCalc<T>>> {
    (0..n).map(|i| Box::new(Cv(w.clone(), t, i)) as Box<dyn PostVelocityCalc<T>>).collect()
}
fn post_moves<T: Num>(w: &Wr<T>, n: usize, t: u32) -> Vec<Box<dyn PostMove<T>>> {
    (0..n).map(|i| Box::new(Pm(w.clone(), t, i)) as Box<dyn PostMove<T>>).collect()
}
fn loggers<T: Num>(w: &Wr<T>, n: usize, t: u32) -> Vec<Box<dyn Logger<Vec<T>>>> {
    (0..n).map(|i| Box::new(Lo(w.clone(), t, i)) as Box<dyn Logger<Vec<T>>>).collect()
}

/// One execution: a run followed by `cfg.ops` further runs or resumptions, with replacements in between.
pub fn session<T: Num>(cfg: &Cfg) {
    let w: Wr<T> = Rc::new(RefCell::new(W {
        cfg: cfg.clone(),
        parts: vec![],
        creating: false,
        iteration: 0,
        target: 0,
        counter: 0,
        corr: cfg.corrections[choose(cfg.corrections.len())],
        moves: cfg.moves[choose(cfg.moves.len())],
        evaluated: vec![],
        known: HashSet::new(),
        known_n: 0,
        lowest: 0.0,
        hint: 0,
        settled: 0,
        tokens: [0; 4],
        asked: [0; 2],
        generated: 0,
        n_log: cfg.loggers,
        events: vec![],
        stop_saw: vec![],
        evals: 0,
    }));
    let mut opt = ParticleSwarmOptimizer::new(
        Box::new(Go(w.clone())),
        Box::new(St(w.clone(), 0)),
        Box::new(Co(w.clone())),
        Box::new(Ve(w.clone())),
        Box::new(Ca::new(w.clone())),
    );
    let (c, m) = (w.borrow().corr, w.borrow().moves);
    if c > 0 {
        opt.set_post_velocity_calc(corrections(&w, c, 0));
    }
    if m > 0 {
        opt.set_post_moves(post_moves(&w, m, 0));
    }
    opt.set_loggers(loggers(&w, cfg.loggers, 0));
    for op in 0..=cfg.ops {
        let run = op == 0 || choose(2) == 0;
        if op > 0 && cfg.replace {
            let r = choose(6);
            let mut m = w.borrow_mut();
            let t = op as u32;
            let mut which = |slot: usize| -> bool {
                let yes = r == slot + 1 || r == 5;
                if yes {
                    m.tokens[slot] = t;
                }
                yes
            };
            let (a, b, c, d) = (which(0), which(1), which(2), which(3));
            if a {
                m.corr = choose(3);
                opt.set_post_velocity_calc(corrections(&w, m.corr, t));
            }
            if b {
                m.moves = choose(3);
                opt.set_post_moves(post_moves(&w, m.moves, t));
            }
            if c {
                opt.set_stop_checker(Box::new(St(w.clone(), t)));
            }
            if d {
                m.n_log = [cfg.loggers, cfg.loggers + 1, 0][choose(3)];
                opt.set_loggers(loggers(&w, m.n_log, t));
            }
            note!("replaced: {}", if r == 0 { "nothing" } else if r == 5 { "everything" } else { NAMES[r - 1] });
        }
        let len = cfg.lens[choose(cfg.lens.len())];
        let (asked, from, evals);
        {
            let mut m = w.borrow_mut();
            if run {
                m.iteration = 0;
                m.parts.clear();
                m.evaluated.clear();
                m.known.clear();
                m.known_n = 0;
                m.settled = 0;
                m.creating = true;
            }
            from = m.iteration;
            m.target = m.iteration + len;
            let n = m.n_log;
            m.events = vec![vec![]; n];
            m.stop_saw.clear();
            asked = m.asked;
            evals = m.evals;
        }
        note!("{} for {} iterations", if run { "run" } else { "resume" }, len);
        let r = if run { opt.find_min() } else { opt.next_iterations() };
        let mut m = w.borrow_mut();
        m.close_iter();
        m.check_best(r.clone(), "the caller");
        if m.cfg.c12 {
            let want = run as usize;
            ensure!(
                m.asked == [asked[0] + want, asked[1] + want],
                "create",
                "the initializers are asked {} and {} times in {}",
                m.asked[0] - asked[0],
                m.asked[1] - asked[1],
                if run { "a run" } else { "a resumption" }
            );
            ensure!(m.iteration == from + len, "iterations", "{} iterations instead of {}", m.iteration - from, len);
            let want = m.parts.len() * (len + want);
            ensure!(m.evals - evals == want, "evaluations", "{} evaluations instead of {}", m.evals - evals, want);
        }
        if m.cfg.c21 {
            let ret = best_of(&r);
            for (n, e) in m.events.iter().enumerate() {
                check_events(&format!("logger {}", n), e, run, from, m.iteration, &m.stop_saw, &ret);
            }
        }
    }
}

/// Particles with special coordinates and velocities: every evaluated point is the previous one plus the velocity.
pub fn special_moves<T: Num>(dims: usize, len: usize, few: bool) {
    struct Init<T>(Rc<RefCell<Vec<T>>>, usize, Rc<Vec<T>>);
    impl<T: Num> CoordinatesInitializer<T> for Init<T> {
        fn get_coordinates(&mut self) -> Vec<Vec<T>> {
            for _ in 0..self.1 {
                let x = self.2[choose(self.2.len())];
                self.0.borrow_mut().push(x);
            }
            vec![self.0.borrow().clone()]
        }
    }
    impl<T: Num> VelocityInitializer<T> for Init<T> {
        fn get_velocity(&mut self) -> Vec<Vec<T>> {
            vec![vec![T::one(); self.1]]
        }
    }
    struct Calc<T>(Rc<RefCell<Vec<T>>>, Rc<Vec<T>>);
    impl<T: Num> VelocityCalculator<T> for Calc<T> {
        fn calc_new_velocity(&mut self, _: &Swarm<T>, p: &Particle<T>) -> Vec<T> {
            let v: Vec<T> = p.get_parameter().iter().map(|_| self.1[choose(self.1.len())]).collect();
            for (x, v) in self.0.borrow_mut().iter_mut().zip(&v) {
                *x = *x + *v;
            }
            note!("velocity {:?}", v);
            v
        }
    }
    struct Aim<T>(Rc<RefCell<Vec<T>>>);
    impl<T: Num> Goal<Vec<T>> for Aim<T> {
        fn get(&mut self, x: &Vec<T>) -> f64 {
            let want = self.0.borrow();
            ensure!(
                x.len() == want.len() && x.iter().zip(want.iter()).all(|(a, b)| a == b || a.is_nan() && b.is_nan()),
                "special",
                "evaluates {:?} instead of {:?}",
                x,
                want
            );
            note!("goal({:?})", x);
            state(key(x));
            1.0
        }
    }
    struct Until(usize);
    impl<T> StopChecker<Vec<T>> for Until {
        fn can_stop(&mut self, s: &dyn AlgorithmState<Vec<T>>) -> bool {
            s.get_iteration() >= self.0
        }
    }
    let (inf, nan, tiny, max) = (T::infinity(), T::nan(), T::min_positive_value(), T::max_value());
    let sub = tiny / of(1024.0);
    let mut xs = vec![T::zero(), T::one(), sub, -max, of(-0.1), of(1e17), inf];
    let mut vs = vec![T::zero(), -T::zero(), of(0.1), sub, -sub, tiny, T::epsilon() / of(2.0), -max, max, inf, -inf, nan, of(1e-3), of(1e9)];
    if few {
        xs.truncate(4);
        vs = vec![T::zero(), sub, of(0.1), max, -inf, nan];
    }
    let point = Rc::new(RefCell::new(vec![]));
    let xs = Rc::new(xs);
    let mut opt = ParticleSwarmOptimizer::new(
        Box::new(Aim(point.clone())),
        Box::new(Until(len)),
        Box::new(Init(point.clone(), dims, xs.clone())),
        Box::new(Init(point.clone(), dims, xs)),
        Box::new(Calc(point.clone(), Rc::new(vs))),
    );
    let n = if choose(2) == 1 { 1 } else { 0 };
    struct Same;
    impl<T> PostVelocityCalc<T> for Same {
        fn correct_velocity(&mut self, v: Vec<T>) -> Vec<T> {
            v
        }
    }
    impl<T> PostMove<T> for Same {
        fn post_move(&mut self, _: &mut Vec<T>) {}
    }
    opt.set_post_velocity_calc((0..n).map(|_| Box::new(Same) as Box<dyn PostVelocityCalc<T>>).collect());
    opt.set_post_moves((0..n).map(|_| Box::new(Same) as Box<dyn PostMove<T>>).collect());
    opt.find_min();
}
