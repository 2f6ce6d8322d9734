//! Complete runs of both optimizers with the library's own components: C04, C19, C20, C27, C28, C30.

use super::Prop;
use crate::engine::*;
use crate::util::*;
use num::Float;
use optlib::genetic::creation::vec_float::RandomCreator;
use optlib::genetic::cross::*;
use optlib::genetic::mutation::*;
use optlib::genetic::pairing::*;
use optlib::genetic::pre_birth;
use optlib::genetic::selection;
use optlib::genetic::selection::{KillFitnessNaN, LimitPopulation};
use optlib::genetic::*;
use optlib::particleswarm::initializing::*;
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::velocitycalc::*;
use optlib::particleswarm::*;
use optlib::tools::logging::*;
use optlib::tools::statistics::{CallCountData, GoalCalcStatistics, Statistics, StatisticsLogger};
use optlib::tools::stopchecker::*;
use optlib::{Agent, AgentsState, AlgorithmState, Goal, IterativeOptimizer, Optimizer};
use std::cell::RefCell;
use std::fmt::{Debug, Display};
use std::rc::Rc;

const INF: f64 = f64::INFINITY;
const NAN: f64 = f64::NAN;

pub trait Re: Float + Debug + Display + Send + Sync + rand::distributions::uniform::SampleUniform + 'static {
    const N: &'static str;
    fn bitwise() -> Box<dyn Cross<Self>>;
    fn flip(k: usize) -> Box<dyn Mutation<Self>>;
    fn of(x: f64) -> Self {
        num::cast(x).unwrap()
    }
}
impl Re for f32 {
    const N: &'static str = "f32";
    fn bitwise() -> Box<dyn Cross<f32>> {
        Box::new(CrossBitwise::new())
    }
    fn flip(k: usize) -> Box<dyn Mutation<f32>> {
        Box::new(BitwiseMutation::new(k))
    }
}
impl Re for f64 {
    const N: &'static str = "f64";
    fn bitwise() -> Box<dyn Cross<f64>> {
        Box::new(CrossBitwise::new())
    }
    fn flip(k: usize) -> Box<dyn Mutation<f64>> {
        Box::new(BitwiseMutation::new(k))
    }
}

fn key<T: Re>(x: &[T]) -> Vec<u64> {
    x.iter().map(|v| bits(v.to_f64().unwrap())).collect()
}
type Best = Option<(Vec<u64>, u64)>;
fn best_of<T: Re>(b: &Option<(Vec<T>, f64)>) -> Best {
    b.as_ref().map(|b| (key(&b.0), bits(b.1)))
}

#[derive(Clone, Debug, PartialEq)]
enum Ev {
    Eval(Vec<u64>, u64),
    Start(usize, Best),
    Resume(usize, Best),
    Next(usize, Best),
    Finish(usize, Best),
    Check(usize, Best),
    Created,
}

struct W {
    /// 0: smooth, 1: plateaus, 2: with NaN and infinite regions, 3: constant
    goal: usize,
    /// further values the goal function may return instead
    menu: Vec<f64>,
    evals: usize,
    finite: bool,
    target: usize,
    asked: usize,
    trace: Vec<Ev>,
    record: bool,
    /// the search space, if the run must stay inside
    space: Option<Vec<(f64, f64)>>,
    /// the limit of survivors
    limit: Option<usize>,
    admitted: Option<f64>,
    report: Option<f64>,
    last: (usize, Option<f64>),
    creations: usize,
    /// symbolic chromosomes for the scripted operators
    genes: Vec<f64>,
    /// called at every call of the explorer's own components
    hook: Option<Box<dyn FnMut()>>,
    /// factor on the parameters of all components
    twist: f64,
    /// the same iteration counts in all components
    same_counts: bool,
    /// other values for the goal function's ones
    remap: Option<Rc<Vec<(f64, f64)>>>,
    /// the goal function is wrapped by the call counter
    counted: bool,
    /// the unit of each coordinate (1 if not given)
    units: Vec<f64>,
    /// the values of the evaluations in their order, whatever is evaluated
    replay: Option<Rc<Vec<f64>>>,
}
type Wr = Rc<RefCell<W>>;

fn poke(w: &Wr) {
    let h = w.borrow_mut().hook.take();
    if let Some(mut h) = h {
        h();
        w.borrow_mut().hook = Some(h);
    }
}

fn world(goal: usize, menu: &[f64]) -> Wr {
    Rc::new(RefCell::new(W {
        goal,
        menu: menu.to_vec(),
        evals: 0,
        finite: false,
        target: 0,
        asked: 0,
        trace: vec![],
        record: false,
        space: None,
        limit: None,
        admitted: None,
        report: None,
        last: (0, None),
        creations: 0,
        genes: vec![],
        hook: None,
        twist: 1.0,
        same_counts: true,
        remap: None,
        counted: false,
        units: vec![],
        replay: None,
    }))
}

impl W {
    fn ev(&mut self, e: Ev) {
        if self.record {
            self.trace.push(e)
        }
    }
    fn unit<T: Re>(&self, d: usize) -> T {
        T::of(self.units.get(d).copied().unwrap_or(1.0))
    }
    fn intervals<T: Re>(&self, dims: usize) -> Vec<(T, T)> {
        let f = T::of(self.twist);
        (0..dims).zip(intervals::<T>(dims)).map(|(d, i)| (i.0 * f * self.unit(d), i.1 * f * self.unit(d))).collect()
    }
    fn inside<T: Re>(&self, x: &[T], what: &str) {
        if let Some(s) = &self.space {
            ensure!(x.len() == s.len(), "space", "{} {:?} has {} coordinates instead of {}", what, x, x.len(), s.len());
            for (c, iv) in x.iter().zip(s) {
                let c = c.to_f64().unwrap();
                ensure!(c >= iv.0 && c <= iv.1, "space", "{} {:?} lies outside of {:?}", what, x, s);
            }
        }
    }
}

struct Go(Wr);
impl<T: Re> Goal<Vec<T>> for Go {
    fn get(&mut self, x: &Vec<T>) -> f64 {
        poke(&self.0);
        let mut w = self.0.borrow_mut();
        w.inside(x, "the evaluated point");
        w.evals += 1;
        let k = choose(1 + w.menu.len());
        let v = if k > 0 {
            w.menu[k - 1]
        } else {
            let s: f64 = x.iter().map(|c| (c.to_f64().unwrap() - 0.3).powi(2)).sum();
            let f = x.first().map_or(0.0, |c| c.to_f64().unwrap());
            match w.goal {
                0 => s,
                1 => (s * 2.0).floor() / 2.0,
                2 if f > 0.6 => NAN,
                2 if f < -0.7 => INF,
                2 => s,
                _ => 1.0,
            }
        };
        let v = match &w.replay {
            Some(r) => match r.get(w.evals - 1) {
                Some(v) => *v,
                None => fail!("differs", "{:?} is evaluation {}, the first run made only {}", x, w.evals, r.len()),
            },
            _ => v,
        };
        let v = match &w.remap {
            Some(t) if v.is_finite() => match t.iter().find(|p| p.0 == v) {
                Some(p) => p.1,
                None => fail!("differs", "{:?} is evaluated (value {}), which the first run did not do", x, v),
            },
            _ => v,
        };
        w.finite |= v.is_finite();
        note!("goal({:?}) = {}", x, v);
        w.ev(Ev::Eval(key(x), bits(v)));
        v
    }
}

/// The goal function inside the library's call counter.
struct Counted<T: 'static> {
    counter: Option<GoalCalcStatistics<'static, Vec<T>>>,
    goal: *mut Go,
    calls: *mut CallCountData,
}
impl<T: Re> Goal<Vec<T>> for Counted<T> {
    fn get(&mut self, x: &Vec<T>) -> f64 {
        self.counter.as_mut().unwrap().get(x)
    }
}
impl<T> Drop for Counted<T> {
    fn drop(&mut self) {
        self.counter = None;
        // SAFETY: both come from Box::into_raw and their only user is gone
        unsafe {
            drop(Box::from_raw(self.goal));
            drop(Box::from_raw(self.calls));
        }
    }
}
fn goal_of<T: Re>(w: &Wr) -> Box<dyn Goal<Vec<T>>> {
    if !w.borrow().counted {
        return Box::new(Go(w.clone()));
    }
    let goal = Box::into_raw(Box::new(Go(w.clone())));
    let calls = Box::into_raw(Box::new(CallCountData::new()));
    // SAFETY: freed after the counter
    let counter = unsafe { GoalCalcStatistics::new(&mut *goal as &mut dyn Goal<Vec<T>>, &mut *calls) };
    Box::new(Counted { counter: Some(counter), goal, calls })
}

/// Ends a run at the iteration `target`.
struct Until(Wr);
impl<T: Re> StopChecker<Vec<T>> for Until {
    fn can_stop(&mut self, s: &dyn AlgorithmState<Vec<T>>) -> bool {
        poke(&self.0);
        let mut w = self.0.borrow_mut();
        w.asked += 1;
        ensure!(w.asked < 100_000, "endless", "the run does not end");
        let it = s.get_iteration();
        w.ev(Ev::Check(it, best_of(&s.get_best_solution())));
        it >= w.target
    }
}

struct Lo(Wr);
impl<T: Re> Logger<Vec<T>> for Lo {
    fn start(&mut self, s: &dyn AlgorithmState<Vec<T>>) {
        poke(&self.0);
        let mut w = self.0.borrow_mut();
        w.ev(Ev::Start(s.get_iteration(), best_of(&s.get_best_solution())));
    }
    fn resume(&mut self, s: &dyn AlgorithmState<Vec<T>>) {
        poke(&self.0);
        let mut w = self.0.borrow_mut();
        w.ev(Ev::Resume(s.get_iteration(), best_of(&s.get_best_solution())));
    }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<Vec<T>>) {
        poke(&self.0);
        let mut w = self.0.borrow_mut();
        let b = s.get_best_solution();
        note!("iteration {}: {:?}", s.get_iteration(), b);
        w.last = (s.get_iteration(), b.as_ref().map(|b| b.1));
        if let Some(b) = &b {
            w.inside(&b.0, "the reported solution");
        }
        if w.limit.is_some() {
            let now = b.as_ref().map(|b| b.1);
            if let Some(old) = w.report {
                if old.is_finite() {
                    ensure!(
                        now.map_or(false, |n| n <= old),
                        "worse",
                        "the reported best goes from {} to {:?}",
                        old,
                        now
                    );
                }
            }
            if let Some(a) = w.admitted.take() {
                ensure!(
                    now.map_or(false, |n| !ga_less(a, n)),
                    "lost",
                    "the report is {:?} although an individual with {} was admitted",
                    now,
                    a
                );
            }
            w.report = now;
        }
        w.ev(Ev::Next(s.get_iteration(), best_of(&b)));
        state((s.get_iteration(), best_of(&b)));
    }
    fn finish(&mut self, s: &dyn AlgorithmState<Vec<T>>) {
        poke(&self.0);
        let mut w = self.0.borrow_mut();
        w.ev(Ev::Finish(s.get_iteration(), best_of(&s.get_best_solution())));
    }
}

// ------------------------------------------------------------------------------------------------------- genetic

struct Cr<C>(Wr, C);
impl<T: Re, C: Creator<Vec<T>>> Creator<Vec<T>> for Cr<C> {
    fn create(&mut self) -> Vec<Vec<T>> {
        poke(&self.0);
        let r = self.1.create();
        let mut w = self.0.borrow_mut();
        w.creations += 1;
        w.ev(Ev::Created);
        note!("created {:?}", r);
        r
    }
}

/// Watches the population that reaches the pairing.
struct Pa<T>(Wr, Box<dyn Pairing<Vec<T>>>);
impl<T: Re> Pairing<Vec<T>> for Pa<T> {
    fn get_pairs(&mut self, p: &Population<Vec<T>>) -> Vec<Vec<usize>> {
        poke(&self.0);
        {
            let w = self.0.borrow();
            if let (Some(n), true) = (w.limit, p.get_iteration() > 0) {
                ensure!(p.len() <= n, "limit", "{} individuals survived generation {}, the limit is {}", p.len(), p.get_iteration(), n);
            }
            if w.space.is_some() {
                for i in p.iter() {
                    w.inside(i.get_chromosomes(), "the individual");
                }
            }
        }
        let r = self.1.get_pairs(p);
        note!("families {:?} of {:?}", r, p.iter().map(|i| (i.get_chromosomes(), i.get_fitness())).collect::<Vec<_>>());
        r
    }
}

/// Looks at the individuals the filters admit.
struct Probe(Wr);
impl<T: Re> Selection<Vec<T>> for Probe {
    fn kill(&mut self, p: &mut Population<Vec<T>>) {
        let mut best: Option<f64> = None;
        for i in p.iter().filter(|i| i.is_alive()) {
            if best.map_or(true, |b| ga_less(i.get_fitness(), b)) {
                best = Some(i.get_fitness())
            }
        }
        self.0.borrow_mut().admitted = best;
    }
}

/// A crossing that yields chosen genes.
struct Script(Wr);
impl<T: Re> Cross<T> for Script {
    fn cross(&mut self, _: &[&T]) -> Vec<T> {
        let g = self.0.borrow().genes.clone();
        vec![T::of(g[choose(g.len())])]
    }
}
struct ScriptMutation(Wr);
impl<T: Re> Mutation<T> for ScriptMutation {
    fn mutation(&mut self, _: &T) -> T {
        let g = self.0.borrow().genes.clone();
        T::of(g[choose(g.len())])
    }
}

/// Any other component; only a moment at which something else may happen.
struct At<C: ?Sized>(Wr, Box<C>);
impl<T> Cross<T> for At<dyn Cross<T>> {
    fn cross(&mut self, p: &[&T]) -> Vec<T> {
        poke(&self.0);
        self.1.cross(p)
    }
}
impl<T> Mutation<T> for At<dyn Mutation<T>> {
    fn mutation(&mut self, c: &T) -> T {
        poke(&self.0);
        self.1.mutation(c)
    }
}
impl<T> PreBirth<T> for At<dyn PreBirth<T>> {
    fn pre_birth(&mut self, p: &Population<T>, c: &mut Vec<T>) {
        poke(&self.0);
        self.1.pre_birth(p, c)
    }
}
impl<T> Selection<T> for At<dyn Selection<T>> {
    fn kill(&mut self, p: &mut Population<T>) {
        poke(&self.0);
        self.1.kill(p)
    }
}
impl<T> VelocityInitializer<T> for At<dyn VelocityInitializer<T>> {
    fn get_velocity(&mut self) -> Vec<Vec<T>> {
        poke(&self.0);
        self.1.get_velocity()
    }
}
impl<T> PostVelocityCalc<T> for At<dyn PostVelocityCalc<T>> {
    fn correct_velocity(&mut self, v: Vec<T>) -> Vec<T> {
        poke(&self.0);
        self.1.correct_velocity(v)
    }
}
impl<T> PostMove<T> for At<dyn PostMove<T>> {
    fn post_move(&mut self, c: &mut Vec<T>) {
        poke(&self.0);
        self.1.post_move(c)
    }
}
impl<T> Inertia<T> for At<dyn Inertia<T>> {
    fn get(&mut self, iteration: usize) -> T {
        poke(&self.0);
        self.1.get(iteration)
    }
}

#[derive(Clone, Copy, Debug)]
struct Ga {
    init: usize,
    dims: usize,
    /// 0: random, 1: tournament of 2 families, 2: tournament of 3 families with 3 rounds, 3: one family only
    pairing: usize,
    /// 0: exponent/mantissa, 1: bitwise, 2: mean, 3: geometric mean, 4: scripted
    cross: usize,
    /// probability, flips; flips 0: scripted
    mutation: (f64, usize),
    pre: bool,
    fitness: bool,
    interval: bool,
    limit: usize,
}

fn intervals<T: Re>(dims: usize) -> Vec<(T, T)> {
    (0..dims).map(|d| [(-1.0, 1.0), (0.1, 0.9), (-3.0, -0.5), (1e-3, 1e3)][d % 4]).map(|(a, b)| (T::of(a), T::of(b))).collect()
}
fn space<T: Re>(dims: usize) -> Vec<(f64, f64)> {
    intervals::<T>(dims).iter().map(|i| (i.0.to_f64().unwrap(), i.1.to_f64().unwrap())).collect()
}

fn genetic<'a, T: Re>(w: &Wr, g: &Ga, stop: Box<dyn StopChecker<Vec<T>>>) -> GeneticOptimizer<'a, Vec<T>> {
    let tw = w.borrow().twist;
    let iv = w.borrow().intervals::<T>(g.dims);
    let pairing: Box<dyn Pairing<Vec<T>>> = match g.pairing {
        0 => Box::new(RandomPairing::new()),
        1 => Box::new(Tournament::new(2)),
        2 => Box::new(Tournament::new(3).rounds_count(3)),
        _ => Box::new(Tournament::new(1).rounds_count(0)),
    };
    let cross: Box<dyn Cross<T>> = match g.cross {
        0 => Box::new(FloatCrossExp::new()),
        1 => T::bitwise(),
        2 => Box::new(CrossMean::new()),
        3 => Box::new(FloatCrossGeometricMean::new()),
        _ => Box::new(Script(w.clone())),
    };
    let single: Box<dyn Mutation<T>> = if g.mutation.1 == 0 { Box::new(ScriptMutation(w.clone())) } else { T::flip(g.mutation.1) };
    let cross: Box<dyn Cross<T>> = Box::new(At(w.clone(), cross));
    let single: Box<dyn Mutation<T>> = Box::new(At(w.clone(), single));
    let mut sel: Vec<Box<dyn Selection<Vec<T>>>> = vec![];
    if g.fitness {
        sel.push(Box::new(KillFitnessNaN::new()));
    }
    if g.interval {
        sel.push(Box::new(selection::vec_float::CheckChromoInterval::new(iv.clone())));
    }
    if w.borrow().limit.is_some() {
        sel.push(Box::new(Probe(w.clone())));
    }
    if g.limit > 0 {
        sel.push(Box::new(LimitPopulation::new(g.limit)));
    }
    let sel = sel.into_iter().map(|s| Box::new(At(w.clone(), s)) as Box<dyn Selection<Vec<T>>>).collect();
    let pre: Vec<Box<dyn PreBirth<Vec<T>>>> = if g.pre {
        let check: Box<dyn PreBirth<Vec<T>>> = Box::new(pre_birth::vec_float::CheckChromoInterval::new(iv.clone()));
        vec![Box::new(At(w.clone(), check))]
    } else {
        vec![]
    };
    let cross: Box<dyn Cross<Vec<T>>> = Box::new(VecCrossAllGenes::new(cross));
    let mutation: Box<dyn Mutation<Vec<T>>> = Box::new(VecMutation::new((g.mutation.0 * tw).min(100.0), single));
    let mut o = GeneticOptimizer::new(
        goal_of::<T>(w),
        stop,
        Box::new(Cr(w.clone(), RandomCreator::new(g.init, iv))),
        Box::new(Pa(w.clone(), pairing)),
        Box::new(At(w.clone(), cross)),
        Box::new(At(w.clone(), mutation)),
        sel,
        pre,
    );
    o.set_loggers(vec![Box::new(Lo(w.clone()))]);
    o
}

// --------------------------------------------------------------------------------------------------------- swarm

struct Ci<C>(Wr, C);
impl<T: Re, C: CoordinatesInitializer<T>> CoordinatesInitializer<T> for Ci<C> {
    fn get_coordinates(&mut self) -> Vec<Vec<T>> {
        poke(&self.0);
        let r = self.1.get_coordinates();
        let mut w = self.0.borrow_mut();
        w.creations += 1;
        w.ev(Ev::Created);
        note!("created {:?}", r);
        r
    }
}
/// Watches the swarm that reaches the velocity calculator.
struct Ca<T>(Wr, Box<dyn VelocityCalculator<T>>);
impl<T: Re> VelocityCalculator<T> for Ca<T> {
    fn calc_new_velocity(&mut self, s: &Swarm<T>, p: &Particle<T>) -> Vec<T> {
        poke(&self.0);
        if self.0.borrow().space.is_some() {
            for a in s.get_agents() {
                self.0.borrow().inside(a.get_parameter(), "the particle");
            }
        }
        let r = self.1.calc_new_velocity(s, p);
        note!("velocity {:?} at {:?}", r, p.get_parameter());
        r
    }
}
struct ScriptVelocity(Wr);
impl<T: Re> VelocityCalculator<T> for ScriptVelocity {
    fn calc_new_velocity(&mut self, _: &Swarm<T>, p: &Particle<T>) -> Vec<T> {
        let g = self.0.borrow().genes.clone();
        p.get_parameter().iter().map(|_| T::of(g[choose(g.len())])).collect()
    }
}

#[derive(Clone, Copy, Debug)]
struct Pso {
    particles: usize,
    dims: usize,
    /// 0: zero velocity, 1: random velocity
    velocity: usize,
    /// 0: Classic, 1: Canonical, 2: Inertia with linear schedule, 3: NegativeReinforcement, 4: scripted
    calc: usize,
    /// factor on all coefficients
    factor: f64,
    /// 0: none, 1: per dimension, 2: modulus
    limiter: usize,
    /// probability of teleporting, if any
    teleport: Option<f32>,
    boundary: bool,
}

fn swarm<'a, T: Re>(w: &Wr, g: &Pso, stop: Box<dyn StopChecker<Vec<T>>>) -> ParticleSwarmOptimizer<'a, T> {
    let tw = w.borrow().twist;
    let iv = w.borrow().intervals::<T>(g.dims);
    let f = |x: f64| T::of(x * g.factor * tw);
    let units: Vec<T> = (0..g.dims).map(|d| w.borrow().unit(d)).collect();
    let calc: Box<dyn VelocityCalculator<T>> = match g.calc {
        0 => Box::new(ClassicVelocityCalculator::new(f(1.5), f(2.25))),
        1 => Box::new(CanonicalVelocityCalculator::new(T::of(2.5 * tw), T::of(1.75 * tw), T::of(0.875 / tw))),
        2 => {
            let inertia: Box<dyn Inertia<T>> = Box::new(LinearInertia::new(T::of(0.25), f(1.0), if w.borrow().same_counts { 3 } else { 5 }));
            Box::new(InertiaVelocityCalculator::new(f(1.5), f(2.25), Box::new(At(w.clone(), inertia))))
        }
        3 => Box::new(NegativeReinforcement::new(f(1.5), f(0.5), f(2.25), f(0.75), f(1.25), f(2.0), T::of(0.75))),
        _ => Box::new(ScriptVelocity(w.clone())),
    };
    let velocity: Box<dyn VelocityInitializer<T>> = if g.velocity == 0 {
        Box::new(ZeroVelocityInitializer::new(g.dims, g.particles))
    } else {
        Box::new(RandomVelocityInitializer::new(units.iter().map(|u| (T::of(-0.5) * *u, T::of(0.5) * *u)).collect(), g.particles))
    };
    let mut o = ParticleSwarmOptimizer::new(
        goal_of::<T>(w),
        stop,
        Box::new(Ci(w.clone(), RandomCoordinatesInitializer::new(iv.clone(), g.particles))),
        Box::new(At(w.clone(), velocity)),
        Box::new(Ca(w.clone(), calc)),
    );
    if g.limiter > 0 {
        let limiter: Box<dyn PostVelocityCalc<T>> = match g.limiter {
            1 => Box::new(MaxVelocityDimensions::new(units.iter().map(|u| T::of(0.5 * tw) * *u).collect())),
            _ => Box::new(MaxVelocityAbs::new(T::of(0.75 * tw) * units.first().copied().unwrap_or(T::one()))),
        };
        o.set_post_velocity_calc(vec![Box::new(At(w.clone(), limiter))]);
    }
    let mut moves: Vec<Box<dyn PostMove<T>>> = vec![];
    if let Some(p) = g.teleport {
        let wide: Vec<(T, T)> = iv.iter().zip(&units).map(|(i, u)| (i.0 - *u, i.1 + *u)).collect();
        moves.push(Box::new(RandomTeleport::new(if g.boundary { wide } else { iv.clone() }, p)));
    }
    if g.boundary {
        moves.push(Box::new(MoveToBoundary::new(iv)));
    }
    o.set_post_moves(moves.into_iter().map(|m| Box::new(At(w.clone(), m)) as Box<dyn PostMove<T>>).collect());
    o.set_loggers(vec![Box::new(Lo(w.clone()))]);
    o
}

// ------------------------------------------------------------------------------------------ both kinds, uniformly

#[derive(Clone, Copy, Debug)]
enum Kind {
    Ga(Ga),
    Pso(Pso),
}

trait Opt<T>: Optimizer<Vec<T>> + IterativeOptimizer<Vec<T>> {
    fn stop_with(&mut self, s: Box<dyn StopChecker<Vec<T>>>);
    fn watch(&mut self, l: Vec<Box<dyn Logger<Vec<T>>>>);
}
impl<'a, T: Re> Opt<T> for GeneticOptimizer<'a, Vec<T>> {
    fn stop_with(&mut self, s: Box<dyn StopChecker<Vec<T>>>) {
        self.set_stop_checker(s)
    }
    fn watch(&mut self, l: Vec<Box<dyn Logger<Vec<T>>>>) {
        self.set_loggers(l)
    }
}
impl<'a, T: Re> Opt<T> for ParticleSwarmOptimizer<'a, T> {
    fn stop_with(&mut self, s: Box<dyn StopChecker<Vec<T>>>) {
        self.set_stop_checker(s)
    }
    fn watch(&mut self, l: Vec<Box<dyn Logger<Vec<T>>>>) {
        self.set_loggers(l)
    }
}
fn build<'a, T: Re>(w: &Wr, k: &Kind, stop: Box<dyn StopChecker<Vec<T>>>) -> Box<dyn Opt<T> + 'a> {
    match k {
        Kind::Ga(g) => Box::new(genetic::<T>(w, g, stop)),
        Kind::Pso(p) => Box::new(swarm::<T>(w, p, stop)),
    }
}

/// The library's own stop criteria; 0 is the explorer's one.
fn criterion<T: Re>(w: &Wr, which: usize) -> Box<dyn StopChecker<Vec<T>>> {
    let max = |n| Box::new(MaxIterations::new(n)) as Box<dyn StopChecker<Vec<T>>>;
    let same = |n, d| Box::new(GoalNotChange::new(n, d)) as Box<dyn StopChecker<Vec<T>>>;
    let below = |v| Box::new(Threshold::new(v)) as Box<dyn StopChecker<Vec<T>>>;
    match which {
        0 => Box::new(Until(w.clone())),
        1 => max(3),
        2 => Box::new(CompositeAny::new(vec![same(1, 0.0), max(5)])),
        3 => Box::new(CompositeAny::new(vec![max(5), same(0, 0.5)])),
        4 => Box::new(CompositeAll::new(vec![same(1, 0.25), max(2)])) /* may go on for long */,
        5 => Box::new(CompositeAny::new(vec![below(0.5), max(4)])),
        7 => Box::new(CompositeAny::new(vec![Box::new(Until(w.clone())) as Box<dyn StopChecker<Vec<T>>>, max(5)])),
        8 => Box::new(CompositeAll::new(vec![max(1), Box::new(CompositeAny::new(vec![max(7), Box::new(Until(w.clone()))]))])),
        _ => Box::new(CompositeAny::new(vec![
            Box::new(CompositeAll::new(vec![same(1, 0.0), below(0.75)])) as Box<dyn StopChecker<Vec<T>>>,
            max(6),
        ])),
    }
}

fn ga_kinds() -> Vec<(String, Ga)> {
    let mut v = vec![];
    for pairing in 0..3 {
        for cross in 0..4 {
            let n = v.len();
            let g = Ga {
                init: 3 + n % 2,
                dims: 1 + n % 2,
                pairing,
                cross,
                mutation: ([0.0, 30.0, 100.0][n % 3], 1 + n % 2),
                pre: n % 2 == 0,
                fitness: n % 4 < 2,
                interval: n % 3 == 1,
                limit: if n % 5 == 4 { 0 } else { 3 + n % 3 },
            };
            v.push((format!("genetic, pairing {}, cross {}", pairing, cross), g));
        }
    }
    v
}

fn pso_kinds() -> Vec<(String, Pso)> {
    let mut v = vec![];
    for calc in 0..4 {
        for limiter in 0..3 {
            let n = v.len();
            let g = Pso {
                particles: 2 + n % 2,
                dims: 1 + n % 2,
                velocity: (n / 2) % 2,
                calc,
                factor: 1.0,
                limiter,
                teleport: [None, Some(0.25), Some(0.0)][(n / 3 + n) % 3],
                boundary: n % 4 != 3,
            };
            v.push((format!("swarm, calculator {}, limiter {}", calc, limiter), g));
        }
    }
    v
}

fn kinds() -> Vec<(String, Kind)> {
    let mut v: Vec<(String, Kind)> = ga_kinds().into_iter().map(|(n, g)| (n, Kind::Ga(g))).collect();
    v.extend(pso_kinds().into_iter().map(|(n, g)| (n, Kind::Pso(g))));
    v
}

const DRAWS: [f64; 7] = [0.5, 0.0, 1.0, 0.25, 0.9, 0.61, 0.13];

/// A rich menu of draws with few deviations.
fn rich(x: Task, base: u64, bound: usize) -> Task {
    x.floats(&DRAWS).base(base).bound(bound)
}
/// A poor menu of draws with more deviations.
fn sparse(x: Task, base: u64, bound: usize) -> Task {
    x.floats(&[0.5, 0.0, 1.0]).ints(5, 3).base(base).bound(bound)
}

/// Registers the scenario for both float types.
macro_rules! both {
    ($v:expr, $name:expr, $mk:expr, $body:ident($($arg:expr),*)) => {{
        let mk: &dyn Fn(Task) -> Task = &$mk;
        let name: String = $name;
        $v.push(mk(Task::new(format!("{}, f64", name), move || $body::<f64>($($arg),*))));
        $v.push(mk(Task::new(format!("{}, f32", name), move || $body::<f32>($($arg),*))));
    }};
}

// ----------------------------------------------------------------------------------------------------------- C04

pub const C04: Prop = Prop {
    id: "C04",
    tasks: c04,
    bounds: "every random draw within 1 deviation (2 to 3 from a sparser menu of draws) and every goal value from {f(x), NaN, +inf, -inf, 0.5} around pseudo-random default executions, 12 combinations of pairing and crossing, limits 1, 2, 4, every filter combination, 5 generations in two segments; 25 generations of larger populations; every assignment of values and chromosomes to 2 (3) generations of populations limited to 1 to 3",
    assumptions: &["components draw from rand::thread_rng"],
};

fn elitist<T: Re>(g: &Ga, goal: usize, menu: &[f64], lens: &[usize], genes: &[f64]) {
    let w = world(goal, menu);
    w.borrow_mut().limit = Some(g.limit);
    w.borrow_mut().genes = genes.to_vec();
    let mut o = genetic::<T>(&w, g, criterion(&w, 0));
    w.borrow_mut().target = lens[0];
    o.find_min();
    for l in &lens[1..] {
        w.borrow_mut().target += l;
        o.next_iterations();
    }
    let w = w.borrow();
    ensure!(w.last.0 == lens.iter().sum::<usize>(), "iterations", "the run ends at {:?}", w.last);
}

fn c04(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    let menu = [NAN, INF, -INF, 0.5];
    for (n, (name, g)) in ga_kinds().into_iter().enumerate() {
        for limit in [1usize, 2, 4] {
            let mut g = g.clone();
            g.limit = limit;
            g.fitness = (n + limit) % 2 == 0;
            g.interval = (n + limit) % 3 == 0;
            g.pre = (n + limit) % 4 == 0;
            let s = seed + (n * 3 + limit) as u64;
            let goal = n % 4;
            {
                let g = g.clone();
                both!(
                    v,
                    format!("{}, limit {}", name, limit),
                    |x: Task| rich(x, s + 1, 1),
                    elitist(&g, goal, &menu, &[2, 3], &[])
                );
                both!(
                    v,
                    format!("{}, limit {}, sparse", name, limit),
                    |x: Task| sparse(x, s + 1, t.pick(2, 3)),
                    elitist(&g, goal, &menu, &[1, 2], &[])
                );
            }
            g.init = 12 + n;
            both!(
                v,
                format!("{}, limit {}, longer", name, limit),
                |x: Task| x.floats(&DRAWS).base(s + 500).bound(t.pick(0, 1)),
                elitist(&g, goal, &menu, &[10, 15], &[])
            );
        }
    }
    // every combination of values, the operators scripted
    for limit in 1..=3usize {
        for (fitness, interval) in [(false, false), (true, false), (false, true), (true, true)] {
            let g = Ga { init: 2, dims: 1, pairing: 3, cross: 4, mutation: (0.0, 1), pre: false, fitness, interval, limit };
            let genes: &'static [f64] = if interval { &[0.3, 2.0, 0.9] } else { &[0.3] };
            both!(
                v,
                format!("values, limit {}, filters {} {}", limit, fitness, interval),
                |mut x: Task| {
                    x.policy.fixed = seed + 7;
                    x
                },
                elitist(&g, 3, &[NAN, 2.0, INF, 0.5, -INF], &[t.pick(2, 3)], genes)
            );
        }
    }
    v
}

// ----------------------------------------------------------------------------------------------------------- C19

pub const C19: Prop = Prop {
    id: "C19",
    tasks: c19,
    bounds: "24 component combinations (12 genetic, 12 swarm), 6 histories of runs, pauses and resumptions before a run of 2 to 3 iterations: every draw within 1 deviation (2 to 3 from a sparser menu) around pseudo-random default executions; 6 reused stop criteria; histories of 50 iterations before a run of 25; 4 goal functions including plateaus and non-finite regions; f32 and f64",
    assumptions: &["components draw from rand::thread_rng", "the goal function depends on the point only"],
};

fn diff(a: &[Ev], b: &[Ev], what: [&str; 2]) {
    for i in 0..a.len().max(b.len()) {
        let (x, y) = (a.get(i), b.get(i));
        if x != y {
            let show = |e: Option<&Ev>| match e {
                None => "nothing".to_string(),
                Some(e) => format!("{:?}", Shown(e)),
            };
            fail!("differs", "event {} of {} is {}, of {} {}", i, what[0], show(x), what[1], show(y));
        }
    }
}

struct Shown<'a>(&'a Ev);
impl<'a> Debug for Shown<'a> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        let b = |b: &Best| b.as_ref().map(|b| (b.0.iter().map(|x| f64::from_bits(*x)).collect::<Vec<_>>(), f64::from_bits(b.1)));
        match self.0 {
            Ev::Eval(x, v) => write!(f, "evaluation of {:?} = {}", x.iter().map(|x| f64::from_bits(*x)).collect::<Vec<_>>(), f64::from_bits(*v)),
            Ev::Start(i, s) => write!(f, "start {} {:?}", i, b(s)),
            Ev::Resume(i, s) => write!(f, "resume {} {:?}", i, b(s)),
            Ev::Next(i, s) => write!(f, "iteration {} {:?}", i, b(s)),
            Ev::Finish(i, s) => write!(f, "finish {} {:?}", i, b(s)),
            Ev::Check(i, s) => write!(f, "stop check {} {:?}", i, b(s)),
            Ev::Created => write!(f, "creation"),
        }
    }
}

fn fresh_like<T: Re>(k: &Kind, goal: usize, stop: usize, history: &[usize], len: usize) {
    let w = world(goal, &[]);
    let mut used = build::<T>(&w, k, criterion(&w, stop));
    for &op in history {
        // 0..9: a run of that length; 10..: a resumption
        if op < 10 {
            w.borrow_mut().target = op;
            note!("earlier run to {}", op);
            used.find_min();
        } else {
            let to = w.borrow().last.0 + op - 10;
            w.borrow_mut().target = to;
            note!("earlier resumption to {}", w.borrow().target);
            used.next_iterations();
        }
    }
    w.borrow_mut().record = true;
    w.borrow_mut().target = len;
    note!("the new run");
    let (r, values) = recorded(|| used.find_min());
    let a = std::mem::take(&mut w.borrow_mut().trace);
    note!("the fresh one");
    let mut fresh = build::<T>(&w, k, criterion(&w, stop));
    let q = following(values, || fresh.find_min());
    let b = std::mem::take(&mut w.borrow_mut().trace);
    diff(&a, &b, ["the run on the used optimizer", "the run on a fresh one"]);
    ensure!(best_of(&r) == best_of(&q), "result", "the used optimizer returns {:?}, the fresh one {:?}", r, q);
}

fn c19(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    let histories: &[&[usize]] = &[&[2], &[0], &[1, 11], &[3, 12, 1], &[2, 10, 13], &[4, 1, 2]];
    for (n, (name, k)) in kinds().into_iter().enumerate() {
        for (h, history) in histories.iter().enumerate() {
            for goal in 0..t.pick(1, 4) {
                let goal = (goal + n + h) % 4;
                let s = seed + (n * 10 + h) as u64;
                let k = k.clone();
                both!(
                    v,
                    format!("{}, after {:?}, goal {}", name, history, goal),
                    |x: Task| rich(x, s + 1, 1),
                    fresh_like(&k, goal, 0, history, 3)
                );
                if history.len() < 3 {
                    both!(
                        v,
                        format!("{}, after {:?}, goal {}, sparse", name, history, goal),
                        |x: Task| sparse(x, s + 1, t.pick(2, 3)),
                        fresh_like(&k, goal, 0, history, 2)
                    );
                }
            }
        }
        for stop in 1..=6 {
            let history: &[usize] = if stop == 4 { &[1] } else { [&[1][..], &[1, 12], &[1, 1, 1]][n % 3] };
            let k = k.clone();
            let s = seed + (n * 10 + stop) as u64;
            // the all-composite needs an end of progress: constant goal values
            let goal = if stop == 4 { 3 } else { (n + stop) % 3 };
            both!(
                v,
                format!("{}, criterion {}, after {:?}", name, stop, history),
                |x: Task| x.floats(&DRAWS).base(s + 300).bound(t.pick((n % 6 == stop - 1) as usize, 1)),
                fresh_like(&k, goal, stop, history, 3)
            );
        }
        for s in 0..t.pick(2, 6) {
            let k = k.clone();
            let name = name.clone();
            both!(
                v,
                format!("{}, long history {}", name, s),
                |x: Task| x.floats(&DRAWS).base(seed + 900 + s + n as u64 * 7).bound(0),
                fresh_like(&k, (s as usize + n) % 4, 0, &[9, 18, 7, 14, 3], 25)
            );
        }
    }
    v
}

// ----------------------------------------------------------------------------------------------------------- C20

pub const C20: Prop = Prop {
    id: "C20",
    tasks: c20,
    bounds: "24 component combinations (12 genetic, 12 swarm): every pair of pauses in runs of 3 to 4 iterations together with every draw within 1 deviation (2 to 3 from a sparser menu) around pseudo-random default executions; every triple of pauses in runs of 8 (12) iterations; runs of 40 iterations; 4 goal functions; f32 and f64",
    assumptions: &["components draw from rand::thread_rng", "the goal function depends on the point only"],
};

fn course(t: Vec<Ev>) -> Vec<Ev> {
    t.into_iter().filter(|e| !matches!(e, Ev::Resume(..) | Ev::Finish(..) | Ev::Check(..))).collect()
}

fn paused<T: Re>(k: &Kind, goal: usize, len: usize, library: bool, splits: usize) {
    // up to `splits` pauses at chosen iterations
    let n = choose(splits) + 1;
    let mut at = vec![];
    for _ in 0..n {
        let from = at.last().copied().unwrap_or(0);
        at.push(from + choose(len - from + 1));
    }
    at.push(len);
    let w = world(goal, &[]);
    let stop = |w: &Wr, n: usize| -> Box<dyn StopChecker<Vec<T>>> {
        w.borrow_mut().target = n;
        if library {
            Box::new(MaxIterations::new(n))
        } else {
            criterion(w, 0)
        }
    };
    w.borrow_mut().record = true;
    let mut one = build::<T>(&w, k, stop(&w, len));
    let (r, values) = recorded(|| one.find_min());
    let a = course(std::mem::take(&mut w.borrow_mut().trace));
    note!("now with pauses at {:?}", at);
    let mut two = build::<T>(&w, k, stop(&w, at[0]));
    let q = following(values, || {
        let mut q = two.find_min();
        for n in &at[1..] {
            two.stop_with(stop(&w, *n));
            q = two.next_iterations();
        }
        q
    });
    let b = course(std::mem::take(&mut w.borrow_mut().trace));
    diff(&a, &b, ["the straight run", "the paused one"]);
    ensure!(best_of(&r) == best_of(&q), "result", "the straight run returns {:?}, the paused one {:?}", r, q);
    ensure!(a.iter().filter(|e| **e == Ev::Created).count() == 1, "created", "the initial points are created more than once");
}

fn c20(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    for (n, (name, k)) in kinds().into_iter().enumerate() {
        for goal in 0..4 {
            let k = k.clone();
            let s = seed + (n * 10 + goal) as u64;
            both!(
                v,
                format!("{}, goal {}", name, goal),
                |x: Task| rich(x, s + 1, 1),
                paused(&k, goal, t.pick(4, 8), (n + goal) % 2 == 0, 2)
            );
            both!(
                v,
                format!("{}, goal {}, sparse", name, goal),
                |x: Task| sparse(x, s + 1, t.pick(2, 3)),
                paused(&k, goal, 3, (n + goal) % 2 == 0, 2)
            );
        }
        // every split of one course
        let k2 = k.clone();
        both!(
            v,
            format!("{}, every split", name),
            |mut x: Task| {
                x.policy.fixed = seed + 17 + n as u64;
                x
            },
            paused(&k2, n % 4, t.pick(8, 12), n % 2 == 1, 3)
        );
        for s in 0..t.pick(1, 4) {
            let k = k.clone();
            both!(
                v,
                format!("{}, long {}", name, s),
                |x: Task| x.floats(&DRAWS).base(seed + 700 + s + n as u64 * 7).bound(t.pick(0, 1)),
                paused(&k, (s as usize + n) % 3, 40, s % 2 == 1, 3)
            );
        }
    }
    v
}

// ----------------------------------------------------------------------------------------------------------- C30

pub const C30: Prop = Prop {
    id: "C30",
    tasks: c30,
    bounds: "24 component combinations (12 genetic, 12 swarm), each with a second optimizer of the same and of two other combinations: the second one is built, run, resumed and run again at a first moment and up to 6 (20) moments later each (any call of any component, down to the crossing and mutation of a gene and the inertia schedule, between the operations, and before the run) of a run of 2 (3) iterations with a pause; every draw and moment within 1 (2) deviations; f32 and f64",
    assumptions: &["components draw from rand::thread_rng", "the goal function depends on the point only"],
};

/// What the second optimizer does, step by step; every step has its own draws.
struct Other {
    w: Wr,
    k: Kind,
    half: bool,
    o: Option<Box<dyn Opt<f64>>>,
    o32: Option<Box<dyn Opt<f32>>>,
    step: u64,
}
impl Other {
    fn new(k: Kind, half: bool) -> Other {
        let w = world(0, &[]);
        w.borrow_mut().record = true;
        w.borrow_mut().twist = 1.5;
        w.borrow_mut().same_counts = !half;
        Other { w, k, half, o: None, o32: None, step: 0 }
    }
    fn act(&mut self) {
        self.step += 1;
        let p = Policy { fixed: 71 + self.step, ..Policy::default() };
        let (w, k) = (self.w.clone(), self.k);
        fixed(&p, || {
            w.borrow_mut().target = self.step as usize;
            if self.half {
                let o = self.o32.get_or_insert_with(|| build::<f32>(&w, &k, criterion(&w, 0)));
                if self.step == 2 {
                    o.next_iterations();
                } else {
                    o.find_min();
                }
            } else {
                let o = self.o.get_or_insert_with(|| build::<f64>(&w, &k, criterion(&w, 0)));
                if self.step == 2 {
                    o.next_iterations();
                } else {
                    o.find_min();
                }
            }
        });
    }
}

fn isolated<T: Re>(k: &Kind, other: &Kind, half: bool, goal: usize, len: usize, gaps: usize) {
    let w = world(goal, &[]);
    w.borrow_mut().record = true;
    let moments = Rc::new(RefCell::new(0usize));
    let tick = |w: &Wr, f: Box<dyn Fn(usize)>| {
        *moments.borrow_mut() = 0;
        let m = moments.clone();
        w.borrow_mut().hook = Some(Box::new(move || {
            let n = *m.borrow();
            *m.borrow_mut() += 1;
            f(n);
        }));
        poke(w);
    };
    let run = |w: &Wr| {
        let mut o = build::<T>(w, k, criterion(w, 0));
        w.borrow_mut().target = 1;
        o.find_min();
        poke(w);
        w.borrow_mut().target = len;
        let r = o.next_iterations();
        (r, o)
    };
    tick(&w, Box::new(|_| {}));
    let ((r, _keep), values) = recorded(|| run(&w));
    let n = *moments.borrow();
    let a = std::mem::take(&mut w.borrow_mut().trace);
    // the moments of the other optimizer's actions
    let mut at = vec![choose(n)];
    for _ in 0..2 {
        let from = *at.last().unwrap();
        at.push((from + choose(gaps)).min(n - 1));
    }
    note!("now with another optimizer acting at the moments {:?} of {}", at, n);
    let b = Rc::new(RefCell::new(Other::new(*other, half)));
    let (at2, b2) = (at.clone(), b.clone());
    tick(
        &w,
        Box::new(move |n| {
            for _ in at2.iter().filter(|x| **x == n) {
                b2.borrow_mut().act();
            }
        }),
    );
    let (q, _keep2) = following(values, || run(&w));
    let c = std::mem::take(&mut w.borrow_mut().trace);
    diff(&a, &c, ["the run alone", "the run beside another optimizer"]);
    ensure!(best_of(&r) == best_of(&q), "result", "alone the optimizer returns {:?}, beside another one {:?}", r, q);
    let mut alone = Other::new(*other, half);
    for _ in 0..b.borrow().step {
        alone.act();
    }
    let (x, y) = (alone.w.borrow_mut().trace.split_off(0), b.borrow().w.borrow_mut().trace.split_off(0));
    diff(&x, &y, ["the other optimizer alone", "the other optimizer inside of the run"]);
    w.borrow_mut().hook = None;
}

fn c30(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    let all = kinds();
    for (n, (name, k)) in all.iter().enumerate() {
        for (m, o) in [n, (n * 7 + 5) % 24, (n + 12) % 24].iter().enumerate() {
            let (other_name, other) = all[*o].clone();
            let (k, goal, half) = (*k, (n + m) % 4, (n + m) % 3 == 0);
            both!(
                v,
                format!("{} beside {}, every moment", name, other_name),
                |mut x: Task| {
                    x.policy.fixed = seed + 5 + n as u64;
                    x
                },
                isolated(&k, &other, half, goal, t.pick(2, 3), t.pick(6, 20))
            );
            both!(
                v,
                format!("{} beside {}, draws", name, other_name),
                |x: Task| rich(x, seed + 40 + (n * 3 + m) as u64, t.pick(1, 2)),
                isolated(&k, &other, half, goal, 2, 3)
            );
        }
    }
    v
}

// ----------------------------------------------------------------------------------------------------------- C27

pub const C27: Prop = Prop {
    id: "C27",
    tasks: c27,
    bounds: "every combination of 3 pairings, 4 crossings, fitness and interval filter, pre-birth check and limit, and of 4 velocity calculators, 3 limiters, teleport, boundary correction and velocity initialization (two coefficient scales): placements of NaN, +inf, -inf over all evaluations with up to 3 (5) deviations, and with every draw within 1 to 2 deviations; complete enumeration for populations and swarms of 2 over 2 (3) generations; library loggers and composite stop criteria attached in half of them; f32 and f64",
    assumptions: &["components draw from rand::thread_rng"],
};

/// One run and a resumption with every logger of the library attached.
fn completes<T: Re>(k: &Kind, goal: usize, menu: &[f64], lens: [usize; 2], extra: bool) {
    let w = world(goal, menu);
    let (mut s1, mut s2, mut s3) = (std::io::sink(), std::io::sink(), std::io::sink());
    let mut stats = Statistics::new();
    let mut calls = CallCountData::new();
    {
        let mut inner = Go(w.clone());
        let mut counted = GoalCalcStatistics::new(&mut inner, &mut calls);
        // the counted goal function is exercised on the side
        if extra {
            let _ = Goal::<Vec<T>>::get(&mut counted, &vec![T::zero()]);
        }
    }
    let mut loggers: Vec<Box<dyn Logger<Vec<T>> + '_>> = vec![Box::new(Lo(w.clone()))];
    if extra {
        loggers.push(Box::new(VerboseLogger::new(&mut s1, 3)));
        loggers.push(Box::new(ResultOnlyLogger::new(&mut s2, 3)));
        loggers.push(Box::new(TimeLogger::new(&mut s3)));
        loggers.push(Box::new(StatisticsLogger::new(&mut stats)));
    }
    w.borrow_mut().finite = false;
    let filter;
    let mut run = |w: &Wr, o: &mut dyn Opt<T>, filter: bool, swarm: bool| {
        let mut total = 0;
        for (i, l) in lens.iter().enumerate() {
            total += l;
            let any: Box<dyn StopChecker<Vec<T>>> = if extra {
                Box::new(CompositeAny::new(vec![
                    Box::new(MaxIterations::new(total)) as Box<dyn StopChecker<Vec<T>>>,
                    Box::new(Threshold::new(-1e300)),
                    Box::new(GoalNotChange::new(1000, 0.0)),
                ]))
            } else {
                Box::new(MaxIterations::new(total))
            };
            o.stop_with(any);
            let r = if i == 0 { o.find_min() } else { o.next_iterations() };
            let below = extra && r.as_ref().map_or(false, |r| r.1 <= -1e300);
            let w = w.borrow();
            if total > 0 && !below {
                ensure!(w.last.0 == total, "iterations", "the run ends at iteration {} instead of {}", w.last.0, total);
            }
            if filter && total > 0 {
                ensure!(r.as_ref().map_or(true, |r| r.1.is_finite()), "finite", "the genetic run with the fitness filter reports {:?}", r);
            }
            if swarm {
                ensure!(!w.finite || r.as_ref().map_or(false, |r| r.1.is_finite()), "finite", "a finite value was evaluated, but the swarm run reports {:?}", r);
            }
        }
    };
    match k {
        Kind::Ga(g) => {
            filter = g.fitness;
            let mut o = genetic::<T>(&w, g, criterion(&w, 0));
            o.set_loggers(loggers);
            run(&w, &mut o, filter, false);
        }
        Kind::Pso(p) => {
            let mut o = swarm::<T>(&w, p, criterion(&w, 0));
            o.set_loggers(loggers);
            run(&w, &mut o, false, true);
        }
    }
}

fn c27(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    let menu = [NAN, INF, -INF];
    for pairing in 0..3 {
        for cross in 0..4 {
            for flags in 0..16 {
                let (fitness, interval, pre, limit) = (flags & 1 > 0, flags & 2 > 0, flags & 4 > 0, if flags & 8 > 0 { 1 + (pairing + cross + flags) % 3 } else { 0 });
                let n = pairing * 4 + cross + flags;
                let g = Ga { init: [2, 3, 4, 1][n % 4], dims: 1 + n % 2, pairing, cross, mutation: ([0.0, 50.0, 100.0][n % 3], 1 + n % 3), pre, fitness, interval, limit };
                let name = format!("genetic, pairing {}, cross {}, fitness filter {}, interval filter {}, pre-birth check {}, limit {}", pairing, cross, fitness, interval, pre, limit);
                let k = Kind::Ga(g);
                let s = seed + n as u64;
                if t == Tier::Thorough || flags == 1 || flags == 8 || flags == 15 || flags == 0 || flags == 9 || (flags + cross) % 5 == 0 {
                    let k = k.clone();
                    both!(
                        v,
                        format!("{}, placements", name),
                        |x: Task| if n % 2 == 0 { rich(x, s + 1, 1) } else { sparse(x, s + 1, t.pick(2, 3)) },
                        completes(&k, n % 4, &menu, [1, 2], flags & 3 == 1)
                    );
                }
                // every combination of values on one course of draws
                both!(
                    v,
                    format!("{}, all values", name),
                    |mut x: Task| {
                        x.policy.fixed = s + 40;
                        x.bound = Some(t.pick(3, 5));
                        x
                    },
                    completes(&k, n % 4, &menu, [2, 1], flags & 3 == 2)
                );
            }
        }
    }
    for calc in 0..4 {
        for limiter in 0..3 {
            for flags in 0..8 {
                let n = calc * 3 + limiter + flags;
                let p = Pso {
                    particles: 1 + n % 3,
                    dims: 1 + n % 2,
                    velocity: flags & 1,
                    calc,
                    factor: [1.0, 1e30][n % 2],
                    limiter,
                    teleport: if flags & 2 > 0 { Some(0.5) } else { None },
                    boundary: flags & 4 > 0,
                };
                let name = format!("swarm, calculator {}, limiter {}, flags {}", calc, limiter, flags);
                let k = Kind::Pso(p);
                let s = seed + n as u64;
                if t == Tier::Thorough || flags % 3 == calc % 3 {
                    let k = k.clone();
                    both!(
                        v,
                        format!("{}, placements", name),
                        |x: Task| if n % 2 == 0 { rich(x, s + 1, 1) } else { sparse(x, s + 1, t.pick(2, 3)) },
                        completes(&k, n % 4, &menu, [1, 2], flags & 1 == 1)
                    );
                }
                both!(
                    v,
                    format!("{}, all values", name),
                    |mut x: Task| {
                        x.policy.fixed = s + 40;
                        x.bound = Some(t.pick(3, 5));
                        x
                    },
                    completes(&k, n % 4, &menu, [2, 1], flags & 1 == 0)
                );
            }
        }
    }
    for init in [1] {
        for pairing in 0..4 {
            let g = Ga { init, dims: 1, pairing, cross: 1, mutation: (50.0, 1), pre: false, fitness: init == 0, interval: false, limit: 2 };
            let k = Kind::Ga(g);
            both!(
                v,
                format!("genetic, initial population of {}, pairing {}", init, pairing),
                |mut x: Task| {
                    x.policy.fixed = seed + 140;
                    x
                },
                completes(&k, pairing, &menu, [t.pick(2, 3), 1], true)
            );
        }
    }
    // small runs completely
    for (n, (name, k)) in kinds().into_iter().enumerate() {
        let mut k = k.clone();
        match &mut k {
            Kind::Ga(g) => {
                g.init = 2;
                g.fitness = n % 2 == 0;
                g.limit = 2;
                g.pairing = [0, 3][n % 2];
            }
            Kind::Pso(p) => p.particles = 2,
        }
        both!(
            v,
            format!("{}, completely", name),
            |mut x: Task| {
                x.policy.fixed = seed + 90 + n as u64;
                x
            },
            completes(&k, n % 2, &menu, [t.pick(2, 3), 0], true)
        );
    }
    v
}

// ----------------------------------------------------------------------------------------------------------- C28

pub const C28: Prop = Prop {
    id: "C28",
    tasks: c28,
    bounds: "24 component combinations in 3 variants of mutation strength and velocity scale (1, 1e4, 1e37), 1 to 4 dimensions: every draw and non-finite goal value within 1 deviation (2 to 3 from a sparser menu) around pseudo-random default executions; runs of 30 iterations; every assignment of genes and velocities from an 11-value menu including NaN, infinities and bounds to short runs; f32 and f64",
    assumptions: &["components draw from rand::thread_rng"],
};

fn confined<T: Re>(k: &Kind, goal: usize, menu: &[f64], lens: &[usize], genes: &[f64]) {
    let w = world(goal, menu);
    let dims = match k {
        Kind::Ga(g) => g.dims,
        Kind::Pso(p) => p.dims,
    };
    w.borrow_mut().space = Some(space::<T>(dims));
    w.borrow_mut().genes = genes.to_vec();
    let mut o = build::<T>(&w, k, criterion(&w, 0));
    w.borrow_mut().target = lens[0];
    let mut r = o.find_min();
    for l in &lens[1..] {
        w.borrow_mut().target += l;
        r = o.next_iterations();
    }
    if let Some(r) = r {
        w.borrow().inside(&r.0, "the solution");
    }
}

fn c28(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    for (n, (name, k)) in kinds().into_iter().enumerate() {
        for (m, factor) in [1.0, 1e4, 1e37].iter().enumerate() {
            let mut k = k.clone();
            match &mut k {
                Kind::Ga(g) => {
                    g.pre = true;
                    g.mutation = [(30.0, 1), (100.0, 2), (60.0, 5)][m];
                    g.interval = m == 1;
                    g.dims = 1 + (n + m) % 4;
                }
                Kind::Pso(p) => {
                    p.boundary = true;
                    p.factor = *factor;
                    p.dims = 1 + (n + m) % 4;
                }
            }
            let s = seed + (n * 3 + m) as u64;
            {
                let k = k.clone();
                both!(
                    v,
                    format!("{}, variant {}", name, m),
                    |x: Task| rich(x, s + 1, 1),
                    confined(&k, n % 4, &[NAN, INF], &[3, 2], &[])
                );
                both!(
                    v,
                    format!("{}, variant {}, sparse", name, m),
                    |x: Task| sparse(x, s + 1, t.pick(2, 3)),
                    confined(&k, n % 4, &[NAN], &[1, 1], &[])
                );
            }
            both!(
                v,
                format!("{}, variant {}, longer", name, m),
                |x: Task| x.floats(&DRAWS).base(s + 500).bound(t.pick(0, 1)),
                confined(&k, n % 4, &[NAN, INF], &[10, 20], &[])
            );
        }
    }
    // scripted genes and velocities
    let menu = [0.3, 2.0, NAN, INF, -INF, 1.0, -1.0, 0.1, 0.9, -5.0, 1e30];
    for dims in 1..=2 {
        for (cross, mutation) in [(4, (0.0, 1)), (2, (100.0, 0))] {
            for pairing in [1, 3] {
                if pairing == 1 && dims == 2 && t == Tier::Quick {
                    continue;
                }
                let g = Ga { init: 2, dims, pairing, cross, mutation, pre: true, fitness: dims == 1, interval: false, limit: if pairing == 3 { 3 } else { 0 } };
                let k = Kind::Ga(g);
                both!(
                    v,
                    format!("scripted genes, {} dimensions, cross {}, pairing {}", dims, cross, pairing),
                    |mut x: Task| {
                        x.policy.fixed = seed + 7;
                        x
                    },
                    confined(&k, 0, &[], &[t.pick(1 + (dims == 1 && pairing == 3) as usize, 2)], &menu)
                );
            }
        }
        for teleport in [None, Some(0.5f32)] {
            let p = Pso { particles: 2, dims, velocity: 1, calc: 4, factor: 1.0, limiter: 0, teleport, boundary: true };
            let k = Kind::Pso(p);
            both!(
                v,
                format!("scripted velocities, {} dimensions, teleport {:?}", dims, teleport),
                |mut x: Task| {
                    x.policy.fixed = seed + 7;
                    x
                },
                confined(&k, 0, &[], &[1 + (dims == 1) as usize], &menu)
            );
        }
        for limiter in 1..=2 {
            let p = Pso { particles: 1, dims, velocity: 1, calc: 4, factor: 1.0, limiter, teleport: None, boundary: true };
            let k = Kind::Pso(p);
            both!(
                v,
                format!("scripted velocities, {} dimensions, limiter {}", dims, limiter),
                |mut x: Task| {
                    x.policy.fixed = seed + 7;
                    x
                },
                confined(&k, 0, &[], &[2], &menu)
            );
        }
    }
    v
}

pub mod watch;
pub mod units;
pub mod whole;
