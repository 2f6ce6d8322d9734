//! Components keep no memory between calls: C35.

use super::ga_parts::{with_population, Iters};
use super::Prop;
use crate::engine::*;
use crate::util::*;
use optlib::genetic::creation::vec_float::RandomCreator;
use optlib::genetic::cross::*;
use optlib::genetic::mutation::*;
use optlib::genetic::pairing::*;
use optlib::genetic::selection::{kill_worst, KillFitnessNaN, LimitPopulation};
use optlib::genetic::*;
use optlib::particleswarm::initializing::*;
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::velocitycalc::*;
use optlib::particleswarm::*;
use optlib::tools::logging::*;
use optlib::tools::statistics::*;
use optlib::tools::stopchecker::*;
use optlib::tools::RandomVectorCreator;
use optlib::{AlgorithmState, Goal, GoalFromFunction, Optimizer};
use rand::mc::{Divergence, Horizon, Mismatch};
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

pub const C35: Prop = Prop {
    id: "C35",
    tasks: c35,
    bounds: "148 configurations of every crossing, mutation, creator, initializer, pairing, selection, pre-birth check, move and velocity correction, velocity calculator, stop criterion without memory, text logger, predicate and goal wrapper; every history of up to 2 (3) calls on the component or on one configured differently, with every input of a menu of up to 28 including NaN, other sizes and refused ones, then every input; histories of 300 and 1500 (70000) calls of each input and of all inputs in turn, every other answer compared, and of such with draws at one end of the range; 2 (12) series of draws against the first call in the life of a process, after 1, 2 and 300 (5000) rounds of calls of the family and of all components starting with each; draws within 1 to 3 deviations",
    assumptions: &["components draw from rand::thread_rng"],
};

const NAN: f64 = f64::NAN;
const INF: f64 = f64::INFINITY;

/// What a call shows; a refusal is an observation too.
type Seen = Vec<u64>;
type Call = Box<dyn FnMut(usize) -> Seen>;

#[derive(Clone)]
struct Kind {
    name: String,
    inputs: usize,
    /// many draws in a call
    heavy: bool,
    make: Arc<dyn Fn() -> Call + Send + Sync>,
}

fn kind(name: impl Into<String>, inputs: usize, make: impl Fn() -> Call + Send + Sync + 'static) -> Kind {
    Kind { name: name.into(), inputs, heavy: false, make: Arc::new(make) }
}

fn call(c: &mut Call, i: usize) -> Seen {
    let depth = rand::mc::depth();
    match catch_unwind(AssertUnwindSafe(|| c(i))) {
        Ok(v) => v,
        Err(p) => {
            if p.is::<Violation>() || p.is::<Divergence>() || p.is::<Horizon>() || p.is::<Mismatch>() {
                resume_unwind(p)
            }
            rand::mc::truncate(depth);
            vec![u64::MAX, 0xdead]
        }
    }
}

/// Numbers as observations.
trait Num: Clone + 'static {
    fn key(&self) -> u64;
}
impl Num for f64 {
    fn key(&self) -> u64 {
        bits(*self)
    }
}
impl Num for f32 {
    fn key(&self) -> u64 {
        bits(*self as f64)
    }
}
impl Num for i32 {
    fn key(&self) -> u64 {
        *self as u64
    }
}
impl Num for u8 {
    fn key(&self) -> u64 {
        *self as u64
    }
}

fn keys<T: Num>(v: &[T]) -> Seen {
    let mut o = vec![v.len() as u64];
    o.extend(v.iter().map(|x| x.key()));
    o
}
fn keys2<T: Num>(v: &[Vec<T>]) -> Seen {
    let mut o = vec![v.len() as u64];
    v.iter().for_each(|x| o.extend(keys(x)));
    o
}

trait Fl: Num + num::Float + std::fmt::Display + std::fmt::Debug + rand::distributions::uniform::SampleUniform + Send + Sync {
    const N: &'static str;
}
impl Fl for f64 {
    const N: &'static str = "f64";
}
impl Fl for f32 {
    const N: &'static str = "f32";
}
fn of<T: Fl>(x: f64) -> T {
    T::from(x).unwrap()
}
fn ofs<T: Fl>(x: &[f64]) -> Vec<T> {
    x.iter().map(|x| of(*x)).collect()
}

fn cross<G: Num>(name: String, parents: Vec<Vec<G>>, mk: impl Fn() -> Box<dyn Cross<G>> + Send + Sync + 'static) -> Kind
where
    G: Send + Sync,
{
    kind(name, parents.len(), move || {
        let mut c = mk();
        let parents = parents.clone();
        Box::new(move |i| keys(&c.cross(&parents[i].iter().collect::<Vec<&G>>())))
    })
}

fn vec_cross<G: Num + Send + Sync>(name: String, parents: Vec<Vec<Vec<G>>>, mk: impl Fn() -> Box<dyn Cross<G>> + Send + Sync + 'static) -> Kind {
    kind(name, parents.len(), move || {
        let mut c = VecCrossAllGenes::new(mk());
        let parents = parents.clone();
        Box::new(move |i| keys2(&c.cross(&parents[i].iter().collect::<Vec<&Vec<G>>>())))
    })
}

fn mutation<G: Num + Send + Sync>(name: String, genes: Vec<G>, mk: impl Fn() -> Box<dyn Mutation<G>> + Send + Sync + 'static) -> Kind {
    kind(name, genes.len(), move || {
        let mut m = mk();
        let genes = genes.clone();
        Box::new(move |i| vec![m.mutation(&genes[i]).key()])
    })
}

fn vec_mutation<G: Num + Send + Sync>(name: String, chromos: Vec<Vec<G>>, mk: impl Fn() -> Box<dyn Mutation<Vec<G>>> + Send + Sync + 'static) -> Kind {
    kind(name, chromos.len(), move || {
        let mut m = mk();
        let chromos = chromos.clone();
        Box::new(move |i| keys(&m.mutation(&chromos[i])))
    })
}

fn intervals<T: Fl>(i: usize) -> Vec<(T, T)> {
    let l: &[(f64, f64)] = match i {
        0 => &[(-1.0, 1.0), (5.0, 9.0)],
        1 => &[(0.0, 0.5)],
        2 => &[(10.0, 20.0), (-4.0, -3.0), (0.0, 1.0)],
        3 => &[],
        4 => &[(2.0, 1.0)],
        _ => &[(5.0, 9.0), (-1.0, 1.0)],
    };
    l.iter().map(|x| (of(x.0), of(x.1))).collect()
}

const POPULATIONS: usize = 9;
fn population(i: usize) -> Vec<(u32, f64)> {
    let v: Vec<f64> = match i {
        0 => vec![3.0, 1.0, 2.0],
        1 => vec![1.0, 2.0],
        2 => vec![NAN, 5.0, NAN, 4.0],
        3 => vec![7.0],
        4 => vec![2.0, 2.0, 2.0, 2.0, 2.0],
        5 => vec![INF, -INF, 0.0, -0.0, 1e300, -5.0],
        6 => vec![0.5, 0.25, 3.0],
        7 => (0..30).map(|i| (i * 7 % 30) as f64).collect(),
        _ => vec![],
    };
    v.into_iter().enumerate().map(|(i, x)| (i as u32, x)).collect()
}

fn pairing(name: String, mk: impl Fn() -> Box<dyn Pairing<(u32, f64)>> + Send + Sync + 'static) -> Kind {
    kind(name, POPULATIONS, move || {
        let mut p = mk();
        Box::new(move |i| {
            let mut o = vec![];
            with_population(population(i), &|x| x.1, |pop| {
                for f in p.get_pairs(pop) {
                    o.push(f.len() as u64);
                    o.extend(f.iter().map(|i| *i as u64));
                }
            });
            o
        })
    })
}

fn selection(name: String, mk: impl Fn() -> Box<dyn Selection<(u32, f64)>> + Send + Sync + 'static) -> Kind {
    kind(name, POPULATIONS + 2, move || {
        let mut s = mk();
        Box::new(move |i| {
            let mut o = vec![];
            with_population(population(if i < POPULATIONS { i } else { [7, 2][i - POPULATIONS] }), &|x| x.1, |pop| {
                if i >= POPULATIONS {
                    // some are dead already
                    (0..pop.len()).filter(|k| k % 3 != 1).for_each(|k| pop[k].kill());
                }
                s.kill(pop);
                o.extend(pop.iter().map(|x| x.is_alive() as u64));
            });
            o
        })
    })
}

struct Worst(usize);
impl Selection<(u32, f64)> for Worst {
    fn kill(&mut self, p: &mut Population<(u32, f64)>) {
        kill_worst(p, self.0)
    }
}
fn worst(name: &str, count: usize) -> Kind {
    selection(format!("killing {}", name), move || Box::new(Worst(count)))
}

fn broods<T: Fl>() -> Vec<Vec<Vec<T>>> {
    vec![
        vec![ofs(&[0.5, 6.0]), ofs(&[3.0, 6.0]), ofs(&[-1.0, 9.0])],
        vec![ofs(&[6.0, 0.5]), ofs(&[0.0, 5.0])],
        vec![],
        vec![ofs(&[NAN, 7.0]), ofs(&[0.0, 7.0]), ofs(&[0.0, INF]), ofs(&[0.25, 8.0])],
        vec![ofs(&[0.5, 6.0, 1.0])],
        vec![ofs(&[0.5]), ofs(&[0.5, 6.0])],
        (0..20).map(|i| ofs(&[i as f64 / 10.0 - 1.0, 4.5 + (i * 7 % 20) as f64 / 4.0])).collect(),
    ]
}

fn pre_birth<T: Fl>(name: String, mk: impl Fn() -> Box<dyn PreBirth<Vec<T>>> + Send + Sync + 'static) -> Kind {
    kind(name, broods::<T>().len(), move || {
        let mut b = mk();
        Box::new(move |i| {
            let mut brood = broods::<T>()[i].clone();
            with_population(vec![ofs::<T>(&[0.0, 7.0])], &|_| 1.0, |pop| b.pre_birth(pop, &mut brood));
            keys2(&brood)
        })
    })
}

fn interval_selection<T: Fl>(name: String, mk: impl Fn() -> Box<dyn Selection<Vec<T>>> + Send + Sync + 'static) -> Kind {
    kind(name, broods::<T>().len(), move || {
        let mut s = mk();
        Box::new(move |i| {
            let mut o = vec![];
            with_population(broods::<T>()[i].clone(), &|x| x.len() as f64, |pop| {
                s.kill(pop);
                o.extend(pop.iter().map(|x| x.is_alive() as u64));
            });
            o
        })
    })
}

fn points<T: Fl>() -> Vec<Vec<T>> {
    [&[0.5, 6.0][..], &[-7.0, 90.0], &[NAN, INF], &[-1.0, 5.0], &[-INF, 8.9], &[0.5], &[0.0, 7.0, 1.0], &[1e-30, 5.0], &[1e30, -1e30], &[0.0, 0.0], &[3.0, -4.0]]
        .iter()
        .map(|x| ofs(x))
        .collect()
}

fn post_move<T: Fl>(name: String, mk: impl Fn() -> Box<dyn PostMove<T>> + Send + Sync + 'static) -> Kind {
    kind(name, points::<T>().len(), move || {
        let mut m = mk();
        let p = points::<T>();
        Box::new(move |i| {
            let mut x = p[i].clone();
            m.post_move(&mut x);
            keys(&x)
        })
    })
}

fn limiter<T: Fl>(name: String, mk: impl Fn() -> Box<dyn PostVelocityCalc<T>> + Send + Sync + 'static) -> Kind {
    kind(name, points::<T>().len(), move || {
        let mut m = mk();
        let p = points::<T>();
        Box::new(move |i| keys(&m.correct_velocity(p[i].clone())))
    })
}

struct Start<T>(Vec<Vec<T>>, Vec<Vec<T>>);
impl<T: Clone> CoordinatesInitializer<T> for Start<T> {
    fn get_coordinates(&mut self) -> Vec<Vec<T>> {
        self.0.clone()
    }
}
impl<T: Clone> VelocityInitializer<T> for Start<T> {
    fn get_velocity(&mut self) -> Vec<Vec<T>> {
        self.1.clone()
    }
}
struct Sum(usize);
impl<T: num::Float> Goal<Vec<T>> for Sum {
    fn get(&mut self, x: &Vec<T>) -> f64 {
        let s: f64 = x.iter().map(|x| x.to_f64().unwrap()).sum();
        match self.0 {
            0 => s.abs(),
            1 => -s,
            _ => if s > 2.0 { NAN } else { s * s },
        }
    }
}
/// Asks the calculator under test in the last iteration only and keeps the velocity otherwise.
struct Ask<'a, T> {
    calc: &'a mut dyn VelocityCalculator<T>,
    last: usize,
    out: Rc<RefCell<Seen>>,
    start: Vec<Vec<T>>,
}
impl<'a, T: Fl> VelocityCalculator<T> for Ask<'a, T> {
    fn calc_new_velocity(&mut self, swarm: &Swarm<T>, particle: &Particle<T>) -> Vec<T> {
        if swarm.get_iteration() + 1 == self.last {
            let v = self.calc.calc_new_velocity(swarm, particle);
            self.out.borrow_mut().extend(keys(&v));
            v
        } else {
            self.start[0].iter().map(|x| *x * of(-0.5)).collect()
        }
    }
}

const SWARMS: usize = 9;
fn calculator<T: Fl>(name: String, mk: impl Fn() -> Box<dyn VelocityCalculator<T>> + Send + Sync + 'static) -> Kind {
    let mut k = kind(name, SWARMS, move || {
        let mut c = mk();
        Box::new(move |i| {
            let (x, v, goal, iterations): (Vec<&[f64]>, Vec<&[f64]>, usize, usize) = match i {
                0 => (vec![&[1.0, -2.0], &[3.0, 0.5]], vec![&[0.5, 0.25], &[-1.0, 0.0]], 0, 1),
                1 => (vec![&[1.0, -2.0], &[3.0, 0.5]], vec![&[0.5, 0.25], &[-1.0, 0.0]], 1, 4),
                2 => (vec![&[4.0]], vec![&[1.0]], 2, 2),
                3 => (vec![&[0.0, 0.0, 0.0], &[9.0, -9.0, 1.0], &[-1.0, 1.0, 1.0]], vec![&[1.0, 1.0, 1.0], &[0.0, 0.0, 0.0], &[2.0, -2.0, 0.5]], 2, 3),
                4 => (vec![&[-1e3, 1e3], &[2.0, 2.0]], vec![&[0.0, 0.0], &[1e2, -1e2]], 0, 12),
                5 => (vec![&[], &[]], vec![&[], &[]], 1, 1),
                8 => (vec![&[2.0, 1.0], &[1.0, 1.0]], vec![&[NAN, 1.0], &[INF, -INF]], 1, 1),
                6 => (vec![&[NAN, 1.0], &[INF, 1.0]], vec![&[0.0, 1.0], &[1.0, 1.0]], 0, 1),
                _ => (vec![&[1.0, -2.0]; 5], vec![&[0.5, 0.25]; 5], 0, 2),
            };
            let out = Rc::new(RefCell::new(vec![]));
            let v: Vec<Vec<T>> = v.iter().map(|x| ofs(x)).collect();
            let x: Vec<Vec<T>> = x.iter().map(|x| ofs(x)).collect();
            ParticleSwarmOptimizer::new(
                Box::new(Sum(goal)),
                Box::new(Iters(iterations)),
                Box::new(Start(x, v.clone())),
                Box::new(Start(vec![], v.clone())),
                Box::new(Ask { calc: &mut *c, last: iterations, out: out.clone(), start: v }),
            )
            .find_min();
            let o = out.borrow().clone();
            ensure!(!o.is_empty(), "memory", "the velocity calculator is not asked");
            o
        })
    });
    k.heavy = true;
    k
}

struct View<T> {
    it: usize,
    best: Option<(T, f64)>,
}
impl<T: Clone> AlgorithmState<T> for View<T> {
    fn get_best_solution(&self) -> Option<(T, f64)> {
        self.best.clone()
    }
    fn get_iteration(&self) -> usize {
        self.it
    }
}

const STATES: usize = 14;
fn view<T: Fl>(i: usize) -> View<Vec<T>> {
    let (it, best): (usize, Option<(&[f64], f64)>) = match i {
        0 => (1, Some((&[1.5, -2.0], 0.5))),
        1 => (2, Some((&[1.5, -2.0], 0.5))),
        2 => (0, None),
        3 => (5, Some((&[0.25], -3.0))),
        4 => (100, Some((&[0.25], 1e-9))),
        5 => (4, Some((&[NAN, 1.0, 2.0], NAN))),
        6 => (usize::MAX, Some((&[1.0, 1.0], INF))),
        7 => (6, Some((&[1e10], -INF))),
        8 => (7, None),
        9 => (3, Some((&[], 1.0))),
        10 => (8, Some((&[2.0, 2.0], 1.0 + 1e-12))),
        11 => (9, Some((&[3.0, 4.0], 0.0))),
        12 => (70000, Some((&[3.0, 4.0], -0.0))),
        _ => (50, Some((&[7.0, 7.0, 7.0, 7.0], 2.0))),
    };
    View { it, best: best.map(|b| (ofs(b.0), b.1)) }
}

fn criterion(name: String, mk: impl Fn() -> Box<dyn StopChecker<Vec<f64>>> + Send + Sync + 'static) -> Kind {
    kind(name, STATES, move || {
        let mut c = mk();
        Box::new(move |i| vec![c.can_stop(&view::<f64>(i)) as u64])
    })
}

/// A writer that outlives its logger.
struct Shared(Rc<RefCell<Vec<u8>>>);
impl std::io::Write for Shared {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.0.borrow_mut().extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// A logger together with the writer it borrows.
struct Owned {
    logger: Option<Box<dyn Logger<Vec<f64>>>>,
    writer: *mut Shared,
}
impl Drop for Owned {
    fn drop(&mut self) {
        self.logger = None;
        // SAFETY: the pointer comes from Box::into_raw and its only user is gone
        unsafe { drop(Box::from_raw(self.writer)) }
    }
}

fn logger(name: String, mk: impl Fn(&'static mut Shared) -> Box<dyn Logger<Vec<f64>>> + Send + Sync + 'static) -> Kind {
    kind(name, 4 * 7, move || {
        let data = Rc::new(RefCell::new(vec![]));
        let writer = Box::into_raw(Box::new(Shared(data.clone())));
        // SAFETY: dropped by `Owned` after the logger
        let mut l = Owned { logger: Some(mk(unsafe { &mut *writer })), writer };
        Box::new(move |i| {
            let before = data.borrow().len();
            let s = view::<f64>([0, 1, 2, 5, 6, 9, 13][i / 4]);
            let g = l.logger.as_mut().unwrap();
            match i % 4 {
                0 => g.next_iteration(&s),
                1 => g.finish(&s),
                2 => g.start(&s),
                _ => g.resume(&s),
            }
            let mut d = data.borrow_mut();
            let o = d[before..].iter().map(|x| *x as u64).collect();
            d.clear();
            o
        })
    })
}

fn families() -> Vec<Vec<Kind>> {
    let mut v = floats::<f64>();
    v.extend(floats::<f32>());
    let bytes = |l: &[&[u8]]| -> Vec<Vec<u8>> { l.iter().map(|x| x.to_vec()).collect() };
    v.push(vec![
        cross("mean crossing i32".into(), vec![vec![1, 2], vec![-7, 3], vec![], vec![5], vec![1, 1, 2], vec![100, 200]], || Box::new(CrossMean::new())),
        vec_cross("mean crossing of vectors i32".into(), vec![vec![vec![1, 2], vec![3, 4]], vec![vec![5], vec![8]], vec![], vec![vec![9, 9, 9], vec![0, 1, 2]]], || Box::new(CrossMean::new())),
    ]);
    v.push(vec![cross("mean crossing u8".into(), bytes(&[&[1, 2], &[7, 3], &[], &[5], &[200, 100], &[1, 1, 2]]), || Box::new(CrossMean::new()))]);
    v.push(vec![
        pairing("random pairing".into(), || Box::new(RandomPairing::new())),
        pairing("another random pairing".into(), || Box::new(RandomPairing::new())),
    ]);
    v.push(vec![
        pairing("tournament".into(), || Box::new(Tournament::new(3).partners_count(2).rounds_count(2))),
        pairing("tournament of one round".into(), || Box::new(Tournament::new(1))),
        pairing("tournament without rounds".into(), || Box::new(Tournament::new(2).partners_count(3).rounds_count(0))),
    ]);
    v.push(vec![
        selection("population limit 2".into(), || Box::new(LimitPopulation::new(2))),
        selection("population limit 5".into(), || Box::new(LimitPopulation::new(5))),
        selection("population limit 0".into(), || Box::new(LimitPopulation::new(0))),
    ]);
    v.push(vec![
        worst("the worst two", 2),
        worst("the worst", 1),
        worst("many", 100),
        worst("none", 0),
    ]);
    v.push(vec![selection("finite goal values".into(), || Box::new(KillFitnessNaN::new()))]);
    v.push(vec![
        criterion("threshold".into(), || Box::new(Threshold::new(1.0))),
        criterion("lower threshold".into(), || Box::new(Threshold::new(-1.0))),
    ]);
    v.push(vec![
        criterion("iteration limit".into(), || Box::new(MaxIterations::new(5))),
        criterion("other iteration limit".into(), || Box::new(MaxIterations::new(50))),
        criterion("no iterations".into(), || Box::new(MaxIterations::new(0))),
    ]);
    v.push(vec![
        criterion("any of".into(), || Box::new(CompositeAny::new(vec![Box::new(Threshold::new(0.1)), Box::new(MaxIterations::new(6))]))),
        criterion("all of".into(), || Box::new(CompositeAll::new(vec![Box::new(Threshold::new(0.6)), Box::new(MaxIterations::new(2))]))),
        criterion("nested".into(), || {
            Box::new(CompositeAll::new(vec![
                Box::new(CompositeAny::new(vec![Box::new(Threshold::new(0.1)), Box::new(MaxIterations::new(6))])),
                Box::new(MaxIterations::new(3)),
            ]))
        }),
    ]);
    v.push(vec![
        logger("verbose logger".into(), |w| Box::new(VerboseLogger::new(w, 3))),
        logger("precise verbose logger".into(), |w| Box::new(VerboseLogger::new(w, 12))),
    ]);
    v.push(vec![
        logger("result logger".into(), |w| Box::new(ResultOnlyLogger::new(w, 3))),
        logger("precise result logger".into(), |w| Box::new(ResultOnlyLogger::new(w, 12))),
    ]);
    v.push(vec![
        kind("goal predicate", STATES, || {
            let p = get_predicate_success_goal::<Vec<f64>>(0.5, 0.75);
            Box::new(move |i| vec![view::<f64>(i).best.map_or(9, |b| p(&b) as u64)])
        }),
        kind("other goal predicate", STATES, || {
            let p = get_predicate_success_goal::<Vec<f64>>(-3.0, 1e-3);
            Box::new(move |i| vec![view::<f64>(i).best.map_or(9, |b| p(&b) as u64)])
        }),
    ]);
    v.push(vec![
        kind("solution predicate", STATES, || {
            let p = get_predicate_success_vec_solution::<f64>(vec![1.0, 0.0], vec![1.0, 2.0]);
            Box::new(move |i| vec![view::<f64>(i).best.map_or(9, |b| p(&b) as u64)])
        }),
        kind("other solution predicate", STATES, || {
            let p = get_predicate_success_vec_solution::<f64>(vec![3.0, 4.0], vec![0.0, 0.5]);
            Box::new(move |i| vec![view::<f64>(i).best.map_or(9, |b| p(&b) as u64)])
        }),
    ]);
    v.push(vec![
        kind("goal from a function", points::<f64>().len(), || {
            let mut g = GoalFromFunction::new(|x: &Vec<f64>| x.iter().sum::<f64>());
            Box::new(move |i| vec![bits(g.get(&points::<f64>()[i]))])
        }),
        kind("goal from another function", points::<f64>().len(), || {
            let mut g = GoalFromFunction::new(|x: &Vec<f64>| x.len() as f64);
            Box::new(move |i| vec![bits(g.get(&points::<f64>()[i]))])
        }),
    ]);
    v
}

fn floats<T: Fl>() -> Vec<Vec<Kind>>
where
    CrossBitwise: Cross<T>,
    BitwiseMutation: Mutation<T>,
{
    let n = T::N;
    let mut v: Vec<Vec<Kind>> = vec![];
    let parents: Vec<Vec<T>> =
        [&[1.5, -2.5][..], &[0.0, 7.0], &[NAN, 1.0], &[INF, 1.0], &[-0.0, 0.0], &[3.0, 3.0], &[], &[4.0], &[1.0, 2.0, 4.0], &[1e-3, 1e30]].iter().map(|x| ofs(x)).collect();
    let vectors: Vec<Vec<Vec<T>>> = [
        &[&[1.5, -2.5][..], &[3.0, 4.0]][..],
        &[&[0.5], &[8.0]],
        &[],
        &[&[1.0, 2.0, 3.0], &[NAN, INF, -3.0]],
        &[&[], &[]],
        &[&[1.0, 2.0], &[3.0]],
        &[&[3.0], &[1.0, 2.0]],
        &[&[1.0, 2.0]],
        &[&[1.0, 2.0], &[2.0, 8.0], &[4.0, 1.0]],
    ]
    .iter()
    .map(|x| x.iter().map(|x| ofs(x)).collect())
    .collect();
    v.push(vec![cross(format!("mean crossing {}", n), parents.clone(), || Box::new(CrossMean::new()))]);
    v.push(vec![cross(format!("geometric crossing {}", n), parents.clone(), || Box::new(FloatCrossGeometricMean::new()))]);
    v.push(vec![cross(format!("bitwise crossing {}", n), parents.clone(), || Box::new(CrossBitwise::new()))]);
    v.push(vec![cross(format!("exponent crossing {}", n), parents.clone(), || Box::new(FloatCrossExp::new()))]);
    v.push(vec![
        vec_cross(format!("mean crossing of vectors {}", n), vectors.clone(), || Box::new(CrossMean::new())),
        vec_cross(format!("geometric crossing of vectors {}", n), vectors.clone(), || Box::new(FloatCrossGeometricMean::new())),
        vec_cross(format!("bitwise crossing of vectors {}", n), vectors.clone(), || Box::new(CrossBitwise::new())),
        vec_cross(format!("exponent crossing of vectors {}", n), vectors.clone(), || Box::new(FloatCrossExp::new())),
    ]);
    let genes: Vec<T> = ofs(&[1.5, 0.0, -0.0, NAN, INF, -7e-3, 1e30]);
    v.push(vec![
        mutation(format!("bitwise mutation {}", n), genes.clone(), || Box::new(BitwiseMutation::new(1))),
        mutation(format!("bitwise mutation of 3 bits {}", n), genes.clone(), || Box::new(BitwiseMutation::new(3))),
        mutation(format!("bitwise mutation of no bit {}", n), genes, || Box::new(BitwiseMutation::new(0))),
    ]);
    let chromos: Vec<Vec<T>> = [&[1.5, -2.5][..], &[], &[0.5], &[NAN, 1.0, 2.0], &[1.0, 2.0, 3.0, 4.0]].iter().map(|x| ofs(x)).collect();
    for p in [0.5, 100.0, 30.0] {
        v.push(vec![
            vec_mutation(format!("mutation of vectors, {} {}", p, n), chromos.clone(), move || Box::new(VecMutation::new(p, Box::new(BitwiseMutation::new(1))))),
            vec_mutation(format!("other mutation of vectors, {} {}", p, n), chromos.clone(), move || Box::new(VecMutation::new(100.0 - p, Box::new(BitwiseMutation::new(2))))),
        ]);
    }
    v.push(
        [0, 1, 5]
            .iter()
            .map(|s| {
                let s = *s;
                kind(format!("creator {} {}", s, n), 1, move || {
                    let mut c = RandomCreator::new(2, intervals::<T>(s));
                    Box::new(move |_| keys2(&c.create()))
                })
            })
            .collect(),
    );
    v.push(vec![kind(format!("random vectors {}", n), 6, || {
        let mut c = RandomVectorCreator::new();
        Box::new(move |i| keys(&c.create_vec(&intervals::<T>(i))))
    })]);
    for what in 0..3 {
        v.push(
            [0, 1, 2, 5]
                .iter()
                .map(|s| {
                    let s = *s;
                    kind(format!("initializer {} {} {}", what, s, n), 1, move || match what {
                        0 => {
                            let mut c = RandomCoordinatesInitializer::new(intervals::<T>(s), 2);
                            Box::new(move |_| keys2(&c.get_coordinates()))
                        }
                        1 => {
                            let mut c = RandomVelocityInitializer::new(intervals::<T>(s), 2);
                            Box::new(move |_| keys2(&c.get_velocity()))
                        }
                        _ => {
                            let mut c = ZeroVelocityInitializer::new(s, 3);
                            Box::new(move |_| {
                                let v: Vec<Vec<T>> = c.get_velocity();
                                keys2(&v)
                            })
                        }
                    })
                })
                .collect(),
        );
    }
    v.push(
        [0, 5].iter().map(|s| { let s = *s; pre_birth::<T>(format!("pre-birth check {} {}", s, n), move || Box::new(optlib::genetic::pre_birth::vec_float::CheckChromoInterval::new(intervals(s)))) }).collect(),
    );
    v.push(
        [0, 5].iter().map(|s| { let s = *s; interval_selection::<T>(format!("interval selection {} {}", s, n), move || Box::new(optlib::genetic::selection::vec_float::CheckChromoInterval::new(intervals(s)))) }).collect(),
    );
    v.push([0, 5].iter().map(|s| { let s = *s; post_move::<T>(format!("boundary {} {}", s, n), move || Box::new(MoveToBoundary::new(intervals(s)))) }).collect());
    for p in [0.5f32, 0.0, 1.0] {
        v.push(
            [0, 5]
                .iter()
                .map(|s| {
                    let s = *s;
                    post_move::<T>(format!("teleport {} {} {}", p, s, n), move || Box::new(RandomTeleport::new(intervals(s), if s == 0 { p } else { 0.5 })))
                })
                .collect(),
        );
    }
    v.push(vec![
        limiter::<T>(format!("limits per dimension {}", n), || Box::new(MaxVelocityDimensions::new(ofs(&[0.5, 3.0])))),
        limiter::<T>(format!("other limits per dimension {}", n), || Box::new(MaxVelocityDimensions::new(ofs(&[30.0, 0.1])))),
    ]);
    v.push(vec![
        limiter::<T>(format!("limit {}", n), || Box::new(MaxVelocityAbs::new(of(2.0)))),
        limiter::<T>(format!("other limit {}", n), || Box::new(MaxVelocityAbs::new(of(20.0)))),
    ]);
    v.push(vec![
        calculator::<T>(format!("classic {}", n), || Box::new(ClassicVelocityCalculator::new(of(1.5), of(2.5)))),
        calculator::<T>(format!("other classic {}", n), || Box::new(ClassicVelocityCalculator::new(of(0.5), of(-1.0)))),
    ]);
    v.push(vec![
        calculator::<T>(format!("canonical {}", n), || Box::new(CanonicalVelocityCalculator::new(of(2.5), of(2.0), of(0.5)))),
        calculator::<T>(format!("other canonical {}", n), || Box::new(CanonicalVelocityCalculator::new(of(3.0), of(4.0), of(0.9)))),
    ]);
    v.push(vec![
        calculator::<T>(format!("negative reinforcement {}", n), || Box::new(NegativeReinforcement::new(of(1.5), of(2.5), of(0.25), of(0.75), of(2.0), of(0.9), of(0.5)))),
        calculator::<T>(format!("other negative reinforcement {}", n), || Box::new(NegativeReinforcement::new(of(0.5), of(1.5), of(0.0), of(2.0), of(1.0), of(1.0), of(0.25)))),
    ]);
    v.push(vec![
        calculator::<T>(format!("inertia {}", n), || Box::new(InertiaVelocityCalculator::new(of(1.5), of(2.5), Box::new(ConstInertia::new(of(0.7)))))),
        calculator::<T>(format!("linear inertia {}", n), || Box::new(InertiaVelocityCalculator::new(of(1.5), of(2.5), Box::new(LinearInertia::new(of(0.2), of(0.9), 6))))),
        calculator::<T>(format!("other linear inertia {}", n), || Box::new(InertiaVelocityCalculator::new(of(0.5), of(1.0), Box::new(LinearInertia::new(of(0.4), of(0.5), 3))))),
    ]);
    v
}

/// The call of `fresh` on the same input with the same draws.
fn compare(k: &Kind, i: usize, what: &dyn Fn() -> String, used: &mut Call, first: &(Seen, Vec<(u32, u32)>)) {
    let b = following(first.1.clone(), || call(used, i));
    ensure!(
        b == first.0,
        "memory",
        "{}: input {} gives {:?} {} and {:?} at first",
        k.name,
        i,
        b.iter().take(40).collect::<Vec<_>>(),
        what(),
        first.0.iter().take(40).collect::<Vec<_>>()
    );
}

fn short(f: &[Kind], me: usize, len: usize) {
    let k = &f[me];
    let other = &f[(me + 1) % f.len()];
    // which call: on itself or on a component configured differently
    let steps = k.inputs + if f.len() > 1 { other.inputs } else { 0 };
    let total: usize = (0..=len).map(|n| steps.pow(n as u32)).sum();
    let mut code = choose(total);
    let mut n = 0;
    while code >= steps.pow(n) {
        code -= steps.pow(n);
        n += 1;
    }
    let i = choose(k.inputs);
    let first = recorded(|| call(&mut (k.make)(), i));
    let mut used = (k.make)();
    let mut sibling = (other.make)();
    let mut history = vec![];
    for _ in 0..n {
        let s = code % steps;
        code /= steps;
        history.push(s);
        if s < k.inputs {
            call(&mut used, s);
        } else {
            call(&mut sibling, s - k.inputs);
        }
    }
    compare(k, i, &|| format!("after the calls {:?}", history), &mut used, &first);
    compare(k, i, &|| format!("on a new one after the calls {:?} of another", history), &mut (k.make)(), &first);
    state((&k.name, i, &first.0));
    note!("{}: after {:?}, input {} gives {:?}", k.name, history, i, first.0);
}

fn long(k: &Kind, calls: usize, bound: usize) {
    // all inputs in turn, or one input only
    let pattern = choose(k.inputs + 1);
    let mut used = (k.make)();
    let refs: Vec<Vec<Seen>> = (0..k.inputs).map(|i| (0..3).map(|s| fixed(&probe(s), || call(&mut (k.make)(), i))).collect()).collect();
    let extreme = choose(3);
    let policy = Policy { fixed: 7 + pattern as u64, ..Policy::default() };
    let end = Policy { floats: vec![[0.0, 0.999][extreme % 2]], int_full: 8, int_sparse: 2, ..Policy::default() };
    fixed(&policy, || {
        for c in 0..calls {
            let i = if pattern == 0 { (c + c / k.inputs * 3) % k.inputs } else { pattern - 1 };
            // every other call is compared, the draws go on in the rest
            if extreme > 0 {
                // the same end of the range in all draws
                fixed(&end, || call(&mut used, i));
            } else if c % 2 == 0 {
                let s = c / 2 % 3;
                let now = fixed(&probe(s as u64), || call(&mut used, i));
                ensure!(now == refs[i][s], "memory", "{}: input {} gives {:?} in call {}, pattern {}, and {:?} at first", k.name, i, now, c, pattern, refs[i][s]);
            } else {
                call(&mut used, i);
            }
            if c & 1023 == 0 {
                cases(0)
            }
        }
    });
    let probes = Policy { int_full: 8, int_sparse: 4, ..Policy::default() };
    for i in 0..k.inputs {
        nested(&probes, Some(bound), || {
            let first = recorded(|| call(&mut (k.make)(), i));
            compare(k, i, &|| format!("after {} calls, pattern {}", calls, pattern), &mut used, &first);
            state((&k.name, i, &first.0));
        });
    }
}

/// Draws of a call that is compared between processes.
fn probe(seed: u64) -> Policy {
    Policy { fixed: 1 + seed, ..Policy::default() }
}

/// Prints what component `name` answers to input `i`, nothing has been called before in this process.
pub fn first_call(name: &str, i: usize, seed: u64) {
    if name == "all" {
        for k in families().iter().flatten() {
            for i in 0..k.inputs {
                println!("{} {}: {:?}", k.name, i, fixed(&probe(seed), || call(&mut (k.make)(), i)));
            }
        }
        return;
    }
    let k = families().into_iter().flatten().find(|k| k.name == name).expect("no such component");
    let v = fixed(&probe(seed), || call(&mut (k.make)(), i));
    println!("{}", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
}

/// The same in a process of its own.
fn elsewhere(name: &str, i: usize, seed: u64) -> Seen {
    static KNOWN: Mutex<BTreeMap<(String, usize, u64), Seen>> = Mutex::new(BTreeMap::new());
    let key = (name.to_string(), i, seed);
    if let Some(s) = KNOWN.lock().unwrap().get(&key) {
        return s.clone();
    }
    let out = std::process::Command::new("/proc/self/exe").args(["first", name, &i.to_string(), &seed.to_string()]).output().expect("no process for the first call");
    assert!(out.status.success(), "the process of the first call ended with {}", out.status);
    let s: Seen = String::from_utf8(out.stdout).unwrap().split_whitespace().map(|x| x.parse().unwrap()).collect();
    KNOWN.lock().unwrap().insert(key, s.clone());
    s
}

/// Answers in a process where other components, and this one, have been called before.
fn processes(before: &[Kind], firsts: usize, asked: &[Kind], seeds: u64, long: usize) {
    // which component is called first of all, and on which input
    let first = choose(firsts) * before.len() / firsts;
    let turn = choose(4);
    let rounds = if turn == 0 { long } else { 1 + turn % 2 };
    // no thread-local memory but that of the calls here
    let answers: Vec<(usize, usize, u64, Seen)> = std::thread::scope(|s| {
        s.spawn(|| {
            fixed(&probe(99), || {
                for r in 0..rounds {
                    for n in 0..before.len() {
                        let k = &before[(first + n) % before.len()];
                        let mut used = (k.make)();
                        for i in 0..k.inputs {
                            call(&mut used, (i + r + turn) % k.inputs);
                        }
                    }
                }
            });
            let mut v = vec![];
            for (n, k) in asked.iter().enumerate() {
                for i in 0..k.inputs {
                    for seed in 0..seeds {
                        v.push((n, i, seed, fixed(&probe(seed), || call(&mut (k.make)(), i))));
                    }
                }
            }
            v
        })
        .join()
        .unwrap()
    });
    for (n, i, seed, here) in answers {
        let name = &asked[n].name;
        let there = elsewhere(name, i, seed);
        cases(1);
        ensure!(
            here == there,
            "memory",
            "{}: a new one gives {:?} on input {} where components have been called before, {:?} in a new process",
            name,
            here.iter().take(40).collect::<Vec<_>>(),
            i,
            there.iter().take(40).collect::<Vec<_>>()
        );
        state((name, i, &here));
    }
}

fn c35(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = vec![];
    let all: Vec<Kind> = families().into_iter().flatten().collect();
    assert!((0..all.len()).all(|i| (0..i).all(|j| all[i].name != all[j].name)));
    let seeds = t.pick(2, 12);
    let turns = t.pick(300, 5000);
    for f in families() {
        let g = f.clone();
        v.push(Task::new(format!("first calls elsewhere, {}", f[0].name), move || processes(&g, g.len(), &g, seeds, turns)));
        let before = all.clone();
        v.push(Task::new(format!("first calls elsewhere, calls of all components here, {}", f[0].name), move || processes(&before, 5, &f, seeds, 3)));
    }
    for f in families() {
        for me in 0..f.len() {
            let k = f[me].clone();
            let fam = f.clone();
            let len = if k.inputs > 12 { t.pick(1, 2) } else { t.pick(2, 3) };
            // the history, the input, and the draws deviate together
            let short_len = if k.heavy { len - 1 } else { len };
            v.push(Task::new(format!("short histories, {}", k.name), move || short(&fam, me, short_len)).bound(3).ints(4, 3).floats(&[0.0, 0.3, 1.0]));
            let fam = f.clone();
            v.push(Task::new(format!("short histories, other draws, {}", k.name), move || short(&fam, me, len)).base(seed + 11 + me as u64).bound(2).ints(4, 3).floats(&[0.1, 0.6, 0.97]));
            for calls in [300usize, t.pick(1500, 70_000)] {
                let k = k.clone();
                v.push(Task::new(format!("{} calls, {}", calls, k.name), move || long(&k, calls, t.pick(1, 2))));
            }
        }
    }
    v
}
