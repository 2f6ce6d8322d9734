//! Misuse and output failures are refused: C31.

use super::Prop;
use crate::engine::*;
use optlib::genetic::creation::vec_float::RandomCreator;
use optlib::genetic::cross::*;
use optlib::genetic::*;
use optlib::particleswarm::initializing::*;
use optlib::particleswarm::postmove::*;
use optlib::particleswarm::postvelocitycalc::*;
use optlib::particleswarm::velocitycalc::*;
use optlib::particleswarm::*;
use optlib::tools::logging::*;
use optlib::tools::statistics::*;
use optlib::tools::stopchecker::*;
use optlib::tools::RandomVectorCreator;
use optlib::{AlgorithmState, Goal, Optimizer};
use rand::mc::{Divergence, Horizon, Mismatch};
use std::cell::Cell;
use std::fmt::Debug;
use std::io;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const C31: Prop = Prop {
    id: "C31",
    tasks: c31,
    bounds: "every configuration of the menus below at, just inside and just outside each precondition, at every position of lists of up to 4 (6) entries; f32, f64 and integer types where they exist; a failing writer at each of the first 12 writes of each text logger",
    assumptions: &["a refusal is a panic, at construction or at the first use"],
};

const NAN: f64 = f64::NAN;
const INF: f64 = f64::INFINITY;

/// Does the code panic?
fn panics(f: impl FnOnce()) -> bool {
    let depth = rand::mc::depth();
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => false,
        Err(p) => {
            if p.is::<Violation>() || p.is::<Divergence>() || p.is::<Horizon>() || p.is::<Mismatch>() {
                resume_unwind(p)
            }
            rand::mc::truncate(depth);
            true
        }
    }
}

fn expect(valid: bool, what: &dyn Fn() -> String, f: impl FnOnce()) {
    let refused = panics(f);
    cases(1);
    state((what(), refused));
    note!("{}: {}", what(), if refused { "refused" } else { "accepted" });
    if valid {
        ensure!(!refused, "accepted", "{} is refused", what());
    } else {
        ensure!(refused, "refused", "{} is accepted", what());
    }
}

struct Never;
impl<T> StopChecker<T> for Never {
    fn can_stop(&mut self, _: &dyn AlgorithmState<T>) -> bool {
        true
    }
}

fn composites(max: usize) {
    for n in 0..=max {
        let members = || (0..n).map(|_| Box::new(Never) as Box<dyn StopChecker<f64>>).collect::<Vec<_>>();
        expect(n > 0, &|| format!("an any-composite of {} members", n), || {
            CompositeAny::new(members());
        });
        expect(n > 0, &|| format!("an all-composite of {} members", n), || {
            CompositeAll::new(members());
        });
    }
}

/// Intervals that are right except at one position.
fn lists<T: Copy + Debug>(max: usize, good: &[(T, T)], odd: &[(T, T)]) -> Vec<(Vec<(T, T)>, Option<usize>)> {
    let mut v = vec![];
    for n in 1..=max {
        let base: Vec<(T, T)> = (0..n).map(|i| good[i % good.len()]).collect();
        v.push((base.clone(), None));
        for at in 0..n {
            for (k, o) in odd.iter().enumerate() {
                let mut l = base.clone();
                l[at] = *o;
                v.push((l, Some(k)));
            }
        }
    }
    v
}

fn random_points<T>(max: usize, good: &[(T, T)], odd: &[(T, T)])
where
    T: num::NumCast + PartialOrd + Copy + Debug + 'static,
{
    for (l, odd) in lists(max, good, odd) {
        let valid = odd.is_none();
        for count in [1usize, 3] {
            expect(valid, &|| format!("a creator of {} chromosomes in {:?}", count, l), || {
                RandomCreator::new(count, l.clone()).create();
            });
            expect(valid, &|| format!("an initializer of {} points in {:?}", count, l), || {
                RandomCoordinatesInitializer::new(l.clone(), count).get_coordinates();
            });
            expect(valid, &|| format!("an initializer of {} velocities in {:?}", count, l), || {
                RandomVelocityInitializer::new(l.clone(), count).get_velocity();
            });
        }
        expect(valid, &|| format!("a random vector in {:?}", l), || {
            RandomVectorCreator::new().create_vec(&l);
        });
    }
    expect(false, &|| "a creator without chromosomes".into(), || {
        RandomCreator::new(0, vec![good[0]]).create();
    });
    expect(false, &|| "a creator without intervals".into(), || {
        RandomCreator::<T>::new(2, vec![]).create();
    });
}

fn canonical<T: num::Float + Debug>(near: f64) {
    let c = |x: f64| -> T { num::cast(x).unwrap() };
    for (p, g, ok) in [
        (2.0, 2.0, false),
        (4.0, 0.0, false),
        (0.0, 4.0, false),
        (2.0, 2.0 + near, true),
        (2.0 + near, 2.0, true),
        (2.0, 2.0 - near, false),
        (5.0, 0.0, true),
        (0.0, 5.0, true),
        (-1.0, 6.0, true),
        (8.0, -4.0, false),
        (100.0, 100.0, true),
        (1.0, 1.0, false),
        (-3.0, -3.0, false),
        (NAN, 3.0, false),
        (3.0, NAN, false),
    ] {
        for (a, fine) in [(0.5, true), (near, true), (1.0 - near, true), (0.0, false), (-0.0, false), (1.0, false), (-near, false), (1.0 + near, false), (2.0, false), (-1.0, false), (NAN, false), (INF, false), (1e-30, true)] {
            expect(ok && fine, &|| format!("canonical coefficients {} and {} with alpha {}", p, g, a), || {
                CanonicalVelocityCalculator::new(c(p), c(g), c(a));
            });
        }
    }
}

fn teleports() {
    for (p, ok) in [
        (0.0f32, true),
        (-0.0, true),
        (1.0, true),
        (0.5, true),
        (f32::MIN_POSITIVE, true),
        (1.0 - f32::EPSILON, true),
        (1.0 + f32::EPSILON, false),
        (-f32::MIN_POSITIVE, false),
        (-1.0, false),
        (2.0, false),
        (100.0, false),
        (f32::NAN, false),
        (f32::INFINITY, false),
        (f32::NEG_INFINITY, false),
    ] {
        expect(ok, &|| format!("the teleport probability {}", p), || {
            RandomTeleport::new(vec![(0.0f64, 1.0)], p);
        });
        expect(ok, &|| format!("the teleport probability {} (f32)", p), || {
            RandomTeleport::new(vec![(0.0f32, 1.0), (-1.0, 2.0)], p);
        });
    }
}

struct Fixed(Vec<Vec<f64>>);
impl Creator<Vec<f64>> for Fixed {
    fn create(&mut self) -> Vec<Vec<f64>> {
        self.0.clone()
    }
}
struct Nobody;
impl Pairing<Vec<f64>> for Nobody {
    fn get_pairs(&mut self, _: &Population<Vec<f64>>) -> Vec<Vec<usize>> {
        vec![vec![]]
    }
}
struct Brood(Vec<Vec<f64>>);
impl Cross<Vec<f64>> for Brood {
    fn cross(&mut self, _: &[&Vec<f64>]) -> Vec<Vec<f64>> {
        self.0.clone()
    }
}
struct Same;
impl Mutation<Vec<f64>> for Same {
    fn mutation(&mut self, c: &Vec<f64>) -> Vec<f64> {
        c.clone()
    }
}
struct Zero;
impl Goal<Vec<f64>> for Zero {
    fn get(&mut self, _: &Vec<f64>) -> f64 {
        0.0
    }
}

/// A generation with the given chromosomes.
fn generation(initial: Vec<Vec<f64>>, brood: Vec<Vec<f64>>, sel: Vec<Box<dyn Selection<Vec<f64>>>>, pre: Vec<Box<dyn PreBirth<Vec<f64>>>>) {
    GeneticOptimizer::new(
        Box::new(Zero),
        Box::new(MaxIterations::new(1)),
        Box::new(Fixed(initial)),
        Box::new(Nobody),
        Box::new(Brood(brood)),
        Box::new(Same),
        sel,
        pre,
    )
    .find_min();
}

fn lengths(max: usize) {
    for n in 0..=max {
        let iv: Vec<(f64, f64)> = vec![(-1.0, 1.0); n];
        for m in 0..=max + 1 {
            for gene in [0.0, 5.0, NAN] {
                let ok = n == m;
                let x = vec![gene; m];
                for before in 0..=2 {
                    // `before` regular chromosomes precede the odd one
                    let mut all = vec![vec![0.5; n]; before];
                    all.push(x.clone());
                    expect(ok, &|| format!("selection by {} intervals of {:?}", n, all), || {
                        generation(all.clone(), vec![], vec![Box::new(selection::vec_float::CheckChromoInterval::new(iv.clone()))], vec![])
                    });
                    expect(ok, &|| format!("pre-birth check by {} intervals of {:?}", n, all), || {
                        generation(vec![], all.clone(), vec![], vec![Box::new(pre_birth::vec_float::CheckChromoInterval::new(iv.clone()))])
                    });
                }
                expect(ok, &|| format!("boundary correction by {} intervals of {:?}", n, x), || {
                    MoveToBoundary::new(iv.clone()).post_move(&mut x.clone());
                });
                for p in [0.0, 1.0] {
                    expect(ok, &|| format!("teleport with {} over {} intervals of {:?}", p, n, x), || {
                        RandomTeleport::new(iv.clone(), p).post_move(&mut x.clone());
                    });
                }
                expect(ok, &|| format!("{} velocity limits for {:?}", n, x), || {
                    MaxVelocityDimensions::new(vec![1.0; n]).correct_velocity(x.clone());
                });
            }
            expect(n == m, &|| format!("a solution predicate with {} expected values and {} deltas", n, m), || {
                let _ = get_predicate_success_vec_solution(vec![0.0; n], vec![0.0; m]);
            });
        }
    }
}

fn parents<T: Copy + Debug>(name: &str, pool: &[T], mk: &dyn Fn() -> Box<dyn Cross<T>>, any: bool) {
    for n in 0..=pool.len() {
        let p: Vec<&T> = pool.iter().take(n).collect();
        expect(if any { n >= 2 } else { n == 2 }, &|| format!("{} of {:?}", name, p), || {
            mk().cross(&p);
        });
    }
}

fn crosses() {
    let pool = [1.0f64, 2.0, 0.5, 1.5, 1.0, 3.0];
    let pool32 = [1.0f32, 2.0, 0.5, 1.5, 1.0, 3.0];
    parents("arithmetic mean", &pool, &|| Box::new(CrossMean::new()), true);
    parents("arithmetic mean (f32)", &pool32, &|| Box::new(CrossMean::new()), true);
    parents("arithmetic mean (i32)", &[1, 2, 3, 4, 5], &|| Box::new(CrossMean::new()), true);
    parents("geometric mean", &pool, &|| Box::new(FloatCrossGeometricMean::new()), true);
    parents("geometric mean (f32)", &pool32, &|| Box::new(FloatCrossGeometricMean::new()), true);
    parents("bitwise crossing", &pool, &|| Box::new(CrossBitwise::new()), false);
    parents("bitwise crossing (f32)", &pool32, &|| Box::new(CrossBitwise::new()), false);
    parents("exponent/mantissa crossing", &pool, &|| Box::new(FloatCrossExp::new()), false);
    parents("exponent/mantissa crossing (f32)", &pool32, &|| Box::new(FloatCrossExp::new()), false);
    for len in 0..=3 {
        for n in 0..=5usize {
            let all: Vec<Vec<f64>> = (0..n).map(|i| vec![i as f64 + 1.0; len]).collect();
            let refs: Vec<&Vec<f64>> = all.iter().collect();
            expect(n == 2, &|| format!("vector crossing of {:?}", refs), || {
                VecCrossAllGenes::new(Box::new(CrossMean::new())).cross(&refs);
            });
        }
    }
}

struct Counter(Rc<Cell<usize>>);
impl Goal<Vec<f64>> for Counter {
    fn get(&mut self, x: &Vec<f64>) -> f64 {
        self.0.set(self.0.get() + 1);
        x.iter().sum()
    }
}
struct Points(Vec<Vec<f64>>);
impl CoordinatesInitializer<f64> for Points {
    fn get_coordinates(&mut self) -> Vec<Vec<f64>> {
        self.0.clone()
    }
}
impl VelocityInitializer<f64> for Points {
    fn get_velocity(&mut self) -> Vec<Vec<f64>> {
        self.0.clone()
    }
}

/// As many velocities as points.
fn swarms(max: usize) {
    for n in 0..=max {
        for m in 0..=max {
            for iterations in 0..=2 {
                let count = Rc::new(Cell::new(0));
                expect(n == m, &|| format!("a swarm of {} points with {} velocities", n, m), || {
                    ParticleSwarmOptimizer::new(
                        Box::new(Counter(count.clone())),
                        Box::new(MaxIterations::new(iterations)),
                        Box::new(Points(vec![vec![1.0, 2.0]; n])),
                        Box::new(Points(vec![vec![0.5, 0.5]; m])),
                        Box::new(ClassicVelocityCalculator::new(1.0, 1.0)),
                    )
                    .find_min();
                });
                if n != m {
                    ensure!(count.get() == 0, "evaluated", "{} points are evaluated before {} velocities for {} points are refused", count.get(), m, n);
                }
            }
        }
    }
}

fn averages() {
    for n in 2..=4usize {
        for at in 0..n {
            for len in 0..=3usize {
                let r: Vec<Option<(Vec<f64>, f64)>> = (0..n).map(|i| Some((vec![1.0; if i == at { len } else { 2 }], 1.0))).collect();
                expect(len == 2, &|| format!("the average of {:?}", r), || {
                    r.get_average();
                });
                expect(len == 2, &|| format!("the deviation of {:?}", r), || {
                    r.get_standard_deviation();
                });
            }
        }
    }
}

// -------------------------------------------------------------------------------------------------------- output

struct Failing {
    left: usize,
    zero: bool,
    /// the writer works again after one failure
    once: bool,
    failed: bool,
}
impl io::Write for Failing {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.left == 0 && !(self.once && self.failed) {
            self.failed = true;
            return if self.zero { Ok(0) } else { Err(io::Error::new(io::ErrorKind::Other, "full")) };
        }
        let n = if self.failed { b.len() } else { b.len().min(self.left) };
        self.left -= n.min(self.left);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct St(usize, Option<(Vec<f64>, f64)>);
impl AlgorithmState<Vec<f64>> for St {
    fn get_best_solution(&self) -> Option<(Vec<f64>, f64)> {
        self.1.clone()
    }
    fn get_iteration(&self) -> usize {
        self.0
    }
}

fn events(l: &mut dyn Logger<Vec<f64>>, found: bool) {
    let s = |n| St(n, if found { Some((vec![1.5, -2.5], 0.25)) } else { None });
    l.start(&s(0));
    l.resume(&s(0));
    l.next_iteration(&s(1));
    l.next_iteration(&s(2));
    l.finish(&s(2));
}
fn lost_output(zero: bool) {
    for which in 0..3 {
        for found in [true, false] {
            let run = |w: &mut dyn io::Write| match which {
                0 => events(&mut VerboseLogger::new(w, 3), found),
                1 => events(&mut ResultOnlyLogger::new(w, 3), found),
                _ => events(&mut TimeLogger::new(w), found),
            };
            let mut whole: Vec<u8> = vec![];
            run(&mut whole);
            // the time is the only variable part; one byte less than the fixed part is always too little
            let len = if which == 2 { "Time elapsed: 0 ms".len() } else { whole.len() };
            for room in 0..len {
                for once in [false, true] {
                    let kind = if once { "once" } else { "forever" };
                    expect(false, &|| format!("logger {} with a writer that fails {} after {} of {} bytes (found: {})", which, kind, room, len, found), || {
                        run(&mut Failing { left: room, zero, once, failed: false })
                    });
                }
            }
            expect(true, &|| format!("logger {} with a writer with room", which), || run(&mut Failing { left: whole.len() + 100, zero, once: false, failed: false }));
        }
    }
}

fn c31(t: Tier, _seed: u64) -> Vec<Task> {
    let max = t.pick(4, 6);
    let draws = |x: Task| {
        let mut x = x;
        x.policy.fixed = 3;
        x
    };
    vec![
        Task::new("composites", move || composites(max)),
        draws(Task::new("random points, f64", move || {
            random_points(
                max,
                &[(-1.0, 1.0), (0.0, f64::MIN_POSITIVE), (1e300, 1.5e300)],
                &[(1.0f64, 1.0), (1.0, 0.0), (0.0, -f64::MIN_POSITIVE), (NAN, 1.0), (0.0, NAN), (0.0, -0.0), (INF, INF), (1.0 + f64::EPSILON, 1.0)],
            )
        })),
        draws(Task::new("random points, f32", move || {
            random_points(
                max,
                &[(-1.0f32, 1.0), (1.0, 1.0 + f32::EPSILON)],
                &[(1.0f32, 1.0), (1.0, 0.0), (1.0 + f32::EPSILON, 1.0), (f32::NAN, 1.0), (0.0, f32::NAN), (0.0, -0.0)],
            )
        })),
        draws(Task::new("random points, i32", move || random_points(max, &[(-3, 3), (0, 1), (-1, 0)], &[(1, 1), (0, 0), (1, 0), (0, -1), (5, -5)]))),
        draws(Task::new("random points, u8", move || random_points(max, &[(0u8, 255u8), (7, 8)], &[(0, 0), (255, 255), (255, 0), (8, 7)]))),
        Task::new("canonical coefficients, f64", || canonical::<f64>(1e-12)),
        Task::new("canonical coefficients, f32", || canonical::<f32>(1e-6)),
        Task::new("teleport probabilities", teleports),
        draws(Task::new("lengths", move || lengths(max))),
        draws(Task::new("numbers of parents", crosses)),
        draws(Task::new("points and velocities", move || swarms(max))),
        Task::new("averages", averages),
        Task::new("failing writer", || lost_output(false)),
        Task::new("writer without room", || lost_output(true)),
    ]
}
