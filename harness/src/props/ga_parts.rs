//! The genetic algorithm's components one by one: selection, filters, pairing.

use super::Prop;
use crate::engine::*;
use crate::util::*;
use optlib::genetic::pairing::{RandomPairing, Tournament};
use optlib::genetic::pre_birth;
use optlib::genetic::selection::vec_float::CheckChromoInterval;
use optlib::genetic::selection::{kill_worst, KillFitnessNaN, LimitPopulation};
use optlib::genetic::*;
use optlib::tools::stopchecker::StopChecker;
use optlib::{AlgorithmState, Goal, Optimizer};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;

const INF: f64 = f64::INFINITY;
const NAN: f64 = f64::NAN;

struct Make<T>(Vec<T>);
impl<T: Clone> Creator<T> for Make<T> {
    fn create(&mut self) -> Vec<T> {
        self.0.clone()
    }
}
struct NoPairs;
impl<T> Pairing<T> for NoPairs {
    fn get_pairs(&mut self, _: &Population<T>) -> Vec<Vec<usize>> {
        vec![]
    }
}
struct NoCross;
impl<T> Cross<T> for NoCross {
    fn cross(&mut self, _: &[&T]) -> Vec<T> {
        vec![]
    }
}
struct Same;
impl<T: Clone> Mutation<T> for Same {
    fn mutation(&mut self, c: &T) -> T {
        c.clone()
    }
}
pub struct Iters(pub usize);
impl<T> StopChecker<T> for Iters {
    fn can_stop(&mut self, s: &dyn AlgorithmState<T>) -> bool {
        s.get_iteration() >= self.0
    }
}
struct GoalFn<'a, T>(&'a dyn Fn(&T) -> f64);
impl<'a, T> Goal<T> for GoalFn<'a, T> {
    fn get(&mut self, x: &T) -> f64 {
        (self.0)(x)
    }
}
struct Once<'a, T>(RefCell<Option<Box<dyn FnOnce(&mut Population<T>) + 'a>>>);
impl<'a, T> Selection<T> for Once<'a, T> {
    fn kill(&mut self, p: &mut Population<T>) {
        if let Some(f) = self.0.borrow_mut().take() {
            f(p)
        }
    }
}

/// Runs `f` on a population of the given chromosomes.
pub fn with_population<T: Clone>(chromos: Vec<T>, goal: &dyn Fn(&T) -> f64, f: impl FnOnce(&mut Population<T>)) {
    let called = RefCell::new(false);
    {
        let mut o = GeneticOptimizer::new(
            Box::new(GoalFn(goal)),
            Box::new(Iters(1)),
            Box::new(Make(chromos)),
            Box::new(NoPairs),
            Box::new(NoCross),
            Box::new(Same),
            vec![Box::new(Once(RefCell::new(Some(Box::new(|p: &mut Population<T>| {
                *called.borrow_mut() = true;
                f(p)
            })))))],
            vec![],
        );
        o.find_min();
    }
    ensure!(*called.borrow(), "selection", "selection is not asked");
}

/// (id, goal value)
type Ind = (u32, f64);

fn goal_of(x: &Ind) -> f64 {
    x.1
}

fn look(p: &Population<Ind>) -> Vec<(u32, f64, bool)> {
    p.iter().map(|i| (i.get_chromosomes().0, i.get_fitness(), i.is_alive())).collect()
}

/// Finite values that are hard to tell apart or to subtract: neighbours, subnormal numbers, zeros, the largest numbers.
pub fn fine_menus() -> Vec<Vec<f64>> {
    vec![
        vec![1.0, step64(1.0, true), step64(1.0, false), step64(step64(1.0, true), true)],
        vec![0.0, 5e-324, 1e-323, -5e-324, 1e-310, -1e-310, f64::MIN_POSITIVE],
        vec![f64::MAX, step64(f64::MAX, false), f64::MIN, step64(f64::MIN, true), INF, -INF],
        vec![1e17, 1e17 + 16.0, -1e17, 9007199254740993.0, 9007199254740994.0, 9007199254740992.0],
        vec![1e-9, 2e-9, 1e-17, -1e-9, 0.1, 0.1 + 1e-9],
        vec![1e40, 2e40, 1e-50, 2e-50, 3.0, 3.0000000001],
    ]
}

pub const C03: Prop = Prop {
    id: "C03",
    tasks: c03,
    bounds: "every value pattern over {1, 2, 0.5, NaN, +inf, -inf} and every set of dead individuals for small populations, every permutation of up to 7 (8) distinct values, every pattern over menus of neighbouring, subnormal and huge values for up to 3 (4) individuals, structured patterns up to 5000 (66000) individuals; every limit and count up to one beyond small populations, selected ones for large ones",
    assumptions: &["goal values outside the menu behave like those with the same order relations"],
};

fn check_kill(values: &[f64], dead: &[bool], how: usize, k: usize) {
    let inds: Vec<Ind> = values.iter().enumerate().map(|(i, v)| (i as u32, *v)).collect();
    with_population(inds, &goal_of, |p| {
        for i in 0..dead.len() {
            if dead[i] {
                p[i].kill();
            }
        }
        let before = look(p);
        let living = before.iter().filter(|x| x.2).count();
        let expect = match how {
            0 => {
                Selection::<Ind>::kill(&mut LimitPopulation::new(k), p);
                living.saturating_sub(k)
            }
            1 => {
                kill_worst(p, k);
                living.min(k)
            }
            _ => {
                let mut s = LimitPopulation::new(k + 3);
                s.set_limit(k);
                Selection::<Ind>::kill(&mut s, p);
                living.saturating_sub(k)
            }
        };
        let after = look(p);
        let what = if how == 1 { format!("killing the worst {}", k) } else { format!("limit {}", k) };
        ensure!(after.len() == before.len(), "size", "{} changes the number of individuals of {:?}", what, before);
        let mut killed: Vec<Ind> = vec![];
        let mut spared: Vec<Ind> = vec![];
        for (b, a) in before.iter().zip(after.iter()) {
            ensure!(b.0 == a.0 && same(b.1, a.1), "changed", "{} changes {:?} into {:?}", what, b, a);
            ensure!(b.2 || !a.2, "revived", "{} revives {:?}", what, b);
            if b.2 && !a.2 {
                killed.push((b.0, b.1));
            } else if a.2 {
                spared.push((a.0, a.1));
            }
        }
        ensure!(
            killed.len() == expect,
            "count",
            "{} on {:?} kills {} instead of {}: {:?}",
            what,
            before,
            killed.len(),
            expect,
            killed
        );
        if !killed.is_empty() && !spared.is_empty() {
            let best_killed = killed.iter().fold(killed[0], |a, b| if ga_less(b.1, a.1) { *b } else { a });
            let worst_spared = spared.iter().fold(spared[0], |a, b| if ga_less(a.1, b.1) { *b } else { a });
            ensure!(
                !ga_less(best_killed.1, worst_spared.1),
                "worst",
                "{} on {:?} kills {:?} but spares {:?}",
                what,
                before,
                best_killed,
                worst_spared
            );
        }
        state((values.len(), killed.iter().map(|x| x.0).collect::<Vec<_>>()));
        note!("{} on {:?} kills {:?}", what, before, killed);
    });
}

fn c03(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    for n in 0..=t.pick(5usize, 6) {
        let menu: Vec<f64> = match n {
            0..=4 => vec![1.0, 2.0, 0.5, NAN, INF, -INF],
            5 => vec![1.0, 2.0, NAN, INF],
            _ => vec![1.0, 2.0, NAN],
        };
        v.push(Task::new(format!("values and dead, n={}", n), move || {
            let values: Vec<f64> = (0..n).map(|_| menu[choose(menu.len())]).collect();
            let dead: Vec<bool> = (0..n).map(|_| choose(2) == 1).collect();
            let how = choose(3);
            let k = choose(n + 2);
            check_kill(&values, &dead, how, k);
        }));
    }
    for (set, menu) in fine_menus().into_iter().enumerate() {
        for n in 2..=t.pick(3usize, 4) {
            let menu = menu.clone();
            v.push(Task::new(format!("close values {}, n={}", set, n), move || {
                let values: Vec<f64> = (0..n).map(|_| menu[choose(menu.len())]).collect();
                for how in 0..3 {
                    for k in 0..=n {
                        check_kill(&values, &[], how, k);
                    }
                }
                cases(3 * n as u64 + 2);
            }));
        }
    }
    for &n in t.pick(&[1100usize, 5000][..], &[1100, 2100, 5000, 66000][..]) {
        for pat in 0..4 {
            v.push(Task::new(format!("very large population, pattern {} n={}", pat, n), move || {
                let values: Vec<f64> = (0..n)
                    .map(|i| match pat {
                        0 => i as f64,
                        1 => (n - i) as f64,
                        2 => ((i * 7919) % n) as f64,
                        _ => [1.0, NAN, 2.0, INF, 3.0, -INF][i % 6],
                    })
                    .collect();
                let dead: Vec<bool> = (0..n).map(|i| pat % 2 == 1 && i % 5 == 0).collect();
                let ks = [0, 1, 255, 256, 257, 1000, 1024, 1025, n / 2, n - 1025, n - 256, n - 1, n, n + 1];
                check_kill(&values, &dead, choose(3), ks[choose(ks.len())]);
            }));
        }
    }
    v.push(Task::new("unbounded limits", || {
        let n = [0usize, 1, 3, 40][choose(4)];
        let values: Vec<f64> = (0..n).map(|i| [1.0, NAN, 2.0, INF, 3.0, -INF][i % 6]).collect();
        let dead: Vec<bool> = (0..n).map(|i| i % 5 == 2).collect();
        let how = choose(3);
        // small values in the lowest 8, 16 or 32 bits
        let ks = [255usize, 256, 257, 258, 65_535, 65_536, 65_538, (1 << 31) - 1, 1 << 31, (1 << 31) + 2, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 63) - 1, 1 << 63, (1 << 63) + 2, usize::MAX - 3];
        check_kill(&values, &dead, how, ks[choose(ks.len())]);
    }));
    for n in 5..=t.pick(7usize, 8) {
        v.push(Task::new(format!("permutations, n={}", n), move || {
            let mut left: Vec<f64> = (0..n).map(|i| i as f64).collect();
            let mut values = vec![];
            while !left.is_empty() {
                values.push(left.remove(choose(left.len())));
            }
            for how in 0..2 {
                for k in 0..=n {
                    check_kill(&values, &[], how, k);
                }
            }
            cases(2 * n as u64 + 1);
        }));
    }
    let sizes: &[usize] = t.pick(&[9, 10, 16, 17, 33, 64, 100], &[9, 10, 16, 17, 33, 64, 100, 129, 257, 300]);
    for &n in sizes {
        for pat in 0..8 {
            v.push(
                Task::new(format!("structured pattern {} n={}", pat, n), move || {
                    let values: Vec<f64> = (0..n)
                        .map(|i| match pat {
                            0 => i as f64,
                            1 => (n - i) as f64,
                            2 => (if i < n / 2 { i } else { n - i }) as f64,
                            3 => (i % 3) as f64,
                            4 => [1.0, NAN, 2.0, INF, 3.0, -INF][i % 6],
                            5 => 7.0,
                            // pseudo-random by the base of the default execution
                            6 => choose(1000) as f64 / 8.0,
                            _ => [1.0, NAN, 2.0, INF, 3.0, -INF, 4.0, 4.5][choose(8)],
                        })
                        .collect();
                    let dead: Vec<bool> = (0..n)
                        .map(|i| match choose(4) {
                            0 => false,
                            1 => i % 2 == 0,
                            2 => i < n / 3,
                            _ => i == 0 || i + 1 == n,
                        })
                        .take(1)
                        .chain((1..n).map(|i| pat % 2 == 1 && i % 5 == 0))
                        .collect();
                    let ks = [0, 1, 2, n / 4, n / 3, n / 2, n - n / 4, n - 1, n, n + 1];
                    for how in 0..3 {
                        for k in ks {
                            check_kill(&values, &dead, how, k);
                        }
                    }
                    cases(29);
                })
                .base(seed + 77)
                .bound(if pat < 6 { 1 } else if n > 40 { 0 } else { 1 }),
            );
        }
    }
    v
}

// ---------------------------------------------------------------------------------------------------------------

pub const C05: Prop = Prop {
    id: "C05",
    tasks: c05,
    bounds: "every combination of gene values from a menu of 10 relative to each gene's own interval for up to 3 genes, populations and broods of up to 3 chromosomes over a reduced menu, structured ones up to 70; every set of already dead individuals for small populations; f32 and f64; genes and bounds of every sign and magnitude (zeros of both signs, subnormal, tiny and huge intervals)",
    assumptions: &["gene values outside the menu behave like those with the same relation to the interval"],
};

trait Fl: num::Float + Debug + Clone + Send + Sync + 'static {
    fn down(self) -> Self;
    fn up(self) -> Self;
    fn raw(self) -> u64;
    fn of(x: f64) -> Self;
    const NAME: &'static str;
}
impl Fl for f32 {
    fn down(self) -> f32 {
        step32(self, false)
    }
    fn up(self) -> f32 {
        step32(self, true)
    }
    fn raw(self) -> u64 {
        self.to_bits() as u64
    }
    fn of(x: f64) -> f32 {
        x as f32
    }
    const NAME: &'static str = "f32";
}
impl Fl for f64 {
    fn down(self) -> f64 {
        step64(self, false)
    }
    fn up(self) -> f64 {
        step64(self, true)
    }
    fn raw(self) -> u64 {
        self.to_bits()
    }
    fn of(x: f64) -> f64 {
        x
    }
    const NAME: &'static str = "f64";
}

fn intervals<G: Fl>(n: usize, set: usize) -> Vec<(G, G)> {
    let all: [[(f64, f64); 4]; 8] = [
        [(-1.0, 2.0), (3.0, 5.5), (-7.5, -7.0), (0.0, 1e6)],
        [(0.0, 1.0), (-1.0, 0.0), (0.0, 0.0), (-0.5, 0.5)],
        [(-1e30, 1e30), (1e-30, 1e-20), (-3.0, -3.0), (100.0, 200.0)],
        [(0.1, 0.2), (0.3, 0.7), (-0.7, -0.1), (1.1, 1.3)],
        // open on one or both sides: an infinite gene lies in the interval but is not finite
        [(0.0, INF), (-INF, 0.5), (-INF, INF), (-1.0, 1.0)],
        [(-INF, INF), (f64::MIN, f64::MAX), (1.0, INF), (-INF, -1.0)],
        [(1e-30, 1e-20), (-1e-25, -1e-28), (1e-44, 2.0), (-1.0, -1e-38)],
        [(1e20, 1e30), (-1e30, -1e20), (1e-9, 1e30), (-1e30, -1e-9)],
    ];
    (0..n).map(|i| (G::of(all[set][i % 4].0), G::of(all[set][i % 4].1))).collect()
}

/// A finite value of the interval.
fn within<G: Fl>(iv: (G, G), part: f64) -> G {
    match (iv.0.is_finite(), iv.1.is_finite()) {
        (true, true) if (iv.1 - iv.0).is_finite() => iv.0 + (iv.1 - iv.0) / G::of(part),
        (true, false) => iv.0 + G::of(part),
        (false, true) => iv.1 - G::of(part),
        _ => G::of(part),
    }
}

/// 0..=3 inside (if the bounds are finite), the others outside (if there is an outside).
fn gene<G: Fl>(iv: (G, G), k: usize) -> G {
    match k {
        0 => within(iv, 2.0),
        1 => iv.0,
        2 => iv.1,
        3 => {
            if iv.0 <= G::zero() && iv.1 >= G::zero() {
                -G::zero()
            } else {
                within(iv, 4.0)
            }
        }
        4 => iv.0.down(),
        5 => iv.1.up(),
        6 => G::nan(),
        7 => G::infinity(),
        8 => G::neg_infinity(),
        9 => iv.1 + (iv.1 - iv.0).abs() + G::of(1e9),
        10 => iv.0 - (iv.1 - iv.0).abs() - G::of(1e9),
        11 => G::zero(),
        12 => -G::zero(),
        13 => G::zero().up(),
        14 => G::zero().down(),
        15 => -iv.0,
        16 => -iv.1,
        17 => G::max_value(),
        18 => G::min_value(),
        19 => G::min_positive_value(),
        _ => iv.0 + iv.1,
    }
}
const GENES: usize = 21;

fn admitted<G: Fl>(c: &[G], iv: &[(G, G)]) -> bool {
    c.iter().zip(iv).all(|(x, i)| x.is_finite() && *x >= i.0 && *x <= i.1)
}

fn show<G: Fl>(c: &[Vec<G>]) -> Vec<Vec<u64>> {
    c.iter().map(|v| v.iter().map(|x| x.raw()).collect()).collect()
}

fn check_filter<G: Fl>(chromos: Vec<Vec<G>>, iv: Vec<(G, G)>, dead: &[bool]) {
    let goal = |c: &Vec<G>| c.len() as f64;
    let n = chromos.len();
    with_population(chromos.clone(), &goal, |p| {
        for (i, d) in dead.iter().enumerate() {
            if *d {
                p[i].kill();
            }
        }
        Selection::<Vec<G>>::kill(&mut CheckChromoInterval::new(iv.clone()), p);
        ensure!(p.len() == n, "size", "the interval selection changes the number of individuals");
        for i in 0..n {
            let want = admitted(&chromos[i], &iv) && !dead.get(i).copied().unwrap_or(false);
            ensure!(
                p[i].is_alive() == want,
                "interval",
                "chromosome {:?} with intervals {:?} is {} after the interval selection",
                chromos[i],
                iv,
                if want { "dead" } else { "alive" }
            );
            ensure!(
                show(&[p[i].get_chromosomes().clone()]) == show(&[chromos[i].clone()]) && p[i].get_fitness() == goal(&chromos[i]),
                "changed",
                "the interval selection changes {:?}",
                chromos[i]
            );
        }
        // the pre-birth check on the same chromosomes as a brood
        let mut brood = chromos.clone();
        pre_birth::vec_float::CheckChromoInterval::new(iv.clone()).pre_birth(p, &mut brood);
        let want: Vec<Vec<G>> = chromos.iter().filter(|c| admitted(c, &iv)).cloned().collect();
        ensure!(
            show(&brood) == show(&want),
            "prebirth",
            "the pre-birth check with intervals {:?} turns {:?} into {:?} instead of {:?}",
            iv,
            chromos,
            brood,
            want
        );
        state((n, want.len(), show(&want)));
        note!("intervals {:?}: {:?} -> {:?}", iv, chromos, brood);
    });
}

fn c05_for<G: Fl>(v: &mut Vec<Task>, t: Tier, seed: u64) {
    for set in 0..8 {
        for d in 0..=t.pick(3usize, 4) {
            v.push(Task::new(format!("{} genes d={} intervals {}", G::NAME, d, set), move || {
                let iv = intervals::<G>(d, set);
                let c: Vec<G> = (0..d).map(|i| gene(iv[i], choose(GENES))).collect();
                check_filter(vec![c], iv, &[choose(2) == 1]);
            }));
        }
        v.push(Task::new(format!("{} populations, intervals {}", G::NAME, set), move || {
            let iv = intervals::<G>(2, set);
            let n = choose(t.pick(4, 5));
            let menu = [0, 5, 1, 6, 4, 7];
            let m = if n <= 2 { 6 } else { 3 };
            let c: Vec<Vec<G>> =
                (0..n).map(|_| (0..2).map(|i| gene(iv[i], menu[choose(m)])).collect()).collect();
            let dead: Vec<bool> = (0..n).map(|_| n <= 3 && choose(2) == 1).collect();
            check_filter(c, iv, &dead);
        }));
    }
    for (n, d) in [(70, 3), (5, 40), (33, 9), (17, 17), (300, 2), (2, 300)] {
        for s in 0..t.pick(8, 16) {
            v.push(
                Task::new(format!("{} larger {}x{} {}", G::NAME, n, d, s), move || {
                    let iv = intervals::<G>(d, s as usize % 8);
                    // mostly inside, by default one gene per few chromosomes outside
                    let c: Vec<Vec<G>> = (0..n)
                        .map(|_| {
                            let bad = choose(3 * d);
                            let how = choose(7);
                            (0..d).map(|i| gene(iv[i], if i == bad { 4 + how } else { (i + bad) % 4 })).collect()
                        })
                        .collect();
                    check_filter(c, iv, &[]);
                })
                .base(seed + 50 + s)
                .bound(1),
            );
        }
    }
}

fn check_fitness_filter(values: &[f64], dead: &[bool]) {
    let inds: Vec<Ind> = values.iter().enumerate().map(|(i, v)| (i as u32, *v)).collect();
    with_population(inds, &goal_of, |p| {
        for (i, d) in dead.iter().enumerate() {
            if *d {
                p[i].kill();
            }
        }
        let before = look(p);
        Selection::<Ind>::kill(&mut KillFitnessNaN::new(), p);
        let after = look(p);
        ensure!(before.len() == after.len(), "size", "the fitness filter changes the number of individuals");
        for (b, a) in before.iter().zip(&after) {
            ensure!(a.0 == b.0 && same(a.1, b.1), "changed", "the fitness filter changes {:?} into {:?}", b, a);
            ensure!(
                a.2 == (b.2 && b.1.is_finite()),
                "fitness",
                "the fitness filter on {:?} leaves {:?}",
                before,
                after
            );
        }
        state(after.iter().map(|x| x.2).collect::<Vec<_>>());
        note!("fitness filter: {:?} -> {:?}", before, after);
    });
}

fn c05(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    for n in 0..=t.pick(4usize, 5) {
        v.push(Task::new(format!("fitness filter n={}", n), move || {
            let menu = [1.0, NAN, INF, -INF, f64::MAX, f64::MIN, 0.0, -NAN, f64::MIN_POSITIVE];
            let m = if n <= 3 { 9 } else { 4 };
            let values: Vec<f64> = (0..n).map(|_| menu[choose(m)]).collect();
            let dead: Vec<bool> = (0..n).map(|_| choose(2) == 1).collect();
            check_fitness_filter(&values, &dead);
        }));
    }
    for s in 0..t.pick(2, 8) {
        v.push(
            Task::new(format!("fitness filter, larger {}", s), move || {
                let n = [70, 130, 33, 257][choose(4)];
                let menu = [1.0, NAN, INF, -INF, f64::MAX, 2.0, 3.0];
                let values: Vec<f64> = (0..n).map(|_| menu[choose(menu.len())]).collect();
                let dead: Vec<bool> = (0..n).map(|_| choose(4) == 1).collect();
                check_fitness_filter(&values, &dead);
            })
            .base(seed + 500 + s)
            .bound(1),
        );
    }
    c05_for::<f64>(&mut v, t, seed);
    c05_for::<f32>(&mut v, t, seed);
    v
}

// ---------------------------------------------------------------------------------------------------------------

pub const C06: Prop = Prop {
    id: "C06",
    tasks: c06,
    bounds: "complete enumeration of the draws (exact outcome distribution) for small populations, families, partners and rounds over every goal value pattern of {1, 2, 3, NaN, +inf, -inf}; all single deviations for populations up to 100 and up to 12 families of 4 partners with 6 rounds; up to 260 rounds and 300 partners around the default draws",
    assumptions: &["draws come from rand's thread-local generator, whose raw words are uniform and independent"],
};

/// Uniform integers enumerated completely; floats (if an implementation uses them) in 60 strata.
fn fair(full: u64) -> Policy {
    Policy { int_full: full, int_sparse: 5, floats: (0..60).map(|i| (i as f64 + 0.5) / 60.0).collect(), fixed: 0 }
}

fn population_then(values: &[f64], f: impl FnOnce(&Population<Ind>)) {
    let inds: Vec<Ind> = values.iter().enumerate().map(|(i, v)| (i as u32, *v)).collect();
    with_population(inds, &goal_of, |p| f(p));
}

fn check_random_pairing(n: usize) {
    population_then(&vec![1.0; n], |p| {
        let k = n / 2;
        let mut dist: BTreeMap<Vec<Vec<usize>>, f64> = BTreeMap::new();
        let mut pairing = RandomPairing::new();
        for (o, w) in nested(&fair(200), None, || pairing.get_pairs(p)) {
            *dist.entry(o).or_insert(0.0) += w;
        }
        let want = (n as f64).powi(-2 * k as i32);
        for (o, w) in &dist {
            ensure!(
                o.len() == k && o.iter().all(|f| f.len() == 2 && f.iter().all(|i| *i < n)),
                "shape",
                "random pairing of {} gives {:?}",
                n,
                o
            );
            ensure!((w / want - 1.0).abs() < 1e-6, "fair", "random pairing of {} gives {:?} with probability {} instead of {}", n, o, w, want);
            state(o);
        }
        let total = (n as f64).powi(2 * k as i32);
        ensure!((dist.len() as f64 - total).abs() < 0.5, "support", "random pairing of {} has {} outcomes instead of {}", n, dist.len(), total);
        note!("random pairing of {}: {} equally likely outcomes", n, dist.len());
    });
}

fn check_random_pairing_large(n: usize) {
    population_then(&vec![1.0; n], |p| {
        let k = n / 2;
        let mut pairing = RandomPairing::new();
        let outs = nested(&fair(400), Some(1), || pairing.get_pairs(p));
        let base = outs[0].0.clone();
        let mut seen: BTreeMap<(usize, usize, usize), usize> = BTreeMap::new();
        for (o, _) in &outs {
            ensure!(
                o.len() == k && o.iter().all(|f| f.len() == 2 && f.iter().all(|i| *i < n)),
                "shape",
                "random pairing of {} gives {:?}",
                n,
                o
            );
            let mut diff = 0;
            for a in 0..k {
                for b in 0..2 {
                    if o[a][b] != base[a][b] {
                        diff += 1;
                        *seen.entry((a, b, o[a][b])).or_insert(0) += 1;
                    }
                }
            }
            ensure!(diff <= 1, "independent", "one draw changes {} partners of random pairing of {}", diff, n);
        }
        ensure!(
            seen.len() == k * 2 * (n - 1) && seen.values().all(|c| *c == 1),
            "fair",
            "random pairing of {}: {} (partner, individual) alternatives instead of {}",
            n,
            seen.len(),
            k * 2 * (n - 1)
        );
    });
}

/// Every part of a very large population is within reach of either pairing.
fn check_reach(n: usize, rounds: Option<usize>) {
    let values: Vec<f64> = (0..n).map(|i| (i % 7) as f64).collect();
    population_then(&values, |p| {
        let o = match rounds {
            Some(r) => tournament(400, 3, r).get_pairs(p),
            None => RandomPairing::new().get_pairs(p),
        };
        let (f, k) = if rounds.is_some() { (400, 3) } else { (n / 2, 2) };
        ensure!(o.len() == f && o.iter().all(|x| x.len() == k && x.iter().all(|i| *i < n)), "shape", "{} families from {} individuals", o.len(), n);
        for j in 0..k {
            let (low, high) = (o.iter().map(|x| x[j]).min().unwrap(), o.iter().map(|x| x[j]).max().unwrap());
            ensure!(
                low < n / 20 && high >= n - n / 20,
                "fair",
                "of {} individuals only {} to {} become partner {} although the draws spread over the whole range",
                n,
                low,
                high,
                j
            );
        }
        state(o);
    });
}

fn tournament(f: usize, k: usize, r: usize) -> Tournament {
    Tournament::new(f).partners_count(k).rounds_count(r)
}

/// Groups of equally fit individuals, best first.
fn classes(values: &[f64]) -> Vec<usize> {
    values.iter().map(|v| values.iter().filter(|x| ga_less(**x, *v)).count()).collect()
}

fn check_tournament(values: &[f64], mut t: Tournament, f: usize, k: usize, r: usize) {
    population_then(values, |p| {
        let n = values.len();
        let class = classes(values);
        // probability that the fittest of r + 1 uniform draws is of class c
        let mut prob: BTreeMap<usize, f64> = BTreeMap::new();
        for c in class.iter().copied() {
            let worse_or_equal = class.iter().filter(|x| **x >= c).count() as f64 / n as f64;
            let worse = class.iter().filter(|x| **x > c).count() as f64 / n as f64;
            prob.insert(c, worse_or_equal.powi(r as i32 + 1) - worse.powi(r as i32 + 1));
        }
        let mut dist: BTreeMap<Vec<Vec<usize>>, f64> = BTreeMap::new();
        for (o, w) in nested(&fair(200), None, || t.get_pairs(p)) {
            ensure!(
                o.len() == f && o.iter().all(|x| x.len() == k && x.iter().all(|i| *i < n)),
                "shape",
                "tournament of {:?} with {} families, {} partners gives {:?}",
                values,
                f,
                k,
                o
            );
            let o: Vec<Vec<usize>> = o.iter().map(|x| x.iter().map(|i| class[*i]).collect()).collect();
            *dist.entry(o).or_insert(0.0) += w;
        }
        let mut mass = 0.0;
        for (o, w) in &dist {
            let want: f64 = o.iter().flatten().map(|c| prob[c]).product();
            mass += want;
            ensure!(
                (w - want).abs() < 1e-9,
                "fittest",
                "tournament of {:?} with {} families, {} partners, {} rounds: partners ranked {:?} have probability {} instead of {}",
                values,
                f,
                k,
                r,
                o,
                w,
                want
            );
            state((class.clone(), o));
        }
        ensure!((mass - 1.0).abs() < 1e-9, "fittest", "tournament of {:?}: outcomes of probability {} never occur", values, 1.0 - mass);
        note!("tournament of {:?}, {} families x {} partners, {} rounds: {} outcomes", values, f, k, r, dist.len());
    });
}

/// All draws at the first individual but one: only the partner it belongs to may change, and only to a fitter one.
fn check_tournament_large(n: usize, f: usize, k: usize, r: usize, pat: usize) {
    let values: Vec<f64> = (0..n)
        .map(|i| match pat {
            0 => ((i * 37 + n / 2) % n) as f64,
            1 => [5.0, NAN, 1.0, 2.0, INF, -INF, 7.0][i % 7],
            2 => [NAN, 1.0, 2.0, 3.0][i % 4],
            _ => i as f64,
        })
        .collect();
    population_then(&values, |p| {
        let mut t = tournament(f, k, r);
        let outs = nested(&fair(400), Some(1), || t.get_pairs(p));
        let base = outs[0].0.clone();
        ensure!(base.iter().flatten().all(|i| *i == 0), "fittest", "all draws are individual 0 but the families are {:?}", base);
        let mut seen: BTreeMap<(usize, usize, usize), usize> = BTreeMap::new();
        for (o, _) in &outs {
            ensure!(
                o.len() == f && o.iter().all(|x| x.len() == k && x.iter().all(|i| *i < n)),
                "shape",
                "tournament with {} families, {} partners gives {:?}",
                f,
                k,
                o
            );
            let mut diff = 0;
            for a in 0..f {
                for b in 0..k {
                    if o[a][b] != 0 {
                        diff += 1;
                        *seen.entry((a, b, o[a][b])).or_insert(0) += 1;
                    }
                }
            }
            ensure!(diff <= 1, "independent", "one draw changes {} partners", diff);
        }
        for a in 0..f {
            for b in 0..k {
                for j in 1..n {
                    let c = seen.get(&(a, b, j)).copied().unwrap_or(0);
                    if ga_less(values[j], values[0]) {
                        ensure!(c == r + 1, "fittest", "individual {} ({}) against {} times individual 0 ({}) wins {} of {} positions", j, values[j], r, values[0], c, r + 1);
                    } else if ga_less(values[0], values[j]) && r > 0 {
                        ensure!(c == 0, "fittest", "individual {} ({}) wins against the fitter individual 0 ({})", j, values[j], values[0]);
                    }
                }
            }
        }
    });
}

fn c06(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    for n in 0..=t.pick(6usize, 7) {
        v.push(Task::new(format!("random pairing n={}", n), move || check_random_pairing(n)));
    }
    for n in [12, 50, 100, 101, 300] {
        v.push(Task::new(format!("random pairing n={}", n), move || check_random_pairing_large(n)));
    }
    for n in [5000usize, 70_001] {
        for rounds in [None, Some(0), Some(1)] {
            v.push(Task::new(format!("reach of pairing n={} rounds={:?}", n, rounds), move || check_reach(n, rounds)).base(seed + 5).bound(0));
        }
    }
    for (f, k, r) in [(70_001usize, 1usize, 0usize), (1100, 2, 1), (1, 70_001, 0), (2, 1100, 1), (1, 1, 70_001), (5000, 5, 2)] {
    v.push(
        Task::new(format!("tournament of {} families, {} partners, {} rounds", f, k, r), move || {
            population_then(&[2.0, 1.0, NAN, 1.0, 0.5], |p| {
                let o = tournament(f, k, r).get_pairs(p);
                ensure!(o.len() == f && o.iter().all(|x| x.len() == k && x.iter().all(|i| *i < 5)), "shape", "{} families of {:?} partners instead of {} of {}", o.len(), o.first().map(|x| x.len()), f, k);
                state((f, k, r));
            });
        })
        .base(seed + 6)
        .bound(0),
    );
    }
    for pattern in 0..3usize {
        v.push(Task::new(format!("empty population, tournament {}", pattern), move || {
            population_then(&[], |p| {
                let o = nested(&fair(64), None, || tournament([1, 3, 0][pattern], 2, [1, 0, 4][pattern]).get_pairs(p));
                ensure!(o.iter().all(|x| x.0.is_empty()), "empty", "an empty population yields families {:?}", o);
            });
        }));
    }
    // every value pattern, one family
    for n in 1..=t.pick(3usize, 4) {
        for (k, r) in [(1, 1), (2, 1), (1, 2), (1, 0), (1, 3), (2, 0), (3, 0), (2, 2), (3, 1)] {
            if (n as f64).powi((k * (r + 1)) as i32) > t.pick(800.0, 5000.0) {
                continue;
            }
            v.push(Task::new(format!("tournament values n={} partners={} rounds={}", n, k, r), move || {
                let menu = [1.0, 2.0, 3.0, NAN, INF, -INF];
                let values: Vec<f64> = (0..n).map(|_| menu[choose(menu.len())]).collect();
                check_tournament(&values, tournament(1, k, r), 1, k, r);
            }));
        }
    }
    for (i, m) in fine_menus().into_iter().enumerate() {
        let menu: Vec<f64> = m;
        v.push(Task::new(format!("tournament close values {}", i), move || {
            let values: Vec<f64> = (0..3).map(|_| menu[choose(menu.len())]).collect();
            check_tournament(&values, tournament(1, 1, 1), 1, 1, 1);
        }));
    }
    for (n, f, k, r) in [(2, 2, 2, 1), (3, 2, 2, 1), (4, 1, 2, 2), (2, 3, 2, 1), (4, 2, 1, 2), (5, 1, 2, 1), (3, 3, 1, 1), (3, 0, 2, 1), (3, 2, 0, 1), (6, 1, 1, 4), (2, 1, 4, 2), (2, 1, 1, 7), (2, 1, 1, 8), (2, 1, 1, 11), (3, 1, 1, 6), (2, 1, 2, 5), (2, 5, 1, 1), (2, 2, 3, 1), (2, 1, 12, 0), (2, 12, 1, 0)] {
        for pat in 0..4 {
            v.push(Task::new(format!("tournament n={} families={} partners={} rounds={} pattern {}", n, f, k, r, pat), move || {
                let values: Vec<f64> = (0..n)
                    .map(|i| match pat {
                        0 => i as f64,
                        1 => -(i as f64),
                        2 => [2.0, NAN, 1.0, 1.0, NAN, INF][i],
                        _ => [NAN, 1.0, 2.0, -INF, 3.0, 0.5][i],
                    })
                    .collect();
                check_tournament(&values, tournament(f, k, r), f, k, r);
            }));
        }
    }
    // the documented defaults: two partners, one round; builder order
    v.push(Task::new("tournament defaults", || {
        for f in 1..=2 {
            check_tournament(&[2.0, 1.0, 3.0], Tournament::new(f), f, 2, 1);
            check_tournament(&[2.0, 1.0], Tournament::new(f).rounds_count(2), f, 2, 2);
            check_tournament(&[2.0, 1.0, 3.0], Tournament::new(f).partners_count(1), f, 1, 1);
        }
        check_tournament(&[2.0, 1.0, 3.0], Tournament::new(1).rounds_count(2).partners_count(1), 1, 1, 2);
    }));
    for (n, f, k, r) in [(30, 12, 2, 1), (50, 5, 3, 5), (100, 3, 2, 6), (20, 12, 4, 6), (65, 2, 2, 0), (300, 3, 2, 1), (3, 300, 2, 1), (10, 2, 2, 8), (7, 1, 2, 33), (5, 1, 1, 260), (4, 2, 1, 70), (6, 1, 40, 2), (3, 1, 300, 1)] {
        for pat in 0..4 {
            v.push(Task::new(format!("tournament, single deviations n={} {}x{} rounds={} pattern {}", n, f, k, r, pat), move || {
                check_tournament_large(n, f, k, r, pat)
            }));
        }
    }
    v
}
