//! What a component can see of a population and of a swarm: C29.

use super::Prop;
use crate::engine::*;
use crate::util::*;
use optlib::genetic::*;
use optlib::particleswarm::*;
use optlib::tools::stopchecker::MaxIterations;
use optlib::{Agent, AgentsState, AlgorithmState, Goal, IterativeOptimizer, Optimizer};
use std::cell::RefCell;
use std::rc::Rc;

pub const C29: Prop = Prop {
    id: "C29",
    tasks: c29,
    bounds: "populations of up to 3 (4) individuals with every brood of up to 2 and every sequence of up to 3 kills through indexing or mutable iteration (repetitions included) in 2 generations and in a resumption, goal values with ties, NaN and infinities; populations of up to 5000 individuals; swarms of up to 4 particles over 3 iterations and of 2000 particles over 3, with every goal value within 3 deviations",
    assumptions: &["goal values outside the menu behave alike"],
};

const MENU: [f64; 5] = [1.0, 0.5, f64::NAN, f64::INFINITY, 1.0];

#[derive(Clone, Debug, PartialEq)]
struct Id(u32);

struct V {
    next: u32,
    /// goal values by identity
    values: Vec<f64>,
    broods: bool,
    kills: usize,
    draw: bool,
    /// how the large populations behave
    scripted: bool,
    iteration: usize,
    steps: usize,
}
type Vr = Rc<RefCell<V>>;

fn fresh(w: &Vr) -> Id {
    let mut w = w.borrow_mut();
    w.next += 1;
    Id(w.next - 1)
}

/// (identity, goal value, alive) through every interface at once.
fn examine(w: &Vr, p: &Population<Id>, when: &str) -> Vec<(u32, bool)> {
    let v: Vec<(u32, bool)> = p.iter().map(|i| (i.get_chromosomes().0, i.is_alive())).collect();
    let values = &w.borrow().values;
    for (n, i) in p.iter().enumerate() {
        let id = i.get_chromosomes().0;
        let value = values[id as usize];
        ensure!(same(i.get_fitness(), value), "fitness", "{}: individual {} has fitness {} instead of {}", when, id, i.get_fitness(), value);
        ensure!(
            i.get_parameter().0 == id && same(i.get_goal(), value),
            "agent",
            "{}: as an agent, individual {} has the parameter {} and the goal value {}",
            when,
            id,
            i.get_parameter().0,
            i.get_goal()
        );
        let j = &p[n];
        ensure!(
            j.get_chromosomes().0 == id && same(j.get_fitness(), value) && j.is_alive() == i.is_alive(),
            "index",
            "{}: index {} shows individual {} (alive: {}), iteration shows {} (alive: {})",
            when,
            n,
            j.get_chromosomes().0,
            j.is_alive(),
            id,
            i.is_alive()
        );
    }
    ensure!(p.len() == v.len(), "len", "{}: len() is {} but there are {}", when, p.len(), v.len());
    let living = v.iter().filter(|x| x.1).count();
    ensure!(p.len_alive() == living, "len_alive", "{}: len_alive() is {} but {} are alive", when, p.len_alive(), living);
    let agents = sorted(p.get_agents().iter().map(|a| (a.get_parameter().0, bits(a.get_goal()), a.is_alive())).collect::<Vec<_>>());
    let want = sorted(v.iter().map(|x| (x.0, bits(values[x.0 as usize]), x.1)).collect::<Vec<_>>());
    ensure!(agents == want, "agents", "{}: get_agents() shows {} agents for {} individuals", when, agents.len(), want.len());
    let it = w.borrow().iteration;
    ensure!(
        p.get_iteration() == it && AlgorithmState::get_iteration(p) == it,
        "iteration",
        "{}: the iteration is {} and {} instead of {}",
        when,
        p.get_iteration(),
        AlgorithmState::get_iteration(p),
        it
    );
    let best = p.get_best_solution();
    match (p.get_best(), &best) {
        (None, None) => {}
        (Some(i), Some(s)) => ensure!(
            i.get_chromosomes() == &s.0 && same(i.get_fitness(), s.1) && i.get_parameter() == &s.0 && same(i.get_goal(), s.1),
            "best",
            "{}: the best individual is {:?} with {}, the best solution {:?}",
            when,
            i.get_chromosomes(),
            i.get_fitness(),
            s
        ),
        (i, s) => fail!("best", "{}: there is a best individual: {}, a best solution: {}", when, i.is_some(), s.is_some()),
    }
    ensure!(p.get_worst().is_some() == best.is_some(), "worst", "{}: there is a best but no worst individual, or the other way round", when);
    v
}

struct Go(Vr);
impl Goal<Id> for Go {
    fn get(&mut self, x: &Id) -> f64 {
        let mut w = self.0.borrow_mut();
        while w.values.len() <= x.0 as usize {
            let n = w.values.len();
            let v = if w.draw { MENU[choose(4)] } else { MENU[(n * 7 + n / 5) % 5] };
            w.values.push(v);
        }
        w.values[x.0 as usize]
    }
}
struct Cr(Vr, usize);
impl Creator<Id> for Cr {
    fn create(&mut self) -> Vec<Id> {
        self.0.borrow_mut().iteration = 0;
        (0..self.1).map(|_| fresh(&self.0)).collect()
    }
}
struct Pa(Vr);
impl Pairing<Id> for Pa {
    fn get_pairs(&mut self, p: &Population<Id>) -> Vec<Vec<usize>> {
        let v = examine(&self.0, p, "at pairing");
        ensure!(v.iter().all(|x| x.1), "dead", "at pairing: there are dead individuals");
        vec![(0..p.len().min(2)).collect()]
    }
}
struct Cross_(Vr);
impl Cross<Id> for Cross_ {
    fn cross(&mut self, _: &[&Id]) -> Vec<Id> {
        let n = if self.0.borrow().broods { choose(3) } else { 2 };
        (0..n).map(|_| fresh(&self.0)).collect()
    }
}
struct Same;
impl Mutation<Id> for Same {
    fn mutation(&mut self, c: &Id) -> Id {
        c.clone()
    }
}
struct Pb(Vr);
impl PreBirth<Id> for Pb {
    fn pre_birth(&mut self, p: &Population<Id>, _: &mut Vec<Id>) {
        examine(&self.0, p, "before birth");
    }
}
struct Se(Vr);
impl Selection<Id> for Se {
    fn kill(&mut self, p: &mut Population<Id>) {
        let mut v = examine(&self.0, p, "at selection");
        let (kills, scripted) = (self.0.borrow().kills, self.0.borrow().scripted);
        if scripted {
            for n in 0..v.len() {
                if n % 3 == 1 || n == v.len() - 1 {
                    p[n].kill();
                    v[n].1 = false;
                }
            }
            for (n, i) in p.iter_mut().enumerate() {
                if n % 64 == 63 {
                    i.kill();
                    v[n].1 = false;
                }
            }
        }
        for _ in 0..if scripted { 1 } else { kills } {
            if v.is_empty() {
                break;
            }
            let k = if scripted { 1 } else { choose(1 + 2 * v.len()) };
            if k == 0 {
                break;
            }
            let n = (k - 1) / 2;
            if k % 2 == 1 {
                p[n].kill();
            } else {
                p.iter_mut().nth(n).unwrap().kill();
            }
            v[n].1 = false;
            let now = examine(&self.0, p, "after a kill");
            note!("kill {} of {:?}", n, v);
            ensure!(now == v, "kill", "after killing number {} the population is {:?} instead of {:?}", n, now, v);
        }
        let mut w = self.0.borrow_mut();
        w.iteration += 1;
        w.steps += 1;
        state(v);
    }
}

fn population(init: usize, broods: bool, draw: bool, kills: usize, gens: [usize; 2], scripted: bool) {
    let w: Vr = Rc::new(RefCell::new(V { next: 0, values: vec![], broods, kills, draw, scripted, iteration: 0, steps: 0 }));
    let mut o = GeneticOptimizer::new(
        Box::new(Go(w.clone())),
        Box::new(MaxIterations::new(gens[0])),
        Box::new(Cr(w.clone(), init)),
        Box::new(Pa(w.clone())),
        Box::new(Cross_(w.clone())),
        Box::new(Same),
        vec![Box::new(Se(w.clone()))],
        vec![Box::new(Pb(w.clone()))],
    );
    o.find_min();
    o.set_stop_checker(Box::new(MaxIterations::new(gens[1])));
    o.next_iterations();
    if scripted {
        o.find_min();
    }
    let want = if scripted { gens[1] * 2 } else { gens[1] };
    ensure!(w.borrow().steps == want, "generations", "{} generations instead of {}", w.borrow().steps, want);
}

// --------------------------------------------------------------------------------------------------------- swarm

struct S {
    /// identity, position, value; the previous state while the iteration is under way
    parts: Vec<(Vec<f64>, f64)>,
    old: Vec<(Vec<f64>, f64)>,
    begun: usize,
    moved: usize,
    asked: usize,
    draw: bool,
    evals: usize,
    iteration: usize,
}
type Sr = Rc<RefCell<S>>;
struct Sg(Sr, bool);
impl Goal<Vec<f64>> for Sg {
    fn get(&mut self, x: &Vec<f64>) -> f64 {
        let mut w = self.0.borrow_mut();
        w.evals += 1;
        let v = if w.draw { MENU[choose(4)] } else { MENU[(w.evals * 3 + w.evals / 7) % 5] };
        let n = w.parts.iter().position(|p| p.0 == *x && p.1 == -7.0);
        match n {
            Some(n) => w.parts[n].1 = v,
            None => {
                // an initial point
                if w.iteration == 0 && w.begun == 0 {
                    w.parts.push((x.clone(), v))
                }
            }
        }
        v
    }
}
struct Si(usize, usize);
impl CoordinatesInitializer<f64> for Si {
    fn get_coordinates(&mut self) -> Vec<Vec<f64>> {
        (0..self.0).map(|n| (0..self.1).map(|d| (n * 8 + d) as f64).collect()).collect()
    }
}
impl VelocityInitializer<f64> for Si {
    fn get_velocity(&mut self) -> Vec<Vec<f64>> {
        (0..self.0).map(|_| vec![0.0; self.1]).collect()
    }
}
struct Sc(Sr);
impl VelocityCalculator<f64> for Sc {
    fn calc_new_velocity(&mut self, swarm: &Swarm<f64>, particle: &Particle<f64>) -> Vec<f64> {
        let mut w = self.0.borrow_mut();
        let len = w.parts.len();
        if w.begun == len * (w.iteration + 1) {
            w.iteration += 1;
        }
        let first = w.begun == len * w.iteration;
        if first {
            w.old = w.parts.clone();
        }
        w.asked += 1;
        ensure!(swarm.len() == len, "len", "len() is {} for {} particles", swarm.len(), len);
        ensure!(
            swarm.get_iteration() == w.iteration,
            "iteration",
            "the swarm shows iteration {} instead of {}",
            swarm.get_iteration(),
            w.iteration
        );
        let agents = swarm.get_agents();
        ensure!(agents.len() == len, "agents", "get_agents() shows {} agents for {} particles", agents.len(), len);
        if first || len < 10 || w.asked % 97 == 0 {
            // every particle is shown exactly once, in its old state or (if it has moved already) in the new one
            let mut free: Vec<(Vec<u64>, u64)> = agents.iter().map(|a| (a.get_parameter().iter().map(|c| bits(*c)).collect(), bits(a.get_goal()))).collect();
            free.sort();
            for n in 0..len {
                let k = |p: &(Vec<f64>, f64)| (p.0.iter().map(|c| bits(*c)).collect::<Vec<_>>(), bits(p.1));
                let at = free.binary_search(&k(&w.old[n])).or_else(|_| free.binary_search(&k(&w.parts[n])));
                match at {
                    Ok(i) => {
                        free.remove(i);
                    }
                    Err(_) => fail!("agents", "no agent shows the particle at {:?} with {}", w.parts[n].0, w.parts[n].1),
                }
            }
        }
        let me = (particle.get_parameter().clone(), particle.get_goal());
        let n = w.parts.iter().position(|p| p.0 == me.0 && same(p.1, me.1));
        let n = match n {
            Some(n) => n,
            None => fail!("particle", "a velocity is asked for an unknown particle at {:?} with {}", me.0, me.1),
        };
        w.begun += 1;
        let v: Vec<f64> = me.0.iter().map(|_| 0.125).collect();
        w.parts[n].0 = me.0.iter().map(|c| c + 0.125).collect();
        w.parts[n].1 = -7.0;
        w.moved += 1;
        v
    }
}

fn swarm(particles: usize, dims: usize, draw: bool, iterations: usize) {
    let w: Sr = Rc::new(RefCell::new(S { parts: vec![], old: vec![], begun: 0, moved: 0, asked: 0, draw, evals: 0, iteration: 0 }));
    let mut o = ParticleSwarmOptimizer::new(
        Box::new(Sg(w.clone(), draw)),
        Box::new(MaxIterations::new(iterations)),
        Box::new(Si(particles, dims)),
        Box::new(Si(particles, dims)),
        Box::new(Sc(w.clone())),
    );
    o.find_min();
    ensure!(w.borrow().asked == particles * iterations, "asked", "{} velocities are asked for", w.borrow().asked);
}

fn empty_swarm() {
    let s: Swarm<f64> = Swarm::new();
    ensure!(s.len() == 0 && s.get_agents().is_empty(), "empty", "a new swarm has {} particles and {} agents", s.len(), s.get_agents().len());
    ensure!(s.get_iteration() == 0 && s.get_best_solution().is_none(), "empty", "a new swarm is at iteration {}", s.get_iteration());
}

fn c29(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = vec![Task::new("empty swarm", empty_swarm)];
    for init in 0..=t.pick(3, 4) {
        v.push(Task::new(format!("{} individuals, every kill", init), move || population(init, true, false, t.pick(2, 3), [1, 2], false)).bound(t.pick(4, 5)));
        v.push(Task::new(format!("{} individuals, one generation", init), move || population(init, true, true, 3, [0, 1], false)).bound(t.pick(4, 6)));
        for s in 0..3 {
            v.push(Task::new(format!("{} individuals, around {}", init + 3, s), move || population(init + 3, true, true, 3, [2, 4], false)).base(seed + s).bound(t.pick(1, 2)));
        }
    }
    for init in [17usize, 64, 65, 100, 255, 256, 257, 1000, 5000] {
        v.push(Task::new(format!("{} individuals", init), move || population(init, false, false, 0, [1, 3], true)));
    }
    for particles in 0..=4 {
        for dims in 1..=2 {
            v.push(Task::new(format!("{} particles, {} dimensions", particles, dims), move || swarm(particles, dims, true, 3)).bound(t.pick(3, 4)));
        }
    }
    for particles in [17usize, 65, 256, 257, 2000] {
        v.push(Task::new(format!("{} particles", particles), move || swarm(particles, 1, false, 3)));
    }
    v
}
