//! A genetic optimizer whose components, goal function, stop criterion and loggers are all played by the explorer,
//! with a reference model of the population. Chromosomes are unique numbers with known provenance.

use crate::engine::*;
use crate::util::*;
use optlib::genetic::*;
use optlib::tools::logging::Logger;
use optlib::tools::stopchecker::StopChecker;
use optlib::{AgentsState, Agent, AlgorithmState, Goal, IterativeOptimizer, Optimizer};
use std::cell::RefCell;
use std::collections::{HashSet, VecDeque};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub struct Chr {
    pub id: u32,
}

#[derive(Clone, Debug)]
pub enum GoalMode {
    /// a value of the menu per evaluation
    Menu(Vec<f64>),
    /// a distinct value per chromosome
    Unique,
}

#[derive(Clone, Debug)]
pub enum FamMode {
    /// k single-parent families
    Singles(usize),
    /// a menu of structures over first and last individual
    Menu,
    /// a menu of structures with many parents or many families
    Big,
    /// up to the given number of families with up to the given number of arbitrary parents
    Free(usize, usize),
}

#[derive(Clone, Debug)]
pub enum KillMode {
    None,
    /// every subset
    Subsets,
    /// none, all, first, last
    Menu,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub c01: bool,
    pub c02: bool,
    pub c21: bool,
    pub init: Vec<usize>,
    pub goals: GoalMode,
    pub fams: FamMode,
    pub kids: Vec<usize>,
    pub pre: usize,
    pub edits: usize,
    pub sel: usize,
    pub kills: KillMode,
    pub loggers: usize,
    /// iterations of a segment
    pub lens: Vec<usize>,
    /// number of operations after the first run: 0 none, each one of run / resume
    pub ops: usize,
    /// replace components between operations
    pub replace: bool,
}

impl Default for Cfg {
    fn default() -> Cfg {
        Cfg {
            c01: false,
            c02: false,
            c21: false,
            init: vec![2],
            goals: GoalMode::Unique,
            fams: FamMode::Singles(1),
            kids: vec![1],
            pre: 0,
            edits: 1,
            sel: 1,
            kills: KillMode::None,
            loggers: 1,
            lens: vec![2],
            ops: 0,
            replace: false,
        }
    }
}

const PAIR: usize = 0;
const CROSS: usize = 1;
const MUT: usize = 2;
const PRE: usize = 3;
const SEL: usize = 4;
const STOP: usize = 5;
const LOG: usize = 6;
const NAMES: [&str; 7] = ["pairing", "cross", "mutation", "pre-birth", "selection", "stop criterion", "logger"];

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ev {
    Start,
    Resume,
    Next,
    Finish,
}

type Best = Option<(u32, u64)>;

struct W {
    cfg: Cfg,
    next_id: u32,
    /// the current population by the model: survivors of the last generation, or the initial individuals
    pop: Vec<(u32, f64)>,
    iteration: usize,
    target: usize,
    in_gen: bool,
    paired: bool,
    families: VecDeque<Vec<u32>>,
    children: VecDeque<u32>,
    mutants: Vec<u32>,
    brood: Option<Vec<u32>>,
    evaluated: Vec<(u32, f64)>,
    /// the highest number among the evaluated
    highest: u32,
    creating: bool,
    initial: Vec<u32>,
    pre_n: usize,
    pre_done: usize,
    sel_n: usize,
    sel_done: usize,
    dead: Vec<u32>,
    /// survivors of the last generation that had any
    reported: Option<Vec<(u32, f64)>>,
    creates: usize,
    evals: usize,
    tokens: [u32; 7],
    n_log: usize,
    events: Vec<Vec<(Ev, usize, Best)>>,
    stop_saw: Vec<(usize, Best)>,
}

type Wr = Rc<RefCell<W>>;

fn ms(v: &[(u32, f64)]) -> Vec<(u32, u64)> {
    sorted(v.iter().map(|x| (x.0, bits(x.1))).collect())
}

fn best_of(s: &dyn AlgorithmState<Chr>) -> Best {
    s.get_best_solution().map(|(c, f)| (c.id, bits(f)))
}

impl W {
    fn token(&self, slot: usize, token: u32) {
        if self.cfg.c02 && slot != LOG || self.cfg.c21 && slot == LOG {
            ensure!(self.tokens[slot] == token, "replaced", "a replaced {} is still used", NAMES[slot]);
        }
    }

    fn snapshot(p: &Population<Chr>) -> Vec<(u32, f64, bool)> {
        p.iter().map(|i| (i.get_chromosomes().id, i.get_fitness(), i.is_alive())).collect()
    }

    fn check_view(&self, p: &Population<Chr>, who: &str, want: &[(u32, f64)], dead: &[u32]) {
        if !self.cfg.c02 {
            return;
        }
        let s = W::snapshot(p);
        let have: Vec<(u32, f64)> = s.iter().map(|x| (x.0, x.1)).collect();
        ensure!(ms(&have) == ms(want), "population", "{} sees the population {:?} instead of {:?}", who, have, want);
        let set: HashSet<u32> = dead.iter().copied().filter(|_| dead.len() > 64).collect();
        for x in &s {
            ensure!(
                x.2 != if dead.len() > 64 { set.contains(&x.0) } else { dead.contains(&x.0) },
                "alive",
                "{} sees individual {} {}",
                who,
                x.0,
                if x.2 { "alive although it was killed" } else { "dead although nobody killed it" }
            );
        }
        ensure!(p.len() == s.len(), "len", "len() is {} for {} individuals", p.len(), s.len());
        ensure!(
            p.len_alive() == s.iter().filter(|x| x.2).count(),
            "len_alive",
            "len_alive() is {} for {:?}",
            p.len_alive(),
            s
        );
        let agents: Vec<(u32, f64)> = p.get_agents().iter().map(|a| (a.get_parameter().id, a.get_goal())).collect();
        ensure!(ms(&agents) == ms(&have), "agents", "get_agents() shows {:?} instead of {:?}", agents, have);
        for i in 0..s.len() {
            ensure!(p[i].get_chromosomes().id == s[i].0, "index", "individual {} differs from the {}th of the iterator", i, i);
        }
        ensure!(
            p.get_iteration() == self.iteration,
            "iteration",
            "{} sees generation {} instead of {}",
            who,
            p.get_iteration(),
            self.iteration
        );
    }

    fn check_best(&self, best: Option<(u32, f64)>, who: &str) {
        if !self.cfg.c01 {
            return;
        }
        match (&self.reported, best) {
            (None, None) => {}
            (None, Some(b)) => fail!("report", "{} is shown {:?} although no generation of this run had survivors", who, b),
            (Some(s), None) => fail!("report", "{} is shown no solution although {:?} survived", who, s),
            (Some(s), Some(b)) => {
                ensure!(
                    s.iter().any(|x| x.0 == b.0 && same(x.1, b.1)),
                    "survivor",
                    "{} is shown the best {:?} which is not among the survivors {:?}",
                    who,
                    b,
                    s
                );
                ensure!(
                    !s.iter().any(|x| ga_less(x.1, b.1)),
                    "best",
                    "{} is shown the best {:?} although there is a better survivor in {:?}",
                    who,
                    b,
                    s
                );
            }
        }
    }

    fn check_worst(&self, worst: Option<(u32, f64)>, who: &str) {
        if !self.cfg.c01 {
            return;
        }
        match (&self.reported, worst) {
            (None, None) => {}
            (None, Some(b)) => fail!("report", "{} is shown the worst {:?} although no generation had survivors", who, b),
            (Some(s), None) => fail!("report", "{} is shown no worst individual although {:?} survived", who, s),
            (Some(s), Some(b)) => {
                ensure!(
                    s.iter().any(|x| x.0 == b.0 && same(x.1, b.1)),
                    "survivor",
                    "{} is shown the worst {:?} which is not among the survivors {:?}",
                    who,
                    b,
                    s
                );
                ensure!(
                    !s.iter().any(|x| x.1 > b.1 || (b.1.is_nan() && !x.1.is_nan())),
                    "worst",
                    "{} is shown the worst {:?} although there is a worse survivor in {:?}",
                    who,
                    b,
                    s
                );
            }
        }
    }

    fn check_reports(&self, p: &Population<Chr>, who: &str) {
        self.check_best(p.get_best_solution().map(|x| (x.0.id, x.1)), who);
        self.check_best(p.get_best().as_ref().map(|i| (i.get_chromosomes().id, i.get_fitness())), who);
        self.check_worst(p.get_worst().as_ref().map(|i| (i.get_chromosomes().id, i.get_fitness())), who);
    }

    /// The initial individuals are complete.
    fn close_creation(&mut self) {
        if self.creating {
            if self.cfg.c02 {
                let mut want = self.initial.clone();
                want.sort();
                let have = sorted(self.evaluated.iter().map(|x| x.0).collect::<Vec<_>>());
                ensure!(want == have, "initial", "initial individuals {:?}, evaluated {:?}", want, have);
            }
            self.pop = std::mem::take(&mut self.evaluated);
            self.creating = false;
        }
    }

    fn before_selection(&self) {
        if self.cfg.c02 {
            ensure!(self.families.is_empty(), "cross", "families not crossed: {:?}", self.families);
            ensure!(self.children.is_empty(), "mutation", "children not mutated: {:?}", self.children);
            ensure!(self.pre_done == self.pre_n, "prebirth", "{} of {} pre-birth steps applied", self.pre_done, self.pre_n);
            let want = sorted(self.brood.clone().unwrap_or_else(|| self.mutants.clone()));
            let have = sorted(self.evaluated.iter().map(|x| x.0).collect::<Vec<_>>());
            ensure!(want == have, "evaluate", "the brood is {:?}, evaluated are {:?}", want, have);
        }
    }

    /// The current generation, if one is under way, is complete.
    fn close_gen(&mut self) {
        self.close_creation();
        if !self.in_gen {
            return;
        }
        self.before_selection();
        if self.cfg.c02 {
            ensure!(self.sel_done == self.sel_n, "selection", "{} of {} selection steps applied", self.sel_done, self.sel_n);
        }
        let mut p = std::mem::take(&mut self.pop);
        p.append(&mut self.evaluated);
        let dead = std::mem::take(&mut self.dead);
        if dead.len() > 64 {
            let set: HashSet<u32> = dead.into_iter().collect();
            p.retain(|x| !set.contains(&x.0));
        } else {
            p.retain(|x| !dead.contains(&x.0));
        }
        if !p.is_empty() {
            self.reported = Some(p.clone());
        }
        self.pop = p;
        self.iteration += 1;
        self.in_gen = false;
        state((self.iteration, ms(&self.pop)));
        note!("generation {} leaves {:?}", self.iteration, self.pop);
    }

    fn event(&mut self, logger: usize, token: u32, ev: Ev, s: &dyn AlgorithmState<Chr>) {
        self.token(LOG, token);
        match ev {
            Ev::Next | Ev::Finish => self.close_gen(),
            _ => self.close_creation(),
        }
        self.check_best(s.get_best_solution().map(|x| (x.0.id, x.1)), "a logger");
        self.events[logger].push((ev, s.get_iteration(), best_of(s)));
    }
}

struct C(Wr);
impl Creator<Chr> for C {
    fn create(&mut self) -> Vec<Chr> {
        let mut w = self.0.borrow_mut();
        w.creates += 1;
        let menu = w.cfg.init.clone();
        let n = menu[choose(menu.len())];
        w.initial = (w.next_id..w.next_id + n as u32).collect();
        w.next_id += n as u32;
        note!("created {:?}", w.initial);
        w.initial.iter().map(|i| Chr { id: *i }).collect()
    }
}

struct G(Wr);
impl Goal<Chr> for G {
    fn get(&mut self, x: &Chr) -> f64 {
        let mut w = self.0.borrow_mut();
        w.evals += 1;
        let v = match &w.cfg.goals {
            GoalMode::Menu(m) => m[choose(m.len())],
            GoalMode::Unique => ((x.id.wrapping_mul(7919)) % 10007) as f64 + x.id as f64 * 1e-5,
        };
        if w.cfg.c02 {
            if w.creating {
                ensure!(w.initial.contains(&x.id), "evaluate", "evaluates {} which is not an initial chromosome", x.id);
            } else {
                ensure!(w.in_gen, "evaluate", "evaluates {} outside a generation", x.id);
                ensure!(w.pre_done == w.pre_n, "evaluate", "evaluates {} before the pre-birth steps are done", x.id);
                let known = match &w.brood {
                    Some(b) => b.contains(&x.id),
                    None => w.mutants.contains(&x.id),
                };
                ensure!(known, "evaluate", "evaluates {} which is not in the brood", x.id);
            }
            ensure!(
                w.evaluated.last().map_or(true, |_| x.id > w.highest) || !w.evaluated.iter().any(|e| e.0 == x.id),
                "evaluate",
                "evaluates {} a second time",
                x.id
            );
        }
        note!("goal({}) = {}", x.id, v);
        w.highest = if w.evaluated.is_empty() { x.id } else { w.highest.max(x.id) };
        w.evaluated.push((x.id, v));
        v
    }
}

struct Pa(Wr, u32);
impl Pairing<Chr> for Pa {
    fn get_pairs(&mut self, p: &Population<Chr>) -> Vec<Vec<usize>> {
        let mut w = self.0.borrow_mut();
        w.token(PAIR, self.1);
        w.close_creation();
        if w.cfg.c02 {
            ensure!(!w.in_gen, "pairing", "pairing is asked twice in a generation");
        }
        let pop = w.pop.clone();
        w.check_view(p, "pairing", &pop, &[]);
        w.check_reports(p, "pairing");
        w.in_gen = true;
        w.mutants.clear();
        w.evaluated.clear();
        w.brood = None;
        w.pre_done = 0;
        w.sel_done = 0;
        w.dead.clear();
        let n = p.len();
        let fams: Vec<Vec<usize>> = if n == 0 {
            vec![]
        } else {
            let l = n - 1;
            match w.cfg.fams {
                FamMode::Singles(k) => vec![vec![0]; k],
                FamMode::Menu => {
                    let m = n / 2;
                    let menu = vec![
                        vec![vec![0, l]],
                        vec![vec![l, 0], vec![0, m]],
                        vec![],
                        vec![vec![0], vec![l]],
                        vec![vec![0, l, m, 0]],
                        vec![vec![l, l], vec![l, l], vec![0, m, l]],
                    ];
                    menu[choose(menu.len())].clone()
                }
                FamMode::Big => {
                    let fam = |k: usize, from: usize| (0..k).map(|i| (from + i * i) % n).collect::<Vec<usize>>();
                    match choose(10) {
                        0 => vec![fam(17, 0), fam(33, 1)],
                        1 => vec![fam(300, 0)],
                        2 => (0..70).map(|i| fam(2, i)).collect(),
                        3 => (0..300).map(|i| fam(1, i)).collect(),
                        4 => (0..40).map(|i| fam(i + 1, i)).collect(),
                        5 => vec![fam(65, 0), fam(129, 2), fam(257, 3)],
                        6 => vec![fam(1100, 0)],
                        7 => (0..1100).map(|i| fam(2, i)).collect(),
                        8 => vec![fam(5000, 0)],
                        _ => (0..5000).map(|i| fam(2, i)).collect(),
                    }
                }
                FamMode::Free(f, k) => {
                    let c = 1 + choose(f);
                    (0..c)
                        .map(|_| {
                            let c = 1 + choose(k);
                            (0..c).map(|_| choose(n)).collect()
                        })
                        .collect()
                }
            }
        };
        w.families = fams.iter().map(|f| f.iter().map(|i| p[*i].get_chromosomes().id).collect()).collect();
        note!("families {:?} = {:?}", fams, w.families);
        fams
    }
}

struct Cr(Wr, u32);
impl Cross<Chr> for Cr {
    fn cross(&mut self, parents: &[&Chr]) -> Vec<Chr> {
        let mut w = self.0.borrow_mut();
        w.token(CROSS, self.1);
        let ids: Vec<u32> = parents.iter().map(|c| c.id).collect();
        match w.families.iter().position(|f| *f == ids) {
            Some(i) => {
                w.families.remove(i);
            }
            None => {
                if w.cfg.c02 {
                    fail!("cross", "crosses {:?}; families left to cross: {:?}", ids, w.families)
                }
            }
        }
        let menu = w.cfg.kids.clone();
        let n = menu[choose(menu.len())] as u32;
        let kids: Vec<u32> = (w.next_id..w.next_id + n).collect();
        w.next_id += n;
        w.children.extend(kids.iter());
        note!("cross {:?} -> {:?}", ids, kids);
        kids.into_iter().map(|id| Chr { id }).collect()
    }
}

struct Mu(Wr, u32);
impl Mutation<Chr> for Mu {
    fn mutation(&mut self, c: &Chr) -> Chr {
        let mut w = self.0.borrow_mut();
        w.token(MUT, self.1);
        match w.children.iter().position(|x| *x == c.id) {
            Some(i) => {
                w.children.remove(i);
            }
            None => {
                if w.cfg.c02 {
                    fail!("mutation", "mutates {} which is no unmutated child ({:?})", c.id, w.children)
                }
            }
        }
        let id = w.next_id;
        w.next_id += 1;
        w.mutants.push(id);
        Chr { id }
    }
}

struct Pb(Wr, u32, usize);
impl PreBirth<Chr> for Pb {
    fn pre_birth(&mut self, p: &Population<Chr>, new: &mut Vec<Chr>) {
        let mut w = self.0.borrow_mut();
        w.token(PRE, self.1);
        if w.cfg.c02 {
            ensure!(w.in_gen, "prebirth", "pre-birth step outside a generation");
            ensure!(w.pre_done == self.2, "prebirth", "pre-birth step {} applied after {} others", self.2, w.pre_done);
            ensure!(w.families.is_empty() && w.children.is_empty(), "prebirth", "pre-birth before all children are mutated");
        }
        let pop = w.pop.clone();
        w.check_view(p, "pre-birth", &pop, &[]);
        w.check_reports(p, "pre-birth");
        let have: Vec<u32> = new.iter().map(|c| c.id).collect();
        if w.cfg.c02 {
            match &w.brood {
                None => ensure!(
                    sorted(have.clone()) == sorted(w.mutants.clone()),
                    "prebirth",
                    "the first pre-birth step gets {:?} instead of the mutated children {:?}",
                    have,
                    w.mutants
                ),
                Some(b) => ensure!(have == *b, "prebirth", "pre-birth step {} gets {:?} instead of {:?}", self.2, have, b),
            }
        }
        let edits = w.cfg.edits;
        match choose(edits) {
            0 => {}
            1 => {
                if !new.is_empty() {
                    new.remove(0);
                }
            }
            2 => {
                let id = w.next_id;
                w.next_id += 1;
                new.insert(0, Chr { id });
            }
            3 => new.clear(),
            _ => {
                new.reverse();
                let id = w.next_id;
                w.next_id += 1;
                new.push(Chr { id });
            }
        }
        w.pre_done += 1;
        w.brood = Some(new.iter().map(|c| c.id).collect());
        note!("pre-birth step {} leaves {:?}", self.2, w.brood);
    }
}

struct Se(Wr, u32, usize);
impl Selection<Chr> for Se {
    fn kill(&mut self, p: &mut Population<Chr>) {
        let mut w = self.0.borrow_mut();
        w.token(SEL, self.1);
        if w.cfg.c02 {
            ensure!(w.in_gen, "selection", "selection step outside a generation");
            ensure!(w.sel_done == self.2, "selection", "selection step {} applied after {} others", self.2, w.sel_done);
        }
        w.before_selection();
        let mut want = w.pop.clone();
        want.extend_from_slice(&w.evaluated);
        let dead = w.dead.clone();
        w.check_view(p, "selection", &want, &dead);
        w.check_reports(p, "selection");
        w.sel_done += 1;
        let n = p.len();
        let victims: Vec<usize> = match w.cfg.kills {
            KillMode::None => vec![],
            KillMode::Subsets => (0..n).filter(|i| p[*i].is_alive() && choose(2) == 1).collect(),
            KillMode::Menu => match choose(5) {
                0 => vec![],
                1 => (0..n).collect(),
                2 => (0..n.min(1)).collect(),
                3 => (n.saturating_sub(1)..n).collect(),
                _ => (0..n).filter(|i| i % 2 == 0).collect(),
            },
        };
        for i in victims {
            w.dead.push(p[i].get_chromosomes().id);
            p[i].kill();
        }
        note!("selection step {} leaves dead {:?}", self.2, w.dead);
    }
}

struct St(Wr, u32);
impl StopChecker<Chr> for St {
    fn can_stop(&mut self, s: &dyn AlgorithmState<Chr>) -> bool {
        let mut w = self.0.borrow_mut();
        w.token(STOP, self.1);
        w.close_gen();
        w.check_best(s.get_best_solution().map(|x| (x.0.id, x.1)), "the stop criterion");
        if w.cfg.c02 {
            ensure!(
                s.get_iteration() == w.iteration,
                "iteration",
                "the stop criterion sees generation {} instead of {}",
                s.get_iteration(),
                w.iteration
            );
        }
        w.stop_saw.push((s.get_iteration(), best_of(s)));
        // not get_iteration(): the run ends even if the number is wrong
        w.iteration >= w.target
    }
}

struct Lo(Wr, u32, usize);
impl Logger<Chr> for Lo {
    fn start(&mut self, s: &dyn AlgorithmState<Chr>) {
        self.0.borrow_mut().event(self.2, self.1, Ev::Start, s)
    }
    fn resume(&mut self, s: &dyn AlgorithmState<Chr>) {
        self.0.borrow_mut().event(self.2, self.1, Ev::Resume, s)
    }
    fn next_iteration(&mut self, s: &dyn AlgorithmState<Chr>) {
        self.0.borrow_mut().event(self.2, self.1, Ev::Next, s)
    }
    fn finish(&mut self, s: &dyn AlgorithmState<Chr>) {
        self.0.borrow_mut().event(self.2, self.1, Ev::Finish, s)
    }
}

fn selections(w: &Wr, n: usize, t: u32) -> Vec<Box<dyn Selection<Chr>>> {
    (0..n).map(|i| Box::new(Se(w.clone(), t, i)) as Box<dyn Selection<Chr>>).collect()
}
fn pre_births(w: &Wr, n: usize, t: u32) -> Vec<Box<dyn PreBirth<Chr>>> {
    (0..n).map(|i| Box::new(Pb(w.clone(), t, i)) as Box<dyn PreBirth<Chr>>).collect()
}
fn loggers(w: &Wr, n: usize, t: u32) -> Vec<Box<dyn Logger<Chr>>> {
    (0..n).map(|i| Box::new(Lo(w.clone(), t, i)) as Box<dyn Logger<Chr>>).collect()
}

/// One execution: a run followed by `cfg.ops` further runs or resumptions, with replacements in between.
pub fn session(cfg: &Cfg) {
    let w: Wr = Rc::new(RefCell::new(W {
        cfg: cfg.clone(),
        next_id: 1,
        pop: vec![],
        iteration: 0,
        target: 0,
        in_gen: false,
        paired: false,
        families: VecDeque::new(),
        children: VecDeque::new(),
        mutants: vec![],
        brood: None,
        evaluated: vec![],
        highest: 0,
        creating: false,
        initial: vec![],
        pre_n: cfg.pre,
        pre_done: 0,
        sel_n: cfg.sel,
        sel_done: 0,
        dead: vec![],
        reported: None,
        creates: 0,
        evals: 0,
        tokens: [0; 7],
        n_log: cfg.loggers,
        events: vec![],
        stop_saw: vec![],
    }));
    let mut opt = GeneticOptimizer::new(
        Box::new(G(w.clone())),
        Box::new(St(w.clone(), 0)),
        Box::new(C(w.clone())),
        Box::new(Pa(w.clone(), 0)),
        Box::new(Cr(w.clone(), 0)),
        Box::new(Mu(w.clone(), 0)),
        selections(&w, cfg.sel, 0),
        pre_births(&w, cfg.pre, 0),
    );
    opt.set_loggers(loggers(&w, cfg.loggers, 0));
    for op in 0..=cfg.ops {
        let run = op == 0 || choose(2) == 0;
        if op > 0 && cfg.replace {
            let r = choose(9);
            let mut m = w.borrow_mut();
            let t = op as u32;
            let mut which = |slot: usize| -> bool {
                let yes = r == slot + 1 || r == 8;
                if yes {
                    m.tokens[slot] = t;
                }
                yes
            };
            let (a, b, c, d, e, f, g) = (which(0), which(1), which(2), which(3), which(4), which(5), which(6));
            if a {
                opt.set_pairing(Box::new(Pa(w.clone(), t)));
            }
            if b {
                opt.set_cross(Box::new(Cr(w.clone(), t)));
            }
            if c {
                opt.set_mutation(Box::new(Mu(w.clone(), t)));
            }
            if d {
                m.pre_n = [cfg.pre, cfg.pre + 1, 0][choose(3)];
                opt.set_pre_birth(pre_births(&w, m.pre_n, t));
            }
            if e {
                m.sel_n = [cfg.sel, cfg.sel + 1, 0][choose(3)];
                opt.set_selection(selections(&w, m.sel_n, t));
            }
            if f {
                opt.set_stop_checker(Box::new(St(w.clone(), t)));
            }
            if g {
                m.n_log = [cfg.loggers, cfg.loggers + 1, 0][choose(3)];
                opt.set_loggers(loggers(&w, m.n_log, t));
            }
            note!("replaced: {}", if r == 0 { "nothing" } else if r == 8 { "everything" } else { NAMES[r - 1] });
        }
        let len = cfg.lens[choose(cfg.lens.len())];
        let (creates, from);
        {
            let mut m = w.borrow_mut();
            if run {
                m.iteration = 0;
                m.pop.clear();
                m.evaluated.clear();
                m.initial.clear();
                m.creating = true;
                m.reported = None;
            }
            from = m.iteration;
            m.target = m.iteration + len;
            let n = m.n_log;
            m.events = vec![vec![]; n];
            m.stop_saw.clear();
            creates = m.creates;
        }
        note!("{} for {} generations", if run { "run" } else { "resume" }, len);
        let r = if run { opt.find_min() } else { opt.next_iterations() };
        let mut m = w.borrow_mut();
        m.close_gen();
        m.check_best(r.as_ref().map(|x| (x.0.id, x.1)), "the caller");
        if m.cfg.c02 {
            ensure!(
                m.creates == creates + run as usize,
                "create",
                "the creator is asked {} times in {}",
                m.creates - creates,
                if run { "a run" } else { "a resumption" }
            );
            ensure!(m.iteration == from + len, "generations", "{} generations instead of {}", m.iteration - from, len);
        }
        if m.cfg.c21 {
            let ret: Best = r.map(|(c, f)| (c.id, bits(f)));
            for (n, e) in m.events.iter().enumerate() {
                check_events(&format!("logger {}", n), e, run, from, m.iteration, &m.stop_saw, &ret);
            }
        }
    }
}

pub fn check_events<B: PartialEq + std::fmt::Debug>(who: &str, e: &[(Ev, usize, B)], run: bool, from: usize, to: usize, saw: &[(usize, B)], ret: &B) {
    let mut want = vec![];
    if run {
        want.push((Ev::Start, 0));
    }
    want.push((Ev::Resume, from));
    for i in from + 1..=to {
        want.push((Ev::Next, i));
    }
    want.push((Ev::Finish, to));
    let have: Vec<(Ev, usize)> = e.iter().map(|x| (x.0, x.1)).collect();
    ensure!(have == want, "events", "{} gets {:?} instead of {:?}", who, have, want);
    for x in e {
        let near = saw.get(x.1.wrapping_sub(from)).filter(|s| s.0 == x.1);
        if let Some(s) = near.or_else(|| saw.iter().find(|s| s.0 == x.1)) {
            ensure!(
                s.1 == x.2,
                "shown",
                "{} is shown {:?} at {:?} of iteration {}, the stop criterion {:?}",
                who,
                x.2,
                x.0,
                x.1,
                s.1
            );
        }
    }
    if let Some(l) = e.last() {
        ensure!(l.2 == *ret, "finish", "{} is shown {:?} at finish but {:?} is returned", who, l.2, ret);
    }
}
