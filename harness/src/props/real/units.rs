//! Whole runs with coordinates measured in other units: C37.

use super::*;

pub const C37: Prop = Prop {
    id: "C37",
    tasks: c37,
    bounds: "18 component combinations (6 genetic with mean and geometric mean, 12 swarm), 1 to 4 coordinates, a run of 2 iterations and a resumption, and runs of 25 iterations of larger populations: every draw and goal value (ties, NaN, infinities) within 1 to 2 (2 to 3) deviations around pseudo-random default executions, each repeated in up to 10 systems of units (every coordinate in its own unit or all in the same one, powers of two up to 2^60 and 2^-60 for f32, 2^900 and 2^-900 for f64); f32 and f64",
    assumptions: &["components draw from rand::thread_rng", "units are powers of two, so the conversion itself rounds nothing"],
};

/// Systems of units as powers of two for each coordinate.
fn system(i: usize, dims: usize, own: bool, max: i32) -> Option<Vec<i32>> {
    let same = |e: i32| Some(vec![e; dims]);
    match i {
        0 => same(1),
        1 => same(-1),
        2 => same(max),
        3 => same(-max),
        4 => same(max / 5 + 1),
        5 => same(-max / 3 - 1),
        _ if !own || dims < 2 => None,
        6 => Some((0..dims as i32).map(|d| if d % 2 == 0 { max } else { -max }).collect()),
        7 => Some((0..dims as i32).map(|d| if d == dims as i32 - 1 { -max } else { 0 }).collect()),
        8 => Some((0..dims as i32).map(|d| 3 - 2 * d).collect()),
        9 => Some((0..dims as i32).map(|d| if d == 0 { max / 2 } else { -max / 4 }).collect()),
        _ => None,
    }
}

fn near(want: u64, got: u64, size: f64, tolerance: f64) -> bool {
    let (a, b) = (f64::from_bits(want), f64::from_bits(got));
    // compared in the original unit, where everything is far from the ends of the range
    a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tolerance * (a.abs() + size)
}

fn scaled<T: Re>(k: &Kind, goal: usize, menu: &[f64], lens: [usize; 2]) {
    let w = world(goal, menu);
    w.borrow_mut().record = true;
    let run = |w: &Wr| {
        w.borrow_mut().evals = 0;
        let mut o = build::<T>(w, k, criterion(w, 0));
        w.borrow_mut().target = lens[0];
        o.find_min();
        w.borrow_mut().target = lens[1];
        o.next_iterations()
    };
    let (_, values) = recorded(|| run(&w));
    let a = std::mem::take(&mut w.borrow_mut().trace);
    let goals: Vec<f64> = a.iter().filter_map(|e| if let Ev::Eval(_, v) = e { Some(f64::from_bits(*v)) } else { None }).collect();
    let single = T::epsilon() > T::of(1e-10);
    let (dims, own, max, tolerance) = match k {
        Kind::Ga(g) => (g.dims, true, [[900, 60], [20, 20]][(g.cross == 3) as usize][single as usize], if single { 1e-4 } else { 1e-11 }),
        Kind::Pso(p) => (p.dims, p.limiter != 2, [900, 60][single as usize], if single { 1e-4 } else { 1e-11 }),
    };
    for i in 0..10 {
        let units = match system(i, dims, own, max) {
            Some(e) => e,
            None => continue,
        };
        note!("units 2^{:?}", units);
        {
            let mut w = w.borrow_mut();
            w.units = units.iter().map(|e| 2f64.powi(*e)).collect();
            w.replay = Some(Rc::new(goals.clone()));
        }
        following(values.clone(), || run(&w));
        let factors = w.borrow().units.clone();
        w.borrow_mut().units = vec![];
        w.borrow_mut().replay = None;
        let b = std::mem::take(&mut w.borrow_mut().trace);
        // back to the original units
        let back = |x: &Vec<u64>| -> Vec<u64> { x.iter().enumerate().map(|(d, v)| bits(f64::from_bits(*v) / factors.get(d).copied().unwrap_or(1.0))).collect() };
        let best = |b: &Best| b.as_ref().map(|b| (back(&b.0), b.1));
        let b: Vec<Ev> = b
            .iter()
            .map(|e| match e {
                Ev::Eval(x, v) => Ev::Eval(back(x), *v),
                Ev::Start(i, s) => Ev::Start(*i, best(s)),
                Ev::Resume(i, s) => Ev::Resume(*i, best(s)),
                Ev::Next(i, s) => Ev::Next(*i, best(s)),
                Ev::Finish(i, s) => Ev::Finish(*i, best(s)),
                Ev::Check(i, s) => Ev::Check(*i, best(s)),
                Ev::Created => Ev::Created,
            })
            .collect();
        // coordinates that agree up to rounding count as equal
        let agree = |x: &Vec<u64>, y: &Vec<u64>| x.len() == y.len() && x.iter().zip(y).all(|(x, y)| near(*x, *y, 1.0, tolerance));
        let agree_best = |x: &Best, y: &Best| match (x, y) {
            (Some(x), Some(y)) => x.1 == y.1 && agree(&x.0, &y.0),
            (x, y) => x == y,
        };
        let same = |x: &Ev, y: &Ev| match (x, y) {
            (Ev::Eval(x, v), Ev::Eval(y, u)) => v == u && agree(x, y),
            (Ev::Start(i, x), Ev::Start(j, y))
            | (Ev::Resume(i, x), Ev::Resume(j, y))
            | (Ev::Next(i, x), Ev::Next(j, y))
            | (Ev::Finish(i, x), Ev::Finish(j, y))
            | (Ev::Check(i, x), Ev::Check(j, y)) => i == j && agree_best(x, y),
            (x, y) => x == y,
        };
        let c: Vec<Ev> = b.iter().enumerate().map(|(n, e)| if n < a.len() && same(&a[n], e) { a[n].clone() } else { e.clone() }).collect();
        diff(&a, &c, ["the run", "the run in other units, converted back"]);
    }
    state(format!("{:?}", w.borrow().last));
}

fn measured() -> Vec<(String, Kind)> {
    let mut v = vec![];
    for (name, k) in kinds() {
        match k {
            Kind::Ga(g) if g.cross < 2 => {}
            // flipped bits do not follow the unit
            Kind::Ga(g) => v.push((name, Kind::Ga(Ga { mutation: (0.0, 1), ..g }))),
            k => v.push((name, k)),
        }
    }
    v
}

fn c37(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    for (n, (name, k)) in measured().into_iter().enumerate() {
        let s = seed + 17 * n as u64;
        for m in 0..4 {
            let goal = (m + n) % 4;
            let s = s + goal as u64;
            both!(
                v,
                format!("{}, goal {}", name, goal),
                |x: Task| rich(x, s, t.pick(1, 2)),
                scaled(&k, goal, &[NAN, INF, 0.5, -INF], [2, 3])
            );
            both!(
                v,
                format!("{}, goal {}, sparse", name, goal),
                |x: Task| sparse(x, s + 7, if t == Tier::Quick && m > 0 { 1 } else { t.pick(2, 3) }),
                scaled(&k, goal, &[0.25, NAN], [1, 2])
            );
        }
        for i in 0..t.pick(16, 64) {
            let mut k = k;
            match &mut k {
                Kind::Ga(g) => {
                    g.init = 10 + n;
                    g.limit = 6 + n % 5;
                    g.dims = 1 + (n + i as usize) % 4;
                }
                Kind::Pso(p) => {
                    p.particles = 5 + n % 5;
                    p.dims = 1 + (n + i as usize) % 4;
                }
            }
            both!(
                v,
                format!("{}, larger {}", name, i),
                |x: Task| x.floats(&DRAWS).base(s + 100 + i).bound(0),
                scaled(&k, (n + i as usize) % 4, &[], [10, 25])
            );
        }
    }
    v
}
