//! C11, C12: the particle swarm against a reference swarm. C21: the events of both optimizers.

use super::ga_env;
use super::ga_parts::fine_menus;
use super::pso_env::*;
use super::Prop;
use crate::engine::*;

const INF: f64 = f64::INFINITY;
const NAN: f64 = f64::NAN;

fn task(name: &str, single: bool, cfg: Cfg) -> Task {
    if single {
        Task::new(format!("{} f32", name), move || session::<f32>(&cfg))
    } else {
        Task::new(format!("{} f64", name), move || session::<f64>(&cfg))
    }
}

pub const C11: Prop = Prop {
    id: "C11",
    tasks: c11,
    bounds: "every assignment of values from {1, 2, NaN, +inf, -inf, 0.5} to all evaluations of swarms of up to 4 particles over up to 4 iterations (as far as 10 evaluations, fewer values for more), sequences of up to 3 (4) runs and resumptions with replaced components and up to 3 (4) deviations, swarms of 40 over 5 iterations and 3 particles over 300 iterations around pseudo-random default executions, f32 and f64; 5 to 1100 corrections and post-move steps; 70000 iterations without particles",
    assumptions: &["goal values outside the menu behave like those with the same order relations"],
};

fn c11(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    let base = Cfg { c11: true, ..Cfg::default() };
    let menu = vec![2.0, 1.0, NAN, INF, -INF, 0.5];
    // (particles, iterations, number of values)
    let shapes: &[(usize, usize, usize)] = t.pick(
        &[(0, 3, 1), (1, 3, 6), (1, 5, 4), (1, 7, 3), (2, 2, 6), (2, 3, 4), (3, 1, 6), (3, 2, 4), (4, 1, 4), (5, 1, 3), (4, 2, 3)],
        &[(0, 5, 1), (1, 5, 6), (1, 7, 4), (2, 2, 6), (2, 3, 6), (2, 4, 4), (3, 1, 6), (3, 2, 6), (3, 3, 3), (4, 1, 6), (5, 1, 5), (4, 2, 4), (6, 1, 4)],
    );
    for &(n, len, k) in shapes {
        for order in 0..2 {
            let goals = match k {
                3 => vec![1.0, 2.0, NAN],
                4 => [vec![2.0, 1.0, NAN, 3.0], vec![2.0, INF, -INF, 1.0]][order].clone(),
                _ => menu[..k.max(1)].to_vec(),
            };
            if order == 1 && k != 4 {
                continue;
            }
            v.push(task(
                &format!("values, {} particles, {} iterations, menu {:?}", n, len, goals),
                order == 1,
                Cfg { particles: vec![n], lens: vec![len], goals: Values::Menu(goals), ..base.clone() },
            ));
        }
    }
    for (i, m) in fine_menus().into_iter().enumerate() {
        for (n, len) in [(1, t.pick(3, 4)), (2, 2), (3, 1)] {
            v.push(task(
                &format!("close values {}, {} particles, {} iterations", i, n, len),
                n == 2,
                Cfg { particles: vec![n], lens: vec![len], goals: Values::Menu(if n == 2 { m[..t.pick(4, m.len())].to_vec() } else { m.clone() }), ..base.clone() },
            ));
        }
    }
    for single in [false, true] {
        v.push(
            task(
                "sequences of runs and resumptions",
                single,
                Cfg {
                    particles: vec![2, 0, 1, 3],
                    dims: vec![2, 1, 3],
                    lens: vec![1, 2, 0, 3],
                    goals: Values::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.0, -0.0, -1e300]),
                    corrections: vec![0, 1],
                    moves: vec![0, 1],
                    overlap: true,
                    ops: t.pick(2, 3),
                    loggers: 2,
                    replace: true,
                    ..base.clone()
                },
            )
            .bound(t.pick(3, 4)),
        );
    }
    for s in 0..t.pick(6, 24) {
        v.push(
            task(
                &format!("larger swarms {}", s),
                s % 2 == 1,
                Cfg {
                    particles: vec![40, 17, 64],
                    dims: vec![2, 5],
                    lens: vec![5, 4, 8],
                    goals: Values::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, -3.0, 1e-300, 1e300, -1e300]),
                    moves: vec![1],
                    overlap: s % 3 == 0,
                    ops: 1,
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 1)
            .bound(1),
        );
        v.push(
            task(
                &format!("long runs {}", s),
                s % 2 == 1,
                Cfg {
                    particles: vec![3, 2, 1],
                    lens: vec![300],
                    goals: if s % 3 == 0 {
                        Values::Unique
                    } else {
                        Values::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, 4.0, 5.0, 6.0, 8.0])
                    },
                    ops: 1,
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 51)
            .bound(if s < 2 { 1 } else { 0 }),
        );
    }
    for count in [5usize, 9, 20, 300, 1100] {
        v.push(
            task(
                &format!("{} velocity corrections and post-move steps", count),
                count % 2 == 0,
                Cfg {
                    particles: vec![3],
                    dims: vec![2],
                    corrections: vec![count],
                    moves: vec![count, 0],
                    lens: vec![2, 1],
                    goals: Values::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF]),
                    ops: 1,
                    replace: true,
                    ..base.clone()
                },
            )
            .base(seed + count as u64)
            .bound(if count < 100 { 1 } else { 0 }),
        );
    }
    v.push(
        task("70000 iterations without particles", false, Cfg { particles: vec![0], lens: vec![70_000], goals: Values::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF]), ..base.clone() })
            .horizon(10_000_000)
            .bound(0),
    );
    for s in 0..t.pick(1, 4) {
        v.push(
            task(
                &format!("a very large swarm {}", s),
                s % 2 == 0,
                Cfg { particles: vec![700], dims: vec![3], lens: vec![3], goals: Values::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, -3.0, 1e-300, 1e300, -1e300]), ..base.clone() },
            )
            .base(seed.wrapping_mul(1000) + s + 101)
            .bound(0),
        );
        v.push(
            task(
                &format!("a very long run {}", s),
                s % 2 == 1,
                Cfg { particles: vec![2], dims: vec![2], lens: vec![3000], goals: Values::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, -3.0, 1e-300, 1e300, -1e300]), ..base.clone() },
            )
            .base(seed.wrapping_mul(1000) + s + 151)
            .bound(0),
        );
        v.push(
            task(
                &format!("many dimensions {}", s),
                false,
                Cfg { particles: vec![2], dims: vec![300], lens: vec![3], goals: Values::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, -3.0, 1e-300, 1e300, -1e300]), ..base.clone() },
            )
            .base(seed.wrapping_mul(1000) + s + 171)
            .bound(0),
        );
        v.push(
            task(
                &format!("a swarm of 5000 {}", s),
                s % 2 == 0,
                Cfg { particles: vec![5000], dims: vec![2], lens: vec![2], goals: Values::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, -3.0, 1e-300, 1e300, -1e300]), ..base.clone() },
            )
            .base(seed.wrapping_mul(1000) + s + 181)
            .horizon(10_000_000)
            .bound(0),
        );
        v.push(
            task(
                &format!("a swarm of 5000 different values {}", s),
                s % 2 == 0,
                Cfg { particles: vec![5000], dims: vec![2], lens: vec![2], goals: Values::Unique, ..base.clone() },
            )
            .base(seed.wrapping_mul(1000) + s + 185)
            .horizon(10_000_000)
            .bound(0),
        );
        v.push(
            task(
                &format!("a swarm of 70000 {}", s),
                s % 2 == 1,
                Cfg { particles: vec![70_000], dims: vec![1], lens: vec![1], goals: Values::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, -3.0, 1e-300, 1e300, -1e300]), ..base.clone() },
            )
            .base(seed.wrapping_mul(1000) + s + 191)
            .horizon(10_000_000)
            .bound(0),
        );
        v.push(
            task(
                &format!("a run of 70000 iterations {}", s),
                s % 2 == 0,
                Cfg { particles: vec![1], dims: vec![1], lens: vec![70_000], goals: Values::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, -3.0, 1e-300, 1e300, -1e300]), ..base.clone() },
            )
            .base(seed.wrapping_mul(1000) + s + 201)
            .horizon(10_000_000)
            .bound(0),
        );
    }
    v
}

pub const C12: Prop = Prop {
    id: "C12",
    tasks: c12,
    bounds: "every combination of 0 to 3 particles, 0 to 3 dimensions, 0 to 2 corrections, 0 to 2 post-move steps over up to 3 iterations; sequences of up to 3 (4) runs and resumptions with replaced components, complete for two operations and with up to 3 (5) deviations beyond; special coordinates and velocities (subnormal, infinite, NaN, extreme) in every combination for 2 coordinates or 2 iterations; swarms of 64 particles and 20 dimensions, of 700 particles, of 300 dimensions, runs of 3000 iterations; f32 and f64; 5 to 1100 corrections and post-move steps; 70000 iterations without particles",
    assumptions: &["a particle moves by the floating-point sum of coordinate and velocity"],
};

fn c12(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    let base = Cfg { c12: true, ..Cfg::default() };
    for (d, len) in [(1, 1), (1, 2), (2, 1), (2, 2)] {
        let few = d * len > 2 || d == 2 && t == Tier::Quick;
        v.push(Task::new(format!("special coordinates and velocities, {} dimensions, {} iterations f64", d, len), move || special_moves::<f64>(d, len, few)));
        v.push(Task::new(format!("special coordinates and velocities, {} dimensions, {} iterations f32", d, len), move || special_moves::<f32>(d, len, few)));
    }
    for single in [false, true] {
        v.push(task(
            "shapes",
            single,
            Cfg {
                particles: vec![0, 1, 2, 3, 4],
                dims: vec![1, 2, 3, 0, 4],
                corrections: vec![0, 1, 2, 3],
                moves: vec![0, 1, 2, 3],
                lens: vec![0, 1, 2, 3, 4],
                ..base.clone()
            },
        ));
        v.push(task(
            "goal values",
            single,
            Cfg {
                particles: vec![2],
                goals: Values::Menu(vec![1.0, 2.0, NAN, INF]),
                corrections: vec![2],
                moves: vec![2],
                lens: vec![2],
                ..base.clone()
            },
        ));
        v.push(task(
            "two operations",
            single,
            Cfg {
                particles: vec![2, 3],
                dims: vec![2],
                corrections: vec![1, 2],
                moves: vec![1, 0],
                lens: vec![1, 2, 0],
                ops: 1,
                replace: true,
                ..base.clone()
            },
        ));
        v.push(task(
            "overlapping positions",
            single,
            Cfg { particles: vec![2, 3], dims: vec![2], moves: vec![1], overlap: true, goals: Values::Unique, lens: vec![t.pick(2, 3)], ..base.clone() },
        ));
        v.push(
            task(
                "operation sequences with replacements",
                single,
                Cfg {
                    particles: vec![2, 3, 0, 1],
                    dims: vec![2, 1, 3],
                    goals: Values::Menu(vec![3.0, 1.0, 2.0, NAN, INF, -INF]),
                    corrections: vec![1, 0, 2],
                    moves: vec![1, 0, 2],
                    overlap: true,
                    lens: vec![1, 2, 0],
                    ops: t.pick(2, 3),
                    replace: true,
                    ..base.clone()
                },
            )
            .bound(t.pick(3, 4)),
        );
    }
    for s in 0..t.pick(6, 24) {
        v.push(
            task(
                &format!("larger swarms {}", s),
                s % 2 == 1,
                Cfg {
                    particles: vec![40, 17, 64],
                    dims: vec![2, 5, 20],
                    lens: vec![5, 4, 8],
                    goals: if s % 2 == 0 { Values::Unique } else { Values::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5]) },
                    corrections: vec![1, 3],
                    moves: vec![1, 2, 3],
                    ops: 1,
                    replace: true,
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 1)
            .bound(if s < 2 { 1 } else { 0 }),
        );
        v.push(
            task(
                &format!("long runs {}", s),
                false,
                Cfg {
                    particles: vec![3, 2, 1],
                    dims: vec![2],
                    moves: vec![1],
                    corrections: vec![1],
                    lens: vec![300],
                    overlap: true,
                    ops: 1,
                    replace: true,
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 51)
            .bound(if s < 2 { 1 } else { 0 }),
        );
    }
    for count in [5usize, 9, 20, 300, 1100] {
        v.push(
            task(
                &format!("{} velocity corrections and post-move steps", count),
                count % 2 == 0,
                Cfg {
                    particles: vec![3],
                    dims: vec![2],
                    corrections: vec![count],
                    moves: vec![count, 0],
                    lens: vec![2, 1],
                    goals: Values::Unique,
                    ops: 1,
                    replace: true,
                    ..base.clone()
                },
            )
            .base(seed + count as u64)
            .bound(if count < 100 { 1 } else { 0 }),
        );
    }
    v.push(
        task("70000 iterations without particles", false, Cfg { particles: vec![0], lens: vec![70_000], goals: Values::Unique, ..base.clone() })
            .horizon(10_000_000)
            .bound(0),
    );
    for s in 0..t.pick(1, 4) {
        v.push(
            task(
                &format!("a very large swarm {}", s),
                s % 2 == 1,
                Cfg { particles: vec![700], dims: vec![3], lens: vec![3], goals: Values::Unique, corrections: vec![1], moves: vec![2], ..base.clone() },
            )
            .base(seed.wrapping_mul(1000) + s + 101)
            .bound(0),
        );
        v.push(
            task(
                &format!("a very long run {}", s),
                s % 2 == 0,
                Cfg { particles: vec![2], dims: vec![2], lens: vec![3000], goals: Values::Unique, corrections: vec![1], moves: vec![2], ..base.clone() },
            )
            .base(seed.wrapping_mul(1000) + s + 151)
            .bound(0),
        );
        v.push(
            task(
                &format!("many dimensions {}", s),
                false,
                Cfg { particles: vec![2], dims: vec![300], lens: vec![3], goals: Values::Unique, corrections: vec![1], moves: vec![2], ..base.clone() },
            )
            .base(seed.wrapping_mul(1000) + s + 171)
            .bound(0),
        );
        v.push(
            task(
                &format!("a swarm of 5000 {}", s),
                s % 2 == 0,
                Cfg { particles: vec![5000], dims: vec![2], lens: vec![2], goals: Values::Unique, corrections: vec![1], moves: vec![2], ..base.clone() },
            )
            .base(seed.wrapping_mul(1000) + s + 181)
            .horizon(10_000_000)
            .bound(0),
        );
        v.push(
            task(
                &format!("a run of 70000 iterations {}", s),
                s % 2 == 0,
                Cfg { particles: vec![1], dims: vec![1], lens: vec![70_000], goals: Values::Unique, corrections: vec![1], moves: vec![2], ..base.clone() },
            )
            .base(seed.wrapping_mul(1000) + s + 201)
            .horizon(10_000_000)
            .bound(0),
        );
    }
    v
}

pub const C21: Prop = Prop {
    id: "C21",
    tasks: c21,
    bounds: "both optimizers with 0 to 3 loggers, segments of 0 to 3 iterations, every sequence of up to 3 runs and resumptions, with and without replacement of loggers and components between them; extinct and empty populations; 1100 loggers",
    assumptions: &["the stop criterion and the loggers are shown the same state object"],
};

fn c21(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    for loggers in 0..=3usize {
        let g = ga_env::Cfg {
            c21: true,
            loggers,
            init: vec![2],
            lens: vec![0, 1, 2, 3],
            ops: t.pick(2, 3),
            ..ga_env::Cfg::default()
        };
        v.push(Task::new(format!("genetic, {} loggers", loggers), {
            let c = g.clone();
            move || ga_env::session(&c)
        }));
        let c = ga_env::Cfg { replace: true, ops: t.pick(1, 2), lens: vec![1, 2, 0], ..g.clone() };
        v.push(Task::new(format!("genetic, {} loggers, replacements", loggers), move || ga_env::session(&c)));
        let c = ga_env::Cfg {
            init: vec![2, 0, 1],
            goals: ga_env::GoalMode::Menu(vec![1.0, 2.0, NAN]),
            kills: ga_env::KillMode::Menu,
            kids: vec![1, 0],
            replace: true,
            lens: vec![2, 1, 0],
            ..g
        };
        v.push(Task::new(format!("genetic, {} loggers, extinction", loggers), move || ga_env::session(&c)).bound(t.pick(3, 4)));
        let p = Cfg { c21: true, loggers, lens: vec![0, 1, 2, 3], ops: t.pick(2, 3), particles: vec![2], ..Cfg::default() };
        v.push(task(&format!("swarm, {} loggers", loggers), loggers % 2 == 1, p.clone()));
        let c = Cfg { replace: true, ops: t.pick(1, 2), lens: vec![1, 2, 0], ..p.clone() };
        v.push(task(&format!("swarm, {} loggers, replacements", loggers), loggers % 2 == 0, c));
        let c = Cfg {
            particles: vec![2, 0, 1],
            goals: Values::Menu(vec![1.0, 2.0, NAN]),
            replace: true,
            lens: vec![2, 1, 0],
            ..p
        };
        v.push(task(&format!("swarm, {} loggers, values", loggers), false, c).bound(t.pick(3, 4)));
    }
    for s in 0..2 {
        let c = ga_env::Cfg {
            c21: true,
            init: vec![20],
            fams: ga_env::FamMode::Menu,
            kills: ga_env::KillMode::Subsets,
            loggers: 12,
            lens: vec![70, 33],
            ops: 2,
            replace: true,
            ..ga_env::Cfg::default()
        };
        v.push(Task::new(format!("genetic, long {}", s), move || ga_env::session(&c)).base(seed + 7 + s).bound(0));
        let c = Cfg { c21: true, loggers: 12, lens: vec![70, 33], ops: 2, replace: true, particles: vec![5], ..Cfg::default() };
        v.push(task(&format!("swarm, long {}", s), s == 0, c).base(seed + 7 + s).bound(0));
    }
    let c = ga_env::Cfg { c21: true, init: vec![2], loggers: 2, lens: vec![3000], ops: 1, ..ga_env::Cfg::default() };
    v.push(Task::new("genetic, a very long run", move || ga_env::session(&c)).base(seed + 9).bound(0));
    let c = Cfg { c21: true, loggers: 2, lens: vec![3000], ops: 1, particles: vec![2], ..Cfg::default() };
    v.push(task("swarm, a very long run", false, c).base(seed + 9).bound(0));
    let c = Cfg { c21: true, loggers: 1100, lens: vec![2], ops: 1, replace: true, particles: vec![1], ..Cfg::default() };
    v.push(task("swarm, many loggers", false, c).base(seed + 9).bound(0));
    let c = ga_env::Cfg { c21: true, init: vec![2], loggers: 1100, lens: vec![2], ops: 1, replace: true, ..ga_env::Cfg::default() };
    v.push(Task::new("genetic, many loggers", move || ga_env::session(&c)).base(seed + 9).bound(0));
    v
}

pub const C13: Prop = Prop {
    id: "C13",
    tasks: c13,
    bounds: "the six memories and the four equations (ten parameter sets) at every velocity update: every assignment of values from {1, 2, NaN, +inf, -inf, 0.5} to all evaluations of up to 3 particles over up to 4 iterations (fewer values for more evaluations), sequences of up to 3 (4) runs and resumptions with up to 3 (4) deviations, swarms of up to 20 particles over 6 iterations; every combination of random factors 0, 1/2, 1 in every dimension (two dimensions for the six-term equation at 0 and 1); f32 and f64",
    assumptions: &["coordinates are finite", "the equations are linear in every random factor between the three enumerated ones"],
};

fn c13(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    let plain = Equations { factors: vec![1.0], calculators: vec![0, 1, 2, 3], memories: true };
    let base = Cfg { c13: Some(plain.clone()), corrections: vec![1], moves: vec![1], loggers: 0, ..Cfg::default() };
    let menu = vec![2.0, 1.0, NAN, INF, -INF, 0.5];
    let shapes: &[(usize, usize, usize)] = t.pick(
        &[(1, 3, 6), (1, 5, 4), (1, 7, 3), (2, 2, 4), (2, 3, 3), (3, 1, 4), (3, 2, 3), (4, 1, 3)],
        &[(1, 4, 6), (1, 6, 4), (1, 9, 3), (2, 2, 6), (2, 3, 4), (2, 5, 3), (3, 1, 6), (3, 2, 4), (3, 3, 3), (4, 1, 5), (4, 2, 3)],
    );
    for &(n, len, k) in shapes {
        let goals = match k {
            3 => vec![1.0, 2.0, NAN],
            4 => vec![2.0, 1.0, NAN, 3.0],
            _ => menu[..k].to_vec(),
        };
        v.push(task(
            &format!("values, {} particles, {} iterations, menu {:?}", n, len, goals),
            k % 2 == 1,
            Cfg { particles: vec![n], lens: vec![len], goals: Values::Menu(goals), ..base.clone() },
        ));
    }
    for (i, m) in fine_menus().into_iter().enumerate() {
        for (n, len) in [(1, t.pick(3, 4)), (2, 2)] {
            v.push(task(
                &format!("close values {}, {} particles, {} iterations", i, n, len),
                n == 2,
                Cfg { particles: vec![n], lens: vec![len], goals: Values::Menu(m[..t.pick(4, m.len())].to_vec()), ..base.clone() },
            ));
        }
    }
    for single in [false, true] {
        v.push(
            task(
                "sequences of runs and resumptions",
                single,
                Cfg {
                    particles: vec![2, 1, 3],
                    dims: vec![2, 1, 3],
                    lens: vec![1, 2, 0, 3],
                    goals: Values::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.0, -0.0, -1e300]),
                    corrections: vec![0, 1],
                    moves: vec![0, 1],
                    ops: t.pick(2, 3),
                    replace: true,
                    ..base.clone()
                },
            )
            .bound(t.pick(2, 4)),
        );
        for (name, dims, calculators, factors) in [
            ("factors", vec![1, 2], vec![0, 1, 2], vec![0.0, 0.5, 1.0]),
            ("factors, three dimensions", vec![3], vec![0, 1, 2], vec![0.0, 1.0]),
            ("factors, six terms", vec![1], vec![3], vec![0.0, 0.5, 1.0]),
            ("factors, six terms, two dimensions", vec![2], vec![3], vec![0.0, 1.0]),
        ] {
            let heavy = calculators == [3];
            v.push(task(
                name,
                single,
                Cfg {
                    c13: Some(Equations { factors, calculators, memories: false }),
                    particles: vec![2, 3],
                    dims,
                    // late enough for all memories to differ from the present position
                    lens: vec![if heavy { 5 } else { 3 }],
                    goals: if heavy { Values::Unique } else { Values::Menu(vec![2.0, 1.0]) },
                    ..base.clone()
                },
            ).bound(t.pick(1, 2)));
        }
    }
    for s in 0..t.pick(6, 24) {
        v.push(
            task(
                &format!("larger swarms {}", s),
                s % 2 == 1,
                Cfg {
                    particles: vec![20, 9, 5],
                    dims: vec![2, 4],
                    lens: vec![6, 4, 8],
                    goals: if s % 3 == 0 {
                        Values::Unique
                    } else {
                        Values::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, -3.0, 1e-300, 1e300, -1e300])
                    },
                    ops: 1,
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 1)
            .bound(t.pick((s < 3) as usize, 1)),
        );
    }
    for s in 0..t.pick(1, 4) {
        v.push(
            task(
                &format!("a very large swarm {}", s),
                s % 2 == 0,
                Cfg { particles: vec![300], dims: vec![3], lens: vec![3], goals: Values::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, -3.0, 1e-300, 1e300, -1e300]), ..base.clone() },
            )
            .base(seed.wrapping_mul(1000) + s + 101)
            .bound(0),
        );
        v.push(
            task(
                &format!("a very long run {}", s),
                s % 2 == 1,
                Cfg { particles: vec![2], dims: vec![2], lens: vec![300], goals: Values::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, -3.0, 1e-300, 1e300, -1e300]), ..base.clone() },
            )
            .base(seed.wrapping_mul(1000) + s + 151)
            .bound(0),
        );
        v.push(
            task(
                &format!("many dimensions {}", s),
                false,
                Cfg { particles: vec![2], dims: vec![300], lens: vec![3], goals: Values::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, -3.0, 1e-300, 1e300, -1e300]), ..base.clone() },
            )
            .base(seed.wrapping_mul(1000) + s + 171)
            .bound(0),
        );
        v.push(
            task(
                &format!("a swarm of 5000 {}", s),
                s % 2 == 0,
                Cfg { particles: vec![5000], dims: vec![1], lens: vec![2], goals: Values::Unique, ..base.clone() },
            )
            .base(seed.wrapping_mul(1000) + s + 181)
            .horizon(10_000_000)
            .bound(0),
        );
        v.push(
            task(
                &format!("a run of 5000 iterations {}", s),
                s % 2 == 0,
                Cfg { particles: vec![1], dims: vec![1], lens: vec![5000], goals: Values::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, -3.0, 1e-300, 1e300, -1e300]), ..base.clone() },
            )
            .base(seed.wrapping_mul(1000) + s + 201)
            .horizon(10_000_000)
            .bound(0),
        );
    }
    v
}
