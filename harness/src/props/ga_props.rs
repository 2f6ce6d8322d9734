use super::ga_env::*;
use super::Prop;
use crate::engine::*;

const INF: f64 = f64::INFINITY;
const NAN: f64 = f64::NAN;

fn task(name: &str, cfg: Cfg) -> Task {
    Task::new(name, move || session(&cfg))
}

pub const C01: Prop = Prop {
    id: "C01",
    tasks: c01,
    bounds: "initial populations of 0 to 3 and broods of 0 to 2 with every assignment of goal values from {1, 2, NaN, +inf, -inf, ...} and every set of killed individuals over 2 generations; sequences of up to 3 runs/resumptions; populations of 40 over 4 generations around pseudo-random default executions; 5 to 1100 selection and pre-birth steps; 70000 generations without individuals",
    assumptions: &["goal values outside the menu behave like those with the same order relations"],
};

fn c01(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    let base = Cfg { c01: true, ..Cfg::default() };
    let full = vec![1.0, 2.0, NAN, INF, -INF];
    for n in 0..=3 {
        for k in 0..=2 {
            v.push(task(
                &format!("values n={} brood={}", n, k),
                Cfg {
                    init: vec![n],
                    fams: FamMode::Singles(k),
                    goals: GoalMode::Menu(if n + k <= 3 { full.clone() } else { vec![1.0, 2.0, NAN] }),
                    kills: KillMode::Subsets,
                    lens: vec![if n + k <= 2 { 2 } else { 1 }],
                    ..base.clone()
                },
            ));
        }
    }
    // ties and signed zeros, order of individuals
    v.push(task(
        "five values, one generation",
        Cfg {
            init: vec![t.pick(4, 5)],
            fams: FamMode::Singles(0),
            goals: GoalMode::Menu(vec![1.0, 2.0, NAN, INF, -INF]),
            lens: vec![1],
            ..base.clone()
        },
    ));
    v.push(task(
        "many, order of values",
        Cfg {
            init: vec![t.pick(6, 7)],
            fams: FamMode::Singles(0),
            goals: GoalMode::Menu(vec![1.0, 2.0, 0.0, -1e300]),
            lens: vec![1],
            ..base.clone()
        },
    ));
    for (i, m) in super::ga_parts::fine_menus().into_iter().enumerate() {
        v.push(task(
            &format!("close values {}, two generations", i),
            Cfg {
                init: vec![2],
                fams: FamMode::Singles(1),
                goals: GoalMode::Menu(m.clone()),
                kills: KillMode::Menu,
                lens: vec![2],
                ..base.clone()
            },
        ));
        v.push(task(
            &format!("close values {}, one generation", i),
            Cfg { init: vec![t.pick(4, 5)], fams: FamMode::Singles(0), goals: GoalMode::Menu(m), lens: vec![1], ..base.clone() },
        ));
    }
    // several generations with extinction and recovery through pre-birth
    v.push(
        task(
            "extinction and recovery",
            Cfg {
                init: vec![1, 0, 2],
                pre: 1,
                edits: 5,
                goals: GoalMode::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.0, -0.0]),
                kills: KillMode::Menu,
                lens: vec![3, 1, 0],
                ..base.clone()
            },
        )
        .bound(t.pick(4, 5)),
    );
    v.push(
        task(
            "sequences of runs and resumptions",
            Cfg {
                init: vec![2, 0, 1],
                fams: FamMode::Singles(1),
                goals: GoalMode::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF]),
                kills: KillMode::Menu,
                lens: vec![1, 2, 0],
                ops: 2,
                loggers: 2,
                replace: true,
                ..base.clone()
            },
        )
        .bound(t.pick(4, 5)),
    );
    for s in 0..t.pick(4, 16) {
        v.push(
            task(
                &format!("larger populations {}", s),
                Cfg {
                    init: vec![40, 17, 33, 64],
                    fams: FamMode::Free(20, 3),
                    kids: vec![1, 2, 0],
                    pre: 1,
                    edits: 5,
                    sel: 2,
                    goals: GoalMode::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, -3.0, 1e-300, 1e300]),
                    kills: if s % 2 == 0 { KillMode::Subsets } else { KillMode::Menu },
                    lens: vec![4, 3, 5],
                    ops: 1,
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 1)
            .bound(1),
        );
    }
    for count in [5usize, 9, 20, 300, 1100] {
        v.push(
            task(
                &format!("{} selection steps and pre-birth steps", count),
                Cfg {
                    init: vec![6],
                    fams: FamMode::Singles(3),
                    kids: vec![1, 2],
                    pre: count,
                    edits: 5,
                    sel: count,
                    goals: GoalMode::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF]),
                    kills: KillMode::Menu,
                    lens: vec![2, 1],
                    ops: 1,
                    replace: true,
                    ..base.clone()
                },
            )
            .base(seed + count as u64)
            .bound(if count < 100 { 1 } else { 0 }),
        );
    }
    v.push(
        task(
            "70000 generations without individuals",
            Cfg { init: vec![0], fams: FamMode::Singles(1), lens: vec![70_000], goals: GoalMode::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF]), ..base.clone() },
        )
        .horizon(10_000_000)
        .bound(0),
    );
    for s in 0..t.pick(1, 4) {
        v.push(
            task(
                &format!("a very large population {}", s),
                Cfg {
                    init: vec![700],
                    fams: FamMode::Free(400, 4),
                    kids: vec![1, 2, 0],
                    sel: 1,
                    goals: GoalMode::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, -3.0, 1e-300, 1e300]),
                    kills: KillMode::Subsets,
                    lens: vec![3],
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 101)
            .bound(0),
        );
        v.push(
            task(
                &format!("a very long run {}", s),
                Cfg {
                    init: vec![3],
                    kids: vec![1, 2],
                    pre: 1,
                    edits: 5,
                    sel: 1,
                    goals: GoalMode::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, -3.0, 1e-300, 1e300]),
                    kills: KillMode::Subsets,
                    lens: vec![5000],
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 151)
            .bound(0),
        );
        v.push(
            task(
                &format!("a population of 5000 {}", s),
                Cfg {
                    init: vec![5000],
                    fams: FamMode::Free(4000, 4),
                    kids: vec![1, 2, 0],
                    sel: 1,
                    goals: GoalMode::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, -3.0, 1e-300, 1e300]),
                    kills: KillMode::Subsets,
                    lens: vec![2],
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 181)
            .horizon(10_000_000)
            .bound(0),
        );
        v.push(
            task(
                &format!("a population of 5000 different values {}", s),
                Cfg {
                    init: vec![5000],
                    fams: FamMode::Free(4000, 4),
                    kids: vec![1, 2, 0],
                    sel: 1,
                    goals: GoalMode::Unique,
                    kills: KillMode::Subsets,
                    lens: vec![2],
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 185)
            .horizon(10_000_000)
            .bound(0),
        );
        v.push(
            task(
                &format!("a population of 70000 {}", s),
                Cfg {
                    init: vec![70_000],
                    fams: FamMode::Singles(20),
                    kids: vec![1],
                    sel: 1,
                    goals: GoalMode::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, -3.0, 1e-300, 1e300]),
                    kills: KillMode::Subsets,
                    lens: vec![1],
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 191)
            .horizon(10_000_000)
            .bound(0),
        );
        v.push(
            task(
                &format!("a run of 70000 generations {}", s),
                Cfg {
                    init: vec![2],
                    fams: FamMode::Singles(1),
                    kids: vec![1, 2],
                    sel: 1,
                    goals: GoalMode::Menu(vec![2.0, 1.0, 3.0, NAN, INF, -INF, 0.5, 7.25, -3.0, 1e-300, 1e300]),
                    kills: KillMode::Subsets,
                    lens: vec![70_000],
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 201)
            .horizon(10_000_000)
            .bound(0),
        );
    }
    v
}

pub const C02: Prop = Prop {
    id: "C02",
    tasks: c02,
    bounds: "every family structure, brood size, brood edit and set of killed individuals for populations of up to 3 over 2 generations; sequences of up to 3 (4) runs and resumptions with replaced components within a deviation bound; families of up to 1100 parents, up to 1100 families and broods of up to 1100 from one family; larger populations around pseudo-random default executions; 5 to 1100 selection and pre-birth steps; 70000 generations without individuals",
    assumptions: &["goal functions and components depend on nothing but their arguments and the explorer's choices"],
};

fn c02(t: Tier, seed: u64) -> Vec<Task> {
    let mut v = Vec::new();
    let base = Cfg { c02: true, ..Cfg::default() };
    v.push(task(
        "family structures",
        Cfg { init: vec![3, 0, 1, 2], fams: FamMode::Menu, kids: vec![1, 2, 0], lens: vec![2], kills: KillMode::Menu, ..base.clone() },
    ));
    v.push(task(
        "free families",
        Cfg { init: vec![3], fams: FamMode::Free(2, 2), kids: vec![1, 2], lens: vec![1], pre: 1, edits: 2, ..base.clone() },
    ));
    v.push(task(
        "brood edits",
        Cfg { init: vec![2], fams: FamMode::Singles(2), kids: vec![1, 0, 2], pre: 2, edits: 5, lens: vec![1], sel: 0, ..base.clone() },
    ));
    v.push(task(
        "brood edits, two generations",
        Cfg { init: vec![2], fams: FamMode::Singles(1), kids: vec![1, 2], pre: 2, edits: 5, lens: vec![2], kills: KillMode::Menu, ..base.clone() },
    ));
    v.push(task(
        "killed individuals",
        Cfg {
            init: vec![2],
            fams: FamMode::Singles(1),
            goals: GoalMode::Menu(vec![1.0, NAN]),
            kills: KillMode::Subsets,
            sel: t.pick(1, 2),
            lens: vec![2],
            ..base.clone()
        },
    ));
    v.push(task(
        "two selection steps",
        Cfg { init: vec![t.pick(3, 4)], fams: FamMode::Singles(2), kills: KillMode::Subsets, sel: 2, lens: vec![1], ..base.clone() },
    ));
    v.push(
        task(
            "operation sequences with replacements",
            Cfg {
                init: vec![2, 3, 0],
                fams: FamMode::Menu,
                kids: vec![1, 2, 0],
                pre: 1,
                edits: 5,
                sel: 1,
                kills: KillMode::Menu,
                lens: vec![1, 2, 0],
                ops: t.pick(2, 3),
                replace: true,
                loggers: 2,
                ..base.clone()
            },
        )
        .bound(t.pick(3, 4)),
    );
    for s in 0..t.pick(4, 16) {
        v.push(
            task(
                &format!("larger populations {}", s),
                Cfg {
                    init: vec![40, 17, 33, 64],
                    fams: FamMode::Free(20, 3),
                    kids: vec![1, 2, 0, 5],
                    pre: 2,
                    edits: 5,
                    sel: 2,
                    goals: if s % 2 == 0 { GoalMode::Unique } else { GoalMode::Menu(vec![1.0, NAN, INF, -INF, 2.0]) },
                    kills: if s % 4 < 2 { KillMode::Subsets } else { KillMode::Menu },
                    lens: vec![4, 3, 5],
                    ops: 1,
                    replace: true,
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 1)
            .bound(1),
        );
    }
    v.push(
        task(
            "large families and broods",
            Cfg {
                init: vec![5, 1, 30],
                fams: FamMode::Big,
                kids: vec![1, 0, 2],
                pre: 1,
                edits: 2,
                kills: KillMode::Menu,
                lens: vec![1, 2],
                ..base.clone()
            },
        )
        .bound(t.pick(1, 2)),
    );
    v.push(
        task(
            "large broods from one family",
            Cfg {
                init: vec![5, 1, 30],
                fams: FamMode::Menu,
                kids: vec![33, 300, 1100, 0],
                pre: 1,
                edits: 2,
                kills: KillMode::Menu,
                lens: vec![1, 2],
                ..base.clone()
            },
        )
        .bound(t.pick(2, 3)),
    );
    for count in [5usize, 9, 20, 300, 1100] {
        v.push(
            task(
                &format!("{} selection steps and pre-birth steps", count),
                Cfg {
                    init: vec![6],
                    fams: FamMode::Singles(3),
                    kids: vec![1, 2],
                    pre: count,
                    edits: 5,
                    sel: count,
                    goals: GoalMode::Unique,
                    kills: KillMode::Menu,
                    lens: vec![2, 1],
                    ops: 1,
                    replace: true,
                    ..base.clone()
                },
            )
            .base(seed + count as u64)
            .bound(if count < 100 { 1 } else { 0 }),
        );
    }
    v.push(
        task(
            "70000 generations without individuals",
            Cfg { init: vec![0], fams: FamMode::Singles(1), lens: vec![70_000], goals: GoalMode::Unique, ..base.clone() },
        )
        .horizon(10_000_000)
        .bound(0),
    );
    for s in 0..t.pick(1, 4) {
        v.push(
            task(
                &format!("a very large population {}", s),
                Cfg {
                    init: vec![700],
                    fams: FamMode::Free(400, 4),
                    kids: vec![1, 2, 0],
                    sel: 1,
                    goals: GoalMode::Unique,
                    kills: KillMode::Subsets,
                    lens: vec![3],
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 101)
            .bound(0),
        );
        v.push(
            task(
                &format!("a very long run {}", s),
                Cfg {
                    init: vec![3],
                    kids: vec![1, 2],
                    pre: 1,
                    edits: 5,
                    sel: 1,
                    goals: GoalMode::Unique,
                    kills: KillMode::Subsets,
                    lens: vec![5000],
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 151)
            .bound(0),
        );
        v.push(
            task(
                &format!("a population of 5000 {}", s),
                Cfg {
                    init: vec![5000],
                    fams: FamMode::Free(4000, 4),
                    kids: vec![1, 2, 0],
                    sel: 1,
                    goals: GoalMode::Unique,
                    kills: KillMode::Subsets,
                    lens: vec![2],
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 181)
            .horizon(10_000_000)
            .bound(0),
        );
        v.push(
            task(
                &format!("a population of 70000 {}", s),
                Cfg {
                    init: vec![70_000],
                    fams: FamMode::Singles(20),
                    kids: vec![1],
                    sel: 1,
                    goals: GoalMode::Unique,
                    kills: KillMode::Subsets,
                    lens: vec![2],
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 191)
            .horizon(10_000_000)
            .bound(0),
        );
        v.push(
            task(
                &format!("a brood of 70000 {}", s),
                Cfg {
                    init: vec![2],
                    fams: FamMode::Singles(70_000),
                    kids: vec![1],
                    sel: 1,
                    goals: GoalMode::Unique,
                    kills: KillMode::Menu,
                    lens: vec![1],
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 196)
            .horizon(10_000_000)
            .bound(0),
        );
        v.push(
            task(
                &format!("a run of 70000 generations {}", s),
                Cfg {
                    init: vec![2],
                    fams: FamMode::Singles(1),
                    kids: vec![1, 2],
                    sel: 1,
                    goals: GoalMode::Unique,
                    kills: KillMode::Subsets,
                    lens: vec![70_000],
                    ..base.clone()
                },
            )
            .base(seed.wrapping_mul(1000) + s + 201)
            .horizon(10_000_000)
            .bound(0),
        );
    }
    v
}
