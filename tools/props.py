"""The property list. `python3 tools/gen.py` writes properties.jsonl and MANIFEST.json from it."""
G = "optlib/src/genetic/"
P = "optlib/src/particleswarm/"
T = "optlib/src/tools/"

PROPS = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None,
         technique="", level_note=""):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism],
               "hook_needed": None}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        anchors["observe_at"] = observe
    PROPS.append({
        "rec": {"id": id, "title": title, "statement": statement,
                "quantifier": {"over": over, "text": qtext},
                "why_tests_cant": why, "anchors": anchors},
        "technique": technique, "level_note": level_note})


prop("C01", "The genetic optimizer reports the true best of the generation it kept",
     "After every completed generation, the solution a genetic run exposes to loggers, stop criteria, its components and the caller is an individual that survived that generation, paired with exactly the value the goal function returned for it, and no survivor has a smaller goal value (NaN counts as larger than everything). The individual exposed as worst is likewise a survivor, and no survivor has a larger non-NaN goal value. A generation that leaves no survivors keeps the previous report in force, and a run in which no generation had survivors reports no solution.",
     ["histories", "inputs"],
     "every goal function (finite, equal, infinite, NaN values), every outcome of pairing, crossing, mutation, pre-birth and selection, every generation of every sequence of runs and resumptions",
     "The existing tests only look at the final answer of long random runs on smooth positive functions, where a stale or mismatched best individual still converges.",
     [G + "mod.rs"],
     [("update_best_worst_individuals", G + "mod.rs"), ("individuals_min_cmp / individuals_max_cmp", G + "mod.rs"), ("Population::reset", G + "mod.rs")],
     [("best_individual / worst_individual", "cached best and worst of the last generation", G + "mod.rs")],
     ["AlgorithmState::get_best_solution", "Population::get_best/get_worst", "find_min / next_iterations return value"])

prop("C02", "A genetic generation conserves and evaluates individuals exactly once",
     "A run evaluates every chromosome of the creator exactly once as its initial population. In every generation each family chosen by pairing is crossed exactly once with the chosen parents in the chosen order, every child is mutated exactly once, the pre-birth steps are applied in configured order to the whole brood, and every chromosome they leave is evaluated exactly once and joins the population. The next generation is exactly the set of old and new individuals that no selection step killed, with chromosomes and goal values unchanged, every selection step being applied once in configured order to the whole population, and the generation number grows by one; a component replaced between runs is used from then on, and the replaced one is never consulted again.",
     ["histories", "inputs"],
     "every family structure, brood size, pre-birth edit, set of killed individuals and goal values, over sequences of runs, resumptions and component replacements",
     "No test looks at populations between generations; losing, duplicating or re-evaluating individuals only slows convergence.",
     [G + "mod.rs"],
     [("GeneticOptimizer::next_iterations", G + "mod.rs"), ("run_pairing", G + "mod.rs"), ("Population::append / remove_dead", G + "mod.rs"), ("set_* component setters", G + "mod.rs")],
     [("individuals", "the current population", G + "mod.rs")],
     ["Population seen by Pairing, PreBirth and Selection", "calls of Goal::get"])

prop("C03", "Limiting the population kills exactly the worst surplus individuals",
     "Limiting a population to N individuals kills exactly as many living individuals as exceed N (none if there is no excess), and never one whose goal value is better than that of a living individual it spares (NaN counts as worst). Individuals that are already dead are neither counted nor revived. Killing the worst k individuals kills min(k, living) of them by the same rule.",
     ["inputs", "configurations"],
     "every order and every ties/NaN/infinity pattern of goal values, every set of already dead individuals, every limit or count",
     "No unit test covers selection; the convergence tests tolerate the wrong individuals being killed.",
     [G + "selection/mod.rs"],
     [("LimitPopulation::kill", G + "selection/mod.rs"), ("kill_worst", G + "selection/mod.rs"), ("Population::len_alive", G + "mod.rs")],
     None, ["Individual::is_alive after Selection::kill"])

prop("C04", "Genetic runs with limited population are elitist and never outgrow the limit",
     "In a genetic run whose selection steps are the library's filters followed by a population limit of N >= 1, no generation has more than N survivors. From the first generation with a finite report on, the reported best goal value never gets worse, and it is never worse than the best individual the filters admit among the previous survivors and the newborns. This holds whatever pairing, crossing, mutation and their randomness produce.",
     ["histories", "inputs"],
     "every random outcome of the library's own pairing, crossing and mutation operators and every goal function (including NaN and infinite values), over several generations",
     "The convergence tests accept any run that ends near the optimum; a lost best individual is re-found by chance.",
     [G + "mod.rs", G + "selection/mod.rs", G + "selection/vec_float.rs"],
     [("LimitPopulation / kill_worst", G + "selection/mod.rs"), ("KillFitnessNaN", G + "selection/mod.rs"), ("remove_dead, update_best_worst_individuals", G + "mod.rs")],
     None, ["Logger::next_iteration state per generation"])

prop("C05", "Filters kill exactly the individuals they are specified to kill",
     "The fitness filter kills exactly the individuals whose goal value is NaN or infinite; interval selection kills exactly the individuals with some gene that is not finite or lies outside its own closed interval. The interval pre-birth check removes exactly the chromosomes with such a gene from the brood and leaves the others unchanged, in order. No filter revives a dead individual or changes chromosomes or goal values.",
     ["inputs", "configurations"],
     "every gene vector including bounds, values just outside, NaN and infinities, for f32 and f64, different intervals per gene, every population and brood shape and every set of already dead individuals",
     "No unit test covers the filters; random tests hardly ever produce boundary or non-finite genes at chosen positions.",
     [G + "selection/mod.rs", G + "selection/vec_float.rs", G + "pre_birth/vec_float.rs"],
     [("KillFitnessNaN::kill", G + "selection/mod.rs"), ("CheckChromoInterval::kill", G + "selection/vec_float.rs"), ("CheckChromoInterval::pre_birth", G + "pre_birth/vec_float.rs")])

prop("C06", "Pairing selects the configured families by fair tournaments",
     "Random pairing forms floor(n/2) pairs, each partner uniformly and independently drawn from the n individuals. Tournament pairing forms the configured number of families of the configured number of partners, each partner being the fittest (NaN counts as worst) of rounds+1 uniformly and independently drawn individuals. Every returned index refers to an individual of the population, and an empty population yields no families.",
     ["inputs", "configurations", "histories"],
     "every sequence of random draws for small populations, every goal value pattern with ties and NaN, every number of families, partners and rounds up to the bound",
     "Draws are random and unseeded; no test observes pairing, and a biased or inverted tournament still converges.",
     [G + "pairing/mod.rs"],
     [("RandomPairing::get_pairs", G + "pairing/mod.rs"), ("Tournament::get_pairs", G + "pairing/mod.rs")])

prop("C07", "Bitwise crossover takes each bit from the right parent",
     "Single-point crossing at an interior position p returns the value whose p low bits come from the second parent and whose remaining bits come from the first, for every supported integer width and both float types. The bitwise operator applies it to both parents at a uniformly drawn interior position. The exponent/mantissa operator crosses integer mantissa and exponent this way at independent uniformly drawn interior positions and takes the sign of either parent with equal chance, so normal equal parents reproduce themselves.",
     ["inputs", "histories"],
     "every parent pair (exhaustive for 8 bit, bit-pattern families for wider types) and every crossing position / every random draw of the operators",
     "The doc-tests check a handful of positions on all-zero/all-one words; the operators themselves are untested because they draw at random.",
     [G + "cross/mod.rs"],
     [("cross_u8..cross_f64", G + "cross/mod.rs"), ("CrossBitwise", G + "cross/mod.rs"), ("FloatCrossExp", G + "cross/mod.rs")])

prop("C08", "Averaging and vector crossover combine the parents gene by gene",
     "Arithmetic-mean crossing returns one child equal to the arithmetic mean of all parents, and geometric-mean crossing of positive parents returns one child equal to their geometric mean, up to rounding, for any number of parents from two whose sum (product) is representable. Vector crossing of two parents returns one child of the same length whose i-th gene is the single-gene crossing of the parents' i-th genes, in parent order.",
     ["inputs", "configurations"],
     "every tuple of parent genes from the value menu, 2 to 4 parents, f32/f64/integers; every vector length up to the bound and every single-gene operator",
     "Doc-tests check a few pairs, and the geometric-mean ones compare with a one-sided difference that any smaller value passes.",
     [G + "cross/mod.rs"],
     [("CrossMean", G + "cross/mod.rs"), ("FloatCrossGeometricMean", G + "cross/mod.rs"), ("VecCrossAllGenes", G + "cross/mod.rs")])

prop("C09", "Mutation flips the configured random bits and leaves other genes alone",
     "Bitwise mutation with change count k returns the gene with k independently and uniformly drawn bit positions toggled (a position drawn twice is restored), over the whole width of the float. Vector mutation keeps the number and order of the genes and replaces each gene by its single-gene mutation independently with the configured probability in percent, leaving every other gene bit-identical; 0 percent never mutates and 100 percent always does.",
     ["inputs", "histories"],
     "every sequence of random draws, every change count up to the bound, f32 and f64, every probability of the menu, gene vectors up to the bound",
     "There is no mutation test at all, and its effect on convergence is statistical.",
     [G + "mutation/mod.rs"],
     [("BitwiseMutation", G + "mutation/mod.rs"), ("VecMutation", G + "mutation/mod.rs")])

prop("C10", "Random initial points have the configured count, shape and bounds",
     "The random creator of the genetic algorithm and the random coordinate and velocity initializers of the particle swarm return exactly the configured number of points, each with one value per interval, and the i-th value always lies within the i-th closed interval, for float and integer gene types. Every part of each interval can be drawn and each value is drawn independently. The zero velocity initializer returns the configured number of all-zero vectors of the configured dimension.",
     ["inputs", "configurations", "histories"],
     "every draw of the random source (lowest, highest and intermediate raw values at every position), every interval of the menu, counts and dimensions up to the bound, repeated calls",
     "The tests sample three intervals at random with f64; extreme draws and other types are never produced.",
     [G + "creation/vec_float.rs", T + "mod.rs", P + "initializing/mod.rs"],
     [("RandomCreator::create", G + "creation/vec_float.rs"), ("RandomVectorCreator::create_vec", T + "mod.rs"), ("initializers", P + "initializing/mod.rs")])

prop("C11", "The particle swarm reports the best point it ever evaluated in the run",
     "At every iteration boundary and as the final result, the solution a swarm run exposes is a point evaluated in this run paired with exactly the goal value returned for it, and no point evaluated in this run so far has a smaller finite value. A non-finite value is reported only if no finite value has been seen. With no particles, no solution is reported.",
     ["histories", "inputs"],
     "every sequence of goal values (ties, NaN, infinities) over particles and iterations, every sequence of runs and resumptions",
     "No end-to-end swarm run is tested at all; the unit tests cover one static list of two particles.",
     [P + "mod.rs"],
     [("update_best_particle", P + "mod.rs"), ("replace_particles / reset", P + "mod.rs"), ("compare_floats", P + "mod.rs")],
     [("best_particle", "best particle seen in the run", P + "mod.rs")],
     ["AlgorithmState::get_best_solution", "find_min / next_iterations return value"])

prop("C12", "Each swarm iteration moves and evaluates every particle exactly once",
     "A swarm run starts by passing every initial coordinate vector through the post-move steps and evaluating it once. In every iteration each particle gets one new velocity from the velocity calculator, corrected by every velocity correction in configured order, moves from its own current position by exactly that velocity, has the new position corrected by every post-move step in configured order, and is evaluated exactly once at the resulting position, which with its value becomes the particle's state. The corrected velocity is the particle's velocity in its next update, and the iteration number grows by one.",
     ["histories", "inputs", "configurations"],
     "every velocity, correction and goal value sequence over particles, dimensions and iterations, with any number of correction steps, across runs and resumptions",
     "The particle swarm optimizer itself is not run by any reliable test.",
     [P + "mod.rs"],
     [("next_iterations", P + "mod.rs"), ("renew_swarm", P + "mod.rs"), ("Particle::move_to / set_velocity", P + "mod.rs")],
     [("particles", "positions, velocities and values", P + "mod.rs")],
     ["VelocityCalculator / PostVelocityCalc / PostMove / Goal call arguments", "AgentsState::get_agents"])

prop("C13", "Velocity updates follow the documented equations and memories",
     "Each velocity calculator returns, in every dimension, the value of its documented equation with an independent random factor in [0, 1] per attraction term. In it, the personal best (worst) is the particle's best (worst) evaluated position of this run, the global best (worst) is the best (worst) position any particle had evaluated up to the end of the previous iteration, and the current best (worst) is taken over the particles' present positions; non-finite goal values count as worst. The inertia calculator uses the inertia coefficient of the current iteration number.",
     ["histories", "inputs", "configurations"],
     "every history of positions and goal values of the swarm up to the bound, every corner of the random factors' cube, every dimension and parameter set of the menu, f32 and f64",
     "No test calls any velocity calculator.",
     [P + "velocitycalc/mod.rs", P + "mod.rs"],
     [("ClassicVelocityCalculator, CanonicalVelocityCalculator, NegativeReinforcement, InertiaVelocityCalculator", P + "velocitycalc/mod.rs"), ("Particle::move_to personal best/worst", P + "mod.rs"), ("update_best_particle / update_worst_particle", P + "mod.rs")],
     [("best_personal_*, worst_personal_*", "per-particle memory", P + "mod.rs"), ("best_particle / worst_particle", "swarm memory", P + "mod.rs")])

prop("C14", "The inertia schedule stays on its configured path",
     "Constant inertia returns its coefficient for every iteration number. Linear inertia returns w_max at iteration 0 and w_min at iteration t_max, is exactly linear in between, and stays at w_min afterwards, so the coefficient never leaves [w_min, w_max].",
     ["inputs", "configurations"],
     "every iteration number up to beyond t_max, every (w_min, w_max, t_max) of the menu, f32 and f64, in any order of queries",
     "No test covers inertia.",
     [P + "velocitycalc/mod.rs"],
     [("LinearInertia::get", P + "velocitycalc/mod.rs"), ("ConstInertia::get", P + "velocitycalc/mod.rs")])

prop("C15", "Boundary correction and teleport put particles where they are documented to",
     "Boundary correction leaves every coordinate inside its own closed interval: a coordinate already inside is unchanged, a finite one outside moves to the nearer bound, and a NaN or infinite one ends inside the interval. Random teleport moves a particle with exactly the configured probability (never at 0, always at 1), to a point drawn independently per coordinate and uniformly over the coordinate's own interval, and otherwise leaves it unchanged.",
     ["inputs", "configurations", "histories"],
     "every coordinate vector of the menu (bounds, just outside, huge, NaN, infinite) per dimension, every random draw, every probability of the menu, f32 and f64",
     "The tests check a few finite f32 points; teleport is untested.",
     [P + "postmove/mod.rs"],
     [("MoveToBoundary::post_move", P + "postmove/mod.rs"), ("RandomTeleport::post_move", P + "postmove/mod.rs")])

prop("C16", "Velocity limiters enforce their limits without changing direction",
     "The per-dimension limiter returns each velocity component unchanged if its magnitude is within that dimension's limit and otherwise the limit with the component's sign, also for infinite components. The modulus limiter returns the velocity unchanged if its Euclidean norm is within the limit and otherwise a vector of the same direction whose norm equals the limit up to rounding, for every finite velocity whose norm is representable.",
     ["inputs", "configurations"],
     "every velocity vector of the menu (zero, at the limit, just above, huge, tiny, mixed signs) up to the dimension bound, every limit of the menu, f32 and f64",
     "The tests check one vector per case at ordinary magnitudes.",
     [P + "postvelocitycalc/mod.rs"],
     [("MaxVelocityDimensions", P + "postvelocitycalc/mod.rs"), ("MaxVelocityAbs", P + "postvelocitycalc/mod.rs")])

prop("C17", "Stop criteria stop exactly when their condition is met",
     "The iteration limit stops a run exactly when the iteration number has reached the limit; the goal threshold stops it exactly when a solution is reported with a value not above the threshold. The no-change criterion stops exactly when, since the last iteration of this run at which the best value moved by more than delta from the value it had at the previous such iteration, more than the configured number of iterations have passed; without a reported solution it does not stop. A criterion used again for a new run judges that run by its own history only, and never fails.",
     ["histories", "inputs", "configurations"],
     "every sequence of reported best values (ties, changes of exactly delta, infinities, NaN, no solution) and iteration numbers up to the depth bound, over one or several runs, pauses and resumptions, every limit/delta of the menu",
     "The stop criteria have no unit tests; a criterion used for a second run is only exercised with fresh random data.",
     [T + "stopchecker/mod.rs"],
     [("MaxIterations", T + "stopchecker/mod.rs"), ("Threshold", T + "stopchecker/mod.rs"), ("GoalNotChange", T + "stopchecker/mod.rs")],
     [("old_goal, change_iter", "memory of the no-change criterion", T + "stopchecker/mod.rs")])

prop("C18", "Composite stop criteria are the plain AND / OR of their members",
     "At every check, the any-composite answers stop exactly if at least one of its members would stop given the same history of the run on its own, and the all-composite exactly if every member would. The answer therefore does not depend on the order of the members, on nesting, or on what the other members answered earlier.",
     ["histories", "configurations"],
     "every history of member answers and of optimizer states up to the depth bound, every order and nesting of members including history-keeping ones",
     "Composites have no unit tests, and the convergence tests use a single order.",
     [T + "stopchecker/mod.rs"],
     [("CompositeAny::can_stop", T + "stopchecker/mod.rs"), ("CompositeAll::can_stop", T + "stopchecker/mod.rs")])

prop("C19", "A new run on a used optimizer behaves like a run on a fresh one",
     "Starting a new minimization on an optimizer that has already completed, paused or resumed earlier runs gives the same sequence of evaluated points, reported states and result as on a newly built optimizer with the same components, goal function and random draws. This holds for the genetic and the particle swarm optimizer, including reused stop criteria.",
     ["histories", "inputs"],
     "every earlier history up to the bound and every random draw (within the deviation bound) of the new run, with the library's own components",
     "Only one test calls find_min twice, with different random draws, so leaks between runs are invisible to it.",
     [G + "mod.rs", P + "mod.rs", T + "stopchecker/mod.rs"],
     [("Population::reset", G + "mod.rs"), ("Swarm::reset / renew_swarm", P + "mod.rs"), ("GoalNotChange state", T + "stopchecker/mod.rs")])

prop("C20", "Pausing and resuming does not change the course of a run",
     "Running an optimizer to iteration a, replacing the stop criterion and resuming to iteration b evaluates the same points, passes through the same reported states and returns the same result as running straight to iteration b with the same random draws. The initial population or swarm is not recreated or re-evaluated on resumption, and the iteration number continues to count.",
     ["histories", "inputs"],
     "every split of a run into up to three segments, and every random draw (within the deviation bound), for the genetic and the particle swarm optimizer with the library's own components",
     "No test resumes a run; the iterative examples are only compiled.",
     [G + "mod.rs", P + "mod.rs"],
     [("IterativeOptimizer::next_iterations", G + "mod.rs"), ("IterativeOptimizer::next_iterations", P + "mod.rs")])

prop("C21", "Loggers see a run as start, resume, one event per iteration, finish",
     "In every minimization each configured logger receives exactly one start, then one resume, then one event per completed iteration with consecutive iteration numbers, then one finish; a resumption delivers the same without start. Each event shows the state as it is at that moment: iteration 0 at start, the just completed iteration afterwards, and at finish exactly the solution that is returned. Replaced loggers receive nothing more.",
     ["histories", "configurations"],
     "every sequence of runs, resumptions and logger replacements up to the depth bound, every number of loggers and of iterations per segment, for both optimizers",
     "Loggers are only used through the statistics logger in single and double runs without resumption.",
     [G + "mod.rs", P + "mod.rs", T + "logging/mod.rs"],
     [("find_min / next_iterations logger calls", G + "mod.rs"), ("find_min / next_iterations logger calls", P + "mod.rs")])

prop("C22", "Statistics hold one result and one convergence line per run",
     "After any sequence of runs, pauses and resumptions recorded by a statistics logger, the run count equals the number of runs started, the i-th result is the solution the i-th run last returned, and the i-th convergence line holds the solution reported after each of that run's iterations in order; a search already under way when the logger of empty statistics is attached counts as a run from there on. Uniting two statistics appends the runs of the second after those of the first, keeping results and convergence lines aligned.",
     ["histories"],
     "every sequence of runs and resumptions (with or without solutions, of any length including zero iterations) up to the depth bound, on both optimizers, every way of splitting the runs over statistics objects and uniting them",
     "The tests record one or two complete runs and unite hand-filled objects; a resumed run is never recorded.",
     [T + "statistics/mod.rs"],
     [("StatisticsLogger", T + "statistics/mod.rs"), ("Statistics::unite / add_result / add_convergence", T + "statistics/mod.rs")],
     [("results, convergence", "per-run records", T + "statistics/mod.rs")])

prop("C23", "Statistical functions compute their documented values on every sample",
     "Over the runs that found a solution, the average and the sample standard deviation (n-1) of goal values and of solution coordinates equal their mathematical definition up to rounding, and are absent if there is no solution (fewer than two for the deviation). The success rate is the number of solutions satisfying the predicate divided by the number of all runs, absent without runs; the goal predicate accepts exactly values closer than delta to the expected one, the solution predicate exactly points each of whose coordinates differs by at most its delta (NaN never succeeds). The average convergence has the length of the shortest run and holds, per iteration, the mean over the runs that had a solution there, or nothing if none had.",
     ["inputs"],
     "every list of optional solutions up to the length and dimension bound over the value menu, every position of missing solutions, f32 and f64, every run length pattern",
     "The unit tests check about forty hand-picked lists.",
     [T + "statistics/mod.rs"],
     [("StatFunctionsGoal, StatFunctionsSolution, StatFunctionsConvergence", T + "statistics/mod.rs"), ("get_predicate_success_goal / get_predicate_success_vec_solution", T + "statistics/mod.rs")])

prop("C24", "The call counter counts every goal evaluation of the run it belongs to",
     "A counted goal function returns exactly what the wrapped one returns for the same point, calls it once per evaluation, and adds one to the current run's count each time. The counters list one number per announced run (an unannounced first count opens a run), are changed only in the current run, are appended run by run when united, and their average is the total divided by the number of runs, absent without runs.",
     ["histories", "inputs"],
     "every sequence of announcing runs, evaluating, incrementing, adding and uniting up to the depth bound; complete runs of both optimizers",
     "The tests check single steps; counting through a goal function is never tested.",
     [T + "statistics/mod.rs"],
     [("CallCountData", T + "statistics/mod.rs"), ("GoalCalcStatistics::get", T + "statistics/mod.rs")],
     [("call counts", "one counter per run", T + "statistics/mod.rs")])

prop("C25", "Text loggers write exactly the state they are shown",
     "The verbose logger writes one line per iteration with a reported solution, holding the iteration number, every coordinate and the goal value with the configured number of decimals; the result logger writes, at each finish only, every coordinate and the goal value of the reported solution with that precision (or that no solution was found) and the iteration count. The time logger writes, at each finish only, the whole milliseconds passed since the latest resume. Output reaches the writer completely and in order even if it accepts only part of the data per call or is interrupted.",
     ["histories", "fault_sequences", "inputs"],
     "every sequence of runs and resumptions up to the bound, solutions with any number of coordinates and special values, every precision of the menu, every pattern of short and interrupted writes within the deviation bound",
     "No test reads what the loggers write.",
     [T + "logging/mod.rs"],
     [("VerboseLogger", T + "logging/mod.rs"), ("ResultOnlyLogger", T + "logging/mod.rs"), ("TimeLogger", T + "logging/mod.rs")])

prop("C26", "Test functions equal their formulas and have the documented minima",
     "The paraboloid, Schwefel, Rastrigin and Rosenbrock test functions equal their documented formulas at every point up to rounding, in any dimension from 1, for f32 and f64. On their documented domains no point has a value lower than that of the documented minimum, which is 0 (up to the precision of the published constants for Schwefel).",
     ["inputs"],
     "every point of a grid over the documented domain (plus the documented minimum and its neighbours), dimensions up to the bound, f32 and f64",
     "The doc-tests evaluate each function at one point, its minimum.",
     ["optlib-testfunc/src/lib.rs"],
     [("paraboloid, schwefel, rastrigin, rosenbrock", "optlib-testfunc/src/lib.rs")])

prop("C27", "Non-finite goal values and extinction never break a run",
     "Whatever values the goal function returns, including NaN and both infinities at any evaluation, a run of either optimizer with the library's own components completes every iteration its stop criterion asks for without failing. If the fitness filter is used, a genetic run reports a finite value or none; a swarm run reports a finite value whenever it has evaluated one. A genetic run whose population dies out goes on without individuals to its regular end instead of failing.",
     ["fault_sequences", "histories"],
     "every placement of NaN and infinite goal values over the evaluations of short runs (every combination within the deviation bound), for every combination of the library's pairing, crossing, mutation, selection and velocity components",
     "The test functions return finite values only, so the handling of NaN and of an empty population is never reached.",
     [G + "mod.rs", G + "pairing/mod.rs", G + "selection/mod.rs", P + "mod.rs", P + "velocitycalc/mod.rs"],
     [("individuals_min_cmp / individuals_max_cmp", G + "mod.rs"), ("get_pairs on an empty population", G + "pairing/mod.rs"), ("kill_worst", G + "selection/mod.rs"), ("compare_floats", P + "mod.rs")])

prop("C28", "Optimizers never leave the configured search space",
     "A genetic run with the random creator and the interval pre-birth check evaluates the goal function only at points with one coordinate per interval, each inside its closed interval, and every individual and reported solution lies there. The same holds for a swarm run with the random coordinate initializer and boundary correction as the last post-move step, whatever velocities the calculators and limiters produce, including infinite and NaN ones.",
     ["histories", "inputs"],
     "every random outcome (within the deviation bound) of the library's own crossing, mutation, teleport and velocity operators, with small and huge velocity parameters, f32 and f64, over several generations or iterations",
     "No test checks where the goal function is evaluated; bit-level crossing and mutation produce outliers only rarely.",
     [G + "pre_birth/vec_float.rs", G + "mod.rs", G + "creation/vec_float.rs", P + "mod.rs", P + "postmove/mod.rs", P + "initializing/mod.rs"],
     [("CheckChromoInterval::pre_birth before append", G + "mod.rs"), ("RandomCreator", G + "creation/vec_float.rs"), ("post_move after every move and at initialization", P + "mod.rs"), ("MoveToBoundary", P + "postmove/mod.rs")])

prop("C29", "Every view of a population or swarm shows the same agents",
     "At every moment at which a component, logger or stop criterion can look, all views of a genetic population show the same individuals in the same order: iteration, mutable iteration, indexing, the list of agents (parameter and goal value) and the length, and the living count equals the number of individuals that are alive; a kill made through one view is visible in all others. A swarm's list of agents shows one entry per particle, with its current position and value. Both interfaces of a state report the same generation number; the best individual and the best solution of a population are the same chromosome and value, and a swarm's best solution is one that some particle had.",
     ["histories", "inputs"],
     "every sequence of operations and kills through every view, population and swarm sizes from empty to large, f32 and f64",
     "No test uses the list of agents, and none compares the views with each other.",
     [G + "mod.rs", P + "mod.rs"],
     [("Population iter, iter_mut, index, len, len_alive, get_agents", G + "mod.rs"), ("Swarm get_agents, len", P + "mod.rs")])

prop("C30", "Optimizers and their components never influence each other",
     "A run depends only on its own components, their state and the random numbers they draw: running, resuming or building another optimizer of either kind before, between or in the middle of its operations (even inside its goal function, loggers, stop criterion, creator, pairing, selection or velocity calculation) changes neither what it evaluates and reports nor what the other one does when it runs alone with the same random numbers.",
     ["histories", "inputs"],
     "every placement of the other optimizer's operations between and inside the operations of the first one, every combination of library components of the menus, every random outcome within the deviation bound",
     "The tests run one optimizer at a time.",
     [G + "mod.rs", P + "mod.rs", G + "pairing/mod.rs", G + "mutation/mod.rs", G + "cross/mod.rs", P + "velocitycalc/mod.rs"],
     [("GeneticOptimizer::find_min / next_iterations", G + "mod.rs"), ("ParticleSwarmOptimizer::find_min / next_iterations", P + "mod.rs")],
     observe=["optimizer results, logger events, goal evaluations"])

prop("C31", "Misuse and output failures are refused instead of giving wrong results",
     "A configuration that cannot mean anything is refused, by a panic at construction or at first use and before a result is returned: a composite stop criterion without members, a creation interval that is empty or reversed or has a NaN end, no intervals at all or a population of zero for the random creator, coefficients outside the range the canonical velocity formula is defined for, a probability outside [0, 1], lists of intervals, limits or tolerances whose length differs from the number of coordinates they apply to, a wrong number of parents for a crossing, a swarm whose coordinates and velocities differ in number, statistics of solutions of different length. Every valid configuration, including those at the borders of the permitted ranges, is accepted. A text logger whose writer fails does not go on as if the output had been written.",
     ["inputs", "fault_sequences"],
     "every configuration of the menus at, inside and outside each border, at every position of the list concerned; a failing writer at every write",
     "A handful of should_panic tests cover single cases; borders and acceptance of valid configurations are not tested.",
     [T + "stopchecker/mod.rs", G + "creation/vec_float.rs", P + "velocitycalc/mod.rs", P + "postmove/mod.rs", P + "postvelocitycalc/mod.rs", G + "pre_birth/vec_float.rs", G + "selection/vec_float.rs", G + "cross/mod.rs", T + "statistics/mod.rs", T + "logging/mod.rs"],
     [("asserts in constructors and at use", T + "stopchecker/mod.rs"), ("CanonicalVelocityCalculator::new", P + "velocitycalc/mod.rs"), ("assert in crossings", G + "cross/mod.rs")])

prop("C32", "The stop criterion alone decides how long a search goes on",
     "A run or resumption asks its stop criterion once before each iteration, the first included, shows it the very state the loggers were shown last, and carries out the iteration if and only if the answer is no. After the first yes (even at once, with no iteration done) it ends: nothing is evaluated, created, moved or killed any more, the loggers get the finish event for that same state and the caller gets its solution. The iteration number counts exactly the noes since the run began, across resumptions; resuming an optimizer that has never run evaluates nothing and yields no solution.",
     ["histories", "inputs"],
     "every sequence of answers of the stop criterion over sequences of runs and resumptions, both optimizers, every combination of components, every random outcome within the deviation bound",
     "The tests stop by iteration count or threshold only and look at the final result; none checks when the criterion is asked and what happens around its answer.",
     [G + "mod.rs", P + "mod.rs"],
     [("GeneticOptimizer::next_iterations", G + "mod.rs"), ("ParticleSwarmOptimizer::next_iterations", P + "mod.rs"), ("StopChecker", T + "stopchecker/mod.rs")])

prop("C33", "A search cut short by a failing component leaves no trace",
     "If a component supplied by the user (goal function, creator, pairing, crossing, mutation, selection, velocity calculation, logger, stop criterion, ...) panics at any call and the caller catches the panic, the optimizer remains usable: the next complete run on it evaluates the same points, shows the same events and returns the same solution as a run of a fresh optimizer with the same random numbers, whatever was cut short before, at whatever call, and however often.",
     ["crash_points", "histories"],
     "every call of every component of short runs and resumptions as the point of failure, single and repeated, mixed with complete runs, both optimizers, every combination of components of the menus, draws within the deviation bound",
     "No test lets a component fail.",
     [G + "mod.rs", P + "mod.rs", T + "stopchecker/mod.rs"],
     [("Population::reset", G + "mod.rs"), ("ParticleSwarmOptimizer::renew_swarm", P + "mod.rs"), ("GoalNotChange::can_stop", T + "stopchecker/mod.rs")],
     observe=["optimizer results, logger events, goal evaluations after a caught panic"])

prop("C34", "Searches depend on goal values only through their order",
     "With a stop criterion that does not look at values, both optimizers with the library's own components use goal values only by comparing them (and by whether they are finite): if every finite value the goal function returns is replaced by another finite one such that all order relations and ties stay the same, the search evaluates the same points in the same order and reports the same points, however large, small, negative, close together or far apart the values are.",
     ["inputs", "histories"],
     "every replacement of the menu (consecutive, adjacent floating-point numbers at several magnitudes, subnormal, huge, negative, spread over all magnitudes) for every execution within the deviation bound, both optimizers, every combination of components",
     "The tests minimise a few functions with values of ordinary size.",
     [G + "mod.rs", G + "selection/mod.rs", G + "pairing/mod.rs", P + "mod.rs", P + "velocitycalc/mod.rs"],
     [("update_best_worst_individuals", G + "mod.rs"), ("kill_worst", G + "selection/mod.rs"), ("Tournament::get_pairs", G + "pairing/mod.rs"), ("compare_floats", P + "mod.rs")])

prop("C35", "Components keep no memory between calls",
     "What a library component does depends only on its configuration, the arguments of the call (the population or swarm included) and the random numbers drawn in that call: crossings, mutations, creators and initializers, pairings, selections, pre-birth checks, moves and velocity corrections, velocity calculators with their inertia schedules, the criteria by iteration count and goal threshold and composites of them, the text loggers of results, success predicates and goal wrappers. After any history of calls on the same component or on another one (other sizes, NaN values, arguments it refused, any number of calls) it answers exactly as a newly built one with the same configuration.",
     ["histories", "inputs"],
     "every history within the bounds over menus of arguments, on the component itself and on one configured differently; long uniform and mixed histories; every draw of the compared calls within the deviation bound",
     "Unit tests build a new component for every assertion.",
     [G + "cross/mod.rs", G + "mutation/mod.rs", G + "pairing/mod.rs", G + "selection/mod.rs", G + "selection/vec_float.rs", G + "pre_birth/vec_float.rs", G + "creation/vec_float.rs", P + "velocitycalc/mod.rs", P + "postmove/mod.rs", P + "postvelocitycalc/mod.rs", P + "initializing/mod.rs", T + "mod.rs", T + "stopchecker/mod.rs", T + "logging/mod.rs"],
     [("Cross::cross, Mutation::mutation", G + "cross/mod.rs"), ("Pairing::get_pairs", G + "pairing/mod.rs"), ("Selection::kill", G + "selection/mod.rs"), ("VelocityCalculator::calc_new_velocity", P + "velocitycalc/mod.rs"), ("PostMove::post_move", P + "postmove/mod.rs")],
     observe=["results of component calls"])

prop("C36", "Watching a search does not change it",
     "Attaching, replacing or removing loggers (the library's text, time and statistics loggers or the user's, in any number, before a run or between it and its resumption) and counting the goal evaluations with the call counter change nothing about a search: with the same random numbers it evaluates the same points in the same order, shows its stop criterion the same states and returns the same solutions as without them. Each observer shows or records the same as when it is the only one (apart from the measured time).",
     ["histories", "configurations"],
     "every sequence of observer sets from a menu over a run, a resumption and another run; draws and goal values within the deviation bound together with the sets; both optimizers, every combination of components of the menus",
     "Tests attach loggers to print something and never compare two searches.",
     [T + "logging/mod.rs", T + "statistics/mod.rs", G + "mod.rs", P + "mod.rs"],
     [("StatisticsLogger", T + "statistics/mod.rs"), ("VerboseLogger, ResultOnlyLogger, TimeLogger", T + "logging/mod.rs"), ("GeneticOptimizer::set_loggers", G + "mod.rs"), ("ParticleSwarmOptimizer::set_loggers", P + "mod.rs"), ("GoalCalcStatistics::get", T + "statistics/mod.rs")],
     observe=["goal evaluations, stop criterion calls, results, output of loggers"])

prop("C37", "The unit in which coordinates are measured does not matter",
     "A search whose coordinates, intervals and velocity limits are all measured in another unit (a power of two, a different one per coordinate wherever no component combines coordinates) takes the same course: with the same random numbers and the same goal values it evaluates the same points, expressed in the new unit, shows its stop criterion and loggers the same best solutions and returns the same result. This holds for the swarm with every velocity calculator, limiter, initializer and post-move of the library, and for the genetic search with the means as crossing and no bitwise mutation, as long as the numbers stay inside the range of the float type.",
     ["inputs", "configurations", "histories"],
     "every draw and goal value within the deviation bound around default executions, each repeated in every system of units of the menu; both optimizers, every combination of components of the menus, f32 and f64",
     "Tests run at ordinary magnitudes only and never compare two searches.",
     [P + "mod.rs", P + "velocitycalc/mod.rs", P + "postvelocitycalc/mod.rs", P + "postmove/mod.rs", P + "initializing/mod.rs", G + "mod.rs", G + "cross/mod.rs", T + "mod.rs"],
     [("VelocityCalculator implementations", P + "velocitycalc/mod.rs"), ("MaxVelocityAbs and MaxVelocityDimensions", P + "postvelocitycalc/mod.rs"), ("MoveToBoundary and RandomTeleport", P + "postmove/mod.rs"), ("CrossMean, FloatCrossGeometricMean", G + "cross/mod.rs"), ("RandomVectorCreator::create_vec", T + "mod.rs")],
     observe=["goal evaluations, stop criterion calls, results"])
