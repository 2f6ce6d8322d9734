"""Which properties are claimed: id -> (technique, level note)."""
HOOKS = None
NA = {}
NOTES = ("All checks run one explorer (harness/) against /repo's working tree: it enumerates every choice of the "
         "environment and every draw of the random source within stated bounds and compares each execution with a "
         "reference model. See DESIGN.md.")
DFS = "stateless model checking of the real code: depth-first enumeration of "
CLAIMS = {
    "C01": (DFS + "goal values, broods and killed individuals over generations and runs, against a reference population",
            "Exhaustive for small populations and two generations; larger populations and longer operation sequences within a deviation bound."),
    "C02": (DFS + "family structures, broods, brood edits, killed individuals and operation sequences, against a reference population with provenance",
            "Exhaustive for small populations; larger populations and longer operation sequences within a deviation bound."),
    "C03": (DFS + "goal-value patterns, sets of dead individuals, limits and counts, against the specified kills",
            "Exhaustive over order patterns of small populations; structured patterns for larger ones."),
    "C05": (DFS + "gene and goal values relative to the bounds, populations and broods, against the specified filter",
            "Exhaustive over a boundary-value menu for small chromosomes and populations; structured ones beyond."),
    "C06": (DFS + "every random draw of the pairings, with exact outcome probabilities compared with the specified distribution",
            "Exhaustive for small populations and tournaments; deviation-bounded for larger ones."),
    "C07": (DFS + "bit positions of the crossings on pairs of values, and every random draw of the operators with exact outcome probabilities",
            "All 8-bit pairs; bit-pattern families for wider types."),
    "C08": (DFS + "parent tuples over value menus, against mean and gene-wise oracles",
            "Exhaustive over menus for up to 4 parents and small vectors; structured larger ones."),
    "C09": (DFS + "every random draw of the mutations, with exact outcome probabilities compared with the specified distribution",
            "Exhaustive for small change counts and vectors; deviation-bounded for larger ones."),
    "C10": (DFS + "random words of the creators and initializers, with exact stratum occupancy",
            "Exhaustive for small shapes; deviation-bounded for larger ones."),
    "C13": (DFS + "goal-value histories of the swarm and every combination of random factors, against the documented equations over a reference memory",
            "Exhaustive for small swarms and a three-point menu of random factors; larger swarms within a deviation bound."),
    "C14": (DFS + "schedules and iteration numbers in different query orders, against the specified path",
            "Every iteration number of short schedules and boundary ones of long schedules."),
    "C15": (DFS + "coordinate vectors over boundary-value menus and every random draw of the teleport with exact outcome probabilities",
            "Exhaustive over menus for up to 3 dimensions; deviation-bounded beyond."),
    "C16": (DFS + "velocity vectors over menus relative to the limits, against the specified limited velocity",
            "Exhaustive over menus for up to 3 dimensions; deviation-bounded beyond."),
    "C11": (DFS + "goal values over particles, iterations, runs and resumptions, against the history of evaluations",
            "Exhaustive for small swarms; larger swarms and longer sequences within a deviation bound."),
    "C12": (DFS + "swarm shapes, numbers of corrections and post-move steps and operation sequences, against a reference swarm",
            "Exhaustive for small shapes; longer operation sequences within a deviation bound."),
    "C17": (DFS + "histories of reported states and operations, against the specified criteria",
            "Exhaustive for short histories; long ones within a deviation bound."),
    "C18": (DFS + "member answers, histories of states, member orders and nestings, against the plain AND / OR",
            "Exhaustive for small composites and short histories."),
    "C21": (DFS + "sequences of runs, resumptions and logger replacements on both optimizers, against the specified event protocol",
            "Exhaustive for short sequences; longer ones within a deviation bound."),
    "C22": (DFS + "sequences of runs and resumptions recorded by statistics, against a reference record",
            "Exhaustive for short sequences; longer ones within a deviation bound."),
    "C23": (DFS + "samples over value menus, against the mathematical definitions",
            "Exhaustive over menus for small samples; larger ones within a deviation bound."),
    "C24": (DFS + "operation sequences on the counters and runs of both optimizers, against a reference counter",
            "Exhaustive for sequences up to the depth bound."),
    "C25": (DFS + "run sequences and short or interrupted writes, against the specified lines",
            "Exhaustive for short sequences; write faults within a deviation bound."),
    "C26": (DFS + "grid points of the documented domains, against the documented formulas and minima",
            "Exhaustive over the grids; nothing is shown between grid points."),
    "C04": (DFS + "random draws of the real operators, goal values and chromosomes over generations, with the report checked against the individuals the filters admit",
            "Deviation-bounded around pseudo-random executions with the real operators; exhaustive for scripted operators on small populations."),
    "C19": (DFS + "random draws and earlier histories, comparing the run of a used optimizer with that of a fresh one on the same draws",
            "Deviation-bounded around pseudo-random executions of 24 component combinations."),
    "C20": (DFS + "splits of a run and random draws, comparing the paused run with the straight one on the same draws",
            "Every split of short runs; draws deviation-bounded around pseudo-random executions of 24 component combinations."),
    "C27": (DFS + "placements of non-finite goal values and random draws over every combination of components",
            "Complete for populations of two; deviation-bounded for larger ones."),
    "C28": (DFS + "random draws of the real operators and scripted genes and velocities, with every evaluated point monitored",
            "Deviation-bounded around pseudo-random executions; exhaustive for scripted operators on small populations."),
    "C29": (DFS + "operation sequences, kills through every view and component looks, comparing all views with each other and with a reference list",
            "Exhaustive for small populations and swarms; deviation-bounded for larger ones."),
    "C30": (DFS + "placements of another optimizer's operations between and inside a run, and random draws, comparing both with their runs alone on the same draws",
            "Every placement of the menu; draws deviation-bounded around pseudo-random executions."),
    "C31": (DFS + "configurations at, inside and outside each border and every failing write, against the specified acceptance or refusal",
            "Exhaustive over the menus and every position in short lists."),
    "C32": (DFS + "answers of the stop criterion over runs and resumptions, with the complete course of events compared with the specified one",
            "Exhaustive for short answer sequences; draws and long runs deviation-bounded."),
    "C33": (DFS + "points at which a component fails, single and repeated, comparing the next run with that of a fresh optimizer on the same draws",
            "Every call of short runs as crash point; draws deviation-bounded around pseudo-random executions."),
    "C34": (DFS + "draws and goal values, each execution repeated with other values in the same order",
            "Draws and values deviation-bounded around pseudo-random executions; a menu of replacements."),
    "C35": (DFS + "call histories and draws, comparing the used component with a new one on the same draws",
            "All histories of a few calls over menus of arguments; longer ones uniform or in turn; draws deviation-bounded."),
    "C36": (DFS + "sequences of observer sets, draws and goal values, each search repeated without observers and with each one alone",
            "All sequences of 9 observer sets over three operations; draws and values deviation-bounded around pseudo-random executions."),
    "C37": (DFS + "draws and goal values, each execution repeated with the coordinates measured in other units",
            "Draws and values deviation-bounded around pseudo-random executions; a menu of systems of units; coordinates compared up to rounding."),
}
