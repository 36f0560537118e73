"""which contracts and bounded runs decide which property"""
from bounded import data_b, models_b, quantum_b, solver_b

TRUSTED = [
    "pyvc: the VC generator of this directory (Python AST to first-order formulas), tested by selftest.py",
    "z3 (python3-vt) and cvc5 as decision procedures",
    "Python semantics as modelled: dictionaries and lists as finite maps and sequences, floats as mathematical reals, strings used as keys as atoms",
]
PULP = "PuLP (not installed): LpVariable.dicts creates fresh bounded variables, a relation of affine expressions is the constraint, problem += adds it"
EARLIEST = "earliest_dep_time is used by its contract (a function of train and station), proved under C07"
EXC = "obligations cover normal termination; inputs on which the code raises are looked for by the bounded runs"
BOUNDS = "0 <= delay <= d_max for every delay variable and d_max > 0 (C08)"


def solver_family(prop, n):
    def f(repo, rng, factor, known, hits):
        return solver_b.family_check(prop, repo, rng, n * factor)
    return f


def solver_replay(prop):
    def f(repo, inst):
        from bounded.core import Finding
        try:
            solver_b.family_check(prop, repo, None, 0, jobs=[("solver.lp", inst)])
        except Finding as e:
            return e
        return None
    return f


PROPS = {}
for _p, _c, _n, _a in (
        ("C01", ["solver.c01", "solver.m01"], 150, []),
        ("C02", ["solver.c02", "solver.m02"], 150, []),
        ("C03", ["solver.c03", "solver.m03"], 150, ["no station occurs twice on a path"]),
        ("C04", ["solver.c04", "solver.m04"], 110, [
            "a train delivering stock at a station arrives there from another station, hands over and takes over at most once per station",
            "trains listed for a station track call at the station; groups list trains in one common order, so the order variable is stored as listed",
            "two trains entering over a common switch both have a station before"]),
        ("C05", ["solver.c05", "solver.m05"], 110, ["a train listed as entering a station has a station before it on its path"]),
        ("C06", ["solver.c06", "solver.m06"], 150, ["the delivering train has a station before the turnaround station"])):
    PROPS[_p] = {"proofs": _c, "bounded": solver_family(_p, _n), "replay": solver_replay(_p), "trusted": [PULP],
                 "assumptions": [BOUNDS, EARLIEST, EXC] + _a}


def by(check, n, kind):
    """bounded run and replay of a check over n random jobs"""
    def run(repo, rng, factor, known, hits):
        return check(repo, rng, n * factor)

    def replay(repo, inst):
        from bounded.core import Finding
        try:
            check(repo, None, 0, jobs=[(kind, inst)])
        except Finding as e:
            return e
        return None
    return {"bounded": run, "replay": replay}


PROPS["C07"] = dict(by(solver_b.earliest_check, 300, "solver.earliest"), proofs=["solver.c07"], trusted=[], assumptions=[
    "no station occurs twice on a path", "termination: the recursion goes to the previous station of a finite path (rank obligation)", EXC])
PROPS["C08"] = dict(by(solver_b.variables_check, 100, "solver.lpvars"), proofs=["solver.c08", "solver.m08"], trusted=[PULP], assumptions=[
    "trains and stations are not called 'in' or 'one_station'; names are unaffected by PuLP's replacing of special characters",
    "each train set lists a pair for one place in one common order", EXC])
PROPS["C09"] = dict(by(solver_b.reports_check, 200, "solver.reports"), proofs=["solver.c09", "solver.m09"], trusted=[PULP], assumptions=[
    "penalty weights are given only where the train has a delay variable (C24)", EARLIEST,
    "PuLP: variables() lists each variable occurring in the model once", EXC])

PROG = "a program is given by its constraints (name, sense, constant, coefficients), objective and variables; each constraint mentions a variable, variable names are unique"
PROPS["C10"] = dict(by(models_b.results_check, 300, "models.results"), proofs=["models.c10"], trusted=[
    "PuLP and dimod (not installed): constraints.items(), c.items(), c.sense, c.constant, sampleset.data() as documented"], assumptions=[
    PROG, "samples assign a value to every variable; the list handed to the selection is the one built by the analysis (ordered by objective)",
    "numbers are mathematical reals", EXC])
PROPS["C11"] = dict(by(models_b.cqm_check, 300, "models.cqm"), proofs=["models.c11"], trusted=[
    "PuLP and dimod (not installed): dimod.Binary/Integer declare a variable of that label and range, relations of linear expressions are constraints"], assumptions=[
    PROG, "all variables are integer with lower bound zero and an upper bound", EXC])
PROPS["C12"] = dict(by(models_b.bqm_check, 250, "models.bqm"), proofs=["models.c12"], trusted=[
    "PuLP, dimod and pyqubo (not installed): LogEncInteger takes exactly the integers of its range, compiling keeps the polynomial, decoding returns the encoded values"],
    assumptions=[PROG, "integer coefficients and bounds, names of constraints and variables differ, every inequality can hold strictly (pyqubo rejects an empty slack range)",
                 "the slack variables of different constraints are independent, so the minimum over slacks is taken constraint by constraint", EXC])

PANDAS = "pandas: columns as sequences of cells (NaN as missing), selection by condition keeps rows and labels, isin, notnull, iloc, fillna, tolist as documented"
WORLD = "trains are numbers; a timetable is a frame with row labels 0, 1, ..., the columns of the schedule files and those added by the update; no block and no station occurs twice on a path"
STATIONS = "each block belongs to at most one important station and is listed there once; the station column names it (C15)"
HELP = "route queries are used by their contracts, proved under C16"
CLOCK = "times are texts that strptime reads as whole minutes of one day"


def data(prop, check, n, kind, proofs, assumptions, trusted=(PANDAS,)):
    PROPS[prop] = dict(by(check, n, kind), proofs=proofs, trusted=list(trusted), assumptions=list(assumptions) + [EXC])


data("C13", data_b.delay_check, 300, "data.add_delay", ["data.c13"], ["train numbers are not negative; keys are train_station"], ())
data("C14", data_b.schedule_check, 100, "data.schedule", ["data.c14", "data.a14"], [WORLD, STATIONS, CLOCK, "every train calls at an important station"])
LINES = "between two stations trains use the same or disjoint non-empty sequences of blocks"
ORDERED = "classes of an equivalence on a finite list can be numbered by their first members (the ghost numbering of contracts/groups.py)"
data("C16", data_b.routes_check, 100, "data.routes", ["data.c16", "data.a16"], [WORLD, STATIONS])
data("C17", data_b.taus_check, 80, "data.taus", ["data.c17", "data.a17"], [WORLD, STATIONS, HELP, "rounding is Python's round, an uninterpreted nearest integer in the proofs", "sums of floats are sums of reals"])
data("C20", data_b.josingle_check, 120, "data.josingle", ["data.c20", "data.a20"], [WORLD, STATIONS, HELP, "a selection of stations names important stations, each once"])
data("C23", data_b.jround_check, 120, "data.jround", ["data.c23", "data.a23"], [WORLD, STATIONS, "of two trains with numbers n and n followed by nine exactly one ends on the first block of the other, which is a station block"])
data("C24", data_b.weights_check, 120, "data.weights", ["data.c24", "data.a24"], [WORLD, STATIONS, HELP, "train categories are those of the schedule files; a train whose last station is skipped calls at another one before"])
data("C27", data_b.continuity_check, 120, "data.continuity", ["data.c27"], ["the frame has the two block columns; no row joins a block to itself and consecutive blocks of a path differ"])
data("C18", data_b.headway_check, 120, "data.headway", ["data.c18", "data.u19", "data.a18"], [
    WORLD, STATIONS, HELP, LINES, ORDERED, "the groups of trains on a line are used by their contract, proved under C19", "rounding is Python's round, an uninterpreted nearest integer in the proofs",
    "sums of floats are sums of reals; a sum over the first blocks is defined by its recurrence"])
data("C19", data_b.jd_check, 120, "data.jd", ["data.c19", "data.a19"], [WORLD, STATIONS, HELP, ORDERED,
    "between two stations two trains use the same sequence of blocks or each some block that the other does not use"])
data("C21", data_b.jtrack_check, 120, "data.jtrack", ["data.c21", "data.a21"], [WORLD, STATIONS, HELP, ORDERED])
data("C15", data_b.update_check, 100, "data.update", ["data.c15"], [WORLD, "each block belongs to at most one important station and is listed there once",
    "each pair of blocks has at most one row of the network table, no row joins a block to itself; speed classes are R and IC; a timetable has at least one row",
    "each train has its own timetable object; writing a column replaces the cells of that column and nothing else"])
data("C22", data_b.jswitch_check, 120, "data.jswitch", ["data.c22", "data.z22", "data.a22"], [WORLD, STATIONS, HELP,
    "each pair of blocks has at most one row of the network table, no row joins a block to itself",
    "a cell is empty, a number, a text with one number, a text listing several, or a number a.b that stands for the numbers a and b; reading these texts is Python's str and eval",
    "a selection of stations names important stations, each once"])
data("C25", data_b.table_check, 100, "data.table", ["report.c25", "solver.c09r"], [
    "the path of a train has no station twice, trains are listed once, no station is called 0",
    "every running time between a station and the next reported one is given",
    "delay, time and impact of a train at a station are used by the contracts proved under C09",
    "dates and time differences are real numbers of minutes; rounding is Python's round, an uninterpreted nearest integer in the proofs", EARLIEST],
     [PULP])
data("C26", data_b.parse_check, 150, "data.parse", ["parse.c26"], [
    "a file consists of blocks: category, number, name, start line (from.../depa...), rows, end line (to.../te...); other lines are not numeric and are no start lines, rows are no end lines",
    "train numbers differ; rows are labelled by their number, as read_csv does",
    "a text is known by whether it is numeric, its number and its first letters; iloc, reset_index and rename as documented by pandas"], [PANDAS])
QLIB = "neal, dwave.system (not installed): a sampler is a function from the model given to a sample set; its properties are a dictionary of its own"
data("C28", quantum_b.solve_check, 120, "quantum.solve", ["quantum.c28"],
     ["the conversions are used as functions of problem and weights (proved under C11, C12), the analysis and choice of samples by their contracts (C10)",
      "the method is one of the four named ones", "the clock is not set back during a run"], [QLIB, PULP])
data("C29", quantum_b.sizes_check, 80, "quantum.sizes", ["quantum.c29"],
     ["order variables are named y_... or z_..., delay variables Delays_... (C08)", "the sizes printed by check_count_vars are compared in the bounded runs only"], [QLIB, PULP])
