"""Contracts of the linear model (railway_solvers)."""
import z3
from pyvc.values import *
from pyvc.inputs import make, fn
from pyvc.interp import Engine, State, Obligation
from pyvc.prims import install, real
from pyvc import lp  # noqa: F401  (registers the pulp primitives)
from pyvc.nest import Nest, present, chain, log_write, stored as stored_at

LS = "railway_solvers/railway_solvers/linear_solver.py"
HF = "railway_solvers/railway_solvers/helpers_functions.py"
OS, IN, OUT = "one_station", "in", "out"


def pair_switch(E, name, args):
    k0, k1 = [fn(name + ".t%d" % q, args, Atom) for q in (0, 1)]
    w0, w1 = [fn(name + ".w%d" % q, args, Atom) for q in (0, 1)]
    E.axiom_once(name, z3.ForAll(args, z3.And(k0 != k1, z3.Or(w0 == E.lit(IN), w0 == E.lit(OUT)),
                                              z3.Or(w1 == E.lit(IN), w1 == E.lit(OUT)))))
    return FinDict([(SV(k0), SV(w0)), (SV(k1), SV(w1))])


def order_var(E, name, args):
    """binary order variable"""
    b = fn(name + ".one", args, z3.BoolSort())
    return VarV(z3.If(b, z3.RealVal(1), z3.RealVal(0)), {})


PAIRS = ("list", ("pair", "atom", "atom"))
TRAIN_SETS = ("rec", {
    "J": ("list", "atom"),
    "Paths": ("dict", ["atom"], "scalar", ("list", "atom")),
    "Jd": ("dict", ["atom"], "scalar", ("dict", ["atom"], "scalar", ("list", ("list", "atom")))),
    "Josingle": ("dict", ["atom", "atom"], "tuple", PAIRS),
    "Jround": ("dict", ["atom"], "scalar", PAIRS),
    "Jtrack": ("dict", ["atom"], "scalar", ("list", ("list", "atom"))),
    "Jswitch": ("dict", ["atom"], "scalar", ("list", ("fun", pair_switch))),
    "skip_station": ("opt", ("dict", ["atom"], "scalar", "atom")),
    "add_swithes_at_s": ("opt", ("list", "atom")),
})
TIMETABLE = ("rec", {
    "tau": ("rec", {
        "pass": ("dict", ["atom"] * 3, ("fmt", "{}_{}_{}"), "real"),
        "headway": ("dict", ["atom"] * 4, ("fmt", "{}_{}_{}_{}"), "real"),
        "stop": ("dict", ["atom"] * 2, ("fmt", "{}_{}"), "real"),
        "prep": ("dict", ["atom"] * 2, ("fmt", "{}_{}"), "real"),
        "res": "real"}),
    "schedule": ("opt", ("dict", ["atom"] * 2, ("fmt", "{}_{}"), "real")),
    "initial_conditions": ("dict", ["atom"] * 2, ("fmt", "{}_{}"), "real"),
    "penalty_weights": ("dict", ["atom"] * 2, ("fmt", "{}_{}"), "real"),
})
DELAY = ("dict", ["atom"], "scalar", ("dict", ["atom"], "scalar", "var"))
ORDER = ("dict", ["atom"], "scalar", ("dict", ["atom"], "scalar",
         ("dict", ["atom"], "scalar", ("dict", ["atom"], "scalar", ("fun", order_var)))))

EARLIEST = z3.Function("earliest", Atom, Atom, z3.RealSort())


def apply_earliest(E, st, b):
    """earliest_dep_time returns the function of train and station whose
    defining equation is proved under C07"""
    return [(st, SV(EARLIEST(E.to_sort(b["train"], Atom), E.to_sort(b["station"], Atom))))]


EARLIEST_CONTRACT = {"earliest_dep_time": {"params": ["S", "timetable", "train", "station"], "apply": apply_earliest}}


class W:
    """the symbolic world of the linear model and the vocabulary of its specification"""

    def __init__(self, repo="/repo"):
        E = self.E = Engine(repo)
        install(E)
        self.ts = make(E, TRAIN_SETS, "ts")
        self.tt = make(E, TIMETABLE, "tt")
        self.dv = make(E, DELAY, "delay")
        self.y = make(E, ORDER, "y")
        self.dmax = z3.Real("d_max")
        self.hyps = []

    # vocabulary
    def F(self, name, *args, sort=Atom):
        return fn(name, list(args), sort)

    def earliest(self, j, s):
        return EARLIEST(j, s)

    def D(self, j, s):
        return fn("delay.get.get", [j, s], z3.RealSort())

    def Dhas(self, j, s):
        return z3.And(fn("delay.has", [j], z3.BoolSort()), fn("delay.get.has", [j, s], z3.BoolSort()))

    def t(self, j, s):
        return self.earliest(j, s) + self.D(j, s)

    def tau(self, kind, *a):
        return fn("tt.tau.%s.get" % kind, list(a), z3.RealSort())

    @property
    def res(self):
        return z3.Real("tt.tau.res")

    def H(self, a, b, c, d):
        """order variable present under these keys"""
        B = z3.BoolSort()
        return z3.And(fn("y.has", [a], B), fn("y.get.has", [a, b], B), fn("y.get.get.has", [a, b, c], B),
                      fn("y.get.get.get.has", [a, b, c, d], B))

    def Y(self, a, b, c, d):
        return fn("y.get.get.get.get.one", [a, b, c, d], z3.BoolSort())

    def ord(self, k, kr):
        """order decision: the variable under k, or the complement of the one under kr"""
        return z3.If(self.H(*k), self.Y(*k), z3.Not(self.Y(*kr)))

    def first3(self, j, jp, s):
        o = self.E.lit(OS)
        return self.ord((j, jp, o, s), (jp, j, o, s))

    def first4(self, j, jp, s, sp):
        return self.ord((j, jp, s, sp), (jp, j, sp, s))

    def first_in(self, j, jp, s):
        i = self.E.lit(IN)
        return self.ord((i, j, jp, s), (i, jp, j, s))

    def one3(self, j, jp, s):
        o = self.E.lit(OS)
        return z3.Xor(self.H(j, jp, o, s), self.H(jp, j, o, s))

    def bounds(self):
        """delays lie in [0, d_max]"""
        j, s = z3.Consts("bj bs", Atom)
        return [self.dmax > 0, z3.ForAll([j, s], z3.And(self.D(j, s) >= 0, self.D(j, s) <= self.dmax), patterns=[self.D(j, s)])]

    # paths
    def plen(self, j):
        return fn("ts.Paths.get.len", [j], z3.IntSort())

    def path(self, j, i):
        return fn("ts.Paths.get.at", [j, i], Atom)

    def simple_paths(self):
        """no station occurs twice on a path"""
        j = z3.Const("pj", Atom)
        a, b = z3.Ints("pa pb")
        return [z3.ForAll([j, a, b], z3.Implies(z3.And(0 <= a, a < b, b < self.plen(j)), self.path(j, a) != self.path(j, b)),
                          patterns=[z3.MultiPattern(self.path(j, a), self.path(j, b))])]

    def on_path(self, j, s):
        """index function: station s is on the path of j iff 0 <= idx < len and path[idx] = s"""
        i = self.idx(j, s)
        return z3.And(0 <= i, i < self.plen(j), self.path(j, i) == s)

    def idx(self, j, s):
        return fn("path_index", [j, s], z3.IntSort())

    def idx_def(self):
        j = z3.Const("ij", Atom)
        a = z3.Int("ia")
        return [z3.ForAll([j, a], z3.Implies(z3.And(0 <= a, a < self.plen(j)), self.idx(j, self.path(j, a)) == a),
                          patterns=[self.path(j, a)])]

    def prev(self, j, s):
        return self.path(j, self.idx(j, s) - 1)

    def has_prev(self, j, s):
        return z3.And(self.on_path(j, s), self.idx(j, s) > 0)

    # running
    def run(self, rel, fname, args, contracts=None, hyps=()):
        E = self.E
        E.contracts = dict(contracts or {})
        f = E.find(rel, fname)
        st = State({}, {}, (), tuple(hyps), ())
        vals = {}
        for k, v in args.items():
            if callable(v):
                v = v(E, st)
            vals[k] = v
        E.exc = [[]]
        outs = E.call_func_body(f, [], vals, st)
        return f, vals, outs, E.exc[0]

    def oblige(self, name, st, goal, kind="post", extra=()):
        self.E.obls.append(Obligation(name, list(st.facts) + list(st.pc) + list(extra), goal, kind))


def family(w, fname, args, phi, extra, contracts=EARLIEST_CONTRACT, hyps=()):
    """the constraints a family function adds hold exactly when phi does"""
    E = w.E
    prob = lambda e, st: e.alloc(st, ProbObj())
    a = {}
    for k in args:
        a[k] = {"problem": prob, "timetable": w.tt, "delay_var": w.dv, "y": w.y, "train_sets": w.ts,
                "d_max": SV(w.dmax)}[k]
    f, vals, outs, exs = w.run(LS, fname, a, contracts, hyps=hyps)
    for n, (st, v) in enumerate(outs):
        nodes = st.heap[vals["problem"].id].nodes
        c = lp.con_formula(nodes)
        for k, (title, p) in enumerate(phi):
            w.oblige("%s/sound/%s%s" % (fname, title, "" if len(outs) == 1 else "/path%d" % n), st, z3.Implies(c, p), extra=extra)
        w.oblige("%s/exact%s" % (fname, "" if len(outs) == 1 else "/path%d" % n), st,
                 z3.Implies(z3.And([p for _, p in phi]), c), extra=extra)
    return outs


def c01(repo):
    w = W(repo)
    s, sp = z3.Consts("s sp", Atom)
    g, a, b = z3.Ints("g a b")
    B = z3.BoolSort()
    js = lambda i: fn("ts.Jd.get.get.at.at", [s, sp, g, i], Atom)
    dom = z3.And(fn("ts.Jd.has", [s], B), fn("ts.Jd.get.has", [s, sp], B), 0 <= g, g < fn("ts.Jd.get.get.len", [s, sp], z3.IntSort()),
                 0 <= a, a < b, b < fn("ts.Jd.get.get.at.len", [s, sp, g], z3.IntSort()))

    def rule(j, jp):
        return z3.Implies(z3.Not(w.first3(jp, j, s)), w.t(jp, s) >= w.t(j, s) + w.tau("headway", j, jp, s, sp))
    q = lambda x, y: z3.ForAll([s, sp, g, a, b], z3.Implies(dom, rule(x, y)))
    phi = [("first listed goes first", q(js(a), js(b))), ("second listed goes first", q(js(b), js(a)))]
    family(w, "minimal_span", ["problem", "timetable", "delay_var", "y", "train_sets", "d_max"], phi, w.bounds())
    return w


def same_stock(w, j, jp):
    """j and jp occur together in a turnaround pair"""
    s = z3.Const(uid("rs"), Atom)
    i = z3.Int(uid("ri"))
    p = lambda k: fn("ts.Jround.get.at.%d" % k, [s, i], Atom)
    dom = z3.And(fn("ts.Jround.has", [s], z3.BoolSort()), 0 <= i, i < fn("ts.Jround.get.len", [s], z3.IntSort()))
    return z3.Exists([s, i], z3.And(dom, j != jp, z3.Or(z3.And(p(0) == j, p(1) == jp), z3.And(p(0) == jp, p(1) == j),
                                                        z3.And(p(0) == j, p(1) == j, j == jp))))


FAM = ["problem", "timetable", "delay_var", "y", "train_sets", "d_max"]


def c02(repo):
    w = W(repo)
    s, sp = z3.Consts("s sp", Atom)
    i = z3.Int("i")
    j, jp = [fn("ts.Josingle.get.at.%d" % k, [s, sp, i], Atom) for k in (0, 1)]
    dom = z3.And(fn("ts.Josingle.has", [s, sp], z3.BoolSort()), 0 <= i, i < fn("ts.Josingle.get.len", [s, sp], z3.IntSort()),
                 z3.Not(same_stock(w, j, jp)))

    def rule(j, jp, s, sp):
        # j (from s) goes second: it leaves s after jp has arrived from sp
        return z3.Implies(z3.Not(w.first4(j, jp, s, sp)), w.t(j, s) >= w.t(jp, sp) + w.tau("pass", jp, sp, s))
    q = lambda r: z3.ForAll([s, sp, i], z3.Implies(dom, r))
    phi = [("departure at the near end", q(rule(j, jp, s, sp))), ("departure at the far end", q(rule(jp, j, sp, s)))]
    family(w, "single_line", FAM, phi, w.bounds())
    return w


def c03(repo):
    w = W(repo)
    i, k = z3.Ints("i k")
    j = fn("ts.J.at", [i], Atom)
    s, sp = w.path(j, k), w.path(j, k - 1)
    dom = z3.And(0 <= i, i < z3.Int("ts.J.len"), 0 < k, k < w.plen(j), fn("delay.get.has", [j, s], z3.BoolSort()))
    phi = [("running and dwell time", z3.ForAll([i, k], z3.Implies(
        dom, w.t(j, s) >= w.t(j, sp) + w.tau("pass", j, sp, s) + w.tau("stop", j, s))))]
    family(w, "minimal_stay", ["problem", "timetable", "delay_var", "train_sets"], phi, w.bounds() + w.simple_paths())
    return w


def c06(repo):
    w = W(repo)
    s = z3.Const("s", Atom)
    i = z3.Int("i")
    j, jp = [fn("ts.Jround.get.at.%d" % k, [s, i], Atom) for k in (0, 1)]
    dom = z3.And(fn("ts.Jround.has", [s], z3.BoolSort()), 0 <= i, i < fn("ts.Jround.get.len", [s], z3.IntSort()))
    # the delivering train arrives: it has a station before s
    arr = z3.ForAll([s, i], z3.Implies(dom, w.has_prev(j, s)))
    phi = [("stock is there", z3.ForAll([s, i], z3.Implies(dom, w.t(jp, s) >= w.t(j, w.prev(j, s)) + w.tau("pass", j, w.prev(j, s), s)
                                                          + w.tau("prep", jp, s))))]
    family(w, "rolling_stock_circ", ["problem", "timetable", "delay_var", "train_sets", "d_max"], phi,
           w.bounds() + w.idx_def() + [arr])
    return w


def occurs(w, a, b, n, at, m):
    """a and b (different) are both in one of n groups; at(g, i) the members, m(g) their number"""
    g, i, k = z3.Ints("%s %s %s" % (uid("og"), uid("oi"), uid("ok")))
    return z3.And(a != b, z3.Exists([g, i, k], z3.And(0 <= g, g < n, 0 <= i, i < m(g), 0 <= k, k < m(g), at(g, i) == a, at(g, k) == b)))


def in_jd(w, a, b, s, sp):
    """a and b are in one group of the line from s to sp"""
    return occurs(w, a, b, fn("ts.Jd.get.get.len", [s, sp], z3.IntSort()), lambda g, i: fn("ts.Jd.get.get.at.at", [s, sp, g, i], Atom),
                  lambda g: fn("ts.Jd.get.get.at.len", [s, sp, g], z3.IntSort()))


def overtake(w, a, b, s):
    """a and b, entering s, can change their order on the way"""
    x = z3.Const(uid("jd"), Atom)
    B = z3.BoolSort()
    nonempty = z3.Exists([x], fn("ts.Jd.has", [x], B))
    both = z3.And(w.has_prev(a, s), w.has_prev(b, s))
    return z3.And(nonempty, both, z3.Or(w.prev(a, s) != w.prev(b, s), z3.Not(in_jd(w, a, b, w.prev(a, s), s))))



# helper functions of the model, used by contract; each contract is proved by helper_obligations
_A, _B, _I = Atom, z3.BoolSort(), z3.IntSort()
STOCK = z3.Function("same_stock", _A, _A, _B)
HANDS, SUCC, SUCC_AT = z3.Function("hands_on", _A, _A, _B), z3.Function("successor", _A, _A, _A), z3.Function("successor_at", _A, _A, _I)
TAKES, GIVER, GIVER_AT = z3.Function("takes_over", _A, _A, _B), z3.Function("giver", _A, _A, _A), z3.Function("giver_at", _A, _A, _I)
SKIP = z3.Function("skips", _A, _A, _B)
OVER = z3.Function("can_overtake", _A, _A, _A, _B)
COMMON = z3.Function("common_entry_switch", _A, _A, _A, _B)


def rdom(s, i):
    return z3.And(fn("ts.Jround.has", [s], _B), 0 <= i, i < fn("ts.Jround.get.len", [s], _I))


def rp(k, s, i):
    return fn("ts.Jround.get.at.%d" % k, [s, i], Atom)


def common_switch(w, x, y, s):
    """x and y both enter s over a common switch"""
    q = z3.Int(uid("q"))
    E = w.E
    t = lambda k: fn("ts.Jswitch.get.at.t%d" % k, [s, q], Atom)
    ww = lambda k: fn("ts.Jswitch.get.at.w%d" % k, [s, q], Atom)
    return z3.And(fn("ts.Jswitch.has", [s], _B), z3.Exists([q], z3.And(
        0 <= q, q < fn("ts.Jswitch.get.len", [s], _I), ww(0) == E.lit(IN), ww(1) == E.lit(IN),
        z3.Or(z3.And(t(0) == x, t(1) == y), z3.And(t(0) == y, t(1) == x)))))


def skips(w, j, s):
    return z3.And(z3.Bool("ts.skip_station?"), fn("ts.skip_station.has", [j], _B), fn("ts.skip_station.get", [j], Atom) == s)


def definitions(w, which):
    """what the specification functions mean in terms of the train sets"""
    j, k, s = z3.Consts("dj dk ds", Atom)
    i = z3.Int("di")
    out = []
    if "stock" in which:
        out.append(z3.ForAll([j, k], STOCK(j, k) == same_stock(w, j, k)))
    if "succ" in which:
        # each train hands its stock on at most once per station
        out += [z3.ForAll([s, i], z3.Implies(rdom(s, i), z3.And(HANDS(rp(0, s, i), s), SUCC(rp(0, s, i), s) == rp(1, s, i)))),
                z3.ForAll([j, s], z3.Implies(HANDS(j, s), z3.And(rdom(s, SUCC_AT(j, s)), rp(0, s, SUCC_AT(j, s)) == j)))]
    if "giver" in which:
        out += [z3.ForAll([s, i], z3.Implies(rdom(s, i), z3.And(TAKES(rp(1, s, i), s), GIVER(rp(1, s, i), s) == rp(0, s, i)))),
                z3.ForAll([j, s], z3.Implies(TAKES(j, s), z3.And(rdom(s, GIVER_AT(j, s)), rp(1, s, GIVER_AT(j, s)) == j)))]
    if "skip" in which:
        out.append(z3.ForAll([j, s], SKIP(j, s) == skips(w, j, s)))
    if "over" in which:
        out.append(z3.ForAll([j, k, s], OVER(j, k, s) == overtake(w, j, k, s)))
    if "common" in which:
        out.append(z3.ForAll([j, k, s], COMMON(j, k, s) == common_switch(w, j, k, s)))
    return out


def _opt(has, val):
    def f(E, st, b):
        j, s = E.to_sort(b["j"], Atom), E.to_sort(b["s"], Atom)
        return [(x, SV(val(j, s)) if t else None) for x, t in E.branch(st, has(j, s))]
    return f


def _bool(f, *names, neg=False):
    def g(E, st, b):
        e = f(*[E.to_sort(b[n], Atom) for n in names])
        return [(st, SV(z3.Not(e) if neg else e))]
    return g


HELPERS = {
    "not_the_same_rolling_stock": ("stock", ["j", "jp", "train_sets"], _bool(STOCK, "j", "jp", neg=True)),
    "subsequent_train_at_Jround": ("succ", ["train_sets", "j", "s"], _opt(HANDS, SUCC)),
    "previous_train_from_Jround": ("giver", ["train_sets", "j", "s"], _opt(TAKES, GIVER)),
    "skip_station": ("skip", ["j", "s", "train_sets"], _bool(SKIP, "j", "s")),
    "can_MO_on_line": ("over", ["j", "jp", "s", "train_sets"], _bool(OVER, "j", "jp", "s")),
    "are_two_trains_entering_via_the_same_switches": ("common", ["train_sets", "s", "j", "jp"], _bool(COMMON, "j", "jp", "s")),
}


def helper_contracts(names):
    c = {n: {"params": HELPERS[n][1], "apply": HELPERS[n][2]} for n in names}
    c.update(EARLIEST_CONTRACT)
    return c


def helper_obligations(w, names):
    """the body of each helper meets its contract"""
    E = w.E
    for n in names:
        if not has_func(w, HF, n, HELPERS[n][1]):
            continue  # no such function: its body is part of its callers
        tag, params, apply = HELPERS[n]
        hs = definitions(w, [tag]) + w.idx_def()
        val = {"j": SV(z3.Const("hj", Atom)), "jp": SV(z3.Const("hjp", Atom)), "s": SV(z3.Const("hs", Atom)), "train_sets": w.ts}
        j, s = val["j"].e, val["s"].e
        if tag in ("over", "common"):
            hs += [w.on_path(j, s), w.on_path(val["jp"].e, s)]
        if tag == "common":
            hs += [j != val["jp"].e]
        f, vals, outs, exs = w.run(HF, n, {p: val[p] for p in params})
        for k, (st, v) in enumerate(outs):
            name = "%s/contract%s" % (n, "" if len(outs) == 1 else "/path%d" % k)
            if tag in ("succ", "giver"):
                has, fun = (HANDS, SUCC) if tag == "succ" else (TAKES, GIVER)
                goal = z3.Not(has(j, s)) if v is None else z3.And(has(j, s), fun(j, s) == E.to_sort(v, Atom))
            else:
                want = apply(E, st, val)[0][1].e
                t = E.truth(v, st)
                goal = want == (z3.BoolVal(t) if isinstance(t, bool) else t)
            w.oblige(name, st, goal, extra=hs)


def has_func(w, rel, name, params=()):
    """the function exists and takes these parameters"""
    try:
        f = w.E.find(rel, name)
    except Unsupported:
        return False
    args = [a.arg for a in f.node.args.args]
    need = args[:len(args) - len(f.node.args.defaults)]
    return not params or set(params) <= set(args) and set(need) <= set(params)


def rule_contract(params, formula):
    """the function adds constraints that hold exactly when the formula does"""
    def apply(E, st, b):
        st = st.fork()
        args = [E.to_sort(b[p], Atom) for p in params]
        ref = b["problem"]
        st.heap[ref.id] = st.heap[ref.id].add(Item(("con", ConV(formula(*args)), None)))
        return [(st, None)]
    return {"params": params + ["problem"], "apply": apply}


def single(w, fname, names, atoms, phi, extra, contracts, hyps=()):
    """a function that adds the constraints of one pair"""
    a = {}
    for k in names:
        a[k] = SV(atoms[k]) if k in atoms else {"problem": lambda e, st: e.alloc(st, ProbObj()), "timetable": w.tt, "delay_var": w.dv,
                                                "y": w.y, "train_sets": w.ts, "d_max": SV(w.dmax)}[k]
    f, vals, outs, exs = w.run(LS, fname, a, contracts, hyps=hyps)
    cs = []
    for n, (st, v) in enumerate(outs):
        c = lp.con_formula(st.heap[vals["problem"].id].nodes)
        tag = "" if len(outs) == 1 else "/path%d" % n
        w.oblige("%s/sound%s" % (fname, tag), st, z3.Implies(c, phi), extra=extra)
        w.oblige("%s/exact%s" % (fname, tag), st, z3.Implies(phi, c), extra=extra)


def symmetric(w):
    """facts about the specification functions that follow from their definitions (proved as lemmas)"""
    j, k, s = z3.Consts("lj lk ls", Atom)
    out = []
    for n, f, g, tag in (("same stock is symmetric", STOCK(j, k), STOCK(k, j), "stock"),
                         ("overtaking is symmetric", OVER(j, k, s), OVER(k, j, s), "over")):
        vs = [j, k] if tag == "stock" else [j, k, s]
        w.E.obls.append(Obligation("lemma/" + n, definitions(w, [tag]), z3.ForAll(vs, f == g), "lemma"))
        out.append(z3.ForAll(vs, f == g))
    return out


def clears(w, s, ja, sa, jb, sb):
    """ja, coming from sa, passes the switch of s after jb, coming from sb, unless ja goes first"""
    first = z3.If(sa == sb, z3.If(z3.And(sa != s, OVER(ja, jb, s)), w.first_in(ja, jb, s), w.first3(ja, jb, sa)),
                  z3.If(z3.Or(s == sa, s == sb), w.first4(ja, jb, sa, sb), w.first_in(ja, jb, s)))
    passes = lambda j, d: w.t(j, d) + z3.If(d == s, 0, w.tau("pass", j, d, s))
    return z3.Implies(z3.Not(first), passes(ja, sa) >= passes(jb, sb) + w.res)


def c05(repo):
    w = W(repo)
    E = w.E
    s = z3.Const("s", Atom)
    i = z3.Int("i")
    j = [fn("ts.Jswitch.get.at.t%d" % k, [s, i], Atom) for k in (0, 1)]
    way = [fn("ts.Jswitch.get.at.w%d" % k, [s, i], Atom) for k in (0, 1)]
    listed = z3.And(fn("ts.Jswitch.has", [s], z3.BoolSort()), 0 <= i, i < fn("ts.Jswitch.get.len", [s], z3.IntSort()))
    # a train entering has a station before
    pre = [z3.ForAll([s, i], z3.Implies(z3.And(listed, way[k] == E.lit(IN)), w.has_prev(j[k], s))) for k in (0, 1)]
    at = [z3.If(way[k] == E.lit(OUT), s, w.prev(j[k], s)) for k in (0, 1)]

    def rule(a, b):
        return z3.ForAll([s, i], z3.Implies(z3.And(listed, z3.Not(STOCK(j[0], j[1]))), clears(w, s, j[a], at[a], j[b], at[b])))
    phi = [("second of the pair waits", rule(1, 0)), ("first of the pair waits", rule(0, 1))]
    hs = ["not_the_same_rolling_stock", "can_MO_on_line"]
    helper_obligations(w, hs)
    sym = symmetric(w)
    hc = helper_contracts(hs)
    names = ["s", "jp", "sp", "jpp", "spp"]
    if has_func(w, LS, "switch_occ", names + FAM):
        v = {n: z3.Const("r" + n, Atom) for n in names}
        at_s = [z3.Or(v[b] == v["s"], z3.And(w.has_prev(v[a], v["s"]), v[b] == w.prev(v[a], v["s"]))) for a, b in (("jp", "sp"), ("jpp", "spp"))]
        single(w, "switch_occ", names + FAM, v, clears(w, *[v[n] for n in names]), w.bounds() + w.idx_def() + at_s + sym, hc)
        hc["switch_occ"] = rule_contract(names, lambda *a: clears(w, *a))
    family(w, "switch_occupation", FAM, phi, w.bounds() + w.idx_def() + pre + sym, contracts=hc)
    return w


def over_lemmas(w):
    j, k, s, x = z3.Consts("lj lk ls lx", Atom)
    a = z3.ForAll([j, k, s], z3.Implies(OVER(j, k, s), z3.And(w.has_prev(j, s), w.has_prev(k, s))))
    b = z3.ForAll([j, k, s, x], z3.Implies(z3.And(w.has_prev(j, s), w.has_prev(k, s), w.prev(j, s) != w.prev(k, s), fn("ts.Jd.has", [x], _B)),
                                           OVER(j, k, s)))
    d = definitions(w, ["over"])
    w.E.obls.append(Obligation("lemma/trains that can overtake both arrive", d, a, "lemma"))
    w.E.obls.append(Obligation("lemma/trains from different stations can change order", d, b, "lemma"))
    return [a, b]


def in_track(w, a, b, s):
    return occurs(w, a, b, fn("ts.Jtrack.get.len", [s], _I), lambda g, i: fn("ts.Jtrack.get.at.at", [s, g, i], Atom),
                  lambda g: fn("ts.Jtrack.get.at.len", [s, g], _I))


def waits(w, s, first, second):
    """second arrives after first has left, if first goes first; a train that hands its stock on has the order of its successor"""
    q = z3.Int(uid("q"))
    arr_by = lambda j: w.t(j, w.prev(j, s)) + w.tau("pass", j, w.prev(j, s), s)
    extra = z3.And(z3.Bool("ts.add_swithes_at_s?"), z3.Exists([q], z3.And(
        0 <= q, q < z3.Int("ts.add_swithes_at_s.len"), fn("ts.add_swithes_at_s.at", [q], Atom) == s)))
    dep = w.t(first, s) + z3.If(extra, w.res, 0)
    goes = z3.Not(w.first3(second, first, s))
    arrival = z3.If(TAKES(second, s), arr_by(GIVER(second, s)), z3.If(w.has_prev(second, s), arr_by(second), w.earliest(second, s)))
    return z3.If(HANDS(first, s), w.first3(second, first, s) == w.first3(second, SUCC(first, s), s),
                 z3.Implies(goes, arrival >= dep))


def keep(w, s, x, y):
    """x and y, listed in this order, keep the order in which they come over the line or the entry switch"""
    o = w.E.lit(OS)
    sp = w.prev(x, s)
    line = z3.And(w.has_prev(x, s), fn("ts.Jd.has", [sp], _B), fn("ts.Jd.get.has", [sp, s], _B))
    same_line = z3.And(line, w.has_prev(y, s), w.prev(y, s) == sp, z3.Not(OVER(x, y, s)), w.H(x, y, o, sp))
    return z3.And(z3.Implies(same_line, w.Y(x, y, o, s) == w.Y(x, y, o, sp)),
                  z3.Implies(z3.And(line, OVER(x, y, s), COMMON(x, y, s)), w.first_in(x, y, s) == w.Y(x, y, o, s)))


def c04(repo):
    w = W(repo)
    E = w.E
    s = z3.Const("s", Atom)
    g, a, b = z3.Ints("g a b")
    member = lambda gg, i: fn("ts.Jtrack.get.at.at", [s, gg, i], Atom)
    listed = z3.And(fn("ts.Jtrack.has", [s], _B), 0 <= g, g < fn("ts.Jtrack.get.len", [s], _I),
                    0 <= a, a < b, b < fn("ts.Jtrack.get.at.len", [s, g], _I))
    x, y = member(g, a), member(g, b)
    dom = z3.And(listed, z3.Not(STOCK(x, y)))
    j = z3.Const("dj", Atom)
    arrives = [z3.ForAll([j, s], z3.Implies(TAKES(j, s), w.has_prev(GIVER(j, s), s)))]
    on_path = [z3.ForAll([s, g, a], z3.Implies(z3.And(fn("ts.Jtrack.has", [s], _B), 0 <= g, g < fn("ts.Jtrack.get.len", [s], _I), 0 <= a,
                                                      a < fn("ts.Jtrack.get.at.len", [s, g], _I)), w.on_path(member(g, a), s)))]
    # the order variable of a listed pair at the station is stored as listed (C08 together with the common listing order)
    o = E.lit(OS)
    stored = [z3.ForAll([s, g, a, b], z3.Implies(listed, w.H(x, y, o, s)))]

    def quant(f):
        return z3.ForAll([s, g, a, b], z3.Implies(dom, f))
    phi = [("second listed waits", quant(z3.Implies(z3.Not(SKIP(x, s)), waits(w, s, x, y)))),
           ("first listed waits", quant(z3.Implies(z3.Not(SKIP(y, s)), waits(w, s, y, x)))),
           ("order of arrival is kept", quant(keep(w, s, x, y)))]
    helper_obligations(w, list(HELPERS))
    hc = helper_contracts(HELPERS)
    at = {"s": z3.Const("rs", Atom), "j": z3.Const("rj", Atom), "jp": z3.Const("rjp", Atom)}
    rs, rj, rjp = at["s"], at["j"], at["jp"]
    here = [w.on_path(rj, rs), w.on_path(rjp, rs), rj != rjp]
    top = dict(hc)
    if has_func(w, LS, "trains_order_at_s", ["s", "j", "jp"] + FAM):
        single(w, "trains_order_at_s", ["s", "j", "jp"] + FAM, at, waits(w, rs, rj, rjp), w.bounds() + w.idx_def() + arrives + here, hc)
        top["trains_order_at_s"] = rule_contract(["s", "j", "jp"], lambda a, b, c: waits(w, a, b, c))
    if has_func(w, LS, "keep_trains_order", ["s", "j", "jp", "problem", "y", "train_sets"]):
        lm = over_lemmas(w)
        q, q2 = z3.Consts("eq eq2", Atom)
        pre = [z3.Not(fn("ts.Jd.has", [E.lit(None)], _B)),  # None is no station
               z3.ForAll([q, q2, s], z3.Implies(COMMON(q, q2, s), z3.And(w.has_prev(q, s), w.has_prev(q2, s))))]
        shared = lm + pre + [fn("ts.Jtrack.has", [rs], _B), in_track(w, rj, rjp, rs), w.H(rj, rjp, o, rs)]
        single(w, "keep_trains_order", ["s", "j", "jp", "problem", "y", "train_sets"], at, keep(w, rs, rj, rjp),
               w.bounds() + w.idx_def() + here + shared, hc)
        top["keep_trains_order"] = rule_contract(["s", "j", "jp"], lambda a, b, c: keep(w, a, b, c))
    family(w, "track_occuparion", FAM, phi, w.bounds() + w.idx_def() + arrives + on_path + stored, contracts=top)
    return w


def c07(repo):
    w = W(repo)
    E = w.E
    j, s = z3.Consts("train station", Atom)
    DEF = z3.Function("defined", Atom, Atom, _B)
    x, t = z3.Consts("xj xs", Atom)
    ic = lambda a, b: fn("tt.initial_conditions.has", [a, b], _B)
    # a time is defined at a station with an initial condition and at every station after one
    hyps = w.idx_def() + [
        z3.ForAll([x, t], DEF(x, t) == z3.And(w.on_path(x, t), z3.Or(ic(x, t), z3.And(w.has_prev(x, t), DEF(x, w.prev(x, t))))),
                  patterns=[DEF(x, t)]),
        # the timetable has the times of every step of the path
        z3.ForAll([x, t], z3.Implies(w.has_prev(x, t), z3.And(fn("tt.tau.pass.has", [x, w.prev(x, t), t], _B),
                                                              fn("tt.tau.stop.has", [x, t], _B))), patterns=[w.idx(x, t)]),
        fn("ts.Paths.has", [j], _B), DEF(j, s)]
    calls = []

    def again(E, st, b):
        a, c = E.to_sort(b["train"], Atom), E.to_sort(b["station"], Atom)
        E.obls.append(Obligation("earliest_dep_time/recursive call is defined", list(st.facts) + list(st.pc), z3.And(a == j, DEF(a, c)), "pre"))
        E.obls.append(Obligation("earliest_dep_time/recursion terminates", list(st.facts) + list(st.pc),
                                 z3.And(0 <= w.idx(a, c), w.idx(a, c) < w.idx(j, s)), "termination"))
        calls.append(1)
        return [(st, SV(EARLIEST(a, c)))]
    paths = make(E, ("dict", ["atom"], "scalar", ("list", "atom")), "ts.Paths")
    con = {"earliest_dep_time": {"params": ["S", "timetable", "train", "station"], "apply": again}}
    f, vals, outs, exs = w.run(HF, "earliest_dep_time", {"S": paths, "timetable": w.tt, "train": SV(j), "station": SV(s)}, con, hyps=hyps)
    p = w.prev(j, s)
    un = z3.If(ic(j, s), fn("tt.initial_conditions.get", [j, s], z3.RealSort()),
               EARLIEST(j, p) + w.tau("pass", j, p, s) + w.tau("stop", j, s))
    given = z3.And(z3.Bool("tt.schedule?"), fn("tt.schedule.has", [j, s], _B))
    sc = fn("tt.schedule.get", [j, s], z3.RealSort())
    want = z3.If(z3.And(given, sc > un), sc, un)
    for k, (st, v) in enumerate(outs):
        w.oblige("earliest_dep_time/value/path%d" % k, st, real(E.num(v)) == want)
    for k, (st, n) in enumerate(exs):
        w.oblige("earliest_dep_time/no %s/%d" % (n, k), st, z3.BoolVal(False), "safety")
    return w


# variables ---------------------------------------------------------------------

def base4(ks):
    return fn("y" + ".get" * (len(ks) - 1) + ".has", list(ks), _B)


def base2(ks):
    return fn("delay" + ".get" * (len(ks) - 1) + ".has", list(ks), _B)


def rev(w, k):
    """the key of the opposite order"""
    E = w.E
    a, b, c, d = k
    io, os_ = a == E.lit(IN), c == E.lit(OS)
    return (z3.If(io, a, b), z3.If(io, c, a), z3.If(io, b, z3.If(os_, c, d)), z3.If(io, d, z3.If(os_, d, c)))


def keq(k, q):
    return z3.And([a == b for a, b in zip(k, q)])


def key_of(w, kind, args):
    """key under which the order of two trains at a place is kept"""
    E = w.E
    if kind == 3:
        j, jp, s = args
        return (j, jp, E.lit(OS), s)
    if kind == 4:
        return tuple(args)
    j, jp, s = args
    return (E.lit(IN), j, jp, s)


def binary(E, v):
    """a variable with values 0 and 1"""
    return isinstance(v, VarV) and v.attrs.get("lowBound") == 0 and v.attrs.get("upBound") == 1 and v.attrs.get("cat") in ("Integer",) \
        or isinstance(v, VarV) and v.attrs.get("cat") == "Binary"


def update_contract(w, n, depth, base):
    """update_dictofdicts adds one path and leaves the others as they were"""
    E = w.E
    ks = z3.Consts("uk0 uk1 uk2 uk3", Atom)[:depth]
    q = z3.Consts("uq0 uq1 uq2 uq3", Atom)[:depth]
    mark = VarV(z3.Real("u_leaf"), {"mark": True})
    d2 = mark
    for k in reversed(ks):
        d2 = FinDict([(SV(k), d2)])
    whole = lambda kk: z3.And([base(kk[:m]) for m in range(1, depth + 1)])

    def d1(e, st):
        root = e.alloc(st, NestObj())
        return Nest(root, (), depth, base, None)
    absent = z3.Not(whole(ks))
    f, vals, outs, exs = w.run(HF, "update_dictofdicts", {"d1": d1, "d2": d2}, hyps=[absent])
    name = "update_dictofdicts/%d levels" % depth
    for i, (st, v) in enumerate(outs):
        nest = vals["d1"]
        tag = "" if len(outs) == 1 else "/path%d" % i
        after = z3.And([present(E, nest, tuple(q[:m]), st) for m in range(1, depth + 1)])
        w.oblige(name + "/adds the path and no other" + tag, st, after == z3.Or(whole(q), keq(q, ks)))
        w.oblige(name + "/stores the variable" + tag, st, z3.And([z3.Implies(c, z3.BoolVal(x is mark))
                                                                 for c, x in stored_at(E, st.heap[nest.root.id].nodes, tuple(ks), st)]))
        w.oblige(name + "/keeps the other variables" + tag, st,
                 z3.Implies(z3.Not(keq(q, ks)), z3.Not(z3.Or([c for c, x in stored_at(E, st.heap[nest.root.id].nodes, tuple(q), st)] or [z3.BoolVal(False)]))))
    for i, (st, x) in enumerate(exs):
        w.oblige(name + "/no %s/%d" % (x, i), st, z3.BoolVal(False), "safety")


def c08(repo):
    w = W(repo)
    E = w.E
    update_contract(w, "y", 4, base4)
    update_contract(w, "delay", 2, base2)

    def put(E, st, b):
        keys, leaf = chain(E, b["d2"], st)
        if isinstance(b["d1"], Nest):
            nest = b["d1"]
            k = keys
            E.obls.append(Obligation("%s/the variable is new" % fname[0], list(st.facts) + list(st.pc),
                                     z3.Not(z3.And([present(E, nest, nest.path + k[:m], st) for m in range(1, len(k) + 1)])), "pre"))
            st = st.fork()
            st.heap[nest.root.id] = st.heap[nest.root.id].add(Item(("add", nest.path + k, leaf)))
            return [(st, b["d1"])]
        return [(log_write(E, st, b["d1"], Item(("add", keys, leaf))), b["d1"])]
    fname = [""]
    upd = {"update_dictofdicts": {"params": ["d1", "d2"], "apply": put}}
    at = {n: z3.Const("r" + n, Atom) for n in ("j", "jp", "s", "sp")}
    names = [z3.And(at[n] != E.lit(IN), at[n] != E.lit(OS)) for n in at]  # trains and stations are not called "in" or "one_station"
    sep = names + [at["j"] != at["jp"]]
    UPD = {"update_y3": (3, ["order_var", "j", "jp", "s"]), "update_y4": (4, ["order_var", "j", "jp", "s", "sp"]),
           "update_y4_in": ("in", ["order_var", "a", "j", "jp", "s"])}
    ens = {}
    q = z3.Consts("q0 q1 q2 q3", Atom)
    for n, (kind, params) in UPD.items():
        if not has_func(w, LS, n, params):
            continue
        fname[0] = n
        args = {p: (SV(at[p]) if p in at else IN) for p in params if p != "order_var"}
        args["order_var"] = lambda e, st: Nest(e.alloc(st, NestObj()), (), 4, base4, None)
        f, vals, outs, exs = w.run(LS, n, args, upd, hyps=sep)
        k = key_of(w, kind, [at[p] for p in params if p in at])
        H = lambda x: z3.And([base4(x[:m]) for m in range(1, 5)])
        for i, (st, v) in enumerate(outs):
            tag = "" if len(outs) == 1 else "/path%d" % i
            nodes = st.heap[vals["order_var"].root.id].nodes
            added = disj(nodes, lambda x: keq(x[1], q))
            w.oblige(n + "/one variable unless one of the two orders has it" + tag, st,
                     added == z3.And(keq(q, k), z3.Not(H(k)), z3.Not(H(rev(w, k)))))
            w.oblige(n + "/variables are binary" + tag, st, conj(nodes, lambda x: z3.BoolVal(bool(binary(E, x[2])))))
            w.oblige(n + "/at most one variable is added" + tag, st, z3.BoolVal(len(list(leaves(nodes))) <= 1))
        for i, (st, x) in enumerate(exs):
            w.oblige(n + "/no %s/%d" % (x, i), st, z3.BoolVal(False), "safety")

        def apply(E, st, b, kind=kind, params=params):
            if kind == "in" and b["a"] != IN:
                return None
            k = key_of(w, kind, [E.to_sort(b[p], Atom) for p in params if p not in ("order_var", "a")])
            return [(log_write(E, st, b["order_var"], Item(("ensure", k))), None)]
        ens[n] = {"params": params, "apply": apply}
    # one step "add k unless k or its opposite is there" keeps: not both orders; keeps what is there; afterwards one of the two is there
    P = z3.Function("P", Atom, Atom, Atom, Atom, _B)
    k = z3.Consts("k0 k1 k2 k3", Atom)
    name4 = lambda x: z3.And(z3.Implies(x[0] != E.lit(IN), x[1] != E.lit(IN)),
                             z3.Implies(x[0] == E.lit(IN), z3.And(x[1] != E.lit(IN), x[2] != E.lit(IN), x[2] != E.lit(OS))),
                             z3.Implies(x[2] != E.lit(OS), x[3] != E.lit(OS)))
    inv = lambda R: z3.ForAll(q, z3.Implies(z3.And(name4(q), z3.Not(keq(q, rev(w, q)))), z3.Not(z3.And(R(*q), R(*rev(w, q))))))
    P2 = lambda *x: z3.Or(P(*x), z3.And(keq(x, k), z3.Not(P(*k)), z3.Not(P(*rev(w, k)))))
    L = lambda n, hyps, g: E.obls.append(Obligation("lemma/" + n, hyps, g, "lemma"))
    L("a step keeps at most one order per pair", [inv(P), name4(k)], inv(P2))
    L("after a step one of the two orders is there", [name4(k)], z3.Or(P2(*k), P2(*rev(w, k))))
    L("a step removes nothing", [], z3.ForAll(q, z3.Implies(P(*q), P2(*q))))
    L("the opposite of the opposite", [name4(q)], keq(rev(w, rev(w, q)), q))
    # the steps taken are those of the competing pairs
    s, sp = z3.Consts("s sp", Atom)
    g, a, b, i = z3.Ints("g a b i")
    I = z3.IntSort()
    groups = lambda root, *p: z3.And(0 <= g, g < fn(root + ".len", list(p), I), 0 <= a, a < b, b < fn(root + ".at.len", list(p) + [g], I))
    mem = lambda root, p, x: fn(root + ".at.at", list(p) + [g, x], Atom)
    jd = ([s, sp, g, a, b], z3.And(fn("ts.Jd.has", [s], _B), fn("ts.Jd.get.has", [s, sp], _B), groups("ts.Jd.get.get", s, sp)),
          key_of(w, 3, (mem("ts.Jd.get.get", (s, sp), a), mem("ts.Jd.get.get", (s, sp), b), s)))
    tr = ([s, g, a, b], z3.And(fn("ts.Jtrack.has", [s], _B), groups("ts.Jtrack.get", s)),
          key_of(w, 3, (mem("ts.Jtrack.get", (s,), a), mem("ts.Jtrack.get", (s,), b), s)))
    jo = ([s, sp, i], z3.And(fn("ts.Josingle.has", [s, sp], _B), 0 <= i, i < fn("ts.Josingle.get.len", [s, sp], I)),
          (fn("ts.Josingle.get.at.0", [s, sp, i], Atom), fn("ts.Josingle.get.at.1", [s, sp, i], Atom), s, sp))
    t = [fn("ts.Jswitch.get.at.t%d" % n, [s, i], Atom) for n in (0, 1)]
    way = [fn("ts.Jswitch.get.at.w%d" % n, [s, i], Atom) for n in (0, 1)]
    listed = z3.And(fn("ts.Jswitch.has", [s], _B), 0 <= i, i < fn("ts.Jswitch.get.len", [s], I))
    pre = [z3.ForAll([s, i], z3.Implies(z3.And(listed, way[n] == E.lit(IN)), w.has_prev(t[n], s))) for n in (0, 1)]
    frm = [z3.If(way[n] == E.lit(OUT), s, w.prev(t[n], s)) for n in (0, 1)]
    k3, k4, kin = key_of(w, 3, (t[0], t[1], frm[0])), (t[0], t[1], frm[0], frm[1]), key_of(w, "in", (t[0], t[1], s))
    pick = lambda c, x, y: tuple(z3.If(c, u, v) for u, v in zip(x, y))
    over = z3.And(frm[0] != s, OVER(t[0], t[1], s))
    sw = ([s, i], listed, pick(frm[0] == frm[1], pick(over, kin, k3), pick(z3.Or(s == frm[0], s == frm[1]), k4, kin)))
    helper_obligations(w, ["can_MO_on_line"])
    con = dict(ens, **helper_contracts(["can_MO_on_line"]))
    f, vals, outs, exs = w.run(LS, "order_variables", {"train_sets": w.ts}, con)
    for n, (st, v) in enumerate(outs):
        if not isinstance(v, Ref) or not isinstance(st.heap[v.id], NestObj):
            raise Unsupported("order variables are not a nested dictionary")
        nodes = st.heap[v.id].nodes
        tag = "" if len(outs) == 1 else "/path%d" % n
        for what, (bs, dom, key) in (("lines", jd), ("station tracks", tr), ("single tracks", jo), ("switches", sw)):
            got = disj(nodes, lambda x: z3.Or(keq(x[1], key), keq(x[1], rev(w, key))))
            w.oblige("order_variables/every pair competing for %s%s" % (what, tag), st, z3.ForAll(bs, z3.Implies(dom, got)), extra=pre + w.idx_def())
        same = lambda x, fam: z3.Exists(fam[0], z3.And(fam[1], z3.Or(keq(x[1], fam[2]), keq(x[1], rev(w, fam[2])))))
        w.oblige("order_variables/no other variable" + tag, st, conj(nodes, lambda x: z3.Or([same(x, fam) for fam in (jd, tr, jo, sw)])),
                 extra=pre + w.idx_def())
    # delay variables
    dm = z3.Real("d_max")
    cat = z3.Const("cat", Atom)
    hs = ["skip_station", "subsequent_train_at_Jround"]
    helper_obligations(w, hs)
    con = dict(upd, **helper_contracts(hs))
    fname[0] = "delay_varibles"
    f, vals, outs, exs = w.run(LS, "delay_varibles", {"train_sets": w.ts, "d_max": SV(dm), "cat": SV(cat)}, con)
    u, v2 = z3.Consts("u v", Atom)
    i2 = z3.Int("i2")
    distinct = [z3.ForAll([i, i2], z3.Implies(z3.And(0 <= i, i < i2, i2 < z3.Int("ts.J.len")), fn("ts.J.at", [i], Atom) != fn("ts.J.at", [i2], Atom)))]
    for n, (st, v) in enumerate(outs):
        if not isinstance(v, Ref) or not isinstance(st.heap[v.id], NestObj):
            raise Unsupported("delay variables are not a nested dictionary")
        nodes = st.heap[v.id].nodes
        tag = "" if len(outs) == 1 else "/path%d" % n
        want = z3.Exists([i, a], z3.And(0 <= i, i < z3.Int("ts.J.len"), fn("ts.J.at", [i], Atom) == u, 0 <= a, a < w.plen(u), w.path(u, a) == v2,
                                        z3.Not(SKIP(u, v2)), z3.Not(HANDS(u, v2))))
        have = disj(nodes, lambda x: keq(x[1], (u, v2)))
        w.oblige("delay_varibles/a variable for every station that needs one" + tag, st, z3.Implies(want, have))
        w.oblige("delay_varibles/no other variable" + tag, st, z3.Implies(have, want))

        def good(x):
            at_ = x[2].attrs if isinstance(x[2], VarV) else {}
            lo, up, c = at_.get("lowBound"), at_.get("upBound"), at_.get("cat")
            return z3.And(z3.BoolVal(not isinstance(lo, bool) and isinstance(lo, (int, float)) and lo == 0),
                          E.num(up) == dm if E.is_num(up) else z3.BoolVal(False), c.e == cat if isinstance(c, SV) else z3.BoolVal(False))
        w.oblige("delay_varibles/bounds and kind" + tag, st, conj(nodes, good))
        for m in nodes:
            two = twice(m, lambda x, y: z3.Not(keq(x[1], y[1])))
            w.oblige("delay_varibles/each variable is made once" + tag, st, two, "pre", extra=distinct + w.simple_paths())
    # complements
    for n, params, kr in (("get_y3", ["order_var", "j", "jp", "s"], ["j", "jp", "s"]), ("get_y4_singleline", ["y", "j", "jp", "s", "sp"], None),
                          ("get_y4_in", ["y", "a", "j", "jp", "s"], None)):
        if not has_func(w, LS, n, params):
            continue
        kind = {"get_y3": 3, "get_y4_singleline": 4, "get_y4_in": "in"}[n]
        vals = {p: SV(at[p]) for p in params if p in at}
        k = key_of(w, kind, [at[p] for p in params if p in at])
        swap = dict(vals, j=vals["jp"], jp=vals["j"])
        if kind == 4:
            swap.update(s=vals["sp"], sp=vals["s"])
        d0 = {"a": IN} if kind == "in" else {}
        one_of = z3.Xor(w.H(*k), w.H(*rev(w, k)))
        r1 = w.run(LS, n, dict(vals, **d0, **{params[0]: w.y}), hyps=sep + [one_of])
        r2 = w.run(LS, n, dict(swap, **d0, **{params[0]: w.y}), hyps=sep + [one_of])
        for x, (s1, v1) in enumerate(r1[2]):
            for y, (s2, v3) in enumerate(r2[2]):
                tag = "/%d%d" % (x, y)
                w.oblige(n + "/opposite order is the complement" + tag, s1, real(E.num(v1)) + real(E.num(v3)) == 1, extra=list(s2.facts) + list(s2.pc))
    return w


def twice(node, rel):
    """two different emissions of a loop node are related by rel"""
    def rec(n, bs, c):
        if isinstance(n, Item):
            return [(bs, c, n.v)]
        if isinstance(n, Guard):
            return [z for x in n.nodes for z in rec(x, bs, c + [n.g])]
        return [z for x in n.nodes for z in rec(x, bs + list(n.binders), c + [n.dom])]
    out = []
    ls = rec(node, [], [])
    for p, (bs, c, v) in enumerate(ls):
        for r, (bs2, c2, v2) in enumerate(ls):
            if r < p:
                continue
            nb = [z3.Const(uid("tw"), b.sort()) for b in bs2]
            m = list(zip(bs2, nb))
            cc = [z3.substitute(x, *m) for x in c2] if m else c2
            vv = subst(v2, m)
            diff = z3.Or([a != b for a, b in zip(bs, nb)]) if p == r else z3.BoolVal(True)
            body = z3.Implies(z3.And(c + cc + [diff]), rel(v, vv))
            out.append(z3.ForAll(bs + nb, body) if bs + nb else body)
    return z3.And(out)


# objective and reports -----------------------------------------------------------

class VarName:
    """name of the i-th variable of a model; names of delay variables are made of train and station"""

    def __init__(self, i):
        self.i = i

    def subst(self, m):
        return VarName(z3.substitute(self.i, *m))

    def vkey(self, E):
        return ("VN", self.i.get_id())

    def py_eq(self, E, o, st):
        if isinstance(o, VarName):
            return self.i == o.i
        if isinstance(o, FStr) and o.skeleton() == "Delays_{}_{}":
            j, s = [E.to_sort(a, Atom) for a in o.args()]
            return z3.And(fn("var.is_delay", [self.i], _B), fn("var.train", [self.i], Atom) == j, fn("var.station", [self.i], Atom) == s)
        raise Unsupported("comparison of a variable name")


class ModelVar:
    """i-th variable of a solved model"""

    def __init__(self, i):
        self.i = i

    def subst(self, m):
        return ModelVar(z3.substitute(self.i, *m))

    def vkey(self, E):
        return ("MV", self.i.get_id())

    def py_getattr(self, E, name, st):
        if name == "name":
            return [(st, VarName(self.i))]
        if name == "varValue":
            return [(st, SV(fn("var.value", [self.i], z3.RealSort())))]
        if name == "value":
            return None
        raise Unsupported("attribute %s of a variable" % name)

    def py_call(self, E, name, args, kw, st):
        if name == "value":
            return [(st, SV(fn("var.value", [self.i], z3.RealSort())))]


class Solved:
    """a solved model"""

    def vkey(self, E):
        return ("solved",)

    def subst(self, m):
        return self

    def py_call(self, E, name, args, kw, st):
        if name == "variables":
            i = z3.Int(uid("i"))
            return [(st, SeqV(z3.Int("var.len"), i, ModelVar(i)))]
        raise Unsupported("method %s of a model" % name)


class Supplied:
    """externally supplied values by variable name"""

    def vkey(self, E):
        return ("supplied",)

    def subst(self, m):
        return self

    def py_eq(self, E, o, st):
        return False

    def py_truth(self, E, st):
        return True

    def py_getitem(self, E, k, st):
        if not isinstance(k, VarName):
            raise Unsupported("key of the supplied data")
        return [(st, SV(fn("supplied", [k.i], z3.RealSort())))]


def c09(repo):
    w = W(repo)
    E = w.E
    R = z3.RealSort()
    W_ = lambda j, s: z3.If(fn("tt.penalty_weights.has", [j, s], _B), fn("tt.penalty_weights.get", [j, s], R), z3.RealVal(0))
    hyps = [w.dmax > 0]
    prob = lambda e, st: e.alloc(st, ProbObj())
    f, vals, outs, exs = w.run(LS, "objective", {"problem": prob, "timetable": w.tt, "delay_var": w.dv, "train_sets": w.ts, "d_max": SV(w.dmax)}, hyps=hyps)
    i, k = z3.Ints("i k")
    j = fn("ts.J.at", [i], Atom)
    s = w.path(j, k)
    dom = z3.And(0 <= i, i < z3.Int("ts.J.len"), 0 <= k, k < w.plen(j))
    for n, (st, v) in enumerate(outs):
        nodes = st.heap[vals["problem"].id].nodes
        tag = "" if len(outs) == 1 else "/path%d" % n
        objs = [x for x in leaves(nodes) if x[0] == "obj"]
        want = E.sum_term(st, [i, k], dom, w.D(j, s) * W_(j, s) / w.dmax)
        w.oblige("objective/one objective and no constraint" + tag, st, z3.BoolVal(len(objs) == 1 and len(list(leaves(nodes))) == 1))
        for o in objs[:1]:
            w.oblige("objective/weighted delays" + tag, st, o[1].e == want, extra=w.bounds())
    return reports(w)


def c09r(repo):
    return reports(W(repo))


def reports(w):
    """the reported delays, times and impacts"""
    E, R = w.E, z3.RealSort()
    W_ = lambda j, s: z3.If(fn("tt.penalty_weights.has", [j, s], _B), fn("tt.penalty_weights.get", [j, s], R), z3.RealVal(0))
    tr, at = z3.Consts("j s", Atom)
    a, b = z3.Ints("a b")
    n = z3.Int("var.len")
    isd = lambda x: z3.And(0 <= x, x < n, fn("var.is_delay", [x], _B))
    key = lambda x: (fn("var.train", [x], Atom), fn("var.station", [x], Atom))
    uniq = z3.ForAll([a, b], z3.Implies(z3.And(isd(a), isd(b), keq(key(a), key(b))), a == b))
    hyps = [w.dmax > 0, n >= 0]
    for src, data in (("solution", CList([])), ("supplied data", Supplied())):
        val = (lambda x: fn("var.value", [x], R)) if src == "solution" else (lambda x: fn("supplied", [x], R))
        hit = z3.And(isd(a), key(a)[0] == tr, key(a)[1] == at)
        f, vals, outs, exs = w.run(LS, "delay_and_acctual_time", {"train_sets": w.ts, "timetable": w.tt, "prob": Solved(), "j": SV(tr), "s": SV(at), "data": data},
                                   EARLIEST_CONTRACT, hyps=hyps)
        for m, (st, v) in enumerate(outs):
            v = E.view(v, st)
            v = v.items if isinstance(v, CList) else v
            tag = "" if len(outs) == 1 else "/path%d" % m
            d, free, conf = [real(E.num(x)) for x in v]
            w.oblige("delay_and_acctual_time/%s/delay of the variable%s" % (src, tag), st, z3.Implies(hit, d == val(a)), extra=[uniq])
            w.oblige("delay_and_acctual_time/%s/time is delay plus earliest departure%s" % (src, tag), st,
                     z3.Implies(hit, z3.And(conf == w.earliest(tr, at), free == val(a) + w.earliest(tr, at))), extra=[uniq])
        f, vals, outs, exs = w.run(LS, "impact_to_objective", {"prob": Solved(), "timetable": w.tt, "j": SV(tr), "s": SV(at), "d_max": SV(w.dmax), "data": data}, hyps=hyps)
        for m, (st, v) in enumerate(outs):
            tag = "" if len(outs) == 1 else "/path%d" % m
            imp = real(E.num(v))
            w.oblige("impact_to_objective/%s/is the term of the objective%s" % (src, tag), st,
                     z3.Implies(hit, imp == val(a) * W_(tr, at) / w.dmax), extra=[uniq])
            w.oblige("impact_to_objective/%s/nothing without a variable%s" % (src, tag), st,
                     z3.Implies(z3.Not(z3.Exists([a], hit)), imp == 0), extra=[uniq])
    return w


# composition -----------------------------------------------------------------------

FAMILIES = {
    "minimal_span": FAM, "minimal_stay": ["problem", "timetable", "delay_var", "train_sets"], "single_line": FAM, "track_occuparion": FAM,
    "rolling_stock_circ": ["problem", "timetable", "delay_var", "train_sets", "d_max"], "switch_occupation": FAM,
    "objective": ["problem", "timetable", "delay_var", "train_sets", "d_max"],
}


def whole(which):
    """create_linear_problem returns one model holding this part, built on the model's own variables"""
    def f(repo):
        w = W(repo)
        E = w.E
        cat = SV(z3.Const("cat", Atom))
        dmax = SV(w.dmax)
        made = {"delay": Opq("delay variables"), "order": Opq("order variables")}
        ok = {"delay": [], "order": []}

        def delays(E, st, b):
            ok["delay"].append(b["train_sets"] is w.ts and b["d_max"] is dmax and b["cat"] is cat)
            return [(st, made["delay"])]

        def orders(E, st, b):
            ok["order"].append(b["train_sets"] is w.ts)
            return [(st, made["order"])]
        con = {"delay_varibles": {"params": ["train_sets", "d_max", "cat"], "apply": delays},
               "order_variables": {"params": ["train_sets"], "apply": orders}}
        for n, params in FAMILIES.items():
            def apply(E, st, b, n=n, params=params):
                st = st.fork()
                good = all({"timetable": b.get(p) is w.tt, "delay_var": b.get(p) is made["delay"], "y": b.get(p) is made["order"],
                            "train_sets": b.get(p) is w.ts, "d_max": b.get(p) is dmax}[p] for p in params if p != "problem")
                st.heap[b["problem"].id] = st.heap[b["problem"].id].add(Item(("part", n, good)))
                return [(st, None)]
            con[n] = {"params": params, "apply": apply}
        f, vals, outs, exs = w.run(LS, "create_linear_problem", {"train_sets": w.ts, "timetable": w.tt, "d_max": dmax, "cat": cat}, con)
        for k, (st, v) in enumerate(outs):
            if not isinstance(v, Ref) or not isinstance(st.heap[v.id], ProbObj):
                raise Unsupported("no model returned")
            parts = list(leaves(st.heap[v.id].nodes))
            if any(p[0] != "part" for p in parts):
                raise Unsupported("the model is built in another way")
            tag = "" if len(outs) == 1 else "/path%d" % k
            plain = all(isinstance(n, Item) for n in st.heap[v.id].nodes)
            for n in which:
                mine = [p for p in parts if p[1] == n]
                w.oblige("create_linear_problem/%s is part of the model%s" % (n, tag), st, z3.BoolVal(plain and len(mine) == 1 and all(p[2] for p in mine)))
            w.oblige("create_linear_problem/variables are made once, from the given data%s" % tag, st,
                     z3.BoolVal(ok["delay"] == [True] and ok["order"] == [True]))
        return w
    return f


m01, m02, m03 = whole(["minimal_span"]), whole(["single_line"]), whole(["minimal_stay"])
m04, m05, m06 = whole(["track_occuparion"]), whole(["switch_occupation"]), whole(["rolling_stock_circ"])
m09 = whole(["objective"])
m08 = whole(list(FAMILIES))
