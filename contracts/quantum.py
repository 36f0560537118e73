"""Contracts of the way from a problem over a sampler to a solution (C28) and of the reported sizes (C29)."""
import z3
from pyvc.values import *
from pyvc.inputs import fn
from pyvc.interp import Engine, State, Obligation
from pyvc.prims import install, one, real
from pyvc import lp  # noqa: F401
from .models import entries

HE = "helpers.py"
CQ = "railway_solvers/railway_solvers/converter_cqm.py"
BQ = "railway_solvers/railway_solvers/converter_bqm.py"
RM = "railway_solvers/railway_solvers/results_manipulation.py"
DW = "railway_solvers/railway_solvers/d_wave_solves.py"
I, R = z3.IntSort(), z3.RealSort()
Obj = z3.DeclareSort("Obj")


def of(name, *a):
    return fn(name, list(a), Obj)


class ObjV:
    """something made by a library or by a function used by its contract"""

    def __init__(self, e, call=None):
        self.e, self.call = e, call

    def subst(self, m):
        return ObjV(z3.substitute(self.e, *m), self.call)

    def vkey(self, E):
        return ("ObjV", self.e.get_id())

    def py_eq(self, E, o, st):
        return self.e == o.e if isinstance(o, ObjV) else False

    def py_getattr(self, E, name, st):
        return one(st, ObjV(of("." + name, self.e)))


class Sampler:
    """sampler of a library: its answer depends on the model it is given"""

    def __init__(self, kind, props):
        self.kind, self.props = kind, props

    def subst(self, m):
        return self

    def vkey(self, E):
        return ("Sampler", self.kind, self.props.id)

    def py_getattr(self, E, name, st):
        return one(st, self.props) if name == "properties" else None

    def py_call(self, E, name, args, kw, st):
        if name in ("sample", "sample_cqm"):
            m = args[0] if args else kw.get("bqm", kw.get("cqm"))
            if isinstance(m, ObjV):
                return one(st, ObjV(of(self.kind + "." + name, m.e)))
        raise Unsupported("%s of a sampler" % name)


def term(E, v, st):
    """the thing, or a name that equals no other thing"""
    v = v if isinstance(v, ObjV) else E.view(v, st)
    if isinstance(v, ObjV):
        return v.e
    if v is None or isinstance(v, (str, int, float, SV)):
        return of("other", z3.Int(uid("other")))
    raise Unsupported("a library object is taken apart")


class Q:
    def __init__(self, repo):
        E = self.E = Engine(repo)
        install(E)
        self.clock = []

        def make(kind):
            def f(E, st, _, args, kw):
                st = st.fork()
                return one(st, Sampler(kind, E.alloc(st, DictObj())))
            return f
        E.prims = dict(E.prims)
        E.prims.update({
            "neal.SimulatedAnnealingSampler": make("anneal"), "dwave.system.EmbeddingComposite": make("embedded"),
            "dwave.system.DWaveSampler": make("device"), "dwave.system.LeapHybridSampler": make("hybrid"),
            "dwave.system.LeapHybridCQMSampler": make("constrained"),
            "time.time": lambda E, st, _, args, kw: now(self, st, 0),
            "time.perf_counter": lambda E, st, _, args, kw: now(self, st, z3.Real("perf_counter.start")),
            "time.monotonic": lambda E, st, _, args, kw: now(self, st, z3.Real("monotonic.start")),
        })

    def run(self, rel, fname, args, contracts=None, hyps=(), setup=None):
        E = self.E
        E.contracts = dict(contracts or {})
        f = E.find(rel, fname)
        st = State({}, {}, (), tuple(hyps))
        if setup:
            setup(st)
        E.exc = [[]]
        return E.call_func_body(f, [], dict(args), st)

    def oblige(self, name, st, goal, extra=()):
        self.E.obls.append(Obligation(name, list(st.facts) + list(st.pc) + list(extra), goal))

    def never(self, name):
        for k, (st, exc) in enumerate(self.E.exc[0]):
            self.oblige("%s/no %s/%d" % (name, exc, k), st, z3.BoolVal(False))


def tag(name, m, outs):
    return name if len(outs) == 1 else "%s/path%d" % (name, m)


def tup(E, v, st, n):
    v = E.view(v, st)
    v = list(v) if isinstance(v, tuple) else v.items if isinstance(v, CList) else []
    if len(v) != n:
        raise Unsupported("result of %d parts expected" % n)
    return v


SAMPLERS = [  # function, parameter of the model, sampler, its method, gives its properties as well
    ("sim_anneal", "bqm", "anneal", "sample", False), ("real_anneal", "bqm", "embedded", "sample", False),
    ("hybrid_anneal", "bqm", "hybrid", "sample", True), ("constrained_solver", "cqm", "constrained", "sample_cqm", True)]


def c28(repo):
    w = Q(repo)
    E = w.E
    prob, pdict, limit = ObjV(of("prob")), ObjV(of("pdict")), z3.Int("limit")
    drawn = lambda kind, meth, m: of(kind + "." + meth, m)

    # the sampler functions hand on the model and return the answer
    for f, par, kind, meth, both in SAMPLERS:
        m = of("model")
        more = {"minimum_time_limit": SV(limit)} if both else {}
        if f != "hybrid_anneal" and f != "constrained_solver":
            more = {"num_reads": SV(z3.Int("reads"))}
            if f == "real_anneal":
                more.update({"annealing_time": SV(z3.Int("atime")), "chain_strength": SV(z3.Int("chain"))})
        outs = w.run(DW, f, dict({par: ObjV(m)}, **more))
        for n, (st, v) in enumerate(outs):
            g = tag(f, n, outs)
            ss, props = tup(E, v, st, 2) if both else (v, None)
            w.oblige(g + "/the answer to the model given", st, term(E, ss, st) == drawn(kind, meth, m))
            if both:
                e = entries(E, props, st)
                x = e.get("minimum_time_limit_s")
                w.oblige(g + "/the time limit is set", st, E.num(x) == limit if x is not None and E.is_num(x) or isinstance(x, SV) else z3.BoolVal(False))
        w.never(f)

    # the methods
    params = lambda rel, f: [a.arg for a in E.find(rel, f).node.args.args]
    pb, pc = params(BQ, "convert_to_bqm"), params(CQ, "convert_to_cqm")

    def bqm(E, st, b):
        p, d = [term(E, b[x], st) for x in pb[:2]]
        call = lambda ss: of("decoded", of("coding", p, d), ss)
        return one(st, (ObjV(of("qubo", p, d)), ObjV(of("qubo_dict", p, d)), Prim(".__call__", Decoder(call))))

    def cqm(E, st, b):
        return one(st, ObjV(of("constrained", term(E, b[pc[0]], st))))

    def sampler(f, par, kind, meth, both):
        def apply(E, st, b):
            m = term(E, b[par], st)
            ss = ObjV(drawn(kind, meth, m))
            if not both:
                return one(st, ss)
            t = b.get("minimum_time_limit")
            return one(st, (ss, ObjV(of("properties of " + kind, E.num(t) if t is not None else z3.IntVal(-1)))))
        return {"params": [par], "apply": apply}
    con = {f: sampler(f, *r) for f, *r in SAMPLERS}
    con["convert_to_bqm"] = {"params": pb[:2], "apply": bqm}
    con["convert_to_cqm"] = {"params": pc[:1], "apply": cqm}
    qubo = of("qubo", prob.e, pdict.e)
    coded = lambda ss: of("decoded", of("coding", prob.e, pdict.e), ss)
    for method, kind, meth, model in (("sim", "anneal", "sample", qubo), ("real", "embedded", "sample", qubo), ("bqm", "hybrid", "sample", qubo),
                                      ("cqm", "constrained", "sample_cqm", of("constrained", prob.e))):
        outs = w.run(HE, "q_process", {"prob": prob, "method": method, "pdict": pdict, "minimum_time_limit": SV(limit)}, con)
        for n, (st, v) in enumerate(outs):
            g = tag("q_process/" + method, n, outs)
            got, props, info = tup(E, v, st, 3)
            ss = drawn(kind, meth, model)
            w.oblige(g + "/samples of the given problem in its own variables", st, term(E, got, st) == (ss if method == "cqm" else coded(ss)))
            w.oblige(g + "/what the solver says about its run", st, term(E, info, st) == of(".info", ss))
            if method in ("bqm", "cqm"):
                w.oblige(g + "/run with the given time limit", st, term(E, props, st) == of("properties of " + kind, limit))
        w.never("q_process/" + method)

    # the solution
    meth = z3.Const("method", Atom)
    spent = []

    def process(E, st, b):
        m = E.to_sort(b["method"], Atom)
        a = [term(E, b["prob"], st), m, term(E, b["pdict"], st), E.num(b["minimum_time_limit"])]
        (st, t0), = now(w, st, 0)
        (st, t1), = now(w, st, 0)
        spent.append((st.facts[-1], t1.e - t0.e))
        return one(st, tuple(ObjV(of("process.%d" % k, *a)) for k in range(3)))

    def results(E, st, b):
        return one(st, ObjV(of("results", term(E, b["sampleset"], st), term(E, b["prob"], st))))

    def best(E, st, b):
        st = st.fork()
        r = term(E, b["dict_list"], st)
        return one(st, E.alloc(st, DictObj([Item(("put", k, ObjV(of("best." + k, r)))) for k in KEPT])))
    con = {"q_process": {"params": ["prob", "method", "pdict", "minimum_time_limit"], "apply": process},
           "get_results": {"params": ["sampleset", "prob"], "apply": results},
           "get_best_feasible_sample": {"params": ["dict_list"], "apply": best}}
    w.clock = []
    (_, begin), = now(w, State(), 0)
    outs = w.run(HE, "solve_on_quantum", {"prob": prob, "method": SV(meth), "pdict": pdict, "minimum_time_limit": SV(limit)}, con)
    part = lambda k: of("process.%d" % k, prob.e, meth, pdict.e, limit)
    chosen = of("results", part(0), prob.e)
    for n, (st, v) in enumerate(outs):
        g = tag("solve_on_quantum", n, outs)
        e = entries(E, v, st)
        for k in KEPT:
            w.oblige("%s/%s of the best sample" % (g, k), st, term(E, e.get(k), st) == of("best." + k, chosen))
        w.oblige(g + "/info of the run", st, term(E, e.get("info"), st) == part(2))
        w.oblige(g + "/properties of the solver", st, term(E, e.get("properties"), st) == part(1))
        w.oblige(g + "/computing time", st, z3.BoolVal("comp_time_seconds" in e))
        st, end = now(w, st, 0)[0]
        if "comp_time_seconds" in e:
            t = E.num(e["comp_time_seconds"])
            w.oblige(g + "/computing time/covers the drawing of samples", st, t >= z3.Sum([d for f, d in spent if any(f.eq(x) for x in st.facts)]))
            w.oblige(g + "/computing time/no longer than the call", st, t <= end.e - begin.e)
    w.never("solve_on_quantum")
    return w


KEPT = ("energy", "objective", "feasible", "sample", "feas_constraints")


def now(w, st, start):
    """a reading of the clock, not before the earlier ones"""
    st = st.fork()
    c = z3.Real(uid("clock"))
    st.facts += tuple(c >= x for x in w.clock)
    w.clock.append(c)
    return one(st, SV(c + start))


class Decoder:
    def __init__(self, call):
        self.call = call

    def subst(self, m):
        return self

    def py_call(self, E, name, args, kw, st):
        return one(st, ObjV(self.call(term(E, args[0] if args else kw["sampleset"], st))))


# C29 ------------------------------------------------------------------------------------

class Named:
    """variable of the problem"""

    def __init__(self, name):
        self.name = name

    def subst(self, m):
        return Named(subst(self.name, m))

    def vkey(self, E):
        return ("Named", E.vkey(self.name))

    def py_str(self, E):
        return self.name

    def py_getattr(self, E, name, st):
        return one(st, self.name) if name == "name" else None


class Sized:
    """problem with named variables and constraints"""
    n = z3.Int("variables")
    name = z3.Function("name", I, z3.StringSort())

    def subst(self, m):
        return self

    def py_getattr(self, E, name, st):
        return None

    def py_call(self, E, name, args, kw, st):
        if name == "variables":
            i = z3.Int(uid("i"))
            return one(st, SeqV(self.n, i, Named(SV(self.name(i)))))
        if name == "numConstraints":
            return one(st, SV(z3.Int("constraints")))
        raise Unsupported("%s of the problem" % name)


class Model:
    """binary model with its fields and couplings"""

    def subst(self, m):
        return self

    def py_getattr(self, E, name, st):
        if name in ("linear", "quadratic"):
            k = z3.Int(uid("k"))
            return one(st, DictV([k], fn(name + ".has", [k], z3.BoolSort()), SV(fn(name + ".get", [k], R)), "scalar", name))
        return None


def c29(repo):
    w = Q(repo)
    E = w.E
    p = Sized()
    order = z3.Function("decides an order", I, z3.BoolSort())
    i = z3.Int("i")
    starts = lambda *ps: z3.Or([z3.PrefixOf(z3.StringVal(x), p.name(i)) for x in ps])
    hyps = [p.n >= 0, z3.Int("constraints") >= 0, z3.ForAll([i], z3.If(order(i), starts("y_", "z_"), starts("Delays_")), patterns=[p.name(i)])]
    want = E.sum_term(State(), [i], z3.And(0 <= i, i < p.n), z3.If(order(i), z3.RealVal(1), z3.RealVal(0)))
    outs = w.run(HE, "count_vars", {"prob": p}, hyps=hyps)
    for n, (st, v) in enumerate(outs):
        g = tag("count_vars", n, outs)
        a, b, c = tup(E, v, st, 3)
        w.oblige(g + "/order variables", st, real(E.num(a)) == want)
        w.oblige(g + "/other variables", st, real(E.num(b)) == real(p.n) - want)
        w.oblige(g + "/constraints", st, real(E.num(c)) == real(z3.Int("constraints")))
    w.never("count_vars")
    for f, what in (("count_quadratic_couplings", "quadratic"), ("count_linear_fields", "linear")):
        outs = w.run(RM, f, {"bqm": Model()})
        k = z3.Int("k")
        want = E.sum_term(State(), [k], fn(what + ".has", [k], z3.BoolSort()), z3.If(fn(what + ".get", [k], R) != 0, z3.RealVal(1), z3.RealVal(0)))
        for n, (st, v) in enumerate(outs):
            w.oblige(tag(f, n, outs) + "/those that are not zero", st, real(E.num(v)) == want)
        w.never(f)
    return w
