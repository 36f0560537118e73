"""Contracts of the sample analysis and of the model conversions (railway_solvers)."""
import z3
from pyvc.values import *
from pyvc.inputs import fn
from pyvc.interp import Engine, State, Obligation
from pyvc.prims import install, one, prim, real
from pyvc import lp  # noqa: F401

RM = "railway_solvers/railway_solvers/results_manipulation.py"
CQ = "railway_solvers/railway_solvers/converter_cqm.py"
BQ = "railway_solvers/railway_solvers/converter_bqm.py"
I, R, B, S = z3.IntSort(), z3.RealSort(), z3.BoolSort(), z3.StringSort()


def rf(name, *a):
    return fn(name, list(a), R)


def nf(name, *a):
    return fn(name, list(a), I)


# a linear program as the code sees it -------------------------------------------------

class VarIn:
    """v-th variable of the program"""

    def __init__(self, v):
        self.v = v

    def subst(self, m):
        return VarIn(z3.substitute(self.v, *m))

    def vkey(self, E):
        return ("VarIn", self.v.get_id())

    def py_eq(self, E, o, st):
        return self.v == o.v if isinstance(o, VarIn) else False

    def py_str(self, E):
        return SV(fn("var.name", [self.v], Atom))

    def py_getattr(self, E, name, st):
        if name == "name":
            return one(st, SV(fn("var.name", [self.v], Atom)))
        if name in ("lowBound", "upBound"):
            return one(st, SV(nf("var." + name, self.v)))
        if name == "cat":
            return one(st, SV(fn("var.cat", [self.v], Atom)))
        raise Unsupported("attribute %s of a variable" % name)


class ExprIn:
    """linear expression: the objective (key None) or the constraint of that name"""
    whole = False  # coefficients are integers

    def __init__(self, key=None):
        self.key = key

    def subst(self, m):
        return self if self.key is None else ExprIn(z3.substitute(self.key, *m))

    def vkey(self, E):
        return ("ExprIn", None if self.key is None else self.key.get_id())

    @property
    def p(self):
        return ("obj", []) if self.key is None else ("con", [self.key])

    def n(self):
        q, a = self.p
        return fn(q + ".n", a, I)

    def var(self, i):
        q, a = self.p
        return fn(q + ".var", a + [i], I)

    def coef(self, i):
        q, a = self.p
        return self.num(q + ".coef", a + [i])

    def const(self):
        q, a = self.p
        return self.num(q + ".const", a)

    def num(self, name, a):
        return z3.ToReal(fn(name + "z", a, I)) if ExprIn.whole and self.key is not None else fn(name, a, R)

    def sense(self):
        return fn("con.sense", [self.key], I)

    def items(self, f):
        i = z3.Int(uid("i"))
        return SeqV(self.n(), i, f(VarIn(self.var(i)), SV(self.coef(i))))

    def py_truth(self, E, st):
        return True

    def py_tree(self, E, st):
        return E.tree(self.items(lambda v, c: v), st)

    def py_seq(self, E, st):
        return self.items(lambda v, c: v)

    def py_len(self, E, st):
        return SV(self.n())

    def py_getattr(self, E, name, st):
        if name == "constant":
            return one(st, SV(self.const()))
        if name == "sense" and self.key is not None:
            return one(st, SV(self.sense()))
        if name == "name" and self.key is not None:
            return one(st, SV(self.key))
        return None

    def py_call(self, E, name, args, kw, st):
        if name == "items":
            return one(st, self.items(lambda v, c: (v, c)))
        if name == "keys":
            return one(st, self.items(lambda v, c: v))
        if name == "values":
            return one(st, self.items(lambda v, c: c))
        raise Unsupported("%s of an expression" % name)


class ProgIn:
    """the program: constraints by name, objective, variables"""

    def __init__(self, ksort=Atom, has_obj=True):
        k = z3.Const(uid("c"), ksort)
        self.cons = DictV([k], fn("con.has", [k], B), ExprIn(k), "scalar", "constraints")
        self.obj = ExprIn() if has_obj else None

    def subst(self, m):
        return self

    def py_getattr(self, E, name, st):
        if name == "constraints":
            return one(st, self.cons)
        if name == "objective":
            return one(st, self.obj)
        if name == "sense":
            return one(st, 1)
        return None

    def py_call(self, E, name, args, kw, st):
        if name == "variables":
            i = z3.Int(uid("v"))
            return one(st, SeqV(z3.Int("var.count"), i, VarIn(i)))
        raise Unsupported("%s of the program" % name)


class World:
    def __init__(self, repo, ksort=Atom):
        E = self.E = Engine(repo)
        install(E)
        self.ksort = ksort
        c, i, j = z3.Const("c", ksort), z3.Int("i"), z3.Int("j")
        x, o = ExprIn(c), ExprIn()
        rng = lambda e, q: z3.And(0 <= e.var(q), e.var(q) < z3.Int("var.count"))
        self.prec = [
            z3.Int("var.count") >= 0, z3.Int("obj.n") >= 0,
            z3.ForAll([c], z3.And(x.n() >= 1, z3.Or(x.sense() == 0, x.sense() == -1, x.sense() == 1))),
            z3.ForAll([c, i], z3.Implies(z3.And(0 <= i, i < x.n()), rng(x, i)), patterns=[x.var(i)]),
            z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < o.n()), rng(o, i)), patterns=[o.var(i)]),
            # names are unique
            z3.ForAll([i, j], z3.Implies(fn("var.name", [i], Atom) == fn("var.name", [j], Atom), i == j)),
        ]

    def run(self, rel, fname, args, contracts=None, hyps=(), setup=None, binders=()):
        E = self.E
        E.contracts = dict(contracts or {})
        f = E.find(rel, fname)
        st = State({}, {}, (), tuple(hyps), tuple(binders))
        if setup:
            setup(st)
        E.exc = [[]]
        return E.call_func_body(f, [], dict(args), st)

    def oblige(self, name, st, goal, extra=()):
        self.E.obls.append(Obligation(name, list(st.facts) + list(st.pc) + list(extra), goal))

    def linear(self, e, val, outer=()):
        """value of the expression without its constant; val(v) is the value of variable v"""
        i = z3.Int(uid("i"))
        return self.E.sum_term(State(binders=tuple(outer)), [i], z3.And(0 <= i, i < e.n()), e.coef(i) * val(e.var(i)))

    def relation(self, e, t):
        """the constraint with linear part t holds"""
        v = t + e.const()
        return z3.If(e.sense() == 0, v == 0, z3.If(e.sense() == -1, v <= 0, v >= 0))


# C10 ------------------------------------------------------------------------------------

def sample(r):
    k = z3.Const(uid("k"), Atom)
    return DictV([k], z3.BoolVal(True), SV(rf("sample.value", r, k)), "scalar", "sample")


class SampleIn:
    """r-th sample, a mapping from variable names to numbers"""

    def __init__(self, r):
        self.r = r

    def subst(self, m):
        return SampleIn(z3.substitute(self.r, *m))

    def vkey(self, E):
        return ("SampleIn", self.r.get_id())

    def py_getitem(self, E, k, st):
        return one(st, SV(rf("sample.value", self.r, E.to_sort(k, Atom))))

    def py_call(self, E, name, args, kw, st):
        if name == "get":
            return self.py_getitem(E, args[0], st)
        if name == "copy":
            return one(st, self)
        raise Unsupported("%s of a sample" % name)


class Datum:
    def __init__(self, r):
        self.r = r

    def subst(self, m):
        return Datum(z3.substitute(self.r, *m))

    def py_getattr(self, E, name, st):
        if name == "sample":
            return one(st, SampleIn(self.r))
        if name == "energy":
            return one(st, SV(rf("sample.energy", self.r)))
        raise Unsupported("attribute %s of a sample" % name)


class SampleSetIn:
    def subst(self, m):
        return self

    def py_call(self, E, name, args, kw, st):
        i = z3.Int(uid("r"))
        if name == "data":
            return one(st, SeqV(z3.Int("samples"), i, Datum(i)))
        if name == "samples":
            return one(st, SeqV(z3.Int("samples"), i, SampleIn(i)))
        raise Unsupported("%s of a sample set" % name)


def entries(E, v, st):
    """fields of a dictionary with literal keys"""
    v = E.view(v, st)
    if not isinstance(v, FinDict):
        raise Unsupported("result record")
    return {k: x for k, x in v.entries}


def c10(repo):
    w = World(repo)
    E = w.E
    n = z3.Int("samples")
    hyps = w.prec + [n >= 0]
    prog = ProgIn()
    c, r = z3.Const("c", Atom), z3.Int("r")
    val = lambda q: lambda v: rf("sample.value", q, fn("var.name", [v], Atom))
    lhs = w.linear(ExprIn(c), val(r), outer=[c, r])
    rel = lambda k, q: z3.substitute(w.relation(ExprIn(c), lhs), (c, k), (r, q))
    objt = w.linear(ExprIn(), val(r), outer=[r])
    obj = lambda q: z3.substitute(objt, (r, q)) + ExprIn().const()
    has = lambda k: fn("con.has", [k], B)
    k = z3.Const("k", Atom)
    cnt_t = E.sum_term(State(binders=(r,)), [k], has(k), z3.If(rel(k, r), z3.RealVal(1), z3.RealVal(0)))
    cnt = lambda q: z3.substitute(cnt_t, (r, q))

    def judged(tag, st, v, q, extra=()):
        """v = (flags, count) is the analysis of sample q"""
        v = E.view(v, st)
        flags, number = v if isinstance(v, tuple) else v.items
        m = E.view(flags, st)
        nodes = m.nodes if isinstance(m, MapV) else [Item(("put", a, b)) for a, b in m.entries]
        if any(x[0] != "put" for x in leaves(nodes)):
            raise Unsupported("analysis")
        key = lambda x: E.to_sort(x[1], Atom)
        w.oblige(tag + "/a constraint is marked satisfied exactly when it is", st,
                 conj(nodes, lambda x: z3.And(has(key(x)), E.b(E.truth(x[2], st)) == rel(key(x), q))), extra)
        w.oblige(tag + "/every constraint is judged", st, z3.Implies(has(k), disj(nodes, lambda x: key(x) == k)), extra)
        w.oblige(tag + "/number of satisfied constraints", st, real(E.num(number)) == cnt(q), extra)

    for m, (st, v) in enumerate(w.run(RM, "analyze_constraints", {"prob": prog, "sample": SampleIn(r)}, hyps=hyps, binders=[r])):
        judged("analyze_constraints" + ("" if not m else "/path%d" % m), st, v, r)
    for st, v in w.run(RM, "get_objective", {"prob": prog, "sample": SampleIn(r)}, hyps=hyps, binders=[r]):
        w.oblige("get_objective/value of the objective", st, real(E.num(v)) == obj(r))
    # all results
    outs = w.run(RM, "get_results", {"sampleset": SampleSetIn(), "prob": prog}, hyps=hyps)
    a, b = z3.Ints("a b")
    for m, (st, v) in enumerate(outs):
        tag = "get_results" + ("" if len(outs) == 1 else "/path%d" % m)
        s = E.seq(v, st)
        if not isinstance(s, SeqV):
            raise Unsupported("list of results")
        at = lambda i: entries(E, s.at(i), st)
        q = lambda i: at(i)["sample"].r
        inr = lambda i: z3.And(0 <= i, i < s.n)
        w.oblige(tag + "/one result per sample", st, z3.And(
            s.n == n, z3.Implies(inr(a), z3.And(0 <= q(a), q(a) < n)), z3.Implies(z3.And(inr(a), inr(b), q(a) == q(b)), a == b)))
        w.oblige(tag + "/energy and objective of the sample", st, z3.Implies(inr(a), z3.And(
            real(E.num(at(a)["energy"])) == rf("sample.energy", q(a)), real(E.num(at(a)["objective"])) == obj(q(a)))))
        w.oblige(tag + "/feasible exactly when all constraints hold", st, z3.Implies(
            inr(a), E.b(E.truth(at(a)["feasible"], st)) == z3.ForAll([k], z3.Implies(has(k), rel(k, q(a))))))
        judged(tag + "/feas_constraints", st, at(a)["feas_constraints"], q(a), [inr(a)])
        w.oblige(tag + "/ordered by objective", st, z3.Implies(z3.And(inr(a), inr(b), a < b), obj(q(a)) <= obj(q(b))))
    # selection
    i = z3.Int(uid("i"))
    size = z3.Int("results")
    rec = RecV({"feasible": (True, SV(fn("res.feasible", [i], B))), "energy": (True, SV(rf("res.energy", i))), "objective": (True, SV(rf("res.objective", i))),
                "sample": (True, SampleIn(i))})
    feas = lambda x: z3.And(0 <= x, x < size, fn("res.feasible", [x], B))
    ordered = z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a < b, b < size), rf("res.objective", a) <= rf("res.objective", b)))
    outs = w.run(RM, "get_best_feasible_sample", {"dict_list": SeqV(size, i, rec)}, hyps=[size >= 1])
    for m, (st, v) in enumerate(outs):
        tag = "get_best_feasible_sample" + ("" if len(outs) == 1 else "/path%d" % m)
        v = E.view(v, st)
        if not isinstance(v, RecV):
            raise Unsupported("selected record")
        g = v.fields["sample"][1].r
        w.oblige(tag + "/a feasible sample of smallest objective", st, z3.Implies(
            feas(a), z3.And(feas(g), rf("res.objective", g) <= rf("res.objective", a))), [ordered])
        w.oblige(tag + "/lowest energy if none is feasible", st, z3.Implies(
            z3.And(z3.Not(z3.Exists([b], feas(b))), 0 <= a, a < size), z3.And(0 <= g, g < size, rf("res.energy", g) <= rf("res.energy", a))))
    return w


# C11 ------------------------------------------------------------------------------------

DECL = -7  # heap slot of the ghost log of declared variables


def declare(st, label, kind, lo, hi):
    """ghost: record a variable created in the target library"""
    st = st.fork()
    st.heap[DECL] = st.heap[DECL].add(Item((label, kind, lo, hi)))
    return st


def encoded(E, label):
    """value of the target variable of this label under an arbitrary assignment"""
    e = label.e if isinstance(label, SV) else E.lit(label)
    if getattr(E, "integer_values", False):
        return z3.ToReal(z3.Function("int_of_%s" % e.sort().name(), e.sort(), I)(e))
    return z3.Function("value_of_%s" % e.sort().name(), e.sort(), R)(e)


@prim("dimod.Binary")
def p_dbinary(E, st, _, args, kw):
    return one(declare(st, args[0], "BINARY", 0, 1), LinV(encoded(E, args[0])))


@prim("dimod.Integer")
def p_dinteger(E, st, _, args, kw):
    a = dict(zip(("label", "lower_bound", "upper_bound"), args))
    a.update(kw)
    if a.get("upper_bound") is None:
        raise Unsupported("unbounded integer")
    return one(declare(st, a["label"], "INTEGER", a.get("lower_bound", 0), a["upper_bound"]), LinV(encoded(E, a["label"])))


@prim("dimod.constrained.ConstrainedQuadraticModel", "dimod.ConstrainedQuadraticModel", "dimod.CQM")
def p_cqm(E, st, _, args, kw):
    st = st.fork()
    return one(st, E.alloc(st, ProbObj()))


@prim(".add_constraint")
def p_addcon(E, st, o, args, kw):
    if not isinstance(args[0], ConV) or len(args) > 1 or set(kw) - {"label"}:
        raise Unsupported("add_constraint")
    st = st.fork()
    st.heap[o.id] = st.heap[o.id].add(Item(("con", args[0], kw.get("label"))))
    return one(st, None)


@prim(".set_objective")
def p_setobj(E, st, o, args, kw):
    st = st.fork()
    st.heap[o.id] = st.heap[o.id].add(Item(("obj", args[0], None)))
    return one(st, None)


def log(st):
    st.heap[DECL] = ListObj()


def is_binary(E, v):
    return z3.And(fn("var.cat", [v], Atom) == E.lit("Integer"), nf("var.lowBound", v) == 0, nf("var.upBound", v) == 1)


def c11(repo):
    w = World(repo)
    E = w.E
    v, i = z3.Ints("v i")
    hyps = w.prec + [z3.ForAll([v], z3.And(fn("var.cat", [v], Atom) == E.lit("Integer"), nf("var.lowBound", v) == 0, nf("var.upBound", v) >= 0))]
    name = lambda q: fn("var.name", [q], Atom)
    val = lambda q: encoded(E, SV(name(q)))
    c = z3.Const("c", Atom)
    lhs = w.linear(ExprIn(c), val, outer=[c])
    rel = lambda k: z3.substitute(w.relation(ExprIn(c), lhs), (c, k))
    has = lambda k: fn("con.has", [k], B)
    inv = lambda q: z3.And(0 <= q, q < z3.Int("var.count"))
    for st, r in w.run(CQ, "_is_binary", {"var": VarIn(v)}, hyps=w.prec):
        w.oblige("_is_binary/bit", st, E.b(E.truth(r, st)) == is_binary(E, v))
    for has_obj in (True, False):
        outs = w.run(CQ, "convert_to_cqm", {"model": ProgIn(has_obj=has_obj)}, hyps=hyps, setup=log)
        if not outs:
            raise Unsupported("no outcome")
        for n, (st, m) in enumerate(outs):
            tag = "convert_to_cqm/%s" % ("with objective" if has_obj else "without objective") + ("" if len(outs) == 1 else "/path%d" % n)
            m = m[0] if isinstance(m, tuple) else m
            nodes = st.heap[m.id].nodes
            decl = st.heap[DECL].nodes
            right = lambda x: z3.Exists([i], z3.And(inv(i), E.to_sort(x[0], Atom) == name(i), z3.BoolVal(x[1] == "BINARY") == is_binary(E, i),
                                                    E.num(x[2]) == nf("var.lowBound", i), E.num(x[3]) == nf("var.upBound", i)))
            w.oblige(tag + "/variables have the type and range of the program's", st, conj(decl, right))
            w.oblige(tag + "/every program variable is there", st, z3.Implies(inv(v), disj(decl, lambda x: E.to_sort(x[0], Atom) == name(v))))

            def one_con(x):
                if x[0] != "con":
                    return z3.BoolVal(True)
                k = E.to_sort(x[2], Atom)
                return z3.And(has(k), x[1].f == rel(k))
            w.oblige(tag + "/each constraint is the one of its name", st, conj(nodes, one_con))
            w.oblige(tag + "/every constraint is there", st, z3.Implies(
                has(c), disj(nodes, lambda x: E.to_sort(x[2], Atom) == c if x[0] == "con" else z3.BoolVal(False))))
            objs = [x for x in leaves(nodes) if x[0] == "obj"]
            if has_obj:
                w.oblige(tag + "/one objective", st, z3.BoolVal(len(objs) == 1 and any(isinstance(x, Item) and x.v[0] == "obj" for x in nodes)))
                for x in objs[:1]:
                    w.oblige(tag + "/objective of the program", st, real(E.num(x[1])) == w.linear(ExprIn(), val) + ExprIn().const())
            else:
                w.oblige(tag + "/no objective", st, z3.BoolVal(not objs))
    return w


# C12 ------------------------------------------------------------------------------------

KINDS = ["minimal_span", "circulation", "single_line", "minimal_stay", "track_occupation", "switch"]


def weight(name):
    return z3.Real("weight_" + name)


@prim("re.match")
def p_match(E, st, _, args, kw):
    import re
    pat, s = args
    if not isinstance(pat, str) or re.escape(pat).replace("\\_", "_") != pat:
        raise Unsupported("regular expression")
    return one(st, SV(z3.PrefixOf(z3.StringVal(pat), E.zstr(s))))


@prim("pyqubo.Placeholder")
def p_placeholder(E, st, _, args, kw):
    if not isinstance(args[0], str):
        raise Unsupported("placeholder name")
    return one(st, LinV(weight(args[0])))


def bounded_int(E, st, label, lo, hi):
    e = encoded(E, label)
    st = declare(st, label, "INTEGER", lo, hi)
    pc = z3.And(st.pc) if st.pc else z3.BoolVal(True)
    # values of the encoding: the integers of the range (where the range is not empty)
    st.facts += (z3.Implies(z3.And(pc, real(E.num(lo)) <= real(E.num(hi))), z3.And(e >= real(E.num(lo)), e <= real(E.num(hi)))),)
    return one(st, LinV(e))


@prim("pyqubo.Binary")
def p_qbinary(E, st, _, args, kw):
    return bounded_int(E, st, args[0], 0, 1)


@prim("pyqubo.LogEncInteger")
def p_logenc(E, st, _, args, kw):
    a = dict(zip(("label", "value_range"), args))
    a.update(kw)
    r = E.view(a["value_range"], st)
    lo, hi = r if isinstance(r, tuple) else r.items
    out = []
    for x in E.require(st, E.num(lo) < E.num(hi), "AssertionError"):
        out += bounded_int(E, x, a["label"], lo, hi)
    return out


def c12(repo):
    ExprIn.whole = True
    w = World(repo, S)
    E = w.E
    E.integer_values = True
    E.quick_ms = 200
    v, i, j = z3.Ints("v i j")
    c = z3.Const("c", S)
    x, o = ExprIn(c), ExprIn()
    lo, hi = nf("var.lowBound", v), nf("var.upBound", v)
    prefix = lambda k, s: z3.PrefixOf(z3.StringVal(k + "_"), s)
    kinds = z3.ForAll([c], z3.Implies(fn("con.has", [c], B), z3.Or([prefix(k, c) for k in KINDS])))
    hyps = w.prec + [
        z3.ForAll([v], z3.And(fn("var.cat", [v], Atom) == E.lit("Integer"), lo < hi), patterns=[hi])]
    name = lambda q: fn("var.name", [q], Atom)
    val = lambda q: encoded(E, SV(name(q)))
    inb = z3.ForAll([v], z3.And(val(v) >= z3.ToReal(lo), val(v) <= z3.ToReal(hi)), patterns=[val(v)])
    E.order_sums = [inb]
    for m, (st, r) in enumerate(w.run(BQ, "_get_placeholder", {"cname": SV(c)})):
        kind = lambda k: z3.Implies(prefix(k, c), real(E.num(r)) == weight(k))
        w.oblige("_get_placeholder/weight of the kind/path%d" % m, st, z3.And([kind(k) for k in KINDS]))
    p, y = z3.Reals("p y")
    w.oblige("lemma/a weighted square of a number not between -1 and 1 is at least the weight", State(), z3.Implies(
        z3.And(p >= 0, z3.Or(y >= 1, y <= -1)), p * y * y >= p))
    w.oblige("lemma/a weighted square is not negative", State(), z3.Implies(p >= 0, p * y * y >= 0))
    pen = z3.Function("penalty", S, R)

    def placeholder(E, st, b):
        return one(st, LinV(pen(E.zstr(b["cname"]))))
    con = {"_get_placeholder": {"params": ["cname"], "apply": placeholder}}
    outs = w.run(BQ, "convert_to_pyqubo", {"model": ProgIn(S)}, contracts=con, hyps=hyps, setup=log)
    for n, (st, r) in enumerate(outs):
        tag = "convert_to_pyqubo" + ("" if len(outs) == 1 else "/path%d" % n)
        if not isinstance(r, Compiled):
            raise Unsupported("compiled model")
        decl = st.heap[DECL].nodes
        inv = lambda q: z3.And(0 <= q, q < z3.Int("var.count"))
        var_decl = [x for x in decl if all(y[0].e.sort() == Atom for y in leaves([x]))]
        slack = [x for x in decl if all(y[0].e.sort() == S for y in leaves([x]))]
        if len(var_decl) + len(slack) != len(decl):
            raise Unsupported("declarations")
        w.oblige(tag + "/every program variable is encoded with its range", st, z3.Implies(inv(v), disj(
            var_decl, lambda y: z3.And(y[0].e == name(v), E.num(y[2]) == lo, E.num(y[3]) == hi))))
        w.oblige(tag + "/variables are encoded under their names only", st, conj(
            var_decl, lambda y: z3.Exists([i], z3.And(inv(i), y[0].e == name(i)))))
        terms = [q for q in sums_of(E, r.e) if len(E.sums[q][2]) == 1 and E.sums[q][2][0].sort() == S]
        if len(terms) != 1:
            raise Unsupported("energy is not one sum over the constraints")
        t, outer, bs, dom, body, _ = E.sums[terms[0]]
        d = bs[0]
        sub = lambda e: z3.substitute(e, (d, c))
        body = sub(body)
        rest = z3.simplify(r.e - t)
        w.oblige(tag + "/the rest of the energy is the weighted objective", st, rest == weight("objective") * (w.linear(o, val) + o.const()))
        w.oblige(tag + "/every constraint contributes", st, sub(dom) == fn("con.has", [c], B))
        lhs = w.linear(x, val, outer=[c])
        tot = lhs + x.const()
        rel = w.relation(x, lhs)
        extra = [inb, sub(dom), pen(c) >= 0]
        cur = encoded(E, SV(c))
        body, squares = linearise(body, pen(c))
        # the slack variable in its range: facts of the encoding
        w.oblige(tag + "/a violated constraint costs at least its weight", st, z3.Implies(z3.And(squares() + [z3.Not(rel)]), body >= pen(c)), extra)
        w.oblige(tag + "/no constraint lowers the energy", st, z3.Implies(z3.And(squares()), body >= 0), extra)

        def fits(s):
            """the value s is within the declared range of the slack of c (if it has one)"""
            return z3.And(z3.IsInt(s), conj(slack, lambda y: z3.Implies(y[0].e == c, z3.And(real(E.num(y[2])) <= s, s <= real(E.num(y[3]))))))
        st2 = st.fork()
        st2.facts = tuple(f for f in st.facts if not E.mentions_fun(f, cur.arg(0).decl()))
        for s, sense in ((-tot, -1), (tot, 1), (z3.RealVal(0), 0)):
            w.oblige(tag + "/a satisfied constraint costs nothing for some slack/%s" % {-1: "<=", 1: ">=", 0: "="}[sense], st2, z3.Implies(
                z3.And(squares(cur, s) + [rel, x.sense() == sense]), z3.And(fits(s), body == 0)), extra)
    # the returned models are those of the compiled expression under the given weights
    comp, feed = Compiled(z3.Real("energy")), Opq("weights")

    def compiled(E, st, b):
        return one(st, comp) if isinstance(b["model"], ProgIn) else None
    outs = w.run(BQ, "convert_to_bqm", {"model": ProgIn(S), "pdict": feed}, hyps=w.prec + [z3.Int("samples") >= 0],
                 contracts={"convert_to_pyqubo": {"params": ["model"], "apply": compiled}})
    for n, (st, r) in enumerate(outs):
        tag = "convert_to_bqm" + ("" if len(outs) == 1 else "/path%d" % n)
        ok = isinstance(r, tuple) and len(r) == 3 and all(isinstance(y, Opq) and y.tag == g and y.data["of"] is comp and y.data["feed"] is feed
                                                          for y, g in zip(r[:2], ("to_bqm", "to_qubo")))
        w.oblige(tag + "/both forms are the compiled model under the given weights", st, z3.BoolVal(ok))
        E.feed = feed
        for q, (s2, res) in enumerate(E.call(r[2], [BitSamples()], {}, st)):
            t2 = tag + "/decoded" + ("" if q == 0 else "/path%d" % q)
            if not (isinstance(res, Opq) and res.tag == "sampleset"):
                raise Unsupported("decoded samples")
            rows, en = E.seq(res.data["rows"], s2), E.seq(res.data["energies"], s2)
            a = z3.Int("a")
            inr = z3.And(0 <= a, a < z3.Int("samples"))
            w.oblige(t2 + "/one sample each", s2, z3.And(rows.n == z3.Int("samples"), en.n == z3.Int("samples")))
            w.oblige(t2 + "/energy of the sample", s2, z3.Implies(inr, real(E.num(en.at(a))) == rf("bits.energy", a)))
            row = E.view(rows.at(a), s2)
            if not isinstance(row, MapV):
                raise Unsupported("decoded row")
            w.oblige(t2 + "/all program variables are there", s2, z3.Implies(z3.And(inr, inv(v)), disj(row.nodes, lambda y: E.to_sort(y[1], Atom) == name(v))))
            w.oblige(t2 + "/with their values", s2, z3.Implies(inr, conj(row.nodes, lambda y: real(E.num(y[2])) == rf("bits.value", a, E.to_sort(y[1], Atom)))))
    return w


def linearise(e, p):
    """e with its products p * f * f replaced by constants, and instances of the two lemmas for them"""
    found = []

    def factors(t):
        if z3.is_app_of(t, z3.Z3_OP_MUL):
            return [f for c in t.children() for f in factors(c)]
        return [] if z3.is_rational_value(t) and t.as_fraction() == 1 else [t]

    def rec(t):
        if z3.is_app_of(t, z3.Z3_OP_MUL):
            fs = factors(t)
            rest = [f for f in fs if not f.eq(p)]
            if len(fs) == 3 and len(rest) == 2 and rest[0].eq(rest[1]):
                m = z3.Real(uid("square"))
                found.append((m, rest[0]))
                return m
            if sum(not z3.is_rational_value(f) for f in fs) > 1:
                raise Unsupported("penalty is no weighted square")
            return t
        if z3.is_app(t) and t.num_args() and z3.is_arith(t):
            ch = [rec(c) if z3.is_arith(c) else c for c in t.children()]
            return t.decl()(*ch)
        return t
    out = rec(e)

    def facts(cur=None, s=None):
        r = []
        for m, f in found:
            f = z3.substitute(f, (cur, s)) if cur is not None else f
            r += [z3.Implies(p >= 0, m >= 0), z3.Implies(z3.And(p >= 0, z3.Or(f >= 1, f <= -1)), m >= p), z3.Implies(f == 0, m == 0)]
        return r
    return out, facts


class Compiled:
    """compiled pyqubo model, given by its energy under an arbitrary assignment"""

    def __init__(self, e):
        self.e = e

    def subst(self, m):
        return Compiled(z3.substitute(self.e, *m))

    def py_call(self, E, name, args, kw, st):
        if name in ("to_bqm", "to_qubo"):
            return one(st, Opq(name, of=self, feed=kw.get("feed_dict", args[0] if args else None)))
        if name == "decode_sample":
            if kw.get("vartype", args[1] if len(args) > 1 else None) != "BINARY" or kw.get("feed_dict") is not E.feed:
                raise Unsupported("decoding")
            s = args[0]
            s = getattr(s, "of", s)
            if not isinstance(s, Bits):
                raise Unsupported("decoding of another value")
            return one(st, Decoded(s.r))
        raise Unsupported("%s of a compiled model" % name)


@prim(".compile")
def p_compile(E, st, o, args, kw):
    if not isinstance(o, LinV):
        raise Unsupported("compile")
    return one(st, Compiled(o.e))


class Bits:
    """r-th sample of the quadratic model"""

    def __init__(self, r):
        self.r = r

    def subst(self, m):
        return Bits(z3.substitute(self.r, *m))

    def py_getattr(self, E, name, st):
        if name == "energy":
            return one(st, SV(rf("bits.energy", self.r)))
        if name == "sample":
            return one(st, self)
        raise Unsupported("attribute %s of a sample" % name)

    def py_dict(self, E, st):
        return self

    def vkey(self, E):
        return ("Bits", self.r.get_id())


class BitSamples:
    def subst(self, m):
        return self

    def py_call(self, E, name, args, kw, st):
        if args or kw:
            raise Unsupported("order of samples")
        if name in ("data", "samples"):
            i = z3.Int(uid("r"))
            return one(st, SeqV(z3.Int("samples"), i, Bits(i)))
        raise Unsupported("%s of a sample set" % name)


class Decoded:
    """decoding of the r-th sample: bits carry the binary variables, sub-Hamiltonians the encoded integers"""

    def __init__(self, r):
        self.r = r

    def subst(self, m):
        return Decoded(z3.substitute(self.r, *m))

    def py_getattr(self, E, name, st):
        k = z3.Const(uid("k"), Atom)
        v = z3.Int(uid("v"))
        var = z3.And(0 <= v, v < z3.Int("var.count"), fn("var.name", [v], Atom) == k)
        if name == "subh":
            has = z3.Exists([v], z3.And(var, z3.Not(is_binary(E, v))))
        elif name == "sample":
            has = z3.Exists([v], z3.And(var, is_binary(E, v)))
        else:
            raise Unsupported("attribute %s of a decoded sample" % name)
        return one(st, DictV([k], has, SV(rf("bits.value", self.r, k)), "scalar", name))


@prim("dimod.as_samples")
def p_assamples(E, st, _, args, kw):
    return one(st, args[0])


@prim("dimod.SampleSet.from_samples")
def p_fromsamples(E, st, _, args, kw):
    a = dict(zip(("samples", "vartype", "energy"), args))
    a.update(kw)
    st = st.fork()
    return one(st, Opq("sampleset", rows=E.freeze(st, a["samples"]), energies=E.freeze(st, a["energy"])))


def sums_of(E, e):
    from pyvc.prove import sums_in
    top, seen, todo = [], set(), [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().name() in E.sums:
            top.append(t.decl().name())
        todo += t.children()
    return top
