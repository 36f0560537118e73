"""Contracts of the timetable data functions (data_formatting)."""
import ast
import z3
from pyvc.values import *
from pyvc.inputs import fn, make
from pyvc.interp import Engine, State, Obligation
from pyvc.prims import install, one, prim, real, RND
from pyvc.frame import *
from contracts import groups

DF = "data_formatting/data_formatting/"
UT, JT, SC, SW, NT, TC = [DF + f + ".py" for f in (
    "utils", "make_J_taus", "scheduling_tools", "make_switch_set", "new_time_tables", "time_table_check")]
I, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
COLS = {"path": "atom", "speed": "atom", "Arr": ("opt", "atom"), "Dep": ("opt", "atom"), "Approx_enter": ("opt", "atom"),
        "Label": ("opt", "atom"), "Shunting": ("opt", "atom"), "Turnaround_time_minutes": ("opt", "real"),
        "passing_time": ("opt", "real"), "important_station": ("opt", "atom")}


def nf(name, *a):
    return fn(name, list(a), I)


def af(name, *a):
    return fn(name, list(a), Atom)


def bf(name, *a):
    return fn(name, list(a), B)


def rf(name, *a):
    return fn(name, list(a), R)


class Places:
    """where a block occurs in a timetable: first in the column of blocks"""

    def __init__(self, row, on):
        self.row, self.on = row, on

    def subst(self, m):
        return Places(z3.substitute(self.row, *m), z3.substitute(self.on, *m))

    def py_getitem(self, E, k, st):
        if k != 0:
            raise Unsupported("further places of a block")
        return one(st, (SV(self.row), "path"))


class PathSer(Ser):
    """the blocks of a train"""

    def array(self):
        return self.frame.blocks(self.frame.t)


class KSeq(SeqV):
    """list without repetitions whose members and their places are known: make(args) = (n, at, has, idx)"""

    def __init__(self, make, args, sort):
        self.make, self.args, self.sort = make, tuple(args), sort
        n, at, self.has, self.idx = make(*args)
        i = z3.Int(uid("i"))
        SeqV.__init__(self, n, i, SV(at(i)))

    def subst(self, m):
        return KSeq(self.make, [z3.substitute(a, *m) for a in self.args], self.sort)

    def vkey(self, E):
        return ("KSeq", self.n.get_id()) + tuple(a.get_id() for a in self.args)

    def key(self, E, a):
        if a is None or isinstance(a, (tuple, FStr, CList)) or isinstance(a, SV) and Atom in (a.e.sort(), self.sort) and a.e.sort() != self.sort:
            return None
        if isinstance(a, OptV):
            raise Unsupported("missing value")
        return E.to_sort(a, self.sort)

    def py_contains(self, E, a, st):
        k = self.key(E, a)
        return False if k is None else self.has(k)

    def py_call(self, E, name, args, kw, st):
        if name == "index" and len(args) == 1:
            k = self.key(E, args[0])
            if k is None:
                E.throw(st, "ValueError")
                return []
            return [(s, SV(self.idx(k))) for s in E.require(st, self.has(k), "ValueError")]
        if name == "copy":
            return one(st, self)
        return None


class TT(Frame):
    """timetable of train t: rows of the input"""

    def __init__(self, t, f, blocks=None):
        Frame.__init__(self, f.n, f.iv, f.cols, f.keep, f.label)
        self.t, self.blocks = t, blocks

    def subst(self, m):
        return TT(z3.substitute(self.t, *m), Frame.subst(self, m), self.blocks)

    def col(self, k):
        c = Frame.col(self, k)
        return PathSer(c.n, c.iv, c.val, c.keep, c.label, self) if k == "path" and self.blocks else c


class D:
    """trains with their timetables and the important stations with their blocks

    Ghost functions: row of a block of a train, index of a station on a path, position
    of a block in its station's list; they exist because blocks and stations do not repeat."""

    def __init__(self, repo, routes=True, clean=True):
        E = self.E = Engine(repo)
        self.clean = clean
        install(E)
        E.canon = E.atoms_are_text = True
        self.T = OrdDict(E, "T", I, lambda t: CList([CList([SV(af("info", t, z3.IntVal(k))) for k in range(4)]), self.tt(t)]))
        i = z3.Int(uid("i"))
        self.IS = OrdDict(E, "S", Atom, lambda s: SeqV(nf("isb.len", s), i, SV(af("isb.at", s, i))))
        t, q, s, b = z3.Int("t"), z3.Int("q"), z3.Const("s", Atom), z3.Const("b", Atom)
        self.len = lambda t: nf("tt.len", t)
        self.path = lambda t, q: af("tt.path", t, q)
        self.st = lambda t, q: af("tt.important_station", t, q)
        self.nost = lambda t, q: bf("tt.important_station.null", t, q)
        self.pt = lambda t, q: z3.If(bf("tt.passing_time.null", t, q), z3.RealVal(0), rf("tt.passing_time", t, q))
        self.row = lambda t, b: nf("row", t, b)
        self.onb = lambda t, b: z3.And(0 <= self.row(t, b), self.row(t, b) < self.len(t), self.path(t, self.row(t, b)) == b)
        E.axioms += [z3.ForAll([t], self.len(t) >= 0), z3.ForAll([s], nf("isb.len", s) >= 0)]
        if not clean:
            return
        # a block occurs once on a path
        E.axioms.append(z3.ForAll([t, q], z3.Implies(self.inrow(t, q), self.row(t, self.path(t, q)) == q), patterns=[self.path(t, q)]))
        if not routes:
            return
        m, pos, rank = E.filtered(None, self.len(t), q, z3.Not(self.nost(t, q)))
        self._m, self._pos, self._rank, self._t = m, pos, rank, t
        self.k = lambda t, s: nf("stidx", t, s)
        # a station occurs once on a path
        E.axioms.append(z3.ForAll([t, q], z3.Implies(z3.And(self.inrow(t, q), z3.Not(self.nost(t, q))), self.k(t, self.st(t, q)) == self.rk(t, q)),
                                  patterns=[self.st(t, q)]))
        # i-th block after a station
        self.seg = lambda t, s, i: af("seg", t, s, i)
        E.axioms.append(z3.ForAll([t, s, q], self.seg(t, s, q) == self.path(t, self.at(t, s) + 1 + q), patterns=[self.seg(t, s, q)]))
        # the station column names the station whose list has the block, each block is in one list, once
        self.bpos = lambda b: nf("blockidx", b)
        self.of = lambda b: af("station_of", b)
        self.ofis = lambda b: z3.And(self.IS.has(self.of(b)), 0 <= self.bpos(b), self.bpos(b) < nf("isb.len", self.of(b)), af("isb.at", self.of(b), self.bpos(b)) == b)
        E.axioms += [
            z3.ForAll([s, q], z3.Implies(z3.And(self.IS.has(s), 0 <= q, q < nf("isb.len", s)), z3.And(
                self.of(af("isb.at", s, q)) == s, self.bpos(af("isb.at", s, q)) == q)), patterns=[af("isb.at", s, q)]),
            z3.ForAll([t, q], z3.Implies(self.inrow(t, q), self.nost(t, q) == z3.Not(self.ofis(self.path(t, q)))), patterns=[self.nost(t, q)]),
            z3.ForAll([t, q], z3.Implies(z3.And(self.inrow(t, q), self.ofis(self.path(t, q))), self.st(t, q) == self.of(self.path(t, q))),
                      patterns=[self.st(t, q)]),
            z3.ForAll([t, q], z3.Implies(z3.And(self.inrow(t, q), z3.Not(self.nost(t, q))), self.st(t, q) == self.of(self.path(t, q))),
                      patterns=[self.path(t, q)]),
        ]

    # timetable terms
    def inrow(self, t, q):
        return z3.And(0 <= q, q < self.len(t))

    def tt(self, t):
        iv = z3.Int(uid("row"))
        return TT(t, Frame(self.len(t), iv, {c: make(self.E, T, "tt." + c, [t, iv]) for c, T in COLS.items()}), self.blocks if self.clean else None)

    def blocks(self, t):
        """the blocks of train t in order"""
        return KSeq(lambda t: (self.len(t), lambda i: self.path(t, i), lambda b: self.onb(t, b), lambda b: self.row(t, b)), [t], Atom)

    def n(self, t):
        """number of stations on the path"""
        return z3.substitute(self._m, (self._t, t))

    def pos(self, t, k):
        """row of the k-th station"""
        x = z3.Int(uid("k"))
        return z3.substitute(self._pos(x), (self._t, t), (x, k))

    def rk(self, t, q):
        x = z3.Int(uid("q"))
        return z3.substitute(self._rank(x), (self._t, t), (x, q))

    def sta(self, t, k):
        """k-th station"""
        return self.st(t, self.pos(t, k))

    def onp(self, t, s):
        k = self.k(t, s)
        return z3.And(0 <= k, k < self.n(t), self.sta(t, k) == s)

    def at(self, t, s):
        """row of station s"""
        return self.pos(t, self.k(t, s))

    # contracts
    def stations(self, t):
        """the path of train t"""
        return KSeq(lambda t: (self.n(t), lambda i: self.sta(t, i), lambda s: self.onp(t, s), lambda s: self.k(t, s)), [t], Atom)

    def between(self, t, s1, s2):
        """blocks of train t strictly between two stations given in travel order"""
        a, b = self.at(t, s1), self.at(t, s2)
        i = z3.Int(uid("i"))
        return SeqV(z3.If(b - a - 1 > 0, b - a - 1, 0), i, SV(self.seg(t, s1, i)))

    def moves(self, t, s1, s2):
        """train t goes from one station to the next"""
        return z3.And(self.onp(t, s1), self.k(t, s1) + 1 < self.n(t), self.sta(t, self.k(t, s1) + 1) == s2)

    def same(self, t, u, s1, s2):
        """two trains use the same blocks between the stations"""
        return self.E.b(self.E.eq(self.between(t, s1, s2), self.between(u, s1, s2), State()))

    def last(self, t, s):
        """train t ends on a block of station s"""
        q = self.len(t) - 1
        return z3.And(z3.Not(self.nost(t, q)), self.st(t, q) == s)

    def calling(self, s, dep=False):
        """trains calling at (departing from) station s, in timetable order"""
        i = z3.Int(uid("i"))
        t = self.T.at(i)
        g = self.onp(t, s)
        if dep is not False:
            g = z3.And(g, z3.Implies(self.E.b(dep), z3.Not(self.last(t, s))))
        return CompV([Loop([i], z3.And(0 <= i, i < self.T.n), [Guard(g, [Item(SV(t))])], self.T.n)])

    def contract(self, name):
        E = self.E

        def table(f):
            def apply(E, st, b):
                tt = b.get("timetable", b.get("time_table"))
                return f(st, tt.t, b) if isinstance(tt, TT) else None
            return apply

        def atom(v):
            return E.to_sort(v, Atom) if isinstance(v, (SV, str)) else None

        def stations(st, t, b):
            return one(st, self.stations(t))

        def subsequent(st, t, b):
            s = atom(b["station"])
            if s is None:
                return None
            return [(x, SV(self.sta(t, self.k(t, s) + 1)) if y else None)
                    for x, y in E.branch(st, z3.And(self.onp(t, s), self.k(t, s) + 1 < self.n(t)))]

        def between(st, t, b):
            s1, s2 = atom(b["station1"]), atom(b["station2"])
            if s1 is None or s2 is None:
                return None
            out = []
            for x, y in E.branch(st, z3.And(self.onp(t, s1), self.onp(t, s2))):
                if not y:
                    out.append((x, (CList([]), None)))
                    continue
                for z, r in E.branch(x, self.k(t, s1) > self.k(t, s2)):
                    out.append((z, (CList([]), True) if r else (self.between(t, s1, s2), False)))
            return out

        def used(st, t, b):
            s = atom(b["station"])
            if s is None or b["important_stations"] is not self.IS:
                return None
            return [(x, CList([SV(self.path(t, self.at(t, s)))] if y else [])) for x, y in E.branch(st, self.onp(t, s))]

        def passing(st, t, b):
            k = atom(b["block"])
            if k is None or b["r"] is not None:
                return None
            return [(x, SV(self.pt(t, self.row(t, k)))) for x in E.require(st, self.onb(t, k), "IndexError")]

        def places(E, st, b):
            k = atom(b["value"])
            if not isinstance(b["dfObj"], TT) or k is None:
                return None
            t = b["dfObj"].t
            return [(x, Places(self.row(t, k), self.onb(t, k))) for x in E.require(st, self.onb(t, k), "IndexError")]

        def common(E, st, b):
            if not isinstance(b["timetable1"], TT) or not isinstance(b["timetable2"], TT):
                return None
            t, u = b["timetable1"].t, b["timetable2"].t
            s1, s2 = atom(b["station1"]), atom(b["station2"])
            if s1 is None or s2 is None or not E.must(st, z3.And(self.moves(t, s1, s2), self.moves(u, s1, s2))):
                return None
            out = []
            for x, y in E.branch(st, self.same(t, u, s1, s2)):
                x = x.fork()
                x.facts += (z3.Implies(self.moves(t, s1, s2), self.between(t, s1, s2).n > 0),)
                out.append((x, self.between(t, s1, s2) if y else CList([])))
            return out

        def paths(E, st, b):
            return one(st, OrdDict(E, "T", I, lambda t: self.stations(t))) if b["train_dict"] is self.T else None

        def calling(E, st, b):
            if b["trains_infor"] is not self.T or b["important_stations"] is not self.IS:
                return None
            d = b["only_departue"]
            if isinstance(d, SV):
                return None
            return one(st, OrdDict(E, "S", Atom, lambda s: self.calling(s, d)))
        return {
            "train_important_stations": {"params": ["time_table"], "apply": table(stations)},
            "subsequent_station": {"params": ["timetable", "station"], "apply": table(subsequent)},
            "get_blocks_b2win_station4train": {"params": ["timetable", "station1", "station2"], "apply": table(between)},
            "blocks_list_4station": {"params": ["timetable", "station", "important_stations"], "apply": table(used)},
            "get_passing_time_block": {"params": ["timetable", "block", "r"], "apply": table(passing)},
            "get_indexes": {"params": ["dfObj", "value"], "apply": places},
            "get_Paths": {"params": ["train_dict"], "apply": paths},
            "common_path": {"params": ["timetable1", "timetable2", "station1", "station2"], "apply": common},
            "get_trains_at_station": {"params": ["trains_infor", "important_stations", "only_departue"], "apply": calling},
        }[name]

    # running
    def run(self, rel, fname, args, contracts=(), hyps=(), setup=None, binders=()):
        E = self.E
        E.contracts = {c: self.contract(c) for c in contracts}
        f = E.find(rel, fname)
        st = State({}, {}, (), tuple(hyps), tuple(binders))
        if setup:
            setup(st)
        E.exc = [[]]
        return E.call_func_body(f, [], dict(args), st)

    def oblige(self, name, st, goal, extra=()):
        self.E.obls.append(Obligation(name, list(st.facts) + list(st.pc) + list(extra), goal))

    def raised(self):
        return list(self.E.exc[0])

    def never(self, name, raised=None, extra=()):
        """the function does not raise"""
        for k, (st, exc) in enumerate(self.raised() if raised is None else raised):
            self.oblige("%s/no %s/%d" % (name, exc, k), st, z3.BoolVal(False), extra)


def mod(rel):
    return rel.split("/")[-1][:-3]


def tag(name, k, outs):
    return name if len(outs) == 1 else "%s/path%d" % (name, k)


def keyed(E, k, skel, has, sorts):
    if not isinstance(k, FStr) or k.skeleton() != skel:
        raise Unsupported("key")
    return has(*[E.to_sort(a, o) for a, o in zip(k.args(), sorts)])


def conjuncts(f):
    return [x for c in f.children() for x in conjuncts(c)] if z3.is_and(f) else [f]


def instance(w, bs, f):
    """the formula for the values of bs that its equations determine"""
    m, todo = [], list(bs)
    sub = lambda e: z3.substitute(e, *m) if m else e
    while todo:
        for c in conjuncts(f):
            if not z3.is_eq(c):
                continue
            for l, r in (c.children(), c.children()[::-1]):
                r = sub(r)
                if w.E.mentions(r, todo):
                    continue
                b = next((b for b in todo if l.eq(b)), None)
                e = r
                for d in (w.T, w.IS):
                    if b is None and l.num_args() == 1 and l.sort() == d.at(z3.Int("i")).sort():
                        b = next((b for b in todo if b.sort() == I and l.eq(d.at(b))), None)
                        e = d.idx(r)
                if b is not None:
                    break
            else:
                continue
            break
        else:
            raise Unsupported("no witness")
        m.append((b, e))
        todo = [x for x in todo if not x.eq(b)]
    return sub(f)


def mapping(w, name, st, v, skel, key, has, value, extra=(), what="the values", witness=False):
    """the dictionary has exactly the keys given by has and their values satisfy value(state, x)"""
    E = w.E
    parts = skel.split("{}")
    k = FStr([p for x, y in zip(parts, [SV(a) for a in key] + [""]) for p in (x, y) if not (isinstance(p, str) and p == "")]) \
        if skel != "{}" else SV(key[0])
    if witness:
        w.oblige(name + "/all entries", st, z3.Or([instance(w, bs, z3.And(c, E.b(E.eq(k, x[1], st)))) for bs, c, x in groups.E_paths(E.view(v, st).nodes)]),
                 list(extra) + [has(*key)])
    else:
        w.oblige(name + "/exactly the right entries", st, E.b(E.contains(k, v, st)) == has(*key), extra)
    if skel != "{}":
        w.oblige(name + "/no other entries", st, conj(E.tree(v, st), lambda x: keyed(E, x, skel, has, [a.sort() for a in key])), extra)
    E.exc.append([])
    for m, (x, y) in enumerate(E.getitem(v, k, st)):
        w.oblige("%s/%s/%d" % (name, what, m), x, value(x, y), list(extra) + [has(*key)])
    E.exc.pop()


def orzero(w, name, st, v, key, may, want, must):
    """entries only where allowed, with the given value; an entry may be left out if its value is zero or it need not be there"""
    E = w.E
    k = FStr([SV(key[0]), "_", SV(key[1])])
    w.oblige(name + "/only there", st, conj(E.tree(v, st), lambda x: keyed(E, x, "{}_{}", may, [a.sort() for a in key])))
    here = E.b(E.contains(k, v, st))
    w.oblige(name + "/none missing", st, z3.Implies(z3.And(may(*key), must, want != 0), here))
    E.exc.append([])
    for m, (x, y) in enumerate(E.getitem(v, k, st)):
        w.oblige("%s/value/%d" % (name, m), x, isnum(E, want)(x, y), [here])
    E.exc.pop()


def isnum(E, want):
    return lambda st, y: real(E.num(y)) == want if E.is_num(y) or isinstance(y, SV) and z3.is_arith(y.e) else z3.BoolVal(False)


def listing(w, name, st, v, n, at, extra=(), what=""):
    """the list has n elements and the i-th is at(i)"""
    E = w.E
    i = z3.Int("i")
    sv = lambda x: SV(x) if z3.is_expr(x) else x
    st = st.fork()
    q = E.seq(v, st)
    ln = z3.IntVal(len(q.items)) if isinstance(q, CList) else q.n
    ends = [] if isinstance(q, CList) else hint(*[x.e for x in (q.at(0), q.at(1)) if isinstance(x, SV)])
    w.oblige(name + "/length" + what, st, ln == n, list(extra) + ends)
    if isinstance(q, CList):
        for k, x in enumerate(q.items):
            w.oblige("%s/element %d%s" % (name, k, what), st, E.b(E.eq(x, sv(at(z3.IntVal(k))), st)), extra)
    else:
        w.oblige(name + "/elements" + what, st, same_cell(E, q.at(i), sv(at(i)), st), list(extra) + [0 <= i, i < n, i < ln])


def same_cell(E, a, b, st):
    """equal or both missing"""
    if not isinstance(a, OptV) and not isinstance(b, OptV):
        return E.b(E.eq(a, b, st))
    null, val = lambda x: x.null if isinstance(x, OptV) else z3.BoolVal(False), lambda x: x.v if isinstance(x, OptV) else x
    if val(a) is None or val(b) is None:
        return z3.And(null(a), null(b))
    return z3.And(null(a) == null(b), z3.Or(null(a), E.b(E.eq(val(a), val(b), st))))


def hint(*terms):
    """terms for the solver to look at: holds for a predicate that is true everywhere"""
    return [z3.Function("look." + str(t.sort()), t.sort(), B)(t) for t in terms]


def members(w, name, st, v, x, has):
    """the list holds exactly the given things"""
    E = w.E
    w.oblige(name + "/nothing missing and nothing else", st, E.b(E.contains(SV(x), v, st)) == has)


def same_list(w, name, st, v, want, extra=(), mk=None):
    """two lists selected from sequences of equal length are equal place by place"""
    E = w.E
    st = st.fork()

    def parts(x):
        nodes = E.tree(x, st)
        if len(nodes) == 1 and isinstance(nodes[0], Loop) and len(nodes[0].binders) == 1 and nodes[0].n is not None:
            g, val = E.flat_item(nodes[0].nodes)
            i = nodes[0].binders[0]
            return nodes[0].n, lambda e: (z3.substitute(g, (i, e)), subst(val, [(i, e)]))
        q = E.seq(x, st)
        if isinstance(q, CList):
            raise Unsupported("list of fixed length")
        return q.n, lambda e: (z3.BoolVal(True), q.at(e))
    n1, f1 = parts(v)
    n2, f2 = parts(want)
    i = z3.Int("i")
    (g1, x1), (g2, x2) = f1(i), f2(i)
    ex = list(extra) + (mk(i) if mk else []) + [0 <= i, i < n1]
    w.oblige(name + "/selected from equally many", st, n1 == n2, extra)
    w.oblige(name + "/same selection", st, g1 == g2, ex)
    w.oblige(name + "/same elements", st, E.b(E.eq(x1, x2, st)), ex + [g1, g2])


# C13 ------------------------------------------------------------------------------------

def c13(repo):
    w = D(repo, clean=False)
    E = w.E
    t, s, tr, d = z3.Int("t"), z3.Const("s", Atom), z3.Int("train"), z3.Real("delay")
    has = lambda a, b: bf("ic.has", a, b)
    val = lambda a, b: rf("ic.get", a, b)
    hyps = [tr >= 0, z3.ForAll([t, s], z3.Implies(has(t, s), t >= 0))]
    for rel in (UT, SC):
        st0 = State({}, {}, (), tuple(hyps))
        a, b = z3.Int(uid("k")), z3.Const(uid("k"), Atom)
        given = E.alloc(st0, DictObj([Loop([a, b], has(a, b), [Item(("put", FStr([SV(a), "_", SV(b)]), SV(val(a, b))))])]))
        before = st0.heap[given.id]
        E.exc = [[]]
        outs = E.call_func_body(E.find(rel, "add_delay"), [], {"initial_conditions": given, "train": SV(tr), "delay": SV(d)}, st0)
        name = mod(rel) + ".add_delay"
        for n, (st, v) in enumerate(outs):
            g = tag(name, n, outs)
            mapping(w, g, st, v, "{}_{}", (t, s), has, isnum(E, z3.If(t == tr, val(t, s) + d, val(t, s))),
                    what="the delayed train's values are raised, the others kept")
            if st.heap[given.id] is not before:
                mapping(w, g + "/the caller's data", st, given, "{}_{}", (t, s), has, isnum(E, val(t, s)))
        w.never(name)
    return w


# C14 ------------------------------------------------------------------------------------

def c14(repo):
    w = D(repo)
    E = w.E
    t, s, t1 = z3.Int("t"), z3.Const("s", Atom), z3.Const("t1", Atom)
    clk = lambda a: real(clock("%H:%M", a))
    nodep = lambda q: bf("tt.Dep.null", t, q)
    noent = lambda q: bf("tt.Approx_enter.null", t, q)
    x = z3.Int("x")
    some = z3.ForAll([x], z3.Implies(w.T.has(x), w.n(x) >= 1))
    for rel in (UT, SC):
        outs = w.run(rel, "get_schedule", {"train_dicts": w.T, "t1": SV(t1)})
        name = mod(rel) + ".get_schedule"
        for n, (st, v) in enumerate(outs):
            r = w.at(t, s)
            mapping(w, tag(name, n, outs), st, v, "{}_{}", (t, s), lambda a, b: z3.And(w.T.has(a), w.onp(a, b), z3.Not(bf("tt.Dep.null", a, w.at(a, b)))),
                    isnum(E, clk(af("tt.Dep", t, r)) - clk(t1)), what="minutes from the reference time")
        w.never(name)
        outs = w.run(rel, "get_initial_conditions", {"train_dicts": w.T, "t1": SV(t1)})
        name = mod(rel) + ".get_initial_conditions"
        for n, (st, v) in enumerate(outs):
            q = w.pos(t, z3.IntVal(0))
            want = z3.If(z3.Not(nodep(q)), clk(af("tt.Dep", t, q)) - clk(t1), z3.If(noent(q), z3.RealVal(0), clk(af("tt.Approx_enter", t, q)) - clk(t1)))
            mapping(w, tag(name, n, outs), st, v, "{}_{}", (t, s), lambda a, b: z3.And(w.T.has(a), w.sta(a, z3.IntVal(0)) == b),
                    isnum(E, want), [some], what="minutes to the departure or entry")
        w.never(name, extra=[some])
    return w


# C15 ------------------------------------------------------------------------------------

class Written(TT):
    """timetable whose new columns are noted"""

    def __init__(self, t, f, blocks, notes):
        TT.__init__(self, t, f, blocks)
        self.notes = notes

    def subst(self, m):
        return Written(z3.substitute(self.t, *m), Frame.subst(self, m), self.blocks, self.notes)

    def col(self, k):
        if k in self.notes[1]:
            raise Unsupported("reading a column that is written")
        return TT.col(self, k)

    def py_setitem(self, E, k, v, st):
        if not isinstance(k, str):
            raise Unsupported("column to write")
        self.notes[1].add(k)
        st = st.fork()
        ref = self.notes[0]
        st.heap[ref.id] = st.heap[ref.id].add(Item((SV(self.t), k, E.freeze(st, v))))
        return [st]


NET = ["time_regional_train_A-B", "time_regional_train_B-A", "time_inter_city_A-B", "time_inter_city_B-A"]


def c15(repo):
    w = D(repo)
    E = w.E
    t, r, i, b = z3.Int("t"), z3.Int("r"), z3.Int("i"), z3.Const("b", Atom)
    x, y, sp = [z3.Const(n, Atom) for n in ("x", "y", "sp")]
    net = frame(E, dict({"previous_block": "atom", "next_block": "atom"}, **{c: "real" for c in NET}), "net", [])
    prv, nxt = lambda r: af("net.previous_block", r), lambda r: af("net.next_block", r)
    row = lambda r: z3.And(0 <= r, r < net.n)
    fwd = lambda r, x, y: z3.And(row(r), prv(r) == x, nxt(r) == y)
    joins = lambda r, x, y: z3.Or(fwd(r, x, y), fwd(r, y, x))
    linked = lambda x, y: z3.Exists([r], joins(r, x, y))
    r2 = z3.Int("r2")
    reg, ic = E.lit("R"), E.lit("IC")
    pre = [x != y, z3.ForAll([r], z3.Implies(row(r), prv(r) != nxt(r))),
           z3.ForAll([r, r2], z3.Implies(z3.And(joins(r, x, y), joins(r2, x, y)), r == r2))]
    known = z3.Or(sp == reg, sp == ic)
    outs = w.run(NT, "single_passing_time", {"block_info": (SV(x), SV(y), SV(sp)), "data_paths": net})
    name = "single_passing_time"
    if not outs or not any(e == "AssertionError" for _, e in w.raised()):
        raise Unsupported("no rejection")
    for n, (st, v) in enumerate(outs):
        g = tag(name, n, outs)
        w.oblige(g + "/the step is in the table", st, linked(x, y), pre)
        col = lambda d: z3.If(sp == reg, rf("net." + NET[0 if d else 1], r), rf("net." + NET[2 if d else 3], r))
        w.oblige(g + "/time of the direction and speed class", st, isnum(E, z3.If(prv(r) == x, col(True), col(False)))(st, v), pre + [joins(r, x, y), known])
    for n, (st, exc) in enumerate(w.raised()):
        if exc == "AssertionError":
            w.oblige("%s/rejected steps are not in the table/%d" % (name, n), st, z3.Not(linked(x, y)), pre)
        else:
            w.oblige("%s/no %s/%d" % (name, exc, n), st, z3.BoolVal(False), pre + [known])

    step = lambda x, y, sp: rf("step", x, y, sp)

    def single(E, st, b):
        if b["data_paths"] is not net:
            return None
        l = E.view(b["block_info"], st)
        l = l if isinstance(l, tuple) else l.items
        if len(l) != 3:
            return None
        x, y, sp = [E.to_sort(a, Atom) for a in l]
        return [(s, SV(step(x, y, sp))) for s in E.require(st, linked(x, y), "AssertionError")]

    ok = lambda t: z3.ForAll([i], z3.Implies(z3.And(0 <= i, i + 1 < w.len(t)), linked(w.path(t, i), w.path(t, i + 1))))

    def times(E, st, b):
        if b["data_paths"] is not net or not isinstance(b["timetable"], TT):
            return None
        t = b["timetable"].t
        return [(s, Made("passing_times_4blocks", {"timetable": SV(t)})) for s in E.require(st, ok(t), "AssertionError")]

    def station(E, st, b):
        if b["important_stations"] is not w.IS or not isinstance(b["block"], (SV, str)):
            return None
        k = E.to_sort(b["block"], Atom)
        return one(st, OptV(z3.Not(w.ofis(k)), SV(w.of(k))))
    cs = {"single_passing_time": {"params": ["block_info", "data_paths"], "apply": single},
          "passing_times_4blocks": {"params": ["timetable", "data_paths"], "apply": times},
          "get_block_station": {"params": ["block", "important_stations"], "apply": station}}
    w.contract = lambda name: cs[name]
    some = [w.len(t) >= 1]
    outs = w.run(NT, "passing_times_4blocks", {"timetable": w.tt(t), "data_paths": net}, ["single_passing_time"])
    name = "passing_times_4blocks"
    for n, (st, v) in enumerate(outs):
        g = tag(name, n, outs)
        st = st.fork()
        w.oblige(g + "/all steps are in the table", st, z3.Implies(z3.And(0 <= i, i + 1 < w.len(t)), linked(w.path(t, i), w.path(t, i + 1))), some)
        q = E.seq(v, st)
        w.oblige(g + "/one cell per block", st, q.n == w.len(t), some)
        z = q.at(i)
        isnull, val = (z.null, z.v) if isinstance(z, OptV) else (z3.BoolVal(False), z)
        w.oblige(g + "/nothing after the last block", st, isnull == (i == w.len(t) - 1), some + [0 <= i, i < w.len(t)])
        w.oblige(g + "/time of each step", st, isnum(E, step(w.path(t, i), w.path(t, i + 1), af("tt.speed", t, i)))(st, val), some + [0 <= i, i + 1 < w.len(t)])
    for n, (st, exc) in enumerate(w.raised()):
        if exc == "AssertionError":
            w.oblige("%s/rejected paths have a missing step/%d" % (name, n), st, z3.Not(ok(t)), some)
        else:
            w.oblige("%s/no %s/%d" % (name, exc, n), st, z3.BoolVal(False), some)

    outs = w.run(UT, "get_block_station", {"block": SV(b), "important_stations": w.IS})
    for n, (st, v) in enumerate(outs):
        g = tag("get_block_station", n, outs)
        if v is NAN:
            w.oblige(g + "/no station", st, z3.Not(w.ofis(b)), hint(w.IS.at(w.IS.idx(w.of(b))), af("isb.at", w.of(b), w.bpos(b))))
        else:
            w.oblige(g + "/its station", st, z3.And(w.ofis(b), E.b(E.eq(v, SV(w.of(b)), st))))
    w.never("get_block_station")

    notes = [None, set()]
    plain = w.tt

    def noted(t):
        f = plain(t)
        return Written(t, f, f.blocks, notes)
    w.tt = noted

    def setup(st):
        notes[0] = E.alloc(st, ListObj([]))
    outs = w.run(NT, "update_all_timetables", {"time_tables_dict": w.T, "data_paths": net, "important_stations": w.IS, "save": False},
                 ["passing_times_4blocks", "get_block_station"], setup=setup)
    w.tt = plain
    name = "update_all_timetables"
    for n, (st, v) in enumerate(outs):
        g = tag(name, n, outs)
        w.oblige(g + "/all paths are in the table", st, z3.Implies(w.T.has(t), ok(t)))
        if v is not w.T:
            raise Unsupported("another dictionary is returned")
        nodes = st.heap[notes[0].id].nodes
        for c in ("passing_time", "important_station"):
            w.oblige("%s/every train gets its column %s" % (g, c), st, z3.Or([instance(w, bs, z3.And(cond, E.b(E.eq(z[0], SV(t), st))))
                     for bs, cond, z in groups.E_paths(nodes) if z[1] == c] or [z3.BoolVal(False)]), [w.T.has(t)])
        for m, (bs, cond, (a, c, val)) in enumerate(groups.E_paths(nodes)):
            h = "%s/write %d" % (g, m)
            if c == "passing_time":
                w.oblige(h + "/passing times of the train", st, E.b(E.eq(val, Made("passing_times_4blocks", {"timetable": a}), st)), [cond])
            elif c == "important_station":
                listing(w, h + "/station of each block", st, val, w.len(a.e), lambda q: OptV(z3.Not(w.ofis(w.path(a.e, q))), SV(w.of(w.path(a.e, q)))), [cond])
            else:
                w.oblige(h + "/other columns are kept", st, z3.BoolVal(False), [cond])
    for n, (st, exc) in enumerate(w.raised()):
        if exc == "AssertionError":
            w.oblige("%s/rejected only for a missing step/%d" % (name, n), st, z3.Not(z3.ForAll([t], z3.Implies(w.T.has(t), ok(t)))))
        else:
            w.oblige("%s/no %s/%d" % (name, exc, n), st, z3.BoolVal(False))
    return w


# C16 ------------------------------------------------------------------------------------

def c16(repo):
    w = D(repo)
    E = w.E
    t, s, s2, b, i, dep = z3.Int("t"), z3.Const("s", Atom), z3.Const("s2", Atom), z3.Const("b", Atom), z3.Int("i"), z3.Bool("dep")
    true = State()
    # lists of stations: members and their places
    w.oblige("path/members", true, z3.Implies(z3.And(0 <= i, i < w.n(t)), z3.And(w.onp(t, w.sta(t, i)), w.k(t, w.sta(t, i)) == i)))
    w.oblige("blocks/members", true, z3.Implies(w.inrow(t, i), z3.And(w.onb(t, w.path(t, i)), w.row(t, w.path(t, i)) == i)))
    outs = w.run(TC, "train_important_stations", {"time_table": w.tt(t)})
    for n, (st, v) in enumerate(outs):
        listing(w, tag("train_important_stations", n, outs), st, v, w.n(t), lambda i: w.sta(t, i))
    w.never("train_important_stations")

    outs = w.run(UT, "get_Paths", {"train_dict": w.T}, ["train_important_stations"])
    for n, (st, v) in enumerate(outs):
        g = tag("get_Paths", n, outs)
        listing(w, g + "/trains", st, v, w.T.n, w.T.at)
        E.exc.append([])
        for m, (x, y) in enumerate(E.getitem(v, SV(t), st)):
            listing(w, "%s/path/%d" % (g, m), x, y, w.n(t), lambda i: w.sta(t, i), [w.T.has(t)])
        for m, (x, e) in enumerate(E.exc.pop()):
            w.oblige("%s/every train/%d" % (g, m), x, z3.BoolVal(False), [w.T.has(t)])
    w.never("get_Paths")

    outs = w.run(UT, "subsequent_station", {"timetable": w.tt(t), "station": SV(s)}, ["train_important_stations"])
    more = z3.And(w.onp(t, s), w.k(t, s) + 1 < w.n(t))
    for n, (st, v) in enumerate(outs):
        g = tag("subsequent_station", n, outs)
        if v is None:
            w.oblige(g + "/none only at the end or off the path", st, z3.Not(more))
        else:
            w.oblige(g + "/next station", st, z3.And(more, E.b(E.eq(v, SV(w.sta(t, w.k(t, s) + 1)), st))))
    w.never("subsequent_station")

    outs = w.run(UT, "is_train_passing_thru_station", {"timetable": w.tt(t), "station": SV(s)}, ["train_important_stations"])
    for n, (st, v) in enumerate(outs):
        w.oblige(tag("is_train_passing_thru_station", n, outs), st, E.b(E.truth(v, st)) == w.onp(t, s))
    w.never("is_train_passing_thru_station")

    vb = z3.Bool("verbose")
    outs = w.run(UT, "get_blocks_b2win_station4train", {"timetable": w.tt(t), "station1": SV(s), "station2": SV(s2), "verbose": SV(vb)}, ["train_important_stations"])
    on = z3.And(w.onp(t, s), w.onp(t, s2))
    for n, (st, v) in enumerate(outs):
        g = tag("get_blocks_b2win_station4train", n, outs)
        v = E.view(v, st)
        bl, rev = v if isinstance(v, tuple) else v.items
        if rev is None:
            w.oblige(g + "/station not on the path", st, z3.Not(on))
            listing(w, g + "/no blocks", st, bl, z3.IntVal(0), None)
            continue
        rv = E.b(E.truth(rev, st))
        w.oblige(g + "/order flag", st, z3.And(on, rv == (w.k(t, s) > w.k(t, s2))))
        q = w.between(t, s, s2)
        listing(w, g + "/blocks", st, bl, z3.If(rv, 0, q.n), lambda i: q.at(i).e)
    w.never("get_blocks_b2win_station4train")

    outs = w.run(UT, "blocks_list_4station", {"timetable": w.tt(t), "station": SV(s), "important_stations": w.IS}, ["train_important_stations"])
    for n, (st, v) in enumerate(outs):
        listing(w, tag("blocks_list_4station", n, outs), st, v, z3.If(w.onp(t, s), z3.IntVal(1), z3.IntVal(0)), lambda i: w.path(t, w.at(t, s)),
                hint(af("isb.at", s, w.bpos(w.path(t, w.at(t, s))))))
    w.never("blocks_list_4station")

    outs = w.run(UT, "get_block_station", {"block": SV(b), "important_stations": w.IS})
    for n, (st, v) in enumerate(outs):
        g = tag("get_block_station", n, outs)
        if v is NAN:
            w.oblige(g + "/no station", st, z3.Not(w.ofis(b)), hint(w.IS.at(w.IS.idx(w.of(b))), af("isb.at", w.of(b), w.bpos(b))))
        else:
            w.oblige(g + "/its station", st, z3.And(w.ofis(b), E.b(E.eq(v, SV(w.of(b)), st))))
    w.never("get_block_station")

    outs = w.run(UT, "get_trains_at_station", {"trains_infor": w.T, "important_stations": w.IS, "only_departue": SV(dep)})
    for n, (st, v) in enumerate(outs):
        g = tag("get_trains_at_station", n, outs)
        listing(w, g + "/stations", st, v, w.IS.n, w.IS.at)
        E.exc.append([])
        for m, (x, y) in enumerate(E.getitem(v, SV(s), st)):
            x = x.fork()
            same_list(w, "%s/trains/%d" % (g, m), x, y, w.calling(s, dep), [w.IS.has(s)],
                      lambda i: hint(af("isb.at", s, w.bpos(w.path(w.T.at(i), w.at(w.T.at(i), s))))))
        for m, (x, e) in enumerate(E.exc.pop()):
            w.oblige("%s/every station/%d" % (g, m), x, z3.BoolVal(False), [w.IS.has(s)])
    w.never("get_trains_at_station")

    outs = w.run(UT, "get_indexes", {"dfObj": w.tt(t), "value": SV(b)}, hyps=[w.onb(t, b)])
    for n, (st, v) in enumerate(outs):
        E.exc.append([])
        for m, (x, y) in enumerate(E.getitem(v, 0, st)):
            r, c = y if isinstance(y, tuple) else pairs(E, x, y)
            w.oblige("%s/first place of a block/%d" % (tag("get_indexes", n, outs), m), x,
                     z3.And(E.to_sort(r, I) == w.row(t, b), z3.BoolVal(c == "path")), [w.onb(t, b)])
        for m, (x, e) in enumerate(E.exc.pop()):
            w.oblige("get_indexes/a place is found/%d" % m, x, z3.BoolVal(False), [w.onb(t, b)])
    w.never("get_indexes")

    outs = w.run(UT, "get_passing_time_block", {"block": SV(b), "timetable": w.tt(t)})
    for n, (st, v) in enumerate(outs):
        w.oblige(tag("get_passing_time_block", n, outs) + "/time of the block", st, isnum(E, w.pt(t, w.row(t, b)))(st, v), [w.onb(t, b)])
    w.never("get_passing_time_block", extra=[w.onb(t, b)])

    u = z3.Int("u")
    both = [w.T.has(t), w.T.has(u)]
    outs = w.run(UT, "check_common_station", {"train_dict": w.T, "train1": SV(t), "train2": SV(u)}, ["train_important_stations"], hyps=both)
    for n, (st, v) in enumerate(outs):
        members(w, tag("check_common_station", n, outs), st, v, s, z3.And(w.onp(t, s), w.onp(u, s)))
    w.never("check_common_station")

    outs = w.run(UT, "check_common_blocks_elements", {"train_dict": w.T, "train1": SV(t), "train2": SV(u)}, hyps=both)
    for n, (st, v) in enumerate(outs):
        members(w, tag("check_common_blocks_elements", n, outs), st, v, b, z3.And(w.onb(t, b), w.onb(u, b)))
    w.never("check_common_blocks_elements")

    outs = w.run(UT, "subsequent_block", {"time_table_blocks": w.blocks(t), "block": SV(b), "verbose": SV(vb)}, hyps=[w.onb(t, b)])
    for n, (st, v) in enumerate(outs):
        g = tag("subsequent_block", n, outs)
        if v is None:
            w.oblige(g + "/none only at the end", st, w.row(t, b) + 1 == w.len(t))
        else:
            w.oblige(g + "/next block", st, z3.And(w.row(t, b) + 1 < w.len(t), E.b(E.eq(v, SV(w.path(t, w.row(t, b) + 1)), st))))
    w.never("subsequent_block")

    outs = w.run(UT, "get_trains_with_same_stations", {"train_dict": w.T}, ["train_important_stations"])
    for n, (st, v) in enumerate(outs):
        g = tag("get_trains_with_same_stations", n, outs)
        w.oblige(g + "/stations", st, E.b(E.contains(SV(s), v, st)) == z3.Exists([i], z3.And(0 <= i, i < w.T.n, w.onp(w.T.at(i), s))))
        E.exc.append([])
        for m, (x, y) in enumerate(E.getitem(v, SV(s), st)):
            members(w, "%s/trains/%d" % (g, m), x, y, t, z3.And(w.T.has(t), w.onp(t, s)))
        E.exc.pop()
    w.never("get_trains_with_same_stations")
    return w


# lists of things found ------------------------------------------------------------------

def paths_of(nodes, bs=(), cond=()):
    """(binders, condition, leaf) of every emission"""
    for n in nodes:
        if isinstance(n, Item):
            yield list(bs), z3.And(list(cond)) if cond else z3.BoolVal(True), n.v
        elif isinstance(n, Guard):
            yield from paths_of(n.nodes, bs, tuple(cond) + (n.g,))
        else:
            b, d, sub = rename(n)
            yield from paths_of(sub, tuple(bs) + tuple(b), tuple(cond) + (d,))


def found(w, name, st, nodes, params, has, same, decode, extra=(), mk=None):
    """exactly the things given by has are emitted, each once

    same(leaf, params): the leaf is the thing with these parameters; decode(leaf): its parameters."""
    E = w.E
    ps = [z3.Const(uid("p"), p) for p in params]
    ways = list(paths_of(nodes))
    if not ways:
        w.oblige(name + "/all found", st, z3.Not(has(*ps)), extra)
        return
    for k, (bs, c, v) in enumerate(ways):
        d = decode(v)
        w.oblige("%s/only those/%d" % (name, k), st, z3.And(has(*d), same(v, d)), list(extra) + [c] + (mk(*d) if mk else []))
    w.oblige(name + "/all found", st, disj(nodes, lambda v: same(v, ps)), list(extra) + [has(*ps)] + (mk(*ps) if mk else []))
    for k, (bs, c, v) in enumerate(ways):
        clash = []
        for l, (b2, c2, v2) in enumerate(ways[k:]):
            nb = [z3.Const(uid("o"), b.sort()) for b in b2]
            m = list(zip(b2, nb))
            c2, v2 = (z3.substitute(c2, *m), subst(v2, m)) if m else (c2, v2)
            diff = z3.Or([p != q for p, q in zip(bs, nb)]) if l == 0 else z3.BoolVal(True)
            eq = z3.And([x == y for x, y in zip(decode(v), decode(v2))])
            clash.append(z3.And(c2, diff, eq))
        w.oblige("%s/each once/%d" % (name, k), st, z3.Not(z3.And(c, z3.Or(clash))), extra)


# C23 ------------------------------------------------------------------------------------

def pairs(E, st, v, n=2):
    q = E.view(v, st)
    xs = list(q) if isinstance(q, tuple) else q.items if isinstance(q, CList) else None
    if xs is None or len(xs) != n:
        raise Unsupported("pair")
    return xs


def c23(repo):
    w = D(repo)
    E = w.E
    t, i = z3.Int("t"), z3.Int("i")
    nine = lambda t: 10 * t + 9
    two = lambda t: z3.And(w.T.has(t), w.T.has(nine(t)))
    outs = w.run(JT, "get_trains_pair9", {"train_dict": w.T})
    ints = lambda st, v: [E.to_sort(x, I) for x in pairs(E, st, v)]
    for n, (st, v) in enumerate(outs):
        found(w, tag("get_trains_pair9", n, outs), st, E.tree(v, st), [I], two,
              lambda v, p: z3.And([a == b for a, b in zip(ints(st, v), [p[0], nine(p[0])])]), lambda v: [ints(st, v)[0]],
              mk=lambda t: hint(w.T.at(w.T.idx(t)), w.T.at(w.T.idx(nine(t)))))
    w.never("get_trains_pair9")

    first = lambda t: w.path(t, z3.IntVal(0))
    end = lambda t: w.path(t, w.len(t) - 1)
    back = lambda t: first(t) == end(nine(t))  # the nine train comes first
    fwd = lambda t: first(nine(t)) == end(t)
    meet = lambda t: z3.If(back(t), first(t), first(nine(t)))

    def pre_at(t):
        return [z3.Implies(w.T.has(t), w.len(t) > 0), z3.Implies(w.T.has(nine(t)), w.len(nine(t)) > 0),
                z3.Implies(two(t), z3.And(z3.Xor(back(t), fwd(t)), w.ofis(meet(t))))]
    # stated at the trains concerned
    w.E.axioms.append(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w.T.n), z3.And(pre_at(w.T.at(i)))), patterns=[w.T.at(i)]))
    outs = w.run(JT, "get_jround", {"train_dict": w.T, "important_stations": w.IS})
    low = lambda p: z3.If(p[1] == nine(p[0]), p[0], p[1])
    for n, (st, v) in enumerate(outs):
        v = E.view(v, st)
        if not isinstance(v, MapV):
            raise Unsupported("result of get_jround")

        def same(x, p):
            a, b = ints(st, x[2])
            t = p[0]
            return z3.And(E.b(E.eq(x[1], SV(w.of(meet(t))), st)), a == z3.If(back(t), nine(t), t), b == z3.If(back(t), t, nine(t)))
        for x in leaves(v.nodes):
            if x[0] != "app":
                raise Unsupported("entries of get_jround")
        found(w, tag("get_jround", n, outs), st, v.nodes, [I], two, same, lambda x: [low(ints(st, x[2]))],
              mk=lambda t: hint(w.T.at(w.T.idx(t)), w.T.at(w.T.idx(nine(t)))))
    w.never("get_jround")
    return w


# C24 ------------------------------------------------------------------------------------

KINDS = {"KS - Os": "stopping", "PR - R": "stopping", "KS - OsP": "stopping", "IC - TLK": "fast", "IC - IC": "fast",
         "IC - EIP": "express", "IC - EIC": "express"}


def c24(repo):
    w = D(repo)
    E = w.E
    t, s, u = z3.Int("t"), z3.Const("s", Atom), z3.Int("u")
    nz = [z3.ForAll([t], z3.Implies(w.T.has(t), w.len(t) > 0), patterns=[w.T.idx(t)])]
    outs = w.run(UT, "get_skip_stations", {"train_dict": w.T}, hyps=nz)
    q = lambda t: w.len(t) - 1
    for n, (st, v) in enumerate(outs):
        mapping(w, tag("get_skip_stations", n, outs), st, v, "{}", (t,), lambda a: z3.And(w.T.has(a), z3.Not(w.nost(a, q(a)))),
                lambda x, y: E.b(E.eq(y, SV(w.st(t, q(t))), x)), what="the station of the last block")
    w.never("get_skip_stations")

    sh = lambda t: bf("skip.has", t)
    sv = lambda t: af("skip.get", t)
    kind = lambda t: af("info", t, z3.IntVal(0))
    val = {k: z3.Real(k) for k in ("stopping", "fast", "express", "empty")}
    ka = z3.Int(uid("k"))
    skip = DictV([ka], sh(ka), SV(sv(ka)), "scalar")
    lasts = lambda t: w.sta(t, w.n(t) - 1)
    skipped = lambda t: z3.And(sh(t), sv(t) == lasts(t))
    at = lambda t: z3.If(skipped(t), w.sta(t, w.n(t) - 2), lasts(t))
    pre = [z3.ForAll([t], z3.Implies(w.T.has(t), z3.And(w.n(t) >= 1, z3.Implies(skipped(t), w.n(t) >= 2),
                                                        z3.Or([kind(t) == E.lit(k) for k in KINDS]))), patterns=[w.T.idx(t)])]
    outs = w.run(SC, "make_weights", {"train_dict": w.T, "skip_stations": skip, **{k: SV(v) for k, v in val.items()}},
                 ["train_important_stations"], hyps=pre)
    short = z3.Exists([u], z3.And(w.T.has(u), 10 * u + 9 == t))
    want = val["empty"]
    for k, c in KINDS.items():
        want = z3.If(kind(t) == E.lit(k), val[c], want)
    want = z3.If(short, val["empty"], want)
    for n, (st, v) in enumerate(outs):
        mapping(w, tag("make_weights", n, outs), st, v, "{}_{}", (t, s), lambda a, b: z3.And(w.T.has(a), at(a) == b),
                isnum(E, want), what="weight of the category or of an empty run")
    w.never("make_weights")
    return w


# C27 ------------------------------------------------------------------------------------

def c27(repo):
    w = D(repo, clean=False)
    E = w.E
    t, i, r = z3.Int("t"), z3.Int("i"), z3.Int("r")
    net = frame(E, {"previous_block": "atom", "next_block": "atom"}, "net", [])
    a, b = lambda r: af("net.previous_block", r), lambda r: af("net.next_block", r)
    row = lambda r: z3.And(0 <= r, r < net.n)
    p = lambda i: w.path(t, i)
    pre = [z3.ForAll([r], z3.Implies(row(r), a(r) != b(r))), z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w.len(t) - 1), p(i) != p(i + 1)))]
    adj = lambda i: z3.Exists([r], z3.And(row(r), z3.Or(z3.And(a(r) == p(i), b(r) == p(i + 1)), z3.And(a(r) == p(i + 1), b(r) == p(i)))))
    good = z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < w.len(t) - 1), adj(i)))
    outs = w.run(TC, "check_path_continuity", {"paths": w.tt(t).col("path"), "data_path_check": net})
    for n, (st, v) in enumerate(outs):
        w.oblige(tag("check_path_continuity", n, outs) + "/accepted paths have no gap", st, good, pre)
    for n, (st, exc) in enumerate(w.raised()):
        if exc == "AssertionError":
            w.oblige("check_path_continuity/rejected paths have a gap/%d" % n, st, z3.Not(good), pre)
        else:
            w.oblige("check_path_continuity/no %s/%d" % (exc, n), st, z3.BoolVal(False), pre)
    if not outs or not any(e == "AssertionError" for _, e in w.raised()):
        raise Unsupported("no rejection")
    return w


# C17 ------------------------------------------------------------------------------------

ROUTE = ["train_important_stations", "subsequent_station", "get_blocks_b2win_station4train", "blocks_list_4station", "get_passing_time_block", "get_Paths", "get_indexes"]


def turn(t, q):
    """turnaround time in a row, none counts as zero"""
    return z3.If(bf("tt.Turnaround_time_minutes.null", t, q), z3.RealVal(0), rf("tt.Turnaround_time_minutes", t, q))


def c17(repo):
    w = D(repo)
    E = w.E
    t, s, s2, r, i = z3.Int("t"), z3.Const("s", Atom), z3.Const("s2", Atom), z3.Int("r"), z3.Int("i")
    res = lambda x: z3.If(r == 1, real(RND(x)), x)
    sel = KSeq(lambda: (z3.Int("sel.len"), lambda i: nf("sel.at", i), lambda x: z3.And(0 <= nf("sel.idx", x), nf("sel.idx", x) < z3.Int("sel.len"),
                                                                                     nf("sel.at", nf("sel.idx", x)) == x), lambda x: nf("sel.idx", x)), [], I)
    E.axioms += [z3.Int("sel.len") >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < sel.n), z3.And(
        nf("sel.idx", nf("sel.at", i)) == i, w.T.has(nf("sel.at", i)))), patterns=[nf("sel.at", i)]),
        z3.ForAll([t], z3.Implies(w.T.has(t), w.n(t) >= 1), patterns=[w.T.idx(t)])]

    kk = z3.Int("kk")
    ahead = z3.Implies(z3.And(0 <= kk, kk < w.n(t) - 1), w.pos(t, kk) + 1 < w.len(t))
    w.oblige("there is a block after a station that is not the last", State(), ahead, hint(w.pos(t, w.n(t) - 1)))
    ahead = z3.ForAll([t, kk], ahead, patterns=[w.pos(t, kk)])

    def running(st, train, t, s, idx):
        """running time from a station to the next, a function of the train's and the station's place"""
        a, k, b = z3.Int(uid("a")), z3.Int(uid("k")), z3.Int(uid("i"))
        u = train(a)
        dom = z3.And(0 <= b, b < w.pos(u, k + 1) - w.pos(u, k) - 1)
        st = st.fork()
        st.binders = (a, k)
        x = E.sum_term(st, [b], dom, w.pt(u, w.pos(u, k) + 1 + b))
        return z3.substitute(x, (a, idx(t)), (k, w.k(t, s)))
    for which, trains, on in (("", None, w.T.has), (" of selected trains", sel, sel.has)):
        outs = w.run(JT, "get_taus_pass", {"train_dict": w.T, "trains": trains, "r": SV(r)}, ROUTE)
        name = "get_taus_pass" + which
        for n, (st, v) in enumerate(outs):
            tot = running(st, w.T.at if trains is None else lambda i: nf("sel.at", i), t, s, w.T.idx if trains is None else sel.idx)
            mapping(w, tag(name, n, outs), st, v, "{}_{}_{}", (t, s, s2), lambda a, b, c: z3.And(
                on(a), w.onp(a, b), w.k(a, b) + 1 < w.n(a), w.sta(a, w.k(a, b) + 1) == c), isnum(E, res(tot)), what="sum of the passing times between")
        w.never(name)
        outs = w.run(JT, "get_taus_stop", {"train_dict": w.T, "important_stations": w.IS, "trains": trains, "r": SV(r)}, ROUTE)
        name = "get_taus_stop" + which
        for n, (st, v) in enumerate(outs):
            v = E.view(v, st)
            stop, prep = v if isinstance(v, tuple) else v.items
            q = w.at(t, s)
            goes = lambda a, b: z3.And(on(a), w.onp(a, b), w.at(a, b) + 1 < w.len(a))
            mapping(w, tag(name, n, outs), st, stop, "{}_{}", (t, s), goes,
                    isnum(E, res(w.pt(t, q) + z3.If(w.k(t, s) == 0, z3.RealVal(0), turn(t, q)))), [ahead], what="passing and turnaround time of the station block")
            orzero(w, tag(name, n, outs) + "/preparation times", st, prep, (t, s), lambda a, b: z3.And(on(a), w.onp(a, b), w.k(a, b) == 0),
                   res(turn(t, q)), z3.And(goes(t, s), z3.Not(bf("tt.Turnaround_time_minutes.null", t, q))))
        w.never(name)
    outs = w.run(JT, "get_taus_prep", {"train_dict": w.T, "important_stations": w.IS, "r": SV(r)}, ROUTE)
    for n, (st, v) in enumerate(outs):
        q = lambda a: w.pos(a, z3.IntVal(0))
        mapping(w, tag("get_taus_prep", n, outs), st, v, "{}_{}", (t, s), lambda a, b: z3.And(w.T.has(a), w.sta(a, z3.IntVal(0)) == b, res(turn(a, q(a))) != 0),
                isnum(E, res(turn(t, q(t)))), what="turnaround time at the first station")
    w.never("get_taus_prep")
    return w


# assembly of the input of the model (helpers.py) -----------------------------------------

H = "helpers.py"


class Made:
    """result of a function under its own contract, with the arguments it was given"""

    def __init__(self, fname, args):
        self.fname, self.args = fname, args

    def subst(self, m):
        return Made(self.fname, {k: subst(v, m) for k, v in self.args.items()})

    def vkey(self, E):
        return ("Made", self.fname) + tuple((k, E.vkey(v)) for k, v in sorted(self.args.items()))

    def py_eq(self, E, o, st):
        if not isinstance(o, Made):
            return False
        if o.fname != self.fname:
            raise Unsupported("comparison of results")
        return E.conj_eq([self.args[k] for k in sorted(self.args)], [o.args[k] for k in sorted(o.args)], st)


def made(w, fname, params):
    def apply(E, st, b):
        return one(st, Made(fname, {p: b[p] for p in params}))
    return {"params": params, "apply": apply}


def given(w, name, st, v, fname, want):
    """the value is the result of this function for these arguments"""
    E = w.E
    if not isinstance(v, Made):
        raise Unsupported("%s is not passed on as it is" % fname)
    if v.fname != fname:
        w.oblige(name + "/taken from " + fname, st, z3.BoolVal(False))
        return
    for k, x in want.items():
        y = v.args[k]
        same = y is x or (z3.BoolVal(False) if isinstance(x, OrdDict) or isinstance(y, OrdDict) else E.eq(y, x, st))
        w.oblige("%s/taken from %s/%s" % (name, fname, k), st, E.b(same))


def entry(w, name, st, d, key):
    E = w.E
    E.exc.append([])
    r = E.getitem(d, key, st)
    missing = E.exc.pop()
    for k, (x, e) in enumerate(missing):
        w.oblige("%s/%s is there/%d" % (name, key, k), x, z3.BoolVal(False))
    return r


def a_taus(repo, only):
    w = D(repo)
    E = w.E
    r, t, s = z3.Int("r"), z3.Int("t"), z3.Const("s", Atom)
    w.made = {f: made(w, f, ps) for f, ps in (("get_taus_pass", ["train_dict", "trains", "r"]), ("get_taus_headway", ["train_dict", "important_stations", "r"]))}
    val = lambda a: rf("prep.value", a)  # preparation time of a train, rounded as asked for
    some = lambda n, a: bf("prep.has" + n, a)

    def prep(n):
        def mk(E, st):
            st = st.fork()
            a = z3.Int(uid("t"))
            first = w.sta(a, z3.IntVal(0))
            return st, E.alloc(st, DictObj([Loop([a], z3.And(w.T.has(a), some(n, a)), [Item(("put", FStr([SV(a), "_", SV(first)]), SV(val(a))))])]))
        return mk

    def usual(b):
        if not (b["train_dict"] is w.T and b["important_stations"] is w.IS and b.get("trains") is None and E.must(State(), E.b(E.eq(b["r"], SV(r), State())))):
            raise Unsupported("arguments of the time functions")

    def f_prep(E, st, b):
        usual(b)
        st, d = prep("1")(E, st)
        return one(st, d)

    def f_stop(E, st, b):
        usual(b)
        st, d = prep("2")(E, st)
        return one(st, (Made("get_taus_stop", {k: b[k] for k in ("train_dict", "important_stations", "trains", "r")}), d))
    w.made["get_taus_prep"] = {"params": ["train_dict", "important_stations", "r"], "apply": f_prep}
    w.made["get_taus_stop"] = {"params": ["train_dict", "important_stations", "trains", "r"], "apply": f_stop}
    # what the contracts of the two functions say about preparation times
    pre = [z3.ForAll([t], z3.Implies(z3.And(w.T.has(t), val(t) != 0), some("1", t)), patterns=[val(t)])]
    w.contract = lambda name: w.made[name]
    outs = w.run(H, "make_taus", {"train_dict": w.T, "important_stations": w.IS, "r": SV(r)}, list(w.made), hyps=pre)
    for n, (st, v) in enumerate(outs):
        g = tag("make_taus", n, outs)
        want = {"train_dict": w.T, "trains": None, "r": SV(r)}
        if "pass" in only:
            for x, y in entry(w, g, st, v, "pass"):
                given(w, g + "/running times", x, y, "get_taus_pass", want)
            for x, y in entry(w, g, st, v, "stop"):
                given(w, g + "/stop times", x, y, "get_taus_stop", dict(want, important_stations=w.IS))
            for x, y in entry(w, g, st, v, "prep"):
                orzero(w, g + "/preparation times", x, y, (t, s), lambda a, b: z3.And(w.T.has(a), w.sta(a, z3.IntVal(0)) == b), val(t), z3.BoolVal(True))
        if "headway" in only:
            for x, y in entry(w, g, st, v, "headway"):
                given(w, g + "/headways", x, y, "get_taus_headway", {"train_dict": w.T, "important_stations": w.IS, "r": SV(r)})
    w.never("make_taus")
    return w


def a_given(repo):
    """the times of the problem: those given, or those of the timetables in whole minutes"""
    w = D(repo)
    E = w.E
    skip, own = Opq("skip stations"), Opq("times")
    w.made = {f: made(w, f, ps) for f, ps in (
        ("make_taus", ["train_dict", "important_stations", "r"]), ("get_initial_conditions", ["train_dicts", "t1"]), ("get_schedule", ["train_dicts", "t1"]),
        ("make_weights", ["train_dict", "skip_stations"]))}
    w.contract = lambda name: w.made[name]
    args = {"train_dict": w.T, "important_stations": w.IS, "skip_stations": skip, "t1": SV(z3.Const("t1", Atom))}
    for what, more in (("make_timetable", {"taus": None}), ("make_timetable with given times", {"taus": own})):
        outs = w.run(H, "make_timetable", dict(args, **more), list(w.made))
        for n, (st, v) in enumerate(outs):
            g = tag(what, n, outs)
            for x, y in entry(w, g, st, v, "tau"):
                if more["taus"] is None:
                    given(w, g + "/times", x, y, "make_taus", {"train_dict": w.T, "important_stations": w.IS, "r": 1})
                elif y is own or isinstance(y, Made):
                    w.oblige(g + "/times as given", x, z3.BoolVal(y is own))
                else:
                    raise Unsupported("given times are not passed on as they are")
        w.never(what)
    return w


def a17(repo):
    return both(a_taus(repo, ["pass"]), a_given(repo))


def a18(repo):
    return a_taus(repo, ["headway"])


def a_timetable(repo, key, fname, params, want):
    w = D(repo)
    E = w.E
    t1, skip = z3.Const("t1", Atom), Opq("skip stations")
    w.made = {f: made(w, f, ps) for f, ps in (
        ("make_taus", ["train_dict", "important_stations", "r"]), ("get_initial_conditions", ["train_dicts", "t1"]), ("get_schedule", ["train_dicts", "t1"]),
        ("make_weights", ["train_dict", "skip_stations"]))}
    w.contract = lambda name: w.made[name]
    env = {"T": w.T, "t1": SV(t1), "skip": skip}
    for what, taus in (("", None), (" with given times", Opq("times"))):
        outs = w.run(H, "make_timetable", {"train_dict": w.T, "important_stations": w.IS, "skip_stations": skip, "t1": SV(t1), "taus": taus}, list(w.made))
        for n, (st, v) in enumerate(outs):
            g = tag("make_timetable" + what, n, outs)
            for x, y in entry(w, g, st, v, key):
                given(w, g + "/" + key, x, y, fname, {k: env[e] for k, e in want.items()})
        w.never("make_timetable" + what)
    return w


def a14(repo):
    w = a_timetable(repo, "schedule", "get_schedule", None, {"train_dicts": "T", "t1": "t1"})
    v = a_timetable(repo, "initial_conditions", "get_initial_conditions", None, {"train_dicts": "T", "t1": "t1"})
    return both(w, v)


def a24(repo):
    return a_timetable(repo, "penalty_weights", "make_weights", None, {"train_dict": "T", "skip_stations": "skip"})


def both(w, v):
    """obligations of two runs together"""
    w.E.axioms += v.E.axioms
    w.E.lits.update(v.E.lits)
    w.E.obls += v.E.obls
    w.E.inlined |= v.E.inlined
    w.E.called |= v.E.called
    return w


SETS = {"Paths": ("get_Paths", ["train_dict"]), "J": ("get_J", ["train_dict"]), "Jd": ("jd", ["time_tables_dict", "important_stations", "imp_stations"]),
        "Josingle": ("josingle", ["trains_dict", "important_stations", "imp_stations"]), "Jround": ("get_jround", ["train_dict", "important_stations"]),
        "Jtrack": ("jtrack", ["trains_dict", "important_stations", "imp_stations"]),
        "Jswitch": ("jswitch", ["train_dict", "important_stations", "data_switch", "imp_stations"])}


def a_sets(repo, keys):
    w = D(repo)
    skip, net = Opq("skip stations"), Opq("network")
    w.made = {f: made(w, f, ps) for f, ps in SETS.values()}
    w.contract = lambda name: w.made[name]
    outs = w.run(H, "make_train_set", {"train_dict": w.T, "important_stations": w.IS, "data_path": net, "skip_stations": skip}, list(w.made))
    env = {"train_dict": w.T, "trains_dict": w.T, "time_tables_dict": w.T, "important_stations": w.IS, "data_switch": net, "imp_stations": None}
    for n, (st, v) in enumerate(outs):
        g = tag("make_train_set", n, outs)
        for k in keys:
            for x, y in entry(w, g, st, v, k):
                if k == "skip_station":
                    w.oblige(g + "/skipped stations", x, w.E.b(w.E.eq(y, skip, x)))
                else:
                    given(w, g + "/" + k, x, y, SETS[k][0], {p: env[p] for p in SETS[k][1]})
    w.never("make_train_set")
    return w


def a16(repo):
    return a_sets(repo, ["Paths", "J"])


def a19(repo):
    return a_sets(repo, ["Jd"])


def a20(repo):
    return a_sets(repo, ["Josingle"])


def a21(repo):
    return a_sets(repo, ["Jtrack"])


def a22(repo):
    return a_sets(repo, ["Jswitch"])


def a23(repo):
    return a_sets(repo, ["Jround"])


# C20 ------------------------------------------------------------------------------------

def chosen(w):
    """the lists of stations a caller may ask for: all, or a selection without repetition"""
    E = w.E
    i = z3.Int("i")
    n = z3.Int("sel.n")
    at = lambda i: af("sel.at", i)
    idx = lambda s: nf("sel.idx", s)
    has = lambda s: z3.And(0 <= idx(s), idx(s) < n, at(idx(s)) == s)
    hyps = [n >= 0, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n), z3.And(idx(at(i)) == i, w.IS.has(at(i)))), patterns=[at(i)])]
    sel = KSeq(lambda: (n, at, has, idx), [], Atom)
    return [("all stations", None, w.IS.has, w.IS.idx, w.IS.at, []), ("selected stations", sel, has, idx, at, hyps)]


def c20(repo):
    w = D(repo)
    E = w.E
    s, s2 = z3.Const("s", Atom), z3.Const("s2", Atom)

    def back(g):
        i = z3.Int(uid("i"))
        return SeqV(g.n, i, g.at(g.n - 1 - i))

    def opposing(a, b, j, k):
        """train j runs from a to b, train k from b to a, over the same blocks"""
        f, g = w.between(j, a, b), w.between(k, b, a)
        return z3.And(w.T.has(j), w.T.has(k), j != k, w.onp(j, a), w.k(j, a) + 1 < w.n(j), w.sta(j, w.k(j, a) + 1) == b,
                      w.onp(k, b), w.k(k, b) + 1 < w.n(k), w.sta(k, w.k(k, b) + 1) == a, f.n > 0, E.b(E.eq(f, back(g), State())))

    def reversed_at(a, b, j, k):
        """instances showing that the relation holds for the opposite direction"""
        f, g = w.between(j, a, b), w.between(k, b, a)
        p, q = [E.b(E.eq(x, back(y), State())).children()[1] for x, y in ((f, g), (g, f))]
        return E.predicate_at(p, f.n - 1 - E.predicate_diff(q))
    for what, given_, has, idx, at, hyps in chosen(w):
        # some pair opposes on the line from a to b
        some = z3.Function("some pair " + what, Atom, Atom, B)
        w1 = z3.Function("first of " + what, Atom, Atom, I)
        w2 = z3.Function("second of " + what, Atom, Atom, I)
        j, k = z3.Int("j"), z3.Int("k")
        E.axioms.append(z3.ForAll([s, s2], z3.Implies(some(s, s2), opposing(s, s2, w1(s, s2), w2(s, s2))), patterns=[some(s, s2)]))
        law = lambda a, b, j, k: z3.Implies(opposing(a, b, j, k), z3.And(opposing(b, a, k, j), some(a, b), some(b, a)))
        w.oblige("lemma/opposite directions/" + what, State(), law(s, s2, j, k), [
            reversed_at(s, s2, j, k), z3.Implies(opposing(s, s2, j, k), some(s, s2)), z3.Implies(opposing(s2, s, k, j), some(s2, s))])
        tests = []

        def listed(a, b, when):
            """the line from a to b has its entry when the station numbered when is treated"""
            return z3.And(has(a), has(b), idx(a) < when, idx(a) < idx(b), some(a, b))

        def member(st, ref, key):
            if not isinstance(key, tuple) or len(key) != 2 or not st.binders:
                return None
            a, b = [E.to_sort(x, Atom) for x in key]
            now = st.binders[0]
            if not E.must(st, b == at(now)):
                return None
            e = listed(a, b, now)
            tests.append((st.fork(), ref, (a, b), e))
            return e
        E.member = member
        outs = w.run(JT, "josingle", {"trains_dict": w.T, "important_stations": w.IS, "imp_stations": given_},
                     ["subsequent_station", "get_blocks_b2win_station4train", "get_trains_at_station"], hyps)
        E.member = None
        name = "josingle/" + what
        one_way = lambda a, b, j, k: z3.And(has(a), has(b), idx(a) < idx(b), opposing(a, b, j, k))
        for n, (st, v) in enumerate(outs):
            v = E.view(v, st)
            if not isinstance(v, MapV):
                raise Unsupported("result of josingle")
            for x in leaves(v.nodes):
                if x[0] != "app" or not isinstance(x[1], tuple):
                    raise Unsupported("entries of josingle")
            ab = lambda x: [E.to_sort(y, Atom) for y in x[1]]
            jk = lambda x: [E.to_sort(y, I) for y in pairs(E, st, x[2])]
            found(w, tag(name, n, outs), st, v.nodes, [Atom, Atom, I, I], one_way,
                  lambda x, p: z3.And([a == b for a, b in zip(ab(x) + jk(x), p)]), lambda x: ab(x) + jk(x),
                  mk=lambda a, b, j, k: hint(w.T.at(w.T.idx(j)), w.T.at(w.T.idx(k)), at(idx(a)), at(idx(b))) + [law(a, b, j, k)])
            for m, (x, ref, key, e) in enumerate(tests):
                # the assumed membership is the real one: earlier emissions with this key
                now = x.binders
                direct = []
                g = "%s/entry of the line present/%d" % (tag(name, n, outs), m)
                y = x.fork()
                y.facts = st.facts + x.facts
                for bs, c, leaf in paths_of(v.nodes):
                    if len(bs) != len(now):
                        raise Unsupported("emissions outside the loops")
                    before = z3.BoolVal(False)
                    for p, q in reversed(list(zip(bs, now))):
                        before = z3.Or(p < q, z3.And(p == q, before))
                    hit = z3.And(c, before, ab(leaf)[0] == key[0], ab(leaf)[1] == key[1])
                    w.oblige("%s/only if assumed/%d" % (g, len(direct)), y, z3.BoolVal(False), [z3.Not(e), hit, law(*(ab(leaf) + jk(leaf)))])
                    direct.append(z3.substitute(hit, *zip(bs, [idx(key[0]), w.T.idx(w1(*key)), w.T.idx(w2(*key))])))
                more = hint(w.T.at(w.T.idx(w1(*key))), w.T.at(w.T.idx(w2(*key))), at(idx(key[0])), at(idx(key[1])))
                w.oblige(g + "/if assumed", y, z3.Or(direct), [e] + more)
        w.never(name)
    return w


# C22 ------------------------------------------------------------------------------------

class Sw:
    """the switches train t sets when entering or leaving station s"""

    def __init__(self, x, t, s):
        self.x, self.t, self.s = x, t, s

    def subst(self, m):
        return Sw(self.x, z3.substitute(self.t, *m), z3.substitute(self.s, *m))

    def vkey(self, E):
        return ("Sw", self.x, self.t.get_id(), self.s.get_id())

    def meets(self, E, o, st):
        if not isinstance(o, Sw) or not E.must(st, self.s == o.s):
            raise Unsupported("comparison of switches")
        return meet(self.x, self.t, o.x, o.t, self.s)

    def py_binop(self, E, op, a, b, st):
        if isinstance(op, ast.BitAnd):
            return one(st, Meet(a.meets(E, b, st)))
        return None

    def py_call(self, E, name, args, kw, st):
        if name == "intersection" and len(args) == 1:
            return one(st, Meet(self.meets(E, args[0], st)))
        if name == "isdisjoint":
            return one(st, SV(z3.Not(self.meets(E, args[0], st))))
        raise Unsupported("%s of switches" % name)


class Meet:
    """common switches of two movements, of which only the existence is known"""

    def __init__(self, some):
        self.some = some

    def subst(self, m):
        return Meet(z3.substitute(self.some, *m))

    def vkey(self, E):
        return ("Meet", self.some.get_id())

    def py_truth(self, E, st):
        return self.some


def meet(x, t, y, u, s):
    """two movements at a station have a switch in common"""
    if x > y:
        x, t, y, u = y, u, x, t
    return bf("common switch %s %s" % (x, y), t, u, s)


def entries(E, st, nodes):
    """elements of the lists in a dictionary of lists, with their keys"""
    out = []
    for n in nodes:
        if isinstance(n, Item):
            if n.v[0] != "put":
                raise Unsupported("entries of a dictionary")
            out += with_key(E.tree(n.v[2], st), n.v[1])
        elif isinstance(n, Guard):
            out.append(Guard(n.g, entries(E, st, n.nodes)))
        else:
            out.append(Loop(n.binders, n.dom, entries(E, st, n.nodes), n.n))
    return out


def with_key(nodes, k):
    return [Item((k, n.v)) if isinstance(n, Item) else Guard(n.g, with_key(n.nodes, k)) if isinstance(n, Guard)
            else Loop(n.binders, n.dom, with_key(n.nodes, k), n.n) for n in nodes]


class Cell:
    """cell of the table of switches: number with a point, number, text with one or with several numbers"""
    FLOAT, INT, ONE, SEVERAL = range(4)

    def __init__(self, r):
        self.r = r
        self.kind = nf("cell.kind", r)

    def subst(self, m):
        return Cell(z3.substitute(self.r, *m))

    def vkey(self, E):
        return ("Cell", self.r.get_id())

    def py_types(self, E, st):
        out = []
        for x, b in E.branch(st, self.kind == self.FLOAT):
            out += [(x, Prim("float"))] if b else [(y, Prim("int" if c else "str")) for y, c in E.branch(x, self.kind == self.INT)]
        return out

    def py_str(self, E):
        return CellText(self.r, False)

    def py_eval(self, E, st):
        return [z for x in E.require(st, z3.Or(self.kind == self.ONE, self.kind == self.SEVERAL), "TypeError") for z in CellText(self.r, False).py_eval(E, x)]

    @staticmethod
    def has(r, k):
        """number k is in the cell of row r"""
        kind = nf("cell.kind", r)
        return z3.And(z3.Not(bf("net.switches.null", r)), z3.If(z3.Or(kind == Cell.INT, kind == Cell.ONE), k == nf("cell.number", r), bf("cell.has", r, k)))


class CellText:
    """text of a cell, with commas for points or not"""

    def __init__(self, r, commas):
        self.r, self.commas = r, commas

    def subst(self, m):
        return CellText(z3.substitute(self.r, *m), self.commas)

    def vkey(self, E):
        return ("CellText", self.r.get_id(), self.commas)

    def py_type(self, E, st):
        return Prim("str")

    def py_call(self, E, name, args, kw, st):
        if name == "replace" and list(args) == [".", ","]:
            return one(st, CellText(self.r, True))
        if name == "strip" and not args:
            return one(st, self)
        raise Unsupported("%s of a cell" % name)

    def py_eval(self, E, st):
        kind = nf("cell.kind", self.r)
        out = []
        for x, b in E.branch(st, kind == Cell.FLOAT):
            if b:
                out.append((x, Several(self.r) if self.commas else SV(rf("cell.float", self.r))))
                continue
            for y, c in E.branch(x, z3.Or(kind == Cell.INT, kind == Cell.ONE)):
                out.append((y, SV(nf("cell.number", self.r)) if c else Several(self.r)))
        return out


class Several:
    """numbers listed in a cell"""

    def __init__(self, r):
        self.r = r

    def subst(self, m):
        return Several(z3.substitute(self.r, *m))

    def vkey(self, E):
        return ("Several", self.r.get_id())

    def py_type(self, E, st):
        return Prim("tuple")

    def py_tree(self, E, st):
        k = z3.Int(uid("k"))
        return [Loop([k], bf("cell.has", self.r, k), [Item(SV(k))])]

    def py_contains(self, E, a, st):
        return bf("cell.has", self.r, E.to_sort(a, I))


def z22(repo):
    """switches of entering and leaving"""
    w = D(repo)
    E = w.E
    t, s, r, k = z3.Int("t"), z3.Const("s", Atom), z3.Int("r"), z3.Int("k")
    x, y = z3.Const("x", Atom), z3.Const("y", Atom)
    net = frame(E, {"previous_block": "atom", "next_block": "atom", "switches": ("opt", ("fun", lambda E, name, args: Cell(args[-1])))}, "net", [])
    prv, nxt = lambda r: af("net.previous_block", r), lambda r: af("net.next_block", r)
    joins = lambda r, x, y: z3.And(0 <= r, r < net.n, z3.Or(z3.And(prv(r) == x, nxt(r) == y), z3.And(prv(r) == y, nxt(r) == x)))
    link = lambda x, y: nf("link", x, y)
    # a pair of blocks has at most one row, no row joins a block to itself
    E.axioms += [z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < net.n), z3.And(prv(r) != nxt(r), link(prv(r), nxt(r)) == r, link(nxt(r), prv(r)) == r)), patterns=[prv(r)]),
                 z3.ForAll([r], z3.And(nf("cell.kind", r) >= 0, nf("cell.kind", r) < 4))]
    q = w.at(t, s)
    pre = [w.T.has(t), w.onp(t, s)]
    dicts = {"paths": OrdDict(E, "T", I, w.stations), "station_blocks": OrdDict(E, "T", I, lambda t: CList([SV(w.path(t, w.at(t, s)))])),
             "blocks_lists": OrdDict(E, "T", I, w.blocks)}
    for fname, a, b, goes in (("z_in", q - 1, q, w.k(t, s) > 0), ("z_out", q, q + 1, w.k(t, s) + 1 < w.n(t))):
        a, b = w.path(t, a), w.path(t, b)
        E.rules = [groups.only_at(lambda E, st, lp: q if isinstance(lp.n, z3.ExprRef) and lp.n.eq(w.len(t)) else None),
                   groups.same_element(lambda E, st, nodes: SV(link(a, b)) if any(isinstance(n, Guard) for l in nodes for n in l.nodes) else None)]
        outs = w.run(SW, fname, dict(dicts, data_path_check=net, j=SV(t), s=SV(s)), hyps=pre)
        E.rules = []
        for n, (st, v) in enumerate(outs):
            want = z3.And(goes, joins(link(a, b), a, b), Cell.has(link(a, b), k))
            w.oblige(tag(fname, n, outs) + "/switches of the step", st, E.b(E.contains(SV(k), v, st)) == want)
        w.never(fname, extra=hint(w.pos(t, w.n(t) - 1)))
    return w


NOSWITCH = ["KO(IC)", "KO(KS)"]


def c22(repo):
    w = D(repo)
    E = w.E
    E.merge_kinds += (ListObj,)
    s, t, u = z3.Const("s", Atom), z3.Int("t"), z3.Int("u")
    net = Opq("network")
    for x in ("in", "out"):
        E.axioms.append(z3.ForAll([t, u, s], meet(x, t, x, u, s) == meet(x, u, x, t, s), patterns=[meet(x, t, x, u, s)]))

    def movement(x):
        def apply(E, st, b):
            if b["data_path_check"] is not net:
                return None
            t, s = E.to_sort(b["j"], I), E.to_sort(b["s"], Atom)
            goals = [(st, z3.And(w.T.has(t), w.onp(t, s)))]
            # a lookup that fails is passed on as an exception
            for d, want in ((b["paths"], w.stations(t)), (b["blocks_lists"], w.blocks(t))):
                goals += [(y, E.b(E.eq(v, want, y))) for y, v in E.getitem(d, b["j"], st)]
            goals += [(z, E.b(E.eq(v, SV(w.path(t, w.at(t, s))), z))) for y, l in E.getitem(b["station_blocks"], b["j"], st) for z, v in E.getitem(l, 0, y)]
            if not all(E.must(y, c) for y, c in goals):
                raise Unsupported("arguments of the switch sets")
            return one(st, Sw(x, t, s))
        return {"params": ["data_path_check", "j", "s", "paths", "station_blocks", "blocks_lists"], "apply": apply}
    cs = {"z_in": movement("in"), "z_out": movement("out")}
    old = w.contract
    w.contract = lambda name: cs[name] if name in cs else old(name)
    ko, stm = E.lit("KO"), E.lit("KO(STM)")

    def counted(x, t, s):
        """the movement is not already counted at the neighbour"""
        i = w.k(t, s)
        return z3.Not(z3.And(s == stm, i > 0, w.sta(t, i - 1) == ko)) if x == "in" else \
            z3.Not(z3.And(s == stm, i + 1 < w.n(t), w.sta(t, i + 1) == ko))
    for what, given_, has, idx, at, hyps in chosen(w):
        outs = w.run(JT, "jswitch", {"train_dict": w.T, "important_stations": w.IS, "data_switch": net, "imp_stations": given_},
                     ["subsequent_station", "get_trains_at_station", "get_Paths", "blocks_list_4station", "z_in", "z_out"], hyps)
        name = "jswitch/" + what
        for n, (st, v) in enumerate(outs):
            g = tag(name, n, outs)
            v = E.view(v, st)
            if not isinstance(v, MapV):
                raise Unsupported("result of jswitch")
            if len(list(leaves(v.nodes))) > 1:
                raise Unsupported("several entries for a station")
            nodes = entries(E, st, v.nodes)

            def parts(leaf):
                s, d = leaf
                d = E.view(d, st)
                if not isinstance(d, FinDict) or len(d.entries) != 2:
                    raise Unsupported("pair of trains")
                (a, x), (b, y) = d.entries
                a, b = E.to_sort(a, I), E.to_sort(b, I)
                x, y = [z3.IntVal({"in": 0, "out": 1}.get(z, 2)) for z in (x, y)]
                first = w.T.idx(a) < w.T.idx(b)
                return [E.to_sort(s, Atom), z3.If(first, a, b), z3.If(first, b, a), z3.If(first, x, y), z3.If(first, y, x)]

            def listed(s, a, b, x, y):
                ways = ("in", "out")
                return z3.And(has(s), z3.And([s != E.lit(z) for z in NOSWITCH]), w.T.has(a), w.T.has(b), w.T.idx(a) < w.T.idx(b), w.onp(a, s), w.onp(b, s),
                              z3.Or([z3.And(x == p, y == q, meet(ways[p], a, ways[q], b, s), counted(ways[p], a, s), counted(ways[q], b, s)) for p in (0, 1) for q in (0, 1)]))

            def look(s, a, b, x, y):
                i = z3.Int(uid("i"))
                _, pos, rank = E.filtered(st, w.T.n, i, w.onp(w.T.at(i), s))
                return hint(at(idx(s)), w.T.at(w.T.idx(a)), w.T.at(w.T.idx(b)), pos(rank(w.T.idx(a))), pos(rank(w.T.idx(b))))
            found(w, g, st, nodes, [Atom, I, I, I, I], listed, lambda v, p: z3.And([a == b for a, b in zip(parts(v), p)]), parts, mk=look)
        w.never(name)
    return w


# C21 ------------------------------------------------------------------------------------

NOTRACK = ["KO(KS)", "KO(IC)"]
NOBLOCK = ['"KO", "ST-M", %d, "(N/A)"' % n for n in (1114, 1113, 1118)]


def station_of_list(w):
    """the station whose calling trains a loop goes through"""
    def where(E, st, t):
        i, dom, g, v = t
        for a in groups.subterms(g, Atom, i):
            if g.eq(w.onp(w.T.at(i), a)):
                return [a]
        return None
    return where


def c21(repo):
    w = D(repo)
    E = w.E
    s = z3.Const("s", Atom)
    block = lambda p, i: w.path(w.T.at(i), w.at(w.T.at(i), p[0]))
    shown = [E.lit(b) for b in NOBLOCK]
    inc = lambda p, i: z3.And(w.onp(w.T.at(i), p[0]), *[block(p, i) != b for b in shown])
    G = groups.Keyed(w, "track", [Atom], inc, block, Atom)

    def key(E, v, st):
        v = E.view(v, st)
        return E.to_sort(v.items[0], Atom) if isinstance(v, CList) and len(v.items) == 1 else None
    here = lambda a: z3.And(*[a != E.lit(x) for x in NOTRACK])
    for what, given_, has, idx, at, hyps in chosen(w):
        E.rules = [groups.keyed_lists(w, G, key, "grouping/" + what, station_of_list(w))]
        outs = w.run(JT, "jtrack", {"trains_dict": w.T, "important_stations": w.IS, "imp_stations": given_},
                     ["blocks_list_4station", "get_trains_at_station"], hyps)
        E.rules = []
        name = "jtrack/" + what
        for n, (st, v) in enumerate(outs):
            g = tag(name, n, outs)
            w.oblige(g + "/exactly the stations with tracks", st, E.b(E.contains(SV(s), v, st)) == z3.And(has(s), here(s)))
            E.exc.append([])
            for m, (x, y) in enumerate(E.getitem(v, SV(s), st)):
                groups.grouped(w, "%s/trains of a track/%d" % (g, m), x, E.tree(y, x), lambda i: inc([s], i), lambda i, k: block([s], i) == block([s], k),
                               [has(s), here(s)], lambda i, k: G.hints([s], i) + G.hints([s], k) + [G.count([s], w.T.n) >= 0])
            E.exc.pop()
        w.never(name)
    return w


# C19 ------------------------------------------------------------------------------------

def p19(w):
    """common blocks of two trains that use the same or disjoint blocks"""
    E = w.E
    t, u, s, s2 = z3.Int("t"), z3.Int("u"), z3.Const("s", Atom), z3.Const("s2", Atom)
    i, k = z3.Int("i"), z3.Int("k")
    f, g = w.between(t, s, s2), w.between(u, s, s2)
    apart = z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < f.n, 0 <= k, k < g.n), f.at(i).e != g.at(k).e))
    x, y = [SeqV(z3.Int(n + ".len"), i, SV(af(n + ".at", i))) for n in ("l1", "l2")]
    disjoint = z3.ForAll([i, k], z3.Implies(z3.And(0 <= i, i < x.n, 0 <= k, k < y.n), af("l1.at", i) != af("l2.at", k)),
                         patterns=[z3.MultiPattern(af("l1.at", i), af("l2.at", k))])
    outs = w.run(UT, "check_common_specific_elements_lists", {"list1": x, "list2": y}, [], [disjoint, x.n >= 0, y.n >= 0])
    for n, (st, v) in enumerate(outs):
        w.oblige(tag("check_common_specific_elements_lists", n, outs) + "/nothing in common", st, E.b(E.eq(v, CList([]), st)))
    w.never("check_common_specific_elements_lists")
    nothing = {"params": ["list1", "list2"], "apply": lambda E, st, b: one(st, CList([])) if all(isinstance(x, SeqV) for x in b.values()) else None}
    usual = w.contract
    w.contract = lambda c: nothing if c == "check_common_specific_elements_lists" else usual(c)
    same = w.same(t, u, s, s2)
    outs = w.run(UT, "common_path", {"timetable1": w.tt(t), "timetable2": w.tt(u), "station1": SV(s), "station2": SV(s2)},
                 ["get_blocks_b2win_station4train", "check_common_specific_elements_lists"], [w.moves(t, s, s2), w.moves(u, s, s2), z3.Or(same, apart), f.n > 0])
    for n, (st, v) in enumerate(outs):
        name = tag("common_path", n, outs)
        listing(w, name, st, v, f.n, lambda i: f.at(i).e, [same], " of equal paths")
        w.oblige(name + "/nothing otherwise", st, E.b(E.eq(v, CList([]), st)), [z3.Not(same)])
    w.never("common_path")
    w.contract = usual


class NoPath(SeqV):
    """common blocks of two trains on different ways: not the way of the first one"""
    __slots__ = ("way",)

    def __init__(self, n, ivar, body, way):
        SeqV.__init__(self, n, ivar, body)
        self.way = way

    def py_eq(self, E, other, st):
        k = z3.Int("k")
        if isinstance(other, SeqV) and isinstance(other.at(k), SV) and z3.is_true(z3.simplify(z3.And(other.n == self.way.n, other.at(k).e == self.way.at(k).e))):
            return False
        raise Unsupported("comparison of common blocks")

    def vkey(self, E):
        raise Unsupported("key of common blocks")

    def subst(self, m):
        return NoPath(z3.substitute(self.n, *m), self.ivar, subst(self.body, m), subst(self.way, m))


def p19m(w):
    """common blocks of two trains that use the same blocks or have each a block of its own"""
    E = w.E
    t, u, s, s2 = z3.Int("t"), z3.Int("u"), z3.Const("s", Atom), z3.Const("s2", Atom)
    i, k, o = z3.Int("i"), z3.Int("k"), z3.Int("own")
    truth = {"params": ["l1", "l2"], "apply": lambda E, st, b: one(st, SV(E.fresh(st, "sublist", B)))}
    x, y = [SeqV(z3.Int(n + ".len"), i, SV(af(n + ".at", i))) for n in ("l1", "l2")]
    usual = w.contract

    def text(E, st, self_, args, kw):
        """an arbitrary string"""
        if not all(isinstance(v, SV) and v.e.sort() == Atom for bs, g, v in groups.E_paths(E.tree(args[0], st))):
            raise Unsupported("join")
        return one(st, SV(E.fresh(st, "text", Atom)))
    E.prims[".join"] = text
    for n, (st, v) in enumerate(w.run(UT, "sublist", {"l1": x, "l2": y}, [], [x.n >= 0, y.n >= 0])):
        w.oblige("sublist/a truth value/%d" % n, st, z3.BoolVal(isinstance(v, bool) or isinstance(v, SV) and v.e.sort() == B))
    w.never("sublist")
    del E.prims[".join"]
    w.contract = lambda c: truth if c == "sublist" else usual(c)
    inside = lambda E, st, v: E.b(E.contains(v, y, st))
    E.while_rules = [groups.only_elements(w, "check_common_specific_elements_lists/loop", inside)]
    outs = w.run(UT, "check_common_specific_elements_lists", {"list1": x, "list2": y}, ["sublist"], [x.n >= 0, y.n >= 0])
    E.while_rules = []
    for n, (st, v) in enumerate(outs):
        for bs, g, part in groups.E_paths(E.tree(v, st)):
            for cs, h, e in groups.E_paths(E.tree(part, st)):
                w.oblige(tag("check_common_specific_elements_lists", n, outs) + "/only common elements", st, inside(E, st, e), extra=[g, h])
    w.never("check_common_specific_elements_lists")

    def parts(E, st, b):
        if not isinstance(b["list2"], SeqV) or st.binders:
            return None
        m, p, q = z3.Int(uid("parts")), z3.Int(uid("p")), z3.Int(uid("q"))
        ln, at = z3.Function(uid("part.len"), I, I), z3.Function(uid("part.at"), I, I, Atom)
        st = st.fork()
        dom = z3.And(0 <= p, p < m, 0 <= q, q < ln(p))
        st.facts += (m >= 0, z3.ForAll([p, q], z3.Implies(dom, E.b(E.contains(SV(at(p, q)), b["list2"], st)))))
        return one(st, SeqV(m, p, SeqV(ln(p), q, SV(at(p, q)))))
    w.contract = lambda c: {"params": ["list1", "list2"], "apply": parts} if c == "check_common_specific_elements_lists" else usual(c)
    f, g = w.between(t, s, s2), w.between(u, s, s2)
    same = w.same(t, u, s, s2)
    own = z3.And(0 <= o, o < f.n, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < g.n), g.at(k).e != f.at(o).e)))
    outs = w.run(UT, "common_path", {"timetable1": w.tt(t), "timetable2": w.tt(u), "station1": SV(s), "station2": SV(s2)},
                 ["get_blocks_b2win_station4train", "check_common_specific_elements_lists"], [w.moves(t, s, s2), w.moves(u, s, s2), z3.Or(same, own)])
    for n, (st, v) in enumerate(outs):
        name = tag("common_path", n, outs)
        if isinstance(v, SeqV):
            listing(w, name, st, v, f.n, lambda i: f.at(i).e, [same], " of equal paths")
        else:
            w.oblige(name + "/only for different paths", st, z3.Not(same))
        for bs, h, e in groups.E_paths(E.tree(v, st)):
            w.oblige(name + "/only blocks of the second train", st, E.b(E.contains(e, g, st)), extra=[h])
    r = SeqV(z3.Int("r.len"), i, SV(af("r.at", i)))
    w.oblige("lemma/only blocks of the second train are not the path of the first", State(), z3.Not(z3.And(r.n == f.n, z3.ForAll([i], z3.Implies(
        z3.And(0 <= i, i < f.n), r.at(i).e == f.at(i).e)))), [own, z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < r.n), E.b(E.contains(r.at(i), g, State()))))])
    w.never("common_path")
    w.contract = usual

    def common(E, st, b):
        if not isinstance(b["timetable1"], TT) or not isinstance(b["timetable2"], TT) or not all(isinstance(b[k], (SV, str)) for k in ("station1", "station2")):
            return None
        t, u = b["timetable1"].t, b["timetable2"].t
        s1, s2 = E.to_sort(b["station1"], Atom), E.to_sort(b["station2"], Atom)
        if not E.must(st, z3.And(w.moves(t, s1, s2), w.moves(u, s1, s2))):
            return None
        way, out = w.between(t, s1, s2), []
        for x, y in E.branch(st, w.same(t, u, s1, s2)):
            i = z3.Int(uid("i"))
            out.append((x, way if y else NoPath(E.fresh(x, "common.n", I), i, SV(z3.Function(uid("common"), I, Atom)(i)), way)))
        return out
    w.contract = lambda c: {"params": ["timetable1", "timetable2", "station1", "station2"], "apply": common} if c == "common_path" else usual(c)


def u19(repo):
    w = D(repo)
    p19(w)
    return w


def c19(repo):
    w = D(repo)
    E = w.E
    p19m(w)
    s, s2 = z3.Const("s", Atom), z3.Const("s2", Atom)
    inc = lambda p, i: w.moves(w.T.at(i), p[0], p[1])
    same = lambda p, i, k: w.same(w.T.at(i), w.T.at(k), p[0], p[1])
    G = groups.Grouping(w, "line", [Atom, Atom], inc, same)
    nxt = lambda s, i: w.sta(w.T.at(i), w.k(w.T.at(i), s) + 1)
    for what, given_, has, idx, at, hyps in chosen(w):
        E.rules = [groups.lines_dict(w, G, "grouping/" + what, nxt, lambda a, i: G.hints([a, nxt(a, i)], i))]
        outs = w.run(JT, "jd", {"time_tables_dict": w.T, "important_stations": w.IS, "imp_stations": given_},
                     ["subsequent_station", "get_blocks_b2win_station4train", "get_trains_at_station", "common_path"], hyps)
        E.rules = []
        name = "jd/" + what
        for n, (st, v) in enumerate(outs):
            g = tag(name, n, outs)
            w.oblige(g + "/exactly the stations", st, E.b(E.contains(SV(s), v, st)) == has(s))
            E.exc.append([])
            i = z3.Int("i")
            some = z3.Exists([i], z3.And(0 <= i, i < w.T.n, inc([s, s2], i)))
            for m, (x, y) in enumerate(E.getitem(v, SV(s), st)):
                there, f = E.b(E.contains(SV(s2), y, x)), G.first([s, s2], z3.IntVal(0))
                w.oblige("%s/only next stations/%d" % (g, m), x, some, [has(s), there, z3.Implies(z3.And(0 <= f, f < w.T.n, inc([s, s2], f)), some)])
                w.oblige("%s/all next stations/%d" % (g, m), x, there, [has(s), 0 <= i, i < w.T.n, inc([s, s2], i), G.count([s, s2], w.T.n) >= 0] + G.hints([s, s2], i))
                for l, (z, u) in enumerate(E.getitem(y, SV(s2), x)):
                    groups.grouped(w, "%s/trains of a line/%d/%d" % (g, m, l), z, E.tree(u, z), lambda i: inc([s, s2], i), lambda i, k: same([s, s2], i, k),
                                   [has(s)], lambda i, k: G.hints([s, s2], i) + G.hints([s, s2], k) + [G.count([s, s2], w.T.n) >= 0])
            E.exc.pop()
        w.never(name)
    return w


# C18 ------------------------------------------------------------------------------------

SHORT = [("KO(STM)", "KZ"), ("CB", "CM"), ("KTC-CB", "via Gt")]


def c18(repo):
    w = D(repo)
    E = w.E
    E.interned = True
    t, u, s, s2, r = z3.Int("t"), z3.Int("u"), z3.Const("s", Atom), z3.Const("s2", Atom), z3.Int("r")
    x = z3.Int("x")
    inc = lambda p, i: w.moves(w.T.at(i), p[0], p[1])
    G = groups.Grouping(w, "line", [Atom, Atom], inc, lambda p, i, k: w.same(w.T.at(i), w.T.at(k), p[0], p[1]))

    def lines(E, st, b):
        if b["time_tables_dict"] is not w.T or b["important_stations"] is not w.IS or b.get("imp_stations") is not None:
            return None

        def of(a):
            k = z3.Const(uid("next"), Atom)
            return MapV([Loop([k], G.count([a, k], w.T.n) > 0, [Item(("put", SV(k), CompV([G.classes([a, k], w.T.n)])))])])
        return one(st, OrdDict(E, "S", Atom, of))
    usual = w.contract
    w.contract = lambda c: {"params": ["time_tables_dict", "important_stations", "imp_stations"], "apply": lines} if c == "jd" else usual(c)
    # passing times over the common blocks, summed from the first block on
    pt = lambda a, j: w.pt(a, w.row(a, w.seg(t, s, j)))
    n = w.between(t, s, s2).n
    k = z3.If(z3.Or([z3.Or(z3.And(s == E.lit(a), s2 == E.lit(b)), z3.And(s == E.lit(b), s2 == E.lit(a))) for a, b in SHORT]), z3.IntVal(1), z3.IntVal(2))
    S1, S2, Dif = [lambda m, f=f: E.named_sum(m, x, f(x)) for f in (lambda j: pt(t, j), lambda j: pt(u, j), lambda j: pt(t, j) - pt(u, j))]
    upto = lambda j: z3.If(j + k < n, j + k, n)
    free = lambda j: S1(upto(j)) - S2(j)  # start difference needed for block j
    need = lambda j: z3.If(j < n, pt(t, j), 0) + z3.If(z3.And(k > 1, j + 1 < n), pt(t, j + 1), 0) + Dif(j)
    least = E.named_extremum(n, x, free(x), True)
    steps = lambda j: [E.sum_step(f(x), j) for f in (S1, S2, Dif)]
    w.oblige("lemma/sum of differences/start", State(), Dif(z3.IntVal(0)) == S1(z3.IntVal(0)) - S2(z3.IntVal(0)), steps(x))
    w.oblige("lemma/sum of differences/step", State(), Dif(x + 1) == S1(x + 1) - S2(x + 1), steps(x) + [x >= 0, Dif(x) == S1(x) - S2(x)])
    w.oblige("lemma/time until the second block ahead is left", State(), need(x) == free(x), steps(x) + steps(x + 1) + [0 <= x, x < n, Dif(x) == S1(x) - S2(x)])
    law = z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < n), need(x) == free(x)), patterns=[Dif(x), S2(x)])
    outs = w.run(JT, "get_taus_headway", {"train_dict": w.T, "important_stations": w.IS, "r": SV(r)},
                 ["jd", "common_path", "get_passing_time_block"])
    has = lambda a, b, c, d: z3.And(w.IS.has(c), w.T.has(a), w.T.has(b), a != b, w.moves(a, c, d), w.moves(b, c, d))
    same = w.same(t, u, s, s2)
    res = lambda e: z3.If(r == 1, real(RND(e)), e)

    def head(y, z):
        return isnum(E, z3.If(same, res(least), z3.RealVal(0)))(y, z)
    for m, (st, v) in enumerate(outs):
        name = tag("get_taus_headway", m, outs)
        hs = [G.count([s, s2], w.T.n) >= 0]
        for a in (t, u):
            hs += G.hints([s, s2], w.T.idx(a))
        mapping(w, name, st, v, "{}_{}_{}_{}", (t, u, s, s2), has, head, hs + [law, Dif(z3.IntVal(0)) == 0], witness=True,
                what="smallest start difference")
    w.never("get_taus_headway")
    return w
