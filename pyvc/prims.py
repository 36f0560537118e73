"""Meaning of builtins and library functions used by the repository.

Every entry here is part of the trusted base: it states what the engine takes
the builtin / numpy / itertools / pulp function to do."""
import ast
import math
import z3
from .values import *

PRIMS = {}


def prim(*names):
    def d(f):
        for n in names:
            PRIMS[n] = f
        return f
    return d


def one(st, v):
    return [(st, v)]


def real(e):
    return z3.ToReal(e) if e.sort() == z3.IntSort() else e


# builtins --------------------------------------------------------------------
@prim("len", "np.size")
def p_len(E, st, _, args, kw):
    v = E.view(args[0], st)
    if hasattr(v, "py_len"):
        return one(st, v.py_len(E, st))
    if isinstance(v, (tuple, str)):
        return one(st, len(v))
    if isinstance(v, CList):
        return one(st, len(v.items))
    if isinstance(v, SeqV):
        return one(st, SV(v.n) if z3.is_expr(v.n) else v.n)
    if isinstance(v, FinDict):
        return one(st, len(v.entries))
    if isinstance(v, Prim) and v.name == "keysview":
        return p_len(E, st, None, [v.self_], {})
    if isinstance(v, SV) and v.e.sort() == z3.StringSort():
        return one(st, SV(z3.Length(v.e)))
    if isinstance(v, CompV) and v.kind == "list":
        st = st.fork()
        try:
            s = E.seq(v, st)
            return one(st, len(s.items) if isinstance(s, CList) else SV(s.n))
        except Unsupported:
            pass
    if isinstance(v, (CompV, MapV, DictV)):
        # only emptiness is known
        n = E.fresh(st, "size", z3.IntSort())
        st = st.fork()
        ne = disj(E.tree(v, st), lambda x: z3.BoolVal(True))
        st.facts += (n >= 0, (n > 0) == ne)
        if isinstance(v, CompV) and v.kind == "list":
            st.facts += (real(n) == E.tree_total(v.nodes, lambda x: z3.RealVal(1), st),)
        E.approx = True
        return one(st, SV(n))
    raise Unsupported("len of %s" % type(v).__name__)


class RangeV:
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi

    def subst(self, m):
        return RangeV(subst(self.lo, m), subst(self.hi, m))

    def n(self, E):
        lo, hi = E.num(self.lo), E.num(self.hi)
        return z3.simplify(z3.If(hi > lo, hi - lo, z3.IntVal(0)))

    def py_tree(self, E, st):
        if isinstance(self.lo, int) and isinstance(self.hi, int):
            return [Item(k) for k in range(self.lo, self.hi)]
        lo = E.num(self.lo)
        if isinstance(self.lo, int) and self.lo == 0:
            hi = E.num(self.hi)
            n = hi if E.must(st, hi >= 0) else self.n(E)
            return [iloop(n, lambda i: [Item(SV(i))])]
        return [iloop(self.n(E), lambda i: [Item(SV(z3.simplify(i + lo)))])]

    def py_seq(self, E, st):
        iv = z3.Int(uid("i"))
        return SeqV(self.n(E), iv, SV(iv + E.num(self.lo)))

    def py_len(self, E, st):
        return SV(self.n(E))

    def py_contains(self, E, a, st):
        x = E.num(a)
        return z3.And(E.num(self.lo) <= x, x < E.num(self.hi))


@prim("range", "np.arange")
def p_range(E, st, _, args, kw):
    if len(args) == 1:
        return one(st, RangeV(0, args[0]))
    if len(args) == 2 or len(args) == 3 and args[2] == 1:
        return one(st, RangeV(args[0], args[1]))
    raise Unsupported("range step")


@prim("enumerate")
def p_enumerate(E, st, _, args, kw):
    start = kw.get("start", args[1] if len(args) > 1 else 0)
    st = st.fork()
    s = E.seq(args[0], st)
    if isinstance(s, CList):
        return one(st, CList([(i + start, x) for i, x in enumerate(s.items)]))
    iv = z3.Int(uid("i"))
    return one(st, SeqV(s.n, iv, (SV(z3.simplify(iv + E.num(start))), s.at(iv))))


@prim("zip")
def p_zip(E, st, _, args, kw):
    st = st.fork()
    ss = [E.seq(a, st) for a in args]
    if all(isinstance(s, CList) for s in ss):
        return one(st, CList([tuple(t) for t in zip(*[s.items for s in ss])]))
    if any(isinstance(s, CList) for s in ss):
        raise Unsupported("zip of mixed lists")
    n = ss[0].n
    for s in ss[1:]:
        n = z3.If(s.n < n, s.n, n)
    iv = z3.Int(uid("i"))
    return one(st, SeqV(n, iv, tuple(s.at(iv) for s in ss)))


@prim("list", "tuple", "iter", "np.array", "reversed_none")
def p_list(E, st, _, args, kw):
    if not args:
        st = st.fork()
        return one(st, E.alloc(st, ListObj()))
    v = E.view(args[0], st)
    if hasattr(v, "array") and hasattr(v.array(), "py_contains"):
        v = v.array()
    if isinstance(v, SeqV) and hasattr(v, "py_contains"):
        return one(st, v)  # a list that is not modified afterwards
    if isinstance(v, SeqV):
        st = st.fork()
        return one(st, E.alloc(st, ListObj([iloop(v.n, lambda i: [Item(v.at(i))])])))
    st = st.fork()
    return one(st, E.alloc(st, ListObj(E.tree(v, st))))


@prim("tuple")
def p_tuple(E, st, _, args, kw):
    v = E.view(args[0], st)
    if isinstance(v, CList):
        return one(st, tuple(v.items))
    if isinstance(v, tuple):
        return one(st, v)
    return p_list(E, st, _, args, kw)


@prim("set", "frozenset")
def p_set(E, st, _, args, kw):
    st = st.fork()
    return one(st, E.alloc(st, SetObj(E.tree(args[0], st) if args else [])))


@prim("dict")
def p_dict(E, st, _, args, kw):
    st = st.fork()
    nodes = []
    if args:
        v = E.view(args[0], st)
        if hasattr(v, "py_dict"):
            return one(st, v.py_dict(E, st))
        if isinstance(v, (FinDict, MapV, DictV)):
            nodes = put_nodes(E, v)
        else:
            def conv(n):
                if isinstance(n, Item):
                    x = E.view(n.v, st)
                    x = x if isinstance(x, tuple) else tuple(x.items)
                    return Item(("put", x[0], x[1]))
                if isinstance(n, Guard):
                    return Guard(n.g, [conv(x) for x in n.nodes])
                return Loop(n.binders, n.dom, [conv(x) for x in n.nodes], n.n)
            nodes = [conv(n) for n in E.tree(v, st)]
    nodes = list(nodes) + [Item(("put", k, v)) for k, v in kw.items()]
    return one(st, E.alloc(st, DictObj(nodes)))


def put_nodes(E, v):
    if isinstance(v, FinDict):
        return [Item(("put", k, x)) for k, x in v.entries]
    if isinstance(v, MapV):
        return list(v.nodes)
    if isinstance(v, RecV):
        return [Item(("put", k, x)) if p is True else Guard(p, [Item(("put", k, x))]) for k, (p, x) in v.fields.items()]
    if isinstance(v, DictV):
        nb = [z3.Const(uid("k"), k.sort()) for k in v.kvars]
        return [Loop(nb, v.has(nb), [Item(("put", v.key(nb), v.get(nb)))])]
    raise Unsupported("dict contents of %s" % type(v).__name__)


@prim("collections.defaultdict")
def p_defaultdict(E, st, _, args, kw):
    st = st.fork()
    if not args or not (isinstance(args[0], Prim) and args[0].name == "list"):
        raise Unsupported("defaultdict")
    r = E.alloc(st, DictObj())
    E._cache.setdefault("ddlist", set()).add(r.id)
    return one(st, r)


@prim("isinstance")
def p_isinstance(E, st, _, args, kw):
    v, t = args
    if isinstance(v, OptV):
        # a missing cell is the float NaN
        out = []
        for s, b in E.branch(st, v.null):
            out += one(s, "float" in [x.name for x in (t if isinstance(t, tuple) else (t,))]) if b else p_isinstance(E, s, _, [v.v, t], kw)
        return out
    return one(st, is_type(E, st, v, t))


def is_type(E, st, v, t):
    if isinstance(t, tuple):
        return any(is_type(E, st, v, x) for x in t)
    if not isinstance(t, Prim):
        raise Unsupported("isinstance")
    if isinstance(v, SV):
        so = v.e.sort()
        names = {z3.IntSort(): {"int"}, z3.RealSort(): {"float"}, z3.BoolSort(): {"bool", "int"}, z3.StringSort(): {"str"},
                 Atom: {"str"}}[so]
        return t.name in names
    if isinstance(v, (bool, int, float, str)):
        return isinstance(v, {"int": int, "float": float, "str": str, "bool": bool, "list": list, "dict": dict}.get(t.name, list))
    w = E.view(v, st)
    if isinstance(w, (CList, SeqV, CompV)):
        return t.name == ("set" if getattr(w, "kind", "") == "set" else "list")
    if isinstance(w, (FinDict, MapV, DictV, RecV)):
        return t.name == "dict"
    raise Unsupported("isinstance of %s" % type(v).__name__)


@prim("print")
def p_print(E, st, _, args, kw):
    return one(st, None)


@prim("str")
def p_str(E, st, _, args, kw):
    v = args[0]
    if isinstance(v, str):
        return one(st, v)
    if isinstance(v, (int, float)):
        return one(st, str(v))
    if isinstance(v, SV):
        if v.e.sort() == z3.StringSort():
            return one(st, v)
        if v.e.sort() == Atom:
            return one(st, v)
        return one(st, FStr([v]))
    if isinstance(v, FStr):
        return one(st, v)
    if isinstance(v, OptV):
        out = []
        for s, b in E.branch(st, v.null):
            out += [(s, "nan")] if b else p_str(E, s, _, [v.v], kw)
        return out
    if hasattr(v, "py_str"):
        return one(st, v.py_str(E))
    raise Unsupported("str")


@prim("int")
def p_int(E, st, _, args, kw):
    v = args[0]
    if isinstance(v, (int, float)):
        return one(st, int(v))
    if isinstance(v, FStr) and len(v.parts) == 1 and is_int(v.parts[0]):
        return one(st, v.parts[0])
    if hasattr(v, "py_int"):
        return v.py_int(E, st)
    if isinstance(v, OptV) and v.v is not None:
        return [z for s in E.require(st, z3.Not(v.null), "ValueError") for z in p_int(E, s, _, [v.v], kw)]
    e = E.num(v)
    if e.sort() == z3.IntSort():
        return one(st, SV(e))
    return one(st, SV(z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))))


@prim("float")
def p_float(E, st, _, args, kw):
    v = args[0]
    if isinstance(v, (int, float)):
        return one(st, float(v))
    if isinstance(v, str):
        return one(st, float(v))
    if isinstance(v, OptV):
        return one(st, v)
    return one(st, SV(real(E.num(v))))


@prim("bool")
def p_bool(E, st, _, args, kw):
    return one(st, E.wrap(E.truth(args[0], st)))


@prim("abs", "np.abs")
def p_abs(E, st, _, args, kw):
    v = args[0]
    if isinstance(v, (int, float)):
        return one(st, abs(v))
    e = E.num(v)
    return one(st, SV(z3.If(e >= 0, e, -e)))


RND = z3.Function("round", z3.RealSort(), z3.IntSort())


@prim("round", "np.round")
def p_round(E, st, _, args, kw):
    v = args[0]
    if isinstance(v, (int, float)):
        return one(st, round(v))
    if isinstance(v, OptV) and v.v is not None:
        return [z for s in E.require(st, z3.Not(v.null), "ValueError") for z in p_round(E, s, _, [v.v], kw)]
    e = E.num(v)
    if e.sort() == z3.IntSort():
        return one(st, SV(e))
    x = z3.Real(uid("x"))
    E.axiom_once("round", z3.And(
        z3.ForAll([x], z3.And(z3.ToReal(RND(x)) - x <= z3.RealVal("1/2"), x - z3.ToReal(RND(x)) <= z3.RealVal("1/2")), patterns=[RND(x)])))
    return one(st, SV(RND(e)))


def as_items(E, st, args):
    if len(args) == 1:
        return E.tree(args[0], st)
    return [Item(a) for a in args]


def extremum(E, st, nodes, up, default=None):
    """max / min of the numbers emitted by nodes"""
    if all(isinstance(n, Item) for n in nodes):
        vals = [n.v for n in nodes]
        if not vals:
            if default is not None:
                return one(st, default[0])
            E.throw(st, "ValueError")
            return []
        r = vals[0]
        for v in vals[1:]:
            r = pick(E, r, v, up)
        return one(st, r)
    if E.interned and len(nodes) == 1 and isinstance(nodes[0], Loop) and nodes[0].n is not None and len(nodes[0].binders) == 1 \
            and len(nodes[0].nodes) == 1 and isinstance(nodes[0].nodes[0], Item) and default is None:
        n = nodes[0].n
        return [(s, SV(E.named_extremum(n, nodes[0].binders[0], real(E.num(nodes[0].nodes[0].v)), up))) for s in E.require(st, n > 0, "ValueError")]
    ne = disj(nodes, lambda x: z3.BoolVal(True))
    out = []
    for s, b in E.branch(st, ne):
        if not b:
            if default is not None:
                out.append((s, default[0]))
            else:
                E.throw(s, "ValueError")
            continue
        s = s.fork()
        m = E.fresh(s, "max" if up else "min", z3.RealSort())
        s.facts += (z3.Implies(ne, z3.And(conj(nodes, lambda x: real(E.num(x)) <= m if up else real(E.num(x)) >= m),
                                          disj(nodes, lambda x: real(E.num(x)) == m))),)
        out.append((s, SV(m)))
    return out


def pick(E, a, b, up):
    inf = lambda x: isinstance(x, float) and math.isinf(x)
    if inf(a) or inf(b):
        x, y = (a, b) if inf(a) else (b, a)
        if inf(y):
            return max(x, y) if up else min(x, y)
        return x if (x > 0) == up else y
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return max(a, b) if up else min(a, b)
    x, y = E.num(a), E.num(b)
    if x.sort() != y.sort():
        x, y = real(x), real(y)
    return SV(z3.If(x >= y, x, y) if up else z3.If(x <= y, x, y))


@prim("max", "np.max", "np.amax", "np.maximum", "np.nanmax")
def p_max(E, st, _, args, kw):
    if "key" in kw:
        raise Unsupported("max with key")
    return extremum(E, st, as_items(E, st, args), True, (kw["default"],) if "default" in kw else None)


@prim("min", "np.min", "np.amin", "np.minimum")
def p_min(E, st, _, args, kw):
    if "key" in kw:
        return min_key(E, st, args, kw)
    return extremum(E, st, as_items(E, st, args), False, (kw["default"],) if "default" in kw else None)


def min_key(E, st, args, kw):
    """first element with the smallest key"""
    st = st.fork()
    s = E.seq(args[0], st)
    if not isinstance(s, SeqV):
        raise Unsupported("min with key")
    out = []
    for x in E.require(st, s.n > 0, "ValueError"):
        x = x.fork()
        j = E.fresh(x, "argmin", z3.IntSort())
        i = z3.Int(uid("i"))
        k = lambda e: key_at(E, x, kw["key"], s, e)
        x.facts += (z3.Implies(s.n > 0, z3.And(0 <= j, j < s.n, z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < s.n), z3.And(k(i) >= k(j), z3.Implies(i < j, k(i) > k(j))))))),)
        out.append((x, s.at(j)))
    return out


def key_at(E, st, f, s, e):
    r = E.call(f, [s.at(e)], {}, st)
    if len(r) != 1:
        raise Unsupported("sort key with several outcomes")
    return E.num(r[0][1])


class SumV:
    pass


@prim("sum", "np.sum", "pulp.lpSum")
def p_sum(E, st, _, args, kw):
    start = args[1] if len(args) > 1 else kw.get("start", 0)
    v = E.view(args[0], st)
    nodes = E.tree(v, st)
    # sum of a one-element list holding a list (numpy flattens)
    outs = [(st, start)]
    for n in nodes:
        nxt = []
        for s, acc in outs:
            if isinstance(n, Item):
                w = E.view(n.v, s)
                if isinstance(w, (SeqV, CompV, CList)):
                    for s2, t in p_sum(E, s, None, [w], {}):
                        nxt.extend(E.binop(ast.Add(), acc, t, s2))
                else:
                    nxt.extend(E.binop(ast.Add(), acc, n.v, s))
            else:
                s = s.fork()
                t = tree_sum(E, s, n)
                nxt.extend(E.binop(ast.Add(), acc, t, s))
        outs = nxt
    if _ is None and getattr(E, "_lpsum", False):
        pass
    return outs


@prim("pulp.lpSum")
def p_lpsum(E, st, _, args, kw):
    return [(s, v if isinstance(v, LinV) else LinV(real(E.num(v)))) for s, v in p_sum(E, st, None, args, kw)]


def tree_sum(E, st, n):
    """sum of the numbers emitted by a node, as a registered sum constant"""
    lin = any(isinstance(v, LinV) for v in leaves([n]))
    poly = [v for v in leaves([n]) if hasattr(v, "py_sum_wrap")]

    def leaf(x):
        if hasattr(x, "py_sum_val"):
            return real(x.py_sum_val(E))
        return real(E.num(x))
    r = E.tree_total([n], leaf, st)
    if poly:
        return poly[0].py_sum_wrap(E, r)
    return LinV(r) if lin else SV(r)


@prim("any", "np.any")
def p_any(E, st, _, args, kw):
    if hasattr(args[0], "py_any"):
        return one(st, args[0].py_any(E, st))
    nodes = E.tree(args[0], st)
    return one(st, E.wrap(simp(disj(nodes, lambda x: E.b(E.truth(x, st))))))


@prim("all", "np.all")
def p_all(E, st, _, args, kw):
    nodes = E.tree(args[0], st)
    return one(st, E.wrap(simp(conj(nodes, lambda x: E.b(E.truth(x, st))))))


def simp(f):
    if z3.is_true(z3.simplify(f)):
        return True
    if z3.is_false(z3.simplify(f)):
        return False
    return f


@prim("next")
def p_next(E, st, _, args, kw):
    st = st.fork()
    v = E.view(args[0], st)
    nodes = E.tree(v, st)
    outs = E.walk(nodes, st, lambda y, x: [(y, "brk2", x)], names=set())
    res = []
    for s, k, x in outs:
        if k == "next":
            if len(args) > 1:
                res.append((s, args[1]))
            else:
                E.throw(s, "StopIteration")
        else:
            res.append((s, x))
    return res


@prim("map")
def p_map(E, st, _, args, kw):
    f, xs = args
    return collect(E, st, E.tree(xs, st), lambda y, v: E.call(f, [v], {}, y))


@prim("filter")
def p_filter(E, st, _, args, kw):
    f, xs = args

    def body(y, v):
        out = []
        for z, t in (E.call(f, [v], {}, y) if f is not None else [(y, v)]):
            for w, b in E.branch(z, E.truth(t, z)):
                out.append((w, v if b else SKIP))
        return out
    return collect(E, st, E.tree(xs, st), body)


SKIP = object()


def collect(E, st, nodes, f):
    s0 = st.fork()
    ref = E.alloc(s0, ListObj())

    def body(y, v):
        r = []
        for z, x in f(y, v):
            z = z.fork()
            if x is not SKIP:
                z.heap[ref.id] = z.heap[ref.id].add(Item(x))
            r.append((z, "next", None))
        return r
    return [(x, ref) for x, k, _ in E.walk(nodes, s0, body, names=set())]


@prim("reversed")
def p_reversed(E, st, _, args, kw):
    st = st.fork()
    s = E.seq(args[0], st)
    if isinstance(s, CList):
        return one(st, CList(reversed(s.items)))
    iv = z3.Int(uid("i"))
    return one(st, SeqV(s.n, iv, s.at(s.n - 1 - iv)))


@prim("sorted")
def p_sorted(E, st, _, args, kw):
    if "reverse" in kw and kw["reverse"] is not False:
        raise Unsupported("sorted reverse")
    st = st.fork()
    s = E.seq(args[0], st)
    key = kw.get("key")
    if isinstance(s, CList):
        if len(s.items) <= 1:
            return one(st, s)
        if len(s.items) == 2 and key is None:
            a, b = s.items
            x, y = sort_num(E, a), sort_num(E, b)
            out = []
            for t, le in E.branch(st, x <= y):
                out.append((t, CList([a, b] if le else [b, a])))
            return out
        raise Unsupported("sorted of concrete list")
    n = s.n
    perm = E.fresh_fun(st, "perm", z3.IntSort(), z3.IntSort())
    inv = E.fresh_fun(st, "perminv", z3.IntSort(), z3.IntSort())
    r, r2 = z3.Int(uid("r")), z3.Int(uid("r"))
    iv = z3.Int(uid("i"))
    val = subst(s.body, [(s.ivar, perm(iv))])
    res = SeqV(n, iv, val)
    if key is None:
        k = lambda e: sort_num(E, res.at(e))
    else:
        k = lambda e: key_at(E, st, key, res, e)
    inr = lambda e: z3.And(0 <= e, e < n)
    st.facts += (
        z3.ForAll([r], z3.Implies(inr(r), z3.And(inr(perm(r)), inv(perm(r)) == r)), patterns=[perm(r)]),
        z3.ForAll([r], z3.Implies(inr(r), z3.And(inr(inv(r)), perm(inv(r)) == r)), patterns=[inv(r)]),
        z3.ForAll([r, r2], z3.Implies(z3.And(inr(r), inr(r2), r < r2),
                                      z3.And(k(r) <= k(r2), z3.Implies(k(r) == k(r2), perm(r) < perm(r2)))),
                  patterns=[z3.MultiPattern(perm(r), perm(r2))]),
    )
    res.src = ("sorted", s, perm, inv)
    return one(st, res)


def sort_num(E, v):
    if hasattr(v, "py_key"):
        return v.py_key(E)
    return E.num(v)


@prim("type")
def p_type(E, st, _, args, kw):
    v = args[0]
    if isinstance(v, OptV):
        out = []
        for s, b in E.branch(st, v.null):
            out += [(s, Prim("float"))] if b else p_type(E, s, _, [v.v], kw)
        return out
    if hasattr(v, "py_types"):
        return v.py_types(E, st)
    if hasattr(v, "py_type"):
        return one(st, v.py_type(E, st))
    for t in ("bool", "int", "float", "str", "list", "dict"):
        try:
            if is_type(E, st, v, Prim(t)):
                return one(st, Prim(t))
        except Unsupported:
            raise
    raise Unsupported("type")


# itertools / functools -------------------------------------------------------
@prim("itertools.combinations")
def p_comb(E, st, _, args, kw):
    if (args[1] if len(args) > 1 else kw.get("r")) != 2:
        raise Unsupported("combinations other than pairs")
    st = st.fork()
    s = E.seq(args[0], st)
    if isinstance(s, CList):
        it = s.items
        return one(st, CList([(it[a], it[b]) for a in range(len(it)) for b in range(a + 1, len(it))]))
    a, b = z3.Int(uid("a")), z3.Int(uid("b"))
    return one(st, CompV([Loop([a, b], z3.And(0 <= a, a < b, b < s.n), [Item((s.at(a), s.at(b)))])]))


@prim("itertools.permutations")
def p_perm(E, st, _, args, kw):
    if (args[1] if len(args) > 1 else kw.get("r")) != 2:
        raise Unsupported("permutations other than pairs")
    st = st.fork()
    s = E.seq(args[0], st)
    if isinstance(s, CList):
        it = s.items
        return one(st, CList([(it[a], it[b]) for a in range(len(it)) for b in range(len(it)) if a != b]))
    a, b = z3.Int(uid("a")), z3.Int(uid("b"))
    return one(st, CompV([Loop([a, b], z3.And(0 <= a, a < s.n, 0 <= b, b < s.n, a != b), [Item((s.at(a), s.at(b)))])]))


@prim("itertools.product")
def p_product(E, st, _, args, kw):
    ls = list(args) * kw.get("repeat", 1)
    if len(ls) != 2:
        raise Unsupported("product")

    def nest(nodes, f):
        out = []
        for n in nodes:
            if isinstance(n, Item):
                out.extend(f(n.v))
            elif isinstance(n, Guard):
                out.append(Guard(n.g, nest(n.nodes, f)))
            else:
                bs, dom, sub = rename(n)
                out.append(Loop(bs, dom, nest(sub, f), n.n))
        return out
    t1, t2 = E.tree(ls[0], st), E.tree(ls[1], st)
    return one(st, CompV(nest(t1, lambda x: nest(t2, lambda y: [Item((x, y))]))))


@prim("itertools.chain", "itertools.chain.from_iterable")
def p_chain(E, st, _, args, kw):
    raise Unsupported("chain")


@prim("functools.reduce")
def p_reduce(E, st, _, args, kw):
    s = E.seq(args[1], st)
    if not isinstance(s, CList):
        raise Unsupported("reduce over symbolic list")
    items = list(s.items)
    outs = [(st, args[2] if len(args) > 2 else items.pop(0))]
    for x in items:
        outs = [z for y, acc in outs for z in E.call(args[0], [acc, x], {}, y)]
    return outs


# numpy -------------------------------------------------------------------------
@prim("np.isnan", "math.isnan")
def p_isnan(E, st, _, args, kw):
    v = args[0]
    if isinstance(v, OptV) and isinstance(v.v, SV) and v.v.e.sort() == Atom:
        raise Unsupported("isnan of text")
    if isinstance(v, SV) and v.e.sort() == Atom or v is None or isinstance(v, str):
        raise Unsupported("isnan of text")
    return p_isna(E, st, _, args, kw)


@prim("pd.isnull", "pd.isna")
def p_isna(E, st, _, args, kw):
    v = args[0]
    if isinstance(v, OptV):
        return one(st, E.wrap(simp(v.null)))
    if isinstance(v, (int, float)):
        return one(st, v != v)
    if v is None:
        return one(st, True)
    if isinstance(v, (SV, str, FStr)):
        return one(st, False)
    raise Unsupported("isna")


@prim("pd.notnull", "pd.notna")
def p_notna(E, st, _, args, kw):
    return [(s, not r if isinstance(r, bool) else SV(simp(z3.Not(r.e)))) for s, r in p_isna(E, st, _, args, kw)]


@prim("np.where")
def p_where(E, st, _, args, kw):
    if len(args) != 1:
        raise Unsupported("np.where with three arguments")
    st = st.fork()
    s = E.seq(args[0], st)
    if isinstance(s, CList):
        nodes = []
        for i, x in enumerate(s.items):
            t = E.truth(x, st)
            if t is True:
                nodes.append(Item(i))
            elif t is not False:
                nodes.append(Guard(t, [Item(i)]))
        return one(st, (CompV(nodes),))
    return one(st, (CompV([iloop(s.n, lambda i: [Guard(E.b(E.truth(s.at(i), st)), [Item(SV(i))])])]),))


@prim("np.zeros")
def p_zeros(E, st, _, args, kw):
    if len(args) != 1 or kw:
        raise Unsupported("np.zeros")
    n = E.num(args[0])
    st = st.fork()
    return one(st, Arr(E.alloc(st, DictObj()), n))


class Arr:
    """array of n numbers, zero where nothing has been written"""

    def __init__(self, ref, n):
        self.ref, self.n = ref, n

    def subst(self, m):
        return Arr(self.ref, z3.substitute(self.n, *m))

    def py_len(self, E, st):
        return SV(self.n)

    def py_setitem(self, E, k, v, st):
        k = E.num(k)
        if not E.is_num(v) or not E.must(st, k >= 0):
            raise Unsupported("array element")
        return [y for x in E.require(st, k < self.n, "IndexError") for y in E.setitem(self.ref, SV(k), v, x)]

    def seq(self, E, st):
        o = st.heap[self.ref.id]
        if o.opaque:
            raise Unsupported("array read while it is filled")
        i = z3.Int(uid("i"))
        body = z3.RealVal(0)

        def write(ns, b, e):
            for n in ns:
                if isinstance(n, Guard):
                    e = z3.If(n.g, write(n.nodes, b, e), e)
                elif isinstance(n, Item) and n.v[0] == "put":
                    k = E.num(n.v[1])
                    if b is not None and z3.simplify(k - b).eq(z3.IntVal(0)):
                        e = real(E.num(n.v[2]))
                    elif b is None:
                        e = z3.If(i == k, real(E.num(n.v[2])), e)
                    else:
                        raise Unsupported("array element")
                else:
                    raise Unsupported("array filled in a nested loop")
            return e
        for n in o.nodes:
            if isinstance(n, Loop):
                bs, dom, sub = rename(n)
                if len(bs) != 1 or n.n is None or not (n.n.eq(self.n) or E.must(st, n.n == self.n)):
                    raise Unsupported("array filled in part")
                body = z3.substitute(write(sub, bs[0], body), (bs[0], i))
            else:
                body = write([n], None, body)
        return SeqV(self.n, i, SV(body))

    def py_seq(self, E, st):
        return self.seq(E, st)

    def py_tree(self, E, st):
        return E.tree(self.seq(E, st), st)

    def py_getitem(self, E, k, st):
        return E.getitem(self.seq(E, st), k, st)

    def py_slice(self, E, lo, hi, step, st):
        return E.slice(self.seq(E, st), lo, hi, step, st)


# dict / list / set methods ------------------------------------------------------
@prim(".keys")
def m_keys(E, st, o, args, kw):
    return one(st, Prim("keysview", o))


@prim(".values")
def m_values(E, st, o, args, kw):
    v = E.view(o, st)
    if isinstance(v, DictV):
        nb = [z3.Const(uid("k"), k.sort()) for k in v.kvars]
        return one(st, CompV([Loop(nb, v.has(nb), [Item(v.get(nb))])]))
    if isinstance(v, FinDict):
        return one(st, CList([x for _, x in v.entries]))
    if isinstance(v, MapV):
        if any(x[0] == "app" for x in leaves(v.nodes)):
            raise Unsupported("values of multimap")
        return one(st, CompV([E.mapleaf(n, lambda k, x: x) for n in v.nodes]))
    raise Unsupported("values of %s" % type(v).__name__)


@prim(".items")
def m_items(E, st, o, args, kw):
    v = E.view(o, st)
    if isinstance(v, DictV):
        nb = [z3.Const(uid("k"), k.sort()) for k in v.kvars]
        return one(st, CompV([Loop(nb, v.has(nb), [Item((v.key(nb), v.get(nb)))])]))
    if isinstance(v, FinDict):
        return one(st, CList([(a, b) for a, b in v.entries]))
    if isinstance(v, MapV):
        if any(x[0] == "app" for x in leaves(v.nodes)):
            raise Unsupported("items of multimap")
        return one(st, CompV([E.mapleaf(n, lambda k, x: (k, x)) for n in v.nodes]))
    raise Unsupported("items of %s" % type(v).__name__)


@prim(".get")
def m_get(E, st, o, args, kw):
    out = []
    d = args[1] if len(args) > 1 else None
    for s, b in E.branch(st, E.contains(args[0], o, st)):
        out.extend(E.getitem(o, args[0], s) if b else [(s, d)])
    return out


@prim(".setdefault")
def m_setdefault(E, st, o, args, kw):
    out = []
    for s, b in E.branch(st, E.contains(args[0], o, st)):
        if b:
            out.extend(E.getitem(o, args[0], s))
        else:
            for s2 in E.setitem(o, args[0], args[1] if len(args) > 1 else None, s):
                out.append((s2, args[1] if len(args) > 1 else None))
    return out


@prim(".update")
def m_update(E, st, o, args, kw):
    if isinstance(o, Ref) and isinstance(st.heap[o.id], DictObj):
        st = st.fork()
        cur = st.heap[o.id]
        for n in put_nodes(E, E.view(args[0], st)):
            cur = cur.add(n)
        st.heap[o.id] = cur
        return one(st, None)
    if isinstance(o, Ref) and isinstance(st.heap[o.id], SetObj):
        st = st.fork()
        cur = st.heap[o.id]
        for n in E.tree(args[0], st):
            cur = cur.add(n)
        st.heap[o.id] = cur
        return one(st, None)
    raise Unsupported("update of %s" % type(o).__name__)


@prim(".copy", "copy.copy", "copy.deepcopy")
def m_copy(E, st, o, args, kw):
    o = args[0] if o is None else o
    v = E.view(o, st)
    st = st.fork()
    if isinstance(v, (FinDict, MapV, DictV, RecV)):
        return one(st, E.alloc(st, DictObj(put_nodes(E, v))))
    if isinstance(v, (CList, SeqV, CompV)):
        cls = SetObj if getattr(v, "kind", "") == "set" else ListObj
        return one(st, E.alloc(st, cls(E.tree(v, st))))
    raise Unsupported("copy of %s" % type(v).__name__)


@prim(".append", ".add")
def m_append(E, st, o, args, kw):
    if isinstance(o, Ref):
        ob = st.heap[o.id]
        if isinstance(ob, ListObj) and not isinstance(ob, (DictObj, ProbObj, NestObj)):
            st = st.fork()
            st.heap[o.id] = ob.add(Item(args[0]))
            return one(st, None)
    if isinstance(o, Opq) and o.tag == "mmelem":
        st = st.fork()
        ob = st.heap[o.ref.id]
        st.heap[o.ref.id] = ob.add(Item(("app", o.key, args[0])))
        return one(st, None)
    raise Unsupported("append to %s" % type(o).__name__)


@prim(".extend")
def m_extend(E, st, o, args, kw):
    if isinstance(o, Ref):
        ob = st.heap[o.id]
        st = st.fork()
        for n in E.tree(args[0], st):
            ob = ob.add(n)
        st.heap[o.id] = ob
        return one(st, None)
    raise Unsupported("extend")


@prim(".index")
def m_index(E, st, o, args, kw):
    st = st.fork()
    s = E.seq(o, st)
    if isinstance(s, CList):
        out, cur = [], st
        for k, x in enumerate(s.items):
            nxt = None
            for y, b in E.branch(cur, E.eq(x, args[0], cur)):
                if b:
                    out.append((y, k))
                else:
                    nxt = y
            if nxt is None:
                return out
            cur = nxt
        E.throw(cur, "ValueError")
        return out
    i = z3.Int(uid("i"))
    hit = lambda e: E.b(E.eq(s.at(e), args[0], st))
    ex = z3.Exists([i], z3.And(0 <= i, i < s.n, hit(i)))
    out = []
    for y in E.require(st, ex, "ValueError"):
        y = y.fork()
        k = E.fresh(y, "idx", z3.IntSort())
        y.facts += (z3.Implies(ex, z3.And(0 <= k, k < s.n, hit(k),
                                          z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < k), z3.Not(hit(i)))))),)
        out.append((y, SV(k)))
    return out


@prim(".intersection")
def m_inter(E, st, o, args, kw):
    return one(st, E.setop("BitAnd", o, args[0], st))


@prim(".union")
def m_union(E, st, o, args, kw):
    return one(st, E.setop("BitOr", o, args[0], st))


@prim(".isdisjoint")
def m_disjoint(E, st, o, args, kw):
    t = E.truth(E.setop("BitAnd", o, args[0], st), st)
    return one(st, E.wrap(E.neg(t)))


@prim(".tolist", ".to_list")
def m_tolist(E, st, o, args, kw):
    return p_list(E, st, None, [o], {})


@prim(".sort")
def m_sort(E, st, o, args, kw):
    out = []
    for s, v in p_sorted(E, st, None, [o], kw):
        s = s.fork()
        s.heap[o.id] = ListObj(E.tree(v, s))
        out.append((s, None))
    return out


@prim(".startswith")
def m_starts(E, st, o, args, kw):
    if isinstance(args[0], tuple) and args[0]:
        rs = [m_starts(E, st, o, [a], kw)[0][1] for a in args[0]]
        if any(r is True for r in rs):
            return one(st, True)
        rs = [r for r in rs if r is not False]
        return one(st, SV(z3.Or([E.b(E.truth(r, st)) for r in rs])) if rs else False)
    if isinstance(o, str) and isinstance(args[0], str):
        return one(st, o.startswith(args[0]))
    if isinstance(o, FStr) and isinstance(args[0], FStr):
        r = fstr_prefix(E, o, args[0], st)
        if r is not None:
            return one(st, E.wrap(r))
    return one(st, SV(z3.PrefixOf(E.zstr(args[0]), E.zstr(o))))


def is_int(p):
    return isinstance(p, SV) and p.e.sort() == z3.IntSort()


def fstr_prefix(E, s, pre, st):
    """"<number>_..." starts with "<number>_": the decimal numbers are equal"""
    a, b = list(s.parts), list(pre.parts)
    out = []
    while b:
        if not a:
            return None
        x, y = a.pop(0), b.pop(0)
        if isinstance(x, str) and isinstance(y, str):
            if x.startswith(y):
                if b and len(x) > len(y):
                    return None
                continue
            return False
        if is_int(x) and is_int(y) and a and b and isinstance(a[0], str) and isinstance(b[0], str) \
                and not a[0][0].isdigit() and not b[0][0].isdigit():
            out.append(x.e == y.e)
            continue
        return None
    return z3.And(out) if out else True


@prim(".split")
def m_split(E, st, o, args, kw):
    if isinstance(o, str) and all(isinstance(a, (str, int)) for a in args):
        return one(st, CList(o.split(*args)))
    sep = args[0] if args else None
    if isinstance(o, FStr) and sep == "_":
        # a number contains no separator: the first piece is known, a single split as well
        if len(o.parts) > 1 and is_int(o.parts[0]) and isinstance(o.parts[1], str) and o.parts[1].startswith("_"):
            rest = FStr([o.parts[1][1:]] + o.parts[2:])
            limit = args[1] if len(args) > 1 else kw.get("maxsplit", -1)
            if limit == 1:
                return one(st, CList([FStr([o.parts[0]]), rest]))
            return one(st, CList([FStr([o.parts[0]])] + [Poison("pieces of a key")]))
    raise Unsupported("split")


@prim(".endswith")
def m_ends(E, st, o, args, kw):
    return one(st, SV(z3.SuffixOf(E.zstr(args[0]), E.zstr(o))))


@prim("time.time")
def p_time(E, st, _, args, kw):
    return one(st, SV(E.fresh(st, "time", z3.RealSort())))


@prim("np.size")
def p_npsize(E, st, _, args, kw):
    # np.size of a dict view is 1 (a zero-dimensional object array)
    v = args[0]
    if isinstance(v, Prim) and v.name == "keysview":
        return one(st, 1)
    return p_len(E, st, _, args, kw)


def install(E):
    E.prims.update(PRIMS)


@prim("exit", "quit", "sys.exit")
def p_exit(E, st, _, args, kw):
    E.throw(st, "SystemExit")
    return []


@prim("eval", "ast.literal_eval")
def p_eval(E, st, _, args, kw):
    if hasattr(args[0], "py_eval"):
        return args[0].py_eval(E, st)
    raise Unsupported("eval")
