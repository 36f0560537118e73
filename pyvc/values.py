"""Symbolic values, emission trees and substitution."""
import itertools
import z3

Atom = z3.DeclareSort("Atom")
_ctr = itertools.count()


class Unsupported(Exception):
    """the engine cannot give a meaning to this construct"""


def uid(p="t"):
    return "%s!%d" % (p, next(_ctr))


class SV:
    """symbolic scalar"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SV(%s)" % self.e

    @property
    def sort(self):
        return self.e.sort()


class LinV:
    """value of a pulp expression under an arbitrary assignment (a real)"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "LinV(%s)" % self.e


class VarV(LinV):
    """a pulp variable; attrs: lb, ub, cat, name"""
    __slots__ = ("attrs",)

    def __init__(self, e, attrs):
        LinV.__init__(self, e)
        self.attrs = attrs


class ConV:
    """a pulp constraint: holds iff f"""
    __slots__ = ("f", "lhs", "sense")

    def __init__(self, f, lhs=None, sense=None):
        self.f, self.lhs, self.sense = f, lhs, sense


class FStr:
    """formatted string: literal pieces and symbolic pieces"""
    __slots__ = ("parts",)

    def __init__(self, parts):
        out = []
        for p in parts:
            if isinstance(p, FStr):
                ps = p.parts
            else:
                ps = [p]
            for q in ps:
                if isinstance(q, str) and out and isinstance(out[-1], str):
                    out[-1] += q
                elif not (isinstance(q, str) and q == ""):
                    out.append(q)
        self.parts = out

    def skeleton(self):
        return "".join(p if isinstance(p, str) else "{}" for p in self.parts)

    def args(self):
        return [p for p in self.parts if not isinstance(p, str)]

    def __repr__(self):
        return "FStr(%r)" % (self.parts,)


class CList:
    """immutable concrete-length list"""
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)

    def __repr__(self):
        return "CList(%r)" % self.items


class SeqV:
    """symbolic list: length n, i-th element is body[i/ivar]"""
    __slots__ = ("n", "ivar", "body", "src", "kind", "part")

    def __init__(self, n, ivar, body, src=None, kind="list"):
        self.n, self.ivar, self.body, self.src, self.kind = n, ivar, body, src, kind
        self.part = None  # (sequence, from, to) of a slice

    def at(self, i):
        if isinstance(i, int):
            i = z3.IntVal(i)
        return subst(self.body, [(self.ivar, i)])

    def __repr__(self):
        return "SeqV(%s, %s)" % (self.n, self.body)


class DictV:
    """symbolic dict: key components kvars, presence has, value val"""
    __slots__ = ("kvars", "has_e", "val", "kind", "name")

    def __init__(self, kvars, has_e, val, kind, name=None):
        self.kvars, self.has_e, self.val, self.kind, self.name = kvars, has_e, val, kind, name

    def has(self, comps):
        return z3.substitute(self.has_e, *zip(self.kvars, comps)) if comps else self.has_e

    def get(self, comps):
        return subst(self.val, list(zip(self.kvars, comps)))

    def key(self, comps):
        if self.kind == "scalar":
            return SV(comps[0])
        if self.kind == "tuple":
            return tuple(SV(c) for c in comps)
        it = iter(comps)
        parts = []
        for k, piece in enumerate(self.kind[1].split("{}")):
            if k:
                parts.append(SV(next(it)))
            if piece:
                parts.append(piece)
        return FStr(parts)

    def __repr__(self):
        return "DictV(%s)" % self.name


class FinDict:
    """dict with finitely many known entries"""
    __slots__ = ("entries",)

    def __init__(self, entries):
        self.entries = list(entries)


class RecV:
    """dict with literal string keys; field -> (present, value)"""
    __slots__ = ("fields", "name")

    def __init__(self, fields, name="rec"):
        self.fields, self.name = fields, name


class CompV:
    """list given by an emission tree (order: tree order)"""
    __slots__ = ("nodes", "kind")

    def __init__(self, nodes, kind="list"):
        self.nodes, self.kind = nodes, kind


class MapV:
    """dict given by an emission tree of ("put", k, v) / ("app", k, v)"""
    __slots__ = ("nodes",)

    def __init__(self, nodes):
        self.nodes = nodes


class Ref:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(self.id)

    def __repr__(self):
        return "Ref(%d)" % self.id


class Func:
    __slots__ = ("node", "mod", "closure", "name")

    def __init__(self, node, mod, closure, name):
        self.node, self.mod, self.closure, self.name = node, mod, closure, name


class Prim:
    """built-in or library function known to the engine"""
    __slots__ = ("name", "self_")

    def __init__(self, name, self_=None):
        self.name, self.self_ = name, self_

    def __repr__(self):
        return "Prim(%s)" % self.name


class ModV:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class Poison:
    """value that is not known (reading it is unsupported)"""
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why


class LastV(Poison):
    """loop variable after the loop: its last value if there was a round"""
    __slots__ = ("cond", "v")

    def __init__(self, cond, v):
        Poison.__init__(self, "loop variable")
        self.cond, self.v = cond, v


class OptV:
    """value that may be missing (NaN): null, v"""
    __slots__ = ("null", "v")

    def __init__(self, null, v):
        self.null, self.v = null, v

    def subst(self, m):
        return OptV(z3.substitute(self.null, *m), subst(self.v, m))


NAN = OptV(z3.BoolVal(True), None)


class Opq:
    """opaque library object carrying data for primitives"""
    __slots__ = ("tag", "data")

    def __init__(self, tag, **data):
        self.tag, self.data = tag, data

    def __getattr__(self, k):
        try:
            return object.__getattribute__(self, "data")[k]
        except KeyError:
            raise AttributeError(k)


# emission trees ------------------------------------------------------------

class Item:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return "Item(%r)" % (self.v,)


class Guard:
    __slots__ = ("g", "nodes")

    def __init__(self, g, nodes):
        self.g, self.nodes = g, nodes

    def __repr__(self):
        return "Guard(%s,%r)" % (self.g, self.nodes)


class Loop:
    """iteration over binders in dom; n: index loop 0 <= binder < n"""
    __slots__ = ("binders", "dom", "nodes", "n")

    def __init__(self, binders, dom, nodes, n=None):
        self.binders, self.dom, self.nodes, self.n = list(binders), dom, nodes, n

    def __repr__(self):
        return "Loop(%s,%s,%r)" % (self.binders, self.dom, self.nodes)


# mutable heap objects (contents immutable, replaced on write) ---------------

class ListObj:
    __slots__ = ("nodes", "opaque")

    def __init__(self, nodes=(), opaque=False):
        self.nodes, self.opaque = tuple(nodes), opaque

    def add(self, n):
        return type(self)(self.nodes + (n,), self.opaque)


class SetObj(ListObj):
    pass


class DictObj(ListObj):
    pass


class ProbObj(ListObj):
    pass


class NestObj(ListObj):
    """nested dictionary of order variables, kept as a log of ensure records"""


def subst(v, m):
    """substitute z3 constants in a value"""
    if not m:
        return v
    S = lambda e: z3.substitute(e, *m)
    if v is None or isinstance(v, (bool, int, float, str, Ref, Func, Prim, ModV, Poison)):
        return v
    if isinstance(v, SV):
        return SV(S(v.e))
    if isinstance(v, VarV):
        return VarV(S(v.e), {k: subst(x, m) for k, x in v.attrs.items()})
    if isinstance(v, LinV):
        return LinV(S(v.e))
    if isinstance(v, ConV):
        return ConV(S(v.f), None if v.lhs is None else S(v.lhs), v.sense)
    if isinstance(v, FStr):
        return FStr([subst(p, m) for p in v.parts])
    if isinstance(v, tuple):
        return tuple(subst(x, m) for x in v)
    if isinstance(v, CList):
        return CList([subst(x, m) for x in v.items])
    if isinstance(v, SeqV) and hasattr(v, "subst"):
        return v.subst(m)
    if isinstance(v, SeqV):
        m2 = [(a, b) for a, b in m if not a.eq(v.ivar)]
        return SeqV(S(v.n) if z3.is_expr(v.n) else v.n, v.ivar, subst(v.body, m2), None if v.src is None else subst(v.src, m), v.kind)
    if isinstance(v, DictV):
        m2 = [(a, b) for a, b in m if not any(a.eq(k) for k in v.kvars)]
        if not m2:
            return v
        return DictV(v.kvars, z3.substitute(v.has_e, *m2), subst(v.val, m2), v.kind, v.name)
    if isinstance(v, FinDict):
        return FinDict([(subst(a, m), subst(b, m)) for a, b in v.entries])
    if isinstance(v, RecV):
        return RecV({k: (S(p) if z3.is_expr(p) else p, subst(x, m)) for k, (p, x) in v.fields.items()}, v.name)
    if isinstance(v, CompV):
        return CompV([nsubst(n, m) for n in v.nodes], v.kind)
    if isinstance(v, MapV):
        return MapV([nsubst(n, m) for n in v.nodes])
    if isinstance(v, Opq):
        return Opq(v.tag, **{k: subst(x, m) for k, x in v.data.items()})
    if z3.is_expr(v):
        return S(v)
    if hasattr(v, "subst"):
        return v.subst(m)
    if isinstance(v, list):
        return [subst(x, m) for x in v]
    raise Unsupported("subst of %r" % (v,))


def nsubst(n, m):
    if isinstance(n, Item):
        return Item(subst(n.v, m))
    if isinstance(n, Guard):
        return Guard(z3.substitute(n.g, *m), [nsubst(x, m) for x in n.nodes])
    m2 = [(a, b) for a, b in m if not any(a.eq(k) for k in n.binders)]
    if not m2:
        return n
    return Loop(n.binders, z3.substitute(n.dom, *m2), [nsubst(x, m2) for x in n.nodes],
                z3.substitute(n.n, *m2) if z3.is_expr(n.n) else n.n)


def rename(loop):
    """fresh copy of a loop node's binders"""
    nb = [z3.Const(uid(str(b).split("!")[0]), b.sort()) for b in loop.binders]
    m = list(zip(loop.binders, nb))
    return nb, z3.substitute(loop.dom, *m), [nsubst(x, m) for x in loop.nodes]


def conj(nodes, leaf):
    """for all emissions: leaf"""
    out = []
    for n in nodes:
        if isinstance(n, Item):
            out.append(leaf(n.v))
        elif isinstance(n, Guard):
            out.append(z3.Implies(n.g, conj(n.nodes, leaf)))
        else:
            out.append(z3.ForAll(n.binders, z3.Implies(n.dom, conj(n.nodes, leaf))))
    return z3.And(out) if len(out) != 1 else out[0]


def disj(nodes, leaf):
    """some emission: leaf"""
    out = []
    for n in nodes:
        if isinstance(n, Item):
            out.append(leaf(n.v))
        elif isinstance(n, Guard):
            out.append(z3.And(n.g, disj(n.nodes, leaf)))
        else:
            out.append(z3.Exists(n.binders, z3.And(n.dom, disj(n.nodes, leaf))))
    return z3.Or(out) if len(out) != 1 else out[0]


def leaves(nodes):
    for n in nodes:
        if isinstance(n, Item):
            yield n.v
        else:
            yield from leaves(n.nodes)


def iloop(n, mk, hint="i"):
    """index loop over 0 <= i < n; mk(i) gives the nodes"""
    i = z3.Int(uid(hint))
    return Loop([i], z3.And(0 <= i, i < n), mk(i), n)
