"""Nested dictionaries that are written at some path (order and delay variables).

A nested dictionary is a base relation (presence of each path) and a log of
writes; a write at a path replaces what was below that path."""
import z3
from .values import *


class Nest:
    """reference into a nested dictionary: root object, path so far, depth of the leaves"""

    def __init__(self, root, path, depth, base, leaf):
        self.root, self.path, self.depth, self.base, self.leaf = root, tuple(path), depth, base, leaf

    def subst(self, m):
        return Nest(self.root, [z3.substitute(p, *m) for p in self.path], self.depth, self.base, self.leaf)

    def vkey(self, E):
        return ("N", self.root.id) + tuple(p.get_id() for p in self.path)

    def key(self, E, k):
        return self.path + (E.to_sort(k, Atom),)

    def py_contains(self, E, k, st):
        return present(E, self, self.key(E, k), st)

    def py_getitem(self, E, k, st):
        ks = self.key(E, k)
        out = []
        for s in E.require(st, present(E, self, ks, st), "KeyError"):
            if len(ks) < self.depth:
                out.append((s, Nest(self.root, ks, self.depth, self.base, self.leaf)))
            elif st.heap[self.root.id].nodes:
                raise Unsupported("variable read after a write")
            else:
                out.append((s, self.leaf(ks)))
        return out

    def py_setitem(self, E, k, v, st):
        st = st.fork()
        o = st.heap[self.root.id]
        st.heap[self.root.id] = o.add(Item(("set", self.key(E, k), v)))
        return [st]

    def py_call(self, E, name, args, kw, st):
        if name == "update" and len(args) == 1:
            d = E.view(args[0], st)
            if not isinstance(d, FinDict):
                raise Unsupported("update by a symbolic dictionary")
            for k, v in d.entries:
                st = self.py_setitem(E, k, v, st)[0]
            return [(st, None)]
        if name == "keys":
            return [(st, Prim("keysview", self))]
        raise Unsupported("method %s of a nested dictionary" % name)

    def py_truth(self, E, st):
        raise Unsupported("truth of a nested dictionary")


def inside(E, v, rest, st):
    """rest is a path inside v"""
    if not rest:
        return z3.BoolVal(True)
    v = E.view(v, st)
    if not isinstance(v, FinDict):
        raise Unsupported("path inside %s" % type(v).__name__)
    return z3.Or([z3.And(E.to_sort(k, Atom) == rest[0], inside(E, x, rest[1:], st)) for k, x in v.entries])


def present(E, nest, ks, st):
    o = st.heap[nest.root.id]
    if o.opaque:
        raise Unsupported("read of an object modified by the enclosing loop")
    r = nest.base(ks)

    def fold(r, nodes, g):
        for n in nodes:
            if isinstance(n, Guard):
                r = fold(r, n.nodes, g + [n.g])
            elif isinstance(n, Item) and n.v[0] == "set":
                keys, v = n.v[1], n.v[2]
                if len(keys) <= len(ks):
                    c = z3.And(g + [a == b for a, b in zip(keys, ks)])
                    r = z3.If(c, inside(E, v, ks[len(keys):], st), r)
            else:
                raise Unsupported("nested dictionary written in a loop")
        return r
    return fold(r, o.nodes, [])


def stored(E, nodes, ks, st):
    """(condition, leaf) for every write that reaches path ks"""
    out = []

    def leaf(v, rest):
        v = E.view(v, st)
        if not rest:
            return [(z3.BoolVal(True), v)]
        if not isinstance(v, FinDict):
            raise Unsupported("path inside %s" % type(v).__name__)
        return [(z3.And(E.to_sort(k, Atom) == rest[0], c), x) for k, y in v.entries for c, x in leaf(y, rest[1:])]

    def rec(nodes, g):
        for n in nodes:
            if isinstance(n, Guard):
                rec(n.nodes, g + [n.g])
            else:
                keys, v = n.v[1], n.v[2]
                for c, x in leaf(v, ks[len(keys):]):
                    out.append((z3.And(g + [a == b for a, b in zip(keys, ks)] + [c]), x))
    rec(nodes, [])
    return out


def chain(E, d, st):
    """a dictionary with one entry per level -> (keys, leaf)"""
    keys = []
    d = E.view(d, st)
    while isinstance(d, FinDict):
        if len(d.entries) != 1:
            raise Unsupported("several entries")
        k, d = d.entries[0]
        keys.append(E.to_sort(k, Atom))
        d = E.view(d, st)
    return tuple(keys), d


def log_write(E, st, ref, item):
    """append a write to a dictionary made in the analysed code"""
    st = st.fork()
    if isinstance(ref, Ref):
        o = st.heap[ref.id]
        if isinstance(o, DictObj):
            if o.nodes:
                raise Unsupported("dictionary with other entries")
            o = NestObj((), o.opaque)
        if isinstance(o, NestObj):
            st.heap[ref.id] = o.add(item)
            return st
    raise Unsupported("nested write to %s" % type(ref).__name__)
