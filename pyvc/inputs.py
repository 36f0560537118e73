"""Symbolic inputs described by types."""
import z3
from .values import *

SORT = {"atom": Atom, "int": z3.IntSort(), "real": z3.RealSort(), "bool": z3.BoolSort(), "str": z3.StringSort()}


def fn(name, args, sort):
    if not args:
        return z3.Const(name, sort)
    return z3.Function(name, *[a.sort() for a in args], sort)(*args)


def make(E, T, name, args=()):
    args = list(args)
    if isinstance(T, str):
        if T == "var":
            return VarV(fn(name, args, z3.RealSort()), {})
        return SV(fn(name, args, SORT[T]))
    k = T[0]
    if k == "list":
        n = fn(name + ".len", args, z3.IntSort())
        E.axiom_once(name + ".len", z3.ForAll(args, n >= 0) if args else n >= 0)
        i = z3.Int(uid("i"))
        v = SeqV(n, i, make(E, T[1], name + ".at", args + [i]))
        return v
    if k == "dict":
        _, keys, kind, V = T
        kv = [z3.Const(uid("k"), SORT[q]) for q in keys]
        return DictV(kv, fn(name + ".has", args + kv, z3.BoolSort()), make(E, V, name + ".get", args + kv), kind, name)
    if k == "rec":
        f = {}
        for fld, spec in T[1].items():
            opt = isinstance(spec, tuple) and spec and spec[0] == "opt"
            t = spec[1] if opt else spec
            f[fld] = (fn(name + "." + fld + "?", args, z3.BoolSort()) if opt else True, make(E, t, name + "." + fld, args))
        return RecV(f, name)
    if k == "pair":
        return CList([make(E, t, name + "." + str(q), args) for q, t in enumerate(T[1:])])
    if k == "tuple":
        return tuple(make(E, t, name + "." + str(q), args) for q, t in enumerate(T[1:]))
    if k == "opt":
        return OptV(fn(name + ".null", args, z3.BoolSort()), make(E, T[1], name, args))
    if k == "fun":
        return T[1](E, name, args)
    raise ValueError(T)
