"""pulp as seen by the engine: variables and expressions stand for their value
under one arbitrary assignment, constraints for the truth of the relation."""
import itertools
import z3
from .values import *
from .prims import prim, one, real


@prim("pulp.LpProblem")
def p_problem(E, st, _, args, kw):
    st = st.fork()
    return one(st, E.alloc(st, ProbObj()))


def var_value(E, prefix, idx):
    """value of the variable prefix_idx under the assignment"""
    ks = [E.to_sort(i, Atom) for i in idx]
    return z3.Function("val_" + prefix, *[Atom] * len(ks), z3.RealSort())(*ks)


@prim("pulp.LpVariable.dicts", "pulp.LpVariable.dict")
def p_dicts(E, st, _, args, kw):
    names = ["name", "indexs", "lowBound", "upBound", "cat", "indexStart"]
    a = dict(zip(names, args))
    for k, v in kw.items():
        a["indexs" if k == "indices" else k] = v
    ix = a["indexs"]
    lists = ix if isinstance(ix, tuple) else (ix,)
    ls = []
    for l in lists:
        l = E.view(l, st)
        if not isinstance(l, CList):
            raise Unsupported("variables over a symbolic index")
        ls.append(l.items)
    attrs = {"lowBound": a.get("lowBound"), "upBound": a.get("upBound"), "cat": a.get("cat", "Continuous")}

    def build(level, idx):
        if level == len(ls):
            at = dict(attrs)
            nm = [a["name"]]
            for i in idx:
                nm += ["_", E.to_str(i, st)]
            at["name"] = FStr(nm)
            at["prefix"], at["idx"] = a["name"], tuple(idx)
            return VarV(var_value(E, a["name"], idx), at)
        return FinDict([(k, build(level + 1, idx + [k])) for k in ls[level]])
    if len(ls) == 1:
        return one(st, build(0, []))
    return one(st, build(0, []))


@prim("pulp.LpVariable")
def p_var(E, st, _, args, kw):
    raise Unsupported("LpVariable")


def con_formula(nodes):
    def leaf(v):
        if v[0] == "con":
            return v[1].f
        if v[0] == "formula":
            return v[1]
        return z3.BoolVal(True)
    return conj(nodes, leaf)
