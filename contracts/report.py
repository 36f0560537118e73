"""Contracts for the result table."""
import z3
from pyvc import frame
from pyvc.frame import DateV
from pyvc.prims import RND, one, real
from pyvc.values import *
from pyvc.interp import Unsupported
from . import groups
from .solver import W, fn, Atom, make, Solved

HP = "helpers.py"
R, B, I = z3.RealSort(), z3.BoolSort(), z3.IntSort()
SKIP = ("dict", ["atom"], "scalar", "atom")
DELAY, TIME, FREE, IMPACT = [z3.Function("report." + n, Atom, Atom, R) for n in ("delay", "time", "conflicted", "impact")]


def trunc(x):
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def passed(E, st, b, want):
    """the arguments are the ones the table was asked for"""
    for k, v in want.items():
        if not (b[k] is v or E.same_val(E.view(b[k], st), v)):
            raise Unsupported("argument %s" % k)


def c25(repo):
    w = W(repo)
    E = w.E
    E.rules.append(groups.last_written())
    E.quick_ms, E.cover_ms = 100, 300  # most questions have quantified hypotheses and no refutation
    skip = make(E, SKIP, "skip")
    ref = z3.Real("t_ref")
    prob, data = Solved(), Opq("outside data")
    dmax = SV(w.dmax)
    at = lambda b: [E.to_sort(b[k], Atom) for k in ("j", "s")]

    def times(E, st, b):
        passed(E, st, b, {"train_sets": w.ts, "timetable": w.tt, "prob": prob, "data": data})
        a = at(b)
        return one(st, CList([SV(DELAY(*a)), SV(TIME(*a)), SV(FREE(*a))]))

    def impact(E, st, b):
        passed(E, st, b, {"prob": prob, "timetable": w.tt, "d_max": dmax, "data": data})
        return one(st, SV(IMPACT(*at(b))))
    contracts = {"delay_and_acctual_time": {"params": ["train_sets", "timetable", "prob", "j", "s", "data"], "apply": times},
                 "impact_to_objective": {"params": ["prob", "timetable", "j", "s", "d_max", "data"], "apply": impact}}

    nJ, J = z3.Int("ts.J.len"), lambda i: fn("ts.J.at", [i], Atom)
    PASS = lambda *a: fn("tt.tau.pass.get", list(a), R)
    HAS = lambda *a: fn("tt.tau.pass.has", list(a), B)
    skipped = lambda j, s: z3.And(fn("skip.has", [j], B), fn("skip.get", [j], Atom) == s)
    # the last station before k that is not skipped
    last = lambda j, k: fn("last_reported", [j, k], I)
    j, s = z3.Consts("tj tS", Atom)
    k, r, i, i2 = z3.Ints("tk tr ti ti2")
    P = w.path
    hyps = [w.dmax > 0, nJ >= 0,
            z3.ForAll([i, i2], z3.Implies(z3.And(0 <= i, i < i2, i2 < nJ), J(i) != J(i2)), patterns=[z3.MultiPattern(J(i), J(i2))]),
            z3.ForAll([j, s], z3.Not(HAS(j, E.lit("0"), s)), patterns=[HAS(j, E.lit("0"), s)])] + w.simple_paths()
    ghost = [z3.ForAll([j, k], z3.Implies(0 <= k, z3.And(-1 <= last(j, k), last(j, k) < k, z3.Implies(last(j, k) >= 0, z3.Not(skipped(j, P(j, last(j, k))))),
                       z3.ForAll([r], z3.Implies(z3.And(last(j, k) < r, r < k), skipped(j, P(j, r))), patterns=[P(j, r)]))), patterns=[last(j, k)])]
    f, vals, outs, exs = w.run(HP, "print_optimisation_results",
                               {"prob": prob, "timetable": w.tt, "train_set": w.ts, "taus": w.tt.fields["tau"][1], "skip_stations": skip, "d_max": dmax,
                                "t_ref": DateV(ref), "outside_data": data}, contracts, hyps)
    i0, q0 = z3.Ints("i0 q0")
    j0, s0 = J(i0), P(J(i0), q0)
    here = [0 <= i0, i0 < nJ, 0 <= q0, q0 < w.plen(j0)]
    p0 = last(j0, q0)
    complete = [z3.Implies(p0 >= 0, HAS(j0, P(j0, p0), s0))]
    date = lambda v, m: v.m == m if isinstance(v, DateV) else z3.BoolVal(False)
    number = lambda v, x: real(E.num(v)) == x if E.is_num(v) or isinstance(v, SV) and z3.is_arith(v.e) else z3.BoolVal(False)
    stay = z3.Not(skipped(j0, s0))
    arrive = lambda t: ref + z3.ToReal(RND(PASS(j0, P(j0, p0), s0))) + z3.ToReal(trunc(t))
    want = {"arrive": (p0 >= 0, lambda v: date(v, arrive(TIME(j0, P(j0, p0))))),
            "conflicted_arrive": (p0 >= 0, lambda v: date(v, arrive(FREE(j0, P(j0, p0))))),
            "departure": (stay, lambda v: date(v, ref + z3.ToReal(trunc(TIME(j0, s0))))),
            "conflicted_departure": (stay, lambda v: date(v, ref + z3.ToReal(trunc(FREE(j0, s0))))),
            "secondary delay": (stay, lambda v: number(v, z3.ToReal(trunc(DELAY(j0, s0))))),
            "impact_to_objective": (stay, lambda v: number(v, IMPACT(j0, s0)))}
    for n, (st, v) in enumerate(outs):
        name = "table" + ("" if len(outs) == 1 else "/path%d" % n)
        v = E.view(v, st)
        tops = list(groups.E_paths(v.nodes))
        if any(x[0] != "put" or len(bs) != 1 for bs, c, x in tops):
            raise Unsupported("entries of the table")
        there, keys, inner = [], [], []
        for bs, c, x in tops:
            m = [(bs[0], i0)]
            c, x = z3.substitute(c, *m), subst(x, m)
            there.append(z3.And(c, E.b(E.eq(x[1], SV(j0), st))))
            keys.append((c, x[1]))
            inner.append((c, E.view(x[2], st)))
        w.oblige(name + "/every train", st, z3.Or(there), extra=here[:2])
        for m, (c, x) in enumerate(keys):
            w.oblige("%s/trains only/%d" % (name, m), st, z3.And(E.b(E.eq(x, SV(j0), st)), *here[:2]), extra=[c])
        for c, d in inner:
            got = []
            for bs, c2, x in groups.E_paths(d.nodes):
                if x[0] != "put" or not 1 <= len(bs) <= 2:
                    raise Unsupported("entries of a train")
                m = [(bs[0], q0)] + [(b, z3.If(p0 < 0, 0, p0)) for b in bs[1:]]
                got.append((z3.substitute(c2, *m), subst(x, m), bs, c2, x))
            w.oblige(name + "/every station", st, z3.Or([z3.And(c2, E.b(E.eq(x[1], SV(s0), st))) for c2, x, *_ in got]), extra=here + [c] + ghost + complete)
            for m, (_, _, bs, c2, x) in enumerate(got):
                qm = [(bs[0], q0)]
                c2, x = z3.substitute(c2, *qm), subst(x, qm)
                pre = [c, c2, 0 <= i0, i0 < nJ] + ghost
                w.oblige("%s/stations only/%d" % (name, m), st, z3.And(E.b(E.eq(x[1], SV(s0), st)), *here[2:]), extra=pre)
                if len(bs) == 2:
                    w.oblige("%s/previous station/%d" % (name, m), st, z3.Or(bs[1] == p0, z3.And(p0 < 0, bs[1] == 0)), extra=pre + [z3.Int("p0") == p0])
            for m, (c2, x, *_) in enumerate(got):
                e = E.view(x[2], st)
                pre = here + [c, c2] + ghost + complete
                for field, (has, ok) in want.items():
                    w.oblige("%s/%s where it belongs/%d" % (name, field, m), st, E.b(E.contains(field, e, st)) == has, extra=pre)
                    E.exc.append([])
                    for l, (y, val) in enumerate(E.getitem(e, field, st)):
                        w.oblige("%s/%s/%d/%d" % (name, field, m, l), y, ok(E.view(val, y)), extra=pre + [has])
                    E.exc.pop()
    return w
