"""jobs on sample analysis and model conversion (run by worker.py)"""
import itertools

import dimod
import railway_solvers as rs

from .w_prog import build


def results(p):
    prob = build(p)
    ss = dimod.SampleSet.from_samples([dict(s) for s in p["samples"]], "INTEGER", list(p["energies"]))
    res = rs.get_results(ss, prob)
    best = rs.get_best_feasible_sample(res)
    an = [rs.analyze_constraints(prob, dict(s)) for s in p["samples"]]
    ob = [rs.get_objective(prob, dict(s)) for s in p["samples"]]
    keys = ("energy", "objective", "feasible", "feas_constraints")
    row = lambda r: dict({k: r[k] for k in keys}, sample=dict(r["sample"]))
    return {"res": [row(r) for r in res], "best": row(best), "an": an, "ob": ob}


def cqm(p):
    m = rs.convert_to_cqm(build(p))
    if isinstance(m, tuple):
        m = m[0]
    ex = lambda e: (float(e.offset), {k: float(c) for k, c in e.linear.items()})
    return {"vars": {v: (m.vartype(v), m.lower_bound(v), m.upper_bound(v)) for v in m.variables},
            "cons": {k: (ex(c.lhs), c.sense, float(c.rhs)) for k, c in m.constraints.items()},
            "obj": ex(m.objective)}


def bqm(p):
    prob = build(p)
    b, (q, off), interp = rs.convert_to_bqm(prob, dict(p["weights"]))
    bits = sorted(b.variables, key=str)
    if len(bits) > p["maxbits"]:
        return {"bits": len(bits)}
    samples = [dict(zip(bits, x)) for x in itertools.product((0, 1), repeat=len(bits))]
    en = [b.energy(s) for s in samples]
    q2 = [off + sum(c for (x, y), c in q.items() if s[x] and s[y]) for s in samples]
    dec = interp(dimod.SampleSet.from_samples(samples, "BINARY", en))
    best = {}
    for d in dec.data():
        k = tuple(sorted(d.sample.items()))
        best[k] = min(d.energy, best.get(k, d.energy))
    return {"bits": len(bits), "best": best, "n": len(dec), "want": len(samples), "same": max(abs(x - y) for x, y in zip(en, q2))}
