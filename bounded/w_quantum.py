"""jobs on solving by samplers and on problem sizes (run by worker.py)"""
import contextlib
import io
import random
import re
import time

import dimod
import dwave.system
import neal
import pulp
import railway_solvers.railway_solvers as rs

from .w_prog import build

KINDS = {"sim": neal.SimulatedAnnealingSampler, "real": dwave.system.EmbeddingComposite, "bqm": dwave.system.LeapHybridSampler,
         "cqm": dwave.system.LeapHybridCQMSampler}


def solve(p):
    import helpers
    calls = []

    def hook(kind):
        def draw(model):
            rng = random.Random(p["seed"])
            names = sorted(model.variables, key=str)
            if hasattr(model, "energy"):
                ss = [{v: rng.randint(0, 1) for v in names} for _ in range(p["draws"])]
                en = [model.energy(s) for s in ss]
            else:
                ss = [{v: rng.randint(model.lower_bound(v), model.upper_bound(v)) for v in names} for _ in range(p["draws"])]
                en = [rng.randint(-5, 5) for _ in ss]
            calls.append((kind, model, ss, en))
            time.sleep(0.002)
            return dimod.SampleSet(ss, en, {"run": p["seed"]})
        return draw
    for k, c in KINDS.items():
        c.hook = hook(k)
    weights = dict(p["weights"])
    t0 = time.time()
    r = helpers.solve_on_quantum(build(p), p["method"], weights, p["limit"])
    wall = time.time() - t0
    (kind, model, ss, en), = calls
    out = {"kind": kind, "kept": weights == p["weights"], "info": r.get("info"), "time": r.get("comp_time_seconds"), "props": r.get("properties"), "wall": wall}
    if p["method"] == "cqm":
        ref = rs.convert_to_cqm(build(p))
        ref = ref[0] if isinstance(ref, tuple) else ref
        ex = lambda e: (e.offset, e.linear)
        out["model"] = ({k: (ex(c.lhs), c.sense, c.rhs) for k, c in ref.constraints.items()} == {k: (ex(c.lhs), c.sense, c.rhs) for k, c in model.constraints.items()}
                        and ex(ref.objective) == ex(model.objective)) if hasattr(model, "constraints") else False
        out["drawn"] = list(zip(ss, en))
    else:
        ref, _, interp = rs.convert_to_bqm(build(p), dict(p["weights"]))
        out["model"] = hasattr(model, "energy") and set(ref.variables) == set(model.variables) and all(abs(ref.energy(s) - e) < 1e-6 for s, e in zip(ss, en))
        out["drawn"] = [(d.sample, d.energy) for d in interp(dimod.SampleSet(ss, en)).data()] if out["model"] else []
    keys = ("energy", "objective", "feasible", "feas_constraints")
    out["got"] = dict({k: r.get(k) for k in keys}, sample=dict(r["sample"]))
    return out


def sizes(p):
    import helpers
    prob = pulp.LpProblem("p", pulp.LpMinimize)
    vs = [pulp.LpVariable(n, 0, 1 if o else 10, "Integer") for n, o in p["vars"]]
    for v, (_, o) in zip(vs, p["vars"]):
        v.varValue = 1 if o else 3
    for k in range(p["cons"]):
        prob += vs[k % len(vs)] + vs[(k + 1) % len(vs)] >= k, "c%d" % k
    prob += pulp.lpSum(vs)
    out = {"count": helpers.count_vars(prob)}
    text = io.StringIO()
    with contextlib.redirect_stdout(text):
        helpers.check_count_vars(prob)
    out["printed"] = [int(x) for x in re.findall(r"\d+", text.getvalue())]
    b = dimod.BinaryQuadraticModel(dict(p["linear"]), {tuple(k): c for k, c in p["quadratic"]})
    out["bqm"] = (rs.count_linear_fields(b), rs.count_quadratic_couplings(b))
    return out
