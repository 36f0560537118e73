"""solving by samplers (C28) and problem sizes (C29)"""
from .data_b import check
from .models_b import KINDS, PRIMES, holds, objective, program

BOUND = "up to 3 variables, 2 constraints, 8 samples"


def mk_solve(rng):
    method = rng.choice(["sim", "real", "bqm", "cqm"])
    p = program(rng, rng.randint(1, 3), rng.randint(0, 2), top=4, strict=True, lows=method != "cqm")
    p["weights"] = dict(zip(KINDS, rng.sample(PRIMES, len(KINDS))), objective=rng.choice([1, 2]))
    return dict(p, method=method, limit=rng.choice([5, 7, 11, 30]), seed=rng.randint(0, 10 ** 6), draws=rng.randint(1, 8))


def judge_solve(p, v, bad):
    if v["kind"] != p["method"]:
        bad("method %s solved by the sampler of %s" % (p["method"], v["kind"]))
    if not v["kept"]:
        bad("the caller's parameters are altered")
    if not v["model"]:
        bad("the model sampled is not the one of the problem")
    names = {x[0] for x in p["vars"]}
    own = lambda s: {n: x for n, x in s.items() if n in names}
    drawn = [(own(s), e) for s, e in v["drawn"]]
    got = v["got"]
    s = own(got["sample"])
    if (s, got["energy"]) not in drawn:
        bad("the solution %r with energy %r is none of the samples" % (s, got["energy"]))
    want = {c[0]: holds(c, s) for c in p["cons"]}
    if bool(got["feasible"]) != all(want.values()) or abs(got["objective"] - objective(p, s)) > 1e-9:
        bad("solution %r reported feasible %r with objective %r" % (s, got["feasible"], got["objective"]))
    if dict(got["feas_constraints"][0]) != want:
        bad("satisfied constraints %r instead of %r" % (got["feas_constraints"], want))
    feas = [x for x, _ in drawn if all(holds(c, x) for c in p["cons"])]
    if feas and (not got["feasible"] or objective(p, s) != min(objective(p, x) for x in feas)):
        bad("solution %r is not a best feasible sample" % s)
    if not feas and got["energy"] != min(e for _, e in drawn):
        bad("solution of energy %r, lowest is %r" % (got["energy"], min(e for _, e in drawn)))
    if v["info"] != {"run": p["seed"]}:
        bad("information of the run %r" % (v["info"],))
    if p["method"] in ("bqm", "cqm") and (not isinstance(v["props"], dict) or v["props"].get("minimum_time_limit_s") != p["limit"]):
        bad("time limit %r instead of %r" % (v["props"], p["limit"]))
    # the stand-in solver takes two milliseconds
    if not isinstance(v["time"], (int, float)) or not 0.0005 <= v["time"] <= v["wall"] + 0.05:
        bad("computing time %r of a run that took between 0.002 and %.3f seconds" % (v["time"], v["wall"]))
    return len(drawn) > 1 and bool(p["cons"])


solve_check = check("quantum.solve", mk_solve, judge_solve, BOUND)

STATIONS = ["A", "KO", "KO(STM)", "Zory-Pn", "Ty z_1", "y_B", "Nedza Wies", "via Gt", "z"]


def mk_sizes(rng):
    st = rng.sample(STATIONS, rng.randint(1, 4))
    ts = rng.sample(range(1, 99), rng.randint(1, 3))
    vs = [("Delays_%d_%s" % (t, s), False) for t in ts for s in st if rng.random() < 0.8]
    for a in ts:
        for b in ts:
            if a < b:
                for s in st:
                    vs += [(n, True) for n in ("y_%d_%d_one_station_%s" % (a, b, s), "z_in_%d_%d_%s" % (a, b, s)) if rng.random() < 0.4]
    vs = vs or [("Delays_1_A", False)]
    co = lambda: rng.choice([0, 0, 1, -2, 0.5])
    n = rng.randint(1, 4)
    return {"vars": vs, "cons": rng.randint(0, 4), "linear": [("b%d" % i, co()) for i in range(n)],
            "quadratic": [(("b%d" % i, "b%d" % j), co()) for i in range(n) for j in range(i)]}


def judge_sizes(p, v, bad):
    o = sum(x for _, x in p["vars"])
    want = (o, len(p["vars"]) - o, p["cons"])
    if tuple(v["count"]) != want:
        bad("sizes %r instead of %r" % (v["count"], want))
    if tuple(v["printed"]) != want:
        bad("sizes printed %r instead of %r" % (v["printed"], want))
    w = (sum(c != 0 for _, c in p["linear"]), sum(c != 0 for _, c in p["quadratic"]))
    if tuple(v["bqm"]) != w:
        bad("fields and couplings %r instead of %r" % (v["bqm"], w))
    return 0 < o < len(p["vars"])


sizes_check = check("quantum.sizes", mk_sizes, judge_sizes, "up to 3 trains, 4 stations, 4 constraints, 4 binary variables")
