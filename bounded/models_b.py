"""sample analysis (C10) and conversions of integer programs (C11, C12)"""
import itertools

from .core import Finding, need_ok, run_jobs, stats

KINDS = ["minimal_span", "circulation", "single_line", "minimal_stay", "track_occupation", "switch"]
EQ, LE, GE = 0, -1, 1


def program(rng, nv, nc, top=5, binary=0.5, half=False, strict=False, lows=False):
    """random bounded integer program: variables, named constraints, objective"""
    names = rng.sample(["x", "y", "z_1", "Delays_1_A", "y_1_2_A", "w", "x1"], nv)
    vs = [(n, 0, 1 if rng.random() < binary else 0 if not strict and rng.random() < 0.12 else rng.randint(2, top), "Integer") for n in names]
    if lows:
        vs = [(n, rng.randint(1, up - 1), up, c) if up > 1 and rng.random() < 0.4 else (n, lo, up, c) for n, lo, up, c in vs]
    step = 2 if half else 1
    cons = []
    while len(cons) < nc:
        ks = rng.sample(vs, rng.randint(1, min(3, nv)))
        co = [(v[0], rng.choice([-3, -2, -1, 1, 1, 2, 3]) / (step if half else 1)) for v in ks]
        co = [(n, int(c) if c == int(c) and rng.random() < 0.7 else c) for n, c in co]
        bd = {v[0]: v[1:3] for v in vs}
        lo_e = sum(min(c * x for x in bd[n]) for n, c in co)
        hi_e = sum(max(c * x for x in bd[n]) for n, c in co)
        const = -rng.randint(int(lo_e) - (0 if strict else 1), int(hi_e) + (0 if strict else 1))
        sense = rng.choice([EQ, LE, GE])
        if strict and (sense == LE and lo_e + const >= 0 or sense == GE and hi_e + const <= 0):
            continue
        cons.append(("%s_%d_%s" % (rng.choice(KINDS), len(cons), rng.choice("AB")), sense, const, co))
    obj = (rng.choice([0, 0, 3, -2]), [(v[0], rng.choice([-2, -1, 1, 2, 0.5] if half else [-2, -1, 1, 2])) for v in rng.sample(vs, rng.randint(1, nv))])
    used = {n for c in cons for n, _ in c[3]} | {n for n, _ in obj[1]}
    return {"vars": [v for v in vs if v[0] in used], "cons": cons, "obj": obj}


def holds(con, s):
    _, sense, const, co = con
    t = const + sum(c * s[n] for n, c in co)
    return t == 0 if sense == EQ else t <= 0 if sense == LE else t >= 0


def objective(p, s):
    return p["obj"][0] + sum(c * s[n] for n, c in p["obj"][1])


def results_check(repo, rng, count, jobs=None):
    if jobs is None:
        jobs = []
        for _ in range(count):
            p = program(rng, rng.randint(1, 4), rng.randint(0, 4), half=rng.random() < 0.4)
            n = rng.randint(1, 6)
            p["samples"] = [{v[0]: rng.randint(v[1], v[2]) for v in p["vars"]} for _ in range(n)]
            p["energies"] = [rng.choice([-3, -1.5, 0, 1, 2, 7]) for _ in range(n)]
            jobs.append(("models.results", p))
    for j, r in zip(jobs, run_jobs(repo, jobs)):
        p, r = j[1], need_ok(j, r)

        def bad(what):
            raise Finding(what, j, r)

        def judge(s, an, ob, what):
            flags, cnt = an
            want = {c[0]: holds(c, s) for c in p["cons"]}
            if dict(flags) != want:
                bad("%s: satisfied constraints %r instead of %r" % (what, flags, want))
            if cnt != sum(want.values()):
                bad("%s: %r constraints counted satisfied instead of %d" % (what, cnt, sum(want.values())))
            if abs(ob - objective(p, s)) > 1e-9:
                bad("%s: objective %r instead of %r" % (what, ob, objective(p, s)))
            return all(want.values())
        for s, an, ob in zip(p["samples"], r["an"], r["ob"]):
            judge(s, an, ob, "analysis of %r" % s)
        for x in r["res"]:
            f = judge(x["sample"], x["feas_constraints"], x["objective"], "result for %r" % x["sample"])
            if bool(x["feasible"]) != f:
                bad("feasible=%r for %r" % (x["feasible"], x["sample"]))
        key = lambda s, e: (sorted(s.items()), e)
        if sorted(key(s, e) for s, e in zip(p["samples"], p["energies"])) != sorted(key(x["sample"], x["energy"]) for x in r["res"]):
            bad("results do not contain every sample once")
        ob = [x["objective"] for x in r["res"]]
        if ob != sorted(ob):
            bad("results not ordered by objective: %r" % ob)
        feas = [x for x in r["res"] if all(holds(c, x["sample"]) for c in p["cons"])]
        best = r["best"]
        if feas:
            if not all(holds(c, best["sample"]) for c in p["cons"]) or objective(p, best["sample"]) != min(objective(p, x["sample"]) for x in feas):
                bad("selected %r, not a best feasible sample" % (best["sample"],))
        elif best["energy"] != min(p["energies"]):
            bad("selected energy %r, lowest is %r" % (best["energy"], min(p["energies"])))
        if key(best["sample"], best["energy"]) not in [key(x["sample"], x["energy"]) for x in r["res"]]:
            bad("the selected sample is not one of the results")
    return stats(jobs, [j for j in jobs if len(j[1]["samples"]) > 1 and j[1]["cons"]], "up to 4 variables, 4 constraints, 6 samples")


def cqm_check(repo, rng, count, jobs=None):
    if jobs is None:
        jobs = [("models.cqm", program(rng, rng.randint(1, 4), rng.randint(0, 4), half=rng.random() < 0.4)) for _ in range(count)]
    for j, r in zip(jobs, run_jobs(repo, jobs)):
        p, r = j[1], need_ok(j, r)

        def bad(what):
            raise Finding(what, j, r)
        want = {n: ("BINARY" if (lo, up) == (0, 1) else "INTEGER", lo, up) for n, lo, up, _ in p["vars"]}
        if {n: tuple(x) for n, x in r["vars"].items()} != want:
            bad("variables %r instead of %r" % (r["vars"], want))
        if set(r["cons"]) != {c[0] for c in p["cons"]}:
            bad("constraints %r" % sorted(r["cons"]))
        ev = lambda e, s: e[0] + sum(c * s[n] for n, c in e[1].items())
        for vals in itertools.product(*[range(v[1], v[2] + 1) for v in p["vars"]]):
            s = dict(zip([v[0] for v in p["vars"]], vals))
            for c in p["cons"]:
                lhs, sense, rhs = r["cons"][c[0]]
                d = ev(lhs, s) - rhs
                g = d == 0 if sense == "==" else d <= 0 if sense == "<=" else d >= 0
                if g != holds(c, s):
                    bad("%s at %r: %r in the constrained model, %r in the program" % (c[0], s, g, holds(c, s)))
            if abs(ev(r["obj"], s) - objective(p, s)) > 1e-9:
                bad("objective %r at %r instead of %r" % (ev(r["obj"], s), s, objective(p, s)))
    return stats(jobs, [j for j in jobs if j[1]["cons"]], "up to 4 variables with ranges up to 5, 4 constraints, all assignments")


PRIMES = [101, 257, 1009, 53, 409, 787, 2003]


def bqm_check(repo, rng, count, jobs=None):
    if jobs is None:
        jobs = []
        while len(jobs) < count:
            p = program(rng, rng.randint(1, 3), rng.randint(0, 2), top=4, strict=True, lows=True)
            w = rng.sample(PRIMES, len(KINDS))
            p["weights"] = dict(zip(KINDS, w), objective=rng.choice([1, 2]))
            p["maxbits"] = 12
            jobs.append(("models.bqm", p))
    done = []
    for j, r in zip(jobs, run_jobs(repo, jobs)):
        p, r = j[1], need_ok(j, r)

        def bad(what):
            raise Finding(what, j, r)
        if "best" not in r:
            continue
        done.append(j)
        if r["same"] > 1e-6:
            bad("the two returned forms of the model differ in energy by %r" % r["same"])
        if r["n"] != r["want"]:
            bad("%d samples decoded to %d" % (r["want"], r["n"]))
        names = [v[0] for v in p["vars"]]
        seen = {}
        for k, e in r["best"].items():
            d = dict(k)
            if not set(names) <= set(d):
                bad("decoded sample %r lacks program variables" % d)
            if not all(v[1] <= d[v[0]] <= v[2] for v in p["vars"]):
                bad("a sample decodes to %r, outside the bounds" % d)
            seen[tuple(d[n] for n in names)] = min(e, seen.get(tuple(d[n] for n in names), e))
        for vals in itertools.product(*[range(v[1], v[2] + 1) for v in p["vars"]]):
            s = dict(zip(names, vals))
            if vals not in seen:
                bad("no sample decodes to %r" % s)
            ex = seen[vals] - p["weights"]["objective"] * objective(p, s)
            viol = [p["weights"][[k for k in KINDS if c[0].startswith(k)][0]] for c in p["cons"] if not holds(c, s)]
            if not viol and abs(ex) > 1e-6:
                bad("feasible %r costs %r above its objective" % (s, ex))
            if viol and ex < min(viol) - 1e-6:
                bad("%r violates constraints with weights %r and costs only %r above its objective" % (s, viol, ex))
            if len(set(viol)) == 1 and abs(ex / viol[0] - round(ex / viol[0])) > 1e-6:
                bad("%r violates constraints of weight %r but costs %r above its objective" % (s, viol[0], ex))
    return stats(jobs, done, "up to 3 variables, 2 constraints, 12 bits, all assignments")
