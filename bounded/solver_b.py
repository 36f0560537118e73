"""Bounded runs of the linear model: random small instances of the real code
against an independent specification, decided with z3 for every schedule of the
instance."""
import itertools
import random
import z3
from .core import run_jobs, need_ok, Finding


# ---------------------------------------------------------------- instances

TRAINS = [1, 11, 12, 101, 19, 119, 2, 21]
STATIONS = ["A", "B", "AB", "C", "BA"]


def instance(rng, focus=None, only=False):
    """train sets and timetable meeting the preconditions of DESIGN.md"""
    n = rng.choice([2, 2, 3, 3, 4])
    J = sorted(rng.sample(TRAINS, n), key=lambda j: rng.random())
    line = rng.sample(STATIONS, rng.choice([2, 3, 3, 4]))
    star = rng.random() < 0.2
    dense = rng.random() < 0.6  # trains that compete for the same places at close times
    P = {}
    for j in J:
        if dense and not star and rng.random() < 0.8:
            P[j] = list(line)
            if rng.random() < 0.3:
                P[j] = P[j][::-1]
            continue
        if star:
            P[j] = rng.sample(line, rng.randint(2, len(line)))
            continue
        a = rng.randint(0, len(line) - 2)
        b = rng.randint(a + 1, len(line) - 1)
        P[j] = line[a:b + 1]
        if rng.random() < 0.4:
            P[j] = P[j][::-1]
    want = lambda fam: (focus == fam) or (not only and rng.random() < 0.6)
    ts = {"J": J, "Paths": P, "Jd": {}, "Josingle": {}, "Jround": {}, "Jtrack": {}, "Jswitch": {}}
    prev = {(j, s): (p[k - 1] if k else None) for j, p in P.items() for k, s in enumerate(p)}
    nxt = {(j, s): (p[k + 1] if k + 1 < len(p) else None) for j, p in P.items() for k, s in enumerate(p)}
    # turnarounds
    used_a, used_b = set(), set()
    if want("round"):
        for a, b in itertools.permutations(J, 2):
            if P[a][-1] == P[b][0] and a not in used_a and b not in used_b and rng.random() < 0.8 \
                    and not _reaches(ts["Jround"], b, a):
                ts["Jround"].setdefault(P[a][-1], []).append((a, b))
                used_a.add(a)
                used_b.add(b)
    # lines
    if want("d"):
        for s in line:
            for sp in line:
                js = [j for j in J if nxt.get((j, s)) == sp]
                if js:
                    if rng.random() < 0.8:
                        gr = [js]
                    else:
                        k = rng.randint(1, len(js))
                        gr = [g for g in (js[:k], js[k:]) if g]
                    ts["Jd"].setdefault(s, {})[sp] = gr
    # single tracks
    if want("single"):
        for s, sp in itertools.combinations(line, 2):
            if rng.random() < 0.5:
                s, sp = sp, s
            ps = [(a, b) for a in J for b in J if nxt.get((a, s)) == sp and nxt.get((b, sp)) == s and rng.random() < 0.9]
            if ps:
                ts["Josingle"][(s, sp)] = ps
    # station tracks
    if want("track"):
        for s in line:
            js = [j for j in J if s in P[j]]
            links = ts["Jround"].get(s, [])
            tracks = 1 if dense else rng.choice([1, 1, 2])
            col = {j: rng.randrange(tracks) for j in js}
            for _ in range(3):
                for a, b in links:
                    col[a] = col[b] = min(col[a], col[b])
            gr = [[j for j in js if col[j] == c] for c in range(tracks)]
            gr = [g for g in gr if g]
            if gr and rng.random() < 0.9:
                ts["Jtrack"][s] = gr
    # switches
    if want("switch"):
        for s in line:
            for a, b in itertools.combinations([j for j in J if s in P[j]], 2):
                for da in ("in", "out"):
                    for db in ("in", "out"):
                        ok = all((prev[(j, s)] is not None) if d == "in" else (nxt[(j, s)] is not None) for j, d in ((a, da), (b, db)))
                        if ok and rng.random() < 0.55:
                            ts["Jswitch"].setdefault(s, []).append({a: da, b: db} if rng.random() < 0.5 else {b: db, a: da})
    if rng.random() < 0.5:
        sk = {}
        for j in J:
            # the last station, unless the stock is handed on there
            if len(P[j]) > 1 and j not in used_a and rng.random() < 0.5:
                sk[j] = P[j][-1]
        ts["skip_station"] = sk
    if rng.random() < 0.3:
        ts["add_swithes_at_s"] = rng.sample(line, rng.randint(0, len(line)))
    num = (lambda a, b: rng.randint(a, b)) if rng.random() < 0.7 else (lambda a, b: rng.randint(2 * a, 2 * b) / 2)
    tau = {"pass": {}, "headway": {}, "stop": {}, "prep": {}, "res": num(0, 4)}
    sched, init, w = {}, {}, {}
    for j in J:
        for k, s in enumerate(P[j]):
            if k:
                tau["pass"]["%s_%s_%s" % (j, P[j][k - 1], s)] = num(1, 9)
            tau["stop"]["%s_%s" % (j, s)] = num(0, 4)
            tau["prep"]["%s_%s" % (j, s)] = num(0, 6)
            if rng.random() < (0.2 if dense else 0.6):
                sched["%s_%s" % (j, s)] = num(0, 25)
            if k == 0 or rng.random() < 0.1:
                init["%s_%s" % (j, s)] = num(-3, 5 if dense else 15)
            if rng.random() < 0.5 and ts.get("skip_station", {}).get(j) != s and not (k + 1 == len(P[j]) and j in used_a):
                w["%s_%s" % (j, s)] = rng.choice([0.0, 0.5, 1, 2, 1.5])
            if k + 1 < len(P[j]):
                for jp in J:
                    if jp != j and nxt.get((jp, s)) == P[j][k + 1]:
                        tau["headway"]["%s_%s_%s_%s" % (j, jp, s, P[j][k + 1])] = num(0, 7)
    tt = {"tau": tau, "initial_conditions": init, "penalty_weights": w}
    if rng.random() < 0.85:
        tt["schedule"] = sched
    return {"train_sets": ts, "timetable": tt, "d_max": rng.choice([3, 5, 10, 20]), "cat": rng.choice(["Integer", "Integer", "Continuous"])}


def _reaches(rounds, a, b):
    nxt = {x: y for l in rounds.values() for x, y in l}
    while a is not None and a != b:
        a = nxt.get(a)
    return a == b


def valid(p):
    """preconditions of an instance (used on instances decoded from counter-models)"""
    ts, tt = p["train_sets"], p["timetable"]
    P, J = ts["Paths"], ts["J"]
    if not J or len(set(J)) != len(J) or any(j not in P or len(P[j]) < 1 or len(set(P[j])) != len(P[j]) for j in J):
        return False
    if not p["d_max"] > 0:
        return False
    tau = tt["tau"]
    num = list(tau["pass"].values()) + list(tau["stop"].values()) + list(tau["prep"].values()) + list(tau["headway"].values()) + [tau["res"]]
    return all(v >= 0 for v in num)


# ---------------------------------------------------------------- specification

class Spec:
    def __init__(self, p):
        self.p = p
        self.ts, self.tt, self.dmax = p["train_sets"], p["timetable"], p["d_max"]
        self.P, self.J = self.ts["Paths"], self.ts["J"]
        self.int = p["cat"] == "Integer"
        self.tau = self.tt["tau"]
        self.rules = []  # (property, formula)
        self.orders = {}
        self.round = {(s, a): b for s, l in self.ts["Jround"].items() for a, b in l}
        self.round_from = {(s, b): a for s, l in self.ts["Jround"].items() for a, b in l}

    def prev(self, j, s):
        i = self.P[j].index(s)
        return self.P[j][i - 1] if i else None

    def earliest(self, j, s):
        p = self.P[j]
        i = p.index(s)
        k = i
        while "%s_%s" % (j, p[k]) not in self.tt["initial_conditions"]:
            k -= 1
        t = self.tt["initial_conditions"]["%s_%s" % (j, p[k])]
        while True:
            sc = self.tt.get("schedule", {}).get("%s_%s" % (j, p[k]))
            if sc is not None and sc > t:
                t = sc
            if k == i:
                return t
            k += 1
            t = t + self.tau["pass"]["%s_%s_%s" % (j, p[k - 1], p[k])] + self.tau["stop"]["%s_%s" % (j, p[k])]

    def skipped(self, j, s):
        return self.ts.get("skip_station", {}).get(j) == s

    def has_var(self, j, s):
        return s in self.P[j] and not self.skipped(j, s) and (s, j) not in self.round

    def name(self, j, s):
        return "Delays_%s_%s" % (j, s)

    def D(self, j, s):
        if not self.has_var(j, s):
            raise KeyError((j, s))
        return (z3.Int if self.int else z3.Real)(self.name(j, s))

    def all_d(self):
        return [self.D(j, s) for j in self.J for s in self.P[j] if self.has_var(j, s)]

    def t(self, j, s):
        return z3.Q(*_frac(self.earliest(j, s))) + _real(self.D(j, s))

    def passing(self, j, a, b):
        return z3.Q(*_frac(self.tau["pass"]["%s_%s_%s" % (j, a, b)]))

    def _o(self, a, b, name):
        """order symbol: a before b, where a, b are keys; the symbol is shared with the reverse"""
        ka, kb = str(a), str(b)
        n = "%s(%s;%s)" % (name, min(ka, kb), max(ka, kb))
        v = self.orders.setdefault(n, z3.Bool(n))
        return v if ka < kb else z3.Not(v)

    def o3(self, a, b, s):
        return self._o(a, b, "o3@%s" % s)

    def o4(self, a, s, b, sp):
        return self._o((a, s), (b, sp), "o4")

    def oin(self, a, b, s):
        return self._o(a, b, "oin@%s" % s)

    def same_stock(self, a, b):
        return any((x, y) in ((a, b), (b, a)) for l in self.ts["Jround"].values() for x, y in l)

    def overtake(self, a, b, s):
        """both arrive at s over different lines or tracks"""
        sp, spp = self.prev(a, s), self.prev(b, s)
        if not self.ts["Jd"] or sp is None or spp is None:
            return False
        if sp != spp:
            return True
        return not any(a in g and b in g for g in self.ts["Jd"][sp][s])

    def build(self):
        R = self.rules.append
        for s, d in self.ts["Jd"].items():
            for sp, groups in d.items():
                for g in groups:
                    for a, b in itertools.permutations(g, 2):
                        h = z3.Q(*_frac(self.tau["headway"]["%s_%s_%s_%s" % (a, b, s, sp)]))
                        R(("C01", z3.Implies(self.o3(a, b, s), self.t(b, s) >= self.t(a, s) + h)))
        for (s, sp), l in self.ts["Josingle"].items():
            for j, jp in l:
                if self.same_stock(j, jp):
                    continue
                for a, sa, b, sb in ((j, s, jp, sp), (jp, sp, j, s)):
                    R(("C02", z3.Implies(self.o4(a, sa, b, sb), self.t(b, sb) >= self.t(a, sa) + self.passing(a, sa, sb))))
        for j in self.J:
            for a, b in zip(self.P[j], self.P[j][1:]):
                if self.has_var(j, b):
                    R(("C03", self.t(j, b) >= self.t(j, a) + self.passing(j, a, b) + z3.Q(*_frac(self.tau["stop"]["%s_%s" % (j, b)]))))
        for s, l in self.ts["Jround"].items():
            for a, b in l:
                sp = self.prev(a, s)
                R(("C06", self.t(b, s) >= self.t(a, sp) + self.passing(a, sp, s) + z3.Q(*_frac(self.tau["prep"]["%s_%s" % (b, s)]))))
        for s, groups in self.ts["Jtrack"].items():
            for g in groups:
                for x, y in itertools.combinations(g, 2):
                    if self.same_stock(x, y):
                        continue
                    for a, b in ((x, y), (y, x)):
                        if not self.skipped(a, s):
                            self.track(R, s, a, b)
                    self.keep(R, s, x, y)
        for s, l in self.ts["Jswitch"].items():
            for pair in l:
                (x, y) = pair
                if self.same_stock(x, y):
                    continue
                for a, b in ((x, y), (y, x)):
                    sa = s if pair[a] == "out" else self.prev(a, s)
                    sb = s if pair[b] == "out" else self.prev(b, s)
                    if sa == sb:
                        o = self.oin(a, b, s) if sa != s and self.overtake(a, b, s) else self.o3(a, b, sa)
                    elif s in (sa, sb):
                        o = self.o4(a, sa, b, sb)
                    else:
                        o = self.oin(a, b, s)
                    at = lambda j, d: self.t(j, d) if d == s else self.t(j, d) + self.passing(j, d, s)
                    R(("C05", z3.Implies(o, at(b, sb) >= at(a, sa) + z3.Q(*_frac(self.tau["res"])))))
        return self

    def track(self, R, s, a, b):
        """a first, b second on the track of s"""
        nxt = self.round.get((s, a))
        if nxt is not None:
            R(("C04", self.o3(b, a, s) == self.o3(b, nxt, s)))
            return
        giver = self.round_from.get((s, b))
        sp = self.prev(b, s)
        if giver is not None:
            q = self.prev(giver, s)
            arr = self.t(giver, q) + self.passing(giver, q, s)
        elif sp is not None:
            arr = self.t(b, sp) + self.passing(b, sp, s)
        else:
            arr = z3.Q(*_frac(self.earliest(b, s)))
        dep = self.t(a, s)
        if s in self.ts.get("add_swithes_at_s", []):
            dep = dep + z3.Q(*_frac(self.tau["res"]))
        R(("C04", z3.Implies(self.o3(a, b, s), arr >= dep)))

    def keep(self, R, s, j, jp):
        """both arrive over one line without overtaking: the order of the line is kept"""
        sp, spp = self.prev(j, s), self.prev(jp, s)
        if sp is None or s not in self.ts["Jd"].get(sp, {}):
            return
        if self.overtake(j, jp, s):
            both_in = any(p.get(j) == "in" and p.get(jp) == "in" for p in self.ts["Jswitch"].get(s, []))
            if both_in:
                R(("C04", self.oin(j, jp, s) == self.o3(j, jp, s)))
        elif spp == sp:
            R(("C04", self.o3(j, jp, s) == self.o3(j, jp, sp)))


def _frac(x):
    from fractions import Fraction
    f = Fraction(x)
    return f.numerator, f.denominator


def _real(x):
    return z3.ToReal(x) if z3.is_int(x) else x


# ---------------------------------------------------------------- comparison

def components(items):
    """group (symbols, formula) pairs by shared symbols"""
    out = []
    for syms, f in items:
        syms, fs = set(syms), [f]
        keep = []
        for s2, f2 in out:
            if syms & s2:
                syms |= s2
                fs = f2 + fs
            else:
                keep.append((s2, f2))
        out = keep + [(syms, fs)]
    return out


def symbols(f, pool):
    seen, todo, res = set(), [f], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and str(x) in pool:
            res.add(str(x))
        todo += x.children()
    return res


class LP:
    def __init__(self, d, sp):
        self.d = d
        delays = {str(x): x for x in sp.all_d()}
        self.v, self.extra = {}, {}
        for n, infos in d["vars"].items():
            if n in delays:
                self.v[n] = delays[n]
            else:
                self.v[n] = (z3.Int if all(c == "Integer" for _, _, c in infos) else z3.Real)("v " + n)
                self.extra["v " + n] = self.v[n]
        self.bounds = []
        self.free = set()
        for n, infos in d["vars"].items():
            for lo, up, c in infos:
                b = []
                if lo is not None:
                    b.append(_real(self.v[n]) >= z3.Q(*_frac(lo)))
                if up is not None:
                    b.append(_real(self.v[n]) <= z3.Q(*_frac(up)))
                self.bounds += [(n, x) for x in b]
                if c != "Integer" or (lo, up) != (0, 1):
                    self.free.add("v " + n)
        self.cons = [(n, self.con(s, k, co)) for n, s, k, co in d["cons"]]

    def con(self, sense, const, coef):
        e = z3.Q(*_frac(const))
        for n, k in coef.items():
            e = e + z3.Q(*_frac(k)) * _real(self.v[n])
        return e == 0 if sense == 0 else e <= 0 if sense == -1 else e >= 0

    def formula(self):
        return [f for _, f in self.bounds] + [f for _, f in self.cons]


def exists(syms, fs, bools, ints=None):
    """∃ syms. ∧ fs, expanded; syms over Booleans or 0/1 integers"""
    f = z3.And(fs)
    if len(syms) > 7:
        return z3.Exists([s for s in syms], z3.And([f] + ([] if bools else [z3.And(s >= 0, s <= 1) for s in syms])))
    vals = (z3.BoolVal(False), z3.BoolVal(True)) if bools else (z3.IntVal(0), z3.IntVal(1))
    return z3.Or([z3.substitute(f, *zip(syms, c)) if syms else f for c in itertools.product(vals, repeat=len(syms))])


def solve(cs, ms=4000):
    s = z3.Solver()
    s.set("timeout", ms)
    s.add(cs)
    return s.check(), s


def model_schedule(s, sp):
    m = s.model()
    return {str(d): str(m.eval(d, model_completion=True)) for d in sp.all_d()}


def sound(job, d, sp, props):
    """every schedule of the model satisfies the rules of props"""
    lp = LP(d, sp)
    base = lp.formula() + [z3.And(x >= 0, _real(x) <= z3.Q(*_frac(sp.dmax))) for x in sp.all_d()]
    items = [(symbols(f, sp.orders) or {"rule%d" % n}, f) for n, (p, f) in enumerate(sp.rules) if p in props]
    n = 0
    for syms, fs in components(items):
        vs = [sp.orders[x] for x in sorted(syms) if x in sp.orders]
        r, s = solve(base + [z3.Not(exists(vs, fs, True))])
        n += r == z3.unsat
        if r == z3.sat:
            raise Finding("the model admits a schedule that breaks %s" % "/".join(sorted(props)), job,
                          {"schedule": model_schedule(s, sp), "broken": [str(f) for f in fs]})
    return n


def exact(job, d, sp):
    """every schedule meeting all rules is admitted by the model"""
    lp = LP(d, sp)
    base = [f for _, f in sp.rules] + [z3.And(x >= 0, _real(x) <= z3.Q(*_frac(sp.dmax))) for x in sp.all_d()]
    items = [(symbols(f, lp.extra) or {"con %d" % n}, (nm, f)) for n, (nm, f) in enumerate(lp.bounds + lp.cons)]
    n = 0
    for syms, fs in components(items):
        vs = [lp.extra[x] for x in sorted(syms) if x in lp.extra]
        f = [x for _, x in fs]
        if any(str(v) in lp.free for v in vs):
            body = z3.Not(z3.Exists(vs, z3.And(f)))
        else:
            body = z3.Not(exists(vs, f, False))
        r, s = solve(base + [body])
        n += r == z3.unsat
        if r == z3.sat:
            raise Finding("the model excludes a schedule that meets all conditions", job,
                          {"schedule": model_schedule(s, sp), "constraints": sorted({x for x, _ in fs})})
    return n


FOCUS = {"C01": ("d", {"d"}), "C02": ("single", {"single"}), "C03": (None, set()), "C04": ("track", {"track"}),
         "C05": ("switch", {"switch"}), "C06": ("round", {"round"})}
EXACT_WITH = {"C02": ["round"], "C04": ["d", "round", "switch"], "C05": ["round", "d"], "C01": [], "C03": ["round"], "C06": []}


def family_check(prop, repo, rng, count, jobs=None):
    """sound on full instances, exact on instances with the family (and what it needs) only"""
    fam = FOCUS[prop][0]
    given = jobs
    jobs = jobs or []
    while given is None and len(jobs) < count:
        p = instance(rng, fam, only=len(jobs) % 2 == 1)
        if len(jobs) % 2 == 1:  # rebuild with the companions of the family
            p = instance_with(rng, fam, EXACT_WITH[prop])
        jobs.append(("solver.lp", p))
    res = run_jobs(repo, jobs)
    stat = {"instances": len(jobs), "sound": 0, "exact": 0, "nontrivial": 0, "samples": []}
    for job, r in zip(jobs, res):
        d = need_ok(job, r)
        sp = Spec(job[1]).build()
        stat["sound"] += sound(job, d, sp, {prop})
        if prop == "C04":  # the orders it shares with lines and switches
            stat["sound"] += sound(job, d, sp, {"C01", "C02", "C04", "C05"})
        stat["exact"] += exact(job, d, sp)
        if any(p == prop for p, _ in sp.rules):
            stat["nontrivial"] += 1
            if len(stat["samples"]) < 1:
                stat["samples"].append(repr(job[1])[:600])
    return stat


def instance_with(rng, fam, companions):
    class R(random.Random):
        pass
    p = instance(rng, fam, only=True)
    for c in companions:
        if rng.random() < 0.6:
            q = None
            break
    else:
        return p
    # draw full instances and drop what is not a companion
    p = instance(rng, fam)
    keep = {fam} | set(companions)
    ts = p["train_sets"]
    for f, k in (("d", "Jd"), ("single", "Josingle"), ("track", "Jtrack"), ("switch", "Jswitch")):
        if f not in keep:
            ts[k] = {}
    return p


# ---------------------------------------------------------------- C07

def long_instance(rng):
    """paths and timetables with any subset of schedules and initial conditions"""
    names = ["A", "B", "AB", "C", "BA", "KO", "KO1", "Z_Y"[:1]]
    P = {}
    for j in rng.sample(TRAINS, rng.randint(1, 3)):
        P[j] = rng.sample(names, rng.randint(1, len(names)))
    num = (lambda a, b: rng.randint(a, b)) if rng.random() < 0.7 else (lambda a, b: rng.randint(2 * a, 2 * b) / 2)
    tau = {"pass": {}, "headway": {}, "stop": {}, "prep": {}, "res": 1}
    sched, init, ask = {}, {}, []
    for j, p in P.items():
        f = rng.choice([0, 0, 0, rng.randrange(len(p))])
        dens, more = rng.choice([0, 0.3, 0.8, 1]), rng.choice([0, 0.15, 0.5])
        for k, s in enumerate(p):
            if k:
                tau["pass"]["%s_%s_%s" % (j, p[k - 1], s)] = num(0, 9)
            tau["stop"]["%s_%s" % (j, s)] = num(0, 4)
            tau["prep"]["%s_%s" % (j, s)] = num(0, 4)
            if rng.random() < dens:
                sched["%s_%s" % (j, s)] = num(-9, 60)
            if k == f or (k > f and rng.random() < more):
                init["%s_%s" % (j, s)] = num(-12, 40)
            if k >= f:
                ask.append((j, s))
    tt = {"tau": tau, "initial_conditions": init, "penalty_weights": {}}
    if rng.random() < 0.8:
        tt["schedule"] = sched
    return {"S": P, "timetable": tt, "ask": ask}


def earliest_check(repo, rng, count, jobs=None):
    jobs = jobs or [("solver.earliest", long_instance(rng)) for _ in range(count)]
    st = {"instances": len(jobs), "nontrivial": 0, "samples": [repr(jobs[0][1])[:600]]}
    for job, r in zip(jobs, run_jobs(repo, jobs)):
        got = need_ok(job, r)
        p = job[1]
        sp = Spec({"train_sets": {"Paths": p["S"], "J": list(p["S"]), "Jround": {}}, "timetable": p["timetable"], "d_max": 1, "cat": "Integer"})
        for j, s in p["ask"]:
            want = sp.earliest(j, s)
            if got[(j, s)] != want:
                raise Finding("earliest departure of train %s from %s is %s, not %s" % (j, s, got[(j, s)], want), job, got)
            st["nontrivial"] += sp.prev(j, s) is not None
    return st


# ---------------------------------------------------------------- C08, C09

ALL = {"C01", "C02", "C03", "C04", "C05", "C06"}


def variables_check(repo, rng, count, jobs=None):
    """delay variables are those of the specification; the order decisions are shared by all conditions"""
    jobs = jobs or [("solver.lpvars", instance(rng)) for _ in range(count)]
    st = {"instances": len(jobs), "sound": 0, "exact": 0, "nontrivial": 0, "samples": [repr(jobs[0][1])[:600]]}
    for job, r in zip(jobs, run_jobs(repo, jobs)):
        got = need_ok(job, r)
        p = job[1]
        sp = Spec(p).build()
        want = {(j, s) for j in sp.J for s in sp.P[j] if sp.has_var(j, s)}
        if got["delay"] is not None:
            keys = [k for k, _, _, _ in got["delay"]]
            if len(set(keys)) != len(keys) or set(keys) != want:
                raise Finding("delay variables for %s, expected %s" % (sorted(map(str, keys)), sorted(map(str, want))), job)
            for k, lo, up, cat in got["delay"]:
                if (lo, up, cat) != (0, p["d_max"], p["cat"]):
                    raise Finding("delay variable %s has bounds %s..%s and kind %s" % (k, lo, up, cat), job)
        names = {sp.name(j, s) for j, s in want}
        d = got["lp"]
        for n, infos in d["vars"].items():
            if len(infos) > 1:
                raise Finding("several variables are called %s" % n, job)
            lo, up, cat = infos[0]
            if n in names:
                if (lo, up, cat) != (0, p["d_max"], p["cat"]):
                    raise Finding("delay variable %s has bounds %s..%s and kind %s" % (n, lo, up, cat), job)
            elif (lo, up, cat) not in ((0, 1, "Integer"), (0, 1, "Binary")):
                raise Finding("variable %s is neither a delay nor a binary order decision: %s..%s %s" % (n, lo, up, cat), job)
        extra = [n for n in d["vars"] if n not in names]
        if len(extra) > len(sp.orders):
            raise Finding("%d order variables for %d places" % (len(extra), len(sp.orders)), job, extra)
        st["sound"] += sound(job, d, sp, ALL)
        st["exact"] += exact(job, d, sp)
        st["nontrivial"] += bool(sp.orders)
    return st


def close(a, b):
    return abs(float(a) - float(b)) <= 1e-9 * (1 + abs(float(b)))


def reports_check(repo, rng, count, jobs=None):
    if jobs is None:
        jobs = []
        for _ in range(count):
            p = instance(rng)
            p["values"] = [rng.randint(0, 20) for _ in range(7)]
            jobs.append(("solver.reports", p))
    st = {"instances": len(jobs), "nontrivial": 0, "samples": [repr(jobs[0][1])[:600]]}
    for job, r in zip(jobs, run_jobs(repo, jobs)):
        got = need_ok(job, r)
        p = job[1]
        sp = Spec(p)
        w = lambda j, s: p["timetable"]["penalty_weights"].get("%s_%s" % (j, s), 0)
        const, co = got["lp"]["obj"] or (0, {})
        want = {}
        for j in sp.J:
            for s in sp.P[j]:
                if w(j, s):
                    want[sp.name(j, s)] = w(j, s) / p["d_max"]
        if not close(const, 0) or {n for n, k in co.items() if k} != set(want) or not all(close(co[n], want[n]) for n in want):
            raise Finding("objective is %s, expected %s" % (co, want), job)
        if got["lp"]["sense"] != 1:
            raise Finding("the objective is not minimised", job)
        for rep, vals, src in ((got["rep"], got["vals"], "solution"), (got["rep_data"], got["data"], "supplied data")):
            tot = 0
            for j in sp.J:
                for s in sp.P[j]:
                    (d, free, conf), imp = rep[(j, s)]
                    n = sp.name(j, s)
                    tot += imp
                    if n in got["lp"]["vars"]:
                        e = sp.earliest(j, s)
                        if not (close(d, vals[n]) and close(conf, e) and close(free, e + vals[n]) and close(imp, w(j, s) / p["d_max"] * vals[n])):
                            raise Finding("report for train %s at %s from %s: %s, impact %s; delay is %s, earliest departure %s" % (
                                j, s, src, (d, free, conf), imp, vals[n], e), job)
                        st["nontrivial"] += 1
            if not close(tot, sum(want[n] * vals[n] for n in want)):
                raise Finding("impacts add up to %s, objective %s (%s)" % (tot, sum(want[n] * vals[n] for n in want), src), job)
    return st
