#!/usr/bin/env python3-vt
"""Decides one property:  python3-vt check.py C01

Obligations are generated from the current source of /repo and discharged with
z3/cvc5 (pyvc, contracts); bounded runs of the real code accompany them and
replay counter-models.  Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: no
answer (error of the check).
"""
import json
import multiprocessing
import os
import random
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from bounded.core import Finding, HarnessError  # noqa: E402
from contracts.registry import PROPS, TRUSTED  # noqa: E402

REPO = os.environ.get("VERIF_REPO", "/repo")


def prove_one(entry, ms, tell=lambda out: None):
    """all obligations of one contract, discharged; runs in its own process and tells what it has so far"""
    import importlib
    from pyvc.values import Unsupported
    from pyvc.prove import discharge, covered
    mod, fun = entry.split(".")
    t0 = time.time()
    out = {"contract": entry, "obligations": [], "reason": None, "functions": [], "called": [], "approx": False}
    try:
        w = getattr(importlib.import_module("contracts." + mod), fun)(REPO)
        E = w.E
        out["functions"] = sorted(E.inlined)
        out["called"] = sorted(E.called)
        out["approx"] = bool(E.approx)
        said = time.time()
        for o in E.obls:
            if time.time() - said > 5:
                tell(dict(out, reason="time limit"))
                said = time.time()
            discharge(E, o, ms)
            cov = covered(E, o.hyps)
            out["obligations"].append({"name": o.name, "kind": o.kind, "status": o.status, "backend": o.backend, "time": round(o.time, 3),
                                       "reachable": bool(cov),
                                       "model": None if o.status == "proved" else str(o.model)[:3000]})
        out["decoded"] = []
        if hasattr(w, "decode"):
            for o in E.obls:
                if o.status == "failed" and o.z3model is not None:
                    try:
                        out["decoded"].append(w.decode(o.z3model))
                    except Exception as e:  # decoding is best effort
                        out["decoded"].append(None)
                        out["decode_error"] = repr(e)
        if not out["obligations"]:
            out["reason"] = "no obligation generated"
        elif not any(o["reachable"] for o in out["obligations"]):
            out["reason"] = "no reachable obligation"
    except Unsupported as e:
        out["reason"] = "outside the supported subset: %s" % e
    except Exception as e:  # a defect of the generator is no verdict
        out["reason"] = "generator: %r %s" % (e, traceback.format_exc()[-600:])
    out["time"] = round(time.time() - t0, 2)
    return out


def _child(entry, ms, q):
    sys.stdout = open(os.devnull, "w")
    q.put(prove_one(entry, ms, lambda out: q.put(dict(out, more=True))))


class Proofs:
    """contracts of a property, proved in parallel with a time limit"""

    def __init__(self, entries, ms, limit):
        self.limit, self.t0 = limit, time.time()
        ctx = multiprocessing.get_context("fork")
        self.run, self.todo, self.res, self.ctx, self.ms = {}, list(entries), {}, ctx, ms
        self.step()

    def step(self):
        while self.todo and len(self.run) < 4:
            e = self.todo.pop(0)
            q = self.ctx.Queue()
            p = self.ctx.Process(target=_child, args=(e, self.ms, q), daemon=True)
            p.start()
            self.run[e] = (p, q)
        for e, (p, q) in list(self.run.items()):
            try:
                self.res[e] = q.get(timeout=0.05)
                if self.res[e].pop("more", False):
                    continue
                p.join()
                del self.run[e]
            except Exception:
                if not p.is_alive() and q.empty():
                    self.res[e] = {"contract": e, "obligations": [], "reason": "prover process ended", "functions": [], "called": [], "approx": False, "time": 0}
                    del self.run[e]

    def wait(self, limit=None):
        if limit is not None:
            self.limit = min(self.limit, time.time() - self.t0 + limit)
        while (self.run or self.todo) and time.time() - self.t0 < self.limit:
            self.step()
            time.sleep(0.02)
        for e, (p, q) in self.run.items():
            p.kill()
        for e in list(self.run) + self.todo:
            self.res[e] = self.res.get(e) or {"contract": e, "obligations": [], "reason": "time limit", "functions": [], "called": [], "approx": False, "time": self.limit}
        return [self.res[e] for e in sorted(self.res)]


def write_replay(prop, data):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s.txt" % prop)
    with open(path, "w") as f:
        f.write(data)
    return path


def finding_text(prop, f, failed, unknown, gaps):
    return ("property: %s\nobserved on the real code: %s\nreplay: python3-vt /verif/replay.py <this file>\njob: %r\nresult: %r\n"
            "obligations refuted: %s\nobligations not discharged: %s\nnot generated or not reached: %s\n"
            % (prop, f.what, f.job, f.result, "; ".join(o["name"] for o in failed) or "-", "; ".join(unknown) or "-",
               "; ".join("%s (%s)" % (g["contract"], g["reason"][:200]) for g in gaps) or "-"))


def main():
    prop = sys.argv[1]
    spec = PROPS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    t0 = time.time()
    thorough = tier == "thorough"
    proofs = Proofs(spec["proofs"], 60000 if thorough else 15000, 600 if thorough else 240)
    known = load_known(prop)
    finding, harness, stats, hits = None, None, {}, []
    try:
        stats, finding, hits = run_bounded(spec, seed, 4 if thorough else 1, known)
    except HarnessError as e:
        harness = str(e)
    results = proofs.wait(None if finding is None else 45)  # with a failing input at hand the obligations only explain it
    obls = [dict(o, contract=r["contract"]) for r in results for o in r["obligations"]]
    proved = [o for o in obls if o["status"] == "proved"]
    failed = [o for r in results if not r["approx"] for o in r["obligations"] if o["status"] == "failed"]
    gaps = [{"contract": r["contract"], "reason": r["reason"]} for r in results if r["reason"]]
    unknown = [o["name"] for o in obls if o["status"] != "proved" and o["name"] not in {x["name"] for x in failed}]
    complete = bool(obls) and not gaps and len(proved) == len(obls)
    nofail = False
    if not complete and finding is None and harness is None and spec.get("bounded"):
        # replay the counter-models, then search further for an input that shows what is not discharged
        try:
            for r in results:
                for inst in r.get("decoded", []):
                    if inst is not None and spec.get("replay") and finding is None:
                        finding = spec["replay"](REPO, inst)
            if finding is None:
                s2, finding, h2 = run_bounded(spec, seed + 7919, 4, known)
                stats["extended"] = s2
        except HarnessError as e:
            harness = str(e)
    violation, path = None, None
    if finding is not None:
        path = write_replay(prop, finding_text(prop, finding, failed, unknown, gaps))
        violation = "VIOLATION property=%s replay=%s" % (prop, path)
    elif failed:
        nofail = True
        path = write_replay(prop, "property: %s\nfailed obligations (generated from %s):\n%s\n" % (prop, REPO, "\n".join(
            "%s [%s]\n  verifier: %s refutes it; model:\n%s" % (o["name"], r["contract"], o["backend"], o["model"])
            for r in results if not r["approx"] for o in r["obligations"] if o["status"] == "failed")))
        violation = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)
    level = "proof" if complete else "exploration"
    cov = {
        "obligations": len(obls) + len(gaps), "discharged": len(proved),
        "checker_cmd": "python3-vt /verif/check.py %s %s" % (prop, tier),
        "trusted_base": TRUSTED + spec.get("trusted", []),
        "functions_under_contract": sorted({f for r in results for f in r["functions"]}),
        "used_by_contract": sorted({f for r in results for f in r["called"]}),
        "by_back_end": {b: sum(o["backend"] == b for o in proved) for b in sorted({str(o["backend"]) for o in proved})},
        "solver_time_s": round(sum(o["time"] for o in obls), 2),
        "obligation_list": [{k: o[k] for k in ("contract", "name", "kind", "status", "backend", "time", "reachable")} for o in obls],
        "not_generated": gaps, "undecided": unknown,
        "bounded_runs": dict(stats, label="bounded: concrete inputs only, not counted as proved", harness=harness),
    }
    if not complete:
        cov.update({"evaluations": int(stats.get("instances", 0)), "distinct_nontrivial": int(stats.get("nontrivial", 0)),
                    "rule": "random small inputs meeting the preconditions, seeded; non-trivial when the property's rule applies",
                    "samples": stats.get("samples", [])})
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": 1 if violation else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for h in hits:
        print("KNOWN-FINDING: property=%s %s" % (prop, h))
    if violation:
        print(violation)
        print("failed: %s" % (finding.what if finding is not None else ", ".join(o["name"] for o in failed)))
        return 1
    if harness is not None and not complete:
        print("no answer: %s" % harness)
        return 2
    print("%s: %d of %d obligations discharged%s; bounded runs: %s instances (%s non-trivial)%s" % (
        prop, len(proved), len(obls) + len(gaps), "" if complete else " (%s)" % "; ".join([g["reason"][:200] for g in gaps] + unknown)[:600],
        stats.get("instances"), stats.get("nontrivial"), "" if harness is None else "; " + harness[:200]))
    return 0


def run_bounded(spec, seed, factor, known):
    stats, hits = {}, []
    f = spec.get("bounded")
    if f is None:
        return stats, None, hits
    rng = random.Random(seed * 1000003 + 17)
    try:
        stats = f(REPO, rng, factor, known, hits)
        return stats, None, sorted(set(hits))
    except Finding as e:
        return stats, e, sorted(set(hits))


def load_known(prop):
    path = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for l in open(path):
            if l.startswith("known: property=%s " % prop):
                out.append(l.split(" ", 2)[2].strip())
    return out


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    os._exit(code)
