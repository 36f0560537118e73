#!/usr/bin/env python3-vt
"""setup: the tools are there, and the generator of obligations does what it should

The functions in selftest_src are put under contract; obligations of right functions must be
discharged and those of wrong ones refuted. The outcomes of functions on numbers are compared
with what Python computes. The sources must not contain a way to assume an obligation."""
import os
import random
import re
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import z3  # noqa: E402
from bounded.core import PY  # noqa: E402
from contracts import data  # noqa: E402
from pyvc.interp import State  # noqa: E402
from pyvc.prove import covered, discharge  # noqa: E402
from pyvc.values import SV, CList, ListObj, Loop, SeqV, Item, leaves  # noqa: E402

SRC = os.path.join(HERE, "selftest_src")
I, B = z3.IntSort(), z3.BoolSort()


def tools():
    subprocess.run([PY, "-c", "import pulp, dimod, pyqubo, pandas"], check=True,
                   env=dict(os.environ, PYTHONPATH=os.path.join(HERE, "stubs"), PYTHONDONTWRITEBYTECODE="1"))


def no_assumptions():
    bad = re.compile(r"\b(admit|sorry|trust_me)\b|status\s*=\s*.proved.")
    hits = []
    for d in ("pyvc", "contracts"):
        for f in sorted(os.listdir(os.path.join(HERE, d))):
            if f.endswith(".py"):
                for n, line in enumerate(open(os.path.join(HERE, d, f)), 1):
                    if bad.search(line):
                        hits.append("%s/%s:%d" % (d, f, n))
    # the prover is the one place that marks an obligation as proved
    assert {h.split(":")[0] for h in hits} <= {"pyvc/prove.py"}, hits


def listed(w, name="xs"):
    n, at, i = z3.Int(name + ".len"), z3.Function(name + ".at", I, I), z3.Int("i!" + name)
    w.E.axioms.append(n >= 0)
    return SeqV(n, i, SV(at(i))), n, at


def run(f, arg=True):
    """(world, outcomes, length, elements, bound)"""
    w = data.D(SRC, clean=False)
    xs, n, at = listed(w)
    k = z3.Int("k")
    return w, w.run("fix.py", f, dict({"xs": xs}, **({"k": SV(k)} if arg else {}))), n, at, k


def filtered(f):
    w, outs, n, at, k = run(f)
    i = z3.Int("i")
    for st, v in outs:
        w.oblige("kept", st, z3.Implies(at(i) < k, w.E.b(w.E.contains(SV(at(i)), v, st))), [0 <= i, i < n])
        w.oblige("nothing else", st, data.conj(w.E.tree(v, st), lambda x: x.e < k))
    return w


def mapped(f, arg, val):
    w, outs, n, at, k = run(f, arg)
    i, q = z3.Int("i"), z3.Int("q")
    for st, v in outs:
        w.oblige("keys", st, w.E.b(w.E.contains(SV(q), v, st)) == z3.Exists([i], z3.And(0 <= i, i < n, at(i) == q)))
        w.E.exc.append([])
        for x, y in w.E.getitem(v, SV(q), st):
            w.oblige("values", x, w.E.num(y) == val(q, k))
        w.E.exc.pop()
    return w


def met(f):
    """the first element above the bound"""
    w, outs, n, at, k = run(f)
    i, j = z3.Int("i"), z3.Int("j")
    for st, v in outs:
        if v is None:
            w.oblige("none", st, z3.Not(at(i) > k), [0 <= i, i < n])
        else:
            w.oblige("above", st, v.e > k)
    return w


def turned(f):
    """the elements in the opposite order"""
    w, outs, n, at, k = run(f, False)
    i = z3.Int("i")
    w.E.axioms += [0 <= i, i < n]
    for st, v in outs:
        w.E.exc.append([])
        for x, y in w.E.getitem(v, SV(i), st):
            w.oblige("element", x, w.E.num(y) == at(n - 1 - i))
        w.E.exc.pop()
    return w


def wrote(f):
    w = data.D(SRC, clean=False)
    xs, n, at = listed(w)
    st = State({}, {}, (), ())
    given = w.E.alloc(st, ListObj(w.E.tree(xs, st)))
    before = st.heap[given.id]
    w.E.exc = [[]]
    outs = w.E.call_func_body(w.E.find("fix.py", f), [], {"xs": given, "k": SV(z3.Int("k"))}, st)
    return any(x.heap[given.id] is not before for x, _ in outs)


def statuses(w):
    assert w.E.obls
    for o in w.E.obls:
        discharge(w.E, o, 5000)
        assert covered(w.E, o.hyps), o.name
    return [o.status for o in w.E.obls]


def contracts():
    n = 0
    right = [lambda: filtered("small"), lambda: filtered("small_comprehension"), lambda: mapped("doubled", False, lambda q, k: 2 * q),
             lambda: mapped("overwritten", True, lambda q, k: z3.If(q > k, q + 1, q)), lambda: met("first"),
             lambda: turned("mirrored")]
    wrong = [lambda: filtered("small_wrong"), lambda: mapped("doubled_wrong", False, lambda q, k: 2 * q),
             lambda: mapped("overwritten_wrong", True, lambda q, k: z3.If(q > k, q + 1, q)), lambda: met("first_wrong"),
             lambda: turned("mirrored_wrong")]
    for f in right:
        r = statuses(f())
        assert all(x == "proved" for x in r), r
        n += len(r)
    for f in wrong:
        r = statuses(f())
        assert "proved" not in r or not all(x == "proved" for x in r), r
        n += len(r)
    assert wrote("changes_argument") and not wrote("small")
    return n


def crosscheck():
    """outcomes against Python"""
    env = {}
    exec(compile(open(os.path.join(SRC, "fix.py")).read(), "fix.py", "exec"), env)
    rng, n = random.Random(5), 0
    a, b, c = z3.Ints("a b c")
    for f in ("arith", "calls", "chain", "raises"):
        w = data.D(SRC, clean=False)
        outs = w.run("fix.py", f, {"a": SV(a), "b": SV(b), "c": SV(c)})
        every = [(st, v) for st, v in outs] + [(st, x) for st, x in w.raised()]
        for _ in range(40):
            vals = [rng.randint(-6, 9) for _ in range(3)]
            try:
                want = env[f](*vals)
            except Exception as e:
                want = type(e).__name__
            given = [x == y for x, y in zip((a, b, c), vals)]
            hit = 0
            for st, v in every:
                s = z3.Solver()
                s.add(given + list(st.facts) + list(st.pc))
                if s.check() != z3.sat:
                    continue
                hit += 1
                if isinstance(want, str) or isinstance(v, str):
                    assert v == want, (f, vals, v, want)
                else:
                    s.add(w.E.num(v) != want)
                    assert s.check() == z3.unsat, (f, vals, v, want)
            assert hit == 1, (f, vals, hit)
            n += 1
    return n


if __name__ == "__main__":
    tools()
    no_assumptions()
    print("%d obligations of the trial functions as expected, %d outcomes agree with Python" % (contracts(), crosscheck()))
