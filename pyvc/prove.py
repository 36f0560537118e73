"""Discharging obligations."""
import itertools
import time
import z3
from .values import uid


def sums_in(E, es):
    """names of the sum constants in es and in the summands of those"""
    out, seen, stack = [], set(), list(es)
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t) and t.decl().name() in E.sums and t.decl().name() not in out:
            out.append(t.decl().name())
            stack.extend(E.sums[out[-1]][3:5])
        stack.extend(t.children())
    return out


def matchings(b2, b1, o2, o1):
    """renamings of the bound variables of one sum to those of another, sorts respected"""
    def perms(p, q):
        if len(p) != len(q):
            return
        for x in itertools.permutations(q):
            if all(a.sort() == b.sort() for a, b in zip(p, x)):
                yield list(zip(p, x))
    return itertools.islice((p + q for p in perms(b2, b1) for q in perms(o2, o1)), 4)


def integral(e):
    """the term is an integer by its form"""
    if z3.is_app_of(e, z3.Z3_OP_TO_REAL):
        return True
    if z3.is_rational_value(e):
        return e.denominator_as_long() == 1
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return all(map(integral, e.children()[1:]))
    if e.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        return all(map(integral, e.children()))
    return False


def fn_of(name, args):
    return z3.Function(name, *[a.sort() for a in args], z3.IntSort())(*args) if args else z3.Int(name)


def sum_facts(E, hyps, names, ms):
    """relations between sums that follow summand by summand: equal, ordered, opposite signs ordered, integral"""
    key = (tuple(h.get_id() for h in hyps), tuple(names))
    if key in E._sumfacts:
        return E._sumfacts[key][0]
    out = []
    zero = z3.RealVal(0)

    def entails(base, ctx, goal, ms=ms):
        s = z3.Solver()
        s.set("timeout", ms)
        s.add(*base)
        s.add(*out)
        s.add(ctx)
        s.add(z3.Not(goal))
        return s.check() == z3.unsat

    def close(o, ctx, f):
        f = f if z3.is_true(ctx) else z3.Implies(ctx, f)
        return z3.ForAll(o, f) if o else f
    names = sorted(names, key=lambda n: (-len(E.sums[n][1]), n))  # inner sums first
    pairs = []
    for x in range(len(names)):
        for y in range(x + 1, len(names)):
            t1, o1, b1, d1, e1, c1 = E.sums[names[x]]
            t2, o2, b2, d2, e2, c2 = E.sums[names[y]]
            for m in matchings(b2, b1, o2, o1):
                sub = lambda e: z3.substitute(e, *m) if m else e
                ctx = z3.simplify(z3.And(c1, sub(c2)))
                pairs.append([(x, y), o1, ctx, z3.If(d1, e1, zero), z3.If(sub(d2), sub(e2), zero), t1, sub(t2)])
    done = set()
    for _ in range(2):
        before = len(done)
        for k, o, ctx, u, v, t1, t2 in pairs:
            if k not in done and entails(hyps, ctx, u == v):
                out.append(close(o, ctx, t1 == t2))
                done.add(k)
        if len(done) == before:
            break
    if E.order_sums is not None:
        base = list(E.order_sums)
        for n in names:
            t, o, b, d, e, c = E.sums[n]
            if integral(e):
                out.append(close(o, z3.BoolVal(True), t == z3.ToReal(fn_of(uid("whole"), o))))
        for k, o, ctx, u, v, t1, t2 in pairs:
            if k in done:
                continue
            for r in (lambda p, q: p <= q, lambda p, q: p >= q, lambda p, q: p + q <= 0, lambda p, q: p + q >= 0):
                if entails(base, ctx, r(u, v), ms // 3):
                    out.append(close(o, ctx, r(t1, t2)))
    E._sumfacts[key] = (out, hyps)
    return out


def discharge(E, ob, ms=20000, want_model=True):
    t0 = time.time()
    hyps = E.base_axioms() + list(ob.hyps)
    names = sums_in(E, hyps + [ob.goal])
    if len(names) > 1:
        hyps = hyps + sum_facts(E, hyps, names, 3000)
    res = None
    for k, opts in enumerate(({}, {"smt.mbqi": False}, {"smt.random_seed": 7, "smt.arith.solver": 2})):
        s = z3.SimpleSolver() if k == 1 else z3.Solver()
        s.set("timeout", ms if k else max(ms // 2, 1000))
        for o, v in opts.items():
            try:
                s.set(o, v)
            except z3.Z3Exception:
                pass
        s.add(*hyps)
        s.add(z3.Not(ob.goal))
        r = s.check()
        if r == z3.unsat:
            ob.status, ob.backend = "proved", "z3"
            break
        if r == z3.sat:
            # sums are compared summand by summand: a difference there is no counter-example
            ob.status, ob.backend = ("unknown" if names else "failed"), "z3"
            ob.model = str(s.model())[:6000] if want_model else None
            ob.z3model = s.model()
            break
        res = s.reason_unknown()
        ob.status, ob.backend, ob.model = "unknown", "z3", res
        if time.time() - t0 > 2.5 * ms / 1000:
            break
    if ob.status == "unknown" and not names:
        cvc5_try(E, ob, hyps, ms)
    ob.time = time.time() - t0
    return ob.status


def cvc5_try(E, ob, hyps, ms):
    import subprocess
    import tempfile
    import shutil
    exe = shutil.which("cvc5")
    if not exe:
        return
    s = z3.Solver()
    s.add(*hyps)
    s.add(z3.Not(ob.goal))
    txt = "(set-logic ALL)\n" + s.to_smt2()
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        r = subprocess.run([exe, "--tlimit=%d" % ms, "--full-saturate-quant", f.name], capture_output=True, text=True, timeout=ms / 1000 + 5)
        if r.stdout.strip().startswith("unsat"):
            ob.status, ob.backend = "proved", "cvc5"
        elif r.stdout.strip().startswith("sat"):
            ob.status, ob.backend = "failed", "cvc5"
    except Exception:
        pass
    finally:
        import os
        os.unlink(f.name)


def covered(E, hyps, ms=3000):
    """vacuity guard: the hypotheses are not refuted"""
    s = z3.Solver()
    ms = 400 if getattr(E, "canon", False) else min(ms, getattr(E, "cover_ms", ms))  # quantified axioms of the data world: search for a refutation only
    s.set("timeout", ms)
    s.add(*E.base_axioms())
    s.add(*hyps)
    return s.check() != z3.unsat
