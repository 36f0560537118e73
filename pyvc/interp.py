"""Symbolic executor for the Python subset used by the repository.

Statements are executed path by path.  A loop over an unbounded collection is
executed once for a generic element; its effect is the emission tree "for every
element of the domain, on the path with this guard, this effect".  This is the
invariant "the object equals its value before the loop followed by the effects
of the elements handled so far"; it is inductive because the engine rejects
bodies whose effect on a generic element reads an object or variable that the
loop itself modifies (except for the cases with their own rule: counters, sums,
flags, multimap append)."""
import ast
import math
import os
import z3
from .values import *


class State:
    __slots__ = ("env", "heap", "pc", "facts", "binders")

    def __init__(self, env=None, heap=None, pc=(), facts=(), binders=()):
        self.env, self.heap = dict(env or {}), dict(heap or {})
        self.pc, self.facts, self.binders = tuple(pc), tuple(facts), tuple(binders)

    def fork(self):
        return State(self.env, self.heap, self.pc, self.facts, self.binders)

    def assume(self, c):
        s = self.fork()
        if not (isinstance(c, bool) and c):
            s.pc += (z3.BoolVal(c) if isinstance(c, bool) else c,)
        return s


class Obligation:
    def __init__(self, name, hyps, goal, kind="post", info=""):
        self.name, self.hyps, self.goal, self.kind, self.info = name, hyps, goal, kind, info
        self.status, self.backend, self.time, self.model, self.z3model = None, None, 0.0, None, None


class Module:
    def __init__(self, path, pkg):
        self.path, self.pkg = path, pkg
        self.src = open(path, encoding="utf-8").read()
        self.tree = ast.parse(self.src)
        self.funcs, self.imports, self.consts = {}, {}, {}
        for n in self.tree.body:
            if isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = n
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = (n.module, n.level, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (a.name, 0, None)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.consts[n.targets[0].id] = n.value


BUILTINS = {"len", "range", "enumerate", "zip", "list", "tuple", "set", "dict", "sum", "max", "min",
            "any", "all", "sorted", "reversed", "str", "int", "float", "bool", "abs", "round", "print",
            "isinstance", "type", "map", "filter", "next", "iter", "frozenset", "eval", "exit", "getattr"}
EXC = {"KeyError", "ValueError", "AssertionError", "IndexError", "Exception", "TypeError", "RuntimeError",
       "StopIteration", "NameError"}


class Engine:
    def __init__(self, repo="/repo"):
        self.repo = repo
        self.mods = {}
        self.axioms = []
        self.lits = {}
        self.contracts = {}
        self.obls = []
        self.exc = [[]]
        self.depth = 0
        self.used_prims = set()
        self.inlined = set()
        self.called = set()
        self.assumed = set()
        self.sums = {}
        self.order_sums = None  # hypotheses for comparing sums by <=, if wanted
        self._sumfacts = {}
        self.quick_ms = 400
        self.nchecks = 0
        self.next_ref = 0
        self.prims = {}
        self.assign_atom_int = False
        self._cache = {}
        self._sat = {}
        self._mut = {}
        self._lost = {}
        self.interned = False  # sums and extrema over index ranges become functions of their parameters
        self.rules = []
        self.while_rules = []
        self.member = None  # hypothesis about membership in a dictionary under construction, proved by the contract
        self.approx = False
        self.merge_kinds = (ProbObj, NestObj)
        self.canon = False  # equal selections of rows get equal terms
        self.atoms_are_text = False  # identifiers are never equal to a number
        self._filters = []

    # modules ---------------------------------------------------------------
    def module(self, path, pkg):
        if path not in self.mods:
            self.mods[path] = Module(path, pkg)
        return self.mods[path]

    def find(self, rel, fn):
        p = os.path.join(self.repo, rel)
        m = self.module(p, os.path.dirname(p))
        r = self.resolve_global(m, fn)
        if not isinstance(r, Func):
            raise Unsupported("function %s not found in %s" % (fn, rel))
        return r

    def resolve_global(self, mod, name):
        if name in mod.funcs:
            return Func(mod.funcs[name], mod, {}, name)
        if name in mod.imports:
            m, lvl, orig = mod.imports[name]
            base = None
            if lvl:
                base = os.path.dirname(mod.path)
                for _ in range(lvl - 1):
                    base = os.path.dirname(base)
            elif m and m.split(".")[0] in ("data_formatting", "railway_solvers", "helpers"):
                base = self.repo
            if base is not None:
                rel = os.path.join(base, *(m.split(".") if m else []))
                for cand in (rel + ".py", os.path.join(rel, "__init__.py")):
                    if os.path.exists(cand):
                        m2 = self.module(cand, os.path.dirname(cand))
                        return self.resolve_global(m2, orig)
                raise Unsupported("module %s" % m)
            if orig is None:
                return ModV(m)
            return self.mod_attr(ModV(m), orig)
        if name in mod.consts:
            outs = self.ev(mod.consts[name], State({"__mod__": mod}))
            if len(outs) == 1:
                return self.freeze(outs[0][0], outs[0][1])
        if name in BUILTINS:
            return Prim(name)
        if name in EXC:
            return Prim("exc:" + name)
        raise Unsupported("name %s" % name)

    def mod_attr(self, m, name):
        alias = {"numpy": "np", "np": "np", "pandas": "pd", "pulp": "pulp", "itertools": "itertools",
                 "functools": "functools", "datetime": "datetime", "collections": "collections", "math": "math"}
        full = alias.get(m.name, m.name) + "." + name
        consts = {"np.inf": float("inf"), "np.nan": NAN, "math.inf": float("inf"), "pulp.LpMinimize": 1, "pulp.LpMaximize": -1,
                  "pulp.LpConstraintEQ": 0, "pulp.LpConstraintLE": -1, "pulp.LpConstraintGE": 1,
                  "pulp.LpInteger": "Integer", "pulp.LpContinuous": "Continuous", "pulp.LpBinary": "Binary",
                  "pulp.constants.LpMinimize": 1}
        if full in consts:
            return consts[full]
        return Prim(full)

    # logic -----------------------------------------------------------------
    def lit(self, s):
        """atom constant for a literal"""
        key = repr(s)
        if key not in self.lits:
            self.lits[key] = z3.Const("lit:" + key, Atom)
        return self.lits[key]

    def base_axioms(self):
        ax = list(self.axioms)
        if len(self.lits) > 1:
            ax.append(z3.Distinct(*self.lits.values()))
        return ax

    def solver(self, st, ms):
        s = self.quick(ms)
        s.add(*self.base_axioms())
        s.add(*st.facts)
        s.add(*st.pc)
        return s

    def quick(self, ms):
        """solver for questions asked during execution, where only a refutation matters"""
        s = z3.SimpleSolver() if self.canon else z3.Solver()
        if self.canon:
            s.set("smt.mbqi", False)
        s.set("timeout", ms)
        return s

    def sat(self, st, c):
        """False only if st and c are contradictory"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = (tuple(p.get_id() for p in st.pc), tuple(f.get_id() for f in st.facts), c.get_id(), len(self.axioms), len(self.lits))
        hit = self._sat.get(key)
        if hit is not None:
            return hit[0]
        self.nchecks += 1
        s = self.solver(st, self.quick_ms)
        s.add(c)
        r = s.check() != z3.unsat
        self._sat[key] = (r, st.pc, st.facts, c)  # keeps the terms (and their ids) alive
        return r

    def must(self, st, c):
        """True only if st entails c"""
        if isinstance(c, bool):
            return c
        return not self.sat(st, z3.Not(c))

    def branch(self, st, c):
        if isinstance(c, bool):
            return [(st, c)]
        c = z3.simplify(c)
        if z3.is_true(c):
            return [(st, True)]
        if z3.is_false(c):
            return [(st, False)]
        t = self.sat(st, c)
        if not t:
            return [(st, False)]
        f = self.sat(st, z3.Not(c))
        if not f:
            return [(st, True)]
        return [(st.assume(c), True), (st.assume(z3.Not(c)), False)]

    def fresh(self, st, hint, sort):
        if st.binders:
            f = z3.Function(uid(hint), *[b.sort() for b in st.binders], sort)
            return f(*st.binders)
        return z3.Const(uid(hint), sort)

    def fresh_fun(self, st, hint, *sorts):
        """skolem function of the given signature, parametrised by the loop binders"""
        f = z3.Function(uid(hint), *[b.sort() for b in st.binders], *sorts)
        bs = list(st.binders)
        return lambda *a: f(*bs, *a)

    def alloc(self, st, obj):
        self.next_ref += 1
        st.heap[self.next_ref] = obj
        return Ref(self.next_ref)

    def throw(self, st, name):
        self.exc[-1].append((st, name))

    def require(self, st, c, name):
        """continue only where c holds, the rest raises"""
        out = []
        for s, b in self.branch(st, c):
            if b:
                out.append(s)
            else:
                self.throw(s, name)
        return out

    # conversion to z3 ------------------------------------------------------
    def num(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, float):
            if math.isinf(v) or math.isnan(v):
                raise Unsupported("non-finite number")
            return z3.RealVal(repr(v)) if v != int(v) else z3.RealVal(int(v))
        if isinstance(v, SV):
            if z3.is_bool(v.e):
                return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
            if z3.is_arith(v.e):
                return v.e
        if isinstance(v, LinV):
            return v.e
        if isinstance(v, OptV) and v.v is not None:
            raise Unsupported("possibly missing number")
        raise Unsupported("number expected: %r" % (v,))

    def is_num(self, v):
        return (isinstance(v, (int, float)) or isinstance(v, SV) and (z3.is_arith(v.e) or z3.is_bool(v.e)))

    def to_sort(self, v, sort):
        if sort == Atom:
            if isinstance(v, SV):
                if v.e.sort() == Atom:
                    return v.e
                raise Unsupported("atom expected")
            if isinstance(v, (str, int)):
                return self.lit(v)
            if v is None:
                return self.lit(None)
            raise Unsupported("atom expected: %r" % (v,))
        if sort == z3.StringSort():
            return self.zstr(v)
        e = self.num(v)
        if sort == z3.RealSort() and e.sort() == z3.IntSort():
            return z3.ToReal(e)
        if sort == z3.IntSort() and e.sort() == z3.RealSort():
            return z3.ToInt(e)
        return e

    def zstr(self, v):
        if isinstance(v, str):
            return z3.StringVal(v)
        if isinstance(v, SV) and v.e.sort() == z3.StringSort():
            return v.e
        if isinstance(v, FStr):
            ps = [self.zstr(p) for p in v.parts]
            return z3.Concat(*ps) if len(ps) > 1 else ps[0] if ps else z3.StringVal("")
        if isinstance(v, SV) and v.e.sort() == z3.IntSort():
            return z3.IntToStr(v.e)
        if isinstance(v, SV) and v.e.sort() == Atom:
            f = z3.Function("str_of", Atom, z3.StringSort())
            return f(v.e)
        raise Unsupported("string expected: %r" % (v,))

    def truth(self, v, st):
        if v is None:
            return False
        if isinstance(v, (bool, int, float, str)):
            return bool(v)
        if isinstance(v, SV):
            if z3.is_bool(v.e):
                return v.e
            if z3.is_arith(v.e):
                return v.e != 0
            if v.e.sort() == z3.StringSort():
                return v.e != z3.StringVal("")
            return True
        if isinstance(v, (tuple,)):
            return len(v) > 0
        if isinstance(v, CList):
            return len(v.items) > 0
        if isinstance(v, SeqV):
            return self.gt0(v.n)
        if isinstance(v, FinDict):
            return len(v.entries) > 0
        if isinstance(v, (DictV, CompV, MapV, Ref)):
            if isinstance(v, Ref) and isinstance(st.heap[v.id], (ProbObj, NestObj)):
                raise Unsupported("truth of problem")
            return disj(self.tree(v, st), lambda x: z3.BoolVal(True))
        if isinstance(v, (ConV, LinV, Poison)):
            raise Unsupported("truth value of %s" % type(v).__name__)
        if isinstance(v, (FStr, Func, Prim, RecV)):
            return True
        if hasattr(v, "py_truth"):
            return v.py_truth(self, st)
        if isinstance(v, OptV):
            return True if v.v is None else z3.Or(v.null, self.b(self.truth(v.v, st)))
        raise Unsupported("truth of %r" % (v,))

    @staticmethod
    def gt0(n):
        return n > 0

    # equality --------------------------------------------------------------
    def eq(self, a, b, st):
        """python == as bool or z3 Bool"""
        if isinstance(a, Poison) or isinstance(b, Poison):
            raise Unsupported("comparison of unknown value")
        if isinstance(a, OptV) or isinstance(b, OptV):
            if isinstance(a, OptV) and isinstance(b, OptV):
                if a.v is None or b.v is None:
                    return False
                return z3.And(z3.Not(a.null), z3.Not(b.null), self.b(self.eq(a.v, b.v, st)))
            o, x = (a, b) if isinstance(a, OptV) else (b, a)
            if o.v is None or x is None:
                return False
            return z3.And(z3.Not(o.null), self.b(self.eq(o.v, x, st)))
        if a is None or b is None:
            return a is None and b is None
        for x, y in ((a, b), (b, a)):
            if hasattr(x, "py_eq"):
                return x.py_eq(self, y, st)
        conc = (bool, int, float, str)
        if isinstance(a, conc) and isinstance(b, conc):
            return a == b
        if isinstance(a, VarV) or isinstance(b, VarV) or isinstance(a, LinV) or isinstance(b, LinV):
            raise Unsupported("== on expressions outside a constraint")
        if isinstance(a, SV) or isinstance(b, SV):
            x, y = (a, b) if isinstance(a, SV) else (b, a)
            so = x.e.sort()
            if isinstance(y, SV):
                if so == y.e.sort():
                    return x.e == y.e
                if z3.is_arith(x.e) and z3.is_arith(y.e):
                    return self.num(x) == self.num(y)
                if z3.is_bool(x.e) or z3.is_bool(y.e):
                    return self.num(x) == self.num(y)
                if so == z3.StringSort() or y.e.sort() == z3.StringSort():
                    return self.zstr(x) == self.zstr(y)
                if self.atoms_are_text and Atom in (so, y.e.sort()):
                    return False
                raise Unsupported("eq of sorts")
            if so == Atom:
                if self.atoms_are_text and isinstance(y, (int, float)):
                    return False
                if isinstance(y, FStr):
                    raise Unsupported("atom == formatted string")
                if isinstance(y, (str, int)) and not isinstance(y, bool):
                    return x.e == self.lit(y)
                return False
            if so == z3.BoolSort():
                if isinstance(y, bool):
                    return x.e if y else z3.Not(x.e)
                return self.num(x) == self.num(y)
            if z3.is_arith(x.e):
                if isinstance(y, (int, float)):
                    if isinstance(y, float) and (math.isinf(y) or math.isnan(y)):
                        return False
                    return x.e == self.num(y)
                return False
            if so == z3.StringSort():
                if isinstance(y, (str, FStr)):
                    return x.e == self.zstr(y)
                return False
            return False
        if isinstance(a, FStr) or isinstance(b, FStr):
            return self.eq_fstr(a, b, st)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.conj_eq(a, b, st)
        if isinstance(a, tuple) or isinstance(b, tuple):
            return False
        fa, fb = self.view(a, st), self.view(b, st)
        if isinstance(fa, CList) and isinstance(fb, CList):
            if len(fa.items) != len(fb.items):
                return False
            return self.conj_eq(fa.items, fb.items, st)
        lists = (CList, SeqV, CompV)
        if isinstance(fa, lists) and isinstance(fb, lists):
            if isinstance(fa, CompV) and isinstance(fb, CList) and not fb.items:
                return z3.Not(disj(fa.nodes, lambda x: z3.BoolVal(True)))
            if isinstance(fb, CompV) and isinstance(fa, CList) and not fa.items:
                return z3.Not(disj(fb.nodes, lambda x: z3.BoolVal(True)))
            sa, sb = self.seq(fa, st), self.seq(fb, st)
            if isinstance(sb, CList):
                sa, sb = sb, sa
            if isinstance(sa, CList):
                out = [sb.n == len(sa.items)]
                for k, x in enumerate(sa.items):
                    out.append(self.b(self.eq(x, sb.at(k), st)))
                return z3.And(out)
            if sa.n.eq(sb.n) and sa.src is not None and sa.src is sb.src:
                return True
            i = z3.Int(uid("e"))
            body = lambda i: z3.Implies(z3.And(0 <= i, i < sa.n), self.b(self.eq(sa.at(i), sb.at(i), st)))
            if self.canon:
                return z3.And(sa.n == sb.n, self.named_all(i, body(i)))
            return z3.And(sa.n == sb.n, z3.ForAll([i], body(i)))
        dicts = (DictV, FinDict, MapV)
        if isinstance(fa, dicts) and isinstance(fb, dicts):
            if isinstance(fb, FinDict) and not fb.entries:
                return self.neg(self.truth(fa, st))
            if isinstance(fa, FinDict) and not fa.entries:
                return self.neg(self.truth(fb, st))
            raise Unsupported("dict equality")
        for x, y in ((a, b), (b, a)):
            if hasattr(x, "py_eq"):
                return x.py_eq(self, y, st)
        if isinstance(fa, lists + dicts) != isinstance(fb, lists + dicts):
            return False
        if type(fa) is type(fb) and fa is fb:
            return True
        if isinstance(a, Prim) and isinstance(b, Prim):
            return a.name == b.name
        raise Unsupported("== between %s and %s" % (type(a).__name__, type(b).__name__))

    def conj_eq(self, xs, ys, st):
        out = []
        for x, y in zip(xs, ys):
            r = self.eq(x, y, st)
            if r is False:
                return False
            if r is not True:
                out.append(r)
        return z3.And(out) if out else True

    def eq_fstr(self, a, b, st):
        """formatted strings: identifiers are assumed to contain no separator"""
        a = a if isinstance(a, FStr) else FStr([a]) if isinstance(a, (str, SV)) else None
        b = b if isinstance(b, FStr) else FStr([b]) if isinstance(b, (str, SV)) else None
        if a is None or b is None:
            return False
        if a.skeleton() == b.skeleton():
            return self.conj_eq(a.args(), b.args(), st)
        la = a.parts[0] if a.parts and isinstance(a.parts[0], str) else ""
        lb = b.parts[0] if b.parts and isinstance(b.parts[0], str) else ""
        k = min(len(la), len(lb))
        if la[:k] != lb[:k]:
            return False
        if a.skeleton().count("_") != b.skeleton().count("_"):
            return False
        raise Unsupported("equality of strings %s / %s" % (a.skeleton(), b.skeleton()))

    @staticmethod
    def b(x):
        return z3.BoolVal(x) if isinstance(x, bool) else x

    @staticmethod
    def neg(x):
        return (not x) if isinstance(x, bool) else z3.Not(x)

    # views -----------------------------------------------------------------
    def view(self, v, st):
        """immutable view of a value"""
        if isinstance(v, Prim) and v.name == "keysview":
            v = v.self_
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if o.opaque:
                raise Unsupported("read of an object modified by the enclosing loop")
            if isinstance(o, DictObj):
                if all(isinstance(n, Item) and n.v[0] == "put" for n in o.nodes):
                    ent = []
                    ok = True
                    for n in o.nodes:
                        _, k, x = n.v
                        new = []
                        for (k2, x2) in ent:
                            e = self.eq(k, k2, st)
                            if e is True:
                                continue
                            if e is not False:
                                if self.must(st, e):
                                    continue
                                if not self.must(st, z3.Not(e)):
                                    ok = False
                            new.append((k2, x2))
                        ent = new + [(k, x)]
                    if ok:
                        return FinDict(ent)
                return MapV(list(o.nodes))
            if isinstance(o, ListObj) and not isinstance(o, (ProbObj, NestObj)):
                if all(isinstance(n, Item) for n in o.nodes) and not isinstance(o, SetObj):
                    return CList([n.v for n in o.nodes])
                return CompV(list(o.nodes), "set" if isinstance(o, SetObj) else "list")
            return o
        return v

    def freeze(self, st, v, since=-1):
        """deep immutable copy (references become values)"""
        if isinstance(v, Ref):
            o = st.heap[v.id]
            if isinstance(o, (ProbObj, NestObj)) or v.id <= since:
                return v
            f = self.view(v, st)
            return self.freeze(st, f, since)
        if isinstance(v, tuple):
            return tuple(self.freeze(st, x, since) for x in v)
        if isinstance(v, CList):
            return CList([self.freeze(st, x, since) for x in v.items])
        if isinstance(v, FinDict):
            return FinDict([(self.freeze(st, a, since), self.freeze(st, b, since)) for a, b in v.entries])
        if isinstance(v, CompV):
            return CompV([self.nfreeze(st, n, since) for n in v.nodes], v.kind)
        if isinstance(v, MapV):
            return MapV([self.nfreeze(st, n, since) for n in v.nodes])
        return v

    def nfreeze(self, st, n, since=-1):
        if isinstance(n, Item):
            return Item(self.freeze(st, n.v, since))
        if isinstance(n, Guard):
            return Guard(n.g, [self.nfreeze(st, x, since) for x in n.nodes])
        return Loop(n.binders, n.dom, [self.nfreeze(st, x, since) for x in n.nodes], n.n)

    def tree(self, v, st):
        """emission tree of the elements obtained by iterating over v"""
        v = self.view(v, st)
        if isinstance(v, (tuple,)):
            return [Item(x) for x in v]
        if isinstance(v, str):
            return [Item(c) for c in v]
        if isinstance(v, CList):
            return [Item(x) for x in v.items]
        if isinstance(v, CompV):
            return list(v.nodes)
        if isinstance(v, SeqV) and v.part is not None:
            s, a, b = v.part
            i = z3.Int(uid("i"))
            return [Loop([i], z3.And(a <= i, i < b), [Item(s.at(i))])]
        if isinstance(v, SeqV):
            return [iloop(v.n, lambda i: [Item(v.at(i))])]
        if isinstance(v, FinDict):
            return [Item(k) for k, _ in v.entries]
        if isinstance(v, DictV):
            nb = [z3.Const(uid("k"), k.sort()) for k in v.kvars]
            return [Loop(nb, v.has(nb), [Item(v.key(nb))])]
        if isinstance(v, MapV):
            return [self.mapleaf(n, lambda k, x: k) for n in v.nodes]
        if isinstance(v, RecV):
            out = []
            for k, (p, _) in v.fields.items():
                out.append(Item(k) if p is True else Guard(p, [Item(k)]))
            return out
        if hasattr(v, "py_tree"):
            return v.py_tree(self, st)
        raise Unsupported("iteration over %s" % type(v).__name__)

    def mapleaf(self, n, f):
        if isinstance(n, Item):
            return Item(f(n.v[1], n.v[2]))
        if isinstance(n, Guard):
            return Guard(n.g, [self.mapleaf(x, f) for x in n.nodes])
        return Loop(n.binders, n.dom, [self.mapleaf(x, f) for x in n.nodes], n.n)

    def ite(self, c, a, b):
        """merge of two values"""
        if a is b:
            return a
        if isinstance(a, OptV) or isinstance(b, OptV):
            a = a if isinstance(a, OptV) else OptV(z3.BoolVal(False), a)
            b = b if isinstance(b, OptV) else OptV(z3.BoolVal(False), b)
            v = b.v if a.v is None else a.v if b.v is None else self.ite(c, a.v, b.v)
            return OptV(z3.If(c, a.null, b.null), v)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.ite(c, x, y) for x, y in zip(a, b))
        if isinstance(a, CList) and isinstance(b, CList) and len(a.items) == len(b.items):
            return CList([self.ite(c, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, FStr) and isinstance(b, FStr) and a.skeleton() == b.skeleton():
            it = iter([self.ite(c, x, y) for x, y in zip(a.args(), b.args())])
            return FStr([p if isinstance(p, str) else next(it) for p in a.parts])
        if self.is_num(a) and self.is_num(b):
            if isinstance(a, (bool, SV)) and isinstance(b, (bool, SV)):
                ea = z3.BoolVal(a) if isinstance(a, bool) else a.e
                eb = z3.BoolVal(b) if isinstance(b, bool) else b.e
                if z3.is_bool(ea) and z3.is_bool(eb):
                    return SV(z3.If(c, ea, eb))
            ea, eb = self.num(a), self.num(b)
            if ea.sort() != eb.sort():
                ea, eb = [z3.ToReal(x) if x.sort() == z3.IntSort() else x for x in (ea, eb)]
            return SV(z3.If(c, ea, eb))
        if isinstance(a, LinV) or isinstance(b, LinV):
            return LinV(z3.If(c, z3.ToReal(self.num(a)) if self.num(a).sort() == z3.IntSort() else self.num(a),
                              z3.ToReal(self.num(b)) if self.num(b).sort() == z3.IntSort() else self.num(b)))
        if isinstance(a, (SV, str)) and isinstance(b, (SV, str)):
            if isinstance(a, str) and isinstance(b, str):
                if a == b:
                    return a
                return SV(z3.If(c, self.lit(a), self.lit(b)))
            so = a.e.sort() if isinstance(a, SV) else b.e.sort()
            return SV(z3.If(c, self.to_sort(a, so), self.to_sort(b, so)))
        raise Unsupported("merge of %s and %s" % (type(a).__name__, type(b).__name__))

    def seq(self, v, st):
        """indexable form: CList or SeqV (facts about filters are added to st)"""
        v = self.view(v, st)
        if isinstance(v, tuple):
            return CList(v)
        if isinstance(v, (CList, SeqV)):
            return v
        if hasattr(v, "py_seq"):
            return v.py_seq(self, st)
        if not isinstance(v, CompV):
            v = CompV(self.tree(v, st))
        nodes = v.nodes
        if len(nodes) == 1 and isinstance(nodes[0], Guard):
            raise Unsupported("index into conditional list")
        if len(nodes) >= 1 and isinstance(nodes[0], Loop) and nodes[0].n is not None and len(nodes[0].binders) == 1 \
                and all(isinstance(n, Item) for n in nodes[1:]):
            lp = nodes[0]
            i = lp.binders[0]
            g, val = self.flat_item(lp.nodes)
            tail = [n.v for n in nodes[1:]]
            if z3.is_true(z3.simplify(g)) or self.canon and self.everywhere(st, i, lp.dom, g):
                base = SeqV(lp.n, i, val)
            elif self.canon:
                m, pos, _ = self.filtered(st, lp.n, i, g)
                iv = z3.Int(uid("i"))
                base = SeqV(m, iv, subst(val, [(i, pos(iv))]))
            else:
                key = ("filter", lp.n.get_id() if z3.is_expr(lp.n) else lp.n, z3.simplify(g).get_id(),
                       tuple(b.get_id() for b in st.binders))
                m = self.fresh(st, "flen", z3.IntSort())
                pos = self.fresh_fun(st, "fpos", z3.IntSort(), z3.IntSort())
                rank = self.fresh_fun(st, "frank", z3.IntSort(), z3.IntSort())
                r, r2, q = z3.Int(uid("r")), z3.Int(uid("r")), z3.Int(uid("q"))
                G = lambda e: z3.substitute(g, (i, e))
                st.facts += (
                    m >= 0,
                    z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < m),
                                              z3.And(0 <= pos(r), pos(r) < lp.n, G(pos(r)), rank(pos(r)) == r)), patterns=[pos(r)]),
                    z3.ForAll([r, r2], z3.Implies(z3.And(0 <= r, r < r2, r2 < m), pos(r) < pos(r2)),
                              patterns=[z3.MultiPattern(pos(r), pos(r2))]),
                    z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < lp.n, G(q)),
                                              z3.And(0 <= rank(q), rank(q) < m, pos(rank(q)) == q)), patterns=[rank(q)]),
                    # same facts, triggered by the guard itself
                    z3.ForAll([q], z3.Implies(z3.And(0 <= q, q < lp.n, G(q)),
                                              z3.And(0 <= rank(q), rank(q) < m, pos(rank(q)) == q))),
                )
                iv = z3.Int(uid("i"))
                base = SeqV(m, iv, subst(val, [(i, pos(iv))]))
            for x in tail:
                iv = z3.Int(uid("i"))
                n0 = base.n
                base = SeqV(n0 + 1, iv, self.ite(iv < n0, base.at(iv), x))
            return base
        raise Unsupported("index into list built by nested loops")

    def everywhere(self, st, i, dom, g):
        """the condition follows from the general facts taken at this index"""
        fs = [f for f in st.facts if z3.is_quantifier(f) and f.is_forall() and f.num_vars() == 1 and f.var_sort(0) == i.sort()]
        if not fs:
            return False
        s = z3.SimpleSolver()
        s.set("smt.mbqi", False)
        s.set("timeout", 300)
        s.add(dom, z3.Not(g), *st.pc)
        s.add(*[z3.substitute_vars(f.body(), i) for f in fs])
        return s.check() == z3.unsat

    def filtered(self, st, n, i, g):
        """the indices 0 <= i < n with g, in order: (number, position of the r-th, rank of an index);
        the same selection gives the same terms wherever it is made"""
        g = z3.simplify(g)
        n = n if z3.is_expr(n) else z3.IntVal(n)
        params, tops = [], {}

        def abstract(t, top=False):
            if t.get_id() in tops:
                return
            if z3.is_quantifier(t):
                abstract(t.body())
                return
            if z3.is_var(t) or t.eq(i):
                return
            if z3.is_const(t) and t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                return
            if not top and not self.mentions(t, [i]) and not has_var(t):
                tops[t.get_id()] = t
                params.append(t)
                return
            for c in t.children():
                abstract(c)
        abstract(g)
        abstract(n, z3.is_app(n) and n.num_args() > 0)
        ps = [z3.Const("p%d" % k, t.sort()) for k, t in enumerate(params)]
        q = z3.Int("q")
        m = list(zip(params, ps)) + [(i, q)]
        G, N = z3.substitute(g, *m), z3.substitute(n, *m)
        for (ps2, G2, N2, fs) in self._filters:
            if [p.sort() for p in ps2] != [p.sort() for p in ps] or not N2.eq(N):
                continue
            if not G2.eq(G):
                s = self.quick(self.quick_ms)
                s.add(*self.base_axioms())
                s.add(0 <= q, q < N, G != G2)
                if s.check() != z3.unsat:
                    continue
            return self.filter_terms(fs, params)
        k = len(self._filters)
        sorts = [p.sort() for p in ps]
        fl = z3.Function("count%d" % k, *sorts, z3.IntSort()) if sorts else (lambda *a: z3.Int("count%d" % k))
        fp = z3.Function("pick%d" % k, *sorts, z3.IntSort(), z3.IntSort())
        fr = z3.Function("rank%d" % k, *sorts, z3.IntSort(), z3.IntSort())
        fs = (fl, fp, fr)
        self._filters.append((ps, G, N, fs))
        r, r2 = z3.Ints("r r2")
        cnt, pos, rank = self.filter_terms(fs, ps)
        allq = lambda vs, f, pats: z3.ForAll(vs, f, patterns=pats) if vs else f
        at = lambda e: z3.substitute(G, (q, e))
        self.axioms.append(allq(ps, cnt >= 0, [cnt]) if ps else cnt >= 0)
        self.axioms.append(allq(ps + [r], z3.Implies(z3.And(0 <= r, r < cnt), z3.And(
            0 <= pos(r), pos(r) < N, at(pos(r)), rank(pos(r)) == r)), [pos(r)]))
        self.axioms.append(allq(ps + [r, r2], z3.Implies(z3.And(0 <= r, r < r2, r2 < cnt), pos(r) < pos(r2)),
                                [z3.MultiPattern(pos(r), pos(r2))]))
        pats = [rank(q)]
        rows = row_terms(G, q)
        if "quantifier" in kinds(G):
            G = self.name_quantifiers(G, ps + [q], "pred%d" % k, pats)
        inv = z3.Implies(z3.And(0 <= q, q < N, G), z3.And(0 <= rank(q), rank(q) < cnt, pos(rank(q)) == q))
        for t in rows:
            pats.append(z3.MultiPattern(cnt, t) if ps else t)
        self.axioms.append(allq(ps + [q], inv, pats))
        return self.filter_terms(fs, params)

    def shape(self, i, g):
        """g with its maximal terms free of i replaced by parameters: (key, parameters, their values, variable, body)"""
        params, seen = [], set()

        def abstract(t):
            if t.get_id() in seen:
                return
            if z3.is_quantifier(t):
                abstract(t.body())
            elif z3.is_var(t) or t.eq(i) or z3.is_const(t) and t.decl().kind() != z3.Z3_OP_UNINTERPRETED:
                return
            elif not z3.is_bool(t) and not self.mentions(t, [i]) and not has_var(t):
                seen.add(t.get_id())
                params.append(t)
            else:
                for c in t.children():
                    abstract(c)
        abstract(g)
        ps = [z3.Const("p%d" % k, t.sort()) for k, t in enumerate(params)]
        q = z3.Int("q")
        G = z3.substitute(g, *(list(zip(params, ps)) + [(i, q)]))
        return (G.sexpr(), tuple(str(p.sort()) for p in ps)), ps, params, q, G

    def named_all(self, i, g):
        """ForAll i. g as a predicate of the terms in g, the same one for the same formula"""
        g = z3.simplify(g)
        if z3.is_true(g):
            return g
        key, ps, params, q, G = self.shape(i, g)
        if not ps:
            return z3.ForAll([q], G)
        preds = self._cache.setdefault("preds", {})
        if key not in preds:
            f = z3.Function("same%d" % len(preds), *[p.sort() for p in ps], z3.BoolSort())
            preds[key] = f
            rows = [t for t in apps(G) if self.mentions(t, [q]) and plain_term(t)]
            self.axioms.append(z3.ForAll(ps + [q], z3.Implies(f(*ps), G), patterns=[z3.MultiPattern(f(*ps), t) for t in rows])
                               if rows else z3.ForAll(ps + [q], z3.Implies(f(*ps), G)))
            diff = z3.Function(f.name() + ".diff", *[p.sort() for p in ps], z3.IntSort())
            self.axioms.append(z3.ForAll(ps, z3.Implies(z3.substitute(G, (q, diff(*ps))), f(*ps)), patterns=[f(*ps)]))
            self._cache.setdefault("preddef", {})[f.name()] = (ps, q, G, diff)
        return preds[key](*params)

    def named_sum(self, n, i, g):
        """sum of g over 0 <= i < n as a function of n and the terms in g, the same one for the same summand"""
        key, ps, params, q, G = self.shape(i, g)
        fs = self._cache.setdefault("prefix", {})
        if key not in fs:
            f = z3.Function("total%d" % len(fs), *[p.sort() for p in ps], z3.IntSort(), z3.RealSort())
            fs[key] = f
            self._cache.setdefault("sumdef", {})[f.name()] = (ps, q, G)
        return fs[key](*params, n)

    def sum_step(self, t, x):
        """defining equations of a sum, at 0 and from x to x + 1"""
        ps, q, G = self._cache["sumdef"][t.decl().name()]
        args = t.children()[:-1]
        f = t.decl()
        return z3.And(f(*args, z3.IntVal(0)) == 0, z3.Implies(x >= 0, f(*args, x + 1) == f(*args, x) + z3.substitute(
            G, *(list(zip(ps, args)) + [(q, x)]))))

    def named_extremum(self, n, i, g, up):
        """largest (smallest) g over 0 <= i < n as a function of n and the terms in g"""
        key, ps, params, q, G = self.shape(i, g)
        fs = self._cache.setdefault("extrema", {})
        if (key, up) not in fs:
            sorts = [p.sort() for p in ps] + [z3.IntSort()]
            f = z3.Function("%s%d" % ("largest" if up else "smallest", len(fs)), *sorts, z3.RealSort())
            at = z3.Function(f.name() + ".at", *sorts, z3.IntSort())
            fs[(key, up)] = f
            m = z3.Int("m")
            e = f(*ps, m)
            rows = [t for t in apps(G) if self.mentions(t, [q]) and plain_term(t)]
            pats = [z3.MultiPattern(e, t) for t in rows]
            bound = z3.Implies(z3.And(0 <= q, q < m), G <= e if up else G >= e)
            self.axioms.append(z3.ForAll(ps + [m, q], bound, patterns=pats) if pats else z3.ForAll(ps + [m, q], bound))
            w = at(*ps, m)
            self.axioms.append(z3.ForAll(ps + [m], z3.Implies(m > 0, z3.And(0 <= w, w < m, e == z3.substitute(G, (q, w)))), patterns=[e]))
        return fs[(key, up)](*params, n)

    def predicate_at(self, p, e):
        """instance of the defining axiom of a named quantified formula"""
        ps, q, G, diff = self._cache["preddef"][p.decl().name()]
        return z3.Implies(p, z3.substitute(G, *(list(zip(ps, p.children())) + [(q, e)])))

    def predicate_diff(self, p):
        """where the formula fails if it fails"""
        return self._cache["preddef"][p.decl().name()][3](*p.children())

    def name_quantifiers(self, g, vs, name, pats):
        """replaces quantified parts of a formula by predicates with defining axioms"""
        if z3.is_quantifier(g):
            d = z3.Function(uid(name), *[v.sort() for v in vs], z3.BoolSort())(*vs)
            xs = [z3.Const(uid("x"), g.var_sort(j)) for j in range(g.num_vars())]
            body = z3.substitute_vars(g.body(), *reversed(xs))
            ps = []
            for t in apps(body):
                if all(self.mentions(t, [x]) for x in xs):
                    ps.append(z3.MultiPattern(d, t))
            one = lambda f: z3.ForAll(vs + xs, f, patterns=ps) if ps else z3.ForAll(vs + xs, f)
            if g.is_exists():
                self.axioms.append(one(z3.Implies(body, d)))
                self.axioms.append(z3.ForAll(vs, z3.Implies(d, g), patterns=[d]))
            else:
                self.axioms.append(one(z3.Implies(d, body)))
                self.axioms.append(z3.ForAll(vs, z3.Implies(g, d), patterns=[d]))
            pats.append(d)
            return d
        if z3.is_and(g) or z3.is_or(g) or z3.is_not(g):
            return g.decl()(*[self.name_quantifiers(c, vs, name, pats) for c in g.children()])
        return g

    @staticmethod
    def filter_terms(fs, params):
        fl, fp, fr = fs
        return fl(*params), (lambda e: fp(*params, e)), (lambda e: fr(*params, e))

    def flat_item(self, nodes):
        """nodes emitting at most one item per iteration -> (guard, value)"""
        if len(nodes) == 1 and isinstance(nodes[0], Item):
            return z3.BoolVal(True), nodes[0].v
        if all(isinstance(n, Guard) for n in nodes) and nodes:
            parts = []
            for n in nodes:
                g, v = self.flat_item(n.nodes)
                parts.append((z3.And(n.g, g), v))
            g, v = parts[-1]
            for g2, v2 in reversed(parts[:-1]):
                s = z3.Solver()
                s.set("timeout", self.quick_ms)
                s.add(*self.base_axioms())
                s.add(g, g2)
                if s.check() != z3.unsat:
                    raise Unsupported("several items per iteration")
                v = self.ite(g2, v2, v)
                g = z3.Or(g2, g)
            return g, v
        raise Unsupported("several items per iteration")

    # statements ------------------------------------------------------------
    def call_func(self, f, args, kwargs, st):
        """-> list of (state, value)"""
        name = f.name
        c = self.contracts.get(name)
        if c is not None and not c.get("off"):
            try:
                bound = self.bind(f, args, kwargs, st)
            except Unsupported:
                bound = None
            if bound is not None and all(p in bound for p in c["params"]):
                r = c["apply"](self, st, bound)
                if r is not None:
                    self.called.add(name)
                    return r
        return self.call_func_body(f, args, kwargs, st)

    def call_func_body(self, f, args, kwargs, st):
        name = f.name
        self.inlined.add(name)
        self.depth += 1
        if self.depth > 24:
            self.depth -= 1
            raise Unsupported("recursion in %s" % name)
        try:
            env = dict(f.closure)
            env["__mod__"] = f.mod
            env.update(self.bind(f, args, kwargs, st))
            s2 = st.fork()
            s2.env = env
            out = []
            if isinstance(f.node, ast.Lambda):
                for s, v in self.ev(f.node.body, s2):
                    s = s.fork()
                    s.env = dict(st.env)
                    out.append((s, v))
                return out
            for s, kind, v in self.block(f.node.body, s2):
                s = s.fork()
                s.env = dict(st.env)
                if kind == "next":
                    out.append((s, None))
                elif kind == "ret":
                    out.append((s, v))
                else:
                    raise Unsupported("stray %s" % kind)
            return self.merge_rets(st, out)
        finally:
            self.depth -= 1

    def bind(self, f, args, kwargs, st):
        a = f.node.args
        if a.vararg or a.kwarg:
            raise Unsupported("varargs")
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        if len(args) > len(names):
            raise Unsupported("too many arguments")
        for n, v in zip(names, args):
            env[n] = v
        for k, v in kwargs.items():
            env[k] = v
        defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for k, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(k.arg)
            if d is not None:
                defs[k.arg] = d
        for n in names:
            if n not in env:
                if n not in defs:
                    raise Unsupported("missing argument %s" % n)
                o = self.ev(defs[n], State({"__mod__": f.mod}))
                env[n] = self.freeze(o[0][0], o[0][1])
        return env

    def block(self, stmts, st):
        outs = [(st, "next", None)]
        for s in stmts:
            nxt = []
            for x, k, v in outs:
                if k != "next":
                    nxt.append((x, k, v))
                else:
                    nxt += self.merge_next(x, self.stmt(s, x))
            outs = nxt
        return outs

    def merge_next(self, st, outs, kinds=None):
        """join the normal outcomes of a statement that differ in what was added to a model only"""
        cand = [(x, k, v) for x, k, v in outs if k == "next"]
        if len(cand) < 2:
            return outs
        kinds = kinds or self.merge_kinds
        rest = [o for o in outs if o[1] != "next"]
        x0 = cand[0][0]
        diff = set()
        for x, _, _ in cand:
            if x.binders != st.binders or x.pc[:len(st.pc)] != st.pc or x.env.keys() != x0.env.keys():
                return outs
            for n in x.env:
                if x.env[n] is not x0.env[n] and not self.same_val(x.env[n], x0.env[n]):
                    diff.add(n)
            for r, o in st.heap.items():
                p = x.heap.get(r)
                if p is not o and not (isinstance(o, kinds) and type(p) is type(o)
                                       and p.nodes[:len(o.nodes)] == o.nodes):
                    return outs
        for n in diff:
            if not self.all_mergeable([x.env[n] for x, _, _ in cand]):
                return outs
        made = {}
        for x, _, _ in cand:  # an object made by the statement must be the same in all outcomes
            for r, o in x.heap.items():
                if r not in st.heap and made.setdefault(r, o) is not o:
                    return outs
        m = st.fork()
        m.env = dict(x0.env)
        gs = [z3.And(x.pc[len(st.pc):]) if len(x.pc) > len(st.pc) else z3.BoolVal(True) for x, _, _ in cand]
        for x, _, _ in cand:
            for r, o in x.heap.items():
                if r not in m.heap:
                    m.heap[r] = o
            have = {f.get_id() for f in m.facts}
            m.facts += tuple(f for f in x.facts if f.get_id() not in have)
        for n in diff:
            m.env[n] = self.merge_vals([(g, x.env[n]) for g, (x, _, _) in zip(gs, cand)])
        for r, o in st.heap.items():
            if any(x.heap[r] is not o for x, _, _ in cand):
                new = [Guard(g, x.heap[r].nodes[len(o.nodes):]) for g, (x, _, _) in zip(gs, cand)
                       if len(x.heap[r].nodes) > len(o.nodes)]
                m.heap[r] = type(o)(o.nodes + tuple(new), o.opaque or any(x.heap[r].opaque for x, _, _ in cand))
        total = z3.Or(gs)
        if self.sat(m, z3.Not(total)):
            m.pc += (total,)
        return rest + [(m, "next", None)]

    def mergeable(self, v):
        """numbers and truth values that are not counters of a loop"""
        if isinstance(v, (bool, int)) or isinstance(v, float) and not (math.isinf(v) or math.isnan(v)):
            return True
        return isinstance(v, (SV, LinV)) and not self.has_carry(v.e)

    def all_mergeable(self, vs):
        def kind(v):
            if isinstance(v, bool) or isinstance(v, SV) and z3.is_bool(v.e):
                return "b"
            if isinstance(v, SV) and not z3.is_arith(v.e):
                return v.e.sort().name()
            return "n"
        return all(map(self.mergeable, vs)) and len(set(map(kind, vs))) == 1

    def has_carry(self, e):
        seen, todo = set(), [e]
        while todo:
            x = todo.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_quantifier(x):
                todo.append(x.body())
                continue
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and str(x).startswith("cin_"):
                return True
            todo += x.children()
        return False

    def merge_vals(self, gv):
        out = gv[-1][1]
        for g, v in reversed(gv[:-1]):
            out = self.ite(g, v, out)
        return out

    def merge_rets(self, st, outs):
        """join the outcomes of a call that differ in the returned number only"""
        if len(outs) < 2 or not self.all_mergeable([v for _, v in outs]):
            return outs
        for x, _ in outs:
            if x.binders != st.binders or x.pc[:len(st.pc)] != st.pc or any(x.heap.get(r) is not o for r, o in st.heap.items()):
                return outs
        m = st.fork()
        gs = [z3.And(x.pc[len(st.pc):]) if len(x.pc) > len(st.pc) else z3.BoolVal(True) for x, _ in outs]
        for x, _ in outs:
            have = {f.get_id() for f in m.facts}
            m.facts += tuple(f for f in x.facts if f.get_id() not in have)
        if any(isinstance(v, (LinV, SV)) for _, v in outs):
            v = self.merge_vals([(g, v) for g, (_, v) in zip(gs, outs)])
        else:
            v = outs[0][1]
            if any(o[1] != v for o in outs):
                v = self.merge_vals([(g, v) for g, (_, v) in zip(gs, outs)])
        total = z3.Or(gs)
        if self.sat(m, z3.Not(total)):
            m.pc += (total,)
        return [(m, v)]

    def same_val(self, a, b):
        try:
            return self.vkey(a) == self.vkey(b)
        except Unsupported:
            return False

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return m(s, st)

    def s_Pass(self, s, st):
        return [(st, "next", None)]

    s_Import = s_ImportFrom = s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return [(st, "next", None)]
        return [(x, "next", None) for x, _ in self.ev(s.value, st)]

    def s_Return(self, s, st):
        if s.value is None:
            return [(st, "ret", None)]
        return [(x, "ret", v) for x, v in self.ev(s.value, st)]

    def s_Break(self, s, st):
        return [(st, "brk", None)]

    def s_Continue(self, s, st):
        return [(st, "cont", None)]

    def s_FunctionDef(self, s, st):
        st = st.fork()
        st.env[s.name] = Func(s, st.env.get("__mod__"), dict(st.env), s.name)
        return [(st, "next", None)]

    def s_Assert(self, s, st):
        out = []
        for x, v in self.ev(s.test, st):
            for y in self.require(x, self.truth(v, x), "AssertionError"):
                out.append((y, "next", None))
        return out

    def s_Raise(self, s, st):
        name = "Exception"
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            name = e.id
        self.throw(st, name)
        return []

    def s_If(self, s, st):
        out = []
        for x, v in self.ev(s.test, st):
            for y, b in self.branch(x, self.truth(v, x)):
                out.extend(self.block(s.body if b else s.orelse, y))
        return out

    def s_Try(self, s, st):
        if s.finalbody:
            raise Unsupported("finally")
        self.exc.append([])
        try:
            outs = self.block(s.body, st)
        finally:
            ex = self.exc.pop()
        if s.orelse:
            o2 = []
            for x, k, v in outs:
                o2.extend(self.block(s.orelse, x) if k == "next" else [(x, k, v)])
            outs = o2
        for x, name in ex:
            for h in s.handlers:
                if h.type is None or isinstance(h.type, ast.Name) and h.type.id in (name, "Exception") or \
                        isinstance(h.type, ast.Tuple) and any(getattr(t, "id", "") == name for t in h.type.elts):
                    if h.name:
                        x = x.fork()
                        x.env[h.name] = Poison("exception object")
                    outs.extend(self.block(h.body, x))
                    break
            else:
                self.exc[-1].append((x, name))
        return outs

    def s_Delete(self, s, st):
        raise Unsupported("del")

    def s_With(self, s, st):
        raise Unsupported("with")

    def s_While(self, s, st):
        if s.orelse:
            raise Unsupported("else of a while loop")
        for rule in self.while_rules:  # loops with a supplied invariant
            done = rule(self, s, st)
            if done is not None:
                return done
        c = self.counted(s.test)
        if c is not None and c[0] in assigned(s.body):
            return self.counting(s, st, *c)
        out, cur = [], [st]
        for _ in range(3):
            nxt = []
            for x in cur:
                for y, v in self.ev(s.test, x):
                    for z, b in self.branch(y, self.truth(v, y)):
                        if not b:
                            out.append((z, "next", None))
                            continue
                        for u, k, w in self.block(s.body, z):
                            if k in ("next", "cont"):
                                nxt.append(u)
                            else:
                                out.append((u, "next" if k == "brk" else k, w))
            cur = nxt
            if not cur:
                return out
        raise Unsupported("while loop")

    def counted(self, t):
        """(counter, limit) of a condition counter < limit"""
        if not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        a, op, b = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, ast.Gt):
            a, op, b = b, ast.Lt(), a
        if isinstance(op, ast.In) and isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == "range" and len(b.args) == 1 and not b.keywords:
            op, b = ast.Lt(), b.args[0]
        if isinstance(op, ast.Lt) and isinstance(a, ast.Name):
            return a.id, b
        return None

    def counting(self, s, st, name, limit):
        """while name < limit, with steps of one and a fixed limit: a loop over the values"""
        out = []
        whole = lambda v: z3.IntVal(v) if isinstance(v, int) and not isinstance(v, bool) else \
            v.e if isinstance(v, SV) and v.e.sort() == z3.IntSort() else None
        c0 = whole(st.env.get(name))
        for x, lim in self.ev(limit, st):
            N = whole(lim)
            if c0 is None or N is None:
                raise Unsupported("while loop")
            n = N - c0 if self.must(x, N >= c0) else z3.If(N > c0, N - c0, 0)
            n = z3.simplify(n) if z3.is_int_value(c0) else n
            if z3.is_int_value(c0) and not self.must(x, c0 >= 0) and isinstance(s.test.ops[0], ast.In):
                raise Unsupported("while loop")

            def body(y, v):
                y = y.fork()
                y.env = dict(y.env)
                y.env[name] = SV(c0 + v.e)
                outs = self.block(s.body, y)
                for z, k, _ in outs:
                    if k in ("next", "cont"):
                        c = whole(z.env.get(name))
                        if c is None or not self.must(z, c == c0 + v.e + 1):
                            raise Unsupported("while loop not counting by one")
                        ls = self.ev(limit, z)
                        m = whole(ls[0][1]) if len(ls) == 1 else None
                        if m is None or not m.eq(N) and not self.must(z, m == N):
                            raise Unsupported("while loop with a moving limit")
                return outs
            q = z3.Int(uid("q"))
            node = Loop([q], z3.And(0 <= q, q < n), [Item(SV(q))], n)
            for y, k, v in self.loop(node, x, body, assigned(s.body) - {name}, key=id(s)):
                y.env = dict(y.env)
                y.env[name] = SV(c0 + n) if k == "next" else Poison("counter after leaving a loop")
                out.append((y, "next" if k == "brk" else k, v))
        return out

    def assign(self, t, v, st):
        """-> list of states"""
        if isinstance(t, ast.Name):
            st = st.fork()
            st.env[t.id] = v
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = self.view(v, st)
            if isinstance(vals, FinDict):
                items = [k for k, _ in vals.entries]
            elif isinstance(vals, tuple):
                items = list(vals)
            elif isinstance(vals, CList):
                items = vals.items
            elif isinstance(vals, SeqV):
                items = [vals.at(i) for i in range(len(t.elts))]
                sts = self.require(st, vals.n == len(t.elts), "ValueError")
                out = []
                for x in sts:
                    cur = [x]
                    for e, i in zip(t.elts, items):
                        cur = [z for y in cur for z in self.assign(e, i, y)]
                    out += cur
                return out
            elif isinstance(vals, CompV):
                try:
                    items = [n.v for n in vals.nodes]
                except AttributeError:
                    raise Unsupported("unpack")
            else:
                raise Unsupported("unpack of %s" % type(vals).__name__)
            if any(isinstance(e, ast.Starred) for e in t.elts):
                raise Unsupported("starred")
            if len(items) != len(t.elts):
                self.throw(st, "ValueError")
                return []
            cur = [st]
            for e, i in zip(t.elts, items):
                cur = [z for y in cur for z in self.assign(e, i, y)]
            return cur
        if isinstance(t, ast.Subscript):
            out = []
            for x, (o, k) in self.evs([t.value, t.slice], st):
                out.extend(self.setitem(o, k, v, x))
            return out
        raise Unsupported("assignment target")

    def setitem(self, o, k, v, st):
        if isinstance(o, Ref):
            obj = st.heap[o.id]
            st = st.fork()
            if isinstance(obj, DictObj):
                st.heap[o.id] = obj.add(Item(("put", k, v)))
                return [st]
            if isinstance(obj, ListObj) and not obj.opaque:
                l = self.view(o, st)
                if isinstance(l, CList) and isinstance(k, int):
                    items = list(l.items)
                    items[k] = v
                    st.heap[o.id] = ListObj([Item(x) for x in items])
                    return [st]
        if hasattr(o, "py_setitem"):
            return o.py_setitem(self, k, v, st)
        raise Unsupported("item assignment on %s" % type(o).__name__)

    def s_Assign(self, s, st):
        out = []
        for x, v in self.ev(s.value, st):
            cur = [x]
            for t in s.targets:
                cur = [z for y in cur for z in self.assign(t, v, y)]
            out += [(y, "next", None) for y in cur]
        return out

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [(st, "next", None)]
        return [(z, "next", None) for x, v in self.ev(s.value, st) for z in self.assign(s.target, v, x)]

    def s_AugAssign(self, s, st):
        out = []
        load = ast.copy_location(ast.parse(ast.unparse(s.target), mode="eval").body, s)
        for x, (a, b) in self.evs([load, s.value], st):
            if isinstance(a, Ref) and isinstance(s.op, ast.Add):
                o = x.heap[a.id]
                x = x.fork()
                if isinstance(o, ProbObj):
                    for y in self.prob_add(a, b, x):
                        out.append((y, "next", None))
                    continue
                if isinstance(o, ListObj) and not isinstance(o, (DictObj, SetObj, NestObj)):
                    cur = o
                    for n in self.tree(b, x):
                        cur = cur.add(n)
                    x.heap[a.id] = cur
                    out.append((x, "next", None))
                    continue
            if isinstance(a, Ref) and isinstance(x.heap[a.id], SetObj) and isinstance(s.op, ast.BitOr):
                x = x.fork()
                cur = x.heap[a.id]
                for n in self.tree(b, x):
                    cur = cur.add(n)
                x.heap[a.id] = cur
                out.append((x, "next", None))
                continue
            for y, v in self.binop(s.op, a, b, x):
                for z in self.assign(s.target, v, y):
                    out.append((z, "next", None))
        return out

    def prob_add(self, ref, b, st):
        name = None
        if isinstance(b, tuple):
            b, name = b
        o = st.heap[ref.id]
        if isinstance(b, ConV):
            st.heap[ref.id] = o.add(Item(("con", b, name)))
            return [st]
        if isinstance(b, LinV):
            st.heap[ref.id] = o.add(Item(("obj", b, name)))
            return [st]
        if b is True:
            return [st]
        raise Unsupported("problem += %r" % (b,))

    # loops -----------------------------------------------------------------
    def s_For(self, s, st):
        out = []
        for x, it in self.ev(s.iter, st):
            nodes = self.tree(it, x)

            def body(y, v):
                r = []
                for z in self.assign(s.target, v, y):
                    r.extend(self.block(s.body, z))
                return r

            for rule in () if s.orelse else self.rules:  # loops with a supplied invariant
                done = rule(self, s, x, nodes, body)
                if done is not None:
                    break
            else:
                done = None
            if done is not None:
                out.extend(done)
                continue
            for y, kind, v in self.walk(nodes, x, body, names=assigned(s.body) | assigned_target(s.target), key=id(s)):
                if kind == "next" and s.orelse:
                    out.extend(self.block(s.orelse, y))
                elif kind == "brk":
                    out.append((y, "next", None))
                else:
                    out.append((y, kind, v))
        return out

    def walk(self, nodes, st, body, names, key=None):
        """run body over the elements of an emission tree, in order"""
        outs = [(st, "next", None)]
        for n in nodes:
            nxt = []
            for x, kind, v in outs:
                if kind != "next":
                    nxt.append((x, kind, v))
                    continue
                if isinstance(n, Item):
                    for y, k, w in body(x, n.v):
                        nxt.append((y, "next" if k == "cont" else k, w))
                elif isinstance(n, Guard):
                    both = []
                    for y, b in self.branch(x, n.g):
                        if b:
                            both.extend(self.walk(n.nodes, y, body, names, key))
                        else:
                            both.append((y, "next", None))
                    nxt.extend(self.rejoin(x, both, names) if len(nodes) > 3 else both)
                else:
                    nxt.extend(self.loop(n, x, body, names, key))
            outs = nxt
        return outs

    def rejoin(self, st, outs, names):
        """one outcome after an element that may or may not be there"""
        for y, k, _ in outs:
            y.env = dict(y.env)
            for m in names:
                if m not in st.env or isinstance(st.env[m], Poison):
                    y.env[m] = self._lost.setdefault(m, Poison("loop variable %s after the loop" % m))
        return self.merge_next(st, outs, (ProbObj, NestObj, ListObj))

    def loop(self, node, st, body, names, key=None):
        bs, dom, sub = rename(node)
        idx = bs[0] if node.n is not None and len(bs) == 1 else None
        mutated = {r for r in self._mut.get(key, ()) if r in st.heap} if key is not None else set()
        carried = {n: st.env[n] for n in names if n in st.env}
        unstable = set()
        for _ in range(8):
            s0 = st.fork()
            s0.binders = st.binders + tuple(bs)
            s0.pc = st.pc + (dom,)
            since = self.next_ref
            for r in mutated:
                o = st.heap[r]
                s0.heap[r] = type(o)((), True)
            cin = {}
            for n, v in carried.items():
                if isinstance(v, bool) or isinstance(v, SV) and z3.is_bool(v.e):
                    cin[n] = SV(z3.Bool(uid("cin_" + n)))
                elif isinstance(v, (int, float)) and not math.isinf(v) or isinstance(v, SV) and z3.is_arith(v.e):
                    cin[n] = SV(z3.Real(uid("cin_" + n)))
                elif isinstance(v, LinV):
                    cin[n] = LinV(z3.Real(uid("cin_" + n)))
                elif n not in unstable:
                    cin[n] = v
                else:
                    cin[n] = Poison("variable %s carried through a loop" % n)
                s0.env[n] = cin[n]
            nobl = len(self.obls)
            self.exc.append([])
            try:
                outs = self.walk(sub, s0, body, names, key)
            finally:
                exs = self.exc.pop()
            new = set()
            for (x, k, v) in outs:
                for r, o in x.heap.items():
                    if r in st.heap and r not in mutated and o is not st.heap[r]:
                        new.add(r)
            bad = {n for n, c in cin.items() if not isinstance(c, (SV, LinV, Poison))
                   and any(k in ("next", "cont") and x.env.get(n) is not c and x.env.get(n) != c for x, k, v in outs)}
            unstable |= bad
            if not new and not bad:
                break
            mutated |= new
            if key is not None:
                self._mut.setdefault(key, set()).update(new)
            del self.obls[nobl:]
        else:
            raise Unsupported("loop effects do not stabilise")
        npc, nfacts = len(st.pc) + 1, len(st.facts)

        # exceptions inside the body: witness element
        for x, name in exs:
            y = x.fork()
            y.env = dict(st.env)
            self.exc[-1].append((y, name))

        def guard(x):
            g = x.pc[npc:]
            return z3.And(*g) if len(g) > 1 else g[0] if g else z3.BoolVal(True)

        after = st.fork()
        after.facts = st.facts
        # facts established in the body hold for every element (they name their conditions)
        rigid = [c.e for c in cin.values() if isinstance(c, (SV, LinV))]
        seen = set()
        for x, k, v in outs:
            for f in x.facts[nfacts:]:
                if f.get_id() not in seen:
                    seen.add(f.get_id())
                    if rigid and self.mentions(f, rigid):
                        continue  # says something about one round only
                    after.facts += (z3.ForAll(bs, z3.Implies(dom, f)) if self.mentions(f, bs) else f,)
        if exs:
            gs = [guard(x) for x, k, v in outs]
            cv = [c.e for c in cin.values() if isinstance(c, (SV, LinV))]
            if cv and any(self.mentions(g, cv) for g in gs):
                pass
            else:
                # no element raised; holds on this path only
                after.facts += (z3.ForAll(bs, z3.Implies(z3.And(st.pc + (dom,)), z3.Or(gs))),)
        rets = [o for o in outs if o[1] not in ("next", "cont")]
        nexts = [o for o in outs if o[1] == "next"]

        effects = {}
        for r in mutated:
            merged = []
            for x, k, v in outs:
                o = x.heap[r]
                ns = [self.nfreeze(x, self.multimap(x, r, n), since) for n in o.nodes]
                if ns:
                    if k != "next":
                        raise Unsupported("loop leaves early after an effect")
                    g = guard(x)
                    merged.extend(ns if z3.is_true(g) else [Guard(g, ns)])
            effects[r] = merged
        # variables carried from one iteration to the next
        post_env = {}
        closed = []
        for n, v in carried.items():
            if all(x.env.get(n) is cin[n] or not isinstance(cin[n], (SV, LinV, Poison)) for x, k, _ in nexts):
                continue
            post_env[n] = self.carry(n, v, cin[n], nexts, guard, bs, dom, idx, node.n, st, closed, since)
        for n in names:
            if n not in st.env:
                post_env[n] = self.last_value(n, nexts, guard, bs, idx, node.n, cin)
        cvars = []
        for n, c in cin.items():
            if isinstance(c, (SV, LinV)):
                cvars.append((n, c.e))
        sub_m = [(e, val) for e, val in closed]
        done = {e.get_id() for e, _ in closed}
        if sub_m:
            effects = {r: [nsubst(n, sub_m) for n in ns] for r, ns in effects.items()}
        # no other carried variable may occur in an effect or a guard
        left = [(n, e) for n, e in cvars if e.get_id() not in done]
        if left:
            for n, e in left:
                for ns in effects.values():
                    if any(self.node_mentions(q, [e]) for q in ns):
                        raise Unsupported("effect depends on carried variable %s" % n)
                for x, k, v in rets:
                    if any(self.mentions(p, [e]) for p in x.pc[npc:]):
                        raise Unsupported("exit depends on carried variable %s" % n)
                for x, name in exs:
                    if any(self.mentions(p, [e]) for p in x.pc[npc:]):
                        pass
        if rets:
            if any(effects.values()):
                raise Unsupported("loop with early exit and effects")
            if sub_m:
                raise Unsupported("early exit with counter")
        for r, ns in effects.items():
            o = st.heap[r]
            if ns:
                cls = {type(x.heap[r]) for x, k, v in outs if x.heap[r].nodes}
                if len(cls) != 1 or type(o) not in cls and o.nodes:
                    raise Unsupported("object used in two ways")
                after.heap[r] = cls.pop()(o.nodes, o.opaque).add(Loop(bs, dom, ns, node.n if idx is not None else None))
        results = []
        if rets:
            go = z3.Or([guard(x) for x, k, v in nexts]) if nexts else z3.BoolVal(False)
            groups = []
            for x, k, v in rets:
                fv = self.freeze(x, v, since)
                fenv = {n: self.freeze(x, x.env[n], since) for n in names if n in x.env} if k == "brk" else {}
                plain = k != "brk" and not self.val_mentions(fv, bs)
                for gr in groups:
                    if plain and gr["plain"] and gr["k"] == k and self.vkey(gr["v"]) == self.vkey(fv):
                        gr["g"].append(guard(x))
                        break
                else:
                    groups.append({"g": [guard(x)], "v": fv, "k": k, "plain": plain, "env": fenv})
            if idx is None and len(groups) > 1:
                self.approx = True  # which element is met first is not known
            for gr in groups:
                y = after.fork()
                y.env = dict(st.env)
                hit = z3.Or(gr["g"]) if len(gr["g"]) > 1 else gr["g"][0]
                first = z3.BoolVal(True)
                if idx is not None and not (gr["plain"] and len(groups) == 1):
                    i2 = z3.Int(uid("before"))
                    first = z3.ForAll([i2], z3.Implies(z3.And(0 <= i2, i2 < idx), z3.substitute(go, (idx, i2))))
                elif not gr["plain"]:
                    self.approx = True
                body = z3.And(dom, hit, first)
                cond = z3.Exists(bs, body)
                m = []
                if not gr["plain"]:
                    w = [self.fresh(st, str(b).split("!")[0], b.sort()) for b in bs]
                    m = list(zip(bs, w))
                    y.facts += (z3.Implies(cond, z3.substitute(body, *m)),)
                if not self.sat(y, cond):
                    continue
                y.pc = st.pc + (cond,)
                for n, val in gr["env"].items():
                    y.env[n] = subst(val, m)
                results.append((y, gr["k"], subst(gr["v"], m)))
            cont = z3.ForAll(bs, z3.Implies(dom, go))
            if self.sat(after, cont):
                after.pc = after.pc + (cont,)
                results.append((after, "next", None))
        else:
            results.append((after, "next", None))
        for n, v in post_env.items():
            after.env[n] = v
        return results

    def mentions(self, f, consts):
        ids = {c.get_id() for c in consts}
        stack, seen = [f], set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if t.get_id() in ids:
                return True
            if z3.is_quantifier(t):
                stack.append(t.body())
            else:
                stack.extend(t.children())
        return False

    def mentions_fun(self, f, decl):
        stack, seen = [f], set()
        while stack:
            t = stack.pop()
            if t.get_id() in seen:
                continue
            seen.add(t.get_id())
            if z3.is_quantifier(t):
                stack.append(t.body())
                continue
            if z3.is_app(t) and t.decl().eq(decl):
                return True
            stack.extend(t.children())
        return False

    def val_mentions(self, v, consts):
        probe = [(c, z3.Const(uid("probe"), c.sort())) for c in consts]
        return self.vkey(subst(v, probe)) != self.vkey(v)

    def node_mentions(self, n, consts):
        probe = [(c, z3.Const(uid("probe"), c.sort())) for c in consts]
        return self.vkey(nsubst(n, probe)) != self.vkey(n)

    def vkey(self, x):
        """structural fingerprint of a value / node"""
        if isinstance(x, Item):
            return ("I", self.vkey(x.v))
        if isinstance(x, Guard):
            return ("G", x.g.get_id(), tuple(map(self.vkey, x.nodes)))
        if isinstance(x, Loop):
            return ("L", tuple(b.get_id() for b in x.binders), x.dom.get_id(), tuple(map(self.vkey, x.nodes)))
        if isinstance(x, (SV, LinV)):
            return ("E", x.e.get_id())
        if isinstance(x, ConV):
            return ("C", x.f.get_id())
        if isinstance(x, (tuple, list)):
            return ("T",) + tuple(map(self.vkey, x))
        if isinstance(x, CList):
            return ("CL",) + tuple(map(self.vkey, x.items))
        if isinstance(x, FStr):
            return ("F",) + tuple(map(self.vkey, x.parts))
        if isinstance(x, FinDict):
            return ("FD",) + tuple((self.vkey(a), self.vkey(b)) for a, b in x.entries)
        if isinstance(x, (CompV, MapV)):
            return ("CM",) + tuple(map(self.vkey, x.nodes))
        if isinstance(x, SeqV):
            return ("S", x.n.get_id() if z3.is_expr(x.n) else x.n, x.ivar.get_id(), self.vkey(x.body))
        if isinstance(x, OptV):
            return ("O", x.null.get_id(), self.vkey(x.v))
        if z3.is_expr(x):
            return ("Z", x.get_id())
        if x is None or isinstance(x, (bool, int, float, str)):
            return ("P", repr(x))
        if hasattr(x, "vkey"):
            return x.vkey(self)
        return ("?", id(x))

    def multimap(self, st, ref, n):
        """d[k] = [x...] on a path where k was tested absent is an append"""
        if isinstance(n, Item) and isinstance(n.v, tuple) and n.v and n.v[0] == "put" and len(n.v) == 3:
            _, k, v = n.v
            t = self.absent_test(st, ref, k)
            if t:
                w = self.view(v, st)
                if isinstance(w, CList):
                    return Guard(z3.BoolVal(True), [Item(("app", k, x)) for x in w.items])
        return n

    def absent_test(self, st, ref, k):
        for (r, key, e) in self._cache.get("memtest", []):
            if r == ref and any(p.eq(z3.Not(e)) for p in st.pc):
                q = self.eq(k, key, st)
                if q is True or not isinstance(q, bool) and self.must(st, q):
                    return True
        return False

    def carry(self, n, pre, cin, nexts, guard, bs, dom, idx, cnt, st, closed, since):
        outs = [(guard(x), x.env.get(n), x) for x, k, _ in nexts]
        if isinstance(cin, (SV, LinV)) and z3.is_arith(cin.e):
            deltas = []
            for g, v, x in outs:
                if v is cin:
                    deltas.append((g, z3.RealVal(0)))
                    continue
                if not (self.is_num(v) or isinstance(v, LinV)):
                    return Poison("variable %s after a loop" % n)
                d = z3.simplify(z3.ToReal(self.num(v)) - cin.e if self.num(v).sort() == z3.IntSort() else self.num(v) - cin.e)
                if self.mentions(d, [cin.e]):
                    d = z3.simplify(z3.substitute(d, (cin.e, z3.RealVal(0))))
                    s = z3.Solver()
                    s.set("timeout", self.quick_ms)
                    s.add(d != (self.num(v) - cin.e))
                    if s.check() != z3.unsat:
                        return Poison("variable %s overwritten in a loop" % n)
                if self.mentions(g, [cin.e]):
                    return Poison("variable %s: guarded by itself" % n)
                deltas.append((g, d))
            vals = {str(d) for g, d in deltas}
            if len(vals) == 1 and z3.is_rational_value(deltas[0][1]) and idx is not None and cnt is not None:
                c = deltas[0][1]
                p = self.num(pre)
                cur = z3.simplify(c * z3.ToReal(idx) + p)
                closed.append((cin.e, cur))
                tot = c * z3.ToReal(cnt if z3.is_expr(cnt) else z3.IntVal(cnt)) + p
                if isinstance(pre, LinV) or isinstance(cin, LinV):
                    return LinV(tot)
                if self.num(pre).sort() == z3.IntSort() and c.denominator_as_long() == 1:
                    return SV(z3.IntVal(c.numerator_as_long()) * (cnt if z3.is_expr(cnt) else z3.IntVal(cnt)) + self.num(pre))
                return SV(tot)
            body = z3.RealVal(0)
            for g, d in deltas:
                body = z3.If(g, d, body)
            t = self.sum_term(st, bs, dom, body)
            p = self.num(pre)
            p = z3.ToReal(p) if p.sort() == z3.IntSort() else p
            lin = isinstance(pre, LinV) or any(isinstance(v, LinV) for g, v, x in outs)
            return LinV(p + t) if lin else SV(p + t)
        if isinstance(cin, SV) and z3.is_bool(cin.e):
            hit = []
            for g, v, x in outs:
                if v is cin:
                    continue
                if v is True:
                    hit.append(g)
                else:
                    return Poison("flag %s after a loop" % n)
            if any(self.mentions(g, [cin.e]) for g in hit):
                return Poison("flag %s guarded by itself" % n)
            return SV(z3.Or(self.b(self.truth(pre, st)), z3.Exists(bs, z3.And(dom, z3.Or(hit)))))
        return Poison("variable %s after a loop" % n)

    def last_value(self, n, nexts, guard, bs, idx, cnt, cin):
        """a number assigned in every round has the value of the last round"""
        lost = Poison("loop variable %s after the loop" % n)
        vals = [(guard(x), x.env.get(n)) for x, k, _ in nexts]
        if idx is None or not vals or not all(self.is_num(v) and not isinstance(v, bool) for g, v in vals):
            return lost
        cs = [c.e for c in cin.values() if isinstance(c, (SV, LinV))]
        if any(self.mentions(e, cs) for g, v in vals for e in (g, self.num(v))):
            return lost
        cnt = cnt if z3.is_expr(cnt) else z3.IntVal(cnt)
        nums = [self.num(v) for g, v in vals]
        if len({e.sort().name() for e in nums}) != 1:
            return lost
        r = nums[-1]
        for (g, v), e in list(zip(vals, nums))[-2::-1]:
            r = r if e.eq(r) else z3.If(g, e, r)
        return LastV(cnt > 0, SV(z3.substitute(r, (idx, cnt - 1))))

    def sum_term(self, st, bs, dom, body):
        """constant standing for the sum of body over dom"""
        t = self.fresh(st, "sum", z3.RealSort())
        ctx = z3.And(st.pc) if st.binders and st.pc else z3.BoolVal(True)  # where the sum is formed
        self.sums[t.decl().name()] = (t, list(st.binders), list(bs), dom, body, ctx)
        return t

    def tree_total(self, nodes, leaf, st):
        """sum of leaf over the emissions: plain part plus one sum constant per binder set"""
        plain, sums = z3.RealVal(0), {}

        def rec(ns, bs, dom, g):
            nonlocal plain
            for n in ns:
                if isinstance(n, Item):
                    x = leaf(n.v)
                    if g:
                        x = z3.If(z3.And(g) if len(g) > 1 else g[0], x, z3.RealVal(0))
                    if not bs:
                        plain = plain + x
                    else:
                        k = tuple(b.get_id() for b in bs)
                        o = sums.get(k)
                        sums[k] = (bs, dom, x if o is None else o[2] + x)
                elif isinstance(n, Guard):
                    rec(n.nodes, bs, dom, g + [n.g])
                else:
                    rec(n.nodes, bs + list(n.binders), z3.And(dom, n.dom) if dom is not None else n.dom, g)
        rec(nodes, [], None, [])
        tot = z3.simplify(plain)
        if self.interned and len(nodes) == 1 and isinstance(nodes[0], Loop) and nodes[0].n is not None and len(nodes[0].binders) == 1 \
                and all(len(bs) == 1 for bs, _, _ in sums.values()):
            (bs, dom, x), n = list(sums.values())[0], nodes[0].n
            if self.must(st, n <= 3):  # a short window
                for k in range(3):
                    y = z3.substitute(x, (bs[0], z3.IntVal(k)))
                    if self.must(st, n > k):
                        tot = tot + y
                    elif not self.must(st, n <= k):
                        tot = tot + z3.If(n > k, y, z3.RealVal(0))
                return tot
            if self.must(st, n >= 0):
                return self.named_sum(n, bs[0], x)
        for bs, dom, x in sums.values():
            t = self.sum_term(st, bs, dom, x)
            tot = t if z3.is_rational_value(tot) and tot.numerator_as_long() == 0 else tot + t
        return tot

    # expressions -----------------------------------------------------------
    def evs(self, exprs, st):
        outs = [(st, [])]
        for e in exprs:
            outs = [(y, vs + [v]) for x, vs in outs for y, v in self.ev(e, x)]
        return outs

    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, st)

    def e_Constant(self, e, st):
        return [(st, e.value)]

    def e_Name(self, e, st):
        if e.id in st.env:
            v = st.env[e.id]
            if isinstance(v, LastV):
                return [(x, v.v) for x in self.require(st, v.cond, "UnboundLocalError")]
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            if isinstance(v, OptV) and v.v is not None and self.must(st, z3.Not(v.null)):
                v = v.v
            return [(st, v)]
        mod = st.env.get("__mod__")
        return [(st, self.resolve_global(mod, e.id))]

    def e_Tuple(self, e, st):
        return [(x, tuple(vs)) for x, vs in self.evs(e.elts, st)]

    def e_List(self, e, st):
        out = []
        for x, vs in self.evs(e.elts, st):
            x = x.fork()
            out.append((x, self.alloc(x, ListObj([Item(v) for v in vs]))))
        return out

    def e_Set(self, e, st):
        out = []
        for x, vs in self.evs(e.elts, st):
            x = x.fork()
            out.append((x, self.alloc(x, SetObj([Item(v) for v in vs]))))
        return out

    def e_Dict(self, e, st):
        out = []
        from .prims import put_nodes
        ks = [k for k in e.keys if k is not None]
        for x, vs in self.evs(ks + list(e.values), st):
            it = iter(vs[:len(ks)])
            nodes = []
            x = x.fork()
            for k, v in zip(e.keys, vs[len(ks):]):
                if k is None:
                    nodes += put_nodes(self, self.view(v, x))
                else:
                    nodes.append(Item(("put", next(it), v)))
            out.append((x, self.alloc(x, DictObj(nodes))))
        return out

    def e_JoinedStr(self, e, st):
        outs = [(st, [])]
        for p in e.values:
            if isinstance(p, ast.Constant):
                outs = [(x, vs + [p.value]) for x, vs in outs]
            else:
                if p.format_spec is not None:
                    raise Unsupported("format spec")
                outs = [(y, vs + [self.to_str(v, y)]) for x, vs in outs for y, v in self.ev(p.value, x)]
        res = []
        for x, vs in outs:
            f = FStr(vs)
            res.append((x, f.parts[0] if len(f.parts) == 1 and isinstance(f.parts[0], str) else f if f.parts else ""))
        return res

    def to_str(self, v, st):
        if isinstance(v, str):
            return v
        if isinstance(v, (int, bool)) or v is None:
            return str(v)
        if isinstance(v, (SV, FStr)):
            return v
        if isinstance(v, float):
            return str(v)
        return Poison("string form")

    def e_BinOp(self, e, st):
        return [z for x, (a, b) in self.evs([e.left, e.right], st) for z in self.binop(e.op, a, b, x)]

    def binop(self, op, a, b, st):
        for x, y in ((a, b), (b, a)):
            if hasattr(x, "py_binop"):
                r = x.py_binop(self, op, a, b, st)
                if r is not None:
                    return r
        if isinstance(a, OptV) or isinstance(b, OptV):
            null = z3.simplify(z3.Or([x.null for x in (a, b) if isinstance(x, OptV)]))
            a, b = [x.v if isinstance(x, OptV) else x for x in (a, b)]
            if a is None or b is None:
                return [(st, NAN)]
            return [(x, OptV(null, v)) for x, v in self.binop(op, a, b, st)]
        if isinstance(op, ast.Add):
            if isinstance(a, (str, FStr)) or isinstance(b, (str, FStr)):
                if isinstance(a, str) and isinstance(b, str):
                    return [(st, a + b)]
                return [(st, FStr([a, b]))]
            if isinstance(a, SV) and a.e.sort() == z3.StringSort():
                return [(st, SV(z3.Concat(a.e, self.zstr(b))))]
            la, lb = self.view(a, st), self.view(b, st)
            if isinstance(la, (CList, SeqV, CompV)) and isinstance(lb, (CList, SeqV, CompV)):
                st = st.fork()
                return [(st, self.alloc(st, ListObj(self.tree(la, st) + self.tree(lb, st))))]
            if isinstance(a, tuple) and isinstance(b, tuple):
                return [(st, a + b)]
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.Sub)):
            sa, sb = self.as_set(a, st), self.as_set(b, st)
            if sa is not None and sb is not None:
                return [(st, self.setop(type(op).__name__, a, b, st))]
        conc = (int, float)
        if isinstance(a, conc) and isinstance(b, conc):
            try:
                r = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                     ast.FloorDiv: lambda: a // b, ast.Mod: lambda: a % b, ast.Pow: lambda: a ** b}[type(op)]()
            except ZeroDivisionError:
                self.throw(st, "ZeroDivisionError")
                return []
            return [(st, r)]
        lin = isinstance(a, LinV) or isinstance(b, LinV)
        for x, y, sgn in ((a, b, 1), (b, a, -1)):
            if isinstance(x, float) and math.isinf(x):
                if isinstance(op, ast.Add) or isinstance(op, ast.Sub) and sgn == 1:
                    return [(st, x)]
                raise Unsupported("arithmetic on infinity")
        x, y = self.num(a), self.num(b)
        W = (lambda r: LinV(r)) if lin else (lambda r: SV(r))
        if x.sort() != y.sort():
            x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
            y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
        if lin and x.sort() == z3.IntSort():
            x, y = z3.ToReal(x), z3.ToReal(y)
        if isinstance(op, (ast.Add, ast.Sub, ast.Mult)):
            f = {ast.Add: lambda p, q: p + q, ast.Sub: lambda p, q: p - q, ast.Mult: lambda p, q: p * q}[type(op)]
            return [(st, W(push(f, x, y, isinstance(op, ast.Mult))))]
        if isinstance(op, ast.Pow) and isinstance(b, int) and 0 <= b <= 3:
            r = z3.RealVal(1) if x.sort() == z3.RealSort() else z3.IntVal(1)
            for _ in range(b):
                r = r * x
            return [(st, W(r))]
        if isinstance(op, ast.Div):
            x = z3.ToReal(x) if x.sort() == z3.IntSort() else x
            y = z3.ToReal(y) if y.sort() == z3.IntSort() else y
            return [(s, W(x / y)) for s in self.require(st, y != 0, "ZeroDivisionError")]
        if isinstance(op, (ast.FloorDiv, ast.Mod)):
            if x.sort() != z3.IntSort():
                raise Unsupported("floor division of reals")
            if isinstance(b, int) and b > 0:
                return [(st, W(x / y if isinstance(op, ast.FloorDiv) else x % y))]
        raise Unsupported("operator %s" % type(op).__name__)

    def as_set(self, v, st):
        if isinstance(v, Ref) and isinstance(st.heap[v.id], SetObj):
            return v
        if isinstance(v, CompV) and v.kind == "set":
            return v
        if isinstance(v, Prim):
            return None
        return None

    def setop(self, op, a, b, st):
        ta, tb = self.tree(a, st), self.tree(b, st)
        if op == "BitOr":
            return CompV(ta + tb, "set")
        def filt(nodes, pos):
            out = []
            for n in nodes:
                if isinstance(n, Item):
                    g = disj(tb, lambda y: self.b(self.eq(n.v, y, st)))
                    out.append(Guard(g if pos else z3.Not(g), [n]))
                elif isinstance(n, Guard):
                    out.append(Guard(n.g, filt(n.nodes, pos)))
                else:
                    out.append(Loop(n.binders, n.dom, filt(n.nodes, pos), None))
            return out
        return CompV(filt(ta, op == "BitAnd"), "set")

    def e_UnaryOp(self, e, st):
        out = []
        for x, v in self.ev(e.operand, st):
            if isinstance(e.op, ast.Not):
                t = self.truth(v, x)
                out.append((x, (not t) if isinstance(t, bool) else SV(z3.Not(t))))
            elif isinstance(e.op, ast.USub):
                if isinstance(v, (int, float)):
                    out.append((x, -v))
                elif isinstance(v, LinV):
                    out.append((x, LinV(-v.e)))
                elif hasattr(v, "py_binop"):
                    out.extend(self.binop(ast.Mult(), -1, v, x))
                else:
                    out.append((x, SV(-self.num(v))))
            elif isinstance(e.op, ast.Invert) and hasattr(v, "py_invert"):
                out.append((x, v.py_invert(self)))
            elif isinstance(e.op, ast.UAdd):
                out.append((x, v))
            else:
                raise Unsupported("unary operator")
        return out

    def e_BoolOp(self, e, st):
        return self.boolop(isinstance(e.op, ast.And), e.values, st)

    def boolop(self, conj_, values, st):
        out = []
        for x, v in self.ev(values[0], st):
            if len(values) == 1:
                out.append((x, v))
                continue
            t = self.truth(v, x)
            if isinstance(t, bool):
                if t == conj_:
                    out.extend(self.boolop(conj_, values[1:], x))
                else:
                    out.append((x, v))
                continue
            go = t if conj_ else z3.Not(t)
            boolish = isinstance(v, SV) and z3.is_bool(v.e)
            if not self.sat(x, go):
                out.append((x, v))
                continue
            y = x.assume(go)
            rest = self.boolop(conj_, values[1:], y)
            simple = boolish and len(rest) == 1 and rest[0][0].pc == y.pc and rest[0][0].heap == y.heap and \
                (isinstance(rest[0][1], bool) or isinstance(rest[0][1], SV) and z3.is_bool(rest[0][1].e))
            if simple:
                r = rest[0][1]
                r = z3.BoolVal(r) if isinstance(r, bool) else r.e
                z = x.fork()
                z.facts = rest[0][0].facts
                out.append((z, SV(z3.And(t, r) if conj_ else z3.Or(t, r))))
            else:
                out.extend(rest)
                if self.sat(x, z3.Not(go)):
                    out.append((x.assume(z3.Not(go)), v if not boolish else (not conj_)))
        return out

    def e_IfExp(self, e, st):
        out = []
        for x, v in self.ev(e.test, st):
            for y, b in self.branch(x, self.truth(v, x)):
                out.extend(self.ev(e.body if b else e.orelse, y))
        return out

    def e_Lambda(self, e, st):
        return [(st, Func(e, st.env.get("__mod__"), dict(st.env), "<lambda>"))]

    def e_NamedExpr(self, e, st):
        return [(z, v) for x, v in self.ev(e.value, st) for z in self.assign(e.target, v, x)]

    def e_Starred(self, e, st):
        raise Unsupported("starred")

    def e_Compare(self, e, st):
        out = []
        for x, vs in self.evs([e.left] + list(e.comparators), st):
            cur = [(x, None)]
            for k, op in enumerate(e.ops):
                nxt = []
                for y, acc in cur:
                    for z, r in self.compare(op, vs[k], vs[k + 1], y):
                        nxt.append((z, r if acc is None else self.and_(acc, r)))
                cur = nxt
            out.extend(cur)
        return out

    def and_(self, a, b):
        if isinstance(a, bool):
            return b if a else False
        if isinstance(b, bool):
            return a if b else False
        return SV(z3.And(a.e, b.e))

    def wrap(self, r):
        return r if isinstance(r, bool) else SV(r)

    def compare(self, op, a, b, st):
        for x in (a, b):
            if hasattr(x, "py_compare"):
                r = x.py_compare(self, op, a, b, st)
                if r is not None:
                    return r
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is None or b is None:
                r = a is None and b is None
            elif isinstance(a, bool) or isinstance(b, bool):
                r = self.eq(a, b, st)
            elif isinstance(a, Prim) and isinstance(b, Prim):
                r = a.name == b.name
            else:
                raise Unsupported("is")
            return [(st, self.wrap(r if isinstance(op, ast.Is) else self.neg(r)))]
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(a, b, st)
            return [(st, self.wrap(r if isinstance(op, ast.In) else self.neg(r)))]
        if isinstance(a, LinV) or isinstance(b, LinV):
            x, y = self.num(a), self.num(b)
            if isinstance(op, ast.Eq):
                return [(st, ConV(x == y, x - y, "EQ"))]
            if isinstance(op, ast.GtE):
                return [(st, ConV(x >= y, x - y, "GE"))]
            if isinstance(op, ast.LtE):
                return [(st, ConV(x <= y, x - y, "LE"))]
            raise Unsupported("comparison of expressions")
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = self.eq(a, b, st)
            return [(st, self.wrap(r if isinstance(op, ast.Eq) else self.neg(r)))]
        if isinstance(a, OptV) or isinstance(b, OptV):
            null = z3.Or([x.null for x in (a, b) if isinstance(x, OptV)])
            a, b = [x.v if isinstance(x, OptV) else x for x in (a, b)]
            if a is None or b is None:
                return [(st, False)]
            return [(x, self.wrap(z3.And(z3.Not(null), self.b(self.truth(r, x))))) for x, r in self.compare(op, a, b, st)]
        conc = (int, float)
        if isinstance(a, conc) and isinstance(b, conc):
            r = {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}[type(op)]
            return [(st, r)]
        for x, other_first in ((a, False), (b, True)):
            if isinstance(x, float) and math.isinf(x):
                less = isinstance(op, (ast.Lt, ast.LtE))
                big = x > 0
                r = (big if other_first else not big) if less else (not big if other_first else big)
                return [(st, r)]
        x, y = self.num(a), self.num(b)
        r = {ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y, ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y}[type(op)]()
        return [(st, SV(r))]

    def contains(self, a, b, st):
        if hasattr(b, "py_contains"):
            return b.py_contains(self, a, st)
        if isinstance(b, Prim) and b.name == "keysview":
            b = b.self_
            if hasattr(b, "py_contains"):
                return b.py_contains(self, a, st)
        if isinstance(b, Ref) and st.heap[b.id].opaque:
            o = st.heap[b.id]
            if isinstance(o, DictObj):
                for n in reversed(o.nodes):
                    if isinstance(n, Item) and n.v[0] in ("put", "app"):
                        q = self.eq(a, n.v[1], st)
                        if q is True or not isinstance(q, bool) and self.must(st, q):
                            return True
                for (r, key, e) in self._cache.setdefault("memtest", []):
                    if r == b.id and any(p.eq(e) or p.eq(z3.Not(e)) for p in st.pc):
                        q = self.eq(a, key, st)
                        if q is True or not isinstance(q, bool) and self.must(st, q):
                            return e
                if self.member is not None:
                    e = self.member(st, b.id, a)
                    if e is not None:
                        return e
                e = self.fresh(st, "seen", z3.BoolSort())
                self._cache["memtest"].append((b.id, a, e))
                return e
        bv = self.view(b, st)
        if isinstance(bv, str) and isinstance(a, str):
            return a in bv
        if isinstance(bv, (FStr, SV)) and not (isinstance(bv, SV) and bv.e.sort() != z3.StringSort()):
            return z3.Contains(self.zstr(bv), self.zstr(a))
        if isinstance(bv, SV) and bv.e.sort() == Atom:
            # substring test on an identifier: not equality
            f = z3.Function("substr", Atom, Atom, z3.BoolSort())
            x = z3.Const(uid("x"), Atom)
            self.axiom_once("substr", z3.ForAll([x], f(x, x)))
            return f(self.to_sort(a, Atom), bv.e)
        if isinstance(bv, DictV):
            c = self.comps(a, bv)
            return False if c is None else bv.has(c)
        if isinstance(bv, RecV):
            if isinstance(a, str):
                p = bv.fields.get(a, (False, None))[0]
                return p
            raise Unsupported("symbolic key in record")
        if isinstance(bv, FinDict):
            return self.ors([self.eq(a, k, st) for k, _ in bv.entries])
        if isinstance(bv, MapV):
            return disj(bv.nodes, lambda kv: self.b(self.eq(a, kv[1], st)))
        if isinstance(bv, (tuple, CList)):
            return self.ors([self.eq(a, k, st) for k in (bv if isinstance(bv, tuple) else bv.items)])
        return disj(self.tree(bv, st), lambda x: self.b(self.eq(a, x, st)))

    def axiom_once(self, key, ax):
        done = self._cache.setdefault("ax", set())
        if key not in done:
            done.add(key)
            self.axioms.append(ax)

    @staticmethod
    def ors(rs):
        if any(r is True for r in rs):
            return True
        rs = [r for r in rs if r is not False]
        if not rs:
            return False
        return z3.Or(rs) if len(rs) > 1 else rs[0]

    def comps(self, key, d):
        """z3 components of a key for dict d, None if it can never be a key"""
        if d.kind == "scalar":
            if isinstance(key, (tuple, FStr)) and d.kvars[0].sort() != z3.StringSort():
                return None
            if key is None and d.kvars[0].sort() != Atom:
                return None
            return [self.to_sort(key, d.kvars[0].sort())]
        if d.kind == "tuple":
            if not isinstance(key, tuple) or len(key) != len(d.kvars):
                return None
            return [self.to_sort(x, k.sort()) for x, k in zip(key, d.kvars)]
        skel = d.kind[1]
        if isinstance(key, str):
            raise Unsupported("literal key in formatted dict")
        if not isinstance(key, FStr):
            return None
        if key.skeleton() != skel:
            # literal pieces such as "None" inside a formatted key
            ks, ss = key.parts, skel.split("{}")
            return self.match_skeleton(key, skel, d)
        return [self.to_sort(x, k.sort()) for x, k in zip(key.args(), d.kvars)]

    def match_skeleton(self, key, skel, d):
        toks = []
        for p in key.parts:
            if isinstance(p, str):
                bits = p.split("_")
                for n, q in enumerate(bits):
                    if n:
                        toks.append("_")
                    if q:
                        toks.append(("lit", q))
            else:
                toks.append(("arg", p))
        want = []
        for n, q in enumerate(skel.split("{}")):
            if n:
                want.append("{}")
            if q:
                if set(q) != {"_"}:
                    raise Unsupported("skeleton %s" % skel)
                want.extend(["_"] * len(q))
        if len(toks) != len(want):
            return None
        out, ks = [], iter(d.kvars)
        for t, w in zip(toks, want):
            if w == "_":
                if t != "_":
                    return None
            else:
                if t == "_":
                    return None
                out.append(self.to_sort(t[1] if t[0] == "arg" else t[1], next(ks).sort()))
        return out

    def e_Subscript(self, e, st):
        out = []
        if isinstance(e.slice, ast.Slice):
            parts = [e.slice.lower, e.slice.upper, e.slice.step]
            ex = [e.value] + [p if p is not None else ast.Constant(None) for p in parts]
            for x, (o, lo, hi, step) in self.evs(ex, st):
                out.extend(self.slice(o, lo, hi, step, x))
            return out
        if isinstance(e.slice, ast.Tuple) and any(isinstance(t, ast.Slice) for t in e.slice.elts):
            raise Unsupported("multi-dimensional slice")
        for x, (o, k) in self.evs([e.value, e.slice], st):
            out.extend(self.getitem(o, k, x))
        return out

    def getitem(self, o, k, st):
        if hasattr(o, "py_getitem"):
            return o.py_getitem(self, k, st)
        if isinstance(o, Ref) and st.heap[o.id].opaque and isinstance(st.heap[o.id], DictObj):
            for n in reversed(st.heap[o.id].nodes):
                if isinstance(n, Item) and n.v[0] == "put":
                    q = self.eq(k, n.v[1], st)
                    if q is True or not isinstance(q, bool) and self.must(st, q):
                        return [(st, n.v[2])]
                    if not self.must(st, self.neg(q)) if not isinstance(q, bool) else False:
                        break
                else:
                    break
            return [(st, Opq("mmelem", ref=o, key=k))]
        v = self.view(o, st)
        if isinstance(v, RecV):
            if not isinstance(k, str):
                raise Unsupported("symbolic key in record")
            if k not in v.fields:
                self.throw(st, "KeyError")
                return []
            p, x = v.fields[k]
            return [(s, x) for s in self.require(st, p, "KeyError")]
        if isinstance(v, DictV):
            c = self.comps(k, v)
            if c is None:
                self.throw(st, "KeyError")
                return []
            return [(s, v.get(c)) for s in self.require(st, v.has(c), "KeyError")]
        if isinstance(v, FinDict):
            out, cur = [], st
            for kk, x in v.entries:
                q = self.eq(k, kk, cur)
                nxt = None
                for s, b in self.branch(cur, q):
                    if b:
                        out.append((s, x))
                    else:
                        nxt = s
                if nxt is None:
                    return out
                cur = nxt
            self.throw(cur, "KeyError")
            return out
        if isinstance(v, MapV):
            return self.map_get(v, k, st)
        if isinstance(v, (tuple, CList)):
            items = list(v) if isinstance(v, tuple) else v.items
            if isinstance(k, int):
                if -len(items) <= k < len(items):
                    return [(st, items[k])]
                self.throw(st, "IndexError")
                return []
            out = []
            for j, x in enumerate(items):
                for s, b in self.branch(st, self.eq(k, j, st)):
                    if b:
                        out.append((s, x))
            if self.sat(st, z3.Or(self.num(k) < 0, self.num(k) >= len(items))):
                raise Unsupported("index may be out of range")
            return out
        if isinstance(v, (SeqV, CompV)):
            st = st.fork()
            try:
                sv = self.seq(v, st)
            except Unsupported:
                if not (isinstance(k, int) and k == 0 and isinstance(v, CompV) and v.kind == "list"):
                    raise
                res = []  # the first element
                for s, kind, x in self.walk(v.nodes, st, lambda y, x: [(y, "brk2", x)], names=set()):
                    if kind == "next":
                        self.throw(s, "IndexError")
                    else:
                        res.append((s, x))
                return res
            if isinstance(sv, CList):
                return self.getitem(sv, k, st)
            i = self.num(k)
            if i.sort() != z3.IntSort():
                i = z3.simplify(z3.ToInt(i))
            if isinstance(k, int) and k < 0:
                i = sv.n + k
                return [(s, sv.at(i)) for s in self.require(st, i >= 0, "IndexError")]
            out = []
            for s, neg in self.branch(st, i < 0):
                j = i + sv.n if neg else i
                for s2 in self.require(s, z3.And(0 <= j, j < sv.n), "IndexError"):
                    out.append((s2, sv.at(j)))
            return out
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        raise Unsupported("subscript of %s" % type(v).__name__)

    def map_get(self, v, k, st):
        if all(x[0] == "app" for x in leaves(v.nodes)):
            def filt(n):
                if isinstance(n, Item):
                    return Guard(self.b(self.eq(n.v[1], k, st)), [Item(n.v[2])])
                if isinstance(n, Guard):
                    return Guard(n.g, [filt(x) for x in n.nodes])
                return Loop(n.binders, n.dom, [filt(x) for x in n.nodes], n.n)
            has = disj(v.nodes, lambda kv: self.b(self.eq(k, kv[1], st)))
            return [(s, CompV([filt(n) for n in v.nodes])) for s in self.require(st, has, "KeyError")]
        out = []
        v = MapV(self.effective(v.nodes))

        def rec(nodes, bs, cond):
            for n in nodes:
                if isinstance(n, Item):
                    if n.v[0] != "put":
                        raise Unsupported("mixed map")
                    q = self.eq(n.v[1], k, st)
                    if q is False:
                        continue
                    body = z3.And(cond + [self.b(q)]) if cond or q is not True else z3.BoolVal(True)
                    c = z3.Exists(bs, body) if bs else body
                    if not self.sat(st, c):
                        continue
                    y = st.fork()
                    val = n.v[2]
                    if bs:
                        w = [self.fresh(st, "w", b.sort()) for b in bs]
                        m = list(zip(bs, w))
                        y.facts += (z3.Implies(c, z3.substitute(body, *m)),)
                        val = subst(val, m)
                    y.pc += (c,)
                    out.append((y, val))
                elif isinstance(n, Guard):
                    rec(n.nodes, bs, cond + [n.g])
                else:
                    b2, dom, sub = rename(n)
                    rec(sub, bs + b2, cond + [dom])
        if self.exclusive(v.nodes, k, st):
            rec(v.nodes, [], [])
        else:
            for t, n in enumerate(v.nodes):  # the last write wins
                later = disj(v.nodes[t + 1:], lambda kv: self.b(self.eq(k, kv[1], st)))
                rec([n], [], [z3.simplify(z3.Not(later))])
                if not self.exclusive([n], k, st):
                    self.approx = True  # every write of one loop is considered
        has = disj(v.nodes, lambda kv: self.b(self.eq(k, kv[1], st)))
        if self.sat(st, z3.Not(has)):
            self.throw(st.assume(z3.Not(has)), "KeyError")
        return out

    def effective(self, nodes):
        """the writes without those that are always followed by a write to the same key"""
        def later(ns, key, cond):
            for n in ns:
                if isinstance(n, Item) and n.v[0] == "put" and self.vkey(n.v[1]) == key:
                    yield z3.And(cond) if cond else z3.BoolVal(True)
                elif isinstance(n, Guard):
                    yield from later(n.nodes, key, cond + [n.g])

        def rec(ns, after):
            out = []
            for t, n in enumerate(ns):
                rest = ns[t + 1:] + after
                if isinstance(n, Item):
                    cs = list(later(rest, self.vkey(n.v[1]), [])) if n.v[0] == "put" else []
                    g = z3.simplify(z3.Not(z3.Or(cs))) if cs else z3.BoolVal(True)
                    if not z3.is_false(g):
                        out.append(n if z3.is_true(g) else Guard(g, [n]))
                elif isinstance(n, Guard):
                    out.append(Guard(n.g, rec(list(n.nodes), rest)))
                else:
                    out.append(Loop(n.binders, n.dom, rec(list(n.nodes), []), n.n))
            return out
        return rec(list(nodes), [])

    def exclusive(self, nodes, k, st):
        """at most one write of the map is to the key k, or several write the same value"""
        ws = []

        def rec(ns, bs, cond):
            for n in ns:
                if isinstance(n, Item):
                    q = self.eq(n.v[1], k, st)
                    if q is not False:
                        ws.append((bs, z3.And(cond + [self.b(q)]), n.v[2]))
                elif isinstance(n, Guard):
                    rec(n.nodes, bs, cond + [n.g])
                else:
                    rec(n.nodes, bs + list(n.binders), cond + [n.dom])
        rec(nodes, [], [])

        def both(c):
            s = self.solver(st, self.quick_ms)
            s.add(c)
            return s.check() != z3.unsat
        for x, (b1, c1, v1) in enumerate(ws):
            if b1:
                nb = [z3.Const(uid("o"), b.sort()) for b in b1]
                m = list(zip(b1, nb))
                v2 = subst(v1, m)
                if self.vkey(v1) != self.vkey(v2) and both(z3.And(c1, z3.substitute(c1, *m), z3.Or([p != q for p, q in m]))):
                    return False
            for b2, c2, v2 in ws[x + 1:]:
                nb = [z3.Const(uid("o"), b.sort()) for b in b2]
                if self.vkey(v1) != self.vkey(v2) and both(z3.And(c1, z3.substitute(c2, *zip(b2, nb)) if b2 else c2)):
                    return False
        return True

    def slice(self, o, lo, hi, step, st):
        if hasattr(o, "py_slice"):
            return o.py_slice(self, lo, hi, step, st)
        v = self.view(o, st)
        if isinstance(v, (tuple, CList, str)) and all(x is None or isinstance(x, int) for x in (lo, hi, step)):
            r = (list(v) if isinstance(v, tuple) else v if isinstance(v, str) else v.items)[slice(lo, hi, step)]
            return [(st, r if isinstance(v, str) else tuple(r) if isinstance(v, tuple) else CList(r))]
        if step == -1 and lo is None and hi is None and not isinstance(step, SV):
            return self.prims["reversed"](self, st, None, [o], {})
        if step not in (None, 1):
            raise Unsupported("slice step")
        st = st.fork()
        s = self.seq(v, st)
        if isinstance(s, CList):
            raise Unsupported("symbolic slice of concrete list")
        n = s.n

        def norm(x, d):
            if x is None:
                return d
            i = self.num(x)
            i = z3.ToInt(i) if i.sort() == z3.RealSort() else i
            if self.interned and self.must(st, i >= 0):
                return i if self.must(st, i <= n) else z3.If(i > n, n, i)
            i = z3.If(i < 0, z3.If(i + n < 0, 0, i + n), z3.If(i > n, n, i))
            return z3.simplify(i) if isinstance(x, int) else i
        a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
        iv = z3.Int(uid("i"))
        m = b - a if self.interned and self.must(st, b >= a) else z3.If(b > a, b - a, z3.IntVal(0))
        if lo is None:
            m = z3.If(b > 0, b, z3.IntVal(0)) if hi is not None else n
        r = SeqV(m, iv, s.at(iv + a))
        if not self.canon and lo is not None:
            r.part = (s, a, b)
        return [(st, r)]

    # comprehensions ---------------------------------------------------------
    def comp(self, gens, emit, st):
        """run nested generators; emit(state) -> list of states"""
        if not gens:
            return [(x, "next", None) for x in emit(st)]
        g = gens[0]
        out = []
        for x, it in self.ev(g.iter, st):
            nodes = self.tree(it, x)

            def body(y, v):
                r = []
                for z in self.assign(g.target, v, y):
                    cur = [z]
                    for c in g.ifs:
                        nxt = []
                        for w in cur:
                            for w2, t in self.ev(c, w):
                                for w3, b in self.branch(w2, self.truth(t, w2)):
                                    if b:
                                        nxt.append(w3)
                                    else:
                                        r.append((w3, "next", None))
                        cur = nxt
                    for w in cur:
                        r.extend(self.comp(gens[1:], emit, w))
                return r
            out.extend(self.walk(nodes, x, body, names=set().union(*[assigned_target(h.target) for h in gens]), key=id(g)))
        return out

    def run_comp(self, e, st, obj, add):
        s0 = st.fork()
        ref = self.alloc(s0, obj)
        outs = self.comp(e.generators, lambda x: add(x, ref), s0)
        res = []
        for x, k, v in outs:
            x = x.fork()
            x.env = dict(st.env)
            res.append((x, ref))
        return res

    def e_ListComp(self, e, st):
        def add(x, ref):
            out = []
            for y, v in self.ev(e.elt, x):
                y = y.fork()
                y.heap[ref.id] = y.heap[ref.id].add(Item(v))
                out.append(y)
            return out
        return self.run_comp(e, st, ListObj(), add)

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        def add(x, ref):
            out = []
            for y, v in self.ev(e.elt, x):
                y = y.fork()
                y.heap[ref.id] = y.heap[ref.id].add(Item(v))
                out.append(y)
            return out
        return self.run_comp(e, st, SetObj(), add)

    def e_DictComp(self, e, st):
        def add(x, ref):
            out = []
            for y, (k, v) in self.evs([e.key, e.value], x):
                y = y.fork()
                y.heap[ref.id] = y.heap[ref.id].add(Item(("put", k, v)))
                out.append(y)
            return out
        return self.run_comp(e, st, DictObj(), add)

    # attributes and calls ----------------------------------------------------
    def e_Attribute(self, e, st):
        return [z for x, v in self.ev(e.value, st) for z in self.getattr(v, e.attr, x)]

    def getattr(self, v, name, st):
        if isinstance(v, ModV):
            return [(st, self.mod_attr(v, name))]
        if hasattr(v, "py_getattr"):
            r = v.py_getattr(self, name, st)
            if r is not None:
                return r
        if isinstance(v, Prim) and v.self_ is None:
            return [(st, Prim(v.name + "." + name))]
        if isinstance(v, VarV) and name in v.attrs:
            return [(st, v.attrs[name])]
        return [(st, Prim("." + name, v))]

    def e_Call(self, e, st):
        out = []
        if any(k.arg is None for k in e.keywords):
            raise Unsupported("star arguments")
        if isinstance(e.func, ast.Attribute) and e.func.attr == "append" and isinstance(e.func.value, ast.Subscript) and len(e.args) == 1 \
                and not isinstance(e.func.value.slice, ast.Slice) and isinstance(e.func.value.value, ast.Name):
            d = st.env.get(e.func.value.value.id)
            if isinstance(d, Ref) and d.id in self._cache.get("ddlist", ()):  # a missing list is made by the access
                for x, (k, v) in self.evs([e.func.value.slice, e.args[0]], st):
                    x = x.fork()
                    x.heap[d.id] = x.heap[d.id].add(Item(("app", k, self.freeze(x, v))))
                    out.append((x, None))
                return out
        for x, vs in self.evs([e.func] + [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords], st):
            f, args = vs[0], []
            for a, v in zip(e.args, vs[1:]):
                if isinstance(a, ast.Starred):
                    v = self.view(v, x)
                    if not isinstance(v, (tuple, CList)):
                        raise Unsupported("star arguments")
                    args += list(v) if isinstance(v, tuple) else v.items
                else:
                    args.append(v)
            kw = {k.arg: v for k, v in zip(e.keywords, vs[1 + len(e.args):])}
            out.extend(self.call(f, args, kw, x))
        return out

    def call(self, f, args, kw, st):
        if isinstance(f, Func):
            return self.call_func(f, args, kw, st)
        if isinstance(f, Prim):
            p = self.prims.get(f.name)
            if p is None and f.self_ is not None:
                p = self.prims.get(f.name)
            if hasattr(f.self_, "py_call"):
                r = f.self_.py_call(self, f.name[1:], args, kw, st)
                if r is not None:
                    return r
            if p is None:
                raise Unsupported("call of %s" % f.name)
            if not f.name.startswith(".") and f.name not in BUILTINS:
                self.used_prims.add(f.name)
            return p(self, st, f.self_, args, kw)
        raise Unsupported("call of %r" % (f,))


def has_var(t):
    """contains a variable bound outside the term"""
    todo, seen = [t], set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_var(x):
            return True
        if z3.is_quantifier(x):
            todo.append(x.body())
        else:
            todo += x.children()
    return False


def kinds(t):
    """kinds of the nodes of a term"""
    todo, out = [t], set()
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            out.add("quantifier")
        else:
            todo.extend(x.children())
    return out


def apps(t):
    """applications of uninterpreted functions in a term, quantified parts left out"""
    todo, out = [t], []
    while todo:
        x = todo.pop()
        if z3.is_quantifier(x):
            continue
        if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(x)
        todo.extend(x.children())
    return out


def plain_term(t):
    """may be used in a pattern: no case distinction inside"""
    return not z3.is_app_of(t, z3.Z3_OP_ITE) and not z3.is_quantifier(t) and not (z3.is_bool(t) and t.num_args() and t.decl().kind() != z3.Z3_OP_UNINTERPRETED) \
        and all(plain_term(c) for c in t.children())


def row_terms(g, q):
    """smallest applications of input functions to q in g"""
    out, todo, seen = [], [g], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            todo.append(t.body())
            continue
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(c.eq(q) for c in t.children()) and not has_var(t):
            out.append(t)
            continue
        todo += t.children()
    return out


def assigned(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


def assigned_target(t):
    return {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}


def num_ite(e):
    return z3.is_app_of(e, z3.Z3_OP_ITE) and all(z3.is_rational_value(c) or z3.is_int_value(c) for c in e.children()[1:])


def push(f, x, y, mult):
    """f(x, y), distributed over a two-valued operand"""
    cst = lambda e: z3.is_rational_value(e) or z3.is_int_value(e)
    if num_ite(x) and (mult or cst(y)):
        c, a, b = x.children()
        return z3.If(c, z3.simplify(f(a, y)) if cst(y) else zmul(a, y), z3.simplify(f(b, y)) if cst(y) else zmul(b, y))
    if num_ite(y) and (mult or cst(x)):
        c, a, b = y.children()
        return z3.If(c, z3.simplify(f(x, a)) if cst(x) else zmul(a, x), z3.simplify(f(x, b)) if cst(x) else zmul(b, x))
    return f(x, y)


def zmul(c, x):
    q = c.as_fraction() if z3.is_rational_value(c) else c.as_long()
    if q == 0:
        return c
    if q == 1:
        return x
    return c * x
