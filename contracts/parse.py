"""Contracts for reading schedule files."""
import z3
from pyvc.prims import one
from pyvc.values import *
from pyvc.interp import Unsupported
from . import groups
from .solver import W, fn, Atom

TC = "data_formatting/data_formatting/time_table_check.py"
B, I = z3.BoolSort(), z3.IntSort()
FIRST = "Unnamed: 0"
NAMES = [FIRST, "speed", "Arr", "Dep", "Approx_enter", "Label", "Shunting", "Turnaround_time_minutes"]
LINE = lambda r: fn("line", [r], Atom)
NUMERIC = lambda a: fn("isnumeric", [a], B)
PREFIX = lambda n, a: fn("prefix%d" % n, [a], Atom)


def whole(E, v):
    if v is None or isinstance(v, bool):
        return None
    return z3.IntVal(v) if isinstance(v, int) else v.e if isinstance(v, SV) and v.e.sort() == I else None


class Text:
    """cell of the first column"""

    def __init__(self, e):
        self.e = e

    def subst(self, m):
        return Text(z3.substitute(self.e, *m))

    def vkey(self, E):
        return ("Text", self.e.get_id())

    def py_type(self, E, st):
        return Prim("str")

    def py_key(self, E):
        return self.e

    def py_eq(self, E, o, st):
        return self.e == (o.e if isinstance(o, Text) else E.lit(o)) if isinstance(o, (Text, str)) else False

    def py_slice(self, E, lo, hi, step, st):
        if lo not in (None, 0) or not isinstance(hi, int) or hi <= 0 or step not in (None, 1):
            raise Unsupported("part of a text")
        return one(st, Text(PREFIX(hi, self.e)))

    def py_call(self, E, name, args, kw, st):
        if name == "isnumeric" and not args:
            return one(st, SV(NUMERIC(self.e)))
        if name == "startswith" and len(args) == 1 and not kw:
            ps = args[0] if isinstance(args[0], tuple) else (args[0],)
            if all(isinstance(p, str) and p for p in ps):
                return one(st, SV(z3.Or([PREFIX(len(p), self.e) == E.lit(p) for p in ps])))
        raise Unsupported("%s of a text" % name)

    def py_int(self, E, st):
        return [(x, SV(fn("number", [self.e], I))) for x in E.require(st, NUMERIC(self.e), "ValueError")]


class Column:
    """first column of the file, labelled by row number"""

    def __init__(self, n):
        self.n = n

    def vkey(self, E):
        return ("Column",)

    def py_len(self, E, st):
        return SV(self.n)

    def py_getitem(self, E, k, st):
        k = whole(E, k)
        if k is None:
            raise Unsupported("label")
        return [(x, Text(LINE(k))) for x in E.require(st, z3.And(0 <= k, k < self.n), "KeyError")]

    def py_seq(self, E, st):
        i = z3.Int(uid("i"))
        return SeqV(self.n, i, Text(LINE(i)))

    def py_tree(self, E, st):
        return E.tree(self.py_seq(E, st), st)

    def py_getattr(self, E, name, st):
        if name == "values":
            return one(st, self.py_seq(E, st))
        if name in ("iloc", "loc", "at", "iat"):
            return one(st, self)
        return None

    def py_call(self, E, name, args, kw, st):
        if name in ("tolist", "to_list") and not args:
            return one(st, self.py_seq(E, st))
        raise Unsupported(name)


class File:
    """rows lo, ..., hi - 1 of the file; labels start at row label or are the row numbers; columns renamed by names"""

    def __init__(self, n, lo=None, hi=None, reset=False, names=()):
        self.n, self.lo, self.hi, self.reset, self.names = n, lo, hi, reset, names

    def subst(self, m):
        s = lambda e: z3.substitute(e, *m) if z3.is_expr(e) else e
        return File(self.n, s(self.lo), s(self.hi), self.reset, self.names)

    def vkey(self, E):
        return ("File", self.lo if self.lo is None else self.lo.get_id(), self.hi if self.hi is None else self.hi.get_id(), self.reset, self.names)

    def py_len(self, E, st):
        if self.lo is None:
            return SV(self.n)
        raise Unsupported("length of a part")

    def py_getitem(self, E, k, st):
        if self.lo is None and k == FIRST and not self.names:
            return one(st, Column(self.n))
        raise Unsupported("column")

    def py_getattr(self, E, name, st):
        if name in ("iloc", "loc") and self.lo is None:
            return one(st, Rows(self, name == "loc"))
        if name == "index" and self.lo is None:
            i = z3.Int(uid("i"))
            return one(st, SeqV(self.n, i, SV(i)))
        return None

    def py_slice(self, E, lo, hi, step, st):
        return Rows(self, False).py_slice(E, lo, hi, step, st)

    def py_call(self, E, name, args, kw, st):
        if name == "reset_index" and not args and kw == {"drop": True}:
            return one(st, File(self.n, self.lo, self.hi, True, self.names))
        if name == "rename" and not args and set(kw) == {"columns"}:
            m = E.view(kw["columns"], st)
            if isinstance(m, FinDict) and all(isinstance(a, str) and isinstance(b, str) for a, b in m.entries):
                if self.names:
                    raise Unsupported("renamed twice")
                return one(st, File(self.n, self.lo, self.hi, self.reset, tuple((a, b) for a, b in m.entries if a in NAMES and a != b)))
        if name == "copy":
            return one(st, self)
        raise Unsupported("%s of the file" % name)


class Rows:
    def __init__(self, f, incl):
        self.f, self.incl = f, incl

    def py_slice(self, E, lo, hi, step, st):
        if step not in (None, 1):
            raise Unsupported("step")
        a = z3.IntVal(0) if lo is None else whole(E, lo)
        b = self.f.n if hi is None else whole(E, hi)
        if a is None or b is None:
            raise Unsupported("rows")
        if self.incl and hi is not None:
            b = b + 1
        # a part of the file as it is only for bounds within the file
        return [(x, File(self.f.n, a, b, False, self.f.names)) for x in E.require(st, z3.And(0 <= a, a <= b, b <= self.f.n), "Unmodelled")]


def subterms(e):
    seen, todo = set(), [e]
    while todo:
        x = todo.pop()
        if x.get_id() not in seen:
            seen.add(x.get_id())
            yield x
            todo.extend(x.children())


def c26(repo):
    w = W(repo)
    E = w.E
    E.quick_ms, E.cover_ms = 400, 300
    n = z3.Int("rows")
    r, k = z3.Ints("fr fk")
    isin = lambda e, names: z3.Or([e == E.lit(x) for x in names])
    N = lambda r: NUMERIC(LINE(r))
    S = lambda r: isin(PREFIX(4, LINE(r)), ("from", "depa"))
    T = lambda r: isin(PREFIX(2, LINE(r)), ("to", "te"))
    end = lambda r: fn("end", [r], I)
    row = lambda r: z3.And(0 <= r, r < n)
    number = lambda r: fn("number", [LINE(r)], I)
    hyps = [n >= 0,
            z3.ForAll([r], z3.Implies(z3.And(row(r), N(r)), z3.And(1 <= r, r + 2 < n)), patterns=[N(r)]),
            # category, number, name, start; the rows; end
            z3.ForAll([r], z3.Implies(z3.And(row(r), S(r)), z3.And(3 <= r, z3.Not(N(r)), z3.Not(N(r - 1)), N(r - 2), r < end(r), end(r) < n, T(end(r)))),
                      patterns=[PREFIX(4, LINE(r))]),
            z3.ForAll([r, k], z3.Implies(z3.And(row(r), S(r), r < k, k < end(r)), z3.Not(T(k))), patterns=[z3.MultiPattern(end(r), PREFIX(2, LINE(k)))]),
            z3.ForAll([r, k], z3.Implies(z3.And(row(r), row(k), N(r), N(k), r != k), number(r) != number(k)), patterns=[z3.MultiPattern(number(r), number(k))])]

    def hints(E, st, go, c):
        """the end of the block that starts at the present row"""
        out = []
        for e in subterms(go):
            if z3.is_app(e) and e.decl().eq(LINE(z3.IntVal(0)).decl()) and groups.contains(e, c):
                a = e.arg(0)
                if z3.is_true(z3.simplify(z3.substitute(a, (c, c + 1)) - a == 1)):
                    out += [end(b) - z3.substitute(a, (c, z3.IntVal(0))) for b in st.binders if b.sort() == I]
        return out
    E.rules.append(groups.last_written(N, S))
    E.while_rules.append(groups.first_exit(hints))
    f, vals, outs, exs = w.run(TC, "timetable_to_train_dict", {"data": File(n)}, {}, hyps)
    r0 = z3.Int("r0")
    here = [row(r0), S(r0)]
    for m, (st, v) in enumerate(outs):
        name = "timetable_to_train_dict" + ("" if len(outs) == 1 else "/path%d" % m)
        v = E.view(v, st)
        ways = [] if isinstance(v, FinDict) and not v.entries else list(groups.E_paths(v.nodes))
        if any(x[0] != "put" or not 1 <= len(bs) for bs, c, x in ways):
            raise Unsupported("entries")
        got = []
        for bs, c, x in ways:
            if len(bs) > 2:
                raise Unsupported("entries")
            sub = list(zip(bs, (r0, r0 - 2)))
            got.append((z3.substitute(c, *sub), subst(x, sub)))
            w.oblige("%s/blocks only/%d" % (name, len(got) - 1), st, z3.And(row(bs[0]), S(bs[0])), extra=[c])
            if len(bs) > 1:
                w.oblige("%s/number of the block/%d" % (name, len(got) - 1), st, bs[1] == bs[0] - 2, extra=[c])
        for q, (c, x) in enumerate(got):
            pre = here + [c]
            pair = E.view(x[2], st)
            if not isinstance(pair, CList) or len(pair.items) != 2:
                raise Unsupported("entry of a train")
            w.oblige("%s/under the number/%d" % (name, q), st, E.num(x[1]) == number(r0 - 2), extra=pre)
            info = E.seq(E.view(pair.items[0], st), st)
            want = [r0 - 3, r0 - 1, r0, end(r0)]
            ok = isinstance(info, CList) and len(info.items) == 4 and all(isinstance(a, Text) for a in info.items)
            w.oblige("%s/description/%d" % (name, q), st, z3.And([a.e == LINE(b) for a, b in zip(info.items, want)]) if ok else z3.BoolVal(False), extra=pre)
            part = E.view(pair.items[1], st)
            if not isinstance(part, File):
                raise Unsupported("rows of a train")
            ok = part.lo is not None and part.reset and part.names == ((FIRST, "path"),)
            w.oblige("%s/rows/%d" % (name, q), st, z3.And(part.lo == r0 + 1, part.hi == end(r0)) if ok else z3.BoolVal(False), extra=pre)
        w.oblige(name + "/every block", st, z3.Or([c for c, x in got]), extra=here)
    for e, (x, nm) in enumerate(exs):
        if nm == "Unmodelled":
            if not groups.holds(E, x, z3.BoolVal(False)):
                raise Unsupported("rows beyond the file")
            continue
        w.oblige("timetable_to_train_dict/no %s/%d" % (nm, e), x, z3.BoolVal(False), "exception")
    return w
