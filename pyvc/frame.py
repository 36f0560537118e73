"""pandas objects and dates as seen by the engine.

A frame is n rows with one value per column, each a term in the row index; a
selection keeps the rows where a condition holds and remembers their labels.
NaN cells are OptV values."""
import ast
import z3
from .values import *
from .inputs import fn, make
from .prims import prim, one, real

T = z3.BoolVal(True)


def sub1(e, iv, i):
    return z3.substitute(e, (iv, i)) if z3.is_expr(e) else e


def isnull(v):
    if isinstance(v, (OptV, FillV)):
        return v.null if isinstance(v, OptV) else z3.BoolVal(False)
    return z3.BoolVal(False)


class FillV:
    """cell of a frame whose missing cells were filled"""

    def __init__(self, null, v, fill):
        self.null, self.v, self.fill = null, v, fill

    def subst(self, m):
        return FillV(z3.substitute(self.null, *m), subst(self.v, m), self.fill)

    def vkey(self, E):
        return ("Fill", self.null.get_id(), E.vkey(self.v), repr(self.fill))

    def py_eq(self, E, o, st):
        return z3.Or(z3.And(self.null, E.b(E.eq(self.fill, o, st))), z3.And(z3.Not(self.null), E.b(E.eq(self.v, o, st))))

    def read(self, E, st):
        return [(s, self.fill if b else self.v) for s, b in E.branch(st, self.null)]


def cell(E, v, st):
    return v.read(E, st) if isinstance(v, FillV) else one(st, v)


def known(v, keep):
    """the value without its missing case if the condition rules that out"""
    if isinstance(v, OptV):
        s = z3.Solver()
        s.set("timeout", 500)
        s.add(keep, v.null)
        if s.check() == z3.unsat:
            return v.v
    return v


class Ser:
    """a column, an index or a column of truth values"""

    def __init__(self, n, iv, val, keep=T, label=None, frame=None):
        self.n, self.iv, self.val, self.keep = n, iv, val, keep
        self.label = iv if label is None else label
        self.frame = frame

    def with_(self, val=None, keep=None):
        return Ser(self.n, self.iv, self.val if val is None else val, self.keep if keep is None else keep, self.label)

    def subst(self, m):
        m = [(a, b) for a, b in m if not a.eq(self.iv)]
        if not m:
            return self
        S = lambda e: z3.substitute(e, *m)
        return Ser(S(self.n), self.iv, subst(self.val, m), S(self.keep), S(self.label))

    def vkey(self, E):
        return ("Ser", self.n.get_id(), self.iv.get_id(), E.vkey(self.val), self.keep.get_id(), self.label.get_id())

    @property
    def plain(self):
        return z3.is_true(z3.simplify(self.keep))

    def at(self, i):
        return subst(self.val, [(self.iv, i)])

    def nodes(self):
        i = z3.Int(uid("i"))
        it = Item(self.at(i))
        k = sub1(self.keep, self.iv, i)
        return [Loop([i], z3.And(0 <= i, i < self.n), [it] if self.plain else [Guard(k, [it])], self.n)]

    def py_tree(self, E, st):
        return self.nodes()

    def compact(self, E, st):
        """the same rows without a condition"""
        if self.plain:
            return self
        m, pos, _ = E.filtered(st, self.n, self.iv, self.keep)
        iv = z3.Int(uid("i"))
        return Ser(m, iv, self.at(pos(iv)), T, sub1(self.label, self.iv, pos(iv)))

    def py_seq(self, E, st):
        c = self.compact(E, st)
        return SeqV(c.n, c.iv, c.val)

    def py_len(self, E, st):
        return SV(self.compact(E, st).n)

    def py_truth(self, E, st):
        raise Unsupported("truth of a column")

    def py_contains(self, E, a, st):
        # "x in column" looks at the labels
        if not E.is_num(a):
            return False
        x = E.num(a)
        i = z3.Int(uid("i"))
        return z3.Exists([i], z3.And(0 <= i, i < self.n, sub1(self.keep, self.iv, i), sub1(self.label, self.iv, i) == x))

    def where(self, E, st, mask):
        if not (mask.iv.eq(self.iv) and mask.n.eq(self.n)):
            raise Unsupported("selection by a column of another frame")
        g = E.b(E.truth(mask.val, st)) if not z3.is_expr(mask.val) else mask.val
        k = z3.And(self.keep, g)
        return self.with_(val=known(self.val, k), keep=k)

    def label_at(self, E, k, st):
        """row with this label"""
        k = E.num(k)
        k = z3.ToInt(k) if k.sort() == z3.RealSort() else k
        d = z3.simplify(self.label - self.iv)
        if not E.mentions(d, [self.iv]):
            i = z3.simplify(k - d)
            c = z3.And(0 <= i, i < self.n, sub1(self.keep, self.iv, i))
            return [(s, i) for s in E.require(st, c, "KeyError")]
        raise Unsupported("label lookup")

    def py_getitem(self, E, k, st):
        if isinstance(k, Ser):
            return one(st, self.where(E, st, k))
        return [z for s, i in self.label_at(E, k, st) for z in cell(E, self.at(i), s)]

    def py_slice(self, E, lo, hi, step, st):
        st = st.fork()
        c = self.compact(E, st)
        out = []
        for s, q in E.slice(SeqV(c.n, c.iv, SV(c.iv)), lo, hi, step, st):
            out.append((s, Ser(q.n, q.ivar, c.at(q.body.e), T, sub1(c.label, c.iv, q.body.e))))
        return out

    def elem(self, E, f):
        """column of truth values f(cell)"""
        r = f(self.val)
        return self.with_(val=SV(E.b(r)))

    def py_compare(self, E, op, a, b, st):
        if isinstance(op, (ast.Is, ast.IsNot)):
            return None
        if isinstance(op, (ast.In, ast.NotIn)):
            if b is self:
                return None
            raise Unsupported("column in a list")
        o = b if a is self else a
        if isinstance(o, Ser):
            if not (o.iv.eq(self.iv) and o.n.eq(self.n)):
                raise Unsupported("comparison of columns of different frames")
            x, y = a.val, b.val
        else:
            x, y = (self.val, o) if a is self else (o, self.val)
        if isinstance(op, ast.Eq):
            r = E.eq(x, y, st)
        elif isinstance(op, ast.NotEq):
            r = E.neg(E.eq(x, y, st))
        else:
            nn = z3.Not(z3.Or(isnull(x), isnull(y)))
            strip = lambda v: v.v if isinstance(v, OptV) else v
            rs = E.compare(op, strip(x), strip(y), st)
            if len(rs) != 1:
                raise Unsupported("comparison of a column")
            r = z3.And(nn, E.b(E.truth(rs[0][1], st)))
        return one(st, self.with_(val=SV(E.b(r))))

    def py_binop(self, E, op, a, b, st):
        if isinstance(op, (ast.BitAnd, ast.BitOr)) and isinstance(a, Ser) and isinstance(b, Ser):
            if not (a.iv.eq(b.iv) and a.n.eq(b.n)):
                raise Unsupported("columns of different frames")
            x, y = E.b(E.truth(a.val, st)), E.b(E.truth(b.val, st))
            return one(st, self.with_(val=SV(z3.And(x, y) if isinstance(op, ast.BitAnd) else z3.Or(x, y)), keep=z3.And(a.keep, b.keep)))
        raise Unsupported("arithmetic on columns")

    def py_invert(self, E):
        return self.with_(val=SV(z3.Not(self.val.e)))

    def py_any(self, E, st):
        i = z3.Int(uid("i"))
        return SV(z3.Exists([i], z3.And(0 <= i, i < self.n, sub1(self.keep, self.iv, i), E.b(E.truth(self.at(i), st)))))

    def py_all(self, E, st):
        i = z3.Int(uid("i"))
        return SV(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < self.n, sub1(self.keep, self.iv, i)), E.b(E.truth(self.at(i), st)))))

    def array(self):
        return SeqV(self.n, self.iv, self.val) if self.plain else CompV(self.nodes())

    def py_getattr(self, E, name, st):
        if name in ("values", "array"):
            return one(st, self.array())
        if name == "index":
            return one(st, self.with_(val=SV(self.label)))
        if name in ("loc", "at"):
            return one(st, Loc(self))
        if name in ("iloc", "iat"):
            return one(st, ILoc(self))
        if name == "empty":
            i = z3.Int(uid("i"))
            return one(st, SV(z3.Not(z3.Exists([i], z3.And(0 <= i, i < self.n, sub1(self.keep, self.iv, i))))))
        if name == "size":
            st = st.fork()
            return one(st, self.py_len(E, st))
        return None

    def py_call(self, E, name, args, kw, st):
        if name in ("notnull", "notna"):
            return one(st, self.with_(val=SV(z3.Not(isnull(self.val)))))
        if name in ("isnull", "isna"):
            return one(st, self.with_(val=SV(isnull(self.val))))
        if name == "isin":
            if isinstance(self.val, OptV):
                r = z3.And(z3.Not(self.val.null), E.b(E.contains(self.val.v, args[0], st)))
            else:
                r = E.b(E.contains(self.val, args[0], st))
            return one(st, self.with_(val=SV(r)))
        if name == "any":
            return one(st, self.py_any(E, st))
        if name == "all":
            return one(st, self.py_all(E, st))
        if name in ("tolist", "to_list", "copy") or name in ("to_numpy",):
            if name == "copy":
                return one(st, self)
            from .prims import p_list
            return p_list(E, st, None, [self.array()], {})
        if name == "dropna":
            v = self.val.v if isinstance(self.val, OptV) else self.val
            return one(st, Ser(self.n, self.iv, v, z3.And(self.keep, z3.Not(isnull(self.val))), self.label))
        if name == "fillna":
            return one(st, self.with_(val=fill(E, self.val, args[0] if args else kw["value"])))
        if name == "eq":
            return self.py_compare(E, ast.Eq(), self, args[0], st)
        if name == "ne":
            return self.py_compare(E, ast.NotEq(), self, args[0], st)
        if name == "reset_index":
            st = st.fork()
            c = self.compact(E, st)
            return one(st, Ser(c.n, c.iv, c.val))
        if name == "items":
            i = z3.Int(uid("i"))
            it = Item((SV(sub1(self.label, self.iv, i)), self.at(i)))
            return one(st, CompV([Loop([i], z3.And(0 <= i, i < self.n), [Guard(sub1(self.keep, self.iv, i), [it])], self.n)]))
        raise Unsupported("%s of a column" % name)


def fill(E, v, x):
    if not isinstance(v, OptV):
        return v
    if isinstance(v.v, SV) and z3.is_arith(v.v.e) and E.is_num(x):
        a, b = v.v.e, E.num(x)
        if a.sort() != b.sort():
            a, b = real(a), real(b)
        return SV(z3.If(v.null, b, a))
    return FillV(v.null, v.v, x)


class ILoc:
    """access by position"""

    def __init__(self, o):
        self.o = o

    def subst(self, m):
        return ILoc(self.o.subst(m))

    def pos(self, E, k, st):
        n = self.o.n
        i = E.num(k)
        if isinstance(k, int):
            i = z3.IntVal(k) if k >= 0 else n + k
            return [(s, i) for s in E.require(st, z3.And(0 <= i, i < n), "IndexError")]
        i = z3.If(i < 0, i + n, i)
        return [(s, i) for s in E.require(st, z3.And(0 <= i, i < n), "IndexError")]

    def py_getitem(self, E, k, st):
        st = st.fork()
        c = self.o.compact(E, st)
        me = ILoc(c)
        if isinstance(c, Ser):
            return [z for s, i in me.pos(E, k, st) for z in cell(E, c.at(i), s)]
        if isinstance(k, tuple):
            r, q = k
            names = list(c.cols)
            if not isinstance(q, int) or not -len(names) <= q < len(names):
                raise Unsupported("column position")
            return [z for s, i in me.pos(E, r, st) for z in cell(E, subst(c.cols[names[q]], [(c.iv, i)]), s)]
        return [(s, Row(c, i)) for s, i in me.pos(E, k, st)]

    def py_slice(self, E, lo, hi, step, st):
        if isinstance(self.o, Ser):
            return self.o.py_slice(E, lo, hi, step, st)
        st = st.fork()
        c = self.o.compact(E, st)
        out = []
        for s, q in E.slice(SeqV(c.n, c.iv, SV(c.iv)), lo, hi, step, st):
            e = q.body.e
            out.append((s, Frame(q.n, q.ivar, {k: subst(v, [(c.iv, e)]) for k, v in c.cols.items()}, T, sub1(c.label, c.iv, e))))
        return out


class Loc:
    """access by label or by a condition"""

    def __init__(self, f):
        self.f = f

    def subst(self, m):
        return Loc(self.f.subst(m))

    def py_getitem(self, E, k, st):
        if isinstance(k, tuple) and len(k) == 2:
            out = []
            for s, r in self.py_getitem(E, k[0], st):
                out.extend(E.getitem(r, k[1], s))
            return out
        if k is ALL:
            return one(st, self.f)
        if isinstance(k, Ser) or isinstance(self.f, Ser):
            return self.f.py_getitem(E, k, st)
        return [(s, Row(self.f, i)) for s, i in self.f.col0().label_at(E, k, st)]


ALL = Prim("slice:all")


class Row:
    def __init__(self, f, i):
        self.f, self.i = f, i

    def subst(self, m):
        return Row(self.f.subst(m), z3.substitute(self.i, *m))

    def vkey(self, E):
        return ("Row", self.f.vkey(E), self.i.get_id())

    def py_getitem(self, E, k, st):
        if not isinstance(k, str):
            raise Unsupported("row access by %r" % (k,))
        if k not in self.f.cols:
            E.throw(st, "KeyError")
            return []
        return cell(E, subst(self.f.cols[k], [(self.f.iv, self.i)]), st)


class Frame:
    def __init__(self, n, iv, cols, keep=T, label=None):
        self.n, self.iv, self.cols, self.keep = n, iv, dict(cols), keep
        self.label = iv if label is None else label

    def subst(self, m):
        m = [(a, b) for a, b in m if not a.eq(self.iv)]
        if not m:
            return self
        S = lambda e: z3.substitute(e, *m)
        return Frame(S(self.n), self.iv, {k: subst(v, m) for k, v in self.cols.items()}, S(self.keep), S(self.label))

    def vkey(self, E):
        return ("Frame", self.n.get_id(), self.iv.get_id(), self.keep.get_id(), self.label.get_id()) + \
            tuple((k, E.vkey(v)) for k, v in self.cols.items())

    def col(self, k):
        return Ser(self.n, self.iv, self.cols[k], self.keep, self.label)

    def col0(self):
        return Ser(self.n, self.iv, SV(self.iv), self.keep, self.label)

    def compact(self, E, st):
        if z3.is_true(z3.simplify(self.keep)):
            return self
        m, pos, _ = E.filtered(st, self.n, self.iv, self.keep)
        iv = z3.Int(uid("i"))
        return Frame(m, iv, {k: subst(v, [(self.iv, pos(iv))]) for k, v in self.cols.items()}, T, sub1(self.label, self.iv, pos(iv)))

    def py_len(self, E, st):
        return SV(self.compact(E, st).n)

    def py_truth(self, E, st):
        raise Unsupported("truth of a frame")

    def py_tree(self, E, st):
        return [Item(k) for k in self.cols]

    def py_contains(self, E, a, st):
        return isinstance(a, str) and a in self.cols

    def py_getitem(self, E, k, st):
        if isinstance(k, str):
            if k not in self.cols:
                E.throw(st, "KeyError")
                return []
            return one(st, self.col(k))
        if isinstance(k, Ser):
            c = self.col0().where(E, st, k)
            return one(st, Frame(self.n, self.iv, {x: known(v, c.keep) for x, v in self.cols.items()}, c.keep, self.label))
        l = E.view(k, st)
        if isinstance(l, CList) and all(isinstance(x, str) for x in l.items):
            return one(st, Frame(self.n, self.iv, {x: self.cols[x] for x in l.items}, self.keep, self.label))
        raise Unsupported("frame access")

    def py_getattr(self, E, name, st):
        if name == "loc":
            return one(st, Loc(self))
        if name in ("iloc", "iat"):
            return one(st, ILoc(self))
        if name == "at":
            return one(st, Loc(self))
        if name == "empty":
            return self.col0().py_getattr(E, "empty", st)
        if name == "index":
            return one(st, self.col0().with_(val=SV(self.label)))
        if name == "columns":
            return one(st, CList(list(self.cols)))
        if name in self.cols:
            return one(st, self.col(name))
        return None

    def py_call(self, E, name, args, kw, st):
        if name == "isin":
            return one(st, Frame(self.n, self.iv, {k: self.col(k).py_call(E, "isin", args, kw, st)[0][1].val for k in self.cols}, self.keep, self.label))
        if name in ("notnull", "notna", "isnull", "isna"):
            return one(st, Frame(self.n, self.iv, {k: self.col(k).py_call(E, name, [], {}, st)[0][1].val for k in self.cols}, self.keep, self.label))
        if name in ("any", "all"):
            ax = args[0] if args else kw.get("axis", 0)
            if ax in (1, "columns"):
                es = [E.b(E.truth(v, st)) for v in self.cols.values()]
                return one(st, self.col0().with_(val=SV(z3.Or(es) if name == "any" else z3.And(es))))
            return one(st, ColSer([(k, self.col(k).py_call(E, name, [], {}, st)[0][1].e) for k in self.cols]))
        if name == "fillna":
            x = args[0] if args else kw["value"]
            return one(st, Frame(self.n, self.iv, {k: fill(E, v, x) for k, v in self.cols.items()}, self.keep, self.label))
        if name == "copy":
            return one(st, self)
        if name == "reset_index":
            if kw.get("drop") is not True:
                raise Unsupported("reset_index keeping the index")
            st = st.fork()
            c = self.compact(E, st)
            return one(st, Frame(c.n, c.iv, c.cols))
        if name == "rename":
            d = E.view(kw.get("columns"), st)
            if not isinstance(d, FinDict):
                raise Unsupported("rename")
            m = dict(d.entries)
            return one(st, Frame(self.n, self.iv, {m.get(k, k): v for k, v in self.cols.items()}, self.keep, self.label))
        if name == "drop" and "columns" in kw:
            l = E.view(kw["columns"], st)
            return one(st, Frame(self.n, self.iv, {k: v for k, v in self.cols.items() if k not in l.items}, self.keep, self.label))
        if name == "dropna" and kw.get("how") == "all" and not args:
            g = z3.And([isnull(v) for v in self.cols.values()])
            return one(st, Frame(self.n, self.iv, self.cols, z3.And(self.keep, z3.Not(g)), self.label))
        raise Unsupported("%s of a frame" % name)


class ColSer:
    """one truth value per column"""

    def __init__(self, items):
        self.items = items

    def subst(self, m):
        return ColSer([(k, z3.substitute(v, *m)) for k, v in self.items])

    def py_compare(self, E, op, a, b, st):
        o = b if a is self else a
        if isinstance(op, (ast.Eq, ast.NotEq)):
            r = [(k, E.b(E.eq(SV(v), o, st))) for k, v in self.items]
            return one(st, ColSer([(k, v if isinstance(op, ast.Eq) else z3.Not(v)) for k, v in r]))
        raise Unsupported("comparison")

    def py_getitem(self, E, k, st):
        if isinstance(k, ColSer):
            return one(st, ColSel([(n, g) for n, g in k.items]))
        raise Unsupported("column access")

    def py_getattr(self, E, name, st):
        if name == "index":
            return one(st, CList([k for k, _ in self.items]))
        return None

    def py_call(self, E, name, args, kw, st):
        if name == "any":
            return one(st, SV(z3.Or([v for _, v in self.items])))
        if name == "all":
            return one(st, SV(z3.And([v for _, v in self.items])))
        raise Unsupported(name)

    def py_truth(self, E, st):
        raise Unsupported("truth of columns")


class ColSel:
    """selected columns"""

    def __init__(self, items):
        self.items = items

    def subst(self, m):
        return ColSel([(k, z3.substitute(v, *m)) for k, v in self.items])

    def py_getattr(self, E, name, st):
        if name == "index":
            return one(st, CompV([Guard(g, [Item(k)]) for k, g in self.items]))
        return None


def frame(E, cols, name, args, iv=None):
    """input frame: cols maps column names to types"""
    iv = z3.Int(uid("row")) if iv is None else iv
    n = fn(name + ".len", args, z3.IntSort())
    E.axiom_once(name + ".len", z3.ForAll(args, n >= 0) if args else n >= 0)
    return Frame(n, iv, {c: make(E, t, name + "." + c, list(args) + [iv]) for c, t in cols.items()})


class OrdDict:
    """dictionary given as a sequence of distinct keys and a value for each key"""

    def __init__(self, E, name, sort, val):
        self.name, self.sort, self.val_of = name, sort, val
        self.n = z3.Int(name + ".size")
        i = z3.Int("i")
        E.axiom_once(name + ".keys", z3.And(self.n >= 0, z3.ForAll([i], z3.Implies(
            z3.And(0 <= i, i < self.n), self.idx(self.at(i)) == i), patterns=[self.at(i)])))

    def at(self, i):
        return fn(self.name + ".key", [i], self.sort)

    def idx(self, k):
        return fn(self.name + ".idx", [k], z3.IntSort())

    def has(self, k):
        return z3.And(0 <= self.idx(k), self.idx(k) < self.n, self.at(self.idx(k)) == k)

    def subst(self, m):
        return self

    def vkey(self, E):
        return ("OrdDict", self.name)

    def conv(self, E, k):
        if k is None or isinstance(k, (tuple, FStr)):
            return None
        if isinstance(k, OptV):
            raise Unsupported("missing key")
        if isinstance(k, SV) and k.e.sort() != self.sort and Atom in (k.e.sort(), self.sort):
            return None
        return E.to_sort(k, self.sort)

    def py_tree(self, E, st):
        return [iloop(self.n, lambda i: [Item(SV(self.at(i)))])]

    def py_seq(self, E, st):
        i = z3.Int(uid("i"))
        return SeqV(self.n, i, SV(self.at(i)))

    def py_len(self, E, st):
        return SV(self.n)

    def py_truth(self, E, st):
        return self.n > 0

    def py_contains(self, E, a, st):
        k = self.conv(E, a)
        return False if k is None else self.has(k)

    def py_getitem(self, E, k, st):
        k = self.conv(E, k)
        if k is None:
            E.throw(st, "KeyError")
            return []
        return [(s, self.val_of(k)) for s in E.require(st, self.has(k), "KeyError")]

    def py_call(self, E, name, args, kw, st):
        i = z3.Int(uid("i"))
        if name == "keys":
            return one(st, Prim("keysview", self))
        if name == "values":
            return one(st, SeqV(self.n, i, self.val_of(self.at(i))))
        if name == "items":
            return one(st, SeqV(self.n, i, (SV(self.at(i)), self.val_of(self.at(i)))))
        if name == "copy":
            return one(st, self)
        if name == "get":
            out = []
            for s, b in E.branch(st, E.b(self.py_contains(E, args[0], st))):
                out.extend(self.py_getitem(E, args[0], s) if b else [(s, args[1] if len(args) > 1 else None)])
            return out
        raise Unsupported("%s of a dictionary" % name)


# dates ----------------------------------------------------------------------------

class DateV:
    """point in time, in minutes"""

    def __init__(self, m):
        self.m = m

    def subst(self, m):
        return DateV(z3.substitute(self.m, *m))

    def vkey(self, E):
        return ("Date", self.m.get_id())

    def py_key(self, E):
        return self.m

    def py_eq(self, E, o, st):
        return self.m == o.m if isinstance(o, DateV) else False

    def py_compare(self, E, op, a, b, st):
        if not (isinstance(a, DateV) and isinstance(b, DateV)):
            return None
        return E.compare(op, SV(a.m), SV(b.m), st)

    def py_binop(self, E, op, a, b, st):
        if isinstance(a, DateV) and isinstance(b, DateV) and isinstance(op, ast.Sub):
            return one(st, DeltaV(a.m - b.m))
        if isinstance(a, DateV) and isinstance(b, DeltaV):
            return one(st, DateV(a.m + b.m if isinstance(op, ast.Add) else a.m - b.m))
        if isinstance(b, DateV) and isinstance(a, DeltaV) and isinstance(op, ast.Add):
            return one(st, DateV(a.m + b.m))
        raise Unsupported("date arithmetic")


class DeltaV:
    """difference of times, in minutes"""

    def __init__(self, m):
        self.m = m

    def subst(self, m):
        return DeltaV(z3.substitute(self.m, *m))

    def vkey(self, E):
        return ("Delta", self.m.get_id())

    def py_key(self, E):
        return self.m

    def py_eq(self, E, o, st):
        return self.m == o.m if isinstance(o, DeltaV) else False

    def py_compare(self, E, op, a, b, st):
        if not (isinstance(a, DeltaV) and isinstance(b, DeltaV)):
            return None
        return E.compare(op, SV(a.m), SV(b.m), st)

    def py_binop(self, E, op, a, b, st):
        if isinstance(a, DeltaV) and isinstance(b, DeltaV) and isinstance(op, (ast.Add, ast.Sub)):
            return one(st, DeltaV(a.m + b.m if isinstance(op, ast.Add) else a.m - b.m))
        if isinstance(op, ast.Div) and isinstance(a, DeltaV) and isinstance(b, DeltaV):
            return [(s, SV(a.m / b.m)) for s in E.require(st, b.m != 0, "ZeroDivisionError")]
        if isinstance(op, ast.Mult):
            d, x = (a, b) if isinstance(a, DeltaV) else (b, a)
            return one(st, DeltaV(d.m * real(E.num(x))))
        return None

    def py_getattr(self, E, name, st):
        if name == "seconds":
            s = z3.ToInt(60 * self.m)
            return one(st, SV(s % 86400))
        if name == "days":
            return one(st, SV(z3.ToInt(60 * self.m) / 86400))
        return None

    def py_call(self, E, name, args, kw, st):
        if name == "total_seconds":
            return one(st, SV(60 * self.m))
        raise Unsupported(name)


def clock(fmt, a):
    """minutes since midnight of a time given as text"""
    return fn("minutes" + ("" if fmt == "%H:%M" else fmt), [a], z3.IntSort())


@prim("datetime.datetime.strptime")
def p_strptime(E, st, _, args, kw):
    a, f = args[0], args[1] if len(args) > 1 else kw.get("format")
    if not isinstance(f, str):
        raise Unsupported("time format")
    if isinstance(a, OptV):
        raise Unsupported("missing time")
    return one(st, DateV(real(clock(f, E.to_sort(a, Atom)))))


@prim("datetime.timedelta")
def p_timedelta(E, st, _, args, kw):
    m = z3.RealVal(0)
    for k, v in kw.items():
        c = {"minutes": 1, "hours": 60, "days": 1440, "seconds": z3.RealVal("1/60")}.get(k)
        if c is None:
            raise Unsupported("timedelta")
        m = m + c * real(E.num(v))
    if args:
        m = m + 1440 * real(E.num(args[0]))
    return one(st, DeltaV(z3.simplify(m) if not kw else m))
