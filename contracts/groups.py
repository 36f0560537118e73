"""Loop rules for code that sorts the trains of a list into groups.

A grouping G numbers the classes of the included trains in the order of their first
occurrence.  Before the train with index i is treated, the object built by the code is
assumed to hold exactly the classes of the trains before i (the invariant); the body is
run once, with the object's updates logged, and obligations demand that the logged
updates are the ones that lead to the invariant for i + 1.  After the loop the object
holds the classes of all trains."""
import z3
from pyvc.interp import assigned, assigned_target
from pyvc.prims import one
from pyvc.values import *

I, B = z3.IntSort(), z3.BoolSort()


class Grouping:
    """w: world; inc(p, i): train i is grouped under parameters p; same(p, i, k): trains i and k belong together"""

    def __init__(self, w, name, sorts, inc, same, hyps=()):
        self.w, self.name, self.inc, self.same = w, name, inc, same
        E = w.E
        ps = [z3.Const("g.p%d" % k, s) for k, s in enumerate(sorts)]
        f = lambda n, *a: z3.Function(name + "." + n, *([s for s in sorts] + [I] * len(a) + [I]))
        self.number = lambda p, i: f("number", 0)(*p, i)  # number of the class of train i
        self.count = lambda p, i: f("count", 0)(*p, i)  # classes among the trains before i
        self.first = lambda p, g: f("first", 0)(*p, g)  # first train of a class
        self.seen = lambda p, i: self.number(p, i) < self.count(p, i)  # an earlier train belongs to the class
        i, k, g = z3.Ints("g.i g.k g.g")
        N = w.T.n
        rng = lambda x: z3.And(0 <= x, x < N)
        at = w.T.at
        num, cnt, fst = self.number(ps, i), self.count(ps, i), self.first(ps, g)
        E.axioms += [
            z3.ForAll(ps + [i], cnt >= 0, patterns=[cnt]),
            z3.ForAll(ps + [i], z3.Implies(z3.And(rng(i), inc(ps, i)), z3.And(0 <= num, num <= cnt, num < self.count(ps, N))), patterns=[num]),
            # classes among the first i trains have their first train there
            z3.ForAll(ps + [i, g], z3.Implies(z3.And(0 <= i, i <= N, 0 <= g, g < cnt), z3.And(
                0 <= fst, fst < i, inc(ps, fst), self.number(ps, fst) == g)), patterns=[z3.MultiPattern(cnt, fst)]),
            # earlier trains have been counted
            z3.ForAll(ps + [i, k], z3.Implies(z3.And(0 <= k, k < i, i <= N, inc(ps, k)), self.number(ps, k) < cnt), patterns=[z3.MultiPattern(cnt, self.number(ps, k))]),
            z3.ForAll(ps + [i, k], z3.Implies(z3.And(rng(i), rng(k), inc(ps, i), inc(ps, k)), (num == self.number(ps, k)) == same(ps, i, k)),
                      patterns=[z3.MultiPattern(num, self.number(ps, k))]),
        ]

    def hints(self, p, i):
        f = self.first(p, self.number(p, i))
        return [self.count(p, i) >= 0, self.look(self.number(p, i)), self.look(self.number(p, f)), self.look(f)]

    def look(self, e):
        return z3.Function("look." + str(e.sort()), e.sort(), B)(e)

    def members(self, p, g, upto):
        """trains of class g before index upto"""
        i = z3.Int(uid("i"))
        return CompV([Loop([i], z3.And(0 <= i, i < upto), [Guard(z3.And(self.inc(p, i), self.number(p, i) == g), [Item(SV(self.w.T.at(i)))])], upto)])

    def classes(self, p, upto):
        g = z3.Int(uid("g"))
        n = self.count(p, upto)
        return Loop([g], z3.And(0 <= g, g < n), [Item(self.members(p, g, upto))], n)


class Keyed(Grouping):
    """grouping by a key: key(p, i)"""

    def __init__(self, w, name, sorts, inc, key, sort):
        Grouping.__init__(self, w, name, sorts, inc, lambda p, i, k: key(p, i) == key(p, k))
        self.key = key
        f = z3.Function(name + ".of key", *(list(sorts) + [sort, I]))
        self.key_number = lambda p, k: f(*p, k)
        ps = [z3.Const("g.p%d" % k, s) for k, s in enumerate(sorts)]
        i = z3.Int("g.i")
        w.E.axioms.append(z3.ForAll(ps + [i], z3.Implies(z3.And(0 <= i, i < w.T.n, inc(ps, i)), self.number(ps, i) == f(*ps, key(ps, i))),
                                    patterns=[self.number(ps, i)]))

    def seen_key(self, p, k, i):
        """the key of an earlier train"""
        g = self.key_number(p, k)
        return z3.And(0 <= g, g < self.count(p, i), self.key(p, self.first(p, g)) == k)


class Slot:
    """log of updates kept in the heap"""

    def __init__(self, E, st):
        self.ref = E.alloc(st, ListObj())

    def add(self, st, op):
        st = st.fork()
        st.heap[self.ref.id] = st.heap[self.ref.id].add(Item(op))
        return st

    def nodes(self, st, what):
        o = st.heap[self.ref.id]
        if o.opaque:
            raise Unsupported("reading %s changed in a loop" % what)
        return list(o.nodes)


class Keys:
    """the list of distinct keys met so far"""

    def __init__(self, G, p, i, key, log):
        self.G, self.p, self.i, self.key, self.log = G, p, i, key, log

    def subst(self, m):
        return self

    def num(self, E, a, st):
        if self.log.nodes(st, "keys"):
            raise Unsupported("keys read after an update")
        k = self.key(E, a, st)
        if k is None:
            raise Unsupported("key")
        return k

    def py_contains(self, E, a, st):
        return self.G.seen_key(self.p, self.num(E, a, st), self.i)

    def py_call(self, E, name, args, kw, st):
        if name == "index" and len(args) == 1:
            k = self.num(E, args[0], st)
            return [(x, SV(self.G.key_number(self.p, k))) for x in E.require(st, self.G.seen_key(self.p, k, self.i), "ValueError")]
        if name == "append" and len(args) == 1:
            k = self.key(E, args[0], st)
            if k is None:
                raise Unsupported("key")
            return one(self.log.add(st, ("key", k)), None)
        raise Unsupported("keys." + name)

    def py_len(self, E, st):
        self.log.nodes(st, "keys") and self.bad()
        return SV(self.G.count(self.p, self.i))

    def bad(self):
        raise Unsupported("keys read after an update")


class Classes:
    """the list of groups built so far: pre empty lists, then the classes before index i"""

    def __init__(self, G, p, i, pre, to, new):
        self.G, self.p, self.i, self.pre, self.to, self.new = G, p, i, pre, to, new

    def subst(self, m):
        return self

    def size(self):
        return self.G.count(self.p, self.i) + self.pre

    def py_len(self, E, st):
        return SV(self.size() + len(self.new.nodes(st, "groups")))

    def py_truth(self, E, st):
        return self.py_len(E, st).e > 0

    def py_tree(self, E, st):
        tail = [Item(CList(x.v[1])) for x in self.new.nodes(st, "groups")]
        extra = self.to.nodes(st, "groups")
        if self.pre:
            raise Unsupported("groups read while they are built")
        c = self.G.classes(self.p, self.i)
        g = c.binders[0]

        def added(n):
            if isinstance(n, Item):
                return Guard(E.num(n.v[1]) == g, [Item(n.v[2])])
            if isinstance(n, Guard):
                return Guard(n.g, [added(x) for x in n.nodes])
            return Loop(n.binders, n.dom, [added(x) for x in n.nodes], n.n)
        ms = c.nodes[0].v
        return [Loop([g], c.dom, [Item(CompV(list(ms.nodes) + [added(n) for n in extra]))], c.n)] + tail

    def py_getitem(self, E, k, st):
        if self.new.nodes(st, "groups"):
            raise Unsupported("group taken after a new one")
        k = E.num(k)
        k = k if k.sort() == I else z3.simplify(z3.ToInt(k))
        if not E.must(st, k >= 0):
            raise Unsupported("group counted from the end")
        return [(x, Class(self, k)) for x in E.require(st, z3.And(0 <= k, k < self.size()), "IndexError")]

    def py_call(self, E, name, args, kw, st):
        if name == "append" and len(args) == 1:
            v = E.view(args[0], st)
            if not isinstance(v, CList):
                raise Unsupported("new group")
            return one(self.new.add(st, ("new", tuple(v.items))), None)
        raise Unsupported("groups." + name)


class Class:
    def __init__(self, c, k):
        self.c, self.k = c, k

    def subst(self, m):
        return Class(self.c, z3.substitute(self.k, *m))

    def filled(self, E, st):
        if not E.must(st, self.k >= self.c.pre):
            raise Unsupported("group that may be empty")

    def py_call(self, E, name, args, kw, st):
        if name == "append" and len(args) == 1:
            return one(self.c.to.add(st, ("to", SV(self.k - self.c.pre), args[0])), None)
        raise Unsupported("group." + name)

    def py_getitem(self, E, k, st):
        if k != 0:
            raise Unsupported("member of a group")
        self.filled(E, st)
        st = st.fork()
        f = self.c.G.first(self.c.p, self.k - self.c.pre)
        st.facts += (self.c.G.count(self.c.p, self.c.i) >= 0, self.c.G.look(self.c.G.number(self.c.p, f)))
        return one(st, SV(self.c.G.w.T.at(f)))

    def py_truth(self, E, st):
        self.filled(E, st)
        return True

    def py_eq(self, E, o, st):
        v = E.view(o, st)
        if isinstance(v, CList) and not v.items:
            self.filled(E, st)
            return False
        raise Unsupported("comparison of a group")


class Lines:
    """dictionary of groups under construction, by next station"""

    def __init__(self, G, p, i, known, keys, get):
        self.G, self.p, self.i, self.known, self.keys, self.get = G, p, i, known, keys, get

    def subst(self, m):
        return self

    def put_here(self, E, k, st):
        for x in self.keys.nodes(st, "lines"):
            q = E.eq(SV(x.v[1]), SV(k), st)
            if q is True or q is not False and E.must(st, q):
                return True
            if q is not False and not E.must(st, z3.Not(q)):
                raise Unsupported("line")
        return False

    def py_contains(self, E, a, st):
        k = E.to_sort(a, Atom)
        return True if self.put_here(E, k, st) else self.known(k)

    def py_call(self, E, name, args, kw, st):
        if name == "keys":
            return one(st, self)
        if name == "setdefault":
            v = E.view(args[1], st)
            if isinstance(v, CList) and not v.items:
                out = []
                k = E.to_sort(args[0], Atom)
                for x, b in E.branch(st, self.py_contains(E, args[0], st)):
                    y = x if b else self.keys.add(x, ("line", k))
                    out.append((y, self.get(k)))
                return out
        raise Unsupported("lines." + name)

    def py_setitem(self, E, k, v, st):
        v = E.view(v, st)
        k = E.to_sort(k, Atom)
        if not isinstance(v, CList) or v.items or not E.must(st, z3.Not(E.b(self.py_contains(E, SV(k), st)))):
            raise Unsupported("line overwritten")
        return [self.keys.add(st, ("line", k))]

    def py_getitem(self, E, a, st):
        k = E.to_sort(a, Atom)
        return [(x, self.get(k)) for x in E.require(st, self.py_contains(E, a, st), "KeyError")]


def replace(v, rid, new):
    if isinstance(v, Ref) and v.id == rid:
        return new
    if isinstance(v, tuple):
        return tuple(replace(x, rid, new) for x in v)
    return v


def inside(st, rid, new):
    """let a name for the object: everywhere the object can be reached from"""
    for n, v in list(st.env.items()):
        st.env[n] = replace(v, rid, new)
    for r, o in list(st.heap.items()):
        if any(isinstance(n, Item) and replace(n.v, rid, new) is not n.v for n in o.nodes):
            st.heap[r] = type(o)([Item(replace(n.v, rid, new)) if isinstance(n, Item) else n for n in o.nodes], o.opaque)
    o = st.heap[rid]
    st.heap[rid] = type(o)((), True)


def over_trains(w, nodes):
    """(binder, domain, guard, element) of a loop over trains in timetable order"""
    if len(nodes) != 1 or not isinstance(nodes[0], Loop) or len(nodes[0].binders) != 1 or nodes[0].n is None:
        return None
    bs, dom, sub = rename(nodes[0])
    g, v = w.E.flat_item(sub)
    while z3.is_and(g) and any(z3.is_true(c) for c in g.children()):
        cs = [c for c in g.children() if not z3.is_true(c)]
        g = cs[0] if len(cs) == 1 else z3.And(cs)
    if not isinstance(v, SV) or not z3.is_int(v.e) or not v.e.eq(w.T.at(bs[0])) or not nodes[0].n.eq(w.T.n):
        return None
    return bs[0], dom, g, v


def run_body(E, s, st, s0, i, dom, g, v, body):
    names = assigned(s.body) | assigned_target(s.target)
    s0.binders = st.binders + (i,)
    s0.pc = st.pc + (dom, g)
    for n in names:
        if n in s0.env:
            s0.env[n] = Poison("variable %s carried through a loop" % n)
    E.exc.append([])
    try:
        outs = body(s0, v)
    finally:
        exs = E.exc.pop()
    for x, name in exs:
        y = x.fork()
        y.env = dict(st.env)
        E.exc[-1].append((y, name))
    after = st.fork()
    for n in names:
        after.env[n] = Poison("loop variable %s after the loop" % n)
    keep = {r: o for r, o in st.heap.items()}
    for x, kind, _ in outs:
        if kind not in ("next", "cont"):
            raise Unsupported("loop over trains left early")
    return outs, after, keep


def unchanged(outs, keep, but):
    for x, _, _ in outs:
        for r, o in keep.items():
            if r not in but and x.heap.get(r) is not o:
                raise Unsupported("loop changes another object")


def updates(w, name, x, to, new, inc, seen, number, me, extra=()):
    """the logged updates add train me to its class"""
    E = w.E
    news = [n.v for n in new]
    for n in new:
        if not isinstance(n, Item):
            raise Unsupported("groups made in a loop")
    if len(news) > 1 or news and len(news[0][1]) != 1:
        raise Unsupported("several new groups")
    fresh = z3.And(inc, z3.Not(seen))
    old = z3.And(inc, seen)
    if news:
        w.oblige(name + "/new group only for a new class", x, z3.And(fresh, E.b(E.eq(news[0][1][0], me, x))), extra)
    else:
        w.oblige(name + "/a new class gets a group", x, z3.Not(fresh), extra)
    ways = list(E_paths(to))
    for m, (bs, c, op) in enumerate(ways):
        w.oblige("%s/added only to its class/%d" % (name, m), x, z3.And(old, E.num(op[1]) == number, E.b(E.eq(op[2], me, x))), list(extra) + [c])
        for l, (b2, c2, op2) in enumerate(ways[m:]):
            if l == 0:
                if not bs:
                    continue
                m2 = [(b, z3.Const(uid("b"), b.sort())) for b in bs]
                c2 = z3.substitute(c2, *m2)
                w.oblige("%s/added once/%d" % (name, m), x, z3.And([a == b for a, b in m2]), list(extra) + [c, c2])
            else:
                w.oblige("%s/added once/%d-%d" % (name, m, m + l), x, z3.BoolVal(False), list(extra) + [c, c2])
    w.oblige(name + "/added to its class", x, disj(to, lambda op: z3.And(E.num(op[1]) == number, E.b(E.eq(op[2], me, x)))) if to else z3.BoolVal(False),
             list(extra) + [old])


def E_paths(nodes, bs=(), cond=()):
    for n in nodes:
        if isinstance(n, Item):
            yield list(bs), z3.And(list(cond)) if cond else z3.BoolVal(True), n.v
        elif isinstance(n, Guard):
            yield from E_paths(n.nodes, bs, tuple(cond) + (n.g,))
        else:
            b, d, sub = rename(n)
            yield from E_paths(sub, tuple(bs) + tuple(b), tuple(cond) + (d,))


def keyed_lists(w, G, key, name, where):
    """rule: two parallel lists, keys and groups"""

    def rule(E, s, st, nodes, body):
        t = over_trains(w, nodes)
        if t is None:
            return None
        p = where(E, st, t)
        if p is None:
            return None
        refs = {v.id for v in st.env.values() if isinstance(v, Ref) and type(st.heap[v.id]) is ListObj and not st.heap[v.id].opaque}
        empty = [r for r in refs if not st.heap[r].nodes]

        def prefix(o):
            return o.nodes and all(isinstance(n, Item) and isinstance(n.v, Ref) and type(st.heap[n.v.id]) is ListObj and not st.heap[n.v.id].nodes
                                   and not st.heap[n.v.id].opaque for n in o.nodes)
        pre = [r for r in refs if prefix(st.heap[r])]
        tries = [(k, v) for k in empty for v in pre] + [(k, v) for k in empty for v in empty if k != v]
        why = None
        for kr, vr in tries:
            n0 = len(E.obls)
            try:
                return attempt(E, s, st, t, body, p, kr, vr)
            except Unsupported as e:
                why = e
                del E.obls[n0:]
        if why is not None:
            raise why
        return None

    def attempt(E, s, st, t, body, p, kr, vr):
        i, dom, g, v = t
        s0 = st.fork()
        s0.env, s0.heap = dict(st.env), dict(st.heap)
        pre = len(st.heap[vr].nodes)
        lk, lt, ln = Slot(E, s0), Slot(E, s0), Slot(E, s0)
        inside(s0, kr, Keys(G, p, i, key, lk))
        inside(s0, vr, Classes(G, p, i, pre, lt, ln))
        outs, after, keep = run_body(E, s, st, s0, i, dom, g, v, body)
        unchanged(outs, {r: o for r, o in keep.items()}, {kr, vr} | {r for r, o in s0.heap.items() if st.heap.get(r) is not o})
        inc, number = G.inc(p, i), G.number(p, i)
        w.oblige(name + "/only trains of the list", st, z3.Implies(inc, g), [dom])
        for m, (x, _, _) in enumerate(outs):
            q = name if len(outs) == 1 else "%s/path%d" % (name, m)
            ks, to, new = [l.nodes(x, "groups") for l in (lk, lt, ln)]
            if len(ks) != len(new):
                raise Unsupported("keys and groups do not go together")
            if ks:
                w.oblige(q + "/key of the new group", x, z3.Implies(inc, G.key(p, i) == ks[0].v[1]), [])
            updates(w, q, x, to, new, inc, G.seen(p, i), number, SV(w.T.at(i)), G.hints(p, i))
        after.heap = dict(st.heap)
        after.heap[kr] = ListObj((), True)
        after.heap[vr] = ListObj(st.heap[vr].nodes + (G.classes(p, w.T.n),))
        return [(after, "next", None)]
    return rule


def lines_dict(w, G, name, nxt, hyps):
    """rule: dictionary by next station of lists of groups, filled for one station"""

    def rule(E, s, st, nodes, body):
        t = over_trains(w, nodes)
        if t is None:
            return None
        for r, o in st.heap.items():
            if isinstance(o, DictObj) and o.nodes and isinstance(o.nodes[-1], Item) and o.nodes[-1].v[0] == "put":
                _, k, v = o.nodes[-1].v
                if isinstance(v, Ref) and isinstance(st.heap[v.id], DictObj) and not st.heap[v.id].nodes and not st.heap[v.id].opaque \
                        and isinstance(k, SV) and k.e.sort() == Atom:
                    return attempt(E, s, st, t, body, k.e, v.id)
        return None

    def attempt(E, s, st, t, body, station, dr):
        i, dom, g, v = t
        s0 = st.fork()
        s0.env, s0.heap = dict(st.env), dict(st.heap)
        lk, lt, ln = Slot(E, s0), Slot(E, s0), Slot(E, s0)
        here = nxt(station, i)
        known = lambda k: G.count([station, k], i) > 0

        def get(k):
            if not E.must(s0, k == here) and not k.eq(here):
                q = z3.simplify(k)
                if not q.eq(z3.simplify(here)):
                    raise Unsupported("another line")
            return Classes(G, [station, k], i, 0, lt, ln)
        inside(s0, dr, Lines(G, [station], i, known, lk, get))
        outs, after, keep = run_body(E, s, st, s0, i, dom, g, v, body)
        unchanged(outs, keep, {dr} | {r for r, o in s0.heap.items() if st.heap.get(r) is not o})
        p = [station, here]
        inc, number = G.inc(p, i), G.number(p, i)
        w.oblige(name + "/only trains of the list", st, z3.Implies(inc, g), [dom])
        for m, (x, _, _) in enumerate(outs):
            q = name if len(outs) == 1 else "%s/path%d" % (name, m)
            ks, to, new = [l.nodes(x, "groups") for l in (lk, lt, ln)]
            for k in ks:
                w.oblige(q + "/line entered with its first train", x, z3.And(inc, k.v[1] == here, z3.Not(known(here))), hyps(station, i))
            if not ks:
                w.oblige(q + "/every line is entered", x, z3.Implies(inc, known(here)), hyps(station, i))
            updates(w, q, x, to, new, inc, G.seen(p, i), number, SV(w.T.at(i)), hyps(station, i))
        after.heap = dict(st.heap)
        k = z3.Const(uid("next"), Atom)
        N = w.T.n
        after.heap[dr] = DictObj([Loop([k], G.count([station, k], N) > 0, [Item(("put", SV(k), CompV([G.classes([station, k], N)])))])])
        return [(after, "next", None)]
    return rule


def grouped(w, name, st, nodes, inc, same, extra=(), hints=lambda i, k: []):
    """the lists emitted are the classes of the included trains, each in timetable order"""
    E = w.E
    i, k = z3.Int("i"), z3.Int("k")
    N = w.T.n
    rng = [0 <= i, i < N, 0 <= k, k < N]
    ways = []
    for bs, c, v in E_paths(nodes):
        t = E.tree(v, st)
        if not t:
            sel = None
        else:
            u = over_trains(w, t)
            if u is None:
                raise Unsupported("group not taken from the timetable")
            b, dom, g, _ = u
            sel = lambda e, b=b, g=g: z3.substitute(g, (b, e))
        ways.append((bs, c, sel))
    hs = hints(i, k)
    for m, (bs, c, sel) in enumerate(ways):
        if sel is None:
            w.oblige("%s/empty group/%d" % (name, m), st, z3.BoolVal(False), list(extra) + [c])
            continue
        w.oblige("%s/only trains that belong there/%d" % (name, m), st, inc(i), list(extra) + hs + rng + [c, sel(i)])
        w.oblige("%s/together exactly when they belong together/%d" % (name, m), st, sel(k) == same(i, k), list(extra) + hs + rng + [c, sel(i), inc(k)])
        for l, (b2, c2, sel2) in enumerate(ways[m:]):
            if sel2 is None:
                continue
            m2 = [(b, z3.Const(uid("b"), b.sort())) for b in b2]
            goal = z3.And([a == b for a, b in m2]) if l == 0 else z3.BoolVal(False)
            w.oblige("%s/in one group/%d-%d" % (name, m, m + l), st, goal,
                     list(extra) + hs + rng + [c, z3.substitute(c2, *m2) if m2 else c2, sel(i), z3.substitute(sel2(i), *m2) if m2 else sel2(i)])
    w.oblige(name + "/every train is in a group", st, z3.Or([z3.Exists(bs, z3.And(c, sel(i))) if bs else z3.And(c, sel(i)) for bs, c, sel in ways if sel is not None]),
             list(extra) + hs + rng + [inc(i)])


def subterms(e, sort, without):
    seen, out, todo = set(), [], [e]
    while todo:
        x = todo.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        if x.sort() == sort and not contains(x, without):
            out.append(x)
        todo += x.children()
    return out


def contains(e, x):
    y = z3.Const(uid("x"), x.sort())
    return not z3.substitute(e, (x, y)).eq(e)


# loops with a single effective round -------------------------------------------------------

def blank(st, names, why):
    st = st.fork()
    st.env = dict(st.env)
    for n in names:
        st.env[n] = Poison(why)
    return st


def only_at(index):
    """rule for loops over indices that do nothing except at one index"""
    def rule(E, loop, st, nodes, body):
        if len(nodes) != 1 or not isinstance(nodes[0], Loop) or len(nodes[0].binders) != 1 or len(nodes[0].nodes) != 1 or not isinstance(nodes[0].nodes[0], Item):
            return None
        lp = nodes[0]
        i0 = index(E, st, lp)
        if i0 is None:
            return None
        i = z3.Int(uid("i"))
        at = lambda e: (z3.substitute(lp.dom, (lp.binders[0], e)), subst(lp.nodes[0].v, [(lp.binders[0], e)]))
        names = assigned(loop.body) | assigned_target(loop.target)
        dom, v = at(i)
        idle = blank(st, names, "value of another round")
        idle.pc = idle.pc + (dom, i != i0)
        E.exc.append([])
        try:
            outs = body(idle, v)
        finally:
            bad = E.exc.pop()
        if any(E.sat(x, z3.BoolVal(True)) for x, _ in bad):
            return None
        hit = assigned_target(loop.target)
        for x, k, _ in outs:
            if k not in ("next", "cont") or any(x.heap.get(r) is not o for r, o in st.heap.items()) or \
                    any(x.env.get(n) is not idle.env.get(n) for n in set(x.env) | set(idle.env) if n not in hit):
                return None
        dom, v = at(i0)
        out = []
        for x, b in E.branch(st, dom):
            if not b:
                out.append((blank(x, hit, "loop variable"), "next", None))
                continue
            for y, k, r in body(x, v):
                out.append((blank(y, hit, "loop variable"), "next", None) if k in ("next", "cont", "brk") else (y, k, r))
        return out
    return rule


def holds(E, st, goal, ms=4000):
    """the goal follows from the state, with more time than for the choice of a path"""
    if E.must(st, goal):
        return True
    for simple in (True, False):
        s = z3.SimpleSolver() if simple else z3.Solver()
        if simple:
            s.set("smt.mbqi", False)
        s.set("timeout", ms)
        s.add(*E.base_axioms())
        s.add(*st.facts)
        s.add(*st.pc)
        s.add(z3.Not(goal))
        if s.check() == z3.unsat:
            return True
    return False


def same_element(value):
    """rule for loops whose elements are all equal and whose rounds do not build on each other"""
    def rule(E, loop, st, nodes, body):
        x0 = value(E, st, nodes)
        if x0 is None:
            return None
        for bs, c, v in E_paths(nodes):
            if not holds(E, st, z3.Implies(c, E.b(E.eq(v, x0, st)))):
                return None
        names = assigned(loop.body) | assigned_target(loop.target)
        out = []
        for x, b in E.branch(st, disj(nodes, lambda v: z3.BoolVal(True))):
            if not b:
                out.append((x, "next", None))
                continue
            for y, k, r in body(blank(x, names, "value of an earlier round"), x0):
                if any(y.heap.get(q) is not o for q, o in st.heap.items()):
                    return None
                out.append((y, "next", None) if k in ("next", "cont", "brk") else (y, k, r))
        return out
    return rule


def read_first(stmts):
    """names a round may read before it assigns them"""
    import ast
    out = set()

    def loads(e, done):
        done = done | {t for n in ast.walk(e) if isinstance(n, ast.comprehension) for t in assigned_target(n.target)}
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id not in done:
                out.add(n.id)

    def block(ss, done):
        for s in ss:
            done = stmt(s, done)
        return done

    def stmt(s, done):
        if isinstance(s, ast.If):
            loads(s.test, done)
            return block(s.body, done) & block(s.orelse, done)
        if isinstance(s, ast.Try):
            block(s.body, done)
            for h in s.handlers:
                block(h.body, done)
            block(s.orelse, done)
            return done
        if isinstance(s, (ast.For, ast.While)):
            loads(s.iter if isinstance(s, ast.For) else s.test, done)
            block(s.body, done | (assigned_target(s.target) if isinstance(s, ast.For) else set()))
            block(s.orelse, done)
            return done
        if isinstance(s, ast.AugAssign):
            loads(ast.parse(ast.unparse(s.target), mode="eval"), done)
        loads(s, done)
        return done | assigned([s])
    block(stmts, set())
    return out


def last_written(fresh=None, spoiled=None):
    """rule for loops that hand variables from the last round that wrote them to later rounds.

    Written values may depend on the element of their round only: a round that starts from the
    values before the loop and one that starts from the values of an earlier round must write
    under the same condition and must write the same, which is checked here; by induction each
    round starts from the values before the loop (nothing written yet) or from those of the
    nearest earlier round that wrote.  A contract may name the rounds that write afresh and those
    that leave values which no later round may read."""
    def rule(E, loop, st, nodes, body):
        if len(nodes) != 1 or not isinstance(nodes[0], Loop) or len(nodes[0].binders) != 1 or len(nodes[0].nodes) != 1 or \
                not isinstance(nodes[0].nodes[0], Item) or nodes[0].n is None:
            return None
        lp = nodes[0]
        targets = assigned_target(loop.target)
        made = assigned(loop.body) - targets
        names = sorted(n for n in made & read_first(loop.body) if not isinstance(st.env.get(n), Ref))
        if not names or any(isinstance(st.env.get(n), Poison) for n in names) or fresh is None and any(n not in st.env for n in names):
            return None
        at = lambda e: (z3.substitute(lp.dom, (lp.binders[0], e)), subst(lp.nodes[0].v, [(lp.binders[0], e)]))

        def start(x, env):
            """lists made by an earlier round are objects of their own"""
            for n in names:
                x.env.pop(n, None)
            for n, v in env.items():
                x.env[n] = E.alloc(x, ListObj(tuple(Item(a) for a in v.items))) if isinstance(v, CList) else v

        def round_(i, env, extra):
            dom, v = at(i)
            x = st.fork()
            x.env = {n: v for n, v in st.env.items() if n not in made}
            x.binders = st.binders + (i,)
            x.pc = st.pc + (dom,) + tuple(extra)
            since, nobl = E.next_ref, len(E.obls)
            start(x, env)
            before = {n: E.freeze(x, x.env[n], since) for n in env}
            E.exc.append([])
            try:
                outs = body(x, v)
            finally:
                E.exc.pop()
                del E.obls[nobl:]
            res = []
            for y, k, _ in outs:
                if k not in ("next", "cont"):
                    return None
                now = {n: E.freeze(y, y.env[n], since) for n in names if n in y.env}
                wrote = {n: v for n, v in now.items() if n not in before or not E.same_val(v, before[n])}
                if any(isinstance(v, CList) for v in wrote.values()) and not fresh:
                    return None
                res.append((y, list(y.pc[len(x.pc):]), wrote))
            return res

        p, q = z3.Int(uid("p")), z3.Int(uid("q"))
        init = {n: st.env[n] for n in names if n in st.env}
        row = lambda e: at(e)[1].e if isinstance(at(e)[1], SV) and at(e)[1].e.sort() == I else e
        first = round_(p, init, (fresh(row(p)),) if fresh else ())
        if first is None:
            return None
        writing = [r for r in first if r[2]]
        if not writing or any(set(r[2]) != set(writing[0][2]) for r in writing):
            return None
        vals = writing[0][2]
        if any(not E.same_val(r[2][n], vals[n]) for r in writing for n in vals):
            return None
        if fresh:
            if len(writing) != len(first) or set(vals) != set(names):
                return None
            # a list handed on is not kept anywhere else
            if any(isinstance(v, CList) for v in vals.values()) and any(y.heap.get(k) is not o for y, _, _ in first for k, o in st.heap.items()):
                return None
            cond = fresh(row(p))
        else:
            full = z3.Or([z3.And(c) if c else z3.BoolVal(True) for _, c, _ in writing])
            short = [c for c in writing[0][1] if all(any(c.eq(d) for d in r[1]) for r in writing)]
            short = z3.And(short) if short else z3.BoolVal(True)
            x = st.fork()
            x.pc = st.pc + (at(p)[0],)
            x.facts = writing[0][0].facts
            cond = short if holds(E, x, z3.Implies(short, full)) else full
        own = lambda e: z3.substitute(cond, (p, e))
        lost = lambda e: spoiled(row(e)) if spoiled else z3.BoolVal(False)
        any_ = lambda e: z3.Or(own(e), lost(e)) if spoiled else own(e)
        val = lambda n, e: subst(vals[n], [(p, e)])
        order = sorted(vals)
        r = z3.Int(uid("r"))
        none = z3.ForAll([r], z3.Implies(z3.And(0 <= r, r < q), z3.Not(any_(r))))
        near = lambda c: z3.And(0 <= p, p < q, c, z3.ForAll([r], z3.Implies(z3.And(p < r, r < q), z3.Not(any_(r)))))
        starts = [(none, init), (near(own(p)), {n: val(n, p) for n in order})] + ([(near(z3.And(lost(p), z3.Not(own(p)))), {})] if spoiled else [])
        for cnd, env in starts:
            outs = round_(q, env, (cnd,))
            if outs is None:
                return None
            for y, _, wrote in outs:
                if spoiled and holds(E, y, z3.And(lost(q), z3.Not(own(q)))):
                    continue
                if wrote and set(wrote) != set(vals) or not holds(E, y, own(q) if wrote else z3.Not(own(q))):
                    return None
                if any(not E.same_val(wrote[n], val(n, q)) for n in wrote):
                    return None
        dom, v = at(q)
        here = z3.Int(uid("b"))  # no choice between the kinds of round: a branch would run the others twice
        tree = [Loop((q,), dom, [Loop((here,), z3.And(starts[0][0], here == 0), [Item((v, tuple((n, init[n]) for n in order if n in init)))])] +
                     [Loop((p,), c, [Item((v, tuple(env.items())))]) for c, env in starts[1:]], lp.n)]

        def one_round(y, tagged):
            v, env = tagged
            y = y.fork()
            start(y, dict(env))
            out = []
            for z, k, r in body(y, v):
                z = z.fork()
                for n in names:
                    z.env.pop(n, None)
                out.append((z, k, r))
            return out
        y = st.fork()
        y.env = {n: v for n, v in st.env.items() if n not in names}
        outs = E.walk(tree, y, one_round, (assigned(loop.body) | targets) - set(names), (id(loop), "written"))
        return [(blank(z, set(names), "value of the last round"), k, r) for z, k, r in outs]
    return rule


def first_exit(hints=lambda E, st, go, c: []):
    """rule for while loops that count one variable up by one; the other variables are functions of the counter.

    The loop ends at the first value of the counter at which the condition is false."""
    def rule(E, loop, st):
        names = assigned(loop.body)
        whole = lambda v: z3.IntVal(v) if isinstance(v, int) and not isinstance(v, bool) else \
            v.e if isinstance(v, SV) and v.e.sort() == I else None

        def round_(c, env):
            x = st.fork()
            x.env = {n: v for n, v in st.env.items() if n not in names}
            x.env.update(env)
            E.exc.append([])
            nobl = len(E.obls)
            try:
                outs = E.block(loop.body, x)
            finally:
                bad = E.exc.pop()
                del E.obls[nobl:]
            if len(outs) != 1 or outs[0][1] not in ("next", "cont") or any(outs[0][0].heap.get(k) is not o for k, o in st.heap.items()):
                return None
            return outs[0][0], bad
        for name in sorted(names):
            c0, c = whole(st.env.get(name)), z3.Int(uid("c"))
            if c0 is None:
                continue
            try:
                done = round_(c, {name: SV(c)})
            except Unsupported:
                continue
            if done is None:
                continue
            y, bad = done
            nxt = whole(y.env.get(name))
            if nxt is None or not z3.is_true(z3.simplify(nxt == c + 1)) or any(n not in y.env for n in names):
                continue
            norm = lambda v, e: subst(v, [(c, e)])
            f = {n: norm(y.env[n], c - 1) for n in names if n != name}
            if any(n not in st.env or not holds(E, st, E.b(E.eq(norm(f[n], c0), st.env[n], st))) for n in f):
                continue
            z = st.fork()
            z.env.update({n: SV(c) if n == name else f[n] for n in names})
            E.exc.append([])
            test = E.ev(loop.test, z)
            fails = E.exc.pop()
            if len(test) != 1:
                continue
            own = lambda x: list(x.pc[len(st.pc):])
            t = E.b(E.truth(test[0][1], test[0][0]))
            go, stop = z3.And(own(test[0][0]) + [t]), z3.And(own(test[0][0]) + [z3.Not(t)])
            at = lambda e: z3.substitute(go, (c, e))
            K, k = E.fresh(st, "K", I), z3.Int(uid("k"))
            goes = lambda incl: z3.ForAll([k], z3.Implies(z3.And(c0 <= k, k <= K if incl else k < K), at(k)))
            near = lambda incl: tuple(z3.Implies(z3.And(c0 <= e, e <= K if incl else e < K), at(e)) for e in hints(E, st, go, c))
            ends = []
            for x, exc, incl in [(x, exc, True) for x, exc in bad] + [(x, exc, False) for x, exc in fails]:  # a round or the condition raised
                ends.append(z3.And(K >= c0, goes(incl), *[z3.substitute(g, (c, K)) for g in own(x)]))
                b = st.fork()
                b.pc = b.pc + (ends[-1],) + near(incl)
                E.exc[-1].append((b, exc))
            ends.append(z3.And(K >= c0, z3.substitute(stop, (c, K)), goes(False)))
            out = st.fork()
            out.pc = out.pc + (ends[-1],) + near(False)
            # the loop ends in one of these ways (termination is not claimed)
            out.facts = out.facts + (z3.Implies(z3.And(st.pc), z3.Or(ends)),)
            out.env.update({n: SV(K) if n == name else norm(f[n], K) for n in names})
            return [(out, "next", None)]
        return None
    return rule


def only_elements(w, name, ok):
    """rule for while loops that collect elements in lists and in lists of lists:
    every element collected satisfies ok.  Termination is not claimed."""
    import itertools

    def leaves_ok(E, st, v, depth, outer=(), cond=()):
        out = []
        for bs, g, x in E_paths(E.tree(v, st)):
            bs, g = list(outer) + bs, list(cond) + [g]
            if depth > 1:
                out += leaves_ok(E, st, x, depth - 1, bs, g)
                continue
            if not isinstance(x, SV):
                raise Unsupported("element of a collected list")
            f = z3.Implies(z3.And(g), ok(E, st, x))
            out.append(z3.ForAll(bs, f) if bs else f)
        return out

    def refs(st, v, seen):
        """lists reachable from a value"""
        if isinstance(v, Ref) and v.id not in seen:
            seen.add(v.id)
            for bs, g, x in E_paths(st.heap[v.id].nodes):
                refs(st, x, seen)
        return seen

    def rule(E, loop, st):
        whole = lambda v: isinstance(v, int) and not isinstance(v, bool) or isinstance(v, SV) and v.e.sort() == I
        lists = [n for n, v in st.env.items() if isinstance(v, Ref) and type(st.heap[v.id]) is ListObj and not st.heap[v.id].nodes]
        if not lists:
            return None
        for depths in itertools.product((1, 2), repeat=len(lists)):
            nobl = len(E.obls)
            try:
                done = attempt(E, loop, st, dict(zip(lists, depths)), whole)
            except Unsupported:
                done = None
            if done is not None:
                return done
            del E.obls[nobl:]
        return None

    def attempt(E, loop, st, lists, whole):
        names = assigned(loop.body)
        if any(n in names and n not in lists and not whole(v) for n, v in st.env.items()):
            return None
        x = st.fork()
        x.env = {n: v for n, v in st.env.items() if n not in names or n in lists}
        x.heap = dict(x.heap)
        for n in names:
            if n in st.env and n not in lists:
                x.env[n] = SV(E.fresh(st, n, I))
        for n, d in lists.items():
            j, m = z3.Ints(uid("j") + " " + uid("m"))
            ln, at = E.fresh(st, n + ".n", I), z3.Function(uid(n + ".at"), I, I, Atom)
            inner = z3.Function(uid(n + ".len"), I, I)
            dom = z3.And(0 <= j, j < ln)
            if d == 1:
                node = Loop([j], dom, [Item(SV(at(j, 0)))], ln)
                fact = z3.ForAll([j], z3.Implies(dom, ok(E, st, SV(at(j, 0)))))
            else:
                node = Loop([j], dom, [Item(SeqV(inner(j), m, SV(at(j, m))))], ln)
                fact = z3.ForAll([j, m], z3.Implies(z3.And(dom, 0 <= m, m < inner(j)), ok(E, st, SV(at(j, m)))))
            x.heap[x.env[n].id] = ListObj([node])
            x.facts += (ln >= 0, fact)
        if st.binders:
            return None  # the collected elements would have to be functions of the binders
        outs = []
        for y, t in E.ev(loop.test, x):
            for z, b in E.branch(y, E.truth(t, y)):
                if not b:
                    outs.append((z, "next", None))
                    continue
                for u, kind, val in E.block(loop.body, z):
                    if kind not in ("next", "cont"):
                        outs.append((u, "next" if kind == "brk" else kind, val))
                        continue
                    reach = [refs(u, u.env[n], set()) if isinstance(u.env.get(n), Ref) else None for n in lists]
                    if None in reach or any(a & b for k, a in enumerate(reach) for b in reach[:k]):
                        return None  # lists shared from one round to the next
                    old = {id_ for id_ in st.heap} - {st.env[n].id for n in lists}
                    if any(u.heap[i] is not st.heap[i] for i in old) or any(not whole(u.env[n]) for n in names if n in st.env and n not in lists):
                        return None
                    for n, d in lists.items():
                        for k, f in enumerate(leaves_ok(E, u, u.env[n], d)):
                            w.oblige("%s/kept/%s %d" % (name, n, k), u, f)
        return outs
    return rule
