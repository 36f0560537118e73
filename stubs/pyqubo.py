"""Minimal stand-in for pyqubo 1.3 (not installed in this sandbox).

An expression is a polynomial over labelled bits and placeholders, kept as a
mapping from monomials to coefficients.  Integers are log-encoded as pyqubo
documents it."""
from collections import namedtuple

import dimod


def _mono(a, b):
    ph = tuple(sorted(a[0] + b[0]))
    return ph, a[1] | b[1]


class Base:
    __array_ufunc__ = None

    def __init__(self, poly=None, subh=None):
        self.poly = dict(poly or {})  # terms that cancel keep their variables in the model
        self.subh = dict(subh or {})

    @staticmethod
    def lift(o):
        return o if isinstance(o, Base) else Base({((), frozenset()): o})

    def __add__(self, o):
        o = Base.lift(o)
        p = dict(self.poly)
        for k, c in o.poly.items():
            p[k] = p.get(k, 0) + c
        return Base(p, {**self.subh, **o.subh})

    __radd__ = __add__

    def __mul__(self, o):
        o = Base.lift(o)
        p = {}
        for a, x in self.poly.items():
            for b, y in o.poly.items():
                k = _mono(a, b)
                p[k] = p.get(k, 0) + x * y
        return Base(p, {**self.subh, **o.subh})

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + Base.lift(o) * -1

    def __rsub__(self, o):
        return Base.lift(o) + self * -1

    def __truediv__(self, o):
        return self * (1 / o)

    def __pow__(self, n):
        r = Base.lift(1)
        for _ in range(n):
            r = r * self
        return r

    def compile(self, strength=5.0):
        return Model(self)


def Binary(label):
    return Base({((), frozenset([label])): 1})


def Placeholder(label):
    return Base({((label,), frozenset()): 1})


def LogEncInteger(label, value_range):
    lower, upper = value_range
    assert upper > lower, "upper value should be larger than lower value"
    assert isinstance(lower, int) and isinstance(upper, int)
    span, d = upper - lower, 1
    while 2 ** d <= span:
        d += 1
    e = Base.lift(lower)
    for i in range(d - 1):
        e = e + Binary("%s[%d]" % (label, i)) * 2 ** i
    e = e + Binary("%s[%d]" % (label, d - 1)) * (span - (2 ** (d - 1) - 1))
    return Base(e.poly, {label: e})


Decoded = namedtuple("Decoded", "sample subh energy")


def _val(e, s, feed):
    t = 0
    for (ph, bits), c in e.poly.items():
        for p in ph:
            c = c * feed[p]
        if all(s[b] for b in bits):
            t += c
    return t


class Model:
    def __init__(self, e):
        self.e = e
        self.variables = sorted({b for _, bits in e.poly for b in bits})

    def _reduced(self, feed):
        p = {}
        for (ph, bits), c in self.e.poly.items():
            for x in ph:
                c = c * feed[x]
            p[bits] = p.get(bits, 0) + c
        return p

    def to_bqm(self, feed_dict=None, index_label=False):
        lin, quad, off = {v: 0 for v in self.variables}, {}, 0
        for bits, c in self._reduced(feed_dict or {}).items():
            b = sorted(bits)
            if not b:
                off += c
            elif len(b) == 1:
                lin[b[0]] += c
            elif len(b) == 2:
                quad[tuple(b)] = quad.get(tuple(b), 0) + c
            else:
                raise ValueError("higher-order term")
        return dimod.BinaryQuadraticModel(lin, quad, off)

    def to_qubo(self, feed_dict=None):
        b = self.to_bqm(feed_dict)
        q = {(v, v): c for v, c in b.linear.items()}
        q.update(b.quadratic)
        return q, b.offset

    def energy(self, sample, vartype="BINARY", feed_dict=None):
        return _val(self.e, sample, feed_dict or {})

    def decode_sample(self, sample, vartype="BINARY", feed_dict=None):
        s = dict(sample)
        return Decoded(s, {l: _val(e, s, feed_dict or {}) for l, e in self.e.subh.items()},
                       _val(self.e, s, feed_dict or {}))
