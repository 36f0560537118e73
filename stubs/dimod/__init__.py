"""Minimal stand-in for dimod (not installed in this sandbox): linear
expressions, constrained models and sample sets as far as the repository uses
them."""
import sys as _sys
import types as _types


class Expr:
    __array_ufunc__ = None

    def __init__(self, linear=None, offset=0, variables=None):
        self.linear = dict(linear or {})
        self.offset = offset
        self.info = dict(variables or {})
        self.quadratic = {}

    def _c(self, o, s=1):
        r = Expr(self.linear, self.offset, self.info)
        if isinstance(o, Expr):
            for v, c in o.linear.items():
                r.linear[v] = r.linear.get(v, 0) + s * c
            r.info.update(o.info)
            r.offset = r.offset + s * o.offset
        else:
            r.offset = r.offset + s * o
        return r

    def __add__(self, o):
        return self._c(o)

    __radd__ = __add__

    def __sub__(self, o):
        return self._c(o, -1)

    def __rsub__(self, o):
        return (self * -1)._c(o)

    def __neg__(self):
        return self * -1

    def __mul__(self, o):
        if isinstance(o, Expr):
            raise TypeError("only linear products are supported by the stand-in")
        return Expr({v: c * o for v, c in self.linear.items()}, self.offset * o, self.info)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * (1 / o)

    def __le__(self, o):
        return Comparison(self - o, "<=")

    def __ge__(self, o):
        return Comparison(self - o, ">=")

    def __eq__(self, o):
        return Comparison(self - o, "==")

    __hash__ = object.__hash__

    @property
    def variables(self):
        return list(self.info)


class Comparison:
    """lhs `sense` 0, the constant moved to the right as dimod does"""

    def __init__(self, e, sense):
        self.lhs = Expr(e.linear, 0, e.info)
        self.rhs = -e.offset
        self.sense = sense


def Binary(label):
    return Expr({label: 1}, 0, {label: ("BINARY", 0, 1)})


def Integer(label, lower_bound=0, upper_bound=None):
    return Expr({label: 1}, 0, {label: ("INTEGER", lower_bound, upper_bound)})


class ConstrainedQuadraticModel:
    def __init__(self):
        self.constraints = {}
        self.objective = Expr()
        self.info = {}

    def _vars(self, e):
        for v, i in e.info.items():
            if self.info.setdefault(v, i) != i:
                raise ValueError("inconsistent variable " + str(v))

    def add_constraint(self, data, sense=None, rhs=0, label=None, copy=True):
        if isinstance(data, bool):
            raise TypeError("unexpected data format")
        if isinstance(data, Expr):
            data = Comparison(data - rhs, sense)
        if label is None:
            label = "c%d" % len(self.constraints)
        if label in self.constraints:
            raise ValueError("a constraint with that label already exists")
        self._vars(data.lhs)
        self.constraints[label] = data
        return label

    def set_objective(self, e):
        if not isinstance(e, Expr):
            e = Expr({}, e)
        self._vars(e)
        self.objective = e

    @property
    def variables(self):
        return list(self.info)

    def lower_bound(self, v):
        return self.info[v][1]

    def upper_bound(self, v):
        return self.info[v][2]

    def vartype(self, v):
        return self.info[v][0]


CQM = ConstrainedQuadraticModel


class BinaryQuadraticModel:
    def __init__(self, linear=None, quadratic=None, offset=0, vartype="BINARY"):
        self.linear = dict(linear or {})
        self.quadratic = dict(quadratic or {})
        self.offset = offset
        self.vartype = vartype

    @property
    def variables(self):
        return list(self.linear)

    def energy(self, s):
        return (self.offset + sum(c * s[v] for v, c in self.linear.items())
                + sum(c * s[a] * s[b] for (a, b), c in self.quadratic.items()))


class _Datum:
    def __init__(self, sample, energy):
        self.sample, self.energy = sample, energy
        self.num_occurrences = 1


class SampleSet:
    def __init__(self, samples, energies, info=None):
        self._s, self._en = [dict(s) for s in samples], list(energies)
        self.info = info or {}

    @classmethod
    def from_samples(cls, samples, vartype=None, energy=None, **kw):
        return cls(samples, energy)

    def data(self, fields=None, sorted_by="energy", **kw):
        ix = list(range(len(self._s)))
        if sorted_by == "energy":
            ix.sort(key=lambda i: self._en[i])
        return [_Datum(dict(self._s[i]), self._en[i]) for i in ix]

    def samples(self, n=None, sorted_by="energy"):
        return [d.sample for d in self.data(sorted_by=sorted_by)]

    def __len__(self):
        return len(self._s)

    @property
    def first(self):
        return self.data()[0]


def as_samples(x, *a, **k):
    return x


for _n in ("constrained", "sampleset"):
    _m = _types.ModuleType("dimod." + _n)
    _m.__dict__.update({k: v for k, v in globals().items() if not k.startswith("_")})
    _sys.modules["dimod." + _n] = _m
    globals()[_n] = _m
