"""Minimal stand-in for PuLP 2.5.1 (not installed in this sandbox).

Only the part of the interface that the repository uses is provided.  The
semantics are those of PuLP: an affine expression maps variables to
coefficients and carries a constant, a constraint is an affine expression with
a sense, a problem collects named constraints and one objective.
"""
from collections import OrderedDict

LpMinimize, LpMaximize = 1, -1
LpContinuous, LpInteger, LpBinary = "Continuous", "Integer", "Binary"
LpConstraintLE, LpConstraintEQ, LpConstraintGE = -1, 0, 1
LpStatusNotSolved, LpStatusOptimal, LpStatusInfeasible = 0, 1, -1
LpStatus = {0: "Not Solved", 1: "Optimal", -1: "Infeasible"}

_TRANS = str.maketrans("-+[] ->/", "________")


class PulpError(Exception):
    pass


def _is_num(x):
    return not isinstance(x, (LpVariable, dict))


class _Arith:
    """operators shared by variables and expressions"""

    __array_ufunc__ = None

    def _e(self):
        return LpAffineExpression(self)

    def __add__(self, o):
        return self._e()._iadd(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._e()._iadd(o, -1)

    def __rsub__(self, o):
        return (self._e() * -1)._iadd(o, 1)

    def __neg__(self):
        return self._e() * -1

    def __pos__(self):
        return self._e()

    def __mul__(self, o):
        e = self._e()
        if not _is_num(o):
            o = LpAffineExpression(o)
            if len(o) and len(e):
                raise TypeError("Non-constant expressions cannot be multiplied")
            if len(o):
                e, o = o, e.constant
            else:
                o = o.constant
        r = LpAffineExpression(e.constant * o)
        if o != 0:
            for v, c in e.items():
                r[v] = c * o
        return r

    __rmul__ = __mul__

    def __truediv__(self, o):
        if not _is_num(o):
            if len(o):
                raise TypeError("Expressions cannot be divided by a non-constant expression")
            o = o.constant
        e = self._e()
        r = LpAffineExpression(e.constant / o)
        for v, c in e.items():
            r[v] = c / o
        return r

    def __le__(self, o):
        return LpConstraint(self - o, LpConstraintLE)

    def __ge__(self, o):
        return LpConstraint(self - o, LpConstraintGE)

    def __eq__(self, o):
        return LpConstraint(self - o, LpConstraintEQ)

    def __ne__(self, o):
        if isinstance(o, LpVariable):
            return self is not o
        return True


class LpVariable(_Arith):
    def __init__(self, name, lowBound=None, upBound=None, cat=LpContinuous, e=None):
        self.name = str(name).translate(_TRANS)
        if cat == LpBinary:
            lowBound, upBound, cat = 0, 1, LpInteger
        self.lowBound, self.upBound, self.cat = lowBound, upBound, cat
        self.varValue = None

    __hash__ = object.__hash__

    def __bool__(self):
        return True

    def __str__(self):
        return self.name

    __repr__ = __str__

    def value(self):
        return self.varValue

    @classmethod
    def dicts(cls, name, indices=None, lowBound=None, upBound=None, cat=LpContinuous,
              indexStart=None, indexs=None):
        if indices is None:
            indices = indexs
        indexStart = [] if indexStart is None else indexStart
        if not isinstance(indices, tuple):
            indices = (indices,)
        if "%" not in name:
            name += "_%s" * len(indices)
        index, rest = indices[0], indices[1:]
        d = {}
        for i in index:
            if rest:
                d[i] = cls.dicts(name, rest, lowBound, upBound, cat, indexStart + [i])
            else:
                d[i] = cls(name % tuple(indexStart + [str(i)]), lowBound, upBound, cat)
        return d


class LpAffineExpression(_Arith, OrderedDict):
    def __init__(self, e=None, constant=0):
        OrderedDict.__init__(self)
        self.constant = constant
        self.name = None
        if e is None:
            return
        if isinstance(e, LpVariable):
            self[e] = 1
        elif isinstance(e, LpAffineExpression):
            self.constant = e.constant
            for v, c in e.items():
                self[v] = c
        elif isinstance(e, dict):
            for v, c in e.items():
                self[v] = c
        elif isinstance(e, (list, tuple)):
            for v, c in e:
                self[v] = self.get(v, 0) + c
        else:
            self.constant = e

    __hash__ = object.__hash__

    def __bool__(self):
        return float(self.constant) != 0.0 or len(self) > 0

    def __str__(self):
        return " + ".join(["%s*%s" % (c, v.name) for v, c in self.items()] + [str(self.constant)])

    __repr__ = __str__

    def copy(self):
        return LpAffineExpression(self)

    def _iadd(self, o, sign):
        if isinstance(o, (list, tuple)):
            for x in o:
                self._iadd(x, sign)
        elif _is_num(o):
            self.constant = self.constant + sign * o
        else:
            o = LpAffineExpression(o)
            self.constant = self.constant + sign * o.constant
            for v, c in o.items():
                if v in self:
                    self[v] = self[v] + sign * c
                    if self[v] == 0:
                        del self[v]
                else:
                    self[v] = sign * c
        return self

    def value(self):
        s = self.constant
        for v, c in self.items():
            if v.varValue is None:
                return None
            s += v.varValue * c
        return s


class LpConstraint(LpAffineExpression):
    def __init__(self, e=None, sense=LpConstraintEQ, name=None, rhs=None):
        LpAffineExpression.__init__(self, e)
        self.name = None if name is None else str(name).translate(_TRANS)
        if rhs is not None:
            self.constant = self.constant - rhs
        self.sense = sense

    __hash__ = object.__hash__

    def valid(self, eps=0):
        v = self.value()
        if self.sense == LpConstraintEQ:
            return abs(v) <= eps
        return v * self.sense >= -eps


class LpProblem:
    def __init__(self, name="NoName", sense=LpMinimize):
        self.objective = None
        self.constraints = OrderedDict()
        self.name, self.sense = name, sense
        self._variables, self._ids = [], set()
        self.status = LpStatusNotSolved
        self._n = 0

    def __iadd__(self, other):
        name = None
        if isinstance(other, tuple):
            other, name = other
        if other is True:
            return self
        if other is False:
            raise TypeError("A False object cannot be passed as a constraint")
        if isinstance(other, LpConstraint):
            self.addConstraint(other, name)
        elif isinstance(other, LpAffineExpression):
            self.objective = other
        elif isinstance(other, LpVariable) or isinstance(other, (int, float)):
            self.objective = LpAffineExpression(other)
        else:
            raise TypeError("Can only add LpConstraintVar, LpConstraint, LpAffineExpression or True objects")
        return self

    def addConstraint(self, c, name=None):
        if len(c) == 0 and not c.valid(0):
            raise ValueError("Cannot add false constraints")
        if name:
            c.name = str(name).translate(_TRANS)
        if not c.name:
            self._n += 1
            c.name = "_C%d" % self._n
        if c.name in self.constraints:
            raise PulpError("overlapping constraint names: " + c.name)
        self.constraints[c.name] = c
        self._add(c)

    def setObjective(self, obj):
        self.objective = LpAffineExpression(obj)

    def _add(self, vs):
        for v in vs:
            if id(v) not in self._ids:
                self._ids.add(id(v))
                self._variables.append(v)

    def variables(self):
        if self.objective:
            self._add(self.objective)
        for c in self.constraints.values():
            self._add(c)
        self._variables.sort(key=lambda v: v.name)
        return self._variables

    def numVariables(self):
        return len(self.variables())

    def numConstraints(self):
        return len(self.constraints)

    def variablesDict(self):
        return {v.name: v for v in self.variables()}

    def solve(self, solver=None, **kw):
        """value of the class attribute `hook`, installed by the harness"""
        return type(self).hook(self)

    hook = None


def lpSum(vector):
    e = LpAffineExpression()
    if isinstance(vector, (LpVariable, LpAffineExpression)) or _is_num(vector) and not hasattr(vector, "__iter__"):
        vector = [vector]
    for x in vector:
        e._iadd(x, 1)
    return e


def value(x):
    return x.value() if hasattr(x, "value") else x


def PULP_CBC_CMD(*a, **k):
    return None


class _Sub:
    pass


import sys as _sys
import types as _types

for _n in ("constants", "pulp"):
    _m = _types.ModuleType("pulp." + _n)
    _m.__dict__.update({k: v for k, v in globals().items() if not k.startswith("_")})
    _sys.modules["pulp." + _n] = _m
    globals()[_n] = _m
