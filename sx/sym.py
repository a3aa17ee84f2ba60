"""Symbolic execution engine: z3-backed proxy numbers driven through the real
Python code.  The code under test is executed natively; every branch on a
symbolic condition is decided by the solver and both feasible sides are
explored (depth first, re-executing the program from its start with the
recorded decision prefix).  Assertions are solver queries over *all* values
that reach them.

No part of this file knows anything about /repo.
"""
import math as _math
import time as _time
from fractions import Fraction

import z3

INF = float("inf")


class PathEnd(BaseException):
    """The current path stops here (assumption failed, violation recorded...)."""


class PathTimeout(BaseException):
    """The current path ran past its wall-clock or decision limit."""


class Divergence(BaseException):
    """Re-execution took another way than the recorded prefix."""


class SliceOver(BaseException):
    pass


ENGINE = None  # the active engine (one per process)


def eng():
    return ENGINE


def frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    return Fraction(v)


def rv(v):
    f = frac(v)
    if f.denominator == 1:
        return z3.RealVal(f.numerator)
    return z3.RealVal(str(f.numerator) + "/" + str(f.denominator))


def model_value(m, e):
    """Exact Fraction (or int/bool) of expression e in model m."""
    v = m.eval(e, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    raise ValueError("no value for %s" % e)


class Stats:
    FIELDS = (
        "paths", "infeasible", "decisions", "queries", "checks", "checks_solver",
        "unknown", "concretised", "timeouts", "diverged", "errors",
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = self.solver_s
        return d

    def add(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])
        self.solver_s += d["solver_s"]


class Engine:
    """One engine explores one harness below one decision prefix.

    The log of a path is a list of events
      [kind, outcome, open, extra, cond, altmodel]
    kind A: fact asserted (assume, definition);  D: two-way decision;
    I: branch whose other side the solver refuted;  C: n-way choice;
    R: a real pinned to one value (loses completeness, counted).
    """

    def __init__(self, forced=(), query_ms=8000, max_decisions=4000, depth_cap=None):
        self.solver = z3.Solver()
        self.solver.set("timeout", query_ms)
        self.query_ms = query_ms
        self.max_decisions = max_decisions
        self.stats = Stats()
        self.log = []
        self.forced = list(forced)  # [(kind, outcome, extra)] of the prefix
        self.nforced = len(self.forced)
        self.depth_cap = depth_cap
        self.deferred = []
        self.next_model = None
        self.reset_path()

    # -- per path state
    def reset_path(self):
        self.pos = 0
        self.k = len(self.log)
        self.nout = 0  # non-A events passed so far on this path
        self.fresh_no = {}
        self.inputs = []
        self.draws = []
        self.model = self.next_model
        self.next_model = None
        self.ndec = 0
        self.unknown_path = False
        self.concretised_path = False
        self.abstract_path = False
        self.decided = {}
        self.serial = {}
        self.tokens = {}
        self.lemmas = {}
        self.user = {}

    # -- solver
    def _check(self, *assumptions):
        t = _time.time()
        self.stats.queries += 1
        r = self.solver.check(*assumptions)
        self.stats.solver_s += _time.time() - t
        if r == z3.sat:
            try:
                self.model = self.solver.model()
            except z3.Z3Exception:
                self.model = None
        elif r == z3.unknown:
            self.stats.unknown += 1
            self.unknown_path = True
        return r

    def _model_says(self, cond):
        if self.model is None:
            return None
        try:
            v = self.model.eval(cond, model_completion=True)
        except z3.Z3Exception:
            return None
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def _event(self, kind):
        """Next recorded event (replay of the prefix), or None when new."""
        if self.pos < self.k:
            ev = self.log[self.pos]
            if ev[0] not in kind:
                raise Divergence("%s expected, %s found" % (kind, ev[0]))
            self.pos += 1
            if ev[0] != "A":
                self.nout += 1
            return ev
        return None

    def _record(self, ev):
        self.log.append(ev)
        self.pos += 1
        self.k = self.pos
        if ev[0] != "A":
            self.nout += 1

    def _forced(self, kind):
        if self.nout < self.nforced:
            f = self.forced[self.nout]
            if f[0] not in kind:
                raise Divergence("forced %s, got %s" % (f[0], kind))
            return f
        return None

    def add(self, expr):
        """Fact that holds for the rest of this path (assume / definition)."""
        if self._event("A") is not None:
            return
        self._record(["A", None, False, None, None, None])
        self.solver.add(expr)
        if self.model is not None and self._model_says(expr) is not True:
            self.model = None

    def assume(self, cond):
        c = as_cond(cond)
        if c is True:
            return
        if c is False:
            raise PathEnd("assume")
        replaying = self.pos < self.k
        self.add(c)
        if not replaying and self.model is None and self.nout >= self.nforced:
            if self._check() == z3.unsat:
                self.stats.infeasible += 1
                raise PathEnd("infeasible")

    def branch(self, cond, extra=None):
        """Decide a symbolic condition; returns the side taken on this path."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if extra is None:
            neg = z3.is_not(cond)
            if neg:
                cond = cond.arg(0)
            key = cond.get_id()
            d = self.decided.get(key)
            if d is None:
                d = (self._branch(cond, None), cond)
                self.decided[key] = d
            return d[0] != neg
        return self._branch(cond, extra)

    def _branch(self, cond, extra):
        self.ndec += 1
        if self.ndec > self.max_decisions:
            raise PathTimeout("decision limit")
        ev = self._event("DI")
        if ev is not None:
            if ev[4] is not None and not ev[4].eq(cond):
                raise Divergence("branch")
            return ev[1]
        f = self._forced("DI")
        if f is not None:
            if f[0] == "I":
                self._record(["I", f[1], False, extra, cond, None])
                return f[1]
            self._take(cond, f[1], False, extra, None)
            return f[1]
        side = self._model_says(cond)
        if side is None:
            r = self._check(cond)
            if r == z3.unsat:
                self._record(["I", False, False, extra, cond, None])
                return False
            if r == z3.unknown:
                self.model = None
            side = True
        keep = self.model
        r = self._check(z3.Not(cond) if side else cond)
        alt = self.model if r == z3.sat else None
        self.model = keep
        if r == z3.unsat:
            self._record(["I", side, False, extra, cond, None])
            return side
        self.stats.decisions += 1
        if self.depth_cap is not None and self.nout >= self.depth_cap:
            self._defer()
        self._take(cond, side, True, extra, alt)
        return side

    def _defer(self):
        self.deferred.append(self._prefix(self.log))
        raise PathEnd("deferred")

    @staticmethod
    def _prefix(log):
        return [(e[0], e[1], e[3]) for e in log if e[0] != "A"]

    def _take(self, cond, out, is_open, extra, alt):
        self.solver.push()
        self.solver.add(cond if out else z3.Not(cond))
        self._record(["D", out, is_open, extra, cond, alt])
        if self.model is not None and self._model_says(cond) is not out:
            self.model = None

    def choose(self, n):
        """n-way nondeterministic choice; every outcome is explored."""
        if n <= 0:
            raise IndexError("Cannot choose from an empty sequence")
        if n == 1:
            return 0
        self.ndec += 1
        if self.ndec > self.max_decisions:
            raise PathTimeout("decision limit")
        ev = self._event("C")
        if ev is not None:
            return ev[1]
        f = self._forced("C")
        if f is not None:
            self.solver.push()
            self._record(["C", f[1], False, n, None, None])
            return f[1]
        self.stats.decisions += 1
        if self.depth_cap is not None and self.nout >= self.depth_cap:
            self._defer()
        self.solver.push()
        self._record(["C", 0, True, n, None, self.model])
        return 0

    def backtrack(self):
        """Move to the next unexplored side; False when the subtree is done."""
        while self.log:
            ev = self.log.pop()
            if ev[0] in "AIR":
                continue
            self.solver.pop()
            if ev[0] == "D" and ev[2]:
                out = not ev[1]
                self.solver.push()
                self.solver.add(ev[4] if out else z3.Not(ev[4]))
                self.log.append(["D", out, False, ev[3], ev[4], None])
                self.next_model = ev[5]
                return True
            if ev[0] == "C" and ev[2] and ev[1] + 1 < ev[3]:
                self.solver.push()
                self.log.append(["C", ev[1] + 1, True, ev[3], None, ev[5]])
                self.next_model = ev[5]
                return True
        return False

    def open_prefixes(self):
        """Unexplored siblings along the current log, as forced prefixes."""
        res = []
        outs = []
        for ev in self.log:
            if ev[0] == "A":
                continue
            if ev[0] == "D" and ev[2]:
                res.append(outs + [("D", not ev[1], ev[3])])
            if ev[0] == "C" and ev[2]:
                for o in range(ev[1] + 1, ev[3]):
                    res.append(outs + [("C", o, ev[3])])
            outs.append((ev[0], ev[1], ev[3]))
        return res

    # -- values
    def fresh(self, name, sort="real"):
        n = self.fresh_no.get(name, 0)
        self.fresh_no[name] = n + 1
        full = "%s!%d" % (name, n)
        if sort == "real":
            return z3.Real(full)
        if sort == "int":
            return z3.Int(full)
        return z3.Bool(full)

    def get_model(self):
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                self.stats.infeasible += 1
                raise PathEnd("infeasible")
            if r == z3.unknown:
                return None
        return self.model

    def concretise_int(self, expr):
        """Every integer value of expr, forked one by one."""
        e = z3.simplify(expr)
        if z3.is_int_value(e):
            return e.as_long()
        while True:
            if self.pos < self.k:
                v = self.log[self.pos][3]
            elif self.nout < self.nforced:
                v = self.forced[self.nout][2]
            else:
                m = self.get_model()
                if m is None:
                    raise PathEnd("unknown")
                v = model_value(m, e)
                # an implied value still has to be recorded with its value
                if self._check(e != v) == z3.unsat:
                    self._record(["I", True, False, v, z3.simplify(e == v), None])
                    return v
                if self.model is not m:
                    self.model = m
            if v is None:
                raise Divergence("concretise")
            if self.branch(e == v, extra=v):
                return v

    def concretise_real(self, expr):
        """Pins a real to one model value; completeness is lost on this path."""
        e = z3.simplify(expr)
        if z3.is_rational_value(e):
            return Fraction(e.numerator_as_long(), e.denominator_as_long())
        self.concretised_path = True
        ev = self._event("R")
        if ev is not None:
            return ev[1]
        f = self._forced("R")
        if f is not None:
            v = f[1]
        else:
            self.stats.concretised += 1
            m = self.get_model()
            if m is None:
                raise PathEnd("unknown")
            v = model_value(m, e)
        self._record(["R", v, False, None, None, None])
        self.solver.add(e == rv(v))
        self.model = None
        return v


# ---------------------------------------------------------------- proxies

def is_sym(x):
    return isinstance(x, (SymReal, SymInt, SymBool))


def as_cond(c):
    if isinstance(c, SymBool):
        s = z3.simplify(c.e)
        if z3.is_true(s):
            return True
        if z3.is_false(s):
            return False
        return s
    if is_sym(c):
        return as_cond(c != 0)
    return bool(c)


def to_bool_expr(c):
    if isinstance(c, SymBool):
        return c.e
    if is_sym(c):
        return (c != 0).e
    return z3.BoolVal(bool(c))


def _tok(obj):
    """Pickle support: proxies are stored by reference within a path."""
    tab = eng().tokens
    n = len(tab)
    tab[n] = obj
    return n


def _untok(i):
    return eng().tokens[i]


class _Num:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __hash__(self):
        return 5

    def __reduce_ex__(self, proto):
        return (_untok, (_tok(self),))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        s = str(z3.simplify(self.e)) if False else "<sym>"
        return s

    __str__ = __repr__

    def __format__(self, spec):
        return "<sym>"

    def __bool__(self):
        return bool(self != 0)

    def __pos__(self):
        return self

    # numpy scalar look-alikes
    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0


def _real(x):
    """z3 real expression of a number, None if not a number."""
    if isinstance(x, SymReal):
        return x.e
    if isinstance(x, SymInt):
        return z3.ToReal(x.e)
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, (bool, int, Fraction)):
        return rv(x)
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            return x
        return rv(x)
    if hasattr(x, "item") and hasattr(x, "dtype") and getattr(x, "shape", None) == ():
        return _real(x.item())
    return None


def _nonfinite(x):
    return isinstance(x, float)


class SymReal(_Num):
    __slots__ = ()

    def _bin(self, o, f, g):
        b = _real(o)
        if b is None:
            return NotImplemented
        if _nonfinite(b):
            return g(b)
        return SymReal(f(self.e, b))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, lambda v: v)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, lambda v: -v)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, lambda v: v)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b, lambda v: self._mulinf(v))

    __rmul__ = __mul__

    def _mulinf(self, v):
        if v != v:
            return v
        if self > 0:
            return v
        if self < 0:
            return -v
        return float("nan")

    def __truediv__(self, o):
        b = _real(o)
        if b is None:
            return NotImplemented
        if _nonfinite(b):
            return float("nan") if b != b else 0.0
        if not is_sym(o):
            if o == 0:
                raise ZeroDivisionError("float division by zero")
        elif eng().branch(b == 0):
            raise ZeroDivisionError("float division by zero")
        elif coarse():
            return SymReal(self.e * coarse_inverse(b).e)
        return SymReal(self.e / b)

    def __rtruediv__(self, o):
        b = _real(o)
        if b is None:
            return NotImplemented
        if eng().branch(self.e == 0):
            raise ZeroDivisionError("float division by zero")
        if _nonfinite(b):
            return self._mulinf(b)
        if coarse():
            return SymReal(b * coarse_inverse(self.e).e)
        return SymReal(b / self.e)

    def __floordiv__(self, o):
        q = self.__truediv__(o)
        if q is NotImplemented or not is_sym(q):
            return q
        return SymReal(z3.ToReal(z3.ToInt(q.e)))

    def __rfloordiv__(self, o):
        q = self.__rtruediv__(o)
        if q is NotImplemented or not is_sym(q):
            return q
        return SymReal(z3.ToReal(z3.ToInt(q.e)))

    def __mod__(self, o):
        q = self.__floordiv__(o)
        if q is NotImplemented:
            return q
        return self - q * o

    def __rmod__(self, o):
        b = _real(o)
        if b is None:
            return NotImplemented
        return SymReal(b) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __neg__(self):
        return SymReal(-self.e)

    def __abs__(self):
        if coarse():
            return coarse_abs(self.e)
        return SymReal(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        return sym_pow(self, o)

    def __rpow__(self, o):
        return sym_pow(o, self)

    def _cmp(self, o, f, inf):
        b = _real(o)
        if b is None:
            return NotImplemented
        if _nonfinite(b):
            return False if b != b else inf(b)
        return SymBool(f(self.e, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, lambda v: v > 0)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, lambda v: v > 0)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, lambda v: v < 0)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, lambda v: v < 0)

    def __eq__(self, o):
        b = _real(o)
        if b is None:
            return NotImplemented
        if _nonfinite(b):
            return False
        return SymBool(self.e == b)

    def __ne__(self, o):
        b = _real(o)
        if b is None:
            return NotImplemented
        if _nonfinite(b):
            return True
        return SymBool(self.e != b)

    __hash__ = _Num.__hash__

    def __float__(self):
        return float(eng().concretise_real(self.e))

    def __int__(self):
        return eng().concretise_int(self.trunc().e)

    def trunc(self):
        return SymInt(
            z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e))
        )

    def __trunc__(self):
        return self.trunc()

    def __floor__(self):
        return SymInt(z3.ToInt(self.e))

    def __ceil__(self):
        return SymInt(-z3.ToInt(-self.e))

    def __round__(self, nd=None):
        if nd:
            s = 10 ** nd
            return (self * s).__round__() / s
        # banker's rounding
        f = z3.ToInt(self.e)
        d = self.e - z3.ToReal(f)
        half = z3.RealVal("1/2")
        r = z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(f % 2 == 0, f, f + 1)))
        return SymReal(z3.ToReal(r)) if nd is not None else SymInt(r)

    def is_integer(self):
        return SymBool(z3.IsInt(self.e))

    # numpy object ufuncs call these methods
    def sqrt(self):
        return sym_sqrt(self)

    def exp(self):
        return sym_fun("exp", self)

    def fabs(self):
        return abs(self)


def _int(x):
    if isinstance(x, SymInt):
        return x.e
    if isinstance(x, SymBool):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, int)):
        return z3.IntVal(int(x))
    if hasattr(x, "dtype") and getattr(x, "shape", None) == () and not isinstance(x.item(), float):
        return _int(x.item())
    return None


class SymInt(_Num):
    __slots__ = ()

    def _bin(self, o, f, name):
        b = _int(o)
        if b is not None:
            return SymInt(f(self.e, b))
        r = SymReal(z3.ToReal(self.e))
        return getattr(r, name)(o)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b, "__add__")

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b, "__sub__")

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a, "__rsub__")

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return self._bin(o, lambda a, b: a * b, "__mul__")

    __rmul__ = __mul__

    def _r(self):
        return SymReal(z3.ToReal(self.e))

    def __truediv__(self, o):
        return self._r() / o

    def __rtruediv__(self, o):
        return o / self._r()

    @staticmethod
    def _fdiv(a, b, bsym):
        # python floor division from z3's Euclidean division
        if not bsym:
            return None
        return z3.If(b > 0, a / b, (-a) / (-b))

    def __floordiv__(self, o):
        b = _int(o)
        if b is None:
            return self._r() // o
        if is_sym(o):
            if eng().branch(b == 0):
                raise ZeroDivisionError("integer division or modulo by zero")
        elif o == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return SymInt(z3.If(b > 0, self.e / b, (-self.e) / (-b)))

    def __rfloordiv__(self, o):
        b = _int(o)
        if b is None:
            return o // self._r()
        return SymInt(b) // self

    def __mod__(self, o):
        if _int(o) is None:
            return self._r() % o
        return self - (self // o) * o

    def __rmod__(self, o):
        b = _int(o)
        if b is None:
            return NotImplemented
        return SymInt(b) % self

    def __divmod__(self, o):
        q = self // o
        return q, self - q * o

    def __neg__(self):
        return SymInt(-self.e)

    def __abs__(self):
        return SymInt(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, o):
        if isinstance(o, int) and not isinstance(o, bool) and 0 <= o <= 16:
            r = z3.IntVal(1)
            for _ in range(o):
                r = r * self.e
            return SymInt(r)
        return sym_pow(self._r(), o)

    def __rpow__(self, o):
        if isinstance(o, int):
            return o ** self.__index__()
        return sym_pow(o, self._r())

    def _cmp(self, o, f, name):
        b = _int(o)
        if b is not None:
            return SymBool(f(self.e, b))
        return getattr(self._r(), name)(o)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b, "__lt__")

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b, "__le__")

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b, "__gt__")

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b, "__ge__")

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b, "__eq__")

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b, "__ne__")

    __hash__ = _Num.__hash__

    def __index__(self):
        return eng().concretise_int(self.e)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __round__(self, nd=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __str__(self):
        return str(self.__index__())

    def __format__(self, spec):
        return format(self.__index__(), spec)

    def is_integer(self):
        return True

    def sqrt(self):
        return sym_sqrt(self._r())


class SymBool(_Num):
    __slots__ = ()

    def __bool__(self):
        return eng().branch(self.e)

    def _i(self):
        return SymInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __add__(self, o):
        return self._i() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._i() - o

    def __rsub__(self, o):
        return o - self._i()

    def __mul__(self, o):
        return self._i() * o

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._i() / o

    def __neg__(self):
        return -self._i()

    def __index__(self):
        return 1 if self else 0

    __int__ = __index__

    def __lt__(self, o):
        return self._i() < o

    def __le__(self, o):
        return self._i() <= o

    def __gt__(self, o):
        return self._i() > o

    def __ge__(self, o):
        return self._i() >= o

    def __and__(self, o):
        return SymBool(z3.And(self.e, to_bool_expr(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SymBool(z3.Or(self.e, to_bool_expr(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return SymBool(z3.Xor(self.e, to_bool_expr(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return SymBool(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.e == to_bool_expr(o))
        return self._i() == o

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)):
            return SymBool(self.e != to_bool_expr(o))
        return self._i() != o

    __hash__ = _Num.__hash__


# ------------------------------------------------ non-polynomial functions

def _key(e):
    return z3.simplify(e).get_id()


def _numerals(e):
    seen, todo, res = set(), [e], []
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_rational_value(x):
            res.append(x)
        else:
            todo.extend(x.children())
    return res


def canonical(e):
    """Sum of monomials with coefficients rounded to ten significant digits: formulas that differ in
    rounding errors of their constants only become the same term."""
    for again in range(2):
        e = z3.simplify(e, som=True, arith_lhs=False)
        subst = []
        for v in _numerals(e):
            d = v.denominator_as_long()
            if d == 1:
                continue
            f = Fraction(v.numerator_as_long(), d)
            r = Fraction("%.10g" % float(f)) if abs(f) > 1e-10 else Fraction(0)
            if r != f:
                subst.append((v, rv(r)))
        if not subst:
            break
        e = z3.substitute(e, *subst)
    return z3.simplify(e, som=True)


def polynomial(e, eps):
    """e, a sum of monomials, with sin(t)^2 written as 1 - cos(t)^2 and coefficients below eps dropped"""
    todo = []
    for t in e.children() if z3.is_add(e) else [e]:
        c, atoms = Fraction(1), {}
        stack = [t]
        while stack:
            x = stack.pop()
            if z3.is_mul(x):
                stack.extend(x.children())
            elif z3.is_rational_value(x):
                c *= x.as_fraction()
            elif x.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(x.arg(1)) \
                    and x.arg(1).denominator_as_long() == 1 and x.arg(1).numerator_as_long() > 0:
                a = x.arg(0)
                atoms[a.get_id()] = (a, atoms.get(a.get_id(), (a, 0))[1] + x.arg(1).numerator_as_long())
            else:
                atoms[x.get_id()] = (x, atoms.get(x.get_id(), (x, 0))[1] + 1)
        todo.append((c, atoms))
    res = {}
    while todo:
        c, atoms = todo.pop()
        for i, (a, n) in atoms.items():
            if n >= 2 and z3.is_app(a) and a.num_args() == 1 and a.decl().name() == "sin":
                less = dict(atoms)
                if n == 2:
                    del less[i]
                else:
                    less[i] = (a, n - 2)
                todo.append((c, less))
                co = z3.Function("cos", z3.RealSort(), z3.RealSort())(a.arg(0))
                more = dict(less)
                more[co.get_id()] = (co, less.get(co.get_id(), (co, 0))[1] + 2)
                todo.append((-c, more))
                break
        else:
            k = tuple(sorted((i, n) for i, (a, n) in atoms.items()))
            res[k] = (res.get(k, (0, None))[0] + c, atoms)
    sums = []
    for c, atoms in res.values():
        if abs(c) >= eps:
            m = rv(c)
            for a, n in atoms.values():
                for again in range(n):
                    m = m * a
            sums.append(m)
    return z3.Sum(sums) if sums else z3.RealVal(0)


def coarse():
    g = ENGINE
    return g is not None and g.user.get("coarse")


def _atom(kind, xe, make):
    """a fresh variable standing for a function of the canonical term xe"""
    g = eng()
    k = (kind, xe.get_id())
    if k not in g.lemmas:
        v = g.fresh(kind)
        g.lemmas[k] = (SymReal(v), xe)
        g.abstract_path = True
        g.add(make(v))
    return g.lemmas[k][0]


def coarse_abs(e):
    xe = canonical(e)
    if z3.is_rational_value(xe):
        return SymReal(z3.simplify(z3.If(xe >= 0, xe, -xe)))
    ne = canonical(-xe)
    if str(ne) < str(xe):
        xe, ne = ne, xe
    return _atom("abs", xe, lambda v: z3.And(v >= 0, z3.Or(v == xe, v == -xe)))


def coarse_inverse(e):
    xe = canonical(e)
    return _atom("inv", xe, lambda v: v * xe == 1)


def linear_square(xe):
    """the linear term whose square xe is, if there is one"""
    p = z3.simplify(xe, som=True)
    terms = p.children() if z3.is_add(p) else [p]
    if len(terms) > 15:
        return None
    Q, names = {}, {0: None}
    for t in terms:
        c, atoms, stack = Fraction(1), [], [t]
        while stack:
            x = stack.pop()
            if z3.is_mul(x):
                stack.extend(x.children())
            elif z3.is_rational_value(x):
                c *= x.as_fraction()
            elif x.decl().kind() == z3.Z3_OP_POWER and z3.is_rational_value(x.arg(1)) and x.arg(1).eq(z3.RealVal(2)):
                atoms += [x.arg(0)] * 2
            else:
                atoms.append(x)
        if len(atoms) > 2:
            return None
        for a in atoms:
            names[a.get_id()] = a
        i, j = sorted([a.get_id() for a in atoms] + [0] * (2 - len(atoms)))
        Q[(i, j)] = Q.get((i, j), 0) + (c if i == j else c / 2)
        Q[(j, i)] = Q[(i, j)]
    for i in sorted(names, reverse=True):
        f = Q.get((i, i), 0)
        if f > 0:
            a, b = _math.isqrt(f.numerator), _math.isqrt(f.denominator)
            lead = Fraction(a, b)
            if lead * lead != f:
                if not coarse():
                    return None
                lead = frac(_math.sqrt(float(f)))
            co = {j: Q.get((i, j), Fraction(0)) / lead for j in names}
            near = Fraction(1, 10 ** 8) if coarse() else 0
            if any(abs(co[j] * co[k] - Q.get((j, k), 0)) > near for j in names for k in names):
                return None
            return z3.simplify(z3.Sum([rv(v) if names[j] is None else rv(v) * names[j] for j, v in co.items() if v]))
    return None


def sym_sqrt(x):
    if not is_sym(x):
        return _math.sqrt(x)
    e = eng()
    xe = canonical(_real(x)) if coarse() else z3.simplify(_real(x))
    if z3.is_rational_value(xe):
        f = Fraction(xe.numerator_as_long(), xe.denominator_as_long())
        a, b = _math.isqrt(max(f.numerator, 0)), _math.isqrt(f.denominator)
        if f >= 0 and a * a == f.numerator and b * b == f.denominator:
            return SymReal(rv(Fraction(a, b)))
    if coarse():
        lin = linear_square(xe)
        if lin is not None:
            return abs(SymReal(lin))
    # coarse terms carry rounding errors
    if e.branch(xe < (rv(Fraction(-1, 10 ** 7)) if coarse() else 0)):
        raise ValueError("math domain error")
    if xe.decl().kind() == z3.Z3_OP_POWER and xe.arg(1).eq(z3.RealVal(2)):
        return abs(SymReal(xe.arg(0)))
    if xe.decl().kind() == z3.Z3_OP_MUL and xe.num_args() == 2 and xe.arg(0).eq(xe.arg(1)):
        return abs(SymReal(xe.arg(0)))
    k = ("sqrtp", xe.get_id())
    if k not in e.lemmas:
        lin = linear_square(xe)
        e.lemmas[k] = (SymSqrt(xe) if lin is None else abs(SymReal(lin)), xe)
    return e.lemmas[k][0]


class SymSqrt(SymReal):
    """A square root; compared through its square, defined only when used otherwise."""

    __slots__ = ("sq", "_e")

    def __init__(self, xe):
        self.sq = xe
        self._e = None

    @property
    def e(self):
        if self._e is None:
            g = eng()
            xe = self.sq
            s = g.fresh("sqrt")
            if g.user.get("relax"):
                # sound linear facts only; counterexamples still have to replay
                g.concretised_path = True
                facts = [s >= 0, (s == 0) == (xe <= 0)]
                facts += [s <= (xe + t * t) / (2 * t) for t in (z3.RealVal("1/2"), 1, 4)]
            else:
                facts = [s >= 0, s * s == xe]
            for (n, _), (r0, x0) in list(g.lemmas.items())[-12:]:
                # monotonicity, redundant but cheap for the solver
                if n == "sqrtp" and isinstance(r0, SymSqrt) and r0._e is not None:
                    facts.append((s < r0._e) == (xe < x0))
                    facts.append((s == r0._e) == (xe == x0))
            g.add(z3.And(*facts))
            self._e = s
        return self._e

    def _cmp(self, o, f, inf):
        if isinstance(o, SymSqrt):
            return SymBool(f(self.sq, o.sq))
        if isinstance(o, (int, float)) and not isinstance(o, bool) and 0 <= o < INF:
            return SymBool(f(self.sq, rv(frac(o) * frac(o))))
        return SymReal._cmp(self, o, f, inf)

    def __eq__(self, o):
        if isinstance(o, SymSqrt):
            return SymBool(self.sq == o.sq)
        return SymReal.__eq__(self, o)

    def __ne__(self, o):
        if isinstance(o, SymSqrt):
            return SymBool(self.sq != o.sq)
        return SymReal.__ne__(self, o)

    def __mul__(self, o):
        if o is self:
            return SymReal(self.sq)
        return SymReal.__mul__(self, o)

    def __pow__(self, o):
        if o == 2 and not is_sym(o):
            return SymReal(self.sq)
        return SymReal.__pow__(self, o)

    __hash__ = _Num.__hash__


def sym_root(x, n):
    """n-th root of a non-negative symbolic real."""
    e = eng()
    xe = canonical(_real(x)) if coarse() else z3.simplify(_real(x))
    k = ("root%d" % n, xe.get_id())
    if k in e.lemmas:
        return e.lemmas[k][0]
    s = e.fresh("root")
    p = s
    for _ in range(n - 1):
        p = p * s
    e.add(z3.And(s >= 0, p == xe))
    r = SymReal(s)
    e.lemmas[k] = (r, xe)
    return r


def sym_pow(x, y):
    if not is_sym(y):
        fy = Fraction(y)
        if fy.denominator == 1 and abs(fy) <= 8:
            n = int(fy)
            if n == 0:
                return 1.0
            r = x
            for _ in range(abs(n) - 1):
                r = r * x
            if n == 2 and coarse():
                eng().add(z3.simplify(r.e, som=True) >= 0)
            if n < 0:
                return 1.0 / r
            return r
        for d in range(2, 7):
            if abs(float(fy) - 1.0 / d) < 1e-15:
                if bool(x < 0):
                    raise ValueError("math domain error")
                return sym_root(x, d)
    # general power: uninterpreted, with sound facts for non-negative bases
    e = eng()
    xs = x if is_sym(x) else SymReal(rv(x))
    if bool(xs < 0):
        e.concretised_path = True
        raise ValueError("math domain error")
    ye = _real(y)
    xe = _real(xs)
    if coarse():
        xe, ye = canonical(xe), canonical(ye)
    e.abstract_path = True
    F = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())
    r = F(xe, ye)
    e.add(
        z3.And(
            r >= 0,
            z3.Implies(xe == 1, r == 1),
            z3.Implies(ye == 0, r == 1),
            z3.Implies(ye == 1, r == xe),
            z3.Implies(xe > 0, r > 0),
            z3.Implies(z3.And(xe == 0, ye > 0), r == 0),
            z3.Implies(z3.And(xe <= 1, ye >= 0), r <= 1),
            z3.Implies(z3.And(xe >= 1, ye >= 0), r >= 1),
            z3.Implies(z3.And(xe >= 1, ye <= 0), r <= 1),
            z3.Implies(z3.And(xe <= 1, ye >= 1), r <= xe),
            z3.Implies(z3.And(xe <= 1, ye >= 0, ye <= 1), r >= xe),
        )
    )
    return SymReal(r)


def sym_fun(name, x):
    """sin/cos/exp/log... as uninterpreted functions with true facts."""
    e = eng()
    xe = canonical(_real(x)) if coarse() else z3.simplify(_real(x))
    if coarse() and z3.is_rational_value(xe):
        return SymReal(rv(frac(getattr(_math, name)(float(xe.as_fraction())))))
    e.abstract_path = True
    F = z3.Function(name, z3.RealSort(), z3.RealSort())
    r = F(xe)
    k = (name, xe.get_id())
    if k in e.lemmas:
        return e.lemmas[k][0]
    res = SymReal(r)
    facts = []
    if name in ("sin", "cos"):
        facts += [r >= -1, r <= 1]
        other = ("cos" if name == "sin" else "sin", xe.get_id())
        if other in e.lemmas:
            o = e.lemmas[other][0].e
            facts.append(r * r + o * o == 1)
    elif name == "exp":
        facts += [r > 0, r >= 1 + xe, z3.Implies(xe == 0, r == 1)]
        for (n, _), (rr, xx) in list(e.lemmas.items()):
            if n == "exp" and not coarse():
                facts.append(z3.And((xe < xx) == (r < rr.e), (xe == xx) == (r == rr.e)))
    elif name == "log":
        if e.branch(xe <= 0):
            raise ValueError("math domain error")
        facts += [(xe > 1) == (r > 0), (xe == 1) == (r == 0), r <= xe - 1]
        for (n, _), (rr, xx) in list(e.lemmas.items()):
            if n == "log" and not coarse():
                facts.append(z3.And((xe < xx) == (r < rr.e), (xe == xx) == (r == rr.e)))
    if facts:
        e.add(z3.And(*facts))
    e.lemmas[k] = (res, xe)
    return res


def ite(c, a, b):
    """Merge two numbers without forking."""
    if not is_sym(c):
        return a if c else b
    if not is_sym(a) and not is_sym(b) and a is b:
        return a
    ia, ib = _int(a), _int(b)
    if ia is not None and ib is not None:
        return SymInt(z3.If(c.e, ia, ib))
    ra, rb = _real(a), _real(b)
    if ra is None or rb is None or _nonfinite(ra) or _nonfinite(rb):
        return a if bool(c) else b
    return SymReal(z3.If(c.e, ra, rb))
