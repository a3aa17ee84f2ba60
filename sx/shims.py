"""Environment for executing /repo's modules symbolically: math / random / time /
numpy proxies placed in sys.modules before the repository is imported, and
number builtins shadowed in the repository's module globals afterwards.

Each proxy falls through to the real module for concrete arguments.
"""
import builtins
import importlib
import math as rmath
import random as rrandom
import sys
import time as rtime
import types
from fractions import Fraction

import z3

from . import sym
from .sym import (SymReal, SymInt, SymBool, is_sym, eng, ite, sym_sqrt, sym_pow,
                  sym_fun, rv, _real)

any_sym = lambda *a: any(is_sym(x) for x in a)


# ------------------------------------------------------------------ builtins

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, SymReal))

    def __subclasscheck__(cls, c):
        return issubclass(c, (float, SymReal))


class s_float(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, SymReal):
            return x
        if is_sym(x):
            return SymReal(_real(x))
        return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (int, SymInt))

    def __subclasscheck__(cls, c):
        return issubclass(c, (int, SymInt))


class s_int(int, metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymReal):
            return x.trunc()
        if isinstance(x, SymBool):
            return x._i()
        return int(x, *a)


def s_abs(x):
    return abs(x)


def s_round(x, nd=None):
    if is_sym(x):
        return x.__round__(nd)
    return round(x, nd) if nd is not None else round(x)


def s_pow(x, y, *m):
    if any_sym(x, y):
        return sym_pow(x, y)
    return pow(x, y, *m)


_nokey = object()


def _minmax(pick, native):
    def f(*args, key=None, default=_nokey):
        if len(args) == 1:
            items = list(args[0])
        else:
            items = list(args)
        if not items:
            if default is not _nokey:
                return default
            return native(items)
        if key is None and any(is_sym(x) for x in items) and all(
            is_sym(x) or isinstance(x, (int, float)) for x in items
        ):
            r = items[0]
            for x in items[1:]:
                if sym.coarse():
                    d = abs(SymReal(_real(x)) - r)
                    r = (r + x + (d if native is max else -d)) / 2
                else:
                    r = ite(pick(x, r), x, r)
            return r
        return native(items, key=key)

    return f


s_min = _minmax(lambda x, r: x < r, min)
s_max = _minmax(lambda x, r: x > r, max)


def s_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=key, reverse=reverse)


BUILTINS = {
    "float": s_float, "int": s_int, "round": s_round, "pow": s_pow,
    "min": s_min, "max": s_max,
}


# ---------------------------------------------------------------------- math

class FallThrough(types.ModuleType):
    def __init__(self, real):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real

    def __getattr__(self, n):
        return getattr(self.__dict__["_real"], n)


def make_math():
    m = FallThrough(rmath)
    d = m.__dict__

    def wrap(name, symf):
        nat = getattr(rmath, name)

        def f(*a):
            if any_sym(*a):
                return symf(*a)
            return nat(*a)

        f.__name__ = name
        d[name] = f

    wrap("sqrt", lambda x: sym_sqrt(x))
    wrap("fabs", lambda x: abs(SymReal(_real(x))))
    def mpow(x, y):
        return sym_pow(x, y)
    wrap("pow", mpow)
    for n in ("sin", "cos", "exp", "log"):
        wrap(n, lambda x, *a, _n=n: sym_fun(_n, x))
    wrap("floor", lambda x: x.__floor__())
    wrap("ceil", lambda x: x.__ceil__())
    wrap("trunc", lambda x: x.__trunc__())
    wrap("isnan", lambda x: False)
    wrap("isinf", lambda x: False)
    wrap("isfinite", lambda x: True)
    # copysign: the sign of a symbolic zero is taken to be positive
    def copysign(x, y):
        a = abs(SymReal(_real(x)))
        return ite(SymReal(_real(y)) >= 0, a, -a)
    wrap("copysign", copysign)

    def fmod(x, y):
        q = SymReal(_real(x)) / y
        return x - y * q.trunc()
    wrap("fmod", fmod)
    d["hypot"] = lambda *a: sym_sqrt(sum(x * x for x in a)) if any_sym(*a) else rmath.hypot(*a)
    d["dist"] = lambda p, q: sym_sqrt(sum((x - y) ** 2 for x, y in zip(p, q)))
    def fsum(it):
        it = list(it)
        return sum(it) if any_sym(*it) else rmath.fsum(it)
    d["fsum"] = fsum
    def isclose(a, b, rel_tol=1e-9, abs_tol=0.0):
        if not any_sym(a, b):
            return rmath.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
        t = s_max(rel_tol * s_max(abs(a), abs(b)), abs_tol)
        return abs(a - b) <= t
    d["isclose"] = isclose
    def prod(it, start=1):
        r = start
        for x in it:
            r = r * x
        return r
    d["prod"] = prod
    return m


# -------------------------------------------------------------------- random

class SymRandom:
    """random.* as nondeterminism; every draw is recorded for replay."""

    def __init__(self):
        self.policy = {}

    def _rec(self, kind, payload):
        eng().draws.append((kind, payload))

    def random(self):
        e = eng()
        fixed = self.policy.get("random")
        if fixed is not None:
            v = fixed() if callable(fixed) else fixed
            self._rec("random", v)
            return v
        r = e.fresh("rnd")
        e.add(z3.And(r >= 0, r < 1))
        v = SymReal(r)
        self._rec("random", v)
        return v

    def _unit(self):
        e = eng()
        r = e.fresh("unit")
        e.add(z3.And(r >= 0, r <= 1))
        return SymReal(r)

    def uniform(self, a, b):
        u = self.policy.get("unit")
        u = self._unit() if u is None else u() if callable(u) else u
        v = a + (b - a) * u
        self._rec("value", v)
        return v

    def triangular(self, low=0.0, high=1.0, mode=None):
        v = low + (high - low) * self._unit()
        self._rec("value", v)
        return v

    def betavariate(self, a, b):
        v = self._unit()
        self._rec("value", v)
        return v

    def gauss(self, mu=0.0, sigma=1.0):
        e = eng()
        pol = self.policy.get("gauss")
        if pol is not None:
            v = mu + sigma * (pol() if callable(pol) else pol)
            self._rec("value", v)
            return v
        z = e.fresh("gauss")
        e.add(z3.And(z >= -6, z <= 6))
        if not is_sym(sigma) and sigma == 0:
            v = mu
        else:
            v = mu + sigma * SymReal(z)
        self._rec("value", v)
        return v

    normalvariate = gauss

    def expovariate(self, lambd=1.0):
        e = eng()
        z = e.fresh("expov")
        e.add(z >= 0)
        v = SymReal(z) / lambd
        self._rec("value", v)
        return v

    def _pick(self, n):
        pol = self.policy.get("index")
        if pol == "first":
            return 0
        if callable(pol):
            return pol(n)
        return eng().choose(n)

    def choice(self, seq):
        n = len(seq)
        if n == 0:
            raise IndexError("Cannot choose from an empty sequence")
        i = self._pick(n)
        self._rec("index", i)
        return seq[i]

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        res = []
        idx = []
        for _ in range(k):
            i = self._pick(len(population))
            idx.append(i)
            res.append(population[i])
        self._rec("indices", idx)
        return res

    def randrange(self, start, stop=None, step=1):
        r = range(start) if stop is None else range(start, stop, step)
        if len(r) == 0:
            raise ValueError("empty range for randrange()")
        i = self._pick(len(r))
        self._rec("int", r[i])
        return r[i]

    def randint(self, a, b):
        return self.randrange(a, b + 1)

    def sample(self, population, k, **kw):
        if isinstance(population, (set, frozenset)):
            raise TypeError("Population must be a sequence.  For dicts or sets, use sorted(d).")
        n = len(population)
        k = int(k)
        if not 0 <= k <= n:
            raise ValueError("Sample larger than population or is negative")
        left = list(range(n))
        idx = []
        for _ in range(k):
            i = self._pick(len(left))
            idx.append(left.pop(i))
        self._rec("indices", idx)
        return [population[i] for i in idx]

    def shuffle(self, x, *a):
        n = len(x)
        left = list(range(n))
        idx = []
        pol = self.policy.get("shuffle")
        for _ in range(n):
            i = 0 if pol == "id" else self._pick(len(left))
            idx.append(left.pop(i))
        self._rec("indices", idx)
        x[:] = [x[i] for i in idx]

    def getrandbits(self, k):
        v = self._pick(min(1 << k, 4))
        self._rec("int", v)
        return v

    def seed(self, *a, **k):
        return None


RANDOM = SymRandom()
RANDOM_NAMES = [
    "random", "uniform", "triangular", "betavariate", "gauss", "normalvariate",
    "expovariate", "choice", "choices", "randrange", "randint", "sample", "shuffle",
    "getrandbits", "seed",
]


def active():
    return eng() is not None


def make_random():
    m = FallThrough(rrandom)
    for n in RANDOM_NAMES:
        def f(*a, _n=n, **k):
            if eng() is None:
                return getattr(rrandom, _n)(*a, **k)
            return getattr(RANDOM, _n)(*a, **k)
        f.__name__ = n
        m.__dict__[n] = f
    return m


# ---------------------------------------------------------------------- time

class Clock:
    source = None  # callable giving the next instant, set by a harness


def make_time():
    m = FallThrough(rtime)

    def mk(name):
        nat = getattr(rtime, name)

        def f():
            if Clock.source is not None:
                return Clock.source()
            return nat()
        f.__name__ = name
        return f
    for n in ("time", "monotonic", "perf_counter", "process_time"):
        m.__dict__[n] = mk(n)

    def sleep(x):
        if Clock.source is None and eng() is None:
            rtime.sleep(x)
    m.__dict__["sleep"] = sleep
    return m


# --------------------------------------------------------------------- numpy

def make_numpy():
    import numpy as np
    import numpy.linalg as la

    m = FallThrough(np)
    d = m.__dict__

    def deep_sym(x, depth=0):
        if is_sym(x):
            return True
        if isinstance(x, np.ndarray):
            return x.dtype == object and any(is_sym(y) for y in x.ravel())
        if depth < 4 and isinstance(x, (list, tuple)):
            return any(deep_sym(y, depth + 1) for y in x)
        return False

    def unwrap(r):
        return r

    def s_sqrt(x, *a, **k):
        if is_sym(x):
            return sym_sqrt(x)
        if deep_sym(x):
            x = np.asarray(x, dtype=object)
            return np.array([sym_sqrt(y) for y in x.ravel()], dtype=object).reshape(x.shape)
        return np.sqrt(x, *a, **k)

    d["sqrt"] = s_sqrt

    def s_mean(a, axis=None, *r, **k):
        if deep_sym(a):
            arr = np.asarray(a, dtype=object)
            s = arr.sum(axis=axis)
            n = arr.size if axis is None else arr.shape[axis]
            return s / n
        return np.mean(a, axis, *r, **k)

    d["mean"] = s_mean

    def s_average(a, axis=None, weights=None, **k):
        if deep_sym(a) and weights is None:
            return s_mean(a, axis)
        return np.average(a, axis=axis, weights=weights, **k)

    d["average"] = s_average

    def s_minmax(pick, nat):
        def f(a, axis=None, *r, **k):
            if deep_sym(a):
                arr = np.asarray(a, dtype=object)
                if axis is None:
                    return pick(list(arr.ravel()))
                return np.apply_along_axis(lambda v: pick(list(v)), axis, arr)
            return nat(a, axis, *r, **k)
        return f

    d["min"] = d["amin"] = s_minmax(s_min, np.min)
    d["max"] = d["amax"] = s_minmax(s_max, np.max)

    def elt(symf, nat):
        def f(x, *a, **k):
            if is_sym(x):
                return symf(x)
            if deep_sym(x):
                x = np.asarray(x, dtype=object)
                return np.array([symf(y) if is_sym(y) else nat(y) for y in x.ravel()],
                                dtype=object).reshape(x.shape)
            return nat(x, *a, **k)
        return f

    for n in ("sin", "cos", "exp", "log"):
        d[n] = elt(lambda y, _n=n: sym_fun(_n, y), getattr(np, n))
    d["abs"] = d["absolute"] = d["fabs"] = elt(abs, np.abs)
    d["float64"] = np.float64
    d["math"] = make_math()         # older numpy, as the repository's own interpreter has it
    d["float"], d["int"], d["bool"] = float, int, bool

    def s_array(x, dtype=None, *a, **k):
        if deep_sym(x):
            return np.array(x, dtype=object)
        return np.array(x, dtype, *a, **k)

    d["array"] = s_array
    d["asarray"] = s_array

    def s_var(a, axis=None, ddof=0, **k):
        if deep_sym(a):
            mu = s_mean(a, axis)
            arr = np.asarray(a, dtype=object)
            dd = (arr - mu) ** 2
            n = arr.size if axis is None else arr.shape[axis]
            return dd.sum(axis=axis) / (n - ddof)
        return np.var(a, axis=axis, ddof=ddof, **k)

    d["var"] = s_var
    d["std"] = lambda a, axis=None, ddof=0, **k: (
        s_sqrt(s_var(a, axis, ddof)) if deep_sym(a) else np.std(a, axis=axis, ddof=ddof, **k))

    def s_sum(a, axis=None, *r, **k):
        if deep_sym(a):
            return np.asarray(a, dtype=object).sum(axis=axis)
        return np.sum(a, axis, *r, **k)

    d["sum"] = s_sum

    def s_quantile(a, q, axis=None, *r, _nat=np.quantile, _unit=1.0, **k):
        if deep_sym(a) and axis is None and not r and not k:
            xs = s_sorted(list(np.asarray(a, dtype=object).ravel()))

            def one(q):
                pos = q / _unit * (len(xs) - 1)
                lo = int(pos)
                hi = min(lo + 1, len(xs) - 1)
                return xs[lo] + (xs[hi] - xs[lo]) * (pos - lo)
            if isinstance(q, (list, tuple, np.ndarray)):
                return np.array([one(v) for v in q], dtype=object)
            return one(q)
        return _nat(a, q, axis, *r, **k)

    d["quantile"] = s_quantile
    d["percentile"] = lambda a, q, *r, **k: s_quantile(a, q, *r, _nat=np.percentile, _unit=100.0, **k)
    d["median"] = lambda a, *r, **k: s_quantile(a, 0.5) if deep_sym(a) and not r and not k else np.median(a, *r, **k)

    def s_sort(a, axis=-1, *r, **k):
        if deep_sym(a) and np.ndim(a) == 1:
            return np.array(s_sorted(list(a)), dtype=object)
        return np.sort(a, axis, *r, **k)

    d["sort"] = s_sort

    def s_isnan(x, *a, **k):
        if deep_sym(x):
            return np.zeros(np.shape(x), dtype=bool) if not is_sym(x) else False
        return np.isnan(x, *a, **k)

    d["isnan"] = s_isnan

    ml = FallThrough(la)

    def s_norm(x, ord=None, axis=None, keepdims=False):
        if deep_sym(x):
            arr = np.asarray(x, dtype=object)
            if axis is None and ord in (None, 2):
                return s_sqrt(sum((y * y for y in arr.ravel()), 0.0))
        return la.norm(x, ord, axis, keepdims)

    ml.__dict__["norm"] = s_norm
    d["linalg"] = ml
    d["random"] = np.random
    return m, ml


# ------------------------------------------------------------- installation

STATE = {}


def deterministic_hash(self):
    e = eng()
    if e is None:
        return object.__hash__(self)
    s = e.serial
    k = id(self)
    if k not in s:
        s[k] = (len(s) + 11, self)
    return s[k][0]


REPO_TOP = ("algorithms", "evotools", "metrics", "simulation", "statistic", "plots",
            "problems", "evogil", "dir_walker", "example")


def is_repo_module(name):
    return name.split(".")[0] in REPO_TOP


def shadow(mod):
    d = mod.__dict__
    if d.get("__vshadow__"):
        return
    d["__vshadow__"] = True
    for n, f in BUILTINS.items():
        if n not in d:
            d[n] = f
    for v in list(d.values()):
        if isinstance(v, type) and v.__module__ == mod.__name__:
            _patch_class(v)


def _patch_class(c):
    if c.__hash__ is object.__hash__ and c.__eq__ is object.__eq__:
        try:
            c.__hash__ = deterministic_hash
        except TypeError:
            pass
    for v in list(vars(c).values()):
        if isinstance(v, type) and v.__module__ == c.__module__:
            _patch_class(v)


class ShadowFinder:
    """Post-import hook: shadows number builtins in every repo module."""

    def find_spec(self, name, path=None, target=None):
        if not is_repo_module(name):
            return None
        import importlib.machinery as im

        spec = im.PathFinder.find_spec(name, path, target)
        if spec is None or spec.loader is None:
            return spec
        orig = spec.loader.exec_module

        def exec_module(module):
            orig(module)
            shadow(module)

        spec.loader.exec_module = exec_module
        return spec


def stub_matplotlib():
    class Any(types.ModuleType):
        def __getattr__(self, n):
            if n.startswith("__"):
                raise AttributeError(n)
            return Any(n)

        def __call__(self, *a, **k):
            return Any("r")

        def __iter__(self):
            return iter(())

        def __mro_entries__(self, bases):
            return ()

        def __getitem__(self, i):
            return Any("i")

        def __setitem__(self, i, v):
            pass

    for n in ("matplotlib", "matplotlib.pyplot", "matplotlib.colors", "matplotlib.cm",
              "matplotlib.ticker", "matplotlib.patches", "mpl_toolkits",
              "mpl_toolkits.mplot3d", "pylab"):
        sys.modules.setdefault(n, Any(n))
    sys.modules["matplotlib"].pyplot = sys.modules["matplotlib.pyplot"]


def install(src, venv_site):
    """Prepare this CPython process for importing the repository symbolically."""
    if STATE:
        return
    import collections
    import collections.abc

    if not hasattr(collections, "MutableMapping"):
        collections.MutableMapping = collections.abc.MutableMapping
    sys.dont_write_bytecode = True
    import numpy  # noqa
    import numpy.linalg  # noqa
    try:
        import scipy.spatial  # noqa
    except Exception:
        pass
    import tempfile, logging, pickle, copy, threading, uuid, json, itertools  # noqa
    sys.path.append(venv_site)
    # third-party packages the repository uses, with their own real modules
    import rx, rx.operators, rx.scheduler  # noqa
    for n in ("thespian.actors", "floatextras", "docopt"):
        importlib.import_module(n)
    stub_matplotlib()
    sys.path.insert(0, src)
    npx, lax = make_numpy()
    STATE["real"] = {n: sys.modules.get(n) for n in ("math", "random", "time", "numpy", "numpy.linalg")}
    sys.modules["math"] = make_math()
    sys.modules["random"] = make_random()
    sys.modules["time"] = make_time()
    sys.modules["numpy"] = npx
    sys.modules["numpy.linalg"] = lax
    import contextlib

    # threads: rx schedulers that start threads run in the calling thread
    import rx.scheduler as rs

    class Inline(rs.CurrentThreadScheduler):
        pass

    for n in ("NewThreadScheduler", "ThreadPoolScheduler"):
        setattr(rs, n, lambda *a, **k: rs.ImmediateScheduler())
    # point-to-point distances of scipy on proxies
    try:
        from scipy.spatial import distance as sd
        nat = sd.euclidean

        def euclidean(u, v, w=None):
            if any_sym(*u) or any_sym(*v):
                return sym_sqrt(sum((a - b) * (a - b) for a, b in zip(u, v)))
            return nat(u, v, w)
        sd.euclidean = euclidean
    except Exception:
        pass
    sys.meta_path.insert(0, ShadowFinder())
    import logging as lg

    lg.disable(lg.CRITICAL)
    STATE["ok"] = True
