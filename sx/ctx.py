"""The harness API.  Harness functions receive a ctx and run unchanged in two
modes: symbolically (SymCtx, CPython + z3) and concretely (ConcCtx, any Python,
recorded inputs, unpatched code).  This file must stay importable by PyPy 3.9
without z3."""
import os

SERIAL = [0]


class CheckFailed(BaseException):
    def __init__(self, label, detail=""):
        super().__init__(label)
        self.label = label
        self.detail = detail


class Skip(BaseException):
    """Concrete run: an assumption does not hold for these inputs."""


class Unavailable(BaseException):
    """A name this harness drives does not exist in the current tree."""


class BaseCtx:
    symbolic = False

    def need(self, obj, *names):
        for n in names:
            if not hasattr(obj, n):
                raise Unavailable(n)
        return getattr(obj, names[-1])

    def __init__(self, params):
        self.p = params
        self.observed = []
        self.cleanups = []

    def cleanup(self, f):
        self.cleanups.append(f)

    def run_cleanups(self):
        while self.cleanups:
            try:
                self.cleanups.pop()()
            except Exception:
                pass

    # n reals etc.
    def reals(self, name, n, lo=None, hi=None):
        return [self.real("%s%d" % (name, i), lo, hi) for i in range(n)]

    def points(self, name, n, d, lo=None, hi=None):
        return [self.reals("%s%d_" % (name, i), d, lo, hi) for i in range(n)]

    def all(self, it):
        return self.And(*list(it))

    def any(self, it):
        return self.Or(*list(it))

    def scratch(self):
        """A fresh scratch directory, removed when the path ends."""
        import shutil
        import tempfile

        base = os.environ.get("VERIF_SCRATCH") or None
        # a name of digits: a random one could contain a word that a check looks for
        base = base or tempfile.gettempdir()
        while True:
            SERIAL[0] += 1
            d = os.path.join(base, "evsx_%d_%d" % (os.getpid(), SERIAL[0]))
            try:
                os.mkdir(d, 0o700)
                break
            except FileExistsError:
                pass
        self.cleanup(lambda: shutil.rmtree(d, ignore_errors=True))
        return d

    def patch(self, obj, name, value):
        """setattr undone at the end of the path."""
        missing = object()
        old = obj.__dict__.get(name, missing) if hasattr(obj, "__dict__") else getattr(obj, name)
        setattr(obj, name, value)

        def undo():
            if old is missing:
                delattr(obj, name)
            else:
                setattr(obj, name, old)

        self.cleanup(undo)

    def patch_everywhere(self, mod, name, value):
        """patch, also under the names other modules imported the same object by"""
        import sys
        old = mod.__dict__.get(name)
        self.patch(mod, name, value)
        if old is None:
            return
        tops = ("algorithms", "simulation", "statistic", "plots", "metrics", "evotools", "problems", "evogil")
        for k, m in list(sys.modules.items()):
            if m is None or k.split(".")[0] not in tops:
                continue
            for n, v in list(vars(m).items()):
                if v is old:
                    self.patch(m, n, value)

    def patch_item(self, d, key, value):
        missing = object()
        old = d.get(key, missing)
        d[key] = value

        def undo():
            if old is missing:
                d.pop(key, None)
            else:
                d[key] = old

        self.cleanup(undo)

    def chdir(self, d):
        old = os.getcwd()
        os.chdir(d)
        self.cleanup(lambda: os.chdir(old))

    def dominates(self, a, b):
        """Reference definition of Pareto dominance (minimisation)."""
        return self.And(
            self.all(x <= y for x, y in zip(a, b)),
            self.any(x < y for x, y in zip(a, b)),
        )

    def same(self, a, b):
        return self.all(x == y for x, y in zip(a, b))


class ConcCtx(BaseCtx):
    """Concrete replay with recorded inputs and draws."""

    def __init__(self, params, inputs, draws):
        super().__init__(params)
        self.inputs = inputs
        self.draws = list(draws)
        self.dpos = 0
        self.n_checks = 0
        self._names = {}
        self.clock = None

    def _get(self, name):
        n = self._names.get(name, 0)
        self._names[name] = n + 1
        return self.inputs.get("%s!%d" % (name, n))

    def real(self, name, lo=None, hi=None):
        v = self._get(name)
        if v is None:
            v = lo if lo is not None else 0.0
        return float(v)

    def int(self, name, lo, hi):
        v = self._get(name)
        return int(v) if v is not None else lo

    def bool(self, name):
        return bool(self._get(name))

    def choose(self, name, n):
        v = self._get(name)
        return int(v) if v is not None else 0

    def assume(self, cond):
        if not cond:
            raise Skip()

    def check(self, cond, label, detail=""):
        self.n_checks += 1
        if not cond:
            raise CheckFailed(label, detail)

    def observe(self, name, value):
        self.observed.append((name, value))

    def Not(self, a):
        return not a

    def And(self, *a):
        return all(a)

    def Or(self, *a):
        return any(a)

    def Implies(self, a, b):
        return (not a) or bool(b)

    def Iff(self, a, b):
        return bool(a) == bool(b)

    def If(self, c, a, b):
        return a if c else b

    def close(self, a, b, tol=1e-6):
        """|a-b| <= tol.  The solver looks for differences above 2*tol."""
        if a == b:
            return True
        return abs(a - b) <= tol

    def coarse(self):
        pass

    def formula(self, a, b, label, tol=1e-6):
        """a and b are the same function"""
        self.check(abs(a - b) <= tol * (1 + abs(b)), label, "%s is not %s" % (a, b))

    def formulas(self, rows, label, tol=1e-6):
        """in one of the rows every pair is the same function"""
        self.check(any(all(abs(a - b) <= tol * (1 + abs(b)) for a, b in pairs) for pairs in rows), label)

    def le(self, a, b, tol=1e-6):
        return a <= b + tol

    def Sum(self, xs):
        return sum(xs)

    def Max(self, xs):
        return max(xs)

    def Min(self, xs):
        return min(xs)

    def sqrt_eq(self, s, sq, tol=1e-6):
        """s is the square root of sq."""
        return s >= -tol and abs(s * s - sq) <= tol

    def set_clock(self, f):
        self.clock = f

    live = None

    def policy(self, replay=False, **kw):
        """replay: the policies, functions of the inputs only, also make the draws of a replay."""
        if replay:
            self.live = kw

    def relax(self):
        """Symbolic run: square roots used in arithmetic get linear facts only."""

    # draws used by the patched random module
    def next_draw(self, kind):
        if self.dpos < len(self.draws):
            k, v = self.draws[self.dpos]
            self.dpos += 1
            return k, v
        return None, None


def mk_sym():
    import z3

    from . import shims, sym
    from .sym import SymBool, SymInt, SymReal, as_cond, ite, rv, to_bool_expr, _real

    class SymCtx(BaseCtx):
        symbolic = True

        def __init__(self, params, engine, on_violation, on_check):
            super().__init__(params)
            self.e = engine
            self.on_violation = on_violation
            self.on_check = on_check
            self.n_checks = 0

        def _name(self, name):
            n = self.e.user.get(name, 0)
            self.e.user[name] = n + 1
            return "%s!%d" % (name, n)

        def real(self, name, lo=None, hi=None):
            full = self._name(name)
            v = z3.Real(full)
            cs = []
            if lo is not None:
                cs.append(v >= rv(lo))
            if hi is not None:
                cs.append(v <= rv(hi))
            if cs:
                self.e.add(z3.And(*cs))
            self.e.inputs.append((full, "real", v))
            return SymReal(v)

        def int(self, name, lo, hi):
            full = self._name(name)
            v = z3.Int(full)
            self.e.add(z3.And(v >= lo, v <= hi))
            self.e.inputs.append((full, "int", v))
            return SymInt(v)

        def bool(self, name):
            full = self._name(name)
            v = z3.Bool(full)
            self.e.inputs.append((full, "bool", v))
            return SymBool(v)

        def choose(self, name, n):
            full = self._name(name)
            v = self.e.choose(n)
            self.e.inputs.append((full, "const", v))
            return v

        def assume(self, cond):
            self.e.assume(cond)

        def check(self, cond, label, detail=""):
            self.n_checks += 1
            e = self.e
            c = as_cond(cond)
            if c is True:
                e.stats.checks += 1
                self.on_check(label, e.get_model() is not None)
                return
            if e.pos < e.k or e.nout < e.nforced:
                # already decided on the path that recorded this prefix
                return
            e.stats.checks += 1
            if c is False:
                self.on_violation(label, detail, None)
                raise sym.PathEnd("violation")
            self.on_check(label, True)
            keep = e.model
            e.stats.checks_solver += 1
            r = e._check(z3.Not(c))
            if r == z3.sat:
                self.on_violation(label, detail, z3.Not(c))
                raise sym.PathEnd("violation")
            if r == z3.unknown:
                e.user.setdefault("undecided", []).append(label)
            e.model = keep

        def observe(self, name, value):
            self.observed.append((name, value))

        def Not(self, a):
            if sym.is_sym(a):
                return SymBool(z3.Not(to_bool_expr(a)))
            return not a

        def And(self, *a):
            return SymBool(z3.And(*[to_bool_expr(x) for x in a])) if a else True

        def Or(self, *a):
            return SymBool(z3.Or(*[to_bool_expr(x) for x in a])) if a else False

        def Implies(self, a, b):
            return SymBool(z3.Implies(to_bool_expr(a), to_bool_expr(b)))

        def Iff(self, a, b):
            return SymBool(to_bool_expr(a) == to_bool_expr(b))

        def If(self, c, a, b):
            if isinstance(a, (bool, SymBool)) and isinstance(b, (bool, SymBool)):
                return SymBool(z3.If(to_bool_expr(c), to_bool_expr(a), to_bool_expr(b)))
            return ite(c if sym.is_sym(c) else bool(c), a, b)

        def coarse(self):
            self.e.user["coarse"] = True

        def formula(self, a, b, label, tol=1e-6):
            if not sym.is_sym(a) and not sym.is_sym(b):
                return self.check(abs(a - b) <= tol * (1 + abs(b)), label)
            d = sym.polynomial(sym.canonical(_real(a) - _real(b)), 1e-8)
            und = self.e.user.setdefault("undecided", [])
            n = len(und)
            self.check(SymBool(z3.And(d <= 2 * rv(tol), d >= -2 * rv(tol))), label)
            if len(und) > n:
                # replay decides; without a confirmed difference the obligation stays undecided
                self.on_violation(label, "undecided", None)

        def formulas(self, rows, label, tol=1e-6):
            """rows: alternatives, each a list of pairs; all pairs of one alternative are equal functions"""
            alts = []
            for pairs in rows:
                ds = []
                for a, b in pairs:
                    if not sym.is_sym(a) and not sym.is_sym(b):
                        d = z3.RealVal(0) if abs(a - b) <= tol * (1 + abs(b)) else z3.RealVal(1)
                    else:
                        d = sym.polynomial(sym.canonical(_real(a) - _real(b)), 1e-8)
                    ds.append(z3.simplify(z3.And(d <= 2 * rv(tol), d >= -2 * rv(tol))))
                alts.append(z3.simplify(z3.And(*ds)))
                if z3.is_true(alts[-1]):
                    return self.check(True, label)
            und = self.e.user.setdefault("undecided", [])
            n = len(und)
            self.check(SymBool(z3.simplify(z3.Or(*alts))), label)
            if len(und) > n:
                self.on_violation(label, "undecided", None)

        def close(self, a, b, tol=1e-6):
            if not sym.is_sym(a) and not sym.is_sym(b):
                return a == b or abs(a - b) <= 2 * tol
            d = a - b
            return self.And(d <= 2 * tol, d >= -2 * tol)

        def le(self, a, b, tol=1e-6):
            return a <= b + 2 * tol

        def Sum(self, xs):
            xs = list(xs)
            return sum(xs[1:], xs[0]) if xs else 0

        def Max(self, xs):
            return shims.s_max(list(xs))

        def Min(self, xs):
            return shims.s_min(list(xs))

        def sqrt_eq(self, s, sq, tol=1e-6):
            if not sym.is_sym(s) and not sym.is_sym(sq):
                return s >= -2 * tol and abs(s * s - sq) <= 2 * tol
            d = s * s - sq
            return self.And(s >= -2 * tol, d <= 2 * tol, d >= -2 * tol)

        def set_clock(self, f):
            shims.Clock.source = f
            self.cleanup(lambda: setattr(shims.Clock, "source", None))

        def relax(self):
            self.e.user["relax"] = True

        def policy(self, replay=False, **kw):
            old = dict(shims.RANDOM.policy)
            shims.RANDOM.policy.update(kw)
            self.cleanup(lambda: (shims.RANDOM.policy.clear(), shims.RANDOM.policy.update(old)))

    return SymCtx
