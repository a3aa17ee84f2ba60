"""Helpers shared by the harness modules (PyPy 3.9 compatible)."""


class Fit:
    """Objective functions with one symbolic value per vector and objective.

    fitnesses: list of m callables; calls: every (objective, vector) call made."""

    def __init__(self, ctx, m, lo=-8, hi=8, name="f", known=None):
        self.ctx, self.m, self.lo, self.hi, self.name = ctx, m, lo, hi, name
        self.values = {}
        self.calls = []
        self.keys = []
        self.known = known or {}
        self.fitnesses = [self._mk(k) for k in range(m)]

    def key_of(self, v):
        """Index of the first vector seen that equals v (concrete or symbolic)."""
        for i, k in enumerate(self.keys):
            if len(k) == len(v) and all(a is b for a, b in zip(k, v)):
                return i
        for i, k in enumerate(self.keys):
            if len(k) == len(v) and bool(self.ctx.same(k, v)):
                return i
        self.keys.append(list(v))
        return len(self.keys) - 1

    def value(self, k, v):
        i = self.key_of(v)
        if (k, i) not in self.values:
            kn = self.known.get(i)
            self.values[(k, i)] = kn[k] if kn is not None else self.ctx.real(
                "%s%d_%d" % (self.name, i, k), self.lo, self.hi)
        return self.values[(k, i)]

    def _mk(self, k):
        def objective(v):
            self.calls.append((k, list(v)))
            return self.value(k, v)
        return objective

    def vec(self, v):
        return [self.value(k, v) for k in range(self.m)]


def grid(n, d=1):
    """n distinct decision vectors inside [0,1]^d."""
    return [[(i + 1) / (16.0 if n < 16 else 64.0)] + [0.5] * (d - 1) for i in range(n)]


def crowd(n, m, width, free):
    """known objectives of a large pool: fronts of `width` members behind one another, in a mixed order, the last one
    a copy of the first; those listed in `free` are left out (symbolic)"""
    def layered(i):
        k, j = divmod(i, width)
        return [float((j, width - 1 - j, (2 * j) % width)[o] + k if width > 1 else k) for o in range(m)]
    order = sorted(range(n), key=lambda i: (i * 7) % n if n % 7 else (i * 5) % n)
    known = {i: layered(order[i]) for i in range(n)}
    known[n - 1] = list(known[0])
    return {i: v for i, v in known.items() if i not in free}


CROWDS = [dict(n=9, m=2, width=3, crowd=(4,)), dict(n=12, m=2, width=2, crowd=(7,)), dict(n=7, m=3, width=3, crowd=(2,)),
          dict(n=8, m=1, width=1, crowd=(0, 5)), dict(n=15, m=2, width=1, crowd=(9,))]
CROWDST = CROWDS + [dict(n=7, m=2, width=3, crowd=(1, 3)), dict(n=10, m=3, width=4, crowd=(2,)),
                    dict(n=24, m=2, width=4, crowd=(11,)), dict(n=20, m=3, width=5, crowd=(3,))]


def cloud(n, m, salt=0):
    """n fixed points of m coordinates (multiples of 1/8) in [-4, 4), in no particular order, with ties"""
    return [[((i * 37 + k * 101 + salt * 59 + i * i * (k + 3) * 13) * 29 % 64) / 8.0 - 4.0 for k in range(m)] for i in range(n)]


def freed(ctx, pts, free, lo=-4, hi=4):
    """the points with the coordinates listed in `free` (point, coordinate) symbolic"""
    pts = [list(p) for p in pts]
    for i, k in free:
        pts[i][k] = ctx.real("x%d_%d" % (i, k), lo, hi)
    return pts


def vectors(ctx, n, m, lo, hi):
    """n objective vectors, symbolic everywhere or (crowd=) only at some of them"""
    if "crowd" not in ctx.p:
        return ctx.points("f", n, m, lo, hi)
    known = crowd(n, m, ctx.p["width"], ctx.p["crowd"])
    return [known[i] if i in known else ctx.reals("f%d_" % i, m, lo, hi) for i in range(n)]


def pool(ctx, vs, m, **k):
    """objective functions over the vectors vs, symbolic everywhere or (crowd=) only at some of them"""
    if "crowd" not in ctx.p:
        return Fit(ctx, m, **k)
    fit = Fit(ctx, m, known=crowd(len(vs), m, ctx.p["width"], ctx.p["crowd"]), **k)
    for v in vs:
        fit.vec(v)
    return fit


def unit_dims(d=1):
    return [(0.0, 1.0)] * d


BASE = dict(mutation_eta=0.0, crossover_eta=0.0, mutation_rate=0.5, crossover_rate=0.5)

EXTRA = {
    "NSGAII": dict(mating_population_size=0.5),
    "JGBL": dict(mating_population_size=0.5, jumping_rate=0.5, jumping_percentage=0.5),
    "NSGAIII": dict(),
    "SPEA2": dict(),
    "IBEA": dict(kappa=0.05, mating_population_size=0.5),
    "SMSEMOA": dict(reference_point=[50.0, 50.0, 50.0]),
    "OMOPSO": dict(),
    "NSLS": dict(),
}
ALGOS = sorted(EXTRA)


def driver_class(name):
    import importlib

    return getattr(importlib.import_module("algorithms.%s.%s" % (name, name)), name)


def make(name, population, dims, fitnesses, **over):
    """A driver built through its real constructor."""
    kw = dict(BASE)
    kw.update(EXTRA[name])
    if "reference_point" in kw:
        kw["reference_point"] = kw["reference_point"][: len(fitnesses)]
    kw.update(over)
    return driver_class(name)(population=population, dims=dims, fitnesses=fitnesses, **kw)


def ident_in(x, xs):
    return any(x is y for y in xs)


def ranks(ctx, vecs):
    """Reference front numbers (1 = non-dominated) as terms."""
    n = len(vecs)
    dom = [[ctx.dominates(vecs[j], vecs[i]) if i != j else False for j in range(n)]
           for i in range(n)]
    r = [1] * n
    for _ in range(n - 1):
        r = [1 + ctx.Max([0] + [ctx.If(dom[i][j], r[j], 0) for j in range(n) if j != i])
             for i in range(n)]
    return r


def cycle(values):
    """A draw source running through concrete values."""
    state = [0]

    def f():
        v = values[state[0] % len(values)]
        state[0] += 1
        return v
    return f


def elitist(ctx, pool, kept, size, ranked=True):
    """pool: objective vectors; kept: indices of survivors."""
    ctx.check(len(kept) == size, "population-size", "%d of %d" % (len(kept), size))
    ctx.check(len(set(kept)) == len(kept), "no-survivor-twice")
    dropped = [i for i in range(len(pool)) if i not in kept]
    for x in dropped:
        for y in kept:
            ctx.check(ctx.Not(ctx.dominates(pool[x], pool[y])), "dropped-dominates-no-survivor")
    if ranked:
        r = ranks(ctx, pool)
        for x in dropped:
            for y in kept:
                ctx.check(r[x] >= r[y], "better-front-first")
    else:
        nd = [ctx.Not(ctx.any(ctx.dominates(q, p) for q in pool if q is not p)) for p in pool]
        for x in dropped:
            for y in kept:
                ctx.check(ctx.Not(ctx.And(nd[x], ctx.Not(nd[y]))), "non-dominated-first")
    ctx.observe("kept", sorted(kept))


def indices(items, pool, same=None):
    """Positions of items in pool, by identity then by vector."""
    res = []
    for it in items:
        for i, p in enumerate(pool):
            if it is p or (same is not None and same(it, p)):
                res.append(i)
                break
        else:
            res.append(-1)
    return res


def noise(seed):
    """a fixed stream of numbers in [0, 1)"""
    state = [seed * 7919 + 1]

    def draw(*_):
        state[0] = (state[0] * 1103515245 + 12345) % 2 ** 31
        return (state[0] >> 12 & 1023) / 1024.0
    return draw


class Land:
    """Concrete objectives of a vector; of the vectors numbered in `free` by order of appearance they are symbolic."""

    def __init__(self, ctx, m, free=(), dims=None):
        self.ctx, self.m, self.free = ctx, m, free
        self.dims = dims or [(0.0, 1.0)]
        self.seen, self.order, self.calls = {}, [], []
        self.fitnesses = [self._mk(k) for k in range(m)]

    def vec(self, v):
        key = tuple(v)
        if key not in self.seen:
            i = len(self.order)
            self.order.append(key)
            u = [(x - lo) / (hi - lo) for x, (lo, hi) in zip(v, self.dims)]
            far = abs(u[0] - 0.375) + sum(abs(x - 0.75) for x in u[1:])
            if i in self.free:
                self.seen[key] = [self.ctx.real("land%d_%d" % (i, k), -1, 2) for k in range(self.m)]
            elif self.m == 1:
                self.seen[key] = [round(16 * far) / 16.0]
            else:
                near = sum(abs(x - 0.625) for x in u[1:])
                self.seen[key] = [round(16 * z) / 16.0 for z in (u[0] + near, 1 - u[0] + near, far)][:self.m]
        return self.seen[key]

    def _mk(self, k):
        def objective(v):
            self.calls.append((k, list(v)))
            return self.vec(v)[k]
        return objective


LONG_DIMS = [(-3.0, 1.0), (2.0, 2.5)]


LONG = [dict(algo=a, n=6, m=1, steps=12, at=(2, 8)) for a in ("NSGAII", "NSLS", "OMOPSO")] + [
    dict(algo="JGBL", n=6, m=1, steps=8, at=(2,)), dict(algo="NSLS", n=6, m=2, steps=12, at=(2,)), dict(algo="NSGAIII", n=4, m=1, steps=10, at=(2,)),
    dict(algo="SMSEMOA", n=3, m=1, steps=6, at=(1,)), dict(algo="SPEA2", n=3, m=1, steps=6, at=(1,)),
    dict(algo="IBEA", n=3, m=1, steps=6, at=(), band=(0.0, 1.0))] + [
    dict(algo=a, n=6, m=2, steps=10, at=(), band=(0.3, 0.7)) for a in ALGOS if a not in ("NSLS", "OMOPSO")]
LONGT = LONG + [dict(algo="OMOPSO", n=6, m=2, steps=12, at=(2,)), dict(algo="NSLS", n=6, m=3, steps=12, at=(2,))] + [
    dict(algo=a, n=9, m=m, steps=30, at=(), band=(0.45, 0.55)) for a in ALGOS for m in (1, 3)]


def long_run(ctx, d):
    """yields after construction and after each of many steps on a landscape that is symbolic in a few places"""
    yield 0, None
    for s in range(ctx.p["steps"]):
        yield s + 1, d.next_step()


def long_driver(ctx, **over):
    """an algorithm under a fixed stream of draws, some objective values or the mutation rate symbolic"""
    algo, n, m = ctx.p["algo"], ctx.p["n"], ctx.p["m"]
    draw = noise(n * 31 + m)
    ctx.policy(random=draw, unit=draw, index=lambda k: int(draw() * k), shuffle="id", gauss=lambda: 2 * draw() - 1, replay=True)
    fit = Land(ctx, m, ctx.p["at"], LONG_DIMS)
    pop = [[lo + (hi - lo) * draw() for lo, hi in LONG_DIMS] for _ in range(n)]
    over.setdefault("mutation_rate", ctx.real("rate", *ctx.p["band"]) if "band" in ctx.p else 0.5)
    over.setdefault("crossover_rate", 0.75)
    return fit, make(algo, pop, LONG_DIMS, fit.fitnesses, **over)


def simulation_id(run, date):
    """the id of a stored run"""
    from simulation import model
    make_id = getattr(model, "get_simulation_id", None)
    return make_id(run, date) if make_id else "%s__%s" % (date, str(run or 1000001).rjust(7, "0"))
