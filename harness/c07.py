"""C07: reported cost = number of evaluations."""
from sx.harness import harness

from .common import LONG, LONGT, Fit, cycle, grid, long_driver, long_run, make, unit_dims

CALLED = ["JGBL", "NSGAII", "NSGAIII", "NSLS", "OMOPSO", "SMSEMOA", "SPEA2"]
RECORDS = ["JGBL", "NSGAII", "NSGAIII", "NSLS"]       # keep what they evaluate in the cache


def archive(content):
    from algorithms.HGS.tools import ResultArchive
    a = ResultArchive()
    for k, v in content:
        a[k] = v
    return a


def vectors_seen(fit):
    """evaluations done: the calls of the first objective"""
    return [v for k, v in fit.calls if k == 0]


def agree(ctx, d, fit, label):
    ctx.check(d.cost == len(vectors_seen(fit)), label, "cost %s" % (d.cost,))
    for k in range(1, fit.m):
        ctx.check(len([1 for j, _ in fit.calls if j == k]) == len(vectors_seen(fit)), "all-objectives-evaluated")


def draws(ctx):
    ctx.policy(random=cycle([0.9, 0.2, 0.7, 0.4, 0.3]), unit=cycle([0.25, 0.5, 0.75]), index="first", shuffle="id",
               gauss=cycle([0.25, -0.5, 1.0]))


def run(ctx, d, fit, steps):
    agree(ctx, d, fit, "cost-after-construction")
    last = d.cost
    for s in range(steps):
        d.next_step()
        agree(ctx, d, fit, "cost-after-step")
        ctx.check(d.cost >= last, "cost-never-decreases")
        last = d.cost
    d.finalized_population()
    agree(ctx, d, fit, "cost-after-final-population")


PAIRS = [dict(algo=a, m=1, n=2, steps=2 if a not in ("NSGAIII", "NSLS", "OMOPSO") else 1) for a in CALLED] + \
    [dict(algo=a, m=2, n=2, steps=1) for a in ("JGBL", "NSGAII", "SMSEMOA", "SPEA2")]


@harness(quick=PAIRS,
         thorough=PAIRS + [dict(algo=a, m=1, n=2, steps=2) for a in CALLED] +
         [dict(algo=a, m=1, n=3, steps=1) for a in CALLED], path_s=60)
def plain(ctx):
    """no cache: cost is the number of vectors evaluated, over construction and two steps"""
    a, n = ctx.p["algo"], ctx.p["n"]
    draws(ctx)
    fit = Fit(ctx, ctx.p["m"])
    new = ctx.choose("variation", 2)
    d = make(a, grid(n), unit_dims(), fit.fitnesses, mutation_rate=float(new), crossover_rate=float(new))
    run(ctx, d, fit, ctx.p["steps"])


CACHED = [dict(algo=a, m=1, n=2, steps=2 if a in ("JGBL", "NSGAII", "SMSEMOA") else 1) for a in CALLED]


@harness(quick=CACHED, thorough=CACHED + [dict(algo=a, m=2, n=2, steps=1) for a in CALLED if a != "NSGAIII"], path_s=60)
def cached(ctx):
    """shared cache, filled beforehand with any of the initial vectors: hits are free and exact"""
    a, n, m = ctx.p["algo"], ctx.p["n"], ctx.p["m"]
    draws(ctx)
    fit = Fit(ctx, m)
    init = grid(n)
    known = [v for v in init if ctx.choose("known", 2)]
    arch = archive([(v, fit.vec(v)) for v in known])
    new = ctx.choose("variation", 2)
    d = make(a, grid(n), unit_dims(), fit.fitnesses, mutation_rate=float(new), crossover_rate=float(new),
             fitness_archive=arch)
    run(ctx, d, fit, ctx.p["steps"])
    seen = vectors_seen(fit)
    for v in seen:
        ctx.check(v not in known, "cached-vector-evaluated")
    if a in RECORDS:
        for i, v in enumerate(seen):
            ctx.check(v not in seen[:i], "vector-evaluated-twice")
        for v in seen:
            ctx.check(v in arch, "evaluated-vector-cached")
            ctx.check(ctx.same(list(arch[v]), fit.vec(v)), "cached-values")


@harness(quick=[dict(n=n, hits=h) for n in (2, 3) for h in (0, 1, n)],
         thorough=[dict(n=n, hits=h) for n in (4,) for h in (0, 2, n)], path_s=60)
def ibea(ctx):
    """IBEA charges every individual once, whatever it re-reads; cached ones are free"""
    n, hits = ctx.p["n"], ctx.p["hits"]
    ctx.policy(random=cycle([0.9, 0.2, 0.7, 0.4, 0.3]), shuffle="id", index=None if n == 2 else "first")
    values = {}

    def f(v):
        k = tuple(v)
        if k not in values:
            values[k] = [5.0, 2.0, 3.0][ctx.choose("value", 3)]
        return values[k]
    fs = [f, lambda v: v[0]]
    arch = archive([(v, [f(v) for f in fs]) for v in grid(n)[:hits]]) if hits else None
    new = ctx.choose("variation", 2)
    d = make("IBEA", grid(n), unit_dims(), fs, mutation_rate=float(new), crossover_rate=0.0,
             kappa=1.0, fitness_archive=arch)
    mating = int(0.5 * n)
    expect = n - hits
    ctx.check(d.cost == expect, "cost-after-construction", "%s" % d.cost)
    d.finalized_population()
    ctx.check(d.cost == expect, "final-population-is-free", "%s" % d.cost)
    for _ in range(1 if n == 2 else 2):
        last = d.cost
        d.next_step()
        if new or hits == 0:
            expect += mating
        elif hits < n:
            ctx.check(0 <= d.cost - last <= mating, "cost-after-step", "%s" % d.cost)
            expect = d.cost
        ctx.check(d.cost == expect, "cost-after-step", "%s" % d.cost)
    d.finalized_population()
    ctx.check(d.cost == expect, "final-population-is-free", "%s" % d.cost)


@harness(quick=[dict(n=2, steps=1), dict(n=4, steps=1)], thorough=[dict(n=2, steps=2), dict(n=6, steps=1)], path_s=60)
def ibea_any_draws(ctx):
    """IBEA without cache: the charge is the number of new individuals whatever is drawn"""
    n = ctx.p["n"]
    ctx.policy(index="first")
    d = make("IBEA", grid(n), unit_dims(), [lambda v: 1.0], mutation_rate=0.5, crossover_rate=0.5, kappa=1.0)
    ctx.check(d.cost == n, "cost-after-construction")
    for s in range(ctx.p["steps"]):
        d.next_step()
        ctx.check(d.cost == n + (s + 1) * (n // 2), "cost-after-step", "%s" % d.cost)
    d.finalized_population()
    ctx.check(d.cost == n + ctx.p["steps"] * (n // 2), "final-population-is-free")


@harness(quick=[dict(n=1, d=1), dict(n=2, d=1), dict(n=1, d=2), dict(n=2, d=2)], thorough=[dict(n=3, d=2), dict(n=2, d=3)],
         path_s=60)
def cache_identity(ctx):
    """the shared cache answers for exactly the vectors recorded in it"""
    n, d = ctx.p["n"], ctx.p["d"]
    keys = [ctx.reals("k%d" % i, d, -1, 1) for i in range(n)]
    ask = ctx.reals("ask", d, -1, 1)
    arch = archive([])
    for i, k in enumerate(keys):
        arch[list(k)] = [float(i)]
    hit = [i for i, k in enumerate(keys) if bool(ctx.all([a == b for a, b in zip(k, ask)]))]
    ctx.check((list(ask) in arch) == bool(hit), "hit-iff-recorded")
    if hit:
        ctx.check(list(arch[list(ask)]) == [float(hit[-1])], "latest-recorded-values")


@harness(quick=[p for p in LONG if p["algo"] != "IBEA"], thorough=[p for p in LONGT if p["algo"] != "IBEA"], path_s=60)
def long_runs(ctx):
    """a dozen steps of each algorithm: the cost is the number of vectors evaluated at every moment"""
    fit, d = long_driver(ctx)
    last = 0
    for s, m in long_run(ctx, d):
        agree(ctx, d, fit, "cost-after-every-step")
        ctx.check(d.cost >= last, "cost-never-decreases")
        last = d.cost


COPIES = [dict(algo=a, n=10, m=m, steps=12, at=(), band=(0.2, 0.3)) for a in ("NSGAII", "JGBL") for m in (1, 2)] + [
    dict(algo="NSGAIII", n=8, m=2, steps=10, at=(), band=(0.2, 0.3)), dict(algo="NSLS", n=6, m=2, steps=10, at=(2,))]


@harness(quick=COPIES, thorough=[dict(p, steps=24) for p in COPIES], path_s=60)
def long_cached(ctx):
    """a longer run with the cache on, with many repeated vectors: each is evaluated once however long ago that was"""
    fit, d = long_driver(ctx, fitness_archive=archive([]), crossover_rate=0.3)
    for s, m in long_run(ctx, d):
        agree(ctx, d, fit, "cost-after-every-step")
    seen = [tuple(v) for v in vectors_seen(fit)]
    ctx.check(len(set(seen)) == len(seen), "vector-evaluated-twice")
