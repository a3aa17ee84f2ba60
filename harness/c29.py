"""C29: the delegates a hierarchy sprouts from."""
from sx.harness import harness

from .c04 import grown
from .c07 import draws
from .c13 import RATES, adapter, copies, objective
from .common import ALGOS, Fit, grid, make, unit_dims

PARETO = ("NSGAII", "JGBL", "NSLS", "IBEA", "SMSEMOA")
KINDS = ("HGS", "DHGS")


def listed(ctx, vs, v):
    """a vector of the list, by value"""
    return ctx.any(len(w) == len(v) and (w is v or ctx.same(w, v)) for w in vs)


def nominated(ctx, algo, d, fit, before, dims):
    """the delegates of a driver that has stepped and was asked for its final population"""
    named = d.message_adapter.nominate_delegates
    cost, pop = d.cost, copies(d.population)
    calls = len(fit.calls)
    known = [v for _, v in fit.calls]
    dels = [list(v) for v in named()]
    ctx.check(len(dels) >= 1, "someone-nominated")
    ctx.check(d.cost == cost, "nominating-is-free")
    for v in dels:
        ctx.check(listed(ctx, known, v), "delegates-were-evaluated", v)
        for x, (lo, hi) in zip(v, dims):
            ctx.check(ctx.And(lo <= x, x <= hi), "delegates-in-bounds", v)
    ctx.check(all(listed(ctx, known, v) for _, v in fit.calls[calls:]), "nothing-new-evaluated")
    ctx.check(copies(d.population) == pop, "population-undisturbed")
    if algo in PARETO:
        pool = before + [list(v) for v in d.population] + dels
        V = [fit.vec(v) for v in pool if listed(ctx, known, v)]
        for v in dels:
            f = fit.vec(v)
            for w in V:
                ctx.check(ctx.Not(ctx.dominates(w, f)), "no-dominated-delegate", v)
    # the hierarchy shuffles the list it was given
    mine = named()
    mine.reverse()
    del mine[1:]
    ctx.check(copies(d.population) == pop, "list-is-the-caller's")
    again = [list(v) for v in named()]
    ctx.check(sorted(again) == sorted(dels), "nominated-again")


SLOW = ("NSGAIII", "NSLS", "OMOPSO")
STEPS = [dict(algo=a, n=2, m=2, steps=1, free=1) for a in ALGOS if a not in SLOW + ("IBEA", "SMSEMOA")] + \
    [dict(algo=a, n=2, m=1, steps=1, free=1) for a in SLOW + ("SMSEMOA",)] + \
    [dict(algo=a, n=n, m=2, steps=s, free=0) for a in ALGOS for n, s in ((2, 3), (6, 2))]


@harness(quick=STEPS, thorough=STEPS + [dict(algo="IBEA", n=2, m=1, steps=1, free=1), dict(algo="SMSEMOA", n=2, m=2, steps=1, free=1)] + [dict(algo=a, n=2, m=1, steps=2, free=1) for a in ALGOS if a not in ("NSLS", "IBEA", "NSGAIII")] +
         [dict(algo=a, n=10, m=3, steps=4, free=0) for a in ALGOS], path_s=60)
def after_metaepoch(ctx):
    """any objective values: after a metaepoch each algorithm nominates evaluated members of its best front"""
    algo, n = ctx.p["algo"], ctx.p["n"]
    kind = KINDS[ctx.choose("adapter", len(KINDS))]
    rates = RATES[1:2] if algo in ("NSLS", "OMOPSO") else RATES[:2] if ctx.p["free"] else RATES
    mr, cr = rates[ctx.choose("rates", len(rates))]
    draws(ctx)
    fit = objective(ctx, ctx.p["m"], ctx.p["free"])
    dims = unit_dims()
    d = make(algo, grid(n), dims, fit.fitnesses, mutation_rate=mr, crossover_rate=cr,
             message_adapter_factory=adapter(algo, kind))
    for _ in range(ctx.p["steps"]):
        d.next_step()
    before = [list(v) for v in d.population]
    d.finalized_population()
    nominated(ctx, algo, d, fit, before, dims)


POOLS = [dict(algo=a, n=4, size=2, m=1) for a in ("NSGAII", "JGBL")] + \
    [dict(algo=a, n=3, size=2, m=2) for a in ("NSGAII", "JGBL")] + [dict(algo="IBEA", n=2, size=1, m=2),
                                                                            dict(algo="IBEA", n=2, size=1, m=1)]


@harness(quick=POOLS, thorough=POOLS + [dict(algo="NSGAII", n=4, size=2, m=2), dict(algo="IBEA", n=3, size=2, m=1)], path_s=60,
         query_ms=15000)
def from_any_pool(ctx):
    """parents and offspring with any objective values: the best front of the whole pool is nominated"""
    algo, n = ctx.p["algo"], ctx.p["n"]
    kind = KINDS[ctx.choose("adapter", len(KINDS))]
    over = dict(kappa=1.0) if algo == "IBEA" else {}
    fit, vs, d = grown(ctx, algo, n, ctx.p["size"], ctx.p["m"], message_adapter_factory=adapter(algo, kind), **over)
    d.finalized_population()
    nominated(ctx, algo, d, fit, vs, unit_dims())


@harness(quick=[dict(n=3, m=2), dict(n=4, m=1)], thorough=[dict(n=4, m=2)], path_s=60)
def smsemoa_front(ctx):
    """SMS-EMOA nominates the whole non-dominated front of any population"""
    n, m = ctx.p["n"], ctx.p["m"]
    fit = Fit(ctx, m)
    vs = grid(n)
    d = make("SMSEMOA", vs, unit_dims(), fit.fitnesses, message_adapter_factory=adapter("SMSEMOA", "HGS"))
    for x in d.individuals:
        x.objectives = [f(x.value) for f in fit.fitnesses]
    nominated(ctx, "SMSEMOA", d, fit, vs, unit_dims())
    dels = [list(v) for v in d.message_adapter.nominate_delegates()]
    V = {i: fit.vec(v) for i, v in enumerate(vs)}
    for i in V:
        best = ctx.Not(ctx.any(ctx.dominates(V[j], V[i]) for j in V if j != i))
        ctx.check(ctx.Iff(best, vs[i] in dels), "the-whole-front")
