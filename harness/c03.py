"""C03: non-dominated sorting."""
from sx.harness import harness

from .common import CROWDS, CROWDST, Fit, driver_class, grid, make, pool, unit_dims

Q = [dict(n=2, m=2), dict(n=3, m=2), dict(n=4, m=1), dict(n=2, m=3), dict(n=4, m=2)]
T = Q + [dict(n=3, m=3), dict(n=5, m=1)]


def check_fronts(ctx, inds, fronts, dom, label=""):
    """fronts: dict/sequence of lists -> partition, consistent with dom(x, y)"""
    if hasattr(fronts, "items"):
        fronts = [f for k, f in sorted(fronts.items())]
    fronts = [list(f) for f in fronts]
    while fronts and not fronts[-1]:
        fronts.pop()
    for x in inds:
        ctx.check(sum(1 for f in fronts for y in f if y is x) == 1, label + "in-exactly-one-front")
    ctx.check(sum(len(f) for f in fronts) == len(inds), label + "nothing-extra")
    for no, f in enumerate(fronts):
        for x in f:
            ctx.check(ctx.Not(ctx.any(dom(y, x) for y in f if y is not x)),
                      label + "no-dominance-inside-front")
            if no > 0:
                ctx.check(ctx.any(dom(y, x) for y in fronts[no - 1]),
                          label + "dominated-by-previous-front")
    ctx.observe("fronts", [len(f) for f in fronts])
    return fronts


def rank_check(ctx, inds, ranks, fronts):
    for no, f in enumerate(fronts):
        for x in f:
            ctx.check(ranks[x] == no + 1, "rank-matches-front")


def by_objectives(ctx, fit):
    def dom(x, y):
        return ctx.dominates(fit.vec(x.v), fit.vec(y.v))
    return dom


@harness(quick=Q + CROWDS, thorough=T + CROWDST, path_s=60)
def nsga2_sort(ctx):
    """NSGA-II's fronts and ranks for any objective values"""
    vs = grid(ctx.p["n"])
    fit = pool(ctx, vs, ctx.p["m"])
    d = make("NSGAII", vs, unit_dims(), fit.fitnesses)
    ctx.need(d, "_nd_sort")()
    fr = check_fronts(ctx, d.individuals, ctx.need(d, "front"), by_objectives(ctx, fit))
    if hasattr(d, "nsga_rank"):
        rank_check(ctx, d.individuals, d.nsga_rank, fr)


@harness(quick=[dict(n=3, m=2)], thorough=[dict(n=3, m=2), dict(n=4, m=2)])
def nsga2_sort_twice(ctx):
    """sorting again after the population changed carries nothing over"""
    vs = grid(ctx.p["n"])
    fit = pool(ctx, vs, ctx.p["m"])
    d = make("NSGAII", vs, unit_dims(), fit.fitnesses)
    ctx.need(d, "_nd_sort")()
    d.individuals = d.individuals[1:]
    d._nd_sort()
    check_fronts(ctx, d.individuals, ctx.need(d, "front"), by_objectives(ctx, fit))


@harness(quick=Q + CROWDS, thorough=T + CROWDST, path_s=60)
def nsls_sort(ctx):
    """NSLS's fronts and ranks for any objective values"""
    vs = grid(ctx.p["n"])
    fit = pool(ctx, vs, ctx.p["m"])
    d = make("NSLS", vs, unit_dims(), fit.fitnesses)
    ctx.need(d, "calculate_objectives")(d.individuals)
    ctx.need(d, "nd_sort")()
    fr = check_fronts(ctx, d.individuals, ctx.need(d, "front"), by_objectives(ctx, fit))
    if hasattr(d, "nsga_rank"):
        rank_check(ctx, d.individuals, d.nsga_rank, fr)


@harness(quick=Q + CROWDS, thorough=T + CROWDST, path_s=60)
def smsemoa_sort(ctx):
    """SMS-EMOA's fronts for any objective values"""
    import importlib
    S = importlib.import_module("algorithms.SMSEMOA.SMSEMOA")

    n, m = ctx.p["n"], ctx.p["m"]
    f = ctx.need(S, "Individual", "nd_sort")
    vs = grid(n)
    fit = pool(ctx, vs, m)
    inds = [S.Individual(v) for v in vs]
    for x, v in zip(inds, vs):
        x.objectives = fit.vec(v)
    check_fronts(ctx, inds, f(inds), lambda x, y: ctx.dominates(x.objectives, y.objectives))


@harness(quick=[dict(n=3, c=2), dict(n=4, c=1)], thorough=[dict(n=4, c=2), dict(n=5, c=1), dict(n=4, c=3)])
def nsga3_sort(ctx):
    """NSGA-III's fronts under its own relation: same cluster and smaller theta fitness"""
    import importlib
    N = importlib.import_module("algorithms.NSGAIII.NSGAIII")

    f = ctx.need(N, "Individual", "theta_non_dominated_sort")
    inds = [N.Individual(v) for v in grid(ctx.p["n"])]
    for i, x in enumerate(inds):
        x.cluster = ctx.choose("cluster", ctx.p["c"])
        x.theta_fitness = ctx.real("theta%d" % i, 0, 8)
        x.objectives = [0.0]

    def dom(x, y):
        return ctx.And(x.cluster == y.cluster, x.theta_fitness < y.theta_fitness)
    check_fronts(ctx, inds, f(inds), dom)




@harness(quick=[dict(n=3, m=2)], thorough=[dict(n=3, m=2), dict(n=4, m=2)])
def jgbl_sort_of_sets(ctx):
    """JGBL sorts a set of individuals with the inherited procedure"""
    fit = Fit(ctx, ctx.p["m"])
    d = make("JGBL", grid(ctx.p["n"]), unit_dims(), fit.fitnesses)
    inds = list(d.individuals)
    d.individuals = set(inds)
    ctx.need(d, "_nd_sort")()
    check_fronts(ctx, inds, ctx.need(d, "front"), by_objectives(ctx, fit))


@harness(quick=[dict(n=2, m=2), dict(n=3, m=1)] + [dict(n=2, m=2, old=1), dict(n=3, m=1, old=1), dict(n=3, m=1, old=2)],
         thorough=[dict(n=3, m=2), dict(n=4, m=1), dict(n=3, m=2, old=1), dict(n=4, m=1, old=2)])
def spea2_fitness(ctx):
    """SPEA2's fitness separates non-dominated (below 1) from dominated, and respects dominance"""
    fit = Fit(ctx, ctx.p["m"])
    d = make("SPEA2", grid(ctx.p["n"]), unit_dims(), fit.fitnesses)
    # some of them kept from earlier generations
    inds = list(d.individuals)
    old = inds[: ctx.p.get("old", 0)]
    if old:
        ctx.need(d, "calculate_objectives")(old)
    ctx.need(d, "calculate_fitnesses")(inds[len(old):], old)
    V = [fit.vec(x["value"]) for x in inds]
    for i, x in enumerate(inds):
        nd = ctx.Not(ctx.any(ctx.dominates(V[j], V[i]) for j in range(len(V)) if j != i))
        ctx.check(ctx.Iff(nd, x["fitness"] < 1), "below-one-iff-non-dominated")
        for j, y in enumerate(inds):
            if i != j:
                ctx.check(ctx.Implies(ctx.dominates(V[i], V[j]), x["fitness"] < y["fitness"]),
                          "dominating-is-fitter")


FIRST = [dict(algo=a, n=2, m=2) for a in ("NSGAII", "SMSEMOA")] + [dict(algo="NSLS", n=2, m=1)]


@harness(quick=FIRST, thorough=FIRST + [dict(algo="NSGAII", n=3, m=2), dict(algo="NSLS", n=2, m=2)] + [dict(f, steps=2) for f in FIRST], path_s=60)
def first_front(ctx):
    """whole steps, any objective values: the front an algorithm hands out holds nobody another of it dominates"""
    from .c07 import draws
    from .c13 import adapter, objective

    algo = ctx.p["algo"]
    draws(ctx)
    fit = objective(ctx, ctx.p["m"], 1)
    d = make(algo, grid(ctx.p["n"]), unit_dims(), fit.fitnesses, message_adapter_factory=adapter(algo, "HGS"))
    for _ in range(ctx.p.get("steps", 1)):
        d.next_step()
    d.finalized_population()
    best = [fit.vec(list(v)) for v in d.message_adapter.nominate_delegates()]
    ctx.check(len(best) >= 1, "a-front-is-never-empty")
    for v in best:
        ctx.check(ctx.Not(ctx.any(ctx.dominates(w, v) for w in best)), "no-dominance-inside-front")
