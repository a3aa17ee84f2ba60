"""C04: elitist survivor selection."""
from sx.harness import harness

from .common import LONG, LONGT, Fit, cycle, elitist, grid, indices, long_driver, long_run, make, noise, pool, unit_dims


def by_vec(a, b):
    return list(a) == list(b)


def grown(ctx, name, n, size, m, **over):
    """a driver of the given size whose pool has grown to n individuals"""
    vs = grid(n)
    fit = pool(ctx, vs, m)
    d = make(name, vs[:size], unit_dims(), fit.fitnesses, **over)
    Ind = type(d.individuals[0])
    for v in vs[size:]:
        d.individuals.append(Ind(v))
    return fit, vs, d


def survivors(ctx, fit, vs, out, size, ranked=True):
    idx = indices(out, vs, by_vec)
    ctx.check(all(i >= 0 for i in idx), "survivors-from-pool")
    elitist(ctx, [fit.vec(v) for v in vs], idx, size, ranked)


POOLS = [dict(n=3, size=1, m=1), dict(n=4, size=2, m=1), dict(n=2, size=1, m=2),
         dict(n=3, size=2, m=2)]
POOLST = POOLS + [dict(n=3, size=1, m=2), dict(n=4, size=2, m=2)]


CROWDED = [dict(n=9, size=5, m=2, width=3, crowd=(4,)),
           dict(n=10, size=2, m=2, width=4, crowd=(2,)), dict(n=8, size=3, m=1, width=1, crowd=(0, 5))]
CROWDEDT = CROWDED + [dict(n=12, size=7, m=2, width=2, crowd=(7,)), dict(n=10, size=6, m=3, width=4, crowd=(2,)), dict(n=14, size=9, m=2, width=5, crowd=(3,))]


@harness(quick=POOLS + CROWDED, thorough=POOLST + CROWDEDT, path_s=60)
def nsga2_selection(ctx):
    """NSGA-II: parents plus offspring reduced to the population"""
    size = ctx.p["size"]
    fit, vs, d = grown(ctx, "NSGAII", ctx.p["n"], size, ctx.p["m"])
    out = d.finalized_population()
    survivors(ctx, fit, vs, out, size)
    ctx.check(len(d.population) == size, "population-reduced")


@harness(quick=[dict(n=2, m=1), dict(n=3, m=1), dict(n=2, m=2)],
         thorough=[dict(n=3, m=1), dict(n=2, m=2), dict(n=3, m=2)])
def nsga2_full_step(ctx):
    """NSGA-II and JGBL: one full step, then the final population of the resulting pool"""
    for name in ("NSGAII", "JGBL"):
        if ctx.choose("algo", 2) == (name == "JGBL"):
            break
    n = ctx.p["n"]
    fit = Fit(ctx, ctx.p["m"])
    ctx.policy(random=cycle([0.9, 0.2, 0.7, 0.4, 0.3]), index="first")
    d = make(name, grid(n), unit_dims(), fit.fitnesses, mutation_rate=1.0)
    d.next_step()
    pool = [list(v) for v in d.population]
    out = d.finalized_population()
    idx = indices(out, pool, by_vec)
    ctx.check(all(i >= 0 for i in idx), "survivors-from-pool")
    ctx.check(len(out) == n, "population-size")


@harness(quick=[dict(n=4, at=1), dict(n=6, at=0)], thorough=[dict(n=4, at=i) for i in range(6)] + [dict(n=6, at=i) for i in (3, 7)], path_s=60)
def jumped_genes(ctx):
    """JGBL: when the best front does not fit, the kept members plus those with jumped genes are reduced to the population"""
    n = ctx.p["n"]
    draw = noise(n)
    ctx.policy(random=draw, unit=draw, index=lambda k: int(draw() * k), shuffle="id", replay=True)
    free = [ctx.real("a", -1, 40), ctx.real("b", -40, 1)]
    values, jumped = {}, []

    def value(v):
        key = tuple(v)
        if key not in values:
            if not jumped:
                i = len(values)
                values[key] = [3.0 * i, -3.0 * i]
            else:
                i = len(values) - len(jumped[0][2])
                values[key] = free if i == ctx.p["at"] else [4.0 * i + 0.5, -4.0 * i - (1.5 if i % 3 == 0 else -0.5)]
        return values[key]
    dims = [(0.0, 8.0)] * 3
    d = make("JGBL", [[draw() * 8 for _ in dims] for _ in range(n)], dims, [lambda v: value(v)[0], lambda v: value(v)[1]],
             mutation_rate=1.0, crossover_rate=1.0, jumping_rate=0.3)
    ctx.need(d, "jump_genes")
    real = d.jump_genes

    def recorded(pop, rest):
        kept = [list(i.v) for i in pop]
        out = list(real(pop, rest))
        if out:
            jumped.append((kept, [list(i.v) for i in out], dict(values)))
        return out
    d.jump_genes = recorded
    for _ in range(12):
        d.next_step()
        if jumped:
            break
    ctx.check(len(jumped) == 1, "front-larger-than-the-population-jumps")
    kept, made, _ = jumped[0]
    vs = kept + made
    out = [list(v) for v in d.population]
    left = [list(v) for v in vs]
    for v in out:
        ctx.check(v in left, "survivors-from-pool")
        left.remove(v)
    ctx.check(len(out) == n, "population-size")
    for gone in left:
        for v in out:
            ctx.check(ctx.Not(ctx.dominates(value(gone), value(v))), "no-better-one-discarded", "%s %s" % (gone, v))


PSPEA = [dict(n=2, arch=1, size=2, m=1), dict(n=2, arch=2, size=2, m=1),
         dict(n=3, arch=2, size=3, m=2, width=2, crowd=(1,))]


@harness(quick=PSPEA,
         thorough=PSPEA + [dict(n=2, arch=1, size=2, m=2), dict(n=2, arch=2, size=2, m=2),
                           dict(n=4, arch=4, size=4, m=2, width=3, crowd=(2,))], query_ms=15000, path_s=60)
def spea2_selection(ctx):
    """SPEA2: archive plus population reduced to the archive size"""
    n, a, size = ctx.p["n"], ctx.p["arch"], ctx.p["size"]
    ctx.relax()
    vs = grid(n + a)
    fit = pool(ctx, vs, ctx.p["m"])
    d = make("SPEA2", vs[:size], unit_dims(), fit.fitnesses)
    ctx.need(d, "calculate_fitnesses")
    ctx.need(d, "environmental_selection")
    pop = [{"value": v} for v in vs[:n]]
    arch = [{"value": v, "objectives": fit.vec(v)} for v in vs[n:]]
    d.calculate_fitnesses(pop, arch)
    out = d.environmental_selection(pop, arch)
    survivors(ctx, fit, vs, [x["value"] for x in out], size)


@harness(quick=[dict(n=3, size=2, m=1), dict(n=3, size=2, m=2), dict(n=3, size=1, m=1)],
         thorough=[dict(n=3, size=2, m=2), dict(n=4, size=2, m=1), dict(n=4, size=3, m=2)], path_s=60)
def spea2_truncation(ctx):
    """SPEA2 selection for given fitness values: the non-dominated (below 1) first, by fitness after"""
    n, size = ctx.p["n"], ctx.p["size"]
    fit = Fit(ctx, ctx.p["m"])
    vs = grid(n)
    d = make("SPEA2", vs[:size], unit_dims(), fit.fitnesses)
    ctx.need(d, "environmental_selection")
    inds = []
    for v in vs:
        nd = ctx.choose("nd", 2)
        f = ctx.real("fitness", 0.1, 0.9) if nd else ctx.real("fitness", 1.1, 4)
        inds.append({"value": v, "objectives": fit.vec(v), "fitness": f})
    out = d.environmental_selection(inds[:1], inds[1:])
    idx = indices([x["value"] for x in out], vs, by_vec)
    ctx.check(len(idx) == size and all(i >= 0 for i in idx), "population-size")
    ctx.check(len(set(idx)) == size, "no-survivor-twice")
    F = [x["fitness"] for x in inds]
    for x in range(n):
        for y in idx:
            if x not in idx:
                ctx.check(ctx.Implies(F[y] > 1, F[x] >= F[y]), "fitter-first")


@harness(quick=[dict(n=3, m=1), dict(n=2, m=2)], thorough=[dict(n=3, m=1), dict(n=2, m=2), dict(n=3, m=2)])
def spea2_steps(ctx):
    """SPEA2: two steps; the archive is filled from everything evaluated and only improves"""
    n = ctx.p["n"]
    fit = Fit(ctx, ctx.p["m"])
    ctx.policy(random=cycle([0.9, 0.2, 0.7, 0.4, 0.3]), index="first")
    d = make("SPEA2", grid(n), unit_dims(), fit.fitnesses, mutation_rate=1.0, crossover_rate=0.0)
    d.next_step()
    first = [list(v) for v in d.finalized_population()]
    ctx.check(len(first) == n, "population-size")
    idx = indices(first, grid(n), by_vec)
    ctx.check(sorted(idx) == list(range(n)), "first-archive-is-the-initial-population")


@harness(quick=[dict(n=2, size=1, m=1), dict(n=3, size=2, m=1), dict(n=2, size=1, m=2)],
         thorough=[dict(n=3, size=2, m=1), dict(n=2, size=1, m=2), dict(n=3, size=1, m=1), dict(n=3, size=2, m=2)],
         query_ms=15000, path_s=60)
def ibea_selection(ctx):
    """IBEA: pool reduced to the population size, a dominated member never survives its dominator"""
    size = ctx.p["size"]
    fit, vs, d = grown(ctx, "IBEA", ctx.p["n"], size, ctx.p["m"], kappa=1.0)
    out = d.finalized_population()
    idx = indices(out, vs, by_vec)
    ctx.check(all(i >= 0 for i in idx), "survivors-from-pool")
    ctx.check(len(idx) == size, "population-size")
    ctx.check(len(set(idx)) == len(idx), "no-survivor-twice")
    V = [fit.vec(v) for v in vs]
    for x in range(len(vs)):
        for y in idx:
            if x not in idx:
                ctx.check(ctx.Not(ctx.dominates(V[x], V[y])), "dropped-dominates-no-survivor")


@harness(quick=[dict(n=2, m=2), dict(n=3, m=2), dict(n=4, m=1), dict(n=6, m=2, width=2, crowd=(3,)),
                dict(n=7, m=2, width=3, crowd=(4,)), dict(n=11, m=2, width=1, crowd=(6,))],
         thorough=[dict(n=3, m=2), dict(n=4, m=1), dict(n=4, m=2), dict(n=9, m=2, width=3, crowd=(4,))], path_s=60)
def smsemoa_reduction(ctx):
    """SMS-EMOA: exactly one member of the last front is dropped"""
    import importlib
    S = importlib.import_module("algorithms.SMSEMOA.SMSEMOA")

    n, m = ctx.p["n"], ctx.p["m"]
    ctx.need(S, "Individual")
    vs = grid(n)
    fit = pool(ctx, vs, m)
    d = make("SMSEMOA", vs[: n - 1], unit_dims(), fit.fitnesses)
    ctx.need(d, "reduce_population")
    inds = [S.Individual(v) for v in vs]
    for x in inds:
        x.objectives = fit.vec(x.value)
    out = d.reduce_population(list(inds))
    survivors(ctx, fit, vs, [x.value for x in out], n - 1)


@harness(quick=[dict(n=3, size=1, m=1), dict(n=4, size=2, m=1), dict(n=3, size=2, m=2), dict(n=2, size=2, m=2),
                dict(n=3, size=1, m=2), dict(n=5, size=3, m=1)] + CROWDED,
         thorough=[dict(n=4, size=2, m=2), dict(n=3, size=2, m=2), dict(n=5, size=2, m=1),
                   dict(n=4, size=3, m=2), dict(n=4, size=1, m=2)] + CROWDEDT, path_s=6)
def nsls_selection(ctx):
    """NSLS: fronts are taken whole in order, the last one partly"""
    size = ctx.p["size"]
    fit, vs, d = grown(ctx, "NSLS", ctx.p["n"], size, ctx.p["m"])
    ctx.need(d, "calculate_objectives")(d.individuals)
    ctx.need(d, "nd_sort")()
    ctx.need(d, "next_generation")()
    survivors(ctx, fit, vs, d.finalized_population(), size)


@harness(quick=[dict(n=4, size=2, c=2), dict(n=3, size=1, c=2), dict(n=2, size=2, c=2)],
         thorough=[dict(n=4, size=2, c=2), dict(n=5, size=3, c=2), dict(n=4, size=2, c=3), dict(n=2, size=2, c=2)], path_s=6)
def nsga3_selection(ctx):
    """NSGA-III: fronts of its own relation are taken whole in order, the last one sampled"""
    import importlib
    N = importlib.import_module("algorithms.NSGAIII.NSGAIII")

    ctx.need(N, "Individual", "theta_non_dominated_sort")
    n, size = ctx.p["n"], ctx.p["size"]
    with_fixed = Fit(ctx, 1, known={i: [float(i)] for i in range(n)})
    ctx.policy(random=0.5)
    d = make("NSGAIII", grid(size), unit_dims(), with_fixed.fitnesses)
    ctx.need(d, "create_final_population")
    inds = [N.Individual(v) for v in grid(n)]
    for i, x in enumerate(inds):
        x.cluster = ctx.choose("cluster", ctx.p["c"])
        x.theta_fitness = ctx.real("theta%d" % i, 0, 8)
        x.objectives = [0.0]
    d.create_final_population(N.theta_non_dominated_sort(inds))
    kept = indices(d.individuals, inds)
    ctx.check(len(kept) == size, "population-size")
    ctx.check(all(i >= 0 for i in kept) and len(set(kept)) == size, "survivors-from-pool")
    for x in range(n):
        if x in kept:
            continue
        for y in kept:
            if inds[x].cluster == inds[y].cluster:
                ctx.check(inds[x].theta_fitness >= inds[y].theta_fitness,
                          "dropped-dominates-no-survivor")


@harness(quick=[dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=1), dict(n=2), dict(n=3), dict(n=4)], path_s=6)
def nsga3_full_step(ctx):
    """NSGA-III with one objective: a whole step keeps the best of parents and offspring"""
    n = ctx.p["n"]
    fit = Fit(ctx, 1)
    ctx.policy(random=cycle([0.9, 0.2, 0.7, 0.4, 0.3]), index="first", shuffle="id")
    d = make("NSGAIII", grid(n), unit_dims(), fit.fitnesses, mutation_rate=1.0, crossover_rate=0.0)
    seen = [list(v) for v in d.population]
    d.next_step()
    for _, v in fit.calls:
        if not any(by_vec(v, s) for s in seen):
            seen.append(list(v))
    out = d.finalized_population()
    ctx.check(len(out) == n, "population-size")
    idx = indices(out, seen, by_vec)
    ctx.check(all(i >= 0 for i in idx), "survivors-from-pool")
    best = ctx.Min([fit.vec(v)[0] for v in seen])
    ctx.check(ctx.any(fit.vec(v)[0] == best for v in out), "best-survives")


@harness(quick=LONG, thorough=LONGT, path_s=60)
def long_runs(ctx):
    """a dozen steps of each algorithm: what is kept was evaluated, nothing is kept for something better, the best stays"""
    algo, n = ctx.p["algo"], ctx.p["n"]
    fit, d = long_driver(ctx)
    before, done, best = [], 0, None
    for s, m in long_run(ctx, d):
        if not s:           # some evaluate nothing, SPEA2 has no archive before the first step
            continue
        final = [list(v) for v in d.finalized_population()]
        ctx.check(len(final) == n if algo != "OMOPSO" else len(final) >= 1, "keeps-the-population-size", "%d" % len(final))
        new = [v for k, v in fit.calls[done:] if k == 0]
        done = len(fit.calls)
        pool = before + new
        ctx.check(all(tuple(v) in fit.seen for v in final), "only-evaluated-members")
        if algo in ("NSGAII", "SPEA2", "IBEA"):       # one selection per step
            ctx.check(all(v in pool for v in final), "survivors-from-pool")
            for q in pool:
                if q not in final:
                    ctx.check(ctx.Not(ctx.any(ctx.dominates(fit.vec(q), fit.vec(v)) for v in final)),
                              "nothing-discarded-for-what-it-dominates")
        if fit.m == 1 and new and algo != "OMOPSO":      # its archive trades precision for spread
            low = ctx.Min([fit.vec(v)[0] for v in new] + ([best] if best is not None else []))
            ctx.check(ctx.any(ctx.le(fit.vec(v)[0], low) for v in final), "the-best-stays")
            best = low
        before = final
