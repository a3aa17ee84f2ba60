"""C05: generated vectors stay inside the declared bounds."""
from sx.harness import harness

from .common import BASE, LONG, LONG_DIMS, LONGT, driver_class, long_driver, long_run, make


def bounds(ctx, d):
    """symbolic, possibly negative and asymmetric ranges"""
    res = []
    for i in range(d):
        lo = ctx.real("lo", -8, 8)
        hi = ctx.real("hi", -8, 8)
        ctx.assume(hi - lo >= 0.25)
        res.append((lo, hi))
    return res


ASYM = [(-3.0, 1.0), (2.0, 2.5), (0.0, 8.0)]


def inside(ctx, d, dims, name="x"):
    v = [ctx.real(name + str(i), -8, 8) for i in range(d)]
    for x, (lo, hi) in zip(v, dims):
        ctx.assume(ctx.And(x >= lo, x <= hi))
    return v


def in_bounds(ctx, v, dims, label="in-bounds", tol=0):
    ctx.check(len(v) == len(dims), "right-dimension")
    for x, (lo, hi) in zip(v, dims):
        if tol:
            ctx.check(ctx.And(ctx.le(lo, x, tol), ctx.le(x, hi, tol)), label)
        else:
            ctx.check(ctx.And(x >= lo, x <= hi), label)


OPS = [dict(d=1, eta=0.0), dict(d=2, eta=0.0), dict(d=1, eta=1.0), dict(d=1, eta=20.0)]
OPST = OPS + [dict(d=2, eta=1.0), dict(d=3, eta=0.0), dict(d=2, eta=20.0)]


@harness(quick=OPS, thorough=OPST, path_s=60)
def mutation(ctx):
    """shared polynomial mutation: any parent, range, rate and draws"""
    from algorithms.base import drivertools

    d = ctx.p["d"]
    dims = bounds(ctx, d)
    x = inside(ctx, d, dims)
    keep = list(x)
    out = drivertools.mutate(x, dims, ctx.real("rate", 0, 1), ctx.p["eta"])
    in_bounds(ctx, out, dims)
    ctx.check(ctx.same(x, keep), "parent-unchanged")


@harness(quick=OPS[:1] + [dict(d=1, eta=20.0)], thorough=OPST, path_s=60, query_ms=15000)
def recombination(ctx):
    """shared simulated binary crossover: any parents, range, rate and draws"""
    from algorithms.base import drivertools

    d = ctx.p["d"]
    dims = bounds(ctx, d)
    x, y = inside(ctx, d, dims, "x"), inside(ctx, d, dims, "y")
    kx, ky = list(x), list(y)
    out = drivertools.crossover(x, y, dims, ctx.real("rate", 0, 1), ctx.p["eta"])
    in_bounds(ctx, out, dims)
    ctx.check(ctx.And(ctx.same(x, kx), ctx.same(y, ky)), "parents-unchanged")


@harness(quick=OPS[:1] + [dict(d=1, eta=20.0)], thorough=OPST, path_s=60, query_ms=15000)
def nsga3_operators(ctx):
    """NSGA-III crossover and mutation"""
    import importlib
    N = importlib.import_module("algorithms.NSGAIII.NSGAIII")

    ctx.need(N, "Individual", "simulated_binary_crossover", "polynomial_mutation")
    d = ctx.p["d"]
    dims = bounds(ctx, d)
    a, b = N.Individual(inside(ctx, d, dims, "x")), N.Individual(inside(ctx, d, dims, "y"))
    a.objectives, b.objectives = [0.0], [1.0]
    ka, kb = list(a.v), list(b.v)
    if ctx.choose("op", 2):
        for c in N.simulated_binary_crossover(a, b, dims, ctx.real("rate", 0, 1), ctx.p["eta"]):
            in_bounds(ctx, c.v, dims)
        ctx.check(ctx.And(ctx.same(a.v, ka), ctx.same(b.v, kb)), "parents-unchanged")
    else:
        N.polynomial_mutation(a, dims, ctx.real("rate", 0, 1), ctx.p["eta"])
        in_bounds(ctx, a.v, dims)


@harness(quick=[dict(n=0, d=1), dict(n=2, d=1), dict(n=2, d=3)], thorough=[dict(n=3, d=3)])
def initial_population(ctx):
    """random initial population"""
    from evotools import ea_utils

    dims = bounds(ctx, ctx.p["d"])
    pop = list(ea_utils.gen_population(ctx.p["n"], dims))
    ctx.check(len(pop) == ctx.p["n"], "count")
    for v in pop:
        in_bounds(ctx, v, dims)


@harness(quick=[dict(n=1, d=1), dict(n=3, d=1)], thorough=[dict(n=3, d=2)])
def sprout_population(ctx):
    """populations grown around a delegate"""
    from algorithms.HGS import tools

    d = ctx.p["d"]
    dims = bounds(ctx, d)
    x = inside(ctx, d, dims)
    pop = tools.population_from_delegate(x, ctx.p["n"], dims, ctx.real("rate", 0, 1), 0.0)
    ctx.check(len(pop) == ctx.p["n"], "count")
    ctx.check(ctx.same(pop[0], x), "delegate-first")
    ctx.check(all(v is not x for v in pop), "delegate-not-aliased")
    for v in pop:
        in_bounds(ctx, v, dims)


def swarm(ctx, n, d, dims):
    fits = [lambda v: 1.0, lambda v: 2.0]
    pop = [inside(ctx, d, dims, "p%d_" % i) for i in range(n)]
    return make("OMOPSO", pop, dims, fits)


@harness(quick=[dict(n=1, d=2), dict(n=2, d=1)], thorough=[dict(n=2, d=2), dict(n=1, d=3)])
def particle_moves(ctx):
    """a move with any speed ends inside the range; a particle that left it is turned round"""
    n, d = ctx.p["n"], ctx.p["d"]
    dims = bounds(ctx, d)
    s = swarm(ctx, n, d, dims)
    ctx.need(s, "move")
    before = []
    for i, p in enumerate(s.individuals):
        p.speed = ctx.reals("speed%d_" % i, d, -30, 30)
        before.append((list(p.value), list(p.speed)))
    s.move()
    for p, (v, sp) in zip(s.individuals, before):
        in_bounds(ctx, p.value, dims)
        for i in range(d):
            ok = ctx.And(v[i] + sp[i] >= dims[i][0], v[i] + sp[i] <= dims[i][1])
            ctx.check(ctx.If(ok, p.value[i] == v[i] + sp[i], p.speed[i] == -sp[i]), "free-or-reflected")


@harness(quick=[dict(d=1, kind=0), dict(d=2, kind=0), dict(d=1, kind=1), dict(d=2, kind=1)],
         thorough=[dict(d=3, kind=0), dict(d=3, kind=1)])
def swarm_mutations(ctx):
    """uniform and non-uniform particle mutation"""
    import importlib
    O = importlib.import_module("algorithms.OMOPSO.OMOPSO")

    ctx.need(O, "UniformMutation", "NonUniformMutation", "Individual")
    d = ctx.p["d"]
    dims = bounds(ctx, d)
    p = O.Individual(inside(ctx, d, dims))
    if ctx.p["kind"] == 0:
        mut = O.UniformMutation(0.5, ctx.real("pert", 0, 20), dims)
    else:
        mut = O.NonUniformMutation(ctx.real("progress", 0.01, 1), 0.5, 0.5, dims)
    mut(p)
    in_bounds(ctx, p.value, dims)


@harness(quick=[dict(d=1), dict(d=2), dict(d=3)], thorough=[dict(d=3), dict(d=4)])
def jumping_genes(ctx):
    """both transposition operators for every cut and paste position"""
    d = ctx.p["d"]
    dims = [ASYM[i % 3] for i in range(d)]
    J = make("JGBL", [[lo for lo, hi in dims]], dims, [lambda v: 0.0], jumping_percentage=0.5)
    ctx.need(J, "cut_and_paste")
    ctx.need(J, "copy_and_paste")
    x, y = inside(ctx, d, dims, "x"), inside(ctx, d, dims, "y")
    kx, ky = list(x), list(y)
    for f in (J.cut_and_paste, J.copy_and_paste):
        if ctx.choose("op", 2):
            break
    for v in f(x, y):
        in_bounds(ctx, v, dims, tol=1e-9)
    ctx.check(ctx.And(ctx.same(x, kx), ctx.same(y, ky)), "parents-unchanged")


def counting(ctx, dims, m, seen, tol):
    """objectives with arbitrary fixed values that check every vector they are given"""
    no = [0]
    table = [3.0, 1.0, 2.0, 0.5, 2.5, 1.5, 0.25, 2.75]

    def mk(k):
        def objective(v):
            in_bounds(ctx, v, dims, "evaluated-in-bounds", tol)
            no[0] += 1
            return table[(no[0] + 3 * k) % len(table)]
        return objective
    return [mk(k) for k in range(m)]


STEPS = {
    "NSGAII": dict(n=2, steps=1), "JGBL": dict(n=2, steps=1), "NSGAIII": dict(n=2, steps=1),
    "SPEA2": dict(n=2, steps=2), "IBEA": dict(n=2, steps=1), "SMSEMOA": dict(n=2, steps=1),
    "OMOPSO": dict(n=2, steps=1), "NSLS": dict(n=2, steps=1),
}


@harness(quick=[dict(algo=a, d=1) for a in sorted(STEPS)],
         thorough=[dict(algo=a, d=d) for a in sorted(STEPS) for d in (1, 2)], path_s=60, share=2)
def whole_steps(ctx):
    """construction and steps of every algorithm: all evaluated and reported vectors are in range"""
    a = ctx.p["algo"]
    st = STEPS[a]
    d = ctx.p["d"]
    dims = [(-3.0, 1.0), (2.0, 2.5)][:d]
    ctx.policy(index="first")
    pop = [inside(ctx, d, dims, "p%d_" % i) for i in range(st["n"])]
    m = 1 if a == "NSGAIII" else 2
    s = make(a, pop, dims, counting(ctx, dims, m, [], 1e-9), mutation_rate=1.0, crossover_rate=0.75)
    for _ in range(st["steps"]):
        s.next_step()
    for v in list(s.population) + list(s.finalized_population()):
        in_bounds(ctx, v, dims, "reported-in-bounds", 1e-9)
    ctx.check(True, "ran")


@harness(quick=LONG, thorough=LONGT, path_s=60)
def long_runs(ctx):
    """a dozen steps of each algorithm: everything evaluated, kept or handed out stays in range and has all variables"""
    fit, d = long_driver(ctx)
    for s, m in long_run(ctx, d):
        vs = [v for k, v in fit.calls] + list(d.population) + list(d.finalized_population())
        ctx.check(all(len(v) == len(LONG_DIMS) for v in vs), "all-variables")
        ctx.check(all(lo - 1e-9 <= x <= hi + 1e-9 for v in vs for x, (lo, hi) in zip(v, LONG_DIMS)), "in-bounds")
        del fit.calls[:]
