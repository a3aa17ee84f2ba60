"""C10: epsilon, extent, spacing, non-domination ratio, dominance indicator."""
from sx.harness import harness

from .c09 import copies, unchanged


def absolute(ctx, x):
    return ctx.If(x >= 0, x, -x)


def ref_epsilon(ctx, sol, par):
    return ctx.Max([ctx.Min([ctx.Max([p[k] - s[k] for k in range(len(s))]) for p in par]) for s in sol])


def ref_extent_sq(ctx, sol):
    return ctx.Sum([ctx.Max([s[k] for s in sol]) - ctx.Min([s[k] for s in sol]) for k in range(len(sol[0]))])


def ref_spacing_sq(ctx, sol):
    n = len(sol)
    if n < 2:
        return 0.0
    near = [ctx.Min([ctx.Sum([absolute(ctx, a - b) for a, b in zip(sol[i], sol[j])]) for j in range(n) if j != i])
            for i in range(n)]
    mean = ctx.Sum(near) / n
    return ctx.Sum([(mean - d) * (mean - d) for d in near]) / (n - 1)


EPS = [dict(s=1, p=1, m=1), dict(s=2, p=1, m=2), dict(s=1, p=3, m=2), dict(s=3, p=1, m=1), dict(s=2, p=2, m=2)]


@harness(quick=EPS, thorough=EPS + [dict(s=3, p=2, m=2), dict(s=2, p=2, m=3), dict(s=2, p=3, m=2)], path_s=60)
def epsilon(ctx):
    """largest over solutions of smallest over reference points of largest coordinate excess"""
    from metrics import metrics
    s, p, m = ctx.p["s"], ctx.p["p"], ctx.p["m"]
    sol, par = ctx.points("s", s, m, -8, 8), ctx.points("p", p, m, -8, 8)
    keep = copies(sol), copies(par)
    got = metrics.epsilon([[0.0] * m], sol, par)
    ctx.check(ctx.close(got, ref_epsilon(ctx, sol, par), 1e-6), "definition")
    unchanged(ctx, sol, keep[0])
    unchanged(ctx, par, keep[1])


@harness(quick=[dict(a=1, b=2), dict(a=2, b=1), dict(a=2, b=3)], thorough=[dict(a=3, b=1), dict(a=1, b=3), dict(a=3, b=3)])
def epsilon_repeated(ctx):
    """successive calls in different dimensions do not influence one another"""
    from metrics import metrics
    s1, p1 = ctx.points("s", 1, ctx.p["a"], -8, 8), ctx.points("p", 2, ctx.p["a"], -8, 8)
    s2, p2 = ctx.points("t", 1, ctx.p["b"], -8, 8), ctx.points("q", 2, ctx.p["b"], -8, 8)
    metrics.epsilon(s1, s1, p1)
    got = metrics.epsilon(s2, s2, p2)
    ctx.check(ctx.close(got, ref_epsilon(ctx, s2, p2), 1e-6), "definition")
    again = metrics.epsilon(s1, s1, p1)
    ctx.check(ctx.close(again, ref_epsilon(ctx, s1, p1), 1e-6), "definition")


@harness(quick=[dict(n=1, m=2), dict(n=2, m=1), dict(n=2, m=2), dict(n=3, m=1), dict(n=3, m=2), dict(n=2, m=3)],
         thorough=[dict(n=4, m=2), dict(n=3, m=3), dict(n=5, m=1)], path_s=60, query_ms=15000)
def extent(ctx):
    """square root of the summed per-objective ranges of the whole solution set"""
    from metrics import metrics
    n, m = ctx.p["n"], ctx.p["m"]
    sol = ctx.points("s", n, m, -8, 8)
    keep = copies(sol)
    got = metrics.extent(sol, [sol[0]], [[0.0] * m])
    ctx.check(got >= 0, "non-negative")
    ctx.check(ctx.sqrt_eq(got, ref_extent_sq(ctx, sol)), "definition")
    unchanged(ctx, sol, keep)


@harness(quick=[dict(n=1, m=2), dict(n=2, m=1), dict(n=2, m=2), dict(n=3, m=1)],
         thorough=[dict(n=3, m=1), dict(n=3, m=2), dict(n=2, m=3)], path_s=60, query_ms=20000)
def spacing(ctx):
    """sample standard deviation of the city-block distances to the nearest other solution"""
    from metrics import metrics
    n, m = ctx.p["n"], ctx.p["m"]
    sol = ctx.points("s", n, m, -4, 4)
    keep = copies(sol)
    got = metrics.spacing([[0.0] * m] * 5, sol, [[0.0] * m])
    ctx.check(got >= 0, "non-negative")
    ctx.check(ctx.sqrt_eq(got, ref_spacing_sq(ctx, sol)), "definition")
    unchanged(ctx, sol, keep)


@harness(quick=[dict(n=1, m=1), dict(n=3, m=1), dict(n=2, m=2), dict(n=3, m=2)], thorough=[dict(n=4, m=2), dict(n=3, m=3)])
def non_domination_ratio(ctx):
    """share of the solutions that no other one dominates"""
    from metrics import metrics
    n, m = ctx.p["n"], ctx.p["m"]
    sol = ctx.points("s", n, m, -8, 8)
    nd = metrics.filter_not_dominated(sol)
    got = metrics.non_domination_ratio(sol, nd, [[0.0] * m])
    count = ctx.Sum([ctx.If(ctx.any(ctx.dominates(q, p) for q in sol), 0, 1) for p in sol])
    ctx.check(ctx.close(got * n, count, 1e-6), "definition")
    ctx.check(ctx.And(got > 0, got <= 1), "in-unit-interval")


@harness(quick=[dict(n=1, k=1, m=1), dict(n=2, k=1, m=1), dict(n=2, k=2, m=1), dict(n=2, k=1, m=2)],
         thorough=[dict(n=2, k=2, m=2), dict(n=3, k=2, m=1), dict(n=3, k=1, m=2), dict(n=3, k=3, m=1)])
def dominance_indicator(ctx):
    """share of the common front that comes from the set, as computed for stored results"""
    from metrics import metrics, metrics_utils
    n, k, m = ctx.p["n"], ctx.p["k"], ctx.p["m"]
    sol, other = ctx.points("s", n, m, -8, 8), ctx.points("o", k, m, -8, 8)
    nd = metrics.filter_not_dominated(sol)
    union = {tuple(x) for x in sol + other}
    front = metrics_utils.filter_not_dominated2(union)
    got = metrics.pareto_dominance_indicator(sol, nd, front)
    everything = sol + other
    tops = [ctx.Not(ctx.any(ctx.dominates(q, p) for q in everything)) for p in everything]
    first = [ctx.Not(ctx.any(ctx.same(q, everything[i]) for q in everything[:i])) for i in range(len(everything))]
    # distinct common front size; contributed: members of the set that are on it
    size = ctx.Sum([ctx.If(ctx.And(tops[i], first[i]), 1, 0) for i in range(len(everything))])
    given = ctx.Sum([ctx.If(tops[i], 1, 0) for i in range(n)])
    ctx.check(ctx.close(got * size, given, 1e-6), "definition")


@harness(quick=[dict(n=2, m=2), dict(n=2, m=1)], thorough=[dict(n=2, m=3)], path_s=60, query_ms=20000)
def order_independent(ctx):
    """reversing the points changes no metric"""
    from metrics import metrics
    n, m = ctx.p["n"], ctx.p["m"]
    sol, par = ctx.points("s", n, m, -4, 4), ctx.points("p", 2, m, -4, 4)
    r, q = sol[::-1], par[::-1]
    ctx.check(ctx.close(metrics.epsilon(sol, sol, par), metrics.epsilon(r, r, q), 1e-6), "epsilon")
    a, b = metrics.extent(sol, sol, par), metrics.extent(r, r, q)
    ctx.check(ctx.close(a * a, b * b, 1e-6), "extent")
    a, b = metrics.spacing(sol, sol, par), metrics.spacing(r, r, q)
    ctx.check(ctx.close(a * a, b * b, 1e-6), "spacing")
    ctx.check(len(metrics.filter_not_dominated(sol)) == len(metrics.filter_not_dominated(r)), "ratio")


@harness(quick=[dict(n=12, p=20, m=2, at=5), dict(n=9, p=25, m=3, at=2), dict(n=6, p=7, m=5, at=3)],
         thorough=[dict(n=30, p=60, m=2, at=11), dict(n=20, p=40, m=3, at=0), dict(n=15, p=30, m=4, at=14)], path_s=90, query_ms=20000)
def crowd(ctx):
    """many solutions and reference points, two coordinates of one of the solutions anywhere"""
    from metrics import metrics
    from .common import cloud, freed
    n, m = ctx.p["n"], ctx.p["m"]
    sol = freed(ctx, cloud(n, m, 3), [(ctx.p["at"], 0), (ctx.p["at"], 1)])
    par = cloud(ctx.p["p"], m, 4)
    keep = copies(sol), copies(par)
    ctx.check(ctx.close(metrics.epsilon([[0.0] * m], sol, par), ref_epsilon(ctx, sol, par), 1e-6), "epsilon")
    ctx.check(ctx.sqrt_eq(metrics.extent(sol, [sol[0]], par), ref_extent_sq(ctx, sol)), "extent")
    nd = metrics.filter_not_dominated(sol)
    count = ctx.Sum([ctx.If(ctx.any(ctx.dominates(q, p) for q in sol), 0, 1) for p in sol])
    ctx.check(ctx.close(metrics.non_domination_ratio(sol, nd, par) * n, count, 1e-6), "ratio")
    unchanged(ctx, sol, keep[0])
    unchanged(ctx, par, keep[1])


@harness(quick=[dict(n=10, m=2, at=5), dict(n=8, m=3, at=2), dict(n=6, m=5, at=2)],
         thorough=[dict(n=20, m=2, at=11), dict(n=15, m=3, at=0)], path_s=90, query_ms=20000)
def spacing_crowd(ctx):
    """many solutions, a coordinate of one of them anywhere"""
    from metrics import metrics
    from .common import cloud, freed
    sol = freed(ctx, cloud(ctx.p["n"], ctx.p["m"], 5), [(ctx.p["at"], 0)])
    got = metrics.spacing(sol[1:], sol, sol)
    ctx.check(ctx.sqrt_eq(got, ref_spacing_sq(ctx, sol)), "definition")


def sq_dist(a, b):
    return sum((x - y) * (x - y) for x, y in zip(a, b))


@harness(quick=[dict(n=1, m=1), dict(n=2, m=2), dict(n=3, m=1)], thorough=[dict(n=3, m=2), dict(n=4, m=1), dict(n=2, m=3)],
         path_s=60, query_ms=15000)
def distribution(ctx):
    """share of the ordered pairs of solutions farther apart than the radius"""
    from metrics import metrics_utils
    ctx.need(metrics_utils, "distribution")
    n, m = ctx.p["n"], ctx.p["m"]
    sol = ctx.points("s", n, m, -4, 4)
    sigma = ctx.real("sigma", 0.01, 3)
    for i in range(n):
        for j in range(i):
            if m == 1:
                d = sol[i][0] - sol[j][0]
                ctx.assume(ctx.And(*[ctx.Or(e - sigma >= 1e-3, e - sigma <= -1e-3) for e in (d, -d)]))
                continue
            d = sq_dist(sol[i], sol[j]) - sigma * sigma
            ctx.assume(ctx.Or(d >= 1e-3, d <= -1e-3))
    got = metrics_utils.distribution(sol, sigma)
    if n == 1:
        return ctx.check(got == float("inf"), "no-pairs")
    apart = [[ctx.Or(a[0] - b[0] > sigma, b[0] - a[0] > sigma) if m == 1 else sq_dist(a, b) > sigma * sigma
              for b in sol] for a in sol]
    far = ctx.Sum([ctx.If(apart[i][j], 1, 0) for i, a in enumerate(sol) for j, b in enumerate(sol) if i != j])
    ctx.check(ctx.close(got * (n * (n - 1)), far, 1e-6), "definition")


@harness(quick=[dict(n=1, k=1, m=2), dict(n=1, k=2, m=2)],
         thorough=[dict(n=1, k=3, m=2), dict(n=1, k=2, m=3)], path_s=60, query_ms=15000)
def distance_from_front(ctx):
    """one solution: the distance to its nearest reference point"""
    from metrics import metrics_utils
    ctx.need(metrics_utils, "distance_from_pareto")
    n, k, m = ctx.p["n"], ctx.p["k"], ctx.p["m"]
    sol, par = ctx.points("s", n, m, -4, 4), ctx.points("p", k, m, -4, 4)
    got = metrics_utils.distance_from_pareto(sol, par)
    near = [ctx.Min([sq_dist(a, b) for b in par]) for a in sol]
    ctx.check(ctx.sqrt_eq(got, near[0]), "definition")


@harness(quick=[dict(k=1), dict(k=2)], thorough=[dict(k=3)], path_s=60, query_ms=15000)
def distance_averaged(ctx):
    """a second solution half a unit from the reference: counted alike"""
    from metrics import metrics_utils
    ctx.need(metrics_utils, "distance_from_pareto")
    par = [[0.0, 0.0], [2.0, 1.0], [1.0, -3.0]][:ctx.p["k"]]
    s = ctx.reals("s", 2, -4, 4)
    got = metrics_utils.distance_from_pareto([s, [0.0, 0.5]], par)
    ctx.check(ctx.sqrt_eq(2 * got - 0.5, ctx.Min([sq_dist(s, b) for b in par]), 1e-5), "definition")
