"""C09: generational distances."""
from sx.harness import harness


def sq_dist(a, b):
    t = 0.0
    for x, y in zip(a, b):
        t = t + (x - y) * (x - y)
    return t


def mean_sq(ctx, from_set, to_set):
    """mean squared distance to the nearest point"""
    return ctx.Sum([ctx.Min([sq_dist(a, b) for b in to_set]) for a in from_set]) / len(from_set)


def copies(ps):
    return [list(p) for p in ps]


def unchanged(ctx, ps, qs):
    ctx.check(len(ps) == len(qs) and ctx.all(ctx.same(a, b) for a, b in zip(ps, qs)), "arguments-unchanged")


SETS = [dict(s=1, nd=1, p=1, m=3), dict(s=2, nd=1, p=1, m=2), dict(s=2, nd=2, p=2, m=1), dict(s=1, nd=1, p=3, m=1),
        dict(s=2, nd=1, p=2, m=2)]
SETST = SETS + [dict(s=2, nd=2, p=2, m=2), dict(s=3, nd=2, p=3, m=1), dict(s=2, nd=2, p=2, m=3), dict(s=3, nd=3, p=3, m=2)]


def args(ctx):
    p = ctx.p
    return (ctx.points("s", p["s"], p["m"], -4, 4), ctx.points("nd", p["nd"], p["m"], -4, 4),
            ctx.points("par", p["p"], p["m"], -4, 4))


@harness(quick=SETS, thorough=SETST, path_s=60, query_ms=15000)
def generational(ctx):
    """GD: root mean square distance of the non-dominated solutions to the reference"""
    from metrics import metrics
    s, nd, par = args(ctx)
    keep = copies(s), copies(nd), copies(par)
    g = metrics.generational_distance(s, nd, par)
    ctx.check(g >= 0, "non-negative")
    ctx.check(ctx.sqrt_eq(g, mean_sq(ctx, nd, par)), "definition")
    for a, b in zip((s, nd, par), keep):
        unchanged(ctx, a, b)


@harness(quick=SETS, thorough=SETST, path_s=60, query_ms=15000)
def inverse(ctx):
    """IGD: root mean square distance of the reference to the whole solution set"""
    from metrics import metrics
    s, nd, par = args(ctx)
    keep = copies(s), copies(nd), copies(par)
    g = metrics.inverse_generational_distance(s, nd, par)
    ctx.check(g >= 0, "non-negative")
    ctx.check(ctx.sqrt_eq(g, mean_sq(ctx, par, s)), "definition")
    for a, b in zip((s, nd, par), keep):
        unchanged(ctx, a, b)


@harness(quick=SETS[:4], thorough=SETST, path_s=60, query_ms=15000)
def hausdorff(ctx):
    """AHD: the larger of the two"""
    from metrics import metrics
    s, nd, par = args(ctx)
    g = metrics.average_hausdorff_distance(s, nd, par)
    a, b = mean_sq(ctx, nd, par), mean_sq(ctx, par, s)
    ctx.check(g >= 0, "non-negative")
    ctx.check(ctx.sqrt_eq(g, ctx.If(a >= b, a, b)), "larger-of-both")


@harness(quick=[dict(s=2, nd=1, p=2, m=1), dict(s=1, nd=2, p=2, m=1), dict(s=2, nd=2, p=1, m=2)], thorough=[dict(s=3, nd=3, p=2, m=1), dict(s=2, nd=2, p=2, m=2)],
         path_s=60, query_ms=15000)
def zero_and_order(ctx):
    """zero exactly for coinciding sets; the same in reverse order"""
    from metrics import metrics
    s, nd, par = args(ctx)
    g = metrics.generational_distance(s, nd, par)
    i = metrics.inverse_generational_distance(s, nd, par)
    ctx.check(ctx.Implies(ctx.all(ctx.any(ctx.same(a, b) for b in par) for a in nd), g <= 1e-9), "zero-when-on-reference")
    ctx.check(ctx.Implies(ctx.all(ctx.any(ctx.same(a, b) for b in s) for a in par), i <= 1e-9), "zero-when-covered")
    apart = ctx.any(ctx.all(sq_dist(a, b) >= 0.25 for b in par) for a in nd)
    ctx.check(ctx.Implies(apart, g >= 0.1), "positive-when-away")
    g2 = metrics.generational_distance(s[::-1], nd[::-1], par[::-1])
    i2 = metrics.inverse_generational_distance(s[::-1], nd[::-1], par[::-1])
    ctx.check(ctx.sqrt_eq(g2, g * g), "order-independent")
    ctx.check(ctx.sqrt_eq(i2, i * i), "order-independent")


@harness(quick=[dict(s=12, p=20, m=2, at=5), dict(s=9, p=25, m=3, at=2), dict(s=5, p=7, m=5, at=3)],
         thorough=[dict(s=30, p=60, m=2, at=11), dict(s=20, p=40, m=3, at=0), dict(s=15, p=30, m=4, at=14)], path_s=90, query_ms=20000)
def crowd(ctx):
    """many solutions and reference points, a coordinate of one of each anywhere"""
    from metrics import metrics
    from .common import cloud, freed
    p = ctx.p
    sol = freed(ctx, cloud(p["s"], p["m"], 1), [(p["at"], 0)] if p.get("side", 0) == 0 else [])
    par = cloud(p["p"], p["m"], 2)
    nd = sol[1:]
    a, b = mean_sq(ctx, nd, par), mean_sq(ctx, par, sol)
    ctx.check(ctx.sqrt_eq(metrics.generational_distance(sol, nd, par), a), "definition")
    ctx.check(ctx.sqrt_eq(metrics.inverse_generational_distance(sol, nd, par), b), "definition")
    ctx.check(ctx.sqrt_eq(metrics.average_hausdorff_distance(sol, nd, par), ctx.If(a >= b, a, b)), "larger-of-both")
