"""C02: non-dominated filtering and layering."""
from sx.harness import harness

from .common import CROWDS, CROWDST, vectors


def distinct(ctx, pts):
    for i in range(len(pts)):
        for j in range(i):
            ctx.assume(ctx.Not(ctx.same(pts[i], pts[j])))


def nd_flag(ctx, p, pts):
    return ctx.Not(ctx.any(ctx.dominates(q, p) for q in pts if q is not p))


def present(ctx, p, out):
    """p itself (or a vector equal to it) is in out"""
    return ctx.any(ctx.same(p, o) for o in out) if out else False


Q = [dict(n=1, m=2), dict(n=2, m=3), dict(n=3, m=2), dict(n=4, m=1)]
QB = Q + [dict(n=4, m=2), dict(n=3, m=3)]


def flt(ctx, name):
    from metrics import metrics, metrics_utils

    pts = vectors(ctx, ctx.p["n"], ctx.p["m"], -50, 50)
    f = {"a": lambda: metrics.filter_not_dominated,
         "b": lambda: metrics_utils.filter_not_dominated,
         "c": lambda: metrics_utils.filter_not_dominated2}[name]()
    return pts, f


@harness(quick=Q + [dict(n=4, m=2)] + CROWDS, thorough=QB + [dict(n=5, m=2), dict(n=4, m=3)] + CROWDST, share=2)
def filter_exact(ctx):
    """the filter used for metrics: exactly the non-dominated vectors, each as often as given"""
    pts, f = flt(ctx, "a")
    out = list(f(list(pts)))
    for p in pts:
        ctx.check(ctx.Iff(present(ctx, p, out), nd_flag(ctx, p, pts)), "kept-iff-non-dominated")
    for o in out:
        ctx.check(present(ctx, o, pts), "nothing-invented")
    ctx.check(ctx.Sum([ctx.If(nd_flag(ctx, p, pts), 1, 0) for p in pts]) == len(out),
              "each-as-often-as-given")
    ctx.observe("n", len(out))


@harness(quick=Q + CROWDS, thorough=QB + CROWDST)
def filter_utils_exact(ctx):
    """the same filter through its own module, on an iterator and on tuples"""
    pts, f = flt(ctx, "b")
    pts = [tuple(p) for p in pts]
    out = list(f(iter(pts)))
    for p in pts:
        ctx.check(ctx.Iff(present(ctx, p, out), nd_flag(ctx, p, pts)), "kept-iff-non-dominated")


@harness(quick=Q, thorough=QB)
def filter_all_pairs_exact(ctx):
    """the all-pairs filter: the set of non-dominated vectors, duplicates merged"""
    pts, f = flt(ctx, "c")
    distinct(ctx, pts)
    out = list(f(list(pts)))
    for p in pts:
        ctx.check(ctx.Iff(present(ctx, p, out), nd_flag(ctx, p, pts)), "kept-iff-non-dominated")
    for o in out:
        ctx.check(present(ctx, o, pts), "nothing-invented")
    ctx.check(len(out) <= len(pts), "no-extra")


@harness(quick=[dict(n=2, m=2), dict(n=3, m=2), dict(n=4, m=1), dict(n=3, m=1)] + CROWDS,
         thorough=[dict(n=2, m=3), dict(n=3, m=2), dict(n=4, m=2), dict(n=3, m=3)] + CROWDST, share=2)
def layers(ctx):
    """Pareto layers are a partition; each is the non-dominated part of what is left"""
    from evotools import ea_utils

    n, m = ctx.p["n"], ctx.p["m"]
    vecs = vectors(ctx, n, m, -50, 50)
    inds = list(range(n))
    out = [list(l) for l in ea_utils.paretofront_layers(inds, lambda i: vecs[i])]
    flat = [i for l in out for i in l]
    ctx.check(sorted(flat) == inds, "partition")
    ctx.check(all(len(l) > 0 for l in out), "no-empty-layer")
    left = list(inds)
    for l in out:
        for i in left:
            ctx.check(ctx.Iff(i in l, nd_flag(ctx, vecs[i], [vecs[j] for j in left])),
                      "layer-is-non-dominated-part")
        left = [i for i in left if i not in l]
    ctx.observe("layers", [len(l) for l in out])


@harness(quick=[dict(n=3, m=2)] + CROWDS, thorough=[dict(n=3, m=2), dict(n=4, m=2)] + CROWDST)
def ranking_order(ctx):
    """ranking lists every individual once and never an individual before one dominating it"""
    from algorithms.base import drivertools

    n, m = ctx.p["n"], ctx.p["m"]
    vecs = vectors(ctx, n, m, -50, 50)
    out = list(drivertools.rank(list(range(n)), lambda i: vecs[i]))
    ctx.check(sorted(out) == list(range(n)), "permutation")
    for a in range(n):
        for b in range(a):
            ctx.check(ctx.Not(ctx.dominates(vecs[out[a]], vecs[out[b]])), "dominating-first")


@harness(quick=[dict(n=2, m=2), dict(n=3, m=1)], thorough=[dict(n=3, m=2)])
def order_independent(ctx):
    """the filter keeps the same vectors whatever the input order"""
    pts, f = flt(ctx, "a")
    left = list(range(len(pts)))
    perm = []
    while left:
        perm.append(left.pop(ctx.choose("perm", len(left))))
    a, b = f(list(pts)), f([pts[i] for i in perm])
    for p in pts:
        ctx.check(ctx.Iff(present(ctx, p, a), present(ctx, p, b)), "same-set")
    ctx.check(len(a) == len(b), "same-number")


@harness(quick=[dict(n=2, steps=2, m=2), dict(n=1, steps=2, m=3), dict(n=5, steps=4, m=2, known=1)],
         thorough=[dict(n=3, steps=1, m=2), dict(n=2, steps=2, m=2), dict(n=2, steps=1, m=3), dict(n=2, steps=5, m=1), dict(n=9, steps=9, m=2, known=1)])
def random_search(ctx):
    """the random search: after every step its archive is the non-dominated part of all it evaluated, inside the bounds"""
    from algorithms.BOGO.BOGO import BOGO
    from .common import Fit, crowd

    n, m, steps = ctx.p["n"], ctx.p["m"], ctx.p["steps"]
    known = crowd(n + steps, m, 3, (1,)) if ctx.p.get("known") else None
    fit = Fit(ctx, m, known=known)
    start = [[-1.0 + i / 8.0, 3.0] for i in range(n)]
    ctx.policy(unit=lambda: 0.5)
    d = BOGO(population=[list(v) for v in start], dims=[(-2.0, 1.0), (3.0, 5.0)], fitnesses=fit.fitnesses,
             mutation_variance=0.0, crossover_variance=0.0)
    draws = [u for s in range(steps) for u in (ctx.real("u%d" % s, 0, 1), s / 16.0 + 0.03125)]
    ctx.policy(unit=lambda: draws.pop(0), replay=True)
    for s in range(steps + 1):
        if s:
            d.next_step()
            v = fit.calls[-1][1]
            ctx.check(ctx.And(ctx.le(-2, v[0]), ctx.le(v[0], 1), ctx.le(3, v[1]), ctx.le(v[1], 5)), "draw-inside-the-bounds")
        seen = [v for k, v in fit.calls if k == 0]
        ctx.check(d.cost == len(seen), "cost-is-what-was-evaluated")
        vecs = [[fit.values[(k, i)] for k in range(m)] for i in [fit.key_of(v) for v in seen]]
        out = [fit.key_of(v) for v in d.finalized_population()]
        for i in range(len(fit.keys)):
            x = [fit.values[(k, i)] for k in range(m)]
            free = ctx.Not(ctx.any(ctx.dominates(y, x) for y in vecs))
            ctx.check(ctx.Iff(i in out, free), "archived-iff-non-dominated")
