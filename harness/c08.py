"""C08: hypervolume is the volume of the union of boxes."""
import itertools

from sx.harness import harness


def union_volume(ctx, pts, ref):
    """Volume between the points and ref, by decomposition into the cells of their grid."""
    m = len(ref)
    pts = [p for p in pts if all(bool(p[k] <= ref[k]) for k in range(m))]
    if not pts:
        return 0.0
    axes = []
    for k in range(m):
        axis = []
        for x in sorted([p[k] for p in pts]):
            if not axis or bool(axis[-1] < x):
                axis.append(x)
        axes.append(axis + [ref[k]])
    total = 0.0
    for cell in itertools.product(*[range(len(a) - 1) for a in axes]):
        low = [axes[k][i] for k, i in enumerate(cell)]
        if any(all(bool(p[k] <= low[k]) for k in range(m)) for p in pts):
            v = 1.0
            for k, i in enumerate(cell):
                v = v * (axes[k][i + 1] - axes[k][i])
            total = total + v
    return total


def calculator(ctx, ref):
    from algorithms.base import hv
    ctx.need(hv, "HyperVolume")
    return hv.HyperVolume(ref)


REFS = {"two": 2.0, "zero": 0.0, "five": 5.0}


@harness(quick=[dict(n=0, m=2, ref="two"), dict(n=1, m=1, ref="two"), dict(n=2, m=1, ref="zero"),
                dict(n=1, m=3, ref="two"), dict(n=2, m=2, ref="two"), dict(n=3, m=2, ref="two"),
                dict(n=3, m=2, ref="zero"), dict(n=2, m=3, ref="zero"), dict(n=2, m=3, ref="five"),
                dict(n=2, m=4, ref="five"), dict(n=3, m=3, ref="five")],
         thorough=[dict(n=4, m=2, ref="two"), dict(n=3, m=3, ref="zero"), dict(n=3, m=3, ref="five"),
                   dict(n=3, m=4, ref="five"), dict(n=2, m=5, ref="five")], path_s=90, share=2)
def volume(ctx):
    """any points, ties and duplicates included; with 'five' every point is inside the reference box"""
    n, m = ctx.p["n"], ctx.p["m"]
    r = REFS[ctx.p["ref"]]
    ref = [r] * m
    pts = ctx.points("p", n, m, -4, 4)
    got = calculator(ctx, list(ref)).compute([list(p) for p in pts])
    ctx.check(ctx.close(got, union_volume(ctx, pts, ref), 1e-6), "exact-volume")


@harness(quick=[dict(n=4, m=2), dict(n=3, m=4), dict(n=4, m=3)], thorough=[dict(n=5, m=2), dict(n=4, m=4, limit=1)],
         path_s=90, share=3)
def volume_larger(ctx):
    """more points, listed with the last objective strictly increasing"""
    n, m = ctx.p["n"], ctx.p["m"]
    pts = ctx.points("p", n, m, -4, 4)
    for a, b in zip(pts, pts[1:]):
        ctx.assume(a[m - 1] < b[m - 1])
        if "limit" in ctx.p:
            ctx.assume(a[m - 2] > b[m - 2])
    got = calculator(ctx, [5.0] * m).compute([list(p) for p in pts])
    ctx.check(ctx.close(got, union_volume(ctx, pts, [5.0] * m), 1e-6), "exact-volume")


@harness(quick=[dict(n=3, last=0, third=2), dict(n=4, last=0, third=3), dict(n=4, last=1, third=3)],
         thorough=[dict(n=3, last=0, third=3), dict(n=4, last=2, third=4), dict(n=5, last=0, third=3)],
         path_s=120, share=2)
def volume_deep(ctx):
    """four objectives, the last two on a few levels with ties (every assignment), the first any common order"""
    n = ctx.p["n"]
    tie = ctx.p["last"]
    xs, ys = ctx.reals("x", n, -4, 4), ctx.reals("y", n, -4, 4)
    for a, b in zip(xs, xs[1:]):
        ctx.assume(a < b)
    for a, b in zip(ys, ys[1:]):
        ctx.assume(a > b)
    third = [float(ctx.choose("third", ctx.p["third"])) for _ in range(n)]
    last = [float(ctx.choose("last", 2)) if tie == 0 else float((i * 2 + 1) % (n + 1)) if tie == 1 else
            float(ctx.choose("last", 3)) for i in range(n)]
    pts = [[x, y, t, l] for x, y, t, l in zip(xs, ys, third, last)]
    got = calculator(ctx, [5.0] * 4).compute([list(p) for p in pts])
    ctx.check(ctx.close(got, union_volume(ctx, pts, [5.0] * 4), 1e-6), "exact-volume")


@harness(quick=[dict(n=16, m=2, free=((7, 0), (3, 1))), dict(n=9, m=3, free=((4, 2),)), dict(n=9, m=3, free=((2, 0),)),
                dict(n=8, m=4, free=((5, 3),)), dict(n=8, m=4, free=((1, 2),)), dict(n=8, m=4, free=((6, 1),), salt=2), dict(n=5, m=5, free=((2, 3),))],
         thorough=[dict(n=30, m=2, free=((7, 0), (3, 1))), dict(n=12, m=3, free=((4, 2), (5, 0))), dict(n=9, m=4, free=((5, 3), (2, 2))),
                   dict(n=9, m=4, free=((8, 0),)), dict(n=6, m=5, free=((2, 3),)), dict(n=6, m=5, free=((1, 4),)), dict(n=9, m=4, free=((1, 3),), salt=3)],
         path_s=90)
def volume_crowd(ctx):
    """many points, most of them fixed, a coordinate or two of them anywhere (beyond the reference too)"""
    from .common import cloud, freed
    n, m = ctx.p["n"], ctx.p["m"]
    pts = freed(ctx, cloud(n, m, ctx.p.get("salt", 0)), ctx.p["free"], -5, 5)
    ref = [3.5] * m
    got = calculator(ctx, list(ref)).compute([list(p) for p in pts])
    ctx.check(ctx.close(got, union_volume(ctx, pts, ref), 1e-6), "exact-volume")


@harness(quick=[dict(n=2, m=2), dict(n=1, m=3)], thorough=[dict(n=3, m=2), dict(n=2, m=3)], path_s=90)
def metric(ctx):
    """the metric: the volume for the fixed reference corner, independent of the other arguments"""
    from metrics import metrics

    n, m = ctx.p["n"], ctx.p["m"]
    pts = ctx.points("p", n, m, 40, 60)
    got = metrics.hypervolume([[0.0] * m], [list(p) for p in pts], [[1.0] * m, [2.0] * m])
    ctx.check(ctx.close(got, union_volume(ctx, pts, [50.0] * m), 1e-6), "exact-volume")


@harness(quick=[dict(n=2, m=2), dict(n=1, m=3)], thorough=[dict(n=3, m=2), dict(n=2, m=3)], path_s=90)
def repeated(ctx):
    """one calculator used again gives the same answer; its inputs stay as they were"""
    n, m = ctx.p["n"], ctx.p["m"]
    pts = ctx.points("p", n, m, -4, 4)
    ref = [1.0] * m
    h = calculator(ctx, ref)
    a = h.compute(pts)
    other = h.compute([[0.0] * m])
    b = h.compute(list(reversed(pts)))
    ctx.check(ctx.close(a, b, 1e-6), "same-again-in-any-order")
    ctx.check(ctx.close(other, 1.0, 1e-6), "unit-cube")
    ctx.check(ref == [1.0] * m, "reference-unchanged")


@harness(quick=[dict(n=3, m=2)], thorough=[dict(n=3, m=3)], path_s=90, share=2)
def contributions(ctx):
    """SMS-EMOA contributions: volume lost without the member"""
    from .common import Fit, grid, make, unit_dims

    n, m = ctx.p["n"], ctx.p["m"]
    fit = Fit(ctx, m, -4, 4)
    d = make("SMSEMOA", grid(n), unit_dims(), fit.fitnesses, reference_point=[5.0] * m)
    ctx.need(d, "calculate_hypervolume_contribution")
    objs = [fit.vec(v) for v in grid(n)]
    res = d.calculate_hypervolume_contribution(list(d.individuals))
    whole = union_volume(ctx, objs, [5.0] * m)
    for i, (ind, c) in enumerate(res):
        ctx.check(ind is d.individuals[i], "same-order")
        ctx.check(ctx.close(c, whole - union_volume(ctx, objs[:i] + objs[i + 1:], [5.0] * m), 1e-6),
                  "contribution")
