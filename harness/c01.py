"""C01: the dominance relation every algorithm relies on."""
from sx.harness import harness

SIZES = [dict(m=1), dict(m=2), dict(m=3), dict(m=5)]
BIG = SIZES + [dict(m=4), dict(m=7)]


def vectors(ctx, m):
    return ctx.reals("a", m, -100, 100), ctx.reals("b", m, -100, 100)


@harness(quick=SIZES, thorough=BIG)
def shared_relation(ctx):
    """the comparison shared by all algorithms equals the definition, both directions"""
    from evotools import ea_utils

    a, b = vectors(ctx, ctx.p["m"])
    d = ea_utils.dominates(a, b)
    ctx.check(ctx.Iff(d, ctx.dominates(a, b)), "dominates-iff-definition")
    c = ea_utils.domination_cmp(a, b)
    ctx.check(ctx.Iff(c > 0, ctx.dominates(a, b)), "cmp-positive")
    ctx.check(ctx.Iff(c < 0, ctx.dominates(b, a)), "cmp-negative")
    r = ea_utils.domination_cmp(b, a)
    ctx.check(ctx.Iff(c > 0, r < 0), "cmp-antisymmetric")
    ctx.check(ctx.Iff(c == 0, r == 0), "cmp-antisymmetric-zero")
    ctx.observe("cmp", c)


@harness(quick=SIZES, thorough=BIG)
def shared_relation_equal_parts(ctx):
    """vectors sharing some coordinates exactly, and a vector against itself"""
    from evotools import ea_utils

    a, b = vectors(ctx, ctx.p["m"])
    for i in range(ctx.p["m"]):
        if ctx.choose("share", 2):
            b[i] = a[i]
    ctx.check(ctx.Iff(ea_utils.dominates(a, b), ctx.dominates(a, b)), "dominates-iff-definition")
    ctx.check(ea_utils.domination_cmp(a, a) == 0, "self-zero")
    ctx.check(ctx.Not(ea_utils.dominates(tuple(a), a)), "irreflexive")


@harness(quick=SIZES, thorough=BIG)
def nsga2_relation(ctx):
    """the relation NSGA-II, JGBL and NSLS sort by"""
    import importlib
    N = importlib.import_module("algorithms.NSGAII.NSGAII")

    ctx.need(N, "Individual", "dominates")
    m = ctx.p["m"]
    a, b = vectors(ctx, m)
    x, y = N.Individual([0.0]), N.Individual([1.0])
    fs = [object() for _ in range(m)]
    x.objectives = dict(zip(fs, a))
    y.objectives = dict(zip(fs, b))
    ctx.check(ctx.Iff(N.dominates(x, y), ctx.dominates(a, b)), "dominates-iff-definition")
    ctx.check(ctx.Iff(N.dominates(y, x), ctx.dominates(b, a)), "dominates-iff-definition-swapped")
    ctx.check(ctx.Not(N.dominates(x, x)), "irreflexive")


@harness(quick=SIZES, thorough=BIG)
def nsls_relation(ctx):
    """the relation the NSLS local search asks through its own module"""
    import importlib
    L = importlib.import_module("algorithms.NSLS.NSLS")

    ctx.need(L, "Individual", "NSGAII")
    m = ctx.p["m"]
    a, b = vectors(ctx, m)
    x, y = L.Individual([0.0]), L.Individual([1.0])
    fs = [object() for _ in range(m)]
    x.objectives = dict(zip(fs, a))
    y.objectives = dict(zip(fs, b))
    f = ctx.need(L.NSGAII, "dominates")
    ctx.check(ctx.Iff(f(x, y), ctx.dominates(a, b)), "dominates-iff-definition")


@harness(quick=SIZES, thorough=BIG)
def swarm_relation(ctx):
    """the particle comparison used for leaders and personal bests"""
    from algorithms.OMOPSO import OMOPSO as O
    import sys
    O = sys.modules["algorithms.OMOPSO.OMOPSO"]

    ctx.need(O, "Individual")
    a, b = vectors(ctx, ctx.p["m"])
    x, y = O.Individual([0.0]), O.Individual([1.0])
    x.objectives, y.objectives = list(a), list(b)
    ctx.check(ctx.Iff(x.dominates(y), ctx.dominates(a, b)), "dominates-iff-definition")
    ctx.check(ctx.Iff(y.dominates(x), ctx.dominates(b, a)), "dominates-iff-definition-swapped")
    ctx.check(ctx.Not(x.dominates(x)), "irreflexive")


@harness(quick=SIZES, thorough=BIG)
def spea2_relation(ctx):
    """the relation SPEA2 computes its strengths with"""
    from algorithms.SPEA2.SPEA2 import SPEA2

    ctx.need(SPEA2, "dominates")
    a, b = vectors(ctx, ctx.p["m"])
    x = {"value": [0.0], "objectives": list(a)}
    y = {"value": [1.0], "objectives": list(b)}
    ctx.check(ctx.Iff(SPEA2.dominates(x, y), ctx.dominates(a, b)), "dominates-iff-definition")
    ctx.check(ctx.Iff(SPEA2.dominates(y, x), ctx.dominates(b, a)), "dominates-iff-definition-swapped")
