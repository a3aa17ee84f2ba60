"""C06: the archives of the particle swarm."""
from sx.harness import harness

from .common import CROWDS, CROWDST, Fit, cycle, grid, make, unit_dims, vectors

ETA = 0.0075


def mod(ctx):
    import importlib
    O = importlib.import_module("algorithms.OMOPSO.OMOPSO")
    ctx.need(O, "Individual", "Archive", "LeaderArchive")
    return O


def solution(O, i, objs):
    s = O.Individual([float(i)])
    s.objectives = list(objs)
    return s


def content(arch):
    return [list(x.objectives) for x in arch]


def distinct_and_non_dominated(ctx, objs, label="no-dominated-member"):
    for i, a in enumerate(objs):
        for j, b in enumerate(objs):
            if i != j:
                ctx.check(ctx.Not(ctx.dominates(a, b)), label)
            if i < j:
                ctx.check(ctx.Not(ctx.same(a, b)), "no-equal-members")


def has(ctx, objs, v):
    return ctx.any(ctx.same(o, v) for o in objs)


def better(x):
    """a value one relative unit of ETA better than x"""
    return x / (1 + ETA)


def eta_dominates(ctx, a, b):
    """a dominates b after being improved by the relative margin; non-negative objectives"""
    return ctx.dominates([better(x) for x in a], b)


SEQ = [dict(n=2, m=1), dict(n=4, m=1), dict(n=3, m=2)]
SEQT = SEQ + [dict(n=3, m=3), dict(n=4, m=2)]


@harness(quick=SEQ + CROWDS, thorough=SEQT + CROWDST, path_s=60)
def exact_archive(ctx):
    """unbounded archive without margin: always the non-dominated part of everything offered"""
    O = mod(ctx)
    n, m = ctx.p["n"], ctx.p["m"]
    pts = vectors(ctx, n, m, -8, 8)
    arch = O.Archive()
    for i, p in enumerate(pts):
        before = content(arch)
        added = arch.add(solution(O, i, p))
        after = content(arch)
        beaten = ctx.any(ctx.Or(ctx.dominates(b, p), ctx.same(b, p)) for b in before) if before else False
        ctx.check(ctx.Iff(added, ctx.Not(beaten)), "accepted-iff-not-beaten")
        if not added:
            ctx.check(len(after) == len(before) and ctx.all(has(ctx, after, b) for b in before),
                      "rejection-leaves-archive")
        distinct_and_non_dominated(ctx, after)
    final = content(arch)
    for p in pts:
        top = ctx.Not(ctx.any(ctx.dominates(q, p) for q in pts if q is not p)) if n > 1 else True
        ctx.check(ctx.Iff(has(ctx, final, p), top), "exactly-the-non-dominated-part")


@harness(quick=SEQ + CROWDS, thorough=SEQT + CROWDST, path_s=60)
def margin_archive(ctx):
    """archive with the swarm's margin: no member dominated, no member made redundant by the margin"""
    O = mod(ctx)
    n, m = ctx.p["n"], ctx.p["m"]
    positive = bool(ctx.choose("positive", 2))
    pts = vectors(ctx, n, m, 0 if positive else -8, 8)
    arch = O.Archive(getattr(O.OMOPSO, "ETA", ETA))
    for i, p in enumerate(pts):
        arch.add(solution(O, i, p))
        objs = content(arch)
        ctx.check(len(objs) >= 1, "never-empty")
        for o in objs:
            ctx.check(has(ctx, pts[:i + 1], o), "only-offered-solutions")
        distinct_and_non_dominated(ctx, objs)
    if positive:
        for i, a in enumerate(objs):
            for j, b in enumerate(objs):
                if i != j:
                    ctx.check(ctx.Not(eta_dominates(ctx, a, b)), "no-member-within-margin")


CAP = [dict(n=3, m=2, size=1), dict(n=3, m=2, size=2), dict(n=4, m=1, size=2)]


CROWDED = [dict(n=7, m=2, width=5, crowd=(4,), size=3), dict(n=6, m=2, width=6, crowd=(3,), size=5),
           dict(n=18, m=2, width=17, crowd=(14,), size=15)]


@harness(quick=CAP + CROWDED, thorough=CAP + CROWDED + [dict(n=34, m=2, width=33, crowd=(28,), size=32), dict(n=12, m=2, width=9, crowd=(9,), size=8)] + [dict(n=4, m=2, size=2), dict(n=4, m=2, size=3)], path_s=60)
def leaders(ctx):
    """bounded archive: capacity respected, never a dominated member, room is used"""
    O = mod(ctx)
    n, m, size = ctx.p["n"], ctx.p["m"], ctx.p["size"]
    pts = vectors(ctx, n, m, -8, 8)
    arch = O.LeaderArchive(size)
    for i, p in enumerate(pts):
        before = content(arch)
        added = arch.add(solution(O, i, p))
        after = content(arch)
        beaten = ctx.any(ctx.Or(ctx.dominates(b, p), ctx.same(b, p)) for b in before) if before else False
        ctx.check(len(after) <= size, "capacity")
        ctx.check(len(after) >= 1, "never-empty")
        ctx.check(ctx.Iff(added, ctx.Not(beaten)), "accepted-iff-not-beaten")
        if len(before) < size:
            ctx.check(ctx.Implies(ctx.Not(beaten), has(ctx, after, p)), "room-is-used")
            for b in before:
                ctx.check(ctx.Or(has(ctx, after, b), ctx.dominates(p, b)), "dropped-only-if-dominated")
        if not added:
            ctx.check(len(after) == len(before) and ctx.all(has(ctx, after, b) for b in before),
                      "rejection-leaves-archive")
        for o in after:
            ctx.check(ctx.Or(has(ctx, before, o), ctx.same(o, p)), "only-offered-solutions")
        distinct_and_non_dominated(ctx, after)


@harness(quick=[dict(n=2, m=1, steps=1), dict(n=2, m=2, steps=0), dict(n=2, m=2, steps=1)],
         thorough=[dict(n=3, m=2, steps=0), dict(n=2, m=2, steps=2), dict(n=3, m=1, steps=2)], path_s=60)
def swarm(ctx):
    """whole swarm: the reported result never holds a dominated solution and only improves"""
    n = ctx.p["n"]
    ctx.policy(random=cycle([0.9, 0.2, 0.7, 0.4, 0.3]), unit=cycle([0.25, 0.5, 0.75]), index="first")
    fit = Fit(ctx, ctx.p["m"])
    d = make("OMOPSO", grid(n), unit_dims(), fit.fitnesses)
    seen = grid(n)
    for s in range(ctx.p["steps"] + 1):
        out = [list(v) for v in d.finalized_population()]
        ctx.check(len(out) >= 1, "never-empty")
        objs = [fit.vec(v) for v in out]
        distinct_and_non_dominated(ctx, objs, "reported-not-dominated")
        if s < ctx.p["steps"]:
            d.next_step()
