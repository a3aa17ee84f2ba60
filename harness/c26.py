"""C26: variation follows the declared operators, rates and tournaments."""
import importlib
import itertools

from sx.harness import harness

from .c05 import ASYM, inside
from .common import ALGOS, Fit, driver_class, grid, make, ranks, unit_dims

# --------------------------------------------------- the published operators
# polynomial mutation and bounded simulated binary crossover: Deb & Goyal 1996, Deb & Agrawal 1995


def root(v, eta):
    return v if eta == 0 else pow(v, 1.0 / (eta + 1))


def clamp(ctx, v, lo, hi):
    return ctx.Min([hi, ctx.Max([lo, v])])


def mutated(ctx, y, lo, hi, eta, r, low):
    """low: the draw r is in the lower half"""
    p = eta + 1
    near, far = (y - lo) / (hi - lo), (hi - y) / (hi - lo)
    if low:
        step = root(2 * r + (1 - 2 * r) * (1 - near) ** p, eta) - 1
    else:
        step = 1 - root(2 * (1 - r) + 2 * (r - 0.5) * (1 - far) ** p, eta)
    return clamp(ctx, y + step * (hi - lo), lo, hi)


def spread(gap, width, eta, r):
    """bounded spread factor towards a bound that lies gap beyond the nearer parent"""
    p = eta + 1
    alpha = 2 - 1 / (1 + 2 * gap / width) ** p
    if r <= 1 / alpha:
        return root(r * alpha, eta)
    return root(1 / (2 - r * alpha), eta)


def crossed(ctx, x, y, lo, hi, eta, r):
    a, b = (x, y) if x < y else (y, x)
    c1 = ((a + b) - spread(a - lo, b - a, eta, r) * (b - a)) / 2
    c2 = ((a + b) + spread(hi - b, b - a, eta, r) * (b - a)) / 2
    return clamp(ctx, c1, lo, hi), clamp(ctx, c2, lo, hi)


def one_draw(ctx, lo=0.0, hi=1.0):
    """every draw has the same value, away from one half"""
    r = ctx.real("r", lo, hi)
    ctx.assume(ctx.Or(r < 0.4999, r > 0.5001))
    ctx.policy(random=lambda: r, unit=lambda: r, shuffle="id", replay=True)
    return r


def index_policy(ctx, r, f):
    ctx.policy(random=lambda: r, unit=lambda: r, shuffle="id", index=f, replay=True)


def rate_of(ctx, r):
    rate = ctx.real("rate", 0, 1)
    ctx.assume(ctx.Or(r < rate - 1e-6, r > rate + 1e-6))
    return rate


def ops(kind):
    if kind == "shared":
        return importlib.import_module("algorithms.base.drivertools")
    return importlib.import_module("algorithms.NSGAIII.NSGAIII")


def do_mutate(ctx, kind, x, dims, rate, eta):
    M = ops(kind)
    if kind == "shared":
        return M.mutate(x, dims, rate, eta)
    ctx.need(M, "Individual", "polynomial_mutation")
    i = M.Individual(x)
    i.objectives = [0.0]
    M.polynomial_mutation(i, dims, rate, eta)
    return i.v


def do_cross(ctx, kind, x, y, dims, rate, eta):
    M = ops(kind)
    if kind == "shared":
        return [M.crossover(x, y, dims, rate, eta)]
    ctx.need(M, "Individual", "simulated_binary_crossover")
    a, b = M.Individual(x), M.Individual(y)
    a.objectives, b.objectives = [0.0], [1.0]
    return [c.v for c in M.simulated_binary_crossover(a, b, dims, rate, eta)]


KINDS = ("shared", "NSGAIII")
MUT = [dict(kind=k, d=2, eta=e) for k in KINDS for e in (0, 1)]


@harness(quick=MUT, thorough=[dict(kind=k, d=3, eta=e) for k in KINDS for e in (0, 1, 2)] + [
    dict(kind=k, d=1, eta=3) for k in KINDS], path_s=60, query_ms=15000)
def mutation_formula(ctx):
    """a variable is redrawn by polynomial mutation exactly when its draw is below the rate"""
    p = ctx.p
    ctx.coarse()
    r = one_draw(ctx)
    rate = rate_of(ctx, r)
    dims = ASYM[: p["d"]]
    x = inside(ctx, p["d"], dims)
    keep = list(x)
    out = do_mutate(ctx, p["kind"], list(x), dims, rate, p["eta"])
    ctx.check(len(out) == len(x), "same-length")
    if r > rate:
        ctx.check(ctx.same(out, keep), "no-change-above-the-rate")
        return
    low = bool(r < 0.5)
    for o, v, (lo, hi) in zip(out, keep, dims):
        ctx.formula(o, mutated(ctx, v, lo, hi, p["eta"], r, low), "polynomial-mutation")


@harness(quick=[dict(kind=k, d=2) for k in KINDS], thorough=[dict(kind=k, d=3) for k in KINDS])
def mutation_extremes(ctx):
    """the extreme draws reach the bounds, the middle one leaves the value; every variable is decided alone"""
    p = ctx.p
    d = p["d"]
    dims = ASYM[:d]
    x = inside(ctx, d, dims)
    for r, want in ((0.0, [lo for lo, hi in dims]), (0.5, list(x)), (1.0, [hi for lo, hi in dims])):
        index_policy(ctx, r, "first")
        out = do_mutate(ctx, p["kind"], list(x), dims, 1.0, 1)
        for o, w in zip(out, want):
            ctx.check(ctx.close(o, w, 1e-6), "reach-of-the-mutation")
    for v, (lo, hi) in zip(x, dims):
        ctx.assume(v >= lo + 0.01)
    seen = set()
    for tape in itertools.product((0.1, 0.9), repeat=2 * d):
        left = list(tape)
        index_policy(ctx, None, "first")
        ctx.policy(random=lambda: left.pop(0) if left else tape[-1], replay=True)
        out = do_mutate(ctx, p["kind"], list(x), dims, 0.5, 0)
        seen.add(tuple(bool(a != b) for a, b in zip(out, x)))
    ctx.check(len(seen) == 2 ** d, "every-variable-decided-alone", sorted(seen))


PARENTS = [([-2.5, 2.125], [0.5, 2.4375]), ([0.875, 2.0], [-1.0, 2.5]), ([-3.0, 2.25], [1.0, 2.0625])]
XR = [dict(kind=k, eta=e, free="draw", at=i) for k in KINDS for e in (0, 1, 2) for i in range(3)]
XP = [dict(kind=k, eta=e, free="parent", at=i) for k in KINDS for e in (0,) for i in range(2)]


@harness(quick=XR + XP, thorough=[dict(kind=k, eta=e, free="draw", at=i) for k in KINDS for e in (3, 5) for i in range(3)],
         path_s=90, query_ms=20000)
def crossover_formula(ctx):
    """children of bounded simulated binary crossover, or copies of the parents above the rate"""
    ctx.coarse()
    p = ctx.p
    dims = ASYM[:2]
    if p["free"] == "draw":
        r = one_draw(ctx)
        rate = rate_of(ctx, r)
        x, y = PARENTS[p["at"]]
    else:
        r = [0.125, 0.4][p["at"]]
        rate = 1.0
        index_policy(ctx, r, "first")
        dims = dims[:1]
        x, y = inside(ctx, 1, dims, "x"), [-0.5]
        ctx.assume(ctx.Or(x[0] >= 0, x[0] <= -1))
    kids = do_cross(ctx, p["kind"], list(x), list(y), dims, rate, p["eta"])
    if bool(r > rate) or bool(r > 0.5):
        for c in kids:
            ctx.check(ctx.Or(ctx.same(c, x), ctx.same(c, y)), "copy-of-a-parent")
        if len(kids) == 2:
            ctx.check(ctx.Or(ctx.And(ctx.same(kids[0], x), ctx.same(kids[1], y)),
                             ctx.And(ctx.same(kids[0], y), ctx.same(kids[1], x))), "one-copy-of-each")
        return
    for i, (lo, hi) in enumerate(dims):
        c1, c2 = crossed(ctx, x[i], y[i], lo, hi, p["eta"], r)
        if len(kids) == 1:
            v = kids[0][i]
            ctx.formulas([[(v, c1)], [(v, c2)]], "binary-crossover")
        else:
            v, w = kids[0][i], kids[1][i]
            ctx.formulas([[(v, c1), (w, c2)], [(v, c2), (w, c1)]], "binary-crossover")


@harness(quick=[dict(kind=k, d=2) for k in KINDS], thorough=[dict(kind=k, d=3) for k in KINDS])
def crossover_coins(ctx):
    """equal parents give equal children; every variable is crossed and swapped on its own"""
    p = ctx.p
    d = p["d"]
    dims = ASYM[:d]
    x = inside(ctx, d, dims)
    r = one_draw(ctx)
    for c in do_cross(ctx, p["kind"], list(x), list(x), dims, 1.0, 1):
        ctx.check(ctx.same(c, x), "equal-parents-equal-children")
    x, y = [lo + 0.0625 for lo, hi in dims], [hi - 0.125 for lo, hi in dims]
    seen, sides = set(), set()
    tapes = list(itertools.product((0.1, 0.9), repeat=1 + 3 * d)) if d < 3 else \
        [(0.1,) + t for t in itertools.product((0.1, 0.9), repeat=2 * d)]
    for tape in tapes:
        left = list(tape)
        index_policy(ctx, None, "first")
        ctx.policy(random=lambda: left.pop(0) if left else tape[-1], replay=True)
        c = do_cross(ctx, p["kind"], list(x), list(y), dims, 0.5, 0)[0]
        changed = tuple(bool(v != a) and bool(v != b) for v, a, b in zip(c, x, y))
        seen.add(changed)
        if all(changed):
            sides.add(tuple(bool(v - a < b - v) for v, a, b in zip(c, x, y)))
    ctx.check(len(seen) == 2 ** d, "every-variable-crossed-on-its-own", sorted(seen))
    ctx.check(len(sides) == 2 ** d, "every-variable-swapped-on-its-own", sorted(sides))


# --------------------------------------------------- the rates given to an algorithm

def constant(m):
    return [lambda v, k=k: 1.0 + k for k in range(m)]


def tracked(seen, m):
    def mk(k):
        def objective(v):
            if k == 0:
                seen.append(list(v))
            return 1.0 + k
        return objective
    return [mk(k) for k in range(m)]


BREED = ["NSGAII", "JGBL", "NSGAIII", "SPEA2", "IBEA", "SMSEMOA"]
RATES = [("none", 0.0, 0.0), ("mutation", 1.0, 0.0), ("crossover", 0.0, 1.0), ("both", 1.0, 1.0)]
SIZE = {"NSGAII": lambda n: n // 2, "JGBL": lambda n: n // 2, "IBEA": lambda n: n // 2,
        "NSGAIII": lambda n: 2 * (n // 2), "SPEA2": lambda n: n, "SMSEMOA": lambda n: n // 2}


@harness(quick=[dict(algo=a, n=4, rates=i) for a in BREED for i in range(4)],
         thorough=[dict(algo=a, n=5, rates=i) for a in BREED for i in range(4)], path_s=120, query_ms=15000)
def offspring(ctx):
    """the offspring of a step: as many as declared, made by the operators at the declared rates"""
    ctx.coarse()
    p = ctx.p
    what, pm, pc = RATES[p["rates"]]
    algo, n = p["algo"], p["n"]
    r = ctx.real("r", 0.05, 0.45) if what != "both" else 0.3
    turn = [0]

    def index(k):
        turn[0] += 1
        return (turn[0] * 3) % k
    index_policy(ctx, r, index)
    dims = [(-3.0, 1.0), (2.0, 2.5)]
    pop = [[-2.5 + i * 0.75, 2.125 + ((i * 2) % 3) * 0.125] for i in range(n)]
    seen = []
    over = dict(mutation_rate=pm, crossover_rate=pc, mutation_eta=0, crossover_eta=1)
    if algo == "JGBL":
        over["jumping_rate"] = 0.0
    d = make(algo, [list(v) for v in pop], dims, tracked(seen, 2), **over)
    del seen[:]
    d.step()
    after = [list(v) for v in d.population]

    def family(a, b):
        """what the pair may become, variable by variable"""
        res = []
        for x, y, (lo, hi) in zip(a, b, dims):
            vals = list(crossed(ctx, x, y, lo, hi, 1, r)) if pc and x != y else [x, y]
            res.append([mutated(ctx, v, lo, hi, 0, r, True) for v in vals] if pm else vals)
        return res
    pairs = list(itertools.combinations(pop, 2)) if pc else []
    made_of = [family(a, b) for a, b in [(a, a) for a in pop] + pairs]
    copies = [[[x] for x in a] for a in pop]

    def one_of(v, families, label):
        rows = []
        for f in families:
            rows += [list(zip(v, opts)) for opts in itertools.product(*f)]
        ctx.formulas(rows, label)
    done = []
    for v in seen + after:
        if any(all(x is y for x, y in zip(v, w)) for w in done):
            continue
        done.append(v)
        ctx.check(len(v) == len(dims), "right-dimension")
        one_of(v, copies + made_of, "made-by-the-declared-operators")
    kids = after if algo == "SPEA2" else after[n:] if algo == "IBEA" else seen
    if pm:
        ctx.check(len(kids) == SIZE[algo](n), "declared-number-of-offspring", "%d" % len(kids))
    if pm or pc:
        for v in kids:
            one_of(v, made_of, "operators-applied-at-rate-one")
    ctx.observe("kids", len(kids))


# --------------------------------------------------- who becomes a parent

def pair_index(i, j):
    """a choice of one of n draws i, j, i, j ..."""
    state = [0]

    def f(n):
        state[0] += 1
        return (i if state[0] % 2 else j) % n
    return f


TOUR = [dict(algo="NSGAII", n=3, i=0, j=1), dict(algo="NSGAII", n=3, i=1, j=2), dict(algo="NSGAII", n=3, i=2, j=0),
        dict(algo="JGBL", n=2, i=1, j=0), dict(algo="IBEA", n=2, i=0, j=1), dict(algo="IBEA", n=2, i=1, j=0),
        dict(algo="SPEA2", n=2, i=0, j=0)]


@harness(quick=TOUR, thorough=TOUR + [dict(algo="NSGAII", n=4, i=i, j=3) for i in range(3)] + [
    dict(algo="SPEA2", n=3, i=0, j=i) for i in range(2)] + [dict(algo="JGBL", n=3, i=0, j=2)],
    path_s=90, query_ms=15000)
def tournament(ctx):
    """of the two individuals drawn, a dominated one does not become the parent"""
    p = ctx.p
    algo, n = p["algo"], p["n"]
    F = Fit(ctx, 2, 0, 8)
    over = dict(mutation_rate=0.0, crossover_rate=0.0)
    if algo == "JGBL":
        over["jumping_rate"] = 0.0
    if algo in ("NSGAII", "JGBL", "IBEA"):
        over["mating_population_size"] = 1.0
    pop = grid(n)
    vecs = [F.vec(v) for v in pop]
    if algo == "IBEA":
        # the indicator scales each objective by its range
        for k in range(2):
            ctx.assume(ctx.Or(vecs[0][k] - vecs[1][k] >= 0.25, vecs[1][k] - vecs[0][k] >= 0.25))
    index_policy(ctx, 0.5, pair_index(p["i"], p["j"]))
    d = make(algo, [list(v) for v in pop], unit_dims(1), F.fitnesses, **over)
    if algo == "SPEA2":
        d.step()
        pool, picked = [list(x["value"]) for x in d.archive], [list(v) for v in d.population]
    else:
        ctx.need(d, "_mating_selection")
        pool, picked = [], []
        select = d._mating_selection

        def spy(*a, **k):
            pool.extend(list(i.v) for i in d.individuals)
            res = select(*a, **k)
            picked.extend(list(i.v) for i in d.mating_individuals)
            return res
        d._mating_selection = spy
        d.step()
    ctx.check(len(pool) == n and len(picked) > 0, "everyone-may-be-drawn")
    drawn = pool[:2] if algo == "SPEA2" and n == 2 else [pool[p["i"]], pool[p["j"]]]
    if algo == "SPEA2" and n > 2:
        drawn = [pool[p["i"]], [v for k, v in enumerate(pool) if k != p["i"]][p["j"]]]
    at = [pop.index(v) for v in drawn]
    a, b = vecs[at[0]], vecs[at[1]]
    rank = ranks(ctx, vecs)
    for v in picked:
        ctx.check(v in drawn, "parent-is-one-of-those-drawn")
        if v not in drawn:
            continue
        win = pop.index(v)
        lose = at[0] if win == at[1] else at[1]
        ctx.check(ctx.Not(ctx.dominates(vecs[lose], vecs[win])), "dominated-one-loses")
        if algo in ("NSGAII", "JGBL"):
            ctx.check(rank[win] <= rank[lose], "better-front-wins")
    ctx.observe("parents", [pop.index(v) for v in picked])


@harness(quick=[dict(n=3, i=i, j=j) for i, j in ((0, 1), (1, 2), (2, 0))], thorough=[
    dict(n=4, i=i, j=j) for i in range(4) for j in range(4) if i != j])
def leader_tournament(ctx):
    """a particle follows the less crowded of the two leaders drawn"""
    import importlib
    O = importlib.import_module("algorithms.OMOPSO.OMOPSO")
    ctx.need(O, "LeaderArchive", "CrowdingTournament", "Individual")
    n = ctx.p["n"]
    A = O.LeaderArchive(n)
    ctx.need(A, "crowding", "archive")
    objs = [[ctx.real("f", 0, 8), ctx.real("g", 0, 8)] for _ in range(n)]
    for a, b in zip(objs, objs[1:]):
        ctx.assume(ctx.And(b[0] - a[0] >= 0.125, a[1] - b[1] >= 0.125))
    for k in ([1, 0, 2, 3] if n == 4 else [1, 0, 2])[:n]:
        ind = O.Individual([float(k)])
        ind.objectives = list(objs[k])
        A.add(ind)
    A.crowding()
    ctx.check(len(A.archive) == n, "all-leaders-kept")
    crowd = {x.value[0]: x.crowd_val for x in A.archive}
    order = [x.value[0] for x in A.archive]
    i, j = ctx.p["i"], ctx.p["j"]
    state = [0]

    def index(k):
        # two different members, whether sampled together or one after the other
        state[0] += 1
        if k == n:
            return i if state[0] % 2 else j
        return j if j < i else j - 1
    index_policy(ctx, 0.5, index)
    got = O.CrowdingTournament()(A).value[0]
    drawn = [order[i], order[j]]
    ctx.check(got in drawn, "leader-is-one-of-those-drawn")
    other = drawn[0] if got == drawn[1] else drawn[1]
    ctx.check(crowd[got] >= crowd[other], "less-crowded-leader-followed")
    ctx.check(crowd[0.0] == float("inf") and crowd[float(n - 1)] == float("inf"), "extremes-are-isolated")


# --------------------------------------------------- the moves of the other algorithms

@harness(quick=[dict(n=3, budget=b) for b in (0, 1)] + [dict(n=4, budget=1)],
         thorough=[dict(n=6, budget=b) for b in (0, 1)])
def swarm_turbulence(ctx):
    """a third of a resting swarm is perturbed uniformly, a third less and less as the budget is used"""
    ctx.coarse()
    n = ctx.p["n"]
    r = ctx.real("r", 0.02, 0.98)
    ctx.assume(ctx.Or(r < 0.4999, r > 0.5001))
    rate = ctx.real("rate", 0, 1)
    ctx.assume(ctx.Or(r < rate - 1e-6, r > rate + 1e-6))
    index_policy(ctx, r, "first")
    dims = [(-3.0, 1.0), (2.0, 2.5)]
    x = [-1.0, 2.25]
    pert = 0.5
    over = dict(mutation_probability=rate, mutation_perturbation=pert)
    d = make("OMOPSO", [list(x) for _ in range(n)], dims, constant(2), **over)
    if ctx.p["budget"]:
        d.max_budget = 4 * n
    d.step()
    hit = bool(r < rate)
    third = n // 3
    got = [list(v) for v in d.population]
    ctx.check(len(got) == n, "swarm-size")
    kinds = []
    for k, v in enumerate(got):
        if not hit or k >= 2 * third or (k >= third and not ctx.p["budget"]):
            ctx.check(ctx.all(ctx.close(a, b) for a, b in zip(v, x)), "rest-undisturbed")
        elif k < third:
            for a, b, (lo, hi) in zip(v, x, dims):
                ctx.formula(a, clamp(ctx, b + (r - 0.5) * pert, lo, hi), "uniform-perturbation")
        else:
            left = 1 - (n / (4.0 * n))
            for a, b, (lo, hi) in zip(v, x, dims):
                side = (hi - b) if bool(r < 0.5) else (lo - b)
                ctx.formula(a, clamp(ctx, b + side * (1 - r ** (left ** pert)), lo, hi), "shrinking-perturbation")


FLIGHT = [dict(steps=2, r=0.25, u=0.5, at=0.5, d=2), dict(steps=3, r=0.9375, u=0.75, at=0.125),
          dict(steps=3, r=0.5, u=0.25, at=0.875, m=2)]


@harness(quick=FLIGHT, thorough=FLIGHT + [dict(steps=3, r=0.9375, u=0.5, at=0.25, d=2), dict(steps=5, r=0.875, u=0.0, at=0.75),
                            dict(steps=4, r=1.0 - 1.0 / 64, u=1.0, at=0.25, m=2)],
         path_s=60)
def swarm_flight(ctx):
    """a particle is drawn to its own best place and to a leader, and turns round at the bounds"""
    p = ctx.p
    ctx.relax()
    dims = ASYM[: p.get("d", 1)]
    lead = [lo + p["at"] * (hi - lo) for lo, hi in dims]
    x = inside(ctx, len(dims), dims)
    ctx.assume(ctx.Or(x[0] < lead[0] - 1e-3, x[0] > lead[0] + 1e-3))
    # the leader's value is out of reach
    m = p.get("m", 1)
    f = Fit(ctx, m, -8, 8, known={1: [-9.0] * m})
    r, u = p["r"], p["u"]
    ctx.policy(random=lambda: r, unit=lambda: u, shuffle="id", index="first", replay=True)
    d = make("OMOPSO", [list(x), list(lead)], dims, f.fitnesses)
    pull, momentum = (1.5 + 0.5 * u) * r, 0.1 + 0.4 * u
    speed, best, own = [0.0] * len(dims), list(x), f.vec(x)
    for _ in range(p["steps"]):
        d.step()
        got = [list(v) for v in d.population]
        if len(got) != 2:
            ctx.check(False, "swarm-size")
            return
        speed = [momentum * s + pull * (b - a) + pull * (g - a) for s, a, b, g in zip(speed, x, best, lead)]
        for i, (lo, hi) in enumerate(dims):
            new = x[i] + speed[i]
            if new < lo or new > hi:
                speed[i] = -1 * speed[i]
            x[i] = clamp(ctx, new, lo, hi)
        ctx.check(ctx.all(ctx.close(a, b, tol=1e-6) for a, b in zip(got[0], x)), "flown-as-declared",
                  "%s %s" % (got[0], x))
        ctx.check(ctx.all(ctx.close(a, b, tol=1e-6) for a, b in zip(got[1], lead)), "leader-stays")
        x = list(got[0])
        value = f.vec(x)
        if ctx.dominates(value, own):
            best, own = list(x), value


@harness(quick=[dict(i=0), dict(i=1)], thorough=[dict(i=0), dict(i=1)], path_s=60)
def local_search(ctx):
    """NSLS tries x + c(u - v) and x - c(u - v) variable by variable and never takes a dominated one"""
    F = Fit(ctx, 2, 0, 8)
    c = ctx.real("c", -4, 4)
    i = ctx.p["i"]
    ctx.policy(gauss=lambda: (c - 0.5) / 0.5, random=lambda: 0.3, shuffle="id", replay=True,
               index=lambda k: i % k)
    pop = [[0.25], [0.75]]
    d = make("NSLS", [list(v) for v in pop], unit_dims(1), F.fitnesses)
    ctx.need(d, "local_search", "calculate_objectives")
    d.calculate_objectives(d.individuals)
    first = list(d.individuals)
    n_calls = len(F.calls)
    d.local_search()
    ctx.check(all(a is b for a, b in zip(first, d.individuals)), "parents-stay")
    got = d.individuals[len(first):]
    ctx.check(len(got) <= len(pop), "at-most-one-each")
    tried = [v for k, v in F.calls[n_calls:] if k == 0]

    def both(x):
        """x + c/2 and x - c/2 were tried where they lie inside"""
        return ctx.all(ctx.Or(x[0] + s * c * 0.5 < 1e-6, x[0] + s * c * 0.5 > 1 - 1e-6,
                              ctx.any(ctx.close(t[0], x[0] + s * c * 0.5) for t in tried)) for s in (1, -1))
    ctx.check(ctx.Or(*[both(x) for x in pop]), "both-directions-tried")

    def moved(w, x, diff):
        """w is a permitted successor of x"""
        reach = [ctx.And(ctx.close(w[0], x[0] + s * c * diff), x[0] + s * c * diff >= -1e-6,
                         x[0] + s * c * diff <= 1 + 1e-6) for s in (1, -1)]
        return ctx.And(ctx.Or(ctx.close(w[0], x[0]), *reach), ctx.Not(ctx.dominates(F.vec(x), F.vec(w))))
    new = [w.v for w in got]
    if len(new) == 1:
        ctx.check(ctx.Or(*[moved(new[0], x, 0.5) for x in pop]), "step-along-a-difference")
    elif len(new) == 2:
        # the second one moves along the difference to the first one's successor
        ctx.check(ctx.Or(*[ctx.And(moved(new[0], pop[k], 0.5), moved(new[1], pop[1 - k], new[0][0] - pop[1 - k][0]))
                           for k in (0, 1)]), "step-along-a-difference")


@harness(quick=[dict(d=2), dict(d=4)], thorough=[dict(d=6)])
def transposition(ctx):
    """cut and paste only moves genes, copy and paste overwrites at most the transposon's length"""
    d = ctx.p["d"]
    dims = [ASYM[k % 3] for k in range(d)]
    J = make("JGBL", [[lo for lo, hi in dims]], dims, constant(2), jumping_percentage=0.5)
    ctx.need(J, "cut_and_paste", "copy_and_paste")
    x, y = inside(ctx, d, dims, "x"), inside(ctx, d, dims, "y")

    def share(v):
        return [(a - lo) / (hi - lo) for a, (lo, hi) in zip(v, dims)]
    k = [0]
    turn = ctx.choose("turn", 3)

    def index(n):
        k[0] += 1
        return (k[0] * (turn + 1) + turn) % n
    index_policy(ctx, 0.5, index)
    a, b = J.cut_and_paste(list(x), list(y))
    ctx.check(len(a) == d and len(b) == d, "length-kept")
    before, after = share(x) + share(y), share(a) + share(b)
    for v in after:
        ctx.check(ctx.any(ctx.close(v, w) for w in before), "genes-only-move")
    ctx.check(ctx.close(sum(before), sum(after)), "no-gene-lost")
    a, b = J.copy_and_paste(list(x), list(y))
    t = int(0.5 * d)
    for child, own, other in ((a, x, y), (b, y, x)):
        ctx.check(len(child) == d, "length-kept")
        kept = [ctx.If(ctx.close(v, w), 1, 0) for v, w in zip(child, own)]
        ctx.check(ctx.Sum(kept) >= d - t, "most-genes-stay")
        for v, w in zip(share(child), share(own)):
            ctx.check(ctx.Or(ctx.close(v, w), ctx.any(ctx.close(v, o) for o in share(other))), "own-or-pasted")


@harness(quick=[dict(d=4)], thorough=[dict(d=5), dict(d=6)], path_s=60)
def transposons(ctx):
    """the chosen genes of each parent go, in order, to the position drawn for the other: in place of the genes
    there (copy), or between the remaining ones (cut); any chosen genes, any positions"""
    import itertools

    d = ctx.p["d"]
    dims = [(0.0, 1.0)] * d
    t = d // 2
    J = make("JGBL", [[0.5] * d], dims, constant(2), jumping_percentage=0.5)
    ctx.need(J, "cut_and_paste", "copy_and_paste")
    mod = importlib.import_module("algorithms.JGBL.JGBL")
    x = [(k + 1) / 64.0 for k in range(d)]
    y = [(k + 33) / 64.0 for k in range(d)]
    sets = list(itertools.combinations(range(d), t))
    cut = bool(ctx.choose("cut", 2))
    takes, places = [], []

    class Draws:
        def sample(self, pool, k):
            ctx.need(pool if len(pool) == d and k == t else None, "__len__")
            takes.append(sets[ctx.choose("taken", len(sets))])
            return [pool[i] for i in takes[-1]][::-1]

        def randrange(self, a, b=None):
            a, b = (0, a) if b is None else (a, b)
            places.append(a + ctx.choose("place", b - a))
            return places[-1]

        def randint(self, a, b):
            return self.randrange(a, b + 1)

        def __getattr__(self, name):
            # drawn in another way: not followed here
            return ctx.need(None, name)
    ctx.patch(mod, "random", Draws())
    a, b = (J.cut_and_paste if cut else J.copy_and_paste)(list(x), list(y))
    if len(takes) != 2 or len(places) != 2:
        ctx.need(None, "one-choice-each")

    def child(own, mine, other, theirs, at):
        moved = [other[i] for i in theirs]
        if cut:
            left = [v for i, v in enumerate(own) if i not in mine]
            return left[:at] + moved + left[at:]
        return [moved[i - at] if at <= i < at + t else v for i, v in enumerate(own)]
    # drawn for the two parents in either order
    fits = [a == child(x, m, y, n, i) and b == child(y, n, x, m, j)
            for m, n in (takes, takes[::-1]) for i, j in (places, places[::-1])]
    ctx.check(any(fits), "transposon-in-place", "%s %s" % (a, b))


@harness(quick=[dict(where=w, n=3, d=2) for w in ("tools", "classic.ClassicHGS")],
         thorough=[dict(where=w, n=4, d=3) for w in ("tools", "classic.ClassicHGS")])
def sprouted_neighbours(ctx):
    """individuals grown around a delegate are mutants of it"""
    tools = importlib.import_module("algorithms.HGS." + ctx.p["where"])
    ctx.need(tools, "population_from_delegate")
    ctx.coarse()
    r = one_draw(ctx)
    rate = rate_of(ctx, r)
    dims = ASYM[: ctx.p["d"]]
    x = inside(ctx, ctx.p["d"], dims)
    pop = tools.population_from_delegate(list(x), ctx.p["n"], dims, rate, 0)
    ctx.check(len(pop) == ctx.p["n"], "count")
    ctx.check(ctx.same(pop[0], x), "delegate-first")
    for v in pop[1:]:
        if r > rate:
            ctx.check(ctx.same(v, x), "no-change-above-the-rate")
            continue
        low = bool(r < 0.5)
        for o, w, (lo, hi) in zip(v, x, dims):
            ctx.formula(o, mutated(ctx, w, lo, hi, 0, r, low), "polynomial-mutation")
