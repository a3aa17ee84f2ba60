"""C27: within equally good solutions each algorithm's own diversity measure decides."""
import importlib
import itertools

from sx.harness import harness

from .common import grid, indices, make, unit_dims

INF = float("inf")


def front(ctx, orders, lo=0, hi=8, gap=0.125):
    """mutually non-dominated vectors; orders: per objective the points from best to worst"""
    n = len(orders[0])
    V = [[ctx.real("f%d_%d" % (i, k), lo, hi) for k in range(len(orders))] for i in range(n)]
    for k, o in enumerate(orders):
        for a, b in zip(o, o[1:]):
            ctx.assume(V[b][k] - V[a][k] >= gap)
    return V


def chain(n, perm=None):
    o = list(perm or range(n))
    return [o, o[::-1]]


# orders of four points in three objectives; none dominates another
THREE = [
    [[0, 1, 2, 3], [3, 2, 1, 0], [1, 3, 0, 2]],
    [[0, 1, 2, 3], [2, 3, 0, 1], [1, 0, 3, 2]],
    [[2, 0, 3, 1], [1, 3, 0, 2], [0, 1, 2, 3]],
]


def given(V, extra=()):
    """objectives that look their values up; point i is grid vector i"""
    vs = grid(len(V))
    m = len(V[0])

    def mk(k):
        def objective(v):
            return V[vs.index(list(v))][k]
        return objective
    return vs, [mk(k) for k in range(m)]


def pool(name, V, size, **over):
    vs, fits = given(V)
    d = make(name, vs[:size], unit_dims(), fits, **over)
    Ind = type(d.individuals[0])
    for v in vs[size:]:
        d.individuals.append(Ind(v))
    return vs, d


def kept_of(ctx, out, vs, size):
    idx = indices([list(v) for v in out], vs, lambda a, b: list(a) == list(b))
    ctx.check(len(idx) == size and len(set(idx)) == size and all(i >= 0 for i in idx), "population-size")
    ctx.observe("kept", sorted(idx))
    return idx


def smallest_dropped(ctx, idx, measure, label, members=None, tol=1e-6):
    members = range(len(measure)) if members is None else members
    for x in members:
        for y in members:
            if x not in idx and y in idx:
                if measure[y] == INF:
                    continue
                ctx.check(False if measure[x] == INF else ctx.le(measure[x], measure[y], tol), label)


NS = [dict(algo="NSGAII", n=3, size=2, m=2), dict(algo="NSGAII", n=4, size=3, m=2),
      dict(algo="NSGAII", n=4, size=2, m=2), dict(algo="JGBL", n=4, size=3, m=2)] + [
    dict(algo="NSGAII", n=4, size=s, m=3, at=i) for s, i in ((3, 0), (2, 1), (1, 2), (3, 2))]


@harness(quick=NS, thorough=NS + [dict(algo="NSGAII", n=5, size=s, m=2) for s in (3, 4)] + [
    dict(algo="JGBL", n=4, size=s, m=3, at=i) for s in (1, 2, 3) for i in range(3)], path_s=60)
def crowding_distance(ctx):
    """NSGA-II and JGBL cut a front by crowding distance"""
    p = ctx.p
    n = p["n"]
    if p["m"] == 2:
        orders = chain(n, [1, 0] + list(range(2, n)))
    else:
        orders = THREE[p["at"]]
    V = front(ctx, orders)
    vs, d = pool(p["algo"], V, p["size"])
    idx = kept_of(ctx, d.finalized_population(), vs, p["size"])
    dist = [0] * n
    for k, o in enumerate(orders):
        width = V[o[-1]][k] - V[o[0]][k]
        for a, b, c in zip(o, o[1:], o[2:]):
            if dist[b] != INF:
                dist[b] = dist[b] + (V[c][k] - V[a][k]) / width
        dist[o[0]] = INF
        if dist[o[-1]] != INF:
            dist[o[-1]] = dist[o[-1]] + 2 * (V[o[-1]][k] - V[o[-2]][k]) / width
    smallest_dropped(ctx, idx, dist, "most-crowded-dropped")


@harness(quick=[dict(size=4), dict(size=3)], thorough=[dict(size=2)], path_s=60)
def crowding_of_the_last_front(ctx):
    """a later front is cut by distances inside that front only"""
    size = ctx.p["size"]
    V = [[ctx.real("a", 0, 1), ctx.real("b", 0, 1)]] + front(ctx, chain(4), 2, 8)
    ctx.assume(ctx.same(V[1] + V[4], [2, 8, 8, 2]))
    V[1], V[4] = [2.0, 8.0], [8.0, 2.0]
    order = [3, 0, 1, 4, 2]
    W = [V[i] for i in order]
    vs, d = pool("NSGAII", W, size)
    idx = [order[i] for i in kept_of(ctx, d.finalized_population(), vs, size)]
    ctx.check(0 in idx, "better-front-first")
    dist = [INF] * 5
    for i in (2, 3):
        dist[i] = sum((V[i + s][k] - V[i - s][k]) / (V[4 if s > 0 else 1][k] - V[1 if s > 0 else 4][k])
                      for k, s in ((0, 1), (1, -1)))
    smallest_dropped(ctx, idx, dist, "most-crowded-dropped", [1, 2, 3, 4])


HV = [dict(n=2), dict(n=3), dict(n=4), dict(n=3, behind=1)]


@harness(quick=HV, thorough=HV + [dict(n=5)], path_s=60, query_ms=15000)
def hypervolume_contribution(ctx):
    """SMS-EMOA drops the member of the worst front that adds least volume"""
    S = importlib.import_module("algorithms.SMSEMOA.SMSEMOA")
    ctx.need(S, "Individual")
    n = ctx.p["n"]
    R = 9.0
    V = front(ctx, chain(n), 2, 8)
    total = list(V)
    if ctx.p.get("behind"):
        total = [[1.0, 1.0]] + V
    vs = grid(len(total))
    d = make("SMSEMOA", [vs[0]], unit_dims(), [lambda v: 0.0] * 2, reference_point=[R, R])
    ctx.need(d, "reduce_population")
    inds = []
    for i in [1, 0] + list(range(2, len(total))):
        ind = S.Individual(vs[i])
        ind.objectives = total[i]
        inds.append(ind)
    out = d.reduce_population(list(inds))
    idx = kept_of(ctx, [x.value for x in out], vs, len(total) - 1)
    share = []
    for i in range(n):
        right = V[i + 1][0] if i + 1 < n else R
        up = V[i - 1][1] if i else R
        share.append((right - V[i][0]) * (up - V[i][1]))
    if ctx.p.get("behind"):
        ctx.check(0 in idx, "worst-front-first")
        idx = [i - 1 for i in idx if i]
    smallest_dropped(ctx, idx, share, "least-contributor-dropped")


def union_volume(ctx, pts, R):
    """inclusion and exclusion"""
    total = 0.0
    for k in range(1, len(pts) + 1):
        for s in itertools.combinations(pts, k):
            v = 1.0
            for c in zip(*s):
                v = v * (R - ctx.Max(list(c)))
            total = total + (v if k % 2 else -v)
    return total


@harness(quick=[dict(n=2)], thorough=[dict(n=3)], path_s=120, query_ms=20000)
def hypervolume_contribution_3d(ctx):
    """three objectives"""
    S = importlib.import_module("algorithms.SMSEMOA.SMSEMOA")
    ctx.need(S, "Individual")
    n = ctx.p["n"]
    R = 9.0
    V = front(ctx, [list(range(n)), list(range(n))[::-1], [1, 0, 2][:n]], 2, 8)
    vs = grid(n)
    d = make("SMSEMOA", [vs[0]], unit_dims(), [lambda v: 0.0] * 3, reference_point=[R, R, R])
    ctx.need(d, "reduce_population")
    inds = []
    for i in range(n):
        ind = S.Individual(vs[i])
        ind.objectives = V[i]
        inds.append(ind)
    idx = kept_of(ctx, [x.value for x in d.reduce_population(list(inds))], vs, n - 1)
    left = {i: union_volume(ctx, [V[j] for j in range(n) if j != i], R) for i in range(n)}
    (gone,) = [i for i in range(n) if i not in idx]
    for i in idx:
        ctx.check(ctx.le(left[i], left[gone], 1e-6), "most-volume-left")


def square(a, b):
    return sum((x - y) * (x - y) for x, y in zip(a, b))


def lexless(ctx, a, b, tol):
    """a sorts clearly before b"""
    res = False
    same = True
    for x, y in zip(a, b):
        res = ctx.Or(res, ctx.And(same, x < y - tol))
        same = ctx.And(same, x == y)
    return res


def in_order(xs):
    """sorted by branching"""
    res = []
    for x in xs:
        i = 0
        while i < len(res) and bool(res[i] <= x):
            i += 1
        res.insert(i, x)
    return res


def nearest_first(ctx, V, idx, label, tol=1e-6):
    """one point of V left: no other has its neighbours nearer"""
    n = len(V)
    (gone,) = [i for i in range(n) if i not in idx]
    dist = [in_order([square(V[i], V[j]) for j in range(n) if j != i]) for i in range(n)]
    for i in idx:
        ctx.check(ctx.Not(lexless(ctx, dist[i], dist[gone], tol)), label)


@harness(quick=[dict(n=3, line=1), dict(n=4, line=1)], thorough=[dict(n=3), dict(n=5, line=1)], path_s=120, query_ms=15000)
def nearest_neighbours(ctx):
    """SPEA2 truncates a too large front by the distances to the neighbours, nearest first"""
    n = ctx.p["n"]
    ctx.relax()
    if ctx.p.get("line"):
        x = [0.0] + [ctx.real("x", 0, 8) for _ in range(n - 1)]
        for a, b in zip(x, x[1:]):
            ctx.assume(b - a >= 0.125)
        V = [[3 * v, 32.0 - 4 * v] for v in x]
    else:
        V = front(ctx, chain(n))
    vs, fits = given(V)
    d = make("SPEA2", vs[: n - 1], unit_dims(), fits)
    ctx.need(d, "environmental_selection")
    inds = [{"value": vs[i], "objectives": V[i], "fitness": 0.25} for i in [1, 0] + list(range(2, n))]
    out = d.environmental_selection(inds[:1], inds[1:])
    idx = kept_of(ctx, [x["value"] for x in out], vs, n - 1)
    nearest_first(ctx, V, idx, "nearest-neighbours-thinned")


@harness(quick=[dict(n=4)], thorough=[dict(n=5)], path_s=120, query_ms=15000)
def repeated_truncation(ctx):
    """SPEA2: distances are taken anew after every removal"""
    n = ctx.p["n"]
    ctx.relax()
    x = [0.0] + [ctx.real("x", 0, 8) for _ in range(n - 1)]
    for a, b in zip(x, x[1:]):
        ctx.assume(b - a >= 0.125)
    for a, b in itertools.combinations(list(itertools.combinations(x, 2)), 2):
        # no two distances alike, so that every removal is determined
        ctx.assume(ctx.Or(abs(abs(a[1] - a[0]) - abs(b[1] - b[0])) >= 0.0625))
    V = [[3 * v, 32.0 - 4 * v] for v in x]
    vs, fits = given(V)
    d = make("SPEA2", vs[:2], unit_dims(), fits)
    ctx.need(d, "environmental_selection")
    inds = [{"value": vs[i], "objectives": V[i], "fitness": 0.25} for i in range(n)]
    out = d.environmental_selection(inds[2:], inds[:2])
    idx = kept_of(ctx, [x["value"] for x in out], vs, 2)
    left = list(range(n))
    while len(left) > 2:
        dist = {i: in_order([abs(x[i] - x[j]) for j in left if j != i]) for i in left}
        worst = left[0]
        for i in left[1:]:
            if lexless(ctx, dist[i], dist[worst], 0):
                worst = i
        left.remove(worst)
    ctx.check(sorted(idx) == left, "thinned-one-by-one", "%s %s" % (sorted(idx), left))


ORDERS = [[0, 1, 2, 3], [3, 0, 2, 1], [2, 1, 3, 0], [1, 4, 0, 2, 3], [2, 0, 1, 4, 3]]


@harness(quick=[dict(at=i) for i in (0, 1, 3)], thorough=[dict(at=i) for i in range(5)], path_s=120, query_ms=15000)
def density_fill(ctx):
    """SPEA2 fills a too small archive with the dominated solutions in sparser surroundings"""
    order = ORDERS[ctx.p["at"]]
    n = len(order)
    x = [1.0] + [ctx.real("x", 1, 8) for _ in range(n - 2)]
    for a, b in zip(x, x[1:]):
        ctx.assume(b - a >= 0.125)
    # far away from the solution that dominates them
    V = [[-96.0, -128.0 + 32.0]] + [[3 * v, 32.0 - 4 * v] for v in x]
    W = [V[i] for i in order]
    vs, fits = given(W)
    d = make("SPEA2", vs[:2], unit_dims(), fits)
    ctx.need(d, "environmental_selection", "calculate_fitnesses")
    pop = [{"value": v} for v in vs[:2]]
    arch = [{"value": vs[i], "objectives": W[i]} for i in range(2, n)]
    d.calculate_fitnesses(pop, arch)
    out = d.environmental_selection(pop, arch)
    idx = [order[i] for i in kept_of(ctx, [x["value"] for x in out], vs, 2)]
    ctx.check(0 in idx, "non-dominated-first")
    # second nearest of the whole union
    dist = [INF] + [in_order([square(V[i], V[j]) for j in range(n) if j != i])[1] for i in range(1, n)]
    smallest_dropped(ctx, idx, dist, "sparser-first", list(range(1, n)), 1e-3)


@harness(quick=[dict(n=3, perm=i) for i in range(3)] + [dict(n=4, perm=i) for i in range(3)],
         thorough=[dict(n=5, perm=i) for i in range(3)], path_s=60)
def leader_archive(ctx):
    """OMOPSO: a full leader archive gives up the most crowded leader, never an extreme one"""
    O = importlib.import_module("algorithms.OMOPSO.OMOPSO")
    ctx.need(O, "LeaderArchive", "Individual")
    n = ctx.p["n"]
    V = front(ctx, chain(n))
    order = list(range(n))
    order = order[ctx.p["perm"]:] + order[: ctx.p["perm"]]
    A = O.LeaderArchive(n - 1)
    for i in order:
        ind = O.Individual([float(i)])
        ind.objectives = list(V[i])
        ctx.check(A.add(ind) is not False, "non-dominated-accepted")
    idx = [int(x.value[0]) for x in A]
    ctx.check(len(idx) == n - 1 and len(set(idx)) == n - 1, "archive-size")
    ctx.observe("kept", sorted(idx))
    crowd = [INF] + [(V[i][0] - V[i - 1][0]) / (V[n - 1][0] - V[0][0]) + (V[i][1] - V[i + 1][1])
                     / (V[0][1] - V[n - 1][1]) for i in range(1, n - 1)] + [INF]
    smallest_dropped(ctx, idx, crowd, "most-crowded-dropped")


@harness(quick=[dict(n=2, size=1, m=2), dict(n=3, size=2, m=1), dict(n=3, size=2, m=2, mid=1),
                dict(n=3, size=2, m=2, mid=2), dict(n=3, size=1, m=2, grid=8)],
         thorough=[dict(n=3, size=2, m=2), dict(n=3, size=1, m=1), dict(n=4, size=3, m=1),
                   dict(n=3, size=1, m=2, grid=16), dict(n=4, size=2, m=2, grid=6)], path_s=200, query_ms=15000)
def epsilon_indicator(ctx):
    """IBEA repeatedly drops the member with the worst indicator fitness among those left"""
    import math
    ctx.coarse()
    p = ctx.p
    n, size, m = p["n"], p["size"], p["m"]
    kappa = 0.5
    V = [[0.0] * m for i in range(n)]
    if p.get("grid"):       # later drops hang on the exponential's values: any members on a grid
        V[0][1] = V[1][0] = 1.0
        for i in range(2, n):
            V[i] = [(1 + ctx.choose("f%d_%d" % (i, k), p["grid"] - 1)) / float(p["grid"]) for k in range(m)]
    for k in range(0 if p.get("grid") else m):
        order = list(range(n)) if k == 0 else [1, 2, 0][-n:] if n < 4 else [1, 3, 0, 2]
        if n == 2:
            order = [0, 1] if k == 0 else [1, 0]
        if p.get("mid") and k:
            order = [[2, 1, 0], [0, 1, 2]][p["mid"] - 1]
        # the scale of an objective is arbitrary: it runs from 0 to 1
        V[order[-1]][k] = 1.0
        for a, b in zip(order, order[1:-1]):
            V[b][k] = ctx.real("f%d_%d" % (b, k), 0, 1)
            ctx.assume(V[b][k] - V[a][k] >= 0.0625)
    vs, d = pool("IBEA", V, size, kappa=kappa)
    idx = indices([list(v) for v in d.finalized_population()], vs, lambda a, b: list(a) == list(b))
    ctx.check(len(idx) == size and len(set(idx)) == size and all(i >= 0 for i in idx), "population-size")
    low = [ctx.Min([v[k] for v in V]) for k in range(m)]
    wide = [ctx.Max([v[k] for v in V]) - low[k] for k in range(m)]
    Z = [[(v[k] - low[k]) / wide[k] for k in range(m)] for v in V]
    I = {(i, j): ctx.Max([Z[i][k] - Z[j][k] for k in range(m)]) for i in range(n) for j in range(n)}
    c = ctx.Max([abs(v) for v in I.values()])
    loss = {k: math.exp(-1 * (v / abs(c * kappa))) for k, v in I.items() if k[0] != k[1]}
    left = list(range(n))
    while len(left) > size:
        fit = {j: -sum(loss[(i, j)] for i in left if i != j) for j in left}
        gone = [j for j in left if j not in idx]
        if p.get("grid") and sorted(fit.values())[1] - sorted(fit.values())[0] < 1e-6:
            break           # a tie: either may go
        if len(gone) == 1:
            for j in left:
                ctx.check(ctx.le(fit[gone[0]], fit[j], 1e-6), "worst-fitness-dropped")
            break
        worst = left[0]
        for j in left[1:]:
            if fit[j] < fit[worst]:
                worst = j
        if not ctx.all(ctx.Or(j == worst, fit[j] > fit[worst] + 1e-6) for j in left):
            break
        ctx.check(worst not in idx, "worst-fitness-dropped")
        left.remove(worst)


@harness(quick=[dict(m=2), dict(m=3)], thorough=[dict(m=4)])
def reference_points(ctx):
    """NSGA-III: reference points lie on the unit simplex, whatever the draws"""
    N = importlib.import_module("algorithms.NSGAIII.NSGAIII")
    ctx.need(N, "generate_reference_point")
    draws = [ctx.real("u", 0.001, 1) for _ in range(ctx.p["m"])]
    left = list(draws)
    ctx.policy(random=lambda: left.pop(0) if left else 0.5, replay=True)
    p = list(N.generate_reference_point(ctx.p["m"]))
    ctx.check(len(p) == ctx.p["m"], "one-coordinate-per-objective")
    for v in p:
        ctx.check(ctx.And(v >= -1e-9, v <= 1 + 1e-9), "inside-the-simplex")
    ctx.check(ctx.close(sum(p), 1.0, 1e-6), "on-the-simplex")


@harness(quick=[dict(n=3, k=1), dict(n=3, k=2, g=1.0), dict(n=3, k=2, g=5.5)], thorough=[dict(n=3, k=2), dict(n=4, k=2, g=3.0)],
         path_s=120, query_ms=15000)
def scalarised_fitness(ctx):
    """NSGA-III: nearest reference line, distance along it plus theta times the distance from it"""
    ctx.coarse()
    n, k = ctx.p["n"], ctx.p["k"]
    draws = [0.5, 0.2]
    i = [0]

    def draw():
        i[0] += 1
        return draws[(i[0] - 1) % 2] if i[0] <= k else 0.5
    ctx.policy(random=draw, index="first", shuffle="id", replay=True)
    V = [[ctx.real("f", 0, 8), ctx.p.get("g") or ctx.real("g", 0, 8)] for _ in range(n - 2)] + [[0.0, 8.0], [8.0, 0.0]]
    vs, fits = given(V)
    d = make("NSGAIII", vs[:k], unit_dims(), fits, theta=3)
    ctx.need(d, "clustering", "normalize", "calculate_theta_fitness", "reference_points")
    Ind = type(d.individuals[0])
    inds = [Ind(v) for v in vs]
    d.update_ideal_point(inds)
    d.normalize(inds)
    d.clustering(inds)
    d.calculate_theta_fitness()
    refs = [[float(c) for c in p] for p in d.reference_points]
    for r, want in zip(refs, draws):
        ctx.check(abs(r[0] - (1 - want)) < 1e-6 and abs(r[1] - want) < 1e-6, "reference-direction")
    low = [ctx.Min([v[o] for v in V]) for o in range(2)]
    high = [ctx.Max([v[o] for v in V]) for o in range(2)]
    for x, v in zip(inds, V):
        z = [(v[o] - low[o]) / (high[o] - low[o]) for o in range(2)]
        for a, b in zip(x.normalized_objectives, z):
            ctx.check(ctx.close(a, b, 1e-6), "normalised-by-the-range")
        # in the plane both distances are linear: along (w . z), across |w x z|
        along, across = [], []
        for w in refs:
            s = (w[0] ** 2 + w[1] ** 2) ** 0.5
            along.append((w[0] * z[0] + w[1] * z[1]) / s)
            across.append(abs(w[0] * z[1] - w[1] * z[0]) / s)
        at = x.cluster
        ctx.check(0 <= at < len(refs) and any(x is y for y in d.clusters[at]), "member-of-its-cluster")
        for j in range(len(refs)):
            ctx.check(ctx.le(across[at], across[j], 1e-5), "nearest-direction")
        ctx.check(ctx.close(x.theta_fitness, along[at] + 3 * across[at], 1e-5), "theta-fitness")


@harness(quick=[dict(n=3, size=2), dict(n=4, size=3), dict(n=5, size=3), dict(n=4, size=2), dict(n=5, size=4, ends=1)],
         thorough=[dict(n=5, size=4), dict(n=6, size=4), dict(n=6, size=5, ends=1)], path_s=60)
def farthest_candidate(ctx):
    """NSLS completes the population with the extremes of the front, then with the farthest candidates"""
    n, size = ctx.p["n"], ctx.p["size"]
    V = front(ctx, chain(n))
    x = [ctx.real("x", 0, 1) for _ in range(n)]
    if ctx.p.get("ends"):
        x[0], x[-1] = 0.0, 1.0
    order = list(range(n))
    order = order[1:] + order[:1]
    N = importlib.import_module("algorithms.NSLS.NSLS")
    ctx.need(N, "Individual")
    fits = [lambda v: 0.0, lambda v: 1.0]
    d = make("NSLS", grid(size), unit_dims(), fits)
    ctx.need(d, "nd_sort", "next_generation")
    inds = []
    for i in order:
        ind = N.Individual([x[i]])
        ind.objectives = dict(zip(d.objectives, V[i]))
        inds.append((i, ind))
    d.individuals = [b for a, b in inds]
    d.nd_sort()
    d.next_generation()
    idx = [[a for a, b in inds if b is y][0] for y in d.individuals]
    ctx.check(len(idx) == size and len(set(idx)) == size, "population-size")
    ctx.check(0 in idx and n - 1 in idx, "extremes-kept")
    rest = [i for i in idx if i not in (0, n - 1)]
    chosen = [0, n - 1]
    # some order of the rest takes the farthest candidate each time
    ok = []
    for perm in itertools.permutations(rest):
        cond = True
        have = [0, n - 1]
        for i in perm:
            dist = {j: ctx.Min([abs(x[j] - x[h]) for h in have]) for j in range(n) if j not in have}
            cond = ctx.And(cond, *[ctx.le(dist[j], dist[i], 1e-6) for j in dist])
            have.append(i)
        ok.append(cond)
    ctx.check(ctx.any(ok), "farthest-candidates")


XS = [0.0, 1.5, 2.25, 4.5, 5.0, 7.75, 8.5, 11.0, 12.25, 12.75, 15.0, 16.5]
YS = [24.0, 21.25, 20.75, 18.0, 15.5, 15.0, 12.0, 9.75, 9.0, 5.25, 3.0, 0.0]


def ladder(ctx, n, free):
    """a front of many fixed members (two objectives), those listed in `free` anywhere between their neighbours"""
    V = [[XS[i], YS[i + len(YS) - n]] for i in range(n)]
    for i in free:
        V[i] = [ctx.real("x%d" % i, 0, 20), ctx.real("y%d" % i, 0, 30)]
    for i in range(1, n):
        if i in free or i - 1 in free:
            ctx.assume(ctx.And(V[i][0] - V[i - 1][0] >= 0.125, V[i - 1][1] - V[i][1] >= 0.125))
    return V


def mixed(n):
    """an order in which neighbours of the front are far apart"""
    return sorted(range(n), key=lambda i: (i * 5) % n if n % 5 else (i * 7) % n)


def shares(V):
    """crowding of the inner members of a front, relative to its range"""
    at = list(range(len(V)))
    wide = V[at[-1]][0] - V[at[0]][0]
    high = V[at[0]][1] - V[at[-1]][1]
    return {b: (V[c][0] - V[a][0]) / wide + (V[a][1] - V[c][1]) / high for a, b, c in zip(at, at[1:], at[2:])}


@harness(quick=[dict(algo="NSGAII", n=9, size=5, free=(4,)), dict(algo="JGBL", n=8, size=6, free=(2,)),
                dict(algo="NSGAII", n=12, size=3, free=(9,))],
         thorough=[dict(algo="NSGAII", n=9, size=5, free=(4, 5)), dict(algo="JGBL", n=12, size=8, free=(2,)),
                   dict(algo="NSGAII", n=12, size=9, free=(9, 3))], path_s=60)
def crowding_in_a_long_front(ctx):
    """many equally good members are cut by crowding distance"""
    p = ctx.p
    V = ladder(ctx, p["n"], p["free"])
    order = mixed(p["n"])
    vs, d = pool(p["algo"], [V[i] for i in order], p["size"])
    idx = [order[i] for i in kept_of(ctx, d.finalized_population(), vs, p["size"])]
    n = p["n"]
    crowd = shares(V)
    ctx.check(0 in idx and n - 1 in idx, "extremes-kept")
    for x in crowd:
        for y in crowd:
            if x not in idx and y in idx:
                ctx.check(ctx.le(crowd[x], crowd[y], 1e-6), "most-crowded-dropped")


@harness(quick=[dict(n=9, free=(4,)), dict(n=8, free=(0, 7)), dict(n=7, free=(2, 3), behind=2)],
         thorough=[dict(n=12, free=(4, 9)), dict(n=12, free=(3, 4)), dict(n=11, free=(2, 5), behind=3)], path_s=60, query_ms=15000)
def contribution_in_a_long_front(ctx):
    """SMS-EMOA: the least contributor of a long worst front goes"""
    S = importlib.import_module("algorithms.SMSEMOA.SMSEMOA")
    ctx.need(S, "Individual")
    n, back = ctx.p["n"], ctx.p.get("behind", 0)
    V = ladder(ctx, n, ctx.p["free"])
    total = [[-1.0 - i, -3.0 + i] for i in range(back)] + V
    vs = grid(len(total))
    d = make("SMSEMOA", [vs[0]], unit_dims(), [lambda v: 0.0] * 2, reference_point=[32.0, 32.0])
    ctx.need(d, "reduce_population")
    inds = []
    for i in mixed(len(total)):
        ind = S.Individual(vs[i])
        ind.objectives = total[i]
        inds.append(ind)
    out = d.reduce_population(list(inds))
    idx = kept_of(ctx, [x.value for x in out], vs, len(total) - 1)
    ctx.check(all(i in idx for i in range(back)), "worst-front-first")
    share = [((V[i + 1][0] if i + 1 < n else 32.0) - V[i][0]) * ((V[i - 1][1] if i else 32.0) - V[i][1]) for i in range(n)]
    smallest_dropped(ctx, [i - back for i in idx], share, "least-contributor-dropped")


GOLOMB = [0, 1, 5, 12, 25, 27, 35, 41, 44]


@harness(quick=[dict(size=5, at=4), dict(size=3, at=6)], thorough=[dict(size=2, at=s) for s in (1, 2, 3, 5, 7)], path_s=120, query_ms=15000)
def truncation_of_a_long_front(ctx):
    """SPEA2: thinned one by one, the distances taken anew after every removal"""
    size, at = ctx.p["size"], ctx.p["at"]
    n = len(GOLOMB)
    x = [float(v) for v in GOLOMB]
    x[at] = ctx.real("x", x[at - 1] + 0.125, x[at + 1] - 0.125)
    free = [abs(x[at] - x[j]) for j in range(n) if j != at]
    fixed = sorted({abs(a - b) for i, a in enumerate(x) for j, b in enumerate(x) if at not in (i, j) and i < j})
    for i, a in enumerate(free):
        for b in fixed + free[:i]:
            ctx.assume(ctx.Or(a - b >= 0.0625, b - a >= 0.0625))
    V = [[3 * v, 256.0 - 4 * v] for v in x]
    order = mixed(n)
    vs, fits = given([V[i] for i in order])
    d = make("SPEA2", vs[:size], unit_dims(), fits)
    ctx.need(d, "environmental_selection")
    inds = [{"value": vs[i], "objectives": V[order[i]], "fitness": 0.25} for i in range(n)]
    out = d.environmental_selection(inds[size:], inds[:size])
    idx = [order[i] for i in kept_of(ctx, [y["value"] for y in out], vs, size)]
    left = list(range(n))
    while len(left) > size:
        dist = {i: in_order([abs(x[i] - x[j]) for j in left if j != i]) for i in left}
        worst = left[0]
        for i in left[1:]:
            if lexless(ctx, dist[i], dist[worst], 0):
                worst = i
        left.remove(worst)
    ctx.check(sorted(idx) == left, "thinned-one-by-one", "%s %s" % (sorted(idx), left))


@harness(quick=[dict(n=9, size=5, free=(4,)), dict(n=10, size=8, free=(3,))],
         thorough=[dict(n=12, size=4, free=(5,)), dict(n=12, size=7, free=(2,)), dict(n=9, size=5, free=(4, 6))], path_s=60)
def leaders_of_a_long_front(ctx):
    """OMOPSO: each time one leader too many arrives, the most crowded of those there goes"""
    O = importlib.import_module("algorithms.OMOPSO.OMOPSO")
    ctx.need(O, "LeaderArchive", "Individual")
    n, size = ctx.p["n"], ctx.p["size"]
    V = ladder(ctx, n, ctx.p["free"])
    A = O.LeaderArchive(size)
    have = []
    for i in mixed(n):
        ind = O.Individual([float(i)])
        ind.objectives = list(V[i])
        ctx.check(A.add(ind) is not False, "non-dominated-accepted")
        have = sorted(have + [i])
        now = sorted(int(x.value[0]) for x in A)
        if len(have) > size:
            gone = [j for j in have if j not in now]
            ctx.check(len(gone) == 1 and len(now) == size, "archive-size")
            wide, high = V[have[-1]][0] - V[have[0]][0], V[have[0]][1] - V[have[-1]][1]
            crowd = {b: (V[b][0] - V[a][0]) / wide + (V[b][1] - V[c][1]) / high   # its own measure: see leader_archive
                     for a, b, c in zip(have, have[1:], have[2:])}
            ctx.check(gone[0] in crowd, "extremes-kept")
            for j in crowd:
                ctx.check(ctx.le(crowd[gone[0]], crowd[j], 1e-6), "most-crowded-dropped")
        else:
            ctx.check(now == have, "archive-size")
        have = now


@harness(quick=[dict(n=9, size=6, at=(4,)), dict(n=8, size=3, at=(0,))], thorough=[dict(n=12, size=9, at=(4,)), dict(n=10, size=6, at=(2, 7))],
         path_s=60)
def farthest_in_a_long_front(ctx):
    """NSLS: after the extremes, the candidate farthest from those taken, one by one"""
    n, size = ctx.p["n"], ctx.p["size"]
    V = ladder(ctx, n, ())
    x = [((i * 23 + i * i * 7) % 64) / 64.0 for i in range(n)]
    for i in ctx.p["at"]:
        x[i] = ctx.real("x", 0, 1)
    N = importlib.import_module("algorithms.NSLS.NSLS")
    ctx.need(N, "Individual")
    d = make("NSLS", grid(size), unit_dims(), [lambda v: 0.0, lambda v: 1.0])
    ctx.need(d, "nd_sort", "next_generation")
    inds = []
    for i in mixed(n):
        ind = N.Individual([x[i]])
        ind.objectives = dict(zip(d.objectives, V[i]))
        inds.append((i, ind))
    d.individuals = [b for a, b in inds]
    d.nd_sort()
    d.next_generation()
    idx = [[a for a, b in inds if b is y][0] for y in d.individuals]
    ctx.check(len(idx) == size and len(set(idx)) == size, "population-size")
    ctx.check(0 in idx and n - 1 in idx, "extremes-kept")
    have = [0, n - 1]
    while len(have) < size:
        dist = {j: ctx.Min([abs(x[j] - x[h]) for h in have]) for j in range(n) if j not in have}
        best = [j for j in dist if bool(ctx.all(dist[j] >= dist[k] for k in dist))]
        close = [j for j in dist if bool(dist[j] >= dist[best[0]] - 1e-6)]
        if len(close) > 1:
            break           # a tie: either may be taken
        ctx.check(best[0] in idx, "farthest-candidates", "%s %s" % (best[0], idx))
        have.append(best[0])
