"""C14: the island model conserves individuals, evaluations and schedule."""
from sx.harness import harness

from .common import ALGOS, EXTRA, Fit, driver_class, grid, ranks, unit_dims


class Ind:
    def __init__(self, v):
        self.v = v


def stub_class(ctx, costs=None):
    """An island driver that only counts: its steps and their costs are free."""
    from algorithms.base.driver import Driver

    class Stub(Driver):
        made = []

        def __init__(self, population, dims=None, fitnesses=None, mutation_eta=None, mutation_rate=None,
                     crossover_eta=None, crossover_rate=None, message_adapter_factory=None, **kw):
            super().__init__(message_adapter_factory)
            self.individuals = [Ind(v) for v in population]
            self.steps = 0
            Stub.made.append(self)

        @property
        def population(self):
            return [i.v for i in self.individuals]

        def finalized_population(self):
            return [i.v for i in self.individuals]

        def step(self):
            self.cost = self.cost + (costs() if costs else 1)
            self.steps += 1
    return Stub


def immediate_threads(ctx):
    """new-thread scheduling runs at once, on the thread that asks for it"""
    from rx.scheduler import ImmediateScheduler, NewThreadScheduler
    now = ImmediateScheduler()
    ctx.patch(NewThreadScheduler, "schedule", lambda self, action, state=None: now.schedule(action, state))


def imga(ctx, population, fitnesses, islands, migrants, epoch, driver, factory=None, **kw):
    from algorithms.IMGA import IMGA as pkg
    import importlib
    mod = importlib.import_module("algorithms.IMGA.IMGA")
    from algorithms.IMGA.message import DefaultIMGAMessageAdapter
    immediate_threads(ctx)
    d = mod.IMGA(population=population, dims=unit_dims(), fitnesses=fitnesses, islands_number=islands,
                    migrants_number=migrants, epoch_length=epoch, driver=driver, mutation_eta=20.0,
                    crossover_eta=20.0, mutation_rate=0.5, crossover_rate=0.5,
                    driver_message_adapter_factory=factory or DefaultIMGAMessageAdapter, **kw)
    if hasattr(d, "topology"):
        # sets are iterated in another order by each interpreter
        d.topology = [sorted(ns) for ns in d.topology]
    return d


def split(d):
    return [[list(v) for v in i.driver.population] for i in d.islands]


@harness(quick=[dict(top=10, islands=5)], thorough=[dict(top=40, islands=8)], path_s=30)
def partition(ctx):
    """islands start from a partition of the initial population, as even as possible"""
    k = int(ctx.int("islands", 1, ctx.p["islands"]))
    n = int(ctx.int("n", 1, ctx.p["top"]))
    ctx.assume(n >= k)
    pop = [[float(i)] for i in range(n)]
    d = imga(ctx, pop, [lambda v: v[0]], k, 1, 1, stub_class(ctx))
    parts = split(d)
    ctx.check(len(parts) == k, "island-number")
    ctx.check(sorted(v for p in parts for v in p) == [[float(i)] for i in range(n)], "partition",
              "%s" % [len(p) for p in parts])
    sizes = [len(p) for p in parts]
    ctx.check(max(sizes) - min(sizes) <= 1, "even-split", "%s" % sizes)
    ctx.check(pop == [[float(i)] for i in range(n)], "input-kept")
    final = d.finalized_population()
    for _ in range(2):
        ctx.check(sorted(list(v) for v in final) == [[float(i)] for i in range(n)], "final-population-is-the-union")
    ctx.check(sorted(list(v) for v in d.finalized_population()) == [[float(i)] for i in range(n)],
              "final-population-is-the-union")
    ctx.check(d.cost == 0, "no-cost-yet")


@harness(quick=[dict(islands=k, epoch=e, steps=2) for k in (1, 2, 3, 5) for e in (1, 2)],
         thorough=[dict(islands=k, epoch=e, steps=3) for k in (1, 2, 4, 6) for e in (1, 3)], path_s=60)
def schedule(ctx):
    """each step runs one epoch on every island, then migrates; cost is the sum over the islands"""
    k, e, steps = ctx.p["islands"], ctx.p["epoch"], ctx.p["steps"]
    spent = []

    def costs():
        spent.append(ctx.int("c", 0, 100))
        return spent[-1]
    ctx.policy(index="first", unit=0.25)
    cls = stub_class(ctx, costs)
    d = imga(ctx, grid(5 * k), [lambda v: v[0]], k, 1, e, cls)
    for s in range(steps):
        m = d.next_step()
        ctx.check([i.driver.steps for i in d.islands] == [(s + 1) * e] * k, "one-epoch-per-step")
        ctx.check(d.cost == sum(spent), "cost-is-the-sum")
        ctx.check(ctx.And(m.cost == d.cost, m.step_no == s), "message")
        ctx.check(d.cost == sum(i.driver.cost for i in d.islands), "cost-of-the-islands")
        ctx.check(sorted(v for p in split(d) for v in p) == grid(5 * k), "individuals-conserved")
        ctx.check([len(p) for p in split(d)] == [5] * k, "island-sizes")


def below_one(ctx):
    """position of a uniform draw: its upper end is not reached by random.uniform(0, x)"""
    u = ctx.real("u", 0, 1)
    ctx.assume(u <= 0.999999)
    return u


def moves(ctx, d, before, after, migrants, known):
    """individuals move only along links, the configured number along each"""
    home = {}
    for i, p in enumerate(before):
        for v in p:
            home[tuple(v)] = i
    ctx.check(sorted(v for p in after for v in p) == sorted(v for p in before for v in p), "individuals-conserved")
    ctx.check([len(p) for p in after] == [len(p) for p in before], "island-sizes")
    k = len(before)
    for j, p in enumerate(after):
        arrived = [home[tuple(v)] for v in p]
        for i in range(k):
            if i != j:
                ctx.check(arrived.count(i) == (migrants if i in known[j] else 0), "migrants-per-link",
                          "%d to %d: %d" % (i, j, arrived.count(i)))


LINKS = {1: [[]], 2: [[1], [0]], 3: [[1, 2], [0, 2], [0, 1]], 4: [[1, 3], [0, 2], [1, 3], [0, 2]],
         5: [[1, 3, 4], [0, 2], [1, 3], [0, 2], [0]]}


@harness(quick=[dict(islands=2, size=2, migrants=1, twice=1), dict(islands=2, size=2, migrants=2), dict(islands=3, size=2, migrants=1),
                dict(islands=1, size=2, migrants=1), dict(islands=2, size=3, migrants=1), dict(islands=2, size=3, migrants=0)],
         thorough=[dict(islands=2, size=3, migrants=2), dict(islands=2, size=3, migrants=1, twice=1), dict(islands=4, size=2, migrants=1),
                   dict(islands=3, size=3, migrants=1), dict(islands=2, size=4, migrants=1)], path_s=60)
def migration(ctx):
    """any objectives, any draws: who moves where"""
    k, s, g = ctx.p["islands"], ctx.p["size"], ctx.p["migrants"]
    ctx.policy(unit=lambda: below_one(ctx))
    fit = Fit(ctx, 1)
    pop = grid(k * s)
    d = imga(ctx, pop, fit.fitnesses, k, g, 1, stub_class(ctx))
    before = split(d)
    people = {tuple(i.v): i for isl in d.islands for i in isl.driver.individuals}
    d.migration()
    after = split(d)
    moves(ctx, d, before, after, g, LINKS[k])
    for isl in d.islands:
        for i in isl.driver.individuals:
            ctx.check(people[tuple(i.v)] is i, "individual-itself-moves")
    if ctx.p.get("twice"):
        d.migration()
        ctx.check(sorted(v for p in split(d) for v in p) == sorted(pop), "individuals-conserved")
        ctx.check([len(p) for p in split(d)] == [s] * k, "island-sizes")
    ctx.observe("after", [sorted(p) for p in after])


@harness(quick=[dict(size=2, m=2), dict(size=3, m=1)], thorough=[dict(size=3, m=2), dict(size=4, m=1)], path_s=60)
def rank_weighted(ctx):
    """a migrant comes from the front selected by a draw weighted 1, 1/2, 1/3, ... from the best front down"""
    s = ctx.p["size"]
    units = ctx.reals("u", 2, 0, 1)
    for u in units:
        ctx.assume(u < 1)
    todo = list(units)
    ctx.policy(unit=lambda: todo.pop(0))
    fit = Fit(ctx, ctx.p["m"])
    d = imga(ctx, grid(2 * s), fit.fitnesses, 2, 1, 1, stub_class(ctx))
    before = split(d)
    d.migration()
    after = split(d)
    harmonic = [sum(1.0 / (j + 1) for j in range(i)) for i in range(s + 1)]
    for i in (0, 1):
        gone = [v for v in before[i] if v not in after[i]]
        ctx.check(len(gone) == 1, "one-migrant")
        r = ranks(ctx, [fit.vec(v) for v in before[i]])
        mine = r[before[i].index(gone[0])]
        total = ctx.Max(r)
        ok = []
        for t in range(1, s + 1):
            for q in range(1, t + 1):
                ok.append(ctx.And(total == t, mine == q, units[i] * harmonic[t] <= harmonic[q] + 1e-9,
                                  units[i] * harmonic[t] >= harmonic[q - 1] - 1e-9))
        ctx.check(ctx.any(ok), "front-selected-by-weight")


@harness(quick=[dict(free=2)], thorough=[dict(free=i) for i in range(5)], path_s=60)
def next_migrant(ctx):
    """a further migrant is drawn from the fronts of the members still there"""
    u = ctx.reals("u", 2, 0, 1)
    for x in u:
        ctx.assume(x <= 0.999)
    todo = list(u) + [0.25, 0.5]
    ctx.policy(unit=lambda: todo.pop(0))
    pop = grid(10)
    table = [[0.0, 3.0], [3.0, 0.0], [1.0, 4.0], [4.0, 1.0], [5.0, 5.0]]
    value = {}
    for i, v in enumerate(pop):
        value[tuple(v)] = list(table[i % 5])
    d = imga(ctx, pop, [lambda v: value[tuple(v)][0], lambda v: value[tuple(v)][1]], 2, 2, 1, stub_class(ctx))
    before = split(d)
    for i, v in enumerate(before[0]):
        value[tuple(v)] = list(table[i])
    value[tuple(before[0][ctx.p["free"]])][1] = ctx.real("f", -1, 6)
    d.migration()
    after = split(d)
    gone = [v for v in before[0] if v not in after[0]]
    ctx.check(len(gone) == 2, "two-migrants")
    harmonic = [sum(1.0 / (j + 1) for j in range(i)) for i in range(6)]

    def drawn(u, v, among):
        r = ranks(ctx, [value[tuple(x)] for x in among])
        mine, total = r[among.index(v)], ctx.Max(r)
        return ctx.any(ctx.And(total == t, mine == q, u * harmonic[t] <= harmonic[q] + 1e-9, u * harmonic[t] >= harmonic[q - 1] - 1e-9)
                       for t in range(1, 6) for q in range(1, t + 1))

    ok = []
    for first, second in ((0, 1), (1, 0)):
        rest = [v for v in before[0] if v != gone[first]]
        ok.append(ctx.And(drawn(u[0], gone[first], before[0]), drawn(u[1], gone[second], rest)))
    ctx.check(ctx.any(ok), "front-selected-by-weight")


@harness(quick=[dict(size=7, free=3)], thorough=[dict(size=9, free=0), dict(size=12, free=5)], path_s=60)
def many_fronts(ctx):
    """as many fronts as members, but for one of any value: the draw is weighted 1, 1/2, 1/3, ... down to the last front"""
    s = ctx.p["size"]
    u = ctx.real("u", 0, 1)
    ctx.assume(u <= 0.999)
    todo = [u, 0.5]
    ctx.policy(unit=lambda: todo.pop(0))
    pop = grid(2 * s)
    value = {tuple(v): float(i * 5 % s) for i, v in enumerate(pop)}
    d = imga(ctx, pop, [lambda v: value[tuple(v)]], 2, 1, 1, stub_class(ctx))
    before = split(d)
    for i, v in enumerate(before[0]):
        value[tuple(v)] = float(i * 5 % s)
    free = ctx.real("f", -1, s)
    value[tuple(before[0][ctx.p["free"]])] = free
    d.migration()
    after = split(d)
    gone = [v for v in before[0] if v not in after[0]]
    ctx.check(len(gone) == 1, "one-migrant")
    values = sorted({x for v in before[0] for x in [value[tuple(v)]] if x is not free})
    if bool(ctx.any(free == x for x in values)):
        total, mine = len(values), None
    else:
        total = len(values) + 1
    x = value[tuple(gone[0])]
    # one objective: the rank of a value is one more than the number of distinct smaller ones
    mine = 1 + sum(1 for y in values if bool(y < x)) + (1 if total > len(values) and x is not free and bool(free < x) else 0)
    harmonic = [sum(1.0 / (j + 1) for j in range(i)) for i in range(s + 1)]
    ctx.check(ctx.And(u * harmonic[total] <= harmonic[mine] + 1e-9, u * harmonic[total] >= harmonic[mine - 1] - 1e-9),
              "front-selected-by-weight", "%d of %d" % (mine, total))


@harness(quick=[dict(algo=a, islands=2, size=2) for a in ALGOS] + [dict(algo=a, islands=2, size=2, twins=1) for a in ALGOS] +
         [dict(algo=a, islands=2, size=4, go=2) for a in ALGOS],
         thorough=[dict(algo=a, islands=3, size=5, go=2, twins=1) for a in ALGOS] + [dict(algo=a, islands=3, size=3) for a in ALGOS] + [dict(algo=a, islands=2, size=3, twins=1) for a in ALGOS],
         path_s=60)
def real_islands(ctx):
    """every algorithm as island: migrants keep their vectors and evaluations, the next steps run on them"""
    import functools
    from .c07 import draws
    from .c13 import adapter, objectives_of, vector_of

    algo, k, s = ctx.p["algo"], ctx.p["islands"], ctx.p["size"]
    draws(ctx)
    shape = ctx.choose("shape", 3)
    table = [[float((i * 5 + shape) % 7 if shape else i)] for i in range(400)]
    fit = Fit(ctx, 1, known={i: table[i] for i in range(400)})
    extra = dict(EXTRA[algo])
    if "reference_point" in extra:
        extra["reference_point"] = [50.0]
    pop = grid(k * s)
    if ctx.p.get("twins"):
        # members of an island may be alike
        pop = [list(pop[i // s * s]) for i in range(k * s)]
    go = ctx.p.get("go", 1)
    d = imga(ctx, pop, fit.fitnesses, k, go, 1, functools.partial(driver_class(algo), **extra), adapter(algo, "IMGA"))
    before = split(d)
    d.migration()
    moves(ctx, d, before, split(d), go, LINKS[k])
    for s_ in range(2):
        held = sum(len(p) for p in split(d))
        m = d.next_step()
        ctx.check(d.cost == sum(i.driver.cost for i in d.islands) and m.cost == d.cost, "cost-is-the-sum")
        for i in d.islands:
            for ind in i.driver.individuals:
                o = objectives_of(i.driver, ind)
                if o is not None:
                    ctx.check(o == fit.vec(vector_of(ind)), "evaluations-travel-along")
    a, b = [list(v) for v in d.finalized_population()], [list(v) for v in d.finalized_population()]
    ctx.check(sorted(a) == sorted(b), "final-population-read-twice")
    if algo != "OMOPSO":
        ctx.check(len(a) == k * s, "final-population-size", "%d" % len(a))
