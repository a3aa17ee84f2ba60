"""C16: classic hierarchic search: sprouting limits, stops, revival, charges."""
import importlib

from sx.harness import harness

from .common import ALGOS, EXTRA, Fit, driver_class, unit_dims

MOD = "algorithms.HGS.classic.ClassicHGS"
SIZES = (4, 3, 2)


def node_driver(ctx, costs, delegates):
    """A node algorithm that keeps its population; step costs and nominated members are free."""
    from algorithms.base.driver import Driver

    class Stub(Driver):
        made = []

        def __init__(self, population, dims=None, fitnesses=None, mutation_eta=None, mutation_rate=None,
                     crossover_eta=None, crossover_rate=None, message_adapter_factory=None, fitness_archive=None,
                     trim_function=None, **kw):
            super().__init__(message_adapter_factory)
            self.population = [list(v) for v in population]
            self.given = dict(mutation_eta=mutation_eta, mutation_rate=mutation_rate, crossover_eta=crossover_eta,
                              crossover_rate=crossover_rate, archive=fitness_archive, trim=trim_function)
            self.steps = 0
            self.index = len(Stub.made)
            Stub.made.append(self)
            self.cost = costs(self)

        def finalized_population(self):
            return [list(v) for v in self.population]

        def step(self):
            self.cost = self.cost + costs(self)
            self.steps += 1

    from algorithms.HGS.distributed.message import HGSMessageAdapter

    class Adapter(HGSMessageAdapter):
        def get_population(self):
            return [list(v) for v in self.driver.population]

        def nominate_delegates(self):
            return delegates(self.driver)

    return Stub, Adapter


WEIGHTS = (1.0, 0.5, 0.25)
LENS = [2, 1, 3]


def hgs(ctx, driver, adapter, positions, fitnesses=None, wrapped=False, **over):
    """wrapped: the driver the command line runs, which hands its settings on to the search"""
    mod = importlib.import_module(MOD)
    from .c14 import immediate_threads
    immediate_threads(ctx)
    kw = dict(population=positions, dims=unit_dims(len(positions[0])), fitnesses=fitnesses or [lambda v: v[0]],
              fitness_errors=(0.0, 0.0, 0.0), cost_modifiers=WEIGHTS, driver=driver,
              mutation_etas=(10.0, 12.0, 15.0), crossover_etas=(15.0, 20.0, 25.0),
              mutation_rates=[0.0, 0.0, 0.0], crossover_rates=[0.9, 0.8, 0.7], reference_point=(50.0,),
              mantissa_bits=(4, 16, 64), min_progress_ratio=[0.125, 0.25, 0.5], metaepoch_len=LENS,
              max_level=2, max_sprouts_no=2, sproutiveness=1, comparison_multipliers=(0.5, 0.25, 0.125),
              population_sizes=SIZES, driver_message_adapter_factory=adapter)
    kw.update(over)
    if wrapped:
        outer = importlib.import_module("algorithms.HGS.HGS").HGS(hgs_type="classic", **kw)
        ctx.need(outer, "hgs")
        ctx.need(outer.hgs, "nodes", "level_nodes", "root")
        return outer
    d = mod.ClassicHGS(**kw)
    ctx.need(d, "nodes", "level_nodes", "root")
    return d


def hypervolumes(ctx, value, module=MOD):
    """the dominated hypervolume of a node's population is free"""
    mod = importlib.import_module(module)
    ctx.need(mod, "HyperVolume")

    class HV:
        def __init__(self, ref):
            pass

        def compute(self, front):
            return value()
    ctx.patch(mod, "HyperVolume", HV)


def state(d):
    return [(n, n.alive, n.ripe, n.driver.steps, list(n.sprouts)) for n in d.nodes]


RUN = [dict(steps=2, sprouts=2, round=1, top=2), dict(steps=4, sprouts=1, round=1, top=2),
       dict(steps=5, sprouts=2, round=2, top=1, hv="stall"), dict(steps=7, sprouts=2, round=1, top=2, hv="stall"),
       dict(steps=7, sprouts=3, round=3, top=2, hv="stall", wide=1), dict(steps=6, sprouts=1, round=2, top=2, hv="two"),
       dict(steps=4, sprouts=2, round=1, top=1, wrap=1), dict(steps=7, sprouts=1, round=3, top=2, hv="stall", wide=1, wrap=1)]


@harness(quick=RUN, thorough=RUN + [dict(steps=8, sprouts=1, round=2, top=2, hv="two"),
                                    dict(steps=9, sprouts=2, round=2, top=2, hv="stall"),
                                    dict(steps=5, sprouts=2, round=2, top=2),
                                    dict(steps=12, sprouts=3, round=3, top=2, hv="stall", wide=1)], path_s=90)
def run(ctx):
    """whole steps: any step costs, hypervolumes and positions of the nominated members"""
    p = ctx.p
    spent, current, grown, place = [], [None], {}, {}

    def costs(driver):
        spent.append(ctx.int("cost", 0, 50))
        return spent[-1]

    def hv():
        k = id(current[0])
        seen = grown.setdefault(k, [])
        how = p.get("hv")
        if how is None:
            seen.append(ctx.real("hv", -4, 4))
        elif len(seen) < 2:
            seen.append(1.0 + len(seen))
        elif how == "stall":    # every node stops progressing as early as it can
            seen.append(seen[-1])
        else:
            seen.append(seen[-1] * (1, 4)[ctx.choose("progress", 2)])
        return seen[-1]
    positions = (0.0, 0.1, 0.3, 0.95)

    def delegates(driver):
        current[0] = driver
        here = driver.population[0][0]
        if p.get("wide"):
            return [[here + 0.5], [here + 0.25], [here + 0.75], [here + 0.125], [here - 0.125]]
        if id(driver) not in place:
            place[id(driver)] = positions[ctx.choose("place", 4)]
        return [[place[id(driver)]], [here]]

    ctx.policy(index="first", shuffle="id", random=0.9, unit=0.5)
    stub, adapter = node_driver(ctx, costs, delegates)
    hypervolumes(ctx, hv)
    pop = [[i / 16.0] for i in range(8)]
    outer = hgs(ctx, stub, adapter, pop, wrapped=bool(p.get("wrap")), max_sprouts_no=p["sprouts"],
                sproutiveness=p["round"], max_level=p["top"])
    d = outer.hgs if p.get("wrap") else outer
    ctx.check(len(d.nodes) == 1 and d.root.level == 0 and len(d.root.driver.population) == SIZES[0], "one-root")
    ctx.check(all(v in pop for v in d.root.driver.population), "root-from-the-initial-population")
    for s in range(p["steps"]):
        before = state(d)
        m = outer.next_step()
        # charges
        total = 0
        for n, alive, ripe, steps, _ in before:
            ctx.check(n.driver.steps - steps == (LENS[n.level] if alive else 0), "active-nodes-run-one-metaepoch",
                      "level %d" % n.level)
        for n, *_ in before:
            total = total + WEIGHTS[n.level] * n.driver.cost
        ctx.check(outer.cost == total, "cost-is-the-weighted-sum")
        ctx.check(getattr(m, "cost", None) == outer.cost and getattr(m, "step_no", None) == s, "message-cost")
        # the tree
        known = [n for n, *_ in before]
        fresh = [n for n in d.nodes if all(n is not k for k in known)]
        ctx.check(all(any(n is k for k in d.nodes) for n in known), "no-node-lost")
        owned = []
        for n in d.nodes:
            mine = [c for c in n.sprouts if any(c is f for f in fresh)]
            owned.extend(mine)
            ctx.check(len(mine) <= p["round"], "at-most-sproutiveness-per-round", "%d" % len(mine))
            if mine:
                old = [c for c in n.sprouts if all(c is not f for f in mine)]
                ctx.check(len([c for c in old if c.alive]) + len(mine) <= p["sprouts"], "at-most-max-active-children")
                ctx.check(n.level < p["top"], "deepest-level-never-sprouts")
            for c in mine:
                ctx.check(c.level == n.level + 1, "child-one-level-down")
                ctx.check(len(c.driver.population) == SIZES[c.level], "child-population-size")
                ctx.check(any(c.driver.population[0] == list(x) for x in n.delegates), "child-around-a-nominated-member")
                ctx.check(bool(c.alive) and c.driver.steps == 0, "child-active-and-fresh")
                ctx.check(c.driver.given["mutation_rate"] == 0.0 and c.driver.given["mutation_eta"] == (10.0, 12.0, 15.0)[c.level]
                          and c.driver.given["crossover_eta"] == (15.0, 20.0, 25.0)[c.level]
                          and c.driver.given["crossover_rate"] == (0.9, 0.8, 0.7)[c.level], "child-gets-its-levels-settings")
        ctx.check(len(owned) == len(fresh), "every-new-node-has-one-parent")
        for i in range(3):
            here = [n for n in d.nodes if n.level == i]
            ctx.check(len(here) == len(d.level_nodes[i]) and all(any(n is k for k in here) for n in d.level_nodes[i]),
                      "levels-consistent")
        ctx.check(any(n.alive for n in d.nodes), "some-node-active")
    if p.get("wrap"):
        mod = importlib.import_module(MOD)
        ctx.need(mod, "trim_vector")
        for n in d.nodes:
            ctx.check(list(n.driver.given["trim"]([0.1])) == list(mod.trim_vector([0.1], (4, 16, 64)[n.level])),
                      "node-rounds-to-its-levels-precision", "level %d" % n.level)
    outer.shutdown()
    got = sorted(list(v) for v in outer.finalized_population())
    want = sorted(list(v) for n in d.nodes if n.driver.steps for v in n.driver.population)
    ctx.check(got == want, "final-population-of-all-nodes")
    ctx.observe("nodes", [(n.level, bool(n.alive), bool(n.ripe)) for n in d.nodes])


class Progress:
    """The gains of every node's metaepochs and what they must lead to."""

    def __init__(self, ctx, ratios):
        self.ctx, self.ratios, self.seen, self.halved = ctx, ratios, {}, 0
        self.current = None

    def start(self, key):
        self.current = key
        self.seen.setdefault(key, [])

    def value(self):
        """the hypervolume of the running node's population is free, nothing at first included"""
        got = self.ctx.real("hv", 0, 8)
        self.seen[self.current].append(got)
        return got

    def stalled(self, key, level):
        """(surely, surely not)"""
        h = self.seen[key]
        if len(h) < 3:
            return False, True
        new, old = h[-1] - h[0], h[-2] - h[0]
        gain = new - old - self.ratios[level] / 2 ** (level + self.halved) * old
        ctx = self.ctx
        return ctx.And(old > 1e-9, gain < -1e-6), ctx.Or(old <= 0, gain > 1e-6)

    def judge(self, active, stopped):
        """nodes (key, level, alive, ripe) as they are after a step in which only the first group ran

        False if what follows cannot be told."""
        ctx = self.ctx
        verdicts = [self.stalled(k, level) for k, level, _, _ in active]
        everyone = list(active) + list(stopped)
        if all(alive for _, _, alive, _ in everyone) and stopped:
            ctx.check(ctx.all(ctx.Not(no) for _, no in verdicts), "revived-only-when-all-have-stopped")
            self.halved += 1
            return True
        if not stopped and len(active) > 1 and all(alive for _, _, alive, _ in active):
            ctx.check(ctx.Or(ctx.all(ctx.Not(yes) for yes, _ in verdicts), ctx.all(ctx.Not(no) for _, no in verdicts)),
                      "stalled-node-is-stopped")
            return not ctx.any(ctx.Not(no) for _, no in verdicts)
        for (k, level, alive, ripe), (yes, no) in zip(active, verdicts):
            if alive:
                ctx.check(ctx.Not(yes), "stalled-node-is-stopped", "level %d" % level)
            else:
                ctx.check(ctx.Not(no), "stopped-only-for-lack-of-progress", "level %d" % level)
            ctx.check(bool(ripe) == (not alive), "stopped-node-may-sprout", "level %d" % level)
        for k, level, alive, ripe in stopped:
            ctx.check(not alive and bool(ripe), "stopped-nodes-untouched")
        return True


@harness(quick=[dict(steps=6), dict(steps=4, lens=1), dict(steps=8, fixed=1)],
         thorough=[dict(steps=7), dict(steps=8, lens=1), dict(steps=10, fixed=1)], path_s=90, query_ms=20000)
def progress(ctx):
    """a node's progress counts from its first metaepoch, over whole steps with any hypervolumes"""
    p = ctx.p
    ratios = [0.125, 0.25, 0.5]
    track = Progress(ctx, ratios)

    def delegates(driver):
        track.start(id(driver))
        return [[0.75]]
    ctx.policy(index="first", shuffle="id", random=0.9, unit=0.5)
    stub, adapter = node_driver(ctx, lambda driver: 1, delegates)
    flat = [2.0, 3.0] + [3.0] * 20

    def value():
        # the first steps of the root may be settled beforehand: it stops after its third metaepoch
        if p.get("fixed") and track.current == id(d.root.driver) and len(track.seen[track.current]) < 3:
            track.seen[track.current].append(flat[len(track.seen[track.current])])
            return track.seen[track.current][-1]
        return track.value()
    hypervolumes(ctx, value)
    over = dict(metaepoch_len=[1, 1, 1]) if p.get("lens") else {}
    d = hgs(ctx, stub, adapter, [[i / 16.0] for i in range(8)], min_progress_ratio=list(ratios), max_level=1,
            max_sprouts_no=1, **over)
    for _ in range(p["steps"]):
        before = [(n, bool(n.alive)) for n in d.nodes]
        d.step()
        now = lambda group: [(id(n.driver), n.level, bool(n.alive), bool(n.ripe)) for n in group]
        if not track.judge(now([n for n, a in before if a]), now([n for n, a in before if not a])):
            return
    ctx.observe("nodes", [(n.level, bool(n.alive), bool(n.ripe)) for n in d.nodes])


def nodes(ctx, d, level, k, width=1):
    """k nodes of a level in an arbitrary state"""
    mod = importlib.import_module(MOD)
    res = []
    for i in range(k):
        n = mod.ClassicHGS.Node(d, level, [[0.5] * width] * SIZES[level])
        n.population = [[ctx.real("at", 0, 1)]] if width == 1 else []
        d.nodes.append(n)
        d.level_nodes[level].append(n)
        res.append(n)
    return res


@harness(quick=[dict(level=l, k=1) for l in (0, 1, 2)] + [dict(level=1, k=2)],
         thorough=[dict(level=l, k=2) for l in (0, 2)] + [dict(level=1, k=3)], path_s=60)
def stop_stalled(ctx):
    """a node is stopped for lack of progress exactly when its relative gain is below its level's ratio"""
    stub, adapter = node_driver(ctx, lambda d: 1, lambda d: [])
    ctx.policy(index="first", shuffle="id")
    ratio = [0.125, 0.25, 0.5]
    d = hgs(ctx, stub, adapter, [[0.5]] * 4, min_progress_ratio=list(ratio))
    ctx.need(d, "trim_not_progressing")
    level = ctx.p["level"]
    ns = nodes(ctx, d, level, ctx.p["k"])
    was = []
    for n in ns:
        n.alive, n.ripe = bool(ctx.choose("alive", 2)), False
        if not n.alive:
            n.ripe = bool(ctx.choose("ripe", 2))
        n.hypervolume, n.old_hypervolume = ctx.real("hv", -4, 16), ctx.real("old", -4, 16)
        if ctx.choose("first", 3) == 0:
            n.old_hypervolume = float("-inf")
        if n.alive and len(was) % 2 == 0:
            n.center = [0.75]                   # it has been stopped and revived before
        was.append((n.alive, n.ripe, n.hypervolume, n.old_hypervolume))
    d.trim_not_progressing(ns)
    for n, (alive, ripe, hv, old) in zip(ns, was):
        if not alive or type(old) is float and old == float("-inf"):
            ctx.check(bool(n.alive) == alive and bool(n.ripe) == ripe, "no-reason-no-stop")
            continue
        gain = hv - old - ratio[level] / 2 ** level * old
        short = ctx.And(old > 0, gain < -1e-9)
        enough = ctx.Or(old <= 0, gain > 1e-9)
        if not n.alive:
            ctx.check(ctx.Not(enough), "stopped-only-for-lack-of-progress")
            ctx.check(bool(n.ripe), "stopped-node-may-sprout")
            ctx.check(ctx.close(n.center[0], n.population[0][0]), "centre-of-its-population")
        else:
            ctx.check(ctx.Not(short), "stalled-node-is-stopped")
            ctx.check(not n.ripe, "active-node-is-not-ripe")


@harness(quick=[dict(level=1, k=2), dict(level=2, k=2), dict(level=1, k=3)], thorough=[dict(level=1, k=4), dict(level=2, k=3)],
         path_s=60)
def stop_redundant(ctx):
    """a node is stopped for redundancy only when near one that is active or converged, and then it is"""
    stub, adapter = node_driver(ctx, lambda d: 1, lambda d: [])
    ctx.policy(index="first", shuffle="id")
    d = hgs(ctx, stub, adapter, [[0.5]] * 4)
    ctx.need(d, "trim_redundant")
    level, k = ctx.p["level"], ctx.p["k"]
    ns = nodes(ctx, d, level, k)
    kinds = []
    for n in ns:
        kind = ctx.choose("kind", 3)            # active, converged, dropped before
        n.alive, n.ripe = kind == 0, kind == 1
        if kind:
            n.center = [n.population[0][0]]
        elif ctx.choose("revived", 2):
            n.center = [0.75]                   # where it was when it stopped for a while
        kinds.append(kind)
    near = (0.5, 0.25, 0.125)[level]
    d.trim_redundant(ns)
    at = [n.population[0][0] for n in ns]
    for i, n in enumerate(ns):
        if kinds[i]:
            ctx.check(not n.alive and bool(n.ripe) == (kinds[i] == 1), "stopped-nodes-untouched")
            continue
        others = [j for j in range(k) if j != i and kinds[j] != 2]
        if n.alive:
            ctx.check(ctx.Not(ctx.any(abs(at[i] - at[j]) < near - 1e-9 for j in others if kinds[j] == 1 or ns[j].alive)),
                      "active-nodes-are-apart")
        else:
            ctx.check(ctx.any(abs(at[i] - at[j]) < near + 1e-9 for j in others), "stopped-only-near-another")
            ctx.check(not n.ripe, "redundant-node-never-sprouts")
    if 0 in kinds and 1 not in kinds:
        ctx.check(any(n.alive for n in ns), "one-of-a-cluster-survives")


SPROUT = [dict(level=l, kids=2, offered=2, limit=2, round=1) for l in (0, 1, 2)] + \
    [dict(level=0, kids=1, offered=3, limit=2, round=2), dict(level=0, kids=2, offered=2, limit=3, round=2),
     dict(level=0, kids=0, offered=3, limit=3, round=2), dict(level=1, kids=1, offered=2, limit=1, round=3)]


@harness(quick=SPROUT, thorough=SPROUT + [dict(level=0, kids=3, offered=3, limit=3, round=2),
                                          dict(level=0, kids=1, offered=4, limit=4, round=3)], path_s=60)
def sprouting(ctx):
    """one round of sprouting of a node in any state with any children and nominated members"""
    p = ctx.p
    stub, adapter = node_driver(ctx, lambda d: 1, lambda d: [])
    ctx.policy(index="first", shuffle="id", random=0.9)
    d = hgs(ctx, stub, adapter, [[0.5]] * 4, max_sprouts_no=p["limit"], sproutiveness=p["round"])
    level = p["level"]
    # a chain of converged nodes from the root down to the node under test
    node = d.root
    for l in range(level):
        node.ripe, node.alive = True, False
        child = nodes(ctx, d, l + 1, 1)[0]
        node.sprouts = [child]
        node = child
    node.ripe = bool(ctx.choose("ripe", 2))
    node.alive = not node.ripe and bool(ctx.choose("alive", 2))
    node.population = [[0.5]]
    kids = []
    if level < 2:
        for n in nodes(ctx, d, level + 1, p["kids"]):
            kind = ctx.choose("kid", 3)
            n.alive, n.ripe = kind == 0, kind == 1
            n.center = [n.population[0][0]]
            if ctx.choose("grown", 2) == 0:
                n.population = []
            if ctx.choose("mine", 2):
                node.sprouts.append(n)
            kids.append(n)
    node.delegates = [[ctx.real("del", 0, 1)] for _ in range(p["offered"])]
    offered = [list(v) for v in node.delegates]
    had, owned, everyone = list(node.sprouts), [c for c in node.sprouts if c.alive], list(d.nodes)
    d.release_new_sprouts()
    new = [n for n in d.nodes if all(n is not o for o in everyone)]
    mine = [c for c in node.sprouts if all(c is not h for h in had)]
    ctx.check(len(mine) == len(new), "children-belong-to-the-node")
    if not node.ripe or level == 2:
        ctx.check(not new, "only-converged-inner-nodes-sprout")
        return
    ctx.check(len(mine) <= p["round"], "at-most-sproutiveness-per-round")
    ctx.check(len(mine) == 0 or len(owned) + len(mine) <= p["limit"], "at-most-max-active-children")
    near = (0.5, 0.25, 0.125)[level + 1]
    # the free places, in the order offered
    taken = [n.center[0] for n in kids if n.population]
    room = max(0, min(p["round"], p["limit"] - len(owned)))
    free = [ctx.all(abs(v[0] - t) >= near for t in taken) for v in offered]
    for c in mine:
        ctx.check(c.level == level + 1 and len(c.driver.population) == SIZES[level + 1], "child-level-and-size")
        first = c.driver.population[0]
        ctx.check(ctx.any(ctx.And(first[0] == v[0], f) for v, f in zip(offered, free)), "child-in-a-free-place")
    count = ctx.Sum([ctx.If(f, 1, 0) for f in free])
    ctx.check(len(mine) == ctx.Min([count, room]), "as-many-as-allowed", "%d" % len(mine))


PLACES = [(0.0, 3.0), (-2.0, 2.0)]      # the diagonal is 5


def spot(ctx, kind):
    """a population of three members around a place; free: its first member's place is"""
    if kind == "free":
        return [[ctx.real("x", 0, 3), ctx.real("y", -2, 2)], [1.0, 0.5], [1.0, -0.5]]
    if kind == "line":
        return [[ctx.real("x", 0, 3), -1.5], [2.5, 1.5], [2.75, 1.75]]
    return [[0.5, -1.0], [1.5, 0.5], [1.75, 0.5]] if kind == "low" else [[2.75, 1.75], [2.25, 0.25], [2.875, 1.25]]


def middle(pop):
    return [sum(v[i] for v in pop) / len(pop) for i in range(2)]


def apart(a, b, near):
    """squared distance of two places less the square of the limit"""
    return sum((x - y) * (x - y) for x, y in zip(a, b)) - near * near


@harness(quick=[dict(level=1, spots="free low"), dict(level=1, spots="line free"), dict(level=2, spots="free high"),
                dict(level=1, spots="high line low")],
         thorough=[dict(level=1, spots="free low high"), dict(level=1, spots="free free"), dict(level=2, spots="line free low")],
         path_s=60)
def places(ctx):
    """two coordinates, several members a node: redundancy is the Euclidean distance of the means by the diagonal"""
    stub, adapter = node_driver(ctx, lambda d: 1, lambda d: [])
    ctx.policy(index="first", shuffle="id", random=0.9)
    d = hgs(ctx, stub, adapter, [[0.5, 0.5]] * 4, dims=list(PLACES), sproutiveness=2)
    ctx.need(d, "trim_redundant")
    level = ctx.p["level"]
    near = (2.5, 1.25, 0.625)[level]
    kinds = ctx.p["spots"].split()
    ns = nodes(ctx, d, level, len(kinds), 2)
    for i, (n, kind) in enumerate(zip(ns, kinds)):
        n.population = spot(ctx, kind)
        n.alive = i == 0 or bool(ctx.choose("alive", 2))
        n.ripe = not n.alive
        n.center = [0.25, 1.25] if n.alive else middle(n.population)
    mid = [middle(n.population) for n in ns]
    was = [bool(n.alive) for n in ns]
    d.trim_redundant(ns)
    for i, n in enumerate(ns):
        if not was[i]:
            ctx.check(not n.alive and bool(n.ripe), "stopped-nodes-untouched")
        elif n.alive:
            ctx.check(ctx.Not(ctx.any(apart(mid[i], mid[j], near) < -1e-6 for j in range(len(ns))
                                      if j != i and (not was[j] or ns[j].alive))), "active-nodes-are-apart")
        else:
            ctx.check(ctx.any(apart(mid[i], mid[j], near) < 1e-6 for j in range(len(ns)) if j != i),
                      "stopped-only-near-another")


@harness(quick=[dict(spots="low", offered=1), dict(spots="free", offered=1, fixed=1), dict(spots="line high", offered=1)],
         thorough=[dict(spots="low high", offered=2), dict(spots="free low", offered=1)], path_s=60)
def places_to_sprout(ctx):
    """two coordinates: a nominee sprouts where no grown child's mean is within the level's share of the diagonal"""
    stub, adapter = node_driver(ctx, lambda d: 1, lambda d: [])
    ctx.policy(index="first", shuffle="id", random=0.9)
    d = hgs(ctx, stub, adapter, [[0.5, 0.5]] * 4, dims=list(PLACES), sproutiveness=2, max_sprouts_no=5)
    kinds = ctx.p["spots"].split()
    kids = nodes(ctx, d, 1, len(kinds), 2)
    for n, kind in zip(kids, kinds):
        n.population = spot(ctx, kind)
        if ctx.choose("stalled", 2):
            n.hypervolume = n.old_hypervolume = 2.0
    d.trim_all(kids)            # the search itself works out the centres
    root = d.root
    root.ripe, root.alive, root.population = True, False, [[0.5, 0.5]]
    root.delegates = [[1.5, 0.5] if ctx.p.get("fixed") else [ctx.real("dx", 0, 3), ctx.real("dy", -2, 2)]
                      for _ in range(ctx.p["offered"])]
    offered = [list(v) for v in root.delegates]
    taken = [middle(n.population) for n in kids]
    d.release_new_sprouts()
    ctx.need(d, "level_nodes")
    new = [n for n in d.level_nodes[1] if all(n is not k for k in kids)]
    for n in new:
        first = n.driver.population[0]
        ctx.check(ctx.any(ctx.And(first[0] == v[0], first[1] == v[1], *[apart(v, t, 1.25) > -1e-6 for t in taken])
                          for v in offered), "child-in-a-free-place")
    ctx.check(ctx.Sum([ctx.If(ctx.all(apart(v, t, 1.25) > 1e-6 for t in taken), 1, 0) for v in offered]) <= len(new),
              "free-place-is-used")


@harness(quick=[dict(k=2)], thorough=[dict(k=4)], path_s=60)
def revival(ctx):
    """with no active node left every converged one is revived and the demand halves; otherwise nothing changes"""
    stub, adapter = node_driver(ctx, lambda d: 1, lambda d: [])
    ctx.policy(index="first", shuffle="id")
    ratio = [ctx.real("ratio%d" % i, 0, 1) for i in range(3)]
    d = hgs(ctx, stub, adapter, [[0.5]] * 4, min_progress_ratio=list(ratio))
    ctx.need(d, "revive_root", "min_progress_ratio")
    ns = [d.root] + nodes(ctx, d, 1, ctx.p["k"]) + nodes(ctx, d, 2, 1)
    was = []
    for n in ns:
        kind = ctx.choose("kind", 3)
        n.alive, n.ripe = kind == 0, kind == 1
        was.append(kind)
    d.revive_root()
    for n, kind in zip(ns, was):
        if 0 in was:
            ctx.check((bool(n.alive), bool(n.ripe)) == (kind == 0, kind == 1), "nothing-revived-while-some-are-active")
        elif kind == 1:
            ctx.check(bool(n.alive) and not n.ripe, "converged-node-revived")
        else:
            ctx.check(not n.alive, "dropped-node-stays-dropped")
    for i in range(3):
        ctx.check(ctx.close(d.min_progress_ratio[i], ratio[i] if 0 in was else ratio[i] / 2), "demand-halves-on-revival")


REAL = [dict(algo=a) for a in ALGOS]


@harness(quick=REAL, thorough=[dict(algo=a, steps=4) for a in ALGOS], path_s=90)
def real_nodes(ctx):
    """every algorithm as node: the weighted cost is that of the evaluations its nodes charged"""
    import functools
    from .c07 import draws
    from .c13 import adapter

    algo = ctx.p["algo"]
    draws(ctx)
    shape = ctx.choose("shape", 3)
    table = {i: [float((i * 5 + shape) % 7 if shape else i % 9)] for i in range(2000)}
    fit = Fit(ctx, 1, known=table)
    extra = dict(EXTRA[algo])
    if "reference_point" in extra:
        extra["reference_point"] = [50.0]
    pop = [[(i + 1) / 16.0, 0.5] for i in range(4)]
    ads = adapter(algo, "HGS")
    d = hgs(ctx, functools.partial(driver_class(algo), **extra), ads, pop, fitnesses=fit.fitnesses,
            mutation_rates=[0.5] * 3, sproutiveness=2, mantissa_bits=(64, 64, 64), metaepoch_len=[1, 1, 1],
            population_sizes=(4, 2, 2))
    last = 0
    for s in range(ctx.p.get("steps", 3)):
        run_ = list(d.nodes)
        d.next_step()
        ctx.check(d.cost == sum(WEIGHTS[n.level] * n.driver.cost for n in run_), "cost-is-the-weighted-sum")
        ctx.check(d.cost >= last, "cost-never-decreases")
        last = d.cost
        for n in run_:
            ctx.check(len(n.driver.finalized_population()) > 0, "nodes-keep-a-population")
    merged = sorted(list(v) for v in d.finalized_population())
    ctx.check(merged == sorted(list(v) for n in d.nodes for v in n.population), "final-population-of-all-nodes")
    ctx.check(pop == [[(i + 1) / 16.0, 0.5] for i in range(4)], "input-kept")
