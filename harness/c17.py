"""C17: every phase of the distributed hierarchy completes under any reply order."""
import importlib

from sx.harness import harness

from .c16 import (LENS, PLACES, SIZES, WEIGHTS, Progress, apart, hypervolumes, middle, node_driver,
                  spot)
from .common import unit_dims

PKG = "algorithms.HGS.distributed."
EXT, SUP = "outside", "supervisor"


def addr(name):
    from thespian.actors import ActorAddress
    return ActorAddress(name)


def name_of(a):
    return a if isinstance(a, str) else a.addressDetails


class Ref:
    """What the actor library gives an actor to talk through."""

    def __init__(self, system, address):
        self.system, self.address = system, addr(address)

    def createActor(self, cls, *a, **k):
        return self.system.create(cls)

    def actor_send(self, target, msg):
        self.system.post(self.address, target, msg)


class System:
    """The actor system as a network of ordered channels.

    Requests of the supervisor reach a node at once (a node works on its own state only); which of the
    waiting answers is delivered next is a free choice."""

    def __init__(self, ctx, explore, copies):
        self.ctx, self.explore, self.copies = ctx, explore, copies
        self.actors, self.channels, self.box = {}, {}, []
        self.phase, self.asked, self.rounds = None, [], 0
        self.replies_out = 0

    # the part of the library the driver uses
    def __call__(self, *a, **k):
        return self

    def createActor(self, cls, *a, **k):
        return self.create(cls)

    def tell(self, target, msg):
        self.post(EXT, target, msg)

    def create(self, cls):
        name = SUP if cls.__name__ == "HgsNodeSupervisor" else "node%02d" % len(self.actors)
        a = cls()
        a._myRef = Ref(self, name)
        self.actors[name] = a
        return addr(name)

    def post(self, src, dst, msg):
        src, dst = name_of(src), name_of(dst)
        if self.copies and hasattr(msg, "data"):
            d = msg.data
            msg = type(msg)(msg.operation, msg.id, list(d) if isinstance(d, list) else
                            tuple(list(x) if isinstance(x, list) else x for x in d) if isinstance(d, tuple) else d)
        if dst == EXT:
            self.replies_out += 1
            late = [k for k, q in self.channels.items() if q and k[1] == SUP]
            late = [k for k in late if not all(isinstance(m, str) for m in self.channels[k])]
            self.ctx.check(not late, "phase-ends-after-the-last-answer", "%s: %s" % (self.phase, late))
            self.box.append(msg)
            return
        if src == SUP and type(msg).__name__ == "NodeMessage":
            self.asked.append((dst, msg.operation.name))
        self.channels.setdefault((src, dst), []).append(msg)

    def deliver(self, key):
        src, dst = key
        self.actors[dst].receiveMessage(self.channels[key].pop(0), addr(src))

    def run(self, until_reply=True):
        for _ in range(2000):
            if until_reply and self.box:
                return
            ready = sorted(k for k, q in self.channels.items() if q)
            if not ready:
                return
            now = [k for k in ready if k[0] in (SUP, EXT)]
            if now:
                self.deliver(now[0])
                continue
            i = self.ctx.choose("next", len(ready)) if len(ready) > 1 and self.explore(self.rounds) else 0
            self.deliver(ready[i])
        self.ctx.check(False, "phase-completes", "still busy after 2000 messages")

    def ask(self, target, msg, *a):
        self.ctx.check(not self.box, "answered-once", "after %s" % self.phase)
        self.phase = msg.operation.name
        self.asked, self.rounds = [], self.rounds + 1
        nodes = names(self.supervisor().nodes) if self.supervisor() is not None else []
        self.post(EXT, target, msg)
        self.run()
        self.ctx.check(len(self.box) == 1, "phase-completes", self.phase)
        per = {}
        for dst, op in self.asked:
            if op != "RESET":
                per[(dst, op)] = per.get((dst, op), 0) + 1
        self.ctx.check(all(n == 1 for k, n in per.items()), "asked-once", "%s: %s" % (self.phase, sorted(per.items())))
        if self.phase in ("NEW_METAEPOCH", "TRIM_NOT_PROGRESSING", "TRIM_REDUNDANT", "RELEASE_SPROUTS", "POPULATION"):
            self.ctx.check(all(any(dst == n for dst, op in self.asked) for n in nodes), "every-node-asked", self.phase)
        return self.box.pop()

    def supervisor(self):
        return self.actors.get(SUP)

    def node(self, address):
        return self.actors[name_of(address)]


def names(addresses):
    return [name_of(a) for a in addresses or []]


def dhgs(ctx, system, driver, adapter, pop, **over):
    mod = importlib.import_module(PKG + "DistributedHGS")
    actors = importlib.import_module(PKG + "actors")
    ctx.need(mod, "ActorSystem")
    ctx.need(actors, "HgsNodeSupervisor", "Node")
    ctx.patch(mod, "ActorSystem", system)
    kw = dict(population=pop, dims=unit_dims(1), fitnesses=[lambda v: v[0]],
              fitness_errors=(0.0, 0.0, 0.0), cost_modifiers=WEIGHTS, driver=driver,
              mutation_etas=(10.0, 12.0, 15.0), crossover_etas=(15.0, 20.0, 25.0),
              mutation_rates=[0.0, 0.125, 0.25], crossover_rates=[0.9, 0.8, 0.7], reference_point=(50.0,),
              mantissa_bits=(4, 16, 64), min_progress_ratio=[0.125, 0.25, 0.5], metaepoch_len=LENS,
              max_level=2, max_sprouts_no=2, sproutiveness=1, comparison_multipliers=(0.5, 0.25, 0.125),
              population_sizes=SIZES, driver_message_adapter_factory=adapter)
    wrapped = over.pop("wrapped", False)
    kw.update(over)
    if wrapped:     # the driver the command line runs, which hands its settings on to the search
        return importlib.import_module("algorithms.HGS.HGS").HGS(hgs_type="distributed", **kw)
    return mod.DistributedHGS(**kw)


class World:
    """Free but repeatable node behaviour: a node's costs, gains and nominees depend on the node only."""

    def __init__(self, ctx, mode, wide, places=(0.0, 0.3, 0.95)):
        self.ctx, self.mode, self.wide, self.places = ctx, mode, wide, places
        self.cost, self.seen, self.place, self.choice = {}, {}, {}, {}
        self.current = None
        ctx.policy(index="first", shuffle="id", random=0.9, unit=0.5)

    def start(self):
        """a fresh search that behaves as the one before"""
        self.seen = {}
        self.stub, self.adapter = node_driver(self.ctx, self.costs, self.delegates)
        hypervolumes(self.ctx, self.hv, PKG + "node_tasks")
        return self.stub, self.adapter

    def costs(self, driver):
        k = (driver.index, driver.steps)
        if k not in self.cost:
            self.cost[k] = self.ctx.int("cost", 0, 50)
        return self.cost[k]

    def hv(self):
        d = self.current
        seen = self.seen.setdefault(d.index, [])
        n = len(seen)
        if n < 2:
            seen.append(1.0 + n)
        elif self.mode == "stall":
            seen.append(seen[-1])
        else:
            if (d.index, n) not in self.choice:
                self.choice[(d.index, n)] = self.ctx.choose("progress", 2)
            seen.append(seen[-1] * (1, 4)[self.choice[(d.index, n)]])
        return seen[-1]

    def delegates(self, driver):
        self.current = driver
        here = driver.population[0][0]
        if self.wide:
            return [[here + 0.5], [here + 0.25], [here + 0.75]]
        if driver.index not in self.place:
            self.place[driver.index] = self.places[self.ctx.choose("place", len(self.places))]
        return [[self.place[driver.index]], [here]]


def snapshot(sys_):
    sup = sys_.supervisor()
    return [(n, sys_.node(n)) for n in names(sup.nodes)]


PHASES = 6


def one_round(which):
    """explore the order of answers in the chosen phase only; the others are answered in turn"""
    return lambda r: r == which


RUN = [dict(steps=4, at=3, sprouts=2, round=2, mode="stall", top=2, wide=1),
       dict(steps=5, at=4, sprouts=2, round=2, mode="stall", top=1),
       dict(steps=5, at=4, sprouts=3, round=3, mode="stall", top=2, wide=1, copies=1),
       dict(steps=7, at=6, sprouts=1, round=1, mode="stall", top=2),
       dict(steps=5, at=None, sprouts=1, round=1, mode="stall", top=1),
       dict(steps=6, at=5, sprouts=1, round=1, mode="two", top=2, copies=1),
       dict(steps=6, at=5, sprouts=1, round=3, mode="stall", top=2, wide=1, wrap=1)]


@harness(quick=RUN, thorough=RUN + [dict(steps=8, at=7, sprouts=2, round=1, mode="stall", top=2),
                                    dict(steps=7, at=None, sprouts=1, round=1, mode="stall", top=2),
                                    dict(steps=9, at=8, sprouts=1, round=2, mode="two", top=2)], path_s=120)
def run(ctx):
    """whole steps: any step costs, any order of answers in any phase of one step (or of all steps)"""
    p = ctx.p
    if p["at"] is None:
        explore = lambda r: True
    else:
        explore = one_round(2 + 5 * p["at"] + 1 + ctx.choose("phase", PHASES))
    w = World(ctx, p["mode"], p.get("wide"))
    stub, adapter = w.start()
    sys_ = System(ctx, explore, p.get("copies"))
    pop = [[i / 16.0] for i in range(8)]
    d = dhgs(ctx, sys_, stub, adapter, pop, max_sprouts_no=p["sprouts"], sproutiveness=p["round"], max_level=p["top"],
             wrapped=bool(p.get("wrap")))
    ctx.check(len(snapshot(sys_)) == 1, "one-root")
    charged = 0
    for s in range(p["steps"]):
        before = snapshot(sys_)
        was = [(n, a, a.driver, bool(a.alive), a.driver.steps, list(a.sprouts), a.current_cost) for n, a in before]
        m = d.next_step()
        after = snapshot(sys_)
        spent = []
        for n, a, drv, alive, steps, _, cost in was:
            ctx.check(drv.steps - steps == (LENS[a.level] if alive else 0), "active-nodes-run-one-metaepoch")
            if alive:
                spent.append(WEIGHTS[a.level] * (drv.cost - cost))
        charged = charged + ctx.Max(spent)
        ctx.check(ctx.And(d.cost == charged, m.cost == d.cost), "cost-of-the-step-is-that-of-the-dearest-node")
        ids = [n for n, a in after]
        ctx.check(len(set(ids)) == len(ids) and ids[:len(before)] == [n for n, a in before], "no-node-lost-or-twice")
        fresh = ids[len(before):]
        owned = []
        for n, a in after:
            mine = [c for c in names(a.sprouts) if c in fresh]
            owned.extend(mine)
            ctx.check(len(mine) <= p["round"], "at-most-sproutiveness-per-round")
            ctx.check(not mine or len([c for c in a.sprouts if sys_.node(c).alive]) <= p["sprouts"],
                      "at-most-max-active-children")
            ctx.check(not mine or a.level < p["top"], "deepest-level-never-sprouts")
            for c in mine:
                k = sys_.node(c)
                ctx.check(k.level == a.level + 1 and len(k.driver.population) == SIZES[k.level], "child-level-and-size")
                g = k.driver.given
                ctx.check(g["mutation_rate"] == (0.0, 0.125, 0.25)[k.level] and g["mutation_eta"] == (10.0, 12.0, 15.0)[k.level]
                          and g["crossover_eta"] == (15.0, 20.0, 25.0)[k.level]
                          and g["crossover_rate"] == (0.9, 0.8, 0.7)[k.level], "child-gets-its-levels-settings")
        ctx.check(sorted(owned) == sorted(fresh), "every-new-node-has-one-parent")
        sup = sys_.supervisor()
        for i in range(3):
            ctx.check(sorted(names(sup.level_nodes[i])) == sorted(n for n, a in after if a.level == i), "levels-consistent")
        ctx.check(len(sup.node_states) == len(after), "one-record-per-node", "%d of %d" % (len(sup.node_states), len(after)))
        ctx.check(any(a.alive for n, a in after), "some-node-active")
    got = sorted(list(v) for v in d.finalized_population())
    want = sorted(list(v) for n, a in snapshot(sys_) for v in (a.driver.population if a.driver.steps else []))
    ctx.check(got == want, "final-population-of-all-nodes")
    sys_.run(until_reply=False)
    ctx.check(not sys_.box, "answered-once")
    if p.get("wrap"):
        mod = importlib.import_module("algorithms.HGS.tools")
        if hasattr(mod, "trim_vector"):
            for n, a in snapshot(sys_):
                ctx.check(list(a.driver.given["trim"]([0.1])) == list(mod.trim_vector([0.1], (4, 16, 64)[a.level])),
                          "node-rounds-to-its-levels-precision", "level %d" % a.level)
        d.shutdown()
        ended = [k[1] for k, q in sys_.channels.items() if any(type(m).__name__ == "ActorExitRequest" for m in q)]
        ctx.check(SUP in ended, "shutdown-ends-the-supervisor", ended)
    ctx.observe("nodes", [(a.level, bool(a.alive), bool(a.ripe)) for n, a in snapshot(sys_)])


@harness(quick=[dict(steps=6), dict(steps=8, fixed=1)], thorough=[dict(steps=7), dict(steps=10, fixed=1)], path_s=120,
         query_ms=20000)
def progress(ctx):
    """a node's progress counts from its first metaepoch, over whole steps with any hypervolumes"""
    p = ctx.p
    ratios = [0.125, 0.25, 0.5]
    track = Progress(ctx, ratios)

    def delegates(driver):
        track.start(driver.index)
        return [[0.75]]
    ctx.policy(index="first", shuffle="id", random=0.9, unit=0.5)
    stub, adapter = node_driver(ctx, lambda driver: 1, delegates)

    def value():
        seen = track.seen[track.current]
        if p.get("fixed") and track.current == 0 and len(seen) < 3:
            seen.append((2.0, 3.0, 3.0)[len(seen)])
            return seen[-1]
        return track.value()
    hypervolumes(ctx, value, PKG + "node_tasks")
    sys_ = System(ctx, lambda r: False, False)
    d = dhgs(ctx, sys_, stub, adapter, [[i / 16.0] for i in range(8)], min_progress_ratio=list(ratios), max_level=1,
             max_sprouts_no=1)
    for _ in range(p["steps"]):
        before = [(n, a, bool(a.alive)) for n, a in snapshot(sys_)]
        d.next_step()
        now = lambda group: [(a.driver.index, a.level, bool(a.alive), bool(a.ripe)) for n, a in group]
        if not track.judge(now([(n, a) for n, a, alive in before if alive]),
                           now([(n, a) for n, a, alive in before if not alive])):
            return
    ctx.observe("nodes", [(a.level, bool(a.alive), bool(a.ripe)) for n, a in snapshot(sys_)])


SAME = [dict(steps=4, at=3, sprouts=2, round=2, top=2), dict(steps=5, at=4, sprouts=3, round=3, top=1, copies=1)]


@harness(quick=SAME, thorough=SAME + [dict(steps=7, at=6, sprouts=2, round=2, top=2),
                                      dict(steps=4, at=None, sprouts=2, round=2, top=1)], path_s=120)
def same_outcome(ctx):
    """the same search under another order of answers ends the same (nodes apart from each other)"""
    p = ctx.p
    w = World(ctx, "stall", True)
    ends = []
    explore = (lambda r: True) if p["at"] is None else one_round(2 + 5 * p["at"] + 1 + ctx.choose("phase", PHASES))
    for ex in (lambda r: False, explore):
        stub, adapter = w.start()
        sys_ = System(ctx, ex, p.get("copies"))
        d = dhgs(ctx, sys_, stub, adapter, [[i / 16.0] for i in range(8)], max_sprouts_no=p["sprouts"],
                 sproutiveness=p["round"], max_level=p["top"], comparison_multipliers=(0.125, 0.125, 0.125))
        for _ in range(p["steps"]):
            d.next_step()
        ends.append((d, [(a.level, bool(a.alive), bool(a.ripe), a.driver.steps, len(a.sprouts))
                         for n, a in snapshot(sys_)], sorted(list(v) for v in d.finalized_population())))
    (d1, n1, p1), (d2, n2, p2) = ends
    ctx.check(d1.cost == d2.cost, "same-cost")
    ctx.check(n1 == n2, "same-nodes")
    ctx.check(p1 == p2, "same-population")


def grown(ctx, k, top=2, **over):
    """a search whose level 1 has k nodes put there by hand"""
    w = World(ctx, "stall", True)
    stub, adapter = w.start()
    sys_ = System(ctx, lambda r: over.get("explore", False), over.get("copies"))
    dims = over.get("dims") or unit_dims(1)
    d = dhgs(ctx, sys_, stub, adapter, [[0.5] * len(dims)] * 4, max_level=top, max_sprouts_no=4, sproutiveness=2, dims=dims)
    sup = sys_.supervisor()
    sys_.run(until_reply=False)
    kids = []
    for i in range(k):
        n = sup.create_node(1, [[0.5] * len(dims)] * SIZES[1])
        sys_.run(until_reply=False)
        sup.nodes.append(n)
        sup.level_nodes[1].append(n)
        kids.append(n)
    return d, sys_, sup, [sys_.node(n) for n in kids]


@harness(quick=[dict(k=2), dict(k=3)], thorough=[dict(k=4)], path_s=60)
def redundant_nodes(ctx):
    """nodes in any state at any place, answers in any order: exactly the redundant ones are stopped"""
    from algorithms.HGS.distributed.message import HgsMessage, HgsOperation

    k = ctx.p["k"]
    d, sys_, sup, ns = grown(ctx, k)
    kinds = []
    for n in ns:
        kind = ctx.choose("kind", 3)            # active, converged, dropped before
        n.alive, n.ripe = kind == 0, kind == 1
        n.population = [[ctx.real("at", 0, 1)]]
        kinds.append(kind)
    sys_.node(sup.root).population = [[0.5]]
    sys_.explore = lambda r: True
    sys_.ask(SUP, HgsMessage(HgsOperation.TRIM_REDUNDANT))
    sys_.run(until_reply=False)
    ctx.check(bool(sys_.node(sup.root).alive), "root-untouched")
    near = 0.25
    at = [n.population[0][0] for n in ns]
    for i, n in enumerate(ns):
        ctx.check(bool(n.ripe) == (kinds[i] == 1), "only-activity-changes")
        if kinds[i]:
            ctx.check(not n.alive, "stopped-nodes-untouched")
            continue
        others = [j for j in range(k) if j != i and kinds[j] != 2]
        if n.alive:
            ctx.check(ctx.Not(ctx.any(abs(at[i] - at[j]) < near - 1e-9 for j in others if kinds[j] == 1 or ns[j].alive)),
                      "active-nodes-are-apart")
        else:
            ctx.check(ctx.any(abs(at[i] - at[j]) < near + 1e-9 for j in others), "stopped-only-near-another")
    if 0 in kinds and 1 not in kinds:
        ctx.check(any(n.alive for n in ns), "one-of-a-cluster-survives")


@harness(quick=[dict(spots="free low"), dict(spots="line free"), dict(spots="high line low")],
         thorough=[dict(spots="free low high"), dict(spots="free free"), dict(spots="line free low")], path_s=60)
def places(ctx):
    """two coordinates, several members a node: redundancy is the Euclidean distance of the means by the diagonal"""
    from algorithms.HGS.distributed.message import HgsMessage, HgsOperation

    kinds = ctx.p["spots"].split()
    d, sys_, sup, ns = grown(ctx, len(kinds), dims=list(PLACES))
    for i, (n, kind) in enumerate(zip(ns, kinds)):
        n.population = spot(ctx, kind)
        n.alive = i == 0 or bool(ctx.choose("alive", 2))
        n.ripe = not n.alive
    mid = [middle(n.population) for n in ns]
    was = [bool(n.alive) for n in ns]
    sys_.node(sup.root).population = [[0.5, 0.5]]
    sys_.ask(SUP, HgsMessage(HgsOperation.TRIM_REDUNDANT))
    sys_.run(until_reply=False)
    for i, n in enumerate(ns):
        if not was[i]:
            ctx.check(not n.alive and bool(n.ripe), "stopped-nodes-untouched")
        elif n.alive:
            ctx.check(ctx.Not(ctx.any(apart(mid[i], mid[j], 1.25) < -1e-6 for j in range(len(ns))
                                      if j != i and (not was[j] or ns[j].alive))), "active-nodes-are-apart")
        else:
            ctx.check(ctx.any(apart(mid[i], mid[j], 1.25) < 1e-6 for j in range(len(ns)) if j != i),
                      "stopped-only-near-another")


@harness(quick=[dict(spots="low", offered=1), dict(spots="free", offered=1, fixed=1), dict(spots="line high", offered=1)],
         thorough=[dict(spots="low high", offered=2), dict(spots="free low", offered=1)], path_s=60)
def places_to_sprout(ctx):
    """two coordinates: a nominee sprouts where no grown child's mean is within the level's share of the diagonal"""
    from algorithms.HGS.distributed.message import HgsMessage, HgsOperation

    p = ctx.p
    kinds = p["spots"].split()
    d, sys_, sup, ns = grown(ctx, len(kinds), dims=list(PLACES))
    root = sys_.node(sup.root)
    root.max_hgs_sprouts_no = 5
    root.ripe, root.alive, root.population = True, False, [[0.5, 0.5]]
    for n, kind in zip(ns, kinds):
        n.population = spot(ctx, kind)
    root.delegates = [[1.5, 0.5] if p.get("fixed") else [ctx.real("dx", 0, 3), ctx.real("dy", -2, 2)]
                      for _ in range(p["offered"])]
    offered = [list(v) for v in root.delegates]
    taken = [middle(n.population) for n in ns]
    old = names(sup.nodes)
    sys_.ask(SUP, HgsMessage(HgsOperation.RELEASE_SPROUTS))
    sys_.run(until_reply=False)
    new = [n for n in names(sup.nodes) if n not in old]
    for c in new:
        first = sys_.node(c).driver.population[0]
        ctx.check(ctx.any(ctx.And(first[0] == v[0], first[1] == v[1], *[apart(v, t, 1.25) > -1e-6 for t in taken])
                          for v in offered), "child-in-a-free-place")
    # a new child counts as grown, so a second place may be taken by then
    if not new:
        ctx.check(ctx.Not(ctx.any(ctx.all(apart(v, t, 1.25) > 1e-6 for t in taken) for v in offered)), "free-place-is-used")


@harness(quick=[dict(k=1), dict(k=2)], thorough=[dict(k=3)], path_s=60)
def stalled_nodes(ctx):
    """a node is stopped for lack of progress exactly when its relative gain is below its level's ratio"""
    from algorithms.HGS.distributed.message import HgsMessage, HgsOperation

    d, sys_, sup, ns = grown(ctx, ctx.p["k"])
    ns = [sys_.node(sup.root)] + ns
    was = []
    for n in ns:
        n.alive, n.ripe = bool(ctx.choose("alive", 2)), False
        n.population = [[0.5]]
        n.hypervolume, n.old_hypervolume = ctx.real("hv", -4, 16), ctx.real("old", -4, 16)
        was.append((n.alive, n.hypervolume, n.old_hypervolume))
    sys_.ask(SUP, HgsMessage(HgsOperation.TRIM_NOT_PROGRESSING))
    for n, (alive, hv, old) in zip(ns, was):
        if not alive:
            ctx.check(not n.alive and not n.ripe, "no-reason-no-stop")
            continue
        gain = hv - old - (0.125, 0.25)[n.level] / 2 ** n.level * old
        if not n.alive:
            ctx.check(ctx.And(old > 0, gain <= 1e-9), "stopped-only-for-lack-of-progress")
            ctx.check(bool(n.ripe), "stopped-node-may-sprout")
        else:
            ctx.check(ctx.Not(ctx.And(old > 0, gain < -1e-9)), "stalled-node-is-stopped")
            ctx.check(not n.ripe, "active-node-is-not-ripe")


@harness(quick=[dict(k=2), dict(k=3)], thorough=[dict(k=4)], path_s=60)
def revival(ctx):
    """with no active node left every converged one is revived and the demand halves; otherwise nothing changes"""
    from algorithms.HGS.distributed.message import HgsMessage, HgsOperation

    k = ctx.p["k"]
    d, sys_, sup, ns = grown(ctx, k, top=1)
    ns = [sys_.node(sup.root)] + ns
    was = []
    for i, n in enumerate(ns):
        kind = ctx.choose("kind", 3)
        n.alive, n.ripe = kind == 0, kind == 1
        n.population = [[i / 4.0]]
        n.delegates = []
        was.append(kind)
    ctx.assume(was[0] != 2)         # the root is active or converged
    ratio = list(sup.config.min_progress_ratio)
    sys_.explore = lambda r: True
    sys_.ask(SUP, HgsMessage(HgsOperation.RELEASE_SPROUTS))
    kept = {name_of(s.address): (bool(s.alive), bool(s.ripe), s.level) for s in sup.node_states}
    ctx.check([kept.get(name_of(a)) for a in sup.nodes] == [(x == 0, x == 1, min(i, 1)) for i, x in enumerate(was)] and
              len(sup.node_states) == len(was), "records-match-the-nodes")
    sys_.ask(SUP, HgsMessage(HgsOperation.REVIVE))
    sys_.run(until_reply=False)
    for n, kind in zip(ns, was):
        if 0 in was:
            ctx.check((bool(n.alive), bool(n.ripe)) == (kind == 0, kind == 1), "nothing-revived-while-some-are-active")
        else:
            ctx.check(bool(n.alive) == (kind == 1) and not n.ripe, "converged-nodes-revived")
    for i in range(2):
        ctx.check(sup.config.min_progress_ratio[i] == (ratio[i] if 0 in was else ratio[i] / 2), "demand-halves-on-revival")


SPROUT = [dict(kids=2, offered=2, limit=2, round=1), dict(kids=1, offered=3, limit=2, round=2),
          dict(kids=0, offered=3, limit=3, round=2), dict(kids=1, offered=2, limit=1, round=3)]


@harness(quick=SPROUT, thorough=SPROUT + [dict(kids=3, offered=3, limit=3, round=2), dict(kids=2, offered=3, limit=3, round=2)],
         path_s=60)
def sprouting(ctx):
    """one round of sprouting of the root in any state, any children, nominees and order of answers"""
    from algorithms.HGS.distributed.message import HgsMessage, HgsOperation

    p = ctx.p
    d, sys_, sup, ns = grown(ctx, p["kids"], copies=ctx.choose("copies", 2))
    root = sys_.node(sup.root)
    root.max_hgs_sprouts_no, root.sproutiveness = p["limit"], p["round"]
    root.ripe = bool(ctx.choose("ripe", 2))
    root.alive = not root.ripe
    root.population = [[0.5]]
    owned = []
    for name, n in zip(sup.level_nodes[1], ns):
        kind = ctx.choose("kid", 3)
        n.alive, n.ripe = kind == 0, kind == 1
        n.population = [[ctx.real("at", 0, 1)]]
        if ctx.choose("mine", 2):
            root.sprouts.append(name)
            if n.alive:
                owned.append(name_of(name))
    had = names(root.sprouts)
    root.delegates = [[ctx.real("del", 0, 1)] for _ in range(p["offered"])]
    sys_.explore = lambda r: True
    old = names(sup.nodes)
    sys_.ask(SUP, HgsMessage(HgsOperation.RELEASE_SPROUTS))
    sys_.run(until_reply=False)
    new = [n for n in names(sup.nodes) if n not in old]
    mine = [n for n in names(root.sprouts) if n not in had]
    ctx.check(sorted(new) == sorted(mine), "children-belong-to-the-node")
    ctx.check(len(sup.node_states) == len(sup.nodes), "one-record-per-node")
    if not root.ripe:
        ctx.check(not new, "only-converged-nodes-sprout")
        return
    ctx.check(len(mine) <= p["round"], "at-most-sproutiveness-per-round")
    ctx.check(not mine or len(owned) + len(mine) <= p["limit"], "at-most-max-active-children",
              "%d active, %d new" % (len(owned), len(mine)))
    near = 0.25
    taken = [n.population[0][0] for n in ns]
    for c in mine:
        first = sys_.node(c).driver.population[0]
        ctx.check(sys_.node(c).level == 1 and len(sys_.node(c).driver.population) == SIZES[1], "child-level-and-size")
        ctx.check(ctx.any(ctx.And(first[0] == v[0], ctx.all(abs(v[0] - t) >= near for t in taken))
                          for v in root.delegates), "child-in-a-free-place")
