"""Definitions of the planted bugs (source of seeded/, see tools/mkseed.py)."""
PRE = '''import sys, random, itertools, importlib
import numpy
'''
SEEDS = []


def seed(id, property, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed("c01-near-equal", "C01",
     [("evotools/ea_utils.py",
       "        ndir = (-1, 0, 1)[(i <= j) + (i < j)]  # hacky!\n",
       "        ndir = 0 if abs(i - j) < 1e-12 * max(abs(i), abs(j)) else (1 if i < j else -1)\n")],
     '''
from evotools.ea_utils import dominates, domination_cmp
a, b = [1.0, 2.0], [1.0 + 1e-13, 2.0]
assert a[0] < b[0]
assert dominates(a, b) and not dominates(b, a)
assert domination_cmp([1.0, 2.0], [1.0 + 1e-13, 1.0]) == -1 or domination_cmp([1.0, 2.0], [1.0 + 1e-13, 1.0]) == 0
c, d = [1.0, 2.0], [1.0 + 1e-13, 1.0]
assert domination_cmp(c, d) == 0 == domination_cmp(d, c)
''',
     "two objective values that differ by less than a relative 1e-12",
     "nearly equal objective values are treated as equal, so incomparable vectors are reported as dominating")

seed("c02-layer-break", "C02",
     [("metrics/metrics_utils.py",
       "            if dominates(nd_ind, ind):\n                dominated_by_sth = True\n",
       "            if dominates(nd_ind, ind):\n                dominated_by_sth = True; break\n")],
     '''
from metrics.metrics import filter_not_dominated
pts = [[1.0, 3.0], [3.0, 1.0], [2.0, 4.0]]
for p in itertools.permutations(pts):
    out = filter_not_dominated([list(x) for x in p])
    assert sorted(map(tuple, out)) == [(1.0, 3.0), (3.0, 1.0)], (p, out)
''',
     "a dominated point that comes after its dominator and after which further front members are listed",
     "stopping at the first dominator drops the front members not yet copied")

seed("c03-smsemoa-rank", "C03",
     [("algorithms/SMSEMOA/SMSEMOA.py",
       "                how_many_dominates[y] -= 1\n                if how_many_dominates[y] is 0:\n",
       "                how_many_dominates[y] -= front_no\n                if how_many_dominates[y] <= 0 and y not in front[front_no + 1]:\n")],
     '''
m = importlib.import_module("algorithms.SMSEMOA.SMSEMOA")
from evotools.ea_utils import dominates
def ind(o):
    i = m.Individual(list(o)); i.objectives = list(o); return i
pop = [ind(o) for o in [(1, 1), (2, 2), (3, 3), (4, 4)]]
fronts = m.nd_sort(pop)
lists = [fronts[k] for k in sorted(fronts)]
assert sum(len(f) for f in lists) == 4, [[i.objectives for i in f] for f in lists]
for f in lists:
    for a in f:
        for b in f:
            assert not dominates(a.objectives, b.objectives), [[i.objectives for i in f] for f in lists]
''',
     "at least four solutions in a chain of dominance: the counter is over-decremented only from the second front on",
     "solutions that dominate one another are put into the same front, or into two fronts")

seed("c04-spea2-truncation", "C04",
     [("algorithms/SPEA2/SPEA2.py",
       '            if p["fitness"] > 1:\n', '            if p["fitness"] >= 2:\n')],
     '''
from algorithms.SPEA2.SPEA2 import SPEA2
f = [lambda v: v[0], lambda v: v[1]]
r = random.Random(5)
for _ in range(4000):
    n = r.choice([5, 6])
    pts = [[float(x) for x in q] for q in sorted({(r.randint(0, 6), r.randint(0, 6)) for _ in range(n)})]
    d = SPEA2(pts, f, [(0.0, 10.0)] * 2, 20.0, 0.1, 20.0, 0.9)
    setattr(d, "_SPEA2__archive_size", 3)
    d.cost += d.calculate_fitnesses(d.individuals, d.archive)
    kept = [tuple(x["value"]) for x in d.environmental_selection(d.individuals, d.archive)]
    assert len(kept) == min(3, len(pts))
    for lost in set(map(tuple, pts)) - set(kept):
        for k in kept:
            assert not (all(a <= b for a, b in zip(lost, k)) and lost != k), (pts, lost, k)
''',
     "a solution dominated only by one that dominates nothing else (raw fitness exactly 1), an over-full archive and crowded front members",
     "archive truncation may discard a non-dominated solution and keep the one it dominates")

seed("c05-reflecting-wall", "C05",
     [("algorithms/OMOPSO/OMOPSO.py",
       "                if bounded_x != new_x:\n                    p.speed[i] *= -1\n\n                p.value[i] = bounded_x\n",
       "                if bounded_x != new_x:\n                    p.speed[i] *= -1\n\n                p.value[i] = bounded_x + (bounded_x - new_x)\n")],
     '''
from algorithms.OMOPSO.OMOPSO import OMOPSO
random.seed(3)
f = [lambda v: v[0], lambda v: -v[0]]
d = OMOPSO([[0.0], [1.0], [0.5]], f, [(0.0, 1.0)], 20.0, 0.1, 20.0, 0.9)
for p in d.individuals:
    p.speed = [2.5]
d.move()
assert all(0.0 <= p.value[0] <= 1.0 for p in d.individuals), d.population
''',
     "a particle whose speed exceeds the width of the variable's range",
     "a fast particle is mirrored through the wall and comes out on the other side of the domain")

seed("c06-equal-leader", "C06",
     [("algorithms/OMOPSO/OMOPSO.py",
       "            elif l.equal_obj(p):\n                return False\n",
       "            elif self.eta > 0 and l.equal_obj(p):\n                return False\n")],
     '''
from algorithms.OMOPSO.OMOPSO import LeaderArchive, Individual
def ind(v, o):
    i = Individual(list(v)); i.objectives = list(o); return i
a = LeaderArchive(4)
assert a.add(ind([0.0], [1.0, 2.0]))
a.add(ind([0.5], [2.0, 1.0]))
a.add(ind([1.0], [1.0, 2.0]))
objs = [tuple(i.objectives) for i in a]
assert len(objs) == len(set(objs)), objs
''',
     "two particles with exactly equal objectives offered to the leader archive",
     "the leader archive fills up with copies of one objective vector")

seed("c07-rounded-cache-key", "C07",
     [("algorithms/HGS/tools.py", "        return tuple(key)\n", "        return tuple(round(x, 12) for x in key)\n")],
     '''
from algorithms.HGS.tools import ResultArchive
a = ResultArchive()
a[[1e-14, 0.5]] = [1.0]
assert [1e-14, 0.5] in a and [2e-14, 0.5] not in a
''',
     "two decision vectors that agree to twelve decimals (a narrow variable range)",
     "the cache answers for a vector that was never evaluated")

seed("c09-igd-nondominated", "C09",
     [("metrics/metrics.py",
       "    return metrics_utils.inverse_generational_distance(solution, pareto)\n",
       "    return metrics_utils.inverse_generational_distance(\n        not_dominated_solution or solution, pareto\n    )\n")],
     '''
from metrics import metrics
sol = [[0.0, 2.0], [1.0, 5.0]]
nd = metrics.filter_not_dominated(sol)
assert nd == [[0.0, 2.0]]
got = metrics.inverse_generational_distance(sol, nd, [[1.0, 5.0]])
assert abs(got) < 1e-12, got
''',
     "a reference point whose nearest solution is a dominated one",
     "the inverse distance is measured to the non-dominated part only")

seed("c10-negative-epsilon", "C10",
     [("metrics/epsilon.py", '        eps = float("-inf")\n', "        eps = 0.0\n"),
      ("metrics/epsilon.py", "            if i == 0:\n                eps = eps_j\n            elif eps < eps_j:\n",
       "            if eps < eps_j:\n")],
     '''
from metrics import metrics
got = metrics.epsilon([[3.0, 4.0]], [[3.0, 4.0]], [[1.0, 1.0]])
assert got == -2.0, got
''',
     "a solution set in which every coordinate excess is negative",
     "the indicator is cut off at zero")

seed("c12-rounded-slots", "C12",
     [("algorithms/base/driver.py",
       "int(time_elapsed_since_last_emission // self.step)", "int(round(time_elapsed_since_last_emission / self.step, 2))")],
     '''
from algorithms.base import driver as dm
class D(dm.Driver):
    def step(self):
        clock[0] += steps.pop(0)
clock = [100.0]
steps = [0.5, 0.499, 0.5, 0.6, 0.2, 0.3, 0.3]
dm.time = type("T", (), {"time": staticmethod(lambda: clock[0])})
seen = []
elapsed = lambda: clock[0] - 100.0
dm.TimeRun(1, 2).create_job(D()).subscribe(lambda m: seen.append((m.elapsed_time, elapsed())))
assert seen, seen
for slot, now in seen:
    assert slot <= now + 1e-9, seen
''',
     "a step that ends within half a percent of an interval before a slot boundary",
     "a slot is reported before its time has been reached")

seed("c08-tie-bound", "C08",
     [("algorithms/base/hv.py",
       "                or q.prev[dimIndex].cargo[dimIndex] >= bounds[dimIndex]\n",
       "                or q.prev[dimIndex].cargo[dimIndex] > bounds[dimIndex]\n")],
     '''
from algorithms.base.hv import HyperVolume
def exact(pts, ref):
    xs = [sorted(set([p[i] for p in pts] + [ref[i]])) for i in range(len(ref))]
    tot = 0.0
    for cell in itertools.product(*[list(zip(x, x[1:])) for x in xs]):
        if any(all(p[i] <= c[0] for i, c in enumerate(cell)) for p in pts):
            v = 1.0
            for c in cell:
                v *= c[1] - c[0]
            tot += v
    return tot
for n in (2, 3, 4, 5):
    for trial in range(200):
        r = random.Random(trial)
        for dims in (3, 4):
            pts = [[float(r.randrange(5)) for _ in range(dims)] for _ in range(n)]
            got = HyperVolume([4.0] * dims).compute([list(p) for p in pts])
            assert abs(got - exact(pts, [4.0] * dims)) < 1e-9, (pts, got, exact(pts, [4.0] * dims))
''',
     "four objectives and at least three points with equal values in one objective",
     "a stale area is reused for points tied in the last objective")
seed("c08-stale-volume", "C08",
     [("algorithms/base/hv.py",
       "                q = p\n                p = p.next[dimIndex]\n                q.volume[dimIndex] = hvol\n                if",
       "                q = p\n                p = p.next[dimIndex]\n                if p is sentinel:\n                    q.volume[dimIndex] = hvol\n                if")],
     '''
from algorithms.base.hv import HyperVolume
def exact(pts, ref):
    xs = [sorted(set([p[i] for p in pts] + [ref[i]])) for i in range(len(ref))]
    tot = 0.0
    for cell in itertools.product(*[list(zip(x, x[1:])) for x in xs]):
        if any(all(p[i] <= c[0] for i, c in enumerate(cell)) for p in pts):
            v = 1.0
            for c in cell:
                v *= c[1] - c[0]
            tot += v
    return tot
for n in (2, 3, 4, 5):
    for trial in range(200):
        r = random.Random(trial)
        for dims in (3, 4):
            pts = [[float(r.randrange(5)) for _ in range(dims)] for _ in range(n)]
            got = HyperVolume([4.0] * dims).compute([list(p) for p in pts])
            assert abs(got - exact(pts, [4.0] * dims)) < 1e-9, (pts, got, exact(pts, [4.0] * dims))
''',
     "four objectives and at least four points in a particular arrangement",
     "the volume remembered for an intermediate point is the one of an earlier sweep")
seed("c11-budget-boundary", "C11",
     [("algorithms/base/driver.py",
       "        while driver.cost < self.budget:\n", "        while driver.cost < self.budget or driver.step_no == 0:\n")],
     '''
from algorithms.base.driver import BudgetRun, Driver
class D(Driver):
    def __init__(self):
        super().__init__()
        self.cost = 10; self.population = [[0.0]]
    def step(self):
        self.cost += 7
    def finalized_population(self):
        return self.population
d = D()
BudgetRun(10).create_job(d).subscribe()
assert d.cost == 10, d.cost
''',
     "a driver whose construction alone already reaches the first budget",
     "one more step is run after the budget has been reached, so the checkpoint shows a later state")

seed("c13-progress-reuse", "C13",
     [("algorithms/base/model.py",
       "    def emit_result(self) -> PopulationMessage:\n        return PopulationMessage(self.get_population(), super().emit_result())\n",
       "    last = None\n\n    def emit_result(self) -> PopulationMessage:\n"
       "        progress = super().emit_result()\n"
       "        if self.last is None or self.last[0] != progress.cost:\n"
       "            self.last = (progress.cost, self.get_population())\n"
       "        return PopulationMessage(self.last[1], progress)\n")],
     '''
from algorithms.base.driver import Driver
from algorithms.base.model import PopulationMessageAdapter
class Adapter(PopulationMessageAdapter):
    def get_population(self):
        return [list(x) for x in self.driver.population]
class D(Driver):
    def __init__(self):
        super().__init__(message_adapter_factory=Adapter)
        self.population = [[0.0]]
    def step(self):
        self.population = [[self.population[0][0] + 1.0]]
        if self.step_no % 2 == 0:
            self.cost += 1
d = D()
for i in range(4):
    m = d.next_step()
    assert m.population == d.population, (i, m.population, d.population)
''',
     "a step that moves the population without a new evaluation (e.g. all offspring answered from the evaluation cache)",
     "the message of a step without new evaluations carries the population of an earlier step")

seed("c13-ibea-pairing", "C13",
     [("algorithms/IBEA/message.py",
       "    def get_population(self):\n        return [x.v for x in self.driver.individuals]\n",
       "    def get_population(self):\n        return [x.v for x in self.driver.individuals[: self.driver.population_size]]\n")],
     '''
from algorithms.IBEA.IBEA import IBEA
from algorithms.IBEA.message import IBEAHGSMessageAdapter
random.seed(1)
f = [lambda v: v[0], lambda v: (1 - v[0]) ** 2 + v[1]]
pop = [[random.random(), random.random()] for _ in range(8)]
d = IBEA(population=pop, fitnesses=f, dims=[(0.0, 1.0)] * 2, mutation_eta=20.0, mutation_rate=0.5, crossover_eta=20.0,
         crossover_rate=0.9, kappa=0.05, mating_population_size=0.5, message_adapter_factory=IBEAHGSMessageAdapter)
m = d.next_step()
assert sorted(map(tuple, m.population)) == sorted(map(tuple, d.population)), (len(m.population), len(d.population))
''',
     "IBEA under a message adapter, whose population includes the offspring after a step",
     "the progress message drops the offspring the step has just produced")

seed("c14-swarm-copies", "C14",
     [("algorithms/OMOPSO/message.py",
       "                to_remove.append(p)\n                immigrants_cp.remove(p.value)\n",
       "                to_remove.append(p)\n")],
     '''
from algorithms.OMOPSO.OMOPSO import Individual
from algorithms.OMOPSO.message import OMOPSOIMGAMessageAdapter
class D:
    cost = 0
    step_no = 0
d = D()
d.individuals = [Individual([1.0]), Individual([1.0]), Individual([2.0])]
a = OMOPSOIMGAMessageAdapter(d)
out = a.emigrate([[1.0]])
assert len(out) == 1 and len(d.individuals) == 2, (len(out), len(d.individuals))
''',
     "two particles of an island in the same place, one of which is chosen to migrate",
     "all particles in that place leave although one migrates, so islands change their size")

seed("c14-uneven-islands", "C14",
     [("algorithms/IMGA/IMGA.py",
       "        for i in range(len(init_population) % self.islands_number):\n            subpopulations[i].append(\n",
       "        for i in range(len(init_population) % self.islands_number):\n            subpopulations[i // 2].append(\n")],
     '''
from algorithms.IMGA.IMGA import IMGA
t = IMGA.__new__(IMGA)
seen = []
class Island:
    def __init__(self, outer, population): self.p = population
IMGA.Island = Island
for n in range(6, 16):
    for k in (2, 3, 4, 5):
        t.islands_number = k
        sizes = [len(i.p) for i in t.create_islands([[float(j)] for j in range(n)])]
        assert sum(sizes) == n and max(sizes) - min(sizes) <= 1, (n, k, sizes)
''',
     "a population that leaves a remainder of at least two when divided among the islands",
     "two of the left-over members go to the same island, so islands differ by two")

seed("c15-last-row", "C15",
     [("algorithms/IMGA/topology.py",
       "                    first = i % self.width\n", "                    first = (i - self.width) % self.width\n"),
      ("algorithms/IMGA/topology.py",
       "                neighbors.add((i - N - 1) % last_width + row * self.width)\n",
       "                neighbors.add((i - N - 1) % max(last_width, 2) + row * self.width)\n")],
     '''
from algorithms.IMGA.topology import TorusTopology
for w in (2, 3, 4, 5):
    for n in range(1, 24):
        t = TorusTopology(w).create(n)
        assert len(t) == n
        for i, nb in enumerate(t):
            assert i not in nb and all(0 <= j < n and i in t[j] for j in nb), (w, n, i, t)
''',
     "a last row with a single island", "the lone island of the last row is linked to an island that does not exist")

seed("c16-active-limit", "C16",
     [("algorithms/HGS/classic/ClassicHGS.py",
       "                            or len([x for x in self.sprouts if x.alive])\n                            >= self.owner.max_sprouts_no\n                        ):\n                            break\n",
       "                            or len(self.sprouts) - released_sprouts\n                            >= self.owner.max_sprouts_no\n                        ):\n                            break\n")],
     '''
sys.stdout = open("/dev/null", "w")
m = importlib.import_module("algorithms.HGS.classic.ClassicHGS")
class A:
    def __init__(self, d): self.d = d
    def nominate_delegates(self): return []
class D:
    def __init__(self, **k): self.p = k["population"]; self.message_adapter = A(self)
    def finalized_population(self): return self.p
def make(**k):
    a = dict(population=[[0.1, 0.1], [0.2, 0.2]], dims=[(0.0, 1.0)] * 2, fitnesses=[lambda v: v[0]], fitness_errors=(0, 0, 0),
             cost_modifiers=(1, 1, 1), driver=D, mutation_etas=(1, 1, 1), crossover_etas=(1, 1, 1), mutation_rates=(0, 0, 0),
             crossover_rates=(0, 0, 0), reference_point=(9,), mantissa_bits=(52, 52, 52), min_progress_ratio=[0, 0, 0],
             metaepoch_len=[1, 1, 1], population_sizes=(2, 1, 1), driver_message_adapter_factory=A, comparison_multipliers=(.001, .001, .001))
    a.update(k)
    return m.ClassicHGS(**a)
h = make(max_sprouts_no=2, sproutiveness=5)
h.root.ripe = True
h.root.delegates = [[0.1, 0.2], [0.3, 0.4], [0.5, 0.6], [0.7, 0.8]]
h.root.release_new_sprouts()
assert len(h.root.sprouts) == 2, len(h.root.sprouts)
''',
     "a round limit larger than the limit on active children",
     "one sprouting round exceeds the limit on active children")

seed("c16-revival-demand", "C16",
     [("algorithms/HGS/classic/ClassicHGS.py",
       "            for ripe_node in [x for x in self.nodes if x.ripe]:\n",
       "            for ripe_node in [x for x in self.level_nodes[0] + self.level_nodes[1] if x.ripe]:\n")],
     '''
sys.stdout = open("/dev/null", "w")
m = importlib.import_module("algorithms.HGS.classic.ClassicHGS")
class N:
    def __init__(self, alive, ripe): self.alive, self.ripe = alive, ripe
h = m.ClassicHGS.__new__(m.ClassicHGS)
a, b, c = N(False, True), N(False, False), N(False, True)
h.nodes = [a, b, c]
h.level_nodes = {0: [a], 1: [b], 2: [c]}
h.min_progress_ratio = [1.0, 1.0, 1.0]
h.revive_root()
assert a.alive and c.alive and not b.alive
''',
     "no node active and a stopped node on the deepest level",
     "nodes of the deepest level that stopped progressing are never revived")

seed("c17-dead-cost", "C17",
     [("algorithms/HGS/distributed/hgs_tasks.py",
       "        if msg.data:\n            self.metaepoch_costs.append(\n",
       "        if msg.data and self.nodes_finished <= len(self.hgs.level_nodes[0]) + len(self.hgs.level_nodes[1]):\n            self.metaepoch_costs.append(\n")],
     '''
t = importlib.import_module("algorithms.HGS.distributed.hgs_tasks")
ms = importlib.import_module("algorithms.HGS.distributed.message")
class D:
    def __init__(self, l, c): self.level, self.epoch_cost = l, c
class C: cost_modifiers = (1, 1, 1)
for order in itertools.permutations(range(3)):
    sent = []
    class H: pass
    h = H(); h.cost = 0; h.config = C(); h.nodes = ["a", "b", "c"]; h.level_nodes = {0: ["a"], 1: ["b"], 2: ["c"]}
    h.node_states = []; h.log = lambda *a, **k: None; h.send = lambda to, m: sent.append((to, m))
    k = t.MetaepochHgsTask(h)
    k.start_metaepoch(ms.HgsMessage(ms.HgsOperation.NEW_METAEPOCH), "me")
    costs = {"a": D(0, 3), "b": D(1, 5), "c": D(2, 9)}
    for i in order:
        n = h.nodes[i]
        k.finish_metaepoch(ms.NodeMessage(ms.NodeOperation.METAEPOCH_END, k.id, costs[n]), n)
    assert h.cost == 9, (order, h.cost)
''',
     "a third-level node and a reply order in which the dearest node answers last",
     "the last replies are not charged, so the cost depends on the reply order")

seed("c17-sprout-limit", "C17",
     [("algorithms/HGS/distributed/node_tasks.py",
       "        self.released_sprouts += 1\n",
       "        self.released_sprouts = min(self.released_sprouts + 1, self.current_delegate_index - 1)\n")],
     '''
t = importlib.import_module("algorithms.HGS.distributed.node_tasks")
ms = importlib.import_module("algorithms.HGS.distributed.message")
class S:
    def __init__(self, alive): self.alive = alive
class N: pass
n = N(); n.log = lambda *a, **k: None; sent = []
n.send = lambda to, m: sent.append((to, m))
n.ripe = True; n.alive = False; n.level = 0; n.max_level = 2; n.max_hgs_sprouts_no = 9; n.sproutiveness = 2
n.sprouts = ["x"]; n.delegates = [[0.1], [0.3], [0.5], [0.7]]; n.min_dists = [0.01] * 3; n.hgs_population_sizes = (1, 1, 1)
n.hgs_dims = [(0.0, 1.0)]; n.hgs_mutation_rates = (0, 0, 0); n.hgs_mutation_etas = (1, 1, 1); n.supervisor = "sup"
n.population = [[0.5]]; n.myAddress = "n"
k = t.ReleaseSproutsNodeTask(n)
k.receive_sprouting_request(ms.NodeMessage(ms.NodeOperation.RELEASE_SPROUTS, None, []), "sup")
k.receive_sprout_state(ms.NodeMessage(ms.NodeOperation.CHECK_STATUS, k.id, S(True)), "x")
i = 0
while i < len([m for to, m in sent if m.operation == ms.HgsOperation.REGISTER_NODE]):
    k.new_sprout_released(ms.HgsMessage(ms.HgsOperation.REGISTER_NODE_END, k.id, "new%d" % i), "sup")
    i += 1
assert i == 2, i
''',
     "a sprouting round whose first nominated member is not redundant",
     "the first child of a round is not counted, so the round limit is exceeded by one")

seed("c18-negative-trim", "C18",
     [("algorithms/HGS/classic/ClassicHGS.py",
       "    digits = tuple([(d if i < bits_no else 0) for i, d in enumerate(digits)])\n",
       "    digits = tuple([(d if i < bits_no - sign else 0) for i, d in enumerate(digits)])\n")],
     '''
m = importlib.import_module("algorithms.HGS.classic.ClassicHGS")
for x in (1.3, 1.75, 2.9, 0.3):
    for b in (1, 2, 3, 8):
        assert m.trim_mantissa(-x, b) == -m.trim_mantissa(x, b), (x, b)
''',
     "a negative variable", "negative variables lose one more bit than the declared precision")

seed("c19-time-order", "C19",
     [("simulation/serialization.py",
       "                by_number[int(runbudget.name)].append(runbudget)\n        return [\n            (by_number[number], {self.property_name: number})\n            for number in sorted(by_number)\n",
       "                by_number[runbudget.name.lstrip(\"0\") or \"0\"].append(runbudget)\n        return [\n            (by_number[number], {self.property_name: int(number)})\n            for number in sorted(by_number, key=lambda number: number.zfill(4))\n")],
     '''
import tempfile, shutil
from simulation.model import SimulationCase
from simulation.serializer import Serializer, Result
from simulation.serialization import BudgetResultsExtractor
d = tempfile.mkdtemp()
try:
    c = SimulationCase("ZDT1", "NSGAII", 1, None, d, id="2020-01-02.030405.000006__0000001")
    s = Serializer(c)
    budgets = [500, 9500, 10500, 100500]
    for b in budgets:
        s.store(Result([[0.0]], [[1.0]], cost=b), str(b))
    out = BudgetResultsExtractor().load("NSGAII", "ZDT1", d)
    assert [k["budget"] for _, k in out] == budgets, out
    assert all(len(r) == 1 for r, _ in out)
finally:
    shutil.rmtree(d)
''',
     "budgets of more than four digits", "results are no longer listed in numeric order once budgets have different lengths above 9999")

seed("c20-config-order", "C20",
     [("simulation/factory.py",
       "        load_problem_config(algo, problem, config)\n        load_problem_config(algo, problem, config, all_drivers, driver_pos)\n",
       "        load_problem_config(algo, problem, config, all_drivers, driver_pos)\n        load_problem_config(algo, problem, config)\n"),
      ],
     '''
from simulation import factory, run_config
run_config.cust_base[("IMGA", "ZDT1")] = {"epoch_length": 77}
run_config.cust_base[("IMGA", "NSGAII", "ZDT1")] = {"epoch_length": 33}
final, mod = factory.prepare("IMGA+NSGAII", "ZDT1")
assert final.keywords["epoch_length"] == 33, final.keywords["epoch_length"]
''',
     "an algorithm with a per-problem setting both with and without its sub-driver",
     "the general per-problem setting overrides the one for the nested algorithm")

seed("c20-name-prefix", "C20",
     [("simulation/factory.py",
       "            if problem.lower() in problems_filter\n", "            if problem.lower() in args[\"--problem\"].lower()\n")],
     '''
from simulation import factory
assert factory.parse_problems({"--problem": "UF10,ZDT1"}) == ["ZDT1"], factory.parse_problems({"--problem": "UF10,ZDT1"})
assert factory.parse_problems({"--problem": "uf1,uf2"}) == ["UF1", "UF2"]
''',
     "a requested name that contains the name of another problem",
     "problems whose names are part of a requested name run too")

seed("c21-summary-zip", "C21",
     [("simulation/run_parallel.py",
       "    for simulation, subres in zip(simulation_cases, results):\n        if subres:\n",
       "    for simulation, subres in zip(simulation_cases, [r for r in results if r]):\n        if subres:\n")],
     '''
import logging
m = importlib.import_module("simulation.run_parallel")
lines = []
class H(logging.Handler):
    def emit(self, r): lines.append(r.getMessage())
m.logger.handlers = [H()]; m.logger.setLevel(1); m.logger.propagate = False
class S:
    def __init__(self, p, a, i): self.config, self.run_id = (p, a), i
cases = [S("P1", "A1", 0), S("P2", "A2", 1), S("P3", "A3", 2)]
m.log_summary({"-N": "1"}, [None, ([], 2.0, 1), ([], 3.0, 2)], cases, [1.0])
times = [l for l in lines if "prob:" in l]
assert not any("'P1'" in l for l in times) and any("'P3'" in l for l in times), times
''',
     "a failed case before successful ones", "running times are attributed to the wrong cases after a failure")

seed("c22-bootstrap-last", "C22",
     [("statistic/stats_bootstrap.py",
       "    n = len(population) - 1\n    return [population[int(random.randint(0, n))] for i in range(k)]\n",
       "    n = len(population)\n    return [population[int(random.randint(-1, n - 2))] for i in range(k)] if n > 2 else [population[int(random.randint(0, 1))] for i in range(k)]\n")],
     '''
from statistic.stats_bootstrap import sample_wr
random.seed(2)
assert sample_wr([5.0], 60) == [5.0] * 60
for n in (2, 3, 4):
    assert set(sample_wr(list(range(n)), 200)) == set(range(n))
''',
     "a sample of one value", "resampling a single value indexes beyond it")

seed("c22-weak-winners", "C22",
     [("statistic/ranking.py",
       "        and (min(score, winner[1]) + eps) / (max(score, winner[1]) + eps)\n        >= (1 - error_rate)\n",
       "        and abs(score - winner[1]) <= error_rate * (winner[1] + eps)\n")],
     '''
from statistic.ranking import get_weak_winners
assert get_weak_winners([("a", 1.0), ("b", 1.0526)], ("a", 1.0), 0.05) == [("b", 1.0526)]
assert get_weak_winners([("a", 1.0), ("b", 1.06)], ("a", 1.0), 0.05) == []
''',
     "a score just at the edge of the tolerance: within it relative to the larger of the two only",
     "near-ties are measured against the winner instead of the larger score")

seed("c25-warm-pdi", "C25",
     [("simulation/metrics_processor.py",
       "    if solutions and solutions == problem_solutions:\n",
       "    if solutions and [k for k, _ in solutions] == [k for k, _ in problem_solutions]:\n")],
     '''
import tempfile, shutil, pathlib, collections
sys.stdout = open("/dev/null", "w")
from simulation import metrics_processor as mp, serializer as sz
d = pathlib.Path(tempfile.mkdtemp())
try:
    p = d / "ZDT1"; p.mkdir()
    c = collections.defaultdict(list); c[("ZDT1", "500", 0)].append([[1.0, 1.0]])
    mp.filter_non_dominated_in_cache(p, c)
    c = collections.defaultdict(list); c[("ZDT1", "500", 0)].append([[0.0, 0.0]])
    mp.filter_non_dominated_in_cache(p, c)
    assert set(map(tuple, c[("ZDT1", "500", 0)])) == {(0.0, 0.0)}, c
finally:
    shutil.rmtree(str(d))
''',
     "results recomputed under the keys already cached", "a changed result set is compared by its keys only, so the cached front of the old results is used")

seed("c26-mutation-side", "C26",
     [("algorithms/base/drivertools.py",
       "        if rnd <= 0.5:\n            xy = 1.0 - delta1\n", "        if rnd <= 0.5:\n            xy = 1.0 - min(delta1, delta2)\n")],
     '''
from algorithms.base import drivertools as t
class R:
    def __init__(self, v): self.v = list(v)
    def random(self): return self.v.pop(0)
for y, expect in ((0.2, None), (0.8, None)):
    t.random = R([0.0, 0.25])
    got = t.mutate([y], [(0.0, 1.0)], 1.0, 1.0)[0]
    d = (0.5 + 0.5 * (1.0 - y) ** 2) ** 0.5 - 1.0
    assert abs(got - max(0.0, y + d)) < 1e-9, (y, got)
''',
     "a variable in the upper half of its range and a draw below one half",
     "the lower half of the mutation distribution uses the distance to the nearer bound")

seed("c26-crossover-bound", "C26",
     [("algorithms/base/drivertools.py",
       "        beta = 1.0 + (2.0 * (ub - y2) / (y2 - y1 + EPSILON))\n",
       "        beta = 1.0 + (2.0 * min(ub - y2, y1 - lb) / (y2 - y1 + EPSILON))\n")],
     '''
from algorithms.base import drivertools as t
class R:
    def __init__(self, v): self.v = list(v)
    def random(self): return self.v.pop(0)
    def choice(self, c): return c[1]
t.random = R([0.0, 0.0, 0.9, 0.0])
got = t.crossover([0.1], [0.4], [(0.0, 1.0)], 1.0, 2.0)[0]
beta = 1.0 + 2.0 * (1.0 - 0.4) / 0.3
alpha = 2.0 - beta ** -3.0
bq = (1.0 / (2.0 - 0.9 * alpha)) ** (1.0 / 3.0)
assert abs(got - 0.5 * (0.5 + bq * 0.3)) < 1e-9, got
''',
     "parents nearer to the lower bound than to the upper one and a large spread draw",
     "the upper child's spread is limited by the lower bound")

seed("c26-jgbl-own-genes", "C26",
     [("algorithms/JGBL/JGBL.py",
       "        self.paste(x_ratio, y_transposon, x_pos)\n        self.paste(y_ratio, x_transposon, y_pos)\n",
       "        self.paste(x_ratio, y_transposon, x_pos)\n        self.paste(y_ratio, x_transposon, min(y_pos, x_pos))\n")],
     '''
import algorithms.JGBL.JGBL as m
d = m.JGBL.__new__(m.JGBL)
d.dims = [(0.0, 1.0)] * 4; d.jumping_percentage = 0.5
class R:
    def __init__(self): self.s = [[0, 1], [2, 3]]; self.p = [0, 2]
    def sample(self, pop, k): return self.s.pop(0)
    def randint(self, a, b): return self.p.pop(0)
m.random = R()
a, b = d.copy_and_paste([0.1, 0.2, 0.3, 0.4], [0.5, 0.6, 0.7, 0.8])
assert [round(x, 9) for x in b] == [0.5, 0.6, 0.1, 0.2], b
''',
     "second insertion position behind the first", "the second child receives the genes at the wrong position")

seed("c27-nsga-range", "C27",
     [("algorithms/NSGAII/NSGAII.py",
       "                    for k in range(1, len(inds) - 1):\n                        self.dist[inds[k]] += (\n                            inds[k + 1].objectives[objective]\n                            - inds[k - 1].objectives[objective]\n                        ) / (max_r - min_r + sys.float_info.epsilon)\n",
       "                    for k in range(1, len(inds) - 1):\n                        self.dist[inds[k]] += (\n                            inds[k + 1].objectives[objective]\n                            - inds[k - 1].objectives[objective]\n                        ) / (max(max_r - min_r, 1.0) + sys.float_info.epsilon)\n")],
     '''
m = importlib.import_module("algorithms.NSGAII.NSGAII")
f = [lambda v: v[0], lambda v: v[1]]
def dist(scale):
    vs = [[0.0, 4.0], [0.5, 3.0], [2.5, 0.5], [4.0, 0.0]]
    d = m.NSGAII(population=[[a * scale, b] for a, b in vs], fitnesses=f, dims=[(0.0, 10.0)] * 2, mutation_eta=20.0, mutation_rate=0.1,
                 crossover_eta=20.0, crossover_rate=0.9, mating_population_size=0.5)
    d._nd_sort(); d._crowding()
    return [d.dist[i] for i in sorted(d.individuals, key=lambda i: i.v[0])]
a, b = dist(1.0), dist(0.01)
assert all(x == y or abs(x - y) < 1e-9 for x, y in zip(a, b)), (a, b)
''',
     "a front whose range in an objective is smaller than one", "crowding distances are not relative to the front's range")

seed("c27-spea2-k", "C27",
     [("algorithms/SPEA2/SPEA2.py", "        k = int(math.sqrt(len(pop)))\n", "        k = int(math.sqrt(self._SPEA2__archive_size))\n")],
     '''
from algorithms.SPEA2.SPEA2 import SPEA2
f = [lambda v: v[0], lambda v: v[1]]
d = SPEA2([[0.0, 9.0]], f, [(0.0, 10.0)] * 2, 20.0, 0.1, 20.0, 0.9)
pop = [{"value": [float(i), 9.0 - i], "objectives": [float(i), 9.0 - i]} for i in range(9)]
got = d.calculate_density(pop[0], pop)
assert abs(got - 1.0 / (18 ** 0.5 * 1.0 + 18 ** 0.5 * 0 + 2.0 + (3 * 2 ** 0.5 - 18 ** 0.5))) < 1e-9, got
''',
     "a union of archive and population larger than the archive",
     "the density uses the wrong neighbour: k comes from the archive size instead of the union")

seed("c27-nsls-refresh", "C27",
     [("algorithms/NSLS/NSLS.py",
       "                    distances[ind] = min(\n                        distances[ind], distance.euclidean(ind.v, max_ind.v)\n                    )\n",
       "                    distances[ind] = min(\n                        distances[ind], distance.euclidean(ind.v, additional[0].v)\n                    )\n")],
     '''
import collections, types
try:
    import scipy.spatial
except ImportError:
    dist = types.ModuleType("scipy.spatial.distance")
    dist.euclidean = lambda a, b: sum((x - y) ** 2 for x, y in zip(a, b)) ** 0.5
    for name in ("scipy", "scipy.spatial"):
        sys.modules[name] = types.ModuleType(name)
    sys.modules["scipy.spatial"].distance = dist
m = importlib.import_module("algorithms.NSLS.NSLS")
f = [lambda v: v[0], lambda v: -v[0]]
d = m.NSLS.__new__(m.NSLS)
d.objectives = f; d.population_size = 4
xs = [0.0, 10.0, 4.5, 4.6, 7.8]
front = []
for x in xs:
    i = m.Individual([x]); i.objectives = {g: g([x]) for g in f}; front.append(i)
d.front = collections.defaultdict(list); d.front[1] = front
d.next_generation()
assert sorted(i.v[0] for i in d.individuals) == [0.0, 4.6, 7.8, 10.0], [i.v for i in d.individuals]
''',
     "two candidates that are near each other but far from the extremes, with two places left",
     "distances are not refreshed for the last chosen member, so near duplicates are chosen")

seed("c24-parent-in-place", "C24",
     [("algorithms/base/drivertools.py", "    new_ys = [y for y in ys]\n", "    new_ys = ys\n")],
     '''
from evotools.ea_utils import gen_population
m = importlib.import_module("algorithms.SPEA2.SPEA2")
f = [lambda v: v[0], lambda v: 1.0 - v[0] + v[1]]
random.seed(3)
pop = [[random.random(), random.random()] for _ in range(8)]
before = [list(v) for v in pop]
d = m.SPEA2(population=pop, fitnesses=f, dims=[(0.0, 1.0)] * 2, mutation_eta=20.0, mutation_rate=0.1, crossover_eta=20.0, crossover_rate=0.9)
for _ in range(4):
    d.step()
assert pop == before, (pop, before)
''',
     "a crossover that does exchange coordinates, in an algorithm that keeps the vectors it was given",
     "the second parent is overwritten in place, so the caller's initial population changes under it")

seed("c23-uf4-h", "C23",
     [("problems/UF4/problem.py", "    return math.fabs(t) / (1 + math.exp(2 * math.fabs(t)))\n",
       "    return math.fabs(t) / (1 + math.exp(2 * t))\n")],
     '''
import math
m = importlib.import_module("problems.UF4.problem")
def vec(delta, x0=0.3):
    return [x0] + [math.sin(6 * math.pi * x0 + j * math.pi / m.n) + delta for j in range(2, m.n + 1)]
for delta in (0.0, 0.5, -0.5):
    want = 2 * abs(delta) / (1 + math.exp(2 * abs(delta)))
    got = [m.fitnesses[0](vec(delta)) - 0.3, m.fitnesses[1](vec(delta)) - (1 - 0.09)]
    assert all(abs(g - want) < 1e-9 for g in got), (delta, got, want)
''',
     "a coordinate below its value on the Pareto set", "the penalty of UF4 is no longer symmetric around the Pareto set")

seed("c23-uf6-bumps", "C23",
     [("problems/UF6/problem.py",
       "    return max(\n        0, 2 * (1 / (2 * n) + eps) * math.sin(2 * n * math.pi * x[0])\n    ) + inner_base_fit(x, J)\n",
       "    return abs(\n        2 * (1 / (2 * n) + eps) * math.sin(2 * n * math.pi * x[0])\n    ) + inner_base_fit(x, J)\n")],
     '''
import math
m = importlib.import_module("problems.UF6.problem")
for k in range(200):
    x0 = (k + 0.37) / 200
    x = [x0] + [math.sin(6 * math.pi * x0 + j * math.pi / m.n) for j in range(2, m.n + 1)]
    want = max(0.0, 2 * (1 / (2 * m.n) + m.eps) * math.sin(2 * m.n * math.pi * x0))
    assert abs(m.fitnesses[0](x) - x0 - want) < 1e-6, (x0, m.fitnesses[0](x) - x0, want)
    assert abs(m.fitnesses[1](x) - (1 - x0) - want) < 1e-6
''',
     "a first coordinate in one of the segments of the front", "the segments of the front of UF6 are no longer flat")

seed("c28-summary-place", "C28",
     [("plots/pictures.py", "                    x_algo.append(x)\n", "                    x_algo.append(len(x_algo))\n")],
     '''
import types, tempfile
PLT = """
class Any:
    def __init__(self, log, name): self.__dict__.update(log=log, name=name)
    def __getattr__(self, n): return Any(self.log, n)
    def __call__(self, *a, **k):
        self.log.append((self.name, a, k)); return Any(self.log, self.name)
    def __getitem__(self, i): return self
"""
ns = {}; exec(PLT, ns); Any = ns["Any"]
for name in ("matplotlib", "matplotlib.pyplot", "matplotlib.patches", "mpl_toolkits", "mpl_toolkits.mplot3d"):
    try:
        importlib.import_module(name)
    except Exception:
        t = types.ModuleType(name); t.__getattr__ = lambda n: Any([], n); t.__path__ = []; sys.modules[name] = t
from pathlib import Path
m = importlib.import_module("plots.pictures")
log = []; m.plt = Any(log, "plt")
scoring = {"igd": {a: {} for a in m.algos_order}}
ps = [p for p in m.problems_order][:3]
first = m.algos_order[0]
scoring["igd"][first] = {ps[0]: 0.1, ps[2]: 0.7}
with tempfile.TemporaryDirectory() as tmp:
    m.plot_results_summary(set(ps), scoring, set(), Path(tmp) / "o")
pts = [list(zip(a[0], a[1])) for n, a, k in log if n == "scatter"]
ticks = [list(a[1]) for n, a, k in log if n == "xticks"][0]
assert [(ticks[x], y) for x, y in pts[0]] == [(ps[0], 0.1), (ps[2], 0.7)], (pts[0], ticks)
''',
     "an algorithm without an acceptable result for one of the problems",
     "the points after the missing problem are drawn under the labels of other problems")

seed("c28-violin-zero", "C28",
     [("plots/violin.py", "                and algo_data[algo_name] != [0.0] * len(algo_data[algo_name])\n",
       "                and 0.0 not in algo_data[algo_name]\n")],
     '''
import types, tempfile, os
class Any:
    def __init__(self, log, name): self.__dict__.update(log=log, name=name)
    def __getattr__(self, n): return Any(self.log, n)
    def __setattr__(self, n, v): pass
    def __call__(self, *a, **k):
        self.log.append((self.name, a, k)); return Any(self.log, self.name)
    def __getitem__(self, i): return self
    def __iter__(self): return iter(())
    def __enter__(self): return self
    def __exit__(self, *a): return None
for name in ("matplotlib", "matplotlib.pyplot", "matplotlib.patches", "mpl_toolkits", "mpl_toolkits.mplot3d"):
    try:
        importlib.import_module(name)
    except Exception:
        t = types.ModuleType(name); t.__getattr__ = lambda n: Any([], n); t.__path__ = []; sys.modules[name] = t
m = importlib.import_module("plots.violin")
log = []; m.plt = Any(log, "plt")
from simulation import serialization
def each(*a, **k):
    def results(vals):
        return [dict(budget=b, results=[None] * 3, analysis=[("cost", "cost", [lambda b=b: b] * 3),
                     ("igd", "igd", [lambda v=v: v for v in vals])]) for b in (500, 1000)]
    yield "UF2", types.SimpleNamespace(), [("NSGAII", results([0.0, 0.2, 0.3])), ("IBEA", results([0.1, 0.2, 0.4]))]
m.serialization.each_result = each
m.find_acceptable_result_for_budget = lambda results, boot: list(results)[-1]
os.chdir(tempfile.mkdtemp())
name = [n for n in dir(m) if n.startswith("violin")][0]
getattr(m, name)({"--bootstrap": "10", "--dir": None, "-o": "out"})
drawn = [a[0] for n, a, k in log if n == "violinplot"]
assert drawn and len(drawn[0]) == 2, drawn
''',
     "an algorithm with one run whose metric is exactly zero", "the algorithm is left out of the violin plot")

seed("c29-spea2-offspring", "C29",
     [("algorithms/SPEA2/message.py", "        return [x[\"value\"] for x in self.driver.archive]\n",
       "        return [x[\"value\"] for x in self.driver.individuals]\n")],
     '''
m = importlib.import_module("algorithms.SPEA2.SPEA2")
a = importlib.import_module("algorithms.SPEA2.message").SPEA2HGSMessageAdapter
seen = []
def f0(v):
    seen.append(tuple(v)); return v[0]
f = [f0, lambda v: 1.0 - v[0] + v[1]]
random.seed(5)
pop = [[random.random(), random.random()] for _ in range(8)]
d = m.SPEA2(population=pop, fitnesses=f, dims=[(0.0, 1.0)] * 2, mutation_eta=20.0, mutation_rate=0.5, crossover_eta=20.0,
            crossover_rate=0.9, message_adapter_factory=a)
for _ in range(3):
    d.next_step()
d.finalized_population()
dels = d.message_adapter.nominate_delegates()
assert dels and all(tuple(v) in seen for v in dels), [v for v in dels if tuple(v) not in seen]
''',
     "a metaepoch whose last step made offspring that differ from the archive",
     "the hierarchy sprouts from offspring nobody has evaluated instead of from the archive")

seed("c29-second-front", "C29",
     [("algorithms/HGS/distributed/message.py", "        return [x.v for x in self.driver.front[1]]\n",
       "        front = self.driver.front\n        best = front[1] if len(front[1]) > 1 else front[1] + front[2]\n        return [x.v for x in best]\n")],
     '''
m = importlib.import_module("algorithms.NSGAII.NSGAII")
a = importlib.import_module("algorithms.NSGAII.message").NSGAIIHGSMessageAdapter
f = [lambda v: v[0] + v[1], lambda v: v[0] * 2 + v[1]]
pop = [[0.1, 0.1], [0.3, 0.4], [0.5, 0.2], [0.9, 0.9]]
for no in range(40):
    random.seed(no)
    d = m.NSGAII(population=[list(v) for v in pop], fitnesses=f, dims=[(0.0, 1.0)] * 2, mutation_eta=20.0, mutation_rate=0.0, crossover_eta=20.0,
                 crossover_rate=0.0, mating_population_size=0.5, message_adapter_factory=a)
    d.next_step()
    d.finalized_population()
    dels = d.message_adapter.nominate_delegates()
    best = min(f[0](v) for v in d.population)
    assert dels and all(f[0](v) <= best + 1e-12 for v in dels), dels
''',
     "a population with a single non-dominated member",
     "dominated members are nominated, and the hierarchy sprouts around them")

seed("c30-late-seed", "C30",
     [("simulation/worker.py", "        self._init_random_seed(logger)\n\n        driver = None\n", "        driver = None\n"),
      ("simulation/worker.py", "            driver = final_driver()\n", "            driver = final_driver()\n            self._init_random_seed(logger)\n")],
     '''
import tempfile
from simulation import worker, log_helper
from simulation.model import SimulationCase
log_helper.init = lambda: None
tops = []
class W(worker.SimulationWorker):
    def run_driver(self, driver, problem_mod, logger):
        tops.append([list(v) for v in driver.population])
        return []
for _ in range(2):
    random.seed(1)   # as two processes forked from one parent
    W(SimulationCase("ZDT1", "NSGAII", 3, None, tempfile.mkdtemp(), id="2020-01-02.030405.000006__0000003", budgets=[10]), 0).run()
assert len(tops) == 2 and tops[0] != tops[1], "same initial population in both runs"
''',
     "two runs forked from one parent (same inherited generator state)",
     "the generator is seeded only after the initial population was drawn: runs of a batch start from the same population")

seed("c30-coarse-fallback", "C30",
     [("simulation/worker.py", "                time.time() * 256 + os.getpid()\n", "                time.time() * 256 + os.getpid() // 256\n")],
     '''
import os, logging
from simulation import worker
seeds = []
def none(n):
    raise NotImplementedError()
os.urandom = none
worker.random.seed = lambda s=None: seeds.append(s)
worker.time.time = lambda: 1000000.0
for pid in (5000, 5001):
    os.getpid = lambda p=pid: p
    worker.SimulationWorker(None, 0)._init_random_seed(logging.getLogger("q"))
assert seeds[0] is None or seeds[0] != seeds[1], seeds
''',
     "a system without os.urandom and processes with neighbouring numbers started at the same time",
     "processes started together get the same seed and run the same search")

seed("c31-nsls-still", "C31",
     [("algorithms/NSLS/NSLS.py", "                self.calculate_objectives([w_plus, w_minus])\n",
       "                for w in (w_plus, w_minus):\n                    if w.v == ind_x.v:\n                        w.objectives = ind_x.objectives\n                self.calculate_objectives([w_plus, w_minus])\n")],
     '''
import types
dist = types.ModuleType("scipy.spatial.distance")
dist.euclidean = lambda a, b: sum((x - y) ** 2 for x, y in zip(a, b)) ** 0.5
for n in ("scipy", "scipy.spatial"):
    sys.modules.setdefault(n, types.ModuleType(n))
sys.modules["scipy.spatial.distance"] = dist
sys.modules["scipy.spatial"].distance = dist
sys.modules["scipy"].spatial = sys.modules["scipy.spatial"]
from algorithms.NSLS.NSLS import NSLS
random.seed(3)
d = NSLS(population=[[0.5, 0.5] for _ in range(6)], dims=[(0, 1)] * 2, fitnesses=[lambda v: v[0], lambda v: 1 - v[0]],
         mutation_eta=20, crossover_eta=20, mutation_rate=0.5, crossover_rate=0.9)
d.next_step()
c = d.cost
d.next_step()
assert d.cost > c, "no progress towards any budget"
''',
     "a population whose members are all equal",
     "unmoved candidates are not evaluated: once the population has converged a step charges nothing and a budgeted run never ends")

seed("c31-stall-guard", "C31",
     [("algorithms/base/driver.py", "            observer.on_next(driver.next_step())\n",
       "            cost = driver.cost\n            observer.on_next(driver.next_step())\n            if driver.cost == cost:\n                break\n")],
     '''
from algorithms.base.driver import Driver, BudgetRun
class D(Driver):
    def step(self):
        self.cost += self.step_no % 2 * 10
d = D()
BudgetRun(50).create_job(d).subscribe(on_next=lambda m: None)
assert d.cost >= 50, d.cost
''',
     "a run in which one step costs nothing (a hierarchy answered from its records)",
     "the run ends at the first free step, long before its budget")

seed("c16-zero-reference", "C16",
     [("algorithms/HGS/classic/ClassicHGS.py", "            if self.relative_hypervolume is None:\n", "            if not self.relative_hypervolume:\n")],
     '''
sys.stdout = open("/dev/null", "w")
from algorithms.base.driver import Driver
m = importlib.import_module("algorithms.HGS.classic.ClassicHGS")
class A:
    def __init__(self, d): self.driver = d
    def emit_result(self): 
        class M: pass
        r = M(); r.cost = self.driver.cost; r.step_no = self.driver.step_no
        return r
    def nominate_delegates(self): return [[0.9, 0.9]]
class D(Driver):
    def __init__(self, population=None, **k):
        super().__init__(A)
        self.p = population
        self.t = 0
    def finalized_population(self): return [[0.9 if self.t < 2 else 0.5, 0.5]]
    def step(self): self.t += 1; self.cost += 1
d = m.ClassicHGS(population=[[0.1, 0.1], [0.2, 0.2]], dims=[(0.0, 1.0)] * 2, fitnesses=[lambda v: v[0], lambda v: v[1]],
                 fitness_errors=(0, 0, 0), cost_modifiers=(1, 1, 1), driver=D, mutation_etas=(1, 1, 1), crossover_etas=(1, 1, 1),
                 mutation_rates=(0, 0, 0), crossover_rates=(0, 0, 0), reference_point=(0.75, 0.75), mantissa_bits=(52, 52, 52),
                 min_progress_ratio=[0.1, 0.1, 0.1], metaepoch_len=[1, 1, 1], population_sizes=(2, 1, 1), max_level=1,
                 max_sprouts_no=1, sproutiveness=1, driver_message_adapter_factory=A, comparison_multipliers=(.001, .001, .001))
d.step()
d.step()
assert d.root.alive
d.step()
assert d.root.ripe and not d.root.alive, "the root has not progressed and is not stopped"
''',
     "a node whose first metaepoch ends with nothing inside the reference point",
     "progress is then counted from a later metaepoch, so that a stalled node goes on")

seed("c26-chained-neighbours", "C26",
     [("algorithms/HGS/classic/ClassicHGS.py", "        population.append(drivertools.mutate(delegate, dims, rate, eta))\n",
       "        population.append(drivertools.mutate(population[-1], dims, rate, eta))\n")],
     '''
m = importlib.import_module("algorithms.HGS.classic.ClassicHGS")
from algorithms.base import drivertools
for s in range(20):
    random.seed(s)
    got = m.population_from_delegate([0.3, 0.6], 6, [(0, 1), (0, 1)], 0.5, 5.0)
    random.seed(s)
    want = [[0.3, 0.6]] + [drivertools.mutate([0.3, 0.6], [(0, 1), (0, 1)], 0.5, 5.0) for _ in range(5)]
    assert got == want, (got, want)
''',
     "a child population of at least three members",
     "members of a child are mutants of one another and drift away from the nominated member")

seed("c16-stale-centre", "C16",
     [("algorithms/HGS/classic/ClassicHGS.py", "            sprout.center = np.mean(sprout.population, axis=0)\n            for another_sprout",
       "            sprout.center = getattr(\n                sprout, \"center\", np.mean(sprout.population, axis=0)\n            )\n            for another_sprout")],
     '''
sys.stdout = open("/dev/null", "w")
m = importlib.import_module("algorithms.HGS.classic.ClassicHGS")
class A:
    def __init__(self, d): self.d = d
    def nominate_delegates(self): return []
class D:
    def __init__(self, **k): self.p = k["population"]; self.message_adapter = A(self)
    def finalized_population(self): return self.p
h = m.ClassicHGS(population=[[0.1, 0.1], [0.2, 0.2]], dims=[(0.0, 1.0)] * 2, fitnesses=[lambda v: v[0]], fitness_errors=(0, 0, 0),
                 cost_modifiers=(1, 1, 1), driver=D, mutation_etas=(1, 1, 1), crossover_etas=(1, 1, 1), mutation_rates=(0, 0, 0),
                 crossover_rates=(0, 0, 0), reference_point=(9,), mantissa_bits=(52, 52, 52), min_progress_ratio=[.5, .5, .5],
                 metaepoch_len=[1, 1, 1], population_sizes=(2, 2, 2), driver_message_adapter_factory=A, comparison_multipliers=(.1, .1, .1))
a = m.ClassicHGS.Node(h, 1, [[0.1, 0.1], [0.1, 0.2]])
b = m.ClassicHGS.Node(h, 1, [[0.9, 0.9], [0.9, 0.8]])
for n in (a, b):
    h.nodes.append(n)
    h.level_nodes[1].append(n)
    n.population = n.driver.p
    n.hypervolume = n.old_hypervolume = 1.0
h.root.alive = False
h.root.ripe = True
h.root.population = [[0.5, 0.5]]
h.trim_sprouts()                    # both stop for lack of progress
assert a.ripe and b.ripe
h.revive_root()
assert a.alive and b.alive
a.population = [[0.9, 0.88], [0.9, 0.84]]       # one moves next to the other
for n in (a, b):
    n.hypervolume = 100.0
h.trim_sprouts()
assert a.alive != b.alive, "two active nodes in one place"
''',
     "a node that stopped, was revived and has moved since",
     "redundancy is judged by where the node was when it stopped, so that two active nodes share a place")

seed("c14-stale-fronts", "C14",
     [("algorithms/IMGA/IMGA.py",
       "            for _ in range(self.outer.migrants_number):\n                pareto_layers = [\n                    l\n                    for l in ea_utils.paretofront_layers(\n                        current_population, fitfun_res=fitfun_res\n                    )\n                ]\n\n",
       "            pareto_layers = [\n                l\n                for l in ea_utils.paretofront_layers(\n                    current_population, fitfun_res=fitfun_res\n                )\n            ]\n            for _ in range(self.outer.migrants_number):\n                pareto_layers = [\n                    [x for x in l if x in current_population] for l in pareto_layers\n                ]\n                pareto_layers = [l for l in pareto_layers if l]\n")],
     '''
from algorithms.IMGA.IMGA import IMGA
table = {(0.0,): (0.0, 3.0), (1.0,): (3.0, 0.0), (2.0,): (1.0, 4.0), (3.0,): (4.0, 1.0), (4.0,): (5.0, 5.0)}
class A:
    def emigrate(self, r): return list(r)
class D:
    def __init__(self, population=None, **k): self.population = population; self.message_adapter = A()
class O:
    driver = D; dims = [(0.0, 4.0)]; migrants_number = 2
    mutation_rate = mutation_eta = crossover_rate = crossover_eta = 1.0
    driver_message_adapter_factory = None
    fitnesses = [lambda v: table[tuple(v)][0], lambda v: table[tuple(v)][1]]
o = O()
o.fitnesses = O.fitnesses
random.seed(7)
hits, rounds = 0, 6000
for _ in range(rounds):
    isl = IMGA.Island(o, [list(v) for v in table])
    if sorted(map(tuple, isl.emigrate())) == [(0.0,), (2.0,)]:
        hits += 1
# best member, then the one only it dominated: 12/44 (1 + 1/2) 12/44 = 0.1116 when the fronts are those of the members left
assert 0.093 < hits / rounds < 0.13, hits / rounds
''',
     "several migrants over one link, the first of which alone dominated another member",
     "the second migrant is drawn from the fronts as they were before the first one left")

seed("c14-flat-tail", "C14",
     [("algorithms/IMGA/IMGA.py",
       "                weights = [1 / (i + 1) for i in range(len(pareto_layers))]\n",
       "                weights = [1 / (min(i, 3) + 1) for i in range(len(pareto_layers))]\n")],
     '''
import algorithms.IMGA.IMGA as m
class A:
    def emigrate(self, r): return list(r)
class D:
    def __init__(self, population=None, **k): self.population = population; self.message_adapter = A()
class O:
    driver = D; dims = [(0.0, 9.0)]; migrants_number = 1
    mutation_rate = mutation_eta = crossover_rate = crossover_eta = 1.0
    driver_message_adapter_factory = None
o = O()
o.fitnesses = [lambda v: v[0]]
random.seed(7)
hits, rounds = 0, 20000
for _ in range(rounds):
    isl = m.IMGA.Island(o, [[float(i)] for i in range(10)])
    if isl.emigrate()[0][0] >= 5.0:
        hits += 1
expect = sum(1.0 / k for k in range(6, 11)) / sum(1.0 / k for k in range(1, 11))
assert abs(hits / rounds - expect) < 0.02, (hits / rounds, expect)
''',
     "an island whose members form more than four fronts",
     "every front after the fourth is drawn with the fourth one's weight")

seed("c18-shared-archive", "C18",
     [("algorithms/HGS/classic/ClassicHGS.py",
       "        self.global_fitness_archive = [ResultArchive() for _ in range(3)]\n",
       "        self.global_fitness_archive = [ResultArchive()] * 3\n")],
     '''
sys.stdout = open("/dev/null", "w")
m = importlib.import_module("algorithms.HGS.classic.ClassicHGS")
N = importlib.import_module("algorithms.NSGAII.NSGAII")
def Driver(message_adapter_factory=None, **k):
    return N.NSGAII(mating_population_size=1.0, **k)
def make(**k):
    a = dict(population=[[0.25, 0.5], [0.5, 0.25]], dims=[(0.0, 1.0)] * 2, fitnesses=[lambda v: v[0], lambda v: v[1]],
             fitness_errors=(4.0, 1.0, 0.0), cost_modifiers=(1, 1, 1), driver=Driver, mutation_etas=(1, 1, 1), crossover_etas=(1, 1, 1),
             mutation_rates=(0, 0, 0), crossover_rates=(0, 0, 0), reference_point=(9, 9), mantissa_bits=(52, 52, 52),
             min_progress_ratio=[0, 0, 0], metaepoch_len=[1, 1, 1], population_sizes=(2, 2, 2),
             driver_message_adapter_factory=lambda d: None, comparison_multipliers=(.001, .001, .001))
    a.update(k)
    return m.ClassicHGS(**a)
def values(node):
    d = node.driver
    d._calculate_objectives() if hasattr(d, "_calculate_objectives") else d.calculate_objectives(d.individuals)
    out = {}
    for i in d.individuals:
        o = i.objectives
        out[tuple(i.v)] = list(o.values()) if isinstance(o, dict) else list(o)
    return out
h = make()
pop = [[0.25, 0.5], [0.5, 0.25]]
coarse, fine = m.ClassicHGS.Node(h, 0, [list(v) for v in pop]), m.ClassicHGS.Node(h, 2, [list(v) for v in pop])
random.seed(5)
values(coarse)
for v, o in values(fine).items():
    assert sorted(o) == sorted(v), (v, o)
''',
     "an accurate level that comes across a vector already evaluated by a coarse level",
     "evaluations of the coarse level are taken over by the accurate ones")

seed("c11-short-names", "C11",
     [("simulation/worker.py",
       "                Result(finalpop, finalpop_fit, cost=driver.cost), str(budget)\n",
       "                Result(finalpop, finalpop_fit, cost=driver.cost), f\"{budget:g}\"\n")],
     '''
import types, logging
from simulation import worker
names = []
class S:
    def __init__(self, *a): pass
    def store(self, result, name): names.append(name)
worker.Serializer = S
from algorithms.base.driver import Driver
class D(Driver):
    def __init__(self):
        super().__init__()
        self.cost = 0
        self.population = [[0.5]]
        self.jumps = [500, 1000001, 1000002]
    def step(self):
        self.cost = self.jumps.pop(0)
    def finalized_population(self):
        return self.population
class Sim:
    algorithm_name = problem_name = "x"
    params = {worker.factory.BUDGETS_PARAM: [500, 1000001, 1000002]}
d = D()
w = worker.BudgetWorker(Sim(), 0)
p = types.SimpleNamespace(fitnesses=[lambda v: v[0]])
w.run_driver(d, p, logging.getLogger("q"))
assert names == ["500", "1000001", "1000002"], names
''',
     "budgets of more than six digits",
     "large budgets are stored under a rounded name, where neighbouring ones overwrite each other")

seed("c17-first-member", "C17",
     [("algorithms/HGS/distributed/node_tasks.py", "    center = np.mean(population, axis=0) if population else None\n",
       "    center = np.array(population[0]) if population else None\n")],
     '''
t = importlib.import_module("algorithms.HGS.distributed.node_tasks")
h = importlib.import_module("algorithms.HGS.distributed.hgs_tasks")
s = [t.create_node_state(n, 1, True, False, p) for n, p in (("a", [[0.0, 0.5], [1.0, 0.5]]), ("b", [[0.5, 0.4], [0.5, 0.6]]))]
assert [list(x.center) for x in s] == [[0.5, 0.5]] * 2
''',
     "nodes whose first members are far apart and whose means are close (or the other way round)",
     "redundancy is judged by one member of each node in place of the mean of its population")
