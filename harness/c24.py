"""C24: runs share nothing; what the caller handed over stays as it was."""
import importlib

from sx.harness import harness

from .c07 import archive
from .c11 import RUN_ID, problem
from .c13 import adapter, vector_of
from .c14 import imga, stub_class
from .c16 import LENS, WEIGHTS, hgs, hypervolumes, node_driver
from .c17 import System, World, dhgs, snapshot
from .c20 import source_root
from .common import ALGOS, EXTRA, driver_class, make


def copied(x):
    """the plain contents of nested lists, tuples and dictionaries"""
    if isinstance(x, dict):
        return {k: copied(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [copied(v) for v in x]
    return x


def kept(ctx, now, before, label):
    """same contents, compared value by value"""
    if isinstance(now, dict):
        ctx.check(sorted(map(str, now)) == sorted(map(str, before)), label)
        for k in before:
            kept(ctx, now[k], before[k], label)
    elif isinstance(before, list):
        ctx.check(isinstance(now, (list, tuple)) and len(now) == len(before), label)
        for a, b in zip(now, before):
            kept(ctx, a, b, label)
    elif callable(before):
        ctx.check(now is before, label)
    else:
        ctx.check(now == before, label)


class Draws:
    """The same draws for every run: after restart() the stream begins anew."""

    def __init__(self, ctx, free):
        r = [ctx.real("draw", 0.05, 0.95)] if free else [0.3]
        stream = {"random": [0.9] + r + [0.2, 0.7], "unit": [0.25, 0.5, 0.75], "gauss": [0.25, -0.5, 1.0]}
        self.at = {k: 0 for k in stream}

        def mk(k):
            def f(*a):
                v = stream[k][self.at[k] % len(stream[k])]
                self.at[k] += 1
                return v
            return f
        ctx.policy(random=mk("random"), unit=mk("unit"), gauss=mk("gauss"), index="first", shuffle="id",
                   replay=True)

    def restart(self):
        for k in self.at:
            self.at[k] = 0


def objectives(ctx, m, seen):
    """plain objectives of the vector; they remember what they were given"""
    def mk(k):
        def objective(v):
            seen.append((k, list(v)))
            return v[0] if k == 0 else 1 - v[0] + v[-1] * (k + 1)
        return objective
    return [mk(k) for k in range(m)]


def start_population(ctx, n, d, free):
    pop = [[(i * 2 + 1) / 16.0] + [((i * 5) % 7) / 8.0 for _ in range(d - 1)] for i in range(n)]
    if free:
        pop[0][0] = ctx.real("x", 0, 1)
    return pop


def look(d):
    return [list(v) for v in d.population], d.cost, d.step_no


RATES = [(0.0, 0.0), (1.0, 1.0), (0.5, 0.5)]
ONE = [dict(algo=a, n=2, d=2, m=2, steps=1, free=1) for a in ("NSGAII", "OMOPSO")] + \
    [dict(algo=a, n=5, d=3, m=2, steps=3, free=0) for a in ALGOS]


@harness(quick=ONE, thorough=ONE + [dict(algo=a, n=6, d=2, m=3, steps=5, free=0) for a in ALGOS] +
         [dict(algo=a, n=3, d=2, m=2, steps=1, free=1) for a in ("NSGAII",)] +
         [dict(algo=a, n=2, d=2, m=2, steps=1, free=1) for a in ("SMSEMOA", "SPEA2")], path_s=60)
def same_objects_twice(ctx):
    """every algorithm: what it was given is kept, what it hands out stays, a second run repeats the first"""
    p = ctx.p
    mr, cr = RATES[ctx.choose("rates", len(RATES))]
    kind = ("IMGA", "HGS")[ctx.choose("adapter", 2)]
    draws = Draws(ctx, p["free"])
    seen = []
    fits = objectives(ctx, p["m"], seen)
    pop = start_population(ctx, p["n"], p["d"], p["free"])
    dims = [[0.0, 1.0] for _ in range(p["d"])]
    ref = [50.0] * p["m"]
    over = dict(reference_point=ref) if "reference_point" in EXTRA[p["algo"]] else {}
    given = [pop, dims, fits, ref]
    before = copied(given)
    rows = list(pop) + list(dims)
    runs = []
    handed = []
    for run in range(2):
        draws.restart()
        del seen[:]
        d = make(p["algo"], pop, dims, fits, mutation_rate=mr, crossover_rate=cr,
                 message_adapter_factory=adapter(p["algo"], kind), **over)
        story = [look(d)]
        for _ in range(p["steps"]):
            handed.append((d.population, copied(d.population)))
            msg = d.next_step()
            handed.append((msg.population, copied(msg.population)))
            story.append(look(d))
        final = d.finalized_population()
        story.append([list(v) for v in final])
        handed.append((final, copied(final)))
        d.next_step()
        story.append(look(d))
        runs.append((story, [x for x in seen]))
        kept(ctx, given, before, "inputs-unchanged")
        ctx.check(all(a is b for a, b in zip(list(pop) + list(dims), rows)), "inputs-unchanged")
        for was, copy in handed:
            kept(ctx, was, copy, "handed-out-populations-stay")
    if p["algo"] == "JGBL":     # keeps its members in sets, whose order no run controls
        return
    kept(ctx, runs[1][0], copied(runs[0][0]), "second-run-repeats-the-first")
    kept(ctx, runs[1][1], copied(runs[0][1]), "second-run-evaluates-the-same")


@harness(quick=[dict(algo=a) for a in ALGOS], thorough=[dict(algo=a) for a in ALGOS], path_s=60)
def separate_caches(ctx):
    """a run with an evaluation cache leaves nothing behind for a run without one"""
    draws = Draws(ctx, 0)
    seen = []
    fits = objectives(ctx, 2, seen)
    pop = [[0.25], [0.5], [0.75]]
    counts = []
    for cache in (None, archive([]), None):
        draws.restart()
        del seen[:]
        kw = {} if cache is None else dict(fitness_archive=cache)
        d = make(ctx.p["algo"], pop, [(0.0, 1.0)], fits, mutation_rate=1.0, crossover_rate=0.0, **kw)
        d.next_step()
        d.next_step()
        counts.append((len(seen), d.cost, [list(v) for v in d.population]))
    ctx.check(counts[0] == counts[2], "no-cache-shared", "%s" % (counts,))


APART = [dict(algo=a) for a in ALGOS if a != "JGBL"]


@harness(quick=APART, thorough=APART, path_s=60)
def two_at_once(ctx):
    """two runs stepped in turn end as when run one after the other"""
    draws = Draws(ctx, 0)
    fits = objectives(ctx, 2, [])
    pop = start_population(ctx, 4, 2, 0)
    dims = [(0.0, 1.0)] * 2

    def build():
        draws.restart()
        return make(ctx.p["algo"], pop, dims, fits, mutation_rate=0.5, crossover_rate=0.5)
    alone = build()
    story = [look(alone)]
    for _ in range(3):
        draws.restart()
        alone.next_step()
        story.append(look(alone))
    a, b = build(), build()
    both = [(look(a), look(b))]
    order = ctx.choose("order", 8)
    for i in range(3):
        for d in ((a, b), (b, a))[(order >> i) & 1]:
            draws.restart()
            d.next_step()
        both.append((look(a), look(b)))
    for s, (x, y) in zip(story, both):
        ctx.check(s == x and s == y, "runs-do-not-influence-each-other")


@harness(quick=[dict(islands=3, steps=2), dict(islands=4, steps=1)], thorough=[dict(islands=5, steps=2), dict(islands=6, steps=2)],
         path_s=60)
def islands(ctx):
    """the island model: shared topology and inputs are kept; a second model starts and runs as the first"""
    k = ctx.p["islands"]
    from algorithms.IMGA.topology import TorusTopology
    costs = []
    ctx.policy(index="first", unit=0.25, shuffle="id")
    pop = [[(i + 1) / 64.0] for i in range(3 * k + 1)]
    dims = [(0.0, 1.0)]
    before = copied([pop, dims])
    topology = TorusTopology((2, 4)[ctx.choose("width", 2)])
    width = topology.width
    free = [ctx.int("c", 0, 9) for _ in range(4)]
    stories = []
    for run in range(2):
        at = [0]

        def cost():
            at[0] += 1
            return free[at[0] % 4]
        cls = stub_class(ctx, cost)
        d = imga(ctx, pop, [lambda v: v[0]], k, 1, 1, cls, topology=topology)
        story = [[[list(v) for v in i.driver.population] for i in d.islands], copied([sorted(t) for t in d.topology])]
        for _ in range(ctx.p["steps"]):
            d.next_step()
            story.append([[list(v) for v in i.driver.population] for i in d.islands] + [d.cost])
        stories.append(story)
        kept(ctx, [pop, dims], before, "inputs-unchanged")
        ctx.check(topology.width == width, "topology-unchanged")
    kept(ctx, stories[1], copied(stories[0]), "second-run-repeats-the-first")


CONFIG = ("fitness_errors", "cost_modifiers", "mutation_etas", "crossover_etas", "mutation_rates", "crossover_rates",
          "reference_point", "mantissa_bits", "min_progress_ratio", "metaepoch_len", "comparison_multipliers",
          "population_sizes")


def settings():
    """settings as lists: nothing in them is protected from being changed"""
    return dict(fitness_errors=[0.0, 0.0, 0.0], cost_modifiers=list(WEIGHTS), mutation_etas=[10.0, 12.0, 15.0],
                crossover_etas=[15.0, 20.0, 25.0], mutation_rates=[0.0, 0.0, 0.0], crossover_rates=[0.9, 0.8, 0.7],
                reference_point=[50.0], mantissa_bits=[4, 16, 64], min_progress_ratio=[0.125, 0.25, 0.5],
                metaepoch_len=list(LENS), comparison_multipliers=[0.5, 0.25, 0.125], population_sizes=[4, 3, 2])


def tree(d):
    return [(n.level, bool(n.alive), bool(n.ripe), [list(v) for v in n.driver.population]) for n in d.nodes]


@harness(quick=[dict(steps=5, top=0), dict(steps=9, top=1)], thorough=[dict(steps=12, top=1), dict(steps=14, top=2)], path_s=60)
def classic_hierarchy(ctx):
    """the classic hierarchy, through revivals: shared settings are kept and a second search repeats the first"""
    ratio = [ctx.real("ratio", 0, 1) for _ in range(3)]
    common = settings()
    common["min_progress_ratio"] = list(ratio)
    before = copied(common)
    pop = [[i / 16.0] for i in range(8)]
    dims = [(0.0, 1.0)]
    fits = [lambda v: v[0]]
    rest = copied([pop, dims, fits])
    free = [ctx.int("cost", 0, 50) for _ in range(3)]
    ctx.policy(index="first", shuffle="id", random=0.9, unit=0.5)
    stories = []
    for run in range(2):
        spent, grown, current = [0], {}, [None]

        def costs(driver):
            spent[0] += 1
            return free[spent[0] % 3]

        def delegates(driver):
            current[0] = driver
            return [[driver.population[0][0] + 0.5], [driver.population[0][0] + 0.25]]

        def hv():
            seen = grown.setdefault(id(current[0]), [])
            seen.append(seen[-1] if len(seen) > 1 else 1.0 + len(seen))
            return seen[-1]
        stub, adapt = node_driver(ctx, costs, delegates)
        hypervolumes(ctx, hv)
        d = hgs(ctx, stub, adapt, pop, dims=dims, fitnesses=fits, max_sprouts_no=2, sproutiveness=1,
                max_level=ctx.p["top"], **common)
        story = [tree(d)]
        for _ in range(ctx.p["steps"]):
            d.next_step()
            story.append([tree(d), d.cost])
        d.finalized_population()
        stories.append(story)
        kept(ctx, common, before, "shared-settings-unchanged")
        kept(ctx, [pop, dims, fits], rest, "inputs-unchanged")
    kept(ctx, stories[1], copied(stories[0]), "second-run-repeats-the-first")


@harness(quick=[dict(steps=5, top=0), dict(steps=9, top=1)], thorough=[dict(steps=12, top=1), dict(steps=14, top=2)], path_s=90)
def distributed_hierarchy(ctx):
    """the distributed hierarchy, through revivals: shared settings are kept, a second search repeats the first"""
    common = settings()
    common["min_progress_ratio"] = [ctx.real("ratio", 0, 1) for _ in range(3)]
    before = copied(common)
    pop = [[i / 16.0] for i in range(8)]
    dims = [(0.0, 1.0)]
    fits = [lambda v: v[0]]
    rest = copied([pop, dims, fits])
    w = World(ctx, "stall", True)
    stories = []
    for run in range(2):
        stub, adapt = w.start()
        sys_ = System(ctx, lambda r: False, False)
        d = dhgs(ctx, sys_, stub, adapt, pop, dims=dims, fitnesses=fits, max_sprouts_no=2, sproutiveness=1,
                 max_level=ctx.p["top"], **common)
        story = []
        for _ in range(ctx.p["steps"]):
            d.next_step()
            story.append([(a.level, bool(a.alive), bool(a.ripe), a.driver.steps, len(a.sprouts))
                          for n, a in snapshot(sys_)] + [d.cost])
        stories.append(story)
        kept(ctx, common, before, "shared-settings-unchanged")
        kept(ctx, [pop, dims, fits], rest, "inputs-unchanged")
    kept(ctx, stories[1], copied(stories[0]), "second-run-repeats-the-first")


@harness(quick=[dict(problem="ZDT1"), dict(problem="UF8")], thorough=[dict(problem="ZDT4"), dict(problem="UF2")], path_s=90)
def prepared_configuration(ctx):
    """preparing and running a case leaves the declared configuration as it was; preparing again gives the same"""
    from simulation import factory, run_config

    ctx.chdir(source_root())
    declared = (run_config.algo_base, run_config.cust_base, run_config.algorithms, run_config.drivers)
    before = copied(declared)
    name = run_config.algorithms[ctx.choose("algorithm", len(run_config.algorithms))]
    ctx.policy(index="first", shuffle="id", random=0.4, unit=0.5, gauss=0.0)
    configs = []
    for run in range(2):
        final, mod = factory.prepare(name, ctx.p["problem"])
        kw = dict(final.keywords)
        kw.pop("population"), kw.pop("driver", None)
        configs.append((kw, copied(kw)))
        kept(ctx, declared, before, "declared-configuration-unchanged")
        if name.startswith("HGS") and not run:
            stalled(ctx, final.keywords)
        elif "+" not in name and not run:
            pop = [[lo + (hi - lo) * (i + 1) / 8.0 for lo, hi in mod.dims] for i in range(4)]
            d = final.func(**dict(final.keywords, population=pop,
                                  fitnesses=[lambda v: v[0], lambda v: 1 - v[0], lambda v: v[1]][:len(mod.fitnesses)]))
            d.next_step()
            d.finalized_population()
        kept(ctx, declared, before, "declared-configuration-unchanged")
    ctx.check(sorted(configs[0][0]) == sorted(configs[1][0]), "second-case-configured-as-the-first")
    for k in configs[0][1]:
        if k not in ("fitnesses", "driver_message_adapter_factory"):
            kept(ctx, configs[1][1][k], configs[0][1][k], "second-case-configured-as-the-first")


def stalled(ctx, kw):
    """a hierarchy with the prepared settings whose nodes all stop, until it is revived"""
    from .c14 import immediate_threads
    mod = importlib.import_module("algorithms.HGS.HGS")
    immediate_threads(ctx)
    free = [ctx.int("cost", 0, 50)]
    volume = [1.0]

    def hv():
        volume[0] = volume[0] + 1.0 if volume[0] < 3 else volume[0]
        return volume[0]
    stub, adapt = node_driver(ctx, lambda d: free[0], lambda d: [list(d.population[0])])
    hypervolumes(ctx, hv)
    d = mod.HGS(**dict(kw, driver=stub, driver_message_adapter_factory=adapt, fitnesses=[lambda v: v[0]],
                       mutation_rates=[0.0, 0.0, 0.0], max_level=0))
    for _ in range(4):
        d.next_step()


@harness(quick=[dict(nb=2)], thorough=[dict(nb=3)], path_s=60)
def worker_parameters(ctx):
    """a budget run leaves the case's parameters, shared by all cases, as they were"""
    from simulation import factory, log_helper, worker
    from simulation.model import SimulationCase

    params = {"budgets": [2, 4, 7][:ctx.p["nb"]]}
    before = copied(params)
    step = [ctx.int("c", 1, 4) for _ in range(3)]
    prob = problem()
    ends = []
    for run in range(2):
        from algorithms.base.driver import Driver

        class Stepper(Driver):
            def __init__(self):
                super().__init__()
                self.k = 0

            def step(self):
                self.cost = self.cost + step[self.k % 3]
                self.k += 1

            def finalized_population(self):
                return [[float(self.k)]]
        d = Stepper()
        case = SimulationCase("P", "A", 3, None, ctx.scratch(), id=RUN_ID, **params)
        ctx.patch_everywhere(factory, "prepare", lambda *a: (lambda: d, prob))
        ctx.patch_everywhere(log_helper, "init", lambda: None)
        ctx.check(worker.BudgetWorker(case, run).run() is not None, "run-succeeds")
        ends.append((d.cost, d.k))
        kept(ctx, params, before, "case-parameters-unchanged")
        kept(ctx, list(case.params["budgets"]), before["budgets"], "case-parameters-unchanged")
    ctx.check(ends[0][0] == ends[1][0] and ends[0][1] == ends[1][1], "second-run-repeats-the-first")
