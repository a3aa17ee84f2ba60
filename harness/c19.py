"""C19: stored results are read back complete, unmixed and in order."""
from sx.harness import harness

PROBLEMS, ALGOS_ = ("ZDT1", "ZDT2"), ("NSGAII", "IMGA+SPEA2")
DATES = ("2020-01-02.030405.000007", "2020-01-02.030405.000006", "2019-12-31.235959.999999", "2020-01-10.000000.000000")
JUNK = ("100.hypervolume.pickle", "100.pareto_dominance_indicator.pickle", "100.pickle.bak", "notes.txt", "x100.pickle",
        "100.5.pickle", "-100.pickle", "100.pickl", "100pickle")


def listing(ctx, most=3):
    """directories are listed in any order"""
    import os
    from pathlib import Path
    turn = ctx.choose("listing", most)

    def mix(items):
        items = sorted(items)
        if turn == 0:
            return items
        if turn == 1:
            return items[::-1]
        return items[1::2] + items[0::2][::-1]
    real_iter, real_list = Path.iterdir, os.listdir

    def iterdir(self):
        return iter(mix(list(real_iter(self))))
    ctx.patch(Path, "iterdir", iterdir)
    ctx.patch(os, "listdir", lambda *a: mix(real_list(*a)))


def store(ctx, root, problem, algo, run, date, name, n=2, m=2):
    from simulation.model import SimulationCase
    from .common import simulation_id
    from simulation.serializer import Result, Serializer
    sim = SimulationCase(problem, algo, run, None, root, id=simulation_id(run, date))
    pop = ctx.points("p", n, 2, 0, 1)
    fits = ctx.points("f", n, m, -8, 8)
    cost = ctx.int("cost", 0, 1000)
    Serializer(sim).store(Result(pop, fits, cost=cost), name)
    return dict(problem=problem, algo=algo, id=sim.id, name=name, pop=pop, fits=fits, cost=cost)


def load_all(ctx, extractor, root, key):
    """everything the library reports, flattened"""
    from simulation import serialization
    got = []
    for problem, mod, algos in serialization.each_result(extractor, root):
        ctx.check(mod.__name__ == "problems.%s.problem" % problem, "the-problem-itself")
        for algo, results in algos:
            last = None
            for entry in results:
                ctx.check((entry["problem"], entry["algo"]) == (problem, algo), "entry-under-its-key")
                ctx.check(last is None or entry[key] > last, "budgets-increase")
                last = entry[key]
                ctx.check(len(entry["results"]) > 0, "no-empty-group")
                for r in entry["results"]:
                    got.append((problem, algo, entry[key], r))
    return got


def agrees(ctx, stored, got):
    ctx.check(len(got) == len(stored), "every-result-once", "%d of %d" % (len(got), len(stored)))
    for s in stored:
        mine = [r for p, a, b, r in got if (p, a, b) == (s["problem"], s["algo"], int(s["name"]))
                and r.simulation_case.id == s["id"]]
        ctx.check(len(mine) == 1, "every-result-once", "%s %s" % (s["id"], s["name"]))
        r = mine[0]
        ctx.check(r.name == s["name"] and r.path.parent.name == s["id"], "its-own-file")
        ctx.check((r.simulation_case.problem_name, r.simulation_case.algorithm_name) == (s["problem"], s["algo"]),
                  "its-own-case")
        ctx.check(len(r.population) == len(s["pop"]) and len(r.fitnesses) == len(s["fits"]), "same-size")
        ctx.check(ctx.all(ctx.same(x, y) for x, y in zip(r.population, s["pop"])), "same-population")
        ctx.check(ctx.all(ctx.same(x, y) for x, y in zip(r.fitnesses, s["fits"])), "same-objective-values")
        ctx.check(r.additional_data["cost"] == s["cost"], "same-cost")


def in_order(ctx, got):
    """runs of a group come in the order of their ids, numbered from zero within their algorithm"""
    ids = {}
    for p, a, b, r in got:
        ids.setdefault((p, a), set()).add(r.simulation_case.id)
    seen = {}
    for p, a, b, r in got:
        seen.setdefault((p, a, b), []).append(r)
    for (p, a, b), rs in seen.items():
        order = [r.simulation_case.id for r in rs]
        ctx.check(order == sorted(order), "runs-in-order", "%s" % order)
        for r in rs:
            ctx.check(sorted(ids[(p, a)]).index(r.simulation_case.id) == r.run_no, "run-number")


@harness(quick=[dict(kind="budget", runs=3), dict(kind="time", runs=2)],
         thorough=[dict(kind="budget", runs=4), dict(kind="time", runs=3)], path_s=30)
def mixed(ctx):
    """any runs of any problem and algorithm, foreign files among them, listed in any order"""
    from simulation import serialization
    import os

    root = ctx.scratch()
    listing(ctx)
    extractor = serialization.BudgetResultsExtractor() if ctx.p["kind"] == "budget" else serialization.TimeResultsExtractor()
    stored = []
    for i in range(ctx.p["runs"]):
        problem, algo = PROBLEMS[ctx.choose("problem", 2)], ALGOS_[ctx.choose("algo", 2)]
        names = (("100",), ("1000", "200"), ("9", "10", "100"))[(i + ctx.choose("budgets", 2)) % 3]
        for name in names:
            stored.append(store(ctx, root, problem, algo, i + 1, DATES[i], name, n=1 + i % 2))
    first = os.path.join(root, stored[0]["problem"], stored[0]["algo"])
    if ctx.choose("foreign", 2):
        for j in JUNK:
            open(os.path.join(first, stored[0]["id"], j), "w").close()
        os.mkdir(os.path.join(first, stored[0]["id"], "77.pickle"))
        os.mkdir(os.path.join(first, "old"))
        os.mkdir(os.path.join(first, "2020-01-02.030405.000006__3"))
        open(os.path.join(first, "2020-01-01.000000.000000.txt"), "w").close()
        open(os.path.join(root, stored[0]["problem"], stored[0]["problem"] + "_nondominated"), "w").close()
    got = load_all(ctx, extractor, root, ctx.p["kind"])
    agrees(ctx, stored, got)
    in_order(ctx, got)
    ctx.observe("got", [(p, a, b, r.simulation_case.id, r.additional_data["cost"]) for p, a, b, r in
                        sorted(got, key=lambda g: (g[:3], g[3].simulation_case.id))])


WIDE = (7, 80, 500, 9500, 9999, 10500, 100500, 2000000, 12345678901)


@harness(quick=[dict(n=2), dict(n=2, wide=1)], thorough=[dict(n=4), dict(n=3, wide=1)], path_s=30)
def budgets(ctx):
    """any budgets of one run: each is found again under its number, in increasing order"""
    from simulation import serialization

    root = ctx.scratch()
    listing(ctx)
    bs = []
    for i in range(ctx.p["n"]):
        if ctx.p.get("wide"):
            b = WIDE[ctx.choose("budget", len(WIDE))]
        else:
            b = int(ctx.int("b", 0, 10)) * (1, 10, 7, 100, 3)[i]
        ctx.assume(all(b != x for x in bs))
        bs.append(b)
    stored = [store(ctx, root, "ZDT1", "SPEA2", 1, DATES[0], str(b), n=1, m=1) for b in bs]
    got = load_all(ctx, serialization.BudgetResultsExtractor(), root, "budget")
    ctx.check([b for _, _, b, _ in got] == sorted(bs), "budgets-increase")
    agrees(ctx, stored, got)


@harness(quick=[dict(runs=2, cached=1), dict(runs=2, cached=0)], thorough=[dict(runs=3, cached=1)], path_s=60)
def with_metrics(ctx):
    """computing metrics writes caches next to the results; they are not taken for results afterwards"""
    from simulation import serialization

    root = ctx.scratch()
    listing(ctx)
    stored = []
    for i in range(ctx.p["runs"]):
        stored.append(store(ctx, root, "ZDT1", "SPEA2", i + 1, DATES[i], "100", n=1))
    before = load_all(ctx, serialization.BudgetResultsExtractor(), root, "budget")
    if ctx.p["cached"]:
        import types
        from simulation import metrics_processor
        mod = types.ModuleType("p")
        mod.pareto_front = [[0.0, 1.0], [1.0, 0.0]]
        for key, name, values in metrics_processor.yield_metrics([r for _, _, _, r in before], mod):
            if key in ("epsilon", "ndr", "spacing", "cost"):
                for v in values:
                    v()
    got = load_all(ctx, serialization.BudgetResultsExtractor(), root, "budget")
    agrees(ctx, stored, got)
    in_order(ctx, got)


@harness(quick=[dict()], thorough=[dict()], path_s=30)
def apart(ctx):
    """different runs, names, problems and algorithms never share a file; storing again replaces only its own"""
    from simulation.model import SimulationCase
    from .common import simulation_id
    from simulation.serializer import Result, Serializer

    root = ctx.scratch()
    dates = DATES[:2]
    keys = []
    for i in range(2):
        keys.append((PROBLEMS[ctx.choose("problem", 2)], ALGOS_[ctx.choose("algo", 2)],
                     int(ctx.int("run", 1, 3)), dates[ctx.choose("date", 2)], ("10", "100")[ctx.choose("name", 2)]))
    vals = []
    for p, a, run, date, name in keys:
        sim = SimulationCase(p, a, run, None, root, id=simulation_id(run, date))
        vals.append(ctx.real("v", 0, 1))
        path = Serializer(sim).store(Result([[vals[-1]]], [[vals[-1]]], cost=0), name)
        ctx.check(path == Serializer(sim).get_result_path(name), "stored-where-it-is-looked-up")
    for i, (p, a, run, date, name) in enumerate(keys):
        sim = SimulationCase(p, a, run, None, root, id=simulation_id(run, date))
        r = Serializer(sim).load(name)
        want = vals[1] if keys[0] == keys[1] else vals[i]
        ctx.check(r.population[0][0] == want, "never-overwritten-by-another")


@harness(quick=[dict(n=3)], thorough=[dict(n=5)])
def ids(ctx):
    """runs of one batch get different ids, whatever the number drawn for an unnumbered one"""
    from simulation.model import get_simulation_id
    import re

    ctx.policy(index=lambda n: ctx.choose("drawn", min(n, 3)))
    made = []
    for i in range(ctx.p["n"]):
        k = int(ctx.int("run", 0, 12))
        ctx.assume(all(k != x for x, _ in made))
        made.append((k, get_simulation_id(k, DATES[0])))
    for k, sid in made:
        ctx.check(re.match(r"^\d{4}-\d{2}-\d{2}\.\d{6}\.\d{6}__\d{7}$", sid) is not None, "readable-id", sid)
        ctx.check(get_simulation_id(sid.split("__")[1], sid.split("__")[0]) == sid, "same-id-when-read-back")
    ctx.check(len({sid for _, sid in made}) == len(made), "different-ids")
