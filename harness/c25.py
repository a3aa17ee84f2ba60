"""C25: cached metrics match the results they are computed from."""
from sx.harness import harness
from .c19 import DATES, listing

VECTORS = ((0.0, 2.0), (1.0, 1.0), (2.0, 2.0), (2.0, 0.0))


def save(root, problem, algo, run, date, name, fits, cost=10):
    from simulation.model import SimulationCase
    from .common import simulation_id
    from simulation.serializer import Result, Serializer
    sim = SimulationCase(problem, algo, run, None, root, id=simulation_id(run, date))
    Serializer(sim).store(Result([[0.5] for _ in fits], fits, cost=cost), name)
    return sim


def measured(ctx, root, wanted, front=((0.0, 1.0), (1.0, 0.0))):
    """every value of the wanted metrics the library reports: (problem, algo, id, name, metric) -> value"""
    from simulation import serialization
    got = {}
    for problem, mod, algos in serialization.each_result(serialization.BudgetResultsExtractor(), root):
        ctx.patch(mod, "pareto_front", [list(p) for p in front])
        for algo, results in algos:
            for entry in results:
                for key, name, values in entry["analysis"]:
                    if key in wanted:
                        values = [v() for v in values]
                        ctx.check(len(values) == len(entry["results"]), "a-value-per-result", key)
                        for r, v in zip(entry["results"], values):
                            got[problem, algo, r.simulation_case.id, r.name, key] = v
    return got


def share(ctx, fits, everything):
    """part of the overall non-dominated vectors that the result holds"""
    front = {v for v in map(tuple, everything)
             if not any(ctx_dominates(w, v) for w in map(tuple, everything))}
    return len(front & set(map(tuple, fits))) / len(front)


def ctx_dominates(a, b):
    return all(x <= y for x, y in zip(a, b)) and a != b


def truth(store):
    """{(problem, algo, id, name): fits} -> dominance indicator of each result among its counterparts:
    the runs of the same position (in order of ids) of every algorithm, at the same budget"""
    ids = {}
    for p, a, i, n in store:
        ids.setdefault((p, a), set()).add(i)
    res = {}
    for p, a, i, n in store:
        at = sorted(ids[p, a]).index(i)
        pool = [v for (q, b, j, m), fits in store.items()
                if q == p and m == n and sorted(ids[q, b]).index(j) == at for v in fits]
        res[p, a, i, n, "pdi"] = share(None, store[p, a, i, n], pool)
    return res


def same_values(ctx, got, want, label):
    ctx.check(sorted(got) == sorted(want), "a-value-per-result", label)
    for k in want:
        ctx.check(got[k] is not None and ctx.close(got[k], want[k]), label, "%s: %s not %s" % (k, got[k], want[k]))


def chosen(ctx, n=1, of=len(VECTORS)):
    return [list(VECTORS[ctx.choose("v", of)]) for _ in range(n)]


PDI = [dict(a=2, b=2, of=3), dict(a=1, b=2, of=4), dict(a=2, b=1, of=3, foreign=1)]


@harness(quick=PDI, thorough=PDI + [dict(a=3, b=2, of=2), dict(a=2, b=3, of=2, foreign=1)], path_s=30)
def counterparts(ctx):
    """any objective values, directories listed in any order: each run is compared with its counterparts"""
    root = ctx.scratch()
    listing(ctx)
    store = {}
    for algo, n in (("NSGAII", ctx.p["a"]), ("SPEA2", ctx.p["b"])):
        for i in range(n):
            fits = chosen(ctx, 1, ctx.p["of"])
            s = save(root, "ZDT1", algo, i + 1, DATES[i], "100", fits)
            store["ZDT1", algo, s.id, "100"] = fits
    if ctx.p.get("foreign"):
        import os
        os.mkdir(os.path.join(root, "ZDT1", "SPEA2", "old"))
        os.mkdir(os.path.join(root, "ZDT1", "SPEA2", "2019-01-01.backup"))
        open(os.path.join(root, "ZDT1", "SPEA2", "0000.txt"), "w").close()
    want = truth(store)
    same_values(ctx, measured(ctx, root, ("pdi",)), want, "indicator-of-its-own-counterparts")
    same_values(ctx, measured(ctx, root, ("pdi",)), want, "same-with-a-warm-cache")


@harness(quick=[dict(algos=6, runs=2), dict(algos=2, runs=12)], thorough=[dict(algos=8, runs=12)], path_s=60)
def many(ctx):
    """many algorithms or many runs of each: the indicator is still the share of the front of all counterparts"""
    root = ctx.scratch()
    listing(ctx)
    store = {}
    free = ctx.choose("algorithm", ctx.p["algos"]), (ctx.p["runs"] - 1) * ctx.choose("run", 2)
    for a, algo in enumerate(("NSGAII", "SPEA2", "IBEA", "OMOPSO", "NSGAIII", "SMSEMOA", "JGBL", "NSLS")[:ctx.p["algos"]]):
        for i in range(ctx.p["runs"]):
            fits = [[float(a), 8.0 - a], [a + 0.5, float((a * 5 + i) % 9)]]
            if (a, i) == free:
                fits = chosen(ctx)
            date = "2020-01-%02d.030405.000006" % (i + 1)
            s = save(root, "ZDT1", algo, i + 1, date, "100", fits)
            store["ZDT1", algo, s.id, "100"] = fits
    want = truth(store)
    same_values(ctx, measured(ctx, root, ("pdi",)), want, "indicator-of-its-own-counterparts")
    same_values(ctx, measured(ctx, root, ("pdi",)), want, "same-with-a-warm-cache")


CHANGES = ("earlier-run", "later-run", "other-algorithm", "removed-run", "other-budget", "moved-budget", "nothing")


@harness(quick=[dict(of=2)], thorough=[dict(of=4)], path_s=30)
def changed(ctx):
    """results are added or removed between two analyses: the second is the one of the new set"""
    import os
    import shutil
    root = ctx.scratch()
    ctx.patch_listing = listing(ctx)
    of = ctx.p["of"]
    store = {}

    def put(algo, run, date, name):
        fits = chosen(ctx, 1, of)
        s = save(root, "ZDT1", algo, run, date, name, fits)
        store["ZDT1", algo, s.id, name] = fits
        return s
    first = put("NSGAII", 1, DATES[0], "100")
    put("SPEA2", 1, DATES[0], "100")
    gone = put("SPEA2", 2, DATES[3], "100")
    same_values(ctx, measured(ctx, root, ("pdi",)), truth(store), "indicator-of-its-own-counterparts")
    change = CHANGES[ctx.choose("change", len(CHANGES))]
    if change == "earlier-run":
        put("SPEA2", 3, DATES[2], "100")
    elif change == "later-run":
        put("NSGAII", 2, DATES[3], "100")
    elif change == "other-algorithm":
        put("IBEA", 1, DATES[1], "100")
    elif change == "removed-run":
        shutil.rmtree(os.path.join(root, "ZDT1", "SPEA2", gone.id))
        del store["ZDT1", "SPEA2", gone.id, "100"]
    elif change == "other-budget":
        put("NSGAII", 1, DATES[0], "200")
    elif change == "moved-budget":
        for algo in ("NSGAII", "SPEA2"):
            for k in [k for k in store if k[1] == algo]:
                d = os.path.join(root, "ZDT1", algo, k[2])
                os.rename(os.path.join(d, "100.pickle"), os.path.join(d, "300.pickle"))
                store["ZDT1", algo, k[2], "300"] = store.pop(k)
    same_values(ctx, measured(ctx, root, ("pdi",)), truth(store), "indicator-after-" + change)


PLAIN = ("gd", "igd", "ahd", "epsilon", "extent", "spacing", "ndr", "hypervolume", "cost")
FUN = {"gd": "generational_distance", "igd": "inverse_generational_distance", "ahd": "average_hausdorff_distance",
       "epsilon": "epsilon", "extent": "extent", "spacing": "spacing", "ndr": "non_domination_ratio",
       "hypervolume": "hypervolume"}


def marked(ctx, calls):
    """stand-in metric functions: values tell the metric and the data they were given apart"""
    from metrics import metrics
    for i, (key, fun) in enumerate(sorted(FUN.items())):
        ctx.need(metrics, fun)

        def f(fits, nondominated, pareto, key=key, i=i):
            calls.append(key)
            return marked_value(ctx, i, fits, nondominated, pareto)
        ctx.patch(metrics, fun, f)


def marked_value(ctx, i, fits, nondominated, pareto):
    s = 1000.0 * (i + 1)
    for k, v in enumerate(fits):
        for m, x in enumerate(v):
            s = s + (3 * k + m + 1) * x
    s = s + 10000.0 * len(list(nondominated))
    for k, v in enumerate(pareto):
        s = s + 100.0 * v[0] * (k + 1)
    return s


@harness(quick=[dict(runs=2, names=("100",)), dict(runs=1, names=("100", "20")), dict(runs=1, names=("100",), problems=2)],
         thorough=[dict(runs=3, names=("100", "20")), dict(runs=2, names=("100", "20"), problems=2)], path_s=60)
def unmixed(ctx):
    """any objective values: each metric of each result is computed from that result alone, cold and warm"""
    root = ctx.scratch()
    listing(ctx)
    calls = []
    marked(ctx, calls)
    store, costs = {}, {}
    for problem in ("ZDT1", "ZDT2")[:ctx.p.get("problems", 1)]:
        for algo in ("NSGAII", "SPEA2"):
            for i in range(ctx.p["runs"]):
                for name in ctx.p["names"]:
                    # two incomparable vectors
                    x, y = ctx.real("x", 0, 4), ctx.real("y", 0, 4)
                    fits = [[x, y], [x + 1, y - 1]]
                    cost = ctx.real("cost", 0, 1000)
                    s = save(root, problem, algo, i + 1, DATES[i], name, fits, cost)
                    store[problem, algo, s.id, name] = fits
                    costs[problem, algo, s.id, name] = cost
    front = ((0.0, 1.0), (1.0, 0.0))
    cold = measured(ctx, root, PLAIN, front)
    want = {}
    for k, fits in store.items():
        for i, key in enumerate(sorted(FUN)):
            want[k + (key,)] = marked_value(ctx, i, fits, fits, front)
        want[k + ("cost",)] = costs[k]
    same_values(ctx, cold, want, "value-of-that-result-and-metric")
    n = len(calls)
    warm = measured(ctx, root, PLAIN, front)
    ctx.check(len(calls) == n, "kept-values-are-used")
    same_values(ctx, warm, want, "same-with-a-warm-cache")


@harness(quick=[dict(metric=m) for m in ("gd", "hypervolume", "spacing")],
         thorough=[dict(metric=m) for m in sorted(FUN)], path_s=30)
def other_parameters(ctx):
    """a value kept for another reference front is never reported for this one"""
    root = ctx.scratch()
    calls = []
    marked(ctx, calls)
    metric = ctx.p["metric"]
    fits = [[ctx.real("x", 0, 4), ctx.real("y", 0, 4)]]
    s = save(root, "ZDT1", "SPEA2", 1, DATES[0], "100", fits)
    old, new = ctx.real("old", 0, 4), ctx.real("new", 0, 4)
    ctx.assume(ctx.Or(old == new, old - new >= 1e-3, new - old >= 1e-3))
    measured(ctx, root, (metric,), ((old, 1.0), (1.0, 0.0)))
    try:
        got = measured(ctx, root, (metric,), ((new, 1.0), (1.0, 0.0)))
    except Exception:
        ctx.check(ctx.Not(old == new), "refused-only-for-other-parameters")
        return
    i = sorted(FUN).index(metric)
    want = marked_value(ctx, i, fits, fits, ((new, 1.0), (1.0, 0.0)))
    ctx.check(ctx.close(got["ZDT1", "SPEA2", s.id, "100", metric], want), "value-for-these-parameters")


@harness(quick=[dict(order=0), dict(order=1)], thorough=[dict(order=i) for i in range(2)], path_s=60)
def real_metrics(ctx):
    """the shipped metrics through the cache: the value of the metric itself, whichever is asked first"""
    from metrics import metrics

    root = ctx.scratch()
    x, y = ctx.real("x", 0, 4), ctx.real("y", 0, 4)
    fits = [[x, y]]
    s = save(root, "ZDT1", "SPEA2", 1, DATES[0], "100", fits)
    front = [[0.0, 1.0], [1.0, 0.0]]
    keys = ("epsilon", "ndr", "spacing", "gd")
    for key in keys if ctx.p["order"] == 0 else keys[::-1]:
        first = measured(ctx, root, (key,), front)
        want = getattr(metrics, FUN[key])(fits, fits, front)
        k = ("ZDT1", "SPEA2", s.id, "100", key)
        ctx.check(list(first) == [k] and ctx.close(first[k], want), "value-of-that-result-and-metric", key)
        again = measured(ctx, root, (key,), front)
        ctx.check(ctx.close(again[k], want), "same-with-a-warm-cache", key)


@harness(quick=[dict(place=p) for p in ("plain", "ZDT1_runs", "old_ZDT1_x")],
         thorough=[dict(place=p) for p in ("plain", "ZDT1_runs", "old_ZDT1_x")], path_s=30)
def anywhere(ctx):
    """whatever the results directory is called"""
    import os
    root = os.path.join(ctx.scratch(), ctx.p["place"])
    store = {}
    for algo in ("NSGAII", "SPEA2"):
        fits = chosen(ctx, 1, 3)
        s = save(root, "ZDT1", algo, 1, DATES[0], "100", fits)
        store["ZDT1", algo, s.id, "100"] = fits
    for again in range(2):
        same_values(ctx, measured(ctx, root, ("pdi",)), truth(store), "indicator-of-its-own-counterparts")
