"""C22: statistics and rankings follow their definitions."""
from sx.harness import harness


def increasing(ctx, xs):
    """the values in increasing order"""
    xs = list(xs)
    res = []
    for x in xs:
        i = 0
        while i < len(res) and bool(res[i] <= x):
            i += 1
        res.insert(i, x)
    return res


def quartile(xs, q):
    """linear interpolation between the order statistics of an increasing list"""
    pos = q * (len(xs) - 1)
    lo = int(pos)
    if lo == len(xs) - 1:
        return xs[lo]
    return xs[lo] + (xs[lo + 1] - xs[lo]) * (pos - lo)


def percent(s):
    return 0.0 if s.strip() == "--" else float(s.strip().rstrip("%"))


NS = [dict(n=1, boot=2), dict(n=2, boot=2), dict(n=3, boot=1)]


@harness(quick=NS, thorough=NS + [dict(n=3, boot=2), dict(n=4, boot=1)], path_s=60, query_ms=20000)
def analysed(ctx):
    """any sample: centre, spread, fences, outliers; bootstrap estimates from any resamples"""
    from statistic.stats_bootstrap import yield_analysis

    n = ctx.p["n"]
    xs = ctx.reals("x", n, -20, 20)
    # values are equal or apart by more than rounding
    for i in range(n):
        for j in range(i):
            ctx.assume(ctx.Or(xs[i] == xs[j], xs[i] - xs[j] >= 1e-3, xs[j] - xs[i] >= 1e-3))
    a = yield_analysis(list(xs), ctx.p["boot"])
    up = increasing(ctx, xs)
    mean = ctx.Sum(xs) / n
    ctx.check(ctx.close(a["mean"], mean), "mean")
    ctx.check(ctx.sqrt_eq(a["stdev"], ctx.Sum([(x - mean) * (x - mean) for x in xs]) / n), "standard-deviation")
    ctx.check(ctx.close(a["lower"], mean - 3 * a["stdev"]), "three-sigma-band")
    ctx.check(ctx.close(a["upper"], mean + 3 * a["stdev"]), "three-sigma-band")
    ctx.check(a["goodbench"] == "\u2713", "at-most-ten-values-never-leave-the-band")
    q1, q3 = quartile(up, 0.25), quartile(up, 0.75)
    for k, v in (("low_inn_fence", q1 - 1.5 * (q3 - q1)), ("upp_inn_fence", q3 + 1.5 * (q3 - q1)),
                 ("low_out_fence", q1 - 3 * (q3 - q1)), ("upp_out_fence", q3 + 3 * (q3 - q1))):
        ctx.check(ctx.close(a[k], v), "fences", k)
    b = a["btstrpd"]
    ctx.check(ctx.close(b["metrics"], mean), "bootstrap-centre-is-the-sample-mean")
    ctx.check(ctx.close(b["confidence"], 95.0), "confidence")
    ctx.check(ctx.le(up[0], b["from"]), "bootstrap-within-the-sample's-range")
    ctx.check(ctx.le(b["from"], b["to"]), "bootstrap-interval-in-order")
    ctx.check(ctx.le(b["to"], up[-1]), "bootstrap-within-the-sample's-range")


@harness(quick=[dict(n=4), dict(n=5)], thorough=[dict(n=4), dict(n=5), dict(n=6)], path_s=60, share=2)
def outliers(ctx):
    """any far value among close ones: counted as mild or extreme, left out of the trimmed mean"""
    from statistic.stats_bootstrap import yield_analysis

    n = ctx.p["n"]
    ctx.policy(index="first", random=0.0)
    base = ctx.real("base", -5, 5)
    gaps = ctx.reals("gap", n - 2, 0, 1)
    xs = [base]
    for g in gaps:
        xs.append(xs[-1] + g)
    far = xs[-1] + ctx.real("far", 0, 10)
    xs.append(far)
    q1, q3 = quartile(xs, 0.25), quartile(xs, 0.75)
    iq = q3 - q1
    for x in xs:
        for f in (q1 - 1.5 * iq, q3 + 1.5 * iq, q1 - 3 * iq, q3 + 3 * iq):
            ctx.assume(ctx.Or(x - f >= 1e-6, f - x >= 1e-6))
    turn = ctx.choose("place", 2)
    a = yield_analysis(xs if turn == 0 else xs[::-1], 1)
    extreme = [x for x in xs if bool(ctx.Or(x < q1 - 3 * iq, x > q3 + 3 * iq))]
    inside = [x for x in xs if bool(ctx.And(x >= q1 - 1.5 * iq, x <= q3 + 1.5 * iq))]
    ctx.check(abs(percent(a["extr_outliers"]) - 100.0 * len(extreme) / n) < 0.01, "share-of-extreme-outliers")
    ctx.check(abs(percent(a["mild_outliers"]) - 100.0 * (n - len(extreme) - len(inside)) / n) < 0.01,
              "share-of-mild-outliers")
    mean = ctx.Sum(inside) / len(inside)
    ctx.check(ctx.close(a["metrics_nooutliers"], mean), "trimmed-mean")
    ctx.check(ctx.sqrt_eq(a["stdev_nooutliers"], ctx.Sum([(x - mean) * (x - mean) for x in inside]) / len(inside)),
              "trimmed-deviation")


RUNS = [3.25, 4.0, 2.5, 3.75, 9.5, 3.0, 3.5, 4.25, 6.25, 2.75, -4.0, 3.625, 3.125, 2.875, 4.125, 3.375, 3.875, 12.0, 2.625, 3.0, 3.25]
RUNS = RUNS + [x + 0.0625 for x in RUNS if x < 8] + [-9.0, 15.5]


@harness(quick=[dict(n=12, at=3), dict(n=7, at=0), dict(n=33, at=30)], thorough=[dict(n=n, at=n - 1) for n in (6, 8, 10, 15, 21)], path_s=60)
def many_runs(ctx):
    """a sample of many runs, most of them fixed, one anywhere: centre, spread, fences, outliers, trimmed values"""
    from statistic.stats_bootstrap import yield_analysis

    n = ctx.p["n"]
    ctx.policy(index="first", random=0.0)
    xs = RUNS[:n]
    xs[ctx.p["at"]] = ctx.real("x", -20, 20)
    for x in RUNS[:n]:
        ctx.assume(ctx.Or(xs[ctx.p["at"]] - x >= 1e-3, x - xs[ctx.p["at"]] >= 1e-3))
    up = increasing(ctx, xs)
    q1, q3 = quartile(up, 0.25), quartile(up, 0.75)
    iq = q3 - q1
    fences = [q1 - 3 * iq, q1 - 1.5 * iq, q3 + 1.5 * iq, q3 + 3 * iq]
    for x in xs:
        for f in fences:
            ctx.assume(ctx.Or(x - f >= 1e-6, f - x >= 1e-6))
    a = yield_analysis(list(xs), 3)
    for k, v in zip(("low_out_fence", "low_inn_fence", "upp_inn_fence", "upp_out_fence"), fences):
        ctx.check(ctx.close(a[k], v), "fences", k)
    mean = ctx.Sum(xs) / n
    ctx.check(ctx.close(a["mean"], mean), "mean")
    ctx.check(ctx.sqrt_eq(a["stdev"], ctx.Sum([(x - mean) * (x - mean) for x in xs]) / n), "standard-deviation")
    extreme = [x for x in xs if bool(ctx.Or(x < fences[0], x > fences[3]))]
    inside = [x for x in xs if bool(ctx.And(x >= fences[1], x <= fences[2]))]
    ctx.check(abs(percent(a["extr_outliers"]) - 100.0 * len(extreme) / n) < 0.01, "share-of-extreme-outliers")
    ctx.check(abs(percent(a["mild_outliers"]) - 100.0 * (n - len(extreme) - len(inside)) / n) < 0.01, "share-of-mild-outliers")
    trimmed = ctx.Sum(inside) / len(inside)
    ctx.check(ctx.close(a["metrics_nooutliers"], trimmed), "trimmed-mean")
    ctx.check(ctx.sqrt_eq(a["stdev_nooutliers"], ctx.Sum([(x - trimmed) * (x - trimmed) for x in inside]) / len(inside)), "trimmed-deviation")
    ctx.check(ctx.close(a["btstrpd"]["metrics"], mean), "bootstrap-centre-is-the-sample-mean")


@harness(quick=[dict(n=n) for n in (10, 11, 20, 21)], thorough=[dict(n=n) for n in (10, 11, 12, 19, 20, 21, 30)],
         path_s=60)
def suspicious(ctx):
    """any one far value among equal ones: the sample is marked when under 95% lie within three deviations"""
    from statistic.stats_bootstrap import yield_analysis

    n = ctx.p["n"]
    ctx.policy(index="first", random=0.0)
    base, d = ctx.real("base", -5, 5), ctx.real("d", -8, 8)
    ctx.assume(ctx.Or(d >= 0.01, d <= -0.01))
    at = ctx.choose("at", 2) * (n - 1)
    xs = [base] * n
    xs[at] = base + d
    a = yield_analysis(xs, 1)
    # the far value is (n - 1) / sqrt(n) deviations away: outside exactly when n > 10
    bad = n > 10 and (n - 1) < 0.95 * n
    ctx.check((a["goodbench"] == "\u2713") == (not bad), "sample-marked-when-values-leave-the-band")


@harness(quick=[dict(n=3, k=2, runs=2)], thorough=[dict(n=3, k=2, runs=3), dict(n=4, k=3, runs=2)], path_s=30)
def resampling(ctx):
    """any draws: every resample has the requested size and only values of the sample, all of them reachable"""
    from statistic.stats_bootstrap import bootstrap, sample_wr

    n, k = ctx.p["n"], ctx.p["k"]
    xs = ctx.reals("x", n, -20, 20)
    s = sample_wr(xs, k)
    ctx.check(len(s) == k, "requested-size")
    for v in s:
        ctx.check(any(v is x for x in xs), "only-values-of-the-sample")
    seen = []

    def first(sample):
        seen.append(len(sample))
        return sample[0]
    b = bootstrap(xs, first, ctx.p["runs"], k, 0.025)
    # in any order; sizes only, the estimate may be taken first
    ctx.check(set(seen) == {k, n} and seen.count(k) >= ctx.p["runs"] + (k == n), "requested-size", seen)
    ctx.check(ctx.any(b["from"] == x for x in xs), "only-values-of-the-sample")
    ctx.check(b["from"] <= b["to"], "bootstrap-interval-in-order")
    ctx.check(b["metrics"] == xs[0], "estimate-from-the-whole-sample")


@harness(quick=[dict(part=p) for p in range(2)], thorough=[dict(part=p) for p in range(2)])
def last_index_reachable(ctx):
    """the draw that picks the last value picks it, the one that picks the first picks that"""
    from statistic.stats_bootstrap import sample_wr

    xs = ctx.reals("x", 3, -20, 20)
    at = (0, 2)[ctx.p["part"]]
    ctx.assume(ctx.all(xs[i] < xs[i + 1] for i in range(2)))
    asked = []

    def pick(n):
        asked.append(n)
        return at if n == 3 else 0
    ctx.policy(index=pick, random=(at + 0.5) / 3, unit=(at + 0.5) / 3)
    s = sample_wr(xs, 2)
    if ctx.symbolic:
        ctx.check(ctx.all(v == xs[at] for v in s), "whole-sample-reachable")


def result_of(budget, metrics):
    return {"budget": budget, "analysis": [(name, name + " long", [(lambda v=v: v) for v in vals])
                                           for name, vals in metrics]}


@harness(quick=[dict(n=0), dict(n=1), dict(n=2), dict(n=3)], thorough=[dict(n=4)], path_s=30)
def affordable(ctx):
    """any costs: the result of the largest budget whose mean cost is near what was allowed at most"""
    from statistic.stats_bootstrap import find_acceptable_result_for_budget, validate_cost

    n = ctx.p["n"]
    ctx.policy(index="first")
    budgets = [500 + 700 * i for i in range(n)]
    costs = ctx.reals("cost", n, 0, 5000)
    for c in costs:
        for limit in [b + 500 for b in budgets]:
            ctx.assume(ctx.Or(c - limit >= 1e-3, limit - c >= 1e-3))
    rs = [result_of(b, [("gd", [1.0]), ("cost", [c])]) for b, c in zip(budgets, costs)]
    for r, b, c in zip(rs, budgets, costs):
        ctx.check(bool(validate_cost(r, 1)) == bool(c <= b + 500), "cost-within-tolerance")
    got = find_acceptable_result_for_budget(rs, 1)
    ok = [i for i in range(n) if bool(costs[i] <= budgets[-1] + 500)]  # none without results
    ctx.check((got is rs[ok[-1]]) if ok else (got is None), "largest-affordable-budget")


def printed(ctx):
    import builtins
    lines = []
    ctx.patch(builtins, "print", lambda *a, **k: lines.extend(" ".join(str(x) for x in a).split("\n")))
    return lines


def by_place(sets):
    """stored results of each directory"""
    return lambda *a, **k: iter(sets[str(k["results_path"] if "results_path" in k else a[-1])])


BEST = {"hypervolume": 1, "pdi": 1, "igd": -1, "ahd": -1, "spacing": -1, "gd": -1}
TOLERANCE = {"hypervolume": 0.005, "pdi": 0.005, "igd": 0.05, "ahd": 0.05, "spacing": 0.05, "gd": 0.05}


def decisive(ctx, scores, metric):
    """no score sits exactly on the tolerance or closer than rounding to another"""
    t = TOLERANCE[metric]
    for i, a in enumerate(scores):
        for b in scores[:i]:
            ctx.assume(ctx.Or(a == b, a - b >= 1e-6, b - a >= 1e-6))
            for x, y in ((a, b), (b, a)):
                ctx.assume(ctx.Or(x - (1 - t) * y >= 1e-6, (1 - t) * y - x >= 1e-6, x == y))


def winner_and_ties(ctx, scores, metric):
    """indices of the best scores, and of all within the tolerance of the best"""
    best = [i for i in range(len(scores))
            if bool(ctx.all(scores[i] * BEST[metric] >= s * BEST[metric] for s in scores))]
    w = scores[best[0]]
    near = [i for i, s in enumerate(scores)
            if bool(ctx.And(s >= (1 - TOLERANCE[metric]) * w, w >= (1 - TOLERANCE[metric]) * s))]
    return best, near


@harness(quick=[dict(metric="hypervolume", n=3), dict(metric="igd", n=3), dict(metric="pdi", n=2), dict(metric="gd", n=2),
                dict(metric="ahd", n=2), dict(metric="spacing", n=2)],
         thorough=[dict(metric=m, n=3) for m in sorted(BEST)], path_s=30)
def near_ties(ctx):
    """any scores: those within the declared tolerance of the winner, and only those, share the win"""
    from statistic import ranking

    metric, n = ctx.p["metric"], ctx.p["n"]
    scores = ctx.reals("score", n, 0, 10)
    decisive(ctx, scores, metric)
    table = [("A%d" % i, s) for i, s in enumerate(scores)]
    win = ranking.best_func[metric](table, key=lambda x: x[1])
    best, near = winner_and_ties(ctx, scores, metric)
    at = int(win[0][1:])
    ctx.check(at in best, "best-value-wins", metric)
    weak = ranking.get_weak_winners(table, win, ranking.winner_tolerance[metric])
    got = sorted(int(a[1:]) for a, s in weak)
    ctx.check(got == [i for i in near if i != at], "near-ties-and-only-those-share", metric)
    for a, s in weak:
        ctx.check(s == scores[int(a[1:])], "scores-unchanged")


RANKS = [dict(problems=1, algos=3, metrics=("hypervolume",)), dict(problems=1, algos=2, metrics=("igd", "pdi")),
         dict(problems=2, algos=2, metrics=("gd",)), dict(problems=1, algos=2, metrics=("ahd", "epsilon", "spacing"))]


@harness(quick=RANKS, thorough=RANKS + [dict(problems=2, algos=3, metrics=("hypervolume",)),
                                        dict(problems=3, algos=2, metrics=("igd",))], path_s=60, share=2)
def ranked(ctx):
    """any scores of any algorithms on any problems: winners per problem, points over all of them"""
    import collections
    from simulation import serialization
    from statistic import ranking

    ctx.policy(index="first")
    metrics, na = ctx.p["metrics"], ctx.p["algos"]
    cost_of = {}
    table, data = {}, []
    for p in range(ctx.p["problems"]):
        algos = []
        for a in range(na):
            vals = []
            for m in metrics:
                s = ctx.real("score", 0.01, 10)
                vals.append((m, [s]))
                table.setdefault(("P%d" % p, m), []).append(("A%d" % a, s))
            cost = 400.0 if ctx.p["problems"] > 1 or a else float(int(ctx.If(ctx.bool("costly"), 5000, 400)))
            cost_of["P%d" % p, "A%d" % a] = cost
            algos.append(("A%d" % a, [result_of(100, [("cost", [cost])] + [(m, [99.0]) for m in metrics]),
                                      result_of(500, [("cost", [cost])] + vals)]))
        data.append(("P%d" % p, None, algos))
    for (p, m), rows in table.items():
        if m in BEST:
            decisive(ctx, [s for _, s in rows], m)
    asked = []

    def each(extractor, directory=None):
        asked.append(extractor.property_name)
        return iter(data)
    ctx.patch_everywhere(serialization, "each_result", each)
    out = printed(ctx)
    ranking.rank({"--bootstrap": "1"})
    cut = [i for i, l in enumerate(out) if l.startswith("Global")][0]
    first = dict(tuple(x.strip() for x in l.split(" : ")) for l in out[:cut] if " : " in l)
    second = dict(tuple(x.strip() for x in l.split(" : ")) for l in out[cut:] if " : " in l)
    points = collections.defaultdict(collections.Counter)
    for (p, m), rows in table.items():
        rows = [(a, s) for a, s in rows if cost_of[p, a] <= 1000]
        if m not in BEST or not rows:
            ctx.check("%s, %s" % (p, m) not in first, "only-ranked-metrics")
            continue
        best, near = winner_and_ties(ctx, [s for _, s in rows], m)
        won = first.get("%s, %s" % (p, m))
        ctx.check(won in [rows[i][0] for i in best], "best-value-wins", "%s %s" % (p, m))
        if len(near) == 1:
            points[m][won] += 2
        else:
            for i in near:
                points[m][rows[i][0]] += 1
    ctx.check(sorted(second) == sorted(points), "only-ranked-metrics")
    for m, c in points.items():
        got = [e.strip() for e in second[m].split(",")]
        ctx.check(sorted(got) == sorted("%s (%d)" % e for e in c.items()), "points-add-up", "%s %s" % (m, got))
        ns = [int(e.split("(")[1].rstrip(")")) for e in got]
        ctx.check(ns == sorted(ns, reverse=True), "in-order-of-points")


@harness(quick=RANKS[:3], thorough=RANKS, path_s=60)
def detailed(ctx):
    """per result set and budget: each problem's best algorithm gets one point"""
    import collections
    from simulation import serialization
    from statistic import ranking

    ctx.policy(index="first")
    ctx.patch(ranking, "result_dirs", ["one", "two"])
    metrics, na = ctx.p["metrics"], ctx.p["algos"]
    table, sets = {}, {}
    # the second set, of other budgets, is settled beforehand: nothing of the first one may turn up in it
    for place, budgets in (("one", (300, 2000)), ("two", (301, 2001))):
        data, skip = [], set()
        for p in range(ctx.p["problems"]):
            algos = []
            for a in range(na):
                rs = []
                for b in budgets:
                    cost = 900.0 if a == 0 else float(b)
                    if cost > b + 500:
                        skip.add(("P%d" % p, b, "A%d" % a))
                    vals = []
                    for m in metrics:
                        s = ctx.real("score", 0.01, 10) if b == 2000 else float(1 + a)
                        vals.append((m, [s]))
                        if ("P%d" % p, b, "A%d" % a) not in skip:
                            table.setdefault(("P%d" % p, b, m), []).append(("A%d" % a, s))
                    rs.append(result_of(b, [("cost", [cost])] + vals))
                algos.append(("A%d" % a, rs))
            data.append(("P%d" % p, None, algos))
        sets[place] = data
    for (p, b, m), rows in table.items():
        for i, (_, x) in enumerate(rows):
            for _, y in rows[:i]:
                ctx.assume(ctx.Or(x - y >= 1e-6, y - x >= 1e-6))
    ctx.patch_everywhere(serialization, "each_result", by_place(sets))
    out = printed(ctx)
    ranking.detailed_rank({"--bootstrap": "1"})
    lines = [tuple(x.strip() for x in l.split(" : ")) for l in out if " : " in l]
    got = dict(lines)
    points = collections.defaultdict(collections.Counter)
    for (p, b, m), rows in table.items():
        if m in BEST:
            best, _ = winner_and_ties(ctx, [s for _, s in rows], m)
            points["%s %s" % (b, m)][rows[best[0]][0]] += 1
    ctx.check(sorted(k for k, _ in lines) == sorted(points), "every-budget-and-metric-once")
    for k, c in points.items():
        ctx.check(sorted(e.strip() for e in got[k].split(",")) == sorted("%s (%d)" % e for e in c.items()),
                  "points-add-up", k)


@harness(quick=[dict(problems=1, algos=3, metrics=("hypervolume",)), dict(problems=2, algos=2, metrics=("gd", "pdi")),
                dict(problems=3, algos=2, metrics=("igd",))],
         thorough=[dict(problems=1, algos=3, metrics=("hypervolume",)), dict(problems=2, algos=2, metrics=("gd", "pdi")),
                   dict(problems=3, algos=2, metrics=("igd",)), dict(problems=2, algos=3, metrics=("spacing",))],
         path_s=60)
def tabled(ctx):
    """any scores at the tabled budget: the two algorithms with most points, in order, with their points"""
    import collections
    from simulation import serialization
    from statistic import ranking

    ctx.policy(index="first")
    ctx.need(ranking, "result_dirs", "table_rank")
    # a second set of results, settled beforehand: its last algorithm is the best of all
    ctx.patch(ranking, "result_dirs", ["one", "two"])
    metrics, na = ctx.p["metrics"], ctx.p["algos"]
    table, data = {}, []
    best_of = lambda m, a: float(a + 1) if BEST.get(m) == 1 else 10.0 - a
    other = [("P0", None, [("A%d" % a, [result_of(40, [("cost", [40.0])] + [(m, [best_of(m, a)]) for m in metrics])])
                           for a in range(na)])]
    for p in range(ctx.p["problems"]):
        algos = []
        for a in range(na):
            vals = []
            for m in metrics:
                s = ctx.real("score", 0.01, 10)
                vals.append((m, [s]))
                table.setdefault(("P%d" % p, m), []).append(("A%d" % a, s))
            algos.append(("A%d" % a, [result_of(40, [("cost", [40.0])] + vals),
                                      result_of(500, [("cost", [40.0])] + [(m, [0.5]) for m in metrics])]))
        data.append(("P%d" % p, None, algos))
    for (p, m), rows in table.items():
        decisive(ctx, [s for _, s in rows], m)
    ctx.patch_everywhere(serialization, "each_result", by_place(dict(one=data, two=other)))
    out = printed(ctx)
    ranking.table_rank({"--bootstrap": "1"})
    points = collections.defaultdict(collections.Counter)
    tied = collections.defaultdict(set)
    for (p, m), rows in table.items():
        best, near = winner_and_ties(ctx, [s for _, s in rows], m)
        if len(near) == 1:
            points[m][rows[near[0]][0]] += 2
        else:
            for i in near:
                points[m][rows[i][0]] += 1
    lines = [[c.strip() for c in l.rstrip("\\").split("&")] for l in out if l.count("&") == 3 and l.endswith("\\")]
    got = {l[1]: l[2] for l in lines}
    for l in lines:
        ctx.check(l[3] == "A%d (2)" % (na - 1), "each-result-set-in-its-own-column", l)
    ctx.need(ranking if lines else None, "result_dirs")
    ctx.check(sorted(got) == sorted(points), "a-row-per-ranked-metric", lines)
    ctx.check([l[0] for l in lines] == ["40"] + [""] * (len(points) - 1), "budget-of-the-rows", lines)
    for m, c in points.items():
        cells = [e.strip() for e in got[m].split(",")]
        top = sorted(c.values(), reverse=True)[:2]
        ctx.check(len(cells) == len(top), "two-best", got[m])
        names = []
        for i, (e, n) in enumerate(zip(cells, top)):
            name, rest = e.split(" (", 1)
            names.append(name)
            ctx.check(c.get(name) == n and rest.startswith("%d)" % n), "points-add-up", "%s %s" % (e, c))
            # starred when more algorithms share the points than there are places for them
            starred = list(c.values()).count(n) > top.count(n) if i or top.count(n) == 2 else list(c.values()).count(n) > 2
            ctx.check(("*" in rest) == starred, "ties-starred", "%s %s" % (got[m], c))
        ctx.check(len(set(names)) == len(names), "two-best", got[m])


@harness(quick=[dict(runs=40, alpha=0.025), dict(runs=50, alpha=0.1)],
         thorough=[dict(runs=r, alpha=a) for r in (10, 40, 50, 81) for a in (0.025, 0.1, 0.25)], path_s=60)
def interval(ctx):
    """any spread of the resamples' estimates: the interval leaves out the declared share on either side"""
    from statistic.stats_bootstrap import bootstrap

    runs, alpha = ctx.p["runs"], ctx.p["alpha"]
    ctx.policy(index="first")
    base, gap = ctx.real("base", -9, 9), ctx.real("gap", 0.01, 3)
    step = [s for s in (7, 11, 13) if runs % s][0]
    n = [0]

    def estimate(sample):
        n[0] += 1
        return base + (n[0] * step % runs) * gap
    b = bootstrap([1.0, 2.0], estimate, runs, 2, alpha)
    every = [base + i * gap for i in range(runs)]
    below = sum(1 for e in every if bool(e < b["from"] - gap / 2))
    above = sum(1 for e in every if bool(e > b["to"] + gap / 2))
    for k in (below, above):
        ctx.check(runs * alpha - 1 <= k <= runs * alpha, "declared-share-outside", "%d %d" % (below, above))
    ctx.check(ctx.close(b["confidence"], 100 * (1 - 2 * alpha)), "confidence")
