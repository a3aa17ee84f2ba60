"""C28: plots and printed reports show the stored results."""
from sx.harness import harness

SHOWN = ("hypervolume", "pdi", "igd", "ahd", "spacing", "gd")


class Thing:
    """Stands for anything of the plotting library: every call is recorded on the current figure."""

    def __init__(self, board, name="", result=None):
        self.__dict__.update(board=board, name=name)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Thing(self.board, n)

    def __setattr__(self, n, v):
        pass

    def __call__(self, *a, **k):
        return self.board.call(self.name, a, k)

    def __iter__(self):
        return iter(())

    def __len__(self):
        return 0

    def __bool__(self):
        return True

    def __getitem__(self, i):
        return Thing(self.board)

    def __setitem__(self, i, v):
        pass


class Board:
    def __init__(self):
        self.log = []
        self.saved = {}
        self.plt = Thing(self)

    def call(self, name, a, k):
        if name == "figure":
            self.log = []
        elif name == "savefig":
            self.saved[str(a[0] if a else k["fname"])] = list(self.log)
        elif name == "subplots":
            self.log = []
            return Thing(self), Thing(self)
        elif name == "get_legend_handles_labels":
            return [], []
        elif name:
            self.log.append((name, a, k))
        if name == "plot":
            return [Thing(self)]
        return Thing(self)

    def drawn(self, path, kinds):
        """(label, xs, ys, zs, keywords) of everything of that kind on the figure stored there"""
        for name, a, k in self.saved[path]:
            if name in kinds:
                cols = [list(c) for c in a if isinstance(c, (list, tuple))]
                yield (k.get("label"), cols, k)


def board(ctx, *modules):
    b = Board()
    for m in modules:
        ctx.need(m, "plt")
        ctx.patch(m, "plt", b.plt)
        if hasattr(m, "Axes3D"):
            ctx.patch(m, "Axes3D", lambda *a, **k: Thing(b))
    return b


def quiet(ctx):
    import builtins
    lines = []
    ctx.patch(builtins, "print", lambda *a, **k: lines.extend(" ".join(str(x) for x in a).split("\n")))
    return lines


def measured(**metrics):
    return [(name, name + " long", [(lambda v=v: v) for v in vals]) for name, vals in metrics.items()]


def stored(ctx, data, key, results_dir):
    """the results the report is given: data[problem][algorithm] = [(number, runs, metrics)]"""
    from simulation import serialization

    class Module:
        def __init__(self, name, front):
            self.name, self.pareto_front = name, front

    fronts = data.pop("fronts", {})
    asked = []

    def each(extractor, directory=None):
        asked.append((type(extractor).__name__, directory))
        for p, algos in data.items():
            yield p, Module(p, fronts.get(p, [(0.0, 1.0), (1.0, 0.0)])), (
                (a, ({"problem": p, "algo": a, "results": runs, key: n, "analysis": iter(measured(**ms))}
                     for n, runs, ms in rs)) for a, rs in algos.items())
    ctx.patch_everywhere(serialization, "each_result", each)
    return asked


def pairs(ctx, got, want, label, detail=""):
    """the same points in the same order"""
    ctx.check(len(got) == len(want), label, "%s: %d of %d" % (detail, len(got), len(want)))
    for g, w in zip(got, want):
        for a, b in zip(g, w):
            ctx.check(ctx.close(a, b), label, detail)


# ------------------------------------------------------------ splitting a front

SPLITS = [dict(n=n) for n in (1, 2, 3, 4)]


@harness(quick=SPLITS, thorough=SPLITS + [dict(n=5), dict(n=6)], path_s=30)
def split(ctx):
    """any front in order of its first objective: its pieces, in order, are the front, cut at the gaps only"""
    from evotools import ea_utils

    ctx.need(ea_utils, "split_front")
    quiet(ctx)
    n = ctx.p["n"]
    eps = ctx.real("eps", 0.01, 2)
    front = [tuple(q) for q in ctx.points("q", n, 2, 0, 8)]
    for a, b in zip(front, front[1:]):
        ctx.assume(a[0] <= b[0])
        ctx.assume(ctx.Or(b[0] - a[0] - eps >= 1e-6, b[0] - a[0] - eps <= -1e-6))
    pieces = [list(g) for g in ea_utils.split_front(list(front), eps)]
    pairs(ctx, [q for g in pieces for q in g], front, "pieces-make-up-the-front")
    ctx.check(all(pieces), "no-empty-piece")
    i = 0
    for g in pieces:
        start, i = i, i + len(g)
        if i < n:
            ctx.check(front[i][0] - front[i - 1][0] > eps, "cut-at-gaps-only")
            ctx.check(len(g) > 1, "no-single-point-before-a-cut")
        for j in range(start + 2, i):
            ctx.check(front[j][0] - front[j - 1][0] <= eps, "cut-at-every-gap")


# --------------------------------------------------------- quality against time

CURVES = [dict(algos=("NSGAII", "HGS+IBEA"), times=(2, 1)),
          dict(algos=("SPEA2", "NSGAIII", "SMSEMOA"), times=(1, 1, 1)),
          dict(algos=("IMGA+OMOPSO",), times=(3,), problems=("UF8",)),
          dict(algos=("NSLS",), times=(1,), problems=("ZDT1", "UF4"))]


@harness(quick=CURVES, thorough=CURVES + [dict(algos=("NSGAII", "IBEA", "JGBL"), times=(2, 2, 1)),
                                          dict(algos=("NSGAII",), times=(4,))], path_s=60)
def curves(ctx):
    """any stored timed results: one curve per algorithm through its mean values in order of time, all in view"""
    import os
    from plots import pictures

    b = board(ctx, pictures)
    quiet(ctx)
    ctx.policy(index="first")
    problems = ctx.p.get("problems", ("ZDT1",))
    data, want = {}, {}
    for p in problems:
        data[p] = {}
        for a, n in zip(ctx.p["algos"], ctx.p["times"]):
            ts = [ctx.int("t", 0, 1000) for _ in range(n)]
            for i in range(1, n):
                ctx.assume(ts[i - 1] < ts[i])  # results are read in order (C19)
            rs = []
            for t in ts:
                v = ctx.reals("v", 2, -5, 5)
                rs.append((t, [None, None], dict(cost=[t, t], igd=v, extent=[1.0, 1.0])))
                want.setdefault((p, a), []).append((t, (v[0] + v[1]) / 2))
            data[p][a] = rs
    asked = stored(ctx, data, "time", "there")
    out = os.path.join(ctx.scratch(), "out")
    ctx.need(pictures, "pictures_time")({"--bootstrap": "1", "--dir": "there", "-o": out})
    ctx.check(asked == [("TimeResultsExtractor", "there")], "reads-the-timed-results-of-the-directory", asked)
    drawn = [a for a in ctx.p["algos"] if a in pictures.algos_order]
    for p in problems:
        for ext in ("pdf", "eps"):
            path = os.path.join(out, "metrics", "figures_metrics_%s_igd.%s" % (p, ext))
            if not drawn:
                continue
            ctx.check(path in b.saved, "a-figure-per-problem-and-metric", path)
            got = {label: list(zip(*cols)) for label, cols, k in b.drawn(path, ("plot",))}
            ctx.check(sorted(got) == sorted(drawn), "a-curve-per-configured-algorithm", sorted(got))
            for a in drawn:
                pairs(ctx, got[a], want[p, a], "curve-through-the-means-in-order-of-time", a)
            for name, args, k in b.saved[path]:
                if name in ("xlim", "set_xlim") and len(args) == 2:
                    for a in drawn:
                        ctx.check(ctx.all(ctx.And(args[0] <= t, t <= args[1]) for t, _ in want[p, a]),
                                  "every-point-in-view", "%s %s" % (p, a))
    ctx.check(not any(w in os.path.basename(s) for s in b.saved for w in ("extent", "cost")), "only-ranked-metrics")


# --------------------------------------------------------- summary over problems

SUMS = [dict(problems=("ZDT1", "UF2"), algos=("NSGAII", "IBEA"), skip=()),
        dict(problems=("UF4", "kursawe"), algos=("NSGAII", "HGS+SPEA2"), skip=()),
        dict(problems=("ackley",), algos=("OMOPSO",), skip=()),
        dict(problems=("UF1", "ZDT2"), algos=("NSGAII", "NSLS"), skip=(("ZDT2", "NSGAII"), ("ZDT2", "NSLS"))),
        dict(problems=("UF1", "ZDT2"), algos=("NSGAII", "NSLS"), skip=(("UF1", "NSGAII"),))]


@harness(quick=SUMS, thorough=SUMS, path_s=60, query_ms=20000)
def summary(ctx):
    """any stored results: each algorithm's score over its own problem, relative to that problem's largest score"""
    import math
    import os
    from plots import pictures

    b = board(ctx, pictures)
    quiet(ctx)
    ctx.policy(index="first")
    skip = ctx.p["skip"]
    data, want = {}, {}
    for p in ctx.p["problems"]:
        data[p] = {}
        for a in ctx.p["algos"]:
            cost = 9000.0 if (p, a) in skip else 400.0
            v, w = ctx.real("igd", -5, 5), ctx.real("pdi", 0, 1)
            data[p][a] = [(100, [None], dict(cost=[cost], igd=[99.0], pdi=[99.0])),
                          (500, [None], dict(cost=[cost], igd=[v], pdi=[w], extent=[1.0]))]
            if (p, a) not in skip:
                want["igd", p, a], want["pdi", p, a] = v, w
    logs = {k: math.log(abs(v) + 1.0) for k, v in want.items()}
    asked = stored(ctx, data, "budget", "there")
    out = os.path.join(ctx.scratch(), "out")
    ctx.need(pictures, "pictures_summary")({"--bootstrap": "1", "--dir": "there", "-o": out, "--selected": "nsgaii"})
    ctx.check(asked == [("BudgetResultsExtractor", "there")], "reads-the-results-of-the-directory", asked)
    for m in ("igd", "pdi"):
        for ext in ("pdf", "eps"):
            path = os.path.join(out, "plots_summary", "figures_summary_%s.%s" % (m, ext))
            ctx.check(path in b.saved, "a-figure-per-metric", path)
            ticks = [args for name, args, k in b.saved[path] if name in ("xticks", "set_xticks") and len(args) == 2]
            ctx.need(b if ticks else None, "call")
            names = dict(zip(ticks[-1][0], ticks[-1][1]))
            ctx.check(sorted(names.values()) == sorted(ctx.p["problems"]), "every-problem-on-the-axis", names)
            for kind in ("scatter", "plot"):
                got = {}
                for label, cols, k in b.drawn(path, (kind,)):
                    for x, y in zip(*cols):
                        ctx.check((label, names[x]) not in got, "one-point-per-problem", label)
                        got[label, names[x]] = y
                shown = [(p, a) for _, p, a in want if _ == m and a in pictures.algos_order
                         and (kind == "scatter" or a == "NSGAII")]
                ctx.check(sorted(got) == sorted((a, p) for p, a in shown), "a-point-per-result", "%s %s" % (kind, sorted(got)))
                for p, a in shown:
                    y = got[a, p]
                    if m == "pdi":
                        ctx.check(ctx.close(y, logs[m, p, a]), "score", "%s %s" % (p, a))
                        continue
                    top = ctx.Max([logs[m, p, c] for c in ctx.p["algos"] if (m, p, c) in want])
                    ctx.check(ctx.close(y * (top + 0.0001), logs[m, p, a]), "relative-to-the-problem's-largest",
                              "%s %s" % (p, a))
    ctx.check(not any(w in os.path.basename(s) for s in b.saved for w in ("extent", "cost")), "only-ranked-metrics")


# --------------------------------------------------------------- fronts and violins

class Run:
    def __init__(self, fitnesses):
        self.fitnesses = fitnesses
        self.population = fitnesses


FRONTS = [dict(problem="ZDT1", dims=2, costs=(100, 400)), dict(problem="ZDT3", dims=2, costs=(100, 400)),
          dict(problem="UF8", dims=3, costs=(100, 400)), dict(problem="UF2", dims=2, costs=(100, 9000)),
          dict(problem="ZDT6", dims=2, costs=(9000, 9000))]


@harness(quick=FRONTS, thorough=FRONTS, path_s=60)
def fronts(ctx):
    """any stored results: the first run of the largest affordable budget, over the problem's reference front"""
    import os
    from plots import best_fronts

    b = board(ctx, best_fronts)
    quiet(ctx)
    ctx.policy(index="first")
    p, d = ctx.p["problem"], ctx.p["dims"]
    ref = [tuple(q) for q in ctx.points("ref", 3, d, 0, 4)]
    ctx.assume(ctx.And(*[x[0] <= y[0] for x, y in zip(ref, ref[1:])]))
    algos = ("NSGAII", "HGS+SPEA2", "unheard-of")
    data, want = {p: {}, "fronts": {p: ref}}, {}
    for a in algos:
        rs = []
        for budget, cost in zip((300, 500), ctx.p["costs"]):
            runs = [Run(ctx.points("q", 2, d, -5, 5)) for _ in range(2)]
            rs.append((budget, runs, dict(cost=[cost, cost], igd=[1.0, 1.0])))
            if cost <= 1000:
                want[a] = runs[0].fitnesses
        data[p][a] = rs
    asked = stored(ctx, data, "budget", "there")
    out = os.path.join(ctx.scratch(), "out")
    ctx.need(best_fronts, "best_fronts")({"--bootstrap": "1", "--dir": "there", "-o": out})
    ctx.check(asked == [("BudgetResultsExtractor", "there")], "reads-the-results-of-the-directory", asked)
    for ext in ("pdf", "eps"):
        path = os.path.join(out, "fronts", "figures_metrics_%s.%s" % (p, ext))
        ctx.check(path in b.saved, "a-figure-per-problem", sorted(b.saved))
        got, back = {}, []
        for label, cols, k in b.drawn(path, ("plot", "scatter")):
            if label is None:
                back.append(list(zip(*cols)))
            else:
                got.setdefault(label, []).extend(zip(*cols))
        ctx.check(sorted(got) == sorted(a for a in want if a != "unheard-of"), "accepted-algorithms", sorted(got))
        for a in got:
            pairs(ctx, got[a], want[a], "points-of-the-first-accepted-run", a)
        curve = [q for g in back for q in g if len(g[0]) == 2] if d == 2 else [q for g in back for q in g if len(g[0]) == 3]
        pairs(ctx, curve, ref, "reference-front-in-the-background")


@harness(quick=[dict(zeros=0), dict(zeros=1), dict(zeros=2)], thorough=[dict(zeros=z) for z in range(4)], path_s=60)
def violins(ctx):
    """any stored results: each algorithm's values above its own name; none for one that only has zeros"""
    import os
    import sys
    from plots import violin

    b = board(ctx, violin)
    quiet(ctx)
    ctx.policy(index="first")
    algos = ("HGS+IBEA", "NSGAII", "IBEA", "unheard-of")
    data, want = {"ZDT2": {}}, {}
    for i, a in enumerate(algos):
        vals = ctx.reals("v", 2, 0.001, 5)
        if i < ctx.p["zeros"]:
            vals = [0.0, 0.0]
        elif i == 2:
            vals[1] = 0.0
        data["ZDT2"][a] = [(100, [None] * 2, dict(cost=[90.0, 90.0], igd=[7.0, 7.0])),
                           (500, [None] * 2, dict(cost=[90.0, 90.0], igd=vals, extent=[1.0, 1.0]))]
        want[a] = vals
    asked = stored(ctx, data, "budget", "there")
    out = os.path.join(ctx.scratch(), "out")
    ctx.need(violin, "violin")({"--bootstrap": "1", "--dir": "there", "-o": out})
    ctx.check(asked == [("BudgetResultsExtractor", "there")], "reads-the-results-of-the-directory", asked)
    shown = [a for a in algos[:3] if any(v is not None and not (isinstance(v, float) and v == 0.0) for v in want[a])]
    for ext in ("pdf", "eps"):
        path = os.path.join(out, "plots_violin", "figures_violin_ZDT2_igd.%s" % ext)
        ctx.check((path in b.saved) == bool(shown), "a-figure-per-problem-and-metric", path)
        if not shown:
            continue
        log = b.saved[path]
        bodies = [args[0] if args else k["dataset"] for name, args, k in log if name == "violinplot"]
        ticks = [args for name, args, k in log if name in ("xticks", "set_xticks") and len(args) == 2]
        ctx.need(b if bodies and ticks else None, "call")
        ctx.check(list(ticks[0][0]) == list(range(1, len(bodies[0]) + 1)), "a-name-under-each", list(ticks[0][0]))
        ctx.check(sorted(ticks[0][1]) == sorted(shown), "algorithms-with-values", ticks[0][1])
        for a, vals in zip(ticks[0][1], bodies[0]):
            for g, w in zip(vals, want[a]):
                if isinstance(w, float) and w == 0.0:
                    w = sys.float_info.epsilon
                ctx.check(g == w, "values-above-their-name", a)
    ctx.check(not any(w in os.path.basename(s) for s in b.saved for w in ("extent", "cost")), "only-ranked-metrics")


# -------------------------------------------------------------------- commands

COMMANDS = {
    "run": ("simulation.run_parallel", "run_parallel"), "stats": ("statistic.stats", "statistics"),
    "statistics": ("statistic.stats", "statistics"), "rank": ("statistic.ranking", "rank"),
    "table": ("statistic.ranking", "table_rank"), "rank_details": ("statistic.ranking", "detailed_rank"),
    "pictures": ("plots.pictures", "pictures_time"), "pictures_summary": ("plots.pictures", "pictures_summary"),
    "best_fronts": ("plots.best_fronts", "best_fronts"), "violin": ("plots.violin", "violin"),
    "summary": ("statistic.summary", "analyse_results"), "list": ("evogil", "all_algos_problems")}


@harness(quick=[dict(given=g) for g in (0, 1)], thorough=[dict(given=g) for g in (0, 1)], path_s=60)
def dispatched(ctx):
    """any one command: its own report runs, once, with the directories asked for (or the defaults)"""
    import importlib
    import evogil
    from plots import pictures
    from simulation import serialization

    flags = {c: ctx.bool(c) for c in COMMANDS}
    ctx.assume(ctx.any(flags.values()))
    names = list(flags)
    for i, a in enumerate(names):
        for c in names[:i]:
            ctx.assume(ctx.Not(ctx.And(flags[a], flags[c])))
    argv = dict(flags)
    given = ctx.p["given"]
    argv.update({"--dir": "here" if given else None, "-o": "plots-here" if given else None, "--bootstrap": "1"})
    ctx.need(evogil, "docopt", "main_worker")
    ctx.patch(evogil, "docopt", lambda *a, **k: argv)
    ran = []
    for mod, fn in sorted(set(COMMANDS.values())):
        m = importlib.import_module(mod)
        ctx.need(m, fn)
        ctx.patch_everywhere(m, fn, lambda args, w=(mod, fn): ran.append((w, args)))
    evogil.main_worker()
    ctx.check(len(ran) == 1, "exactly-one-report", [r[0] for r in ran])
    which, args = ran[0]
    ctx.check(ctx.all(ctx.Implies(flags[c], COMMANDS[c] == which) for c in COMMANDS), "the-command's-own-report", which)
    ctx.check(args["--dir"] == ("here" if given else serialization.RESULTS_DIR), "results-directory", args["--dir"])
    ctx.check(str(args["-o"]) == ("plots-here" if given else str(pictures.PLOTS_DIR)), "plots-directory", args["-o"])


@harness(quick=[dict(n=3)], thorough=[dict(n=5)], path_s=30)
def listed(ctx):
    """any set of configured algorithms and problems: the list command names each once, under its heading"""
    import evogil
    from simulation import run_config

    ctx.need(evogil, "all_algos_problems")
    ctx.need(run_config, "algorithms", "problems")
    algos = [a for a in list(run_config.algorithms)[:ctx.p["n"]] if ctx.choose("has " + a, 2)]
    probs = [a for a in list(run_config.problems)[:ctx.p["n"]] if ctx.choose("has " + a, 2)]
    ctx.patch(run_config, "algorithms", algos)
    ctx.patch(run_config, "problems", probs)
    lines = quiet(ctx)
    evogil.all_algos_problems({})
    words = " ".join(lines).split()
    heads = [w for w in words if w.endswith(":")]
    ctx.check(len(heads) == 2, "two-lists", words)
    at = words.index(heads[1])
    ctx.check(words[1:at] == algos and words[at + 1:] == probs, "every-name-once", words)


@harness(quick=[dict(n=2)], thorough=[dict(n=3)], path_s=60)
def counted(ctx):
    """any stored results: a line per problem, algorithm and budget with its number of runs"""
    from statistic import summary

    lines = quiet(ctx)
    data, want = {}, []
    for p in ("ZDT1", "UF3")[:ctx.p["n"]]:
        data[p] = {}
        for a in ("NSGAII", "HGS+IBEA"):
            k = int(ctx.int("runs", 0, 2))
            n = 100 + len(want)
            data[p][a] = [(n, [None] * k, {}), (n + 500, [None] * 3, {})]
            want += [[p, a, str(n), str(k)], [p, a, str(n + 500), "3"]]
    stored(ctx, data, "budget", None)
    ctx.need(summary, "analyse_results")({})
    ctx.check([l.split() for l in lines if l.strip()] == want, "a-line-per-result", lines)


# ------------------------------------------------------------------ statistics

class Serial:
    """a pool of one: maps in place"""

    def __init__(self, *a, **k):
        pass

    def map(self, f, it, chunksize=None):
        return [f(x) for x in it]

    imap = map

    def starmap(self, f, it, chunksize=None):
        return [f(*x) for x in it]

    def close(self):
        pass

    join = terminate = close

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


@harness(quick=[dict(n=3), dict(n=11), dict(n=21)], thorough=[dict(n=n) for n in (2, 3, 10, 11, 12, 20, 21)], path_s=60)
def reported(ctx):
    """any sample with one far value: a line per metric; a suspicious sample's values outside three deviations marked"""
    from statistic import stats

    lines = quiet(ctx)
    n = ctx.p["n"]
    ctx.policy(index="first")
    base, d = ctx.real("base", 1, 5), ctx.real("d", -8, 8)
    ctx.assume(ctx.Or(d >= 0.01, d <= -0.01))
    at = ctx.choose("at", 2) * (n - 1)
    vals = [base] * n
    vals[at] = base + d
    runs = [Run([[0.0, 0.0]] * 2) for _ in range(n)]
    asked = stored(ctx, {"ZDT1": {"NSGAII": [(500, runs, dict(igd=vals))], "IBEA": [(700, runs[:1], dict(gd=[1.0], igd=[2.0]))]}},
                   "budget", "there")
    ctx.need(stats, "statistics", "multiprocessing")
    ctx.patch(stats.multiprocessing, "Pool", Serial)
    stats.statistics({"--bootstrap": "1", "-j": "2", "--dir": "there"})
    ctx.check(asked == [("BudgetResultsExtractor", "there")], "reads-the-results-of-the-directory", asked)
    rows = [[c.strip() for c in l.split("::")][:5] for l in lines if l.count("::") >= 5 and "σ |" not in l]
    ctx.check(rows == [["ZDT1", "NSGAII", str(n), "500", "igd"], ["ZDT1", "IBEA", "1", "700", "gd"],
                       ["ZDT1", "IBEA", "1", "700", "igd"]], "a-line-per-metric", rows)
    marks = ["out of mean" in l for l in lines if "⨉ σ |" in l]
    bad = n > 10 and (n - 1) < 0.95 * n
    # the far value is (n - 1) / sqrt(n) deviations away
    ctx.check(marks == ([i == at for i in range(n)] if bad else []), "values-outside-marked", marks)
    counts = [l.split("::")[1].split("(")[0].split("/") for l in lines if ") out of [" in l]
    ctx.check([[int(x) for x in c] for c in counts] == ([[1, n]] if bad else []), "number-outside", counts)
    # without the far value the mean is base
    named = [[c.strip() for c in l[l.index(">>>") + 3:].split("::")] for l in lines if ">>>" in l]
    ctx.check(named in ([], [["ZDT1", "NSGAII", "500", "igd"]], [["ZDT1", "NSGAII", "500", "igd long"]]), "untrusted-named", named)
    shift, mean = 10 * d, n * base + d
    far = ctx.And(bad, ctx.Or(ctx.And(mean > 0, ctx.Or(shift > mean, shift < -mean)), ctx.And(mean < 0, ctx.Or(shift < mean, shift > -mean))))
    near = ctx.Or(ctx.close(shift, mean, 1e-6), ctx.close(shift, -mean, 1e-6), ctx.close(mean, 0, 1e-6))
    ctx.check(ctx.Or(near, ctx.Iff(bool(named), far)), "untrusted-exactly-when-the-mean-moves", named)
