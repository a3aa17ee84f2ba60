"""C20: a simulation runs exactly the requested cases with the declared configuration."""
from sx.harness import harness

KNOWN_P, KNOWN_A = ["ZDT1", "UF2", "kursawe"], ["IMGA+SPEA2", "SPEA2", "HGS+NSGAII"]
UNKNOWN = ("ZDT", "SPEA", "IMGA", "nope", "IMGA+", "ZDT11")


def spelled(ctx, name):
    return (name, name.lower(), name.upper())[ctx.choose("case", 3)]


def request(ctx, known, what):
    """a comma separated request, and the known names it means"""
    form = ctx.choose(what, 4)
    if form == 0:
        return None, list(known)
    if form == 1:
        return UNKNOWN[ctx.choose("unknown", len(UNKNOWN))], []
    if form == 2:
        n = known[ctx.choose("name", len(known))]
        return spelled(ctx, n), [n]
    a = ctx.choose("first", len(known))
    b = ctx.choose("second", len(known))
    extra = UNKNOWN[ctx.choose("extra", 2)]
    return "%s,%s,%s" % (known[a], extra, known[b].lower()), sorted({known[a], known[b]})


def arguments(**kw):
    a = {"budget": False, "time": False, "<budget>": None, "<timeout>": None, "<step>": None, "--problem": None,
         "--algo": None, "-N": "1", "--renice": None, "--dir": None, "-j": "4"}
    a.update({k: v for k, v in kw.items()})
    return a


def stamped(ctx):
    """cases are planned within one instant: their ids may differ by the run only"""
    from simulation import model

    class Now:
        @staticmethod
        def today():
            return Now

        @staticmethod
        def strftime(f):
            return "2020-01-02.030405.000006"
    ctx.patch(model, "datetime", Now)


@harness(quick=[dict(mode="budget"), dict(mode="time")], thorough=[dict(mode="budget"), dict(mode="time")], path_s=30)
def planned(ctx):
    """any request: known, unknown, repeated, differently spelled and omitted names"""
    from simulation import factory, run_config, worker, serialization

    stamped(ctx)
    ctx.policy(random=0.5, index="first")
    ctx.patch(run_config, "problems", list(KNOWN_P))
    ctx.patch(run_config, "algorithms", list(KNOWN_A))
    asked_p, want_p = request(ctx, KNOWN_P, "problems")
    asked_a, want_a = request(ctx, KNOWN_A, "algorithms")
    n = (0, 1, 3, 12)[ctx.choose("runs", 4)]
    here = ctx.choose("dir", 2)
    kw = {"--problem": asked_p, "--algo": asked_a, "-N": str(n), "--renice": "5" if here else None,
          "--dir": "/tmp/somewhere" if here else None}
    if ctx.p["mode"] == "budget":
        given = [(300, 20, 1000), (7,), (20, 20, 3)][ctx.choose("budgets", 3)]
        args = arguments(**kw, budget=True)
        args["<budget>"] = ",".join(map(str, given))
    else:
        args = arguments(**kw, time=True)
        args["<timeout>"], args["<step>"] = "20", "7"
    kind, cases = factory.resolve_configuration(args)
    got = sorted((c.problem_name, c.algorithm_name, c.run_id) for c in cases)
    want = sorted((p, a, i) for p in want_p for a in want_a for i in range(n))
    ctx.check(got == want, "exactly-the-requested-cases", "%s %s: %s" % (asked_p, asked_a, got))
    ctx.check(len({(c.problem_name, c.algorithm_name, c.id) for c in cases}) == len(cases), "cases-told-apart")
    for c in cases:
        ctx.check(c.config == (c.problem_name, c.algorithm_name), "its-own-name")
        ctx.check(str(c.results_dir) == str("/tmp/somewhere" if here else serialization.RESULTS_DIR), "results-directory")
        ctx.check(c.renice == ("5" if here else None), "renice")
        if ctx.p["mode"] == "budget":
            ctx.check(kind is worker.BudgetWorker and list(kind(c, 0).budgets) == sorted(given), "budgets-ascending")
        else:
            ctx.check(kind is worker.TimeWorker and (c.params["timeout"], c.params["sampling_interval"]) == (20, 7),
                      "timeout-and-step")


@harness(quick=[dict(n=2)], thorough=[dict(n=3)], path_s=30)
def budget_list(ctx):
    """any budgets in any order are run in increasing order, none lost"""
    from simulation import factory
    bs = [int(ctx.int("b", 0, 12)) * (1, 9, 100)[i] for i in range(ctx.p["n"])]
    got = factory.parse_budgets({"<budget>": ",".join("%d" % b for b in bs)})
    ctx.check(sorted(bs) == list(got), "budgets-ascending", str(bs))


@harness(quick=[dict(r=r) for r in (0, 1, 3)], thorough=[dict(r=r) for r in (0, 1, 3, 12)], path_s=30)
def run_ids(ctx):
    """whatever number the first run draws, the runs of a case have different ids of the stored form"""
    import re
    from simulation import model
    from simulation import serialization

    stamped(ctx)
    draw = int(ctx.choose("drawn", 4))
    ctx.policy(index=lambda k: (0, k - 1, k // 2, 1)[draw] if k > 4 else 0)
    ids = [model.get_simulation_id(i) for i in range(ctx.p["r"] + 1)]
    ctx.check(len(set(ids)) == len(ids), "different-ids")
    for i in ids:
        ctx.check(re.match(r"^\d{4}-\d{2}-\d{2}\.\d{6}\.\d{6}__\d{7}$", i) is not None, "stored-form", i)


# ---- configuration -------------------------------------------------------

LEVELS = ("algo", "algo+sub", "algo+problem", "algo+sub+problem")


def below(a, b):
    """b is a more specific scope than a, or the same one as a function"""
    if a[1] == b[1]:
        return not a[0] and b[0]
    if a[0] and not b[0]:
        return False
    narrower = set(a[1].split("+")) < set(b[1].split("+"))
    return narrower


def fake_algorithms(ctx, names, seen):
    """stand-in algorithm modules, so that any nesting can be composed"""
    import sys
    import types

    for i, n in enumerate(names):
        mod = types.ModuleType("algorithms.%s.%s" % (n, n))

        def init(self, n=n, **kw):
            seen.append((n, kw))
            self.kw = kw
        setattr(mod, n, type(n, (), {"__init__": init}))
        ctx.patch_item(sys.modules, "algorithms.%s.%s" % (n, n), mod)
        if i:
            msg = types.ModuleType("algorithms.%s.message" % n)
            setattr(msg, "%s%sMessageAdapter" % (n, names[i - 1]), type("Adapter%s" % n, (), {}))
            ctx.patch_item(sys.modules, "algorithms.%s.message" % n, msg)


def key_of(names, pos, level, problem):
    algo, sub = names[pos], tuple(names[pos + 1:])
    return {"algo": algo, "algo+sub": (algo, sub), "algo+problem": (algo, problem),
            "algo+sub+problem": (algo,) + sub + (problem,)}[level]


def init_name(names, pos, level, problem):
    s = "init_alg___" + names[pos]
    if "sub" in level:
        s += "__" + "_".join(names[pos + 1:])
    if "problem" in level:
        s += "____" + problem
    return s


NEST = [dict(depth=3, at=0), dict(depth=3, at=1), dict(depth=3, at=2), dict(depth=1, at=0)]


@harness(quick=NEST, thorough=NEST + [dict(depth=2, at=0), dict(depth=4, at=1)], path_s=30)
def precedence(ctx):
    """any presence and any values of the configuration levels of one of the nested algorithms"""
    from simulation import factory, run_config
    from problems.ZDT1 import problem as zdt1

    names = ["QA", "QB", "QC", "QD"][:ctx.p["depth"]]
    at = ctx.p["at"]
    seen = []
    fake_algorithms(ctx, names, seen)
    ctx.policy(random=0.25, unit=0.25)
    algo_base, cust_base, calls = {}, {}, []
    present, value = {}, {}
    for pos in range(len(names)):
        leaf = pos == len(names) - 1
        for level in LEVELS:
            if leaf and "sub" in level:
                continue
            for fn in (False, True):
                at_hand = bool(ctx.bool("given")) if pos == at else True
                if not at_hand:
                    continue
                v = ctx.real("v", -100, 100)
                present.setdefault(pos, []).append((fn, level))
                value[pos, fn, level] = v
                own = "own_%s_%s" % (level.replace("+", "_"), fn)
                if not fn:
                    t = algo_base if level in ("algo", "algo+sub") else cust_base
                    t[key_of(names, pos, level, "ZDT1")] = {"shared": v, own: v}
                else:
                    def f(config, problem_mod, v=v, own=own, pos=pos):
                        calls.append((pos, own, problem_mod.__name__, config["dims"] is problem_mod.dims))
                        config["shared"] = v
                        config[own] = v
                    ctx.patch(run_config, init_name(names, pos, level, "ZDT1"), f)
    # settings of other problems and other nestings must not leak in
    algo_base[(names[0], ("QZ",))] = {"foreign": 1}
    cust_base[(names[0], "ZDT2")] = {"foreign": 1}
    cust_base[(names[-1], "QA", "ZDT1")] = {"foreign": 1}
    ctx.patch(run_config, "algo_base", algo_base)
    ctx.patch(run_config, "cust_base", cust_base)
    ctx.patch(run_config, "DEFAULT_POPULATION_SIZE", 3)
    built, mod = factory.prepare("+".join(names), "ZDT1")
    ctx.check(mod is zdt1, "the-requested-problem")
    built()
    ctx.check([n for n, _ in seen] == names[:1], "outermost-first")
    part, pos = built, 0
    while True:
        kw = part.keywords
        ctx.check(part.func.__name__ == names[pos], "nested-in-the-requested-order", part.func.__name__)
        ctx.check(kw["dims"] is zdt1.dims and kw["fitnesses"] is zdt1.fitnesses, "the-problem's-domain-and-objectives")
        ctx.check(len(kw["population"]) == 3, "population-size")
        for v in kw["population"]:
            ctx.check(len(v) == len(zdt1.dims), "population-within-bounds")
            ctx.check(ctx.all(ctx.And(lo <= x, x <= hi) for x, (lo, hi) in zip(v, zdt1.dims)), "population-within-bounds")
        given = present.get(pos, [])
        tops = [a for a in given if not any(below(a, b) for b in given)]
        ctx.check("foreign" not in kw, "only-its-own-settings")
        ctx.check(("shared" in kw) == bool(given), "only-declared-settings")
        if given:
            ctx.check(ctx.any(kw["shared"] == value[(pos,) + a] for a in tops), "most-specific-setting-wins",
                      "%s of %s" % (tops, given))
        for a in given:
            own = "own_%s_%s" % (a[1].replace("+", "_"), a[0])
            ctx.check(own in kw, "every-declared-setting-arrives", own)
            ctx.check(kw[own] == value[(pos,) + a], "every-declared-setting-arrives", own)
        extra = [k for k in kw if k.startswith("own_")]
        ctx.check(len(extra) == len(given), "only-declared-settings")
        for p, own, name, dims in calls:
            ctx.check(name == "problems.ZDT1.problem" and dims, "init-sees-the-problem")
        if pos == len(names) - 1:
            ctx.check("driver" not in kw, "innermost-has-no-nested-driver")
            break
        ctx.check(kw["driver_message_adapter_factory"].__name__ == "Adapter%s" % names[pos + 1], "adapter-of-the-nested")
        part, pos = kw["driver"], pos + 1


def source_root():
    import os
    import simulation
    return os.path.dirname(os.path.dirname(os.path.abspath(simulation.__file__)))


# the attribute a driver keeps a parameter under, where it is not the parameter's name (None: not used by it)
KEPT = {"NSGAIII": {"mutation_eta": "eta_mutation", "crossover_eta": "eta_crossover"},
        "IBEA": {"kappa": "k", "mating_population_size": "mating_size_c"},
        "NSGAII": {"mating_population_size": "mating_size_c"}, "JGBL": {"mating_population_size": "mating_size_c"}}
PLAIN = ("SPEA2", "IBEA", "NSGAII", "OMOPSO", "NSGAIII", "JGBL", "SMSEMOA", "NSLS")
RATES = ("mutation_eta", "crossover_eta", "mutation_rate", "crossover_rate")


def keeps(ctx, name, driver, key, value, where):
    attr = KEPT.get(name, {}).get(key, key)
    if attr in vars(driver):
        ctx.check(getattr(driver, attr) == value, "driver-uses-the-declared-value", "%s %s" % (where, key))
        return 1
    return 0


def declared(ctx):
    """the shipped configuration with its leaf values replaced by arbitrary ones"""
    from simulation import run_config

    base = {}
    for n, t in run_config.algo_base.items():
        base[n] = dict(t)
    for n in ("IBEA", "NSGAII", "JGBL"):
        base[n]["mating_population_size"] = ctx.real("mating", 0.1, 1)
    base["IBEA"]["kappa"] = ctx.real("kappa", 0.01, 1)
    base["JGBL"]["jumping_rate"] = ctx.real("jump", 0, 1)
    base["JGBL"]["jumping_percentage"] = ctx.real("jumped", 0, 1)
    base["NSLS"]["local_search_mu"] = ctx.real("mu", 0, 1)
    base["NSLS"]["local_search_sigma"] = ctx.real("sigma", 0, 1)
    for n in ("HGS", "DHGS"):
        base[n]["population_sizes"] = (4, 2, 2)
        for k in ("cost_modifiers", "mutation_etas", "crossover_etas"):
            base[n][k] = tuple(ctx.reals(k, 3, 0, 40))
        base[n]["fitness_errors"] = (0.0, 0.25, 0.5)
        base[n]["min_progress_ratio"] = ctx.reals("progress", 3, 0, 1)
    base["IMGA"]["islands_number"], base["IMGA"]["migrants_number"] = 2, 1
    ctx.patch(run_config, "algo_base", base)
    ctx.patch(run_config, "DEFAULT_POPULATION_SIZE", 4)
    return base


@harness(quick=[dict(part=i, of=4) for i in range(4)], thorough=[dict(part=i, of=4, problems=14) for i in range(4)],
         path_s=120)
def shipped(ctx):
    """every shipped algorithm is composed, and built, with its declared parameters, whatever their values"""
    from simulation import factory, run_config
    import importlib
    import random

    algos = [a for i, a in enumerate(sorted(run_config.algorithms)) if i % ctx.p["of"] == ctx.p["part"]]
    ctx.chdir(source_root())
    ctx.policy(random=0.5, unit=0.25, index="first", shuffle="id")
    base = declared(ctx)
    plain = {k: ctx.real(k, 0.01, 1) for k in RATES}
    ctx.patch(run_config, "standard_variance", lambda config, problem_mod: config.update(plain))
    problems = run_config.problems
    problem = problems[ctx.choose("problem", ctx.p.get("problems", 2)) * (5 if "problems" not in ctx.p else 1)]
    pmod = importlib.import_module("problems.%s.problem" % problem)
    for algo in algos:
        built, mod = factory.prepare(algo, problem)
        ctx.check(mod is pmod, "the-requested-problem")
        names = algo.split("+")
        part, pos = built, 0
        while True:
            kw, n = part.keywords, names[pos]
            module, cls = run_config.custom_paths.get(n, ("algorithms.%s.%s" % (n, n), n))
            ctx.check(part.func is getattr(importlib.import_module(module), cls), "the-requested-algorithm", algo)
            ctx.check(kw["dims"] is pmod.dims and kw["fitnesses"] is pmod.fitnesses, "the-problem's-domain-and-objectives")
            want = dict(base.get(n, {}))
            if n in ("HGS", "DHGS"):
                want.update(mutation_rates=[1.0 / len(pmod.dims)] * 3, crossover_rates=[0.9] * 3)
            else:
                want.update(plain)
            for k, v in want.items():
                ctx.check(k in kw, "declared-parameter", "%s %s" % (n, k))
                if isinstance(v, (tuple, list)):
                    ctx.check(len(kw[k]) == len(v) and ctx.same(kw[k], v), "declared-parameter", "%s %s" % (n, k))
                else:
                    ctx.check(kw[k] == v, "declared-parameter", "%s %s" % (n, k))
            if pos == len(names) - 1:
                break
            ctx.check(kw["driver_message_adapter_factory"] is adapter_of(names[pos + 1], n), "adapter-of-the-nested", algo)
            part, pos = kw["driver"], pos + 1
        if names[0] != "DHGS":
            constructed(ctx, algo, names, built(), base, plain, pmod)


def constructed(ctx, algo, names, d, base, plain, pmod):
    if len(names) == 1:
        for k, v in list(plain.items()) + list(base.get(names[0], {}).items()):
            keeps(ctx, names[0], d, k, v, algo)
        return
    if names[0] == "IMGA":
        inner = [i.driver for i in d.islands]
        ctx.check(len(inner) == base["IMGA"]["islands_number"], "declared-number-of-islands")
        ctx.check((d.epoch_length, d.migrants_number) == (base["IMGA"]["epoch_length"], 1), "driver-uses-the-declared-value")
        rates = plain
    else:
        h = d.hgs
        ctx.check(type(h).__name__ == "ClassicHGS", "the-requested-algorithm")
        for k in ("fitness_errors", "cost_modifiers", "mutation_etas", "crossover_etas", "min_progress_ratio"):
            ctx.check(ctx.same(getattr(h, k), base["HGS"][k]), "driver-uses-the-declared-value", "%s %s" % (algo, k))
        for k in ("max_sprouts_no", "sproutiveness", "mantissa_bits", "population_sizes", "metaepoch_len"):
            ctx.check(list_of(getattr(h, k)) == list_of(base["HGS"][k]), "driver-uses-the-declared-value",
                      "%s %s" % (algo, k))
        inner = [h.root.driver]
        rates = dict(mutation_eta=base["HGS"]["mutation_etas"][0], crossover_eta=base["HGS"]["crossover_etas"][0],
                     mutation_rate=1.0 / len(pmod.dims), crossover_rate=0.9)
    for i in inner:
        ctx.check(type(i).__name__ == names[-1], "the-requested-algorithm", algo)
        ctx.check(type(i.message_adapter) is type(adapter_of(names[-1], names[0])(i)), "adapter-of-the-nested", algo)
        ctx.check(i.dims is pmod.dims, "the-problem's-domain-and-objectives")
        for k, v in list(rates.items()) + list(base.get(names[-1], {}).items()):
            keeps(ctx, names[-1], i, k, v, algo)


def adapter_of(sub, algo):
    import importlib
    return getattr(importlib.import_module("algorithms.%s.message" % sub), "%s%sMessageAdapter" % (sub, algo))


def list_of(v):
    return list(v) if isinstance(v, (tuple, list)) else v
