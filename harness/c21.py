"""C21: a failing case never takes down the rest of the batch."""
from sx.harness import harness

FAULTS = ("none", "not-viable", "prepare", "construct", "step", "finalize", "objective", "store", "shutdown")


class Quiet(BaseException):
    pass


def batch(ctx, faults, mode, at=0, budgets=(2, 3)):
    """the cases of a batch, one per entry of faults, and what happened to each"""
    import os
    import types
    from algorithms.base.driver import Driver
    from simulation import factory, log_helper
    from simulation.model import SimulationCase
    from simulation.run_config import NotViableConfiguration

    root = ctx.scratch()
    cases, log = [], {}
    for i, f in enumerate(faults):
        a = "A%d" % i
        params = dict(budgets=list(budgets)) if mode == "budget" else dict(timeout=2, sampling_interval=1)
        c = SimulationCase("P", a, i + 1, None, root, id="2020-01-02.030405.000006__%07d" % (i + 1), **params)
        cases.append(c)
        log[a] = dict(started=0, down=0, steps=0, fault=f, case=c)
        if f == "store":
            os.makedirs(os.path.join(root, "P"), exist_ok=True)
            open(os.path.join(root, "P", a), "w").close()

    def prepare(algo, problem):
        me = log[algo]
        me["started"] += 1
        fault = me["fault"]
        if fault == "not-viable":
            raise NotViableConfiguration()
        if fault == "prepare":
            raise ValueError("planned")

        class Faulty(Driver):
            def __init__(self):
                if fault == "construct":
                    raise KeyError("planned")
                super().__init__()

            def step(self):
                if fault == "step" and bool(at == me["steps"]):
                    raise ZeroDivisionError("planned")
                me["steps"] += 1
                self.cost += 1
                me["now"] = me.get("now", 0) + 1

            def finalized_population(self):
                if fault == "finalize":
                    raise AttributeError("planned")
                return [[float(self.cost)]]

            def shutdown(self):
                me["down"] += 1
                if fault == "shutdown":
                    raise ConnectionError("planned")

        def objective(x):
            if fault == "objective":
                raise OverflowError("planned")
            return x[0] + 1.0
        p = types.ModuleType("fake")
        p.fitnesses = [objective]
        return Faulty, p
    ctx.patch_everywhere(factory, "prepare", prepare)
    ctx.patch_everywhere(log_helper, "init", lambda: None)
    if mode == "time":
        ticks = []

        def clock():
            ticks.append(1)
            return 100.0 + 1e-6 * len(ticks) + sum(m.get("now", 0) for m in log.values())
        ctx.set_clock(clock)
    return cases, log, root


def run(ctx, cases, kind):
    """the real batch runner; the actor system and the process pool are stand-ins"""
    import logging
    from simulation import factory, run_parallel as rp
    from evotools import rxtools

    state = dict(up=0, pool=0, summary=None, errors=[])

    class System:
        def __init__(self, *a, **k):
            state["up"] += 1

        def shutdown(self):
            state["up"] -= 1
    ctx.patch(rp, "ActorSystem", System)
    ctx.patch_everywhere(rxtools, "configure_default_executor", lambda n: state.update(pool=state["pool"] + 1))
    ctx.patch_everywhere(rxtools, "shutdown_default_executor", lambda: state.update(pool=state["pool"] - 1))
    ctx.patch_everywhere(factory, "resolve_configuration", lambda args: (kind, cases))
    real = getattr(rp, "log_summary", None)

    def spy(*a, **k):
        from simulation.model import SimulationCase
        lists = [list(x) for x in list(a) + list(k.values()) if isinstance(x, (list, tuple))]
        planned = [x for x in lists if x and isinstance(x[0], SimulationCase)] or [[]]
        outcomes = [x for x in lists if len(x) == len(planned[0]) and x is not planned[0]
                    and all(r is None or isinstance(r, (list, tuple)) for r in x)]
        if outcomes:
            state["summary"] = (outcomes[0], planned[0])
        return real(*a, **k)
    if real is not None:
        ctx.patch(rp, "log_summary", spy)

    class Keep(logging.Handler):
        def emit(self, record):
            if record.levelno >= logging.ERROR:
                state["errors"].append(record.getMessage())
    h = Keep()
    rp.logger.addHandler(h)
    ctx.cleanup(lambda: rp.logger.removeHandler(h))
    off = logging.root.manager.disable
    level = rp.logger.level
    logging.disable(logging.NOTSET)
    rp.logger.setLevel(logging.INFO)
    prop, rp.logger.propagate = rp.logger.propagate, False
    quiet = logging.getLogger("simulation.worker")
    was, quiet.disabled = quiet.disabled, True

    def undo():
        logging.disable(off)
        rp.logger.setLevel(level)
        rp.logger.propagate = prop
        quiet.disabled = was
    ctx.cleanup(undo)
    rp.run_parallel({"-j": "2", "-N": "1"})
    return state


def judge(ctx, cases, log, state, budgets):
    import os
    import re
    from simulation.serializer import Serializer

    ctx.check(state["up"] == 0, "actor-system-shut-down")
    # (without the function that is told the outcomes, the log and the stored results are judged)
    results, order = state["summary"] or (None, cases)
    ctx.check(sorted(c.run_id for c in order) == [i + 1 for i in range(len(log))], "every-case-accounted-once")
    ctx.check(results is None or len(results) == len(log), "every-case-accounted-once")
    for i, c in enumerate(order):
        r = results[i] if results is not None else None
        me = log[c.algorithm_name]
        ok = me["fault"] in ("none", "shutdown") or me.get("spared", False)
        ctx.check(me["started"] == 1, "every-case-runs-once", me["fault"])
        ctx.check(results is None or (r is not None) == ok, "reported-as-it-went", me["fault"])
        mine = [m for m in state["errors"] if re.search(r"\bP\b", m) and re.search(r"\b%s\b" % c.algorithm_name, m)
                and re.search(r"\b%d\b" % c.run_id, m)]
        ctx.check(len(mine) == (0 if ok else 1), "failures-named-in-the-summary", me["fault"])
        built = me["fault"] not in ("not-viable", "prepare", "construct")
        ctx.check(me["down"] == (1 if built else 0), "driver-shut-down", me["fault"])
        if ok:
            got = Serializer(c)
            for b in budgets:
                s = got.load(b)
                ctx.check(len(s.population) == 1 and s.fitnesses[0][0] == s.population[0][0] + 1.0, "results-stored")
            ctx.check(results is None or len(r[0]) == len(budgets), "results-returned")


@harness(quick=[dict(n=1, mode="budget"), dict(n=2, mode="budget"), dict(n=2, mode="time")],
         thorough=[dict(n=1, mode="budget"), dict(n=2, mode="budget"), dict(n=2, mode="time"), dict(n=3, mode="budget")],
         path_s=30)
def any_fault(ctx):
    """every combination of faults, at any step, in any execution order"""
    from simulation import worker

    mode = ctx.p["mode"]
    faults = [FAULTS[ctx.choose("fault", len(FAULTS))] for _ in range(ctx.p["n"])]
    at = ctx.int("at", 0, 3)
    cases, log, root = batch(ctx, faults, mode, at)
    if mode == "budget":
        state = run(ctx, cases, worker.BudgetWorker)
    else:
        state = run(ctx, cases, worker.TimeWorker)
    for me in log.values():
        # a fault planned for a step that is never taken does not happen
        me["spared"] = me["fault"] == "step" and me["steps"] >= (3 if mode == "budget" else 2) and me["steps"] <= at
    judge(ctx, cases, log, state, (2, 3) if mode == "budget" else (1, 2))


@harness(quick=[dict(n=4), dict(n=18, free=(2, 9, 17))], thorough=[dict(n=6), dict(n=40, free=(0, 11, 25, 39))], path_s=60)
def any_subset(ctx):
    """any subset of failing cases of a larger batch"""
    from simulation import worker

    ctx.policy(shuffle="id")
    free = ctx.p.get("free", range(ctx.p["n"]))
    faults = ["prepare" if (bool(ctx.bool("fails")) if i in free else i % 7 == 3) else "none" for i in range(ctx.p["n"])]
    cases, log, root = batch(ctx, faults, "budget")
    judge(ctx, cases, log, run(ctx, cases, worker.BudgetWorker), (2, 3))


@harness(quick=[dict()], thorough=[dict()])
def nothing_selected(ctx):
    """a batch of no cases ends in order, with an empty summary"""
    from simulation import worker
    ctx.observe("jobs", int(ctx.int("jobs", 1, 2)))
    judge(ctx, [], {}, run(ctx, [], worker.BudgetWorker), ())


@harness(quick=[dict(n=3), dict(n=4, timed=1)], thorough=[dict(n=5), dict(n=6, timed=1)], path_s=30)
def summary_times(ctx):
    """the summary adds up the time of the cases that succeeded, whatever the times"""
    import re
    from simulation import run_parallel as rp
    from simulation.model import SimulationCase

    n = ctx.p["n"]
    cases, results, total = [], [], 0
    for i in range(n):
        cases.append(SimulationCase("P%d" % (i // 2), "A%d" % (i % 2), i + 1, None, None, id="x%d" % i))
        t = float(2 ** i) if ctx.p.get("timed") else ctx.real("time", 0, 100)
        if bool(ctx.bool("fails")):
            results.append(None)
        else:
            results.append(([], t, i))
            total = total + t
    wall = ctx.real("wall", 0.5, 100)
    timed = ctx.p.get("timed")
    seen = []

    class Log:
        def info(self, msg, *a):
            seen.append(("info", msg, a))

        def error(self, msg, *a):
            seen.append(("error", msg, a))

        def debug(self, msg, *a):
            seen.append(("debug", msg % a if a else msg, ()))

        def isEnabledFor(self, level):
            return bool(timed)
    ctx.patch(rp, "logger", Log())
    rp.log_summary({"-N": "1"}, results, cases, [wall])
    cpu = [a[0] for k, m, a in seen if k == "info" and "CPU" in m]
    ctx.check(len(cpu) == 1 and ctx.close(cpu[0], total), "total-time-of-the-successes")
    named = [a[2] for k, m, a in seen if k == "error" and len(a) == 3]
    ctx.check(sorted(named) == [i + 1 for i in range(n) if results[i] is None], "failures-named-in-the-summary")
    if not timed:
        return
    # each configuration's line shows its own time, configurations that never finished have no time
    for p in sorted({c.problem_name for c in cases}):
        for a in sorted({c.algorithm_name for c in cases}):
            mine = sum(r[1] for c, r in zip(cases, results) if r is not None and c.config == (p, a))
            lines = [m for k, m, _ in seen if "'%s'" % p in m and "'%s'" % a in m]
            ctx.check(len(lines) == (1 if mine else 0), "time-of-the-configurations-that-finished", "%s %s" % (p, a))
            if mine:
                ctx.check(re.search(r"(?<![\d.])%.3f" % mine, lines[0]) is not None, "own-time", lines[0])
