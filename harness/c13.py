"""C13: progress messages carry the state they were emitted for."""
from sx.harness import harness

from .c07 import draws
from .common import ALGOS, LONG, LONGT, Fit, driver_class, grid, long_driver, long_run, make, unit_dims

KINDS = ["", "IMGA", "HGS", "DHGS"]
KEEPS_OFFSPRING = ("NSGAII", "JGBL", "IBEA")


def adapter(algo, kind):
    import importlib
    if not kind:
        from algorithms.base.model import ProgressMessageAdapter
        return ProgressMessageAdapter
    return getattr(importlib.import_module("algorithms.%s.message" % algo), "%s%sMessageAdapter" % (algo, kind))


def vector_of(ind):
    if isinstance(ind, dict):
        return ind["value"]
    return ind.v if hasattr(ind, "v") else ind.value


def objectives_of(d, ind):
    """objective values kept for an individual, None when it has none yet"""
    o = ind.get("objectives") if isinstance(ind, dict) else getattr(ind, "objectives", None)
    if not o:
        return None
    if isinstance(o, dict):
        return [o[f] for f in d.objectives]
    return list(o)


def paired(ctx, d, fit):
    inds = list(d.individuals) + list(getattr(d, "archive", []))
    for ind in inds:
        o = objectives_of(d, ind)
        if o is not None:
            ctx.check(ctx.same(o, fit.vec(vector_of(ind))), "objectives-belong-to-the-individual")


def sized(ctx, algo, n, d, pop):
    top = n + n // 2 if algo in KEEPS_OFFSPRING else n
    ctx.check(n <= len(pop) <= top, "population-size", "%d" % len(pop))


def copies(pop):
    return sorted(list(v) for v in pop)


RATES = [(0.0, 0.0), (1.0, 1.0), (0.5, 0.5), (0.0, 1.0)]


def objective(ctx, m, free):
    if free:
        return Fit(ctx, m)
    return Fit(ctx, m, known={i: [float((i * 5) % 7), float((i * 3) % 5)][:m] for i in range(200)})


SLOW = ("NSGAIII", "NSLS", "OMOPSO")
@harness(quick=[dict(algo=a, n=2, m=1, steps=2, free=1) for a in ALGOS if a not in SLOW + ("IBEA", "SPEA2")] +
         [dict(algo=a, n=2, m=1, steps=1, free=1) for a in SLOW + ("SPEA2",)] +
         [dict(algo=a, n=n, m=2, steps=3, free=0) for a in ALGOS for n in (2, 5)],
         thorough=[dict(algo=a, n=2, m=2, steps=1, free=1) for a in ALGOS if a not in SLOW + ("IBEA",)] +
         [dict(algo="SPEA2", n=2, m=1, steps=2, free=1), dict(algo="OMOPSO", n=2, m=1, steps=2, free=1),
          dict(algo="NSGAIII", n=2, m=1, steps=2, free=1)] +
         [dict(algo=a, n=3, m=1, steps=1, free=1) for a in ALGOS if a not in ("IBEA", "NSLS", "NSGAIII")] +
         [dict(algo=a, n=8, m=2, steps=4, free=0) for a in ALGOS], path_s=60)
def messages(ctx):
    """each algorithm under each adapter: one message per step, with that step's number, cost and population"""
    algo, n, steps = ctx.p["algo"], ctx.p["n"], ctx.p["steps"]
    kind = KINDS[ctx.choose("adapter", len(KINDS))]
    mr, cr = RATES[ctx.choose("rates", len(RATES))]
    draws(ctx)
    fit = objective(ctx, ctx.p["m"], ctx.p["free"])
    d = make(algo, grid(n), unit_dims(), fit.fitnesses, mutation_rate=mr, crossover_rate=cr,
             message_adapter_factory=adapter(algo, kind))
    seen = []
    for s in range(steps):
        msg = d.next_step()
        ctx.check(getattr(msg, "step_no", None) == s, "step-number", "%s" % getattr(msg, "step_no", None))
        ctx.check(hasattr(msg, "cost") and msg.cost == d.cost, "cost-after-the-step")
        pop = copies(d.population)
        if kind:
            ctx.check(hasattr(msg, "population") and copies(msg.population) == pop, "population-after-the-step")
            sized(ctx, algo, n, d, msg.population)
        paired(ctx, d, fit)
        seen.append((msg, s, msg.cost, pop))
    for msg, s, cost, pop in seen:
        ctx.check(msg.step_no == s and msg.cost == cost, "message-kept")
        if kind:
            ctx.check(copies(msg.population) == pop, "population-kept")
    final = d.finalized_population()
    if algo != "OMOPSO":
        ctx.check(len(list(final)) == n, "final-population-size")
    paired(ctx, d, fit)


@harness(quick=[dict(steps=2, cost=1), dict(steps=1, cost=1, much=130)], thorough=[dict(steps=5, cost=1), dict(steps=2, cost=1, much=1050)], path_s=60)
def stepped_run(ctx):
    """a run of k steps emits k messages, numbered on from the steps already done, with any step costs"""
    from algorithms.base.driver import Driver, StepsRun

    class Stepper(Driver):
        def step(self):
            self.cost = self.cost + (ctx.int("c", 0, 9) if self.step_no % 50 < 5 else 3)

    d = Stepper()
    first = ctx.choose("first", ctx.p["steps"] + 1) + ctx.p.get("much", 0)
    second = ctx.choose("second", ctx.p["steps"] + 1)
    got = []

    def collect(msg):
        got.append((msg.step_no, msg.cost, d.cost))
    for k in (first, second):
        before = len(got)
        StepsRun(k).create_job(d).subscribe(collect)
        ctx.check(len(got) - before == k, "one-message-per-step")
    for i, (no, cost, now) in enumerate(got):
        ctx.check(no == i, "numbers-count-up")
        ctx.check(cost == now, "cost-when-emitted")
    ctx.check(d.step_no == first + second, "steps-counted")


@harness(quick=[dict(algo=a) for a in ALGOS], path_s=30)
def overridden_step(ctx):
    """a driver derived from another one still counts every step once"""
    base = driver_class(ctx.p["algo"])
    fit = Fit(ctx, 1, known={i: [1.0] for i in range(64)})
    draws(ctx)

    calls = []

    class Derived(base):
        def step(self):
            calls.append(1)
            super().step()

    from .common import BASE, EXTRA
    kw = dict(BASE, **EXTRA[ctx.p["algo"]])
    if "reference_point" in kw:
        kw["reference_point"] = [50.0]
    d = Derived(population=grid(2), dims=unit_dims(), fitnesses=fit.fitnesses, **kw)
    for s in range(3):
        m = d.next_step()
        ctx.check(m.step_no == s and len(calls) == s + 1 and d.step_no == s + 1, "counted-once")


def _message(ctx):
    from algorithms.base import model
    no, cost = ctx.int("no", 0, 99), ctx.int("cost", 0, 10 ** 6)
    return model, model.ProgressMessage(no, cost), no, cost


@harness(quick=[dict()], path_s=30)
def wrapped_messages(ctx):
    """messages built from another keep its step number and cost"""
    model, m, no, cost = _message(ctx)
    t = ctx.int("elapsed", 0, 99)
    pop = [[0.25], [0.5]]
    tm = model.TimeProgressMessage(t, m)
    pm = model.PopulationMessage(pop, m)
    for x in (m, tm, pm, model.TimeProgressMessage(t, tm)):
        ctx.check(hasattr(x, "step_no") and hasattr(x, "cost"), "number-and-cost-carried")
        ctx.check(ctx.And(x.step_no == no, x.cost == cost), "number-and-cost-kept")
    ctx.check(hasattr(tm, "elapsed_time") and tm.elapsed_time == t, "elapsed-time-kept")
    ctx.check(getattr(pm, "population", None) == [[0.25], [0.5]], "population-kept")


@harness(quick=[dict(algo=a, n=3, steps=2) for a in ALGOS], thorough=[dict(algo=a, n=5, steps=4) for a in ALGOS],
         path_s=30)
def unpaid_steps(ctx):
    """a step whose vectors are all answered from the cache costs nothing, its message still carries the new population"""
    algo, n = ctx.p["algo"], ctx.p["n"]
    kind = KINDS[1 + ctx.choose("adapter", len(KINDS) - 1)]
    draws(ctx)
    fit = objective(ctx, 2, 0)

    class Known:
        def __contains__(self, v):
            return True

        def __getitem__(self, v):
            return fit.vec(v)

        def __setitem__(self, v, f):
            pass
    d = make(algo, grid(n), unit_dims(), fit.fitnesses, mutation_rate=1.0, crossover_rate=1.0, fitness_archive=Known(),
             message_adapter_factory=adapter(algo, kind))
    for s in range(ctx.p["steps"]):
        msg = d.next_step()
        ctx.check(msg.cost == d.cost and msg.step_no == s, "cost-after-the-step")
        ctx.check(copies(msg.population) == copies(d.population), "population-after-the-step")
    # emitted again after members moved on without a step
    d.individuals = list(d.individuals)[: n - 1]
    again = d.message_adapter.emit_result()
    ctx.check(copies(again.population) == copies(d.population), "population-when-emitted")


@harness(quick=LONG, thorough=LONGT, path_s=60)
def long_runs(ctx):
    """a dozen steps of each algorithm: messages count on, match the driver after their step and stay what they were"""
    algo, n = ctx.p["algo"], ctx.p["n"]
    kind = KINDS[ctx.p["steps"] % 3 + 1]
    fit, d = long_driver(ctx, message_adapter_factory=adapter(algo, kind))
    seen = []
    for s, msg in long_run(ctx, d):
        if msg is None:
            continue
        pop = copies(d.population)
        ctx.check(getattr(msg, "step_no", None) == s - 1, "step-number", "%s" % getattr(msg, "step_no", None))
        ctx.check(hasattr(msg, "cost") and msg.cost == d.cost, "cost-after-the-step")
        ctx.check(hasattr(msg, "population") and copies(msg.population) == pop, "population-after-the-step")
        sized(ctx, algo, n, d, pop)
        paired(ctx, d, fit)
        seen.append((msg, s - 1, msg.cost, pop))
        final = copies(d.finalized_population())
        ctx.check(len(final) == n if algo != "OMOPSO" else len(final) >= 1, "final-population-size")
    for msg, s, cost, pop in seen:
        ctx.check(msg.step_no == s and msg.cost == cost and copies(msg.population) == pop, "message-kept")
