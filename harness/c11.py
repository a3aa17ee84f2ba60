"""C11: budget runs checkpoint each budget at the first state that reaches it."""
from sx.harness import harness

RUN_ID = "2020-01-02.030405.000006__0000003"


def stepper(ctx, start, cost_of, limit):
    """A driver whose k-th step costs cost_of(k); its population names its state."""
    from algorithms.base.driver import Driver

    class Stepper(Driver):
        def __init__(self):
            super().__init__()
            self.cost = start
            self.k = 0
            self.log = [start]
            self.downs = 0

        def step(self):
            if self.k >= limit:
                ctx.check(False, "step-after-last-budget")
            self.cost = self.cost + cost_of(self.k)
            self.k += 1
            self.log.append(self.cost)

        def finalized_population(self):
            return [[float(self.k)], [float(self.k) + 0.5]]

        def shutdown(self):
            self.downs += 1

    return Stepper()


def problem():
    import types
    p = types.ModuleType("fake_problem")
    p.fitnesses = [lambda v: v[0] + 1.0, lambda v: -v[0]]
    return p


def budgets_of(ctx, n, top):
    res = []
    for i in range(n):
        b = ctx.int("budget", 0, top)
        if res:
            ctx.assume(b > res[-1])
        res.append(b)
    return res


def case(ctx, budgets, results_dir):
    from simulation.model import SimulationCase
    return SimulationCase("P", "A", 3, None, results_dir, id=RUN_ID, budgets=budgets)


def names(path):
    import os
    return sorted(f for f in os.listdir(str(path)))


def first_state(ctx, log, budget):
    """index of the first state whose cost reaches the budget"""
    for k, c in enumerate(log):
        if bool(c >= budget):
            return k
    return None


SHAPES = [dict(nb=1, steps=3), dict(nb=2, steps=3), dict(nb=3, steps=2), dict(nb=2, steps=2, scale=1000003)]


@harness(quick=SHAPES, thorough=SHAPES + [dict(nb=2, steps=5), dict(nb=3, steps=4), dict(nb=4, steps=3)], path_s=30)
def checkpoints(ctx):
    """any step costs, any initial cost and any increasing budgets"""
    import logging
    from simulation import worker
    from simulation.serializer import Serializer

    nb, limit = ctx.p["nb"], ctx.p["steps"]
    scale = ctx.p.get("scale", 1)
    budgets = [int(b) * scale for b in budgets_of(ctx, nb, 3 * limit)]
    costs = [ctx.int("cost", 0, 4) * scale for _ in range(limit)]
    start = ctx.int("start", 0, 2)
    total = start
    for c in costs:
        total = total + c
    ctx.assume(total >= budgets[-1])
    d = stepper(ctx, start, lambda k: costs[k], limit)
    sim = case(ctx, budgets, ctx.scratch())
    w = worker.BudgetWorker(sim, 0)
    results = w.run_driver(d, problem(), logging.getLogger("quiet"))
    ser = Serializer(sim)
    ctx.check(names(ser.path) == sorted("%d.pickle" % b for b in budgets), "one-result-per-budget")
    ctx.check(len(results) == nb, "one-result-per-budget")
    ctx.check(d.max_budget == budgets[-1], "driver-knows-the-last-budget")
    last = None
    for b, r in zip(budgets, results):
        k = first_state(ctx, d.log, b)
        ctx.check(k is not None, "budget-reached")
        stored = ser.load(b)
        ctx.check([list(v) for v in stored.population] == [[float(k)], [k + 0.5]], "first-state-reaching-budget")
        ctx.check([list(f) for f in stored.fitnesses] == [[k + 1.0, -float(k)], [k + 1.5, -(k + 0.5)]],
                  "objective-values-of-the-population")
        ctx.check(stored.additional_data["cost"] == d.log[k], "cost-of-that-state")
        ctx.check(r[0] == d.log[k] and [list(v) for v in r[1]] == [[float(k)], [k + 0.5]], "returned-results")
        last = k
    ctx.check(d.k == last, "no-step-after-last-budget")


@harness(quick=[dict(steps=2)], thorough=[dict(steps=4)], path_s=30)
def whole_worker(ctx):
    """the worker as a whole: prepares the requested case, stores, shuts the driver down, reports"""
    from simulation import factory, worker, log_helper
    from simulation.serializer import Serializer

    limit = ctx.p["steps"]
    costs = [ctx.int("cost", 0, 4) for _ in range(limit)]
    budgets = [int(b) for b in budgets_of(ctx, 2, limit)]
    ctx.assume(ctx.Sum(costs) >= budgets[-1])
    d = stepper(ctx, 0, lambda k: costs[k], limit)
    asked = []

    def prepare(algo, prob):
        asked.append((algo, prob))
        return (lambda: d), problem()
    ctx.patch_everywhere(factory, "prepare", prepare)
    ctx.patch_everywhere(log_helper, "init", lambda: None)
    sim = case(ctx, budgets, ctx.scratch())
    out = worker.BudgetWorker(sim, 7).run()
    ctx.check(asked == [("A", "P")], "the-requested-case")
    ctx.check(out is not None and len(out[0]) == 2 and out[-1] == 7, "reported")
    ctx.check(out[1] >= 0, "time-reported")
    ctx.check(d.downs == 1, "driver-shut-down")
    for b in budgets:
        k = first_state(ctx, d.log, b)
        ctx.check(Serializer(sim).load(b).additional_data["cost"] == d.log[k], "cost-of-that-state")


@harness(quick=[dict(steps=3)], thorough=[dict(steps=5)], path_s=30)
def single_run(ctx):
    """one budgeted run: a message per step, then completion, none after the budget; then goes on"""
    from algorithms.base.driver import BudgetRun

    limit = ctx.p["steps"]
    costs = [ctx.real("cost", 0, 4) for _ in range(limit)]
    b1, b2 = ctx.real("budget", 0, 4), ctx.real("budget", 0, 8)
    total = ctx.Sum(costs)
    ctx.assume(ctx.And(total >= b1, total >= b2))
    d = stepper(ctx, 0, lambda k: costs[k], limit)
    done = []
    for b in (b1, b2):
        before = d.k
        msgs = []
        ends = []
        BudgetRun(b).create_job(d).subscribe(on_next=msgs.append, on_completed=lambda: ends.append(d.k))
        ctx.check(len(ends) == 1 and ends[0] == d.k, "completes-once-at-the-end")
        ctx.check(len(msgs) == d.k - before, "one-message-per-step")
        for i, m in enumerate(msgs):
            ctx.check(getattr(m, "cost", None) == d.log[before + i + 1], "message-cost")
            ctx.check(getattr(m, "step_no", None) == before + i, "message-step")
        k = first_state(ctx, d.log, b)
        ctx.check(k is not None and d.k == max(k, before), "stops-at-first-state-reaching-budget")


@harness(quick=[dict(k=0), dict(k=1), dict(k=3)], thorough=[dict(k=6)])
def step_run(ctx):
    """a run of a given number of steps takes exactly that many"""
    from algorithms.base.driver import StepsRun

    costs = [ctx.real("cost", 0, 4) for _ in range(ctx.p["k"])]
    d = stepper(ctx, 0, lambda k: costs[k], ctx.p["k"])
    msgs = []
    ends = []
    StepsRun(ctx.p["k"]).create_job(d).subscribe(on_next=msgs.append, on_completed=lambda: ends.append(1))
    ctx.check(d.k == ctx.p["k"] and len(msgs) == d.k and len(ends) == 1, "exactly-that-many")
    for i, m in enumerate(msgs):
        ctx.check(getattr(m, "cost", None) == d.log[i + 1], "message-cost")
        ctx.check(getattr(m, "step_no", None) == i, "message-step")
