"""C31: every run gets on towards its budget."""
from sx.harness import harness

from .c07 import draws
from .c13 import RATES, adapter
from .common import ALGOS, EXTRA, Fit, driver_class, grid, make, unit_dims

SHAPES = ("distinct", "equal", "pairs", "bounds")


def population(ctx, n):
    """n members: all different, all the same, every one twice, or on the bounds"""
    shape = SHAPES[ctx.choose("shape", len(SHAPES))]
    vs = grid(n)
    if shape == "equal":
        return [list(vs[0]) for _ in range(n)]
    if shape == "pairs":
        return [list(vs[i // 2]) for i in range(n)]
    if shape == "bounds":
        return [[float(i % 2)] for i in range(n)]
    return vs


def table(ctx, m):
    """objective values by order of appearance: mixed, all equal, or equal in all but one objective"""
    kind = ctx.choose("values", 3)
    if kind == 1:
        return {i: [1.0] * m for i in range(300)}
    if kind == 2:
        return {i: [float(i % 3)] + [0.0] * (m - 1) for i in range(300)}
    return {i: [float((i * 5) % 7), float((i * 3) % 5), float(i % 4)][:m] for i in range(300)}


def stepped(ctx, d, algo, n, steps, must):
    last = d.cost
    for s in range(steps):
        d.next_step()
        if must and (s or last):
            ctx.check(d.cost > last, "a-step-charges-something", "%s after %s" % (d.cost, last))
        ctx.check(d.cost >= last, "cost-never-decreases")
        last = d.cost
    for _ in range(2):
        final = list(d.finalized_population())
        ctx.check(len(final) >= 1 if algo == "OMOPSO" else len(final) == n, "final-population", "%d" % len(final))
    d.next_step()
    ctx.check(d.cost > last or not must, "goes-on-after-the-final-population")


SLOW = ("NSGAIII", "NSLS", "OMOPSO", "IBEA", "SPEA2")
FREE = [dict(algo=a, n=2, m=1, steps=1, free=1) for a in ALGOS if a not in SLOW]
KNOWN = [dict(algo=a, n=n, m=m, steps=3) for a in ALGOS for n, m in ((2, 2), (4, 3), (5, 2))]


@harness(quick=FREE + KNOWN, thorough=FREE + [dict(algo=a, n=2, m=1, steps=1, free=1) for a in ("NSGAIII", "OMOPSO", "SPEA2")] +
         KNOWN + [dict(algo=a, n=9, m=2, steps=6) for a in ALGOS], path_s=60)
def steps_charge(ctx):
    """each algorithm on any population, repeated members included: a step ends and charges at least one evaluation"""
    p = ctx.p
    draws(ctx)
    mr, cr = RATES[ctx.choose("rates", len(RATES))]
    top = population(ctx, p["n"])
    fit = Fit(ctx, p["m"], known=None if p.get("free") else table(ctx, p["m"]))
    d = make(p["algo"], top, unit_dims(), fit.fitnesses, mutation_rate=mr, crossover_rate=cr)
    # NSGA-III keeps what neither operator touched, evaluated already
    stepped(ctx, d, p["algo"], p["n"], p["steps"], p["algo"] != "NSGAIII" or mr == 1.0)


@harness(quick=[dict(algo=a, islands=2, size=3) for a in ALGOS], thorough=[dict(algo=a, islands=3, size=4) for a in ALGOS],
         path_s=60)
def islands_charge(ctx):
    """the island model over each algorithm: every step of it charges at least one evaluation per island"""
    import functools
    from .c14 import imga

    algo, k, s = ctx.p["algo"], ctx.p["islands"], ctx.p["size"]
    draws(ctx)
    fit = Fit(ctx, 2, known=table(ctx, 2))
    extra = dict(EXTRA[algo])
    if "reference_point" in extra:
        extra["reference_point"] = [50.0, 50.0]
    d = imga(ctx, population(ctx, k * s), fit.fitnesses, k, 1, 1, functools.partial(driver_class(algo), **extra),
             adapter(algo, "IMGA"))
    last = None
    for _ in range(3):
        d.next_step()
        costs = [i.driver.cost for i in d.islands]
        if last is not None:
            ctx.check(all(a >= b for a, b in zip(costs, last)), "no-island-forgets", "%s %s" % (last, costs))
            if algo != "NSGAIII":
                ctx.check(all(a > b for a, b in zip(costs, last)), "every-island-gets-on", "%s %s" % (last, costs))
                ctx.check(d.cost >= sum(last) + k, "the-model-gets-on")
        last = costs


@harness(quick=[dict(algo=a, n=4, top=30) for a in ALGOS], thorough=[dict(algo=a, n=6, top=90) for a in ALGOS], path_s=60)
def budget_reached(ctx):
    """any budget: the run of each algorithm ends, at its first state with that cost, after at most as many steps"""
    from algorithms.base.driver import BudgetRun

    algo, n = ctx.p["algo"], ctx.p["n"]
    draws(ctx)
    fit = Fit(ctx, 2, known=table(ctx, 2))
    d = make(algo, population(ctx, n), unit_dims(), fit.fitnesses, mutation_rate=1.0, crossover_rate=1.0)
    budget = ctx.real("budget", 0, ctx.p["top"])
    steps, ends = [], []
    BudgetRun(budget).create_job(d).subscribe(on_next=lambda m: steps.append(d.cost), on_completed=lambda: ends.append(d.cost))
    ctx.check(len(ends) == 1 and ends[0] == d.cost, "completes")
    ctx.check(d.cost >= budget, "budget-reached")
    ctx.check(len(steps) <= budget + 2, "a-bounded-number-of-steps")
    for c in steps[:-1]:
        ctx.check(c < budget, "no-step-after-the-budget")


@harness(quick=[dict(steps=3), dict(steps=5)], thorough=[dict(steps=8)], path_s=60)
def free_steps(ctx):
    """any charges per step, free steps included: the run stops at the first state reaching its budget, not before"""
    from algorithms.base.driver import BudgetRun, Driver

    k = ctx.p["steps"]
    charges = [ctx.int("c%d" % i, 0, 9) for i in range(k)]
    budget, start = ctx.int("budget", 0, 40), ctx.int("start", 0, 5)

    class D(Driver):
        done = 0

        def step(self):
            # past the k-th step anything is enough
            self.cost = self.cost + (charges[self.done] if self.done < k else 100)
            self.done += 1

    d = D()
    d.cost = start
    messages, ends = [], []
    BudgetRun(budget).create_job(d).subscribe(on_next=messages.append, on_completed=lambda: ends.append(d.done))
    ctx.check(ends == [d.done], "completes-once-at-the-end")
    ctx.check(len(messages) == d.done, "a-message-per-step")
    totals = [start + ctx.Sum(charges[:i]) if i else start for i in range(k + 1)]
    for i in range(k + 1):
        if i < d.done:
            ctx.check(totals[i] < budget, "no-step-after-the-budget")
        elif i == d.done:
            ctx.check(totals[i] >= budget, "not-before-the-budget")
