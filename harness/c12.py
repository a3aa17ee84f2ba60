"""C12: timed runs report each slot once, with the state known then."""
from sx.harness import harness

RUN_ID = "2020-01-02.030405.000006__0000003"


def timed(ctx, durations):
    """A driver whose k-th step takes durations[k] on the symbolic clock and costs 1."""
    from algorithms.base.driver import Driver

    now = [ctx.real("origin", 0, 100)]
    ctx.set_clock(lambda: now[0])

    class Timed(Driver):
        def __init__(self):
            super().__init__()
            self.k = 0
            self.total = [0]

        def step(self):
            if self.k >= len(durations):
                ctx.check(False, "step-after-limit")
            now[0] = now[0] + durations[self.k]
            self.total.append(self.total[-1] + durations[self.k])
            self.k += 1
            self.cost += 10

        def finalized_population(self):
            return [[float(self.k)]]

    return Timed()


def durations_of(ctx, n, step, timeout):
    known = ctx.p.get("known", 0)
    ds = [0.375 if i < known else ctx.real("duration", 0, 2 * timeout) for i in range(n)]
    ctx.assume(ctx.Sum(ds) >= timeout + 0.01)
    return ds


def oracle(ctx, d, step, timeout):
    """(slot, step whose result was known) in order, from the step end times"""
    res = []
    slot = 1
    for j in range(1, d.k + 1):
        if j == 1:
            continue
        while slot * step <= timeout and bool(d.total[j] >= slot * step):
            res.append((slot * step, j - 1))
            slot += 1
    return res


SHAPES = [dict(n=2, step=1, timeout=3), dict(n=3, step=2, timeout=4), dict(n=3, step=2, timeout=5),
          dict(n=3, step=3, timeout=2), dict(n=4, step=1, timeout=2), dict(n=2, step=1, timeout=15),
          dict(n=16, step=1, timeout=8, known=13), dict(n=14, step=2, timeout=12, known=12)]


def apart(ctx, d, step, timeout):
    """keep end times off the slot boundaries, where rounding of the clock would decide"""
    for t in d.total[1:]:
        s = 1
        while s * step <= timeout:
            ctx.assume(ctx.Or(t == s * step, t <= s * step - 1e-3, t >= s * step + 1e-3))
            s += 1


@harness(quick=SHAPES, thorough=SHAPES + [dict(n=5, step=1, timeout=4), dict(n=4, step=3, timeout=9)], path_s=30)
def slots(ctx):
    """any step durations, zero and very long ones included"""
    from algorithms.base.driver import TimeRun

    n, step, timeout = ctx.p["n"], ctx.p["step"], ctx.p["timeout"]
    d = timed(ctx, durations_of(ctx, n, step, timeout))
    msgs = []
    ends = []

    def collect(m):
        msgs.append(tuple(getattr(m, name, None) for name in ("elapsed_time", "cost", "step_no")))
    TimeRun(step, timeout).create_job(d).subscribe(on_next=collect, on_completed=lambda: ends.append(d.k))
    if any(None in m for m in msgs):
        return ctx.check(False, "message-has-time-cost-and-step")
    apart(ctx, d, step, timeout)
    ctx.check(len(ends) == 1 and ends[0] == d.k, "completes-once-at-the-end")
    times = [m[0] for m in msgs]
    ctx.check(all(a < b for a, b in zip(times, times[1:])), "each-slot-once-in-order")
    ctx.check(all(t <= timeout for t in times), "never-beyond-the-limit")
    ctx.check(all(t % step == 0 and t >= step for t in times), "only-slots")
    expected = oracle(ctx, d, step, timeout)
    ctx.check([t for t, _ in expected] == times, "every-elapsed-slot", "%s %s" % (expected, times))
    for (t, j), m in zip(expected, msgs):
        ctx.check(ctx.And(m[1] == 10 * j, m[2] == j - 1), "state-known-at-the-slot", "%s %s" % (j, m))
    ctx.check(ctx.And(d.total[-1] >= timeout, *[t < timeout for t in d.total[:-1]]), "ends-once-limit-is-reached")


@harness(quick=[dict(n=2, step=1, timeout=2), dict(n=3, step=2, timeout=4), dict(n=1, step=1, timeout=2),
                dict(n=2, step=3, timeout=2)], thorough=[dict(n=4, step=1, timeout=3)], path_s=30)
def stored(ctx):
    """the worker stores one result per reported slot, named after it, and ends normally"""
    import logging
    import types
    from simulation import worker
    from simulation.model import SimulationCase
    from simulation.serializer import Serializer
    import os

    n, step, timeout = ctx.p["n"], ctx.p["step"], ctx.p["timeout"]
    d = timed(ctx, durations_of(ctx, n, step, timeout))
    prob = types.ModuleType("fake_problem")
    prob.fitnesses = [lambda v: v[0] + 1.0, lambda v: -v[0]]
    sim = SimulationCase("P", "A", 3, None, ctx.scratch(), id=RUN_ID, timeout=timeout, sampling_interval=step)
    results = worker.TimeWorker(sim, 0).run_driver(d, prob, logging.getLogger("quiet"))
    apart(ctx, d, step, timeout)
    expected = oracle(ctx, d, step, timeout)
    ser = Serializer(sim)
    files = sorted(os.listdir(str(ser.path))) if os.path.isdir(str(ser.path)) else []
    ctx.check(files == sorted("%d.pickle" % t for t, _ in expected), "one-result-per-slot", "%s" % files)
    ctx.check(len(results) == len(expected), "one-result-per-slot")
    for t, j in expected:
        r = ser.load(t)
        k = r.population[0][0]
        ctx.check([list(f) for f in r.fitnesses] == [[k + 1.0, -k]], "objective-values-of-the-population")
        ctx.check(r.additional_data["cost"] == 10 * k, "cost-of-the-stored-state")
        ctx.check(k >= j, "not-older-than-known")


@harness(quick=[dict(n=2, step=1, timeout=2)], thorough=[dict(n=3, step=1, timeout=2)], path_s=30)
def stored_state(ctx):
    """the population stored for a slot is the one of the last result finished before it was noticed"""
    import logging
    import types
    from simulation import worker
    from simulation.model import SimulationCase
    from simulation.serializer import Serializer

    n, step, timeout = ctx.p["n"], ctx.p["step"], ctx.p["timeout"]
    d = timed(ctx, durations_of(ctx, n, step, timeout))
    prob = types.ModuleType("fake_problem")
    prob.fitnesses = [lambda v: v[0] + 1.0]
    sim = SimulationCase("P", "A", 3, None, ctx.scratch(), id=RUN_ID, timeout=timeout, sampling_interval=step)
    worker.TimeWorker(sim, 0).run_driver(d, prob, logging.getLogger("quiet"))
    apart(ctx, d, step, timeout)
    for t, j in oracle(ctx, d, step, timeout):
        r = Serializer(sim).load(t)
        ctx.check(r.population[0][0] == j, "stored-state-known-at-the-slot")
