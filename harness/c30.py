"""C30: every run draws its own random numbers."""
from sx.harness import harness

from .common import ALGOS

DRAWS = ["random", "uniform", "gauss", "normalvariate", "choice", "choices", "randrange", "randint", "sample", "shuffle",
         "triangular", "betavariate", "expovariate", "getrandbits"]


def recorded(ctx, entropy):
    """the events of one worker's random stream: ("seed", argument) and ("draw", function), in order"""
    import os
    from simulation import worker

    source = ctx.need(worker, "random")
    events = []

    def watch(name):
        real = getattr(source, name)

        def f(*a, **k):
            events.append(("draw", name))
            return real(*a, **k)
        ctx.patch(source, name, f)
    for name in DRAWS:
        watch(name)
    ctx.patch(source, "seed", lambda *a, **k: events.append(("seed", (a or tuple(k.values()) or (None,))[0])))
    ctx.patch(ctx.need(worker, "os"), "urandom", entropy)
    return events


def worked(ctx, algo, problem="ZDT1"):
    """one worker's whole run without its driver's steps"""
    from simulation import log_helper, worker
    from simulation.model import SimulationCase

    ctx.patch_everywhere(log_helper, "init", lambda: None)
    built = []

    class Prepared(worker.SimulationWorker):
        def run_driver(self, driver, problem_mod, logger):
            built.append(driver)
            return []
    sim = SimulationCase(problem, algo, 3, None, ctx.scratch(), id="2020-01-02.030405.000006__0000003", budgets=[10])
    Prepared(sim, 0).run()
    ctx.check(len(built) == 1, "driver-built")


CASES = ALGOS + ["IMGA+NSGAII", "HGS+SPEA2"]


@harness(quick=[dict(algo=a) for a in CASES], thorough=[dict(algo=a) for a in CASES], path_s=60)
def seeded_first(ctx):
    """each algorithm: no number is drawn before the run has its own seed, made of all the entropy it was given"""
    bits = bytes(range(256)) * 12
    asked = []

    def entropy(n):
        asked.append(n)
        return bits[:n]
    ctx.policy(random=0.5, unit=0.5, gauss=0.0, index="first", shuffle="id")
    events = recorded(ctx, entropy)
    worked(ctx, ctx.p["algo"])
    first = [k for k, _ in events].index("seed") if any(k == "seed" for k, _ in events) else None
    ctx.check(first is not None, "seeded")
    if first is None:
        return
    ctx.check(all(k != "draw" for k, _ in events[:first]), "nothing-drawn-before-the-seed")
    ctx.check(sum(1 for k, _ in events if k == "seed") == 1, "seeded-once")
    ctx.check(events[first][1] is None or sum(asked) >= 16, "enough-entropy")


@harness(quick=[dict()], path_s=60)
def apart(ctx):
    """any two processes, started at the same moment, where the system has no entropy: different seeds"""
    from simulation import worker
    import logging

    def none(n):
        raise NotImplementedError()
    events = recorded(ctx, none)
    start = ctx.real("time", 1.0e9, 2.0e9)
    p, q = ctx.int("pid", 1, 4194304), ctx.int("pid2", 1, 4194304)
    ctx.assume(p > q)
    now, pid = [start], [p]
    ctx.set_clock(lambda: now[0])
    ctx.patch(worker.os, "getpid", lambda: pid[0])
    w = worker.SimulationWorker(None, 0)
    ctx.need(w, "_init_random_seed")(logging.getLogger("quiet"))
    now[0], pid[0] = start, q
    w._init_random_seed(logging.getLogger("quiet"))
    seeds = [s for k, s in events if k == "seed"]
    ctx.check(len(seeds) == 2, "each-process-seeded")
    if None not in seeds and len(seeds) == 2:
        ctx.check(seeds[0] != seeds[1], "different-processes-different-seeds")


@harness(quick=[dict()], path_s=60)
def every_byte_counts(ctx):
    """entropy that differs in any one byte: a different seed"""
    from simulation import worker
    import logging

    place = [None]
    length = []

    def entropy(n):
        b = bytearray(n)
        length.append(n)
        if place[0] is not None:
            b[place[0]] = 1
        return bytes(b)
    events = recorded(ctx, entropy)
    w = worker.SimulationWorker(None, 0)
    ctx.need(w, "_init_random_seed")(logging.getLogger("quiet"))
    if not length:
        return ctx.check(all(s is None for _, s in events), "system-entropy")
    n = length[0]
    place[0] = [0, 1, 2, 3, 4, 7, 8, 15, n // 2, n - 2, n - 1][ctx.choose("byte", 11)]
    if 0 <= place[0] < n:
        w._init_random_seed(logging.getLogger("quiet"))
        ctx.check(events[0][1] != events[-1][1], "every-byte-of-the-entropy-counts")
