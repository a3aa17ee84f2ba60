"""Concrete replay on the real code (run by PyPy, the repository's own
interpreter, or any CPython).  usage: conc.py JOBS.json  -> JSON lines.

Only the environment is replaced: random draws, the clock, matplotlib (never
drawn) and, where it is not installed, scipy's euclidean distance."""
import collections
import importlib
import json
import logging
import os
import signal
import sys
import traceback
import types

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)

import random as _r
import time as _t

from sx.ctx import CheckFailed, ConcCtx, Skip, Unavailable

NAT = {}
CUR = [None]


class Hang(BaseException):
    pass


def draw(kind):
    c = CUR[0]
    if c is None:
        return None
    k, v = c.next_draw(kind)
    return v if k == kind else None


def live(key):
    """the policy that makes this draw in a replay, if any"""
    c = CUR[0]
    return None if c is None or c.live is None else c.live.get(key)


def call(pol):
    return pol() if callable(pol) else pol


def pick(pol, n):
    return 0 if pol == "first" else pol(n)


def picks(pol, n, k):
    left = list(range(n))
    return [left.pop(pick(pol, len(left))) for _ in range(k)]


def install_random():
    names = ["random", "uniform", "triangular", "betavariate", "gauss", "normalvariate",
             "expovariate", "choice", "choices", "randrange", "randint", "sample", "shuffle",
             "getrandbits"]
    for n in names:
        NAT[n] = getattr(_r, n)

    def num(kind, nat):
        def f(*a, **k):
            v = draw(kind)
            return NAT[nat](*a, **k) if v is None else v
        return f

    recorded, uniform, gauss = num("random", "random"), num("value", "uniform"), num("value", "gauss")
    _r.random = lambda: recorded() if live("random") is None else call(live("random"))
    _r.uniform = lambda a, b: uniform(a, b) if live("unit") is None else a + (b - a) * call(live("unit"))
    _r.gauss = lambda mu=0.0, sigma=1.0: gauss(mu, sigma) if live("gauss") is None else mu + sigma * call(live("gauss"))
    for n in ("triangular", "betavariate", "normalvariate", "expovariate"):
        setattr(_r, n, num("value", n))

    def choice(seq):
        if live("index") is not None:
            return seq[pick(live("index"), len(seq))]
        v = draw("index")
        return NAT["choice"](seq) if v is None or v >= len(seq) else seq[v]

    def choices(population, *a, **k):
        if live("index") is not None:
            return [population[pick(live("index"), len(population))] for _ in range(k.get("k", 1))]
        v = draw("indices")
        return NAT["choices"](population, *a, **k) if v is None else [population[i] for i in v]

    def sample(population, k, **kw):
        if live("index") is not None:
            return [population[i] for i in picks(live("index"), len(population), int(k))]
        v = draw("indices")
        if v is None or len(v) != k or any(i >= len(population) for i in v):
            return NAT["sample"](population, k)
        if isinstance(population, (set, frozenset)):
            population = list(population)
        return [population[i] for i in v]

    def shuffle(x, *a):
        if live("shuffle") == "id":
            return
        v = draw("indices")
        if v is None or len(v) != len(x):
            return NAT["shuffle"](x)
        x[:] = [x[i] for i in v]

    def intd(nat):
        def f(*a, **k):
            if live("index") is not None:
                if nat == "getrandbits":
                    return pick(live("index"), min(1 << a[0], 4))
                r = range(a[0], a[1] + 1) if nat == "randint" else range(*a)
                return r[pick(live("index"), len(r))]
            v = draw("int")
            return NAT[nat](*a, **k) if v is None else v
        return f

    _r.choice, _r.choices, _r.sample, _r.shuffle = choice, choices, sample, shuffle
    for n in ("randrange", "randint", "getrandbits"):
        setattr(_r, n, intd(n))
    for n in ("time", "monotonic", "perf_counter", "process_time"):
        nat = getattr(_t, n)
        NAT[n] = nat

        def f(_nat=nat):
            c = CUR[0]
            if c is not None and c.clock is not None:
                return c.clock()
            return _nat()
        setattr(_t, n, f)
    nsleep = _t.sleep

    def sleep(x):
        c = CUR[0]
        if c is not None and c.clock is not None:
            return
        nsleep(x)
    _t.sleep = sleep


class AnyMod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return AnyMod(n)

    def __call__(self, *a, **k):
        return AnyMod("r")

    def __iter__(self):
        return iter(())

    def __getitem__(self, i):
        return AnyMod("i")


def install_env(src):
    if not hasattr(collections, "MutableMapping"):
        from collections import abc
        collections.MutableMapping = abc.MutableMapping
    for n in ("matplotlib", "matplotlib.pyplot", "matplotlib.colors", "matplotlib.cm",
              "matplotlib.ticker", "matplotlib.patches", "mpl_toolkits",
              "mpl_toolkits.mplot3d", "pylab"):
        sys.modules.setdefault(n, AnyMod(n))
    try:
        import scipy.spatial  # noqa
    except ImportError:
        import math
        sp = types.ModuleType("scipy")
        ss = types.ModuleType("scipy.spatial")
        sd = types.ModuleType("scipy.spatial.distance")
        sd.euclidean = lambda u, v, w=None: math.sqrt(sum((a - b) ** 2 for a, b in zip(u, v)))
        sp.spatial, ss.distance = ss, sd
        sys.modules.update({"scipy": sp, "scipy.spatial": ss, "scipy.spatial.distance": sd})
    sys.path.insert(0, src)
    import numpy  # noqa: numpy keeps its own references to the native functions
    import rx, rx.operators, rx.scheduler  # noqa
    install_random()
    logging.disable(logging.CRITICAL)


def plain(v):
    if isinstance(v, (bool, int, str)) or v is None:
        return v
    if isinstance(v, float):
        return v
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    try:
        return float(v)
    except Exception:
        return repr(v)


def run_job(job, timeout):
    mod = importlib.import_module("harness." + job["property"].lower())
    fn = [h for h in mod.HARNESSES if h.h["name"] == job["harness"]][0]
    asked = json.dumps(job["params"], sort_keys=True)   # JSON knows no tuples: take the harness's own parameters
    params = [q for q in fn.h["quick"] + fn.h["thorough"] if json.dumps(q, sort_keys=True) == asked]
    ctx = ConcCtx(params[0] if params else job["params"], job["inputs"], job["draws"])
    _r.seed(12345)
    CUR[0] = ctx
    res = {"outcome": "ok"}
    out = sys.stdout
    sys.stdout = open(os.devnull, "w")
    seen = [False]

    def on_alarm(*a):
        raise Hang()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, timeout, 1.0)
    try:
        try:
            fn(ctx)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            CUR[0] = None
    except CheckFailed as e:
        res = {"outcome": "fail", "label": e.label, "detail": str(e.detail)[:500]}
    except (Skip, Unavailable):
        res = {"outcome": "skip"}
    except Hang:
        res = {"outcome": "hang", "label": "hang"}
    except Exception as e:
        res = {"outcome": "raise", "label": "raises:" + type(e).__name__,
               "detail": traceback.format_exc()[-1500:]}
    finally:
        sys.stdout.close()
        sys.stdout = out
    ctx.run_cleanups()
    res["observed"] = [[n, plain(v)] for n, v in ctx.observed]
    res["n_checks"] = ctx.n_checks
    return res


def main(path):
    with open(path) as f:
        spec = json.load(f)
    single = "jobs" not in spec
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    jobs = [spec] if single else spec["jobs"]
    src = os.environ.get("EVOGIL_SRC", "/repo")
    install_env(src)
    os.chdir(src)
    bad = 0
    for j in jobs:
        r = run_job(j, j.get("timeout", 20))
        print(json.dumps(r), flush=True)
        if r["outcome"] in ("fail", "raise", "hang"):
            bad = 1
    sys.stdout.flush()
    os._exit(bad if single else 0)


if __name__ == "__main__":
    main(sys.argv[1])
