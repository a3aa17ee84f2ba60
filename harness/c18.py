"""C18: reduced precision and noisy objectives stay within their declared accuracy."""
import importlib

from sx.harness import harness

from .common import ALGOS, Fit, cycle, make

TOOLS = "algorithms.HGS.tools"
CLASSIC = "algorithms.HGS.classic.ClassicHGS"


def library(ctx):
    """floatextras on symbolic values: a value is its sign, digits and exponent.
    Concrete values and the replay go to the real library."""
    import floatextras as fe

    known = []
    if not ctx.symbolic:
        return lambda sign, digits, e: fe.from_tuple((sign, tuple(digits), e))
    real_as, real_from = fe.as_tuple, fe.from_tuple

    def build(sign, digits, e):
        v = 1
        for i, b in enumerate(digits):
            v = v + b * 2.0 ** -(i + 1)
        v = v * (-1 if sign else 1) * 2.0 ** e
        known.append((v, (sign, tuple(digits), e)))
        return v

    def as_tuple(f, **kw):
        for v, t in known:
            if v is f:
                return fe.FloatTuple(*t)
        return real_as(f, **kw)

    def from_tuple(t, **kw):
        sign, digits, e = t
        if isinstance(digits, int) or all(type(b) is int for b in digits):
            return real_from(t, **kw)
        return build(sign, digits, e)

    ctx.patch(fe, "as_tuple", as_tuple)
    ctx.patch(fe, "from_tuple", from_tuple)
    return build


BITS = (0, 1, 2, 4, 16, 51, 52, 53, 64)
EXPS = (0, -1, 1, 3, -10, 20)


@harness(quick=[dict(mod=m, exps=6) for m in (TOOLS, CLASSIC)],
         thorough=[dict(mod=m, exps=6, all=1) for m in (TOOLS, CLASSIC)], path_s=60)
def mantissa(ctx):
    """every sign and every pattern of the 52 stored bits, for each number of kept bits"""
    mod = importlib.import_module(ctx.p["mod"])
    ctx.need(mod, "trim_mantissa")
    build = library(ctx)
    kept = range(65) if ctx.p.get("all") else BITS
    bits = kept[ctx.choose("bits", len(kept))]
    e = EXPS[ctx.choose("exponent", ctx.p["exps"])]
    sign = ctx.choose("sign", 2)
    digits = [ctx.int("d", 0, 1) for _ in range(52)]
    v = build(sign, digits, e)
    r = mod.trim_mantissa(v, bits)
    diff = v - r if not sign else r - v
    ctx.check(diff >= 0, "magnitude-never-grows", "%d bits" % bits)
    ctx.check(diff < 2.0 ** (e - bits), "less-than-one-unit-of-the-last-kept-bit", "%d bits" % bits)
    ctx.check(r < 0 if sign else r > 0, "sign-kept")
    ctx.check(mod.trim_mantissa(r, bits) == r, "idempotent")
    if bits >= 52:
        ctx.check(r == v, "nothing-to-cut")
    # every kept bit is the bit of the value: r is a multiple of that bit's unit
    import floatextras as fe
    back = list(fe.as_tuple(r).digits)
    ctx.check(ctx.all(back[i] == (digits[i] if i < bits else 0) for i in range(52)), "kept-bits-are-the-leading-ones")
    ctx.observe("r", r)


@harness(quick=[dict(mod=m, d=3) for m in (TOOLS, CLASSIC)],
         thorough=[dict(mod=m, d=d) for m in (TOOLS, CLASSIC) for d in (1, 5)], path_s=60)
def vector(ctx):
    """cutting a vector cuts each of its coordinates; zero stays zero, the input is left alone"""
    mod = importlib.import_module(ctx.p["mod"])
    ctx.need(mod, "trim_vector", "trim_mantissa")
    build = library(ctx)
    d = ctx.p["d"]
    bits = (0, 4, 16, 64)[ctx.choose("bits", 4)]
    v = []
    for i in range(d):
        v.append(build(i % 2, [ctx.int("d", 0, 1) for _ in range(8)] + [0] * 44, i - 1))
    v.insert(ctx.choose("zero", d + 1), 0.0)
    given = list(v)
    r = mod.trim_vector(v, bits)
    ctx.check(len(r) == len(given), "same-length")
    ctx.check(ctx.same(v, given), "input-unchanged")
    for x, y in zip(given, r):
        ctx.check(y == (0.0 if x is given[given.index(0.0)] and type(x) is float and x == 0.0 else mod.trim_mantissa(x, bits)),
                  "each-coordinate-cut")
    ctx.observe("r", r)


def blurrers(ctx, which, fitnesses, errors, level):
    if which == "tools":
        from algorithms.HGS import tools
        ctx.need(tools, "blurred_fitnesses")
        return tools.blurred_fitnesses(level, fitnesses, errors)
    C = importlib.import_module(CLASSIC).ClassicHGS
    ctx.need(C, "blurred_fitnesses")
    c = C.__new__(C)
    c.fitness_errors, c.fitnesses = errors, fitnesses
    return c.blurred_fitnesses(level)


NOISE = [dict(which=w, m=m) for w in ("tools", "classic") for m in (1, 2)]


@harness(quick=NOISE, thorough=NOISE + [dict(which=w, m=3) for w in ("tools", "classic")], path_s=60)
def noise(ctx):
    """any objective value, any declared accuracy per level, any drawn noise up to 6 sigma"""
    m = ctx.p["m"]
    level = ctx.choose("level", 3)
    errors = [ctx.real("eps%d" % i, 0, 1) for i in range(3)]
    f = [ctx.real("f", -1000, 1000) for _ in range(m)]
    z = [ctx.real("z", -6, 6) for _ in range(m)]
    queue = list(z)
    ctx.policy(gauss=lambda: queue.pop(0))
    ctx.relax()
    asked = []

    def objective(k):
        def g(v):
            asked.append((k, v))
            return f[k]
        return g

    fs = blurrers(ctx, ctx.p["which"], [objective(k) for k in range(m)], errors, level)
    ctx.check(len(fs) == m, "one-objective-each")
    vec = [0.5]
    for k in range(m):
        x = fs[k](vec)
        ctx.check(asked == [(j, vec) for j in range(k + 1)], "the-right-objective-once")
        eps = errors[level]
        bound = eps * abs(f[k]) * abs(z[k]) / 3.0
        ctx.check(ctx.le(abs(x - f[k]), bound, 1e-9), "error-within-declared-accuracy")
        ctx.observe("x%d" % k, x)


@harness(quick=[dict(which=w) for w in ("tools", "classic")], thorough=[dict(which=w) for w in ("tools", "classic")],
         path_s=60)
def exact(ctx):
    """zero declared error: the exact objective, for every value and draw"""
    errors = [0.0, ctx.real("e", 0, 1), 0.0]
    f = ctx.real("f", -1000, 1000)
    level = (0, 2)[ctx.choose("level", 2)]
    fs = blurrers(ctx, ctx.p["which"], [lambda v: f], errors, level)
    for _ in range(2):
        x = fs[0]([0.5])
        ctx.check(x == f, "exact")
    ctx.observe("x", x)


CUT = [dict(algo=a) for a in ALGOS]


@harness(quick=CUT, thorough=CUT + [dict(algo=a, steps=2) for a in ALGOS if a != "NSLS"], path_s=60)
def algorithms_cut(ctx):
    """every vector an algorithm evaluates has gone through its precision cut"""
    a = ctx.p["algo"]
    n = 2
    ctx.policy(random=cycle([0.05, 0.9, 0.2, 0.7, 0.4, 0.3]), unit=cycle([0.25, 0.5, 0.75]), index="first",
               shuffle="id", gauss=cycle([0.25, -0.5, 1.0]))
    mark = ctx.real("mark", 0, 1)
    cut = lambda v: list(v)[:-1] + [mark]
    fit = Fit(ctx, 1)
    init = [[(i + 1) / 8.0, ctx.real("x", 0, 1)] for i in range(n)]
    d = make(a, init, [(0.0, 1.0), (0.0, 1.0)], fit.fitnesses, trim_function=cut, mutation_rate=1.0,
             crossover_rate=1.0)
    for _ in range(ctx.p.get("steps", 1)):
        d.next_step()
    ctx.check(len(fit.calls) > 0, "evaluated")
    for k, v in fit.calls:
        ctx.check(v[-1] == mark, "evaluated-as-cut")


@harness(quick=[dict(algo=a, order=o) for a in ("NSGAII", "SPEA2") for o in ((0, 2), (1, 2))],
         thorough=[dict(algo=a, order=o) for a in ("NSGAII", "SPEA2", "SMSEMOA", "JGBL") for o in ((0, 1), (1, 0), (0, 2), (2, 0))],
         path_s=60)
def levels(ctx):
    """nodes of two levels evaluate the same vectors: each sees them within its own level's accuracy"""
    import functools
    from .c13 import adapter, objectives_of, vector_of
    from .c16 import hgs
    from .common import EXTRA, driver_class

    algo = ctx.p["algo"]
    errors = (0.5, 0.125, 0.0)
    f = {0.25: [ctx.real("f", 1, 10)], 0.5: [ctx.real("g", 11, 20)]}
    # one draw for all: the noise of a level is proportional to its declared error
    z = ctx.real("z", -3, 3)
    ctx.policy(gauss=lambda: z, random=0.9, unit=0.5, index="first", shuffle="id")
    ctx.relax()
    pop = [[0.25], [0.5]]
    extra = dict(EXTRA[algo])
    if "reference_point" in extra:
        extra["reference_point"] = [50.0]
    d = hgs(ctx, functools.partial(driver_class(algo), **extra), adapter(algo, "HGS"), pop,
            fitnesses=[lambda v: f[v[0]][0]], fitness_errors=errors, mutation_rates=[0.0] * 3, crossover_rates=[0.0] * 3,
            mantissa_bits=(64, 64, 64), population_sizes=(2, 2, 2))
    node = importlib.import_module(CLASSIC).ClassicHGS.Node
    seen = 0
    for level in ctx.p["order"]:
        n = node(d, level, [list(v) for v in pop])
        n.driver.step()
        inds = list(n.driver.individuals) + list(getattr(n.driver, "archive", []))
        for ind in inds:
            x, v = objectives_of(n.driver, ind), vector_of(ind)
            if v[0] not in f or x is None:
                continue
            seen += 1
            true = f[v[0]][0]
            ctx.check(ctx.le(abs(x[0] - true), errors[level] * true * abs(z) / 3.0, 1e-9), "within-its-own-level-s-accuracy",
                      "level %d" % level)
    ctx.check(seen > 0, "evaluated")
