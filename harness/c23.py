"""C23: benchmark objectives are the published ones and agree with their reference fronts."""
from sx.harness import harness
from .c20 import source_root


def load(ctx, name):
    import importlib
    ctx.chdir(source_root())
    return importlib.import_module("problems.%s.problem" % name)


# --------------------------------------------------- the published problems
# ZDT: Zitzler, Deb, Thiele 2000; UF: Zhang et al., CEC 2009 special session; Kursawe 1991

def zdt(name, x):
    import math
    f1, rest = x[0], x[1:]
    n = len(x)
    if name == "ZDT4":
        g = 1 + 10 * (n - 1) + sum(v * v - 10 * math.cos(4 * math.pi * v) for v in rest)
    elif name == "ZDT6":
        f1 = 1 - math.exp(-4 * x[0]) * math.sin(6 * math.pi * x[0]) ** 6
        g = 1 + 5.19615 * sum(rest) ** 0.25  # 9 / (n - 1) ** 0.25, as the problem rounds it
    else:
        g = 1 + 9 * sum(rest) / (n - 1)
    q = f1 / g
    if name in ("ZDT2", "ZDT6"):
        return f1, g * (1 - q ** 2)
    if name == "ZDT3":
        return f1, g * (1 - math.sqrt(abs(q)) - q * math.sin(10 * math.pi * f1))
    return f1, g * (1 - math.sqrt(abs(q)))


def prod(xs):
    r = 1.0
    for x in xs:
        r = r * x
    return r


def uf(ctx, name, x):
    import math
    n = len(x)
    pi = math.pi
    no = int(name[2:])
    if no >= 8:
        J = [[j for j in range(3, n + 1) if j % 3 == r] for r in (1, 2, 0)]
        y = {j: x[j - 1] - 2 * x[1] * math.sin(2 * pi * x[0] + j * pi / n) for j in range(3, n + 1)}
        if no == 10:
            s = [sum(4 * y[j] ** 2 - math.cos(8 * pi * y[j]) + 1 for j in K) for K in J]
        else:
            s = [sum(y[j] ** 2 for j in K) for K in J]
        if no == 9:
            e = 0.1
            m = ctx.Max([0.0, (1 + e) * (1 - 4 * (2 * x[0] - 1) ** 2)])
            lead = [0.5 * (m + 2 * x[0]) * x[1], 0.5 * (m - 2 * x[0] + 2) * x[1], 1 - x[1]]
        else:
            a, b = 0.5 * x[0] * pi, 0.5 * x[1] * pi
            lead = [math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a)]
        return [u + 2 * v / len(K) for u, v, K in zip(lead, s, J)]
    J = [[j for j in range(2, n + 1) if j % 2 == r] for r in (1, 0)]
    f = x[0]
    if no == 2:
        y = {}
        for r, trig in ((1, math.cos), (0, math.sin)):
            for j in J[1 - r]:
                y[j] = x[j - 1] - (0.3 * f ** 2 * math.cos(24 * pi * f + 4 * j * pi / n) + 0.6 * f) \
                    * trig(6 * pi * f + j * pi / n)
    elif no == 3:
        y = {j: x[j - 1] - math.pow(f, 0.5 * (1 + 3 * (j - 2) / (n - 2))) for j in range(2, n + 1)}
    else:
        y = {j: x[j - 1] - math.sin(6 * pi * f + j * pi / n) for j in range(2, n + 1)}
    if no in (3, 6):
        s = [4 * sum(y[j] ** 2 for j in K) - 2 * prod(math.cos(20 * y[j] * pi / math.sqrt(j)) for j in K) + 2
             for K in J]
    elif no == 4:
        s = [sum(abs(y[j]) / (1 + math.exp(2 * abs(y[j]))) for j in K) for K in J]
    elif no == 5:
        s = [sum(2 * y[j] ** 2 - math.cos(4 * pi * y[j]) + 1 for j in K) for K in J]
    else:
        s = [sum(y[j] ** 2 for j in K) for K in J]
    if no == 4:
        lead = [f, 1 - f ** 2]
    elif no in (5, 6):
        N = n  # the shipped instances take the number of front segments from the number of variables
        w = math.sin(2 * N * pi * f)
        if no == 5:
            e = (1 / (2 * N) + 0.1) * abs(w)
        else:
            e = ctx.Max([0.0, 2 * (1 / (2 * N) + 0.1) * w])
        lead = [f + e, 1 - f + e]
    elif no == 7:
        lead = [math.pow(f, 0.2), 1 - math.pow(f, 0.2)]
    else:
        lead = [f, 1 - math.sqrt(f)]
    return [u + 2 * v / len(K) for u, v, K in zip(lead, s, J)]


def kursawe(x):
    import math
    return (sum(-10 * math.exp(-0.2 * math.sqrt(a ** 2 + b ** 2)) for a, b in zip(x, x[1:])),
            sum(abs(a) ** 0.8 + 5 * math.sin(a ** 3) for a in x))


def ackley(x):
    import math
    v = -20 * math.exp(-0.2 * math.sqrt(0.5 * (x[0] ** 2 + x[1] ** 2))) \
        - math.exp(0.5 * (math.cos(2 * math.pi * x[0]) + math.cos(2 * math.pi * x[1]))) + 20 + math.e
    return v, v


def published(ctx, name, x):
    if name.startswith("ZDT"):
        return zdt(name, x)
    if name.startswith("UF"):
        return uf(ctx, name, x)
    return kursawe(x) if name == "kursawe" else ackley(x)


DOMAIN = {"ZDT4": [(0, 1)] + [(-5, 5)] * 9, "ZDT6": [(0, 1)] * 10, "UF3": [(0, 1)] * 30,
          "UF4": [(0, 1)] + [(-2, 2)] * 29, "UF5": [(0, 1)] + [(-1, 1)] * 9,
          "kursawe": [(-5, 5)] * 3, "ackley": [(-1.5, 1.5)] * 2}
for p in ("ZDT1", "ZDT2", "ZDT3"):
    DOMAIN[p] = [(0, 1)] * 30
for p in ("UF1", "UF2", "UF6", "UF7"):
    DOMAIN[p] = [(0, 1)] + [(-1, 1)] * 29
for p in ("UF8", "UF9", "UF10"):
    DOMAIN[p] = [(0, 1)] * 2 + [(-2, 2)] * 28
NAMES = sorted(DOMAIN)


@harness(quick=[dict(problem=p) for p in NAMES], thorough=[dict(problem=p) for p in NAMES], path_s=60)
def objectives(ctx):
    """any decision vector of the domain: defined, and the value of the published formula"""
    name = ctx.p["problem"]
    P = load(ctx, name)
    ctx.coarse()
    ctx.check([tuple(d) for d in P.dims] == DOMAIN[name], "published-domain")
    x = [ctx.real("x", lo, hi) for lo, hi in DOMAIN[name]]
    want = published(ctx, name, x)
    ctx.check(len(P.fitnesses) == len(want), "number-of-objectives")
    for i, f in enumerate(P.fitnesses):
        ctx.formula(f(list(x)), want[i], "objective-%d" % (i + 1))


# ------------------------------------------------------------------- fronts

def curve(name):
    """relation of the front: value of the last objective, given the others"""
    import math
    return {
        "sqrt": lambda a: 1 - math.sqrt(a), "square": lambda a: 1 - a * a, "line": lambda a: 1 - a,
    }[KIND[name]]


KIND = {"ZDT1": "sqrt", "ZDT4": "sqrt", "UF1": "sqrt", "UF2": "sqrt", "UF3": "sqrt",
        "ZDT2": "square", "ZDT6": "square", "UF4": "square", "UF7": "line", "UF5": "line", "UF6": "line"}
FRONTS = sorted(KIND) + ["ZDT3", "UF8", "UF9", "UF10"]
# ZDT3: the five segments of its front
SEGMENTS = ((0.0, 0.0830015349), (0.1822287280, 0.2577623634), (0.4093136748, 0.4538821041),
            (0.6183967944, 0.6525117038), (0.8233317983, 0.8518328654))
ZDT6_MIN = 0.2807753191


def same_front(ctx, p, name, n, tol=1e-6):
    """p lies on the analytic front"""
    a, b = p[0], p[1]
    if name in ("UF8", "UF10"):
        return ctx.And(a >= -tol, b >= -tol, p[2] >= -tol,
                       ctx.close(a * a + b * b + p[2] * p[2], 1, tol))
    if name == "UF9":
        c = p[2]
        return ctx.And(a >= -tol, b >= -tol, c >= -tol, ctx.close(a + b + c, 1, tol),
                       ctx.Or(a <= 0.25 * (1 - c) + tol, a >= 0.75 * (1 - c) - tol))
    if name in ("UF11", "UF12"):
        return ctx.And(ctx.close(ctx.Sum([(v - 1) * (v - 1) for v in p]), 1, 1e-5), *[v >= 1 - tol for v in p])
    k = KIND[name]
    if k == "sqrt":
        on = ctx.And(b <= 1 + tol, ctx.close((1 - b) * (1 - b), a, tol))
    elif k == "square":
        on = ctx.close(b, 1 - a * a, tol)
    else:
        on = ctx.close(a + b, 1, tol)
    low = ZDT6_MIN if name == "ZDT6" else 0
    on = ctx.And(on, a >= low - tol, a <= 1 + tol)
    if name == "UF5":
        return ctx.And(on, ctx.Or(*[ctx.close(a, i / (2 * n), tol) for i in range(2 * n + 1)]))
    if name == "UF6":
        return ctx.And(on, ctx.Or(ctx.close(a, 0, tol), *[
            ctx.And(a >= (2 * i - 1) / (2 * n) - tol, a <= 2 * i / (2 * n) + tol) for i in range(1, n + 1)]))
    return on


def member(ctx, front, name):
    """any point of the reference front"""
    p = ctx.reals(name, len(front[0]), -100, 100)
    ctx.assume(ctx.Or(*[ctx.And(*[a == b for a, b in zip(p, q)]) for q in front]))
    return p


POLY = [dict(problem=n) for n in FRONTS if n != "ZDT3"]
# large tables of five objectives: in pieces
LARGE = [dict(problem=p, piece=50, every=10) for p in ("UF11", "UF12")]
LARGER = [dict(problem=p, piece=50, every=1) for p in ("UF11", "UF12")]


@harness(quick=POLY + LARGE, thorough=POLY + LARGER, query_ms=60000, path_s=120)
def on_front(ctx):
    """any point of the reference front lies on the published front"""
    name = ctx.p["problem"]
    P = load(ctx, name)
    front = P.pareto_front
    if "piece" in ctx.p:
        k = ctx.p["piece"] * ctx.p["every"] * ctx.choose("piece", -(-len(front) // ctx.p["piece"] // ctx.p["every"]))
        front = front[k:k + ctx.p["piece"]]
    p = member(ctx, front, "p")
    ctx.check(same_front(ctx, p, name, len(P.dims)), "on-the-published-front", p)


@harness(quick=[dict(problem="ZDT3")], thorough=[dict(problem="ZDT3")])
def on_segments(ctx):
    """ZDT3, each point of the reference front: on the curve and on one of its five segments"""
    import math
    P = load(ctx, ctx.p["problem"])
    a, b = P.pareto_front[ctx.choose("i", len(P.pareto_front))]
    ctx.check(ctx.close(b, 1 - math.sqrt(a) - a * math.sin(10 * math.pi * a)), "on-the-published-front", a)
    step = 1 / 299  # points just outside a segment are only dominated by points between two samples
    ctx.check(any(lo - step <= a <= hi + step for lo, hi in SEGMENTS), "on-a-segment", a)


ALL = FRONTS + ["kursawe", "ackley"]


@harness(quick=[dict(problem=p) for p in ALL], thorough=[dict(problem=p) for p in ALL], query_ms=60000, path_s=120)
def undominated(ctx):
    """any two points of the reference front: neither dominates the other"""
    P = load(ctx, ctx.p["problem"])
    front = [tuple(q) for q in P.pareto_front]
    ctx.check(front and all(len(q) == len(P.fitnesses) for q in front), "a-point-per-objectives")
    p, q = member(ctx, front, "p"), member(ctx, front, "q")
    ctx.check(ctx.Not(ctx.dominates(p, q)), "undominated", "%s %s" % (p, q))


def near(ctx, t, front, step):
    return ctx.Or(*[ctx.And(*[ctx.And(a - b <= step, b - a <= step) for a, b in zip(t, q)]) for q in front])


@harness(quick=[dict(problem=p) for p in FRONTS], thorough=[dict(problem=p) for p in FRONTS], query_ms=60000, path_s=120)
def covered(ctx):
    """any point of the published front has a reference point nearby"""
    name = ctx.p["problem"]
    P = load(ctx, name)
    front, n = P.pareto_front, len(P.dims)
    a = ctx.real("a", 0, 1)
    if name in ("UF8", "UF9", "UF10"):
        b = ctx.real("b", 0, 1)
        step = 1.001 / 11
        if name == "UF9":
            # a, c: first and last objective
            ctx.assume(a + b <= 1)
            ctx.assume(ctx.Or(a <= 0.25 * (1 - b), a >= 0.75 * (1 - b)))
            ctx.check(near(ctx, (a, b), [(q[0], q[2]) for q in front], 1.5 * step), "covered", (a, b))
        else:
            ctx.assume(a * a + b * b <= 1)
            ctx.check(near(ctx, (a, b), [q[:2] for q in front], step), "covered", (a, b))
        return
    step = 0.5001 / 149
    if name == "ZDT3":
        k = ctx.choose("segment", len(SEGMENTS))
        ctx.assume(ctx.And(a >= SEGMENTS[k][0], a <= SEGMENTS[k][1]))
        step = 1.001 / 299
    elif name == "ZDT6":
        ctx.assume(a >= ZDT6_MIN)
        step = 0.06  # sampled evenly in the decision variable, not in the objective
    elif name == "UF5":
        ctx.assume(ctx.Or(*[a == i / (2 * n) for i in range(2 * n + 1)]))
        step = 1e-6
    elif name == "UF6":
        ctx.assume(ctx.Or(a == 0, *[ctx.And(a >= (2 * i - 1) / (2 * n), a <= 2 * i / (2 * n))
                                    for i in range(1, n + 1)]))
        step = 0.0067
    ctx.check(near(ctx, (a,), [q[:1] for q in front], step), "covered", a)


# ------------------------------------------------- front and objectives agree

def optimal(ctx, name, n):
    """any Pareto-optimal decision vector, and its objective values"""
    import math
    if name in ("UF8", "UF9", "UF10"):
        u, v = ctx.real("u", 0, 1), ctx.real("v", 0, 1)
        x = [u, v] + [2 * v * math.sin(2 * math.pi * u + j * math.pi / n) for j in range(3, n + 1)]
        if name == "UF9":
            ctx.assume(ctx.Or(u <= 0.25, u >= 0.75))
            return x, (u * v, v - u * v, 1 - v)
        a, b = 0.5 * u * math.pi, 0.5 * v * math.pi
        return x, (math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a))
    t = ctx.real("t", 0, 1)
    if name.startswith("ZDT"):
        x = [t] + [0.0] * (n - 1)
        if name == "ZDT6":
            f = 1 - math.exp(-4 * t) * math.sin(6 * math.pi * t) ** 6
            return x, (f, 1 - f * f)
        if name == "ZDT3":
            return x, (t, 1 - math.sqrt(t) - t * math.sin(10 * math.pi * t))
        return x, (t, curve(name)(t))
    js = range(2, n + 1)
    pi = math.pi
    if name == "UF2":
        x = [t] + [(0.3 * t ** 2 * math.cos(24 * pi * t + 4 * j * pi / n) + 0.6 * t)
                   * (math.cos if j % 2 else math.sin)(6 * pi * t + j * pi / n) for j in js]
    elif name == "UF3":
        x = [t] + [math.pow(t, 0.5 * (1 + 3 * (j - 2) / (n - 2))) for j in js]
    else:
        x = [t] + [math.sin(6 * pi * t + j * pi / n) for j in js]
    if name == "UF5":
        e = (1 / (2 * n) + 0.1) * abs(math.sin(2 * n * pi * t))
        return x, (t + e, 1 - t + e)
    if name == "UF6":
        e = ctx.Max([0.0, 2 * (1 / (2 * n) + 0.1) * math.sin(2 * n * pi * t)])
        return x, (t + e, 1 - t + e)
    if name == "UF7":
        r = math.pow(t, 0.2)
        return x, (r, 1 - r)
    return x, (t, curve(name)(t))


@harness(quick=[dict(problem=p) for p in FRONTS], thorough=[dict(problem=p) for p in FRONTS], path_s=60)
def attained(ctx):
    """any Pareto-optimal decision vector: the objectives take it onto the front"""
    name = ctx.p["problem"]
    P = load(ctx, name)
    ctx.coarse()
    x, want = optimal(ctx, name, len(P.dims))
    for i, f in enumerate(P.fitnesses):
        ctx.formula(f(list(x)), want[i], "objective-%d-on-the-front" % (i + 1))


ROTATED = [dict(problem=p) for p in ("UF11", "UF12")]


@harness(quick=ROTATED, thorough=ROTATED, path_s=60, query_ms=20000)
def rotated(ctx):
    """UF11, UF12, any optimal vector (rotated: first four anywhere in [0, 1], the others 1/2): on the front"""
    P = load(ctx, ctx.p["problem"])
    ctx.coarse()
    n = len(P.dims)
    from numpy.linalg import inv
    back = [[float(v) for v in row] for row in inv(P.M)]
    z = ctx.reals("z", 4, 0.01, 0.99) + [0.5] * (n - 4)
    x = [sum(back[j][i] * z[i] for i in range(n)) for j in range(n)]
    ctx.assume(ctx.And(*[ctx.And(v >= lo, v <= hi) for v, (lo, hi) in zip(x, P.dims)]))
    f = [g(list(x)) for g in P.fitnesses]
    ctx.formula(sum((v - 1) * (v - 1) for v in f), 1.0, "optimal-vectors-on-the-front", 1e-3)


BEAT = [dict(problem=p, free=k) for p in ("ZDT1", "ZDT2") for k in (2, 30)] + [dict(problem="ZDT4", free=2)]


@harness(quick=BEAT, thorough=BEAT, path_s=100, query_ms=60000)
def unbeaten(ctx):
    """any decision vector against any point of the published front"""
    name = ctx.p["problem"]
    P = load(ctx, name)
    if name == "ZDT4":
        ctx.coarse()
    k = ctx.p["free"]
    x = [ctx.real("x", lo, hi) if i < k else 0.25 for i, (lo, hi) in enumerate(P.dims)]
    r = ctx.real("r", 0, 1)
    q = (r * r, 1 - r) if KIND[name] == "sqrt" else (r, 1 - r * r)
    f = [f(list(x)) for f in P.fitnesses]
    ctx.check(ctx.Not(ctx.And(f[0] <= q[0] - 1e-6, f[1] <= q[1] - 1e-6)), "front-unbeaten")
