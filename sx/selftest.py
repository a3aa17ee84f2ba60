"""Engine self-test: known-true and known-false assertions over small programs."""
import subprocess


def explore(f, **kw):
    from . import sym
    from .ctx import mk_sym

    C = mk_sym()
    e = sym.Engine(**kw)
    sym.ENGINE = e
    bad = []
    while True:
        e.reset_path()
        c = C({}, e, lambda l, d, n: bad.append(l), lambda l, r: None)
        try:
            f(c)
        except sym.PathEnd:
            pass
        e.stats.paths += 1
        if not e.backtrack():
            break
    sym.ENGINE = None
    return bad, e.stats


def main():
    from .runner import PYPY

    def sorts(c):
        xs = c.reals("x", 3)
        ys = sorted(xs)
        c.check(ys[0] <= ys[1], "sorted")
        c.check(c.any(ys[0] == x for x in xs), "member")

    def wrong(c):
        x = c.real("x", 0, 1)
        c.check(x * x <= x - 0.001, "wrong")

    def ints(c):
        n = c.int("n", 0, 6)
        c.check(len(list(range(n))) == n, "range")
        c.check(n // 2 * 2 + n % 2 == n, "divmod")

    b, s = explore(sorts)
    assert b == [] and s.paths == 6, (b, s.paths)
    b, s = explore(wrong)
    assert b == ["wrong"], b
    b, s = explore(ints)
    assert b == [] and s.paths == 7, (b, s.paths)
    subprocess.run([PYPY, "-c", "import numpy, rx"], check=True)
    print("selftest ok")
    return 0
