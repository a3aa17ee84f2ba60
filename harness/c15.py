"""C15: the torus topology links every island to its grid neighbours."""
from sx.harness import harness


def expected(size, width):
    """wrapped grid with rows of `width`, the last row possibly shorter"""
    cells = {i: (i // width, i % width) for i in range(size)}
    res = []
    for i in range(size):
        r, c = cells[i]
        row = [j for j in range(size) if cells[j][0] == r]
        col = [j for j in range(size) if cells[j][1] == c]
        a, b = row.index(i), col.index(i)
        near = {row[a - 1], row[(a + 1) % len(row)], col[b - 1], col[(b + 1) % len(col)]}
        res.append(near - {i})
    return res


@harness(quick=[dict(width=w, top=30) for w in (1, 2, 3, 4, 5, 6)],
         thorough=[dict(width=w, top=90) for w in (1, 2, 3, 4, 5, 6, 7, 10)], path_s=30)
def torus(ctx):
    """every number of islands up to the bound for each width"""
    from algorithms.IMGA import topology
    ctx.need(topology, "TorusTopology")
    width = ctx.p["width"]
    size = int(ctx.int("size", 1, ctx.p["top"]))
    maker = topology.TorusTopology(width)
    t = maker.create(size)
    links = [list(ns) for ns in t]
    ctx.check(len(links) == size, "one-entry-per-island", "%d for %d" % (len(links), size))
    for i, ns in enumerate(links):
        ctx.check(all(0 <= n < size and n != i for n in ns), "neighbours-are-other-islands", "%s: %s" % (i, ns))
        ctx.check(len(set(ns)) == len(ns), "no-neighbour-twice")
        for n in ns:
            ctx.check(0 <= n < size and i in links[n], "symmetric", "%d-%d of %d" % (i, n, size))
    ctx.check([set(ns) for ns in links] == expected(size, width), "grid-neighbours", "size %d" % size)
    seen, todo = {0}, [0]
    while todo:
        for n in links[todo.pop()]:
            if n not in seen:
                seen.add(n)
                todo.append(n)
    ctx.check(len(seen) == size, "all-reachable", "size %d" % size)
    again = [set(ns) for ns in maker.create(size)]
    ctx.check(again == [set(ns) for ns in links], "same-every-time")
    ctx.observe("links", [sorted(ns) for ns in links])
