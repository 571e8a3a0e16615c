"""C02: the pixel matching is optimal on small instances and reports its cost."""
import itertools
import math

from checks.C01 import grid, maps, tolerance
from symex.harness_common import Case

BUDGET = {"quick": 420, "thorough": 2400}
FUNCTIONS = ["_lib/correspond_pixels.pyx: correspond_pixels, _correspond_pixels",
             "_lib/src/match.cc: matchEdgeMaps", "_lib/include/csa.hh, src/csa.cc: CSA",
             "_lib/src/kofn.cc: kOfN", "_lib/src/Matrix.cc: Matrix"]
OUTSIDE = ("images larger than the shape of a case; more than six edge pixels per map; "
           "outlier costs above 200000 pixels (integer range of the solver)")
TECHNIQUE = ("bounded symbolic execution of the LLVM IR that clang makes of the current "
             "C++ sources (and of the translated .pyx wrapper), decided by Z3, "
             "counterexamples replayed on the freshly built extension")
ASSUMPTIONS = ["clang's LLVM IR (-O2) of the sources stands for the program",
               "the random numbers are any reals in [0, 1-2^-48]"]


def best(A, B, d):
    """(pairs, total distance) of the best correspondence: most pairs within d, then
    the smallest total; dynamic programming over the pixels of A and subsets of B"""
    f = {0: (0, 0.0)}
    for y, x in A:
        g = dict(f)
        for used, (n, t) in f.items():
            for j, (py, px) in enumerate(B):
                e = math.hypot(y - py, x - px)
                if used >> j & 1 or e > d + 1e-9:
                    continue
                u, v = used | 1 << j, (n + 1, t + e)
                if u not in g or (-v[0], v[1]) < (-g[u][0], g[u][1]):
                    g[u] = v
        f = g
    n = max(v[0] for v in f.values())
    return n, min(v[1] for v in f.values() if v[0] == n)


def optimal(ctx, shape, dist, fixed=(None, None), free=(None, None), oc=100.0,
            draws=200, kind="bool", most=6, equal=False):
    ctx.stream(draws)
    match = ctx.native("correspond_pixels")
    h, w = shape
    a, b = maps(ctx, shape, kind, fixed, free)
    if equal:
        b = a.copy()
    for m in (a, b):
        if h * w > most:
            n = sum(ctx.If(ctx.truth(m[p] != 0), 1, 0) for p in grid(h, w))
            ctx.assume(n <= most)
    d, tol = tolerance(ctx, shape, dist)
    if isinstance(dist, tuple):
        # the product of tolerance and diagonal is rounded: stay off the steps
        for r in sorted({x * x + y * y for x in range(w) for y in range(h)} - {0}):
            ctx.assume(abs(d - math.sqrt(r)) > 1e-9)
    o0, o1, cost, out = match(a, b, max_dist=tol, outlier_cost=oc)
    A, B = [[p for p in grid(h, w) if ctx.fork(m[p] != 0)] for m in (a, b)]
    pairs, total = 0, 0.0
    for y, x in grid(h, w):
        v = int(ctx.fork(o0[y, x]))
        if v:
            px, py = divmod(v - 1, h)
            pairs += 1
            total += math.hypot(y - py, x - px)
    n, t = best(A, B, d)
    ctx.check(pairs == n, "as few pixels as possible stay unmatched")
    ctx.check(total <= t + 0.01 * max(n, 1) + 1e-9, "smallest total distance")
    e = oc * d
    ctx.check(abs(out - e) <= 1e-9 * (1 + e), "the outlier cost is reported in pixels")
    c = total + e * (len(A) + len(B) - 2 * pairs)
    ctx.check(abs(cost - c) <= 1e-9 * (1 + c), "cost: distances plus outliers")
    if equal:
        ctx.check(cost == 0, "identical maps cost nothing")
        ctx.check(pairs == len(A), "identical maps match completely")


def assign(ctx, n, arcs, symbolic, lo, hi):
    """the assignment solver on a graph whose costs are partly symbolic"""
    costs = []
    for i, (u, v, c) in enumerate(arcs):
        costs.append(ctx.int(f"c{i}", lo, hi) if i in symbolic else c)
    # the graphs of the matching always have an arc of positive cost
    ctx.assume(ctx.Or(*[c > 0 for c in costs]))
    k, res = ctx.csa(n, [(u, n + v, c) for (u, v, _), c in zip(arcs, costs)])
    ctx.check(k == n, "as many edges as nodes on a side")
    got = 0
    rows, cols = [], []
    for a, b, c in res:
        a, b = int(ctx.fork(a)), int(ctx.fork(b))
        i = [j for j, (u, v, _) in enumerate(arcs) if (u, n + v) == (a, b)]
        ctx.check(len(i) == 1, "an edge of the graph")
        ctx.check(c == costs[i[0]], "with its cost")
        got = got + costs[i[0]]
        rows.append(a)
        cols.append(b)
    ctx.check(len(set(rows)) == n and len(set(cols)) == n, "every node once")
    at = {(u, v): c for (u, v, _), c in zip(arcs, costs)}
    for p in itertools.permutations(range(1, n + 1)):
        es = [(u + 1, v) for u, v in enumerate(p)]
        if all(e in at for e in es):
            ctx.check(got <= sum(at[e] for e in es), "no assignment is cheaper")


# layouts of larger images: greedy choices are wrong, ties, crossing pairs
LAYOUTS = {
    "chain": ((1, 8), [(0, 0), (0, 2), (0, 4)], [(0, 1), (0, 3), (0, 5)]),
    "chain back": ((8, 1), [(1, 0), (3, 0), (5, 0)], [(0, 0), (2, 0), (4, 0)]),
    "star": ((3, 4), [(1, 1)], [(0, 1), (1, 0), (1, 2), (2, 1)]),
    "cross": ((4, 4), [(0, 0), (3, 3), (1, 2)], [(0, 1), (2, 2), (2, 1)]),
    "diagonal": ((4, 5), [(0, 0), (1, 1), (2, 2), (3, 3)],
                 [(0, 1), (1, 2), (2, 3), (3, 4)]),
    "augment": ((2, 6), [(0, 1), (0, 3), (1, 2)], [(0, 2), (1, 3), (0, 0), (0, 5)]),
}


def cases(tier):
    out = []
    q = tier == "quick"

    def add(name, shape, dist, bounds, **k):
        k.setdefault("prio", shape[0] * shape[1])
        k.setdefault("every", 400)
        out.append(Case(name, optimal, bounds, reuse=True, shape=shape, dist=dist, **k))
    for s in [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (1, 4), (4, 1), (2, 2), (1, 5),
              (5, 1)]:
        for d in (0.5, 1.0, 1.5, 2.0, 3.0, 4.0):
            if s == (5, 1) and q and d != 2.0:
                continue
            add(f"all {s[0]}x{s[1]} d={d}", s, d, f"all pairs of {s[0]}x{s[1]} maps, "
                f"tolerance {d} pixels")
    for s, ds in (((2, 3), (1.0, 2.5)), ((3, 2), (1.5,)), ((1, 6), (3.0,)),
                  ((6, 1), ())):
        for d in ds if q else (0.5, 1.0, 1.5, 2.0, 2.5, 3.0, 4.0):
            add(f"all {s[0]}x{s[1]} d={d}", s, d, f"all pairs of {s[0]}x{s[1]} maps, "
                f"tolerance {d} pixels", prio=100)
    for s in ((1, 1), (2, 2), (2, 3), (1, 6), (3, 3), (2, 4)):
        for d in (0.5, 1.0, 1.5, 3.0):
            add(f"equal {s[0]}x{s[1]} d={d}", s, d, f"all {s[0]}x{s[1]} maps of up to six "
                f"edge pixels against themselves, tolerance {d}", equal=True)
    # every pixel of the map set: the most outlier connections, all streams
    for s, d in (((1, 6), 1.0), ((1, 6), 2.5), ((2, 3), 1.5), ((1, 5), 1.0), ((5, 1), 3.0),
                 ((2, 2), 1.0)):
        g = grid(*s)
        for nm, f in (("full", (g, g)), ("odd", (g, g[::2])), ("last", (g[1:], g))):
            add(f"{nm} {s[0]}x{s[1]} d={d}", s, d, f"{s[0]}x{s[1]}: {len(f[0])} and "
                f"{len(f[1])} fixed pixels, tolerance {d}", fixed=f, prio=400)
    for lo, hi in ((0.95, 1.1), (1.35, 1.5)):
        add(f"any tolerance 2x2 from {lo}", (2, 2), (lo, hi), "2x2: two and three edge "
            f"pixels, every tolerance of {lo} to {hi} pixels", prio=150,
            fixed=([(0, 0), (1, 1)], [(0, 0), (0, 1), (1, 0)]))
    for oc in (7.0, 13.37, 1000.0, 60000.0):
        for s, d in (((2, 2), 1.0), ((1, 4), 2.2), ((2, 2), 1.7)):
            add(f"outlier cost {oc} {s[0]}x{s[1]} d={d}", s, d, f"all pairs of "
                f"{s[0]}x{s[1]} maps, outlier cost {oc}, tolerance {d}", oc=oc)
    for kind in ("real", "uint8"):
        for s in ((1, 3), (2, 2)):
            add(f"{kind} {s[0]}x{s[1]}", s, 1.5, f"all pairs of {s[0]}x{s[1]} {kind} "
                "maps, tolerance 1.5", kind=kind)
    # 3x3: one map fixed, the other free up to six pixels
    three = {"row": [(1, 0), (1, 1), (1, 2)], "corner": [(0, 0), (0, 1), (1, 0)],
             "cross": [(0, 1), (1, 0), (1, 1), (1, 2), (2, 1)],
             "diagonal": [(0, 0), (1, 1), (2, 2)],
             "two rows": [(0, 0), (0, 1), (0, 2), (2, 0), (2, 1), (2, 2)]}
    for nm, f in three.items():
        for i in (0, 1):
            for d in ((1.0, 3.0) if i == 0 else (1.5,)) if q else (1., 1.5, 2., 2.3, 3.):
                add(f"3x3 {nm} {'ab'[i]} d={d}", (3, 3), d, f"3x3: map {'ab'[i]} fixed, "
                    f"the other any of up to six edge pixels, tolerance {d}", prio=60,
                    fixed=((f, None), (None, f))[i])
    for nm, (s, f, g) in LAYOUTS.items():
        fr = [p for p in grid(*s) if p not in f and p not in g]
        for i in (0, 1):
            for d in ((2.0,) if i else (1.0, 1.5, 3.7)) if q else (
                    1., 1.5, 2., 2.5, 3., 3.7, 6.):
                more = fr[::3] if i else fr[1::3]
                add(f"{nm} {'ab'[i]} d={d}", s, d, f"{s[0]}x{s[1]}: a listed layout with "
                    f"{len(g if not i else f)}+{len(more)} free pixels in one map, "
                    f"tolerance {d}", prio=70,
                    fixed=((f, None), (None, g))[i],
                    free=((None, g + more), (f + more, None))[i])
    # the solver alone, symbolic costs
    two = [(i, j, 0) for i in (1, 2) for j in (1, 2)]
    tri = [(i, j, 10 * i + 7 * j) for i in (1, 2, 3) for j in (1, 2, 3)]
    C = 1000
    for c in (10,) if q else (10, 20):
        out.append(Case(f"assignment 2x2 to {c}", assign, f"complete 2x2 graph, every "
                        f"cost of 0 to {c}", n=2, arcs=two, symbolic=range(4), lo=0,
                        hi=c, prio=300))
    for k in range(4):
        sy = [k, (k + 4) % 9, (k + 2) % 9][:2 if q and k else 3]
        out.append(Case(f"assignment 3x3 {k}", assign, f"complete 3x3 graph, {len(sy)} "
                        f"costs of 0 to {C} symbolic", n=3, arcs=tri, symbolic=sy, lo=0,
                        hi=C, prio=300))
    four = [(i, j, (37 * i + 11 * j * j) % 50) for i in (1, 2, 3, 4) for j in (1, 2, 3, 4)
            if (i, j) not in ((1, 3), (4, 2), (2, 1))]
    for k in range(3):
        sy = [k, k + 4, k + 9][:2 if q else 3]
        out.append(Case(f"assignment 4x4 {k}", assign, f"4x4 graph of 13 arcs, {len(sy)} "
                        f"costs of 0 to {C} symbolic", n=4, arcs=four, symbolic=sy, lo=0,
                        hi=C, prio=300))
    return out
