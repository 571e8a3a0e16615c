"""C01: the pixel matching is a one-to-one correspondence within tolerance."""
import numpy as real_np

from symex.harness_common import Case

BUDGET = {"quick": 420, "thorough": 2400}
FUNCTIONS = ["_lib/correspond_pixels.pyx: correspond_pixels, _correspond_pixels",
             "_lib/src/match.cc: matchEdgeMaps", "_lib/include/csa.hh, src/csa.cc: CSA",
             "_lib/src/kofn.cc: kOfN", "_lib/src/Matrix.cc: Matrix"]
OUTSIDE = "images larger than the shape of a case; tolerances outside those listed"
TECHNIQUE = ("bounded symbolic execution of the LLVM IR that clang makes of the current "
             "C++ sources (and of the translated .pyx wrapper), decided by Z3, "
             "counterexamples replayed on the freshly built extension")
ASSUMPTIONS = ["clang's LLVM IR (-O2) of the sources stands for the program",
               "the random numbers are any reals in [0, 1-2^-48] for the stated number "
               "of draws, a fixed sequence afterwards"]


def maps(ctx, shape, kind, fixed=(None, None), free=(None, None)):
    """the two maps: free pixels, or a fixed layout in which the pixels listed in
    free are symbolic"""
    def one(name, i):
        if fixed[i] is None and free[i] is None:
            if kind == "bool":
                return ctx.bools(name, shape)
            if kind == "uint8":
                return ctx.oneof(name, shape, [0, 1, 255], "uint8")
            if kind == "real":
                return ctx.reals(name, shape, -1, 2)
            return ctx.bools(name, shape, kind)
        m = ctx.np.zeros(shape, dtype="float64")
        for y in range(shape[0]):
            for x in range(shape[1]):
                if fixed[i] is not None and (y, x) in fixed[i]:
                    m[y, x] = 1.0
        for y, x in free[i] or ():
            m[y, x] = ctx.bools(f"{name}{y}_{x}", (1,), "float64")[0]
        return m
    return one("a", 0), one("b", 1)


def tolerance(ctx, shape, dist):
    diag = float(real_np.hypot(*shape))
    if isinstance(dist, tuple):
        d = ctx.real("tol", dist[0], dist[1])      # in pixels
        return d, d / diag
    return dist, dist / diag


def sound(ctx, shape, kind="bool", dist=None, fixed=(None, None), free=(None, None),
          draws=40, oc=100.0):
    ctx.stream(draws)
    match = ctx.native("correspond_pixels")
    h, w = shape
    a, b = maps(ctx, shape, kind, fixed, free)
    d, tol = tolerance(ctx, shape, dist)
    a0, b0 = a.copy(), b.copy()
    o0, o1, cost, out = match(a, b, max_dist=tol, outlier_cost=oc)
    ctx.check(ctx.And(ctx.same(a, a0), ctx.same(b, b0)), "the inputs are not changed")
    ctx.check(o0.shape == shape and o1.shape == shape, "the shape is kept")
    M0 = [[int(ctx.fork(o0[y, x])) for x in range(w)] for y in range(h)]
    M1 = [[int(ctx.fork(o1[y, x])) for x in range(w)] for y in range(h)]
    n0 = n1 = 0
    for y in range(h):
        for x in range(w):
            for M, N, s, t in ((M0, M1, a, b), (M1, M0, b, a)):
                v = M[y][x]
                if v == 0:
                    continue
                ctx.check(0 < v <= h * w, "the partner is a pixel of the image")
                px, py = divmod(v - 1, h)
                ctx.check(ctx.truth(s[y, x] != 0), "only edge pixels are matched")
                ctx.check(ctx.truth(t[py, px] != 0), "the partner is an edge pixel")
                d2 = (x - px) ** 2 + (y - py) ** 2
                ctx.check(d2 <= d * d + 1e-9, "no pair is farther apart than the "
                          "tolerance")
                ctx.check(N[py][px] == x * h + y + 1, "both maps name each other")
            n0 += M0[y][x] != 0
            n1 += M1[y][x] != 0
    ctx.check(n0 == n1, "equally many matched pixels")


def refused(ctx, how):
    match = ctx.native("correspond_pixels")
    a = ctx.bools("a", (2, 2))
    b = ctx.bools("b", (2, 3) if how == "shape" else (2, 2))
    k = dict(max_dist=0.5, outlier_cost=10.0)
    if how == "dist":
        k["max_dist"] = ctx.real("d", -1, 0)
    if how == "cost":
        k["outlier_cost"] = ctx.real("c", -5, 1)
    ctx.check(ctx.raises(lambda: match(a, b, **k), ValueError), "refused")


def grid(h, w):
    return [(y, x) for y in range(h) for x in range(w)]


# fixed first maps of 3x3 images
THREE = {"row": [(1, 0), (1, 1), (1, 2)], "corner": [(0, 0), (0, 1), (1, 0)],
         "cross": [(0, 1), (1, 0), (1, 1), (1, 2), (2, 1)],
         "diagonal": [(0, 0), (1, 1), (2, 2)],
         "ring": [p for p in grid(3, 3) if p != (1, 1)], "full": grid(3, 3)}


def cases(tier):
    out = []
    q = tier == "quick"

    def add(name, shape, dist, bounds, **k):
        k.setdefault("prio", shape[0] * shape[1])
        k.setdefault("every", 400)
        out.append(Case(name, sound, bounds, reuse=True, shape=shape, dist=dist, **k))
    shapes = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (1, 4), (4, 1), (2, 2), (1, 5)]
    for s in shapes:
        for d in (0.5, 1.0, 1.5, 2.0, 3.0):
            add(f"all {s[0]}x{s[1]} d={d}", s, d, f"all pairs of {s[0]}x{s[1]} maps, "
                f"tolerance {d} pixels")
    for s, ds in (((2, 3), (1.5,)), ((3, 2), (1.0, 2.5)), ((1, 6), (2.0,)),
                  ((6, 1), ())):
        for d in ds if q else (0.5, 1.0, 1.5, 2.0, 2.5, 3.0):
            add(f"all {s[0]}x{s[1]} d={d}", s, d, f"all pairs of {s[0]}x{s[1]} maps, "
                f"tolerance {d} pixels", prio=100)
    if not q:
        for s, d in (((1, 7), 2.0), ((7, 1), 3.0)):
            add(f"all {s[0]}x{s[1]} d={d}", s, d, f"all pairs of {s[0]}x{s[1]} maps, "
                f"tolerance {d} pixels", prio=200)
    # symbolic tolerance
    for s, lo, hi in (((1, 1), 0.01, 4), ((1, 2), 0.3, 2.2), ((2, 1), 0.3, 2.2)):
        add(f"any tolerance {s[0]}x{s[1]}", s, (lo, hi), f"all pairs of {s[0]}x{s[1]} "
            f"maps, every tolerance of {lo} to {hi} pixels", prio=150)
    for lo, hi in ((0.95, 1.1), (1.35, 1.5), (1.95, 2.05)) if q else (
            (0.3, 0.95), (0.95, 1.1), (1.1, 1.35), (1.35, 1.5), (1.5, 1.95),
            (1.95, 2.05)):
        add(f"any tolerance 2x2 from {lo}", (2, 2), (lo, hi), "2x2: two and three edge "
            f"pixels, every tolerance of {lo} to {hi} pixels", prio=150,
            fixed=([(0, 0), (1, 1)], [(0, 0), (0, 1), (1, 0)]))
    # element types and outlier costs
    for kind in ("uint8", "real", "int32", "float32", "uint16"):
        for s in ((1, 3), (2, 2)) if q else ((1, 3), (2, 2), (1, 4)):
            add(f"{kind} {s[0]}x{s[1]}", s, 1.5, f"all pairs of {s[0]}x{s[1]} {kind} "
                "maps, tolerance 1.5", kind=kind)
    for oc in (1.01, 1.5, 3.0, 1000.0):
        for d in (1.0, 1.6):
            add(f"outlier cost {oc} d={d}", (2, 2), d, f"all pairs of 2x2 maps, outlier "
                f"cost {oc}, tolerance {d} pixels", oc=oc)
        if not q:
            add(f"outlier cost {oc} 2x3", (2, 3), 1.5, "all pairs of 2x3 maps, outlier "
                f"cost {oc}, tolerance 1.5", oc=oc, prio=100)
    # 3x3: one map fixed, the other free
    for nm, f in THREE.items():
        for i in (0, 1):
            for d in ((1.0, 1.5) if i == 0 else (2.3, 3.0)) if q else (1., 1.5, 2., 2.3, 3.):
                if q and nm in ("ring", "full") and d == (1.0 if nm == "ring" else 1.5):
                    continue
                k = dict(fixed=((f, None), (None, f))[i])
                add(f"3x3 {nm} {'ab'[i]} d={d}", (3, 3), d, f"3x3: map {'ab'[i]} fixed, "
                    f"every pixel of the other free, tolerance {d}, three free draws",
                    draws=3, prio=60, **k)
    # sparse larger images: positions and column-major numbering
    for h, w in ((2, 9), (9, 2), (3, 7), (7, 4), (1, 20), (12, 1)):
        fx = ([(0, 0), (h - 1, w - 1)], [(h // 2, w // 2)])
        fr = ([(h // 2, w // 2), (0, w - 1), (h - 1, 0)],
              [(0, 0), (h - 1, w - 1), (min(1, h - 1), min(1, w - 1)),
               (max(0, h - 2), max(0, w - 2))])
        for d in (1.5, 2.5, 5.0) if q else (1.0, 1.5, 2.0, 2.5, 3.0, 5.0, 7.0):
            add(f"sparse {h}x{w} d={d}", (h, w), d, f"{h}x{w}: two and one fixed pixels, "
                f"three and four free ones, tolerance {d}", fixed=fx, free=fr, prio=50)
    # more than seven matchable pixels on a side: the random outlier graph
    for nm, s, d in (("2x4", (2, 4), 1.0), ("1x8", (1, 8), 1.0), ("8x1", (8, 1), 2.0),
                     ("3x3", (3, 3), 1.5), ("1x9", (1, 9), 3.0)):
        g = grid(*s)
        for m, fr in (("same", (None, [g[0], g[-1]])),
                      ("free ends", ([g[0], g[3]], [g[-1]]))):
            add(f"many {nm} {m}", s, d, f"{s[0]}x{s[1]}: all pixels set except "
                f"{len(fr[0] or ())}+{len(fr[1])} free ones, {7 if q else 10} free draws, "
                f"tolerance {d}", fixed=(g, g), free=fr, draws=7 if q else 10, prio=80)
    for how in ("shape", "dist", "cost"):
        out.append(Case(f"refuses {how}", refused, f"2x2 maps; {how} not valid",
                        reuse=True, how=how))
    return out
