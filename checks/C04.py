"""C04: thinning removes only redundant pixels and runs to a fixed point."""
from symex.harness_common import Case

FUNCTIONS = ["pyEdgeEval.preprocess.thin.thin: binary_thin and its table builders",
             "pyEdgeEval.preprocess.thin.bwmorph_thin: bwmorph_thin, G123_LUT, "
             "G123P_LUT"]
OUTSIDE = "images larger than the shape of a case"
ASSUMPTIONS = ["scipy.ndimage.correlate with a constant border is the documented "
               "neighbourhood sum (modelled, validated against scipy at setup)"]


def reach(ctx, img):
    """8-connectivity closure over the set pixels: dict of formulas"""
    h, w = img.shape
    px = [(i, j) for i in range(h) for j in range(w)]
    on = {p: ctx.truth(img[p]) for p in px}
    r = {}
    for p in px:
        for q in px:
            if p == q:
                r[p, q] = on[p]
            elif max(abs(p[0] - q[0]), abs(p[1] - q[1])) == 1:
                r[p, q] = ctx.And(on[p], on[q])
            else:
                r[p, q] = False
    for k in px:
        for p in px:
            for q in px:
                if q > p and k != p and k != q:
                    a = r[min(p, k), max(p, k)]
                    b = r[min(k, q), max(k, q)]
                    if a is False or b is False:
                        continue
                    r[p, q] = ctx.Or(r[p, q], ctx.And(a, b))
    return px, on, {(p, q): r[min(p, q), max(p, q)] for p in px for q in px}


def image(ctx, shape, kind):
    if kind == "bool":
        return ctx.bools("x", shape)
    if kind == "uint8":
        return ctx.bools("x", shape, "uint8")
    if kind == "255":
        return ctx.oneof("x", shape, [0, 1, 255], "uint8")
    if kind == "float":
        return ctx.oneof("x", shape, [0.0, 0.25, 1.0, -1.0], "float64")
    return ctx.oneof("x", shape, [0, 256, -1], "int64")


def topology(ctx, shape, kind, conn=True):
    M = ctx.mod("pyEdgeEval.preprocess")
    x = image(ctx, shape, kind)
    src = (x != 0)
    t = M.binary_thin(x)
    ctx.check(t.dtype == bool, "the result is boolean")
    ctx.check(t.shape == tuple(shape), "the shape is kept")
    ctx.check(ctx.And(~t | src), "only set pixels remain")
    ctx.check(ctx.same(M.binary_thin(t), t), "the result is a fixed point")
    if not conn:
        return
    px, on, rin = reach(ctx, src)
    _, ton, rout = reach(ctx, t)
    for p in px:
        ctx.check(ctx.Implies(on[p], ctx.Or(*[
            ctx.And(ton[q], rin[p, q]) for q in px])),
            "every component keeps a pixel")
        for q in px:
            if p < q:
                ctx.check(ctx.Implies(ctx.And(ton[p], ton[q], rin[p, q]),
                                      rout[p, q]), "components are not split")


def agree(ctx, shape, kind):
    M = ctx.mod("pyEdgeEval.preprocess")
    x = image(ctx, shape, kind)
    y = x.copy()
    a, b = M.binary_thin(x), M.bwmorph_thin(y)
    ctx.check(b.dtype == bool, "the result is boolean")
    ctx.check(b.shape == tuple(shape), "the shape is kept")
    ctx.check(ctx.same(a, b), "both functions return the same image")


def limits(ctx, shape, kmax):
    M = ctx.mod("pyEdgeEval.preprocess")
    x = ctx.bools("x", shape)
    ctx.check(ctx.same(M.binary_thin(x, max_iter=0), x), "no iteration, no change")
    prev = x
    for k in range(1, kmax + 1):
        a = M.binary_thin(x, max_iter=k)
        one = M.binary_thin(prev, max_iter=1)
        ctx.check(ctx.same(a, one), "limit k is one more iteration than k-1")
        b = M.bwmorph_thin(x, n_iter=k)
        ctx.check(ctx.same(a, b), "both functions agree at every limit")
        prev = a
    ctx.check(ctx.Implies(ctx.same(M.binary_thin(prev, max_iter=1), prev),
                          ctx.same(M.binary_thin(x), prev)),
              "without a limit it ends where an iteration changes nothing")


def cases(tier):
    out = []
    q = tier == "quick"
    shapes = [(1, 1), (1, 4), (4, 1), (2, 3), (3, 3), (3, 4), (4, 3)]
    shapes += [(2, 6), (4, 4)] if q else [(4, 4), (3, 5), (5, 3), (2, 7), (4, 5),
                                          (5, 4), (5, 5)]
    for s in shapes:
        n = s[0] * s[1]
        out.append(Case(f"topology {s[0]}x{s[1]}", topology,
                        f"all {s[0]}x{s[1]} boolean images", shape=s, kind="bool",
                        prio=n))
        out.append(Case(f"agree {s[0]}x{s[1]}", agree,
                        f"all {s[0]}x{s[1]} boolean images", shape=s, kind="bool",
                        prio=n))
        out.append(Case(f"limits {s[0]}x{s[1]}", limits,
                        f"all {s[0]}x{s[1]} boolean images, limits 0..2", shape=s,
                        kmax=2 if q else 3, prio=n))
    for k in ("uint8", "255", "float", "int"):
        out.append(Case(f"values {k}", topology, f"3x3 images of type {k}",
                        shape=(3, 3), kind=k))
    out.append(Case("agree uint8", agree, "3x4 images of 0/1 bytes", shape=(3, 4),
                    kind="uint8"))
    return out
