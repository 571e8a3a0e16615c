"""C24: fast_nms suppresses the smoothed edge map along its own orientation."""
import math
from symex.harness_common import Case
from .C05 import fade, interp

FUNCTIONS = ["pyEdgeEval.preprocess.nms.fast_nms: fast_nms",
             "pyEdgeEval.preprocess.nms.toolbox: conv_tri, grad2",
             "_lib/nms.pyx: nms (its arguments and any result; itself C05)"]
OUTSIDE = ("images larger than the shape of a case; half precision beyond the argument "
           "types; pixels where a second derivative used by the orientation is nearer "
           "than 1e-6 to zero without being zero")
ASSUMPTIONS = ["strengths and the results of the suppression are real numbers, the "
               "filters have NumPy's double coefficients",
               "an angle is known by its tangent and its range"]
EPS = 1e-6


def tri(a, n, m, r):
    """triangle smoothing of radius r with symmetric borders: list of rows"""
    w = [min(k + 1, 2 * r + 1 - k) / (r + 1) ** 2 for k in range(2 * r + 1)]

    def at(i, n):
        i = i % (2 * n)
        return i if i < n else 2 * n - 1 - i

    def row(f, n):
        out = []
        for i in range(n):
            c = {}
            for k in range(2 * r + 1):
                j = at(i + k - r, n)
                c[j] = c.get(j, 0.0) + w[k]
            s = 0.0
            for j, x in c.items():
                s = s + f(j) * x
            out.append(s)
        return out
    cols = [row(lambda i, j=j: a[i][j], n) for j in range(m)]     # down the columns
    return [row(lambda j, i=i: cols[j][i], m) for i in range(n)]


def grad(a, n, m):
    def d(f, i, n):
        if i == 0:
            return f(1) - f(0)
        if i == n - 1:
            return f(n - 1) - f(n - 2)
        return (f(i + 1) - f(i - 1)) / 2.0
    x = [[d(lambda k: a[i][k], j, m) for j in range(m)] for i in range(n)]
    y = [[d(lambda k: a[k][j], i, n) for j in range(m)] for i in range(n)]
    return x, y


def expected(a, n, m):
    """smoothed map and the second derivatives the orientation is made of"""
    e = tri(a, n, m, 1)
    x, y = grad(tri(e, n, m, 4), n, m)
    xx, _ = grad(x, n, m)
    xy, yy = grad(y, n, m)
    return e, xx, xy, yy


def arguments(ctx, shape, kw, free=None):
    """what the suppression is called with: every real-valued map"""
    P = ctx.mod("pyEdgeEval.preprocess")
    n, m = shape
    img = base(ctx, shape, free and ctx.reals("v", (len(free),), 0, 1), free)
    keep = img.copy()
    e, xx, xy, yy = expected([[keep[i, j] for j in range(m)] for i in range(n)], n, m)
    for i in range(n):
        for j in range(m):
            ctx.assume(ctx.Or(xx[i][j] >= EPS, xx[i][j] <= -EPS))
    got = []

    def stand_in(edge, ori, r, s, mul):
        got.append((edge, ori, r, s, mul))
        got.append(ctx.reals("out", shape, -1, 2))
        return got[1]
    ctx.replace_nms(stand_in)
    out = P.fast_nms(img, **kw)
    ctx.check(len(got) == 2, "one suppression")
    edge, ori, r, s, mul = got[0]
    full = dict(r=1, s=5, m=1.01)
    full.update(kw)
    ctx.check(r == full["r"] and s == full["s"] and abs(mul - full["m"]) < 1e-12,
              "radius, border and multiplier are passed on")
    ctx.check(ctx.And(tuple(edge.shape) == shape, tuple(ori.shape) == shape),
              "same shape")
    ctx.check(ctx.same(out, got[1]), "the suppressed map is returned")
    ctx.check(ctx.same(img, keep), "the input is not changed")
    for i in range(n):
        for j in range(m):
            ctx.check(abs(ctx.trim(edge[i, j] - e[i][j])) <= 1e-9,
                      "the smoothed strength")
            o = ori[i, j]
            ctx.check(ctx.And(o >= 0, o <= math.pi + 1e-9), "an orientation")
            x, y, z = xx[i][j], yy[i][j], xy[i][j]
            for c, a, b in ctx.tangents(o):
                tol = 1e-7 * (1 + abs(a))
                ctx.check(ctx.Implies(ctx.And(c, z >= EPS),
                                      abs(ctx.trim(a * x + y * b)) <= tol),
                          "the orientation across the ridge")
                ctx.check(ctx.Implies(ctx.And(c, z <= -EPS),
                                      abs(ctx.trim(a * x - y * b)) <= tol),
                          "the orientation across the ridge")


def base(ctx, shape, values, free, dtype="float64", scale=1, zero=False):
    np = ctx.np
    n, m = shape
    if free is None:
        return ctx.reals("img", shape, 0, 1)
    img = np.zeros(shape, dtype=dtype)
    for i in range(n):
        for j in range(m):
            img[i, j] = 0 if zero else scale * (
                ((i * 7 + j * 5 + i * j * 3 + i * i * j) % 11) / 10)
    for k, p in enumerate(free):
        img[p] = values[k]
    return img


def result(ctx, shape, u8):
    """the result of the suppression comes back as it is, or in 8 bits"""
    P = ctx.mod("pyEdgeEval.preprocess")
    np = ctx.np
    img = np.zeros(shape) + 0.25
    given = ctx.oneof("out", shape, [-0.25, 0.0, 0.0019, 0.002, 0.25, 0.5, 0.9979, 0.9981,
                                     1.0, 1.0001, 1.75], "float64")
    keep = given.copy()
    ctx.replace_nms(lambda *a: given)
    out = P.fast_nms(img, **({} if u8 is None else dict(return_as_uint8=u8)))
    if not u8:
        ctx.check(ctx.same(out, keep), "the suppressed map is returned")
        return
    ctx.check(out.dtype == np.uint8 and out.shape == shape, "8 bits")

    def right(g, o):
        g = min(max(g, 0.0), 1.0) * 255
        return abs(g - o) <= 0.5 + 1e-9
    for i in range(shape[0]):
        for j in range(shape[1]):
            ctx.check(ctx.judge(right, keep[i, j], out[i, j]),
                      "the nearest of 256 levels of the clipped strength")


def allowed(img, out, r, s, m, tol):
    """is out a result of suppressing img (numbers)?"""
    n, w = img.shape
    e, xx, xy, yy = expected([[float(v) for v in row] for row in img], n, w)
    import numpy as np
    E = np.array(e)
    s = min(s, w // 2, n // 2)
    near = max(EPS, tol)
    for i in range(n):
        for j in range(w):
            f = fade(j, w, s) * fade(i, n, s)
            o, v = float(out[i][j]), E[i, j]
            if abs(o) > tol and abs(o - v * f) > tol:
                return False
            x, y, z = xx[i][j], yy[i][j], xy[i][j]
            if f == 0 or v * f < 4 * tol:
                continue
            if abs(z) < near or abs(x) < near:
                continue            # the orientation turns there
            a = math.atan(-y / x if z > 0 else y / x)
            if abs(y) < near and abs(x) < 100 * near:
                continue
            lost = kept = True
            below = False
            for d in list(range(-r, 0)) + list(range(1, r + 1)):
                g, t = interp(None, E, j + d * math.cos(a), i + d * math.sin(a),
                              near * 100)
                below = below or v * m < g - t
                kept = kept and v * m >= g + t
            if below and abs(o) > tol or kept and abs(o - v * f) > tol:
                return False
    return True


def whole(ctx, shape, free, levels, kw, dtype="float64", scale=1, zero=False):
    """the result of the real suppression, free strengths at some pixels"""
    P = ctx.mod("pyEdgeEval.preprocess")
    v = ctx.oneof("v", (len(free),), levels, dtype)
    img = base(ctx, shape, v, free, dtype, scale, zero)
    keep = img.copy()
    out = P.fast_nms(img, **kw)
    ctx.check(ctx.same(img, keep), "the input is not changed")
    ctx.check(out.shape == shape, "same shape")
    calls = [c for c in ctx.native_calls() if c["fn"] == "nms"]
    ctx.check(len(calls) == 1, "one suppression")
    ori = calls[0]["ori"]
    ctx.check(ctx.And(*[ctx.And(o >= 0, o <= math.pi + 1e-6) for o in ori.ravel()]),
              "an orientation everywhere")
    k = dict(r=1, s=5, m=1.01)
    k.update(kw)
    low = dtype == "float32" or kw.get("half_prec")
    u8 = bool(kw.get("return_as_uint8"))

    def right(i, o):
        return allowed(i / 255.0 if dtype == "uint8" else i, o / 255.0 if u8 else o,
                       k["r"], k["s"], k["m"],
                       0.5 / 255 + 1e-6 if u8 else 1e-5 if low else 1e-9)
    ctx.check(ctx.judge(right, keep, out),
              "zero or the smoothed strength, suppressed across the ridge")


def refused(ctx):
    P = ctx.mod("pyEdgeEval.preprocess")
    np = ctx.np
    t = ctx.pick("type", ["bool", "int32", "int64", "uint16", "int8"])
    img = np.zeros((4, 4), dtype=t)
    ctx.check(ctx.raises(lambda: P.fast_nms(img)) is not None, "refused")


def cases(tier):
    out = []
    deep = tier != "quick"

    def add(name, fn, bounds, **k):
        out.append(Case(name, fn, bounds, **k))
    for sh in [(3, 3), (2, 4), (2, 3)] + ([(3, 4), (4, 3)] if deep else []):
        add(f"arguments {sh}", arguments, "every real-valued map", shape=sh,
            kw=dict(r=2, s=3, m=1.2) if sh == (2, 4) else {})
    for sh, fr in (((5, 6), [(1, 1), (2, 3), (4, 4)]), ((6, 4), [(0, 0), (3, 2)]),
                   ((8, 3), [(4, 1)])):
        add(f"arguments {sh} some", arguments, f"every strength at {fr}", shape=sh,
            free=fr, kw=dict(r=3, s=0, m=1) if sh == (6, 4) else {})
    for u8 in (None, False, True):
        add(f"result u8={u8}", result, "every result over eleven values", shape=(2, 3),
            u8=u8)
    L = [0.0, 0.15, 0.5, 0.8, 1.0]
    B = [0, 40, 128, 200, 255]
    for sh, fr in (((7, 8), [(3, 3), (4, 5)]), ((6, 5), [(2, 2), (3, 2), (0, 4)]),
                   ((12, 5), [(5, 2), (6, 1)]), ((4, 13), [(1, 6), (2, 7)])):
        for kw in (dict(r=1, s=0, m=1.01), dict(r=2, s=2, m=1.0), {},
                   dict(r=1, s=1, m=1.2, return_as_uint8=True),
                   dict(r=1, s=1, m=1.01, half_prec=True)):
            nm = ",".join(f"{a}={b}" for a, b in kw.items())
            add(f"whole {sh} {nm}", whole, f"strengths {L} at {fr}", shape=sh, free=fr,
                levels=L, kw=kw)
        add(f"whole {sh} 8 bits", whole, f"strengths {B} at {fr}", shape=sh, free=fr,
            levels=B, kw=dict(r=1, s=1), dtype="uint8", scale=255)
        add(f"whole {sh} 8 to 8 bits", whole, f"strengths {B} at {fr}", shape=sh,
            free=fr, levels=B, kw=dict(r=1, s=0, return_as_uint8=True), dtype="uint8",
            scale=255)
        add(f"whole {sh} single", whole, f"strengths {L} at {fr}", shape=sh, free=fr,
            levels=L, kw=dict(r=1, s=1), dtype="float32")
        add(f"whole {sh} single half", whole, f"strengths {L} at {fr}", shape=sh,
            free=fr, levels=L, kw=dict(r=1, s=1, half_prec=True), dtype="float32")
        add(f"whole {sh} 8 bits half", whole, f"strengths {B} at {fr}", shape=sh,
            free=fr, levels=B, kw=dict(r=1, s=1, half_prec=True, return_as_uint8=True),
            dtype="uint8", scale=255)
    for sh, fr in (((14, 5), [(2, 2), (1, 3)]), ((16, 17), [(6, 6), (9, 8)]),
                   ((5, 16), [(2, 2), (3, 12)])):
        for kw in (dict(r=1, s=0, m=1.01), dict(r=2, s=3, m=1.1)):
            nm = ",".join(f"{a}={b}" for a, b in kw.items())
            add(f"whole {sh} empty {nm}", whole, f"strengths {L} at {fr}, zero elsewhere",
                shape=sh, free=fr, levels=L, kw=kw, zero=True)
    add("refused types", refused, "five types")
    return out
