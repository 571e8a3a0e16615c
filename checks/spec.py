"""oracles shared by several checks (written on the ctx interface only)"""
import math


def band(ctx, region, ignored, radius, internal=False, present=True):
    """pixels whose distance to the region plus distance to a pixel outside both
    region and ignored is at most radius; dict (i, j) -> formula"""
    h, w = region.shape
    px = [(i, j) for i in range(h) for j in range(w)]
    reg = {p: ctx.truth(region[p]) for p in px}
    ign = {p: ctx.truth(ignored[p]) for p in px}
    out = {p: ctx.Not(ctx.Or(reg[p], ign[p])) for p in px}
    d = lambda p, q: math.hypot(p[0] - q[0], p[1] - q[1])
    k = int(radius + 1)
    near = {(i, j): [(a, b) for a in range(max(0, i - k), min(h, i + k + 1))
                     for b in range(max(0, j - k), min(w, j + k + 1))
                     if math.hypot(a - i, b - j) <= radius + 1e-6]
            for i, j in px}
    res = {}
    for p in px:
        if internal:
            res[p] = ctx.And(ctx.Or(reg[p], ign[p]), ctx.Or(*[
                out[r] for r in near[p] if r != p]))
            continue
        terms = []
        for q in near[p]:
            dq = d(p, q)
            if reg[q] is False:
                continue
            rs = [out[r] for r in near[p] if dq + d(p, r) <= radius + 1e-6 and r != q
                  and out[r] is not False]
            if rs:
                terms.append(ctx.And(reg[q], ctx.Or(*rs)))
        res[p] = ctx.Or(*terms) if terms else False
    return res


def as_array(ctx, d, shape, dtype="uint8"):
    np = ctx.np
    return np.array([[ctx.If(d[i, j], 1, 0) for j in range(shape[1])]
                     for i in range(shape[0])]).astype(dtype)


def matched(ctx, a, b, max_dist):
    """(matched pixels of a, of b) in one correspondence within max_dist"""
    h, w = a.shape
    if max_dist * math.hypot(h, w) < 1 - 1e-9:
        both = (a != 0) & (b != 0)         # only coinciding pixels can match
        return both, both
    f = ctx.mod("pyEdgeEval._lib").correspond_pixels
    m = f(a != 0, b != 0, max_dist=max_dist)
    return m[0] > 0, m[1] > 0


def count(x):
    return (x != 0).sum()


def pattern(ctx, name, rows, dtype):
    """'#' set, '.' clear, '?' symbolic"""
    h, w = len(rows), len(rows[0])
    q = [(i, j) for i in range(h) for j in range(w) if rows[i][j] == "?"]
    b = ctx.bools(name, (len(q),), dtype) if q else []
    np = ctx.np
    a = np.array([[int(c == "#") for c in r] for r in rows]).astype(dtype)
    for k, p in enumerate(q):
        a[p] = b[k]
    return a
