"""C13: mask boundaries are exactly the band within the radius of a label change."""
from symex.harness_common import Case
from checks import spec

FUNCTIONS = ["pyEdgeEval.utils.distance_transforms: mask2bdry, cv2_mask2bdry, "
             "scipy_mask2bdry, mask2internal",
             "pyEdgeEval.edge_tools.mask2edge_loop: loop_mask2edge",
             "pyEdgeEval.edge_tools.transforms: mask2edge, Mask2Edge"]
OUTSIDE = ("images larger than the shape of a case; non-integer radii; the "
           "approximate cv2 masks (quality 3 and 5)")
ASSUMPTIONS = ["cv2 (quality 0) and scipy return exact Euclidean distances: the value "
               "at a pixel is the least of the library's own distances to each zero"]


def bdry(ctx, shape, radius, cv2, internal, dtype):
    U = ctx.mod("pyEdgeEval.utils")
    m = ctx.bools("m", shape, dtype)
    ig = ctx.bools("g", shape, "uint8")
    src, isrc = m != 0, ig != 0
    r = U.mask2bdry(mask=m, ignore_mask=ig, radius=radius, use_cv2=cv2,
                    internal_only=internal, quality=0)
    ctx.check(r.shape == shape, "same shape")
    want = spec.band(ctx, src, isrc, radius, internal)
    for p in want:
        ctx.check(ctx.Iff(r[p] != 0, want[p]), "exactly the band")
        ctx.check(ctx.Or(r[p] == 0, r[p] == 1), "0 or 1")
    ctx.check(ctx.And(ctx.same(m != 0, src), ctx.same(ig != 0, isrc)),
              "arguments are not changed")


def labels(ctx, shape, k, ignore, radius, cv2, thin, internal, via, skip=None):
    E = ctx.mod("pyEdgeEval.edge_tools")
    lab = ctx.ints("lab", shape, 0, k - 1, "uint8")
    if skip is not None:
        ctx.assume(ctx.And(lab != skip))
    np = ctx.np
    mask = np.array([(lab == i) for i in range(k)]).astype("uint8")
    kw = dict(mask=mask, ignore_indices=list(ignore), radius=radius, thin=thin,
              internal_only=internal, use_cv2=cv2)
    if via == "loop":
        e = E.loop_mask2edge(**kw)
    else:
        e = E.mask2edge(run_type="loop", instance_sensitive=False, **kw)
    ctx.check(e.shape == (k,) + shape, "one map per label")
    verify(ctx, lab, e, k, ignore, radius, thin, internal, shape)


def verify(ctx, lab, e, k, ignore, radius, thin, internal, shape):
    ign = (lab == -1)
    for i in ignore:
        ign = ign | (lab == i)
    for i in range(k):
        reg = lab == i
        if i in ignore:
            ctx.check(ctx.And(e[i] == 0), "ignored labels get no edges")
            continue
        # a label that does not occur gets none
        here = ctx.Or(*[reg[p] for p in _px(shape)])
        want = spec.band(ctx, reg, ign, radius, internal)
        want = {p: ctx.And(here, want[p]) for p in want}
        if thin:
            t = ctx.mod("pyEdgeEval.preprocess").binary_thin(
                spec.as_array(ctx, want, shape))
            want = {p: t[p] for p in want}
        for p in want:
            ctx.check(ctx.Iff(e[i][p] != 0, want[p]), "exactly the band of the label")


def _px(shape):
    return [(i, j) for i in range(shape[0]) for j in range(shape[1])]


def transform(ctx, shape, radius, cv2, remap):
    E = ctx.mod("pyEdgeEval.edge_tools")
    ids = [4, 0, 7]
    ignore = [1]                      # index into ids: label 0
    mp = {0: 2, 1: 0, 2: 1} if remap else None
    k = ctx.ints("k", shape, 0, 2, "uint8")
    np = ctx.np
    lab = np.where(k == 0, 4, np.where(k == 1, 0, 7)).astype("uint8")
    f = E.Mask2Edge(labelIds=ids, ignore_indices=ignore, label2trainId=mp,
                    radius=radius, use_cv2=cv2)
    res = f(lab)
    e, m = res["edge"], res["mask"]
    if remap:
        e = np.array([e[2], e[0], e[1]])
        ctx.check(ctx.same(m, np.where(lab == 0, 2, 255).astype("uint8")),
                  "mask in training ids")
    else:
        ctx.check(ctx.same(m, lab), "mask is kept")
    verify(ctx, k, e, 3, ignore, radius, False, False, shape)


def cases(tier):
    q = tier == "quick"
    out = []
    shapes = [(1, 1), (1, 5), (3, 3), (2, 4)] if q else [
        (1, 1), (1, 7), (5, 1), (3, 3), (2, 5), (3, 4), (4, 4)]
    for s in shapes:
        for r in ((1, 2) if q else (1, 2, 3)):
            for cv in (True, False):
                for internal in (False, True):
                    if q and internal and s == (1, 1):
                        continue
                    out.append(Case(
                        f"mask2bdry {s} r{r} {'cv2' if cv else 'scipy'}"
                        f"{' inner' if internal else ''}", bdry,
                        f"every {s} mask and ignore mask, radius {r}", shape=s,
                        radius=r, cv2=cv, internal=internal,
                        dtype="uint8", prio=s[0] * s[1]))
    out.append(Case("mask2bdry bool", bdry, "every 2x3 boolean mask", shape=(2, 3),
                    radius=2, cv2=True, internal=False, dtype="bool"))
    out.append(Case("mask2bdry r5", bdry, "every 1x9 mask", shape=(1, 9),
                    radius=5, cv2=True, internal=False, dtype="uint8"))
    sh = (2, 3) if q else (3, 3)
    for cv in (True, False):
        for thin in (False, True):
            for internal in (False, True):
                out.append(Case(
                    f"labels {'cv2' if cv else 'scipy'}{' thin' if thin else ''}"
                    f"{' inner' if internal else ''}", labels,
                    f"every {sh} image of 4 labels, one ignored", shape=sh, k=4,
                    ignore=[2], radius=1 if thin else 2, cv2=cv, thin=thin,
                    internal=internal, via="loop", prio=8))
    out.append(Case("labels two ignored", labels, f"every {sh} image, 4 labels",
                    shape=sh, k=4, ignore=[2, 3], radius=2, cv2=True, thin=False,
                    internal=False, via="mask2edge", prio=8))
    out.append(Case("labels none ignored thin", labels, "every 3x3 image, 2 labels",
                    shape=(3, 3), k=2, ignore=[], radius=1, cv2=True, thin=True,
                    internal=False, via="mask2edge", prio=8))
    out.append(Case("labels none ignored thick", labels, "every 3x3 image, 2 labels",
                    shape=(3, 3), k=2, ignore=[], radius=3, cv2=True, thin=False,
                    internal=False, via="loop", prio=8))
    for cv in (True, False):
        for remap in (False, True):
            out.append(Case(f"Mask2Edge {'cv2' if cv else 'scipy'}"
                            f"{' ids' if remap else ''}", transform,
                            f"every {sh} image of 3 labels", shape=sh, radius=2,
                            cv2=cv, remap=remap, prio=5))
    return out
