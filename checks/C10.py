"""C10: multi-label evaluation applies kill-internal and skip rules exactly."""
import math

from symex.harness_common import Case
from .spec import count, matched, pattern
from .C09 import image, strength, thresholds, verify

FUNCTIONS = ["pyEdgeEval.common.multi_label.evaluate_boundaries: "
             "evaluate_boundaries_threshold",
             "pyEdgeEval.common.multi_label.options: kill_internal_prediction",
             "pyEdgeEval.preprocess: binary_thin, fast_nms (Python part)"]
OUTSIDE = ("more than seven matchable pixels (the outlier connections are then "
           "random); images larger than the shape of a case; tolerances of one pixel "
           "and more only for a few free pixels")
ASSUMPTIONS = ["below one pixel of tolerance the correspondence is the set of common "
               "pixels; from one pixel on it is the freshly built library function, "
               "applied to every combination (its own correctness is C01/C02)",
               "scipy's Euclidean distance transform is exact (modelled by the "
               "nearest zero, checked on every path model against scipy)"]


def module(ctx):
    return ctx.mod("pyEdgeEval.common.multi_label.evaluate_boundaries")


def killed(ctx, b, gt, seg, md):
    """predicted pixels left after the removal of internal ones"""
    h, w = b.shape
    lim = math.sqrt(h * h + w * w) * md
    px = [(i, j) for i in range(h) for j in range(w)]
    near = {p: ctx.Or(*[gt[q] != 0 for q in px
                        if math.hypot(p[0] - q[0], p[1] - q[1]) <= lim]) for p in px}
    return ctx.np.array([[ctx.And(b[i, j], ctx.Or(seg[i, j] == 0, near[i, j]))
                          for j in range(w)] for i in range(h)])


def run(ctx, gshape, pshape, sshape, nt, thin, md, kill, skip, gtype="bool",
        stype="bool", present=None, noseg=False):
    M = module(ctx)
    np = ctx.np
    pred, gt = strength(ctx, pshape), image(ctx, "gt", gshape, gtype)
    seg = None if noseg else (pattern(ctx, "seg", sshape, stype) if isinstance(
        sshape[0], str) else ctx.bools("seg", sshape, stype))
    if kill == "any":
        kill = ctx.pick("kill", [True, False])
    if skip == "any":
        skip = ctx.pick("skip", [True, False])
    if present is False:
        gt = np.zeros(gt.shape, gt.dtype)
    elif present:
        ctx.assume(count(gt) > 0)
    ts = thresholds(ctx, nt)
    p0, g0, t0 = pred.copy(), gt.copy(), ts.copy()
    s0 = None if noseg else seg.copy()
    r = M.evaluate_boundaries_threshold(
        thresholds=ts, pred=pred, gt=gt, gt_seg=seg, max_dist=md,
        apply_thinning=thin, kill_internal=kill, skip_if_nonexistent=skip)
    ctx.check(len(r) == 4, "four count arrays")
    for x in r:
        ctx.check(x.shape == (nt,), "one count per threshold")
    absent = not ctx.fork(count(g0) > 0)
    P = ctx.mod("pyEdgeEval.preprocess")
    for k in range(nt):
        b = p0 >= t0[k]
        if thin:
            b = P.binary_thin(b)
        if absent:
            verify(ctx, r, k, (0, 0, 0, 0 if skip else count(b)))
            continue
        if kill:
            b = killed(ctx, b, g0, s0, md)
        m1, m2 = matched(ctx, b, g0, md)
        verify(ctx, r, k, (count(m2), count(g0), count(m1), count(b)))


def internal(ctx, shape, md, gtype, stype, ptype):
    """the removal on its own"""
    K = ctx.mod("pyEdgeEval.common.multi_label.options").kill_internal_prediction
    b = ctx.bools("b", shape, ptype)
    gt, seg = ctx.bools("gt", shape, gtype), ctx.bools("seg", shape, stype)
    ctx.assume(count(gt) > 0)
    want = killed(ctx, b != 0, gt.copy(), seg.copy(), md)
    r = K(pred=b, gt=gt, seg=seg, max_dist=md)
    ctx.check(r.shape == tuple(shape), "the shape is kept")
    ctx.check(ctx.same(r != 0, want),
              "exactly the far predicted pixels of the segment are dropped")


def defaults(ctx):
    """thinning on; no suppression, removal or skipping; tolerance 0.02"""
    M = module(ctx)
    pred, gt = ctx.reals("pred", (2, 3), 0, 1), ctx.bools("gt", (2, 3))
    ts = thresholds(ctx, 1)
    r = M.evaluate_boundaries_threshold(ts, pred, gt)
    b = ctx.mod("pyEdgeEval.preprocess").binary_thin(pred >= ts[0])
    m1, m2 = matched(ctx, b, gt, 0.02)
    verify(ctx, r, 0, (count(m2), count(gt), count(m1), count(b)))


def nms(ctx, on):
    M = module(ctx)
    P = ctx.mod("pyEdgeEval.preprocess")
    np = ctx.np
    base = np.array([[0.1, 0.2, 0.5, 0.9, 0.5, 0.2, 0.1]] * 7)
    v = ctx.oneof("v", (2,), [0.0, 0.3, 1.0], "float64")
    base[3, 3] = v[0]
    base[2, 5] = v[1]
    gt = pattern(ctx, "gt", [".......", "...?...", "...?.?.", "..???..", "...#...",
                             ".......", "......."], "uint8")
    seg = np.zeros((7, 7), "uint8")
    seg[1:5, 2:6] = 1
    kw = ctx.pick("kw", [dict(r=1, s=5, m=1.01, half_prec=False),
                         dict(r=2, s=1, m=1.2, half_prec=False)])
    thin = ctx.pick("thin", [False, True])
    ts = np.array([0.2, 0.45])
    r = M.evaluate_boundaries_threshold(
        thresholds=ts, pred=base.copy(), gt=gt, gt_seg=seg, max_dist=0.05,
        apply_thinning=thin, kill_internal=True, skip_if_nonexistent=True,
        apply_nms=on, nms_kwargs=kw)
    p = P.fast_nms(img=base, **kw) if on else base
    for k in range(2):
        b = p >= ts[k]
        if thin:
            b = P.binary_thin(b)
        b = killed(ctx, b, gt, seg, 0.05)
        m1, m2 = matched(ctx, b, gt, 0.05)
        verify(ctx, r, k, (count(m2), count(gt), count(m1), count(b)))


# 3x4: the diagonal is exactly 5, so 0.2 and 0.4 are exactly one and two pixels
TIE = dict(g=["?..?", "....", "..?."], p=["??.?", ".?..", "?..."],
           s=["##.#", "?#..", "#..."])
TIE2 = dict(g=["?...", "...?", "...."], p=["?.?.", "?..#", ".?.."],
            s=["#.#.", "?..#", ".?.."])


def cases(tier):
    q = tier == "quick"
    out = []
    b = "all strengths, thresholds, gt and segments"
    for sh in ((2, 3), (3, 3), (1, 5)) + (() if q else ((3, 4), (4, 4))):
        for thin in (False, True):
            for nt in (1, 2) if not thin or sh != (3, 3) else (1,):
                out.append(Case(f"{sh} thin={thin} x{nt}", run, b, gshape=sh,
                                pshape=sh, sshape=sh, nt=nt, thin=thin, md=0.1,
                                kill="any", skip="any"))
    for md in (0.2, 0.4) if q else (0.2, 0.3, 0.36, 0.4, 0.45):
        for n, t in (("a", TIE), ("b", TIE2)):
            out.append(Case(f"tie {n} {md}", run, "free pixels of a 3x4 pattern",
                            gshape=t["g"], pshape=t["p"], sshape=t["s"], nt=1,
                            thin=False, md=md, kill="any", skip=False, present=True))
    for sh, md in (((2, 2), 0.36), ((1, 4), 0.25)):
        out.append(Case(f"{sh} tol {md}", run, b, gshape=sh, pshape=sh, sshape=sh,
                        nt=1, thin=False, md=md, kill=True, skip="any"))
    for gtype, stype in (("uint8", "uint8"), ("uint8", "bool"), ("bool", "uint8"),
                         ("float64", "bool"), ("int32", "int32")):
        out.append(Case(f"types {gtype} {stype}", run, b, gshape=(2, 3),
                        pshape=(2, 3), sshape=(2, 3), nt=1, thin=False, md=0.15,
                        kill=True, skip="any", gtype=gtype, stype=stype))
    out.append(Case("no segment", run, b, gshape=(2, 3), pshape=(2, 3), sshape=(2, 3),
                    nt=2, thin=False, md=0.1, kill=False, skip="any", noseg=True))
    for thin in (False, True):
        out.append(Case(f"absent thin={thin}", run, b, gshape=(3, 3), pshape=(3, 3),
                        sshape=(3, 3), nt=1, thin=thin, md=0.1, kill="any",
                        skip="any", present=False))
    out.append(Case("absent no segment", run, b, gshape=(2, 3), pshape=(2, 3),
                    sshape=(2, 3), nt=1, thin=False, md=0.1, kill="any", skip="any",
                    present=False, noseg=True))
    for sh, md in (((3, 4), 0.2), ((3, 4), 0.4), ((3, 4), 0.3), ((4, 3), 0.2),
                   ((2, 4), 0.1), ((4, 4), 0.5), ((1, 5), 0.41)) + (
                       () if q else (((4, 4), 0.4), ((5, 5), 0.3), ((3, 6), 0.33))):
        for gt, st, pt in (("uint8", "bool", "bool"),) if q else (
                ("uint8", "bool", "bool"), ("bool", "uint8", "bool"),
                ("uint8", "uint8", "uint8")):
            out.append(Case(f"kill {sh} {md} {gt} {st} {pt}", internal,
                            "all predictions, gt and segments", shape=sh, md=md,
                            gtype=gt, stype=st, ptype=pt))
    out.append(Case("defaults", defaults, "2x3, all strengths and gt"))
    for on in (True, False):
        out.append(Case(f"nms {on}", nms, "7x7, free strengths at two pixels, free gt",
                        on=on))
    return out
