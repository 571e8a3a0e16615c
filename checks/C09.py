"""C09: binary boundary evaluation counts exactly the matched and total pixels."""
from symex.harness_common import Case
from .spec import count, matched, pattern

FUNCTIONS = ["pyEdgeEval.common.binary_label.evaluate_boundaries: "
             "evaluate_boundaries_threshold, evaluate_boundaries_threshold_multiple_gts",
             "pyEdgeEval.preprocess: binary_thin, fast_nms (Python part)"]
OUTSIDE = ("more than seven matchable pixels (the outlier connections are then random); images larger than the shape of a case; strengths are real numbers in "
           "[0,1]; tolerances of one pixel and more only for images with at most "
           "twelve free pixels; NMS only for a few free pixels")
ASSUMPTIONS = ["below one pixel of tolerance the correspondence is the set of common "
               "pixels; from one pixel on it is the freshly built library function, "
               "applied to every combination (its own correctness is C01/C02)"]


def module(ctx):
    return ctx.mod("pyEdgeEval.common.binary_label.evaluate_boundaries")


def image(ctx, name, shape, dtype="bool"):
    if isinstance(shape[0], str):
        return pattern(ctx, name, shape, dtype)
    a = ctx.bools(name, shape, dtype)
    if shape[0] * shape[1] > 7:
        ctx.assume(count(a) <= 7)
    return a


def strength(ctx, shape):
    """strengths in [0,1]; pattern images have 0/1 except at their '?'"""
    if isinstance(shape[0], str):
        h, w = len(shape), len(shape[0])
        q = [(i, j) for i in range(h) for j in range(w) if shape[i][j] == "?"]
        a = ctx.np.array([[float(c == "#") for c in r] for r in shape])
        if q:
            v = ctx.reals("pred", (len(q),), 0, 1)
            for k, p in enumerate(q):
                a[p] = v[k]
        return a
    return ctx.reals("pred", shape, 0, 1)


def thresholds(ctx, n):
    return ctx.reals("t", (n,), 0.01, 0.99)


def prepared(ctx, pred, t, thin, nms):
    P = ctx.mod("pyEdgeEval.preprocess")
    if nms is not None:
        pred = P.fast_nms(img=pred, **nms)
    b = pred >= t
    return P.binary_thin(b) if thin else b


def verify(ctx, got, k, want):
    names = ("matched ground truth", "total ground truth", "matched prediction",
             "total prediction")
    for g, w, n in zip(got, want, names):
        ctx.check(g[k] == w, n)


def single(ctx, gshape, pshape, nt, thin, md, gtype="bool", nms=None, empty=False):
    M = module(ctx)
    pred, gt = strength(ctx, pshape), image(ctx, "gt", gshape, gtype)
    if empty:
        gt = gt * 0 if gtype != "bool" else gt & False
    ts = thresholds(ctx, nt)
    p0, g0, t0 = pred.copy(), gt.copy(), ts.copy()
    kw = {} if nms is None else dict(apply_nms=True, nms_kwargs=nms)
    r = M.evaluate_boundaries_threshold(
        thresholds=ts, pred=pred, gt=gt, max_dist=md, apply_thinning=thin, **kw)
    ctx.check(len(r) == 4, "four count arrays")
    for x in r:
        ctx.check(x.shape == (nt,), "one count per threshold")
    for k in range(nt):
        b = prepared(ctx, p0, t0[k], thin, nms)
        m1, m2 = matched(ctx, b, g0, md)
        verify(ctx, r, k, (count(m2), count(g0), count(m1), count(b)))


def multi(ctx, gshape, pshape, nt, ng, thin, md, aslist=False, nms=None):
    M = module(ctx)
    np = ctx.np
    pred = strength(ctx, pshape)
    gts = [image(ctx, f"gt{i}", gshape) for i in range(ng)]
    ts = thresholds(ctx, nt)
    p0, g0, t0 = pred.copy(), [g.copy() for g in gts], ts.copy()
    kw = {} if nms is None else dict(apply_nms=True, nms_kwargs=nms)
    r = M.evaluate_boundaries_threshold_multiple_gts(
        thresholds=ts, pred=pred, gts=gts if aslist else np.array(gts), max_dist=md,
        apply_thinning=thin, **kw)
    for x in r:
        ctx.check(x.shape == (nt,), "one count per threshold")
    for k in range(nt):
        b = prepared(ctx, p0, t0[k], thin, nms)
        any1 = b & False
        c2 = s2 = 0
        for g in g0:
            m1, m2 = matched(ctx, b, g, md)
            any1 = any1 | m1
            c2, s2 = c2 + count(m2), s2 + count(g)
        verify(ctx, r, k, (c2, s2, count(any1), count(b)))


def defaults(ctx, multiple):
    """thinning on, suppression off, tolerance 0.0075"""
    M = module(ctx)
    pred, gt = ctx.reals("pred", (2, 3), 0, 1), ctx.bools("gt", (2, 3))
    ts = thresholds(ctx, 1)
    if multiple:
        r = M.evaluate_boundaries_threshold_multiple_gts(ts, pred, ctx.np.array([gt]))
    else:
        r = M.evaluate_boundaries_threshold(ts, pred, gt)
    b = prepared(ctx, pred, ts[0], True, None)
    m1, m2 = matched(ctx, b, gt, 0.0075)
    verify(ctx, r, 0, (count(m2), count(gt), count(m1), count(b)))


BIG = ["#" * 20] * 9 + ["####?############?##"] + ["#" * 20] * 8
FEW = ["." * 20] * 9 + ["..?.?..........?.?.."] + ["." * 20] * 8


def cases(tier):
    q = tier == "quick"
    out = []
    for sh in ((2, 3), (3, 3), (1, 4)) + (() if q else ((4, 4), (3, 5))):
        for nt in (1, 3):
            out.append(Case(f"one gt {sh} x{nt}", single,
                            "all strengths, thresholds, gt", gshape=sh, pshape=sh,
                            nt=nt, thin=False, md=0.1))
    for gtype in ("uint8", "float64", "int32"):
        out.append(Case(f"one gt {gtype}", single, "all 0/1 gt of the type",
                        gshape=(2, 3), pshape=(2, 3), nt=2, thin=False, md=0.15,
                        gtype=gtype))
    for sh in ((2, 3), (3, 3)) + (() if q else ((3, 4),)):
        out.append(Case(f"one gt thin {sh}", single, "all strengths, threshold, gt",
                        gshape=sh, pshape=sh, nt=1, thin=True, md=0.1))
    out.append(Case("one gt thin x2", single, "all strengths, thresholds, gt",
                    gshape=(2, 3), pshape=(2, 3), nt=2, thin=True, md=0.1))
    for thin in (False, True):
        out.append(Case(f"empty gt thin={thin}", single, "all strengths",
                        gshape=(3, 3), pshape=(3, 3), nt=1, thin=thin, md=0.1,
                        empty=True))
    for k, gs, ps in (("gt", BIG, FEW), ("pred", FEW, BIG)):
        out.append(Case(f"one gt 18x20 {k}", single, "a few free pixels",
                        gshape=gs, pshape=ps, nt=2, thin=False, md=0.01,
                        gtype="uint8"))
        out.append(Case(f"2 gts 18x20 {k}", multi, "a few free pixels", gshape=gs,
                        pshape=ps, nt=1, ng=2, thin=False, md=0.01))
    for sh, md in (((2, 2), 0.36), ((2, 2), 0.51), ((1, 4), 0.25), ((1, 5), 0.4),
                   ((2, 3), 0.28)) + (() if q else (((2, 3), 0.4), ((1, 6), 0.34))):
        out.append(Case(f"one gt {sh} tol {md}", single,
                        "all strengths, threshold, gt; wide tolerance", gshape=sh,
                        pshape=sh, nt=1, thin=False, md=md))
    for ng in (1, 2, 3):
        out.append(Case(f"{ng} gts", multi, "all strengths, thresholds, gts",
                        gshape=(2, 3), pshape=(2, 3), nt=2, ng=ng, thin=False,
                        md=0.1, aslist=ng == 2))
    out.append(Case("2 gts thin", multi, "all strengths, threshold, gts",
                    gshape=(3, 3), pshape=(3, 3), nt=1, ng=2, thin=True, md=0.1))
    for sh, md in (((2, 2), 0.36), ((2, 2), 0.51), ((1, 4), 0.25), ((1, 4), 0.5)):
        out.append(Case(f"2 gts {sh} tol {md}", multi,
                        "all strengths, threshold, gts; wide tolerance", gshape=sh,
                        pshape=sh, nt=1, ng=2, thin=False, md=md))
    out.append(Case("3 gts wide", multi, "free pixels of a 2x3 pattern", nt=1, ng=3,
                    gshape=["?#.", ".??"], pshape=["??.", "#?."], thin=False,
                    md=0.28))
    for k in (False, True):
        out.append(Case(f"defaults multiple={k}", defaults, "2x3, all strengths, gt",
                        multiple=k))
    for k in ("one", "two"):
        for on in (True, False):
            out.append(Case(f"nms {k} {on}", nms, "7x7, free strengths at two pixels, "
                            "free gt pixels", which=k, on=on))
    return out


def nms(ctx, which, on):
    M = module(ctx)
    P = ctx.mod("pyEdgeEval.preprocess")
    np = ctx.np
    base = np.array([[0.1, 0.2, 0.5, 0.9, 0.5, 0.2, 0.1]] * 7)
    v = ctx.oneof("v", (2,), [0.0, 0.3, 1.0], "float64")
    base[3, 3] = v[0]
    base[2, 5] = v[1]
    gt = pattern(ctx, "gt", [".......", "...#...", "...?.?.", "..???..", "...#...",
                             ".......", "......."], "bool")
    g2 = pattern(ctx, "g2", [".......", ".......", "..?....", "...?...", "....#..",
                             ".......", "......."], "bool")
    kw = ctx.pick("kw", [dict(r=1, s=5, m=1.01, half_prec=False),
                         dict(r=2, s=1, m=1.2, half_prec=False)])
    thin = ctx.pick("thin", [False, True])
    ts = np.array([0.2, 0.45])
    args = dict(thresholds=ts, pred=base.copy(), max_dist=0.05, apply_thinning=thin,
                apply_nms=on, nms_kwargs=kw)
    if which == "one":
        r = M.evaluate_boundaries_threshold(gt=gt, **args)
    else:
        r = M.evaluate_boundaries_threshold_multiple_gts(
            gts=np.array([gt, g2]), **args)
    p = P.fast_nms(img=base, **kw) if on else base
    for k in range(2):
        b = p >= ts[k]
        if thin:
            b = P.binary_thin(b)
        c2 = s2 = 0
        any1 = b & False
        for g in [gt] if which == "one" else [gt, g2]:
            m1, m2 = matched(ctx, b, g, 0.05)
            any1 = any1 | m1
            c2, s2 = c2 + count(m2), s2 + count(g)
        verify(ctx, r, k, (c2, s2, count(any1), count(b)))
