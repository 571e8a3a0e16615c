"""C16: per-sample evaluation uses the right category, scale and segmentation."""
from symex.harness_common import Case
from . import spec
from .spec import count, matched
from .C09 import verify
from .C10 import killed

FUNCTIONS = ["pyEdgeEval.datasets.sbd / cityscapes / otf_cityscapes / bsds: "
             "_evaluate_single, *_eval_single, load_bsds_gt_boundaries, "
             "load_predictions, one_label_mask2edge, one_label_instance_mask2edge",
             "pyEdgeEval.common.multi_label: decode_png, load_scaled_edge, "
             "add_ignore_pixel, evaluate_boundaries_threshold, "
             "kill_internal_prediction",
             "pyEdgeEval.common.binary_label: "
             "evaluate_boundaries_threshold_multiple_gts"]
OUTSIDE = ("images larger than the shape of a case; strengths other than the listed "
           "8-bit values; more than seven matchable pixels (the outlier connections "
           "are then random)")
ASSUMPTIONS = ["Pillow's nearest-neighbour resizing takes the pixel under the centre "
               "(its own index map is used, and compared with that rule)",
               "PNG and .mat files give back what was written",
               "below one pixel of tolerance the correspondence is the set of common "
               "pixels; from one pixel on it is the freshly built library function "
               "(C01/C02)"]
PV = [0, 77, 128, 255]
TRAIN2LABEL = [7, 8, 11, 12, 13, 17, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 31, 32,
               33]
INST = {24, 25, 26, 27, 28, 31, 32, 33}


def size(n, scale):
    return int(n * scale + 0.5)


def shrink(ctx, a, h2, w2):
    """pixel under the centre of each pixel of the smaller image"""
    h, w = a.shape
    return ctx.np.array([[a[int((i + 0.5) * h / h2), int((j + 0.5) * w / w2)]
                          for j in range(w2)] for i in range(h2)])


def free(ctx, name, shape, rows, values, dtype, base):
    """image with values free at the listed pixels (None: everywhere)"""
    np = ctx.np
    if rows is None:
        return ctx.oneof(name, shape, values, dtype)
    a = np.full(shape, base, dtype=dtype)
    v = ctx.oneof(name, (len(rows),), values, dtype)
    for k, p in enumerate(rows):
        a[p] = v[k]
    return a


def colour(ctx, shape, cats, rows):
    """(coloured ground truth, {category: plane})"""
    np = ctx.np
    img = np.zeros(shape + (3,), dtype="uint8")
    planes = {}
    for c in cats:
        p = free(ctx, f"gt{c}", shape, rows, [0, 1], "uint8", 0)
        planes[c] = p
        k = c - 1
        img[:, :, 2 - k // 8] = img[:, :, 2 - k // 8] + p * 2 ** (k % 8)
    return img, planes


def options(ctx, kill, skip):
    return (ctx.pick("kill", [True, False]) if kill == "any" else kill,
            ctx.pick("skip", [True, False]) if skip == "any" else skip)


def strength(ctx, pred, h2, w2):
    p = shrink(ctx, pred, h2, w2) if pred.shape != (h2, w2) else pred
    return p.astype("float64") / 255


def blank(ctx, p):
    p = p.copy()
    h, w = p.shape
    for i in range(h):
        for j in range(w):
            if min(i, j, h - 1 - i, w - 1 - j) < 5:
                p[i, j] = 0.0
    return p


def judge(ctx, r, ts, p, gt, seg, md, thin, nms, kill, skip):
    P = ctx.mod("pyEdgeEval.preprocess")
    ctx.check(len(r) == 4, "four count arrays")
    for x in r:
        ctx.check(x.shape == (len(ts),), "one count per threshold")
    if nms:
        p = P.fast_nms(img=p, r=1, s=5, m=1.01, half_prec=False)
    absent = not ctx.fork(count(gt) > 0)
    for k, t in enumerate(ts):
        b = p >= t
        if thin:
            b = P.binary_thin(b)
        if absent:
            verify(ctx, r, k, (0, 0, 0, 0 if skip else count(b)))
            continue
        if kill:
            b = killed(ctx, b, gt, seg, md)
        m1, m2 = matched(ctx, b, gt, md)
        verify(ctx, r, k, (count(m2), count(gt), count(m1), count(b)))


def coded(ctx, data, shape, pshape, scale, cats, cat, md, ts, thin=False, nms=False,
          kill="any", skip="any", rows=None, prows=None, pbase=0, pv=PV, tsval=None,
          present=None):
    """SBD and Cityscapes"""
    D = ctx.mod("pyEdgeEval.datasets")
    np = ctx.np
    if isinstance(cat, list):
        cat = ctx.pick("category", cat)
    cats = sorted({max(1, cat - 1), cat, cat + 1} if cats is None else cats)
    img, planes = colour(ctx, shape, cats, rows)
    segv = [cat - 1, cat, cat + 1, 0, 255 if data == "cs" else 21]
    seg = free(ctx, "seg", shape, rows, sorted(set(segv)), "uint8", 0)
    pred = free(ctx, "pred", pshape, prows, pv, "uint8", pbase)
    h2, w2 = size(shape[0], scale), size(shape[1], scale)
    if max(h2, w2) * min(h2, w2) > 7 and rows is None:
        ctx.assume(count(shrink(ctx, planes[cat], h2, w2)) <= 7)
    if present is not None:
        c = count(shrink(ctx, planes[cat], h2, w2))
        ctx.assume(c > 0 if present else c == 0)
    ep = ctx.write_image("gt/e.png", img)
    sp = ctx.write_image("gt/s.png", seg)
    pp = ctx.write_image(f"p/class_{cat:03d}/x.png", pred)
    kill, skip = options(ctx, kill, skip)
    kw = dict(name="x", category=cat, thresholds=ts if tsval is None else tsval,
              edge_path=ep, seg_path=sp,
              pred_path=pp, scale=scale, apply_thinning=thin, apply_nms=nms,
              max_dist=md, kill_internal=kill, skip_if_nonexistent=skip,
              num_classes=20 if data == "sbd" else 19)
    f = D.sbd_eval_single if data == "sbd" else D.cityscapes_eval_single
    r = f(kw)
    gt = shrink(ctx, planes[cat], h2, w2)
    s = shrink(ctx, seg, h2, w2)
    inside = s == (cat if data == "sbd" else cat - 1)
    p = strength(ctx, pred, h2, w2)
    if data == "sbd":
        p = blank(ctx, p)
    judge(ctx, r, ts, p, gt, inside, md, thin, nms, kill, skip)


def otf(ctx, shape, pshape, scale, cat, radius, md, ts, use_inst, labs, ids=(),
        thin=False, nms=False, kill="any", skip="any", lrows=None, irows=None,
        prows=None, pbase=0, pv=PV, idtype="uint16", base=0):
    D = ctx.mod("pyEdgeEval.datasets")
    np = ctx.np
    if isinstance(cat, list):
        cat = ctx.pick("category", cat)
    lab = free(ctx, "lab", shape, lrows, labs, "uint8", base)
    pred = free(ctx, "pred", pshape, prows, pv, "uint8", pbase)
    sp = ctx.write_image("fine/l.png", lab)
    ip = None
    if use_inst:
        inst = free(ctx, "inst", shape, irows, ids, idtype, 0)
        ip = ctx.write_image("fine/i.png", inst)
    pp = ctx.write_image(f"p/class_{cat:03d}/x.png", pred)
    kill, skip = options(ctx, kill, skip)
    r = D.otf_cityscapes_eval_single(dict(
        name="x", category=cat, thresholds=ts, seg_path=sp, inst_path=ip,
        pred_path=pp, scale=scale, apply_thinning=thin, apply_nms=nms, max_dist=md,
        kill_internal=kill, skip_if_nonexistent=skip, radius=radius, num_labels=34,
        ignore_labels=[2, 3], num_classes=19))
    h2, w2 = size(shape[0], scale), size(shape[1], scale)
    lab = shrink(ctx, lab, h2, w2)
    l = TRAIN2LABEL[cat - 1]
    ign = (lab == 2) | (lab == 3)
    reg = lab == l
    px = [(i, j) for i in range(h2) for j in range(w2)]
    parts = [spec.band(ctx, reg, ign, radius)]
    if use_inst and l in INST:
        inst = shrink(ctx, inst, h2, w2)
        for i in ids:
            if i // 1000 == l:
                parts.append(spec.band(ctx, inst == i, ign, radius))
    here = ctx.Or(*[reg[p] for p in px])
    want = {p: ctx.And(here, ctx.Or(*[x[p] for x in parts])) for p in px}
    gt = spec.as_array(ctx, want, (h2, w2))
    p = strength(ctx, pred, h2, w2)
    judge(ctx, r, ts, p, gt, reg, md, thin, nms, kill, skip)


def bsds(ctx, shape, ng, md, ts, thin, nms=False, rows=None, prows=None, pbase=0,
         pv=PV, scale=1.0):
    D = ctx.mod("pyEdgeEval.datasets")
    P = ctx.mod("pyEdgeEval.preprocess")
    gts = [free(ctx, f"gt{i}", shape, rows, [0, 1], "uint8", 0) for i in range(ng)]
    pred = free(ctx, "pred", shape, prows, pv, "uint8", pbase)
    if rows is None and shape[0] * shape[1] > 7:
        for g in gts:
            ctx.assume(count(g) <= 7)
    gp = ctx.write_bsds("gt/a.mat", gts)
    pp = ctx.write_image("p/a.png", pred)
    r = D.bsds_eval_single(dict(name="a", thresholds=ts, gt_path=gp, pred_path=pp,
                                scale=scale, apply_thinning=thin, apply_nms=nms,
                                max_dist=md))
    p = pred.astype("float64") / 255
    if nms:
        p = P.fast_nms(img=p, r=1, s=5, m=1.01, half_prec=False)
    for x in r:
        ctx.check(x.shape == (len(ts),), "one count per threshold")
    for k, t in enumerate(ts):
        b = p >= t
        if thin:
            b = P.binary_thin(b)
        any1 = b & False
        c2 = s2 = 0
        for g in gts:
            m1, m2 = matched(ctx, b, g, md)
            any1 = any1 | m1
            c2, s2 = c2 + count(m2), s2 + count(g)
        verify(ctx, r, k, (c2, s2, count(any1), count(b)))


def cases(tier):
    q = tier == "quick"
    out = []
    T2 = [0.25, 0.5]
    b = "all ground truths of three categories, segmentations and strengths"

    def add(name, fn, bounds=b, **k):
        out.append(Case(name, fn, bounds, **k))

    # ---- Cityscapes
    for cat in (1, 2, 8, 9, 19):
        add(f"cs {cat}", coded, data="cs", shape=(2, 3), pshape=(2, 3), scale=1,
            cats=None, cat=cat, md=0.1, ts=T2)
    for sh, psh, sc in (((4, 6), (4, 6), 0.5), ((5, 3), (5, 3), 0.5),
                        ((4, 5), (2, 3), 0.5), ((5, 7), (3, 2), 0.3),
                        ((3, 3), (6, 4), 1.0), ((2, 3), (2, 3), 0.75)):
        add(f"cs scale {sh} {psh} {sc}", coded, data="cs", shape=sh, pshape=psh,
            scale=sc, cats=None, cat=11, md=0.1, ts=[0.5])
    for thin in (False, True):
        add(f"cs thin={thin}", coded, data="cs", shape=(3, 3), pshape=(3, 3), scale=1,
            cats=[14], cat=14, md=0.1, ts=[0.3], thin=thin, kill=False, skip=False,
            present=True, pv=[0, 255])
    add("cs absent", coded, data="cs", shape=(2, 3), pshape=(2, 3), scale=1,
        cats=None, cat=3, md=0.1, ts=T2, present=False)
    mid = [(2, 2), (2, 3), (3, 2)]
    for md in (0.05, 0.2, 0.3):
        for kill in (True, False):
            add(f"cs tolerance {md} kill={kill}", coded,
                "free pixels in a 5x6 image", data="cs", shape=(5, 6), pshape=(5, 6),
                scale=1, cats=[5], cat=5, md=md, ts=[0.4], kill=kill, skip=False,
                rows=mid, prows=[(2, 2), (4, 4), (1, 3)], pv=[0, 255], present=True)
    for nms in (True, False):
        add(f"cs nms {nms}", coded, "free pixels in a 7x8 image", data="cs",
            shape=(7, 8), pshape=(7, 8), scale=1, cats=[2], cat=2, md=0.05, ts=T2,
            thin=True, nms=nms, kill=True, skip=False, rows=mid,
            prows=[(3, 3), (3, 4)], pbase=100, pv=[0, 200], present=True)
    add("cs count of thresholds", coded, data="cs", shape=(2, 2), pshape=(2, 2),
        scale=1, cats=[4], cat=4, md=0.1, ts=[0.25, 0.5, 0.75], tsval=3)
    # ---- SBD: five blank pixels on each side
    inner = [(5, 5), (5, 6), (6, 5)]
    rim = [(0, 3), (4, 5), (5, 4), (7, 6), (6, 7)]
    for cat in (1, 2, 16, 20):
        add(f"sbd {cat}", coded, "free interior and border pixels", data="sbd",
            shape=(12, 12), pshape=(12, 12), scale=1, cats=None, cat=cat, md=0.02,
            ts=T2, rows=inner[:2] + rim[1:2], prows=inner + rim, pv=[0, 100, 255])
    add("sbd 11x13", coded, "free interior pixels, border at 255", data="sbd",
        shape=(11, 13), pshape=(11, 13), scale=1, cats=[3], cat=3, md=0.02, ts=T2,
        rows=[(5, 5), (5, 6), (5, 7)], prows=[(5, 5), (5, 6), (5, 7)], pbase=255)
    two = [(i, j) for i in range(10, 14) for j in range(10, 14)]
    add("sbd half", coded, "free interior pixels", data="sbd", shape=(24, 24),
        pshape=(24, 24), scale=0.5, cats=[7], cat=7, md=0.02, ts=[0.5], rows=two,
        prows=two, pbase=255, pv=[0, 255])
    add("sbd odd half", coded, "free interior pixels", data="sbd", shape=(23, 25),
        pshape=(23, 25), scale=0.5, cats=[7], cat=7, md=0.02, ts=[0.5], rows=two,
        prows=two, pbase=255, pv=[0, 255])
    for thin, nms in ((True, False), (False, True)):
        add(f"sbd thin={thin} nms={nms}", coded, "free interior pixels", data="sbd",
            shape=(12, 13), pshape=(12, 13), scale=1, cats=[20], cat=20, md=0.02,
            ts=[0.5], thin=thin, nms=nms, kill=True, skip=True, rows=inner[:2],
            prows=inner[:2], pbase=255, pv=[0, 255])
    add("sbd tolerance", coded, "free interior pixels", data="sbd", shape=(12, 12),
        pshape=(12, 12), scale=1, cats=[20], cat=20, md=0.1, ts=[0.5], kill="any",
        skip=False, rows=inner, prows=inner[1:] + [(6, 6)], pv=[0, 255], present=True)
    # ---- on the fly
    for cat, labs in ((1, [7, 8, 2]), (12, [24, 23, 3]), (17, [31, 30, 0]),
                      (19, [33, 32, 1])):
        add(f"otf {cat}", otf, f"all label images over {labs}, all strengths",
            shape=(1, 4), pshape=(1, 4), scale=1, cat=cat, radius=2, md=0.1, ts=T2,
            use_inst=False, labs=labs)
    add("otf 2-d", otf, "all label images and strengths", shape=(2, 3), pshape=(2, 3),
        scale=1, cat=14, radius=1, md=0.1, ts=[0.5], use_inst=False, labs=[26, 3, 0])
    for cat, l in ((12, 24), (14, 26), (19, 33)):
        add(f"otf instances {cat}", otf, "all label and instance images",
            shape=(1, 3), pshape=(1, 3), scale=1, cat=cat, radius=2, md=0.1, ts=[0.5],
            use_inst=True, labs=[l, 0], ids=[0, l, l * 1000, l * 1000 + 1,
                                             (l - 1) * 1000], pv=[0, 255])
    add("otf stuff", otf, "all label and instance images", shape=(1, 3), pshape=(1, 3),
        scale=1, cat=3, radius=2, md=0.1, ts=[0.5], use_inst=True, labs=[11, 0],
        ids=[0, 11, 24001], pv=[0, 255])
    for sh, psh, sc in (((2, 6), (2, 6), 0.5), ((3, 5), (1, 3), 0.5),
                        ((3, 7), (3, 7), 0.4)):
        add(f"otf scale {sh} {psh} {sc}", otf, "all label images and strengths",
            shape=sh, pshape=psh, scale=sc, cat=14, radius=1, md=0.1, ts=[0.5],
            use_inst=False, labs=[26, 0], pv=[0, 255])
    add("otf scale instances", otf, "all instance images", shape=(1, 6), pshape=(1, 6),
        scale=0.5, cat=14, radius=1, md=0.1, ts=[0.5], use_inst=True, labs=[26],
        ids=[0, 26000, 26001], pv=[0, 255], kill=False, skip=True)
    for thin in (True, False):
        add(f"otf thin={thin}", otf, "all strengths, free labels", shape=(2, 3),
            pshape=(2, 3), scale=1, cat=6, radius=1, md=0.1, ts=[0.5], use_inst=False,
            labs=[17, 0], thin=thin, pv=[0, 255], lrows=[(0, 1), (1, 2)], kill=False,
            skip=False)
    add("otf nms", otf, "free strengths and labels in a 7x7 image", shape=(7, 7),
        pshape=(7, 7), scale=1, cat=6, radius=2, md=0.02, ts=T2, use_inst=False,
        labs=[17, 0], nms=True, thin=True, pv=[0, 200], lrows=[(3, 3)],
        prows=[(3, 3), (3, 4)], pbase=100, kill=False, skip=False)
    # ---- BSDS
    for ng in (1, 2, 3):
        add(f"bsds {ng}", bsds, "all ground truths and strengths", shape=(2, 3), ng=ng,
            md=0.1, ts=T2, thin=False)
    add("bsds thin", bsds, "all ground truths and strengths", shape=(2, 3), ng=2,
        md=0.1, ts=[0.5], thin=True, pv=[0, 255])
    for md in (0.2, 0.4):
        add(f"bsds tolerance {md}", bsds, "free pixels", shape=(4, 5), ng=2, md=md,
            ts=[0.5], thin=False, rows=[(1, 1), (2, 2)], prows=[(1, 2), (2, 2), (3, 4)],
            pv=[0, 255])
    add("bsds nms", bsds, "free pixels", shape=(7, 7), ng=2, md=0.02, ts=T2, thin=True,
        nms=True, rows=[(3, 3), (3, 4)], prows=[(3, 3), (3, 4)], pbase=100,
        pv=[0, 200])
    return out
