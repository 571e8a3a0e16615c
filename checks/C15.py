"""C15: SBD conversion renumbers instances and masks the border correctly."""
from symex.harness_common import Case
from checks import spec

FUNCTIONS = ["pyEdgeEval.common.multi_label.utils: add_ignore_pixel, convert_inst_seg",
             "pyEdgeEval.helpers.convert_sbd: convert_seg_label2train, convert_mat2np, "
             "routine, load_sbd_gt_cls_mat, load_sbd_gt_inst_mat, reanno_routine, "
             "load_reanno_samples, load_reanno_instance_sensitive_gt, "
             "load_reanno_instance_insensitive_gt", "scripts/convert_datasets/sbd.py",
             "the conversion chain below them: mask2onehot, loop_mask2edge, "
             "loop_instance_mask2edge, edge_label2trainId, rgb_multilabel_encoding"]
OUTSIDE = ("images larger than the shape of a case; in whole conversions only the "
           "listed pixels of the interior (and of the instance map) are free; more "
           "instances than the lists of a case; a list of one re-annotated sample; in runs "
           "of the script one sample at a time is free")
ASSUMPTIONS = ["scipy.io.loadmat / pymatreader return the arrays of the file",
               "cv2 returns exact Euclidean distances", "PNG keeps 8- and 16-bit "
               "pixels"]

BORDER = 5
CATS = {"none": [], "one": [7], "twenty": [20], "same": [3, 3, 3],
        "mixed": [2, 15, 2], "order": [15, 2, 15, 1], "far": [20, 1, 10, 20],
        "two": [20, 2], "eleven": [4] * 5 + [9] + [4] * 5}


def border(ctx, shape, width, ident, dtype, default):
    F = ctx.mod("pyEdgeEval.common.multi_label").add_ignore_pixel
    s = ctx.reals("s", shape, 0, 1) if dtype == "float64" else ctx.ints(
        "s", shape, 0, 255, dtype)
    src = s.copy()
    r = F(s, border_px=width, ignore_id=ident) if not default else F(s)
    ctx.check(r.shape == shape, "same shape")
    ctx.check(r.dtype == src.dtype, "same type")
    h, w = shape
    for i in range(h):
        for j in range(w):
            rim = min(i, j, h - 1 - i, w - 1 - j) < width
            ctx.check(r[i, j] == (ident if rim else src[i, j]),
                      "the border carries the ignore label, the rest is kept")


def instances(ctx, shape, cats, extra, dtype, order):
    F = ctx.mod("pyEdgeEval.common.multi_label").convert_inst_seg
    np = ctx.np
    cats = CATS[cats]
    seg = ctx.ints("seg", shape, 0, len(cats) + extra, dtype)
    src = seg.copy()
    present = sorted(set(cats))
    if order == "down":
        present = present[::-1]
    elif order == "more":
        present = [1] * (1 not in present) + present + [19] * (19 not in present)
    r = F(seg, np.array(cats, dtype="uint8"), np.array(present, dtype="uint8"))
    ctx.check(r.shape == shape, "same shape")
    ctx.check(ctx.same(seg, src), "the instance map is not changed")
    want = [0] + [1000 * c + cats[:k].count(c) for k, c in enumerate(cats)] + \
        [0] * extra
    for i in range(shape[0]):
        for j in range(shape[1]):
            for k, v in enumerate(want):
                ctx.check(ctx.Implies(src[i, j] == k, r[i, j] == v),
                          "category and running number of the instance, else 0")


def trainids(ctx, shape, dtype):
    F = ctx.mod("pyEdgeEval.helpers.convert_sbd").convert_seg_label2train
    mp = ctx.mod("pyEdgeEval.datasets.sbd_attributes").SBD_label2trainId
    s = ctx.ints("s", shape, 0, 21, dtype)
    src = s.copy()
    r = F(s, mp)
    ctx.check(r.shape == shape, "same shape")
    ctx.check(ctx.same(s, src), "the segmentation is not changed")
    for i in range(shape[0]):
        for j in range(shape[1]):
            v = src[i, j]
            ctx.check(r[i, j] == ctx.If(ctx.And(v >= 1, v <= 20), v.astype("int64") - 1,
                                        255), "category minus one, else 255")


def scene(ctx, inner, labs, cats, rim, tag="", fixed=None, few=None):
    """an image with `inner` free pixels inside the border (or the `few` given ones, the
    others in two halves: the first label and instance, the last of both)"""
    np = ctx.np
    h, w = inner[0] + 2 * BORDER, inner[1] + 2 * BORDER
    lab = np.full((h, w), rim[0], dtype="uint8")
    inst = np.full((h, w), rim[1], dtype="uint8")
    px = [(BORDER + i, BORDER + j) for i in range(inner[0]) for j in range(inner[1])]
    if few is not None:
        for i, j in px:
            left = j - BORDER < inner[1] // 2
            lab[i, j] = labs[0 if left else -1]
            inst[i, j] = 1 if left else len(cats)
        px = [(BORDER + i, BORDER + j) for i, j in few]
    if fixed is None:
        v = ctx.oneof("lab" + tag, (len(px),), labs, "uint8")
        n = ctx.ints("inst" + tag, (len(px),), 0, len(cats), "uint8")
    else:
        v, n = [fixed[0]] * len(px), [fixed[1]] * len(px)
    for k, p in enumerate(px):
        lab[p] = v[k]
        inst[p] = n[k]
    return lab, inst


def expected(ctx, lab, inst, cats, radius, thin, use_inst):
    """{training id: edges}; lab already bordered"""
    shape = lab.shape
    px = [(i, j) for i in range(shape[0]) for j in range(shape[1])]
    ign = lab == 21
    P = ctx.mod("pyEdgeEval.preprocess")
    out = {}
    for c in range(1, 21):
        reg = lab == c
        here = ctx.Or(*[reg[p] for p in px])
        if here is False:
            out[c - 1] = None
            continue
        parts = [spec.band(ctx, reg, ign, radius)]
        if use_inst:
            for k, kc in enumerate(cats):
                if kc == c:
                    parts.append(spec.band(ctx, inst == k + 1, ign, radius))
        want = {p: ctx.And(here, ctx.Or(*[x[p] for x in parts])) for p in px}
        if thin:
            t = P.binary_thin(spec.as_array(ctx, want, shape))
            want = {p: t[p] for p in px}
        out[c - 1] = want
    return out


def compare(ctx, edge, want):
    ctx.check(edge.shape[0] == 20, "twenty categories")
    for c in range(20):
        if want[c] is None:
            ctx.check(ctx.And(edge[c] == 0), "an absent category has no edges")
            continue
        for p, f in want[c].items():
            ctx.check(ctx.Iff(edge[c][p] != 0, f),
                      "the boundaries of the category in the bordered segmentation")


def whole(ctx, inner, labs, cats, rim, radius, thin, use_inst, new):
    M = ctx.mod("pyEdgeEval.helpers.convert_sbd")
    np = ctx.np
    cats = CATS[cats]
    lab, inst = scene(ctx, inner, labs, cats, rim)
    present = sorted(set(labs) & set(range(1, 21)) | set(cats))
    ctx.write_sbd("cls/a.mat", "cls", lab, present, 20)
    ctx.write_sbd("inst/a.mat", "inst", inst, cats, len(cats))
    kw = dict(radius=radius, thin=thin, new_loader=new)
    if use_inst:
        r = M.convert_mat2np(ctx.path("cls/a.mat"), ctx.path("inst/a.mat"), **kw)
    else:
        r = M.convert_mat2np(ctx.path("cls/a.mat"), **kw)
    ctx.check(len(r) == (3 if use_inst else 2), "edges, segmentation (and instances)")
    lab = bordered(ctx, lab)
    ctx.check(ctx.same(r[1], lab), "the bordered segmentation is returned")
    if use_inst:
        numbers(ctx, r[2], inst, cats)
    compare(ctx, r[0], expected(ctx, lab, inst, cats, radius, thin, use_inst))


def bordered(ctx, lab):
    lab = lab.copy()
    h, w = lab.shape
    for i in range(h):
        for j in range(w):
            if min(i, j, h - 1 - i, w - 1 - j) < BORDER:
                lab[i, j] = 21
    return lab


def numbers(ctx, got, inst, cats):
    want = [0] + [1000 * c + cats[:k].count(c) for k, c in enumerate(cats)]
    ctx.check(got.shape == inst.shape, "an instance map of the same size")
    for i in range(inst.shape[0]):
        for j in range(inst.shape[1]):
            for k, v in enumerate(want):
                ctx.check(ctx.Implies(inst[i, j] == k, got[i, j] == v),
                          "renumbered instances")


def files(ctx, inner, labs, cats, rim, thin, save, few=None):
    """the routine that converts one sample"""
    M = ctx.mod("pyEdgeEval.helpers.convert_sbd")
    cats = CATS[cats]
    lab, inst = sample(ctx, "s_1", inner, labs, cats, rim, "d", "", few=few)
    ctx.mkdir("o")
    t = "_thin" if thin else "_raw"
    M.routine("s_1", ctx.path("d"), ctx.path("o"), radius=2, thin=thin,
              edge_suffix=t + "_edge.png", isedge_suffix=t + "_isedge.png",
              save_segs=save)
    names = [f"s_1{t}_edge.png", f"s_1{t}_isedge.png"]
    if save:
        names += ["s_1_labelIds.png", "s_1_trainIds.png", "s_1_instanceIds.png"]
    ctx.check(ctx.files("o") == sorted(names), "exactly the requested files")
    edges(ctx, "o/s_1" + t, lab, inst, cats, thin)
    if save:
        segs(ctx, "o/s_1", lab, inst, cats)


def sample(ctx, name, inner, labs, cats, rim, top, tag, fixed=None, few=None):
    lab, inst = scene(ctx, inner, labs, cats, rim, tag, fixed, few)
    present = sorted(set(labs) & set(range(1, 21)) | set(cats))
    ctx.write_sbd(f"{top}/cls_orig/{name}.mat", "cls", lab, present, 20)
    ctx.write_sbd(f"{top}/inst_orig/{name}.mat", "inst", inst, cats, len(cats))
    return bordered(ctx, lab), inst


def edges(ctx, stem, lab, inst, cats, thin):
    for n, ui in (("_edge.png", False), ("_isedge.png", True)):
        decoded(ctx, stem + n, lab.shape,
                expected(ctx, lab, inst, cats, 1 if thin else 2, thin, ui))


def decoded(ctx, rel, shape, want):
    img = ctx.read_image(rel)
    ctx.check(img.shape == tuple(shape) + (3,), "a colour image")
    for i in range(shape[0]):
        for j in range(shape[1]):
            for c in range(24):
                v = img[i, j, 2 - c // 8] // 2 ** (c % 8) % 2
                w = want[c][i, j] if c < 20 and want[c] is not None else False
                ctx.check(ctx.Iff(v != 0, w), "edges of the category in its bit")


def segs(ctx, stem, lab, inst, cats):
    ctx.check(ctx.same(ctx.read_image(stem + "_labelIds.png"), lab),
              "the bordered segmentation is saved")
    tr = ctx.read_image(stem + "_trainIds.png")
    for i in range(lab.shape[0]):
        for j in range(lab.shape[1]):
            v = lab[i, j]
            for k in range(22):
                ctx.check(ctx.Implies(v == k, tr[i, j] == (
                    k - 1 if 1 <= k <= 20 else 255)), "training ids are saved")
    numbers(ctx, ctx.read_image(stem + "_instanceIds.png"), inst, cats)


def annotated(ctx, name, shape, free, present, icats, top, tag):
    """a re-annotated sample: stored boundaries per category, free ones of `free`"""
    np = ctx.np
    seg = np.zeros(shape, dtype="uint8")
    maps = {}
    for kind in ("cls", "inst"):
        bs = []
        for c in range(1, 21):
            if c in free:
                bs.append(ctx.ints(f"{tag}{kind}{c}", shape, 0, 1, "uint8"))
            else:
                b = np.zeros(shape, dtype="uint8")
                b[c % shape[0], (c * (3 if kind == "cls" else 5)) % shape[1]] = 1
                bs.append(b)
        maps[kind] = bs
    ctx.write_sbd(f"{top}/cls/{name}.mat", "cls", seg, present, 20, maps["cls"])
    ctx.write_sbd(f"{top}/inst/{name}.mat", "inst", seg, icats, 20, maps["inst"])
    return maps


def reannotated(ctx, stem, shape, maps, present):
    for n, ui in (("edge.png", False), ("isedge.png", True)):
        want = {}
        for c in range(1, 21):
            a, b = maps["cls"][c - 1], maps["inst"][c - 1]
            want[c - 1] = {
                (i, j): ctx.Or(a[i, j] != 0, ui and c in present and b[i, j] != 0)
                if ui and c in present else a[i, j] != 0
                for i in range(shape[0]) for j in range(shape[1])}
        decoded(ctx, stem + n, shape, want)


def reanno(ctx, shape, free, present, icats, ok):
    M = ctx.mod("pyEdgeEval.helpers.convert_sbd")
    maps = annotated(ctx, "s_1", shape, free, present, icats, "r", "")
    ctx.mkdir("o")
    run = lambda: M.reanno_routine("s_1", ctx.path("r"), ctx.path("o"))
    if not ok:
        ctx.check(ctx.raises(run, AssertionError) is not None,
                  "an instance of an absent category is refused")
        return
    run()
    ctx.check(ctx.files("o") == ["s_1_reanno_edge.png", "s_1_reanno_isedge.png"],
              "the two files")
    reannotated(ctx, "o/s_1_reanno_", shape, maps, present)


def script(ctx, args, out, again, labs, cats, reanno, free):
    """the whole conversion script"""
    cats = CATS[cats]
    top = "my data"
    lists = {"train": ["t_1"], "val": ["v_2", "v_1"]}
    names = lists["train"] + lists["val"]
    data = {}
    for k, n in enumerate(names):
        data[n] = sample(ctx, n, (1, 1), labs, cats, (labs[k % 2], 0), top, n,
                         None if n == free else (labs[k % 2], k))
    for s, l in lists.items():
        ctx.write_text(f"{top}/{s}.txt", "".join(x + "\n" for x in l))
    ann = {"raw": ["v_2", "v_1"], "thin": ["v_1", "v_2"]}
    maps = {}
    if reanno:
        for t, l in ann.items():
            for n in l:
                maps[t, n] = annotated(ctx, n, (2, 3), (1, 20), [1, 20, 8], [20],
                                       f"{top}/gt_reanno_{t}", t + n)
            ctx.write_mat_names(f"{top}/gt_reanno_{t}/test.mat", "listTest", l)
    before = ctx.files("")
    for _ in range(2 if again else 1):
        ctx.argv(["--root", ctx.path(top)] + list(args))
        ctx.script("scripts/convert_datasets/sbd.py")
    want = []
    for n in names:
        want += [f"{top}/{out}/{n}{x}" for x in (
            "_raw_edge.png", "_raw_isedge.png", "_thin_edge.png", "_thin_isedge.png",
            "_labelIds.png", "_trainIds.png", "_instanceIds.png")]
    if reanno:
        for t, l in ann.items():
            want += [f"{top}/{out}/{n}_reanno_{t}_{x}.png" for n in l
                     for x in ("edge", "isedge")]
        want.append(f"{top}/reanno_val.txt")
    ctx.check(sorted(set(ctx.files("")) - set(before)) == sorted(want),
              "exactly the files of the conversion")
    for n in names:
        lab, inst = data[n]
        stem = f"{top}/{out}/{n}"
        segs(ctx, stem, lab, inst, cats)
        edges(ctx, stem + "_raw", lab, inst, cats, False)
        edges(ctx, stem + "_thin", lab, inst, cats, True)
    if reanno:
        for (t, n), m in maps.items():
            reannotated(ctx, f"{top}/{out}/{n}_reanno_{t}_", (2, 3), m, [1, 20, 8])
        ctx.check(ctx.read_text(f"{top}/reanno_val.txt") == "v_2\nv_1\n",
                  "the re-annotated samples are listed")


def cases(tier):
    q = tier == "quick"
    out = []
    for sh, wd in (((1, 1), 1), ((5, 7), 2), ((7, 5), 2), ((12, 13), 5), ((3, 3), 2),
                   ((4, 9), 3), ((9, 4), 0 + 3), ((11, 11), 5)):
        for idn, dt in ((21, "uint8"), (0, "float64")):
            out.append(Case(f"border {sh} {wd} {dt}", border, f"every {sh} image",
                            shape=sh, width=wd, ident=idn, dtype=dt, default=False))
    out.append(Case("border default", border, "every 11x12 image", shape=(11, 12),
                    width=5, ident=0, dtype="uint8", default=True))
    for n in CATS:
        for extra in (0, 1):
            for order in ("up", "down", "more"):
                if q and (extra and order != "up"):
                    continue
                out.append(Case(f"instances {n} {order} +{extra}", instances,
                                "every 2x2 instance map", shape=(2, 2), cats=n,
                                extra=extra, dtype="uint8", order=order))
    out.append(Case("instances int32", instances, "every 2x2 map", shape=(2, 2),
                    cats="order", extra=1, dtype="int32", order="up"))
    for dt in ("uint8", "int32", "uint16"):
        out.append(Case(f"training ids {dt}", trainids, "every 2x2 segmentation",
                        shape=(2, 2), dtype=dt))
    for n, inner, labs, cats, rim in (
            ("a", (1, 2), [0, 1, 20], "one", (0, 0)),
            ("b", (1, 3) if q else (2, 2), [0, 7], "one", (7, 1)),
            ("c", (1, 2), [2, 15], "mixed", (0, 0)),
            ("d", (1, 2), [3, 4], "same", (3, 2)),
            ("e", (1, 2), [0, 20], "far", (1, 0)),
            ("f", (1, 2), [0, 5], "none", (0, 0))):
        for radius, thin in ((2, False), (1, True)):
            for ui in (False, True):
                for new in (False, True):
                    if q and new and (thin or n in "ce"):
                        continue
                    out.append(Case(
                        f"whole {n} r{radius} {'IS' if ui else 'nonIS'}"
                        f"{' new' if new else ''}", whole,
                        f"every label of {labs} and instance at {inner} pixels",
                        inner=inner, labs=labs, cats=cats, rim=rim, radius=radius,
                        thin=thin, use_inst=ui, new=new, prio=8 if ui else 0))
    for thin in (False, True):
        for save in (False, True):
            sh = (1, 1) if q and save == thin else (1, 2)
            out.append(Case(f"files {'thin' if thin else 'raw'} {save}", files,
                            f"labels and instances at {sh} pixels", inner=sh,
                            labs=[2, 20], cats="two", rim=(0, 0), thin=thin,
                            save=save, prio=9))
    for thin in (False, True):
        for n, labs, cats in (("other", [2, 20], "two"), ("same", [3, 3], "same"),
                              ("open", [2, 0], "two")):
            for few in ([(1, 1), (2, 2)], [(0, 2), (3, 3)]):
                out.append(Case(f"files wide {'thin' if thin else 'raw'} {n} {few}", files,
                                f"labels and instances at {few} of 4x4 pixels",
                                inner=(4, 4), labs=labs, cats=cats, rim=(0, 0),
                                thin=thin, save=n == "other", few=few, prio=9))
    for n, free, present, icats, ok in (
            ("ends", (1, 20), [1, 20], [20], True),
            ("some", (2, 9), [2], [2], True),
            ("none", (8, 16), [], [], True),
            ("middle", (8, 9, 17), [17, 8], [8, 17, 8], True),
            ("wrong", (1,), [3], [3, 4], False)):
        out.append(Case(f"reannotated {n}", reanno, f"every stored boundary map of "
                        f"categories {free}, 2x2", shape=(2, 2), free=free,
                        present=present, icats=icats, ok=ok))
    for args, o, free in (((), "gtEval", "t_1"), (("--nproc", "1", "-o", "x"), "x", "v_1"),
                          (("--reanno", "--nproc", "1"), "gtEval", "v_2"),
                          (("--reanno", "--out-dir", "deep/er"), "deep/er", "t_1"),
                          (("--nproc", "2", "--reanno"), "gtEval", "v_1")):
        out.append(Case("script " + " ".join(args), script,
                        "label and instance of the inner pixel of one of three samples, "
                        "stored boundary maps of two categories", args=args, out=o,
                        again="deep/er" == o, labs=[2, 20], cats="two", prio=10,
                        reanno="--reanno" in args, free=free))
    return out
