"""C23: Cityscapes conversion writes the right edges where the evaluators look."""
import math
from symex.harness_common import Case
from . import spec
from .C16 import INST, TRAIN2LABEL, shrink, size

FUNCTIONS = ["pyEdgeEval.helpers.convert_cityscapes: convert_cityscapes, "
             "convert_routine_wrapper, convert_label_to_semantic_edges, resize_np",
             "pyEdgeEval.edge_tools.mask2edge_loop, pyEdgeEval.utils.convert_formats, "
             "pyEdgeEval.common.multi_label.label_encoding (as called by them)",
             "scripts/convert_datasets/cityscapes.py",
             "pyEdgeEval.evaluators.CityscapesEvaluator, HalfCityscapesEvaluator "
             "(reading what was converted)"]
OUTSIDE = ("images larger than the shape of a case; labels other than those of a case; "
           "test_against_matlab; the label images json2labelImg draws")
ASSUMPTIONS = ["image files give back what was written", "cv2 returns exact distances; "
               "cv2 and Pillow pick nearest pixels by their own index maps"]
PX = lambda s: [(i, j) for i in range(s[0]) for j in range(s[1])]


def shrink_after(ctx, a, h2, w2):
    """first pixel of each block of the larger image"""
    h, w = a.shape
    return ctx.np.array([[a[min(h - 1, int(i * (h / h2))), min(w - 1, int(j * (w / w2)))]
                          for j in range(w2)] for i in range(h2)])


def expected(ctx, lab, inst, ids, radius, thin, scale, first, use_inst, labs):
    """{class: edge image} of one sample; ids: instance ids that may occur"""
    h2, w2 = size(lab.shape[0], scale), size(lab.shape[1], scale)
    if first and (h2, w2) != lab.shape:
        lab, inst = shrink(ctx, lab, h2, w2), shrink(ctx, inst, h2, w2)
    ign = (lab == 2) | (lab == 3)
    out = {}
    px = PX(lab.shape)
    for k, l in enumerate(TRAIN2LABEL):
        if l not in labs:
            out[k] = None
            continue
        reg = lab == l
        parts = [spec.band(ctx, reg, ign, radius)]
        if use_inst and l in INST:
            parts += [spec.band(ctx, inst == i, ign, radius) for i in ids
                      if i // 1000 == l]
        here = ctx.Or(*[reg[p] for p in px])
        want = spec.as_array(ctx, {p: ctx.And(here, ctx.Or(*[x[p] for x in parts]))
                                   for p in px}, lab.shape)
        if thin:
            want = ctx.mod("pyEdgeEval.preprocess").binary_thin(want)
        if want.shape != (h2, w2):
            want = shrink_after(ctx, want, h2, w2)
        out[k] = want
    return (h2, w2), out


def decode(ctx, rel, shape):
    """per class the stored edge bits"""
    np = ctx.np
    bit = lambda v, k: (v // 2 ** k) % 2
    if rel.endswith(".png"):
        a = ctx.read_image(rel)
        ctx.check(a.shape == shape + (3,), "an RGB image of the size")
        return lambda k, p: bit(a[p[0], p[1], 2 - k // 8], k % 8)
    if rel.endswith(".tif"):
        a = ctx.read_image(rel)
        ctx.check(a.shape == shape, "an image of the size")
    else:
        a = ctx.read_bin(rel, np.uint32)
        ctx.check(a.shape == (shape[0] * shape[1],), "a value per pixel")
        a = a.reshape(shape)
    return lambda k, p: bit(a[p], k)


def verify(ctx, rel, shape, want, bits=24):
    ctx.check(ctx.exists(rel), "the file the evaluators look for")
    got = decode(ctx, rel, shape)
    for k in range(bits):
        w = want.get(k)
        for p in PX(shape):
            ctx.check(got(k, p) == (0 if w is None else ctx.If(w[p] != 0, 1, 0)),
                      "exactly the edges of each class")


def sample(ctx, rel, shape, labs, ids, name, free=None):
    """label and instance image; the pixels in free (default: all) are symbolic"""
    np = ctx.np
    fixed = [labs[0], labs[-1]]
    lab = np.zeros(shape, dtype="uint8")
    inst = np.zeros(shape, dtype="uint16")
    free = PX(shape) if free is None else free
    for p in PX(shape):
        lab[p], inst[p] = fixed[(p[1] // 2) % 2], ids[(p[1] // 2) % 2]
    if free:
        l = ctx.oneof(f"l_{name}", (len(free),), labs, "uint8")
        i = ctx.oneof(f"i_{name}", (len(free),), ids, "uint16")
        for k, p in enumerate(free):
            lab[p], inst[p] = l[k], i[k]
    ctx.write_image(rel + "_gtFine_labelIds.png", lab)
    ctx.write_image(rel + "_gtFine_instanceIds.png", inst)
    return lab, inst


def one(ctx, shape, labs, ids, ext, use_inst, radius=2, thin=False, scale=1.0,
        seal=True, via="direct", proc="gtEval", suffix=None, again=False):
    C = ctx.mod("pyEdgeEval.helpers.convert_cityscapes")
    lab, inst = sample(ctx, "data/gtFine/val/ulm/u_0 1", shape, labs, ids, "a")
    suffix = suffix or f"_gtProc_x.{ext}"
    kw = dict(inst_sensitive=use_inst, proc_dir=proc, edge_suffix=suffix,
              radius=radius, thin=thin, scale=scale, seal=seal)
    f = ctx.path("data/gtFine/val/ulm/u_0 1_gtFine_labelIds.png")
    if again:                    # an older conversion is replaced
        old = ctx.np.full(shape, 77, dtype="uint8")
        ctx.write_image(f"data/{proc}/val/ulm/u_0 1.png", old)
        if ext == "bin":
            ctx.write_text(f"data/{proc}/val/ulm/u_0 1{suffix}", "old text")
        else:
            ctx.write_image(f"data/{proc}/val/ulm/u_0 1{suffix}", old)
    before = ctx.files()
    if via == "direct":
        C.convert_label_to_semantic_edges(f, **kw)
    else:
        C.convert_routine_wrapper([f], nproc=2 if via == "pool" else 1, **kw)
    rel = f"data/{proc}/val/ulm/u_0 1" + suffix
    ctx.check(ctx.files() == sorted(set(before + [rel])), "one file, under its name")
    sh, want = expected(ctx, lab, inst, ids, radius, thin, scale,
                        scale < 1 and (thin or not seal), use_inst, labs)
    verify(ctx, rel, sh, want)


def defaults(ctx, shape, labs, ids):
    C = ctx.mod("pyEdgeEval.helpers.convert_cityscapes")
    lab, inst = sample(ctx, "data/gtFine/train/a/x", shape, labs, ids, "a")
    C.convert_label_to_semantic_edges(
        ctx.path("data/gtFine/train/a/x_gtFine_labelIds.png"))
    sh, want = expected(ctx, lab, inst, ids, 2, False, 1, False, True, labs)
    verify(ctx, "data/gtEval/train/a/x_gtProc_edge.png", sh, want)


def refused(ctx):
    """a format that is not supported, thin edges wider than one pixel"""
    C = ctx.mod("pyEdgeEval.helpers.convert_cityscapes")
    sample(ctx, "data/gtFine/val/u/x", (1, 2), [7, 8], [0, 1], "a", [])
    f = ctx.path("data/gtFine/val/u/x_gtFine_labelIds.png")
    kw = ctx.pick("bad", [dict(edge_suffix="_e.jpg"), dict(thin=True, radius=2)])
    ctx.check(ctx.raises(lambda: C.convert_label_to_semantic_edges(f, **kw))
              is not None, "refused")
    kw = ctx.pick("bad call", [dict(ext="jpg"), dict(proc_dirname="")])
    ctx.check(ctx.raises(lambda: C.convert_cityscapes(**dict(dict(
        proc_dirname="p", cityscapes_root=ctx.path("data"), nproc=1), **kw)))
        is not None, "refused")


POLY = '{"imgHeight": %d, "imgWidth": %d, "objects": []}'
ALL = ["train/ulm/t_0", "train/bonn/t_0", "val/ulm/v 1", "test/x/w_1"]


def dataset(ctx, root, shape, labs, ids, free, names=ALL):
    """gtFine of a small dataset; the sample called free has symbolic pixels"""
    out = {}
    for d in ("train", "val", "test"):
        ctx.mkdir(f"{root}/gtFine/{d}")
    for n in names:
        rel = f"{root}/gtFine/{n}"
        out[n] = sample(ctx, rel, shape, labs, ids, n.replace("/", "_"),
                        free if n.startswith("val") or n.endswith("ulm/t_0") else [])
        ctx.write_text(rel + "_gtFine_polygons.json", POLY % shape)
        ctx.write_image(rel + "_gtFine_color.png", out[n][0] * 0)
        ctx.write_text(f"{root}/leftImg8bit/{n}_leftImg8bit.txt", "")
    return out


def batch(ctx, shape, labs, ids, free, use_inst, ext="png", half=True, nproc=1,
          root="data", proc="gtEval", radii=(2, 2, 1), script=False, args=(), sched=None):
    made = dataset(ctx, root, shape, labs, ids, free)
    before = ctx.files(root)
    if sched:
        ctx.schedule(sched)
    kw = dict(proc_dirname=proc, cityscapes_root=ctx.path(root))
    if script:
        ctx.argv(["--root", ctx.path(root)] + list(args))
        ctx.script("scripts/convert_datasets/cityscapes.py")
    else:
        if not use_inst:
            kw["inst_sensitive"] = False
        if ext != "png":
            kw["ext"] = ext
        if not half:
            kw["save_half_val"] = False
        if radii != (2, 2, 1):
            kw.update(train_radius=radii[0], raw_val_radius=radii[1])
        ctx.mod("pyEdgeEval.helpers.convert_cityscapes").convert_cityscapes(
            nproc=nproc, **kw)
    word = "isedge" if use_inst else "edge"
    plan = {}
    for n in ALL:
        if n.startswith("train"):
            plan[f"{proc}/{n}_gtProc_{word}.{ext}"] = (n, radii[0], False, 1, False)
        elif n.startswith("val"):
            for s in ((1, 0.5) if half else (1,)):
                h = "half_" if s < 1 else ""
                plan[f"{proc}/{n}_gtProc_{h}raw_{word}.{ext}"] = (
                    n, radii[1], False, s, False)
                plan[f"{proc}/{n}_gtProc_{h}thin_{word}.{ext}"] = (
                    n, radii[2], True, s, True)
    others = [f"splits/{d}.txt" for d in ("train", "val", "test")] + [
        f"{proc}/{n}_gtFine_labelTrainIds.png" for n in ALL if n[:4] != "test"]
    ctx.check(ctx.files(root) == sorted(before + list(plan) + others),
              "every train and validation image once, under the expected names")
    for rel, (n, r, thin, s, first) in plan.items():
        lab, inst = made[n]
        sh, want = expected(ctx, lab, inst, ids, r, thin, s, first, use_inst, labs)
        verify(ctx, f"{root}/{rel}", sh, want)
    for d in ("train", "val", "test"):
        t = ctx.read_text(f"{root}/splits/{d}.txt").split("\n")
        ctx.check(sorted(t) == sorted([""] + [n[len(d) + 1:] for n in ALL
                                              if n.startswith(d)]), "the split's samples")


def read(ctx, shape, labs, ids, free, use_inst, thin, scale, cat):
    """an evaluator counts exactly the converted edges"""
    n = "val/ulm/v_1"
    made = dataset(ctx, "data", shape, labs, ids, free, names=[n])
    ctx.mod("pyEdgeEval.helpers.convert_cityscapes").convert_cityscapes(
        proc_dirname="gtEval", cityscapes_root=ctx.path("data"),
        inst_sensitive=use_inst, nproc=1)
    np = ctx.np
    sh, want = expected(ctx, *made[n], ids, 1 if thin else 2, thin, scale, thin,
                        use_inst, labs)
    ctx.write_image("data/gtEval/val/ulm/v_1_gtFine_labelTrainIds.png",
                    np.zeros(shape if scale == 1 else sh, dtype="uint8"))
    ctx.write_image(f"pred/class_{cat:03d}/ulm/v_1_leftImg8bit.png",
                    np.zeros(sh, dtype="uint8"))
    E = ctx.mod("pyEdgeEval.evaluators")
    ev = (E.CityscapesEvaluator if scale == 1 else E.HalfCityscapesEvaluator)(
        dataset_root=ctx.path("data"), pred_root=ctx.path("pred"), thin=thin)
    ctx.check(list(ev.sample_names) == ["ulm/v_1"], "the split file lists the sample")
    kw = dict(scale=1) if scale == 1 else {}
    ev.set_eval_params(instance_sensitive=use_inst, max_dist=0.0035,
                       kill_internal=False, skip_if_nonexistent=False,
                       apply_thinning=False, **kw)
    om = ev.evaluate_category(category=cat, thresholds=[0.0], nproc=1, save_dir=None)
    w = want[cat - 1]
    k = spec.count(w) if w is not None else 0
    n = sh[0] * sh[1]
    # the prediction is everywhere: precision is the share of edge pixels
    ctx.check(abs(om["ODS_precision"] * n - k) < 1e-6, "reads the converted edges")
    ctx.check(om["ODS_recall"] == ctx.If(k > 0, 1, 0), "reads the converted edges")


def cases(tier):
    q = tier == "quick"
    out = []
    car = dict(labs=[26, 2, 7], ids=[7, 26000, 26001])
    road = dict(labs=[7, 33, 0], ids=[33000, 24, 7])
    mix = dict(labs=[26, 33, 4], ids=[26, 33002, 26011])

    def add(name, fn, bounds, **k):
        prio = k.pop("prio", 0)
        out.append(Case(name, fn, bounds, prio=prio, **k))
    for n, s in (("car", car), ("road", road), ("mix", mix)):
        for ext in ("png", "tif", "bin"):
            for inst in (True, False):
                if q and n == "road" and ext == "bin":
                    continue
                sh = (1, 3)
                add(f"one {n} {ext} {'IS' if inst else 'nonIS'}", one,
                    f"every {sh} label and instance image over {s}", shape=sh, ext=ext,
                    use_inst=inst, **s)
    few = dict(labs=[26, 7], ids=[7, 26001])
    for inst in (True, False):
        for ext in ("png", "tif"):
            w = "IS" if inst else "nonIS"
            k = dict(use_inst=inst, ext=ext, **few)
            b = "every image over two labels and two instance ids"
            add(f"radius 1 {ext} {w}", one, b, shape=(1, 4), radius=1, **k)
            add(f"radius 3 {ext} {w}", one, b, shape=(2, 2), radius=3, **k)
            add(f"thin {ext} {w}", one, b, shape=(2, 2), radius=1, thin=True, **k)
            for scale in (0.5, 0.4, 0.75):
                add(f"scale {scale} {ext} {w}", one, b, shape=(2, 3) if scale == 0.4 else (1, 4),
                scale=scale, **k)
                if ext == "png" or not q:
                    add(f"scale {scale} plain {ext} {w}", one, b, shape=(2, 3) if scale == 0.4 else (1, 4),
                        scale=scale, seal=False, **k)
                    add(f"scale {scale} thin {ext} {w}", one, b, shape=(2, 2),
                        scale=scale, radius=1, thin=True, **k)
        k = dict(use_inst=inst, ext="png", **few)
        w = "IS" if inst else "nonIS"
        add(f"scale 0.5 odd {w}", one, b, shape=(3, 2), scale=0.5, **k)
        add(f"scale 0.5 odd thin {w}", one, b, shape=(3, 2), scale=0.5, radius=1,
            thin=True, prio=9, **k)
        add(f"scale 0.5 five {w}", one, b, shape=(1, 5), scale=0.5, **k)
        add(f"scale 0.5 five thin {w}", one, b, shape=(1, 5), scale=0.5, radius=1,
            thin=True, **k)
        for ext in ("png", "tif", "bin"):
            add(f"again {ext} {w}", one, b, shape=(1, 3), again=True,
                **dict(k, ext=ext))
        add(f"names {w}", one, b, shape=(1, 2), proc="out dir", suffix="_y.tif", **k)
        add(f"wrapper {w}", one, b, shape=(1, 2), via="wrapper", **k)
        add(f"pool {w}", one, b, shape=(1, 2), via="pool", **k)
    add("defaults", defaults, "every 1x3 image", shape=(1, 3), **car)
    add("refused", refused, "")
    k = dict(shape=(2, 4), free=[(0, 0), (1, 2)], **few)
    b = "two free pixels in a train and a val image"
    for inst in (True, False):
        w = "IS" if inst else "nonIS"
        add(f"batch {w}", batch, b, use_inst=inst, prio=9, **k)
        add(f"batch full {w}", batch, b, use_inst=inst, half=False, ext="bin", **k)
        add(f"batch tif {w}", batch, b, use_inst=inst, ext="tif", **k)
        add(f"batch pool {w}", batch, b, use_inst=inst, nproc=2, **k)
        add(f"batch radii {w}", batch, b, use_inst=inst, radii=(1, 3, 1), half=False,
            **k)
    add("batch any order", batch, b, use_inst=True, nproc=2, half=False, sched="order",
        **k)
    add("batch elsewhere", batch, b, use_inst=True, root="my gtFine data", proc="out",
        half=False, **k)
    for a, kw in (((), dict(use_inst=True)),
                  (("--nonIS", "--ext", "tif", "--nproc", "1"),
                   dict(use_inst=False, ext="tif")),
                  (("-o", "out", "--only-full-scale", "--ext", "bin"),
                   dict(use_inst=True, ext="bin", half=False, proc="out")),
                  (("--out-dir", "o2", "--nproc", "3"), dict(use_inst=True, proc="o2"))):
        add("script " + " ".join(a), batch, b, script=True, args=a, **kw, **k)
    k = dict(shape=(1, 6), free=[(0, 0), (0, 2), (0, 3)], **few)
    for inst in (True, False):
        for thin in (False, True):
            for scale in (1, 0.5):
                for cat in (14, 1, 3):
                    if q and cat == 3 and not inst:
                        continue
                    add(f"read {'IS' if inst else 'nonIS'} thin={thin} {scale} {cat}",
                        read, b, use_inst=inst, thin=thin, scale=scale, cat=cat, **k)
    return out
