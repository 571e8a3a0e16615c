"""C17: evaluation protocols select exactly their documented parameters and files."""
from symex.harness_common import Case
from . import spec
from .spec import count, matched
from .C10 import killed
from .C16 import INST, TRAIN2LABEL, blank, shrink, size, strength

FUNCTIONS = ["pyEdgeEval.evaluators: SBDEvaluator, ReannoSBDEvaluator, "
             "CityscapesEvaluator, HalfCityscapesEvaluator, OTFCityscapesEvaluator, "
             "BSDS500Evaluator (constructor, set_sample_names, set_eval_params, "
             "eval_params, evaluate_category, evaluate)",
             "everything they call (datasets, common.multi_label, "
             "common.binary_label)"]
OUTSIDE = ("sample lists longer than two; images larger than the shape of a case; more "
           "than one threshold (C16, C07)")
ASSUMPTIONS = ["files are those of a virtual file system; PNG and .mat files give "
               "back what was written (counterexamples run on real files)"]

NCLS = {"SBD": 20, "Reanno": 20, "CS": 19, "Half": 19, "OTF": 19}
CLS = {"SBD": "SBDEvaluator", "Reanno": "ReannoSBDEvaluator",
       "CS": "CityscapesEvaluator", "Half": "HalfCityscapesEvaluator",
       "OTF": "OTFCityscapesEvaluator"}
PRE = {"SBD": "", "Reanno": "reanno_", "CS": "gtProc_", "Half": "gtProc_half_"}
SBD = ("SBD", "Reanno")
DEF = {"SBD": 0.02, "Reanno": 0.0075, "CS": 0.0035, "Half": 0.0035, "OTF": 0.0035}
VARIANTS = [("raw", False), ("raw", True), ("thin", False), ("thin", True)]


def protocol(kind, mode, inst, md, kill, skip):
    """documented (tolerance, kill, skip, instance sensitive)"""
    if kind == "Reanno":
        return md, False, False, inst
    if mode == "pre-seal":
        return 0.02, True, True, False
    if mode == "post-seal":
        return (0.02 if kind == "SBD" else md), not inst, not inst, inst
    return md, kill, skip, inst


def make(ctx, kind, **k):
    E = ctx.mod("pyEdgeEval.evaluators" + (".sbd" if kind == "Reanno" else ""))
    return getattr(E, CLS[kind])(dataset_root=ctx.path("data"),
                                 pred_root=ctx.path("pred"), **k)


def edge_image(ctx, name, shape, cat, n, pix, free_planes):
    """image of one ground-truth file: plane cat free at pix; other planes set"""
    np = ctx.np
    img = np.zeros(shape + (3,), dtype="uint8")
    plane = np.zeros(shape, dtype="uint8")
    if free_planes:
        b = ctx.bools(name, (len(pix),), "uint8")
        for k, p in enumerate(pix):
            plane[p] = b[k]
    for c in (cat - 1, cat, cat + 1):
        if not 1 <= c <= n:
            continue
        k = c - 1
        if c == cat:
            img[:, :, 2 - k // 8] = img[:, :, 2 - k // 8] + plane * 2 ** (k % 8)
        else:
            one = np.zeros(shape, dtype="uint8")
            one[pix[c % len(pix)]] = 1
            img[:, :, 2 - k // 8] = img[:, :, 2 - k // 8] + one * 2 ** (k % 8)
    return img, plane


class World:
    """a small dataset: every file an evaluator might read has its own content"""

    def __init__(self, ctx, kind, cat, split, names, shape, hshape, pix, hpix, pshape,
                 ppix, pbase=(), psuffix=None, gt_dir="gtEval", missing=None,
                 split_file=True, instances=(26, 26000, 26001, 0)):
        self.ctx, self.kind, self.cat = ctx, kind, cat
        np = ctx.np
        n = NCLS[kind]
        self.edge, self.seg, self.pred, self.lab, self.inst = {}, {}, {}, {}, {}
        sbd = kind in SBD
        ev = f"data/{gt_dir}" + ("" if sbd else f"/{split}")
        fine = f"data/gtFine/{split}"
        ctx.mkdir(ev)
        ctx.mkdir("pred")
        if not sbd:
            ctx.mkdir(fine)
        if split_file:
            ctx.write_text("data/" + ("" if sbd else "splits/") + f"{split}.txt",
                           "".join(x + "\n" for x in names))

        def put(key, rel, img):
            if missing != key:
                ctx.write_image(rel, img)
        u = 0
        for s in names + ["other"]:
            t = s.replace("/", "_")
            live = s != "other"
            for half in ((False, True) if not sbd else (False,)):
                for tn, inst in VARIANTS:
                    word = "isedge" if inst else "edge"
                    sets = [PRE["SBD"], PRE["Reanno"]] if sbd else [
                        "gtProc_half_" if half else "gtProc_"]
                    for pre in sets:
                        img, plane = edge_image(
                            ctx, f"g_{t}_{pre}{tn}_{word}",
                            hshape if half else shape, cat, n,
                            hpix if half else pix, live)
                        self.edge[s, pre, tn, inst] = plane
                        put((s, pre, tn, inst), f"{ev}/{s}_{pre}{tn}_{word}.png", img)
            sg = np.zeros(shape, dtype="uint8")
            f = ctx.oneof(f"s_{t}", (len(pix),), [cat - 1, cat, cat + 1], "uint8") \
                if live else [0] * len(pix)
            for k, p in enumerate(pix):
                sg[p] = f[k]
            if kind == "Half":
                sg = shrink(ctx, sg, *hshape)
            self.seg[s] = sg
            if sbd:
                put((s, "seg"), f"{ev}/{s}_labelIds.png", sg)
            else:
                put((s, "seg"), f"{ev}/{s}_gtFine_labelTrainIds.png", sg)
                if kind == "OTF":
                    l = TRAIN2LABEL[cat - 1]
                    lab = ctx.oneof(f"l_{t}", (len(pix),), [0, l, l - 1], "uint8") \
                        if live else [0] * len(pix)
                    ins = ctx.oneof(f"i_{t}", (len(pix),), list(instances),
                                    "uint16") if live else [0] * len(pix)
                    la = np.zeros(shape, dtype="uint8")
                    ia = np.zeros(shape, dtype="uint16")
                    for k, p in enumerate(pix):
                        la[p], ia[p] = lab[k], ins[k]
                    self.lab[s], self.inst[s] = la, ia
                    put((s, "lab"), f"{fine}/{s}_gtFine_labelIds.png", la)
                    put((s, "inst"), f"{fine}/{s}_gtFine_instanceIds.png", ia)
                    put((s, "lab2"), f"{ev}/{s}_gtFine_labelIds.png",
                        np.zeros(shape, dtype="uint8"))
            for c in (cat - 1, cat, cat + 1):
                p = np.zeros(pshape, dtype="uint8")
                for q in pbase:
                    p[q] = 255
                if c == cat and live:
                    f = ctx.oneof(f"p_{t}", (len(ppix),), [0, 255], "uint8")
                    for k, q in enumerate(ppix):
                        p[q] = f[k]
                    self.pred[s] = p
                suf = psuffix or (".png" if sbd else "_leftImg8bit.png")
                put((s, "pred", c), f"pred/class_{c:03d}/{s}{suf}", p)
                if psuffix:
                    put(None, f"pred/class_{c:03d}/{s}" + (
                        ".png" if sbd else "_leftImg8bit.png"),
                        np.full(pshape, 255, dtype="uint8"))

    # ------------------------------------------------------------ oracle
    def counts(self, names, t, tn, inst, md, kill, skip, scale, thin, nms):
        """(matched gt, gt, matched pred, pred) over the samples"""
        ctx, kind, cat = self.ctx, self.kind, self.cat
        P = ctx.mod("pyEdgeEval.preprocess")
        tot = [0] * 4
        for s in names:
            if kind == "OTF":
                gt, inside = self.otf(s, tn, inst, scale)
                h2, w2 = gt.shape
            else:
                g = self.edge[s, PRE[kind], tn, inst]
                if kind == "Half":
                    scale = 1
                h2, w2 = size(g.shape[0], scale), size(g.shape[1], scale)
                gt = shrink(ctx, g, h2, w2)
                inside = shrink(ctx, self.seg[s], h2, w2) == (
                    cat if kind in SBD else cat - 1)
            p = strength(ctx, self.pred[s], h2, w2)
            if kind in SBD:
                p = blank(ctx, p)
            if nms:
                p = P.fast_nms(img=p, r=1, s=5, m=1.01, half_prec=False)
            b = p >= t
            if thin:
                b = P.binary_thin(b)
            if not ctx.fork(count(gt) > 0):
                c = (0, 0, 0, 0 if skip else count(b))
            else:
                if kill:
                    b = killed(ctx, b, gt, inside, md)
                m1, m2 = matched(ctx, b, gt, md)
                c = [count(x) for x in (m2, gt, m1, b)]
            tot = [a + b for a, b in zip(tot, c)]
        return tot

    def otf(self, s, tn, inst, scale):
        ctx = self.ctx
        l = TRAIN2LABEL[self.cat - 1]
        h2, w2 = (size(x, scale) for x in self.lab[s].shape)
        lab = shrink(ctx, self.lab[s], h2, w2)
        ign = (lab == 2) | (lab == 3)
        reg = lab == l
        r = 1 if tn == "thin" else 2
        px = [(i, j) for i in range(h2) for j in range(w2)]
        parts = [spec.band(ctx, reg, ign, r)]
        if inst and l in INST:
            ia = shrink(ctx, self.inst[s], h2, w2)
            for i in (l * 1000, l * 1000 + 1):
                parts.append(spec.band(ctx, ia == i, ign, r))
        here = ctx.Or(*[reg[p] for p in px])
        want = {p: ctx.And(here, ctx.Or(*[x[p] for x in parts])) for p in px}
        return spec.as_array(ctx, want, (h2, w2)), reg


def expect(ctx, om, tot, t):
    cr, sr, cp, sp = tot
    ctx.check(ctx.close(om["ODS_threshold"], t), "the threshold")
    for w in ("ODS", "OIS"):
        r, p, f = (om[f"{w}_{x}"] for x in ("recall", "precision", "f1"))
        for x, c, s, n in ((r, cr, sr, "recall"), (p, cp, sp, "precision")):
            ctx.check(ctx.And(abs(x * s - c) <= 1e-9, ctx.Implies(s == 0, x == 0)),
                      f"{w} {n} of the selected files")
        if w == "ODS":
            ctx.check(ctx.And(abs(f * (r + p) - 2 * r * p) <= 1e-9,
                              ctx.Implies(cr == 0, f == 0)), "F1")


def tolerance(ctx, md):
    for c in ctx.native_calls():
        if c["fn"] == "correspond_pixels":
            ctx.check(abs(c["max_dist"] - md) < 1e-12, "the tolerance of the protocol")


def params(ctx, ev, md, kill, skip, scale, thin, nms, inst):
    ep = ev.eval_params
    for k, v in (("max_dist", md), ("kill_internal", kill), ("scale", scale),
                 ("skip_if_nonexistent", skip), ("apply_thinning", thin),
                 ("apply_nms", nms)):
        if v is not None:
            ctx.check(ep[k] == v, f"reported parameter {k}")


def run(ctx, kind, mode, tn="raw", inst="any", cat=3, split="val", two=True, given=True,
        scale=None, thin=False, nms=False, shape=None, pbase=(), ppix=None, pix=None,
        md=0.06, save=False, nproc=1, explicit=None, prior=None, other=False,
        late=False, **wk):
    np = ctx.np
    sbd = kind in SBD
    if inst == "any":
        inst = ctx.pick("instances", [False, True])
    if mode == "any":
        mode = ctx.pick("mode", [None, "pre-seal", "post-seal", "custom"])
    kill = skip = False
    kw = {}
    if given:
        kill = ctx.pick("kill", [False, True])
        skip = ctx.pick("skip", [False, True])
        kw = dict(kill_internal=kill, skip_if_nonexistent=skip, max_dist=md)
    if scale is not None:
        kw["scale"] = scale
    else:
        scale = 1.0 if sbd else 0.5
    names = (["s1", "my s.2"] if sbd else ["ulm/a_000", "bonn/b 0.1"])[:2 if two else 1]
    if shape is None:
        shape = (12, 12) if sbd else (2, 4)
    hshape = tuple(size(x, 0.5) for x in shape)
    h2 = shape if sbd or scale == 1 else hshape
    if pix is None:
        pix = [(5, 5), (6, 6)] if sbd else [(1, 1), (1, 3)]
    if ppix is None:
        ppix = pix if sbd or scale == 1 and kind != "Half" else [(0, 0), (0, 1)]
    hpix = [(0, 0), (0, 1)] if not sbd else None
    pshape = h2
    if kind == "Half":
        pshape = hshape
    w = World(ctx, kind, cat, split, names, shape, hshape, pix, hpix, pshape, ppix,
              pbase=pbase, **wk)
    ck = {}
    if "psuffix" in wk and not late:
        ck["pred_suffix"] = wk["psuffix"]
    if "gt_dir" in wk:
        ck["gt_dir"] = wk["gt_dir"]
    if other:
        # evaluators made earlier, with everything else set differently
        o = make(ctx, kind, split=split, thin=tn != "thin", gt_dir="elsewhere",
                 pred_suffix="_o.png")
        o.set_sample_names(["other"])
        o.set_eval_params(eval_mode="post-seal", instance_sensitive=not inst,
                          apply_thinning=not thin, apply_nms=not nms, scale=0.25,
                          max_dist=0.3)
        if hasattr(o, "set_pred_suffix"):
            o.set_pred_suffix("_p.png")
    ev = make(ctx, kind, split=split, thin=tn == "thin", **ck)
    if other:
        o.set_eval_params(eval_mode="post-seal", instance_sensitive=not inst,
                          apply_thinning=not thin, max_dist=0.3, scale=0.25)
        o.set_sample_names(["other"])
    if late:
        ev.set_pred_suffix(wk["psuffix"])
    if explicit == "list":
        names = names[::-1]
        ev.set_sample_names(names)
    elif explicit == "file":
        names = names[:1]
        ev.set_sample_names(split_file=ctx.write_text("mine.txt", names[0] + "\n"))
    if prior:
        m0, i0, c0 = prior
        ev.set_eval_params(eval_mode=m0, instance_sensitive=i0, max_dist=0.04,
                           kill_internal=True, skip_if_nonexistent=True,
                           apply_thinning=True, scale=1)
        ev.evaluate_category(category=cat + c0, thresholds=[0.5], nproc=1, save_dir=None)
        ctx.native_calls().clear()
    emd, ekill, eskip, einst = protocol(kind, mode, inst, md if given else DEF[kind],
                                        kill, skip)
    if not sbd and mode == "pre-seal" and inst:
        r = ctx.raises(lambda: ev.set_eval_params(
            eval_mode=mode, instance_sensitive=inst, apply_thinning=thin,
            apply_nms=nms, **kw))
        if r is not None:
            return                       # refused
    else:
        ev.set_eval_params(eval_mode=mode, instance_sensitive=inst,
                           apply_thinning=thin, apply_nms=nms, **kw)
    if other:
        o.set_eval_params(eval_mode="pre-seal", instance_sensitive=False,
                          apply_thinning=not thin, scale=0.25)
    params(ctx, ev, emd, ekill, eskip, 1 if kind == "Half" else scale, thin, nms, einst)
    om = ev.evaluate_category(category=cat, thresholds=[0.5], nproc=nproc,
                              save_dir=ctx.path("out") if save else None)
    tolerance(ctx, emd)
    tot = w.counts(names, 0.5, tn, einst, emd, ekill, eskip, scale, thin, nms)
    expect(ctx, om, tot, 0.5)
    if save:
        ctx.check(all(f.startswith(f"class_{cat:03d}/") for f in ctx.files("out"))
                  and len(ctx.files("out")) > 0, "saved under the category")
    else:
        ctx.check(not ctx.files("out"), "nothing saved without a directory")


def symbolic_params(ctx, kind, mode):
    """given values pass unchanged whatever they are; scale must lie in (0, 1]"""
    ctx.mkdir("data/gtEval/val")
    ctx.mkdir("pred")
    ev = make(ctx, kind)
    md, sc = ctx.real("md", 0.0001, 0.5), ctx.real("scale", -1, 2)
    kill, skip = ctx.bool("kill"), ctx.bool("skip")
    thin, nms = ctx.bool("thin"), ctx.bool("nms")
    inst = ctx.pick("instances", [False, True])
    if mode == "any":
        mode = ctx.pick("mode", [None, "pre-seal", "post-seal", "custom"])
    prior = ctx.pick("prior", [None, ("x", True), ("x", False), ("pre-seal", False),
                               ("post-seal", False), ("post-seal", True)])
    if prior:
        ev.set_eval_params(eval_mode=prior[0], instance_sensitive=prior[1],
                           max_dist=0.3, kill_internal=True, skip_if_nonexistent=True,
                           apply_thinning=True, apply_nms=True, scale=0.25)
    kw = dict(scale=sc, max_dist=md, kill_internal=kill, skip_if_nonexistent=skip,
              apply_thinning=thin, apply_nms=nms, instance_sensitive=inst)
    r = ctx.raises(lambda: ev.set_eval_params(eval_mode=mode, **kw))
    cs = kind not in SBD
    if cs and mode == "pre-seal" and inst and r is not None:
        return
    if kind != "Half":
        ok = ctx.fork(ctx.And(sc > 0, sc <= 1))
        ctx.check((r is None) == bool(ok), "scale in (0, 1] and nothing else")
    else:
        ok = r is None
    if not ok or r is not None:
        return
    emd, ekill, eskip, einst = protocol(kind, mode, inst, md, kill, skip)
    ep = ev.eval_params
    ctx.check(ep["max_dist"] == emd, "reported tolerance")
    ctx.check(ctx.Iff(ep["kill_internal"], ekill), "reported kill switch")
    ctx.check(ctx.Iff(ep["skip_if_nonexistent"], eskip), "reported skip switch")
    ctx.check(ctx.Iff(ep["apply_thinning"], thin), "reported thinning")
    ctx.check(ctx.Iff(ep["apply_nms"], nms), "reported suppression")
    ctx.check(ep["scale"] == (1 if kind == "Half" else sc), "reported scale")
    ctx.check(getattr(ev, "instance_sensitive", einst) == einst,
              "the instance-sensitive edges exactly when they are asked for")


def refused(ctx, kind, what, tn="raw", inst=False):
    """missing ground truth and categories out of range"""
    sbd = kind in SBD
    n = NCLS[kind]
    names = ["s1", "s2"] if sbd else ["ulm/a_000", "bonn/b_000"]
    shape = (11, 11) if sbd else (2, 2)
    miss, cat, asked = None, 2, 2
    if what == "category":
        asked = ctx.pick("category", [-n, -1, 0, 1, 2, n, n + 1, n + 2, 100])
    else:
        s = ctx.pick("sample", names)
        kinds = [(s, "lab")] + ([(s, "inst")] if inst else []) if kind == "OTF" else [
            (s, PRE[kind], tn, inst), (s, "seg")]
        miss = ctx.pick("missing", kinds + [(s, "none")])
    pix = [(5, 5)] if sbd else [(0, 0)]
    World(ctx, kind, cat if not 1 <= asked <= n else asked, "val", names, shape, shape,
          pix, pix, shape, pix, missing=miss)
    ev = make(ctx, kind, thin=tn == "thin")
    ev.set_eval_params(instance_sensitive=inst, scale=1, max_dist=0.02)
    r = ctx.raises(lambda: ev.evaluate_category(
        category=asked, thresholds=[0.5], nproc=1, save_dir=ctx.path("out")))
    bad = not 1 <= asked <= n if what == "category" else miss[1] != "none"
    ctx.check((r is not None) == bad, "refused exactly when something is wrong")
    if bad:
        ctx.check(not ctx.files("out"), "nothing saved")
        ctx.check(not ctx.native_calls(), "nothing evaluated")


def no_samples(ctx, kind):
    """no list of samples, an empty one, or a missing directory: refused"""
    w = ctx.pick("what", ["unset", "empty", "no gt", "no predictions", "bad split"])
    sbd = kind in SBD
    if w != "no gt":
        ctx.mkdir("data/gtEval/val")
        ctx.mkdir("data/gtFine/val")
    if w != "no predictions":
        ctx.mkdir("pred")
    if w == "bad split":
        ctx.check(ctx.raises(lambda: make(ctx, kind, split="train")) is not None,
                  "only val and test")
        return
    ev = make(ctx, kind)
    ev.set_eval_params(instance_sensitive=False, scale=1)
    if w == "empty":
        ctx.check(ctx.raises(lambda: ev.set_sample_names([])) is not None,
                  "an empty list of samples is refused")
    elif w != "unset":
        ev.set_sample_names(["x"])
    ctx.check(ctx.raises(lambda: ev.evaluate_category(
        category=1, thresholds=[0.5], nproc=1, save_dir=None)) is not None,
        "nothing to evaluate is refused")


def bsds(ctx, no_split, given, split="test", thin=False, nms=False, explicit=False,
         missing=False, ng=2, scale=None):
    np = ctx.np
    E = ctx.mod("pyEdgeEval.evaluators")
    P = ctx.mod("pyEdgeEval.preprocess")
    shape = (2, 3)
    files, preds = {}, {}
    names = ["10", "s2018"] if split == "test" else ["10", "a_val 1"]
    for s in names + ["7"]:
        d = split if s != "7" else ("val" if split == "test" else "test")
        files[s] = [ctx.bools(f"g_{s}_{i}", shape, "uint8") if i == 0 else
                    np.array([[1, 0, 0], [0, 0, 1]]).astype("uint8")
                    for i in range(ng)]
        if not (missing and s == "10"):
            ctx.write_bsds(f"data/groundTruth/{d}/{s}.mat", files[s])
        p = np.zeros(shape, dtype="uint8")
        f = ctx.oneof(f"p_{s}", (2,), [0, 255], "uint8")
        p[0, 0], p[1, 1] = f[0], f[1]
        preds[s] = p
        a, b = f"pred/{d}/{s}.png", f"pred/{s}.png"
        ctx.write_image(b if no_split else a, p)
        ctx.write_image(a if no_split else b, np.full(shape, 255, dtype="uint8"))
    ctx.write_text(f"data/groundTruth/{split}/Thumbs.db", "x")
    ev = E.BSDS500Evaluator(dataset_root=ctx.path("data"), pred_root=ctx.path("pred"),
                            split=split)
    if explicit or missing:
        ev.set_sample_names([f"{split}/{s}" for s in names])
    else:
        ctx.check(sorted(ev.sample_names) == [f"{split}/{s}" for s in names],
                  "every ground truth of the split once")
    kw = {}
    md = 0.0075
    if given:
        md = ctx.real("md", 0.0001, 0.5)
        kw = dict(max_dist=md)
    if scale is not None:
        kw["scale"] = scale
    if given or thin is not True or nms:
        kw.update(apply_thinning=thin, apply_nms=nms)
    if given:
        ev.set_eval_params(**kw)
        ctx.check(ev.eval_params["max_dist"] == md, "reported tolerance")
        kw["max_dist"] = md = 0.06
    ev.set_eval_params(**kw)
    f = lambda: ev.evaluate(thresholds=[0.5], nproc=1, save_dir=None,
                            no_split_dir=no_split)
    if missing:
        ctx.check(ctx.raises(f) is not None, "a missing ground truth is refused")
        ctx.check(not ctx.native_calls(), "nothing evaluated")
        return
    om = f()
    tolerance(ctx, md)
    tot = [0] * 4
    for s in names:
        p = preds[s].astype("float64") / 255
        if nms:
            p = P.fast_nms(img=p, r=1, s=5, m=1.01, half_prec=False)
        b = p >= 0.5
        if thin:
            b = P.binary_thin(b)
        any1 = b & False
        for g in files[s]:
            m1, m2 = matched(ctx, b, g, md)
            any1 = any1 | m1
            tot[0] += count(m2)
            tot[1] += count(g)
        tot[2] += count(any1)
        tot[3] += count(b)
    expect(ctx, om, tot, 0.5)


def bsds_scale(ctx):
    E = ctx.mod("pyEdgeEval.evaluators")
    ctx.mkdir("data/groundTruth/test")
    ev = E.BSDS500Evaluator(dataset_root=ctx.path("data"), pred_root=ctx.path("pred"))
    sc = ctx.real("scale", -1, 2)
    r = ctx.raises(lambda: ev.set_eval_params(scale=sc))
    ok = ctx.fork(ctx.And(sc > 0, sc <= 1))
    ctx.check((r is None) == bool(ok), "scale in (0, 1] and nothing else")
    if ok:
        ctx.check(ev.eval_params["scale"] == sc, "reported scale")


def cases(tier):
    out = []
    b = "all contents of the free pixels of every ground-truth file and prediction"

    def add(name, fn, bounds=b, **k):
        out.append(Case(name, fn, bounds, **k))
    for kind in CLS:
        add(f"parameters {kind}", symbolic_params, "all tolerances, scales, switches",
            kind=kind, mode="any")
        add(f"refused category {kind}", refused, "categories from -n to 100", kind=kind,
            what="category")
        for tn, inst in VARIANTS:
            add(f"refused missing {kind} {tn} {inst}", refused, "each needed file",
                kind=kind, what="missing", tn=tn, inst=inst)
        add(f"no samples {kind}", no_samples, "", kind=kind)
        for mode in (None, "pre-seal", "post-seal"):
            for tn in ("raw", "thin"):
                add(f"{kind} {mode} {tn}", run, kind=kind, mode=mode, tn=tn, two=False,
                    cat=14 if kind == "OTF" else 3)
        for tn in ("raw", "thin"):
            for inst in (False, True):
                add(f"{kind} two samples {tn} {inst}", run, kind=kind, mode="post-seal",
                    tn=tn, inst=inst, two=True, given=False, save=True,
                    cat=14 if kind == "OTF" else 3)
        add(f"{kind} defaults", run, kind=kind, mode=None, two=False, given=False,
            cat=14 if kind == "OTF" else 1)
        add(f"{kind} test split", run, kind=kind, mode="post-seal", inst=True,
            two=False, given=False, split="test", cat=14 if kind == "OTF" else 3,
            tn="thin")
        add(f"{kind} suffix", run, kind=kind, mode="post-seal", inst=False,
            two=False, given=False, cat=14 if kind == "OTF" else 3, psuffix="_X.bmp")
        if kind not in SBD:
            add(f"{kind} late suffix", run, kind=kind, mode="post-seal", inst=False,
                two=False, given=False, cat=14 if kind == "OTF" else 3,
                psuffix="_Pred.BMP", late=True)
        for tn, inst in VARIANTS if kind == "SBD" else (("thin", True), ("raw", False)):
            add(f"{kind} after another evaluator {tn} {inst}", run, kind=kind,
                mode="post-seal", inst=inst, tn=tn, two=False, given=False,
                cat=14 if kind == "OTF" else 3, other=True)
        add(f"{kind} directory", run, kind=kind, mode="post-seal", inst=False,
            two=False, given=False, cat=14 if kind == "OTF" else 3, gt_dir="alt")
        for pr in (("pre-seal", False, -1), ("custom", True, 0), ("custom", False, 1)):
            add(f"{kind} after {pr[0]} {pr[1]}", run, kind=kind, mode="post-seal",
                inst="any", two=False, given=False, prior=pr, cat=14 if kind == "OTF"
                else 3)
        for e in ("list", "file"):
            add(f"{kind} samples by {e}", run, kind=kind, mode="post-seal", inst=True,
                two=True, given=False, cat=14 if kind == "OTF" else 3, explicit=e)
        k = dict(shape=(13, 13), pix=[(5, 5), (7, 7)], ppix=[(5, 6), (7, 7)],
                 pbase=[(6, 5), (6, 6), (7, 5)]) if kind in SBD else dict(
                     shape=(4, 6), pix=[(1, 1), (3, 5)], ppix=[(0, 0), (1, 2)],
                     pbase=[(0, 1), (1, 0), (1, 1)])
        for thin in (True, False):
            add(f"{kind} thinning {thin}", run, kind=kind, mode="post-seal", inst=True,
                two=False, given=False, cat=14 if kind == "OTF" else 3, thin=thin, **k)
        add(f"{kind} suppression", run, kind=kind, mode="post-seal", inst=True,
            two=False, given=False, cat=14 if kind == "OTF" else 3, nms=True, **k)
        if kind not in SBD:
            add(f"{kind} full scale", run, kind=kind, mode="post-seal", inst="any",
                two=False, given=False, cat=14 if kind == "OTF" else 3, scale=1)
            add(f"{kind} full scale thin", run, kind=kind, mode="post-seal", inst=True,
                two=False, given=False, cat=14 if kind == "OTF" else 3, scale=1,
                tn="thin")
    for ns in (False, True):
        for thin in (False, True):
            add(f"BSDS no_split={ns} thin={thin}", bsds, no_split=ns, given=not thin,
                thin=thin)
    add("BSDS val", bsds, no_split=False, given=True, split="val", explicit=True)
    add("BSDS val no split", bsds, no_split=True, given=True, split="val")
    add("BSDS suppression", bsds, no_split=False, given=True, nms=True, ng=1)
    add("BSDS missing", bsds, no_split=False, given=False, missing=True)
    add("BSDS scale", bsds_scale, "all scales")
    return out
