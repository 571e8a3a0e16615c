"""C14: instance-sensitive edges add each instance's boundary; versions agree."""
from symex.harness_common import Case
from checks import spec

FUNCTIONS = ["pyEdgeEval.edge_tools.mask2edge_loop: loop_mask2edge, "
             "loop_instance_mask2edge",
             "pyEdgeEval.edge_tools.mask2edge_mp: mp_mask2edge, mp_instance_mask2edge "
             "and their workers",
             "pyEdgeEval.edge_tools.transforms: mask2edge, InstanceMask2Edge",
             "pyEdgeEval.datasets.otf_cityscapes: one_label_mask2edge, "
             "one_label_instance_mask2edge"]
OUTSIDE = ("images larger than the shape of a case; instance ids outside the list of "
           "a case; more labels than listed")
ASSUMPTIONS = ["shared arrays and process pools behave as documented: workers see the "
               "initialiser's arguments and write to the shared buffer",
               "cv2 returns exact Euclidean distances"]

K = 13
LABS = [0, 1, 11, 3]          # labels that may occur; 3 is ignored
CS_INST = [24, 25, 26, 27, 28, 29, 30, 31, 32, 33]
IGN = [3]
INST_LABELS = [11, 1]
IDS = [0, 11, 1001, 1012, 11001, 11012, 11100]


def inputs(ctx, shape, labs, ids, dtype, k=K, tag=""):
    lab = ctx.oneof("lab" + tag, shape, labs, "uint8")
    inst = ctx.oneof("inst" + tag, shape, ids, dtype)
    np = ctx.np
    mask = np.array([(lab == i) for i in range(k)]).astype("uint8")
    return lab, inst, mask


def expected(ctx, lab, inst, ids, l, radius, shape, use_inst, ign=IGN,
             internal=False):
    px = [(i, j) for i in range(shape[0]) for j in range(shape[1])]
    if l in ign:
        return {p: False for p in px}
    g = lab == -1
    for i in ign:
        g = g | (lab == i)
    here = ctx.Or(*[lab[p] == l for p in px])
    parts = [spec.band(ctx, lab == l, g, radius, internal)]
    if use_inst:
        for i in ids:
            if i >= 1000 and i // 1000 == l:
                own = ctx.Or(*[inst[p] == i for p in px])
                b = spec.band(ctx, inst == i, g, radius, internal)
                parts.append({p: ctx.And(own, b[p]) for p in px} if internal else b)
    return {p: ctx.And(here, ctx.Or(*[x[p] for x in parts])) for p in px}


def compare(ctx, e, want, label):
    for p in want:
        ctx.check(ctx.Iff(e[p] != 0, want[p]), label)


def loop(ctx, shape, labs, ids, radius, cv2, via, dtype):
    E = ctx.mod("pyEdgeEval.edge_tools")
    lab, inst, mask = inputs(ctx, shape, labs, ids, dtype)
    kw = dict(mask=mask, inst_mask=inst, inst_labelIds=list(INST_LABELS),
              ignore_indices=list(IGN), radius=radius, use_cv2=cv2)
    if via == "loop":
        e = E.loop_instance_mask2edge(**kw)
    elif via == "mask2edge":
        e = E.mask2edge(run_type="loop", instance_sensitive=True, **kw)
    elif via == "mp":
        e = E.mp_instance_mask2edge(nproc=2, **kw)
    elif via == "mask2edge mp":
        e = E.mask2edge(run_type="mp", instance_sensitive=True, nproc=3, **kw)
    else:
        f = E.InstanceMask2Edge(inst_labelIds=list(INST_LABELS),
                                labelIds=list(range(K)), ignore_indices=list(IGN),
                                radius=radius, use_cv2=cv2)
        res = f(lab, inst)
        e = res["edge"]
        ctx.check(ctx.same(res["mask"], lab), "mask is kept")
    ctx.check(e.shape == (K,) + shape, "one map per label")
    for l in range(K):
        if l in labs:
            compare(ctx, e[l], expected(ctx, lab, inst, ids, l, radius, shape, True),
                    "own boundary and the instances' boundaries")
        else:
            ctx.check(ctx.And(e[l] == 0), "labels that do not occur get no edges")


def plain_mp(ctx, shape, labs, radius, cv2, via):
    E = ctx.mod("pyEdgeEval.edge_tools")
    lab, inst, mask = inputs(ctx, shape, labs, [0, 1], "int32")
    kw = dict(mask=mask, ignore_indices=list(IGN), radius=radius, use_cv2=cv2)
    if via == "mp":
        e = E.mp_mask2edge(nproc=2, **kw)
    else:
        e = E.mask2edge(run_type="mp", instance_sensitive=False, nproc=1, **kw)
    f = E.loop_mask2edge(**kw)
    ctx.check(ctx.same(e, f), "loop and multi-process versions agree")
    for l in labs:
        compare(ctx, e[l], expected(ctx, lab, inst, [], l, radius, shape, False),
                "the label's boundary")


def single(ctx, shape, labs, ids, radius, cv2, dtype, use_inst):
    M = ctx.mod("pyEdgeEval.datasets.otf_cityscapes")
    lab, inst, mask = inputs(ctx, shape, labs, ids, dtype)
    l = ctx.pick("label", labs + [5])
    kw = dict(label=l, mask=mask, ignore_indices=list(IGN), radius=radius, use_cv2=cv2)
    if use_inst:
        e = M.one_label_instance_mask2edge(inst_mask=inst,
                                           inst_labelIds=list(INST_LABELS), **kw)
    else:
        e = M.one_label_mask2edge(**kw)
    ctx.check(e.shape == shape, "one map")
    compare(ctx, e, expected(ctx, lab, inst, ids, l, radius, shape, use_inst),
            "the single-label version gives the same edges")


def thin(ctx, shape, labs, ids):
    E = ctx.mod("pyEdgeEval.edge_tools")
    P = ctx.mod("pyEdgeEval.preprocess")
    lab, inst, mask = inputs(ctx, shape, labs, ids, "int32")
    e = E.loop_instance_mask2edge(
        mask=mask, inst_mask=inst, inst_labelIds=list(INST_LABELS),
        ignore_indices=list(IGN), radius=1, thin=True)
    for l in labs:
        w = expected(ctx, lab, inst, ids, l, 1, shape, True)
        t = P.binary_thin(spec.as_array(ctx, w, shape))
        compare(ctx, e[l], {p: t[p] for p in w}, "thinned union")


def internal(ctx, shape, labs, ids, cv2):
    """inner boundaries only"""
    E = ctx.mod("pyEdgeEval.edge_tools")
    lab, inst, mask = inputs(ctx, shape, labs, ids, "int32")
    via = ctx.pick("via", ["loop", "mask2edge"])
    kw = dict(mask=mask, inst_mask=inst, inst_labelIds=list(INST_LABELS),
              ignore_indices=list(IGN), radius=1, internal_only=True, use_cv2=cv2)
    e = E.loop_instance_mask2edge(**kw) if via == "loop" else \
        E.mask2edge(run_type="loop", instance_sensitive=True, **kw)
    for l in labs:
        compare(ctx, e[l], expected(ctx, lab, inst, ids, l, 1, shape, True,
                                    internal=True), "inner boundaries")


def cityscapes(ctx, shape, labs, ids, via):
    """34 labels, two ignored ones, instance labels 24 to 33"""
    E = ctx.mod("pyEdgeEval.edge_tools")
    M = ctx.mod("pyEdgeEval.datasets.otf_cityscapes")
    n = 34
    lab, inst, mask = inputs(ctx, shape, labs, ids, "int32", k=n)
    ign = [2, 3]
    kw = dict(mask=mask, inst_mask=inst, inst_labelIds=CS_INST,
              ignore_indices=list(ign), radius=2)
    if via == "single":
        e = {l: M.one_label_instance_mask2edge(label=l, **kw) for l in labs}
    elif via == "mp":
        e = E.mp_instance_mask2edge(nproc=2, **kw)
    else:
        e = E.loop_instance_mask2edge(**kw)
    for l in labs:
        compare(ctx, e[l], expected(ctx, lab, inst, ids, l, 2, shape, True, ign),
                "own boundary and the instances' boundaries")


def again(ctx, shape, inst):
    """a second multi-process call is not influenced by the first"""
    E = ctx.mod("pyEdgeEval.edge_tools")
    ids = [0, 1001, 11001]
    l1, i1, m1 = inputs(ctx, (1, 2), [0, 11], ids, "int32", tag="1")
    l2, i2, m2 = inputs(ctx, shape, [0, 1, 11], ids, "int64", tag="2")
    f = E.mp_instance_mask2edge if inst else E.mp_mask2edge

    def kw(m, i, r, ign):
        d = dict(mask=m, ignore_indices=ign, radius=r, nproc=2)
        if inst:
            d.update(inst_mask=i, inst_labelIds=list(INST_LABELS))
        return d
    e1 = f(**kw(m1, i1, 1, []))
    e2 = f(**kw(m2, i2, 2, [1]))
    for l in (0, 11):
        compare(ctx, e1[l], expected(ctx, l1, i1, ids, l, 1, (1, 2), inst, []),
                "first call")
    for l in (0, 1, 11):
        compare(ctx, e2[l], expected(ctx, l2, i2, ids, l, 2, shape, inst, [1]),
                "second call")
    for run in ("mp_mask2edge", "mp_instance_mask2edge"):
        k = dict(kw(m1, i1, 1, []), thin=True)
        if run == "mp_instance_mask2edge":
            k.update(inst_mask=i1, inst_labelIds=list(INST_LABELS))
        else:
            k.pop("inst_mask", None)
            k.pop("inst_labelIds", None)
        ctx.check(ctx.raises(lambda: getattr(E, run)(**k), NotImplementedError),
                  "thinning is not offered")


def ids_transform(ctx, shape, labs, ids):
    """training-id output of the transform"""
    E = ctx.mod("pyEdgeEval.edge_tools")
    lab, inst, mask = inputs(ctx, shape, labs, ids, "int32")
    mp = {11: 0, 1: 1}
    f = E.InstanceMask2Edge(inst_labelIds=list(INST_LABELS), labelIds=list(range(K)),
                            ignore_indices=list(IGN), radius=2, label2trainId=mp)
    r = f(lab, inst)
    ctx.check(r["edge"].shape == (2,) + shape, "one map per training id")
    for l, t in mp.items():
        compare(ctx, r["edge"][t], expected(ctx, lab, inst, ids, l, 2, shape, True),
                "edges at the training id")
    np = ctx.np
    ctx.check(ctx.same(r["mask"], np.where(lab == 11, 0, np.where(lab == 1, 1, 255))
                       .astype("uint8")), "mask in training ids")


def cases(tier):
    q = tier == "quick"
    out = []
    sets = {"a": [0, 1001, 11001, 11012], "b": [11, 1012, 11100],
            "c": [0, 3001, 5001, 1000], "last": [0, 12001, 12100]}
    if not q:
        sets["all"] = IDS
    small = dict(labs=[0, 1, 11], ids=[0, 1001, 11001])
    sh = (1, 4)
    for n, ids in sets.items():
        labs = [0, 1, 11] if n in "ab" else [0, K - 1] if n == "last" else LABS
        b = f"every {sh} label image over {labs} and instance map over {ids}"
        for via in ("loop", "mask2edge", "mp", "mask2edge mp", "transform"):
            for cv in (True, False):
                if q and (via not in ("loop", "mp") if n == "a" else
                          via not in ("loop", "mp", "transform")):
                    continue
                if q and not cv and (n != "b" or via == "transform"):
                    continue
                out.append(Case(f"{via} {n} {'cv2' if cv else 'scipy'}", loop, b,
                                shape=sh, labs=labs, ids=ids, radius=2, cv2=cv,
                                via=via, dtype="int32", prio=9))
        for ui in (True, False):
            for cv in (True, False):
                if q and not ui and n != "c":
                    continue
                out.append(Case(f"single {'inst' if ui else 'plain'} {n} "
                                f"{'cv2' if cv else 'scipy'}", single, b, shape=sh,
                                labs=labs, ids=ids, radius=2, cv2=cv, dtype="int32",
                                use_inst=ui, prio=8))
    for via in ("mask2edge", "mask2edge mp"):
        out.append(Case(f"{via} dispatch", loop, "every 1x3 image over fewer ids",
                        shape=(1, 3), radius=2, cv2=True, via=via, dtype="int32",
                        prio=8, **small))
    sh = (2, 3) if q else (3, 3)
    out.append(Case("loop 2-d", loop, f"every {sh} image over fewer ids", shape=sh,
                    radius=2, cv2=True, via="loop", dtype="int32", prio=8, **small))
    out.append(Case("mp 2-d", loop, f"every {sh} image over fewer ids", shape=sh,
                    radius=1, cv2=True, via="mp", dtype="int64", prio=8, **small))
    for via in ("mp", "mask2edge"):
        for cv in (True, False):
            labs = LABS if cv else [0, 1, 3, K - 1]
            out.append(Case(f"plain {via} {'cv2' if cv else 'scipy'}", plain_mp,
                            f"every {sh} label image over {labs}", shape=sh,
                            labs=labs, radius=2, cv2=cv, via=via))
    for cv in (True, False):
        out.append(Case(f"internal {'cv2' if cv else 'scipy'}", internal,
                        "every 1x4 image over fewer ids", shape=(1, 4), cv2=cv,
                        labs=[0, 11, 3], ids=[0, 11001, 11002], prio=7))
    for via in ("loop", "mp", "single"):
        out.append(Case(f"cityscapes {via}", cityscapes,
                        "every 1x4 image over the listed labels and ids",
                        shape=(1, 3 if q else 4), labs=[7, 24, 33, 3],
                        ids=[7, 24000, 24012, 33, 33007], via=via, prio=7))
    for inst in (True, False):
        out.append(Case(f"two calls {'inst' if inst else 'plain'}", again,
                        "every 1x2 image, then every 1x3 image", shape=(1, 3),
                        inst=inst, prio=7))
    out.append(Case("thin", thin, "every 2x3 image over fewer ids", shape=(2, 3),
                    labs=[0, 11], ids=[0, 11001, 11002], prio=7))
    out.append(Case("training ids", ids_transform, "every 1x4 image", shape=(1, 4),
                    labs=[0, 1, 11, 3], ids=[0, 1001, 11001]))
    return out
