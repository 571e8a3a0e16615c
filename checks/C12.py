"""C12: label conversions map every pixel to exactly its own class."""
from symex.harness_common import Case

FUNCTIONS = ["pyEdgeEval.utils.convert_formats: mask2onehot, mask_label2trainId, "
             "edge_label2trainId, edge_multilabel2binary",
             "pyEdgeEval.datasets.cityscapes_attributes / sbd_attributes: label tables"]
OUTSIDE = "images larger than the shape of a case (the conversions are per pixel)"
ASSUMPTIONS = ["the Cityscapes label ids and training ids are those of the installed "
               "cityscapesscripts package"]

# id -> training id of the official table (labels evaluated on Cityscapes)
CS = {7: 0, 8: 1, 11: 2, 12: 3, 13: 4, 17: 5, 19: 6, 20: 7, 21: 8, 22: 9, 23: 10,
      24: 11, 25: 12, 26: 13, 27: 14, 28: 15, 31: 16, 32: 17, 33: 18}
LABELS = {
    "cityscapes": "pyEdgeEval.datasets.cityscapes_attributes:CITYSCAPES_labelIds",
    "sbd": "pyEdgeEval.datasets.sbd_attributes:SBD_labelIds",
    "mixed": [3, 0, 7], "twice": [5, 5, 1], "one": [255], "wide": [0, 24001, 300],
}
MAPS = {
    "cityscapes": "pyEdgeEval.datasets.cityscapes_attributes:CITYSCAPES_label2trainId",
    "sbd": "pyEdgeEval.datasets.sbd_attributes:SBD_label2trainId",
    "swap": {0: 1, 1: 0, 2: 2}, "chain": {1: 2, 2: 3, 3: 1, 0: 0}, "empty": {},
}


def get(ctx, x):
    if isinstance(x, str):
        m, n = x.split(":")
        return getattr(ctx.mod(m), n)
    return x


def onehot(ctx, labels, shape, lo, hi, dtype):
    U = ctx.mod("pyEdgeEval.utils")
    labels = get(ctx, LABELS[labels])
    m = ctx.ints("m", shape, lo, hi, dtype)
    src = m.copy()
    o = U.mask2onehot(m, labels)
    ctx.check(o.shape == (len(labels),) + shape, "one plane per label")
    ctx.check(o.dtype == ctx.np.uint8, "8-bit planes")
    ctx.check(ctx.same(m, src), "the segmentation is not changed")
    for k, l in enumerate(labels):
        for i in range(shape[0]):
            for j in range(shape[1]):
                ctx.check(o[k, i, j] == ctx.If(src[i, j] == l, 1, 0),
                          "plane k marks exactly label k")


def trainid(ctx, mp, shape, lo, hi, dtype, chan):
    U = ctx.mod("pyEdgeEval.utils")
    mp = get(ctx, MAPS[mp])
    m = ctx.ints("m", shape, lo, hi, dtype)
    src = m.copy()
    t = U.mask_label2trainId(m.reshape(shape + (1,)) if chan else m, mp)
    ctx.check(t.shape == shape, "one id per pixel")
    ctx.check(t.dtype == ctx.np.uint8, "8 bits")
    for i in range(shape[0]):
        for j in range(shape[1]):
            want = 255
            for l, v in mp.items():
                want = ctx.If(src[i, j] == l, v, want)
            ctx.check(t[i, j] == want, "mapped id, 255 for unlisted labels")


def planes(ctx, mp, n, shape, dtype):
    U = ctx.mod("pyEdgeEval.utils")
    mp = get(ctx, MAPS[mp])
    e = ctx.oneof("e", (n,) + shape, [0, 1, 2] if dtype != "bool" else [0, 1], dtype)
    src = e.copy()
    t = U.edge_label2trainId(e, mp)
    ctx.check(t.shape == (len(mp),) + shape, "one plane per training id")
    for l, v in mp.items():
        ctx.check(ctx.same(t[v], src[l].astype("uint8")),
                  "plane of the training id is the label's plane")
    ctx.check(ctx.same(e, src), "the input is not changed")


def collapse(ctx, n, shape, dtype, vals):
    U = ctx.mod("pyEdgeEval.utils")
    e = ctx.oneof("e", (n,) + shape, vals, dtype)
    src = e.copy()
    b = U.edge_multilabel2binary(e)
    ctx.check(b.shape == shape, "one value per pixel")
    for i in range(shape[0]):
        for j in range(shape[1]):
            ctx.check(b[i, j] == ctx.If(ctx.Or(*[src[k, i, j] != 0
                                                 for k in range(n)]), 1, 0),
                      "set exactly where some class has an edge")


def tables(ctx):
    A = ctx.mod("pyEdgeEval.datasets.cityscapes_attributes")
    S = ctx.mod("pyEdgeEval.datasets.sbd_attributes")
    L = ctx.mod("cityscapesscripts.helpers.labels").labels
    l = ctx.fork(ctx.int("label", -1, 40))
    off = {x.id: x.trainId for x in L if x.id >= 0 and 0 <= x.trainId < 255}
    names = {x.trainId: x.name for x in L if x.id >= 0 and 0 <= x.trainId < 255}
    inst = sorted(x.id for x in L if x.hasInstances and x.id >= 0
                  and 0 <= x.trainId < 255)
    ctx.check(A.CITYSCAPES_label2trainId.get(l) == off.get(l), "Cityscapes ids")
    ctx.check(A.CITYSCAPES_trainId2name.get(l) == names.get(l), "Cityscapes names")
    ctx.check((l in A.CITYSCAPES_inst_labelIds) == (l in inst), "instance labels")
    ctx.check((l in list(A.CITYSCAPES_labelIds)) == (0 <= l <= 33), "Cityscapes labels")
    ctx.check(S.SBD_label2trainId.get(l) == (l - 1 if 1 <= l <= 20 else None),
              "SBD training ids")
    ctx.check((l in list(S.SBD_labelIds)) == (0 <= l <= 21), "SBD labels")
    ctx.check((l in list(S.SBD_inst_labelIds)) == (1 <= l <= 20), "SBD instances")
    ctx.check((l in S.SBD_trainId2name) == (0 <= l <= 19), "SBD names")


def cases(tier):
    q = tier == "quick"
    out = []
    sh = (2, 2) if q else (3, 3)
    for n in LABELS:
        for d, lo, hi in (("uint8", 0, 255), ("int32", -1, 33999), ("int64", -5, 300)):
            out.append(Case(f"onehot {n} {d}", onehot,
                            f"every {sh} {d} image with labels in [{lo},{hi}]",
                            labels=n, shape=sh, lo=lo, hi=hi, dtype=d))
    for n in MAPS:
        for d, lo, hi in (("uint8", 0, 255), ("int32", -1, 33999)):
            for chan in (False, True):
                out.append(Case(f"train id {n} {d} {'h,w,1' if chan else 'h,w'}",
                                trainid, f"every {sh} {d} image in [{lo},{hi}]",
                                mp=n, shape=sh, lo=lo, hi=hi, dtype=d, chan=chan))
    for n, k in (("cityscapes", 34), ("sbd", 22), ("swap", 3), ("chain", 5)):
        for d in ("uint8", "bool", "int32"):
            out.append(Case(f"planes {n} {d}", planes, f"every {k}x1x2 {d} stack",
                            mp=n, n=k, shape=(1, 2), dtype=d))
    for n in (1, 2, 3, 19) if q else (1, 2, 3, 7, 19, 32):
        out.append(Case(f"collapse {n}", collapse, f"every {n}x1x2 0/1 stack", n=n,
                        shape=(1, 2), dtype="uint8", vals=[0, 1]))
    for d, v in (("uint8", [0, 1, 128, 255]), ("bool", [0, 1]), ("int64", [0, 1, 256]),
                 ("float64", [0, 0.5, 1])):
        out.append(Case(f"collapse values {d}", collapse, f"every 2x2x1 stack of {v}",
                        n=2, shape=(2, 1), dtype=d, vals=v))
    out.append(Case("tables", tables, "label -1..40"))
    return out
