"""C11: multi-label edge encodings are lossless and bit-exact."""
from symex.harness_common import Case

FUNCTIONS = ["pyEdgeEval.common.multi_label.edge_encoding: "
             "default_multilabel_encoding, rgb_multilabel_encoding",
             "pyEdgeEval.common.multi_label.edge_decoding: decode_png, decode_tif, "
             "binary_multilabel_decoding",
             "pyEdgeEval.utils.convert_formats: edge_onehot2multilabel"]
OUTSIDE = ("maps larger than 2x2 (the coding is per pixel); class counts are taken "
           "one by one from the list of a case, every pixel bit is symbolic")
ASSUMPTIONS = ["PNG and TIFF files keep 8-bit colour and 32-bit integer pixels "
               "(a marker image is written and read back with Pillow)"]
TYPES = ["bool", "uint8", "int8", "uint16", "int16", "int32", "uint32", "int64",
         "uint64"]


def bit(ctx, x, k):
    return (x // 2 ** k) % 2


def rgb(ctx, n, m, dtype, shape, via_file):
    ML = ctx.mod("pyEdgeEval.common.multi_label")
    Image = ctx.mod("PIL.Image")
    e = ctx.bools("e", (n,) + shape, dtype)
    want = e.copy()
    img = ML.rgb_multilabel_encoding(e)
    ctx.check(ctx.same(e, want), "the maps are not changed")
    ctx.check(img.shape == shape + (3,), "a colour image")
    ctx.check(img.dtype == ctx.np.uint8, "8 bits per channel")
    for i in range(shape[0]):
        for j in range(shape[1]):
            for ch in range(3):
                lo = 8 * (2 - ch)
                v = ctx.sum([ctx.If(want[k, i, j] != 0, 2 ** (k - lo), 0)
                             for k in range(lo, min(n, lo + 8))])
                ctx.check(img[i, j, ch] == v, "class k is bit k from the last channel")
    if via_file:
        ctx.write_image("a/e.png", img)
        pim = Image.open(ctx.path("a/e.png"))
    else:
        pim = Image.fromarray(img)
    d = ML.decode_png(pim, m)
    ctx.check(d.shape == (m,) + shape, "one map per class")
    ctx.check(ctx.And(d[:min(m, n)] == want[:min(m, n)]), "lossless")
    if m > n:
        ctx.check(ctx.And(d[n:] == 0), "missing classes are empty")


def wide(ctx, n, m, dtype, shape, enc, via):
    ML = ctx.mod("pyEdgeEval.common.multi_label")
    Image = ctx.mod("PIL.Image")
    np = ctx.np
    e = ctx.bools("e", (n,) + shape, dtype)
    want = e.copy()
    if enc == "default":
        x = ML.default_multilabel_encoding(e)
    else:
        x = ctx.mod("pyEdgeEval.utils").edge_onehot2multilabel(e)
    ctx.check(ctx.same(e, want), "the maps are not changed")
    ctx.check(x.shape == shape, "one number per pixel")
    ctx.check(x.dtype == np.uint32, "32 bits")
    for i in range(shape[0]):
        for j in range(shape[1]):
            v = ctx.sum([ctx.If(want[k, i, j] != 0, 2 ** k, 0) for k in range(n)])
            ctx.check(x[i, j] == v, "class k is bit k")
    h, w = shape
    if via == "tif":
        ctx.write_image("a/e.tif", x.view(np.int32))
        d = ML.decode_tif(Image.open(ctx.path("a/e.tif")), m)
    elif via == "tif-mem":
        d = ML.decode_tif(Image.fromarray(x.view(np.int32)), m)
    else:
        ctx.mkdir("a")
        x.tofile(ctx.path("a/e.bin"))
        d = ML.binary_multilabel_decoding(ctx.path("a/e.bin"), h, w, m)
    ctx.check(d.shape == (m, h, w), "one map per class")
    ctx.check(ctx.And(d[:min(m, n)] == want[:min(m, n)]), "lossless")
    if m > n:
        ctx.check(ctx.And(d[n:] == 0), "missing classes are empty")


def refused(ctx, n):
    ML = ctx.mod("pyEdgeEval.common.multi_label")
    e = ctx.bools("e", (n, 1, 1), "uint8")
    ex = ctx.raises(lambda: ML.rgb_multilabel_encoding(e))
    ctx.check(ex is not None, "more than 24 classes are refused")


def cases(tier):
    q = tier == "quick"
    out = []
    b = "every stack of 0/1 maps of the shape"
    ns = [1, 3, 8, 9, 16, 17, 19, 24] if q else range(1, 25)
    for n in ns:
        out.append(Case(f"rgb {n}", rgb, b, n=n, m=n, dtype="uint8", shape=(1, 2),
                        via_file=n % 2 == 0))
    for n, m in ((24, 1), (24, 20), (20, 19), (17, 8), (24, 15), (5, 20)):
        out.append(Case(f"rgb {n} as {m}", rgb, b, n=n, m=m, dtype="uint8",
                        shape=(1, 1), via_file=True))
    for t in TYPES:
        for n in ((24,) if q else (7, 8, 15, 24)):
            out.append(Case(f"rgb {t} {n}", rgb, b, n=n, m=n, dtype=t, shape=(1, 1),
                            via_file=False))
        for enc in ("default", "onehot"):
            for n in ((32,) if q else (8, 15, 16, 31, 32)):
                out.append(Case(f"{enc} {t} {n}", wide, b, n=n, m=n, dtype=t,
                                shape=(1, 1), enc=enc, via="tif-mem"))
    ns = [1, 8, 9, 19, 31, 32] if q else range(1, 33)
    for n in ns:
        for via in ("tif", "bin"):
            out.append(Case(f"default {via} {n}", wide, b, n=n, m=n, dtype="uint8",
                            shape=(2, 1), enc="default", via=via))
    for n, m in ((32, 1), (32, 31), (20, 19), (19, 8), (4, 9)):
        for via in ("tif", "bin"):
            out.append(Case(f"default {via} {n} as {m}", wide, b, n=n, m=m,
                            dtype="uint8", shape=(1, 2), enc="default", via=via))
    for sh in ((2, 3), (3, 2)):
        out.append(Case(f"rgb shape {sh}", rgb, b, n=9, m=9, dtype="uint8", shape=sh,
                        via_file=True))
        for via in ("tif", "bin"):
            out.append(Case(f"default {via} shape {sh}", wide, b, n=9, m=9,
                            dtype="uint8", shape=sh, enc="default", via=via))
    for n in (25, 26, 32):
        out.append(Case(f"refused {n}", refused, b, n=n))
    return out
