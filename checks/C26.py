"""C26: batch suppression saves every prediction's own suppressed map."""
from symex.harness_common import Case

FUNCTIONS = ["pyEdgeEval.preprocess.nms.fast_nms: nms_process_one_image, nms_results, "
             "nms_all_results",
             "what they call: fast_nms and the compiled suppression (themselves C24, C05)"]
OUTSIDE = ("maps larger than 5x5; more than three files; results that exist as "
           "directories")
ASSUMPTIONS = ["files are those of a virtual file system; PNG, .npy and .mat files give "
               "back what was written (counterexamples run on real files)"]
MOD = "pyEdgeEval.preprocess.nms.fast_nms"


def image(ctx, name, k):
    """a small map with two free strengths, different for every k"""
    np = ctx.np
    v = ctx.oneof("v_" + name, (2,), [0.0, 0.5, 1.0], "float64")
    a = np.array([[((i * 5 + j * 3 + k * 7) % 11) / 22.0 for j in range(5)]
                  for i in range(4)])
    a[1, 2], a[2, 3] = v[0], v[1]
    return a


def own(ctx, a):
    """the suppressed map in 8 bits"""
    P = ctx.mod("pyEdgeEval.preprocess")
    return P.fast_nms(img=a, r=1, s=5, m=1.01, return_as_uint8=True)


def shown(ctx, rel, want):
    got = ctx.read_image(rel)
    ctx.check(got.shape == want.shape, "a map of the prediction's size")
    ctx.check(ctx.same(got, want), "the prediction's own suppressed map")


def one(ctx):
    M = ctx.mod(MOD)
    ctx.mkdir("out")
    a = image(ctx, "a", 0)
    keep = a.copy()
    save = ctx.pick("save", [True, False, None])
    path = ctx.path("out/x y.png")
    kw = {} if save is None else dict(save=save)
    r = M.nms_process_one_image(a, path, **kw) if save is not False or \
        ctx.pick("path", [True, False]) else M.nms_process_one_image(a, **kw)
    w = own(ctx, keep)
    ctx.check(ctx.same(r, w), "the suppressed map in 8 bits")
    ctx.check(ctx.same(a, keep), "the input is not changed")
    if save is False:
        ctx.check(not ctx.files("out"), "nothing is saved unless asked for")
    else:
        ctx.check(ctx.files("out") == ["x y.png"], "saved under the given name")
        shown(ctx, "out/x y.png", w)


def no_png(ctx):
    M = ctx.mod(MOD)
    ctx.mkdir("out")
    e = ctx.pick("extension", [".jpg", ".bmp", "", ".png.tif"])
    r = ctx.raises(lambda: M.nms_process_one_image(
        image(ctx, "a", 0), ctx.path("out/x" + e)))
    ctx.check(r is not None, "only PNG files")
    ctx.check(not ctx.files("out"), "nothing saved")


def folder(ctx, names, there, made):
    """every file of a directory through a loader"""
    M = ctx.mod(MOD)
    imgs = {n: image(ctx, str(k), k) for k, n in enumerate(names)}
    for n in names:
        ctx.write_text("res/" + n, "x")
    np = ctx.np
    if made or there:
        ctx.mkdir("deep/out")
    old = np.full((4, 5), 77, dtype="uint8")
    for n in there:
        ctx.write_image("deep/out/" + n, old)
    seen = []

    def loader(path):
        seen.append(path)
        return imgs[path.split("/")[-1]].copy()
    M.nms_results(ctx.path("res"), ctx.path("deep/out"), loader)
    stems = [n.rsplit(".", 1)[0] for n in names]
    ctx.check(sorted(ctx.files("deep/out")) == sorted(
        set([s + ".png" for s in stems]) | set(there)), "one result per prediction")
    for n, s in zip(names, stems):
        f = s + ".png"
        shown(ctx, "deep/out/" + f, old if f in there else own(ctx, imgs[n]))
    ctx.check(all(p.startswith(ctx.path("res")) for p in seen), "read from the results")
    ctx.check(ctx.raises(lambda: M.nms_results(
        ctx.path("nowhere"), ctx.path("o2"), loader)) is not None,
        "a missing directory is refused")


def models(ctx, fmt, names, list_, there=()):
    """every .mat or .npy file for every model"""
    M = ctx.mod(MOD)
    np = ctx.np
    imgs = {}
    for k, n in enumerate(names):
        e = "." + n.rsplit(".", 1)[1]
        if e == fmt:
            imgs[n] = image(ctx, str(k), k)
        a = imgs.get(n, np.full((4, 5), 0.75))
        if e == ".mat":
            ctx.write_mat("res/" + n, {"edge": a.copy(), "other": np.zeros((4, 5))})
        elif e == ".npy":
            ctx.write_npy("res/" + n, a)
        else:
            ctx.write_text("res/" + n, "x")
    old = np.full((4, 5), 77, dtype="uint8")
    for n in there:
        ctx.write_image("out/" + n, old)
    ms = ["m1", "m 2"] if list_ else ["m1"]
    kw = dict(key="edge") if fmt == ".mat" else {}
    if fmt != ".mat" or ctx.pick("say", [True, False]):
        kw["file_format"] = fmt
    M.nms_all_results(ms if list_ else ms[0], ctx.path("res"), ctx.path("out"), **kw)
    want = {f"{m}/{n.rsplit('.', 1)[0]}.png": n for m in ms for n in imgs}
    ctx.check(sorted(ctx.files("out")) == sorted(set(want) | set(there)),
              "one result per model and prediction of the format")
    for f, n in want.items():
        shown(ctx, "out/" + f, old if f in there else own(ctx, imgs[n]))


def models_refused(ctx):
    M = ctx.mod(MOD)
    ctx.write_mat("res/a.mat", {"edge": ctx.np.zeros((4, 5))})
    w = ctx.pick("what", ["format", "no key", "no directory"])
    kw = dict(key="edge")
    if w == "format":
        kw["file_format"] = ".png"
    elif w == "no key":
        kw = {}
    r = ctx.raises(lambda: M.nms_all_results(
        "m", ctx.path("nowhere" if w == "no directory" else "res"), ctx.path("out"), **kw))
    ctx.check(r is not None, "refused")
    ctx.check(not ctx.files("out"), "nothing saved")


def cases(tier):
    out = []
    b = "three strengths at two pixels of every map"

    def add(name, fn, bounds=b, **k):
        out.append(Case(name, fn, bounds, **k))
    add("one image", one)
    add("not a PNG", no_png, "four names")
    for names in (["100.png", "1x.jpg"], ["a.b.mat", "a c.npy"], ["s1.bmp"]):
        for there in ([], [names[0].rsplit(".", 1)[0] + ".png"]):
            add(f"folder {'+'.join(names)} {len(there)} there", folder, names=names,
                there=there, made=names[0] == "100.png")
    for fmt in (".mat", ".npy"):
        for ns in (["10" + fmt, "1 1" + fmt], ["a.b" + fmt, "a" + fmt, "a.txt"],
                   ["x.npy", "y.mat"]):
            for ls in (True, False):
                add(f"models {fmt} {'+'.join(ns)} {'list' if ls else 'one'}", models,
                    fmt=fmt, names=ns, list_=ls)
        add(f"models {fmt} there", models, fmt=fmt, names=["10" + fmt, "11" + fmt],
            list_=True, there=["m1/10.png", "m 2/11.png"])
    add("models refused", models_refused, "three mistakes")
    return out
