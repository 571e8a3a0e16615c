"""C19: command lines pass thresholds, categories and switches through faithfully."""
from symex.harness_common import Case
from .C16 import size
from .C17 import CLS, NCLS, World, expect, protocol, tolerance

FUNCTIONS = ["pyEdgeEval.helpers.evaluate_sbd, evaluate_cityscapes, evaluate_bsds500: "
             "parse_args, evaluate, evaluate_reanno, evaluate_* (run from a command line)",
             "scripts/evaluate/*.py", "the evaluators they set up"]
OUTSIDE = ("threshold and category texts with more than three numbers; the wording of "
           "error messages; the time in the name of the default output directory")
ASSUMPTIONS = ["argparse splits the command line (its own code runs)",
               "reading the decimal text of a number gives the number",
               "files are those of a virtual file system"]

#        module, function, script, evaluator, attribute module
CMD = {
    "SBD": ("evaluate_sbd", "evaluate_sbd", "scripts/evaluate/sbd.py", "SBD"),
    "Reanno": ("evaluate_sbd", "evaluate_reanno_sbd", None, "Reanno"),
    "raw": ("evaluate_cityscapes", "evaluate_cityscapes_raw",
            "scripts/evaluate/cityscapes_raw.py", "CS"),
    "half": ("evaluate_cityscapes", "evaluate_cityscapes_raw",
             "scripts/evaluate/cityscapes_raw.py", "Half"),
    "thin": ("evaluate_cityscapes", "evaluate_cityscapes_thin",
             "scripts/evaluate/cityscapes_thin.py", "Half"),
    "BSDS": ("evaluate_bsds500", "evaluate_bsds500", "scripts/evaluate/bsds500.py",
             "BSDS"),
}
KEYS = ["ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall",
        "OIS_precision", "OIS_f1", "AUC", "AP"]
DEFMD = {"SBD": 0.02, "Reanno": 0.02, "raw": 0.0035, "half": 0.0035, "thin": 0.0035,
         "BSDS": 0.0075}


def launch(ctx, cmd, args, script=False, **k):
    """run the command; the exception that ended it, or None"""
    ctx.argv(args)
    m, f, sc, _ = CMD[cmd]

    def go():
        if script and sc:
            ctx.script(sc)
        else:
            getattr(ctx.mod("pyEdgeEval.helpers." + m), f)(**k)
    return ctx.raises(go, Exception, SystemExit)


def dataset(ctx, cmd):
    if cmd == "BSDS":
        for s in ("val", "test"):
            ctx.write_text(f"data/groundTruth/{s}/{s}1.mat", "")
    else:
        ctx.mkdir("data/gtEval/val")
        ctx.mkdir("data/gtFine/val")
        ctx.write_text("data/val.txt", "x\ny\n")
        ctx.write_text("data/splits/val.txt", "x\ny\n")
    ctx.mkdir("pred")


def record(ctx, cmd):
    """evaluators that only note what they are asked to do"""
    seen = []
    kind = CMD[cmd][3]
    if kind == "BSDS":
        E = ctx.mod("pyEdgeEval.evaluators.bsds")

        def ev(self, thresholds, nproc, save_dir, no_split_dir=False):
            seen.append(dict(ev=self, thresholds=thresholds, nproc=nproc,
                             save_dir=save_dir, no_split_dir=no_split_dir))
            return {k: 0.5 for k in KEYS}
        E.BSDS500Evaluator.evaluate = ev
        return seen
    E = ctx.mod("pyEdgeEval.evaluators" + (".sbd" if kind in ("SBD", "Reanno") else ""))
    for n in ("SBDEvaluator", "ReannoSBDEvaluator", "CityscapesEvaluator",
              "HalfCityscapesEvaluator", "OTFCityscapesEvaluator"):
        c = getattr(E, n, None)
        if c is None:
            continue

        def ec(self, category, thresholds, nproc, save_dir=None):
            seen.append(dict(ev=self, category=category, thresholds=thresholds,
                             nproc=nproc, save_dir=save_dir))
            return {k: 0.5 for k in KEYS}
        c.evaluate_category = ec
    return seen


def same_list(ctx, a, b):
    return len(a) == len(b) and ctx.And(*[x == y for x, y in zip(a, b)])


def check_thresholds(ctx, got, want):
    if isinstance(want, list):
        ctx.check(not isinstance(got, int) and len(list(got)) == len(want),
                  "every listed threshold once")
        ctx.check(same_list(ctx, list(got), want), "the listed thresholds, in order")
    else:
        ctx.check(not isinstance(got, (list, tuple)), "a count stays a count")
        ctx.check(got == want, "the count of thresholds")


def output(ctx, given):
    """every directory of results is the requested (or the default) one"""
    fs = [f for f in ctx.files("") if f.endswith(("results.txt", "overall_eval_bdry.txt"))]
    if given:
        ctx.check(sorted(fs) == ["my out/overall_eval_bdry.txt", "my out/results.txt"],
                  "results in the output directory")
    else:
        ctx.check(len(fs) == 2 and all(
            f.startswith("pred/edge_results_") and f.count("/") == 2 for f in fs)
            and len({f.split("/")[1] for f in fs}) == 1,
            "results below the predictions by default")


def texts(ctx, what, top=None):
    """(text, values, well formed)"""
    if what == "thresholds":
        f = ctx.pick("text", ["n", " n ", "[x]", "[x,y]", "[ x , y,z ]", " [x, y] ",
                              "[n]"])
        n = ctx.int("n", 0, 200)
        x = ctx.reals("x", (3,), 0, 1)
        vals = {"x": x[0], "y": x[1], "z": x[2], "n": n}
    else:
        f = ctx.pick("text", ["n", " n ", "[n]", "[n,m]", "[n, m ,k]", " [ n , m] "])
        vals = {"n": ctx.int("n", -3, 30), "m": ctx.value("m", [-1, 0, 1, 7, top, top + 1]),
                "k": ctx.value("k", [0, 1, top, top + 1])}
    names = [c for c in f if c.isalpha()]
    t = f
    for c in names:
        t = t.replace(c, f"{vals[c]}")
    got = [vals[c] for c in names]
    if what == "thresholds" and "[" not in f:
        return t, got[0]
    return t, got


def thresholds(ctx, cmd, script):
    dataset(ctx, cmd)
    seen = record(ctx, cmd)
    t, want = texts(ctx, "thresholds")
    args = ["--thresholds=" + t, ctx.path("data"), ctx.path("pred")]
    if cmd == "half":
        args.append("--half")
    if cmd != "BSDS":
        args += ["--categories", "3"]
    if cmd in ("raw", "half", "thin"):
        args.append("--nonIS")
    r = launch(ctx, cmd, args, script)
    ctx.check(r is None, "well-formed thresholds are accepted")
    ctx.check(len(seen) == 1, "evaluated once")
    check_thresholds(ctx, seen[0]["thresholds"], want)
    ctx.check(seen[0]["nproc"] == 4, "four processes by default")
    if cmd != "BSDS":
        ctx.check(seen[0]["category"] == 3, "the category")
        output(ctx, False)
    ctx.check(type(seen[0]["ev"]).__name__ == (CLS.get(CMD[cmd][3]) or
                                               "BSDS500Evaluator"), "the evaluator")


def categories(ctx, cmd):
    dataset(ctx, cmd)
    seen = record(ctx, cmd)
    n = NCLS[CMD[cmd][3]]
    t, want = texts(ctx, "categories", n)
    args = [ctx.path("data"), ctx.path("pred"), "--categories=" + t, "--output-path",
            ctx.path("my out")]
    if cmd == "half":
        args.append("--half")
    r = launch(ctx, cmd, args)
    ok = ctx.fork(ctx.And(*[ctx.And(c >= 1, c <= n) for c in want]))
    if not ok:
        ctx.check(r is not None, "categories out of range are refused")
        ctx.check(not seen, "nothing evaluated")
        return
    ctx.check(r is None, "categories in range are accepted")
    ctx.check(len(seen) == len(want), "each category once")
    ctx.check(same_list(ctx, [s["category"] for s in seen], want),
              "the categories, in order")
    output(ctx, True)


def all_categories(ctx, cmd):
    dataset(ctx, cmd)
    seen = record(ctx, cmd)
    args = [ctx.path("data"), ctx.path("pred")]
    if cmd == "half":
        args.append("--half")
    ctx.check(launch(ctx, cmd, args) is None, "accepted")
    ctx.check([s["category"] for s in seen] == list(range(1, NCLS[CMD[cmd][3]] + 1)),
              "all categories when none is given")
    ctx.check(all(s["thresholds"] == 99 for s in seen), "99 thresholds by default")
    output(ctx, False)


BAD_T = ["0.5", "abc", "[0.5", "0.5]", "[a]", "[0.5,]", "[0.1;0.2]", "(0.1,0.2)", "[]",
         "0.1,0.2", "", "[0.1 0.2]", "5,6", "[[0.1]]"]
BAD_C = ["abc", "[1", "1]", "[a]", "[1,]", "1,2", "[1;2]", "(1,2)", "[]", "2.0", "[2.0]",
         "", "[1 2]", "road", "[[1]]"]


def malformed(ctx, cmd, what):
    dataset(ctx, cmd)
    seen = record(ctx, cmd)
    t = ctx.pick("text", BAD_T if what == "thresholds" else BAD_C)
    args = [ctx.path("data"), ctx.path("pred"), f"--{what}={t}"]
    if cmd != "BSDS" and what == "thresholds":
        args += ["--categories", "1"]
    if cmd == "half":
        args.append("--half")
    launch(ctx, cmd, args)
    ctx.check(not seen, "nothing is evaluated when the text is malformed")
    ctx.check(not [f for f in ctx.files("") if f.endswith("results.txt")], "no results")


def switches(ctx, cmd, mode, inst, script=False, out=None):
    """all switches, with symbolic numbers"""
    dataset(ctx, cmd)
    seen = record(ctx, cmd)
    kind = CMD[cmd][3]
    sbd = kind in ("SBD", "Reanno")
    args = [ctx.path("data"), ctx.path("pred")]
    given = ctx.pick("tolerance given", [False, True])
    md = DEFMD[cmd]
    if given:
        md = ctx.real("md", 0.0001, 0.5)
        args.append(f"--max-dist={md}")
    scale = 1.0 if sbd or kind in ("BSDS", "Half") else 0.5
    if cmd in ("raw", "half") and ctx.pick("scale given", [False, True]):
        x = ctx.real("scale", -1, 2)
        args.append(f"--scale={x}")
        if cmd == "raw":
            scale = x
    raw = False
    if cmd in ("SBD", "Reanno", "BSDS"):
        raw = ctx.pick("raw", [False, True])
    nms = ctx.pick("nms", [False, True])
    np_ = ctx.int("nproc", 1, 64)
    args.append(f"--nproc={np_}")
    args += ["--raw"] * raw + ["--apply-nms"] * nms
    val = False
    if kind == "BSDS":
        val = ctx.pick("val", [False, True])
        args += ["--use-val"] * val
    else:
        args += ["--categories=[2]"]
        args += ["--pre-seal"] * (mode == "pre-seal") + ["--nonIS"] * (not inst)
    if cmd == "half":
        args.append("--half")
    if out:
        args += ["--output-path", ctx.path("my out")]
    kw = {}
    if kind == "BSDS":
        ns = ctx.pick("no split directory", [False, True])
        if not script:
            kw = dict(no_split_dir=ns)
    r = launch(ctx, cmd, args, script, **kw)
    if cmd == "raw":
        good = ctx.fork(ctx.And(scale > 0, scale <= 1))
        if not good:
            ctx.check(r is not None and not seen, "scales outside (0, 1] are refused")
            return
    if kind in ("CS", "Half") and mode == "pre-seal" and inst and r is not None:
        ctx.check(not seen, "nothing evaluated")
        return                          # refused combination
    ctx.check(r is None, "accepted")
    ctx.check(len(seen) == 1, "evaluated once")
    s = seen[0]
    ctx.check(s["nproc"] == np_, "the number of processes")
    ep = s["ev"].eval_params
    if kind == "BSDS":
        ctx.check(s["ev"].sample_names == (["val/val1"] if val else ["test/test1"]),
                  "the split")
        if not script:
            ctx.check(s["no_split_dir"] == ns, "flat prediction directories")
        emd = md
    else:
        emd, kill, skip, einst = protocol(
            kind, mode, inst, 0.0075 if kind == "Reanno" else md, None, None)
        ctx.check(ep["kill_internal"] == kill, "kill switch of the protocol")
        ctx.check(ep["skip_if_nonexistent"] == skip, "skip switch of the protocol")
        ctx.check(s["ev"].sample_names == ["x", "y"], "the samples of the split")
    ctx.check(ep["max_dist"] == emd, "the tolerance")
    ctx.check(ep["scale"] == scale, "the scale")
    ctx.check(ep["apply_thinning"] == (cmd == "thin" or
                                       cmd in ("SBD", "Reanno", "BSDS") and not raw),
              "thinning")
    ctx.check(ep["apply_nms"] == nms, "suppression")
    if out:
        ctx.check(s["save_dir"] == ctx.path("my out"), "the output directory")
    elif s["save_dir"] is not None:
        d = str(s["save_dir"])
        ctx.check(d.startswith(ctx.path("pred") + "/") and "/" not in d[len(ctx.path(
            "pred")) + 1:].strip("/"), "results below the predictions by default")


def bad_option(ctx, cmd):
    """options of the wrong kind stop the command"""
    dataset(ctx, cmd)
    seen = record(ctx, cmd)
    bad = ctx.pick("option", [["--max-dist=x"], ["--nproc=two"], ["--nproc=1.5"],
                              ["--unknown"], ["extra"]])
    r = launch(ctx, cmd, [ctx.path("data"), ctx.path("pred")] + bad)
    ctx.check(r is not None and not seen, "refused")


def whole(ctx, cmd, mode, inst, raw=False, nms=False, script=False, suffix=None,
          gt_dir="gtEval", scale=None):
    """the command evaluates the files and the protocol it was asked for"""
    kind = CMD[cmd][3]
    sbd = kind in ("SBD", "Reanno")
    names = ["s1"] if sbd else ["ulm/a_000"]
    k = dict(shape=(13, 13), pix=[(5, 5), (7, 7)], ppix=[(5, 6), (7, 7)],
             pbase=[(6, 5), (6, 6), (7, 5)]) if sbd else dict(
                 shape=(4, 6), pix=[(1, 1), (3, 5)], ppix=[(0, 0), (1, 2)],
                 pbase=[(0, 1), (1, 0), (1, 1)])
    sc = 1.0 if sbd else 0.5 if scale is None else scale
    shape = k["shape"]
    hshape = tuple(size(x, 0.5) for x in shape)
    pshape = hshape if kind == "Half" or not sbd and sc != 1 else shape
    cat = 3
    wk = {}
    if suffix:
        wk["psuffix"] = suffix
    if sbd and raw:
        k["pbase"] = []
    w = World(ctx, kind, cat, "val", names, shape, hshape, k["pix"],
              None if sbd else [(0, 0), (0, 1)], pshape, k["ppix"], pbase=k["pbase"],
              gt_dir=gt_dir, **wk)
    md = 0.06
    args = [ctx.path("data"), ctx.path("pred"), f"--max-dist={md}", "--thresholds=[0.5]",
            "--categories", str(cat), "--output-path", ctx.path("out"), "--nproc=1"]
    args += ["--raw"] * raw + ["--apply-nms"] * nms + ["--nonIS"] * (not inst)
    args += ["--pre-seal"] * (mode == "pre-seal") + ["--half"] * (cmd == "half")
    if suffix:
        args.append("--pred-suffix=" + suffix)
    if scale is not None:
        args.append(f"--scale={scale}")
    E = ctx.mod("pyEdgeEval.evaluators" + (".sbd" if kind == "Reanno" else ""))
    cls = getattr(E, CLS[kind])
    orig = cls.evaluate_category
    got = []

    def ec(self, *a, **kk):
        got.append(orig(self, *a, **kk))
        return got[-1]
    cls.evaluate_category = ec
    r = launch(ctx, cmd, args, script, **({} if script or gt_dir == "gtEval" else
                                          dict(gt_dir=gt_dir)))
    if kind in ("CS", "Half") and mode == "pre-seal" and inst and r is not None:
        return
    ctx.check(r is None, "the command ends well")
    ctx.check(len(got) == 1, "evaluated once")
    emd, kill, skip, einst = protocol(
        kind, mode, inst, 0.0075 if kind == "Reanno" else md, None, None)
    thin = cmd == "thin" or sbd and not raw
    tolerance(ctx, emd)
    tn = "thin" if thin else "raw"
    tot = w.counts(names, 0.5, tn, einst, emd, kill, skip, sc, thin, nms)
    expect(ctx, got[0], tot, 0.5)
    want = {"overall_eval_bdry.txt", "results.txt"} | {
        f"class_{cat:03d}/{f}" for f in ("eval_bdry.txt", "eval_bdry_img.txt",
                                         "eval_bdry_thr.txt")}
    fs = {f for f in ctx.files("out") if not f.endswith(".log")}
    ctx.check(fs == want, "results in the output directory")


def cases(tier):
    out = []

    def add(name, fn, bounds="all numbers in the texts", **k):
        out.append(Case(name, fn, bounds, **k))
    for cmd in CMD:
        for script in (False, True):
            if script and CMD[cmd][2] is None:
                continue
            add(f"{cmd} thresholds script={script}", thresholds, cmd=cmd, script=script)
        add(f"{cmd} bad thresholds", malformed, "the listed texts", cmd=cmd,
            what="thresholds")
        add(f"{cmd} bad options", bad_option, "the listed options", cmd=cmd)
        if cmd == "BSDS":
            for script in (False, True):
                add(f"BSDS switches script={script}", switches, cmd=cmd, mode=None,
                    inst=None, script=script, out=not script)
            continue
        add(f"{cmd} categories", categories, cmd=cmd)
        add(f"{cmd} all categories", all_categories, cmd=cmd)
        add(f"{cmd} bad categories", malformed, "the listed texts", cmd=cmd,
            what="categories")
        for mode in ("pre-seal", "post-seal"):
            for inst in (False, True):
                add(f"{cmd} switches {mode} {inst}", switches, cmd=cmd, mode=mode,
                    inst=inst, out=inst, script=not inst and CMD[cmd][2] is not None)
                add(f"{cmd} whole {mode} {inst}", whole,
                    "all contents of the free pixels", cmd=cmd, mode=mode, inst=inst,
                    script=inst and CMD[cmd][2] is not None)
        add(f"{cmd} whole suppression", whole, "all contents of the free pixels",
            cmd=cmd, mode="post-seal", inst=True, nms=True)
        add(f"{cmd} whole directory", whole, "all contents of the free pixels", cmd=cmd,
            mode="post-seal", inst=True, gt_dir="alt")
        if cmd in ("SBD", "Reanno"):
            for inst in (False, True):
                add(f"{cmd} whole raw {inst}", whole, "all contents of the free pixels",
                    cmd=cmd, mode="post-seal", inst=inst, raw=True)
            add(f"{cmd} whole suffix", whole, "all contents of the free pixels", cmd=cmd,
                mode="post-seal", inst=True, suffix="_x.bmp")
        if cmd == "raw":
            add("raw whole full scale", whole, "all contents of the free pixels",
                cmd=cmd, mode="post-seal", inst=True, scale=1.0)
    return out
