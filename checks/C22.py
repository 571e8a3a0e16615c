"""C22: saved result files hold every result to six decimals and load back."""
import re
from symex.harness_common import Case
from .C17 import World, make

FUNCTIONS = ["pyEdgeEval.common.binary_label.io: save_sample_metrics, "
             "save_threshold_metrics, save_overall_metric, save_results",
             "pyEdgeEval.common.multi_label.io: the same and save_category_results",
             "pyEdgeEval.visualization.pr_curve: _load_threshold_data, "
             "_load_overall_results", "the evaluators' evaluate with a directory"]
OUTSIDE = ("more than three results per file; sample names with line breaks; the "
           "width of the columns")
ASSUMPTIONS = ["formatting a number with six decimals prints a decimal within half a "
               "unit of the sixth place (symbolic reals; exact on tables of values)",
               "numpy.loadtxt splits lines at blanks"]
KEYS = ["ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall",
        "OIS_precision", "OIS_f1", "AUC", "AP"]
COLS = ["threshold", "recall", "precision", "f1"]


def holds(ctx, field, value, label):
    """the field is the value to six decimals"""
    x = ctx.number(field)
    ctx.check(abs(x - value) <= 0.5e-6 + 1e-9, label)
    if field[:1] != "\u27e6":
        ctx.check(re.fullmatch(r"-?\d+\.\d{6}", field) is not None,
                  label + ": six decimals")


def metrics(ctx, name, n, lo=0, hi=1):
    v = ctx.reals(name, (n, 4), lo, hi)
    return [dict(zip(COLS, v[i])) for i in range(n)]


def lines(ctx, rel):
    t = ctx.read_text(rel)
    return [x for x in t.split("\n") if x.strip()]


def check_rows(ctx, rel, rows, names=None):
    ls = lines(ctx, rel)
    ctx.check(len(ls) == len(rows), "a line per result")
    for i, (ln, r) in enumerate(zip(ls, rows)):
        if names:
            ctx.check(ln.startswith(names[i] + " "), "the name of the sample")
            ln = ln[len(names[i]):]
        f = ln.split()
        ctx.check(len(f) == 4, "four columns")
        for c, x in zip(COLS, f):
            holds(ctx, x, r[c], f"{c} in its column")


def io(ctx, kind):
    return ctx.mod(f"pyEdgeEval.common.{kind}_label.io")


def save(ctx, m, kind, sm, tm, om, cat=None):
    if kind == "binary":
        m.save_results(ctx.path("out/deep"), sm, tm, om)
        return "out/deep/"
    m.save_category_results(ctx.path("out/deep"), cat, sm, tm, om)
    return f"out/deep/class_{cat:03d}/"


def together(ctx, kind, n, k, names):
    """everything written by the writer of a whole result"""
    m = io(ctx, kind)
    sm, tm = metrics(ctx, "s", n), metrics(ctx, "t", k)
    for r, nm in zip(sm, names):
        r["name"] = nm
    o = ctx.reals("o", (9,), 0, 1)
    om = dict(zip(KEYS, o))
    cat = ctx.pick("category", [1, 7, 19, 20, 100]) if kind == "multi" else None
    top = save(ctx, m, kind, sm, tm, om, cat)
    want = [top + f for f in ("eval_bdry.txt", "eval_bdry_img.txt", "eval_bdry_thr.txt")]
    ctx.check(sorted(ctx.files("")) == want, "three files in the directory")
    check_rows(ctx, want[1], sm, names)
    check_rows(ctx, want[2], tm)
    f = ctx.read_text(want[0]).split()
    ctx.check(len(f) == 9, "nine overall values")
    for i, key in enumerate(KEYS):
        holds(ctx, f[i], om[key], f"{key} in its column")
    # a second result replaces the first
    o2 = ctx.reals("o2", (9,), 0, 1)
    save(ctx, m, kind, sm[:1], tm[:1], dict(zip(KEYS, o2)), cat)
    check_rows(ctx, want[1], sm[:1], names)
    check_rows(ctx, want[2], tm[:1])
    f = ctx.read_text(want[0]).split()
    ctx.check(len(f) == 9, "nine overall values")
    for i, key in enumerate(KEYS):
        holds(ctx, f[i], o2[i], f"{key} replaced")


def back(ctx, kind, k, lo, hi):
    """threshold and overall files read by the plotting loaders"""
    m = io(ctx, kind)
    V = ctx.mod("pyEdgeEval.visualization.pr_curve")
    tm = metrics(ctx, "t", k, lo, hi)
    m.save_threshold_metrics(ctx.mkdir("out") or ctx.path("out"), tm)
    pr = V._load_threshold_data(ctx.path("out/eval_bdry_thr.txt"))
    shown = [[ctx.number(x) for x in ln.split()]
             for ln in lines(ctx, "out/eval_bdry_thr.txt")]
    keep = [r for r in shown if not ctx.fork(r[1] < 0.001)]
    ctx.check(len(pr) == len(keep), "only thresholds with recall below 0.001 left out")
    ctx.check(tuple(pr.shape[1:]) == (4,), "four columns")
    for a, b in zip(pr, keep):
        for i in range(4):
            ctx.check(a[i] == b[i], f"{COLS[i]} read back")
    for r, v in zip(shown, tm):
        for c, x in zip(COLS, r):
            ctx.check(abs(x - v[c]) <= 0.5e-6 + 1e-9, f"{c} written")
    o = ctx.reals("o", (9,), 0, 1)
    m.save_overall_metric(ctx.path("out"), dict(zip(KEYS, o)))
    res = V._load_overall_results(ctx.path("out/eval_bdry.txt"))
    ctx.check(tuple(res.shape) == (9,), "nine values read back")
    for i in range(9):
        ctx.check(abs(res[i] - o[i]) <= 0.5e-6 + 1e-9, f"{KEYS[i]} read back")


def exact(ctx, kind):
    """values at the edges of rounding"""
    m = io(ctx, kind)
    V = ctx.mod("pyEdgeEval.visualization.pr_curve")
    ctx.mkdir("out")
    v = ctx.oneof("v", (4,), [0.0, 1.0, 0.0009994, 0.0009995, 0.0009996, 0.001,
                              1 / 3, 0.9999996, 1e-9], "float64")
    m.save_threshold_metrics(ctx.path("out"), [dict(zip(COLS, v))])
    f = lines(ctx, "out/eval_bdry_thr.txt")[0].split()
    for x, y, c in zip(f, v, COLS):
        holds(ctx, x, y, f"{c} to six decimals")
    pr = V._load_threshold_data(ctx.path("out/eval_bdry_thr.txt"))
    ctx.check((len(pr) == 0) == bool(ctx.fork(ctx.number(f[1]) < 0.001)),
              "kept unless its recall is below 0.001")
    if len(pr):
        for i in range(4):
            ctx.check(pr[0][i] == ctx.number(f[i]), "read back")


def missing(ctx):
    V = ctx.mod("pyEdgeEval.visualization.pr_curve")
    for f in (V._load_threshold_data, V._load_overall_results):
        ctx.check(ctx.raises(lambda: f(ctx.path("nothing.txt"))) is not None,
                  "a missing file is an error")


def bsds(ctx, ts, no_split):
    """the evaluator's files: each sample and threshold in its own line"""
    np = ctx.np
    E = ctx.mod("pyEdgeEval.evaluators")
    names = ["b 1", "a2"]
    for s in names:
        ctx.write_bsds(f"data/groundTruth/test/{s}.mat", [
            np.array([[1, 0, 0], [0, 0, 1]]).astype("uint8")])
        p = np.zeros((2, 3), dtype="uint8")
        f = ctx.oneof("p_" + s, (2,), [0, 128, 255], "uint8")
        p[0, 0], p[1, 1] = f[0], f[1]
        ctx.write_image(f"pred/{'' if no_split else 'test/'}{s}.png", p)

    def evaluate(ns, save):
        ev = E.BSDS500Evaluator(dataset_root=ctx.path("data"),
                                pred_root=ctx.path("pred"), split="test")
        ev.set_sample_names([f"test/{s}" for s in ns])
        ev.set_eval_params(apply_thinning=False, max_dist=0.06)
        return ev.evaluate(thresholds=ts, nproc=1, no_split_dir=no_split,
                           save_dir=ctx.path("out") if save else None)
    om = evaluate(names, True)
    alone = [evaluate([s], False) for s in names]
    want = ["eval_bdry.txt", "eval_bdry_img.txt", "eval_bdry_thr.txt"]
    ctx.check(sorted(ctx.files("out")) == want, "three files")
    f = ctx.read_text("out/eval_bdry.txt").split()
    ctx.check(len(f) == 9, "nine values")
    for x, k in zip(f, KEYS):
        holds(ctx, x, om[k], f"overall {k}")
    ls = lines(ctx, "out/eval_bdry_img.txt")
    ctx.check(len(ls) == 2, "a line per sample")
    for s, ln, a in zip(names, ls, alone):
        ctx.check(ln.startswith(f"test/{s} "), "the sample's line")
        g = ln[len(f"test/{s}"):].split()
        ctx.check(len(g) == 4, "four columns")
        for x, k in zip(g[1:], ("OIS_recall", "OIS_precision", "OIS_f1")):
            holds(ctx, x, a[k], f"the sample's {k}")
    ls = lines(ctx, "out/eval_bdry_thr.txt")
    ctx.check(len(ls) == len(ts), "a line per threshold")
    for t, ln in zip(ts, ls):
        g = ln.split()
        holds(ctx, g[0], t, "the threshold")
    one = len(ts) == 1
    if one:
        for x, k in zip(ls[0].split()[1:], ("ODS_recall", "ODS_precision", "ODS_f1")):
            holds(ctx, x, om[k], f"the threshold's {k}")


def cases(tier):
    out = []
    b = "all values in [0,1]"

    def add(name, fn, bounds=b, **k):
        out.append(Case(name, fn, bounds, **k))
    for kind in ("binary", "multi"):
        for n, k, names in ((1, 1, ["x"]), (2, 3, ["val/b.1", "a"]),
                            (3, 2, ["bonn/bonn_0 1", "100007", "-"])):
            add(f"{kind} written {n} {k}", together, kind=kind, n=n, k=k, names=names)
        for k in (1, 2, 3):
            add(f"{kind} read back {k}", back, kind=kind, k=k, lo=0, hi=1)
        add(f"{kind} exact", exact, "values at the edges of rounding", kind=kind)
    add("missing files", missing, "")
    for ts in ([0.5], [0.25, 0.75]):
        for ns in (False, True):
            add(f"BSDS evaluator {ts} {ns}", bsds, "free pixels", ts=ts, no_split=ns)
    return out
