"""C18: multi-category evaluation averages and tabulates each category once."""
import re
from symex.harness_common import Case
from .C17 import CLS, NCLS, World, make

FUNCTIONS = ["pyEdgeEval.evaluators.base: BaseMultilabelEvaluator.evaluate",
             "pyEdgeEval.evaluators.*: evaluate_category, CLASSES",
             "pyEdgeEval.common.multi_label.io: save_overall_metric, "
             "save_pretty_metrics, save_category_results"]
OUTSIDE = ("more than three categories with symbolic scores (all of them with three "
           "symbolic ones)")
ASSUMPTIONS = ["PrettyTable lays out the columns it is given (its own code runs)",
               "numpy.round returns a value within half a unit of the last place "
               "(exact on tables of values)"]
KEYS = ["ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall",
        "OIS_precision", "OIS_f1", "AUC", "AP"]
SBD = ["aeroplane", "bicycle", "bird", "boat", "bottle", "bus", "car", "cat", "chair",
       "cow", "dining table", "dog", "horse", "motor bike", "person", "potted plant",
       "sheep", "sofa", "train", "tv/monitor"]
CS = ["road", "sidewalk", "building", "wall", "fence", "pole", "traffic light",
      "traffic sign", "vegetation", "terrain", "sky", "person", "rider", "car",
      "truck", "bus", "train", "motorcycle", "bicycle"]
NAMES = {"SBD": SBD, "Reanno": SBD, "CS": CS, "Half": CS, "OTF": CS}
NAN = float("nan")


def tables(text):
    """the tables of a text: lists of {column: field}"""
    out, head, prev = [], None, None
    for ln in text.split("\n"):
        if ln.startswith("+"):
            if prev is None or not prev.startswith("|"):
                if head is None or not head:
                    head = []
                    out.append([])
            prev = ln
            continue
        if ln.startswith("|"):
            cells = [c.strip() for c in ln.strip().strip("|").split("|")]
            if head == []:
                head = cells
            else:
                out[-1].append(dict(zip(head, cells)))
            prev = ln
        else:
            head, prev = None, None
    return out


def shown(ctx, field, value, scale, n, label):
    """field is value * scale rounded to n decimals (value: number or None = NaN)"""
    x = ctx.number(field)
    if value is None:
        ctx.check(x != x, label)
        return
    ctx.check(abs(x - value * scale) <= 0.5 * 10.0 ** -n + 1e-9, label)
    if re.fullmatch(r"\d+\.\d+", field):
        ctx.check(len(field.rstrip("0").split(".")[1]) <= n, label + " (decimals)")


def mean(ctx, vals):
    """mean ignoring NaN, None when there is none"""
    kept = [v for v in vals if v is not None]
    return ctx.sum(kept) / len(kept) if kept else None


def run(ctx, kind, cats, free, save, kinds="real", metrics=None, nproc=3):
    """cats: argument; free: categories with symbolic scores"""
    n = NCLS[kind]
    ctx.mkdir("data/gtEval/val")
    ctx.mkdir("data/gtFine/val")
    ctx.mkdir("pred")
    if save:
        ctx.mkdir("out")
    order = list(range(1, n + 1)) if cats is None else (
        [cats] if isinstance(cats, int) else list(cats))
    val = {}
    hole = ctx.pick("missing", KEYS) if kinds == "nan" else None
    for c in order:
        if c in free:
            if kinds == "real":
                v = ctx.reals(f"m{c}", (len(KEYS),), 0, 1)
            elif kinds == "nan":
                v = [0.5] * len(KEYS)
                v[KEYS.index(hole)] = ctx.oneof(f"m{c}", (1,), [0.25, 0.123456, NAN],
                                                "float64")[0]
            else:
                v = ctx.oneof(f"m{c}", (len(KEYS),), [0.0, 0.8765432, 1.0], "float64")
            val[c] = {k: v[i] for i, k in enumerate(KEYS)}
        else:
            val[c] = {k: ((c * 37 + i * 11) % 97) / 97 for i, k in enumerate(KEYS)}
    seen = []
    E = ctx.mod("pyEdgeEval.evaluators" + (".sbd" if kind == "Reanno" else ""))

    class Fake(getattr(E, CLS[kind])):
        def evaluate_category(self, category, thresholds, nproc, save_dir, **k):
            seen.append((category, thresholds, nproc, save_dir))
            return dict(val[category])
    ev = Fake(dataset_root=ctx.path("data"), pred_root=ctx.path("pred"))
    ev.set_sample_names(["x"])
    ev.set_eval_params(scale=1, instance_sensitive=False)
    ts = [0.25, 0.5]
    kw = {} if metrics is None else dict(print_metrics=metrics)
    ev.evaluate(categories=cats, thresholds=ts, nproc=nproc,
                save_dir=ctx.path("out") if save else None, **kw)
    ctx.check([s[0] for s in seen] == order, "every category once, in order")
    ctx.check(all(list(s[1]) == ts for s in seen), "thresholds passed on")
    ctx.check(all(s[3] == (ctx.path("out") if save else None) for s in seen),
              "the directory is passed on")
    # values on this path: NaN or a number
    num = {c: {k: None if ctx.fork(v != v) else v for k, v in val[c].items()}
           for c in order}
    if save:
        ctx.check(sorted(ctx.files("out")) == ["overall_eval_bdry.txt", "results.txt"],
                  "the two summary files")
        f = ctx.read_text("out/overall_eval_bdry.txt").split()
        ctx.check(len(f) == 9, "nine overall values")
        for k, x in zip(KEYS, f):
            shown(ctx, x, mean(ctx, [num[c][k] for c in order]), 1, 6,
                  f"overall {k} is the mean")
        text = ctx.read_text("out/results.txt")
    else:
        ctx.check(not ctx.files("out"), "nothing written without a directory")
        text = ctx.log_text()
    ts_ = tables(text)
    ctx.check(len(ts_) == 2 and len(ts_[0]) == len(order) and len(ts_[1]) == 1,
              "a row per category and a summary")
    want = metrics or ("ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "AUC")
    percls = [k for k in want if not k.startswith("OIS") and k not in ("AUC", "AP")]
    for c, row in zip(order, ts_[0]):
        ctx.check(row["Class"] == NAMES[kind][c - 1], "the category's own name")
        for k in percls:
            ctx.check(k in row, "documented columns")
            if k == "ODS_threshold":
                shown(ctx, row[k], num[c][k], 1, 2, "class row threshold")
            else:
                shown(ctx, row[k], num[c][k], 100, 3, "class row score")
    for k in want:
        if k == "ODS_threshold":
            continue
        ctx.check(k in ts_[1][0], "documented columns")
        shown(ctx, ts_[1][0][k], mean(ctx, [num[c][k] for c in order]), 100, 3,
              "summary is the mean")


def refused(ctx, kind):
    n = NCLS[kind]
    ctx.mkdir("data/gtEval/val")
    ctx.mkdir("data/gtFine/val")
    ctx.mkdir("pred")
    ev = make(ctx, kind)
    ev.set_sample_names(["x"])
    ev.set_eval_params(scale=1, instance_sensitive=False)
    bad = ctx.pick("categories", [[], 0, n + 1, [n + 1], [0], [-1]])
    ctx.check(ctx.raises(lambda: ev.evaluate(
        categories=bad, thresholds=[0.5], nproc=1, save_dir=ctx.path("out")))
        is not None, "refused")
    ctx.check(not ctx.files("out"), "nothing written")


def whole(ctx, kind, order, save):
    """the real evaluation of two categories: directories and scores"""
    sbd = kind in ("SBD", "Reanno")
    shape = (11, 11) if sbd else (2, 2)
    pix = [(5, 5)] if sbd else [(0, 0), (1, 1)]
    s = "s1" if sbd else "ulm/a"
    World(ctx, kind, 3, "val", [s], shape, shape, pix, pix, shape, pix)
    w = {3: None}
    import_free = ctx.oneof("q", (len(pix),), [0, 255], "uint8")
    p = ctx.np.zeros(shape, dtype="uint8")
    for k, x in enumerate(pix):
        p[x] = import_free[k]
    for c in (2, 4):
        ctx.write_image(f"pred/class_{c:03d}/{s}" + (
            ".png" if sbd else "_leftImg8bit.png"), p)
    del w

    def fresh():
        ev = make(ctx, kind)
        ev.set_eval_params(scale=1, instance_sensitive=True, max_dist=0.02,
                           eval_mode="post-seal")
        return ev
    single = {c: fresh().evaluate_category(category=c, thresholds=[0.5], nproc=1,
                                           save_dir=None) for c in order}
    fresh().evaluate(categories=list(order), thresholds=[0.5], nproc=1,
                     save_dir=ctx.path("out") if save else None)
    if not save:
        ctx.check(not ctx.files("out"), "nothing written without a directory")
        return
    want = sorted(["overall_eval_bdry.txt", "results.txt"] + [
        f"class_{c:03d}/{f}" for c in order
        for f in ("eval_bdry.txt", "eval_bdry_img.txt", "eval_bdry_thr.txt")])
    ctx.check(sorted(ctx.files("out")) == want, "a directory per category")
    for c in order:
        f = ctx.read_text(f"out/class_{c:03d}/eval_bdry.txt").split()
        ctx.check(len(f) == 9, "nine values")
        for k, x in zip(KEYS, f):
            shown(ctx, x, single[c][k], 1, 6, "the category's own scores")
        f = ctx.read_text(f"out/class_{c:03d}/eval_bdry_img.txt").split()
        ctx.check(f[0] == s and len(f) == 5, "the sample")
        shown(ctx, f[2], single[c]["OIS_recall"], 1, 6, "the sample's recall")
        f = ctx.read_text(f"out/class_{c:03d}/eval_bdry_thr.txt").split()
        ctx.check(len(f) == 4, "one threshold")
        shown(ctx, f[1], single[c]["ODS_recall"], 1, 6, "the threshold's recall")
    f = ctx.read_text("out/overall_eval_bdry.txt").split()
    for k, x in zip(KEYS, f):
        shown(ctx, x, mean(ctx, [single[c][k] for c in order]), 1, 6,
              "overall mean")


def cases(tier):
    out = []
    ALL = tuple(KEYS)

    def add(name, fn, bounds="all scores in [0,1]", **k):
        out.append(Case(name, fn, bounds, **k))
    for kind in CLS:
        n = NCLS[kind]
        for save in (True, False):
            add(f"{kind} two save={save}", run, kind=kind, cats=[5, 2], free=[2, 5],
                save=save)
            add(f"{kind} all categories save={save}", run, kind=kind, cats=None,
                free=[1, 8, n], save=save)
        add(f"{kind} single", run, kind=kind, cats=n, free=[n], save=True)
        add(f"{kind} list of one", run, kind=kind, cats=[1], free=[1], save=True)
        add(f"{kind} three", run, kind=kind, cats=[9, n, 4], free=[4, 9, n], save=True,
            metrics=ALL)
        add(f"{kind} NaN", run, "one of the scores 0.25, 0.123456 or NaN", kind=kind,
            cats=[3, 1, 6], free=[1, 3, 6], save=True, kinds="nan", metrics=ALL)
        add(f"{kind} extreme", run, "scores 0, 0.8765432, 1", kind=kind, cats=[3, 1, 7],
            free=[1, 3, 7], save=True, kinds="table", metrics=ALL)
        add(f"{kind} refused", refused, "", kind=kind)
        for order in ((3, 2), (2, 3, 4)):
            add(f"{kind} whole {order}", whole, "free pixels", kind=kind, order=order,
                save=True)
        add(f"{kind} whole without directory", whole, "free pixels", kind=kind,
            order=(3, 2), save=False)
    return out
