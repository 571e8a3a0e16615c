"""C25: precision-recall plots show every algorithm's own results."""
import re
from symex.harness_common import Case

FUNCTIONS = ["pyEdgeEval.visualization.pr_curve: plot_pr_curve, _calc_r50, "
             "_load_threshold_data, _load_overall_results, "
             "_isometric_contour_line_template",
             "pyEdgeEval.common.binary_label.visualize: plot_pr_curve, "
             "_plot_bsds500_human",
             "the writers of the two files (save_threshold_metrics, "
             "save_overall_metric)"]
OUTSIDE = ("more algorithms or thresholds than a case has; the appearance beyond data, "
           "colours, legend and axis labels; results without any threshold of recall "
           "0.001")
ASSUMPTIONS = ["matplotlib draws the data it is given",
               "formatting a number prints a decimal within half a unit of the last place",
               "the nine overall values are kept to seven digits (float32)"]
KEYS = ["ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall",
        "OIS_precision", "OIS_f1", "AUC", "AP"]
COLS = ["threshold", "recall", "precision", "f1"]
NAMES = ["zeta net", "HED", "a [F]", "B"]


def module(ctx, which):
    V = ctx.mod("pyEdgeEval.visualization.pr_curve")
    P = V if which == "plain" else ctx.mod("pyEdgeEval.common.binary_label.visualize")
    return V, P


def save(ctx, V, io, i, rows, overall):
    d = f"res{i}"
    ctx.mkdir(d)
    io.save_threshold_metrics(ctx.path(d), [dict(zip(COLS, r)) for r in rows])
    io.save_overall_metric(ctx.path(d), dict(zip(KEYS, overall)))
    t = [[ctx.number(x) for x in ln.split()] for ln in
         ctx.read_text(d + "/eval_bdry_thr.txt").split("\n") if ln.strip()]
    o = [ctx.number(x) for x in ctx.read_text(d + "/eval_bdry.txt").split()]
    A = V.AlgorithmInfo(name=NAMES[i], threshold_results=ctx.path(d + "/eval_bdry_thr.txt"),
                        overall_results=ctx.path(d + "/eval_bdry.txt"))
    return A, t, o


def reference_r50(ctx, rows):
    """recall at a precision of a half (or the least precision if that is higher),
    between the neighbouring precisions; None above the highest"""
    first = {}
    for r in rows:
        for k in first:
            if ctx.fork(first[k][2] == r[2]):
                break
        else:
            first[len(first)] = r
    ps = []
    for r in first.values():
        j = 0
        while j < len(ps) and ctx.fork(ps[j][2] < r[2]):
            j += 1
        ps.insert(j, r)
    if not ctx.fork(ps[0][2] < 0.5):
        return ps[0][1]
    if ctx.fork(ps[-1][2] < 0.5):
        return None
    for a, b in zip(ps, ps[1:]):
        if ctx.fork(b[2] >= 0.5):
            return a[1] + (b[1] - a[1]) * (0.5 - a[2]) / (b[2] - a[2])


def near(x, y, tol):
    return abs(x - y) <= tol


def judge(ctx, data, names, colors, human, saved, n_bg):
    figs = ctx.figures()
    ctx.check(len(figs) == 1, "one figure")
    f = figs[0]
    ctx.check(f["labels"] == ("Recall", "Precision"), "recall over precision")
    lines, keys = f["lines"], f["keys"]
    n = len(data)
    extra = 1 if human else 0
    ctx.check(len(lines) == n_bg + n + extra, "a line for each algorithm")
    ctx.check(len(keys) == n + extra, "a legend entry for each algorithm")
    if human:
        i, text = keys[0]
        h = lines[i]
        ctx.check(text == "[F=.80] Human" and len(h["x"]) == 1 and h["marker"] == "o"
                  and h["x"][0] == 0.7235 and h["y"][0] == 0.9014,
                  "the human performance comes first")
        keys = keys[1:]
    ctx.check(len({i for i, _ in keys} | {i for i, _ in f["keys"]}) == n + extra,
              "every entry has its own line")
    order = []
    for i, text in keys:
        m = re.fullmatch(r"\[F=([^\s\]]+)\] (.*)", text, re.S)
        ctx.check(m is not None and m[2] in names, "an entry names its algorithm")
        k = names.index(m[2])
        order.append(k)
        rows, o = data[k]
        ctx.check(near(ctx.number(m[1]), o[3], 0.00500001), "its F is the ODS F1")
        keep = [r for r in rows if not ctx.fork(r[1] < 0.001)]
        ln = lines[i]
        ctx.check(len(ln["x"]) == len(keep) and len(ln["y"]) == len(keep),
                  "a point for each threshold of recall 0.001 or more")
        for x, y, r in zip(ln["x"], ln["y"], keep):
            ctx.check(x == r[1], "the recall to the right")
            ctx.check(y == r[2], "the precision upwards")
        if colors is not None:
            ctx.check(all(near(a, b, 1e-6) for a, b in zip(ln["color"], colors[k])),
                      "the colour of the algorithm")
    ctx.check(sorted(order) == list(range(n)), "every algorithm once")
    cs = [tuple(lines[i]["color"]) for i, _ in keys]
    ctx.check(len(set(cs)) == n, "distinct colours")
    for a, b in zip(order, order[1:]):
        ctx.check(data[a][1][3] >= data[b][1][3] - 1e-6, "the best ODS first")
    at = [i for i, _ in keys]
    ctx.check(at == sorted(at, reverse=True), "the best is drawn last")
    said = [x for x in ctx.printed() if "ODS=" in x]
    ctx.check(len(said) == n, "a printed line for each algorithm")
    done = []
    for s in said:
        m = re.fullmatch(r"ODS=(\S+), OIS=(\S+), AP=(\S+), R50=(\S+) - (.*)", s, re.S)
        ctx.check(m is not None and m[5] in names, "scores and name")
        k = names.index(m[5])
        done.append(k)
        rows, o = data[k]
        for i, j, q in ((1, 3, "ODS"), (2, 6, "OIS"), (3, 8, "AP")):
            ctx.check(near(ctx.number(m[i]), o[j], 0.00050001), q + " of the algorithm")
        r = reference_r50(ctx, [r for r in rows if not ctx.fork(r[1] < 0.001)])
        if r is None:
            ctx.check(m[4] == "nan", "no recall at half precision")
        else:
            ctx.check(m[4] != "nan", "a recall at half precision")
            ctx.check(near(ctx.number(m[4]), r, 0.000501), "R50 of the algorithm")
    ctx.check(sorted(done) == list(range(n)), "every algorithm printed once")
    saves = [e for e in f["events"] if e[0] == "save"]
    if saved:
        ctx.check([e[1] for e in saves] == [ctx.path(saved)], "saved where asked")
        ctx.check(ctx.exists(saved), "the file exists")
        shows = [i for i, e in enumerate(f["events"]) if e[0] == "show"]
        ctx.check(all(f["events"].index(saves[0]) < i for i in shows),
                  "saved before it is shown")
    else:
        ctx.check(not saves, "nothing saved")


def plot(ctx, which, sizes, free, own_names, own_colors, human, saved, gen,
         apart=False):
    np = ctx.np
    V, P = module(ctx, which)
    io = ctx.mod(f"pyEdgeEval.common.{gen}_label.io")
    algs, data, raw = [], [], []
    for i, k in enumerate(sizes):
        r = np.zeros((k, 4))
        for j in range(k):
            r[j] = [0.1 + 0.2 * j, 0.9 - 0.17 * j - 0.05 * i, 0.2 + 0.15 * j + 0.1 * i,
                    0.4 + 0.01 * j]
        if free in ("recall", "both"):
            r[:, 1] = ctx.reals(f"rec{i}", (k,), 0, 1)
            ctx.assume(ctx.Or(*[x >= 0.0011 for x in r[:, 1]]))
        if free in ("precision", "both"):
            r[:, 2] = ctx.oneof(f"pre{i}", (k,), [0, 0.25, 0.5, 0.6, 1], "float64")
        o = ctx.reals(f"o{i}", (9,), 0, 1)
        if apart:
            for p in raw:
                ctx.assume(abs(p - o[3]) >= 1 / 64)
            raw.append(o[3])
        a, t, q = save(ctx, V, io, i, r, o)
        algs.append(a)
        data.append((t, q))
    n = len(sizes)
    names = [a.name for a in algs]
    kw = {}
    if own_names:
        names = [f"alg {chr(66 - i)}" for i in range(n)]
        kw["names"] = list(names)
    m = n + (1 if human else 0)
    colors = None
    if own_colors:
        colors = [[0.1 + 0.25 * i, 0.5, 0.9 - 0.2 * i] for i in range(m)]
        kw["colors"] = [list(c) for c in colors]
    if saved:
        kw["save_path"] = ctx.path(saved)
    if which == "binary":
        if not human:
            kw["plot_human"] = False
    P.plot_pr_curve(algs, **kw)
    judge(ctx, data, names, colors, human, saved, 19)


def contours(ctx):
    """the background: the precision-recall pairs of equal F1"""
    V, _ = module(ctx, "plain")
    io = ctx.mod("pyEdgeEval.common.binary_label.io")
    a, t, o = save(ctx, V, io, 0, [[0.5, 0.5, 0.5, 0.5]], ctx.reals("o", (9,), 0, 1))
    V.plot_pr_curve([a])
    got = {}
    for ln in ctx.figures()[0]["lines"][:19]:
        if len(ln["x"]) == 2:
            continue
        fs = []
        for x, y in zip(ln["x"], ln["y"]):
            fs.append(2 * x * y / (x + y))
        ctx.check(max(fs) - min(fs) < 1e-9, "a contour has one F1")
        k = round(float(fs[0]) * 10)
        ctx.check(abs(fs[0] - k / 10) < 1e-9, "at a tenth")
        got[k] = got.get(k, 0) + 1
    ctx.check(got == {k: 2 for k in range(1, 10)}, "every tenth, both ways")


def wrong(ctx, which):
    V, P = module(ctx, which)
    io = ctx.mod("pyEdgeEval.common.binary_label.io")
    a, t, o = save(ctx, V, io, 0, [[0.5, 0.5, 0.5, 0.5]], ctx.reals("o", (9,), 0, 1))
    b = V.AlgorithmInfo(name="b", threshold_results=ctx.path("none.txt"),
                        overall_results=a.overall_results)
    c = V.AlgorithmInfo(name="c", threshold_results=a.threshold_results,
                        overall_results=ctx.path("none.txt"))
    k = ctx.pick("what", ["empty", "names", "colors", "thr", "all"])
    f = {"empty": lambda: P.plot_pr_curve([]),
         "names": lambda: P.plot_pr_curve([a], names=["x", "y"]),
         "colors": lambda: P.plot_pr_curve([a], colors=[[0, 0, 1]] * 3),
         "thr": lambda: P.plot_pr_curve([a, b]),
         "all": lambda: P.plot_pr_curve([a, c])}[k]
    ctx.check(ctx.raises(f) is not None, "an error")


def cases(tier):
    deep = tier == "thorough"
    out = []

    def add(which, sizes, free, names=False, colors=False, human=False, saved=None,
            gen="binary", apart=False):
        out.append(Case(f"plot-{which}-{'.'.join(map(str, sizes))}-{free}"
                        f"{'-names' if names else ''}{'-colors' if colors else ''}"
                        f"{'-human' if human else ''}{'-saved' if saved else ''}"
                        f"{'-apart' if apart else ''}-{gen}",
                        plot, "algorithms with %s thresholds; every overall value; "
                        "free: %s" % (sizes, free), which=which, sizes=sizes, free=free,
                        own_names=names, own_colors=colors, human=human, saved=saved,
                        gen=gen, apart=apart))
    for which in ("plain", "binary"):
        for h in ((False, True) if which == "binary" else (False,)):
            add(which, (2,), "both", human=h)
            add(which, (3,), "precision", human=h, saved="out.png")
            add(which, (2, 3), "recall", human=h, names=True)
            add(which, (1, 2), "both", human=h, colors=True)
            add(which, (2, 2), "precision", human=h, gen="multi")
            add(which, (1, 2, 1), "recall", human=h, colors=True, names=True,
                saved="x.png")
            add(which, (1, 2, 3), None, human=h, apart=True)
            add(which, (1, 2, 1, 3), None, human=h, colors=True, apart=True)
            if deep:
                add(which, (4,), "both", human=h)
                add(which, (2, 2, 2), "recall", human=h)
                add(which, (2, 2), "both", human=h, colors=True)
        out.append(Case(f"wrong-{which}", wrong, "missing files, unequal lengths",
                        which=which))
    out.append(Case("contours", contours, "the fixed background"))
    return out
