"""C21: parallel evaluation gives the same ordered results as serial evaluation."""
from symex.harness_common import Case
from .C17 import NCLS, World, make

FUNCTIONS = ["pyEdgeEval.utils.progressbar: ProgressBar, init_pool, track_progress, "
             "track_parallel_progress, track_iter_progress",
             "pyEdgeEval.utils.timer: Timer",
             "pyEdgeEval.common.*.calculate_metrics with several processes",
             "the evaluators with several processes"]
OUTSIDE = ("more than four tasks or three workers; workers that die; what the display "
           "shows")
ASSUMPTIONS = ["multiprocessing.Pool runs each chunk once on one of its workers, in "
               "any order, and workers share nothing with the parent",
               "the length of a printed number is anything from 0 to 400 signs"]
G = {}


class Boom(Exception):
    pass


def note(i):
    ctx, k = G["ctx"], 0
    while ctx.exists(f"done/{i}.{k}"):
        k += 1
    ctx.write_text(f"done/{i}.{k}", "")


def task(x, add=0):
    """a task that notes every execution"""
    i, v = x
    note(i)
    return i, v * 2 + add


def setup(n):
    G["init"] = n


def task_init(x):
    i, v = x
    note(i)
    return i, v + 1


def fails(x):
    i, v = x
    note(i)
    if i == 1:
        raise Boom("task 1")
    return i, v


def executed(ctx, n):
    ctx.check(ctx.files("done") == sorted(f"{i}.0" for i in range(n)),
              "every task executed exactly once")


def world(ctx, n, clock=True):
    """any clock, any terminal"""
    G["ctx"] = ctx
    G.pop("init", None)
    ctx.mkdir("done")
    w = ctx.int("width", 1, 1000)
    ctx.set_term(lambda: (w, 24))
    if clock:
        t = ctx.reals("clock", (2 * n + 8,), 0, 2e9)
        k = [0]

        def now():
            k[0] += 1
            return t[min(k[0], len(t)) - 1]
        ctx.set_clock(now)
    v = ctx.ints("v", (max(n, 1),), -1000, 1000)
    return [(i, v[i]) for i in range(n)]


def given(tasks, form):
    if form == "list":
        return list(tasks)
    if form == "counted":
        return (iter(tasks), len(tasks))
    if form == "undercounted":
        return (iter(tasks), 1)
    if form == "uncounted":
        return (iter(tasks), 0)
    return range(0)


FORMS = ["list", "counted", "undercounted", "uncounted"]


def results(ctx, got, tasks, f, ordered=True):
    got = list(got)
    ctx.check(len(got) == len(tasks), "one result per task")
    if ordered:
        ctx.check([g[0] for g in got] == [t[0] for t in tasks], "in task order")
    ctx.check(sorted(g[0] for g in got) == list(range(len(tasks))),
              "every task has its result")
    for g in got:
        ctx.check(g[1] == f(tasks[g[0]][1]), "the result of the task")


def serial(ctx, n, bar):
    tasks = world(ctx, n)
    U = ctx.mod("pyEdgeEval.utils")
    form = ctx.pick("form", FORMS)
    r = U.track_progress(task, given(tasks, form), no_bar=not bar, add=5)
    results(ctx, r, tasks, lambda v: v * 2 + 5)
    executed(ctx, n)
    wide = U.track_progress(task, given(tasks, form), bar_width=ctx.int("bar", 0, 300),
                            no_bar=not bar)
    results(ctx, wide, tasks, lambda v: v * 2)


def iterate(ctx, n):
    tasks = world(ctx, n)
    U = ctx.mod("pyEdgeEval.utils.progressbar")
    form = ctx.pick("form", FORMS)
    got = list(U.track_iter_progress(given(tasks, form)))
    ctx.check([g[0] for g in got] == list(range(n)), "every task once, in order")
    for g, t in zip(got, tasks):
        ctx.check(g[1] == t[1], "the task itself")


def parallel(ctx, n, nproc, chunk, ordered, skip, bar, init=False):
    tasks = world(ctx, n, clock=bar)
    ctx.schedule("any")
    U = ctx.mod("pyEdgeEval.utils")
    form = ctx.pick("form", FORMS) if bar and not init else "list"
    kw = dict(chunksize=chunk, keep_order=ordered, skip_first=skip, no_bar=not bar)
    if init:
        r = U.track_parallel_progress(task_init, tasks, nproc, initializer=setup,
                                      initargs=(3,), **kw)
        results(ctx, r, tasks, lambda v: v + 1, ordered)
    else:
        r = U.track_parallel_progress(task, given(tasks, form), nproc, **kw)
        results(ctx, r, tasks, lambda v: v * 2, ordered)
    executed(ctx, n)


def defaults(ctx, n, nproc):
    """without options the order of the tasks is kept"""
    tasks = world(ctx, n)
    ctx.schedule("any")
    U = ctx.mod("pyEdgeEval.utils")
    r = U.track_parallel_progress(task, tasks, nproc)
    results(ctx, r, tasks, lambda v: v * 2)
    executed(ctx, n)
    s = U.track_progress(task, tasks)
    ctx.check([x[0] for x in r] == [x[0] for x in s] and ctx.And(
        *[a[1] == b[1] for a, b in zip(r, s)]), "the same as serial execution")


def refused(ctx):
    U = ctx.mod("pyEdgeEval.utils")
    G["ctx"] = ctx
    bad = ctx.pick("tasks", [5, None, ([1], 1.5), (7, 1), ([1], 1, 2)])
    ctx.check(ctx.raises(lambda: U.track_progress(task, bad)) is not None, "refused")
    ctx.check(ctx.raises(lambda: U.track_parallel_progress(task, bad, 2)) is not None,
              "refused")


def failing(ctx, nproc):
    """a failing task is not hidden"""
    tasks = world(ctx, 3, clock=False)
    ctx.schedule("any")
    U = ctx.mod("pyEdgeEval.utils")
    f = (lambda: U.track_progress(fails, tasks)) if nproc == 1 else (
        lambda: U.track_parallel_progress(fails, tasks, nproc))
    r = ctx.raises(f)
    ctx.check(r is not None and "task 1" in str(r), "the failure is raised")


def counts(sample):
    note(sample["name"])
    return tuple(sample["counts"])


KEYS = ["ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall",
        "OIS_precision", "OIS_f1", "AUC", "AP"]


def scores(ctx, kind, ns, nproc, free=None, mode="order"):
    """dataset scores with several processes and with one"""
    np = ctx.np
    G["ctx"] = ctx
    ctx.mkdir("done")
    ctx.schedule(mode)
    M = ctx.mod(f"pyEdgeEval.common.{kind}_label.calculate_metrics")
    samples = []
    for i in range(ns):
        c = ctx.ints(f"c{i}", (2,), 0, 3) if i == free else np.array([i + 1, 3 - i])
        x = [c * 1.0, np.array([4.0 + i, 4.0 + i]), c * 1.0, np.array([5.0, 3.0 + i])]
        samples.append(dict(name=str(i), counts=x))
    a = M.calculate_metrics(counts, [0.25, 0.5], samples, nproc=nproc)
    executed(ctx, ns)
    ctx.schedule("fixed")
    b = M.calculate_metrics(counts, [0.25, 0.5], samples, nproc=1)
    ctx.check([x["name"] for x in a[0]] == [str(i) for i in range(ns)],
              "a result per sample, in order")
    for x, y in zip(a[0], b[0]):
        for k in ("threshold", "recall", "precision", "f1"):
            ctx.check(x[k] == y[k], f"the sample's {k}")
    for x, y in zip(a[1], b[1]):
        for k in ("threshold", "recall", "precision", "f1"):
            ctx.check(x[k] == y[k], f"the threshold's {k}")
    for k in KEYS:
        ctx.check(a[2][k] == b[2][k], f"overall {k}")


def evaluator(ctx, kind, nproc, free):
    """a whole evaluation of three samples"""
    sbd = kind == "SBD"
    names = ["c", "a b", "b"] if sbd else ["u/c", "t/a", "u/b"]
    shape = (11, 11) if sbd else (2, 2)
    pix = [(5, 5)] if sbd else [(0, 0)]
    w = World(ctx, kind, 3, "val", names, shape, shape, pix, pix, shape, pix)
    for i, s in enumerate(names):
        if i != free:                    # only one sample is free
            for x in (w.edge[s, "" if sbd else "gtProc_", "raw", True], w.pred[s],
                      w.seg[s]):
                ctx.assume(x[pix[0]] == (
                    i % 2 if x is not w.pred[s] else 255 * (i < 2)) if x is not
                    w.seg[s] else x[pix[0]] == 3)
    ev = make(ctx, kind)
    ev.set_eval_params(scale=1, instance_sensitive=True, eval_mode="post-seal",
                       apply_thinning=False)
    f = lambda n, d: ev.evaluate_category(category=3, thresholds=[0.3, 0.6], nproc=n,
                                          save_dir=ctx.path(d))
    ctx.schedule("order")
    a = f(nproc, "many")
    ctx.schedule("fixed")
    b = f(1, "one")
    for k in KEYS:
        ctx.check(a[k] == b[k], f"the same {k}")
    ctx.check(ctx.files("many") == ctx.files("one"), "the same files")
    la, lb = (ctx.read_text(d + "/class_003/eval_bdry_img.txt").split("\n")
              for d in ("many", "one"))
    ctx.check(len(la) == len(lb), "the same samples")
    for x, y, s in zip(la, lb, names):
        ctx.check(x.startswith(s + " ") and y.startswith(s + " "), "in the same order")
        for p, q in zip(x[len(s):].split(), y[len(s):].split()):
            ctx.check(ctx.number(p) == ctx.number(q), "the same values")


def cases(tier):
    out = []
    b = "all task values, clocks, terminal widths, schedules"

    def add(name, fn, bounds=b, **k):
        out.append(Case(name, fn, bounds, **k))
    for n in range(4):
        for bar in (True, False):
            add(f"serial {n} bar={bar}", serial, n=n, bar=bar)
        add(f"iterate {n}", iterate, n=n)
    for n in range(0, 5):
        for nproc in (1, 2, 3):
            for chunk in (1, 2):
                for ordered in (True, False):
                    if n == 4 and (nproc > 2 or chunk == 1) or n == 3 and nproc == 3 \
                            and chunk == 1 and not ordered:
                        continue
                    for skip in (False, True):
                        add(f"parallel {n} nproc={nproc} chunk={chunk} order={ordered} "
                            f"skip={skip}", parallel, n=n, nproc=nproc, chunk=chunk,
                            ordered=ordered, skip=skip, bar=False)
    for n in range(0, 4):
        for nproc in (1, 2):
            for skip in (False, True):
                add(f"display {n} nproc={nproc} skip={skip}", parallel, n=n,
                    nproc=nproc, chunk=1, ordered=True, skip=skip, bar=True)
        add(f"defaults {n}", defaults, n=n, nproc=2)
    for n in (1, 2):
        add(f"initialiser {n}", parallel, n=n, nproc=2, chunk=1, ordered=True,
            skip=False, bar=False, init=True)
    add("refused", refused, "")
    for nproc in (1, 2):
        add(f"failing {nproc}", failing, "all schedules", nproc=nproc)
    for kind in ("binary", "multi"):
        for ns, nproc in ((1, 2), (2, 2), (3, 2), (2, 3)):
            for free in range(ns):
                add(f"scores {kind} {ns} {nproc} {free}", scores,
                    "counts of one sample up to 3, all orders", kind=kind, ns=ns,
                    nproc=nproc, free=free)
        add(f"scores {kind} any worker", scores, "all orders and workers", kind=kind,
            ns=3, nproc=2, mode="any")
    for kind in ("SBD", "CS"):
        for free in range(3):
            add(f"evaluator {kind} {free}", evaluator,
                "free pixels of one sample, all orders", kind=kind, nproc=2, free=free)
    return out
