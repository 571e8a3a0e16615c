"""C07: dataset scores aggregate counts over samples; ODS and OIS pick the best."""
import itertools

from symex.harness_common import Case
from . import scores as S

FUNCTIONS = ["pyEdgeEval.common.binary_label.calculate_metrics: calculate_metrics",
             "pyEdgeEval.common.multi_label.calculate_metrics: calculate_metrics",
             "pyEdgeEval.common.metrics: compute_rec_prec_f1, interpolated_max_scores",
             "pyEdgeEval.common.utils: check_thresholds",
             "pyEdgeEval.utils.progressbar: track_progress"]
OUTSIDE = ("more samples and thresholds than a case has, pixel totals outside the list "
           "of a case")
ASSUMPTIONS = ["matched counts are real numbers between 0 and their total, in real "
               "arithmetic (assertions allow 1e-9); quotients of symbolic values are "
               "keyed by their polynomial normal form and expanded when the verdict "
               "needs it"]
PKGS = ("binary_label", "multi_label")
OVERALL = ("ODS_threshold", "ODS_recall", "ODS_precision", "ODS_f1", "OIS_recall",
           "OIS_precision", "OIS_f1")


def aggregate(ctx, tot, nt, pkg, ts=None, what=("t", "s", "o"), arg=None, dtype=None):
    """tot[sample][threshold] = (ground-truth total, predicted total)"""
    ns = len(tot)
    ts = list(ts or [(k + 1) / (nt + 1) for k in range(nt)])
    counts = S.reals(ctx, tot, nt) if dtype is None else S.ints(ctx, tot, nt, dtype)
    s, t, o = S.run(ctx, pkg, counts, ts if arg is None else arg)
    ctx.check([d["name"] for d in s] == [f"s{i}" for i in range(ns)],
              "one result per sample, in order")
    ctx.check(len(t) == nt, "one result per threshold")
    er, ep, ef = S.totals(ctx, counts, nt)
    if "t" in what:
        for k in range(nt):
            ctx.check(ctx.And(ctx.close(t[k]["threshold"], ts[k]),
                              ctx.close(t[k]["recall"], er[k]),
                              ctx.close(t[k]["precision"], ep[k]),
                              ctx.close(t[k]["f1"], ef[k])),
                      "threshold results are those of the summed counts")
    if "s" in what:
        sums = [0.0] * 4
        for c, d in zip(counts, s):
            k = S.first_best(ctx, c, ts, d)
            sums = [x + c[q][k] for q, x in enumerate(sums)]
        r, p, f = S.rpf(ctx, *sums)
        ctx.check(ctx.And(ctx.close(o["OIS_recall"], r),
                          ctx.close(o["OIS_precision"], p),
                          ctx.close(o["OIS_f1"], f)),
                  "OIS from the counts summed over the per-sample bests")
    if "o" in what:
        S.ods(ctx, ts, er, ep, ef, o)


def agree(ctx, tot, nt):
    """binary and multi-label versions"""
    counts = S.reals(ctx, tot, nt)
    ts = [(k + 1) / (nt + 1) for k in range(nt)]
    a = S.run(ctx, PKGS[0], counts, list(ts))
    b = S.run(ctx, PKGS[1], counts, list(ts))
    same_results(ctx, a, b, "binary and multi-label agree")


def same_results(ctx, a, b, label):
    for x, y in zip(a[:2], b[:2]):
        ctx.check(len(x) == len(y), label)
        for d, e in zip(x, y):
            for k in ("threshold", "recall", "precision", "f1"):
                ctx.check(ctx.close(d[k], e[k]), label)
    for k in list(OVERALL) + ["AUC", "AP"]:
        ctx.check(ctx.close(a[2][k], b[2][k]), label)


def order(ctx, tot, nt, pkg):
    """the order of the samples does not matter"""
    counts = S.reals(ctx, tot, nt)
    ns = len(tot)
    ts = [(k + 1) / (nt + 1) for k in range(nt)]
    names = [f"s{i}" for i in range(ns)]
    perm = ctx.pick("perm", [p for p in itertools.permutations(range(ns))
                             if list(p) != list(range(ns))])
    a = S.run(ctx, pkg, counts, list(ts), names=names)
    b = S.run(ctx, pkg, [counts[i] for i in perm], list(ts),
              names=[names[i] for i in perm])
    ctx.check([d["name"] for d in b[0]] == [names[i] for i in perm], "names in order")
    by = {d["name"]: d for d in b[0]}
    same_results(ctx, a, ([by[d["name"]] for d in a[0]], b[1], b[2]),
                 "the order of the samples does not matter")


def none(ctx, pkg):
    s, t, o = S.run(ctx, pkg, [], [0.2, 0.6])
    ctx.check(len(s) == 0, "no sample results")
    for d in t:
        ctx.check(d["recall"] == 0 and d["precision"] == 0 and d["f1"] == 0, "zeros")
    ctx.check(all(o[k] == 0 for k in OVERALL[1:]), "zeros")


def cases(tier):
    q = tier == "quick"
    out = []
    b = "matched counts: every real value up to the totals of the case"
    A = (4, 5)
    N = None
    for pkg in PKGS:
        L = [
            ("1x1", [[A]], {}), ("1x1 empty gt", [[(0, 3)]], {}),
            ("1x1 no pred", [[(3, 0)]], {}), ("1x1 nothing", [[(0, 0)]], {}),
            ("2x1", [[A], [(3, 7)]], {}), ("3x1", [[A], [(3, 7)], [(10, 2)]], {}),
            ("2x1 one empty", [[A], [(0, 7)]], {}),
            ("1x1 float", [[A]], dict(ts=[0.3], arg=0.3)),
            ("1x2 p", [[(4, 5, 4), (4, 3, 2)]], {}),
            ("1x2 p same r", [[(4, 5, 2), (4, 3, 2)]], {}),
            ("1x2 p r 0", [[(4, 5, 3), (4, 3, 0)]], {}),
            ("1x2 r", [[(4, 5, N, 2), (4, 3, N, 3)]], {}),
            ("1x2 empty pred", [[(4, 5, 3), (4, 0, 1)]], {}),
            ("1x2 unsorted", [[(4, 5, 1), (4, 3, 4)]], dict(ts=[0.9, 0.2])),
            ("1x2 number", [[(4, 5, 1), (4, 3, 4)]], dict(arg=2)),
            ("2x2 mixed", [[(4, 5, 4), (4, 3, 1, 3)], [(10, 4, N, 2), (10, 1, 5, 1)]],
             dict(what="to")),
            ("1x3 p", [[(4, 6, 4, 3), (4, 5, 2), (4, 3, 1, 3)]], dict(what="to")),
            ("1x3 inner", [[(10, 10, 10, 1), (10, 10, 9), (10, 20, 2, 19)]],
             dict(what="o")),
            ("1x3 inner r", [[(10, 10, N, 1), (10, 10, 9, 3), (10, 20, 2, 19)]],
             dict(what="o")),
            ("1x4 inner", [[(10, 10, 10, 1), (10, 10, 9, 2), (10, 10, 9), (10, 20, 2, 19)]],
             dict(what="o")),
            ("1x3 p s", [[(4, 6, 4), (4, 5, 2), (4, 3, 1)]], dict(what="ts")),
            ("2x2 p s", [[(4, 6, 4), (4, 5, 3)], [(7, 5, 5), (7, 3, 3)]],
             dict(what="ts")),
            ("1x4 s", [[(1000, 2000, 999), (1000, 1500, 700, N), (1000, 900, 500, 800),
                        (1000, 10, 4, 9)]], dict(what="ts")),
        ]
        if not q:
            L += [("2x2 m", [[(4, 5, 4), (4, 3, 1)], [(10, 4, N, 2), (10, 1, 5, 1)]], {}),
                  ("1x3 pp", [[(4, 6, 4), (4, 5, 2, 3), (4, 3, 1)]], dict(what="to")),
                  ("1x2", [[A, (4, 3)]], {}), ("1x2 b", [[(4, 0), (4, 3)]], {}),
                  ("2x2", [[A, (4, 3)], [(10, 4), (10, 0)]], {}),
                  ("1x3", [[(4, 6), (4, 5), (4, 3)]], dict(what="ts")),
                  ("1x3 o", [[(4, 6, 4), (4, 5, 2), (4, 3, 1)]], dict(what="to")),
                  ("3x2", [[(4, 6, 4), (4, 5, 2)], [(5, 6, 5), (5, 5, 2)],
                           [(0, 6), (0, 1)]], dict(what="ts")),
                  ("1x4", [[(1000, k) for k in (2000, 1500, 900, 10)]],
                   dict(what="ts"))]
        for name, tot, kw in L:
            out.append(Case(f"{name} {pkg}", aggregate, b, tot=tot, nt=len(tot[0]),
                            pkg=pkg, prio=len(tot[0]), **kw))
        out.append(Case(f"order 2x1 {pkg}", order, b, tot=[[A], [(3, 7)]], nt=1,
                        pkg=pkg, prio=3))
        out.append(Case(f"order 3x1 {pkg}", order, b, nt=1, pkg=pkg, prio=3,
                        tot=[[(4, 5, 3)], [(3, 7, N, 2)], [(0, 2)]]))
        out.append(Case(f"order 2x2 {pkg}", order, b, nt=2, pkg=pkg, prio=3,
                        tot=[[(4, 5, 3), (4, 2, 1)], [(3, 7, 2, 2), (3, 6, 1, 1)]]))
        out.append(Case(f"no samples {pkg}", none, "no samples", pkg=pkg))
    out.append(Case("agree 1x2", agree, b, tot=[[(4, 5, N, 3), (4, 3)]], nt=2, prio=3))
    return out
