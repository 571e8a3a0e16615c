"""C08: AUC and AP integrate the precision-recall curve as defined."""
import random

from symex.harness_common import Case
from . import scores as S

FUNCTIONS = ["pyEdgeEval.common.binary_label.calculate_metrics: calculate_metrics",
             "pyEdgeEval.common.multi_label.calculate_metrics: calculate_metrics",
             "pyEdgeEval.common.metrics: compute_rec_prec_f1, interpolated_max_scores",
             "NumPy: unique, interp, linspace, arange, max with initial (modelled)"]
OUTSIDE = ("more than 4 thresholds or 2 samples; recall combinations outside the list of "
           "a case (recalls fully symbolic only with one and two thresholds)")
ASSUMPTIONS = ["matched predicted counts (and, where a case says so, matched ground "
               "truth) are real numbers between 0 and their total, in real arithmetic; "
               "on the real code a recall within 1e-9 of a level may count either way; "
               "among thresholds of equal recall any precision may represent it in AUC"]
PKGS = ("binary_label", "multi_label")
N = None


def areas(ctx, combos, tot, pkg, split=False):
    """recalls concrete (one of combos), precisions symbolic"""
    rec = ctx.pick("recalls", combos)
    nt = len(rec)
    G = 840
    if split:
        # the same totals in two samples
        a = [(G // 2, tot[k], min(r, G // 2), N) for k, r in enumerate(rec)]
        b = [(G // 2, tot[k] + k, r - min(r, G // 2), N if k == 0 else 1)
             for k, r in enumerate(rec)]
        cells = [a, b]
    else:
        cells = [[(G, tot[k], r, N) for k, r in enumerate(rec)]]
    counts = S.reals(ctx, cells, nt)
    _, _, o = S.run(ctx, pkg, counts, [(k + 1) / (nt + 1) for k in range(nt)])
    er, ep, _ = S.totals(ctx, counts, nt)
    verdict(ctx, er, ep, o)
    xs, choices = S.auc_choices(er, ep)
    ok = []
    for ps in choices:
        lo, hi = S.auc_of(ctx, xs, ps)
        ok.append(ctx.And(lo - 1e-9 <= o["AUC"], o["AUC"] <= hi + 1e-9))
    ctx.check(ctx.Or(*ok), "AUC")
    ctx.check(ctx.And(o["AUC"] >= -1e-12, o["AUC"] <= 1 + 1e-9), "AUC in [0, 1]")


def verdict(ctx, er, ep, o):
    lo, hi = S.ap(ctx, er, ep)
    ctx.check(ctx.And(lo - 1e-9 <= o["AP"], o["AP"] <= hi + 1e-9), "AP")
    ctx.check(ctx.And(o["AP"] >= -1e-12, o["AP"] <= 1 + 1e-9), "AP in [0, 1]")
    ctx.check(ctx.Implies(ctx.Or(*[ctx.And(r == 1, p == 1) for r, p in zip(er, ep)]),
                          o["AP"] >= 1 - 1e-9), "perfect detector")


def one(ctx, pkg, ns):
    """recall and precision symbolic, one threshold"""
    counts = S.reals(ctx, [[(7, 5)], [(4, 9)]][:ns], 1)
    _, _, o = S.run(ctx, pkg, counts, [0.5])
    er, ep, _ = S.totals(ctx, counts, 1)
    verdict(ctx, er, ep, o)
    ctx.check(ctx.close(o["AUC"], 0.0), "AUC of a single point")


def two(ctx, pkg):
    """recalls symbolic, precisions concrete"""
    p = [(0.5, 1.0), (1.0, 0.25)]
    p = ctx.pick("precisions", p)
    counts = S.reals(ctx, [[(1, 4, N, 4 * x) for x in p]], 2)
    _, _, o = S.run(ctx, pkg, counts, [0.3, 0.6])
    er, ep, _ = S.totals(ctx, counts, 2)
    lo, hi = S.ap(ctx, er, ep)
    ctx.check(ctx.And(lo - 1e-9 <= o["AP"], o["AP"] <= hi + 1e-9), "AP")


def nothing(ctx, pkg):
    _, _, o = S.run(ctx, pkg, [], [0.2, 0.6])
    ctx.check(o["AUC"] == 0 and o["AP"] == 0, "no samples")


# recalls in 840ths: exact quarters, levels, values between levels, extremes
POOL = [0, 1, 210, 280, 333, 420, 481, 630, 700, 839, 840]


def combos(nt, n, seed):
    r = random.Random(seed)
    out = [tuple([840] * nt), tuple([0] * nt), tuple(sorted(POOL[2:2 + 2 * nt:2],
                                                             reverse=True))]
    while len(out) < n:
        c = tuple(r.choice(POOL) for _ in range(nt))
        if r.random() < 0.6:
            c = tuple(sorted(c, reverse=True))
        if c not in out:
            out.append(c)
    return out


def cases(tier):
    q = tier == "quick"
    out = []
    b = "recalls from the list of the case, matched predictions every real value"
    for i, pkg in enumerate(PKGS):
        for ns in (1, 2):
            out.append(Case(f"1 threshold {ns} {pkg}", one, "every recall and precision",
                            pkg=pkg, ns=ns))
        out.append(Case(f"no samples {pkg}", nothing, "", pkg=pkg))
        pairs = [(a, c) for a in POOL for c in POOL]
        random.Random(3 + i).shuffle(pairs)
        k = 18 if q else len(pairs)
        for j in range(0, k, 6):
            out.append(Case(f"2 thresholds {j} {pkg}", areas, b, combos=pairs[j:j + 6],
                            tot=[5, 3], pkg=pkg, prio=2))
        for j in range(2 if q else 20):
            out.append(Case(f"3 thresholds {j} {pkg}", areas, b, tot=[7, 5, 3], pkg=pkg,
                            combos=combos(3, 6, 10 * j + i)[0 if j == 0 else 2:],
                            prio=3))
        for j in range(1 if q else 10):
            out.append(Case(f"4 thresholds {j} {pkg}", areas, b, tot=[9, 7, 5, 3],
                            pkg=pkg, combos=combos(4, 6, 100 + 10 * j + i)[2:], prio=4))
        out.append(Case(f"2 samples {pkg}", areas, b, tot=[5, 3], pkg=pkg, split=True,
                        combos=combos(2, 4, 50 + i)[1:], prio=2))
        if not q:
            out.append(Case(f"symbolic recalls {pkg}", two, "recalls every real value",
                            pkg=pkg, prio=4))
    return out
