"""oracles of the dataset scores (plain Python on concrete values)"""
import itertools

import numpy as np


def ratio(c, s):
    return c / s if s else 0.0


def fm(p, r):
    return 2 * p * r / (p + r) if p + r else 0.0


def near(a, b, tol=1e-9):
    return abs(float(a) - float(b)) <= tol


def totals_ok(counts, ts, rows):
    """rows: (threshold, recall, precision, f1) of the counts summed"""
    for k, (t, r, p, f) in enumerate(rows):
        c = [sum(float(s[q][k]) for s in counts) for q in range(4)]
        er, ep = ratio(c[0], c[1]), ratio(c[2], c[3])
        if not (near(t, ts[k]) and near(r, er) and near(p, ep)
                and near(f, fm(ep, er))):
            return False
    return len(rows) == len(ts)


def best_index(count, ts, row):
    """index of the reported threshold when it is an acceptable first best"""
    t, r, p, f = row
    ks = [k for k in range(len(ts)) if near(ts[k], t, 1e-12)]
    if len(ks) != 1:
        return None
    k = ks[0]
    rp = [(ratio(count[0][j], count[1][j]), ratio(count[2][j], count[3][j]))
          for j in range(len(ts))]
    fs = [fm(b, a) for a, b in rp]
    if fs[k] < max(fs) - 1e-12:
        return None
    if any(rp[j] == rp[k] for j in range(k)) or any(
            fs[j] == 0 for j in range(k)) and fs[k] == 0:
        return None
    if not (near(r, rp[k][0]) and near(p, rp[k][1]) and near(f, fs[k])):
        return None
    return k


def samples_ok(counts, ts, rows, ois):
    """per-sample rows and the OIS (recall, precision, f1)"""
    tot = [0.0] * 4
    for c, row in zip(counts, rows):
        k = best_index(c, ts, row)
        if k is None:
            return False
        for q in range(4):
            tot[q] += float(c[q][k])
    r, p = ratio(tot[0], tot[1]), ratio(tot[2], tot[3])
    return (len(rows) == len(counts) and near(ois[0], r) and near(ois[1], p)
            and near(ois[2], fm(p, r)))


def ods_ok(ts, rec, prec, ods):
    t, r, p, f = (float(x) for x in ods)
    cand = [(ts[0], rec[0], prec[0])]
    for i in range(1, len(ts)):
        for d in range(101):
            d = d / 100
            cand.append(tuple(x[i] * d + x[i - 1] * (1 - d) for x in (ts, rec, prec)))
    fs = [fm(c[2], c[1]) for c in cand]
    if abs(max(fs) - f) > 1e-9:
        return False
    if any(fm(b, a) > f + 1e-9 for a, b in zip(rec, prec)):
        return False
    return any(near(t, c[0]) and near(r, c[1]) and near(p, c[2])
               for c, g in zip(cand, fs) if abs(g - f) <= 1e-9)


EXACT = (0, 25, 50, 75, 100)


def ap_ok(rec, prec, ap):
    lo = hi = 0.0
    for k in range(101):
        e = 0 if k in EXACT else 1e-9
        lo += max([p for r, p in zip(rec, prec) if r >= k / 100 + e], default=0.0)
        hi += max([p for r, p in zip(rec, prec) if r >= k / 100 - e], default=0.0)
    return lo / 101 - 1e-9 <= ap <= hi / 101 + 1e-9 and -1e-12 <= ap <= 1 + 1e-9 and (
        ap >= 1 - 1e-9 or not any(r == 1 and p == 1 for r, p in zip(rec, prec)))


def auc_ok(rec, prec, auc):
    first = {}
    for r, p in zip(rec, prec):
        first.setdefault(float(r), float(p))
    xs = sorted(first)
    if len(xs) < 2:
        return abs(auc) <= 1e-9
    lo = hi = 0.0
    for k in range(100):
        x = k / 100
        if x < xs[0] or x > xs[-1]:
            v = 0.0
        else:
            j = max(i for i in range(len(xs)) if xs[i] <= x)
            v = first[xs[j]] if j == len(xs) - 1 else first[xs[j]] + (
                x - xs[j]) / (xs[j + 1] - xs[j]) * (first[xs[j + 1]] - first[xs[j]])
        a = b = v
        for end in (xs[0], xs[-1]):
            if abs(x - end) < 1e-9 and k not in EXACT:
                a, b = min(v, 0.0), max(v, first[end])
        lo, hi = lo + a, hi + b
    return lo * 0.01 - 1e-9 <= auc <= hi * 0.01 + 1e-9 and -1e-12 <= auc <= 1 + 1e-9


# ------------------------------------------------------------ in real arithmetic
def reals(ctx, tot, nt):
    """counts[sample] = (matched gt, total gt, matched pred, total pred) arrays; a
    cell (gt total, pred total[, fixed matched gt, fixed matched pred]) leaves the
    matched counts symbolic where no (or None) fixed value is given"""
    np_ = ctx.np
    out = []
    for s, row in enumerate(tot):
        row = [tuple(x) + (None,) * (4 - len(x)) for x in row]
        cr = [0.0 if not x[0] else float(x[2]) if x[2] is not None else
              ctx.real(f"r{s}_{k}", 0, x[0]) for k, x in enumerate(row)]
        cp = [0.0 if not x[1] else float(x[3]) if x[3] is not None else
              ctx.real(f"p{s}_{k}", 0, x[1]) for k, x in enumerate(row)]
        out.append([np_.array(cr), np_.array([float(x[0]) for x in row]),
                    np_.array(cp), np_.array([float(x[1]) for x in row])])
    return out


def rpf(ctx, cr, sr, cp, sp):
    """the definitions; totals are concrete"""
    r = cr / sr if sr else 0.0
    p = cp / sp if sp else 0.0
    return r, p, f_of(ctx, p, r)


def f_of(ctx, p, r):
    d = p + r
    return 2.0 * p * r / (d + (d == 0))


def totals(ctx, counts, nt):
    out = [], [], []
    for k in range(nt):
        c = [ctx.sum([x[q][k] for x in counts]) for q in range(4)]
        for o, v in zip(out, rpf(ctx, *c)):
            o.append(v)
    return out


def first_best(ctx, c, ts, d):
    """index of the threshold sample result d reports (forks), checked"""
    n = len(ts)
    v = [rpf(ctx, *[c[q][k] for q in range(4)]) for k in range(n)]
    t = ctx.fork(d["threshold"])
    ks = [k for k in range(n) if abs(ts[k] - t) < 1e-9]
    ctx.check(len(ks) == 1, "the reported threshold is one of the thresholds")
    k = ks[0]
    ctx.check(ctx.And(*[ctx.close(d[x], v[k][i]) for i, x in enumerate(
        ("recall", "precision", "f1"))]), "scores at the reported threshold")
    for j in range(n):
        if j > k:
            ctx.check(v[j][2] <= v[k][2] + 1e-9, "best F1 of the sample")
        elif j < k:
            # the first of equal ones, up to rounding
            ctx.check(ctx.Or(v[j][2] < v[k][2], ctx.And(
                ctx.close(v[j][2], v[k][2], 1e-12), v[k][2] > 0,
                ctx.Not(ctx.And(v[j][0] == v[k][0], v[j][1] == v[k][1])))),
                "first best F1 of the sample")
    return k


def ods(ctx, ts, er, ep, ef, o):
    cand = [(ts[0], er[0], ep[0], ef[0])]
    for i in range(1, len(ts)):
        for d in range(101):
            d = d / 100
            t, r, p = (x[i] * d + x[i - 1] * (1 - d) for x in (ts, er, ep))
            cand.append((t, r, p, f_of(ctx, p, r)))
    best = [o["ODS_" + x] for x in ("threshold", "recall", "precision", "f1")]
    # the first of the best ones, when the code agrees with it
    first = cand[0]
    for c in cand[1:]:
        g = c[3] > first[3]
        first = tuple(ctx.If(g, x, y) for x, y in zip(c, first))
    for k in range(len(ts)):
        ctx.check(ef[k] <= best[3] + 1e-9, "ODS is never below a threshold's F1")
    ctx.check(ctx.And(*[c[3] <= best[3] + 1e-9 for c in cand]),
              "ODS is the best of the interpolated scores")
    ctx.check(ctx.Or(*[ctx.And(*[ctx.eq(x, y) for x, y in zip(c, best)])
                       for c in [first] + cand]),
              "ODS is one of the interpolated points, with its own values")


def ap(ctx, rec, prec):
    """mean over the 101 levels; on the real code a recall within 1e-9 of a level
    may count either way: (low, high)"""
    out = []
    for side in ((1, -1) if not ctx.sym else (0,)):
        t = 0.0
        for k in range(101):
            e = 0 if k in EXACT else side * 1e-9
            m = 0.0
            for r, p in zip(rec, prec):
                v = ctx.If(r >= k / 100 + e, p, 0.0)
                m = ctx.If(v > m, v, m)
            t = t + m / 101
        out.append(t)
    return out[0], out[-1]


def auc_choices(rec, prec):
    """(recall, precision) points for every choice among equal recalls"""
    xs = sorted(set(rec))
    return xs, itertools.product(*[[p for r, p in zip(rec, prec) if r == x]
                                   for x in xs])


def auc_of(ctx, xs, ps):
    if len(xs) < 2:
        return 0.0, 0.0
    lo = hi = 0.0
    for k in range(100):
        x = k / 100
        if x < xs[0] or x > xs[-1]:
            v = 0.0
        else:
            j = max(i for i in range(len(xs)) if xs[i] <= x)
            v = ps[j] if j == len(xs) - 1 else ps[j] + (
                ps[j + 1] - ps[j]) * ((x - xs[j]) / (xs[j + 1] - xs[j]))
        a = b = v
        for end, p in ((xs[0], ps[0]), (xs[-1], ps[-1])):
            if abs(x - end) < 1e-9 and k not in EXACT:
                a, b = ctx.If(v < p, v, 0.0) * 0, ctx.If(v > p, v, p)
        lo, hi = lo + a, hi + b
    return lo * 0.01, hi * 0.01


# ------------------------------------------------------------ running it
def quads(n, m):
    """(matched gt, total gt, matched pred, total pred) up to n and m"""
    return [(a, b, c, d) for b in range(n + 1) for a in range(b + 1)
            for d in range(m + 1) for c in range(d + 1)]


def thin_out(q, n, seed=1):
    """n of the quadruples, spread evenly, always with the extreme ones"""
    import random
    r = random.Random(seed)
    keep = [x for x in q if x in ((0, 0, 0, 0), q[-1])]
    rest = [x for x in q if x not in keep]
    r.shuffle(rest)
    return sorted((keep + rest)[:n])


def setup(ctx, opts, ns, nt, dtype="float64"):
    """counts[sample] = four arrays of nt; each entry from its option list"""
    np_ = ctx.np
    counts = []
    for s in range(ns):
        cols = [ctx.choice(f"c{s}_{k}", opts[(s * nt + k) % len(opts)])
                for k in range(nt)]
        counts.append([np_.array([cols[k][q] for k in range(nt)]).astype(dtype)
                       for q in range(4)])
    return counts


def run(ctx, pkg, counts, thresholds, nproc=1, names=None):
    M = ctx.mod(f"pyEdgeEval.common.{pkg}.calculate_metrics")
    names = names or [f"s{i}" for i in range(len(counts))]
    table = {n: c for n, c in zip(names, counts)}

    def single(sample):
        return tuple(x.copy() for x in table[sample["name"]])
    samples = [dict(name=n, other=7) for n in names]
    s, t, o = M.calculate_metrics(single, thresholds, samples, nproc=nproc)
    return s, t, o


def rows(res):
    return [[d["threshold"], d["recall"], d["precision"], d["f1"]] for d in res]
