"""C06: recall, precision, F1 follow their definitions and stay in [0,1]."""
from symex.harness_common import Case

FUNCTIONS = ["pyEdgeEval.common.metrics: recall, precision, f1, compute_rec_prec_f1"]
OUTSIDE = ("counts above the bounds of a case; IEEE rounding is modelled exactly "
           "(finite tables) up to those counts and abstracted to real arithmetic "
           "in the unbounded-count cases")
ASSUMPTIONS = ["NumPy's arithmetic on float64 is IEEE (taken from NumPy itself)"]


def spec_ratio(ctx, c, s):
    return ctx.If(s == 0, 0.0, c / ctx.If(s == 0, 1.0, s * 1.0))


def scalars(ctx, n, kind):
    M = ctx.mod("pyEdgeEval.common.metrics")
    cr, sr = ctx.int("cr", 0, n), ctx.int("sr", 0, n)
    cp, sp = ctx.int("cp", 0, n), ctx.int("sp", 0, n)
    ctx.assume(ctx.And(cr <= sr, cp <= sp))
    if kind == "np":
        arr = ctx.np.array([cr, sr, cp, sp]).astype(float)
        cr, sr, cp, sp = arr[0], arr[1], arr[2], arr[3]
    r, p, f = M.compute_rec_prec_f1(cr, sr, cp, sp)
    er, ep = spec_ratio(ctx, cr, sr), spec_ratio(ctx, cp, sp)
    verify(ctx, r, p, f, er, ep)
    ctx.check(ctx.And(M.recall(cr, sr) == er, M.precision(cp, sp) == ep),
              "recall/precision on their own")


def verify(ctx, r, p, f, er, ep):
    ctx.check(ctx.close(r, er, 1e-12), "recall is matched over total")
    ctx.check(ctx.close(p, ep, 1e-12), "precision is matched over total")
    ctx.check(ctx.And(r >= 0, r <= 1, p >= 0, p <= 1), "recall, precision in [0,1]")
    s = er + ep
    z = ctx.truth(s == 0)
    ef = ctx.If(z, 0.0, 2 * er * ep / ctx.If(z, 1.0, s))
    ctx.check(ctx.close(f, ef, 1e-12), "F1 is the harmonic mean")
    ctx.check(ctx.And(f >= 0, f <= 1), "F1 in [0,1]")


def reals(ctx):
    """any count (real arithmetic)"""
    M = ctx.mod("pyEdgeEval.common.metrics")
    cr, sr = ctx.real("cr", 0, 1000000000), ctx.real("sr", 0, 1000000000)
    cp, sp = ctx.real("cp", 0, 1000000000), ctx.real("sp", 0, 1000000000)
    for x in (sr, sp):
        ctx.assume(ctx.Or(x == 0, x >= 1))
    ctx.assume(ctx.And(cr <= sr, cp <= sp))
    a = ctx.np.array([cr, sr, cp, sp])
    r, p, f = M.compute_rec_prec_f1(a[0], a[1], a[2], a[3])
    ctx.check(ctx.eq(r * sr, ctx.If(sr == 0, 0.0, cr), 1e-9 * cr), "recall times total")
    ctx.check(ctx.eq(p * sp, ctx.If(sp == 0, 0.0, cp), 1e-9 * cp), "precision times total")
    ctx.check(ctx.Implies(sr == 0, r == 0), "recall 0 without ground truth")
    ctx.check(ctx.Implies(sp == 0, p == 0), "precision 0 without prediction")
    ctx.check(ctx.And(r >= 0, r <= 1, p >= 0, p <= 1), "recall, precision in [0,1]")
    ctx.check(ctx.eq(f * (r + p), 2 * r * p, 1e-9 * 2 * r * p), "F1 is the harmonic mean")
    ctx.check(ctx.Implies(r + p == 0, f == 0), "F1 0 when both are 0")
    ctx.check(ctx.And(f >= 0, f <= 1), "F1 in [0,1]")


def arrays(ctx, shape, n):
    M = ctx.mod("pyEdgeEval.common.metrics")
    np = ctx.np
    v = [ctx.ints(k, shape, 0, n).astype(float) for k in ("cr", "sr", "cp", "sp")]
    ctx.assume(ctx.And(v[0] <= v[1], v[2] <= v[3]))
    before = [x.copy() for x in v]
    r, p, f = M.compute_rec_prec_f1(*v)
    r2, p2 = M.recall(v[0], v[1]), M.precision(v[2], v[3])
    f2 = M.f1(r2, p2)
    for x, y in zip(before, v):
        ctx.check(ctx.same(x, y), "arguments unchanged")
    for a, b in ((r, r2), (p, p2), (f, f2)):
        ctx.check(a.shape == before[0].shape, "same shape")
        ctx.check(ctx.same(a, b), "one function per value")
    import itertools
    for ix in itertools.product(*[range(k) for k in before[0].shape]):
        c, s, d, t = [x[ix] for x in before]
        verify(ctx, r[ix], p[ix], f[ix], spec_ratio(ctx, c, s), spec_ratio(ctx, d, t))


def cases(tier):
    n = 6 if tier == "quick" else 14
    return [
        Case("python ints", scalars, f"counts 0..{n}, exact IEEE", n=n, kind="py"),
        Case("numpy floats", scalars, f"counts 0..{n}, exact IEEE", n=n, kind="np"),
        Case("reals", reals, "all real counts up to 1e9 (real arithmetic)"),
        Case("array 1-d", arrays, "2 elements, counts 0..3, exact IEEE", shape=(2,),
             n=3),
        Case("array 2-d", arrays, "1x2 elements, counts 0..2", shape=(1, 2), n=2),
    ]
