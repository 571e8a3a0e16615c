"""C20: threshold specifications become the documented threshold arrays."""
from symex.harness_common import Case

FUNCTIONS = ["pyEdgeEval.common.utils: check_thresholds"]
OUTSIDE = "more thresholds than the bound of a case; NaN values"
ASSUMPTIONS = ["numpy.linspace is NumPy's own (executed, not encoded)"]


def count(ctx, lo, hi):
    M = ctx.mod("pyEdgeEval.common.utils")
    n = ctx.int("n", lo, hi)
    t = M.check_thresholds(n)
    n = ctx.fork(n)
    ctx.check(t.ndim == 1, "one dimension")
    ctx.check(t.shape[0] == n, "n values")
    if n > 60:
        k = ctx.np.arange(1, n + 1)
        ctx.check(ctx.close(t, k / (n + 1), 1e-12), "value k is k/(n+1)")
        ctx.check(ctx.close(t + t[::-1], ctx.np.ones(n), 1e-12), "symmetric")
        ctx.check(t[1:] > t[:-1], "strictly increasing")
        return
    for k in range(n):
        ctx.check(ctx.close(t[k], (k + 1) / (n + 1), 1e-12), "value k is k/(n+1)")
        ctx.check(ctx.close(t[k] + t[n - 1 - k], 1.0, 1e-12), "symmetric")
        if k:
            ctx.check(t[k] > t[k - 1], "strictly increasing")


def values(ctx, n, kind):
    M = ctx.mod("pyEdgeEval.common.utils")
    v = ctx.reals("v", n, -2, 3)
    if kind == "float":
        arg = ctx.real("f", -2, 3)
        v = ctx.np.array([arg])
    elif kind == "list":
        arg = [x for x in v]
    elif kind == "pylist":
        arg = [ctx.real(f"e{i}", -2, 3) for i in range(n)]
        v = ctx.np.array(arg)
    else:
        arg = v
    want = v.copy()
    t = M.check_thresholds(arg)
    ctx.check(t.ndim == 1, "one dimension")
    ctx.check(ctx.same(t, want), "exactly the given values in order")


def intlist(ctx):
    M = ctx.mod("pyEdgeEval.common.utils")
    a, b = ctx.int("a", -3, 3), ctx.int("b", -3, 3)
    t = M.check_thresholds([a, b])
    ctx.check(ctx.And(t.shape == (2,), t[0] == a, t[1] == b), "list of whole numbers")
    arr = ctx.ints("arr", 3, -5, 5)
    want = arr.copy()
    ctx.check(ctx.same(M.check_thresholds(arr), want), "integer array")


def refused(ctx):
    M = ctx.mod("pyEdgeEval.common.utils")
    np = ctx.np
    v = ctx.reals("v", (2, 2), 0, 1)
    bad = ctx.pick("bad", ["2-d", "0-d", "3-d", "1x2", "nested", "str", "none",
                           "tuple", "dict", "complex", "set", "bytes", "matrix"])
    arg = {"2-d": lambda: v, "0-d": lambda: np.array(0.5),
           "3-d": lambda: v.reshape((2, 2, 1)), "1x2": lambda: v[:1],
           "nested": lambda: [[0.1, 0.2], [0.3, 0.4]], "str": lambda: "0.5",
           "none": lambda: None, "tuple": lambda: (v[0, 0], v[0, 1]),
           "dict": lambda: {0: 0.5}, "complex": lambda: 0.5j,
           "set": lambda: {0.5}, "bytes": lambda: b"99",
           "matrix": lambda: [[0.5]]}[bad]()
    ex = ctx.raises(lambda: M.check_thresholds(arg))
    ctx.check(ex is not None, "refused: " + bad)


def cases(tier):
    q = tier == "quick"
    out = []
    hi = 400 if q else 1600
    step = 20
    for lo in range(1, hi, step):
        out.append(Case(f"count {lo}..{lo + step - 1}", count,
                        f"every whole number {lo}..{lo + step - 1}", reuse=True,
                        lo=lo, hi=lo + step - 1))
    for n in (999, 1000, 4095):
        out.append(Case(f"count {n}", count, str(n), lo=n, hi=n))
    for k in ("float", "list", "pylist", "array"):
        for n in (1, 2, 4) if k != "float" else (1,):
            out.append(Case(f"{k} {n}", values, f"{n} real values in [-2,3]", n=n,
                            kind=k))
    out.append(Case("integers", intlist, "lists and arrays of small integers"))
    out.append(Case("refused", refused, "13 unsupported forms with real elements"))
    return out
