"""C03: sampling k of n."""
from symex.harness_common import Case

FUNCTIONS = ["_lib/src/kofn.cc: kOfN, _kOfN_largeK, _kOfN_smallK",
             "_lib/include/Random.hh: i32, fp"]
OUTSIDE = "n above the bound of a case"
TECHNIQUE = ("bounded symbolic execution of the LLVM IR that clang makes of the current "
             "C++ sources (and of the translated .pyx wrapper), decided by Z3, "
             "counterexamples replayed on the freshly built extension")
ASSUMPTIONS = ["the uniform random numbers are any reals in [0, 1-2^-48]; doubles "
               "that depend on them are computed exactly",
               "clang's LLVM IR (-O2) of the sources stands for the program"]


def sample(ctx, k, n):
    ctx.stream(400)
    v = ctx.kofn(k, n)
    ctx.check(len(v) == k, "k values")
    for x in v:
        ctx.check(ctx.And(x >= 0, x < n), "every value lies in [0, n)")
    for a, b in zip(v, v[1:]):
        ctx.check(a < b, "values increase strictly")


def cases(tier):
    out = []
    q = tier == "quick"
    N = 13 if q else 15
    ks = [(k, n) for n in range(0, N + 1) for k in range(0, n + 1)]
    # larger n: few of many items (the recursive sampler halves the range)
    ks += [(1, n) for n in ((16, 33, 100, 1000) if q else range(16, 400, 3))]
    ks += [(2, n) for n in ((14, 16, 17, 31, 64, 200) if q else range(13, 64))]
    ks += [(3, n) for n in ((14, 16, 21, 32, 50) if q else range(12, 60))]
    ks += [(4, n) for n in ((17, 18, 20, 32) if q else range(16, 40))]
    ks += [(5, n) for n in ((24,) if q else (23, 24, 25, 26, 32, 40, 64))]
    ks += [(6, n) for n in (() if q else (32, 40, 64))]
    for k, n in dict.fromkeys(ks):
        out.append(Case(f"{k} of {n}", sample, "all random streams", reuse=True, k=k,
                        n=n, prio=n * min(k, n - k + 1), every=500))
    return out
