"""C05: non-maximum suppression."""
import math

from symex.harness_common import Case

BUDGET = {"quick": 400, "thorough": 2400}
FUNCTIONS = ["_lib/nms.pyx: nms, _nms", "_lib/src/benms.cc: benms, interp",
             "_lib/src/Matrix.cc: Matrix"]
OUTSIDE = ("images larger than the shape of a case; fast_nms (the orientations it derives "
           "need the arctangent of symbolic numbers); margin of 1e-6 around equality")
TECHNIQUE = ("bounded symbolic execution of the LLVM IR that clang makes of the current "
             "C++ sources (and of the translated .pyx wrapper), decided by Z3, "
             "counterexamples replayed on the freshly built extension")
ASSUMPTIONS = ["clang's LLVM IR (-O2) of the sources stands for the program",
               "doubles are exact reals; directions of the turning cases lie in a ring of 32 sides "
               "around the unit circle; comparisons within 1e-6 of equality are left "
               "open"]
EPS = 1e-6


def fade(x, w, s):
    return min(1.0, x / s, (w - 1 - x) / s) if s else 1.0


def interp(ctx, I, x, y, eps=EPS):
    """(bilinearly interpolated strength, uncertainty) at column x, row y; outside the
    image the nearest point of it; x and y concrete"""
    h, w = I.shape
    slack = eps
    # the library stops 1/1000 of a pixel before the last row and column
    if x > w - 1.001 or y > h - 1.001:
        slack += 0.0021 * 1.0
    x, y = min(max(x, 0.0), w - 1.0), min(max(y, 0.0), h - 1.0)
    x0, y0 = min(int(x), max(w - 2, 0)), min(int(y), max(h - 2, 0))
    x1, y1 = min(x0 + 1, w - 1), min(y0 + 1, h - 1)
    fx, fy = x - x0, y - y0
    v = 0.0
    for yy, xx, f in ((y0, x0, (1 - fx) * (1 - fy)), (y0, x1, fx * (1 - fy)),
                      (y1, x0, (1 - fx) * fy), (y1, x1, fx * fy)):
        if f > 1e-12:
            v = v + I[yy, xx] * f
    return v, slack


def suppress(ctx, shape, ori, r, s, m, free=None, fixed=None, top=1):
    nms = ctx.native("nms")
    h, w = shape
    np = ctx.np
    I = np.zeros(shape, dtype="float64")
    px = [(y, x) for y in range(h) for x in range(w)]
    free = px if free is None else free
    for p, v in (fixed or {}).items():
        I[p] = v
    val = ctx.reals("e", (len(free),), 0, top)
    for i, p in enumerate(free):
        I[p] = val[i]
    O = np.zeros(shape, dtype="float64")
    for p in px:
        O[p] = ori(*p) if callable(ori) else ori
    I0, O0 = I.copy(), O.copy()
    k = {} if r is None else dict(r=r, s=s, m=m)
    out = nms(I, O, **k)
    r, s, m = (1, 5, 1.01) if r is None else (r, s, m)
    ctx.check(ctx.And(ctx.same(I, I0), ctx.same(O, O0)), "the inputs are not changed")
    ctx.check(out.shape == shape, "the shape is kept")
    s = min(s, w // 2, h // 2)
    for y, x in px:
        e, o = I0[y, x], out[y, x]
        a = ori(y, x) if callable(ori) else ori
        f = fade(x, w, s) * fade(y, h, s)
        ctx.check(ctx.Or(o == 0, abs(o - e * f) <= 1e-9 * top),
                  "zero or the strength times the fade")
        if f == 0:
            ctx.check(o == 0, "the fade starts at zero")
            continue
        below, above = [], []
        for d in list(range(-r, 0)) + list(range(1, r + 1)):
            # along a row with factor 1 the arithmetic is exact: no margin
            v, t = interp(ctx, I0, x + d * math.cos(a), y + d * math.sin(a),
                          0 if a == 0 and m == 1 else EPS)
            below.append(e * m < v - t * top)
            above.append(e * m >= v + t * top)
        if below:
            ctx.check(ctx.Implies(ctx.Or(*below), o == 0),
                      "a pixel below a neighbour along its orientation is zeroed")
        ctx.check(ctx.Implies(ctx.And(*above), abs(o - e * f) <= 1e-9 * top),
                  "a ridge pixel keeps its strength")


def turning(ctx, shape, strengths, at, r, m, sector=None):
    """every orientation of one pixel; listed strengths"""
    nms = ctx.native("nms")
    h, w = shape
    np = ctx.np
    c, s, angle = ctx.direction("dir")
    if sector is not None:
        for k in (sector + 2, sector - 1):      # between sector and sector+1 eighths
            a = k * math.pi / 4
            ctx.assume(c * math.cos(a) + s * math.sin(a) >= 0)
    I = np.array(strengths, dtype="float64")
    O = np.zeros(shape, dtype="float64")
    O[at] = angle
    out = nms(I, O, r=r, s=0, m=m)
    e, o = strengths[at[0]][at[1]], out[at]
    below, above = [], []
    for d in list(range(-r, 0)) + list(range(1, r + 1)):
        x, y = at[1] + d * c, at[0] + d * s
        ix, iy = int(ctx.fork(ctx.np.floor(x))), int(ctx.fork(ctx.np.floor(y)))
        ctx.assume(ctx.And(x < w - 1.001, y < h - 1.001, x > 0, y > 0))
        fx, fy = x - ix, y - iy
        A = [[strengths[min(iy + i, h - 1)][min(ix + j, w - 1)] for j in (0, 1)]
             for i in (0, 1)]
        v = ((1 - fy) * ((1 - fx) * A[0][0] + fx * A[0][1])
             + fy * ((1 - fx) * A[1][0] + fx * A[1][1]))
        below.append(e * m < v - EPS)
        above.append(e * m > v + EPS)
    ctx.check(ctx.Implies(ctx.Or(*below), o == 0),
              "a pixel below a neighbour along its orientation is zeroed")
    ctx.check(ctx.Implies(ctx.And(*above), o == e), "a ridge pixel keeps its strength")


def refused(ctx):
    nms = ctx.native("nms")
    I = ctx.reals("e", (2, 3), 0, 1)
    ctx.check(ctx.raises(lambda: nms(I, ctx.np.zeros((3, 2))), ValueError), "refused")


def varied(y, x):
    return 0.37 + 1.1 * y + 0.83 * x


def grid(h, w):
    return [(y, x) for y in range(h) for x in range(w)]


ANGLES = [0.0, math.pi / 4, math.pi / 2, 3 * math.pi / 4, math.pi, 0.3, 1.1, 2.5, -0.7,
          4.0, 7.1]


def cases(tier):
    out = []
    q = tier == "quick"

    def add(name, shape, ori, r, s, m, bounds, **k):
        k.setdefault("prio", len(k.get("free") or grid(*shape)) * (r or 1))
        out.append(Case(name, suppress, bounds, reuse=True, shape=shape, ori=ori, r=r,
                        s=s, m=m, every=200, **k))
    # tiny images: all strengths
    for s in [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (1, 4), (4, 1), (2, 3),
              (3, 2), (1, 5)]:
        if s[0] * s[1] > 4 and q and s != (1, 5):
            continue
        for nm, o in (("0", 0.0), ("90", math.pi / 2), ("varied", varied), ("40", 0.7)):
            for r, f, m in ((1, 0, 1.01), (2, 1, 1.0), (3, 5, 1.2)):
                if q and r == 3 and s == (1, 5) and nm in ("varied", "40"):
                    continue
                add(f"all {s[0]}x{s[1]} {nm} r={r} s={f} m={m}", s, o, r, f, m,
                    f"{s[0]}x{s[1]}: all strengths, radius {r}, fade {f}, factor {m}")
    # 3x3 and 5x5: the centre and listed neighbours free
    c3 = [(1, 1), (0, 1), (1, 0), (2, 2)]
    for a in ANGLES:
        for r, f, m in ((1, 0, 1.01), (1, 1, 1.0), (2, 0, 1.1)):
            add(f"3x3 angle {a:.2f} r={r} s={f} m={m}", (3, 3), a, r, f, m,
                "3x3: four free strengths", free=c3, fixed={(0, 2): 0.5, (2, 0): 0.25})
    for a in ANGLES:
        ray = {(2 + round(d * math.sin(a)), 2 + round(d * math.cos(a)))
               for d in (-2, -1, 1, 2)}
        ray = [p for p in sorted(ray) if 0 <= p[0] < 5 and 0 <= p[1] < 5][:3]
        for r, f, m in ((2, 2, 1.01), (3, 1, 1.0), (1, 9, 0.9)):
            add(f"5x5 angle {a:.2f} r={r} s={f} m={m}", (5, 5), a, r, f, m,
                "5x5: the centre and three pixels along its orientation free",
                free=[(2, 2)] + ray, fixed={(1, 3): 0.5, (3, 3): 0.25})
    # wide and tall images, default parameters, far pixels
    for s in ((3, 8), (8, 3), (4, 12), (12, 13), (2, 9), (6, 1), (1, 7)):
        h, w = s
        fr = sorted({(h // 2, w // 2), (h // 2, min(w - 1, w // 2 + 1)), (0, w - 1),
                     (h - 1, 0)})
        for nm, o in (("varied", varied), ("0", 0.0), ("90", math.pi / 2)):
            for r, f, m in ((None, None, None), (1, 2, 1.01), (3, 3, 1.05)):
                add(f"{h}x{w} {nm} r={r} s={f} m={m}", s, o, r, f, m,
                    f"{h}x{w}: four free strengths", free=fr)
    for top in (255,):
        add(f"strengths to {top}", (3, 3), 0.4, 1, 1, 1.01, f"3x3: four free strengths of "
            f"0 to {top}", free=c3, top=top)
    S = [[.1, .9, .3, .2, .4], [.5, .6, .2, .8, .1], [.7, .3, .55, .9, .6],
         [.2, .8, .1, .4, .3], [.6, .1, .7, .5, .9]]
    for m in (1.0, 1.01, 1.3):
        out.append(Case(f"turning r=1 m={m}", turning, "5x5 listed strengths, every "
                        "orientation of the centre", reuse=True, shape=(5, 5),
                        strengths=S, at=(2, 2), r=1, m=m, prio=200))
    for k in range(8):
        for m in ((1.01,) if q else (1.0, 1.01, 1.3)):
            out.append(Case(f"turning r=2 eighth {k} m={m}", turning, "5x5 listed "
                            "strengths, every orientation of the centre in one eighth of "
                            "the circle", reuse=True, shape=(5, 5), strengths=S,
                            at=(2, 2), r=2, m=m, prio=150, sector=k))
    out.append(Case("refuses", refused, "orientations of another shape", reuse=True))
    return out
