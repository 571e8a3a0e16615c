"""Symbolic NumPy arrays and scalars.

A SymArray is a NumPy *object* array of values (concrete Python values or
core.Val) plus the logical dtype; views, slicing, broadcasting and every shape
operation are NumPy's own.  Result dtypes, casting rules and exceptions come
from running the real NumPy function on dummies of the same dtypes.
"""
import math
import operator

import numpy as np
import z3

from . import core
from .core import (B, I, T, R, Val, EngineLimit, band, bor, bnot, bite, beq, bxor,
                   cmp_ic, eng, frac, is_bool, is_float, is_int, is_sym, ite, mkB,
                   mkI, mkT, mkpb, tmap, tmap2, to_bool, to_int, to_real, to_T,
                   FLIP, PYCMP)

BOOL = np.dtype(bool)
F64 = np.dtype(np.float64)
I64 = np.dtype(np.int64)


class NeedConcrete(Exception):
    """no symbolic rule: fork over the values instead"""


def norm(v):
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    if isinstance(v, np.float64):
        return float(v)
    return v


def typed(v, d):
    return v if d is None else d.type(v)


class quiet:
    """no floating-point warnings (the worker's own filters ignore the others)"""

    def __enter__(self):
        self.s = np.errstate(all="ignore")
        self.s.__enter__()

    def __exit__(self, *a):
        self.s.__exit__(*a)


def cast(v, d):
    """value -> storage value of dtype d (C cast semantics)"""
    k = d.kind
    if not is_sym(v):
        if isinstance(v, (bool, int, float, np.generic)):
            if k == "b":
                return bool(v)
            if k in "iu" and isinstance(v, (bool, int)):
                ii = np.iinfo(d)
                if ii.min <= v <= ii.max:
                    return int(v)
            if k == "f" and d.itemsize == 8:
                return float(v)
            with quiet():
                return norm(np.array(v).astype(d)[()])
        return v
    if k == "b":
        return mkB(to_bool(v))
    if k in "iu":
        if isinstance(v, B):
            v = to_int(v)
        if isinstance(v, I):
            return wrap(v, d)
        if isinstance(v, T):
            return tmap(v, lambda x: cast(x, d))
        e = v.e
        eng().stats.real_ops += 1
        return I(e=z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)),
                 lo=int(np.iinfo(d).min), hi=int(np.iinfo(d).max))
    if k == "f":
        if isinstance(v, B):
            return to_int(v)
        if isinstance(v, I):
            lim = 2 ** 53 if d.itemsize == 8 else 2 ** 24
            if v.lo is None or v.hi is None or max(abs(v.lo), abs(v.hi)) <= lim:
                return v
            raise NeedConcrete()
        if isinstance(v, T):
            return tmap(v, lambda x: cast(x, d))
        return v
    raise NeedConcrete()


def wrap(v, d):
    ii = np.iinfo(d)
    if v.lo is None or v.hi is None:
        return v
    if v.lo >= ii.min and v.hi <= ii.max:
        return v
    n = 8 * d.itemsize
    bs = pb_bits(v, n)
    if bs is not None:
        return mkpb(0, [((1 << k) if k < n - 1 or d.kind == "u" else -(1 << k), b)
                        for k, b in enumerate(bs) if b is not False])
    t = to_T(v)
    if t is not None:
        return tmap(t, lambda x: cast(int(x), d) if ii.min <= x <= ii.max else
                    int((int(x) - ii.min) % (2 ** (8 * d.itemsize)) + ii.min))
    n = 2 ** (8 * d.itemsize)
    return I(e=(v.e - int(ii.min)) % n + int(ii.min), lo=int(ii.min), hi=int(ii.max))


# ------------------------------------------------------------ element rules
def integral(v):
    """int view of a value that is exactly an integer, else None"""
    if isinstance(v, (B, I)):
        return to_int(v)
    if is_sym(v):
        if isinstance(v, T) and all(
                not isinstance(x, float) and not isinstance(x, np.floating)
                for x in v.vals):
            return v
        return None
    if is_bool(v) or is_int(v):
        return int(v)
    f = float(v)
    if f == f and abs(f) < 2 ** 53 and f == int(f):
        return int(f)
    return None


def rel(fn, a, b):
    """exact relation via tables; None if the tables get too big"""
    ta = to_T(a) if is_sym(a) else a
    tb = to_T(b) if is_sym(b) else b
    if ta is None or tb is None:
        return None
    r = tmap2(ta, tb, lambda x, y: bool(fn(x, y)))
    if r is None:
        return None
    return to_bool(r)


def cmp(op, a, b):
    """formula for  a op b"""
    sa, sb = is_sym(a), is_sym(b)
    f = PYCMP[op]
    if not sa and not sb:
        return bool(f(a, b))
    if sb and not sa:
        return cmp(FLIP[op], b, a)
    if isinstance(a, B) and (isinstance(b, B) or is_bool(b)) and op in ("eq", "ne"):
        e = beq(a.e, b.e if isinstance(b, B) else bool(b))
        return e if op == "eq" else bnot(e)
    if not sb:
        # non-finite constants
        if is_float(b) and (b != b or abs(b) == math.inf):
            if isinstance(a, T):
                return a.select(lambda x: f(x, b))
            if b != b:
                return op == "ne"
            return bool(f(0.0, float(b)))
        if isinstance(a, T):
            return a.select(lambda x: f(x, b))
        if isinstance(a, (B, I)):
            v = to_int(a)
            if not is_sym(v):
                return bool(f(v, b))
            ib = integral(b)
            if ib is None:
                # non-integer float constant
                if op == "eq":
                    return False
                if op == "ne":
                    return True
                fb = math.floor(float(b))
                return cmp_ic(v, "le" if op in ("lt", "le") else "gt", fb)
            return cmp_ic(v, op, ib)
    if isinstance(a, (B, I)) and isinstance(b, (B, I)):
        a, b = to_int(a), to_int(b)
        if not is_sym(a) or not is_sym(b):
            return cmp(op, a, b)
        if a is b:
            return bool(f(0, 0))
        if a.pb is not None and b.pb is not None:
            d = iadd(a, b, -1)
            if not is_sym(d):
                return bool(f(d, 0))
            return cmp_ic(d, op, 0)
        # disjoint intervals
        if None not in (a.lo, a.hi, b.lo, b.hi):
            if a.hi < b.lo:
                return bool(f(0, 1))
            if a.lo > b.hi:
                return bool(f(1, 0))
        ea, eb = a.e, b.e
    else:
        r = rel(f, a, b)
        if r is not None:
            return r
        eng().stats.real_ops += 1
        ea, eb = to_real(a), to_real(b)
        d = z3.simplify(ea - eb, som=True, sort_sums=True)
        if z3.is_rational_value(d):
            return bool(f(d.as_fraction(), 0))
        return {"lt": lambda: d < 0, "le": lambda: d <= 0, "gt": lambda: d > 0,
                "ge": lambda: d >= 0, "eq": lambda: d == 0,
                "ne": lambda: z3.Not(d == 0)}[op]()
    return {"lt": lambda: ea < eb, "le": lambda: ea <= eb, "gt": lambda: ea > eb,
            "ge": lambda: ea >= eb, "eq": lambda: ea == eb,
            "ne": lambda: z3.Not(ea == eb)}[op]()


def _addn(x, y):
    return None if x is None or y is None else x + y


def iadd(a, b, s=1):
    """integer a + s*b"""
    pa = a.pb if isinstance(a, I) else (int(a), ())
    pb_ = b.pb if isinstance(b, I) else (int(b), ())
    la, ha = core.int_range(a)
    lb, hb = core.int_range(b)
    if s < 0:
        lb, hb = (None if hb is None else -hb), (None if lb is None else -lb)
    lo, hi = _addn(la, lb), _addn(ha, hb)
    if pa is not None and pb_ is not None:
        return mkpb(pa[0] + s * pb_[0],
                    list(pa[1]) + [(s * w, g) for w, g in pb_[1]], lo, hi)
    if isinstance(a, I) and isinstance(b, I):
        ta = to_T(a)
        tb = to_T(b) if ta is not None else None
        if tb is not None and tb.dims and ta.dims and (
                {core.kid(k) for k, _ in ta.dims} & {core.kid(k) for k, _ in tb.dims}):
            r = core.joint(lambda x, y: int(x) + s * int(y), ta, tb)
            if r is not None:
                return r
    ea = a.e if isinstance(a, I) else z3.IntVal(int(a))
    eb = b.e if isinstance(b, I) else z3.IntVal(int(b))
    return mkI(ea + eb if s > 0 else ea - eb, lo, hi)


def imul(a, b):
    if not is_sym(a):
        a, b = b, a
    if not is_sym(b):
        b = int(b)
        if b == 0:
            return 0
        if b == 1:
            return a
        lo = hi = None
        if a.lo is not None and a.hi is not None:
            lo, hi = sorted((a.lo * b, a.hi * b))
        if a.pb is not None:
            return mkpb(a.pb[0] * b, [(w * b, g) for w, g in a.pb[1]], lo, hi)
        return mkI(a.e * b, lo, hi)
    for x, y in ((a, b), (b, a)):
        if x.pb is not None and len(x.pb[1]) == 1:
            c, ((w, g),) = x.pb
            return ite(g, imul(y, c + w), imul(y, c))
    ta, tb = to_T(a), to_T(b)
    if ta is not None and tb is not None and len(ta.vals) * len(tb.vals) <= 400:
        r = tmap2(ta, tb, lambda x, y: int(x) * int(y))
        if r is not None:
            return r
    lo = hi = None
    if None not in (a.lo, a.hi, b.lo, b.hi):
        c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        lo, hi = min(c), max(c)
    return mkI(a.e * b.e, lo, hi)


class _Err:
    """the operation raised for this combination"""

    def __init__(self, ex):
        self.ex = ex


_EXC = (ZeroDivisionError, OverflowError, ValueError, TypeError)


def table(uf, ops):
    """exact result through finite tables, or None"""
    vs = []
    for v, d in ops:
        if is_sym(v):
            t = to_T(v)
            if t is None:
                return None
            vs.append((t, d))
        else:
            vs.append((v, d))
    errs = []

    def call(*xs):
        with quiet():
            try:
                return norm(uf(*[typed(x, d) for x, (_, d) in zip(xs, vs)]))
            except _EXC as ex:
                errs.append(ex)
                return _Err(ex)
    syms = [i for i, (v, _) in enumerate(vs) if is_sym(v)]
    if uf in EXACT_UF and all(vs[i][1] is not None for i in syms):
        def many(*cols):
            try:
                with quiet():
                    a = uf(*[np.array(c, dtype=vs[i][1]) if i in syms else
                             typed(vs[i][0], vs[i][1]) for i, c in enumerate(cols)])
            except _EXC:
                return None
            if a.dtype.kind in "biu" or a.dtype == np.float64:
                return a.tolist()
            return list(a)
        call.many = many
    r = _table(vs, syms, call)
    if not errs or r is None:
        return r
    if isinstance(r, _Err):
        raise r.ex
    bad = lambda x: isinstance(x, _Err)
    if eng().decide(r.select(bad)):
        raise errs[0]
    if r.dims is not None:
        ok = next(x for x in r.vals if not bad(x))
        return tmap(r, lambda x: ok if bad(x) else x)
    return mkT([(x, g) for x, g in zip(r.vals, r.guards) if not bad(x)])


EXACT_UF = {np.add, np.subtract, np.multiply, np.true_divide, np.less, np.less_equal,
            np.greater, np.greater_equal, np.equal, np.not_equal, np.minimum,
            np.maximum, np.fmin, np.fmax, np.absolute, np.negative, np.isnan,
            np.isfinite, np.logical_not}


def _table(vs, syms, call):
    if len(vs) == 1:
        r = tmap(vs[0][0], call)
    elif len(vs) == 2:
        r = tmap2(vs[0][0], vs[1][0], call)
    elif len(syms) == 1:
        i = syms[0]
        r = tmap(vs[i][0], core.fix(call, *[
            core.HOLE if j == i else v for j, (v, _) in enumerate(vs)]))
    else:
        r = core.joint(call, *[v for v, _ in vs])
    return r


CMPNAME = {"less": "lt", "less_equal": "le", "greater": "gt",
           "greater_equal": "ge", "equal": "eq", "not_equal": "ne"}


def elem(uf, name, ops, rd):
    """one ufunc application; ops = [(value, dtype or None)], rd = result dtype"""
    vs = [v for v, _ in ops]
    if not any(is_sym(v) for v in vs):
        with quiet():
            return norm(uf(*[typed(v, d) for v, d in ops]))
    if name in CMPNAME:
        return mkB(cmp(CMPNAME[name], vs[0], vs[1]))
    if name == "logical_not":
        return mkB(bnot(to_bool(vs[0])))
    if name == "logical_and":
        return mkB(band(to_bool(vs[0]), to_bool(vs[1])))
    if name == "logical_or":
        return mkB(bor(to_bool(vs[0]), to_bool(vs[1])))
    if name == "logical_xor":
        return mkB(bxor(to_bool(vs[0]), to_bool(vs[1])))
    rk = rd.kind
    if rk == "b":
        if name in ("bitwise_and", "multiply", "minimum", "fmin"):
            return mkB(band(to_bool(vs[0]), to_bool(vs[1])))
        if name in ("bitwise_or", "add", "maximum", "fmax"):
            return mkB(bor(to_bool(vs[0]), to_bool(vs[1])))
        if name == "bitwise_xor":
            return mkB(bxor(to_bool(vs[0]), to_bool(vs[1])))
        if name == "invert":
            return mkB(bnot(to_bool(vs[0])))
        if name in ("isnan", "isinf", "isfinite", "signbit"):
            if isinstance(vs[0], T):
                return table(uf, ops)
            if name == "signbit":
                return mkB(cmp("lt", vs[0], 0))
            return name == "isfinite"
    if name in ("bitwise_and", "bitwise_or", "bitwise_xor") and rk in "iu":
        if all(core.int_range(v)[0] == 0 and core.int_range(v)[1] in (0, 1)
               or not is_sym(v) and v in (0, 1) for v in vs):
            x, y = to_bool(vs[0]), to_bool(vs[1])
            r = {"bitwise_and": band, "bitwise_or": bor,
                 "bitwise_xor": bxor}[name](x, y)
            return cast(mkB(r), rd)
    if name in ("minimum", "maximum", "fmin", "fmax"):
        if not (isinstance(vs[0], T) or isinstance(vs[1], T)):
            c = cmp("le" if "min" in name else "ge", vs[0], vs[1])
            return cast(ite(c, vs[0], vs[1]), rd)
    if name in ("add", "subtract", "multiply") and rk in "iuf":
        ia, ib = integral(vs[0]), integral(vs[1])
        if ia is not None and ib is not None:
            if isinstance(ia, T) or isinstance(ib, T):
                r = table(uf, ops)
                if r is not None:
                    return r
                ia, ib = to_int(ia), to_int(ib)
            if not is_sym(ia) and not is_sym(ib):
                r = {"add": operator.add, "subtract": operator.sub,
                     "multiply": operator.mul}[name](ia, ib)
            elif name == "multiply":
                r = imul(ia, ib)
            else:
                r = iadd(ia, ib, 1 if name == "add" else -1)
            if rk in "iu":
                return cast(r, rd)
            if is_sym(r):
                return cast(r, rd)
            return rd.type(r) if rd.itemsize != 8 else float(r)
    if name in ("negative", "positive") and rk in "iuf":
        ia = integral(vs[0])
        if ia is not None and not isinstance(ia, T):
            return cast(imul(ia, -1) if name == "negative" else ia, rd)
    if name == "absolute" and isinstance(vs[0], (B, I)):
        v = to_int(vs[0])
        return cast(ite(cmp_ic(v, "ge", 0), v, imul(v, -1)), rd)
    if name == "invert" and rk in "iu" and isinstance(vs[0], I):
        v = vs[0]
        r = iadd(imul(v, -1), -1) if rk == "i" else iadd(
            imul(v, -1), int(np.iinfo(rd).max))
        return cast(r, rd)
    if name == "left_shift" and rk in "iu" and not is_sym(vs[1]):
        return cast(imul(to_int(vs[0]), 1 << int(vs[1])), rd)
    if rk in "iu":
        r = bitwise(name, vs, rd)
        if r is not None:
            return r
    r = table(uf, ops)
    if r is not None:
        return r
    # real arithmetic
    if rk == "f":
        return relem(name, vs)
    if rk in "iu" and name in ("floor_divide", "remainder") and not is_sym(vs[1]) \
            and int(vs[1]) > 0:
        v, c = to_int(vs[0]), int(vs[1])
        if name == "remainder":
            return I(e=v.e % c, lo=0, hi=c - 1)
        return I(e=v.e / c, lo=None if v.lo is None else v.lo // c,
                 hi=None if v.hi is None else v.hi // c)
    raise NeedConcrete()


def bitwise(name, vs, rd):
    """bit-level result for values with disjoint bit weights, or None"""
    n = 8 * rd.itemsize
    if name in ("floor_divide", "remainder", "right_shift"):
        if is_sym(vs[1]):
            return None
        c = int(vs[1])
        if name == "right_shift":
            k = c
        elif c > 0 and c & (c - 1) == 0:
            k = c.bit_length() - 1
        else:
            return None
        v = vs[0]
        if not isinstance(v, I) or v.lo is None or v.lo < 0 or not 0 <= k < n:
            return None
        bs = pb_bits(v, n)
        if bs is None:
            return None
        return from_bits(bs[:k] if name == "remainder" else bs[k:])
    if name not in ("bitwise_and", "bitwise_or", "bitwise_xor"):
        return None
    bb = []
    for v in vs:
        if not is_sym(v):
            bb.append([bool((int(v) >> k) & 1) for k in range(n)])
            continue
        v = to_int(v)
        if not is_sym(v):
            bs = [bool((int(v) >> k) & 1) for k in range(n)]
        else:
            bs = pb_bits(v, n) if v.lo is not None and v.lo >= 0 else None
        if bs is None:
            return None
        bb.append(bs)
    f = {"bitwise_and": band, "bitwise_or": bor, "bitwise_xor": bxor}[name]
    return cast(from_bits([f(x, y) for x, y in zip(*bb)]), rd)


def find_ite(e, seen):
    if e.get_id() in seen:
        return None
    seen.add(e.get_id())
    if z3.is_app_of(e, z3.Z3_OP_ITE):
        return e
    for c in e.children():
        r = find_ite(c, seen)
        if r is not None:
            return r
    return None


def split_ites(es, d):
    """decide the conditions inside d (and put the outcome into es)"""
    E = eng()
    for _ in range(12):
        t = find_ite(d, set())
        if t is None:
            break
        c = t.arg(0)
        v = z3.BoolVal(E.decide(c))
        es = [z3.simplify(z3.substitute(e, (c, v))) for e in es]
        d = es[1]
    return es


def relem(name, vs):
    E = eng()
    E.stats.real_ops += 1
    for v in vs:
        if not is_sym(v) and is_float(v) and v != v:
            return float("nan")
        if not is_sym(v) and is_float(v) and abs(v) == math.inf:
            raise NeedConcrete()
        if isinstance(v, T) and any(x != x or abs(x) == math.inf for x in v.vals):
            # split off the non-finite values
            if not E.decide(v.select(lambda x: x == x and abs(x) != math.inf)):
                raise NeedConcrete()
    if name in ("minimum", "maximum", "fmin", "fmax"):
        c = cmp("le" if "min" in name else "ge", vs[0], vs[1])
        return ite(c, vs[0], vs[1])
    es = [to_real(v) for v in vs]
    if name == "add":
        return mkR(es[0] + es[1])
    if name == "subtract":
        return mkR(es[0] - es[1])
    if name == "multiply":
        return mkR(es[0] * es[1])
    if name in ("divide", "true_divide"):
        if isinstance(vs[1], T) and not isinstance(vs[0], T):
            t = vs[1].compact()
            if not isinstance(t, T):
                vs = [vs[0], t]
            elif all(x and x == x and abs(x) != math.inf for x in t.vals):
                qs = [es[0] / core.rval(x) for x in t.vals]
                out = qs[-1]
                for q, g in zip(reversed(qs[:-1]), reversed(t.guards[:-1])):
                    out = z3.If(g, q, out)
                return mkR(out)
        if not any(isinstance(v, T) for v in vs):
            # fork on conditions inside the divisor: quotients stay polynomials
            d = z3.simplify(es[1])
            if find_ite(d, set()) is not None:
                es = split_ites([z3.simplify(e) for e in es], d)
                vs = [mkR(e) for e in es]
                if not is_sym(vs[1]):
                    return relem(name, vs) if is_sym(vs[0]) or not vs[1] else float(vs[0] / vs[1])
        z = cmp("eq", vs[1], 0)
        if E.decide(z):
            if E.decide(cmp("eq", vs[0], 0)):
                return float("nan")
            return math.inf if E.decide(cmp("gt", vs[0], 0)) else -math.inf
        return R(E.div_term(es[0], es[1]))
    if name == "negative":
        return mkR(-es[0])
    if name == "positive":
        return mkR(es[0])
    if name == "absolute":
        return R(z3.If(es[0] >= 0, es[0], -es[0]))
    if name == "square":
        return mkR(es[0] * es[0])
    if name == "sign":
        return ite(cmp("gt", vs[0], 0), 1.0, ite(cmp("lt", vs[0], 0), -1.0, 0.0))
    if name == "power" and not is_sym(vs[1]) and vs[1] in (1, 2, 3):
        r = es[0]
        for _ in range(int(vs[1]) - 1):
            r = r * es[0]
        return mkR(r)
    if name == "arctan":
        return E.arctan(es[0])
    if name == "remainder" and not is_sym(vs[1]) and vs[1] > 0:
        k = es[0].get_id()
        if k in E.tangent and vs[1] == math.pi:
            r = z3.If(es[0] < 0, es[0] + es[1], es[0])
            E.tangent[r.get_id()] = (r, E.tangent[k][1])
            return R(r)
        return R(es[0] - es[1] * z3.ToReal(z3.ToInt(es[0] / es[1])))
    if name == "floor":
        return R(z3.ToReal(z3.ToInt(es[0])))
    if name == "ceil":
        return R(-z3.ToReal(z3.ToInt(-es[0])))
    raise NeedConcrete()


def mkR(e):
    s = z3.simplify(e, som=True, sort_sums=True)
    if z3.is_rational_value(s):
        f = s.as_fraction()
        return float(f)
    return R(s)


# ------------------------------------------------------------ scalars
def wrap_scalar(v, d):
    if isinstance(v, Val):
        return SymScalar(v, d)
    return typed(v, d)


def pykind(v):
    return {"b": bool, "i": int, "f": float}[core.kind(v)]


def concrete(x):
    """real Python/NumPy value of x, forking over its values"""
    if isinstance(x, SymScalar):
        v = eng().concretize_val(x.v)
        return typed(v, x.dt)
    if isinstance(x, SymArray):
        return x.real(fork=True)
    if isinstance(x, MaskSel):
        return x.force().real(fork=True)
    if isinstance(x, list):
        return [concrete(y) for y in x]
    if isinstance(x, tuple) and type(x) is tuple:
        return tuple(concrete(y) for y in x)
    if isinstance(x, dict) and type(x) is dict:
        return {concrete(k): concrete(y) for k, y in x.items()}
    return x


def has_sym(x, depth=3):
    if isinstance(x, (SymScalar, SymArray, MaskSel)):
        return True
    if depth and isinstance(x, (list, tuple, set)):
        return any(has_sym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(has_sym(y, depth - 1) for y in x.values())
    return False


class Ops:
    __array_ufunc__ = None
    __array_priority__ = 1000


def _bin(ufname, rev=False):
    def f(self, other):
        if ufname == "multiply" and isinstance(other, str) and \
                isinstance(self, SymScalar) and core.kind(self.v) != "f":
            return eng().token(self, ("repeat", other)) if other else ""
        if isinstance(other, (str, bytes, type(None))) or isinstance(other, dict):
            return NotImplemented
        uf = getattr(np, ufname)
        return apply(uf, other, self) if rev else apply(uf, self, other)
    return f


_PAIRS = {"add": "add", "sub": "subtract", "mul": "multiply",
          "truediv": "true_divide", "floordiv": "floor_divide",
          "mod": "remainder", "pow": "power", "and": "bitwise_and",
          "or": "bitwise_or", "xor": "bitwise_xor", "lshift": "left_shift",
          "rshift": "right_shift"}
for _m, _u in _PAIRS.items():
    setattr(Ops, f"__{_m}__", _bin(_u))
    setattr(Ops, f"__r{_m}__", _bin(_u, True))
for _m, _u in {"lt": "less", "le": "less_equal", "gt": "greater",
               "ge": "greater_equal"}.items():
    setattr(Ops, f"__{_m}__", _bin(_u))


def _eq(self, other):
    if other is None or isinstance(other, (str, bytes, dict)):
        return False
    if isinstance(other, type) or callable(other) and not isinstance(other, Ops):
        return False
    return apply(np.equal, self, other)


def _ne(self, other):
    r = _eq(self, other)
    if isinstance(r, bool):
        return not r
    return apply(np.not_equal, self, other)


Ops.__eq__ = _eq
Ops.__ne__ = _ne
Ops.__hash__ = None
Ops.__neg__ = lambda s: apply(np.negative, s)
Ops.__pos__ = lambda s: apply(np.positive, s)
Ops.__abs__ = lambda s: apply(np.absolute, s)
Ops.__invert__ = lambda s: apply(np.invert, s)


class SymScalar(Ops):
    """dt is None: a plain Python bool/int/float"""

    def __init__(self, v, dt=None):
        self.v, self.dt = v, dt

    ndim = 0
    shape = ()
    size = 1

    @property
    def dtype(self):
        if self.dt is None:
            raise AttributeError(f"'{pykind(self.v).__name__}' object has no "
                                 "attribute 'dtype'")
        return self.dt

    def __bool__(self):
        return eng().decide(to_bool(self.v))

    def __int__(self):
        return int(concrete(self))

    __index__ = None

    def __index__(self):
        return operator.index(concrete(self))

    def __float__(self):
        return float(concrete(self))

    def __round__(self, n=None):
        if n is None and self.dt is None and isinstance(self.v, (I, B)):
            return self
        return PYROUND(self, n)

    def __trunc__(self):
        return py_int(self)

    def __hash__(self):
        return hash(concrete(self))

    def __format__(self, spec):
        return eng().token(self, spec)

    def __str__(self):
        if core.kind(self.v) == "f":
            return eng().token(self, "")
        return str(concrete(self))

    def __repr__(self):
        return f"<sym {self.v}>"

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def item(self):
        return SymScalar(self.v, None)

    def astype(self, d):
        d = np.dtype(d)
        return wrap_scalar(cast(self.v, d), d)

    def sum(self, *a, **k):
        return self

    max = min = mean = copy = sum

    def any(self):
        return self.astype(bool)

    all = any

    def round(self, decimals=0):
        return apply_table(lambda x: np.round(x, decimals), self)

    def is_integer(self):
        return apply_table(lambda x: float(x).is_integer(), self)

    @property
    def real(self):
        return self

    def __getitem__(self, i):
        if i == ():
            return self
        raise IndexError("invalid index to scalar variable.")


def apply_table(f, s):
    """exact unary function of a symbolic scalar, else fork"""
    t = to_T(s.v)
    if t is not None:
        r = tmap(t, lambda x: norm(f(typed(x, s.dt))))
        return wrap_scalar(r, None)
    return f(concrete(s))


def PYROUND(s, n):
    return apply_table(lambda x: round(x, n) if n is not None else round(x), s)


def py_int(x, *a):
    if isinstance(x, str) and "\u27e6" in x and (not a or a[0] == 10):
        from .stubs import token_value
        v = token_value(x)
        if v is None:
            raise ValueError("invalid literal for int()")
        if isinstance(v, SymScalar) and core.kind(v.v) == "f":
            raise ValueError("invalid literal for int()")
        return py_int(v)
    if a or not isinstance(x, SymScalar):
        if isinstance(x, SymArray) and not a:
            return py_int(x.item())
        return int(x, *a)
    v = x.v
    if isinstance(v, B):
        return wrap_scalar(to_int(v), None)
    if isinstance(v, I):
        return SymScalar(v, None)
    if isinstance(v, T):
        return wrap_scalar(tmap(v, int), None)
    e = v.e
    eng().stats.real_ops += 1
    return SymScalar(I(e=z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))), None)


def py_float(x=0.0):
    if isinstance(x, SymArray):
        return py_float(x.item())
    if isinstance(x, str) and "\u27e6" in x:
        from .stubs import parse_float
        return py_float(parse_float(x))
    if not isinstance(x, SymScalar):
        return float(x)
    v = x.v
    if isinstance(v, R):
        return SymScalar(v, None)
    if isinstance(v, (B, I)):
        i = to_int(v)
        if isinstance(x.dt, np.dtype) and x.dt.kind == "f":
            return SymScalar(FloatI(i), None) if False else float_of(i)
        return float_of(i)
    return wrap_scalar(tmap(v, float), None)


def float_of(i):
    """an exactly integral float; keeps a float64 dtype tag so that it divides
    and prints like a float"""
    t = to_T(i)
    if t is not None:
        return wrap_scalar(tmap(t, float), None)
    return SymScalar(R(z3.ToReal(i.e)), None)


def py_bool(x=False):
    if isinstance(x, SymScalar):
        return wrap_scalar(mkB(to_bool(x.v)), None)
    return bool(x)


# ------------------------------------------------------------ operands
def operand(x):
    """-> (object ndarray or value, dtype or None, is_array)"""
    if isinstance(x, SymArray):
        if type(x) is np.ndarray:
            x = from_real(x)
        return x.o, x.dt, True
    if isinstance(x, MaskSel):
        x = x.force()
        return x.o, x.dt, True
    if isinstance(x, SymScalar):
        return x.v, x.dt, False
    if isinstance(x, np.ndarray):
        s = from_real(x)
        return s.o, s.dt, True
    if isinstance(x, np.generic):
        return norm(x), x.dtype, False
    if isinstance(x, (bool, int, float)):
        return x, None, False
    if isinstance(x, (list, tuple)):
        s = asarray(x)
        return s.o, s.dt, True
    raise TypeError(f"unsupported operand type: {type(x).__name__}")


def dummy(v, d, isarr):
    if isarr:
        return np.ones(1, d)
    if d is not None:
        return d.type(1)
    if is_sym(v):
        return pykind(v)(1)
    return v


def obj(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def apply(uf, *args, **kw):
    """ufunc on any mix of operands"""
    out = kw.pop("out", None)
    dtype = kw.pop("dtype", None)
    where = kw.pop("where", True)
    kw.pop("casting", None)
    if kw:
        raise EngineLimit(f"ufunc keyword {list(kw)}")
    if where is not True:
        raise EngineLimit("ufunc where=")
    for a in args:
        if isinstance(a, MaskSel):
            r = MaskSel.lift(uf, args)
            if r is not None:
                return r
    ops = [operand(a) for a in args]
    if len(args) == 2 and not any(o[2] for o in ops) and all(
            o[1] is None for o in ops):
        return pyop(uf, ops[0][0], ops[1][0])
    if len(args) == 1 and not ops[0][2] and ops[0][1] is None:
        r = pyop1(uf, ops[0][0])
        if r is not NotImplemented:
            return r
    with quiet():
        r = uf(*[dummy(*o) for o in ops])
    if isinstance(r, tuple):
        raise EngineLimit(f"ufunc {uf.__name__} with several results")
    rd = np.dtype(dtype) if dtype is not None else r.dtype
    name = uf.__name__
    if name == "divide":
        name = "true_divide"
    isarr = any(o[2] for o in ops)
    try:
        if not isarr:
            res = cast_if(elem(uf, name, [(o[0], o[1]) for o in ops], rd), rd)
            return wrap_scalar(res, rd)
        os_ = [o[0] if o[2] else obj(o[0]) for o in ops]
        # whole-array fast path
        if not any(is_sym(v) for a in os_ for v in a.flat):
            with quiet():
                rr = uf(*[a.astype(o[1]) if o[2] else typed(o[0], o[1])
                          for a, o in zip(os_, ops)])
            res = from_real(np.asarray(rr))
        else:
            bs = np.broadcast_arrays(*os_)
            ro = np.empty(bs[0].shape, dtype=object)
            dts = [o[1] for o in ops]
            it = zip(*[b.ravel() for b in bs])
            flat = [cast_if(elem(uf, name, list(zip(vs, dts)), rd), rd)
                    for vs in it]
            ro_flat = ro.reshape(-1)
            for i, v in enumerate(flat):
                ro_flat[i] = v
            ro = ro_flat.reshape(bs[0].shape)
            res = SymArray(ro, rd)
    except NeedConcrete:
        eng().stats.concretised += 1
        with quiet():
            rr = uf(*[concrete(a) for a in args])
        return from_real(rr) if isinstance(rr, np.ndarray) else rr
    if dtype is not None:
        res = res.astype(rd)
    if out is not None:
        if isinstance(out, tuple):
            out = out[0]
        out[...] = res
        return out
    if res.o.ndim == 0:
        return wrap_scalar(res.o[()], rd)
    return res


def cast_if(v, rd):
    if not is_sym(v):
        return v
    if rd.kind == "b" and not isinstance(v, B):
        return mkB(to_bool(v))
    return v


_PYOP = {"add": operator.add, "subtract": operator.sub,
         "multiply": operator.mul, "true_divide": operator.truediv,
         "divide": operator.truediv, "floor_divide": operator.floordiv,
         "remainder": operator.mod, "power": operator.pow,
         "bitwise_and": operator.and_, "bitwise_or": operator.or_,
         "bitwise_xor": operator.xor, "left_shift": operator.lshift,
         "right_shift": operator.rshift,
         "less": operator.lt, "less_equal": operator.le,
         "greater": operator.gt, "greater_equal": operator.ge,
         "equal": operator.eq, "not_equal": operator.ne}


def pyop(uf, a, b):
    """Python scalar semantics"""
    name = uf.__name__
    if name == "divide":
        name = "true_divide"
    if not is_sym(a) and not is_sym(b):
        f = _PYOP.get(name)
        return f(a, b) if f else uf(a, b)
    if name in CMPNAME:
        return wrap_scalar(mkB(cmp(CMPNAME[name], a, b)), None)
    if name in ("true_divide", "floor_divide", "remainder"):
        if eng().decide(cmp("eq", b, 0)):
            raise ZeroDivisionError("division by zero")
    ka, kb = core.kind(a), core.kind(b)
    if name in ("bitwise_and", "bitwise_or", "bitwise_xor") and ka == kb == "b":
        rd = BOOL
    elif name == "true_divide" or "f" in (ka, kb):
        rd = F64
    else:
        rd = None
    f = _PYOP.get(name)
    try:
        if rd is BOOL:
            return wrap_scalar(elem(uf, name, [(a, None), (b, None)], BOOL), None)
        if rd is None:
            if name in ("add", "subtract", "multiply"):
                ia, ib = integral(a), integral(b)
                if isinstance(ia, T) or isinstance(ib, T):
                    r = table(f, [(ia, None), (ib, None)])
                    if r is not None:
                        return wrap_scalar(r, None)
                    ia, ib = to_int(ia), to_int(ib)
                r = imul(ia, ib) if name == "multiply" else iadd(
                    ia, ib, 1 if name == "add" else -1)
                return wrap_scalar(r, None)
            r = table(f, [(a, None), (b, None)])
            if r is None:
                if name in ("floor_divide", "remainder") and not is_sym(b) and b > 0:
                    return wrap_scalar(elem(uf, name, [(a, None), (b, None)], I64),
                                       None)
                raise NeedConcrete()
            return wrap_scalar(r, None)
        r = table(f, [(a, None), (b, None)]) if f else None
        if r is None:
            ia, ib = integral(a), integral(b)
            r = relem(name, [a, b])
        return wrap_scalar(r, None)
    except NeedConcrete:
        eng().stats.concretised += 1
        a, b = eng().concretize_val(a), eng().concretize_val(b)
        return f(a, b) if f else uf(a, b)


def pyop1(uf, a):
    name = uf.__name__
    if name in ("negative", "positive", "absolute") and is_sym(a):
        if isinstance(a, R):
            return SymScalar(relem(name, [a]), None)
        f = {"negative": operator.neg, "positive": operator.pos,
             "absolute": abs}[name]
        t = to_T(a)
        if t is not None:
            return wrap_scalar(tmap(t, f), None)
        v = to_int(a)
        if name == "negative":
            return SymScalar(imul(v, -1), None)
        if name == "positive":
            return SymScalar(v, None)
        return SymScalar(ite(cmp_ic(v, "ge", 0), v, imul(v, -1)), None)
    if name == "invert" and is_sym(a):
        return wrap_scalar(iadd(imul(to_int(a), -1), -1), None)
    return NotImplemented


# ------------------------------------------------------------ arrays
def from_real(a):
    if isinstance(a, np.ndarray) and a.dtype == object:
        raise EngineLimit("object array")
    a = np.asarray(a)
    o = np.empty(a.shape, dtype=object)
    if a.dtype.kind in "biu" or a.dtype == F64:
        o[...] = a.astype(object)
    elif a.dtype.kind == "f":
        f = o.reshape(-1)
        for i, v in enumerate(a.ravel()):
            f[i] = v
        o = f.reshape(a.shape)
    else:
        o[...] = a.astype(object)
    return SymArray(o, a.dtype)


class _Meta(type):
    def __instancecheck__(cls, x):
        return type.__instancecheck__(cls, x) or (
            cls is SymArray and type(x) is np.ndarray)


class SymArray(Ops, metaclass=_Meta):
    def __init__(self, o, dt):
        self.o, self.dt = o, np.dtype(dt)

    # -- basics
    @property
    def dtype(self):
        return self.dt

    @property
    def shape(self):
        return self.o.shape

    @shape.setter
    def shape(self, s):
        self.o = self.o.reshape(s)

    @property
    def ndim(self):
        return self.o.ndim

    @property
    def size(self):
        return self.o.size

    @property
    def T(self):
        return SymArray(self.o.T, self.dt)

    @property
    def itemsize(self):
        return self.dt.itemsize

    @property
    def nbytes(self):
        return self.dt.itemsize * self.o.size

    @property
    def strides(self):
        return np.empty(self.o.shape, self.dt).strides

    @property
    def flat(self):
        return iter([wrap_scalar(v, self.dt) for v in self.o.flat])

    @property
    def flags(self):
        return np.empty(self.o.shape, self.dt).flags

    def issym(self):
        return any(isinstance(v, Val) for v in self.o.flat)

    def real(self, fork=False):
        o = self.o
        if self.issym():
            if not fork:
                raise EngineLimit("symbolic array used concretely")
            o = np.empty(self.o.shape, dtype=object)
            f = o.reshape(-1)
            for i, v in enumerate(self.o.ravel()):
                f[i] = eng().concretize_val(v)
            o = f.reshape(self.o.shape)
        return o.astype(self.dt)

    def __array__(self, dtype=None, copy=None):
        r = self.real(fork=True)
        return r if dtype is None else r.astype(dtype)

    def __len__(self):
        if self.o.ndim == 0:
            raise TypeError("len() of unsized object")
        return self.o.shape[0]

    def __iter__(self):
        if self.o.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        return (self[i] for i in range(self.o.shape[0]))

    def __bool__(self):
        if self.o.size == 1:
            return eng().decide(to_bool(self.o.reshape(-1)[0]))
        return bool(np.empty(self.o.shape))

    def __int__(self):
        return int(concrete(self.item()))

    def __float__(self):
        return float(concrete(self.item()))

    def __index__(self):
        return operator.index(concrete(self.item()))

    def __repr__(self):
        return f"SymArray({self.o!r}, {self.dt})"

    def __format__(self, spec):
        return f"<array{self.o.shape}>"

    def __str__(self):
        return str(concrete(self))

    def __contains__(self, x):
        return bool((self == x).any())

    def __deepcopy__(self, memo):
        return self.copy()

    def __reduce__(self):
        raise EngineLimit("pickling a symbolic array")

    def item(self, *a):
        v = self.o.item(*a) if a else self.o.reshape(-1)[0]
        if not a and self.o.size != 1:
            raise ValueError("can only convert an array of size 1 to a "
                             "Python scalar")
        return wrap_scalar(v, None) if not (
            isinstance(v, (I, B)) and self.dt.kind == "f") else float_of(to_int(v))

    def tolist(self):
        if self.o.ndim == 0:
            return self.item()
        if self.o.ndim == 1:
            return [SymArray(obj(v), self.dt).item() for v in self.o]
        return [self[i].tolist() for i in range(self.o.shape[0])]

    def copy(self, order="C"):
        return SymArray(self.o.copy(), self.dt)

    __copy__ = copy

    def astype(self, d, order="K", casting="unsafe", subok=True, copy=True):
        d = np.dtype(d)
        if d == self.dt and not copy:
            return self
        if not self.issym():
            with quiet():
                return from_real(self.real().astype(d))
        return SymArray(self._map(lambda v: cast(v, d)), d)

    def _map(self, f):
        o = np.empty(self.o.shape, dtype=object)
        fl = o.reshape(-1)
        for i, v in enumerate(self.o.ravel()):
            fl[i] = f(v)
        return fl.reshape(self.o.shape)

    # -- indexing
    def __getitem__(self, idx):
        idx, kind = norm_index(idx)
        if kind == "plain":
            r = self.o[idx]
            if isinstance(r, np.ndarray) and not _is_elem_index(self.o, idx, r):
                return SymArray(r, self.dt)
            return wrap_scalar(r, self.dt)
        if kind == "mask":
            return MaskSel.make(self, idx)
        if kind == "where":
            return MaskSel.make(self, idx.mask)
        if kind == "int":
            return gather(self, idx)
        if kind == "tuple":
            # resolve the symbolic components one at a time
            return gather_tuple(self, idx)
        raise EngineLimit("index")

    def __setitem__(self, idx, val):
        idx, kind = norm_index(idx)
        d = self.dt
        if kind == "plain":
            v = store_val(val, d)
            if isinstance(v, np.ndarray):
                self.o[idx] = v
            else:
                t = self.o[idx]
                if isinstance(t, np.ndarray) and not _is_elem_index(
                        self.o, idx, t):
                    self.o[idx] = obj(v)
                else:
                    self.o[idx] = v
            return
        if kind in ("mask", "where"):
            m = idx if kind == "mask" else idx.mask
            return self._mask_set(m, val)
        if kind == "int":
            i, d_, isarr = operand(idx)
            if isarr:
                for j in range(i.size):
                    vv = val
                    if isinstance(val, SymArray) and val.ndim > 0:
                        vv = val[j] if val.shape[0] == i.size else val
                    self[wrap_scalar(i.reshape(-1)[j], d_)] = vv
                return
            n = self.o.shape[0]
            check_bounds(i, n)
            for k in range(n):
                c = bor(cmp("eq", i, k), cmp("eq", i, k - n))
                if c is False:
                    continue
                sub = self.o[k]
                if self.o.ndim == 1:
                    self.o[k] = ite(c, store_scalar(val, d), self.o[k])
                else:
                    SymArray(sub, d)._mask_set(
                        SymArray(_full(sub.shape, mkB(c)), BOOL), val)
            return
        if kind == "tuple":
            return scatter_tuple(self, idx, val)
        raise EngineLimit("index assignment")

    def _mask_set(self, mask, val):
        d = self.dt
        mo = mask.o
        if mo.shape != self.o.shape[:mo.ndim]:
            np.empty(self.o.shape)[np.empty(mo.shape, bool)]   # real IndexError
            raise IndexError("boolean index did not match indexed array")
        if isinstance(val, MaskSel):
            if val.mask.o.shape == mo.shape and val.same_mask(mask):
                src = val.src
                for pos in np.ndindex(mo.shape):
                    c = to_bool(mo[pos])
                    if c is False:
                        continue
                    self.o[pos] = _ite_store(c, SymArray(obj_at(src, pos),
                                                         val.dt), self.o[pos], d)
                return
            val = val.force()
        scalarish = not isinstance(val, (SymArray, list, tuple)) or (
            isinstance(val, SymArray) and (
                val.ndim == 0 or val.ndim <= self.o.ndim - mo.ndim))
        if not scalarish:
            m = concrete(mask)
            v = store_val(val, d)
            self.o[m] = v
            return
        for pos in np.ndindex(mo.shape):
            c = to_bool(mo[pos])
            if c is False:
                continue
            self.o[pos] = _ite_store(c, val, self.o[pos], d)

    def fill(self, v):
        self[...] = v

    # -- shape operations: NumPy's own on the object array
    def reshape(self, *s, order="C"):
        if len(s) == 1:
            s = s[0]
        s = concrete(s)
        return SymArray(self.o.reshape(s, order=order), self.dt)

    def ravel(self, order="C"):
        return SymArray(self.o.ravel(order), self.dt)

    def flatten(self, order="C"):
        return SymArray(self.o.flatten(order), self.dt)

    def transpose(self, *a):
        return SymArray(self.o.transpose(*a), self.dt)

    def squeeze(self, axis=None):
        return SymArray(self.o.squeeze(axis), self.dt)

    def swapaxes(self, a, b):
        return SymArray(self.o.swapaxes(a, b), self.dt)

    def repeat(self, n, axis=None):
        return SymArray(self.o.repeat(n, axis), self.dt)

    def take(self, idx, axis=None, **kw):
        return np_call("take", (self, idx), dict(axis=axis))

    def view(self, d=None):
        if d is None or d is SymArray:
            return SymArray(self.o.view(), self.dt)
        d = np.dtype(d)
        if d == self.dt:
            return SymArray(self.o.view(), self.dt)
        return reinterpret(self, d)

    def tobytes(self, *a):
        return concrete(self).tobytes(*a)

    def tofile(self, f, *a, **k):
        from . import stubs
        return stubs.tofile(self, f)

    # -- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return reduce_(np.add, self, axis, dtype, keepdims, "sum", **k)

    def prod(self, axis=None, dtype=None, keepdims=False, **k):
        return reduce_(np.multiply, self, axis, dtype, keepdims, "prod", **k)

    def any(self, axis=None, out=None, keepdims=False):
        return reduce_(np.logical_or, self, axis, None, keepdims, "any")

    def all(self, axis=None, out=None, keepdims=False):
        return reduce_(np.logical_and, self, axis, None, keepdims, "all")

    def max(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.maximum, self, axis, None, keepdims, "max", **k)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return reduce_(np.minimum, self, axis, None, keepdims, "min", **k)

    def mean(self, axis=None, dtype=None, keepdims=False):
        s = (self if self.dt.kind == "f" else self.astype(F64)).sum(
            axis=axis, keepdims=keepdims)
        n = self.size if axis is None else self.shape[axis]
        return apply(np.true_divide, s, n)

    def cumsum(self, axis=None, dtype=None):
        return np_call("cumsum", (self,), dict(axis=axis, dtype=dtype))

    def argmax(self, axis=None):
        return argmaxmin(self, axis, np.greater)

    def argmin(self, axis=None):
        return argmaxmin(self, axis, np.less)

    def nonzero(self):
        return np_call("nonzero", (self,), {})

    def round(self, decimals=0):
        return np_call("round", (self, decimals), {})

    def clip(self, a=None, b=None, **k):
        return np_call("clip", (self, a, b), k)

    def sort(self, axis=-1, **k):
        self[...] = np_call("sort", (self,), dict(axis=axis))

    def argsort(self, axis=-1, **k):
        return np_call("argsort", (self,), dict(axis=axis))

    def dot(self, b):
        return np_call("dot", (self, b), {})

    def __matmul__(self, b):
        return np_call("matmul", (self, b), {})

    def __iadd__(self, other):
        return _inplace(np.add, self, other)

    def __isub__(self, other):
        return _inplace(np.subtract, self, other)

    def __imul__(self, other):
        return _inplace(np.multiply, self, other)

    def __itruediv__(self, other):
        return _inplace(np.true_divide, self, other)

    def __ior__(self, other):
        return _inplace(np.bitwise_or, self, other)

    def __iand__(self, other):
        return _inplace(np.bitwise_and, self, other)

    def __ixor__(self, other):
        return _inplace(np.bitwise_xor, self, other)

    def __ifloordiv__(self, other):
        return _inplace(np.floor_divide, self, other)


def obj_at(src, pos):
    r = src[pos]
    return r if isinstance(r, np.ndarray) else obj(r)


def _inplace(uf, a, b):
    # dtype rules of the in-place operator, from NumPy itself
    bo = operand(b)
    d = np.ones(1, a.dt)
    with quiet():
        uf(d, dummy(*bo), out=d)
    np.broadcast_shapes(a.o.shape, bo[0].shape if bo[2] else ())
    r = apply(uf, a, b)
    if isinstance(r, SymArray) and r.o.shape != a.o.shape:
        raise ValueError(f"non-broadcastable output operand with shape "
                         f"{a.o.shape} doesn't match the broadcast shape {r.o.shape}")
    a[...] = r
    return a


def _full(shape, v):
    o = np.empty(shape, dtype=object)
    f = o.reshape(-1)
    for i in range(f.size):
        f[i] = v
    return f.reshape(shape)


def _ite_store(c, val, old, d):
    if isinstance(old, np.ndarray):
        new = store_val(val, d)
        new = np.broadcast_to(new if isinstance(new, np.ndarray) else obj(new),
                              old.shape)
        out = np.empty(old.shape, dtype=object)
        for p in np.ndindex(old.shape):
            out[p] = ite(c, new[p], old[p])
        return out
    return ite(c, store_scalar(val, d), old)


def store_scalar(val, d):
    if isinstance(val, SymArray):
        if val.size != 1:
            raise ValueError("setting an array element with a sequence.")
        return cast(val.o.reshape(-1)[0], d)
    v, vd, isarr = operand(val)
    if isarr:
        return cast(v.reshape(-1)[0], d)
    if not is_sym(v) and vd is None and d.kind in "iu" and is_int(v):
        d.type(v)          # NumPy's own OverflowError
    return cast(v, d)


def store_val(val, d):
    """value(s) to assign into an array of dtype d"""
    if isinstance(val, (SymArray, np.ndarray, list, tuple, MaskSel)):
        v, vd, _ = operand(val)
        if vd == d:
            return v
        return SymArray(v, vd).astype(d).o
    return store_scalar(val, d)


def _is_elem_index(o, idx, r):
    return False


class MaskIndex(tuple):
    """result of np.where(cond) / nonzero on a symbolic condition"""
    def __new__(cls, mask):
        t = tuple.__new__(cls, ())
        t.mask = mask
        return t

    def force(self):
        return tuple(from_real(x) for x in np.nonzero(concrete(self.mask)))

    def __len__(self):
        return self.mask.ndim

    def __getitem__(self, i):
        return self.force()[i]

    def __iter__(self):
        return iter(self.force())


def norm_index(idx):
    if isinstance(idx, MaskIndex):
        return idx, "where"
    if isinstance(idx, MaskSel):
        idx = idx.force()
    if isinstance(idx, SymScalar):
        if isinstance(idx.v, B) or idx.dt == BOOL:
            return concrete(idx), "plain"
        return idx, "int"
    if isinstance(idx, SymArray) and not type(idx) is np.ndarray:
        if not idx.issym():
            return idx.real(), "plain"
        if idx.dt.kind == "b":
            return idx, "mask"
        if idx.dt.kind in "iu":
            return idx, "int"
        raise IndexError("arrays used as indices must be of integer (or boolean) type")
    if isinstance(idx, list):
        a = asarray(idx)
        if a.issym():
            return norm_index(a)
        return idx if not has_sym(idx) else a.real(), "plain"
    if isinstance(idx, tuple):
        out, sym = [], False
        for x in idx:
            if isinstance(x, slice):
                out.append(slice(*[operator.index(concrete(y))
                                   if isinstance(y, (SymScalar, SymArray)) else y
                                   for y in (x.start, x.stop, x.step)]))
                continue
            if x is None or x is Ellipsis or isinstance(x, (int, np.integer)):
                out.append(x)
                continue
            y, k = norm_index(x)
            out.append(y)
            if k != "plain":
                sym = True
        if not sym:
            return tuple(out), "plain"
        if len(out) == 1:
            return norm_index(out[0])
        return tuple(out), "tuple"
    if isinstance(idx, slice):
        return norm_index((idx,))
    return idx, "plain"


def check_bounds(i, n):
    ok = band(cmp("ge", i, -n), cmp("lt", i, n))
    if not eng().decide(ok):
        raise IndexError(f"index out of bounds for axis 0 with size {n}")


def mux_bits(bits, table, cache):
    """table of 2^len(bits) values (lsb first) selected by bits"""
    def go(k, lo):
        if k < 0:
            return table[lo]
        key = (k, tuple(id(x) if is_sym(x) else (type(x), x)
                        for x in table[lo:lo + (1 << (k + 1))]))
        if key in cache:
            return cache[key]
        h = go(k - 1, lo + (1 << k))
        l_ = go(k - 1, lo)
        r = ite(bits[k], h, l_)
        cache[key] = r
        return r
    return go(len(bits) - 1, 0)


def select_from(i, vals, n):
    """vals[i] for a symbolic integer i known to be in [-n, n)"""
    if isinstance(i, B):
        i = to_int(i)
    if isinstance(i, T):
        out = None
        for k, g in zip(reversed(i.vals), reversed(i.guards)):
            if not -n <= int(k) < n:
                continue
            v = vals[int(k)]
            out = v if out is None else ite(g, v, out)
        return out
    if i.pb is not None and i.pb[0] == 0:
        ws = sorted(i.pb[1], key=lambda t: t[0])
        m = len(ws)
        if [w for w, _ in ws] == [1 << k for k in range(m)] and (1 << m) <= n:
            return mux_bits([g for _, g in ws], vals, {})
        if len(ws) <= 10 and all(w > 0 for w, _ in ws) and sum(
                w for w, _ in ws) < n:
            gs = [g for _, g in ws]
            tab = []
            for code in range(1 << m):
                tab.append(vals[sum(w for k, (w, _) in enumerate(ws)
                                    if code >> k & 1)])
            return mux_bits(gs, tab, {})
    lo = max(i.lo if i.lo is not None else -n, -n)
    hi = min(i.hi if i.hi is not None else n - 1, n - 1)
    groups = {}
    for k in range(lo, hi + 1):
        v = vals[k]
        kk = id(v) if is_sym(v) else (type(v).__name__, v)
        groups.setdefault(kk, (v, []))[1].append(k)
    ks = list(range(lo, hi + 1))
    gl = sorted(groups.values(), key=lambda t: -len(t[1]))
    out = gl[0][0]
    for v, kk in gl[1:]:
        out = ite(core.in_set(i, kk, ks), v, out)
    return out


def gather(arr, idx):
    i, d, isarr = operand(idx)
    n = arr.o.shape[0]
    if not isarr:
        check_bounds(i, n)
        return gather1(arr, i, n)
    ii = [v for v in i.ravel()]
    for v in ii:
        if is_sym(v):
            lo, hi = core.int_range(v)
            if lo is None or lo < -n or hi is None or hi >= n:
                check_bounds(v, n)
        elif not -n <= v < n:
            raise IndexError(f"index {v} is out of bounds for axis 0 with size {n}")
    rest = arr.o.shape[1:]
    out = np.empty((len(ii),) + rest, dtype=object)
    for k, v in enumerate(ii):
        if not is_sym(v):
            out[k] = arr.o[v]
        elif rest:
            out[k] = gather1(arr, v, n).o
        else:
            out[k] = select_from(v, list(arr.o), n)
    return SymArray(out.reshape(i.shape + rest), arr.dt)


def gather1(arr, i, n):
    if arr.o.ndim == 1:
        return wrap_scalar(select_from(i, list(arr.o), n), arr.dt)
    rest = arr.o.shape[1:]
    out = np.empty(rest, dtype=object)
    for p in np.ndindex(rest):
        out[p] = select_from(i, [arr.o[(k,) + p] for k in range(n)], n)
    return SymArray(out, arr.dt)


def gather_tuple(arr, idx):
    """concretise all but integer-scalar components"""
    out = []
    for x in idx:
        if isinstance(x, SymScalar):
            out.append(operator.index(concrete(x)))
        elif isinstance(x, SymArray):
            out.append(concrete(x))
        elif isinstance(x, MaskIndex):
            out.append(concrete(x.mask))
        else:
            out.append(x)
    eng().stats.concretised += 1
    return arr[tuple(out)]


def scatter_tuple(arr, idx, val):
    """a[i, mask] = v / a[..., mask] = v with concrete other components"""
    syms = [k for k, x in enumerate(idx) if isinstance(x, (SymArray, SymScalar,
                                                          MaskIndex))
            and not (type(x) is np.ndarray)]
    if len(syms) == 1 and isinstance(idx[syms[0]], SymArray) \
            and idx[syms[0]].dt.kind == "b":
        k = syms[0]
        m = idx[k]
        pre, post = idx[:k], idx[k + 1:]
        if all(isinstance(x, (int, np.integer)) for x in pre) and not post:
            SymArray(arr.o[pre], arr.dt)[m] = val
            return
        if all(isinstance(x, (int, np.integer)) for x in post) and (
                not pre or pre == (Ellipsis,)):
            SymArray(arr.o[(Ellipsis,) + post], arr.dt)[m] = val
            return
    out = [concrete(x.mask) if isinstance(x, MaskIndex) else
           (operator.index(concrete(x)) if isinstance(x, SymScalar) else
            (concrete(x) if isinstance(x, SymArray) else x)) for x in idx]
    eng().stats.concretised += 1
    arr[tuple(out)] = val


def reinterpret(a, d):
    """view with another dtype on the last axis (integers and bool only)"""
    if d.itemsize == a.dt.itemsize:
        if a.dt.kind in "iub" and d.kind in "iu":
            return SymArray(a._map(lambda v: cast(v, d)), d)
        if d.kind == "b" and a.dt.itemsize == 1:
            return SymArray(a._map(lambda v: cast(v, d)), d)
        if not a.issym():
            return from_real(a.real().view(d))
        raise EngineLimit("view across kinds")
    if not a.issym():
        return from_real(a.real().view(d))
    if d.itemsize == 1 and d.kind == "u" and a.dt.kind in "iu":
        n = a.dt.itemsize
        shape = np.empty(a.o.shape, a.dt).view(d).shape   # real rules and errors
        out = np.empty(a.o.shape + (n,), dtype=object)
        for p in np.ndindex(a.o.shape):
            bs = bits_of(a.o[p], 8 * n)
            for k in range(n):
                out[p + (k,)] = from_bits(bs[8 * k:8 * k + 8])
        return SymArray(out.reshape(shape), d)
    raise EngineLimit("view with another item size")


def pb_bits(v, n):
    """bits of a pseudo-Boolean sum with disjoint bit weights (modulo 2**n)"""
    if v.pb is None or v.pb[0] % (1 << n):
        return None
    out = [False] * n
    for w, g in v.pb[1]:
        w %= 1 << n
        if w == 0:
            continue
        k = w.bit_length() - 1
        if w & (w - 1) or out[k] is not False:
            return None
        out[k] = g
    return out


def bits_of(v, n):
    """two's complement bits, least significant first"""
    if not is_sym(v):
        return [bool((int(v) >> k) & 1) for k in range(n)]
    if isinstance(v, T):
        return [v.select(lambda x, k=k: bool((int(x) >> k) & 1)) for k in range(n)]
    v = to_int(v)
    bs = pb_bits(v, n)
    if bs is not None:
        return bs
    t = to_T(v)
    if t is not None:
        return bits_of(t, n)
    return [z3.simplify((v.e / (1 << k)) % 2 == 1) for k in range(n)]


def from_bits(bs):
    return mkpb(0, [(1 << k, b) for k, b in enumerate(bs)])


class MaskSel:
    """a[mask] for a symbolic mask: the selected values, in order"""

    def __init__(self, src, mask, dt):
        self.src, self.mask, self.dt = src, mask, dt
        self.dtype = dt

    @staticmethod
    def make(arr, mask):
        if mask.o.shape != arr.o.shape[:mask.o.ndim]:
            raise IndexError("boolean index did not match indexed array")
        if mask.o.ndim != arr.o.ndim:
            return SymArray(arr.o[concrete(mask)], arr.dt)
        return MaskSel(arr.o.copy(), mask, arr.dt)

    def same_mask(self, m):
        return all(x is y or (isinstance(x, B) and isinstance(y, B)
                              and x.e.get_id() == y.e.get_id())
                   or (not is_sym(x) and not is_sym(y) and x == y)
                   for x, y in zip(self.mask.o.flat, m.o.flat))

    def force(self):
        m = concrete(self.mask)
        return SymArray(self.src[m], self.dt)

    @staticmethod
    def lift(uf, args):
        ms = [a for a in args if isinstance(a, MaskSel)]
        others = [a for a in args if not isinstance(a, MaskSel)]
        if any(isinstance(a, (SymArray, list, tuple)) for a in others):
            return None
        if any(not ms[0].same_mask(m.mask) or m.src.shape != ms[0].src.shape
               for m in ms):
            return None
        r = apply(uf, *[SymArray(a.src, a.dt) if isinstance(a, MaskSel) else a
                        for a in args])
        return MaskSel(r.o, ms[0].mask, r.dt)

    @property
    def size(self):
        return self.mask.sum()

    @property
    def shape(self):
        return self.force().shape

    ndim = 1

    def __len__(self):
        return len(self.force())

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, i):
        return self.force()[i]

    def astype(self, d):
        a = SymArray(self.src, self.dt).astype(d)
        return MaskSel(a.o, self.mask, a.dt)

    def _fold(self, uf, init, what):
        acc = init
        d = self.dt
        for v, m in zip(self.src.ravel(), self.mask.o.ravel()):
            c = to_bool(m)
            if c is False:
                continue
            nxt = apply(uf, acc, wrap_scalar(v, d))
            a, ad, _ = operand(acc)
            b, bd, _ = operand(nxt)
            acc = wrap_scalar(ite(c, b, cast(a, bd) if bd is not None else a), bd)
        return acc

    def sum(self, axis=None, **k):
        rd = np.ones(1, self.dt).sum().dtype
        return self._fold(np.add, rd.type(0), "sum")

    def any(self, axis=None):
        return (SymArray(self.src, self.dt).astype(bool) & self.mask).any()

    def all(self, axis=None):
        return (SymArray(self.src, self.dt).astype(bool) | ~self.mask).all()

    def max(self, axis=None, initial=None, **k):
        return self._ext(np.maximum, initial)

    def min(self, axis=None, initial=None, **k):
        return self._ext(np.minimum, initial)

    def _ext(self, uf, initial):
        if initial is not None:
            i = self.dt.type(0) if not isinstance(initial, (SymScalar, np.generic)) \
                else None
            init = self.dt.type(initial) if i is not None else initial
            return self._fold(uf, init, "ext")
        anym = to_bool(operand(self.mask.any())[0])
        if not eng().decide(anym):
            np.max(np.empty(0))
        return self.force().max() if uf is np.maximum else self.force().min()

    def mean(self, **k):
        return self.force().mean(**k)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.force(), n)


for _m in list(_PAIRS) + ["lt", "le", "gt", "ge", "eq", "ne"]:
    for _p in ("", "r"):
        _n = f"__{_p}{_m}__"
        if hasattr(Ops, _n):
            setattr(MaskSel, _n, getattr(Ops, _n))
MaskSel.__invert__ = Ops.__invert__
MaskSel.__neg__ = Ops.__neg__
MaskSel.__hash__ = None
MaskSel.__array_ufunc__ = None


# ------------------------------------------------------------ reductions
def reduce_(uf, a, axis, dtype, keepdims, what, initial=None, where=None):
    if isinstance(a, MaskSel):
        if axis is None and what in ("sum", "any", "all"):
            return getattr(a, what)()
        if axis is None and what in ("max", "min"):
            return getattr(a, what)(initial=initial)
        a = a.force()
    a = asarray(a)
    kw = {}
    if dtype is not None:
        kw["dtype"] = dtype
    if initial is not None:
        kw["initial"] = initial
    if where is not None:
        if what in ("sum", "any"):
            a = apply_where(a, where, 0)
        elif what == "all":
            a = apply_where(a, where, 1)
        else:
            raise EngineLimit("where= in a reduction")
    if isinstance(axis, SymScalar):
        axis = concrete(axis)
    if not a.issym() and not has_sym(initial):
        with quiet():
            r = getattr(np, what)(a.real(), axis=axis, keepdims=keepdims, **kw)
        return from_real(r) if isinstance(r, np.ndarray) else r
    kw.pop("initial", None)
    with quiet():
        rd = getattr(np, what)(np.ones((1,) * max(1, a.ndim), a.dt), axis=None,
                               **kw).dtype
    o = a.o
    if axis is None:
        axes = tuple(range(o.ndim))
    else:
        axes = axis if isinstance(axis, tuple) else (axis,)
        axes = tuple(ax % o.ndim for ax in axes)
    rest = tuple(k for k in range(o.ndim) if k not in axes)
    t = np.transpose(o, rest + axes).reshape(
        tuple(o.shape[k] for k in rest) + (-1,))
    out = np.empty(t.shape[:-1], dtype=object)
    for p in np.ndindex(out.shape):
        out[p] = fold_elems(uf, list(t[p]), a.dt, rd, what, initial)
    if keepdims:
        out = out.reshape(tuple(1 if k in axes else o.shape[k]
                                for k in range(o.ndim)))
        return SymArray(out, rd)
    if out.ndim == 0:
        return wrap_scalar(out[()], rd)
    return SymArray(out, rd)


def apply_where(a, where, neutral):
    w = asarray(where)
    return np_call("where", (w, a, a.dt.type(neutral)), {})


def fold_elems(uf, vs, dt, rd, what, initial):
    if what in ("any", "all"):
        f = bor if what == "any" else band
        return mkB(f(*[to_bool(v) for v in vs]))
    if what == "sum":
        acc, ok = 0, True
        terms, c = [], 0
        rest = []
        for v in vs:
            w = integral(v)
            if isinstance(w, I) and w.pb is not None:
                c += w.pb[0]
                terms += list(w.pb[1])
            elif w is not None and not is_sym(w):
                c += w
            else:
                rest.append(v)
        lo = hi = 0
        for v in vs:
            w = integral(v)
            if w is not None:
                a_, b_ = core.int_range(w)
                lo, hi = _addn(lo, a_), _addn(hi, b_)
        if rest:
            lo = hi = None
        acc = mkpb(c, terms, lo, hi)
        if rd.kind == "f" and not is_sym(acc):
            acc = float(acc) if rd.itemsize == 8 else rd.type(acc)
        for v in rest:
            acc = elem(np.add, "add", [(acc, rd), (cast(v, rd), rd)], rd)
        if initial is not None:
            acc = elem(np.add, "add", [(acc, rd), (operand(initial)[0], rd)], rd)
        return cast(acc, rd)
    if not vs and initial is None:
        getattr(np, what)(np.empty(0, dt))       # NumPy's own error
    acc = None
    if initial is not None:
        acc = cast(operand(initial)[0], rd)
    for v in vs:
        v = cast(v, rd)
        acc = v if acc is None else elem(uf, uf.__name__, [(acc, rd), (v, rd)], rd)
    return acc


def argmaxmin(a, axis, uf):
    a = asarray(a)
    if not a.issym():
        f = np.argmax if uf is np.greater else np.argmin
        r = f(a.real(), axis=axis)
        return from_real(r) if isinstance(r, np.ndarray) else r
    if axis is not None and a.ndim > 1:
        o = np.moveaxis(a.o, axis, -1)
        out = np.empty(o.shape[:-1], dtype=object)
        for p in np.ndindex(out.shape):
            out[p] = _argbest(list(o[p]), uf)
        return SymArray(out, I64)
    return wrap_scalar(_argbest(list(a.o.ravel()), uf), I64)


def _argbest(vs, uf):
    n = len(vs)
    gt, ge = ("gt", "ge") if uf is np.greater else ("lt", "le")

    def strict(x, y):
        f = PYCMP[gt]
        r = None
        if isinstance(x, T) or isinstance(y, T) or is_float(x) or is_float(y):
            r = rel(lambda p, q: f(p, q) or (p != p and q == q), x, y)
        return cmp(gt, x, y) if r is None else r

    if n == 1:
        return 0
    s = {}
    for i in range(n):
        for j in range(n):
            if i != j:
                s[i, j] = strict(vs[i], vs[j])
    pairs = []
    for i in range(n):
        g = band(*[s[i, j] for j in range(i)],
                 *[bnot(s[j, i]) for j in range(i + 1, n)])
        pairs.append((i, g))
    pairs = [(i, g) for i, g in pairs if g is not False]
    for i, g in pairs:
        if g is True:
            return i
    return T([i for i, _ in pairs], [g for _, g in pairs])


# ------------------------------------------------------------ construction
def asarray(x, dtype=None, copy=False):
    d = None if dtype is None else np.dtype(dtype)
    if isinstance(x, MaskSel):
        x = x.force()
    if isinstance(x, SymArray) and type(x) is not np.ndarray:
        r = x
        if d is not None and d != x.dt:
            return x.astype(d)
        return r.copy() if copy else r
    if isinstance(x, np.ndarray):
        return from_real(x if d is None else x.astype(d))
    if isinstance(x, SymScalar):
        dt = x.dt
        if dt is None:
            dt = np.asarray(pykind(x.v)(1)).dtype
        r = SymArray(obj(cast(x.v, dt)), dt)
        return r if d is None else r.astype(d)
    if hasattr(x, "_sym_array"):
        r = x._sym_array()
        return r if d is None else r.astype(d)
    if isinstance(x, (list, tuple)):
        if not _deep_sym(x):
            x2 = _unwrap(x)
            a = np.array(x2, dtype=d)
            if a.dtype == object:
                raise EngineLimit("object array")
            if a.dtype.kind in "US":
                return a
            return from_real(a)
        parts = [asarray(y) if not isinstance(y, (bool, int, float)) else y
                 for y in x]
        shapes = {p.o.shape if isinstance(p, SymArray) else () for p in parts}
        if len(shapes) != 1:
            raise ValueError("setting an array element with a sequence. The "
                             "requested array has an inhomogeneous shape")
        rd = d
        if rd is None:
            ds = [np.ones((), p.dt) if isinstance(p, SymArray) else p
                  for p in parts]
            weak = all(isinstance(y, (bool, int, float)) or
                       isinstance(y, SymScalar) and y.dt is None for y in x)
            rd = np.array([z[()] if isinstance(z, np.ndarray) else z
                           for z in ds]).dtype
        o = np.empty((len(parts),) + shapes.pop(), dtype=object)
        for k, p in enumerate(parts):
            if isinstance(p, SymArray):
                q = p.astype(rd) if p.dt != rd else p
                if q.o.ndim == 0:
                    o[k] = q.o[()]
                else:
                    o[k] = q.o
            else:
                o[k] = cast(p, rd)
        return SymArray(o, rd)
    if isinstance(x, range):
        return from_real(np.array(x, dtype=d))
    if isinstance(x, (bool, int, float, np.generic)):
        return from_real(np.array(x, dtype=d))
    a = np.array(x, dtype=d)
    if a.dtype.kind in "biuf":
        return from_real(a)
    return a


def _deep_sym(x):
    if isinstance(x, (list, tuple)):
        return any(_deep_sym(y) for y in x)
    if isinstance(x, SymArray) and type(x) is not np.ndarray:
        return x.issym()
    return isinstance(x, (SymScalar, MaskSel))


def _unwrap(x):
    if isinstance(x, (list, tuple)):
        return [_unwrap(y) for y in x]
    if isinstance(x, SymArray) and type(x) is not np.ndarray:
        return x.real()
    return x


def np_call(name, args, kw):
    from . import npx
    return getattr(npx.NP, name)(*args, **kw)
