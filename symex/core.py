"""Symbolic values, path exploration and the query log.

Symbolic scalar values (no NumPy dtype attached):
  B  z3 Bool
  I  integer with an interval; either a pseudo-Boolean sum  c + sum w_i*[b_i]
     or a z3 Int term
  T  finite choice of concrete IEEE values: mutually exclusive, exhaustive
     guards; optionally keyed on one integer term (value = table[key])
  R  z3 Real term (IEEE rounding not modelled; every use is counted)
Concrete values are plain Python/NumPy scalars.
"""
import fractions
import math
import time

import numpy as np
import z3

CAP_J = 3000          # largest table over several keys
CAP_T = 1024          # largest finite-choice table before falling back to R
CAP_ITE = 40           # the same for merges of floats without a common key
CAP_KEY = 300         # largest integer range that becomes a keyed table


class EngineLimit(BaseException):
    """the engine cannot continue on this path (not a property failure)"""


class PathEnd(BaseException):
    """stop this path silently (infeasible or assumption failed)"""


class Budget(BaseException):
    """out of time"""


# ------------------------------------------------------------------ booleans
def bnot(a):
    if isinstance(a, (bool, np.bool_)):
        return not a
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def band(*xs):
    out, seen = [], set()
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if not x:
                return False
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    if len(out) == 2 and bnot(out[0]).get_id() == out[1].get_id():
        return False
    return z3.And(*out)


def bor(*xs):
    out, seen = [], set()
    for x in xs:
        if isinstance(x, (bool, np.bool_)):
            if x:
                return True
            continue
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        out.append(x)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    if len(out) == 2 and bnot(out[0]).get_id() == out[1].get_id():
        return True
    return z3.Or(*out)


def bite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return a if c else b
    ca, cb = isinstance(a, (bool, np.bool_)), isinstance(b, (bool, np.bool_))
    if ca and cb:
        if bool(a) == bool(b):
            return bool(a)
        return c if a else bnot(c)
    if ca:
        return bor(c, b) if a else band(bnot(c), b)
    if cb:
        return bor(bnot(c), a) if b else band(c, a)
    if a.get_id() == b.get_id():
        return a
    return z3.If(c, a, b)


def bxor(a, b):
    return bite(a, bnot(b), b)


def beq(a, b):
    return bite(a, b, bnot(b))


def zb(a):
    return z3.BoolVal(bool(a)) if isinstance(a, (bool, np.bool_)) else a


# ------------------------------------------------------------------ values
class Val:
    __slots__ = ()


class B(Val):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


def mkB(e):
    return bool(e) if isinstance(e, (bool, np.bool_)) else B(e)


class I(Val):
    __slots__ = ("pb", "_e", "lo", "hi")

    def __init__(self, e=None, lo=None, hi=None, pb=None):
        self.pb, self._e, self.lo, self.hi = pb, e, lo, hi
        if pb is not None:
            c, terms = pb
            plo = c + sum(w for w, _ in terms if w < 0)
            phi = c + sum(w for w, _ in terms if w > 0)
            self.lo = plo if lo is None else max(lo, plo)
            self.hi = phi if hi is None else min(hi, phi)

    @property
    def e(self):
        if self._e is None:
            c, terms = self.pb
            parts = [z3.If(b, z3.IntVal(w), z3.IntVal(0)) for w, b in terms]
            if c or not parts:
                parts.append(z3.IntVal(c))
            self._e = z3.Sum(*parts) if len(parts) > 1 else parts[0]
        return self._e


def mkpb(c, terms, lo=None, hi=None):
    acc, order = {}, []
    for w, b in terms:
        if isinstance(b, (bool, np.bool_)):
            if b:
                c += w
            continue
        if z3.is_not(b):
            b = b.arg(0)
            c += w
            w = -w
        k = b.get_id()
        if k in acc:
            acc[k][0] += w
        else:
            acc[k] = [w, b]
            order.append(k)
    ts = tuple((acc[k][0], acc[k][1]) for k in order if acc[k][0] != 0)
    if not ts:
        return c
    return I(pb=(c, ts), lo=lo, hi=hi)


def mkI(e, lo, hi):
    if lo is not None and lo == hi:
        return int(lo)
    return I(e=e, lo=lo, hi=hi)


def kid(k):
    """identity of a key (an I): two keys with the same id always agree"""
    if k.pb is not None and len(k.pb[1]) == 1:
        c, ((w, b),) = k.pb
        return ("b", b.get_id(), c, w)
    return ("e", k.e.get_id())


class T(Val):
    """finite choice.  Either vals[i] holds iff guards[i], or a table over the
    joint values of some integer keys (dims, row-major)"""
    __slots__ = ("vals", "_g", "dims")

    def __init__(self, vals, guards=None, key=None, keys=None, dims=None):
        self.vals, self._g = vals, guards
        self.dims = dims if key is None else ((key, tuple(keys)),)

    @property
    def key(self):
        return self.dims[0][0] if self.dims and len(self.dims) == 1 else None

    @property
    def keys(self):
        return self.dims[0][1]

    @property
    def guards(self):
        if self._g is None:
            gs = [True]
            for k, ks in self.dims:
                e = k.e
                one = [e == z3.IntVal(v) for v in ks]
                gs = [band(g, h) for g in gs for h in one]
            self._g = gs
        return self._g

    def select(self, pred):
        """formula for: pred(value) holds"""
        hit = [bool(pred(v)) for v in self.vals]
        if all(hit):
            return True
        if not any(hit):
            return False
        if self.dims is not None:
            f = _sel(tuple(hit), self.dims)
            if not is_bool(f):
                KEYED[f.get_id()] = (f, T(hit, dims=self.dims))
            return f
        if sum(hit) * 2 > len(hit):
            return bnot(bor(*[g for g, h in zip(self.guards, hit) if not h]))
        return bor(*[g for g, h in zip(self.guards, hit) if h])

    def compact(self):
        """at most one entry per value"""
        if self.dims is None or len(self.dims) == 1:
            return self
        acc = {}
        for v in self.vals:
            acc.setdefault(_vkey(v), v)
        if len(acc) == 1:
            return next(iter(acc.values()))
        vks = [_vkey(v) for v in self.vals]
        gs = [_sel(tuple(x == k for x in vks), self.dims) for k in acc]
        return T(list(acc.values()), gs)


KEYED = {}           # formula id -> (formula, boolean table | (I, op, const))


def keyed(f):
    """boolean table of a formula over integer keys, or None"""
    if is_bool(f):
        return None
    neg = False
    if f.get_id() not in KEYED and z3.is_not(f):
        f, neg = f.arg(0), True
    r = KEYED.get(f.get_id())
    if r is None:
        return None
    r = r[1]
    if isinstance(r, tuple):
        v, op, c = r
        t = enum_int(v)
        if t is None:
            return None
        r = tmap(t, lambda x: bool(PYCMP[op](x, c)))
        if not isinstance(r, T):
            return None
        KEYED[f.get_id()] = (f, r)
    return T([not x for x in r.vals], dims=r.dims) if neg else r


def _sel(hit, dims):
    if all(hit):
        return True
    if not any(hit):
        return False
    (key, keys), rest = dims[0], dims[1:]
    n = len(hit) // len(keys)
    groups = {}
    for i, k in enumerate(keys):
        groups.setdefault(hit[i * n:(i + 1) * n], []).append(k)
    if len(groups) == 1:
        return _sel(hit[:n], rest)
    return bor(*[band(in_set(key, ks, keys), _sel(h, rest) if rest else h[0])
                 for h, ks in groups.items() if any(h)])


def _vkey(v):
    return (type(v).__name__, v if v == v else "nan",
            math.copysign(1, v) if isinstance(v, (float, np.floating)) else 0)


HOLE = object()


def fix(f, *args):
    """f with every argument but the hole given; keeps the column version"""
    def g(x):
        return f(*[x if a is HOLE else a for a in args])
    m = getattr(f, "many", None)
    if m is not None:
        g.many = lambda col: m(*[col if a is HOLE else [a] for a in args])
    return g


def mapcols(f, *cols):
    """f over columns of values; f.many does it at once"""
    m = getattr(f, "many", None)
    if m is not None and len(cols[0]) >= 6:
        r = m(*cols)
        if r is not None:
            return r
    return [f(*xs) for xs in zip(*cols)]


def joint(f, *args):
    """table of f over concrete values and keyed tables, or None when too big"""
    dims, pos = [], {}
    for a in args:
        if isinstance(a, T):
            if a.dims is None:
                return None
            for d in a.dims:
                i = kid(d[0])
                if i not in pos:
                    pos[i] = len(dims)
                    dims.append(d)
                elif dims[pos[i]][1] != d[1]:
                    return None
    size = 1
    for _, ks in dims:
        size *= len(ks)
    if size > CAP_J:
        return None
    stride, s = [0] * len(dims), 1
    for i in range(len(dims) - 1, -1, -1):
        stride[i] = s
        s *= len(dims[i][1])
    cols = []
    for a in args:
        if not isinstance(a, T):
            cols.append([a] * size)
            continue
        idx = [0]
        own = {pos[kid(k)] for k, _ in a.dims}
        st, s = {}, 1
        for k, ks in reversed(a.dims):
            st[pos[kid(k)]] = s
            s *= len(ks)
        for i, (_, ks) in enumerate(dims):
            w = st[i] if i in own else 0
            idx = [x + w * j for x in idx for j in range(len(ks))]
        v = a.vals
        cols.append([v[x] for x in idx])
    vals = mapcols(f, *cols)
    if all(_same(vals[0], x) for x in vals[1:]):
        return vals[0]
    return T(vals, dims=tuple(dims))


class R(Val):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e


def in_set(key, ks, universe):
    """key (an I) in ks, given key in universe (sorted): as few ranges as possible"""
    s = set(ks)
    if len(s) * 2 > len(universe) + 1:
        return bnot(in_set(key, [u for u in universe if u not in s], universe))
    if not s:
        return False
    ranges, i, n = [], 0, len(universe)
    while i < n:
        if universe[i] in s:
            j = i
            while j + 1 < n and universe[j + 1] in s:
                j += 1
            ranges.append((i, j))
            i = j + 1
        else:
            i += 1
    if key.pb is not None and len(key.pb[1]) == 1:
        # one boolean: two values
        c, ((w, b),) = key.pb
        return bite(b, (c + w) in s, c in s)
    e = key.e
    out = []
    for i, j in ranges:
        lo, hi = universe[i], universe[j]
        if lo == hi:
            out.append(e == lo)
        else:
            cs = []
            if i > 0:
                cs.append(e >= lo)
            if j < n - 1:
                cs.append(e <= hi)
            out.append(band(*cs))
    return bor(*out)


def mkT(pairs):
    """merge equal values; collapse to a concrete value when only one is left"""
    acc, order = {}, []
    for v, g in pairs:
        if g is False:
            continue
        if g is True:
            return v
        k = _vkey(v)
        if k in acc:
            acc[k][1].append(g)
        else:
            acc[k] = (v, [g])
            order.append(k)
    if not order:
        raise EngineLimit("empty finite choice")
    if len(order) == 1:
        return acc[order[0]][0]
    return T([acc[k][0] for k in order], [bor(*acc[k][1]) for k in order])


def is_sym(v):
    return isinstance(v, Val)


# ------------------------------------------------------------ conversions
def is_float(v):
    return isinstance(v, (float, np.floating))


def is_int(v):
    return isinstance(v, (int, np.integer)) and not isinstance(v, (bool, np.bool_))


def is_bool(v):
    return isinstance(v, (bool, np.bool_))


def to_int(v):
    """B/int-like T -> I (or concrete int)"""
    if isinstance(v, B):
        return I(pb=(0, ((1, v.e),))) if not z3.is_not(v.e) else mkpb(0, ((1, v.e),))
    if isinstance(v, I):
        return v
    if isinstance(v, T):
        if v.key is not None and list(v.vals) == list(v.keys):
            return v.key
        v = v.compact()
        if not isinstance(v, T):
            return int(v)
        ints = [int(x) for x in v.vals]
        base = ints[0]
        # guards are exclusive and exhaustive
        return mkpb(base, [(x - base, g) for x, g in zip(ints[1:], v.guards[1:])])
    if isinstance(v, R):
        raise EngineLimit("real used as integer")
    return int(v)


def int_range(v):
    if isinstance(v, I):
        return v.lo, v.hi
    if isinstance(v, B):
        return 0, 1
    if isinstance(v, T):
        xs = [int(x) for x in v.vals]
        return min(xs), max(xs)
    return int(v), int(v)


def to_bool(v):
    """truth value as formula or Python bool"""
    if isinstance(v, B):
        return v.e
    if isinstance(v, I):
        return cmp_ic(v, "ne", 0)
    if isinstance(v, T):
        return v.select(lambda x: bool(x))
    if isinstance(v, R):
        return v.e != 0
    return bool(v)


def cmp_ic(v, op, c):
    """I versus integer constant"""
    lo, hi = v.lo, v.hi
    if lo is not None and hi is not None:
        f = PYCMP[op]
        if op in ("lt", "le", "gt", "ge"):
            if f(lo, c) and f(hi, c):
                return True
            if not f(lo, c) and not f(hi, c):
                return False
        elif c < lo or c > hi:
            return op == "ne"
    if v.pb is not None:
        k, terms = v.pb
        c2 = c - k
        if len(terms) == 1:
            w, b = terms[0]
            return bite(b, PYCMP[op](w, c2), PYCMP[op](0, c2))
        if all(w > 0 for w, _ in terms):
            any_ = lambda: bor(*[b for _, b in terms])
            if c2 == 0:
                if op in ("eq", "le"):
                    return bnot(any_())
                if op in ("ne", "gt"):
                    return any_()
            m = min(w for w, _ in terms)
            if op == "ge" and 0 < c2 <= m:
                return any_()
            if op == "lt" and 0 < c2 <= m:
                return bnot(any_())
    e = v.e
    f = _cmpz(e, op, z3.IntVal(c))
    if lo is not None and hi is not None and hi - lo < CAP_KEY:
        KEYED.setdefault(f.get_id(), (f, (v, op, c)))
    return f


def _cmpz(e, op, c):
    return {"lt": lambda: e < c, "le": lambda: e <= c, "gt": lambda: e > c,
            "ge": lambda: e >= c, "eq": lambda: e == c,
            "ne": lambda: z3.Not(e == c)}[op]()


PYCMP = {
    "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
    "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
    "eq": lambda a, b: a == b, "ne": lambda a, b: a != b,
}
FLIP = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq", "ne": "ne"}


def enum_int(v, cap=CAP_KEY):
    """I -> keyed T over its range, or None"""
    if isinstance(v, B):
        v = to_int(v)
    if not isinstance(v, I) or v.lo is None or v.hi is None:
        return None
    if v.hi - v.lo + 1 > cap:
        return None
    if v.pb is not None and len(v.pb[1]) == 1:
        c, ((w, b),) = v.pb
        t = keyed(b)
        if t is not None:
            return tmap(t, lambda x: c + w if x else c)
        return T([c, c + w], key=I(pb=(0, ((1, b),))), keys=[0, 1])
    ks = list(range(v.lo, v.hi + 1))
    return T(list(ks), key=v, keys=ks)


def frac(v):
    if isinstance(v, (float, np.floating)):
        v = float(v)
        if v != v or v in (math.inf, -math.inf):
            raise EngineLimit("non-finite value in real arithmetic")
        f = fractions.Fraction(v)
        # decimal literals mean the decimal value in real arithmetic
        g = f.limit_denominator(10 ** 4)
        if abs(f - g) <= 5e-16 * max(1, abs(v)):
            return g
        g = f.limit_denominator(10 ** 9)
        if float(g) == v:
            f = g
        return f
    return fractions.Fraction(int(v))


def rval(v):
    f = frac(v)
    return z3.RealVal(f)


def to_real(v):
    """-> z3 Real term"""
    if isinstance(v, R):
        return v.e
    if isinstance(v, B):
        return z3.If(v.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(v, I):
        if v.pb is not None:
            c, terms = v.pb
            parts = [z3.If(b, z3.RealVal(w), z3.RealVal(0)) for w, b in terms]
            if c:
                parts.append(z3.RealVal(c))
            return z3.Sum(*parts) if len(parts) > 1 else parts[0]
        return z3.ToReal(v.e)
    if isinstance(v, T):
        v = v.compact()
        if not isinstance(v, T):
            return rval(v)
        if any(x != x or abs(x) == math.inf for x in v.vals):
            fin = lambda x: x == x and abs(x) != math.inf
            if not Engine.cur.decide(v.select(fin)):
                raise EngineLimit("non-finite value in real arithmetic")
            i0 = next(x for x in v.vals if fin(x))
            if v.dims is not None:
                v = T([x if fin(x) else i0 for x in v.vals], dims=v.dims)
            else:
                v = T(*zip(*[(x, g) for x, g in zip(v.vals, v.guards) if fin(x)]))
        if v.key is not None and len(v.keys) > 2:
            # affine in the key?
            ks, vs = v.keys, v.vals
            if all(x == x and abs(x) != math.inf for x in map(float, vs)):
                a = frac(vs[-1]) - frac(vs[0])
                a = a / (ks[-1] - ks[0])
                b = frac(vs[0]) - a * ks[0]
                if all(abs(float(a * k + b) - float(x)) <= 1e-9 * max(1, abs(float(x)))
                       for k, x in zip(ks, vs)):
                    a = a.limit_denominator(10 ** 9)
                    b = b.limit_denominator(10 ** 9)
                    return z3.RealVal(a) * z3.ToReal(v.key.e) + z3.RealVal(b)
        out = rval(v.vals[-1])
        for x, g in zip(reversed(v.vals[:-1]), reversed(v.guards[:-1])):
            out = z3.If(g, rval(x), out)
        return out
    return rval(v)


def to_T(v):
    if isinstance(v, T):
        return v
    if isinstance(v, B):
        t = keyed(v.e)
        if t is not None:
            return t
        e, n = (v.e.arg(0), 1) if z3.is_not(v.e) else (v.e, 0)
        return T([bool(n), not n], key=I(pb=(0, ((1, e),))), keys=[0, 1])
    if isinstance(v, I):
        return enum_int(v)
    return None


def tmap(t, f):
    """apply an exact concrete function to a finite choice"""
    vals = mapcols(f, t.vals)
    if t.dims is not None:
        if all(_same(vals[0], x) for x in vals[1:]):
            return vals[0]
        return T(vals, dims=t.dims)
    return mkT(zip(vals, t.guards))


def _same(a, b):
    return type(a) is type(b) and (a == b or (a != a and b != b))


def tmap2(a, b, f):
    """product of finite choices (either may be concrete)"""
    sa, sb = isinstance(a, T), isinstance(b, T)
    if sa and not sb:
        return tmap(a, fix(f, HOLE, b))
    if sb and not sa:
        return tmap(b, fix(f, a, HOLE))
    if not sa and not sb:
        return f(a, b)
    if a is b:
        if a.dims is not None:
            return joint(f, a, b)
        return mkT(zip([f(x, x) for x in a.vals], a.guards))
    if a.dims is not None and b.dims is not None:
        r = joint(f, a, b)
        if r is not None:
            return r
        a, b = a.compact(), b.compact()
        if not isinstance(a, T) or not isinstance(b, T):
            return tmap2(a, b, f) if isinstance(a, T) or isinstance(b, T) else f(a, b)
    if len(a.vals) * len(b.vals) > CAP_T:
        return None
    return mkT([(f(x, y), band(g, h)) for x, g in zip(a.vals, a.guards)
                for y, h in zip(b.vals, b.guards)])


def ite(c, a, b):
    """merge two values under a formula"""
    if is_bool(c):
        return a if c else b
    if a is b:
        return a
    if not is_sym(a) and not is_sym(b):
        if _same(a, b):
            return a
        if is_bool(a) and is_bool(b):
            return mkB(bite(c, bool(a), bool(b)))
        if is_int(a) and is_int(b):
            return mkpb(int(b), [(int(a) - int(b), c)])
        if isinstance(a, (int, float, np.number, np.bool_)) and isinstance(
                b, (int, float, np.number, np.bool_)):
            return mkT([(a, c), (b, bnot(c))])
        raise EngineLimit(f"merge of {type(a)} and {type(b)}")
    ka, kb = kind(a), kind(b)
    if ka == "b" and kb == "b":
        return mkB(bite(c, to_bool(a), to_bool(b)))
    if ka in "bi" and kb in "bi":
        a, b = to_int(a), to_int(b)
        la, ha = int_range(a)
        lb, hb = int_range(b)
        lo = None if la is None or lb is None else min(la, lb)
        hi = None if ha is None or hb is None else max(ha, hb)
        # pseudo-Boolean stays pseudo-Boolean when small
        pa = a.pb if isinstance(a, I) else (a, ())
        p2 = b.pb if isinstance(b, I) else (b, ())
        if pa is not None and p2 is not None and len(pa[1]) + len(p2[1]) <= 12:
            nc = bnot(c)
            return mkpb(0, [(pa[0], c), (p2[0], nc)]
                        + [(w, band(c, g)) for w, g in pa[1]]
                        + [(w, band(nc, g)) for w, g in p2[1]], lo, hi) \
                if pa[1] or p2[1] else mkpb(p2[0], [(pa[0] - p2[0], c)])
        ea = a.e if isinstance(a, I) else z3.IntVal(a)
        eb = b.e if isinstance(b, I) else z3.IntVal(b)
        return mkI(z3.If(c, ea, eb), lo, hi)
    if not isinstance(a, R) and not isinstance(b, R):
        ta = to_T(a) if is_sym(a) else None
        tb = to_T(b) if is_sym(b) else None
        if not ((is_sym(a) and ta is None) or (is_sym(b) and tb is None)):
            tc = keyed(c)
            if tc is None:
                tc = to_T(B(c))
            r = joint(lambda z, x, y: x if z else y, tc,
                      a if ta is None else ta, b if tb is None else tb)
            if r is not None:
                return r
            if ta is not None:
                ta = ta.compact()
                if not isinstance(ta, T):
                    a, ta = ta, None
            if tb is not None:
                tb = tb.compact()
                if not isinstance(tb, T):
                    b, tb = tb, None
            nc = bnot(c)
            pa = [(a, c)] if ta is None else [
                (x, band(c, g)) for x, g in zip(ta.vals, ta.guards)]
            pb = [(b, nc)] if tb is None else [
                (x, band(nc, g)) for x, g in zip(tb.vals, tb.guards)]
            if len(pa) + len(pb) <= (CAP_ITE if "f" in (ka, kb) else CAP_T):
                return mkT(pa + pb)
    return R(Engine.cur.ite_term(c, to_real(a), to_real(b)))


def kind(v):
    if isinstance(v, B) or is_bool(v):
        return "b"
    if isinstance(v, I) or is_int(v):
        return "i"
    if isinstance(v, R) or is_float(v):
        return "f"
    if isinstance(v, T):
        k = {kind(x) for x in v.vals}
        return "f" if "f" in k else ("i" if "i" in k else "b")
    raise EngineLimit(f"value of type {type(v)}")


# ------------------------------------------------------------ engine
class Violation(Exception):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.paths = 0
        self.decisions = 0
        self.forks = 0
        self.asserts = 0
        self.concretised = 0
        self.real_ops = 0
        self.limits = {}
        self.notes = {}
        self.assert_sites = {}

    def add(self, o):
        for k in ("queries", "solver_s", "unknown", "paths", "decisions", "forks",
                  "asserts", "concretised", "real_ops"):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.limits.items():
            self.limits[k] = self.limits.get(k, 0) + v
        for k, v in o.notes.items():
            self.notes[k] = self.notes.get(k, 0) + v
        for k, v in o.assert_sites.items():
            self.assert_sites[k] = self.assert_sites.get(k, 0) + v


class Engine:
    cur = None

    def __init__(self, timeout_ms=20000, deadline=None):
        self.stats = Stats()
        self.deadline = deadline
        self.timeout_ms = timeout_ms
        self.divs = {}
        self.tangent = {}
        self.reset([])

    def reset(self, prefix):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        KEYED.clear()
        self.prefix = prefix
        self.trace = []
        self.known = {}
        self.pending = []
        self.path = []
        self.approx = False
        self.fresh_n = 0
        self.defs = []
        self.divs, self.maxs = {}, {}
        self.tangent = {}
        self.tokens = []

    def fresh(self, name):
        self.fresh_n += 1
        return f"{name}!{self.fresh_n}"

    def add(self, c):
        if is_bool(c):
            if not c:
                raise PathEnd()
            return
        self.path.append(c)
        self.solver.add(c)

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Budget()

    def check(self, *assumptions):
        self.tick()
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def decide(self, cond):
        """fork on a formula; returns the branch taken on this path"""
        if is_bool(cond):
            return bool(cond)
        k = self.known.get(cond.get_id())
        if k is not None:
            return k[1]
        v = self._decide(cond)
        self.known[cond.get_id()] = (cond, v)
        n = bnot(cond)
        if not is_bool(n):
            self.known[n.get_id()] = (n, not v)
        return v

    def _decide(self, cond):
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            if v is not None:
                self.trace.append(v)
                self.add(cond if v else bnot(cond))
                return v
        self.stats.decisions += 1
        rt = self.check(cond)
        if rt == z3.unsat:
            self.trace.append(False)
            self.add(bnot(cond))
            return False
        rf = self.check(bnot(cond))
        if rf == z3.unsat:
            self.trace.append(True)
            self.add(cond)
            return True
        self.stats.forks += 1
        self.pending.append(self.trace + [False])
        self.trace.append(True)
        self.add(cond)
        return True

    def token(self, s, spec):
        """placeholder text for a symbolic number; resolved when needed"""
        n = len(self.tokens)
        self.tokens.append((s, spec))
        return f"\u27e6{n}\u27e7"

    def note(self, msg):
        self.stats.notes[msg] = self.stats.notes.get(msg, 0) + 1

    def choose(self, n, name="choice"):
        """nondeterministic choice of 0..n-1 (a symbolic variable, then forked)"""
        if n <= 1:
            return 0
        e = z3.Int(self.fresh(name))
        self.add(z3.And(e >= 0, e < n))
        for k in range(n - 1):
            if self.decide(e == k):
                return k
        return n - 1

    def concretize_val(self, v):
        """fork over the possible values of v; returns a concrete value"""
        if not is_sym(v):
            return v
        self.stats.concretised += 1
        if isinstance(v, B):
            return self.decide(v.e)
        if isinstance(v, T):
            v = v.compact()
            if not isinstance(v, T):
                return v
            n = len(v.vals)
            if v.key is not None:
                k = self.concretize_val(v.key)
                return v.vals[v.keys.index(k)]
            for i in range(n - 1):
                if self.decide(v.guards[i]):
                    return v.vals[i]
            return v.vals[n - 1]
        e = v.e
        if isinstance(v, I) and v.lo is not None and v.hi is not None \
                and v.hi - v.lo <= 64:
            for k in range(v.lo, v.hi):
                if self.decide(cmp_ic(v, "eq", k)):
                    return k
            return v.hi
        if isinstance(v, R):
            self.approx = True
        for _ in range(500):
            # the tried value is part of the trace: re-runs must try the same one
            i = len(self.trace)
            if i < len(self.prefix):
                k, taken = self.prefix[i]
            else:
                if self.check() != z3.sat:
                    raise EngineLimit("no model while concretising")
                m = self.solver.model().eval(e, model_completion=True)
                if isinstance(v, I):
                    k = m.as_long()
                elif z3.is_rational_value(m):
                    k = fractions.Fraction(m.numerator_as_long(),
                                           m.denominator_as_long())
                else:
                    raise EngineLimit("irrational model value")
                taken = True
                kv = z3.IntVal(k) if isinstance(v, I) else z3.RealVal(k)
                if self.check(e != kv) != z3.unsat:
                    self.stats.forks += 1
                    self.pending.append(self.trace + [(k, False)])
            kv = z3.IntVal(k) if isinstance(v, I) else z3.RealVal(k)
            self.trace.append((k, taken))
            self.add(e == kv if taken else e != kv)
            if taken:
                return k if isinstance(v, I) else float(k)
        raise EngineLimit("too many values while concretising")

    def div_term(self, a, b):
        """real division, hash-consed on polynomial normal forms"""
        a = z3.simplify(a, som=True, sort_sums=True)
        b = z3.simplify(b, som=True, sort_sums=True)
        if z3.is_rational_value(b):
            return z3.simplify(a / b)
        key = (a.get_id(), b.get_id())
        if key not in self.divs:
            q = z3.Real(f"q!{len(self.divs)}")
            self.divs[key] = (q, a, b)
            self.defs.append(q * b == a)
        return self.divs[key][0]

    def arctan(self, x):
        """a new angle with the tangent x"""
        x = z3.simplify(x, som=True, sort_sums=True)
        for a, t in self.tangent.values():
            if t.get_id() == x.get_id() and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                return R(a)
        a = z3.Real(f"atan!{len(self.tangent)}")
        self.tangent[a.get_id()] = (a, x)
        h = rval(math.pi / 2)
        self.defs.append(z3.And(a < h, a > -h, (a > 0) == (x > 0), (a < 0) == (x < 0)))
        return R(a)

    def ite_term(self, c, a, b):
        """If(c, a, b); a maximum or minimum gets a name and its bounds"""
        k = c
        neg = z3.is_not(k)
        if neg:
            k = k.arg(0)
        if not (z3.is_le(k) or z3.is_ge(k) or z3.is_lt(k) or z3.is_gt(k)):
            return z3.If(c, a, b)
        x = z3.simplify(k.arg(0) - k.arg(1), som=True, sort_sums=True)
        d = z3.simplify(a - b, som=True, sort_sums=True)
        if not z3.is_rational_value(z3.simplify(x - d, som=True, sort_sums=True)):
            if not z3.is_rational_value(z3.simplify(
                    x + d, som=True, sort_sums=True)):
                return z3.If(c, a, b)
            s = z3.simplify(x + d, som=True, sort_sums=True)
            flip = True
        else:
            s = z3.simplify(x - d, som=True, sort_sums=True)
            flip = False
        if s.as_fraction() != 0:
            return z3.If(c, a, b)
        up = (z3.is_ge(k) or z3.is_gt(k)) ^ neg ^ flip
        a1 = z3.simplify(a, som=True, sort_sums=True)
        b1 = z3.simplify(b, som=True, sort_sums=True)
        key = (up,) + tuple(sorted((a1.get_id(), b1.get_id())))
        if key not in self.maxs:
            v = z3.Real(f"m!{len(self.maxs)}")
            self.maxs[key] = (v, a1, b1)
            self.add(z3.And(v >= a1, v >= b1) if up else z3.And(v <= a1, v <= b1))
            self.add(z3.Or(v == a1, v == b1))
        return self.maxs[key][0]

    def explore(self, fn, on_path=None, max_paths=100000):
        """run fn() on every feasible path"""
        work = [[]]
        complete = True
        Engine.cur = self
        while work:
            if self.stats.paths >= max_paths:
                complete = False
                break
            self.reset(work.pop())
            try:
                self.tick()
                fn()
                self.stats.paths += 1
                if on_path:
                    on_path(self)
            except PathEnd:
                pass
            except Budget:
                complete = False
                break
            except EngineLimit as ex:
                self.stats.paths += 1
                k = str(ex)
                self.stats.limits[k] = self.stats.limits.get(k, 0) + 1
                complete = False
            work.extend(self.pending)
        return complete, len(work)


def eng():
    return Engine.cur
