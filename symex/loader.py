"""Load pyEdgeEval's Python source from /repo for symbolic execution.

Each module is parsed from the current working tree, lightly rewritten (every
call goes through a hook that knows symbolic arguments; `%` formatting and
simple conditional assignments are made mergeable) and executed in a private
namespace whose imports are the stand-ins of stubs.py/npx.py.
"""
import ast
import builtins
import functools
import math
import operator
import os
import re
import types

import numpy as np
import z3

from . import core, npx
from .arr import (BOOL, F64, MaskSel, Ops, SymArray, SymScalar, apply, apply_table,
                  asarray, concrete, from_real, has_sym, operand, py_bool, py_float,
                  py_int, pykind, wrap_scalar, cmp)
from .core import (B, I, T, R, EngineLimit, band, bor, bnot, eng, is_sym, ite, mkB,
                   mkT, to_bool, to_int, to_T)
from .npx import NP, deep_issym, unreal

REPO = os.environ.get("SYMEX_REPO", "/repo")
PKG = "pyEdgeEval"

# ------------------------------------------------------------ rewriting
NOHOOK = {"super", "locals", "globals", "vars", "dir", "eval", "exec", "__import__"}


class Rewrite(ast.NodeTransformer):
    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in NOHOOK:
            return node
        return ast.copy_location(ast.Call(
            func=ast.Name("__symcall__", ast.Load()),
            args=[node.func] + node.args, keywords=node.keywords), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.copy_location(ast.Call(
                func=ast.Name("__symmod__", ast.Load()),
                args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(func=ast.Name("__symin__", ast.Load()),
                         args=[node.left, node.comparators[0]], keywords=[])
            if isinstance(node.ops[0], ast.NotIn):
                c = ast.UnaryOp(ast.Not(), c)
            return ast.copy_location(c, node)
        return node

    def visit_IfExp(self, node):
        simple = _simple(node.body) and _simple(node.orelse)
        self.generic_visit(node)
        if not simple:
            return node
        return ast.copy_location(ast.Call(
            func=ast.Name("__symifexp__", ast.Load()),
            args=[node.test, node.body, node.orelse], keywords=[]), node)

    def visit_If(self, node):
        mergeable = self._mergeable(node)
        self.generic_visit(node)
        if not mergeable:
            return node
        # c = test
        # if __symmerge__(c): a = __symite__(c, new, a) ...   else: original
        n = f"__c{node.lineno}_{node.col_offset}"
        store = ast.Assign([ast.Name(n, ast.Store())], node.test)
        names, news = [], []
        for st in node.body:
            tgt, val = st.targets[0], st.value
            if isinstance(tgt, ast.Tuple):
                names += [t.id for t in tgt.elts]
                news += list(val.elts)
            else:
                names.append(tgt.id)
                news.append(val)
        merged = ast.Assign(
            [ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())],
            ast.Call(ast.Name("__symite__", ast.Load()),
                     [ast.Name(n, ast.Load()),
                      ast.Tuple(news, ast.Load()),
                      ast.Tuple([ast.Name(x, ast.Load()) for x in names],
                                ast.Load())], []))
        test = ast.Call(ast.Name("__symmerge__", ast.Load()),
                        [ast.Name(n, ast.Load())]
                        + [ast.Lambda(ast.arguments([], [], None, [], [], None, []),
                                      ast.Name(x, ast.Load())) for x in names]
                        + [ast.Lambda(ast.arguments([], [], None, [], [], None, []),
                                      x) for x in news], [])
        orig = ast.If(ast.Name(n, ast.Load()), node.body, node.orelse)
        out = [store, ast.If(test, [merged], [orig])]
        for x in out:
            ast.copy_location(x, node)
            ast.fix_missing_locations(x)
        return out

    def _mergeable(self, node):
        if node.orelse or not node.body:
            return False
        seen = set()
        for st in node.body:
            if not isinstance(st, ast.Assign) or len(st.targets) != 1:
                return False
            t, v = st.targets[0], st.value
            if isinstance(t, ast.Tuple):
                if not isinstance(v, ast.Tuple) or len(v.elts) != len(t.elts):
                    return False
                pairs = list(zip(t.elts, v.elts))
            else:
                pairs = [(t, v)]
            for tt, vv in pairs:
                if not isinstance(tt, ast.Name) or not _simple(vv):
                    return False
                if seen & {x.id for x in ast.walk(vv) if isinstance(x, ast.Name)}:
                    return False
            for tt, _ in pairs:
                if tt.id in seen:
                    return False
                seen.add(tt.id)
        return True


def _simple(v):
    if isinstance(v, (ast.Name, ast.Constant)):
        return True
    if isinstance(v, ast.Tuple):
        return all(_simple(x) for x in v.elts)
    return False


# ------------------------------------------------------------ hooks
def _mergeval(v):
    return isinstance(v, (SymScalar, bool, int, float, np.generic))


def symmerge(c, *thunks):
    if not (isinstance(c, SymScalar) or isinstance(c, SymArray) and c.size == 1):
        return False
    if not is_sym(operand(c)[0] if isinstance(c, SymScalar) else
                  c.o.reshape(-1)[0]):
        return False
    try:
        vals = [t() for t in thunks]
    except Exception:
        return False
    n = len(vals) // 2

    def ok(a, b):
        if isinstance(a, tuple) and isinstance(b, tuple):
            return len(a) == len(b) and all(ok(x, y) for x, y in zip(a, b))
        if a is b:
            return True
        return _mergeval(a) and _mergeval(b)
    return all(ok(a, b) for a, b in zip(vals[:n], vals[n:]))


def sym_ite(c, a, b):
    f = to_bool(operand(c)[0] if not isinstance(c, SymArray) else c.o.reshape(-1)[0])

    def go(x, y):
        if isinstance(x, tuple):
            return tuple(go(p, q) for p, q in zip(x, y))
        if x is y:
            return x
        xv, xd, _ = operand(x)
        yv, yd, _ = operand(y)
        # keep "float-ness" of exactly integral floats
        d = xd if xd == yd else (xd or yd)
        return wrap_scalar(ite(f, xv, yv), d)
    return go(a, b)


def sym_ifexp(c, a, b):
    if symmerge(c, lambda: a, lambda: b):
        return sym_ite(c, a, b)
    return a if c else b


def sym_in(x, c):
    if isinstance(c, (SymArray, MaskSel)):
        return bool((c == x).any())
    if isinstance(x, SymScalar):
        if isinstance(c, (list, tuple, set, frozenset, range)) or hasattr(c, "keys"):
            items = list(c)
            fs = []
            for y in items:
                if isinstance(y, (SymScalar, bool, int, float, np.generic)):
                    fs.append(cmp("eq", x.v, operand(y)[0]))
                elif isinstance(y, (SymArray,)):
                    return bool(any(bool(x == z) for z in items))
            return eng().decide(bor(*fs) if fs else False)
    return x in c


FMT = re.compile(r"%(?:\((\w+)\))?([-#0 +]*)(\d+|\*)?(?:\.(\d+|\*))?[hlL]?([diouxXeEfFgGcrsa%])")


def sym_mod(a, b):
    if isinstance(a, str) and has_sym(b):
        args = b if isinstance(b, tuple) else (b,)
        it = iter(args)
        out, pos = [], 0
        for m in FMT.finditer(a):
            out.append(a[pos:m.start()])
            pos = m.end()
            if m.group(5) == "%":
                out.append("%")
                continue
            v = b[m.group(1)] if m.group(1) else next(it)
            if isinstance(v, SymScalar):
                if m.group(5) in "fFeEgG":
                    al = "<" if "-" in m.group(2) else ""
                    out.append(format(v, al + (m.group(3) or "") + (
                        "." + m.group(4) if m.group(4) else "") + m.group(5)))
                else:
                    out.append(m.group(0) % (int(concrete(v)) if m.group(5) in "di"
                                             else concrete(v)))
            else:
                out.append(re.sub(r"\(\w+\)", "", m.group(0)) % (v,))
        out.append(a[pos:])
        return "".join(out)
    return a % b


INTT = (int,)


def _pytype(x):
    if isinstance(x, SymScalar):
        return pykind(x.v) if x.dt is None else x.dt.type
    return None


def sym_isinstance(x, t):
    if isinstance(t, tuple):
        return builtins.any(sym_isinstance(x, y) for y in t)
    p = _pytype(x)
    if p is not None:
        try:
            return issubclass(p, t)
        except TypeError:
            return isinstance(p(1), t)
    if type(x) is SymArray and t is np.ndarray:
        return True
    if isinstance(t, Foreign):
        t = t._f
    if isinstance(t, ForeignFn):
        t = t.f
    return isinstance(x, t)


def sym_type(*a):
    if len(a) != 1:
        return type(*a)
    p = _pytype(a[0])
    return p if p is not None else type(a[0])


def _ext(name):
    f = getattr(builtins, name)
    op = "lt" if name == "min" else "gt"

    def g(*a, **k):
        key = k.pop("key", None)
        items = list(a[0]) if len(a) == 1 else list(a)
        if not items or "default" in k and not items:
            return f(items, **k)
        keys = [key(x) if key else x for x in items]
        if not has_sym(keys):
            return f(items, key=key, **k) if key else f(items, **k)
        best, bk = items[0], keys[0]
        for x, kx in zip(items[1:], keys[1:]):
            c = kx < bk if name == "min" else kx > bk
            if isinstance(c, SymScalar) and symmerge(
                    c, lambda: x, lambda: kx, lambda: best, lambda: bk):
                best, bk = sym_ite(c, (x, kx), (best, bk))
            elif c:
                best, bk = x, kx
        return best
    return g


def sym_any(it):
    fs = []
    for x in it:
        if isinstance(x, SymScalar):
            fs.append(to_bool(x.v))
        elif x:
            return True
    return wrap_scalar(mkB(bor(*fs)), None) if fs else False


def sym_all(it):
    fs = []
    for x in it:
        if isinstance(x, SymScalar):
            fs.append(to_bool(x.v))
        elif not x:
            return False
    return wrap_scalar(mkB(band(*fs)), None) if fs else True


def sym_len(x):
    if isinstance(x, MaskSel):
        return wrap_scalar(operand(x.mask.sum())[0], None)
    if isinstance(x, str) and "\u27e6" in x:
        from .stubs import text_len
        return text_len(x)
    return len(x)


def sym_str(*a):
    if a and isinstance(a[0], SymScalar):
        return str(a[0])
    return str(*a)


def sym_range(*a):
    return range(*[operator.index(concrete(x)) if isinstance(x, (SymScalar, SymArray))
                   else x for x in a])


def sym_sorted(it, key=None, reverse=False):
    items = list(it)
    keys = [key(x) if key else x for x in items]
    if not has_sym(keys):
        return sorted(items, key=key, reverse=reverse)
    out = []
    for i in range(len(items)):
        j = len(out)
        while j > 0 and bool(keys[i] > keys[out[j - 1]] if reverse
                             else keys[i] < keys[out[j - 1]]):
            j -= 1
        out.insert(j, i)
    return [items[i] for i in out]


def sym_sum(it, start=0):
    acc = start
    for x in it:
        acc = acc + x
    return acc


def sym_round(x, n=None):
    if isinstance(x, SymScalar):
        if isinstance(x.v, R):
            if n is None:
                raise EngineLimit("round of a real")
            return SymScalar(npx.real_round(x.v, n), x.dt)
        return apply_table(lambda y: round(y, n) if n is not None else round(y), x)
    return round(x, n) if n is not None else round(x)


def sym_abs(x):
    return abs(x)


def sym_print(*a, **k):
    w = World.cur
    w.printed.append(" ".join(str(x) if not deep_issym(x) else "<sym>" for x in a))


def _math(name):
    f = getattr(math, name)
    uf = {"sqrt": np.sqrt, "floor": None, "ceil": None}.get(name)

    def g(*a):
        if not deep_issym(a):
            return f(*concrete(a))
        if len(a) == 1 and isinstance(a[0], SymScalar):
            x = a[0]
            if to_T(x.v) is not None:
                return apply_table(f, x)
            if name in ("floor", "ceil") and isinstance(x.v, R):
                e = x.v.e
                return SymScalar(I(e=z3.ToInt(e) if name == "floor"
                                   else -z3.ToInt(-e)), None)
            if name in ("isnan", "isinf"):
                return False
            if name == "isfinite":
                return True
            if name == "fabs":
                return abs(x)
        if name == "isclose":
            return abs(a[0] - a[1]) <= 1e-9 * max(1.0, 1.0)
        return f(*concrete(a))
    return g


def sym_divmod(a, b):
    return (a // b, sym_mod(a, b))


SPECIAL = {
    int: py_int, float: py_float, bool: py_bool, str: sym_str,
    isinstance: sym_isinstance, type: sym_type, min: _ext("min"), max: _ext("max"),
    any: sym_any, all: sym_all, len: sym_len, range: sym_range,
    sorted: sym_sorted, sum: sym_sum, round: sym_round, print: sym_print,
    divmod: sym_divmod,
}
for _n in dir(math):
    _f = getattr(math, _n)
    if callable(_f) and not _n.startswith("_"):
        SPECIAL[_f] = _math(_n)
_OPF = {getattr(operator, n) for n in dir(operator) if not n.startswith("_")}
TRANSPARENT = {dict, list, tuple, zip, map, filter, enumerate, reversed, iter, next,
               set, frozenset, id, hash, repr, getattr, setattr, hasattr, callable,
               slice, format, object, property, super, staticmethod, classmethod}
import copy as _copy
TRANSPARENT |= {_copy.copy, _copy.deepcopy, functools.partial, functools.reduce}
TRANSPARENT |= {f for f in _OPF if callable(f)}
import itertools as _it
TRANSPARENT |= {getattr(_it, n) for n in dir(_it) if callable(getattr(_it, n))}
import collections as _co
TRANSPARENT |= {_co.OrderedDict, _co.defaultdict, _co.deque, _co.ChainMap,
                _co.UserDict, _co.UserList, _co.namedtuple, types.SimpleNamespace}
CONTAINERS = (list, dict, set, str, tuple, frozenset, _co.deque, _co.ChainMap,
              _co.UserDict, _co.UserList)


def is_world(f):
    if isinstance(f, types.FunctionType):
        return "__symex__" in f.__globals__ or f.__module__.split(".")[0] in (
            "symex", "checks")
    if isinstance(f, types.MethodType):
        return is_world(f.__func__)
    if isinstance(f, type):
        m = f.__module__.split(".")[0]
        return m in (PKG, "symex", "checks") or issubclass(f, (tuple, BaseException))
    if isinstance(f, functools.partial):
        return True
    t = type(f)
    m = t.__module__.split(".")[0]
    return m in (PKG, "symex", "checks")


def symcall(f, *a, **k):
    try:
        s = SPECIAL.get(f)
    except TypeError:
        s = None
    if s is not None:
        return s(*a, **k)
    if isinstance(f, type) and issubclass(f, np.generic):
        if a and isinstance(a[0], (SymScalar, SymArray, MaskSel)):
            r = asarray(a[0]).astype(f)
            return wrap_scalar(r.o[()], r.dt) if r.o.ndim == 0 else r
        return f(*a, **k)
    if not (has_sym(a, 4) or has_sym(k, 4)):
        return f(*a, **k)
    if is_world(f):
        return f(*a, **k)
    try:
        if f in TRANSPARENT:
            return f(*a, **k)
    except TypeError:
        pass
    if isinstance(f, type) and issubclass(f, CONTAINERS) and not issubclass(f, str):
        return f(*a, **k)
    me = getattr(f, "__self__", None)
    if me is not None and not isinstance(me, types.ModuleType):
        if isinstance(me, CONTAINERS) or isinstance(me, type) and issubclass(
                me, CONTAINERS):
            return f(*a, **k)
        if is_world(type(me)):
            return f(*a, **k)
    return ForeignFn(f)(*a, **k)


# ------------------------------------------------------------ foreign code
class Foreign:
    """a real module whose functions get concrete arguments"""

    def __init__(self, name_or_mod, overrides=None):
        self.__dict__["_n"] = name_or_mod
        self.__dict__["_o"] = overrides or {}
        self.__dict__["_c"] = {}

    @property
    def _f(self):
        m = self._n
        if isinstance(m, str):
            import importlib
            m = importlib.import_module(m)
            self.__dict__["_n"] = m
        return m

    def __getattr__(self, n):
        o = self.__dict__["_o"]
        if n in o:
            return o[n]
        c = self.__dict__["_c"]
        if n in c:
            return c[n]
        if n.startswith("__"):
            raise AttributeError(n)
        r = getattr(self._f, n)
        if isinstance(r, types.ModuleType):
            full = r.__name__
            r = World.cur.importer(full) if World.cur else Foreign(r)
        elif isinstance(r, type):
            if not issubclass(r, (BaseException,)) and r.__module__ not in (
                    "builtins", "typing"):
                pass
        elif callable(r):
            r = ForeignFn(r)
        c[n] = r
        return r


SUMMARY_CAP = 4096
_tables = {}


class ForeignFn:
    def __init__(self, f, pure=None):
        self.f = f
        self.__name__ = getattr(f, "__name__", "f")
        m = getattr(f, "__module__", "") or ""
        self.pure = pure if pure is not None else m.split(".")[0] in (
            "cv2", "scipy", "skimage") or type(f).__module__.startswith("cv2")

    def __call__(self, *a, **k):
        if deep_issym(a) or deep_issym(k):
            if self.pure:
                r = summarise(self.f, a, k)
                if r is not None:
                    return r
            E = eng()
            E.stats.concretised += 1
            E.note("concretised for " + self.__name__)
        elif not (has_sym(a, 5) or has_sym(k, 5)):
            return unreal(self.f(*a, **k))
        a, k = concrete(a), concrete(k)
        return unreal(self.f(*a, **k))

    def __repr__(self):
        return f"<foreign {self.__name__}>"


def _leaves(x, out):
    """collect the symbolic leaves (base Booleans and finite choices)"""
    if isinstance(x, SymScalar):
        return _leaf(x.v, out)
    if isinstance(x, MaskSel):
        return False
    if isinstance(x, SymArray) and type(x) is not np.ndarray:
        return all(_leaf(v, out) for v in x.o.flat)
    if isinstance(x, (list, tuple)):
        return all(_leaves(y, out) for y in x)
    if isinstance(x, dict):
        return all(_leaves(y, out) for y in x.values())
    return True


def _leaf(v, out):
    if not is_sym(v):
        return True
    if isinstance(v, B):
        e = v.e.arg(0) if z3.is_not(v.e) else v.e
        out.setdefault(("b", e.get_id()), (e, [False, True]))
        return True
    if isinstance(v, I) and v.pb is not None and len(v.pb[1]) <= 3:
        for _, g in v.pb[1]:
            out.setdefault(("b", g.get_id()), (g, [False, True]))
        return True
    t = to_T(v)
    if t is None or len(t.vals) > 300:
        return False
    out.setdefault(("t", id(v)), (t, list(t.vals)))
    return True


def _subst(x, env):
    if isinstance(x, SymScalar):
        v = _sv(x.v, env)
        return v if x.dt is None else x.dt.type(v)
    if isinstance(x, SymArray) and type(x) is not np.ndarray:
        o = np.empty(x.o.shape, dtype=object)
        f = o.reshape(-1)
        for i, v in enumerate(x.o.ravel()):
            f[i] = _sv(v, env)
        return f.reshape(o.shape).astype(x.dt)
    if isinstance(x, list):
        return [_subst(y, env) for y in x]
    if isinstance(x, tuple):
        return tuple(_subst(y, env) for y in x)
    if isinstance(x, dict):
        return {k: _subst(y, env) for k, y in x.items()}
    return x


def _sv(v, env):
    if not is_sym(v):
        return v
    if isinstance(v, B):
        if z3.is_not(v.e):
            return not env[("b", v.e.arg(0).get_id())]
        return env[("b", v.e.get_id())]
    if isinstance(v, I) and v.pb is not None and len(v.pb[1]) <= 3:
        return v.pb[0] + sum(w for w, g in v.pb[1] if env[("b", g.get_id())])
    return env[("t", id(v))]


def summarise(f, a, k, cap=None):
    """exact summary of a pure function over its finitely many symbolic inputs"""
    lv = {}
    if not (_leaves(a, lv) and _leaves(k, lv)):
        return None
    r = _summarise_keys(f, a, k, lv)
    if r is not None:
        return r
    n = 1
    for _, dom in lv.values():
        n *= len(dom)
        if n > (cap or SUMMARY_CAP):
            return None
    keys = list(lv)
    doms = [lv[q][1] for q in keys]
    outs = []
    import itertools
    for combo in itertools.product(*doms):
        env = dict(zip(keys, combo))
        try:
            outs.append(f(*_subst(a, env), **_subst(k, env)))
        except Exception:
            return None
    E = eng()
    E.note(f"exact summary of {getattr(f, '__name__', 'f')} over "
           f"{len(keys)} symbolic inputs")
    return _combine([lv[q][0] for q in keys], doms, outs)


def _summarise_keys(f, a, k, lv):
    """the same over the keys that the inputs are tables of"""
    ts = {}
    for q, (t, _) in lv.items():
        if not isinstance(t, T):
            t = core.keyed(t)
        if not isinstance(t, T) or t.dims is None:
            return None
        ts[q] = t
    grid = core.joint(lambda *v: v, *ts.values())
    if not isinstance(grid, T) or len(grid.vals) > 1000:
        return None
    outs = []
    for v in grid.vals:
        env = dict(zip(ts, v))
        try:
            outs.append(f(*_subst(a, env), **_subst(k, env)))
        except Exception:
            return None
    from .arr import norm

    def put(outs):
        o0 = outs[0]
        if isinstance(o0, tuple):
            if any(not isinstance(o, tuple) or len(o) != len(o0) for o in outs):
                return None
            r = [put([o[i] for o in outs]) for i in range(len(o0))]
            return None if any(x is None for x in r) else tuple(r)
        if isinstance(o0, np.ndarray):
            if any(o.shape != o0.shape or o.dtype != o0.dtype for o in outs) \
                    or o0.dtype.kind not in "biuf":
                return None
            st = np.stack(outs).reshape(len(outs), -1)
            res = np.empty(o0.size, dtype=object)
            for i in range(o0.size):
                res[i] = one([norm(x) for x in st[:, i]])
            return SymArray(res.reshape(o0.shape), o0.dtype)
        if isinstance(o0, (bool, int, float, np.generic)):
            if any(type(o) is not type(o0) for o in outs):
                return None
            return wrap_scalar(one([norm(x) for x in outs]),
                               o0.dtype if isinstance(o0, np.generic) else None)
        return None

    def one(vals):
        if all(core._same(vals[0], x) for x in vals[1:]):
            return vals[0]
        return T(vals, dims=grid.dims)
    r = put(outs)
    if r is not None:
        eng().note(f"exact summary of {getattr(f, '__name__', 'f')} over "
                   f"{len(grid.dims)} keys")
    return r


def _combine(leaves, doms, outs):
    o0 = outs[0]
    if isinstance(o0, tuple):
        if any(not isinstance(o, tuple) or len(o) != len(o0) for o in outs):
            return None
        r = [_combine(leaves, doms, [o[i] for o in outs]) for i in range(len(o0))]
        return None if any(x is None for x in r) else tuple(r)
    if isinstance(o0, np.ndarray):
        if any(o.shape != o0.shape or o.dtype != o0.dtype for o in outs):
            return None
        if o0.dtype.kind not in "biuf":
            return None
        st = np.stack(outs).reshape(len(outs), -1)
        res = np.empty(o0.size, dtype=object)
        cache = {}
        from .arr import norm
        for i in range(o0.size):
            res[i] = mux_table(leaves, doms, [norm(x) for x in st[:, i]], cache)
        return SymArray(res.reshape(o0.shape), o0.dtype)
    if isinstance(o0, (bool, int, float, np.generic)):
        if any(type(o) is not type(o0) for o in outs):
            return None
        from .arr import norm
        v = mux_table(leaves, doms, [norm(x) for x in outs], {})
        return wrap_scalar(v, o0.dtype if isinstance(o0, np.generic) else None)
    return None


def mux_table(leaves, doms, vals, cache):
    """value selected by the leaves (first leaf is the most significant digit)"""
    distinct = {}
    for v in vals:
        distinct.setdefault((type(v).__name__, v if v == v else "nan"), v)
    if len(distinct) == 1:
        return vals[0]
    if len(distinct) > core.CAP_T:
        raise EngineLimit("too many values in a summary")

    def guard(bits):
        def go(i, sub):
            if all(sub):
                return True
            if not any(sub):
                return False
            key = (i, sub)
            if key in cache:
                return cache[key]
            m = len(doms[i])
            w = len(sub) // m
            parts = [go(i + 1, sub[j * w:(j + 1) * w]) for j in range(m)]
            leaf = leaves[i]
            if isinstance(leaf, T):
                r = bor(*[band(g, p) for g, p in zip(leaf.guards, parts)])
            else:
                r = core.bite(leaf, parts[1], parts[0])
            cache[key] = r
            return r
        return go(0, bits)
    items = list(distinct.items())
    pairs = []
    ks = [(type(v).__name__, v if v == v else "nan") for v in vals]
    if set(type(v) for v in distinct.values()) == {bool}:
        return mkB(guard(tuple(k[1] for k in ks)))
    for kk, v in items:
        pairs.append((v, guard(tuple(k == kk for k in ks))))
    if all(isinstance(v, int) and not isinstance(v, bool) for v, _ in pairs):
        base = pairs[0][0]
        if len(pairs) <= 4:
            return core.mkpb(base, [(v - base, g) for v, g in pairs[1:]])
    return mkT(pairs)


# ------------------------------------------------------------ modules
_code = {}


def _compile(path):
    st = os.stat(path)
    key = (path, st.st_mtime_ns, st.st_size)
    if key not in _code:
        with open(path) as f:
            src = f.read()
        tree = Rewrite().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        _code[key] = compile(tree, path, "exec")
    return _code[key]


class World:
    """one loaded instance of the package plus its environment"""
    cur = None

    def __init__(self, repo=None):
        from . import stubs
        self.repo = repo or REPO
        self.modules = {}
        self.printed = []
        self.stubs = stubs.make(self)
        self.loaded_files = set()
        self.builtins = dict(vars(builtins))
        self.builtins["__import__"] = self._import
        self.builtins["__symcall__"] = symcall
        self.builtins["__symmod__"] = sym_mod
        self.builtins["__symin__"] = sym_in
        self.builtins["__symifexp__"] = sym_ifexp
        self.builtins["__symmerge__"] = symmerge
        self.builtins["__symite__"] = sym_ite
        self.builtins["open"] = self.stubs["__open__"]
        self.builtins["input"] = None
        World.cur = self

    def importer(self, name):
        """module object for an absolute name"""
        if name in self.modules:
            return self.modules[name]
        if name == PKG or name.startswith(PKG + "."):
            return self.load(name)
        if name in self.stubs:
            m = self.stubs[name]
        else:
            top = name.split(".")[0]
            if top in PASS:
                import importlib
                m = importlib.import_module(name)
            else:
                import importlib.util
                try:
                    if importlib.util.find_spec(name) is None:
                        raise ModuleNotFoundError(f"No module named '{name}'")
                except ModuleNotFoundError:
                    raise
                except (ValueError, AttributeError):
                    pass
                m = Foreign(name)
                m._f
        self.modules[name] = m
        return m

    def load(self, name):
        rel = name.replace(".", "/")
        p1 = os.path.join(self.repo, rel + ".py")
        p2 = os.path.join(self.repo, rel, "__init__.py")
        if name in self.stubs:
            m = self.stubs[name]
            self.modules[name] = m
            return m
        if os.path.exists(p2):
            path, pkg = p2, True
        elif os.path.exists(p1):
            path, pkg = p1, False
        else:
            raise ModuleNotFoundError(f"No module named '{name}'")
        parent = name.rpartition(".")[0]
        if parent:
            self.importer(parent)
            if name in self.modules:
                return self.modules[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins
        m.__dict__["__symex__"] = True
        self.modules[name] = m
        self.loaded_files.add(path)
        try:
            exec(_compile(path), m.__dict__)
        except BaseException:
            self.modules.pop(name, None)
            raise
        if parent and parent in self.modules:
            setattr(self.modules[parent], name.rpartition(".")[2], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals["__package__"]
            for _ in range(level - 1):
                base = base.rpartition(".")[0]
            name = f"{base}.{name}" if name else base
        if not fromlist:
            parts = name.split(".")
            top = self.importer(parts[0])
            cur = parts[0]
            for p in parts[1:]:
                cur += "." + p
                m = self.importer(cur)
            return top
        m = self.importer(name)
        for x in fromlist:
            if x == "*":
                continue
            if not hasattr(m, x):
                try:
                    sub = self.importer(f"{name}.{x}")
                except ImportError:
                    continue
                try:
                    setattr(m, x, sub)
                except Exception:
                    pass
        return m

    def mod(self, name):
        return self.importer(name)

    def script(self, rel):
        """run a file of the repository as a program"""
        path = os.path.join(self.repo, rel)
        self.loaded_files.add(path)
        g = dict(__name__="__main__", __file__=path, __builtins__=self.builtins,
                 __symex__=True, __package__=None)
        exec(_compile(path), g)


PASS = {"typing", "collections", "functools", "itertools", "copy", "abc", "re",
        "string", "math", "enum", "dataclasses", "operator", "contextlib",
        "numbers", "textwrap", "types", "fractions", "decimal",
        "__future__", "inspect", "traceback", "datetime", "ctypes", "heapq", "bisect",
        "statistics", "struct", "hashlib", "random", "queue", "weakref", "base64",
        "typing_extensions", "warnings"}
