"""The `numpy` module seen by the code under test during symbolic execution."""
import builtins
import math
import operator

import numpy as np
import z3

from . import core
from .core import (B, I, T, R, EngineLimit, band, bor, bnot, eng, is_sym, ite, mkB,
                   mkI, mkT, mkpb, to_bool, to_int, to_real, to_T)
from .arr import (BOOL, F64, I64, MaskIndex, MaskSel, SymArray, SymScalar, apply,
                  argmaxmin, asarray, cast, cmp, concrete, from_real, has_sym, obj,
                  operand, quiet, reduce_, wrap_scalar, _full, fold_elems, elem,
                  NeedConcrete, bits_of, from_bits)

_bool, _int, _float, _any, _all, _sum, _max, _min, _abs, _round = (
    bool, int, float, any, all, sum, max, min, abs, round)


def unreal(x):
    """results of real NumPy back into the symbolic world"""
    if isinstance(x, np.ndarray) and type(x) is np.ndarray:
        if x.dtype.kind in "biuf":
            return from_real(x)
        return x
    if type(x) is tuple:
        return tuple(unreal(y) for y in x)
    if type(x) is list:
        return [unreal(y) for y in x]
    return x


def A(x):
    return asarray(x)


def mk(o, dt):
    if o.ndim == 0:
        return wrap_scalar(o[()], dt)
    return SymArray(o, dt)


class UFunc:
    def __init__(self, uf):
        self.uf = uf
        self.__name__ = uf.__name__
        self.nin, self.nout = uf.nin, uf.nout

    def __call__(self, *args, **kw):
        if not has_sym(args, 4) and not has_sym(kw):
            with quiet():
                r = self.uf(*args, **kw)
            return unreal(r)
        if self.uf.nout > 1:
            if self.uf.__name__ == "divmod":
                return (apply(np.floor_divide, *args), apply(np.remainder, *args))
            return unreal(self.uf(*[concrete(a) for a in args], **concrete(kw)))
        where = kw.pop("where", True)
        out = kw.pop("out", None)
        if isinstance(out, tuple):
            out = out[0]
        if where is not True:
            # compute everywhere it is asked for; keep out elsewhere
            w = A(where)
            args2 = np.broadcast_arrays(
                *[A(a).o for a in args], w.o)
            with quiet():
                rd = self.uf(*[np.ones(1, A(a).dt) for a in args]).dtype
            res = out if out is not None else SymArray(
                _full(args2[0].shape, rd.type(0).item()), rd)
            for p in np.ndindex(args2[0].shape):
                c = to_bool(args2[-1][p])
                if c is False:
                    continue
                if eng().decide(c):
                    r = apply(self.uf, *[wrap_scalar(a2[p], A(a).dt) for a2, a in
                                         zip(args2, args)])
                    res.o[p] = cast(operand(r)[0], res.dt)
            return res
        r = apply(self.uf, *args, **kw)
        if out is not None:
            out[...] = r
            return out
        return r

    def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False,
               initial=None, where=None):
        names = {"add": "sum", "multiply": "prod", "maximum": "max",
                 "minimum": "min", "logical_or": "any", "logical_and": "all"}
        n = self.__name__
        a = A(a)
        if n in names:
            kw = {}
            if initial is not None:
                kw["initial"] = initial
            if where is not None:
                kw["where"] = where
            r = reduce_(self.uf, a, axis, dtype, keepdims, names[n], **kw)
        else:
            if axis is None:
                a = a.ravel()
                axis = 0
            o = np.moveaxis(a.o, axis, 0)
            acc = SymArray(o[0], a.dt) if initial is None else initial
            for k in range(1 if initial is None else 0, o.shape[0]):
                acc = apply(self.uf, acc, SymArray(np.asarray(
                    o[k], dtype=object) if not isinstance(o[k], np.ndarray)
                    else o[k], a.dt))
            r = acc
            if isinstance(r, SymArray) and r.ndim == 0:
                r = wrap_scalar(r.o[()], r.dt)
            if keepdims:
                r = NP.expand_dims(r, axis)
        if out is not None:
            out[...] = r
            return out
        return r

    def accumulate(self, a, axis=0, dtype=None):
        a = A(a)
        if not a.issym():
            return unreal(self.uf.accumulate(a.real(), axis=axis, dtype=dtype))
        with quiet():
            rd = self.uf.accumulate(np.ones(1, a.dt), dtype=dtype).dtype
        o = np.moveaxis(a.o, axis, 0)
        out = np.empty(o.shape, dtype=object)
        prev = None
        for k in range(o.shape[0]):
            cur = SymArray(np.array(o[k:k + 1]), a.dt).astype(rd)
            prev = cur if prev is None else apply(self.uf, prev, cur).astype(rd)
            out[k:k + 1] = prev.o
        return SymArray(np.moveaxis(out, 0, axis), rd)

    def outer(self, a, b):
        a, b = A(a), A(b)
        return self(a.reshape(a.shape + (1,) * b.ndim), b)

    def at(self, a, idx, b=None):
        if not has_sym((idx,)):
            ii = concrete(idx)
            sel = a[ii] if b is None else None
            flat = np.atleast_1d(np.asarray(ii)) if not isinstance(ii, tuple) else None
            if flat is not None and flat.ndim == 1 and flat.dtype != bool:
                bb = A(b).o if b is not None else None
                for k, i in enumerate(flat):
                    cur = a[int(i)]
                    v = None
                    if b is not None:
                        v = wrap_scalar(bb.reshape(-1)[k if bb.size > 1 else 0],
                                        A(b).dt)
                    a[int(i)] = self(cur) if b is None else self(cur, v)
                return
        ii = concrete(idx)
        real = concrete(a)
        self.uf.at(real, ii, *(() if b is None else (concrete(b),)))
        a[...] = real


def _obj_fn(name):
    """shape function applied to the object array"""
    f = getattr(np, name)

    def g(a, *args, **kw):
        a = A(a)
        r = f(a.o, *concrete(args), **concrete(kw))
        if isinstance(r, (list, tuple)):
            return [SymArray(x, a.dt) for x in r]
        return SymArray(r, a.dt)
    g.__name__ = name
    return g


def _join_fn(name):
    f = getattr(np, name)

    def g(arrs, *args, **kw):
        if isinstance(arrs, SymArray):
            arrs = list(arrs)
        arrs = [A(x) for x in arrs]
        dtype = kw.pop("dtype", None)
        kw.pop("out", None)
        kw.pop("casting", None)
        if not arrs:
            return f(arrs, *args, **kw)
        rd = np.dtype(dtype) if dtype is not None else np.result_type(
            *[x.dt for x in arrs])
        return SymArray(f([x.astype(rd).o for x in arrs], *args, **kw), rd)
    g.__name__ = name
    return g


class _Proxy:
    """attribute access: specialised function, else NumPy's own made concrete"""

    def __init__(self):
        self._cache = {}
        self.ndarray = SymArray

    def __getattr__(self, n):
        if n.startswith("__") and n not in ("__version__",):
            raise AttributeError(n)
        c = self.__dict__["_cache"]
        if n in c:
            return c[n]
        real = getattr(np, n)          # AttributeError as with the real module
        if isinstance(real, np.ufunc):
            r = UFunc(real)
        elif n in FN:
            r = FN[n]
        elif isinstance(real, type) or not callable(real):
            r = real if not type(real).__name__ == "module" else Sub(real)
        else:
            r = Fallback(real)
        c[n] = r
        return r


class Sub:
    def __init__(self, mod):
        self._m = mod

    def __getattr__(self, n):
        r = getattr(self._m, n)
        if self._m is np.random or self._m is np.testing:
            return r
        if callable(r) and not isinstance(r, type):
            return Fallback(r)
        return r


class Fallback:
    def __init__(self, f):
        self.f = f
        self.__name__ = getattr(f, "__name__", "f")

    def __call__(self, *a, **k):
        if has_sym(a, 5) or has_sym(k, 5):
            E = eng()
            if E is not None and (deep_issym(a) or deep_issym(k)):
                E.stats.concretised += 1
                E.note("concretised for numpy." + self.__name__)
            a, k = concrete(a), concrete(k)
        with quiet():
            return unreal(self.f(*a, **k))


def deep_issym(x, depth=5):
    if isinstance(x, SymScalar):
        return True
    if isinstance(x, MaskSel):
        return True
    if isinstance(x, SymArray) and type(x) is not np.ndarray:
        return x.issym()
    if depth and isinstance(x, (list, tuple, set)):
        return _any(deep_issym(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return _any(deep_issym(y, depth - 1) for y in x.values())
    return False


FN = {}


def fn(f):
    FN[f.__name__.rstrip("_")] = f
    return f


# ------------------------------------------------------------ constructors
class StrArray(np.ndarray):
    """an array of texts or objects, indexed by symbolic arrays too"""

    def __getitem__(self, k):
        one = lambda q: concrete(q) if deep_issym(q) or (
            type(q) is not np.ndarray and isinstance(q, SymArray)) else q
        k = tuple(one(q) for q in k) if isinstance(k, tuple) else one(k)
        r = np.asarray(self)[k]
        return r.view(StrArray) if type(r) is np.ndarray else r


@fn
def array(x, dtype=None, copy=True, order=None, ndmin=0, subok=False):
    if hasattr(x, "_sym_array"):
        x = x._sym_array()
    r = asarray(x, dtype=dtype, copy=copy is not False)
    if type(r) is not np.ndarray and isinstance(r, SymArray) and r.o.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.o.ndim) + r.o.shape)
    if type(r) is np.ndarray and r.dtype.kind in "USO":
        return r.view(StrArray)
    return r


@fn
def asarray_(x, dtype=None, order=None, copy=None):
    return asarray(x, dtype=dtype)


FN["asanyarray"] = asarray_


@fn
def ascontiguousarray(x, dtype=None):
    r = asarray(x, dtype=dtype)
    return SymArray(np.ascontiguousarray(r.o), r.dt)


@fn
def asfortranarray(x, dtype=None):
    r = asarray(x, dtype=dtype)
    return SymArray(np.asfortranarray(r.o), r.dt)


@fn
def copy(x, order="K", subok=False):
    return A(x).copy()


def _ctor(name):
    f = getattr(np, name)

    def g(*a, **k):
        return unreal(f(*concrete(a), **concrete(k)))
    g.__name__ = name
    FN[name] = g


for _n in ("zeros", "ones", "empty", "arange", "linspace", "eye", "identity", "tri",
           "indices", "logspace", "fromiter", "mgrid"):
    if callable(getattr(np, _n)):
        _ctor(_n)


@fn
def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if not has_sym((start, stop)):
        if isinstance(num, (SymScalar, SymArray)):
            num = concrete(num)
        return unreal(np.linspace(start, stop, num, endpoint=endpoint,
                                  retstep=retstep, dtype=dtype, axis=axis))
    num = operator.index(concrete(num))
    div = num - 1 if endpoint else num
    if retstep or axis != 0:
        raise EngineLimit("linspace retstep/axis")
    step = apply(np.true_divide, apply(np.subtract, stop, start), div) if div > 0 \
        else None
    out = []
    for k in range(num):
        if step is None:
            v = start
        elif endpoint and num > 1 and k == num - 1:
            v = stop
        else:
            v = apply(np.add, start, apply(np.multiply, step, float(k)))
        out.append(v)
    r = asarray(out, dtype=dtype or F64) if out else from_real(np.empty(0))
    return r


@fn
def full(shape, fill_value, dtype=None, order="C"):
    if dtype is None:
        v, d, isarr = operand(fill_value)
        dtype = d if d is not None else np.array(
            fill_value if not is_sym(v) else {"b": False, "i": 0, "f": 0.0}[
                core.kind(v)]).dtype
    r = unreal(np.zeros(concrete(shape), dtype))
    r[...] = fill_value
    return r


def _like(name):
    f = getattr(np, name)

    def g(a, dtype=None, order="K", subok=True, shape=None):
        a = A(a)
        s = np.zeros(a.o.shape, a.dt)
        return unreal(f(s, dtype=dtype, shape=concrete(shape)))
    g.__name__ = name
    FN[name] = g


for _n in ("zeros_like", "ones_like", "empty_like"):
    _like(_n)


@fn
def full_like(a, fill_value, dtype=None, order="K", subok=True, shape=None):
    a = A(a)
    return full(a.shape if shape is None else shape, fill_value,
                dtype=dtype or a.dt)


@fn
def frombuffer(buf, dtype=float, count=-1, offset=0):
    if hasattr(buf, "_sym_buffer"):
        return buf._sym_buffer(np.dtype(dtype), count, offset)
    return unreal(np.frombuffer(buf, dtype, count, offset).copy())


@fn
def fromfile(f, dtype=float, count=-1, sep="", offset=0):
    from . import stubs
    return stubs.fromfile(f, np.dtype(dtype), count)


@fn
def loadtxt(f, dtype=float, ndmin=0, **kw):
    from . import stubs
    return stubs.loadtxt(f, dtype, ndmin, kw)


@fn
def genfromtxt(f, dtype=float, ndmin=0, **kw):
    from . import stubs
    return stubs.loadtxt(f, dtype, ndmin, kw)


@fn
def load(f, *a, **k):
    from . import stubs
    return stubs.np_load(f, *a, **k)


@fn
def save(f, x, *a, **k):
    from . import stubs
    return stubs.np_save(f, x)


# ------------------------------------------------------------ shape
for _n in ("transpose", "roll", "flip", "fliplr", "flipud", "rot90", "tile",
           "expand_dims", "squeeze", "moveaxis", "swapaxes", "rollaxis", "ravel",
           "reshape", "broadcast_to", "split", "array_split", "hsplit", "vsplit",
           "atleast_1d", "atleast_2d", "atleast_3d", "diagonal", "triu", "tril",
           "resize", "delete", "diag"):
    FN[_n] = _obj_fn(_n)
for _n in ("concatenate", "stack", "vstack", "hstack", "dstack", "column_stack",
           "row_stack", "block"):
    if hasattr(np, _n):
        FN[_n] = _join_fn(_n)


@fn
def repeat(a, n, axis=None):
    a = A(a)
    return SymArray(np.repeat(a.o, concrete(n), axis), a.dt)


@fn
def append(a, b, axis=None):
    if axis is None:
        return FN["concatenate"]([A(a).ravel(), A(b).ravel()])
    return FN["concatenate"]([a, b], axis=axis)


@fn
def insert(a, i, v, axis=None):
    a = A(a)
    return SymArray(np.insert(a.o, concrete(i), A(v).astype(a.dt).o, axis), a.dt)


@fn
def broadcast_arrays(*arrs, **k):
    arrs = [A(x) for x in arrs]
    return tuple(SymArray(o, x.dt) for o, x in zip(
        np.broadcast_arrays(*[x.o for x in arrs]), arrs))


@fn
def meshgrid(*a, **k):
    return list(unreal(np.meshgrid(*concrete(a), **k)))


@fn
def pad(a, width, mode="constant", **kw):
    a = A(a)
    width = concrete(width)
    if mode == "constant":
        cv = kw.pop("constant_values", 0)
        if has_sym(cv):
            raise EngineLimit("symbolic padding value")
        o = np.pad(a.o, width, mode="constant", constant_values=cv)
    else:
        o = np.pad(a.o, width, mode=mode, **kw)
    r = SymArray(o, a.dt)
    return SymArray(r._map(lambda v: v if is_sym(v) else cast(v, a.dt)), a.dt)


@fn
def shape(a):
    return A(a).shape


@fn
def size(a, axis=None):
    return A(a).size if axis is None else A(a).shape[axis]


@fn
def ndim(a):
    return A(a).ndim


@fn
def iscomplexobj(a):
    return False


@fn
def ndenumerate(a):
    a = A(a)
    return ((p, wrap_scalar(a.o[p], a.dt)) for p in np.ndindex(a.shape))


# ------------------------------------------------------------ reductions
def _red(name, uf):
    def g(a, axis=None, dtype=None, out=None, keepdims=False, initial=None,
          where=None, **k):
        if not isinstance(a, MaskSel):
            a = A(a)
        kw = {}
        if initial is not None:
            kw["initial"] = initial
        if where is not None:
            kw["where"] = where
        if name in ("any", "all", "max", "min"):
            dtype = None
        r = reduce_(uf, a, axis, dtype, keepdims, name, **kw)
        if out is not None:
            out[...] = r
            return out
        return r
    g.__name__ = name
    FN[name] = g


_red("sum", np.add)
_red("prod", np.multiply)
_red("any", np.logical_or)
_red("all", np.logical_and)
_red("max", np.maximum)
_red("min", np.minimum)
FN["amax"], FN["amin"] = FN["max"], FN["min"]


@fn
def ptp(a, axis=None):
    return FN["max"](a, axis) - FN["min"](a, axis)


@fn
def mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if isinstance(a, MaskSel):
        a = a.force()
    a = A(a)
    if not a.issym():
        with quiet():
            return unreal(np.mean(a.real(), axis=axis, dtype=dtype,
                                  keepdims=keepdims))
    return a.mean(axis=axis, keepdims=keepdims)


@fn
def average(a, axis=None, weights=None):
    if weights is None:
        return mean(a, axis)
    a, w = A(a), A(weights)
    return (a * w).sum(axis) / w.sum(axis)


def _isnan(v):
    if isinstance(v, T):
        return v.select(lambda x: x != x)
    if is_sym(v):
        return False
    return bool(v != v)


@fn
def nanmean(a, axis=None, **k):
    a = A(a)
    if not a.issym():
        with quiet():
            return unreal(np.nanmean(a.real(), axis=axis))
    if axis is not None:
        o = np.moveaxis(a.o, axis, -1)
        out = np.empty(o.shape[:-1], dtype=object)
        for p in np.ndindex(out.shape):
            out[p] = operand(nanmean(SymArray(o[p], a.dt)))[0]
        return mk(out, F64)
    kept = [v for v in a.o.ravel() if not eng().decide(_isnan(v))]
    if not kept:
        return np.float64("nan")
    return apply(np.true_divide, SymArray(np.array(kept, dtype=object), a.dt).sum(),
                 len(kept))


@fn
def nansum(a, axis=None, **k):
    a = A(a)
    return FN["sum"](where_(NP.isnan(a), a.dt.type(0), a), axis=axis)


@fn
def nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    scal = isinstance(a, SymScalar)
    a = A(a)
    if not a.issym():
        return unreal(np.nan_to_num(a.real(), nan=nan, posinf=posinf, neginf=neginf))
    r = SymArray(a._map(lambda v: core.tmap(v, lambda x: float(np.nan_to_num(
        x, nan=nan, posinf=posinf, neginf=neginf))) if isinstance(v, T) else
        (v if is_sym(v) else float(np.nan_to_num(v, nan=nan)))), a.dt)
    return wrap_scalar(r.o[()], a.dt) if scal else r


@fn
def count_nonzero(a, axis=None, keepdims=False):
    if isinstance(a, MaskSel):
        return a.astype(bool).sum()
    a = A(a)
    r = reduce_(np.add, a.astype(bool), axis, None, keepdims, "sum")
    return r if not isinstance(r, np.generic) else int(r)


@fn
def median(a, axis=None, **k):
    return Fallback(np.median)(a, axis=axis, **k)


@fn
def argmax(a, axis=None, **k):
    return argmaxmin(a, axis, np.greater)


@fn
def argmin(a, axis=None, **k):
    return argmaxmin(a, axis, np.less)


def _nanarg(name, uf, repl):
    def g(a, axis=None):
        a = A(a)
        if not a.issym():
            return unreal(getattr(np, name)(a.real(), axis=axis))
        return argmaxmin(where_(NP.isnan(a), repl, a), axis, uf)
    FN[name] = g


_nanarg("nanargmax", np.greater, -math.inf)
_nanarg("nanargmin", np.less, math.inf)


@fn
def nanmax(a, axis=None):
    return Fallback(np.nanmax)(a, axis=axis)


@fn
def cumsum(a, axis=None, dtype=None, out=None):
    a = A(a)
    if axis is None:
        a, axis = a.ravel(), 0
    if not a.issym():
        return unreal(np.cumsum(a.real(), axis=axis, dtype=dtype))
    rd = np.cumsum(np.ones(1, a.dt), dtype=dtype).dtype
    o = np.moveaxis(a.o, axis, -1)
    res = np.empty(o.shape, dtype=object)
    for p in np.ndindex(o.shape[:-1]):
        for k in range(o.shape[-1]):
            res[p + (k,)] = fold_elems(np.add, list(o[p][:k + 1]), a.dt, rd, "sum",
                                       None)
    return SymArray(np.moveaxis(res, -1, axis), rd)


@fn
def diff(a, n=1, axis=-1, **k):
    a = A(a)
    for _ in range(n):
        o = np.moveaxis(a.o, axis, -1)
        hi, lo = SymArray(o[..., 1:], a.dt), SymArray(o[..., :-1], a.dt)
        r = hi - lo if a.dt.kind != "b" else hi != lo
        a = SymArray(np.moveaxis(r.o, -1, axis), r.dt)
    return a


@fn
def trapezoid(y, x=None, dx=1.0, axis=-1):
    y = A(y)
    d = A(x)[1:] - A(x)[:-1] if x is not None else dx
    return (d * (y[1:] + y[:-1]) / 2.0).sum()


@fn
def dot(a, b, out=None):
    a, b = A(a), A(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    return matmul(a, b)


@fn
def matmul(a, b):
    a, b = A(a), A(b)
    if a.ndim == 1 and b.ndim == 1:
        return (a * b).sum()
    if a.ndim == 2 and b.ndim == 1:
        return FN["stack"]([(a[i] * b).sum() for i in range(a.shape[0])])
    if a.ndim == 1 and b.ndim == 2:
        return FN["stack"]([(a * b[:, j]).sum() for j in range(b.shape[1])])
    if a.ndim == 2 and b.ndim == 2:
        return FN["stack"]([matmul(a[i], b) for i in range(a.shape[0])])
    return Fallback(np.matmul)(a, b)


NP_EINSUM = Fallback(np.einsum)
FN["einsum"] = NP_EINSUM


@fn
def tensordot(a, b, axes=2):
    if axes == 1 or axes == (0, 0) or axes == ([0], [0]):
        a, b = A(a), A(b)
        if a.ndim == 1:
            r = None
            for k in range(a.shape[0]):
                t = b[k] * a[k]
                r = t if r is None else r + t
            return r
    return Fallback(np.tensordot)(a, b, axes)


# ------------------------------------------------------------ selection
@fn
def where_(c, *xy):
    if not xy:
        return nonzero(c)
    x, y = xy
    if not has_sym((c, x, y)):
        return unreal(np.where(c, x, y))
    co = A(c).o
    xo, xd, xa = operand(x)
    yo, yd, ya = operand(y)
    dx = np.ones(1, xd) if xa else (xd.type(1) if xd is not None else
                                   (x if not is_sym(xo) else
                                    {"b": True, "i": 1, "f": 1.0}[core.kind(xo)]))
    dy = np.ones(1, yd) if ya else (yd.type(1) if yd is not None else
                                   (y if not is_sym(yo) else
                                    {"b": True, "i": 1, "f": 1.0}[core.kind(yo)]))
    rd = np.where(np.ones(1, bool), dx, dy).dtype
    bs = np.broadcast_arrays(co, xo if xa else obj(xo), yo if ya else obj(yo))
    out = np.empty(bs[0].shape, dtype=object)
    for p in np.ndindex(out.shape):
        out[p] = ite(to_bool(bs[0][p]), cast(bs[1][p], rd), cast(bs[2][p], rd))
    return mk(out, rd) if out.ndim else SymArray(out, rd)


@fn
def nonzero(a):
    a = A(a)
    if not a.issym():
        return tuple(from_real(x) for x in np.nonzero(a.real()))
    return MaskIndex(a.astype(bool))


@fn
def argwhere(a):
    a = A(a)
    return unreal(np.argwhere(concrete(a.astype(bool))))


@fn
def flatnonzero(a):
    a = A(a).ravel()
    return unreal(np.flatnonzero(concrete(a.astype(bool))))


@fn
def select(conds, choices, default=0):
    r = default
    for c, x in reversed(list(zip(conds, choices))):
        r = where_(c, x, r)
    return r


@fn
def choose(a, choices):
    return Fallback(np.choose)(a, choices)


@fn
def extract(c, a):
    return A(a).ravel()[A(c).astype(bool).ravel()]


@fn
def compress(c, a, axis=None):
    return unreal(A(a).o.compress(concrete(c), axis)) if False else \
        SymArray(A(a).o.compress(concrete(A(c).astype(bool)), axis), A(a).dt)


@fn
def take(a, idx, axis=None, mode="raise", **k):
    a = A(a)
    if axis is None:
        a = a.ravel()
        return a[idx if isinstance(idx, (SymScalar, int, np.integer)) else A(idx)]
    if axis == 0:
        return a[idx if isinstance(idx, (SymScalar, int, np.integer)) else A(idx)]
    r = SymArray(np.moveaxis(a.o, axis, 0), a.dt)[idx if isinstance(
        idx, (SymScalar, int, np.integer)) else A(idx)]
    return SymArray(np.moveaxis(r.o, 0, axis), a.dt) if r.o.ndim == a.o.ndim else r


@fn
def take_along_axis(a, idx, axis):
    return Fallback(np.take_along_axis)(a, idx, axis)


@fn
def copyto(dst, src, casting="same_kind", where=True):
    if where is True:
        dst[...] = src
        return
    w = A(where)
    m = SymArray(np.broadcast_to(w.o, dst.o.shape), BOOL)
    s = A(src)
    if s.ndim == 0:
        dst[m] = wrap_scalar(s.o[()], s.dt)
        return
    so = np.broadcast_to(s.o, dst.o.shape)
    for p in np.ndindex(dst.o.shape):
        dst.o[p] = ite(to_bool(m.o[p]), cast(so[p], dst.dt), dst.o[p])


@fn
def putmask(a, mask, values):
    copyto(a, values, where=mask)


@fn
def place(a, mask, vals):
    v = A(vals)
    if v.size == 1:
        a[A(mask).astype(bool)] = v.item()
    else:
        a[concrete(A(mask).astype(bool))] = v
    return None


@fn
def clip(a, lo=None, hi=None, out=None, **k):
    lo = k.pop("a_min", k.pop("min", lo))
    hi = k.pop("a_max", k.pop("max", hi))
    r = a
    if lo is not None:
        r = NP.maximum(r, lo)
    if hi is not None:
        r = NP.minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def real_round(v, n):
    """rounding of a real to n decimals: bounded, otherwise free"""
    E = eng()
    key = ("rounded", v.e.get_id(), n)
    if key not in E.divs:
        q = z3.Real(E.fresh("rnd"))
        h = z3.RealVal(1) / (2 * 10 ** n)
        E.add(z3.And(q <= v.e + h, q >= v.e - h))
        E.divs[key] = (q, v.e, None)
        E.divs[("decimals", q.get_id())] = (n, q, None)
    E.approx = True
    return R(E.divs[key][0])


@fn
def round_(a, decimals=0, out=None):
    if not has_sym((a,)):
        return unreal(np.round(concrete(a), decimals))
    v, d, isarr = operand(a)

    def f(x):
        if isinstance(x, (B, I)):
            return x
        if isinstance(x, T):
            return core.tmap(x, lambda y: core_norm(np.round(
                d.type(y) if d is not None else y, decimals)))
        if isinstance(x, R):
            return real_round(x, decimals)
        return core_norm(np.round(d.type(x) if d is not None else x, decimals))
    if not isarr:
        return wrap_scalar(f(v), d if d is not None else F64)
    return SymArray(SymArray(v, d)._map(f), d)


FN["around"] = FN["round"]


def core_norm(x):
    from .arr import norm
    return norm(x)


@fn
def rint(a):
    return round_(a, 0)


@fn
def isin(a, test, assume_unique=False, invert=False, **k):
    a = A(a)
    t = A(list(test) if isinstance(test, (set, dict)) else test)
    out = np.empty(a.o.shape, dtype=object)
    ts = list(t.o.ravel())
    for p in np.ndindex(out.shape):
        c = bor(*[cmp("eq", a.o[p], x) for x in ts]) if ts else False
        out[p] = mkB(bnot(c) if invert else c)
    return SymArray(out, BOOL) if out.ndim else wrap_scalar(out[()], BOOL)


@fn
def array_equal(a, b, equal_nan=False):
    a, b = A(a), A(b)
    if a.shape != b.shape:
        return False
    r = (a == b).all()
    return wrap_scalar(operand(r)[0], None)


@fn
def array_equiv(a, b):
    return array_equal(*broadcast_arrays(a, b))


@fn
def allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return isclose(a, b, rtol, atol).all()


@fn
def isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not has_sym((a, b)):
        return unreal(np.isclose(a, b, rtol, atol, equal_nan))
    return NP.abs(A(a) - A(b)) <= atol + rtol * NP.abs(b)


# ------------------------------------------------------------ sorting, sets
def _order(vs):
    """stable sorting permutation, deciding comparisons by forking"""
    out = []
    E = eng()
    for i, v in enumerate(vs):
        j = len(out)
        while j > 0 and E.decide(cmp("lt", v, vs[out[j - 1]])):
            j -= 1
        out.insert(j, i)
    return out


@fn
def argsort(a, axis=-1, kind=None, order=None, stable=None):
    a = A(a)
    if not a.issym():
        return unreal(np.argsort(a.real(), axis=axis, kind=kind))
    if axis is None:
        a, axis = a.ravel(), 0
    o = np.moveaxis(a.o, axis, -1)
    out = np.empty(o.shape, dtype=object)
    for p in np.ndindex(o.shape[:-1]):
        out[p] = _order(list(o[p]))
    return SymArray(np.moveaxis(out, -1, axis), I64)


@fn
def sort(a, axis=-1, kind=None, order=None):
    a = A(a)
    if not a.issym():
        return unreal(np.sort(a.real(), axis=axis))
    if axis is None:
        a, axis = a.ravel(), 0
    o = np.moveaxis(a.o, axis, -1)
    out = np.empty(o.shape, dtype=object)
    for p in np.ndindex(o.shape[:-1]):
        vs = list(o[p])
        out[p] = [vs[k] for k in _order(vs)]
    return SymArray(np.moveaxis(out, -1, axis), a.dt)


@fn
def lexsort(keys, axis=-1):
    return Fallback(np.lexsort)(keys)


def _domain(vs):
    dom = set()
    for v in vs:
        if isinstance(v, B):
            dom |= {0, 1}
        elif isinstance(v, I):
            if v.pb is not None and len(v.pb[1]) <= 6:
                c, ts = v.pb
                cur = {c}
                for w, _ in ts:
                    cur |= {x + w for x in cur}
                dom |= cur
            elif v.lo is None or v.hi is None or v.hi - v.lo > 300:
                return None
            else:
                dom |= set(range(v.lo, v.hi + 1))
        elif isinstance(v, T):
            if _any(x != x for x in v.vals):
                return None
            dom |= set(v.vals)
        elif isinstance(v, R):
            return None
        else:
            if v != v:
                return None
            dom.add(v)
        if len(dom) > 300:
            return None
    return sorted(dom)


@fn
def unique(a, return_index=False, return_inverse=False, return_counts=False,
           axis=None, **k):
    if isinstance(a, MaskSel):
        src, mask = list(a.src.ravel()), [to_bool(m) for m in a.mask.o.ravel()]
        keep = [(v, m) for v, m in zip(src, mask) if m is not False]
        dt = a.dt
        if return_index or return_inverse or axis is not None:
            a = a.force()
            keep = None
    else:
        a = A(a)
        dt = a.dt
        keep = None
    if keep is None:
        if not a.issym() or axis is not None:
            return unreal(np.unique(concrete(a), return_index, return_inverse,
                                    return_counts, axis=axis))
        keep = [(v, True) for v in a.o.ravel()]
    E = eng()
    dom = _domain([v for v, _ in keep])
    n = len(keep)
    if dom is not None and (len(dom) <= 8 * n or n >= 12):
        vals, eqs = [], []
        for d in dom:
            es = [band(m, cmp("eq", v, d)) for v, m in keep]
            if E.decide(bor(*es)):
                vals.append(d)
                eqs.append(es)
        ua = SymArray(np.array([cast(v, dt) for v in vals], dtype=object), dt)
        idx, cnt = [], []
        for es in eqs:
            prev = False
            pairs = []
            for i, e in enumerate(es):
                g = band(e, bnot(prev))
                pairs.append((i, g))
                prev = bor(prev, e)
            idx.append(mkT([(i, g) for i, g in pairs if g is not False]))
            cnt.append(mkpb(0, [(1, e) for e in es]))
        inv = [mkT([(j, eqs[j][i]) for j in range(len(vals))])
               for i in range(n)] if return_inverse else None
    else:
        vs = [v for v, m in keep]
        if not _all(m is True for _, m in keep):
            a = a.force()
            vs = list(a.o.ravel())
        od = _order(vs)
        groups = []
        for i in od:
            if groups and E.decide(cmp("eq", vs[groups[-1][0]], vs[i])):
                groups[-1].append(i)
            else:
                groups.append([i])
        ua = SymArray(np.array([vs[g[0]] for g in groups], dtype=object), dt)
        idx = [_min(g) for g in groups]
        cnt = [len(g) for g in groups]
        inv = [0] * len(vs)
        for j, g in enumerate(groups):
            for i in g:
                inv[i] = j
    ints = lambda xs: SymArray(_objarr(xs), I64)
    out = [ua]
    if return_index:
        out.append(ints(idx))
    if return_inverse:
        out.append(ints(inv).reshape(a.shape) if not isinstance(a, MaskSel)
                   else ints(inv))
    if return_counts:
        out.append(ints(cnt))
    return out[0] if len(out) == 1 else tuple(out)


def _objarr(xs):
    o = np.empty(len(xs), dtype=object)
    for i, x in enumerate(xs):
        o[i] = x
    return o


@fn
def unique_values(a):
    return unique(a)


@fn
def setdiff1d(a, b, assume_unique=False):
    u = A(unique(a))
    return u[~isin(u, b)]


@fn
def intersect1d(a, b, **k):
    u = A(unique(a))
    return u[isin(u, b)]


@fn
def bincount(a, weights=None, minlength=0):
    a = A(a)
    if not a.issym() and not deep_issym(weights):
        return unreal(np.bincount(a.real(), concrete(weights), minlength))
    dom = _domain(list(a.o))
    if dom is None or weights is not None:
        return Fallback(np.bincount)(a, weights, minlength)
    return Fallback(np.bincount)(a, None, minlength)


@fn
def searchsorted(a, v, side="left", sorter=None):
    if not deep_issym(a) and not deep_issym(v):
        return unreal(np.searchsorted(concrete(a), concrete(v), side))
    a = A(a)
    if sorter is not None:
        a = a[sorter]
    op = "lt" if side == "left" else "le"

    def one(x):
        return mkpb(0, [(1, cmp(op, y, x)) for y in a.o])
    v_, d, isarr = operand(v)
    if not isarr:
        return wrap_scalar(one(v_), I64)
    return SymArray(SymArray(v_, d)._map(one), I64)


@fn
def interp(x, xp, fp, left=None, right=None, period=None):
    if not (deep_issym(x) or deep_issym(xp) or deep_issym(fp)):
        return unreal(np.interp(concrete(x), concrete(xp), concrete(fp), left, right))
    if period is not None:
        raise EngineLimit("interp period")
    xp, fp = A(xp).astype(float), A(fp).astype(float)
    n = xp.shape[0]
    w = lambda v: wrap_scalar(v, F64)
    xs = [w(v) for v in xp.o]
    fs = [w(v) for v in fp.o]
    left = fs[0] if left is None else left
    right = fs[-1] if right is None else right
    slopes = {}

    def seg(j, xv):
        if j not in slopes:
            slopes[j] = apply(np.true_divide, apply(np.subtract, fs[j + 1], fs[j]),
                              apply(np.subtract, xs[j + 1], xs[j]))
        return apply(np.add, apply(np.multiply, slopes[j],
                                   apply(np.subtract, xv, xs[j])), fs[j])

    def val(z):
        return cast(operand(z)[0], F64)

    def one(xv):
        r = val(right)
        xq = operand(xv)[0]
        r = ite(cmp("le", xq, operand(xs[n - 1])[0]), val(fs[n - 1]), r)
        for j in range(n - 2, -1, -1):
            c = cmp("lt", xq, operand(xs[j + 1])[0])
            if c is False:
                continue
            r = ite(c, val(seg(j, xv)), r)
        return ite(cmp("lt", xq, operand(xs[0])[0]), val(left), r)
    v, d, isarr = operand(x)
    if not isarr:
        return wrap_scalar(one(w(cast(v, F64))), F64)
    return SymArray(SymArray(v, d)._map(lambda q: one(w(cast(q, F64)))), F64)


# ------------------------------------------------------------ bits
@fn
def unpackbits(a, axis=None, count=None, bitorder="big"):
    a = A(a)
    if not a.issym():
        return unreal(np.unpackbits(a.real(), axis=axis, count=count,
                                    bitorder=bitorder))
    np.unpackbits(np.zeros(a.shape, a.dt), axis=axis, count=count)   # real errors
    if axis is None:
        a, axis = a.ravel(), 0
    o = np.moveaxis(a.o, axis, -1)
    out = np.empty(o.shape[:-1] + (o.shape[-1] * 8,), dtype=object)
    for p in np.ndindex(o.shape):
        bs = bits_of(o[p], 8)
        if bitorder == "big":
            bs = bs[::-1]
        for k in range(8):
            b = bs[k]
            out[p[:-1] + (p[-1] * 8 + k,)] = int(b) if isinstance(b, bool) else \
                to_int(B(b))
    if count is not None:
        n = out.shape[-1]
        if count < 0:
            out = out[..., :n + count]
        elif count <= n:
            out = out[..., :count]
        else:
            ext = np.empty(out.shape[:-1] + (count - n,), dtype=object)
            ext[...] = 0
            out = np.concatenate([out, ext], axis=-1)
    return SymArray(np.moveaxis(out, -1, axis), np.uint8)


@fn
def packbits(a, axis=None, bitorder="big"):
    a = A(a)
    if not a.issym():
        return unreal(np.packbits(a.real(), axis=axis, bitorder=bitorder))
    np.packbits(np.zeros(a.shape, a.dt), axis=axis)
    if axis is None:
        a, axis = a.ravel(), 0
    o = np.moveaxis(a.o, axis, -1)
    n = (o.shape[-1] + 7) // 8
    out = np.empty(o.shape[:-1] + (n,), dtype=object)
    for p in np.ndindex(out.shape):
        bs = [to_bool(o[p[:-1] + (p[-1] * 8 + k,)])
              if p[-1] * 8 + k < o.shape[-1] else False for k in range(8)]
        out[p] = from_bits(bs[::-1] if bitorder == "big" else bs)
    return SymArray(np.moveaxis(out, -1, axis), np.uint8)


# ------------------------------------------------------------ misc
@fn
def vectorize(f, *a, **k):
    def g(*args):
        arrs = [A(x) for x in args]
        bs = np.broadcast_arrays(*[x.o for x in arrs])
        vals = [f(*[wrap_scalar(b[p], x.dt) for b, x in zip(bs, arrs)])
                for p in np.ndindex(bs[0].shape)]
        return asarray(vals).reshape(bs[0].shape)
    return g


@fn
def apply_along_axis(f, axis, a, *args, **k):
    a = A(a)
    o = np.moveaxis(a.o, axis, -1)
    vals = [f(SymArray(o[p], a.dt), *args, **k) for p in np.ndindex(o.shape[:-1])]
    r = asarray(vals)
    return r.reshape(o.shape[:-1] + r.shape[1:])


@fn
def isscalar(x):
    return isinstance(x, SymScalar) or np.isscalar(x)


@fn
def issubdtype(a, b):
    return np.issubdtype(a, b)


@fn
def result_type(*a):
    return np.result_type(*[x.dt if isinstance(x, (SymArray, SymScalar)) else x
                            for x in a])


@fn
def errstate(**k):
    return np.errstate(**k)


for _n in ("seterr", "geterr", "dtype", "iinfo", "finfo", "can_cast", "ix_",
           "ndindex", "set_printoptions", "promote_types", "broadcast_shapes"):
    FN.setdefault(_n, getattr(np, _n))


@fn
def fabs(a):
    return NP.absolute(a)


@fn
def abs_(a):
    return NP.absolute(a)


@fn
def asarray_chkfinite(a):
    return A(a)


@fn
def may_share_memory(a, b):
    return np.may_share_memory(A(a).o, A(b).o)


@fn
def gradient(f, *varargs, axis=None, edge_order=1):
    f = A(f)
    if not f.issym() or varargs:
        return unreal(np.gradient(concrete(f), *varargs, axis=axis))
    axes = range(f.ndim) if axis is None else (axis if isinstance(axis, tuple)
                                                else (axis,))
    out = []
    for ax in axes:
        o = np.moveaxis(f.o, ax, 0)
        if o.shape[0] < 2:
            np.gradient(np.zeros(f.shape), axis=ax)
        x = SymArray(o, f.dt)
        parts = [(x[1:2] - x[0:1])]
        if o.shape[0] > 2:
            parts.append((x[2:] - x[:-2]) / 2.0)
        parts.append(x[-1:] - x[-2:-1])
        r = FN["concatenate"](parts, axis=0)
        out.append(SymArray(np.moveaxis(r.o, 0, ax), r.dt))
    return out[0] if len(out) == 1 else list(out)


class _C:
    """np.c_ / np.r_"""

    def __init__(self, real):
        self.r = real

    def __getitem__(self, k):
        if deep_issym(k):
            ks = [A(x) for x in k]
            if self.r is np.c_:
                return FN["column_stack"](ks)
            return FN["concatenate"](ks)
        return unreal(self.r[concrete(k)])


NP = _Proxy()
NP._cache["c_"] = _C(np.c_)
NP._cache["r_"] = _C(np.r_)
NP._cache["vectorize"] = vectorize
NP._cache["ndenumerate"] = ndenumerate
NP._cache["errstate"] = np.errstate
NP._cache["ndarray"] = SymArray
