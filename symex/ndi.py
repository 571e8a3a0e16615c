"""Exact symbolic versions of the scipy.ndimage / cv2 functions the package uses
on masks.  Each falls back to the exact summary (ForeignFn) outside its range.

Distance transforms: for a metric without obstacles the value at p is the least
distance to a zero pixel; the distances come from the library itself, run on
images with one zero (and on one without)."""
import numpy as np
import z3

from . import core, npx
from .arr import SymArray, asarray, elem, norm
from .core import EngineLimit, band, bnot, bor, is_sym, mkT, to_bool
from .loader import ForeignFn

_D = {}


def _metric(name, real, shape, dtype):
    key = (name, shape, str(dtype))
    if key not in _D:
        n = shape[0] * shape[1]
        rows = []
        for z in range(n):
            a = np.ones(n, dtype)
            a[z] = 0
            rows.append(np.asarray(real(a.reshape(shape))).ravel())
        none = np.asarray(real(np.ones(shape, dtype)))
        D = np.stack(rows)
        orders = []
        for p in range(n):
            o = sorted(range(n), key=lambda z: D[z, p])
            orders.append([(z, norm(D[z, p])) for z in o])
        _D[key] = (orders, [norm(x) for x in none.ravel()], none.dtype)
    return _D[key]


def distance(name, real, a):
    a = asarray(a)
    if not a.issym() or a.ndim != 2 or a.size == 0:
        return None
    D, none, d = _metric(name, real, a.shape, a.dt)
    zero = [bnot(to_bool(v)) for v in a.o.ravel()]
    n = a.size
    res = np.empty(n, dtype=object)
    cand = [zero[z] is not False for z in range(n)]
    for p in range(n):
        order = [(z, d) for z, d in D[p] if cand[z]]
        pairs, closer, i = [], False, 0
        while i < len(order):
            j = i
            here = []
            while j < len(order) and order[j][1] == order[i][1]:
                here.append(zero[order[j][0]])
                j += 1
            h = bor(*here)
            pairs.append((order[i][1], band(h, bnot(closer))))
            closer = bor(closer, h)
            if closer is True:
                break
            i = j
        if closer is not True:
            pairs.append((none[p], bnot(closer)))
        res[p] = mkT(pairs)
    return SymArray(res.reshape(a.shape), d)


def edt(input, sampling=None, return_distances=True, return_indices=False,
        distances=None, indices=None):
    from scipy import ndimage as nd
    if sampling is None and return_distances and not return_indices \
            and distances is None and indices is None:
        r = distance("edt", nd.distance_transform_edt, input)
        if r is not None:
            return r
    return ForeignFn(nd.distance_transform_edt)(
        input, sampling, return_distances, return_indices, distances, indices)


def chamfer(fname):
    def f(input, metric="chessboard", *a, **k):
        from scipy import ndimage as nd
        real = getattr(nd, fname)
        if not a and not k and isinstance(metric, str):
            r = distance(fname + metric, lambda x: real(x, metric), input)
            if r is not None:
                return r
        return ForeignFn(real)(input, metric, *a, **k)
    f.__name__ = fname
    return f


def cv_distance(src, distanceType, maskSize, dst=None, dstType=None, **k):
    import cv2
    if dst is None and dstType is None and not k and not is_symarg(
            distanceType, maskSize):
        r = distance(("cv", int(distanceType), int(maskSize)),
                     lambda x: cv2.distanceTransform(x, distanceType, maskSize), src)
        if r is not None:
            return r
    kw = dict(k)
    if dst is not None:
        kw["dst"] = dst
    if dstType is not None:
        kw["dstType"] = dstType
    return ForeignFn(cv2.distanceTransform)(src, distanceType, maskSize, **kw)


def is_symarg(*xs):
    from .arr import SymScalar
    return any(isinstance(x, SymScalar) for x in xs)


MODES = {"reflect": "symmetric", "mirror": "reflect", "nearest": "edge",
         "wrap": "wrap", "constant": "constant"}


def _corr(fname):
    def f(input, weights, output=None, mode="reflect", cval=0.0, origin=0, **k):
        from scipy import ndimage as nd
        real = getattr(nd, fname)
        a, w = asarray(input), asarray(weights)
        if (not a.issym() or w.issym() or output is not None or k or origin != 0
                or a.ndim != 2 or w.ndim != 2 or mode not in MODES
                or w.shape[0] % 2 == 0 or w.shape[1] % 2 == 0
                or a.dt.kind not in "biu" or cval != int(cval)
                or np.any(w.real() != np.asarray(w.real(), int))
                or min(a.shape) < max(w.shape) // 2):
            return ForeignFn(real)(input, weights, output=output, mode=mode,
                                   cval=cval, origin=origin, **k)
        wt = np.asarray(w.real(), int)
        if fname == "convolve":
            wt = wt[::-1, ::-1]
        rd = np.asarray(real(np.zeros((3, 3), a.dt), np.zeros_like(wt), mode=mode)
                        ).dtype
        py, px = wt.shape[0] // 2, wt.shape[1] // 2
        kw = {"constant_values": 0} if mode == "constant" else {}
        if mode == "constant":
            p = np.full((a.shape[0] + 2 * py, a.shape[1] + 2 * px), int(cval),
                        dtype=object)
            p[py:py + a.shape[0], px:px + a.shape[1]] = a.o
        else:
            p = np.pad(a.o, ((py, py), (px, px)), mode=MODES[mode], **kw)
        out = np.empty(a.shape, dtype=object)
        from .arr import cast, iadd, imul
        from .core import to_int
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                s = 0
                for u in range(wt.shape[0]):
                    for v in range(wt.shape[1]):
                        if wt[u, v]:
                            x = to_int(p[i + u, j + v])
                            t = imul(x, int(wt[u, v])) if is_sym(x) \
                                else int(x) * int(wt[u, v])
                            s = iadd(s, t) if is_sym(s) or is_sym(t) else s + t
                out[i, j] = cast(s, rd)
        return SymArray(out, rd)
    f.__name__ = fname
    return f


def convolve2d(in1, in2, mode="full", boundary="fill", fillvalue=0):
    """of an array of real symbols with a constant filter (zero boundary)"""
    from scipy import signal
    from .loader import _leaves
    a, w = asarray(in1), asarray(in2)
    if (not a.issym() or w.issym() or mode not in ("full", "valid", "same")
            or boundary != "fill" or is_symarg(fillvalue) or fillvalue != 0
            or a.dt != np.float64 or w.dt != np.float64 or a.ndim != 2 or w.ndim != 2
            or min(a.shape) < 1 or min(w.shape) < 1 or _leaves(a, {})):
        return ForeignFn(signal.convolve2d)(in1, in2, mode, boundary, fillvalue)
    wt = w.real()
    H, W = a.shape
    h, v = wt.shape
    shape = np.asarray(signal.convolve2d(np.zeros((H, W)), wt, mode)).shape
    if mode == "valid" and not (H >= h and W >= v):
        return ForeignFn(signal.convolve2d)(in1, in2, mode, boundary, fillvalue)
    off = {"full": (0, 0), "valid": (h - 1, v - 1),
           "same": ((h - 1) // 2, (v - 1) // 2)}[mode]
    out = np.empty(shape, dtype=object)
    from .arr import mkR
    from .core import is_sym, to_real
    for i in range(shape[0]):
        for j in range(shape[1]):
            s = []
            c = 0.0
            for k in range(h):
                for m in range(v):
                    y, x = i + off[0] - k, j + off[1] - m
                    if 0 <= y < H and 0 <= x < W and wt[k, m]:
                        t = a.o[y, x]
                        if is_sym(t):
                            s.append(to_real(t) * core.rval(float(wt[k, m])))
                        else:
                            c += float(t) * float(wt[k, m])
            out[i, j] = mkR(z3.Sum(s + [core.rval(c)])) if s else c
    return SymArray(out, np.dtype(np.float64))


OVERRIDES = dict(distance_transform_edt=edt, correlate=_corr("correlate"),
                 convolve=_corr("convolve"),
                 distance_transform_cdt=chamfer("distance_transform_cdt"))


class interp1d:
    """linear interpolation; the segment of a symbolic point is decided by forking"""

    def __init__(self, x, y, kind="linear", axis=-1, copy=True, bounds_error=None,
                 fill_value=float("nan"), assume_sorted=False):
        x, y = npx.A(x), npx.A(y)
        if kind != "linear" or len(x.shape) != 1 or len(y.shape) != 1:
            raise EngineLimit("interp1d")
        if x.shape != y.shape:
            raise ValueError("x and y arrays must be equal in length along "
                             "interpolation axis.")
        if x.shape[0] == 0:
            raise ValueError("cannot reshape array of size 0")
        if bounds_error is None:
            bounds_error = not (fill_value == "extrapolate")
        x, y = x.astype(float), y.astype(float)
        if not assume_sorted:
            o = npx.argsort(x, kind="mergesort")
            x, y = x[o], y[o]
        self.x, self.y = list(x), list(y)
        self.be, self.fill = bounds_error, fill_value

    def _one(self, v):
        dec = lambda c: bool(c)
        xs, ys = self.x, self.y
        n = len(xs)
        lo, hi = dec(v < xs[0]), None
        if not lo:
            hi = dec(v > xs[-1])
        if lo or hi:
            if isinstance(self.fill, str):
                if n == 1:
                    return float("nan")
                j = 0 if lo else n - 2
            elif self.be:
                raise ValueError("A value in x_new is outside the interpolation range.")
            elif isinstance(self.fill, tuple):
                return self.fill[0 if lo else 1]
            else:
                return self.fill
        else:
            if n == 1:
                return ys[0]
            j = 0
            while j < n - 2 and not dec(v < xs[j + 1]):
                j += 1
            if dec(v == xs[j + 1]):
                return ys[j + 1]
        if (lo or hi) and dec(xs[j] == xs[j + 1]):
            raise EngineLimit("interp1d beyond a repeated point")
        return ys[j] + (ys[j + 1] - ys[j]) / (xs[j + 1] - xs[j]) * (v - xs[j])

    def __call__(self, x):
        a = npx.A(x)
        r = npx.A([self._one(v) for v in a.reshape(-1)])
        return r.reshape(a.shape) if a.shape else r[0]
