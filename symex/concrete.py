"""Concrete side: runs the same harnesses on the real package (an overlay of
/repo's Python with freshly built extensions), each run in a forked child with
its own scratch directory.  Protocol: one JSON object per line."""
import importlib
import io
import json
import logging
import os
import random
import shutil
import signal
import sys
import tempfile
import time as _time
import traceback

import numpy as np

from .harness_common import Common, sbd_bdry


class CheckFailed(Exception):
    pass


class MemoryFault(Exception):
    pass


class Assumed(Exception):
    pass


_real_time = _time.time
CLOCK = {"fn": None}
TERM = {"fn": None}
NATIVE = []
HOOK = {"nms": None}
RND = random.Random(1)
SCHED = {"trace": None}


def _step(n):
    if n <= 1:
        return 0
    t = SCHED["trace"]
    return t.pop(0) % n if t else 0


def _worker(conn, initializer, initargs):
    if initializer is not None:
        initializer(*initargs)
    while True:
        try:
            m = conn.recv()
        except EOFError:
            return
        if m is None:
            return
        func, items, star = m
        out = []
        for x in items:
            try:
                out.append((True, func(*x) if star else func(x)))
            except Exception as ex:
                out.append((False, ex))
        try:
            conn.send(out)
        except Exception as ex:
            conn.send([(False, RuntimeError(str(ex)))] * len(items))


class ScheduledPool:
    """real worker processes that finish in a given order"""

    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        import multiprocessing
        n = 4 if processes is None else processes
        if n < 1:
            raise ValueError("Number of processes must be at least 1")
        if initializer is not None and not callable(initializer):
            raise TypeError("initializer must be a callable")
        mp = multiprocessing.get_context("fork")
        self.n, self.state, self.w = n, "RUN", []
        for _ in range(min(n, 8)):
            a, b = mp.Pipe()
            p = mp.Process(target=_worker, args=(b, initializer, initargs),
                           daemon=True)
            p.start()
            b.close()
            self.w.append((p, a))

    def _run(self, func, it, chunksize, star=False):
        if self.state != "RUN":
            raise ValueError("Pool not running")
        items = list(it)
        chunks = [list(enumerate(items))[i:i + chunksize]
                  for i in range(0, len(items), chunksize)]
        rest, order = list(range(len(chunks))), []
        while rest:
            order.append(rest.pop(_step(len(rest))))
        res = {}
        for c in order:
            _, conn = self.w[_step(len(self.w)) if SCHED["workers"] else
                             c % len(self.w)]
            conn.send((func, [x for _, x in chunks[c]], star))
            for (i, _), r in zip(chunks[c], conn.recv()):
                res[i] = r
        return res, [i for c in order for i, _ in chunks[c]]

    @staticmethod
    def _vals(res, seq):
        for i in seq:
            ok, v = res[i]
            if not ok:
                raise v
            yield v

    def imap(self, func, iterable, chunksize=1):
        if chunksize < 1:
            raise ValueError("Chunksize must be 1+")
        res, _ = self._run(func, iterable, chunksize)
        return self._vals(res, sorted(res))

    def imap_unordered(self, func, iterable, chunksize=1):
        if chunksize < 1:
            raise ValueError("Chunksize must be 1+")
        res, seq = self._run(func, iterable, chunksize)
        return self._vals(res, seq)

    def map(self, func, iterable, chunksize=None, star=False):
        items = list(iterable)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            chunksize += bool(extra)
        res, _ = self._run(func, items, max(1, chunksize), star)
        return list(self._vals(res, sorted(res)))

    def starmap(self, func, iterable, chunksize=None):
        return self.map(func, iterable, chunksize, True)

    def apply(self, func, args=(), kwds={}):
        import functools
        res, _ = self._run(functools.partial(func, **kwds), [tuple(args)], 1, True)
        return list(self._vals(res, [0]))[0]

    def close(self):
        self.state = "CLOSE" if self.state == "RUN" else self.state

    def terminate(self):
        self.state = "TERMINATE"
        for p, a in self.w:
            p.terminate()

    def join(self):
        if self.state == "RUN":
            raise ValueError("Pool is still running")
        for p, a in self.w:
            try:
                a.send(None)
            except OSError:
                pass
            p.join()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def _clock():
    return CLOCK["fn"]() if CLOCK["fn"] else _real_time()


class ConCtx(Common):
    sym = False
    np = np

    def __init__(self, inputs, root):
        self.inp, self.root = inputs, root
        self.out = io.StringIO()

    # inputs a path did not reach before the encoding ended are made up here
    def _arr(self, name, shape, mk, dtype):
        if name not in self.inp:
            shape = (shape,) if isinstance(shape, int) else tuple(shape)
            n = int(np.prod(shape))
            return np.array([mk() for _ in range(n)]).astype(dtype).reshape(shape)
        x = self.inp[name]
        return np.array(x["data"], dtype=np.dtype(x["dtype"])).reshape(x["shape"])

    def _one(self, name, mk):
        return self.inp[name]["value"] if name in self.inp else mk()

    def bools(self, name, shape, dtype=bool):
        return self._arr(name, shape, lambda: RND.randint(0, 1), dtype)

    def ints(self, name, shape, lo, hi, dtype=np.int64):
        return self._arr(name, shape, lambda: RND.randint(lo, hi), dtype)

    def oneof(self, name, shape, values, dtype):
        return self._arr(name, shape, lambda: RND.choice(list(values)), dtype)

    def reals(self, name, shape, lo, hi):
        return self._arr(name, shape, lambda: RND.uniform(lo, hi), np.float64)

    def int(self, name, lo, hi):
        return self._one(name, lambda: RND.randint(lo, hi))

    def bool(self, name):
        return self._one(name, lambda: bool(RND.randint(0, 1)))

    def real(self, name, lo=None, hi=None):
        return float(self._one(name, lambda: RND.uniform(
            -100 if lo is None else lo, 100 if hi is None else hi)))

    def choice(self, name, tuples):
        return tuple(tuples[self._one(name, lambda: RND.randrange(len(tuples)))])

    def value(self, name, values):
        return self._one(name, lambda: RND.choice(list(values)))

    def pick(self, name, options):
        options = list(options)
        if name not in self.inp:
            return RND.choice(options)
        return options[self.inp[name]["pick"]]

    def And(self, *xs):
        return all(bool(np.all(x)) for x in xs)

    def Or(self, *xs):
        return any(bool(np.all(x)) for x in xs)

    def Not(self, x):
        return not bool(np.all(x))

    def Implies(self, a, b):
        return (not bool(np.all(a))) or bool(np.all(b))

    def Iff(self, a, b):
        return bool(np.all(a)) == bool(np.all(b))

    def If(self, c, a, b):
        return a if bool(np.all(c)) else b

    def same(self, a, b):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(a == b))

    def close(self, a, b, tol=1e-9):
        a, b = np.asarray(a), np.asarray(b)
        return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol))

    def eq(self, a, b, tol=1e-9):
        return bool(abs(a - b) <= tol)

    def sum(self, xs):
        t = 0
        for x in xs:
            t = t + x
        return t

    def truth(self, x):
        return bool(np.all(x))

    def fork(self, x):
        return x

    def judge(self, fn, *a):
        return fn(*a)

    def pure(self, fn, *a, **k):
        return fn(*a, **k)

    def check(self, cond, label):
        if not bool(np.all(cond)):
            raise CheckFailed(label)

    def assume(self, cond):
        if not bool(np.all(cond)):
            raise Assumed()

    def raises(self, fn, *excs):
        try:
            fn()
        except (CheckFailed, Assumed):
            raise
        except excs or (Exception,) as ex:
            return ex
        return None

    def mod(self, name):
        return importlib.import_module(name)

    def argv(self, args):
        sys.argv = ["prog"] + list(args)

    def script(self, rel):
        import runpy
        from .native import REPO
        runpy.run_path(os.path.join(REPO, rel), run_name="__main__")

    # files
    def mkdir(self, rel):
        os.makedirs(self.path(rel), exist_ok=True)

    def _parent(self, rel):
        os.makedirs(os.path.dirname(self.path(rel)), exist_ok=True)

    def write_text(self, rel, s):
        self._parent(rel)
        with open(self.path(rel), "w") as f:
            f.write(s)
        return self.path(rel)

    def write_image(self, rel, a):
        from PIL import Image
        self._parent(rel)
        Image.fromarray(np.asarray(a)).save(self.path(rel))
        return self.path(rel)

    def write_npy(self, rel, a):
        self._parent(rel)
        np.save(self.path(rel), np.asarray(a))
        return self.path(rel)

    def write_bsds(self, rel, arrs):
        from scipy.io import savemat
        self._parent(rel)
        cell = np.empty((1, len(arrs)), dtype=object)
        for i, a in enumerate(arrs):
            cell[0, i] = {"Boundaries": np.asarray(a).astype(np.uint8)}
        savemat(self.path(rel), {"groundTruth": cell})
        return self.path(rel)

    def write_mat(self, rel, build):
        from scipy.io import savemat
        self._parent(rel)
        savemat(self.path(rel), build)
        return self.path(rel)

    def write_mat_names(self, rel, key, names):
        from scipy.io import savemat
        self._parent(rel)
        c = np.empty((len(names), 1), dtype=object)
        for i, n in enumerate(names):
            c[i, 0] = n
        savemat(self.path(rel), {key: c})

    def write_sbd(self, rel, kind, seg, cats, nb, bdry=None):
        from scipy.io import savemat
        from scipy.sparse import csc_matrix
        self._parent(rel)
        seg = np.asarray(seg)
        b = np.empty((nb, 1), dtype=object)
        for i in range(nb):
            b[i, 0] = csc_matrix(sbd_bdry(i, seg.shape) if bdry is None else
                                 np.asarray(bdry[i]))
        n = "CategoriesPresent" if kind == "cls" else "Categories"
        f = {"Boundaries": b, "Segmentation": seg,
             n: np.array(list(cats), np.uint8).reshape(-1, 1)}
        if kind == "inst":
            f = {k: f[k] for k in ("Segmentation", "Boundaries", n)}
        savemat(self.path(rel), {"GT" + kind: f})
        return self.path(rel)

    def read_image(self, rel):
        from PIL import Image
        return np.array(Image.open(self.path(rel)))

    def read_text(self, rel):
        with open(self.path(rel)) as f:
            return f.read()

    def read_bin(self, rel, dtype):
        return np.fromfile(self.path(rel), dtype=dtype)

    def exists(self, rel):
        return os.path.exists(self.path(rel))

    def files(self, rel=""):
        out = []
        top = self.path(rel)
        for d, _, fs in os.walk(top):
            for f in fs:
                out.append(os.path.relpath(os.path.join(d, f), top))
        return sorted(out)

    def field_is(self, field, value, n=6):
        return field == format(value, f".{n}f")

    def number(self, field):
        return float(field)

    def runs(self, text):
        import itertools
        return [(c, len(list(g))) for c, g in itertools.groupby(text)]

    def log_text(self):
        return self.out.getvalue()

    def native_calls(self):
        return NATIVE

    def figures(self):
        import matplotlib.colors
        out = []
        for f in FIGS:
            a = f.gca()
            ls = list(a.get_lines())
            out.append(dict(
                lines=[dict(x=list(np.atleast_1d(q.get_xdata())),
                            y=list(np.atleast_1d(q.get_ydata())),
                            color=list(np.asarray(q.get_color(), float)) if not
                            isinstance(q.get_color(), str) else
                            list(matplotlib.colors.to_rgba(q.get_color())),
                            width=q.get_linewidth(), marker=None
                            if q.get_marker() in (None, "None") else q.get_marker())
                       for q in ls],
                keys=[(ls.index(h), t) for h, t in f.legend_keys],
                labels=(a.get_xlabel(), a.get_ylabel()), events=f.seen))
        return out

    def replace_nms(self, fn):
        HOOK["nms"] = fn

    def trim(self, x, tiny=1e-12):
        return x

    def tangents(self, x):
        import math
        return [(True, math.tan(x), 1.0)]

    def set_clock(self, fn):
        CLOCK["fn"] = lambda: float(fn())

    def set_term(self, fn):
        TERM["fn"] = fn

    def schedule(self, mode):
        """'any' (or 'order', with fixed workers): pools follow the schedule of the counterexample"""
        SCHED["trace"] = None
        SCHED["workers"] = mode == "any"
        if mode in ("any", "order") and "__schedule__" in self.inp:
            SCHED["trace"] = list(self.inp["__schedule__"]["trace"])

    # native code
    draws = []

    def _stream(self, so):
        """the random numbers of the counterexample"""
        import ctypes
        so.symex_erand48.restype = ctypes.c_double
        ctypes.c_int.in_dll(so, "symex_on").value = 1
        ctypes.c_int.in_dll(so, "symex_i").value = 0
        ctypes.c_int.in_dll(so, "symex_n").value = len(self.draws)
        ctypes.c_ulonglong.in_dll(so, "symex_state").value = 1
        a = (ctypes.c_double * 65536).in_dll(so, "symex_stream")
        for i, x in enumerate(self.draws):
            a[i] = x

    def stream(self, n):
        self.draws = []
        for i in range(n):
            if f"u{i}" in self.inp:
                self.draws.append(min(float(self.inp[f"u{i}"]["value"]),
                                      1 - 2.0 ** -48))
            else:
                self.draws.append(RND.random())

    def direction(self, name, sides=32):
        import math
        a = math.atan2(self.real(name + "_s", -1, 1), self.real(name + "_c", -1, 1))
        return math.cos(a), math.sin(a), a

    def _memcheck(self, *parts):
        from . import native
        t = [parts[0], str(len(self.draws))] + [repr(float(x)) for x in self.draws]
        for p in parts[1:]:
            t += [repr(float(x)) if isinstance(x, float) else str(int(x))
                  for x in p]
        e = native.memcheck(" ".join(t) + "\n")
        if e:
            raise MemoryFault(e)

    def native(self, name):
        import ctypes
        m = sys.modules["pyEdgeEval._lib." + name]
        f = getattr(m, name)
        started = []

        def fl(a):
            return [float(x) for x in np.asarray(a, np.float64).ravel(order="F")]

        def call(*a, **k):
            if not started:
                self._stream(ctypes.CDLL(m.__file__))
                started.append(1)
            if name == "nms" and len(a) >= 2 and a[0].shape == a[1].shape \
                    and a[0].ndim == 2:
                q = dict(zip(("r", "s", "m"), (1, 5, 1.01)))
                q.update(zip(("r", "s", "m"), a[2:]))
                q.update(k)
                self._memcheck("benms", list(a[0].shape) + [int(q["r"]), int(q["s"])],
                               [float(np.float32(q["m"]))], fl(a[0]), fl(a[1]))
            elif name == "correspond_pixels" and len(a) >= 2 \
                    and a[0].shape == a[1].shape and a[0].ndim == 2:
                q = dict(max_dist=0.0075, outlier_cost=100.0)
                q.update(zip(("max_dist", "outlier_cost"), a[2:]))
                q.update(k)
                if q["max_dist"] > 0 and q["outlier_cost"] > 1:
                    d = q["max_dist"] * float(np.hypot(*a[0].shape))
                    self._memcheck("match", list(a[0].shape),
                                   [float(d), float(q["outlier_cost"] * d)],
                                   fl(a[0]), fl(a[1]))
            return f(*a, **k)
        return call

    def _shim(self):
        import ctypes
        from . import native
        so = ctypes.CDLL(os.path.join(native.build(), "libshim.so"))
        self._stream(so)
        return so

    def kofn(self, k, n):
        import ctypes
        self._memcheck("kofn", [k, n])
        so = self._shim()
        a = (ctypes.c_int * (k + 16))(*([-77] * (k + 16)))
        so.shim_kofn(k, n, ctypes.byref(a, 32))
        if any(a[i] != -77 for i in list(range(8)) + list(range(k + 8, k + 16))):
            raise MemoryFault("write outside the output array")
        return [a[i + 8] for i in range(k)]

    def csa(self, n, graph):
        import ctypes
        flat = [int(x) for e in graph for x in e]
        self._memcheck("csa", [n, len(graph)], flat)
        so = self._shim()
        g = (ctypes.c_int * len(flat))(*flat)
        o = (ctypes.c_int * (3 * n))()
        k = so.shim_csa(n, len(graph), g, o)
        return k, [tuple(o[3 * i + j] for j in range(3)) for i in range(n)]

    def printed(self):
        return self.out.getvalue().split("\n")

    def force_native(self):
        pass


FIGS = []


def _watch_figures():
    """record figures, what their legends refer to, when they are saved and shown"""
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    from matplotlib.axes import Axes
    mk, save, legend = plt.figure, Figure.savefig, Axes.legend

    def figure(*a, **k):
        f = mk(*a, **k)
        if f not in FIGS:
            FIGS.append(f)
            f.seen, f.legend_keys = [], []
        return f

    def savefig(self, fname, *a, **k):
        self.seen.append(("save", str(fname)))
        return save(self, fname, *a, **k)

    def show(*a, **k):
        if FIGS:
            FIGS[-1].seen.append(("show",))

    def leg(self, *a, **k):
        r = legend(self, *a, **k)
        h = k.get("handles", a[0] if len(a) == 2 else None)
        if h is None:
            h = [q for q in self.get_lines() if a or not q.get_label().startswith("_")]
        self.figure.legend_keys = list(zip(h, [t.get_text() for t in r.get_texts()]))
        return r
    plt.figure, Figure.savefig, plt.show, Axes.legend = figure, savefig, show, leg


def _install(overlay):
    _watch_figures()
    sys.path.insert(0, overlay)
    _time.time = _clock
    rts = shutil.get_terminal_size

    def gts(fallback=(80, 24)):
        if TERM["fn"]:
            t = TERM["fn"]() if callable(TERM["fn"]) else TERM["fn"]
            return os.terminal_size(t)
        return rts(fallback)
    shutil.get_terminal_size = gts
    import multiprocessing
    import multiprocessing.pool
    import multiprocessing.context
    real = multiprocessing.Pool

    def pool(*a, **k):
        return (real if SCHED["trace"] is None else ScheduledPool)(*a, **k)
    multiprocessing.Pool = pool
    real2 = multiprocessing.context.BaseContext.Pool

    def pool2(self, *a, **k):
        if SCHED["trace"] is None:
            return real2(self, *a, **k)
        return ScheduledPool(*a, **k)
    multiprocessing.context.BaseContext.Pool = pool2
    from . import native
    import types
    # the native functions, recorded
    import importlib.util
    import sysconfig
    ext = sysconfig.get_config_var("EXT_SUFFIX")
    for n in ("correspond_pixels", "nms"):
        so = os.path.join(overlay, "pyEdgeEval/_lib", n + ext)
        spec = importlib.util.spec_from_file_location("pyEdgeEval._lib." + n, so)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        f = getattr(m, n)

        def wrap(*a, _f=f, _n=n, **k):
            rec = dict(fn=_n, **{q: v for q, v in k.items()})
            if _n == "correspond_pixels":
                names = ("img0", "img1", "max_dist", "outlier_cost")
            else:
                names = ("edge", "ori", "r", "s", "m")
            for q, v in zip(names, a):
                rec[q] = v
            if _n == "correspond_pixels":
                rec.setdefault("max_dist", 0.0075)
                rec.setdefault("outlier_cost", 100.0)
            NATIVE.append(rec)
            if _n == "nms" and HOOK["nms"] is not None:
                return HOOK["nms"](rec["edge"], rec["ori"], rec.get("r", 1),
                                   rec.get("s", 5), rec.get("m", 1.01))
            return _f(*a, **k)
        wrap.__name__ = n
        setattr(m, n, wrap)
        sys.modules["pyEdgeEval._lib." + n] = m


def run_one(cases, req, wfd):
    import warnings
    warnings.simplefilter("ignore")
    root = tempfile.mkdtemp(prefix="symex_run_")
    res = {"status": "exc", "label": "no result"}
    try:
        os.chdir(root)
        os.environ["HOME"] = root
        ctx = ConCtx(req["inputs"], root)
        sys.stdout = ctx.out
        log = logging.getLogger("pyEdgeEval")
        log.addHandler(logging.StreamHandler(ctx.out))
        RND.seed(json.dumps(req["inputs"], sort_keys=True))
        case = cases[req["case"]]
        try:
            case.fn(ctx, **case.params)
            res = {"status": "ok"}
        except CheckFailed as ex:
            res = {"status": "fail", "label": str(ex)}
        except Assumed:
            res = {"status": "assume"}
        except Exception as ex:
            res = {"status": "exc", "label": f"{type(ex).__name__}: {ex}",
                   "trace": traceback.format_exc()[-2500:]}
    finally:
        os.chdir("/")
        shutil.rmtree(root, ignore_errors=True)
    os.write(wfd, (json.dumps(res) + "\n").encode())


def load_cases(prop, tier):
    m = importlib.import_module("checks." + prop)
    return {c.name: c for c in m.cases(tier)}


def serve(prop, tier, overlay, timeout=100):
    sys.dont_write_bytecode = True
    os.environ["MPLBACKEND"] = "Agg"
    out = os.fdopen(os.dup(1), "w")
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    _install(overlay)
    import cv2
    cv2.setNumThreads(1)
    cases = load_cases(prop, tier)
    try:
        import pyEdgeEval
        import pyEdgeEval.evaluators, pyEdgeEval.edge_tools, pyEdgeEval.preprocess
    except Exception:
        pass
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                os.setsid()
                signal.alarm(timeout)
                run_one(cases, req, w)
            finally:
                os._exit(0)
        os.close(w)
        t0 = _real_time()
        buf = b""
        import select
        while True:
            rd, _, _ = select.select([r], [], [], 1.0)
            if rd:
                x = os.read(r, 65536)
                if not x:
                    break
                buf += x
                if buf.endswith(b"\n"):
                    break
            if _real_time() - t0 > timeout + 5:
                break
        os.close(r)
        timed = _real_time() - t0 > timeout
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        _, st = os.waitpid(pid, 0)
        if buf:
            res = json.loads(buf.decode().strip().split("\n")[-1])
        elif timed or os.WIFSIGNALED(st) and os.WTERMSIG(st) == signal.SIGALRM:
            res = {"status": "timeout"}
        else:
            res = {"status": "crash", "label": f"wait status {st}"}
        out.write(json.dumps(res) + "\n")
        out.flush()


def make_overlay(dst):
    """Python of the current tree plus freshly built extensions"""
    from . import native
    src = os.path.join(native.REPO, "pyEdgeEval")
    shutil.copytree(src, os.path.join(dst, "pyEdgeEval"),
                    ignore=lambda d, ns: [n for n in ns if n.endswith(
                        (".so", ".cpp", ".pyc")) or n == "__pycache__"])
    for n in ("scripts",):
        p = os.path.join(native.REPO, n)
        if os.path.isdir(p):
            shutil.copytree(p, os.path.join(dst, n))
    b = native.build()
    for f in os.listdir(b):
        if f.endswith(".so"):
            shutil.copy(os.path.join(b, f), os.path.join(dst, "pyEdgeEval/_lib", f))
    return dst


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        # stand-alone replay of a violation file
        rec = json.load(open(sys.argv[2]))
        d = tempfile.mkdtemp(prefix="symex_ov_")
        try:
            make_overlay(d)
            _install(d)
            cases = load_cases(rec["property"], rec.get("tier", "quick"))
            r, w = os.pipe()
            run_one(cases, rec, w)
            sys.stdout = sys.__stdout__
            print(os.read(r, 1 << 20).decode())
        finally:
            shutil.rmtree(d, ignore_errors=True)
    else:
        serve(sys.argv[1], sys.argv[2], sys.argv[3])
