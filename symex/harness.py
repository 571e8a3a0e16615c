"""Symbolic side of a harness: inputs, assertions, path-end queries, replay."""
import itertools
import json
import os
import re
import time
import traceback

import numpy as np
import z3

from . import core, stubs
from .arr import (find_ite, mkR, SymArray, SymScalar, MaskSel, asarray, cast, cmp, concrete,
                  from_real, has_sym, operand, typed, wrap_scalar)
from .core import (B, I, R, T, Budget, Engine, EngineLimit, PathEnd, band, bnot, bor,
                   eng, is_bool, is_sym, ite, mkB, mkT, to_bool)
from .loader import World
from .npx import NP
from .harness_common import Common

PROG = None
STRICT = bool(os.environ.get("SYMEX_STRICT"))


BAD = ("fail", "exc", "crash", "timeout")


class Found(Exception):
    """enough violations"""


def form(x):
    """formula of a condition (arrays: every element)"""
    if isinstance(x, (SymArray, MaskSel)):
        x = asarray(x)
        return band(*[to_bool(v) for v in x.o.flat])
    if isinstance(x, SymScalar):
        return to_bool(x.v)
    if isinstance(x, np.ndarray):
        return bool(x.all())
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, z3.BoolRef):
        return x
    return bool(x)


class SymCtx(Common):
    sym = True
    np = NP
    root = "/v"

    def __init__(self, engine, world):
        self.E, self.world = engine, world
        self.inputs = []          # (name, kind, value)
        self.pending = []         # (label, formula)
        self.names = set()

    # ---------------------------------------------------------- inputs
    def _reg(self, name, kind, val, dtype=None):
        if name in self.names:
            raise RuntimeError(f"input {name} twice")
        self.names.add(name)
        self.inputs.append((name, kind, val, dtype))

    def _arr(self, name, shape, mk, dtype):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        o = np.empty(shape, dtype=object)
        for ix in np.ndindex(*shape):
            o[ix] = mk(name + "".join(f"_{i}" for i in ix))
        a = SymArray(o, np.dtype(dtype))
        self._reg(name, "array", a.copy(), np.dtype(dtype))
        return a

    def bools(self, name, shape, dtype=bool):
        d = np.dtype(dtype)

        def mk(n):
            b = B(z3.Bool(n))
            return cast(b, d)
        return self._arr(name, shape, mk, d)

    def ints(self, name, shape, lo, hi, dtype=np.int64):
        def mk(n):
            e = z3.Int(n)
            self.E.add(z3.And(e >= lo, e <= hi))
            return I(e=e, lo=lo, hi=hi)
        return self._arr(name, shape, mk, dtype)

    def oneof(self, name, shape, values, dtype):
        """array whose elements come from a finite list of values"""
        d = np.dtype(dtype)
        vals = [core_norm(d.type(v)) for v in values]

        def mk(n):
            e = z3.Int(n)
            self.E.add(z3.And(e >= 0, e < len(vals)))
            k = I(e=e, lo=0, hi=len(vals) - 1)
            if len(vals) == 1:
                return vals[0]
            if len(vals) == 2:
                b = z3.Bool(n + "_b")
                return ite(b, vals[1], vals[0])
            if all(isinstance(v, int) for v in vals) and vals == list(
                    range(vals[0], vals[0] + len(vals))):
                e2 = z3.Int(n + "_v")
                self.E.add(z3.And(e2 >= vals[0], e2 <= vals[-1]))
                return I(e=e2, lo=vals[0], hi=vals[-1])
            return T(vals, key=k, keys=list(range(len(vals))))
        return self._arr(name, shape, mk, d)

    def reals(self, name, shape, lo, hi):
        def mk(n):
            e = z3.Real(n)
            self.E.add(z3.And(e >= core.rval(lo), e <= core.rval(hi)))
            return R(e)
        return self._arr(name, shape, mk, np.float64)

    def int(self, name, lo, hi):
        e = z3.Int(name)
        self.E.add(z3.And(e >= lo, e <= hi))
        s = SymScalar(I(e=e, lo=lo, hi=hi), None)
        self._reg(name, "scalar", s)
        return s

    def bool(self, name):
        s = SymScalar(B(z3.Bool(name)), None)
        self._reg(name, "scalar", s)
        return s

    def real(self, name, lo=None, hi=None):
        e = z3.Real(name)
        if lo is not None:
            self.E.add(e >= core.rval(lo))
        if hi is not None:
            self.E.add(e <= core.rval(hi))
        s = SymScalar(R(e), None)
        self._reg(name, "scalar", s)
        return s

    def choice(self, name, tuples):
        """a tuple out of a finite list; its components share one key"""
        e = z3.Int(name)
        self.E.add(z3.And(e >= 0, e < len(tuples)))
        k = I(e=e, lo=0, hi=len(tuples) - 1)
        self._reg(name, "scalar", SymScalar(k, None))
        ks = list(range(len(tuples)))
        if len(tuples) == 1:
            return tuple(tuples[0])
        return tuple(
            col[0] if len(set(col)) == 1 else
            wrap_scalar(T(list(col), key=k, keys=ks), None)
            for col in zip(*tuples))

    def value(self, name, values):
        """scalar from a finite list of numbers (not forked)"""
        e = z3.Int(name + "_k")
        self.E.add(z3.And(e >= 0, e < len(values)))
        k = I(e=e, lo=0, hi=len(values) - 1)
        s = wrap_scalar(T(list(values), key=k, keys=list(range(len(values)))), None)
        self._reg(name, "scalar", s)
        return s

    def pick(self, name, options):
        """one of several Python objects: the path forks"""
        options = list(options)
        k = self.E.choose(len(options), name)
        self._reg(name, "pick", k)
        return options[k]

    # ---------------------------------------------------------- logic
    def And(self, *xs):
        return wrap_scalar(mkB(band(*[form(x) for x in xs])), None)

    def Or(self, *xs):
        return wrap_scalar(mkB(bor(*[form(x) for x in xs])), None)

    def Not(self, x):
        return wrap_scalar(mkB(bnot(form(x))), None)

    def Implies(self, a, b):
        return wrap_scalar(mkB(bor(bnot(form(a)), form(b))), None)

    def Iff(self, a, b):
        return wrap_scalar(mkB(core.beq(form(a), form(b))), None)

    def If(self, c, a, b):
        f = form(c)
        if is_bool(f):
            return a if f else b
        if isinstance(a, SymArray) or isinstance(b, SymArray):
            return NP.where(SymScalar(B(f), None), a, b)
        av, ad, _ = operand(a)
        bv, bd, _ = operand(b)
        return wrap_scalar(ite(f, av, bv), ad if ad == bd else (ad or bd))

    def same(self, a, b):
        """same shape and equal elements"""
        a, b = asarray(a), asarray(b)
        if a.shape != b.shape:
            return False
        return self.And(a == b) if a.size else True

    def close(self, a, b, tol=1e-9):
        a, b = asarray(a), asarray(b)
        if a.shape != b.shape:
            return False
        return self.And(abs(a - b) <= tol) if a.size else True

    def eq(self, a, b, tol=1e-9):
        """equal in exact arithmetic (up to tol on the real code)"""
        return a == b

    def sum(self, xs):
        t = 0
        for x in xs:
            t = t + x
        return t

    def truth(self, x):
        return wrap_scalar(mkB(form(x)), None)

    def judge(self, fn, *a):
        """fn (plain Python on real values, returns a bool) as a formula over the
        finitely many values of a"""
        from . import loader
        if not loader.deep_issym(a):
            return bool(fn(*loader._subst(list(a), {})))
        lv = {}
        if not loader._leaves(a, lv):
            raise EngineLimit("judge: values without a finite table")
        ts = []
        for q, (t, dom) in lv.items():
            if not isinstance(t, T):
                t = core.keyed(t)
            if t is None or not isinstance(t, T) or t.dims is None:
                raise EngineLimit("judge: values without a common table")
            ts.append(t)
        keys = list(lv)
        r = core.joint(lambda *v: bool(fn(*loader._subst(list(a), dict(
            zip(keys, v))))), *ts)
        if r is None:
            raise EngineLimit("judge: table too large")
        if isinstance(r, T):
            return wrap_scalar(mkB(r.select(lambda x: x)), None)
        return bool(r)

    def pure(self, fn, *a, **k):
        """fn (a plain function on real arrays) over every value of a, k"""
        from .loader import ForeignFn
        return ForeignFn(fn, pure=True)(*a, **k)

    def fork(self, x):
        """concrete value of x on this path"""
        return concrete(x)

    # ---------------------------------------------------------- assertions
    def check(self, cond, label):
        E = self.E
        E.stats.asserts += 1
        E.stats.assert_sites[label] = E.stats.assert_sites.get(label, 0) + 1
        f = form(cond)
        if f is True:
            return
        self.pending.append((label, f))
        if f is False:
            self.flush()
            raise PathEnd()

    def assume(self, cond):
        f = form(cond)
        self.flush()
        if f is True:
            return
        self.E.add(f)
        if self.E.check() == z3.unsat:
            raise PathEnd()

    def flush(self):
        if not self.pending:
            return
        E = self.E
        fs, self.pending = self.pending, []
        goal = bor(*[bnot(f) for _, f in fs])
        if goal is False:
            return
        g = core.zb(goal)
        r = E.check(g)
        if r != z3.unsat and E.defs:
            E.tick()
            if r == z3.sat and self.runner.quick_tries < 6:
                # a model that leaves quotients free: already wrong for real?
                self.runner.quick_tries += 1
                inputs = self.extract(E.solver.model())
                rep = self.runner.replayer(self.runner.case.name, inputs)
                if rep["status"] in BAD:
                    self.runner.violations.append(dict(
                        property=self.runner.prop, case=self.runner.case.name,
                        labels=[l for l, _ in fs], inputs=inputs,
                        symbolic_exception=None, replay=rep))
                    raise PathEnd()
            s = z3.Solver()
            s.set("timeout", E.timeout_ms)
            s.add(*E.path)
            s.add(*E.defs)
            s.add(g)
            t = time.time()
            r = s.check()
            E.stats.queries += 1
            E.stats.solver_s += time.time() - t
            if r == z3.unknown:
                E.stats.unknown += 1
            m = s.model() if r == z3.sat else None
        else:
            m = E.solver.model() if r == z3.sat else None
        if r == z3.unsat:
            return
        if r == z3.unknown:
            # try the assertions one by one
            if len(fs) > 1:
                for lf in fs:
                    self.pending = [lf]
                    self.flush()
                return
            E.stats.limits["unknown: " + fs[0][0]] = E.stats.limits.get(
                "unknown: " + fs[0][0], 0) + 1
            self.runner.incomplete = True
            return
        bad = [l for l, f in fs if not z3.is_true(
            m.eval(core.zb(f), model_completion=True))]
        inputs = self.extract(m)
        if self.runner.candidate(self, bad, inputs, None):
            raise PathEnd()
        # not reproduced: keep going with the others
        if len(fs) > 1:
            for lf in fs:
                self.pending = [lf]
                self.flush()
        return

    def raises(self, fn, *excs):
        """exception of one of the types raised by fn(), else None"""
        try:
            fn()
        except excs or (Exception,) as ex:
            return ex
        return None

    # ---------------------------------------------------------- models
    def extract(self, m):
        out = {}
        for name, kind, v, d in self.inputs:
            if kind == "pick":
                out[name] = {"pick": v}
            elif kind == "array":
                data = [enc(ev(m, x)) for x in v.o.ravel()]
                out[name] = {"dtype": str(d), "shape": list(v.shape), "data": data}
            else:
                out[name] = {"value": enc(ev(m, v.v))}
        if self.world.sched_trace:
            out["__schedule__"] = {"trace": list(self.world.sched_trace)}
        return out

    def mod(self, name):
        return self.world.mod(name)

    def argv(self, args):
        self.world.stubs["sys"].argv = ["prog"] + list(args)

    def script(self, rel):
        self.world.script(rel)

    # ---------------------------------------------------------- files
    def mkdir(self, rel):
        self.world.fs.makedirs(self.path(rel), exist_ok=True)

    def _parent(self, rel):
        d = os.path.dirname(self.path(rel))
        self.world.fs.makedirs(d, exist_ok=True)

    def write_text(self, rel, s):
        self._parent(rel)
        self.world.fs.put(self.path(rel), stubs.TextNode(s))
        return self.path(rel)

    def write_image(self, rel, a):
        """saved losslessly; read back with the same type"""
        self._parent(rel)
        stubs.img_fromarray(asarray(a)).save(self.path(rel))
        return self.path(rel)

    def write_npy(self, rel, a):
        self._parent(rel)
        stubs.np_save(self.path(rel), asarray(a))
        return self.path(rel)

    def write_bsds(self, rel, arrs):
        self._parent(rel)
        self.world.fs.put(self.path(rel), stubs.MatNode("bsds", [
            asarray(a).copy() for a in arrs]))
        return self.path(rel)

    def write_mat(self, rel, build):
        """build(wrap) -> the dict loadmat returns (see checks)"""
        self._parent(rel)
        self.world.fs.put(self.path(rel), stubs.MatNode("raw", build))
        return self.path(rel)

    def write_sbd(self, rel, kind, seg, cats, nb, bdry=None):
        """an SBD .mat file: kind 'cls' or 'inst', nb (meaningless) boundary maps,
        or the given ones"""
        self._parent(rel)
        self.world.fs.put(self.path(rel), stubs.sbd_node(
            kind, asarray(seg).copy(), list(cats), nb, bdry))
        return self.path(rel)

    def write_mat_names(self, rel, key, names):
        self._parent(rel)
        self.world.fs.put(self.path(rel), stubs.names_node(key, list(names)))

    def read_image(self, rel):
        return stubs.img_open(self.path(rel))._sym_array()

    def read_text(self, rel):
        n = self.world.fs.get(self.path(rel))
        return n.text

    def read_bin(self, rel, dtype):
        n = self.world.fs.get(self.path(rel))
        return n.a.reshape(-1).astype(dtype) if n.a.dt == np.dtype(dtype) \
            else n.a.reshape(-1).view(dtype)

    def exists(self, rel):
        return self.world.fs.exists(self.path(rel))

    def files(self, rel=""):
        pre = self.path(rel).rstrip("/") + "/"
        return sorted(x[len(pre):] for x in self.world.fs.files if x.startswith(pre))

    def field_is(self, field, value, n=6):
        """a printed field shows value to n decimals"""
        m = stubs.TOK.fullmatch(field)
        if not m:
            if stubs.TOK.search(field):
                return False
            if has_sym(value):
                try:
                    x = float(field)
                except ValueError:
                    return False
                if "." not in field or len(field.split(".")[1]) != n:
                    return False
                return abs(value - x) <= 0.5 * 10.0 ** -n
            return field == format(value, f".{n}f")
        v, spec = self.E.tokens[int(m.group(1))]
        if not spec.endswith(f".{n}f"):
            return False
        return self.truth(v == value)

    def runs(self, text):
        """equal neighbouring characters of a text: [(character, how many)]"""
        out = []
        for m in re.finditer(stubs.TOK.pattern + "|.", text, re.S):
            if m.group(0)[0] == "\u27e6":
                v, spec = self.E.tokens[int(m.group(1))]
                if not isinstance(spec, tuple):
                    raise EngineLimit("runs of a number")
                c, k = spec[1], self.If(v > 0, v, 0)
            else:
                c, k = m.group(0), 1
            if out and out[-1][0] == c:
                k = out.pop()[1] + k
            out.append((c, k))
        return out

    def number(self, field):
        """value of a printed field"""
        r = stubs.token_value(field)
        return float(field) if r is None else r

    def log_text(self):
        """everything printed or logged"""
        return "\n".join(str(x) for x in self.world.printed)

    def native_calls(self):
        return self.world.native_calls

    def set_clock(self, fn):
        from .arr import py_float
        self.world.clock = lambda: py_float(fn())       # time.time gives plain floats

    def set_term(self, fn):
        self.world.term = fn

    def schedule(self, mode):
        """'fixed', 'any' order on any worker, 'order': any order, fixed workers"""
        self.world.sched = mode

    # ---------------------------------------------------------- native code
    free, drawn, lcg = 0, 0, 1

    def machine(self):
        """the LLVM machine with fresh memory for this path"""
        from . import llvm
        global PROG
        if self.prog is None:
            if PROG is None:
                PROG = llvm.Program()
            self.prog = PROG
            PROG.trig = self._trig
            self.angles = {}
            PROG.start(self._rand)
            self.world.loaded_files |= {x for x in llvm.native._sources()
                                        if x.endswith((".cc", ".hh"))}
        return self.prog

    prog = None

    def _rand(self):
        k = self.drawn
        self.drawn += 1
        if k < self.free:
            e = z3.Real(f"u{k}")
            self.E.add(z3.And(e >= 0, e <= core.rval(1 - 2.0 ** -48)))
            s = SymScalar(R(e), None)
            self._reg(f"u{k}", "scalar", s)
            return s
        self.lcg = (self.lcg * 0x5DEECE66D + 0xB) & ((1 << 48) - 1)
        return self.lcg / 281474976710656.0

    def stream(self, n):
        """the first n random numbers are free (the later ones fixed)"""
        self.free = n

    def _trig(self, name, x):
        import math
        if x.__class__ is float:
            return getattr(math, name)(x)
        v = x.v
        if isinstance(v, T):
            return wrap_scalar(core.tmap(v, getattr(math, name)), None)
        cs = self.angles.get(v.e.get_id()) if isinstance(v, R) else None
        if cs is None:
            raise EngineLimit(name + " of a symbolic number")
        return cs[0] if name == "cos" else cs[1]

    def direction(self, name, sides=32):
        """(cosine, sine, angle) of any direction.  Cosine and sine lie in a polygonal
        ring around the unit circle: more than the circle itself"""
        import math
        self.machine()
        c, s = self.real(name + "_c", -1, 1), self.real(name + "_s", -1, 1)
        u = [2 * math.pi * i / sides for i in range(sides)]
        side = [c * math.cos(a) + s * math.sin(a) for a in u]
        self.assume(self.And(*[z <= 1 for z in side]))
        self.assume(self.Or(*[z >= math.cos(math.pi / sides) for z in side]))
        e = z3.Real(self.E.fresh("angle"))
        self.E.keep = getattr(self.E, "keep", []) + [e]
        self.angles[e.get_id()] = (c, s)
        return c, s, SymScalar(R(e), None)

    def native(self, name):
        """the function `name` of the extension of that name, from its source"""
        from . import pyx
        P = self.machine()
        full = "pyEdgeEval._lib." + name
        m = self.world.modules.get(full)
        if m is None or not getattr(m, "__pyx__", False):
            m = pyx.load(self.world, name, P)
            m.__pyx__ = True
        return getattr(m, name)

    def kofn(self, k, n):
        from . import llvm
        P = self.machine()
        a = llvm.alloc(4 * k, "the output array")
        P.run("shim_kofn", k, n, a)
        return [llvm.load(a + 4 * i, 4, "i") for i in range(k)]

    def csa(self, n, graph):
        """edges (a, b, cost) the assignment solver picks"""
        from . import llvm
        P = self.machine()
        g = llvm.alloc(12 * len(graph), "the graph")
        for i, e in enumerate(graph):
            for j, x in enumerate(e):
                if isinstance(x, SymScalar):
                    x = SymScalar(x.v, None)
                llvm.store(g + 12 * i + 4 * j, x, 4)
        o = llvm.alloc(12 * n, "the result")
        k = P.run("shim_csa", n, len(graph), g, o)
        return k, [tuple(llvm.load(o + 12 * i + 4 * j, 4, "i") for j in range(3))
                   for i in range(n)]

    def printed(self):
        return self.world.printed

    def figures(self):
        """what was drawn: lines, legend as (line, text), events in order"""
        out = []
        for f in self.world.figures:
            a = f.gca()
            lines = [dict(x=q.x, y=q.y, color=[float(v) for v in q.kw["color"]],
                          width=q.kw.get("linewidth"), marker=q.kw.get("marker"))
                     for q in a.lines]
            at = {id(q): i for i, q in enumerate(a.lines)}
            out.append(dict(lines=lines, keys=[(at[id(q)], t) for q, t in a.keys],
                            labels=(a.labels.get("x"), a.labels.get("y")),
                            events=f.events))
        return out

    def replace_nms(self, fn):
        """fn(edge, orientation, r, s, m) stands for the library's suppression"""
        self.world.nms_hook = fn

    def trim(self, x, tiny=1e-12):
        """the polynomial x (of values up to 2) without its rounding noise"""
        if not isinstance(x, SymScalar) or not isinstance(x.v, R):
            return x
        e = z3.simplify(x.v.e, som=True, sort_sums=True)
        keep = []
        for t in (e.children() if z3.is_add(e) else [e]):
            c = t.arg(0) if z3.is_mul(t) else t
            if z3.is_rational_value(c) and abs(c.as_fraction()) < tiny:
                continue
            keep.append(t)
        return wrap_scalar(mkR(z3.Sum(keep)) if keep else 0.0, None)

    def tangents(self, x):
        """[(condition, a, b)]: the tangent of an angle the code computed is a/b"""
        import math
        v = x.v if isinstance(x, SymScalar) else x
        if not is_sym(v):
            return [(True, math.tan(v), 1.0)]
        t = self.E.tangent.get(v.e.get_id()) if isinstance(v, R) else None
        if t is None:
            raise EngineLimit("an angle of unknown tangent")
        sc = lambda e: wrap_scalar(mkR(e), None)
        out, todo = [], [([], t[1])]
        while todo:
            cs, e = todo.pop()
            e = z3.simplify(e, som=True, sort_sums=True)
            f = find_ite(e, set())
            if f is not None:
                if len(cs) > 6:
                    raise EngineLimit("an angle of many cases")
                c = f.arg(0)
                todo.append((cs + [z3.Not(c)], z3.substitute(e, (c, z3.BoolVal(False)))))
                todo.append((cs + [c], z3.substitute(e, (c, z3.BoolVal(True)))))
                continue
            g = wrap_scalar(mkB(z3.And(*cs) if cs else True), None)
            for q, a, b in self.E.divs.values():
                k = z3.simplify(z3.substitute(e, (q, core.rval(1.0))))
                if z3.is_rational_value(k):
                    if z3.is_rational_value(e):
                        continue
                    if z3.simplify(k * q - e, som=True).eq(core.rval(0.0)) or \
                            z3.is_rational_value(z3.simplify(k * q - e, som=True)):
                        out.append((g, sc(a * k), sc(b)))
                        break
            else:
                out.append((g, sc(e), 1.0))
        return out


    def force_native(self):
        """do not use the model of the correspondence below one pixel"""
        self.world.force_native = True


def core_norm(x):
    from .arr import norm
    return norm(x)


def enc(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    return float(v)


def ev(m, v):
    if not is_sym(v):
        return v
    if isinstance(v, B):
        return z3.is_true(m.eval(v.e, model_completion=True))
    if isinstance(v, I):
        return m.eval(v.e, model_completion=True).as_long()
    if isinstance(v, T):
        if v.dims is not None:
            i = 0
            for k, ks in v.dims:
                x = ev(m, k)
                i = i * len(ks) + (ks.index(x) if x in ks else 0)
            return v.vals[i]
        for x, g in zip(v.vals, v.guards):
            if z3.is_true(m.eval(core.zb(g), model_completion=True)):
                return x
        return v.vals[-1]
    r = m.eval(v.e, model_completion=True)
    if z3.is_rational_value(r):
        return float(core.fractions.Fraction(r.numerator_as_long(),
                                             r.denominator_as_long()))
    if z3.is_algebraic_value(r):
        a = r.approx(20)
        return float(core.fractions.Fraction(a.numerator_as_long(),
                                             a.denominator_as_long()))
    return float(0)


class CaseRun:
    """explores one case; replays candidates through `replayer`"""

    def __init__(self, prop, case, replayer, deadline, timeout_ms=20000,
                 validate=3):
        self.prop, self.case, self.replayer = prop, case, replayer
        self.E = Engine(timeout_ms, deadline)
        self.violations = []
        self.first = None
        self.unreproduced = []
        self.incomplete = False
        self.beyonds = 0
        self.quick_tries = 0
        self.validated = 0
        self.validate = validate
        self.samples = []
        self.files = set()
        self.world = None

    def candidate(self, ctx, labels, inputs, exc):
        r = self.replayer(self.case.name, inputs)
        if r["status"] in ("fail", "exc", "crash", "timeout"):
            self.violations.append(dict(
                property=self.prop, case=self.case.name, labels=labels,
                inputs=inputs, symbolic_exception=exc, replay=r))
            return True
        self.unreproduced.append(dict(case=self.case.name, labels=labels, exc=exc,
                                      inputs=inputs, replay=r))
        self.incomplete = True
        return False

    def run(self):
        E = self.E
        t0 = time.time()
        case = self.case

        def body():
            if case.reuse and self.world is not None:
                w = World.cur = self.world
                w.fs.files.clear()
                w.fs.dirs = {"/", w.fs.root}
                w.native_calls.clear()
                w.pools.clear()
                w.printed.clear()
            else:
                w = self.world = World()
            ctx = self.ctx = SymCtx(E, w)
            ctx.runner = self
            try:
                case.fn(ctx, **case.params)
                ctx.flush()
                self.end_of_path(ctx)
            except (PathEnd, Budget):
                raise
            except EngineLimit:
                self.beyond(ctx)
                raise
            except RecursionError:
                self.beyond(ctx)
                raise EngineLimit("recursion")
            except Exception as ex:
                ctx.flush()
                tb = traceback.format_exc()
                if E.check() != z3.sat:
                    raise PathEnd()
                inputs = ctx.extract(E.solver.model())
                msg = f"{type(ex).__name__}: {ex}"
                if not self.candidate(ctx, ["raised " + msg], inputs, tb):
                    E.stats.limits["unreproduced " + msg[:80]] = \
                        E.stats.limits.get("unreproduced " + msg[:80], 0) + 1
                E.stats.paths += 1
                raise PathEnd()
            finally:
                self.files |= w.loaded_files
            if self.violations:
                self.first = self.first or time.time()
                if len(self.violations) >= 3 or time.time() - self.first > 5:
                    raise Found()
        try:
            done, left = E.explore(body)
        except Found:
            done, left = False, 0
        if done and not E.stats.paths and not self.violations:
            E.stats.limits["no path satisfies the assumptions"] = 1
            done = False
        self.complete = done and not self.incomplete
        self.left = left
        self.wall = time.time() - t0
        if PROG is not None:
            self.extra = {"ir_functions": sorted(PROG.encoded)}
        return self

    def beyond(self, ctx):
        """the encoding ends here: decide what is pending, then run a model of
        the path so far on the real code"""
        E = self.E
        self.beyonds += 1
        if self.beyonds > 15 or not (self.beyonds < 6 or self.beyonds % 10 == 0):
            return
        try:
            ctx.flush()
            if E.check() != z3.sat:
                return
            inputs = ctx.extract(E.solver.model())
        except (PathEnd, EngineLimit):
            return
        rep = self.replayer(self.case.name, inputs)
        if rep["status"] in ("fail", "exc", "crash", "timeout"):
            self.violations.append(dict(
                property=self.prop, case=self.case.name,
                labels=["real run of a model of the encoded part of a path"],
                inputs=inputs, symbolic_exception=None, replay=rep))

    def end_of_path(self, ctx):
        """witness that the path is reachable, run on the real code"""
        E = self.E
        n = E.stats.paths
        if n >= self.validate and n % max(1, self.case.every) != 0:
            return
        if self.validated >= self.case.max_validate:
            return
        r = E.check()
        if r != z3.sat:
            return
        inputs = ctx.extract(E.solver.model())
        rep = self.replayer(self.case.name, inputs)
        self.validated += 1
        if len(self.samples) < 2:
            self.samples.append(dict(case=self.case.name, inputs=inputs,
                                     real=rep["status"]))
        if rep["status"] in ("fail", "exc", "crash", "timeout"):
            # the real code breaks the assertion on the model of a passing path
            self.violations.append(dict(
                property=self.prop, case=self.case.name,
                labels=["real run of a path model"], inputs=inputs,
                symbolic_exception=None, replay=rep))
        elif rep["status"] not in ("ok",):
            E.stats.limits["path model: " + rep["status"]] = \
                E.stats.limits.get("path model: " + rep["status"], 0) + 1
