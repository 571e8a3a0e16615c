"""Cython sources as plain Python running on the LLVM machine: C types become
conversions, Matrix objects and C++ functions become calls into the encoded IR."""
import ast
import os
import re
import types

import numpy as np

from . import core, llvm, native
from .arr import SymArray, SymScalar, asarray, py_float, py_int, wrap_scalar
from .core import B, EngineLimit, I, R, T, eng

SIMPLE = {"double": "f8", "float": "f4", "int": "i4", "long": "i8", "short": "i2",
          "unsigned": "u4", "unsigned int": "u4", "size_t": "u8", "Py_ssize_t": "i8",
          "bint": "b", "char": "i1", "long long": "i8", "unsigned char": "u1",
          "object": "o", "float64_t": "f8", "float32_t": "f4"}


# ------------------------------------------------------------ source
def logical(src):
    """(indent, text) of each logical line, comments dropped"""
    out, buf, depth, ind = [], "", 0, 0
    doc = None
    for ln in src.split("\n"):
        if doc:
            buf += "\n" + ln
            if doc in ln:
                out.append((ind, buf))
                buf, doc = "", None
            continue
        s, i, q = "", 0, None
        while i < len(ln):
            c = ln[i]
            if q:
                s += c
                if c == "\\":
                    s += ln[i + 1:i + 2]
                    i += 1
                elif c == q:
                    q = None
            elif c in "\"'":
                if ln[i:i + 3] == c * 3 and c * 3 not in ln[i + 3:]:
                    doc = c * 3
                    s += ln[i:]
                    break
                if ln[i:i + 3] == c * 3:
                    j = ln.index(c * 3, i + 3)
                    s += ln[i:j + 3]
                    i = j + 3
                    continue
                q = c
                s += c
            elif c == "#":
                break
            else:
                depth += (c in "([{") - (c in ")]}")
                s += c
            i += 1
        if not buf:
            if not s.strip():
                continue
            ind = len(s) - len(s.lstrip())
            buf = s.strip()
        else:
            buf += " " + s.strip()
        if doc:
            continue
        if buf.endswith("\\"):
            buf = buf[:-1]
            continue
        if depth <= 0:
            out.append((ind, buf.rstrip()))
            buf, depth = "", 0
    return out


def top(s, sep=","):
    out, d, cur = [], 0, ""
    for c in s:
        d += (c in "([{") - (c in ")]}")
        if c == sep and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


DECL = re.compile(r"^((?:const\s+|unsigned\s+|long\s+long|signed\s+)*[A-Za-z_][\w.]*"
                  r"(?:\s*\[[^\]]*\])?(?:\s*[&*]+)?)\s*(?<=[\s&*\]])([A-Za-z_]\w*)"
                  r"\s*(?:=(?!=)\s*(.*))?$", re.S)
CAST = re.compile(r"<\s*((?:const\s+|unsigned\s+)*[A-Za-z_][\w.]*"
                  r"(?:\s*\[(?:[^\[\]<>]|\[[^\]]*\])*\])?"
                  r"\s*\*?)\s*>(?=\s*[\w(&\-])")


def ctype(t):
    return re.sub(r"\bconst\b", "", t).replace("np.", "").strip()


class Source:
    def __init__(self, path):
        self.path = path
        self.out = []
        self.ext = {}            # C++ functions: name -> argument types
        self.classes = set()
        self.lines = logical(open(path).read())
        self.types = {}
        self.block(0, 0, None)

    def text(self):
        return "\n".join(self.out) + "\n"

    def iscast(self, t):
        b = ctype(t).split("[")[0].strip(" *")
        return b in SIMPLE or b in self.classes

    def expr(self, s):
        s = re.sub(r"\bnew\s+(?=[A-Z])", "", s)
        while True:
            m = None
            for q in CAST.finditer(s):
                if self.iscast(q.group(1)):
                    m = q
            if not m:
                return s
            rest = s[m.end():]
            i = len(rest) - len(rest.lstrip())
            j = i
            if rest[j] in "&-":
                j += 1
            while j < len(rest):
                c = rest[j]
                if c in "([":
                    d = 0
                    while True:
                        d += (rest[j] in "([{") - (rest[j] in ")]}")
                        j += 1
                        if d == 0:
                            break
                elif re.match(r"[\w.]", c):
                    j += 1
                else:
                    break
            t = ctype(m.group(1))
            op = rest[i:j]
            if "[" in t:
                dims = top(t[t.index("[") + 1:t.rindex("]")])
                ls, steps = [], []
                for d in dims:
                    p = d.split(":")
                    if len(p) < 2 or p[0].strip():
                        raise EngineLimit("Cython: array cast")
                    ls.append(p[1].strip())
                    steps.append(p[2].strip() if len(p) > 2 else "")
                f = "F" if steps[0] == "1" and len(ls) > 1 else "C"
                r = f"__view__({op}, {t.split('[')[0].strip()!r}, ({', '.join(ls)},), " \
                    f"{f!r})"
            elif t.rstrip(" *") in self.classes or t.endswith("*"):
                r = op
            else:
                r = f"__conv__({t!r}, {op})"
            s = s[:m.start()] + r + rest[j:]

    def emit(self, ind, s):
        self.out.append(" " * ind + s)

    def block(self, i, ind, fn):
        """translate lines i.. while indented at least ind"""
        L = self.lines
        while i < len(L) and L[i][0] >= ind:
            d, s = L[i]
            if re.match(r"cdef\s+extern\b", s):
                i = self.extern(i)
                continue
            if re.match(r"cdef\s*:$", s):
                j = i + 1
                while j < len(L) and L[j][0] > d:
                    self.declare(d, L[j][1], fn)
                    j += 1
                i = j
                continue
            m = re.match(r"(?:cdef|cpdef)\s+(?:inline\s+)?(.*\)[^()]*):$", s)
            if m or re.match(r"def\s", s):
                i = self.function(i)
                continue
            if re.match(r"cdef\s+(class|struct|enum|packed|union)\b", s):
                raise EngineLimit("Cython: " + s[:40])
            if re.match(r"cdef\s", s):
                self.declare(d, s[4:].strip(), fn)
            elif re.match(r"ctypedef\s", s):
                p = s.split()
                SIMPLE[p[-1]] = SIMPLE.get(" ".join(p[1:-1]), "o")
            elif re.match(r"(from\s+\S+\s+)?cimport\b", s):
                self.cimport(d, s)
            elif re.match(r"@cython\.", s) or re.match(r"import cython$", s):
                pass
            elif re.match(r"with\s+(nogil|cython\.\w+).*:$", s):
                self.emit(d, "if True:")
            elif re.match(r"del\s", s) and fn:
                self.emit(d, "pass")
            else:
                s = self.expr(s)
                m = re.match(r"([A-Za-z_]\w*)\s*=(?!=)\s*(.*)$", s, re.S)
                if m and fn is not None and m.group(1) in fn:
                    s = f"{m.group(1)} = __conv__({fn[m.group(1)]!r}, {m.group(2)})"
                m = re.match(r"for\s+(\w+)\s+from\b", s)
                if m:
                    raise EngineLimit("Cython: for-from loop")
                self.emit(d, s)
            i += 1
        return i

    def cimport(self, d, s):
        m = re.match(r"cimport\s+numpy(?:\s+as\s+(\w+))?$", s)
        if m:
            self.emit(d, f"import numpy as {m.group(1) or 'numpy'}")
            return
        m = re.match(r"from\s+libc\.math\s+cimport\s+(.*)$", s)
        if m:
            self.emit(d, f"from math import {m.group(1).strip('() ')}")
            return
        m = re.match(r"(cimport\s+cython|from\s+cython|from\s+libc|from\s+libcpp|"
                     r"cimport\s+libc|from\s+cpython)", s)
        if m and "malloc" not in s:
            return
        raise EngineLimit("Cython: " + s)

    def declare(self, d, s, fn):
        parts = top(s)
        m = DECL.match(parts[0])
        if not m:
            raise EngineLimit("Cython: cdef " + s[:60])
        t = ctype(m.group(1))
        items = [(m.group(2), m.group(3))]
        for p in parts[1:]:
            q = re.match(r"([*&]?\s*[A-Za-z_]\w*)\s*(?:=(?!=)\s*(.*))?$", p, re.S)
            if not q:
                raise EngineLimit("Cython: cdef " + s[:60])
            items.append((q.group(1).strip("*& "), q.group(2)))
        for n, e in items:
            if fn is not None:
                fn[n] = t
            if e is not None:
                self.emit(d, f"{n} = __conv__({t!r}, {self.expr(e)})")
            elif t in self.classes:
                self.emit(d, f"{n} = {t}()")
            elif t in SIMPLE:
                self.emit(d, f"{n} = __undef__({t!r})")
            else:
                self.emit(d, f"{n} = None")

    def function(self, i):
        L = self.lines
        d, s = L[i]
        s = re.sub(r"^(cdef|cpdef)\s+", "", s)
        s = re.sub(r"^def\s+", "", s)
        s = re.sub(r"^inline\s+", "", s)
        k = s.index("(")
        e, j = 0, k
        while True:
            e += (s[j] in "([{") - (s[j] in ")]}")
            j += 1
            if e == 0:
                break
        name = re.findall(r"\w+", s[:k])[-1]
        args, conv, fn = [], [], {}
        for a in top(s[k + 1:j - 1]):
            m = DECL.match(a)
            if m and not a.startswith("*"):
                t = ctype(m.group(1))
                fn[m.group(2)] = t
                conv.append((m.group(2), t))
                args.append(m.group(2) + ("=" + m.group(3) if m.group(3) else ""))
            else:
                args.append(a)
        self.emit(d, f"def {name}({', '.join(args)}):")
        body = L[i + 1][0] if i + 1 < len(L) else d + 4
        for n, t in conv:
            self.emit(body, f"{n} = __conv__({t!r}, {n})")
        return self.block(i + 1, d + 1, fn)

    def extern(self, i):
        L = self.lines
        d = L[i][0]
        i += 1
        while i < len(L) and L[i][0] > d:
            e, s = L[i]
            m = re.match(r"(?:cdef\s+)?cppclass\s+(\w+)", s)
            if m:
                self.classes.add(m.group(1))
                i += 1
                while i < len(L) and L[i][0] > e:
                    i += 1
                continue
            k = s.find("(")
            if k > 0:
                n = re.findall(r"\w+", s[:k])[-1]
                ts = []
                for a in top(s[k + 1:s.rindex(")")]):
                    m = DECL.match(a)
                    ts.append(ctype(m.group(1)) if m else ctype(a))
                rt = ctype(s[:k][:s[:k].rindex(n)])
                self.ext[n] = (rt, ts)
            i += 1
        return i


# ------------------------------------------------------------ run time
def machine_f(x):
    """a Python float for the machine"""
    if isinstance(x, SymArray):
        x = x.item()
    if isinstance(x, SymScalar):
        return py_float(SymScalar(x.v, None))
    return float(x)


def machine_i(x):
    if isinstance(x, SymArray):
        x = x.item()
    if isinstance(x, SymScalar):
        v = x.v
        if isinstance(v, B):
            v = core.to_int(v)
        if isinstance(v, R):
            raise TypeError("an integer is required")
        return wrap_scalar(v, None)
    if isinstance(x, (float, np.floating)):
        raise TypeError("an integer is required")
    return int(x)


class LMatrix:
    def __init__(self, *a):
        P = llvm.Program.cur
        if not a:
            self.p = P.run("shim_matrix0")
        elif len(a) == 2:
            self.p = P.run("shim_matrix2", machine_i(a[0]), machine_i(a[1]))
        else:
            raise EngineLimit("Cython: Matrix constructor")

    def data(self):
        return llvm.Program.cur.run("shim_data", self.p)

    def __getattr__(self, n):
        raise EngineLimit(f"Cython: Matrix.{n}")


class View:
    """typed view of machine memory"""

    def __init__(self, p, shape, order):
        self.p, self.order = p, order
        self.shape = tuple(llvm.conc(machine_i(x)) for x in shape)
        if any(n < 0 for n in self.shape):
            raise ValueError("negative dimensions")

    def addr(self, ix):
        o, st = 0, 1
        for i, n in (zip(ix, self.shape) if self.order == "F" else
                     zip(reversed(ix), reversed(self.shape))):
            o += i * st
            st *= n
        return self.p + 8 * o

    def array(self):
        o = np.empty(self.shape, dtype=object)
        for ix in np.ndindex(*self.shape):
            v = llvm.load(self.addr(ix), 8, "f")
            o[ix] = v.v if isinstance(v, SymScalar) else v
        return SymArray(o, np.dtype("float64"))

    def __getitem__(self, k):
        r = self.array()[k]
        return r

    def __setitem__(self, k, v):
        if isinstance(v, View):
            v = v.array()
        sel = np.empty(self.shape, dtype=object)
        for ix in np.ndindex(*self.shape):
            sel[ix] = ix
        if isinstance(k, tuple) and any(isinstance(x, (SymScalar, SymArray)) for x in k):
            k = tuple(llvm.conc(machine_i(x)) if isinstance(x, (SymScalar, SymArray))
                      else x for x in k)
        tgt = sel[k]
        if isinstance(tgt, tuple):
            llvm.store(self.addr(tgt), machine_f(v), 8)
            return
        v = asarray(v)
        if v.shape != tgt.shape and v.ndim:
            raise ValueError("got differing extents in view assignment")
        for ix in np.ndindex(*tgt.shape):
            x = v.o[ix] if v.ndim else v.o[()]
            if core.is_sym(x):
                x = py_float(SymScalar(x, None))
            llvm.store(self.addr(tgt[ix]), float(x) if not isinstance(
                x, SymScalar) else x, 8)


def memview(t, x):
    m = re.match(r"(\w+)\s*\[(.*)\]$", t)
    if isinstance(x, View) or x is None:
        return x
    base = m.group(1)
    want = {"double": "float64", "float": "float32", "int": "int32",
            "long": "int64", "unsigned char": "uint8", "char": "int8"}.get(base)
    if base in ("ndarray", "numpy"):
        return x
    if want is None:
        raise EngineLimit("Cython: view of " + base)
    a = asarray(x)
    if a.dt != np.dtype(want):
        raise ValueError(f"Buffer dtype mismatch, expected '{base}'")
    if a.ndim != len(top(m.group(2))):
        raise ValueError("Buffer has wrong number of dimensions")
    return x


def conv(t, x):
    k = SIMPLE.get(t)
    if k is None:
        return memview(t, x) if "[" in t else x
    if k == "f8":
        return machine_f(x)
    if k == "f4":
        return llvm.FLT32(machine_f(x))
    if k == "b":
        return bool(x)
    if k == "o":
        return x
    return machine_i(x)


def load(world, name, prog):
    """module pyEdgeEval._lib.<name> on the machine"""
    from .loader import Rewrite
    path = os.path.join(native.REPO, "pyEdgeEval/_lib", name + ".pyx")
    key = (path, os.stat(path).st_mtime_ns)
    if key not in _cache:
        s = Source(path)
        try:
            tree = Rewrite().visit(ast.parse(s.text(), path))
        except SyntaxError as ex:
            raise EngineLimit(f"Cython: {ex}")
        ast.fix_missing_locations(tree)
        _cache[key] = s, compile(tree, path, "exec")
    s, code = _cache[key]
    full = "pyEdgeEval._lib." + name
    m = types.ModuleType(full)
    m.__file__ = path
    m.__package__ = "pyEdgeEval._lib"
    g = m.__dict__
    g["__builtins__"] = world.builtins
    g["__symex__"] = True
    g["__conv__"] = conv
    g["__undef__"] = lambda t: 0.0 if SIMPLE[t][0] == "f" else 0
    g["__view__"] = lambda p, t, shape, order: View(p, shape, order)
    for c in s.classes:
        g[c] = LMatrix
    for n, (rt, ts) in s.ext.items():
        g[n] = function(prog, n, rt, ts)
    world.loaded_files.add(path)
    world.modules[full] = world.stubs[full] = m
    exec(code, g)
    return m


_cache = {}


def function(prog, name, rt, ts):
    pre = f"_Z{len(name)}{name}"
    cands = [f for f in prog.where if f == name or f.startswith(pre)]

    def call(*args):
        if len(cands) != 1:
            raise EngineLimit(f"C++ function {name}: {len(cands)} candidates")
        if len(args) != len(ts):
            raise TypeError(f"{name} takes {len(ts)} arguments")
        vs = []
        for t, a in zip(ts, args):
            if isinstance(a, LMatrix):
                vs.append(a.p)
            elif isinstance(a, View):
                vs.append(a.p)
            else:
                vs.append(conv(t.strip("&* "), a))
        r = prog.run(cands[0], *vs)
        return r
    call.__name__ = name
    return call
