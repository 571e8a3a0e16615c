"""Symbolic execution of the C++ sources: clang turns the current tree's sources
into LLVM IR on every run, each IR function becomes a Python function over concrete
numbers and symbolic values of the engine; branches on symbolic values fork the path.

Memory is a set of objects; every access is checked against the object it points
into.  Doubles that depend on symbolic inputs are treated as exact reals."""
import bisect
import fcntl
import hashlib
import math
import operator
import os
import re
import struct as pystruct
import subprocess

import numpy as np
import z3

from . import core, native
from .core import B, EngineLimit, I, R, T, eng, is_sym
from .arr import SymScalar, py_float, wrap_scalar
from . import arr

CLANG = ["clang++", "-std=c++14", "-O2", "-fwrapv", "-fno-unroll-loops",
         "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off",
         "-fno-strict-aliasing", "-DNDEBUG", "-DNOBLAS", "-w", "-S", "-emit-llvm"]
SHIM = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim.cc")


class MemoryFault(Exception):
    """an access outside every live object"""


class CppThrow(Exception):
    """a C++ exception left the code"""


# ------------------------------------------------------------ building
def build_ir():
    """directory holding one .ll per source of the current tree"""
    h = hashlib.sha256(open(SHIM, "rb").read() + " ".join(CLANG).encode()).hexdigest()
    d = f"/tmp/symex_ir_{native.digest()}_{h[:8]}"
    ok = os.path.join(d, "ok")
    if os.path.exists(ok):
        return d
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(ok):
            return d
        lib = os.path.join(native.REPO, "pyEdgeEval/_lib")
        src = os.path.join(lib, "src")
        cs = sorted(os.path.join(src, f) for f in os.listdir(src) if f.endswith(".cc"))
        ps = []
        for c in cs + [SHIM]:
            o = os.path.join(d, os.path.basename(c)[:-3] + ".ll")
            ps.append((c, subprocess.Popen(
                CLANG + ["-I" + os.path.join(lib, "include"), c, "-o", o],
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        for c, p in ps:
            out, _ = p.communicate()
            if p.returncode:
                raise RuntimeError(f"clang failed on {c}:\n{out.decode()[-2000:]}")
        open(ok, "w").write("ok")
    return d


# ------------------------------------------------------------ parsing
TOK = re.compile(r'''
    c"(?:[^"])*" | [%@]"[^"]*" | "[^"]*" | [%@][-A-Za-z$._0-9]+
  | ![-A-Za-z$._0-9]* | \#\d+ | 0x[0-9A-Fa-f]+ | -?\d+\.\d+(?:e[+-]?\d+)? | -?\d+
  | \.\.\. | [A-Za-z_][A-Za-z0-9_.]* | [(){}\[\]<>,=*:]
''', re.X)
ATTR = {"noundef", "nonnull", "nocapture", "readonly", "writeonly", "readnone",
        "noalias", "signext", "zeroext", "returned", "immarg", "nofree", "inreg",
        "dead_on_unwind", "writable", "dso_local", "local_unnamed_addr",
        "unnamed_addr", "internal", "private", "linkonce_odr", "weak_odr", "weak",
        "linkonce", "hidden", "protected", "default", "external", "fastcc", "ccc",
        "coldcc", "tail", "musttail", "notail", "mustprogress", "nest", "swiftself",
        "allocptr", "noreturn", "constant", "nofpclass", "fast", "nnan", "ninf", "nsz",
        "arcp", "contract", "afn", "reassoc", "available_externally", "noext", "cc",
        "extern_weak", "common", "initializes", "captures"}
BINS = {"add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "shl", "lshr", "ashr",
        "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"trunc", "zext", "sext", "sitofp", "uitofp", "fptosi", "fptoui", "bitcast",
         "ptrtoint", "inttoptr", "fpext", "fptrunc", "addrspacecast"}


class Ty:
    def __init__(self, k, bits=0, el=None, n=0, fields=(), packed=False):
        self.k, self.bits, self.el, self.n = k, bits, el, n
        self.fields, self.packed = fields, packed
        self._lay = None

    def align(self):
        if self.k == "i":
            return max(1, min(8, self.bits // 8))
        if self.k == "f":
            return self.bits // 8
        if self.k == "p":
            return 8
        if self.k == "a":
            return self.el.align()
        if self.k == "s":
            return 1 if self.packed else max([f.align() for f in self.fields] or [1])
        return 1

    def size(self):
        if self.k == "i":
            return max(1, (self.bits + 7) // 8)
        if self.k == "f":
            return self.bits // 8
        if self.k == "p":
            return 8
        if self.k == "a":
            return self.n * self.el.size()
        if self.k == "s":
            return self.layout()[1]
        raise EngineLimit(f"size of type {self.k}")

    def layout(self):
        if self._lay is None:
            off, offs = 0, []
            for f in self.fields:
                a = 1 if self.packed else f.align()
                off = (off + a - 1) // a * a
                offs.append(off)
                off += f.size()
            a = self.align()
            self._lay = offs, (off + a - 1) // a * a
        return self._lay


PTR = Ty("p")
F64, F32 = Ty("f", 64), Ty("f", 32)
VOID = Ty("v")
_ints = {}


def ity(n):
    return _ints.setdefault(n, Ty("i", n))


class Module:
    def __init__(self, prog, path):
        self.prog, self.path = prog, path
        self.name = os.path.basename(path)
        self.types, self.globals, self.funcs, self.alias = {}, {}, {}, {}
        self.gaddr = {}
        lines = open(path).read().split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            if ln.startswith("%") and " = type " in ln:
                n, t = ln.split(" = type ", 1)
                self.types[n.strip()] = t
            elif ln.startswith("@"):
                n, r = ln.split(" = ", 1)
                if " alias " in " " + r:
                    self.alias[n] = r.rsplit("@", 1)[1].strip().split(",")[0]
                else:
                    self.globals[n] = r
            elif ln.startswith("define "):
                body = []
                i += 1
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                m = re.search(r'@("[^"]*"|[-A-Za-z$._0-9]+)\(', ln)
                self.funcs[m.group(1).strip('"')] = (ln, body)
            i += 1

    def ty(self, text):
        p = P(self, TOK.findall(text))
        return p.type()


class P:
    """token stream"""

    def __init__(self, mod, toks):
        self.m, self.t, self.i = mod, toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() != x:
            raise EngineLimit(f"LLVM syntax: {x} expected at {self.t[self.i:self.i+6]}")
        self.i += 1

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def attrs(self):
        while True:
            x = self.peek()
            if x in ATTR:
                self.i += 1
                if self.peek() == "(" and x in ("nofpclass", "initializes", "captures"):
                    self.skip()
            elif x in ("align", "dereferenceable", "dereferenceable_or_null",
                       "allocsize", "memory", "range"):
                self.i += 1
                if self.peek() == "(":
                    self.skip()
                else:
                    self.i += 1
            elif x in ("sret", "byval", "elementtype", "byref"):
                self.i += 1
                self.skip()
            elif x is not None and x.startswith("#"):
                self.i += 1
            else:
                return

    def skip(self):
        self.eat("(")
        d = 1
        while d:
            x = self.next()
            d += (x == "(") - (x == ")")

    def type(self):
        x = self.next()
        if x == "ptr":
            t = PTR
        elif x == "void":
            t = VOID
        elif x == "double":
            t = F64
        elif x == "float":
            t = F32
        elif x in ("metadata", "label", "token", "opaque"):
            t = Ty("x")
        elif re.fullmatch(r"i\d+", x):
            t = ity(int(x[1:]))
        elif x == "[":
            n = int(self.next())
            self.eat("x")
            e = self.type()
            self.eat("]")
            t = Ty("a", el=e, n=n)
        elif x == "{" or x == "<" and self.peek() == "{":
            packed = x == "<"
            if packed:
                self.next()
            fs = []
            while self.peek() != "}":
                fs.append(self.type())
                self.accept(",")
            self.eat("}")
            if packed:
                self.eat(">")
            t = Ty("s", fields=fs, packed=packed)
        elif x[0] == "%":
            t = self.m.types.get(x)
            if t is None:
                raise EngineLimit(f"LLVM type {x}")
            if isinstance(t, str):
                t = self.m.types[x] = self.m.ty(t)
        elif x == "<":
            raise EngineLimit("LLVM vector type")
        else:
            raise EngineLimit(f"LLVM type {x}")
        if self.peek() == "(":           # function type
            self.skip()
        return t

    def value(self, ty):
        """Python expression text for an operand"""
        x = self.next()
        if x[0] == "%":
            return local(x)
        if x[0] == "@":
            return f"GA({self.m.prog.gid(self.m, x)})"
        if x == "true":
            return "True"
        if x == "false":
            return "False"
        if x == "null":
            return "0"
        if x in ("undef", "poison"):
            return "0" if ty.k in "ip" else "0.0" if ty.k == "f" else "UNDEF"
        if x == "zeroinitializer":
            return "ZERO(%d)" % self.m.prog.tid(ty)
        if x in ("getelementptr",):
            self.accept("inbounds")
            self.eat("(")
            r = self.gep()
            self.eat(")")
            return r
        if x in ("ptrtoint", "inttoptr", "bitcast"):
            self.eat("(")
            r = self.value(self.type())
            self.eat("to")
            self.type()
            self.eat(")")
            return r
        if ty.k == "f":
            if x.startswith("0x"):
                b = int(x[2:], 16)
                return repr_f(pystruct.unpack("<d", pystruct.pack("<Q", b))[0])
            return repr_f(float(x))
        if ty.k == "i" and re.fullmatch(r"-?\d+", x):
            if ty.bits == 1:
                return "True" if int(x) else "False"
            v = int(x)
            m = 1 << ty.bits
            v %= m
            return f"({v - m if v >= m // 2 else v})"
        raise EngineLimit(f"LLVM operand {x}")

    def gep(self):
        """type, ptr base, indices"""
        t = self.type()
        self.eat(",")
        self.attrs()
        base = self.value(self.type())
        off, parts, first = 0, [], True
        while self.accept(","):
            if self.peek() and self.peek()[0] == "!":
                break
            self.accept("inrange")
            it = self.type()
            ix = self.value(it)
            if first:
                first, sz = False, t.size()
            elif t.k == "s":
                f = int(ix.strip("()"))
                off += t.layout()[0][f]
                t = t.fields[f]
                continue
            elif t.k == "a":
                t = t.el
                sz = t.size()
            else:
                raise EngineLimit("getelementptr into a scalar")
            if re.fullmatch(r"\(?-?\d+\)?", ix):
                off += int(ix.strip("()")) * sz
            else:
                parts.append(f"{ix} * {sz}" if sz != 1 else ix)
        e = " + ".join([base] + parts)
        return f"({e} + {off})" if off else f"({e})"

    def const(self, ty):
        """evaluated initialiser: list of (offset, value, size) and size"""
        x = self.peek()
        if x == "zeroinitializer":
            self.next()
            return "zero"
        if x in ("undef", "poison"):
            self.next()
            return None
        if x and x.startswith('c"'):
            self.next()
            s = re.sub(r"\\([0-9A-Fa-f]{2})", lambda m: chr(int(m.group(1), 16)), x[2:-1])
            return ("bytes", s)
        if ty.k == "a" and x == "[":
            self.next()
            out = []
            while self.peek() != "]":
                t = self.type()
                out.append((t, self.const(t)))
                self.accept(",")
            self.eat("]")
            return ("seq", out)
        if ty.k == "s" and x in ("{", "<"):
            if self.next() == "<":
                self.eat("{")
            out = []
            while self.peek() != "}":
                t = self.type()
                out.append((t, self.const(t)))
                self.accept(",")
            self.next()
            self.accept(">")
            return ("struct", ty, out)
        return ("expr", self.value(ty))


def local(x):
    return "v" + re.sub(r"[^A-Za-z0-9_]", "_", x[1:])


def repr_f(x):
    if x == math.inf:
        return "INF"
    if x == -math.inf:
        return "(-INF)"
    if x != x:
        return "NAN"
    return repr(x) if x >= 0 else f"({x!r})"


# ------------------------------------------------------------ memory
class Obj:
    __slots__ = ("size", "cells", "zero", "alive", "what", "fn", "ro")

    def __init__(self, size, what, zero=False):
        self.size, self.what = size, what
        self.cells = {}
        self.zero = [(0, size)] if zero else []
        self.alive = True
        self.fn = None
        self.ro = False


OBJ = [None]
LOW = 0xffffffff


def alloc(size, what, zero=False):
    OBJ.append(Obj(size, what, zero))
    return (len(OBJ) - 1) << 32


def conc(a):
    """concrete address or number, forking over its values"""
    if isinstance(a, SymScalar):
        return eng().concretize_val(a.v)
    if isinstance(a, Part):
        return conc(a.sym())
    return a


def find(a, n, what):
    o = OBJ[a >> 32] if 0 <= a >> 32 < len(OBJ) else None
    off = a & LOW
    if o is None or off + n > o.size:
        raise MemoryFault(f"{what} of {n} bytes outside every object"
                          + (f" (past {o.what} of {o.size} bytes)" if o and off < 1 << 31
                             else ""))
    if not o.alive:
        raise MemoryFault(f"{what} of a freed object ({o.what})")
    return o, off


def split(v, n):
    if isinstance(v, (SymScalar, Part)):
        v = conc(v)
    if isinstance(v, float):
        return pystruct.pack("<d" if n == 8 else "<f", v)
    return (int(v) & ((1 << (8 * n)) - 1)).to_bytes(n, "little")


def byte(o, off):
    for s in range(off, off - 8, -1):
        c = o.cells.get(s)
        if c is not None and s + c[1] > off:
            return split(c[0], c[1])[off - s]
    for a, b in o.zero:
        if a <= off < b:
            return 0
    return None


def load(a, n, k):
    """value of n bytes at a; k: 'i', 'f', 'p', 'b' (i1)"""
    if a.__class__ is not int:
        a = conc(a)
    try:
        o = OBJ[a >> 32]
        c = o.cells[a & LOW]
        if c[1] == n and o.alive and a >= 0:
            v = c[0]
            if k != "f" and v.__class__ is float or k == "f" and v.__class__ is int:
                return recast(v, n, k)
            return v
    except (KeyError, IndexError, AttributeError):
        pass
    o, off = find(a, n, "read")
    for s, e in o.zero:
        if s <= off and off + n <= e and not any(
                x in o.cells for x in range(off - 7, off + n)):
            return 0.0 if k == "f" else False if k == "b" else 0
    bs = [byte(o, off + i) for i in range(n)]
    if None in bs:
        if all(b is None for b in bs) or k == "i":
            return undefined(o, off, n, k)
        raise EngineLimit("read of partly initialised memory")
    b = bytes(bs)
    if k == "f":
        return pystruct.unpack("<d" if n == 8 else "<f", b)[0]
    v = int.from_bytes(b, "little", signed=k != "p")
    return bool(v) if k == "b" else v


def recast(v, n, k):
    b = split(v, n)
    if k == "f":
        return pystruct.unpack("<d" if n == 8 else "<f", b)[0]
    return int.from_bytes(b, "little", signed=True)


class Part:
    """an integer some bits of which are unknown (bit fields in fresh memory)"""

    def __init__(self, bits, mask=0, val=0):
        self.bits, self.mask, self.val = bits, mask, val
        self.s = None

    def op(self, op, c):
        full = (1 << self.bits) - 1
        c &= full
        m, v = self.mask, self.val
        if op == "and":
            m, v = m | (~c & full), v & c
        elif op == "or":
            m, v = m | c, v | c
        else:
            v ^= c & m
        if m == full:
            return WRAP(v, self.bits)
        p = Part(self.bits, m, v)
        if op == "xor" and c & ~m or self.s is not None:
            return BITOP(op, conc(self.sym()), c, self.bits)
        return p

    def sym(self):
        if self.s is None:
            E = eng()
            E.note("uninitialised memory read")
            e = z3.Int(E.fresh("undef"))
            m = 1 << (self.bits - 1)
            E.add(z3.And(e >= -m, e < m))
            self.s = SymScalar(I(e=e, lo=-m, hi=m - 1), None)
            if self.mask:
                u = conc(self.s)
                self.s = WRAP(u & ~self.mask | self.val, self.bits)
        return self.s


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "eq", "ne", "lt", "le", "gt",
           "ge", "floordiv", "mod", "neg", "abs"):
    def _f(self, *a, _n="__" + _n + "__"):
        v = self.sym()
        r = getattr(v, _n)(*a)
        return getattr(SymScalar(I(v), None), _n)(*a) if r is NotImplemented else r
    setattr(Part, "__" + _n + "__", _f)
Part.__hash__ = object.__hash__


def undefined(o, off, n, k):
    """uninitialised memory holds anything"""
    E = eng()
    if k == "i":
        v = Part(8 * n)
        o.cells[off] = (v, n)
        return v
    E.note("uninitialised memory read")
    if k == "f":
        v = SymScalar(R(z3.Real(E.fresh("undef"))), None)
    elif k == "b":
        v = SymScalar(B(z3.Bool(E.fresh("undef"))), None)
    else:
        e = z3.Int(E.fresh("undef"))
        m = 1 << (8 * n - 1)
        E.add(z3.And(e >= -m, e < m))
        v = SymScalar(I(e=e, lo=-m, hi=m - 1), None)
    o.cells[off] = (v, n)
    return v


def store(a, v, n):
    if a.__class__ is not int:
        a = conc(a)
    try:
        o = OBJ[a >> 32]
        cells = o.cells
        c = cells[a & LOW]
        if c[1] == n and o.alive and a >= 0 and not o.ro:
            cells[a & LOW] = (v, n)
            return
    except (KeyError, IndexError, AttributeError):
        pass
    o, off = find(a, n, "write")
    if o.ro:
        raise MemoryFault("write to a constant")
    clear(o, off, off + n)
    o.cells[off] = (v, n)


def clear(o, s, e):
    """forget the bytes s..e"""
    for x in range(s - 7, e):
        c = o.cells.get(x)
        if c is not None and x + c[1] > s:
            if x < s or x + c[1] > e:
                b = split(*c)
                del o.cells[x]
                for i, y in enumerate(b):
                    if not s <= x + i < e:
                        o.cells[x + i] = (y, 1)
            else:
                del o.cells[x]


def memset(a, v, n, *_):
    a, v, n = conc(a), conc(v), conc(n)
    if n == 0:
        return 0
    o, off = find(a, n, "write")
    for x in [x for x in o.cells if off - 8 < x < off + n]:
        c = o.cells[x]
        if x + c[1] > off:
            if off <= x and x + c[1] <= off + n:
                del o.cells[x]
            else:
                clear(o, off, off + n)
    if v & 255 == 0:
        o.zero.append((off, off + n))
    else:
        for i in range(n):
            o.cells[off + i] = (v, 1)
    return 0


def memcpy(d, s, n, *_):
    d, s, n = conc(d), conc(s), conc(n)
    if n == 0:
        return 0
    p, po = find(s, n, "read")
    o, off = find(d, n, "write")
    cs = [(x, c) for x, c in p.cells.items() if x < po + n and x + c[1] > po]
    zs = [(max(a, po), min(b, po + n)) for a, b in p.zero if a < po + n and b > po]
    for x, c in cs:
        if x < po or x + c[1] > po + n:
            raise EngineLimit("copy of a part of a value")
    memset(d, 0, n)
    o.zero.pop()
    o.zero.extend((a - po + off, b - po + off) for a, b in zs)
    for x, c in cs:
        o.cells[x - po + off] = c
    return 0


# ------------------------------------------------------------ operations
def WRAP(v, bits):
    if isinstance(v, bool):
        return int(v)
    m = 1 << bits
    if v.__class__ is int:
        v &= m - 1
        return v - m if v >= m >> 1 else v
    if isinstance(v, SymScalar):
        x = v.v
        if core.kind(x) == "b":
            x = core.to_int(x)
            v = wrap_scalar(x, None)
        lo, hi = core.int_range(x)
        if lo is not None and hi is not None and lo >= -(m >> 1) and hi < m >> 1:
            return v
        E = eng()
        ok = (v >= -(m >> 1)) & (v < (m >> 1))
        if bool(ok):
            if isinstance(x, I):
                return SymScalar(I(e=x.e, lo=max(-(m >> 1), lo) if lo is not None
                                   else -(m >> 1), hi=min((m >> 1) - 1, hi)
                                   if hi is not None else (m >> 1) - 1), None)
            return v
        E.note("integer overflow")
        return WRAP(conc(v), bits)
    if v.__class__ is Part:
        return v if v.bits == bits else WRAP(v.sym(), bits)
    if v.__class__ is float:
        raise EngineLimit("integer arithmetic on a double")
    return WRAP(int(v), bits)


def ZEXT(v, bits):
    if v.__class__ is int:
        return v & ((1 << bits) - 1)
    if v is True or v is False:
        return int(v)
    if v.__class__ is Part:
        v = v.sym()
    if isinstance(v, SymScalar):
        x = core.to_int(v.v)
        lo, hi = core.int_range(x)
        if lo is not None and lo >= 0 or bits > 1 and bool(wrap_scalar(x, None) >= 0):
            return wrap_scalar(x, None)
        return conc(v) & ((1 << bits) - 1)
    return int(v)


def SEXT(v, bits):
    if bits == 1:
        return -1 if v else 0
    return v


def BOOLOP(op, a, b):
    if a is True or a is False:
        if b is True or b is False:
            return a & b if op == "and" else a | b if op == "or" else a ^ b
    if op == "and":
        if a is False or b is False:
            return False
        return b if a is True else a if b is True else a & b
    if op == "or":
        if a is True or b is True:
            return True
        return b if a is False else a if b is False else a | b
    if a is True or b is True:
        return NOT(b if a is True else a)
    return b if a is False else a if b is False else a ^ b


def NOT(x):
    if x is True or x is False:
        return not x
    return wrap_scalar(core.mkB(core.bnot(core.to_bool(x.v))), None)


def BITOP(op, a, b, bits):
    if a.__class__ is int and b.__class__ is int:
        return a & b if op == "and" else a | b if op == "or" else a ^ b
    if a.__class__ is Part and b.__class__ is int:
        return a.op(op, b)
    if b.__class__ is Part and a.__class__ is int:
        return b.op(op, a)
    a, b = conc(a), conc(b)
    return BITOP(op, int(a), int(b), bits)


def SHIFT(op, a, b, bits):
    b = conc(b)
    if op == "shl":
        return WRAP(a * (1 << b), bits)
    if op == "ashr":
        return a >> b if a.__class__ is int else a // (1 << b)
    a = ZEXT(a, bits)
    return WRAP(a >> b if a.__class__ is int else a // (1 << b), bits)


def DIV(op, a, b, bits):
    if op[0] == "u":
        a, b = ZEXT(a, bits), ZEXT(b, bits)
    if a.__class__ is not int or b.__class__ is not int:
        if bool(b == 0):
            raise MemoryFault("integer division by zero")
        if isinstance(b, SymScalar) or b < 0:
            b = conc(b)
        if isinstance(a, SymScalar):
            if b < 0:
                a = conc(a)
            elif bool(a >= 0):
                return a // b if op[1] == "d" else a % b
            else:
                q = 0 - ((0 - a) // b)
                return q if op[1] == "d" else a - q * b
    if b == 0:
        raise MemoryFault("integer division by zero")
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0):
        q = -q
    return WRAP(q if op[1] == "d" else a - q * b, bits)


def FDIV(a, b):
    if a.__class__ is float and b.__class__ is float:
        if b == 0.0:
            if a == 0.0 or a != a:
                return math.nan
            return math.copysign(math.inf, a) * math.copysign(1.0, b)
        return a / b
    if bool(b == 0):
        if bool(a == 0):
            return math.nan
        return math.inf if bool(a > 0) else -math.inf
    return a / b


def FREM(a, b):
    return math.fmod(conc(a), conc(b))


def UCMP(op, a, b, bits):
    if a.__class__ is int and b.__class__ is int:
        m = (1 << bits) - 1
        a, b = a & m, b & m
    else:
        a, b = ZEXT(a, bits), ZEXT(b, bits)
    return a < b if op == "ult" else a <= b if op == "ule" else \
        a > b if op == "ugt" else a >= b


CACHE = {}


def FCMP(op, a, b):
    """comparison of doubles; symbolic ones are remembered on a path"""
    if a.__class__ is not float or b.__class__ is not float:
        k = (op, a if a.__class__ is float else id(a), b if b.__class__ is float
             else id(b))
        r = CACHE.get(k)
        if r is None:
            r = CACHE[k] = (OPS[op](a, b), a, b)
        r = r[0]
        if isinstance(r, SymScalar) and isinstance(r.v, B):
            e = eng().known.get(r.v.e.get_id())
            if e is not None:
                return e[1]
        return r
    return OPS[op](a, b)


OPS = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le,
       ">": operator.gt, ">=": operator.ge}


def EQ(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, SymScalar) or isinstance(b, SymScalar):
            s, c = (a, b) if isinstance(a, SymScalar) else (b, a)
            return s if c else NOT(s)
    return a == b


def NE(a, b):
    return NOT(EQ(a, b)) if isinstance(a, bool) or isinstance(b, bool) else a != b


def TOF(v):
    return float(v) if v.__class__ is int or v.__class__ is bool else py_float(v)


def FTOI(v, bits, signed=True):
    if v.__class__ is float:
        if v != v or not -(1 << 63) <= v < (1 << 64):
            return -(1 << (bits - 1)) if bits >= 32 else 0
        t = int(v)
        if signed and not -(1 << (bits - 1)) <= t < 1 << (bits - 1):
            return -(1 << (bits - 1)) if bits >= 32 else WRAP(t, bits)
        return WRAP(t, bits)
    x = v.v
    if isinstance(x, T):
        return wrap_scalar(core.tmap(x, int), None)
    e = x.e if isinstance(x, R) else core.to_real(x)
    s = z3.simplify(e)
    if z3.is_to_real(s):
        x = s.arg(0)
        lo, hi = RANGE.get(x.get_id(), (None, None))
        return WRAP(SymScalar(I(e=x, lo=lo, hi=hi), None), bits)
    neg = eng().decide(s < 0)
    # an integer variable under the value: linear for the solver
    i = z3.Int(eng().fresh("trunc"))
    r = z3.ToReal(i)
    eng().add(z3.And(r <= -s, r > -s - 1) if neg else z3.And(r <= s, r > s - 1))
    out = SymScalar(I(e=i, lo=0, hi=None), None)
    if neg:
        out = 0 - out
    return WRAP(out, bits)


RANGE = {}


def CEIL(v, up):
    if v.__class__ is float:
        return v if v != v or abs(v) == math.inf else float(
            math.ceil(v) if up else math.floor(v))
    x = v.v
    if isinstance(x, T):
        return wrap_scalar(core.tmap(x, lambda q: float(
            math.ceil(q) if up else math.floor(q))), None)
    e = core.to_real(x)
    s = z3.simplify(e)
    if z3.is_to_real(s):
        return v
    i = z3.Int(eng().fresh("round"))
    r = z3.ToReal(i)
    eng().add(z3.And(r >= s, r < s + 1) if up else z3.And(r <= s, r > s - 1))
    return SymScalar(R(r), None)


def RINT(v):
    if v.__class__ is float:
        return float(round(v)) if abs(v) < 1e18 else v
    x = v.v
    if isinstance(x, T):
        return wrap_scalar(core.tmap(x, lambda q: float(round(q))), None)
    raise EngineLimit("rint of a symbolic double")


def SQRT(v):
    if v.__class__ is float:
        return math.sqrt(v) if v >= 0 else math.nan
    x = v.v
    if isinstance(x, T):
        return wrap_scalar(core.tmap(x, math.sqrt), None)
    return math.sqrt(conc(v))


def FABS(v):
    return abs(v) if v.__class__ is float else v if bool(v >= 0) else 0.0 - v


def SEL(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    if isinstance(c, SymScalar):
        if a.__class__ is bool and b.__class__ is bool:
            return c if a and not b else NOT(c) if b and not a else a
        if isinstance(a, (tuple, list)):
            return a if bool(c) else b
        try:
            x = a.v if isinstance(a, SymScalar) else a
            y = b.v if isinstance(b, SymScalar) else b
            return wrap_scalar(core.ite(core.to_bool(c.v), x, y), None)
        except EngineLimit:
            return a if bool(c) else b
    return a if c else b


def SELPTR(c, a, b):
    return a if c else b


def FLT32(v):
    if v.__class__ is float:
        return float(np.float32(v))
    if isinstance(v.v, T):
        return wrap_scalar(core.tmap(v.v, lambda q: float(np.float32(q))), None)
    # a number within half a unit of the last place (exactly which one is left open,
    # except next to 1)
    e = core.to_real(v.v)
    e = getattr(e, "e", e)
    r = z3.Real(eng().fresh("f32"))
    h, one = core.rval(2.0 ** -24), z3.RealVal(1)
    a = z3.If(e < 0, -e, e)
    eng().add(z3.And(
        r - e <= a * h + core.rval(2.0 ** -150), e - r <= a * h + core.rval(2.0 ** -150),
        z3.Implies(e >= 0, r >= 0), z3.Implies(e <= 0, r <= 0),
        z3.Implies(z3.And(e >= core.rval(1 - 2.0 ** -25), e <= 1), r == one),
        z3.Implies(e < core.rval(1 - 2.0 ** -25), r <= core.rval(1 - 2.0 ** -24))))
    return SymScalar(R(r), None)


def MINMAX(op, a, b):
    c = a <= b if op == "min" else a >= b
    return SEL(c, a, b)


class Undef:
    pass


UNDEF = Undef()


# ------------------------------------------------------------ translation
class Program:
    cur = None

    def __init__(self):
        d = build_ir()
        self.mods = [Module(self, os.path.join(d, f)) for f in sorted(os.listdir(d))
                     if f.endswith(".ll")]
        self.where = {}
        for m in self.mods:
            for n, (ln, _) in m.funcs.items():
                if not re.search(r"\b(internal|private)\b", ln.split("@")[0]):
                    self.where.setdefault(n, m)
            for a in m.alias:
                self.where.setdefault(a[1:].strip('"'), m)
        self.gids, self.glist = {}, []
        self.tys = []
        self.compiled = {}
        self.encoded = set()
        self.ns = dict(
            load=load, store=store, alloc=alloc, WRAP=WRAP, ZEXT=ZEXT, SEXT=SEXT,
            BOOLOP=BOOLOP, BITOP=BITOP, SHIFT=SHIFT, DIV=DIV, FDIV=FDIV, FREM=FREM,
            UCMP=UCMP, TOF=TOF, FTOI=FTOI, SEL=SEL, SELPTR=SELPTR, FLT32=FLT32, EQ=EQ,
            NE=NE, NOT=NOT, FCMP=FCMP, INF=math.inf, NAN=math.nan, UNDEF=UNDEF, OBJ=OBJ,
            GA=self.gaddr, CALL=self.call, ICALL=self.icall, ZERO=self.zero,
            unreachable=self.unreachable, EngineLimit=EngineLimit, CppThrow=CppThrow)
        self.ext = externals(self)
        self.calls = {}

    def tid(self, t):
        self.tys.append(t)
        return len(self.tys) - 1

    def zero(self, i):
        t = self.tys[i]
        if t.k == "f":
            return 0.0
        if t.k in "ip":
            return 0
        return [self.zero(self.tid(f)) for f in t.fields]

    def unreachable(self):
        raise EngineLimit("unreachable instruction reached")

    # -------------------------------------------------------- globals
    def gid(self, mod, name):
        # a definition in this module hides others; else the defining module
        src = mod
        n = name[1:].strip('"')
        if name in mod.alias:
            pass
        elif name in mod.globals and not re.match(
                r"external\b", mod.globals[name]) or n in mod.funcs:
            pass
        else:
            for m in self.mods:
                g = m.globals.get(name)
                if g is not None and not re.match(r"external\b|internal\b|private\b", g) \
                        or n in m.funcs and self.where.get(n) is m or name in m.alias:
                    src = m
                    break
        k = (src.name, name)
        if k not in self.gids:
            self.gids[k] = len(self.glist)
            self.glist.append((src, name))
        return self.gids[k]

    def gaddr(self, i):
        a = self.gmem.get(i)
        if a is not None:
            return a
        mod, name = self.glist[i]
        n = name[1:].strip('"')
        text = mod.globals.get(name)
        if text is None or n in mod.funcs or name in mod.alias:
            a = alloc(1, "function " + n)
            OBJ[-1].fn = (mod, n)
            self.gmem[i] = a
            return a
        ext = re.match(r"external\b", text)
        body = re.search(r"\b(global|constant)\s+(.*)$", text).group(2)
        p = P(mod, TOK.findall(body))
        t = p.type()
        a = self.gmem[i] = alloc(t.size() if t.k != "x" else 8, "global " + n)
        o = OBJ[-1]
        if ext:
            o.zero = [(0, o.size)]
            return a
        self.init(a, t, p.const(t))
        o.ro = bool(re.search(r"\bconstant\b", text.split("align")[0])) and False
        return a

    def init(self, a, t, c):
        if c is None:
            return
        if c == "zero":
            memset(a, 0, t.size())
        elif c[0] == "bytes":
            for i, ch in enumerate(c[1]):
                OBJ[a >> 32].cells[(a & LOW) + i] = (ord(ch), 1)
        elif c[0] == "seq":
            for i, (et, e) in enumerate(c[1]):
                self.init(a + i * et.size(), et, e)
        elif c[0] == "struct":
            for off, (ft, f) in zip(c[1].layout()[0], c[2]):
                self.init(a + off, ft, f)
        else:
            v = eval(c[1], self.ns)
            store(a, v, t.size())

    # -------------------------------------------------------- running
    def start(self, rand):
        """fresh memory"""
        del OBJ[1:]
        CACHE.clear()
        RANGE.clear()
        self.gmem = {}
        self.rand = rand
        Program.cur = self
        for m in self.mods:
            for f in re.findall(r"ptr @([\w.]+|\"[^\"]*\"), ptr", m.globals.get(
                    "@llvm.global_ctors", "")):
                self.call(m.name, f.strip('"'))

    def call(self, mod, name, *args):
        f = self.compiled.get((mod, name))
        if f is None:
            f = self.get(mod, name)
        return f(*args)

    def icall(self, a, *args):
        a = conc(a)
        o, _ = find(a, 1, "call")
        if o.fn is None:
            raise MemoryFault("call of something that is no function")
        return self.call(o.fn[0].name, o.fn[1], *args)

    def get(self, modname, name):
        mod = next(m for m in self.mods if m.name == modname)
        a = mod.alias.get("@" + name) or mod.alias.get(f'@"{name}"')
        if name in ("_ZN6StringC1EPKcz", "_ZN6StringC2EPKcz"):
            # the text of an error message: left empty
            def f(this, *_):
                return self.call(modname, name.replace("PKcz", "v"), this)
        elif a:
            f = self.get(modname, a.strip('"'))
        elif name in mod.funcs:
            if "..." in mod.funcs[name][0]:
                raise EngineLimit("C++ function with a variable argument list")
            f = self.compile(mod, name)
        elif name in self.ext:
            f = self.ext[name]
        elif name in self.where:
            f = self.get(self.where[name].name, name)
        else:
            raise EngineLimit(f"C++ function {name} is not modelled")
        self.compiled[modname, name] = f
        return f

    def run(self, name, *args):
        m = self.where.get(name)
        if m is None:
            raise EngineLimit(f"no function {name}")
        return self.call(m.name, name, *args)

    def compile(self, mod, name):
        head, body = mod.funcs[name]
        src = Translator(self, mod, name, head, body).source()
        ns = self.ns
        exec(compile(src, f"<{mod.name}:{name}>", "exec"), ns)
        self.encoded.add(f"{mod.name[:-3]}: {name}")
        return ns["_f"]


class Translator:
    def __init__(self, prog, mod, name, head, body):
        self.prog, self.mod, self.name = prog, mod, name
        self.head, self.body = head, body

    def source(self):
        p = P(self.mod, TOK.findall(self.head[self.head.index("@"):]))
        p.next()
        p.eat("(")
        args = []
        while p.peek() != ")":
            if p.accept("..."):
                break
            p.type()
            p.attrs()
            if p.peek() and p.peek()[0] == "%":
                args.append(local(p.next()))
            else:
                args.append(f"v{len(args)}")
            p.accept(",")
        # blocks
        blocks, cur = {}, None
        entry = str(len(args))
        cur = entry
        blocks[cur] = []
        buf = ""
        for ln in self.body:
            if not ln.strip() or ln.lstrip().startswith(";"):
                continue
            m = re.match(r'^("?[-A-Za-z$._0-9]+"?):', ln)
            if m:
                cur = m.group(1).strip('"')
                if cur not in blocks:
                    blocks[cur] = []
                continue
            ln = ln.split(", !")[0] if ", !" in ln else ln
            s = ln.strip()
            if buf:
                buf += " " + s
                done = buf.startswith("switch") and s.endswith("]") or \
                    "invoke" in buf and " unwind " in " " + buf or \
                    "landingpad" in buf and not s.startswith(("cleanup", "catch", "filter"))
                if done or "invoke" in buf and "unwind" in s:
                    blocks[cur].append(buf)
                    buf = ""
                continue
            if s.startswith("switch") and not s.endswith("]") or \
                    re.search(r"\binvoke\b", s) and " unwind " not in s:
                buf = s
                continue
            if s in ("cleanup",) or s.startswith(("catch ", "filter ")):
                continue
            blocks[cur].append(s)
        self.names = {b: i for i, b in enumerate(blocks)}
        if entry not in blocks or not blocks[entry]:
            # named entry block
            del blocks[entry]
            self.names = {b: i for i, b in enumerate(blocks)}
        self.phis = {b: [] for b in blocks}
        for b, ins in blocks.items():
            for s in ins:
                m = re.match(r"(%\S+) = phi (.*)$", s)
                if m:
                    q = P(self.mod, TOK.findall(m.group(2)))
                    q.attrs()
                    t = q.type()
                    inc = {}
                    while q.accept("["):
                        v = q.value(t)
                        q.eat(",")
                        inc[q.next()[1:].strip('"')] = v
                        q.eat("]")
                        q.accept(",")
                    self.phis[b].append((local(m.group(1)), inc))
        out = [f"def _f({', '.join(args)}):"]
        bodies = []
        self.allocas = False
        for b, ins in blocks.items():
            self.cur = b
            self.o = []
            for s in ins:
                if re.match(r"%\S+ = phi ", s):
                    continue
                self.instr(s)
            bodies.append(self.o)
        if len(bodies) == 1:
            out += ["    " + x for x in bodies[0]]
        else:
            out += ["    b = 0", "    while 1:"]
            self.tree(out, bodies, 0, len(bodies), 2)
        return "\n".join(out) + "\n"

    def tree(self, out, bodies, lo, hi, ind):
        pad = "    " * ind
        if hi - lo == 1:
            out += [pad + x for x in bodies[lo]]
            return
        mid = (lo + hi) // 2
        out.append(pad + f"if b < {mid}:")
        self.tree(out, bodies, lo, mid, ind + 1)
        out.append(pad + "else:")
        self.tree(out, bodies, mid, hi, ind + 1)

    def goto(self, dst, ind=""):
        dst = dst[1:].strip('"')
        ph = self.phis[dst]
        r = []
        if ph:
            l = ", ".join(x for x, _ in ph)
            v = ", ".join(inc[self.cur] for _, inc in ph)
            r.append(f"{ind}{l} = {v}")
        r.append(f"{ind}b = {self.names[dst]}")
        if len(self.names) > 1:
            r.append(f"{ind}continue")
        return r

    def instr(self, s):
        m = re.match(r"(%\S+) = (.*)$", s)
        dst, rest = (local(m.group(1)), m.group(2)) if m else (None, s)
        p = P(self.mod, TOK.findall(rest))
        op = p.next()
        while op in ("tail", "musttail", "notail"):
            op = p.next()
        o = self.o
        if op in BINS:
            fl = set()
            while p.peek() in ("nuw", "nsw", "exact", "disjoint", "fast", "nnan", "ninf",
                               "nsz", "arcp", "contract", "afn", "reassoc"):
                fl.add(p.next())
            t = p.type()
            a = p.value(t)
            p.eat(",")
            b = p.value(t)
            o.append(f"{dst} = " + self.bin(op, t, a, b))
            if op in ("add", "sub", "mul") and t.bits > 1:
                h = 1 << (t.bits - 1)
                o.append(f"if {dst}.__class__ is not int or not {-h} <= {dst} < {h}: "
                         f"{dst} = WRAP({dst}, {t.bits})")
            return
        if op == "fneg":
            p.attrs()
            o.append(f"{dst} = 0.0 - {p.value(p.type())}")
            return
        if op == "icmp" or op == "fcmp":
            p.attrs()
            c = p.next()
            t = p.type()
            a = p.value(t)
            p.eat(",")
            b = p.value(t)
            o.append(f"{dst} = " + self.cmp(op, c, t, a, b))
            return
        if op in CASTS:
            while p.peek() in ("nneg", "nuw", "nsw"):
                p.next()
            t = p.type()
            v = p.value(t)
            p.eat("to")
            o.append(f"{dst} = " + self.cast(op, t, v, p.type()))
            return
        if op == "alloca":
            p.attrs()
            t = p.type()
            n = "1"
            if p.accept(",") and p.peek() != "align":
                n = p.value(p.type())
            o.append(f"{dst} = alloc({t.size()} * {n}, 'a local variable')")
            return
        if op == "load":
            p.accept("atomic")
            p.accept("volatile")
            t = p.type()
            p.eat(",")
            a = p.value(p.type())
            o.append(f"{dst} = {self.load(t, a)}")
            return
        if op == "store":
            p.accept("atomic")
            p.accept("volatile")
            t = p.type()
            v = p.value(t)
            p.eat(",")
            a = p.value(p.type())
            if t.k in "sa":
                raise EngineLimit("store of an aggregate")
            o.append(f"store({a}, {v}, {t.size()})")
            return
        if op == "getelementptr":
            while p.peek() in ("inbounds", "nuw", "nusw"):
                p.next()
            o.append(f"{dst} = {p.gep()}")
            return
        if op == "br":
            if p.accept("label"):
                o += self.goto(p.next())
                return
            p.type()
            c = p.value(ity(1))
            p.eat(",")
            p.eat("label")
            a = p.next()
            p.eat(",")
            p.eat("label")
            b = p.next()
            o.append(f"if {c}:")
            o += self.goto(a, "    ")
            o.append("else:")
            o += self.goto(b, "    ")
            return
        if op == "switch":
            t = p.type()
            v = p.value(t)
            p.eat(",")
            p.eat("label")
            d = p.next()
            p.eat("[")
            while p.peek() != "]":
                t = p.type()
                c = p.value(t)
                p.eat(",")
                p.eat("label")
                o.append(f"if {v} == {c}:")
                o += self.goto(p.next(), "    ")
            o += self.goto(d)
            return
        if op == "ret":
            t = p.type()
            o.append("return" if t.k == "v" else f"return {p.value(t)}")
            return
        if op == "select":
            p.attrs()
            p.type()
            c = p.value(ity(1))
            p.eat(",")
            t = p.type()
            a = p.value(t)
            p.eat(",")
            b = p.value(p.type())
            o.append(f"{dst} = {'SELPTR' if t.k == 'p' else 'SEL'}({c}, {a}, {b})")
            return
        if op in ("call", "invoke"):
            self.call(op, dst, p)
            return
        if op == "unreachable":
            o.append("unreachable()")
            return
        if op == "resume":
            o.append("raise CppThrow('exception')")
            return
        if op == "landingpad":
            o.append(f"{dst} = [0, 0]")
            return
        if op == "freeze":
            o.append(f"{dst} = {p.value(p.type())}")
            return
        if op == "extractvalue":
            v = p.value(p.type())
            p.eat(",")
            o.append(f"{dst} = {v}[{p.next()}]")
            return
        if op == "insertvalue":
            t = p.type()
            v = p.value(t)
            p.eat(",")
            x = p.value(p.type())
            p.eat(",")
            k = int(p.next())
            n = len(t.fields)
            o.append(f"{dst} = [{x} if _i == {k} else (0 if {v} is UNDEF else {v}[_i]) "
                     f"for _i in range({n})]")
            return
        if op == "fence":
            return
        o.append(f"raise EngineLimit('LLVM instruction {op}')")

    def bin(self, op, t, a, b):
        if op[0] == "f":
            if t.bits == 32 and op != "frem":
                return "FLT32(" + self.bin(op, F64, a, b) + ")"
            if op == "fdiv":
                return f"FDIV({a}, {b})"
            if op == "frem":
                return f"FREM({a}, {b})"
            return f"{a} {dict(fadd='+', fsub='-', fmul='*')[op]} {b}"
        if op in ("add", "sub", "mul"):
            if t.bits == 1:
                return f"BOOLOP({'chr(97)' if 0 else repr('and' if op == 'mul' else 'xor')}, {a}, {b})"
            return f"{a} {dict(add='+', sub='-', mul='*')[op]} {b}"
        if op in ("and", "or", "xor"):
            return f"BOOLOP({op!r}, {a}, {b})" if t.bits == 1 else \
                f"BITOP({op!r}, {a}, {b}, {t.bits})"
        if op in ("shl", "lshr", "ashr"):
            return f"SHIFT({op!r}, {a}, {b}, {t.bits})"
        return f"DIV({op!r}, {a}, {b}, {t.bits})"

    def cmp(self, op, c, t, a, b):
        if op == "fcmp":
            k = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
            if c == "true" or c == "false":
                return c.capitalize()
            if c == "ord":
                return f"({a} == {a} and {b} == {b})"
            if c == "uno":
                return f"not ({a} == {a} and {b} == {b})"
            if c in ("une", "one"):
                return f"FCMP('!=', {a}, {b})"
            if c[0] == "o":
                return f"FCMP({k[c[1:]]!r}, {a}, {b})"
            neg = {"lt": "ge", "le": "gt", "gt": "le", "ge": "lt", "eq": "ne"}[c[1:]]
            return f"NOT(FCMP({k[neg]!r}, {a}, {b}))"
        if c == "eq":
            return f"EQ({a}, {b})" if t.bits == 1 else f"{a} == {b}"
        if c == "ne":
            return f"NE({a}, {b})" if t.bits == 1 else f"{a} != {b}"
        if c[0] == "s":
            return f"{a} {dict(slt='<', sle='<=', sgt='>', sge='>=')[c]} {b}"
        if t.k == "p":
            return f"{a} {dict(ult='<', ule='<=', ugt='>', uge='>=')[c]} {b}"
        return f"UCMP({c!r}, {a}, {b}, {t.bits})"

    def cast(self, op, t, v, to):
        if op == "trunc":
            if to.bits == 1:
                return f"BITOP('and', {v}, 1, 8) == 1"
            return f"WRAP({v}, {to.bits})"
        if op == "zext":
            return f"ZEXT({v}, {t.bits})"
        if op == "sext":
            return f"SEXT({v}, {t.bits})" if t.bits == 1 else v
        if op == "sitofp":
            r = f"TOF({v})"
            return f"FLT32({r})" if to.bits == 32 else r
        if op == "uitofp":
            r = f"TOF(ZEXT({v}, {t.bits}))"
            return f"FLT32({r})" if to.bits == 32 else r
        if op in ("fptosi", "fptoui"):
            return f"FTOI({v}, {to.bits}, {op == 'fptosi'})"
        if op == "fpext":
            return v
        if op == "fptrunc":
            return f"FLT32({v})"
        if op in ("ptrtoint", "inttoptr"):
            return v
        if op == "bitcast" and t.k == to.k:
            return v
        self.o.append(f"raise EngineLimit('LLVM cast {op}')")
        return "0"

    def load(self, t, a):
        if t.k in "sa":
            if t.k == "s":
                return "[" + ", ".join(self.load(f, f"{a} + {x}") for f, x in zip(
                    t.fields, t.layout()[0])) + "]"
            raise EngineLimit("load of an array")
        k = "b" if t.k == "i" and t.bits == 1 else t.k
        return f"load({a}, {t.size()}, {k!r})"

    def call(self, op, dst, p):
        p.attrs()
        t = p.type()
        p.attrs()
        x = p.next()
        fn = x[1:].strip('"') if x[0] == "@" else None
        if x == "asm":
            self.o.append("raise EngineLimit('inline assembly')")
            return
        p.eat("(")
        args = []
        while p.peek() != ")":
            at = p.type()
            p.attrs()
            if at.k == "x":
                d = 0
                while d or p.peek() not in (",", ")"):
                    y = p.next()
                    d += (y == "(") - (y == ")")
                args.append("0")
            else:
                args.append(p.value(at))
            p.accept(",")
        p.eat(")")
        if fn and fn.startswith(("llvm.lifetime", "llvm.dbg", "llvm.experimental.noalias",
                                 "llvm.assume", "llvm.invariant")):
            return
        a = ", ".join(args)
        if fn:
            e = f"CALL({self.mod.name!r}, {fn!r}{', ' if a else ''}{a})"
        else:
            e = f"ICALL({local(x)}{', ' if a else ''}{a})"
        self.o.append(e if dst is None else f"{dst} = {e}")
        if op == "invoke":
            while p.peek() != "to":
                p.next()
            p.next()
            p.eat("label")
            self.o += self.goto(p.next())


def externals(prog):
    def newobj(n):
        n = conc(n)
        if n < 0 or n > 1 << 31:
            raise CppThrow("bad_alloc")
        return alloc(n, "an array on the heap" if n != 1 else "heap memory")

    def free(a):
        a = conc(a)
        if a == 0:
            return 0
        o, off = find(a, 0, "free")
        if off:
            raise MemoryFault("free of the middle of an object")
        o.alive = False
        o.cells = {}
        return 0

    def erand48(_):
        return prog.rand()

    def throw(*a):
        raise CppThrow("C++ exception")

    def exit_(*a):
        raise CppThrow("exit")

    def nothing(*a):
        return 0

    def calloc(n, s):
        n, s = conc(n), conc(s)
        return alloc(n * s, "an array on the heap", zero=True)

    def gettimeofday(tv, _):
        store(tv, 1, 8)
        store(tv + 8, 1, 8)
        return 0

    def fn1(f):
        def g(x):
            return f(conc(x))
        return g

    def trig(name):
        def g(x):
            return prog.trig(name, x)
        return g
    d = dict(
        _Znwm=newobj, _Znam=newobj, malloc=newobj, calloc=calloc, free=free,
        _ZdlPv=free, _ZdaPv=free, _ZdlPvm=lambda a, n: free(a),
        _ZdaPvm=lambda a, n: free(a),
        memset=memset, memcpy=memcpy, memmove=memcpy, erand48=erand48, exit=exit_,
        abort=exit_, fprintf=nothing, printf=nothing, sprintf=nothing, puts=nothing,
        fputs=nothing, putchar=nothing, fwrite=nothing, snprintf=nothing,
        gettimeofday=gettimeofday, sqrt=SQRT, rint=RINT, cos=trig("cos"),
        sin=trig("sin"), log=fn1(math.log), log2=fn1(math.log2), exp=fn1(math.exp),
        fabs=FABS, ceil=lambda v: CEIL(v, True), floor=lambda v: CEIL(v, False),
        hypot=lambda a, b: math.hypot(conc(a), conc(b)),
        pow=lambda a, b: conc(a) ** conc(b),
        __cxa_guard_acquire=lambda a: 1 if load(a, 1, "i") == 0 else 0,
        __cxa_guard_release=lambda a: store(a, 1, 1),
        __cxa_allocate_exception=newobj, __cxa_throw=throw, __cxa_free_exception=free,
        __cxa_begin_catch=throw, __cxa_rethrow=throw, _ZSt9terminatev=throw,
        __clang_call_terminate=throw, _ZSt20__throw_length_errorPKc=throw,
        _ZSt17__throw_bad_allocv=throw, __cxa_atexit=nothing)
    for n, f in list(d.items()):
        if n in ("sqrt", "rint", "fabs", "ceil", "floor", "cos", "sin", "log", "exp"):
            d[f"llvm.{n}.f64"] = f
    def strdup(a):
        n = 0
        while load(a + n, 1, "i") != 0:
            n += 1
        b = alloc(n + 1, "a copied string")
        for i in range(n):
            store(b + i, load(a + i, 1, "i"), 1)
        store(b + n, 0, 1)
        return b

    def strlen(a):
        n = 0
        while load(a + n, 1, "i") != 0:
            n += 1
        return n

    def fround(v):
        # half away from zero
        if v.__class__ is float:
            return math.copysign(math.floor(abs(v) + 0.5), v)
        return CEIL(v + 0.5, False) if bool(v >= 0) else CEIL(v - 0.5, True)
    d.update(strdup=strdup, strlen=strlen, round=fround,
             _ZSt28__throw_bad_array_new_lengthv=throw,
             _ZSt20__throw_out_of_rangePKc=throw,
             _ZSt24__throw_out_of_range_fmtPKcz=throw, _ZSt19__throw_logic_errorPKc=throw,
             _ZSt16__throw_bad_castv=throw)
    d["llvm.round.f64"] = fround
    d["llvm.fmuladd.f64"] = d["llvm.fma.f64"] = d["fma"] = lambda a, b, c: a * b + c
    d["llvm.nearbyint.f64"] = d["nearbyint"] = RINT
    d["llvm.trunc.f64"] = lambda v: TOF(FTOI(v, 64))
    for b in (8, 32, 64):
        d[f"llvm.smax.i{b}"] = lambda x, y: MINMAX("max", x, y)
        d[f"llvm.smin.i{b}"] = lambda x, y: MINMAX("min", x, y)
        d[f"llvm.umax.i{b}"] = lambda x, y, b=b: x if UCMP("uge", x, y, b) else y
        d[f"llvm.umin.i{b}"] = lambda x, y, b=b: x if UCMP("ule", x, y, b) else y
        d[f"llvm.abs.i{b}"] = lambda x, _, b=b: abs(x) if x.__class__ is int else (
            x if bool(x >= 0) else 0 - x)
    d["llvm.maxnum.f64"] = d["fmax"] = lambda x, y: MINMAX("max", x, y)
    d["llvm.minnum.f64"] = d["fmin"] = lambda x, y: MINMAX("min", x, y)
    for n in ("llvm.memset.p0.i64", "llvm.memset.p0.i32"):
        d[n] = memset
    for n in ("llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64",
              "llvm.memcpy.p0.p0.i32"):
        d[n] = memcpy
    return d
