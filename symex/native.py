"""Builds the two extensions from the current tree in a scratch directory
(named by the hash of their sources) and loads them."""
import fcntl
import glob
import hashlib
import importlib.util
import os
import re
import resource
import subprocess
import sys
import sysconfig

REPO = os.environ.get("SYMEX_REPO", "/repo")
_libs = {}


def _sources():
    out = []
    base = os.path.join(REPO, "pyEdgeEval/_lib")
    for d, ds, fs in os.walk(base):
        ds[:] = [x for x in ds if x != "__pycache__"]
        for f in fs:
            if f.endswith((".pyx", ".pxd", ".pxi", ".cc", ".h", ".hh")):
                out.append(os.path.join(d, f))
    return sorted(out)


HERE = os.path.dirname(os.path.abspath(__file__))
OWN = [os.path.join(HERE, f) for f in ("hook.cc", "shim.cc", "driver.cc")]
ROUTE = ["-Derand48=symex_erand48"]


def digest():
    h = hashlib.sha256()
    for p in OWN:
        h.update(open(p, "rb").read())
    for p in _sources():
        h.update(p.encode() + b"\0")
        h.update(open(p, "rb").read())
    return h.hexdigest()[:20]


def where():
    return f"/tmp/symex_native_{digest()}"


def build():
    """directory holding correspond_pixels*.so and nms*.so of the current tree"""
    d = where()
    ok = os.path.join(d, "ok")
    if os.path.exists(ok):
        return d
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(ok):
            return d
        py = "/opt/venv/bin/python"
        lib = os.path.join(REPO, "pyEdgeEval/_lib")
        ext = sysconfig.get_config_var("EXT_SUFFIX")
        import numpy
        inc = ["-I" + os.path.join(lib, "include"),
               "-I" + sysconfig.get_paths()["include"],
               "-I" + numpy.get_include()]
        flags = ["-O2", "-fPIC", "-DNDEBUG", "-DNOBLAS", "-w"]
        procs, objs = [], []
        for c in sorted(glob.glob(os.path.join(lib, "src", "*.cc"))):
            o = os.path.join(d, os.path.basename(c) + ".o")
            objs.append(o)
            procs.append((c, subprocess.Popen(
                ["g++", "-c", c, "-o", o] + flags + ROUTE + inc,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        hook, shim = os.path.join(d, "hook.o"), os.path.join(d, "shim.o")
        for c, o in ((OWN[0], hook), (OWN[1], shim)):
            procs.append((c, subprocess.Popen(
                ["g++", "-c", c, "-o", o] + flags + (ROUTE if o == shim else []) + inc,
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        mods = []
        for n in ("correspond_pixels", "nms"):
            cpp = os.path.join(d, n + ".cpp")
            o = os.path.join(d, n + ".mod.o")
            script = (f"{py} -m cython -3 --cplus -o {cpp} {lib}/{n}.pyx && "
                      f"g++ -c {cpp} -o {o} {' '.join(flags + inc)}")
            mods.append((n, o))
            procs.append((n, subprocess.Popen(script, shell=True,
                                              stdout=subprocess.PIPE,
                                              stderr=subprocess.STDOUT)))
        for n, p in procs:
            out, _ = p.communicate()
            if p.returncode:
                raise RuntimeError(f"build of {n} failed:\n{out.decode()[-3000:]}")
        for n, o in mods + [("libshim", shim)]:
            r = subprocess.run(["g++", "-shared", o, hook] + objs
                               + ["-o", os.path.join(
                                   d, n + (ext if n != "libshim" else ".so"))],
                               capture_output=True, text=True)
            if r.returncode:
                raise RuntimeError(r.stderr[-3000:])
        open(ok, "w").write("ok")
    return d


def asan():
    """the driver of single native calls, built with the address sanitizer"""
    d = build()
    exe = os.path.join(d, "driver")
    if os.path.exists(exe):
        return exe
    with open(os.path.join(d, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe):
            return exe
        lib = os.path.join(REPO, "pyEdgeEval/_lib")
        flags = ["-O1", "-g", "-fsanitize=address", "-DNDEBUG", "-DNOBLAS", "-w",
                 "-I" + os.path.join(lib, "include")]
        ps, objs = [], []
        for c in sorted(glob.glob(os.path.join(lib, "src", "*.cc"))) + OWN:
            o = os.path.join(d, os.path.basename(c) + ".asan.o")
            objs.append(o)
            ps.append(subprocess.Popen(["g++", "-c", c, "-o", o] + flags + (
                [] if c == OWN[0] else ROUTE), stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT))
        for p in ps:
            out, _ = p.communicate()
            if p.returncode:
                raise RuntimeError(out.decode()[-3000:])
        subprocess.run(["g++", "-fsanitize=address"] + objs + ["-o", exe + ".tmp"],
                       check=True, capture_output=True)
        os.rename(exe + ".tmp", exe)
    return exe


def memcheck(text):
    """report of the address sanitizer for one call, or None"""
    def unlimited():
        h = resource.getrlimit(resource.RLIMIT_AS)[1]
        resource.setrlimit(resource.RLIMIT_AS, (h, h))
    r = subprocess.run([asan()], input=text, capture_output=True, text=True,
                       timeout=60, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"),
                       preexec_fn=unlimited)
    if r.returncode == 0:
        return None
    for x in r.stderr.split("\n"):
        if "ERROR: AddressSanitizer" in x and re.search(
                r"overflow|underflow|use-after|SEGV|bad-free|double-free|FPE|ABRT|"
                r"negative-size|mismatch", x):
            return x[:200]
    return None


def lib(name):
    if name not in _libs:
        d = build()
        so = os.path.join(d, name + sysconfig.get_config_var("EXT_SUFFIX"))
        full = "pyEdgeEval._lib." + name
        spec = importlib.util.spec_from_file_location(full, so)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        _libs[name] = m
    return _libs[name]


if __name__ == "__main__":
    print(build())
