#!/usr/bin/env python3
"""tools/trybug.py ID [ID..] [--fast]: copies /repo, applies seeded/ID/patch.diff,
builds, runs the stable test, the demonstration and the property's quick check there."""
import json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
fast = "--fast" in sys.argv
PY = "/opt/venv/bin/python"


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


for b in [a for a in sys.argv[1:] if not a.startswith("-")]:
    d = f"{V}/seeded/{b}"
    prop = json.load(open(d + "/meta.json"))["property"]
    native = "_lib/" in open(d + "/patch.diff").read()
    w = f"/tmp/trybug_{os.getpid()}"
    out = [b, prop]
    try:
        sh(f"cp -a /repo {w}")
        env = dict(os.environ, REPO=w, PYTHONPATH=w, PYTHONDONTWRITEBYTECODE="1",
                   MPLBACKEND="Agg", SYMEX_REPO=w)
        r = sh(f"bash {d}/demo.sh", cwd=w, env=env)
        out.append("demo clean ok" if r.returncode == 0 else "DEMO FAILS ON CLEAN " + r.stderr[-300:])
        r = sh(f"git -C {w} apply {d}/patch.diff")
        if r.returncode:
            print(b, "DOES NOT APPLY", r.stderr)
            continue
        if native:
            r = sh(f"rm -rf build pyEdgeEval/_lib/*.so pyEdgeEval/_lib/correspond_pixels.cpp pyEdgeEval/_lib/nms.cpp; {PY} setup.py -q build_ext --inplace", cwd=w, env=env)
            if r.returncode:
                out.append("BUILD FAILS " + r.stderr[-300:])
        if not fast:
            r = sh(f"{PY} -m pytest -q -p no:cacheprovider tests/test_bsds500.py", cwd=w, env=env)
            out.append("tests pass" if r.returncode == 0 else "TESTS FAIL " + r.stdout[-300:])
        r = sh(f"bash {d}/demo.sh", cwd=w, env=env)
        out.append("demo catches" if r.returncode else "DEMO PASSES WITH PATCH")
        if os.path.exists(f"{V}/checks/{prop}.py"):
            t = time.time()
            r = sh(f"{V}/symex/run.sh {prop}", cwd=V, env=env)
            out.append(f"check rc={r.returncode} {time.time() - t:.0f}s " + (
                "CAUGHT" if r.returncode == 1 and f"VIOLATION property={prop}" in r.stdout
                else "MISSED"))
            out.append((r.stdout + r.stderr)[-400:] if r.returncode != 1 else
                       r.stdout.split("\n")[1][:200])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    print(" | ".join(out), flush=True)
