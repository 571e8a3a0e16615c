#!/usr/bin/env python3
"""helper to write a planted bug: newbug(id, property, needs, breaks, file, [(old, new)], demo)"""
import json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def newbug(id, prop, needs, breaks, edits, demo, extra=None):
    w = "/tmp/newbug_wt"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True, capture_output=True)
    try:
        for f, old, new in edits:
            p = os.path.join(w, f)
            s = open(p, newline="").read()
            if "\r\n" in s:
                old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
            assert s.count(old) == 1, (f, old, s.count(old))
            open(p, "w", newline="").write(s.replace(old, new))
        diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True).stdout
    finally:
        shutil.rmtree(w, ignore_errors=True)
    d = f"{V}/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\ncd "${REPO:-$PWD}"\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$(dirname "$(readlink -f "$0")")/demo.py"\n' if False else
        '#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"\nexec /opt/venv/bin/python "$D/demo.py"\n')
    for n, c in (extra or {}).items():
        open(f"{d}/{n}", "w").write(c)
    print(id, len(diff.splitlines()), "lines")
