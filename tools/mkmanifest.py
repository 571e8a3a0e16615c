#!/usr/bin/env python3
"""writes MANIFEST.json from the checks that exist"""
import json, os, importlib, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
PENDING = {}
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    if not os.path.exists(f"{V}/checks/{p}.py"):
        na.append(dict(property=p, reason=PENDING.get(
            p, "no check yet: the solver-based encoding of this part is not built")))
        continue
    m = importlib.import_module("checks." + p)
    checks.append(dict(
        property=p, quick_cmd=f"symex/run.sh {p}",
        thorough_cmd=f"symex/run.sh {p} --tier thorough",
        technique=getattr(m, "TECHNIQUE", "bounded symbolic execution of the current Python source, decided by Z3, counterexamples replayed on the real code"),
        level="model_checking",
        level_note=("every assertion on every feasible path decided for all values within the bounds of each case "
                    "(listed in the evidence). Outside: " + m.OUTSIDE + ". Trusted: the engine's model of NumPy/SciPy/OpenCV/Pillow "
                    "(path models are re-run on the real code); " + "; ".join(m.ASSUMPTIONS))))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="No hooks in /repo. See DESIGN.md."), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
