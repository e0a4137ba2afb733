#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = {}
for f in sorted(glob.glob(here + "/seeded/*/meta.json")):
    d = json.load(open(f))
    rows.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d["needs"]))
t = "| property and catching check | planted bug | what it needs |\n|---|---|---|\n"
for k in sorted(rows):
    for n, needs in rows[k]:
        t += f"| {k} | {n} | {needs} |\n"
p = here + "/DESIGN.md"
s = open(p).read()
s = re.sub(r"<!-- plants -->.*<!-- /plants -->", lambda m: "<!-- plants -->\n" + t + "<!-- /plants -->", s, flags=re.S)
open(p, "w").write(s)
