#!/usr/bin/env python3
"""Rewrites the planted-bugs table at the end of DESIGN.md from seeded/*/meta.json."""
import json, os, glob
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
rows = sorted((json.load(open(f))["property"], os.path.basename(os.path.dirname(f)), json.load(open(f))["needs"])
              for f in glob.glob(root + "/seeded/*/meta.json"))
p = root + "/DESIGN.md"
s = open(p).read()
mark = "## Planted bugs\n"
s = s.split(mark)[0].rstrip() + "\n\n" + mark + """
Each was written from a property's text and the code, confirmed with a
demonstration, and is caught by the quick check of the property it is listed
under (`seeded/<id>/`). Those that were missed at first are listed under
"Strengthened after misses".

| check | planted bug | needs |
|-------|-------------|-------|
"""
for c, b, n in rows:
    s += f"| {c} | {b} | {n} |\n"
open(p, "w").write(s)
