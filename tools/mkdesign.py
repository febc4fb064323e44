#!/usr/bin/env python3
"""DESIGN.md = doc/design_*.md + the table of planted bugs (seeded/*/meta.json, seeded/detect.json)."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda f: open(os.path.join(H, f)).read()
det = json.loads(rd("doc/detect.json")) if os.path.exists(os.path.join(H, "doc/detect.json")) else {}
rows = []
for m in glob.glob(os.path.join(H, "seeded/*/meta.json")):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m)); rows.append((d["property"], i, d["needs"], d["what_it_breaks"]))
t = "\n## Planted bugs and what catches them\n\n| bug | property | manifests when | breaks | caught by |\n|---|---|---|---|---|\n"
for p, i, n, w in sorted(rows):
    e = lambda s: s.replace("|", "\\|").replace("\n", " ")
    t += "| %s | %s | %s | %s | %s |\n" % (i, p, e(n), e(w), det.get(i, "check %s, quick" % p))
open(os.path.join(H, "DESIGN.md"), "w").write(rd("doc/design_head.md") + "\n" + rd("doc/design_props.md") + "\n" + rd("doc/design_tail.md") + t)
