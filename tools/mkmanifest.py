#!/usr/bin/env python3
"""Source of MANIFEST.json (run it to regenerate the file)."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import props
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    p = props.PROPS.get(i)
    if p is None:
        na.append(dict(property=i, reason=props.NA.get(i, "not built yet"))); continue
    mods = sorted({m["module"] for m in p.get("mc", [])}); tr = sorted({d["trace"] for d in p["drivers"]})
    note = "TLC checks the bounded model(s) %s exhaustively; behaviours and inputs %sare executed on the real headers (address sanitizer) and every recorded result is decided by TLC against %s. " % (
        ", ".join(mods) or "-", "printed by the model and generated at random " if any(m.get("gen") for m in p.get("mc", [])) else "generated by the driver ", ", ".join(tr))
    note += "Not exhaustive beyond the recorded sessions. " + ("Assumes: " + "; ".join(p["assumptions"]) + "." if p.get("assumptions") else "")
    checks.append(dict(property=i, quick_cmd="python3 check.py %s quick" % i, thorough_cmd="python3 check.py %s thorough" % i,
        evidence_file="evidence/%s.json" % i, technique=p.get("technique", "TLA+ specification checked with TLC; model behaviours replayed into the code and recorded sessions validated against it by TLC"),
        level="model_checking", level_note=note.strip()))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
    notes="No hooks in /repo: the library is header-only and the drivers interpose at the system-call, pthread or stream boundary.")
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
