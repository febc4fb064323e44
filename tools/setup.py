#!/usr/bin/env python3
"""Offline sanity of the toolchain; every check compiles what it needs itself."""
import os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(H, "evidence"), exist_ok=True)
sys.path.insert(0, H)
import props
for c in (["g++", "--version"], ["java", "-version"]):
    subprocess.run(c, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
missing = []
for p in props.PROPS.values():
    for d in p["drivers"]:
        for f in ("drivers/" + d["src"], "specs/" + d["trace"] + ".tla"):
            if not os.path.exists(os.path.join(H, f)): missing.append(f)
if missing: sys.exit("missing: %s" % missing)
print("ok:", len(props.PROPS), "properties")
