#!/usr/bin/env python3
"""Planted bugs. seedtool.py make FILE.py  : FILE defines SEEDS = [dict(id, property, file, old, new, needs, breaks, demo, flags)]
                 seedtool.py verify [ids] : demo passes on /repo, fails with the patch
                 seedtool.py catch [ids]  : run the property's check on a patched copy of /repo/include
                 seedtool.py tests [ids]  : build and run the repository's tests with all the given patches applied (scratch copy at /repo's path is not possible, so a copy is used)"""
import sys, os, json, subprocess, tempfile, shutil, glob
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RP = os.environ.get("VERIF_REPO", "/repo")
SD = os.path.join(H, "seeded")
DEMO = '''#!/bin/bash
# exit 0: behaves; non-zero: broken. Run with the repository as working directory.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
g++ -std=%s -O1 -w -march=x86-64-v2 -D_FILE_OFFSET_BITS=64 %s -I include "$d/demo.cpp" -o "$t/demo" %s -lpthread || { rm -rf "$t"; exit 3; }
(cd "$t" && timeout 60 ./demo)
rc=$?
rm -rf "$t"
exit $rc
'''
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def copy():
    d = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    sh("git -C "+RP+" archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x@x commit -qm x" % (d, d))
    return d
def make(path):
    g = {}; exec(open(path).read(), g)
    d = copy()
    for s in g["SEEDS"]:
        edits = s.get("edits") or [(s["file"], s["old"], s["new"])]
        for f, old, new in edits:
            p = os.path.join(d, f); t = open(p).read()
            k = s.get("count", 1)
            if t.count(old) != k: print("BAD", s["id"], "matches", t.count(old), "in", f); break
            open(p, "w").write(t.replace(old, new))
        else:
            o = os.path.join(SD, s["id"]); os.makedirs(o, exist_ok=True)
            open(o + "/patch.diff", "w").write(sh("git -C %s diff" % d).stdout)
            open(o + "/demo.cpp", "w").write(s["demo"].lstrip("\n"))
            open(o + "/demo.sh", "w").write(DEMO % (s.get("std", "gnu++17"), s.get("flags", "-fsanitize=address"), s.get("libs", "")))
            os.chmod(o + "/demo.sh", 0o755)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(o + "/meta.json", "w"), indent=1)
        sh("git -C %s checkout -q -- ." % d)
    shutil.rmtree(d)
    ids = [s["id"] for s in g["SEEDS"]]
    verify(ids)
def allids(): return sorted(os.path.basename(p) for p in glob.glob(SD + "/*"))
def verify(ids):
    def one(i):
        a = sh("bash %s/%s/demo.sh" % (SD, i), cwd=RP)
        d = copy()
        b = sh("git apply %s/%s/patch.diff" % (SD, i), cwd=d)
        c = sh("bash %s/%s/demo.sh" % (SD, i), cwd=d)
        shutil.rmtree(d)
        ok = a.returncode == 0 and b.returncode == 0 and c.returncode not in (0, 3)
        return i, ok, a.returncode, b.returncode, c.returncode, (a.stdout if a.returncode else b.stdout if b.returncode else c.stdout)[-400:] if not ok else ""
    for r in ThreadPoolExecutor(6).map(one, ids): print(*r)
def catch(ids, tier="quick"):
    for i in ids:
        pid = json.load(open("%s/%s/meta.json" % (SD, i)))["property"]
        d = copy(); sh("git apply %s/%s/patch.diff" % (SD, i), cwd=d)
        e = dict(os.environ, VERIF_REPO=d)
        r = sh("python3 %s/check.py %s %s" % (H, pid, tier), env=e)
        print(i, pid, "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, [l for l in r.stdout.splitlines() if l][-2 if r.returncode == 1 else -1][:240], flush=True)
        shutil.rmtree(d)
def tests(ids):
    """all given patches together in /repo, build, test, undo"""
    base = json.load(open("/opt/vp/BASELINE.json"))
    assert sh("git -C /repo status --porcelain").stdout == ""
    try:
        for i in ids:
            r = sh("git -C /repo apply %s/%s/patch.diff" % (SD, i))
            if r.returncode: print("does not apply together:", i, r.stdout[:200])
        b = sh("bash /opt/vp/build.sh")
        if b.returncode: print("build fails", b.stdout[-2000:]); return
        sh("bash /opt/vp/test.sh /tmp/seed-out.json")
        o = json.load(open("/tmp/seed-out.json"))
        print({k: (len(v) if isinstance(v, list) else v) for k, v in o.items()})
        stable = set(base.get("stable") or base.get("passed") or base.get("tests") or [])
        print("stable", len(stable), "failing stable:", sorted(stable - set(o.get("passed", [])))[:20])
    finally:
        sh("git -C /repo checkout -- .")
if __name__ == "__main__":
    a = sys.argv[1]; ids = sys.argv[2:]
    if a == "make": make(ids[0])
    else: dict(verify=verify, catch=catch, tests=tests)[a](ids or allids())
