#!/usr/bin/env python3
"""Mutation survey: mutate.py OUT.jsonl N [props...]
For every property, plant up to N small syntactic changes in the files it is anchored in, drop those that leave the
compiled drivers unchanged, and record whether the check rejects them. Survivors are read by hand. Not part of any check."""
import sys, os, re, json, random, shutil, tempfile, hashlib, subprocess, traceback, time
from concurrent.futures import ProcessPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
RP = os.environ.get("VERIF_REPO", "/repo")
CACHE = "/tmp/mt/cache"

def blank_comments(s):
    def f(m):
        t = m.group(0)
        return t if t[0] in "\"'" else re.sub(r"[^\n]", " ", t)
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', f, s, flags=re.S)

OPS = [
    (r"(?<![<\w&])\s<\s(?=[^<])", [" <= ", " > "]), (r"\s<=\s", [" < "]), (r"\s>\s(?!\{)", [" >= ", " < "]), (r"\s>=\s", [" > "]),
    (r"\s==\s", [" != "]), (r"\s!=\s", [" == "]), (r"\s&&\s", [" || "]), (r"\s\|\|\s", [" && "]),
    (r"\s\+\s1\b", ["", " + 2"]), (r"\s-\s1\b", ["", " - 2"]), (r"\s\+\s", [" - "]), (r"\s-\s", [" + "]), (r"\s\+=\s", [" -= ", " = "]), (r"\s-=\s", [" += "]),
    (r"\s%\s", [" / "]), (r"\s/\s", [" * "]), (r"\s\*\s(?=[\w(])", [" + "]), (r"\s<<\s", [" >> "]), (r"\s>>\s", [" << "]), (r"\s&\s", [" | "]), (r"\s\|\s", [" & "]), (r"\s\^\s", [" | "]),
    (r"\+\+(?=\w)|(?<=\w)\+\+", [""]), (r"(?<![\w.])(\d+)\b(?!\.)", ["INC"]), (r"(?<![\w.])0x[0-9a-fA-F]+\b", ["HEX"]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"(?<=[(\s])!(?=[\w(])", [""]),
    (r"\bif \((?=[^)])", ["if (!(0) || ", "if (false && "]), (r"\bbreak;", [";"]), (r"\bcontinue;", [";"]),
]
def mutants(path):
    src = open(path).read(); b = blank_comments(src)
    res = []
    lines = b.split("\n"); off = 0; skip = 0
    offs = []
    for l in lines:
        st = l.strip()
        ok = True
        if st.startswith("#"): ok = False
        if "assert(" in st or st.startswith("template") or st.startswith("typedef") or "operator" in st and st.endswith(")"): ok = False
        if ok and st:
            for rx, reps in OPS:
                for m in re.finditer(rx, l):
                    for r in reps:
                        if r == "INC": r = str(int(m.group(1)) + 1)
                        elif r == "HEX": r = hex(int(m.group(0), 16) + 1)
                        res.append((off + m.start(), off + m.end(), r))
            if re.match(r"^\s*[\w.>\[\]*()&,\s+:-]+(\(.*\)|\s[-+|&^]?=\s.*|\+\+|--);$", l) and not re.match(r"^\s*(return|throw|typedef|using|const\b|static\b|struct\b|[\w:<>]+\s+[\w*&]+\s*(=|\(|;))", l):
                i = len(l) - len(l.lstrip())
                res.append((off + i, off + len(l), ";"))
        off += len(l) + 1
    return src, res

def show(src, m):
    a, e, r = m
    ln = src.count("\n", 0, a) + 1
    s = src.rfind("\n", 0, a) + 1; t = src.find("\n", e)
    return ln, src[s:t].strip(), (src[s:a] + r + src[e:t]).strip()

def one(task):
    pid, rel, m = task
    import check, props
    check.HERE = H
    w = tempfile.mkdtemp(prefix="mut-", dir="/tmp/mt")
    try:
        shutil.copytree(RP + "/include", w + "/r/include")
        p = w + "/r/" + rel; src = open(p).read()
        open(p, "w").write(src[:m[0]] + m[2] + src[m[1]:])
        ln, a, b = show(src, m)
        res = dict(prop=pid, file=rel, line=ln, old=a, new=b)
        check.REPO = w + "/r"
        spec = dict(props.PROPS[pid]); spec["retries"] = 1
        exes = {}
        same = True
        for d in spec["drivers"]:
            os.makedirs(w + "/c", exist_ok=True)
            try: exe = check.compile_driver(w + "/c", d)
            except check.MachineryError: res["r"] = "nocompile"; return res
            h = hashlib.sha256(open(exe, "rb").read()).hexdigest()
            if h != base_hash(pid, d): same = False
            exes[d.get("name", d["src"])] = exe
        if same: res["r"] = "same"; return res
        check.compile_driver = lambda work, d: exes[d.get("name", d["src"])]
        real = check.tlc_real if hasattr(check, "tlc_real") else check.tlc
        check.tlc_real = real
        def tlc(work, name, module, cfg, *k, **kw):
            if not name.startswith("mc"): return real(work, name, module, cfg, *k, **kw)
            c = CACHE + "/" + pid + "-" + name + ".json"
            return json.load(open(c))
        check.tlc = tlc
        work = w + "/w"; os.makedirs(work)
        import io, contextlib
        buf = io.StringIO(); t0 = time.time()
        # evidence goes to the scratch folder
        os.makedirs(w + "/h"); 
        for x in ("specs", "drivers"): os.symlink(H + "/" + x, w + "/h/" + x)
        check.HERE = w + "/h"
        try:
            with contextlib.redirect_stdout(buf): rc = check.run(pid, "quick", 1, spec, work, t0)
            res["r"] = {0: "SURVIVED", 1: "caught"}[rc]
        except check.MachineryError as e: res["r"] = "ERROR"; res["msg"] = str(e)[-600:]
        except Exception as e: res["r"] = "ERROR"; res["msg"] = repr(e)[:300]
        finally: check.HERE = H
        res["t"] = round(time.time() - t0, 1)
        return res
    finally:
        import importlib
        importlib.reload(check)
        subprocess.run(["chmod", "-R", "u+rwx", w], stderr=subprocess.DEVNULL)
        shutil.rmtree(w, ignore_errors=True)

def base_hash(pid, d): return open(CACHE + "/%s-%s.hash" % (pid, d.get("name", d["src"]))).read()

def prep(pid):
    import check, props
    check.HERE = H; check.REPO = RP
    spec = props.PROPS[pid]
    w = tempfile.mkdtemp(prefix="prep-", dir="/tmp/mt")
    for k, m in enumerate(spec.get("mc", [])):
        if m.get("thorough_only"): continue
        r = check.tlc(w, "mc%d" % k, H + "/specs/" + m["module"] + ".tla", H + "/specs/" + m["cfg"] + ".cfg", m.get("workers", 4), m.get("env"), m.get("heap", "4g"), m.get("extra", ()))
        json.dump(r, open(CACHE + "/%s-mc%d.json" % (pid, k), "w"))
    # binaries do not depend on the folder they are built in: built where the mutants are
    shutil.copytree(RP + "/include", w + "/r/include"); os.makedirs(w + "/c")
    check.REPO = w + "/r"
    for d in spec["drivers"]:
        exe = check.compile_driver(w + "/c", d)
        open(CACHE + "/%s-%s.hash" % (pid, d.get("name", d["src"])), "w").write(hashlib.sha256(open(exe, "rb").read()).hexdigest())
    shutil.rmtree(w, ignore_errors=True)
    return pid

def main():
    out, n = sys.argv[1], int(sys.argv[2])
    os.makedirs(CACHE, exist_ok=True)
    ids = sys.argv[3:]
    P = {}
    for l in open(H + "/properties.jsonl"):
        d = json.loads(l); P[d["id"]] = d["anchors"]["files"] if "anchors" in d else d["anchor"]["files"]
    ids = ids or sorted(P)
    only = os.environ.get("MUT_FILE")
    tasks = []
    rnd = random.Random(int(os.environ.get("MUT_SEED", "1")))
    for pid in ids:
        fs = P[pid]; own = []
        for k, f in enumerate(fs):
            if only and only not in f: continue
            src, ms = mutants(RP + "/" + f); rnd.shuffle(ms)
            own.append([(pid, f, m) for m in ms])
        got = []
        if only: got = own[0]
        else:
            for k, o in enumerate(own): got += o[:n if k == 0 else max(1, n // 3)]
        tasks.append(got[:n] if only else got)
    with ProcessPoolExecutor(int(os.environ.get("MUT_J", "3"))) as ex:
        for _ in ex.map(prep, ids): pass
        print("prepared", flush=True)
        flat = [t for i in range(max(map(len, tasks))) for x in tasks if i < len(x) for t in [x[i]]]
        print(len(flat), "mutants", flush=True)
        with open(out, "a") as f:
            for r in ex.map(one, flat):
                f.write(json.dumps(r) + "\n"); f.flush()
if __name__ == "__main__": main()
