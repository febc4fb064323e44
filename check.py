#!/usr/bin/env python3
"""Decide one property: check.py <Pnn> [quick|thorough]

exit 0: held on everything explored; exit 1 + VIOLATION line: broken; exit 2: the machinery failed."""
import sys, os, json, time, subprocess, tempfile, shutil, re, glob, hashlib
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
import props

JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class MachineryError(Exception): pass

def tlc(work, name, module, cfg, workers=2, env=None, heap="3g", extra=(), timeout=400):
    meta = os.path.join(work, "meta-" + name)
    cmd = ["java", "-Xmx" + heap, "-Xss256m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2",
           "-DTLA-Library=" + os.path.join(HERE, "specs"), "-cp", JARS, "tlc2.TLC",
           "-config", cfg, "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-nowarning",
           "-fpmem", "0.25", *extra, module]
    e = dict(os.environ); e.update(env or {})
    out = os.path.join(work, name + ".tlc.out")
    with open(out, "w") as f:
        try:
            r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=e, cwd=work, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -99
    shutil.rmtree(meta, ignore_errors=True)
    txt = open(out, errors="replace").read()
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", txt)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, txt, gen, dist

def compile_driver(work, d):
    src = os.path.join(HERE, "drivers", d["src"])
    exe = os.path.join(work, d.get("name", os.path.splitext(d["src"])[0]))
    cmd = [d.get("cxx", "g++"), "-std=" + d.get("std", "gnu++17"), *d.get("opt", ["-O1"]), "-g0", "-w", "-march=x86-64-v2", "-D_FILE_OFFSET_BITS=64",
           "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "drivers")]
    if d.get("asan", True): cmd += ["-fsanitize=address", "-fno-omit-frame-pointer"]
    if d.get("mem"):   # memory accesses call the scheduler (sched.hpp), not the race detector's run time
        obj = exe + ".o"
        r = subprocess.run(cmd + ["-fsanitize=thread", "-DSCHED_MEM"] + d.get("flags", []) + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode == 0:
            r = subprocess.run([d.get("cxx", "g++"), obj, os.path.join(HERE, "drivers", "schedmem.cpp"), "-O1", "-w", "-o", exe] + d.get("libs", []) + ["-lpthread"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        if r.returncode != 0:
            raise MachineryError("driver %s does not compile:\n%s" % (d["src"], r.stdout[-3000:]))
        return exe
    cmd += d.get("flags", []) + [src, "-o", exe] + d.get("libs", []) + ["-lpthread"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if r.returncode != 0:
        raise MachineryError("driver %s does not compile:\n%s" % (d["src"], r.stdout[-3000:]))
    return exe

def gen_scripts(txt):
    """behaviours printed by the model: <<"GEN", <<ints>>>>"""
    res = []
    for m in re.finditer(r'<<\s*"GEN",\s*<<(.*?)>>\s*>>', txt, re.S):
        res.append(" ".join(re.findall(r"-?\d+", m.group(1))))
    return sorted(set(res))

def run_driver(exe, out, seed, effort, script, shard, shards, timeout, env=None):
    e = dict(os.environ)
    e.update(env or {})
    scratch = out + ".d"
    os.makedirs(scratch, exist_ok=True)
    e["VERIF_SCRATCH"] = scratch
    try:
        r = subprocess.run([exe, out, str(seed), str(effort), script or "-", str(shard), str(shards)],
                           stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=e, cwd=scratch)
        rc, txt = r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as x:
        rc, txt = -99, (x.stdout or b"").decode(errors="replace")
    subprocess.run(["chmod", "-R", "u+rwx", scratch], stderr=subprocess.DEVNULL)
    shutil.rmtree(scratch, ignore_errors=True)
    return rc, txt

def split_state(txt):
    """t and i of the last state printed"""
    ts = re.findall(r"^(?:/\\ )?t = (\d+)", txt, re.M)
    is_ = re.findall(r"^(?:/\\ )?i = (\d+)", txt, re.M)
    return (int(ts[-1]), int(is_[-1])) if ts and is_ else None

def validate(work, name, traceMod, trace, workers, heap="3g", timeout=400):
    rc, txt, gen, dist = tlc(work, name, os.path.join(HERE, "specs", traceMod + ".tla"),
                             os.path.join(HERE, "specs", "Trace.cfg"), workers, {"TRACE": trace}, heap, timeout=timeout)
    if rc == 0:
        return None, gen, dist
    if rc == 12:
        st = split_state(txt)
        if st is None: raise MachineryError("cannot locate the rejected event\n" + txt[-2000:])
        return st, gen, dist
    raise MachineryError("TLC failed (%s) on %s:\n%s" % (rc, name, txt[-3500:]))

def main():
    t0 = time.time()
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = props.PROPS[pid]
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir="/tmp")
    keep = os.environ.get("VERIF_KEEP")
    try:
        rc = run(pid, tier, seed, spec, work, t0)
    except MachineryError as e:
        print("ERROR", pid, e); rc = 2
    except subprocess.TimeoutExpired as e:
        print("ERROR", pid, "timeout", e); rc = 2
    finally:
        if keep: print("work:", work)
        else: shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)

def run(pid, tier, seed, spec, work, t0):
    thorough = tier == "thorough"
    pool = ThreadPoolExecutor(8)
    drivers = spec["drivers"]
    comp = [pool.submit(compile_driver, work, d) for d in drivers]
    mcs = []
    mclist = [m for m in spec.get("mc", []) if thorough or not m.get("thorough_only")]
    def do_mc(k, m):
        cfg = m["cfg_thorough"] if thorough and "cfg_thorough" in m else m["cfg"]
        return tlc(work, "mc%d" % k, os.path.join(HERE, "specs", m["module"] + ".tla"), os.path.join(HERE, "specs", cfg + ".cfg"),
                   m.get("workers", 4), m.get("env"), m.get("heap", "4g"), m.get("extra_thorough" if thorough else "extra", m.get("extra", ())))
    mcs = [pool.submit(do_mc, k, m) for k, m in enumerate(mclist)]
    states = transitions = 0
    scripts = {}
    for m, f in zip(mclist, mcs):
        rc, txt, gen, dist = f.result()
        if rc != 0:
            raise MachineryError("model %s: TLC exit %s\n%s" % (m["module"], rc, txt[-3500:]))
        states += dist; transitions += gen
        if m.get("gen"):
            g = gen_scripts(txt)
            if not g: raise MachineryError("model %s printed no behaviours" % m["module"])
            p = os.path.join(work, m["gen"] + ".script")
            with open(p, "w") as fo: fo.write("\n".join(g) + "\n")
            scripts[m["gen"]] = (p, len(g))
    t1 = time.time()
    exes = [f.result() for f in comp]
    t2 = time.time()
    jobs = []
    for d, exe in zip(drivers, exes):
        n = d.get("shards_thorough" if thorough else "shards", d.get("shards", 4))
        for k in range(n):
            jobs.append((d, exe, k, n))
    def one(job, attempt):
        d, exe, k, n = job
        nm = "%s-%d-%d" % (os.path.basename(exe), k, attempt)
        out = os.path.join(work, nm + ".ndjson")
        eff = d.get("effort_thorough", 10) if thorough else d.get("effort", 1)
        script = scripts[d["script"]][0] if "script" in d else None
        rc, txt = run_driver(exe, out, seed * 1000 + k, eff, script, k, n, d.get("timeout", 600), d.get("env"))
        if rc not in (0, 77, 78):
            # the driver died without being able to record why
            if rc < 0 and rc != -99 or rc == 77:
                pass
            else:
                raise MachineryError("driver %s exit %s\n%s" % (nm, rc, txt[-3000:]))
        nsess = nev = 0
        ops = {}
        sample = None
        fixed = []
        with open(out, "rb") as f:
            for line in f:
                try: s = json.loads(line)
                except Exception:
                    raise MachineryError("bad session in %s: %r ... %s" % (nm, line[:300], txt[-800:]))
                nsess += 1; nev += len(s["ev"])
                for e in s["ev"]: ops[e["op"]] = ops.get(e["op"], 0) + 1
                if sample is None or (len(s["ev"]) > 1 and len(line) < 1500 and nsess < 50): 
                    if len(line) < 4000 or sample is None: sample = s
        if rc != 0 and not (ops.get("crash") or ops.get("hang")):
            raise MachineryError("driver %s died (%s) without a session\n%s" % (nm, rc, txt[-3000:]))
        if nsess == 0: raise MachineryError("driver %s recorded nothing\n%s" % (nm, txt[-2000:]))
        bad, gen, dist = validate(work, nm + "-v", d["trace"], out, d.get("workers", 2), d.get("heap", "3g"))
        return dict(bad=bad, gen=gen, dist=dist, nsess=nsess, nev=nev, ops=ops, sample=sample, out=out, txt=txt, job=job)
    results = list(ThreadPoolExecutor(spec.get("parallel", 4)).map(lambda j: one(j, 0), jobs))
    violation = None; unrepeated = []
    for r in results:
        if r["bad"] is not None:
            # a rejection counts only when a re-run repeats it
            os.rename(r["out"], r["out"] + ".first")
            for attempt in range(1, 1 + spec.get("retries", 3)):
                r2 = one(r["job"], attempt)
                if r2["bad"] is not None: break
            else:
                # the same seed was accepted every other time: the machine, not the code (a full disk, a stalled process); the re-run counts
                with open(r["out"] + ".first") as f: lines = f.readlines()
                s = json.loads(lines[r["bad"][0] - 1]); unrepeated.append(s["ev"][r["bad"][1] - 1])
                print("note: %s rejected once and not again: %s" % (r["job"][0]["src"], json.dumps(unrepeated[-1])[:400]))
                r.update(r2); continue
            violation = r2; break
    allops = {}
    for r in results:
        for k, v in r["ops"].items(): allops[k] = allops.get(k, 0) + v
    if violation is None:
        missing = [o for o in spec.get("ops", []) if not allops.get(o)]
        if missing: raise MachineryError("vacuous: operations never observed: %s" % missing)
    replay = None
    if violation is not None:
        tt, ii = violation["bad"]
        with open(violation["out"]) as f:
            for n, line in enumerate(f, 1):
                if n == tt: s = json.loads(line); break
        s["rejected_event"] = ii
        s["ev"] = s["ev"][:ii]
        s["property"] = pid
        s["driver"] = violation["job"][0]["src"]
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        replay = os.path.join(HERE, "evidence", "replay", pid + ".json")
        json.dump(s, open(replay, "w"), indent=0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cov = dict(states=states + sum(r["dist"] for r in results), transitions=transitions + sum(r["gen"] for r in results),
        traces_validated_against_impl=sum(r["nsess"] for r in results), samples=[r["sample"] for r in results][:2],
        model_states=states, events=sum(r["nev"] for r in results), ops=allops,
        rejected_once_not_repeated=unrepeated, model_behaviours_replayed=sum(n for _, n in scripts.values()))
    ev = dict(property=pid, tier="thorough" if thorough else "quick", seed=seed, level=spec.get("level", "model_checking"),
        coverage=cov, assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=0 if violation is None else 1)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for kf in known_findings(pid): print("KNOWN-FINDING: property=%s %s" % (pid, kf))
    if violation is not None:
        print("rejected: session %d event %d of %s: %s" % (tt, ii, violation["job"][0]["src"], json.dumps(s["ev"][-1])[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    print("OK %s: model %d states; %d sessions / %d events validated; %.1fs (model %.1f, compile until %.1f)" % (pid, states, cov["traces_validated_against_impl"], cov["events"], time.time() - t0, t1 - t0, t2 - t0))
    return 0

def known_findings(pid):
    p = os.path.join(HERE, "known_findings.txt")
    r = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) (.*)", l)
            if m and m.group(1) == pid: r.append(m.group(2).strip())
    return r

if __name__ == "__main__": main()
