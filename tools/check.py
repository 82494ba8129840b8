#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : builds the property's harness
from /repo's working tree, runs the generated-input search, writes evidence."""
import hashlib, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, ".build")
REPLAYS = os.path.join(V, "replays")
sys.path.insert(0, os.path.join(V, "tools"))
from runs import RUNS, RULES  # noqa

ASAN = ["g++", "-std=c++17", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-omit-frame-pointer", "-w"]
TSANI = ["g++", "-std=c++17", "-O1", "-g1", "-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0", "-DPBT_SCHED", "-w"]
PLAIN = ["g++", "-std=c++17", "-O1", "-g1", "-w"]

def tree_hash():
    h = hashlib.sha256()
    for top in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), os.path.join(V, "lib"), os.path.join(V, "harness"), os.path.join(V, "shim")):
        for d, ds, fs in os.walk(top):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, "rb").read())
    h.update(open(os.path.join(V, "tools", "check.py"), "rb").read())
    return h.hexdigest()[:20]

def compile_all(jobs):
    """jobs: list of (cmd, out). Run in parallel; returns error text or None."""
    procs = []
    for cmd, out in jobs:
        if os.path.exists(out):
            continue
        tmp = out + ".tmp%d.o" % os.getpid()
        procs.append((subprocess.Popen(cmd + ["-o", tmp], stderr=subprocess.PIPE, text=True), tmp, out, cmd))
    err = None
    for p, tmp, out, cmd in procs:
        e = p.communicate()[1]
        if p.returncode:
            err = err or ("%s\n%s" % (" ".join(cmd), e[-4000:]))
        else:
            if "-fsanitize=thread" in cmd:  # block copies become switch points too
                subprocess.check_call(["objcopy"] + ["--redefine-sym=%s=sim_%s" % (x, x) for x in ("memcpy", "memmove", "memset", "memcmp")] + [tmp])
            if "-DREPO_PROGRAM" in cmd:  # a program of the repository, called by the harness
                subprocess.check_call(["objcopy", "--redefine-sym=main=repo_main", tmp])
            os.rename(tmp, out)
    return err

def build(run, th):
    d = os.path.join(BUILD, th)
    os.makedirs(d, exist_ok=True)
    inc = ["-I" + os.path.join(V, "shim"), "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src/benchmark"), "-I" + os.path.join(V, "lib")] + ["-I" + os.path.join(REPO, x) for x in run.get("inc", [])]
    ids = ["-DSIM_MAX_IDS=%d" % run["ids"]] if "ids" in run else []
    defs = ["-D" + x for x in run.get("defs", [])] + ids
    # recorded findings: what they break is left out of the generated inputs
    known = [] if os.environ.get("VERIF_NOKNOWN") else json.load(open(os.path.join(V, "known_findings.json")))["known"]
    defs += sorted("-DKF_" + k["probe"].replace("-", "_") for k in known if k["property"] in run.get("defs", []))
    key = hashlib.sha256(json.dumps([run["src"], run["mode"], defs, run.get("parts")]).encode()).hexdigest()[:12]
    base = os.path.splitext(os.path.basename(run["src"][0]))[0]
    exe = os.path.join(d, "%s-%s" % (base, key))
    if os.path.exists(exe):
        return exe, None
    objs, jobs = [], []
    mode = run["mode"]
    for s in run["src"]:
        cc = {"asan": ASAN, "plain": PLAIN, "sched": TSANI}[mode]
        path = s if os.path.isabs(s) else os.path.join(V, s)
        if s.startswith("repo:"):
            path = os.path.join(REPO, s[5:])
            cc = cc + ["-DREPO_PROGRAM"]
        for part in range(run.get("parts", 1)):  # one file, its configurations spread over several objects
            pd = defs + (["-DPART=%d" % part] if "parts" in run else [])
            o = os.path.join(d, hashlib.sha256((path + mode + str(pd)).encode()).hexdigest()[:16] + ".o")
            jobs.append((cc + pd + inc + ["-c", path], o)); objs.append(o)
    libs = ["pbt.cpp", "sched.cpp" if mode == "sched" else "sim_plain.cpp"]
    for s in libs:
        cc = ASAN if mode == "asan" else PLAIN
        o = os.path.join(d, "%s.%s%s.o" % (s, "asan" if mode == "asan" else mode, run.get("ids", "")))
        jobs.append((cc + ids + (["-O2", "-DPBT_SCHED"] if mode == "sched" else []) + inc + ["-c", os.path.join(V, "lib", s)], o)); objs.append(o)
    err = compile_all(jobs)
    if err:
        return None, err
    link = (ASAN if mode == "asan" else PLAIN) + objs + ["-lpthread"]
    err = compile_all([(link, exe)])
    return exe, err

def prune(th):
    if not os.path.isdir(BUILD):
        return
    ds = sorted((os.path.join(BUILD, x) for x in os.listdir(BUILD)), key=os.path.getmtime)
    for x in ds[:-3]:
        if os.path.basename(x) != th:
            shutil.rmtree(x, ignore_errors=True)

def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for t in ("g++",):
            if not shutil.which(t):
                print("missing tool", t); return 2
        os.makedirs(BUILD, exist_ok=True); os.makedirs(REPLAYS, exist_ok=True)
        return 0
    if a and a[0] == "--replay":
        path = os.path.abspath(a[1])
        prop = [l.split()[1] for l in open(path) if l.startswith("property ")][0]
        th = tree_hash()
        for r in RUNS[prop]:
            exe, err = build(r, th)
            if err: print(err); return 2
            rc = subprocess.call([exe, "--replay", path, "--replay-dir", "/tmp", "--case-cpu", "30", "--stderr"])
            if rc != 2: return rc
        return 2
    prop = a[0]
    tier = "quick"
    if os.environ.get("VERIF_TIER") in ("quick", "thorough"):
        tier = os.environ["VERIF_TIER"]
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    th = tree_hash()
    os.makedirs(REPLAYS, exist_ok=True)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    prune(th)
    known = json.load(open(os.path.join(V, "known_findings.json")))
    if os.environ.get("VERIF_NOKNOWN"):  # for trees with the repairs of findings/
        known["known"] = []
    knownset = {(k["property"], k["probe"]): k for k in known["known"]}
    scale = 1.0
    if "--scale" in a:
        scale = float(a[a.index("--scale") + 1])
    cov = dict(evaluations=0, distinct_nontrivial=0, rule=RULES[prop], samples=[], classes={}, runs=[], probes_replayed=0)
    viol, notes = [], []
    nruns = len(RUNS[prop])
    for ri, r in enumerate(RUNS[prop]):
        exe, err = build(r, th)
        if err:
            print("harness for %s does not build:\n%s" % (prop, err))
            return 2
        n = int(r["cases"][0 if tier == "quick" else 1] * scale)
        maxs = (240.0 if tier == "quick" else 700.0) / nruns
        out = os.path.join(BUILD, th, "%s.%d.%d.json" % (prop, ri, os.getpid()))
        cmd = [exe, "--property", prop, "--seed", str(seed), "--cases", str(n), "--workers", "8", "--max-s", str(maxs),
               "--out", out, "--replay-dir", REPLAYS, "--shrink-s", "40", "--case-cpu", str(r.get("case_cpu", 30))]
        res = None
        for attempt in range(3):
            rc = subprocess.call(cmd)
            if rc in (0, 1, 3):
                res = json.load(open(out)); os.unlink(out)
            else:
                print("harness %s ended with %d" % (exe, rc)); return 2
            if rc != 3:
                break
        if not res["evaluations"] and not res["failure"]:
            print("harness %s generated nothing" % exe); return 2
        cov["evaluations"] += res["evaluations"]
        cov["distinct_nontrivial"] += res["distinct_nontrivial"]
        cov["probes_replayed"] += res["probes"]
        for k, v in res["labels"].items():
            cov["classes"][k] = cov["classes"].get(k, 0) + v
        cov["runs"].append(dict(harness=r["src"][0], mode=r["mode"], evaluations=res["evaluations"], sub_checks=res["subs"], planned=n, wall_s=round(res["wall_s"], 1)))
        cov["samples"] += res["samples"][:4 if nruns == 1 else 2]
        for p in res["probe_failures"]:
            k = knownset.get((prop, p["name"]))
            if k:
                print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                notes.append("known finding: " + k["what"])
            else:
                viol.append((p["why"], p["replay"]))
        f = res["failure"]
        if f:
            if f.get("reproduced"):
                viol.append((f["why"], f["replay"]))
            else:
                # fails every time as a campaign, but not from its choices alone
                path = os.path.join(REPLAYS, "%s-campaign.txt" % prop)
                open(path, "w").write("campaign (run from /verif): VERIF_SEED=%d python3 tools/check.py %s --tier %s\nsub %s case %s\nwhy %s\n" % (seed, prop, tier, f["sub"], f["case"], f["why"]))
                viol.append((f["why"] + " (reproduced three times as a campaign)", path))
    if not cov["samples"]:
        cov["samples"] = ["run stopped at a violation"]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=notes, wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for why, path in viol:
        print("# " + why[:600].replace("\n", " "))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    if not viol:
        print("%s: held on %d cases (%d distinct non-trivial) in %.0fs" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 1 if viol else 0
sys.exit(main())
