#!/usr/bin/env python3
"""run.py PROPERTY [quick|thorough] : build from /repo, search, replay, write evidence.

exit 0: held on everything explored; exit 1: VIOLATION line printed; 2: the check could not run."""
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
# properties decided with the sanitizer build, and extra stages
ASAN = {"C16", "C22", "C35", "C39", "C42"}
# properties of the generators that need the extended build (see compat/)
EXT = {"C%02d" % k for k in range(25, 42)} | {"C43", "C44", "C45"}


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build(cfg):
    out = os.path.join(V, "build", cfg)
    os.makedirs(out, exist_ok=True)
    # make goes by time stamps; a file whose content changed must be seen whatever its time
    stamp = os.path.join(out, "stamp.json")
    now = {f: hashlib.sha256(open(f, "rb").read()).hexdigest() for f in glob.glob(os.path.join(REPO, "src", "*", "*.*")) if f.endswith((".cpp", ".hpp", ".h"))}
    try:
        old = json.load(open(stamp))
    except (OSError, ValueError):
        old = {}
    diff = [f for f in set(now) | set(old) if now.get(f) != old.get(f)]
    if any(not f.endswith(".cpp") for f in diff):
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out, exist_ok=True)
    else:
        for f in diff:
            o = os.path.join(out, os.path.relpath(f, REPO))[:-4] + ".o"
            if os.path.exists(o):
                os.remove(o)
    if os.path.exists(stamp):
        os.remove(stamp)
    r = sh(["make", "-s", "-j8", "-f", os.path.join(V, "harness", "Makefile"), "CFG=" + cfg, "REPO=" + REPO, "OUT=" + out, os.path.join(out, "check")])
    exe = os.path.join(out, "check")
    if r.returncode != 0 or not os.path.exists(exe):
        print(r.stdout[-6000:])
        print("cannot build %s from %s" % (cfg, REPO))
        sys.exit(2)
    json.dump(now, open(stamp, "w"))
    return exe


def known():
    """entries 'known: property=<id> tag=<tag> match=<regex> :: what fails'"""
    res = []
    f = os.path.join(V, "known_findings.txt")
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r"known: property=(\S+) tag=(\S+) match=(.*?) :: (.*)", line.strip())
            if m:
                res.append(m.groups())
    return res


def main():
    if sys.argv[1] == "build":
        for cfg in ("plain", "asan", "ext", "extasan"):
            build(cfg)
        return
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    ev = os.path.join(V, "evidence", pid + ".json")
    if os.path.exists(ev):
        os.remove(ev)
    plain, asan = ("ext", "extasan") if pid in EXT else ("plain", "asan")
    stages = [asan if pid in ASAN else plain]
    if tier == "thorough" and pid not in ASAN:
        stages.append(asan)
    if pid in ("C22", "C39"):
        stages.append(plain)  # there the content of fresh memory is varied
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=99"
    rdir = os.path.join(V, "replays")
    os.makedirs(rdir, exist_ok=True)
    out = os.path.join(V, "build", "result_%s.json" % pid)
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "discarded": 0, "labels": {}, "samples": [], "stages": []}
    violations, rule = 0, ""
    rc = 0
    for cfg in stages:
        exe = build(cfg)
        tb = time.time()
        # 1. stored regression inputs
        regs = sorted(glob.glob(os.path.join(V, "regressions", pid + "_*.replay")))
        bad = None
        for f in regs:
            r = sh([exe, "--replay", f, "--tmp", os.path.join(V, "build")], env=env)
            cov["evaluations"] += 1
            if r.returncode == 1:
                bad = f
                print(r.stdout[-3000:])
                break
            if r.returncode != 0:
                print(r.stdout[-3000:])
                sys.exit(2)
        if bad:
            print("VIOLATION property=%s replay=%s" % (pid, bad))
            violations, rc = 1, 1
            cov["samples"].append({"violation": open(bad).read()[:4000]})
            break
        # 2. search
        cmd = [exe, "--prop", pid, "--seed", str(seed), "--tier", tier, "--out", out, "--replay-dir", rdir, "--tmp", os.path.join(V, "build")]
        mult = 1.0
        if tier == "thorough" and cfg == asan and pid not in ASAN:
            mult = 0.1
        if pid in ("C22", "C39") and cfg == plain:
            mult = 0.5
        cmd += ["--mult", str(mult), "--wall", os.environ.get("VERIF_WALL", "500" if tier == "quick" else "3000")]
        r = sh(cmd, env=env)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print(r.stdout[-4000:])
            sys.exit(2)
        d = json.load(open(out))
        os.remove(out)
        rule = d["rule"]
        cov["evaluations"] += d["evaluations"]
        cov["distinct_nontrivial"] += d["distinct_nontrivial"]
        cov["discarded"] += d["discarded"]
        for k, v in d["labels"].items():
            cov["labels"][k] = cov["labels"].get(k, 0) + v
        cov["samples"] += d["samples"][:3]
        cov["stages"].append({"build": cfg, "planned": d["planned"], "evaluations": d["evaluations"], "nontrivial": d["nontrivial"],
                              "regression_inputs": len(regs), "search_s": round(d["search_s"], 2), "unreproducible": d["unreproducible"]})
        print(r.stdout[-6000:])
        for k in [k for k in d["labels"] if k.startswith("known: ")]:
            kn = [e for e in known() if e[0] == pid and e[1] == k[7:]]
            if kn:
                print("KNOWN-FINDING: property=%s %s (%d cases)" % (pid, kn[0][3], d["labels"][k]))
            else:
                print("VIOLATION property=%s replay=%s" % (pid, out))
                violations, rc = 1, 1
        if d["violation"]:
            kn = [k for k in known() if k[0] == pid and k[1] == d["tag"] and re.search(k[2], d["msg"])]
            if kn:
                print("KNOWN-FINDING: property=%s %s" % (pid, kn[0][3]))
            else:
                print("VIOLATION property=%s replay=%s" % (pid, d["replay"]))
                violations, rc = 1, 1
                cov["samples"].append({"violation": d["tag"] + ": " + d["msg"]})
                break
        if rc:
            break
        if d["evaluations"] == 0 or d["distinct_nontrivial"] == 0:
            print("the search explored nothing (%d cases)" % d["evaluations"])
            sys.exit(2)
    cov["rule"] = rule
    json.dump({"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "violations": violations,
               "assumptions": ["OsiClp, CoinUtils and the C++ compiler are trusted",
                               "models are small enough for exhaustive enumeration of their integer points"],
               "wall_s": round(time.time() - t0, 2)}, open(ev, "w"), indent=1)
    sys.exit(rc)


main()
