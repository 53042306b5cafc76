#!/usr/bin/env python3
"""Driver: builds /repo's current sources plus one harness, explores, reports.

  python3 run.py check C01        (tier from VERIF_TIER, seed from VERIF_SEED)
  python3 run.py replay C01 FILE  re-runs a recorded case against the current tree
  python3 run.py setup            compiles the framework and all harnesses once
Exit: 0 held, 1 violation (VIOLATION line), 2 the check itself could not run.
"""
import sys, os, json, hashlib, subprocess, time, shutil, tempfile, glob, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
ALLOC = ["malloc", "calloc", "realloc", "free", "strdup", "strndup"]
COMMON = ["-O1", "-g", "-w", "-fno-omit-frame-pointer", "-U_FORTIFY_SOURCE", "-fno-common"]
VARIANT = {
    "asan": dict(cc="gcc", cxx="g++", lib=["-fsanitize=address"], harness=["-fsanitize=address"], link=["-fsanitize=address"]),
    "tracepc": dict(cc="gcc", cxx="g++", lib=["-fsanitize-coverage=trace-pc"], harness=[], link=[]),
    "plain": dict(cc="gcc", cxx="g++", lib=[], harness=[], link=[]),
    "tsan": dict(cc="gcc", cxx="g++", lib=["-fsanitize=thread"], harness=["-fsanitize=thread"], link=["-fsanitize=thread", "-lpthread"]),
    "fuzz": dict(cc="clang", cxx="clang++", lib=["-fsanitize=address,fuzzer-no-link"], harness=["-fsanitize=address,fuzzer-no-link", "-DPBT_FUZZER"], link=["-fsanitize=address,fuzzer"]),
}
sys.path.insert(0, HERE)
from checks_table import CHECKS

def sha(*parts):
    h = hashlib.sha256()
    for p in parts: h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:20]

def die(msg):
    sys.stderr.write(msg + "\n"); sys.exit(2)

def repo_files():
    fs = []
    for root in ("src", "include"):
        for d, _, names in os.walk(os.path.join(REPO, root)):
            for n in names:
                if n.endswith((".c", ".h")): fs.append(os.path.join(d, n))
    return sorted(fs)

_digest = None
def repo_digest():
    global _digest
    if _digest is None:
        h = hashlib.sha256()
        for f in repo_files():
            h.update(f.encode() + b"\0"); h.update(open(f, "rb").read()); h.update(b"\0")
        _digest = h.hexdigest()[:20]
    return _digest

def include_digest():
    h = hashlib.sha256()
    for f in repo_files():
        if f.startswith(os.path.join(REPO, "include") + os.sep): h.update(f.encode() + b"\0"); h.update(open(f, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:20]

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def compile_many(jobs, cwd=None):
    """jobs: (cmd, target)"""
    with cf.ThreadPoolExecutor(8) as ex:
        for (cmd, tgt), r in zip(jobs, ex.map(lambda j: run(j[0], cwd=cwd), jobs)):
            if r.returncode: die("compile failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))

def build_lib(variant):
    """all of /repo/src, instrumented, as an archive in a content-addressed directory"""
    v = VARIANT[variant]
    key = sha(repo_digest(), variant, v, COMMON)
    d = os.path.join(BUILD, "lib-%s-%s" % (variant, key)); ar = os.path.join(d, "libulz.a")
    if os.path.exists(ar): return ar
    for old in glob.glob(os.path.join(BUILD, "lib-%s-*" % variant)):
        if time.time() - os.path.getmtime(old) > 3600: shutil.rmtree(old, ignore_errors=True)
    tmp = tempfile.mkdtemp(prefix="tmp-lib-", dir=BUILD)
    jobs, objs = [], []
    for f in sorted(glob.glob(os.path.join(REPO, "src", "*", "*.c"))):
        o = os.path.join(tmp, os.path.relpath(f, REPO).replace("/", "_")[:-2] + ".o"); objs.append(o)
        jobs.append(([v["cc"], "-std=c99"] + COMMON + v["lib"] + ["-I" + os.path.join(REPO, "include"), "-c", f, "-o", o], o))
    compile_many(jobs)
    r = run(["ar", "rcs", os.path.join(tmp, "libulz.a")] + objs)
    if r.returncode: die(r.stdout)
    for o in objs: os.unlink(o)
    try: os.rename(tmp, d)
    except OSError: shutil.rmtree(tmp, ignore_errors=True)
    return ar

def build_harness(cid, variant):
    c = CHECKS[cid]; v = VARIANT[variant]
    lib = build_lib(variant)
    srcs = [os.path.join(HERE, "checks", s) for s in c["src"]] + [os.path.join(HERE, "lib", "pbt.cpp")]
    wraps = list(c.get("wrap", []))
    if c.get("alloc", True): wraps += ALLOC; srcs.append(os.path.join(HERE, "lib", "wrap_alloc.c"))
    else: srcs.append(os.path.join(HERE, "lib", "noalloc.c"))
    deps = srcs + glob.glob(os.path.join(HERE, "checks", "*.h")) + glob.glob(os.path.join(HERE, "checks", "*.hpp")) + glob.glob(os.path.join(HERE, "checks", "*.inc")) + glob.glob(os.path.join(HERE, "lib", "*.hpp"))
    key = sha(repo_digest(), variant, v, c, *[open(f, "rb").read() for f in sorted(deps)])
    exe = os.path.join(BUILD, "bin-%s-%s-%s" % (cid, variant, key))
    if os.path.exists(exe): return exe
    for old in glob.glob(os.path.join(BUILD, "bin-%s-%s-*" % (cid, variant))):
        try: os.unlink(old)
        except OSError: pass
    tmp = tempfile.mkdtemp(prefix="tmp-bin-", dir=BUILD)
    # harness objects depend on the sources and headers, not on /repo/src: kept across library changes
    # (unless a shim includes a library source directly)
    dg = repo_digest() if any(b"../src/" in open(f, "rb").read() for f in srcs) else include_digest()
    odir = os.path.join(BUILD, "obj-%s-%s-%s" % (cid, variant, sha(dg, variant, v, c, *[open(f, "rb").read() for f in sorted(deps)])))
    jobs, objs = [], []
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(HERE, "lib"), "-I" + os.path.join(HERE, "checks")]
    for s in srcs:
        o = os.path.join(odir if os.path.isdir(odir) else tmp, os.path.basename(s) + ".o"); objs.append(o)
        if os.path.isdir(odir): continue
        # C shims contain header-only library code: same instrumentation as the library
        if s.endswith(".c"): cmd = [v["cc"], "-std=gnu99"] + COMMON + (v["lib"] if "/checks/" in s else v["harness"])
        else: cmd = [v["cxx"], "-std=c++17"] + COMMON + v["harness"]
        jobs.append((cmd + c.get("cflags", []) + inc + ["-c", s, "-o", o], o))
    compile_many(jobs)
    out = os.path.join(tmp, "exe")
    r = run([v["cxx"], "-no-pie"] + objs + [lib] + v["link"] + c.get("link", []) + (["-Wl," + ",".join("--wrap=" + w for w in wraps)] if wraps else []) + ["-o", out])
    if r.returncode: die("link failed: " + r.stdout[-4000:])
    os.rename(out, exe)
    if not os.path.isdir(odir):
        for old in glob.glob(os.path.join(BUILD, "obj-%s-%s-*" % (cid, variant))): shutil.rmtree(old, ignore_errors=True)
        try: os.rename(tmp, odir)
        except OSError: pass
    shutil.rmtree(tmp, ignore_errors=True)
    return exe

def fuzz_campaign(cid, seed, scratch, seconds, replay):
    """coverage-guided search over the same property functions (libFuzzer, 8 jobs)"""
    exe = build_harness(cid, "fuzz"); gexe = build_harness(cid, CHECKS[cid].get("variant", "asan"))
    corp = os.path.join(scratch, "corpus"); os.makedirs(corp); art = os.path.join(scratch, "art") + "/"; os.makedirs(art)
    procs = []; env = dict(os.environ, VERIF_SEED=str(seed))
    for j in range(8):
        log = open(os.path.join(scratch, "fuzz%d.log" % j), "w")
        procs.append((subprocess.Popen([exe, corp, "-seed=%d" % (seed * 1000 + j + 1), "-max_total_time=%d" % seconds, "-artifact_prefix=" + art, "-rss_limit_mb=3500", "-timeout=60", "-max_len=4096", "-reload=5", "-print_final_stats=1", "-use_value_profile=%d" % (j % 2), "-detect_leaks=0"], stdout=log, stderr=log, env=env, cwd=scratch), log))
    for p, _ in procs:
        try: p.wait(seconds + 300)
        except subprocess.TimeoutExpired: p.kill(); p.wait()
    execs = 0; cov = 0
    for p, log in procs:
        log.close()
        for line in open(log.name, errors="replace"):
            if line.startswith("stat::number_of_executed_units:"): execs += int(line.split()[-1])
            if " cov: " in line:
                try: cov = max(cov, int(line.split(" cov: ")[1].split()[0]))
                except ValueError: pass
    arts = sorted(glob.glob(art + "*")); res = {"libfuzzer_executions": execs, "libfuzzer_edges": cov, "libfuzzer_corpus": len(os.listdir(corp)), "artifacts": len(arts)}
    for a in arts:
        if os.path.basename(a).startswith(("oom-", "slow-")): continue
        out = os.path.join(scratch, "fz.json")
        r = subprocess.run([gexe, "--bytes-file", a, "--seed", str(seed), "--scratch", scratch, "--replay-out", replay, "--out", out], stdin=subprocess.DEVNULL)
        if r.returncode == 1: return res, json.load(open(out))
    return res, None

def check(cid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick"); tier = tier if tier in ("quick", "thorough") else "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    c = CHECKS[cid]; os.makedirs(BUILD, exist_ok=True)
    exe = build_harness(cid, c.get("variant", "asan")); os.environ["PBT_PLAINLIB"] = build_lib("plain") if c.get("plainlib") else ""
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % cid)
    try:
        out = os.path.join(scratch, "result.json"); rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
        replay = os.path.join(rdir, "%s-%s-%d.replay" % (cid, tier, seed))
        if os.path.exists(replay): os.unlink(replay)
        p = subprocess.run([exe, "--seed", str(seed & ((1 << 63) - 1)), "--tier", tier, "--out", out, "--scratch", scratch, "--replay-out", replay, "--scale", str(c.get("qs", 1))], stdin=subprocess.DEVNULL, cwd=scratch)
        if p.returncode not in (0, 1) or not os.path.exists(out): die("%s: harness ended with status %d" % (cid, p.returncode))
        r = json.load(open(out)); fz = None; retries = 0
        while r["inconclusive"] and retries < 2 and time.time() - t0 < (200 if tier == "quick" else 3000):  # a failure that did not repeat ended the exploration: explore again
            retries += 1; first = r["message"]
            p = subprocess.run([exe, "--seed", str(seed & ((1 << 63) - 1)), "--tier", tier, "--out", out, "--scratch", scratch, "--replay-out", replay, "--scale", str(c.get("qs", 1))], stdin=subprocess.DEVNULL, cwd=scratch)
            if p.returncode not in (0, 1) or not os.path.exists(out): die("%s: harness ended with status %d" % (cid, p.returncode))
            r = json.load(open(out))
        if tier == "thorough" and not r["violation"] and c.get("fuzz_s"):
            fz, bad = fuzz_campaign(cid, seed, scratch, int(os.environ.get("VERIF_FUZZ_S", c["fuzz_s"])), replay)
            if bad: r.update(violation=True, message=bad["message"], case=bad["case"], leg=bad["leg"])
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    known = load_known(cid)
    cov = {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"], "rule": r["rule"], "samples": r["samples"] or ["(violation found before samples were taken) " + r["case"]],
           "legs": r["legs"], "labels": r["labels"], "stopped_by_time": r["stopped_by_time"], "workers": r["workers"], "explore_s": r["explore_s"]}
    if r["hashes_dropped"]: cov["distinct_note"] = "hash table full: %d further non-trivial cases not counted as distinct" % r["hashes_dropped"]
    if r["legs"] and all(l["exhaustive"] for l in r["legs"]): cov["exhaustive"] = True
    if fz: cov.update(fz)
    if r["inconclusive"]: cov["inconclusive"] = "one failing case did not reproduce: " + r["message"][:300]
    elif retries: cov["explored_again_after"] = "a failing case that did not reproduce: " + first[:300]
    if r["violation"]: cov["violation"] = {"leg": r["leg"], "message": r["message"], "case": r["case"], "shrink_evaluations": r["shrink_evals"]}
    ev = {"property": cid, "tier": tier, "seed": seed, "level": c.get("level", "exploration"), "coverage": cov,
          "assumptions": c.get("assumptions", []) + ["library compiled from /repo/src and /repo/include with gcc -O1 (-std=c99) on this machine"], "wall_s": round(time.time() - t0, 2), "violations": 1 if r["violation"] else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    tmp = os.path.join(HERE, "evidence", ".%s.%d" % (cid, os.getpid()))
    with open(tmp, "w") as f: json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(HERE, "evidence", cid + ".json"))
    for k in known: print("KNOWN-FINDING: property=%s %s" % (cid, known[k]))
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s%s" % (cid, tier, seed, r["evaluations"], r["distinct_nontrivial"], time.time() - t0, " (%d libFuzzer executions)" % fz["libfuzzer_executions"] if fz else ""))
    if r["violation"]:
        print("VIOLATION property=%s replay=%s" % (cid, replay)); return 1
    return 0

def load_known(cid):
    """known_findings.txt: lines  known: property=<id> tag=<tag> <what fails>"""
    res = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: property=%s tag=" % cid):
                tag, _, what = line.split("tag=", 1)[1].strip().partition(" "); res[tag] = what
    return res

def main():
    a = sys.argv[1:]
    if a[:1] == ["check"] and len(a) == 2 and a[1] in CHECKS: sys.exit(check(a[1]))
    if a[:1] == ["replay"] and len(a) == 3:
        os.makedirs(BUILD, exist_ok=True); exe = build_harness(a[1], CHECKS[a[1]].get("variant", "asan")); os.environ["PBT_PLAINLIB"] = build_lib("plain") if CHECKS[a[1]].get("plainlib") else ""; s = tempfile.mkdtemp(prefix="verif-replay-")
        try: sys.exit(subprocess.run([exe, "--replay", os.path.abspath(a[2]), "--scratch", s], cwd=s).returncode)
        finally: shutil.rmtree(s, ignore_errors=True)
    if a[:1] == ["setup"]:
        os.makedirs(BUILD, exist_ok=True)
        for cid in CHECKS: build_harness(cid, CHECKS[cid].get("variant", "asan"))
        print("built %d harnesses" % len(CHECKS)); sys.exit(0)
    die(__doc__)
main()
