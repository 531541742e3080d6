#!/usr/bin/env python3
"""Runner:  python3 vrun.py <property|setup> [quick|thorough]

Compiles the property's drivers against /repo's current headers, runs them (sharded over the cores) under
the instrumentation named in PLAN, collects what the monitors observed, matches violations against
KNOWN_FINDINGS.txt, writes evidence/<property>.json.  Exit 0 held, 1 violation, 2 no answer (error of the check).
"""
import concurrent.futures as cf
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
EVID = os.path.join(HERE, "evidence")
NCPU = max(1, min(8, os.cpu_count() or 1))

BASE = ["g++", "-std=gnu++17", "-w", "-g1", "-I" + os.path.join(HERE, "harness"), "-I" + REPO]
MODES = {
    # red-zone + UB + checked standard containers
    "asan": BASE + ["-O1", "-fopenmp", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    # for valgrind and for plain differential runs
    "plain": BASE + ["-O1", "-fopenmp"],
    "fast": BASE + ["-O2", "-fopenmp"],
    # happens-before race detection; OpenMP constructs call the runtime in harness/minigomp.cpp instead of libgomp
    # a probe program: that it compiles is the observation
    "probe": BASE + ["-O0", "-fopenmp"],
    # a program of /repo/sample, run in a copy of the data it reads
    "sample": [f for f in BASE if not f.endswith("harness")] + ["-O1", "-fopenmp", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
    "tsan": BASE + ["-O1", "-fopenmp", "-fsanitize=thread", "-DVH_TSAN"],
}
# property -> list of (driver, mode, {only, shards, env, wrapper, scale})
PLAN = {}
def plan(p, *jobs): PLAN[p] = list(jobs)
def J(driver, mode="asan", **k): return (driver, mode, k)

exec(open(os.path.join(HERE, "plan.py")).read())

def log(*a):
    print(*a, file=sys.stderr); sys.stderr.flush()

_treehash = None
def treehash():
    global _treehash
    if _treehash is None:
        h = hashlib.sha256()
        for root in (os.path.join(REPO, "src"), os.path.join(REPO, "sample"), os.path.join(HERE, "harness"), os.path.join(HERE, "drivers")):
            for d, ds, fs in sorted(os.walk(root)):
                ds.sort()
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp", ".cpp")):
                        p = os.path.join(d, f)
                        h.update(p.encode()); h.update(open(p, "rb").read())
        _treehash = h.hexdigest()
    return _treehash

class NoAnswer(Exception): pass
class Unsupported(Exception): pass      # this instrumentation cannot be built for this tree; the other jobs decide

def compile_driver(driver, mode):
    os.makedirs(BUILD, exist_ok=True)
    flags = MODES[mode]
    label, path = driver, os.path.join(HERE, "drivers", driver + ".cpp")
    if mode == "sample": path = os.path.join(REPO, driver); driver = os.path.basename(driver)[:-4]
    key = hashlib.sha256((treehash() + label + " ".join(flags)).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, "%s.%s.%s" % (driver, mode, key))
    lock = open(os.path.join(BUILD, "%s.%s.lock" % (driver, mode)), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(out): return out
        for f in os.listdir(BUILD):
            if f.startswith("%s.%s." % (driver, mode)) and not f.endswith(".lock"):
                try: os.unlink(os.path.join(BUILD, f))
                except OSError: pass
        src = [path]
        link = []
        extra = os.path.join(HERE, "drivers", driver + "_2.cpp")     # optional second translation unit
        if os.path.exists(extra): src.append(extra)
        tmp = out + ".tmp%d" % os.getpid()
        if mode == "tsan":
            objs = []
            for i, s in enumerate(src):
                o = tmp + ".%d.o" % i
                cmd = flags + ["-c", s, "-o", o]
                r = subprocess.run(cmd, capture_output=True, text=True)
                if r.returncode: raise NoAnswer("compilation failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
                objs.append(o)
            o = tmp + ".rt.o"
            cmd = ["g++", "-std=gnu++17", "-O1", "-g1", "-fsanitize=thread", "-c", os.path.join(HERE, "harness", "minigomp.cpp"), "-o", o]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode: raise NoAnswer("compilation failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
            objs.append(o)
            cmd = ["g++", "-fsanitize=thread", "-pthread"] + objs + ["-o", tmp]
            r = subprocess.run(cmd, capture_output=True, text=True)
            for x in objs: os.unlink(x)
            if r.returncode and re.search(r"undefined reference to `(GOMP_|omp_)", r.stderr): raise Unsupported("construct outside harness/minigomp.cpp: " + r.stderr[-600:])
        else:
            cmd = flags + src + ["-o", tmp] + link
            r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode and mode == "sample": raise Unsupported("%s does not compile: %s" % (label, r.stderr[:300]))
        if r.returncode: raise NoAnswer("compilation failed: %s\n%s" % (" ".join(cmd), r.stderr[-3000:]))
        os.rename(tmp, out)
        return out
    finally:
        lock.close()

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=96:detect_leaks=0:allocator_may_return_null=0:detect_stack_use_after_return=1:strict_string_checks=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=96",
    "TSAN_OPTIONS": "exitcode=96:halt_on_error=1:report_thread_leaks=0",
    "LSAN_OPTIONS": "exitcode=95",
}

_noaslr = None
def noaslr():
    global _noaslr
    if _noaslr is None: _noaslr = bool(shutil.which("setarch")) and subprocess.run(["setarch", "-R", "true"], capture_output=True).returncode == 0
    return _noaslr

def run_one(binary, driver, mode, opts, seed, tier, work, shard, nshards):
    tag = "%s.%s.%d" % (driver, mode, shard) + ("." + opts["tag"] if "tag" in opts else "")
    out = os.path.join(work, tag + ".json"); st = os.path.join(work, tag + ".status"); err = os.path.join(work, tag + ".err")
    args = [binary, "--seed", str(seed), "--tier", tier, "--out", out, "--status", st, "--shard", str(shard), "--shards", str(nshards),
            "--scratch", os.path.join(work, "scratch." + tag)]
    if opts.get("only"): args += ["--only", opts["only"]]
    scale = opts.get("scale", 1.0)
    if tier == "thorough": scale = opts.get("tscale", scale)
    args += ["--scale", str(scale), "--casecpu", str(opts.get("casecpu", 60))]
    env = dict(os.environ); env.update(SAN_ENV)
    env["OMP_NUM_THREADS"] = "1"
    env["LC_ALL"] = "C"
    env.update(opts.get("env", {}))
    if opts.get("leaks"): env["ASAN_OPTIONS"] = env["ASAN_OPTIONS"].replace("detect_leaks=0", "detect_leaks=1")
    if mode == "tsan" and noaslr(): args = ["setarch", "-R"] + args
    if opts.get("wrapper"): args = opts["wrapper"] + args
    os.makedirs(os.path.join(work, "scratch." + tag), exist_ok=True)
    limit = opts.get("limit", 840 if tier == "quick" else 6 * 3600)
    try:
        with open(err, "wb") as e:
            rc = subprocess.run(args, stdout=e, stderr=e, env=env, timeout=limit, cwd=os.path.join(work, "scratch." + tag)).returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    return dict(driver=driver, mode=mode, opts=opts, rc=rc, out=out, status=st, err=err, shard=shard, args=args, env={k: env[k] for k in ("OMP_NUM_THREADS", "VH_DELAY") if k in env})

def run_sample(binary, driver, mode, opts, tier, work):
    """One of the programs the repository ships, watched by the sanitizers; it may be stopped at the end of its time budget."""
    name = os.path.basename(driver)[:-4]
    tag = "sample." + name
    dirn = os.path.join(work, tag); err = os.path.join(work, tag + ".err")
    shutil.copytree(os.path.join(REPO, "sample"), os.path.join(dirn, "sample"), ignore=lambda d, fs: [f for f in fs if f.endswith((".vtk", ".exe", ".out", ".o")) or (os.path.isfile(os.path.join(d, f)) and os.access(os.path.join(d, f), os.X_OK) and os.path.getsize(os.path.join(d, f)) > 100000)])
    env = dict(os.environ); env.update(SAN_ENV); env["OMP_NUM_THREADS"] = "1"; env["LC_ALL"] = "C"
    t0 = time.time()
    try:
        with open(err, "wb") as e:
            rc = subprocess.run([binary], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=e, env=env, timeout=opts["limit"] if tier == "quick" else opts["tlimit"], cwd=dirn).returncode
    except subprocess.TimeoutExpired:
        rc = "budget"
    n = sum(f.endswith(".vtk") for d, _, fs in os.walk(dirn) for f in fs)
    shutil.rmtree(dirn, ignore_errors=True)
    text = open(err, errors="replace").read()
    bad = isinstance(rc, int) and (rc in (95, 96) or rc < 0 or "Sanitizer" in text or "runtime error:" in text)
    return dict(driver=driver, mode=mode, opts=opts, rc=rc if bad else 0, out=os.path.join(work, tag + ".json"), status=os.path.join(work, tag + ".status"), err=err, shard=0, args=[binary], env={},
                sample=dict(program=driver, finished=rc != "budget", exit=rc, result_files=n, seconds=round(time.time() - t0, 1)))

def known():
    res = []
    p = os.path.join(HERE, "KNOWN_FINDINGS.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m: res.append((m.group(1), m.group(2), m.group(3)))
    return res

def status_of(r):
    try: s = open(r["status"], "rb").read().split(b"\0")[0].decode("latin1")
    except OSError: s = ""
    m = re.match(r"component=(\S+) case=(\d+)", s)
    return (m.group(1), int(m.group(2))) if m else (None, -1)

SUMM = re.compile(r"(SUMMARY: \S+Sanitizer: .*|.*runtime error: .*|.*Assertion .*failed.*|VH-NONTERMINATION|==\d+== (?:Invalid|Conditional|Use of|Mismatched|Source and|Syscall).*|terminate called.*|.*definitely lost: [1-9].*|.*Error: attempt to.*)")

def shorten(text):
    m = SUMM.findall(text)
    return (m[0] if m else text.strip().split("\n")[-1] if text.strip() else "")[:400]

def sankind(text, rc):
    if "VH-NONTERMINATION" in text or rc == 97: return "nontermination"
    m = re.search(r"SUMMARY: (\w+)Sanitizer: (\S+)", text)
    if m: return "%s-%s" % (m.group(1), m.group(2))
    if "runtime error:" in text: return "undefined-behaviour"
    if "Assertion" in text: return "assertion"
    if re.search(r"==\d+== ERROR SUMMARY: [1-9]", text): return "memcheck"
    if isinstance(rc, int) and rc < 0: return "signal%d" % -rc
    return "exit%s" % rc

def main():
    if len(sys.argv) < 2: print(__doc__); return 2
    prop = sys.argv[1]
    if prop == "setup":
        subprocess.run(["g++", "--version"], check=True, stdout=subprocess.DEVNULL)
        os.makedirs(EVID, exist_ok=True); os.makedirs(BUILD, exist_ok=True)
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if prop not in PLAN: log("no plan for", prop); return 2
    t0 = time.time()
    work = os.path.join(BUILD, "work.%s.%d" % (prop, os.getpid()))
    os.makedirs(work, exist_ok=True); os.makedirs(os.path.join(EVID, "replay"), exist_ok=True)
    try:
        return go(prop, tier, seed, t0, work)
    except NoAnswer as e:
        log("NO ANSWER:", e); return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)

def go(prop, tier, seed, t0, work):
    jobs = PLAN[prop]
    bins = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fut = {k: ex.submit(compile_driver, *k) for k in dict.fromkeys((d, m) for d, m, _ in jobs)}
        errs, failed_probes, unsupported = [], [], {}
        for k, f in fut.items():
            try: bins[k] = f.result()
            except Unsupported as e: unsupported[k] = str(e)
            except NoAnswer as e:
                if k[1] == "probe": failed_probes.append((k[0], str(e)))
                else: errs.append(str(e))
    if errs: raise NoAnswer("\n".join(errs))
    jobs = [j for j in jobs if (j[0], j[1]) not in unsupported]
    tcomp = time.time() - t0
    runs = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = []
        for d, m, o in jobs:
            if m == "probe": continue
            if m == "sample": futs.append(ex.submit(run_sample, bins[(d, m)], d, m, o, tier, work)); continue
            n = o.get("shards", NCPU if len([j for j in jobs if j[1] != "probe"]) == 1 else 1)
            for s in range(n):
                futs.append(ex.submit(run_one, bins[(d, m)], d, m, o, seed, tier, work, s, n))
        runs = [f.result() for f in futs]
    only_san = all(o.get("sanitize_only") for _, _, o in jobs)
    viol = []      # dict(component, monitor, sig, case, detail, run)
    total = dict(evaluations=0, components={}, counters={}, monitors={}, samples=[])
    hashes = set()
    incon = []
    for d, e in failed_probes:
        viol.append(dict(component=d, monitor="probe", sig="does-not-compile", case=-1, detail=e[-1500:], text=e, run=dict(args=[], driver=d, mode="probe")))
    sanitizer_clean = 0
    for r in runs:
        text = open(r["err"], errors="replace").read()
        if r["rc"] == "timeout":
            incon.append("watchdog: %s.%s shard %d did not finish" % (r["driver"], r["mode"], r["shard"])); continue
        if r["rc"] == 97:   # a case used its whole CPU budget: confirm once before calling it a hang
            r2 = run_one(r["args"][[i for i, a in enumerate(r["args"]) if a == "--seed"][0] - 1], r["driver"], r["mode"], r["opts"], seed, tier, work, r["shard"], int(r["args"][r["args"].index("--shards") + 1]))
            if r2["rc"] != 97: r = r2; text = open(r["err"], errors="replace").read()
        if "FATAL: ThreadSanitizer" in text and "data race" not in text:
            unsupported[(r["driver"], r["mode"])] = text[-400:]; continue
        if "LeakSanitizer has encountered a fatal error" in text or "LeakSanitizer does not work under ptrace" in text:
            unsupported[(r["driver"], r["mode"])] = "LeakSanitizer could not run"; r["rc"] = 0
        if r["rc"] == 3: raise NoAnswer("driver error: " + text[-2000:])
        if r["rc"] != 0:
            comp, case = status_of(r)
            if "sample" in r: comp = r["driver"]
            kind = sankind(text, r["rc"])
            viol.append(dict(component=comp or "exit", monitor="sanitizer" if kind != "nontermination" else "termination", sig=kind, case=case, detail=shorten(text), run=r, text=text[-6000:]))
        else:
            sanitizer_clean += 1
            m = re.findall(r"WARNING: ThreadSanitizer: (.*?)\n", text)
            if m:
                viol.append(dict(component=status_of(r)[0] or "run", monitor="tsan", sig="race", case=-1, detail=m[0], run=r, text=text[:6000]))
        if "sample" in r:
            c = total["counters"]
            for k, v in (("sample programs run to their end", r["sample"]["finished"]), ("sample programs stopped at the time budget", not r["sample"]["finished"]), ("sample result files", r["sample"]["result_files"])): c[k] = c.get(k, 0) + int(v)
        if os.path.exists(r["out"]):
            j = json.load(open(r["out"]))
            total["evaluations"] += j["evaluations"]
            for k, v in j["components"].items(): total["components"][k] = total["components"].get(k, 0) + v
            for k, v in j["counters"].items(): total["counters"][k] = total["counters"].get(k, 0) + v
            for k, v in j["monitors"].items():
                t = total["monitors"].setdefault(k, dict(observations=0, violations=0, worst_error_over_tolerance=0))
                t["observations"] += v["observations"]; t["violations"] += v["violations"]
                t["worst_error_over_tolerance"] = max(t["worst_error_over_tolerance"], v["worst_error_over_tolerance"])
            total["samples"] += j["samples"]
            hp = r["out"] + ".hash"
            if os.path.exists(hp):
                b = open(hp, "rb").read()
                hashes.update(b[i:i + 8] for i in range(0, len(b), 8))
            if not r["opts"].get("sanitize_only"):
                for v in j["violations"]: viol.append(dict(v, run=r, text=""))
    kf = [k for k in known() if k[0] == prop]
    reported, knownhit = [], {}
    for v in viol:
        key = "%s/%s/%s" % (v["component"], v["monitor"], v["sig"])
        hit = next((k for k in kf if k[1] == key), None)
        if hit: knownhit[hit[1]] = hit[2]
        else: reported.append((key, v))
    for k, w in sorted(knownhit.items()): print("KNOWN-FINDING: property=%s %s [%s]" % (prop, w, k))
    seen = set()
    for key, v in reported:
        if key in seen: continue
        seen.add(key)
        path = os.path.join(EVID, "replay", "%s-%d.json" % (prop, len(seen)))
        a = [x for x in v["run"]["args"]]
        rep = dict(property=prop, seed=seed, tier=tier, driver=v["run"]["driver"], mode=v["run"]["mode"], component=v["component"], case=v["case"], monitor=v["monitor"], sig=v["sig"], detail=v["detail"], report=v["text"],
                   replay="python3 vrun.py replay " + os.path.relpath(path, HERE))
        json.dump(rep, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s case %s: %s" % (key, v["case"], v["detail"][:600]))
    nobs = sum(m["observations"] for m in total["monitors"].values())
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
      coverage=dict(evaluations=total["evaluations"], distinct_nontrivial=len(hashes),
        rule="case k of a component is generated from (seed, component, k); it is distinct when the hash of its generated inputs differs from all others and non-trivial when the generator did not mark it degenerate",
        samples=total["samples"][:40], monitor_observations=nobs, components=total["components"], counters=total["counters"], monitors=total["monitors"],
        instrumented_runs=[dict(driver=r["driver"], mode=r["mode"], shard=r["shard"], exit=r["rc"], env=r["env"]) for r in runs], sample_programs=[r["sample"] for r in runs if "sample" in r], clean_runs=sanitizer_clean, inconclusive=incon, not_run=sorted(unsupported.values())),
      wall_s=round(time.time() - t0, 2), violations=len(seen), assumptions=["compile %.1f s" % tcomp])
    ev["assumptions"] = ["inputs are valid: the generators respect the preconditions stated by the property", "the reference arithmetic in harness/vh.hpp is right"]
    ev["coverage"]["compile_s"] = round(tcomp, 1)
    json.dump(ev, open(os.path.join(EVID, prop + ".json"), "w"), indent=1)
    log("%s %s: %d cases, %d distinct, %d observations, %d monitors, %.1f s (compile %.1f)" % (prop, tier, total["evaluations"], len(hashes), nobs, len(total["monitors"]), time.time() - t0, tcomp))
    if seen: return 1
    if incon: raise NoAnswer("; ".join(incon))
    if total["evaluations"] == 0 or (nobs == 0 and not only_san): raise NoAnswer("nothing was observed")
    return 0

def replay(path):
    j = json.load(open(path))
    b = compile_driver(j["driver"], j["mode"])
    if j["mode"] == "sample":
        w = "/tmp/vreplay/" + os.path.basename(j["driver"]); shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
        r = run_sample(b, j["driver"], j["mode"], dict(limit=3600, tlimit=3600), "quick", w); print(open(r["err"], errors="replace").read()); return int(r["rc"] != 0)
    env = dict(os.environ); env.update(SAN_ENV); env["OMP_NUM_THREADS"] = "1"
    os.makedirs("/tmp/vreplay", exist_ok=True)
    a = [b, "--seed", str(j["seed"]), "--tier", j["tier"], "--only", j["component"], "--case", str(j["case"]), "--out", "/dev/stdout", "--scratch", "/tmp/vreplay"]
    return subprocess.run(a, env=env, cwd="/tmp/vreplay").returncode

if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "replay": sys.exit(replay(sys.argv[2]))
    sys.exit(main())
