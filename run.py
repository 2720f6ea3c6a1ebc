#!/usr/bin/env python3
"""Driver: builds a property's harnesses from /repo's working tree, explores every suite
exhaustively over 8 processes, re-runs each violation in a fresh process, writes the evidence.

  run.py check ID [quick|thorough]     run.py replay FILE      run.py setup
"""
import sys, os, json, time, subprocess, hashlib, struct, array, re, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
NPROC = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 8))
sys.path.insert(0, VERIF)
from checks.spec import SPEC  # noqa

BASE_FLAGS = ["-std=c++14", "-w", "-D_GLIBCXX_ASSERTIONS", "-DUSE_NLOPT", "-pthread"]
_shm = "/dev/shm" if os.access("/dev/shm", os.W_OK | os.X_OK) else BUILD
SCRATCH = os.path.join(_shm, "verif_scratch_%d" % os.getpid())  # created and removed by this process
INC = ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(REPO, "src"), "-I/usr/include/eigen3"]
LIBS = ["-lboost_filesystem", "-lboost_system", "-lboost_serialization", "-lboost_thread", "-lnlopt"]


def log(*a):
    print(*a, flush=True)


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness")):
        for d, ds, fs in sorted(os.walk(root)):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                try:
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                except OSError:
                    pass
    return h.hexdigest()


def run(cmd, timeout=None, env=None, cwd=None, stdout=subprocess.PIPE):
    return subprocess.run(cmd, stdout=stdout, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)


def compile_cmd(pid, h):
    """list of build steps ([cmd...]) and the binary"""
    name = h.get("name") or os.path.splitext(h["src"])[0].replace("/", "_")
    out = os.path.join(BUILD, pid, name)
    cxx = h.get("cxx", "g++")
    srcs = [os.path.join(VERIF, "harness", h["src"])]
    srcs += [s.replace("@REPO", REPO).replace("@V", VERIF) for s in h.get("extra_src", [])]
    flags = [f.replace("@REPO", REPO).replace("@V", VERIF) for f in h.get("flags", [])]
    steps = []
    objs = []
    for i, o in enumerate(h.get("objs", [])):
        obj = "%s.%d.o" % (out, i)
        steps.append([o.get("cxx", cxx)] + [f.replace("@REPO", REPO).replace("@V", VERIF) for f in o["flags"]]
                     + ["-c", o["src"].replace("@REPO", REPO).replace("@V", VERIF), "-o", obj])
        objs.append(obj)
    opt = h.get("opt", "-O1")
    base = [f for f in BASE_FLAGS if f not in h.get("noflags", [])]
    steps.append([cxx, opt] + base + flags + h.get("preinc", []) + INC + srcs + objs + ["-o", out] + LIBS + h.get("libs", []))
    return steps, out


def build(pid):
    spec = SPEC[pid]
    os.makedirs(os.path.join(BUILD, pid), exist_ok=True)
    th = tree_hash()
    jobs = []
    bins = []
    for h in spec["harness"]:
        steps, out = compile_cmd(pid, h)
        bins.append((h, out))
        stamp = out + ".stamp"
        key = th + hashlib.sha256(json.dumps(steps).encode()).hexdigest()
        if os.path.exists(out) and os.path.exists(stamp) and open(stamp).read() == key:
            continue
        jobs.append((steps, out, stamp, key))

    def one(j):
        steps, out, stamp, key = j
        for f in (out, stamp):
            if os.path.exists(f):
                os.remove(f)
        for s in steps:
            r = run(s)
            if r.returncode != 0:
                return (s, r.stdout.decode(errors="replace"))
        with open(stamp, "w") as f:
            f.write(key)
        return None

    with ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(one, jobs) if e]
    if errs:
        for s, o in errs[:2]:
            log("BUILD FAILED:", " ".join(s))
            log("\n".join([l for l in o.splitlines() if "error" in l or "undefined" in l][:12]))
        sys.exit(2)
    return bins


def henv(h, scratch):
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1"
    env["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1:print_stacktrace=0"
    env["VERIF_SCRATCH"] = scratch
    env.update(h.get("env", {}))
    return env


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def task_run(pid, h, binary, suite, shard, nshards, tier, seed, idx, timeout):
    base = os.path.join(BUILD, pid, "run", "%s_%s_%d" % (os.path.basename(binary), suite, shard))
    scratch = os.path.join(SCRATCH, os.path.basename(base) + ".d")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    for suf in (".json", ".states", ".prog"):
        if os.path.exists(base + suf):
            os.remove(base + suf)
    cmd = [binary, "--suite", suite, "--shard", str(shard), "--nshards", str(nshards), "--tier", tier,
           "--seed", str(seed), "--out", base + ".json", "--states", base + ".states", "--progress", base + ".prog"]
    t0 = time.time()
    timed_out = False
    with open(base + ".log", "wb") as lf:
        p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=henv(h, scratch), cwd=scratch, preexec_fn=limit)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            p.kill()
            rc = p.wait()
    shutil.rmtree(scratch, ignore_errors=True)
    res = None
    if rc == 0 and os.path.exists(base + ".json"):
        with open(base + ".json") as f:
            res = json.load(f)
    with open(base + ".log", "rb") as f:
        data = f.read()
    tail = data[:200].decode(errors="replace") + ("..." if len(data) > 1400 else "") + data[-1200:].decode(errors="replace")
    prog = None
    if os.path.exists(base + ".prog"):
        with open(base + ".prog", "rb") as f:
            b = f.read()
        if len(b) >= 76:
            magic, n, in_case = struct.unpack("III", b[:12])
            n = min(n, 4000)
            prog = list(struct.unpack("%di" % n, b[76:76 + 4 * n]))
            if in_case != 1:
                prog = None
    return dict(h=h, binary=binary, suite=suite, shard=shard, nshards=nshards, rc=rc, res=res, tail=tail, prog=prog, wall=time.time() - t0,
                states=base + ".states", timed_out=timed_out)


def replay_run(pid, h, binary, suite, choices, tier, seed, timeout=300, history=None):
    """one trace in a process of its own, or (history: shard, number of shards, number of the execution) everything its process did before too"""
    scratch = os.path.join(SCRATCH, "replay_%d.d" % os.getpid())
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    cmd = [binary, "--suite", suite, "--tier", tier, "--seed", str(seed)]
    if history:
        cmd += ["--shard", str(history[0]), "--nshards", str(history[1]), "--out", "/dev/null"]
        if history[2] >= 0:
            cmd += ["--until", str(history[2])]
    else:
        cmd += ["--replay", ",".join(map(str, choices)) or ","]
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=henv(h, scratch), cwd=scratch,
                           preexec_fn=limit, timeout=timeout)
        rc, o = p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        rc, o = -999, (e.stdout or b"").decode(errors="replace")
    shutil.rmtree(scratch, ignore_errors=True)
    return rc, o


def crash_sig(tail):
    m = re.search(r"([\w./]+\.(?:hpp|cpp|h)):(\d+):.*?Assertion `(.*?)' failed", tail)
    if m:
        return "crash:assert:%s:%s" % (os.path.basename(m.group(1)), m.group(3)[:60].replace(" ", "_"))
    m = re.search(r"AddressSanitizer: ([\w-]+)", tail)
    if m:
        return "crash:asan:" + m.group(1)
    if "mc: HANG" in tail:
        return "crash:hang"
    m = re.search(r"runtime error: (.*)", tail)
    if m:
        return "crash:ub:" + m.group(1)[:60].replace(" ", "_")
    m = re.search(r"Error: attempt to.*|Assertion '(.*?)' failed", tail)
    if m:
        return "crash:libassert"
    return "crash"


def known_findings():
    out = {}
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m:
                out[(m.group(1), m.group(2))] = m.group(3).strip()
    return out


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = SPEC[pid]
    bins = build(pid)
    tb = time.time() - t0
    rundir = os.path.join(BUILD, pid, "run")
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    tasks = []
    for h, b in bins:
        r = run([b, "--list"], env=henv(h, rundir))
        if r.returncode != 0:
            log(r.stdout.decode(errors="replace"))
            log("cannot list suites of", b)
            sys.exit(2)
        for line in r.stdout.decode().split("\n"):
            if not line.strip():
                continue
            s, m = line.split()
            n = min(int(m), spec.get("shards", 24))
            for k in range(n):
                tasks.append((h, b, s, k, n))
    # interleave so long suites start early
    tasks.sort(key=lambda t: -t[4])
    tmo = spec.get("timeout", {}).get(tier, 800 if tier == "quick" else 3400)
    with ThreadPoolExecutor(NPROC) as ex:
        futs = [ex.submit(task_run, pid, h, b, s, k, n, tier, seed, i, tmo) for i, (h, b, s, k, n) in enumerate(tasks)]
        results = [f.result() for f in futs]

    viol = []   # (key,msg,h,binary,suite,choices)
    errors = []
    tot = dict(executions=0, transitions=0, asserts=0)
    exhaustive = True
    suites = {}
    counters = {}
    samples = []
    states = set()
    for r in results:
        if r["res"] is None:
            exhaustive = False
            if r["rc"] == 4 and not r["timed_out"] and r["prog"] is not None and "NONDETERMINISM" in r["tail"]:
                # the same choices led elsewhere than before: what earlier executions did has an effect
                viol.append(("earlier-executions-matter", "the same trace behaves differently later in a process: %s" % r["tail"][-300:], r["h"], r["binary"], r["suite"], r["prog"], (r["shard"], r["nshards"], -4)))
            elif r["timed_out"] or r["rc"] in (3, 4) or r["prog"] is None:
                errors.append("task %s/%s#%d rc=%s timed_out=%s: %s" % (os.path.basename(r["binary"]), r["suite"], r["shard"], r["rc"], r["timed_out"], r["tail"][-600:]))
            else:
                viol.append((crash_sig(r["tail"]), "process died (rc=%s): %s" % (r["rc"], r["tail"][-500:].replace("\n", " | ")), r["h"], r["binary"], r["suite"], r["prog"], (r["shard"], r["nshards"], -1)))
            continue
        j = r["res"]
        for k in tot:
            tot[k] += j[k]
        exhaustive &= j["exhausted"]
        sname = "%s/%s" % (os.path.basename(r["binary"]), r["suite"])
        s = suites.setdefault(sname, dict(executions=0, transitions=0, wall_cpu_s=0.0))
        s["executions"] += j["executions"]
        s["transitions"] += j["transitions"]
        s["wall_cpu_s"] = round(s["wall_cpu_s"] + r["wall"], 2)
        for c, v in j["counters"].items():
            counters[c] = counters.get(c, 0) + v
        if r["shard"] == 0:
            for t in j["samples"][:1] + j["samples"][-1:]:
                samples.append("%s: %s" % (sname, t[:600]))
        try:
            a = array.array("Q")
            with open(r["states"], "rb") as f:
                a.frombytes(f.read())
            states.update(a)
        except OSError:
            pass
        for v in j["records"]:
            viol.append((v["key"], v["msg"] + " [" + v["trace"][:800] + "]", r["h"], r["binary"], r["suite"], v["choices"], (r["shard"], r["nshards"], v["index"])))
    kf = known_findings()
    reported = 0
    seen_known = {}
    seen = {}
    rdir = os.path.join(BUILD, pid, "replays")
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir)
    histories = 0
    for key, msg, h, binary, suite, choices, history in viol:
        if (pid, key) in kf:
            seen_known[key] = msg
            continue
        if seen.get((key, suite), 0) >= 1 or reported >= 12:
            continue
        seen[(key, suite)] = 1
        rc, out = (0, "") if history[2] == -4 else replay_run(pid, h, binary, suite, choices, tier, seed)
        alone = not (rc == 0 or rc in (3, 4))
        if not alone and histories < 4:
            # it may need what the process did before: the same history again, in a new process
            histories += 1
            rc, out = replay_run(pid, h, binary, suite, choices, tier, seed, history=history)
        if history[2] == -4 and rc == 4 and "NONDETERMINISM" in out:
            rc = 10
        if rc == 0 or rc in (3, 4) or (rc == -999 and not alone):
            errors.append("violation %s (%s %s) did not reproduce on replay: rc=%s %s" % (key, suite, choices, rc, msg[:300]))
            continue
        path = os.path.join(rdir, "%d.json" % reported)
        with open(path, "w") as f:
            json.dump(dict(property=pid, key=key, message=msg, harness=os.path.basename(binary), suite=suite, choices=choices, history=None if alone else history, tier=tier, seed=seed, output=out[-4000:]), f, indent=1)
        log("VIOLATION property=%s replay=%s" % (pid, path))
        log("  key=%s suite=%s %s" % (key, suite, msg[:1200]))
        reported += 1
    for k in sorted(seen_known):
        log("KNOWN-FINDING: property=%s %s (key=%s)" % (pid, kf[(pid, k)], k))
    wall = time.time() - t0
    cov = dict(states=len(states), transitions=tot["transitions"], traces_validated_against_impl=tot["executions"],
               assertions=tot["asserts"], exhaustive=bool(exhaustive), samples=samples[:24], suites=suites, counters=counters, build_s=round(tb, 1),
               bounds=spec.get("bounds", {}).get(tier, ""))
    ev = dict(property=pid, tier=tier, seed=seed, level=spec.get("level", "model_checking"), coverage=cov,
              assumptions=spec.get("assumptions", []), wall_s=round(wall, 2), violations=reported)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log("%s %s: %d executions, %d transitions, %d states, %d assertions, exhaustive=%s, %.1fs (build %.1fs)" % (
        pid, tier, tot["executions"], tot["transitions"], len(states), tot["asserts"], exhaustive, wall, tb))
    shutil.rmtree(rundir, ignore_errors=True)
    if reported:
        sys.exit(1)
    if errors:
        for e in errors[:10]:
            log("ERROR", e)
        sys.exit(2)
    if tot["executions"] == 0:
        log("ERROR nothing explored")
        sys.exit(2)
    sys.exit(0)


def replay(path):
    j = json.load(open(path))
    pid = j["property"]
    for h, b in build(pid):
        if os.path.basename(b) == j["harness"]:
            rc, out = replay_run(pid, h, b, j["suite"], j["choices"], j["tier"], j["seed"], history=j.get("history"))
            print(out)
            print("rc", rc)
            sys.exit(0 if rc == 0 else 1)


def main():
    if sys.argv[1] == "check":
        pid = sys.argv[2]
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        check(pid, tier)
    elif sys.argv[1] == "replay":
        replay(sys.argv[2])
    elif sys.argv[1] == "setup":
        for pid in sys.argv[2:]:
            build(pid)
        log("setup ok")


try:
    main()
finally:
    shutil.rmtree(SCRATCH, ignore_errors=True)
