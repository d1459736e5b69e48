#!/usr/bin/env python3
"""Build the simulation from /repo's working tree and decide one property.

usage: check.py PROPERTY [--tier quick|thorough] [--jobs N]
       check.py --build            (only build)
       check.py --replay FILE      (replay a violation, prints the trace)
exit 0: held on everything explored; 1: VIOLATION; 2: error of the check.
"""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "clang++"
EVIDENCE = os.environ.get("SIM_EVIDENCE", os.path.join(VERIF, "evidence"))
JOBS = int(os.environ.get("SIM_JOBS", str(os.cpu_count() or 8)))

def die(msg):
    print("ERROR: " + msg)
    sys.exit(2)

def pyflags():
    inc = []
    for d in sorted(glob.glob("/usr/include/python3.*")):
        if os.path.exists(os.path.join(d, "Python.h")):
            inc.append(d)
            break
    for d in ("/usr/lib/python3/dist-packages/numpy/core/include",
              "/usr/lib/python3/dist-packages/numpy/_core/include"):
        if os.path.exists(d):
            inc.append(d)
            break
    return inc

def sources():
    out = []
    for base in ("src",):
        for dp, dn, fn in os.walk(os.path.join(REPO, base)):
            for f in fn:
                if f.endswith((".cc", ".cpp", ".c", ".cxx")):
                    out.append(os.path.join(dp, f))
    out += glob.glob(os.path.join(REPO, "external/json/*.cpp"))
    return sorted(out)

INSTR = ["-fsanitize=address", "-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores"]

def flags():
    f = ["-std=c++11", "-O1", "-g1", "-w", "-pthread", "-fno-omit-frame-pointer", "-ffp-contract=off",
         "-DUSE_PTHREAD", "-DHAS_NUMPY_DEV", "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION"]
    for d in pyflags():
        f += ["-isystem", d]
    f += ["-I", os.path.join(REPO, "include"), "-I", os.path.join(REPO, "external")]
    return f

def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def digest_inputs():
    """one hash over every header, so that objects are reused only when nothing
    they can include has changed"""
    h = hashlib.sha256()
    for base in ("include", "src", "external"):
        for dp, dn, fn in sorted(os.walk(os.path.join(REPO, base))):
            dn.sort()
            for f in sorted(fn):
                if f.endswith((".h", ".hpp", ".inl", ".ipp", ".def")):
                    p = os.path.join(dp, f)
                    h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def rename_symbols(obj, name):
    """the programs of /repo/tools go into one executable: give the functions
    each of them defines (main, getparser, ...) a name of its own"""
    rc, out = sh(["nm", "-g", "--defined-only", obj])
    if rc != 0:
        return rc, out
    args = []
    for l in out.splitlines():
        f = l.split()
        if len(f) == 3 and f[1] in "TDBRC":
            args.append("--redefine-sym=%s=tool_%s_%s" % (f[2], name, f[2]))
    return sh(["objcopy"] + args + [obj]) if args else (0, "")

def build():
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    t0 = time.time()
    hdr = digest_inputs()
    wraps = open(os.path.join(VERIF, "sim/wraps.txt")).read().split()
    own = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(VERIF, "sim/*.h")) + glob.glob(os.path.join(VERIF, "scen/*.h"))):
        own.update(open(p, "rb").read())
    jobs = []
    base = flags()
    for s in sources():
        jobs.append((s, base + INSTR, []))
    for s in sorted(glob.glob(os.path.join(VERIF, "scen/*.cc"))):
        jobs.append((s, base + INSTR, [own.hexdigest()]))
    jobs.append((os.path.join(VERIF, "sim/sim.cc"), ["-std=c++14", "-O2", "-g1", "-w", "-pthread", "-fsanitize=address"],
                 [own.hexdigest()]))
    for s in sorted(glob.glob(os.path.join(REPO, "tools/*.cc"))):
        jobs.append((s, base + INSTR, ["program"]))
    objs = []
    todo = []
    for s, fl, extra in jobs:
        h = hashlib.sha256()
        h.update(repr((s, fl, extra, hdr if "sim.cc" not in s else "")).encode())
        h.update(open(s, "rb").read())
        o = os.path.join(BUILD, "obj", os.path.basename(s) + "." + h.hexdigest()[:24] + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((s, fl, o, extra == ["program"]))
    def comp(j):
        s, fl, o, program = j
        tmp = o + ".%d.tmp" % os.getpid()
        rc, out = sh([CXX] + fl + ["-c", s, "-o", tmp])
        if rc == 0 and program:
            rc, out = rename_symbols(tmp, os.path.splitext(os.path.basename(s))[0])
        if rc == 0:
            os.rename(tmp, o)
        return s, rc, out
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for s, rc, out in ex.map(comp, todo):
            if rc != 0:
                die("compiling %s failed:\n%s" % (s, out[-3000:]))
    h = hashlib.sha256(("\n".join(objs) + " ".join(wraps)).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "sim." + h)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        rc, out = sh([CXX, "-fsanitize=address", "-static-libstdc++", "-pthread", "-o", tmp] + objs +
                     ["-Wl,--wrap=" + w for w in wraps] + ["-ldl", "-lm"])
        if rc != 0:
            die("linking failed:\n" + out[-3000:])
        os.rename(tmp, exe)
    # keep the cache small
    try:
        keep = set(objs) | {exe}
        old = [p for p in glob.glob(os.path.join(BUILD, "obj/*.o")) + glob.glob(os.path.join(BUILD, "sim.*"))
               if p not in keep and time.time() - os.path.getmtime(p) > 3600]
        for p in old:
            os.unlink(p)
    except OSError:
        pass
    return exe, time.time() - t0

# ----------------------------------------------------------------- replays
def write_replay(path, prop, choices, devs, head, sched=0):
    with open(path, "w") as f:
        for l in head:
            f.write("# " + l.replace("\n", " ") + "\n")
        f.write("property %s\n" % prop)
        if sched:
            f.write("schedule_seed %d\n" % sched)
        for v, lab in choices:
            f.write("choice %d %s\n" % (v, lab.replace(" ", "_") or "-"))
        for st, k, v in devs:
            f.write("dev %d %s %d\n" % (st, k, v))

def known_findings():
    """open findings: 'known: property=<id> key=<key> <what fails>'"""
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l)
        if m:
            out.append(m.groups())
    return out

def run_exe(exe, args, watchdog=None):
    env = dict(os.environ)
    if watchdog:
        env["SIM_WATCHDOG"] = str(watchdog)
    p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env)
    if p.returncode != 0 or not p.stdout.strip():
        return None
    try:
        return json.loads(p.stdout.strip().splitlines()[-1])
    except ValueError:
        return None

class Replayer:
    def __init__(self, exe, prop, tmp):
        self.exe, self.prop, self.tmp = exe, prop, tmp
    def __call__(self, choices, devs, watchdog=None, sched=0):
        fd, p = tempfile.mkstemp(dir=self.tmp)
        os.close(fd)
        write_replay(p, self.prop, choices, devs, [], sched)
        r = run_exe(self.exe, ["replay", p], watchdog)
        os.unlink(p)
        return r

def minimise(rep, choices, devs, cls, budget=float(os.environ.get("SIM_MINIMISE_S", "75"))):
    """Shrink the workload and fault choices first (each candidate is tried
    with its recorded schedule and with fresh schedule seeds), then
    delta-debug the schedule deviations, keeping the same violation class."""
    t0 = time.time()
    pool = concurrent.futures.ThreadPoolExecutor(JOBS)
    left = lambda frac=1.0: time.time() - t0 < budget * frac
    def bad(r):
        return r and r["status"] == 2 and r["cls"] == cls
    SEEDS = 3 * JOBS - 1
    def fails(c, d):
        """a (choices, devs) pair that fails with workload c, or None"""
        jobs = [(c, d, 0)] + [(c, [], s) for s in range(1, SEEDS + 1)]
        for i in range(0, len(jobs), JOBS):
            if not left(0.7):
                return None
            for r in pool.map(lambda j: rep(j[0], j[1], 10, j[2]), jobs[i:i + JOBS]):
                if bad(r):
                    return [tuple(x) for x in r["choices"]], [tuple(x) for x in r["devs"]]
        return None
    def size(c):
        return (sum(1 for v, _l in c if v), sum(min(v, 1 << 20) for v, _l in c), len(c))
    changed = True
    while changed and left(0.7):
        changed = False
        n = len(choices)
        blk = max(1, n // 2)
        while left(0.7):
            i = 0
            while i < len(choices) and left(0.7):
                if any(v for v, _l in choices[i:i + blk]):
                    cand = choices[:i] + [(0, l) for _v, l in choices[i:i + blk]] + choices[i + blk:]
                    g = fails(cand, devs)
                    if g and size(g[0]) < size(choices):
                        choices, devs = g
                        changed = True
                i += blk
            if blk == 1:
                break
            blk //= 2
        for i in range(len(choices)):
            while left(0.7) and i < len(choices) and choices[i][0] > 0:
                v, l = choices[i]
                g = None
                for w in sorted({v // 2, v - 1}):
                    g = fails(choices[:i] + [(w, l)] + choices[i + 1:], devs)
                    if g and size(g[0]) < size(choices):
                        break
                    g = None
                if not g:
                    break
                choices, devs = g
                changed = True
    # schedule deviations
    n = 2
    while devs and left():
        sz = max(1, len(devs) // n)
        cands = [devs[:i] + devs[i + sz:] for i in range(0, len(devs), sz)]
        hit = None
        for i in range(0, len(cands), JOBS):
            part = cands[i:i + JOBS]
            for cand, r in zip(part, pool.map(lambda d: rep(choices, d, 10), part)):
                if bad(r) and hit is None:
                    hit = [tuple(x) for x in r["devs"]]
                    if len(hit) >= len(devs):
                        hit = cand
            if hit is not None or not left():
                break
        if hit is not None:
            devs = hit
            n = max(2, n - 1)
        elif sz == 1:
            break
        else:
            n = min(len(devs), n * 2)
    pool.shutdown()
    return choices, devs

# ------------------------------------------------------------------- check
THOROUGH_FACTOR = 25

def check(prop, tier, jobs):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    exe, tb = build()
    rc, out = sh([exe, "list"])
    runs = dict((l.split()[0], int(l.split()[1])) for l in out.splitlines() if len(l.split()) == 2)
    if prop not in runs:
        die("no scenario for " + prop)
    count = runs[prop] * (THOROUGH_FACTOR if tier == "thorough" else 1)
    cap = 6 * 3600 if tier == "thorough" else 420
    if os.environ.get("SIM_RUNS"):
        count = int(os.environ["SIM_RUNS"])
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="simwork.")
    try:
        return decide(exe, prop, tier, jobs, seed, count, cap, tmp, t0, tb)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def decide(exe, prop, tier, jobs, seed, count, cap, tmp, t0, tb):
    procs = []
    for w in range(jobs):
        o = os.path.join(tmp, "w%d" % w)
        procs.append((o, subprocess.Popen([exe, "work", prop, str(seed), str(count), str(jobs), str(w), str(cap), o],
                                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)))
    for o, p in procs:
        p.wait()
    agg = dict(runs=0, steps=0, switches=0, simns=0, timedout=0)
    faults, probes, sigs, states, viol, samples = {}, {}, set(), set(), [], []
    edges, nguards, wall = None, 0, 0.0
    nontriv = 0
    for o, p in procs:
        if p.returncode != 0 or not os.path.exists(o):
            die("worker failed (exit %s)" % p.returncode)
        ended = False
        for l in open(o):
            k, _, v = l.rstrip("\n").partition(" ")
            if k == "V":
                m = re.match(r'(\d+) ("(?:[^"\\]|\\.)*") ("(?:[^"\\]|\\.)*")$', v)
                viol.append((int(m.group(1)), json.loads(m.group(2)), json.loads(m.group(3))))
            elif k in agg:
                agg[k] += int(v)
            elif k == "wall":
                wall = max(wall, float(v))
            elif k in ("fault", "probe"):
                n, a, b = v.split()
                d = faults if k == "fault" else probes
                x = d.setdefault(n, [0, 0]); x[0] += int(a); x[1] += int(b)
            elif k == "sample":
                samples.append(json.loads(v))
            elif k == "edges":
                b = bytearray.fromhex(v)
                edges = b if edges is None else bytearray(x | y for x, y in zip(edges, b))
            elif k == "nguards":
                nguards = int(v)
            elif k == "sigs":
                sigs.update(v.split())
            elif k == "states":
                states.update(v.split())
            elif k == "end":
                ended = True
        if not ended:
            die("worker output is incomplete")
    reported = None
    if viol:
        viol.sort()
        reported = report(exe, prop, seed, viol, tmp)
    # determinism: a sample of the runs again, in other processes
    det = determinism(exe, prop, seed, count, 24 if tier == "quick" else 400) if not viol else None
    wall_s = time.time() - t0
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(states),
        "rule": "one evaluation is one simulated run of a freshly drawn workload, configuration, fault plan and "
                "schedule; counted as distinct by the hash of (workload and fault choices, sequence of scheduling "
                "and synchronisation events, delivered results)",
        "samples": samples[:6],
        "distinct_interleavings": len(sigs),
        "interleaving_measure": "hash of the sequence of (thread, synchronisation or I/O event, object) and thread switches",
        "simulated_steps": agg["steps"],
        "thread_switches": agg["switches"],
        "simulated_time_s": agg["simns"] / 1e9,
        "runs_per_hour": round(agg["runs"] / max(wall, 0.001) * 3600),
        "seeds_per_hour": round(agg["runs"] / max(wall, 0.001) * 3600),
        "faults_injected": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(faults.items())},
        "conditions_reached": {k: {"times": v[0], "runs": v[1]} for k, v in sorted(probes.items())},
        "edges_covered": sum(bin(x).count("1") for x in edges or b""),
        "edges_total": nguards,
        "search_time_cap_reached": bool(agg["timedout"]),
        "determinism_runs_repeated": det,
        "real_code": ["all of /repo/src and /repo/include (library, readers, writers, models, tools, C API, JSON)",
                      "libstdc++ (statically linked), glibc stdio buffering"],
        "stubs": ["pthread mutex/condition/thread scheduling (one thread at a time, seeded)",
                  "files under /simfs (in-memory disk with injected faults)", "clocks and sleeps", "entropy source"],
        "build_s": round(tb, 1),
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["memory accesses are sequentially consistent: preemption happens between accesses, weak-memory "
                          "reordering is not simulated",
                          "sampled, not exhaustive: %d seeded runs" % agg["runs"]],
          "wall_s": round(wall_s, 2), "violations": 1 if reported else 0}
    json.dump(ev, open(os.path.join(EVIDENCE, prop + ".json"), "w"), indent=1)
    if reported:
        return 1
    for kp, key, text in known_findings():
        if kp == prop and key in probes:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
    print("%s: held in %d runs (%d distinct, %d interleavings, %d steps, %.1f s)" %
          (prop, agg["runs"], len(states), len(sigs), agg["steps"], wall_s))
    return 0

def determinism(exe, prop, seed, count, n):
    idx = [(i * 7919 + 13) % count for i in range(min(n, count))]
    def two(i):
        a = run_exe(exe, ["run", prop, str(seed), str(i)])
        b = run_exe(exe, ["run", prop, str(seed), str(i)])
        return i, a and (a["hash"], a["steps"], a["state"], a["status"]), b and (b["hash"], b["steps"], b["state"], b["status"])
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for i, a, b in ex.map(two, idx):
            if a is None or a != b:
                die("run %d of %s is not deterministic: %s / %s" % (i, prop, a, b))
    return len(idx)

def report(exe, prop, seed, viol, tmp):
    why = []
    pool = concurrent.futures.ThreadPoolExecutor(2)
    twice = lambda fn: list(pool.map(lambda _i: fn(), range(2)))
    for idx, cls, msg in viol[:4]:
        # a run that hangs is stopped sooner when it is repeated
        wd = 15 if cls == "hang" else None
        same = lambda a, b: a and b and a["status"] == b["status"] == 2 and a["cls"] == b["cls"] == cls and \
            (cls == "hang" or (a["hash"], a["steps"]) == (b["hash"], b["steps"]))
        a, b = twice(lambda: run_exe(exe, ["run", prop, str(seed), str(idx)], wd))
        if not same(a, b):
            why.append("run %d: %s (%s) did not repeat" % (idx, cls, msg))
            continue
        rep = Replayer(exe, prop, tmp)
        choices = [tuple(c) for c in a["choices"]]
        devs = [tuple(d) for d in a["devs"]]
        r = rep(choices, devs, wd)
        if not r or r["status"] != 2 or r["cls"] != cls:
            why.append("run %d: %s (%s) was not reproduced from its recorded trace" % (idx, cls, msg))
            continue
        mc, md = minimise(rep, choices, devs, cls)
        r1, r2 = twice(lambda: rep(mc, md, wd))
        if not same(r1, r2):
            mc, md = choices, devs
            r1 = r
        path = os.path.join(EVIDENCE, "%s.replay" % prop)
        write_replay(path, prop, mc, md,
                     ["VERIF_SEED=%d run %d" % (seed, idx), "violation class: " + cls, "violation: " + r1["msg"],
                      "workload: " + r1["desc"],
                      "original: %d choices, %d schedule deviations; minimised: %d, %d" %
                      (len(choices), len(devs), len(mc), len(md)),
                      "replay: python3 check.py --replay " + path])
        final = run_exe(exe, ["replay", path], wd)
        if not final or final["status"] != 2 or final["cls"] != cls:
            why.append("run %d: the replay file does not reproduce %s" % (idx, cls))
            continue
        print("violation (%s): %s" % (cls, final["msg"]))
        print("found in run %d of VERIF_SEED=%d; workload: %s" % (idx, seed, final["desc"]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return path
    die("violations that do not replay:\n" + "\n".join(why))

def main():
    os.environ["SIM_KNOWN"] = ",".join(k for _p, k, _t in known_findings())
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    jobs = JOBS
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    if "--jobs" in a:
        i = a.index("--jobs"); jobs = int(a[i + 1]); del a[i:i + 2]
    if a and a[0] == "--build":
        exe, t = build()
        print("built %s in %.1f s" % (exe, t))
        return 0
    if a and a[0] == "--replay":
        exe, t = build()
        p = subprocess.run([exe, "replay", a[1], "--log"], stdout=subprocess.PIPE, text=True)
        r = json.loads(p.stdout.strip().splitlines()[-1])
        print(json.dumps({k: r[k] for k in ("status", "cls", "msg", "hash", "steps", "switches", "desc", "faults")}, indent=1))
        return 1 if r["status"] == 2 else 0
    if len(a) != 1:
        print(__doc__)
        return 2
    return check(a[0], tier, jobs)

if __name__ == "__main__":
    sys.exit(main())
