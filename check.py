#!/usr/bin/env python3
"""Builds the simulated worlds of a property from /repo's current tree and searches them.

  check.py --property P01 --tier quick|thorough [--seed N]

exit 0: the property held on every simulated run (known findings are printed);
exit 1: a violation, with the line  VIOLATION property=<id> replay=<path>;
exit 2: no answer (the tree or the harness does not build, or the simulator broke).
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CML_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
CXX = "g++"
WORLD_FLAGS = ["-std=c++17", "-O1", "-g1", "-w", "-fsanitize=thread", "-fno-stack-protector", "-I" + REPO, "-I" + SIM]
SIM_FLAGS = ["-std=c++17", "-O2", "-g1", "-w", "-fno-stack-protector"]
WRAPS = "__cxa_allocate_exception malloc free calloc realloc posix_memalign aligned_alloc memcpy memmove memset".split()
JOBS = max(1, min(16, os.cpu_count() or 8))

WORLDS = {
    "dyn": ["dyn.cpp", "dyn_u0.cpp", "dyn_u1.cpp", "dyn_u2.cpp", "dyn_u3.cpp", "dyn_u4.cpp",
            "dyn_m0.cpp", "dyn_m1.cpp", "dyn_m2.cpp", "dyn_m3.cpp", "dyn_m4.cpp",
            "dyn_g0.cpp", "dyn_g1.cpp", "dyn_g2.cpp", "dyn_g3.cpp", "dyn_g4.cpp"],
    "reg": ["reg.cpp"] + ["reg_%s%s.cpp" % (u, g) for u in "ab" for g in ("_mat", "_vec", "_mat2", "_expr", "_geo", "_more", "_big", "_quat", "_rot", "")],
    "rnd": ["rnd.cpp"],
    "prt": ["prt.cpp"],
    "expr": ["expr.cpp", "expr_d.cpp", "expr_f.cpp", "expr_t.cpp", "expr_u.cpp"],
    "views": ["views.cpp", "views_d.cpp", "views_f.cpp", "views_i.cpp"],
}
# property -> [(world, quick runs, share of the search time)]
PLAN = {
    "P01": [("dyn", 800000, 0.7), ("reg", 240000, 0.3)],
    "P02": [("dyn", 800000, 0.7), ("reg", 160000, 0.3)],
    "P03": [("dyn", 1000000, 1.0)],
    "P04": [("dyn", 1000000, 1.0)],
    "P05": [("reg", 600000, 1.0)],
    "P06": [("views", 1000000, 1.0)],
    "P07": [("reg", 240000, 1.0)],
    "P08": [("reg", 240000, 1.0)],
    "P09": [("reg", 240000, 0.7), ("dyn", 400000, 0.3)],
    "P10": [("rnd", 1000000, 1.0)],
    "P11": [("rnd", 400000, 0.5), ("reg", 160000, 0.35), ("dyn", 400000, 0.15)],
    "P12": [("prt", 1000000, 1.0)],
    "P13": [("expr", 480000, 1.0)],
    "P14": [("dyn", 1000000, 1.0)],
    "P15": [("reg", 200000, 1.0)],
}
LEVEL = {}
REAL = {}
TIERS = {"quick": {"seconds": 60.0, "scale": 1}, "thorough": {"seconds": 660.0, "scale": 250}}


def tree_hash(world):
    h = hashlib.sha256()
    ver = subprocess.run([CXX, "--version"], capture_output=True, text=True).stdout
    h.update(repr((ver, WORLD_FLAGS, SIM_FLAGS, WRAPS, WORLDS[world])).encode())
    files = []
    for root in (os.path.join(REPO, "cml"), SIM):
        for d, dn, fn in os.walk(root):
            dn.sort()
            files += [os.path.join(d, f) for f in fn]
    for f in sorted(files):
        h.update(f.encode())
        with open(f, "rb") as o:
            h.update(hashlib.sha256(o.read()).digest())
    return h.hexdigest()[:16]


def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
    return r.returncode, (r.stdout + r.stderr)


def build(world):
    """Returns the path of the world's executable; raises RuntimeError when it does not compile."""
    key = tree_hash(world)
    out = os.path.join(BUILD, f"{world}-{key}")
    exe = os.path.join(out, world)
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    for old in glob.glob(os.path.join(BUILD, world + "-*")):
        shutil.rmtree(old, ignore_errors=True)
    tmp = out + ".tmp%d" % os.getpid()
    os.makedirs(tmp)
    try:
        jobs = [(os.path.join(SIM, "sim.cpp"), os.path.join(tmp, "sim.o"), SIM_FLAGS)]
        for s in WORLDS[world]:
            jobs.append((os.path.join(SIM, s), os.path.join(tmp, s[:-4] + ".o"), WORLD_FLAGS))
        with cf.ThreadPoolExecutor(JOBS) as ex:
            res = list(ex.map(lambda j: (j[0],) + run([CXX] + j[2] + ["-c", j[0], "-o", j[1]]), jobs))
        for f, rc, o in res:
            if rc:
                raise RuntimeError("%s does not compile:\n%s" % (f, o[:4000]))
        rc, o = run([CXX, "-no-pie", "-pthread"] + [j[1] for j in jobs] + ["-Wl,--wrap=" + w for w in WRAPS]
                    + ["-o", os.path.join(tmp, world)])
        if rc:
            raise RuntimeError("link failed:\n" + o[:4000])
        os.rename(tmp, out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def known_findings(prop):
    """Lines 'finding: property=<id> sig=<signature> plan=<file> <what fails>' of known_findings.txt."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) sig=(\S+) plan=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"sig": m.group(2), "plan": os.path.join(HERE, m.group(3)), "what": m.group(4)})
    return out


def replay(exe, plan):
    r = subprocess.run([exe, "--replay", plan, "--quiet"], capture_output=True, text=True, errors="replace", timeout=120)
    line = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "{}"
    return json.loads(line)


def plan_world(path):
    for line in open(path):
        if line.startswith("world "):
            return line.split()[1]
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", default="P01")
    ap.add_argument("--setup", action="store_true", help="build every world")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or "1"))
    ap.add_argument("--seconds", type=float, help="search time instead of the tier's")
    ap.add_argument("--replay", help="only replay this plan file")
    a = ap.parse_args()
    if a.setup:
        for w in WORLDS:
            build(w)
        return 0
    prop = a.property
    t0 = time.time()
    rc = 0
    try:
        with cf.ThreadPoolExecutor(4) as ex:
            exes = dict(zip([w for w, _, _ in PLAN[prop]], ex.map(build, [w for w, _, _ in PLAN[prop]])))
    except RuntimeError as e:
        print("NO ANSWER: " + str(e))
        return 2
    if a.replay:
        w = plan_world(a.replay)
        return subprocess.run([exes[w], "--replay", a.replay]).returncode
    t_build = time.time() - t0
    rep_dir = os.path.join(HERE, "replays")
    os.makedirs(rep_dir, exist_ok=True)
    violation = None
    broken = []
    known = known_findings(prop)
    known_out = []
    for k in known:
        w = plan_world(k["plan"])
        r = replay(exes[w], k["plan"])
        if r.get("violated") and r.get("sig") == k["sig"]:
            known_out.append(k)
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
        elif r.get("violated"):
            violation = {"replay": k["plan"], "cls": r["cls"], "msg": r["msg"], "world": w}
        else:
            print("note: the known finding '%s' no longer fails" % k["what"])
    # plans of repaired defects and other histories worth repeating
    regress = []
    for plan in sorted(glob.glob(os.path.join(HERE, "plans", prop, "*.plan"))):
        w = plan_world(plan)
        if w not in exes:
            continue
        r = replay(exes[w], plan)
        regress.append({"plan": os.path.relpath(plan, HERE), "violated": r.get("violated"), "hash": r.get("hash")})
        if r.get("violated") and r.get("sig") not in [k["sig"] for k in known] and not violation:
            violation = {"replay": plan, "cls": r["cls"], "msg": r["msg"], "world": w}
    tier = TIERS[a.tier]
    seconds = a.seconds or tier["seconds"]
    results = []
    for w, runs, share in PLAN[prop]:
        if violation:
            break
        cmd = [exes[w], "--property", prop, "--seed", str(a.seed), "--runs", str(int(runs * tier["scale"])), "--max-seconds", "%.1f" % (seconds * share),
               "--jobs", str(JOBS), "--dir", rep_dir]
        for k in known:
            cmd += ["--known", k["sig"]]
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace")
        try:
            j = json.loads(r.stdout.strip().splitlines()[-1])
        except Exception:
            broken.append("%s: the simulator gave no result (exit %d): %s" % (w, r.returncode, (r.stdout + r.stderr)[-600:]))
            continue
        if r.stderr.strip():
            j["stderr"] = r.stderr.strip()[:1000]
        if j.get("worker_died"):
            broken.append(w + ": a worker of the simulator died")
        v = j.get("violation")
        if v and "replay" in v:
            violation = dict(v, world=w)
        elif v:
            j["not_repeated"] = v
        results.append(j)
    # determinism: the same seed gives the same executions
    determinism = []
    for w, runs, share in PLAN[prop]:
        if violation:
            break
        logs = []
        for k, jobs in ((0, JOBS), (1, max(1, JOBS // 2))):
            f = os.path.join(rep_dir, "hash-%s-%s-%d-%d" % (prop, w, os.getpid(), k))
            subprocess.run([exes[w], "--property", prop, "--seed", str(a.seed + 77), "--runs", "400", "--max-seconds", "60", "--jobs", str(jobs), "--dir", rep_dir,
                            "--hash-log", f] + sum([["--known", k["sig"]] for k in known], []), capture_output=True)
            logs.append(open(f).read() if os.path.exists(f) else None)
            if os.path.exists(f):
                os.remove(f)
        determinism.append({"world": w, "runs": 400, "equal": logs[0] is not None and logs[0] == logs[1]})
    wall = time.time() - t0
    if violation:
        rc = 1
    elif broken:
        rc = 2
    write_evidence(prop, a, results, known_out, regress, determinism, violation, broken, t_build, wall)
    for b in broken:
        print("NO ANSWER: " + b)
    if violation:
        print("%s: %s" % (violation["cls"], violation["msg"]))
        print("VIOLATION property=%s replay=%s" % (prop, violation["replay"]))
    else:
        n = sum(j["runs"] for j in results)
        print("%s: %d simulated runs, %d distinct, no %sviolation (%.0f s)" % (prop, n, sum(j["distinct"] for j in results), "new " if known_out else "", wall))
    return rc


def write_evidence(prop, a, results, known_out, regress, determinism, violation, broken, t_build, wall):
    def tot(k):
        return sum(j.get(k, 0) for j in results)
    search = sum(j.get("search_s", 0) for j in results) or 1e-9
    faults = {}
    probes = {}
    for j in results:
        for k, n in j.get("faults", {}).items():
            if n:
                faults[k] = faults.get(k, 0) + n
        for k, n in j.get("probes", {}).items():
            probes[j["world"] + ":" + k] = n
    cov = {
        "evaluations": tot("runs"),
        "distinct_nontrivial": tot("distinct"),
        "rule": "one evaluation is one simulated run: a fresh process image, a plan (history of calls, faults and scheduler settings) drawn from the run's seed, executed "
                "against the real CML templates; non-trivial: a fault fired, a call failed, threads were switched or the world's own mark was set; distinct: by a hash "
                "over every result, object state and switch point of the run (exact up to 131072 per worker process, not counted beyond)",
        "samples": [s for j in results for s in j.get("samples", [])][:4],
        "worlds": [{k: j.get(k) for k in ("world", "runs", "nontrivial", "distinct", "interleavings", "ops", "ops_threw", "ops_reached", "ops_catalogue", "accesses", "allocs", "allocs_denied", "switches",
                                          "forced_switches", "race_checks", "search_s", "known_hits", "not_repeated", "stderr") if k in j} for j in results],
        "seeds": {"base": a.seed, "per_run": "mix(base, run index, property)", "count": tot("runs")},
        "simulated_runs_per_hour": int(tot("runs") / search * 3600),
        "simulated_time": {"unit": "instrumented memory accesses of library code (CML reads no clock; one access is one tick)", "ticks": tot("accesses")},
        "faults_injected": faults,
        "reach_probes": probes,
        "known_findings_seen": [k["what"] for k in known_out],
        "regression_plans": regress,
        "determinism_selftest": determinism,
        "components": {"real": ["/repo/cml headers, compiled from the current tree with access instrumentation", "libstdc++"],
                       "stubbed": ["heap (malloc, operator new, user allocators)", "rand/srand/std::random_device", "thread scheduler, mutexes, guards, atomics", "clocks",
                                   "output sinks (streambuf)"]},
        "build_s": round(t_build, 1),
    }
    if violation:
        cov["violation"] = {k: violation[k] for k in violation if k in ("cls", "msg", "replay", "world", "steps", "steps_before", "switches", "switches_before", "hash_equal")}
    if broken:
        cov["no_answer"] = broken
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": "exploration", "coverage": cov,
          "assumptions": ["g++ code generated at -O1 with -fsanitize=thread instrumentation behaves like the shipped build", "a run explores one seeded history; absence of a "
                          "violation is evidence for the histories explored, not a proof"],
          "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, prop + ".json"), "w") as o:
        json.dump(ev, o, indent=1)
        o.write("\n")


if __name__ == "__main__":
    sys.exit(main())
