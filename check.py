#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by seeded simulation of /repo's working tree.

Exit 0: no violation in anything simulated.  Exit 1: a line
"VIOLATION property=<id> replay=<path>" on stdout; `check.py replay <path>`
reproduces it.  Any other status is an error of the check itself.
"""
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
BUILD = os.path.join(HERE, "build")
WORKERS = 8
QUICK_S, THOROUGH_S = 45, 660

REAL = ["fbstab/fbstab_algorithm.h", "fbstab/fbstab_algorithm-impl.h", "fbstab/fbstab_dense.{h,cc}",
        "fbstab/fbstab_mpc.{h,cc}", "fbstab/components/*.{h,cc} (data, variable, residual, feasibility, linear solvers)",
        "tools/matrix_sequence.h", "tools/output_stream.h", "tools/utilities.h", "Eigen (headers)",
        "libstdc++ containers, exceptions and iostream formatting"]
STUB = ["malloc/calloc/realloc/free/posix_memalign/aligned_alloc (arena with guard bytes, ownership and failures)",
        "clock_gettime, gettimeofday, time, std::chrono clocks (virtual clocks)",
        "stdout (device with full, short and failing writes)",
        "pthread mutexes and static-initialiser guards (cooperative)", "OS threads (one runs at a time, seeded scheduler)",
        "network, disk and plant of the control worlds (simulated)"]


def tree_hash():
    h = hashlib.sha256()
    files = []
    for top in ("fbstab", "tools"):
        for root, _, names in os.walk(os.path.join(REPO, top)):
            files += [os.path.join(root, n) for n in names if n.endswith((".h", ".cc", ".hpp", ".cpp", ".c", ".inc", ".ipp"))]
    files += glob.glob(os.path.join(HERE, "sim", "*"))
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fd:
                h.update(fd.read())
    return h.hexdigest()[:20]


def build(mem=False):
    """The simulator around the tree; mem: the one that can also switch threads at accesses to static storage."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        out = os.path.join(BUILD, tree_hash() + ("m" if mem else ""))
        sim = os.path.join(out, "sim")
        if not os.path.exists(sim):
            old = sorted((d for d in glob.glob(os.path.join(BUILD, "*")) if os.path.isdir(d)), key=os.path.getmtime)
            for d in old[:-4]:
                shutil.rmtree(d, ignore_errors=True)
            tmp = out + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            env = dict(os.environ, REPO=REPO, MEM="1" if mem else "")
            r = subprocess.run([os.path.join(HERE, "sim", "build.sh"), tmp], env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if r.returncode or not os.path.exists(os.path.join(tmp, "sim")):
                sys.stdout.write(r.stdout[-6000:])
                print("ERROR: the simulator does not build around this tree")
                sys.exit(2)
            for o in glob.glob(os.path.join(tmp, "*.o")):
                os.unlink(o)
            shutil.rmtree(out, ignore_errors=True)
            os.rename(tmp, out)
        else:
            os.utime(out)
    return sim


def sim_json(cmd, timeout):
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    lines = [l for l in r.stdout.splitlines() if l.startswith("{")]
    try:
        return json.loads(lines[-1]) if lines else None
    except ValueError:
        return None


def sim_for(sim, path):
    """A plan made for the memory-access build replays on that build."""
    with open(path) as f:
        return build(True) if re.search(r"^op env\b.*\bmem=1\b", f.read(), re.M) else sim


def replay(sim, path):
    return sim_json([sim_for(sim, path), "replay", path], 400)


def known_findings():
    """Lines 'known: property=<id> class=<c> match=<regex>: text' silence exactly what they describe."""
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    for line in open(path) if os.path.exists(path) else []:
        m = re.match(r"known: property=(\S+) class=(\S+) match=/(.*)/: (.*)", line.strip())
        if m:
            out.append(m.groups())
    return out


def is_known(known, prop, r):
    for p, c, rx, text in known:
        if p == prop and c == r["cls"] and re.search(rx, r["msg"]):
            return text
    return None


def report(sim, prop, path, work, first):
    """Minimise, confirm in fresh processes, print.  Returns True if it stands."""
    a = replay(sim, path)
    b = replay(sim, path)
    if not a or not b or not a["violated"] or a["hash"] != b["hash"] or a["cls"] != b["cls"]:
        print(f"note: run {path} did not repeat ({a} / {b}); not reported")
        return False
    out = os.path.join(HERE, "replays", f"{prop}-{a['cls']}-{first}.plan")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    small = os.path.join(work, "small.plan")
    s = sim_json([sim_for(sim, path), "shrink", path, small, "40"], 400)
    best = path
    if s and s.get("violated"):
        c, d = replay(sim, small), replay(sim, small)
        if c and d and c["violated"] and c["cls"] == a["cls"] and c["hash"] == d["hash"]:
            best, a = small, c
    shutil.copyfile(best, out)
    print(f"{prop}: {a['cls']}: {a['msg']}")
    with open(out) as f:
        for line in f.read().splitlines()[:40]:
            print("    " + line)
    print(f"  reproduce: {HERE}/check.py replay {out}")
    print(f"VIOLATION property={prop} replay={out}", flush=True)
    return True


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "build":
        print(build())
        print(build(True))
        return 0
    if sys.argv[1] == "replay":
        sim = build()
        r = subprocess.run([sim_for(sim, sys.argv[2]), "replay", sys.argv[2], "-v"])
        return r.returncode
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("VERIF_SECONDS", THOROUGH_S if tier == "thorough" else QUICK_S))
    t0 = time.time()
    sim = build()
    work = os.path.join(BUILD, f"run-{prop}-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    try:
        return explore(prop, tier, seed, budget, t0, sim, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def explore(prop, tier, seed, budget, t0, sim, work):
    known = known_findings()
    known_seen = {}
    # 1. schedules that once failed
    regress = sorted(glob.glob(os.path.join(HERE, "regress", prop + "-*.plan")))
    regress_runs = 0
    violations = 0
    for path in regress:
        r = replay(sim, path)
        regress_runs += 1
        if r and r["violated"]:
            k = is_known(known, prop, r)
            if k:
                known_seen[k] = known_seen.get(k, 0) + 1
                continue
            if report(sim, prop, path, work, "regress"):
                violations += 1
                break
    # 2. seeded search
    data, notes = [], []
    if not violations:
        env = dict(os.environ)
        if any(k[0] == prop for k in known):
            env["SIM_KEEP_GOING"] = "1"
        mem = build(True) if prop == "C06" else sim
        t1 = time.time()
        procs = []
        for w in range(WORKERS):
            out = os.path.join(work, f"w{w}")
            procs.append((out, subprocess.Popen(
                [mem if w % 3 == 1 else sim, "work", prop, str(seed), str(w), str(WORKERS), "1000000000", str(budget), out], env=env,
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)))
        deadline = t1 + budget + 240
        hit = None
        while any(p.poll() is None for _, p in procs) and time.time() < deadline:
            time.sleep(0.2)
            if hit is None and "SIM_KEEP_GOING" not in env:
                done = [o for o, _ in procs if os.path.exists(o + ".json") and glob.glob(o + ".viol*")]
                if done:
                    hit = time.time()
                    deadline = hit + 3
        for out, p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                p.wait()
        explore_s = time.time() - t1
        lost = 0
        for out, p in procs:
            try:
                with open(out + ".json") as f:
                    data.append(json.load(f))
            except (OSError, ValueError):
                lost += 1
        if not data:
            print("ERROR: no simulator process answered")
            return 2
        if lost and hit is None:
            notes.append(f"{lost} of {WORKERS} simulator processes gave no answer")
        found = [v for d in data for v in d["violations"]]
        found.sort(key=lambda v: v["index"])
        for v in found:
            k = is_known(known, prop, v)
            if k:
                known_seen[k] = known_seen.get(k, 0) + 1
                continue
            if report(sim, prop, v["path"], work, v["index"]):
                violations += 1
                break
            notes.append(f"run {v['index']} ({v['cls']}) did not repeat and was set aside")
    else:
        explore_s = 0.001
    for k in known_seen:
        print(f"KNOWN-FINDING: property={prop} {k}")
    write_evidence(prop, tier, seed, t0, sim, work, data, regress_runs, violations, notes, explore_s)
    return 1 if violations else 0


RULE = ("A case is one simulated run: a plan drawn from (seed, index) that fixes problem data, call history, thread schedule and every "
        "fault, executed in a freshly forked process. Non-trivial: at least one call into the library completed (or, for C11, C14, C17, C19, C21 and "
        "C18, one operation) and either a fault was injected or the history has three or more operations. Distinct: the hash of the "
        "run's outcome history (verdicts, counts, exception kinds, state transitions) combined with its schedule hash differs from "
        "every other run of this check.")


def write_evidence(prop, tier, seed, t0, sim, work, data, regress_runs, violations, notes, explore_s):
    def tot(k):
        return sum(d[k] for d in data)

    states = set()
    cov = None
    for w in range(WORKERS):
        try:
            raw = open(os.path.join(work, f"w{w}.hash"), "rb").read()
            states.update(struct.unpack(f"<{len(raw) // 8}Q", raw))
            c = open(os.path.join(work, f"w{w}.cov"), "rb").read()
            n = int.from_bytes(bytes(1 if x else 0 for x in c), "little")
            cov = n if cov is None else cov | n
        except OSError:
            pass
    faults, fruns, probes = {}, {}, {}
    for d in data:
        for k, v in d["faults"].items():
            faults[k] = faults.get(k, 0) + v
        for k, v in d["fault_runs"].items():
            fruns[k] = fruns.get(k, 0) + v
        for k, v in d["probes"].items():
            probes[k] = probes.get(k, 0) + v
    runs = tot("runs") if data else 0
    samples = []
    for i in (0, 1, max(0, runs - 1)):
        gen = build(True) if prop == "C06" and i % WORKERS % 3 == 1 else sim
        r = subprocess.run([gen, "gen", prop, str(seed), str(i)], stdout=subprocess.PIPE, text=True)
        path = os.path.join(work, "s.plan")
        with open(path, "w") as f:
            f.write(r.stdout)
        samples.append({"index": i, "plan": r.stdout.splitlines()[:60], "outcome": replay(sim, path)})
    h = max(explore_s, 1e-3) / 3600
    coverage = {
        "evaluations": runs + regress_runs,
        "distinct_nontrivial": len(states),
        "rule": RULE,
        "samples": samples,
        "runs": runs,
        "nontrivial_runs": tot("nontrivial") if data else 0,
        "regression_schedules": regress_runs,
        "runs_per_hour": round(runs / h),
        "seeds_per_hour": round(runs / h),
        "seed_rule": "every run has its own seed, derived from (VERIF_SEED, property, index); index counts from 0",
        "operations": tot("ops") if data else 0,
        "library_calls": tot("solves") if data else 0,
        "simulated_seconds": round(tot("sim_seconds"), 3) if data else 0,
        "scheduler_steps": tot("steps") if data else 0,
        "thread_switches": tot("switches") if data else 0,
        "distinct_thread_schedules": tot("schedules") if data else 0,
        "basic_blocks_reached": bin(cov).count("1") if cov else 0,
        "faults_injected": {k: {"times": v, "runs": fruns.get(k, 0)} for k, v in sorted(faults.items()) if v},
        "situations_reached": {k: v for k, v in sorted(probes.items()) if v},
        "repeat_runs_compared": tot("repeat_checked") if data else 0,
        "repeat_runs_that_differed": tot("repeat_differed") if data else 0,
        "real_components": REAL,
        "simulated_components": STUB,
        "notes": notes,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "exploration",
          "coverage": coverage,
          "assumptions": ["Linux x86-64, g++ -O3 -std=c++11 with assertions, the Eigen installed here",
                          "thread switches happen at basic-block boundaries of code compiled from /repo and at allocator, clock, lock and stream calls; in a second build (3 of 8 workers of C06) also at single accesses to static storage",
                          "one memory order: threads are interleaved, not run on weakly ordered cores",
                          "bounded search: what was not generated was not seen"],
          "wall_s": round(time.time() - t0, 2), "violations": violations}
    tmp = os.path.join(HERE, "evidence", f".{prop}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    print(f"{prop}: {runs} runs ({coverage['runs_per_hour']}/h), {len(states)} distinct, {coverage['library_calls']} library calls, "
          f"{sum(faults.values())} faults of {sum(1 for v in faults.values() if v)} kinds, {coverage['simulated_seconds']} simulated s, "
          f"{'VIOLATED' if violations else 'no violation'}")


if __name__ == "__main__":
    sys.exit(main())
