#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] : build the property's harness from /repo's working tree, run the
simulation, report.  Exit 0 held, 1 violated (VIOLATION line), 2/3 error of the check itself."""
import json, os, re, subprocess, sys, time, hashlib, shutil
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")     # development only (scratch copies); checks use /repo
CXX = "g++"
BASE = ["-std=gnu++17", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-w",
        "-ftrivial-auto-var-init=pattern", "-I" + VERIF + "/sim", "-I" + VERIF + "/harness"]

def flags_of(src):
    """`// BUILD: ...` lines of a harness file: extra flags; $R = repo, $V = verif"""
    fl, extra = [], []
    for line in open(src, errors="replace"):
        m = re.match(r"// (BUILD|EXTRA): (.*)", line)
        if m:
            toks = m.group(2).replace("$R", REPO).replace("$V", VERIF).split()
            (fl if m.group(1) == "BUILD" else extra).extend(toks)
    return fl, extra

def build(prop, bdir):
    srcs = sorted(os.path.join(VERIF, "harness", f) for f in os.listdir(os.path.join(VERIF, "harness"))
                  if re.match(prop + r"(_\w+)?\.cpp$", f))
    if not srcs:
        print("no harness for", prop, file=sys.stderr); sys.exit(2)
    jobs = [(os.path.join(VERIF, "sim", "sim.cpp"), [])]
    for s in srcs:
        fl, extra = flags_of(s)
        jobs.append((s, fl))
        for e in extra:
            if all(e != j[0] for j in jobs): jobs.append((e, fl))
    objs = []
    def one(job):
        src, fl = job
        obj = os.path.join(bdir, hashlib.sha1((src + " ".join(fl)).encode()).hexdigest()[:8] + "-" + os.path.basename(src) + ".o")
        comp = ["gcc", "-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-w"] if src.endswith(".c") else [CXX] + BASE + ["-I" + REPO + "/src"]
        r = subprocess.run(comp + fl + ["-c", src, "-o", obj], capture_output=True, text=True)
        return obj, r
    with ThreadPoolExecutor(8) as ex:
        for obj, r in ex.map(one, jobs):
            if r.returncode:
                errs = [l for l in r.stderr.splitlines() if 'error' in l]; sys.stderr.write('\n'.join(errs[:8]) + '\n'); print("BUILD-ERROR", prop, file=sys.stderr); sys.exit(2)
            objs.append(obj)
    exe = os.path.join(bdir, prop)
    r = subprocess.run([CXX, "-fsanitize=address"] + objs + ["-o", exe], capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr[-6000:]); print("LINK-ERROR", prop, file=sys.stderr); sys.exit(2)
    return exe

def known(prop):
    fs = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) probe=(\S+) (.*)", line)
            if m and m.group(1) == prop: fs.append(m.groups()[1:])
    return fs

def replay(path):
    """check.py replay FILE: rebuild the harness from /repo's working tree, execute the recorded run again"""
    prop = json.load(open(path))["property"]
    bdir = os.path.join(VERIF, "build", prop); os.makedirs(bdir, exist_ok=True)
    return subprocess.run([build(prop, bdir), "replay", path, "--trace"]).returncode

def main():
    if sys.argv[1] == "replay": return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    extra = sys.argv[3:]
    t0 = time.time()
    bdir = os.path.join(VERIF, "build", prop)
    os.makedirs(bdir, exist_ok=True)
    rdir = os.path.join(VERIF, "replays"); os.makedirs(rdir, exist_ok=True)
    edir = os.path.join(VERIF, "evidence"); os.makedirs(edir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"): os.unlink(os.path.join(rdir, f))
    print("property=%s tier=%s seed=%d" % (prop, tier, seed), flush=True)
    exe = build(prop, bdir)
    tb = time.time() - t0
    workers = min(8, os.cpu_count() or 8)
    cap = 90 if tier == "quick" else 600
    violations = []
    known_lines = []
    # findings: each has a probe scenario that fails with its key while the defect exists
    for key, probe, text in known(prop):
        p = subprocess.run([exe, "run", "--scenario", probe, "--runs", "64", "--workers", "4", "--seed", str(seed),
                            "--known", key, "--replay-dir", rdir], capture_output=True, text=True)
        sys.stderr.write(p.stderr)
        if "KNOWN-HIT key=" + key in p.stdout: known_lines.append("KNOWN-FINDING: property=%s %s" % (prop, text))
        found = re.findall(r"FOUND key=(.*?) run=", p.stdout)
        reps = re.findall(r"REPLAY (\S+)", p.stdout)
        for k, r in zip(found, reps): violations.append((k, r, p.stdout))
        if p.returncode not in (0, 1): print(p.stdout, p.stderr, file=sys.stderr); sys.exit(3)
    stats = os.path.join(bdir, "stats.json")
    rc = 0
    for attempt in range(6):
        if os.path.exists(stats): os.unlink(stats)
        p = subprocess.run([exe, "run", "--seed", str(seed + attempt * 7919), "--tier", tier, "--workers", str(workers),
                            "--time-cap", str(cap), "--out", stats, "--replay-dir", rdir] + extra,
                           capture_output=True, text=True)
        sys.stdout.write(p.stdout); sys.stderr.write(p.stderr)
        rc = p.returncode
        if rc != 3: break       # 3: a candidate did not reproduce exactly; search on with another seed
    found = re.findall(r"FOUND key=(.*?) run=", p.stdout)
    reps = re.findall(r"REPLAY (\S+)", p.stdout)
    for k, r in zip(found, reps): violations.append((k, r, p.stdout))
    if rc not in (0, 1) and not violations:
        print("CHECK-ERROR: simulator exit", rc, file=sys.stderr); sys.exit(3)
    st = json.load(open(stats)) if os.path.exists(stats) else {}
    wall = time.time() - t0
    sim_wall = max(st.get("wall_s", 0.001), 0.001)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
      "coverage": {
        "evaluations": st.get("runs", 0),
        "distinct_nontrivial": st.get("distinct_runs", 0),
        "rule": st.get("rule", ""),
        "samples": st.get("samples", []),
        "nontrivial_runs": st.get("nontrivial", 0),
        "simulated_runs_per_hour": int(st.get("runs", 0) / sim_wall * 3600),
        "seeds_per_hour": int(st.get("runs", 0) / sim_wall * 3600),
        "simulated_time_s": round(st.get("sim_time_us", 0) / 1e6, 3),
        "faults_injected": st.get("faults", {}),
        "probes": st.get("probes", {}),
        "distinct_states": st.get("distinct_states", 0),
        "distinctness_measure": "distinct_nontrivial: distinct hashes of the complete event log of a run; distinct_states: distinct abstract-state hashes reported by the harness",
        "steps": st.get("steps", 0), "decisions": st.get("decisions", 0),
        "planned_runs": st.get("planned_runs", 0), "stopped_by_time_cap": st.get("time_capped", False),
        "tapes_truncated": st.get("truncated", 0),
        "real_components": st.get("real", ""), "stub_components": st.get("stub", ""),
        "scenarios": st.get("scenarios", []),
        "event_log_digest": st.get("digest", ""),
        "simulation_wall_s": st.get("wall_s", 0), "build_wall_s": round(tb, 2), "workers": workers,
        "known_findings_confirmed": len(known_lines)},
      "assumptions": [a.strip() for a in st.get("assumptions", "").split("|") if a.strip()],
      "wall_s": round(wall, 2), "violations": len(violations)}
    with open(os.path.join(edir, prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for l in known_lines: print(l)
    for k, r, _ in violations:
        print("violated: " + k)
        print("VIOLATION property=%s replay=%s" % (prop, r))
    if violations: return 1
    print("%s held: %d runs, %d distinct non-trivial, %.1f s" % (prop, st.get("runs", 0), st.get("distinct_runs", 0), wall))
    return 0

if __name__ == "__main__":
    sys.exit(main())
