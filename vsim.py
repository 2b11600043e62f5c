#!/usr/bin/env python3
"""Orchestrator of the deterministic-simulation checks.

  vsim.py check ID          build from /repo, explore, report (the MANIFEST commands)
  vsim.py replay FILE       rebuild and replay one replay file, print its trace
  vsim.py selftest [ID..]   determinism self-test: the same seeds twice, at different worker counts
  vsim.py setup             compile the framework once, to see that it builds
"""
import json, os, re, shutil, struct, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VSIM_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS, FLAVOURS

CXX = "clang++-18"
BASE = ["-stdlib=libc++", "-std=gnu++14", "-pthread", "-w"]
# the flags /repo's own build uses (see /opt/vp/cmake), so that the same code is compiled
CODE = BASE + ["-fms-extensions", "-fms-compatibility", "-fms-compatibility-version=19.30", "-U_MSC_VER",
               "-fno-delayed-template-parsing", "-include", os.path.join(HERE, "sim/gnuc_macros.h"), "-include", "utility",
               "-I" + REPO + "/include", "-I" + REPO + "/experimental/include"]

def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)

def build(pid, outdir):
    c = CHECKS[pid]; fl = FLAVOURS[c["flavour"]]
    os.makedirs(outdir, exist_ok=True)
    jobs = []
    def cc(src, obj, flags):
        jobs.append((src, obj, subprocess.Popen([CXX] + flags + ["-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    objs = []
    h = os.path.join(outdir, "harness.o")
    cc(os.path.join(HERE, "harness", c["harness"]), h, CODE + fl["code"] + ["-DP_" + pid] + c.get("flags", []))
    objs.append(h)
    for s in c.get("src", []):
        o = os.path.join(outdir, "src_" + s.replace("/", "_") + ".o"); cc(os.path.join(REPO, s), o, CODE + fl["code"] + c.get("flags", [])); objs.append(o)
    for s, flags in fl["runtime"]:
        o = os.path.join(outdir, os.path.basename(s) + ".o"); cc(os.path.join(HERE, s), o, BASE + flags); objs.append(o)
    for src, obj, p in jobs:
        out, _ = p.communicate()
        if p.returncode:
            sys.stderr.write("compiling %s failed\n%s\n" % (src, out[-6000:])); return None
    exe = os.path.join(outdir, "sim")
    r = run([CXX, "-stdlib=libc++", "-pthread"] + fl["link"] + objs + ["-o", exe] + c.get("link", []) + fl.get("libs", []))
    if r.returncode:
        sys.stderr.write("linking failed\n%s\n" % r.stdout[-6000:]); return None
    return exe

def known_findings():
    try: return json.load(open(os.path.join(HERE, "known_findings.json"))).get("findings", [])
    except FileNotFoundError: return []

def parse(out):
    stats, found, unrep = None, [], []
    lines = out.splitlines()
    for i, l in enumerate(lines):
        if l.startswith("STATS "): stats = json.loads(l[6:])
        elif l.startswith("FOUND "):
            cls = lines[i+1][6:] if i + 1 < len(lines) else ""; msg = lines[i+2][8:] if i + 2 < len(lines) else ""
            found.append((l[6:], cls, msg))
        elif l.startswith("UNREPRODUCIBLE "): unrep.append(l[15:])
    return stats, found, unrep

def union_count(paths):
    s = set()
    for p in paths:
        try: b = open(p, "rb").read()
        except FileNotFoundError: continue
        s.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
    return len(s)

def explore(exe, pid, seed, workers, per_worker, maxs, outdir, only=None):
    ps = []
    for w in range(workers):
        cmd = [exe, "explore", pid, str(seed), str(w), str(workers), str(per_worker), str(maxs), outdir, str(w)]
        if only: cmd.append(only)
        ps.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace"))
    res = []
    for p in ps:
        o, e = p.communicate()
        res.append((p.returncode, o, e))
    return res

def check(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    c = CHECKS[pid]
    root = os.path.join(HERE, "build"); os.makedirs(root, exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=root)
    try:
        return check_in(pid, c, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def check_in(pid, c, tier, seed, work, t0):
    exe = build(pid, work)
    if not exe: return 2
    tb = time.time() - t0
    ncpu = os.cpu_count() or 4
    workers = 8
    total = c["quick_runs"] if tier == "quick" else 10**9
    maxs = c.get("quick_secs", 150) if tier == "quick" else int(os.environ.get("VSIM_THOROUGH_SECS", c.get("thorough_secs", 600)))
    if ncpu < workers: maxs = maxs * 2
    t1 = time.time()
    res = explore(exe, pid, seed, workers, max(1, total // workers), maxs, work)
    texp = time.time() - t1
    agg = {"runs": 0, "choices": 0, "simtime_ns": 0, "steps": 0, "events": 0, "faulty_runs": 0, "det_checked": 0, "det_bad": 0}
    counters, scen, samples, found, unrep, digest, most = {}, {}, [], [], [], [], 0
    for rc, o, e in res:
        st, f, u = parse(o)
        if e.strip(): sys.stderr.write(e[-2000:])
        if rc != 0 or st is None:
            sys.stderr.write("worker failed rc=%s\n%s\n" % (rc, (o + e)[-2000:])); return 2
        for k in agg: agg[k] += st[k]
        most = max(most, st["max_choices"])
        for k, v in st["counters"].items(): counters[k] = counters.get(k, 0) + v
        for k, v in st["scenarios"].items(): scen[k] = scen.get(k, 0) + v
        samples += st["samples"]; found += f; unrep += u; digest.append(st["digest"])
    states = union_count([os.path.join(work, "states-%s-w%d.bin" % (pid, w)) for w in range(workers)])
    druns = union_count([os.path.join(work, "runs-%s-w%d.bin" % (pid, w)) for w in range(workers)])
    # every violation must replay in a fresh process, twice, exactly
    confirmed, suppressed = [], []
    kf = [k for k in known_findings() if k.get("property") == pid]
    for path, cls, msg in found:
        ok = True
        for _ in range(2):
            r = run([exe, "replay", path])
            if "match=1" not in r.stdout: ok = False
        if not ok:
            unrep.append(cls + " (fresh-process replay differs)"); continue
        rep = json.load(open(path)); trace = "\n".join(rep.get("trace", []))
        hit = None
        for k in kf:
            if k["class"] == cls and rep["scenario"] == k.get("scenario", rep["scenario"]) and re.search(k.get("message", ""), msg) and re.search(k.get("trace", ""), trace): hit = k
        (suppressed if hit else confirmed).append((path, cls, msg, hit))
    for k in kf:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    rc = 0
    out_path = None
    if confirmed:
        confirmed.sort(key=lambda x: (os.path.getsize(x[0]), x[0]))
        rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
        seen = set()
        for path, cls, msg, _ in confirmed:
            if cls in seen: continue
            seen.add(cls)
            dst = os.path.join(rdir, "%s-%s-seed%d.json" % (pid, re.sub(r"[^A-Za-z0-9]+", "-", cls)[:50], seed))
            shutil.copy(path, dst); out_path = out_path or dst
            print("VIOLATION property=%s replay=%s" % (pid, dst))
            print("  class=%s: %s" % (cls, msg))
        rc = 1
    elif unrep:
        sys.stderr.write("a violation could not be reproduced: %s\n" % unrep); rc = 2
    faults = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("fault:")}
    probes = {k[6:]: v for k, v in sorted(counters.items()) if k.startswith("probe:")}
    other = {k: v for k, v in sorted(counters.items()) if not k.startswith(("fault:", "probe:"))}
    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": c["level"],
        "coverage": {
            "evaluations": agg["runs"],
            "distinct_nontrivial": druns,
            "rule": c["rule"],
            "samples": samples[:4],
            "simulated_runs": agg["runs"], "seeds_per_hour": int(agg["runs"] / max(texp, 1e-3) * 3600), "runs_per_scenario": scen,
            "simulated_time_s": agg["simtime_ns"] / 1e9, "logged_events": agg["events"], "decisions_drawn": agg["choices"], "most_decisions_in_a_run": most, "basic_block_or_memory_steps": agg["steps"],
            "runs_with_faults": agg["faulty_runs"], "faults_injected": faults, "probes": probes, "counters": other,
            "distinct_states": states, "distinct_states_measure": c["states"],
            "determinism_reruns": agg["det_checked"], "determinism_mismatches": agg["det_bad"], "log_digests": digest,
            "components_real": c["real"], "components_stubbed": c["stub"],
            "build_s": round(tb, 1), "explore_s": round(texp, 1),
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d runs (%d distinct), %d states, %d faults in %d runs, %.1fs build + %.1fs search, %s" % (
        pid, tier, seed, agg["runs"], druns, states, sum(faults.values()), agg["faulty_runs"], tb, texp, "VIOLATED" if rc == 1 else "ERROR" if rc else "held"))
    return rc

def replay(path):
    rep = json.load(open(path)); pid = rep["property"]
    root = os.path.join(HERE, "build"); os.makedirs(root, exist_ok=True)
    work = tempfile.mkdtemp(prefix="replay-", dir=root)
    try:
        exe = build(pid, work)
        if not exe: return 2
        r = subprocess.run([exe, "replay", os.path.abspath(path)], env=dict(os.environ, SIM_TRACE="1"))
        return r.returncode
    finally: shutil.rmtree(work, ignore_errors=True)

def selftest(ids):
    bad = 0
    for pid in ids or sorted(CHECKS):
        work = tempfile.mkdtemp(prefix="self-" + pid + "-")
        try:
            exe = build(pid, work)
            if not exe: print(pid, "BUILD FAILED"); bad += 1; continue
            def hashes(env):
                r = []
                for seed in (1, 2, 3):
                    res = explore(exe, pid, seed, 8, 40, 300, work)
                    r.append([parse(o)[0]["digest"] for _, o, _ in res])
                return r
            a = hashes(None); b = hashes(None); ok = a == b
            # one worker in a process with another environment and address space layout
            os.environ["SIM_NOASLR"] = "1"
            c2 = hashes(None); del os.environ["SIM_NOASLR"]
            print(pid, "same" if ok else "DIFFERENT", "aslr-on:", "same" if a == c2 else "DIFFERENT"); bad += (not ok) + (a != c2)
        finally: shutil.rmtree(work, ignore_errors=True)
    return 1 if bad else 0

def main():
    a = sys.argv[1:]
    if a[:1] == ["check"] and len(a) == 2: return check(a[1])
    if a[:1] == ["replay"] and len(a) == 2: return replay(a[1])
    if a[:1] == ["selftest"]: return selftest(a[1:])
    if a[:1] == ["setup"]:
        r = run([CXX, "--version"]); print(r.stdout.splitlines()[0]); return r.returncode
    print(__doc__); return 2
if __name__ == "__main__":
    sys.exit(main())
