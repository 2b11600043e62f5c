#!/usr/bin/env python3
"""seed.py SPEC.py [ids]: builds seeded/<id>/ from a spec, checks that each bug builds, passes the stable tests,
fails its demonstration, and says whether the property's check catches it. The spec defines
SEEDS = [dict(id, property, file/old/new or edits, needs, breaks, demo, flags, also)]."""
import json, os, shutil, subprocess, sys, runpy
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + "/tools")
import edit
FL = "-stdlib=libc++ -std=gnu++14 -O1 -w -pthread -fms-extensions -fms-compatibility -fms-compatibility-version=19.30 -U_MSC_VER -fno-delayed-template-parsing -include \"$D/gnuc_macros.h\" -include utility -Iinclude -Iexperimental/include"
def sh(*a, **k): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
def git(*a): return sh("git", "-C", "/repo", *a)
def tests():
    r = sh("bash", "/opt/vp/build.sh")
    if r.returncode: return "BUILD FAILS " + r.stdout[-1500:]
    sh("bash", "/opt/vp/test.sh", "/tmp/seed-o.json")
    b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/seed-o.json"))
    def names(x):
        if isinstance(x, dict):
            for k in ("passed", "pass", "stable", "tests"):
                if isinstance(x.get(k), list): return set(map(str, x[k]))
            return set(k for k, v in x.items() if v in ("pass", "passed", True))
        return set(map(str, x))
    m = sorted(names(b) - names(o)); return "ok" if not m else "TESTS FAIL %d %s" % (len(m), m[:3])
def demo(d):
    try: r = sh("bash", d + "/demo.sh", cwd="/repo", timeout=300)
    except subprocess.TimeoutExpired: return 99, "timeout"
    return r.returncode, r.stdout[-300:]
def main():
    assert not git("status", "--porcelain", "-uno").stdout.strip(), "repo not clean"
    for s in runpy.run_path(sys.argv[1])["SEEDS"]:
        if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]: continue
        d = H + "/seeded/" + s["id"]; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        if not s.get("plain"): shutil.copy(H + "/sim/gnuc_macros.h", d)
        open(d + "/demo.cpp", "w").write(s["demo"].lstrip())
        srcs = " ".join(s.get("src", []))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nD=$(cd "$(dirname "$0")" && pwd); W=$(mktemp -d); trap \'rm -rf "$W"\' EXIT\nclang++-18 %s %s "$D/demo.cpp" %s -o "$W/demo" || exit 2\ncd "$W" && timeout %d "$W/demo"\n' % (FL, s.get("flags", ""), srcs, s.get("timeout", 100)))
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        res = [s["id"], s["property"]]
        try:
            c0 = demo(d)
            for e in s.get("edits", [s]): edit.replace("/repo/" + e["file"], e["old"], e["new"], e.get("n", 1))
            p = subprocess.run(["git", "-C", "/repo", "diff"], stdout=subprocess.PIPE).stdout
            open(d + "/patch.diff", "wb").write(p)
            t = tests(); c1 = demo(d)
            caught = []
            for c in [s["property"]] + s.get("also", []):
                r = sh(sys.executable, H + "/vsim.py", "check", c, cwd=H)
                l = [x for x in r.stdout.splitlines() if x.startswith("  class")]
                caught.append("%s rc=%d %s" % (c, r.returncode, l[0].strip()[:110] if l else r.stdout[-200:].strip()))
            ok = c0[0] == 0 and c1[0] != 0 and t == "ok"
            print("%-28s %s tests=%s demo clean=%d bug=%d (%s) | %s" % (s["id"], "KEPT" if ok else "REJECTED", t, c0[0], c1[0], (c0[1] if c0[0] else c1[1]).strip().replace("\n", " ")[-160:], "; ".join(caught)), flush=True)
            if not ok: shutil.rmtree(d)
        finally: git("checkout", "--", ".")
    sh("bash", "/opt/vp/build.sh")
main()
