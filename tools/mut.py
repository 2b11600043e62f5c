#!/usr/bin/env python3
"""mut.py FILE.json : apply each {file, old, new, checks:[..]} to a scratch copy of /repo's sources and run the checks on it."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for m in json.load(open(sys.argv[1])):
    if len(sys.argv) > 2 and m["name"] not in sys.argv[2:]: continue
    d = tempfile.mkdtemp(prefix="mut-")
    try:
        for s in ("include", "src", "experimental"):
            if os.path.isdir(os.environ.get("MUT_BASE", "/repo") + "/" + s): shutil.copytree(os.environ.get("MUT_BASE", "/repo") + "/" + s, d + "/" + s)
        for e in m.get("edits", [m]):
            p = d + "/" + e["file"]; t = open(p, encoding="latin-1").read()
            if t.count(e["old"]) < 1: print(m["name"], "PATTERN NOT FOUND", e["old"]); continue
            open(p, "w", encoding="latin-1").write(t.replace(e["old"], e["new"], e.get("n", 1)))
        for c in m["checks"]:
            r = subprocess.run([sys.executable, H + "/vsim.py", "check", c], env=dict(os.environ, VSIM_REPO=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            l = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "  class"))]
            print("%-30s %s rc=%d %s" % (m["name"], c, r.returncode, (l[1].strip()[:150] if len(l) > 1 else r.stdout.strip().splitlines()[-1][:200])), flush=True)
    finally: shutil.rmtree(d)
