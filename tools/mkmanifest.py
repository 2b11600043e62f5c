#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and the list of not-applicable properties."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, os.path.join(HERE, ".."))
from checks import CHECKS
import mkprops
PURE = "A pure function of its arguments: there is no schedule, clock, randomness, I/O, allocation failure or other party the property depends on, so a simulator has nothing to decide; "
NA = {
 "N01": PURE + "checking it would be plain input generation. (Hidden tables and allocation failures of the table-building helpers are covered by D08 and D09.)",
 "N02": PURE + "checking it would be plain input generation. (The cached Bernoulli and prime-count tables are covered by C06, D08 and D09.)",
 "N03": PURE + "checking it would be plain input generation. (Failures inside the arithmetic are covered by D10.)",
 "N04": PURE + "checking it would be plain input generation. (The hidden root tables are covered by C06, D08 and D09.)",
 "N05": PURE + "checking it would be plain input generation.",
 "N06": PURE + "checking it would be plain input generation. (Failures inside the indexes are covered by D07, concurrent queries by C07.)",
 "N07": PURE + "checking it would be plain input generation. (Concurrent use is covered by C06.)",
 "N08": PURE + "checking it would be plain input generation.",
 "N09": PURE + "checking it would be plain input generation.",
 "N10": PURE + "checking it would be plain input generation.",
 "N11": PURE + "checking it would be plain input generation.",
 "N12": PURE + "checking it would be plain input generation.",
}
def main():
    checks, na = [], []
    for p in mkprops.P:
        i = p["id"]
        if i in CHECKS:
            c = CHECKS[i]
            checks.append({
                "property": i,
                "quick_cmd": "python3 vsim.py check " + i,
                "thorough_cmd": "VERIF_TIER=thorough python3 vsim.py check " + i,
                "technique": c.get("technique", "deterministic simulation with fault injection: seeded search, reference model"),
                "level": c["level"],
                "level_note": c.get("note", "Seeded sampling of histories and faults against a reference model on the real code, compiled with AddressSanitizer; a clean run is evidence, not proof. Trusts the simulator, the model and the compiler."),
            })
        else:
            na.append({"property": i, "reason": NA.get(i, "Not claimed yet: its simulation harness is still being built.")})
    m = {"version": 1, "setup_cmd": "python3 vsim.py setup", "checks": checks, "not_applicable": na,
         "notes": "No hooks in /repo: every seam (allocator, element types, FILE*, streams, random source, clock, threads) exists in the language or the C library and is interposed at link time. See DESIGN.md."}
    json.dump(m, open(os.path.join(HERE, "..", "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
    print(len(checks), "checks,", len(na), "not applicable")
main()
