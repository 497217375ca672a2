#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
import checks
NA = {
    "C17": "Unforgeability and zero knowledge are claims about all polynomial-time adversaries under hardness assumptions; they need a cryptographic proof, no simulated execution can decide them. The parts a simulation can decide are C05, C08 and C14.",
    "C18": "Arithmetic identities of pure functions of their operands: no concurrency, time, I/O, randomness or other party. Their use inside the scheme is covered indirectly by C04.",
}
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
na = [{"property": p, "reason": NA.get(p, "not yet built")} for p in props if p not in checks.CHECKS]
m = {"version": 1, "setup_cmd": "python3 run.py --setup",
     "hooks": {"guard": "FAEST_SIM", "enable": "No hook was needed: the checks compile /repo's unmodified sources into shared objects of their own and redirect undefined symbols (heap, entropy, OpenSSL, libc file calls) to the simulator with objcopy.", "source_commits": []},
     "checks": [], "not_applicable": na,
     "notes": "run.py --replay FILE replays a reported violation. KNOWN_FINDINGS lists repaired defects."}
for p, c in sorted(checks.CHECKS.items()):
    m["checks"].append({"property": p, "quick_cmd": "python3 run.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p,
                        "evidence_file": "evidence/%s.json" % p, "technique": c["technique"], "level": c["level"], "level_note": c["note"]})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
