#!/usr/bin/env python3
"""Write MANIFEST.json: one check per property that has a binary in harness/src/bin."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C10": ("stateful property-based testing (proptest) against a reference model", "histories of operations against a vector model"),
    "C13": ("stateful property-based testing (proptest) against a reference model", "histories of operations against a set model"),
    "C06": ("stateful property-based testing (proptest) against a reference model", "iterator histories against a deque of all positions"),
    "C17": ("stateful property-based testing (proptest) against a reference model", "iterator histories against an interval; all byte ranges enumerated"),
    "C18": ("property-based testing (proptest) against a reference search", "layers of a reference breadth-first search"),
    "C19": ("property-based testing (proptest) against a reference search", "reference breadth-first search and path replay"),
    "C20": ("property-based testing (proptest) against a reference search", "reference breadth-first search and path replay"),
    "C21": ("property-based testing (proptest) against a reference search", "reference Dijkstra search with 128-bit sums and path replay"),
    "C22": ("differential and stateful property-based testing (proptest)", "backends against a model and against each other; searches against each other"),
    "C23": ("property-based testing (proptest) against a reference interpretation", "came-from maps followed by the harness"),
    "C24": ("property-based testing with generated programs given to rustc", "generated programs with consistent and inconsistent sizes, in pairs, against the predicted verdict"),
    "C25": ("property-based testing (proptest) against reference arithmetic", "laws of built-in positions on integer pairs and user-defined types"),
    "C26": ("property-based testing with generated programs compiled and run", "generated programs of random dimensions, checking themselves"),
    "C15": ("property-based testing (proptest) against a reference renderer", "exact expected text"),
}
checks, missing = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if not os.path.exists(os.path.join(here, "harness/src/bin", i.lower() + ".rs")):
        missing.append(i)
        continue
    tech, note = T.get(i, ("property-based testing (proptest) against reference arithmetic", "exact integer arithmetic on coordinates by the harness"))
    checks.append({
        "property": i,
        "quick_cmd": f"bash check.sh {i}",
        "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {i}",
        "evidence_file": f"evidence/{i}.json",
        "technique": tech,
        "level": "exploration",
        "level_note": note + "; generated cases over tables of extents from 1x1 to 65536x65536, fixed seed, shrunk replay on failure; finite sub-spaces enumerated completely where the evidence says so",
    })
m = {
    "version": 1,
    "setup_cmd": "bash check.sh --build",
    "checks": checks,
    "not_applicable": [{"property": i, "reason": "check not built yet"} for i in missing],
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks;", missing)
