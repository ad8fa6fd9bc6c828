#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": "stateful property-based testing against a reference model",
    "C12": "property-based testing of set laws against BTreeSet",
    "C16": "stateful property-based testing of repeated workloads, allocator accounting as oracle",
    "C17": "generated item definitions, decided by the compiler and by running the accepted ones",
    "C20": "generated programs, decided line by line by the compiler against a model of loans",
    "C18": "stateful random testing under debug checks, AddressSanitizer and Miri",
    "C19": "metamorphic property-based testing: interleaved stores against each store alone",
    "C11": "property-based testing of component placement, allocator records as oracle",
    "C14": "stateful property-based testing with drop and allocation counting",
}
NOTE = {
    "C10": "Exploration of generated histories in builds with debug assertions; release builds do not check misuse and are not claimed.",
    "C17": "Exploration of generated struct, enum and union definitions with the installed compiler; generic types are outside the statement.",
    "C20": "Exploration of generated straight-line programs (and a grid of fixed ones) with the installed compiler; what write queries do to the store besides keeping it is left open.",
    "C18": "Exploration: what the debug checks, the allocator checks, AddressSanitizer and (on fewer, shorter histories) Miri notice. Aliasing models are off.",
}
DEFAULT = "Exploration of generated histories in a debug-checked and a release build, every step compared with a reference model; failures shrink to a replay file. Trusts the model, rustc and std."
checks = []
for l in open(f"{V}/properties.jsonl"):
    i = json.loads(l)["id"]
    checks.append({
        "property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i}", "evidence_file": f"evidence/{i}.json",
        "technique": TECH.get(i, TECH["C01"]), "level": "exploration", "level_note": NOTE.get(i, DEFAULT),
    })
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the harness uses the public API only. Repairs in /repo and how they were found: known_findings.txt, DESIGN.md."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
