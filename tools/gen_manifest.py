#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties below."""
import json, os
BASE = ("Every obligation generated from the current source of the listed functions is discharged for all inputs (bit-vector semantics of Go "
        "integers, loops by inductive invariants, callers against callee contracts). Trusted: the verification condition generator in /verif/engine, "
        "go/ssa, the SMT solvers, and the assumed contracts of library functions listed in the evidence. ")
NOTES = {}
def claim(pid, note): NOTES[pid] = note
exec(open(os.path.join(os.path.dirname(__file__), "claims.py")).read())
checks = [{"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough",
           "technique": "contract-based deductive verification: contracts on the Go source, obligations discharged by SMT solvers; counterexamples replayed by a test harness on the real code",
           "level": "proof", "level_note": BASE + n} for p, n in sorted(NOTES.items())]
allp = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"))]
na = [{"property": p, "reason": NA.get(p, "not built yet")} for p in allp if p not in NOTES]
json.dump({"version": 1, "setup_cmd": "./check.sh --build", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo; the commits there are fixes of genuine defects (see DESIGN.md and known-findings.txt)."},
          open(os.path.join(os.path.dirname(__file__), "..", "MANIFEST.json"), "w"), indent=1)
