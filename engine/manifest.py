"""Writes MANIFEST.json from the plan: python3-vt engine/manifest.py [ids left out]"""
import json
import os
import sys

import plan

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the LLVM IR compiled from /repo, decided by an SMT solver (z3); counterexamples replayed natively"


def main():
    out = sys.argv[1:]
    checks = []
    for pid, p in plan.PROPS.items():
        if pid in out:
            continue
        checks.append({
            "property": pid,
            "quick_cmd": f"python3-vt /verif/check.py {pid}",
            "thorough_cmd": f"VERIF_TIER=thorough python3-vt /verif/check.py {pid}",
            "evidence_file": f"evidence/{pid}.json",
            "technique": TECH,
            "level": p["level"],
            "level_note": "Bounds: " + p["bounds"] + ". Both the optimised build and the build with overflow checks and debug assertions are explored.",
        })
    m = {
        "version": 1,
        "setup_cmd": "python3-vt /verif/check.py --setup",
        "checks": checks,
        "not_applicable": [],
        "notes": "No hooks in /repo: the harness crate in /verif/harness depends on /repo by path and is compiled together with it to LLVM IR at every run. Design in DESIGN.md.",
    }
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
