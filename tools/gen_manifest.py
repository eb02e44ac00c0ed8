#!/usr/bin/env python3
"""Writes MANIFEST.json: the checks that are built and, for every other property, why it is not claimed."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
PROC = "seeded simulation: the real tools as processes on a simulated operating system that decides every transfer, interruption, error and kill; "
MACH = "seeded simulation: the real emulator in one process, stepped against an independent reference machine while memory, page tables and devices change between steps; "
CHECKS = {
    "C01": ("exploration", PROC + "files judged by an independent encoder and decoder",
            "Sampled runs, each exactly repeatable from its seed. Trusts the independent description of the file format and that the file system keeps what was written."),
}
NA = {}
try:
    exec(open(f"{V}/tools/manifest_checks.py").read())
except FileNotFoundError:
    pass
m = {
    "version": 1,
    "setup_cmd": "./check.sh --build",
    "checks": [
        {
            "property": p,
            "quick_cmd": f"./check.sh {p}",
            "thorough_cmd": f"./check.sh {p} --thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": "deterministic simulation with fault injection: " + CHECKS[p][1],
            "level": CHECKS[p][0],
            "level_note": CHECKS[p][2],
        }
        for p in PROPS if p in CHECKS
    ],
    "not_applicable": [{"property": p, "reason": NA.get(p, "check not built yet")} for p in PROPS if p not in CHECKS],
    "notes": "No hooks in /repo: the seams are the system calls (interposed library) and the library's own memory and device traits. known_findings.txt lists the defects that were found and repaired. See DESIGN.md.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{V}/MANIFEST.json", "a").write("\n")
