#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
done = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C24".split()
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
NA = {
 "C23": "The status, version, method, header-name and media-type tables are pure mappings without concurrency, time or I/O; they need enumeration or property-based testing, not simulation. (The statuses, methods and versions that the workloads of C01, C02 and C10 use are compared end to end.)",
}
WHAT = {p["id"]: p["title"] for p in props}
note = "Seeded search over schedules, network behaviour and faults with the real code in one simulated process; a sample, not a proof. Runs, faults, interleavings and coverage are in the evidence file."
m = {"version": 1, "setup_cmd": "./build.sh",
     "checks": [{"property": p, "quick_cmd": f"./check.sh {p} quick", "thorough_cmd": f"./check.sh {p} thorough", "technique": "deterministic simulation with fault injection (seeded search, libc-level simulator)", "level": "exploration", "level_note": note} for p in done],
     "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()]}
for p in props:
    if p["id"] not in done and p["id"] not in NA: m["not_applicable"].append({"property": p["id"], "reason": "check under construction"})
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks")
