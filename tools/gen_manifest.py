#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the checks that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT = {
    "C20": "a pure function of the density field: no schedule, clock, fault, "
           "I/O or history enters it, so a simulator has nothing to decide; "
           "derivative checking is numerical testing, not simulation",
    "C21": "an algebraic identity of a pure linear operator, independent of "
           "any schedule, fault or history (its independence from history is "
           "C14, which is claimed)",
    "C22": "a pure function on numbers, independent of any schedule, fault or "
           "history",
    "C24": "pure numerical identities of assembly, independent of any "
           "schedule, fault or history",
    "C25": "a pure function of the problem description, independent of any "
           "schedule, fault or history (history effects of its node lookup "
           "are C09, which is claimed)",
}
checks, na = [], []
with open(os.path.join(HERE, "properties.jsonl")) as f:
    props = [json.loads(line) for line in f if line.strip()]
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(HERE, "sim", "props", i.lower() + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i} --tier quick",
            "thorough_cmd": f"python3 check.py {i} --tier thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "deterministic simulation with fault injection "
                         "(seeded search over schedules and faults)",
            "level": "exploration",
            "level_note": "seeded exploration of simulated executions of the "
                          "real code; every run is a replayable plan; no "
                          "claim of exhaustiveness",
        })
    else:
        na.append({"property": i,
                   "reason": NOT.get(i, "no check yet")})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py",
               "checks": checks, "not_applicable": na}, f, indent=1)
    f.write("\n")
