"""Write MANIFEST.json from the property modules and properties.jsonl (run with /opt/venv/bin/python)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

props = [json.loads(line) for line in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    path = os.path.join(HERE, "sim", i.lower() + ".py")
    if os.path.exists(path):
        m = importlib.import_module("sim." + i.lower())
        checks.append({
            "property": i,
            "quick_cmd": f"python3 check.py {i}",
            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
            "evidence_file": f"evidence/{i}.json",
            "technique": getattr(m, "TECHNIQUE", "deterministic simulation with fault injection"),
            "level": m.LEVEL,
            "level_note": m.RULE + ". Assumes: " + "; ".join(m.ASSUMPTIONS),
        })
    elif i == "C28":
        na.append({"property": i, "reason":
                   "a statement about the distribution over all draws: no single execution, whatever "
                   "its schedule, faults and random words, can break it, and estimating moments from "
                   "unforced draws is statistical testing, not simulation. What every single draw "
                   "must satisfy is C05 and C06"})
    elif i >= "C20":
        na.append({"property": i, "reason":
                   "a pure function of its input: no concurrency, time, I/O, randomness, failure or "
                   "history that it depends on, so there is no schedule or fault to search; the "
                   "equations would need a different technique"})
    else:
        na.append({"property": i, "reason": "check not built yet"})
doc = {
    "version": 1,
    "setup_cmd": "python3 check.py --selftest",
    "checks": checks,
    "not_applicable": na,
    "notes": "Thorough runs take up to an hour each (SIM_LIMIT seconds overrides). No hooks were "
             "needed in /repo: all seams are reached from outside.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
