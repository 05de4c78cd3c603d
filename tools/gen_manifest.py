#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when harness/<id>/spec.py exists and it is not held back in claims.json."""
import importlib.util, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
cfg = json.load(open(os.path.join(root, "tools", "claims.json")))
TECH = "Symbolic execution of the implementation's LLVM IR (compiled from /repo on every run); every assertion and memory-safety condition decided by Z3 for all inputs, schedules and faults within the bounds; counterexamples replayed natively"
checks, na = [], []
for p in props:
    i = p["id"]
    sp = os.path.join(root, "harness", i, "spec.py")
    if os.path.exists(sp) and i not in cfg["not_applicable"]:
        s = importlib.util.spec_from_file_location("spec", sp)
        m = importlib.util.module_from_spec(s)
        m.VERIF, m.REPO, m.BUILD = root, "/repo", os.path.join(root, ".build")
        s.loader.exec_module(m)
        checks.append({"property": i,
            "quick_cmd": f"bash /verif/check.sh {i} quick",
            "thorough_cmd": f"bash /verif/check.sh {i} thorough",
            "evidence_file": f"/verif/evidence/{i}.json",
            "technique": getattr(m, "TECHNIQUE", TECH), "level": "model_checking",
            "level_note": "Bounds: %s. Outside: %s." % (m.BOUNDS, m.OUTSIDE)})
    else:
        na.append({"property": i, "reason": cfg["not_applicable"].get(i, "No check built yet.")})
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "hooks": cfg.get("hooks", {"guard": "", "enable": "", "source_commits": []}),
     "checks": checks, "not_applicable": na, "notes": cfg.get("notes", "")}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
