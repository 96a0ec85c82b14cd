#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the check modules present."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
NOTES = {}
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(os.path.join(HERE, "checks", pid.lower() + ".py")) and pid not in NA:
        checks.append(dict(
            property=pid,
            quick_cmd=f"/opt/venv/bin/python run_check.py {pid} --tier quick",
            thorough_cmd=f"/opt/venv/bin/python run_check.py {pid} --tier thorough",
            evidence_file=f"evidence/{pid}.json",
            technique="symbolic execution of the real Python code; SMT (z3/cvc5) decides every assertion over all values within bounds",
            level="model_checking",
            level_note=NOTES.get(pid, "Bounded: every value of the symbolic inputs within the sizes listed in the evidence file; "
                                      "arithmetic over the reals, library calls by their documented meaning; counterexamples are "
                                      "replayed on the real code before they are reported.")))
    else:
        na.append(dict(property=pid, reason=NA.get(pid, "no check built yet")))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python tools/setup.py", checks=checks, not_applicable=na),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
