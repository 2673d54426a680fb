"""Rewrite MANIFEST.json from the check modules and properties.jsonl."""
import glob
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import core                                                     # noqa: E402

PY = "/opt/venv/bin/python"
ids = [json.loads(x)["id"]
       for x in open(os.path.join(core.VERIF, "properties.jsonl"))]
checks, na = [], []
for pid in ids:
    path = os.path.join(HERE, "checks", pid.lower() + ".py")
    if os.path.exists(path):
        m = importlib.import_module("checks." + pid.lower())
        checks.append({
            "property": pid,
            "quick_cmd": "%s mc/run.py %s --tier quick" % (PY, pid),
            "thorough_cmd": "%s mc/run.py %s --tier thorough" % (PY, pid),
            "technique": m.TECHNIQUE,
            "level": getattr(m, "LEVEL", "model_checking"),
            "level_note": m.NOTE,
        })
    else:
        na.append({"property": pid, "reason": "check not built yet"})
out = {"version": 1,
       "setup_cmd": PY + " -c \"import numpy, scipy\"",
       "checks": checks, "not_applicable": na,
       "notes": "All checks run the unmodified classes of /repo/extensisq "
                "(imported from the working tree, stale .pyc ignored); no "
                "hooks are needed."}
with open(os.path.join(core.VERIF, "MANIFEST.json"), "w") as fh:
    json.dump(out, fh, indent=1)
    fh.write("\n")
print(len(checks), "checks,", len(na), "without")
