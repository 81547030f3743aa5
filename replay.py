#!/usr/bin/env python3
"""replay.py FILE : run the recorded failing inputs on the real code again."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
doc = json.load(open(sys.argv[1]))
if not doc.get("failing_inputs"):
    print("no failing input; failed obligations:", json.dumps(doc.get("failed_obligations"), indent=1))
for f in doc.get("failing_inputs", []):
    req = {"replay": {"harness": doc["harness"], "seed": f["seed"], "values": f["values"]}}
    p = subprocess.run(
        ["/opt/venv/bin/python", "-m", "pyvc.conrun", "specs." + doc["property"].lower()],
        input=json.dumps(req), capture_output=True, text=True, env={**os.environ, "PYTHONPATH": VERIF}, cwd=VERIF,
    )
    print(p.stdout or p.stderr)
