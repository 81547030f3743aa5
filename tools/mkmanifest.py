#!/usr/bin/env python3
"""Writes MANIFEST.json: a property is claimed when specs/<id>.py exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: contracts on the real Python source, VCs by symbolic execution with loop summaries, z3/cvc5"
NOTE = {}
NA = {
    "C27": "a liveness/deadlock statement over all schedules; partial-correctness contracts do not decide termination of waits",
}
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "specs", p.lower() + ".py")):
        checks.append(dict(property=p, quick_cmd=f"python3-vt check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3-vt check.py {p}",
            technique=TECH, level="proof",
            level_note=NOTE.get(p, "every obligation generated from the current source discharged for all inputs and iterations (partial correctness); trusts the verifier pyvc/, its models of Python builtins and of the stated environment; a concrete battery of the same contracts on the real code accompanies it")))
    else:
        na.append(dict(property=p, reason=NA.get(p, "not built yet")))
json.dump(dict(version=1, setup_cmd="python3-vt -m compileall -q -l pyvc specs >/dev/null || true; python3-vt -c 'import z3, cvc5'", checks=checks, not_applicable=na),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", ", ".join(x["property"] for x in na))
