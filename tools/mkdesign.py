#!/usr/bin/env python3
"""Writes DESIGN.md from tools/DESIGN.tmpl.md, the findings and the planted bugs."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
t = open(os.path.join(V, "tools/DESIGN.tmpl.md")).read()
F = json.load(open(os.path.join(V, "known-findings.json")))["findings"]
fixes = "\n".join(f"* {f['property']} `{f['commit']}`: {f['what'].split(f['commit'] + ' ', 1)[1]}" for f in F if f["status"] == "fixed")
known = [f for f in F if f["status"] != "fixed"]
if known:
    fixes += "\n\nNot repaired (KNOWN-FINDING):\n\n" + "\n".join(f"* {f['property']}: {f['what']}" for f in known)
rows = []
for n in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", n, "meta.json")))
    rows.append(f"* `{n}` ({m['property']}): {m['what_it_breaks']}; needs {m['needs']}" + (f". **{m['note']}**" if m.get("note") else ""))
t = t.replace("@@FIXES@@", fixes).replace("@@SEEDS@@", "\n".join(rows))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
