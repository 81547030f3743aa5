#!/usr/bin/env python3
"""tools/seed.py NAME... : (re)make and confirm planted bugs in a scratch copy.
A planted bug is described in /verif/seeded/NAME/spec.json only while it is being
made: {"file","old","new"} edits are applied to a copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(name, prop, edits, needs, breaks, demo):
    d = os.path.join(V, "seeded", name)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="seed_")
    r = os.path.join(t, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    for f, old, new in edits:
        p = os.path.join(r, "src/ansibug", f)
        s = open(p).read()
        assert s.count(old) == 1, (name, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(
        '#!/bin/bash\n# run in /repo\nPYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1 exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
    )
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    a = subprocess.run([os.path.join(d, "demo.sh")], cwd="/repo", capture_output=True, text=True)
    b = subprocess.run([os.path.join(d, "demo.sh")], cwd=r, capture_output=True, text=True)
    out = [f"{name}: demo on the tree {a.returncode}, with the change {b.returncode}"]
    if a.returncode:
        out.append(a.stdout[-1500:] + a.stderr[-1500:])
    if not b.returncode:
        out.append("DEMO DOES NOT FAIL " + b.stdout[-800:])
    else:
        out.append("   " + (b.stdout + b.stderr).strip()[-150:])
    shutil.rmtree(t)
    print("\n".join(out), flush=True)


def tests(name):
    """the stable tests with the change, in /repo itself (undone afterwards)"""
    p = os.path.join(V, "seeded", name, "patch.diff")
    subprocess.run(["git", "-C", "/repo", "apply", p], check=True)
    try:
        subprocess.run(["bash", "/opt/vp/test.sh", "/tmp/seed_out.json"], capture_output=True)
        r = json.load(open("/tmp/seed_out.json"))
        print(name, "passed", len(r["passed"]) if hasattr(r["passed"], "__len__") else r["passed"], "failed", r["failed"])
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."], check=True)


def checks(name, ids=None):
    d = os.path.join(V, "seeded", name)
    ids = ids or [json.load(open(os.path.join(d, "meta.json")))["property"]]
    t = tempfile.mkdtemp(prefix="seed_")
    r = os.path.join(t, "repo")
    shutil.copytree("/repo", r, symlinks=True)
    subprocess.run(["git", "-C", r, "apply", os.path.join(d, "patch.diff")], check=True)
    for i in ids:
        p = subprocess.run(["python3-vt", "check.py", i], cwd=V, capture_output=True, text=True, env={**os.environ, "VERIF_REPO": r})
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
        print(name, i, "exit", p.returncode, "\n    ".join([""] + [x[:200] for x in v[:4]]), flush=True)
    shutil.rmtree(t)


if __name__ == "__main__":
    for n in sys.argv[2:]:
        {"tests": tests, "checks": checks}[sys.argv[1]](n)
