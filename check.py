#!/opt/veriftools/pyvenv/bin/python3
"""python3-vt check.py ID : decide one property on the current tree of /repo.

exit 0: every obligation generated from the current source was discharged and the
concrete battery found nothing; exit 1: VIOLATION line.
"""
from __future__ import annotations

import ast
import concurrent.futures as cf
import hashlib
import json
import os
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"
PYVT = "/opt/veriftools/pyvenv/bin/python3"


def harnesses(path):
    out = []
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                f = d.func if isinstance(d, ast.Call) else d
                if isinstance(f, ast.Name) and f.id == "harness":
                    o = {k.arg: ast.literal_eval(k.value) for k in getattr(d, "keywords", [])}
                    out.append((n.name, o))
    return out


def env():
    e = dict(os.environ)
    e.update(PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=VERIF, PYTHONHASHSEED="0", ANSIBLE_FORCE_COLOR="0")
    for k in list(e):
        if k.startswith("ANSIBUG"):
            del e[k]
    return e


def scratch():
    import tempfile

    return tempfile.mkdtemp(prefix="vc_")


STOP = [None]  # when the remaining verifier runs are ended (a failing input was found)


def run(cmd, inp, timeout, cwd, stoppable=False):
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env(), cwd=cwd)
    end = time.monotonic() + timeout
    while True:
        try:
            out, err = p.communicate(inp, timeout=1)
            break
        except subprocess.TimeoutExpired:
            inp = None
            now = time.monotonic()
            stop = stoppable and STOP[0] is not None and now > STOP[0]
            if now > end or stop:
                p.kill()
                p.communicate()
                m = "ended, a failing input was found" if stop else "time limit reached"
                return {"error": m, "status": "stopped" if stop else "unsupported", "note": m}
    try:
        return json.loads(out)
    except ValueError:
        m = f"no result (exit {p.returncode}): {err[-2000:]}"
        return {"error": m, "status": "error", "note": m}


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    thorough = tier == "thorough"
    t0 = time.monotonic()
    spec = "specs." + pid.lower()
    hs = harnesses(os.path.join(VERIF, "specs", pid.lower() + ".py"))
    only = [a for a in sys.argv[2:] if not a.startswith("-")]
    if only:
        hs = [h for h in hs if h[0] in only]
    known = []
    kf = os.path.join(VERIF, "known-findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))["findings"] if k["property"] == pid and k.get("status") == "known"]

    cwd = scratch()
    sym_budget = 3000 if thorough else 480
    con_budget = 600 if thorough else 90
    tmo = 60000 if thorough else 15000

    def sym(h):
        b = sym_budget - (0 if thorough else time.monotonic() - t0)
        return run([PYVT, "-m", "pyvc.symrun", spec, h, str(max(b, 20)), str(tmo)], "", max(b, 20) + 40, cwd, True)

    def con(names, mult, sd, budget, hints=None, first=False):
        req = {
            "harnesses": {
                n: {"runs": int(o.get("runs", 150) * mult), "hints": (hints or {}).get(n), "first": first} for n, o in names
            },
            "seed": sd,
            "budget": budget,
        }
        r = run([VENV, "-m", "pyvc.conrun", spec], json.dumps(req), budget + 120, cwd)
        for n, x in (r.get("results") or {}).items():
            for f in x["failures"]:
                if not any(k["harness"] == n and k["obligation"] == f["obligation"] and _kmatch(k, f) for k in known):
                    STOP[0] = STOP[0] or time.monotonic() + 30
        return r

    mult = 10 if thorough else 1
    with cf.ThreadPoolExecutor(8) as ex:
        cfs = {n: ex.submit(con, [(n, o)], mult, seed, con_budget) for n, o in hs}
        sfs = {n: ex.submit(sym, n) for n, o in hs if not o.get("bounded")}
        sres = {n: f.result() for n, f in sfs.items()}
        cres = {n: f.result() for n, f in cfs.items()}

    bad: dict = {}  # harness -> {obligation: reason}
    models: dict = {}
    total = discharged = 0
    fns: set = set()
    backends: dict = {}
    for n, o in hs:
        if o.get("bounded"):
            continue
        r = sres[n]
        b = bad.setdefault(n, {})
        if r["status"] == "stopped":
            continue
        if r["status"] != "ok":
            b["verification conditions"] = f"could not be generated: {r.get('note')}\n{r.get('tb', '')}"
        if r["status"] == "ok" and not r["obligations"]:
            b["vacuity"] = "no obligation was generated"
        for ob in r.get("obligations", []):
            total += ob["n"]
            discharged += ob["n"] - ob["bad"]
            for k, v in ob["backends"].items():
                backends[k] = backends.get(k, 0) + v
            if ob["status"] != "proved":
                b[ob["name"]] = f"{ob['status']} ({ob['bad']} of {ob['n']} instances) {ob.get('note', '')}"
                models.setdefault(n, []).extend(ob["models"])
        for c in r.get("want_covers", []):
            if not r["covers"].get(c):
                b[f"cover {c}"] = "coverage point is not reachable"
        fns |= set(r.get("functions", []))

    failures: dict = {}
    concov: dict = {}

    def take(res):
        for n, r in (res.get("results") or {}).items():
            c = concov.setdefault(n, {"runs": 0, "discarded": 0, "checks": 0, "covered": set()})
            c["runs"] += r["runs"]
            c["discarded"] += r["discarded"]
            c["checks"] += r["checks"]
            c["covered"] |= set(r["covered"])
            for f in r["failures"]:
                failures.setdefault(n, {}).setdefault(f["obligation"], f)

    for n, r in cres.items():
        if "results" not in r:
            bad.setdefault(n, {})["concrete battery"] = str(r.get("error")) + "\n" + str(r.get("tb", ""))
        take(r)
    for n, o in hs:
        c = concov.get(n)
        if c and c["runs"] and c["discarded"] == c["runs"] and not failures.get(n):
            bad.setdefault(n, {})["concrete vacuity"] = "every concrete case was discarded"
        if o.get("bounded") and c:
            for cv in o.get("covers", ()):
                if cv not in c["covered"] and not failures.get(n):
                    bad.setdefault(n, {})[f"cover {cv}"] = "not reached by the bounded battery"

    # a failed obligation: search for a failing input on the real code
    todo = [(n, o) for n, o in hs if bad.get(n) and not failures.get(n)]
    if todo:
        with cf.ThreadPoolExecutor(8) as ex:
            fs = [
                ex.submit(con, [(n, o)], 12, seed + 7 * s, 60, {n: models.get(n)}, True) for n, o in todo for s in range(1, 3)
            ]
            for f in fs:
                take(f.result())

    # known findings
    kprinted = []
    for k in known:
        f = failures.get(k["harness"], {})
        for ob in list(f):
            if ob == k["obligation"] and _kmatch(k, f[ob]):
                kprinted.append(k)
                del f[ob]
        if not k.get("concrete_only"):
            b = bad.get(k["harness"], {})
            if k["obligation"] in b:
                kprinted.append(k)
                del b[k["obligation"]]

    viol = 0
    lines = []
    rdir = os.path.join(VERIF, "replay")
    os.makedirs(rdir, exist_ok=True)
    for n, o in hs:
        fb, ff = bad.get(n) or {}, failures.get(n) or {}
        if not fb and not ff:
            continue
        viol += 1
        path = os.path.join(rdir, f"{pid}-{n}.json")
        doc = {
            "property": pid,
            "harness": n,
            "failed_obligations": fb,
            "verifier": {k: v for k, v in (sres.get(n) or {}).items() if k in ("status", "note", "tb", "obligations", "covers")},
            "failing_inputs": list(ff.values()),
            "how_to_replay": f"python3 {VERIF}/replay.py {path}",
        }
        json.dump(doc, open(path, "w"), indent=1, default=str)
        what = next(iter(ff)) if ff else next(iter(fb))
        lines.append(
            f"VIOLATION property={pid} replay={path} obligation={n}:{what.replace(' ', '_')}" + ("" if ff else " no-failing-input-found")
        )
    for k in {json.dumps(k, sort_keys=True) for k in kprinted}:
        k = json.loads(k)
        print(f"KNOWN-FINDING: property={pid} {k['what']}")

    manifest = {}
    try:
        manifest = {c["property"]: c for c in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]}
    except OSError:
        pass
    level = manifest.get(pid, {}).get("level", "proof")
    bounded = [n for n, o in hs if o.get("bounded")]
    sys.path.insert(0, VERIF)
    from pyvc import trusted

    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": {
            "obligations": total,
            "discharged": discharged,
            "checker_cmd": f"python3-vt check.py {pid}",
            "trusted_base": trusted.BASE + trusted.MODELS.get(pid, []),
            "functions_under_contract": sorted(fns),
            "back_ends": backends,
            "solver_time_s": round(sum(r.get("solver_time", 0) for r in sres.values()), 2),
            "solver_queries": sum(r.get("queries", 0) for r in sres.values()),
            "contracts": {
                n: {
                    "obligations": sum(x["n"] for x in r.get("obligations", [])),
                    "names": sorted(x["name"] for x in r.get("obligations", [])),
                    "paths": r.get("paths"),
                    "arbitrary_iterations_closed": r.get("loop_paths"),
                    "covers_reached": sorted(k for k, v in r.get("covers", {}).items() if v),
                    "wall_s": round(r.get("wall", 0), 2),
                }
                for n, r in sres.items()
            },
            "bounded_only": bounded,
            "concrete_battery": {
                n: {**c, "covered": sorted(c["covered"])} for n, c in concov.items()
            },
            "evaluations": sum(c["runs"] - c["discarded"] for c in concov.values()),
        },
        "assumptions": trusted.ASSUME + trusted.PER.get(pid, []),
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": viol,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w"), indent=1)
    try:
        os.rmdir(cwd)
    except OSError:
        import shutil

        shutil.rmtree(cwd, ignore_errors=True)
    if "-v" in sys.argv:
        for n, r in sres.items():
            print(n, r["status"], f"{r.get('wall', 0):.1f}s paths={r.get('paths')} loops={r.get('loop_paths')} q={r.get('queries')}", r.get("note"))
            for x in r.get("obligations", []):
                print("   ", x["status"], x["n"], x["name"], x.get("note", "") if x["status"] != "proved" else "", x["models"][:1])
            print("    covers", r.get("covers"))
            if r["status"] != "ok":
                print(*(r.get("tb") or "").splitlines()[-9:], sep="\n")
        for n, c in concov.items():
            print(n, {**c, "covered": sorted(c["covered"])})
        for n, f in failures.items():
            for x in f.values():
                print("FAIL", n, x)
    for l in lines:
        print(l)
    if not lines:
        print(f"{pid}: {discharged}/{total} obligations discharged, {len(fns)} functions, {time.monotonic() - t0:.1f}s")
    sys.stdout.flush()
    os._exit(1 if lines else 0)


def _kmatch(k, f):
    m = k.get("match")
    return m is None or all(str(f["values"].get(a)) == str(b) for a, b in m.items())


if __name__ == "__main__":
    try:
        main()
    except Exception as ex:  # the machinery itself failed: report, never pass silently
        import traceback

        pid = sys.argv[1]
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        path = os.path.join(VERIF, "replay", f"{pid}-machinery.json")
        json.dump({"property": pid, "error": traceback.format_exc()}, open(path, "w"))
        traceback.print_exc()
        print(f"VIOLATION property={pid} replay={path} no-failing-input-found")
        sys.exit(1)
