"""venv python -m pyvc.conrun SPEC : bounded battery / replay on the real code.

stdin: {"harnesses": {name: {"runs": n, "hints": [..]}}, "seed": s, "budget": secs, "replay": {...}|null}
"""
from __future__ import annotations

import importlib
import json
import os
import random
import signal
import sys
import threading
import time
import traceback

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang


def one(h, seed, hints=None, exact=False):
    """returns (status, info)"""
    from pyvc.api import Discard, Violated
    from pyvc.ctx_con import ConCtx

    ctx = ConCtx(random.Random(seed), hints, exact)
    random.seed(seed)
    # computing for too long, or waiting for something that never happens
    signal.setitimer(signal.ITIMER_PROF, h.opts.get("hang", 20))
    signal.setitimer(signal.ITIMER_REAL, 5 * h.opts.get("hang", 20))
    try:
        h.fn(ctx)
        r = ("ok", None)
    except Discard:
        r = ("discard", None)
    except Violated as v:
        r = ("violated", {"obligation": v.name, "note": v.note})
    except Hang:
        tb = traceback.extract_tb(sys.exc_info()[2])
        r = ("violated", {"obligation": "terminates", "note": " < ".join(f"{f.filename}:{f.lineno}" for f in reversed(tb[-6:]))})
    except Exception as ex:
        r = (
            "violated",
            {"obligation": "no unexpected exception", "note": f"{type(ex).__name__}: {ex}\n" + traceback.format_exc()[-3000:]},
        )
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.close()
    if r[1] is not None:
        r[1]["values"] = ctx.values
        r[1]["seed"] = seed
    return r + (ctx,)


def main():
    spec = sys.argv[1]
    req = json.load(sys.stdin)
    out = sys.stdout
    sys.stdout = sys.stderr
    sys.path.insert(0, VERIF)
    sys.path.insert(1, os.path.join(REPO, "src"))
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    try:
        _main(spec, req, out)
    except BaseException as ex:
        json.dump({"error": f"{type(ex).__name__}: {ex}", "tb": traceback.format_exc()[-4000:]}, out)
    out.flush()
    os._exit(0)


def _main(spec, req, out):
    from pyvc.api import HARNESSES

    importlib.import_module(spec)
    hs = HARNESSES[spec]
    res = {}
    if req.get("replay"):
        rp = req["replay"]
        st, info, _ = one(hs[rp["harness"]], rp["seed"], rp["values"], True)
        json.dump({"status": st, "info": info}, out, default=str)
        return
    t_end = time.monotonic() + req["budget"]
    names = list(req["harnesses"])
    for i, name in enumerate(names):
        h = hs[name]
        q = req["harnesses"][name]
        runs = q.get("runs") or h.opts.get("runs", 150)
        share = time.monotonic() + max(2.0, (t_end - time.monotonic()) / (len(names) - i))
        st = {"runs": 0, "discarded": 0, "failures": [], "covered": [], "checks": 0}
        covered = set()
        hints = q.get("hints") or []
        k = 0
        while k < runs and time.monotonic() < share:
            seed = req["seed"] * 1000003 + k
            hint = None
            if hints and k % 2 == 0:
                hint = hints[(k // 2) % len(hints)]
            r, info, ctx = one(h, seed, hint)
            k += 1
            st["runs"] += 1
            st["checks"] += ctx.proved
            covered |= ctx.covered
            if r == "discard":
                st["discarded"] += 1
            elif r == "violated":
                obs = {f["obligation"] for f in st["failures"]}
                if info["obligation"] not in obs:
                    st["failures"].append(info)
                if len(st["failures"]) >= 4 or q.get("first"):
                    break
                if info["obligation"] == "terminates":
                    break
        st["covered"] = sorted(covered)
        res[name] = st
    json.dump({"results": res}, out, default=str)


main()
