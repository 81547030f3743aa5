"""python3-vt -m pyvc.symrun SPEC HARNESS : verify one contract, JSON on stdout."""
from __future__ import annotations

import importlib
import json
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    spec, hname, budget, timeout_ms = sys.argv[1], sys.argv[2], float(sys.argv[3]), int(sys.argv[4])
    out = sys.stdout
    sys.stdout = sys.stderr
    sys.setrecursionlimit(6000)
    sys.path.insert(0, VERIF)
    sys.path.insert(1, os.path.join(REPO, "src"))
    sys.path.append("/opt/venv/lib/python3.12/site-packages")
    t0 = time.monotonic()
    res = {"harness": hname, "status": "error", "note": "", "obligations": [], "covers": {}, "paths": 0}
    try:
        from pyvc import engine, instrument
        from pyvc.base import State, Unsupported

        instrument.install(os.path.join(REPO, "src"))
        sys.meta_path.insert(0, instrument.Finder(VERIF, "specs"))
        from pyvc import rt  # noqa: F401
        from pyvc.api import HARNESSES
        from pyvc.ctx_sym import SymCtx

        eng = engine.Engine(timeout_ms=timeout_ms, deadline=t0 + budget)
        eng.give_up = budget / 2
        try:
            importlib.import_module(spec)
            h = HARNESSES[spec][hname]
            eng.__dict__.update(h.opts.get("engine", {}))
            ctx = SymCtx(eng)

            src = os.path.join(REPO, "src") + os.sep
            mon = sys.monitoring
            mon.use_tool_id(3, "pyvc")

            def started(code, off):
                if code.co_filename.startswith(src) and not code.co_name.startswith(("_vc", "<")):
                    eng.functions.add(f"{code.co_filename[len(src):]}:{code.co_qualname}")
                return mon.DISABLE

            mon.register_callback(3, mon.events.PY_START, started)
            mon.set_events(3, mon.events.PY_START)

            def run():
                try:
                    h.fn(ctx)
                except Exception as ex:
                    if eng.unsupported:
                        raise
                    tb = traceback.extract_tb(ex.__traceback__)
                    note = f"{type(ex).__name__}: {str_of(ex)} at " + " < ".join(
                        f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-5:])
                    )
                    eng.prove("no unexpected exception", False, note)

            eng.explore(run)
            res["status"] = "ok"
            if eng.stopped:
                res["note"] = "stopped early, an obligation had failed"
        except Unsupported as ex:
            res["status"] = "unsupported"
            tb = traceback.extract_tb(ex.__traceback__)
            res["note"] = str(ex) + " at " + " < ".join(
                f"{os.path.basename(f.filename)}:{f.lineno}"
                for f in reversed([f for f in tb if "/pyvc/" not in f.filename][-4:])
            )
            res["tb"] = traceback.format_exc()[-6000:]
        obs = {}
        for ob in getattr(eng, "obligations", {}).values():
            o = obs.setdefault(
                ob.name, {"name": ob.name, "n": 0, "bad": 0, "status": "proved", "time": 0.0, "backends": {}, "models": []}
            )
            o["n"] += 1
            o["time"] += ob.time
            o["backends"][ob.backend] = o["backends"].get(ob.backend, 0) + 1
            if ob.status != "proved":
                o["bad"] += 1
                o["status"] = ob.status
                if ob.model is not None and len(o["models"]) < 6:
                    o["models"].append(ob.model)
                o["note"] = ob.note
        res["obligations"] = list(obs.values())
        res["covers"] = getattr(eng, "covers", {})
        res["want_covers"] = list(h.covers) if res["status"] == "ok" and not eng.stopped else []
        res.update(
            paths=getattr(eng, "paths", 0), completed=getattr(eng, "completed", 0), loop_paths=getattr(eng, "loop_paths", 0),
            queries=eng.queries, solver_time=eng.solver_time, restarts=getattr(eng, "restarts", 0),
            functions=sorted(eng.functions), cvc5=eng.cvc5_used,
        )
    except BaseException as ex:
        res["status"] = "error"
        res["note"] = f"{type(ex).__name__}: {ex}"
        res["tb"] = traceback.format_exc()[-6000:]
    res["wall"] = time.monotonic() - t0
    json.dump(res, out, default=str)
    out.flush()
    os._exit(0)


def str_of(ex):
    try:
        return repr(ex.args)
    except BaseException:
        return "?"


main()
