"""C09 exception breakpoints stop exactly on the enabled, unhandled outcomes."""
from __future__ import annotations

from ansibug import dap
from pyvc.api import harness

from specs.common import req
from specs.strat import BLOCK, IMPORT, TS, FBlock, FResult, FTask, add_threads, events, host, include_task, make_state, parents, start, task

NAMES = ("on_error", "on_unreachable", "on_skipped")
RESCUE = (FBlock, {"_uuid": -4, "rescue": ["t"], "always": None, "block": None})
EMPTY = (FBlock, {"_uuid": -5, "rescue": [], "always": ["t"], "block": None})
INCLUDE = (FTask, {"_uuid": -6, "action": "include_tasks", "name": "i", "path": None, "args": None, "_role": None, "rescue": ["x"]})


def filters(c, d, which):
    d.process_message(req(c, dap.SetExceptionBreakpointsRequest, filters=which, exception_options=[]))
    resp = d._send_queue.items.pop()
    c.prove("the request is answered once", c.all(isinstance(resp, dap.SetExceptionBreakpointsResponse), len(d._send_queue.items) == 0))


@harness(covers=("set",), runs=200)
def enabled_filters_are_those_last_set(c):
    d, st = make_state(c)
    first = c.seq("first", lambda i: c.choose("f", NAMES + ("other",)))
    filters(c, d, first)
    name = c.choose("name", NAMES)
    others = [n for n in NAMES + ("unknown",) if n != name]
    second = c.seq("pre", lambda i: c.choose("g", others))
    on = c.flag("on")
    if on:
        second = second + [name] + c.seq("post", lambda i: c.choose("h", others))
    filters(c, d, second)
    c.cover("set")
    now = {"on_error": d.should_stop_on_error, "on_unreachable": d.should_stop_on_unreachable, "on_skipped": d.should_stop_on_skipped}
    c.prove("a filter is enabled exactly when the last request lists it", bool(now[name]) == on)


def some_filters(c, d):
    e = [c.flag("set_" + n) for n in NAMES]
    filters(c, d, [n for n, on in zip(NAMES, e) if on])
    return e


def result_of(c, h, t, kind):
    text = c.text("message", nonempty=True)
    r = {}
    if kind == "skipped":
        r["skip_reason"] = text
        if c.flag("with_condition"):
            r["false_condition"] = "x is y"
    else:
        r[c.choose("where", ("msg", "stdout"))] = text
        if c.flag("with_exception"):
            r["exception"] = "Traceback"
    fields = {}
    for n in ("ignore_errors", "ignore_unreachable"):
        v = c.choose(n, ("absent", False, True) if n.endswith("errors") else ("absent", True))
        if v != "absent":
            fields[n] = v
    return FResult(h, t, kind, r, fields), text


def scene(c, kind):
    d, st = make_state(c)
    h = host(c)
    ct = c.counter("thread_counter", lo=3)
    c.put(d, _thread_counter=ct)
    tid = c.uid("tid", below=ct)
    c.assume(tid > 1)
    state = c.choose("thread_state", (TS.CONTINUE, TS.STEP_OUT)) if kind == "failed" else TS.CONTINUE
    th = add_threads(c, d, st, h, TS.CONTINUE, tid, [], others=False)
    rescued = c.flag("rescued")
    above = c.chain("above", [BLOCK, EMPTY, RESCUE, INCLUDE] if rescued else [BLOCK, EMPTY, INCLUDE], "_parent", None)
    if rescued:
        b = c.new(FBlock, _parent=above, **RESCUE[1])
        above = c.chain("below", [BLOCK, IMPORT], "_parent", b)
    t = task(c, "task", above, action="ping", path="/p/a.yml:3")
    r = start(c, st, h, t)
    c.prove("nothing stops the start", c.all(r == "runs", len(d._send_queue.items) == 0))
    c.put(th, state=state)
    return d, st, h, tid, th, t, rescued


def ends(c, kind):
    d, st, h, tid, th, t, rescued = scene(c, kind)
    e = some_filters(c, d)
    res, text = result_of(c, h, t, kind)
    f = res._task_fields
    want = (
        (kind == "failed" and e[0] and not f.get("ignore_errors") and not rescued)
        or (kind == "unreachable" and e[1] and not f.get("ignore_unreachable"))
        or (kind == "skipped" and e[2])
    )
    state = th.state
    log = []
    cond = st._waiting_condition

    def env():
        log.append((th.state, len(d._send_queue.items), len(st.stackframes), cond.depth))
        st.continue_request(req(c, dap.ContinueRequest, thread_id=tid, single_thread=True))

    cond.env = env
    st.end_task(res)
    msgs = d._send_queue.items
    if not want:
        c.cover("no stop")
        c.prove("no event without an enabled, unhandled outcome", c.all(len(msgs) == 0, len(log) == 0))
        c.prove("and the thread goes on as before", th.state is state)
        return
    c.cover("stops")
    c.prove("exactly one event", c.all(len(msgs) == 1, isinstance(msgs[0], dap.StoppedEvent)))
    ev = msgs[0]
    c.prove("an exception of the task's thread", c.all(ev.reason == dap.StoppedReason.EXCEPTION, ev.thread_id == tid))
    c.prove("no breakpoint id", len(ev.hit_breakpoint_ids) == 0)
    c.prove("its text carries the message", text in ev.text)
    c.prove("the thread waited for the client, still in the task's frame", c.all(len(log) == 1, log[0][0] is TS.WAIT, log[0][1] == 1, log[0][2] == 1))
    c.prove("and was resumed", th.state is TS.CONTINUE)


@harness(covers=("stops", "no stop"), runs=500)
def failed(c):
    ends(c, "failed")


@harness(covers=("stops", "no stop"), runs=300)
def unreachable(c):
    ends(c, "unreachable")


@harness(covers=("stops", "no stop"), runs=300)
def skipped(c):
    ends(c, "skipped")


@harness(covers=("no stop",), runs=200)
def succeeded(c):
    ends(c, "ok")


@harness(covers=("stops",), runs=100)
def result_is_a_scope(c):
    """the result is the first scope of the frame while stopped"""
    d, st, h, tid, th, t, rescued = scene(c, "skipped")
    filters(c, d, ["on_skipped", "on_error", "on_unreachable"])
    kind = c.choose("kind", ("failed", "unreachable", "skipped"))
    c.assume(kind != "failed" or not rescued)
    res = FResult(h, t, kind, {"msg": "it failed", "rc": 3}, {})
    seen = []
    sfid = th.stack_frames[0]
    hv = {"h1": {}}
    st.stackframes[sfid].task_vars.update({"hostvars": hv, "inventory_hostname": "h1", "vars": {}})
    t.args = {}

    def env():
        sc = st.get_scopes(req(c, dap.ScopesRequest, frame_id=sfid)).scopes
        ref = sc[0].variables_reference
        seen.append(sc[0])
        seen.append(st.get_variables(req(c, dap.VariablesRequest, variables_reference=ref)))
        seen.append([s.name for s in sc])
        st.continue_request(req(c, dap.ContinueRequest, thread_id=tid, single_thread=True))

    st._waiting_condition.env = env
    st.end_task(res)
    c.cover("stops")
    c.prove("it stops", len(seen) == 3)
    c.prove("the result comes first, then the others", seen[2] == ["Module Result", "Module Options", "Task Variables", "Host Variables", "Global Variables"])
    vs = [(v.name, v.value) for v in seen[1].variables]
    c.prove("it lists the result", vs == [("msg", "'it failed'"), ("rc", "3")])
    c.prove("and its size", c.all(seen[0].named_variables == 2, seen[0].indexed_variables == 0))


@harness(covers=("ended", "goes on"), runs=200)
def terminated_while_running_or_stopped(c):
    """an ended thread does not get past the end of its task"""
    d, st, h, tid, th, t, rescued = scene(c, "skipped")
    kind = c.choose("kind", ("ok", "skipped", "failed"))
    filters(c, d, ["on_skipped"])
    end = c.flag("end")
    request = lambda: st.disconnect(req(c, dap.DisconnectRequest, terminate_debuggee=end))
    if kind == "skipped":
        st._waiting_condition.env = request
    else:
        request()
    r, ex = c.exc(st.end_task, FResult(h, t, kind, {}, {}))
    if end:
        c.cover("ended")
        c.prove("the play ends", type(ex).__name__ == "EndStrategy")
    else:
        c.cover("goes on")
        c.prove("the play goes on", ex is None)
