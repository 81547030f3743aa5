"""C08 stepping: which later task the thread stops at after a step request."""
from __future__ import annotations

from ansibug import dap
from pyvc.api import harness

from specs.common import req
from specs.strat import BLOCK, IMPORT, TS, FBlock, FResult, FTask, add_threads, bp, host, include_task, make_state, parents, start, task

REQ = {"step_over": dap.NextRequest, "step_in": dap.StepInRequest, "step_out": dap.StepOutRequest}


class World:
    pass


def stopped_at_a(c, step, how):
    """the thread is stopped at an arbitrary task A and the client requests `step`"""
    w = World()
    d, st = make_state(c)
    h = host(c)
    ct = c.counter("thread_counter", lo=3)
    c.put(d, _thread_counter=ct)
    tid = c.uid("tid", below=ct)
    c.assume(tid > 1)
    th = add_threads(c, d, st, h, TS.CONTINUE, tid, [], others=False)
    w.enc = include_task(c, "enc", action="include_tasks") if c.flag("a_in_include") else None
    w.a_include = how == "include"
    action = "ansible.builtin.include_role" if w.a_include else "ping"
    # the line of A is covered by a breakpoint, the file of B may be
    above = c.new(FBlock, _parent=w.enc, **BLOCK[1]) if w.a_include and c.sym else parents(c, "a", w.enc)
    w.a = task(c, "a", above, action=action, path="/p/a.yml:3")
    if w.enc is not None:
        c.assume(w.a._uuid != w.enc._uuid)
    c.put(d, _breakpoints={1: bp(c, 1, "/p/a.yml", 3, 3)})
    do = lambda: getattr(st, step)(req(c, REQ[step], thread_id=tid))
    cond = st._waiting_condition
    if how != "exception":
        cond.env = do
        r = start(c, st, h, w.a)
        cond.env = None
    else:
        cond.env = lambda: st.continue_request(req(c, dap.ContinueRequest, thread_id=tid, single_thread=True))
        r = start(c, st, h, w.a)
        cond.env = do
        d.process_message(req(c, dap.SetExceptionBreakpointsRequest, filters=["on_error"], exception_options=[]))
        c.put(d._send_queue, items=[])
        st.end_task(FResult(h, w.a, "failed", {"msg": "x"}))
        cond.env = None
    c.prove("the thread stopped and was resumed", c.all(r == "runs", len(d._send_queue.items) == 1))
    if how == "plain":
        st.end_task(FResult(h, w.a))
    c.put(d._send_queue, items=[])
    w.d, w.st, w.h, w.th, w.tid, w.step = d, st, h, th, tid, step
    w.snap = c.snapshot(th, ("stack_frames",))
    return w


def next_task(c, w, name, deep=None):
    """an arbitrary later task; (task, same enclosing include, inside A's include)"""
    where = ["same", "other"] + (["in a"] if w.a_include else []) + (["none"] if w.enc is not None else [])
    where = c.choose(name + "_where", where)
    not_enc = [w.enc._uuid] if w.enc is not None else []
    if where == "same":
        top = w.enc
        if top is not None:
            # not necessarily the same object
            top = c.new(FTask, _uuid=w.enc._uuid, action="include_tasks", _parent=None, name="e", path=None, args=None, _role=None)
    elif where == "other":
        top = include_task(c, name + "_e", action="include_tasks")
        for u in not_enc:
            c.assume(top._uuid != u)
    elif where == "in a":
        top = w.a
    else:
        top = None
    inner = top
    nested = c.flag(name + "_nested") if deep is None else deep
    if nested:
        # any mixture of blocks, imports and further includes in between
        u = c.field(name + "_between_uuid", lo=1, ne=not_enc)
        inc = (FTask, {"_uuid": u, "action": "include_role", "name": "i", "path": None, "args": None, "_role": None})
        inner = c.chain(name + "_between", [BLOCK, IMPORT, inc], "_parent", top)
        inner = include_task(c, name + "_n", inner, "include_tasks")
        for x in not_enc:
            c.assume(inner._uuid != x)
    # (the shapes of both chains together are covered without the include's own frame)
    above = c.new(FBlock, _parent=inner, **BLOCK[1]) if w.a_include and nested and c.sym else parents(c, name, inner)
    t = task(c, name, above, action=c.choose(name + "_action", ("ping", "include_tasks")), path="/p/b.yml:7")
    inside = w.enc is not None and (where == "same" or where == "in a")
    return t, where == "same" and not nested, inside


def expected(w, same, inside):
    """does the step request stop at the task: (stops, breakpoints count)"""
    if w.step == "step_out":
        if w.enc is None:
            return False, True
        return not inside, False
    if w.step == "step_in" and w.a_include:
        return True, True
    return same, True


def check(c, w, t, same, inside, covered, cond):
    step_stop, bps_count = expected(w, same, inside)
    bp_stop = covered and bps_count and not step_stop
    before = len(w.d._send_queue.items)
    r = start(c, w.st, w.h, t)
    msgs = w.d._send_queue.items
    if not step_stop and not bp_stop:
        c.cover("runs on")
        c.prove("the task does not stop", c.all(r == "runs", len(msgs) == before))
        return False
    c.cover("stops on breakpoint" if bp_stop else "stops")
    c.prove("the task stops, with one event", c.all(r == "blocked", len(msgs) == before + 1))
    e = msgs[before]
    c.prove("a stopped event of this thread", c.all(isinstance(e, dap.StoppedEvent), e.thread_id == w.tid))
    if bp_stop:
        c.prove("because of the breakpoint", c.all(e.reason == dap.StoppedReason.BREAKPOINT, len(e.hit_breakpoint_ids) == 1, e.hit_breakpoint_ids[0] == 2))
    else:
        c.prove("because of the step", c.all(e.reason == dap.StoppedReason.STEP, len(e.hit_breakpoint_ids) == 0))
    return True


def stepping(c, step, how, deep=None):
    w = stopped_at_a(c, step, how)
    covered = c.flag("b_has_breakpoint")
    c.put(w.d, _breakpoints={2: bp(c, 2, "/p/b.yml", 5, 8)} if covered else {})
    b, same, inside = next_task(c, w, "b", deep)
    if check(c, w, b, same, inside, covered, None):
        return
    if b.action == "ping":
        w.st.end_task(FResult(w.h, b))
    if c.sym:
        # the request is still pending as it was, so the same holds for every
        # later task (induction over the tasks started since)
        c.prove_unchanged("a task that does not stop leaves the step request as it is", w.snap)
    else:
        for i in range(3):
            t, same, inside = next_task(c, w, f"t{i}")
            if check(c, w, t, same, inside, covered, None):
                return


@harness(covers=("stops", "runs on", "stops on breakpoint"), runs=300)
def step_over_plain(c):
    stepping(c, "step_over", "plain")


@harness(covers=("stops", "runs on", "stops on breakpoint"), runs=300)
def step_in_plain(c):
    stepping(c, "step_in", "plain")


@harness(covers=("stops", "runs on", "stops on breakpoint"), runs=300)
def step_out_plain(c):
    stepping(c, "step_out", "plain")


@harness(covers=("stops", "runs on", "stops on breakpoint"), runs=300)
def step_over_include(c):
    stepping(c, "step_over", "include")


@harness(covers=("stops",), runs=300)
def step_in_include(c):
    stepping(c, "step_in", "include")


@harness(covers=("stops", "runs on", "stops on breakpoint"), runs=300)
def step_out_include(c):
    stepping(c, "step_out", "include", False)


@harness(covers=("stops", "runs on", "stops on breakpoint"), runs=300)
def step_out_include_nested(c):
    stepping(c, "step_out", "include", True)


@harness(covers=("stops", "runs on", "stops on breakpoint"), runs=300)
def step_over_exception(c):
    stepping(c, "step_over", "exception")


@harness(covers=("stops", "runs on", "stops on breakpoint"), runs=300)
def step_in_exception(c):
    stepping(c, "step_in", "exception")


@harness(covers=("stops", "runs on", "stops on breakpoint"), runs=300)
def step_out_exception(c):
    stepping(c, "step_out", "exception")
