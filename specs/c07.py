"""C07 a task stops exactly when a breakpoint covers it and its condition holds."""
from __future__ import annotations

from ansibug import dap
from pyvc.api import harness

from specs.common import PATHS, Blocked, req
from specs.strat import CONDS, TS, S, add_threads, bp, host, make_state, parents, start, task, holds

LINES = (1, 2, 3, 5, 8)


def any_bp(c, name):
    i = c.uid(name + "_id")
    b = bp(
        c,
        i,
        c.text(name + "_path", cands=PATHS[:3]),
        c.int(name + "_line", lo=0),
        c.opt(name + "_end", lambda: c.int(name + "_end_line", lo=0)),
        c.choose(name + "_cond", CONDS),
    )
    return b


def covers(c, b, path, line):
    """the breakpoint's range contains the line of the file"""
    x = b.breakpoint
    return c.all(b.actual_path == path, x.line <= line, True if x.end_line is None else line <= x.end_line)


def same_id(kv):
    return [("breakpoints do not change", kv[1].id == kv[0])]


def scene(c, focus=True, match=False, states=(TS.CONTINUE,)):
    """a thread running freely (or a new host), arbitrary other threads and breakpoints"""
    d, st = make_state(c)
    h = host(c)
    ct = c.counter("thread_counter", lo=3)
    c.put(d, _thread_counter=ct)
    tid = c.uid("tid", below=ct)
    c.assume(tid > 1)
    th = add_threads(c, d, st, h, TS.CONTINUE, tid, [], others=True, states=states)

    def entry(i):
        b = any_bp(c, "some")
        return b.id, b

    f = any_bp(c, "focus")
    bps = c.dict("bps", entry, same_id, focus=[(f.id, f)] if focus else [], post=entry)
    c.put(d, _breakpoints=bps)
    if match:
        path, line = f.actual_path, f.breakpoint.line + c.int("below", lo=0)
        c.assume(f.breakpoint.end_line is None or line <= f.breakpoint.end_line)
        c.assume(holds(f.source_breakpoint.condition))
    else:
        path, line = c.text("task_path", cands=PATHS[:3]), c.int("task_line", lo=0)
    t = task(c, "task", parents(c, "task", None), action="ping", path=path + ":" + str(line))
    return d, st, h, tid, th, t, path, line, f


def outcome(c, d, st, h, tid, th, t):
    """(stopped, event)"""
    r = start(c, st, h, t)
    n = len(d._send_queue.items)
    if r == "runs":
        c.prove("a task that does not stop queues nothing", n == 0)
        c.prove("and leaves the thread running", th.state is TS.CONTINUE)
        return False, None
    c.prove("a stopped task waits for the client", r == "blocked")
    c.prove("the thread is in the waiting state", th.state is TS.WAIT)
    c.prove("exactly one event is queued", n == 1)
    return True, d._send_queue.items[0]


@harness(covers=("stops", "runs"), runs=600)
def stop_has_a_reason(c):
    d, st, h, tid, th, t, path, line, f = scene(c, focus=False)
    stopped, e = outcome(c, d, st, h, tid, th, t)
    c.cover("stops" if stopped else "runs")
    if stopped:
        c.prove("it is a stopped event", isinstance(e, dap.StoppedEvent))
        c.prove("because of a breakpoint", e.reason == dap.StoppedReason.BREAKPOINT)
        c.prove("of the task's thread", e.thread_id == tid)
        c.prove("with one breakpoint id", len(e.hit_breakpoint_ids) == 1)
        i = e.hit_breakpoint_ids[0]
        c.prove("of a set breakpoint", i in d._breakpoints)
        b = d._breakpoints[i]
        c.prove("that covers the task's line", covers(c, b, path, line))
        c.prove("and whose condition holds", holds(b.source_breakpoint.condition))


@harness(covers=("covered", "not covered"), runs=600)
def covered_task_stops(c):
    d, st, h, tid, th, t, path, line, f = scene(c)
    stopped, e = outcome(c, d, st, h, tid, th, t)
    if covers(c, f, path, line) and holds(f.source_breakpoint.condition):
        c.cover("covered")
        c.prove("a task with a matching breakpoint stops", stopped)
    else:
        c.cover("not covered")


@harness(covers=("stops", "resumed", "ended", "still waiting"), runs=300)
def waits_until_resumed(c):
    """what ends the wait of a stopped thread"""
    d, st, h, tid, th, t, path, line, f = scene(c, match=True, states=(TS.CONTINUE, TS.END))
    how = c.choose("request", ("continue all", "continue this", "step over", "step in", "step out", "disconnect", "terminate", "continue other", "spurious"))
    rid = tid
    if how == "continue other":
        rid = 1
    reqs = {
        "continue all": lambda: st.continue_request(req(c, dap.ContinueRequest, thread_id=1, single_thread=False)),
        "continue this": lambda: st.continue_request(req(c, dap.ContinueRequest, thread_id=tid, single_thread=True)),
        "continue other": lambda: st.continue_request(req(c, dap.ContinueRequest, thread_id=rid, single_thread=True)),
        "step over": lambda: st.step_over(req(c, dap.NextRequest, thread_id=tid)),
        "step in": lambda: st.step_in(req(c, dap.StepInRequest, thread_id=tid)),
        "step out": lambda: st.step_out(req(c, dap.StepOutRequest, thread_id=tid)),
        "disconnect": lambda: st.disconnect(req(c, dap.DisconnectRequest, terminate_debuggee=False)),
        "terminate": lambda: st.disconnect(req(c, dap.DisconnectRequest, terminate_debuggee=True)),
        "spurious": lambda: None,
    }
    cond = st._waiting_condition
    seen = []

    def env():
        seen.append((th.state, len(d._send_queue.items)))
        reqs[how]()

    cond.env = env
    r = start(c, st, h, t)
    c.cover("stops")
    c.prove("it waits once", len(seen) == 1)
    c.prove("in the waiting state, with the event queued", c.all(seen[0][0] is TS.WAIT, seen[0][1] == 1))
    c.prove("no lock is kept", c.any_of(r == "blocked", cond.depth == 0))
    if how == "continue other" or how == "spurious":
        c.cover("still waiting")
        c.prove("other threads' requests do not resume it", c.all(r == "blocked", th.state is TS.WAIT))
    elif how == "terminate":
        c.cover("ended")
        c.prove("terminate ends the play at the stop", r == "ended")
    else:
        c.cover("resumed")
        c.prove("the request resumes the thread", c.all(r == "runs", th.state is not TS.WAIT))


@harness(covers=("runs",), runs=200)
def no_path_no_stop(c):
    d, st, h, tid, th, t, path, line, f = scene(c)
    t.path = c.choose("no_path", (None, ""))
    stopped, e = outcome(c, d, st, h, tid, th, t)
    c.cover("runs")
    c.prove("a task without path does not stop", not stopped)
