"""C12 which threads a continue, disconnect or terminate request resumes."""
from __future__ import annotations

from ansible.executor.task_queue_manager import TaskQueueManager
from ansible.plugins.strategy.linear import StrategyModule as Linear

from ansibug import dap
from pyvc.api import harness

from specs.common import FakePath, make_mapping, req
from specs.strat import TS, S, FResult, add_threads, bp, dbg, host, make_state, other_host, parents, start, task

STATES = (TS.CONTINUE, TS.WAIT, TS.STEP_OVER, TS.STEP_IN, TS.STEP_OUT)


def world(c, others_in=STATES, state=None):
    """a focus thread among any other threads in any states"""
    d, st = make_state(c)
    h = host(c)
    ct = c.counter("thread_counter", lo=3)
    c.put(d, _thread_counter=ct)
    tid = c.uid("tid", below=ct)
    c.assume(tid > 1)
    th = add_threads(c, d, st, h, state or c.choose("state", STATES), tid, [], states=others_in)
    return d, st, h, tid, th


ANY = tuple(TS)


@harness(covers=("this one", "another", "all"), runs=250)
def continue_request(c):
    d, st, h, tid, th = world(c, ANY)
    how = c.choose("thread", ("this", "main", "another"))
    extra = None
    if how == "another":
        # a third thread, besides the focus and the arbitrary ones
        o = other_host(c, h)
        oid = c.uid("target", below=d._thread_counter)
        c.assume(c.all(oid != tid, oid > 1))
        extra = c.build(S.AnsibleThread, id=oid, host=o)
        c.put(extra, state=c.choose("target_state", STATES))
        c.put(st, threads=c.dict_of([(1, st.threads[1]), (tid, th), (oid, extra)]))
    target = {"this": tid, "main": 1}.get(how) or oid
    single = c.flag("single")
    r = req(c, dap.ContinueRequest, thread_id=target, single_thread=single)
    before = th.state
    n = len(st.threads)
    with d.with_strategy(st):
        d.process_message(r)
    q = d._send_queue.items
    c.prove("one response", c.all(len(q) == 1, isinstance(q[0], dap.ContinueResponse), q[0].request_seq == r.seq))
    c.prove("that says whether all threads continue", q[0].all_threads_continued is (not single))
    c.prove("the same threads", c.all(len(st.threads) == n, st.threads[tid] is th))
    if not single:
        c.cover("all")
        c.prove("every thread continues", th.state is TS.CONTINUE)
        c.prove("the main thread too", st.threads[1].state is TS.CONTINUE)
    elif how == "this":
        c.cover("this one")
        c.prove("the thread continues", th.state is TS.CONTINUE)
        c.prove("and no other", st.threads[1].state is TS.CONTINUE)
    else:
        c.cover("another")
        c.prove("no other thread is resumed", th.state is before)
        if extra is not None:
            c.prove("the requested one is", extra.state is TS.CONTINUE)
    c.prove("waiting threads are notified", st._waiting_condition.notified >= 1)
    c.prove("no lock is kept", c.all(st._waiting_condition.depth == 0, d._strategy_connected.depth == 0))


def ending(c, d, which):
    if which == "terminate":
        r = req(c, dap.TerminateRequest, restart=c.flag("restart"))
    else:
        r = req(c, dap.DisconnectRequest, terminate_debuggee=which == "disconnect and terminate")
    d.process_message(r)
    return r


WAYS = ("disconnect", "disconnect and terminate", "terminate")


def client_data(c, d):
    """any breakpoints, exception filters and mappings"""
    def entry(k):
        i = c.uid("bp_id")
        return i, bp(c, i, c.text("bp_path"), c.int("bp_line", lo=0), None)

    c.put(d, _breakpoints=c.dict("bps", entry))
    c.put(d, _debug_config=dbg.DebugConfiguration(path_mappings=c.seq("maps", lambda k: make_mapping(c, "m"))))
    c.put(d, _breakpoint_exceptions={x: True for x in c.choose("filters", ((), ("on_error",), ("on_error", "on_unreachable", "on_skipped")))})


def cleared(c, d):
    c.prove("no breakpoint remains", c.all(len(d._breakpoints) == 0, len(d._debug_config.path_mappings) == 0))
    c.prove("no exception filter remains", not (d.should_stop_on_error or d.should_stop_on_skipped or d.should_stop_on_unreachable))


@harness(covers=("ended", "resumed"), runs=250)
def disconnect_request(c):
    d, st, h, tid, th = world(c, ANY)
    which = c.choose("request", WAYS)
    client_data(c, d)
    with d.with_strategy(st):
        r = ending(c, d, which)
        if c.flag("then_shutdown"):
            # the connection is closed next
            d.shutdown(from_send_thread=True)
    cleared(c, d)
    c.cover("resumed" if which == "disconnect" else "ended")
    c.prove("every thread is ended or resumed, as requested", th.state is (TS.CONTINUE if which == "disconnect" else TS.END))
    c.prove("waiting threads are notified", st._waiting_condition.notified >= 1)
    c.prove("no lock is kept", c.all(st._waiting_condition.depth == 0, d._strategy_connected.depth == 0))
    c.prove("the threads remain", st.threads[tid] is th)
    q = d._send_queue.items
    if which == "terminate":
        c.prove("terminate is answered", c.all(len(q) == 2, isinstance(q[0], dap.TerminateResponse), q[0].request_seq == r.seq))
    else:
        c.prove("disconnect is answered by the adapter", len(q) == 1)
    c.prove("and the send thread stops after it", q[len(q) - 1] is None)


KINDS = (("ok", {}), ("failed", {"msg": "x"}), ("unreachable", {"msg": "x"}), ("skipped", {"skip_reason": "x"}))


def later(c, d, st, h, t):
    kind = c.choose("kind", KINDS)
    try:
        st.end_task(FResult(h, t, kind[0], dict(kind[1])))
    except S.EndStrategy:
        return "ended"
    return "runs"


@harness(covers=("ended", "runs on"), runs=250)
def running_task(c):
    """a task that runs while the request arrives ends the play, or just ends"""
    d, st = make_state(c)
    h = host(c)
    ct = c.counter("thread_counter", lo=3)
    c.put(d, _thread_counter=ct)
    tid = c.uid("tid", below=ct)
    c.assume(tid > 1)
    th = add_threads(c, d, st, h, TS.CONTINUE, tid, [], others=False)
    which = c.choose("request", WAYS)
    t = task(c, "task", None, action="ping", path="/p/x.yml:4")
    start(c, st, h, t)
    client_data(c, d)
    c.put(th, state=c.choose("state", (TS.CONTINUE, TS.STEP_OVER, TS.STEP_IN, TS.STEP_OUT)))
    with d.with_strategy(st):
        ending(c, d, which)
    n = len(d._send_queue.items)
    r = later(c, d, st, h, t)
    c.prove("nothing more is sent", len(d._send_queue.items) == n)
    if which != "disconnect":
        c.cover("ended")
        c.prove("the play ends at the end of the task", r == "ended")
    else:
        c.cover("runs on")
        c.prove("the task ends without a stop", r == "runs")


@harness(covers=("runs on",), runs=250)
def next_task(c):
    """no task stops after a disconnect"""
    d, st, h, tid, th = world(c, ANY)
    client_data(c, d)
    with d.with_strategy(st):
        ending(c, d, "disconnect")
    n = len(d._send_queue.items)
    t = task(c, "later", None, action="ping", path=c.text("path") + ":" + str(c.int("line", lo=1)))
    r = start(c, st, h, t)
    c.prove("the next task runs", r == "runs")
    r = later(c, d, st, h, t)
    c.cover("runs on")
    c.prove("and ends", c.all(r == "runs", len(d._send_queue.items) == n))


@harness(covers=("ended", "resumed"), runs=200)
def stopped_thread(c):
    """the thread is stopped when the request arrives"""
    d, st, h, tid, th = world(c, ANY, TS.CONTINUE)
    which = c.choose("request", WAYS)
    client_data(c, d)
    c.put(d, _breakpoints={1: bp(c, 1, "/p/x.yml", 4, 4)})
    t = task(c, "task", parents(c, "task", None), action="ping", path="/p/x.yml:4")

    def env():
        ending(c, d, which)

    st._waiting_condition.env = env
    with d.with_strategy(st):
        r = start(c, st, h, t)
    cleared(c, d)
    if which == "disconnect":
        c.cover("resumed")
        c.prove("the thread runs on", c.all(r == "runs", th.state is TS.CONTINUE))
    else:
        c.cover("ended")
        c.prove("the play ends at the stop", r == "ended")


@harness(covers=("ended",), runs=100)
def new_host(c):
    """a host whose first task starts after the request"""
    d, st, h, tid, th = world(c, ANY)
    which = c.choose("request", WAYS[1:])
    with d.with_strategy(st):
        ending(c, d, which)
    o = other_host(c, h)
    c.put(st, threads=c.dict_of([(1, st.threads[1]), (tid, th)]))
    t = task(c, "task", parents(c, "task", None), action="ping", path="/p/x.yml:4")
    r = start(c, st, o, t)
    if r == "runs":
        r = later(c, d, st, o, t)
    c.cover("ended")
    c.prove("the play ends", r == "ended")


@harness(covers=("ended", "runs"), runs=100)
def no_play_running(c):
    """the request arrives before or between plays"""
    d, st = make_state(c)
    which = c.choose("request", WAYS)
    client_data(c, d)
    sm = c.new(S.StrategyModule, _warning_ctx=None, _loader=None, _variable_manager=None, _tqm=None, _debug_state=None)
    c.patch(S, "AnsibleDebugger", lambda: d)
    c.patch(S.display, "display", lambda *a, **k: None)
    ran = []
    value = c.int("result")

    def play(self, iterator, play_context, *a):
        ran.append(1)
        return value

    c.patch(Linear, "run", play)
    if c.flag("between"):
        sm.run(None, None)
        ran.clear()
    ending(c, d, which)
    cleared(c, d)
    c.prove("the playbook does not wait for the configuration", d._configuration_done.flag)
    if c.flag("then_shutdown"):
        d.shutdown(from_send_thread=True)
    r = sm.run(None, None)
    if which == "disconnect":
        c.cover("runs")
        c.prove("the next play runs", c.all(len(ran) == 1, r == value))
    else:
        c.cover("ended")
        c.prove("the next play is a failed play break", c.all(len(ran) == 0, r == TaskQueueManager.RUN_FAILED_BREAK_PLAY))


@harness(covers=("ended",), runs=60)
def requested_end(c):
    """EndStrategy out of the play is a failed play break"""
    d, st = make_state(c)
    sm = c.new(S.StrategyModule, _warning_ctx=None, _loader=None, _variable_manager=None, _tqm=None, _debug_state=None)
    c.patch(S, "AnsibleDebugger", lambda: d)
    c.patch(S.display, "display", lambda *a, **k: None)

    def play(self, iterator, play_context, *a):
        raise S.EndStrategy()

    c.patch(Linear, "run", play)
    r = sm.run(None, None)
    c.cover("ended")
    c.prove("a failed play break", r == TaskQueueManager.RUN_FAILED_BREAK_PLAY)
