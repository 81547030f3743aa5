"""C11 threads: started once, listed, exited once."""
from __future__ import annotations

import inspect

from ansible.executor.task_queue_manager import TaskQueueManager
from ansible.plugins.strategy.linear import StrategyModule as Linear

from ansibug import dap
from pyvc.api import harness

from specs.common import Blocked, req
from specs.strat import TS, S, FResult, FTask, add_threads, host, make_state, other_host, parents, start, task


def is_thread_event(m):
    return isinstance(m, dap.ThreadEvent)


@harness(covers=("started", "again"), runs=200)
def first_task_of_a_host(c):
    d, st = make_state(c)
    h = host(c)
    ct = c.counter("thread_counter", lo=2)
    c.put(d, _thread_counter=ct)
    add_threads(c, d, st, h, None, None, [])
    t = task(c, "task", parents(c, "task", None), path="/p/x.yml:4")
    n = len(st.threads)
    start(c, st, h, t)
    q = d._send_queue.items
    c.prove("one message is queued", len(q) == 1)
    e = q[0]
    c.cover("started")
    c.prove("a started event", c.all(is_thread_event(e), e.reason == "started"))
    i = e.thread_id
    c.prove("with an id above 1", i > 1)
    c.prove("that was never used", i >= ct)
    c.prove("and never will be", i < d._thread_counter)
    c.prove("the thread is added", c.all(i in st.threads, len(st.threads) == n + 1))
    th = st.threads[i]
    c.prove("for the host", c.all(th.id == i, th.host is h, th.to_dap().name == h.get_name()))
    # later tasks
    st.end_task(FResult(h, t))
    again = c.build(type(h), h.uid, c.text("renamed"))
    t2 = task(c, "later", parents(c, "later", None), path="/p/x.yml:9")
    start(c, st, again, t2)
    c.cover("again")
    c.prove("a later task of the host reuses the thread", c.all(len(q) == 1, len(st.threads) == n + 1, st.threads[i] is th))


@harness(covers=("known",), runs=200)
def task_of_a_known_host(c):
    d, st = make_state(c)
    h = host(c)
    ct = c.counter("thread_counter", lo=3)
    c.put(d, _thread_counter=ct)
    tid = c.uid("tid", below=ct)
    c.assume(tid > 1)
    th = add_threads(c, d, st, h, TS.CONTINUE, tid, [])
    n = len(st.threads)
    same = c.build(type(h), h.uid, c.text("name_of_equal_host"))
    t = task(c, "task", parents(c, "task", None), path="/p/x.yml:4")
    start(c, st, same, t)
    c.cover("known")
    c.prove("no event", len(d._send_queue.items) == 0)
    c.prove("no other thread", c.all(len(st.threads) == n, st.threads[tid] is th, d._thread_counter == ct))
    c.prove("the task runs in the host's thread", len(th.stack_frames) == 1)


def listed(c, tid):
    i = c.uid("listed_tid")
    c.assume(i > 1)
    c.assume(i != tid)
    return dap.Thread(id=i, name=c.text("listed_name"))


@harness(covers=("listed",), runs=200)
def threads_request(c):
    d, st = make_state(c)
    h = host(c)
    ct = c.counter("thread_counter", lo=3)
    c.put(d, _thread_counter=ct)
    tid = c.uid("tid", below=ct)
    c.assume(tid > 1)
    state = c.choose("state", tuple(TS))
    th = add_threads(c, d, st, h, state, tid, [])
    n = len(st.threads)
    r = req(c, dap.ThreadsRequest)
    c.on_append_type(dap.Thread, lambda k: listed(c, tid), lambda x: c.all(x.id > 1, x.id != tid), "other threads")
    with d.with_strategy(st):
        d.process_message(r)
    q = d._send_queue.items
    c.prove("one response", c.all(len(q) == 1, isinstance(q[0], dap.ThreadsResponse), q[0].request_seq == r.seq))
    ts = q[0].threads
    c.prove("every thread is listed once", len(ts) == n)
    mine = c.pick(ts, lambda x: x.id == tid)
    c.cover("listed")
    c.prove("a host's thread with the host's name", c.all(len(mine) == 1, mine[0].name == h.get_name()))
    main = c.pick(ts, lambda x: x.id == 1)
    c.prove("and the main thread", len(main) == 1)


def populated(c):
    """any threads in any states"""
    d, st = make_state(c)
    h = host(c)
    ct = c.counter("thread_counter", lo=3)
    c.put(d, _thread_counter=ct)
    tid = c.uid("tid", below=ct)
    c.assume(tid > 1)
    th = add_threads(c, d, st, h, c.choose("state", tuple(TS)), tid, [])
    return d, st, h, tid, th


def expect_exits(c, d, tid):
    """on_append contract: only exited events of other host threads besides those of `tid`"""

    def other():
        i = c.uid("exited_tid")
        c.assume(i != tid)
        c.assume(i > 1)
        return dap.ThreadEvent(reason="exited", thread_id=i)

    c.on_append(
        d._send_queue.items,
        lambda k: other(),
        lambda m: c.all(is_thread_event(m), m.reason == "exited", m.thread_id != tid, m.thread_id > 1),
        "one exited event for each other thread",
    )


def exited(c, d, st, tid, n):
    q = d._send_queue.items
    c.prove("only the main thread remains", c.all(len(st.threads) == 1, 1 in st.threads, tid not in st.threads))
    c.prove("one message per exited thread", len(q) == n - 1)
    mine = c.pick(q, lambda m: m.thread_id == tid)
    c.prove("exactly one about any given thread", len(mine) == 1)
    c.prove("saying that it exited", c.all(is_thread_event(mine[0]), mine[0].reason == "exited"))


@harness(covers=("exited",), runs=200)
def exit_threads(c):
    d, st, h, tid, th = populated(c)
    n = len(st.threads)
    expect_exits(c, d, tid)
    st.exit_threads()
    c.cover("exited")
    exited(c, d, st, tid, n)
    # a second call has nothing to say
    q = len(d._send_queue.items)
    st.exit_threads()
    c.prove("no thread exits twice", c.all(len(d._send_queue.items) == q, len(st.threads) == 1))


class Boom(Exception):
    pass


@harness(covers=("result", "end requested", "error"), runs=100)
def play_ends(c):
    """StrategyModule.run: whatever ends the play, the threads exit"""
    d0, st0, h, tid, th = populated(c)
    threads = st0.threads
    how = c.choose("how", ("result", "end requested", "error", "interrupt"))
    sm = c.new(S.StrategyModule, _warning_ctx=None, _loader=None, _variable_manager=None, _tqm=None, _debug_state=None)
    c.patch(S, "AnsibleDebugger", lambda: d0)
    shown = []
    c.patch(S.display, "display", lambda *a, **k: shown.append(1))
    value = c.int("result")
    n = len(threads)
    seen = []
    expect_exits(c, d0, tid)
    it, pc = object(), object()

    def play(self, iterator, play_context, *a):
        seen.append((d0._strategy is self._debug_state, iterator is it, play_context is pc))
        c.put(self._debug_state, threads=threads)
        if how == "end requested":
            raise S.EndStrategy()
        if how == "error":
            raise Boom()
        if how == "interrupt":
            raise KeyboardInterrupt()
        return value

    c.patch(Linear, "run", play)
    r = e = None
    try:
        r = sm.run(it, pc)
    except (Boom, KeyboardInterrupt) as x:
        e = x
    c.prove("the play ran once, with its arguments", c.all(len(seen) == 1, seen[0][1], seen[0][2]))
    c.prove("with its state known to the debugger", seen[0][0])
    if how == "result":
        c.cover("result")
        c.prove("the result is the play's", r == value)
    elif how == "end requested":
        c.cover("end requested")
        c.prove("a requested end is a failed play break", c.all(r == TaskQueueManager.RUN_FAILED_BREAK_PLAY, e is None))
    else:
        c.cover("error")
        c.prove("errors are passed on", c.all(r is None, isinstance(e, Boom if how == "error" else KeyboardInterrupt)))
    exited(c, d0, sm._debug_state, tid, n)
    c.prove("the debugger no longer knows the state", d0._strategy is None)


class Frame:
    def __init__(self, f_back, f_locals):
        self.f_back = f_back
        self.f_locals = f_locals


@harness(covers=("refresh", "other"), runs=150)
def meta_task(c):
    """refresh_inventory exits the threads, other meta tasks only end"""
    d, st, h, tid, th = populated(c)
    c.put(th, state=TS.CONTINUE)
    n = len(st.threads)
    what = c.choose("meta", ("refresh_inventory", "noop", "flush_handlers", "end_play", None))
    sm = c.new(S.StrategyModule, _debug_state=st)
    t = task(c, "meta", parents(c, "meta", None), action="meta", path="/p/m.yml:2")
    c.put(t, args=c.mkdict([("_raw_params", what)]) if what is not None else c.mkdict([]))
    out = [1]
    ran = []
    tv = c.mkdict([])

    def meta(self, task, play_context, iterator, target_host):
        ran.append((task is t, target_host is h, len(th.stack_frames), len(d._send_queue.items)))
        return out

    c.patch(Linear, "_execute_meta", meta)
    expect_exits(c, d, tid)

    got = []
    real = st.start_task
    c.put(st, start_task=lambda host, task, task_vars: (got.append(task_vars), real(host, task, task_vars))[1])

    def caller(task_vars):
        return sm._execute_meta(t, None, None, h)

    c.external(S, "TaskResult", lambda host, task, return_data, task_fields=None: FResult(host, task, "ok", return_data))
    if c.sym:
        # the variables are taken from the caller's frame
        c.model(inspect.currentframe, lambda: Frame(Frame(None, {"task_vars": tv}), {}))
    r = caller(tv)
    c.prove("with the caller's task variables", c.all(len(got) == 1, got[0] is tv))
    c.prove("the meta task ran once, in its frame", c.all(len(ran) == 1, ran[0][0], ran[0][1], ran[0][2] == 1, ran[0][3] == 0))
    c.prove("and its result is returned", r is out)
    if what == "refresh_inventory":
        c.cover("refresh")
        exited(c, d, st, tid, n)
    else:
        c.cover("other")
        c.prove("no thread exits", c.all(len(st.threads) == n, st.threads[tid] is th, len(d._send_queue.items) == 0))
        c.prove("the frame is gone", c.all(len(th.stack_frames) == 0, len(st.stackframes) == 0))
