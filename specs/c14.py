"""C14 every request forwarded to the debuggee gets exactly one matching response."""
from __future__ import annotations

import ansibug._debuggee as dbg
from ansibug import dap
from pyvc.api import harness

from specs.c06 import state
from specs.common import PATHS, make_debugger, make_mapping, req
from specs.strat import TS, add_threads, host, make_state, start, task

# request class -> (command of the protocol, strategy operation, response class, does the strategy build it)
DELEGATED = (
    (dap.ContinueRequest, "continue", "continue_request", dap.ContinueResponse, True, {"thread_id": 3}),
    (dap.EvaluateRequest, "evaluate", "evaluate", dap.EvaluateResponse, True, {"expression": "x"}),
    (dap.NextRequest, "next", "step_over", dap.NextResponse, False, {"thread_id": 3}),
    (dap.ScopesRequest, "scopes", "get_scopes", dap.ScopesResponse, True, {"frame_id": 3}),
    (
        dap.SetVariableRequest,
        "setVariable",
        "set_variable",
        dap.SetVariableResponse,
        True,
        {"variables_reference": 3, "name": "a", "value": "b"},
    ),
    (dap.StackTraceRequest, "stackTrace", "get_stacktrace", dap.StackTraceResponse, True, {"thread_id": 3}),
    (dap.StepInRequest, "stepIn", "step_in", dap.StepInResponse, False, {"thread_id": 3}),
    (dap.StepOutRequest, "stepOut", "step_out", dap.StepOutResponse, False, {"thread_id": 3}),
    (dap.ThreadsRequest, "threads", "get_threads", dap.ThreadsResponse, True, {}),
    (dap.VariablesRequest, "variables", "get_variables", dap.VariablesResponse, True, {"variables_reference": 3}),
)
OPS = tuple(x[2] for x in DELEGATED) + ("disconnect",)
# neither a debuggee request: handled by the adapter, or unknown to both
FOREIGN = (
    (dap.AttachRequest, "attach", {"arguments": {}, "restart": None}),
    (dap.CancelRequest, "cancel", {"request_id": None, "progress_id": None}),
    (dap.InitializeRequest, "initialize", {"adapter_id": "x"}),
    (dap.LaunchRequest, "launch", {"arguments": {}, "no_debug": False, "restart": None}),
    (dap.RunInTerminalRequest, "runInTerminal", {"kind": "integrated", "cwd": "/", "args": [], "env": {}}),
)


class Fault(Exception):
    """any exception raised while handling a request"""


class Strategy:
    """the active strategy: records what it is asked to do"""

    def __init__(self, answer, fault):
        self.calls = []
        self.answer = answer
        self.fault = fault

    def _do(self, op, request):
        self.calls.append((op, request))
        if self.fault is not None:
            raise self.fault
        return self.answer

    def continue_request(self, request):
        return self._do("continue_request", request)

    def disconnect(self, request):
        return self._do("disconnect", request)

    def evaluate(self, request):
        return self._do("evaluate", request)

    def get_scopes(self, request):
        return self._do("get_scopes", request)

    def get_stacktrace(self, request):
        return self._do("get_stacktrace", request)

    def get_threads(self, request):
        return self._do("get_threads", request)

    def get_variables(self, request):
        return self._do("get_variables", request)

    def set_variable(self, request):
        return self._do("set_variable", request)

    def step_in(self, request):
        return self._do("step_in", request)

    def step_out(self, request):
        return self._do("step_out", request)

    def step_over(self, request):
        return self._do("step_over", request)


FAULTS = (Fault, ValueError, KeyError, AttributeError, NotImplementedError, dbg.EndStrategy)


def answered(c, q, n, r, cls, command):
    c.prove("exactly one message is queued", len(q) == n + 1)
    m = q[n]
    c.prove("it is the response of this request type", type(m) is cls)
    c.prove("with the request's seq", m.request_seq == r.seq)
    c.prove("with the request's command", str(m.command.value) == command and m.command is r.command)
    return m


def refused(c, q, n, r, command):
    m = answered(c, q, n, r, dap.ErrorResponse, command)
    c.prove("it is a failure", m.success is False)
    return m


def active(c, d, r, entry, name):
    cls, command, op, rcls, builds, kw = entry
    fault = c.flag(name + "_fails")
    ans = None
    if builds:
        ans = c.new(rcls, request_seq=r.seq)
    s = c.build(Strategy, answer=ans, fault=None)
    if fault:
        s.fault = c.choose(name + "_exception", FAULTS)()
    return s, ans, fault


@harness(covers=("answered", "refused"), runs=300)
def delegated(c):
    """a request the active strategy handles"""
    d = make_debugger(c)
    entry = c.choose("request", DELEGATED)
    cls, command, op, rcls, builds, kw = entry
    r = req(c, cls, **kw)
    s, ans, fault = active(c, d, r, entry, "first")
    late = c.flag("no_play_yet")
    if late:
        # the request arrives before a play starts: it waits for it
        def env():
            d._strategy = s

        d._strategy_connected.env = env
    else:
        c.put(d, _strategy=s)
    q = d._send_queue.items
    d._proto.on_msg_received(r)
    c.prove("the strategy is asked once", len(s.calls) == 1)
    c.prove("to do what was requested", c.all(s.calls[0][0] == op, s.calls[0][1] is r))
    if fault:
        c.cover("refused")
        refused(c, q, 0, r, command)
    else:
        c.cover("answered")
        m = answered(c, q, 0, r, rcls, command)
        if builds:
            c.prove("the strategy's answer is passed on", m is ans)
        else:
            c.prove("it is a success", m.success is True)
    c.prove("no lock is kept", d._strategy_connected.depth == 0)
    # the debuggee keeps serving
    entry2 = c.choose("next_request", DELEGATED[1:4])
    r2 = req(c, entry2[0], **entry2[5])
    s2, ans2, fault2 = active(c, d, r2, entry2, "second")
    c.put(d, _strategy=s2)
    d._proto.on_msg_received(r2)
    if fault2:
        refused(c, q, 1, r2, entry2[1])
    else:
        answered(c, q, 1, r2, entry2[3], entry2[1])
    c.prove("the next request is delegated once", len(s2.calls) == 1)


@harness(covers=("refused",), runs=60)
def no_play_left(c):
    """the playbook ended while the request waits for a play"""
    d = make_debugger(c)
    entry = c.choose("request", DELEGATED)
    r = req(c, entry[0], **entry[5])

    def env():
        d.shutdown(from_send_thread=True)

    d._strategy_connected.env = env
    d._proto.on_msg_received(r)
    c.cover("refused")
    refused(c, d._send_queue.items, 0, r, entry[1])
    c.prove("no lock is kept", d._strategy_connected.depth == 0)


@harness(covers=("refused",), runs=60)
def not_supported(c):
    """a request the debuggee does not support"""
    d = make_debugger(c)
    cls, command, kw = c.choose("request", FOREIGN)
    r = req(c, cls, **kw)
    d._proto.on_msg_received(r)
    c.cover("refused")
    refused(c, d._send_queue.items, 0, r, command)


@harness(covers=("configured",), runs=60)
def configuration(c):
    d = make_debugger(c)
    maps = c.seq("maps", lambda i: make_mapping(c, "m"))
    e = dap.OutputEvent(
        output="", category=dbg.DebugConfiguration.OUTPUT_CATEGORY, data=dbg.DebugConfiguration(path_mappings=maps)
    )
    c.put(e, seq=c.int("event_seq", lo=1))
    d._proto.on_msg_received(e)
    q = d._send_queue.items
    c.prove("one InitializedEvent answers the configuration", c.all(len(q) == 1, isinstance(q[0], dap.InitializedEvent)))
    c.prove("the mappings are stored", d._debug_config.path_mappings is maps)
    c.prove("the playbook still waits", not d._configuration_done.flag)
    r = req(c, dap.ConfigurationDoneRequest)
    d._proto.on_msg_received(r)
    m = answered(c, q, 1, r, dap.ConfigurationDoneResponse, "configurationDone")
    c.prove("it is a success", m.success is True)
    c.prove("the waiting playbook is released", d._configuration_done.flag)
    c.prove("the mappings stay", d._debug_config.path_mappings is maps)
    timeout = c.choose("timeout", (None, 10.0))
    d.wait_for_config_done(timeout)
    c.cover("configured")


@harness(covers=("breakpoints", "exceptions"), runs=150)
def kept_by_the_debugger(c):
    """requests answered without the strategy"""
    d = make_debugger(c)
    s = c.build(Strategy, answer=None, fault=None)
    if c.flag("play_running"):
        c.put(d, _strategy=s)
    q = d._send_queue.items
    if c.flag("exceptions"):
        r = req(c, dap.SetExceptionBreakpointsRequest, filters=[c.text("filter") for x in range(c.choose("n_filters", (0, 1, 2)))])
        d._proto.on_msg_received(r)
        c.cover("exceptions")
        answered(c, q, 0, r, dap.SetExceptionBreakpointsResponse, "setExceptionBreakpoints")
    else:
        path = c.text("path", cands=PATHS)
        make = lambda i: dap.SourceBreakpoint(line=c.int("line", lo=1))
        state(c, d, path, path)
        r = req(
            c,
            dap.SetBreakpointsRequest,
            source=dap.Source(path=c.choose("no_path", (path, None))),
            breakpoints=c.seq("bps", make),
            source_modified=c.flag("modified"),
        )
        d._proto.on_msg_received(r)
        c.cover("breakpoints")
        answered(c, q, 0, r, dap.SetBreakpointsResponse, "setBreakpoints")
    c.prove("the strategy is not involved", len(s.calls) == 0)
    c.prove("a success", q[0].success is True)


@harness(covers=("disconnect", "terminate"), runs=100)
def ending(c):
    d = make_debugger(c)
    s = c.build(Strategy, answer=None, fault=None)
    fails = False
    if c.flag("play_running"):
        c.put(d, _strategy=s)
        fails = c.flag("fails")
        if fails:
            s.fault = c.choose("exception", FAULTS)()
    q = d._send_queue.items
    if c.flag("terminate"):
        cls, command, kw = dap.TerminateRequest, "terminate", {}
    else:
        cls, command, kw = dap.DisconnectRequest, "disconnect", {"terminate_debuggee": c.flag("kill")}
    r = req(c, cls, **kw)
    d._proto.on_msg_received(r)
    c.cover(command)
    if fails:
        refused(c, q, 0, r, command)
    elif command == "terminate":
        c.prove("the send thread stops afterwards", c.all(len(q) == 2, q[1] is None))
        m = q[0]
        c.prove(
            "terminate is answered once",
            c.all(type(m) is dap.TerminateResponse, m.request_seq == r.seq, m.success, m.command is r.command),
        )
    else:
        c.prove("disconnect is left to the adapter", c.all(len(q) == 1, q[0] is None))
    c.prove("the play is told at most once", len(s.calls) <= 1)
    c.prove("no lock is kept", d._strategy_connected.depth == 0)


class Manager:
    """the variable manager"""

    def set_host_variable(self, host, varname, value):
        pass


REAL = (
    (dap.ContinueRequest, "continue", dap.ContinueResponse, {"thread_id": 2}),
    (dap.EvaluateRequest, "evaluate", dap.EvaluateResponse, {"expression": "x", "context": "repl"}),
    (dap.EvaluateRequest, "evaluate", dap.EvaluateResponse, {"expression": "x", "context": "hover"}),
    (dap.NextRequest, "next", dap.NextResponse, {"thread_id": 2}),
    (dap.StepInRequest, "stepIn", dap.StepInResponse, {"thread_id": 2}),
    (dap.StepOutRequest, "stepOut", dap.StepOutResponse, {"thread_id": 2}),
    (dap.ScopesRequest, "scopes", dap.ScopesResponse, {}),
    (dap.SetVariableRequest, "setVariable", dap.SetVariableResponse, {"name": "a", "value": "b"}),
    (dap.StackTraceRequest, "stackTrace", dap.StackTraceResponse, {"thread_id": 2}),
    (dap.ThreadsRequest, "threads", dap.ThreadsResponse, {}),
    (dap.VariablesRequest, "variables", dap.VariablesResponse, {}),
)


@harness(covers=("answered", "refused"), runs=300)
def real_strategy(c):
    """the responses built by the strategy, also for stale or unknown ids"""
    d, st = make_state(c)
    c.put(st, _variable_mamanger=c.build(Manager))
    h = host(c)
    add_threads(c, d, st, h, TS.CONTINUE, 2, [], others=False)
    t = task(c, "task", None, action="ping", path="/p/x.yml:4")
    c.put(t, args=c.mkdict([("data", "x")]))
    hv = c.mkdict([("facts", "f")])
    start(c, st, h, t, c.mkdict([("hostvars", c.mkdict([("h", hv)])), ("inventory_hostname", "h"), ("vars", c.mkdict([])), ("x", 1)]))
    c.put(d, _strategy=st)
    q = d._send_queue.items
    # ids as the client learns them
    r = req(c, dap.StackTraceRequest, thread_id=2)
    d._proto.on_msg_received(r)
    frame = answered(c, q, 0, r, dap.StackTraceResponse, "stackTrace").stack_frames[0].id
    r = req(c, dap.ScopesRequest, frame_id=frame)
    d._proto.on_msg_received(r)
    var = answered(c, q, 1, r, dap.ScopesResponse, "scopes").scopes[1].variables_reference
    cls, command, rcls, kw = c.choose("request", REAL)
    kw = dict(kw)
    stale = c.flag("stale")
    if command in ("scopes", "evaluate"):
        kw["frame_id"] = frame + 1 if stale else frame
    elif command in ("setVariable", "variables"):
        kw["variables_reference"] = var + 100 if stale else var
    elif stale and "thread_id" in kw:
        kw["thread_id"] = 77
    r = req(c, cls, **kw)
    d._proto.on_msg_received(r)
    if type(q[2]) is dap.ErrorResponse:
        c.cover("refused")
        c.prove("a valid request is not refused", stale)
        refused(c, q, 2, r, command)
    else:
        c.cover("answered")
        m = answered(c, q, 2, r, rcls, command)
        c.prove("a success", m.success is True)
    c.prove("no lock is kept", c.all(d._strategy_connected.depth == 0, st._waiting_condition.depth == 0))
