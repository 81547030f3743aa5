"""C15 the adapter answers every client request and ends with one TerminatedEvent."""
from __future__ import annotations

import ansibug._debug_adapter as da
from ansibug import dap
from pyvc.api import harness

from specs.adapter import World, adapter_world
from specs.c23 import temp_world

# requests of the client, as the debuggee gets them
REQUESTS = (
    (dap.ConfigurationDoneRequest, "configurationDone", {}),
    (dap.ContinueRequest, "continue", {"thread_id": 3}),
    (dap.DisconnectRequest, "disconnect", {}),
    (dap.EvaluateRequest, "evaluate", {"expression": "x"}),
    (dap.NextRequest, "next", {"thread_id": 3}),
    (dap.ScopesRequest, "scopes", {"frame_id": 3}),
    (dap.SetBreakpointsRequest, "setBreakpoints", {"source": dap.Source(), "breakpoints": [], "lines": [], "source_modified": False}),
    (dap.SetExceptionBreakpointsRequest, "setExceptionBreakpoints", {"filters": [], "filter_options": [], "exception_options": []}),
    (dap.SetVariableRequest, "setVariable", {"variables_reference": 3, "name": "a", "value": "b"}),
    (dap.StackTraceRequest, "stackTrace", {"thread_id": 3}),
    (dap.StepInRequest, "stepIn", {"thread_id": 3}),
    (dap.StepOutRequest, "stepOut", {"thread_id": 3}),
    (dap.TerminateRequest, "terminate", {}),
    (dap.ThreadsRequest, "threads", {}),
    (dap.VariablesRequest, "variables", {"variables_reference": 3}),
    (dap.CancelRequest, "cancel", {"request_id": None, "progress_id": None}),
)
# what the adapter itself handles while no process is connected
OWN = (
    (dap.AttachRequest, "attach", {"arguments": {}, "restart": None}),
    (dap.InitializeRequest, "initialize", {"adapter_id": "x"}),
    (dap.LaunchRequest, "launch", {"arguments": {}, "no_debug": False, "restart": None}),
)
ALL = REQUESTS + OWN


class Fault(Exception):
    """any failure"""


class Session(World):
    """what the client gets, in order, in `sent`"""

    def __init__(self, c):
        super().__init__(c)
        self.sent = []

    def wrote(self, m):
        self.sent.append(m)

    def read(self, n):
        self.c.prove("everything is flushed before the adapter waits", self.unflushed == 0)
        return super().read(n)

    def received(self, data):
        self.c.prove("the data read is parsed as it is", data == b"data")


def some_request(c, name, classes=ALL):
    cls, cmd, args = c.choose(name, classes)
    return c.put(cls(**args), seq=c.int(name + "_seq", lo=1))


def outstanding(c, w, r):
    """any number of requests without an answer yet; all those after the first set-up
    have another number than r"""

    def other(k):
        # one of each treatment
        cls, cmd, args = c.choose("other", (REQUESTS[2], REQUESTS[4]))
        x = c.put(cls(**args), seq=c.int("other_seq", lo=1))
        c.assume(x.seq != r.seq)
        return (x.seq, x)

    keys = lambda k: k != r.seq
    c.on_append_type(dap.ErrorResponse, lambda k: answer(c, r), lambda m: m.request_seq != r.seq, "no answer to another request")
    c.on_append_type(dap.DisconnectResponse, lambda k: answer(c, r), lambda m: m.request_seq != r.seq, "no answer to another request")
    return c.some("before", other, dict=True, keypred=keys), c.some("after", other, dict=True, keypred=keys)


def answer(c, r):
    m = dap.DisconnectResponse(request_seq=c.int("answered"))
    c.assume(m.request_seq != r.seq)
    return m


def server(c, w, r, recorded, connected, launching, terminated=False):
    """an adapter in an arbitrary state"""
    srv = da.DAServer()
    pe, qe = outstanding(c, w, r)
    c.put(srv, _incoming_requests=c.dict_of(pe, [(r.seq, r)] if recorded else [], qe), _terminated_sent=terminated)
    deb = lau = None
    if connected:
        deb = w.link("client", "tcp://x:1", lambda: srv._proto)
        deb.started = 1
    if launching:
        lau = w.link("server", "uds://", da.MPProtocol)
    c.put(srv, _debuggee=deb, _launch_queue=lau)
    return srv, deb, lau


def answers(w, r):
    return [m for m in w.sent if isinstance(m, dap.Response) and m.request_seq == r.seq]


def ends(w):
    return [m for m in w.sent if isinstance(m, dap.TerminatedEvent)]


MESSAGES = (
    ("answer", lambda seq: dap.NextResponse(request_seq=seq)),
    ("failed", lambda seq: dap.ErrorResponse(request_seq=seq, command=dap.Command.NEXT, message="x")),
    ("event", lambda seq: dap.OutputEvent(output="x", category=None)),
    ("ended", lambda seq: dap.ThreadEvent(reason="exited", thread_id=seq)),
    ("request", lambda seq: dap.RunInTerminalRequest(cwd="", kind="integrated", args=[], title="", env={})),
)


@harness(covers=("answer", "failed", "event", "request", "other"), runs=300)
def forwarded(c):
    """a message of the debuggee"""
    w = adapter_world(c, Session)
    r = some_request(c, "r", (REQUESTS[4], REQUESTS[2]))
    srv, deb, lau = server(c, w, r, True, True, False)
    seq = c.int("answers")
    kind, make = c.choose("message", MESSAGES)
    c.cover(kind)
    m = make(seq)
    hit = isinstance(m, dap.Response) and seq == r.seq
    if not hit:
        c.cover("other")
    srv._proto.on_msg_received(m)
    c.prove("it is written to the client, once and unchanged", len(w.sent) == 1 and w.sent[0] is m)
    c.prove("the adapter numbers it", m.seq == w.seq)
    c.prove("it is flushed", w.unflushed == 0 and len(w.pending) == 0)
    # is r still recorded as unanswered?
    before = len(answers(w, r))
    srv.stop(Fault("x"))
    c.prove("a request is answered exactly once", len(answers(w, r)) == 1)
    if hit:
        c.prove("by the message", answers(w, r)[0] is m)


def check_stop(c, w, r, n, exp, recorded, answered):
    """the answer to the request"""
    a = answers(w, r)
    if recorded and isinstance(r, dap.DisconnectRequest):
        c.prove("a disconnect request is answered with success", len(a) == 1 and isinstance(a[0], dap.DisconnectResponse) and a[0].success is True)
        c.cover("disconnect")
        return 1
    if recorded and not answered and exp is not None:
        c.prove("the other requests get an error", len(a) == 1 and isinstance(a[0], dap.ErrorResponse) and a[0].success is False)
        c.prove("with the command of the request", a[0].command == r.command)
        c.cover("error")
        return 1
    c.prove("no answer else", len(a) == answered)
    return answered


@harness(covers=("disconnect", "error", "from_debuggee"), runs=400)
def stop(c):
    w = adapter_world(c, Session)
    r = some_request(c, "r", (REQUESTS[2], REQUESTS[4]))
    recorded = c.flag("recorded")
    connected = c.flag("connected")
    launching = c.flag("launching")
    terminated = c.flag("terminated")
    stops(c, w, r, recorded, connected, launching, terminated, 1)


@harness(covers=("disconnect", "error", "again", "from_debuggee"), runs=400)
def stop_again(c):
    w = adapter_world(c, Session)
    r = some_request(c, "r", (REQUESTS[2], REQUESTS[4]))
    stops(c, w, r, True, True, True, False, 2)


def stops(c, w, r, recorded, connected, launching, terminated, times):
    srv, deb, lau = server(c, w, r, recorded, connected, launching, terminated)
    answered = 0
    n = 1 if terminated else 0
    for i in range(times):
        exp = Fault("x") if c.flag("exp%d" % i) else None
        frm = c.flag("from%d" % i)
        if frm:
            c.assume(connected and not (i == 1 and stopped))
            c.cover("from_debuggee")
        if i:
            c.cover("again")
        if frm:
            deb.closed = 1
            srv._proto.connection_closed(exp)
            stopped = False
        else:
            srv.stop(exp)
            stopped = True
        answered = check_stop(c, w, r, i, exp, recorded, answered)
        c.prove("one TerminatedEvent in all", len(ends(w)) == 1 - n)
        if n == 0:
            c.prove("it is sent after the answers", all_after(c, w, i))
        c.prove("the launch queue is stopped", lau is None or lau.stopped == 1)
        if stopped:
            c.prove("the debuggee is stopped", deb is None or deb.stopped == 1)
        else:
            c.prove("the debuggee's own thread does not wait for itself", deb.stopped == 0)
    c.prove("everything is flushed", w.unflushed == 0 and len(w.pending) == 0)


def all_after(c, w, i):
    """the answers are sent by the first stop, before the event"""
    if i == 0:
        return isinstance(w.sent[len(w.sent) - 1], dap.TerminatedEvent)
    return True


def run(srv):
    """the exception that ended the adapter, if any"""
    try:
        with srv:
            srv.start()
    except Exception as e:
        return e
    return None


@harness(covers=("forwarded", "disconnected", "lost", "eof"), runs=400)
def connected(c):
    """one more message of the client, then the end of input"""
    w = adapter_world(c, Session)
    r = some_request(c, "r")
    srv, deb, lau = server(c, w, r, False, True, c.flag("launching"))
    lost = c.flag("lost")
    if lost:
        deb.send_fails = BrokenPipeError(32, "gone") if c.flag("pipe") else ConnectionResetError(104, "reset")
    w.feed.append(r)
    if isinstance(r, dap.DisconnectRequest):
        c.cover("disconnected")
    err = run(srv)
    got = [x[2] for x in w.log if x[0] == "send"]
    c.prove("the debuggee is stopped", deb.stopped >= 1)
    c.prove("one TerminatedEvent", len(ends(w)) == 1)
    if isinstance(r, dap.DisconnectRequest):
        a = answers(w, r)
        c.prove("a disconnect ends the loop", err is None and w.eof == 0)
        c.prove("it is answered with success", len(a) == 1 and isinstance(a[0], dap.DisconnectResponse))
        c.prove("before the TerminatedEvent", c.index_of(w.sent, a[0]) < c.index_of(w.sent, ends(w)[0]))
        if not lost:
            c.prove("it is forwarded", len(got) == 1 and got[0] is r)
            c.prove("before the debuggee is stopped", first(w, "send") < first(w, "stop"))
        return
    if lost:
        c.cover("lost")
        a = answers(w, r)
        c.prove("a request that cannot be forwarded gets an error", err is deb.send_fails and len(a) == 1 and isinstance(a[0], dap.ErrorResponse))
        c.prove("with its command", a[0].command == r.command)
        return
    c.cover("forwarded")
    c.prove("the request is forwarded as it is", len(got) == 1 and got[0] is r)
    c.prove("the adapter does not answer it itself", len(answers(w, r)) == 0)
    c.prove("the loop goes on until the end of input", err is None and w.eof == 1)
    c.cover("eof")


def first(w, kind):
    for i in range(len(w.log)):
        if w.log[i][0] == kind:
            return i
    return -1


@harness(covers=("error", "answered"), runs=300)
def recorded(c):
    """a request is recorded until its response is sent"""
    w = adapter_world(c, Session)
    r = some_request(c, "r")
    c.assume(not isinstance(r, dap.DisconnectRequest))
    srv, deb, lau = server(c, w, r, False, True, False)
    w.feed.append(r)
    m = None
    if c.flag("answered"):
        c.cover("answered")
        m = c.put(dap.ErrorResponse(request_seq=r.seq, command=r.command, message="x"), seq=0)
        if c.flag("at once"):
            w.reply = lambda: srv._proto.on_msg_received(m)
        else:
            w.react = lambda: srv._proto.on_msg_received(m)
    fault = Fault("read")
    w.at_end = fault
    err = run(srv)
    a = answers(w, r)
    c.prove("a failure of the adapter is raised", err is fault)
    c.prove("the request has one answer", len(a) == 1)
    if m is not None:
        c.prove("the one of the debuggee", a[0] is m)
    else:
        c.cover("error")
        c.prove("an error for it", isinstance(a[0], dap.ErrorResponse) and a[0].command == r.command)


@harness(covers=("initialize", "unsupported", "disconnect", "failed"), runs=300)
def unconnected(c):
    """a message of the client while no process is connected"""
    w = adapter_world(c, Session)
    r = some_request(c, "r")
    srv, deb, lau = server(c, w, r, False, False, c.flag("launching"))
    w.feed.append(r)
    err = run(srv)
    a = answers(w, r)
    c.prove("the request has one answer", len(a) == 1)
    c.prove("of its command", a[0].command == r.command)
    c.prove("one TerminatedEvent, at the end", len(ends(w)) == 1 and isinstance(w.sent[len(w.sent) - 1], dap.TerminatedEvent))
    c.prove("the launch queue is stopped", lau is None or lau.stopped == 1)
    if isinstance(r, dap.InitializeRequest):
        c.cover("initialize")
        c.prove("initialize is answered by the adapter", err is None and isinstance(a[0], dap.InitializeResponse) and w.eof == 1)
    elif isinstance(r, dap.DisconnectRequest):
        c.cover("disconnect")
        c.prove("a disconnect is answered with success", isinstance(a[0], dap.DisconnectResponse))
    else:
        # attach and launch without arguments are wrong, the others have no debuggee
        c.cover("failed" if isinstance(r, (dap.AttachRequest, dap.LaunchRequest)) else "unsupported")
        c.prove("what cannot be handled is an error", err is not None and isinstance(a[0], dap.ErrorResponse))


@harness(covers=("connected", "cancelled", "failed"), runs=200)
def launched(c):
    """a launch, answered by the client, and the end of input"""
    w = adapter_world(c, Session)
    temp_world(c)
    r = c.put(dap.LaunchRequest(arguments={"playbook": "x.yml"}), seq=c.int("seq", lo=1))
    w.accept_fails = c.choose("accept", (None, da.CancelledError(), TimeoutError("x"), OSError(5, "x")))
    srv, deb, lau = server(c, w, r, False, False, False)
    w.feed.append(r)
    answer = dap.RunInTerminalResponse(request_seq=0, process_id=None, shell_process_id=None)
    w.feed.append(answer)
    w.answers = answer
    c.put(w, seq=c.int("last", lo=0))
    err = run(srv)
    a = answers(w, r)
    deb, lau = w.links
    c.prove("one TerminatedEvent", len(ends(w)) == 1)
    c.prove("the queues are stopped", deb.stopped == 1 and lau.stopped >= 1)
    if w.accept_fails is None:
        c.cover("connected")
        c.prove("the launch is answered", err is None and len(a) == 1 and isinstance(a[0], dap.LaunchResponse))
    elif isinstance(w.accept_fails, da.CancelledError):
        c.cover("cancelled")
        c.prove("the process ended", err is None and w.eof == 1 and len(a) == 0)
        return
    else:
        c.cover("failed")
        c.prove("a failed launch is an error", err is w.accept_fails and len(a) == 1 and isinstance(a[0], dap.ErrorResponse))
    c.prove("before the TerminatedEvent", c.index_of(w.sent, a[0]) < c.index_of(w.sent, ends(w)[0]))
