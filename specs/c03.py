"""C03 DAP message objects and their wire form correspond field by field.

SCHEMA is written from the Debug Adapter Protocol.  Each property is looked at on its
own, between any other properties: the wire is a JSON object with any number of unknown
properties, the required ones and the one looked at.
"""
from __future__ import annotations

import json
import queue

from ansibug import dap
from pyvc.api import harness
from pyvc.base import NewName

from specs.common import FakeQueue, learn_tables

learn_tables()

# class: its properties; ! required, =X a nested object, *X a list of them
TYPES = {
    "Breakpoint": "id verified message source=Source line column endLine endColumn instructionReference offset",
    "Capabilities": "supportsConfigurationDoneRequest supportsFunctionBreakpoints supportsConditionalBreakpoints supportsHitConditionalBreakpoints "
    "supportsEvaluateForHovers exceptionBreakpointFilters*ExceptionBreakpointsFilter supportsStepBack supportsSetVariable supportsRestartFrame "
    "supportsGotoTargetsRequest supportsStepInTargetsRequest supportsCompletionsRequest supportTerminateDebuggee supportSuspendDebuggee "
    "supportsTerminateRequest supportsClipboardContext",
    "Checksum": "algorithm! checksum!",
    "ExceptionBreakpointsFilter": "filter! label! description default supportsCondition conditionDescription",
    "ExceptionFilterOptions": "filterId! condition",
    "ExceptionOptions": "path!*ExceptionPathSegment breakMode!",
    "ExceptionPathSegment": "negate names",
    "Message": "id! format! variables sendTelemetry showUser url urlLabel",
    "Scope": "name! presentationHint variablesReference! namedVariables indexedVariables expensive source=Source line column endLine endColumn",
    "Source": "name path sourceReference presentationHint origin sources*Source adapterData checksums*Checksum",
    "SourceBreakpoint": "line! column condition hitCondition logMessage",
    "StackFrame": "id! name! source=Source line column endLine endColumn canRestart instructionPointerReference moduleId presentationHint",
    "StackFrameFormat": "parameters parameterTypes parameterNames parameterValues line module includeAll",
    "Thread": "id! name!",
    "ValueFormat": "hex",
    "Variable": "name! value! type presentationHint=VariablePresentationHint evaluateName variablesReference! namedVariables indexedVariables memoryReference",
    "VariablePresentationHint": "kind attributes visibility lazy",
}
TYPES["Variable"] = TYPES["Variable"].replace("variablesReference!", "variablesReference")
REQUESTS = {
    "Cancel": "requestId progressId",
    "ConfigurationDone": "",
    "Continue": "threadId! singleThread",
    "Disconnect": "restart terminateDebuggee suspendDebuggee",
    "Evaluate": "expression! frameId context format=ValueFormat",
    "Initialize": "clientID clientName adapterID! locale linesStartAt1 columnsStartAt1 pathFormat supportsVariableType supportsVariablePaging "
    "supportsRunInTerminalRequest supportsMemoryReferences supportsProgressReporting supportsInvalidatedEvent supportsMemoryEvent",
    "Next": "threadId! singleThread granularity",
    "RunInTerminal": "kind title cwd args env",
    "Scopes": "frameId!",
    "SetBreakpoints": "source!=Source breakpoints*SourceBreakpoint lines sourceModified",
    "SetExceptionBreakpoints": "filters filterOptions*ExceptionFilterOptions exceptionOptions*ExceptionOptions",
    "SetVariable": "variablesReference! name! value! format=ValueFormat",
    "StackTrace": "threadId! startFrame levels format=StackFrameFormat",
    "StepIn": "threadId! singleThread targetId granularity",
    "StepOut": "threadId! singleThread granularity",
    "Terminate": "restart",
    "Threads": "",
    "Variables": "variablesReference! filter start count format=ValueFormat",
}
RESPONSES = {
    "Attach": "",
    "Cancel": "",
    "ConfigurationDone": "",
    "Continue": "allThreadsContinued",
    "Disconnect": "",
    "Evaluate": "result! type presentationHint=VariablePresentationHint variablesReference namedVariables indexedVariables memoryReference",
    "Launch": "",
    "Next": "",
    "RunInTerminal": "processId shellProcessId",
    "Scopes": "scopes*Scope",
    "SetBreakpoints": "breakpoints*Breakpoint",
    "SetExceptionBreakpoints": "breakpoints*Breakpoint",
    "SetVariable": "value! type variablesReference namedVariables indexedVariables",
    "StackTrace": "stackFrames*StackFrame totalFrames",
    "StepIn": "",
    "StepOut": "",
    "Terminate": "",
    "Threads": "threads*Thread",
    "Variables": "variables*Variable",
}
EVENTS = {
    "Breakpoint": "reason! breakpoint!=Breakpoint",
    "Exited": "exitCode!",
    "Initialized": "",
    "Output": "category! output! group variablesReference source=Source line column data",
    "Stopped": "reason!#StoppedReason description threadId preserveFocusHint text allThreadsStopped hitBreakpointIds",
    "Terminated": "restart",
    "Thread": "reason! threadId!",
}
ATTRS = {
    "clientID": "client_id",
    "adapterID": "adapter_id",
    "exceptionBreakpointFilters": "exception_breakpoints_filters",
    "supportTerminateDebuggee": "supports_terminate_debuggee",
    "supportSuspendDebuggee": "supports_suspend_debuggee",
    "linesStartAt1": "lines_start_at_1",
    "columnsStartAt1": "columns_start_at_1",
}


def snake(name):
    if name in ATTRS:
        return ATTRS[name]
    return "".join("_" + ch.lower() if ch.isupper() else ch for ch in name)


class Prop:
    def __init__(self, text):
        self.many = "*" in text
        self.enum = "#" in text
        name, self.type = text, None
        for mark in "=*#":
            if mark in text:
                name, self.type = text.split(mark)
        self.required = name.endswith("!")
        self.name = name.rstrip("!")
        self.attr = snake(self.name)


def props(text):
    return [Prop(x) for x in text.split()]


def camel(name):
    return name[0].lower() + name[1:]


# (kind, class name, identifier, properties)
CLASSES = (
    [("type", k, None, props(v)) for k, v in TYPES.items()]
    + [("request", k + "Request", camel(k), props(v)) for k, v in REQUESTS.items()]
    + [("response", k + "Response", camel(k), props(v)) for k, v in RESPONSES.items()]
    + [("event", k + "Event", camel(k), props(v)) for k, v in EVENTS.items()]
)
MESSAGES = [x for x in CLASSES if x[0] != "type"]
OF = {x[1]: x for x in CLASSES}
SINGLE = [(x, p) for x in CLASSES for p in x[3]]
COMMANDS = {x[2]: x for x in MESSAGES if x[0] == "request"}
MEMBERS = ("step", "breakpoint", "exception", "pause", "entry", "goto", "function breakpoint", "data breakpoint", "instruction breakpoint")


def member(enum, value):
    out = [m for m in enum if m.value == value]
    return out[0] if len(out) == 1 else None


def value_of(c, p, depth=0):
    """(a value as the object has it, the same on the wire); opaque where any will do"""
    if p.enum:
        v = c.choose("member", MEMBERS)
        return member(dap.StoppedReason, v), v
    if p.type is None:
        v = c.any(p.name, json_value, kind=object)
        return v, v
    if p.many:
        a, b = nested(c, p.type, depth)
        return [a], [b]
    return nested(c, p.type, depth)


def json_value(r):
    return r.choice((0, 1, -5, "", "é", True, False, 1.5, ["a", None], [], {"k": "v"}, {}))


def nested(c, name, depth):
    """an object with its required properties and one other"""
    kind, cls, ident, ps = OF[name]
    kw, wire = {}, {}
    for p in ps:
        if p.required or p is ps[-1] and p.type is None:
            a, b = value_of(c, p, depth + 1)
            kw[p.attr] = a
            wire[p.name] = b
    return getattr(dap, cls)(**kw), wire


def equal(c, got, want, what):
    """the same value, or an object with the same values"""
    if isinstance(want, list):
        c.prove(what, isinstance(got, list) and len(got) == len(want))
        for i in range(len(want)):
            equal(c, got[i], want[i], what)
        return
    name = type(want).__name__
    if name in OF and isinstance(want, getattr(dap, name)):
        c.prove(what, type(got) is type(want))
        for p in OF[name][3]:
            equal(c, getattr(got, p.attr), getattr(want, p.attr), what)
        return
    c.prove(what, got is want or got == want)


def unknown(c, name, names, top):
    """any properties the protocol does not define for the object"""
    if c.sym:
        return c.some(name, lambda k: (c.any("key", kind=NewName), c.any("value", kind=object)), dict=True, keypred=lambda k: isinstance(k, NewName))
    keys = ["x", "threadID", "_dap", "__dict__", "pack", "message_type", "self", "__init__"]
    n = c.int(name + "_n", lo=0, hi=3)
    return [(k, c.choose("uv", (None, 1, {"seq": 7, "a": 1}, [1]))) for k in keys[n : n * 2] if k not in names and snake(k) not in names]


def obj(c, name, pairs, top=True, plain=False):
    """a JSON object with those properties and (unless plain) any unknown ones"""
    if plain:
        return dict(pairs)
    names = [k for k, v in pairs]
    odd = [("__types", {"seq": 1, "name": "x"})] if top and c.flag("types?") else []
    return c.dict_of(unknown(c, name + "_before", names, top), pairs, odd, unknown(c, name + "_after", names, top))


def wire_of(c, cl, pairs, plain=False):
    """a message (or nested object) of the class with those properties"""
    kind, cls, ident, ps = cl
    if kind == "type":
        return obj(c, "object", pairs, True, plain)
    seq = c.int("seq", lo=1)
    head = [("seq", seq), ("type", kind)]
    if kind == "request":
        head = head + [("command", ident)]
        if len(ps) > 0:
            head = head + [("arguments", obj(c, "arguments", pairs, False, plain))]
    elif kind == "event":
        head = head + [("event", ident)]
        if len(ps) > 0:
            head = head + [("body", obj(c, "body", pairs, False, plain))]
    else:
        head = head + [("request_seq", c.int("request_seq", lo=1)), ("success", True), ("command", ident)]
        if len(ps) > 0:
            head = head + [("body", obj(c, "body", pairs, False, plain))]
    return obj(c, "message", head, True, plain)


def check_head(c, cl, o, wire):
    kind, cls, ident, ps = cl
    c.prove("an instance of the class", type(o) is getattr(dap, cls))
    if kind == "type":
        return
    c.prove("the seq", o.seq == wire["seq"])
    c.prove("the type", o.message_type is member(dap.MessageType, kind))
    if kind == "event":
        c.prove("the event", o.event is member(dap.EventType, ident))
    else:
        c.prove("the command", o.command is member(dap.Command, ident))
    if kind == "response":
        c.prove("the request it answers", o.request_seq == wire["request_seq"])
        c.prove("a success", o.success is True)


def parse(c, cl, wire):
    cls = getattr(dap, cl[1])
    if cl[0] == "type" or c.flag("by class"):
        return cls.unpack(wire)
    return dap.ProtocolMessage.unpack(wire)


def fake_queue(c):
    c.external(queue, "Queue", FakeQueue)


@harness(covers=("value", "null", "list", "plain list", "no object"), runs=2000, engine={"unroll": 6})
def unpack_property(c):
    """every property of every class: a value, null or a list of values"""
    fake_queue(c)
    cl, p = c.choose("property", SINGLE)
    need = [(q.name, value_of(c, q)) for q in cl[3] if q.required and q is not p]
    wires = [(n, v[1]) for n, v in need]
    how = c.choose("how", (("value", "list") + (() if p.required else ("null", "no object"))) if p.many else ("value",) + (("plain list",) if p.type is None else ()) + (() if p.required else ("null", "no object")))
    c.cover(how)
    if how == "list":
        # any number of nested objects, one of them looked at
        v, w = nested(c, p.type, 0)
        ws = c.list_of(c.seq("pre", lambda k: nested(c, p.type, 0)[1]), [w], c.seq("post", lambda k: nested(c, p.type, 0)[1]))
        c.on_append_type(getattr(dap, p.type), lambda k: nested(c, p.type, 0)[0], None, "other objects")
        wires = wires + [(p.name, ws)]
    elif how == "plain list":
        v = c.any("element", json_value, kind=object)
        ws = c.list_of(c.seq("pre", lambda k: c.any("x", json_value, kind=object)), [v], c.seq("post", lambda k: c.any("x", json_value, kind=object)))
        wires = wires + [(p.name, ws)]
    elif how == "value":
        v, w = value_of(c, p)
        wires = wires + [(p.name, w)]
    elif how == "null":
        wires = wires + [(p.name, None)]
    wire = wire_of(c, cl, wires, True)
    o = parse(c, cl, wire)
    check_head(c, cl, o, wire)
    for (n, v0), q in zip(need, [q for q in cl[3] if q.required and q is not p]):
        equal(c, getattr(o, q.attr), v0[0], "the required values")
    if how == "list":
        got = getattr(o, p.attr)
        c.prove("one object for each of the list", len(got) == len(ws))
        equal(c, got[c.index_of(ws, w)], v, "objects of a list are converted")
    elif how == "plain list":
        got = getattr(o, p.attr)
        c.prove("one value for each of the list", len(got) == len(ws))
        x = got[c.index_of(ws, v)]
        c.prove("values of a list are kept", x is v or x == v)
    elif how == "value":
        equal(c, getattr(o, p.attr), v, "the value of the property")
    else:
        bare = getattr(dap, cl[1])(**default_args(cl, need, o))
        equal(c, getattr(o, p.attr), getattr(bare, p.attr), "null is like an absent property")


def default_args(cl, need, o):
    kw = {}
    i = 0
    for q in cl[3]:
        if q.required:
            kw[q.attr] = need[i][1][0]
            i += 1
    if cl[0] == "response":
        kw["request_seq"] = o.request_seq
    return kw


@harness(covers=("type", "request", "response", "event"), runs=1000, engine={"unroll": 6})
def unpack_all(c):
    """every class with all its properties at once, then once more"""
    fake_queue(c)
    cl = c.choose("class", CLASSES)
    c.cover(cl[0])
    vals = [(q, value_of(c, q)) for q in cl[3]]
    if c.flag("reversed"):
        wire = wire_of(c, cl, [(q.name, v[1]) for q, v in reversed(vals)])
    else:
        wire = wire_of(c, cl, [(q.name, v[1]) for q, v in vals])
    o = parse(c, cl, wire)
    check_head(c, cl, o, wire)
    for q, v in vals:
        equal(c, getattr(o, q.attr), v[0], "every value of the message")


def build(c, cl):
    """an object with any values: (object, the values by property)"""
    kw = {}
    vals = []
    for q in cl[3]:
        v = value_of(c, q)[0]
        kw[q.attr] = v
        vals.append((q.name, v))
    rs = None
    if cl[0] == "response":
        rs = kw["request_seq"] = c.int("request_seq", lo=1)
    o = getattr(dap, cl[1])(**kw)
    if cl[0] != "type":
        c.put(o, seq=c.int("seq", lo=1))
    return o, vals, rs


def check_pairs(c, got, vals, what):
    c.prove(what, len(got) == len(vals), str(got))
    for k, v in vals:
        c.prove(what, k in got)
        c.prove(what, got[k] is v or got[k] == v)


@harness(covers=("type", "request", "response", "event"), runs=1000, engine={"unroll": 6})
def pack(c):
    """every class with any values"""
    fake_queue(c)
    cl = c.choose("class", CLASSES)
    kind, cls, ident, ps = cl
    c.cover(kind)
    o, vals, rs = build(c, cl)
    got = o.pack()
    if kind == "type":
        check_pairs(c, got, vals, "exactly the properties with their values")
        return
    what = "exactly the properties of the message"
    head = [("seq", o.seq), ("type", member(dap.MessageType, kind))]
    if kind == "event":
        head = head + [("event", member(dap.EventType, ident))]
    else:
        head = head + [("command", member(dap.Command, ident))]
    if kind == "response":
        head = head + [("request_seq", rs), ("success", True)]
    inner = None
    if len(ps) > 0:
        inner = "arguments" if kind == "request" else "body"
        c.prove(what, inner in got)
    c.prove(what, len(got) == len(head) + (0 if inner is None else 1), str(got))
    for k, v in head:
        c.prove(what, k in got)
        c.prove(what, got[k] is v or got[k] == v, k)
    if inner is not None:
        check_pairs(c, got[inner], vals, "exactly the properties with their values")


@harness(covers=("body",), runs=200)
def initialize_response(c):
    """its body is the capabilities object itself"""
    fake_queue(c)
    caps, wcaps = nested(c, "Capabilities", 0)
    r = dap.InitializeResponse(request_seq=c.int("rs", lo=1), capabilities=caps)
    c.put(r, seq=c.int("seq", lo=1))
    got = r.pack()
    check_pairs(
        c,
        got,
        [("seq", r.seq), ("type", dap.MessageType.RESPONSE), ("command", dap.Command.INITIALIZE), ("request_seq", r.request_seq), ("success", True), ("body", caps)],
        "exactly the properties with their values",
    )
    wire = obj(c, "message", [("seq", r.seq), ("type", "response"), ("command", "initialize"), ("request_seq", r.request_seq), ("success", True), ("body", obj(c, "body", list(wcaps.items())))])
    o = dap.ProtocolMessage.unpack(wire)
    c.cover("body")
    c.prove("an instance of the class", type(o) is dap.InitializeResponse)
    c.prove("its numbers", o.seq == r.seq and o.request_seq == r.request_seq)
    equal(c, o.capabilities, caps, "the capabilities")


@harness(covers=("error", "null", "absent"), runs=300)
def error_response(c):
    """a response to any command that is not a success"""
    fake_queue(c)
    cmd = c.choose("command", tuple(m.value for m in dap.Command))
    msg, wmsg = nested(c, "Message", 0)
    text = c.any("message", kind=object)
    r = dap.ErrorResponse(command=member(dap.Command, cmd), request_seq=c.int("rs", lo=1), message=text, error=msg)
    c.put(r, seq=c.int("seq", lo=1))
    got = r.pack()
    check_pairs(
        c,
        {k: v for k, v in got.items() if k != "body"},
        [("seq", r.seq), ("type", dap.MessageType.RESPONSE), ("command", r.command), ("request_seq", r.request_seq), ("success", False), ("message", text)],
        "exactly the properties with their values",
    )
    check_pairs(c, got["body"], [("error", msg)], "exactly the properties with their values")
    how = c.choose("how", ("error", "null", "absent"))
    c.cover(how)
    body = [("body", obj(c, "body", [("error", wmsg if how == "error" else None)], False))] if how != "absent" else []
    wire = obj(c, "message", [("seq", r.seq), ("type", "response"), ("command", cmd), ("request_seq", r.request_seq), ("success", False), ("message", text)] + body)
    o = dap.ProtocolMessage.unpack(wire)
    c.prove("it becomes an error", type(o) is dap.ErrorResponse)
    c.prove("of the command", o.command is r.command)
    c.prove("not a success", o.success is False)
    c.prove("its numbers", o.seq == r.seq and o.request_seq == r.request_seq)
    c.prove("its message", o.message is text or o.message == text)
    if how == "error":
        equal(c, o.error, msg, "its details")
    else:
        c.prove("null is like an absent property", o.error is None)


@harness(covers=("launch", "attach"), runs=400)
def own_arguments(c):
    """attach and launch carry any arguments of the client"""
    fake_queue(c)
    launch = c.flag("launch")
    c.cover("launch" if launch else "attach")
    v = c.any("value", kind=object)
    rest = c.any("restart", kind=object, gen=lambda r: r.choice((1, {"a": 2}, "x")))
    nd = c.choose("no_debug", (True, False, None, "absent"))
    restart = c.choose("restart?", ("given", None, "absent"))
    pairs = [("playbook", v)]
    if launch and nd != "absent":
        pairs = pairs + [("noDebug", nd)]
    if restart != "absent":
        pairs = pairs + [("__restart", rest if restart == "given" else None)]
    seq = c.int("seq", lo=1)
    wire = obj(c, "message", [("seq", seq), ("type", "request"), ("command", "launch" if launch else "attach"), ("arguments", dict(pairs))])
    o = dap.ProtocolMessage.unpack(wire)
    c.prove("an instance of the class", type(o) is (dap.LaunchRequest if launch else dap.AttachRequest))
    c.prove("its number", o.seq == seq)
    check_pairs(c, o.arguments, [("playbook", v)], "the arguments of the client")
    c.prove("the restart data", o.restart is rest if restart == "given" else o.restart is None)
    if launch:
        c.prove("whether to debug", o.no_debug is (nd is True))
    got = o.pack()
    head = [("seq", seq), ("type", dap.MessageType.REQUEST), ("command", o.command)]
    check_pairs(c, {k: x for k, x in got.items() if k != "arguments"}, head, "exactly the properties with their values")
    args = [("playbook", v), ("__restart", o.restart)]
    if launch:
        args = args + [("noDebug", o.no_debug)]
    check_pairs(c, got["arguments"], args, "exactly the properties with their values")
    c.prove("packing leaves the arguments alone", len(o.arguments) == 1)


@harness(covers=("type", "command", "event"), runs=300)
def unknown_messages(c):
    fake_queue(c)
    how = c.choose("how", ("type", "command", "event"))
    c.cover(how)
    bad = c.choose("bad", ("", "x", "error", "Next", "NEXT", "EVENT", "unpack", "request ", None, 5, "goto", "memory"))
    if how == "type":
        pairs = [("type", bad), ("command", "next"), ("event", "output"), ("success", True)]
    elif how == "command":
        c.assume(bad is not None)
        pairs = [("type", c.choose("kind", ("request", "response"))), ("command", bad), ("success", c.flag("success")), ("request_seq", 1)]
    else:
        pairs = [("type", "event"), ("event", bad)]
    wire = obj(c, "message", [("seq", 1)] + pairs)
    err = None
    try:
        dap.ProtocolMessage.unpack(wire)
    except Exception as e:
        err = e
    c.prove("an unknown message is a ValueError", isinstance(err, ValueError), repr(err))


@harness(covers=("object", "enum"), runs=200)
def encoder(c):
    """what json asks for values that it does not know"""
    fake_queue(c)
    from ansibug.dap._messages import DAPEncoder

    e = DAPEncoder()
    if c.flag("enum"):
        c.cover("enum")
        x = c.choose("member", tuple(dap.Command) + tuple(dap.MessageType) + tuple(dap.EventType) + tuple(dap.StoppedReason))
        c.prove("an enum is its value", e.default(x) == x.value)
        return
    c.cover("object")
    cl = c.choose("class", CLASSES)
    o, vals, rs = build(c, cl)
    got = e.default(o)
    inner = got if cl[0] == "type" else got["arguments" if cl[0] == "request" else "body"] if len(cl[3]) > 0 else {}
    check_pairs(c, inner, vals, "an object is what it packs to")
