"""C26 concurrent senders never interleave messages to the client.

Lock discipline: everything between numbering a message and writing it happens in
one critical section of one lock which every sender shares.  With that, two threads
cannot take the steps of two messages in turns, whatever the schedule.
"""
from __future__ import annotations

import ansibug._debug_adapter as da
from ansibug import dap
from pyvc.api import harness

from specs.adapter import adapter_world
from specs.c15 import ALL, MESSAGES, REQUESTS, Fault, Session, run, server, some_request
from specs.c23 import temp_world


class Shared(Session):
    """the client's connection, shared by the threads"""

    def __init__(self, c):
        super().__init__(c)
        self.sends = 0

    def step(self, what):
        if what == "queue":
            self.c.prove("messages are numbered under a lock", any(l.depth > 0 for l in self.locks))
            self.c.prove("no other message is on its way", len(self.pending) == 0)
            self.sends += 1
            for l in self.locks:
                if l.depth > 0:
                    l.sends += 1
                    l.mark = l.passes
        else:
            self.c.prove(
                "numbering and writing a message is one critical section",
                any(l.depth > 0 and l.mark == l.passes for l in self.locks),
            )


def check(c, w):
    c.prove("every message is sent under the same lock", any(l.sends == w.sends for l in w.locks))
    c.prove("every message is written", len(w.pending) == 0)
    c.prove("the lock is released", all(l.depth == 0 for l in w.locks))


@harness(covers=("sent",), runs=200)
def from_the_debuggee(c):
    """the receiving thread: a message, then the end of the connection"""
    w = adapter_world(c, Shared)
    r = some_request(c, "r", (REQUESTS[4], REQUESTS[2]))
    srv, deb, lau = server(c, w, r, True, True, c.flag("launching"))
    kind, make = c.choose("message", MESSAGES)
    srv._proto.on_msg_received(make(c.int("answers")))
    c.cover("sent")
    check(c, w)
    deb.closed = 1
    srv._proto.connection_closed(Fault("x") if c.flag("exp") else None)
    check(c, w)


@harness(covers=("connected", "unconnected", "failed"), runs=300)
def from_the_client(c):
    """the reading thread: a request, then the end of input"""
    w = adapter_world(c, Shared)
    r = some_request(c, "r", (REQUESTS[2], REQUESTS[4], ALL[-2], ALL[-3]))
    conn = c.flag("connected?")
    srv, deb, lau = server(c, w, r, False, conn, c.flag("launching"))
    c.cover("connected" if conn else "unconnected")
    w.feed.append(r)
    if run(srv) is not None:
        c.cover("failed")
    check(c, w)


@harness(covers=("connected", "failed"), runs=200)
def attach_and_launch(c):
    w = adapter_world(c, Shared)
    temp_world(c)
    if c.flag("attach"):
        r = dap.AttachRequest(arguments={"address": "tcp://x:1"}, restart=None)
    else:
        r = dap.LaunchRequest(arguments={"playbook": "x.yml"}, no_debug=False, restart=None)
    c.put(r, seq=c.int("seq", lo=1))
    w.accept_fails = w.connect_fails = c.choose("accept", (None, da.CancelledError(), TimeoutError("x")))
    srv, deb, lau = server(c, w, r, False, False, False)
    w.feed.append(r)
    answer = dap.RunInTerminalResponse(request_seq=0, process_id=None, shell_process_id=None)
    if isinstance(r, dap.LaunchRequest):
        w.feed.append(answer)
        w.answers = answer
    c.put(w, seq=c.int("last", lo=0))
    c.cover("connected" if run(srv) is None else "failed")
    check(c, w)
