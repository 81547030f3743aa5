"""C01 outgoing DAP messages are framed exactly and numbered 1, 2, 3, ..."""
from __future__ import annotations

import json
import queue

from ansibug import dap
from ansibug.dap import DebugAdapterConnection
from pyvc.api import harness

from specs.common import FakeQueue


class Json:
    """json.dumps: some text, of ASCII characters unless told otherwise"""

    def __init__(self, c):
        self.c = c
        self.data = None
        self.text = None

    def dumps(self, data, cls=None, ensure_ascii=True, **k):
        self.data = data
        self.text = self.c.text("json", nonempty=True, ascii=True if ensure_ascii else None)
        return self.text


def serializer(c):
    j = None
    c.external(queue, "Queue", FakeQueue)
    if c.sym:
        j = c.build(Json, c)
        c.model(json.dumps, j.dumps)
    return j


def message(c):
    """any message: its fields are any texts"""
    kind = c.choose("kind", ("output", "error", "threads"))
    if kind == "output":
        return dap.OutputEvent(category="console", output=c.text("output", cands=["", "x", "é", "日本\U0001f600", '"\n']))
    if kind == "error":
        return dap.ErrorResponse(command=dap.Command.NEXT, request_seq=c.int("rs", lo=1, hi=50), message=c.text("message", cands=["e", "ü" * 40]))
    return dap.ThreadsResponse(request_seq=3, threads=[])


def expected(c, j, m, seq):
    """the bytes the message must be written as; None: see check()"""
    if c.sym:
        c.prove("the message itself is serialized", j.data["seq"] == seq)
        c.prove("with its type", j.data["type"] is m.message_type)
        if isinstance(m, dap.OutputEvent):
            c.prove("with its fields", j.data["body"]["output"] == m.output)
        elif isinstance(m, dap.ErrorResponse):
            c.prove("with its fields", j.data["message"] == m.message)
        b = j.text.encode("utf-8")
        return b"Content-Length: " + str(len(b)).encode() + b"\r\n\r\n" + b
    b = json.dumps(m.pack(), default=lambda x: x.value).encode()
    return b"Content-Length: " + str(len(b)).encode() + b"\r\n\r\n" + b


def same_stream(c, got, want):
    if c.sym:
        return got == want
    return parse(got) == parse(want)


def parse(data):
    """frames as (length, value)"""
    out = []
    while data:
        head, sep, rest = data.partition(b"\r\n\r\n")
        name, sep2, n = head.partition(b": ")
        if not sep or name != b"Content-Length" or len(rest) < int(n):
            return ["bad", data]
        out.append(json.loads(rest[: int(n)].decode("utf-8")))
        data = rest[int(n) :]
    return out


def queued(c, conn, j, seq):
    m = message(c)
    r = conn.queue_msg(m)
    c.prove("the message number is returned", r == seq)
    c.prove("and stored on the message", m.seq == seq)
    return expected(c, j, m, seq)


@harness(covers=("sent",), runs=300)
def framing(c):
    """any number of messages, each taken right away"""
    j = serializer(c)
    conn = DebugAdapterConnection()
    k = 0
    for x in c.seq("msgs", lambda i: i):
        k += 1
        want = queued(c, conn, j, k)
        got = conn.data_to_send()
        c.prove("exactly the frame of the message is returned", same_stream(c, got, want))
        c.cover("sent")
    c.prove("nothing else is returned", len(conn.data_to_send()) == 0)
    c.prove("nothing is repeated", len(conn.data_to_send()) == 0)


class Reader:
    """takes bytes and compares them with the pending ones"""

    def __init__(self, c):
        self.c = c
        self.got = b""
        self.want = b""

    def read(self, data):
        data = bytes(data)
        if self.c.sym:
            n = len(data)
            self.c.prove("what is returned is exactly what was queued, in order", data == self.want[:n])
            self.want = self.want[n:]
        else:
            self.got += data

    def end(self):
        if self.c.sym:
            self.c.prove("everything is returned", len(self.want) == 0)
        else:
            self.c.prove("everything is returned", parse(self.got) == parse(self.want))


@harness(covers=("drained",), runs=300)
def draining(c):
    """any number of messages pending, taken in any pieces, messages in between"""
    j = serializer(c)
    conn = DebugAdapterConnection()
    r = c.build(Reader, c)
    k = 0
    hi = None if c.sym else 200
    for x in c.seq("first", lambda i: i):
        k += 1
        r.want = r.want + queued(c, conn, j, k)
    n1 = c.int("n1", lo=0, hi=hi)
    g1 = conn.data_to_send(n1)
    c.prove("at most the requested number of bytes is returned", len(g1) <= n1)
    r.read(g1)
    for x in c.seq("second", lambda i: i):
        k += 1
        r.want = r.want + queued(c, conn, j, k)
    n2 = c.int("n2", lo=0, hi=hi)
    g2 = conn.data_to_send(n2)
    c.prove("at most the requested number of bytes is returned", len(g2) <= n2)
    r.read(g2)
    r.want = r.want + queued(c, conn, j, k + 1)
    n3 = c.int("n3", lo=0, hi=hi)
    r.read(conn.data_to_send(n3))
    r.read(conn.data_to_send(-1) if c.flag("explicit") else conn.data_to_send())
    r.end()
    c.prove("nothing is left", len(conn.data_to_send()) == 0)
    c.cover("drained")


@harness(runs=100)
def progress(c):
    """asking for bytes while some are pending returns some"""
    j = serializer(c)
    conn = DebugAdapterConnection()
    for x in c.seq("first", lambda i: i):
        conn.queue_msg(message(c))
    conn.queue_msg(message(c))
    n = c.int("n", lo=1, hi=None if c.sym else 200)
    c.prove("pending bytes are returned", len(conn.data_to_send(n)) > 0)
