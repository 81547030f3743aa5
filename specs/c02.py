"""C02 incoming DAP messages are recovered independently of how bytes arrive."""
from __future__ import annotations

import json
import queue

from ansibug import dap
from ansibug.dap import DebugAdapterConnection
from pyvc.api import harness

from specs.common import FakeQueue, learn_tables

learn_tables()

NAMES = ["Content-Type", "X-Info", "Content-Len", "content-length-x"]
VALUES = ["", "x", "utf-8", "application/vscode-jsonrpc; charset=utf-8", "a: b", "a: b: c", ":", ": ", "5", "é"]


class Json:
    """json.loads of message bodies"""

    def __init__(self, c):
        self.c = c
        self.bodies = []
        self.done = 0

    def loads(self, text, **k):
        if isinstance(text, (bytes, bytearray)):
            text = text.decode()
        t, v = self.bodies[self.done]
        self.done += 1
        self.c.prove("exactly the bodies are decoded, in order", text == t)
        return v


class World:
    pass


def world(c):
    w = World()
    w.j = None
    c.external(queue, "Queue", FakeQueue)
    if c.sym:
        w.j = c.build(Json, c)
        c.model(json.loads, w.j.loads)
    w.conn = DebugAdapterConnection()
    return w


def body(c, w, seq):
    """(bytes of a message, its thread id)"""
    tid = c.int("thread", lo=1, hi=None if c.sym else 99)
    v = {"seq": seq, "type": "request", "command": "next", "arguments": c.mkdict([("threadId", tid), ("text", "é")])}
    if c.sym:
        t = c.text("body", nonempty=True)
        w.j.bodies.append((t, c.mkdict(list(v.items()))))
        return t.encode(), tid
    v["arguments"] = dict(v["arguments"])
    return json.dumps(v, ensure_ascii=c.flag("ascii")).encode(), tid


def line(c, anything):
    """a header: one of some names, or (anything) any name without a C"""
    if c.sym:
        value = c.bytes("value", excl="\r\n")
        if anything:
            return c.bytes("name", excl="\r\n:C", nonempty=True) + b": " + value
        return c.choose("name", NAMES[:2]).encode() + b": " + value
    return c.choose("name", NAMES).encode() + b": " + c.choose("value", VALUES).encode()


def header(c, length, others=True):
    """a header block: Content-Length among any others"""
    what = c.choose("others", ("none", "before", "after", "both2")) if others else "none"
    out = b""
    if what in ("before", "both2"):
        out = out + line(c, what != "both2") + b"\r\n"
    out = out + b"Content-Length: " + str(length).encode()
    if what in ("after", "both2"):
        out = out + b"\r\n" + line(c, what == "both2")
    return out + b"\r\n\r\n"


def frame(c, w, seq, others=True):
    b, tid = body(c, w, seq)
    return header(c, len(b), others) + b, tid


def is_message(c, m, seq, tid):
    c.prove("the message is returned", isinstance(m, dap.NextRequest))
    c.prove("with its content", c.all(m.seq == seq, m.thread_id == tid))


@harness(covers=("received",), runs=200)
def whole(c):
    """any number of messages, each complete"""
    w = world(c)
    k = 0
    for x in c.seq("msgs", lambda i: i):
        k += 1
        if c.sym:
            w.j.bodies = []
            w.j.done = 0
        f, tid = frame(c, w, k)
        w.conn.receive_data(f)
        is_message(c, w.conn.next_message(), k, tid)
        c.prove("nothing is left", w.conn.next_message() is None)
        c.cover("received")


def arriving(c, others1, others2):
    """two messages, the bytes arriving in any two pieces"""
    w = world(c)
    f1, t1 = frame(c, w, 1, others1)
    f2, t2 = frame(c, w, 2, others2)
    s = f1 + f2
    p = c.int("p", lo=0, hi=None if c.sym else len(s))
    c.assume(p <= len(s))
    w.conn.receive_data(s[:p])
    m1 = w.conn.next_message()
    if p < len(f1):
        c.cover("first")
        c.prove("an incomplete message is not returned", m1 is None)
        c.prove("nor the second time", w.conn.next_message() is None)
        w.conn.receive_data(s[p:])
        m1 = w.conn.next_message()
        is_message(c, m1, 1, t1)
        m2 = w.conn.next_message()
    else:
        is_message(c, m1, 1, t1)
        m2 = w.conn.next_message()
        if p < len(s):
            c.cover("second")
            c.prove("an incomplete message is not returned", m2 is None)
            w.conn.receive_data(s[p:])
            m2 = w.conn.next_message()
    is_message(c, m2, 2, t2)
    c.prove("nothing is left", w.conn.next_message() is None)


@harness(covers=("first", "second"), runs=300)
def first_in_pieces(c):
    arriving(c, True, False)


@harness(covers=("first", "second"), runs=300)
def second_in_pieces(c):
    arriving(c, False, True)


@harness(covers=("three",), runs=300)
def many_pieces(c):
    """one message arriving in any three pieces (and the next one with it)"""
    w = world(c)
    f, tid = frame(c, w, 1, False)
    g, tid2 = frame(c, w, 2, False)
    p = c.int("p", lo=0, hi=None if c.sym else len(f))
    c.assume(p <= len(f))
    w.conn.receive_data(f[:p])
    if p < len(f):
        c.prove("an incomplete message is not returned", w.conn.next_message() is None)
        rest = f[p:]
        q = c.int("q", lo=0, hi=None if c.sym else len(rest))
        w.conn.receive_data(rest[:q])
        if q < len(rest):
            c.cover("three")
            c.prove("an incomplete message is not returned", w.conn.next_message() is None)
        w.conn.receive_data(rest[q:] + g)
    else:
        w.conn.receive_data(g)
    is_message(c, w.conn.next_message(), 1, tid)
    is_message(c, w.conn.next_message(), 2, tid2)
    c.prove("nothing is left", w.conn.next_message() is None)


@harness(covers=("wrong", "right"), runs=200)
def numbers(c):
    """the number of a message must be the next one"""
    w = world(c)
    k = 0
    for x in c.seq("msgs", lambda i: i):
        k += 1
        if c.sym:
            w.j.bodies = []
            w.j.done = 0
        f, tid = frame(c, w, k, False)
        w.conn.receive_data(f)
        is_message(c, w.conn.next_message(), k, tid)
    if c.sym:
        w.j.bodies = []
        w.j.done = 0
    n = c.int("n", lo=-3, hi=None if c.sym else 8)
    f, tid = frame(c, w, n, False)
    w.conn.receive_data(f)
    m, e = c.exc(w.conn.next_message)
    if n == k + 1:
        c.cover("right")
        is_message(c, m, n, tid)
    else:
        c.cover("wrong")
        c.prove("another number is rejected", c.all(m is None, e is not None))


@harness(covers=("rejected",), runs=200)
def no_length(c):
    """headers without Content-Length"""
    w = world(c)
    b, tid = body(c, w, 1)
    h = line(c, True)
    if c.flag("two"):
        h = h + b"\r\n" + line(c, False)
    w.conn.receive_data(h + b"\r\n\r\n" + b)
    m, e = c.exc(w.conn.next_message)
    c.prove("rejected", c.all(m is None, e is not None))
    c.cover("rejected")
