"""C17 cancelling a socket token reaches every pending operation and all later ones."""
from __future__ import annotations

import errno
import select
import socket

import ansibug._socket_helper as sh
from pyvc.api import harness

from specs.common import Blocked, fake_threading

OPS = ("accept", "connect", "recv_into", "sendall")


class Other:
    """the cancel function of another operation in progress"""

    def __init__(self, fails):
        self.fails = fails
        self.calls = 0

    def __call__(self):
        self.calls += 1
        if self.fails is not None:
            raise self.fails


class Sock:
    """a socket: what happens at each call is up to the scenario"""

    def __init__(self, name):
        self.name = name
        self.calls = []
        self.shut = []
        self.closed = 0
        self.shutdown_fails = False
        self.action = None
        self.err = 0
        self.conn = None
        self.blocking = True

    def _call(self, what):
        self.calls.append(what)
        if self.action is not None:
            return self.action(what)

    def accept(self):
        self._call("accept")
        return self.conn

    def connect(self, addr):
        self._call(("connect", addr))

    def recv_into(self, buffer, n=0):
        return self._call(("recv_into", buffer, n))

    def sendall(self, data):
        self._call(("sendall", data))

    def getsockopt(self, level, name):
        return self.err

    def setblocking(self, flag):
        self.blocking = flag

    def shutdown(self, how):
        self.shut.append(how)
        if self.shutdown_fails:
            raise OSError(errno.ENOTCONN, "not connected")

    def close(self):
        self.closed += 1

    def fileno(self):
        return 5


class Selecting:
    def __init__(self):
        self.asked = []
        self.act = None

    def select(self, r, w, x, timeout=None):
        self.asked.append((list(r), list(w), timeout))
        return self.act(r, w)


class W:
    pass


def world(c):
    fake_threading(c)
    w = W()
    w.tok = sh.SocketCancellationToken()
    w.sock = c.build(Sock, "sock")
    w.sel = c.build(Selecting)
    c.patch(select, "select", lambda *a: w.sel.select(*a))
    return w


FAILS = (None, OSError, ValueError)


def pending(c, w):
    """any number of operations in progress; one of them is w.other"""
    def func(name):
        f = c.choose(name, FAILS)
        return c.build(Other, None if f is None else f())

    ids = c.counter("next_id", lo=0)
    keys = lambda k: c.all(k >= 0, k < ids)
    some = lambda i: (c.uid("op_id", below=ids), func("op_fails"))
    w.id = c.uid("id", below=ids)
    w.other = func("other_fails")
    c.put(
        w.tok,
        _cancel_id=ids,
        _cancel_funcs=c.dict_of(c.some("before", some, dict=True, keypred=keys), [(w.id, w.other)], c.some("after", some, dict=True, keypred=keys)),
    )


def run(c, w, op, timeout=0, cancel_socket=None):
    """(result, exception) of the operation"""
    t, s = w.tok, w.sock
    if op == "accept":
        return c.exc(lambda: t.accept(s, timeout=timeout, cancel_socket=cancel_socket))
    if op == "connect":
        return c.exc(lambda: t.connect(s, ("h", 1), timeout=timeout))
    if op == "recv_into":
        return c.exc(lambda: t.recv_into(s, w.buf, w.n))
    return c.exc(lambda: t.sendall(s, w.data))


def give(c, w):
    w.buf = bytearray(4)
    w.n = c.int("n", lo=0)
    w.data = c.bytes("data")


@harness(covers=("others",), runs=200)
def cancel_all(c):
    """cancel runs every function once, whatever the others do"""
    w = world(c)
    pending(c, w)
    res, ex = c.exc(w.tok.cancel)
    c.cover("others")
    c.prove("cancel itself does not fail", ex is None)
    c.prove("every operation in progress is cancelled once", w.other.calls == 1)
    c.prove("the lock is released", w.tok._lock.depth == 0)
    # a second cancel finds nothing to do
    res, ex = c.exc(w.tok.cancel)
    c.prove("cancelling again is harmless", c.all(ex is None, w.other.calls == 1))
    # and every later operation is refused
    give(c, w)
    op = c.choose("op", OPS)
    w.sel.act = lambda r, x: ([], [], [])
    res, ex = run(c, w, op)
    c.prove("later operations are cancelled", isinstance(ex, sh.CancelledError))
    c.prove("without touching the socket", c.all(len(w.sock.calls) == 0, len(w.sel.asked) == 0, len(w.sock.shut) == 0, w.sock.closed == 0))
    c.prove("the lock is released again", w.tok._lock.depth == 0)


class Boom(Exception):
    pass


OUTCOMES = ("done", "error", "boom")


@harness(covers=("cancelled", "done", "failed"), runs=400)
def in_progress(c):
    """an operation among any others; cancel may arrive while it waits"""
    w = world(c)
    pending(c, w)
    give(c, w)
    op = c.choose("op", OPS)
    cancelled = c.flag("cancelled")
    outcome = c.choose("outcome", OUTCOMES)
    w.sock.shutdown_fails = c.flag("shutdown_fails")
    w.sock.conn = (c.build(Sock, "conn"), ("peer", 1))
    got = c.int("got", lo=0)
    during = c.choose("during", ("select", "call")) if op in ("accept", "connect") else "call"
    if op == "connect" and outcome != "done":
        during = "call"  # it fails before it waits

    def cancel_now():
        if cancelled:
            w.tok.cancel()

    def act(what):
        if during == "call":
            cancel_now()
        if outcome == "error":
            raise ConnectionResetError(errno.ECONNRESET, "reset")
        if outcome == "boom":
            raise Boom()
        if op == "connect":
            raise BlockingIOError(errno.EINPROGRESS, "in progress")
        if op == "recv_into":
            return got

    w.sock.action = act

    def choosing(r, x):
        if during == "select":
            cancel_now()
        return (list(r), list(x), [])

    w.sel.act = choosing
    res, ex = run(c, w, op)
    if cancelled:
        c.cover("cancelled")
        c.prove("the operation's own socket is shut down once", len(w.sock.shut) == 1)
        c.prove("the other operation is cancelled once", w.other.calls == 1)
        if op == "accept" and w.sock.shutdown_fails:
            c.prove("a socket that cannot be shut down is closed", w.sock.closed == 1)
        if outcome == "error":
            c.prove("a socket error of a cancelled operation is a cancellation", isinstance(ex, sh.CancelledError))
        elif outcome == "done" and op in ("recv_into", "connect"):
            c.prove("the operation reports the cancellation", isinstance(ex, sh.CancelledError))
        elif outcome == "done":
            c.prove("or completes", ex is None or isinstance(ex, sh.CancelledError))
    else:
        c.prove("nothing is shut down or closed", c.all(len(w.sock.shut) == 0, w.sock.closed == 0, w.other.calls == 0))
        if outcome == "done":
            c.cover("done")
            c.prove("it completes", ex is None)
            if op == "recv_into":
                c.prove("with the number of bytes read", res == got)
            elif op == "accept":
                c.prove("with the new connection", res is w.sock.conn)
            what = w.sock.calls[0]
            if op == "recv_into":
                c.prove("read into the buffer", c.all(what[1] is w.buf, what[2] == w.n))
            elif op == "sendall":
                c.prove("all the data is sent", what[1] == w.data)
            elif op == "connect":
                c.prove("to the address, blocking afterwards", c.all(what[1] == ("h", 1), w.sock.blocking is True))
        elif outcome == "error":
            c.cover("failed")
            c.prove("a socket error is passed on", isinstance(ex, ConnectionResetError))
        else:
            c.prove("any other error is passed on", isinstance(ex, Boom))
    c.prove("the socket is used once", len(w.sock.calls) == 1 or during == "select")
    c.prove("the lock is released", w.tok._lock.depth == 0)
    n = len(w.sock.shut)
    k = w.other.calls
    # an operation that saw no cancellation is not affected by a later one
    res, ex = c.exc(w.tok.cancel)
    c.prove("a finished operation is not cancelled", len(w.sock.shut) == n)
    c.prove("every other one is, once", c.all(ex is None, w.other.calls == 1, k == (1 if cancelled else 0)))


@harness(covers=("timeout", "ready"), runs=200)
def waiting(c):
    """what accept and connect wait for, and how long"""
    w = world(c)
    op = c.choose("op", OPS[:2])
    timeout = c.choose("timeout", (0, 0.5, 3, 60.0))
    cs = c.build(Sock, "cancel") if op == "accept" and c.flag("cancel_socket") else None
    ready = c.choose("ready", ("none", "this", "cancel socket", "both"))
    if cs is None and ready in ("cancel socket", "both"):
        ready = "this"
    conn = (c.build(Sock, "conn"), ("peer", 1))
    w.sock.conn = conn
    w.sock.err = c.choose("so_error", (0, errno.ECONNREFUSED)) if op == "connect" else 0
    sets = {"none": [], "this": [w.sock], "cancel socket": [cs], "both": [w.sock, cs]}[ready]
    w.sel.act = lambda r, x: ([s for s in sets if s in r], [s for s in sets if s in x], [])
    res, ex = run(c, w, op, timeout=timeout, cancel_socket=cs)
    r, x, tmo = w.sel.asked[0]
    c.prove("it waits once", len(w.sel.asked) == 1)
    c.prove("for the time given, or for ever", tmo == timeout if timeout > 0 else tmo is None)
    if op == "accept":
        c.prove("for the socket and the cancel socket", c.all(len(r) == (1 if cs is None else 2), w.sock in r, cs is None or cs in r, len(x) == 0))
    else:
        c.prove("for the socket to connect", c.all(len(x) == 1, x[0] is w.sock, len(r) == 0))
    if ready == "none":
        c.cover("timeout")
        c.prove("a timeout raises TimeoutError", isinstance(ex, TimeoutError))
        if op == "accept":
            c.prove("nothing is accepted", len(w.sock.calls) == 0)
    elif ready in ("cancel socket", "both"):
        c.prove("the cancel socket cancels", c.all(isinstance(ex, sh.CancelledError), len(w.sock.calls) == 0))
    elif w.sock.err:
        c.prove("a failed connection is an OSError", c.all(isinstance(ex, OSError), ex.errno == errno.ECONNREFUSED))
    else:
        c.cover("ready")
        c.prove("it completes", ex is None)
        if op == "accept":
            c.prove("with the connection", res is conn)
    c.prove("the lock is released", w.tok._lock.depth == 0)
    res, ex = c.exc(w.tok.cancel)
    c.prove("a finished operation is not cancelled", c.all(ex is None, len(w.sock.shut) == 0, w.sock.closed == 0))
