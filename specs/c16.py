"""C16 the adapter-debuggee queue delivers messages whole, in order, and closes once."""
from __future__ import annotations

import errno
import pickle
import socket
import ssl
import threading

import ansibug._mp_queue as mpq
import ansibug._socket_helper as sh
from ansibug import dap
from pyvc.api import harness

from specs.common import Blocked, fake_threading


class Garbage(Exception):
    """pickle.loads of something that is not a message"""


class Fault(Exception):
    """handling a message fails"""


class Proto(mpq.MPProtocol):
    """the receiving side: checks each message as it arrives"""

    def __init__(self, c, wire):
        self.c = c
        self.wire = wire
        self.count = 0
        self.closed = 0
        self.exp = None

    def on_msg_received(self, msg):
        self.c.prove("nothing is handed on after the end", self.closed == 0)
        self.count += 1
        self.c.prove("messages arrive whole and in order", self.wire.is_message(msg, self.count))
        if self.c.flag("handling_fails"):
            self.wire.fault = Fault()
            self.wire.cause = "error"
            raise self.wire.fault

    def connection_closed(self, exp):
        self.closed += 1
        self.exp = exp


ENDS = ("data", "eof", "error", "cancel")


class Wire:
    """(for all streams) the peer's end of the socket.  Frame number `idx` begins at
    `start` with 4 bytes of length; the bytes up to `pos` were read."""

    family = socket.AF_INET

    def __init__(self, c, at):
        self.c = c
        self.pos = at
        self.start = at
        self.idx = 0
        self.size = c.ints("size", 1, 2**32 - 1)
        self.obj = None
        self.cause = None
        self.fault = None
        self.token = None
        self.partial = False

    def is_message(self, msg, count):
        return self.c.all(msg is self.obj, count == self.idx)

    @property
    def end(self):
        return self.start + 4 + self.size(self.idx)

    def recv_into(self, view, n):
        c = self.c
        c.assume(self.cause is None or self.cause == "eof")
        room = n if len(view) >= n else len(view)
        c.prove("something is read", room > 0)
        how = c.choose("recv", ENDS) if self.cause is None else "eof"
        if how == "eof":
            self.cause = "eof"
            self.partial = self.pos != self.start
            return 0
        if how != "data":
            self.cause = how
            if how == "cancel":
                self.token.cancel()
                if c.flag("cancelled_read"):
                    return 0
            self.fault = ConnectionResetError(errno.ECONNRESET, "reset")
            raise self.fault
        k = c.int("got", lo=1)
        c.assume(c.all(k <= room, k <= self.end - self.pos))
        view.fill(self.pos, k)
        self.pos += k
        return k

    def text(self, base, size):
        """the bytes [base, base + size) of the stream"""
        c = self.c
        if c.all(base == self.start, size == 4):
            return c.number(self.size(self.idx), 4)
        if c.all(base == self.start + 4, base + size == self.end):
            return c.span("payload", size, "message")
        return c.span("piece", size, None)

    def loads(self, data):
        c = self.c
        if c.meta(data) != "message" or c.flag("undecodable"):
            if self.cause is None:
                self.cause = "error"
            self.fault = Garbage()
            raise self.fault
        self.start = self.end
        self.idx += 1
        self.obj = c.build(dap.ThreadsRequest)
        return self.obj

    def shutdown(self, how):
        pass

    def close(self):
        pass


class Buf:
    """bytearray(n): filled from the stream position at its creation"""

    def __init__(self, c, wire, n):
        self.c = c
        self.wire = wire
        self.n = n
        self.base = wire.pos
        self.filled = 0

    def __len__(self):
        return self.n

    def _len_(self):
        return self.n

    def _memoryview_(self):
        return View(self, 0)

    def __getitem__(self, idx):
        return Slice(self, idx.start or 0, self.n if idx.stop is None else idx.stop)


class View:
    def __init__(self, buf, off):
        self.buf = buf
        self.off = off

    def _len_(self):
        return self.buf.n - self.off

    def __getitem__(self, idx):
        return View(self.buf, self.off + (idx.start or 0))

    def fill(self, pos, k):
        b = self.buf
        b.c.prove("the pieces are put together in order", b.c.all(self.off == b.filled, pos == b.base + self.off, self.off + k <= b.n))
        b.filled += k


class Slice:
    def __init__(self, buf, lo, hi):
        self.buf = buf
        self.lo = lo
        self.hi = hi

    def _as_text_(self):
        b = self.buf
        b.c.prove("only received bytes are used", b.c.all(self.lo == 0, self.hi <= b.filled))
        return b.wire.text(b.base, self.hi)


class Stream:
    """(for sampled streams) the peer's end of the socket, on real bytes"""

    family = socket.AF_INET

    def __init__(self, c):
        self.c = c
        self.msgs = [c.choose("msg", MSGS) for x in range(c.int("n_msgs", lo=0, hi=4))]
        self.data = b""
        self.bounds = [0]
        for m in self.msgs:
            b = pickle.dumps(m)
            self.data += len(b).to_bytes(4, "little") + b
            self.bounds.append(len(self.data))
        self.bad = None
        if self.msgs and c.flag("undecodable"):
            i = c.int("bad", lo=0, hi=len(self.msgs) - 1)
            at = self.bounds[i] + 4
            self.data = self.data[:at] + b"\xff" + self.data[at + 1 :]
            self.bad = i
        self.how = c.choose("recv", ENDS[1:])
        self.stop = c.choose("stop", (len(self.data), c.int("cut", lo=0, hi=len(self.data))))
        self.pos = 0
        self.cause = None
        self.fault = None
        self.token = None
        self.partial = False

    def is_message(self, msg, count):
        if self.bad is not None and count > self.bad:
            return False
        return msg == self.msgs[count - 1] and self.pos >= self.bounds[count]

    def recv_into(self, view, n):
        c = self.c
        room = min(n, len(view))
        if self.pos >= self.stop:
            if self.cause is None:
                self.cause = self.how
                self.partial = self.pos not in self.bounds
            if self.cause == "eof":
                return 0
            if self.how == "cancel":
                self.token.cancel()
                if c.flag("cancelled_read"):
                    return 0
            self.fault = ConnectionResetError(errno.ECONNRESET, "reset")
            raise self.fault
        k = min(room, self.stop - self.pos, c.int("got", lo=1, hi=40))
        view[:k] = self.data[self.pos : self.pos + k]
        self.pos += k
        return k

    def shutdown(self, how):
        pass

    def close(self):
        pass


MSGS = (
    dap.ThreadsRequest(),
    dap.ContinueRequest(thread_id=4),
    dap.OutputEvent(category="console", output="é" * 80, data={"a": [1, 2]}),
    dap.ErrorResponse(command=dap.Command.NEXT, request_seq=1, message="x\n" * 300),
)


def receiver(c):
    fake_threading(c)
    tok = sh.SocketCancellationToken()
    if c.sym:
        wire = c.build(Wire, c, c.int("at", lo=0))
        c.buffers(lambda n: Buf(c, wire, n))
        c.model(pickle.loads, lambda b: wire.loads(b))
    else:
        wire = Stream(c)
    wire.token = tok
    proto = c.build(Proto, c, wire)
    q = mpq.MPQueue(sh.SocketHelper("test", wire), lambda: proto, tok)
    return q, proto, wire, tok


@harness(covers=("eof", "error", "cancel"), runs=400, engine={"unroll": 2})
def receiving(c):
    """any number of messages, any split of the bytes, any end"""
    q, proto, wire, tok = receiver(c)
    q._recv_handler()
    c.prove("the connection is closed exactly once", proto.closed == 1)
    if not c.sym and wire.bad is not None and wire.cause is None and proto.count == wire.bad:
        wire.cause = "error"
    c.prove("receiving does not end by itself", wire.cause is not None, "" if wire.cause else type(proto.exp).__name__ + " " + str(proto.exp))
    c.cover(wire.cause)
    if wire.cause == "cancel":
        c.prove("a cancellation is no error", proto.exp is None)
    elif wire.cause == "eof":
        if not wire.partial:
            c.prove("a clean end is no error", proto.exp is None or wire.fault is not None)
    else:
        c.prove("an error is passed on", proto.exp is not None)
        if wire.fault is not None and not isinstance(wire.fault, Garbage):
            c.prove("it is the one that occurred", proto.exp is wire.fault)
    if not c.sym and wire.cause == "eof" and not wire.partial and wire.bad is None and proto.exp is None:
        c.prove("every message arrived", proto.count == wire.bounds.index(wire.pos))


class Out:
    family = socket.AF_INET

    def __init__(self):
        self.sent = []
        self.shut = 0
        self.closed = 0

    def sendall(self, data):
        self.sent.append(data)

    def recv_into(self, view, n):
        self.sent.append(("read", n))
        return n

    def shutdown(self, how):
        self.shut += 1

    def close(self):
        self.closed += 1


def joined(parts):
    out = b""
    for p in parts:
        out = out + p
    return out


@harness(runs=60)
def sending(c):
    """what is written is the length followed by the message"""
    fake_threading(c)
    tok = sh.SocketCancellationToken()
    out = c.build(Out)
    q = mpq.MPQueue(sh.SocketHelper("test", out), lambda: None, tok)
    m1 = dap.OutputEvent(category="console", output=c.text("text", cands=["", "x", "é" * 300]))
    m2 = dap.ThreadsRequest()
    if c.sym:
        n1 = c.int("n1", lo=1, hi=2**32 - 1)
        n2 = c.int("n2", lo=1, hi=2**32 - 1)
        d1 = c.span("d1", n1, None)
        d2 = c.span("d2", n2, None)
        c.model(pickle.dumps, lambda m: d1 if m is m1 else d2)
    else:
        d1 = pickle.dumps(m1)
        d2 = pickle.dumps(m2)
        n1 = len(d1)
        n2 = len(d2)
    q.send(m1)
    w1 = b"".join(out.sent)
    c.prove("a message is written as its length and itself", w1 == n1.to_bytes(4, "little") + d1)
    q.send(m2)
    w2 = b"".join(out.sent)
    c.prove("messages follow each other", w2 == w1 + n2.to_bytes(4, "little") + d2)
    q.stop()
    c.prove("stopping closes the socket", out.closed == 1)
    cancelled = False
    try:
        q.send(m1)
    except mpq.CancelledError:
        cancelled = True
    c.prove("nothing is sent once cancelled", cancelled and b"".join(out.sent) == w2)


class Peer:
    """a socket of one side during the connection setup"""

    def __init__(self, c, name, log, family=socket.AF_INET):
        self.c = c
        self.name = name
        self.log = log
        self.family = family
        self.fails = None
        self.conn = None
        self.tls = None
        self.closed = 0
        self.sent = []

    def connect(self, addr):
        self.log.append(("connect", self, addr))
        if self.fails is not None:
            raise self.fails

    def accept(self):
        self.log.append(("accept", self))
        return self.conn(), "addr"

    def recv_into(self, view, n=0):
        self.log.append(("read", self, n))
        return n

    def sendall(self, data):
        self.log.append(("write", self, data))

    def setblocking(self, flag):
        pass

    def getsockopt(self, level, opt):
        return 0

    def shutdown(self, how):
        pass

    def close(self):
        self.closed += 1
        self.log.append(("close", self))


class Tls:
    """an ssl context; a handshake may fail"""

    def __init__(self, c, log, handshake):
        self.c = c
        self.log = log
        self.handshake = handshake

    def wrap_socket(self, sock, server_side=False, server_hostname=None):
        self.log.append(("tls", sock, server_side, server_hostname))
        err = self.handshake()
        if err is not None:
            raise err
        t = self.c.build(Peer, self.c, "tls", self.log)
        t.tls = sock
        return t


class Sel:
    def select(self, r, w, x, timeout=None):
        return r[:1], w[:1], []


def setup(c):
    fake_threading(c)
    sel = c.build(Sel)
    c.patch(mpq.socket, "has_dualstack_ipv6", lambda: True)
    c.patch(sh.select, "select", lambda *a: sel.select(*a))


@harness(covers=("first", "second", "third", "none", "tls"), runs=200)
def client(c):
    """connecting: the first address that accepts, then one byte is read"""
    setup(c)
    log = []
    made = []

    def new_socket(*a):
        s = c.build(Peer, c, "s", log)
        s.fails = errors[len(made) - 1] if made else None
        made.append(s)
        return s

    c.patch(mpq.socket, "socket", new_socket)
    n = c.choose("n", (0, 1, 2, 3))
    errors = [c.choose("connect", (None, OSError(1, "a"))) for _ in range(n)]
    infos = [(socket.AF_INET, socket.SOCK_STREAM, 6, "", ("addr%d" % i, i)) for i in range(n)]
    asked = []

    def getaddrinfo(host, port, family=0, type=0):
        asked.append((host, port))
        return infos

    c.patch(mpq.socket, "getaddrinfo", getaddrinfo)
    err = c.choose("handshake", (None, ssl.SSLError("no")))
    ctx = c.build(Tls, c, log, lambda: err) if c.flag("tls") else None
    q = mpq.ClientMPQueue("tcp://host.name:1234", lambda: None, ssl_context=ctx)
    res = None
    try:
        q.start(timeout=3)
    except Exception as e:
        res = e
    c.prove("the given host and port is connected to", asked == [("host.name", 1234)])
    ok = None
    for i in range(n):
        if errors[i] is None:
            ok = i
            break
    tries = [x for x in log if x[0] == "connect"]
    want = n if ok is None else ok + 1
    c.prove("addresses are tried in order until one accepts", [x[2] for x in tries] == [x[4] for x in infos[:want]])
    started = q._recv_thread is not None
    reads = [x for x in log if x[0] == "read"]
    if ok is None:
        c.cover("none")
        c.prove("no address accepts: an error", isinstance(res, OSError) and not started)
        if n:
            c.prove("it is the last one", res is errors[n - 1])
        return
    sock = made[1 + ok]
    c.cover(("first", "second", "third")[ok])
    c.prove("sockets that failed are closed", all(s.closed == 1 for s in made[1 : 1 + ok]))
    if ctx is not None:
        c.cover("tls")
        hs = [x for x in log if x[0] == "tls"]
        c.prove("TLS is used on the connection as a client for the host", len(hs) == 1 and hs[0][1] is sock and hs[0][2] is False and hs[0][3] == "host.name")
        if err is not None:
            c.prove("a failed handshake is an error", res is err and not started and not reads)
            return
    c.prove("it starts", res is None and started and q._recv_thread.started == 1)
    c.prove("exactly the one byte of the server is read first", len(reads) == 1 and reads[0][2] == 1)
    c.prove("from the connection", (reads[0][1].tls is sock) if ctx is not None else reads[0][1] is sock)


@harness(covers=("plain", "tls", "tls_retry"), runs=200)
def server(c):
    """accepting: exactly one byte is sent once the connection is ready"""
    setup(c)
    log = []
    conns = []

    def accept():
        s = c.build(Peer, c, "conn", log)
        conns.append(s)
        return s

    lst = c.build(Peer, c, "listen", log)
    lst.conn = accept
    c.patch(mpq.socket, "create_server", lambda *a, **k: lst)
    fails = c.choose("fails", (0, 1, 2))
    left = [ssl.SSLError("no") for _ in range(fails)]
    ctx = c.build(Tls, c, log, lambda: left.pop() if left else None) if c.flag("tls") else None
    q = mpq.ServerMPQueue("tcp://:0", lambda: None, ssl_context=ctx)
    q.start(timeout=3)
    conn = conns[len(conns) - 1]
    c.prove("it starts", q._recv_thread is not None and q._recv_thread.started == 1)
    writes = [x for x in log if x[0] == "write"]
    c.prove("exactly one byte is sent first", b"".join([x[2] for x in writes]) == b"\0")
    c.prove("nothing is read", len([x for x in log if x[0] == "read"]) == 0)
    c.prove("no other client can connect", lst.closed == 1)
    used = q._socket._sock
    if ctx is None:
        c.cover("plain")
        c.prove("the connection is used", len(conns) == 1 and used is conn and writes[0][1] is conn)
    else:
        c.cover("tls_retry" if fails else "tls")
        c.prove("the connection whose handshake succeeded is used", used.tls is conn and writes[0][1] is used and conn.closed == 0)
        c.prove("a failed handshake waits for another client", len(conns) == fails + 1 and all(s.closed == 1 for s in conns[:fails]))
        c.prove("as the server", all(x[2] is True for x in log if x[0] == "tls"))
