"""C25 the debuggee cleans up after itself and never blocks the play on shutdown.

The sending thread and the main thread are run in one: where the sending thread
waits (for the connection, or for a message) the main thread acts, and where that one
joins the sending thread it is checked that what it left lets the thread end.
"""
from __future__ import annotations

import json
import os
import queue
import threading

import ansibug._debuggee as dbg
from ansibug import dap
from pyvc.api import harness

from specs.c12 import cleared, client_data
from specs.common import Blocked, FakeQueue, FakeThread, Fs, FsPath, fake_json, fake_threading, req

TEXTS = ["x.yml", "/a b/é.yml", "a'b\"c", "", "tcp://[::1]:5", "uds:///x"]


class Fault(Exception):
    """any failure of the connection"""


class Token:
    def __init__(self, *a):
        self.cancelled = 0

    def cancel(self):
        self.cancelled += 1


class Link:
    """the connection to the debug adapter (contract of MPQueue)"""

    def __init__(self, w, kind, address, proto, ssl_context, cancel_token):
        self.w = w
        self.kind = kind
        self.given = address
        self.address = w.c.text("bound", nonempty=True, cands=TEXTS[4:]) if kind == "listen" else address
        self.proto = proto
        self.ssl_context = ssl_context
        self.token = cancel_token
        self.started = 0
        self.stopped = 0
        w.links.append(self)

    def start(self, timeout=None):
        c = self.w.c
        c.prove("it is started once", self.started == 0 and self.stopped == 0)
        self.started += 1
        if self.w.waits is not None:
            act = self.w.waits
            self.w.waits = None
            act(self)
        if self.token is not None and self.token.cancelled > 0:
            raise dbg.CancelledError()
        err = self.w.connects
        if err is not None:
            raise err

    def send(self, msg):
        self.w.c.prove("messages are sent while connected", self.started == 1 and self.stopped == 0)
        self.w.sent(msg)

    def stop(self):
        self.stopped += 1
        err = self.w.stops
        if err is not None:
            raise err


class Strategy:
    """the strategy that runs, if it is asked to resume"""

    def __init__(self, d):
        self.d = d
        self.resumed = []

    def disconnect(self, request):
        self.resumed.append(request)


class World:
    def __init__(self, c):
        self.c = c
        self.links = []
        self.threads = []
        self.connects = None
        self.stops = None
        self.waits = None
        self.pending = None
        self.sends = 0

    def sent(self, m):
        pass


class Sender(FakeThread):
    """the sending thread; join checks that it ends"""

    def __init__(self, target=None, args=(), kwargs=None, name=None, daemon=None):
        self.target = target
        self.args = args
        self.kwargs = kwargs
        self.started = 0
        self.joined = 0
        self.connected = False
        self.ended = False
        self.joins = None

    def start(self):
        self.started += 1

    def join(self, timeout=None):
        self.joined += 1
        if self.started == 0:
            raise RuntimeError("cannot join thread before it is started")
        if self.joins is not None:
            self.joins()

    def run(self):
        if self.kwargs is None:
            self.target(*self.args)
        else:
            self.target(*self.args, **self.kwargs)
        self.ended = True


def world(c, kind=World):
    fake_threading(c)
    fake_json(c)
    w = c.build(kind, c)
    fs = c.build(Fs)
    w.fs = fs
    w.pid = c.int("pid", lo=1)

    def thread(*a, **k):
        t = c.build(Sender, *a, **k)
        w.threads.append(t)
        return t

    c.external(threading, "Thread", thread)
    c.patch(os, "getpid", lambda: w.pid)
    c.patch(dbg.pathlib, "Path", lambda *a: FsPath(fs, *a))
    c.patch(os, "environ", {"TMPDIR": "/tmp/other dir"} if c.flag("tmpdir") else {})
    c.patch(dbg, "SocketCancellationToken", Token)
    c.patch(dbg, "ClientMPQueue", lambda address, proto, ssl_context=None, cancel_token=None: c.build(Link, w, "connect", address, proto, ssl_context, cancel_token))
    c.patch(dbg, "ServerMPQueue", lambda address, proto, ssl_context=None, cancel_token=None: c.build(Link, w, "listen", address, proto, ssl_context, cancel_token))
    d = c.new(dbg.AnsibleDebugger)
    dbg.AnsibleDebugger.__init__(d)
    return w, d


MODES = ("connect", "listen")


@harness(covers=("connect", "listen"), runs=200)
def process_info(c):
    w, d = world(c)
    fs = w.fs
    mode = c.choose("mode", MODES)
    addr = c.text("address", nonempty=True, cands=TEXTS[4:])
    tls = object() if c.flag("tls") else None
    playbook = c.text("playbook", cands=TEXTS) if c.flag("playbook?") else None
    fs.files["/tmp/other"] = "x"
    res = d.start(addr, mode, ssl_context=tls, playbook_file=playbook)
    link = w.links[0]
    c.prove("there is one queue, of the mode", len(w.links) == 1 and link.kind == mode)
    c.prove("at the address", link.given == addr)
    c.prove("the address used is returned", res == link.address)
    c.prove("with TLS as given", link.ssl_context is tls)
    c.prove("the sending thread is started", len(w.threads) == 1 and w.threads[0].started == 1)
    path = dbg.get_pid_info_path(w.pid)
    c.cover(mode)
    c.prove("the file is written exactly in listen mode", path.exists() == (mode == "listen"))
    if mode == "listen":
        c.prove("and no other", len(fs.files) == 2)
        info = dbg.PlaybookProcessInfo.from_json(json.loads(path.read_text()))
        c.prove("with the pid", info.pid == w.pid)
        c.prove("with the bound address", info.address == link.address)
        c.prove("with the TLS setting", info.use_tls is (tls is not None))
        c.prove("with the playbook", info.playbook_file is None if playbook is None else info.playbook_file == playbook)
    else:
        c.prove("and no other", len(fs.files) == 1)
    if mode == "listen" and c.flag("gone"):
        path.unlink()
    t = w.threads[0]
    d.shutdown()
    c.prove("the sending thread is waited for", t.joined == 1)
    c.prove("shutdown removes the file", not path.exists())
    c.prove("and no other", "/tmp/other" in fs.files and len(fs.files) == 1)


def strategy(c, d):
    st = c.build(Strategy, d)
    return st


def check_clean(c, d, st, running, terminated):
    cleared(c, d)
    c.prove("the wait for the configuration is released", d._configuration_done.flag)
    if running and not terminated:
        c.prove("the strategy is resumed once", len(st.resumed) == 1)
        r = st.resumed[0]
        c.prove("and not ended", isinstance(r, dap.DisconnectRequest) and not r.terminate_debuggee)
    else:
        c.prove("a terminated strategy is not resumed", len(st.resumed) == 0)
    c.prove("no lock is kept", d._strategy_connected.depth == 0)


@harness(covers=("connect", "listen", "resumed", "terminated"), runs=200)
def unconnected(c):
    """shutdown while the sending thread waits for the connection"""
    w, d = world(c)
    mode = c.choose("mode", MODES)
    c.cover(mode)
    d.start("tcp://x", mode)
    client_data(c, d)
    t = w.threads[0]
    link = w.links[0]
    n = c.seq("queued", lambda k: dap.InitializedEvent())
    d._send_queue.items.extend(n)
    st = strategy(c, d)
    running = c.flag("running")
    terminated = c.flag("terminated")
    c.put(d, _terminated=terminated)
    if running and not terminated:
        c.cover("resumed")
    if terminated:
        c.cover("terminated")

    def ends():
        if link.token is None or link.token.cancelled == 0:
            raise Blocked()

    def act(link):
        t.joins = ends
        if running:
            c.put(d, _strategy=st)
        d.shutdown()
        check_clean(c, d, st, running, terminated)
        c.prove("the thread is waited for", t.joined == 1)

    w.waits = act
    w.stops = None
    t.run()
    c.prove("the sending thread ends", t.ended)
    c.prove("and stops the queue", link.stopped == 1)
    c.prove("it was cancelled", link.token.cancelled == 1)
    t.joins = None
    d.shutdown()
    c.prove("shutdown can be repeated", t.joined == 1)


class Busy(World):
    """a connection over which messages go, with a failure at any one"""

    def sent(self, m):
        c = self.c
        c.prove("messages are sent in order", m is self.pending)
        self.pending = None
        self.sends += 1
        if c.flag("send fails"):
            c.cover("failed")
            raise Fault("x")


class Messages(FakeQueue):
    """any number of messages, then the main thread's shutdown"""

    def get(self, block=True, timeout=None):
        w = self.w
        c = w.c
        c.prove("every message is sent before the next is taken", w.pending is None)
        if c.flag("more"):
            w.pending = dap.InitializedEvent()
            return w.pending
        c.cover("end")
        if len(self.items) == 0:
            w.act()
        m = self.items.pop(0)
        c.prove("the end marker is the last", m is None and len(self.items) == 0)
        return m


@harness(covers=("failed", "end"), runs=200)
def connected(c):
    """shutdown by the main thread while the sending thread waits for a message, or a
    failure while sending"""
    w, d = world(c, Busy)
    d.start("tcp://x", c.choose("mode", MODES))
    client_data(c, d)
    t = w.threads[0]
    link = w.links[0]
    q = c.build(Messages)
    q.w = w
    c.put(d, _send_queue=q)
    st = strategy(c, d)
    running = c.flag("running")
    terminated = c.flag("terminated")
    c.put(d, _terminated=terminated)

    def ends():
        # the sending thread is connected and waits in the queue
        if len(q.items) == 0:
            raise Blocked()

    def act():
        t.joins = ends
        if running:
            c.put(d, _strategy=st)
        d.shutdown()
        check_clean(c, d, st, running, terminated)
        c.prove("the connection is not cut while messages are sent", link.token.cancelled == 0)
        c.prove("the thread is waited for", t.joined == 1)

    w.act = act
    t.run()
    c.prove("the sending thread ends", t.ended)
    c.prove("and stops the queue", link.stopped == 1)


@harness(covers=("refused", "cancelled"), runs=100)
def no_connection(c):
    """the connection fails, then the play ends"""
    w, d = world(c, Busy)
    d.start("tcp://x", c.choose("mode", MODES))
    t = w.threads[0]
    link = w.links[0]
    w.connects = c.choose("how", (ConnectionRefusedError(111, "x"), dbg.CancelledError(), TimeoutError("x"), OSError(5, "x")))
    c.cover("cancelled" if isinstance(w.connects, dbg.CancelledError) else "refused")
    t.run()
    c.prove("the sending thread ends", t.ended)
    c.prove("and stops the queue", link.stopped == 1 and w.sends == 0)
    d.shutdown()
    c.prove("the thread is waited for", t.joined == 1)
    c.prove("the wait for the configuration is released", d._configuration_done.flag)


@harness(covers=("resumed", "terminated"), runs=200)
def closed(c):
    """the adapter closed the connection: the receiving thread cleans up"""
    w, d = world(c)
    d.start("tcp://x", "listen")
    t = w.threads[0]
    link = w.links[0]
    client_data(c, d)
    st = strategy(c, d)
    running = c.flag("running")
    terminated = c.flag("terminated")
    if running:
        c.put(d, _strategy=st)
    c.put(d, _terminated=terminated)
    if running and not terminated:
        c.cover("resumed")
    if terminated:
        c.cover("terminated")
    proto = link.proto()
    proto.connection_closed(Fault("x") if c.flag("exp") else None)
    check_clean(c, d, st, running, terminated)
    c.prove("it does not wait for the sending thread, which waits for it", t.joined == 0)
    c.prove("the file is removed", not dbg.get_pid_info_path(w.pid).exists())
    # then the play ends
    c.put(d, _strategy=None)
    d.shutdown()
    c.prove("the sending thread is waited for", t.joined == 1)
    c.prove("it is told to end", d._send_queue.items[len(d._send_queue.items) - 1] is None)
    c.prove("the strategy is not resumed again", len(st.resumed) == (1 if running and not terminated else 0))
