"""The environment of the debug adapter server: client streams, queues, TLS, files."""
from __future__ import annotations

import logging
import os
import ssl
import threading

import ansibug._debug_adapter as da
import ansibug._debuggee as dbg
import ansibug._tls as tls
from ansibug import dap

from specs.common import DIR, Blocked, Fs, FsPath, fake_threading


class Frames:
    """framed messages on their way to the client"""

    def __init__(self, msgs):
        self.msgs = msgs

    def decode(self, *a, **k):
        return "frames"


class Adapter:
    """contract of DebugAdapterConnection (C01, C02): numbers queued messages, hands
    each of them on once, returns the received ones in order"""

    def __init__(self, w):
        self.w = w

    def queue_msg(self, msg):
        w = self.w
        w.step("queue")
        w.seq += 1
        msg.seq = w.seq
        w.pending.append(msg)
        return msg.seq

    def data_to_send(self, n=-1):
        w = self.w
        w.step("take")
        msgs = list(w.pending)
        w.pending.clear()
        return Frames(msgs)

    def receive_data(self, data):
        self.w.received(data)

    def next_message(self):
        return self.w.next_message()


class Out:
    def __init__(self, w):
        self.w = w

    def write(self, data):
        self.w.step("write")
        for m in data.msgs:
            self.w.wrote(m)
            self.w.unflushed += 1
        return 1

    def flush(self):
        self.w.unflushed = 0


class In:
    def __init__(self, w):
        self.w = w

    def read(self, n=-1):
        return self.w.read(n)

    def read1(self, n=-1):
        return self.w.read(n)


class Std:
    def __init__(self, buffer):
        self.buffer = buffer

    def flush(self):
        pass


class Raw:
    def __init__(self, raw):
        self.raw = raw

    def read1(self, n=-1):
        return self.raw.read(n)

    def read(self, n=-1):
        return self.raw.read(n)


class Sys:
    executable = "/usr/bin/py thon"

    def __init__(self, w):
        self.stdin = Std(Raw(In(w)))
        self.stdout = Std(Out(w))
        self.stderr = Std(Out(w))


class Link:
    """contract of ClientMPQueue / ServerMPQueue (C16)"""

    def __init__(self, w, kind, address, proto, ssl_context=None, cancel_token=None):
        self.w = w
        self.kind = kind
        self.given = address
        self.address = "uds:///run/%s%d" % (kind, len(w.links)) if address == "uds://" else address
        self.make_proto = proto
        self.ssl_context = ssl_context
        self.started = 0
        self.stopped = 0
        self.closed = 0
        self.fails = None
        self.send_fails = None
        self.timeout = None
        self.cancel_queue = None

    def __enter__(self):
        return self

    def __exit__(self, *a, **k):
        self.stop()

    def start(self, timeout=0, cancel_queue=None):
        self.w.log.append(("start", self))
        self.timeout = timeout
        self.cancel_queue = cancel_queue
        if self.fails is not None:
            raise self.fails
        self.started += 1

    def send(self, msg):
        if self.send_fails is not None:
            raise self.send_fails
        self.w.log.append(("send", self, msg))
        if self.w.reply is not None:
            # the debuggee answers at once
            r = self.w.reply
            self.w.reply = None
            r()

    def stop(self):
        self.w.log.append(("stop", self))
        self.stopped += 1
        if self.started and not self.closed:
            # the receiving thread ends, stop waits for it
            for l in self.w.locks:
                if l.depth:
                    raise Blocked()
            self.closed += 1
            self.make_proto().connection_closed(None)


class Lock:
    """a lock of the adapter (one thread runs; `passes` counts the critical sections)"""

    def __init__(self, w, again):
        self.w = w
        self.again = again
        self.depth = 0
        self.passes = 0
        self.sends = 0
        self.mark = 0
        w.locks.append(self)

    def acquire(self, *a, **k):
        if self.depth and not self.again:
            raise Blocked()
        if self.depth == 0:
            self.passes += 1
        self.depth += 1
        return True

    def release(self):
        if self.depth <= 0:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class World:
    """what the adapter server does, in order"""

    def __init__(self, c):
        self.c = c
        self.locks = []
        self.log = []
        self.links = []
        self.pending = []
        self.unflushed = 0
        self.seq = 0
        self.feed = []
        self.left = []
        self.eof = 0
        self.connect_fails = None
        self.accept_fails = None
        self.answers = None
        self.react = None
        self.reply = None
        self.at_end = None

    def step(self, what):
        pass

    def wrote(self, m):
        self.log.append(("out", m))

    def received(self, data):
        pass

    def read(self, n):
        self.c.prove("the read loop ends at the end of input", self.eof == 0)
        if len(self.feed) == 0:
            if self.react is not None:
                self.react()
                self.react = None
            if self.at_end is not None:
                raise self.at_end
            self.eof += 1
            return b""
        self.left.append(self.feed.pop(0))
        return b"data"

    def next_message(self):
        if len(self.left) == 0:
            return None
        m = self.left.pop(0)
        if m is self.answers:
            # the client's answer to the last request of the adapter
            m.request_seq = self.seq
        return m

    def link(self, kind, *a, **k):
        x = self.c.build(Link, self, kind, *a, **k)
        x.fails = self.connect_fails if kind == "client" else self.accept_fails
        self.links.append(x)
        return x

    def outs(self):
        return [x[1] for x in self.log if x[0] == "out"]

    def sends(self):
        return [x[2] for x in self.log if x[0] == "send"]


def adapter_world(c, cls=World):
    fake_threading(c)
    w = c.build(cls, c)
    c.external(threading, "RLock", lambda *a: c.build(Lock, w, True))
    c.external(threading, "Lock", lambda *a: c.build(Lock, w, False))
    c.patch(da.dap, "DebugAdapterConnection", lambda: c.build(Adapter, w))
    c.patch(da, "sys", c.build(Sys, w))
    c.patch(da, "ClientMPQueue", lambda *a, **k: w.link("client", *a, **k))
    c.patch(da, "ServerMPQueue", lambda *a, **k: w.link("server", *a, **k))
    return w


class Tls:
    """an SSLContext"""

    def __init__(self, purpose):
        self.purpose = purpose
        self._hostname = purpose == "server_auth"
        self._mode = ssl.VerifyMode.CERT_REQUIRED if purpose == "server_auth" else ssl.VerifyMode.CERT_NONE
        self.default_trust = purpose == "server_auth"
        self.ca_files = []
        self.ca_paths = []
        self.certs = []

    @property
    def check_hostname(self):
        return self._hostname

    @check_hostname.setter
    def check_hostname(self, v):
        self._hostname = bool(v)
        if v and self._mode == ssl.VerifyMode.CERT_NONE:
            self._mode = ssl.VerifyMode.CERT_REQUIRED

    @property
    def verify_mode(self):
        return self._mode

    @verify_mode.setter
    def verify_mode(self, v):
        if v == ssl.VerifyMode.CERT_NONE and self._hostname:
            raise ValueError("Cannot set verify_mode to CERT_NONE when check_hostname is enabled.")
        self._mode = v

    def load_default_certs(self, *a):
        self.default_trust = True

    def set_default_verify_paths(self):
        self.default_trust = True

    def load_verify_locations(self, cafile=None, capath=None, cadata=None):
        if cafile is not None:
            self.ca_files.append(cafile)
        if capath is not None:
            self.ca_paths.append(capath)

    def load_cert_chain(self, certfile, keyfile=None, password=None):
        self.certs.append((certfile, keyfile, password))


def tls_world(c):
    """ssl contexts and a file system"""
    fs = c.build(Fs)

    def default_context(purpose=ssl.Purpose.SERVER_AUTH, cafile=None, capath=None, cadata=None):
        t = c.build(Tls, "server_auth" if purpose == ssl.Purpose.SERVER_AUTH else "client_auth")
        if cafile is not None or capath is not None:
            t.default_trust = False
            t.load_verify_locations(cafile, capath)
        return t

    def context(protocol=None):
        t = c.build(Tls, "server_auth" if protocol == ssl.PROTOCOL_TLS_CLIENT else "client_auth")
        t.default_trust = False
        return t

    c.patch(tls.ssl, "create_default_context", default_context)
    c.patch(tls.ssl, "SSLContext", context)
    c.patch(tls.pathlib, "Path", lambda *a: FsPath(fs, *a))
    c.patch(os.path, "isdir", lambda p: FsPath(fs, p).is_dir())
    c.patch(os.path, "isfile", lambda p: FsPath(fs, p).is_file())
    c.patch(os.path, "exists", lambda p: FsPath(fs, p).exists())
    return fs
