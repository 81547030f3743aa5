"""C22 Unix sockets are private to the user and the umask is always restored."""
from __future__ import annotations

import errno
import os
import socket
import tempfile

import ansibug._mp_queue as mpq
import ansibug._socket_helper as sh
from pyvc.api import harness

from specs.common import Fs, FsPath, fake_threading

PRIVATE = 0o700


class Stop(BaseException):
    """a KeyboardInterrupt and the like"""


class Sock:
    """a Unix domain socket; the file made by bind gets the mode of the socket less the umask"""

    family = socket.AF_UNIX

    def __init__(self, c, os_):
        self.c = c
        self.os = os_
        self.mode = 0o777
        self.closed = 0
        self.path = None
        self.conn = None
        self.sent = []

    def fileno(self):
        return 7

    def bind(self, addr):
        c = self.c
        if self.mode != PRIVATE:
            c.prove("only the owner may use the socket when it is bound", self.mode == 0o777 and self.os.mask == 0o077)
        self.os.fault("bind", (OSError(errno.EADDRINUSE, "in use"), OSError(errno.EINVAL, "invalid"), Stop()))
        self.path = addr
        self.os.files[addr] = True

    def listen(self, *a):
        pass

    def accept(self):
        return self.conn, ""

    def getsockname(self):
        return self.path

    def sendall(self, data):
        self.sent.append(data)

    def setblocking(self, flag):
        pass

    def settimeout(self, t):
        pass

    def recv_into(self, view, n=0):
        return 0

    def shutdown(self, how):
        self.os.fault("shutdown", (OSError(errno.ENOTCONN, "not connected"),))

    def close(self):
        self.closed += 1


class Os(Fs):
    """the umask, the modes and the files of the process"""

    def __init__(self, c, mask):
        self.c = c
        self.mask = mask
        self.files = {}
        self.cwd = "/cwd"
        self.sockets = []
        self.faults = ()
        self.raised = None
        self.where = None

    def fault(self, where, options):
        if where not in self.faults:
            return
        err = self.c.choose(where, (None,) + options)
        if err is not None:
            self.raised = err
            self.where = where
            self.c.cover(where)
            raise err

    def umask(self, mask):
        old = self.mask
        self.mask = mask if 0 <= mask and mask <= 0o777 else mask & 0o777
        return old

    def fchmod(self, fd, mode):
        self.fault("fchmod", (OSError(errno.EINVAL, "invalid"), OSError(errno.EPERM, "denied"), OSError(errno.ENOTSUP, "unsupported"), Stop()))
        self.sockets[0].mode = mode

    def chmod(self, path, mode, **k):
        pass

    def socket(self, *a):
        s = self.c.build(Sock, self.c, self)
        self.sockets.append(s)
        return s


ADDRS = ("uds:///run/user/1/ansibug sock", "uds:/run/x", "uds://ansibug-é", "uds://")


def world(c, faults):
    fake_threading(c)
    o = c.build(Os, c, c.int("umask", lo=0, hi=0o777))
    o.faults = faults
    tempfile.gettempdir()
    c.patch(mpq.pathlib, "Path", lambda *a: FsPath(o, *a))
    c.patch(os, "umask", lambda m: o.umask(m))
    c.patch(os, "fchmod", lambda fd, m: o.fchmod(fd, m))
    c.patch(os, "chmod", lambda p, m, **k: o.chmod(p, m))
    c.patch(os, "unlink", lambda p, **k: o.unlink(p))
    c.patch(os, "remove", lambda p, **k: o.unlink(p))
    c.patch(sh.socket, "socket", lambda *a: o.socket(*a))
    c.patch(sh.select, "select", lambda r, w, x, timeout=None: (r[:1], w[:1], []))
    return o


@harness(covers=("bound", "fchmod", "bind"), runs=300)
def create(c):
    """every failure of fchmod or bind"""
    o = world(c, ("fchmod", "bind"))
    before = o.mask
    res = None
    q = None
    try:
        q = mpq.ServerMPQueue(c.choose("addr", ADDRS), lambda: None)
    except (Exception, Stop) as e:
        res = e
    c.prove("the umask is the one before", o.mask == before)
    if q is None:
        c.prove("only failures of the system are raised", res is o.raised and res is not None, str(res))
        c.prove("nothing is bound", len(o.files) == 0)
    else:
        c.cover("bound")
        c.prove("a socket is bound", len(o.files) == 1 and o.sockets[0].path is not None)
        c.prove("a failed bind is reported", o.where != "bind")


@harness(covers=("accepted", "removed", "shutdown"), runs=300)
def remove(c):
    """the socket file is removed by stop, whatever happened before"""
    o = world(c, ())
    q = mpq.ServerMPQueue(c.choose("addr", ADDRS), lambda: None)
    o.faults = ("shutdown",)
    o.files["/other"] = True
    if c.flag("accepted"):
        c.cover("accepted")
        o.sockets[0].conn = c.build(Sock, c, o)
        q.start(timeout=1)
    if c.flag("removed"):
        c.cover("removed")
        o.unlink(o.sockets[0].path)
    q.stop()
    c.prove("the socket file is removed", o.sockets[0].path not in o.files)
    c.prove("no other file is", "/other" in o.files)
    c.prove("the socket is closed", o.sockets[0].closed >= 1)
    q.stop()
    c.prove("stopping again does no harm", "/other" in o.files)
