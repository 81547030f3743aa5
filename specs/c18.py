"""C18 socket addresses parse to what they denote and format back to the same address."""
from __future__ import annotations

import os
import pathlib
import socket
import tempfile
import urllib.parse

import ansibug._mp_queue as mpq
import ansibug._socket_helper as sh
from pyvc.api import harness

from specs import urls
from specs.common import Fs, FsPath, fake_threading

LOWER = "abcdefghijklmnopqrstuvwxyz0123456789.-_"
HOSTS = ["localhost", "192.168.1.0", "a-b.example", "x", "0.0.0.0"]
V6 = ["::1", "::", "fe80::1%eth0", "2001:db8::1", "fe80::1%Eth-é"]
NAMES = ["ansibug-dap-sock", "a b", "sock.1", "é", "a:b", "A?b", "x#1", "tcp:", "a[b", "a%20b", "@", "x\ty", " ", "℀"]
PATHS = ["tmp/ansibug dap", "run/user/1000/sock", "tmp/a?b", "tmp/#x/y", "a:b", "a@b", "x//y", "a[b", "a]", "é%41", "x\n", "tmp/x ", "tmp/x/"]
TMP = ["/tmp", "/var/t m?p", "/", "/run/#1", "/a/"]


def world(c):
    """the temporary directory is any directory"""
    fake_threading(c)
    tempfile.gettempdir()
    o = c.build(Fs)
    tmp = "/" + c.text("tmp", excl="\0", cands=[t[1:] for t in TMP])
    c.patch(tempfile, "gettempdir", lambda: tmp)
    c.patch(sh.pathlib, "Path", lambda *a: FsPath(o, *a))
    if c.sym:
        c.model(urllib.parse.urlsplit, lambda v, *a: urls.urlsplit(v, lambda h: None))
        c.model(urllib.parse.urlparse, lambda v, *a: urls.urlsplit(v, lambda h: None))
    return tmp


def in_tmp(tmp, name):
    return tmp + name if tmp.endswith("/") else tmp + "/" + name


def host(c):
    return c.text("host", only=LOWER, nonempty=True, cands=HOSTS)


def host6(c):
    if not c.sym:
        return c.choose("host6", V6)
    h = c.text("host6", only="0123456789abcdef:", nonempty=True)
    return h + "%" + c.text("zone", excl="%[]/?#@\0\t\r\n", nonempty=True) if c.flag("zone?") else h


def parse(value):
    """the endpoint, or the exception"""
    try:
        r = sh.parse_addr_string(value)
    except Exception as e:
        return e
    return r


@harness(covers=("name", "ipv6", "any"), runs=200)
def tcp(c):
    """tcp://host:port, tcp://[v6]:port, tcp://:port, tcp://"""
    world(c)
    if c.flag("default"):
        c.prove("no host and port: all interfaces, any port", parse("tcp://") == ("", 0))
        c.end()
    port = c.int("port", lo=0, hi=65535)
    how = c.choose("how", ("name", "ipv6", "any"))
    c.cover(how)
    if how == "name":
        h = host(c)
        got = parse("tcp://" + h + ":" + str(port))
    elif how == "ipv6":
        h = host6(c)
        got = parse("tcp://[" + h + "]:" + str(port))
    else:
        h = ""
        got = parse("tcp://:" + str(port))
    c.prove("a tcp address is its host and port", isinstance(got, tuple) and len(got) == 2, str(got))
    c.prove("the host is the one given", got[0] == h)
    c.prove("the port is the one given", got[1] == port)


@harness(covers=("noport", "empty", "large", "word"), runs=200)
def tcp_invalid(c):
    world(c)
    how = c.choose("how", ("noport", "empty", "large", "word"))
    c.cover(how)
    h = c.choose("where", ("", "[::1]")) if c.flag("special") else host(c)
    if how == "noport":
        c.assume(len(h) > 0)
        v = "tcp://" + h
    elif how == "empty":
        c.assume(len(h) > 0)
        v = "tcp://" + h + ":"
    elif how == "large":
        v = "tcp://" + h + ":" + str(c.int("port", lo=65536))
    else:
        v = "tcp://" + h + ":" + c.choose("word", ("port", "-1", "1x", "٣", "0x10", " 1", "1.5"))
    got = parse(v)
    c.prove("a host without a valid port is an error", isinstance(got, ValueError), str(got))


@harness(covers=("name", "path", "path3", "tmp", "both"), runs=300)
def uds(c):
    tmp = world(c)
    how = c.choose("how", ("name", "path", "path3", "tmp", "both"))
    c.cover(how)
    if how == "name":
        n = c.text("name", excl="/\0", nonempty=True, cands=NAMES)
        got = parse("uds://" + n)
        c.prove("a name is that file in the temporary directory", isinstance(got, str), str(got))
        c.prove("a name is that file in the temporary directory", got == in_tmp(tmp, n), got)
    elif how == "path":
        p = c.text("path", excl="\0", cands=PATHS)
        c.assume(not p.startswith("/"))
        got = parse("uds:/" + p)
        c.prove("uds:/path is that path", isinstance(got, str), str(got))
        c.prove("uds:/path is that path", got == "/" + p, got)
    elif how == "path3":
        p = c.text("path", excl="\0", cands=PATHS)
        got = parse("uds:///" + p)
        c.prove("uds:///path is that path", isinstance(got, str), str(got))
        c.prove("uds:///path is that path", got == "/" + p, got)
    elif how == "tmp":
        a = parse("uds://")
        b = parse("uds://")
        c.prove("uds:// is a path in the temporary directory", isinstance(a, str), str(a))
        c.prove("uds:// is a path in the temporary directory", a.startswith(in_tmp(tmp, "")), a)
        rest = a[len(in_tmp(tmp, "")) :]
        c.prove("uds:// is a path in the temporary directory", len(rest) > 0 and "/" not in rest, a)
        c.prove("uds:// is another path each time", a != b)
    else:
        n = c.text("name", excl="/\0", nonempty=True, cands=NAMES)
        p = c.text("path", excl="\0", cands=PATHS)
        got = parse("uds://" + n + "/" + p)
        c.prove("a name and a path is an error", isinstance(got, ValueError), str(got))


@harness(runs=100)
def other(c):
    """other schemes"""
    world(c)
    scheme = c.choose("scheme", ("", "http:", "tls:", "udss:", "xtcp:", "file:", "tcp", "uds"))
    rest = c.choose("rest", ("", "//", "//host:1234", "/path", "//name", "host"))
    c.assume(scheme != "" or rest != "")
    got = parse(scheme + rest)
    c.prove("any other scheme is an error", isinstance(got, ValueError), str(got))


class Bound:
    """a bound socket"""

    def __init__(self, family, name):
        self.family = family
        self.name = name

    def getsockname(self):
        return self.name

    def shutdown(self, how):
        pass

    def close(self):
        pass


@harness(covers=("ipv4", "ipv6", "uds"), runs=300)
def round_trip(c):
    """the address a queue reports parses back to its endpoint"""
    world(c)
    how = c.choose("how", ("ipv4", "ipv6", "uds"))
    c.cover(how)
    port = c.int("port", lo=0, hi=65535)
    if how == "ipv4":
        name = (c.text("host", only="0123456789.", nonempty=True, cands=["127.0.0.1", "0.0.0.0", "10.2.3.4"]), port)
        fam = socket.AF_INET
        want = name
    elif how == "ipv6":
        h = host6(c)
        name = (h, port, 0, c.int("scope", lo=0))
        fam = socket.AF_INET6
        want = (h, port)
    else:
        name = "/" + c.text("path", excl="\0", nonempty=True, cands=PATHS)
        fam = socket.AF_UNIX
        want = name
    q = mpq.MPQueue(sh.SocketHelper("test", c.build(Bound, fam, name)), lambda: None)
    addr = q.address
    got = parse(addr)
    if how == "uds":
        c.prove("the address is the endpoint", isinstance(got, str), str(got))
        c.prove("the address is the endpoint", got == want, addr)
    else:
        c.prove("the address is the endpoint", isinstance(got, tuple) and len(got) == 2, str(got))
        c.prove("the address is the endpoint", got[0] == want[0], addr)
        c.prove("the address is the endpoint", got[1] == want[1], addr)


@harness(runs=400)
def urlsplit_model(c):
    """the model of urlsplit is compared with the function"""
    if c.sym:
        c.prove("compared with the function on concrete texts only", True)
        return
    parts = []
    for i in range(c.int("n", lo=1, hi=7)):
        parts.append(c.choose("part", ("tcp", "uds", "Tcp", ":", "://", "//", "/", "?", "#", "@", "[", "]", "::1", "host", "80", "99999", "%", "é", " ", "\t", "\n", "x", "+", "1")))
    v = "".join(parts)

    def run(f):
        try:
            u = f(v)
            out = [u.scheme, u.netloc, u.path, u.query, u.fragment, u.hostname]
        except ValueError:
            return "error"
        try:
            out.append(u.port)
        except ValueError:
            out.append("error")
        return out

    c.prove("the model is the function", run(urls.urlsplit) == run(urllib.parse.urlsplit), v)
