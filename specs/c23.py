"""C23 attach and launch arguments are honoured, defaulted and validated."""
from __future__ import annotations

import json
import os
import shlex

import ansibug._debug_adapter as da
import ansibug._debuggee as dbg
from ansibug import dap
from pyvc.api import harness

from specs.adapter import Sys, adapter_world, tls_world
from specs.common import Fs, FsPath, fake_json, req

TEXTS = ["x", "/a b", "é", "a.yml", "-v", "--", "$HOME", "a'b\"c", ""]
PM = dbg.PathMapping


def mapping(c):
    return {"localRoot": c.text("local", cands=TEXTS), "remoteRoot": c.text("remote", cands=TEXTS)}


def mappings(c):
    """any number of mappings, one of them looked at: (list, its local root, its remote root)"""
    c.on_append_type(PM, lambda k: PM(local_root=c.text("l"), remote_root=c.text("r")), None, "other mappings")
    m = mapping(c)
    before = c.seq("before", lambda k: mapping(c))
    after = c.seq("after", lambda k: mapping(c))
    return c.list_of(before, [m], after), m


def check_mappings(c, got, given, m):
    if given is None:
        c.prove("no mappings by default", len(got) == 0)
        return
    c.prove("as many mappings as given", len(got) == len(given))
    at = got[c.index_of(given, m)]
    c.prove("mappings keep their order", isinstance(at, PM))
    c.prove("mappings keep their order", at.local_root == m["localRoot"])
    c.prove("mappings keep their order", at.remote_root == m["remoteRoot"])


def maybe(c, args, key, make):
    """an argument that may be absent"""
    if not c.flag(key + "?"):
        return None
    v = make()
    args[key] = v
    return v


def text(c, name, **k):
    return lambda: c.text(name, cands=TEXTS, **k)


@harness(runs=300)
def attach_arguments(c):
    args = {}
    pid = maybe(c, args, "processId", lambda: c.int("pid", lo=0))
    addr = maybe(c, args, "address", text(c, "address"))
    verify = maybe(c, args, "tlsVerification", text(c, "verify"))
    timeout = maybe(c, args, "connectTimeout", lambda: c.choose("timeout", (0, 0.5, 3, 120)))
    tls = maybe(c, args, "useTls", lambda: c.flag("tls"))
    r = da.AttachArguments.from_json(args)
    c.prove("the process id", r.process_id is None if pid is None else r.process_id == pid)
    c.prove("the address", r.address == ("" if addr is None else addr))
    c.prove("the verification", r.tls_verification == ("verify" if verify is None else verify))
    c.prove("the timeout", r.connect_timeout == (5.0 if timeout is None else timeout))
    c.prove("the TLS setting", r.use_tls is (False if tls is None else tls))
    c.prove("no certificate", r.tls_cert is None and r.tls_key is None and r.tls_key_password is None)
    check_mappings(c, r.path_mappings, None, None)


@harness(runs=300)
def attach_certificate(c):
    args = {}
    cert = maybe(c, args, "tlsCertificate", text(c, "cert"))
    key = maybe(c, args, "tlsKey", text(c, "key"))
    pw = maybe(c, args, "tlsKeyPassword", text(c, "password"))
    maps = m = None
    if c.flag("pathMappings?"):
        maps, m = mappings(c)
        args["pathMappings"] = maps
    r = da.AttachArguments.from_json(args)
    c.prove("the certificate", r.tls_cert is None if cert is None else r.tls_cert == cert)
    c.prove("the key", r.tls_key is None if key is None else r.tls_key == key)
    c.prove("the password", r.tls_key_password is None if pw is None else r.tls_key_password == pw)
    check_mappings(c, r.path_mappings, maps, m)


def serve(srv):
    """the exception that ended the server, if any"""
    try:
        with srv:
            srv.start()
    except Exception as e:
        return e
    return None


def config_sent(c, w, link, maps, m):
    """the mappings are sent over the connection, once, and nothing else is"""
    sends = [x for x in w.log if x[0] == "send"]
    c.prove("the configuration is sent once", len(sends) == 1 and sends[0][1] is link)
    msg = sends[0][2]
    c.prove("as the configuration event", isinstance(msg, dap.OutputEvent) and msg.category == dbg.DebugConfiguration.OUTPUT_CATEGORY)
    c.prove("with the mappings", isinstance(msg.data, dbg.DebugConfiguration))
    check_mappings(c, msg.data.path_mappings, maps, m)


def at(w, kind, x):
    """position in the log"""
    for i in range(len(w.log)):
        if w.log[i][0] == kind and w.log[i][1] is x:
            return i
    return -1


@harness(covers=("address", "pid", "nothing", "nofile", "refused"), runs=300)
def attach(c):
    fs = tls_world(c)
    fake_json(c)
    w = adapter_world(c)
    c.patch(dbg.pathlib, "Path", lambda *a: FsPath(fs, *a))
    c.patch(os, "environ", {"TMPDIR": "/tmp/other dir"} if c.flag("tmpdir") else {})
    args = {}
    pid = None
    want = want_tls = None
    by = c.choose("by", ("address", "pid", "nothing", "nofile"))
    c.cover(by)
    addr = maybe(c, args, "address", text(c, "address", nonempty=True))
    tls = maybe(c, args, "useTls", lambda: c.flag("tls"))
    if by in ("pid", "nofile"):
        pid = c.int("pid", lo=0)
        args["processId"] = pid
        if by == "pid":
            want = c.text("pid_address", nonempty=True, cands=TEXTS)
            want_tls = c.flag("pid_tls")
            info = dbg.PlaybookProcessInfo(pid=pid, address=want, use_tls=want_tls, playbook_file=None)
            p = dbg.get_pid_info_path(pid)
            p.write_text(json.dumps(info.to_json()))
    elif by == "address":
        c.assume(addr is not None)
        want = addr
        want_tls = tls is True
    else:
        c.assume(addr is None)
    maps = m = None
    if c.flag("pathMappings?"):
        maps, m = mappings(c)
        args["pathMappings"] = maps
    timeout = maybe(c, args, "connectTimeout", lambda: c.choose("timeout", (0.5, 30)))
    if c.flag("refused"):
        w.connect_fails = ConnectionRefusedError(111, "refused")
    r = req(c, dap.AttachRequest, arguments=args)
    w.feed.append(r)
    err = serve(da.DAServer())
    resp = [x for x in w.outs() if isinstance(x, dap.Response)]
    c.prove("there is one response to the request", len(resp) == 1 and resp[0].request_seq == r.seq and resp[0].command == dap.Command.ATTACH)
    if by in ("nothing", "nofile"):
        c.prove("without an address or info file it fails", isinstance(err, ValueError) and isinstance(resp[0], dap.ErrorResponse) and len(w.links) == 0)
        return
    c.prove("one connection is made", len(w.links) == 1)
    link = w.links[0]
    c.prove("to the address", link.given == want)
    c.prove("with TLS exactly when set", (link.ssl_context is not None) == want_tls)
    c.prove("within the timeout", link.timeout == (5.0 if timeout is None else timeout))
    if w.connect_fails is not None:
        c.cover("refused")
        c.prove("a failed connection is an error", err is w.connect_fails and isinstance(resp[0], dap.ErrorResponse))
        return
    c.prove("it is answered", err is None and isinstance(resp[0], dap.AttachResponse))
    c.prove("only once connected", at(w, "out", resp[0]) > at(w, "start", link))
    config_sent(c, w, link, maps, m)


@harness(covers=("given", "playbook", "console"), runs=300)
def launch_arguments(c):
    args = {}
    playbook = maybe(c, args, "playbook", text(c, "playbook"))
    console = maybe(c, args, "console", lambda: c.choose("console", ("integratedTerminal", "externalTerminal", "internalConsole", "", "integrated")))
    cwd = maybe(c, args, "cwd", text(c, "cwd"))
    env = maybe(c, args, "env", lambda: {"A": c.text("env"), "B": None})
    extra = maybe(c, args, "args", lambda: c.seq("args", lambda k: c.text("arg", cands=TEXTS)))
    log_file = maybe(c, args, "logFile", text(c, "log_file"))
    log_level = maybe(c, args, "logLevel", lambda: c.choose("level", ("debug", "error")))
    timeout = maybe(c, args, "connectTimeout", lambda: c.choose("timeout", (0, 0.5, 3)))
    try:
        r = da.LaunchArguments.from_json(args)
    except ValueError:
        r = None
    if playbook is None or len(playbook) == 0:
        c.cover("playbook")
        c.prove("a playbook is needed", r is None)
        return
    if console not in (None, "integratedTerminal", "externalTerminal"):
        c.cover("console")
        c.prove("an unknown console is an error", r is None)
        return
    c.cover("given")
    c.prove("valid arguments are accepted", r is not None)
    c.prove("the playbook", r.playbook == playbook)
    c.prove("the console", r.console == ("external" if console == "externalTerminal" else "integrated"))
    c.prove("the directory", r.cwd == ("" if cwd is None else cwd))
    c.prove("the environment", len(r.env) == 0 if env is None else r.env is env or (r.env["A"] == env["A"] and r.env["B"] is None and len(r.env) == 2))
    c.prove("the arguments", len(r.args) == 0 if extra is None else r.args is extra)
    c.prove("the log file", r.log_file is None if log_file is None else r.log_file == log_file)
    c.prove("the log level", r.log_level == ("info" if log_level is None else log_level))
    c.prove("the timeout", r.connect_timeout == (5.0 if timeout is None else timeout))


class Writer:
    def __init__(self):
        self.text = ""

    def write(self, t):
        self.text = self.text + t

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Temp:
    """mkstemp, fchmod and fdopen"""

    def __init__(self, c):
        self.c = c
        self.mode = 0o600
        self.dir = None
        self.file = c.build(Writer)
        self.made = 0

    def mkstemp(self, suffix=None, prefix=None, dir=None, text=False):
        self.made += 1
        self.dir = dir
        return 9, "/tmp/launch script"


def temp_world(c):
    t = c.build(Temp, c)

    def chmod(f, mode):
        t.mode = mode

    c.patch(da.tempfile, "mkstemp", lambda *a, **k: t.mkstemp(*a, **k))
    c.patch(os, "fchmod", chmod)
    c.patch(os, "chmod", chmod)
    c.patch(os, "fdopen", lambda *a, **k: t.file)
    return t


def check_script(c, t, w, log_file, log_level):
    """the script runs ansibug connect with its own arguments"""
    c.prove("the script is executable by the user only", t.made == 1 and t.mode == 0o700)
    lines = t.file.text.split("\n")
    c.prove("it is a shell script", lines[0] == "#!/bin/sh")
    run = [x for x in lines if x.endswith('"$@"')]
    c.prove("its arguments are passed on", len(run) == 1)
    words = shlex.split(run[0].removeprefix("exec ")[: -len('"$@"')])
    c.prove("it runs ansibug connect", words[:4] == [Sys.executable, "-m", "ansibug", "connect"])
    opts = words[4:]
    c.prove("with an option and its value each", len(opts) % 2 == 0)
    given = {}
    for i in range(0, len(opts), 2):
        given[opts[i]] = opts[i + 1]
    want = {"--addr": w.links[0].address}
    if log_file is not None:
        want["--log-file"] = log_file
        want["--log-level"] = log_level
    c.prove("the address to connect to and the log settings", given == want, str(given))


@harness(covers=("connected", "ended", "timeout"), runs=300)
def launch(c):
    w = adapter_world(c)
    t = temp_world(c)
    playbook = c.text("playbook", nonempty=True, cands=TEXTS[:-1])
    args = {"playbook": playbook}
    extra = None
    if c.flag("args?"):
        # any number of arguments, one of them looked at
        x = c.text("x", cands=TEXTS)
        extra = c.list_of(c.seq("pre", lambda k: c.text("arg", cands=TEXTS)), [x], c.seq("post", lambda k: c.text("arg", cands=TEXTS)))
        args["args"] = extra
    cwd = maybe(c, args, "cwd", text(c, "cwd"))
    env = maybe(c, args, "env", lambda: {"A": c.text("env"), "B": None})
    console = c.choose("console", (None, "externalTerminal"))
    if console:
        args["console"] = console
    log_file = c.choose("log_file", (None, "/tmp/l o g'.txt"))
    if log_file:
        args["logFile"] = log_file
        args["logLevel"] = "debug"
    maps = m = None
    if c.flag("pathMappings?"):
        maps, m = mappings(c)
        args["pathMappings"] = maps
    r = req(c, dap.LaunchRequest, arguments=args)
    how = c.choose("how", ("connected", "ended", "timeout"))
    c.cover(how)
    fault = None
    if how == "ended":
        fault = da.CancelledError()
    elif how == "timeout":
        fault = TimeoutError("accept")
    w.accept_fails = fault
    w.feed.append(r)
    answer = dap.RunInTerminalResponse(request_seq=0, process_id=None, shell_process_id=None)
    w.feed.append(answer)
    srv = da.DAServer()
    w.answers = answer
    c.put(w, seq=c.int("seq", lo=0))
    err = serve(srv)
    run = [x for x in w.outs() if isinstance(x, dap.RunInTerminalRequest)]
    c.prove("the client is asked to run it once", len(run) == 1)
    q = run[0]
    c.prove("the script with the playbook", len(q.args) == 2 + (0 if extra is None else len(extra)))
    c.prove("the script with the playbook", q.args[0] == "/tmp/launch script")
    c.prove("the script with the playbook", q.args[1] == playbook)
    if extra is not None:
        c.prove("then the given arguments", q.args[2 + c.index_of(extra, x)] == x)
    c.prove("in the directory", q.cwd == ("" if cwd is None else cwd))
    c.prove("in the console", q.kind == ("external" if console else "integrated"))
    c.prove("with the environment", len(q.env) == 0 if env is None else q.env["A"] == env["A"] and q.env["B"] is None and len(q.env) == 2)
    check_script(c, t, w, log_file, "debug")
    link, marker = w.links
    c.prove("the process is waited for until its script ends", link.cancel_queue is marker)
    c.prove("within the timeout", link.timeout == 5.0)
    resp = [x for x in w.outs() if isinstance(x, dap.Response) and x.request_seq == r.seq]
    if how == "connected":
        c.prove("it is answered once", err is None and len(resp) == 1 and isinstance(resp[0], dap.LaunchResponse))
        c.prove("only after the process connected", at(w, "out", resp[0]) > at(w, "start", link))
        c.prove("the script is no longer watched", marker.stopped == 1)
        config_sent(c, w, link, maps, m)
    else:
        c.prove("otherwise it is not answered with success", len([x for x in resp if isinstance(x, dap.LaunchResponse)]) == 0)
        c.prove("nothing is sent", len(w.sends()) == 0)
        c.prove("the queues are stopped", link.stopped == 1 and marker.stopped == 1)
