"""C20 launching ansible-playbook keeps the user's settings and adds ansibug's."""
from __future__ import annotations

import json
import os
import subprocess
import sys

import ansibug.__main__ as cli
import ansibug._debug_adapter as da
import ansibug._exec_playbook as ep
from pyvc.api import harness

from specs.common import Fs, FsPath, fake_json

HERE = os.path.dirname(os.path.abspath(ep.__file__))
# variables ansibug or the harness itself gives a meaning
OWN = (
    "ANSIBLE_CALLBACKS_ENABLED",
    "ANSIBLE_COLLECTIONS_PATH",
    "ANSIBLE_STRATEGY",
    "ANSIBUG_DEBUG_ADDR",
    "ANSIBUG_LOG_FILE",
    "ANSIBUG_LOG_LEVEL",
    "ANSIBUG_MODE",
    "ANSIBUG_NO_WAIT_FOR_CONFIG_DONE",
    "ANSIBUG_TLS_CLIENT_CA",
    "ANSIBUG_TLS_SERVER_CERTFILE",
    "ANSIBUG_TLS_SERVER_KEYFILE",
    "ANSIBUG_TLS_SERVER_KEY_PASSWORD",
    "ANSIBUG_USE_TLS",
    "COVERAGE_RUN",
    "PYTHONPATH",
)
NAMES = ["HOME", "PATH", "ANSIBLE_VERBOSITY", "ANSIBLE_COLLECTIONS_PATHS", "ANSIBUG_LOG_FORMAT", "X", "é", "PYTHONPATH2"]
VALUES = ["", "1", "a b", "x:y", "é", "true"]
WORDS = ["a", "/x y", "é", "main.yml", "-v", "--", "", "$HOME", "--addr"]


class Execed(BaseException):
    pass


class Process:
    def __init__(self, stdout):
        self.stdout = stdout
        self.stderr = b""
        self.returncode = 0

    def check_returncode(self):
        pass


class World:
    def __init__(self):
        self.argv = None
        self.env = None
        self.path = None
        self.runs = 0
        self.run_env = None
        self.run_argv = None


def other_name(c, name):
    """a variable ansibug has nothing to do with"""
    return c.any(name, lambda r: r.choice(NAMES) + str(r.randrange(100)))


def entries(c, name, excl):
    """any number of non-empty texts without the separator"""
    return c.seq(name, lambda k: entry(c, "e_" + name, excl))


def entry(c, name, excl):
    return c.text(name, excl=excl, nonempty=True, cands=["/a", "/b c", "x.y", "é", "/a"])


def launch_world(c, dump, pythonpath, fs=None):
    w = c.build(World)
    if fs is not None:
        c.patch(ep.pathlib, "Path", lambda *a: FsPath(fs, *a))
    fake_json(c)
    name, value = "HOME", c.text("value", cands=VALUES)
    # the other names are not looked at: unknown values different from every known name
    keys = (lambda k: not isinstance(k, str)) if c.sym else (lambda k: k not in OWN)
    env = c.dict_of(
        c.some("env", lambda k: (other_name(c, "name"), c.text("other", cands=VALUES)), dict=True, keypred=keys),
        [(name, value)],
        [] if pythonpath is None else [("PYTHONPATH", pythonpath)],
        [("ANSIBLE_CALLBACKS_ENABLED", "x.y"), ("ANSIBLE_STRATEGY", "free"), ("ANSIBLE_VERBOSITY", "3")] if c.flag("set before") else [],
    )
    c.patch(os, "environ", env)
    out = json.dumps(dump)

    def run(argv, env=None, **k):
        w.runs += 1
        w.run_argv = argv
        w.run_env = env
        return c.build(Process, out)

    def execve(path, argv, env):
        w.path, w.argv, w.env = path, argv, env
        raise Execed()

    c.patch(subprocess, "run", run)
    c.patch(os, "execve", execve)
    w.before = env
    w.n = len(env)
    w.value = value
    return w


def config_dump(c, callbacks, collections):
    """the configuration as Ansible reports it: the two settings anywhere, in either order"""

    def other(k):
        kind = c.choose("kind", ("named", "unnamed", "servers"))
        if kind == "named":
            name = c.text("setting", cands=NAMES)
            c.assume(name != "CALLBACKS_ENABLED" and name != "COLLECTIONS_PATHS")
            return {"name": name, "value": c.any("v", lambda r: r.choice((1, "x", None, ["q"])))}
        if kind == "unnamed":
            return {"value": 1}
        return {"GALAXY_SERVERS": {}}

    a, b = {"name": "CALLBACKS_ENABLED", "value": callbacks}, {"name": "COLLECTIONS_PATHS", "value": collections}
    if c.flag("reversed"):
        a, b = b, a
    return c.list_of(c.some("first", other), [a], c.some("second", other), [b], c.some("third", other))


def run(w, f, *a, **k):
    try:
        f(*a, **k)
    except Execed:
        return True
    return False


def is_bool(text, v):
    return text.lower() == ("true" if v else "false")


def check_env(c, w, want, own):
    """exactly these variables of ansibug are set, the others are kept"""
    e = w.env
    for k in OWN:
        if k in want:
            c.prove(k, k in e and c.same(e[k], want[k]))
        elif k.startswith("ANSIBUG_"):
            c.prove(k + " is only set on request", k not in e)
    c.prove("other variables are kept", c.same(e["HOME"], w.value))
    new = 0
    for k in own:
        if k not in w.before:
            new += 1
    c.prove("nothing else is added", len(e) == w.n + new)
    # Ansible is asked for its configuration once, under the same settings
    c.prove("the configuration is the one of the user", w.runs == 1 and c.same(w.run_env["HOME"], w.value))


@harness(covers=("pythonpath", "nothing"), runs=300)
def settings(c):
    """callbacks, collections and PYTHONPATH"""
    before = entries(c, "before", ":,")
    x = entry(c, "x", ":,")
    after = entries(c, "after", ":,")
    paths = c.list_of(before, [x], after)
    kind = c.choose("PYTHONPATH", ("unset", "empty", "one", "many", "gap"))
    pp = None if kind == "unset" else ""
    if kind == "one":
        pp = x
    elif kind == "many":
        pp = ":".join(paths)
    elif kind == "gap":
        # an empty entry
        pp = ":".join(c.list_of(before, [x, "", "b"], after))
    callbacks = c.list_of(entries(c, "cb1", ":,"), entries(c, "cb2", ":,"))
    collections = c.list_of(entries(c, "co1", ":,"), [entry(c, "y", ":,")], entries(c, "co2", ":,"))
    w = launch_world(c, config_dump(c, callbacks, collections), pp, c.build(Fs))
    c.prove("the process is started", run(w, ep.exec_playbook_connect, ["x.yml"], "uds:///x"))
    e = w.env
    c.prove("the callbacks", e["ANSIBLE_CALLBACKS_ENABLED"] == ",".join(c.list_of(["ansibug.dap.debug"], callbacks)))
    c.prove("the collections", e["ANSIBLE_COLLECTIONS_PATH"] == ":".join(c.list_of([HERE], collections)))
    c.prove("the strategy", e["ANSIBLE_STRATEGY"] == "ansibug.dap.debug")
    src = os.path.dirname(HERE)
    c.cover("nothing" if kind in ("unset", "empty") else "pythonpath")
    want = c.list_of([src])
    if kind == "one":
        want = [src, x]
    elif kind == "many":
        want = c.list_of([src], paths)
    elif kind == "gap":
        want = c.list_of([src], before, [x, "b"], after)
    c.prove("PYTHONPATH", e["PYTHONPATH"] == ":".join(want))


class Named:
    """a path given relative to the current directory"""

    def __init__(self, text):
        self.text = text

    def __str__(self):
        return self.text

    def __fspath__(self):
        return self.text

    def absolute(self):
        return Named("/cwd/" + self.text)

    def resolve(self):
        return Named("/cwd/" + self.text)


def a_path(c, fs, name):
    """an option naming a file, or not: (the path, its absolute text)"""
    if not c.flag(name):
        return None, None
    t = c.text(name + "_path", nonempty=True, cands=["a", "b c", "é/x"])
    return Named(t), "/cwd/" + t


OPTIONS = ("ANSIBLE_CALLBACKS_ENABLED", "ANSIBLE_COLLECTIONS_PATH", "ANSIBLE_STRATEGY", "PYTHONPATH")


def simple_world(c, fs=None):
    dump = [{"name": "COLLECTIONS_PATHS", "value": ["/c"]}, {"name": "CALLBACKS_ENABLED", "value": ["a.b"]}]
    return launch_world(c, dump, None, fs)


def common(c, w, mode, addr, no_wait, tls, args, log, level):
    c.prove("the program", w.path == sys.executable)
    c.prove("the arguments are given as they are", w.argv == c.list_of([sys.executable, "-m", "ansible", "playbook"], args))
    e = w.env
    c.prove("the wait flag", is_bool(e["ANSIBUG_NO_WAIT_FOR_CONFIG_DONE"], no_wait))
    c.prove("the TLS flag", is_bool(e["ANSIBUG_USE_TLS"], tls))
    want = {
        "ANSIBUG_DEBUG_ADDR": addr,
        "ANSIBUG_MODE": mode,
        "ANSIBUG_NO_WAIT_FOR_CONFIG_DONE": e["ANSIBUG_NO_WAIT_FOR_CONFIG_DONE"],
        "ANSIBUG_USE_TLS": e["ANSIBUG_USE_TLS"],
    }
    if log is not None:
        want["ANSIBUG_LOG_FILE"] = log
        want["ANSIBUG_LOG_LEVEL"] = level
    return want


def words(c):
    x = c.text("arg", cands=WORDS)
    return c.list_of(c.seq("args", lambda k: c.text("a", cands=WORDS)), [x], c.seq("more", lambda k: c.text("a", cands=WORDS)))


@harness(runs=300)
def connect(c):
    fs = c.build(Fs)
    args = words(c)
    w = simple_world(c, fs)
    addr = c.text("addr", cands=["uds:///x", "tcp://h:1"])
    no_wait = c.flag("no_wait")
    log, log_text = a_path(c, fs, "log")
    level = c.choose("level", ("info", "debug", "warning", "error"))
    c.prove("the process is started", run(w, ep.exec_playbook_connect, args, addr, no_wait=no_wait, log_file=log, log_level=level))
    want = common(c, w, "connect", addr, no_wait, False, args, log_text, level)
    check_env(c, w, want, [k for k in want] + [k for k in OPTIONS])


@harness(runs=300)
def listen(c):
    fs = c.build(Fs)
    args = words(c)
    w = simple_world(c, fs)
    addr = c.text("addr", cands=["uds://", "tcp://:0"])
    no_wait = c.flag("no_wait")
    tls = c.flag("tls")
    log, log_text = a_path(c, fs, "log")
    cert, cert_text = a_path(c, fs, "cert")
    key, key_text = a_path(c, fs, "key")
    ca, ca_text = a_path(c, fs, "ca")
    pw = c.text("password", nonempty=True, cands=VALUES[1:]) if c.flag("password?") else None
    c.prove(
        "the process is started",
        run(
            w,
            ep.exec_playbook_listen,
            args,
            addr,
            no_wait=no_wait,
            use_tls=tls,
            tls_cert=cert,
            tls_key=key,
            tls_password=pw,
            tls_client_ca=ca,
            log_file=log,
            log_level="debug",
        ),
    )
    want = common(c, w, "listen", addr, no_wait, tls, args, log_text, "debug")
    for k, v in (
        ("ANSIBUG_TLS_SERVER_CERTFILE", cert_text),
        ("ANSIBUG_TLS_SERVER_KEYFILE", key_text),
        ("ANSIBUG_TLS_SERVER_KEY_PASSWORD", pw),
        ("ANSIBUG_TLS_CLIENT_CA", ca_text),
    ):
        if v is not None:
            want[k] = v
    check_env(c, w, want, [k for k in want] + [k for k in OPTIONS])


LINES = (["main.yml"], ["main.yml", "-v", "--no-wait", "--addr", "x"], ["a b.yml", "-i", "inv", ""], [], ["main.yml", "--", "-x"])


@harness(covers=("connect", "listen", "dap"), runs=400, bounded=True)
def command_line(c):
    """the command line of ansibug (parsed by argparse), for some lines"""
    c.patch(cli, "HAS_ARGCOMPLETE", False)
    cmd = c.choose("command", ("connect", "listen", "dap"))
    c.cover(cmd)
    argv = [cmd]
    no_wait = addr = log = level = None
    if c.flag("log"):
        log = c.choose("log_file", ("/l o g", "log"))
        argv += ["--log-file", log]
    if c.flag("level?"):
        level = c.choose("level", ("debug", "error"))
        argv += ["--log-level", level]
    if cmd == "dap":
        tmp = c.choose("tmp", (None, "/t m p", "rel"))
        if tmp:
            argv += ["--temp-dir", tmp]
        seen = []
        c.patch(cli, "start_dap", lambda *a, **k: seen.append((a, k)))
        c.patch(sys, "argv", ["ansibug"] + argv)
        cli.main()
        import inspect

        b = inspect.signature(da.start_dap).bind(*seen[0][0], **seen[0][1])
        b.apply_defaults()
        got = b.arguments
        c.prove("one adapter is started", len(seen) == 1)
        c.prove("its log file", (None if got["log_file"] is None else str(got["log_file"])) == log)
        c.prove("its log level", got["log_level"] == (level or "info"))
        c.prove("its directory", (None if got["temp_dir"] is None else str(got["temp_dir"])) == tmp)
        return
    w = simple_world(c)
    if cmd == "connect" or c.flag("addr?"):
        addr = c.choose("addr", ("uds:///x y", "tcp://[::1]:4", "tcp://:0"))
        argv += ["--addr", addr]
    if c.flag("no_wait"):
        no_wait = True
        argv += ["--no-wait"]
    want = {}
    tls = False
    if cmd == "listen":
        tls = c.flag("tls")
        if tls:
            argv += ["--wrap-tls"]
        for o, k in (("--tls-cert", "CERTFILE"), ("--tls-key", "KEYFILE"), ("--tls-client-ca", "CA")):
            if c.flag(o):
                f = c.choose(o + "_file", ("/c e", "rel.pem"))
                argv += [o, f]
                want["ANSIBUG_TLS_CLIENT_CA" if k == "CA" else "ANSIBUG_TLS_SERVER_" + k] = os.path.abspath(f)
        if c.flag("pw"):
            argv += ["--tls-key-pass", "s e"]
            want["ANSIBUG_TLS_SERVER_KEY_PASSWORD"] = "s e"
    args = c.choose("args", LINES)
    c.patch(sys, "argv", ["ansibug"] + argv + args)
    c.prove("the process is started", run(w, cli.main))
    want.update(
        common(
            c,
            w,
            cmd,
            addr or "uds://",
            bool(no_wait),
            tls,
            args,
            None if log is None else os.path.abspath(log),
            level or "info",
        )
    )
    check_env(c, w, want, list(want) + list(OPTIONS))
