"""C19 TLS contexts verify peers exactly as configured."""
from __future__ import annotations

import json
import os
import ssl

import ansibug._debug_adapter as da
import ansibug._debuggee as dbg
import ansibug._tls as tls
from ansibug import dap
from pyvc.api import harness

from specs.adapter import Tls, adapter_world, tls_world
from specs.common import DIR, FakePath, fake_json, req
from specs.playbook import start_playbook

REQUIRED = ssl.VerifyMode.CERT_REQUIRED
LOCATIONS = ["/etc/ca.pem", "/etc/certs", "~/ca.pem", "$HOME/ca", "ca.pem", "Verify", "ignore ", "IGNORE", "True", "verify/x", "é"]
NAMES = ["/c.pem", "c é.pem", "k", ""]


def given(c, name):
    """an option that may be absent"""
    return c.text(name, nonempty=True, cands=NAMES[:3]) if c.flag(name + "?") else None


def location(c, fs, name):
    """a path with what it denotes: (text, expanded path, kind)"""
    loc = c.text(name, nonempty=True, cands=LOCATIONS)
    full = os.path.join(fs.cwd, os.path.expanduser(os.path.expandvars(loc)))
    kind = c.choose("kind", ("dir", "file", "missing"))
    if kind != "missing":
        fs.files[full] = DIR if kind == "dir" else "pem"
    return loc, full, kind


def loaded(fs, ctx, full, kind):
    """exactly that location was loaded"""
    f = [os.path.join(fs.cwd, x) for x in ctx.ca_files]
    p = [os.path.join(fs.cwd, x) for x in ctx.ca_paths]
    if kind == "dir":
        return len(f) == 0 and len(p) == 1 and p[0] == full
    return len(p) == 0 and len(f) == 1 and f[0] == full


def chain(c, ctx, certfile, keyfile, password):
    if certfile is None:
        c.prove("no certificate is loaded unless given", len(ctx.certs) == 0)
        return
    c.prove("the certificate is loaded", len(ctx.certs) == 1)
    got = ctx.certs[0]
    c.prove("the certificate is loaded", got[0] == certfile)
    c.prove("with its key", got[1] == keyfile)
    c.prove("with its password", got[2] == password)


@harness(covers=("default", "verify", "ignore", "dir", "file", "missing"), runs=300)
def client_context(c):
    fs = tls_world(c)
    cert = given(c, "cert")
    key = given(c, "key")
    password = given(c, "password")
    how = c.choose("how", ("default", "verify", "ignore", "path"))
    full = kind = None
    if how == "path":
        v, full, kind = location(c, fs, "location")
        c.assume(v != "verify" and v != "ignore")
    else:
        v = how
    err = ctx = None
    try:
        if how == "default":
            ctx = tls.create_client_tls_context(certfile=cert, keyfile=key, password=password)
        else:
            ctx = tls.create_client_tls_context(v, certfile=cert, keyfile=key, password=password)
    except ValueError as e:
        err = e
    c.cover(kind or how)
    c.prove("a missing path is an error and nothing else is", (err is not None) == (kind == "missing"), str(err))
    if err is not None:
        return
    if how == "ignore":
        c.prove("ignore: nothing is verified", ctx.verify_mode == ssl.VerifyMode.CERT_NONE and not ctx.check_hostname)
    else:
        c.prove("the certificate is verified", ctx.verify_mode == REQUIRED)
        c.prove("the host name is verified", ctx.check_hostname is True)
        if how == "path":
            c.prove("the CA file or directory is loaded", loaded(fs, ctx, full, kind))
        else:
            c.prove("the default trust is used", ctx.default_trust and len(ctx.ca_files) == 0 and len(ctx.ca_paths) == 0)
    chain(c, ctx, cert, key, password)


@harness(covers=("none", "dir", "file", "missing"), runs=300)
def server_context(c):
    fs = tls_world(c)
    cert = c.text("cert", nonempty=True, cands=NAMES[:3])
    key = given(c, "key")
    password = given(c, "password")
    full = kind = ca = None
    if c.flag("client_ca"):
        ca, full, kind = location(c, fs, "location")
    err = ctx = None
    try:
        ctx = tls.create_server_tls_context(cert, keyfile=key, password=password, ca_trust=ca)
    except ValueError as e:
        err = e
    c.cover(kind or "none")
    c.prove("a missing path is an error and nothing else is", (err is not None) == (kind == "missing"), str(err))
    if err is not None:
        return
    c.prove("it is a context for a server", ctx.purpose == "client_auth")
    chain(c, ctx, cert, key, password)
    if ca is None:
        c.prove("client certificates are only required with a client CA", ctx.verify_mode == ssl.VerifyMode.CERT_NONE)
    else:
        c.prove("client certificates are required", ctx.verify_mode == REQUIRED)
        c.prove("client certificates are verified with the client CA only", loaded(fs, ctx, full, kind) and not ctx.default_trust)


@harness(covers=("tls", "plain", "pid"), runs=300)
def attach(c):
    """attach uses a client context exactly when TLS was requested"""
    fs = tls_world(c)
    fake_json(c)
    w = adapter_world(c)
    use = c.flag("use_tls")
    args = {}
    verify = c.choose("verify", (None, "verify", "ignore", "/ca.pem"))
    fs.files["/ca.pem"] = "pem"
    if verify is not None:
        args["tlsVerification"] = verify
    cert = given(c, "cert")
    key = given(c, "key")
    password = given(c, "password")
    if cert is not None:
        args["tlsCertificate"] = cert
    if key is not None:
        args["tlsKey"] = key
    if password is not None:
        args["tlsKeyPassword"] = password
    if c.flag("by_pid"):
        c.cover("pid")
        args["processId"] = 77
        args["useTls"] = c.flag("ignored_use_tls")
        info = dbg.PlaybookProcessInfo(pid=77, address="uds:///run/x", use_tls=use, playbook_file=None)
        path = c.build(FakePath)
        path.content = json.dumps(info.to_json())
        c.patch(da, "get_pid_info_path", lambda pid: path)
    else:
        args["address"] = "tcp://host.name:1234"
        if use or c.flag("explicit"):
            args["useTls"] = use
    w.feed.append(req(c, dap.AttachRequest, arguments=args))
    srv = da.DAServer()
    srv.start()
    c.prove("the debuggee is connected to", len(w.links) == 1 and w.links[0].started == 1)
    ctx = w.links[0].ssl_context
    if not use:
        c.cover("plain")
        c.prove("no TLS unless requested", ctx is None)
        return
    c.cover("tls")
    c.prove("TLS is used when requested", isinstance(ctx, Tls) and ctx.purpose == "server_auth")
    c.prove("the server is verified unless ignored", ctx.check_hostname == (verify != "ignore") and (ctx.verify_mode == REQUIRED) == (verify != "ignore"))
    c.prove("with the given CA", len(ctx.ca_files) == (1 if verify == "/ca.pem" else 0) and len(ctx.ca_paths) == 0)
    chain(c, ctx, cert, key, password)


@harness(covers=("tls", "plain"), runs=300)
def playbook(c):
    """the debuggee uses a server context exactly when TLS is enabled in listen mode"""
    fs = tls_world(c)
    fs.files["/ca.pem"] = "pem"
    use = c.flag("use_tls")
    mode = c.choose("mode", ("listen", "connect"))
    cert = c.text("cert", nonempty=True, cands=NAMES[:3])
    key = given(c, "key")
    password = given(c, "password")
    ca = c.choose("ca", (None, "/ca.pem"))
    opts = {
        "use_tls": use,
        "mode": mode,
        "debug_addr": "tcp://:0",
        "tls_server_certfile": cert,
        "tls_server_keyfile": key,
        "tls_server_key_password": password,
        "tls_client_ca": ca,
        "no_wait_for_config_done": c.flag("no_wait"),
        "log_file": None,
        "log_level": "info",
        "log_format": "",
    }
    run = start_playbook(c, opts)
    c.prove("the debugger is started once", len(run.starts) == 1)
    addr, how, ctx, file = run.starts[0]
    if not (use and mode == "listen"):
        c.cover("plain")
        c.prove("no TLS otherwise", ctx is None)
        return
    c.cover("tls")
    c.prove("TLS is used when enabled", isinstance(ctx, Tls) and ctx.purpose == "client_auth")
    chain(c, ctx, cert, key, password)
    c.prove("client certificates are required exactly with a client CA", (ctx.verify_mode == REQUIRED) == (ca is not None))
    c.prove("and verified with it", len(ctx.ca_files) == (0 if ca is None else 1) and not ctx.default_trust)
