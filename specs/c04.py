"""C04 path mappings, both directions, first match wins."""
from __future__ import annotations

import ansibug._debuggee as dbg
from ansibug import dap
from pyvc.api import harness

from specs.common import PATHS, ROOTS, last_msg, make_debugger, req


def mapping(c, name):
    return dbg.PathMapping(local_root=c.text(name + "_local", cands=ROOTS), remote_root=c.text(name + "_remote", cands=ROOTS))


def configure(c, d, maps):
    d.process_message(
        dap.OutputEvent(
            output="", category=dbg.DebugConfiguration.OUTPUT_CATEGORY, data=dbg.DebugConfiguration(path_mappings=maps)
        )
    )


def applicable(c, root):
    """(path, mappings, first): some that do not apply, the first that does, then any"""
    first = mapping(c, "first")
    path = root(first) + c.text("rest", cands=["", "/", "x.yml", "/b/c.yml", "b"])

    def pre(i):
        m = mapping(c, "pre")
        c.assume(c.neg(path.startswith(root(m))))
        return m

    return path, c.seq("maps_pre", pre) + [first] + c.seq("maps_post", lambda i: mapping(c, "post")), first


def inapplicable(c, path, root):
    def pre(i):
        m = mapping(c, "pre")
        c.assume(c.neg(path.startswith(root(m))))
        return m

    return c.seq("maps", pre)


@harness(covers=("mapped",), runs=300)
def to_client_mapped(c):
    d = make_debugger(c)
    path, maps, m = applicable(c, lambda m: m.remote_root)
    configure(c, d, maps)
    c.cover("mapped")
    r = d.convert_to_client_path(path)
    c.prove("client path = local root of the first applicable mapping + rest", r == m.local_root + path[len(m.remote_root) :])


@harness(covers=("plain",), runs=300)
def to_client_unmapped(c):
    d = make_debugger(c)
    path = c.text("path", cands=PATHS)
    if c.flag("configured"):
        configure(c, d, inapplicable(c, path, lambda m: m.remote_root))
    c.cover("plain")
    c.prove("a path no mapping applies to is unchanged", d.convert_to_client_path(path) == path)


def requested(c, d, path, expected):
    """setBreakpoints for `path` becomes a breakpoint of the file `expected` and no other"""
    r = req(
        c,
        dap.SetBreakpointsRequest,
        source=dap.Source(path=path),
        breakpoints=[dap.SourceBreakpoint(line=c.int("line", lo=1))],
        source_modified=False,
    )
    d.process_message(r)
    bp = last_msg(d).breakpoints[0]
    b = d.get_breakpoint(expected, bp.line)
    c.prove("the breakpoint belongs to the translated path", b is not None)
    c.prove("it is the one answered", c.all(b.id == bp.id, b.breakpoint.id == bp.id))
    c.prove("the client's source is kept", b.source.path == path)
    other = c.text("other", cands=PATHS)
    c.assume(other != expected)
    c.prove("it belongs to no other path", d.get_breakpoint(other, bp.line) is None)


@harness(covers=("mapped",), runs=300)
def from_client_mapped(c):
    d = make_debugger(c)
    path, maps, m = applicable(c, lambda m: m.local_root)
    configure(c, d, maps)
    c.cover("mapped")
    requested(c, d, path, m.remote_root + path[len(m.local_root) :])


@harness(covers=("plain",), runs=300)
def from_client_unmapped(c):
    d = make_debugger(c)
    path = c.text("path", cands=PATHS)
    if c.flag("configured"):
        configure(c, d, inapplicable(c, path, lambda m: m.local_root))
    c.cover("plain")
    requested(c, d, path, path)
