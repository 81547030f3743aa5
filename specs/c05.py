"""C05 a requested line resolves to the registered range that contains it."""
from __future__ import annotations

from ansibug import dap
from pyvc.api import harness

from specs.common import PATHS, last_msg, make_debugger, req


def ask(c, d, path, line, modified=False):
    d.process_message(
        req(
            c,
            dap.SetBreakpointsRequest,
            source=dap.Source(path=path),
            breakpoints=[dap.SourceBreakpoint(line=line)],
            source_modified=modified,
        )
    )
    return last_msg(d).breakpoints[0]


@harness(covers=("verified", "unverified", "past the end"), runs=500)
def loaded_file(c):
    d = make_debugger(c)
    path = c.text("path", cands=PATHS)
    table = c.table("lines")
    c.put(d, _source_info={path: table})
    g = c.ghost("g", c.int("g", lo=0))
    line = c.int("line", lo=1)
    last = len(table) - 1
    eff = min(line, last)
    bp = ask(c, d, path, line)
    L, E = bp.line, bp.end_line
    c.prove("line and end_line are lines of the file", c.all(0 <= L, L <= eff, L <= E, E <= last))
    if line > last:
        c.cover("past the end")
    c.prove("line is a registered line", table[L] is not None)
    if L < g and g <= eff:
        c.prove("no registered line between line and the request", table[g] is None)
    if L < g and g <= E:
        c.prove("no registered line inside the range", table[g] is None)
    if E < last:
        c.prove("the line after end_line is registered", table[E + 1] is not None)
    task = table[L] == 1
    c.prove("verified exactly for a task entry", c.iff(bp.verified, task))
    if bp.verified:
        c.cover("verified")
        c.prove("no message", bp.message is None)
    else:
        c.cover("unverified")
        c.prove("a message says why", len(bp.message) > 0)
    c.prove("the client's source", bp.source.path == path)


@harness(covers=("unknown",), runs=150)
def file_not_loaded(c):
    d = make_debugger(c)
    path, other = c.text("path", cands=PATHS), c.text("other", cands=PATHS)
    c.assume(path != other)
    if c.flag("another file is loaded"):
        c.put(d, _source_info={other: c.table("lines")})
    line = c.int("line", lo=1)
    bp = ask(c, d, path, line)
    c.cover("unknown")
    c.prove("unverified", bp.verified is False)
    c.prove("a message says why", len(bp.message) > 0)
    c.prove("keeps the requested line", bp.line == line)
    c.prove("no range", bp.end_line is None)


@harness(covers=("new", "known", "inside", "beyond"), runs=400)
def registering_a_line(c):
    """representation invariant of the line table: established and preserved"""
    d = make_debugger(c)
    path = c.text("path", cands=PATHS)
    other = c.text("other", cands=PATHS)
    c.assume(path != other)
    otable = c.table("other_lines")
    ocopy = c.dup(otable)
    known = c.flag("known")
    info = {other: otable}
    old = None
    if known:
        table = c.table("lines")
        old = c.dup(table)
        info[path] = table
        c.cover("known")
    else:
        c.cover("new")
    c.put(d, _source_info=info)
    line = c.int("line", lo=1)
    kind = c.choose("kind", (0, 1))
    d.register_path_breakpoint(path, line, kind)
    t = d._source_info[path]
    n = len(t)
    oldn = len(old) if known else 1
    c.prove("the table reaches exactly the last registered line", n == max(oldn, line + 1))
    if line < oldn:
        c.cover("inside")
    else:
        c.cover("beyond")
    c.prove("the line carries its type", t[line] == kind)
    c.prove("line 0 cannot be set", t[0] == 0)
    c.prove("the last entry is registered", t[n - 1] is not None)
    g = c.ghost("g", c.int("g", lo=0))
    c.assume(g < n)
    if g != line:
        was = old[g] if known and g < oldn else (0 if g == 0 else None)
        now = t[g]
        c.prove("every other line is unchanged", (now is None) == (was is None) and (now is None or now == was))
    ot = d._source_info[other]
    k = c.int("k", lo=0)
    c.prove("other files keep their length", len(ot) == len(ocopy))
    if k < len(ocopy):
        c.prove("other files are unchanged", (ot[k] is None) == (ocopy[k] is None) and (ot[k] is None or ot[k] == ocopy[k]))


@harness(covers=("done",), runs=300, bounded=True)
def registration_then_request(c):
    """end to end, small scope without private state: a task registered at line a and
    the next entry at line b > a"""
    d = make_debugger(c)
    path = c.text("path", cands=PATHS)
    a = c.int("a", lo=1)
    b = c.int("b", lo=2)
    c.assume(a < b)
    ka, kb = c.choose("ka", (0, 1)), c.choose("kb", (0, 1))
    if c.flag("swap"):
        d.register_path_breakpoint(path, b, kb)
        d.register_path_breakpoint(path, a, ka)
    else:
        d.register_path_breakpoint(path, a, ka)
        d.register_path_breakpoint(path, b, kb)
    line = c.int("line", lo=1)
    bp = ask(c, d, path, line)
    c.cover("done")
    if line < a:
        c.prove("before the first entry", c.all(bp.verified is False, bp.line == 0, bp.end_line == a - 1))
    elif line < b:
        c.prove("in the first entry", c.all(bp.line == a, bp.end_line == b - 1, c.iff(bp.verified, ka == 1)))
    else:
        c.prove("in the last entry", c.all(bp.line == b, bp.end_line == b, c.iff(bp.verified, kb == 1)))
