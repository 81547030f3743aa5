"""C06 breakpoint bookkeeping: ids, replacement per source, announcements."""
from __future__ import annotations

import ansibug._debuggee as dbg
from ansibug import dap
from pyvc.api import harness

from specs.common import PATHS, last_msg, make_debugger, req


def old_bp(c, name, counter, source, actual, i=None):
    i = c.int(name + "_id", lo=1) if i is None else i
    c.assume(i < counter)
    src = dap.Source(path=source)
    return dbg.AnsibleLineBreakpoint(
        id=i,
        source=src,
        source_breakpoint=dap.SourceBreakpoint(line=c.int(name + "_req", lo=1)),
        breakpoint=dap.Breakpoint(
            id=i,
            verified=c.bool(name + "_ver"),
            source=src,
            line=c.int(name + "_line", lo=0),
            end_line=c.int(name + "_end", lo=0),
        ),
        actual_path=actual,
        source_path=source,
    )


def kept_id(kv):
    return [("kept breakpoints keep their id", kv[1].id == kv[0] and kv[1].breakpoint.id == kv[0])]


def state(c, d, path, actual):
    """arbitrary kept breakpoints, one of the source and one of another source"""
    counter = c.int("counter", lo=1)
    mine = old_bp(c, "mine", counter, path, actual)
    osrc = c.text("other_source", cands=PATHS)
    c.assume(osrc != path)
    # several client paths may be mapped to one file
    other = old_bp(c, "other", counter, osrc, c.text("other_actual", cands=PATHS))
    c.assume(mine.id != other.id)

    def entry(i):
        b = old_bp(c, "kept", counter, c.text("path", cands=PATHS), c.text("kfile", cands=PATHS))
        return b.id, b

    bps = c.dict("kept", entry, kept_id, focus=[(mine.id, mine), (other.id, other)], post=entry, keypred=lambda k: c.all(k >= 1, k < counter))
    c.put(d, _breakpoints=bps, _breakpoint_counter=counter)
    return counter, mine, other


def request_bps(c, two=True):
    make = lambda i: dap.SourceBreakpoint(line=c.int("line", lo=1))
    f1 = make(0)
    out = c.seq("pre", make) + [f1]
    f2 = None
    if two:
        f2 = make(0)
        out = out + c.seq("mid", make) + [f2] + c.seq("post", make)
    return out, f1, f2


def replace(c, loaded, two):
    d = make_debugger(c)
    path = c.text("source", cands=PATHS)
    counter, mine, other = state(c, d, path, path)
    if loaded:
        c.put(d, _source_info={path: c.table("lines")})
    bps, f1, f2 = request_bps(c, two)
    n1 = len(bps)
    modified = c.flag("modified")
    was = (other.breakpoint, other.breakpoint.line, other.breakpoint.end_line, other.breakpoint.verified)
    r = req(c, dap.SetBreakpointsRequest, source=dap.Source(path=path), breakpoints=bps, source_modified=modified)
    d.process_message(r)
    resp = last_msg(d)
    c.prove("exactly one message is queued", len(d._send_queue.items) == 1)
    c.prove("it answers the request", c.all(isinstance(resp, dap.SetBreakpointsResponse), resp.request_seq == r.seq))
    c.prove("one breakpoint per requested one", len(resp.breakpoints) == n1)
    i1 = n1 - 1
    if two:
        # positions of the two arbitrary requested breakpoints
        i1, i2 = c.index_of(bps, f1), c.index_of(bps, f2)
    else:
        i1, i2 = c.index_of(bps, f1), None
    a1 = resp.breakpoints[i1]
    check_one(c, d, path, a1, f1, counter, modified, loaded)
    if two:
        a2 = resp.breakpoints[i2]
        check_one(c, d, path, a2, f2, counter, modified, loaded)
        c.prove("different requests get different ids", a1.id != a2.id)
    c.prove("earlier breakpoints of the source are gone", mine.id not in d._breakpoints)
    c.prove("breakpoints of other sources stay", other.id in d._breakpoints)
    c.prove("and are the same", d._breakpoints[other.id] is other)
    now = (other.breakpoint, other.breakpoint.line, other.breakpoint.end_line, other.breakpoint.verified)
    c.prove("and unchanged", now[0] is was[0] and now[1] is was[1] and now[2] is was[2] and now[3] is was[3])
    c.cover("modified" if modified else "kept")


def check_one(c, d, path, a, f, counter, modified, loaded):
    c.prove("the id was never used before", a.id >= counter)
    c.prove("it will not be used again", a.id < d._breakpoint_counter)
    c.prove("it carries the client's source", a.source.path == path)
    if modified:
        c.prove("a modified source is unverified", a.verified is False)
        c.prove("and nothing is kept", a.id not in d._breakpoints)
    else:
        c.prove("the breakpoint is kept", a.id in d._breakpoints)
        b = d._breakpoints[a.id]
        c.prove("as it was answered", c.all(b.id == a.id, b.breakpoint is a, b.source_breakpoint is f))
        c.prove("for its file", c.all(b.actual_path == path, b.source_path == path))
        if not loaded:
            c.prove("it keeps the requested line", c.all(a.verified is False, a.line == f.line))


@harness(covers=("modified", "kept"), runs=300)
def set_breakpoints_unloaded(c):
    replace(c, False, True)


@harness(covers=("modified", "kept"), runs=300)
def set_breakpoints_loaded(c):
    replace(c, True, False)


def registering(c, same_file, detail):
    d = make_debugger(c)
    path = c.text("file", cands=PATHS)
    counter = c.int("counter", lo=1)
    table = c.table("lines")
    fpath = path
    if not same_file:
        fpath = c.text("other_file", cands=PATHS)
        c.assume(fpath != path)
    b = old_bp(c, "b", counter, c.text("client", cands=PATHS), fpath)

    def entry(i):
        p = c.text("path", cands=PATHS)
        o = old_bp(c, "kept", counter, p, c.text("kfile", cands=PATHS))
        return o.id, o

    bps = c.dict("kept", entry, kept_id, focus=[(b.id, b)], post=entry, keypred=lambda k: c.all(k >= 1, k < counter))
    c.put(d, _breakpoints=bps, _breakpoint_counter=counter, _source_info={path: table})

    def ev(k):
        i = c.int("ev_id")
        c.assume(i != b.id)
        return dap.BreakpointEvent(reason="changed", breakpoint=dap.Breakpoint(id=i, verified=True))

    c.on_append(
        d._send_queue.items,
        ev,
        lambda m: c.all(isinstance(m, dap.BreakpointEvent), m.reason == "changed", m.breakpoint.id != b.id),
        "only changed events of the breakpoints themselves are queued",
    )
    g = c.ghost("g", c.int("g", lo=0))
    line = c.int("line", lo=1)
    if not c.sym and c.flag("settled"):
        # concrete cases: start from a state that often does not change
        d.register_path_breakpoint(path, line if c.flag("again") else 1, 1)
        del d._send_queue.items[:]
    old = (b.breakpoint.line, b.breakpoint.end_line, b.breakpoint.verified)
    d.register_path_breakpoint(path, line, c.choose("kind", (0, 1)))
    evs = c.pick(d._send_queue.items, lambda m: m.breakpoint.id == b.id)
    L, E = b.breakpoint.line, b.breakpoint.end_line
    differs = c.any_of(L != old[0], E != old[1], b.breakpoint.verified != old[2])
    c.prove("the id stays", c.all(b.id == b.breakpoint.id, b.breakpoint.source is b.source))
    if not same_file:
        c.cover("other file")
        c.prove("other files' breakpoints do not change", c.neg(differs))
        c.prove("other files' breakpoints cause no event", len(evs) == 0)
        return
    if differs:
        c.cover("changed")
        c.prove("a change is announced exactly once", len(evs) == 1)
        c.prove("as changed, with the new state", c.all(evs[0].reason == "changed", evs[0].breakpoint is b.breakpoint))
    else:
        c.cover("unchanged")
        c.prove("no change, no event", len(evs) == 0)
    if not detail:
        return
    # the kept state is the resolution of the requested line (C05) in the new table
    t = d._source_info[path]
    last = len(t) - 1
    eff = min(b.source_breakpoint.line, last)
    c.prove("in the file", c.all(0 <= L, L <= eff, L <= E, E <= last))
    c.prove("registered", t[L] is not None)
    if L < g and g <= E:
        c.prove("nothing registered inside", t[g] is None)
    if L < g and g <= eff:
        c.prove("nothing registered before the request", t[g] is None)
    if E < last:
        c.prove("ends at the next entry", t[E + 1] is not None)
    c.prove("verified exactly for tasks", c.iff(b.breakpoint.verified, t[L] == 1))


@harness(covers=("other file",), runs=300)
def registering_other_file(c):
    registering(c, False, False)


@harness(covers=("changed", "unchanged"), runs=500)
def registering_announces(c):
    registering(c, True, False)


@harness(covers=("changed", "unchanged"), runs=500)
def registering_resolves(c):
    registering(c, True, True)
