"""C13 variable views and edits."""
from __future__ import annotations

import collections.abc
import dataclasses

from ansible.vars.hostvars import HostVars

from ansibug import dap
import ansibug.ansible_collections.ansibug.dap.plugins.plugin_utils._repl_util as R
from pyvc.api import harness

from pyvc.base import NewName
from specs.common import req
from specs.strat import TS, S, FResult, FTask, add_threads, host, make_state, task

HOST = "host-a"


@dataclasses.dataclass
class Data:
    left: int
    right: str


class Opaque:
    def __repr__(self):
        return "<opaque thing>"


class FHostVars(HostVars):
    """ansible's hostvars mapping"""

    def __init__(self, data):
        self._data = data

    def __getitem__(self, k):
        return self._data[k]

    def get(self, k, default=None):
        return self._data.get(k, default)

    def raw_get(self, k):
        return self._data[k]

    def __contains__(self, k):
        return k in self._data

    def __iter__(self):
        return iter(self._data)

    def items(self):
        return self._data.items()

    def __len__(self):
        return len(self._data)

    def __repr__(self):
        return "<hostvars>"


class Manager:
    """the variable manager"""

    def __init__(self):
        self.calls = []

    def set_host_variable(self, host, varname, value):
        self.calls.append((host, varname, value))


LEAF = {"text": "str", "int": "int", "bool": "bool", "float": "float", "none": "NoneType", "set": "set", "object": "Opaque", "class": "ABCMeta", "data class": "type"}
NEST = {"list": "list", "dict": "dict", "tuple": "tuple", "dataclass": "Data"}


def value(c, name, kind):
    if kind == "text":
        return c.text(name)
    if kind == "int":
        return c.int(name)
    if kind == "bool":
        return c.flag(name)
    if kind == "list":
        return c.list_of([c.int(name + "_0")], c.seq(name + "_more", lambda k: c.int(name + "_n")))
    if kind == "dict":
        return c.mkdict([("k", c.int(name + "_k")), (7, c.text(name + "_7"))])
    return {"float": 1.5, "none": None, "set": {1}, "object": Opaque(), "class": collections.abc.Mapping, "data class": Data, "tuple": (1, "a"), "dataclass": Data(3, "x")}[kind]


KINDS = tuple(LEAF) + tuple(NEST)


class Enough(Exception):
    """all was looked at while the playbook is stopped (what happens next: C10)"""


class W:
    pass


def world(c, extra, args=None, targs=None, result=None, hv=None, gv=None, hosts=None):
    """a stopped task with the given task variables (parts), arguments, host and global variables"""
    w = W()
    w.d, w.st = make_state(c)
    w.vm = c.build(Manager)
    c.put(w.st, _variable_mamanger=w.vm)
    w.h = host(c)
    c.put(w.d, _variable_counter=c.counter("variable_counter"), _stackframe_counter=c.counter("frame_counter"))
    w.hv = c.mkdict([("facts", c.int("facts")), ("both", "persistent")]) if hv is None else hv
    w.globals = c.mkdict([("g", c.int("g"))]) if gv is None else gv
    base = [("hostvars", c.mkdict([(HOST, w.hv)])), ("inventory_hostname", HOST), ("vars", w.globals), ("both", "task")]
    if hosts is not None:
        base[0] = ("hostvars", hosts)
    w.tv = c.dict_of(base, *extra)
    w.args = c.mkdict([("opt", "{{ raw }}")]) if args is None else args
    w.targs = c.mkdict([("opt", "templated")]) if targs is None else targs
    w.new = None
    w.nested = result is not None
    w.texts = []
    c.patch(S, "Templar", lambda *a, **k: Templar(w))
    th = add_threads(c, w.d, w.st, w.h, TS.CONTINUE, 2, [], others=False)
    w.t = task(c, "task", None, action="ping", path="/p/x.yml:4")
    c.put(w.t, args=w.args)
    w.st.start_task(w.h, w.t, w.tv)
    if result is not None:
        d = w.d
        d.process_message(req(c, dap.SetExceptionBreakpointsRequest, filters=["on_error"], exception_options=[]))

        def stopped():
            w.frame = w.st.get_stacktrace(req(c, dap.StackTraceRequest, thread_id=2)).stack_frames[0].id
            result[1](w)
            w.stops = w.stops + 1
            raise Enough()

        w.stops = 0
        w.st._waiting_condition.env = stopped
        try:
            with w.d.with_strategy(w.st):
                w.st.end_task(FResult(w.h, w.t, "failed", result[0]))
        except Enough:
            pass
        c.prove("stopped at the failed task", w.stops == 1)
        return w
    w.frame = w.st.get_stacktrace(req(c, dap.StackTraceRequest, thread_id=2)).stack_frames[0].id
    return w


def ask(c, w, r, cls):
    n = len(w.d._send_queue.items)
    if w.nested:
        w.d.process_message(r)
    else:
        with w.d.with_strategy(w.st):
            w.d.process_message(r)
    c.prove("each request gets one response", len(w.d._send_queue.items) == n + 1)
    m = w.d._send_queue.items[n]
    c.prove("of its kind, to it", c.all(isinstance(m, cls), m.request_seq == r.seq))
    return m


def scopes(c, w):
    r = ask(c, w, req(c, dap.ScopesRequest, frame_id=w.frame), dap.ScopesResponse)
    return {s.name: s for s in r.scopes}


def listing(c, w, ref):
    return ask(c, w, req(c, dap.VariablesRequest, variables_reference=ref), dap.VariablesResponse).variables


def entry(c, w, ref, name):
    l = c.pick(listing(c, w, ref), lambda v: v.name == name)
    c.prove("the entry is listed once", len(l) == 1)
    return l[0]


def presents(c, w, e, name, v, kind):
    """entry e shows the value v"""
    c.prove("its name as text", e.name == name)
    c.prove("its repr", e.value == repr(v))
    c.prove("its canonical type", e.type == (LEAF.get(kind) or NEST[kind]))
    ref = e.variables_reference
    if kind in LEAF:
        c.prove("no reference for a plain value", c.all(ref == 0, e.named_variables == 0, e.indexed_variables == 0))
        return None
    c.cover("nested")
    c.prove("a reference for a nested one", c.all(ref != 0, ref in w.st.variables))
    return ref


def child(c, w, ref, v, kind, e):
    """the reference's listing is the nested value"""
    l = listing(c, w, ref)
    if kind == "list":
        c.prove("its size is announced", c.all(e.indexed_variables == len(v), e.named_variables == 0, len(l) == len(v)))
        c.prove("its entries are listed", c.all(l[0].name == "0", l[0].value == repr(v[0])))
    elif kind == "tuple":
        c.prove("its size is announced", c.all(e.indexed_variables == 2, e.named_variables == 0, len(l) == 2))
        c.prove("its entries are listed", c.all(l[1].name == "1", l[1].value == "'a'"))
    elif kind == "dict":
        c.prove("its size is announced", c.all(e.indexed_variables == 0, e.named_variables == 2, len(l) == 2))
        c.prove("its entries are listed", c.all(l[1].name == "7", l[1].value == repr(v[7]), l[0].name == "k"))
    else:
        c.prove("its size is announced", c.all(e.indexed_variables == 0, e.named_variables == 2, len(l) == 2))
        c.prove("its entries are listed", c.all(l[0].name == "left", l[0].value == "3", l[1].name == "right", l[1].value == "'x'"))


class Templar:
    """contract: task arguments become the templated ones, a text the new value"""

    def __init__(self, w):
        self.w = w

    def template(self, x, *a, **k):
        w = self.w
        if x is w.args:
            return w.targs
        w.texts.append(x)
        return w.new

    def copy_with_new_env(self, environment_class=None, **k):
        return self


@harness(covers=("nested",), runs=250)
def list_listing(c):
    kind = c.choose("kind", KINDS)
    v = value(c, "v", kind)
    some = lambda k: value(c, "o", c.choose("o_kind", ("text", "list")))
    before = c.seq("before", some)
    at = len(before)
    data = c.list_of(before, [v], c.seq("after", some))
    w = world(c, [[("x", data)]])
    e = entry(c, w, scopes(c, w)["Task Variables"].variables_reference, "x")
    c.prove("a sequence", c.all(e.type == "list", e.indexed_variables == len(data), e.named_variables == 0))
    known = w.d._variable_counter
    l = listing(c, w, e.variables_reference)
    c.prove("every entry is listed once", len(l) == len(data))
    ref = presents(c, w, l[at], str(at), v, kind)
    if ref is not None:
        c.prove("the reference is fresh", ref >= known)
        child(c, w, ref, v, kind, l[at])


@harness(covers=("nested",), runs=250)
def dict_listing(c):
    kind = c.choose("kind", KINDS)
    v = value(c, "v", kind)
    key = c.choose("key_kind", (c.text, c.int))("key")
    some = lambda k: (c.text("o_key"), value(c, "o", c.choose("o_kind", ("text", "list"))))
    before = c.some("before", some, dict=True, keypred=lambda k: k != key)
    data = c.dict_of(before, [(key, v)], c.some("after", some, dict=True, keypred=lambda k: k != key))
    at = c.index_of_key(data, key)
    w = world(c, [[("x", data)]])
    e = entry(c, w, scopes(c, w)["Task Variables"].variables_reference, "x")
    c.prove("a mapping", c.all(e.type == "dict", e.named_variables == len(data), e.indexed_variables == 0))
    known = w.d._variable_counter
    l = listing(c, w, e.variables_reference)
    c.prove("every entry is listed once", len(l) == len(data))
    ref = presents(c, w, l[at], str(key), v, kind)
    if ref is not None:
        c.prove("the reference is fresh", ref >= known)
        child(c, w, ref, v, kind, l[at])


def named(c, w, s, name, data, known):
    """the scope of this name refers to this container"""
    c.prove("its size is announced", c.all(s.named_variables == len(data), s.indexed_variables == 0))
    c.prove("with a reference of its own", c.all(s.variables_reference != 0, s.variables_reference >= known))
    l = listing(c, w, s.variables_reference)
    c.prove("every entry is listed once", len(l) == len(data))
    return l


FIXED = ("Module Options", "Task Variables", "Host Variables", "Global Variables")


@harness(covers=("host only", "task only", "both"), runs=250)
def scope_listing(c):
    """the scopes of a frame, an entry in each"""
    kind = c.choose("kind", KINDS)
    v = value(c, "v", kind)
    it = [("it", v)]
    which = c.choose("which", ("options", "task", "global", "host only", "task only", "both", "none"))
    c.cover(which)
    o = lambda k: (c.any("key", kind=NewName), c.any("value", json, kind=object)) if c.sym else (c.choose("key", ("a", "b", 1)), value(c, "ov", c.choose("o_kind", ("text", "list"))))
    pred = lambda k: isinstance(k, NewName) if c.sym else k != "it"
    some = lambda n: c.some(n, o, dict=True, keypred=pred)
    targs = c.dict_of(some("ob"), it if which == "options" else [], some("oa"))
    gv = c.dict_of(some("gb"), it if which == "global" else [], some("ga"))
    hv = c.dict_of([("facts", 1), ("both", "persistent")], it if which in ("host only", "both") else [])
    mine = it if which in ("task", "task only") else [("it", "another")] if which == "both" else []
    tb, ta = some("tb"), some("ta") if not c.sym else []
    w = world(c, [tb, mine, ta], targs=targs, hv=hv, gv=gv)
    known = w.d._variable_counter
    s = ask(c, w, req(c, dap.ScopesRequest, frame_id=w.frame), dap.ScopesResponse).scopes
    c.prove("the scopes of a task", [x.name for x in s] == list(FIXED))
    c.prove("each has a container of its own", len({x.variables_reference for x in s}) == 4)
    where = {"options": 0, "task": 1, "global": 3}.get(which, 2)
    for i in range(2):
        if i == where or which == "none":
            data = (w.targs, w.tv)[i]
            l = named(c, w, s[i], FIXED[i], data, known)
    if where == 3 or which == "none":
        l = named(c, w, s[3], FIXED[3], w.globals, known)
        at = c.index_of_key(w.globals, "it") if where == 3 else 0
    elif where < 2:
        at = c.index_of_key((w.targs, w.tv)[where], "it")
    if where == 2:
        hs = c.dict_of([("facts", 1), ("both", 0), ("hostvars", 0), ("inventory_hostname", 0), ("vars", 0)], tb, [("it", v)] if which != "none" else [], ta)
        l = named(c, w, s[2], FIXED[2], hs, known)
        at = c.index_of_key(hs, "it") if which == "task only" else 2
        c.prove("the variables of the host win", c.all(l[1].name == "both", l[1].value == "'persistent'"))
        e = l[5 if which in ("host only", "both") else 4]
        c.prove("the task variables are shown as well", c.all(e.name == "vars", e.value == repr(gv)))
    if which != "none":
        ref = presents(c, w, l[at], "it", v, kind)
        if ref is not None:
            child(c, w, ref, v, kind, l[at])


@harness(covers=("nested",), runs=200)
def result_scope(c):
    """stopped at a failed task: its result comes first"""
    kind = c.choose("kind", KINDS)
    v = value(c, "v", kind)
    some = lambda n: c.some(n, lambda k: (c.any("o_key", kind=NewName) if c.sym else c.text("o_key"), value(c, "o", c.choose("o_kind", ("text", "list")))), dict=True, keypred=lambda k: isinstance(k, NewName) if c.sym else k != "it")
    data = c.dict_of(some("before"), [("it", v)], some("after"))
    at = c.index_of_key(data, "it")

    def look(w):
        s = ask(c, w, req(c, dap.ScopesRequest, frame_id=w.frame), dap.ScopesResponse).scopes
        c.prove("the result is the first scope", [x.name for x in s] == ["Module Result"] + list(FIXED))
        c.prove("each has a container of its own", len({x.variables_reference for x in s}) == 5)
        l = named(c, w, s[0], "Module Result", data, 1)
        ref = presents(c, w, l[at], "it", v, kind)
        if ref is not None:
            child(c, w, ref, v, kind, l[at])

    world(c, [], result=(data, look))


@harness(runs=100)
def hostvars_listing(c):
    """ansible's mapping of the variables of all hosts, which has no repr of its own"""
    hv = {"a": 1}
    other = {"b": "x"}
    hosts = FHostVars({HOST: hv, "another": other})
    w = world(c, [], hv=hv, hosts=hosts)
    e = entry(c, w, scopes(c, w)["Task Variables"].variables_reference, "hostvars")
    c.prove("a mapping", c.all(e.type == "dict", e.named_variables == 2, e.indexed_variables == 0))
    c.prove("its repr is that of its content", e.value == repr({HOST: hv, "another": other}))
    l = listing(c, w, e.variables_reference)
    c.prove("its hosts are listed", [x.name for x in l] == [HOST, "another"])
    c.prove("with their variables", [x.value for x in l] == [repr(hv), repr(other)])
    c.prove("and references to them", c.all(*[x.variables_reference != 0 for x in l]))
    l = listing(c, w, l[1].variables_reference)
    c.prove("the variables of a host", [(x.name, x.value) for x in l] == [("b", "'x'")])


# ------------------------------------------------------------------ edits
NAMES = ("name", "7", "", "x y", "é", "'q'", "-1", "pop")
OTHER = "other"


def others(c, name, avoid):
    """any other entries"""
    if c.sym:
        return c.some(name, lambda k: (c.any("key", kind=NewName), c.any("value", kind=object)), dict=True, keypred=lambda k: isinstance(k, NewName))
    keys = ("a", "Name", "b c", 1, 2, 70, None, ("t", 1), "07")
    return c.some(name, lambda k: (c.choose("key", keys), c.any("value", json)), dict=True, keypred=lambda k: str(k) not in avoid and str(k) != OTHER)


def json(r):
    return r.choice((0, 1, "", "x", None, [1], {"a": 1}))


def some_mapping(c, name, how):
    """a mapping in which the name means: a key of that text, the key 7, or nothing"""
    old = c.any("old", json, kind=object)
    mine = [] if how == "absent" else [(7 if how == "number" else name, old)]
    avoid = (name,)
    return c.dict_of(others(c, "before", avoid), mine, others(c, "mid", avoid), [(OTHER, c.any("bystander", json, kind=object))], others(c, "after", avoid))


def everything(c, w):
    """what every container holds"""
    return {"raw": c.contents(w.args), "options": c.contents(w.targs), "host": c.contents(w.hv), "global": c.contents(w.globals), "task": c.contents(w.tv)}


def nothing_else(c, was, changed):
    for k in was:
        if k not in changed:
            c.prove_rest("other containers are left alone", was[k])


def subject(c, hows=("text", "number", "absent")):
    how = c.choose("how", hows)
    c.cover(how)
    name = "7" if how == "number" else c.choose("name", NAMES)
    return how, name, 7 if how == "number" else name


def check_new(c, w, m, v, kind):
    c.prove("the repr of the new value is reported", m.value == repr(v))
    c.prove("and its type", m.type == (LEAF.get(kind) or NEST[kind]))
    if kind in LEAF or kind == "dataclass":
        c.prove("no reference for a plain value", c.all(m.variables_reference == 0))
        return
    child(c, w, m.variables_reference, v, kind, m)


def edit(c, w, r, expr):
    """the request, its value being the one of the world"""
    m = ask(c, w, r, dap.SetVariableResponse)
    c.prove("the value of the text is used", len(w.texts) == 1 and w.texts[0] == "{{ " + expr + " }}")
    return m


@harness(covers=("text", "absent"), runs=300)
def set_option(c):
    """the names of module options are texts"""
    how, name, key = subject(c, ("text", "absent"))
    data = some_mapping(c, name, how)
    raw = c.dict_of([] if c.flag("not in raw") else [(key, "{{ raw }}")], [(OTHER, "{{ o }}")], others(c, "raws", (name,)))
    w = world(c, [], args=raw, targs=data)
    ref = scopes(c, w)["Module Options"].variables_reference
    kind = c.choose("kind", KINDS)
    w.new = value(c, "new", kind)
    was = everything(c, w)
    expr = c.text("expr")
    m = edit(c, w, req(c, dap.SetVariableRequest, variables_reference=ref, name=name, value=expr), expr)
    c.prove("the option has the new value", key in data and data[key] is w.new)
    c.prove_rest("the other options are left alone", was["options"], [key])
    c.prove("so has the argument of the task", key in raw and raw[key] is w.new)
    c.prove_rest("the other arguments are left alone", was["raw"], [key])
    nothing_else(c, was, ("options", "raw"))
    c.prove("no host variable is set", len(w.vm.calls) == 0)
    check_new(c, w, m, w.new, kind)


@harness(covers=("text", "number", "absent"), runs=300)
def set_entry(c):
    """task variables, global variables or a nested mapping"""
    how, name, key = subject(c)
    data = some_mapping(c, name, how)
    where = c.choose("where", ("task", "global", "nested"))
    parts = [[("x", c.list_of([1], [data]))]] if where == "nested" else []
    mine = [] if how == "absent" or where != "task" else [(key, c.any("old", json, kind=object))]
    w = world(c, parts + [mine, others(c, "t", (name,))], gv=data if where == "global" else None)
    s = scopes(c, w)
    if where == "task":
        data = w.tv
        ref = s["Task Variables"].variables_reference
    elif where == "global":
        ref = s["Global Variables"].variables_reference
    else:
        l = listing(c, w, s["Task Variables"].variables_reference)
        x = l[4]
        c.prove("the nested list", x.name == "x")
        ref = listing(c, w, x.variables_reference)[1].variables_reference
    w.new = value(c, "new", c.choose("kind", ("text", "none")))
    was = everything(c, w)
    inner = c.contents(data)
    m = edit(c, w, req(c, dap.SetVariableRequest, variables_reference=ref, name=name, value="expr"), "expr")
    c.prove("the entry has the new value", key in data and data[key] is w.new)
    c.prove_rest("the other entries are left alone", inner, [key])
    nothing_else(c, was, (where,))
    c.prove("no host variable is set", len(w.vm.calls) == 0)


@harness(covers=("text", "absent", "task"), runs=300)
def set_host(c):
    how = c.choose("how", ("text", "absent", "task"))
    c.cover(how)
    name = c.choose("name", NAMES)
    old = c.any("old", json, kind=object)
    hv = c.mkdict(([(name, old)] if how == "text" else []) + [(OTHER, "o"), ("both", "persistent")])
    w = world(c, [[(name, old)] if how == "task" else [], [("t", 1)]], hv=hv)
    ref = scopes(c, w)["Host Variables"].variables_reference
    n = len(listing(c, w, ref))
    w.new = value(c, "new", c.choose("kind", ("text", "none", "list")))
    was = everything(c, w)
    edit(c, w, req(c, dap.SetVariableRequest, variables_reference=ref, name=name, value="expr"), "expr")
    c.prove("it is set as a variable of the host", len(w.vm.calls) == 1 and w.vm.calls[0][0] == HOST and w.vm.calls[0][1] == name and w.vm.calls[0][2] is w.new)
    nothing_else(c, was, ())
    l = listing(c, w, ref)
    c.prove("the view has the new entry", len(l) == n + (1 if how == "absent" else 0))
    seen = [v for v in l if v.name == name]
    c.prove("with the new value", len(seen) == 1 and seen[0].value == repr(w.new))
    c.prove("and the others", [v.value for v in l if v.name in (OTHER, "both")] == ["'o'", "'persistent'"])


@harness(covers=("list",), runs=200)
def set_element(c):
    v = c.any("v", json, kind=object)
    before = c.seq("before", lambda k: c.any("b", json, kind=object))
    at = len(before)
    data = c.list_of(before, [v], c.seq("after", lambda k: c.any("a", json, kind=object)))
    w = world(c, [[("x", data)]])
    e = entry(c, w, scopes(c, w)["Task Variables"].variables_reference, "x")
    kind = c.choose("kind", KINDS)
    c.cover("list")
    w.new = value(c, "new", kind)
    was = everything(c, w)
    inner = c.contents(data)
    r = req(c, dap.SetVariableRequest, variables_reference=e.variables_reference, name=str(at), value="expr")
    m = edit(c, w, r, "expr")
    c.prove("the element has the new value", data[at] is w.new)
    if c.sym:
        c.prove_rest("the other elements are left alone", inner, [v], [w.new])
    else:
        c.prove("the other elements are left alone", [x is y for x, y in zip(data, inner[1])].count(False) <= 1 and len(data) == len(inner[1]))
    nothing_else(c, was, ())
    check_new(c, w, m, w.new, kind)


@harness(covers=("set_option", "set_hostvar", "remove_option", "text", "number", "absent"), runs=400)
def commands(c):
    """the commands of the debug console (parse_repl_args by its contract, see C21)"""
    kind = c.choose("command", ("set_option", "set_hostvar", "remove_option"))
    c.cover(kind)
    how, name, key = subject(c, ("text", "number", "absent") if kind == "set_hostvar" else ("text", "absent"))
    if kind == "set_hostvar":
        data, raw, hv = None, None, c.mkdict([(OTHER, "o")] + ([(name, "was")] if c.flag("host variable") else []))
        mine = [] if how == "absent" else [(key, c.any("old", json, kind=object))]
    else:
        data = some_mapping(c, name, how)
        raw = c.dict_of([] if c.flag("not in raw") else [(key, "{{ raw }}")], [(OTHER, "{{ o }}")], others(c, "raws", (name,)))
        hv, mine = None, []
    w = world(c, [mine, others(c, "t", (name,))], args=raw, targs=data, hv=hv)
    scopes(c, w)
    w.new = value(c, "new", c.choose("kind", ("text", "none")))
    was = everything(c, w)
    cmd = R.RemoveVarCommand(command=kind, name=name) if kind == "remove_option" else R.SetVarCommand(command=kind, name=name, expression="expr")
    c.patch(S, "parse_repl_args", lambda text: cmd)
    ask(c, w, req(c, dap.EvaluateRequest, expression="!typed", frame_id=w.frame, context="repl"), dap.EvaluateResponse)
    if kind == "remove_option":
        c.prove("the option is gone", key not in data and name not in data)
        c.prove("so is the argument of the task", key not in raw and name not in raw)
    else:
        target = data if kind == "set_option" else w.tv
        c.prove("the entry has the new value", key in target and target[key] is w.new)
        if kind == "set_option":
            c.prove("so has the argument of the task", key in raw and raw[key] is w.new)
    if kind == "set_hostvar":
        c.prove_rest("the other task variables are left alone", was["task"], [key])
        nothing_else(c, was, ("task",))
        calls = w.vm.calls
        c.prove("it is set as a variable of the host", len(calls) == 1 and calls[0][0] == HOST and calls[0][1] == name and calls[0][2] is w.new)
    else:
        c.prove_rest("the other options are left alone", was["options"], [key])
        c.prove_rest("the other arguments are left alone", was["raw"], [key])
        nothing_else(c, was, ("options", "raw"))
        c.prove("no host variable is set", len(w.vm.calls) == 0)
