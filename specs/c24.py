"""C24 every task that can run is registered as a breakpoint location.

By induction over the depth of the blocks: the call for a nested block is replaced by
the contract of register_block_breakpoints (everything in it gets registered), which is
proved for a block that holds any tasks and nested blocks.  The nested block that is
looked at is a real one as well, for code which walks the tree in another way.
"""
from __future__ import annotations

import ansibug.ansible_collections.ansibug.dap.plugins.plugin_utils._breakpoints as B
import ansibug.ansible_collections.ansibug.dap.plugins.strategy.debug as S
from ansible.plugins.strategy.linear import StrategyModule as Linear
from pyvc.api import harness

import ansibug.ansible_collections.ansibug.dap.plugins.callback.debug as cb
from specs.playbook import start_playbook
from specs.strat import FBlock, FTask, add_threads, bp, dbg, host, include_task, make_state, start

PATHS = ("/p/x.yml", "C:\\p\\x:1.yml", "/p/10:20", "é")
SECTIONS = ("block", "rescue", "always")
TASK, BLOCK = 1, 0


class Debugger:
    """what is registered; `want` are the places looked at"""

    def __init__(self, c):
        self.c = c
        self.want = []

    def expect(self, path, line, kind):
        p = Place(path, line, kind)
        self.want.append(p)
        return p

    def register_path_breakpoint(self, path, line, bp_type):
        c = self.c
        if not isinstance(line, int):
            c.prove("the line is a number", False)
        if path == "/other.yml":
            c.prove("other tasks are registered at their line, as tasks", line == 7 and bp_type == TASK)
            return
        if path == "/block.yml":
            c.prove("other blocks are registered at their line, as blocks", line == 9 and bp_type == BLOCK)
            return
        known = False
        for p in self.want:
            if p.path == path:
                known = True
                c.prove("it is registered at its line", line == p.line)
                c.prove("as what it is", bp_type == p.kind)
                p.done = True
        c.prove("nothing else is registered", known, str(path))


class Place:
    def __init__(self, path, line, kind):
        self.path = path
        self.line = line
        self.kind = kind
        self.done = False


class PTask(FTask):
    """a task, told apart by its path only"""

    _vc_ok_ = True


class PBlock(FBlock):
    _vc_ok_ = True
    path = None

    def get_path(self):
        return self.path


def other_task(c):
    return c.new(PTask, path=c.choose("other_path", ("/other.yml:7", "", None)), name="x", action="ping", args=None, _parent=None, _role=None)


def other_block(c, lists=True):
    """another block; nested ones are looked at through the contract only"""
    return c.new(
        PBlock,
        path=c.choose("block_path", ("/block.yml:9", "")),
        block=c.seq("t", lambda k: other_task(c)) if lists else [],
        rescue=[],
        always=[],
    )


def other(c):
    """another entry of a block"""
    return other_block(c, False) if c.flag("nested") else other_task(c)


def entries(c, focus):
    return c.list_of(c.seq("pre", lambda k: other(c)), [focus], c.seq("post", lambda k: other(c)))


def place(c, d, kind, name, k):
    """any path and line; None if it has none"""
    if c.flag(name + " without path"):
        return c.choose(name + " path", ("", None)), None
    path = PATHS[k]
    line = c.int(name + "_line", lo=0)
    return f"{path}:{line}", d.expect(path, line, kind)


def a_task(c, d, name, k):
    path, p = place(c, d, TASK, name, k)
    return c.new(PTask, path=path, name="x", action="ping", args=None, _parent=None, _role=None), p


def a_block(c, d, name, k, focus):
    """a block with the focus in any section"""
    path, p = place(c, d, BLOCK, name, k)
    b = c.new(PBlock, path=path, block=[], rescue=[], always=[])
    where = c.choose(name + "_section", SECTIONS)
    c.cover(where)
    if where == "block":
        c.put(b, block=entries(c, focus), rescue=c.seq("r", lambda k: other(c)), always=[])
    elif where == "rescue":
        c.put(b, block=c.seq("b", lambda k: other(c)), rescue=entries(c, focus), always=[])
    else:
        c.put(b, block=c.seq("b", lambda k: other(c)), rescue=[], always=entries(c, focus))
    return b, p


class Calls:
    """the contract of register_block_breakpoints, for the inner calls"""

    def __init__(self, c, d, inner, places):
        self.c = c
        self.d = d
        self.inner = inner
        self.places = places

    def __call__(self, debugger, blocks):
        self.c.prove("for the same debugger", debugger is self.d)
        for b in blocks:
            self.c.prove("for blocks", isinstance(b, PBlock))
            if b is self.inner:
                for p in self.places:
                    if p is not None:
                        p.done = True


def check(c, p, what):
    if p is not None:
        c.prove(what, p.done)


@harness(covers=("block", "rescue", "always"), runs=300)
def tasks_of_a_block(c):
    d = c.build(Debugger, c)
    t, pt = a_task(c, d, "task", 0)
    b, pb = a_block(c, d, "block", 1, t)
    blocks = c.list_of(c.seq("before", lambda k: other_block(c)), [b], c.seq("after", lambda k: other_block(c)))
    f = B.register_block_breakpoints
    c.patch(B, "register_block_breakpoints", c.build(Calls, c, d, None, []))
    f(d, blocks)
    check(c, pt, "the task is registered")
    check(c, pb, "the block is registered")


@harness(covers=("block", "rescue", "always"), runs=300)
def nested_block(c):
    d = c.build(Debugger, c)
    t, pt = a_task(c, d, "task", 0)
    path, pi = place(c, d, BLOCK, "inner", 2)
    section = c.choose("inner_section", SECTIONS)
    inner = c.new(PBlock, path=path, block=[], rescue=[], always=[])
    setattr_section(c, inner, section, [t])
    b, pb = a_block(c, d, "block", 1, inner)
    f = B.register_block_breakpoints
    c.patch(B, "register_block_breakpoints", c.build(Calls, c, d, inner, [pt, pi]))
    f(d, [b])
    check(c, pt, "the tasks of nested blocks are registered")
    check(c, pi, "nested blocks are registered")
    check(c, pb, "the block is registered")


def setattr_section(c, b, section, v):
    if section == "block":
        c.put(b, block=v)
    elif section == "rescue":
        c.put(b, rescue=v)
    else:
        c.put(b, always=v)


class Role:
    def __init__(self, tasks, handlers):
        self.tasks = tasks
        self.handlers = handlers

    def get_handler_blocks(self, play, dep_chain=None):
        return self.handlers

    def get_task_blocks(self):
        return self.tasks


class Play:
    """the parts a play is made of"""

    def __init__(self, path, blocks, handlers, roles):
        self.path = path
        self.blocks = blocks
        self.handlers = handlers
        self.roles = roles

    def get_path(self):
        return self.path

    def compile(self):
        return self.blocks


def simple(c, d, name, k):
    """a block without a path with a task"""
    line = c.int(name + "_line", lo=0)
    t = c.new(PTask, path=f"{PATHS[k]}:{line}", name="x", action="ping", args=None, _parent=None, _role=None)
    return c.new(PBlock, path="", block=[t], rescue=[], always=[]), d.expect(PATHS[k], line, TASK)


def some_blocks(c, name, focus):
    return c.list_of(c.seq(name + "_before", lambda k: other_block(c, False)), [focus], c.seq(name + "_after", lambda k: other_block(c, False)))


def a_play(c, d, handlers=True):
    line = c.int("play_line", lo=0)
    out = [d.expect("/play:1.yml", line, TASK)]
    b, p = simple(c, d, "task", 0)
    h, ph = simple(c, d, "handler", 1)
    r, pr = simple(c, d, "role_handler", 2)
    out.append(p)
    out.append(ph)
    out.append(pr)
    roles = [c.build(Role, [], [other_block(c, False)]) for x in range(c.choose("other_roles", (0, 1)))]
    roles.append(c.build(Role, [], some_blocks(c, "rh", r)))
    roles.extend([c.build(Role, [], []) for x in range(c.choose("more_roles", (0, 1)))])
    play = c.build(Play, f"/play:1.yml:{line}", some_blocks(c, "blocks", b), some_blocks(c, "handlers", h), roles)
    return play, out


def other_play(c):
    b = other_block(c, False)
    return c.build(Play, "/other.yml:7", [b], [], [])


@harness(covers=("registered",), runs=200)
def plays(c):
    d = c.build(Debugger, c)
    play, out = a_play(c, d)
    n = len(play.handlers), len(play.blocks)
    B.register_play_breakpoints(d, c.list_of(c.seq("before", lambda k: other_play(c)), [play], c.seq("after", lambda k: other_play(c))))
    c.cover("registered")
    check(c, out[0], "the line of the play is registered")
    check(c, out[1], "the tasks of the play are registered")
    check(c, out[2], "the handlers of the play are registered")
    check(c, out[3], "the handlers of its roles are registered")
    c.prove("the handlers of the play stay as they are", len(play.handlers) == n[0])


@harness(covers=("before",), runs=100)
def playbook(c):
    """before the debuggee is started, hence before any play"""
    d = c.build(Debugger, c)
    b, p = simple(c, d, "task", 0)
    play = c.build(Play, "/other.yml:7", [b], [], [])
    opts = {k: None for k in ("log_file", "log_level", "log_format", "use_tls", "no_wait_for_config_done", "tls_server_certfile", "tls_server_keyfile", "tls_server_key_password", "tls_client_ca")}
    opts["mode"] = c.choose("mode", ("listen", "connect"))
    opts["debug_addr"] = "tcp://x"

    def act():
        c.prove("the tasks are registered before the debuggee starts", p.done)
        c.cover("before")

    start_playbook(c, opts, [play], places=d, at=act)


@harness(covers=("loaded",), runs=100)
def included_file(c):
    """when Ansible loads it, which is before it hands out the tasks"""
    d = c.build(Debugger, c)
    t, p = a_task(c, d, "task", 0)
    b, pb = a_block(c, d, "block", 1, t)
    blocks = c.list_of(c.seq("before", lambda k: other_block(c, False)), [b], c.seq("after", lambda k: other_block(c, False)))
    given = []

    def load(self, included_file, iterator, is_handler=False, handle_stats_and_callbacks=True):
        given.append((included_file, iterator, is_handler, handle_stats_and_callbacks))
        return blocks

    c.patch(Linear, "_load_included_file", load)
    st = c.new(S.AnsibleDebugState, _debugger=d)
    s = c.new(S.StrategyModule, _debug_state=st)
    f, i = object(), object()
    handler = c.flag("handler")
    res = s._load_included_file(f, iterator=i, is_handler=handler, handle_stats_and_callbacks=False)
    c.cover("loaded")
    c.prove("the file is loaded once, as asked for", len(given) == 1 and given[0][0] is f and given[0][1] is i and given[0][2] is handler and given[0][3] is False)
    c.prove("its blocks are handed on", res is blocks)
    check(c, p, "its tasks are registered")
    check(c, pb, "its blocks are registered")


@harness(covers=("role", "nested"), runs=200)
def included_role(c):
    """when its first task is about to start, and before it is stopped at"""
    d, st = make_state(c)
    h = host(c)
    w = c.build(Debugger, c)
    c.patch(dbg.AnsibleDebugger, "register_path_breakpoint", lambda self, path, line, bp_type: w.register_path_breakpoint(path, line, bp_type))
    ct = c.counter("thread_counter", lo=3)
    c.put(d, _thread_counter=ct)
    tid = c.uid("tid", below=ct)
    c.assume(tid > 1)
    inc = include_task(c, "include", action=c.choose("action", ("include_role", "ansible.builtin.include_role", "ansible.legacy.include_role")))
    add_threads(c, d, st, h, S.ThreadState.CONTINUE, tid, [], others=False)
    start(c, st, h, inc)
    b, p = simple(c, w, "task", 0)
    rh, ph = simple(c, w, "handler", 1)
    role = c.build(Role, some_blocks(c, "rt", b), some_blocks(c, "rh", rh))
    parent = inc
    if c.flag("in a block"):
        c.cover("nested")
        parent = c.new(PBlock, path="", block=[], rescue=[], always=[], _parent=inc)
    t = b.block[0]
    c.put(t, _parent=parent, _role=role, action=c.choose("first", ("ping", "include_tasks")), play=object())
    c.put(t, _uuid=c.uid("t_uuid"))
    c.assume(t._uuid != inc._uuid)
    # stop there
    c.put(d, _breakpoints={1: bp(c, 1, PATHS[0], 0, None)})

    def act():
        c.prove("the tasks of the role are registered before it stops", p.done)
        c.prove("and its handlers", ph.done)
        c.cover("role")
        for x in st.threads.values():
            c.put(x, state=S.ThreadState.CONTINUE)

    c.put(st._waiting_condition, env=act)
    start(c, st, h, t)
    c.prove("the tasks of the role are registered", p.done)
    c.prove("the handlers of the role are registered", ph.done)
