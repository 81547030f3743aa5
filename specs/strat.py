"""Ansible objects and debug states for the contracts of the strategy plugin."""
from __future__ import annotations

import ansibug.ansible_collections.ansibug.dap.plugins.strategy.debug as S
from ansible import constants as C
from ansible.errors import AnsibleError
from ansible.playbook.block import Block
from ansible.playbook.task import Task
import ansibug._debuggee as dbg
from ansibug import dap

from specs.common import PATHS, Blocked, make_debugger, req

TS = S.ThreadState
INCLUDES = list(C._ACTION_ALL_INCLUDES)


class FHost:
    def __init__(self, uid, name):
        self.uid = uid
        self.name = name

    def get_name(self):
        return self.name

    def __eq__(self, o):
        return isinstance(o, FHost) and self.uid == o.uid

    def __hash__(self):
        return 7


class FTask(Task):
    """a task; only what the plugin may look at"""

    _vc_ok_ = True
    _parent = None
    _uuid = None
    _role = None
    action = None
    args = None
    name = None
    path = None
    play = None

    def get_path(self):
        return self.path

    def get_name(self, include_role_fqcn=True):
        return self.name


class FBlock(Block):
    _vc_ok_ = True
    _parent = None
    _uuid = None
    rescue = None
    always = None
    block = None


class FTemplar:
    def __init__(self, loader=None, variables=None, *a):
        self._loader = loader
        self.available_variables = variables

    def template(self, value, fail_on_undefined=True):
        return value

    def copy_with_new_env(self, environment_class=None):
        return self


class FConditional:
    """the outcome of a condition is a function of its text"""

    def __init__(self, loader=None):
        self.when = []

    def evaluate_conditional(self, templar, all_vars):
        for w in self.when:
            if outcome(w) is None:
                raise AnsibleError("the conditional check failed")
            if not outcome(w):
                return False
        return True


def outcome(cond):
    return {"yes": True, "no": False}.get(cond)


CONDS = (None, "", "yes", "no", "broken")


def holds(cond):
    return not cond or outcome(cond) is True


def make_state(c):
    d = make_debugger(c)
    c.external(S, "Templar", FTemplar)
    c.external(S, "Conditional", FConditional)
    st = c.build(S.AnsibleDebugState, d, None, None)
    return d, st


def host(c, name="host"):
    return c.build(FHost, c.uid(name + "_uid"), c.text(name + "_name"))


def other_host(c, h):
    o = c.build(FHost, c.uid("other_uid"), c.text("other_name"))
    c.assume(o.uid != h.uid)
    return o


def add_threads(c, d, st, h, state, tid, frames, others=True, states=(TS.CONTINUE,)):
    """threads: main, the thread of `h` (if state is given), others"""
    parts = [[(1, st.threads[1])]]
    t = None
    if state is not None:
        t = c.build(S.AnsibleThread, id=tid, host=h)
        c.put(t, state=state, stack_frames=frames)
        parts.append([(tid, t)])

    def other(i):
        o = other_host(c, h)
        i = c.uid("other_tid")
        x = c.build(S.AnsibleThread, id=i, host=o)
        c.put(x, state=c.choose("other_state", states))
        return i, x

    def kept(kv):
        return [("other threads stay themselves", c.all(kv[1].id == kv[0], any(kv[1].state is x for x in states)))]

    top = d._thread_counter
    keys = lambda k: c.all(k > 1, k < top)
    if others:
        parts.insert(1, c.some("before", other, kept if len(states) > 1 else None, dict=True, keypred=keys))
        parts.append(c.some("after", other, kept if len(states) > 1 else None, dict=True, keypred=keys))
    c.put(st, threads=c.dict_of(*parts))
    return t


def include_task(c, name, parent=None, action=None):
    return c.new(
        FTask,
        _uuid=c.uid(name + "_uuid"),
        action=action or c.choose(name + "_action", ("include_tasks", "ansible.builtin.include_role")),
        _parent=parent,
        name=c.text(name + "_name"),
        path=None,
        args=None,
        _role=None,
    )


BLOCK = (FBlock, {"_uuid": -3, "rescue": None, "always": None, "block": None})
IMPORT = (FTask, {"_uuid": -2, "action": "import_tasks", "name": "imp", "path": None, "args": None, "_role": None})


def parents(c, name, top, kinds=(BLOCK, IMPORT)):
    """any mixture of blocks and imports between a task and its enclosing include `top` (or None)"""
    return c.chain(name, list(kinds), "_parent", top)


def task(c, name, parent, action=None, path=None):
    return c.new(
        FTask,
        _uuid=c.uid(name + "_uuid"),
        action=action or c.choose(name + "_action", ("ping", "include_tasks")),
        _parent=parent,
        name=c.text(name + "_name"),
        path=path,
        args=None,
        _role=None,
    )


def start(c, st, h, t, tv=None):
    try:
        st.start_task(h, t, {} if tv is None else tv)
    except Blocked:
        return "blocked"
    except S.EndStrategy:
        return "ended"
    return "runs"


def events(c, d, cls):
    return c.pick(d._send_queue.items, lambda m: isinstance(m, cls))


class FResult:
    """a task result"""

    def __init__(self, host, task, kind="ok", result=None, fields=None):
        self._host = host
        self._task = task
        self._kind = kind
        self._result = {} if result is None else result
        self._task_fields = {} if fields is None else fields

    def is_failed(self):
        return self._kind == "failed"

    def is_unreachable(self):
        return self._kind == "unreachable"

    def is_skipped(self):
        return self._kind == "skipped"


def bp(c, i, path, line, end, cond=None):
    src = dap.Source(path=path)
    return dbg.AnsibleLineBreakpoint(
        id=i,
        source=src,
        source_breakpoint=dap.SourceBreakpoint(line=line, condition=cond),
        breakpoint=dap.Breakpoint(id=i, verified=True, source=src, line=line, end_line=end),
        actual_path=path,
        source_path=path,
    )
