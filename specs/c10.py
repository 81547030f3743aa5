"""C10 stack frames mirror running tasks and release everything when they end."""
from __future__ import annotations

from ansibug import dap
from pyvc.api import harness

from specs.common import PATHS, make_mapping, req
from specs.strat import BLOCK, IMPORT, TS, FBlock, FHost, FResult, FTask, S, host, include_task, make_state, other_host, parents, start, task


class W:
    pass


def frame(c, w, name, t, with_vars=True):
    """a frame of task t with an arbitrary number of variables; (frame, variable entries)"""
    i = c.uid(name + "_id", below=w.fc)
    f = c.build(S.AnsibleStackFrame, id=i, task=t, task_vars={}, debugger=w.d)
    if not with_vars:
        return f, []
    # one identified variable and any number of others
    v = c.uid(name + "_var", below=w.vc)
    keys, entries = c.linked(name + "_vars", lambda: c.uid("var", below=w.vc), lambda k: S.AnsibleVariable(k, f), keypred=lambda k: c.all(k >= 1, k < w.vc))
    c.put(f, variables=c.list_of([v], keys))
    f.the_var = v
    return f, [(v, c.build(S.AnsibleVariable, v, f))] + entries


def distinct(c, ids):
    for i in range(len(ids)):
        for j in range(i):
            c.assume(ids[i] != ids[j])


def world(c, stale, inside):
    """a host's thread with frames of earlier includes and, below, of the includes
    the next task is in; another host's thread with its own frame"""
    w = W()
    w.d, w.st = make_state(c)
    w.h = host(c)
    w.o = other_host(c, w.h)
    w.fc = c.counter("frame_counter", lo=1)
    w.vc = c.counter("variable_counter", lo=1)
    w.tc = c.counter("thread_counter", lo=3)
    c.put(w.d, _thread_counter=w.tc, _stackframe_counter=w.fc, _variable_counter=w.vc)
    outer = None
    w.deep = []
    w.kept = []
    entries = []
    vents = []
    if inside:
        if stale < 2 and c.flag("deep"):
            # an include around the include, with its frame below
            outer = include_task(c, "outer")
            f, ve = frame(c, w, "outer_frame", outer, False)
            w.deep.append(f)
            outer = parents(c, "between", outer)
        w.inc = include_task(c, "inc", outer)
        f, ve = frame(c, w, "inc_frame", w.inc, False)
        w.kept = [f] + w.deep
    else:
        w.inc = None
    w.stale = []
    for k in range(stale):
        # includes the task is not part of: siblings of the current one or nested in each other
        t = include_task(c, f"stale{k}", w.stale[-1].task if w.stale and c.flag("nested") else w.inc)
        if w.inc is not None:
            c.assume(t._uuid != w.inc._uuid)
        for f in w.deep:
            c.assume(t._uuid != f.task._uuid)
        f, ve = frame(c, w, f"stale{k}", t)
        w.stale.insert(0, f)
        entries.append((f.id, f))
        vents += ve
    w.other_frame, ove = frame(c, w, "of", task(c, "other_task", None, action="ping"))
    mine = w.stale + w.kept
    distinct(c, [f.id for f in mine] + [w.other_frame.id])
    distinct(c, [f.the_var for f in w.stale] + [w.other_frame.the_var])
    w.mine = [f.id for f in mine]

    def some_frame(i):
        k = c.uid("some_frame", below=w.fc)
        return k, c.build(S.AnsibleStackFrame, id=k, task=None, task_vars={}, debugger=w.d)

    def some_var(i):
        k = c.uid("some_var", below=w.vc)
        return k, S.AnsibleVariable(k, w.other_frame)

    fkeys = lambda k: c.all(k >= 1, k < w.fc)
    vkeys = lambda k: c.all(k >= 1, k < w.vc)
    c.put(
        w.st,
        stackframes=c.dict_of(
            c.some("frames", some_frame, dict=True, keypred=fkeys), [(f.id, f) for f in mine], [(w.other_frame.id, w.other_frame)]
        ),
        variables=c.dict_of(c.some("vars", some_var, dict=True, keypred=vkeys), vents, ove),
    )
    w.tid = c.uid("tid", below=w.tc)
    w.oid = c.uid("oid", below=w.tc)
    distinct(c, [w.tid, w.oid])
    c.assume(c.all(w.tid > 1, w.oid > 1))
    w.th = c.build(S.AnsibleThread, id=w.tid, host=w.h)
    w.oth = c.build(S.AnsibleThread, id=w.oid, host=w.o)
    c.put(w.th, stack_frames=list(w.mine))
    c.put(w.oth, stack_frames=[w.other_frame.id])
    c.put(w.st, threads=c.dict_of([(1, w.st.threads[1])], [(w.oid, w.oth)], [(w.tid, w.th)]))
    return w


def others_unchanged(c, w, nframes, nvars):
    c.prove("the other thread keeps its frame", c.all(len(w.oth.stack_frames) == 1, w.oth.stack_frames[0] == w.other_frame.id))
    c.prove("which still exists", w.other_frame.id in w.st.stackframes)
    c.prove("and is the same", w.st.stackframes[w.other_frame.id] is w.other_frame)
    c.prove("with its variables", w.other_frame.the_var in w.st.variables)
    c.prove("other frames are unchanged", len(w.st.stackframes) == nframes)
    c.prove("other variables are unchanged", len(w.st.variables) == nvars)


def starting(c, stale, inside):
    w = world(c, stale, inside)
    nf, nv = len(w.st.stackframes), len(w.st.variables)
    gone = 0
    for f in w.stale:
        gone = gone + len(f.variables)
    above = c.new(FBlock, _parent=w.inc, **BLOCK[1]) if stale > 1 and c.sym else parents(c, "task", w.inc)
    t = task(c, "task", above, path=None)
    for f in w.stale:
        c.assume(f.task._uuid != t._uuid)
    tv = {"a": 1}
    r = start(c, w.st, w.h, t, tv)
    c.cover("started")
    c.prove("the task starts", c.all(r == "runs", len(w.d._send_queue.items) == 0))
    fr = w.th.stack_frames
    c.prove("one new frame on top of those of its includes", len(fr) == 1 + len(w.kept))
    new = fr[0]
    c.prove("with an id never used", c.all(new >= w.fc, new < w.d._stackframe_counter))
    c.prove("it exists", new in w.st.stackframes)
    sf = w.st.stackframes[new]
    c.prove("for this task", c.all(sf.id == new, sf.task is t, sf.task_vars is tv, len(sf.variables) == 0))
    for i in range(len(w.kept)):
        c.prove("frames of its includes stay in place", fr[i + 1] == w.kept[i].id)
        c.prove("and exist", w.kept[i].id in w.st.stackframes)
        c.prove("unchanged", w.st.stackframes[w.kept[i].id] is w.kept[i])
    for f in w.stale:
        c.prove("frames of includes it is not part of are gone", f.id not in w.st.stackframes)
        c.prove("with their variables", f.the_var not in w.st.variables)
    others_unchanged(c, w, nf + 1 - len(w.stale), nv - gone)


@harness(covers=("started",), runs=300)
def start_task(c):
    starting(c, 0, c.flag("in_include"))


@harness(covers=("started",), runs=300)
def start_task_after_an_include(c):
    starting(c, 1, c.flag("in_include"))


@harness(covers=("started",), runs=300)
def start_task_after_two_includes(c):
    starting(c, 2, c.flag("in_include"))


@harness(covers=("started",), runs=200)
def start_task_after_many_includes(c):
    """any number of stale frames (without variables)"""
    w = world(c, 0, c.flag("in_include"))
    not_uuids = [w.inc._uuid] if w.inc is not None else []

    def value(k):
        t = include_task(c, "stale")
        for u in not_uuids + [f.task._uuid for f in w.deep]:
            c.assume(t._uuid != u)
        return c.build(S.AnsibleStackFrame, id=k, task=t, task_vars={}, debugger=w.d)

    ks, es = c.linked("stale", lambda: c.uid("stale_id", below=w.fc), value, keypred=lambda k: c.all(k >= 1, k < w.fc))
    c.put(w.th, stack_frames=c.list_of(ks, w.mine))
    n = len(w.th.stack_frames) - len(w.mine)
    c.put(w.st, stackframes=c.dict_of(es, w.st.stackframes))
    nf, nv = len(w.st.stackframes), len(w.st.variables)
    t = task(c, "task", parents(c, "task", w.inc), path=None)
    r = start(c, w.st, w.h, t)
    c.cover("started")
    fr = w.th.stack_frames
    c.prove("one new frame on top of those of its includes", len(fr) == 1 + len(w.kept))
    c.prove("for the task", w.st.stackframes[fr[0]].task is t)
    for i in range(len(w.kept)):
        c.prove("frames of its includes stay in place", fr[i + 1] == w.kept[i].id)
        c.prove("unchanged", w.st.stackframes[w.kept[i].id] is w.kept[i])
    others_unchanged(c, w, nf + 1 - n, nv)


@harness(covers=("started",), runs=100)
def start_task_of_a_new_host(c):
    w = world(c, 0, False)
    nf, nv = len(w.st.stackframes), len(w.st.variables)
    h2 = c.build(FHost, c.uid("new_host"), "new")
    c.assume(c.all(h2.uid != w.h.uid, h2.uid != w.o.uid))
    t = task(c, "task", parents(c, "task", None), path=None)
    r = start(c, w.st, h2, t)
    c.cover("started")
    tid = w.tc
    c.prove("a thread is added", tid in w.st.threads)
    th = w.st.threads[tid]
    c.prove("for the host, with one frame", c.all(th.host is h2, len(th.stack_frames) == 1))
    new = th.stack_frames[0]
    c.prove("with an id never used", c.all(new >= w.fc, new < w.d._stackframe_counter))
    c.prove("for the task", w.st.stackframes[new].task is t)
    c.prove("no other thread gets it", len(w.th.stack_frames) == 0)
    others_unchanged(c, w, nf + 1, nv)


@harness(covers=("removed", "kept"), runs=400)
def end_task(c):
    inside = c.flag("in_include")
    w = world(c, 0, inside)
    t = task(c, "task", w.inc, path=None)
    top, ve = frame(c, w, "top", t)
    distinct(c, [top.the_var, w.other_frame.the_var])
    for f in w.kept + [w.other_frame]:
        c.assume(f.id != top.id)
    w.th.stack_frames.insert(0, top.id)
    c.put(
        w.st,
        stackframes=c.dict_of(w.st.stackframes, [(top.id, top)]),
        variables=c.dict_of(w.st.variables, ve),
    )
    nf, nv = len(w.st.stackframes), len(w.st.variables)
    mine = len(top.variables)
    w.st.end_task(FResult(w.h, t, c.choose("kind", ("ok", "failed", "skipped"))))
    c.prove("nothing is queued", len(w.d._send_queue.items) == 0)
    if t.action == "ping":
        c.cover("removed")
        c.prove("the top frame is gone", c.all(len(w.th.stack_frames) == len(w.kept), top.id not in w.st.stackframes))
        c.prove("with its variables", top.the_var not in w.st.variables)
        others_unchanged(c, w, nf - 1, nv - mine)
    else:
        c.cover("kept")
        c.prove("an include's frame stays", c.all(len(w.th.stack_frames) == len(w.kept) + 1, w.th.stack_frames[0] == top.id))
        c.prove("and exists", top.id in w.st.stackframes)
        others_unchanged(c, w, nf, nv)
    k = len(w.th.stack_frames) - len(w.kept)
    for i in range(len(w.kept)):
        c.prove("frames below stay in place", w.th.stack_frames[i + k] == w.kept[i].id)


@harness(covers=("listed",), runs=300)
def stack_trace(c):
    d, st = make_state(c)
    fc = c.counter("frame_counter", lo=1)

    def mk(i, name="some"):
        k = c.uid(name + "_id", below=fc) if i is None else i
        path, line = c.text(name + "_path", cands=PATHS), c.int(name + "_line", lo=0)
        t = c.new(FTask, _uuid=1, _parent=None, name=c.text(name + "_name"), path=path + ":" + str(line), action="ping")
        return c.build(S.AnsibleStackFrame, id=k, task=t, task_vars={}, debugger=d), path, line

    f, path, line = mk(None, "focus")
    pk, pe = c.linked("above", lambda: c.uid("fid", below=fc), lambda k: mk(k)[0])
    qk, qe = c.linked("below", lambda: c.uid("gid", below=fc), lambda k: mk(k)[0])
    th = c.build(S.AnsibleThread, id=2, host=None)
    c.put(th, stack_frames=c.list_of(pk, [f.id], qk))
    c.put(st, stackframes=c.dict_of(pe, [(f.id, f)], qe), threads=c.mkdict([(1, st.threads[1]), (2, th)]))
    at = c.index_of(th.stack_frames, f.id)
    r = req(c, dap.StackTraceRequest, thread_id=2)
    resp = st.get_stacktrace(r)
    c.cover("listed")
    c.prove("it answers the request", c.all(isinstance(resp, dap.StackTraceResponse), resp.request_seq == r.seq))
    c.prove("one entry per frame", len(resp.stack_frames) == len(th.stack_frames))
    c.prove("counted", resp.total_frames == len(th.stack_frames))
    e = resp.stack_frames[at]
    c.prove("entry i is frame i", e.id == f.id)
    c.prove("with the task's name and line", c.all(e.name == f.task.name, e.line == line))
    c.prove("in the task's file", e.source.path == path)
