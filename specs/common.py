"""Models of the environment shared by the contracts (run in both modes)."""
from __future__ import annotations

import json
import os
import queue
import threading

import ansibug._debuggee as dbg
from ansibug import dap


class Blocked(BaseException):
    """the code would wait for something that never happens in this scenario"""


class FakeQueue:
    """unbounded FIFO (queue.Queue)"""

    def __init__(self, *a):
        self.items = []

    def put(self, x):
        self.items.append(x)

    def get(self, block=True, timeout=None):
        if len(self.items) == 0:
            if not block:
                raise queue.Empty()
            raise Blocked()
        return self.items.pop(0)

    def get_nowait(self):
        return self.get(False)

    def put_nowait(self, x):
        self.put(x)

    def empty(self):
        return len(self.items) == 0

    def qsize(self):
        return len(self.items)


class FakeEvent:
    def __init__(self):
        self.flag = False
        self.waits = 0

    def set(self):
        self.flag = True

    def is_set(self):
        return self.flag

    def clear(self):
        self.flag = False

    def wait(self, timeout=None):
        self.waits += 1
        return self.flag


class FakeLock:
    """threading.Lock: waits forever when acquired twice"""

    strict = True

    def __init__(self, *a):
        self.depth = 0

    def acquire(self, *a):
        if self.strict and self.depth > 0:
            raise Blocked()
        self.depth += 1
        return True

    def release(self):
        if self.depth <= 0:
            raise RuntimeError("release unlocked lock")
        self.depth -= 1

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


class FakeRLock(FakeLock):
    strict = False


class FakeCond:
    """threading.Condition; `env` (set by the harness) acts while a thread waits"""

    def __init__(self, lock=None):
        self.depth = 0
        self.notified = 0
        self.env = None

    def acquire(self, *a):
        self.depth += 1
        return True

    def release(self):
        self.depth -= 1

    def __enter__(self):
        self.depth += 1
        return True

    def __exit__(self, *a):
        self.depth -= 1

    def notify_all(self):
        if self.depth <= 0:
            raise RuntimeError("cannot notify on un-acquired lock")
        self.notified += 1

    def notify(self, n=1):
        self.notify_all()

    def wait_for(self, pred, timeout=None):
        if self.depth <= 0:
            raise RuntimeError("cannot wait on un-acquired lock")
        r = pred()
        if r:
            return r
        if self.env is None:
            raise Blocked()
        self.env()
        r = pred()
        if not r:
            raise Blocked()
        return r

    def wait(self, timeout=None):
        if self.env is None:
            raise Blocked()
        self.env()
        return True


class FakeThread:
    def __init__(self, target=None, args=(), kwargs=None, name=None, daemon=None):
        self.target = target
        self.args = args
        self.name = name
        self.started = 0
        self.joined = 0

    def start(self):
        self.started += 1

    def join(self, timeout=None):
        self.joined += 1

    def is_alive(self):
        return self.started > 0 and self.joined == 0


def fake_threading(c):
    c.external(threading, "Event", FakeEvent)
    c.external(threading, "Lock", FakeLock)
    c.external(threading, "RLock", FakeRLock)
    c.external(threading, "Condition", FakeCond)
    c.external(threading, "Thread", FakeThread)
    c.external(queue, "Queue", FakeQueue)


DIR = object()


class Fs:
    """a file system: absolute path -> content, or DIR"""

    def __init__(self):
        self.files = {}
        self.cwd = "/cwd"

    def key(self, path):
        return os.path.join(self.cwd, os.fspath(path))

    def unlink(self, path):
        p = self.key(path)
        if p not in self.files:
            raise FileNotFoundError(2, "No such file")
        del self.files[p]


class FsPath:
    """pathlib.Path on such a file system"""

    def __init__(self, fs, *parts):
        self.fs = fs
        self.text = os.path.join(*[os.fspath(p) for p in parts])

    def __fspath__(self):
        return self.text

    def __str__(self):
        return self.text

    def as_posix(self):
        return self.text

    def __truediv__(self, other):
        return FsPath(self.fs, self.text, other)

    def joinpath(self, *parts):
        return FsPath(self.fs, self.text, *parts)

    @property
    def parent(self):
        return FsPath(self.fs, os.path.dirname(self.text))

    @property
    def name(self):
        return os.path.basename(self.text)

    def expanduser(self):
        return FsPath(self.fs, os.path.expanduser(self.text))

    def absolute(self):
        return FsPath(self.fs, self.fs.cwd, self.text)

    def resolve(self, strict=False):
        return self.absolute()

    def key(self):
        return self.fs.key(self.text)

    def exists(self):
        return self.key() in self.fs.files

    def is_file(self):
        return self.key() in self.fs.files and self.fs.files[self.key()] is not DIR

    def is_dir(self):
        return self.key() in self.fs.files and self.fs.files[self.key()] is DIR

    def unlink(self, missing_ok=False):
        if self.key() not in self.fs.files and missing_ok:
            return
        self.fs.unlink(self.text)

    def read_text(self, *a, **k):
        if self.key() not in self.fs.files:
            raise FileNotFoundError(2, "No such file")
        return self.fs.files[self.key()]

    def write_text(self, data, *a, **k):
        self.fs.files[self.key()] = data

    def mkdir(self, *a, **k):
        self.fs.files[self.key()] = DIR


class FakePath:
    """the process info file"""

    def __init__(self):
        self.content = None
        self.unlinked = 0

    def write_text(self, data, *a, **k):
        self.content = data

    def read_text(self, *a, **k):
        return self.content

    def exists(self):
        return self.content is not None

    def unlink(self, missing_ok=False):
        if self.content is None and not missing_ok:
            raise FileNotFoundError()
        self.unlinked += 1
        self.content = None


class Json:
    """contract of json: loads gives back what was given to dumps (for values made of
    text keys, texts, numbers, lists)"""

    def __init__(self, c):
        self.c = c
        self.known = []

    def dumps(self, o, *a, **k):
        t = self.c.text("json", nonempty=True)
        self.known.append((t, o))
        return t

    def loads(self, t, *a, **k):
        for x, o in self.known:
            if x is t:
                return o
        raise ValueError("not JSON")


def fake_json(c):
    if c.sym:
        j = c.build(Json, c)
        c.model(json.dumps, lambda o, *a, **k: j.dumps(o))
        c.model(json.loads, lambda t, *a, **k: j.loads(t))


def req(c, cls, **k):
    """a request with an arbitrary seq"""
    r = cls(**k)
    return c.put(r, seq=c.int("seq", lo=1))


def last_msg(d):
    return d._send_queue.items[len(d._send_queue.items) - 1]


def make_debugger(c):
    """the debugger object in its initial state"""
    fake_threading(c)
    c.model(os.getpid, lambda: 4242)
    info = c.build(FakePath)
    c.patch(dbg, "get_pid_info_path", lambda pid: info)
    d = c.new(dbg.AnsibleDebugger)
    dbg.AnsibleDebugger.__init__(d)
    return d


def make_mapping(c, name):
    return dbg.PathMapping(local_root=c.text(name + "_local", cands=ROOTS), remote_root=c.text(name + "_remote", cands=ROOTS))


ROOTS = ["/a", "/a/", "/a/b", "/b", "", "/", "/remote", "/remote/x", "a", "C:\\x"]
PATHS = ["/a/b/c.yml", "/a/x.yml", "/ab", "/b/main.yml", "/remote/x/y.yml", "/other", "a", "", "/a", "/a/"]


def learn_tables():
    """Fills the per class caches of the message classes with concrete calls (the
    tables do not depend on any input), so that contracts start from them."""
    import ansibug.dap as m

    for cls in list(vars(m).values()):
        if isinstance(cls, type) and hasattr(cls, "_dap"):
            try:
                cls.unpack({})
            except Exception:
                pass
