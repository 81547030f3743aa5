"""Symbolic execution engine: path exploration, obligations, loop summaries."""
from __future__ import annotations

import time

import z3

from .base import PathEnd, Restart, State, SymBase, Unsupported
from .cont import Chunk, VArr, VDict, VIter, VList, VSeq, VSet, key_eq, merge
from .sym import Poison, SAny, SBool, SInt, isint, mkbool, mkint, zb, zi
from .text import SText, TVar, text_eq


_MISSING = object()


class Obligation:
    __slots__ = ("name", "status", "time", "backend", "model", "trace", "note")

    def __init__(self, name, status, t, backend, model=None, trace=(), note=""):
        self.name, self.status, self.time, self.backend = name, status, t, backend
        self.model, self.trace, self.note = model, tuple(trace), note


class Engine:
    give_up = 240
    stopped = False
    unroll = 10  # exact continuations of a while loop before a summary is forced

    def __init__(self, seed=0, timeout_ms=20000, deadline=None, max_paths=200000, max_restarts=100000):
        self.timeout_ms = timeout_ms
        self.deadline = deadline
        self.max_paths = max_paths
        self.max_restarts = max_restarts
        self.loopinfo = {}
        self.solver_time = 0.0
        self.queries = 0
        self.cvc5_used = 0
        self.nontrivial = True
        self.contracts = {}
        self.models = {}
        self.fallback = None
        self.native_ok = False
        self.buffer_factory = None
        self.log_forks = False
        self.functions = set()
        self.unsupported = []

    # ------------------------------------------------------------ exploration
    def explore(self, fn):
        """fn() is run once per path.  Returns when all paths are covered."""
        self.restarts = 0
        self.obligations = {}
        self.cover_at = {}
        self.paths = 0
        self.completed = 0
        self.loop_paths = 0
        self.wanted_covers = set()
        pending = [()]
        start = time.monotonic()
        seen = None
        while pending:
            trace = pending.pop()
            self._run(fn, trace, pending)
            now = time.monotonic()
            if now - start > self.give_up:
                # long after an obligation failed: no need to look at every other path
                if any(o.status != "proved" for o in self.obligations.values()):
                    seen = seen or now
                    if now - seen > self.give_up / 4:
                        self.stopped = True
                        return
                else:
                    seen = None
            t = self.restart_at
            if t is not None:
                # the summary of the loop opened at t changed: everything below it is redone
                self.restarts += 1
                if self.restarts > self.max_restarts:
                    raise Unsupported("loop summaries do not stabilise")
                n = len(t)
                pending[:] = [p for p in pending if p[:n] != t]
                self.obligations = {k: o for k, o in self.obligations.items() if o.trace[:n] != t}
                for c in self.cover_at.values():
                    c -= {x for x in c if x[:n] == t}
                pending.append(t)

    @property
    def covers(self):
        return {c: bool(self.cover_at.get(c)) for c in self.wanted_covers}

    def restart(self, trace):
        self.restart_at = tuple(trace)
        self.dead = True
        raise Restart()

    def _run(self, fn, trace, pending):
        self.paths += 1
        if self.paths > self.max_paths:
            raise Unsupported("too many paths")
        self.trace = list(trace)
        self.pos = 0
        self.pending = pending
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout_ms)
        self.pc = []
        self.memo = {}
        self.names = {}
        self.serial = 0
        self.objserial = {}
        self.keep = []
        self.wlog = []
        self.conts = []
        self.mat = {}
        self.keypass = []
        self.drawn = []
        self.loopcount = {}
        self.idents = {}
        self.inputs = {}
        self.undo = []
        self.append_specs = {}
        self.type_specs = {}
        self.dead = False
        self.arrays = []
        self.bounds = []
        self.ghosts = []
        self.input_objs = []
        self.native_mut = set()
        self.restart_at = None
        prev = State.eng
        State.eng = self
        try:
            fn()
            self.completed += 1
        except (PathEnd, Restart):
            pass
        finally:
            self.dead = True
            State.eng = prev
            for u in reversed(self.undo):
                u()
        if self.unsupported:
            raise self.unsupported[0]

    # ------------------------------------------------------------ basics
    def fresh_name(self, n):
        c = self.names.get(n, 0)
        self.names[n] = c + 1
        return n if c == 0 else f"{n}!{c}"

    def next_serial(self):
        self.serial += 1
        return self.serial

    def register(self, o):
        if id(o) not in self.objserial:
            self.objserial[id(o)] = self.next_serial()
            self.keep.append(o)
        return o

    def serial_of(self, o):
        s = getattr(o, "serial", None) if isinstance(o, SymBase) and not isinstance(o, SAny) else None
        if s is not None:
            return s
        return self.objserial.get(id(o))

    def ident(self, o):
        k = id(o)
        if k not in self.idents:
            self.idents[k] = len(self.idents)
            self.keep.append(o)
        return self.idents[k]

    def add(self, z):
        self.pc.append(z)
        self.solver.add(z)

    def assume(self, c):
        if self.dead:
            raise PathEnd
        z = zb(c)
        z = z3.simplify(z)
        if z3.is_true(z):
            return
        if z3.is_false(z):
            self.dead = True
            raise PathEnd
        self.add(z)
        if self.pos >= len(self.trace):
            if self.check() == z3.unsat:
                self.dead = True
                raise PathEnd

    def check(self, *extra):
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise Unsupported("verification time budget exhausted")
        t = time.monotonic()
        self.queries += 1
        r = self.solver.check(*extra)
        self.solver_time += time.monotonic() - t
        return r

    def implied(self, z):
        z = z3.simplify(zb(z) if not isinstance(z, z3.BoolRef) else z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return self.check(z3.Not(z)) == z3.unsat

    def branch(self, z):
        if self.dead:
            raise PathEnd
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        if self.pos < len(self.trace):
            d = self.trace[self.pos]
        else:
            t = self.check(z)
            f = self.check(z3.Not(z)) if t != z3.unsat else z3.sat
            if t == z3.unsat:
                if self.check() == z3.unsat:
                    self.dead = True
                    raise PathEnd
                d = False
            elif f == z3.unsat:
                d = True
            else:
                d = True
                self.pending.append(tuple(self.trace) + (False,))
            self.trace.append(d)
        self.pos += 1
        self.add(z if d else z3.Not(z))
        return d

    def choose(self, name, n):
        """non deterministic choice 0..n-1"""
        for i in range(n - 1):
            b = z3.Bool(self.fresh_name(f"{name}={i}"))
            if self.branch(b):
                return i
        return n - 1

    def concretize_int(self, z):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        if self.check() != z3.sat:
            return None
        v = self.solver.model().eval(z, model_completion=True)
        if self.implied(z == v):
            return v.as_long()
        return None

    # ------------------------------------------------------------ obligations
    def prove(self, name, cond, note=""):
        if self.dead:
            raise PathEnd
        z = z3.simplify(zb(cond))
        key = (name, tuple(self.trace[: self.pos]), self.fresh_name("ob:" + name))
        if key in self.obligations:
            if not z3.is_true(z):
                self.add(z)
            return self.obligations[key].status == "proved"
        t = time.monotonic()
        backend = "z3"
        if z3.is_true(z):
            st, model = "proved", None
            backend = "simplifier"
        else:
            r = self.check(z3.Not(z))
            model = None
            if r == z3.unsat:
                st = "proved"
            elif r == z3.sat:
                st = "failed"
                model = self.model_hints(self.solver.model())
            else:
                st = "unknown"
                if self._cvc5(z):
                    st, backend = "proved", "cvc5"
        ob = Obligation(name, st, time.monotonic() - t, backend, model, self.trace[: self.pos], note)
        self.obligations[key] = ob
        if st != "proved" and z3.is_false(z):
            self.dead = True
            raise PathEnd
        self.add(z)
        return st == "proved"

    def _cvc5(self, z):
        try:
            import cvc5

            s = z3.Solver()
            for p in self.pc:
                s.add(p)
            s.add(z3.Not(z))
            smt = s.to_smt2()
            tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
            slv = cvc5.Solver(tm) if tm else cvc5.Solver()
            slv.setOption("tlimit-per", str(self.timeout_ms))
            slv.setOption("strings-exp", "true")
            slv.setLogic("ALL")
            par = cvc5.InputParser(slv)
            par.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, smt.replace("(check-sat)", ""), "q")
            sm = par.getSymbolManager()
            while True:
                c = par.nextCommand()
                if c.isNull():
                    break
                c.invoke(slv, sm)
            r = slv.checkSat()
            self.cvc5_used += 1
            return r.isUnsat()
        except Exception:
            return False

    def model_hints(self, m):
        out = {}
        for name, (kind, val) in self.inputs.items():
            try:
                if kind == "int":
                    v = m.eval(val, model_completion=True)
                    out[name] = v.as_long()
                elif kind == "bool":
                    out[name] = z3.is_true(m.eval(val, model_completion=True))
                elif kind == "text":
                    if val._z is not None:
                        v = m.eval(val._z, model_completion=True)
                        if z3.is_string_value(v):
                            out[name] = v.as_string()
                    else:
                        v = m.eval(val.ln, model_completion=True)
                        out[name + "#len"] = v.as_long()
                elif kind == "const":
                    out[name] = val
            except Exception:
                pass
        return out

    def cover(self, name):
        self.wanted_covers.add(name)
        if self.cover_at.get(name):
            return
        if self.check() == z3.sat:
            self.cover_at.setdefault(name, set()).add(tuple(self.trace[: self.pos]))

    # ------------------------------------------------------------ writes
    def reg(self, o):
        self.conts.append(o)
        return self.next_serial()

    def log_container(self, o):
        self.wlog.append(("cont", o, None, cstate(o)))

    def log_attr(self, o, name):
        d = getattr(o, "__dict__", None)
        self.wlog.append(("attr", o, name, d.get(name, _MISSING) if d is not None else _MISSING))

    def setattr(self, o, name, v):
        self.log_attr(o, name)
        object.__setattr__(o, name, v)

    def find_obj(self, serial):
        for o in self.keep:
            if self.objserial.get(id(o)) == serial:
                return o
        return None


# ---------------------------------------------------------------- snapshots
def cstate(o):
    if isinstance(o, VArr):
        return o.state()
    if isinstance(o, VSet):
        return cstate(o.d)
    if isinstance(o, VDict):
        return (list(o.parts), list(o.absent), o.ver)
    if hasattr(o, "_cstate_"):
        return o._cstate_()
    return (list(o.parts),)


def cset(o, st):
    if isinstance(o, VArr):
        o.vals, o.none, o.n = st
    elif isinstance(o, VSet):
        cset(o.d, st)
    elif isinstance(o, VDict):
        o.parts, o.absent, o.ver = list(st[0]), list(st[1]), st[2]
    elif hasattr(o, "_cset_"):
        o._cset_(st)
    else:
        o.parts = list(st[0])


def same(a, b):
    """definitely the same value (no forking)"""
    if a is b:
        return True
    e = State.eng
    if isinstance(a, SInt) or isinstance(b, SInt):
        if isint(a) and isint(b):
            return e.implied(zi(a) == zi(b))
        return False
    if isinstance(a, SBool) or isinstance(b, SBool):
        if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
            return e.implied(zb(a) == zb(b))
        return False
    if isinstance(a, SText) and isinstance(b, SText):
        return a.key() == b.key()
    if isinstance(a, SegNode) and isinstance(b, SegNode):
        return a.seg is b.seg and e.implied(zi(a.i) == zi(b.i))
    if isinstance(a, SymBase) or isinstance(b, SymBase):
        return False
    if type(a) is type(b) and isinstance(a, (int, str, bytes, float, bool, tuple, type(None))):
        try:
            return bool(a == b)
        except Exception:
            return False
    return False


class SegNode(SymBase):
    """the i-th node of a chain segment of unknown length (see Seg)"""

    def __init__(self, seg, i):
        object.__setattr__(self, "seg", seg)
        object.__setattr__(self, "i", i)

    @property
    def pycls(self):
        return self.seg.kind(self)[0]

    def __getattr__(self, n):
        return object.__getattribute__(self, "seg").attr(self, n)

    def __setattr__(self, n, v):
        raise Unsupported("write to a chain node")

    def __bool__(self):
        return True

    def __eq__(self, o):
        if isinstance(o, SegNode) and o.seg is self.seg:
            return mkbool(zi(self.i) == zi(o.i))
        return False

    def __ne__(self, o):
        from .sym import not_

        return not_(self.__eq__(o))

    def __hash__(self):
        raise Unsupported("hash of a chain node")


class Seg:
    """`n` nodes linked by `link`; the last one links to `nxt`.  Every node is of
    one of `kinds`: (class, attributes)."""

    def __init__(self, name, kinds, link, n, nxt):
        self.name, self.kinds, self.link, self.n, self.nxt = name, kinds, link, zi(n), nxt
        self.kindf = z3.Function(State.eng.fresh_name(name + "_kind"), z3.IntSort(), z3.IntSort())

    def kind(self, node):
        for j, k in enumerate(self.kinds[:-1]):
            if State.eng.branch(self.kindf(zi(node.i)) == j):
                return k
        return self.kinds[-1]

    def attr(self, node, a):
        e = State.eng
        if a == self.link:
            if e.branch(zi(node.i) + 1 < self.n):
                return SegNode(self, mkint(zi(node.i) + 1))
            return self.nxt
        attrs = self.kind(node)[1]
        if a in attrs:
            v = attrs[a]
            return v(node) if callable(v) else v
        raise Unsupported(f"attribute {a!r} of a {self.name} node")


# ---------------------------------------------------------------- loops
class LoopInfo:
    def __init__(self):
        self.modes = {}
        self.dead = set()
        self.drain = False
        self.taint = False


class Cut:
    pass


def cut_find(e, serial):
    for o in e.conts:
        if o.serial == serial:
            return o
    return None


def _psame(p, q):
    if p is q:
        return True
    if isinstance(p, Chunk) and isinstance(q, Chunk):
        return p.root is q.root and (p.n.eq(q.n) or State.eng.implied(p.n == q.n))
    if isinstance(p, tuple) and isinstance(q, tuple) and len(p) == 2 and len(q) == 2:
        return p[0] is q[0] and (p[1] is q[1] or same(p[1], q[1]))
    if isinstance(p, Chunk) or isinstance(q, Chunk):
        return False
    return same(p, q)


def normalise(parts):
    """undo the splitting of chunks by look-ups (unchanged elements only)"""
    e = State.eng
    out = []
    for p in parts:
        m = e.mat.get(id(p))
        if m is not None and m[0] is p:
            c = m[1].with_n(z3.IntVal(1))
            c.root = m[1]
            out.append(c)
        else:
            out.append(p)
    return merge(out)


def intlocals(env):
    return [
        (n, v)
        for n, v in sorted(env.items())
        if isint(v) and not isinstance(v, bool) and not n.startswith("_vc")
    ]


def text_same(a, b):
    """definitely equal texts (no forking)"""
    r = text_eq(a, b)
    return r if isinstance(r, bool) else State.eng.implied(zb(r))


def textof(v):
    """(the text, its class) of a text value or buffer, else None"""
    if isinstance(v, SText):
        return v, v.kind
    if isinstance(v, (str, bytes)):
        return SText([v], type(v)), type(v)
    if type(v).__name__ == "VBytes":
        return v.t, bytearray
    return None


class LoopBase:
    """Head and closing of an arbitrary iteration.

    At the head every location the body may change (`modes`, discovered by
    running the body) is replaced by an arbitrary value of its mode; the body is
    run once from there; when it reaches the head again the new state must again
    be described by the modes and by the candidate invariants that survive
    (Houdini).  Anything else aborts with Unsupported.
    """

    is_for = False
    elem = _MISSING
    elem_serials = (0, 0)

    def __init__(self, site, names):
        self.site = site
        self.names = names
        self.instances = 0
        self.upd = {}
        self.cut = None

    def open(self, env, chunk=None):
        e = State.eng
        self.instances += 1
        cnt = e.loopcount.get(self.site, 0)
        e.loopcount[self.site] = cnt + 1
        key = (self.site, tuple(e.trace[: e.pos]), cnt)
        info = e.loopinfo.get(key)
        if info is None:
            info = e.loopinfo[key] = LoopInfo()
        k = z3.Int(e.fresh_name("k"))
        e.add(k >= 0)
        cut = Cut()
        cut.info, cut.k = info, k
        cut.trace = key[1]
        cut.serial = e.next_serial()
        cut.head, cut.init, cut.objs = {}, {}, {}
        ints = []
        opts = []
        texts = []
        for loc, mode in list(info.modes.items()):
            o = None
            if loc[0] == "attr":
                o = e.find_obj(loc[1])
                if o is None:
                    raise Unsupported("loop summary: object not found")
                v0 = o.__dict__.get(loc[2], _MISSING)
            elif loc[0] == "cont":
                o = cut_find(e, loc[1])
                if o is None:
                    raise Unsupported("loop summary: container not found")
                v0 = cstate(o)
            else:
                v0 = env.get(loc[1], _MISSING)
            cut.objs[loc] = o
            cut.init[loc] = v0
            if mode[0] == "text":
                texts.append(loc)
                hv = self.havoc_text(cut, loc, mode, v0, texts)
            else:
                hv = self.havoc(cut, loc, mode, o, v0, k, chunk)
            cut.head[loc] = hv
            if mode[0] in ("int", "lin"):
                ints.append((loc, v0, hv))
            if mode[0] == "optint":
                opts.append((loc, v0, hv))
            if loc[0] == "local":
                self.upd[loc[1]] = hv
            elif loc[0] == "attr":
                e.log_attr(o, loc[2])
                object.__setattr__(o, loc[2], hv)
            else:
                e.log_container(o)
                cset(o, hv)
        live = []
        m0 = {loc: v0 for loc, v0, _ in ints + opts}
        mh = {loc: hv for loc, _, hv in ints + opts}
        for n, f in self.candidates(cut, ints, env, opts):
            if n in info.dead:
                continue
            if e.implied(f(m0)):
                live.append((n, f))
            else:
                info.dead.add(n)
        for n, f in live:
            e.add(f(mh))
        cut.cands = live
        cut.texts = texts
        cut.ints = ints + opts
        env.update(self.upd)
        cut.env = dict(env)
        cut.wstart = len(e.wlog)
        self.cut = cut
        return k

    def havoc_text(self, cut, loc, mode, v0, texts):
        """an arbitrary text, or (while that is inductive) the one before the
        loop or that of another changed location"""
        info = cut.info
        t0 = textof(v0)
        if t0 is None:
            raise Unsupported("loop changes a value into a text")
        t0 = t0[0]
        t = None
        if ("text", loc, None) not in info.dead:
            t = t0
        else:
            for l2 in texts[:-1]:
                if ("text", loc, l2) in info.dead:
                    continue
                b0 = textof(cut.init[l2])[0]
                if info.modes[l2][1] is not mode[1] and str in (info.modes[l2][1], mode[1]) or not text_same(t0, b0):
                    info.dead.add(("text", loc, l2))
                    continue
                t = textof(cut.head[l2])[0]
                break
        if t is None:
            t = SText([TVar("h_" + str(loc[-1]))], t0.kind)
        if mode[1] is bytearray and loc[0] != "cont":
            from .rt import VBytes

            return VBytes(t)
        return t

    def close_texts(self, cut, cur):
        drop = set()
        for i, loc in enumerate(cut.texts):
            c = textof(cur(loc))[0]
            if ("text", loc, None) not in cut.info.dead:
                if not text_same(c, textof(cut.init[loc])[0]):
                    drop.add(("text", loc, None))
                continue
            for l2 in cut.texts[:i]:
                if ("text", loc, l2) not in cut.info.dead:
                    if not text_same(c, textof(cur(l2))[0]):
                        drop.add(("text", loc, l2))
                    break
        return drop

    def havoc(self, cut, loc, mode, o, v0, k, chunk):
        e = State.eng
        m = mode[0]
        nm = str(loc[-1]) if loc[0] != "cont" else f"c{loc[1]}"
        if m == "lin":
            return mkint(zi(v0) + mode[1] * k)
        if m == "int":
            return SInt(z3.Int(e.fresh_name("h_" + nm)))
        if m == "bool":
            return SBool(z3.Bool(e.fresh_name("h_" + nm)))
        if m == "optint":
            if e.branch(z3.Bool(e.fresh_name("hn_" + nm))):
                return None
            return SInt(z3.Int(e.fresh_name("h_" + nm)))
        if m == "poison":
            return Poison(nm)
        if m == "choice":
            vals = [v0]
            for d in mode[1]:
                v = d[1] if d[0] == "const" else e.find_obj(d[1])
                if v is None and d[0] == "obj":
                    raise Unsupported("loop summary: value not found")
                vals.append(v)
            return vals[e.choose("h_" + nm, len(vals))]
        if m == "segptr":
            if not isinstance(v0, SegNode):
                raise Unsupported("chain pointer")
            i = z3.Int(e.fresh_name("hi_" + nm))
            e.assume(z3.And(i >= zi(v0.i), i < v0.seg.n))
            return SegNode(v0.seg, SInt(i))
        if m == "append":
            parts = list(v0[0])
            if mode[1] is not None:
                n = z3.simplify(k * mode[1])
            else:
                n = z3.Int(e.fresh_name("n_app"))
                e.add(n >= 0)
            spec = e.append_specs.get(id(o))
            if mode[2] == "elem" and chunk is not None and mode[1] == 1 and not getattr(chunk, "view", None) and chunk.const is None and isinstance(o, VList) and mode[3] is None:
                # the elements so far, as they are
                c = chunk.with_n(n)
            elif mode[2] == "elem" and chunk is not None:
                c = Chunk("sub_" + chunk.name, n, chunk._produce, chunk.check, chunk.keypred)
                c.source_pass = self  # its keys were drawn by this pass over a dictionary
            elif isinstance(mode[2], tuple) and mode[2][0] == "type" and spec is None:
                c = Chunk("app", n, e.type_specs[mode[2][1]][0], None)
            elif isinstance(mode[2], tuple) and mode[2][0] == "key" and chunk is not None:

                def prod(k, key=None, chunk=chunk, v=mode[2][1]):
                    x = chunk._produce(k)
                    if key is not None:
                        q = key_eq(x, key)
                        e.assume(q if isinstance(q, bool) else zb(q))
                        x = key
                    return (x, v)

                c = Chunk("keys_" + chunk.name, n, prod, None)
            else:
                c = Chunk("app", n, spec[0] if spec else None, None)
            if mode[3] is not None:
                kob = e.find_obj(mode[3][1])
                lo = zi(cut.init[mode[3]] if mode[3] in cut.init else kob.__dict__[mode[3][2]])
                c.keypred = lambda key, cut=cut, loc=mode[3], lo=lo: mkbool(
                    z3.And(zi(key) >= lo, zi(key) < zi(cut.head[loc]))
                )
            if isinstance(o, VDict):
                ab = list(v0[1])
                if mode[2] == "elem" and chunk is not None and getattr(chunk, "view", None):
                    d = chunk.view[0]
                    ab = ab + [p[0] for p in d.parts if not isinstance(p, Chunk)] + list(d.absent)
                return (parts + [c], ab, v0[2] + 1)
            return (parts + [c],)
        if m == "chunklin":
            out = normalise(v0[0])
            p = out[mode[1]]
            e.add(p.n + mode[2] * k >= 0)
            out[mode[1]] = p.with_n(p.n + mode[2] * k)
            return (out,) + tuple(v0[1:])
        if m == "chunklen":
            out = normalise(v0[0])
            p = out[mode[1]]
            n = z3.Int(e.fresh_name("n_h"))
            e.add(z3.And(n >= 0, n <= p.n))
            out[mode[1]] = p.with_n(n)
            return (out,) + tuple(v0[1:])
        if m == "custom":
            return o._havoc_(v0, k)
        raise Unsupported(f"loop mode {m}")

    def candidates(self, cut, ints, env, opts=()):
        e = State.eng
        out = []
        for loc, _, _ in opts:
            for l2, v2, _ in ints:
                for a in e.arrays:

                    def rel(m, loc=loc, l2=l2, none=a.none, vals=a.vals, n=a.n):
                        i, v = zi(m[l2]), m[loc]
                        if v is None:
                            return none(i)
                        return z3.And(z3.Not(none(i)), vals(i) == zi(v))

                    out.append((f"{loc} is element {l2} of {a.serial}", rel))
        for loc, v0, hv in ints:
            if not isint(v0):
                continue
            nm = str(loc)
            z0 = zi(v0)
            out.append((f"{nm}>=init", lambda m, l=loc, z0=z0: zi(m[l]) >= z0))
            out.append((f"{nm}<=init", lambda m, l=loc, z0=z0: zi(m[l]) <= z0))
            out.append((f"{nm}>=0", lambda m, l=loc: zi(m[l]) >= 0))
            for a in e.arrays:
                out.append((f"{nm}<len{a.serial}", lambda m, l=loc, n=a.n: zi(m[l]) < n))
                out.append((f"{nm}<=len{a.serial}", lambda m, l=loc, n=a.n: zi(m[l]) <= n))
                for gi, g in enumerate(e.ghosts):
                    out.append(
                        (
                            f"{nm}:g{gi} empty below",
                            lambda m, l=loc, z0=z0, g=g, a=a.none: z3.Implies(
                                z3.And(z0 <= g, g < zi(m[l])), a(g)
                            ),
                        )
                    )
                    out.append(
                        (
                            f"{nm}:g{gi} empty above",
                            lambda m, l=loc, z0=z0, g=g, a=a.none: z3.Implies(
                                z3.And(zi(m[l]) < g, g <= z0), a(g)
                            ),
                        )
                    )
            for nme, v in intlocals(env):
                if ("local", nme) not in cut.info.modes:
                    out.append((f"{nm}<={nme}", lambda m, l=loc, v=v: zi(m[l]) <= zi(v)))
                    out.append((f"{nm}<{nme}", lambda m, l=loc, v=v: zi(m[l]) < zi(v)))
                    out.append((f"{nm}>={nme}", lambda m, l=loc, v=v: zi(m[l]) >= zi(v)))
            for nme, z in e.bounds:
                out.append((f"{nm}<=~{nme}", lambda m, l=loc, z=z: zi(m[l]) <= z))
        for i, (l1, v1, _) in enumerate(ints):
            for l2, v2, _ in ints[i + 1 :]:
                if isint(v1) and isint(v2):
                    d = zi(v1) - zi(v2)
                    out.append((f"{l1}-{l2}", lambda m, a=l1, b=l2, d=d: zi(m[a]) - zi(m[b]) == d))
                    d2 = zi(v1) + zi(v2)
                    out.append((f"{l1}+{l2}", lambda m, a=l1, b=l2, d=d2: zi(m[a]) + zi(m[b]) == d))
        return out

    # closing ---------------------------------------------------------
    def close(self, env, view=None, chunk=None):
        """The body reached the head again.  Returns only for "continue"."""
        e = State.eng
        cut = self.cut
        info = cut.info
        changed = {}
        for n in self.names:
            cur = env.get(n, _MISSING)
            old = cut.env.get(n, _MISSING)
            if cur is not old:
                changed[("local", n)] = (None, cur, old)
        touched_elem = False
        for kind, o, name, before in e.wlog[cut.wstart :]:
            s = e.serial_of(o)
            if s is None:
                raise Unsupported(f"loop writes an untracked object ({type(o).__name__})")
            if s > cut.serial:
                if self.elem_serials[0] < s <= self.elem_serials[1]:
                    touched_elem = True
                continue
            if view is not None and o is view:
                continue
            loc = (kind, s, name) if kind == "attr" else (kind, s)
            if loc in changed:
                continue
            cur = o.__dict__.get(name, _MISSING) if kind == "attr" else cstate(o)
            changed[loc] = (o, cur, before)
        upgrade = cont = False
        for loc, (o, cur, old) in changed.items():
            mode = info.modes.get(loc)
            new = self.infer(cut, loc, mode, o, cur, old)
            if new == "ok" or new == mode:
                continue
            if new == "continue":
                cont = True
                continue
            info.modes[loc] = new
            upgrade = True
        if chunk is not None and touched_elem and chunk.check is None and not info.taint:
            info.taint = True
            upgrade = True
        if upgrade:
            info.dead.clear()
            e.restart(cut.trace)
        if cont:
            self.cut = None
            return "continue"
        cur_ints = {}
        for loc, v0, hv in cut.ints:
            if loc[0] == "local":
                cur_ints[loc] = env.get(loc[1])
            else:
                cur_ints[loc] = cut.objs[loc].__dict__.get(loc[2])
        drop = [n for n, f in cut.cands if not e.implied(f(cur_ints))]
        if cut.texts:
            drop += self.close_texts(
                cut,
                lambda loc: env.get(loc[1]) if loc[0] == "local" else cut.objs[loc].__dict__.get(loc[2]) if loc[0] == "attr" else cut.objs[loc],
            )
        if drop:
            info.dead.update(drop)
            e.restart(cut.trace)
        if chunk is not None and touched_elem and chunk.check is not None:
            for nm, c in chunk.check(self.elem):
                e.prove(nm, c)
        e.loop_paths += 1
        e.dead = True
        raise PathEnd()

    def infer(self, cut, loc, mode, o, cur, old):
        e = State.eng
        if isinstance(cur, Poison):
            return "ok" if cur is old or mode is not None and mode[0] == "poison" else ("poison",)
        if mode is not None:
            m = mode[0]
            if m == "poison":
                return "ok"
            if m == "text":
                ct = textof(cur)
                return "ok" if ct is not None and ct[1] is mode[1] or loc[0] == "cont" else ("poison",)
            if m == "lin":
                h = cut.head[loc]
                if isint(cur) and e.implied(zi(cur) == zi(h) + mode[1]):
                    return "ok"
                return ("int",) if isint(cur) else ("poison",)
            if m == "int":
                return "ok" if isint(cur) else ("poison",)
            if m == "bool":
                return "ok" if isinstance(cur, (bool, SBool)) else ("poison",)
            if m == "optint":
                return "ok" if cur is None or isint(cur) else ("poison",)
            if m == "segptr":
                if isinstance(cur, SegNode) and cur.seg is cut.head[loc].seg:
                    return "ok"
                return ("poison",) if self.is_for else "continue"
            if m == "choice":
                if same(cur, cut.init[loc]):
                    return "ok"
                d = self._choicedesc(cut, cur)
                if d is None:
                    return ("poison",)
                if d in mode[1]:
                    return "ok"
                return ("choice", mode[1] + (d,)) if len(mode[1]) < 4 else ("poison",)
            if m == "append":
                return self._append_fits(cut, mode, o, cur, cut.head[loc])
            if m == "chunklin":
                a, b = normalise(cur[0]), cut.head[loc][0]
                if len(a) == len(b) and all(
                    _psame(p, q)
                    or (
                        i == mode[1]
                        and isinstance(p, Chunk)
                        and p.root is q.root
                        and e.implied(p.n == q.n + mode[2])
                    )
                    for i, (p, q) in enumerate(zip(a, b))
                ) and not _psame(a[mode[1]], b[mode[1]]):
                    return "ok"
                return ("chunklen", mode[1])
            if m == "chunklen":
                a, b = normalise(cur[0]), cut.head[loc][0]
                if len(a) == len(b) and all(
                    _psame(p, q) or (isinstance(p, Chunk) and isinstance(q, Chunk) and p.root is q.root)
                    for p, q in zip(a, b)
                ):
                    return "ok"
                b2 = [q for i, q in enumerate(b) if i != mode[1]]
                if len(a) == len(b2) and all(_psame(p, q) for p, q in zip(a, b2)):
                    return "ok"
                if not self.is_for and self.instances <= State.eng.unroll:
                    return "continue"
                raise Unsupported("loop changes the shape of a sequence")
            if m == "custom":
                if o._fits_(cur, cut.head[loc]):
                    return "ok"
                raise Unsupported(f"loop effect on {type(o).__name__}")
            raise Unsupported(m)
        # a location changed for the first time
        if loc[0] == "cont":
            if type(o).__name__ == "VBytes":
                if text_same(cur, old):
                    return "ok"
                return "continue" if not self.is_for and self.instances <= 2 else ("text", bytearray)
            if hasattr(o, "_havoc_"):
                return "ok" if o._same_(cur, old) else ("custom",)
            return self._cont_mode(cut, loc, o, cur, old)
        if old is not _MISSING and cur is not _MISSING and same(cur, old):
            return "ok"
        if cur is _MISSING:
            raise Unsupported("loop deletes a variable")
        if loc[0] == "local" and (old is _MISSING or loc[1].startswith("_vc")):
            return ("poison",)
        if old is _MISSING:
            raise Unsupported(f"loop creates attribute {loc}")
        exact = not self.is_for and self.instances <= State.eng.unroll
        if (cur is None and isint(old)) or (old is None and isint(cur)):
            if e.arrays and (isinstance(cur, SInt) or isinstance(old, SInt)):
                return ("optint",)
        if isint(cur) and not isinstance(cur, bool) and isint(old) and not isinstance(old, bool):
            if exact and isinstance(cur, int) and isinstance(old, int):
                return "continue"
            d = z3.simplify(zi(cur) - zi(old))
            if z3.is_int_value(d):
                return ("lin", d.as_long())
            return ("int",)
        if isinstance(cur, SegNode) and isinstance(old, SegNode) and cur.seg is old.seg:
            return ("segptr",)
        if exact:
            return "continue"
        ct, ot = textof(cur), textof(old)
        if ct is not None and ot is not None and ct[1] is ot[1]:
            if ct[1] is bytearray or len(ct[0].parts) >= len(ot[0].parts) and ct[0]._sw(ot[0]) is True:
                return ("text", ct[1])
        d = self._choicedesc(cut, cur)
        if d is not None and not isinstance(old, SymBase):
            return ("choice", (d,))
        if isinstance(cur, (bool, SBool)) and isinstance(old, (bool, SBool)):
            return ("bool",)
        return ("poison",)

    def _choicedesc(self, cut, v):
        import enum

        if not isinstance(v, SymBase) and isinstance(v, (int, str, bytes, bool, type(None), float, enum.Enum)):
            return ("const", v)
        s = State.eng.serial_of(v)
        if s is not None and s < cut.serial and not isinstance(v, SymBase):
            return ("obj", s)
        return None

    def _cont_mode(self, cut, loc, o, cur, old):
        if isinstance(o, VArr):
            if cur[0] is old[0] and cur[1] is old[1] and (cur[2] is old[2] or cur[2].eq(old[2])):
                return "ok"
            raise Unsupported("loop writes an array")
        a, b = normalise(cur[0]), normalise(old[0])
        if len(a) == len(b) and all(_psame(p, q) for p, q in zip(a, b)):
            return "ok"
        if len(a) > len(b) and all(_psame(p, q) for p, q in zip(a, b)):
            if not self.is_for and self.instances <= 2:
                return "continue"
            added = a[len(b) :]
            self._check_added(o, added)
            cnt = len(added) if not any(isinstance(p, Chunk) for p in added) else None
            return ("append", cnt, self._elem_kind(added), self._keyloc(cut, o, added))
        if len(a) == len(b):
            diff = [i for i, (p, q) in enumerate(zip(a, b)) if not _psame(p, q)]
            if len(diff) == 1:
                p, q = a[diff[0]], b[diff[0]]
                if isinstance(p, Chunk) and isinstance(q, Chunk) and p.root is q.root:
                    dn = z3.simplify(p.n - q.n)
                    if z3.is_int_value(dn):
                        return ("chunklin", diff[0], dn.as_long())
                    return ("chunklen", diff[0])
        if not self.is_for and self.instances <= State.eng.unroll:
            return "continue"
        raise Unsupported(f"loop changes a container in an unsupported way: {b} -> {a}")

    def _elem_kind(self, added):
        if self._elem_only(added):
            return "elem"
        # {element: constant}
        if self.elem is not _MISSING and added and all(
            isinstance(p, tuple) and len(p) == 2 and p[0] is self.elem and isinstance(p[1], (bool, int, str, type(None)))
            for p in added
        ):
            return ("key", added[0][1])
        cls = {type(p) for p in added if not isinstance(p, Chunk)}
        if len(cls) == 1 and not any(isinstance(p, Chunk) for p in added):
            cls = cls.pop()
            if cls in State.eng.type_specs:
                return ("type", cls)
        return "any"

    def _elem_only(self, added):
        it = self.elem
        if it is _MISSING:
            return False
        for p in added:
            if p is it:
                continue
            if isinstance(p, tuple) and isinstance(it, tuple) and len(p) == 2 and len(it) == 2:
                if p[0] is it[0] and p[1] is it[1]:
                    continue
            return False
        return True

    def _check_added(self, o, added):
        e = State.eng
        spec = e.append_specs.get(id(o))
        for p in added:
            if isinstance(p, Chunk):
                continue
            sp = spec or e.type_specs.get(type(p))
            if sp and sp[1] is not None:
                e.prove(sp[2], sp[1](p))

    def _append_fits(self, cut, mode, o, cur, head):
        a, b = normalise(cur[0]), normalise(head[0])
        if not (len(a) >= len(b) and all(_psame(p, q) for p, q in zip(a, b))):
            raise Unsupported("loop both appends to and changes a container")
        added = a[len(b) :]
        self._check_added(o, added)
        cnt = len(added) if not any(isinstance(p, Chunk) for p in added) else None
        if cnt != mode[1]:
            cnt = None
        kind = mode[2]
        if added and kind != "any" and self._elem_kind(added) != kind:
            kind = "any"
        kl = mode[3]
        if kl is not None and added and self._keyloc(cut, o, added, kl) is None:
            kl = None
        return "ok" if (cnt, kind, kl) == mode[1:] else ("append", cnt, kind, kl)

    def _keyloc(self, cut, o, added, only=None):
        """a counter that every inserted key was drawn from (so keys lie in
        [counter at entry, counter now))"""
        e = State.eng
        if not isinstance(o, VDict) or not added:
            return only
        if not all(isinstance(p, tuple) and isint(p[0]) for p in added):
            return None
        locs = []
        for kind, ob, name, before in e.wlog[cut.wstart :]:
            s = e.serial_of(ob)
            if kind == "attr" and s is not None and s < cut.serial and (kind, s, name) not in locs:
                locs.append((kind, s, name))
        for loc in [only] if only is not None else locs:
            ob = e.find_obj(loc[1])
            now = ob.__dict__.get(loc[2])
            mode = cut.info.modes.get(loc)
            head = cut.head.get(loc)
            if head is None or mode is None or mode[0] not in ("lin", "int") or not isint(now):
                if only is None and head is None and (mode is None or mode[0] in ("lin", "int")) and isint(now):
                    # not summarised yet: decided again on the next round
                    first = next(b for k_, o_, n_, b in e.wlog[cut.wstart :] if o_ is ob and n_ == loc[2])
                    head = first
                    if not isint(head):
                        continue
                else:
                    continue
            if all(e.implied(z3.And(zi(p[0]) >= zi(head), zi(p[0]) < zi(now))) for p in added):
                return loc
        return None


class ForLoop(LoopBase):
    is_for = True

    def __init__(self, parts, site, names, guard=None):
        super().__init__(site, names)
        self.parts = list(parts)
        self.idx = 0
        self.item = None
        self.guard = guard  # (dict, version): raise if its size changes
        self.view = None
        self.chunk = None

    def _check_guard(self):
        if self.guard is not None and self.guard[0].ver != self.guard[1]:
            raise RuntimeError("dictionary changed size during iteration")

    def more(self, env):
        e = State.eng
        if e is None or e.dead:
            raise PathEnd
        env = dict(env)
        if self.cut is not None:
            self._close_iter(env)
            raise Unsupported("for loop continuation")
        self.upd = {}
        while True:
            if self.idx >= len(self.parts):
                self._check_guard()
                return False
            p = self.parts[self.idx]
            if not isinstance(p, Chunk):
                self._check_guard()
                if self.guard is not None and len(self.guard[0].parts) == len(self.parts):
                    q = self.guard[0].parts[self.idx]
                    if isinstance(q, tuple):
                        e.keypass.append((q[0], self))
                self.idx += 1
                self.item = p
                return True
            if z3.is_int_value(p.n) and p.n.as_long() <= 0:
                self.idx += 1
                continue
            if self._enter(p, env):
                return True
            self.idx += 1

    def _enter(self, c, env):
        e = State.eng
        self._check_guard()
        k = self.open(env, c)
        cut = self.cut
        info = cut.info
        d = proj = None
        pi = None
        if getattr(c, "view", None):
            d, proj = c.view
            for i, q in enumerate(d.parts):
                if isinstance(q, Chunk) and q.root is c.root:
                    pi = i
                    if i == self.idx and _psame(q, c):
                        break
            if pi is not None and not _psame(d.parts[pi], c):
                raise Unsupported("iterated dictionary changed")
            if pi is None:
                if c.root._produce is not None and not getattr(c.root, "immutable", False):
                    raise Unsupported("iterated dictionary lost its content")
                d = None
        if e.branch(k < c.n):
            if info.taint:
                c.root.__dict__["tainted"] = False
            s0 = e.serial
            if c.const is not None:
                self.item = self.elem = c.const[0]
                self.elem_serials = (s0, s0)
                return True
            if d is not None:
                kv = c.produce(mkint(k))
                if isinstance(kv, Poison):
                    raise Unsupported(f"content of {c.name} is unknown")
                d._fresh_key_facts(kv[0])
                e.keypass.append((kv[0], self))
                ent = tuple(kv)
                e.mat[id(ent)] = (ent, c.root)
                left = [c.with_n(self._some_of(k))] if info.drain == "some" else [] if info.drain else [c.with_n(k)]
                d.parts[pi : pi + 1] = left + [ent, c.with_n(c.n - k - 1)]
                self.view = (d, list(d.parts), ent, len(d.absent))
                self.item = proj(ent)
                self.elem = ent
            else:
                self.item = self.elem = c.produce(mkint(k))
            self.elem_serials = (s0, e.serial)
            cut.wstart = len(e.wlog)  # making the element is not an effect of the body
            if info.taint:
                c.root.__dict__["tainted"] = True
            self.chunk = c
            return True
        e.assume(k == c.n)
        if info.drain and d is not None:
            e.log_container(d)
            left = [c.with_n(self._some_of(c.n))] if info.drain == "some" else []
            d.parts[pi : pi + 1] = left
        if info.taint:
            c.root.__dict__["tainted"] = True
        self.cut = None
        return False

    def _some_of(self, n):
        m = z3.Int(State.eng.fresh_name("kept"))
        State.eng.add(z3.And(m >= 0, m <= zi(n)))
        return m

    def _close_iter(self, env):
        e = State.eng
        view = None
        if self.view is not None:
            d, hparts, ent, nabs = self.view
            view = d
            cur, head = normalise(d.parts), normalise(hparts)
            gone = normalise([p for p in hparts if p is not ent])
            if len(cur) == len(head) and all(_psame(p, q) for p, q in zip(cur, head)):
                if self.cut.info.drain is True:
                    # entries are only sometimes removed
                    self.cut.info.drain = "some"
                    e.restart(self.cut.trace)
            elif len(cur) == len(gone) and all(_psame(p, q) for p, q in zip(cur, gone)):
                if not self.cut.info.drain:
                    self.cut.info.drain = True
                    e.restart(self.cut.trace)
            else:
                # value of the entry replaced
                rep = [p for p in d.parts if isinstance(p, tuple) and p[0] is ent[0]]
                rest = normalise([ent if (isinstance(p, tuple) and p[0] is ent[0]) else p for p in d.parts])
                if len(rep) == 1 and len(rest) == len(head) and all(_psame(p, q) for p, q in zip(rest, head)):
                    if self.chunk.check is None:
                        raise Unsupported("dictionary values replaced while iterating")
                    for nm, c in self.chunk.check(rep[0]):
                        e.prove(nm, c)
                else:
                    raise Unsupported("dictionary changed while iterating")
        return self.close(env, view=view, chunk=self.chunk)


class WhileLoop(LoopBase):
    def head(self, env):
        e = State.eng
        if e is None or e.dead:
            raise PathEnd
        env = dict(env)
        if self.cut is not None:
            self.upd = {}
            self.close(env)
        self.upd = {}
        self.open(env)
