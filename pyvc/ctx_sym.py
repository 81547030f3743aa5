"""Harness context, symbolic mode."""
from __future__ import annotations

import builtins

import z3

from . import rt
from .base import PathEnd, State, SymBase, Unsupported
from .cont import Chunk, VArr, VDict, VList, VSet
from .engine import Seg, SegNode
from .sym import AnySort, SAny, SBool, SInt, mkbool, mkint, zb, zi
from .text import SText, TVar, int_to_bytes


class SymCtx:
    sym = True
    _vc_ok_ = True

    def __init__(self, eng):
        self.e = eng

    # ---- arbitrary values
    def _in(self, name, kind, v):
        self.e.inputs[name] = (kind, v)

    def int(self, name, lo=None, hi=None, pool=None):
        n = self.e.fresh_name(name)
        z = z3.Int(n)
        self._in(n, "int", z)
        if lo is not None:
            self.e.add(z >= zi(lo))
        if hi is not None:
            self.e.add(z <= zi(hi))
        return SInt(z)

    def bool(self, name):
        n = self.e.fresh_name(name)
        z = z3.Bool(n)
        self._in(n, "bool", z)
        return SBool(z)

    def _text(self, name, kind, excl, only, nonempty, absent, ascii, meta):
        n = self.e.fresh_name(name)
        v = TVar(n, None, excl, only, absent=absent, ascii=ascii)
        if meta:
            v.meta.update(meta)
        if nonempty:
            self.e.add(v.ln > 0)
        self._in(n, "text", v)
        return SText([v], kind)

    def text(self, name, excl="", only=None, nonempty=False, cands=(), absent=(), ascii=None, meta=None):
        return self._text(name, str, excl, only, nonempty, absent, ascii, meta)

    def bytes(self, name, excl="", only=None, nonempty=False, cands=(), absent=(), meta=None):
        return self._text(name, bytes, excl, only, nonempty, absent, None, meta)

    def buffers(self, factory):
        """what bytearray(n) makes"""
        self.e.buffer_factory = factory
        self.e.undo.append(lambda: setattr(self.e, "buffer_factory", None))

    def number(self, n, size, byteorder="little", signed=False):
        """the bytes of a number, as a text"""
        return int_to_bytes(n, size, byteorder, signed)

    def span(self, name, size, tag):
        """some bytes of a given length"""
        v = TVar(self.e.fresh_name(name), zi(size))
        v.meta["tag"] = tag
        return SText([v], bytes)

    def meta(self, t):
        return t.parts[0].meta.get("tag") if isinstance(t, SText) and len(t.parts) == 1 and isinstance(t.parts[0], TVar) else None

    def any(self, name, gen=None, kind=None):
        n = self.e.fresh_name(name)
        return SAny(z3.Const(n, AnySort), kind)

    def choose(self, name, options):
        options = builtins.list(options)
        n = self.e.fresh_name(name)
        i = self.e.choose(n, len(options))
        self._in(n, "const", i)
        return options[i]

    def flag(self, name):
        """an arbitrary bool, explored eagerly (native True/False)"""
        return self.choose(name, (False, True))

    def opt(self, name, make):
        return make() if self.flag(name + "?") else None

    def seq(self, name, produce, check=None, max=3, min=0):
        c = Chunk(name, None, produce, check)
        if min:
            self.e.add(c.n >= min)
        return VList([c])

    def dict(self, name, produce, check=None, max=3, focus=(), post=None, keypred=None):
        def prod(k, key=None):
            kv = produce(k)
            if key is not None:
                c = kv[0] == key
                self.assume(c)
            return kv

        d = VDict()
        d.parts.append(Chunk(name, None, prod, check, keypred=keypred))
        for kv in focus:
            d.parts.append(kv)
        if post:
            def prod2(k, key=None):
                kv = post(k)
                if key is not None:
                    self.assume(kv[0] == key)
                return kv

            d.parts.append(Chunk(name + "_post", None, prod2, check, keypred=keypred))
        return d

    def some(self, name, produce, check=None, max=3, keypred=None, dict=False):
        """an unknown number of elements, as parts for list_of/dict_of"""
        if dict:
            def prod(k, key=None):
                kv = produce(k)
                if key is not None:
                    self.assume(kv[0] == key)
                return kv

            return [Chunk(name, None, prod, check, keypred=keypred)]
        return [Chunk(name, None, produce, check)]

    def linked(self, name, make_key, make_value, max=3, keypred=None):
        """(keys, entries): an unknown number of keys and a dictionary entry for each"""
        ks = Chunk(name, None, lambda k: make_key())
        ks.linked = True

        def prod(k, key=None):
            key = make_key() if key is None else key
            return (key, make_value(key))

        es = Chunk(name + "_entries", ks.n, prod, keypred=keypred)
        es.keys_of = ks
        return [ks], [es]

    def list_of(self, *parts):
        v = VList([])
        for p in parts:
            v.parts.extend(p.parts if isinstance(p, VList) else p)
        return v

    def dict_of(self, *parts):
        d = VDict()
        for p in parts:
            d.parts.extend(p.parts if isinstance(p, (VList, VDict)) else p)
        return d

    def counter(self, name, lo=1):
        return self.int(name, lo=lo)

    def uid(self, name, below=None):
        """an identifier different from every other one"""
        n = self.int(name, lo=1)
        if below is not None:
            self.e.add(n.z < zi(below))
        return n

    def mkdict(self, pairs):
        return VDict(builtins.list(pairs))

    def new(self, cls, **attrs):
        o = object.__new__(cls)
        self.e.register(o)
        for k, v in attrs.items():
            object.__setattr__(o, k, self.tracked(v))
        return o

    def tracked(self, v):
        if type(v) is builtins.list:
            return VList(v)
        if type(v) is builtins.dict:
            return VDict(builtins.list(v.items()))
        if type(v) is set:
            return VSet(v)
        return v

    def put(self, o, **attrs):
        """set fields of an object during set-up"""
        for k, v in attrs.items():
            if not hasattr(o, k):
                raise Unsupported(f"{type(o).__name__} has no field {k!r}")
            object.__setattr__(o, k, self.tracked(v))
        return o

    def build(self, cls, *a, **k):
        return rt.call(cls, *a, **k)

    def patch(self, o, name, v):
        if not hasattr(o, name):
            raise Unsupported(f"{getattr(o, '__name__', o)!s} has no {name!r} to replace")
        old = o.__dict__[name] if name in getattr(o, "__dict__", {}) else getattr(o, name)
        setattr(o, name, v)
        self.e.undo.append(lambda: setattr(o, name, old))

    def model(self, f, g):
        """replace calls to the external function f by g"""
        self.e.models[f] = g
        self.e.undo.append(lambda: self.e.models.pop(f, None))

    def external(self, module, name, fake):
        """replace an external function/class by a model"""
        f = getattr(module, name)
        self.model(f, lambda *a, **k: rt.call(fake, *a, **k))

    def on_append(self, container, produce, check, name):
        """predicate on the elements appended by arbitrary loop iterations"""
        self.e.append_specs[id(container)] = (produce, check, name)

    def on_append_type(self, cls, produce, check, name):
        """the same for every container, by the class of the appended element"""
        self.e.type_specs[cls] = (produce, check, name)

    def table(self, name):
        """line table: arbitrary length >= 1, entries None/0/1, first and last registered"""
        a = self.array(name, (0, 1))
        self.e.add(a.n >= 1)
        self.e.add(z3.Not(a.none(z3.IntVal(0))))
        self.e.add(a.vals(z3.IntVal(0)) == 0)
        self.e.add(z3.Not(a.none(a.n - 1)))
        return a

    def ints(self, name, lo, hi):
        """an arbitrary function from integers to lo..hi"""
        e = self.e
        f = z3.Function(e.fresh_name(name), z3.IntSort(), z3.IntSort())

        def at(i):
            z = f(zi(i))
            e.add(z3.And(z >= lo, z <= hi))
            return SInt(z)

        at._vc_ok_ = True
        return at

    def dup(self, a):
        return VArr(a.vals, a.none, a.n) if isinstance(a, VArr) else VList(a.parts) if isinstance(a, VList) else a.copy()

    def array(self, name, rng=None):
        e = self.e
        f = z3.Function(e.fresh_name(name + "_v"), z3.IntSort(), z3.IntSort())
        b = z3.Function(e.fresh_name(name + "_n"), z3.IntSort(), z3.BoolSort())
        n = z3.Int(e.fresh_name(name + "_len"))
        e.add(n >= 0)

        def vals(i):
            if rng is not None:
                e.add(z3.And(f(i) >= rng[0], f(i) <= rng[1]))
            return f(i)

        a = VArr(vals, b, n)
        e.arrays.append(a)
        return a

    def ghost(self, name, v):
        self.e.ghosts.append(zi(v))
        return v

    def chain(self, name, kinds, link, nxt, max=3):
        n = z3.Int(self.e.fresh_name("n_" + name))
        self.e.add(n >= 0)
        seg = Seg(name, kinds, link, n, nxt)
        if self.e.branch(n > 0):
            return SegNode(seg, 0)
        return nxt

    def field(self, name, lo=None, ne=()):
        """an arbitrary int per chain node"""
        f = z3.Function(self.e.fresh_name(name), z3.IntSort(), z3.IntSort())

        def get(node):
            v = f(zi(node.i))
            if lo is not None:
                self.e.add(v >= lo)
            for x in ne:
                self.e.add(v != zi(x))
            return SInt(v)

        return get

    def snapshot(self, o, but=()):
        return [(o, k, v) for k, v in o.__dict__.items() if k not in but]

    def prove_unchanged(self, name, snap):
        """the object's fields are what they were (by identity or value)"""
        for o, k, v in snap:
            self.prove(name, self.same(o.__dict__.get(k), v), k)

    def contents(self, d):
        """what a container holds now, for prove_rest"""
        return (d, builtins.list(d.parts))

    def prove_rest(self, name, was, but=(), keys=None):
        """the container holds what it did, besides the entries with the keys `but`
        (dictionaries) or the element `but` (lists, replaced in place by keys)"""
        from .engine import _psame, normalise

        d, old = was
        a, b = normalise(d.parts), normalise(old)
        if isinstance(d, VDict):
            drop = lambda ps: [p for p in ps if isinstance(p, Chunk) or not any(p[0] is k or (not isinstance(p[0], SymBase) and not isinstance(k, SymBase) and type(p[0]) is type(k) and p[0] == k) for k in but)]
            a, b = normalise(drop(a)), normalise(drop(b))
        elif but:
            b = [keys[0] if any(p is x for x in but) else p for p in b]
        self.prove(name, len(a) == len(b) and builtins.all(_psame(p, q) for p, q in zip(a, b)), f"{b} -> {a}"[:300])

    # ---- logic
    def assume(self, c):
        self.e.assume(c if isinstance(c, (bool, SBool, z3.BoolRef)) else bool(c))

    def prove(self, name, c, note=""):
        if not isinstance(c, (bool, SBool, z3.BoolRef)):
            c = bool(c)
        self.e.prove(name, c, note)

    def all(self, *cs):
        if any(c is False for c in cs):
            return False
        return mkbool(z3.And(*[zb(c) for c in cs]))

    def any_of(self, *cs):
        return mkbool(z3.Or(*[zb(c) for c in cs])) if cs else False

    def implies(self, a, b):
        return mkbool(z3.Implies(zb(a), zb(b)))

    def iff(self, a, b):
        return mkbool(zb(a) == zb(b))

    def neg(self, a):
        return mkbool(z3.Not(zb(a)))

    def index_of(self, seq, el):
        t = z3.IntVal(0)
        for p in seq.parts:
            if p is el:
                return mkint(t)
            t = t + (p.n if isinstance(p, Chunk) else 1)
        raise Unsupported("element lost")

    def index_of_key(self, d, key):
        t = z3.IntVal(0)
        for p in d.parts:
            if not isinstance(p, Chunk) and p[0] is key:
                return mkint(t)
            t = t + (p.n if isinstance(p, Chunk) else 1)
        raise Unsupported("key lost")

    def pick(self, seq, pred):
        """the elements satisfying pred; proves that no element contributed by an
        arbitrary loop iteration does"""
        out = []
        for p in rt.aslist(seq).parts:
            if isinstance(p, Chunk):
                if p.const is not None:
                    if p.const[0] is None or not pred(p.const[0]):
                        continue
                    raise Unsupported("pick from a repeated element")
                if self.e.branch(p.n > 0):
                    el = p.produce(mkint(z3.Int(self.e.fresh_name("pick"))))
                    self.prove("elements of arbitrary iterations are not of the kind looked for", self.neg(pred(el)))
            elif pred(p):
                out.append(p)
        return VList(out)

    def cover(self, name):
        self.e.cover(name)

    def same(self, a, b):
        """identity/equality without forking on opaque values"""
        if a is b:
            return True
        if isinstance(a, SAny) or isinstance(b, SAny):
            if isinstance(a, SAny) and isinstance(b, SAny):
                return mkbool(a.z == b.z)
            return False
        r = a == b
        return r if isinstance(r, (bool, SBool)) else bool(r)

    def end(self):
        self.e.dead = True
        raise PathEnd

    def exc(self, fn, *a):
        """(result, exception)"""
        try:
            return fn(*a), None
        except Exception as ex:
            return None, ex
