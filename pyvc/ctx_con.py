"""Harness context, concrete mode: the un-instrumented code on ordinary values."""
from __future__ import annotations

import builtins
import copy
import random
import re

from .api import Discard, Violated

NASTY = [
    "", "a", "b", "ab", "a b", "x y z", "é", "日本", "\U0001f600", "a\nb", "\r\n", ": ", "a: b: c", "'", '"', "'a'",
    '"q r"', "-", "--", "0", "1", "12", "-1", "None", "null", "true", "/", "/a", "/a/b", "/ab", "a/b", ".", "..",
    ":", "[", "]", "%s", "{}", "{{ a }}", "\\", "\t", " ", " lead", "trail ", "A", "_", "__types", "seq",
]


class Opaque:
    n = 0

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<{self.name}>"


def unz3(s):
    return re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda m: chr(int(m.group(1), 16)), s)


class ConCtx:
    sym = False
    _vc_ok_ = True

    def __init__(self, rng: random.Random, hints=None, exact=False):
        self.rng = rng
        self.hints = hints or {}
        self.exact = exact
        self.values: dict = {}
        self.names: dict = {}
        self.undo: list = []
        self.covered: set = set()
        self.proved = 0

    def _name(self, n):
        c = self.names.get(n, 0)
        self.names[n] = c + 1
        return n if c == 0 else f"{n}!{c}"

    def _hint(self, n, kind):
        if n in self.hints:
            v = self.hints[n]
            if isinstance(v, kind) and (self.exact or self.rng.random() < 0.8):
                return v
        return None

    def _rec(self, n, v):
        self.values[n] = builtins.list(v) if isinstance(v, builtins.list) else v
        return v

    def int(self, name, lo=None, hi=None, pool=None):
        n = self._name(name)
        v = self._hint(n, int)
        if v is not None and (lo is None or v >= lo) and (hi is None or v <= hi):
            return self._rec(n, v)
        r = self.rng
        if pool:
            v = r.choice(pool)
        else:
            b = 0 if lo is None else lo
            k = r.random()
            if k < 0.7:
                v = b + r.randint(0, 8)
            elif k < 0.8 and lo is None:
                v = -r.randint(1, 8)
            elif k < 0.93:
                v = b + r.randint(0, 40)
            else:
                v = b + r.randint(0, 100000)
            if hi is not None and v > hi:
                v = r.randint(b, hi)
        return self._rec(n, v)

    def bool(self, name):
        n = self._name(name)
        v = self._hint(n, bool)
        return self._rec(n, self.rng.random() < 0.5 if v is None else v)

    def _ok(self, s, excl, only, nonempty, absent, ascii):
        if nonempty and not s:
            return False
        if any(c in s for c in excl) or any(a in s for a in absent):
            return False
        if only is not None and any(c not in only for c in s):
            return False
        return not (ascii and not s.isascii())

    def text(self, name, excl="", only=None, nonempty=False, cands=(), absent=(), ascii=None, meta=None):
        n = self._name(name)
        v = self._hint(n, str)
        if v is not None:
            v = v if self.exact else unz3(v)
            if self._ok(v, excl, only, nonempty, absent, ascii):
                try:
                    v.encode()
                    return self._rec(n, v)
                except UnicodeError:
                    pass
        r = self.rng
        for _ in range(200):
            if cands and r.random() < 0.7:
                v = r.choice(builtins.list(cands))
                if callable(v):
                    v = v(r)
            elif only is not None:
                v = "".join(r.choice(sorted(only)) for _ in range(r.randint(0, 5)))
            elif r.random() < 0.75:
                v = r.choice(NASTY)
            else:
                v = "".join(r.choice("ab /:'\"é-=\\\n0_") for _ in range(r.randint(0, 6)))
            if self._ok(v, excl, only, nonempty, absent, ascii):
                return self._rec(n, v)
        raise Discard

    def bytes(self, name, excl="", only=None, nonempty=False, cands=(), absent=(), meta=None):
        n = self._name(name)
        v = self._hint(n, str)
        if v is not None:
            if not self.exact:
                v = unz3(v)
            try:
                b = v.encode("latin-1")
                if self._ok(v, excl, only, nonempty, absent, None):
                    self._rec(n, v)
                    return b
            except UnicodeError:
                pass
        r = self.rng
        for _ in range(200):
            if cands and r.random() < 0.7:
                v = r.choice(builtins.list(cands))
                if callable(v):
                    v = v(r)
                v = v.decode("latin-1") if isinstance(v, builtins.bytes) else v
            elif r.random() < 0.5:
                v = "".join(chr(r.choice((0, 1, 10, 13, 58, 65, 97, 128, 255))) for _ in range(r.randint(0, 8)))
            else:
                v = r.choice(NASTY).encode().decode("latin-1")
            if self._ok(v, excl, only, nonempty, absent, None):
                self._rec(n, v)
                return v.encode("latin-1")
        raise Discard

    def any(self, name, gen=None, kind=None):
        n = self._name(name)
        if gen is not None:
            return gen(self.rng)
        if kind is str:
            return self.text(name + "$s")
        return Opaque(n)

    def choose(self, name, options):
        options = builtins.list(options)
        n = self._name(name)
        v = self._hint(n, int)
        if v is None or not 0 <= v < len(options):
            v = self.rng.randrange(len(options))
        self._rec(n, v)
        return options[v]

    def flag(self, name):
        return self.choose(name, (False, True))

    def opt(self, name, make):
        return make() if self.flag(name + "?") else None

    def _count(self, name, lo, hi):
        n = self._name("n_" + name)
        v = self._hint(n, int)
        if v is None or not lo <= v <= (hi if not self.exact else v):
            v = self.rng.randint(lo, hi)
        return self._rec(n, v)

    def seq(self, name, produce, check=None, max=3, min=0):
        out = []
        for i in range(self._count(name, min, max)):
            try:
                out.append(produce(i))
            except Discard:
                if len(out) < min and i >= min:
                    raise
        return out

    def dict(self, name, produce, check=None, max=3, focus=(), post=None, keypred=None):
        keys = [kv[0] for kv in focus]
        d = {}

        def more(p, nm):
            for i in range(self._count(nm, 0, max)):
                try:
                    kv = p(i)
                except Discard:
                    continue
                if kv[0] in keys or kv[0] in d or (keypred is not None and not keypred(kv[0])):
                    continue
                d[kv[0]] = kv[1]

        more(produce, name)
        for kv in focus:
            d[kv[0]] = kv[1]
        if post:
            more(post, name + "_post")
        return d

    def some(self, name, produce, check=None, max=3, keypred=None, dict=False):
        out = []
        for i in range(self._count(name, 0, max)):
            try:
                v = produce(i)
            except Discard:
                continue
            if dict and keypred is not None and not keypred(v[0]):
                continue
            out.append(v)
        return out

    def linked(self, name, make_key, make_value, max=3, keypred=None):
        ks = [make_key() for _ in range(self._count(name, 0, max))]
        return ks, [(k, make_value(k)) for k in ks]

    def list_of(self, *parts):
        return [x for p in parts for x in p]

    def dict_of(self, *parts):
        d = {}
        for p in parts:
            for k, v in p.items() if isinstance(p, builtins.dict) else p:
                if k not in d:
                    d[k] = v
        return d

    _uid = 1

    def uid(self, name, below=None):
        self._uid += 1
        return self._rec(self._name(name), self._uid)

    def counter(self, name, lo=1):
        """a counter above every uid"""
        return self.int(name, lo=100000)

    def mkdict(self, pairs):
        return builtins.dict(pairs)

    def new(self, cls, **attrs):
        o = object.__new__(cls)
        for k, v in attrs.items():
            object.__setattr__(o, k, v)
        return o

    def tracked(self, v):
        return v

    def put(self, o, **attrs):
        for k, v in attrs.items():
            if not hasattr(o, k):
                raise Discard
            object.__setattr__(o, k, v)
        return o

    def build(self, cls, *a, **k):
        return cls(*a, **k)

    def patch(self, o, name, v):
        if not hasattr(o, name):
            raise Discard
        old = o.__dict__[name] if name in getattr(o, "__dict__", {}) else getattr(o, name)
        setattr(o, name, v)
        self.undo.append(lambda: setattr(o, name, old))

    def model(self, f, g):
        pass

    def external(self, module, name, fake):
        import sys

        f = getattr(module, name)
        self.patch(module, name, fake)
        for mn, m in list(sys.modules.items()):
            if mn.startswith("ansibug"):
                for k, v in list(vars(m).items()):
                    if v is f:
                        self.patch(m, k, fake)

    def table(self, name):
        n = self.rng.randint(0, 14)
        t = [0] + [self.rng.choice((None, None, 0, 1, 1)) for _ in range(n)]
        if t[-1] is None:
            t[-1] = self.rng.randint(0, 1)
        n = self._name(name)
        v = self._hint(n, list)
        return self._rec(n, t if v is None else builtins.list(v))

    def dup(self, a):
        return copy.copy(a)

    def on_append(self, container, produce, check, name):
        pass

    def on_append_type(self, cls, produce, check, name):
        pass

    def ghost(self, name, v):
        return v

    def chain(self, name, kinds, link, nxt, max=3):
        cur = nxt
        for _ in range(self._count(name, 0, max)):
            cls, attrs = self.rng.choice(kinds)
            o = object.__new__(cls)
            object.__setattr__(o, link, cur)
            for k, v in attrs.items():
                object.__setattr__(o, k, v(o) if callable(v) else v)
            cur = o
        return cur

    def field(self, name, lo=None, ne=()):
        return lambda node: self.uid(name)

    def snapshot(self, o, but=()):
        """symbolic mode only: concrete cases observe behaviour instead"""
        return []

    def prove_unchanged(self, name, snap):
        pass

    def contents(self, d):
        return (d, builtins.list(d.items()) if isinstance(d, builtins.dict) else builtins.list(d))

    def prove_rest(self, name, was, but=(), keys=None):
        d, old = was
        if isinstance(d, builtins.dict):
            mine = lambda k: any(type(k) is type(b) and k == b for b in but)
            a = [(k, v) for k, v in d.items() if not mine(k)]
            b = [(k, v) for k, v in old if not mine(k)]
            ok = len(a) == len(b) and all(x[0] is y[0] and x[1] is y[1] for x, y in zip(a, b))
        else:
            a, b = builtins.list(d), [keys[0] if any(x is y for y in but) else x for x in old]
            ok = len(a) == len(b) and all(x is y for x, y in zip(a, b))
        self.prove(name, ok, f"{b} -> {a}"[:300])

    # ---- logic
    def assume(self, c):
        if not c:
            raise Discard

    def prove(self, name, c, note=""):
        self.proved += 1
        if not c:
            raise Violated(name, note if isinstance(note, str) else repr(note))

    def all(self, *cs):
        return all(cs)

    def any_of(self, *cs):
        return any(cs)

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def neg(self, a):
        return not a

    def index_of(self, seq, el):
        for i, p in enumerate(seq):
            if p is el:
                return i

    def index_of_key(self, d, key):
        return list(d).index(key)

    def pick(self, seq, pred):
        return [x for x in seq if pred(x)]

    def cover(self, name):
        self.covered.add(name)

    def same(self, a, b):
        return a is b or a == b

    def end(self):
        raise Discard

    def exc(self, fn, *a):
        try:
            return fn(*a), None
        except Exception as ex:
            return None, ex

    def close(self):
        for u in reversed(self.undo):
            u()
