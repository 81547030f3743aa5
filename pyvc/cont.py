"""Symbolic containers: ropes of known elements and unknown-length chunks."""
from __future__ import annotations

import z3

from .base import Model, State, SymBase, Unsupported
from .sym import E, Poison, SAny, SBool, SInt, isint, ite, mkbool, mkint, not_, zb, zi


class Chunk:
    """`n` consecutive elements about which only `produce`/`check` is known.

    produce(k, key=None) -> element (or (key, value) for dictionaries): a fresh
    arbitrary element satisfying the representation invariant.
    check(elem) -> condition: the representation invariant (re-proved whenever
    an element may have been changed or is folded back).
    """

    def __init__(self, name, n=None, produce=None, check=None, keypred=None, root=None, const=None, per=None):
        e = E()
        self.name = name
        if n is None:
            n = z3.Int(e.fresh_name("n_" + name))
            e.add(n >= 0)
        self.n = zi(n)
        self._produce = produce
        self.check = check
        self.keypred = keypred
        self.root = root or self
        self.const = const
        self.serial = e.next_serial()
        self.member_pred = None

    def with_n(self, n):
        c = Chunk.__new__(Chunk)
        c.__dict__.update(self.__dict__)
        c.n = z3.simplify(zi(n))
        return c

    def produce(self, k, key=None):
        if self.root.__dict__.get("tainted"):
            raise Unsupported(f"elements of {self.name} were changed by an earlier loop")
        if self._produce is None:
            return Poison(f"element of {self.name}")
        e = E()
        r = self._produce(k) if key is None else self._produce(k, key)
        if self.root.__dict__.get("linked"):
            e.drawn.append((r, self.root))
        return r

    def __repr__(self):
        return f"<{self.name}*>"


def _touch(o):
    e = State.eng
    if e is not None:
        e.log_container(o)


def parts_len(parts):
    c = 0
    t = None
    for p in parts:
        if isinstance(p, Chunk):
            t = p.n if t is None else t + p.n
        else:
            c += 1
    return c if t is None else mkint(t + c)


def merge(parts):
    out = []
    for p in parts:
        if isinstance(p, Chunk):
            if z3.is_int_value(p.n) and p.n.as_long() == 0:
                continue
            if out and isinstance(out[-1], Chunk) and out[-1].root is p.root:
                out[-1] = p.with_n(out[-1].n + p.n)
                continue
        out.append(p)
    return out


class VSeq(SymBase):
    pycls: type = list

    def __init__(self, parts=()):
        self.parts = list(parts)
        e = State.eng
        self.serial = e.reg(self) if e else 0

    @classmethod
    def of(cls, items):
        return cls(list(items))

    def has_chunk(self):
        return any(isinstance(p, Chunk) for p in self.parts)

    def _len_(self):
        return parts_len(self.parts)

    def __len__(self):
        n = self._len_()
        if isinstance(n, int):
            return n
        raise Unsupported("native len() of a symbolic sequence")

    def __bool__(self):
        if any(not isinstance(p, Chunk) for p in self.parts):
            return True
        if not self.parts:
            return False
        return bool(self._len_() > 0)

    def __iter__(self):
        if self.has_chunk():
            raise Unsupported("native iteration over a sequence of unknown length")
        return iter(list(self.parts))

    def __hash__(self):
        raise TypeError(f"unhashable type: '{self.pycls.__name__}'")

    # locate position i (0 <= i < len assumed): returns (part index, offset in chunk or None)
    def _norm_index(self, i):
        n = self._len_()
        e = E()
        if isinstance(i, int) and isinstance(n, int):
            if i < 0:
                i += n
            if not 0 <= i < n:
                raise IndexError(f"{self.pycls.__name__} index out of range")
            return i
        if not isint(i):
            raise TypeError("indices must be integers or slices")
        if isinstance(i, SInt) or i < 0:
            if e.branch(zi(i) < 0):
                i = mkint(zi(i) + zi(n))
                if e.branch(zi(i) < 0):
                    raise IndexError("index out of range")
        if not e.branch(zi(i) < zi(n)):
            raise IndexError("index out of range")
        return i

    def _locate(self, i):
        e = E()
        cum = z3.IntVal(0)
        zz = zi(i)
        for pi, p in enumerate(self.parts):
            last = pi == len(self.parts) - 1
            if isinstance(p, Chunk):
                if last or e.branch(zz < cum + p.n):
                    return pi, z3.simplify(zz - cum)
                cum = z3.simplify(cum + p.n)
            else:
                if last or e.branch(zz == cum):
                    return pi, None
                cum = z3.simplify(cum + 1)
        raise Unsupported("locate")

    def _expose(self, i):
        """index into parts of element i, splitting a chunk if needed"""
        e = E()
        i = self._norm_index(i)
        pi, off = self._locate(i)
        if off is None:
            return pi
        c = self.parts[pi]
        if c.const is not None:
            el = c.const[0]
        else:
            el = c.produce(mkint(off))
        new = [c.with_n(off), el, c.with_n(c.n - off - 1)]
        self.parts[pi : pi + 1] = new
        if c.const is None:
            e.mat[id(el)] = (el, c.root)
        gone = lambda p: isinstance(p, Chunk) and z3.is_int_value(p.n) and p.n.as_long() == 0
        at = sum(1 for p in self.parts[: pi + 1] if not gone(p))
        self.parts = [p for p in self.parts if not gone(p)]
        return at

    def _split(self, i):
        """split parts at position i (0<=i<=len assumed): (left, right)"""
        e = E()
        left, rest = [], list(self.parts)
        cum = z3.IntVal(0)
        zz = zi(i)
        while rest:
            p = rest[0]
            if not e.branch(zz > cum):
                break
            if isinstance(p, Chunk):
                if e.branch(zz >= cum + p.n):
                    left.append(rest.pop(0))
                    cum = z3.simplify(cum + p.n)
                    continue
                off = z3.simplify(zz - cum)
                left.append(p.with_n(off))
                rest[0] = p.with_n(p.n - off)
                break
            left.append(rest.pop(0))
            cum = z3.simplify(cum + 1)
        return merge(left), merge(rest)

    def _clamp(self, i, dflt):
        if i is None:
            return dflt
        n = self._len_()
        if isinstance(i, int) and isinstance(n, int):
            return max(0, i + n) if i < 0 else min(i, n)
        e = E()
        if e.branch(zi(i) < 0):
            i = mkint(zi(i) + zi(n))
            if e.branch(zi(i) < 0):
                return 0
            return i
        if e.branch(zi(i) > zi(n)):
            return n
        return i

    def _getitem_(self, i):
        if isinstance(i, slice):
            if i.step not in (None, 1):
                if i.step == -1 and i.start is None and i.stop is None and not self.has_chunk():
                    return type(self)(list(reversed(self.parts)))
                raise Unsupported("slice with step")
            n = self._len_()
            lo, hi = self._clamp(i.start, 0), self._clamp(i.stop, n)
            cur = VList(self.parts)
            if i.stop is not None:
                if not (isinstance(lo, int) and lo == 0) and E().branch(zi(lo) > zi(hi)):
                    return type(self)([])
                cur = VList(cur._split(hi)[0])
            if not (isinstance(lo, int) and lo == 0):
                cur = VList(cur._split(lo)[1])
            return type(self)(cur.parts)
        i = self._expose(i)
        return self.parts[i]

    def __getitem__(self, i):
        return self._getitem_(i)

    def __contains__(self, o):
        from . import rt

        return bool(rt.in_(o, self))

    def _eq_(self, o):
        if isinstance(o, (list, tuple)) and isinstance(o, self.pycls):
            op = list(o)
        elif isinstance(o, VSeq) and o.pycls is self.pycls:
            op = o.parts
        else:
            return False
        a, b = merge(self.parts), merge(op)
        if len(a) != len(b) or any(isinstance(p, Chunk) != isinstance(q, Chunk) for p, q in zip(a, b)):
            if not any(isinstance(p, Chunk) for p in a + b):
                return False
            e = E()
            if e.implied(zi(parts_len(a)) != zi(parts_len(b))):
                return False
            raise Unsupported("comparison of differently shaped symbolic sequences")
        conds = []
        for p, q in zip(a, b):
            if isinstance(p, Chunk):
                if p.root is not q.root and not (p.const and q.const and p.const[0] == q.const[0]):
                    raise Unsupported("comparison of unrelated chunks")
                c = mkbool(p.n == q.n)
            else:
                c = True if p is q else (p == q)
            if c is False:
                return False
            conds.append(c)
        return mkbool(z3.And(*[zb(c) for c in conds])) if conds else True

    def __eq__(self, o):
        if isinstance(o, (SAny, Poison)):
            return NotImplemented
        return self._eq_(o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __add__(self, o):
        if isinstance(o, VSeq):
            if o.pycls is not self.pycls:
                raise TypeError("can only concatenate like sequences")
            return type(self)(self.parts + o.parts)
        if isinstance(o, self.pycls):
            return type(self)(self.parts + list(o))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, self.pycls):
            return type(self)(list(o) + self.parts)
        return NotImplemented

    def _vc_repeat_(self, n):
        if isinstance(n, int):
            return type(self)(self.parts * n)
        if len(self.parts) == 1 and not isinstance(self.parts[0], Chunk):
            m = z3.If(zi(n) > 0, zi(n), z3.IntVal(0))
            return type(self)([Chunk("repeat", m, const=(self.parts[0],))])
        if not self.parts:
            return type(self)([])
        raise Unsupported("repetition")

    def __mul__(self, n):
        return self._vc_repeat_(n)

    __rmul__ = __mul__

    def count(self, x):
        if self.has_chunk():
            raise Unsupported("count")
        return sum(1 for p in self.parts if p == x)

    def index(self, x, *a):
        if self.has_chunk() or a:
            raise Unsupported("index in a symbolic list")
        for i, p in enumerate(self.parts):
            if p is x or p == x:
                return i
        raise ValueError("not in list")

    def __reversed__(self):
        if self.has_chunk():
            raise Unsupported("reversed")
        return iter(list(reversed(self.parts)))

    def __repr__(self):
        return f"{type(self).__name__}{self.parts!r}"


class VTuple(VSeq):
    pycls = tuple


class VList(VSeq):
    pycls = list

    def append(self, x):
        _touch(self)
        self.parts.append(x)

    def extend(self, o):
        from . import rt

        o = rt.aslist(o)
        _touch(self)
        self.parts = merge(self.parts + list(o.parts))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def insert(self, i, x):
        _touch(self)
        if isinstance(i, int) and i == 0:
            self.parts.insert(0, x)
            return
        i = self._clamp(i, None)
        l, r = self._split(i)
        self.parts = l + [x] + r

    def pop(self, i=-1):
        if isinstance(i, int) and i == -1 and self.parts and not isinstance(self.parts[-1], Chunk):
            _touch(self)
            return self.parts.pop()
        if isinstance(i, int) and i == 0 and self.parts and not isinstance(self.parts[0], Chunk):
            _touch(self)
            return self.parts.pop(0)
        if not self:
            raise IndexError("pop from empty list")
        pi = self._expose(i)
        _touch(self)
        x = self.parts.pop(pi)
        self.parts = merge(self.parts)
        return x

    def remove(self, x):
        for i, p in enumerate(self.parts):
            if isinstance(p, Chunk):
                raise Unsupported("remove from a symbolic list")
            if p is x or p == x:
                _touch(self)
                del self.parts[i]
                return
        raise ValueError("list.remove(x): x not in list")

    def clear(self):
        _touch(self)
        self.parts = []

    def copy(self):
        return VList(self.parts)

    def reverse(self):
        if self.has_chunk():
            raise Unsupported("reverse")
        _touch(self)
        self.parts.reverse()

    def sort(self, **k):
        if self.has_chunk() or len(self.parts) > 1:
            raise Unsupported("sort")

    def _setitem_(self, i, v):
        if isinstance(i, slice):
            if i.start is None and i.stop is None and i.step is None:
                from . import rt

                v = rt.aslist(v)
                _touch(self)
                self.parts = list(v.parts)
                return
            raise Unsupported("slice assignment")
        pi = self._expose(i)
        _touch(self)
        self.parts[pi] = v

    __setitem__ = _setitem_

    def _delitem_(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice deletion")
        pi = self._expose(i)
        _touch(self)
        del self.parts[pi]
        self.parts = merge(self.parts)

    __delitem__ = _delitem_


class VIter(SymBase):
    """an iterator over a sequence"""

    def __init__(self, parts):
        self.parts = list(parts)
        e = State.eng
        self.serial = e.reg(self) if e else 0

    def _next(self):
        while self.parts:
            p = self.parts[0]
            if isinstance(p, Chunk):
                if E().branch(p.n > 0):
                    _touch(self)
                    self.parts[0] = p.with_n(p.n - 1)
                    return (p.const[0] if p.const else p.produce(SInt(z3.Int(E().fresh_name("it")))),)
                _touch(self)
                self.parts.pop(0)
                continue
            _touch(self)
            return (self.parts.pop(0),)
        return None

    def __iter__(self):
        if any(isinstance(p, Chunk) for p in self.parts):
            raise Unsupported("native iteration over unknown length")
        p, self.parts = self.parts, []
        return iter(p)

    def __next__(self):
        r = self._next()
        if r is None:
            raise StopIteration
        return r[0]


# ---------------------------------------------------------------- dictionaries
def key_eq(a, b):
    if a is b:
        return True
    if not isinstance(a, SymBase) and not isinstance(b, SymBase):
        return bool(a == b)
    if isinstance(a, (SInt, int)) != isinstance(b, (SInt, int)):
        if isinstance(a, SAny) or isinstance(b, SAny):
            return a == b
        return False
    return a == b


class DictView(VSeq):
    """keys/values/items of a VDict (snapshot of the parts)"""

    def __init__(self, d, proj, iskeys=False):
        self.d = d
        self.proj = proj
        self.ver = d.ver
        self._iskeys = iskeys
        super().__init__([])
        for p in d.parts:
            if isinstance(p, Chunk):
                c = p.with_n(p.n)
                c.view = (d, proj)
                self.parts.append(c)
            else:
                self.parts.append(proj(p))

    def _keys(self):
        return self.d

    def __contains__(self, o):
        from . import rt

        return bool(rt.in_(o, self))


class VDict(SymBase):
    pycls = dict

    def __init__(self, items=(), chunk=None):
        self.parts: list = []
        self.absent: list = []
        self.ver = 0
        self.appcheck = None  # (factory, check) used when entries are inserted by a summarised loop
        e = State.eng
        self.serial = e.reg(self) if e else 0
        for k, v in items:
            self.parts.append((k, v))
        if chunk is not None:
            self.parts.append(chunk)

    # -- internals
    def _len_(self):
        return parts_len(self.parts)

    def __len__(self):
        n = self._len_()
        if isinstance(n, int):
            return n
        raise Unsupported("native len() of symbolic dict")

    def __bool__(self):
        if any(not isinstance(p, Chunk) for p in self.parts):
            return True
        return bool(self._len_() > 0) if self.parts else False

    def entries(self):
        return [p for p in self.parts if not isinstance(p, Chunk)]

    def has_chunk(self):
        return any(isinstance(p, Chunk) for p in self.parts)

    def lookup(self, key):
        """index in parts of the entry with this key, or None"""
        if isinstance(key, (VSeq, VDict, list, dict)):
            raise TypeError("unhashable type")
        e = E()
        unsure = []
        for i, p in enumerate(self.parts):
            if isinstance(p, Chunk):
                continue
            c = key_eq(p[0], key)
            if c is True:
                return i
            if c is False:
                continue
            unsure.append((i, c))
        if self.has_chunk():
            # a key drawn from a sequence of keys of this dictionary
            for k, root in e.drawn:
                if k is not key or any(a is key for a in self.absent):
                    continue
                for pi, p in enumerate(self.parts):
                    if isinstance(p, Chunk) and p.root.__dict__.get("keys_of") is root:
                        if not e.implied(p.n > 0):
                            raise Unsupported("linked keys out of step")
                        self._fresh_key_facts(key)
                        return self._materialise(pi, key=key)
        for i, c in unsure:
            if bool(c):
                return i
        for pi, p in enumerate(self.parts):
            if not isinstance(p, Chunk):
                continue
            if not self._maybe_in(p, key):
                continue
            c = self._materialise(pi, key=key)
            return c
        return None

    def _maybe_in(self, c, key):
        e = E()
        ps = c.root.__dict__.get("source_pass")
        if ps is not None and any(p is ps and k is key for k, p in e.keypass):
            # a pass over a dictionary meets every key once
            return False
        for a in self.absent:
            q = key_eq(a, key)
            if q is True:
                return False
        if c.keypred is not None:
            kp = c.keypred(key)
            if kp is False:
                return False
        else:
            kp = True
        from .text import _akey

        m = c.root.__dict__.setdefault("_membership", {})
        known = None
        for a, v in m.get("facts", []):
            q = key_eq(a, key)
            if q is True or (isinstance(q, SBool) and e.implied(q.z)):
                known = v
                break
        if known is True:
            return True
        if known is False:
            self.absent.append(key)
            return False
        b = z3.Bool(e.fresh_name("in_" + c.name))
        r = e.branch(z3.And(b, c.n > 0, zb(kp), *[z3.Not(zb(key_eq(a, key))) for a in self.absent]))
        if not r:
            self.absent.append(key)
        return r

    def _fresh_key_facts(self, key):
        e = E()
        for p in self.parts:
            if not isinstance(p, Chunk):
                q = key_eq(p[0], key)
                if q is True:
                    e.assume(False)
                elif q is not False:
                    e.assume(z3.Not(zb(q)))
        for a in self.absent:
            q = key_eq(a, key)
            if q is True:
                e.assume(False)
            elif q is not False:
                e.assume(z3.Not(zb(q)))

    def _materialise(self, pi, key=None, off=None):
        e = E()
        c = self.parts[pi]
        if off is None:
            o = z3.Int(e.fresh_name("pos"))
            e.assume(z3.And(o >= 0, o < c.n))
            off = o
        kv = c.produce(mkint(zi(off)), key) if key is not None else c.produce(mkint(zi(off)))
        if isinstance(kv, Poison):
            raise Unsupported(f"content of {c.name} is unknown")
        k, v = kv
        if key is None:
            self._fresh_key_facts(k)
        elif c.keypred is not None:
            e.assume(c.keypred(k))
        new = [c.with_n(zi(off)), (k, v), c.with_n(c.n - zi(off) - 1)]
        self.parts[pi : pi + 1] = new
        ent = new[1]
        e.mat[id(ent)] = (ent, c.root)
        self.parts = merge(self.parts)
        for i, p in enumerate(self.parts):
            if p is ent:
                return i
        raise Unsupported("materialise")

    # -- API
    def _getitem_(self, key):
        i = self.lookup(key)
        if i is None:
            m = getattr(self, "_missing", None)
            if m is not None:
                v = m(key)
                self._setitem_(key, v)
                return v
            raise KeyError(key)
        return self.parts[i][1]

    __getitem__ = _getitem_

    def get(self, key, default=None):
        i = self.lookup(key)
        return default if i is None else self.parts[i][1]

    def _setitem_(self, key, v):
        i = self.lookup(key)
        _touch(self)
        if i is None:
            self.ver += 1
            self.absent = [a for a in self.absent]
            self.parts.append((key, v))
        elif self.parts[i][1] is not v:
            self.parts[i] = (self.parts[i][0], v)

    __setitem__ = _setitem_

    def _delitem_(self, key):
        i = self.lookup(key)
        if i is None:
            raise KeyError(key)
        _touch(self)
        self.ver += 1
        del self.parts[i]
        if self.has_chunk():
            self.absent.append(key)
        self.parts = merge(self.parts)

    __delitem__ = _delitem_

    def pop(self, key, *d):
        i = self.lookup(key)
        if i is None:
            if d:
                return d[0]
            raise KeyError(key)
        v = self.parts[i][1]
        _touch(self)
        self.ver += 1
        del self.parts[i]
        if self.has_chunk():
            self.absent.append(key)
        self.parts = merge(self.parts)
        return v

    def popitem(self):
        if not self.parts or isinstance(self.parts[-1], Chunk):
            raise Unsupported("popitem")
        _touch(self)
        self.ver += 1
        return self.parts.pop()

    def setdefault(self, key, d=None):
        i = self.lookup(key)
        if i is not None:
            return self.parts[i][1]
        _touch(self)
        self.ver += 1
        self.parts.append((key, d))
        return d

    def update(self, *a, **k):
        from . import rt

        for o in a:
            for kk, vv in rt.dict_items(o):
                if isinstance(kk, Chunk):
                    self._add_chunk(kk)
                else:
                    self._setitem_(kk, vv)
        for kk, vv in k.items():
            self._setitem_(kk, vv)

    def _add_chunk(self, c):
        if self.parts:
            raise Unsupported("update from a symbolic dict")
        _touch(self)
        self.parts.append(c)

    def clear(self):
        _touch(self)
        self.ver += 1
        self.parts = []
        self.absent = []

    def copy(self):
        d = VDict()
        d.parts = list(self.parts)
        d.absent = list(self.absent)
        return d

    def keys(self):
        return DictView(self, lambda p: p[0], True)

    def values(self):
        return DictView(self, lambda p: p[1])

    def items(self):
        return DictView(self, lambda p: p)

    def __iter__(self):
        if self.has_chunk():
            raise Unsupported("native iteration over a symbolic dict")
        return iter([p[0] for p in self.parts])

    def __contains__(self, key):
        return self.lookup(key) is not None

    def __or__(self, o):
        from . import rt

        if not rt.isdictlike(o):
            return NotImplemented
        d = self.copy()
        d.update(o)
        return d

    def __ror__(self, o):
        d = VDict()
        d.update(o)
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self

    def __eq__(self, o):
        if isinstance(o, dict):
            o = VDict(list(o.items()))
        if isinstance(o, (SAny, Poison)):
            return NotImplemented
        if not isinstance(o, VDict):
            return False
        if self.has_chunk() or o.has_chunk():
            raise Unsupported("equality of symbolic dicts")
        if len(self.parts) != len(o.parts):
            return False
        conds = []
        for k, v in self.parts:
            i = o.lookup(k)
            if i is None:
                return False
            c = v == o.parts[i][1]
            if c is False:
                return False
            conds.append(zb(c))
        return mkbool(z3.And(*conds)) if conds else True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __hash__(self):
        raise TypeError("unhashable type: 'dict'")

    def __repr__(self):
        return f"VDict{self.parts!r}"


class VSet(SymBase):
    pycls = set

    def __init__(self, items=()):
        self.d = VDict()
        e = State.eng
        self.serial = e.reg(self) if e else 0
        for i in items:
            self.d._setitem_(i, True)

    def add(self, x):
        self.d._setitem_(x, True)

    def remove(self, x):
        self.d._delitem_(x)

    def discard(self, x):
        self.d.pop(x, None)

    def update(self, *its):
        from . import rt

        for o in its:
            for x in rt.aslist(o).parts:
                if isinstance(x, Chunk):
                    raise Unsupported("set.update from a symbolic sequence")
                self.add(x)

    def __contains__(self, x):
        return self.d.lookup(x) is not None

    def __iter__(self):
        return iter(self.d)

    def _len_(self):
        return self.d._len_()

    def __bool__(self):
        return bool(self.d)

    def __eq__(self, o):
        if isinstance(o, (set, frozenset)):
            o = VSet(o)
        if not isinstance(o, VSet):
            return False
        return self.d == o.d

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        raise TypeError("unhashable")


# ---------------------------------------------------------------- arrays
class VArr(SymBase):
    """list[int | None] as two functions of the index (used for line tables)."""

    pycls = list

    def __init__(self, vals, isnone, n):
        self.vals = vals  # index term -> Int term
        self.none = isnone  # index term -> Bool term
        self.n = n
        e = State.eng
        self.serial = e.reg(self) if e else 0

    @property
    def parts(self):
        raise Unsupported("array as a generic sequence")

    def _len_(self):
        return mkint(self.n)

    def __bool__(self):
        return bool(mkbool(self.n > 0))

    def state(self):
        return (self.vals, self.none, self.n)

    def _idx(self, i):
        e = E()
        if not isint(i):
            raise Unsupported("array slice")
        z = zi(i)
        if e.branch(z < 0):
            z = z + self.n
        if not e.branch(z3.And(z >= 0, z < self.n)):
            raise IndexError("list index out of range")
        return z3.simplify(z)

    def _getitem_(self, i):
        z = self._idx(i)
        if E().branch(self.none(z)):
            return None
        return mkint(self.vals(z))

    __getitem__ = _getitem_

    def _store(self, z, v):
        on, ov = self.none, self.vals
        if v is None:
            self.none = lambda i: z3.Or(i == z, on(i))
        else:
            zv = zi(v)
            self.none = lambda i: z3.And(i != z, on(i))
            self.vals = lambda i: z3.If(i == z, zv, ov(i))

    def _setitem_(self, i, v):
        z = self._idx(i)
        _touch(self)
        self._store(z, v)

    __setitem__ = _setitem_

    def append(self, v):
        _touch(self)
        z = self.n
        self.n = z3.simplify(self.n + 1)
        self._store(z, v)

    def extend(self, o):
        from . import rt

        o = rt.aslist(o)
        _touch(self)
        for p in o.parts:
            if isinstance(p, Chunk):
                if not p.const:
                    raise Unsupported("extend of an array by unknown elements")
                self._fill(self.n, p.n, p.const[0])
                self.n = z3.simplify(self.n + p.n)
            else:
                self.append(p)

    def _fill(self, lo, cnt, v):
        on, ov = self.none, self.vals

        def inside(i):
            return z3.And(i >= lo, i < lo + cnt)

        if v is None:
            self.none = lambda i: z3.Or(inside(i), on(i))
        else:
            zv = zi(v)
            self.none = lambda i: z3.And(z3.Not(inside(i)), on(i))
            self.vals = lambda i: z3.If(inside(i), zv, ov(i))

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __eq__(self, o):
        raise Unsupported("array comparison")

    def __hash__(self):
        raise TypeError("unhashable")

    def __iter__(self):
        raise Unsupported("iteration over an array")
