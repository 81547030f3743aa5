"""Symbolic str/bytes as ropes of literal and variable parts."""
from __future__ import annotations

import z3

from .base import SymBase, Unsupported
from .sym import E, Poison, SAny, SBool, SInt, isint, mkbool, mkint, not_, zb, zi

DIGITS = set("0123456789-")
ANY = None


class TVar:
    """One unknown piece of text.  `excl`: characters guaranteed absent;
    `only`: if set, the characters it may contain; `absent`: substrings
    guaranteed not to occur in it nor to be completed by its neighbours."""

    __slots__ = ("name", "ln", "_z", "excl", "only", "num", "enc", "dec", "absent", "ascii", "meta", "lines", "pend", "cut")

    def __init__(self, name, ln=None, excl="", only=None, num=None, ascii=None, absent=()):
        e = E()
        self.name = name
        if ln is None:
            ln = z3.Int(e.fresh_name("len_" + name))
            e.add(ln >= 0)
        self.ln = ln
        self._z = None
        self.excl = set(excl)
        self.only = None if only is None else set(only)
        self.num = num
        self.enc = None
        self.dec = None
        self.absent = set(absent)
        self.ascii = ascii
        self.meta = {}
        self.lines = None
        self.pend = []
        self.cut = None

    @property
    def z(self):
        if self._z is None:
            e = E()
            self._z = z3.String(e.fresh_name("s_" + self.name))
            e.add(z3.Length(self._z) == self.ln)
            if self.num is not None:
                n = zi(self.num)
                e.add(z3.Implies(n >= 0, self._z == z3.IntToStr(n)))
                e.add(z3.Implies(n < 0, self._z == z3.Concat(z3.StringVal("-"), z3.IntToStr(-n))))
            for c in self.excl:
                e.add(z3.Not(z3.Contains(self._z, z3.StringVal(c))))
            for f in self.pend:
                e.add(f(self._z))
        return self._z

    def may(self, ch) -> bool:
        if ch in self.excl:
            return False
        if self.only is not None and ch not in self.only:
            return False
        return True

    def __repr__(self):
        return f"<{self.name}>"


def _s(lit):
    return lit.decode("latin-1") if isinstance(lit, (bytes, bytearray)) else lit


class SText(SymBase):
    """Immutable symbolic text. kind is str or bytes."""

    __slots__ = ("parts", "kind")

    def __init__(self, parts, kind=str):
        out = []
        for p in parts:
            if isinstance(p, TVar):
                # pieces of one text next to each other
                while p.cut is not None and out and out[-1] is p.cut[0]:
                    p = p.cut[1]
                    out.pop()
                out.append(p)
            else:
                p = _s(p)
                if not p:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] = out[-1] + p
                else:
                    out.append(p)
        self.parts = tuple(out)
        self.kind = kind

    # ---- construction
    def native(self):
        """native str/bytes when there is no unknown part, else None"""
        if all(isinstance(p, str) for p in self.parts):
            s = "".join(self.parts)
            return s if self.kind is str else s.encode("latin-1")
        return None

    def key(self):
        return (self.kind.__name__,) + tuple(p if isinstance(p, str) else id(p) for p in self.parts)

    def __repr__(self):
        return f"SText({self.parts!r})"

    def zs(self):
        ps = [z3.StringVal(p) if isinstance(p, str) else p.z for p in self.parts]
        if not ps:
            return z3.StringVal("")
        return ps[0] if len(ps) == 1 else z3.Concat(*ps)

    def zlen(self):
        t = z3.IntVal(0)
        for p in self.parts:
            t = t + (len(p) if isinstance(p, str) else p.ln)
        return t

    def _len_(self):
        return mkint(self.zlen())

    def __bool__(self):
        if any(isinstance(p, str) for p in self.parts):
            return True
        if not self.parts:
            return False
        return bool(mkbool(self.zlen() > 0))

    def __hash__(self):
        n = self.native()
        if n is not None:
            return hash(n)
        raise Unsupported("hash of symbolic text")

    # ---- equality / order
    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, (str, bytes, bytearray)):
            if isinstance(o, str) != (self.kind is str):
                return False
            o = SText([o], self.kind)
        elif hasattr(o, "_as_text_"):
            o = o._as_text_()
        if isinstance(o, (SAny, Poison)):
            return NotImplemented
        if not isinstance(o, SText) or o.kind is not self.kind:
            return False
        return text_eq(self, o)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __lt__(self, o):
        raise Unsupported("ordering of symbolic text")

    __gt__ = __le__ = __ge__ = __lt__

    # ---- concatenation
    def _co(self, o):
        if isinstance(o, SText):
            if o.kind is not self.kind:
                raise TypeError("can't concat str and bytes")
            return o
        if hasattr(o, "_as_text_"):
            return o._as_text_()
        if isinstance(o, str) and self.kind is str:
            return SText([o], str)
        if isinstance(o, (bytes, bytearray)) and self.kind is bytes:
            return SText([o], bytes)
        if isinstance(o, (SAny, Poison)):
            raise Unsupported("text concatenation with an opaque value")
        raise TypeError(f"can only concatenate {self.kind.__name__} (not {type(o).__name__})")

    def __add__(self, o):
        return SText(self.parts + self._co(o).parts, self.kind)

    def __radd__(self, o):
        return SText(self._co(o).parts + self.parts, self.kind)

    def __mul__(self, n):
        raise Unsupported("repetition of symbolic text")

    def __mod__(self, o):
        from . import rt

        return rt.mod(self, o)

    def __iter__(self):
        n = self.native()
        if n is None:
            raise Unsupported("iteration over the characters of symbolic text")
        return iter(n)

    def __contains__(self, o):
        return bool(self.contains(o))

    # ---- slicing
    def _getitem_(self, idx):
        if isinstance(idx, slice):
            if idx.step not in (None, 1):
                raise Unsupported("text slice with step")
            total = self.zlen()
            lo = self._norm(idx.start, 0, total)
            hi = self._norm(idx.stop, None, total)
            t = self
            if hi is not None:
                t = t.take(hi)
            if lo is not None and not (isinstance(lo, int) and lo == 0):
                t = t.drop(lo)
            n = t.native()
            return t if n is None else n
        n = self.native()
        if n is not None and isinstance(idx, int):
            return n[idx]
        if isinstance(idx, int) and idx >= 0 and self.parts and isinstance(self.parts[0], str):
            if idx < len(self.parts[0]):
                c = self.parts[0][idx]
                return c if self.kind is str else ord(c)
        if isinstance(idx, int) and idx == -1 and self.parts and isinstance(self.parts[-1], str):
            c = self.parts[-1][-1]
            return c if self.kind is str else ord(c)
        if self.kind is bytes:
            raise Unsupported("indexing symbolic bytes")
        # general: z3
        i = zi(idx)
        i = z3.If(i < 0, i + self.zlen(), i)
        if not E().branch(z3.And(i >= 0, i < self.zlen())):
            raise IndexError("string index out of range")
        v = TVar("ch", z3.IntVal(1))
        zself = self.zs()
        v.pend.append(lambda z: z == z3.SubString(zself, i, 1))
        _ = v.z
        return SText([v], str)

    def _norm(self, i, dflt, total):
        if i is None:
            return dflt
        if isinstance(i, int):
            if i >= 0:
                return i
            i = z3.IntVal(i)
        else:
            i = zi(i)
        i = z3.simplify(i)
        e = E()
        if e.branch(i < 0):
            i = i + total
            if e.branch(i < 0):
                return 0
        return mkint(i)

    def split_at(self, n):
        """(left, right) with len(left) == min(n, len)"""
        e = E()
        left: list = []
        parts = list(self.parts)
        zn = zi(n)
        cum = z3.IntVal(0)
        while parts:
            if isinstance(n, int) and all(isinstance(p, str) for p in left):
                c = sum(len(p) for p in left)
                if n == c:
                    return SText(left, self.kind), SText(parts, self.kind)
            p = parts[0]
            pl = z3.IntVal(len(p)) if isinstance(p, str) else p.ln
            nxt = z3.simplify(cum + pl)
            if e.branch(zn >= nxt):
                left.append(parts.pop(0))
                cum = nxt
                continue
            if isinstance(p, str):
                for k in range(len(p)):
                    if e.branch(zn == cum + k):
                        return SText(left + [p[:k]], self.kind), SText([p[k:]] + parts[1:], self.kind)
                # zn < cum: only possible for negative n
                return SText(left, self.kind), SText(parts, self.kind)
            if e.branch(zn <= cum):
                return SText(left, self.kind), SText(parts, self.kind)
            a, b = split_var(p, z3.simplify(zn - cum))
            return SText(left + [a], self.kind), SText([b] + parts[1:], self.kind)
        return self, SText([], self.kind)

    def take(self, n):
        return self.split_at(n)[0]

    def drop(self, n):
        return self.split_at(n)[1]

    # ---- search
    def _lit(self, o):
        if isinstance(o, SText):
            n = o.native()
            return None if n is None else _s(n)
        if isinstance(o, (str, bytes, bytearray)):
            if isinstance(o, str) != (self.kind is str):
                raise TypeError("a bytes-like object is required" if self.kind is bytes else "must be str")
            return _s(o)
        if isinstance(o, (SAny, Poison)):
            raise Unsupported("opaque value as text")
        raise TypeError(f"must be {self.kind.__name__}, not {type(o).__name__}")

    def scan(self, w):
        """structural first occurrence: (part index, offset) | None | 'unknown'"""
        if w == "":
            return (0, 0)
        for i, p in enumerate(self.parts):
            if isinstance(p, str):
                # occurrence starting in this literal
                for off in range(len(p)):
                    r = self._match_at(i, off, w)
                    if r is True:
                        return (i, off)
                    if r is None:
                        return "unknown"
            else:
                if w in p.absent:
                    continue
                if p.may(w[0]):
                    return "unknown"
        return None

    def _match_at(self, i, off, w):
        """does w occur at part i offset off? True/False/None(unknown)"""
        j = 0
        k = off
        p = self.parts[i]
        while j < len(w):
            if isinstance(p, str):
                if k < len(p):
                    if p[k] != w[j]:
                        return False
                    j += 1
                    k += 1
                    continue
            else:
                if w in p.absent:
                    return False
                if not p.may(w[j]):
                    # only matches if this part is empty
                    if z3.is_int_value(p.ln) or E().implied(p.ln > 0):
                        return False
                    # empty part: look through it
                    nxt = SText(self.parts[i + 1 :], self.kind)
                    rest = w[j:]
                    if not nxt.parts:
                        return False
                    if isinstance(nxt.parts[0], str):
                        if not rest.startswith(nxt.parts[0][: len(rest)]):
                            return False
                    return None
                return None
            i += 1
            if i >= len(self.parts):
                return False
            p = self.parts[i]
            k = 0
        return True

    def find(self, w, *a):
        if a:
            if len(a) == 1:
                off = a[0]
                r = self.drop(off).find(w)
                if isinstance(r, int) and r == -1:
                    return -1
                return r + off if not (isinstance(r, SInt) and E().branch(r.z == -1)) else -1
            raise Unsupported("find with bounds")
        lit = self._lit(w)
        if lit is not None:
            s = self.scan(lit)
            if s is None:
                return -1
            if s != "unknown":
                i, off = s
                return mkint(SText(self.parts[:i]).zlen() + off)
        zw = SText([lit], self.kind).zs() if lit is not None else w.zs()
        if lit is None:
            # w occurs structurally?
            for i in range(len(self.parts)):
                if SText(self.parts[i:], self.kind)._sw(w) is True and i == 0:
                    return 0
        r = z3.IndexOf(self.zs(), zw, 0)
        c = z3.Int(E().fresh_name("idx"))
        E().add(c == r)
        if E().branch(c == -1):
            return -1
        return mkint(c)

    def index(self, w, *a):
        r = self.find(w, *a)
        if isinstance(r, int) and r == -1:
            raise ValueError("substring not found")
        return r

    def contains(self, w):
        lit = self._lit(w)
        if lit is not None:
            s = self.scan(lit)
            if s is None:
                return False
            if s != "unknown":
                return True
        else:
            for i, p in enumerate(self.parts):
                if SText(self.parts[i:], self.kind)._sw(w) is True:
                    return True
        zw = SText([lit], self.kind).zs() if lit is not None else w.zs()
        return mkbool(z3.Contains(self.zs(), zw))

    def _sw(self, o):
        """structural startswith: True/False/None"""
        a = list(self.parts)
        b = list(o.parts)
        while b:
            if not a:
                if all(isinstance(x, TVar) for x in b):
                    return None
                return False
            x, y = a[0], b[0]
            if isinstance(x, str) and isinstance(y, str):
                n = min(len(x), len(y))
                if x[:n] != y[:n]:
                    return False
                a[0:1] = [x[n:]] if x[n:] else []
                b[0:1] = [y[n:]] if y[n:] else []
            elif x is y:
                a.pop(0)
                b.pop(0)
            else:
                return None
        return True

    def startswith(self, o, *a):
        if a:
            raise Unsupported("startswith with bounds")
        if isinstance(o, tuple):
            for x in o:
                if self.startswith(x):
                    return True
            return False
        if not isinstance(o, SText):
            self._lit(o)
            o = SText([o], self.kind)
        r = self._sw(o)
        if r is not None:
            return r
        # first literal char against a variable that cannot contain it
        return mkbool(z3.PrefixOf(o.zs(), self.zs()))

    def endswith(self, o):
        if isinstance(o, tuple):
            for x in o:
                if self.endswith(x):
                    return True
            return False
        if not isinstance(o, SText):
            self._lit(o)
            o = SText([o], self.kind)
        if len(o.parts) <= len(self.parts) and o.parts and o.parts == self.parts[len(self.parts) - len(o.parts) :]:
            return True
        n = o.native()
        if n is not None and self.parts and isinstance(self.parts[-1], str):
            l = self.parts[-1]
            w = _s(n)
            if len(l) >= len(w):
                return l.endswith(w)
        return mkbool(z3.SuffixOf(o.zs(), self.zs()))

    def removeprefix(self, o):
        from . import rt

        if self.startswith(o):
            return self._getitem_(slice(rt.length(o), None))
        return self

    def partition(self, sep):
        from . import rt

        i = self.find(sep)
        if isinstance(i, int) and i == -1:
            return (self, self._wrap(""), self._wrap(""))
        l, r = self.split_at(i)
        return (l._n(), sep, r.drop(rt.length(sep))._n())

    def rpartition(self, sep):
        lit = self._lit(sep)
        r = self._rscan(lit)
        if r is None:
            return (self._wrap(""), self._wrap(""), self)
        l, rr = r
        return (l, sep, rr)

    def _wrap(self, s):
        return s if self.kind is str else s.encode("latin-1")

    def _n(self):
        n = self.native()
        return self if n is None else n

    def _rscan(self, w):
        """split at the last occurrence of literal w: (left, right) | None"""
        for i in range(len(self.parts) - 1, -1, -1):
            p = self.parts[i]
            if isinstance(p, str):
                off = p.rfind(w)
                tail = p[off + len(w) :] if off >= 0 else p
                if len(w) > 1 and i + 1 < len(self.parts) and any(tail.endswith(w[:k]) for k in range(1, len(w))):
                    raise Unsupported("rsplit: separator may straddle an unknown part")
                if off >= 0:
                    return (
                        SText(self.parts[:i] + (p[:off],), self.kind)._n(),
                        SText((p[off + len(w) :],) + self.parts[i + 1 :], self.kind)._n(),
                    )
            else:
                if w in p.absent or not any(p.may(c) for c in w):
                    continue
                # last occurrence inside an unknown part: decide by solver
                if not E().branch(z3.Contains(p.z, z3.StringVal(w))):
                    if len(w) > 1:
                        raise Unsupported("rsplit: multi character separator")
                    continue
                a, b = TVar("rl"), TVar("rr", excl=w if len(w) == 1 else "", absent=(w,))
                zp = p.z
                E().add(zp == z3.Concat(a.z, z3.StringVal(w), b.z))
                if len(w) > 1:
                    E().add(z3.Not(z3.Contains(b.z, z3.StringVal(w))))
                return (
                    SText(self.parts[:i] + (a,), self.kind)._n(),
                    SText((b,) + self.parts[i + 1 :], self.kind)._n(),
                )
        return None

    def rsplit(self, sep=None, maxsplit=-1):
        from .cont import VList

        if sep is None:
            raise Unsupported("rsplit() on whitespace")
        lit = self._lit(sep)
        out: list = []
        cur = self
        n = 0
        while maxsplit < 0 or n < maxsplit:
            r = cur._rscan(lit) if isinstance(cur, SText) else None
            if r is None:
                if not isinstance(cur, SText):
                    parts = cur.rsplit(sep, maxsplit - n if maxsplit >= 0 else -1)
                    return VList.of(list(parts) + out)
                break
            out.insert(0, r[1])
            cur = r[0]
            n += 1
        out.insert(0, cur)
        return VList.of(out)

    def rfind(self, w):
        r = self._rscan(self._lit(w))
        if r is None:
            return -1
        from . import rt

        return rt.length(r[0])

    def rindex(self, w):
        r = self.rfind(w)
        if isinstance(r, int) and r == -1:
            raise ValueError("substring not found")
        return r

    def split(self, sep=None, maxsplit=-1):
        from .cont import Chunk, VList

        if sep is None:
            raise Unsupported("split() on whitespace of symbolic text")
        lit = self._lit(sep)
        out = []
        cur = self
        n = 0
        if len(cur.parts) == 1 and isinstance(cur.parts[0], TVar) and cur.parts[0].meta.get("join", (None,))[0] == self._wrap(lit):
            sepc, chunk = cur.parts[0].meta["join"]
            if maxsplit >= 0:
                raise Unsupported("split of a block of lines")
            if not E().branch(chunk.n > 0):
                return VList([self.kind()])
            self._check_elements(chunk, lit)
            return VList([chunk])
        while maxsplit < 0 or n < maxsplit:
            # a block of unknown complete lines
            at = next((i for i, p in enumerate(cur.parts) if isinstance(p, TVar) and p.lines is not None), None)
            if at is not None:
                sepc, chunk, where = cur.parts[at].lines
                if sepc != lit or maxsplit >= 0:
                    pass
                elif where == "before" and at == 0:
                    # "l1<sep>l2<sep>...ln<sep>" followed by the rest
                    self._check_elements(chunk, lit)
                    out.append(chunk)
                    cur = SText(cur.parts[1:], self.kind)
                    continue
                elif where == "after" and SText(cur.parts[:at], self.kind).scan(lit) is None:
                    # "<sep>l1<sep>l2...<sep>ln" after a piece
                    out.append(SText(cur.parts[:at], self.kind)._n())
                    cur = SText(cur.parts[at:], self.kind)
                    while cur.parts and isinstance(cur.parts[0], TVar) and cur.parts[0].lines is not None:
                        sepc, chunk, where = cur.parts[0].lines
                        if sepc != lit or where != "after":
                            raise Unsupported("split of a block of lines")
                        self._check_elements(chunk, lit)
                        out.append(chunk)
                        cur = SText(cur.parts[1:], self.kind)
                    if not cur.parts:
                        return VList(out)
                    if not (isinstance(cur.parts[0], str) and cur.parts[0].startswith(lit)):
                        raise Unsupported("split of a block of lines")
                    cur = cur.drop(len(lit))
                    continue
            s = cur.scan(lit)
            if s is None:
                break
            if s == "unknown":
                i = cur.find(self._wrap(lit))
                if isinstance(i, int) and i == -1:
                    break
                l, r = cur.split_at(i)
                r = r.drop(len(lit))
            else:
                pi, off = s
                l = SText(cur.parts[:pi] + ((cur.parts[pi][:off],) if off else ()), self.kind)
                r = SText(_drop_prefix(cur.parts[pi:], off + len(lit)), self.kind)
            out.append(l._n())
            cur = r
            n += 1
            if n > 64:
                raise Unsupported("split: too many pieces")
        out.append(cur._n())
        return VList(out)

    def _check_elements(self, chunk, lit):
        """the elements do not contain the separator themselves"""
        x = chunk.produce(mkint(z3.Int(E().fresh_name("element"))))
        if isinstance(x, (str, bytes)):
            x = SText([x], type(x))
        if not isinstance(x, SText) or x.scan(lit) is not None:
            raise Unsupported("split of elements that may contain the separator")

    def splitlines(self):
        raise Unsupported("splitlines on symbolic text")

    # ---- conversions
    def encode(self, encoding="utf-8", errors="strict"):
        if self.kind is not str:
            raise AttributeError("'bytes' object has no attribute 'encode'")
        if encoding.replace("-", "").lower() not in ("utf8", "ascii", "latin1"):
            raise Unsupported(f"encoding {encoding}")
        ps = []
        for p in self.parts:
            if isinstance(p, str):
                ps.append(p.encode().decode("latin-1"))
            else:
                ps.append(enc_var(p))
        return SText(ps, bytes)

    def decode(self, encoding="utf-8", errors="strict"):
        if self.kind is not bytes:
            raise AttributeError("'str' object has no attribute 'decode'")
        ps = []
        for p in self.parts:
            if isinstance(p, str):
                ps.append(p.encode("latin-1").decode())
            else:
                ps.append(dec_var(p))
        return SText(ps, str)

    def join(self, it):
        from . import rt

        return rt.join(self, it)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("lower", "upper", "strip", "lstrip", "rstrip", "replace", "title", "capitalize", "casefold",
                 "expandtabs", "removesuffix", "zfill", "hex", "translate", "ljust", "rjust", "center", "swapcase"):
            def f(*a):
                if n in ("strip", "lstrip", "rstrip"):
                    r = _strip(self, n, *a)
                    if r is not None:
                        return r
                if n in ("lower", "upper", "casefold", "swapcase", "title", "capitalize") and not _cased(self, n):
                    return self._n()
                if n == "replace" and len(a) >= 2 and isinstance(a[0], (str, bytes)) and a[0] and self.find(a[0]) == -1:
                    return self._n()
                return ufun_text(n, (self,) + a, self.kind)

            f._vc_ok_ = True
            return f
        if n in ("isdigit", "isalpha", "isnumeric", "isdecimal", "isspace", "isalnum", "isidentifier", "isupper",
                 "islower", "isascii", "isprintable"):
            def g():
                r = _is(self, n)
                return ufun_bool(n, (self,)) if r is None else r

            g._vc_ok_ = True
            return g
        if not hasattr(self.kind, n):
            raise AttributeError(f"{self.kind.__name__!r} object has no attribute {n!r}")
        raise Unsupported(f"method {n!r} of symbolic text")


def _chars(t):
    """the characters a text may consist of, or None"""
    out = set()
    for p in t.parts:
        if isinstance(p, str):
            out |= set(p)
        elif p.num is not None:
            out |= set("-0123456789") if not E().implied(zi(p.num) >= 0) else set("0123456789")
        elif p.only is not None:
            out |= p.only
        else:
            return None
    return out


def _cased(t, n):
    cs = _chars(t)
    return cs is None or n in ("title", "capitalize", "swapcase") or any(getattr(c, n)() != c for c in cs)


def _is(t, n):
    """isdigit and the like, where the possible characters decide it"""
    cs = _chars(t)
    if n == "isascii" and cs is None and all(isinstance(p, str) and p.isascii() or not isinstance(p, str) and p.ascii for p in t.parts):
        return True
    if cs is None or n in ("isidentifier", "isupper", "islower"):
        return None
    if all(getattr(c, n)() for c in cs):
        return True if n in ("isascii", "isprintable") else mkbool(t.zlen() > 0)
    if not any(getattr(c, n)() for c in cs):
        return False if n not in ("isascii", "isprintable") else None
    return None


def _strip(t, n, chars=None):
    """strip when the end parts make the result obvious"""
    cs = _s(chars) if isinstance(chars, (str, bytes)) else (" \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0" if chars is None else None)
    if cs is None:
        return None
    parts = list(t.parts)
    e = E()

    def doleft():
        while parts:
            p = parts[0]
            if isinstance(p, str):
                q = p.lstrip(cs)
                if q:
                    parts[0] = q
                    return True
                parts.pop(0)
            else:
                if p.meta.get("edge_excl") and set(cs) & set(" ") <= p.meta["edge_excl"]:
                    if e.implied(p.ln > 0):
                        return True
                if not any(p.may(c) for c in cs):
                    if e.branch(p.ln > 0):
                        return True
                    parts.pop(0)
                    continue
                return False
        return True

    def doright():
        while parts:
            p = parts[-1]
            if isinstance(p, str):
                q = p.rstrip(cs)
                if q:
                    parts[-1] = q
                    return True
                parts.pop()
            else:
                if p.meta.get("edge_excl") and e.implied(p.ln > 0):
                    return True
                if not any(p.may(c) for c in cs):
                    if e.branch(p.ln > 0):
                        return True
                    parts.pop()
                    continue
                return False
        return True

    if n in ("strip", "lstrip") and not doleft():
        return None
    if n in ("strip", "rstrip") and not doright():
        return None
    return SText(parts, t.kind)._n()


def _drop_prefix(parts, n):
    parts = list(parts)
    while n > 0 and parts:
        p = parts[0]
        assert isinstance(p, str)
        if len(p) <= n:
            n -= len(p)
            parts.pop(0)
        else:
            parts[0] = p[n:]
            n = 0
    return tuple(parts)


def split_var(p: TVar, n):
    e = E()
    key = ("splitvar", id(p), str(n))
    m = e.memo.get(key)
    if m is not None:
        return m[:2]
    a = TVar(p.name + "_l", n, p.excl, p.only, absent=p.absent)
    b = TVar(p.name + "_r", z3.simplify(p.ln - n), p.excl, p.only, absent=p.absent)
    if p._z is not None:
        e.add(p.z == z3.Concat(a.z, b.z))
    else:
        p.pend.append(lambda z: z == z3.Concat(a.z, b.z))
        a.pend.append(lambda z: (p.z, z3.BoolVal(True))[1])
        b.pend.append(lambda z: (p.z, z3.BoolVal(True))[1])
    if p.meta.get("bytes_of"):
        a.meta["piece"] = (p, z3.IntVal(0), n)
        b.meta["piece"] = (p, n, p.ln)
    b.cut = (a, p)
    e.memo[key] = (a, b, p)
    e.memo.setdefault(("splits", id(p)), []).append((a, b))
    return a, b


def begins(p, q):
    """the pieces of p, when it was cut such that q is the first one; else None"""
    if p is q:
        return [p]
    for a, b in E().memo.get(("splits", id(p)), ()):
        r = begins(a, q)
        if r is not None:
            return r + [b]
    return None


def enc_var(p: TVar) -> TVar:
    if p.enc is None:
        e = E()
        if p.ascii or p.num is not None or (p.only is not None and all(ord(c) < 128 for c in p.only)):
            q = TVar("enc_" + p.name, p.ln, p.excl, p.only, num=p.num, absent=p.absent)
        else:
            q = TVar("enc_" + p.name, None, [c for c in p.excl if ord(c) < 128], None, absent=p.absent)
            e.add(z3.And(q.ln >= p.ln, q.ln <= 4 * p.ln))
        q.dec = p
        q.meta = dict(p.meta)
        q.lines = p.lines
        p.enc = q
    return p.enc


def dec_var(p: TVar) -> TVar:
    if p.dec is None:
        e = E()
        if p.num is None and not (p.only is not None and all(ord(c) < 128 for c in p.only)):
            if not e.branch(z3.Bool(f"utf8_{p.name}_{e.ident(p)}")):
                raise UnicodeDecodeError("utf-8", b"", 0, 1, "invalid start byte")
        q = TVar("dec_" + p.name, None, [c for c in p.excl if ord(c) < 128], p.only, num=p.num, absent=p.absent)
        e.add(z3.And(q.ln <= p.ln, p.ln <= 4 * q.ln))
        q.enc = p
        p.dec = q
    return p.dec


def text_eq(a: SText, b: SText):
    x, y = list(a.parts), list(b.parts)
    # strip common prefix
    while x and y:
        p, q = x[0], y[0]
        if p is q:
            x.pop(0)
            y.pop(0)
        elif isinstance(p, str) and isinstance(q, str):
            n = min(len(p), len(q))
            if p[:n] != q[:n]:
                return False
            x[0:1] = [p[n:]] if p[n:] else []
            y[0:1] = [q[n:]] if q[n:] else []
        elif isinstance(p, TVar) and isinstance(q, TVar) and p.num is not None and q.num is not None and len(x) == len(y) == 1:
            return mkbool(zi(p.num) == zi(q.num))
        elif isinstance(p, TVar) and isinstance(q, TVar):
            r = begins(p, q)
            if r is not None:
                x[0:1] = r
                continue
            r = begins(q, p)
            if r is None:
                break
            y[0:1] = r
        else:
            break
    while x and y:
        p, q = x[-1], y[-1]
        if p is q:
            x.pop()
            y.pop()
        elif isinstance(p, str) and isinstance(q, str):
            n = min(len(p), len(q))
            if p[-n:] != q[-n:]:
                return False
            x[-1:] = [p[:-n]] if p[:-n] else []
            y[-1:] = [q[:-n]] if q[:-n] else []
        else:
            break
    if not x and not y:
        return True
    if not x or not y:
        rest = x or y
        if any(isinstance(p, str) for p in rest):
            return False
        return mkbool(z3.And(*[p.ln == 0 for p in rest]))
    # a literal that a single variable cannot equal
    for u, v in ((x, y), (y, x)):
        if len(u) == 1 and isinstance(u[0], str) and len(v) == 1 and isinstance(v[0], TVar):
            if any(not v[0].may(c) for c in u[0]):
                return False
            if v[0].num is not None:
                try:
                    n = int(u[0])
                except ValueError:
                    return False
                if str(n) != u[0]:
                    return False
                return mkbool(zi(v[0].num) == n)
    e = E()
    la, lb = SText(x).zlen(), SText(y).zlen()
    if e.implied(la != lb):
        return False
    return mkbool(SText(x).zs() == SText(y).zs())


# ---------------------------------------------------------------- helpers
def _akey(a):
    if isinstance(a, SText):
        return a.key()
    if isinstance(a, SInt):
        return ("int", a.z.sexpr())
    if isinstance(a, SBool):
        return ("bool", a.z.sexpr())
    if isinstance(a, SAny):
        return ("any", a.z.sexpr())
    if isinstance(a, (list, tuple)):
        return (type(a).__name__,) + tuple(_akey(x) for x in a)
    if isinstance(a, (str, bytes, int, float, bool, type(None))):
        return (type(a).__name__, a)
    parts = getattr(a, "parts", None)
    if isinstance(parts, list):  # a container: its present content
        return ("cont", E().ident(a)) + tuple(_akey(p) for p in parts)
    return ("obj", E().ident(a))


def _hold(a):
    return a


def ufun_text(name, args, kind=str, **facts):
    e = E()
    k = ("uft", name, tuple(_akey(a) for a in args))
    r = e.memo.get(k)
    if r is None:
        r = (SText([TVar(name, **facts)], kind), args)
        e.memo[k] = r
    return r[0]


def ufun_bool(name, args):
    e = E()
    k = ("ufb", name, tuple(_akey(a) for a in args))
    r = e.memo.get(k)
    if r is None:
        r = (SBool(z3.Bool(e.fresh_name("uf_" + name))), args)
        e.memo[k] = r
    return r[0]


def digits(n) -> SText | str:
    if isinstance(n, int):
        return str(n)
    e = E()
    k = ("digits", n.z.sexpr())
    r = e.memo.get(k)
    if r is None:
        ln = z3.Int(e.fresh_name("dl"))
        e.add(ln >= 1)
        r = SText([TVar("int", ln, only=DIGITS, num=n, ascii=True)])
        e.memo[k] = r
    return r


def to_int(t: SText):
    n = t.native()
    if n is not None:
        return int(n)
    if len(t.parts) == 1 and t.parts[0].num is not None:
        return t.parts[0].num
    e = E()
    k = ("toint", t.key())
    r = e.memo.get(k)
    if r is None:
        r = (z3.Bool(e.fresh_name("isnum")), SInt(z3.Int(e.fresh_name("num"))), t)
        e.memo[k] = r
    if not e.branch(r[0]):
        raise ValueError("invalid literal for int() with base 10")
    return r[1]


def int_to_bytes(n, length, byteorder, signed):
    e = E()
    ok = z3.And(zi(n) >= 0, zi(n) < 256**length)
    if signed:
        ok = z3.And(zi(n) >= -(256**length // 2), zi(n) < 256**length // 2)
    if not e.branch(ok):
        raise OverflowError("int too big to convert")
    packs = e.memo.setdefault("packs", [])
    for m, v, how in packs:
        if how == (length, byteorder, signed) and (m.eq(zi(n)) or e.implied(m == zi(n))):
            return SText([v], bytes)
    v = TVar("pack", z3.IntVal(length))
    packs.append((zi(n), v, (length, byteorder, signed)))
    v.meta["int"] = (n, byteorder, signed)
    return SText([v], bytes)


def int_from_bytes(t, byteorder, signed):
    if isinstance(t, SText) and len(t.parts) == 1 and isinstance(t.parts[0], TVar):
        m = t.parts[0].meta.get("int")
        if m:
            if (m[1], m[2]) == (byteorder, signed):
                return m[0]
            e = E()
            k = ("otherint", id(t.parts[0]), byteorder, signed)
            if k not in e.memo:
                e.memo[k] = SInt(z3.Int(e.fresh_name("badint")))
            return e.memo[k]
        e = E()
        k = ("frombytes", id(t.parts[0]), byteorder, signed)
        if k not in e.memo:
            n = SInt(z3.Int(e.fresh_name("frombytes")))
            ln = t.parts[0].ln
            if not signed:
                e.add(n.z >= 0)
                e.add(z3.Implies(ln == 4, n.z < 256**4))
                e.add(z3.Implies(ln == 0, n.z == 0))
            e.memo[k] = (n, t)
        return e.memo[k][0]
    raise Unsupported("int.from_bytes of composite bytes")
