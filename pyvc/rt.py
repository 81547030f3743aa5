"""Runtime operations the instrumented code calls.

Outside a symbolic session every operation is exactly the native one.  Inside a
session the operation is native on native operands and dispatches to the
verifier's values otherwise.  A call to anything that is neither instrumented
ansibug code, nor a modelled/pure function raises Unsupported and is never
executed.
"""
from __future__ import annotations

import base64
import builtins
import collections
import collections.abc
import contextlib
import copy as _copy
import dataclasses
import enum
import functools
import inspect
import itertools
import logging
import operator
import pathlib
import shlex
import traceback
import tempfile
import uuid
import os.path
import types
import urllib.parse
import typing

import z3

from . import cont, engine, sym, text
from .base import Model, NewName, PathEnd, State, SymBase, Unsupported
from .cont import Chunk, DictView, VArr, VDict, VIter, VList, VSeq, VSet, VTuple
from .engine import ForLoop, SegNode, WhileLoop
from .sym import Poison, SAny, SBool, SInt, isint, mkbool, mkint, not_, zb, zi
from .text import SText

RTNAME = "__pyvc_rt__"


def E():
    return State.eng


def issym(x):
    return isinstance(x, (SymBase, Model))


def deepsym(x, depth=3):
    if isinstance(x, (SymBase, Model)):
        return True
    if depth and isinstance(x, (list, tuple, set)):
        return any(deepsym(i, depth - 1) for i in x)
    if depth and isinstance(x, dict):
        return any(deepsym(k, 1) or deepsym(v, depth - 1) for k, v in x.items())
    if isinstance(x, slice):
        return any(deepsym(i) for i in (x.start, x.stop, x.step))
    return False


# ---------------------------------------------------------------- bytearray
class VBytes(SymBase):
    """mutable bytes"""

    pycls = bytearray

    def __init__(self, t=b""):
        self.t = t if isinstance(t, SText) else SText([t], bytes)
        self.serial = E().reg(self)

    def _as_text_(self):
        return self.t

    def _cstate_(self):
        return self.t

    def _cset_(self, t):
        self.t = t

    def _havoc_(self, v0, k):
        raise Unsupported("loop builds a bytearray")

    def _same_(self, a, b):
        return a is b

    def _set(self, t):
        E().log_container(self)
        self.t = t if isinstance(t, SText) else SText([t], bytes)

    def _len_(self):
        return self.t._len_()

    def __bool__(self):
        return bool(self.t)

    def __len__(self):
        n = self._len_()
        if isinstance(n, int):
            return n
        raise Unsupported("len")

    def extend(self, o):
        self._set(self.t + astext(o))

    def append(self, o):
        if isinstance(o, int):
            self._set(self.t + bytes([o]))
        else:
            raise Unsupported("bytearray.append")

    def __iadd__(self, o):
        self.extend(o)
        return self

    def __add__(self, o):
        return VBytes(self.t + astext(o))

    def clear(self):
        self._set(b"")

    def copy(self):
        return VBytes(self.t)

    def _getitem_(self, i):
        r = self.t._getitem_(i)
        return VBytes(r) if isinstance(i, slice) else r

    __getitem__ = _getitem_

    def _delitem_(self, i):
        if isinstance(i, slice) and i.step is None:
            if i.start is None or (isinstance(i.start, int) and i.start == 0):
                if i.stop is None:
                    self._set(b"")
                else:
                    self._set(self.t._getitem_(slice(i.stop, None)))
                return
            self._set(self.t._getitem_(slice(None, i.start)) + astext(self.t._getitem_(slice(i.stop, None))))
            return
        raise Unsupported("bytearray item deletion")

    def _setitem_(self, i, v):
        if isinstance(i, slice) and i.step is None:
            a = self.t._getitem_(slice(None, i.start)) if i.start is not None else b""
            b = self.t._getitem_(slice(i.stop, None)) if i.stop is not None else b""
            self._set(SText([], bytes) + astext(a) + astext(v) + astext(b))
            return
        raise Unsupported("bytearray item assignment")

    def __eq__(self, o):
        return self.t == (o.t if isinstance(o, VBytes) else o)

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.t, n)


def astext(o):
    if isinstance(o, SText):
        return o
    if hasattr(o, "_as_text_"):
        return o._as_text_()
    if isinstance(o, (bytes, bytearray)):
        return SText([bytes(o)], bytes)
    if isinstance(o, str):
        return SText([o], str)
    if isinstance(o, (SAny, Poison)):
        raise Unsupported("opaque value as text")
    raise TypeError(f"can't use {type(o).__name__} as text")


# ---------------------------------------------------------------- helpers
def pytype(x):
    if isinstance(x, SymBase):
        if isinstance(x, SText):
            return x.kind
        if isinstance(x, SInt):
            return int
        if isinstance(x, SBool):
            return bool
        if isinstance(x, SAny):
            if x.kind is None:
                raise Unsupported("type of an opaque value")
            return x.kind
        if isinstance(x, Poison):
            x._bad()
        if isinstance(x, DictView):
            return type({}.items())
        if isinstance(x, VIter):
            return type(iter([]))
        return x.pycls
    if isinstance(x, Model):
        return x.pycls or type(x)
    return type(x)


def isinstance_(x, c):
    if isinstance(c, (tuple, VTuple)):
        cs = list(c.parts) if isinstance(c, VTuple) else list(c)
        r = False
        for i in cs:
            q = isinstance_(x, i)
            if q is True:
                return True
            if q is not False:
                r = q if r is False else mkbool(z3.Or(zb(r), zb(q)))
        return r
    if isinstance(c, types.UnionType):
        return isinstance_(x, tuple(c.__args__))
    if isinstance(x, Poison):
        x._bad()
    if isinstance(x, SAny):
        f = getattr(x, "attrs", {}).get("__isinstance__")
        if f is not None:
            return f(c)
        if x.kind is not None:
            return issubclass(x.kind, c)
        k = x.known.get(c)
        if k is None:
            k = x.known[c] = SBool(z3.Bool(E().fresh_name(f"isinst_{c.__name__}")))
        return k
    if isinstance(x, (SymBase, Model)):
        p = pytype(x)
        if isinstance(p, tuple):
            return any(issubclass(q, c) for q in p)
        return issubclass(p, c)
    return isinstance(x, c)


def length(x):
    if isinstance(x, SymBase):
        f = getattr(x, "_len_", None)
        if f is None:
            raise TypeError(f"object of type '{pytype(x).__name__}' has no len()")
        return f()
    if _is_ours(type(x)) and hasattr(type(x), "_len_"):
        return x._len_()
    return len(x)


def isdictlike(x):
    return isinstance(x, (dict, VDict, collections.abc.Mapping))


def dict_items(o):
    """pairs; a Chunk is returned as (chunk, None)"""
    if isinstance(o, VDict):
        return [(p, None) if isinstance(p, Chunk) else p for p in o.parts]
    if isinstance(o, dict):
        return list(o.items())
    if isinstance(o, SymBase) or isinstance(o, (list, tuple, types.GeneratorType)):
        out = []
        for p in aslist(o).parts:
            if isinstance(p, Chunk):
                raise Unsupported("dict from a sequence of unknown length")
            a, b = unpack(p, 2)
            out.append((a, b))
        return out
    if hasattr(o, "_dict_items_"):
        return o._dict_items_()
    if isinstance(o, collections.abc.Mapping):
        return list(o.items())
    return [tuple(x) for x in o]


def aslist(o) -> VList:
    if isinstance(o, VDict):
        o = o.keys()
    if isinstance(o, VSet):
        o = o.d.keys()
    if isinstance(o, VSeq):
        return VList(o.parts)
    if isinstance(o, VIter):
        E().log_container(o)
        p, o.parts = o.parts, []
        return VList(p)
    if isinstance(o, VArr):
        raise Unsupported("array as a list")
    if isinstance(o, SText):
        return VList(list(iter(o)))
    if isinstance(o, (list, tuple, set, frozenset, dict, str, bytes, range, enum.EnumMeta)) or isinstance(
        o, (type({}.keys()), type({}.values()), type({}.items()))
    ):
        return VList(list(o))
    if isinstance(o, Model) and hasattr(o, "_vc_iter_"):
        return aslist(o._vc_iter_())
    if isinstance(o, types.GeneratorType):
        return VList(drain(o))
    if isinstance(o, SymBase):
        raise TypeError(f"'{pytype(o).__name__}' object is not iterable")
    if hasattr(o, "__iter__") or hasattr(o, "__next__"):
        if isinstance(o, (types.MappingProxyType, collections.abc.Mapping)) or hasattr(o, "__next__"):
            return VList(list(o))
        if _is_ours(type(o)) and hasattr(type(o), "__iter__"):
            return aslist(type(o).__iter__(o))
        raise Unsupported(f"iteration over {type(o).__name__}")
    raise TypeError(f"'{type(o).__name__}' object is not iterable")


def drain(g):
    out = []
    for x in g:
        out.append(x)
        if len(out) > 500:
            raise Unsupported("generator does not end")
    return out


def unpack(v, n):
    if State.eng is None:
        return v
    if isinstance(v, tuple) and len(v) == n:
        return v
    if isinstance(v, (SymBase, Model)) or isinstance(v, types.GeneratorType):
        l = aslist(v)
        if l.has_chunk():
            if not E().branch(zi(l._len_()) == n):
                if E().branch(zi(l._len_()) > n):
                    raise ValueError(f"too many values to unpack (expected {n})")
                raise ValueError("not enough values to unpack")
            return tuple(l._getitem_(i) for i in range(n))
        if len(l.parts) != n:
            raise ValueError(
                f"too many values to unpack (expected {n})"
                if len(l.parts) > n
                else f"not enough values to unpack (expected {n}, got {len(l.parts)})"
            )
        return tuple(l.parts)
    return v


# ---------------------------------------------------------------- operators
def getitem(o, i):
    if State.eng is None:
        return o[i]
    if isinstance(o, SymBase):
        f = getattr(o, "_getitem_", None)
        if f is None:
            raise TypeError(f"'{pytype(o).__name__}' object is not subscriptable")
        return f(i)
    if isinstance(o, Model):
        return o[i]
    if _is_ours(type(o)) and isinstance(getattr(type(o), "__getitem__", None), types.FunctionType):
        return type(o).__getitem__(o, i)
    if deepsym(i):
        if isinstance(o, dict):
            return VDict(list(o.items()))._getitem_(i)
        if isinstance(o, (list, tuple)):
            return VList(list(o))._getitem_(i)
        if isinstance(o, (str, bytes)):
            return SText([o], type(o))._getitem_(i)
        raise Unsupported(f"subscript of {type(o).__name__} with a symbolic index")
    return o[i]


def setitem(o, i, v):
    if State.eng is None:
        o[i] = v
        return
    if isinstance(o, SymBase):
        f = getattr(o, "_setitem_", None)
        if f is None:
            raise TypeError(f"'{pytype(o).__name__}' object does not support item assignment")
        f(i, v)
        return
    if isinstance(o, Model):
        o[i] = v
        return
    if deepsym(i):
        raise Unsupported(f"store to a native {type(o).__name__} with a symbolic key")
    if isinstance(o, (dict, list)) and not getattr(E(), "native_ok", False):
        if id(o) not in E().native_mut:
            raise Unsupported(f"store to an untracked native {type(o).__name__}")
    o[i] = v


def delitem(o, i):
    if State.eng is None:
        del o[i]
        return
    if isinstance(o, SymBase):
        f = getattr(o, "_delitem_", None)
        if f is None:
            raise TypeError(f"'{pytype(o).__name__}' object doesn't support item deletion")
        f(i)
        return
    if isinstance(o, Model):
        del o[i]
        return
    raise Unsupported(f"deletion from a native {type(o).__name__}")


def setattr(o, n, v):
    e = State.eng
    if e is not None:
        if e.dead:
            raise PathEnd
        if isinstance(o, type) or isinstance(o, types.ModuleType):
            raise Unsupported("store to a class or module attribute")
        e.log_attr(o, n)
    builtins.setattr(o, n, v)


def delattr(o, n):
    if State.eng is not None:
        State.eng.log_attr(o, n)
    builtins.delattr(o, n)


def slice_(a, b, c):
    return builtins.slice(a, b, c)


_IOPS = {
    "Add": operator.iadd,
    "Sub": operator.isub,
    "Mult": operator.imul,
    "BitOr": operator.ior,
    "BitAnd": operator.iand,
    "FloorDiv": operator.ifloordiv,
    "Div": operator.itruediv,
    "BitXor": operator.ixor,
    "LShift": operator.ilshift,
    "RShift": operator.irshift,
    "Pow": operator.ipow,
    "MatMult": operator.imatmul,
}


def iop(op, cur, v):
    if op == "Mod":
        return mod(cur, v)
    e = State.eng
    if e is not None and isinstance(cur, list) and not isinstance(cur, SymBase):
        if id(cur) not in e.native_mut:
            raise Unsupported("in-place update of an untracked native list")
    return _IOPS[op](cur, v)


def is_(a, b):
    if a is b:
        return True
    if isinstance(a, SymBase) or isinstance(b, SymBase):
        if isinstance(a, Poison) or isinstance(b, Poison):
            (a if isinstance(a, Poison) else b)._bad()
        for x, y in ((a, b), (b, a)):
            if isinstance(x, SBool) and isinstance(y, (bool, SBool)):
                return mkbool(zb(x) == zb(y))
            if isinstance(x, SAny):
                if isinstance(y, SAny):
                    return mkbool(x.z == y.z)
                if y is None:
                    if x.kind is not None:
                        return False
                    raise Unsupported("None test of an opaque value")
                if isinstance(y, bool) and x.kind is not None and x.kind is not bool:
                    return False
            if isinstance(x, SegNode) and isinstance(y, SegNode):
                return x == y
        return False
    return False


def in_(a, b):
    if State.eng is None:
        return a in b
    if isinstance(b, Poison) or isinstance(a, Poison):
        (a if isinstance(a, Poison) else b)._bad()
    if isinstance(b, SText):
        return b.contains(a)
    if isinstance(b, VBytes):
        return b.t.contains(a)
    if isinstance(b, VDict):
        return b.lookup(a) is not None
    if isinstance(b, VSet):
        return b.d.lookup(a) is not None
    if isinstance(b, DictView):
        if b.d.keys().parts == b.parts or all(isinstance(p, Chunk) for p in b.parts):
            pass
        if b._iskeys:
            return b.d.lookup(a) is not None
        return _seq_in(a, b)
    if isinstance(b, VSeq):
        return _seq_in(a, b)
    if isinstance(b, VIter):
        return _seq_in(a, aslist(b))
    if isinstance(b, Model):
        return b._contains_(a)
    if deepsym(a):
        if isinstance(b, str):
            if isinstance(a, SText):
                return mkbool(z3.Contains(z3.StringVal(b), a.zs()))
            raise TypeError("'in <string>' requires string")
        if isinstance(b, dict):
            return VDict(list(b.items())).lookup(a) is not None
        if isinstance(b, (list, tuple, set, frozenset)) or hasattr(b, "__iter__"):
            return _seq_in(a, VList(list(b)))
        raise Unsupported(f"in {type(b).__name__}")
    return a in b


def _seq_in(a, b):
    conds = []
    for p in b.parts:
        if isinstance(p, Chunk):
            if p.const is not None:
                c = p.const[0] is a or p.const[0] == a
                conds.append(mkbool(z3.And(p.n > 0, zb(c))))
                continue
            if p.keypred is not None and p.keypred(a) is False:
                continue
            raise Unsupported("membership in a sequence of unknown content")
        c = p is a or p == a
        if c is True:
            return True
        if c is not False:
            conds.append(c)
    if not conds:
        return False
    return mkbool(z3.Or(*[zb(c) for c in conds]))


def repeat(o, n):
    if isinstance(o, list):
        return VList(o)._vc_repeat_(n)
    if isinstance(o, tuple):
        return VTuple(list(o))._vc_repeat_(n)
    raise Unsupported("text repetition by a symbolic count")


def mod(a, b):
    if State.eng is None:
        return a % b
    if isinstance(a, (str, bytes, SText)):
        if not deepsym(b) and not isinstance(a, SText):
            return a % b
        if isinstance(a, SText):
            a2 = a.native()
            if a2 is None:
                raise Unsupported("% with a symbolic format")
            a = a2
        if isinstance(b, VTuple):
            b = tuple(b.parts)
        args = list(b) if isinstance(b, tuple) else [b]
        out = []
        i = 0
        fmt = a if isinstance(a, str) else a.decode("latin-1")
        while i < len(fmt):
            if fmt[i] == "%":
                c = fmt[i + 1]
                i += 2
                if c == "%":
                    out.append("%")
                    continue
                v = args.pop(0)
                if c == "s":
                    out.append(v if (isinstance(a, bytes)) else str_(v))
                elif c == "r":
                    out.append(repr_(v))
                elif c in "di":
                    out.append(text.digits(v))
                else:
                    raise Unsupported(f"format %{c}")
            else:
                out.append(fmt[i])
                i += 1
        if args:
            raise TypeError("not all arguments converted during string formatting")
        return cat(out, type(a))
    return a % b


def cat(parts, kind=str):
    t = SText([], kind)
    for p in parts:
        t = t + astext(p)
    n = t.native()
    return t if n is None else n


def fstr(*parts):
    if State.eng is None:
        out = []
        for p in parts:
            if isinstance(p, str):
                out.append(p)
            else:
                v, conv, spec = p
                if conv == 115:
                    v = str(v)
                elif conv == 114:
                    v = repr(v)
                elif conv == 97:
                    v = ascii(v)
                out.append(format(v, spec))
        return "".join(out)
    out = []
    for p in parts:
        if isinstance(p, str):
            out.append(p)
            continue
        v, conv, spec = p
        if not issym(v) and not (isinstance(v, BaseException) and deepsym(v.args)):
            if conv == 115:
                v = str_(v)
            elif conv == 114:
                v = repr_(v)
            elif not spec and _has_sym_state(v) and type(v).__format__ is object.__format__:
                v = str_(v)
            out.append(format(v, spec) if not issym(v) else v)
            continue
        if spec:
            raise Unsupported("format specification on a symbolic value")
        out.append(repr_(v) if conv in (114, 97) else str_(v))
    return cat(out)


def str_(v):
    if isinstance(v, SText):
        if v.kind is bytes:
            return text.ufun_text("repr", (v,))
        return v
    if isinstance(v, SInt):
        return text.digits(v)
    if isinstance(v, SBool):
        return "True" if v else "False"
    if isinstance(v, Poison):
        v._bad()
    if isinstance(v, Model):
        return v._str_()
    if isinstance(v, SAny) and v.kind is NewName:
        return v
    if isinstance(v, SymBase):
        return text.ufun_text("str", (v,))
    if isinstance(v, BaseException):
        if not v.args:
            return ""
        if len(v.args) == 1 and type(v).__str__ is BaseException.__str__:
            return str_(v.args[0])
        if deepsym(v.args):
            return text.ufun_text("str", (v,))
        return str(v)
    if _has_sym_state(v):
        m = getattr(type(v), "__str__", None)
        if isinstance(m, types.FunctionType) and RTNAME in m.__globals__:
            return m(v)
        return text.ufun_text("str", (v,))
    return str(v)


def _has_sym_state(v):
    return _is_ours(type(v)) and not isinstance(v, (type, enum.Enum))


def repr_(v):
    if isinstance(v, Poison):
        v._bad()
    if isinstance(v, (int, str, bytes, float, bool, type(None), type, enum.Enum)):
        return repr(v)
    if isinstance(v, SInt):
        return text.digits(v)
    if isinstance(v, SBool):
        return "True" if v else "False"
    p = _plain(v)
    if p is not None:
        return repr(p)
    return text.ufun_text("repr", (v,))


def _plain(v, depth=4):
    """the builtin value with this content, None if it is not all known"""
    if isinstance(v, (int, str, bytes, float)):
        return v
    if depth == 0:
        return None
    if isinstance(v, VDict) and v.pycls is dict and not v.has_chunk():
        items = v.parts
    elif type(v) is dict:
        items = list(v.items())
    elif isinstance(v, VSeq) and v.pycls in (list, tuple) and not any(isinstance(q, Chunk) for q in v.parts) or type(v) in (list, tuple):
        out = [_plain(q, depth - 1) for q in (v.parts if isinstance(v, VSeq) else v)]
        if any(q is None for q in out):
            return None
        return tuple(out) if type(v) is tuple or isinstance(v, VSeq) and v.pycls is tuple else out
    else:
        return None
    out = {}
    for k, x in items:
        x = _plain(x, depth - 1)
        if not isinstance(k, (int, str, bytes)) or x is None:
            return None
        out[k] = x
    return out


def newlist(*e):
    if State.eng is None:
        return list(e)
    return VList(list(e))


def newset(*e):
    if State.eng is None:
        return set(e)
    return VSet(list(e))


def newdict(*items):
    if State.eng is None:
        d = {}
        for it in items:
            if len(it) == 1:
                d.update(it[0])
            else:
                d[it[0]] = it[1]
        return d
    d = VDict()
    for it in items:
        if len(it) == 1:
            d.update(it[0])
        else:
            d._setitem_(it[0], it[1])
    return d


def genprep(it):
    """what a generator expression iterates over"""
    if State.eng is None or not isinstance(it, (VIter, VSeq, VDict, VSet)):
        return it
    if isinstance(it, VIter):
        return aslist(it)
    return it


def genmap(it, f):
    """the elements of a generator expression over an unknown number of elements, made on demand"""
    if State.eng is None or not isinstance(it, (VSeq, VDict, VSet)):
        return None
    parts = aslist(it).parts
    if not any(isinstance(p, Chunk) and not (p.const is None and p._produce is None) for p in parts):
        return None
    out = []
    for p in parts:
        if not isinstance(p, Chunk):
            out.append(f(p))
        elif getattr(p, "view", None) is not None:
            d, proj = p.view
            q = p.with_n(p.n)
            q.view = (d, lambda kv, proj=proj: f(proj(kv)))
            out.append(q)
        else:
            out.append(_map_chunk(p, lambda el, k: f(el)))
    return VIter(out)


def mkiter(l):
    if State.eng is None:
        return iter(l)
    return VIter(aslist(l).parts)


# ---------------------------------------------------------------- loops
class _NativeFor:
    upd: dict = {}

    def __init__(self, it):
        self.it = iter(it)
        self.item = None

    def more(self, env):
        try:
            self.item = next(self.it)
            return True
        except StopIteration:
            return False


class _NativeWhile:
    upd: dict = {}

    def head(self, env):
        pass


class _GenLoop:
    """native iteration over a live generator/iterator object"""

    upd: dict = {}

    def __init__(self, it):
        self.it = it

    def more(self, env):
        try:
            self.item = next(self.it)
            return True
        except StopIteration:
            return False


def loop(it, site, names):
    e = State.eng
    if e is None:
        return _NativeFor(it)
    if isinstance(it, types.GeneratorType):
        return _GenLoop(it)
    guard = None
    if isinstance(it, VDict):
        guard = (it, it.ver)
        it = it.keys()
    elif isinstance(it, DictView):
        guard = (it.d, it.ver)
    elif isinstance(it, VList):
        # a list may be changed while it is iterated: iterate by live index when concrete
        if not it.has_chunk():
            return _LiveList(it)
    return ForLoop(aslist(it).parts, site, names, guard)


class _LiveList:
    upd: dict = {}

    def __init__(self, l):
        self.l = l
        self.i = 0

    def more(self, env):
        if E() is None or E().dead:
            raise PathEnd
        if self.i < len(self.l.parts):
            self.item = self.l.parts[self.i]
            if isinstance(self.item, Chunk):
                raise Unsupported("list changed while iterating")
            self.i += 1
            return True
        return False


def wloop(site, names):
    if State.eng is None:
        return _NativeWhile()
    return WhileLoop(site, names)


# ---------------------------------------------------------------- calls
MODELS: dict = {}
METHOD_MODELS: dict = {}  # (type, name) -> f(self, *a)


def model(*fs):
    def deco(g):
        for f in fs:
            MODELS[f] = g
        return g

    return deco


def _is_ours(c):
    m = getattr(c, "__module__", "") or ""
    return m == "ansibug" or m.startswith(("ansibug.", "specs.")) or getattr(c, "_vc_ok_", False)


PURE = {
    abs, callable, divmod, format, id, issubclass, ord, chr, round, hex, oct, bin, slice,
    os.path.join, os.path.basename, os.path.dirname, os.path.expanduser, os.path.splitext, os.path.isabs, os.strerror,
    dataclasses.is_dataclass, dataclasses.fields, typing.cast, typing.get_origin, typing.get_args,
    contextlib.suppress, contextlib.nullcontext, contextlib.ExitStack, inspect.currentframe,
    object, property, staticmethod, classmethod, frozenset, complex, float, memoryview, range,
    base64.b64encode, base64.b64decode, operator.itemgetter, operator.attrgetter, functools.partial,
    collections.OrderedDict, types.SimpleNamespace, urllib.parse.urlsplit, builtins.object.__new__,
    tempfile.gettempdir, uuid.uuid4, uuid.UUID, pathlib.PurePosixPath, os.fspath, shlex.quote, shlex.split, shlex.join,
}

SAFE_NATIVE_TYPES = (str, bytes, int, float, bool, tuple, type(None), frozenset, bytearray)


def call(f, *a, **k):
    e = State.eng
    if e is None:
        return f(*a, **k)
    if e.dead:
        raise PathEnd
    c = e.contracts.get(_fkey(f)) if e.contracts else None
    if c is not None:
        return c(f, *a, **k)
    try:
        m = MODELS.get(f)
    except TypeError:
        m = None
    if m is None and e.models:
        try:
            m = e.models.get(f)
        except TypeError:
            m = None
    if m is not None:
        return m(*a, **k)
    self = getattr(f, "__self__", None)
    if self is not None and not isinstance(self, types.ModuleType):
        if isinstance(self, (SymBase, Model)):
            return f(*a, **k)
        if isinstance(self, logging.Logger):
            return _log(f.__name__)
        tm = METHOD_MODELS.get((type(self), f.__name__))
        if tm is not None:
            return tm(self, *a, **k)
        if isinstance(self, (str, bytes)):
            if f.__name__ == "join":
                return join(self, *a)
            if f.__name__ == "format":
                return str_format(self, *a, **k)
            if any(deepsym(x) for x in a):
                return builtins.getattr(SText([self], type(self)), f.__name__)(*a, **k)
            r = f(*a, **k)
            return VList(r) if isinstance(r, list) else r
        if isinstance(self, dict) and not isinstance(f, types.MethodType):
            return _native_dict(self, f, a, k)
        if isinstance(self, (list, set, bytearray, collections.deque)):
            if f.__name__ in ("copy", "index", "count", "__contains__") and not any(deepsym(x) for x in a):
                r = f(*a, **k)
                return VList(r) if isinstance(r, list) else r
            raise Unsupported(f"{type(self).__name__}.{f.__name__} on an untracked native object")
        if isinstance(self, int) and not isinstance(self, type):
            if f.__name__ == "to_bytes":
                return f(*a, **k)
            return f(*a, **k)
        if isinstance(self, BaseException):
            return f(*a, **k)
        if isinstance(f, types.MethodType):
            if _is_ours(type(self)) or _is_ours(self) or getattr(f.__func__, "_vc_ok_", False):
                return f(*a, **k)
            if RTNAME in getattr(f.__func__, "__globals__", {}):
                return f(*a, **k)
            if isinstance(self, contextlib._GeneratorContextManager):
                return f(*a, **k)
        if isinstance(self, type):
            # classmethod
            if issubclass(self, dict) and f.__name__ == "fromkeys":
                raise Unsupported("dict.fromkeys")
            if _is_ours(self):
                return _construct(f, a, k) if False else f(*a, **k)
        if isinstance(self, types.GeneratorType):
            return f(*a, **k)
        if getattr(type(self), "_vc_ok_", False):
            return f(*a, **k)
        if type(f).__name__ == "method-wrapper":
            if isinstance(self, SAFE_NATIVE_TYPES):
                return f(*a, **k)
    if isinstance(f, type):
        if issubclass(f, BaseException) or issubclass(f, enum.Enum):
            return f(*a, **k)
        if _is_ours(f) or getattr(f, "_vc_ok_", False):
            return _construct(f, a, k)
    if isinstance(f, types.FunctionType):
        if RTNAME in f.__globals__ or getattr(f, "_vc_ok_", False):
            return f(*a, **k)
        w = getattr(f, "__wrapped__", None)
        if w is not None and RTNAME in getattr(w, "__globals__", {}):
            return f(*a, **k)
        if f.__qualname__.startswith("singledispatchmethod") or f.__qualname__.startswith("singledispatch"):
            return f(*a, **k)
        if f.__module__ == "functools" and "register" in f.__qualname__:
            return f(*a, **k)
        if getattr(f, "__name__", "") == "__init__" and f.__module__ == "dataclasses":
            return f(*a, **k)
    if _is_ours(type(f)) and isinstance(getattr(type(f), "__call__", None), types.FunctionType):
        return f(*a, **k)  # an object of the program with a __call__ method
    if isinstance(f, functools.partial):
        return call(f.func, *f.args, *a, **{**f.keywords, **k})
    if isinstance(f, (Model, SymBase)):
        return f(*a, **k)
    try:
        pure = f in PURE
    except TypeError:
        pure = False
    if pure and not any(deepsym(x) for x in a) and not any(deepsym(x) for x in k.values()):
        return f(*a, **k)
    if pure and f is typing.cast:
        return a[1]
    if isinstance(f, type(object.__init__)) and f is object.__init__:
        return None
    if type(f).__name__ in ("wrapper_descriptor",) and f in (object.__setattr__,):
        setattr_frozen(*a)
        return None
    if type(f).__name__ in ("itemgetter", "attrgetter"):
        return f(*a)
    fb = e.fallback(f, a, k) if e.fallback else NotImplemented
    if fb is not NotImplemented:
        return fb
    raise Unsupported(f"call to {getattr(f, '__module__', '')}.{getattr(f, '__qualname__', f)!s}")


def _fkey(f):
    return getattr(f, "__func__", f)


def setattr_frozen(o, n, v):
    E().log_attr(o, n)
    object.__setattr__(o, n, v)


def _construct(f, a, k):
    e = E()
    o = f(*a, **k)
    e.register(o)
    fixup(o)
    return o


def fixup(o):
    """native mutable containers of a new instance become tracked ones"""
    d = getattr(o, "__dict__", None)
    if d is None:
        return
    for n, v in list(d.items()):
        if type(v) is list:
            object.__setattr__(o, n, VList(v))
        elif type(v) is dict:
            object.__setattr__(o, n, VDict(list(v.items())))
        elif type(v) is set:
            object.__setattr__(o, n, VSet(v))


def _native_dict(self, f, a, k):
    n = f.__name__
    if n in ("get", "__getitem__", "__contains__"):
        if any(deepsym(x) for x in a[:1]):
            return builtins.getattr(VDict(list(self.items())), n)(*a, **k)
        return f(*a, **k)
    if n in ("keys", "values", "items"):
        return builtins.getattr(VDict(list(self.items())), n)()
    if n == "copy":
        return VDict(list(self.items()))
    if id(self) in E().native_mut:
        return f(*a, **k)
    raise Unsupported(f"dict.{n} on an untracked native dict")


def _log(n):
    if n == "isEnabledFor":
        e = E()
        if "dbg" not in e.memo:
            e.memo["dbg"] = e.branch(z3.Bool("log_debug_enabled")) if e.log_forks else False
        return e.memo["dbg"]
    return None


def join(sep, it):
    if State.eng is None:
        return sep.join(it)
    l = aslist(it)
    kind = sep.kind if isinstance(sep, SText) else type(sep)
    if l.has_chunk():
        # canonical opaque text determined by the separator and the parts
        if all(not isinstance(p, Chunk) or True for p in l.parts):
            return JoinText.make(sep, l)
    out = []
    for i, p in enumerate(l.parts):
        if i:
            out.append(sep)
        if not isinstance(p, (str, bytes, SText, VBytes)):
            if isinstance(p, (SAny, Poison)):
                raise Unsupported("join of opaque values")
            raise TypeError(f"sequence item {i}: expected str instance, {pytype(p).__name__} found")
        out.append(p)
    return cat(out, kind)


class JoinText:
    """join of a list with unknown stretches: every stretch is one unknown piece of
    text, of which the separator between its elements is part"""

    @staticmethod
    def block(sep, p, kind):
        e = E()
        known = e.memo.setdefault(("join", kind, sep), [])
        for c, v in known:
            if c.root is p.root and (c.n.eq(p.n) or e.implied(c.n == p.n)):
                return v
        v = text.TVar("join")
        if kind == "all":
            v.meta["join"] = (sep, p)
        else:
            # before: every element is followed by a separator; after: preceded
            v.lines = (text._s(sep), p, kind)
            e.add(z3.Implies(p.n <= 0, v.ln == 0))
            e.add(z3.Implies(p.n > 0, v.ln >= p.n * len(sep)))
        known.append((p, v))
        return v

    @staticmethod
    def make(sep, l):
        e = E()
        if isinstance(sep, SText):
            raise Unsupported("join with symbolic separator")
        parts = [p for p in l.parts if not (isinstance(p, Chunk) and e.implied(p.n <= 0))]
        k = type(sep)
        if all(isinstance(p, Chunk) for p in parts):
            if len(parts) == 1:
                return SText([JoinText.block(sep, parts[0], "all")], k)
            if not parts:
                return k()
            # some stretch may be empty: make the first element explicit
            for i, p in enumerate(parts):
                if e.branch(p.n > 0):
                    first = p.produce(mkint(0))
                    return join(sep, VList([first, p.with_n(p.n - 1)] + parts[i + 1 :]))
            return k()
        out = []
        seen = False
        for p in parts:
            if isinstance(p, Chunk):
                out.append(SText([JoinText.block(sep, p, "after" if seen else "before")], k))
                continue
            if not isinstance(p, (str, bytes, SText, VBytes)):
                if isinstance(p, (SAny, Poison)):
                    raise Unsupported("join of opaque values")
                raise TypeError("sequence item: expected str instance")
            if seen:
                out.append(sep)
            seen = True
            out.append(p)
        return cat(out, k)


def str_format(fmt, *a, **k):
    import string

    if not deepsym(a) and not deepsym(k):
        return fmt.format(*a, **k)
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if spec:
            raise Unsupported("format specification")
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field.isidentifier():
            v = k[field]
        else:
            raise Unsupported("format field")
        out.append(repr_(v) if conv == "r" else str_(v))
    return cat(out)


# ---------------------------------------------------------------- builtin models
MODELS[isinstance] = isinstance_
MODELS[len] = length
MODELS[str] = lambda *a, **k: "" if not a else (_decode(*a, **k) if len(a) > 1 or k else str_(a[0]))
MODELS[repr] = repr_


def _decode(o, *a, **k):
    return astext(o).decode(*a, **k)


@model(type)
def _type(*a):
    if len(a) != 1:
        raise Unsupported("class creation")
    t = pytype(a[0])
    return t[0] if isinstance(t, tuple) else t


@model(int)
def _int(x=0, *a):
    if isinstance(x, SText):
        if a:
            raise Unsupported("int with base")
        return text.to_int(x)
    if isinstance(x, (SInt, SBool)):
        return x if isinstance(x, SInt) else x.toint()
    if isinstance(x, (SAny, Poison)):
        raise Unsupported("int() of an opaque value")
    if isinstance(x, SymBase):
        raise TypeError("int() argument must be a string or a number")
    return int(x, *a)


@model(float)
def _float(x=0.0):
    if isinstance(x, SymBase):
        e = E()
        if isinstance(x, (SInt, SAny, SText)):
            key = ("float", text._akey(x))
            if key not in e.memo:
                e.memo[key] = (SAny(z3.Const(e.fresh_name("float"), sym.AnySort), float), x)
            return e.memo[key][0]
        raise Unsupported("float()")
    return float(x)


@model(bool)
def _bool(x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SInt):
        return mkbool(x.z != 0)
    if isinstance(x, SAny) and x.kind is bool:
        return mkbool(sym._any_true(x.z))
    return bool(x)


@model(bytes)
def _bytes(*a, **k):
    if not a:
        return b""
    x = a[0]
    if isinstance(x, SymBase):
        if isinstance(x, SText) and x.kind is str:
            if len(a) > 1:
                return x.encode(*a[1:])
            raise TypeError("string argument without an encoding")
        if isinstance(x, VSeq):
            raise Unsupported("bytes from a list")
        t = astext(x)
        n = t.native()
        return t if n is None else n
    if hasattr(x, "_as_text_"):
        t = x._as_text_()
        n = t.native() if isinstance(t, SText) else t
        return t if n is None else n
    return bytes(*a, **k)


@model(bytearray)
def _bytearray(*a):
    if not a:
        return VBytes(b"")
    x = a[0]
    if isint(x):
        f = E().buffer_factory
        if f is not None:
            return f(x)
        if isinstance(x, int):
            return VBytes(bytes(x))
        raise Unsupported("bytearray of symbolic size")
    return VBytes(astext(x))


@model(memoryview)
def _memoryview(x):
    if hasattr(x, "_memoryview_"):
        return x._memoryview_()
    if isinstance(x, (SText, VBytes, bytes)):
        return x
    raise Unsupported("memoryview")


@model(list)
def _list(*a):
    return aslist(a[0]) if a else VList([])


@model(tuple)
def _tuple(*a):
    if not a:
        return ()
    l = aslist(a[0])
    return VTuple(l.parts) if l.has_chunk() else tuple(l.parts)


@model(set)
def _set(*a):
    if not a:
        return VSet()
    l = aslist(a[0])
    if l.has_chunk():
        raise Unsupported("set of unknown content")
    return VSet(l.parts)


@model(dict)
def _dict(*a, **k):
    d = VDict()
    if a:
        d.update(a[0])
    for kk, v in k.items():
        d._setitem_(kk, v)
    return d


@model(iter)
def _iter(x, *a):
    if a:
        raise Unsupported("iter with sentinel")
    if isinstance(x, VIter):
        return x
    if isinstance(x, types.GeneratorType):
        return x
    return VIter(aslist(x).parts)


_NOD = object()


@model(next)
def _next(it, d=_NOD):
    if isinstance(it, VIter):
        r = it._next()
        if r is None:
            if d is _NOD:
                raise StopIteration
            return d
        return r[0]
    if isinstance(it, types.GeneratorType) or hasattr(it, "__next__"):
        return next(it) if d is _NOD else next(it, d)
    raise TypeError("not an iterator")


def _minmax(isless):
    def f(*a, key=None, default=_NOD):
        if len(a) == 1:
            l = aslist(a[0])
            if l.has_chunk():
                raise Unsupported("min/max over a sequence of unknown length")
            a = l.parts
        if not a:
            if default is not _NOD:
                return default
            raise ValueError("min() arg is an empty sequence")
        best = a[0]
        for x in a[1:]:
            kx, kb = (key(x), key(best)) if key else (x, best)
            c = (kx < kb) if isless else (kx > kb)
            best = sym.ite(c, x, best) if isinstance(c, (SBool, bool)) else (x if c else best)
        return best

    return f


MODELS[min] = _minmax(True)
MODELS[max] = _minmax(False)


def _anyall(stop):
    def f(it):
        l = aslist(it)
        for p in l.parts:
            if isinstance(p, Chunk):
                raise Unsupported("any/all over a sequence of unknown length")
            if bool(p) is stop:
                return stop
        return not stop

    return f


MODELS[any] = _anyall(True)
MODELS[all] = _anyall(False)


@model(sum)
def _sum(it, start=0):
    l = aslist(it)
    if l.has_chunk():
        raise Unsupported("sum")
    for p in l.parts:
        start = start + p
    return start


@model(sorted)
def _sorted(it, **k):
    l = aslist(it)
    if l.has_chunk() or any(deepsym(p) for p in l.parts):
        if not l.has_chunk() and len(l.parts) < 2:
            return l
        raise Unsupported("sorted")
    return VList(sorted(l.parts, **k))


@model(reversed)
def _reversed(x):
    l = aslist(x)
    if l.has_chunk():
        raise Unsupported("reversed of a sequence of unknown length")
    return VIter(list(reversed(l.parts)))


@model(enumerate)
def _enumerate(it, start=0):
    l = aslist(it)
    if not l.has_chunk():
        return VIter([(mkint(zi(start) + i) if isinstance(start, SInt) else start + i, p) for i, p in enumerate(l.parts)])
    out = []
    base = zi(start)
    for p in l.parts:
        if isinstance(p, Chunk):
            c = _map_chunk(p, lambda el, k, b=base: (mkint(b + zi(k)), el))
            out.append(c)
            base = z3.simplify(base + p.n)
        else:
            out.append((mkint(base), p))
            base = z3.simplify(base + 1)
    return VIter(out)


def _map_chunk(p, f):
    if getattr(p, "view", None) is not None:
        raise Unsupported("mapping over a dictionary view of unknown length")
    c = Chunk("map_" + p.name, p.n, None)
    if p.const is not None:
        c._produce = lambda k: f(p.const[0], k)
    elif p._produce is not None:
        c._produce = lambda k: f(p.produce(k), k)
    return c


@model(dataclasses.is_dataclass)
def _is_dataclass(o):
    if isinstance(o, Poison):
        raise Unsupported("use of an unknown value")
    return hasattr(o if isinstance(o, type) else pytype(o), "__dataclass_fields__")


@model(dataclasses.asdict)
def _asdict(o):
    if isinstance(o, (type, SymBase)) or not dataclasses.is_dataclass(o):
        raise TypeError("asdict() should be called on dataclass instances")

    def val(v):
        if dataclasses.is_dataclass(v) and not isinstance(v, type):
            return _asdict(v)
        if v is None or isinstance(v, (bool, int, float, str, bytes, SInt, SBool, SText)):
            return v
        raise Unsupported("copy of a dataclass field")

    return VDict([(f.name, val(getattr(o, f.name))) for f in dataclasses.fields(o)])


@model(zip)
def _zip(*its, strict=False):
    ls = [aslist(i) for i in its]
    if any(l.has_chunk() for l in ls):
        raise Unsupported("zip over sequences of unknown length")
    return VIter([tuple(x) for x in zip(*[l.parts for l in ls])])


@model(map)
def _map(f, *its):
    if len(its) != 1:
        raise Unsupported("map")
    l = aslist(its[0])
    if l.has_chunk():
        raise Unsupported("map over a sequence of unknown length")
    return VIter([call(f, p) for p in l.parts])


@model(filter)
def _filter(f, it):
    l = aslist(it)
    if l.has_chunk():
        raise Unsupported("filter over a sequence of unknown length")
    return VIter([p for p in l.parts if (call(f, p) if f is not None else p)])


@model(range)
def _range(*a):
    if not any(isinstance(x, SymBase) for x in a):
        return range(*a)
    lo, hi, st = 0, None, 1
    if len(a) == 1:
        hi = a[0]
    else:
        lo, hi = a[0], a[1]
        if len(a) > 2:
            st = a[2]
    if st not in (1, -1):
        raise Unsupported("range with a step")
    z = z3.simplify(zi(hi) - zi(lo)) if st == 1 else z3.simplify(zi(lo) - zi(hi))
    n = z3.If(z > 0, z, z3.IntVal(0))
    c = Chunk("range", n, lambda k: mkint(zi(lo) + st * zi(k)))
    return VList([c])


@model(hasattr)
def _hasattr(o, n):
    if isinstance(o, SymBase) and not isinstance(o, (SAny, SegNode)):
        if isinstance(o, Poison):
            o._bad()
        return hasattr(o, n) if isinstance(o, Model) else hasattr(pytype(o), n)
    try:
        builtins.getattr(o, n)
    except AttributeError:
        return False
    return True


@model(getattr)
def _getattr(o, n, *d):
    if isinstance(n, SText):
        raise Unsupported("getattr with a symbolic name")
    if isinstance(o, Poison):
        o._bad()
    try:
        return builtins.getattr(o, n)
    except AttributeError:
        if d:
            return d[0]
        raise


@model(builtins.setattr)
def _setattr(o, n, v):
    setattr(o, n, v)


@model(callable)
def _callable(x):
    return callable(x)


@model(print)
def _print(*a, **k):
    return None


@model(hash)
def _hash(x):
    return hash(x)


@model(object.__setattr__)
def _osetattr(o, n, v):
    setattr_frozen(o, n, v)


@model(dataclasses.replace)
def _replace(o, **k):
    kw = {}
    post = {}
    for f in dataclasses.fields(o):
        if not f.init:
            if f.name in k:
                raise ValueError(f"field {f.name} is declared with init=False")
            continue
        kw[f.name] = k[f.name] if f.name in k else builtins.getattr(o, f.name)
    return _construct(type(o), (), kw)


@model(dataclasses.asdict)
def _asdict(o):
    def conv(v):
        if dataclasses.is_dataclass(v) and not isinstance(v, type):
            return VDict([(f.name, conv(builtins.getattr(v, f.name))) for f in dataclasses.fields(v)])
        return v

    if isinstance(o, SymBase):
        return text_any("asdict", o)
    return conv(o)


def text_any(n, o):
    raise Unsupported(f"{n} of a symbolic value")


@model(functools.partial)
def _partial(f, *a, **k):
    return functools.partial(f, *a, **k)


@model(os.path.join)
def _osjoin(a, *ps):
    ps = tuple(_fspath(p) for p in ps)
    a = _fspath(a)
    if not deepsym((a,) + ps):
        return os.path.join(a, *ps)
    for b in ps:
        if b.startswith("/"):
            a = b
        elif length(a) == 0 or (a.endswith("/")):
            a = cat([a, b])
        else:
            a = cat([a, "/", b])
    return a


def _fspath(p):
    m = getattr(type(p), "__fspath__", None)
    if isinstance(m, types.FunctionType) and RTNAME in m.__globals__:
        return m(p)
    return p if isinstance(p, SymBase) else os.fspath(p)


MODELS[os.fspath] = _fspath


@model(os.path.basename)
def _basename(a):
    return os.path.basename(a) if not deepsym(a) else text.ufun_text("os.path.basename", (a,))


@model(os.path.expandvars)
def _expandvars(a):
    return text.ufun_text("os.path.expandvars", (a,)) if deepsym(a) else os.path.expandvars(a)


@model(os.path.expanduser)
def _expanduser(a):
    return text.ufun_text("os.path.expanduser", (a,)) if deepsym(a) else os.path.expanduser(a)


@model(int.from_bytes)
def _from_bytes(b, byteorder="big", *, signed=False):
    if isinstance(b, (SText, VBytes)):
        return text.int_from_bytes(astext(b), byteorder, signed)
    return int.from_bytes(b, byteorder, signed=signed)


import traceback as _tb


@model(_tb.format_exc)
def _fexc(*a, **k):
    return SText([text.TVar("traceback")])


@model(_tb.format_exception)
def _fexcp(*a, **k):
    return VList([SText([text.TVar("traceback")])])


import copy


@model(copy.copy)
def _ccopy(o):
    if isinstance(o, (VList, VDict)):
        return o.copy()
    raise Unsupported("copy.copy")


@model(collections.defaultdict)
def _defaultdict(f=None, *a):
    d = VDict()
    if f is not None:
        d._missing = lambda key: call(f)
    if a:
        d.update(a[0])
    return d


@model(collections.deque)
def _deque(*a, **k):
    return VDeque(aslist(a[0]).parts if a else [])


class VDeque(VList):
    pycls = collections.deque

    def popleft(self):
        return self.pop(0)

    def appendleft(self, x):
        self.insert(0, x)


@model(shlex_quote := __import__("shlex").quote)
def _quote(s):
    return text.ufun_text("shlex.quote", (s,)) if deepsym(s) else shlex_quote(s)


@model(base64.b64encode)
def _b64(x):
    return text.ufun_text("b64encode", (x,), bytes, only="".join(chr(c) for c in range(43, 123)), ascii=True) if deepsym(x) else base64.b64encode(x)
