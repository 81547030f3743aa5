"""Symbolic scalars over z3."""
from __future__ import annotations

import z3

from .base import NewName, State, SymBase, Unsupported

IntSort = z3.IntSort()
StrSort = z3.StringSort()
AnySort = z3.DeclareSort("Any")


def E():
    e = State.eng
    if e is None:
        raise Unsupported("symbolic value used without a session")
    return e


# ---------------------------------------------------------------- booleans
def zb(x):
    if isinstance(x, SBool):
        return x.z
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, z3.BoolRef):
        return x
    if x is None:
        return z3.BoolVal(False)
    return z3.BoolVal(bool(x))


def mkbool(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return SBool(z)


class SBool(SymBase):
    __slots__ = ("z",)

    def __init__(self, z):
        self.z = z

    def __bool__(self):
        return E().branch(self.z)

    def __eq__(self, o):
        if isinstance(o, (bool, SBool)):
            return mkbool(self.z == zb(o))
        if isinstance(o, (int, SInt)):
            return self.toint() == o
        return False

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def toint(self):
        return SInt(z3.If(self.z, z3.IntVal(1), z3.IntVal(0)))

    def __and__(self, o):
        return mkbool(z3.And(self.z, zb(o)))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(z3.Or(self.z, zb(o)))

    __ror__ = __or__

    def __hash__(self):
        raise Unsupported("hash of symbolic bool")

    def __repr__(self):
        return f"SBool({self.z})"


def not_(x):
    if isinstance(x, SBool):
        return mkbool(z3.Not(x.z))
    return not x


# ---------------------------------------------------------------- integers
def zi(x):
    if isinstance(x, SInt):
        return x.z
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, SBool):
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, z3.ArithRef):
        return x
    raise Unsupported(f"not an int: {type(x).__name__}")


def isint(x):
    return isinstance(x, (int, SInt)) and not isinstance(x, SBool)


def mkint(z):
    z = z3.simplify(z)
    if z3.is_int_value(z):
        return z.as_long()
    return SInt(z)


class SInt(SymBase):
    __slots__ = ("z", "src")

    def __init__(self, z, src=None):
        self.z = z
        self.src = src

    def _b(self, o, f):
        if isinstance(o, (int, SInt, SBool)):
            return mkint(f(self.z, zi(o)))
        if isinstance(o, float):
            raise Unsupported("float arithmetic on symbolic int")
        return NotImplemented

    def __add__(self, o):
        return self._b(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._b(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._b(o, lambda a, b: b - a)

    def __mul__(self, o):
        if hasattr(o, "_vc_repeat_"):
            return o._vc_repeat_(self)
        if isinstance(o, (list, str, bytes, tuple)):
            from . import rt

            return rt.repeat(o, self)
        return self._b(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def _div(self, o, f):
        if isinstance(o, int) and not isinstance(o, bool):
            if o == 0:
                raise ZeroDivisionError
            if o > 0:  # z3 div/mod agree with Python floor semantics for positive divisors
                return mkint(f(self.z, z3.IntVal(o)))
        raise Unsupported("division by a symbolic or negative int")

    def __floordiv__(self, o):
        return self._div(o, lambda a, b: a / b)

    def __mod__(self, o):
        return self._div(o, lambda a, b: a % b)

    def __neg__(self):
        return mkint(-self.z)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(z3.If(self.z >= 0, self.z, -self.z))

    def __invert__(self):
        return mkint(-self.z - 1)

    def _c(self, o, f):
        if isinstance(o, (int, SInt, SBool)):
            return mkbool(f(self.z, zi(o)))
        return NotImplemented

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if isinstance(o, (int, SInt, SBool)):
            return mkbool(self.z == zi(o))
        if isinstance(o, (SAny, Poison)):
            return NotImplemented
        return False

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __bool__(self):
        return E().branch(self.z != 0)

    def __hash__(self):
        raise Unsupported("hash of symbolic int")

    def __index__(self):
        v = E().concretize_int(self.z)
        if v is None:
            raise Unsupported("native code needs a concrete int")
        return v

    def __int__(self):
        return self.__index__()

    def to_bytes(self, length, byteorder="big", *, signed=False):
        from . import text

        return text.int_to_bytes(self, length, byteorder, signed)

    def __repr__(self):
        return f"SInt({self.z})"


def ite(c, a, b):
    """Symbolic if-then-else on ints/bools, falling back to a fork."""
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        return mkbool(z3.If(zb(c), zb(a), zb(b)))
    if isint(a) and isint(b):
        return mkint(z3.If(zb(c), zi(a), zi(b)))
    return a if c else b


# ---------------------------------------------------------------- opaque
_any_true = z3.Function("any_truthy", AnySort, z3.BoolSort())


class SAny(SymBase):
    """An arbitrary Python value of which only identity/equality is known.

    kind: optional python class the value is known to be an instance of;
    nonkinds: classes it is known not to be an instance of.
    """

    __slots__ = ("z", "kind", "known", "attrs")

    def __init__(self, z, kind=None):
        self.z = z
        self.kind = kind
        self.known = {}
        self.attrs = {}

    def __bool__(self):
        return E().branch(_any_true(self.z))

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, SAny):
            return mkbool(self.z == o.z)
        if isinstance(o, Poison):
            return NotImplemented
        if o is None and self.kind is not None:
            return False
        if self.kind is NewName and not isinstance(o, SymBase):
            return False
        raise Unsupported(f"== between an opaque value and {type(o).__name__}")

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def __hash__(self):
        if self.kind is NewName:
            return object.__hash__(self)
        raise Unsupported("hash of opaque value")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        a = object.__getattribute__(self, "attrs")
        if n in a:
            return a[n]
        raise Unsupported(f"attribute {n!r} of an opaque value")

    def __repr__(self):
        return f"SAny({self.z})"


class Poison(SymBase):
    """A value whose content was lost by a loop summary; any use is an error."""

    __slots__ = ("why",)

    def __init__(self, why):
        object.__setattr__(self, "why", why)

    def _bad(self, *a, **k):
        raise Unsupported(f"use of a value abstracted by a loop summary ({self.why})")

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        self._bad()

    __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = __call__ = __iter__ = __len__ = _bad
    __add__ = __radd__ = __sub__ = __rsub__ = __getitem__ = __setitem__ = __contains__ = __hash__ = _bad
    __setattr__ = _bad

    def __repr__(self):
        return "<poison>"
