"""Shared state and exceptions (no z3 import here: also used in concrete mode)."""
from __future__ import annotations


class PathEnd(BaseException):
    """This path is finished (infeasible, or an arbitrary iteration was closed)."""


class Restart(BaseException):
    """Loop summary changed: re-explore."""


class Unsupported(BaseException):
    """The code uses something the verifier has no sound meaning for."""

    def __init__(self, *a):
        super().__init__(*a)
        e = State.eng
        if e is not None and not e.dead:
            e.unsupported.append(self)


class SpecError(Exception):
    pass


class State:
    eng = None  # the active symbolic Engine, or None
    idle = 0


def eng():
    return State.eng


class SymBase:
    """Base class of every verifier value."""

    _sym_ = True
    __slots__ = ()


class Model:
    """Base class of host level models of external objects (trusted)."""

    _model_ = True
    pycls: type | tuple = ()

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        raise Unsupported(f"model {type(self).__name__} has no attribute {n!r}")


class NewName(str):
    """kind of an opaque name that is none of the names written in the code"""
