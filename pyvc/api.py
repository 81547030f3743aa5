"""Registration of contracts (harness functions) — used in both modes."""
from __future__ import annotations

HARNESSES: dict = {}


class Harness:
    def __init__(self, name, fn, covers, opts):
        self.name, self.fn, self.covers, self.opts = name, fn, tuple(covers), opts


def harness(covers=(), name=None, **opts):
    """@harness: one contract.  The body builds an arbitrary input satisfying the
    precondition, calls the real code and proves the postcondition.

    covers: reachability points that some path must reach (vacuity guard)
    runs:   bounded battery size in concrete mode
    bounded: the contract is only checked concretely (never counted as proved)
    """

    def deco(fn):
        h = Harness(name or fn.__name__, fn, covers, opts)
        HARNESSES.setdefault(fn.__module__, {})[h.name] = h
        return fn

    return deco


class Violated(Exception):
    def __init__(self, name, note=""):
        super().__init__(name, note)
        self.name, self.note = name, note


class Discard(BaseException):
    pass
