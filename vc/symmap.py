"""Dictionaries and sets of unknown content.

A SymMap is an arbitrary mapping known through its base (a function giving, for a key, whether it is
there and its value) and the changes made since, in order.  A SymSet likewise.  Keys are compared with
the engine's equality, forking where it is undecided.
"""
import z3
from .values import *
from .interp import Unsupported


class SymMap(object):
    def __init__(self, base, over=(), name="map", cleared=False):
        self.base = base            # E, key -> None or ("hit", value)
        self.over = tuple(over)     # (key, value) or (key,) for a deletion
        self.name = name
        self.cleared = cleared

    def put(self, E, o, x):
        E.setslot(o, "v", SymMap(self.base, self.over + (x,), self.name, self.cleared))

    def look(self, E, k):
        for e in reversed(self.over):
            if E.branch(E.truth_term(E.eq(e[0], k))):
                return ("hit", e[1]) if len(e) == 2 else None
        return None if self.cleared else self.base(E, k)

    def sym_len(self, E):
        n = E.fresh_int("size")
        E.assume(n >= 0)
        return n

    def sym_find(self, E, o, k):
        return self.look(E, k) or ("miss", None)

    def sym_has(self, E, o, k):
        return self.look(E, k) is not None

    sym_contains = sym_has

    def sym_store(self, E, o, k, v):
        self.put(E, o, (k, v))

    def sym_del(self, E, o, k):
        if self.look(E, k) is None:
            E.throw("KeyError", k)
        self.put(E, o, (k,))

    def sym_clear(self, E, o):
        E.setslot(o, "v", SymMap(self.base, (), self.name, True))


class SymSet(object):
    def __init__(self, base, over=(), name="set", cleared=False):
        self.base = base            # E, key -> Bool
        self.over = tuple(over)     # (key, there)
        self.name = name
        self.cleared = cleared

    def has(self, E, k):
        for x, there in reversed(self.over):
            if E.branch(E.truth_term(E.eq(x, k))):
                return there
        return False if self.cleared else self.base(E, k)

    def sym_contains(self, E, o, k):
        return self.has(E, k)

    def sym_add(self, E, o, k):
        E.setslot(o, "v", SymSet(self.base, self.over + ((k, True),), self.name, self.cleared))

    def sym_discard(self, E, o, k):
        E.setslot(o, "v", SymSet(self.base, self.over + ((k, False),), self.name, self.cleared))

    def sym_remove(self, E, o, k):
        if not E.branch(E.truth_term(self.has(E, k))):
            E.throw("KeyError", k)
        self.sym_discard(E, o, k)

    def sym_clear(self, E, o):
        E.setslot(o, "v", SymSet(self.base, (), self.name, True))
