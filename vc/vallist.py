"""Lists of unknown length whose elements are plain values: the content is a z3 sequence of integers
(for elements the code only compares and copies, an integer stands for the value)."""
import z3
from .values import *
from .abslist import AbsList
from .interp import Unsupported

SEQ = IntSeq
SORT = z3.Function("sorted", SEQ, SEQ)
EMPTY = z3.Empty(SEQ)


class Vals(AbsList):
    def __init__(self, term, mk=None, ref=None):
        self.term = term
        self.wrap = mk or (lambda E, t: t)
        self.ref = ref or (lambda E, x: E.z(x))
        AbsList.__init__(self, "values", self.member, z3.Length(term), at=lambda E, i: self.wrap(E, self.term[i]))

    def member(self, E):
        i = E.fresh_int("i")
        E.assume(z3.And(i >= 0, i < self.length))
        self.index = i
        return self.wrap(E, self.term[i])

    def sym_get(self, E, o, idx):
        if E.is_slice(idx):
            if idx[1] is None and idx[2] is None and idx[3] is None:
                return E.plist(self)
            raise Unsupported("slice of a list of unknown length")
        return AbsList.sym_get(self, E, o, idx)

    def sym_contains(self, E, o, x):
        return z3.Contains(self.term, z3.Unit(E.z(x)))

    def sorted(self, E):
        t = SORT(self.term)
        E.fact(z3.Length(t) == z3.Length(self.term))
        return Vals(t, self.wrap)

    def sym_sort(self, E, o, cmp=None, key=None, reverse=False):
        if cmp is not None or key is not None or reverse is not False:
            raise Unsupported("sort with an order of its own")
        E.setslot(o, "v", self.sorted(E))

    def sym_eq(self, E, other):
        if isinstance(other, Vals):
            return self.term == other.term
        if isinstance(other, (list, tuple)) and all(is_int(x) for x in other):
            t = EMPTY
            for x in other:
                t = z3.Concat(t, z3.Unit(E.z(x)))
            return self.term == t
        raise Unsupported("comparison of a list of unknown length with %r" % (other,))

    def sym_append(self, E, o, x):
        E.setslot(o, "v", Vals(z3.Concat(self.term, z3.Unit(self.ref(E, x))), self.wrap, self.ref))

    def sym_havoc(self, E, base):
        return Vals(E.fresh_seq(base), self.wrap, self.ref)


class VTuple(object):
    """tuple(list of unknown length), or None when `none` holds"""
    def __init__(self, vals, none=False):
        self.vals = vals
        self.none = none

    def sym_eq(self, E, other):
        if other is None:
            return self.none
        if isinstance(other, VTuple):
            t = self.vals.sym_eq(E, other.vals)
            if self.none is False and other.none is False:
                return t
            return z3.And(E.zb(self.none) == E.zb(other.none), z3.Or(E.zb(self.none), t))
        if isinstance(other, tuple):
            t = self.vals.sym_eq(E, other)
            return t if self.none is False else z3.And(z3.Not(self.none), t)
        return False

    def sym_merge(self, E, c, mine, other):
        """self if (c == mine) else other"""
        mc = c if mine else z3.Not(c)
        if other is None:
            return VTuple(self.vals, z3.Or(z3.Not(mc), E.zb(self.none)))
        if isinstance(other, VTuple):
            return VTuple(Vals(z3.If(mc, self.vals.term, other.vals.term)), z3.If(mc, E.zb(self.none), E.zb(other.none)))
        if other == ():
            return VTuple(Vals(z3.If(mc, self.vals.term, EMPTY)), z3.And(mc, E.zb(self.none)))
        return None

    def sym_iter(self, E):
        if self.none is not False:
            raise Unsupported("iteration over a tuple that may be None")
        return ("abs", self.vals)


class Range(AbsList):
    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi
        AbsList.__init__(self, "range", self.member, None)
        self.length = z3.If(hi > lo, hi - lo, 0)

    def member(self, E):
        i = E.fresh_int("i")
        E.assume(z3.And(i >= self.lo, i < self.hi))
        self.index = i
        return i


class Zip(AbsList):
    def __init__(self, E, parts):
        self.parts = parts
        n = parts[0].length
        for p in parts[1:]:
            n = z3.If(p.length < n, p.length, n)
        AbsList.__init__(self, "zip", self.member, n, at=lambda E, i: tuple(p.at(E, i) for p in parts))

    def member(self, E):
        i = E.fresh_int("i")
        E.assume(z3.And(i >= 0, i < self.length))
        self.index = i
        return self.at(E, i)


class Enum(AbsList):
    def __init__(self, E, part, start=0):
        self.part = part
        AbsList.__init__(self, "enumerate", self.member, part.length, at=lambda E, i: (i + start, part.at(E, i)))

    member = Zip.member
