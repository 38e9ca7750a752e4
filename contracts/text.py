"""Reading text: positions, characters, digit runs.  Works on Python strings (evaluated), on symbolic
strings of known shape and on sequences of unknown length."""
import z3
from vc.values import *
from vc import strings
from .spec import And, Or, Not, Implies, If, isz


class Txt(object):
    def __init__(self, E, data):
        self.E = E
        self.data = data
        self.sym = isinstance(data, View)
        self.n = strings.length(E, data)

    def at(self, i):
        """code of the character at i, -1 outside the text"""
        if isinstance(self.data, str):
            return ord(self.data[i]) if 0 <= i < self.n else -1
        if self.sym:
            return strings.vat(self.E, self.data, i)
        k = strings.split_at(self.E, self.data, i)
        return strings.code(self.data.pieces[k])

    def has(self, i):
        return i < self.n

    def isc(self, i, ch):
        """the character at i exists and is ch"""
        return And(i < self.n, self.at(i) == ord(ch))

    def field(self, i, count, leading=False):
        """(there are `count` digits at i, their value)"""
        ok, v = digits_of([self.at(i + j) for j in range(count)], leading)
        return And(i + count <= self.n, ok), v

    def isdig(self, i):
        c = self.at(i)
        return And(c >= 48, c <= 57)

    def dend(self, i):
        """end of the run of digits that starts at i"""
        if isinstance(self.data, str):
            while i < self.n and 48 <= ord(self.data[i]) <= 57:
                i += 1
            return i
        if self.sym:
            return strings.vdend(self.E, self.data, i)
        k = strings.split_at(self.E, self.data, i)
        ps = self.data.pieces
        while k < len(ps):
            p = ps[k]
            if isinstance(p, NumTok):
                i = i + p.length
            elif self.E.branch(And(strings.code(p) >= 48, strings.code(p) <= 57)):
                i = i + 1
            else:
                break
            k += 1
        return i

    def fact_run(self, i, j):
        if self.sym:
            strings.vdend_at(self.E, self.data, i, j)

    def value(self, i, j):
        """decimal value of the digits i..j-1"""
        if isinstance(self.data, str):
            return int(self.data[i:j])
        if self.sym:
            v = self.data
            return strings.vint(self.E, View(v.fn, z3.simplify(v.lo + i), z3.simplify(v.lo + j), v.end))
        a, b = strings.split_at(self.E, self.data, i), strings.split_at(self.E, self.data, j)
        ps = self.data.pieces[a:b]
        if len(ps) == 1 and isinstance(ps[0], NumTok):
            return ps[0].term
        v = 0
        for p in ps:
            v = v * 10 + strings.code(p) - 48
        return v


def digits_of(cs, leading):
    ok, v, blank = True, 0, True
    for j, c in enumerate(cs):
        d = And(c >= 48, c <= 57)
        sp = And(leading, blank, c == 32, j < len(cs) - 1)
        ok = And(ok, Or(d, sp))
        blank = And(blank, c == 32)
        v = v * 10 + If(c == 32, 0, c - 48)
    return ok, v


def loop_names(stmt):
    """names assigned in a loop"""
    from vc.pyast import walk
    out = set()
    for n in walk(stmt):
        if n.t in ("Assign", "AugAssign"):
            for t in (n.targets if n.t == "Assign" else [n.target]):
                for x in (t.elts if t.t == "Tuple" else [t]):
                    if x.t == "Name":
                        out.add(x.id)
    return out


def run_invariants(*datanames):
    """candidates for loops that scan a run of digits: every position variable stays within the run"""
    def f(E, s, stmt, frame):
        out = []
        for dn in datanames:
            data = frame.slots.get(dn)
            if not is_str(data):
                continue
            t = Txt(E, data)
            for v in sorted(loop_names(stmt)):
                if not is_int(frame.slots.get(v)):
                    continue

                def low(L, v=v):
                    return L.var(v) >= L.entry[v]

                def high(L, v=v, t=t):
                    e = t.dend(L.entry[v])
                    t.fact_run(L.entry[v], L.var(v))
                    return L.var(v) <= e
                out.append(("%s does not move before the run" % v, low))
                out.append(("%s stays within the run of digits" % v, high))
        return out
    return f
