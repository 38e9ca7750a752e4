"""Lists of unknown length, and loops over them.

An AbsList is a list the verifier knows through an arbitrary element: draw() gives a fresh arbitrary
member.  A loop over it is verified by running its body once for an arbitrary element (`map_loop`):

* local names the body assigns must be assigned before they are read in an iteration, or keep the
  value they had at loop entry in every iteration that does not leave the loop (that is checked);
* lists that exist outside the loop may only be appended to; what one iteration appends is handed to
  the contract (Contract.step), whose obligations then hold for every iteration; after the loop such
  a list holds, in order, its earlier content and the contributions of all iterations;
* an iteration may leave the loop by break or return (a search): then some element took that path;
* when the loop runs to its end, the contract may assume (Contract.done) what its step obligations
  established for every element;
* any other write to something that exists outside the loop is outside the subset.
"""
import z3
from .values import *
from .interp import Unsupported, PathEnd, Restart, SpecFail, assigned_names, snapshot, NORMAL, RETURN, BREAK, CONTINUE
from . import pyast


class AbsList(object):
    """elements: mk(E) -> a fresh arbitrary member (with what is known of members assumed)"""
    kind = "abs"

    def __init__(self, name, mk, length=None, mem=None, at=None):
        self.name = name
        self.mk = mk
        self.length = length
        self.mem = mem          # E, v -> Bool: v is (equal to) a member
        self.at = at            # E, i -> the element at index i (0 <= i < length known)
        self.last_drawn = None

    def __repr__(self):
        return "<list %s>" % self.name

    def draw(self, E):
        return self.mk(E)

    def sym_iter(self, E):
        return ("abs", self)

    def sym_len(self, E):
        if self.length is None:
            raise Unsupported("length of %r" % (self,))
        return self.length

    def sym_contains(self, E, o, x):
        if self.mem is None:
            raise Unsupported("membership in %r" % (self,))
        return self.mem(E, x)

    def sym_get(self, E, o, idx):
        if self.at is None or self.length is None or not is_int(idx):
            raise Unsupported("element of %r" % (self,))
        n = self.length
        i = E.z(idx)
        if not E.branch(z3.And(i >= -n, i < n)):
            E.throw("IndexError", "list index out of range")
        if not E.entailed(i >= 0):
            i = z3.If(i >= 0, i, i + n)
        return self.at(E, z3.simplify(i))

    def sym_append(self, E, o, x):
        E.setslot(o, "v", Rec([("flat", self)]))
        o.slots["v"].sym_append(E, o, x)

    def sym_extend(self, E, o, items):
        E.setslot(o, "v", Rec([("flat", self)]))
        o.slots["v"].sym_extend(E, o, items)


class Rec(object):
    """content of a list built up by loops: parts are ("item", value), ("flat", AbsList) for the
    contributions of a loop over that list, ("prior",) for what earlier iterations added"""

    def __init__(self, parts):
        self.parts = list(parts)

    def __repr__(self):
        return "<built %r>" % (self.parts,)

    def sym_append(self, E, o, x):
        E.setslot(o, "v", Rec(self.parts + [("item", x)]))

    def sym_extend(self, E, o, items):
        if isinstance(items, list):
            E.setslot(o, "v", Rec(self.parts + [("item", x) for x in items]))
        elif isinstance(items, tuple) and items[0] == "abs":
            E.setslot(o, "v", Rec(self.parts + [("all", items[1])]))
        elif isinstance(items, tuple) and items[0] == "rec":
            E.setslot(o, "v", Rec(self.parts + items[1].parts))
        else:
            raise Unsupported("extend by %r" % (items,))

    def no(self, *a):
        raise Unsupported("reading a list that a loop builds up")

    def sym_len(self, E):
        """unknown, except that it is a length"""
        n = E.fresh_int("len")
        E.assume(n >= sum(1 for p in self.parts if p[0] == "item"))
        if not any(p[0] != "item" for p in self.parts):
            return len(self.parts)
        return n

    sym_contains = sym_get = sym_remove = no

    def sym_sort(self, E, o, cmp=None, key=None, reverse=False):
        h = E.stubs.get("list.sort")
        if h is None:
            self.no()
        h(E, o, cmp, key, reverse)

    def sym_iter(self, E):
        if all(p[0] == "item" for p in self.parts):
            return [p[1] for p in self.parts]
        return ("rec", self)


def loop_assigned(body):
    out = set()

    def tgt(t):
        for x in pyast.walk(t):
            if x.t == "Name":
                out.add(x.id)
    for b in body:
        for n in pyast.walk(b):
            if n.t in ("Assign",):
                for t in n.targets:
                    tgt(t)
            elif n.t in ("AugAssign", "For"):
                tgt(n.target)
            elif n.t == "With" and n.optional_vars is not None:
                tgt(n.optional_vars)
            elif n.t == "TryExcept":
                pass
    return out


def map_loop(E, s, frame, al):
    names = loop_assigned([s])

    def body(elem):
        E.assign(s.target, elem, frame)
        return E.exec_block(s.body, frame)

    def orelse():
        return E.exec_block(s.orelse, frame) if s.orelse else (NORMAL, None)
    return run(E, s, frame, al, names, body, orelse)


def comp_loop(E, node, frame, al, target, emit):
    """[.. for target in al ..]: a loop whose body is emit()"""
    names = set(x.id for x in pyast.walk(target) if x.t == "Name")

    def body(elem):
        E.assign(target, elem, frame)
        emit()
        return (NORMAL, None)
    run(E, node, frame, al, names, body, lambda: (NORMAL, None))


class Dead(Opaque):
    pass


def run(E, node, frame, al, names, body, orelse):
    if E.spec_depth:
        raise SpecFail()
    drv = E.driver
    base = ("abs", node.uid, tuple(E.dec))
    E.visits[base] = E.visits.get(base, 0) + 1
    key = base + (E.visits[base],)
    st = E.loopstate.setdefault(key, {"mods": set(), "dropped": {}, "proved": set(), "line": getattr(node, "line", 0), "dead": set()})
    c = drv.c
    E.approx = True
    head_oid = E.oid
    entry = dict((n, frame.slots[n]) for n in names if n in frame.slots)
    by_oid = dict((o.oid, o) for o in E.reachable(frame))
    accs = [by_oid[oid] for oid, slot in sorted(st["mods"]) if oid in by_oid]
    before = dict((o.oid, o.slots["v"]) for o in accs)
    if E.choose(2, "loop") == 0:
        # an arbitrary iteration
        for n in names:
            if n in entry and n in st["dead"]:
                E.setslot(frame, n, Dead("%s carried from one iteration to the next" % n))
        for o in accs:
            E.setslot(o, "v", Rec([("prior",)]))
        if al.length is not None:
            E.assume(al.length > 0)
        elem = al.draw(E)
        ctx = getattr(E, "loopctx", ())
        E.loopctx = ctx + ((al, elem, snapshot(elem)),)
        mark = len(E.trail)
        try:
            r = body(elem)
            mine = E.loopctx
        finally:
            E.loopctx = ctx
        grew = False
        for owner, slot, old in E.trail[mark:]:
            if not isinstance(owner, Obj):
                raise Unsupported("loop body writes global state")
            if owner.oid > head_oid or owner is frame or owner.cls is None:
                if owner.cls is None and owner is not frame and owner.oid <= head_oid:
                    raise Unsupported("loop body writes variables of an outer function")
                continue
            if slot == "v" and owner.cls is E.builtins["list"]:
                # (what an iteration that leaves the loop writes, no later iteration sees)
                if (owner.oid, slot) not in st["mods"] and r[0] not in (RETURN, BREAK):
                    st["mods"].add((owner.oid, slot))
                    grew = True
                continue
            if getattr(owner, "tag", None) == "ghost":
                continue
            raise Unsupported("loop body writes %s of an object outside the loop" % slot)
        if grew:
            raise Restart(base[-1])
        if r[0] == RETURN:
            return r
        if r[0] == BREAK:
            return (NORMAL, None)
        recs = {}
        for o in accs:
            v = o.slots["v"]
            if not isinstance(v, Rec) or not v.parts or v.parts[0] != ("prior",) or ("prior",) in v.parts[1:]:
                raise Unsupported("loop body does more than append to a list")
            if v.parts[1:]:
                recs[o.oid] = v.parts[1:]
        for n in sorted(names):
            if n in entry and n not in st["dead"]:
                a, b = entry[n], frame.slots.get(n)
                same = a is b
                if not same and (is_int(a) or is_boolish(a)) and (is_int(b) or is_boolish(b)) and is_boolish(a) == is_boolish(b):
                    e = E.eq(a, b)
                    same = drv.try_prove(E, "loop@%s.keeps" % st["line"], e if not isinstance(e, bool) else z3.BoolVal(e))[0]
                elif not same and isinstance(a, (str, type(None))) and type(a) == type(b):
                    same = a == b
                if not same:
                    st["dead"].add(n)
                    raise Restart(base[-1])
        if c.step is not None:
            c.step(E, drv.S, mine, recs)
        elif recs:
            raise Unsupported("loop over a list of unknown length builds a list (line %s)" % st["line"])
        raise PathEnd()
    # every element done
    for n in sorted(names):
        if n not in entry or n in st["dead"]:
            if n in frame.slots or n in entry:
                E.setslot(frame, n, Dead("%s after the loop" % n))
    for o in accs:
        v = before[o.oid]
        prior = v.parts if isinstance(v, Rec) else [("item", x) for x in v] if isinstance(v, list) else [("flat", v)]
        E.setslot(o, "v", Rec(prior + [("flat", al)]))
    if c.done is not None:
        c.done(E, drv.S, getattr(E, "loopctx", ()), al)
    return orelse()
