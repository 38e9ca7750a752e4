"""C15: recurrence sets.  Expansion is the union of the inclusions minus the exclusions, decided for one
arbitrary instant K (vc/bag.py): what holds of K holds of every instant."""
import z3
from vc.values import *
from vc.verify import Contract
from vc.bag import Bag
from vc.abslist import AbsList
from .spec import *
from .c01 import D
from .c14 import DT, DTRUST, moment, kind_of, sym_kind, period, p_after, p_within
from .c20 import ghost

CONTRACTS = []
RS = "pycalendar.icalendar.recurrenceset.RecurrenceSet"
S_ = RS + "."
I, B = z3.IntSort(), z3.BoolSort()


def add(*a, **k):
    k.setdefault("props", ("C15",))
    k.setdefault("replay", False)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


K = z3.Const("K", I)
INST = z3.Function("instance_of_rule", I, I, B)
PSTART = z3.Function("period_start", I, I)
PEND = z3.Function("period_end", I, I)
PARTS = {"mRrules": "rule", "mExrules": "rule", "mRdates": "date", "mExdates": "date", "mRperiods": "period", "mExperiods": "period"}
UPTO = dict((n, z3.Function("from_" + n, I, B)) for n in PARTS)
ALLOF = dict((n, z3.Function("named_by_" + n, I, B)) for n in PARTS)
TERM = dict((n, z3.Const(n, IntSeq)) for n in PARTS)


class Part(SymSeq):
    __slots__ = ("name",)


class Dom(object):
    """instants"""
    key = K

    def __init__(self, kind):
        self.kind = kind

    def make(self, E, k):
        return moment(E, k, self.kind)

    def key_of(self, E, x):
        return x.slots["key"]


def within(s, k):
    return z3.And(k >= s.range.slots["lo"], k < s.range.slots["hi"])


def overlap(s, p):
    return z3.And(s.range.slots["lo"] < PEND(p), s.range.slots["hi"] > PSTART(p))


def raw(n, ref):
    return INST(ref, K) if PARTS[n] == "rule" else ref == K if PARTS[n] == "date" else PSTART(ref) == K


def gives(s, n, ref):
    return z3.And(raw(n, ref), overlap(s, ref) if PARTS[n] == "period" else within(s, K))


def unfold(E, s, n, k):
    t = TERM[n]
    E.fact(z3.And(z3.Not(UPTO[n](z3.IntVal(0))), z3.Not(ALLOF[n](z3.IntVal(0)))))
    E.fact(UPTO[n](k + 1) == z3.Or(UPTO[n](k), gives(s, n, t[k])))
    E.fact(ALLOF[n](k + 1) == z3.Or(ALLOF[n](k), raw(n, t[k])))


def r_expand(E, o, start, range, items, float_offset=0, maxInstances=None):
    s = E.S
    ref = o.slots["ref"]
    E.prove("call: a rule is expanded from the start of the set, over the range asked for", And(start is s.start, range is s.range, E.eq(float_offset, s.fo)), "pre")
    if maxInstances is not None:
        E.prove("call: the limit is the one given", maxInstances is s.max, "pre")
        if E.choose(2, "too many"):
            from vc.interp import PyRaise
            raise PyRaise(E.obj(E.find_qual("pycalendar.icalendar.exceptions.TooManyInstancesError"), args=()))
    b = Bag.of(E, s.dom, items.slots["v"])
    E.setslot(items, "v", Bag(s.dom, z3.Or(E.zb(b.has), z3.And(INST(ref, K), within(s, K)))))
    limited = E.fresh_bool("limited")
    E.assume(z3.Implies(z3.And(z3.Not(limited), INST(ref, K)), within(s, K)))
    return limited


RULE = ghost("rule", expand=r_expand)
RPERIOD = ghost("rperiod", getStart=lambda E, o: moment(E, PSTART(o.slots["ref"]), E.S.kind), getEnd=lambda E, o: moment(E, PEND(o.slots["ref"]), E.S.kind))
RANGE = ghost("range", isDateAfterPeriod=p_after, isDateWithinPeriod=p_within, isDateBeforePeriod=lambda E, o, d: d.slots["key"] < o.slots["lo"],
              isPeriodOverlap=lambda E, o, p: overlap(E.S, p.slots["ref"]), getEnd=lambda E, o: o.slots["end"], getStart=lambda E, o: o.slots["start"])


def part(E, s, n):
    def mk(t):
        if PARTS[n] == "date":
            return moment(E, t, s.kind, ref=t)
        o = E.obj(RULE if PARTS[n] == "rule" else RPERIOD)
        o.slots["ref"] = t
        return o
    v = Part(PARTS[n], TERM[n], mk)
    v.name = n
    return E.plist(v)


def s_expand(E, s):
    s.kind = sym_kind(E, s, "start")
    s.dom = Dom(s.kind)
    s.start = moment(E, s.int("start"), s.kind)
    s.start_key = s.start.slots["key"]
    p = period(E, s, "range", s.kind)
    s.range = E.obj(RANGE)
    s.range.slots.update(p.slots)
    s.fo = s.int("float_offset")
    s.max = s.int("maxInstances", 1) if s.choose("max?", 2) else None
    s.items = E.plist([])
    s.set = s.obj(RS, **dict((n, part(E, s, n)) for n in sorted(PARTS)))
    s.before = dict((n, v.slots["v"]) for n, v in s.set.slots.items())
    s.base = {}
    for n in PARTS:
        unfold(E, s, n, z3.IntVal(0))
    return [s.set, s.start, s.range, s.items, s.fo, s.max]


def has(E, s, o):
    return E.zb(Bag.of(E, s.dom, o.slots["v"]).has)


def is_bag(E, v):
    return isinstance(v, Obj) and v.cls in (E.builtins["list"], E.builtins["set"]) and isinstance(v.slots["v"], (list, Bag))


def expand_inv(E, s, stmt, frame):
    out = []

    def collected(n):
        def f(L):
            if not isinstance(L.seq, Part):
                return None
            k = E.z(L.k)
            unfold(E, s, L.seq.name, k)
            h = has(E, s, L.var(n))
            if L.phase == "init":
                s.base[n] = h
            return h == z3.Or(s.base[n], UPTO[L.seq.name](k))
        return f

    def complete(n):
        def f(L):
            if not isinstance(L.seq, Part):
                return None
            k = E.z(L.k)
            unfold(E, s, L.seq.name, k)
            v = E.zb(L.var(n))
            if L.phase == "init":
                s.base[n] = v
            return z3.Implies(z3.Not(v), z3.And(z3.Not(s.base[n]), z3.Implies(ALLOF[L.seq.name](k), within(s, K)) if PARTS[L.seq.name] != "period" else True))
        return f
    out.append(("rules and dates give instants in the range", lambda L: z3.Implies(UPTO[L.seq.name](E.z(L.k)), within(s, K)) if PARTS[L.seq.name] != "period" else None))
    for n, v in sorted(frame.slots.items()):
        if is_bag(E, v) and v is not s.items:
            out.append(("%s holds what the elements seen so far give" % n, collected(n)))
        elif isinstance(v, bool) or (is_boolish(v) and not is_int(v)):
            out.append(("%s is false only if nothing was left out" % n, complete(n)))
    return out


def p_expand(E, s, r, exc):
    E.prove("the set is left alone", all(s.set.slots[n].slots["v"] is s.before[n] for n in s.before))
    if exc is not None:
        E.prove("only the instance limit", exc.cls.name == "TooManyInstancesError" and s.max is not None)
        return
    up = dict((n, UPTO[n](z3.Length(TERM[n]))) for n in PARTS)
    al = dict((n, ALLOF[n](z3.Length(TERM[n]))) for n in PARTS)
    b = Bag.of(E, s.dom, s.items.slots["v"])
    inc = z3.Or(s.start.slots["key"] == K, up["mRrules"], up["mRdates"], up["mRperiods"])
    exc_ = z3.Or(up["mExrules"], up["mExdates"], up["mExperiods"])
    E.prove("in the range: the inclusions minus the exclusions", z3.Implies(within(s, K), E.zb(b.has) == z3.And(inc, z3.Not(exc_))))
    E.prove("outside the range: at most the start of a period that overlaps it", z3.Implies(z3.And(z3.Not(within(s, K)), E.zb(b.has)), up["mRperiods"]))
    E.prove("in increasing order", b.ordered)
    E.prove("each once", b.unique)
    E.prove("false is returned only if nothing lies outside the range", z3.Implies(z3.And(z3.Not(E.truth_term(r)), z3.Or(s.start.slots["key"] == K, al["mRrules"], al["mRdates"])), within(s, K)))
    E.prove("the start is left alone", s.start.slots["key"] is s.start_key)


def bag_kind(E, s, base, cur):
    return Bag.of(E, s.dom, cur).but(has=E.fresh_bool("has"), ordered=False, unique=False)


add(S_ + "expand", s_expand, p_expand, raises=lambda E, s, x: True, loops=[expand_inv], list_kind=bag_kind, timeout=200, stubs=DT,
    trusted=DTRUST + ("a rule adds its instances in the range (C14); == and hash of date-times agree with their instant (C04, C05)",))


# --- the difference of two lists
def s_diff(E, s):
    s.kind = sym_kind(E, s, "start")
    s.dom = Dom(s.kind)
    s.has = (s.bool("in.first"), s.bool("in.second"))
    s.lists = [E.plist(Bag(s.dom, h, True, True)) for h in s.has]
    s.was = [o.slots["v"] for o in s.lists]
    return list(s.lists)


def p_diff(E, s, r, exc):
    b = Bag.of(E, s.dom, r.slots["v"])
    E.prove("in the first and not in the second", E.zb(b.has) == And(s.has[0], Not(s.has[1])))
    E.prove("each once", b.unique)
    E.prove("the lists given are left alone", all(o.slots["v"] is w for o, w in zip(s.lists, s.was)))


add("pycalendar.utils.set_difference", s_diff, p_diff, stubs=DT)


# --- copies and equality of sets
class Named(object):
    """the members of one list of the set, each standing for itself"""

    def __init__(self, name):
        self.name = name
        self.key = z3.Const("K_" + name, I)

    def make(self, E, k):
        o = E.obj(MEMBER)
        o.slots.update(key=k, of=self.name)
        return o

    def key_of(self, E, x):
        return x.slots["key"]

    def on_comp(self, E, x, y):
        E.prove("every member is copied", isinstance(y, Obj) and y is not x and y.slots.get("copy_of") is x)


def m_dup(E, o):
    c = E.obj(MEMBER)
    c.slots.update(key=o.slots["key"], of=o.slots["of"], copy_of=o)
    return c


MEMBER = ghost("member", duplicate=m_dup, clear=lambda E, o: None)


def s_rsdup(E, s):
    s.lists = dict((n, E.plist(Bag(Named(n), z3.Const("in_" + n, B)))) for n in sorted(PARTS))
    s.was = dict((n, o.slots["v"]) for n, o in s.lists.items())
    s.set = s.obj(RS, **s.lists)
    return [s.set]


def p_rsdup(E, s, r, exc):
    E.prove("another set", r is not s.set and r.cls is s.set.cls)
    for n in sorted(PARTS):
        o = r.slots[n]
        E.prove("%s has a list of its own" % n, all(o is not x for x in s.lists.values()))
        b = o.slots["v"]
        E.prove("%s has the same members" % n, isinstance(b, Bag) and b.dom is s.was[n].dom and b.has.eq(s.was[n].has))
        E.prove("the set copied is left alone", s.set.slots[n] is s.lists[n] and s.lists[n].slots["v"] is s.was[n])


add(S_ + "duplicate", s_rsdup, p_rsdup)

ADDERS = {"addRule": "mRrules", "subtractRule": "mExrules", "addDT": "mRdates", "subtractDT": "mExdates", "addPeriod": "mRperiods", "subtractPeriod": "mExperiods"}
GETTERS = {"getRules": "mRrules", "getExrules": "mExrules", "getDates": "mRdates", "getExdates": "mExdates", "getPeriods": "mRperiods", "getExperiods": "mExperiods"}


def s_adder(E, s):
    a = s_rsdup(E, s)
    s.new = E.obj(MEMBER)
    s.new.slots.update(key=s.int("new"), of=None)
    return a + [s.new]


def p_adder(field):
    def f(E, s, r, exc):
        for n in sorted(PARTS):
            o = s.set.slots[n]
            b = o.slots["v"]
            if n != field:
                E.prove("the other lists are left alone", o is s.lists[n] and b is s.was[n])
            else:
                E.prove("the member is added and the others kept", isinstance(b, Bag) and Iff(E.zb(b.has), Or(s.was[n].has, E.z(s.new.slots["key"]) == b.dom.key)))
    return f


def p_getter(field):
    def f(E, s, r, exc):
        E.prove("the list asked for", r is s.lists[field] or r is not None and r.slots["v"] is s.was[field])
    return f


for fn, field in sorted(ADDERS.items()):
    add(S_ + fn, s_adder, p_adder(field))
for fn, field in sorted(GETTERS.items()):
    add(S_ + fn, s_rsdup, p_getter(field))


def p_hasrec(E, s, r, exc):
    some = z3.Or(*[s.was[n].has for n in sorted(PARTS)])
    E.prove("a set with a member is recurring", z3.Implies(some, E.truth_term(r)))


add(S_ + "hasRecurrence", s_rsdup, p_hasrec)


EQ = z3.Function("lists_equal", I, I, I, B)


def st_eqlist(kind):
    def f(E, slots):
        a, b = [v for k, v in slots.items() if k != "self"]
        s = E.S
        x, y = s.who.get(a.oid), s.who.get(b.oid)
        E.prove("call: the same list of both sets is compared", x is not None and y is not None and x[1] == y[1] and x[0] != y[0], "pre")
        E.prove("call: compared as what it holds", PARTS[x[1]] == kind, "pre")
        return s.same[x[1]]
    return f


def s_rsequals(E, s):
    s.who, sets = {}, []
    s.same = dict((n, s.bool("same." + n)) for n in sorted(PARTS))
    for i in range(2):
        ls = dict((n, E.plist(Bag(Named(n), z3.Const("in%d_%s" % (i, n), B)))) for n in sorted(PARTS))
        for n in ls:
            s.who[ls[n].oid] = (i, n)
        sets.append(s.obj(RS, **ls))
    return sets


def p_rsequals(E, s, r, exc):
    E.prove("equal when all six lists are", Iff(E.truth_term(r), And(*[s.same[n] for n in sorted(PARTS)])))


add(S_ + "equals", s_rsequals, p_rsequals, stubs={"func:" + S_ + "equalsRules": st_eqlist("rule"), "func:" + S_ + "equalsDates": st_eqlist("date"), "func:" + S_ + "equalsPeriods": st_eqlist("period")})

# lists of rules, dates or periods are equal when they hold the same members as often, in any order
EMEM = ghost("emember", equals=lambda E, o, x: o.slots["key"] == x.slots["key"])
PQ = "pycalendar.period.Period."


def by_key(op):
    def f(E, slots):
        a, b = slots["self"], [v for k, v in slots.items() if k != "self"][0]
        return op(a.slots["key"], b.slots["key"])
    return f


ORDER = {"__eq__": lambda a, b: a == b, "__ne__": lambda a, b: Not(a == b), "__lt__": lambda a, b: a < b, "__gt__": lambda a, b: a > b, "__le__": lambda a, b: a <= b, "__ge__": lambda a, b: a >= b}
PSTUB = dict(("func:" + PQ + k, by_key(f)) for k, f in ORDER.items())


def member(E, fn):
    if fn == "equalsRules":
        return E.obj(EMEM)
    return E.obj(E.find_qual("pycalendar.datetime.DateTime" if fn == "equalsDates" else "pycalendar.period.Period"))


def s_eqlists(fn):
    return lambda E, s: s_eqlists_(E, s, fn)


def s_eqlists_(E, s, fn):
    s.ls = []
    for i in range(2):
        ms = []
        for j in range(s.choose("len%d" % i, 4)):
            o = member(E, fn)
            o.slots["key"] = s.int("k%d_%d" % (i, j))
            ms.append(o)
        s.ls.append(E.plist(ms))
    s.was = [list(x.slots["v"]) for x in s.ls]
    return [s.obj(RS, **dict((n, E.plist([])) for n in PARTS))] + s.ls


def p_eqlists(E, s, r, exc):
    a, b = [[m.slots["key"] for m in w] for w in s.was]

    def times(k, l):
        return sum([If(k == x, 1, 0) for x in l], 0)
    same = And(len(a) == len(b), *[times(k, a) == times(k, b) for k in a + b])
    E.prove("equal when each holds the same members as often", Iff(E.truth_term(r), same))
    E.prove("the lists are left alone", all(len(o.slots["v"]) == len(w) and all(x is y for x, y in zip(o.slots["v"], w)) for o, w in zip(s.ls, s.was)))


for fn in ("equalsRules", "equalsDates", "equalsPeriods"):
    add(S_ + fn, s_eqlists(fn), p_eqlists, stubs=dict(DT, **PSTUB), bounded="lists of at most 3", maxpaths=20000)
