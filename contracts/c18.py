"""C18: containers.  The property and parameter maps are verified for maps and lists of any size, looking
at the key operated on and at an arbitrary other key; the calendar's maps are functions of its component
list, decided for one arbitrary type and identifier."""
import z3
from vc.values import *
from vc.verify import Contract
from vc.symmap import SymMap
from vc.vallist import Vals
from vc.abslist import AbsList, Rec
from vc.interp import Unsupported
from .spec import *
from .c20 import ghost

CONTRACTS = []
CB = "pycalendar.componentbase.ComponentBase"
C_ = CB + "."
PB = "pycalendar.property.PropertyBase"
P_ = PB + "."
CAL = "pycalendar.icalendar.calendar.Calendar"
I, B = z3.IntSort(), z3.BoolSort()


def add(*a, **k):
    k.setdefault("props", ("C18",))
    k.setdefault("replay", False)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


# --- names: an integer stands for a text, FOLD for the text in upper case
FOLD = z3.Function("upper", I, I)
LOW = z3.Function("lower", I, I)


class NameV(object):
    def __init__(self, t):
        self.t = t

    def sym_eq(self, E, other):
        return self.t == other.t if isinstance(other, NameV) else False


def name(E, t):
    o = E.obj(NAME)
    o.slots["v"] = NameV(t)
    E.fact(z3.And(FOLD(FOLD(t)) == FOLD(t), FOLD(LOW(t)) == FOLD(t), LOW(LOW(t)) == LOW(t), LOW(FOLD(t)) == LOW(t)))
    return o


def n_t(o):
    return o.slots["v"].t


NAME = ghost("name", upper=lambda E, o: name(E, FOLD(n_t(o))), lower=lambda E, o: name(E, LOW(n_t(o))))


# --- things kept in lists under their name: equal when their integers are
class ThingV(object):
    def __init__(self, t):
        self.t = t

    def sym_eq(self, E, other):
        return self.t == other.t if isinstance(other, ThingV) else False


NAMEOF = z3.Function("name_of", I, I)
THING = ghost("thing", getName=lambda E, o: name(E, NAMEOF(o.slots["v"].t)))


def thing(E, t):
    o = E.obj(THING)
    o.slots.update(v=ThingV(t), ref=t)
    return o


class Things(Vals):
    def sym_remove(self, E, o, x):
        t = x.slots["v"].t
        u = z3.Unit(t)
        if not E.branch(z3.Contains(self.term, u)):
            E.throw("ValueError", "list.remove(x): x not in list")
        E.setslot(o, "v", things(removed(E, self.term, t)))

    def sym_append(self, E, o, x):
        E.setslot(o, "v", things(z3.Concat(self.term, z3.Unit(self.ref(E, x)))))

    def sym_contains(self, E, o, x):
        return z3.Contains(self.term, z3.Unit(x.slots["v"].t))


def removed(E, term, t):
    i = z3.IndexOf(term, z3.Unit(t), 0)
    return z3.Concat(z3.SubSeq(term, 0, i), z3.SubSeq(term, i + 1, z3.Length(term) - i - 1))


def things(term):
    return Things(term, lambda E, t: thing(E, t), lambda E, x: x.slots["v"].t)


def seq_of(E, v):
    """the things in a content"""
    if isinstance(v, Vals):
        return v.term
    t = z3.Empty(IntSeq)
    for x in v:
        t = z3.Concat(t, z3.Unit(x.slots["v"].t))
    return t


class World(object):
    """an arbitrary map from upper-cased names to non-empty lists of things"""

    def __init__(self, E, s):
        self.seen = []
        self.s = s

    def base(self, E, k):
        for key, o, term in self.seen:
            if E.branch(n_t(key) == n_t(k)):
                return ("hit", o) if o is not None else None
        there = E.branch(E.S.bool("there%d" % len(self.seen)))
        o = term = None
        if there:
            term = z3.Const("list%d" % len(self.seen), IntSeq)
            E.assume(z3.Length(term) > 0)
            o = E.plist(things(term))
        self.seen.append((k, o, term))
        return ("hit", o) if there else None

    def before(self, E, k):
        """what was under k: its list as it was, or None"""
        self.base(E, k)
        for key, o, term in self.seen:
            if key is k or E.entailed(n_t(key) == n_t(k)):
                return o, term
        raise Unsupported("key")


def setup_map(E, s, cls, field):
    s.w = World(E, s)
    s.map = Obj(E.new_oid(), E.builtins["dict"], {"v": SymMap(s.w.base, name=field)})
    s.o = s.obj(cls, **{field: s.map})
    s.field = field
    # an arbitrary key, and one arbitrary other
    s.q = name(E, s.int("q"))
    s.other = name(E, s.int("other"))
    E.assume(n_t(s.other) != FOLD(n_t(s.q)))
    s.key = name(E, FOLD(n_t(s.q)))
    s.prior = s.w.before(E, s.key)
    s.priorother = s.w.before(E, s.other)
    return s.o


def now(E, s, k):
    v = s.o.slots[s.field]
    if v is not s.map:
        return "another map"
    r = v.slots["v"].look(E, k)
    return None if r is None else r[1]


def check_rest(E, s):
    o, term = s.priorother
    x = now(E, s, s.other)
    E.prove("every other name keeps its list", x is o and (o is None or seq_of(E, o.slots["v"]).eq(term) or seq_of(E, o.slots["v"]) == term))


def check_list(E, s, what, expect):
    """under the name there is the list `expect` (a sequence), or nothing"""
    x = now(E, s, s.key)
    if expect is None:
        E.prove(what, x is None)
    else:
        E.prove(what, isinstance(x, Obj) and seq_of(E, x.slots["v"]) == expect)
    check_rest(E, s)


def unchanged(E, s):
    o, term = s.prior
    check_list(E, s, "nothing changes", term)


# ---- adding
def s_addp(cls, field):
    def f(E, s):
        setup_map(E, s, cls, field)
        s.new = thing(E, s.int("new"))
        E.assume(NAMEOF(s.new.slots["v"].t) == n_t(s.q))
        return [s.o, s.new]
    return f


def p_addp(E, s, r, exc):
    o, term = s.prior
    u = z3.Unit(s.new.slots["v"].t)
    check_list(E, s, "added after those of the same name", u if term is None else z3.Concat(term, u))


def p_replace(E, s, r, exc):
    check_list(E, s, "replaces those of the same name", z3.Unit(s.new.slots["v"].t))


def p_removep(E, s, r, exc):
    o, term = s.prior
    t = s.new.slots["v"].t
    if exc is not None:
        E.prove("only for something that is not there", exc.cls.name == "ValueError" and term is not None and z3.Not(z3.Contains(term, z3.Unit(t))))
        return unchanged(E, s)
    if term is None:
        return unchanged(E, s)
    E.prove("it was there", z3.Contains(term, z3.Unit(t)))
    left = removed(E, term, t)
    x = now(E, s, s.key)
    E.prove("the first equal one is removed", z3.Length(left) == 0 if x is None else isinstance(x, Obj) and And(seq_of(E, x.slots["v"]) == left, z3.Length(left) > 0))
    check_rest(E, s)


add(C_ + "addProperty", s_addp(CB, "mProperties"), p_addp)
add(C_ + "removeProperty", s_addp(CB, "mProperties"), p_removep, raises=lambda E, s, x: True)
add(P_ + "addParameter", s_addp(PB, "mParameters"), p_addp)
add(P_ + "replaceParameter", s_addp(PB, "mParameters"), p_replace)


# ---- asking and removing by name
def s_named(cls, field):
    def f(E, s):
        setup_map(E, s, cls, field)
        return [s.o, s.q]
    return f


def p_removeall(E, s, r, exc):
    check_list(E, s, "none of the name is left", None)


def p_has(E, s, r, exc):
    E.prove("there is one of the name", E.truth_term(r) if s.prior[0] is not None else Not(E.truth_term(r)))
    unchanged(E, s)


def p_count(E, s, r, exc):
    E.prove("as many as there are of the name", E.z(r) == (0 if s.prior[1] is None else z3.Length(s.prior[1])))
    unchanged(E, s)


def p_getp(E, s, r, exc):
    E.prove("those of the name, in order", isinstance(r, Obj) and seq_of(E, r.slots["v"]) == (z3.Empty(IntSeq) if s.prior[1] is None else s.prior[1]))
    unchanged(E, s)


def p_first(E, s, r, exc):
    E.prove("the first of the name, or None", r is None if s.prior[1] is None else isinstance(r, Obj) and r.slots["v"].t == s.prior[1][0])
    unchanged(E, s)


add(C_ + "hasProperty", s_named(CB, "mProperties"), p_has)
add(C_ + "countProperty", s_named(CB, "mProperties"), p_count)
add(C_ + "getProperties", s_named(CB, "mProperties"), p_getp)
add(C_ + "findFirstProperty", s_named(CB, "mProperties"), p_first)
add(C_ + "removeProperties", s_named(CB, "mProperties"), p_removeall)
add(P_ + "hasParameter", s_named(PB, "mParameters"), p_has)
add(P_ + "removeParameters", s_named(PB, "mParameters"), p_removeall)


# --- parameters
PM = "pycalendar.parameter.Parameter"


def param(E, s, n):
    return s.obj(PM, mName=name(E, s.int(n + ".name")), mValues=E.plist(Vals(z3.Const(n + ".values", IntSeq))))


def s_pdup(E, s):
    s.p = param(E, s, "p")
    s.vals = s.p.slots["mValues"]
    return [s.p]


def p_pdup(E, s, r, exc):
    E.prove("an equal parameter of its own", r is not s.p and r.cls is s.p.cls and r.slots["mValues"] is not s.vals and And(n_t(r.slots["mName"]) == n_t(s.p.slots["mName"]), r.slots["mValues"].slots["v"].term == s.vals.slots["v"].term))
    E.prove("the parameter is left alone", s.p.slots["mValues"] is s.vals)


def r_plaws(E, s):
    a, b = param(E, s, "a"), param(E, s, "b")
    eq = E.compare("Eq", a, b)
    ne = E.compare("NotEq", a, b)
    h = E.builtins["hash"].fn
    return a, b, eq, ne, h(E, [a], {}), h(E, [b], {})


def p_plaws(E, s, r, exc):
    from .c12 import hval
    a, b, eq, ne, h1, h2 = r
    x = And(FOLD(n_t(a.slots["mName"])) == FOLD(n_t(b.slots["mName"])), a.slots["mValues"].slots["v"].term == b.slots["mValues"].slots["v"].term)
    E.prove("equal when the names are, whatever their case, and the values", Iff(E.truth_term(eq), x))
    E.prove("!= is not ==", Iff(E.truth_term(ne), Not(E.truth_term(eq))))
    E.prove("equal parameters hash alike", Implies(E.truth_term(eq), hval(E, h1, h2)))


add(PM + ".duplicate", s_pdup, p_pdup)
add(PM + ".__eq__", lambda E, s: [], p_plaws, run=r_plaws, name=PM + ".__eq__, __ne__, __hash__")


# --- the calendar's maps: for one arbitrary type T and identifier U, the master is the last component of
# that type and identifier without a recurrence id, the overrides are those with one, in order
TYPE = z3.Function("type_of", I, I)
UID = z3.Function("uid_of", I, I)
HASRID = z3.Function("has_recurrence_id", I, B)
RECUR = z3.Function("can_recur", I, B)
T, U = z3.Const("T", I), z3.Const("U", I)
LASTM = z3.Function("last_master", I, I)       # among the first k; 0 is none
OVERS = z3.Function("overrides", I, IntSeq)
COMPS = z3.Const("components", IntSeq)


def comp(E, t):
    recur = E.branch(RECUR(t))
    o = E.obj(E.find_qual("pycalendar.icalendar.vevent.VEvent" if recur else "pycalendar.icalendar.vtimezone.VTimezone"))
    o.slots.update(v=ThingV(t), ref=t)
    return o


def c_master(E, old, t):
    return z3.If(z3.And(RECUR(t), z3.Not(HASRID(t)), TYPE(t) == T, UID(t) == U), t, old)


def c_overs(E, old, t):
    return z3.If(z3.And(RECUR(t), HASRID(t), UID(t) == U), z3.Concat(old, z3.Unit(t)), old)


def unfold(E, terms, k):
    t = terms[k]
    E.fact(z3.And(LASTM(z3.IntVal(0)) == 0, OVERS(z3.IntVal(0)) == z3.Empty(IntSeq)))
    E.fact(LASTM(k + 1) == c_master(E, LASTM(k), t))
    E.fact(OVERS(k + 1) == c_overs(E, OVERS(k), t))


def m_type(E, o, k):
    r = E.obj(SUB)
    r.slots.update(of=o, here=E.branch(E.z(k) == T))
    return r


def m_set(E, o, k, v):
    if o.slots["here"]:
        if E.branch(E.z(k) == U):
            E.setslot(o.slots["of"], "at", v.slots["v"].t)
    return None


def m_get(E, o, k, d=None):
    """the component under a type and identifier"""
    raise Unsupported("reading the map back")


def m_clear(E, o):
    E.setslot(o, "at", z3.IntVal(0))


def o_get(E, o, k):
    r = E.obj(OVL)
    r.slots.update(of=o, here=E.branch(E.z(k) == U))
    return r


def ol_append(E, o, v):
    if o.slots["here"]:
        m = o.slots["of"]
        E.setslot(m, "at", z3.Concat(m.slots["at"], z3.Unit(v.slots["v"].t)))


SUB = ghost("masters", __setitem__=m_set)
OVL = ghost("overridden", append=ol_append)
MASTERS = ghost("mastermap", __getitem__=m_type, clear=m_clear)
OVERMAP = ghost("overridemap", __getitem__=o_get, clear=lambda E, o: E.setslot(o, "at", z3.Empty(IntSeq)))
CSTUB = {}
for q in ("componentrecur.ComponentRecur", "component.Component", "vevent.VEvent", "vtimezone.VTimezone"):
    q = "func:pycalendar.icalendar." + q
    CSTUB[q + ".getUID"] = lambda E, slots: UID(slots["self"].slots["v"].t)
    CSTUB[q + ".getType"] = lambda E, slots: TYPE(slots["self"].slots["v"].t)


def st_rid(E, slots):
    if not E.branch(HASRID(slots["self"].slots["v"].t)):
        return None
    o = E.obj(E.find_qual("pycalendar.datetime.DateTime"))
    o.slots["key"] = 0
    return o


for q in ("componentrecur.ComponentRecur", "vevent.VEvent"):
    CSTUB["func:pycalendar.icalendar." + q + ".getRecurrenceID"] = st_rid


def maps(E, s, master, overs):
    s.mm, s.om = E.obj(MASTERS), E.obj(OVERMAP)
    s.mm.slots["at"], s.om.slots["at"] = master, overs


def calendar(E, s, comps):
    s.comps = comps
    return s.obj(CAL, mMasterComponentsByTypeAndUID=s.mm, mOverriddenComponentsByUID=s.om, mComponents=comps)


def comps_list(E, term):
    return E.plist(SymSeq("component", term, lambda t: comp(E, t)))


def consistent(E, s, k):
    return And(s.mm.slots["at"] == LASTM(k), s.om.slots["at"] == OVERS(k))


def same_maps(E, s):
    c = s.cal.slots
    return c["mMasterComponentsByTypeAndUID"] is s.mm and c["mOverriddenComponentsByUID"] is s.om


def s_addmaps(E, s):
    maps(E, s, z3.Const("master", I), z3.Const("overs", IntSeq))
    s.cal = calendar(E, s, comps_list(E, COMPS))
    s.new = comp(E, s.int("new", 1))
    return [s.cal, s.new]


def p_addmaps(E, s, r, exc):
    t = s.new.slots["v"].t
    E.prove("the maps are kept", same_maps(E, s))
    E.prove("the master of its type and identifier, if it has no recurrence id", s.mm.slots["at"] == c_master(E, z3.Const("master", I), t))
    E.prove("last of the overrides of its identifier, if it has one", s.om.slots["at"] == c_overs(E, z3.Const("overs", IntSeq), t))


add(CAL + "._addToMaps", s_addmaps, p_addmaps, stubs=CSTUB)


def s_rebuild(E, s):
    maps(E, s, z3.Const("master", I), z3.Const("overs", IntSeq))
    s.cal = calendar(E, s, comps_list(E, COMPS))
    return [s.cal]


def rebuild_inv(E, s, stmt, frame):
    def inv(L):
        if not isinstance(L.seq, SymSeq):
            return None
        unfold(E, COMPS, E.z(L.k))
        return consistent(E, s, E.z(L.k))
    return [("the maps hold the components seen so far", inv)]


def p_rebuild(E, s, r, exc):
    E.prove("the maps are kept", same_maps(E, s))
    E.prove("the components are left alone", s.cal.slots["mComponents"] is s.comps and s.comps.slots["v"].term.eq(COMPS))
    E.prove("the maps hold exactly the components", consistent(E, s, z3.Length(COMPS)))


add(CAL + "._rebuildMaps", s_rebuild, p_rebuild, loops=[rebuild_inv], stubs=CSTUB)


def s_caladd(E, s):
    # maps that hold exactly the components, and one more component
    n = z3.Length(COMPS)
    maps(E, s, LASTM(n), OVERS(n))
    s.cal = calendar(E, s, comps_list(E, COMPS))
    s.new = comp(E, s.int("new", 1))
    t = s.new.slots["v"].t
    E.fact(LASTM(n + 1) == c_master(E, LASTM(n), t))
    E.fact(OVERS(n + 1) == c_overs(E, OVERS(n), t))
    return [s.cal, s.new]


def p_caladd(E, s, r, exc):
    E.prove("the maps are kept", same_maps(E, s))
    v = s.cal.slots["mComponents"].slots["v"]
    E.prove("the component is added at the end", v.term == z3.Concat(COMPS, z3.Unit(s.new.slots["v"].t)))
    E.prove("the maps hold exactly the components", consistent(E, s, z3.Length(COMPS) + 1))


add(CAL + ".addComponent", s_caladd, p_caladd, stubs=CSTUB)


# removing and renaming: the maps are rebuilt from the list after it has changed
def st_rebuild(E, slots):
    s = E.S
    s.rebuilt = (s.changed, slots["self"] is s.cal)


def st_base(kind):
    def f(E, slots):
        s = E.S
        E.prove("call: on this calendar", slots["self"] is s.cal, "pre")
        for k, v in slots.items():
            if k != "self":
                E.prove("call: what was asked for", v is s.arg, "pre")
        s.changed = kind
        if kind == "remove" and E.choose(2, "not there"):
            E.throw("ValueError", "list.remove(x): x not in list")
        return None
    return f


def s_calremove(E, s):
    maps(E, s, z3.Const("master", I), z3.Const("overs", IntSeq))
    s.cal = calendar(E, s, comps_list(E, COMPS))
    s.changed = s.rebuilt = None
    s.arg = comp(E, s.int("gone", 1))
    return [s.cal, s.arg]


def s_calremoveall(E, s):
    s_calremove(E, s)
    s.arg = None if s.choose("all", 2) else "VEVENT"
    return [s.cal, s.arg]


def p_calremove(E, s, r, exc):
    if exc is not None:
        E.prove("only for a component that is not there", exc.cls.name == "ValueError" and s.changed == "remove")
        return
    E.prove("removed, and the maps then rebuilt", s.changed is not None and s.rebuilt == (s.changed, True))
    E.prove("the maps are kept", same_maps(E, s))


REMOVE = {"func:" + C_ + "removeComponent": st_base("remove"), "func:" + C_ + "removeAllComponent": st_base("removeall"), "func:" + CAL + "._rebuildMaps": st_rebuild}
add(CAL + ".removeComponent", s_calremove, p_calremove, stubs=REMOVE, raises=lambda E, s, x: True)
add(CAL + ".removeAllComponent", s_calremoveall, p_calremove, stubs=REMOVE)


def st_setuid(E, slots):
    E.setslot(slots["self"], "uid", E.z(slots["uid"]))


def st_curuid(E, slots):
    o = slots["self"].slots
    return o["uid"] if "uid" in o else UID(o["v"].t)


def s_changeuid(E, s):
    maps(E, s, z3.Const("master", I), z3.Const("overs", IntSeq))

    def mk(E):
        t = E.fresh_int("component")
        return comp(E, t)
    s.al = AbsList("components", mk)
    s.cal = calendar(E, s, E.plist(s.al))
    s.olduid, s.newuid = s.int("oldUID"), s.int("newUID", 1)
    s.changed = s.rebuilt = None
    return [s.cal, s.olduid, s.newuid]


def step_changeuid(E, s, ctx, recs):
    al, x, old = ctx[-1]
    t = x.slots["v"].t
    E.prove("a component has the new identifier exactly if it had the old one, the others keep theirs",
            E.z(x.slots["uid"] if "uid" in x.slots else UID(t)) == z3.If(UID(t) == s.olduid, s.newuid, UID(t)))
    E.prove("the maps are rebuilt after the components have changed", s.rebuilt is None)


def done_changeuid(E, s, ctx, al):
    s.changed = "uid"


def p_changeuid(E, s, r, exc):
    E.prove("changed, and the maps then rebuilt", s.rebuilt == ("uid", True))
    E.prove("the maps are kept", same_maps(E, s))


USTUB = dict(REMOVE)
for q in ("componentrecur.ComponentRecur", "component.Component", "vevent.VEvent", "vtimezone.VTimezone"):
    q = "func:pycalendar.icalendar." + q
    USTUB[q + ".getUID"] = st_curuid
    USTUB[q + ".setUID"] = st_setuid
add(CAL + ".changeUID", s_changeuid, p_changeuid, stubs=USTUB, step=step_changeuid, done=done_changeuid)


# --- the component list of any component
NAMEDT = z3.Function("type_name_of", I, I)
MAPKEY = z3.Function("map_key_of", I, I)
EQUAL = z3.Function("components_equal", I, I, B)


class CompV(ThingV):
    """a component: the integer is which object it is"""

    def sym_is(self, E, other):
        return self.t == other.t if isinstance(other, CompV) else False

    def sym_eq(self, E, other):
        return EQUAL(self.t, other.t) if isinstance(other, CompV) else False


COMP = ghost("component", getType=lambda E, o: name(E, NAMEDT(o.slots["v"].t)), getMapKey=lambda E, o: MAPKEY(o.slots["v"].t))


def gcomp(E, t):
    o = E.obj(COMP)
    o.slots.update(v=CompV(t), ref=t)
    return o


class CompSeq(SymSeq):
    def sym_remove(self, E, o, x):
        # list.remove: the first equal one, or ValueError
        E.S.by_equality = x.slots["v"].t
        if E.choose(2, "no equal one"):
            E.throw("ValueError", "list.remove(x): x not in list")
        j = E.fresh_int("equal")
        E.assume(z3.And(j >= 0, j < z3.Length(self.term), EQUAL(self.term[j], x.slots["v"].t)))
        E.setslot(o, "v", CompSeq(self.kind, z3.Concat(z3.SubSeq(self.term, 0, j), z3.SubSeq(self.term, j + 1, z3.Length(self.term) - j - 1)), self.mk))
        E.S.without = o.slots["v"].term


def s_comps(E, s):
    s.list = E.plist(CompSeq("component", COMPS, lambda t: gcomp(E, t)))
    s.by_equality = None
    s.c = s.obj(CB, mComponents=s.list)
    s.arg = gcomp(E, s.int("component"))
    s.there = s.bool("there")
    s.first = s.int("first", 0)
    E.assume(z3.Implies(s.there, z3.And(s.first < z3.Length(COMPS), COMPS[s.first] == s.arg.slots["v"].t)))
    return [s.c, s.arg]


def first_index(E, s, k):
    """if it is there, s.first is the index of its first occurrence; told for index k"""
    t = s.arg.slots["v"].t
    E.fact(z3.Implies(z3.And(k >= 0, k < z3.Length(COMPS)), z3.If(s.there, z3.And(z3.Implies(k < s.first, COMPS[k] != t), z3.Implies(k == s.first, COMPS[k] == t)), COMPS[k] != t)))


def no_earlier(E, s, stmt, frame):
    def inv(L):
        k = E.z(L.k)
        first_index(E, s, k)
        return z3.Implies(s.there, k <= s.first)
    return [("it is none of those seen so far", inv)]


def p_removecomp(E, s, r, exc):
    t = s.arg.slots["v"].t
    there = s.there
    now = s.c.slots["mComponents"].slots["v"].term
    E.prove("the same list", s.c.slots["mComponents"] is s.list)
    if s.by_equality is None:
        E.prove("the component itself is removed", And(exc is None, there, now == z3.Concat(z3.SubSeq(COMPS, 0, s.first), z3.SubSeq(COMPS, s.first + 1, z3.Length(COMPS) - s.first - 1))))
        return
    E.prove("an equal one only when it is not there itself", And(Not(there), s.by_equality == t))
    E.prove("only that one", now.eq(COMPS) if exc is not None else now == s.without)


def s_addcomp(E, s):
    s_comps(E, s)
    return [s.c, s.arg]


def p_addcomp(E, s, r, exc):
    E.prove("at the end", s.c.slots["mComponents"].slots["v"].term == z3.Concat(COMPS, z3.Unit(s.arg.slots["v"].t)))


add(C_ + "addComponent", s_addcomp, p_addcomp)
add(C_ + "removeComponent", s_comps, p_removecomp, loops=[no_earlier], raises=lambda E, s, x: x.cls.name == "ValueError" and s.by_equality is not None)


# membership of one arbitrary component
class CompDom(object):
    def __init__(self, E, s):
        self.key = s.int("K")

    def make(self, E, k):
        return gcomp(E, k)

    def key_of(self, E, x):
        return x.slots["v"].t


def s_getcomps(E, s):
    from vc.bag import Bag
    s.dom = CompDom(E, s)
    s.has = s.bool("present")
    s.list = E.plist(Bag(s.dom, s.has, ordered=True, unique=True))
    s.c = s.obj(CB, mComponents=s.list)
    s.arg = [None, name(E, s.int("compname"))][s.choose("all", 2)]
    return [s.c, s.arg]


def p_getcomps(E, s, r, exc):
    v = r.slots["v"]
    k = s.dom.key
    want = s.has if s.arg is None else And(s.has, FOLD(NAMEDT(k)) == FOLD(n_t(s.arg)))
    E.prove("exactly the components of the name, whatever its case", Iff(v.has, want))
    E.prove("in order, once each", v.ordered is True and v.unique is True)
    E.prove("the components are left alone", s.c.slots["mComponents"] is s.list and s.list.slots["v"].has is s.has)


add(C_ + "getComponents", s_getcomps, p_getcomps)


def s_count(E, s):
    s.c = s.obj(CB)
    s.arg = name(E, s.int("compname"))
    s.n = s.int("n", 0)
    return [s.c, s.arg]


def st_getcomps(E, slots):
    s = E.S
    E.prove("call: of this component and name", slots["self"] is s.c and slots["compname"] is s.arg, "pre")
    return E.plist(AbsList("components", lambda E: gcomp(E, E.fresh_int("c")), s.n))


COUNTS = {"func:" + C_ + "getComponents": st_getcomps}
add(C_ + "countComponents", s_count, lambda E, s, r, exc: E.prove("as many as there are of the name", E.z(r) == s.n), stubs=COUNTS)
add(C_ + "hasComponent", s_count, lambda E, s, r, exc: E.prove("if there is one of the name", Iff(E.truth_term(r), s.n > 0)), stubs=COUNTS)


def s_bykey(E, s):
    def mk(E):
        return gcomp(E, E.fresh_int("component"))
    s.list = E.plist(AbsList("components", mk))
    s.c = s.obj(CB, mComponents=s.list)
    s.key = s.int("key")
    s.none = False
    s.gone = []
    return [s.c, s.key]


def step_bykey(E, s, ctx, recs):
    E.prove("passed over because its key is another", MAPKEY(ctx[-1][1].slots["v"].t) != s.key)


def done_bykey(E, s, ctx, al):
    s.none = True


def p_bykey(E, s, r, exc):
    if s.none:
        E.prove("none has the key", r is None)
    else:
        E.prove("one that has the key", isinstance(r, Obj) and MAPKEY(r.slots["v"].t) == s.key)


def p_rmkey(E, s, r, exc):
    if s.none:
        E.prove("none has the key, and none is removed", not s.gone)
    else:
        E.prove("one that has the key is removed, and no other", len(s.gone) == 1 and MAPKEY(s.gone[0].slots["v"].t) == s.key)


def st_removed(E, slots):
    E.prove("call: from this component", slots["self"] is E.S.c, "pre")
    E.S.gone.append(slots["component"])


add(C_ + "getComponentByKey", s_bykey, p_bykey, step=step_bykey, done=done_bykey)
add(C_ + "removeComponentByKey", s_bykey, p_rmkey, step=step_bykey, done=done_bykey, stubs={"func:" + C_ + "removeComponent": st_removed})


# removing all of a type: every component is looked at, those of the type are removed
def s_rmall(E, s):
    def mk(E):
        return gcomp(E, E.fresh_int("component"))
    s.list = E.plist(AbsList("components", mk))
    s.c = s.obj(CB, mComponents=s.list)
    s.arg = [None, name(E, s.int("compname"))][s.choose("all", 2)]
    s.every = False
    s.gone = []
    return [s.c, s.arg]


def step_rmall(E, s, ctx, recs):
    x = ctx[-1][1]
    E.prove("removed exactly when it is of the type", Iff(len(s.gone) > 0, FOLD(NAMEDT(x.slots["v"].t)) == FOLD(n_t(s.arg))))
    E.prove("itself, and once", all(g is x for g in s.gone) and len(s.gone) < 2)


def done_rmall(E, s, ctx, al):
    s.every = True


def p_rmall(E, s, r, exc):
    if s.arg is None:
        v = s.c.slots["mComponents"].slots["v"]
        E.prove("no component is left", isinstance(v, list) and not v)
    else:
        E.prove("every component has been looked at", s.every)


add(C_ + "removeAllComponent", s_rmall, p_rmall, step=step_rmall, done=done_rmall, stubs={"func:" + C_ + "removeComponent": st_removed})


# --- copies of components and properties (bounded: at most two of each kind)
VE = "pycalendar.icalendar.vevent.VEvent"
IP = "pycalendar.icalendar.property.Property"
COPIED = "at most two components, two names and two properties of a name"


def copy_of(E, o, **k):
    r = E.obj(o.cls)
    r.slots.update(v=o.slots["v"], copyof=o, **k)
    return r


def leaf(E, s, n):
    """something with a value of its own and a copy that is equal to it"""
    o = E.obj(LEAF)
    o.slots["v"] = ThingV(s.int(n))
    return o


LEAF = ghost("leaf", getType=lambda E, o: "VALARM", duplicate=lambda E, o, **k: copy_of(E, o, **k))


def s_dupcomp(E, s):
    s.n = s.choose("components", 3)
    s.cs = [leaf(E, s, "c%d" % i) for i in range(s.n)]
    s.ps = dict((k, [leaf(E, s, "%s%d" % (k, i)) for i in range(s.choose(k, 3))]) for k in ("DTSTART", "X-A"))
    s.ps = dict((k, v) for k, v in s.ps.items() if v)
    s.o = s.obj(VE, mComponents=E.plist(list(s.cs)), mProperties=E.pdict(dict((k, E.plist(list(v))) for k, v in s.ps.items())))
    return [s.o]


def st_newve(E, cls, args, kw):
    r = E.obj(cls)
    r.slots.update(mComponents=E.plist([]), mProperties=E.pdict({}), made=dict(kw))
    return r


def content(o):
    return o.slots["v"]


def p_dupcomp(E, s, r, exc):
    E.prove("a new component of the same class", r is not s.o and r.cls is s.o.cls)
    c = content(r.slots["mComponents"])
    E.prove("copies of the components, in order, with it as their parent",
            len(c) == s.n and all(x is not y and x.slots.get("copyof") is y and x.slots.get("parent") is r for x, y in zip(c, s.cs)))
    d = content(r.slots["mProperties"])
    E.prove("the same property names", sorted(d) == sorted(s.ps))
    E.prove("copies of the properties, in order", all(len(content(d[k])) == len(v) and all(x.slots.get("copyof") is y for x, y in zip(content(d[k]), v)) for k, v in s.ps.items()))
    E.prove("the component is left alone", content(s.o.slots["mComponents"]) == s.cs and all(content(content(s.o.slots["mProperties"])[k]) == v for k, v in s.ps.items())
            and d is not content(s.o.slots["mProperties"]))


add(C_ + "duplicate", s_dupcomp, p_dupcomp, stubs={"new:" + VE: st_newve}, bounded=COPIED)


def prop(E, s, n, same=None):
    ps = {}
    for k in ("TZID", "X-A"):
        c = s.choose(n + k, 3)
        if c:
            ps[k] = [leaf(E, s, "%s.%s%d" % (n, k, i)) for i in range(c)]
    o = s.obj(IP, mName=name(E, s.int(n + ".name")), mValue=leaf(E, s, n + ".value"), mParameters=E.pdict(dict((k, E.plist(list(v))) for k, v in ps.items())))
    return o, ps


def s_dupprop(E, s):
    s.o, s.ps = prop(E, s, "p")
    return [s.o]


def st_newprop(E, cls, args, kw):
    r = E.obj(cls)
    r.slots.update(mName=args[0], mValue=None, mParameters=E.pdict({}))
    return r


def p_dupprop(E, s, r, exc):
    E.prove("a new property of the same name", r is not s.o and r.cls is s.o.cls and r.slots["mName"] is s.o.slots["mName"])
    E.prove("a copy of the value", r.slots["mValue"].slots.get("copyof") is s.o.slots["mValue"])
    d = content(r.slots["mParameters"])
    E.prove("copies of the parameters, in order", sorted(d) == sorted(s.ps) and all(len(content(d[k])) == len(v) and all(x.slots.get("copyof") is y for x, y in zip(content(d[k]), v)) for k, v in s.ps.items()))
    E.prove("the property is left alone", all(content(content(s.o.slots["mParameters"])[k]) == v for k, v in s.ps.items()))


add(IP + ".duplicate", s_dupprop, p_dupprop, stubs={"new:" + IP: st_newprop}, bounded="at most two parameter names and two parameters of a name")


def r_proplaws(E, s):
    s.a, s.pa = prop(E, s, "a")
    s.b, s.pb = prop(E, s, "b")
    eq = E.compare("Eq", s.a, s.b)
    ne = E.compare("NotEq", s.a, s.b)
    h = E.builtins["hash"].fn
    return eq, ne, h(E, [s.a], {}), h(E, [s.b], {})


def p_proplaws(E, s, r, exc):
    from .c12 import hval
    eq, ne, h1, h2 = r
    x = And(n_t(s.a.slots["mName"]) == n_t(s.b.slots["mName"]), s.a.slots["mValue"].slots["v"].t == s.b.slots["mValue"].slots["v"].t,
            sorted(s.pa) == sorted(s.pb) and all(len(s.pa[k]) == len(s.pb[k]) for k in s.pa),
            *[p.slots["v"].t == q.slots["v"].t for k in s.pa if k in s.pb for p, q in zip(s.pa[k], s.pb[k])])
    E.prove("equal when the names, the values and the parameters are", Iff(E.truth_term(eq), x))
    E.prove("!= is not ==", Iff(E.truth_term(ne), Not(E.truth_term(eq))))
    E.prove("equal properties hash alike", Implies(E.truth_term(eq), hval(E, h1, h2)))


add(IP + ".__eq__", lambda E, s: [], p_proplaws, run=r_proplaws, name=IP + ".__eq__, __ne__, __hash__", bounded="at most two parameter names and two parameters of a name")
