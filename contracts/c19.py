"""C19: validation.  Each cardinality check is verified for an arbitrary name of the declared limits and an
arbitrary number of properties of that name; the class-specific rules for arbitrary numbers of the
properties they mention; base validation for arbitrary checks, properties and sub-components."""
import z3
from vc.values import *
from vc.verify import Contract
from vc.abslist import AbsList, Rec
from .spec import *
from .c20 import ghost

CONTRACTS = []
CB = "pycalendar.componentbase.ComponentBase"
CR = "pycalendar.icalendar.componentrecur.ComponentRecur"
IC = "pycalendar.icalendar."
PR = IC + "property.Property"
NAMES = ("DTSTART", "DTEND", "DUE", "DURATION", "SUMMARY", "STATUS", "UID", "REPEAT", "TRIGGER", "N", "FN", "X-ANY")


def add(*a, **k):
    k.setdefault("props", ("C19",))
    k.setdefault("replay", False)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


# --- the properties of the component: how many there are of each name
def count(E, name):
    s = E.S
    if not isinstance(name, str):
        raise_unsupported("property name %r" % (name,))
    name = name.upper()
    if name not in s.counts:
        s.counts[name] = s.int("count." + name, 0)
        s.before[name] = s.counts[name]
    return s.counts[name]


def raise_unsupported(m):
    from vc.interp import Unsupported
    raise Unsupported(m)


def mine(E, slots):
    E.prove("call: of this component", slots["self"] is E.S.o, "pre")


def st_count(E, slots):
    mine(E, slots)
    return count(E, slots["propname"])


def st_has(E, slots):
    mine(E, slots)
    return count(E, slots["propname"]) > 0


def st_add(E, slots):
    mine(E, slots)
    p = slots["prop"]
    n = p.slots["pname"]
    count(E, n)
    E.S.counts[n] = E.S.counts[n] + 1
    E.S.added = E.S.added + [(n, p.slots["pvalue"])]


def st_rm(E, slots):
    mine(E, slots)
    n = slots["propname"]
    count(E, n)
    E.S.counts[n] = z3.IntVal(0)
    E.S.removed = E.S.removed + [n]


def st_prop(E, cls, args, kw):
    o = E.obj(cls)
    o.slots.update(pname=args[0], pvalue=args[1])
    return o


COUNTS = {"func:" + CB + ".countProperty": st_count, "func:" + CB + ".hasProperty": st_has, "func:" + CB + ".addProperty": st_add,
          "func:" + CB + ".removeProperties": st_rm, "new:" + PR: st_prop, "new:pycalendar.vcard.property.Property": st_prop}


def component(E, s, cls, **k):
    s.counts, s.before, s.added, s.removed = {}, {}, [], []
    s.o = s.obj(cls, **k)
    s.dofix = s.bool("doFix")
    s.fixed, s.unfixed = E.plist([]), E.plist([])
    return s.o


# --- the four limits
def s_check(table, cls=IC + "vevent.VEvent"):
    def f(E, s):
        def mk(E):
            # a name no iteration of this path has met: how many there are is not known
            return NAMES[E.choose(len(NAMES), "name")]
        s.al = AbsList("names", mk)
        component(E, s, cls, **{table: s.al})
        s.done = False
        return [s.o, s.fixed, s.unfixed, s.dofix]
    return f


def one_text(recs, lst, name):
    """what the iteration added to a list: nothing (0) or one text that names the property (1), else 9"""
    items = recs.get(lst.oid, [])
    if not items:
        return 0
    return 1 if len(items) == 1 and items[0][0] == "item" and isinstance(items[0][1], str) and name in items[0][1] else 9


def step_check(broken, fixable=lambda n: False, cure=None):
    def f(E, s, ctx, recs):
        if ctx[-1][0] is not s.al:
            return
        name = ctx[-1][1]
        n = s.before.get(name, 0)
        E.prove("the number of the name is asked for", name in s.before)
        u, x = one_text(recs, s.unfixed, name), one_text(recs, s.fixed, name)
        E.prove("at most one problem, which names the property", u + x < 2 and set(recs) <= set([s.fixed.oid, s.unfixed.oid]))
        E.prove("a problem exactly if the limit is broken", Iff(u + x == 1, broken(n)))
        can = And(s.dofix, fixable(n))
        E.prove("fixed exactly if asked to and it can be", Iff(x == 1, And(can, broken(n))))
        if cure is not None:
            cure(E, s, name, n, x)
        else:
            E.prove("nothing changes", not s.added and not s.removed)
    return f


def done_check(E, s, ctx, al):
    if al is s.al:
        s.done = True


def p_check(E, s, r, exc):
    E.prove("every name is looked at", s.done)
    for l in (s.fixed, s.unfixed):
        v = l.slots["v"]
        E.prove("nothing else is reported", v == [] if isinstance(v, list) else isinstance(v, Rec) and v.parts == [("flat", s.al)])


def cure_empty(E, s, name, n, x):
    E.prove("an empty property is added exactly when that is reported as fixed", (s.added == [(name, "")] if x else not s.added) and not s.removed)
    E.prove("then there is exactly one", Implies(x == 1, s.counts[name] == 1))


for nm, broken in (("1", lambda n: n != 1), ("0_1", lambda n: n > 1), ("1_More", lambda n: n == 0)):
    add(CB + ".check_cardinality_" + nm, s_check("propertyCardinality_" + nm), p_check, stubs=COUNTS, step=step_check(broken), done=done_check)
add(CB + ".check_cardinality_1_Fix_Empty", s_check("propertyCardinality_1_Fix_Empty"), p_check, stubs=COUNTS, done=done_check,
    step=step_check(lambda n: n != 1, lambda n: n == 0, cure_empty))


# --- several STATUS: cancelled wins
CANC = z3.Function("says_cancelled", z3.IntSort(), z3.BoolSort())


class StatusV(object):
    def __init__(self, t):
        self.t = t

    def sym_eq(self, E, other):
        if isinstance(other, str) and other == "CANCELLED":
            return CANC(self.t)
        raise_unsupported("comparison of a status with %r" % (other,))


STATUS = ghost("status", getTextValue=lambda E, o: o, getValue=lambda E, o: o, upper=lambda E, o: o)


def st_getprops(E, slots):
    s = E.S
    mine(E, slots)
    E.prove("call: those of the name looked at", slots["propname"] == s.al.name_now, "pre")

    def mk(E):
        o = E.obj(STATUS)
        o.slots["v"] = StatusV(E.fresh_int("status"))
        s.drawn = o.slots["v"].t
        return o
    s.props = AbsList("properties", mk)
    return E.plist(s.props)


def s_status(E, s):
    a = s_check("propertyCardinality_STATUS_Fix")(E, s)
    mk = s.al.mk

    def named(E):
        s.al.name_now = mk(E)
        return s.al.name_now
    s.al.mk = named
    s.props = s.drawn = None
    s.none = False
    return a


def step_status(E, s, ctx, recs):
    if ctx[-1][0] is s.props:
        E.prove("passed over because it does not say cancelled", Not(CANC(ctx[-1][1].slots["v"].t)))
        E.prove("nothing happens while looking", not recs and not s.added and not s.removed)
        return
    name = ctx[-1][1]
    n = s.before.get(name, 0)
    E.prove("the number of the name is asked for", name in s.before)
    u, x = one_text(recs, s.unfixed, name), one_text(recs, s.fixed, name)
    E.prove("at most one problem, which names the property", u + x < 2 and set(recs) <= set([s.fixed.oid, s.unfixed.oid]))
    E.prove("a problem exactly if there are several", Iff(u + x == 1, n > 1))
    if x:
        E.prove("fixed only if asked to and one says cancelled", And(s.dofix, CANC(s.drawn) if s.drawn is not None else False))
        E.prove("then only a cancelled one is left", And(s.added == [(name, "CANCELLED")], s.removed == [name], s.counts[name] == 1))
    else:
        E.prove("nothing changes", not s.added and not s.removed)
    if u:
        E.prove("left alone only if not asked or none says cancelled", Or(Not(s.dofix), s.none))


def done_status(E, s, ctx, al):
    if al is s.props:
        s.none = True
    elif al is s.al:
        s.done = True


SSTUB = dict(COUNTS)
SSTUB["func:" + CB + ".getProperties"] = st_getprops
add(CR + ".check_cardinality_STATUS_Fix", s_status, p_check, stubs=SSTUB, step=step_status, done=done_status)


# --- base validation: arbitrary checks, then values, then sub-components
def c_call(E, o, fixed, unfixed, dofix):
    s = E.S
    E.prove("a check is given the two lists and whether to fix", fixed is not unfixed and dofix is s.dofix)
    s.lists = (fixed, unfixed)
    LISTS["oids"] = (fixed.oid, unfixed.oid)
    s.ran = s.ran + [o]
    for l, n in ((fixed, 0), (unfixed, 1)):
        l.slots["v"]
        if E.choose(2, "reports"):
            E.call(E.getattr_(l, "append"), ["problem %d" % n], {})
            s.rep = s.rep + [n]


CHECK = ghost("check", __call__=c_call)


def m_valid(E, o, dofix=False):
    s = E.S
    E.prove("a sub-component is validated in the same way", dofix is s.dofix)
    s.ran = s.ran + [o]
    a = AbsList("fixed of a component", lambda E: "problem")
    b = AbsList("unfixed of a component", lambda E: "problem")
    s.pair = (a, b)
    return (E.plist(a), E.plist(b))


SUBCOMP = ghost("subcomponent", validate=m_valid)
OKV = z3.Function("value_is_right", z3.IntSort(), z3.BoolSort())
PROPG = ghost("aproperty", getName=lambda E, o: o.slots["pname"])
VALUECHECK = ghost("valuecheck", __call__=lambda E, o, p: v_call(E, o, p))


def v_call(E, o, p):
    s = E.S
    s.checked = s.checked + [(o.slots["pname"], p)]
    return OKV(p.slots["v"])


LISTS = {}      # the two lists of the validation, as its checks are given them (the same objects on every path)


def s_base(E, s):
    component(E, s, IC + "vevent.VEvent")
    s.ran, s.rep, s.checked, s.pair, s.every = [], [], [], None, []

    def mkcheck(E):
        return E.obj(CHECK)

    def mkcomp(E):
        return E.obj(SUBCOMP)

    def mkprop(n):
        def f(E):
            o = E.obj(PROPG)
            o.slots.update(pname=n, v=E.fresh_int("value"))
            return o
        return f
    s.checks = AbsList("checks", mkcheck)
    s.comps = AbsList("components", mkcomp)
    s.pa, s.pb = AbsList("checked properties", mkprop("DTSTART")), AbsList("unchecked properties", mkprop("X-ANY"))
    vc = E.obj(VALUECHECK)
    vc.slots["pname"] = "DTSTART"
    s.hasv = s.choose("value checks", 2)
    s.o.slots.update(cardinalityChecks=E.plist(s.checks), mComponents=E.plist(s.comps), mProperties=E.pdict({"DTSTART": E.plist(s.pa), "X-ANY": E.plist(s.pb)}),
                     propertyValueChecks=E.pdict({"DTSTART": vc}) if s.hasv else None)
    return [s.o, s.dofix]


def step_base(E, s, ctx, recs):
    al, x = ctx[-1][:2]
    if al is s.checks:
        f, u = s.lists
        E.prove("every check is run, once", len(s.ran) == 1 and s.ran[0] is x)
        E.prove("its problems are kept", all([i[1] for i in recs.get(l.oid, [])] == ["problem %d" % n for m in s.rep if m == n] for n, l in enumerate(s.lists)) and len(recs) == len(s.rep))
    elif al is s.comps:
        E.prove("every sub-component is validated, once", len(s.ran) == 1 and s.ran[0] is x)
        f, u = LISTS["oids"]
        E.prove("its problems are kept, fixed and unfixed apart", set(recs) == set([f, u]) and recs[f] == [("all", s.pair[0])] and recs[u] == [("all", s.pair[1])])
    else:
        checked = al is s.pa
        E.prove("the values of the named properties are checked, and no others", [n for n, p in s.checked] == (["DTSTART"] if checked else []) and all(p is x for n, p in s.checked))
        f, u = LISTS["oids"]
        items = recs.get(u, [])
        E.prove("a wrong value is one unfixed problem, which names the property",
                And(set(recs) <= set([u]), Iff(len(items) == 1, Not(OKV(x.slots["v"])) if checked else False), len(items) < 2, all(isinstance(i[1], str) and "DTSTART" in i[1] for i in items)))


def done_base(E, s, ctx, al):
    s.every = s.every + [al]


def p_base(E, s, r, exc):
    E.prove("all checks, components and checked properties are gone through, once", s.every.count(s.checks) == 1 and s.every.count(s.comps) == 1 and s.every.count(s.pa) == (1 if s.hasv else 0))
    f, u = r
    E.prove("the fixed and the unfixed problems", (f.oid, u.oid) == LISTS.get("oids"))
    for l, want in ((f, [s.checks, s.comps]), (u, [s.checks, s.comps] + ([s.pa] if s.hasv else []))):
        v = l.slots["v"]
        E.prove("no problem is lost or made up", isinstance(v, Rec) and all(p[0] == "flat" for p in v.parts) and sorted(id(p[1]) for p in v.parts if p[1] is not s.pb) == sorted(id(a) for a in want))
    E.prove("nothing else changes", not s.added and not s.removed)


add(CB + ".validate", s_base, p_base, stubs=COUNTS, step=step_base, done=done_base, bounded="properties of two names, one of which has a value check")


# --- rules of particular components, on top of the general validation
PARENT = ghost("parent", hasProperty=lambda E, o, n: E.S.parenthas(E, n))


def st_general(E, slots):
    s = E.S
    mine(E, slots)
    E.prove("call: whether to fix", slots["doFix"] is s.dofix, "pre")
    s.calls = s.calls + 1
    s.atcall = dict(s.counts)
    s.genf, s.genu = AbsList("fixed", lambda E: "problem"), AbsList("unfixed", lambda E: "problem")
    return (E.plist(s.genf), E.plist(s.genu))


def extra(l, al):
    """texts added to the list of problems of the general validation, or None"""
    v = l.slots["v"]
    if v is al:
        return []
    if isinstance(v, Rec) and v.parts and v.parts[0] == ("flat", al) and all(p[0] == "item" and isinstance(p[1], str) for p in v.parts[1:]):
        return [p[1] for p in v.parts[1:]]
    return None


def s_rules(cls, parent=False):
    def f(E, s):
        component(E, s, IC + cls)
        s.calls, s.atcall = 0, None
        s.hasmethod = s.bool("METHOD")
        s.parenthas = lambda E, n: s.hasmethod if n == "METHOD" else raise_unsupported(n)
        s.hasparent = s.choose("parent", 2)
        s.o.slots.update(mParentComponent=E.obj(PARENT) if s.hasparent else None, mComponents=E.plist([]))
        return [s.o, s.dofix]
    return f


def p_rules(exclusive=None, rules=lambda E, s, n: []):
    """exclusive: (a, b, removed); rules: (names, condition) of further unfixable problems, n(name) the number before"""
    def f(E, s, r, exc):
        E.prove("validated in general, once", s.calls == 1)
        fx, ux = extra(r[0], s.genf), extra(r[1], s.genu)
        E.prove("the general problems are kept", fx is not None and ux is not None)
        fx, ux = fx or [], ux or []

        def n(name):
            count(E, name)
            return s.before[name]
        known = []
        if exclusive is not None:
            a, b, gone = exclusive
            both = And(n(a) > 0, n(b) > 0)
            inf, inu = [sum(1 for t in l if a in t and b in t and "both" in t) for l in (fx, ux)]
            known += [t for t in fx + ux if a in t and b in t and "both" in t]
            E.prove("fixed if both are present and fixing is asked for", And(inf < 2, Iff(inf == 1, And(both, s.dofix))))
            E.prove("unfixed if both are present and fixing is not asked for", And(inu < 2, Iff(inu == 1, And(both, Not(s.dofix)))))
            E.prove("then one of the two is removed, and before they are counted",
                    And(s.counts[gone] == z3.If(E.zb(And(both, s.dofix)), 0, n(gone)), s.atcall is not None and s.atcall.get(gone, n(gone)) == s.counts[gone],
                        set(s.removed) <= set([gone]), not s.added))
        else:
            E.prove("nothing changes", not s.added and not s.removed)
        for names, cond in rules(E, s, n):
            mine_ = [t for t in ux if all(x in t for x in names) and t not in known]
            known += mine_
            E.prove("reported exactly when the rule about %s is broken" % " and ".join(names), And(len(mine_) < 2, Iff(len(mine_) == 1, cond)))
        E.prove("nothing else is reported", len(known) == len(fx) + len(ux))
    return f


GENERAL = dict(COUNTS)
GENERAL["func:" + CB + ".validate"] = st_general
GENERALR = dict(COUNTS)
GENERALR["func:" + CR + ".validate"] = st_general
add(IC + "vevent.VEvent.validate", s_rules("vevent.VEvent"), p_rules(("DTEND", "DURATION", "DTEND"), lambda E, s, n: [(("DTSTART",), And(bool(s.hasparent), Not(s.hasmethod), n("DTSTART") == 0))]), stubs=GENERALR)
add(IC + "vtodo.VToDo.validate", s_rules("vtodo.VToDo"),
    p_rules(("DUE", "DURATION", "DURATION"), lambda E, s, n: [(("DTSTART", "DURATION"), And(s.counts.get("DURATION", n("DURATION")) > 0, n("DTSTART") == 0))]), stubs=GENERALR)
add(IC + "available.Available.validate", s_rules("available.Available"), p_rules(("DTEND", "DURATION", "DTEND")), stubs=GENERALR)
add(IC + "vavailability.VAvailability.validate", s_rules("vavailability.VAvailability"), p_rules(("DTEND", "DURATION", "DTEND")), stubs=GENERAL)


# alarms: the limits of the action
def s_alarm(E, s):
    s_rules("valarm.VAlarm")(E, s)
    s.action = s.obj(IC + "valarm.VAlarm", **dict((k, "limits " + k) for k in LIMITS))
    s.o.slots["mActionData"] = s.action
    return [s.o, s.dofix]


LIMITS = ("propertyCardinality_1", "propertyCardinality_1_Fix_Empty", "propertyCardinality_0_1", "propertyCardinality_1_More")


def st_alarmgeneral(E, slots):
    E.prove("the limits of its action are those that count", all(E.S.o.slots.get(k) == "limits " + k for k in LIMITS))
    return st_general(E, slots)


ASTUB = dict(GENERAL)
ASTUB["func:" + CB + ".validate"] = st_alarmgeneral
add(IC + "valarm.VAlarm.validate", s_alarm, p_rules(None, lambda E, s, n: [(("DURATION", "REPEAT"), Not(Iff(n("DURATION") > 0, n("REPEAT") > 0)))]), stubs=ASTUB)


# timezones: at least one STANDARD or DAYLIGHT
def s_tz(E, s):
    s_rules("vtimezone.VTimezone")(E, s)
    s.none = False

    def mk(E):
        o = E.obj(TZPART)
        o.slots["type"] = ("STANDARD", "DAYLIGHT", "X-OTHER")[E.choose(3, "type")]
        s.last = o.slots["type"]
        return o
    s.last = None
    s.parts = AbsList("components", mk)
    s.o.slots["mComponents"] = E.plist(s.parts)
    return [s.o, s.dofix]


TZPART = ghost("tzpart", getType=lambda E, o: o.slots["type"])


def step_tz(E, s, ctx, recs):
    E.prove("passed over because it is neither", ctx[-1][1].slots["type"] == "X-OTHER" and not recs)


def done_tz(E, s, ctx, al):
    s.none = True


def p_tz(E, s, r, exc):
    E.prove("present only if one was seen", s.none or s.last in ("STANDARD", "DAYLIGHT"))
    p_rules(None, lambda E, s, n: [(("STANDARD", "DAYLIGHT"), s.none)])(E, s, r, exc)


add(IC + "vtimezone.VTimezone.validate", s_tz, p_tz, stubs=GENERAL, step=step_tz, done=done_tz)


# the whole calendar or card: problems that are left are raised if asked to
def s_container(E, s):
    component(E, s, IC + "calendar.Calendar")
    s.calls, s.atcall = 0, None
    s.doraise = s.bool("doRaise")
    s.nu = s.choose("unfixed", 3)
    return [s.o, s.dofix, s.doraise]


def st_containergeneral(E, slots):
    s = E.S
    mine(E, slots)
    E.prove("call: whether to fix", slots["doFix"] is s.dofix, "pre")
    s.calls = s.calls + 1
    s.f, s.u = E.plist(AbsList("fixed", lambda E: "problem")), E.plist(["problem %d" % i for i in range(s.nu)])
    return (s.f, s.u)


def p_container(E, s, r, exc):
    E.prove("validated in general, once", s.calls == 1)
    E.prove("raised exactly if asked to and a problem is left", Iff(exc is not None, And(s.doraise, s.nu > 0)))
    if exc is None:
        E.prove("the problems, fixed and left", r == (s.f, s.u) and s.u.slots["v"] == ["problem %d" % i for i in range(s.nu)])


add("pycalendar.containerbase.ContainerBase.validate", s_container, p_container, stubs={"func:" + CB + ".validate": st_containergeneral},
    raises=lambda E, s, x: x.cls.name == "ValidationError", bounded="at most two problems left")


# the end date of a rule is of the kind of the start
def s_until(E, s):
    component(E, s, IC + "vevent.VEvent")
    s.calls, s.atcall = 0, None
    s.nchanged = 0
    s.startdate = s.bool("start is a date")
    s.hasstart = s.bool("has start")
    s.start = E.obj(START)
    s.hasrec = s.choose("recurrences", 2)
    s.drawn = None
    s.acts = []

    def mk(E):
        o = E.obj(RULE)
        s.hasuntil, s.untildate = E.fresh_bool("has_until"), E.fresh_bool("until_is_date")
        o.slots["until"] = E.obj(UNTIL)
        return o
    s.rules = AbsList("rules", mk)
    s.recs = E.obj(RECS)
    s.o.slots.update(mHasStart=s.hasstart, mRecurrences=s.recs if s.hasrec else None, mStart=s.start)
    s.all = False
    return [s.o, s.dofix]


def act(name):
    def f(E, o, *a):
        E.S.acts = E.S.acts + [(name, a)]
    return f


START = ghost("start", isDateOnly=lambda E, o: E.S.startdate, duplicateAsUTC=lambda E, o: E.obj(STARTUTC))
STARTUTC = ghost("startutc", getHours=lambda E, o: "utc h", getMinutes=lambda E, o: "utc m", getSeconds=lambda E, o: "utc s")
UNTIL = ghost("until", isDateOnly=lambda E, o: E.S.untildate, setDateOnly=act("dateonly"), setHHMMSS=act("time"), setTimezone=act("zone"))
RULE = ghost("rule", getUseUntil=lambda E, o: E.S.hasuntil, getUntil=lambda E, o: o.slots["until"])
RECS = ghost("recurrenceset", getRules=lambda E, o: E.plist(E.S.rules), changed=act("changed"))


def step_until(E, s, ctx, recs):
    wrong = And(s.hasuntil, Not(Iff(s.untildate, s.startdate)))
    u = one_text(recs, s.gf, "UNTIL"), one_text(recs, s.gu, "UNTIL")
    E.prove("one problem about UNTIL exactly if its kind is not that of the start", And(sum(u) < 2, Iff(sum(u) == 1, wrong), set(recs) <= set([s.gf.oid, s.gu.oid])))
    E.prove("fixed if asked to", Iff(u[0] == 1, And(wrong, s.dofix)))
    names = [n for n, a in s.acts]
    if u[0]:
        d = [a for n, a in s.acts if n == "dateonly"]
        E.prove("made the kind of the start", len(d) == 1 and Iff(d[0][0], s.startdate))
        t = [a for n, a in s.acts if n == "time"]
        z = [a for n, a in s.acts if n == "zone"]
        E.prove("and a time gets the time of the start, in UTC", And(Iff(len(t) == 1, Not(s.startdate)), len(t) == len(z) < 2, all(a == ("utc h", "utc m", "utc s") for a in t), all(a[0].slots.get("utc") is True for a in z)))
        E.prove("the recurrences are told", "changed" in names)
    else:
        E.prove("nothing changes", not names)


def st_generalu(E, slots):
    r = st_general(E, slots)
    E.S.gf, E.S.gu = r
    return r


def st_newtz(E, cls, args, kw):
    o = E.obj(cls)
    o.slots["utc"] = kw.get("utc", args[0] if args else None)
    return o


def done_until(E, s, ctx, al):
    s.all = True


def p_until(E, s, r, exc):
    E.prove("validated in general, once", s.calls == 1)
    E.prove("every rule is looked at, if there is a start", Iff(s.all, And(s.hasstart, bool(s.hasrec))))
    E.prove("the problems, fixed and left", r == (s.gf, s.gu))
    for l, al in ((s.gf, s.genf), (s.gu, s.genu)):
        v = l.slots["v"]
        E.prove("the general problems are kept, and nothing else is reported", v is al or isinstance(v, Rec) and v.parts in ([("flat", al)], [("flat", al), ("flat", s.rules)]))


USTUB = {"func:" + CB + ".validate": st_generalu, "new:pycalendar.timezone.Timezone": st_newtz}
add(CR + ".validate", s_until, p_until, stubs=USTUB, step=step_until, done=done_until)
