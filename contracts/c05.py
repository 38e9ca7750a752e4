"""C05: the representation invariant of the caches is kept by every method that writes a field, and
every query answers from the fields.  (Invariant: whatever is cached is what would be recomputed.)"""
import z3
from vc.values import *
from vc.verify import Contract
from vc.interp import MISSING
from .spec import *
from .c01 import D, dt, fld, FIELDS, local, inst, cache_ok, frame_dt, CACHES, TZSTUB, tzoff
from .c02 import day_loop, day_variant
from .c03 import localf_, unchanged, is_valid, same_zone
from .c04 import isdate

ALLK = ("float", "utc", "fixed", "named")
CONTRACTS = []


def add(*a, **k):
    k.setdefault("stubs", TZSTUB)
    k.setdefault("trusted", ("a named zone's offset is some function of the local fields (see C16)",))
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


def unfold(mk):
    def f(E, s):
        s.unfold_days = True
        return mk(E, s)
    return f


def inv(E, s, o=None, what=""):
    o = o if o is not None else s.args[0]
    E.prove(what + "cached values are those recomputed from the fields", cache_ok(E, o), "invariant")


def mutator(meth, mkargs, changes=None, effect=None, valid=True, kinds=ALLK, name=None, props=("C05",), **k):
    def setup(E, s):
        o = dt(E, s, valid=valid, vdate="month", kinds=kinds)
        return [o] + mkargs(E, s)

    def post(E, s, r, exc):
        inv(E, s)
        if changes is not None:
            frame_dt(E, s, s.args[0], s.old[0], tuple(changes) + CACHES)
        if effect is not None:
            effect(E, s, r)
    add(D + meth, setup, post, props=props, name=(name or D + meth) + " (cache)", **k)


def one(n, small=(-40, 40)):
    return lambda E, s: [s.int(n, small=small)]


def sets(field, arg):
    def effect(E, s, r):
        E.prove("%s is the value given" % field, s.args[0].slots[field] == s.inputs[arg])
    return effect


for f in FIELDS:
    n = f[1:]
    mutator("set" + n, one("v", (1, 12) if n != "Year" else (1900, 2100)), (f,), sets(f, "v"))
    mutator("offset" + n, one("v"), FIELDS)


def e3(a, b, c):
    def effect(E, s, r):
        for f, n in ((a, "x"), (b, "y"), (c, "z")):
            E.prove("%s is the value given" % f, s.args[0].slots[f] == s.inputs[n])
    return effect


def three(E, s):
    return [s.int("x", small=(1, 30)), s.int("y", small=(1, 12)), s.int("z", small=(1, 28))]


mutator("setYYMMDD", three, FIELDS[:3], e3(*FIELDS[:3]))
mutator("setHHMMSS", three, FIELDS[3:], e3(*FIELDS[3:]))
mutator("setDateOnly", lambda E, s: [s.bool("v")], ("mDateOnly",), lambda E, s, r: E.prove("flag as given", Iff(isdate(E, s.args[0]), s.inputs["v"])))


def zone_ids(E, s):
    k = s.choose("newzone", 3)
    return [None, "X/Zone", s.int("newtz", -86399, 86399)][k] if k == 2 else [None, "X/Zone"][k]


mutator("setTimezoneUTC", lambda E, s: [bool(s.choose("v", 2))], ("mTZUTC",))
mutator("setTimezoneID", lambda E, s: [zone_ids(E, s)], ("mTZUTC", "mTZID"))


def tz(E, s):
    k = s.choose("tzkind", 4)
    if k == 0:
        return [s.obj("pycalendar.timezone.Timezone", mUTC=True, mTimezone=None)]
    v = [None, "X/Zone", None][k - 1] if k < 3 else s.int("newtz", -86399, 86399)
    if k == 1:
        v = None
    if k == 2:
        v = "X/Zone"
    return [s.obj("pycalendar.timezone.Timezone", mUTC=False, mTimezone=v)]


mutator("setTimezone", tz, ("mTZUTC", "mTZID"))


def e_same_instant(E, s, r):
    """converting keeps the instant (UTC, fixed offsets)"""
    o, old = s.args[0], s.old[0]
    if isinstance(o.slots["mTZID"], str) or isinstance(old.slots["mTZID"], str):
        return      # C16: named zones
    if old.slots["mTZUTC"] is not True and old.slots["mTZID"] is None:
        return      # floating times have no instant of their own
    if o.slots["mTZUTC"] is not True and o.slots["mTZID"] is None:
        return
    E.prove("the instant is unchanged", Or(isdate(E, old), inst(E, o) == inst(E, old)))


def e_adjust(E, s, r):
    o, old, z = s.args[0], s.old[0], s.old[1]
    E.prove("the zone is the one asked for", And(o.slots["mTZUTC"] is z.slots["mUTC"] or False, E.truth_term(E.eq(o.slots["mTZID"], z.slots["mTimezone"]))))
    E.prove("returns itself", r is o)
    e_same_instant(E, s, r)


def m_toutc(E, s, slots):
    o = slots["self"]
    if isinstance(o.slots["mTZID"], str) or not isz(*fld(o)):
        return MISSING
    E.prove("call: the date-time is valid", is_valid(E, o), "pre")
    if o.slots["mTZUTC"] is True or o.slots["mTZID"] is None:
        return o
    t = o.slots["mTZID"]
    conv = E.branch(E.truth_term(And(Not(isdate(E, o)), t != 0)))
    if not conv:
        return o
    lf = localf_(E, o)
    f = dict((k, E.fresh_int(k)) for k in FIELDS)
    v = [f[k] for k in FIELDS]
    E.assume(valid_date(E, *v[:3]))
    E.assume(valid_time(*v[3:]))
    E.assume(localf(E, *v) == lf - t)
    if getattr(s, "unfold_days", False):
        fact_dayf(E, *fld(o)[:3])
        fact_dayf(E, *v[:3])
    for k in FIELDS:
        E.setslot(o, k, f[k])
    E.setslot(o, "mTZUTC", True)
    E.setslot(o, "mTZID", None)
    E.setslot(o, "mPosixTimeCached", False)      # the cached value, if any, is the instant (invariant)
    E.setslot(o, "mTZOffset", 0)
    return o


def e_toutc(E, s, r):
    o, old = s.args[0], s.old[0]
    t = old.slots["mTZID"]
    E.prove("returns itself", r is o)
    E.prove("valid fields", is_valid(E, o))
    conv = False
    if old.slots["mTZUTC"] is not True and t is not None:
        conv = And(Not(isdate(E, old)), True if isinstance(t, str) else t != 0)
    E.prove("becomes UTC when it is a time in a zone", Implies(conv, o.slots["mTZUTC"] is True and o.slots["mTZID"] is None))
    E.prove("otherwise nothing changes", Implies(Not(conv), And(same_zone(o, old), *[a == b for a, b in zip(fld(o), fld(old))])))
    E.prove("the instant is unchanged", Implies(conv, local(E, o) == local(E, old) - tzoff(old)))


def s_none(E, s):
    return []


mutator("adjustToUTC", s_none, FIELDS + ("mTZUTC", "mTZID"), e_toutc, modular=m_toutc, props=("C05", "C16", "C17"), timeout=150)
mutator("adjustTimezone", unfold(tz), FIELDS + ("mTZUTC", "mTZID"), e_adjust, props=("C05", "C16"), timeout=200)
mutator("changed", s_none, (), valid=False)
mutator("normalise", s_none, FIELDS, loops=[day_loop], variants=[day_variant])
WD = lambda E, s: [s.int("offset", small=(-53, 53)), s.int("day", 0, 6)]
mutator("setDayOfWeekInYear", WD, FIELDS)
mutator("setDayOfWeekInMonth", lambda E, s: WD(E, s) + [s.bool("allow_invalid")], FIELDS)
mutator("setNextDayOfWeek", lambda E, s: [s.int("start", small=(1, 28)), s.int("day", 0, 6)], FIELDS)
mutator("setYearDay", lambda E, s: [s.int("day", small=(-366, 366)), s.bool("allow_invalid")], FIELDS)
mutator("setMonthDay", lambda E, s: [s.int("day", small=(-31, 31)), s.bool("allow_invalid")], FIELDS)
mutator("setWeekNo", lambda E, s: [s.int("weekno", small=(1, 53))], FIELDS, timeout=200)
mutator("recur", lambda E, s: [1 + s.choose("freq", 7), s.int("interval", 1, small=(1, 50)), s.bool("allow_invalid")], FIELDS, timeout=200)


def query(meth, want, mkargs=s_none):
    def post(E, s, r, exc):
        inv(E, s)
        E.prove("answer = recomputed from the fields", r == want(E, s))
        frame_dt(E, s, s.args[0], s.old[0], CACHES)
    add(D + meth, lambda E, s: [dt(E, s, valid=False, vdate="month", kinds=ALLK)] + mkargs(E, s), post, props=("C05",), name=D + meth + " (all zones)")


def want_off(E, s):
    o = s.old[0]
    rel = s.inputs["relative_to_utc"]
    if isinstance(o.slots["mTZID"], str) and isz(*fld(o)) and o.slots["mTZUTC"] is not True:
        from .c01 import ZOFF
        return ZOFF(*(fld(o) + [rel if isz(rel) else z3.BoolVal(rel)]))
    return tzoff(o)


query("getPosixTime", lambda E, s: inst(E, s.old[0]))
query("timeZoneSecondsOffset", want_off, lambda E, s: [s.bool("relative_to_utc")])


def copies(meth, mkargs=s_none):
    def post(E, s, r, exc):
        inv(E, s, r, "copy: ")
        inv(E, s)
        E.prove("a new object", r is not s.args[0])
        unchanged(E, s, 0, "self")
        if meth == "duplicate":
            E.prove("same fields", And(same_zone(r, s.old[0]), Iff(isdate(E, r), isdate(E, s.old[0])), *[a == b for a, b in zip(fld(r), fld(s.old[0]))]))
    add(D + meth, lambda E, s: [dt(E, s, kinds=ALLK)] + mkargs(E, s), post, props=("C05",), name=D + meth + " (cache)", timeout=200)


copies("duplicate")
copies("duplicateAsUTC")
copies("getAdjustedTime", tz)


# every method that assigns a field of the object is under contract above
def covered(E, s):
    cls = E.find_qual("pycalendar.datetime.DateTime")
    return cls


def p_covered(E, s, r, exc):
    from vc import pyast
    names = set(c.qual.split(".")[-1] for c in CONTRACTS)
    names |= set(("__init__", "parse", "parseDate", "parseTime", "parseFractionalAndUTCOffset", "_copyFrom", "setToday", "setNow", "setNowUTC"))
    left = []
    for n, f in sorted(r.slots.items()):
        if isinstance(f, PyFunc) and n not in names and not n.startswith("_"):
            for x in pyast.walk(f.node):
                if x.t in ("Assign", "AugAssign"):
                    for t in (x.targets if x.t == "Assign" else [x.target]):
                        if t.t == "Attribute" and t.value.t == "Name" and t.value.id == "self":
                            left.append(n)
    # a private helper is executed as part of its callers; a new public one must be added here
    E.prove("every public method that assigns a field is under contract", not left, info=left)


add("pycalendar.datetime.DateTime (coverage)", lambda E, s: [], p_covered, props=("C05",), run=covered, replay=False, bounded="no-definite")
