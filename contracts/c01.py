"""C01: calendar arithmetic."""
import z3
from vc.values import *
from vc.verify import Contract
from .spec import *

U = "pycalendar.utils."
D = "pycalendar.datetime.DateTime."

CONTRACTS = []

# The zone of a floating time is the default timezone; the environment assumption of these contracts is
# that the default timezone is UTC, as the library sets it at import (assumed, listed as trusted).
ZOFF = z3.Function("zone_offset", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort(), z3.IntSort())


def tzdb_stub(E, slots):
    tzid = slots["tzid"]
    if tzid is None:
        return 0
    o = slots["dt"]
    rel = E.truth_term(slots["relative_to_utc"])
    if not isz(rel, *fld(o)):
        return 0
    return ZOFF(*([E.z(x) for x in fld(o)] + [z3.BoolVal(rel) if isinstance(rel, bool) else rel]))


TZSTUB = {"func:pycalendar.timezonedb.TimezoneDatabase.getTimezoneOffsetSeconds": tzdb_stub}


def add(*a, **k):
    if a[0].startswith(D):
        k.setdefault("stubs", TZSTUB)
        k.setdefault("trusted", ("TimezoneDatabase.getTimezoneOffsetSeconds: 0 for the default (UTC) zone, otherwise some function of the fields (see C16)",))
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


class Memo(object):
    """invariant of a memo table: every stored value equals spec(key)"""
    def __init__(self, spec, kind, name):
        self.spec = spec
        self.kind = kind
        self.name = name

    def find(self, E, o, k):
        if E.spec_depth:
            from vc.interp import SpecFail
            raise SpecFail()
        if E.choose(2, "memo") == 0:
            return ("miss", None)
        return ("hit", self.spec(E, k))

    def store(self, E, o, k, v):
        E.prove("memo-invariant(%s)" % self.name, eqv(v, self.spec(E, k)), "invariant")


def eqv(a, b):
    if is_boolish(a) or is_boolish(b):
        return Iff(a, b)
    if is_int(a) and is_int(b):
        return a == b
    return a is b


LEAPMEMO = Memo(lambda E, y: leap_formula(y), "bool", "cachedLeapYears")
LDMEMO = Memo(lambda E, y: leapcount(y + 1970) - L1970, "int", "cachedLeapDaysSince1970")
MEMOS = {U + "cachedLeapYears": LEAPMEMO, U + "cachedLeapDaysSince1970": LDMEMO}


# --- isLeapYear: exactly the leap rule, and the memo table only ever holds the rule
def s_year(E, s):
    return [s.int("year", small=(-9, 10000))]


def m_leap(E, s, slots):
    y = slots["year"]
    return leap(E, y)


def p_leap(E, s, r, exc):
    E.prove("result = leap rule", Iff(E.truth_term(r), leap_formula(s.inputs["year"])))


add(U + "isLeapYear", s_year, p_leap, props=("C01", "C02", "C06"), modular=m_leap, memos=MEMOS)


# --- leapDaysSince1970
def p_ld(E, s, r, exc):
    y = s.inputs["year_offset"] + 1970
    E.prove("result = number of leap days between 1970 and the year", r == leapcount(y) - L1970)


def m_ld(E, s, slots):
    o = slots["year_offset"]
    if not isz(o):
        return leapcount(o + 1970) - L1970
    return dn(E, z3.simplify(o + 1970)) - 365 * o


add(U + "leapDaysSince1970", lambda E, s: [s.int("year_offset", small=(-1980, 8030))], p_ld, props=("C01", "C02"), modular=m_ld, memos=MEMOS)


# --- month tables
def s_my(E, s):
    return [s.int("month", 1, 12), s.int("year", small=(-9, 10000))]


def needs_month(E, s, slots):
    E.prove("call: month in 1..12", And(slots["month"] >= 1, slots["month"] <= 12), "pre")


def m_dim(E, s, slots):
    needs_month(E, s, slots)
    return mlen(E, slots["month"], slots["year"])


def m_dum(E, s, slots):
    needs_month(E, s, slots)
    return cum(E, slots["month"], slots["year"])


add(U + "daysInMonth", s_my, lambda E, s, r, exc: E.prove("result = month length", r == mlen(E, s.inputs["month"], s.inputs["year"])),
    props=("C01", "C02", "C06"), modular=m_dim)
add(U + "daysUptoMonth", s_my, lambda E, s, r, exc: E.prove("result = days before the month", r == cum(E, s.inputs["month"], s.inputs["year"])),
    props=("C01", "C02", "C06"), modular=m_dum)


# --- lemmas about the specification itself (pure solver obligations)
def lemma(name, prove, props=("C01",), **k):
    def post(E, s, r, exc):
        prove(E, s)
    add("lemma." + name, lambda E, s: [], post, props=props, run=lambda E, s: None, lemma=True, replay=False, name="lemma " + name, **k)


def l_leapcount(E, s):
    y = s.int("y")
    E.prove("L(y+1)-L(y) = [leap y]", leapcount(y + 1) - leapcount(y) == z3.If(leap_formula(y), 1, 0))
    E.prove("dn recurrence", dn_formula(y + 1) == dn_formula(y) + 365 + z3.If(leap_formula(y), 1, 0))
    E.prove("dn(1970)=0", dn_formula(1970) == 0)


def l_order(E, s):
    y, k = s.int("y"), s.int("k", 1)
    # induction on k: base and step
    E.prove("base", dn_formula(y + 1) >= dn_formula(y) + 365 + z3.If(leap_formula(y), 1, 0))
    z = s.int("z")
    E.prove("step", dn_formula(z + 1) >= dn_formula(z) + 365)


def l_months(E, s):
    y, m = s.int("y"), s.int("m", 1, 11)
    E.prove("cum step", cum(E, m + 1, y) == cum(E, m, y) + mlen(E, m, y))
    E.prove("cum january", cum(E, 1, y) == 0)
    E.prove("year length", cum(E, 12, y) + mlen(E, 12, y) == 365 + If(leap(E, y), 1, 0))
    E.prove("month length range", And(mlen(E, m, y) >= 28, mlen(E, m, y) <= 31))


def l_next(E, s):
    y, m, d = s.int("y"), s.int("m", 1, 12), s.int("d", 1, 31)
    E.assume(d <= mlen(E, m, y))
    last = d == mlen(E, m, y)
    y2 = If(And(last, m == 12), y + 1, y)
    m2 = If(last, If(m == 12, 1, m + 1), m)
    d2 = If(last, 1, d + 1)
    E.prove("next valid date has the next day number", z3.If(And(last, m == 12), day(E, y + 1, 1, 1), z3.If(last, day(E, y, m2, 1), day(E, y, m, d + 1))) == day(E, y, m, d) + 1)
    E.prove("next weekday", fmod(day(E, y, m, d) + 1 + 4, 7) == fmod(weekday(E, y, m, d) + 1, 7))
    E.prove("1 January 1970 is day 0, Thursday", And(day(E, 1970, 1, 1) == 0, weekday(E, 1970, 1, 1) == 4))


def l_unique(E, s):
    a = [s.int(n) for n in ("y1", "m1", "d1")]
    b = [s.int(n) for n in ("y2", "m2", "d2")]
    E.assume(valid_date(E, *a))
    E.assume(valid_date(E, *b))
    fact_order(E, a[0], b[0])
    E.prove("equal day numbers only for equal dates", Implies(day(E, *a) == day(E, *b), And(a[0] == b[0], a[1] == b[1], a[2] == b[2])))
    lex = Or(a[0] < b[0], And(a[0] == b[0], Or(a[1] < b[1], And(a[1] == b[1], a[2] < b[2]))))
    E.prove("day numbers order dates lexicographically", Iff(lex, day(E, *a) < day(E, *b)))


lemma("LeapCount", l_leapcount, props=("C01", "C02", "C03", "C04", "C06"))
lemma("DayNumberOrder", l_order, props=("C01", "C02", "C03", "C04", "C06"))
lemma("MonthTable", l_months, props=("C01", "C02"))
lemma("NextDay", l_next, props=("C01",))
lemma("UniqueDate", l_unique, props=("C01", "C03", "C04"))


# --- DateTime
FIELDS = ("mYear", "mMonth", "mDay", "mHours", "mMinutes", "mSeconds")
SMALL = {"mYear": (-4, 4000), "mMonth": (-40, 60), "mDay": (-900, 900), "mHours": (-300, 300), "mMinutes": (-3000, 3000), "mSeconds": (-200000, 200000)}
VSMALL = {"mYear": (1, 3000), "mMonth": (1, 12), "mDay": (1, 31), "mHours": (0, 23), "mMinutes": (0, 59), "mSeconds": (0, 59)}


def dt(E, s, name="self", valid=True, kinds=("float", "utc", "fixed"), dateonly=None, cache=True, vdate=None):
    """a DateTime with symbolic fields.  valid: fields in range; else arbitrary integers."""
    p = "" if name == "self" else name + "."
    sm = VSMALL if valid else SMALL
    f = {}
    for k in FIELDS:
        f[k] = s.int(p + k, small=sm[k])
    if valid:
        s.assume(valid_date(E, f["mYear"], f["mMonth"], f["mDay"]))
        s.assume(valid_time(f["mHours"], f["mMinutes"], f["mSeconds"]))
    elif vdate == "month":
        s.assume(And(f["mMonth"] >= 1, f["mMonth"] <= 12))
    if dateonly is None:
        do = s.bool(p + "mDateOnly")
        if valid:
            s.assume(Implies(do, And(f["mHours"] == 0, f["mMinutes"] == 0, f["mSeconds"] == 0)))
    else:
        do = dateonly
        if do:
            if s.forced is None:
                f["mHours"] = f["mMinutes"] = f["mSeconds"] = 0
    kd = kinds[s.choose(p + "kind", len(kinds))]
    f["mDateOnly"] = do
    f["mTZUTC"] = kd == "utc"
    off = 0
    if kd == "fixed":
        off = s.int(p + "tz", -86399, 86399)
        f["mTZID"] = off
    elif kd == "named":
        f["mTZID"] = "X/Zone"
    else:
        f["mTZID"] = None
    f["mTZOffset"] = None
    f["mPosixTimeCached"] = False
    f["mPosixTime"] = 0
    o = s.obj("pycalendar.datetime.DateTime", **f)
    s.__dict__.setdefault("kinds", {})[name] = kd
    if cache:
        # the cached instant and offset may be filled, with the right values (invariant CacheOK)
        c = s.choose(p + "cache", 3)
        if c >= 1:
            o.slots["mTZOffset"] = tzoff(o)
        if c == 2:
            o.slots["mPosixTimeCached"] = True
            # floating and fixed: the instant
            o.slots["mPosixTime"] = inst(E, o) if valid or vdate == "month" else s.int(p + "mPosixTime")
    return o


def fld(o):
    return [o.slots[k] for k in FIELDS]


def local(E, o):
    """local seconds of the fields (month must be in 1..12)"""
    return secs(E, *fld(o))


def tzoff(o):
    if o.slots["mTZUTC"] is True:
        return 0
    t = o.slots["mTZID"]
    if isinstance(t, str):
        # a named zone: its offset for these local fields
        f = fld(o)
        if not isz(*f):
            return 0        # concrete runs: there is no such zone in the database
        return ZOFF(*([z3.IntVal(x) if isinstance(x, int) else x for x in f] + [z3.BoolVal(False)]))
    return t if is_int(t) else 0


def inst(E, o):
    return local(E, o) - tzoff(o)


def cache_ok(E, o):
    """representation invariant of the caches: filled only with the recomputed values"""
    c = o.slots["mPosixTimeCached"]
    t = o.slots["mTZOffset"]
    a = Implies(E.truth_term(c), o.slots["mPosixTime"] == inst(E, o))
    b = True if t is None else (Or(o.slots["mTZUTC"] is True, t == tzoff(o)))
    return And(a, b)


def fields_eq(a, b, names=FIELDS):
    return And(*[a.slots[k] == b.slots[k] for k in names])


def frame_dt(E, s, o, old, but=()):
    """every slot of the date-time outside `but` is unchanged"""
    for k in old.slots:
        if k in but:
            continue
        E.prove("frame: %s unchanged" % k, E.truth_term(E.eq(o.slots[k], old.slots[k])) if k in o.slots else False, "frame")


CACHES = ("mTZOffset", "mPosixTimeCached", "mPosixTime")


def m_days(E, s, slots):
    o = slots["self"]
    return day(E, o.slots["mYear"], o.slots["mMonth"], o.slots["mDay"])


def p_days(E, s, r, exc):
    o = s.args[0]
    E.prove("result = day number", r == day(E, *fld(o)[:3]))
    frame_dt(E, s, o, s.old[0])


def s_dtm(E, s):
    return [dt(E, s, valid=False, vdate="month")]


add(D + "daysSince1970", s_dtm, p_days, props=("C01", "C02", "C06"), modular=m_days)


def p_dow(E, s, r, exc):
    o = s.args[0]
    E.prove("result = weekday of the day number", r == weekday(E, *fld(o)[:3]))
    frame_dt(E, s, o, s.old[0])


def m_dow(E, s, slots):
    o = slots["self"]
    return weekday(E, *fld(o)[:3])


add(D + "getDayOfWeek", s_dtm, p_dow, props=("C01", "C06"), modular=m_dow)


def p_yd(E, s, r, exc):
    o = s.args[0]
    E.prove("result = position within the year", r == day(E, *fld(o)[:3]) - dn(E, o.slots["mYear"]) + 1)
    frame_dt(E, s, o, s.old[0])


add(D + "getYearDay", s_dtm, p_yd, props=("C01", "C06"), modular=lambda E, s, sl: cum(E, sl["self"].slots["mMonth"], sl["self"].slots["mYear"]) + sl["self"].slots["mDay"])


def p_px(E, s, r, exc):
    o = s.args[0]
    E.prove("result = day number * 86400 + time of day - offset", r == inst(E, s.old[0]))
    E.prove("caches hold the recomputed values", cache_ok(E, o), "invariant")
    frame_dt(E, s, o, s.old[0], CACHES)


add(D + "getPosixTime", s_dtm, p_px, props=("C01", "C05"))


def p_tzo(E, s, r, exc):
    o = s.args[0]
    E.prove("result = the zone's fixed offset", r == tzoff(s.old[0]))
    E.prove("caches hold the recomputed values", cache_ok(E, o), "invariant")
    frame_dt(E, s, o, s.old[0], CACHES)


add(D + "timeZoneSecondsOffset", lambda E, s: [dt(E, s, valid=False, vdate="month"), s.bool("relative_to_utc")], p_tzo, props=("C01", "C05", "C16"))
