"""C06: selecting a date by weekday, month day, year day or week number.  Each postcondition is the
characterisation of the date a day-by-day walk finds (weekday, and how many such days before/after
it in the period), stated on day numbers."""
import z3
from vc.values import *
from vc.verify import Contract
from vc.interp import MISSING
from .spec import *
from .c01 import D, U, dt, fld, FIELDS, local, inst, cache_ok, frame_dt, CACHES, TZSTUB, tzoff
from .c03 import is_valid, unchanged

CONTRACTS = []


def add(*a, **k):
    k.setdefault("stubs", TZSTUB)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


def rn(E, o):
    return day(E, *fld(o)[:3])


def ml(E, o):
    return mlen(E, o.slots["mMonth"], o.slots["mYear"])


def ylen(E, y):
    return 365 + If(leap(E, y), 1, 0)


def nth(E, R, first, last, n, wd, what=""):
    """R is the n-th (n > 0) or n-th from last (n < 0) day with weekday wd of the days first..last"""
    E.prove(what + "the weekday asked for", fmod(R + 4, 7) == wd)
    E.prove(what + "n-1 such days before it in the period", Implies(n > 0, fdiv(R - first, 7) == n - 1))
    E.prove(what + "n-1 such days after it in the period", Implies(n < 0, fdiv(last - R, 7) == -n - 1))


def timekept(E, s):
    o, old = s.args[0], s.old[0]
    E.prove("time of day kept", And(*[o.slots[k] == old.slots[k] for k in FIELDS[3:]]))
    frame_dt(E, s, o, old, FIELDS + CACHES)


def s_wd(E, s, zero=False):
    a = [dt(E, s), s.int("offset", small=(-53, 53)), s.int("day", 0, 6)]
    if not zero:
        s.assume(Not(a[1] == 0))
    return a


def m_dowm(E, s, slots):
    o, n, wd = slots["self"], slots["offset"], slots["day"]
    f = fld(o)
    if slots["allow_invalid"] is not False or not isz(*f) or not is_int(n):
        return MISSING
    E.prove("call: the date is valid", valid_date(E, *f[:3]), "pre")
    E.prove("call: an ordinal and a weekday", And(Not(n == 0), wd >= 0, wd <= 6), "pre")
    first = day(E, f[0], f[1], 1)
    last = first + mlen(E, f[1], f[0]) - 1
    v = [E.fresh_int(k) for k in FIELDS[:3]]
    E.assume(valid_date(E, *v))
    R = day(E, *v)
    E.assume(fmod(R + 4, 7) == wd)
    E.assume(Implies(n > 0, fdiv(R - first, 7) == n - 1))
    E.assume(Implies(n < 0, fdiv(last - R, 7) == -n - 1))
    for x in (v, f[:3]):
        fact_dayf(E, *x)
    fact_unique(E, v, f[:3])
    in_month(E, v, f[0], f[1])
    for k, x in zip(FIELDS[:3], v):
        E.setslot(o, k, x)
    E.setslot(o, "mPosixTimeCached", False)
    E.setslot(o, "mTZOffset", None)
    return None


def in_month(E, v, y, m):
    """lemma UniqueDate at the date of month m of year y that has v's day number"""
    first = day(E, y, m, 1)
    R = day(E, *v)
    E.fact(z3.Implies(z3.And(valid_date(E, *v), R >= first, R <= first + mlen(E, m, y) - 1), z3.And(v[0] == y, v[1] == m, v[2] == R - first + 1)))


def closed(E, R, first, last, n, wd):
    """closed form, proved first and then used for the characterisation"""
    E.step("closed form, from the start", Implies(n > 0, R == first + fmod(wd - (first + 4), 7) + 7 * (n - 1)))
    E.step("closed form, from the end", Implies(n < 0, R == last - fmod(last + 4 - wd, 7) + 7 * (n + 1)))


def p_dowm(E, s, r, exc):
    o, old = s.args[0], s.old[0]
    n, wd = s.inputs["offset"], s.inputs["day"]
    y, m = old.slots["mYear"], old.slots["mMonth"]
    first = day(E, y, m, 1)
    last = first + mlen(E, m, y) - 1
    s.inst = [y]
    inv = E.truth_term(s.inputs["allow_invalid"])
    d = o.slots["mDay"]
    # without normalising: the month is kept and the day may lie outside it
    E.prove("raw: month kept", Implies(inv, And(o.slots["mYear"] == y, o.slots["mMonth"] == m)))
    E.prove("valid unless asked otherwise", Implies(Not(inv), is_valid(E, o)))
    R = If(inv, first + d - 1, rn(E, o))
    closed(E, R, first, last, n, wd)
    nth(E, R, first, last, n, wd)
    timekept(E, s)


add(D + "setDayOfWeekInMonth", lambda E, s: s_wd(E, s) + [s.bool("allow_invalid")], p_dowm, props=("C06",), modular=m_dowm)


def p_dowy(E, s, r, exc):
    o, old = s.args[0], s.old[0]
    n, wd = s.inputs["offset"], s.inputs["day"]
    y = old.slots["mYear"]
    E.prove("valid", is_valid(E, o))
    closed(E, rn(E, o), dn(E, y), dn(E, y) + ylen(E, y) - 1, n, wd)
    nth(E, rn(E, o), dn(E, y), dn(E, y) + ylen(E, y) - 1, n, wd)
    timekept(E, s)


def m_dowy(E, s, slots):
    o, n, wd = slots["self"], slots["offset"], slots["day"]
    f = fld(o)
    if not isz(*f) or not is_int(n):
        return MISSING
    E.prove("call: the date is valid", And(valid_date(E, *f[:3]), valid_time(*f[3:])), "pre")
    E.prove("call: an ordinal and a weekday", And(Not(n == 0), wd >= 0, wd <= 6), "pre")
    y = f[0]
    first = dn(E, y)
    last = first + ylen(E, y) - 1
    v = [E.fresh_int(k) for k in FIELDS[:3]]
    E.assume(valid_date(E, *v))
    R = day(E, *v)
    E.assume(Implies(n > 0, R == first + fmod(wd - (first + 4), 7) + 7 * (n - 1)))
    E.assume(Implies(n < 0, R == last - fmod(last + 4 - wd, 7) + 7 * (n + 1)))
    in_year(E, v, y)
    for k, x in zip(FIELDS[:3], v):
        E.setslot(o, k, x)
    E.setslot(o, "mPosixTimeCached", False)
    E.setslot(o, "mTZOffset", None)
    return None


def in_year(E, v, y):
    """lemmas: the date lies in its own year (MonthBounds), and years do not overlap (YearOrder)"""
    fact_dayf(E, *v)
    fact_order(E, v[0], y)


add(D + "setDayOfWeekInYear", s_wd, p_dowy, props=("C06",), modular=m_dowy)


def p_next(E, s, r, exc):
    o, old = s.args[0], s.old[0]
    st = day(E, old.slots["mYear"], old.slots["mMonth"], s.inputs["start"])
    E.prove("valid", is_valid(E, o))
    E.prove("the weekday asked for", fmod(rn(E, o) + 4, 7) == s.inputs["day"])
    E.prove("the first one on or after the start day", And(rn(E, o) >= st, rn(E, o) <= st + 6))
    timekept(E, s)


def m_next(E, s, slots):
    o, st, wd = slots["self"], slots["start"], slots["day"]
    f = fld(o)
    if not isz(*f) or not is_int(st):
        return MISSING
    E.prove("call: the date is valid", And(valid_date(E, *f[:3]), valid_time(*f[3:])), "pre")
    E.prove("call: a weekday", And(wd >= 0, wd <= 6), "pre")
    v = [E.fresh_int(k) for k in FIELDS[:3]]
    E.assume(valid_date(E, *v))
    R = day(E, *v)
    E.assume(fmod(R + 4, 7) == wd)
    lo = day(E, f[0], f[1], st)
    E.assume(z3.And(R >= lo, R <= lo + 6))
    in_month(E, v, f[0], f[1])
    for k, x in zip(FIELDS[:3], v):
        E.setslot(o, k, x)
    E.setslot(o, "mPosixTimeCached", False)
    E.setslot(o, "mTZOffset", None)
    return None


add(D + "setNextDayOfWeek", lambda E, s: [dt(E, s), s.int("start", small=(1, 31)), s.int("day", 0, 6)], p_next, props=("C06",), modular=m_next)


def p_isdow(E, s, r, exc):
    o = s.old[0]
    n, wd = s.inputs["offset"], s.inputs["day"]
    d, L = o.slots["mDay"], ml(E, o)
    want = And(fmod(rn(E, o) + 4, 7) == wd, Or(n == 0, And(n > 0, fdiv(d - 1, 7) == n - 1), And(n < 0, fdiv(L - d, 7) == -n - 1)))
    E.prove("true exactly when it is that weekday of the month", Iff(E.truth_term(r), want))
    unchanged(E, s, 0, "self")


add(D + "isDayOfWeekInMonth", lambda E, s: s_wd(E, s, True), p_isdow, props=("C06",), timeout=300)


def p_md(E, s, r, exc):
    o, old = s.args[0], s.old[0]
    n = s.inputs["day"]
    y, m = old.slots["mYear"], old.slots["mMonth"]
    inv = E.truth_term(s.inputs["allow_invalid"])
    want = If(n > 0, n, If(n < 0, mlen(E, m, y) + 1 + n, old.slots["mDay"]))
    E.prove("raw: the day of the month asked for", Implies(inv, And(o.slots["mYear"] == y, o.slots["mMonth"] == m, o.slots["mDay"] == want)))
    E.prove("the day of the month asked for, carried into the neighbouring month", Implies(Not(inv), And(is_valid(E, o), rn(E, o) == day(E, y, m, want))))
    timekept(E, s)


add(D + "setMonthDay", lambda E, s: [dt(E, s), s.int("day", small=(-31, 31)), s.bool("allow_invalid")], p_md, props=("C06",))


def p_ismd(E, s, r, exc):
    o = s.old[0]
    n = s.inputs["day"]
    E.prove("true exactly on that day of the month", Iff(E.truth_term(r), Or(And(n > 0, o.slots["mDay"] == n), And(n < 0, ml(E, o) + 1 + n == o.slots["mDay"]))))
    unchanged(E, s, 0, "self")


add(D + "isMonthDay", lambda E, s: [dt(E, s), s.int("day", small=(-31, 31))], p_ismd, props=("C06",))


def p_yd(E, s, r, exc):
    o, old = s.args[0], s.old[0]
    n = s.inputs["day"]
    y = old.slots["mYear"]
    inv = E.truth_term(s.inputs["allow_invalid"])
    L = ylen(E, y)
    want = dn(E, y) + If(n > 0, n - 1, L + n)
    exists = And(n <= L, n >= -L)
    E.prove("the day of the year asked for", Implies(Or(Not(inv), exists), And(is_valid(E, o), rn(E, o) == want)))
    E.prove("raw: no valid date for a day the year does not have",
            Implies(And(inv, Not(exists)), Not(valid_date(E, *fld(o)[:3]))))
    timekept(E, s)


def m_yd(E, s, slots):
    o, n = slots["self"], slots["day"]
    f = fld(o)
    if slots["allow_invalid"] is not False or not isz(*f) or not is_int(n):
        return MISSING
    E.prove("call: the date is valid", And(valid_date(E, *f[:3]), valid_time(*f[3:])), "pre")
    E.prove("call: the day is not 0", Not(n == 0), "pre")
    v = [E.fresh_int(k) for k in FIELDS[:3]]
    E.assume(valid_date(E, *v))
    E.assume(day(E, *v) == dn(E, f[0]) + If(n > 0, n - 1, ylen(E, f[0]) + n))
    if getattr(s, "year_facts", False):
        fact_order(E, v[0], f[0])
    for k, x in zip(FIELDS[:3], v):
        E.setslot(o, k, x)
    E.setslot(o, "mPosixTimeCached", False)
    E.setslot(o, "mTZOffset", None)
    return None


def s_yd(E, s):
    n = s.int("day", small=(-366, 366))
    s.assume(n != 0)
    return [dt(E, s), n, s.bool("allow_invalid")]


add(D + "setYearDay", s_yd, p_yd, props=("C06",), modular=m_yd)


def isowd(R):
    """1 = Monday .. 7 = Sunday"""
    return fmod(R + 3, 7) + 1


def isoweek(E, y, R):
    """ISO week number of day R, which lies in calendar year y: the week of its Thursday"""
    T = R - isowd(R) + 4
    a, b = dn(E, y), dn(E, y + 1)
    base = If(T < a, dn(E, y - 1), If(T >= b, b, a))
    return fdiv(T - base, 7) + 1


def near(E, y):
    if isz(y):
        dn(E, y, near=2)


def p_gw(E, s, r, exc):
    o = s.old[0]
    y = o.slots["mYear"]
    near(E, y)
    E.prove("ISO week number", r == isoweek(E, y, rn(E, o)))
    unchanged(E, s, 0, "self")


def m_gw(E, s, slots):
    o = slots["self"]
    f = fld(o)
    if not isz(*f):
        return MISSING
    E.prove("call: the date is valid", valid_date(E, *f[:3]), "pre")
    near(E, f[0])
    return isoweek(E, f[0], rn(E, o))


add(D + "getWeekNo", lambda E, s: [dt(E, s)], p_gw, props=("C06",), modular=m_gw)
add(D + "isWeekNo", lambda E, s: [dt(E, s), s.int("weekno", 1, small=(1, 53))],
    lambda E, s, r, exc: (near(E, s.old[0].slots["mYear"]), E.prove("true exactly in that ISO week", Iff(E.truth_term(r), isoweek(E, s.old[0].slots["mYear"], rn(E, s.old[0])) == s.inputs["weekno"]))), props=("C06",))


def p_sw(E, s, r, exc):
    o, old = s.args[0], s.old[0]
    y, n = old.slots["mYear"], s.inputs["weekno"]
    near(E, y)
    R0, R = rn(E, old), rn(E, o)
    E.prove("valid", is_valid(E, o))
    cur = isoweek(E, y, R0) == n
    j1 = dn(E, y)
    E.step("closed form", Implies(Not(cur), R == j1 - isowd(j1) + If(isowd(j1) > 4, 8, 1) + 7 * (n - 1) + isowd(R0) - 1))
    E.prove("unchanged when already in that week", Implies(cur, R == R0))
    E.step("the week starts on a Monday", fmod(j1 - isowd(j1) + 4, 7) == 0)
    E.step("weekday number kept", Implies(Not(cur), isowd(R) == isowd(R0)))
    E.prove("same weekday", isowd(R) == isowd(R0))
    E.prove("in week n of the ISO year numbered like the calendar year",
            Implies(Not(cur), fdiv(R - isowd(R) + 4 - dn(E, y), 7) + 1 == n))
    timekept(E, s)


def s_sw(E, s):
    s.year_facts = True
    return [dt(E, s), s.int("weekno", 1, small=(1, 53))]


def m_sw(E, s, slots):
    o, n = slots["self"], slots["weekno"]
    f = fld(o)
    if not isz(*f) or not is_int(n):
        return MISSING
    E.prove("call: the date is valid", And(valid_date(E, *f[:3]), valid_time(*f[3:])), "pre")
    E.prove("call: a week number", n >= 1, "pre")
    y = f[0]
    near(E, y)
    R0 = rn(E, o)
    cur = isoweek(E, y, R0) == n
    v = [E.fresh_int(k) for k in FIELDS[:3]]
    E.assume(valid_date(E, *v))
    R = day(E, *v)
    near(E, v[0])
    j1 = dn(E, y)
    E.assume(Implies(Not(cur), R == j1 - isowd(j1) + If(isowd(j1) > 4, 8, 1) + 7 * (n - 1) + isowd(R0) - 1))
    E.assume(Implies(cur, And(*[a == b for a, b in zip(v, f[:3])])))
    in_year(E, v, y)
    for z in (y - 1, y + 1):
        in_year(E, v, z3.simplify(z))
    for k, x in zip(FIELDS[:3], v):
        E.setslot(o, k, x)
    E.setslot(o, "mPosixTimeCached", False)
    E.setslot(o, "mTZOffset", None)
    return None


add(D + "setWeekNo", s_sw, p_sw, props=("C06",), timeout=300, qtimeout=20000, modular=m_sw)
