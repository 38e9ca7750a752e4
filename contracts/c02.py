"""C02: normalisation and offsets."""
import z3
from vc.values import *
from vc.verify import Contract
from vc.interp import MISSING
from .spec import *
from . import c01
from .c01 import D, U, dt, fld, FIELDS, local, inst, cache_ok, frame_dt, CACHES, TZSTUB, tzoff

CONTRACTS = []


def add(*a, **k):
    k.setdefault("stubs", TZSTUB)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


def carried(E, f, dateonly):
    """(year', month', day, time-of-day seconds, whole local seconds) meant by unnormalised fields:
    months carried into years first, then everything else counted linearly."""
    y, mo, d, h, mi, sc = f
    y2 = y + fdiv(mo - 1, 12)
    m2 = fmod(mo - 1, 12) + 1
    tod = h * 3600 + mi * 60 + sc
    return y2, m2, d, tod


def norm_spec(E, old, dateonly):
    """(day number, second of day) after normalisation"""
    y2, m2, d, tod = carried(E, old, dateonly)
    n = day(E, y2, m2, d) + fdiv(tod, 86400)
    s = If(dateonly, 0, fmod(tod, 86400))
    return n, s


def post_norm(E, s, o, oldf, dateonly, what=""):
    y, mo, d, h, mi, sc = fld(o)
    n, tod = norm_spec(E, oldf, dateonly)
    if isz(mo) or 1 <= mo <= 12:
        E.prove(what + "date fields in range", valid_date(E, y, mo, d))
        E.prove(what + "day number as carried", day(E, y, mo, d) == n)
    else:
        E.prove(what + "date fields in range", False)
    E.prove(what + "time fields in range", valid_time(h, mi, sc))
    E.prove(what + "time of day as carried", h * 3600 + mi * 60 + sc == tod)
    E.prove(what + "caches invalidated", And(Not(E.truth_term(o.slots["mPosixTimeCached"])), o.slots["mTZOffset"] is None), "invariant")


def p_normalise(E, s, r, exc):
    o, old = s.args[0], s.old[0]
    post_norm(E, s, o, fld(old), E.truth_term(old.slots["mDateOnly"]))
    frame_dt(E, s, o, old, FIELDS + CACHES)


def day_loop(E, s, stmt, frame):
    """invariants of the day-carrying loops, phrased on the date-time object itself"""
    o = s.args[0]

    def inv_month(L):
        return And(o.slots["mMonth"] >= 1, o.slots["mMonth"] <= 12)

    def inv_day(L):
        f = fld(o)
        cur = day(E, *f[:3])
        key = ("entryday", L.key)
        if L.phase == "init":
            s.__dict__[key] = cur
        return cur == s.__dict__[key]

    def inv_pos(L):
        return o.slots["mDay"] >= 1

    def inv_le(L):
        return o.slots["mDay"] <= mlen(E, o.slots["mMonth"], o.slots["mYear"])

    def inv_year(L):
        # year direction (helps relate start and end)
        return None
    return [("month in 1..12", inv_month), ("day number unchanged", inv_day), ("day >= 1", inv_pos), ("day <= month length", inv_le)]


def day_variant(E, s, stmt, frame):
    o = s.args[0]
    return [("day decreases", lambda L: o.slots["mDay"]), ("day increases", lambda L: 1 - o.slots["mDay"])]


def s_any(E, s):
    return [dt(E, s, valid=False, cache=False)]


def havoc_norm(E, o, oldf, dateonly):
    """assume the postcondition of normalise on the object"""
    n, tod = norm_spec(E, oldf, dateonly)
    f = dict((k, E.fresh_int(k)) for k in FIELDS)
    E.assume(valid_date(E, f["mYear"], f["mMonth"], f["mDay"]))
    E.assume(valid_time(f["mHours"], f["mMinutes"], f["mSeconds"]))
    E.assume(day(E, f["mYear"], f["mMonth"], f["mDay"]) == n)
    E.assume(f["mHours"] * 3600 + f["mMinutes"] * 60 + f["mSeconds"] == tod)
    for k in FIELDS:
        E.setslot(o, k, f[k])
    E.setslot(o, "mPosixTimeCached", False)
    E.setslot(o, "mTZOffset", None)


def m_normalise(E, s, slots):
    o = slots["self"]
    f = fld(o)
    if all(isinstance(x, int) for x in f) and isinstance(o.slots["mDateOnly"], bool):
        return MISSING
    havoc_norm(E, o, f, E.truth_term(o.slots["mDateOnly"]))
    if getattr(s, "year_facts", False):
        fact_order(E, o.slots["mYear"], z3.simplify(f[0] + fdiv(f[1] - 1, 12)))
    return None


add(D + "normalise", s_any, p_normalise, props=("C02", "C03", "C05", "C06"), modular=m_normalise, loops=[day_loop], variants=[day_variant])


# --- offsets: the field moves by exactly the amount, then carries
def offset(meth, field, argname):
    def setup(E, s):
        return [dt(E, s, valid=True), s.int("diff", small=(-100000, 100000) if field not in ("mYear", "mMonth") else (-50, 50))]

    def post(E, s, r, exc):
        o, old = s.args[0], s.old[0]
        f = fld(old)
        i = FIELDS.index(field)
        f[i] = f[i] + s.inputs["diff"]
        post_norm(E, s, o, f, E.truth_term(old.slots["mDateOnly"]))
        frame_dt(E, s, o, old, FIELDS + CACHES)
        if field in ("mDay", "mHours", "mMinutes", "mSeconds"):
            unit = {"mDay": 86400, "mHours": 3600, "mMinutes": 60, "mSeconds": 1}[field]
            do = E.truth_term(old.slots["mDateOnly"])
            if field == "mDay":
                E.prove("day number moved by exactly the amount, time of day kept",
                        Implies(valid_time(*f[3:]), And(day(E, *fld(o)[:3]) == day(E, *fld(old)[:3]) + s.inputs["diff"], *[o.slots[k] == old.slots[k] for k in FIELDS[3:]])))
            E.prove("instant moved by exactly the amount", Implies(Or(field == "mDay", Not(do)), local(E, o) == local(E, old) + s.inputs["diff"] * unit))
        if field in ("mYear", "mMonth"):
            months = s.inputs["diff"] * (12 if field == "mYear" else 1)
            tot0 = old.slots["mYear"] * 12 + old.slots["mMonth"] - 1 + months
            ty, tm = fdiv(tot0, 12), fmod(tot0, 12) + 1
            fact_order(E, o.slots["mYear"], ty)
            E.prove("month count moved by exactly the amount before day overflow",
                    Implies(old.slots["mDay"] <= mlen(E, tm, ty),
                            And(o.slots["mYear"] * 12 + o.slots["mMonth"] - 1 == tot0, o.slots["mDay"] == old.slots["mDay"])))
    add(D + meth, setup, post, props=("C02", "C05"), modular=m_offday if meth == "offsetDay" else None)


def m_offday(E, s, slots):
    o, n = slots["self"], slots["diff_day"]
    f = fld(o)
    if not getattr(s, "year_facts", False) or not isz(*f) or not is_int(n):
        return MISSING
    E.prove("call: the date is valid", And(valid_date(E, *f[:3]), valid_time(*f[3:])), "pre")
    v = [E.fresh_int(k) for k in FIELDS[:3]]
    E.assume(valid_date(E, *v))
    E.assume(day(E, *v) == day(E, *f[:3]) + n)
    fact_order(E, v[0], f[0])
    for k, x in zip(FIELDS[:3], v):
        E.setslot(o, k, x)
    E.setslot(o, "mPosixTimeCached", False)
    E.setslot(o, "mTZOffset", None)
    return None


for m, f, a in (("offsetYear", "mYear", "diff_year"), ("offsetMonth", "mMonth", "diff_month"), ("offsetDay", "mDay", "diff_day"),
                ("offsetHours", "mHours", "diff_hour"), ("offsetMinutes", "mMinutes", "diff_minutes"), ("offsetSeconds", "mSeconds", "diff_seconds")):
    offset(m, f, a)
