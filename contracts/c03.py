"""C03: durations."""
import z3
from vc.values import *
from vc.verify import Contract
from .spec import *
from .c01 import D, dt, fld, FIELDS, local, inst, cache_ok, frame_dt, CACHES, TZSTUB, tzoff

DU = "pycalendar.duration.Duration."
C = "vclients."
CONTRACTS = []
DF = ("mWeeks", "mDays", "mHours", "mMinutes", "mSeconds")
UNIT = (604800, 86400, 3600, 60, 1)


def add(*a, **k):
    k.setdefault("stubs", TZSTUB)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


def dur(E, s, name="dur", canonical=False):
    f = {}
    for k, sm in zip(DF, ((0, 60), (0, 500), (0, 30), (0, 70), (0, 70))):
        f[k] = s.int(name + "." + k, lo=0 if canonical else None, small=sm if canonical else (-sm[1], sm[1]))
    f["mForward"] = s.bool(name + ".fwd")
    o = s.obj("pycalendar.duration.Duration", **f)
    if canonical:
        s.assume(canon(o))
    return o


def magnitude(o):
    return sum(o.slots[k] * u for k, u in zip(DF, UNIT))


def total(E, o):
    m = magnitude(o)
    return If(E.truth_term(o.slots["mForward"]), m, -m)


def canon(o):
    """canonical components: whole weeks alone, or no weeks and every component below the next unit"""
    w, d, h, mi, sc = [o.slots[k] for k in DF]
    return And(w >= 0, d >= 0, h >= 0, h <= 23, mi >= 0, mi <= 59, sc >= 0, sc <= 59,
               Or(w == 0, And(d == 0, h == 0, mi == 0, sc == 0)))


def p_dur(E, s, o, want):
    E.prove("total = the seconds given", total(E, o) == want)
    E.prove("canonical components", canon(o))
    E.prove("direction", Iff(E.truth_term(o.slots["mForward"]), want >= 0))
    E.prove("a whole number of weeks is stated in weeks only", Implies(fmod(want, 604800) == 0, o.slots["mDays"] == 0))


def p_set(E, s, r, exc):
    p_dur(E, s, s.args[0], s.inputs["seconds"])


add(DU + "setDuration", lambda E, s: [dur(E, s, "self"), s.int("seconds", small=(-3000000, 3000000))], p_set, props=("C03", "C08"))
add(DU + "getTotalSeconds", lambda E, s: [dur(E, s, "self")], lambda E, s, r, exc: E.prove("result = signed total of the components", r == total(E, s.old[0])), props=("C03", "C04", "C17"))
add(C + "make_duration", lambda E, s: [s.int("seconds", small=(-3000000, 3000000))], lambda E, s, r, exc: p_dur(E, s, r, s.inputs["seconds"]), props=("C03",))


def s_parts(E, s):
    return [s.int(n, small=(-70, 70)) for n in ("weeks", "days", "hours", "minutes", "seconds")]


def p_parts(E, s, r, exc):
    p_dur(E, s, r, sum(s.inputs[n] * u for n, u in zip(("weeks", "days", "hours", "minutes", "seconds"), UNIT)))


add(C + "make_duration_parts", s_parts, p_parts, props=("C03",))


def p_dup(E, s, r, exc):
    o = s.args[0]
    E.prove("same components", And(*[r.slots[k] == s.old[0].slots[k] for k in DF]))
    E.prove("same direction", Iff(E.truth_term(r.slots["mForward"]), E.truth_term(s.old[0].slots["mForward"])))
    E.prove("a new object", r is not o)
    E.prove("original unchanged", And(*[o.slots[k] == s.old[0].slots[k] for k in DF]), "frame")


add(DU + "duplicate", lambda E, s: [dur(E, s, "self")], p_dup, props=("C03", "C17"))


# --- date arithmetic
def same_zone(a, b):
    def eq(x, y):
        return x == y if is_int(x) and is_int(y) else x is y or (isinstance(x, str) and x == y)
    return And(eq(a.slots["mTZID"], b.slots["mTZID"]), a.slots["mTZUTC"] is b.slots["mTZUTC"])


def p_moved(E, s, o, old, want, what=""):
    """o is a valid date-time in the zone of old whose local seconds are those of old plus want"""
    do = E.truth_term(old.slots["mDateOnly"])
    f = fld(o)
    E.prove(what + "valid fields", And(valid_date(E, *f[:3]), valid_time(*f[3:])) if isz(f[1]) or 1 <= f[1] <= 12 else False)
    tot = local(E, old) + want
    E.prove(what + "moved by exactly the total", Implies(Not(do), local(E, o) == tot))
    E.prove(what + "date moved by the whole days", Implies(do, And(day(E, *f[:3]) == fdiv(tot, 86400), f[3] * 3600 + f[4] * 60 + f[5] == 0)))
    E.prove(what + "same zone and kind", And(same_zone(o, old), Iff(E.truth_term(o.slots["mDateOnly"]), do)))
    E.prove(what + "caches hold the recomputed values", cache_ok(E, o), "invariant")


def s_dd(E, s):
    return [dt(E, s), dur(E, s)]


def unchanged(E, s, i, what):
    o, old = s.args[i], s.old[i]
    for k in old.slots:
        if k in CACHES:
            continue
        E.prove("frame: %s.%s unchanged" % (what, k), E.truth_term(E.eq(o.slots[k], old.slots[k])), "frame")


def p_add(E, s, r, exc):
    p_moved(E, s, r, s.old[0], total(E, s.old[1]))
    unchanged(E, s, 0, "self")
    unchanged(E, s, 1, "duration")
    E.prove("a new object", r is not s.args[0])


def p_sub(E, s, r, exc):
    p_moved(E, s, r, s.old[0], -total(E, s.old[1]))
    unchanged(E, s, 0, "self")
    unchanged(E, s, 1, "duration")


def havoc_moved(E, o, want):
    """a new date-time as the contract of __add__/__sub__ promises"""
    f = dict((k, E.fresh_int(k)) for k in FIELDS)
    v = [f[k] for k in FIELDS]
    of = fld(o)
    do = E.truth_term(o.slots["mDateOnly"])
    E.assume(valid_date(E, *v[:3]))
    E.assume(valid_time(*v[3:]))
    tot = localf(E, *of) + want
    E.assume(Implies(Not(do), localf(E, *v) == tot))
    E.assume(Implies(do, And(dayf(E, *v[:3]) == fdiv(tot, 86400), And(v[3] == 0, v[4] == 0, v[5] == 0))))
    r = E.obj(o.cls)
    r.slots.update(o.slots)
    r.slots.update(f)
    r.slots["mTZOffset"] = None
    r.slots["mPosixTimeCached"] = False
    return r


def is_valid(E, o):
    f = fld(o)
    return And(valid_date(E, *f[:3]), valid_time(*f[3:]))


def m_add(E, s, slots):
    o, d = slots["self"], slots["duration"]
    E.prove("call: the date-time is valid", is_valid(E, o), "pre")
    return havoc_moved(E, o, total(E, d))


def m_sub(E, s, slots):
    o, d = slots["self"], slots["dateorduration"]
    E.prove("call: the date-time is valid", is_valid(E, o), "pre")
    if d.cls.name == "Duration":
        return havoc_moved(E, o, -total(E, d))
    E.prove("call: the date-time is valid", is_valid(E, d), "pre")
    w = diff(E, o, d, localf_)
    r = E.obj(E.find_qual("pycalendar.duration.Duration"))
    for k in DF:
        r.slots[k] = E.fresh_int(k)
    r.slots["mForward"] = E.fresh_bool("fwd")
    E.assume(canon(r))
    E.assume(total(E, r) == w)
    return r


def localf_(E, o):
    return localf(E, *fld(o))


add(D + "__add__", s_dd, p_add, props=("C03", "C05", "C17"), modular=m_add)
add(D + "__sub__", s_dd, p_sub, props=("C03", "C05", "C17"), name=D + "__sub__ (duration)", modular=m_sub)


def p_same_fields(E, s, r, exc):
    old = s.old[0]
    do = E.truth_term(old.slots["mDateOnly"])
    whole = fmod(total(E, s.old[1]), 86400) == 0
    g = Or(Not(do), whole)
    f, h = fld(r), fld(old)
    fact_unique(E, f[:3], h[:3])
    E.step("same day number again", Implies(g, dayf(E, *f[:3]) == dayf(E, *h[:3])))
    E.prove("original fields restored", Implies(g, And(*[a == b for a, b in zip(f, h)])))


add(C + "add_then_subtract", s_dd, p_same_fields, props=("C03",), timeout=120)
add(C + "subtract_then_add", s_dd, p_same_fields, props=("C03",), timeout=120)


def s_two(E, s):
    a = dt(E, s, "self", kinds=("float", "utc", "fixed"))
    b = dt(E, s, "other", kinds=("float", "utc", "fixed"))
    s.assume(Iff(E.truth_term(a.slots["mDateOnly"]), E.truth_term(b.slots["mDateOnly"])))
    return [a, b]


def diff(E, a, b, loc=None):
    """seconds from b to a; a floating time is read in the other's zone"""
    fa, fb = floating(a), floating(b)
    oa = tzoff(b) if fa is True else (tzoff(a) if fa is False else If(fa, tzoff(b), tzoff(a)))
    ob = tzoff(a) if fb is True else (tzoff(b) if fb is False else If(fb, tzoff(a), tzoff(b)))
    loc = loc or local
    return loc(E, a) - oa - (loc(E, b) - ob)


def floating(o):
    if o.slots["mTZUTC"] is True:
        return False
    return o.slots["mTZID"] is None


def p_diff(E, s, r, exc):
    want = diff(E, s.old[0], s.old[1])
    E.prove("total = difference of the instants", total(E, r) == want)
    E.prove("canonical components", canon(r))
    unchanged(E, s, 0, "self")
    unchanged(E, s, 1, "other")


add(D + "__sub__", s_two, p_diff, props=("C03", "C17"), name=D + "__sub__ (date-time)", timeout=120)


def p_diffadd(E, s, r, exc):
    a, b = s.old
    same = Or(floating(a), floating(b), tzoff(a) == tzoff(b))
    E.prove("b + (a - b) is a's instant", Or(E.truth_term(a.slots["mDateOnly"]),
            localf_(E, r) - localf_(E, b) == diff(E, a, b, localf_)))
    f, h = fld(r), fld(a)
    fact_unique(E, f[:3], h[:3])
    E.step("same day number again", Implies(same, dayf(E, *f[:3]) == dayf(E, *h[:3])))
    E.prove("in the same zone, b + (a - b) has a's fields", Implies(same, And(*[x == y for x, y in zip(f, h)])))


add(C + "difference_then_add", s_two, p_diffadd, props=("C03",), timeout=200)


def p_adddiff(E, s, r, exc):
    do = E.truth_term(s.old[0].slots["mDateOnly"])
    E.prove("(dt + d) - dt = d", Implies(Or(Not(do), fmod(total(E, s.old[1]), 86400) == 0), total(E, r) == total(E, s.old[1])))


add(C + "add_then_difference", s_dd, p_adddiff, props=("C03",), timeout=120)
