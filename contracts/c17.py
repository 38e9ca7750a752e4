"""C17: periods; and the ordering of periods for C04."""
import z3
from vc.values import *
from vc.verify import Contract
from .spec import *
from .c01 import D, dt, fld, FIELDS, local, inst, cache_ok, frame_dt, CACHES, TZSTUB, tzoff
from .c03 import DU, DF, dur, total, canon, localf_, floating, C, unchanged, havoc_moved, is_valid, diff, same_zone
from .c04 import isdate, keys, connect, p_ops, hash_eq

P = "pycalendar.period.Period."
CONTRACTS = []


def add(*a, **k):
    k.setdefault("stubs", TZSTUB)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


PK = (("float", "float"), ("utc", "utc"), ("fixed", "fixed"), ("utc", "fixed"))


def civil(n):
    """concrete date of a day number (only used to build sample values)"""
    y = 1970 + n // 366 - 3
    while dn_formula(y + 1) <= n:
        y += 1
    while dn_formula(y) > n:
        y -= 1
    d = n - dn_formula(y)
    m = 1
    while d >= mlen(None, m, y):
        d -= mlen(None, m, y)
        m += 1
    return y, m, d + 1


def moved(E, s, o, want):
    """the date-time `want` seconds after o, as __add__ yields it"""
    if s.forced is None:
        return havoc_moved(E, o, want)
    t = local(E, o) + want
    n, tod = t // 86400, t % 86400
    y, m, d = civil(n)
    if o.slots["mDateOnly"]:
        tod = 0
    r = E.obj(o.cls)
    r.slots.update(o.slots)
    r.slots.update(mYear=y, mMonth=m, mDay=d, mHours=tod // 3600, mMinutes=tod // 60 % 60, mSeconds=tod % 60, mTZOffset=None, mPosixTimeCached=False)
    return r


def mkdur(E, s, name, want):
    """the Duration object of `want` seconds"""
    if s.forced is None:
        r = E.obj(E.find_qual("pycalendar.duration.Duration"))
        for k in DF:
            r.slots[k] = E.fresh_int(k)
        r.slots["mForward"] = E.fresh_bool("fwd")
        E.assume(canon(r))
        E.assume(total(E, r) == want)
        return r
    a = abs(want)
    v = (a // 604800, 0, 0, 0, 0) if a % 604800 == 0 else (0, a // 86400, a // 3600 % 24, a // 60 % 60, a % 60)
    return s.obj("pycalendar.duration.Duration", mForward=want >= 0, **dict(zip(DF, v)))


def per(E, s, name="self", kinds=PK, modes=4, k=None):
    if k is None:
        k = kinds[s.choose(name + ".kinds", len(kinds))]
    start = dt(E, s, name + ".start", kinds=(k[0],), cache=False)
    m = s.choose(name + ".mode", modes)
    end = du = None
    if m == 0 or m == 3:
        end = dt(E, s, name + ".end", kinds=(k[1],), cache=False)
        s.assume(Iff(isdate(E, start), isdate(E, end)))
    else:
        du = dur(E, s, name + ".duration", canonical=True)
    if k[0] != "float":
        s.assume(Not(isdate(E, start)))
    if m == 2:
        end = moved(E, s, start, total(E, du))
    if m == 3:
        du = mkdur(E, s, name + ".d", diff(E, end, start, localf_))
    o = s.obj("pycalendar.period.Period", mStart=start, mEnd=end, mDuration=du, mUseDuration=m in (1, 2))
    s.__dict__.setdefault("perkind", {})[name] = k
    return o


def K(E, o):
    """key of a date-time: days for dates, local seconds minus offset otherwise"""
    f = fld(o)
    return If(isdate(E, o), dayf(E, *f[:3]), localf_(E, o) - tzoff(o))


def endkey(E, p):
    """key of the end: from the end if given, else start plus duration"""
    if p.slots["mEnd"] is not None:
        return K(E, p.slots["mEnd"])
    st = p.slots["mStart"]
    t = total(E, p.slots["mDuration"])
    return If(isdate(E, st), fdiv(localf_(E, st) + t, 86400), K(E, st) + t)


def parts(E, s, i=0):
    p = s.old[i]
    return K(E, p.slots["mStart"]), endkey(E, p)


def start_kept(E, s, i=0):
    p, old = s.args[i], s.old[i]
    E.prove("frame: the start is unchanged", And(*[a == b for a, b in zip(fld(p.slots["mStart"]), fld(old.slots["mStart"]))] + [same_zone(p.slots["mStart"], old.slots["mStart"])]), "frame")


def p_end(E, s, r, exc):
    st, en = parts(E, s)
    E.prove("end = given end, or start plus duration", K(E, r) == en)
    E.prove("end is valid", is_valid(E, r))
    start_kept(E, s)
    E.prove("the form is unchanged", s.args[0].slots["mUseDuration"] is s.old[0].slots["mUseDuration"], "frame")


add(P + "getEnd", lambda E, s: [per(E, s)], p_end, props=("C17",))


def p_getdur(E, s, r, exc):
    st, en = parts(E, s)
    p = s.old[0]
    if p.slots["mDuration"] is not None:
        E.prove("duration as given", total(E, r) == total(E, p.slots["mDuration"]))
    else:
        E.prove("duration = end minus start", total(E, r) == If(isdate(E, p.slots["mStart"]), (en - st) * 86400, en - st))
    start_kept(E, s)


add(P + "getDuration", lambda E, s: [per(E, s)], p_getdur, props=("C17",))


def s_from_end(E, s):
    p = per(E, s, "p", modes=1)
    return [p.slots["mStart"], p.slots["mEnd"]]


def p_coherent(E, s, r, exc):
    st, en, du = r
    E.prove("end = start + duration", K(E, en) == If(isdate(E, st), K(E, st) + fdiv(total(E, du), 86400), K(E, st) + total(E, du)))
    E.prove("start as given", K(E, st) == K(E, s.old[0]))


def p_from_end(E, s, r, exc):
    p_coherent(E, s, r, exc)
    E.prove("end as given", K(E, r[1]) == K(E, s.old[1]))


def p_from_dur(E, s, r, exc):
    p_coherent(E, s, r, exc)
    E.prove("duration as given", total(E, r[2]) == total(E, s.old[1]))


add(C + "period_from_end", s_from_end, p_from_end, props=("C17",))
add(C + "period_from_duration", lambda E, s: [dt(E, s, "start", cache=False), dur(E, s)], p_from_dur, props=("C17",))


def s_pd(E, s):
    k = PK[s.choose("k", 4)]
    p = per(E, s, "p", k=k)
    d = dt(E, s, "dt", kinds=(("float",) if k[0] == "float" else ("utc", "fixed")), cache=False)
    s.assume(Iff(isdate(E, d), isdate(E, p.slots["mStart"])))
    return [p, d]


def p_classify(E, s, r, exc):
    st, en = parts(E, s)
    d = K(E, s.old[1])
    b, w, a = [E.truth_term(x) for x in r]
    E.prove("before exactly when earlier than the start", Iff(b, d < st))
    E.prove("within exactly when at or after the start and before the end", Iff(w, And(d >= st, d < en)))
    E.prove("after exactly when at or after the end", Iff(a, d >= en))
    one = Or(And(b, Not(w), Not(a)), And(Not(b), w, Not(a)), And(Not(b), Not(w), a))
    E.prove("exactly one of the three for a non-empty period", Implies(st < en, one))


add(C + "classify", s_pd, p_classify, props=("C17",), timeout=150)


def s_pp(E, s):
    # kinds are either all floating (or dates) or all with an offset
    if s.choose("zoned", 2):
        p, q = per(E, s, "p", kinds=PK[2:], modes=2), per(E, s, "q", kinds=PK[1:3], modes=2)
    else:
        p, q = per(E, s, "p", k=PK[0], modes=2), per(E, s, "q", k=PK[0], modes=2)
        s.assume(Iff(isdate(E, p.slots["mStart"]), isdate(E, q.slots["mStart"])))
    return [p, q]


def p_overlap(E, s, r, exc):
    s1, e1 = parts(E, s, 0)
    s2, e2 = parts(E, s, 1)
    x, y = [E.truth_term(v) for v in r]
    share = And(If(s1 < s2, s2, s1) < If(e1 < e2, e1, e2))
    ne = And(s1 < e1, s2 < e2)
    E.prove("symmetric", Iff(x, y))
    E.prove("exactly when a common instant exists", Implies(ne, Iff(x, share)))


add(C + "overlap_both", s_pp, p_overlap, props=("C17",), timeout=150)


def p_switch(E, s, r, exc):
    st, en = parts(E, s)
    E.prove("start unchanged", K(E, r[0]) == st)
    E.prove("end unchanged", K(E, r[1]) == en)
    E.prove("the form is as asked", Iff(E.truth_term(r[3]), s.inputs["use"]))


add(C + "switch_form", lambda E, s: [per(E, s), s.bool("use")], p_switch, props=("C17",))


def shared(a, b):
    """mutable objects reachable from both"""
    def reach(o, acc):
        if isinstance(o, Obj) and id(o) not in acc:
            acc[id(o)] = o
            for v in o.slots.values():
                reach(v, acc)
        return acc
    x, y = reach(a, {}), reach(b, {})
    return [o for i, o in x.items() if i in y]


def p_copy(E, s, r, exc):
    st, en = parts(E, s)
    q = r[0]
    E.prove("start of the copy", K(E, r[1]) == st)
    E.prove("end of the copy", K(E, r[2]) == en)
    E.prove("same form", q.slots["mUseDuration"] is s.old[0].slots["mUseDuration"])
    E.prove("nothing mutable is shared", not shared(q, s.args[0]))
    start_kept(E, s)


add(C + "period_copy", lambda E, s: [per(E, s)], p_copy, props=("C17",))


def p_utc(E, s, r, exc):
    st, en = parts(E, s)
    E.prove("start instant unchanged", K(E, r[0]) == st)
    E.prove("end instant unchanged", K(E, r[1]) == en)


add(C + "period_to_utc", lambda E, s: [per(E, s)], p_utc, props=("C17",))


# --- C04: periods are ordered by start, then end
def p_perops(E, s, r, exc):
    s1, e1 = parts(E, s, 0)
    s2, e2 = parts(E, s, 1)
    p_ops(E, s, r, Or(s1 < s2, And(s1 == s2, e1 < e2)), And(s1 == s2, e1 == e2))


add(C + "compare_ops", s_pp, p_perops, props=("C04",), name=C + "compare_ops (periods)", timeout=200)
