"""C21: the tz compiler's rule dates, save amounts, zone offsets and time conversions."""
import z3
from vc.values import *
from vc import strings
from vc.verify import Contract
from .spec import *
from .c01 import D, dt, fld, FIELDS, local, frame_dt, CACHES, TZSTUB
from .c03 import is_valid
from .c06 import rn, ml, closed, nth

CONTRACTS = []
R = "zonal.rule.Rule."
Z = "zonal.zone.ZoneRule."
UT = "zonal.utils.DateTime."
C = "vclients."
MONTHS = ("Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec")
DAYS = ("Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat")


def add(*a, **k):
    k.setdefault("stubs", TZSTUB)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


def line_text(E, s, *parts):
    """text made of literal parts, ("n", v): v in decimal, ("2", v): v with two digits"""
    out = []
    for p in parts:
        if isinstance(p, str):
            out += list(p)
        elif p[0] == "n":
            out += list("%d" % p[1]) if isinstance(p[1], int) else strings.numtok(E, p[1])
        else:
            out += list("%02d" % p[1]) if isinstance(p[1], int) else strings.dec_fixed(E, p[1], 2)
    return strings.mk(out)


def amount(E, s, name, maxh=None, forms=3):
    """[-]h[:mm[:ss]] and the seconds it stands for"""
    neg = s.choose(name + ".neg", 2)
    form = s.choose(name + ".form", forms)
    h = s.int(name + ".h", 0, maxh, small=(0, 30))
    m = s.int(name + ".m", 0, 59) if form > 0 else 0
    x = s.int(name + ".s", 0, 59) if form > 1 else 0
    parts = (["-"] if neg else []) + [("n", h)]
    if form > 0:
        parts += [":", ("2", m)]
    if form > 1:
        parts += [":", ("2", x)]
    v = h * 3600 + m * 60 + x
    return line_text(E, s, *parts), -v if neg else v


def a_rule(E, s, **k):
    o = s.obj("zonal.rule.Rule", name="R", fromYear="1970", toYear="max", type="-", inMonth="Jan", onDay="1", atTime="0", saveTime="0", letter="-", dt_cache=None)
    o.slots.update(k)
    return o


def s_save(E, s):
    t, s.want = amount(E, s, "save")
    return [a_rule(E, s, saveTime=t)]


def same_rule(E, s, i=0, but=()):
    o, old = s.args[i], s.old[i]
    E.prove("frame: nothing else of the line changes", all(o.slots.get(k) is old.slots.get(k) or o.slots.get(k) == old.slots.get(k) for k in old.slots if k not in but), "frame")


add(R + "getOffset", s_save, lambda E, s, r, exc: (E.prove("the signed amount written", r == s.want), same_rule(E, s)), props=("C21",))


# --- years
def s_years(E, s):
    y = s.int("from", 0, 9999)
    k = s.choose("to", 3)
    z = s.int("toyear", 0, 9999) if k == 2 else None
    s.want = (y, (y, 9999, z)[k])
    return [a_rule(E, s, fromYear=line_text(E, s, ("n", y)), toYear=("only", "max", None)[k] if k < 2 else line_text(E, s, ("n", z)))]


add(R + "startYear", s_years, lambda E, s, r, exc: E.prove("the first year written", r == s.want[0]), props=("C21",))
add(R + "endYear", s_years, lambda E, s, r, exc: E.prove("the last year: written, only the first, or without end", r == s.want[1]), props=("C21",))


# --- zone offsets
def a_zone(E, s, **k):
    o = s.obj("zonal.zone.ZoneRule", zone=None, gmtoff="0", rule="-", format="X", until=None, _cached_until=None, _cached_utc_offset=None)
    o.slots.update(k)
    return o


def s_gmt(E, s):
    t, s.want = amount(E, s, "gmtoff")
    cached = s.choose("cached", 2)
    return [a_zone(E, s, gmtoff=t, _cached_utc_offset=s.want if cached else None)]


def m_gmt(E, s, slots):
    o = slots["self"]
    w = getattr(s, "gmtoff", None)
    if w is None:
        from vc.interp import MISSING
        return MISSING
    return w


def p_gmt(E, s, r, exc):
    E.prove("the signed offset written", r == s.want)
    c = s.args[0].slots["_cached_utc_offset"]
    E.prove("what is remembered is the offset written", c is None or c == s.want, "invariant")
    same_rule(E, s, but=("_cached_utc_offset",))


add(Z + "getUTCOffset", s_gmt, p_gmt, props=("C21",))


def s_num(E, s):
    if s.choose("none", 2):
        s.want = 0
        return [a_zone(E, s, rule="-")]
    t, s.want = amount(E, s, "rule")
    return [a_zone(E, s, rule=t)]


add(Z + "getNumericOffset", s_num, lambda E, s, r, exc: (E.prove("the signed save amount written", r == s.want), same_rule(E, s)), props=("C21",))


def s_isnum(E, s):
    k = s.choose("kind", 3)
    s.want = k < 2
    if k == 0:
        return [a_zone(E, s, rule="-")]
    if k == 1:
        return [a_zone(E, s, rule=amount(E, s, "rule")[0])]
    return [a_zone(E, s, rule=s_name(E, s))]


def s_name(E, s):
    t = s.text("name", 3, "ABCdefUS")
    if s.forced is None:
        for p in strings.pieces(t):
            E.assume(z3.Or(z3.And(p >= 65, p <= 90), z3.And(p >= 97, p <= 122)))
    else:
        s.assume(all(c.isalpha() and ord(c) < 128 for c in t))
    return t


add(Z + "isNumericOffset", s_isnum, lambda E, s, r, exc: E.prove("true exactly for - and for a written amount", Iff(E.truth_term(r), s.want)), props=("C21",),
    bounded="rule names of three letters")


def s_norule(E, s):
    a = s_num(E, s)
    save = s.want
    t, g = amount(E, s, "gmtoff")
    a[0].slots["gmtoff"] = t
    s.want = g + save, g
    prior = s.obj("zonal.utils.DateTime", dt=dt(E, s, "until", kinds=("float",), cache=False), mode=None)
    return [a[0], E.plist([]), prior, s.int("maxYear", 1900, 2100)]


def p_norule(E, s, r, exc):
    E.prove("the offset from then on, and the standard offset", And(r[0] == s.want[0], r[1] == s.want[1]))
    v = s.args[1].slots["v"]
    E.prove("exactly one transition", len(v) == 1)
    if len(v) == 1:
        E.prove("at the end of the line before, to zone offset plus save", And(v[0][0] is s.args[2], v[0][1] == s.want[0], v[0][2] is s.args[0], v[0][3] is None))


add(Z + "expand_norule", s_norule, p_norule, props=("C21",), replay=False)


# --- transition dates
def s_dfy(times):
    def setup(E, s):
        month = s.choose("month", 12) if not times else s.choose("month", 2)
        form = s.choose("form", 3) if not times else 2
        wd = s.choose("wd", 7) if form < 2 else None
        s.form, s.wd, s.month = form, wd, month + 1
        if form == 0:
            on = "last" + DAYS[wd]
        else:
            n = s.n = s.int("n", 1, 31)
            if form == 2:
                s.assume(n <= 28)
            on = line_text(E, s, *([DAYS[wd], ">=", ("n", n)] if form == 1 else [("n", n)]))
        h = s.h = s.int("h", 0, 23)
        tf = s.choose("time", 3) if times else 1
        m = s.m = s.int("m", 0, 59) if tf else 0
        md = s.choose("mode", 5) if tf == 2 else None
        s.mode = "wsugz"[md] if md is not None else ""
        at = line_text(E, s, *([("n", h)] + ([":", ("2", m)] if tf else []) + ([s.mode] if s.mode else [])))
        y = s.y = s.int("year", small=(1753, 2200))
        return [a_rule(E, s, inMonth=MONTHS[month], onDay=on, atTime=at), y]
    return setup


def p_dfy(E, s, r, exc):
    o, mode = r
    E.prove("the time letter written", mode == s.mode)
    E.prove("valid", is_valid(E, o))
    f = fld(o)
    E.prove("the time of day written", And(f[3] == s.h, f[4] == s.m, f[5] == 0))
    first = day(E, s.y, s.month, 1)
    last = first + mlen(E, s.month, s.y) - 1
    got = rn(E, o)
    if s.form == 2:
        E.prove("the day of the month written", And(f[0] == s.y, f[1] == s.month, f[2] == s.n))
    elif s.form == 0:
        closed(E, got, first, last, -1, s.wd)
        E.prove("the weekday written", fmod(got + 4, 7) == s.wd)
        E.prove("the last one of the month", And(got <= last, got > last - 7))
    else:
        E.prove("the weekday written", fmod(got + 4, 7) == s.wd)
        E.prove("the first one on or after the day written", And(got >= first + s.n - 1, got < first + s.n + 6))
    E.prove("floating, with a time", And(Not(E.truth_term(o.slots["mTZUTC"])), o.slots["mTZID"] is None, Not(E.truth_term(o.slots["mDateOnly"]))))
    same_rule(E, s)


add(R + "datetimeForYear", s_dfy(False), p_dfy, props=("C21",), name=R + "datetimeForYear (dates)")
add(R + "datetimeForYear", s_dfy(True), p_dfy, props=("C21",), name=R + "datetimeForYear (times)")


# --- end of a zone line
def s_until(E, s):
    s.want = [9999, 12, 1, 0, 0, 0, None]
    form = s.choose("form", 6)      # nothing, comment, year, month, day, time
    s.pick = None
    if form < 2:
        return [a_zone(E, s, until=("", "# now")[s.choose("which", 2)] if form else None)]
    y = s.int("y", small=(1753, 2200))
    s.assume(y >= 0)
    s.want = [y, 1, 1, 0, 0, 0, None]
    parts = [("n", y)]
    if form > 2:
        m = s.choose("month", 12)
        s.want[1] = m + 1
        parts += [" ", MONTHS[m]]
    if form > 3:
        k = s.choose("dayform", 5) if form == 4 else 0
        if k == 0:
            n = s.int("day", 1, 28)
            s.want[2] = n
            parts += [" ", ("n", n)]
        else:
            s.pick = (("last", 0), ("last", 6), (1, 0), (8, 0))[k - 1]
            parts += [" ", ("lastSun", "lastSat", "Sun>=1", "Sun>=8")[k - 1]]
    if form > 4:
        h, mi = s.int("h", 0, 23), s.int("mi", 0, 59)
        s.want[3:5] = [h, mi]
        parts += [" ", ("n", h), ":", ("2", mi)]
        t = s.choose("tail", 6)
        if t == 1:
            x = s.int("sec", 0, 59)
            s.want[5] = x
            parts += [":", ("2", x)]
        elif t > 1:
            s.want[6] = "suzg"[t - 2]
            parts += [s.want[6]]
    c = s.choose("comment", 2) if form < 5 else 0
    if c:
        parts += [" # x"]
    return [a_zone(E, s, until=line_text(E, s, *parts))]


def p_until(E, s, r, exc):
    o = r.slots["dt"]
    w = s.want
    f = fld(o)
    E.prove("the time letter written", r.slots["mode"] == w[6])
    E.prove("the year, month and time of day written, with the defaults for what is left out",
            And(f[0] == w[0], f[1] == w[1], f[3] == w[3], f[4] == w[4], f[5] == w[5]))
    if s.pick is None:
        E.prove("the day written", f[2] == w[2])
    else:
        k, wd = s.pick
        first = day(E, w[0], w[1], 1)
        last = first + mlen(E, w[1], w[0]) - 1
        got = rn(E, o)
        lo = last - 6 if k == "last" else first + k - 1
        E.prove("the weekday written", fmod(got + 4, 7) == wd)
        E.prove("the day the line names", And(got >= lo, got <= lo + 6))
    E.prove("floating, with a time", And(Not(E.truth_term(o.slots["mTZUTC"])), o.slots["mTZID"] is None, Not(E.truth_term(o.slots["mDateOnly"]))))
    E.prove("the answer is remembered", s.args[0].slots["_cached_until"] is r)


add(Z + "getUntilDate", s_until, p_until, props=("C21",), replay=True)


def s_until2(E, s):
    c = s.obj("zonal.utils.DateTime", dt=dt(E, s, "until", kinds=("float",), cache=False), mode=None)
    return [a_zone(E, s, until="1970", _cached_until=c)]


add(Z + "getUntilDate", s_until2, lambda E, s, r, exc: E.prove("a remembered end is given again", r is s.args[0].slots["_cached_until"]), props=("C21",),
    name=Z + "getUntilDate (remembered)", replay=False)


# --- wall clock, standard and universal time
MODES = (None, "", "w", "s", "u", "g", "z")


def s_conv(E, s):
    o = s.obj("zonal.utils.DateTime", dt=dt(E, s, "dt", kinds=("float",), cache=False, dateonly=False), mode=MODES[s.choose("mode", 7)])
    return [o, s.int("offset", -172800, 172800, small=(-86400, 86400)), s.int("stdoffset", -172800, 172800, small=(-86400, 86400))]


def shift(E, s, r, by):
    o = s.old[0].slots["dt"]
    E.prove("valid", is_valid(E, r))
    E.prove("moved by exactly the offsets in effect", local(E, r) == local(E, o) + by)
    n = s.args[0].slots["dt"]
    E.prove("frame: the time itself is unchanged", And(r is not n, *[a == b for a, b in zip(fld(n), fld(o))]), "frame")


def p_local(E, s, r, exc):
    m = s.args[0].slots["mode"]
    off, std = s.inputs["offset"], s.inputs["stdoffset"]
    shift(E, s, r, off if m in ("u", "g", "z") else off - std if m == "s" else 0)


def p_utc(E, s, r, exc):
    m = s.args[0].slots["mode"]
    off, std = s.inputs["offset"], s.inputs["stdoffset"]
    shift(E, s, r, 0 if m in ("u", "g", "z") else -std if m == "s" else -off)


add(UT + "getLocaltime", s_conv, p_local, props=("C21",))
add(UT + "getUTC", s_conv, p_utc, props=("C21",))


def p_back(E, s, r, exc):
    o = s.old[0].slots["dt"]
    a, b = r
    for x in r:
        fact_dayf(E, *fld(x)[:3])
    fact_unique(E, fld(a)[:3], fld(b)[:3])
    E.prove("the same instant", local(E, a) == local(E, b))
    E.prove("the same day", rn(E, a) == rn(E, b))
    E.prove("local time of the UTC time = local time", And(*[x == y for x, y in zip(fld(a), fld(b))]))


add(C + "tz_there_and_back", s_conv, p_back, props=("C21",))
