"""C08: durations, UTC offsets and periods as text."""
import z3
from vc.values import *
from vc import strings
from vc.verify import Contract
from vc.interp import MISSING
from .spec import *
from .text import Txt, run_invariants
from .c01 import dt, fld, FIELDS, cache_ok, TZSTUB
from .c03 import DU, DF, dur, total, canon, magnitude, C
from .c07 import D, read, dec, value, set_kind, is_text, value_error, zone_read, same_kind

CONTRACTS = []
PE = "pycalendar.period.Period."
UO = "pycalendar.utcoffsetvalue.UTCOffsetValue."


def add(*a, **k):
    k.setdefault("stubs", TZSTUB)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


DSEEDS = ("P1W", "P2D", "PT3H", "PT4M", "PT5S", "P1DT2H3M4S", "-P1DT2H", "+PT15M", "-PT0S", "PT1H2S", "PT", "P1DT", "P1WX", "PT1H5", "P12345D", "P1D2H", "PTH", "PD", "P", "-", "PT5M3H")
DAL = (DSEEDS, "PWDTHMS0123456789+- ")


# --- a run of digits
def m_strtoul(E, s, slots):
    d, i = slots["s"], slots["offset"]
    if isinstance(d, str) or not (isinstance(d, View) or isinstance(d, SStr) and not d.fixed()):
        return MISSING
    t = Txt(E, d)
    E.prove("call: the position is not negative", i >= 0, "pre")
    e = t.dend(i)
    if not E.branch(And(i < t.n, e > i)):
        E.throw("ValueError", "number")
    return (t.value(i, e), e)


def p_strtoul(E, s, r, exc):
    t = Txt(E, s.args[0])
    i = s.inputs["offset"]
    e = t.dend(i)
    E.prove("accepted exactly when there is a digit at the position", Iff(exc is None, And(i < t.n, e > i)))
    if exc is None:
        E.prove("the position after the digits", r[1] == e)
        E.prove("the value of the digits", r[0] == t.value(i, e))


add("pycalendar.stringutils.strtoul", lambda E, s: [s.viewtext("s", 12, (("123", "a12b", "0", "99999x", "-1"), "0123456789ab -+")), s.int("offset", 0, small=(0, 5))], p_strtoul,
    props=("C08", "C12"), modular=m_strtoul, raises=value_error, merge=False, loops=[run_invariants("s")], aux=True)


# --- durations
def read_duration(E, t):
    """(of an accepted form, forward, weeks, days, hours, minutes, seconds)"""
    sign = Or(t.isc(0, "-"), t.isc(0, "+"))
    i = If(sign, 1, 0)
    fwd = Not(t.isc(0, "-"))
    j = i + 1
    okP = t.isc(i, "P")
    time0 = t.isc(j, "T")
    e = t.dend(j)
    num0 = e > j
    v0 = val(t, j, e)
    isW = And(Not(time0), num0, t.isc(e, "W"))
    isD = And(Not(time0), num0, t.isc(e, "D"))
    dend = And(isD, e + 1 == t.n)
    k = If(time0, j + 1, e + 2)
    intime = Or(time0, And(isD, Not(dend), t.isc(e + 1, "T")))
    bare = k == t.n             # lenient: T with nothing after it
    e1 = t.dend(k)
    v1 = val(t, k, e1)
    H = t.isc(e1, "H")
    endH = And(H, e1 + 1 == t.n)
    p2 = If(H, e1 + 1, k)
    e2 = t.dend(p2)
    v2 = val(t, p2, e2)
    M = And(Not(endH), t.isc(e2, "M"))
    endM = And(M, e2 + 1 == t.n)
    p3 = If(M, e2 + 1, p2)
    e3 = t.dend(p3)
    v3 = val(t, p3, e3)
    S = And(Not(endH), Not(endM), t.isc(e3, "S"), e3 + 1 == t.n)
    okT = Or(bare, And(e1 > k, Or(endH, And(e2 > p2, Or(endM, And(e3 > p3, S))))))
    ok = And(okP, Or(isW, dend, And(intime, okT)))
    tm = And(Not(isW), Not(dend), Not(bare))
    return ok, fwd, (If(isW, v0, 0), If(isD, v0, 0), If(And(tm, H), v1, 0), If(And(tm, M), v2, 0), If(And(tm, S), v3, 0))


def val(t, i, e):
    if isinstance(t.data, str):
        return int(t.data[i:e]) if e > i and t.data[i:e].isdigit() else 0
    return t.value(i, e)


def p_dparse(o_of):
    def p(E, s, r, exc):
        ok, fwd, v = read_duration(E, Txt(E, s.args[1]))
        E.prove("accepted exactly when of an accepted form", Iff(exc is None, ok))
        if exc is None:
            o = o_of(s, r)
            for k, x in zip(DF, v):
                E.prove("the component written: %s" % k, o.slots[k] == x)
            E.prove("the direction written", Iff(E.truth_term(o.slots["mForward"]), fwd))
    return p


def m_dtext(E, s, slots):
    d = slots["data"]
    if not isinstance(d, View):
        return MISSING
    ok, fwd, v = read_duration(E, Txt(E, d))
    if not E.branch(ok):
        E.throw("ValueError", "duration")
    o = E.obj(E.find_qual("pycalendar.duration.Duration"))
    for k, x in zip(DF, v):
        o.slots[k] = x
    o.slots["mForward"] = fwd
    return o


add(DU + "parse", lambda E, s: [dur(E, s, "self"), s.viewtext("data", 14, DAL)], p_dparse(lambda s, r: s.args[0]), props=("C08",), raises=value_error, merge=False, sample=80)
add(DU + "parseText", lambda E, s: [E.find_qual("pycalendar.duration.Duration"), s.viewtext("data", 14, DAL)], p_dparse(lambda s, r: r), props=("C08",),
    raises=value_error, merge=False, modular=m_dtext, sample=40)


def num(E, v):
    return list("%d" % v) if isinstance(v, int) else [NumTok(v, None)]


def dform(E, o):
    w, d, h, m, sec = [o.slots[k] for k in DF]
    nz = [E.branch(Not(x == 0)) for x in (w, d, h, m, sec)]
    out = ["-"] if E.branch(And(Not(E.truth_term(o.slots["mForward"])), any(nz))) else []
    out.append("P")
    if nz[0]:
        return out + num(E, w) + ["W"]
    if nz[1]:
        out += num(E, d) + ["D"]
    if any(nz[2:]):
        out.append("T")
        if nz[2]:
            out += num(E, h) + ["H"]
        if nz[3] or nz[2] and nz[4]:
            out += num(E, m) + ["M"]
        if nz[4]:
            out += num(E, sec) + ["S"]
    elif not nz[1]:
        out += list("T0S")
    return out


def p_dwrite(E, s, r, exc):
    is_text(E, "the standard form", r, dform(E, s.old[0]))


add(DU + "getText", lambda E, s: [dur(E, s, "self", canonical=True)], p_dwrite, props=("C08",))
add(C + "duration_generate", lambda E, s: [dur(E, s, "self", canonical=True)], p_dwrite, props=("C08",))


def same_duration(E, a, b):
    for k in DF:
        E.prove("the same %s" % k, a.slots[k] == b.slots[k])
    E.prove("the same length", total(E, a) == total(E, b))


for f in ("duration_text_round", "duration_json_round"):
    add(C + f, lambda E, s: [dur(E, s, "self", canonical=True)], lambda E, s, r, exc: same_duration(E, r, s.old[0]), props=("C08",))


# --- UTC offsets
USEEDS = ("+0530", "-053015", "+05:30", "-05:30:15", "+00:00", "-0000", "05:30", "+5:30", "+0530Z", "+053a", "+05.30", "+ 5:30")
UAL = (USEEDS, "0123456789+-: ")


def read_offset(t, vcard):
    sep = 1 if vcard else 0
    okh, h = t.field(1, 2)
    m = 3 + sep
    okm, mi = t.field(m, 2)
    q = m + 2 + sep
    oks, sec = t.field(q, 2)
    short = t.n == m + 2
    ok = And(Or(t.isc(0, "+"), t.isc(0, "-")), okh, okm, Or(short, And(t.n == q + 2, oks)))
    if vcard:
        ok = And(ok, t.isc(3, ":"), Or(short, t.isc(6, ":")))
    v = (h * 60 + mi) * 60 + If(short, 0, sec)
    return ok, If(t.isc(0, "-"), -v, v)


def uval(E, s, name="value"):
    return s.obj("pycalendar.utcoffsetvalue.UTCOffsetValue", mValue=s.int(name, -86399, 86399))


def p_uparse(E, s, r, exc):
    vcard = s.args[2] == "vcard"
    ok, v = read_offset(Txt(E, s.args[1]), vcard)
    E.prove("accepted exactly when of an accepted form", Iff(exc is None, ok))
    if exc is None:
        E.prove("the offset written", s.args[0].slots["mValue"] == v)


def s_uparse(E, s):
    return [uval(E, s), s.viewtext("data", 10, UAL), ("vcard", "ical")[s.choose("variant", 2)]]


add(UO + "parse", s_uparse, p_uparse, props=("C08",), raises=value_error, merge=False, sample=80)


def uform(E, v, full):
    neg = E.branch(v < 0)
    a = -v if neg else v
    c = [":"] if full else []
    out = ["-" if neg else "+"] + dec(fdiv(a, 3600), 2) + c + dec(fmod(fdiv(a, 60), 60), 2)
    if E.branch(Not(fmod(a, 60) == 0)):
        out += c + dec(fmod(a, 60), 2)
    return out


add(C + "offset_generate", lambda E, s: [uval(E, s), s.choose("full", 2) == 1], lambda E, s, r, exc: is_text(E, "the standard form", r, uform(E, s.old[0].slots["mValue"], s.args[1])), props=("C08",))
for f in ("offset_plain_round", "offset_vcard_round", "offset_json_round"):
    add(C + f, lambda E, s: [uval(E, s)], lambda E, s, r, exc: E.prove("the same offset", r.slots["mValue"] == s.old[0].slots["mValue"]), props=("C08",))


# --- periods
PSEEDS = ("20110102T030405Z/20110103T030405Z", "20110102T030405/PT1H", "20110102/20110103", "20110102/P1D", "20110102T030405Z/P1DT2H3M4S", "20110102T030405Z", "20110102T030405Z/",
          "2011-01-02T03:04:05Z/PT5M", "2011-01-02T03:04:05+01:00/2011-01-02T04:04:05Z", "20110102T030405Z/-PT1H", "20110102T030405Z/PT1H/PT2H", "/PT1H", "20110102T030405Z/P")
PAL = (PSEEDS, "0123456789/PTZDHMS-:+")


def m_text(E, s, slots):
    d, full = slots["data"], slots["fullISO"]
    if not isinstance(d, View) or not isinstance(full, bool):
        return MISSING
    ok, vals, only, utc, hasoff, off = read(Txt(E, d), full)
    if not E.branch(ok):
        E.throw("ValueError", "date-time")
    return E.call(E.find_qual("pycalendar.datetime.DateTime"), [], {}) and built(E, vals, only, utc, hasoff, off)


def built(E, vals, only, utc, hasoff, off):
    o = E.obj(E.find_qual("pycalendar.datetime.DateTime"))
    for k, v in zip(FIELDS, vals):
        o.slots[k] = v
    o.slots.update(mDateOnly=only, mTZUTC=utc, mTZID=off if E.branch(hasoff) else None, mTZOffset=None, mPosixTimeCached=False, mPosixTime=0)
    return o


from . import c07 as _c07
for _c in _c07.CONTRACTS:
    if _c.name == D + "parseText(plain)":
        _c.modular = m_text
    if _c.name.startswith(D + "parseText"):
        _c.props = _c.props + ("C08",)


def old_period(E, s):
    """a period that already has a value, in either form, with or without the derived half"""
    start = dt(E, s, "old.start", kinds=("utc",), cache=False)
    m = s.choose("old.mode", 3)
    end = dt(E, s, "old.end", kinds=("utc",), cache=False) if m != 1 else None
    du = dur(E, s, "old.duration", canonical=True) if m != 0 else None
    return s.obj("pycalendar.period.Period", mStart=start, mEnd=end, mDuration=du, mUseDuration=m == 1)


def same_as_read(E, what, o, rd):
    ok, vals, only, utc, hasoff, off = rd
    for k, v in zip(FIELDS, vals):
        E.prove("%s: the field written: %s" % (what, k), o.slots[k] == v)
    E.prove("%s: date-only exactly for a date" % what, Iff(E.truth_term(o.slots["mDateOnly"]), only))
    zone_read(E, o, utc, hasoff, off)


def sub(t, i, j):
    """the part i..j-1 of a text"""
    E, d = t.E, t.data
    if isinstance(d, str):
        return Txt(E, d[i:j])
    return Txt(E, View(d.fn, z3.simplify(d.lo + i), z3.simplify(d.lo + j), d.end))


def p_pparse(full):
    def p(E, s, r, exc):
        o = s.args[0]
        t = Txt(E, s.args[1])
        if isinstance(t.data, str):
            q = t.data.find("/")
            q = len(t.data) if q < 0 else q
        else:
            q = strings.vfind(E, t.data, "/")
        slash = q < t.n
        if not E.branch(slash):
            E.prove("without a / : rejected", exc is not None)
            return
        a, b = sub(t, 0, q), sub(t, q + 1, t.n)
        ra = read(a, full)
        rd = read_duration(E, b)
        rb = read(b, full)
        isd = b.isc(0, "P")
        E.prove("accepted exactly when start and end or duration are of accepted forms", Iff(exc is None, And(ra[0], Or(And(isd, rd[0]), And(Not(isd), rb[0])))))
        if exc is not None:
            return
        same_as_read(E, "start", o.slots["mStart"], ra)
        use = o.slots["mUseDuration"]
        E.prove("in duration form exactly when a duration is written", Iff(E.truth_term(use), isd))
        if E.branch(isd):
            E.prove("no end is left of the previous value", o.slots["mEnd"] is None)
            du = o.slots["mDuration"]
            for k, x in zip(DF, rd[2]):
                E.prove("duration: the component written: %s" % k, du.slots[k] == x)
            E.prove("duration: the direction written", Iff(E.truth_term(du.slots["mForward"]), rd[1]))
        else:
            E.prove("no duration is left of the previous value", o.slots["mDuration"] is None)
            same_as_read(E, "end", o.slots["mEnd"], rb)
    return p


for full in (False, True):
    add(PE + "parse", lambda E, s, full=full: [old_period(E, s), s.viewtext("data", 40, PAL), full], p_pparse(full), props=("C08",), raises=value_error, merge=False,
        name=PE + "parse(%s)" % ("extended" if full else "plain"), sample=80)


def per(E, s, kinds):
    start = value(E, s, kinds, "start")
    use = s.choose("form", 2) == 1
    end = du = None
    if use:
        du = dur(E, s, "duration", canonical=True)
        s.assume(E.truth_term(du.slots["mForward"]))
    else:
        end = dt(E, s, "end")
        s.assume(And(end.slots["mYear"] >= 0, end.slots["mYear"] <= 9999))
        set_kind(E, s, end, s.kind, "end")
    return s.obj("pycalendar.period.Period", mStart=start, mEnd=end, mDuration=du, mUseDuration=use)


def p_pround(E, s, r, exc):
    o = s.old[0]
    pairs = [("mStart", "start")]
    if not o.slots["mUseDuration"]:
        pairs.append(("mEnd", "end"))
        E.prove("end form", And(Not(E.truth_term(r.slots["mUseDuration"])), r.slots["mDuration"] is None))
    else:
        E.prove("duration form", And(E.truth_term(r.slots["mUseDuration"]), r.slots["mEnd"] is None))
        same_duration(E, r.slots["mDuration"], o.slots["mDuration"])
    for k, what in pairs:
        x = r.slots[k]
        for f in FIELDS:
            E.prove("%s: the same %s" % (what, f), x.slots[f] == o.slots[k].slots[f])
        same_kind(E, x, s.kind == "date", s.kind == "utc", o.slots[k].slots["mTZID"])


PLAIN = ("date", "floating", "utc")
for f, kinds in (("period_text_round", PLAIN), ("period_json_round", PLAIN + ("offset",))):
    add(C + f, lambda E, s, kinds=kinds: [per(E, s, kinds)], p_pround, props=("C08",))
