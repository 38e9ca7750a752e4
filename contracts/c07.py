"""C07: date and date-time text.  The parser is proved to accept exactly the texts of the accepted
forms (a reader written here from the forms alone decides which those are and what they denote),
for texts of any length; the writers are proved to give the standard form; parse after write is
proved to be the identity as a client program."""
import z3
from vc.values import *
from vc import strings
from vc.verify import Contract
from vc.interp import MISSING
from .spec import *
from .text import Txt, digits_of, run_invariants
from .c01 import D, dt, fld, FIELDS, cache_ok, TZSTUB

C = "vclients."
CONTRACTS = []
STUBS = TZSTUB


def add(*a, **k):
    k.setdefault("stubs", STUBS)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


SEEDS = ("20110102", "20110102T030405", "20110102T030405Z", "2011-01-02", "2011-01-02T03:04:05", "2011-01-02T03:04:05Z", "2011-01-02T03:04:05+05:30",
         "2011-01-02T03:04:05-0530", "20110102T030405,123Z", "2011-01-02T03:04:05,9", "   12 3 4", "20110102T030405-0800", "2011-01-02T03:04:05,12-08:00",
         "20110102T", "20110102T0304", "20110102T030405+", "20110102T030405+05", "20110102T030405+05:", "2011-01-0", "2011-01-02T03:04:05,")
AL = (SEEDS, "0123456789-:TZ+, .")


def value_error(E, s, exc):
    return exc.cls.name == "ValueError"


# --- a field of digits
def s_pd(E, s):
    return [s.viewtext("data", 12, AL), s.int("index", 0, small=(0, 12)), (2, 4)[s.choose("count", 2)], (False, True)[s.choose("leading", 2)]]


def p_pd(E, s, r, exc):
    ok, v = Txt(E, s.args[0]).field(s.inputs["index"], s.args[2], s.args[3])
    E.prove("accepted exactly when there is such a field", Iff(exc is None, ok))
    if exc is None:
        E.prove("its decimal value", r == v)


def m_pd(E, s, slots):
    count, lead = slots["count"], slots["leadingSpace"]
    if not isinstance(count, int) or not isinstance(lead, bool) or not isinstance(slots["data"], View):
        return MISSING
    E.prove("call: the position is not negative", slots["index"] >= 0, "pre")
    ok, v = Txt(E, slots["data"]).field(slots["index"], count, lead)
    if not E.branch(ok):
        E.throw("ValueError", "digits")
    return v


add(D + "parseDigits", s_pd, p_pd, props=("C07", "C08"), modular=m_pd, raises=value_error, aux=True, merge=False)


# --- the accepted forms, as formulas over the text
def read_date(t, full):
    ok1, y = t.field(0, 4, True)
    i = 4 + If(t.isc(4, "-"), 1, 0) if full else 4
    ok2, m = t.field(i, 2, True)
    i = i + 2
    if full:
        i = i + If(t.isc(i, "-"), 1, 0)
    ok3, d = t.field(i, 2, True)
    return And(ok1, ok2, ok3), i + 2, (y, m, d)


def read_time(t, i, full):
    ok1, h = t.field(i, 2)
    i = i + 2
    if full:
        i = i + If(t.isc(i, ":"), 1, 0)
    ok2, m = t.field(i, 2)
    i = i + 2
    if full:
        i = i + If(t.isc(i, ":"), 1, 0)
    ok3, sec = t.field(i, 2)
    return And(ok1, ok2, ok3), i + 2, (h, m, sec)


def read_suffix(t, i):
    """fraction and zone: (of the form, utc, has an offset, the offset)"""
    e = t.dend(i + 1)
    frac = t.isc(i, ",")
    okf = Implies(frac, e > i + 1)
    j = If(frac, e, i)
    utc = t.isc(j, "Z")
    neg = t.isc(j, "-")
    sign = Or(neg, t.isc(j, "+"))
    oh, h = t.field(j + 1, 2)
    k = j + 3 + If(t.isc(j + 3, ":"), 1, 0)
    om, m = t.field(k, 2)
    off = (h * 60 + m) * 60
    ok = And(okf, Or(j == t.n, And(utc, j + 1 == t.n), And(sign, oh, om, k + 2 == t.n)))
    return ok, And(j < t.n, utc), And(j < t.n, sign), If(neg, -off, off)


def read(t, full):
    """what the text denotes: (is of an accepted form, fields, date-only, utc, has an offset, offset)"""
    okd, i, date = read_date(t, full)
    only = i == t.n
    okt, j, time = read_time(t, i + 1, full)
    end = j == t.n
    if full:
        oks, utc, hasoff, off = read_suffix(t, j)
        oks = Or(end, oks)
    else:
        utc, hasoff, off = t.isc(j, "Z"), False, 0
        oks = Or(end, And(utc, j + 1 == t.n))
    ok = And(okd, Or(only, And(t.isc(i, "T"), okt, oks)))
    time = tuple(If(only, 0, x) for x in time)
    return ok, date + time, only, And(Not(only), utc), And(Not(only), hasoff), off


def fail(E):
    E.throw(("ValueError", "IndexError")[E.choose(2, "exception")], "text")


def bad_text(E, s, exc):
    return exc.cls.name in ("ValueError", "IndexError")


def fresh(E, s):
    """a date-time being read: whatever fields, no zone"""
    o = s.obj("pycalendar.datetime.DateTime", **dict((k, s.int("self." + k, small=(0, 99))) for k in FIELDS))
    o.slots.update(mDateOnly=s.bool("self.dateonly"), mTZUTC=False, mTZID=None, mTZOffset=None, mPosixTimeCached=False, mPosixTime=0)
    return o


def text_arg(s, maxlen=30):
    return s.viewtext("data", maxlen, AL)


def set_fields(E, o, names, ok, vals):
    for k, v in zip(names, vals):
        E.setslot(o, k, v if ok else E.fresh_int(k))


def fields_kept(E, s, o, names):
    E.prove("the other fields are kept", And(*[o.slots[k] == s.old[0].slots[k] for k in names]))


def zone_kept(E, s, o):
    a, b = o.slots, s.old[0].slots
    E.prove("zone and kind kept", And(Iff(E.truth_term(a["mTZUTC"]), E.truth_term(b["mTZUTC"])), a["mTZID"] is None, Iff(E.truth_term(a["mDateOnly"]), E.truth_term(b["mDateOnly"]))))
    cache_ok(E, o)


def p_pdate(E, s, r, exc):
    o = s.args[0]
    ok, i, vals = read_date(Txt(E, s.args[1]), s.args[2])
    E.prove("accepted exactly when the text starts with a date", Iff(exc is None, ok))
    fields_kept(E, s, o, FIELDS[3:])
    zone_kept(E, s, o)
    if exc is None:
        E.prove("the position after the date", r == i)
        E.prove("the fields written", And(*[o.slots[k] == v for k, v in zip(FIELDS[:3], vals)]))


def m_pdate(E, s, slots):
    if not isinstance(slots["data"], View) or not isinstance(slots["fullISO"], bool):
        return MISSING
    ok, i, vals = read_date(Txt(E, slots["data"]), slots["fullISO"])
    ok = E.branch(ok)
    set_fields(E, slots["self"], FIELDS[:3], ok, vals)
    return i if ok else fail(E)


add(D + "parseDate", lambda E, s: [fresh(E, s), text_arg(s), s.choose("full", 2) == 1], p_pdate, props=("C07",), modular=m_pdate, raises=bad_text, aux=True, merge=False)


def p_ptime(E, s, r, exc):
    o = s.args[0]
    ok, i, vals = read_time(Txt(E, s.args[1]), s.args[2], s.args[3])
    E.prove("accepted exactly when there is a time at the position", Iff(exc is None, ok))
    fields_kept(E, s, o, FIELDS[:3])
    zone_kept(E, s, o)
    if exc is None:
        E.prove("the position after the time", r == i)
        E.prove("the fields written", And(*[o.slots[k] == v for k, v in zip(FIELDS[3:], vals)]))


def m_ptime(E, s, slots):
    if not isinstance(slots["data"], View) or not isinstance(slots["fullISO"], bool):
        return MISSING
    E.prove("call: the position is not negative", slots["index"] >= 0, "pre")
    ok, i, vals = read_time(Txt(E, slots["data"]), slots["index"], slots["fullISO"])
    ok = E.branch(ok)
    set_fields(E, slots["self"], FIELDS[3:], ok, vals)
    return i if ok else fail(E)


add(D + "parseTime", lambda E, s: [fresh(E, s), text_arg(s), s.int("index", 0, small=(0, 14)), s.choose("full", 2) == 1], p_ptime, props=("C07",),
    modular=m_ptime, raises=bad_text, aux=True, merge=False)


def s_psuf(E, s):
    a = [fresh(E, s), text_arg(s), s.int("index", 0, small=(8, 20))]
    n = Txt(E, a[1]).n
    s.assume(a[2] < n)
    return a + [n]


def zone_read(E, o, utc, hasoff, off):
    E.prove("in UTC exactly with a Z", Iff(E.truth_term(o.slots["mTZUTC"]), utc))
    tz = o.slots["mTZID"]
    if tz is None:
        E.prove("no offset is lost", Not(hasoff))
    else:
        E.prove("an offset only where one is written, and that one", And(hasoff, tz == off) if is_int(tz) else False)


def p_psuf(E, s, r, exc):
    o = s.args[0]
    ok, utc, hasoff, off = read_suffix(Txt(E, s.args[1]), s.inputs["index"])
    E.prove("accepted exactly when the rest is a fraction and a zone", Iff(exc is None, ok))
    fields_kept(E, s, o, FIELDS)
    E.prove("kind kept", Iff(E.truth_term(o.slots["mDateOnly"]), E.truth_term(s.old[0].slots["mDateOnly"])))
    if exc is None:
        E.prove("the position at the end", r == s.args[3])
        zone_read(E, o, utc, hasoff, off)
        cache_ok(E, o)


def m_psuf(E, s, slots):
    o = slots["self"]
    if not isinstance(slots["data"], View):
        return MISSING
    t = Txt(E, slots["data"])
    E.prove("call: the length of the text, and a position within it", And(slots["dlen"] == t.n, slots["index"] >= 0, slots["index"] < t.n), "pre")
    E.prove("call: no zone yet", And(Not(E.truth_term(o.slots["mTZUTC"])), o.slots["mTZID"] is None), "pre")
    ok, utc, hasoff, off = read_suffix(t, slots["index"])
    if not E.branch(ok):
        E.setslot(o, "mTZUTC", E.fresh_bool("utc"))
        fail(E)
    E.setslot(o, "mTZUTC", utc)
    if E.branch(hasoff):
        E.setslot(o, "mTZID", off)
    return t.n


add(D + "parseFractionalAndUTCOffset", s_psuf, p_psuf, props=("C07",), modular=m_psuf, raises=bad_text, aux=True, merge=False, loops=[run_invariants("data")])


def p_text(full):
    def p(E, s, r, exc):
        ok, vals, only, utc, hasoff, off = read(Txt(E, s.args[1]), full)
        E.prove("accepted exactly when of an accepted form", Iff(exc is None, ok))
        if exc is not None:
            return
        E.prove("a new object of the class", isinstance(r, Obj) and r.cls is s.args[0])
        for k, v in zip(FIELDS, vals):
            E.prove("the field written: %s" % k, r.slots[k] == v)
        E.prove("date-only exactly for a date", Iff(E.truth_term(r.slots["mDateOnly"]), only))
        zone_read(E, r, utc, hasoff, off)
        cache_ok(E, r)
    return p


def s_text(full):
    return lambda E, s: [E.find_qual("pycalendar.datetime.DateTime"), text_arg(s), full]


for full in (False, True):
    add(D + "parseText", s_text(full), p_text(full), props=("C07",), name=D + "parseText(%s)" % ("extended" if full else "plain"),
        raises=value_error, merge=False, loops=[run_invariants("data")], sample=80)


def same_kind(E, o, dateonly, utc, off):
    E.prove("date-only exactly for a date", Iff(E.truth_term(o.slots["mDateOnly"]), dateonly))
    E.prove("in UTC exactly with a Z", Iff(E.truth_term(o.slots["mTZUTC"]), utc))
    tz = o.slots["mTZID"]
    if off is None:
        E.prove("no zone or offset", tz is None)
    else:
        E.prove("a fixed offset", is_int(tz))
        if is_int(tz):
            E.prove("the offset written", tz == off)


# --- writing
def dec(v, w):
    """exactly w decimal digits"""
    if isinstance(v, int):
        return list("%0*d" % (w, v))
    return [48 + (v / (10 ** (w - 1 - i))) % 10 for i in range(w)]


def form(E, o, full, kind, off=None):
    """the standard form, as pieces"""
    y, m, d, h, mi, sec = fld(o)
    a, b = ("-", ":") if full else ("", "")
    out = dec(y, 4) + list(a) + dec(m, 2) + list(a) + dec(d, 2)
    if kind == "date":
        return out
    out += ["T"] + dec(h, 2) + list(b) + dec(mi, 2) + list(b) + dec(sec, 2)
    if kind == "utc":
        out.append("Z")
    elif kind == "offset":
        neg = E.branch(off < 0)
        mag = -off if neg else off
        out += ["-" if neg else "+"] + dec(fdiv(mag, 3600), 2) + list(b) + dec(fmod(fdiv(mag, 60), 60), 2)
    return out


KINDS = ("date", "floating", "utc", "offset")


def value(E, s, kinds=KINDS, name="self"):
    kind = kinds[s.choose("valuekind", len(kinds))]
    o = dt(E, s, name)
    s.assume(And(o.slots["mYear"] >= 0, o.slots["mYear"] <= 9999))
    set_kind(E, s, o, kind, name)
    s.kind = kind
    return o


def set_kind(E, s, o, kind, name):
    o.slots["mDateOnly"] = kind == "date"
    o.slots["mTZUTC"] = kind == "utc"
    o.slots["mTZID"] = None
    if kind == "date":
        for k in FIELDS[3:]:
            s.assume(o.slots[k] == 0)
    if kind == "offset":
        q = s.int(name + ".offset_minutes", -1439, 1439)
        o.slots["mTZID"] = q * 60
    o.slots["mPosixTimeCached"] = False
    o.slots["mTZOffset"] = None


def is_text(E, name, r, ps):
    E.prove("a string", is_str(r))
    if is_str(r):
        w = strings.mk([p if isinstance(p, (str, NumTok)) else z3.simplify(p) if isz(p) else chr(p) for p in ps])
        E.prove(name, strings.str_eq(E, r, w))


def p_write(full):
    def p(E, s, r, exc):
        o = s.old[0]
        is_text(E, "the standard form", r, form(E, o, full, s.kind, o.slots["mTZID"]))
        E.prove("the value is not changed", And(*[s.args[0].slots[k] == o.slots[k] for k in FIELDS]))
    return p


add(D + "getText", lambda E, s: [value(E, s)], p_write(False), props=("C07",))
add(D + "getXMLText", lambda E, s: [value(E, s)], p_write(True), props=("C07",))


def p_round(E, s, r, exc):
    o = s.old[0]
    for k in FIELDS:
        E.prove("the same %s" % k, r.slots[k] == o.slots[k])
    same_kind(E, r, s.kind == "date", s.kind == "utc", o.slots["mTZID"])


NOFF = ("date", "floating", "utc")
add(C + "date_text_round", lambda E, s: [value(E, s, NOFF)], p_round, props=("C07",))
add(C + "date_xml_round", lambda E, s: [value(E, s)], p_round, props=("C07",))
add(C + "date_json_round", lambda E, s: [value(E, s)], p_round, props=("C07",))
add(C + "date_generate", lambda E, s: [value(E, s)], p_write(False), props=("C07",))
