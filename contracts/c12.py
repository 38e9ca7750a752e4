"""C12: recurrence rules as values.  Equality and hash for lists of any length; every rule part read
with its limits, for value lists of any length; repeated and conflicting parts; duplicates."""
import z3
from vc.values import *
from vc.verify import Contract
from vc.abslist import AbsList, Rec
from vc.vallist import Vals, VTuple, Range, SORT, EMPTY
from vc.strings import seq_term
from .spec import *
from .c01 import D, fld, FIELDS
from .c13 import R, BYS
from .c20 import ghost

CONTRACTS = []
SEQ = IntSeq
LISTS = BYS


def add(*a, **k):
    k.setdefault("props", ("C12",))
    k.setdefault("replay", False)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


# --- comparing lists of part values
def canon(E, term):
    """the sorted list; no list is the empty list"""
    if term is None:
        return EMPTY
    E.fact(z3.Length(SORT(term)) == z3.Length(term))
    return z3.If(z3.Length(term) == 0, EMPTY, SORT(term))


def vlist(E, s, name):
    k = s.choose(name + "?", 2)
    if k == 0:
        return None, None
    t = z3.Const(name, SEQ)
    return t, E.plist(Vals(t))


def s_eqnum(E, s):
    s.a, a = vlist(E, s, "items1")
    s.b, b = vlist(E, s, "items2")
    return [s.obj(RC), a, b]


RC = "pycalendar.icalendar.recurrence.Recurrence"


def eq_step(E, s, ctx, recs):
    for al, x, old in ctx:
        if hasattr(al, "index"):
            i = al.index
            E.prove("the comparison goes on only while the elements agree", SORT(s.a)[i] == SORT(s.b)[i])


def eq_done(E, s, ctx, al):
    E.prove("all positions were compared", al.length == z3.Length(s.a))
    E.prove("the lists have one length", z3.Length(s.a) == z3.Length(s.b))
    # equal length and equal at every position (what the step obligations established): the same sequence
    E.assume(z3.Implies(z3.And(z3.Length(SORT(s.a)) == z3.Length(s.a), z3.Length(SORT(s.b)) == z3.Length(s.b)), SORT(s.a) == SORT(s.b)))


def p_eqnum(E, s, r, exc):
    E.prove("equal exactly when they hold the same values", Iff(E.truth_term(r), canon(E, s.a) == canon(E, s.b)))
    E.prove("the lists are left alone", all(o is None or o.slots["v"] is old for o, old in s.lists))


def setup_eq(E, s):
    a = s_eqnum(E, s)
    s.lists = [(o, o.slots["v"] if o is not None else None) for o in a[1:]]
    return a


def m_eqnum(E, s, slots):
    ts = []
    for k in sorted(x for x in slots if x != "self"):
        o = slots[k]
        if o is None:
            ts.append(None)
        elif isinstance(o.slots["v"], Vals):
            ts.append(o.slots["v"].term)
        elif o.slots["v"] == []:
            ts.append(EMPTY)
        else:
            return MISSING
    return canon(E, ts[0]) == canon(E, ts[1])


from vc.interp import MISSING                                     # noqa
RANGE = {"range:symbolic": lambda E, lo, hi: E.plist(Range(lo, hi))}
for fn in ("equalsNum", "equalsDayNum"):
    add(R + fn, setup_eq, p_eqnum, stubs=RANGE, step=eq_step, done=eq_done, modular=m_eqnum)


# --- rules
EQU = z3.Function("until_key", z3.IntSort(), z3.IntSort(), z3.IntSort())
HASH = z3.Function("until_hash", z3.BoolSort(), z3.BoolSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


def until(E, s, n):
    """an end date: its kind (date, UTC, zone) and its instant"""
    if s.choose(n + ".until?", 2) == 0:
        return None
    o = E.obj(E.find_qual("pycalendar.datetime.DateTime"))
    o.slots.update(mDateOnly=s.bool(n + ".until.date"), mTZUTC=s.bool(n + ".until.utc"), mTZID=s.int(n + ".until.zone"), key=s.int(n + ".until.instant"))
    return o


def st_until_eq(E, slots):
    a, b = slots["self"], slots["comp"]
    return a.slots["key"] == b.slots["key"]


def st_until_hash(E, slots):
    a = slots["self"].slots
    return HashVal(HASH(E.zb(a["mDateOnly"]), E.zb(a["mTZUTC"]), E.z(a["mTZID"]), E.z(a["key"])))


def st_until_dup(E, slots):
    a = slots["self"]
    o = E.obj(a.cls)
    o.slots.update(dict(a.slots))
    return o


UNTIL = {"func:" + D + "__eq__": st_until_eq, "func:" + D + "__hash__": st_until_hash, "func:" + D + "duplicate": st_until_dup,
         "func:" + D + "__ne__": lambda E, slots: Not(st_until_eq(E, slots)),
         "func:" + D + "compareDateTime": lambda E, slots: If(st_until_eq(E, slots), 0, If(slots["self"].slots["key"] < slots["comp"].slots["key"], -1, 1))}
TRUST = ("DateTime: date-times of one kind that are equal hash alike (proved in C04); duplicate copies every field (proved in C05)", "sorted lists with the same values are the same list")
SCALARS = ("mFreq", "mUseCount", "mCount", "mUseUntil", "mInterval", "mWeekstart")


def sym_rule(E, s, n, pick=None):
    """any rule; pick: the only list that may be present (the others none)"""
    o = s.obj(RC, mFreq=s.int(n + ".freq"), mUseCount=s.bool(n + ".usecount"), mCount=s.int(n + ".count"), mUseUntil=s.bool(n + ".useuntil"),
              mInterval=s.int(n + ".interval"), mWeekstart=s.int(n + ".wkst"), mUntil=until(E, s, n),
              mCached=s.bool(n + ".cached"), mCacheStart=None, mCacheUpto=None, mCacheFloatOffset=s.int(n + ".cfo"), mFullyCached=s.bool(n + ".full"), mRecurrences=None)
    terms = {}
    for b in BYS:
        if pick is None or b in pick:
            terms[b], o.slots[b] = vlist(E, s, n + "." + b)
        else:
            t = z3.Const(n + "." + b, SEQ)
            terms[b], o.slots[b] = t, E.plist(Vals(t))
    o.slots["terms"] = terms
    return o


def same_rule(E, a, b):
    out = [a.slots[k] == b.slots[k] for k in SCALARS]
    u, v = a.slots["mUntil"], b.slots["mUntil"]
    if u is None or v is None:
        out.append(u is v)
    else:
        out += [u.slots[k] == v.slots[k] for k in ("mDateOnly", "mTZUTC", "mTZID", "key")]
    for k in BYS:
        out.append(canon(E, a.slots["terms"][k]) == canon(E, b.slots["terms"][k]))
    return And(*out)


def s_equals(E, s):
    # the parts differ in nothing but their name: each pair of lists in turn may be absent
    which = BYS[s.choose("part", len(BYS))]
    s.a, s.b = sym_rule(E, s, "a", (which,)), sym_rule(E, s, "b", (which,))
    return [s.a, s.b]


def p_equals(E, s, r, exc):
    E.prove("equal exactly when every part has the same content", Iff(E.truth_term(r), same_rule(E, s.a, s.b)))


add(R + "equals", s_equals, p_equals, stubs=UNTIL, trusted=TRUST, timeout=300)


def r_laws(E, s):
    which = BYS[s.choose("part", len(BYS))]
    s.a, s.b = sym_rule(E, s, "a", (which,)), sym_rule(E, s, "b", (which,))
    eq, ne = E.compare("Eq", s.a, s.b), E.compare("NotEq", s.a, s.b)
    other = E.compare("Eq", s.a, 1)
    h = E.builtins["hash"].fn
    return eq, ne, other, h(E, [s.a], {}), h(E, [s.b], {})


def hval(E, a, b):
    if isinstance(a, HashVal):
        a = a.struct
    if isinstance(b, HashVal):
        b = b.struct
    if isinstance(a, tuple) and isinstance(b, tuple):
        return And(*[hval(E, x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    if isinstance(a, Obj) and isinstance(b, Obj):
        h = E.builtins["hash"].fn
        x, y = h(E, [a], {}), h(E, [b], {})
        return hval(E, x, y) if x.struct is not a else E.eq(a, b) if hasattr(a.slots.get("v"), "sym_eq") else a is b
    if isinstance(a, Choice) or isinstance(b, Choice):
        return E.eq(a, b)
    return E.truth_term(E.eq(a, b))


def p_laws(E, s, r, exc):
    eq, ne, other, h1, h2 = r
    E.prove("!= is the negation of ==", Iff(E.truth_term(ne), Not(E.truth_term(eq))))
    E.prove("a rule is not equal to something else", Not(E.truth_term(other)))
    E.prove("equal rules hash alike", Implies(E.truth_term(eq), hval(E, h1, h2)))


add(R + "__eq__", lambda E, s: [], p_laws, run=r_laws, stubs=UNTIL, trusted=TRUST, timeout=300, name=R + "__eq__, __ne__, __hash__")


def s_dup(E, s):
    s.a = sym_rule(E, s, "a")
    s.before = dict(s.a.slots)
    return [s.a]


def p_dup(E, s, r, exc):
    a = s.a
    E.prove("the original is left alone", all(a.slots[k] is s.before[k] for k in s.before))
    for k in SCALARS + ("mCached", "mFullyCached", "mCacheFloatOffset"):
        E.prove("%s is copied" % k, r.slots[k] == a.slots[k])
    for k in BYS:
        x, y = a.slots[k], r.slots[k]
        E.prove("%s is copied" % k, (x is None) == (y is None) and (x is None or E.truth_term(E.eq(x, y))))
        E.prove("%s is not shared" % k, x is None or x is not y)
    u, v = a.slots["mUntil"], r.slots["mUntil"]
    E.prove("the end date is copied", (u is None) == (v is None) and (u is None or And(*[u.slots[k] == v.slots[k] for k in ("mDateOnly", "mTZUTC", "mTZID", "key")])))
    E.prove("the end date is not shared", u is None or u is not v)


add(R + "duplicate", s_dup, p_dup, stubs=UNTIL, trusted=TRUST, timeout=300, maxpaths=8000)


# --- reading
TOKTRUST = ("int(text) gives the number the text stands for, or ValueError", "str.split gives the pieces of the text")


def t_int(E, o):
    if not E.branch(o.slots["isnum"]):
        E.throw("ValueError", "invalid literal for int()")
    return o.slots["num"]


def t_contains(E, o, x):
    return x == "," and o.slots["pieces"] is not None


def t_split(E, o, sep=None, n=None):
    if sep == "," and n is None and o.slots["whole"]:
        return E.plist([o]) if o.slots["pieces"] is None else E.plist(o.slots["pieces"])
    return E.plist([o])


TEXT = ghost("text", __int__=t_int, __contains__=t_contains, split=t_split, strip=lambda E, o: o)


def piece(E, pieces=None, whole=False):
    o = E.obj(TEXT)
    o.slots.update(isnum=E.fresh_bool("isnum"), num=E.fresh_int("num"), pieces=pieces, whole=whole)
    return o


class Pieces(AbsList):
    """the pieces a text is split into, each any text"""

    def __init__(self, E, s):
        n = E.fresh_int("pieces")
        E.assume(n >= 2)

        def mk(E):
            s.last = piece(E)
            return s.last
        AbsList.__init__(self, "pieces", mk, n)


def s_plist(E, s):
    s.lo, s.hi = s.int("min", 0), s.int("max", 0)
    s.has_lo, s.has_hi = bool(s.choose("min?", 2)), bool(s.choose("max?", 2))
    s.neg = s.bool("allowNegative")
    s.pieces = Pieces(E, s) if s.choose("pieces", 2) == 1 else None
    s.last = s.text_ = piece(E, s.pieces, True)
    s.out = E.plist([])
    return [s.obj(RC), s.text_, s.out, s.lo if s.has_lo else None, s.hi if s.has_hi else None, s.neg, "message"]


def ok_value(s, v):
    a = z3.If(v >= 0, v, -v)
    out = [Or(s.neg, v >= 0)]
    if s.has_lo:
        out.append(a >= s.lo)
    if s.has_hi:
        out.append(a <= s.hi)
    return And(*out)


def one_value(E, s, o, v):
    E.prove("the value written", And(o.slots["isnum"], E.z(v) == o.slots["num"]))
    E.prove("an accepted value is within the limits", ok_value(s, o.slots["num"]))


def plist_step(E, s, ctx, recs):
    ps = [p for o in recs for p in recs[o]]
    E.prove("one value for each piece", len(ps) == 1 and ps[0][0] == "item")
    if len(ps) == 1:
        one_value(E, s, s.last, ps[0][1])


def p_plist(E, s, r, exc):
    if exc is not None:
        E.prove("only a ValueError", exc.cls.name == "ValueError")
        E.prove("rejected only for a piece that is no number or outside the limits", Not(And(s.last.slots["isnum"], ok_value(s, s.last.slots["num"]))))
        return
    v = s.out.slots["v"]
    if s.pieces is None:
        E.prove("the value", isinstance(v, list) and len(v) == 1)
        one_value(E, s, s.text_, v[0])
    else:
        E.prove("the values of all pieces, in order", isinstance(v, Rec) and v.parts == [("flat", s.pieces)])


add(R + "parseList", s_plist, p_plist, raises=lambda E, s, x: True, step=plist_step, trusted=TOKTRUST)


# weekdays with their ordinals
DAYS = ("SU", "MO", "TU", "WE", "TH", "FR", "SA")


def c_at(x):
    return ord(x) if isinstance(x, str) else x


def day_of(cs):
    """(the text is a weekday with an ordinal a rule can carry, ordinal, weekday)"""
    if len(cs) < 2:
        return False, 0, 0
    a, b = cs[-2:]
    isday = Or(*[And(a == ord(d[0]), b == ord(d[1])) for d in DAYS])
    day = 0
    for i, d in enumerate(DAYS):
        day = If(And(a == ord(d[0]), b == ord(d[1])), i, day)
    num = cs[:-2]
    if not num:
        return isday, 0, day
    sign = Or(num[0] == 43, num[0] == 45)
    dig = [And(c >= 48, c <= 57) for c in num]
    v = 0
    for c in num[1:]:
        v = v * 10 + c - 48
    full = (num[0] - 48) * 10 ** (len(num) - 1) + v
    n = If(num[0] == 45, -v, If(num[0] == 43, v, full))
    ok = And(Or(dig[0], And(sign, len(num) > 1)), *dig[1:])
    a = If(n >= 0, n, -n)
    return And(isday, ok, a >= 1, a <= 53), n, day


def s_pdw(E, s):
    n = s.choose("length", 6)
    t = s.text("piece", n)
    s.chars = [c_at(c) for c in (list(t) if isinstance(t, str) else t.pieces)]
    s.assume(And(*[Not(c == 44) for c in s.chars]))
    s.out = E.plist([])
    return [s.obj(RC), t, s.out, "message"]


def p_pdw(E, s, r, exc):
    ok, n, day = day_of(s.chars)
    if exc is not None:
        E.prove("only a ValueError", exc.cls.name == "ValueError")
        E.prove("rejected only if it is no weekday with an ordinal from 1 to 53", Not(ok))
        return
    v = s.out.slots["v"]
    E.prove("accepted only if it is one", And(ok, len(v) == 1))
    E.prove("the ordinal and the weekday written", And(E.z(v[0][0]) == n, E.z(v[0][1]) == day))


add(R + "parseListDW", s_pdw, p_pdw, raises=lambda E, s, x: True, bounded="one item of at most 5 characters", timeout=200)


# a whole rule of one or two parts
PARTS = {"BYSECOND": ("mBySeconds", 0, 60, False), "BYMINUTE": ("mByMinutes", 0, 59, False), "BYHOUR": ("mByHours", 0, 23, False), "BYDAY": ("mByDay",),
         "BYMONTHDAY": ("mByMonthDay", 1, 31, True), "BYYEARDAY": ("mByYearDay", 1, 366, True), "BYWEEKNO": ("mByWeekNo", 1, 53, True),
         "BYMONTH": ("mByMonth", 1, 12, False), "BYSETPOS": ("mBySetPos", 1, 366, True)}
FREQS = ("SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY")
NAMES = ("FREQ", "UNTIL", "COUNT", "INTERVAL", "WKST", "OTHER") + tuple(sorted(PARTS))


def s_parse(E, s):
    s.parts, toks = [], []
    for i in range(1 + s.choose("two", 2)):
        name = NAMES[s.choose("name%d" % i, len(NAMES))]
        if name == "FREQ":
            k = s.choose("freq%d" % i, 8)
            value = (FREQS + ("OTHER",))[k]
        elif name == "WKST":
            k = s.choose("wkst%d" % i, 8)
            value = (DAYS + ("XX",))[k]
        else:
            value = piece(E)
        s.parts.append((name, value))
        t = E.obj(TOKEN)
        t.slots["pair"] = (name, value)
        toks.append(t)
    d = E.obj(RULETEXT)
    d.slots["tokens"] = toks
    s.rule = s.obj(RC)
    s.bad = []
    return [s.rule, d]


TOKEN = ghost("part", split=lambda E, o, sep: E.plist(list(o.slots["pair"])) if sep == "=" else E.plist([o]))
RULETEXT = ghost("rule text", split=lambda E, o, sep: E.plist(list(o.slots["tokens"])) if sep == ";" else E.plist([o]))


def st_list(E, slots):
    s = E.S
    o = E.obj(TEXT)
    o.slots.update(of=slots["txt"], limits=(slots.get("min"), slots.get("max"), slots.get("allowNegative")))
    if E.choose(2, "list"):
        s.bad.append(slots["txt"])
        E.throw("ValueError", "bad list")
    E.call(E.getattr_(slots["list"], "append"), [o], {})
    return None


def st_dt(E, slots):
    if E.choose(2, "until"):
        E.S.bad.append(slots["data"])
        E.throw("ValueError", "bad date")
    E.setslot(slots["self"], "of", slots["data"])
    return None


def p_parse(E, s, r, exc):
    names = [n for n, v in s.parts]
    reasons = []
    for n, v in s.parts:
        if n == "OTHER":
            reasons.append(True)
        elif n in ("FREQ", "WKST"):
            reasons.append(v in ("OTHER", "XX"))
        elif n in ("COUNT", "INTERVAL"):
            reasons.append(Not(And(v.slots["isnum"], v.slots["num"] >= 1)))
        elif v in s.bad:
            reasons.append(True)
    if len(names) == 2:
        reasons.append(names[0] == names[1] or set(names) == set(("COUNT", "UNTIL")))
    if exc is not None:
        E.prove("only a ValueError", exc.cls.name == "ValueError")
        E.prove("rejected only for a reason", Or(*reasons))
        return
    E.prove("unknown, repeated, conflicting and wrong parts are rejected", Not(Or(*reasons)))
    d = dict(s.parts)
    f = s.rule.slots
    E.prove("FREQ", f["mFreq"] == (FREQS.index(d["FREQ"]) if "FREQ" in d else 6))
    E.prove("WKST", f["mWeekstart"] == (DAYS.index(d["WKST"]) if "WKST" in d else 1))
    E.prove("COUNT", And(f["mUseCount"] == ("COUNT" in d), f["mCount"] == (d["COUNT"].slots["num"] if "COUNT" in d else 0)))
    E.prove("INTERVAL", f["mInterval"] == (d["INTERVAL"].slots["num"] if "INTERVAL" in d else 1))
    E.prove("UNTIL", f["mUseUntil"] == ("UNTIL" in d) and (f["mUntil"].slots["of"] is d["UNTIL"] if "UNTIL" in d else f["mUntil"] is None))
    for n, p in PARTS.items():
        x = f[p[0]]
        if n not in d:
            E.prove("%s is absent" % n, x is None)
        else:
            v = x.slots["v"]
            E.prove("%s is read from its own text with its limits" % n, len(v) == 1 and v[0].slots["of"] is d[n] and (n == "BYDAY" or v[0].slots["limits"] == p[1:]))


add(R + "parse", s_parse, p_parse, raises=lambda E, s, x: True, bounded="rules of at most two parts", trusted=TOKTRUST, timeout=200,
    stubs={"func:" + R + "parseList": st_list, "func:" + R + "parseListDW": st_list, "func:" + D + "parse": st_dt})


# --- writing, then reading
LIMITS = {"mBySeconds": (0, 60), "mByMinutes": (0, 59), "mByHours": (0, 23), "mByMonthDay": (-31, 31), "mByYearDay": (-366, 366), "mByWeekNo": (-53, 53),
          "mByMonth": (1, 12), "mBySetPos": (-366, 366)}


def values(E, s, b, n):
    out = []
    for i in range(n):
        if b == "mByDay":
            # ordinals are enumerated: the reader looks at their digits
            out.append((s.choose("%s.%d" % (b, i), 107) - 53, s.choose("%s.day.%d" % (b, i), 7)) if i == 0 else (-1, 4))
        else:
            lo, hi = LIMITS[b]
            v = s.int("%s.%d" % (b, i), lo, hi)
            if lo < 0:
                s.assume(Not(v == 0))
            out.append(v)
    return E.plist(out)


def st_write_until(E, slots):
    E.call(E.getattr_(slots["os"], "write"), ["20200101"], {})
    return None


def st_read_until(E, slots):
    E.prove("the end date is read from what was written", slots["data"] == "20200101")
    E.setslot(slots["self"], "read", True)
    return None


def r_text(E, s):
    mode = s.choose("parts", 12)
    o = s.obj(RC)
    E.call(E.getattr_(o, "init_Recurrence"), [], {})
    if mode < 9:
        o.slots[BYS[mode]] = values(E, s, BYS[mode], 1 + s.choose("two", 2))
    elif mode == 9:
        o.slots["mFreq"] = s.choose("freq", 7)
        o.slots["mWeekstart"] = s.choose("wkst", 7)
        o.slots["mInterval"] = s.int("interval", 1)
    elif mode == 10:
        k = s.choose("end", 3)
        if k == 1:
            o.slots.update(mUseCount=True, mCount=s.int("count", 1))
        elif k == 2:
            o.slots.update(mUseUntil=True, mUntil=E.obj(E.find_qual("pycalendar.datetime.DateTime")))
        o.slots["mInterval"] = s.int("interval", 1)
    else:
        for b in BYS:
            o.slots[b] = E.plist([(2, 4)] if b == "mByDay" else [3])
        o.slots.update(mUseCount=True, mCount=s.int("count", 1), mInterval=s.int("interval", 1), mWeekstart=4)
    s.o = o
    t = E.call(E.getattr_(o, "getText"), [], {})
    n = s.obj(RC)
    E.call(E.getattr_(n, "init_Recurrence"), [], {})
    E.call(E.getattr_(n, "parse"), [t], {})
    return n


def p_text(E, s, n, exc):
    o = s.o
    for k in SCALARS:
        E.prove("%s survives" % k, n.slots[k] == o.slots[k])
    for b in BYS:
        x, y = o.slots[b], n.slots[b]
        E.prove("%s survives" % b, (x is None) == (y is None) and (x is None or E.truth_term(E.eq(tuple(x.slots["v"]), tuple(y.slots["v"])))))
    E.prove("the end date survives", (o.slots["mUntil"] is None) == (n.slots["mUntil"] is None))


add(R + "generate", lambda E, s: [], p_text, run=r_text, name=R + "generate then parse", timeout=300,
    bounded="one list part of one or two values, or every part with one value", stubs={"func:" + D + "generate": st_write_until, "func:" + D + "parse": st_read_until})
