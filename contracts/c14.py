"""C14: expansion.  The answer from the cache is the answer of a fresh expansion, for every state of the
cache; the loops that step through a rule are proved with invariants; setters leave no stale cache."""
import z3
from vc.values import *
from vc.verify import Contract
from vc.abslist import AbsList, Rec
from vc.vallist import Vals
from .spec import *
from .c01 import D, fld, FIELDS
from .c13 import R, BYS
from .c20 import ghost
from vc.interp import Unsupported

CONTRACTS = []
SEQ = IntSeq
RC = "pycalendar.icalendar.recurrence.Recurrence"
P = "pycalendar.period.Period."


def add(*a, **k):
    k.setdefault("props", ("C14",))
    k.setdefault("replay", False)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


# --- date-times known by their position on the time line and their kind
KIND = ("mDateOnly", "mTZUTC", "mTZID")


def moment(E, key, kind, ref=None):
    o = E.obj(E.find_qual("pycalendar.datetime.DateTime"))
    o.slots.update(key=key, mDateOnly=kind[0], mTZUTC=kind[1], mTZID=kind[2])
    if ref is not None:
        o.slots["ref"] = ref
    return o


def kind_of(o):
    return tuple(o.slots[k] for k in KIND)


def sym_kind(E, s, n):
    """a date, floating, UTC or in a zone (an integer stands for the zone, if any)"""
    return (s.bool(n + ".date"), s.bool(n + ".utc"), s.int(n + ".zone"))


def st_cmp(E, slots):
    for o in slots.values():
        if isinstance(o, Obj) and "idx" in o.slots:
            E.S.looked = o.slots["idx"]
    a, b = slots["self"], slots["comp"]
    if b is None:
        E.throw("AttributeError", "comparison with None")
    x, y = a.slots["key"], b.slots["key"]
    return If(x == y, 0, If(x < y, -1, 1))


def st_eq(E, slots):
    b = slots["comp"]
    if not isinstance(b, Obj):
        return False
    return slots["self"].slots["key"] == b.slots["key"]


def st_dup(E, slots):
    a = slots["self"]
    o = E.obj(a.cls)
    o.slots.update(dict((k, v) for k, v in a.slots.items() if k != "ref"))
    return o


DT = {"func:" + D + "compareDateTime": st_cmp, "func:" + D + "__eq__": st_eq, "func:" + D + "__ne__": lambda E, s: Not(st_eq(E, s)), "func:" + D + "duplicate": st_dup,
      "func:" + D + "normalise": lambda E, s: None, "func:" + D + "getPosixTime": lambda E, s: s["self"].slots["key"]}
DTRUST = ("DateTime comparison and duplication (proved in C04, C05); Period predicates (proved in C17)",)


def p_after(E, o, d):
    return d.slots["key"] >= o.slots["hi"]


def p_within(E, o, d):
    return And(d.slots["key"] >= o.slots["lo"], d.slots["key"] < o.slots["hi"])


def looking(f):
    """remember which candidate a question was asked about last"""
    def g(E, *a):
        for o in (a[0].values() if isinstance(a[0], dict) else a):
            if isinstance(o, Obj) and "idx" in o.slots:
                E.S.looked = o.slots["idx"]
        return f(E, *a)
    return g


PERIOD = ghost("period", isDateAfterPeriod=looking(p_after), isDateWithinPeriod=p_within, isDateBeforePeriod=lambda E, o, d: d.slots["key"] < o.slots["lo"],
               getEnd=lambda E, o: o.slots["end"], getStart=lambda E, o: o.slots["start"])


def period(E, s, n, kind):
    o = E.obj(PERIOD)
    lo, hi = s.int(n + ".lo"), s.int(n + ".hi")
    o.slots.update(lo=lo, hi=hi, start=moment(E, lo, kind), end=moment(E, hi, kind))
    return o


def rule(E, s, **k):
    o = s.obj(RC, mFreq=0, mUseCount=False, mCount=0, mUseUntil=False, mUntil=None, mInterval=1, mWeekstart=1,
              mCached=False, mCacheStart=None, mCacheUpto=None, mCacheFloatOffset=0, mFullyCached=False, mRecurrences=None, **dict((b, None) for b in BYS))
    o.slots.update(k)
    return o


# --- the cache.  INST(start, kinds, offset, t): t is an instance of the rule as it stands, for a start and
# a floating offset.  A list made by an expansion up to U holds the instances before U.
B, I = z3.BoolSort(), z3.IntSort()
INST = z3.Function("is_instance", I, B, B, I, B, B, I, I, I, B)


def signature(E, start, skind, ekind, fo):
    return (E.z(start), E.zb(skind[0]), E.zb(skind[1]), E.z(skind[2]), E.zb(ekind[0]), E.zb(ekind[1]), E.z(ekind[2]), E.z(fo))


class Made(AbsList):
    """what an expansion up to U gives: the instances before U, in order"""

    def __init__(self, E, start, skind, ekind, fo, upto, full):
        self.sig = signature(E, start, skind, ekind, fo)
        self.upto = upto
        self.full = full
        self.skind = skind

        def mk(E):
            k = E.fresh_int("instance")
            E.assume(z3.And(self.inst(k), k < upto))
            return moment(E, k, skind)
        n = E.fresh_int("len")
        E.assume(n >= 0)
        AbsList.__init__(self, "instances", mk, n)

    def inst(self, k):
        return INST(*(self.sig + (k,)))


def st_gen(simple):
    def f(E, slots):
        s = E.S
        E.prove("call: an empty list is filled", slots["items"].slots["v"] == [], "pre")
        E.prove("call: the range asked for", slots["range"] is s.range, "pre")
        E.prove("call: the start and the floating offset asked for", And(slots["start"].slots["key"] == s.start.slots["key"], E.z(slots["float_offset"]) == s.fo), "pre")
        E.prove("call: the kind of expansion fits the rule", s.by == (not simple), "pre")
        E.prove("call: the limit is passed on", slots["maxInstances"] is s.max, "pre")
        if s.max is not None and E.choose(2, "too many"):
            from vc.interp import PyRaise
            raise PyRaise(E.obj(E.find_qual("pycalendar.exceptions.TooManyInstancesError") or E.find_qual("pycalendar.icalendar.exceptions.TooManyInstancesError"), args=()))
        full = E.fresh_bool("complete")
        m = Made(E, s.start.slots["key"], kind_of(s.start), kind_of(s.range.slots["end"]), s.fo, s.range.slots["hi"], full)
        slots["items"].slots["v"]
        E.setslot(slots["items"], "v", m)
        s.fresh = m
        return full
    return f


def made_fact(E, m, k):
    """what completeness says about one instant"""
    E.assume(z3.Implies(z3.And(m.full, m.inst(k)), k < m.upto))


def s_expand(E, s):
    sk = sym_kind(E, s, "start")
    ek = sym_kind(E, s, "range.end")
    s.start = moment(E, s.int("start"), sk)
    s.range = period(E, s, "range", ek)
    s.fo = s.int("float_offset")
    s.by = bool(s.choose("by", 2))
    s.max = (None, 5)[s.choose("max?", 2)]
    s.fresh = s.cached = None
    o = rule(E, s)
    if s.by:
        o.slots["mByMonth"] = E.plist([1])
    if s.choose("cache", 3) == 0:
        k = s.choose("state", 2)
        o.slots.update(mRecurrences=E.plist([]) if k else None, mFullyCached=False)
    else:
        # an earlier expansion of the same rule for any start, range end and offset
        csk, cek = sym_kind(E, s, "cache.start"), sym_kind(E, s, "cache.upto")
        full = s.bool("cache.full")
        c = Made(E, s.int("cache.start"), csk, cek, s.int("cache.fo"), s.int("cache.upto"), full)
        s.cached = c
        o.slots.update(mCached=True, mFullyCached=full, mRecurrences=E.plist(c), mCacheStart=moment(E, s.int("cache.start"), csk), mCacheUpto=moment(E, s.int("cache.upto"), cek),
                       mCacheFloatOffset=s.int("cache.fo"))
    s.rule = o
    s.items = E.plist([])
    s.start_key = s.start.slots["key"]
    s.wanted = signature(E, s.start_key, sk, ek, s.fo)
    return [o, s.start, s.range, s.items, s.fo, s.max]


def expand_step(E, s, ctx, recs):
    ps = [p for o in recs for p in recs[o]]
    if not ctx or not isinstance(ctx[-1][0], Made):
        return
    al, x, old = ctx[-1]
    if s.counting(E, recs):
        return
    k = x.slots["key"]
    inr = And(k >= s.range.slots["lo"], k < s.range.slots["hi"])
    E.prove("an instance is returned exactly if it is in the range", Iff(len(ps) == 1, inr) if len(ps) < 2 else False)
    for p in ps:
        E.prove("the instance itself", p[0] == "item" and p[1].slots["key"] == k and all(a is b for a, b in zip(kind_of(p[1]), kind_of(x))))
        E.prove("what is returned is not shared with the cache", p[1] is not x)


def expand_done(E, s, ctx, al):
    pass


def same_sig(E, sig, wanted):
    return And(*[a == b for a, b in zip(sig, wanted)])


def p_expand(E, s, r, exc):
    o = s.rule.slots
    if exc is not None:
        E.prove("only the instance limit", exc.cls.name == "TooManyInstancesError" and s.max is not None)
        E.prove("a failed expansion leaves no answer behind", Or(Not(E.truth_term(o["mCached"])), good_cache(E, s, o)))
        return
    v = s.items.slots["v"]
    src = v.parts[0][1] if isinstance(v, Rec) and len(v.parts) == 1 and v.parts[0][0] == "flat" else None
    E.prove("the result comes from one expansion", isinstance(src, Made))
    if not isinstance(src, Made):
        return
    k = E.fresh_int("any")
    made_fact(E, src, k)
    E.prove("it is an expansion for this start and offset", same_sig(E, src.sig, s.wanted))
    E.prove("it reaches the end of the range", Implies(And(src.inst(k), k < s.range.slots["hi"]), k < src.upto))
    E.prove("the cache holds what it says", good_cache(E, s, o))
    E.prove("the arguments are left alone", And(s.start.slots["key"] == s.start_key, s.range.slots["end"].slots["key"] == s.range.slots["hi"]))


def good_cache(E, s, o):
    m = o["mRecurrences"].slots["v"] if o["mRecurrences"] is not None else None
    if not isinstance(m, Made):
        return Not(E.truth_term(o["mCached"]))
    cs, cu = o["mCacheStart"], o["mCacheUpto"]
    if cs is None or cu is None:
        return Not(E.truth_term(o["mCached"]))
    if cs is s.start or cu is s.range.slots["end"]:
        return False            # shared with the caller, who may change it
    sig = signature(E, cs.slots["key"], kind_of(cs), kind_of(cu), o["mCacheFloatOffset"])
    return Implies(E.truth_term(o["mCached"]), And(same_sig(E, m.sig, sig), cu.slots["key"] <= m.upto, Implies(E.truth_term(o["mFullyCached"]), E.truth_term(m.full))))


def s_expand_(E, s):
    a = s_expand(E, s)

    def counting(E, recs):
        # a list made only to be counted: not the result
        return bool(recs) and s.items.oid not in recs
    s.counting = counting
    return a


add(R + "expand", s_expand_, p_expand, raises=lambda E, s, x: True, step=expand_step, done=expand_done, timeout=300, maxpaths=20000, trusted=DTRUST,
    stubs=dict(DT, **{"func:" + R + "simpleExpand": st_gen(True), "func:" + R + "complexExpand": st_gen(False)}))


# --- changing the rule
SETTERS = {"setFreq": "mFreq", "setUseUntil": "mUseUntil", "setUntil": "mUntil", "setUseCount": "mUseCount", "setCount": "mCount", "setInterval": "mInterval",
           "setByMonth": "mByMonth", "setByMonthDay": "mByMonthDay", "setByYearDay": "mByYearDay", "setByDay": "mByDay", "setBySetPos": "mBySetPos"}


def s_set(field):
    def f(E, s):
        s.rec = E.plist([1])
        o = rule(E, s, mCached=s.bool("cached"), mFullyCached=s.bool("full"), mRecurrences=s.rec if s.choose("list", 2) else None)
        if field in BYS:
            old = None if s.choose("had", 2) == 0 else E.plist(Vals(z3.Const("old", SEQ)))
            new = E.plist(Vals(z3.Const("new", SEQ)))
        elif field == "mUntil":
            old = None if s.choose("had", 2) == 0 else moment(E, s.int("old"), sym_kind(E, s, "old"))
            new = moment(E, s.int("new"), sym_kind(E, s, "new"))
        elif field in ("mUseUntil", "mUseCount"):
            old, new = s.bool("old"), s.bool("new")
        else:
            old, new = s.int("old"), s.int("new")
        o.slots[field] = old
        s.was, s.new, s.o, s.had = old, new, o, (o.slots["mCached"], o.slots["mFullyCached"])
        s.before = dict(o.slots)
        return [o, new]
    return f


def p_set(field):
    def f(E, s, r, exc):
        o = s.o.slots
        v = o[field]
        if field in BYS:
            E.prove("the part is set", v is not None and v.slots["v"].sym_eq(E, s.new.slots["v"]))
            E.prove("the caller's list is not kept", v is not s.new)
            same = s.was is not None and s.was.slots["v"].sym_eq(E, s.new.slots["v"])
        elif field == "mUntil":
            E.prove("the part is set", And(v.slots["key"] == s.new.slots["key"], *[v.slots[k] == s.new.slots[k] for k in KIND]))
            same = s.was is not None and And(s.was.slots["key"] == s.new.slots["key"], *[s.was.slots[k] == s.new.slots[k] for k in KIND])
        else:
            E.prove("the part is set", E.eq(v, s.new))
            same = E.eq(s.was, s.new)
        E.prove("a change drops what was cached", Or(same, And(Not(E.truth_term(o["mCached"])), Not(E.truth_term(o["mFullyCached"])))))
        E.prove("nothing else changes", all(o[k] is s.before[k] for k in s.before if k not in (field, "mCached", "mFullyCached", "mRecurrences", "mCacheStart", "mCacheUpto", "mCacheFloatOffset")))
    return f


for fn, field in sorted(SETTERS.items()):
    add(R + fn, s_set(field), p_set(field), stubs=DT)


# --- stepping through a rule without parts.  The candidates are RAW(0) = the start, RAW(1), ... one
# interval apart; VALID says which of them exist; COUNTV(n) of the first n do.
RAW = z3.Function("candidate", I, I)
VALID = z3.Function("candidate_exists", I, B)
COUNTV = z3.Function("existing_before", I, I)


class Acc(object):
    """a list that is only appended to: how many were appended"""

    def __init__(self, count, last=None):
        self.count = count
        self.last = last

    def sym_append(self, E, o, x):
        E.S.on_append(E, self, x)
        E.setslot(o, "v", Acc(self.count + 1, x.slots["key"]))

    def sym_len(self, E):
        return self.count

    def sym_iter(self, E, *a):
        raise Unsupported("the instances are read back")

    def sym_havoc(self, E, base):
        n = E.fresh_int("appended")
        E.assume(n >= 0)
        return Acc(n, E.fresh_int("last"))


def at(E, o, n):
    E.setslot(o, "idx", n)
    E.setslot(o, "key", RAW(n))
    E.fact(z3.And(RAW(n) < RAW(n + 1), COUNTV(n + 1) == COUNTV(n) + z3.If(VALID(n), 1, 0)))


def st_recur(E, slots):
    s = E.S
    o = slots["self"]
    E.prove("call: the rule's frequency and interval", And(E.eq(slots["freq"], s.freq), E.eq(slots["interval"], s.interval)), "pre")
    if s.simple:
        E.prove("call: dates that do not exist are not adjusted", slots["allow_invalid"] is True, "pre")
    n = E.z(o.slots["idx"])
    E.fact(z3.And(RAW(n) < RAW(n + 1), COUNTV(n + 1) == COUNTV(n) + z3.If(VALID(n), 1, 0)))
    at(E, o, n + 1)
    return None


def st_invalid(E, slots):
    return z3.Not(VALID(E.z(slots["self"].slots["idx"])))


def st_floating(E, slots):
    a = slots["self"].slots
    return And(Not(a["mTZUTC"]), Not(a["mDateOnly"]), a["mTZID"] == 0)


def st_settz(E, slots):
    E.prove("call: no zone", slots["tzid"] is None, "pre")
    E.setslot(slots["self"], "mTZID", 0)
    E.setslot(slots["self"], "mTZUTC", False)
    return None


def st_offset(E, slots):
    E.setslot(slots["self"], "key", slots["self"].slots["key"] + E.z(slots["diff_seconds"]))
    return None


def stepping(E, s):
    s.freq, s.interval = s.int("freq", 0, 6), s.int("interval", 1)
    sk = sym_kind(E, s, "start")
    s.start = moment(E, RAW(z3.IntVal(0)), sk)
    s.start.slots["idx"] = z3.IntVal(0)
    E.assume(And(VALID(z3.IntVal(0)), COUNTV(z3.IntVal(0)) == 0))
    s.range = period(E, s, "range", sym_kind(E, s, "range.end"))
    s.fo = s.int("float_offset")
    mode = s.choose("limit", 3)
    s.usecount, s.useuntil = mode == 1, mode == 2
    s.count = s.int("count", 1)
    s.until = moment(E, s.int("until"), sym_kind(E, s, "until"))
    s.limit = If(E.truth_term(st_floating(E, {"self": s.start})), s.until.slots["key"] + s.fo, s.until.slots["key"])
    s.max = s.int("maxInstances", 1) if s.choose("max?", 2) else None
    s.out = E.plist(Acc(z3.IntVal(0), z3.IntVal(0)))
    s.rule = rule(E, s, mFreq=s.freq, mInterval=s.interval, mUseCount=s.usecount, mUseUntil=s.useuntil, mCount=s.count, mUntil=s.until if s.useuntil else None)
    s.before = dict(s.rule.slots)


STEP = dict(DT, **{"func:" + D + "recur": st_recur, "func:" + D + "invalid": st_invalid, "func:" + D + "floating": st_floating,
                   "func:" + D + "setTimezoneID": st_settz, "func:" + D + "offsetSeconds": st_offset})


def s_simple(E, s):
    stepping(E, s)
    s.simple = True
    s.stepper = None

    def on_append(E, acc, x):
        i = E.z(x.slots["idx"])
        E.prove("instances are existing dates of the rule, none left out before", And(VALID(i), COUNTV(i) == acc.count, x.slots["key"] == RAW(i)))
        E.prove("no instance after the range", RAW(i) < s.range.slots["hi"])
        if s.usecount:
            E.prove("no more instances than the count", acc.count < s.count)
        if s.useuntil:
            E.prove("no instance but the start after the end date", Or(i == 0, RAW(i) <= s.limit))
        E.prove("the instance has the kind of the start", all(a is b for a, b in zip(kind_of(x), kind_of(s.start))))
    s.on_append = on_append
    return [s.rule, s.start, s.range, s.out, s.fo, s.max]


def iterators(E, frame):
    return sorted(n for n, v in frame.slots.items() if isinstance(v, Obj) and "idx" in v.slots)


def simple_inv(E, s, stmt, frame):
    from .text import loop_names
    out = []

    def acc():
        return s.out.slots["v"].count
    for n in iterators(E, frame):
        if frame.slots[n] is s.start:
            continue
        out.append(("%s is a candidate" % n, lambda L, n=n: And(L.var(n).slots["idx"] >= 0, L.var(n).slots["key"] == RAW(E.z(L.var(n).slots["idx"])))))
        out.append(("%s exists" % n, lambda L, n=n: VALID(E.z(L.var(n).slots["idx"]))))
        out.append(("everything before %s was added" % n, lambda L, n=n: COUNTV(E.z(L.var(n).slots["idx"])) == acc()))
        out.append(("%s is the start or not after the end date" % n, lambda L, n=n: Or(Not(s.useuntil), L.var(n).slots["idx"] == 0, RAW(E.z(L.var(n).slots["idx"])) <= s.limit)))
        out.append(("%s is past the start" % n, lambda L, n=n: L.var(n).slots["idx"] >= 1))
    out.append(("the count is not reached", lambda L: Or(Not(s.usecount), acc() < s.count)))
    out.append(("within the limit", lambda L: True if s.max is None else acc() <= s.max))
    for n in sorted(x for x, v in frame.slots.items() if is_int(v) and not isinstance(v, bool) and v is not s.fo and v is not s.max):
        for d in (-1, 0, 1):
            out.append(("%s counts the instances (%d)" % (n, d), lambda L, n=n, d=d: L.var(n) == acc() + d))
            out.append(("%s counts the instances when there is a count (%d)" % (n, d), lambda L, n=n, d=d: Or(Not(s.usecount), L.var(n) == acc() + d)))
    return out


def p_simple(E, s, r, exc):
    c = s.out.slots["v"].count
    E.prove("the rule and the start are left alone", And(all(s.rule.slots[k] is s.before[k] for k in s.before), s.start.slots["key"] == RAW(z3.IntVal(0))))
    if exc is not None:
        E.prove("only the instance limit, when it is exceeded", exc.cls.name == "TooManyInstancesError" and s.max is not None and c > s.max)
        return
    E.prove("the instance limit holds", True if s.max is None else c <= s.max)
    # where the stepping stopped: the last candidate looked at
    n = s.seen
    full = E.truth_term(r)
    E.prove("everything before the last candidate looked at was added", And(VALID(n), COUNTV(n) == c) if not s.usecount else Implies(Not(full), And(VALID(n), COUNTV(n) == c)))
    E.prove("complete only when the count or the end date is reached", Implies(full, Or(And(s.usecount, c == s.count), And(s.useuntil, RAW(n) > s.limit))))
    E.prove("not complete only when the range ends first", Implies(Not(full), RAW(n) >= s.range.slots["hi"]))


def p_simple_(E, s, r, exc):
    s.seen = E.z(getattr(s, "looked", 0))
    p_simple(E, s, r, exc)


add(R + "simpleExpand", s_simple, p_simple_, raises=lambda E, s, x: True, loops=[simple_inv], timeout=300, trusted=DTRUST + ("DateTime.recur moves forward by the interval (proved in C02)",),
    stubs=STEP)


# --- stepping through a rule with parts.  The set of dates for candidate m is SET(m), sorted, without
# repeats; PRE(m, k) of the dates before the k-th of SET(m) count as instances (with a COUNT the start
# counts first, whether or not it is in a set).
SET = z3.Function("dates_of", I, SEQ)
PRE = z3.Function("counted_before", I, I, I)


class Raw(object):
    """the dates of a candidate as the rule parts give them: not in order, perhaps repeated"""

    def __init__(self, m):
        self.m = m

    def sym_iter(self, E, *a):
        raise Unsupported("dates taken as the rule parts gave them")


class Dates(SymSeq):
    __slots__ = ("m",)


GENSET = ("generateSecondlySet", "generateMinutelySet", "generateHourlySet", "generateDailySet", "generateWeeklySet", "generateMonthlySet", "generateYearlySet")


def st_genset(freq):
    def f(E, slots):
        s = E.S
        vs = [v for k, v in slots.items() if k != "self"]
        it = [v for v in vs if isinstance(v, Obj) and "idx" in v.slots]
        out = [v for v in vs if isinstance(v, Obj) and v.slots.get("v") == []]
        E.prove("call: the parts are applied to a candidate, into an empty list", len(it) == 1 and len(out) == 1, "pre")
        E.prove("call: the parts are applied as the frequency says", s.freq == freq, "pre")
        E.setslot(out[0], "v", Raw(E.z(it[0].slots["idx"])))
        return None
    return f


def st_sorted(E, slots):
    v = slots["dates"].slots["v"]
    if not isinstance(v, Raw):
        E.unsup("sorting something else")
    skind = kind_of(E.S.start)

    def mk(t):
        o = moment(E, t, skind, ref=t)
        o.slots["member"] = v.m
        return o
    d = Dates("moment", SET(v.m), mk)
    d.m = v.m
    return E.plist(d)


def counted(s, m, k):
    key = SET(m)[k]
    return z3.And(key >= E_key(s), z3.Not(z3.And(z3.BoolVal(s.usecount), PRE(m, k) == 1, key == E_key(s))))


def E_key(s):
    return RAW(z3.IntVal(0))


def pre_fact(E, s, m, k):
    E.fact(PRE(m, k + 1) == PRE(m, k) + z3.If(counted(s, m, k), 1, 0))


def st_recur_sets(E, slots):
    s = E.S
    o = slots["self"]
    E.prove("call: the rule's frequency and interval", And(E.eq(slots["freq"], s.freq), E.eq(slots["interval"], s.interval)), "pre")
    E.prove("call: candidates that do not exist are not adjusted", slots["allow_invalid"] is True, "pre")
    n = E.z(o.slots["idx"])
    E.fact(z3.And(RAW(n) < RAW(n + 1), PRE(n + 1, 0) == PRE(n, z3.Length(SET(n)))))
    E.setslot(o, "idx", n + 1)
    E.setslot(o, "key", RAW(n + 1))
    return None


def s_complex(E, s):
    stepping(E, s)
    s.freq = s.choose("freq", 7)
    E.setslot(s.rule, "mFreq", s.freq)
    s.before = dict(s.rule.slots)
    s.simple = False
    s.one = 1 if s.usecount else 0
    E.assume(PRE(z3.IntVal(0), z3.IntVal(0)) == s.one)
    s.pos = None

    def on_append(E, acc, x):
        ok = "member" in x.slots and s.pos is not None
        E.prove("instances are dates the rule parts gave", ok)
        if not ok:
            return
        m, k = x.slots["member"], s.pos
        pre_fact(E, s, m, k)
        E.prove("instances are the dates of the rule, in order, none left out before", And(x.slots["key"] == SET(m)[k], counted(s, m, k), acc.count + s.one == PRE(m, k)))
        E.prove("no instance after the range", x.slots["key"] < s.range.slots["hi"])
        if s.usecount:
            E.prove("no more instances than the count", acc.count + 1 < s.count)
        if s.useuntil:
            E.prove("no instance after the end date", x.slots["key"] <= s.limit)
        E.prove("the instance has the kind of the start", all(a is b for a, b in zip(kind_of(x), kind_of(s.start))))
    s.on_append = on_append
    return [s.rule, s.start, s.range, s.out, s.fo, s.max]


def complex_inv(E, s, stmt, frame):
    out = []

    def acc():
        return s.out.slots["v"].count
    for n in iterators(E, frame):
        if frame.slots[n] is s.start:
            continue
        out.append(("%s is a candidate" % n, lambda L, n=n: And(L.var(n).slots["idx"] >= 0, L.var(n).slots["key"] == RAW(E.z(L.var(n).slots["idx"])))))
        out.append(("everything before the dates of %s was added" % n, lambda L, n=n: L.k if False else (PRE(E.z(L.var(n).slots["idx"]), 0) == acc() + s.one)))

    def position(L):
        if not isinstance(L.seq, Dates):
            return None
        s.pos = L.k
        return True
    out.append(("position", position))

    def upto(L):
        if not isinstance(L.seq, Dates):
            return None
        pre_fact(E, s, L.seq.m, L.k)
        return PRE(L.seq.m, E.z(L.k)) == acc() + s.one
    out.append(("everything before the current date was added", upto))
    out.append(("the count is not reached", lambda L: Or(not s.usecount, acc() + 1 < s.count)))
    out.append(("within the limit", lambda L: True if s.max is None else acc() <= s.max))
    for n in sorted(x for x, v in frame.slots.items() if is_int(v) and not isinstance(v, bool) and v is not s.fo and v is not s.max):
        for d in (0, 1):
            out.append(("%s counts the instances (%d)" % (n, d), lambda L, n=n, d=d: L.var(n) == acc() + d))
            out.append(("%s counts the instances when there is a count (%d)" % (n, d), lambda L, n=n, d=d: Or(Not(s.usecount), L.var(n) == acc() + d)))
        out.append(("%s is not used without a count" % n, lambda L, n=n: Or(s.usecount, L.var(n) == 0)))
    return out


def p_complex(E, s, r, exc):
    c = s.out.slots["v"].count
    E.prove("the rule and the start are left alone", And(all(s.rule.slots[k] is s.before[k] for k in s.before), s.start.slots["key"] == RAW(z3.IntVal(0))))
    if exc is not None:
        E.prove("only the instance limit, when it is exceeded", exc.cls.name == "TooManyInstancesError" and s.max is not None and c > s.max)
        return
    E.prove("the instance limit holds", True if s.max is None else c <= s.max)
    full = E.truth_term(r)
    o = getattr(s, "looked_at", None)
    end = s.range.slots["hi"]
    reached = And(s.usecount, c + 1 == s.count)
    if o is None:
        E.prove("complete at once only when the start is all the count allows", And(full, reached))
        return
    if "member" in o:
        m, k = o["member"], s.pos
        here = And(o["key"] == SET(m)[k], PRE(m, k) == c + s.one)
        E.prove("complete only when the count or the end date is reached", Implies(full, Or(reached, And(s.useuntil, o["key"] > s.limit, here))))
        E.prove("not complete only when the dates leave the range, nothing left out before", Implies(Not(full), And(o["key"] >= end, here)))
    else:
        n = E.z(o["idx"])
        E.prove("not complete: the dates of a candidate after the range were all looked at", And(Not(full), RAW(n) >= end, PRE(n, z3.Length(SET(n))) == c + s.one))


def note(o):
    pass


def watch(f):
    def g(E, *a):
        for o in (list(a[0].values()) if isinstance(a[0], dict) else a):
            if isinstance(o, Obj) and ("idx" in o.slots or "member" in o.slots) and o is not E.S.start:
                E.S.looked_at = dict(o.slots)
        return f(E, *a)
    return g


WPERIOD = ghost("period", isDateAfterPeriod=watch(p_after), isDateWithinPeriod=watch(p_within), isDateBeforePeriod=lambda E, o, d: d.slots["key"] < o.slots["lo"],
                getEnd=lambda E, o: o.slots["end"], getStart=lambda E, o: o.slots["start"])


def s_complex_(E, s):
    a = s_complex(E, s)
    o = E.obj(WPERIOD)
    o.slots.update(s.range.slots)
    s.range = o
    s.start.slots.pop("idx")
    a[2] = o
    return a


def st_dup_first(E, slots):
    o = st_dup(E, slots)
    if slots["self"] is E.S.start:
        o.slots["idx"] = z3.IntVal(0)
    return o


CSTUBS = dict(STEP, **{"func:" + D + "compareDateTime": watch(st_cmp), "func:" + D + "recur": st_recur_sets, "func:" + D + "duplicate": st_dup_first,
                       "func:" + R + "sortUnique": st_sorted})
CSTUBS.update(("func:" + R + g, st_genset(i)) for i, g in enumerate(GENSET))
add(R + "complexExpand", s_complex_, p_complex, raises=lambda E, s, x: True, loops=[complex_inv], timeout=300, trusted=DTRUST + ("generate*Set put the dates of one period in a list (C13)",), stubs=CSTUBS)


# --- the dates of one candidate in order, each once.  ONCE(n): the first n of the sorted dates without
# those equal to the one before.
ONCE = z3.Function("once", I, SEQ)
SORTED = z3.Const("dates_sorted", SEQ)


def s_unique(E, s):
    s.kind = sym_kind(E, s, "start")
    s.given = Vals(z3.Const("dates", SEQ), lambda E, t: moment(E, t, s.kind, ref=t), lambda E, x: x.slots["key"])
    s.dates = E.plist(s.given)
    E.fact(ONCE(z3.IntVal(0)) == z3.Empty(SEQ))
    return [s.obj(RC), s.dates]


def st_sorted_call(E, items, kw):
    s = E.S
    E.prove("what is sorted is the dates given", items[0] == "abs" and items[1] is s.given)
    k = E.fresh_int("date")
    if kw.get("key") is not None:
        r = E.call(kw["key"], [moment(E, k, s.kind)], {})
        E.prove("sorted by time", E.eq(r, k))
    elif kw.get("cmp") is not None:
        j = E.fresh_int("date")
        r = E.z(E.call(kw["cmp"], [moment(E, k, s.kind), moment(E, j, s.kind)], {}))
        E.prove("sorted by time", And(Iff(r < 0, k < j), Iff(r == 0, k == j)))
    E.prove("sorted upwards", not kw.get("reverse"))
    i = E.fresh_int("i")
    s.sorted = SymSeq("moment", SORTED, lambda t: moment(E, t, s.kind, ref=t))
    return E.plist(s.sorted)


def unique_inv(E, s, stmt, frame):
    out = []

    def once(L):
        k = E.z(L.k)
        E.fact(ONCE(k + 1) == z3.If(z3.And(k > 0, SORTED[k] == SORTED[k - 1]), ONCE(k), z3.Concat(ONCE(k), z3.Unit(SORTED[k]))))
        return ONCE(k)

    def last(L):
        t = once(L)
        return Or(And(L.k == 0, z3.Length(t) == 0), And(L.k > 0, z3.Length(t) > 0, t[z3.Length(t) - 1] == SORTED[E.z(L.k) - 1]))
    out.append(("the last date kept is the last date seen", last))

    def term(v):
        v = v.slots["v"]
        if v == []:
            return z3.Empty(SEQ)
        return v.term
    for n in sorted(n for n, v in frame.slots.items() if isinstance(v, Obj) and v is not s.dates and isinstance(v.slots.get("v"), (list, Vals))):
        out.append(("%s holds each date seen once, in order" % n, lambda L, n=n: term(L.var(n)) == once(L)))
    return out


def p_unique(E, s, r, exc):
    v = r.slots["v"] if isinstance(r, Obj) else None
    if not isinstance(v, (Vals, SymSeq)):
        E.prove("the dates, each once, in order", v == [] and z3.Length(SORTED) == 0)
        return
    E.prove("the dates, each once, in order", v.term == ONCE(z3.Length(SORTED)))
    E.prove("the list given is left alone", s.dates.slots["v"] is s.given)


def unique_kind(E, s, base, cur):
    return Vals(E.fresh_seq(base), s.given.wrap, s.given.ref)


add(R + "sortUnique", s_unique, p_unique, props=("C13", "C14"), loops=[unique_inv], list_kind=unique_kind, trusted=DTRUST + ("sorted() of the language",), stubs=dict(DT, sorted=st_sorted_call))
