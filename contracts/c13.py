"""C13: every rule part expands or limits a set of dates as specified.  The functions work on lists of
unknown length: each is verified for an arbitrary date of its input and an arbitrary listed value
(vc/abslist.py), the order of the parts for every combination of parts present."""
import z3
from vc.values import *
from vc.verify import Contract
from vc.abslist import AbsList, Rec
from .spec import *
from .c01 import D, fld, FIELDS, TZSTUB
from .c06 import isoweek, near, ylen, nth, closed, rn

CONTRACTS = []
R = "pycalendar.icalendar.recurrence.Recurrence."
BYS = ("mBySeconds", "mByMinutes", "mByHours", "mByDay", "mByMonthDay", "mByYearDay", "mByWeekNo", "mByMonth", "mBySetPos")


def add(*a, **k):
    k.setdefault("stubs", TZSTUB)
    k.setdefault("props", ("C13",))
    k.setdefault("replay", False)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


def rule(E, s, **k):
    o = s.obj("pycalendar.icalendar.recurrence.Recurrence", mFreq=0, mUseCount=False, mCount=0, mUseUntil=False, mUntil=None, mInterval=1, mWeekstart=1,
              mCached=False, mCacheStart=None, mCacheUpto=None, mFullyCached=False, mRecurrences=None, **dict((b, None) for b in BYS))
    o.slots.update(k)
    return o


def intlist(E, name, lo, hi, nonzero=False):
    """an integer list of unknown length with values in lo..hi"""
    mem = z3.Function("in_" + name, z3.IntSort(), z3.BoolSort())

    def ok(v):
        return And(v >= lo, v <= hi, Not(v == 0)) if nonzero else And(v >= lo, v <= hi)

    def has(E, v):
        v = E.z(v)
        E.fact(z3.Implies(mem(v), ok(v)))
        return mem(v)

    def mk(E):
        v = E.fresh_int(name)
        E.assume(z3.And(mem(v), ok(v)))
        return v
    n = E.fresh_int("len_" + name)
    E.assume(n >= 1)
    return AbsList(name, mk, n, has)


def daylist(E, name="mByDay", maxn=53):
    """a list of (ordinal, weekday) pairs"""
    mem = z3.Function("in_" + name, z3.IntSort(), z3.IntSort(), z3.BoolSort())

    def mk(E):
        n, w = E.fresh_int("ord"), E.fresh_int("wd")
        E.assume(z3.And(mem(n, w), n >= -maxn, n <= maxn, w >= 0, w <= 6))
        return (n, w)
    n = E.fresh_int("len_" + name)
    E.assume(n >= 1)
    l = AbsList(name, mk, n, lambda E, v: mem(E.z(v[0]), E.z(v[1])))
    l.pair = lambda n, w: mem(n if isz(n) else z3.IntVal(n), w)
    return l


def arbitrary_date(E, valid=True):
    o = E.obj(E.find_qual("pycalendar.datetime.DateTime"))
    f = dict((k, E.fresh_int(k)) for k in FIELDS)
    if valid:
        E.assume(valid_date(E, f["mYear"], f["mMonth"], f["mDay"]))
    else:
        E.assume(z3.And(f["mMonth"] >= 1, f["mMonth"] <= 12, f["mDay"] >= 1, f["mDay"] <= 31))
    E.assume(valid_time(f["mHours"], f["mMinutes"], f["mSeconds"]))
    k = E.choose(2, "kind")
    o.slots.update(f, mDateOnly=False, mTZUTC=k == 1, mTZID=None, mTZOffset=None, mPosixTimeCached=False, mPosixTime=0)
    return o


def dates(E, valid=True):
    n = E.fresh_int("len_dates")
    E.assume(n >= 0)
    return AbsList("dates", lambda E: arbitrary_date(E, valid), n)


def find(ctx, name):
    for al, x, old in ctx:
        if al.name == name:
            return x, old
    return None, None


def parts_of(recs):
    return [p for o in recs for p in recs[o]]


def collected(E, s, r, exc):
    v = r.slots["v"]
    E.prove("the result is what all the input dates contribute",
            isinstance(v, Rec) and len(v.parts) == 1 and v.parts[0][0] == "flat" and v.parts[0][1] in s.lists)


def setup(field, mklist, valid=True, **k):
    def f(E, s):
        s.by = mklist(E)
        s.dates = dates(E, valid)
        s.lists = (s.dates, s.by)
        o = rule(E, s, **dict(k, **{field: E.plist(s.by)}))
        return [o, E.plist(s.dates)]
    return f


def same_but(E, a, b, but=()):
    """a agrees with b on every field not named"""
    E.prove("everything else as in the input date", And(*[a.slots[k] == b.slots[k] for k in FIELDS if k not in but] +
                                                        [a.slots["mTZUTC"] == b.slots["mTZUTC"], a.slots["mTZID"] is b.slots["mTZID"], a.slots["mDateOnly"] == b.slots["mDateOnly"]]))


# --- limits
def limit(fn, field, mklist, match, exists, timeout=150):
    def step(E, s, ctx, recs):
        d, old = find(ctx, "dates")
        if d is None:
            E.prove("the input dates are gone through", False)
            return
        al, m, _ = ctx[-1]
        ps = parts_of(recs)
        if al is s.by:
            E.prove("a value passed over does not match", Not(match(E, old, m)))
            E.prove("a value passed over keeps nothing", not ps)
            return
        if ps:
            E.prove("kept only if a listed value matches", exists(E, s.by, old))
            E.prove("kept once", len(ps) == 1 and ps[0][0] == "item")
            if ps[0][0] == "item":
                same_but(E, ps[0][1], old)
        else:
            E.prove("dropped only if no listed value matches", Not(exists(E, s.by, old)))

    def done(E, s, ctx, al):
        d, old = find(ctx, "dates")
        if al is s.by and d is not None:
            E.assume(Not(exists(E, s.by, old)))
    add(R + fn, setup(field, mklist), collected, step=step, done=done, timeout=timeout)


def by_field(k):
    return (lambda E, d, m: d.slots[k] == m), (lambda E, L, d: L.mem(E, d.slots[k]))


def yd(E, d):
    f = fld(d)
    return rn(E, d) - dn(E, f[0]) + 1


def week(E, d):
    near(E, d.slots["mYear"])
    return isoweek(E, d.slots["mYear"], rn(E, d))


def mlast(E, d):
    return mlen(E, d.slots["mMonth"], d.slots["mYear"])


def ords(E, d):
    """(weekday, how manieth from the front, from the back)"""
    x = d.slots["mDay"]
    return fmod(rn(E, d) + 4, 7), fdiv(x - 1, 7) + 1, -(fdiv(mlast(E, d) - x, 7) + 1)


def day_match(E, d, m):
    w, a, b = ords(E, d)
    return And(m[1] == w, Or(m[0] == 0, m[0] == a, m[0] == b))


def day_exists(E, L, d):
    w, a, b = ords(E, d)
    return Or(L.pair(0, w), L.pair(a, w), L.pair(b, w))


limit("byMonthLimit", "mByMonth", lambda E: intlist(E, "mByMonth", 1, 12), *by_field("mMonth"))
limit("byHourLimit", "mByHours", lambda E: intlist(E, "mByHours", 0, 23), *by_field("mHours"))
limit("byMinuteLimit", "mByMinutes", lambda E: intlist(E, "mByMinutes", 0, 59), *by_field("mMinutes"))
limit("bySecondLimit", "mBySeconds", lambda E: intlist(E, "mBySeconds", 0, 60), *by_field("mSeconds"))
limit("byMonthDayLimit", "mByMonthDay", lambda E: intlist(E, "mByMonthDay", -31, 31, True),
      lambda E, d, m: Or(d.slots["mDay"] == m, d.slots["mDay"] - mlast(E, d) - 1 == m),
      lambda E, L, d: Or(L.mem(E, d.slots["mDay"]), L.mem(E, d.slots["mDay"] - mlast(E, d) - 1)))
limit("byYearDayLimit", "mByYearDay", lambda E: intlist(E, "mByYearDay", -366, 366, True),
      lambda E, d, m: Or(m == yd(E, d), m == yd(E, d) - ylen(E, d.slots["mYear"]) - 1),
      lambda E, L, d: Or(L.mem(E, yd(E, d)), L.mem(E, yd(E, d) - ylen(E, d.slots["mYear"]) - 1)))
limit("byWeekNoLimit", "mByWeekNo", lambda E: intlist(E, "mByWeekNo", 1, 53), lambda E, d, m: m == week(E, d), lambda E, L, d: L.mem(E, week(E, d)))
limit("byDayLimit", "mByDay", lambda E: daylist(E, maxn=5), day_match, day_exists)


# --- expansions
def expand(fn, field, mklist, check, valid=True, timeout=150, count=None, **k):
    """check(E, s, date, value, items): what one date and one listed value contribute"""
    def step(E, s, ctx, recs):
        d, old = find(ctx, "dates")
        m, _ = find(ctx, s.by.name)
        ps = parts_of(recs)
        if d is not None and m is not None:
            if not all(p[0] == "item" for p in ps):
                E.prove("a date and a value contribute dates", False)
                return
            check(E, s, old, m, [p[1] for p in ps])
            for p in ps:
                E.prove("a new date, not the input itself", p[1] is not d)
        else:
            other = s.by if d is not None else s.dates
            E.prove("every date is combined with every listed value", len(ps) == 1 and ps[0][0] == "flat" and ps[0][1] is other)
    add(R + fn, setup(field, mklist, valid, **k), collected, step=step, timeout=timeout)


def one(E, items):
    E.prove("exactly one date for a date and a value", len(items) == 1)
    return items[0] if items else None


def set_field(k):
    def check(E, s, d, m, items):
        x = one(E, items)
        if x is not None:
            E.prove("the listed value is set", x.slots[k] == m)
            same_but(E, x, d, (k,))
    return check


expand("byMonthExpand", "mByMonth", lambda E: intlist(E, "mByMonth", 1, 12), set_field("mMonth"), valid=False)
expand("byHourExpand", "mByHours", lambda E: intlist(E, "mByHours", 0, 23), set_field("mHours"), valid=False)
expand("byMinuteExpand", "mByMinutes", lambda E: intlist(E, "mByMinutes", 0, 59), set_field("mMinutes"), valid=False)
expand("bySecondExpand", "mBySeconds", lambda E: intlist(E, "mBySeconds", 0, 60), set_field("mSeconds"), valid=False)


def c_md(E, s, d, m, items):
    x = one(E, items)
    if x is not None:
        E.prove("the day of the month listed, from the front or the back", x.slots["mDay"] == If(m > 0, m, mlast(E, d) + 1 + m))
        same_but(E, x, d, ("mDay",))


expand("byMonthDayExpand", "mByMonthDay", lambda E: intlist(E, "mByMonthDay", -31, 31, True), c_md, valid=False)


def c_yd(E, s, d, m, items):
    x = one(E, items)
    if x is None:
        return
    y = d.slots["mYear"]
    L = ylen(E, y)
    want = dn(E, y) + If(m > 0, m - 1, L + m)
    there = And(m <= L, m >= -L)
    ok = valid_date(E, *fld(x)[:3])
    E.prove("the day of the year listed", Implies(there, And(ok, rn(E, x) == want)))
    E.prove("nothing valid for a day the year does not have", Implies(Not(there), Not(ok)))
    same_but(E, x, d, FIELDS[:3])


expand("byYearDayExpand", "mByYearDay", lambda E: intlist(E, "mByYearDay", -366, 366, True), c_yd)


def c_weekly(E, s, d, m, items):
    n, w = m
    if not items:
        E.prove("left out only for a numbered weekday", Not(n == 0))
        return
    x = one(E, items)
    ws = s.inputs["weekstart"]
    E.prove("only weekdays without a number", n == 0)
    E.prove("valid", valid_date(E, *fld(x)[:3]))
    got, at = rn(E, x), rn(E, d)
    E.prove("the weekday listed", fmod(got + 4, 7) == w)
    start = at - fmod(at + 4 - ws, 7)
    E.prove("in the same week", And(got >= start, got <= start + 6))
    same_but(E, x, d, FIELDS[:3])


def s_weekly(E, s):
    ws = s.int("weekstart", 0, 6)
    a = setup("mByDay", lambda E: daylist(E))(E, s)
    a[0].slots["mWeekstart"] = ws
    return a


expand("byDayExpandWeekly", "mByDay", lambda E: daylist(E), c_weekly)
CONTRACTS[-1].setup = s_weekly


def c_monthly(E, s, d, m, items):
    n, w = m
    y, mo = d.slots["mYear"], d.slots["mMonth"]
    first = day(E, y, mo, 1)
    L = mlen(E, mo, y)
    last = first + L - 1
    numbered = E.branch(Not(n == 0))
    rest = [d.slots[k] for k in FIELDS[3:]]
    if numbered:
        x = one(E, items)
        if x is not None:
            R_ = first + x.slots["mDay"] - 1
            E.prove("the month is kept", And(x.slots["mYear"] == y, x.slots["mMonth"] == mo))
            closed(E, R_, first, last, n, w)
            nth(E, R_, first, last, n, w)
            same_but(E, x, d, ("mDay",))
        return
    w1 = fmod(w - (first + 4), 7)       # days from the first of the month to the first such day
    for i, x in enumerate(items):
        E.prove("the month is kept", And(x.slots["mYear"] == y, x.slots["mMonth"] == mo))
        E.prove("the %d. such day" % (i + 1), x.slots["mDay"] == 1 + w1 + 7 * i)
        same_but(E, x, d, ("mDay",))
    E.prove("every such day of the month", 1 + w1 + 7 * len(items) > L)


expand("byDayExpandMonthly", "mByDay", lambda E: daylist(E, maxn=5), c_monthly, valid=False, timeout=240)


def sym_range(E, lo, hi):
    """range(lo, hi) as an arbitrary number of it, so that its loop is verified once instead of unrolled"""
    def mk(E):
        i = E.fresh_int("i")
        E.assume(z3.And(i >= lo, i < hi))
        return i
    al = AbsList("range", mk, z3.IntVal(hi - lo))
    al.bounds = (lo, hi)
    return E.plist(al)


def c_yearly(E, s, d, m, items, i=None):
    n, w = m
    y = d.slots["mYear"]
    first = dn(E, y)
    L = ylen(E, y)
    last = first + L - 1
    w1 = first + fmod(w - (first + 4), 7)
    if i is not None:
        E.prove("every such day only for a weekday without a number", n == 0)
        n = i
    elif not E.branch(Not(n == 0)):
        for i, x in enumerate(items):
            E.prove("the %d. such day" % (i + 1), And(valid_date(E, *fld(x)[:3]), rn(E, x) == w1 + 7 * i))
            same_but(E, x, d, FIELDS[:3])
        E.prove("every such day of the year", w1 + 7 * len(items) > last)
        return
    want = If(n > 0, w1 + 7 * (n - 1), last - fmod(last + 4 - w, 7) + 7 * (n + 1))
    there = And(want >= first, want <= last)
    if items:
        x = one(E, items)
        E.prove("valid", valid_date(E, *fld(x)[:3]))
        E.prove("the day named", rn(E, x) == want)
        E.prove("only if it is in the year", there)
        same_but(E, x, d, FIELDS[:3])
    else:
        E.prove("left out only if the year does not have it", Not(there))


def yearly_step(E, s, ctx, recs):
    d, old = find(ctx, "dates")
    m, _ = find(ctx, s.by.name)
    i, _ = find(ctx, "range")
    ps = parts_of(recs)
    if d is None or m is None:
        other = s.by if d is not None else s.dates
        E.prove("every date is combined with every listed value", len(ps) == 1 and ps[0][0] == "flat" and ps[0][1] is other)
    elif i is not None and ctx[-1][0].name == "range" or all(p[0] == "item" for p in ps):
        E.prove("a date and a value contribute dates", all(p[0] == "item" for p in ps))
        items = [p[1] for p in ps if p[0] == "item"]
        c_yearly(E, s, old, m, items, i)
        for x in items:
            E.prove("a new date, not the input itself", x is not d)
    else:
        al = ps[0][1] if len(ps) == 1 and ps[0][0] == "flat" else None
        E.prove("every number is tried once", al is not None and al.name == "range")
        if al is None:
            return
        lo, hi = al.bounds
        E.prove("every such day of the year only for a weekday without a number", m[0] == 0)
        y = old.slots["mYear"]
        first = dn(E, y)
        w1 = first + fmod(m[1] - (first + 4), 7)
        E.prove("from the first such day", lo == 1)
        E.prove("to the last such day", w1 + 7 * (hi - 1) > first + ylen(E, y) - 1)


add(R + "byDayExpandYearly", setup("mByDay", lambda E: daylist(E)), collected, step=yearly_step, timeout=400, stubs=dict(TZSTUB, range=sym_range))


def c_week(E, s, d, m, items):
    y = d.slots["mYear"]
    near(E, y)
    j1 = dn(E, y)
    iso = lambda R_: fmod(R_ + 3, 7) + 1
    w1 = j1 - iso(j1) + 1 + If(iso(j1) > 4, 7, 0)     # Monday of week 1
    j2 = dn(E, y + 1)
    w2 = j2 - iso(j2) + 1 + If(iso(j2) > 4, 7, 0)     # Monday of week 1 of the next year
    want = w1 + 7 * (m - 1) + iso(rn(E, d)) - 1
    for n_, j, w in (("this", j1, w1), ("next", j2, w2)):
        E.step("week 1 of %s year starts on a Monday" % n_, fmod(w + 3, 7) == 0)
        E.step("and has the 4. of January of %s year" % n_, And(w >= j - 3, w <= j + 3))
    if items:
        x = items[0]
        yx = x.slots["mYear"]
        E.step("the same weekday", iso(rn(E, x)) == iso(rn(E, d)))
        E.step("whole weeks from the first week", fmod(rn(E, x) - want, 7) == 0)
        T = rn(E, x) - iso(rn(E, d)) + 4
        E.step("its Thursday", And(T >= w1 + 3 - 7 * 3, Implies(T >= j2, T >= w2 + 3), fmod(T - w1 - 3, 7) == 0))
        E.step("its week", m == isoweek(E, yx, rn(E, x)))
        E.step("Thursday in this year", And(T >= j1, T < j2))
        E.step("its week from the first", 7 * (m - 1) == T - w1 - 3)
    if items:
        x = one(E, items)
        E.prove("valid", valid_date(E, *fld(x)[:3]))
        E.prove("the same weekday in the week listed", rn(E, x) == want)
        E.prove("only a week the year has", w1 + 7 * (m - 1) < w2)
        same_but(E, x, d, FIELDS[:3])
    else:
        E.prove("left out only if the year does not have the week", w1 + 7 * (m - 1) >= w2)


def s_week(E, s):
    s.year_facts = True
    return setup("mByWeekNo", lambda E: intlist(E, "mByWeekNo", 1, 53))(E, s)


expand("byWeekNoExpand", "mByWeekNo", lambda E: intlist(E, "mByWeekNo", 1, 53), c_week, timeout=300)
CONTRACTS[-1].setup = s_week


# --- set positions
def s_setpos(E, s):
    s.by = intlist(E, "mBySetPos", -366, 366, True)
    s.n = E.fresh_int("size")
    E.assume(s.n >= 0)
    s.given = E.plist(dates(E))
    s.lists = (s.by,)
    return [rule(E, s, mBySetPos=E.plist(s.by)), s.given]


def at_index(E, i):
    o = E.obj(E.find_qual("pycalendar.datetime.DateTime"))
    o.slots["index"] = i
    return o


def su_stub(E, slots):
    s = E.S
    E.prove("call: the candidates themselves are sorted", slots["dates"] is s.given, "pre")
    return E.plist(AbsList("sorted", lambda E: None, s.n, at=at_index))


def setpos_step(E, s, ctx, recs):
    p, _ = find(ctx, "mBySetPos")
    ps = parts_of(recs)
    there = Or(And(p > 0, p <= s.n), And(p < 0, -p <= s.n))
    if ps:
        E.prove("a position contributes one date", len(ps) == 1 and ps[0][0] == "item" and "index" in ps[0][1].slots)
        E.prove("only if the set is that large", there)
        E.prove("the date at that position from either end", ps[0][1].slots.get("index") == If(p > 0, p - 1, s.n + p))
    else:
        E.prove("left out only if the set is smaller", Not(there))


add(R + "bySetPosLimit", s_setpos, collected, step=setpos_step, stubs=dict(TZSTUB, **{"func:" + R + "sortUnique": su_stub}))


# --- which parts apply, how, and in what order
class Chain(AbsList):
    def __init__(self, E, ops):
        AbsList.__init__(self, "chain", anydate, E.fresh_int("n"))
        E.assume(self.length >= 0)
        self.ops = ops


def ops_of(E, l):
    v = l.slots["v"] if isinstance(l, Obj) else l
    if isinstance(v, Chain):
        return v.ops
    if isinstance(v, Rec) and len(v.parts) == 1 and v.parts[0][0] == "flat" and isinstance(v.parts[0][1], Chain):
        return v.parts[0][1].ops + ("valid",)       # a comprehension that Contract.step showed to keep the valid ones
    copy = E.S.copies[-1] if len(E.S.copies) == 1 else None
    if isinstance(v, list) and copy is not None:
        if len(v) == 1 and v[0] is copy:
            return ("start", "valid") if E.entailed(z3.Not(copy.slots["bad"])) else ("start",)
        if not v and E.entailed(copy.slots["bad"]):
            return ("start", "valid")
    return ("?",)


def op(name):
    def f(E, slots):
        E.prove("call: on the rule itself", slots["self"] is E.S.args[0], "pre")
        return E.plist(Chain(E, ops_of(E, slots["dates"]) + (name,)))
    return f


def anydate(E):
    o = E.obj(E.find_qual("pycalendar.datetime.DateTime"))
    o.slots["bad"] = E.fresh_bool("invalid")
    return o


def valid_filter(E, f, items, l):
    o = anydate(E)
    E.prove("exactly the dates that exist are kept", Iff(E.truth_term(E.call(f, [o], {})), z3.Not(o.slots["bad"])))
    return E.plist(Chain(E, ops_of(E, l) + ("valid",)))


def gen_step(E, s, ctx, recs):
    x = ctx[-1][1]
    ps = parts_of(recs)
    E.prove("exactly the dates that exist are kept", And(x.slots["bad"] if not ps else Not(x.slots["bad"]),
                                                          not ps or len(ps) == 1 and ps[0][0] == "item" and ps[0][1] is x))


def dup_stub(E, slots):
    E.prove("call: the start is copied", slots["self"] is E.S.start, "pre")
    o = anydate(E)
    E.S.copies.append(o)
    return o


OPS = ["by%s%s" % (n, k) for n in ("Month", "WeekNo", "YearDay", "MonthDay", "Hour", "Minute", "Second") for k in ("Limit", "Expand")] + \
      ["byDayLimit", "byDayExpandYearly", "byDayExpandMonthly", "byDayExpandWeekly", "bySetPosLimit"]
GEN = dict(("func:" + R + n, op(n)) for n in OPS)
GEN["func:" + D + "duplicate"] = dup_stub
GEN["func:" + D + "invalid"] = lambda E, slots: slots["self"].slots["bad"]
GEN["filter"] = valid_filter
FIELDOF = {"Month": "mByMonth", "WeekNo": "mByWeekNo", "YearDay": "mByYearDay", "MonthDay": "mByMonthDay", "Day": "mByDay", "Hour": "mByHours", "Minute": "mByMinutes",
           "Second": "mBySeconds", "SetPos": "mBySetPos"}
TABLE = {   # the standard's table: parts that apply, in order
    "Yearly": ("MonthExpand", "WeekNoExpand", "YearDayExpand", "MonthDayExpand", "Day*", "HourExpand", "MinuteExpand", "SecondExpand"),
    "Monthly": ("MonthLimit", "MonthDayExpand", "Day*", "HourExpand", "MinuteExpand", "SecondExpand"),
    "Weekly": ("MonthLimit", "WeekNoLimit", "DayExpandWeekly", "HourExpand", "MinuteExpand", "SecondExpand"),
    "Daily": ("MonthLimit", "WeekNoLimit", "MonthDayLimit", "DayLimit", "HourExpand", "MinuteExpand", "SecondExpand"),
    "Hourly": ("MonthLimit", "WeekNoLimit", "YearDayLimit", "MonthDayLimit", "DayLimit", "HourLimit", "MinuteExpand", "SecondExpand"),
    "Minutely": ("MonthLimit", "WeekNoLimit", "YearDayLimit", "MonthDayLimit", "DayLimit", "HourLimit", "MinuteLimit", "SecondExpand"),
    "Secondly": ("MonthLimit", "WeekNoLimit", "YearDayLimit", "MonthDayLimit", "DayLimit", "HourLimit", "MinuteLimit", "SecondLimit"),
}


def expected(freq, have):
    out = ["start"]
    for p in TABLE[freq]:
        if p == "Day*":
            if not have["mByDay"]:
                continue
            if have["mByYearDay"] and freq == "Yearly" or have["mByMonthDay"]:
                out.append("byDayLimit")
            elif freq == "Monthly":
                out.append("byDayExpandMonthly")
            elif have["mByWeekNo"]:
                out.append("byDayExpandWeekly")
            elif have["mByMonth"]:
                out.append("byDayExpandMonthly")
            else:
                out.append("byDayExpandYearly")
            continue
        k = p.replace("Limit", "").replace("Expand", "").replace("DayWeekly", "Day")
        if have[FIELDOF[k]]:
            out.append("by" + p)
    out.append("valid")
    if have["mBySetPos"]:
        out.append("bySetPosLimit")
    return out


TIMES = ("byHourExpand", "byMinuteExpand", "bySecondExpand")


def canonical(ops):
    """limits that stand next to each other, and expansions of the time of day, may be applied in any order"""
    out, run = [], []
    kind = None
    for o in list(ops) + [None]:
        k = None if o is None else "limit" if o.endswith("Limit") and o != "bySetPosLimit" else "time" if o in TIMES else None
        if run and k != kind:
            out += sorted(run)
            run = []
        kind = k
        if k is not None:
            run.append(o)
        elif o is not None:
            out.append(o)
    return out


def gen(freq):
    relevant = set("mBy" + x for x in ())
    rel = []
    for p in TABLE[freq]:
        k = p.replace("Limit", "").replace("Expand", "").replace("DayWeekly", "Day").replace("*", "")
        rel.append(FIELDOF[k])
    rel.append("mBySetPos")

    def setup(E, s):
        o = rule(E, s)
        s.have = dict((b, False) for b in BYS)
        absent = s.choose("absent", 2)
        for b in BYS:
            if b in rel:
                s.have[b] = s.choose(b, 2) == 1
            o.slots[b] = E.plist(AbsList(b, None, z3.IntVal(1) if False else E.fresh_int("len"))) if s.have[b] else (None if absent else E.plist([]))
            if s.have[b]:
                E.assume(o.slots[b].slots["v"].length >= 1)
        s.start = arbitrary_date(E)
        s.copies = []
        return [o, s.start, E.plist([])]

    def post(E, s, r, exc):
        v = s.args[2].slots["v"]
        ops = list(ops_of(E, s.args[2]))
        want = expected(freq, s.have)
        if canonical(ops) == canonical(want):
            E.prove("the parts present are applied in the order and mode of the table", True)
        else:
            E.prove("the parts present are applied in the order and mode of the table", canonical(ops) == canonical(want[:len(ops)]) and len(ops) < len(want))
            if isinstance(v, Chain):
                E.prove("the remaining parts are only left out when no candidate is left", v.length == 0)
    add(R + "generate%sSet" % freq, setup, post, stubs=GEN, step=gen_step, timeout=300, maxpaths=20000)


for f in TABLE:
    gen(f)


# --- the sorted candidates without repeats (bounded: at most four candidates; any instants)
def s_su(E, s):
    n = s.choose("size", 5)
    s.items = []
    for i in range(n):
        o = E.obj(E.find_qual("pycalendar.datetime.DateTime"))
        o.slots.update(key=E.fresh_int("instant%d" % i), mDateOnly=False)
        s.items.append(o)
    s.given = E.plist(list(s.items))
    return [rule(E, s), s.given]


def key_of(E, slots):
    return slots["self"].slots["key"]


def cmp_keys(E, slots):
    a, b = slots["self"].slots["key"], slots["comp"].slots["key"]
    return If(a == b, 0, If(a < b, -1, 1))


def p_su(E, s, r, exc):
    v = r.slots["v"]
    E.prove("a list of the given dates", isinstance(v, list) and all(any(x is y for y in s.items) for x in v))
    k = [x.slots["key"] for x in v]
    for a, b in zip(k, k[1:]):
        E.prove("strictly ascending", a < b)
    for x in s.items:
        E.prove("no instant is lost", Or(*[x.slots["key"] == a for a in k]))
    E.prove("the given list is left alone", s.given.slots["v"] == s.items)


KEYS = {"func:" + D + "getPosixTime": key_of, "func:" + D + "compareDateTime": cmp_keys}
add(R + "sortUnique", s_su, p_su, stubs=KEYS, name=R + "sortUnique:few", bounded="at most 4 candidates")
