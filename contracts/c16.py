"""C16: the offset in effect.  The binary search, the lookup with its caches (as two queries on an
arbitrary cache state) and the dispatch of Timezone are proved; conversions are in c05."""
import z3
from vc.values import *
from vc.verify import Contract
from vc.abslist import AbsList
from vc.symmap import SymMap
from vc.strings import seq_term
from .spec import *
from .c01 import D, FIELDS, fld, local, dt, TZSTUB
from .c20 import ghost, text, TZ as _TZ

CONTRACTS = []
V = "pycalendar.icalendar.vtimezone.VTimezone."
Z = "pycalendar.timezone.Timezone."


def add(*a, **k):
    k.setdefault("props", ("C16",))
    k.setdefault("replay", False)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


# --- the search
KEY = z3.Function("transition_key", z3.BoolSort(), z3.IntSort(), z3.IntSort())     # time line, index -> instant


def moment(E, key):
    o = E.obj(E.find_qual("pycalendar.datetime.DateTime"))
    o.slots.update(key=key, mDateOnly=False)
    return o


def cmp_keys(E, slots):
    a, b = slots["self"].slots["key"], slots["comp"].slots["key"]
    return If(a == b, 0, If(a < b, -1, 1))


def px_key(E, slots):
    return slots["self"].slots["key"]


def s_bisect(E, s):
    s.n = E.fresh_int("n")
    E.assume(s.n >= 0)
    s.rel = bool(s.choose("relative_to_utc", 2))
    s.key = s.int("x")
    a = AbsList("transitions", None, s.n, at=lambda E, i: (moment(E, KEY(False, i)), moment(E, KEY(True, i)), E.fresh_int("from"), E.fresh_int("to")))
    return [E.plist(a), moment(E, s.key), s.rel]


def bisect_invariants(E, s, stmt, frame):
    out = []
    from .text import loop_names
    names = sorted(v for v in loop_names(stmt) if is_int(frame.slots.get(v)))
    for v in names:
        out.append(("0 <= %s <= n" % v, lambda L, v=v: And(L.var(v) >= 0, L.var(v) <= s.n)))
        out.append(("everything before %s is at or before the time" % v, lambda L, v=v: Implies(L.var(v) > 0, KEY(s.rel, E.z(L.var(v)) - 1) <= s.key)))
        out.append(("nothing from %s on is" % v, lambda L, v=v: Implies(L.var(v) < s.n, KEY(s.rel, E.z(L.var(v))) > s.key)))
        for w in names:
            if v != w:
                out.append(("%s <= %s" % (v, w), lambda L, v=v, w=w: L.var(v) <= L.var(w)))
    return out


def bisect_variant(E, s, stmt, frame):
    from .text import loop_names
    names = sorted(v for v in loop_names(stmt) if is_int(frame.slots.get(v)))
    return [("%s-%s" % (v, w), lambda L, v=v, w=w: L.var(v) - L.var(w)) for v in names for w in names if v != w]


def p_bisect(E, s, r, exc):
    E.prove("a position in the table", And(r >= 0, r <= s.n))
    E.prove("the transition before it is at or before the time asked for", Implies(r > 0, KEY(s.rel, E.z(r) - 1) <= s.key))
    E.prove("the transition at it is later", Implies(r < s.n, KEY(s.rel, E.z(r)) > s.key))


add(V + "tuple_bisect_right", s_bisect, p_bisect, loops=[bisect_invariants], variants=[bisect_variant],
    stubs={"func:" + D + "compareDateTime": cmp_keys, "func:" + D + "getPosixTime": px_key})


# --- the lookup.  LATEST(line, t): what the full definition says: the offset of its latest transition at
# or before t on that time line, 0 before the first.  A table made by expandAll(None, end) holds the
# transitions before `end` (local time), so it is complete for local times before end, and for UTC times
# at least a day before end (offsets are less than a day).
LATEST = z3.Function("offset_in_effect", z3.BoolSort(), z3.IntSort(), z3.IntSort())
TO = z3.Function("offset_to", z3.IntSort(), z3.IntSort(), z3.IntSort())


class Table(AbsList):
    count = 0

    def __init__(self, E, end, order):
        Table.count += 1
        self.id = E.fresh_int("table")
        n = E.fresh_int("size")
        E.assume(n >= 0)
        AbsList.__init__(self, "transitions by %s" % order, None, n, at=self.elem)
        self.end = end              # instant (local seconds) up to which the table goes
        self.order = order

    def elem(self, E, i):
        return (moment(E, E.fresh_int("l")), moment(E, E.fresh_int("u")), E.fresh_int("from"), TO(self.id, i))

    def complete(self, rel, x):
        return x + 86400 <= self.end if rel else x < self.end

    def empty_fact(self, E, rel, x):
        E.assume(z3.Implies(z3.And(self.length == 0, self.complete(rel, x)), LATEST(z3.BoolVal(rel), x) == 0))


def st_expand(E, slots):
    E.prove("call: the whole past is asked for", slots["start"] is None, "pre")
    return E.plist(Table(E, local(E, slots["end"]), "local time"))


def st_sorted(E, items, kw):
    if not isinstance(items, tuple) or items[0] != "abs" or not isinstance(items[1], Table) or kw.get("reverse"):
        from vc.interp import Unsupported
        raise Unsupported("sorting")
    a, b = moment(E, E.fresh_int("l")), moment(E, E.fresh_int("u"))
    probe = (a, b, E.fresh_int("from"), E.fresh_int("to"))
    k = E.call(kw["key"], [probe], {}) if kw.get("key") is not None else None
    t = items[1]
    n = Table(E, t.end, "UTC" if k is b.slots["key"] or k is b else "local time" if k is a.slots["key"] or k is a else "?")
    n.length = t.length
    return E.plist(n)


def st_px(E, slots):
    k = slots["self"].slots.get("key")
    return k if k is not None else local(E, slots["self"])


def st_bisect(E, slots):
    s = E.S
    a = slots["a"].slots["v"]
    rel = slots["relative_to_utc"]
    x = local(E, slots["x"])
    E.prove("call: the time asked for is searched", x == s.asked[-1][1], "pre")
    E.prove("call: on the time line asked for", Iff(E.truth_term(rel), s.asked[-1][0]), "pre")
    rel = s.asked[-1][0]
    if not isinstance(a, Table):
        E.prove("call: the table is searched", False, "pre")
    E.prove("call: the table is in the order of that time line", a.order == ("UTC" if rel else "local time"), "pre")
    E.prove("call: the table is complete up to the time asked for", a.complete(rel, x), "pre")
    i = E.fresh_int("position")
    w = LATEST(z3.BoolVal(rel), x)
    E.assume(z3.And(i >= 0, i <= a.length, z3.Implies(i == 0, w == 0), z3.Implies(i > 0, TO(a.id, i - 1) == w)))
    return i


def query(E, s, n):
    o = dt(E, s, name="q%d" % n, kinds=("named",) if n == 1 else ("utc", "named"), dateonly=False, cache=False)
    rel = bool(s.choose("relative%d" % n, 2))
    s.asked.append((rel, local(E, o)))
    return o, rel


def s_lookup(E, s):
    s.asked = []
    o = s.obj("pycalendar.icalendar.vtimezone.VTimezone", mCachedExpandAllMaxYear=None, mCachedOffsets=None, mComponents=E.plist([]))
    if s.choose("state", 2) == 1:
        m = s.int("maxyear")
        t = Table(E, dn(E, z3.simplify(m + 1)) * 86400, "local time")
        u = Table(E, t.end, "UTC")
        u.length = t.length
        o.slots.update(mCachedExpandAllMaxYear=m, mCachedExpandAll=E.plist(t), mCachedExpandAllUTC=E.plist(u),
                       mCachedOffsets=Obj(E.new_oid(), E.builtins["dict"], {"v": SymMap(lambda E, k: None, name="offsets")}))
    return [o]


def run_lookup(E, s):
    o = s.args[0]
    f = E.getattr_(o, "getTimezoneOffsetSeconds")
    out = []
    for n in (1, 2):
        d, rel = query(E, s, n)
        y = d.slots["mYear"]
        if n == 2:
            fact_order(E, y, s.y1)
        s.y1 = y
        m = o.slots["mCachedExpandAllMaxYear"]
        if isz(m):
            for k in (0, 1):
                fact_order(E, y, z3.simplify(m + k))
        r = E.call(f, [d, rel], {})
        t = o.slots.get("mCachedExpandAllUTC" if rel else "mCachedExpandAll")
        t = t.slots["v"] if t is not None else None
        if isinstance(t, Table):
            x = local(E, d)
            E.prove("query %d: the table is complete for the time asked for" % n, t.complete(rel, x))
            t.empty_fact(E, rel, x)
        E.prove("query %d: the offset in effect, whatever was asked before" % n, r == LATEST(z3.BoolVal(rel), local(E, d)))
        m = o.slots["mCachedExpandAllMaxYear"]
        t, u = (o.slots[k].slots["v"] for k in ("mCachedExpandAll", "mCachedExpandAllUTC"))
        E.prove("query %d: the tables go to the end of the year recorded" % n,
                And(isinstance(t, Table) and isinstance(u, Table) and t.order == "local time" and u.order == "UTC", t.end == dn(E, m + 1) * 86400, u.end == t.end), "invariant")
    return None


LOOK = dict(TZSTUB)
LOOK.update({"func:" + V + "expandAll": st_expand, "func:" + V + "tuple_bisect_right": st_bisect, "func:" + D + "getPosixTime": st_px, "sorted": st_sorted})
add(V + "getTimezoneOffsetSeconds", s_lookup, lambda E, s, r, exc: None, run=run_lookup, stubs=LOOK, timeout=300,
    trusted=("expandAll(None, end) lists exactly the transitions before end (VTimezone.expandAll, VTimezoneElement.expandAll and C15)",))


# --- Timezone: one of UTC, floating, a fixed offset, a named zone
KINDS = ("utc", "float", "fixed", "named")


def tzparts(E, s, n=""):
    k = KINDS[s.choose("kind" + n, 4)]
    s.__dict__.setdefault("kinds", []).append(k)
    return k == "utc", {"utc": None, "float": None}.get(k) if k in ("utc", "float") else s.int("offset" + n) if k == "fixed" else text(E, "tzid" + n)


def tzobj(E, s, n=""):
    u, t = tzparts(E, s, n)
    if s.kinds[-1] == "named":
        E.assume(z3.Length(t.term) > 0)
    return s.obj("pycalendar.timezone.Timezone", mUTC=u, mTimezone=t)


ANSWER = z3.Function("zone_answer", z3.BoolSort(), z3.IntSort())


def st_db(E, slots):
    s = E.S
    want = s.args[0].slots["mTimezone"] if s.kinds[0] == "named" else None
    tz = slots["tzid"]
    E.prove("call: the zone itself is asked (the default zone for a floating time)", tz is want, "pre")
    E.prove("call: about the moment given", slots["dt"] is s.args[1], "pre")
    rel = E.truth_term(slots.get("relative_to_utc", False))
    E.prove("call: on the time line asked for", Iff(rel, s.rel if s.rel is not None else False), "pre")
    return z3.Int("zone_answer")


def s_zoff(E, s):
    o = tzobj(E, s)
    s.rel = s.bool("relative_to_utc")
    return [o, E.obj(ghost("moment")), s.rel]


def p_zoff(E, s, r, exc):
    k = s.kinds[0]
    E.prove("0 for UTC, the offset itself for a fixed offset, the zone's answer otherwise",
            r == (0 if k == "utc" else s.args[0].slots["mTimezone"] if k == "fixed" else z3.Int("zone_answer")))


DB = {"func:pycalendar.timezonedb.TimezoneDatabase.getTimezoneOffsetSeconds": st_db}
add(Z + "timeZoneSecondsOffset", s_zoff, p_zoff, stubs=DB, trusted=("the default timezone is UTC, as the library sets it at import",))


def is_floating(k, t):
    return True if k == "float" else Implies(z3.BoolVal(True), z3.Length(t.term) == 0) if k == "named" else False


def same_zone(E, ks, ts):
    if any(k == "float" for k in ks):
        return True
    fl = [z3.Length(t.term) == 0 if k == "named" else False for k, t in zip(ks, ts)]
    if ks[0] != ks[1]:
        return Or(*fl)
    if ks[0] == "utc":
        return True
    return Or(E.truth_term(E.eq(ts[0], ts[1])), *fl)


def s_same(E, s):
    a = tzparts(E, s, "1")
    b = tzparts(E, s, "2")
    s.t = (a[1], b[1])
    return [a[0], a[1], b[0], b[1]]


add(Z + "same", s_same, lambda E, s, r, exc: E.prove("the same zone, or one of them floating", Iff(E.truth_term(r), same_zone(E, s.kinds, s.t))))
add(Z + "is_float", lambda E, s: list(tzparts(E, s)), lambda E, s, r, exc:
    E.prove("neither UTC nor a zone nor an offset", Iff(E.truth_term(r), s.kinds[0] == "float" or (z3.Length(s.args[1].term) == 0 if s.kinds[0] == "named" else False))))


def s_teq(E, s):
    a, b = tzobj(E, s, "1"), tzobj(E, s, "2")
    s.t = (a.slots["mTimezone"], b.slots["mTimezone"])
    return [a, b]


add(Z + "equals", s_teq, lambda E, s, r, exc: E.prove("the same zone, or one of them floating", Iff(E.truth_term(r), same_zone(E, s.kinds, s.t))))
add(Z + "floating", lambda E, s: [tzobj(E, s)], lambda E, s, r, exc: E.prove("exactly a floating one", Iff(E.truth_term(r), s.kinds[0] == "float")))
add(Z + "hasTZID", lambda E, s: [tzobj(E, s)], lambda E, s, r, exc: E.prove("exactly a zone or an offset", Iff(E.truth_term(r), s.kinds[0] in ("fixed", "named"))))
add(Z + "duplicate", lambda E, s: [tzobj(E, s)], lambda E, s, r, exc: (
    E.prove("a new one", r is not s.args[0]),
    E.prove("of the same zone", And(Iff(E.truth_term(r.slots["mUTC"]), s.kinds[0] == "utc"), s.kinds[0] == "float" or E.truth_term(E.eq(r.slots["mTimezone"], s.args[0].slots["mTimezone"]))))))


# --- the transitions of a definition: each part (STANDARD or DAYLIGHT) lists those of its start and its
# recurrence set (C15), and the zone lists those of all its parts, with their UTC instant, in local order.
VE = "pycalendar.icalendar.vtimezoneelement.VTimezoneElement."


def when(E, o):
    k = o.slots.get("key")
    return k if k is not None else local(E, o)


def st_cmpwhen(E, slots):
    a, b = slots["self"], slots["comp"]
    if b is None:
        E.throw("AttributeError", "comparison with None")
    for o in (a, b):
        E.prove("call: floating times are compared", And(Not(E.truth_term(o.slots.get("mTZUTC", False))), o.slots.get("mTZID") is None, Not(E.truth_term(o.slots.get("mDateOnly", False)))), "pre")
    x, y = when(E, a), when(E, b)
    return If(x == y, 0, If(x < y, -1, 1))


WHEN = z3.Function("time_at", z3.IntSort(), z3.IntSort(), z3.IntSort())


def E_z(i):
    return z3.IntVal(i) if isinstance(i, int) else i


class Members(AbsList):
    """the times the recurrence set of a part gives from its start up to (not at) `upto`, in order"""

    def __init__(self, E, s, upto):
        n = E.fresh_int("size")
        E.assume(n >= 0)
        AbsList.__init__(self, "recurrences", self.one, n, at=self.one)
        self.upto = upto
        self.start = s.first
        self.id = E.fresh_int("list")

    def time(self, i):
        return WHEN(self.id, E_z(i))

    def one(self, E, i=None):
        if i is None:
            i = E.fresh_int("index")
            E.assume(z3.And(i >= 0, i < self.length))
        k = self.time(i)
        E.assume(z3.And(k >= self.start, k < self.upto))
        m = moment(E, k)
        m.slots.update(mTZUTC=False, mTZID=None, index=i, of=self)
        return m


def rs_expand(E, o, start, range, items, float_offset=0, maxInstances=None):
    s = E.S
    E.prove("call: expanded from the start of the part, over a range from there", And(when(E, start) == s.first, when(E, range.slots["mStart"]) == s.first), "pre")
    E.prove("call: no limit, with the offset in effect before", And(maxInstances is None, E.eq(float_offset, s.before)), "pre")
    E.prove("call: into an empty list", isinstance(items.slots["v"], list) and not items.slots["v"], "pre")
    e = range.slots["mEnd"]
    E.prove("call: up to a given time", e is not None, "pre")
    E.setslot(items, "v", Members(E, s, when(E, e)))
    return False


RECS = ghost("recurrences", hasRecurrence=lambda E, o: E.S.recurring, expand=rs_expand)


def st_loadint(E, slots):
    s = E.S
    n = slots["value_name"] if "value_name" in slots else [v for k, v in slots.items() if k != "self"][0]
    E.prove("call: an offset is read", n in ("TZOFFSETTO", "TZOFFSETFROM"), "pre")
    return s.to if n == "TZOFFSETTO" else s.before


def s_part(E, s, caches=True):
    s.recurring = bool(s.choose("recurring", 2))
    st = dt(E, s, name="dtstart", kinds=("float",), dateonly=False, cache=False)
    s.first = local(E, st)
    s.to, s.before = s.int("offset_to"), s.int("offset_from")
    s.tzname = text(E, "tzname")
    o = s.obj("pycalendar.icalendar.vtimezoneelement.VTimezoneElement", mStart=st, mTZName=s.tzname, mUTCOffset=s.to, mUTCOffsetFrom=s.before,
              mRecurrences=E.obj(RECS), mCachedExpandBelow=None, mCachedExpandBelowItems=None)
    if s.choose("cache", 2):
        u = s.int("cached_to")
        E.assume(u >= s.first)
        c = moment(E, u)
        c.slots.update(mTZUTC=False, mTZID=None)
        o.slots.update(mCachedExpandBelow=c, mCachedExpandBelowItems=E.plist(Members(E, s, u)))
    return o


def s_elall(E, s):
    o = s_part(E, s)
    s.end = dt(E, s, name="end", kinds=("float",), dateonly=False, cache=False)
    y = s.end.slots["mYear"]
    fact_order(E, y, z3.simplify(y + 1))
    st = dt(E, s, name="from", kinds=("float",), dateonly=False, cache=False) if s.choose("from?", 2) else None
    s.lo = s.first if st is None else local(E, st)
    s.hi = local(E, s.end)
    s.named = bool(s.choose("with_name", 2))
    return [o, st, s.end, s.named]


def is_record(E, s, x, m):
    want = (m, s.before, s.to) + ((s.tzname,) if s.named else ())
    return isinstance(x, tuple) and len(x) == len(want) and all(isinstance(v, Obj) for v in (x[0], m)) and And(when(E, x[0]) == when(E, m), *[E.truth_term(E.eq(a, b)) for a, b in zip(x[1:], want[1:])])


def step_elall(E, s, ctx, recs):
    al, elem, _o = ctx[-1]
    got = [x for r in recs.values() for x in r]
    inside = And(when(E, elem) >= s.lo, when(E, elem) < s.hi)
    if got:
        E.prove("a time is recorded once, with the offsets and the name, if it is in the range", And(len(recs) == 1, len(got) == 1 and got[0][0] == "item" and is_record(E, s, got[0][1], elem), inside))
    else:
        E.prove("a time that is left out is outside the range", Not(inside))


def cache_ok(E, s, o):
    c, i = o.slots["mCachedExpandBelow"], o.slots["mCachedExpandBelowItems"]
    if c is None or i is None:
        return c is None and (i is None or i.slots["v"] == [])
    v = i.slots["v"]
    if isinstance(v, list):
        return And(v == [], when(E, c) == s.first)
    return isinstance(v, Members) and when(E, c) == v.upto


def p_elall(E, s, r, exc):
    o = s.args[0]
    v = r.slots["v"] if isinstance(r, Obj) else r
    if isinstance(v, tuple):
        v = list(v)
    E.prove("the cache holds the times up to where it says", cache_ok(E, s, o), "invariant")
    E.prove("the start is left alone", local(E, o.slots["mStart"]) == s.first)
    if isinstance(v, list):
        m = o.slots["mStart"]
        if not s.recurring:
            E.prove("one time: the start, if it is in the range", And(len(v) < 2, Implies(And(s.first >= s.lo, s.first < s.hi), len(v) == 1),
                    Implies(Or(s.first < s.lo, s.first > s.hi), len(v) == 0), is_record(E, s, v[0], m) if v else True))
            return
        i = o.slots["mCachedExpandBelowItems"]
        al = i.slots["v"] if i is not None else None
        E.prove("nothing is listed only if there is nothing before the end", And(len(v) == 0, Or(s.first >= s.hi, And(al.length == 0, al.upto >= s.hi) if isinstance(al, Members) else False)))
        return
    from vc.abslist import Rec
    E.prove("the times of the part are listed", isinstance(v, Rec) and len(v.parts) == 1 and v.parts[0][0] == "flat" and isinstance(v.parts[0][1], Members) and And(s.recurring, v.parts[0][1].upto >= s.hi))


EL = dict(TZSTUB)
EL.update({"func:" + D + "compareDateTime": st_cmpwhen, "func:pycalendar.componentbase.ComponentBase.loadValueInteger": st_loadint})
ELTRUST = ("a recurrence set lists its instants in the range it is asked for, in order (C15)", "date-times of one zone compare as their fields (C04)")
add(VE + "expandAll", s_elall, p_elall, stubs=EL, step=step_elall, trusted=ELTRUST)


def st_bisect_right(E, a, kw):
    s = E.S
    v = a[0].slots["v"]
    if len(a) != 2 or kw or not isinstance(v, Members):
        from vc.interp import Unsupported
        raise Unsupported("bisect_right")
    x = when(E, a[1])
    i = E.fresh_int("position")
    n = v.length
    E.assume(z3.And(i >= 0, i <= n, z3.Implies(i > 0, v.time(i - 1) <= x), z3.Implies(i < n, v.time(i) > x)))
    return i


def s_elbelow(E, s):
    o = s_part(E, s)
    s.below = dt(E, s, name="below", kinds=("float",), dateonly=False, cache=False)
    y = s.below.slots["mYear"]
    fact_order(E, y, z3.simplify(y + 1))
    s.x = local(E, s.below)
    return [o, s.below]


def p_elbelow(E, s, r, exc):
    o = s.args[0]
    E.prove("the cache holds the times up to where it says", cache_ok(E, s, o), "invariant")
    E.prove("the start is left alone", local(E, o.slots["mStart"]) == s.first)
    if r.slots.get("of") is None:
        i = o.slots["mCachedExpandBelowItems"]
        al = i.slots["v"] if i is not None else None
        E.prove("the start, if nothing recurs or nothing is as early as asked", And(when(E, r) == s.first, Or(not s.recurring, s.first > s.x, And(al.length == 0, al.upto > s.x) if isinstance(al, Members) else False)))
        return
    al, i = r.slots["of"], r.slots["index"]
    E.prove("the list goes beyond the time asked for", And(s.recurring, al.upto > s.x))
    E.prove("the latest time at or before the one asked for, or the first", And(i >= 0, i < al.length, Or(And(al.time(i) <= s.x, Or(al.time(z3.simplify(E_z(i) + 1)) > s.x, E_z(i) + 1 == al.length)), And(E_z(i) == 0, al.time(i) > s.x))))


EB = dict(EL)
EB["call:bisect.bisect_right"] = st_bisect_right
add(VE + "expandBelow", s_elbelow, p_elbelow, stubs=EB, trusted=ELTRUST + ("bisect_right of the standard library on a sorted list",))


# --- the zone: findTimezoneElement and expandAll over its parts
def c_below(E, o, below):
    s = E.S
    E.prove("call: asked with the fields of the time given", local(E, below) == s.x, "pre")
    E.prove("call: as a floating time", And(Not(E.truth_term(below.slots["mTZUTC"])), below.slots["mTZID"] is None), "pre")
    m = moment(E, BELOW(o.slots["ref"]))
    m.slots.update(mTZUTC=False, mTZID=None)
    return m


I_ = z3.IntSort()
BELOW = z3.Function("latest_of_part", I_, I_)
BESTK = z3.Function("latest_so_far", I_, I_)
ANY = z3.Function("any_so_far", I_, z3.BoolSort())
PARTSEQ = z3.Const("parts", IntSeq)
PART = ghost("part", expandBelow=c_below)


def s_find(E, s):
    d = dt(E, s, name="dt", kinds=("named", "utc"), dateonly=False, cache=False)
    s.x = local(E, d)

    def mk(t):
        o = E.obj(PART)
        o.slots["ref"] = t
        return o
    s.zone = s.obj("pycalendar.icalendar.vtimezone.VTimezone", mComponents=E.plist(SymSeq("part", PARTSEQ, mk)))
    s.k = z3.Const("K_part", I_)
    E.assume(z3.And(s.k >= 0, s.k < z3.Length(PARTSEQ)))
    return [s.zone, d]


def found_names(E, frame):
    fs = [n for n, v in frame.slots.items() if v is None or isinstance(v, Obj) and v.cls is PART]
    return fs


def cand(E, s, i):
    return BELOW(PARTSEQ[i])


def best_inv(E, s, stmt, frame):
    """(one arbitrary part K stands for all the parts already seen)"""
    out = []
    kw = cand(E, s, s.k)
    if not hasattr(s, "names"):
        s.names = found_names(E, frame)

    def name(n):
        def f(L):
            k = E.z(L.k)
            v = L.var(n)
            if v is None:
                return z3.Implies(s.k < k, kw > s.x)
            b = BELOW(v.slots["ref"])
            return z3.And(b <= s.x, z3.Implies(z3.And(s.k < k, kw <= s.x), b >= kw))
        return f

    def when_name(n):
        def f(L):
            m = L.var(n)
            fs = [L.var(x) for x in s.names]
            fs = [v for v in fs if v is not None]
            return z3.And(*[when(E, m) == BELOW(v.slots["ref"]) for v in fs]) if fs else True
        return f
    for n in s.names:
        out.append(("%s is the latest of the parts seen" % n, name(n)))
    for n, v in sorted(frame.slots.items()):
        if isinstance(v, Obj) and v.cls.name == "DateTime" and v is not s.args[1]:
            out.append(("%s is the time of that part" % n, when_name(n)))
    return out


def p_find(E, s, r, exc):
    kw = cand(E, s, s.k)
    if r is None:
        E.prove("no part only if none has a time as early as asked", kw > s.x)
        return
    b = BELOW(r.slots["ref"])
    E.prove("a part whose time is at or before the one asked for, and no part has a later one", And(b <= s.x, Implies(kw <= s.x, b >= kw)))


def a_part(E, s, base):
    if E.choose(2, base) == 0:
        return (None,)
    o = E.obj(PART)
    o.slots["ref"] = E.fresh_int(base)
    return (o,)


def a_time(E, s, base, cur):
    if cur.cls.name != "DateTime":
        return None
    m = moment(E, E.fresh_int(base))
    m.slots.update(mTZUTC=False, mTZID=None)
    return m


add(V + "findTimezoneElement", s_find, p_find, loops=[best_inv], none_kind=a_part, obj_kind=a_time, stubs=EL,
    trusted=("each part answers its latest time at or before the one asked for, or its first (VTimezoneElement.expandBelow)", "date-times of one zone compare as their fields (C04)"))


# --- expandAll of the zone: what its parts list, each time with its UTC instant, by local time
def a_transition(E, s, n):
    m = dt(E, s, name=n, kinds=("float",), dateonly=False, cache=False)
    f = E.fresh_int(n + ".from")
    E.assume(z3.And(f > -86400, f < 86400))
    return (m, f, E.fresh_int(n + ".to")) + ((text(E, n + ".name"),) if s.named else ())


class PartList(AbsList):
    def __init__(self, part):
        AbsList.__init__(self, "times of a part", None)
        self.part = part


class Transitions(AbsList):
    """what all the parts list, each once"""

    def __init__(self, E, s):
        AbsList.__init__(self, "transitions", lambda E: a_transition(E, s, "transition%d" % E.new_oid()))


def c_all(E, o, start, end, with_name=False):
    s = E.S
    E.prove("call: each part is asked for the same range", And(start is s.start, end is s.end, Iff(E.truth_term(with_name), s.named)), "pre")
    return E.plist(PartList(o))


ZPART = ghost("part", expandAll=c_all)


def s_zall(E, s):
    s.named = bool(s.choose("with_name", 2))
    s.end = E.obj(ghost("end"))
    s.start = E.obj(ghost("start")) if s.choose("from?", 2) else None
    s.parts = AbsList("parts", lambda E: E.obj(ZPART))
    s.zone = s.obj("pycalendar.icalendar.vtimezone.VTimezone", mComponents=E.plist(s.parts))
    s.all = None
    return [s.zone, s.start, s.end, s.named]


def step_zall(E, s, ctx, recs):
    al, elem, old = ctx[-1]
    got = [x for r in recs.values() for x in r]
    if al is s.parts:
        E.prove("all that the part lists is taken", len(recs) == 1 and len(got) == 1 and got[0][0] == "all" and isinstance(got[0][1], PartList) and got[0][1].part is elem)
    elif al is s.all:
        ok = len(recs) == 1 and len(got) == 1 and got[0][0] == "item" and isinstance(got[0][1], tuple) and len(got[0][1]) == len(elem) + 1
        E.prove("each time is listed once", ok)
        m, u, f, t = got[0][1][:4]
        E.prove("with its local time", And(local(E, m) == local(E, elem[0]), Not(E.truth_term(m.slots["mTZUTC"])), m.slots["mTZID"] is None))
        E.prove("with its UTC instant: the offset before it taken away", And(local(E, u) == local(E, elem[0]) - elem[1], E.truth_term(u.slots["mTZUTC"]), u is not m))
        E.prove("with its offsets and name", And(*[E.truth_term(E.eq(a, b)) for a, b in zip(got[0][1][2:], elem[1:])]))
    else:
        from vc.interp import Unsupported
        raise Unsupported("another loop")


def whole(v, al):
    from vc.abslist import Rec
    return isinstance(v, Rec) and [p for p in v.parts if p[0] != "item"] == [("flat", al)] and len(v.parts) == 1


def st_set(E, it):
    s = E.S
    if it[0] != "rec" or not whole(it[1], s.parts):
        from vc.interp import Unsupported
        raise Unsupported("set() of another list")
    s.all = Transitions(E, s)
    r = E.pset([])
    r.slots["v"] = s.all
    return r


def in_order(E, key, cmp, reverse):
    from vc.interp import Unsupported
    s = E.S
    if cmp is not None or reverse is not False and reverse is not None:
        raise Unsupported("sorting by a comparison")

    def sample(n):
        x = a_transition(E, s, n)
        return (x[0], dt(E, s, name=n + ".utc", kinds=("utc",), dateonly=False, cache=False)) + x[1:]
    a, b = sample("a%d" % E.new_oid()), sample("b%d" % E.new_oid())
    fact_order(E, a[0].slots["mYear"], b[0].slots["mYear"])
    x, y = [E.call(key, [v], {}) for v in (a, b)] if key is not None else (a, b)
    E.prove("the transitions are put in the order of their local time", Iff(E.truth_term(E.compare("Lt", x, y)), local(E, a[0]) < local(E, b[0])))


class Sorted(object):
    def __init__(self, parts):
        self.parts = parts

    def sym_iter(self, E):
        return ("sorted", self)


def st_lsort(E, o, cmp=None, key=None, reverse=False):
    s = E.S
    v = o.slots["v"]
    if not whole(v, s.all):
        from vc.interp import Unsupported
        raise Unsupported("sorting another list")
    in_order(E, key, cmp, reverse)
    E.setslot(o, "v", Sorted(v.parts))


def st_sortedall(E, items, kw):
    s = E.S
    if items[0] != "rec" or not whole(items[1], s.all):
        from vc.interp import Unsupported
        raise Unsupported("sorting another list")
    in_order(E, kw.get("key"), kw.get("cmp"), kw.get("reverse", False))
    return E.plist(Sorted(items[1].parts))


def p_zall(E, s, r, exc):
    v = r.slots["v"]
    E.prove("the transitions of all parts, in order", isinstance(v, Sorted))
    E.prove("the parts are left alone", s.zone.slots["mComponents"].slots["v"] is s.parts)


ZA = dict(TZSTUB)
ZA.update({"set": st_set, "sorted": st_sortedall, "list.sort": st_lsort, "func:" + D + "compareDateTime": st_cmpwhen})
add(V + "expandAll", s_zall, p_zall, stubs=ZA, step=step_zall, timeout=300,
    trusted=("each part lists its times in the range (VTimezoneElement.expandAll)", "equal tuples are the same for set()", "offsets are less than a day"))
