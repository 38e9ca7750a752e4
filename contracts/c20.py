"""C20: the timezone database.  Path containment is proved over uninterpreted path operations with the
POSIX facts stated below; the lookup caches are an arbitrary state satisfying the cache invariant."""
import z3
from vc.values import *
from vc.verify import Contract
from vc.strings import seq_term
from vc.symmap import SymMap, SymSet
from vc.abslist import AbsList
from .spec import *

CONTRACTS = []
T = "pycalendar.timezonedb.TimezoneDatabase."
SEQ = z3.SeqSort(z3.IntSort())
JOIN = z3.Function("path_join", SEQ, SEQ, SEQ)
ABS = z3.Function("path_abspath", SEQ, SEQ)
NORMAL = z3.Function("path_is_normal", SEQ, z3.BoolSort())     # absolute, no "." or ".." parts, no doubled separators
ISFILE = z3.Function("path_is_file", SEQ, z3.BoolSort())
SLASH = z3.Unit(z3.IntVal(47))
TRUST = ("os.path.abspath gives a normalised absolute path; os.path.join(d, '') is d with one separator at its end; a normalised path that starts with a "
         "directory's normalised path and a separator is inside that directory (symbolic links aside)",)


def add(*a, **k):
    k.setdefault("props", ("C20",))
    k.setdefault("replay", False)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


def text(E, name):
    return SymSeq("char", z3.Const(name, SEQ))


def slash(a):
    return z3.If(z3.SuffixOf(SLASH, a), a, z3.Concat(a, SLASH))


def st_join(E, a, k):
    t = seq_term(E, a[0])
    for x in a[1:]:
        u = seq_term(E, x)
        j = JOIN(t, u)
        E.fact(z3.Implies(z3.And(u == z3.Empty(SEQ), z3.Length(t) > 0), j == slash(t)))
        t = j
    return SymSeq("char", t)


def st_abs(E, a, k):
    r = ABS(seq_term(E, a[0]))
    E.fact(z3.And(NORMAL(r), z3.Length(r) > 0))
    return SymSeq("char", r)


def st_open(E, a, k):
    s = E.S
    x = seq_term(E, a[0])
    root = ABS(s.root)
    E.prove("only a normalised path is opened", NORMAL(x))
    E.prove("only a file inside the database directory is opened", z3.PrefixOf(slash(root), x))
    E.prove("the file named after the identifier", x == s.target)
    E.prove("opened once", not s.opened)
    s.opened.append(x)
    if E.choose(2, "open") == 1:
        E.throw("IOError", "cannot be read")
    s.file = E.obj(FILE)
    return s.file


def f_exit(E, o, *a):
    E.S.closed = True
    return False


def ghost(name, **methods):
    c = PyClass(name, [], {}, None)
    c.methods = methods
    return c


FILE = ghost("file", __enter__=lambda E, o: o, __exit__=f_exit, close=lambda E, o: f_exit(E, o) and None)


def c_parse(E, o, f):
    s = E.S
    E.prove("the open file is read into the database's own calendar", o is s.cal and f is s.file and not s.closed)
    s.parsed += 1
    if E.choose(2, "data") == 1:
        raise_invalid(E)
    return None


def raise_invalid(E):
    from vc.interp import PyRaise
    raise PyRaise(E.obj(E.find_qual("pycalendar.exceptions.InvalidData"), args=()))


CAL = ghost("calendar", parseComponent=c_parse)


def s_cache(E, s):
    s.opened, s.parsed, s.closed, s.file = [], 0, False, None
    tz = text(E, "tzid")
    s.root = z3.Const("dbpath", SEQ)
    none = s.choose("dbpath?", 2) == 1
    s.none = none
    s.target = ABS(JOIN(s.root, z3.Concat(tz.term, seq_term(E, ".ics"))))
    s.cal = E.obj(CAL)
    return [s.obj("pycalendar.timezonedb.TimezoneDatabase", dbpath=None if none else SymSeq("char", s.root), calendar=s.cal, tzcache=E.pdict({}), stdtzcache=E.pset([]), notstdtzcache=E.pset([])), tz]


def p_cache(E, s, r, exc):
    E.prove("files are closed", not s.opened or s.file is None or s.closed)
    if s.none:
        E.prove("nothing without a directory", not s.opened and exc is None)
        return
    inside = z3.And(z3.PrefixOf(slash(ABS(s.root)), s.target), ISFILE(s.target))
    E.prove("opened exactly if there is such a file inside the directory", Iff(bool(s.opened), inside))
    if exc is not None:
        E.prove("only the lookup error", exc.cls.name == "NoTimezoneInDatabase")
    else:
        E.prove("what was found is read", s.parsed == 1)


add(T + "cacheTimezone", s_cache, p_cache, raises=lambda E, s, x: True, trusted=TRUST,
    stubs={"call:os.path.join": st_join, "call:os.path.abspath": st_abs, "call:os.path.isfile": lambda E, a, k: ISFILE(seq_term(E, a[0])), "call:open": st_open})


# --- the caches.  For one identifier K the database is in one of these states (the cache invariant):
#   new      never looked up or added
#   missing  looked up before, no definition: cached as such, not standard
#   standard looked up before and loaded: cached, standard
#   added    a definition was added by hand (and perhaps looked up before that)
# Whatever else the caches hold is arbitrary.
STATES = ("new", "missing", "standard", "added")
FOUND = z3.Function("definition_on_disk", SEQ, z3.BoolSort())


def zone(E, key, **k):
    o = E.obj(TZ)
    o.slots["id"] = key
    o.slots.update(k)
    return o


def tz_dup(E, o, parent=None):
    n = zone(E, o.slots["id"])
    n.slots["copy_of"] = o
    n.slots["parent"] = parent
    return n


TZ = ghost("timezone", getID=lambda E, o: o.slots["id"], duplicate=tz_dup)


def c_get(E, o, k):
    s = E.S
    if E.branch(E.truth_term(E.eq(k, s.key))):
        return s.content
    raise_unknown("another identifier is looked up")


def raise_unknown(what):
    from vc.interp import Unsupported
    raise Unsupported(what)


def c_add(E, o, tz):
    s = E.S
    E.prove("the definition added keeps its identifier", E.truth_term(E.eq(tz.slots["id"], s.key)))
    s.content = tz
    s.addcalls.append(tz)


CALC = ghost("calendar", getTimezone=c_get, addComponent=c_add)


def st_load(E, slots):
    """cacheTimezone's contract: the definition on disk becomes available, or there is none"""
    s = E.S
    E.prove("call: the identifier asked for is loaded", E.truth_term(E.eq(slots["tzid"], s.key)), "pre")
    E.prove("call: nothing is loaded over a known definition", s.content is None, "pre")
    if E.branch(FOUND(s.key.term)):
        s.content = s.ondisk
        return None
    if E.choose(2, "reported") == 1:
        from vc.interp import PyRaise
        raise PyRaise(E.obj(E.find_qual("pycalendar.exceptions.NoTimezoneInDatabase"), args=()))
    return None


def anyset(E, s, name, here):
    f = z3.Function(name, SEQ, z3.BoolSort())

    def base(E, k):
        if E.branch(E.truth_term(E.eq(k, s.key))):
            return here
        return f(seq_term(E, k))
    return SymSet(base, name=name)


def database(E, s, states=STATES):
    s.key = text(E, "tzid")
    s.state = states[s.choose("state", len(states))]
    s.ondisk = zone(E, s.key)
    s.known = zone(E, s.key)
    s.addcalls = []
    s.content = {"new": None, "missing": None, "standard": s.known, "added": s.known}[s.state]
    if s.state == "missing":
        E.assume(z3.Not(FOUND(s.key.term)))
    if s.state == "standard":
        E.assume(FOUND(s.key.term))
    std = s.state == "standard" or s.state == "added" and s.choose("looked up before as standard", 2) == 1
    notstd = s.state == "missing" or s.state == "added" and s.choose("looked up before as missing", 2) == 1
    if std and notstd:
        notstd = False

    def base(E, k):
        if E.branch(E.truth_term(E.eq(k, s.key))):
            return None if s.state == "new" else ("hit", None if s.state == "missing" else s.known)
        s.foreign = True
        return ("hit", zone(E, k)) if E.choose(2, "other") else None
    s.cal = E.obj(CALC)
    s.std0, s.notstd0 = anyset(E, s, "std", std), anyset(E, s, "notstd", notstd)
    mk = lambda v: Obj(E.new_oid(), E.builtins["set"], {"v": v})
    return s.obj("pycalendar.timezonedb.TimezoneDatabase", dbpath=None, calendar=s.cal, tzcache=Obj(E.new_oid(), E.builtins["dict"], {"v": SymMap(base, name="tzcache")}),
                 stdtzcache=mk(s.std0), notstdtzcache=mk(s.notstd0))


def invariant(E, s, o, added=False):
    """the state after is again one of STATES for the identifier; nothing is recorded about other identifiers"""
    m, std, non = o.slots["tzcache"].slots["v"], o.slots["stdtzcache"].slots["v"], o.slots["notstdtzcache"].slots["v"]
    for v in (m, std, non):
        E.prove("only the identifier asked for is recorded in %s" % v.name, And(not v.cleared, *[E.truth_term(E.eq(x[0], s.key)) for x in v.over]))
    E.prove("the calendar stays", o.slots["calendar"] is s.cal)
    r = m.look(E, s.key)
    a, b = E.truth_term(std.has(E, s.key)), E.truth_term(non.has(E, s.key))
    if r is None:
        E.prove("unknown: nothing recorded", And(s.state == "new", s.content is None, Not(a), Not(b)), "invariant")
        return
    v = r[1]
    E.prove("what is cached is what the calendar holds", v is s.content, "invariant")
    if v is None:
        E.prove("known to be missing: not standard", And(Not(a), b, Not(FOUND(s.key.term))), "invariant")
    elif s.state == "added" or added:
        E.prove("an added definition is not known as missing and standard at once", Not(And(a, b)), "invariant")
    else:
        E.prove("loaded: standard", And(a, Not(b), FOUND(s.key.term)), "invariant")


def want(E, s, r):
    """the definition the identifier yields"""
    if s.state == "added":
        E.prove("an added definition is found", r is s.known)
    elif r is None:
        E.prove("no definition only if there is none", Not(FOUND(s.key.term)))
    else:
        E.prove("the definition on disk", And(FOUND(s.key.term), r is (s.known if s.state == "standard" else s.ondisk)))


LOAD = {"func:" + T + "cacheTimezone": st_load}


def p_get(E, s, r, exc):
    want(E, s, r)
    invariant(E, s, s.args[0])


add(T + "_getTimezone", lambda E, s: [database(E, s), s.key], p_get, stubs=LOAD)


def p_is(E, s, r, exc):
    if s.state != "added":
        E.prove("standard exactly if the database has it", Iff(E.truth_term(r), FOUND(s.key.term)))
    invariant(E, s, s.args[0])


add(T + "_isStandardTimezone", lambda E, s: [database(E, s), s.key], p_is, stubs=LOAD)


def s_add(E, s):
    o = database(E, s)
    s.new = zone(E, s.key)
    return [o, s.new]


def p_add(E, s, r, exc):
    o = s.args[0]
    m = o.slots["tzcache"].slots["v"]
    got = m.look(E, s.key)
    E.prove("found by its identifier afterwards", got is not None and got[1] is s.content)
    E.prove("a copy of the definition given", s.content is not None and s.content.slots.get("copy_of") is s.new and s.content.slots.get("parent") is s.cal)
    for v in (m, o.slots["stdtzcache"].slots["v"], o.slots["notstdtzcache"].slots["v"]):
        E.prove("only its identifier is recorded in %s" % v.name, And(not v.cleared, *[E.truth_term(E.eq(x[0], s.key)) for x in v.over]))
    invariant(E, s, o, True)


add(T + "addTimezone", s_add, p_add, stubs=LOAD)


def p_merge(E, s, r, exc):
    if s.state in ("standard", "added"):
        E.prove("a known definition is kept", s.content is s.known and not s.addcalls)
    elif s.content is s.ondisk:
        E.prove("a definition on disk is kept", not s.addcalls)
    else:
        E.prove("an unknown one is added", And(Not(FOUND(s.key.term)), s.content is not None and s.content.slots.get("copy_of") is s.new))
    invariant(E, s, s.args[0], bool(s.addcalls))


add(T + "mergeTimezone", s_add, p_merge, stubs=LOAD)


def p_clear(E, s, r, exc):
    o = s.args[0]
    for n in ("tzcache", "stdtzcache", "notstdtzcache"):
        v = o.slots[n].slots["v"]
        E.prove("%s is empty" % n, v in ({}, []) or getattr(v, "cleared", False) and not v.over)
    E.prove("a new calendar", o.slots["calendar"] is not s.cal)


add(T + "clear", lambda E, s: [database(E, s)], p_clear, stubs={"new:pycalendar.icalendar.calendar.Calendar": lambda E, cls, a, k: E.obj(CALC)})


# --- answers about times are the zone's, and 0 or "" without one
def s_off(E, s):
    s.key = text(E, "tzid")
    s.found = s.choose("found", 2) == 1
    s.answer = s.int("answer")
    s.dt = E.obj(ghost("moment"))
    s.rel = s.bool("relative_to_utc")
    return [s.key, s.dt, s.rel]


def tz_off(E, o, dt, rel=False):
    E.prove("call: the moment and the time line asked for", And(dt is E.S.dt, Iff(E.truth_term(rel), E.truth_term(E.S.rel))), "pre")
    return E.S.answer


def tz_desc(E, o, dt):
    E.prove("call: the moment asked for", dt is E.S.dt, "pre")
    return "THE NAME"


ZONE = ghost("timezone", getTimezoneOffsetSeconds=tz_off, getTimezoneDescriptor=tz_desc)


def st_gt(E, slots):
    E.prove("call: the identifier asked for", E.truth_term(E.eq(slots["tzid"], E.S.key)), "pre")
    return E.obj(ZONE) if E.S.found else None


GT = {"func:" + T + "getTimezone": st_gt}
add(T + "getTimezoneOffsetSeconds", s_off, lambda E, s, r, exc: E.prove("the zone's answer, or 0 without a definition", r == (s.answer if s.found else 0)), stubs=GT, props=("C16", "C20"))
add(T + "getTimezoneDescriptor", lambda E, s: s_off(E, s)[:2], lambda E, s, r, exc: E.prove("the zone's answer, or nothing", r == ("THE NAME" if s.found else "")), stubs=GT, props=("C16", "C20"))


# --- Calendar.getTimezone: the calendar's definition of exactly that identifier
CALQ = "pycalendar.icalendar.calendar.Calendar."


def s_calget(E, s):
    s.key = text(E, "tzid")

    def mk(E):
        return zone(E, SymSeq("char", z3.Const(E.fresh_name("id"), SEQ)))
    s.zones = AbsList("timezones", mk)
    s.none = False
    s.c = s.obj(CALQ[:-1])
    return [s.c, s.key]


def st_zones(E, slots):
    n = slots["compname"]
    E.prove("call: the timezones of this calendar", And(slots["self"] is E.S.c, isinstance(n, str) and n.upper() == "VTIMEZONE"), "pre")
    return E.plist(E.S.zones)


def step_calget(E, s, ctx, recs):
    E.prove("passed over because its identifier is another", Not(E.truth_term(E.eq(ctx[-1][1].slots["id"], s.key))))


def done_calget(E, s, ctx, al):
    s.none = True


def p_calget(E, s, r, exc):
    if s.none:
        E.prove("none has the identifier", r is None)
    else:
        E.prove("one with exactly that identifier", isinstance(r, Obj) and E.truth_term(E.eq(r.slots["id"], s.key)))


add(CALQ + "getTimezone", s_calget, p_calget, step=step_calget, done=done_calget, stubs={"func:pycalendar.componentbase.ComponentBase.getComponents": st_zones})


# --- the calendar's answers about times
def s_caloff(E, s):
    a = s_off(E, s)
    s.c = s.obj(CALQ[:-1])
    return [s.c] + a


def st_cgt(E, slots):
    E.prove("call: the identifier asked for, in this calendar", And(slots["self"] is E.S.c, E.truth_term(E.eq(slots["tzid"], E.S.key))), "pre")
    return E.obj(ZONE) if E.S.found else None


CGT = {"func:" + CALQ + "getTimezone": st_cgt}
add(CALQ + "getTimezoneOffsetSeconds", s_caloff, lambda E, s, r, exc: E.prove("the zone's answer, or 0 without a definition", r == (s.answer if s.found else 0)), stubs=CGT, props=("C16", "C20"))
add(CALQ + "getTimezoneDescriptor", lambda E, s: s_caloff(E, s)[:3], lambda E, s, r, exc: E.prove("the zone's answer, or nothing", r == ("THE NAME" if s.found else "")), stubs=CGT, props=("C16", "C20"))


# --- a timezone added as standard
def p_addstd(E, s, r, exc):
    o = s.args[0]
    if s.state in ("standard", "added"):
        E.prove("a known definition is kept", s.content is s.known and not s.addcalls)
    else:
        E.prove("an unknown one is added", s.content is not None and s.content.slots.get("copy_of") is s.new)
    m, std, non = o.slots["tzcache"].slots["v"], o.slots["stdtzcache"].slots["v"], o.slots["notstdtzcache"].slots["v"]
    E.prove("it is standard", E.truth_term(std.has(E, s.key)))
    for v in (m, std, non):
        E.prove("only its identifier is recorded in %s" % v.name, And(not v.cleared, *[E.truth_term(E.eq(x[0], s.key)) for x in v.over]))
    got = m.look(E, s.key)
    E.prove("found by its identifier afterwards", got is not None and got[1] is s.content)


add(T + "_addStandardTimezone", s_add, p_addstd, stubs=LOAD)


# --- the definitions of a calendar that is read
def s_mergeall(E, s):
    s.dbcal = E.obj(CALC)
    s.db = s.obj("pycalendar.timezonedb.TimezoneDatabase", calendar=s.dbcal)
    s.own = s.choose("own calendar", 2) == 1
    s.merged, s.all = [], False

    def mk(E):
        return zone(E, SymSeq("char", z3.Const(E.fresh_name("id"), SEQ)))
    s.tzs = E.plist(AbsList("definitions", mk))
    return [s.dbcal if s.own else E.obj(CALC), s.tzs]


def st_merge(E, slots):
    E.prove("call: into the database", slots["self"] is E.S.db, "pre")
    E.S.merged.append(slots["tz"])


def step_mergeall(E, s, ctx, recs):
    E.prove("each definition is merged once", len(s.merged) == 1 and s.merged[0] is ctx[-1][1])


def done_mergeall(E, s, ctx, al):
    s.all = True


def p_mergeall(E, s, r, exc):
    if s.own:
        E.prove("the database's own calendar is not merged", not s.merged and not s.all)
    else:
        E.prove("every definition is merged", s.all)


add(T + "mergeTimezones", s_mergeall, p_mergeall, step=step_mergeall, done=done_mergeall,
    stubs={"func:" + T + "getTimezoneDatabase": lambda E, slots: E.S.db, "func:" + T + "mergeTimezone": st_merge})


# --- a calendar with the definition
def new_cal(E, cls, a, k):
    o = E.obj(CALN)
    o.slots["parts"] = []
    E.S.made.append(o)
    return o


def n_add(E, o, x):
    E.setslot(o, "parts", o.slots["parts"] + [x])


CALN = ghost("calendar", addComponent=n_add)


def s_incal(E, s):
    s.key = text(E, "tzid")
    s.made = []
    s.found = zone(E, s.key) if s.choose("found", 2) else None
    return [s.key]


def st_found(E, slots):
    E.prove("call: the identifier asked for", E.truth_term(E.eq(slots["tzid"], E.S.key)), "pre")
    return E.S.found


def p_incal(E, s, r, exc):
    if s.found is None:
        E.prove("nothing without a definition", r is None)
        return
    E.prove("a new calendar", len(s.made) == 1 and r is s.made[0])
    v = r.slots["parts"]
    E.prove("with one copy of the definition", len(v) == 1 and v[0].slots.get("copy_of") is s.found and v[0].slots.get("parent") is r)


add(T + "getTimezoneInCalendar", s_incal, p_incal, stubs={"func:" + T + "getTimezone": st_found, "new:pycalendar.icalendar.calendar.Calendar": new_cal})
