"""C18, C09: the values that properties carry.  A copy of a value is a new value of the same class that is equal to
it and shares nothing that can be changed; equality is equality of type and content; equal values hash alike; the
setters of names and addresses change one part and leave the others alone."""
import z3
from vc.values import *
from vc.verify import Contract
from vc.vallist import Vals
from .spec import *
from .c18 import ThingV, NAME, name, n_t, FOLD, content, copy_of, prop, ghost

CONTRACTS = []
V = "pycalendar."
VC = V + "vcard."


def add(*a, **k):
    k.setdefault("props", ("C18",))
    k.setdefault("replay", False)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


# something a value holds: equal when the integers are; its copies are equal to it
PIECE = ghost("piece", duplicate=lambda E, o, **k: copy_of(E, o, **k), isDateOnly=lambda E, o: o.slots["dateonly"], getType=lambda E, o: o.slots["dateonly"])


def piece(E, s, n, **k):
    o = E.obj(PIECE)
    o.slots.update(v=ThingV(s.int(n)), **k)
    return o


def t_of(o):
    return o.slots["v"].t


PLAIN = ["plaintextvalue.PlainTextValue", "textvalue.TextValue", "urivalue.URIValue", "unknownvalue.UnknownValue", "binaryvalue.BinaryValue", "caladdressvalue.CalAddressValue",
         "floatvalue.FloatValue", "integervalue.IntegerValue", "utcoffsetvalue.UTCOffsetValue", "vcard.orgvalue.OrgValue"]
LISTS = {"geovalue.GeoValue": (2,), "icalendar.requeststatusvalue.RequestStatusValue": (2, 3)}
WRAPPED = ["datetimevalue.DateTimeValue", "durationvalue.DurationValue", "periodvalue.PeriodValue", "vcard.nvalue.NValue", "vcard.adrvalue.AdrValue", "icalendar.recurrencevalue.RecurrenceValue"]
PAIRS = {"vcard.n.N": ("Last", "First", "Middle", "Prefix", "Suffix"),
         "vcard.adr.Adr": ("Pobox", "Extended", "Street", "Locality", "Region", "PostalCode", "Country")}


def make(E, s, q, n):
    """a value of class q, and its content as a tuple of pieces"""
    if q in LISTS:
        k = LISTS[q][s.choose(n + ".length", len(LISTS[q]))]
        c = [piece(E, s, "%s%d" % (n, i)) for i in range(k)]
        return s.obj(V + q, mValue=E.plist(list(c))), tuple(c)
    if q in PAIRS:
        c = tuple(piece(E, s, "%s%d" % (n, i)) for i in range(len(PAIRS[q])))
        return s.obj(V + q, mValue=c), c
    p = piece(E, s, n, dateonly=s.bool(n + ".dateonly"))
    return s.obj(V + q, mValue=p), (p,)


def held(o):
    v = o.slots["mValue"]
    if isinstance(v, tuple):
        return v
    return (v,) if v.cls is PIECE else tuple(content(v))


def s_dup(q):
    def f(E, s):
        s.o, s.c = make(E, s, q, "a")
        s.list = s.o.slots["mValue"]
        return [s.o]
    return f


def p_dup(q):
    def f(E, s, r, exc):
        E.prove("a new value of the same class", isinstance(r, Obj) and r is not s.o and r.cls is s.o.cls)
        h = held(r)
        if q in WRAPPED:
            E.prove("that holds a copy of what it holds", len(h) == 1 and h[0] is not s.c[0] and h[0].slots.get("copyof") is s.c[0])
        else:
            E.prove("that holds the same", len(h) == len(s.c) and all(x is y for x, y in zip(h, s.c)))
        if q in LISTS:
            E.prove("in a list of its own", r.slots["mValue"] is not s.list)
        E.prove("the value is left alone", s.o.slots["mValue"] is s.list and len(held(s.o)) == len(s.c) and all(x is y for x, y in zip(held(s.o), s.c)))
    return f


def r_laws(q):
    def f(E, s):
        s.a, s.ca = make(E, s, q, "a")
        s.b, s.cb = make(E, s, q, "b")
        eq = E.compare("Eq", s.a, s.b)
        ne = E.compare("NotEq", s.a, s.b)
        h = E.builtins["hash"].fn
        return eq, ne, h(E, [s.a], {}), h(E, [s.b], {})
    return f


def p_laws(q):
    def f(E, s, r, exc):
        from .c12 import hval
        eq, ne, h1, h2 = r
        x = And(len(s.ca) == len(s.cb), *[t_of(p) == t_of(y) for p, y in zip(s.ca, s.cb)])
        if q == "datetimevalue.DateTimeValue":
            x = And(x, s.ca[0].slots["dateonly"] == s.cb[0].slots["dateonly"])     # a date is not a date-time
        E.prove("equal when what they hold is", Iff(E.truth_term(eq), x))
        E.prove("!= is not ==", Iff(E.truth_term(ne), Not(E.truth_term(eq))))
        E.prove("equal values hash alike", Implies(E.truth_term(eq), hval(E, h1, h2)))
    return f


def s_set(q):
    def f(E, s):
        s.o, s.c = make(E, s, q, "a")
        s.x = make(E, s, q, "b")[0].slots["mValue"]
        return []
    return f


def r_set(E, s):
    E.call(E.getattr_(s.o, "setValue"), [s.x], {})
    return E.call(E.getattr_(s.o, "getValue"), [], {})


def own(q, n):
    return V + q + "." + n


for q in PLAIN + list(LISTS) + WRAPPED + list(PAIRS):
    add(own(q, "duplicate"), s_dup(q), p_dup(q))
    if q in ("plaintextvalue.PlainTextValue",):
        continue
    add(own(q, "__eq__"), lambda E, s: [], p_laws(q), run=r_laws(q), name=own(q, "__eq__, __ne__, __hash__"))
    add(own(q, "setValue"), s_set(q), lambda E, s, r, exc: E.prove("what was set", r is s.x), run=r_set, name=own(q, "setValue, getValue"))


# values of different types are never equal, nor a value and something else
def r_other(E, s):
    qs = [q for q in PLAIN[1:] + list(LISTS) + WRAPPED]
    i = s.choose("type", len(qs))
    j = s.choose("other", len(qs) + 1)
    a, c = make(E, s, qs[i], "a")
    b = E.obj(PIECE) if j == len(qs) else make(E, s, qs[j], "b")[0]
    s.same = i == j
    return E.compare("Eq", a, b), E.compare("NotEq", a, b)


def p_other(E, s, r, exc):
    if not s.same:
        E.prove("not equal", Not(E.truth_term(r[0])))
        E.prove("different", E.truth_term(r[1]))


add(V + "value.Value.__eq__", lambda E, s: [], p_other, run=r_other, name="value.Value.__eq__, __ne__ of values of different types")


# parts of names and addresses
def s_part(q, i):
    def f(E, s):
        s.o, s.c = make(E, s, q, "a")
        s.x = piece(E, s, "x")
        return [s.o, s.x]
    return f


def p_setpart(q, i):
    def f(E, s, r, exc):
        v = s.o.slots["mValue"]
        E.prove("as many parts", isinstance(v, tuple) and len(v) == len(PAIRS[q]))
        E.prove("that part is the one given, every other is as it was", all(y is (s.x if j == i else s.c[j]) for j, y in enumerate(v)))
    return f


for q, parts in PAIRS.items():
    for i, n in enumerate(parts):
        add(own(q, "set" + n), s_part(q, i), p_setpart(q, i), props=("C09",))
        add(own(q, "get" + n), lambda E, s, q=q: [s_part(q, 0)(E, s)[0]], lambda E, s, r, exc, i=i: E.prove("that part", r is s.c[i]), props=("C09",))


def s_init(q):
    def f(E, s):
        s.c = tuple(piece(E, s, "a%d" % i) for i in range(len(PAIRS[q])))
        s.given = s.choose("given", len(s.c) + 1)
        s.o = s.obj(V + q)
        return [s.o] + list(s.c[:s.given])
    return f


def p_init(E, s, r, exc):
    v = s.o.slots["mValue"]
    E.prove("the parts given, in order, the rest empty", isinstance(v, tuple) and len(v) == len(s.c) and all(x is y for x, y in zip(v, s.c[:s.given])) and all(x == "" for x in v[s.given:]))


for q in PAIRS:
    add(own(q, "__init__"), s_init(q), p_init, props=("C09",))


# reading and writing structured values: once, with the right separator or number of parts
UT = V + "utils."


def st_write(what):
    def f(E, slots):
        E.S.wrote.append((what, slots))
        return None
    return f


def st_read(what):
    def f(E, slots):
        E.S.read.append((what, slots))
        return E.S.result
    return f


WRITERS = {"func:" + UT + "generateDoubleNestedList": st_write("nested"), "func:" + UT + "generateTextList": st_write("list")}
READERS = {"func:" + UT + "parseDoubleNestedList": st_read("nested"), "func:" + UT + "parseTextList": st_read("list")}


def s_gen(q):
    def f(E, s):
        s.o, s.c = make(E, s, q, "a")
        s.os = E.obj(PIECE)
        s.wrote = []
        return [s.o, s.os]
    return f


def p_gen(q):
    def f(E, s, r, exc):
        E.prove("written once", len(s.wrote) == 1)
        what, a = s.wrote[0]
        E.prove("to the output", a["os"] is s.os)
        if q in PAIRS:
            E.prove("as a nested list of all its parts, in order", what == "nested" and len(a["data"]) == len(s.c) and all(x is y for x, y in zip(a["data"], s.c)))
        elif q == "vcard.orgvalue.OrgValue":
            E.prove("as a list separated by semicolons", what == "list" and a["sep"] == ";" and a["data"] is s.c[0])
        else:
            E.prove("as a list separated by semicolons", what == "list" and a["sep"] == ";")
            x = content(a["data"])
            E.prove("of its parts in order", all(p is y for p, y in zip(x, s.c)))
            k = E.truth_term(s.c[2]) if len(s.c) == 3 else True
            E.prove("an empty third part alone is left out", len(x) == len(s.c) or (len(s.c) == 3 and len(x) == 2 and Not(k)))
    return f


def s_parse(q):
    def f(E, s):
        s.o, s.c = make(E, s, q, "a")
        s.text = E.obj(PIECE)
        s.result = E.obj(PIECE)
        s.read = []
        return [s.o, s.text]
    return f


def p_parse(q):
    def f(E, s, r, exc):
        E.prove("read once", len(s.read) == 1)
        what, a = s.read[0]
        E.prove("from the text", a["data"] is s.text)
        if q in PAIRS:
            E.prove("as a nested list of as many parts as there are", what == "nested" and a["maxsize"] == len(PAIRS[q]))
        else:
            E.prove("as a list separated by semicolons", what == "list" and a["sep"] == ";" and not a["always_list"])
        E.prove("the value is what was read", s.o.slots["mValue"] is s.result)
    return f


ORG = "vcard.orgvalue.OrgValue"
for q in list(PAIRS) + [ORG]:
    add(own(q, "generate"), s_gen(q), p_gen(q), stubs=WRITERS, props=("C09",))
    add(own(q, "parse"), s_parse(q), p_parse(q), stubs=READERS, props=("C09",))


# request statuses
RS = "icalendar.requeststatusvalue.RequestStatusValue"


def txt(E, s, n):
    """a text, of which is known whether it is empty, and whether it has a backslash or a semicolon"""
    o = E.obj(TXT)
    o.slots.update(v=ThingV(s.int(n)), some=s.bool(n + ".some"), has={"\\": s.bool(n + ".backslash"), ";": s.bool(n + ".semicolon")}, n=n)
    return o


def txt_split(E, o, sep, k=-1):
    E.prove("call: split at the first semicolon", sep == ";" and k == 1, "pre")
    E.S.split = (txt(E, E.S, "before"), txt(E, E.S, "after"))
    return E.plist(list(E.S.split)) if E.branch(o.slots["has"][";"]) else E.plist([o])


def txt_replace(E, o, a, b):
    E.prove("call: only backslashes are removed", a == "\\" and b == "", "pre")
    r = txt(E, E.S, o.slots["n"] + ".without")
    r.slots["without"] = o
    return r


TXT = ghost("text", __nonzero__=lambda E, o: o.slots["some"], __contains__=lambda E, o, x: o.slots["has"][x], split=txt_split, replace=txt_replace)


def s_rsgen(E, s):
    s.c = [txt(E, s, "p%d" % i) for i in range(2 + s.choose("parts", 2))]
    s.o = s.obj(V + RS, mValue=E.plist(list(s.c)))
    s.os = E.obj(PIECE)
    s.wrote = []
    return [s.o, s.os]


def p_rsgen(E, s, r, exc):
    E.prove("written once, to the output, as a list separated by semicolons", len(s.wrote) == 1 and s.wrote[0][0] == "list" and s.wrote[0][1]["os"] is s.os and s.wrote[0][1]["sep"] == ";")
    x = content(s.wrote[0][1]["data"])
    E.prove("of its parts, in order", len(x) >= 2 and all(p is y for p, y in zip(x, s.c)))
    if len(s.c) == 3:
        E.prove("an empty third part is left out, any other is not", Iff(s.c[2].slots["some"], len(x) == 3))


add(own(RS, "generate"), s_rsgen, p_rsgen, stubs=WRITERS, props=("C09",))


def s_rsparse(E, s):
    s.c = [txt(E, s, "p%d" % i) for i in range(1 + s.choose("parts", 5))]
    s.o = s.obj(V + RS, mValue=E.plist([]))
    s.text = E.obj(PIECE)
    s.result = E.plist(list(s.c))
    s.read = []
    s.split = None
    return [s.o, s.text]


def p_rsparse(E, s, r, exc):
    E.prove("read once, as a list separated by semicolons, even of one part", len(s.read) == 1 and s.read[0][0] == "list" and s.read[0][1]["data"] is s.text and s.read[0][1]["sep"] == ";" and s.read[0][1]["always_list"] is True)
    h = content(s.o.slots["mValue"])
    want = list(s.c[:3])
    if len(want) == 1:
        want = list(s.split) if s.split else [s.c[0], ""]
        E.prove("one part alone is split only at a semicolon", Iff(s.split is not None, s.c[0].slots["has"][";"]))
    E.prove("at least two parts", len(h) in (2, len(want)))
    E.prove("the parts in order", all(x is y for x, y in zip(h[1:], want[1:])))
    E.prove("the code, without backslashes", Not(want[0].slots["has"]["\\"]) if h[0] is want[0] else h[0].slots.get("without") is want[0])
    if len(want) == 3:
        E.prove("an empty third part is left out, any other is not", Iff(want[2].slots["some"], len(h) == 3))


add(own(RS, "parse"), s_rsparse, p_rsparse, stubs=READERS, props=("C09",))


# lists of values
MV = V + "multivalue.MultiValue"


def multi(E, s, n):
    c = [piece(E, s, "%s%d" % (n, i)) for i in range(s.choose(n, 4))]
    return s.obj(MV, mType=s.int(n + ".type"), mValues=E.plist(list(c))), c


def s_dupmulti(E, s):
    s.o, s.c = multi(E, s, "m")
    return [s.o]


def p_dupmulti(E, s, r, exc):
    E.prove("a new list of values of the same type", r is not s.o and r.cls is s.o.cls and r.slots["mType"] is s.o.slots["mType"])
    v = content(r.slots["mValues"])
    E.prove("copies of the values, in order", len(v) == len(s.c) and all(x is not y and x.slots.get("copyof") is y for x, y in zip(v, s.c)))
    E.prove("the values are left alone", r.slots["mValues"] is not s.o.slots["mValues"] and content(s.o.slots["mValues"]) == s.c)


add(MV + ".duplicate", s_dupmulti, p_dupmulti, bounded="at most three values")


def r_multilaws(E, s):
    s.a, s.ca = multi(E, s, "a")
    s.b, s.cb = multi(E, s, "b")
    h = E.builtins["hash"].fn
    return E.compare("Eq", s.a, s.b), E.compare("NotEq", s.a, s.b), h(E, [s.a], {}), h(E, [s.b], {})


def p_multilaws(E, s, r, exc):
    from .c12 import hval
    eq, ne, h1, h2 = r
    x = And(s.a.slots["mType"] == s.b.slots["mType"], len(s.ca) == len(s.cb), *[t_of(p) == t_of(q) for p, q in zip(s.ca, s.cb)])
    E.prove("equal when the types are and the values are, in order", Iff(E.truth_term(eq), x))
    E.prove("!= is not ==", Iff(E.truth_term(ne), Not(E.truth_term(eq))))
    E.prove("equal lists of values hash alike", Implies(E.truth_term(eq), hval(E, h1, h2)))


add(MV + ".__eq__", lambda E, s: [], p_multilaws, run=r_multilaws, name=MV + ".__eq__, __ne__, __hash__", bounded="at most three values")


# setting: one new value per element given, in order, whatever was there before
def new_value(E, o, value=None, **k):
    o.slots["set"] = value
    return None


NEWV = ghost("new value", setValue=lambda E, o, v: new_value(E, o, v))


def st_created(E, slots):
    E.prove("call: of its own type", slots["value_type"] is E.S.o.slots["mType"], "pre")
    return E.obj(NEWV)


def s_setmulti(E, s):
    s.o, s.c = multi(E, s, "m")
    s.given = [piece(E, s, "x%d" % i) for i in range(s.choose("given", 4))]
    return [s.o, E.plist(list(s.given))]


def p_setmulti(E, s, r, exc):
    v = content(s.o.slots["mValues"])
    E.prove("one new value for each given, in order, set to it", len(v) == len(s.given) and all(x.cls is NEWV and x.slots.get("set") is y for x, y in zip(v, s.given)) and len(set(id(x) for x in v)) == len(v))


add(MV + ".setValue", s_setmulti, p_setmulti, stubs={"func:" + V + "value.Value.createFromType": st_created}, bounded="at most three values", props=("C18", "C09"))


# a property is not equal to something that is not one; address book properties
VP = VC + "property.Property"
IPR = V + "icalendar.property.Property"


def r_notprop(E, s):
    s.a, s.pa = prop(E, s, "a")
    other = [E.obj(PIECE), None, 5, "text"][s.choose("other", 4)]
    return E.compare("Eq", s.a, other), E.compare("NotEq", s.a, other)


def p_notprop(E, s, r, exc):
    E.prove("not equal", Not(E.truth_term(r[0])))
    E.prove("different", E.truth_term(r[1]))


add(IPR + ".__eq__", lambda E, s: [], p_notprop, run=r_notprop, name=IPR + ".__eq__ with something else")


def vprop(E, s, n):
    o, ps = prop(E, s, n)
    o.cls = E.find_qual(VP)
    o.slots["mGroup"] = [None, piece(E, s, n + ".group")][s.choose(n + ".hasgroup", 2)]
    return o, ps


def s_dupvprop(E, s):
    s.o, s.ps = vprop(E, s, "p")
    return [s.o]


def st_newvprop(E, cls, args, kw):
    r = E.obj(cls)
    r.slots.update(mGroup=args[0], mName=args[1], mValue=None, mParameters=E.pdict({}))
    return r


def p_dupvprop(E, s, r, exc):
    E.prove("a new property of the same name and group", r is not s.o and r.cls is s.o.cls and r.slots["mName"] is s.o.slots["mName"] and r.slots["mGroup"] is s.o.slots["mGroup"])
    E.prove("a copy of the value", r.slots["mValue"].slots.get("copyof") is s.o.slots["mValue"])
    d = content(r.slots["mParameters"])
    E.prove("copies of the parameters, in order", sorted(d) == sorted(s.ps) and all(len(content(d[k])) == len(v) and all(x.slots.get("copyof") is y for x, y in zip(content(d[k]), v)) for k, v in s.ps.items()))
    E.prove("the property is left alone", all(content(content(s.o.slots["mParameters"])[k]) == v for k, v in s.ps.items()))


BP = "at most two parameter names and two parameters of a name"
add(VP + ".duplicate", s_dupvprop, p_dupvprop, stubs={"new:" + VP: st_newvprop}, bounded=BP)


def r_vlaws(E, s):
    s.a, s.pa = vprop(E, s, "a")
    s.b, s.pb = vprop(E, s, "b")
    h = E.builtins["hash"].fn
    return E.compare("Eq", s.a, s.b), E.compare("NotEq", s.a, s.b), h(E, [s.a], {}), h(E, [s.b], {})


def p_vlaws(E, s, r, exc):
    from .c12 import hval
    eq, ne, h1, h2 = r
    ga, gb = s.a.slots["mGroup"], s.b.slots["mGroup"]
    same = (ga is None) == (gb is None) and (ga is None or t_of(ga) == t_of(gb))
    x = And(same, n_t(s.a.slots["mName"]) == n_t(s.b.slots["mName"]), t_of(s.a.slots["mValue"]) == t_of(s.b.slots["mValue"]),
            sorted(s.pa) == sorted(s.pb) and all(len(s.pa[k]) == len(s.pb[k]) for k in s.pa),
            *[t_of(p) == t_of(q) for k in s.pa if k in s.pb for p, q in zip(s.pa[k], s.pb[k])])
    E.prove("equal when the groups, the names, the values and the parameters are", Iff(E.truth_term(eq), x))
    E.prove("!= is not ==", Iff(E.truth_term(ne), Not(E.truth_term(eq))))
    E.prove("equal properties hash alike", Implies(E.truth_term(eq), hval(E, h1, h2)))


add(VP + ".__eq__", lambda E, s: [], p_vlaws, run=r_vlaws, name=VP + ".__eq__, __ne__, __hash__", bounded=BP)
