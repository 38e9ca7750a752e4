"""C22: the JSON form.  Every kind of value written as JSON and read back is the same value (dates, durations, offsets and
periods through the texts proved under C07 and C08, rules part by part); parameters, properties and components are read
back as what was written.  JSON text itself (json.dumps, json.loads, UTF-8) is assumed to give back what it was given."""
from vc.values import *
from vc.verify import Contract
from .spec import *
from .c18 import ThingV, ghost, n_t, FOLD, LOW
from .c12 import RC, BYS, SCALARS, R, values
from . import c07, c08

CONTRACTS = []
V = "pycalendar."
PRM = V + "parameter.Parameter"
IPROP = V + "icalendar.property.Property"
CB = V + "componentbase.ComponentBase"


def add(*a, **k):
    k.setdefault("props", ("C22",))
    k.setdefault("replay", False)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


for _c in c07.CONTRACTS + c08.CONTRACTS:
    if _c.name.endswith("_json_round") or ".getXMLText" in _c.name:
        _c.props = tuple(_c.props) + ("C22",)

# --- a text as a value holds it; JSON gives it back as unicode, which encodes to it again
TXT = ghost("jtext", encode=lambda E, o, how: o, upper=lambda E, o: text(E, FOLD(tt(o))), lower=lambda E, o: text(E, LOW(tt(o))))
# a number that is not whole
NUM = ghost("jnumber", __float__=lambda E, o: o)


def tt(o):
    return o.slots["v"].t


def text(E, t):
    o = E.obj(TXT)
    o.slots["v"] = ThingV(t)
    return o


def atext(E, s, n):
    return text(E, s.int(n))


def jlist(E):
    return E.plist([])


def items(o):
    return list(o.slots["v"])


def call(E, o, name, *a):
    return E.call(E.getattr_(o, name), list(a), {})


# ---- values
def r_value(q, make):
    def f(E, s):
        s.held = make(E, s)
        s.o = s.obj(V + q, mValue=s.held)
        j = jlist(E)
        call(E, s.o, "writeJSONValue", j)
        s.out = items(j)
        E.prove("one JSON value", len(s.out) == 1)
        n = s.obj(V + q, mValue=None)
        call(E, n, "parseJSONValue", s.out[0])
        return n
    return f


def alike(E, a, b):
    if isinstance(a, Obj) and isinstance(b, Obj) and isinstance(a.slots.get("v"), (list, tuple)):
        a, b = items(a), items(b)
    if isinstance(a, (list, tuple)):
        return And(isinstance(b, (list, tuple)) and len(a) == len(b), *[alike(E, x, y) for x, y in zip(a, b)])
    return E.truth_term(E.eq(a, b))


def p_value(E, s, n, exc):
    E.prove("what is read is what was written", alike(E, s.held, n.slots["mValue"]))
    E.prove("the value is left alone", s.o.slots["mValue"] is s.held)


TEXTS = ["plaintextvalue.PlainTextValue", "textvalue.TextValue", "urivalue.URIValue", "unknownvalue.UnknownValue", "binaryvalue.BinaryValue", "caladdressvalue.CalAddressValue"]
for q in TEXTS:
    add(V + q + ".writeJSONValue", lambda E, s: [], p_value, run=r_value(q, lambda E, s: atext(E, s, "t")), name=V + q + ".writeJSONValue, parseJSONValue")
add(V + "integervalue.IntegerValue.writeJSONValue", lambda E, s: [], p_value, run=r_value("integervalue.IntegerValue", lambda E, s: s.int("n")), name=V + "integervalue.IntegerValue.writeJSONValue, parseJSONValue")


def m_status(E, s):
    return E.plist([atext(E, s, "t%d" % i) for i in range(2 + s.choose("data", 2))])


add(V + "icalendar.requeststatusvalue.RequestStatusValue.writeJSONValue", lambda E, s: [], p_value, run=r_value("icalendar.requeststatusvalue.RequestStatusValue", m_status),
    name=V + "icalendar.requeststatusvalue.RequestStatusValue.writeJSONValue, parseJSONValue")


def m_geo(E, s):
    o = [E.obj(NUM), E.obj(NUM)]
    for i, x in enumerate(o):
        x.slots["v"] = ThingV(s.int("n%d" % i))
    return E.plist(o)


add(V + "geovalue.GeoValue.writeJSONValue", lambda E, s: [], p_value, run=r_value("geovalue.GeoValue", m_geo), name=V + "geovalue.GeoValue.writeJSONValue, parseJSONValue")

add(V + "floatvalue.FloatValue.writeJSONValue", lambda E, s: [], p_value, run=r_value("floatvalue.FloatValue", lambda E, s: m_geo(E, s).slots["v"][0]), name=V + "floatvalue.FloatValue.writeJSONValue, parseJSONValue")

# values that wrap something with a JSON form of its own
WRAP = ghost("wrapped", writeJSON=lambda E, o, j: E.call(E.getattr_(j, "append"), [o.slots["form"]], {}), parseJSON=lambda E, o, j: E.setslot(o, "read", j))


def r_wrap(q):
    def f(E, s):
        s.held = E.obj(WRAP)
        s.held.slots.update(form=atext(E, s, "form"))
        s.o = s.obj(V + q, mValue=s.held)
        j = jlist(E)
        call(E, s.o, "writeJSONValue", j)
        s.out = items(j)
        E.prove("one JSON value", len(s.out) == 1)
        w = E.obj(WRAP)
        n = s.obj(V + q, mValue=w)
        call(E, n, "parseJSONValue", s.out[0])
        return n
    return f


def p_wrap(E, s, n, exc):
    E.prove("the form of what it wraps is read by what it wraps", n.slots["mValue"].slots.get("read") is s.held.slots["form"])


for q in ("datetimevalue.DateTimeValue", "durationvalue.DurationValue", "periodvalue.PeriodValue", "icalendar.recurrencevalue.RecurrenceValue"):
    add(V + q + ".writeJSONValue", lambda E, s: [], p_wrap, run=r_wrap(q), name=V + q + ".writeJSONValue, parseJSONValue")

# ---- a parameter
AT_MOST_3 = "at most three values"


def s_param(E, s):
    s.name = atext(E, s, "name")
    s.vals = [atext(E, s, "v%d" % i) for i in range(1 + s.choose("values", 3))]
    s.list = E.plist(list(s.vals))
    s.d = E.pdict({})
    return [s.obj(PRM, mName="X-Param", mValues=s.list), s.d]


def p_param(E, s, r, exc):
    d = s.d.slots["v"]
    E.prove("under its name in lower case", list(d) == ["x-param"])
    x = d["x-param"]
    if len(s.vals) == 1 and not (isinstance(x, Obj) and isinstance(x.slots.get("v"), list)):
        E.prove("its value", x is s.vals[0])
    else:
        E.prove("its values, in order", isinstance(x, Obj) and len(items(x)) == len(s.vals) and all(a is b for a, b in zip(items(x), s.vals)))
        E.prove("one value is not a list", len(s.vals) != 1)
    E.prove("the parameter is left alone", s.args[0].slots["mValues"] is s.list and len(items(s.list)) == len(s.vals))


add(PRM + ".writeJSON", s_param, p_param, bounded=AT_MOST_3)

# ---- rules
XML = {"mBySeconds": "bysecond", "mByMinutes": "byminute", "mByHours": "byhour", "mByMonthDay": "bymonthday", "mByYearDay": "byyearday", "mByWeekNo": "byweekno", "mByMonth": "bymonth", "mBySetPos": "bysetpos", "mByDay": "byday"}


def r_rule(E, s):
    mode = s.choose("parts", 12)
    o = s.obj(RC)
    call(E, o, "init_Recurrence")
    if mode < 9:
        o.slots[BYS[mode]] = values(E, s, BYS[mode], 1 + s.choose("two", 2))
    elif mode == 9:
        o.slots["mFreq"] = s.choose("freq", 7)
        o.slots["mWeekstart"] = s.choose("wkst", 7)
    elif mode == 10:
        k = s.choose("end", 3)
        if k == 1:
            o.slots.update(mUseCount=True, mCount=s.int("count", 1))
        elif k == 2:
            o.slots.update(mUseUntil=True, mUntil=E.obj(E.find_qual("pycalendar.datetime.DateTime")))
        o.slots["mInterval"] = s.int("interval", 1)
    else:
        for b in BYS:
            o.slots[b] = E.plist([(2, 4)] if b == "mByDay" else [3])
        o.slots.update(mUseCount=True, mCount=s.int("count", 1), mInterval=s.int("interval", 1), mWeekstart=4)
    s.o = o
    j = jlist(E)
    call(E, o, "writeJSON", j)
    out = items(j)
    E.prove("one object", len(out) == 1)
    d = out[0].slots["v"]
    for b in BYS:
        E.prove("a part is written exactly when there are values: " + b, (XML[b] in d) == (o.slots[b] is not None))
        if o.slots[b] is not None and b != "mByDay":
            E.prove("as a list of numbers: " + b, alike(E, o.slots[b], d[XML[b]]))
    n = s.obj(RC)
    call(E, n, "init_Recurrence")
    call(E, n, "parseJSON", out[0])
    return n


def st_until_text(E, slots):
    return "2020-01-01"


def st_read_until(E, slots):
    E.prove("the end date is read from what was written", slots["data"] == "20200101")
    E.setslot(slots["self"], "read", True)
    return None


def p_rule(E, s, n, exc):
    o = s.o
    for k in SCALARS:
        E.prove("%s survives" % k, n.slots[k] == o.slots[k])
    for b in BYS:
        x, y = o.slots[b], n.slots[b]
        E.prove("%s survives" % b, (x is None) == (y is None) and (x is None or E.truth_term(E.eq(tuple(x.slots["v"]), tuple(y.slots["v"])))))
    E.prove("the end date survives", (o.slots["mUntil"] is None) == (n.slots["mUntil"] is None))


add(R + "writeJSON", lambda E, s: [], p_rule, run=r_rule, name=R + "writeJSON then parseJSON", timeout=300, bounded="one list part of one or two values, or every part with one value",
    stubs={"func:pycalendar.datetime.DateTime.getXMLText": st_until_text, "func:pycalendar.datetime.DateTime.parse": st_read_until})

# ---- lists of values
MV = V + "multivalue.MultiValue"
VAL = ghost("jvalue", getType=lambda E, o: o.slots["type"], parseJSONValue=lambda E, o, j: E.setslot(o, "read", j),
            writeJSONValue=lambda E, o, j: E.call(E.getattr_(j, "append"), [o.slots["form"]], {}), writeJSON=lambda E, o, j: w_value(E, o, j), getValue=lambda E, o: o.slots.get("read"))


def w_value(E, o, j):
    E.call(E.getattr_(j, "append"), ["a-type"], {})
    E.call(E.getattr_(j, "append"), [o.slots["form"]], {})


def val(E, s, n):
    o = E.obj(VAL)
    o.slots.update(form=atext(E, s, n), type=5)
    return o


def st_create(E, slots):
    o = E.obj(VAL)
    o.slots.update(type=slots["value_type"], form=None)
    E.S.created.append(o)
    return o


CREATE = {"func:pycalendar.value.Value.createFromType": st_create}


def r_mv(E, s):
    s.created = []
    s.vals = [val(E, s, "v%d" % i) for i in range(s.choose("values", 4))]
    s.o = s.obj(MV, mType=5, mValues=E.plist(list(s.vals)))
    j = jlist(E)
    call(E, s.o, "writeJSONValue", j)
    n = s.obj(MV, mType=5, mValues=E.plist([]))
    call(E, n, "parseJSONValue", j)
    return n


def p_mv(E, s, n, exc):
    got = items(n.slots["mValues"])
    E.prove("as many values of its type, each reading what the one in its place wrote", len(got) == len(s.vals) and all(g.slots["type"] == 5 and g.slots.get("read") is v.slots["form"] for g, v in zip(got, s.vals)))
    E.prove("the list is left alone", items(s.o.slots["mValues"]) == s.vals)


add(MV + ".writeJSONValue", lambda E, s: [], p_mv, run=r_mv, stubs=CREATE, bounded=AT_MOST_3, name=MV + ".writeJSONValue, parseJSONValue")

# ---- a property
ATTR = ghost("jparameter", getName=lambda E, o: o.slots["name"], writeJSON=lambda E, o, d: E.setitem(d, o.slots["name"].lower(), o.slots["form"]))


def s_wprop(E, s):
    s.value = val(E, s, "value") if s.choose("has value", 2) else None
    s.attrs = {}
    for k in ("TZID", "VALUE", "X-A"):
        if s.choose(k, 2):
            a = E.obj(ATTR)
            a.slots.update(name=k, form=atext(E, s, k))
            s.attrs[k] = a
    s.lists = dict((k, E.plist([a])) for k, a in s.attrs.items())
    s.p = s.obj(IPROP, mName="Summary", mValue=s.value, mParameters=E.pdict(dict(s.lists)))
    s.out = jlist(E)
    s.novalue = s.choose("novalue", 2) == 1
    return [s.p, s.out, s.novalue]


def p_wprop(E, s, r, exc):
    out = items(s.out)
    E.prove("one array", len(out) == 1)
    j = items(out[0])
    E.prove("name, parameters, type and value", len(j) == (4 if s.value is not None and not s.novalue else 2))
    E.prove("the name in lower case", j[0] == "summary")
    d = j[1].slots["v"]
    want = [k for k in s.attrs if k != "VALUE"]
    E.prove("every parameter but VALUE, under its name in lower case", sorted(d) == sorted(k.lower() for k in want) and all(d[k.lower()] is s.attrs[k].slots["form"] for k in want))
    if len(j) == 4:
        E.prove("what the value writes", j[2] == "a-type" and j[3] is s.value.slots["form"])
    ps = s.p.slots["mParameters"].slots["v"]
    E.prove("the property is left alone", s.p.slots["mName"] == "Summary" and s.p.slots["mValue"] is s.value and sorted(ps) == sorted(s.attrs) and all(ps[k] is s.lists[k] for k in ps))


add(IPROP + ".generateValueJSON", s_wprop, p_wprop, bounded="three parameter names, one parameter of a name", name=IPROP + ".generateValueJSON")

NAMES = {"summary": ("TEXT", False), "dtstart": ("DATE-TIME", False), "exdate": ("DATE-TIME", True), "trigger": ("DURATION", False), "x-foo": (None, False), "attendee": ("CAL-ADDRESS", False)}
TYPES = ["BINARY", "BOOLEAN", "CAL-ADDRESS", "DATE", "DATE-TIME", "DURATION", "FLOAT", "INTEGER", "PERIOD", "RECUR", "TEXT", "TIME", "URI", "UTC-OFFSET"]


def st_post(E, slots):
    E.S.posted.append((slots["self"], slots["value_type"]))


def s_rprop(E, s):
    s.created, s.posted = [], []
    s.name = sorted(NAMES)[s.choose("name", len(NAMES))]
    s.type = TYPES[s.choose("type", len(TYPES))]
    d = {}
    s.given = {}
    k = s.choose("a", 4)
    if k:
        s.given["X-A"] = [atext(E, s, "a%d" % i) for i in range(k)]
        d["x-a"] = E.plist(list(s.given["X-A"])) if k > 1 else s.given["X-A"][0]
    if s.choose("tzid", 2):
        s.given["TZID"] = [atext(E, s, "tzid")]
        d["tzid"] = s.given["TZID"][0]
    s.forms = [atext(E, s, "f%d" % i) for i in range(1 + (s.choose("more", 3) if NAMES[s.name][1] else 0))]
    return [E.find_qual(IPROP), E.plist([s.name, E.pdict(d), s.type.lower()] + s.forms)]


def p_rprop(E, s, p, exc):
    E.prove("read", exc is None)
    E.prove("a property of that name", p.cls is E.find_qual(IPROP) and p.slots["mName"] == s.name.upper())
    default, many = NAMES[s.name]
    ps = p.slots["mParameters"].slots["v"]
    names = sorted(list(s.given) + (["VALUE"] if s.type != default else []))
    E.prove("its parameters, and VALUE when the type is not what the name stands for", sorted(ps) == names)
    for k in ps:
        a = items(ps[k])
        E.prove("once each: " + k, len(a) == 1 and a[0].slots["mName"] == k)
        v = items(a[0].slots["mValues"])
        if k == "VALUE":
            E.prove("the type read", v == [s.type])
        else:
            E.prove("with its values, in order: " + k, len(v) == len(s.given[k]) and all(x is y for x, y in zip(v, s.given[k])))
    v = p.slots["mValue"]
    if many:
        E.prove("a list of values", v.cls is E.find_qual(MV))
        vs = items(v.slots["mValues"])
    else:
        vs = [v]
    cls = E.find_qual(IPROP)
    num = E.getattr_(cls, "sValueTypeMap").slots["v"][s.type]
    E.prove("of the type written, reading what is written", len(vs) == len(s.forms) and all(x.cls is VAL and E.entailed(E.truth_term(E.eq(x.slots["type"], num))) and x.slots.get("read") is f for x, f in zip(vs, s.forms)))
    E.prove("completed as a property of its type", len(s.posted) == 1 and s.posted[0][0] is p and E.entailed(E.truth_term(E.eq(s.posted[0][1], num))))


add(IPROP + ".parseJSON", s_rprop, p_rprop, raises=lambda E, s, x: True, stubs=dict(CREATE, **{"func:" + IPROP + "._postCreateValue": st_post}), bounded="two parameter names, at most three values of a parameter and of a list", name=IPROP + ".parseJSON")

# ---- a component: any number of properties of a name and of components
from vc.abslist import AbsList
VE = V + "icalendar.vevent.VEvent"


def x_write(E, o, j):
    s = E.S
    E.prove("into the array being written", j is s.out)
    s.wrote = s.wrote + [o]


MEMBER = ghost("jmember", writeJSON=x_write)


def s_writep(E, s):
    s.wrote, s.every = [], []
    s.pa, s.pb = AbsList("properties A", lambda E: E.obj(MEMBER)), AbsList("properties B", lambda E: E.obj(MEMBER))
    s.out = jlist(E)
    return [s.obj(VE, mProperties=E.pdict({"X-B": E.plist(s.pb), "DTSTART": E.plist(s.pa)}), mComponents=E.plist([])), s.out]


def step_w(E, s, ctx, recs):
    al, x = ctx[-1][:2]
    E.prove("each is written, once", len(s.wrote) == 1 and s.wrote[0] is x)


def done_w(E, s, ctx, al):
    s.every = s.every + [al]


add(CB + ".writePropertiesJSON", s_writep, lambda E, s, r, exc: E.prove("all of them, once", s.every.count(s.pa) == 1 and s.every.count(s.pb) == 1 and len(s.every) == 2), step=step_w, done=done_w,
    bounded="properties of two names, any number of each")


def st_sorted(E, slots):
    E.S.asked = E.S.asked + [slots["self"]]
    return E.plist(E.S.cs)


def s_writec(E, s):
    s.wrote, s.every, s.asked = [], [], []
    s.cs = AbsList("components", lambda E: E.obj(MEMBER))
    s.out = jlist(E)
    s.none = s.choose("none", 2) == 1
    s.o = s.obj(VE, mProperties=E.pdict({}), mComponents=E.plist([] if s.none else [E.obj(MEMBER)]))
    return [s.o, s.out]


add(CB + ".writeComponentsJSON", s_writec, lambda E, s, r, exc: E.prove("all of them, once, in the order of the text", (s.none and s.wrote == []) or (s.every == [s.cs] and s.asked == [s.o])), step=step_w, done=done_w,
    stubs={"func:" + CB + ".sortedComponents": st_sorted})


def st_part(which):
    def f(E, slots):
        E.S.parts = E.S.parts + [(which, slots["self"], slots["jobject"])]
    return f


def s_wcomp(E, s):
    s.parts = []
    s.out = jlist(E)
    s.o = s.obj(VE, mProperties=E.pdict({}), mComponents=E.plist([]))
    return [s.o, s.out]


def p_wcomp(E, s, r, exc):
    out = items(s.out)
    E.prove("one array of name, properties and components", len(out) == 1 and len(items(out[0])) == 3)
    j = items(out[0])
    E.prove("the name in lower case", j[0] == "vevent")
    E.prove("its properties in the second, its components in the third", sorted(w for w, o, l in s.parts) == ["components", "properties"] and all(o is s.o and l is j[1 if w == "properties" else 2] for w, o, l in s.parts) and j[1] is not j[2])


add(CB + ".writeJSON", s_wcomp, p_wcomp, stubs={"func:" + CB + ".writePropertiesJSON": st_part("properties"), "func:" + CB + ".writeComponentsJSON": st_part("components")})

# reading
READ = ghost("jread")


def adds(what):
    def f(E, o, x):
        E.S.added = E.S.added + [(what, o, x)]
    return f


def c_fin(E, o):
    E.S.finished = E.S.finished + [o]


COMPG = ghost("jcomponent", addProperty=adds("property"), addComponent=adds("component"), finalise=c_fin)


def st_make(E, slots):
    s = E.S
    E.prove("a component of the name read, in upper case, in its parent", slots["compname"] == "VEVENT" and slots["parent"] is s.parent)
    s.made = s.made + [E.obj(COMPG)]
    return s.made[-1]


def st_readp(E, slots):
    o = E.obj(READ)
    E.S.reads = E.S.reads + [("property", slots["jobject"], None, o)]
    return o


def st_readc(E, slots):
    o = E.obj(READ)
    E.S.reads = E.S.reads + [("component", slots["jobject"], slots["parent"], o)]
    return o


def s_rcomp(E, s):
    s.made, s.added, s.reads, s.finished, s.every = [], [], [], [], []
    s.pl, s.cl = AbsList("properties read", lambda E: E.obj(READ)), AbsList("components read", lambda E: E.obj(READ))
    s.parent = E.obj(COMPG)
    args = [E.find_qual(VE), E.plist(["vevent", E.plist(s.pl), E.plist(s.cl)]), s.parent]
    s.given = None
    if s.choose("given", 2):
        s.given = E.obj(COMPG)
        args.append(s.given)
    return args


def me(s):
    return s.given if s.given is not None else s.made[0]


def step_r(E, s, ctx, recs):
    al, x = ctx[-1][:2]
    kind = "property" if al is s.pl else "component"
    E.prove("each is read, once, in this component", len(s.reads) == 1 and s.reads[0][0] == kind and s.reads[0][1] is x and (kind == "property" or s.reads[0][2] is me(s)))
    E.prove("before it is completed", s.finished == [])
    E.prove("and added to it", len(s.added) == 1 and s.added[0][0] == kind and s.added[0][1] is me(s) and s.added[0][2] is s.reads[0][3])


def p_rcomp(E, s, r, exc):
    E.prove("read", exc is None)
    E.prove("properties first, then components, all of them", s.every == [s.pl, s.cl])
    E.prove("the component made, or the one given", r is me(s) and len(s.made) == (0 if s.given is not None else 1))
    E.prove("completed at the end", len(s.finished) == 1 and s.finished[0] is r)


add(CB + ".parseJSON", s_rcomp, p_rcomp, raises=lambda E, s, x: True, step=step_r, done=done_w,
    stubs={"func:pycalendar.icalendar.component.Component.makeComponent": st_make, "func:pycalendar.property.PropertyBase.parseJSON": st_readp, "func:" + CB + ".parseJSON": st_readc})
