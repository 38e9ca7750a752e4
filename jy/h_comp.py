# C18, C19: components, properties and containers under random operation histories
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[0])))
from hlib import *
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.parameter import Parameter
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.component import Component
from pycalendar.icalendar.property import Property
from pycalendar.vcard.card import Card
from pycalendar.vcard.property import Property as VProperty
from pycalendar.vcard.n import N
from pycalendar.vcard.adr import Adr
from pycalendar.exceptions import InvalidData
from pycalendar.timezonedb import TimezoneDatabase

ILINES = ["SUMMARY:a\\, b\\n c", "SUMMARY;LANGUAGE=en;X-A=\"q,r\",s:t", "DESCRIPTION:", "DTSTART:20200229T010203Z", "DTSTART;VALUE=DATE:20191231",
          "DTSTART;TZID=Etc/Plain:20200101T000000", "DTEND:20200301T000000", "DURATION:P1DT2H", "DURATION:-PT15M", "RRULE:FREQ=MONTHLY;COUNT=3;BYDAY=1MO,-1FR;BYSETPOS=-1",
          "RRULE:FREQ=DAILY;UNTIL=20200301T000000Z", "RDATE:20200101T000000Z,20200201T000000Z", "RDATE;VALUE=DATE:20200101,20200202",
          "RDATE;VALUE=PERIOD:20200101T000000Z/PT1H,20200102T000000Z/20200103T000000Z", "EXDATE:20200105T010203Z", "GEO:37.386013;-122.082932",
          "REQUEST-STATUS:2.8;ok;x", "CATEGORIES:A,B\\,C,D", "ATTENDEE;CN=\"Me, You\";ROLE=CHAIR:mailto:a@b.c", "ORGANIZER:mailto:q@r.s", "ATTACH;VALUE=BINARY;ENCODING=BASE64:AAEC",
          "SEQUENCE:3", "PRIORITY:5", "URL:http://x/y", "TZOFFSETTO:-0330", "X-FOO;VALUE=INTEGER:4", "X-BAR:some\\;thing", "FREEBUSY;FBTYPE=BUSY:19970308T160000Z/PT3H,19970308T200000Z/PT1H",
          "STATUS:CANCELLED", "RECURRENCE-ID:20200101T010101Z", "UID:u-1", "TRIGGER:-PT5M", "COMPLETED:20200101T000000Z", "RESOURCES:A,B"]
VLINES = ["N:Last;First,Second;;Dr.;", "FN:First Last", "ADR;TYPE=HOME:;;1 St\\, x;City,Town;R;P;C", "ORG:A;B\\;C;D", "GEO:1.5;-2.25", "BDAY:1980-02-29", "REV:2020-01-01T00:00:00Z",
          "g1.TEL;TYPE=WORK,VOICE:1 2", "TEL;TYPE=WORK:1 2", "NICKNAME:a,b\\,c", "NOTE:line\\nline", "PHOTO;ENCODING=B;TYPE=JPEG:AAEC", "TZ:-05:00", "item1.X-Y:z", "EMAIL:a@b", "UID:x", "URL:http://a/b",
          "CATEGORIES:p,q"]


def graph(root, skip=()):
    """ids of the mutable objects reachable from root"""
    out, todo, keep = {}, [root], []
    while todo:
        o = todo.pop()
        if o is None or isinstance(o, (int, long, float, str, unicode, bool, type)) or id(o) in out or id(o) in skip:
            continue
        if isinstance(o, (tuple, frozenset)):
            todo.extend(o)
            continue
        if isinstance(o, (list, set)):
            out[id(o)] = o
            todo.extend(o)
        elif isinstance(o, dict):
            out[id(o)] = o
            todo.extend(o.keys())
            todo.extend(o.values())
        elif hasattr(o, "__dict__") and type(o).__module__.startswith("pycalendar"):
            out[id(o)] = o
            todo.extend(o.__dict__.values())
    return out


def shared(a, b):
    x, y = graph(a), graph(b)
    return [repr(type(x[k])) + " " + repr(x[k])[:120] for k in x if k in y][:3]


# ---------------------------------------------------------------- C18
def mkcomp(r, parent, typ=None, uid=None, rid=None):
    typ = typ or r.choice(["VEVENT", "VEVENT", "VTODO", "VJOURNAL", "VTIMEZONE", "VFREEBUSY", "X-COMP"])
    c = Component.makeComponent(typ, parent)
    if typ == "VTIMEZONE":
        c.addProperty(Property("TZID", r.choice(["T1", "T2", "T3"])))
    else:
        c.addProperty(Property("UID", uid if uid is not None else r.choice(["u1", "u2", "u3", "U1"])))
        if typ in ("VEVENT", "VTODO", "VJOURNAL"):
            c.addProperty(Property("DTSTART", DateTime(2020, r.randint(1, 12), 1, 0, 0, 0)))
            if rid if rid is not None else r.random() < 0.4:
                c.addProperty(Property("RECURRENCE-ID", DateTime(2020, 1, r.randint(1, 5), 0, 0, 0)))
            c.addProperty(Property("SUMMARY", r.choice(["s", "t"])))
    c.finalise()
    return c


RECUR = ("VEVENT", "VTODO", "VJOURNAL")


def check_cal(h, cal, model, hist):
    comps = cal.getComponents()
    h.check(len(comps) == len(model) and all([a is b for a, b in zip(comps, model)]), "the components present are those added and not removed, in order", history=hist,
            got=[str(c.getType()) for c in comps], want=[c.getType() for c in model])
    for t in ("VEVENT", "vevent", "VTODO", "VJournal", "VTIMEZONE", "VFREEBUSY", "NONE"):
        want = [c for c in model if c.getType().upper() == t.upper()]
        got = cal.getComponents(t)
        h.check(len(got) == len(want) and all([a is b for a, b in zip(got, want)]), "getComponents(type) = components of that type", type=t, history=hist)
        h.check(cal.countComponents(t) == len(want) and cal.hasComponent(t) == (len(want) > 0), "countComponents and hasComponent agree with getComponents", type=t, history=hist)
    for c in model:
        f = cal.getComponentByKey(c.getMapKey())
        h.check(f is not None and f.getMapKey() == c.getMapKey() and any([f is x for x in model]), "getComponentByKey finds a present component", key=c.getMapKey(), history=hist)
    h.check(cal.getComponentByKey("absent") is None, "getComponentByKey of an unknown key is None", history=hist)
    masters = getattr(cal, "mMasterComponentsByTypeAndUID", None)
    if masters is not None:
        want = {}
        for c in model:
            if c.getType() in RECUR and not c.getRecurrenceID():
                want.setdefault((c.getType(), c.getUID()), []).append(c)
        got = dict([((t, u), v) for t, d in masters.items() for u, v in d.items() if not isinstance(v, list)])
        h.check(set(got) == set(want), "masters by type and UID: exactly the identifiers present", got=sorted(got), want=sorted(want), history=hist)
        for k in want:
            if k in got:
                h.check(any([got[k] is x for x in want[k]]), "master by type and UID is a present component with that type and UID", key=k, history=hist)
    over = getattr(cal, "mOverriddenComponentsByUID", None)
    if over is not None:
        want = {}
        for c in model:
            if c.getType() in RECUR and c.getRecurrenceID():
                want.setdefault(c.getUID(), []).append(c)
        got = dict([(u, v) for u, v in over.items() if len(v)])
        h.check(set(got) == set(want), "overridden by UID: exactly the identifiers present", got=sorted(got), want=sorted(want), history=hist)
        for k in want:
            if k in got:
                h.check(len(got[k]) == len(want[k]) and all([any([x is y for y in want[k]]) for x in got[k]]), "overridden by UID: exactly the components present", key=k, history=hist)
    for t in set([c.getID() for c in model if c.getType() == "VTIMEZONE"]):
        f = cal.getTimezone(t)
        h.check(f is not None and f.getID() == t and any([f is x for x in model]), "getTimezone finds a present timezone", key=t, history=hist)


def calendars(h):
    r = h.rng
    while h.left():
        cal = Calendar()
        model, hist, gone = [], [], []
        h.case(r.random())
        for step in range(r.randint(1, 9)):
            op = r.choice(["add", "add", "add", "add", "remove", "removekey", "removetype", "removeall", "uid", "uid", "dup", "twin", "readd"])
            texts = [str(c) for c in model]
            before = list(model)
            if op == "add" or (op in ("remove", "removekey", "twin") and not model):
                c = mkcomp(r, cal)
                cal.addComponent(c)
                model.append(c)
                hist.append(("add", c.getType(), c.getMapKey()))
            elif op == "twin":
                c = r.choice(model)
                if isinstance(c, type(None)) or c.getType() not in RECUR:
                    continue
                d = c.duplicate(parent=cal)
                cal.addComponent(d)
                model.append(d)
                hist.append(("add twin of", model.index(c)))
            elif op == "readd":
                if not gone:
                    continue
                c = gone.pop()
                cal.addComponent(c)
                model.append(c)
                hist.append(("add again", c.getType(), c.getMapKey()))
            elif op == "remove":
                i = r.randrange(len(model))
                c = model[i]
                cal.removeComponent(c)
                model.pop(i)
                gone.append(c)
                hist.append(("remove", i))
            elif op == "removekey":
                k = r.choice(model).getMapKey() if r.random() < 0.9 else "absent"
                cal.removeComponentByKey(k)
                for i, c in enumerate(model):
                    if c.getMapKey() == k:
                        model.pop(i)
                        gone.append(c)
                        break
                hist.append(("remove key", k))
            elif op == "removetype":
                t = r.choice(["VEVENT", "vtodo", "VTIMEZONE", "VJOURNAL", "none"])
                cal.removeAllComponent(t)
                gone.extend([c for c in model if c.getType().upper() == t.upper()])
                model[:] = [c for c in model if c.getType().upper() != t.upper()]
                hist.append(("remove all", t))
            elif op == "removeall":
                if r.random() < 0.6:
                    continue
                cal.removeAllComponent()
                gone.extend(model)
                del model[:]
                hist.append(("remove all",))
            elif op == "uid":
                a, b = r.choice(["u1", "u2", "u3"]), r.choice(["u1", "u2", "u3", "u4"])
                want = []
                for c in model:
                    u = c.getUID()
                    want.append(b if u == a else u)
                cal.changeUID(a, b)
                hist.append(("change UID", a, b))
                h.check([c.getUID() for c in model] == want, "changeUID changes exactly the matching components", got=[c.getUID() for c in model], want=want, history=hist)
                for i, c in enumerate(model):
                    if want[i] and c.getType() != "VTIMEZONE":
                        h.check(c.loadValueString("UID") == want[i], "the UID property follows the identifier", history=hist, got=str(c))
            elif op == "dup":
                text = str(cal)
                d = cal.duplicate()
                hist.append(("duplicate",))
                h.check(d == cal and not (d != cal), "a duplicated calendar equals the original", history=hist, text=text)
                h.check(str(d) == text and str(cal) == text, "a duplicated calendar has the same text", history=hist, text=text, got=str(d))
                s = shared(cal, d)
                h.check(not s, "a duplicated calendar shares no mutable state", shared=s, history=hist)
                comps = d.getComponents()
                h.check(all([c.getParentComponent() is d for c in comps]), "the components of a duplicate belong to it", history=hist)
                cal, model, gone = d, list(comps), []
                texts, before = [str(c) for c in model], list(model)
            if op not in ("uid",):
                left = [(c, t) for c, t in zip(before, texts) if any([c is x for x in model])]
                h.check(all([str(c) == t for c, t in left]), "the other components are unchanged", history=hist)
            check_cal(h, cal, model, hist)


def properties(h):
    r = h.rng
    names = ["SUMMARY", "Summary", "x-a", "X-A", "COMMENT", "comment"]
    while h.left():
        kind = r.random() < 0.75
        c = Component.makeComponent("VEVENT", None) if kind else Card(add_defaults=False)
        mk = (lambda n, v: Property(n, v)) if kind else (lambda n, v: VProperty(name=n, value=v))
        model, hist = [], []
        h.case(r.random())
        for step in range(r.randint(1, 10)):
            op = r.choice(["add", "add", "add", "remove", "removeall", "dup", "absent"])
            n = r.choice(names)
            if op == "add" or (op == "remove" and not model):
                p = mk(n, r.choice(["a", "b", "c"]))
                c.addProperty(p)
                model.append(p)
                hist.append(("add", n, str(p)))
            elif op == "remove":
                p = r.choice(model)
                for i, q in enumerate(model):       # equal properties are interchangeable: the first one goes
                    if q.getName().upper() == p.getName().upper() and q == p:
                        model.pop(i)
                        break
                c.removeProperty(p)
                hist.append(("remove", p.getName(), str(p)))
            elif op == "removeall":
                c.removeProperties(n)
                model[:] = [q for q in model if q.getName().upper() != n.upper()]
                hist.append(("remove all", n))
            elif op == "absent":
                if any([q.getName().upper() == n.upper() for q in model]):
                    continue
                c.removeProperty(mk(n, "a"))
                hist.append(("remove absent", n))
            elif op == "dup":
                d = c.duplicate()
                hist.append(("duplicate",))
                h.check(d == c and not (d != c), "a duplicated component equals the original", history=hist)
                s = shared(c, d)
                h.check(not s, "a duplicated component shares no mutable state", shared=s, history=hist)
                e = mk("X-EXTRA", "1")
                d.addProperty(e)
                h.check(d != c and not (d == c), "a component with one property more is different", history=hist)
                d.removeProperty(e)
                c = d
                model = []
                for k in sorted(c.getProperties()):
                    model.extend(c.getProperties()[k])
            for k in names + ["NONE"]:
                want = [str(q) for q in model if q.getName().upper() == k.upper()]
                got = [str(q) for q in c.getProperties(k)]
                h.check(got == want, "the properties of a name are those present, in insertion order", name=k, got=got, want=want, history=hist)
                h.check(c.hasProperty(k) == (len(want) > 0) and c.countProperty(k) == len(want), "hasProperty and countProperty agree", name=k, history=hist)
                f = c.findFirstProperty(k)
                h.check((f is None) if not want else str(f) == want[0], "findFirstProperty is the first", name=k, history=hist)
            total = sum([len(v) for v in c.getProperties().values()])
            h.check(total == len(model), "nothing else is present", got=total, want=len(model), history=hist)


def mutate(r, p, ical):
    """change a property through its interface"""
    k = r.randrange(4)
    if k == 0:
        p.setName(p.getName() + "X")
    elif k == 1:
        p.addParameter(Parameter("X-NEW", "v"))
    elif k == 2:
        ks = sorted(set(p.getParameters()) - set(["VALUE", "TZID"]))       # those two are written anew from the value
        if ks:
            p.getParameters()[r.choice(ks)][0].addValue("more")
        else:
            p.replaceParameter(Parameter("X-NEW", "w"))
    else:
        v = p.getValue()
        g = v.getValue()
        if isinstance(g, list):
            if len(g) and isinstance(g[0], float):
                g[0] += 1.0
            elif len(g) and isinstance(g[0], str):
                g[0] += "1"
            elif len(g):
                g.pop()
            else:
                p.setName("Y")
        elif isinstance(g, DateTime):
            g.offsetDay(1)
        elif isinstance(g, Duration):
            g.setDuration(g.getTotalSeconds() + 1)
        elif isinstance(g, N):
            g.setFirst("Other")
        elif isinstance(g, Adr):
            g.setCountry("Other")
        elif isinstance(g, str):
            v.setValue(g + "x")
        elif isinstance(g, int):
            v.setValue(g + 60)
        elif isinstance(g, tuple):
            v.setValue(("other",))
        else:
            p.setName(p.getName() + "Z")


def duplicates(h):
    r = h.rng
    while h.left():
        ical = r.random() < 0.65
        line = r.choice(ILINES if ical else VLINES)
        h.case(line)
        cls = Property if ical else VProperty
        p = cls.parseText(line)
        text = p.getText()
        d = p.duplicate()
        h.check(d == p and not (d != p), "a duplicated property equals the original", line=line)
        ok, hh = h.attempt("hash of a property", lambda: (hash(d), hash(p)))
        if ok:
            h.check(hh[0] == hh[1], "a duplicated property hashes alike", line=line)
        h.check(d.getText() == text, "a duplicated property has the same text", line=line, got=d.getText())
        s = shared(p, d)
        h.check(not s, "a duplicated property shares no mutable state", line=line, shared=s)
        q = cls.parseText(line)
        h.check(q == p and hash(q) == hash(p), "properties of the same text are equal", line=line)
        ok, _ = h.attempt("change of a property", mutate, r, d, ical)
        if ok:
            h.check(p.getText() == text and p == q, "changing a duplicate leaves the original as it was", line=line, got=p.getText(), dup=d.getText())
            h.check(d != p and not (d == p), "a changed duplicate is different", line=line, dup=d.getText())
        other = r.choice(ILINES if ical else VLINES)
        o = cls.parseText(other)
        h.check((o == p) == (other == line), "properties of different text are different", line=line, other=other)


def vtypes():
    from pycalendar.value import Value
    from pycalendar.period import Period
    from pycalendar.icalendar.recurrence import Recurrence
    names = [n for n in dir(Value) if n.startswith("VALUETYPE_") and n not in ("VALUETYPE_MULTIVALUE", "VALUETYPE_XNAME", "VALUETYPE_TIME", "VALUETYPE_VCARD", "VALUETYPE_BOOLEAN")]
    strs = ["", "a", "a,b", "\\", "text"]
    dts = lambda: [DateTime(2020, 1, 1), DateTime(2020, 1, 1, 0, 0, 0), DateTime(2020, 2, 29, 1, 2, 3)]
    durs = lambda: [Duration(0), Duration(3600), Duration(-86400)]

    def content(n):
        return {"INTEGER": [0, 3, -1], "FLOAT": [0.0, 2.5], "UTC_OFFSET": [0, 3600, -12600], "GEO": [[0.0, 0.0], [1.5, -2.0]], "REQUEST_STATUS": [["2.0", "a"], ["2.0", "a", "b"]],
                "ORG": [("a",), ("a", "b"), "a"], "ADR": [Adr(), Adr("a", "b"), Adr("", "b")], "N": [N(), N("a", "b"), N("", "b")],
                "DATE": dts(), "DATETIME": dts(), "DURATION": durs(), "PERIOD": [Period(a, duration=b) for a in dts()[1:] for b in durs()[:2]],
                "RECUR": [Recurrence(), Recurrence.parseText("FREQ=DAILY;COUNT=3")]}.get(n, strs)
    return Value, [(getattr(Value, n), content, n[10:]) for n in names]


def values(h):
    """copies, equality, hashes and setters of every kind of value"""
    from pycalendar.multivalue import MultiValue
    Value, kinds = vtypes()
    r = h.rng
    todo = [(k, i) for k in kinds for i in range(len(k[1](k[2])))]
    while h.left() and todo:
        (vt, content, n), i = todo.pop(0)
        h.case((n, i))
        v = Value.createFromType(vt)
        c = content(n)[i]
        v.setValue(c)
        h.check(v.getValue() is c or v.getValue() == c, "a value is what was set", kind=n, value=repr(c), got=repr(v.getValue()))
        d = v.duplicate()
        h.check(d == v and not (d != v) and d is not v and type(d) is type(v), "a copy of a value equals it", kind=n, value=repr(c))
        ok, hh = h.attempt("hash of a value", lambda: (hash(d), hash(v)))
        if ok:
            h.check(hh[0] == hh[1], "a copy of a value hashes alike", kind=n, value=repr(c))
        h.check(not shared(v, d), "a copy of a value shares nothing that can be changed", kind=n, value=repr(c), shared=shared(v, d))
        h.check(d.getText() == v.getText() if n != "MULTIVALUE" else True, "a copy of a value has the same text", kind=n, value=repr(c))
        for j, x in enumerate(content(n)):
            w = Value.createFromType(vt)
            w.setValue(x)
            same = x == c and w.getType() == v.getType()
            h.check((w == v) == same and (w != v) == (not same), "values of a kind are equal exactly when what they hold is", kind=n, value=repr(c), other=repr(x))
        for (vt2, content2, n2) in kinds:
            w = Value.createFromType(vt2)
            w.setValue(content2(n2)[0])
            if w.getType() != v.getType():
                h.check(not (w == v) and w != v, "values of different types are different", kind=n, value=repr(c), other=n2)
        for x in (c, None, 5, "text"):
            h.check(not (v == x) and v != x, "a value is different from anything that is not one", kind=n, value=repr(c), other=repr(x))
        m = MultiValue(vt)
        m.setValue(content(n))
        h.check([x.getValue() for x in m.getValues()] == content(n), "a list of values is what was set", kind=n)
        m2 = m.duplicate()
        h.check(m2 == m and not (m2 != m) and hash(m2) == hash(m) and not shared(m, m2), "a copy of a list of values equals it and shares nothing that can be changed", kind=n)
        m2.setValue(content(n)[1:])
        h.check(not (m2 == m) and m2 != m and len(m.getValues()) == len(content(n)), "a changed copy of a list of values is different, the original as it was", kind=n)
        m2.setValue([])
        h.check(m2.getValues() == [], "setting a list of values replaces what was there", kind=n)
        p = Property.parseText("SUMMARY:a")
        for x in (v, None, 5, "SUMMARY:a"):
            h.check(not (p == x) and p != x, "a property is different from anything that is not one", other=repr(x))


COMPS = ["VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VAVAILABILITY", "X-THING"]


def cal_text(r):
    t = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x"]
    if r.random() < 0.3:
        t.append("X-WR-CALNAME:name")
    if r.random() < 0.5:
        t += ["BEGIN:VTIMEZONE", "TZID:Etc/Plain", "BEGIN:STANDARD", "DTSTART:20000101T000000", "RRULE:FREQ=YEARLY;BYMONTH=1", "TZOFFSETFROM:+0000", "TZOFFSETTO:+0100", "END:STANDARD", "END:VTIMEZONE"]
    for i in range(r.randint(1, 3)):
        k = r.choice(COMPS)
        t += ["BEGIN:" + k, "UID:u%d" % r.randint(1, 3), "DTSTAMP:20200101T000000Z"]
        seen = set()
        for j in range(r.randint(0, 6)):
            l = r.choice(ILINES)
            n = l.split(":")[0].split(";")[0]
            if n in ("UID", "TZOFFSETTO", "TRIGGER") or n in seen:
                continue
            seen.add(n)
            t.append(l)
        if k in ("VEVENT", "VTODO"):
            for j in range(r.choice([0, 0, 1, 2, 3])):
                t += ["BEGIN:VALARM"] + r.choice([["ACTION:DISPLAY", "DESCRIPTION:d%d" % j, "TRIGGER:-PT%dM" % r.randint(1, 5)], ["ACTION:AUDIO", "TRIGGER;RELATED=END:PT%dM" % r.randint(1, 5), "REPEAT:2", "DURATION:PT1M"],
                                                  ["ACTION:EMAIL", "TRIGGER;VALUE=DATE-TIME:2020010%dT000000Z" % r.randint(1, 5), "SUMMARY:s%d" % j, "DESCRIPTION:d", "ATTENDEE:mailto:a@b"]]) + ["END:VALARM"]
        if k == "VAVAILABILITY":
            for j in range(r.choice([0, 1, 2])):
                t += ["BEGIN:AVAILABLE", "UID:a%d" % r.randint(1, 3), "DTSTAMP:20200101T000000Z", "DTSTART:2020010%dT090000Z" % r.randint(1, 5), "DURATION:PT1H", "END:AVAILABLE"]
        t.append("END:" + k)
    t.append("END:VCALENDAR")
    return "\r\n".join(t) + "\r\n"


def trees(h):
    """calendars as parsed: duplicates are equal, have the same text and share nothing"""
    r = h.rng
    while h.left():
        text = cal_text(r)
        h.case(text)
        try:
            cal = Calendar.parseText(text)
        except Exception:
            continue
        if cal is None:
            continue
        t0 = str(cal)
        d = cal.duplicate()
        h.check(d == cal and not (d != cal), "a duplicated calendar equals the original", text=text)
        h.check(str(d) == t0 and str(cal) == t0, "a duplicated calendar has the same text", text=text, got=str(d))
        s = shared(cal, d)
        h.check(not s, "a duplicated calendar shares no mutable state", shared=s, text=text)
        h.check(all([c.getParentComponent() is d for c in d.getComponents()]), "the components of a duplicate belong to it", text=text)
        for c in cal.getComponents():
            e = c.duplicate()
            h.check(e == c and not (e != c), "a duplicated component equals the original", text=str(c))
            h.check(str(e) == str(c), "a duplicated component has the same text", text=str(c), got=str(e))
            s = shared(c, e)
            h.check(not s, "a duplicated component shares no mutable state", shared=s, text=str(c))
            a, b = c.__dict__, e.__dict__
            for k in sorted(a):
                if k == "mMapKey" and c.getType() == "X-THING":
                    continue        # a random key
                v, w = a[k], b.get(k)
                if isinstance(v, (int, str, bool, float)) or v is None:
                    h.check(v == w or k.startswith("mCached") or k == "mChanged", "a duplicated component has the same cached values", field=k, got=w, want=v, text=str(c))
                elif isinstance(v, (DateTime, Duration)):
                    h.check(v == w, "a duplicated component has the same cached values", field=k, got=w, want=v, text=str(c))
        comps = d.getComponents()
        if comps:
            c = r.choice(comps)
            ps = [p for v in c.getProperties().values() for p in v]
            if ps:
                mutate(r, r.choice(ps), True)
            h.check(str(cal) == t0, "changing a duplicate leaves the original as it was", text=text, got=str(cal))
            h.check(not (cal == d), "a changed duplicate is different", text=text, got=str(d))


# ---------------------------------------------------------------- C19
# the limits declared for each component (one: exactly one, fix: exactly one and an empty one is added, most: at most one, more: at least one)
LIMITS = {
    "VCALENDAR": {"one": ["PRODID", "VERSION"], "most": ["CALSCALE", "METHOD"]},
    "VEVENT": {"one": ["DTSTAMP", "UID"], "most": ["CLASS", "CREATED", "DESCRIPTION", "GEO", "LAST-MODIFIED", "LOCATION", "ORGANIZER", "PRIORITY", "SEQUENCE", "SUMMARY", "TRANSP", "URL",
                                                  "RECURRENCE-ID", "RRULE", "DTEND", "DURATION"], "status": ["STATUS"]},
    "VTODO": {"one": ["DTSTAMP", "UID"], "most": ["CLASS", "COMPLETED", "CREATED", "DESCRIPTION", "DTSTART", "GEO", "LAST-MODIFIED", "LOCATION", "ORGANIZER", "PERCENT-COMPLETE", "PRIORITY",
                                                 "RECURRENCE-ID", "SEQUENCE", "SUMMARY", "URL", "RRULE", "DUE", "DURATION"], "status": ["STATUS"]},
}
PROPV = {"PRODID": "x", "VERSION": "2.0", "CALSCALE": "GREGORIAN", "METHOD": "PUBLISH", "DTSTAMP": "20200101T000000Z", "UID": "u", "CLASS": "PUBLIC", "CREATED": "20200101T000000Z", "DESCRIPTION": "d",
         "GEO": "1.0;2.0", "LAST-MODIFIED": "20200101T000000Z", "LOCATION": "l", "ORGANIZER": "mailto:a@b", "PRIORITY": "5", "SEQUENCE": "1", "SUMMARY": "s", "TRANSP": "OPAQUE", "URL": "http://x",
         "RECURRENCE-ID": "20200101T000000Z", "RRULE": "FREQ=DAILY;COUNT=3", "DTSTART": "20200101T000000Z", "DTEND": "20200102T000000Z", "DURATION": "PT1H", "COMPLETED": "20200101T000000Z",
         "PERCENT-COMPLETE": "50", "DUE": "20200103T000000Z", "STATUS": "CANCELLED", "CONTACT": "c", "ACTION": "DISPLAY", "TRIGGER": "-PT5M", "REPEAT": "1", "ATTACH": "http://y", "ACKNOWLEDGED": "20200101T000000Z",
         "ATTENDEE": "mailto:c@d", "TZID": "T", "TZURL": "http://z", "TZOFFSETTO": "+0100", "TZOFFSETFROM": "+0000", "BUSYTYPE": "BUSY", "COMMENT": "c"}


def declared(cls_or_obj):
    """limits as the class declares them"""
    g = lambda n: [x.upper() for x in getattr(cls_or_obj, n, ())]
    return {"one": g("propertyCardinality_1"), "fix": g("propertyCardinality_1_Fix_Empty"), "most": g("propertyCardinality_0_1"), "more": g("propertyCardinality_1_More"),
            "status": g("propertyCardinality_STATUS_Fix")}


def expected(lim, count, status):
    """(fixable, unfixable) property names breaking their limits"""
    fixable, unfix = [], []
    for n in lim.get("one", ()):
        if count(n) != 1:
            unfix.append(n)
    for n in lim.get("fix", ()):
        if count(n) > 1:
            unfix.append(n)
        elif count(n) == 0:
            fixable.append(n)
    for n in lim.get("most", ()):
        if count(n) > 1:
            unfix.append(n)
    for n in lim.get("more", ()):
        if count(n) < 1:
            unfix.append(n)
    for n in lim.get("status", ()):
        if count(n) > 1:
            (fixable if "CANCELLED" in [s.upper() for s in status] else unfix).append(n)
    return sorted(fixable), sorted(unfix)


def names_in(logs, typ):
    """property names reported by the cardinality tests"""
    out = []
    for l in logs:
        if not l.startswith("[%s] " % typ):
            continue
        m = l[len(typ) + 3:]
        for p in ("Missing or too many required property: ", "Too many required property: ", "Missing required property: ", "Too many properties present: ", "Too many properties: "):
            if m.startswith(p):
                out.append(m[len(p):].strip())
    return sorted(out)


def expected_extra(typ, count, parent_method, has_parent, doFix):
    """rules between properties: (fixed, unfixed) counts of 'both' and 'with' problems"""
    pass


def cardinality(h):
    r = h.rng
    while h.left():
        typ = r.choice(["VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VAVAILABILITY", "AVAILABLE", "VALARM-DISPLAY", "VALARM-AUDIO", "VALARM-EMAIL", "VTIMEZONE", "STANDARD", "DAYLIGHT", "VCALENDAR", "VCARD", "VPOLL", "VVOTER", "VOTE"])
        parent = None
        method = False
        if typ == "VCALENDAR":
            c = Calendar(add_defaults=False)
        elif typ == "VCARD":
            c = Card(add_defaults=False)
        else:
            if r.random() < 0.7:
                parent = Calendar(add_defaults=False)
                method = r.random() < 0.5
                if method:
                    parent.addProperty(Property.parseText("METHOD:PUBLISH"))
            c = Component.makeComponent(typ.split("-")[0], parent)
        action = typ.split("-")[1] if typ.startswith("VALARM") else None
        tname = c.getType()
        cls = Property if typ != "VCARD" else VProperty
        lim = declared(c)
        if action:
            c.addProperty(Property.parseText("ACTION:" + action))
            c.finalise()
            lim = declared(getattr(c, "mActionData", c))
        if typ in LIMITS:
            for k, v in LIMITS[typ].items():
                h.check(sorted(v) == sorted(lim[k]), "the declared limits are those of the component", type=typ, kind=k, got=sorted(lim[k]), want=sorted(v))
        pool = sorted(set(lim["one"] + lim["fix"] + lim["most"] + lim["more"] + lim["status"]))
        cnt = dict([(n, 0) for n in pool])
        if action:
            cnt["ACTION"] = 1
        status = []
        special = ["DTSTART", "DTEND", "DUE", "DURATION", "REPEAT", "STATUS"]
        for n in pool:
            k = r.choice([0, 1, 1, 1, 1, 2, 3]) if n in lim["one"] or n in special else r.choice([0, 0, 0, 1, 1, 2])
            if n == "ACTION":
                k -= 1
            for i in range(max(k, 0)):
                v = {"N": "a;b;;;", "FN": "f", "BDAY": "2000-01-01", "REV": "2000-01-01T00:00:00Z"}.get(n) if cls is VProperty and n in ("N", "FN", "BDAY", "REV") else PROPV.get(n, "v")
                if cls is VProperty and n == "VERSION":
                    v = "3.0"
                if n == "STATUS":
                    v = r.choice(["CANCELLED", "cancelled", "CONFIRMED", "TENTATIVE"])
                    status.append(v)
                if n == "ACTION":
                    v = action
                nm = n if r.random() < 0.7 else n.lower()
                try:
                    c.addProperty(cls.parseText(nm + ":" + v))
                except Exception:
                    c.addProperty(cls(nm, "v") if cls is Property else cls(name=nm, value="v"))
                cnt[n] += 1
        if r.random() < 0.3:
            c.addProperty(cls.parseText("X-OTHER:1"))
        h.case((typ, tuple(sorted(cnt.items())), method, tuple(status)))
        count = lambda n: cnt.get(n, 0)
        fixable, unfix = expected(lim, count, status)
        allb = sorted(fixable + unfix)
        extra_start = typ == "VEVENT" and parent is not None and not method and count("DTSTART") == 0
        if extra_start:
            allb = sorted(allb + ["DTSTART"])
            unfix = sorted(unfix + ["DTSTART"])
        data = dict(type=typ, counts=sorted(cnt.items()), status=status, method=method)
        before = str(c)
        ok, res = h.attempt("validate", c.validate)
        if not ok:
            continue
        h.check(str(c) == before, "validating changes nothing unless asked to fix", before=before, after=str(c), **data)
        h.check(res[0] == [], "nothing is reported as fixed when not asked to fix", got=res[0], **data)
        got = names_in(res[1], tname)
        h.check(got == allb, "problems = properties whose number breaks their limits", got=got, want=allb, **data)
        others = [l for l in res[1] if "must not both" in l or "must be present together" in l or "must be present:" in l and "with" in l]
        both = {"VEVENT": ("DTEND", "DURATION"), "AVAILABLE": ("DTEND", "DURATION"), "VAVAILABILITY": ("DTEND", "DURATION"), "VTODO": ("DUE", "DURATION")}.get(typ)
        nb = int(both is not None and count(both[0]) > 0 and count(both[1]) > 0)
        h.check(len([l for l in others if "must not both" in l]) == nb, "properties that exclude each other are reported", got=others, **data)
        tog = typ.startswith("VALARM") and (count("DURATION") > 0) != (count("REPEAT") > 0)
        h.check(len([l for l in others if "together" in l]) == int(tog), "properties that need each other are reported", got=others, **data)
        wth = typ == "VTODO" and count("DURATION") > 0 and count("DTSTART") == 0
        h.check(len([l for l in others if "with" in l]) == int(wth), "a property that needs another is reported", got=others, **data)
        again = c.validate()
        h.check(sorted(again[1]) == sorted(res[1]) and again[0] == [], "validating again reports the same", first=res, second=again, **data)
        ok, fx = h.attempt("validate(doFix=True)", c.validate, True)
        if not ok:
            continue
        gone = () if not nb else ("DURATION",) if typ == "VTODO" else ("DTEND",)      # removed by the fix: nothing left to report
        unfix = [n for n in unfix if n not in gone]
        h.check(names_in(fx[0], tname) == fixable and names_in(fx[1], tname) == unfix, "fixing fixes exactly what can be fixed", got=fx, want=(fixable, unfix), **data)
        h.check(len([l for l in fx[0] if "must not both" in l]) == nb, "properties that exclude each other are fixed", got=fx, **data)
        mid = str(c)
        ok, f2 = h.attempt("validate(doFix=True) again", c.validate, True)
        if not ok:
            continue
        h.check(f2[0] == [], "nothing is left to fix the second time", first=fx, second=f2, **data)
        h.check(sorted(f2[1]) == sorted(fx[1]), "the unfixable problems are the same the second time", first=fx, second=f2, **data)
        h.check(str(c) == mid, "fixing again changes nothing", before=mid, after=str(c), **data)
        f3 = c.validate()
        h.check(sorted(f3[1]) == sorted(fx[1]), "after fixing only the unfixable problems remain", first=fx, second=f3, **data)


def untils(h):
    """value checks and the UNTIL rule"""
    r = h.rng
    while h.left():
        dt = r.choice(["20200101", "20200101T120000", "20200101T120000Z", "20200101T010203"])
        un = r.choice(["20200201", "20200201T120000Z", "20200201T120000"])
        seq = r.choice(["0", "-1", "7"])
        pr = r.choice(["0", "9", "10", "-1"])
        st = r.choice(["20200101T000000Z", "20200101T000000", "20200101"])
        h.case((dt, un, seq, pr, st))
        isd, und = len(dt) == 8, len(un) == 8
        text = "\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x", "BEGIN:VEVENT", "UID:u", "DTSTAMP%s:%s" % (";VALUE=DATE" if len(st) == 8 else "", st),
                            "DTSTART%s:%s" % (";VALUE=DATE" if isd else "", dt), "RRULE:FREQ=DAILY;UNTIL=" + un, "SEQUENCE:" + seq, "PRIORITY:" + pr, "END:VEVENT", "END:VCALENDAR", ""])
        cal = Calendar.parseText(text)
        before = str(cal)
        fixed, unfixed = cal.validate()
        bad = set()
        if seq == "-1":
            bad.add("SEQUENCE")
        if pr in ("10", "-1"):
            bad.add("PRIORITY")
        if st != "20200101T000000Z":
            bad.add("DTSTAMP")
        got = sorted([l.split(": ")[1] for l in unfixed if "value incorrect" in l])
        h.check(got == sorted(bad), "values out of range are reported", got=got, want=sorted(bad), text=text)
        h.check(str(cal) == before, "validating changes nothing unless asked to fix", text=text, after=str(cal))
        mism = [l for l in unfixed if "must match" in l]
        h.check(len(mism) == int(isd != und), "an UNTIL of another kind than the start is reported", got=unfixed, text=text)
        fixed, unfixed = cal.validate(True)
        h.check(len([l for l in fixed if "must match" in l]) == int(isd != und) and len([l for l in unfixed if "must match" in l]) == 0, "an UNTIL of another kind is fixed", got=(fixed, unfixed), text=text)
        mid = str(cal)
        f2 = cal.validate(True)
        h.check(f2[0] == [] and sorted(f2[1]) == sorted(unfixed), "fixing again reports no more fixes and the same problems", first=(fixed, unfixed), second=f2, text=text)
        h.check(str(cal) == mid, "fixing again changes nothing", before=mid, after=str(cal))
        cal2 = Calendar.parseText(mid)
        f3 = cal2.validate()
        h.check(not [l for l in f3[1] if "must match" in l], "the fix is in the generated text", text=text, after=mid)


def checked(h):
    """every property whose values are checked, with values inside and outside what is allowed"""
    r = h.rng
    UTC = [("20200101T000000Z", 1), ("20200101T000000", 0), ("20200101", 0)]
    NEG = [("0", 1), ("7", 1), ("-1", 0)]
    TABLE = [("CALSCALE", "VCALENDAR", [("GREGORIAN", 1), ("gregorian", 1), ("JULIAN", 0)]), ("VERSION", "VCALENDAR", [("2.0", 1), ("1.0", 0), ("2.01", 0)]),
             ("PERCENT-COMPLETE", "VTODO", [("0", 1), ("100", 1), ("50", 1), ("101", 0), ("-1", 0)]), ("PRIORITY", "VEVENT", [("0", 1), ("9", 1), ("10", 0), ("-1", 0)]), ("PRIORITY", "VTODO", [("0", 1), ("9", 1), ("10", 0), ("-1", 0)]),
             ("COMPLETED", "VTODO", UTC), ("CREATED", "VEVENT", UTC), ("DTSTAMP", "VFREEBUSY", UTC), ("DTSTAMP", "VJOURNAL", UTC), ("LAST-MODIFIED", "VEVENT", UTC), ("SEQUENCE", "VEVENT", NEG), ("SEQUENCE", "VTODO", NEG),
             ("REPEAT", "VALARM", NEG), ("ACKNOWLEDGED", "VALARM", UTC), ("VERSION", "VCARD", [("3.0", 1), ("4.0", 0), ("2.1", 0)]), ("PROFILE", "VCARD", [("VCARD", 1), ("vcard", 1), ("X", 0), ("CARD", 0), ("VC", 0), ("VCARDS", 0), ("AVCARD", 0)])]
    while h.left():
        name, where, values = r.choice(TABLE)
        v, ok = r.choice(values)
        line = "%s%s:%s" % (r.choice([name, name.lower(), name]), ";VALUE=DATE" if values is UTC and len(v) == 8 else "", v)
        h.case((name, where, v))
        if where == "VCARD":
            lines = ["BEGIN:VCARD", "N:a;b", "FN:a b"] + [l for l in ("VERSION:3.0",) if name != "VERSION"] + [line, "END:VCARD", ""]
            cls = Card
        else:
            cls = Calendar
            top = ["VERSION:2.0", "PRODID:x"]
            inner = ["UID:u", "DTSTAMP:20200101T000000Z"]
            alarm = ["ACTION:AUDIO", "TRIGGER:-PT1M"]
            if where == "VCALENDAR":
                top = [l for l in top if not l.startswith(name + ":")] + [line]
            elif where == "VALARM":
                alarm = alarm + [line] + (["DURATION:PT1M"] if name == "REPEAT" else [])
            else:
                inner = [l for l in inner if not l.startswith(name + ":")] + [line]
            k = where if where in ("VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY") else "VEVENT"
            lines = ["BEGIN:VCALENDAR"] + top + ["BEGIN:" + k] + inner + (["BEGIN:VALARM"] + alarm + ["END:VALARM"] if where == "VALARM" else []) + ["END:" + k, "END:VCALENDAR", ""]
        try:
            c = cls.parseText("\r\n".join(lines))
        except InvalidData:
            continue        # not read at all
        before = str(c)
        for fix in (False, True):
            fixed, unfixed = c.validate(doFix=fix)
            got = [l.split(": ")[-1] for l in fixed + unfixed if "value incorrect" in l]
            h.check(got == ([] if ok else [name]), "a value is reported exactly when it is not allowed", property=name, component=where, value=v, got=got, fix=fix)
            h.check(not [l for l in fixed if "value incorrect" in l], "a bad value is not fixed", property=name, value=v, got=fixed)
            if not fix:
                h.check(str(c) == before, "validating changes nothing unless asked to fix", lines=lines, after=str(c))


if PROP == "C18":
    H.run("calendars", "random histories of up to 9 add/remove/remove-by-key/remove-all/change-UID/duplicate operations on a calendar with up to 7 component kinds and 4 UIDs", calendars, 0.3)
    H.run("properties", "random histories of up to 10 property operations with mixed-case names", properties, 0.2)
    H.run("duplicates", "%d iCalendar and %d vCard property forms: duplicate, hash, equality, random change" % (len(ILINES), len(VLINES)), duplicates, 0.15)
    H.run("values", "every kind of value, with 2 to 5 contents each, and lists of them", values, 0.1)
    H.run("trees", "random parsed calendars of up to 3 components: duplicate, compare, no shared object", trees, 0.25)
elif PROP == "C19":
    H.run("checked", "every property whose values are checked (16 of them), with values inside and outside what is allowed", checked, 0.1)
    H.run("cardinality", "random numbers (0-3) of every limited property of 17 component kinds, any case, with and without METHOD; report, fix, report again", cardinality, 0.6)
    H.run("values", "value checks and UNTIL kinds of a recurring event, all combinations at random", untils, 0.3)
H.done()
