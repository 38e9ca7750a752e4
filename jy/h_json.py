# C22: iCalendar objects written as JSON and read back, on the running code.
import os, sys, json
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[0])))
from hlib import *
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
from pycalendar.icalendar.calendar import Calendar
from pycalendar.icalendar.property import Property


def digits(r, lo, hi, n=2):
    return "%0*d" % (n, r.randint(lo, hi))


def date(r):
    y, m = r.choice([1, 999, 1600, 1900, 1970, 1999, 2000, 2020, 2024, 9999]), r.randint(1, 12)
    return y, m, r.randint(1, 28)


def time(r):
    return r.choice([0, 1, 9, 10, 12, 23]), r.choice([0, 1, 30, 59]), r.choice([0, 1, 30, 59])


# what is written: the text form, the JSON value and its type
def a_date(r):
    d = date(r)
    return "%04d%02d%02d" % d, "%04d-%02d-%02d" % d, "date"


def a_datetime(r, utc=None):
    d = date(r) + time(r)
    z = "Z" if (r.random() < 0.5 if utc is None else utc) else ""
    return "%04d%02d%02dT%02d%02d%02d" % d + z, "%04d-%02d-%02dT%02d:%02d:%02d" % d + z, "date-time"


def a_duration(r):
    sign = r.choice(["", "-"])
    if r.random() < 0.3:
        t = "P%dW" % r.randint(1, 60)
    else:
        d, h, m, s = r.choice([0, 1, 40]), r.choice([0, 1, 23]), r.choice([0, 5]), r.choice([0, 7])
        t = "P" + ("%dD" % d if d else "")
        if h or m or s or not d:
            t += "T" + ("%dH" % h if h else "") + ("%dM" % m if m or (h and s) else "") + ("%dS" % s if s or not (h or m) else "")
        if t == "PT0S":
            sign = ""
    return sign + t, sign + t, "duration"


def a_offset(r):
    h, m, s = r.randint(0, 23), r.choice([0, 30, 59]), r.choice([0, 0, 1, 59])
    sign = "+" if not (h or m or s) else r.choice(["+", "-"])
    return sign + "%02d%02d" % (h, m) + ("%02d" % s if s else ""), sign + "%02d:%02d" % (h, m) + (":%02d" % s if s else ""), "utc-offset"


def a_period(r):
    a = a_datetime(r, True)
    y = "%04d%02d%02dT000000Z" % ((r.choice([2100, 3000]),) + (r.randint(1, 12), r.randint(1, 28)))
    if a[1] > "2099":
        a = ("20000101T000000Z", "2000-01-01T00:00:00Z")
    if r.random() < 0.5:
        d = "PT%dH" % r.randint(1, 20)
        return a[0] + "/" + d, [a[1], d], "period"
    return a[0] + "/" + y, [a[1], y[:4] + "-" + y[4:6] + "-" + y[6:11] + ":" + y[11:13] + ":" + y[13:]], "period"


TXT = ["a", "b c", ",", ";", "\\", "\n", ":", "\"", "\xc3\xa9", "n", "/", "{", "}"]


def a_plain(r):
    return "".join([r.choice(TXT) for i in range(r.randint(0, 5))])


def escaped(t):
    return t.replace("\\", "\\\\").replace("\n", "\\n").replace(",", "\\,").replace(";", "\\;")


def a_text(r):
    t = a_plain(r)
    return escaped(t), t.decode("utf-8"), "text"


def a_integer(r):
    n = r.choice([0, 1, 5, 9, 100, 2147483647])
    return str(n), n, "integer"


def a_uri(r):
    t = r.choice(["http://x/y", "mailto:a@b.c", "urn:uuid:1-2", "cid:part1.0001@example.org", "http://e.x/a,b;c"])
    return t, t, "uri"


def a_addr(r):
    t = r.choice(["mailto:a@b.c", "http://x/y", "urn:uuid:1"])
    return t, t, "cal-address"


def a_bool(r):
    t = r.choice(["TRUE", "FALSE"])
    return t, t, "boolean"


DAYS = ["SU", "MO", "TU", "WE", "TH", "FR", "SA"]


def some(r, xs):
    return sorted(set([r.choice(xs) for i in range(r.randint(1, 3))]), key=xs.index)


def a_recur(r):
    """a rule, and the parts that it has"""
    freq = r.choice(["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"])
    parts, j = ["FREQ=" + freq], {"freq": freq}
    k = r.randint(0, 3)
    if k == 1:
        n = r.randint(1, 500)
        parts.append("COUNT=%d" % n)
        j["count"] = n
    elif k == 2:
        u = r.choice([a_date, a_datetime])(r)
        parts.append("UNTIL=" + u[0])
        j["until"] = u[1]
    if r.random() < 0.5:
        n = r.randint(2, 20)
        parts.append("INTERVAL=%d" % n)
        j["interval"] = n
    for name, xs in (("BYSECOND", [0, 1, 30, 59, 60]), ("BYMINUTE", [0, 1, 30, 59]), ("BYHOUR", [0, 1, 12, 23]), ("BYMONTHDAY", [1, 15, 31, -1, -31]), ("BYYEARDAY", [1, 100, 366, -1, -366]),
                     ("BYWEEKNO", [1, 20, 53, -1, -53]), ("BYMONTH", [1, 2, 12]), ("BYSETPOS", [1, 2, 366, -1, -366])):
        if r.random() < 0.25:
            v = some(r, xs)
            parts.append(name + "=" + ",".join(map(str, v)))
            j[name.lower()] = v
    if r.random() < 0.4:
        v = some(r, DAYS) if freq not in ("MONTHLY", "YEARLY") or r.random() < 0.5 else some(r, ["1MO", "-1SU", "2TU", "53FR", "-5WE", "TH"])
        parts.append("BYDAY=" + ",".join(v))
        j["byday"] = v
    if r.random() < 0.3:
        d = r.choice(DAYS)
        parts.append("WKST=" + d)
        if d != "MO":
            j["wkst"] = d
    return ";".join(parts), j, "recur"


def a_geo(r):
    v = [r.choice([0.0, 37.386013, -122.5, 90.0]), r.choice([1.5, -180.0, 12.25])]
    return "%s;%s" % tuple(v), v, "float"


def a_status(r):
    a, b, c = r.choice(["2.0", "3.1", "2.8.1"]), a_plain(r), a_plain(r)
    three = r.random() < 0.6 and c != ""
    return ";".join([a, escaped(b)] + ([escaped(c)] if three else [])), [a, b.decode("utf-8")] + ([c.decode("utf-8")] if three else []), "text"


# name, VALUE parameter or None, kind of value
FORMS = [("SUMMARY", None, a_text), ("DESCRIPTION", None, a_text), ("UID", None, a_text), ("LOCATION", None, a_text), ("STATUS", None, a_text), ("CATEGORIES", None, [a_text]), ("RESOURCES", None, [a_text]),
         ("DTSTART", None, a_datetime), ("DTSTART", None, lambda r: a_datetime(r, False)), ("DTSTART", "DATE", a_date), ("DTEND", None, a_datetime), ("DUE", "DATE", a_date), ("COMPLETED", None, lambda r: a_datetime(r, True)), ("DTSTAMP", None, lambda r: a_datetime(r, True)),
         ("CREATED", None, lambda r: a_datetime(r, True)), ("RECURRENCE-ID", None, a_datetime), ("RECURRENCE-ID", "DATE", a_date), ("EXDATE", None, [a_datetime]), ("EXDATE", "DATE", [a_date]),
         ("RDATE", None, [a_datetime]), ("RDATE", "DATE", [a_date]), ("RDATE", "PERIOD", [a_period]), ("FREEBUSY", None, [a_period]), ("DURATION", None, a_duration), ("TRIGGER", None, a_duration),
         ("TRIGGER", "DATE-TIME", lambda r: a_datetime(r, True)), ("TZOFFSETTO", None, a_offset), ("TZOFFSETFROM", None, a_offset), ("RRULE", None, a_recur), ("EXRULE", None, a_recur), ("SEQUENCE", None, a_integer),
         ("PRIORITY", None, a_integer), ("PERCENT-COMPLETE", None, a_integer), ("REPEAT", None, a_integer), ("URL", None, a_uri), ("TZURL", None, a_uri), ("ATTACH", None, a_uri), ("ATTENDEE", None, a_addr),
         ("ORGANIZER", None, a_addr), ("GEO", None, a_geo), ("REQUEST-STATUS", None, a_status), ("X-NUM", "INTEGER", a_integer), ("X-WHEN", "DATE-TIME", a_datetime), ("X-DAY", "DATE", a_date), ("X-LONG", "DURATION", a_duration),
         ("X-URI", "URI", a_uri), ("X-ZONE", "UTC-OFFSET", a_offset), ("X-RULE", "RECUR", a_recur), ("X-PER", "PERIOD", a_period)]
PARAMS = ["LANGUAGE", "X-A", "CN", "ROLE", "MEMBER", "X-B"]
PV = ["en", "a b", "q,r", "s;t", "u:v", "", "\xc3\xa9", "a'b", "CHAIR"]


def a_line(r):
    name, typ, kind = r.choice(FORMS)
    many = isinstance(kind, list)
    vals = [kind[0](r) for i in range(r.randint(1, 3))] if many else [kind(r)]
    params = {}
    for i in range(r.choice([0, 0, 1, 2])):
        params[r.choice(PARAMS)] = [r.choice(PV) for k in range(r.choice([1, 1, 2, 3]))]
    if vals[0][2] == "date-time" and not [v for v in vals if v[0].endswith("Z")] and r.random() < 0.5:
        params["TZID"] = [r.choice(["Etc/Plain", "Europe/Nowhere"])]
    line = name
    for k in params:
        line += ";" + k + "=" + ",".join(['"%s"' % v if any([c in v for c in ",;:"]) else v for v in params[k]])
    if typ:
        line += ";VALUE=" + typ
    line += ":" + ",".join([v[0] for v in vals])
    return line, name, typ, params, vals


def through(j):
    """what a reader of the JSON text gets"""
    return json.loads(json.dumps(j))


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all([same(x, y) for x, y in zip(a, b)])
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all([same(a[k], b[k]) if not isinstance(a[k], list) else same(a[k], b[k] if isinstance(b[k], list) else [b[k]]) for k in a])
    return a == b


def properties(h):
    r = h.rng
    while h.left():
        line, name, typ, params, vals = a_line(r)
        h.case(line)
        p = Property.parseText(line)
        text = p.getText()
        out = []
        p.writeJSON(out)
        h.check(p.getText() == text, "writing JSON leaves the property as it was", line=line, got=p.getText(), want=text)
        h.check(len(out) == 1 and len(out[0]) >= 4, "one array of name, parameters, type and values", line=line, got=out)
        j = through(out[0])
        h.check(j[0] == name.lower(), "the name in lower case", line=line, got=j)
        h.check(j[2] == vals[0][2], "the type of the value", line=line, got=j, want=vals[0][2])
        h.check(same([v[1] for v in vals], j[3:]), "the values in the JSON form of their type", line=line, got=j[3:], want=[v[1] for v in vals])
        want = dict([(k.lower(), [x.decode("utf-8") for x in v] if len(v) > 1 else v[0].decode("utf-8")) for k, v in params.items()])
        h.check(same(want, j[1]), "the parameters with their values, but not VALUE", line=line, got=j[1], want=want)
        try:
            q = Property.parseJSON(j)
        except Exception as e:
            h.check(False, "the JSON is read", line=line, json=j, error=repr(e))
            continue
        h.check(q == p and not (q != p), "what is read equals what was written", line=line, json=j, got=q.getText(), want=text)
        h.check(q.getText() == text, "and is written as the same text", line=line, json=j, got=q.getText(), want=text)
        out2 = []
        q.writeJSON(out2)
        h.check(through(out2[0]) == j, "and as the same JSON", line=line, json=j, got=out2)


COMPS = ["VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VAVAILABILITY", "X-THING"]
SKIP = ("UID", "TZOFFSETTO", "TZOFFSETFROM", "TRIGGER", "TZURL", "REPEAT", "DTSTAMP", "DURATION", "RECURRENCE-ID", "RRULE", "EXRULE", "DTSTART", "DTEND", "DUE", "RDATE", "EXDATE", "FREEBUSY")


def cal_text(r):
    t = ["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:-//x"]
    if r.random() < 0.3:
        t.append("X-WR-CALNAME:name")
    if r.random() < 0.5:
        t += ["BEGIN:VTIMEZONE", "TZID:Etc/Plain", "BEGIN:STANDARD", "DTSTART:20000101T000000", "RRULE:FREQ=YEARLY;BYMONTH=1", "TZOFFSETFROM:+0000", "TZOFFSETTO:" + a_offset(r)[0], "END:STANDARD", "END:VTIMEZONE"]
    for i in range(r.randint(1, 3)):
        k = r.choice(COMPS)
        t += ["BEGIN:" + k, "UID:u%d" % i, "DTSTAMP:20200101T000000Z"]
        if k in ("VEVENT", "VTODO"):
            t += r.choice([["DTSTART:20200101T000000Z"], ["DTSTART;VALUE=DATE:20200101", "RRULE:" + a_recur(r)[0]], ["DTSTART:20200101T000000Z", "DURATION:PT1H", "EXDATE:20200105T000000Z,20200106T000000Z"]])
        for j in range(r.randint(0, 5)):
            x = a_line(r)
            if x[1] not in SKIP:
                t.append(x[0])
        if k in ("VEVENT", "VTODO"):
            for j in range(r.choice([0, 1, 2])):
                t += ["BEGIN:VALARM", "ACTION:DISPLAY", "DESCRIPTION:d%d" % j, "TRIGGER:-PT%dM" % r.randint(1, 5), "END:VALARM"]
        t.append("END:" + k)
    t.append("END:VCALENDAR")
    return "\r\n".join(t) + "\r\n"


def shape(c):
    return [c.getType().lower(), sorted([k.lower() for k, v in c.getProperties().items() for p in v]), sorted([shape(x) for x in c.getComponents()])]


def jshape(j):
    return [j[0], sorted([p[0] for p in j[1]]), sorted([jshape(x) for x in j[2]])]


def calendars(h):
    r = h.rng
    while h.left():
        text = cal_text(r)
        h.case(text)
        try:
            cal = Calendar.parseText(text)
        except Exception:
            continue
        before = str(cal)
        jt = cal.getTextJSON(includeTimezones=Calendar.NO_TIMEZONES)
        h.check(str(cal) == before, "writing JSON leaves the calendar as it was", text=text, after=str(cal))
        j = json.loads(jt)
        h.check(jshape(j) == shape(cal), "every property and component is written once", text=text, got=jshape(j), want=shape(cal))
        try:
            d = Calendar.parseJSONData(jt)
        except Exception as e:
            h.check(False, "the JSON is read", text=text, json=jt, error=repr(e))
            continue
        h.check(d == cal and not (d != cal), "what is read equals what was written", text=text, got=str(d))
        h.check(str(d) == before, "and is written as the same text", text=before, got=str(d), json=jt)
        for a, b in zip(sorted(cal.getComponents(), key=str), sorted(d.getComponents(), key=str)):
            for k in ("mStart", "mEnd", "mHasStart", "mHasEnd", "mUID", "mSummary", "mID"):
                h.check(getattr(a, k, None) == getattr(b, k, None), "and is understood alike", field=k, component=str(a))
        h.check(Calendar.parseJSONData(d.getTextJSON(includeTimezones=Calendar.NO_TIMEZONES)) == cal, "and so on", text=text)


H.run("properties", "random properties of %d forms with random values and up to two parameters of up to three values" % len(FORMS), properties, 0.6)
H.run("calendars", "random calendars of up to three components with alarms and timezones", calendars, 0.4)
H.done()
