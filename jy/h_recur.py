# C12-C15: recurrence rules and sets against an oracle that walks the calendar
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[0])))
from hlib import *
import recoracle as O
from pycalendar.datetime import DateTime
from pycalendar.duration import Duration
from pycalendar.period import Period
from pycalendar.timezone import Timezone
from pycalendar.icalendar import definitions
from pycalendar.icalendar.recurrence import Recurrence
from pycalendar.icalendar.recurrenceset import RecurrenceSet
from pycalendar.icalendar.exceptions import TooManyInstancesError

FREQS = ["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"]
DAYS = ["SU", "MO", "TU", "WE", "TH", "FR", "SA"]
PARTS = ["second", "minute", "hour", "day", "monthday", "yearday", "weekno", "month", "setpos"]
ATTR = {"second": "mBySeconds", "minute": "mByMinutes", "hour": "mByHours", "day": "mByDay", "monthday": "mByMonthDay", "yearday": "mByYearDay",
        "weekno": "mByWeekNo", "month": "mByMonth", "setpos": "mBySetPos"}
RANGE = {"second": (0, 60, False), "minute": (0, 59, False), "hour": (0, 23, False), "monthday": (1, 31, True), "yearday": (1, 366, True),
         "weekno": (1, 53, True), "month": (1, 12, False), "setpos": (1, 366, True)}


def value(r, name, near=False):
    if name == "day":
        n = 0 if r.random() < 0.5 else r.choice([1, 2, 3, 4, 5, -1, -2, -5, 53, -53, 52, r.randint(1, 53)])
        return (n, r.randint(0, 6))
    lo, hi, neg = RANGE[name]
    v = r.choice([lo, hi, hi - 1, lo + 1, r.randint(lo, hi), r.randint(lo, hi), r.randint(lo, min(hi, 31))])
    if neg and r.random() < 0.35:
        v = -v
    return v


def vtext(name, v):
    if name == "day":
        return ("" if v[0] == 0 else str(v[0])) + DAYS[v[1]]
    return str(v)


def text_of(parts, freq, interval, wkst, count, until):
    t = ["FREQ=" + freq]
    if interval is not None:
        t.append("INTERVAL=%d" % interval)
    if wkst is not None:
        t.append("WKST=" + DAYS[wkst])
    if count is not None:
        t.append("COUNT=%d" % count)
    if until is not None:
        t.append("UNTIL=" + until)
    for k in PARTS:
        if k in parts:
            t.append("BY%s=%s" % (k.upper(), ",".join([vtext(k, v) for v in parts[k]])))
    return t


# ---------------------------------------------------------------- C12
def rrule(h):
    r = h.rng
    freq = r.choice(FREQS)
    parts = {}
    for k in PARTS:
        if r.random() < 0.3:
            parts[k] = [value(r, k) for i in range(r.choice([1, 1, 2, 3, 6]))]
    interval = r.choice([None, None, 1, 2, 3, 10, 12345678901])
    wkst = r.choice([None, None, 0, 1, 2, 3, 4, 5, 6])
    count, until = None, None
    k = r.random()
    if k < 0.3:
        count = r.choice([1, 2, 10, 99999999999])
    elif k < 0.6:
        until = r.choice(["20200101", "20200101T120000Z", "20200101T120000", "19700101T000000Z", "99991231", "00010101T235959Z"])
    return parts, freq, interval, wkst, count, until


def parsed(t):
    r = Recurrence()
    r.parse(t)
    return r


def g_round(h):
    while h.left():
        spec = rrule(h)
        parts, freq, interval, wkst, count, until = spec
        toks = text_of(*spec)
        h.rng.shuffle(toks)
        t = ";".join(toks)
        h.case(t)
        ok, r = h.attempt("parse", parsed, t)
        if not ok:
            continue
        h.check(r.getFreq() == getattr(definitions, "eRecurrence_" + freq), "the frequency is the one written", text=t)
        h.check(r.getInterval() == (interval or 1), "the interval is the one written", text=t)
        h.check(r.mWeekstart == (1 if wkst is None else wkst), "the week start is the one written", text=t)
        h.check((r.getUseCount(), r.getCount()) == (count is not None, count or 0), "the count is the one written", text=t)
        h.check(r.getUseUntil() == (until is not None) and (until is None or r.getUntil().getText() == until), "the end date is the one written", text=t)
        for k in PARTS:
            h.check((getattr(r, ATTR[k]) or []) == parts.get(k, []), "every part has the values written", text=t, part=k, result=getattr(r, ATTR[k]))
        ok, g = h.attempt("generate", r.getText)
        if ok:
            ok, r2 = h.attempt("parse of the generated text", parsed, g)
            if ok:
                h.check(r2 == r and r == r2 and not (r2 != r), "parsing the generated text gives an equal rule", text=t, generated=g)
                h.check(hash(r2) == hash(r), "equal rules have equal hashes", text=t, generated=g)
                h.check(r2.getText() == g, "generating again gives the same text", text=t, generated=g, again=r2.getText())
        jo = []
        ok, _ = h.attempt("writeJSON", r.writeJSON, jo)
        if ok:
            jt = json.dumps(jo)
            r3 = Recurrence()
            ok, _ = h.attempt("parseJSON", r3.parseJSON, json.loads(jt)[0])
            if ok:
                h.check(r3 == r and hash(r3) == hash(r), "the JSON form gives an equal rule", text=t, json=jt, result=r3.getText())
        # another order of parts and of values
        p2 = dict([(k, sorted(v, key=lambda x: h.rng.random())) for k, v in parts.items()])
        toks = text_of(p2, *spec[1:])
        h.rng.shuffle(toks)
        t2 = ";".join(toks)
        ok, r4 = h.attempt("parse", parsed, t2)
        if ok:
            h.check(r4 == r and hash(r4) == hash(r), "the order of parts and values does not matter", text=t, other=t2)
        # one difference
        s5 = list(spec)
        k = h.rng.choice(PARTS + ["freq", "interval", "wkst", "end"])
        if k in PARTS:
            s5[0] = dict(parts)
            old = sorted(parts.get(k, []))
            if old and h.rng.random() < 0.4:
                s5[0].pop(k)
            else:
                n = parts.get(k, [])[:]
                if n and h.rng.random() < 0.5:
                    n[h.rng.randint(0, len(n) - 1)] = value(h.rng, k)
                else:
                    n.append(value(h.rng, k))
                s5[0][k] = n
            diff = sorted(s5[0].get(k, [])) != old
        elif k == "freq":
            s5[1] = h.rng.choice(FREQS)
            diff = s5[1] != freq
        elif k == "interval":
            s5[2] = h.rng.choice([None, 1, 2, 7])
            diff = (s5[2] or 1) != (interval or 1)
        elif k == "wkst":
            s5[3] = h.rng.choice([None, 0, 1, 2])
            diff = (1 if s5[3] is None else s5[3]) != (1 if wkst is None else wkst)
        else:
            s5[4], s5[5] = h.rng.choice([(None, None), (3, None), (None, "20200101"), (None, "20200101T120000Z"), (None, "20200101T120000")])
            diff = (s5[4], s5[5]) != (count, until)
        t5 = ";".join(text_of(*s5))
        ok, r5 = h.attempt("parse", parsed, t5)
        if ok:
            h.check((r5 == r) == (not diff) and (r5 != r) == diff, "rules are equal exactly when their parts are", text=t, other=t5)
            h.check(diff or hash(r5) == hash(r), "equal rules have equal hashes", text=t, other=t5)
        # a duplicate
        d = r.duplicate()
        h.check(d == r and hash(d) == hash(r), "a duplicate equals its original", text=t)
        before = r.getText()
        for k in PARTS:
            v = getattr(d, ATTR[k])
            if v:
                v.append(v[0])
        if d.getUntil() is not None:
            d.getUntil().offsetDay(3)
        d.setInterval(77)
        d.setByMonth([5, 6])
        d.setFreq(definitions.eRecurrence_DAILY)
        h.check(r.getText() == before and d != r, "changing a duplicate leaves the original as it was", text=t, after=r.getText())


def g_reject(h):
    bad = []
    for k in PARTS:
        if k == "day":
            vals = ["", "0MO", "54MO", "-54MO", "XX", "MOX", "1", "1 MO", "M", "mo", "-0SU", "1.5MO"]
        else:
            lo, hi, neg = RANGE[k]
            vals = ["", str(hi + 1), "x", "1x", "1.5", "-"] + (["-%d" % (hi + 1), "0", "-0"] if neg else ["-1"] + (["0"] if lo else []))
        for v in vals:
            bad.append(("BY%s" % k.upper(), v))
    for n, vals in (("FREQ", ["", "FOO", "daily", "DAILY,WEEKLY"]), ("INTERVAL", ["", "0", "-1", "x", "1.5"]), ("COUNT", ["", "0", "-1", "x"]),
                    ("WKST", ["", "XX", "1MO", "MO,TU"]), ("UNTIL", ["", "x", "2020", "20200101T", "20200101T1200", "20200101T120000ZZ", "2020010"]),
                    ("BYFOO", ["1"]), ("", ["1"]), ("X-A", ["1"])):
        bad += [(n, v) for v in vals]
    i = 0
    while h.left():
        i += 1
        spec = rrule(h)
        toks = text_of(*spec)
        if i % 3:
            n, v = bad[i % len(bad)]
            toks = [x for x in toks if not x.startswith(n + "=")]
            if n.startswith("BY") and v not in ("",) and h.rng.random() < 0.5 and n[2:].lower() in RANGE:
                v = h.rng.choice(["1,%s" % v, "%s,1" % v])
            if n in ("COUNT", "UNTIL"):
                toks = [x for x in toks if not x.startswith("COUNT=") and not x.startswith("UNTIL=")]
            toks.append("%s=%s" % (n, v))
        else:
            c = h.rng.choice(["dup", "dup", "both", "form"])
            if c == "dup":
                toks.append(h.rng.choice(toks))
            elif c == "both":
                toks = [x for x in toks if not x.startswith("COUNT=") and not x.startswith("UNTIL=")] + ["COUNT=3", "UNTIL=20200101"]
            else:
                toks.append(h.rng.choice(["", "FREQ", "A=B=C", "BYHOUR=1=2", "=", " "]))
        h.rng.shuffle(toks)
        t = ";".join(toks)
        h.case(t)
        try:
            r = parsed(t)
            h.check(False, "a malformed, out-of-range or repeated part is rejected", text=t, result=r.getText())
        except ValueError:
            pass
        except Exception:
            h.fail("a malformed rule fails with another error", {"text": t, "trace": traceback.format_exc()[-600:]})


# ---------------------------------------------------------------- C13
def mk(t, kind):
    if kind == "date":
        return DateTime(t[0], t[1], t[2])
    tz = {"float": None, "utc": Timezone.UTCTimezone, "offset": -18000}[kind]
    if kind == "offset":
        d = DateTime(t[0], t[1], t[2], t[3], t[4], t[5], utcoffset=-18000)
    elif kind == "utc":
        d = DateTime(t[0], t[1], t[2], t[3], t[4], t[5], tzid=Timezone.UTCTimezone)
    else:
        d = DateTime(t[0], t[1], t[2], t[3], t[4], t[5])
    return d


def un(d):
    return (d.getYear(), d.getMonth(), d.getDay(), d.getHours(), d.getMinutes(), d.getSeconds())


def rmoment(h, kind="utc", lo=1995, hi=2040):
    r = h.rng
    y = r.choice([1999, 2000, 2003, 2004, 2012, 2015, 2020, 2024, 2026, r.randint(lo, hi)])
    m = r.choice([1, 2, 2, 3, 12, 12, r.randint(1, 12)])
    ml = O.MLEN[(y, m)]
    d = r.choice([1, 2, 28, 29, 30, 31, ml, r.randint(1, 31)])
    t = (y, m, min(d, ml))
    if kind == "date":
        return t + (0, 0, 0)
    return t + (r.choice([0, 23, r.randint(0, 23)]), r.choice([0, 59, r.randint(0, 59)]), r.choice([0, 59, r.randint(0, 59)]))


def parts_for(h, freq, kind="utc", sub=False):
    """a combination of parts with a meaning in the standard's table"""
    r = h.rng
    names = ["month", "day", "setpos"]
    if freq == "YEARLY":
        names += ["yearday", "monthday"] if r.random() < 0.6 else ["weekno"]
    elif freq == "MONTHLY":
        names += ["monthday", "monthday"]
    elif freq == "WEEKLY":
        names += []
    elif freq == "DAILY":
        names += ["monthday"]
    else:
        names += ["monthday", "yearday"]
    if kind != "date":
        names += ["hour", "minute", "second"]
    while True:
        ks = set(r.sample(names, r.choice([1, 1, 2, 2, 3, min(4, len(names))])))
        if "yearday" in ks and freq == "YEARLY" and ("month" in ks or "monthday" in ks):
            continue
        if "weekno" in ks and "month" in ks:
            continue
        if ks == set(["setpos"]):
            continue
        break
    p = {}
    for k in ks:
        n = r.choice([1, 1, 2, 3, 4])
        vs = []
        for i in range(n):
            v = value(r, k)
            if k == "day":
                if freq in ("WEEKLY",) or "weekno" in ks:
                    v = (0 if r.random() < 0.9 else v[0], v[1])
                elif freq != "YEARLY" or ks & set(["month", "monthday", "yearday"]):
                    v = (r.choice([0, 0, 1, 2, 4, 5, -1, -2, -5]), v[1])
            if k == "second" and v == 60:
                v = 59
            if k == "weekno":
                v = abs(v)
            if k == "setpos":
                v = r.choice([1, -1, 2, -2, 3, 5, -5, 366, -366])
            vs.append(v)
        p[k] = vs
    return p


LIM = {"month": "byMonthLimit", "weekno": "byWeekNoLimit", "yearday": "byYearDayLimit", "monthday": "byMonthDayLimit", "day": "byDayLimit", "hour": "byHourLimit",
       "minute": "byMinuteLimit", "second": "bySecondLimit"}
EXP = {"month": ("byMonthExpand", O.x_month), "weekno": ("byWeekNoExpand", O.x_weekno), "yearday": ("byYearDayExpand", O.x_yearday),
       "monthday": ("byMonthDayExpand", O.x_monthday), "hour": ("byHourExpand", O.x_hour), "minute": ("byMinuteExpand", O.x_minute), "second": ("bySecondExpand", O.x_second),
       "dayY": ("byDayExpandYearly", O.x_day_year), "dayM": ("byDayExpandMonthly", O.x_day_month)}


def rule_for(freq, parts, interval=1, wkst=1, count=None, until=None):
    r = Recurrence()
    r.mFreq = getattr(definitions, "eRecurrence_" + freq)
    r.mInterval = interval
    r.mWeekstart = wkst
    for k, v in parts.items():
        setattr(r, ATTR[k], v[:])
    if count is not None:
        r.mUseCount, r.mCount = True, count
    if until is not None:
        r.mUseUntil, r.mUntil = True, until
    return r


def few(h, name):
    vs = []
    for i in range(h.rng.choice([1, 1, 2, 3, 5])):
        v = value(h.rng, "day" if name[:3] == "day" else name)
        if name == "weekno":
            v = abs(v)
        if name == "second" and v == 60:
            v = 0
        if name == "dayM" or name == "day":
            v = (h.rng.choice([0, 1, 2, 3, 4, 5, -1, -2, -3, -4, -5]), v[1])
        vs.append(v)
    return vs


def g_limits(h):
    while h.left():
        name = h.rng.choice(sorted(LIM))
        vs = few(h, name)
        ts = [rmoment(h) for i in range(h.rng.choice([0, 1, 2, 5, 12]))]
        r = rule_for("DAILY", {name: vs})
        if not hasattr(r, LIM[name]):
            continue
        h.case((name, tuple(vs), tuple(ts)), len(ts) > 0)
        ok, out = h.attempt(LIM[name], getattr(r, LIM[name]), [mk(t, "utc") for t in ts])
        if ok:
            want = [t for t in ts if O.LIMITS[name](t, vs)]
            h.check([un(d) for d in out] == want, "a limit keeps exactly the dates that satisfy it", part=name, values=vs, dates=ts, result=[un(d) for d in out], expected=want)


def g_expansions(h):
    while h.left():
        name = h.rng.choice(sorted(EXP) + ["dayW"])
        vs = few(h, name)
        wkst = h.rng.choice([0, 1, 1, 2, 3, 4, 5, 6])
        ts = [rmoment(h) for i in range(h.rng.choice([1, 2, 3]))]
        r = rule_for("YEARLY", {("day" if name[:3] == "day" else name): vs}, wkst=wkst)
        if name == "dayW":
            f, o = "byDayExpandWeekly", lambda t, v: O.x_day_week(t, v, wkst)
        else:
            f, o = EXP[name]
        if not hasattr(r, f):
            continue
        h.case((name, tuple(vs), tuple(ts), wkst))
        ok, out = h.attempt(f, getattr(r, f), [mk(t, "utc") for t in ts])
        if ok:
            want = [c for t in ts for c in o(t, vs) if O.ok(c)]
            got = [un(d) for d in out if not d.invalid()]
            h.check(sorted(got) == sorted(want), "an expansion gives exactly one date for each date and value", part=name, values=vs, wkst=wkst, dates=ts, result=got[:8], expected=want[:8])


def g_setpos(h):
    while h.left():
        vs = [h.rng.choice([1, -1, 2, -2, 3, -3, 7, 366, -366]) for i in range(h.rng.choice([1, 2, 3]))]
        ts = [rmoment(h) for i in range(h.rng.choice([0, 1, 2, 3, 6]))]
        r = rule_for("YEARLY", {"setpos": vs})
        h.case((tuple(vs), tuple(ts)), len(ts) > 0)
        ok, out = h.attempt("bySetPosLimit", r.bySetPosLimit, [mk(t, "utc") for t in ts])
        if ok:
            st = sorted(set(ts))
            want = set([st[v - 1] for v in vs if 1 <= v <= len(st)] + [st[v] for v in vs if 1 <= -v <= len(st)])
            h.check(set([un(d) for d in out]) == want, "set positions pick exactly the listed positions", values=vs, dates=ts, result=[un(d) for d in out], expected=sorted(want))


def g_table(h):
    while h.left():
        freq = h.rng.choice(FREQS)
        parts = parts_for(h, freq)
        wkst = h.rng.choice([1, 1, 0, 3, 6])
        t = rmoment(h)
        if h.rng.random() < 0.3 and freq in ("MONTHLY", "YEARLY") and "weekno" not in parts:
            t = t[:2] + (31,) + t[3:]
        if h.rng.random() < 0.35:       # make the limits hit
            for k, f in (("month", 1), ("hour", 3), ("minute", 4), ("second", 5)):
                if k in parts:
                    parts[k][0] = t[f]
            if "yearday" in parts and O.ok(t):
                parts["yearday"][0] = O.INFO[t[:3]][2]
            if "monthday" in parts and O.ok(t):
                parts["monthday"][0] = h.rng.choice([t[2], t[2] - O.MLEN[t[:2]] - 1])
            if "day" in parts and O.ok(t):
                parts["day"][0] = (0, O.wday(t))
        h.case((freq, repr(sorted(parts.items())), t, wkst))
        o = O.Rule(freq, 1, parts, wkst)
        r = rule_for(freq, parts, wkst=wkst)
        items = []
        ok, _ = h.attempt("generate%sSet" % freq.title(), getattr(r, "generate%sSet" % freq.title()), mk(t, "utc"), items)
        if ok:
            want = o.interval_set(t)
            got = sorted(set([un(d) for d in items]))
            h.check(got == want and not [d for d in items if d.invalid()], "the candidates of one interval are those of the standard's table",
                    freq=freq, parts=parts, wkst=wkst, start=t, result=got[:8], expected=want[:8])


# ---------------------------------------------------------------- C14
SPAN = {"SECONDLY": 1, "MINUTELY": 60, "HOURLY": 3600, "DAILY": 86400, "WEEKLY": 7 * 86400, "MONTHLY": 30 * 86400, "YEARLY": 365 * 86400}


def plus(t, secs):
    s = t[3] * 3600 + t[4] * 60 + t[5] + secs
    u = O.shift(t, s // 86400)
    s %= 86400
    return u[:3] + (s // 3600, s // 60 % 60, s % 60)


def rexp(h, simple=None):
    """a rule, a start and some ranges, small enough to expand"""
    r = h.rng
    kind = r.choice(["date", "float", "utc", "offset"])
    freq = r.choice(FREQS[3:] if kind == "date" else FREQS)
    start = rmoment(h, kind)
    interval = r.choice([1, 1, 2, 3, 5, 10])
    parts = {} if (r.random() < 0.35 if simple is None else simple) else parts_for(h, freq, kind)
    if freq == "SECONDLY" or freq == "MINUTELY":
        # keep the limits satisfiable soon
        for k, f in (("month", 1), ("hour", 3)):
            if k in parts:
                parts[k][0] = start[f]
        if "monthday" in parts:
            parts["monthday"][0] = start[2]
        if "day" in parts:
            parts["day"][0] = (0, O.wday(start))
        if "yearday" in parts:
            parts["yearday"][0] = O.INFO[start[:3]][2]
    wkst = r.choice([1, 1, 0, 3, 6])
    if "weekno" in parts and "day" in parts:
        wkst = 1        # see g_wkst
    steps = r.choice([0, 1, 3, 10, 30])
    span = SPAN[freq] * interval
    if freq == "YEARLY":
        steps = min(steps, 12, 60 // interval)
    count, until = None, None
    k = r.random()
    if k < 0.3:
        count = r.choice([1, 2, 3, 5, 12])
    elif k < 0.6:
        until = plus(start, r.randint(0, max(1, steps)) * span + r.choice([0, 0, -1, 1, 86400]))
        if kind == "date":
            until = until[:3] + (0, 0, 0)
    elif k < 0.65:
        until = plus(start, -span)
    return kind, freq, start, interval, parts, wkst, span, steps, count, until


def rrange(h, kind, start, span, steps):
    r = h.rng
    a = r.choice([-2, 0, 0, 0, r.randint(0, max(1, steps))]) * span + r.choice([0, 0, 1, -1, 3600])
    b = a + r.choice([1, r.randint(0, max(1, steps)) * span, steps * span + 1, steps * span])
    lo, hi = plus(start, a), plus(start, max(b, a))
    if kind == "date":
        lo, hi = lo[:3] + (0, 0, 0), hi[:3] + (0, 0, 0)
    return lo, hi


def period(kind, lo, hi):
    return Period(mk(lo, kind), mk(hi, kind))


def texts(items):
    return [d.getText() for d in items]


def state(d):
    return (un(d), d.isDateOnly(), d.getTimezoneUTC(), d.getTimezoneID())


def g_expand(h):
    while h.left():
        kind, freq, start, interval, parts, wkst, span, steps, count, until = rexp(h)
        lo, hi = rrange(h, kind, start, span, steps)
        h.case((kind, freq, start, interval, repr(sorted(parts.items())), wkst, count, until, lo, hi))
        rule = rule_for(freq, parts, interval, wkst, count, until and mk(until, kind))
        items = []
        ok, _ = h.attempt("expand", rule.expand, mk(start, kind), period(kind, lo, hi), items)
        if not ok:
            continue
        got = [un(d) for d in items]
        info = dict(kind=kind, rule=rule.getText(), start=start, range=(lo, hi), result=got[:10])
        h.check(all([lo <= t < hi for t in got]), "every instance is within the range", **info)
        h.check(all([t >= start for t in got]), "no instance is before the start", **info)
        h.check(all([t <= until or t == start for t in got]) if until else True, "no instance is after the end date", **info)
        h.check(all([got[i] < got[i + 1] for i in range(len(got) - 1)]), "instances are in increasing order without repeats", **info)
        h.check(count is None or len(got) <= count, "never more instances than the count", **info)
        h.check(all([d.isDateOnly() == (kind == "date") and d.getTimezoneUTC() == mk(start, kind).getTimezoneUTC() and d.getTimezoneID() == mk(start, kind).getTimezoneID() for d in items]),
                "instances are of the kind of the start", **info)
        want, cut = O.Rule(freq, interval, parts, wkst, count, until).expand(start, lo, hi, 3000)
        if not cut:
            h.check(got == want, "the instances are those of the rule in the range", **dict(info, expected=want[:10]))


def g_wkst(h):
    """week numbers are those of weeks that start on Monday, whatever the week start; BYDAY then picks in
    the week of the week start, so week 53 and week 1 of the next year can give the same date"""
    start = (2004, 3, 1, 12, 0, 0)
    rule = rule_for("YEARLY", {"weekno": [53, 1], "day": [(0, 3)]}, 1, 6)
    h.case(rule.getText())
    items = []
    ok, _ = h.attempt("expand", rule.expand, mk(start, "float"), period("float", start, (2014, 1, 1, 0, 0, 0)), items)
    got = [un(d) for d in items]
    h.check(all([got[i] < got[i + 1] for i in range(len(got) - 1)]), "instances are in increasing order without repeats", rule=rule.getText(), start=start, result=got)


def put(h, rule, name, v):
    """set a part: it is what the rule has from then on, and it is the rule's own"""
    given = v[:] if isinstance(v, list) else v
    getattr(rule, "set" + name)(given)
    if isinstance(given, list):
        given.append(given[0] if given else 1)
    got = getattr(rule, "get" + name)()
    h.check(got == v and (name != "Until" or got is v), "a setter sets its part, to a value of the rule's own", part=name, given=repr(v), rule=rule.getText(), held=repr(got))


def change(h, rule, kind, start):
    """change one part of the rule through its setters"""
    r = h.rng
    k = r.choice(["interval", "count", "until", "untilkind", "month", "monthday", "day", "setpos", "yearday", "parse", "none"])
    if k == "interval":
        put(h, rule, "Interval", r.choice([1, 2, 3]))
    elif k == "count":
        put(h, rule, "UseUntil", False)
        put(h, rule, "UseCount", True)
        put(h, rule, "Count", r.choice([1, 2, 4, 9]))
    elif k in ("until", "untilkind"):
        put(h, rule, "UseCount", False)
        put(h, rule, "UseUntil", True)
        u = rule.getUntil()
        if k == "untilkind" and u is not None and kind != "date":
            put(h, rule, "Until", mk(un(u), r.choice(["float", "utc", "offset"])))
        else:
            put(h, rule, "Until", mk(plus(start, r.choice([0, 86400, 10 * 86400, 100 * 86400])), kind))
    elif k == "month":
        put(h, rule, "ByMonth", r.choice([[], [start[1]], [1, 7]]))
    elif k == "monthday":
        put(h, rule, "ByMonthDay", r.choice([[], [1, -1], [start[2]]]))
    elif k == "day":
        put(h, rule, "ByDay", r.choice([[], [(0, 1), (0, 4)]]))
    elif k == "setpos":
        put(h, rule, "BySetPos", r.choice([[], [1], [-1]]))
    elif k == "yearday" and rule.getFreq() == 6:
        put(h, rule, "ByYearDay", r.choice([[], [1, 60, -1], [200]]))
    elif k == "parse":
        rule.parse("FREQ=DAILY;COUNT=5")
    return k


def fresh(rule):
    t = Recurrence()
    for a in ("mFreq", "mUseCount", "mCount", "mUseUntil", "mInterval", "mWeekstart"):
        setattr(t, a, getattr(rule, a))
    for a in ATTR.values():
        v = getattr(rule, a)
        setattr(t, a, None if v is None else v[:])
    t.mUntil = None if rule.mUntil is None else rule.mUntil.duplicate()
    return t


def ask(rule, start, per, off, mx):
    items = []
    try:
        rule.expand(start, per, items, float_offset=off, maxInstances=mx)
        return ("ok", [state(d) for d in items]), items
    except TooManyInstancesError:
        return ("too many",), items


def g_history(h):
    while h.left():
        kind, freq, start, interval, parts, wkst, span, steps, count, until = rexp(h)
        if freq in ("SECONDLY", "MINUTELY") and parts:
            parts = {}
        rule = rule_for(freq, parts, interval, wkst, count, until and mk(until, kind))
        hist = [rule.getText()]
        st = mk(start, kind)
        skind = kind
        pers = [period(kind, *rrange(h, kind, start, span, steps)) for i in range(3)]
        for i in range(h.rng.choice([2, 3, 5])):
            k = h.rng.random()
            if k < 0.25:
                hist.append("change " + change(h, rule, skind, un(st)))
                if freq in ("SECONDLY", "MINUTELY") and rule.hasBy():
                    break
            elif k < 0.35:
                skind = h.rng.choice(["float", "utc", "offset"]) if kind != "date" else "date"
                st = mk(un(st), skind)
                if h.rng.random() < 0.5 and skind == "offset":
                    st = mk(plus(un(st), -5 * 3600), skind)      # the same instant in another zone
                hist.append("start %s %s" % (skind, un(st)))
            elif k < 0.42:
                rule = rule.duplicate()
                hist.append("duplicate")
            if un(st)[0] < 1900 or un(st)[0] > 2080:
                break
            per = h.rng.choice(pers)
            off = h.rng.choice([0, 0, 0, 3600, -18000])
            mx = h.rng.choice([None, None, None, 1, 3, 20])
            f = fresh(rule)
            sbefore, pbefore = state(st), (state(per.getStart()), state(per.getEnd()))
            h.case((tuple(hist), state(st), state(per.getStart()), state(per.getEnd()), off, mx))
            ok1, a1 = h.attempt("expand with history", ask, rule, st, per, off, mx)
            ok2, a2 = h.attempt("expand", ask, f, st.duplicate(), per.duplicate(), off, mx)
            hist.append("expand %s %s %s %s" % (state(st), per.getText(), off, mx))
            if ok1 and ok2:
                if not h.check(a1[0] == a2[0], "the answer does not depend on earlier expansions or changes", rule=rule.getText(), history=hist, result=a1[0], expected=a2[0]):
                    break
            h.check(state(st) == sbefore and (state(per.getStart()), state(per.getEnd())) == pbefore, "expanding leaves the start and the range as they were", history=hist)
            k = h.rng.random()
            if k < 0.2 and ok1 and a1[1]:
                a1[1][h.rng.randint(0, len(a1[1]) - 1)].offsetDay(1)
                hist.append("an instance was moved")
            elif k < 0.3:
                st.offsetDay(1)
                hist.append("the start was moved")
            elif k < 0.4:
                per.getEnd().offsetDay(1)
                hist.append("the end of a range was moved")


# ---------------------------------------------------------------- C15
def rset(h):
    r = h.rng
    kind = r.choice(["date", "float", "utc"])
    start = rmoment(h, kind)
    rs = RecurrenceSet()
    given = dict((n, []) for n in ("getRules", "getExrules", "getDates", "getExdates", "getPeriods", "getExperiods"))

    def put(add, name, x):
        getattr(rs, add)(x)
        given[name].append(x)
    pool = [plus(start, d * 86400) for d in (-3, 0, 1, 2, 3, 4, 5, 7, 8, 14, 21, 28, 30, 31, 60)]

    def arule():
        freq = r.choice(["DAILY", "WEEKLY", "MONTHLY"])
        parts = r.choice([{}, {}, {"day": [(0, r.randint(0, 6)), (0, r.randint(0, 6))]}, {"monthday": [r.choice([1, 15, start[2], -1])]}])
        c = r.choice([None, None, 1, 3, 6])
        u = None if c or r.random() < 0.5 else mk(r.choice(pool), "utc" if kind == "float" and r.random() < 0.4 else kind)
        return rule_for(freq, parts, r.choice([1, 1, 2, 3]), 1, c, u)
    for i in range(r.choice([0, 1, 1, 2])):
        put("addRule", "getRules", arule())
    for i in range(r.choice([0, 0, 1, 1])):
        put("subtractRule", "getExrules", arule())
    for i in range(r.choice([0, 0, 1, 3])):
        put("addDT", "getDates", mk(r.choice(pool), kind))
    for i in range(r.choice([0, 0, 1, 3])):
        put("subtractDT", "getExdates", mk(r.choice(pool), kind))
    if kind != "date":
        for i in range(r.choice([0, 0, 1, 2])):
            put("addPeriod", "getPeriods", Period(mk(r.choice(pool), kind), duration=Duration(hours=r.choice([1, 30]))))
        for i in range(r.choice([0, 0, 1, 2])):
            x = Period(mk(r.choice(pool), kind), duration=Duration(hours=r.choice([1, 1, 30, 60])))
            rs.subtractPeriod(x)
            given["getExperiods"].append(x)
            if r.random() < 0.5:
                x = mk(un(x.getStart()), kind)
                rs.addDT(x)
                given["getDates"].append(x)
    for name in sorted(given):
        got = getattr(rs, name)()
        h.check(len(got) == len(given[name]) and all([a is b for a, b in zip(got, given[name])]), "a set holds what was added to it, in order", list=name, given=[repr(x) for x in given[name]], held=[repr(x) for x in got])
    return kind, start, rs


def describe(rs):
    return ([x.getText() for x in rs.mRrules], [x.getText() for x in rs.mExrules], [state(x) for x in rs.mRdates], [state(x) for x in rs.mExdates],
            [x.getText() for x in rs.mRperiods], [x.getText() for x in rs.mExperiods])


def in_set(t, lo, hi):
    return lo <= t < hi


def g_sets(h):
    while h.left():
        kind, start, rs = rset(h)
        st = mk(start, kind)
        for q in range(2):
            lo = plus(start, h.rng.choice([-5, 0, 0, 1, 3]) * 86400)
            hi = plus(lo, h.rng.choice([0, 1, 5, 20, 70]) * 86400)
            if hi == lo:
                hi = plus(lo, 86400)
            per = period(kind, lo, hi)
            d0 = describe(rs)
            h.case((repr(d0), kind, start, lo, hi))
            off = h.rng.choice([0, 0, -4 * 3600, 9 * 3600])
            inc, exc = set(), set()
            if in_set(start, lo, hi):
                inc.add(start)
            bad = False
            for rules, into in ((rs.mRrules, inc), (rs.mExrules, exc)):
                for x in rules:
                    o = []
                    ok, _ = h.attempt("expand a rule", fresh(x).expand, st.duplicate(), period(kind, lo, hi), o, off)
                    bad = bad or not ok
                    into.update([un(d) for d in o])
            for ds, into in ((rs.mRdates, inc), (rs.mExdates, exc)):
                into.update([un(d) for d in ds if in_set(un(d), lo, hi)])
            for ps, into in ((rs.mRperiods, inc), (rs.mExperiods, exc)):
                into.update([un(p.getStart()) for p in ps if un(p.getStart()) < hi and un(p.getEnd()) > lo])
            want = sorted(inc - exc)
            items = []
            ok, _ = h.attempt("expand", rs.expand, st.duplicate(), per, items, off)
            if ok and not bad:
                got = [un(d) for d in items]
                h.check(got == want, "the expansion is the inclusions minus the exclusions, in order and without repeats", set=d0, kind=kind, start=start, range=(lo, hi), offset=off, result=got[:12], expected=want[:12])
                h.check(describe(rs) == d0, "expanding does not change the set", set=d0, after=describe(rs))
        # duplicates
        dup = rs.duplicate()
        d0 = describe(rs)
        ok, e = h.attempt("equals", rs.equals, dup)
        h.check(not ok or e, "a duplicated set equals the original", set=d0)
        h.check(describe(dup) == d0, "a duplicated set has the same parts", set=d0, duplicate=describe(dup))
        which = h.rng.randint(0, 7)
        if which == 0:
            dup.addRule(rule_for("DAILY", {}, 9))
        elif which == 1:
            dup.subtractDT(mk(plus(start, 999 * 86400), kind))
        elif which == 2:
            dup.addDT(mk(plus(start, 999 * 86400), kind))
        elif which == 3:
            dup.subtractRule(rule_for("WEEKLY", {}, 9))
        elif which == 4 and dup.mRrules:
            dup.mRrules[0].setInterval(99)
        elif which == 5 and dup.mRdates:
            dup.mRdates[0].offsetDay(500)
        elif which == 6 and dup.mRperiods:
            dup.mRperiods[0].getStart().offsetDay(500)
        elif which == 7 and dup.mExdates:
            dup.mExdates[0].offsetDay(500)
        else:
            continue
        h.check(describe(rs) == d0, "changing a duplicate leaves the original as it was", set=d0, after=describe(rs), change=which)
        ok, e = h.attempt("equals", rs.equals, dup)
        h.check(not ok or not e, "a changed duplicate no longer equals the original", set=d0, change=which)


if PROP == "C12":
    H.run("rules", "random rules with any of the 14 parts in any order: fields, text and JSON round trip, equality, hash, duplicate", g_round, 0.65)
    H.run("rejection", "rules with one malformed, out-of-range, repeated or conflicting part", g_reject, 0.3)
elif PROP == "C13":
    H.run("limits", "each by*Limit on random lists of dates and values", g_limits, 0.2)
    H.run("expansions", "each by*Expand on random dates and values", g_expansions, 0.3)
    H.run("setpos", "bySetPosLimit on random lists", g_setpos, 0.08)
    H.run("table", "generate*Set for random combinations of parts of every frequency", g_table, 0.4)
elif PROP == "C14":
    H.run("wkst-weekno", "one rule with BYWEEKNO, BYDAY and a week start other than Monday", g_wkst, 0.01)
    H.run("expand", "expansion of random rules over random ranges against the calendar-walk oracle", g_expand, 0.5)
    H.run("history", "sequences of expansions, rule changes and changes of shared values on one rule object against a fresh rule", g_history, 0.47)
elif PROP == "C15":
    H.run("sets", "random recurrence sets and ranges", g_sets, 0.95)
H.done()
