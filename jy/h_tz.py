# C16, C20: timezone lookups, conversions and the timezone database
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[0])))
from hlib import *
import calendar
import datetime
import __builtin__
import io
import codecs
from pycalendar.datetime import DateTime
from pycalendar.timezone import Timezone
from pycalendar.timezonedb import TimezoneDatabase
from pycalendar.icalendar.calendar import Calendar

EPOCH = datetime.datetime(1970, 1, 1)
WD = ["MO", "TU", "WE", "TH", "FR", "SA", "SU"]


def secs(d):
    t = d - EPOCH
    return t.days * 86400 + t.seconds


def fields(n):
    d = EPOCH + datetime.timedelta(seconds=n)
    return (d.year, d.month, d.day, d.hour, d.minute, d.second)


def nth(y, m, n, wd):
    """n-th (or n-th from last) weekday wd of a month, None if there is none"""
    ds = [d for d in range(1, calendar.monthrange(y, m)[1] + 1) if datetime.date(y, m, d).weekday() == wd]
    try:
        return ds[n - 1 if n > 0 else n]
    except IndexError:
        return None


def off(n):
    a = abs(n)
    t = "%s%02d%02d" % ("-" if n < 0 else "+", a // 3600, a // 60 % 60)
    return t + ("%02d" % (a % 60) if a % 60 else "")


LAST = 2105


class Obs(object):
    """one observance: text and transitions (seconds on the local time line of the offset before it)"""

    def __init__(self, kind, start, ofrom, oto, name, rule=None, until=None, rdates=(), count=None):
        self.kind, self.start, self.ofrom, self.oto, self.name, self.rule, self.until, self.rdates, self.count = kind, start, ofrom, oto, name, rule, until, rdates, count

    def text(self):
        f = "%04d%02d%02dT%02d%02d%02d"
        t = ["BEGIN:" + self.kind, "DTSTART:" + f % self.start, "TZOFFSETFROM:" + off(self.ofrom), "TZOFFSETTO:" + off(self.oto), "TZNAME:" + self.name]
        if self.rule:
            m, n, wd = self.rule
            s = "RRULE:FREQ=YEARLY"
            if self.until is not None:
                s += ";UNTIL=" + f % fields(self.until) + "Z"
            if self.count is not None:
                s += ";COUNT=%d" % self.count
            t.append(s + ";BYMONTH=%d;BYDAY=%d%s" % (m, n, WD[wd]))
        for r in self.rdates:
            t.append("RDATE:" + f % r)
        return t + ["END:" + self.kind]

    def transitions(self):
        out = set([secs(datetime.datetime(*self.start))])
        if self.rule:
            m, n, wd = self.rule
            s0 = secs(datetime.datetime(*self.start))
            k = 0
            for y in range(self.start[0], LAST):
                d = nth(y, m, n, wd)
                if d is None:
                    continue
                l = secs(datetime.datetime(y, m, d, *self.start[3:]))
                if l < s0:
                    continue
                if self.until is not None and l - self.ofrom > self.until:
                    break
                if self.count is not None and k >= self.count:
                    break
                k += 1
                out.add(l)
        for r in self.rdates:
            out.add(secs(datetime.datetime(*r)))
        return [(l, l - self.ofrom, self.oto, self.name) for l in sorted(out)]


def mkzone(r, tzid):
    """a zone with eras of yearly rules, one-off transitions and date lists"""
    base = r.choice([-36000, -18000, -12600, -3600, 0, 3600, 19800, 20700, 43200, 34200])
    save = r.choice([3600, 3600, 1800, 7200, -3600])
    obs = []
    y = r.randint(1950, 1995)
    lmt = base + r.choice([0, 120, -300, 1234])
    obs.append(Obs("STANDARD", (y, 1, 1, 0, 0, 0), lmt, base, "S0"))
    names = ["A", "B", "C", "D", "E"]
    n = r.randint(0, 3)
    for e in range(n):
        y += r.randint(1, 5)
        hh = r.choice([0, 1, 2, 3, 23])
        m1 = r.randint(2, 5)
        m2 = r.randint(8, 11)
        if r.random() < 0.3:
            m2 = 12 if r.random() < 0.5 else m2
        w1, w2 = (r.choice([1, 2, -1, 3, 4]), r.randint(0, 6)), (r.choice([1, 2, -1]), r.randint(0, 6))
        d1, d2 = nth(y, m1, *w1), nth(y, m2, *w2)
        last = e == n - 1
        length = r.randint(1, 6)
        k = r.random()
        if k < 0.2:          # single year
            obs.append(Obs("DAYLIGHT", (y, m1, d1, hh, 0, 0), base, base + save, "D" + names[e]))
            obs.append(Obs("STANDARD", (y, m2, d2, hh, 0, 0), base + save, base, "S" + names[e]))
        elif k < 0.45:        # date lists
            ys = range(y, y + length)
            obs.append(Obs("DAYLIGHT", (y, m1, d1, hh, 0, 0), base, base + save, "D" + names[e], rdates=[(q, m1, nth(q, m1, *w1), hh, 0, 0) for q in ys[r.choice([0, 1]):]]))
            obs.append(Obs("STANDARD", (y, m2, d2, hh, 0, 0), base + save, base, "S" + names[e], rdates=[(q, m2, nth(q, m2, *w2), hh, 0, 0) for q in ys[1:]]))
            y += length - 1
        else:
            u1 = u2 = None
            c = None
            if not last or r.random() < 0.3:
                if r.random() < 0.75:
                    y2 = y + length - 1
                    u1 = secs(datetime.datetime(y2, m1, nth(y2, m1, *w1), hh, 0, 0)) - base
                    u2 = secs(datetime.datetime(y2, m2, nth(y2, m2, *w2), hh, 0, 0)) - base - save
                else:
                    c = length
            obs.append(Obs("DAYLIGHT", (y, m1, d1, hh, 0, 0), base, base + save, "D" + names[e], (m1,) + w1, u1, count=c))
            obs.append(Obs("STANDARD", (y, m2, d2, hh, 0, 0), base + save, base, "S" + names[e], (m2,) + w2, u2, count=c))
            y += length - 1
    if r.random() < 0.3:
        y += r.randint(1, 8) if n == 0 or obs[-1].rule is None or obs[-1].until is not None or obs[-1].count is not None else 0
        if y <= 2090:
            nb = base + r.choice([3600, -3600, 1800])
            obs.append(Obs("STANDARD", (y + 1, 1, r.choice([1, 1, 15]), 0, 0, 0), base, nb, "SX"))
    if r.random() < 0.3:
        r.shuffle(obs)
    t = ["BEGIN:VTIMEZONE", "TZID:" + tzid]
    for o in obs:
        t += o.text()
    t += ["END:VTIMEZONE"]
    trans = [x for o in obs for x in o.transitions()]
    return t, trans


def vtz(lines):
    cal = Calendar.parseText("\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x"] + lines + ["END:VCALENDAR", ""]))
    return cal.getComponents("VTIMEZONE")[0]


def answer(trans, col, t):
    """offsets and names in effect at t: those of the latest transition at or before t (several if they tie); None before the first"""
    best = None
    for x in trans:
        if x[col] <= t and (best is None or x[col] > best):
            best = x[col]
    if best is None:
        return None
    return set([x[2] for x in trans if x[col] == best]), set([x[3] for x in trans if x[col] == best])


def moments(r, trans):
    k = r.random()
    x = r.choice(trans)
    if k < 0.6:
        return x[r.choice([0, 1])] + r.choice([0, -1, 1, -3600, 3600, 1800, -7200, 86400, -86400])
    if k < 0.8:     # the ends of years
        return secs(datetime.datetime(r.randint(1949, 2080), 1, 1)) + r.choice([0, -1, 1, -3600, 3600, 43200, -43200])
    return r.randint(secs(datetime.datetime(1949, 1, 1)), secs(datetime.datetime(2080, 1, 1)))


def lookups(h):
    r = h.rng
    while h.left():
        lines, trans = mkzone(r, "Z")
        tz = vtz(lines)
        trans = [x for x in trans]
        hist = []
        h.case("\n".join(lines))
        cache = {}
        for i in range(r.randint(3, 14)):
            t = moments(r, trans) if not hist or r.random() < 0.8 else r.choice(hist)[0] + r.choice([0, 0, 1, 60, -1])
            if not secs(datetime.datetime(1900, 1, 1)) <= t < secs(datetime.datetime(2090, 1, 1)):
                continue
            utc = r.random() < 0.5
            hist.append((t, utc))
            dt = DateTime(*fields(t))
            if utc:
                dt.setTimezone(Timezone(utc=True))
            before = str(dt)
            h.case((tuple(lines[:9]), t, utc, i))
            ok, got = h.attempt("getTimezoneOffsetSeconds", tz.getTimezoneOffsetSeconds, dt, utc)
            if not ok:
                break
            want = answer(trans, 1 if utc else 0, t)
            h.check(got == 0 if want is None else got in want[0], "offset = that of the latest transition at or before the time", zone="\n".join(lines), time=fields(t), utc=utc, got=got,
                    want=want and sorted(want[0]), asked_before=[(fields(a), b) for a, b in hist[:-1]])
            h.check(str(dt) == before, "the date-time asked about is unchanged", before=before, after=str(dt))
            if r.random() < 0.3 and not utc and want is not None:
                ok, nm = h.attempt("getTimezoneDescriptor", tz.getTimezoneDescriptor, dt)
                h.check(not ok or nm in ["(%s)" % x for x in want[1]], "the observance is that of the latest transition at or before the time", zone="\n".join(lines), time=fields(t), got=nm, want=sorted(want[1]),
                        asked_before=[(fields(a), b) for a, b in hist[:-1]])
            if r.random() < 0.05:
                tz = tz.duplicate()


def utc_of(trans, l, table):
    """the instants that a zone shows as local time l (consistent table, sorted by UTC)"""
    out = []
    for o in set([x[2] for x in trans]):
        u = l - o
        a = answer(trans, 1, u)
        if a is not None and a[0] == set([o]):
            out.append(u)
    return out


def consistent(trans):
    t = sorted(set(trans), key=lambda x: x[1])
    for a, b in zip(t, t[1:]):
        if b[0] - b[1] != a[2] or b[1] - a[1] < 2 * 86400:
            return False
    return True


def conversions(h):
    r = h.rng
    TimezoneDatabase.clearTimezoneDatabase()
    while h.left():
        db = TimezoneDatabase.getTimezoneDatabase()
        TimezoneDatabase.clearTimezoneDatabase()
        zs = {}
        for z in ("Z/1", "Z/2"):
            while True:
                lines, trans = mkzone(r, z)
                if consistent(trans):
                    break
            db.addTimezone(vtz(lines))
            zs[z] = (lines, trans)
        for i in range(12):
            src = r.choice(["utc", "Z/1", "Z/2", r.choice([0, 3600, -12600, 45900])])
            dst = r.choice(["utc", "Z/1", "Z/2", r.choice([0, 3600, -12600, 45900])])
            t = moments(r, zs[r.choice(["Z/1", "Z/2"])][1])
            if not secs(datetime.datetime(1949, 1, 1)) <= t < secs(datetime.datetime(2085, 1, 1)):
                continue
            # local time in the source zone, shown exactly once by it
            if src == "utc":
                u = t
            elif isinstance(src, int):
                u = t - src
            else:
                us = utc_of(zs[src][1], t, None)
                if len(us) != 1:
                    continue
                u = us[0]
                if answer(zs[src][1], 1, u) is None or answer(zs[src][1], 0, t) is None:
                    continue
            if dst == "utc":
                w = u
            elif isinstance(dst, int):
                w = u + dst
            else:
                a = answer(zs[dst][1], 1, u)
                if a is None or len(a[0]) != 1:
                    continue
                w = u + list(a[0])[0]
                if answer(zs[dst][1], 0, w) is None:
                    continue
            h.case((t, src, dst))
            mk = lambda z: Timezone(utc=True) if z == "utc" else Timezone(tzid=z)
            d = DateTime(*fields(t))
            d.setTimezone(mk(src))
            k = r.random()
            if k < 0.3:
                h.check(d.getPosixTime() == u, "the instant of a local time", time=fields(t), zone=src, got=d.getPosixTime(), want=u, lines=zs.get(src))
            ok, _ = h.attempt("adjustTimezone", d.adjustTimezone, mk(dst))
            if not ok:
                continue
            g = (d.getYear(), d.getMonth(), d.getDay(), d.getHours(), d.getMinutes(), d.getSeconds())
            h.check(g == fields(w), "converting between zones gives the local time of the same instant", time=fields(t), src=src, dst=dst, got=g, want=fields(w), lines=[zs.get(src), zs.get(dst)])
            if dst in ("utc",) or isinstance(dst, int) or len(utc_of(zs[dst][1], w, None)) == 1:
                h.check(d.getPosixTime() == u, "converting preserves the instant", time=fields(t), src=src, dst=dst, got=d.getPosixTime(), want=u, lines=[zs.get(src), zs.get(dst)])
                h.check(d.duplicate().getPosixTime() == u, "converting preserves the instant", time=fields(t), src=src, dst=dst)
            c = DateTime(*fields(t))
            c.setTimezone(mk(src))
            x = c.duplicateAsUTC()
            g = (x.getYear(), x.getMonth(), x.getDay(), x.getHours(), x.getMinutes(), x.getSeconds())
            h.check(g == fields(u) and x.getPosixTime() == u, "converting to UTC gives the instant", time=fields(t), src=src, got=g, want=fields(u), lines=zs.get(src))
    TimezoneDatabase.clearTimezoneDatabase()


# ---------------------------------------------------------------- C20
OPENED = []


def record(real):
    """stand-in for an opening function: notes the path, and opens only what is inside the scratch directory"""
    def f(path, *a, **k):
        if isinstance(path, (str, unicode)):
            p = os.path.normpath(os.path.join(os.getcwd(), path))
            OPENED.append(p)
            if not (p + "/").startswith(os.path.normpath(SCRATCH) + "/"):
                raise IOError("outside the scratch directory: %s" % p)
        return real(path, *a, **k)
    return f


def tzfile(tzid, offset):
    return ["BEGIN:VTIMEZONE", "TZID:" + tzid, "BEGIN:STANDARD", "DTSTART:20000101T000000", "TZOFFSETFROM:+0000", "TZOFFSETTO:" + off(offset), "END:STANDARD", "END:VTIMEZONE"]


def put(path, lines):
    if not os.path.isdir(os.path.dirname(path)):
        os.makedirs(os.path.dirname(path))
    f = open(path, "wb")
    f.write("\r\n".join(["BEGIN:VCALENDAR", "VERSION:2.0", "PRODID:x"] + lines + ["END:VCALENDAR", ""]))
    f.close()


def like(r, tzid):
    """another spelling"""
    return r.choice([tzid.upper(), tzid.lower(), tzid.swapcase(), tzid + " ", " " + tzid, tzid[:-1], tzid + "x", tzid[1:], tzid.replace(" ", "_"), "./" + tzid, tzid.replace("/", "//"), tzid.capitalize()])


def database(h):
    r = h.rng
    root = os.path.abspath(os.path.join(SCRATCH, "tz"))
    files = {}
    names = ["Plain", "Sub/X", "Sub/Deep/Y", "Dot.ted", "With Space", "Etc/GMT+5", "..odd", "Sub/..odd"]
    for i, n in enumerate(names):
        files[n] = 60 * (i + 1)
        put(os.path.join(root, "db", n + ".ics"), tzfile(n, files[n]))
    os.makedirs(os.path.join(root, "db", "Dir.ics"))
    outside = ["Evil", "db", "db2/Evil", "dbEvil", "db.d/Evil", "other/Plain", "Plain"]
    for n in outside:       # defined under every spelling that could reach it
        put(os.path.join(root, n + ".ics"), tzfile("../" + n, 36000) + tzfile("Sub/../../" + n, 36000) + tzfile(os.path.join(root, n), 36000))
    saved = [(m, a, getattr(m, a)) for m, a in ((__builtin__, "open"), (io, "open"), (os, "open"), (codecs, "open"), (__builtin__, "file"))]
    for m, a, f in saved:
        setattr(m, a, record(f))
    odd = ["", ".", "..", "../Evil", "../db", "../db2/Evil", "../dbEvil", "../db.d/Evil", "../other/Plain", "../Plain", "../../tz/Evil", "Sub/../../Evil", "Sub/../../db2/Evil", "./../db2/Evil", "Sub//../..//db2/Evil",
           os.path.join(root, "Evil"), os.path.join(root, "db2/Evil"), "/etc/passwd", "../db/../Evil", "..\\Evil", "absent", "Sub", "Sub/absent", "Dir", "plain2", "../db2/../db2/Evil", "../db/../db2/Evil",
           "Plain/../../Evil", "%2e%2e/Evil", "~/Evil", "*", "Plain.ics", "../dbEvil.ics"]
    segs = ["..", ".", "Sub", "Deep", "db", "db2", "Evil", "Plain", "X", "Y", "", "dbEvil", "db.d", "other", "tz"]
    bases = [os.path.join(root, "db"), os.path.join(root, "db") + "/", os.path.join(root, ".", "db"), os.path.join(root, "other", "..", "db"), os.path.join(root, "db", "Sub", ".."), os.path.join(root, "db") + "//"]
    rel = os.path.relpath(os.path.join(root, "db"))
    bases.append(rel)
    inside = os.path.join(root, "db") + "/"
    while h.left():
        db = TimezoneDatabase()
        base = r.choice(bases)
        db.setPath(base)
        added, std, hist = {}, set(), []
        h.case((base, r.random()))
        TimezoneDatabase.sTimezoneDatabase = db
        for step in range(r.randint(1, 10)):
            k = r.random()
            if k < 0.25:
                tzid = r.choice(names)
            elif k < 0.35:
                tzid = like(r, r.choice(hist)[1] if hist and r.random() < 0.6 else r.choice(names))
            elif k < 0.6:
                tzid = r.choice(odd)
            elif k < 0.85:
                tzid = "/".join([r.choice(segs) for i in range(r.randint(1, 6))])
            else:
                tzid = r.choice(["New/1", "New/2", "New/3"])
            op = r.choice(["get", "get", "std", "std", "add", "merge", "clear", "offset", "addstd"] if k >= 0.85 or r.random() < 0.2 else ["get", "get", "std", "offset"])
            if op in ("add", "merge", "addstd") and (tzid in odd or not tzid.strip() or "\\" in tzid):
                op = "get"
            hist.append((op, tzid))
            h.case((base, tuple(hist)))
            del OPENED[:]
            want = added.get(tzid, files.get(tzid))
            if op == "get":
                ok, tz = h.attempt("getTimezone", TimezoneDatabase.getTimezone, tzid)
                if ok:
                    h.check((tz is None) == (want is None), "an identifier is found exactly when it is in the database or was added", id=tzid, history=hist, base=base, got=repr(tz))
                    if tz is not None and want is not None:
                        h.check(tz.getID() == tzid and tz.getComponents()[0].getUTCOffset() == want, "the definition is that of the identifier", id=tzid, history=hist, got=str(tz), want=want)
            elif op == "offset":
                ok, o = h.attempt("getTimezoneOffsetSeconds", TimezoneDatabase.getTimezoneOffsetSeconds, tzid, DateTime(2010, 1, 1, 0, 0, 0))
                h.check(not ok or o == (want or 0), "the offset is that of the definition", id=tzid, history=hist, got=o, want=want)
            elif op == "std":
                ok, s = h.attempt("isStandardTimezone", TimezoneDatabase.isStandardTimezone, tzid)
                if ok and not (tzid in added and tzid in files):
                    h.check(bool(s) == (tzid in files or tzid in std), "standard exactly when in the database, whatever was looked up before", id=tzid, history=hist, base=base, got=s)
            elif op in ("add", "addstd", "merge"):
                o = 60 * r.randint(100, 500)
                tz = vtz(tzfile(tzid, o))
                if op == "add":
                    db.addTimezone(tz)
                    added[tzid] = o
                elif op == "merge":
                    TimezoneDatabase.mergeTimezones(Calendar(), [tz])
                    if want is None:
                        added[tzid] = o
                elif tzid not in files:
                    db._addStandardTimezone(tz)
                    if want is None:
                        added[tzid] = o
                    std.add(tzid)
            elif op == "clear":
                TimezoneDatabase.clearTimezoneDatabase()
                added.clear()
                std.clear()
            bad = [p for p in OPENED if not (p + "/").startswith(inside) and not p.endswith((".py", ".class"))]
            h.check(not bad, "no file outside the database directory is opened", id=tzid, base=base, opened=bad, history=hist)
    TimezoneDatabase.sTimezoneDatabase = None
    for m, a, f in saved:
        setattr(m, a, f)


if PROP == "C16":
    H.run("lookups", "random zones of 0-3 eras (yearly rules with UNTIL/COUNT, date lists, single years, one-off changes), up to 14 lookups per zone on both time lines around transitions and year ends, 1949-2085", lookups, 0.65)
    H.run("conversions", "random local times shown exactly once, between UTC, fixed offsets and two random zones", conversions, 0.35)
elif PROP == "C20":
    H.run("database", "34 odd and random path-like identifiers of up to 6 segments, 7 spellings of the database path, random histories of up to 10 lookups, adds, merges and clears", database, 1.0)
H.done()
