# C21: rule dates, offsets and time conversion of the tz compiler, against an independent calendar walk
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[0])))
from hlib import *
import datetime
from pycalendar.datetime import DateTime
from zonal.rule import Rule, RuleSet
from zonal.zone import Zone, ZoneRule
from zonal.utils import DateTime as ZDateTime

MONTHS = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"]
DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]       # datetime.date.weekday() order


def ondate(year, month, on):
    if on.startswith("last"):
        d = datetime.date(year + month // 12, month % 12 + 1, 1) - datetime.timedelta(1)
        while DAYS[d.weekday()] != on[4:]:
            d -= datetime.timedelta(1)
        return d
    if ">=" in on:
        w, n = on.split(">=")
        d = datetime.date(year, month, int(n))
        while DAYS[d.weekday()] != w:
            d += datetime.timedelta(1)
        return d
    return datetime.date(year, month, int(on))


def mlen(y, m):
    return (datetime.date(y + m // 12, m % 12 + 1, 1) - datetime.date(y, m, 1)).days


def mkrule(name, fr, to, month, on, at, save, letter="S"):
    r = Rule()
    r.parse("Rule\t%s\t%s\t%s\t-\t%s\t%s\t%s\t%s\t%s" % (name, fr, to, month, on, at, save, letter))
    return r


def hms(r, signs=True):
    """(text, seconds) of an amount of time"""
    n = r.randint(1, 3)
    p = [r.randint(0, 14), r.choice([0, 0, 15, 20, 30, 44, 45, 59]), r.choice([0, 8, 30, 59])]
    neg = signs and r.random() < 0.5
    t = str(p[0]) if n == 1 and r.random() < 0.6 else "%02d" % p[0] if r.random() < 0.5 else str(p[0])
    s = p[0] * 3600
    if n > 1:
        t += ":%02d" % p[1]
        s += p[1] * 60
    if n > 2:
        t += ":%02d" % p[2]
        s += p[2]
    return ("-" + t, -s) if neg else (t, s)


def rules(h):
    r = h.rng
    while h.left():
        m = r.randint(1, 12)
        k = r.random()
        y = r.choice([r.randint(1800, 2100), r.randint(1753, 9998), r.choice([1900, 2000, 2004, 1999])])
        if k < 0.3:
            on = "last" + r.choice(DAYS)
        elif k < 0.75:
            on = r.choice(DAYS) + ">=" + str(r.randint(1, mlen(y, m)))
        else:
            on = str(r.randint(1, mlen(y, m)))
        hh, mm, sp = r.randint(0, 23), r.choice([0, 1, 30, 59]), r.choice(["", "", "s", "u", "g", "z", "w"])
        at = r.choice(["%d:%02d" % (hh, mm), "%02d:%02d" % (hh, mm)]) + sp
        save, secs = hms(r)
        h.case((y, m, on, at, save))
        ru = mkrule("R", str(y), r.choice(["only", "max", str(y + 3)]), MONTHS[m - 1], on, at, save)
        ok, res = h.attempt("datetimeForYear", ru.datetimeForYear, y)
        if not ok:
            continue
        dt, special = res
        w = ondate(y, m, on)
        h.check((dt.getYear(), dt.getMonth(), dt.getDay()) == (w.year, w.month, w.day), "the date is the day the rule names", year=y, month=m, on=on, got=str(dt), want=str(w))
        h.check((dt.getHours(), dt.getMinutes(), dt.getSeconds()) == (hh, mm, 0) and special == sp, "the time and its mode are those written", at=at, got=(str(dt), special))
        h.check(dt.floating() and not dt.isDateOnly(), "the time is local", got=str(dt))
        h.check(ru.getOffset() == secs, "the save is the signed amount written", save=save, got=ru.getOffset(), want=secs)
        h.check(ru.getOffset() == secs and ru.datetimeForYear(y)[0] == dt, "asking again gives the same", on=on)


def zones(h):
    r = h.rng
    while h.left():
        gt, gs = hms(r)
        st, ss = hms(r)
        st = r.choice(["-", st, st])
        z = ZoneRule(None)
        h.case((gt, st))
        line = "Zone\tX/Y\t%s\t%s\tFMT" % (gt, st)
        until = r.random() < 0.5
        y, m, d, hh, mm = r.randint(1800, 2100), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59)
        n = r.randint(1, 4)
        mode = r.choice(["", "s", "u"]) if n == 4 else ""
        if until:
            line += "\t" + " ".join([str(y), MONTHS[m - 1], str(d), "%d:%02d%s" % (hh, mm, mode)][:n])
        ok, _ = h.attempt("parse", z.parse, line, 0)
        if not ok:
            continue
        h.check(z.getUTCOffset() == gs and z.getUTCOffset() == gs, "the zone offset is the signed amount written", text=gt, got=z.getUTCOffset(), want=gs)
        h.check(z.isNumericOffset(), "a save written as a number is recognised", text=st)
        ok, v = h.attempt("getNumericOffset", z.getNumericOffset)
        if ok:
            h.check(v == (0 if st == "-" else ss), "the fixed save is the signed amount written", text=st, got=v, want=ss)
        u = z.getUntilDate()
        want = (9999, 12, 1, 0, 0, 0)
        if until:
            want = (y, m if n > 1 else 1, d if n > 2 else 1, hh if n > 3 else 0, mm if n > 3 else 0, 0)
        got = (u.dt.getYear(), u.dt.getMonth(), u.dt.getDay(), u.dt.getHours(), u.dt.getMinutes(), u.dt.getSeconds())
        h.check(got == want and (u.mode or "") == (mode if until else ""), "the until date is the one written", line=line, got=got, want=want)


def convert(h):
    r = h.rng
    while h.left():
        f = (r.randint(1800, 2100), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
        std, save = hms(r)[1], r.choice([0, 3600, 1800, -3600, 7200, hms(r)[1]])
        mode = r.choice(["", None, "s", "u", "g", "z", "w"])
        h.case((f, std, save, mode))
        off = std + save
        t = ZDateTime(DateTime(*f), mode)
        base = datetime.datetime(*f)
        kind = "u" if mode in ("u", "g", "z") else "s" if mode == "s" else "w"
        loc = base + datetime.timedelta(seconds={"u": off, "s": save, "w": 0}[kind])
        utc = base + datetime.timedelta(seconds={"u": 0, "s": -std, "w": -off}[kind])
        x, y = t.getLocaltime(off, std), t.getUTC(off, std)
        g = lambda d: (d.getYear(), d.getMonth(), d.getDay(), d.getHours(), d.getMinutes(), d.getSeconds())
        k = lambda d: (d.year, d.month, d.day, d.hour, d.minute, d.second)
        h.check(g(x) == k(loc), "local time = time written, moved by exactly the offset and save", time=f, mode=mode, std=std, save=save, got=g(x), want=k(loc))
        h.check(g(y) == k(utc), "UTC = time written, moved by exactly the offset and save", time=f, mode=mode, std=std, save=save, got=g(y), want=k(utc))
        h.check(g(t.dt) == f, "converting changes nothing", time=f, got=g(t.dt))
        b = ZDateTime(y, "u").getLocaltime(off, std)
        h.check(g(b) == g(x), "to UTC and back is the identity", time=f, mode=mode, std=std, save=save, got=g(b), want=g(x))


def expand(h):
    """a rule set gives the instants and offsets of its lines, in the years they cover"""
    r = h.rng
    while h.left():
        gt, gs = hms(r)
        z = ZoneRule(None)
        z.parse("Zone\tX/Y\t%s\tR\tF%%sT" % gt, 0)
        lines, want = [], []
        maxy = r.randint(1995, 2012)
        for i in range(r.randint(1, 4)):
            y0 = r.randint(1980, 2010)
            y1 = y0 + r.randint(0, 6)
            to = r.choice(["only", "max", str(y1)])
            m, on = r.randint(1, 12), r.choice(["lastSun", "Sun>=8", "Sat>=1", "15", "1", "lastThu"])
            save, secs = r.choice([("0", 0), ("1:00", 3600), ("0:30", 1800), ("-1:00", -3600), ("1", 3600)])
            mode = r.choice(["", "s", "u"])
            lines.append("Rule\tR\t%d\t%s\t-\t%s\t%s\t2:00%s\t%s\tS" % (y0, to, MONTHS[m - 1], on, mode, save))
            last = y0 if to == "only" else 9999 if to == "max" else y1
            if y0 < maxy:
                for y in range(y0, min(last, maxy if last <= maxy else maxy - 1) + 1):
                    w = ondate(y, m, on)
                    want.append(((w.year, w.month, w.day, 2, 0, 0), mode, gs + secs))
        h.case((tuple(lines), gt, maxy))
        rs = RuleSet()
        ok, _ = h.attempt("parse rules", rs.parse, "\n".join(lines))
        if not ok:
            continue
        res = []
        ok, _ = h.attempt("expand", rs.expand, res, z, maxy)
        if not ok:
            continue
        got = [((x[0].dt.getYear(), x[0].dt.getMonth(), x[0].dt.getDay(), x[0].dt.getHours(), x[0].dt.getMinutes(), x[0].dt.getSeconds()), x[0].mode or "", x[1]) for x in res]
        h.check(got == want, "each rule gives one transition per year with the zone offset plus its save", lines=lines, zone=gt, max=maxy, got=got[:8], want=want[:8])


H.run("rules", "every month, on-day form (fixed, last weekday, weekday on or after any day), time, mode and save at random, years 1753-9998", rules, 0.4)
H.run("zones", "random zone offsets, fixed saves and until dates of 1-4 fields", zones, 0.2)
H.run("convert", "random times, all modes, signed offsets and saves", convert, 0.2)
H.run("expand", "random sets of up to 4 rules, years 1980-2012", expand, 0.2)
H.done()
