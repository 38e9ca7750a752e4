# Independent oracle for recurrence rules: dates found by walking the calendar day by day.
# A moment is (y, m, d, H, M, S); d may be a day the month does not have.
Y0, Y1 = 1890, 2450
MLEN = {}
INFO = {}          # (y, m, d) -> (ordinal, weekday 0=SU, yearday)
BYORD = {}
YLEN = {}


def build():
    n, wd = 0, 3       # 1 January 1890 was a Wednesday
    for y in range(Y0, Y1 + 1):
        leap = (y % 4 == 0) and (y % 100 != 0 or y % 400 == 0)
        yd = 0
        for m in range(1, 13):
            ml = 31
            if m in (4, 6, 9, 11):
                ml = 30
            elif m == 2:
                ml = 29 if leap else 28
            MLEN[(y, m)] = ml
            for d in range(1, ml + 1):
                yd += 1
                INFO[(y, m, d)] = (n, wd, yd)
                BYORD[n] = (y, m, d)
                n += 1
                wd = (wd + 1) % 7
        YLEN[y] = yd


build()


def ok(t):
    return t[:3] in INFO


def shift(t, days):
    """whole days (also for a day past the end of its month)"""
    n = INFO[(t[0], t[1], 1)][0] + t[2] - 1 + days
    return BYORD[n] + tuple(t[3:])


def wday(t):
    return INFO[shift(t, 0)[:3]][1]


def isoweek(t):
    """(year, week): the week (Monday first) belongs to the year of its Thursday"""
    wd = (wday(t) + 6) % 7
    th = shift(t, 3 - wd)
    return th[0], (INFO[th[:3]][2] - 1) // 7 + 1


# ---- limits: does the date satisfy the part
def in_month(t, v):
    return t[1] in v


def in_weekno(t, v):
    return isoweek(t)[1] in v


def in_yearday(t, v):
    yd = INFO[t[:3]][2]
    return yd in v or yd - YLEN[t[0]] - 1 in v


def in_monthday(t, v):
    return t[2] in v or t[2] - MLEN[t[:2]] - 1 in v


def in_day(t, v):
    for n, w in v:
        if wday(t) == w:
            if n == 0 or (t[2] - 1) // 7 + 1 == n or -((MLEN[t[:2]] - t[2]) // 7 + 1) == n:
                return True
    return False


def in_hour(t, v):
    return t[3] in v


def in_minute(t, v):
    return t[4] in v


def in_second(t, v):
    return t[5] in v


LIMITS = {"month": in_month, "weekno": in_weekno, "yearday": in_yearday, "monthday": in_monthday, "day": in_day, "hour": in_hour, "minute": in_minute, "second": in_second}


# ---- expansions: one candidate for each value (impossible ones may be left out or be impossible)
def x_month(t, v):
    return [(t[0], m) + t[2:] for m in v]


def x_weekno(t, v):
    out = []
    for w in v:
        for days in [d for d in range(-10, 380)]:
            c = shift((t[0], 1, 1) + t[3:], days)
            if isoweek(c) == (t[0], w) and wday(c) == wday(t):
                out.append(c)
    return out


def x_yearday(t, v):
    out = []
    for n in v:
        k = n if n > 0 else YLEN[t[0]] + n + 1
        if 1 <= k <= YLEN[t[0]]:
            out.append(shift((t[0], 1, 1) + t[3:], k - 1))
    return out


def x_monthday(t, v):
    out = []
    for n in v:
        k = n if n > 0 else MLEN[t[:2]] + n + 1
        if 1 <= k <= MLEN[t[:2]]:
            out.append(t[:2] + (k,) + t[3:])
    return out


def nth(days, n, t):
    if n == 0:
        return [d + t[3:] for d in days]
    if 1 <= n <= len(days):
        return [days[n - 1] + t[3:]]
    if 1 <= -n <= len(days):
        return [days[n] + t[3:]]
    return []


def x_day_year(t, v):
    out = []
    for n, w in v:
        days = [(t[0], m, d) for m in range(1, 13) for d in range(1, MLEN[(t[0], m)] + 1) if INFO[(t[0], m, d)][1] == w]
        out += nth(days, n, t)
    return out


def x_day_month(t, v):
    out = []
    for n, w in v:
        days = [(t[0], t[1], d) for d in range(1, MLEN[t[:2]] + 1) if INFO[(t[0], t[1], d)][1] == w]
        out += nth(days, n, t)
    return out


def x_day_week(t, v, wkst):
    out = []
    first = t
    while wday(first) != wkst:
        first = shift(first, -1)
    for n, w in v:
        if n == 0:
            out += [shift(first, i) for i in range(7) if wday(shift(first, i)) == w]
    return out


def x_hour(t, v):
    return [t[:3] + (h,) + t[4:] for h in v]


def x_minute(t, v):
    return [t[:4] + (h,) + t[5:] for h in v]


def x_second(t, v):
    return [t[:5] + (h,) for h in v]


class Rule(object):
    """freq: SECONDLY..YEARLY; parts: name -> list of values"""

    def __init__(self, freq, interval=1, parts=None, wkst=1, count=None, until=None):
        self.freq, self.interval, self.parts, self.wkst, self.count, self.until = freq, interval, parts or {}, wkst, count, until

    def interval_set(self, t):
        """the candidates of the interval that the moment stands for, in the order and mode of the standard's table"""
        p, f = self.parts, self.freq
        sub = f in ("SECONDLY", "MINUTELY", "HOURLY")
        cur = [t]

        def lim(name):
            if p.get(name):
                cur[:] = [c for c in cur if not ok(c) or LIMITS[name](c, p[name])]

        def exp(name, fn):
            if p.get(name):
                cur[:] = [d for c in cur for d in fn(c, p[name])]
        if f == "YEARLY":
            exp("month", x_month)
            exp("weekno", x_weekno)
            exp("yearday", x_yearday)
            exp("monthday", x_monthday)
            if p.get("yearday") or p.get("monthday"):
                lim("day")
            elif p.get("weekno"):
                exp("day", lambda c, v: x_day_week(c, v, self.wkst))
            elif p.get("month"):
                exp("day", x_day_month)
            else:
                exp("day", x_day_year)
        elif f == "MONTHLY":
            if p.get("month"):
                cur[:] = [c for c in cur if c[1] in p["month"]]
            exp("monthday", x_monthday)
            if p.get("monthday"):
                lim("day")
            else:
                exp("day", x_day_month)
        elif f == "WEEKLY":
            lim("month")
            lim("weekno")
            exp("day", lambda c, v: x_day_week(c, v, self.wkst))
        else:
            for n in ("month", "weekno"):
                lim(n)
            if sub:
                lim("yearday")
            lim("monthday")
            lim("day")
        for k, (name, fn) in enumerate((("hour", x_hour), ("minute", x_minute), ("second", x_second))):
            if ("HOURLY", "MINUTELY", "SECONDLY").index(f) >= k if sub else False:
                lim(name)
            else:
                exp(name, fn)
        cur = sorted(set([c for c in cur if ok(c)]))
        if p.get("setpos"):
            pick = set()
            for n in p["setpos"]:
                if 1 <= n <= len(cur):
                    pick.add(cur[n - 1])
                elif 1 <= -n <= len(cur):
                    pick.add(cur[n])
            cur = sorted(pick)
        return cur

    def step(self, t, k):
        """the start moved by k intervals (its day may not exist)"""
        k *= self.interval
        f = self.freq
        if f == "YEARLY":
            return (t[0] + k,) + t[1:]
        if f == "MONTHLY":
            m = t[0] * 12 + t[1] - 1 + k
            return (m // 12, m % 12 + 1) + t[2:]
        if f in ("WEEKLY", "DAILY"):
            return shift(t, k * (7 if f == "WEEKLY" else 1))
        s = t[3] * 3600 + t[4] * 60 + t[5] + k * {"HOURLY": 3600, "MINUTELY": 60, "SECONDLY": 1}[f]
        u = shift(t, s // 86400)
        s %= 86400
        return u[:3] + (s // 3600, s // 60 % 60, s % 60)

    def expand(self, start, lo, hi, maxsteps=100000):
        """(instances in [lo, hi), whether the walk was cut short)"""
        out, k = [], 0
        if not self.parts:
            n = 0
            while k < maxsteps:
                t = self.step(start, k)
                k += 1
                if not ok(t):
                    if t[:2] + (1,) + t[3:] >= hi:
                        return out, False
                    continue
                if t >= hi or self.until is not None and t > self.until and t != start:
                    return out, False
                if t >= lo:
                    out.append(t)
                n += 1
                if self.count is not None and n >= self.count:
                    return out, False
            return out, True
        n = 1        # the start counts
        if self.count is not None and n >= self.count:
            return out, False
        while k < maxsteps:
            t = self.step(start, k)
            k += 1
            first = {"YEARLY": lambda: (t[0] - 1, 12, 1), "MONTHLY": lambda: t[:2] + (1,), "WEEKLY": lambda: shift(t, -7)[:3],
                     "DAILY": lambda: t[:3], "HOURLY": lambda: t[:4], "MINUTELY": lambda: t[:5]}.get(self.freq, lambda: t)()
            if tuple(first) >= hi:
                return out, False
            for c in self.interval_set(t):
                if c < start or self.count is not None and c == start:
                    continue
                if self.until is not None and c > self.until:
                    return out, False
                if c >= hi:
                    break
                if c >= lo:
                    out.append(c)
                n += 1
                if self.count is not None and n >= self.count:
                    return out, False
        return out, True
