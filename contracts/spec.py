"""Specification vocabulary: the proleptic calendar the library documents (Julian leap rule up to
1752, Gregorian leap rule from 1753, no days skipped), built only from "which years are leap" and
"how long is each month".  Values may be host ints (then everything is evaluated) or z3 terms
(then leap/dn are uninterpreted and only instances of proved lemmas are added as facts)."""
import z3
from vc.values import *

LEAP = z3.Function("leap", z3.IntSort(), z3.BoolSort())
DN = z3.Function("dn", z3.IntSort(), z3.IntSort())      # day number (1970-01-01 = 0) of 1 January of a year

MLEN = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)
CUM = (0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334)


def isz(*xs):
    return any(isinstance(x, z3.ExprRef) for x in xs)


def If(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if isinstance(a, bool) or isinstance(a, z3.BoolRef):
        a = z3.BoolVal(a) if isinstance(a, bool) else a
        b = z3.BoolVal(b) if isinstance(b, bool) else b
        return z3.If(c, a, b)
    a = z3.IntVal(a) if isinstance(a, int) else a
    b = z3.IntVal(b) if isinstance(b, int) else b
    return z3.If(c, a, b)


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
        else:
            out.append(x)
    return True if not out else (z3.And(*out) if len(out) > 1 else out[0])


def Or(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
        else:
            out.append(x)
    return False if not out else (z3.Or(*out) if len(out) > 1 else out[0])


def Not(x):
    return (not x) if isinstance(x, bool) else z3.Not(x)


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    a = z3.BoolVal(a) if isinstance(a, bool) else a
    b = z3.BoolVal(b) if isinstance(b, bool) else b
    return a == b


def leap_formula(y):
    """the definition"""
    if isz(y):
        return z3.If(y <= 1752, y % 4 == 0, z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0)))
    return (y % 4 == 0) if y <= 1752 else (y % 4 == 0 and (y % 100 != 0 or y % 400 == 0))


def leapcount(y):
    """L with L(y+1) - L(y) = [leap y] (lemma LeapCount, proved on every run)"""
    if isz(y):
        return z3.If(y <= 1753, (y - 1) / 4, (y - 1) / 4 - (y - 1) / 100 + (y - 1) / 400 + 13)
    return (y - 1) // 4 if y <= 1753 else (y - 1) // 4 - (y - 1) // 100 + (y - 1) // 400 + 13


L1970 = leapcount(1970)


def dn_formula(y):
    return (y - 1970) * 365 + leapcount(y) - L1970


def leap(E, y):
    if not isz(y):
        return leap_formula(y)
    return LEAP(y)


def dn(E, y, near=1):
    """day number of 1 January of year y, with the recurrence facts around it"""
    if not isz(y):
        return dn_formula(y)
    t = DN(y)
    for k in range(-near, near):
        a, b = z3.simplify(y + k), z3.simplify(y + k + 1)
        E.fact(DN(b) == DN(a) + 365 + z3.If(LEAP(a), 1, 0))
    if not z3.is_int_value(z3.simplify(y)):
        E.fact(DN(z3.simplify(y)) == t) if not z3.simplify(y).eq(y) else None
    return t


def fact_order(E, y1, y2):
    """lemma DayNumberOrder: y1 < y2 => dn(y1) + 365 (+1 if leap) <= dn(y2)"""
    if isz(y1, y2):
        y1 = z3.IntVal(y1) if isinstance(y1, int) else y1
        y2 = z3.IntVal(y2) if isinstance(y2, int) else y2
        E.fact(z3.Implies(y1 < y2, dn(E, y1) + 365 + z3.If(LEAP(y1), 1, 0) <= dn(E, y2)))
        E.fact(z3.Implies(y2 < y1, dn(E, y2) + 365 + z3.If(LEAP(y2), 1, 0) <= dn(E, y1)))


def mlen(E, m, y):
    """length of month m (1..12) of year y"""
    if not isz(m, y):
        return 29 if (m == 2 and leap_formula(y)) else MLEN[m - 1]
    if not isz(m):
        return If(leap(E, y), 29, 28) if m == 2 else MLEN[m - 1]
    return If(m == 2, If(leap(E, y), 29, 28), If(Or(m == 4, m == 6, m == 9, m == 11), 30, 31))


def cum(E, m, y):
    """days before month m (1..12) in year y"""
    if not isz(m):
        base = CUM[m - 1] if 1 <= m <= 12 else CUM[11]
        if m <= 2:
            return base
        return base + If(leap(E, y), 1, 0)
    t = z3.IntVal(CUM[11])
    for i in range(10, -1, -1):
        t = z3.If(m == i + 1, z3.IntVal(CUM[i]), t)
    return t + If(And(m > 2, leap(E, y)), 1, 0)


def day(E, y, m, d):
    """day number of the date; m in 1..12, any d"""
    return dn(E, y) + cum(E, m, y) + d - 1


DAYF = z3.Function("dayf", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


def dayf(E, y, m, d):
    """day() kept opaque: laws over many dates only need lemma UniqueDate"""
    if not isz(y, m, d):
        return day(E, y, m, d)
    return DAYF(*[z3.IntVal(x) if isinstance(x, int) else x for x in (y, m, d)])


def fact_dayf(E, y, m, d):
    """the definition of dayf at one point"""
    if isz(y, m, d):
        E.fact(dayf(E, y, m, d) == day(E, y, m, d))


def fact_unique(E, a, b):
    """lemma UniqueDate: valid dates with the same day number are the same date; day numbers order dates"""
    if isz(*(list(a) + list(b))):
        v = And(valid_date(E, *a), valid_date(E, *b))
        na, nb = dayf(E, *a), dayf(E, *b)
        E.fact(z3.Implies(z3.And(v, na == nb), z3.And(a[0] == b[0], a[1] == b[1], a[2] == b[2])))
        lex = Or(a[0] < b[0], And(a[0] == b[0], Or(a[1] < b[1], And(a[1] == b[1], a[2] < b[2]))))
        E.fact(z3.Implies(v, lex == (na < nb)))


def localf(E, y, m, d, h, mi, s):
    return dayf(E, y, m, d) * 86400 + h * 3600 + mi * 60 + s


def valid_date(E, y, m, d):
    return And(m >= 1, m <= 12, d >= 1, d <= mlen(E, m, y) if isz(m) or 1 <= m <= 12 else False)


def valid_time(h, mi, s):
    return And(h >= 0, h <= 23, mi >= 0, mi <= 59, s >= 0, s <= 59)


def secs(E, y, m, d, h, mi, s):
    return day(E, y, m, d) * 86400 + h * 3600 + mi * 60 + s


def fdiv(a, b):
    """floor division by a positive constant"""
    return a / b if isz(a) else a // b


def fmod(a, b):
    return a % b


def weekday(E, y, m, d):
    """0 = Sunday"""
    return fmod(day(E, y, m, d) + 4, 7)


from vc import verify as _v
_v.DEFS["leap"] = leap_formula
_v.DEFS["dn"] = dn_formula
_v.DEFS["dayf"] = lambda y, m, d: DN(y) + cum(None, m, y) + d - 1
