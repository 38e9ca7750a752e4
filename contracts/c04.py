"""C04: comparison operators and hashes are those of one integer key per kind."""
import z3
from vc.values import *
from vc.verify import Contract
from vc.interp import MISSING
from .spec import *
from .c01 import D, dt, fld, FIELDS, local, inst, cache_ok, frame_dt, CACHES, TZSTUB, tzoff
from .c03 import DU, DF, dur, total, canon, localf_, floating, C, unchanged

CONTRACTS = []


def add(*a, **k):
    k.setdefault("stubs", TZSTUB)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


def isdate(E, o):
    return E.truth_term(o.slots["mDateOnly"])


def keys(E, a, b):
    """the integers whose order is the order of a and b: the day for dates, the local seconds when
    one of them is floating, otherwise the instant"""
    do = Or(isdate(E, a), isdate(E, b))
    fl = Or(floating(a), floating(b))

    def k(o):
        f = fld(o)
        lf = localf_(E, o)
        return If(do, dayf(E, *f[:3]), If(fl, lf, lf - tzoff(o)))
    return k(a), k(b)


def connect(E, *os):
    for i, a in enumerate(os):
        fact_dayf(E, *fld(a)[:3])
        for b in os[i + 1:]:
            fact_unique(E, fld(a)[:3], fld(b)[:3])
            fact_unique(E, fld(b)[:3], fld(a)[:3])


PAIRS = (("float", "float"), ("utc", "utc"), ("utc", "fixed"), ("fixed", "utc"), ("fixed", "fixed"))


def pair(E, s, cache=True):
    """two valid values of the same kind: both floating, or both with an offset; both dates or both not"""
    k = PAIRS[s.choose("kinds", len(PAIRS))]
    a = dt(E, s, "a", kinds=(k[0],), cache=cache)
    b = dt(E, s, "b", kinds=(k[1],), cache=cache)
    s.assume(Iff(isdate(E, a), isdate(E, b)))
    if k != ("float", "float"):
        s.assume(Not(isdate(E, a)))          # dates carry no zone
    return a, b


def s_cmp(E, s):
    a, b = pair(E, s)
    return [a, b]


def sign(x, y):
    return If(x < y, -1, If(x == y, 0, 1)) if isz(x, y) else (x > y) - (x < y)


def p_cmp(E, s, r, exc):
    a, b = s.old
    connect(E, a, b)
    x, y = keys(E, a, b)
    E.prove("result = sign of the difference of the keys", r == sign(x, y))
    unchanged(E, s, 0, "self")
    unchanged(E, s, 1, "comp")
    E.prove("caches hold the recomputed values", And(cache_ok(E, s.args[0]), cache_ok(E, s.args[1])), "invariant")


def m_cmp(E, s, slots):
    a, b = slots["self"], slots["comp"]
    if b is None:
        return MISSING
    if isinstance(a.slots["mTZID"], str) or isinstance(b.slots["mTZID"], str):
        return MISSING
    from .c03 import is_valid
    E.prove("call: both date-times valid", And(is_valid(E, a), is_valid(E, b)), "pre")
    x, y = keys(E, a, b)
    return sign(x, y)


add(D + "compareDateTime", s_cmp, p_cmp, props=("C04", "C17"), modular=m_cmp)


def hash_eq(E, a, b):
    if isinstance(a, HashVal):
        a = a.struct
    if isinstance(b, HashVal):
        b = b.struct
    if isinstance(a, tuple) and isinstance(b, tuple):
        return And(*[hash_eq(E, x, y) for x, y in zip(a, b)]) if len(a) == len(b) else False
    if isinstance(a, Obj) and isinstance(b, Obj):
        h = E.builtins["hash"].fn
        x, y = h(E, [a], {}), h(E, [b], {})
        if x.struct is a:
            return a is b
        return hash_eq(E, x, y)
    if is_int(a) and is_int(b):
        return a == b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    return a is b


def p_ops(E, s, r, lt, eq, strict_hash=True):
    e, n, l, le, g, ge, h1, h2 = r
    T = E.truth_term
    E.prove("== exactly when the keys are equal", Iff(T(e), eq))
    E.prove("!= is the negation of ==", Iff(T(n), Not(eq)))
    E.prove("< exactly when the key is less", Iff(T(l), lt))
    E.prove("<= exactly when the key is not greater", Iff(T(le), Or(lt, eq)))
    E.prove("> exactly when the key is greater", Iff(T(g), And(Not(lt), Not(eq))))
    E.prove(">= exactly when the key is not less", Iff(T(ge), Not(lt)))
    E.prove("equal values hash equal", Implies(eq, hash_eq(E, h1, h2)))


def p_dtops(E, s, r, exc):
    a, b = s.old
    connect(E, a, b)
    x, y = keys(E, a, b)
    p_ops(E, s, r, x < y, x == y)


add(C + "compare_ops", s_cmp, p_dtops, props=("C04",), name=C + "compare_ops (date-times)", timeout=150)


def s_durs(E, s):
    return [dur(E, s, "a"), dur(E, s, "b")]


def p_durops(E, s, r, exc):
    x, y = total(E, s.old[0]), total(E, s.old[1])
    p_ops(E, s, r, x < y, x == y)


add(C + "compare_ops", s_durs, p_durops, props=("C04",), name=C + "compare_ops (durations)")
