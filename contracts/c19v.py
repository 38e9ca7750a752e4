"""C19: the checks of single values - what makes a value a bad one - for any value."""
from vc.values import *
from vc.verify import Contract
from .spec import *
from .c18 import name, n_t, LOW, ghost

CONTRACTS = []
PVC = "pycalendar.validation.PropertyValueChecks."
INT, DTV = "pycalendar.integervalue.IntegerValue", "pycalendar.datetimevalue.DateTimeValue"


def add(*a, **k):
    k.setdefault("props", ("C19",))
    k.setdefault("replay", False)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


PROP = ghost("aproperty", getValue=lambda E, o: o.slots["value"],
             getIntegerValue=lambda E, o: o.slots["value"] if o.slots["kind"] == "int" else None,
             getDateTimeValue=lambda E, o: o.slots["value"] if o.slots["kind"] == "date" else None)
WHEN = ghost("when", utc=lambda E, o: o.slots["z"], isDateOnly=lambda E, o: o.slots["dateonly"])
TEXTS = ("plaintextvalue.PlainTextValue", "textvalue.TextValue", "unknownvalue.UnknownValue", "urivalue.URIValue")


def s_prop(E, s):
    """a property with a number, a time, a text or no value at all"""
    s.p = E.obj(PROP)
    k = s.choose("kind", 3 + len(TEXTS))
    s.kind = ("int", "date", None)[k] if k < 3 else "text"
    if s.kind == "int":
        s.n = s.int("n")
        v = s.obj(INT, mValue=s.n)
    elif s.kind == "date":
        s.w = E.obj(WHEN)
        s.w.slots.update(z=s.bool("utc"), dateonly=s.bool("dateonly"))
        v = s.obj(DTV, mValue=s.w)
    elif s.kind == "text":
        s.t = name(E, s.int("text"))
        v = s.obj("pycalendar." + TEXTS[k - 3], mValue=s.t)
    else:
        v = None
    s.p.slots.update(kind=s.kind, value=v)
    return s.p


def yes(E, r):
    return E.truth_term(r)


def s_range(E, s):
    p = s_prop(E, s)
    s.lo, s.hi = s.int("low"), s.int("high")
    return [s.lo, s.hi, p]


def s_text(E, s):
    p = s_prop(E, s)
    s.want = name(E, s.int("want"))
    return [s.want, p]


add(PVC + "numericRange", s_range, lambda E, s, r, exc: E.prove("right exactly when it is a number within the range", Iff(yes(E, r), And(s.n >= s.lo, s.n <= s.hi) if s.kind == "int" else False)))
add(PVC + "positiveIntegerOrZero", lambda E, s: [s_prop(E, s)], lambda E, s, r, exc: E.prove("right exactly when it is a number that is not negative", Iff(yes(E, r), s.n >= 0 if s.kind == "int" else False)))
add(PVC + "alwaysUTC", lambda E, s: [s_prop(E, s)], lambda E, s, r, exc: E.prove("right exactly when it is a UTC time", Iff(yes(E, r), s.w.slots["z"] if s.kind == "date" else False)))
add(PVC + "stringValue", s_text, lambda E, s, r, exc: E.prove("right exactly when it is that text, in whatever case", Iff(yes(E, r), LOW(n_t(s.t)) == LOW(n_t(s.want)) if s.kind == "text" else False)))
