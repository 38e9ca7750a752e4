# C09: text escaping, lists and multi-values
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[0])))
from hlib import *
from cStringIO import StringIO
from pycalendar import utils
from pycalendar.textvalue import TextValue
from pycalendar.multivalue import MultiValue
from pycalendar.value import Value
from pycalendar.vcard.n import N
from pycalendar.vcard.adr import Adr
from pycalendar.vcard.orgvalue import OrgValue
from pycalendar.vcard.nvalue import NValue
from pycalendar.vcard.adrvalue import AdrValue
from pycalendar.icalendar.property import Property
from pycalendar.vcard.property import Property as VProperty
from pycalendar.icalendar.requeststatusvalue import RequestStatusValue

KEY = ["\\", ",", ";", "\n", "\r", "n", "a", ":"]
WIDE = KEY + ["N", "r", " ", "\"", "^", "'", "=", "\t", "\xc3\xa9", "\xe2\x82\xac", "0", "Z", "\\n", "\\,", "\\\\", "\r\n", "abc", ",,", ";;"]


def raw_specials(t):
    """positions of raw line breaks and of separators not preceded by an odd number of backslashes"""
    bad = 0
    k = 0
    for c in t:
        if c in "\r\n":
            bad += 1
        if c in ",;" and k % 2 == 0:
            bad += 1
        k = k + 1 if c == "\\" else 0
    return bad


def one(h, s):
    h.case(s, len(s) > 0)
    ok, e = h.attempt("escape", utils.escapeTextValue, s)
    if not ok:
        return
    h.check(raw_specials(e) == 0, "the escaped form has no raw line break or separator", text=s, escaped=e)
    ok, d = h.attempt("unescape", utils.decodeTextValue, e)
    if ok:
        h.check(d == s, "unescaping the escaped text gives the text", text=s, escaped=e, result=d)
    v = TextValue(s)
    os = StringIO()
    v.generate(os)
    w = TextValue()
    ok, _ = h.attempt("text value", w.parse, os.getvalue(), "ical")
    if ok:
        h.check(w.getValue() == s, "a text value is read back", text=s, escaped=os.getvalue(), result=w.getValue())


def g_all(h):
    for n in range(0, 7):
        for p in product(KEY, n):
            one(h, "".join(p))
            if not h.left():
                return


def g_random(h):
    while h.left() and h.n < 400000:
        one(h, "".join([h.rng.choice(WIDE) for i in range(h.rng.randint(1, 40))]))


def rstr(h, m=6):
    k = h.rng.random()
    if k < 0.12:
        return ""
    return "".join([h.rng.choice(KEY if k < 0.6 else WIDE) for i in range(h.rng.randint(1, m))])


def norm(x):
    if isinstance(x, basestring):
        return x
    return x[0] if len(x) == 1 else "" if len(x) == 0 else tuple(x)


def text_lists(h):
    pre = [("a\\", "b"), ("\\", ""), ("", ""), ("", "", ""), ("\\", ";"), (",", "\\"), ("\\;", "x"), ("\n", "\r\n")]
    while h.left():
        l = pre.pop() if pre else tuple([rstr(h) for i in range(h.rng.randint(1, 5))])
        for sep in ";,":
            h.case((l, sep))
            os = StringIO()
            utils.generateTextList(os, l, sep)
            t = os.getvalue()
            ok, r = h.attempt("list", utils.parseTextList, t, sep, True)
            if ok:
                h.check(tuple(r) == l, "a list of texts is read back", list=l, text=t, result=r)
            ok, r = h.attempt("list", utils.parseTextList, t, sep)
            if ok:
                h.check(norm(r) == norm(l), "a list of texts (or a single text) is read back", list=l, text=t, result=r)
        h.case(("org", l))
        o = OrgValue(l)
        os = StringIO()
        o.generate(os)
        q = OrgValue()
        ok, _ = h.attempt("organisation", q.parse, os.getvalue())
        if ok:
            h.check(norm(q.getValue()) == norm(l), "an organisation value is read back", value=l, text=os.getvalue(), result=q.getValue())
            h.check(norm(o.duplicate().getValue()) == norm(l), "an organisation value is copied", value=l)
        s = OrgValue(l[0])
        os = StringIO()
        s.generate(os)
        q = OrgValue()
        ok, _ = h.attempt("organisation", q.parse, os.getvalue())
        if ok:
            h.check(norm(q.getValue()) == l[0], "an organisation of one text is read back", value=l[0], text=os.getvalue(), result=q.getValue())


def nested(h):
    pre = [("\\", ""), ("a\\", ("b\\", "c")), (("\\", "\\,"), ";"), (("", ""), ""), ("", ("", ""))]
    while h.left():
        m = h.rng.choice((3, 5, 7))
        l = pre.pop() if pre else [rstr(h) if h.rng.random() < 0.5 else tuple([rstr(h, 4) for i in range(h.rng.randint(1, 3))]) for i in range(m)]
        l = tuple(l) + ("",) * (m - len(l))
        h.case(l)
        want = tuple([norm(x) for x in l])
        os = StringIO()
        utils.generateDoubleNestedList(os, l)
        ok, r = h.attempt("nested list", utils.parseDoubleNestedList, os.getvalue(), m)
        if ok:
            h.check(tuple([norm(x) for x in r]) == want, "a nested list is read back", value=l, text=os.getvalue(), result=r)
        if m == 5:
            for cls, vcls in ((N, NValue),):
                nested_value(h, cls, vcls, l, want, "N")
        if m == 7:
            nested_value(h, Adr, AdrValue, l, want, "ADR")


def nested_value(h, cls, vcls, l, want, name):
    parts(h, cls, l, name)
    o = cls()
    o.setValue(l)
    os = StringIO()
    o.generate(os)
    q = cls()
    ok, _ = h.attempt(name, q.parse, os.getvalue())
    if ok:
        h.check(tuple([norm(x) for x in q.getValue()]) == want, "a %s value is read back" % name, value=l, text=os.getvalue(), result=q.getValue())
    p = VProperty(name=name, value=o)
    line = unfold(h, p.getText())
    ok, r = h.attempt(name + " property", VProperty.parseText, line)
    if ok:
        h.check(tuple([norm(x) for x in r.getValue().getValue().getValue()]) == want, "a %s property is read back" % name, value=l, text=line, result=r.getText())


PARTS = {"N": ("Last", "First", "Middle", "Prefix", "Suffix"), "ADR": ("Pobox", "Extended", "Street", "Locality", "Region", "PostalCode", "Country")}


def parts(h, cls, l, name):
    """parts of a name or an address one by one"""
    g = PARTS[name]
    o = cls(*l)
    h.check(o.getValue() == l and [getattr(o, "get" + x)() for x in g] == list(l), "the parts of a %s are those given" % name, value=l, got=o.getValue())
    d = o.duplicate()
    h.check(d == o and not (d != o) and hash(d) == hash(o) and d is not o, "a copy of a %s equals it" % name, value=l, got=d.getValue())
    i = h.rng.randrange(len(g))
    x = rstr(h) + "+"
    getattr(d, "set" + g[i])(x)
    h.check(d.getValue() == l[:i] + (x,) + l[i + 1:] and getattr(d, "get" + g[i])() == x, "setting a part of a %s changes that part alone" % name, value=l, part=g[i], to=x, got=d.getValue())
    h.check(o.getValue() == l and (d == o) == (x == l[i]) and (d != o) == (x != l[i]), "a changed copy of a %s is different, the original as it was" % name, value=l, part=g[i], to=x)


def unfold(h, t):
    lines = [None, None]
    out = []
    ins = StringIO(t)
    while utils.readFoldedLine(ins, lines):
        out.append(lines[0])
    h.check(len(out) == 1, "one logical line", text=t, lines=out)
    return out[0] if out else ""


def multi(h):
    pre = [["a,b", "c"], ["\\", "b"], ["a\\", "b"], [""], ["", ""], [",", ","], ["\\,", "\\"]]
    while h.left():
        l = pre.pop() if pre else [rstr(h) for i in range(h.rng.randint(1, 5))]
        h.case(tuple(l))
        m = MultiValue(Value.VALUETYPE_TEXT)
        m.setValue(l)
        os = StringIO()
        m.generate(os)
        q = MultiValue(Value.VALUETYPE_TEXT)
        ok, _ = h.attempt("multi-value", q.parse, os.getvalue(), "ical")
        if ok:
            h.check([v.getValue() for v in q.getValues()] == l, "a multi-value is read back", value=l, text=os.getvalue(), result=[v.getValue() for v in q.getValues()])
        j = []
        m.writeJSONValue(j)
        h.check(len(j) == len(l), "a multi-value has as many JSON values as elements", value=l, json=j)
        for cls, name in ((Property, "CATEGORIES"), (Property, "RESOURCES"), (VProperty, "NICKNAME"), (VProperty, "CATEGORIES")):
            p = cls(name=name)
            p.setValue(l)
            line = unfold(h, p.getText())
            ok, r = h.attempt(name, cls.parseText, line)
            if ok:
                h.check([v.getValue() for v in r.getValue().getValues()] == l, "a multi-valued property is read back", value=l, text=line, result=r.getText())
        p = Property(name="SUMMARY", value=l[0])
        line = unfold(h, p.getText())
        ok, r = h.attempt("SUMMARY", Property.parseText, line)
        if ok:
            h.check(r.getValue().getValue() == l[0], "a text property is read back", value=l[0], text=line)
        ints = [h.rng.randint(-10 ** 6, 10 ** 6) for i in range(h.rng.randint(1, 4))]
        m = MultiValue(Value.VALUETYPE_INTEGER)
        m.setValue(ints)
        os = StringIO()
        m.generate(os)
        q = MultiValue(Value.VALUETYPE_INTEGER)
        q.parse(os.getvalue(), "ical")
        h.check([v.getValue() for v in q.getValues()] == ints, "a multi-value of integers is read back", value=ints, text=os.getvalue())


def status(h):
    while h.left():
        code = "%d.%d" % (h.rng.randint(1, 5), h.rng.randint(0, 99))
        l = [code, rstr(h)]
        if h.rng.random() < 0.6:
            l.append(rstr(h) or "x")
        h.case(tuple(l))
        v = RequestStatusValue(list(l))
        os = StringIO()
        v.generate(os)
        q = RequestStatusValue()
        ok, _ = h.attempt("request status", q.parse, os.getvalue())
        if ok:
            h.check(list(q.getValue()) == l, "a request status is read back", value=l, text=os.getvalue(), result=q.getValue())
        q.setValue(list(l))
        h.check(q.getValue() == l and q == v and hash(q) == hash(v), "a request status is what was set", value=l, got=q.getValue())
        d = v.duplicate()
        h.check(d == v and d.getValue() is not v.getValue(), "a copy of a request status equals it and has a list of its own", value=l)


H.run("text-exhaustive", "every string of up to 6 characters (as far as the time allows) over backslash, comma, semicolon, LF, CR, n, a, colon", g_all, 0.3)
H.run("text-random", "random strings of up to 40 pieces over 26 pieces incl. multi-byte characters", g_random, 0.2)
H.run("text-lists", "random lists of 1 to 5 short strings", text_lists, 0.13)
H.run("nested-lists", "random nested lists with 3, 5 or 7 components", nested, 0.14)
H.run("multi-values", "random multi-values of 1 to 5 elements, and properties with them", multi, 0.15)
H.run("request-status", "random request status values", status, 0.08)
H.done()
