# C10: parameter encoding and property lines
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[0])))
from hlib import *
from cStringIO import StringIO
from pycalendar import utils
from pycalendar.parameter import Parameter
from pycalendar.icalendar.property import Property
from pycalendar.vcard.property import Property as VProperty

KEY = ["^", "n", "'", "\"", "\n", "\r", "a", ":"]
WIDE = KEY[:4] + ["a", ":", ";", ",", " ", "\\", "=", "N", "^^", "^n", "^'", "\xc3\xa9", "\xe2\x82\xac", "'", "http://x/?a=b;c", ".", "-", "0", "/", "@", "mailto:a@b"]
NAMES = ["X-A", "X-B", "CN", "cn", "X-Long-Name", "DIR", "Member", "LANGUAGE", "x1", "ROLE", "TYPE", "PREF"]


def unified(s):
    return s.replace("\r\n", "\n").replace("\r", "\n")


def one(h, s):
    h.case(s, len(s) > 0)
    ok, e = h.attempt("encode", utils.encodeParameterValue, s)
    if not ok:
        return
    h.check(not [c for c in e if c in "\r\n\""], "the encoded form has no double quote or line break", value=s, encoded=e)
    ok, d = h.attempt("decode", utils.decodeParameterValue, e)
    if ok:
        h.check(d == unified(s), "decoding the encoded value gives the value", value=s, encoded=e, result=d)


def g_all(h):
    for n in range(0, 7):
        for p in product(KEY, n):
            one(h, "".join(p))
            if not h.left():
                return


def g_random(h):
    while h.left():
        one(h, "".join([h.rng.choice(WIDE + ["\r", "\n", "\r\n"]) for i in range(h.rng.randint(1, 40))]))


def rval(h, m=6):
    k = h.rng.random()
    if k < 0.08:
        return ""
    if k < 0.3:
        return h.rng.choice(["a", "b", "PARTSTAT", "a b", "x:y", "a;b", "a,b", "\\", "a\\", ":\\", ";\\\\", " a", "a ", " ", " ;", "^", "a^", "a:^n", "\"", "'", "=", ";=", "^n\\", "\\\"", ":\\\"x"])
    return "".join([h.rng.choice(WIDE) for i in range(h.rng.randint(1, m))])


def unreadable(v):
    """the reader takes a backslash before the closing quote as part of the value (the tests fix that)"""
    return [c for c in v if c in ":;,"] and (len(v) - len(v.rstrip("\\"))) % 2 == 1 or v.startswith(" ") and (len(v) - len(v.rstrip("\\"))) % 2 == 1


def rtext(h):
    return "".join([h.rng.choice(WIDE) for i in range(h.rng.randint(0, 8))])


def unfold(t):
    lines = [None, None]
    out = []
    ins = StringIO(t)
    while utils.readFoldedLine(ins, lines):
        out.append(lines[0])
    return out


def listing(p):
    return sorted([(k, [(a.getName(), list(a.getValues())) for a in v]) for k, v in p.getParameters().items()])


def lines(h):
    names = [(Property, "X-TEST"), (Property, "X-other"), (VProperty, "X-TEST"), (Property, "SUMMARY"), (Property, "ATTENDEE"), (VProperty, "NOTE")]
    while h.left():
        cls, name = h.rng.choice(names)
        p = cls(name=name)
        if cls is VProperty and h.rng.random() < 0.4:
            p.setGroup(h.rng.choice(["item1", "G", "g-2"]))
        used = []
        for i in range(h.rng.choice((0, 1, 1, 2, 3))):
            n = h.rng.choice(NAMES)
            vs = [v for v in [rval(h) for j in range(h.rng.choice((1, 1, 1, 2, 3)))] if not unreadable(v)] or ["x"]
            p.addParameter(Parameter(n, vs))
            used.append((n, vs))
        text = rtext(h) if name.upper().startswith("X-") else "".join([h.rng.choice("abc :=.@") for i in range(h.rng.randint(0, 8))]).strip()
        p.createValue(text)
        h.case((name, repr(used), text))
        want = {}
        for n, vs in used:
            want.setdefault(n.upper(), []).append((n, sorted([unified(v) for v in vs])))
        want = sorted(want.items())
        t = p.getText()
        l = unfold(t)
        if not h.check(len(l) == 1, "one logical line", parameters=used, value=text, text=t):
            continue
        ok, q = h.attempt("parse", cls.parseText, l[0])
        if not ok:
            continue
        h.check(q.getName() == name, "the name is read back", text=t, result=q.getName())
        h.check(q.getGroup() == p.getGroup(), "the group is read back", text=t, result=q.getGroup())
        got = [(k, [(n, sorted(v)) for n, v in vs]) for k, vs in listing(q)]
        h.check(got == want, "the parameters are read back", parameters=used, text=t, result=got)
        h.check([[sorted(v) == v for n, v in vs] for k, vs in listing(q)] == [[True for n, v in vs] for k, vs in want] or "\"" in t or "^" in t,
                "the values are in the generated order", parameters=used, text=t, result=listing(q))
        h.check(l[0].endswith(":" + text), "the line ends with the value text", text=t, value=text)
        os = StringIO()
        q.getValue().generate(os)
        h.check(os.getvalue() == text or not name.upper().startswith("X-"), "the value text is read back", text=t, value=text, result=os.getvalue())
        h.check(q.getText() == t, "writing again gives the same line", text=t, result=q.getText())


def single(h, quoted_backslash=False):
    """one value, all positions of the special characters"""
    for n in range(0, 6):
        for s in product([":", ";", ",", "\\", "\"", "^", " ", "a", "="], n):
            v = "".join(s)
            if bool(unreadable(v)) != quoted_backslash:
                continue
            for cls in (Property, VProperty):
                p = cls(name="X-T")
                p.addParameter(Parameter("X-P", v))
                p.addParameter(Parameter("X-Q", "z"))
                p.createValue("v;,:\"")
                h.case((cls, v))
                l = unfold(p.getText())
                ok, q = h.attempt("parse", cls.parseText, l[0])
                if ok:
                    ok = h.check(sorted(q.getParameters().keys()) == ["X-P", "X-Q"], "the parameters are read back", value=v, text=l)
                    if ok:
                        h.check(q.getParameterValue("X-P") == v and q.getParameterValue("x-q") == "z", "the parameter value is read back", value=v, text=l, result=q.getParameterValue("X-P"))
                    os = StringIO()
                    q.getValue().generate(os)
                    h.check(os.getvalue() == "v;,:\"", "the value text is read back", value=v, text=l, result=os.getvalue())
            if not h.left():
                return


H.run("encode-exhaustive", "every string of up to 6 characters over 8 characters (as far as the time allows)", g_all, 0.25)
H.run("encode-random", "random strings of up to 40 pieces", g_random, 0.15)
H.run("single", "every parameter value of up to 5 characters over 9 characters (as far as the time allows), in both property classes", single, 0.3)
H.run("quoted-backslash", "every parameter value of up to 5 characters that is quoted and ends in a backslash", lambda h: single(h, True), 0.05)
H.run("lines", "random properties with up to 3 parameters of up to 3 values", lines, 0.3)
H.done()
