# C11: line folding
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(sys.argv[0])))
from hlib import *
from cStringIO import StringIO
from pycalendar import utils
from pycalendar.parameter import Parameter
from pycalendar.icalendar.property import Property
from pycalendar.vcard.property import Property as VProperty

CH = ["a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", " ", "b", ":", "\t"]


def is_utf8(s):
    try:
        s.decode("utf-8")
        return True
    except UnicodeDecodeError:
        return False


def check_fold(h, p, prefix, text):
    t = p.getText()
    want = prefix + text
    if not h.check(t.endswith("\r\n"), "the output ends with CRLF", text=text, output=t):
        return
    ls = t[:-2].split("\r\n")
    h.check(max([len(l) for l in ls]) <= 75, "lines of at most 75 octets", text=text, lengths=[len(l) for l in ls])
    h.check(not [l for l in ls[1:] if not l.startswith(" ")], "continuation lines start with a space", output=t)
    h.check(not [l for l in ls if "\r" in l or "\n" in l], "no other line breaks", output=t)
    h.check(ls[0] + "".join([l[1:] for l in ls[1:]]) == want, "removing the folds gives the unfolded text", text=want, output=t)
    h.check(not [l for l in ls if not is_utf8(l)], "no character is split", text=want, output=t)
    lines = [None, None]
    ins = StringIO(t)
    out = []
    while utils.readFoldedLine(ins, lines):
        out.append(lines[0])
    h.check(out == [want], "reading the output gives the unfolded text", text=want, result=out)


def prop(h, name, text, cls=Property, params=()):
    p = cls(name=name)
    for n, v in params:
        p.addParameter(Parameter(n, v))
    p.createValue(text)
    return p


def boundary(h):
    """a run of one-octet characters, one wide character at every position around each fold, then more"""
    for total in list(range(0, 160)) + [220, 221, 222, 223, 224, 295, 296, 297, 300, 1000]:
        for ch in CH[:4]:
            for pos in (total, total - 1, total - 2, total - 3, total // 2, 66, 67, 68, 69, 70, 71, 72):
                if 0 <= pos <= total:
                    text = "x" * pos + ch + "y" * max(0, total - pos)
                    h.case((total, ch, pos))
                    check_fold(h, prop(h, "X-T", text), "X-T:", text)
        if not h.left():
            return
    for ch in CH[:4]:
        for shift in range(0, 80):
            for k in (20, 40, 75, 76, 150, 400):
                text = "x" * shift + ch * k
                h.case((shift, ch, k))
                check_fold(h, prop(h, "X-T", text), "X-T:", text)
            if not h.left():
                return


def rand(h):
    while h.left():
        k = h.rng.randint(1, 4)
        alpha = [h.rng.choice(CH) for i in range(k)]
        text = "".join([h.rng.choice(alpha) for i in range(h.rng.choice((10, 30, 70, 75, 80, 150, 300, 2000)))])
        text = text.replace(" ", "_") if h.rng.random() < 0.3 else text
        cls, name = h.rng.choice([(Property, "X-T"), (Property, "X-LONG-NAME-" + "N" * h.rng.randint(0, 90)), (VProperty, "X-T")])
        params = []
        prefix = name
        for i in range(h.rng.choice((0, 0, 1, 2))):
            v = "".join([h.rng.choice(["a", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80"]) for j in range(h.rng.randint(1, 60))])
            n = "X-P%d" % i
            params.append((n, v))
            prefix += ";%s=%s" % (n, v)
        h.case((text, name, repr(params)))
        check_fold(h, prop(h, name, text, cls, params), prefix + ":", text)


def photo(h):
    """binary values of address book photos, which start on a line of their own"""
    b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
    sizes = list(range(0, 160, 4)) + [216, 288, 1000]
    while h.left():
        k = sizes.pop(0) if sizes else 4 * h.rng.randint(0, 200)
        text = "".join([h.rng.choice(b64) for i in range(k)])
        params, prefix = [("ENCODING", "B")], "PHOTO;ENCODING=B"
        for i in range(h.rng.choice((0, 0, 1, 2))):
            v = "".join([h.rng.choice(["a", "\xc3\xa9", "\xf0\x9f\x98\x80"]) for j in range(h.rng.randint(1, 60))])
            params.append(("X-P%d" % i, v))
            prefix += ";X-P%d=%s" % (i, v)
        name = h.rng.choice(("PHOTO", "PHOTO", "Photo"))
        h.case((text, repr(params), name))
        check_fold(h, prop(h, name, text, VProperty, params), name + prefix[5:] + ":", text)


def spec_unfold(t):
    """logical lines: physical lines end at LF or CRLF; one that starts with a space or tab continues the one before"""
    phys = t.split("\n")
    phys = [l[:-1] if l.endswith("\r") else l for l in (phys[:-1] if t.endswith("\n") else phys)] if t else []
    out = []
    for l in phys:
        if out and l[:1] in (" ", "\t"):
            out[-1] += l[1:]
        else:
            out.append(l)
    return out


def read(h, t):
    ins = StringIO(t)
    lines = [None, None]
    out = []
    while utils.readFoldedLine(ins, lines):
        out.append(lines[0])
        if len(out) > 200:
            break
    h.check(out == spec_unfold(t), "exactly the unfolded logical lines, in order", text=t, result=out, expected=spec_unfold(t))


def reader(h):
    A = ["a", " ", "\r\n", "\n", "\t"]
    for n in range(0, 8):
        for p in product(A, n):
            t = "".join(p)
            h.case(t, n > 0)
            read(h, t)
        if not h.left():
            break
    while h.left():
        eol = h.rng.choice(("\r\n", "\n"))
        ls = []
        for i in range(h.rng.randint(1, 6)):
            body = "".join([h.rng.choice(["a", "bc", " ", "  ", "\t", "\xc3\xa9", ":", ";"]) for j in range(h.rng.randint(0, 12))])
            body = ("X" + body) if not i or h.rng.random() < 0.8 else body
            cuts = sorted([h.rng.randint(0, len(body)) for j in range(h.rng.choice((0, 1, 2, 4)))])
            parts = [body[x:y] for x, y in zip([0] + cuts, cuts + [len(body)])]
            ls.append((eol + h.rng.choice(" \t")).join(parts))
        t = eol.join(ls) + h.rng.choice(("", eol, eol, eol + eol))
        h.case(t)
        read(h, t)


H.run("boundaries", "one wide character of 1 to 4 octets at and around every fold position, lengths up to 1000", boundary, 0.4)
H.run("random-fold", "random texts of up to 2000 characters, names and parameters that cross folds", rand, 0.22)
H.run("photo", "random base64 photo values of up to 1000 octets, with parameters that cross folds", photo, 0.08)
H.run("reader", "every stream of up to 7 pieces over 5 pieces, then random folded streams", reader, 0.3)
H.done()
