"""C11: line folding.  The unfolded text is an arbitrary UTF-8 text T of any length; the output is watched by a
ghost stream that knows how much of T has been written and the column reached."""
import z3
from vc.values import *
from vc.verify import Contract
from vc import strings
from .spec import *
from vc.emit import Emit, Spec
from .c20 import ghost
from .text import loop_names

CONTRACTS = []
PB = "pycalendar.property.PropertyBase"
TRUST = ("the text to fold is UTF-8 (at most three continuation bytes in a row) and has no line break of its own (values are escaped: C09, C10)",)


def add(*a, **k):
    k.setdefault("props", ("C11",))
    k.setdefault("replay", False)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


def cont(E, v, i):
    """the byte at index i is a UTF-8 continuation byte"""
    c = strings.vat(E, v, i)
    return z3.And(c >= 0x80, c < 0xC0)


def utf8(E, v, i):
    """no character is longer than four bytes, none starts with a continuation byte"""
    E.fact(z3.Not(z3.And([cont(E, v, i - j) for j in range(4)])))
    E.fact(z3.Implies(zt(i) == 0, z3.Not(cont(E, v, 0))))


def zt(x):
    return z3.IntVal(x) if isinstance(x, int) else x


# --- the output: `pos` bytes of T written so far, `col` bytes on the current line, `done` after the final CRLF
def o_write(E, o, x):
    s = E.S
    pos, col = o.slots["pos"], o.slots["col"]
    if not isinstance(x, str) and not isinstance(x, View):
        k = None
        if isinstance(x, SStr) and x.fixed() and not any(isinstance(p, str) for p in x.pieces):
            # a few characters of T
            k = len(x.pieces)
            E.prove("what is written is the text, in order", z3.And([strings.vat(E, s.T, zt(pos) + j) == strings.code(p) for j, p in enumerate(x.pieces)]))
            E.prove("nothing after the last line break", zt(o.slots["done"]) == 0)
            E.setslot(o, "pos", zt(pos) + k)
            E.setslot(o, "col", zt(col) + k)
            E.prove("at most 75 octets in a line", zt(col) + k <= 75)
            return None
        strings._U("write of %r" % (x,))
    E.prove("nothing after the last line break", zt(o.slots["done"]) == 0)
    if isinstance(x, View):
        if not x.fn.eq(s.T.fn):
            strings._U("another text is written")
        E.prove("what is written continues the text where the last piece ended", z3.Or(x.lo == pos, x.lo == x.hi))
        E.prove("at most 75 octets in a line", zt(col) + (x.hi - x.lo) <= 75)
        E.setslot(o, "pos", zt(pos) + (x.hi - x.lo))
        E.setslot(o, "col", zt(col) + (x.hi - x.lo))
        return None
    if x == "":
        return None
    if s.prefix_only:
        # the whole output is known
        E.setslot(o, "raw", o.slots["raw"] + x)
        return None
    if x == "\r\n":
        E.setslot(o, "done", 1)
        return None
    if x == "\r\n ":
        E.prove("a fold does not split a character", z3.Not(cont(E, s.T, pos)))
        E.prove("a fold leaves something for the next line", zt(pos) < s.n)
        E.prove("a folded line is not empty", zt(col) >= 1)
        E.setslot(o, "col", 1)
        return None
    E.prove("only the text and line breaks are written", False)


OUT = ghost("output", write=o_write)


def v_generate(E, o, sout):
    s = E.S
    s.before = sout.slots["buf"]
    E.setslot(sout, "buf", s.T)
    return None


VALUE = ghost("value", generate=v_generate, getType=lambda E, o: E.find_qual("pycalendar.value.Value").slots["VALUETYPE_TEXT"])
PARAM = ghost("parameter", generate=lambda E, o, sout: strings_write(E, sout, o.slots["text"]))


def strings_write(E, sout, x):
    E.setslot(sout, "buf", strings.concat(E, sout.slots["buf"], x))
    return None


def s_fold(E, s):
    s.T = strings.view_new("T")
    s.n = s.T.hi
    E.assume(s.n >= 1)
    s.group = s.choose("group", 3)
    s.valued = s.choose("value", 3)
    s.prefix_only = s.valued != 0
    cls = "pycalendar.vcard.property.Property" if s.group else "pycalendar.icalendar.property.Property"

    kv = {}
    for key, texts in (("B-PAR", ["<b1>", "<b2>"]), ("A-PAR", ["<a1>"]), ("C-PAR", [])):
        items = []
        for t in texts:
            o = E.obj(PARAM)
            o.slots["text"] = t
            items.append(o)
        kv[key] = E.plist(items)
    name = SStr([E.fresh_int("c%d" % i) for i in range(4)])
    s.name = name
    s.grp = SStr([E.fresh_int("g%d" % i) for i in range(2)]) if s.group == 1 else None
    p = s.obj(cls, mName="X-NM", mParameters=E.pdict(kv), mValue=None if s.valued == 1 else E.obj(VALUE))
    if s.group:
        p.slots["mGroup"] = "gr" if s.group == 1 else None
    s.out = E.obj(OUT)
    s.out.slots.update(pos=0, col=0, done=0, raw="")
    s.before = None
    s.want = ("gr." if s.group == 1 else "") + "X-NM;<a1>;<b1>;<b2>:"
    return [p, s.out, s.valued == 2]


def p_fold(E, s, r, exc):
    o = s.out
    if s.prefix_only:
        E.prove("without a value: name, parameters, line break", o.slots["raw"] == s.want + "\r\n")
        return
    E.prove("the value is written after the name and the parameters, in order", s.before is not None and E.truth_term(E.eq(s.before, s.want)))
    E.prove("the whole text is written", zt(o.slots["pos"]) == s.n)
    E.prove("the output ends with a line break", zt(o.slots["done"]) == 1)


def is_outer(stmt):
    from vc.pyast import walk
    return any(n.t in ("While", "For") for n in walk(stmt) if n is not stmt)


def inv_fold(E, s, stmt, frame):
    out = []
    ints = [v for v in sorted(set(loop_names(stmt)) | set(frame.slots)) if is_int(frame.slots.get(v)) and not isinstance(frame.slots.get(v), bool)]
    mod = [v for v in sorted(loop_names(stmt)) if is_int(frame.slots.get(v))]
    o = s.out
    writes = any(n.t == "Attribute" and n.attr == "write" for n in walk_(stmt))
    if writes:
        # (after the last piece only `pos` matters)
        more = lambda c: z3.Or(zt(o.slots["pos"]) >= s.n, c)
        for v in mod:
            out.append(("%s is what has been written" % v, lambda L, v=v: zt(L.var(v)) == o.slots["pos"]))
            out.append(("%s is what has been written, if there is more" % v, lambda L, v=v: more(zt(L.var(v)) == o.slots["pos"])))
            out.append(("%s and what is on the line stay within 75" % v, lambda L, v=v: more(zt(L.var(v)) + o.slots["col"] <= 75)))
            out.append(("%s and what is on the line are as at the start" % v, lambda L, v=v: more(zt(L.var(v)) + o.slots["col"] == zt(L.entry[v]))))
        out.append(("at most the space is on the line", lambda L: more(z3.And(zt(o.slots["col"]) >= 0, zt(o.slots["col"]) <= 1))))
        out.append(("within the text", lambda L: z3.And(zt(o.slots["pos"]) >= 0, zt(o.slots["pos"]) <= s.n)))
        out.append(("not ended", lambda L: zt(o.slots["done"]) == 0))
    else:
        for v in mod:
            def back(L, v=v):
                o0, x = zt(L.entry[v]), zt(L.var(v))
                d = o0 - x
                utf8(E, s.T, o0)
                return z3.And(d >= 0, d <= 3, *[z3.Implies(d > j, cont(E, s.T, o0 - j)) for j in range(3)])
            out.append(("%s steps back over continuation bytes only" % v, back))
    return out


def walk_(stmt):
    from vc.pyast import walk
    return walk(stmt)


def var_fold(E, s, stmt, frame):
    out = [("%s grows" % v, lambda L, v=v: s.n - zt(L.var(v))) for v in sorted(loop_names(stmt)) if is_int(frame.slots.get(v))]
    out += [("%s falls" % v, lambda L, v=v: zt(L.var(v))) for v in sorted(loop_names(stmt)) if is_int(frame.slots.get(v))]
    return out


# --- address book photos: the value starts on a line of its own and is cut every so many octets
class Photo(Spec):
    """the name and the parameters on one line, then the whole value in lines that start with a space; state: what
    comes next (0 the name and the parameters, 1 LF, 2 a space or nothing, 3 the value), pieces of the first line
    written, octets on the line, octets of the value written"""
    name = "folded photo"

    def __init__(self, head, V):
        self.head, self.V = head, V

    def start(self):
        return (0, 0, 0, 0)

    def feed(self, E, st, x):
        if isinstance(x, Obj):
            ph, i, n, pos = st
            ok = z3.Or([z3.BoolVal(False)] + [i == j for j, h in enumerate(self.head) if h is x])
            return (ph, i + 1, n + x.slots["len"], pos), z3.And(ph == 0, ok)
        return Spec.feed(self, E, st, x)

    def char(self, E, st, c):
        ph, i, n, pos = st
        head = z3.Or([z3.BoolVal(False)] + [z3.And(i == j, c == ord(h)) for j, h in enumerate(self.head) if isinstance(h, str)])
        cr, text = c == 13, ph == 0
        end = z3.And(cr, z3.Or(ph == 3, z3.And(ph == 0, i == len(self.head))), n <= 75)
        ok = z3.Or(end, z3.And(ph == 1, c == 10), z3.And(ph == 2, c == 32), z3.And(text, z3.Not(cr), head))
        ph2 = z3.If(cr, z3.IntVal(1), z3.If(ph == 1, z3.IntVal(2), z3.If(ph == 2, z3.IntVal(3), ph)))
        n2 = z3.If(z3.Or(cr, ph == 1), z3.IntVal(0), n + 1)
        return (ph2, z3.If(z3.And(text, z3.Not(cr)), i + 1, i), n2, pos), ok

    def view(self, E, st, v):
        ph, i, n, pos = st
        if not v.fn.eq(self.V.fn):
            return st, False
        k = z3.If(v.hi > v.lo, v.hi - v.lo, z3.IntVal(0))
        return (ph, i, n + k, pos + k), z3.Or(k == 0, z3.And(ph == 3, v.lo == pos, n + k <= 75))

    def count(self, E, em):
        """length of what is written of the first line"""
        E.prove("call: only the length of the first line is asked for", em.st[0] == 0, "pre")
        return em.st[2]

    def done(self, E, st):
        return z3.And(st[0] == 2, st[3] == self.V.hi)


def ph_write(E, o, x):
    s = E.S
    b = o.slots["buf"]
    if isinstance(x, Emit):
        E.prove("call: written once", b == "", "pre")
        E.setslot(o, "buf", x)
        return None
    E.setslot(o, "buf", Emit.of(E, s.spec, b).plus(E, x))
    return None


PHOUT = ghost("output", write=ph_write)
PIECE = ghost("parameter text")
PHPAR = ghost("parameter", generate=lambda E, o, sout: ph_param(E, o, sout))
PHVAL = ghost("photo", getText=lambda E, o: E.S.V, generate=lambda E, o, sout: E.setslot(sout, "buf", sout.slots["buf"].plus(E, E.S.V)),
              getType=lambda E, o: E.find_qual("pycalendar.value.Value").slots["VALUETYPE_BINARY"])


def ph_param(E, o, sout):
    E.setslot(sout, "buf", sout.slots["buf"].plus(E, o.slots["piece"]))
    return None


def s_photo(E, s):
    s.V = strings.view_new("V")
    E.assume(s.V.hi >= 0)
    kv, seq = {}, []
    for key, k in (("B-PAR", 2), ("A-PAR", 1), ("C-PAR", 0)):
        items = []
        for i in range(k):
            o, q = E.obj(PHPAR), E.obj(PIECE)
            q.slots["len"] = s.int("%s%d.length" % (key, i), 0)
            o.slots["piece"] = q
            items.append(o)
        kv[key] = E.plist(items)
        seq.append((key, items))
    s.grouped = s.choose("group", 2)
    s.title = ("PHOTO", "Photo")[s.choose("name", 2)]
    s.head = list(("gr." if s.grouped else "") + s.title)
    for key, items in sorted(seq, key=lambda x: x[0]):
        for o in items:
            s.head += [";", o.slots["piece"]]
    s.head += [":"]
    s.spec = Photo(s.head, s.V)
    s.length = sum((h.slots["len"] for h in s.head if isinstance(h, Obj)), z3.IntVal(len([h for h in s.head if isinstance(h, str)])))
    s.stringio = lambda E, o: Emit(s.spec, s.spec.start())
    s.p = s.obj("pycalendar.vcard.property.Property", mName=s.title, mParameters=E.pdict(kv), mValue=E.obj(PHVAL), mGroup="gr" if s.grouped else None)
    s.out = E.obj(PHOUT)
    s.out.slots["buf"] = ""
    s.regular = []
    return [s.p, s.out, False]


def st_regular(E, slots):
    E.S.regular.append(slots)
    return None


def p_photo(E, s, r, exc):
    if s.regular:
        a = s.regular[0]
        E.prove("or else it is folded like any other, once and by itself", len(s.regular) == 1 and a["self"] is s.p and a["os"] is s.out and a["novalue"] is False and s.out.slots["buf"] == "")
        return
    em = Emit.of(E, s.spec, s.out.slots["buf"])
    E.prove("the name and the parameters, then the value in lines of at most 75 octets, in order", zt(em.ok) if not isinstance(em.ok, bool) else em.ok)
    E.prove("the whole value, ended by a line break", s.spec.done(E, em.st))


def inv_photo(E, s, stmt, frame):
    out = []
    mod = [v for v in sorted(loop_names(stmt)) if is_int(frame.slots.get(v))]
    n = s.V.hi
    for k, v in sorted(frame.slots.items()):
        if isinstance(v, Obj) and "buf" in v.slots:
            em = lambda L, k=k: Emit.of(E, s.spec, L.var(k).slots["buf"])
            out.append(("%s is right so far" % k, lambda L, em=em: zz(em(L).ok)))
            out.append(("%s: within the value" % k, lambda L, em=em: z3.And(em(L).st[3] >= 0, em(L).st[3] <= n)))
            for j in (2, 3):
                out.append(("%s: at the start of a line (%d)" % (k, j), lambda L, em=em, j=j: em(L).st[0] == j))
            out.append(("%s: only a space on the line" % k, lambda L, em=em: em(L).st[2] <= 1))
            for v in mod:
                out.append(("%s is what has been written to %s" % (v, k), lambda L, em=em, v=v: em(L).st[3] == zt(L.var(v))))
                out.append(("%s is what is left to be written to %s" % (v, k), lambda L, em=em, v=v: em(L).st[3] + zt(L.var(v)) == n))
    return out


def zz(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


PHOTOS = ("the value of a photo is base64 text: no character of it is longer than one octet",)
add("pycalendar.vcard.property.Property.generateValue", s_photo, p_photo, loops=[inv_photo], variants=[lambda E, s, stmt, frame: [("%s falls" % v, lambda L, v=v: zt(L.var(v))) for v in sorted(loop_names(stmt)) if is_int(frame.slots.get(v))]
    + [("%s grows" % v, lambda L, v=v: s.V.hi - zt(L.var(v))) for v in sorted(loop_names(stmt)) if is_int(frame.slots.get(v))]],
    stubs={"func:" + PB + ".generateValue": st_regular, "func:" + PB + ".setupValueParameter": lambda E, slots: None}, trusted=PHOTOS)


add(PB + ".generateValue", s_fold, p_fold, loops=[inv_fold], variants=[var_fold], trusted=TRUST)


# --- reading: physical lines RAW(0) .. RAW(n-1), as readline() gives them; FOLD(p): line p continues the one before;
# ACC(a, p): what the physical lines a .. p-1 say when unfolded
SEQ = z3.SeqSort(z3.IntSort())
RAW = z3.Function("raw_line", z3.IntSort(), SEQ)
ACC = z3.Function("unfolded", z3.IntSort(), z3.IntSort(), SEQ)
RTRUST = ("readline() gives the text up to and including the next line feed, or what is left",
          "physical lines do not start with a control character other than a tab")


def sub(x, a, n):
    return z3.SubSeq(x, z3.IntVal(a) if isinstance(a, int) else a, n)


def plain(raw):
    """a physical line without its line end"""
    n = z3.Length(raw)
    return z3.If(raw[n - 1] == 10, z3.If(z3.And(n >= 2, raw[n - 2] == 13), sub(raw, 0, n - 2), sub(raw, 0, n - 1)), z3.If(raw[n - 1] == 13, sub(raw, 0, n - 1), raw))


def folded(p):
    x = plain(RAW(p))
    return z3.And(z3.Length(x) > 0, z3.Or(x[0] == 32, x[0] == 9))


def line_facts(E, s, p):
    raw = RAW(p)
    n = z3.Length(raw)
    x = plain(raw)
    E.fact(z3.Implies(z3.And(p >= 0, p < s.n), z3.And(n > 0, z3.Implies(p < s.n - 1, raw[n - 1] == 10), z3.Implies(z3.Length(x) > 0, z3.And(x[0] <= 255, z3.Or(x[0] >= 32, x[0] == 9))))))
    E.fact(ACC(s.a, s.a + 1) == plain(RAW(s.a)))
    E.fact(z3.Implies(p > s.a, ACC(s.a, p + 1) == z3.Concat(ACC(s.a, p), z3.If(folded(p), sub(x, 1, z3.Length(x) - 1), z3.Empty(SEQ)))))


def in_readline(E, o):
    s = E.S
    p = o.slots["p"]
    if not E.branch(zt(p) < s.n):
        return ""
    line_facts(E, s, zt(p))
    E.setslot(o, "p", zt(p) + 1)
    return SymSeq("char", RAW(zt(p)))


INS = ghost("input", readline=in_readline)


def s_read(E, s):
    s.n, s.a = z3.Int("lines_in_all"), z3.Int("first_line")
    s.j = z3.Int("any_line")
    E.assume(z3.And(s.a >= 0, s.a <= s.n))
    s.ahead = s.choose("lookahead", 2) == 1
    s.ins = E.obj(INS)
    line_facts(E, s, s.a)
    if s.ahead:
        # the previous call has read line a already
        E.assume(s.a < s.n)
        s.ins.slots["p"] = s.a + 1
        second = SymSeq("char", plain(RAW(s.a)))
    else:
        s.ins.slots["p"] = s.a
        second = None
    first = None if s.choose("first", 2) == 0 else SymSeq("char", E.fresh_seq("previous"))
    s.lines = E.plist([first, second])
    return [s.ins, s.lines]


def p_read(E, s, r, exc):
    p = zt(s.ins.slots["p"])
    one, two = s.lines.slots["v"]
    more = s.a < s.n
    E.prove("there is a line exactly if there is more text", Iff(E.truth_term(r), more))
    if r is False:
        E.prove("none at the end", one is None)
        return
    line_facts(E, s, s.j)
    E.prove("a line is a text", is_str(one))
    if isinstance(one, Opaque) or isinstance(two, Opaque):
        strings._U("the line read ahead before the loop")
    if two is None:
        E.prove("no line is left", p == s.n)
        q = p
    else:
        q = p - 1
        line_facts(E, s, q)
        E.prove("the next line is kept", And(q < s.n, strings.seq_term(E, two) == plain(RAW(q))))
        E.prove("the next line does not continue this one", z3.Not(folded(q)))
    E.prove("the line is what its physical lines say, unfolded", strings.seq_term(E, one) == ACC(s.a, q))
    E.prove("every line that was joined is a continuation", z3.Implies(z3.And(s.j > s.a, s.j < q), folded(s.j)))
    E.prove("one line at least", q > s.a)


def inv_read(E, s, stmt, frame):
    p = lambda: zt(s.ins.slots["p"])

    def acc(L):
        one = s.lines.slots["v"][0]
        return strings.seq_term(E, one) == ACC(s.a, p()) if is_str(one) else None

    return [("within the text", lambda L: z3.And(p() > s.a, p() <= s.n)),
            ("the lines joined are continuations", lambda L: z3.Implies(z3.And(s.j > s.a, s.j < p()), folded(s.j))),
            ("unfolded so far", acc)]


def lines_kind(E, s, base, cur):
    return [SymSeq("char", E.fresh_seq("line")), Opaque("the line read ahead")]


add("pycalendar.utils.readFoldedLine", s_read, p_read, loops=[inv_read], variants=[lambda E, s, stmt, frame: [("lines left", lambda L: s.n - zt(s.ins.slots["p"]))]],
    list_kind=lines_kind, trusted=RTRUST)
