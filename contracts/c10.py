"""C10: parameters.  ^-encoding is watched by specification machines along texts of any length; the reader of quoted
strings and tokens is specified by the positions it must find; reading a line's parameters is watched by a ghost tape
whose position is where the reading has got to."""
import z3
from vc.values import *
from vc.verify import Contract
from vc import strings
from vc.interp import Unsupported, MISSING
from vc.emit import Emit, Spec, zt
from .spec import *
from .c20 import ghost
from .text import loop_names
from .c09 import inv_emit, kinds, isin, J, DecV, DEC, SEQ, Listed, elem, put, strings_io, first_flags, is_boolish, sio

CONTRACTS = []
U = "pycalendar.utils."
PAR = "pycalendar.parameter.Parameter."
CR, LF, QUOTE, CARET = 13, 10, 34, 94
SPECIAL = "\r\n\"^"
VALID = "n'^"


def add(*a, **k):
    k.setdefault("props", ("C10",))
    k.setdefault("replay", False)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


def decoded(x):
    """what the character after a ^ stands for"""
    return z3.If(x == ord("n"), z3.IntVal(LF), z3.If(x == ord("'"), z3.IntVal(QUOTE), x))


def norm(x):
    """a line break, however it is written"""
    return z3.If(x == CR, z3.IntVal(LF), x)


class Encoded(Spec):
    """a form of the text T that reads back as T (a line break of any kind as a line feed); state: characters done, 1
    after a ^"""
    name = "encoded parameter value"

    def __init__(self, T):
        self.T = T

    def length(self):
        return strings.vlen(self.T)

    def start(self):
        return (0, 0)

    def at(self, E, i):
        return strings.vat(E, self.T, i)

    def crlf(self, E, k):
        """the character at k is the second half of a line break"""
        return z3.And(k > 0, k < self.length(), self.at(E, k) == LF, self.at(E, k - 1) == CR)

    def after(self, E, k):
        """one character further; a line break is one"""
        return k + 1 + z3.If(self.crlf(E, k + 1), 1, 0)

    def char(self, E, st, c):
        k, half = st
        t = self.at(E, k)
        opens = z3.And(half == 0, c == CARET)
        ok = z3.If(half == 1, z3.And(isin(c, VALID), decoded(c) == norm(t)), z3.If(c == CARET, isin(t, SPECIAL), z3.And(c == t, z3.Not(isin(t, SPECIAL)))))
        return (z3.If(opens, k, self.after(E, k)), z3.If(opens, z3.IntVal(1), z3.IntVal(0))), z3.And(k < self.length(), ok)

    def view(self, E, st, v):
        k, half = st
        if not v.fn.eq(self.T.fn):
            return st, False
        lo, hi = z3.simplify(v.lo - self.T.lo), z3.simplify(v.hi - self.T.lo)
        plain = z3.Implies(z3.And(J >= lo, J < hi), z3.Not(isin(self.at(E, J), SPECIAL)))
        return (z3.If(hi > lo, hi, k), half), z3.Or(hi <= lo, z3.And(half == 0, lo == k, plain))

    def next_special(self, E, st, v):
        t = lambda i: isin(self.at(E, i), SPECIAL)
        return z3.And(st[1] == 0, v >= st[0], v < self.length(), t(v), z3.Implies(z3.And(J >= st[0], J < v), z3.Not(t(J))))

    def done(self, E, st):
        return z3.And(st[0] == self.length(), st[1] == 0)


class Decoded(Spec):
    """what an encoded value D stands for; a ^ that starts no pair stands for itself; state: characters read"""
    name = "decoded parameter value"

    def __init__(self, D):
        self.D = D

    def length(self):
        return strings.vlen(self.D)

    def at(self, E, i):
        return strings.vat(E, self.D, i)

    def pair(self, E, d):
        return z3.And(self.at(E, d) == CARET, d + 1 < self.length(), isin(self.at(E, d + 1), VALID))

    def char(self, E, st, c):
        d, = st
        p = self.pair(E, d)
        return (z3.If(p, d + 2, d + 1),), z3.And(d < self.length(), z3.If(p, c == decoded(self.at(E, d + 1)), c == self.at(E, d)))

    def view(self, E, st, v):
        d, = st
        if not v.fn.eq(self.D.fn):
            return st, False
        lo, hi = z3.simplify(v.lo - self.D.lo), z3.simplify(v.hi - self.D.lo)
        return (z3.If(hi > lo, hi, d),), z3.Or(hi <= lo, z3.And(lo == d, z3.Implies(z3.And(J >= lo, J < hi), self.at(E, J) != CARET)))

    def next_special(self, E, st, v):
        return z3.And(v >= st[0], v < self.length(), self.at(E, v) == CARET, z3.Implies(z3.And(J >= st[0], J < v), self.at(E, J) != CARET))

    def done(self, E, st):
        return st[0] == self.length()


# --- loops that remember the character before
def grows(stmt, name):
    """the loop adds to the text `name` (rather than setting it)"""
    from vc.pyast import walk
    for n in walk(stmt):
        if n.t == "AugAssign" and n.target.t == "Name" and n.target.id == name:
            return True
        if n.t == "Assign" and n.value.t == "BinOp" and any(x.t == "Name" and x.id == name for x in walk(n.value)) and any(t.t == "Name" and t.id == name for t in n.targets):
            return True
    return False


def ckinds(spec_of, src):
    base = kinds(spec_of)

    def tk(E, s, b, cur):
        if not isinstance(cur, str) or cur != "":
            return None
        name = b.rsplit("_", 1)[0]
        if name in s.growing:
            return base["text_kind"](E, s, b, cur)
        v = src(s)
        lo, hi = E.fresh_int(b + "_lo"), E.fresh_int(b + "_hi")
        E.assume(z3.And(lo >= 0, lo <= hi, hi <= v.end, hi - lo <= 1))
        return View(v.fn, lo, hi, v.end)
    return dict(list_kind=base["list_kind"], text_kind=tk)


def spot(E, v):
    """(length, code) of a text of at most one character"""
    if isinstance(v, Emit) or not is_str(v) and not isinstance(v, View):
        return None
    n = strings.length(E, v)
    if isinstance(v, View):
        return n, strings.vat(E, v, 0)
    if not isinstance(n, int) or n > 1:
        return None
    return n, strings.code(strings.pieces(v)[0]) if n else z3.IntVal(-1)


def inv_last(spec_of, src):
    def extra(E, s, stmt, frame, spec, name, em):
        out = []
        T = src(s)
        at = lambda i: strings.vat(E, T, i)
        if isinstance(spec, Encoded):
            out.append(("%s: one line break or character at a time" % name, lambda L: em(L).st[0] == zt(L.k) + z3.If(spec.crlf(E, zt(L.k)), 1, 0) if L.k is not None else None))
        for v in sorted(loop_names(stmt)):
            x = frame.slots.get(v)
            if not (isinstance(x, (str, View)) and not grows(stmt, v)):
                continue
            g = lambda L, v=v: spot(E, L.var(v))

            def prev(L, g=g):
                n, c = g(L)
                return z3.And(zt(n) == z3.If(zt(L.k) > 0, 1, 0), z3.Implies(zt(n) == 1, c == at(zt(L.k) - 1)))

            def maybe(L, g=g):
                n, c = g(L)
                return z3.And(zt(n) <= 1, z3.Implies(zt(n) == 1, z3.And(zt(L.k) > 0, c == at(zt(L.k) - 1))))

            def waits(L, g=g):
                n, c = g(L)
                return em(L).st[0] == zt(L.k) - z3.If(z3.And(zt(n) == 1, c == CARET), 1, 0)
            out.append(("%s is the character before" % v, prev))
            out.append(("%s is the character before, or nothing" % v, maybe))
            out.append(("%s: all but a waiting ^ in %s" % (name, v), waits))
        return out
    f = inv_emit(spec_of, extra)

    def g(E, s, stmt, frame):
        s.growing = set(v for v in loop_names(stmt) if grows(stmt, v))
        return f(E, s, stmt, frame)
    return g


# --- encoding
def s_encode(E, s):
    s.T = strings.view_new("T")
    E.assume(s.T.hi >= 0)
    s.marks = [J]
    s.growing = set()
    s.spec = Encoded(s.T)
    s.stringio = lambda E, o: sio(s, o)
    return [s.T]


def p_encode(E, s, r, exc):
    E.prove("a text is returned", isinstance(r, Emit) or is_str(r))
    em = Emit.of(E, s.spec, r)
    E.prove("what is returned is an encoded form of the value", zt(em.ok))
    E.prove("of all of it", s.spec.done(E, em.st))


ENC = {}


def enc_view(E, v):
    """the encoded form of a text, as a text of its own: no quotes, no line breaks (lemma below)"""
    r = strings.view_new("encoded(%s,%s,%s)" % (v.fn.name(), z3.simplify(v.lo), z3.simplify(v.hi)))
    E.assume(r.hi >= 0)
    return r


def m_encode(E, s, slots):
    v = slots["value"]
    if getattr(s, "encodes", None) is None or not isinstance(v, View):
        return MISSING
    return enc_view(E, v)


add(U + "encodeParameterValue", s_encode, p_encode, loops=[inv_last(lambda s: s.spec, lambda s: s.T)], modular=m_encode, **ckinds(lambda s: s.spec, lambda s: s.T))


# --- decoding
def s_decode(E, s):
    if s.choose("value", 2) == 1:
        s.D = None
        return [None]
    s.D = strings.view_new("D")
    E.assume(s.D.hi >= 0)
    s.marks = [J]
    s.growing = set()
    s.spec = Decoded(s.D)
    s.stringio = lambda E, o: sio(s, o)
    return [s.D]


def p_decode(E, s, r, exc):
    if s.D is None:
        E.prove("no value stays no value", r is None)
        return
    E.prove("a text is returned", isinstance(r, Emit) or is_str(r))
    em = Emit.of(E, s.spec, r)
    E.prove("what is returned is the decoded value", zt(em.ok))
    E.prove("all of it", s.spec.done(E, em.st))


def m_decode(E, s, slots):
    v = slots["value"]
    if getattr(s, "tape", None) is None:
        return MISSING
    if v is None:
        return None
    o = E.obj(DEC)
    if isinstance(v, str) and v:
        # (a text of the code's own)
        o.slots["v"] = v
        return o
    p = part(E, s.T, v)
    o.slots["v"] = DecV(*p)
    return o


add(U + "decodeParameterValue", s_decode, p_decode, loops=[inv_last(lambda s: s.spec, lambda s: s.D)], modular=m_decode, **ckinds(lambda s: s.spec, lambda s: s.D))


# --- what is encoded decodes to the value, one character at a time
def p_lemma(E, s, r, exc):
    k, p = z3.Ints("k p")
    T, D = strings.view_new("T"), strings.view_new("D")
    t = strings.vat(E, T, k)
    enc, dec = Encoded(T), Decoded(D)
    n = strings.vlen(D)
    d = lambda i: strings.vat(E, D, i)
    E.assume(z3.And(k >= 0, k < strings.vlen(T), p >= 0))
    # what the encoder may write for one character: itself ...
    st1, ok1 = enc.char(E, (k, z3.IntVal(0)), d(p))
    plain = z3.And(ok1, st1[1] == 0, p < n)
    q, ok = dec.char(E, (p,), norm(t))
    E.prove("a character written as itself is read as itself", z3.Implies(plain, z3.And(ok, q[0] == p + 1)))
    E.prove("and is no quote and no line break", z3.Implies(plain, z3.Not(isin(d(p), "\r\n\""))))
    # ... or a pair
    st2, ok2 = enc.char(E, st1, d(p + 1))
    two = z3.And(ok1, st1[1] == 1, ok2, p + 1 < n)
    E.prove("a pair is read as the character (a line break of any kind as a line feed)", z3.Implies(two, z3.And(ok, q[0] == p + 2)))
    E.prove("and has no quote and no line break in it", z3.Implies(two, z3.Not(z3.Or(isin(d(p), "\r\n\""), isin(d(p + 1), "\r\n\"")))))
    E.prove("the encoder goes on after the character", z3.Implies(two, st2[0] == enc.after(E, k)))


add("lemma.parameter", lambda E, s: [], p_lemma, run=lambda E, s: None, lemma=True, name="lemma ^-encoding is undone by decoding")


# --- one value written
class Raw(Spec):
    """state: 0 nothing, 1 open quote, 2 the quoted value, 3 closed, 4 the value without quotes"""
    name = "parameter value"

    def __init__(self, X):
        self.X = X

    def char(self, E, st, c):
        k, = st
        q = c == QUOTE
        return (z3.If(k == 0, z3.IntVal(1), z3.IntVal(3)),), z3.And(q, z3.Or(k == 0, k == 2))

    def view(self, E, st, v):
        if not (v.fn.eq(self.X.fn) and z3.simplify(v.lo).eq(z3.simplify(self.X.lo)) and z3.simplify(v.hi).eq(z3.simplify(self.X.hi))):
            return st, False
        return (z3.If(st[0] == 0, z3.IntVal(4), z3.IntVal(2)),), z3.Or(st[0] == 0, st[0] == 1)


def s_genv(E, s):
    s.T = strings.view_new("T")
    E.assume(s.T.hi >= 0)
    s.encodes = True
    s.marks = [J]
    s.X = enc_view(E, s.T)
    s.spec = Raw(s.X)
    s.stringio = lambda E, o: sio(s, o)
    s.os = E.call(strings_io(E), [], {})
    return [s.obj("pycalendar.parameter.Parameter", mName="X", mValues=E.plist([])), s.os, s.T]


def p_genv(E, s, r, exc):
    em = Emit.of(E, s.spec, s.os.slots["buf"])
    at = lambda i: strings.vat(E, s.X, i)
    E.prove("the encoded value is written, in quotes or not", z3.And(zt(em.ok), z3.Or(em.st[0] == 3, em.st[0] == 4)))
    E.prove("without quotes only a value that ends no parameter", z3.Implies(z3.And(em.st[0] == 4, J >= 0, J < strings.vlen(s.X)), z3.Not(isin(at(J), ":;,"))))
    E.prove("and that starts with no space", z3.Implies(em.st[0] == 4, at(0) != 32))


def m_genv(E, s, slots):
    v = slots["str"] if "str" in slots else list(slots.values())[-1]
    if getattr(s, "gvalues", None) is None or not (isinstance(v, Obj) and "ref" in v.slots):
        return MISSING
    put(E, slots["os"], v)
    return None


add(PAR + "generateValue", s_genv, p_genv, modular=m_genv)


# --- one parameter written
class ParamOut(Listed):
    name = "parameter"

    def __init__(self, seq, title):
        Listed.__init__(self, seq, ",")
        self.title = title

    def start(self):
        return (0, 0, 0)

    def feed(self, E, st, x):
        ph, n, sep = st
        if isinstance(x, View):
            same = x.fn.eq(self.title.fn) and z3.simplify(x.lo).eq(z3.simplify(self.title.lo)) and z3.simplify(x.hi).eq(z3.simplify(self.title.hi))
            return (z3.IntVal(1), n, sep), z3.And(z3.BoolVal(same), ph == 0)
        if isinstance(x, Rope):
            return Spec.feed(self, E, st, x)
        if x == "=":
            return (z3.IntVal(2), n, sep), z3.And(ph == 1, z3.Length(self.seq) > 0)
        (a, b), ok = Listed.feed(self, E, (n, sep), x)
        return (ph, a, b), z3.Or(z3.And(ph == 2, ok), z3.BoolVal(isinstance(x, str) and x == ""))

    def done(self, E, st):
        ln = z3.Length(self.seq)
        return z3.If(ln == 0, st[0] == 1, z3.And(st[0] == 2, st[1] == ln, st[2] == 0))


def s_genp(E, s):
    s.gvalues = True
    s.seq = z3.Const("values", SEQ)
    s.title = strings.view_new("NAME")
    E.assume(s.title.hi >= 1)
    s.spec = ParamOut(s.seq, s.title)
    s.stringio = lambda E, o: sio(s, o)
    s.os = E.call(strings_io(E), [], {})
    s.values = E.plist(SymSeq("element", s.seq, lambda t: elem(E, t)))
    return [s.obj("pycalendar.parameter.Parameter", mName=s.title, mValues=s.values), s.os]


def st_sorted(E, items, kw):
    s = E.S
    x = items[1] if isinstance(items, tuple) else None
    E.prove("call: the values are put in order", isinstance(x, SymSeq) and x.term.eq(s.seq))
    t = z3.Const("sorted_values", SEQ)
    E.assume(z3.Length(t) == z3.Length(s.seq))
    s.spec.seq = t
    return E.plist(SymSeq("element", t, lambda u: elem(E, u)))


def p_genp(E, s, r, exc):
    em = Emit.of(E, s.spec, s.os.slots["buf"])
    E.prove("the name, and the values with one comma between any two after an equals sign", zt(em.ok))
    E.prove("all of them", s.spec.done(E, em.st))


def inv_list(E, s, stmt, frame):
    out = []
    for c in inv_emit(lambda s: s.spec, first_flags)(E, s, stmt, frame):
        out.append(c)
    for k, v in sorted(frame.slots.items()):
        if isinstance(v, Obj) and "buf" in v.slots:
            em = lambda L, k=k: Emit.of(E, s.spec, L.var(k).slots["buf"])
            out.append(("%s: the name is written" % k, lambda L, em=em: em(L).st[0] == 2))
            out.append(("%s: as many as elements seen" % k, lambda L, em=em: z3.And(em(L).st[1] == zt(L.k), em(L).st[2] == 0)))
    return out


add(PAR + "generate", s_genp, p_genp, loops=[inv_list], stubs={"sorted": st_sorted})


# --- quoted strings and tokens
def part(E, T, v):
    """(from, to) of a text that is a part of T"""
    if isinstance(v, View) and v.fn.eq(T.fn):
        return z3.simplify(v.lo), z3.simplify(v.hi)
    if isinstance(v, str) and v == "":
        return z3.IntVal(0), z3.IntVal(0)
    if isinstance(v, SStr):
        ps = [p for p in strings.pieces(v)]
        if all(z3.is_app(p) and p.num_args() == 1 and p.decl().eq(T.fn) for p in ps):
            lo = ps[0].arg(0)
            E.prove("part of the text", z3.And([z3.BoolVal(True)] + [p.arg(0) == lo + i for i, p in enumerate(ps)]))
            return z3.simplify(lo), z3.simplify(lo + len(ps))
    raise Unsupported("%r is no part of the text" % (v,))


def same_part(p, q):
    return z3.Or(z3.And(p[0] == q[0], p[1] == q[1]), z3.And(p[0] >= p[1], q[0] >= q[1]))


ESC = z3.Function("protected", z3.IntSort(), z3.BoolSort())


def esc_facts(E, T, i):
    """a character is protected when an unprotected backslash stands before it"""
    E.fact(ESC(i + 1) == z3.And(T.fn(i) == 92, z3.Not(ESC(i))))


def s_dup(E, s):
    s.T = strings.view_new("T")
    E.assume(s.T.hi >= 0)
    s.marks = [J]
    k = s.choose("tokens", 4)
    s.toks = [E.fresh_int("tok") for i in range(k)]
    a = strings.vskip(E, s.T)
    s.a = z3.If(strings.vat(E, s.T, 0) == 32, a, 0)
    E.fact(z3.Not(ESC(s.a + 1)))
    return [s.T, strings.mk(s.toks)]


def closing(E, T, i):
    return z3.And(strings.vat(E, T, i) == QUOTE, z3.Not(ESC(i)))


def p_dup(E, s, r, exc):
    if exc is not None:
        return
    T, a, n = s.T, s.a, strings.vlen(s.T)
    at = lambda i: strings.vat(E, T, i)
    tok = lambda i: z3.Or([z3.BoolVal(False)] + [at(i) == t for t in s.toks])
    ok = isinstance(r, tuple) and len(r) == 2
    E.prove("a pair is returned", ok)
    if not ok:
        return
    quoted = z3.And(a < n, at(a) == QUOTE)
    rest = part(E, T, r[1])
    if r[0] is None:
        E.prove("nothing only for a text of spaces or a quoted string without end", z3.Or(a >= n, z3.And(quoted, z3.Implies(z3.And(J > a, J < n), z3.Not(closing(E, T, J))))))
        return
    x = part(E, T, r[0])
    q = rest[0] - 1
    # (a rest that is empty has no position of its own)
    q = z3.If(rest[0] >= rest[1], n - 1, q)
    E.prove("a quoted string: what lies between the quotes", z3.Implies(quoted, z3.And(q > a, q < n, closing(E, T, q), same_part(x, (a + 1, q)), same_part(rest, (q + 1, n)),
                                                                             z3.Implies(z3.And(J > a, J < q), z3.Not(closing(E, T, J))))))
    t = z3.If(rest[0] >= rest[1], n, rest[0])
    E.prove("otherwise what lies before the first of the characters", z3.Implies(z3.Not(quoted), z3.And(a < n, t >= a, t <= n, same_part(x, (a, t)), same_part(rest, (t, n)), z3.Or(t == n, tok(t)),
                                                                                        z3.Implies(z3.And(J >= a, J < t), z3.Not(tok(J))))))


def r_dup(E, s, exc):
    if exc.cls.name != "IndexError":
        return False
    E.prove("no index error for a text that is not empty", strings.vlen(s.T) == 0)
    return True


def inv_dup(E, s, stmt, frame):
    T = s.T
    at = lambda i: strings.vat(E, T, i)
    tok = lambda i: z3.Or([z3.BoolVal(False)] + [at(i) == t for t in s.toks])
    out = []

    def here(L):
        if L.k is not None:
            if not (isinstance(L.seq, View) and L.seq.fn.eq(T.fn)):
                return None
            p = z3.simplify(L.seq.lo + L.k)
            esc_facts(E, T, p)
            esc_facts(E, T, p - 1)
            return p
        return None

    def v_here(L, v):
        p = zt(L.var(v))
        esc_facts(E, T, p)
        esc_facts(E, T, p - 1)
        return p
    spots = [("", here)]
    for v in sorted(loop_names(stmt)):
        if is_int(frame.slots.get(v)):
            spots.append(("%s: " % v, lambda L, v=v: v_here(L, v)))
            out.append(("%s within the text" % v, lambda L, v=v: z3.And(v_here(L, v) > s.a, v_here(L, v) <= strings.vlen(T))))
            out.append(("%s within the text, from the start" % v, lambda L, v=v: z3.And(v_here(L, v) >= s.a, v_here(L, v) <= strings.vlen(T))))
    for w, h in spots:
        out.append((w + "no closing quote so far", lambda L, h=h: z3.Implies(z3.And(J > s.a, J < h(L)), z3.Not(closing(E, T, J)))))
        out.append((w + "none of the characters so far", lambda L, h=h: z3.Implies(z3.And(J >= s.a, J < h(L)), z3.Not(tok(J)))))
        out.append((w + "the next is not protected", lambda L, h=h: z3.Not(ESC(h(L)))))
        for v in sorted(loop_names(stmt)):
            if is_boolish(frame.slots.get(v)):
                out.append((w + "%s tells whether the next is protected" % v, lambda L, v=v, h=h: E.zb(E.truth_term(L.var(v))) == ESC(h(L))))
    return out


class Tok(object):
    """what strduptokenstr finds from a position on, as functions of the position (their meaning is its contract)"""
    def __init__(self, tokens):
        n = "".join("%02x" % ord(c) for c in sorted(tokens))
        I = z3.IntSort()
        self.none = z3.Function("dup_none_" + n, I, z3.BoolSort())
        self.beg, self.end, self.rest = [z3.Function("dup_%s_%s" % (w, n), I, I) for w in ("beg", "end", "rest")]

    def facts(self, E, p, n):
        E.fact(z3.Implies(z3.And(p >= 0, p < n), z3.And(self.beg(p) >= p, self.beg(p) <= self.end(p), self.end(p) <= self.rest(p), self.rest(p) <= n)))

    def at(self, E, p, n):
        self.facts(E, p, n)
        return self.none(p), self.beg(p), self.end(p), self.rest(p)


TOK = {}


def tok_of(tokens):
    return TOK.setdefault("".join(sorted(tokens)), Tok(tokens))


def m_dup(E, s, slots):
    txt, toks = slots["txt"], slots["tokens"]
    if getattr(s, "tape", None) is None or not isinstance(toks, str):
        return MISSING
    p = part(E, s.T, txt)
    n = strings.vlen(s.T)
    if not E.branch(strings.length(E, txt) > 0):
        E.throw("IndexError", "string index out of range")
    E.prove("call: the rest of the line is read on", p[1] == n, "pre")
    none, b, e, r = tok_of(toks).at(E, p[0], n)
    if E.branch(none):
        x = E.fresh_int("rest")
        E.assume(z3.And(x >= p[0], x <= n))
        return (None, View(s.T.fn, x, n, s.T.end))
    return (View(s.T.fn, b, e, s.T.end), View(s.T.fn, r, n, s.T.end))


def var_dup(E, s, stmt, frame):
    return [("%s grows" % v, lambda L, v=v: strings.vlen(s.T) - zt(L.var(v))) for v in sorted(loop_names(stmt)) if is_int(frame.slots.get(v))]


add("pycalendar.stringutils.strduptokenstr", s_dup, p_dup, loops=[inv_dup], variants=[var_dup], raises=r_dup, modular=m_dup)


# --- the parameters of a line
class Grammar(object):
    """what may come next at position p of the line"""
    def __init__(self, vcard):
        self.vcard = vcard
        self.names = tok_of("=:;" if vcard else "=")
        self.values = tok_of(":;,")

    def at(self, E, T, p):
        n = strings.vlen(T)
        c = strings.vat(E, T, p)
        name = self.names.at(E, p + 1, n)
        sign = name[3]
        v = self.values.at(E, sign + 1, n)
        more = self.values.at(E, p + 1, n)
        noname = z3.Or(p + 1 >= n, name[0])
        if self.vcard:
            # (the character after the name must exist; other than "=" it means there is no value)
            noname = z3.Or(noname, sign >= n)
        valued = strings.vat(E, T, sign) == ord("=") if self.vcard else z3.BoolVal(True)
        novalue = z3.And(valued, z3.Or(sign + 1 >= n, v[0]))
        return dict(semi=c == ord(";"), comma=c == ord(","), colon=c == ord(":"), out=p >= n, name=(name[1], name[2]), sign=sign, valued=valued,
                    noname=noname, novalue=novalue, value=(v[1], v[2]), after=z3.If(valued, v[3], sign), more=(more[1], more[2]), nomore=z3.Or(p + 1 >= n, more[0]), aftermore=more[3])


TAPE = ghost("tape")


def base64(E, T, name):
    """the name, in upper case, is BASE64"""
    up = E.call(E.getattr_(View(T.fn, name[0], name[1], T.end), "upper"), [], {})
    return z3.And(name[1] - name[0] == 6, z3.And([strings.vat(E, up, i) == ord(c) for i, c in enumerate("BASE64")]))


def bad(E, ok):
    t = E.S.tape
    E.setslot(t, "ok", z3.simplify(z3.And(t.slots["ok"], ok)))


def st_param(E, cls, args, kw):
    s, t = E.S, E.S.tape
    name, value = kw.get("name", args[0] if args else None), kw.get("value", args[1] if len(args) > 1 else None)
    g = s.grammar.at(E, s.T, t.slots["pos"])
    o = E.obj(PARAM)
    b64 = z3.And(z3.Not(g["valued"]), base64(E, s.T, g["name"])) if s.grammar.vcard else z3.BoolVal(False)
    if isinstance(name, str):
        okn = z3.And(z3.BoolVal(name == "ENCODING"), b64)
    else:
        okn = z3.And(z3.Not(b64), same_part(part(E, s.T, name), g["name"]))
    if value is None:
        okv = z3.And(z3.Not(g["valued"]), z3.Not(b64))
    elif isinstance(value, str) or isinstance(value, Obj) and isinstance(value.slots.get("v"), str):
        v = value if isinstance(value, str) else value.slots["v"]
        okv = z3.And(z3.BoolVal(v in ("B", "b")), b64)
    elif isinstance(value, Obj) and isinstance(value.slots.get("v"), DecV):
        v = value.slots["v"]
        okv = z3.And(g["valued"], same_part((v.lo, v.hi), g["value"]))
    else:
        raise Unsupported("a parameter with the value %r" % (value,))
    bad(E, z3.And(t.slots["pend"] == 0, g["semi"], z3.Not(g["out"]), z3.Not(g["noname"]), z3.Not(g["novalue"]), okn, okv))
    n = z3.simplify(t.slots["count"] + 1)
    E.setslot(t, "count", n)
    E.setslot(t, "pend", z3.IntVal(1))
    E.setslot(t, "pos", z3.simplify(g["after"]))
    if s.grammar.vcard:
        E.setslot(t, "b64", z3.simplify(z3.Or(t.slots["b64"], b64)))
    o.slots.update(n=n, name=name)
    return o


def par_add(E, o, v):
    s, t = E.S, E.S.tape
    if not (isinstance(v, Obj) and isinstance(v.slots.get("v"), DecV)):
        raise Unsupported("a further value %r" % (v,))
    g = s.grammar.at(E, s.T, t.slots["pos"])
    bad(E, z3.And(o.slots["n"] == t.slots["count"], g["comma"], z3.Not(g["out"]), z3.Not(g["nomore"]), same_part((v.slots["v"].lo, v.slots["v"].hi), g["more"])))
    E.setslot(t, "pos", z3.simplify(g["aftermore"]))
    return None


PARAM = ghost("parameter", addValue=par_add)


def under(E, key, name):
    if isinstance(name, str):
        return isinstance(key, str) and key == name.upper()
    up = E.call(E.getattr_(name, "upper"), [], {})
    if isinstance(key, View) and isinstance(up, View):
        return z3.And(key.lo == up.lo, key.hi == up.hi) if key.fn.eq(up.fn) else False
    return E.truth_term(strings.str_eq(E, key, up))


def file_param(E, key, o):
    t = E.S.tape
    if not (isinstance(o, Obj) and o.cls is PARAM):
        raise Unsupported("%r as a parameter" % (o,))
    bad(E, z3.And(t.slots["pend"] == 1, o.slots["n"] == t.slots["count"], zt(under(E, key, o.slots["name"]))))
    E.setslot(t, "pend", z3.IntVal(0))


def l_append(E, o, x):
    file_param(E, o.slots["key"], x)
    return None


FILED = ghost("parameters", append=l_append)


def m_setdefault(E, o, key, dflt=None):
    if not (isinstance(dflt, Obj) and dflt.cls is E.builtins["list"] and dflt.slots["v"] == []):
        raise Unsupported("default of a parameter list")
    r = E.obj(FILED)
    r.slots["key"] = key
    return r


def m_get(E, o, key):
    r = E.obj(FILED)
    r.slots["key"] = key
    return r


def m_set(E, o, key, v):
    if not (isinstance(v, Obj) and v.cls is E.builtins["list"] and isinstance(v.slots["v"], list)):
        raise Unsupported("%r stored as a parameter list" % (v,))
    for x in v.slots["v"]:
        file_param(E, key, x)
    return None


MAP = ghost("parameter map", setdefault=m_setdefault, __getitem__=m_get, __setitem__=m_set, __contains__=lambda E, o, k: E.fresh_bool("filed"))


def s_read(cls, vcard):
    def f(E, s):
        s.T = strings.view_new("T")
        E.assume(s.T.hi >= 0)
        s.grammar = Grammar(vcard)
        s.tape = E.obj(TAPE)
        s.tape.slots.update(pos=z3.IntVal(0), ok=z3.BoolVal(True), pend=z3.IntVal(0), count=z3.IntVal(0), b64=z3.BoolVal(False))
        m = E.obj(MAP)
        m.slots["tape"] = s.tape
        s.growing = set()
        s.p = s.obj(cls, mName="X", mParameters=m)
        return [s.p, s.T, "the line"]
    return f


def p_read(E, s, r, exc):
    if exc is not None:
        return
    t = s.tape.slots
    E.prove("the parameters read are those of the line, in order", t["ok"])
    E.prove("every one is filed", t["pend"] == 0)
    g = s.grammar.at(E, s.T, t["pos"])
    if r is None:
        E.prove("no value only for a line without one", g["out"])
        return
    colon = z3.And(z3.Not(g["out"]), g["colon"])
    p, n = z3.simplify(t["pos"] + 1), strings.vlen(s.T)
    cut = strings.REPLACED.get(r.fn.name()) if isinstance(r, View) else None
    if cut is not None:
        E.prove("the value after a BASE64 of vCard 2, spaces removed", z3.And(t["b64"], colon, z3.BoolVal(cut[1:] == (" ", "")), same_part(part(E, s.T, cut[0]), (p, n))))
        return
    x = part(E, s.T, r)
    E.prove("the value is what comes after the colon", z3.And(colon, same_part(x, (p, n))))
    E.prove("as it stands", z3.Not(t["b64"]))


def r_read(E, s, exc):
    if exc.cls.name != "InvalidProperty":
        return False
    t = s.tape.slots
    E.prove("the parameters read are those of the line, in order", t["ok"])
    g = s.grammar.at(E, s.T, t["pos"])
    started = t["count"] > 0
    wrong = z3.Or(g["out"], z3.And(g["semi"], z3.Or(g["noname"], g["novalue"])), z3.And(g["comma"], z3.Or(z3.Not(started), g["nomore"])), z3.Not(z3.Or(g["semi"], g["comma"], g["colon"])))
    E.prove("an error only where the line is wrong", wrong)
    return True


def inv_read(E, s, stmt, frame):
    out = []
    t = lambda k: s.tape.slots[k]
    for v, x in sorted(frame.slots.items()):
        if isinstance(x, View) and x.fn.eq(s.T.fn):
            out.append(("%s is what is left of the line" % v, lambda L, v=v: rest_of(E, s, L.var(v))))
        if is_boolish(x):
            out.append(("%s tells of BASE64" % v, lambda L, v=v: E.zb(E.truth_term(L.var(v))) == t("b64")))
    out.append(("within the line", lambda L: z3.And(t("pos") >= 0, t("pos") <= strings.vlen(s.T))))
    out.append(("all as it should be", lambda L: t("ok")))
    out.append(("every one is filed", lambda L: t("pend") == 0))
    out.append(("one is to be filed", lambda L: t("pend") == 1))
    out.append(("some read", lambda L: t("count") > 0))
    out.append(("no further value waits", lambda L: z3.Or(t("count") == 0, t("pos") >= strings.vlen(s.T), strings.vat(E, s.T, t("pos")) != ord(","))))
    out.append(("count", lambda L: t("count") >= 0))
    out.append(("the line cannot end here", lambda L: z3.Or(t("count") == 0, t("pos") < strings.vlen(s.T))))
    return out


def rest_of(E, s, v):
    n = strings.vlen(s.T)
    if isinstance(v, str):
        return s.tape.slots["pos"] == n if v == "" else None
    p = part(E, s.T, v)
    return z3.Or(z3.And(p[0] == s.tape.slots["pos"], p[1] == n), z3.And(p[0] >= p[1], s.tape.slots["pos"] == n))


def tk_read(E, s, b, cur):
    return None


def var_read(E, s, stmt, frame):
    return [("the line gets shorter", lambda L: strings.vlen(s.T) - s.tape.slots["pos"])]


for cls, vcard in (("pycalendar.property.PropertyBase", False), ("pycalendar.vcard.property.Property", True)):
    real = cls if vcard else "pycalendar.icalendar.property.Property"
    add(cls + ".parseTextParameters", s_read(real, vcard), p_read, raises=r_read, loops=[inv_read], variants=[var_read], stubs={"new:pycalendar.parameter.Parameter": st_param})
