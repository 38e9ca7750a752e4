"""C09: escaping.  What is written is watched by a specification machine that reads the source text of any length
(vc/emit.py); "for every character" facts are decided at one arbitrary position J."""
import z3
from vc.values import *
from vc.verify import Contract
from vc import strings
from vc.interp import Unsupported
from vc.emit import Emit, Spec, zt
from .spec import *
from .c20 import ghost
from .text import loop_names

CONTRACTS = []
U = "pycalendar.utils."
J = z3.Int("j!any")
SPECIAL = "\r\n;\\,"


def add(*a, **k):
    k.setdefault("props", ("C09",))
    k.setdefault("replay", False)
    c = Contract(*a, **k)
    CONTRACTS.append(c)
    return c


def isin(c, chars):
    return z3.Or([z3.BoolVal(False)] + [c == ord(x) for x in chars])


def decoded(x):
    """what an escaped character stands for"""
    r = x
    for a, b in (("r", "\r"), ("n", "\n"), ("N", "\n")):
        r = z3.If(x == ord(a), z3.IntVal(ord(b)), r)
    return r


VALID = "rnN\\,;"


class Escaped(Spec):
    """the escaped form of a text T, in one of the ways a reader must undo: special characters are escaped, nothing
    else is; state: characters of T done, 1 after a backslash"""
    name = "escaped text"

    def __init__(self, T):
        self.T = T

    def start(self):
        return (0, 0)

    def char(self, E, st, c):
        k, half = st
        t = strings.vat(E, self.T, k)
        opens = z3.And(half == 0, c == 92)
        ok = z3.If(half == 1, z3.And(isin(c, VALID), decoded(c) == t), z3.If(c == 92, isin(t, SPECIAL), z3.And(c == t, z3.Not(isin(t, SPECIAL)))))
        return (z3.If(opens, k, k + 1), z3.If(opens, z3.IntVal(1), z3.IntVal(0))), z3.And(k < strings.vlen(self.T), ok)

    def view(self, E, st, v):
        k, half = st
        if not v.fn.eq(self.T.fn):
            return st, False
        lo, hi = z3.simplify(v.lo - self.T.lo), z3.simplify(v.hi - self.T.lo)
        plain = z3.Implies(z3.And(J >= lo, J < hi), z3.Not(isin(strings.vat(E, self.T, J), SPECIAL)))
        return (z3.If(hi > lo, hi, k), half), z3.Or(hi <= lo, z3.And(half == 0, lo == k, plain))

    def next_special(self, E, st, v):
        """v is the position of the next character to escape"""
        t = lambda i: isin(strings.vat(E, self.T, i), SPECIAL)
        return z3.And(st[1] == 0, v >= st[0], v < strings.vlen(self.T), t(v), z3.Implies(z3.And(J >= st[0], J < v), z3.Not(t(J))))

    def done(self, E, st):
        return z3.And(st[0] == strings.vlen(self.T), st[1] == 0)


class Unescaped(Spec):
    """what an escaped text D stands for; state: characters of D read"""
    name = "unescaped text"

    def __init__(self, D):
        self.D = D

    def at(self, E, i):
        return strings.vat(E, self.D, i)

    def char(self, E, st, c):
        d, = st
        esc = self.at(E, d) == 92
        n = strings.vlen(self.D)
        return (z3.If(esc, d + 2, d + 1),), z3.If(esc, z3.And(d + 1 < n, c == decoded(self.at(E, d + 1))), z3.And(d < n, c == self.at(E, d)))

    def view(self, E, st, v):
        d, = st
        if not v.fn.eq(self.D.fn):
            return st, False
        lo, hi = z3.simplify(v.lo - self.D.lo), z3.simplify(v.hi - self.D.lo)
        plain = z3.Implies(z3.And(J >= lo, J < hi), self.at(E, J) != 92)
        return (z3.If(hi > lo, hi, d),), z3.Or(hi <= lo, z3.And(lo == d, plain))

    def next_special(self, E, st, v):
        return z3.And(v >= st[0], v < strings.vlen(self.D), self.at(E, v) == 92, z3.Implies(z3.And(J >= st[0], J < v), self.at(E, J) != 92))

    def done(self, E, st):
        n = strings.vlen(self.D)
        # (a backslash with nothing after it stands for nothing)
        return z3.Or(st[0] == n, z3.And(st[0] == n - 1, self.at(E, n - 1) == 92))

    def invalid(self, E, st):
        """an escape sequence with no meaning comes next"""
        d = st[0]
        return z3.And(d + 1 < strings.vlen(self.D), self.at(E, d) == 92, z3.Not(isin(self.at(E, d + 1), VALID)))


# --- looking for characters
def s_first(E, s):
    s.T = strings.view_new("T")
    E.assume(s.T.hi >= 0)
    k = s.choose("tokens", 7)
    s.toks = [E.fresh_int("tok") for i in range(k)]
    off = E.fresh_int("offset")
    E.assume(off >= 0)
    s.off = off
    return [s.T, strings.mk(s.toks), off]


def p_first(E, s, r, exc):
    T, n = s.T, strings.vlen(s.T)
    hit = lambda i: z3.Or([z3.BoolVal(False)] + [strings.vat(E, T, i) == t for t in s.toks])
    r = zt(r)
    E.prove("none: no character from there on is one of them", z3.Implies(z3.And(r == -1, J >= s.off, J < n), z3.Not(hit(J))))
    E.prove("found: the first one", z3.Or(r == -1, z3.And(r >= s.off, r < n, hit(r), z3.Implies(z3.And(J >= s.off, J < r), z3.Not(hit(J))))))


def inv_first(E, s, stmt, frame):
    hit = lambda i: z3.Or([z3.BoolVal(False)] + [strings.vat(E, s.T, i) == t for t in s.toks])
    out = [("none so far", lambda L: z3.Implies(z3.And(J >= s.off, J < s.off + L.k, J < strings.vlen(s.T)), z3.Not(hit(J))))]
    for v in sorted(loop_names(stmt)):
        out.append(("%s: none before it" % v, lambda L, v=v: z3.And(zt(L.var(v)) >= s.off, z3.Implies(z3.And(J >= s.off, J < zt(L.var(v)), J < strings.vlen(s.T)), z3.Not(hit(J))))))
    return out


def m_first(E, s, slots):
    T, toks, off = slots["text"], slots["tokens"], slots["offset"]
    if not isinstance(T, View) or not isinstance(toks, str) or len(toks) > 6:
        return MISSING
    off = zt(off)
    E.prove("call: find_first_of from a position", off >= 0, "pre")
    n = strings.vlen(T)
    jj = z3.simplify(J - T.lo)
    none = lambda lo, hi: z3.Implies(z3.And(jj >= lo, jj < hi), z3.Not(isin(strings.vat(E, T, jj), toks)))
    if E.choose(2, "found") == 0:
        E.assume(none(off, n))
        return -1
    r = E.fresh_int("found")
    E.assume(z3.And(r >= off, r < n, isin(strings.vat(E, T, r), toks), none(off, r)))
    return r


from vc.interp import MISSING
add(U + "find_first_of", s_first, p_first, loops=[inv_first], modular=m_first)


# --- loop invariants: every growing text of the loop, every number of it
def carriers(E, s, stmt, frame):
    out = []
    for k, v in sorted(frame.slots.items()):
        if isinstance(v, Obj) and "buf" in v.slots:
            out.append((k, lambda L, k=k: L.var(k).slots["buf"]))
        elif isinstance(v, Obj) and v.cls is E.builtins["list"]:
            out.append((k, lambda L, k=k: L.var(k).slots["v"]))
        elif k in loop_names(stmt) and isinstance(v, (str, SStr, Emit)):
            out.append((k, lambda L, k=k: L.var(k)))
    return out


def inv_emit(spec_of, extra=None):
    def f(E, s, stmt, frame):
        spec = spec_of(s)
        out = []
        mod = [v for v in sorted(loop_names(stmt)) if is_int(frame.slots.get(v))]
        for name, get in carriers(E, s, stmt, frame):
            em = lambda L, get=get: Emit.of(E, spec, get(L))
            out.append(("what %s holds is right so far" % name, lambda L, em=em: zt(em(L).ok)))
            out.append(("%s: not past the end" % name, lambda L, em=em: z3.And(em(L).st[0] >= 0, em(L).st[0] <= spec.length())))
            if len(spec.start()) > 1:
                out.append(("%s: between two characters" % name, lambda L, em=em: em(L).st[1] == 0))
            out.append(("%s: one character at a time" % name, lambda L, em=em: em(L).st[0] == zt(L.k) if L.k is not None else None))
            for v in mod:
                out.append(("%s is what %s has got to" % (v, name), lambda L, em=em, v=v: em(L).st[0] == zt(L.var(v))))
                out.append(("%s is the next special character for %s" % (v, name), lambda L, em=em, v=v: spec.next_special(E, em(L).st, zt(L.var(v)))))
            if extra:
                out += extra(E, s, stmt, frame, spec, name, em)
        return out
    return f


def var_emit(src):
    return lambda E, s, stmt, frame: [("%s grows" % v, lambda L, v=v: strings.vlen(src(s)) - zt(L.var(v))) for v in sorted(loop_names(stmt)) if is_int(frame.slots.get(v))]


Escaped.length = lambda self: strings.vlen(self.T)
Unescaped.length = lambda self: strings.vlen(self.D)


def kinds(spec_of):
    def lk(E, s, base, cur):
        return Emit.of(E, spec_of(s), cur).sym_havoc(E, base) if all(is_str(x) for x in cur) else None

    def tk(E, s, base, cur):
        return Emit.of(E, spec_of(s), cur).sym_havoc(E, base) if cur == "" else None
    return dict(list_kind=lk, text_kind=tk)


# --- escaping
def esc_view(E, v):
    """the escaped form of a view, as a text of its own"""
    return strings.view_new("escaped(%s,%s,%s)" % (v.fn.name(), z3.simplify(v.lo), z3.simplify(v.hi)))


def dec_view(E, v):
    return strings.view_new("unescaped(%s,%s,%s)" % (v.fn.name(), z3.simplify(v.lo), z3.simplify(v.hi)))


def same_view(a, b):
    return isinstance(a, View) and isinstance(b, View) and a.fn.eq(b.fn) and z3.simplify(a.lo).eq(z3.simplify(b.lo)) and z3.simplify(a.hi).eq(z3.simplify(b.hi))


def sio(s, o):
    """a stream that has written nothing"""
    s.stream = o
    return Emit(s.spec, s.spec.start())


def s_write(E, s):
    s.T = strings.view_new("T")
    E.assume(s.T.hi >= 0)
    s.spec = Escaped(s.T)
    s.stringio = lambda E, o: sio(s, o)
    s.os = E.call(strings_io(E), [], {})
    return [s.os, s.T]


def strings_io(E):
    from vc.builtins_ import stringio_class
    return stringio_class(E)


def p_write(E, s, r, exc):
    em = Emit.of(E, s.spec, s.os.slots["buf"])
    E.prove("what is written is the escaped text", zt(em.ok))
    E.prove("all of it", s.spec.done(E, em.st))


def m_write(E, s, slots):
    v = slots["value"]
    if getattr(s, "plain_write", None) is None or not isinstance(v, View):
        return MISSING
    E.call(E.getattr_(slots["os"], "write"), [esc_view(E, v)], {})
    return None


add(U + "writeTextValue", s_write, p_write, loops=[inv_emit(lambda s: s.spec)], variants=[var_emit(lambda s: s.T)], modular=m_write, **kinds(lambda s: s.spec))


def s_escape(E, s):
    s.T = strings.view_new("T")
    E.assume(s.T.hi >= 0)
    s.plain_write = True
    return [s.T]


def p_escape(E, s, r, exc):
    E.prove("the escaped text is returned", same_view(r, esc_view(E, s.T)))


def m_escape(E, s, slots):
    v = slots["value"]
    if getattr(s, "plain_write", None) is None or not isinstance(v, View):
        return MISSING
    return esc_view(E, v)


add(U + "escapeTextValue", s_escape, p_escape, modular=m_escape)


# --- unescaping
def s_decode(E, s):
    s.D = strings.view_new("D")
    E.assume(s.D.hi >= 0)
    s.spec = Unescaped(s.D)
    s.stringio = lambda E, o: sio(s, o)
    s.stream = None
    s.now = lambda E: [s.stream.slots["buf"]] if s.stream is not None else []
    return [s.D]


def p_decode(E, s, r, exc):
    if exc is not None:
        return
    em = Emit.of(E, s.spec, r) if is_str(r) else None
    E.prove("a text is returned", em is not None)
    if em is not None:
        E.prove("what is returned is the unescaped text", zt(em.ok))
        E.prove("all of it", s.spec.done(E, em.st))


def r_decode(E, s, exc):
    if exc.cls.name != "ValueError":
        return False
    em = [Emit.of(E, s.spec, c) for c in s.now(E)]
    if not em:
        raise Unsupported("where the error is raised")
    E.prove("an error only at an escape sequence that has no meaning", z3.Or([z3.And(zt(e.ok), s.spec.invalid(E, e.st)) for e in em]))
    return True


def m_decode(E, s, slots):
    v = slots["value"]
    if getattr(s, "tokens", None) and is_str(v):
        return dec_tok(E, v)
    if getattr(s, "plain_write", None) is None or not isinstance(v, View):
        return MISSING
    return dec_view(E, v)


add(U + "decodeTextValue", s_decode, p_decode, raises=r_decode, loops=[inv_emit(lambda s: s.spec)], variants=[var_emit(lambda s: s.D)], modular=m_decode, **kinds(lambda s: s.spec))


# --- what is written reads back: one character of the text at a time
def p_step(E, s, r, exc):
    c, d0, d1, p = z3.Ints("c d0 d1 p")
    D = strings.view_new("D")
    un, n = Unescaped(D), strings.vlen(D)
    D_at = lambda i: strings.vat(E, D, i)
    rng = z3.And(c >= 0, c <= 255, p >= 0)
    # the character is written as itself
    plain = z3.And(rng, z3.Not(isin(c, SPECIAL)), D_at(p) == c, p < n)
    st, ok = un.char(E, (p,), c)
    E.prove("a character written as itself is read as itself", z3.Implies(plain, z3.And(ok, st[0] == p + 1)))
    E.prove("and is no line break, comma, semicolon or backslash", z3.Implies(plain, z3.Not(isin(D_at(p), SPECIAL))))
    # the character is written with a backslash
    pair = z3.And(rng, isin(c, SPECIAL), D_at(p) == 92, isin(D_at(p + 1), VALID), decoded(D_at(p + 1)) == c, p + 1 < n)
    E.prove("an escaped character is read as the character", z3.Implies(pair, z3.And(ok, st[0] == p + 2)))
    E.prove("without an error", z3.Implies(z3.Or(plain, pair), z3.Not(un.invalid(E, (p,)))))
    E.prove("and its two characters are no line breaks", z3.Implies(pair, z3.Not(z3.Or(isin(D_at(p), "\r\n"), isin(D_at(p + 1), "\r\n")))))
    # splitting an escaped text: no separator inside, and not in the middle of a pair at its end
    for sep in ",;":
        e0 = z3.Bool("e0")
        e1 = lambda e, x: z3.And(x == 92, z3.Not(e))
        cut = lambda e, x: z3.And(x == ord(sep), z3.Not(e))
        E.prove("a list is not cut inside an element (%s, as itself)" % sep, z3.Implies(z3.And(plain, z3.Not(e0)), z3.And(z3.Not(cut(e0, D_at(p))), z3.Not(e1(e0, D_at(p))))))
        f = e1(e0, D_at(p))
        E.prove("a list is not cut inside an element (%s, escaped)" % sep, z3.Implies(z3.And(pair, z3.Not(e0)), z3.And(z3.Not(cut(e0, D_at(p))), z3.Not(cut(f, D_at(p + 1))), z3.Not(e1(f, D_at(p + 1))))))


add("lemma.escape", lambda E, s: [], p_step, run=lambda E, s: None, lemma=True, name="lemma escaping is undone by unescaping")


# --- lists: the elements of a text D are what lies between separators that no backslash protects
class DecV(object):
    """the unescaped text of characters lo .. hi-1 of D"""
    def __init__(self, lo, hi):
        self.lo, self.hi = zt(lo), zt(hi)

    def sym_eq(self, E, other):
        if isinstance(other, DecV):
            return z3.Or(z3.And(self.lo == other.lo, self.hi == other.hi), z3.And(self.lo >= self.hi, other.lo >= other.hi))
        return False


DEC = ghost("decoded")


def dec_tok(E, v):
    o = E.obj(DEC)
    if isinstance(v, str) and v == "":
        o.slots["v"] = DecV(0, 0)
    elif isinstance(v, View) and v.fn.eq(E.S.D.fn):
        o.slots["v"] = DecV(v.lo, v.hi)
    elif isinstance(v, SStr):
        st, ok = E.S.spec.feed(E, E.S.spec.start(), v)
        E.prove("call: a part of the text is decoded", ok, "pre")
        o.slots["v"] = DecV(z3.If(st[0] < 0, 0, st[0]), z3.If(st[0] < 0, 0, st[1]))
    else:
        raise Unsupported("decoding of %r" % (v,))
    return o


class ListSpec(Spec):
    """characters of D from somewhere on: state from (-1 before the first), to; or decoded elements: count, and the
    bounds of element G"""
    name = "part of the text"
    G = z3.Int("g!any")

    def __init__(self, D):
        self.D = D
        n = D.fn.name()
        I, B = z3.IntSort(), z3.BoolSort()
        self.esc, self.num, self.beg, self.ga, self.gb = [z3.Function(x + "!" + n, I, B if x == "esc" else I) for x in ("esc", "num", "beg", "ga", "gb")]

    def facts(self, E, k, sep):
        """the recursion, from position k to k + 1"""
        c = strings.vat(E, self.D, k)
        cut = self.cut(E, k, sep)
        G = self.G
        E.fact(z3.And(z3.Not(self.esc(0)), self.num(0) == 0, self.beg(0) == 0, self.ga(0) == 0, self.gb(0) == 0))
        E.fact(z3.Implies(k >= 0, z3.And(self.num(k) >= 0, self.num(k + 1) >= 0, self.esc(k + 1) == z3.And(c == 92, z3.Not(self.esc(k))), self.num(k + 1) == self.num(k) + z3.If(cut, 1, 0), self.beg(k + 1) == z3.If(cut, k + 1, self.beg(k)),
                                         self.ga(k + 1) == z3.If(z3.And(cut, self.num(k) == G), self.beg(k), self.ga(k)),
                                         self.gb(k + 1) == z3.If(z3.And(cut, self.num(k) == G), k, self.gb(k)))))

    def cut(self, E, k, sep):
        return z3.And(strings.vat(E, self.D, k) == ord(sep), z3.Not(self.esc(k)))

    def start(self):
        return (-1, -1, 0, 0, 0)

    def char(self, E, st, c):
        a, p, cnt, x, y = st
        if z3.is_app(c) and c.num_args() == 1 and c.decl().eq(self.D.fn):
            i = c.arg(0)
            return (z3.If(a < 0, i, a), z3.If(a < 0, i + 1, p + 1), cnt, x, y), z3.And(cnt == 0, z3.Or(a < 0, c == strings.vat(E, self.D, p)))
        return (a, p + 1, cnt, x, y), z3.And(cnt == 0, a >= 0, c == strings.vat(E, self.D, p))

    def view(self, E, st, v):
        a, p, cnt, x, y = st
        if not v.fn.eq(self.D.fn):
            return st, False
        e = v.hi <= v.lo
        return (z3.If(e, a, z3.If(a < 0, v.lo, a)), z3.If(e, p, v.hi), cnt, x, y), z3.And(cnt == 0, z3.Or(e, a < 0, v.lo == p))

    def feed(self, E, st, v):
        if isinstance(v, Obj) and v.cls is DEC:
            a, p, cnt, x, y = st
            d = v.slots["v"]
            return (a, p, cnt + 1, z3.If(cnt == self.G, d.lo, x), z3.If(cnt == self.G, d.hi, y)), a < 0
        return Spec.feed(self, E, st, v)

    def text(self, E, em):
        a, p = em.st[:2]
        E.prove("call: what is joined is a part of the text", z3.And(zt(em.ok), em.st[2] == 0), "pre")
        return View(self.D.fn, z3.simplify(z3.If(a < 0, 0, a)), z3.simplify(z3.If(a < 0, 0, p)), self.D.end)

    def count(self, E, em):
        E.prove("call: a list of decoded elements", zt(em.ok), "pre")
        return em.st[2]

    def item(self, E, em, i):
        """element i (known only if it is the arbitrary one)"""
        o = E.obj(DEC)
        lo, hi = E.fresh_int("lo"), E.fresh_int("hi")
        E.assume(z3.Implies(self.G == zt(i), z3.And(lo == em.st[3], hi == em.st[4])))
        o.slots["v"] = DecV(lo, hi)
        return o


def elem_at(v, E):
    return v.slots["v"]


def s_list(E, s):
    s.D = strings.view_new("D")
    E.assume(s.D.hi >= 0)
    s.sep = ";,"[s.choose("sep", 2)]
    s.always = s.choose("always_list", 2) == 1
    s.spec = ListSpec(s.D)
    s.G = ListSpec.G
    E.assume(s.G >= 0)
    s.tokens = True
    s.spec.facts(E, z3.IntVal(0), s.sep)
    return [s.D, s.sep, s.always]


def p_list(E, s, r, exc):
    sp, n = s.spec, strings.vlen(s.D)
    sp.facts(E, n, s.sep)
    count = sp.num(n) + 1
    want = DecV(z3.If(s.G == count - 1, sp.beg(n), sp.ga(n)), z3.If(s.G == count - 1, n, sp.gb(n)))
    if isinstance(r, Obj) and r.cls is DEC:
        E.prove("one element alone, not in a list", z3.And(z3.BoolVal(not s.always), count == 1))
        E.prove("the element", z3.Implies(s.G == 0, r.slots["v"].sym_eq(E, want)))
        return
    em = Emit.of(E, sp, r)
    E.prove("a list, if asked for or longer than one", z3.Or(z3.BoolVal(s.always), count > 1))
    E.prove("as many elements as there are parts", z3.And(zt(em.ok), em.st[2] == count))
    E.prove("each element is its part, unescaped", z3.Implies(s.G < count, DecV(em.st[3], em.st[4]).sym_eq(E, want)))


def inv_list(E, s, stmt, frame):
    sp = s.spec
    s.loop = stmt
    out = []
    for name, get in carriers(E, s, stmt, frame):
        em = lambda L, get=get: Emit.of(E, sp, get(L))

        def at(L):
            k = zt(L.k)
            sp.facts(E, k, s.sep)
            sp.facts(E, k - 1, s.sep)
            return k

        def okc(L, em=em):
            at(L)
            return zt(em(L).ok)

        def part(L, em=em):
            k, st = at(L), em(L).st
            return z3.And(st[2] == 0, sp.beg(k) >= 0, sp.beg(k) <= k, z3.Or(z3.And(st[0] == sp.beg(k), st[1] == k), z3.And(st[0] == -1, sp.beg(k) == k)))

        def elems(L, em=em):
            k, st = at(L), em(L).st
            return z3.And(st[0] == -1, st[2] == sp.num(k), z3.Implies(sp.num(k) > s.G, DecV(st[3], st[4]).sym_eq(E, DecV(sp.ga(k), sp.gb(k)))))
        out += [("what %s holds is right so far" % name, okc), ("%s is the part begun" % name, part), ("%s is the parts before" % name, elems)]
    for v in sorted(loop_names(stmt)):
        if is_str(frame.slots.get(v)):
            def esc(L, v=v):
                k = zt(L.k)
                sp.facts(E, k, s.sep)
                sp.facts(E, k - 1, s.sep)
                return E.zb(E.truth_term(E.eq(L.var(v), "\\"))) == sp.esc(k)
            out.append(("%s tells whether the next character is protected" % v, esc))
    return out


def grows(stmt):
    from vc.pyast import walk
    return set(n.target.id for n in walk(stmt) if n.t == "AugAssign" and n.target.t == "Name")


def list_kinds(E, s, base, cur):
    return Emit.of(E, s.spec, cur).sym_havoc(E, base)


def list_text(E, s, base, cur):
    if base.rsplit("_", 1)[0] in grows(s.loop):
        return Emit.of(E, s.spec, cur).sym_havoc(E, base)
    return None


ListSpec.listy = False
add(U + "parseTextList", s_list, p_list, loops=[inv_list], list_kind=list_kinds, text_kind=list_text, raises=None)


# --- sequences of elements written with separators between them
class Listed(Spec):
    """the elements of a sequence in order, a separator between any two; state: elements written, 1 after a separator"""
    name = "separated list"

    def __init__(self, seq, sep):
        self.seq, self.sep = seq, sep

    def start(self):
        return (0, 0)

    def length(self):
        return z3.Length(self.seq)

    def next_special(self, E, st, v):
        return z3.BoolVal(False)

    def feed(self, E, st, x):
        n, sep = st
        if isinstance(x, Obj) and "ref" in x.slots:
            return (n + 1, 0), z3.And(z3.Or(n == 0, sep == 1), n < z3.Length(self.seq), self.seq[n] == x.slots["ref"])
        if x == "":
            return st, True
        if x == self.sep:
            return (n, 1), z3.And(n > 0, sep == 0)
        if isinstance(x, str):
            return st, False
        raise Unsupported("%r in a separated list" % (x,))

    def done(self, E, st):
        return z3.And(st[0] == z3.Length(self.seq), st[1] == 0)


def first_flags(E, s, stmt, frame, spec, name, em):
    def flag(L, v):
        x = L.var(v)
        return E.zb(E.truth_term(x)) == (zt(L.k) == 0) if is_boolish(x) else None
    return [("%s until the first is written" % v, lambda L, v=v: flag(L, v)) for v in sorted(loop_names(stmt)) if is_boolish(frame.slots.get(v))]


def elem(E, t):
    o = E.obj(ELEM)
    o.slots.update(ref=t)
    return o


def put(E, os, x):
    """x is written to the stream"""
    E.setslot(os, "buf", os.slots["buf"].plus(E, x))


ELEM = ghost("element", generate=lambda E, o, os: put(E, os, o))


def s_multi(E, s):
    s.seq = z3.Const("elements", SEQ)
    s.spec = Listed(s.seq, ",")
    s.stringio = lambda E, o: sio(s, o)
    s.os = E.call(strings_io(E), [], {})
    return [s.obj("pycalendar.multivalue.MultiValue", mType=0, mValues=E.plist(SymSeq("element", s.seq, lambda t: elem(E, t)))), s.os]


SEQ = z3.SeqSort(z3.IntSort())


def p_multi(E, s, r, exc):
    em = Emit.of(E, s.spec, s.os.slots["buf"])
    E.prove("the values are written in order with one comma between any two", zt(em.ok))
    E.prove("all of them", s.spec.done(E, em.st))


add("pycalendar.multivalue.MultiValue.generate", s_multi, p_multi, loops=[inv_emit(lambda s: s.spec, first_flags)])


# --- a list of texts of any length: each is escaped, then joined
class Joined(Opaque):
    def __init__(self, sep, rec):
        Opaque.__init__(self, "joined list")
        self.sep, self.rec = sep, rec


from vc.abslist import AbsList, Rec
Rec.sym_join = lambda self, E, sep: Joined(sep, self)


def w_out(E, o, x):
    E.S.written.append(x)
    E.setslot(o, "n", o.slots["n"] + 1)
    return None


WOUT = ghost("output", write=w_out)


def s_gen(E, s):
    s.written = []
    s.plain_write = True
    s.sep = ";,"[s.choose("sep", 2)]
    s.kind = s.choose("data", 2)
    s.os = E.obj(WOUT)
    s.os.slots["n"] = 0
    s.T = strings.view_new("T")
    E.assume(s.T.hi >= 0)
    if s.kind == 0:
        return [s.os, s.T, s.sep]
    s.al = AbsList("texts", lambda E: s.T, E.fresh_int("n"))
    E.assume(s.al.length >= 0)
    return [s.os, E.plist(s.al), s.sep]


def step_gen(E, s, ctx, recs):
    parts = list(recs.values())
    E.prove("each element is escaped, once", len(parts) == 1 and len(parts[0]) == 1 and parts[0][0][0] == "item" and same_view(parts[0][0][1], esc_view(E, s.T)))


def p_gen(E, s, r, exc):
    E.prove("one text is written", len(s.written) == 1)
    x = s.written[0]
    if s.kind == 0:
        E.prove("a text alone is written escaped", same_view(x, esc_view(E, s.T)))
    else:
        E.prove("the escaped elements, in order, with the separator between any two", isinstance(x, Joined) and x.sep == s.sep and x.rec.parts == [("flat", s.al)])


add(U + "generateTextList", s_gen, p_gen, step=step_gen)


# --- nested lists: texts of at most MAXLEN characters (bounded)
MAXLEN = 4


class DTok(object):
    """what a piece of text stands for when unescaped (equal when the pieces are equal)"""
    def __init__(self, text):
        self.text = text

    def sym_eq(self, E, other):
        if isinstance(other, DTok):
            return E.truth_term(strings.str_eq(E, self.text, other.text))
        if other == "" or isinstance(other, DTok):
            return E.truth_term(strings.str_eq(E, self.text, ""))
        return False


def dtok(E, v):
    if v == "":
        return ""
    o = E.obj(DEC)
    o.slots["v"] = DTok(v)
    return o


def st_dec(E, slots):
    return dtok(E, slots["value"])


def cuts(E, cs, seps):
    """positions and separators of the unprotected separators of a text of known length"""
    out, esc = [], False
    for i, c in enumerate(cs):
        if esc:
            esc = False
            continue
        if E.branch(c == 92):
            esc = True
            continue
        for x in seps:
            if E.branch(c == ord(x)):
                out.append((i, x))
                break
    return out


def parts_of(cs, cut):
    out, a = [], 0
    for i in cut + [len(cs)]:
        out.append(strings.mk(cs[a:i]))
        a = i + 1
    return out


def s_nested(E, s):
    k = s.choose("length", MAXLEN + 1)
    s.cs = [E.fresh_int("c%d" % i) for i in range(k)]
    for c in s.cs:
        E.assume(z3.And(c >= 0, c <= 255))
    s.max = 2 + 2 * s.choose("maxsize", 2)
    return [strings.mk(s.cs), s.max]


def p_nested(E, s, r, exc):
    cut = cuts(E, s.cs, ";,")
    want, cur, a = [], [], 0
    for i, x in cut + [(len(s.cs), ";")]:
        cur.append(strings.mk(s.cs[a:i]))
        a = i + 1
        if x == ";":
            want.append(cur)
            cur = []
    ok = isinstance(r, tuple)
    E.prove("a tuple of the stated size at least", ok and len(r) == s.max)
    want = want[:s.max]
    want += [[""]] * (s.max - len(want))
    for w, x in zip(want, r):
        if len(w) == 1:
            E.prove("a part with one element is that element, unescaped", E.truth_term(E.eq(x, dtok(E, w[0]))) if not isinstance(x, tuple) else False)
        else:
            E.prove("a part with more is the tuple of its elements, unescaped", isinstance(x, tuple) and len(x) == len(w) and E.all_([E.truth_term(E.eq(p, dtok(E, q))) for p, q in zip(x, w)]))


add(U + "parseDoubleNestedList", s_nested, p_nested, bounded="texts of at most %d characters" % MAXLEN, stubs={"func:" + U + "decodeTextValue": st_dec})


class SeqOut(object):
    pass


def w_seq(E, o, x):
    E.S.written.append(x)
    E.setslot(o, "n", o.slots["n"] + 1)
    return None


def s_ngen(E, s):
    s.written = []
    s.plain_write = True
    s.os = E.obj(WOUT)
    s.os.slots["n"] = 0
    s.parts = []
    for i in range(1 + s.choose("parts", 3)):
        k = s.choose("elements", 4)
        v = [strings.view_new("T%d_%d" % (i, j)) for j in range(max(k, 1))]
        s.parts.append(v[0] if k == 0 else tuple(v[:k]) if k < 3 else ())
    return [s.os, tuple(s.parts)]


def p_ngen(E, s, r, exc):
    want = []
    for i, p in enumerate(s.parts):
        if i:
            want.append(";")
        for j, v in enumerate(p if isinstance(p, tuple) else (p,)):
            if j:
                want.append(",")
            want.append(esc_view(E, v))
    ok = len(want) == len(s.written) and all(same_view(a, b) if isinstance(b, View) else isinstance(a, str) and a == b for a, b in zip(s.written, want))
    E.prove("the parts escaped, elements separated by commas, parts by semicolons", ok)


add(U + "generateDoubleNestedList", s_ngen, p_ngen, bounded="at most 3 parts of at most 2 elements")


# --- several values in one property (bounded)
def v_parse(E, o, data, variant):
    o.slots["data"] = data
    return None


MVAL = ghost("value", parse=v_parse)


def s_mparse(E, s):
    k = s.choose("length", MAXLEN + 1)
    s.cs = [E.fresh_int("c%d" % i) for i in range(k)]
    for c in s.cs:
        E.assume(z3.And(c >= 0, c <= 255))
    s.text = s.choose("type", 2) == 0
    V = E.find_qual("pycalendar.value.Value")
    s.type = V.slots["VALUETYPE_TEXT" if s.text else "VALUETYPE_DATETIME"]
    s.made = []
    s.mv = s.obj("pycalendar.multivalue.MultiValue", mType=s.type, mValues=E.plist([]))
    return [s.mv, strings.mk(s.cs), "icalendar"]


def st_create(E, slots):
    E.prove("call: values of the property's type", slots["value_type"] == E.S.type)
    return E.obj(MVAL)


def p_mparse(E, s, r, exc):
    if s.text:
        cut = [i for i, x in cuts(E, s.cs, ",")]
    else:
        cut = [i for i, c in enumerate(s.cs) if E.branch(c == 44)]
    want = parts_of(s.cs, cut)
    got = s.mv.slots["mValues"].slots["v"]
    E.prove("as many values as there are parts", isinstance(got, list) and len(got) == len(want))
    E.prove("each value is parsed from its part", E.all_([E.truth_term(strings.str_eq(E, g.slots.get("data", "?"), w)) for g, w in zip(got, want)]))


add("pycalendar.multivalue.MultiValue.parse", s_mparse, p_mparse, bounded="texts of at most %d characters" % MAXLEN,
    stubs={"func:pycalendar.value.Value.createFromType": st_create})


# --- the values that hold text
def s_textp(E, s):
    s.T = strings.view_new("T")
    E.assume(s.T.hi >= 0)
    s.plain_write = True
    return [s.obj("pycalendar.textvalue.TextValue", mValue="before"), s.T, "icalendar"]


add("pycalendar.textvalue.TextValue.parse", s_textp, lambda E, s, r, exc: E.prove("the value is the text, unescaped", same_view(s.args[0].slots["mValue"], dec_view(E, s.T))))


def s_textg(E, s):
    s.T = strings.view_new("T")
    E.assume(s.T.hi >= 0)
    s.plain_write = True
    s.written = []
    s.os = E.obj(WOUT)
    s.os.slots["n"] = 0
    return [s.obj("pycalendar.textvalue.TextValue", mValue=s.T), s.os]


add("pycalendar.textvalue.TextValue.generate", s_textg, lambda E, s, r, exc: E.prove("the value is written escaped, once", len(s.written) == 1 and same_view(s.written[0], esc_view(E, s.T))))
