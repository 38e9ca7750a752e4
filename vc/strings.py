"""Byte strings: host str (known), SStr (known piece structure), SymSeq('char') (unknown length)."""
import z3
from .values import *

DIGITS = "0123456789"
SPACES = " \t\n\r\x0b\x0c"


def _U(msg):
    from .interp import Unsupported
    raise Unsupported(msg)


def code(p):
    return z3.IntVal(ord(p)) if isinstance(p, str) else p


def pieces(s):
    if isinstance(s, str):
        return tuple(s)
    if not isinstance(s, SStr):
        _U("pieces of %r" % (s,))
    return s.pieces


def mk(ps):
    ps = list(ps)
    if all(isinstance(p, str) for p in ps):
        return "".join(ps)
    return SStr(ps)


DEND = {}       # character function -> end of the digit run that starts at a position
INTVAL = {}     # character function -> value of the digits of a range
FIND = {}       # character function, character -> first position from a position on


def view_new(name):
    fn = z3.Function("at!" + name, z3.IntSort(), z3.IntSort())
    n = z3.Int("len!" + name)
    return View(fn, z3.IntVal(0), n, n)


def zi(x):
    return z3.IntVal(x) if isinstance(x, int) else x


def vlen(v):
    return z3.simplify(v.hi - v.lo)


def vat(E, v, i):
    """character code at index i of the view"""
    p = z3.simplify(v.lo + i)
    c = v.fn(p)
    E.fact(z3.If(z3.And(p >= 0, p < v.end), z3.And(c >= 0, c <= 255), c == -1))
    m = CASED.get(v.fn.name())
    if m is not None:
        b, up = m
        x = b(p)
        E.fact(c == (z3.If(z3.And(x >= 97, x <= 122), x - 32, x) if up else z3.If(z3.And(x >= 65, x <= 90), x + 32, x)))
    return c


CASED = {}      # character function -> the one it is the upper (lower) case of
REPLACED = {}   # character function -> what it is (text, replaced, by)
SKIP = {}       # character function -> first position from a position on that holds no white space


def vskip(E, v, i=0):
    """index of the first character that is no white space at or after index i, or the length of the view"""
    f = SKIP.setdefault(v.fn.name(), z3.Function("skip!" + v.fn.name(), z3.IntSort(), z3.IntSort()))
    p = z3.simplify(v.lo + i)
    e = f(p)
    blank = lambda c: z3.Or([c == ord(x) for x in SPACES])
    E.fact(z3.And(e >= p, (e > p) == blank(vat(E, v, i)), z3.Not(blank(vat(E, v, e - v.lo))), z3.Implies(p <= v.end, e <= v.end)))
    if v.hi.eq(v.end):
        return z3.simplify(e - v.lo)
    return z3.If(e > v.hi, v.hi, e) - v.lo


def vdend(E, v, i):
    """end of the run of digits that starts at index i"""
    f = DEND.setdefault(v.fn.name(), z3.Function("dend!" + v.fn.name(), z3.IntSort(), z3.IntSort()))
    p = z3.simplify(v.lo + i)
    e = f(p)
    cp, ce = vat(E, v, i), vat(E, v, e - v.lo)
    E.fact(z3.And(e >= p, z3.Not(z3.And(ce >= 48, ce <= 57)), (e > p) == z3.And(cp >= 48, cp <= 57), z3.Implies(z3.And(p >= 0, p <= v.end), e <= v.end)))
    if v.hi.eq(v.end):
        return z3.simplify(e - v.lo)
    return z3.If(e > v.hi, v.hi, e) - v.lo


def vdend_at(E, v, i, j):
    """instance: positions i <= j < end of the run hold digits"""
    f = DEND[v.fn.name()]
    c = vat(E, v, j)
    p, q = z3.simplify(v.lo + i), z3.simplify(v.lo + j)
    E.fact(z3.Implies(z3.And(p <= q, q < f(p)), z3.And(c >= 48, c <= 57)))


def vfind(E, v, ch, i=0):
    """index of the first character ch at or after index i, or the length of the view"""
    ch = ord(ch)
    f = FIND.setdefault((v.fn.name(), ch), z3.Function("find%d!%s" % (ch, v.fn.name()), z3.IntSort(), z3.IntSort()))
    p = z3.simplify(v.lo + i)
    e = f(p)
    ce = vat(E, v, e - v.lo)
    E.fact(z3.And(e >= p, z3.Implies(p <= v.end, z3.And(e <= v.end, z3.Implies(e < v.end, ce == ch)))))
    for j in getattr(E.S, "marks", None) or ():
        # one arbitrary position
        E.fact(z3.Implies(z3.And(p <= j, j < e), v.fn(j) != ch))
    if v.hi.eq(v.end):
        return z3.simplify(e - v.lo)
    return z3.If(e > v.hi, v.hi, e) - v.lo


def vfind_at(E, v, ch, i, j):
    """instance: positions from i up to the first ch do not hold ch"""
    f = FIND[(v.fn.name(), ord(ch))]
    p, q = z3.simplify(v.lo + i), z3.simplify(v.lo + j)
    E.fact(z3.Implies(z3.And(p <= q, q < f(p)), vat(E, v, j) != ord(ch)))


def vint(E, v):
    """int() of a run of digits"""
    n = vlen(v)
    if not z3.is_int_value(n) and E.entailed(n <= 12):
        for k in range(13):
            if E.entailed(n == k):
                n = z3.IntVal(k)
                break
    if z3.is_int_value(n) and n.as_long() <= 12:
        t = 0
        for j in range(n.as_long()):
            t = t * 10 + vat(E, v, j) - 48
        return t
    f = INTVAL.setdefault(v.fn.name(), z3.Function("intval!" + v.fn.name(), z3.IntSort(), z3.IntSort(), z3.IntSort()))
    r = f(z3.simplify(v.lo), z3.simplify(v.hi))
    E.fact(r >= 0)
    return r


def vslice(E, v, lo, hi):
    n = vlen(v)

    def norm(x, dflt):
        if x is None:
            return dflt
        x = zi(E.z(x))
        if E.entailed(x >= 0):
            pass
        elif E.branch(x < 0):
            x = x + n
            if not E.branch(x >= 0):
                return z3.IntVal(0)
        return x if E.branch(x <= n) else n
    if hi is not None and lo is not None:
        w = z3.simplify(E.z(hi) - E.z(lo))
        if z3.is_int_value(w) and 0 <= w.as_long() <= 12 and E.entailed(E.z(lo) >= 0) and E.branch(E.z(hi) <= n):
            return mk([vat(E, v, E.z(lo) + j) for j in range(w.as_long())])
    a, b = norm(lo, z3.IntVal(0)), norm(hi, n)
    if not E.branch(a <= b):
        return ""
    r = View(v.fn, z3.simplify(v.lo + a), z3.simplify(v.lo + b), v.end)
    w = vlen(r)
    if z3.is_int_value(w) and w.as_long() <= 12:
        return mk([vat(E, r, j) for j in range(w.as_long())])
    return r


def known_len(E, v, upto=12):
    """the length of a view, if the path condition fixes it"""
    n = vlen(v)
    if not E.entailed(n <= upto):
        return None
    if E.spec_depth:
        _U("length of a view inside merged execution")
    return E.concretize(n, 0, upto)


def vpieces(E, v, k):
    """the k characters of a view known to have length k"""
    return mk([vat(E, v, j) for j in range(k)])


def seq_term(E, s):
    """z3 Seq(Int) term of a string"""
    if isinstance(s, View):
        _U("text view in sequence context")
    if isinstance(s, SymSeq):
        return s.term
    ps = pieces(s)
    if any(isinstance(p, NumTok) for p in ps):
        _U("number token in sequence context")
    if not ps:
        return z3.Empty(IntSeq)
    us = [z3.Unit(code(p)) for p in ps]
    return us[0] if len(us) == 1 else z3.Concat(*us)


def length(E, s):
    if isinstance(s, str):
        return len(s)
    if isinstance(s, SymSeq):
        return z3.Length(s.term)
    if isinstance(s, View):
        return vlen(s)
    if isinstance(s, Rope):
        n = 0
        for p in s.parts:
            n = length(E, p) + n
        return n
    if hasattr(s, "sym_len"):
        return s.sym_len(E)
    n, extra = 0, []
    for p in s.pieces:
        if isinstance(p, NumTok):
            extra.append(p.length)
        else:
            n += 1
    t = n
    for e in extra:
        t = e + t
    return t


def numtok(E, term):
    """decimal rendering of a non-negative integer term"""
    if isinstance(term, int):
        return list(str(term))
    ln = E.fresh_int("len")
    E.assume(ln >= 1)
    return [NumTok(term, ln)]


def dec_fixed(E, t, width):
    return [z3.simplify(48 + (t / (10 ** (width - 1 - i))) % 10) for i in range(width)]


def render_int(E, v, width=0, zero=False):
    v = E.as_int(v)
    if isinstance(v, int):
        if width:
            return list(("%0*d" if zero else "%*d") % (width, v))
        return list("%d" % v)
    if width and zero:
        if E.branch(v >= 0):
            if E.entailed(v < 10 ** width):
                return dec_fixed(E, v, width)
            if E.branch(v < 10 ** width):
                return dec_fixed(E, v, width)
            return numtok(E, v)
        _U("padded rendering of a negative number")
    if width:
        _U("space padded number")
    if E.branch(v >= 0):
        return numtok(E, v)
    return ["-"] + numtok(E, -v)


def to_str(E, v):
    if is_str(v):
        return v
    if is_int(v) and not isinstance(v, bool):
        return mk(render_int(E, v))
    if v is None:
        return "None"
    if isinstance(v, bool):
        return str(v)
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, Obj):
        f = v.cls.lookup("__str__")[0] if isinstance(v.cls, PyClass) else None
        if f is not None:
            return E.call(Bound(f, v), [], {})
    _U("str() of %r" % (v,))


def format_percent(E, fmt, arg):
    if not isinstance(fmt, str):
        _U("symbolic format")
    args = list(arg) if isinstance(arg, tuple) else [arg]
    out = []
    i = 0
    res = ""
    while i < len(fmt):
        c = fmt[i]
        if c != "%":
            out.append(c)
            i += 1
            continue
        i += 1
        if fmt[i] == "%":
            out.append("%")
            i += 1
            continue
        zero = False
        width = 0
        plus = False
        if fmt[i] == "+":
            plus = True
            i += 1
        if fmt[i] == "0":
            zero = True
            i += 1
        w = ""
        while fmt[i] in DIGITS:
            w += fmt[i]
            i += 1
        width = int(w) if w else 0
        k = fmt[i]
        i += 1
        if not args:
            E.throw("TypeError", "not enough arguments for format string")
        v = args.pop(0)
        if k == "d":
            if not is_int(v) and not is_boolish(v):
                if v is None or is_str(v):
                    E.throw("TypeError", "%d format: a number is required")
                _U("%%d of %r" % (v,))
            if plus:
                v = E.as_int(v)
                if E.branch(v >= 0):
                    if width:
                        _U("%+0nd")
                    out.append("+")
                    out.extend(render_int(E, v))
                else:
                    out.extend(render_int(E, v))
            else:
                out.extend(render_int(E, v, width, zero))
        elif k in "sr":
            if k == "r":
                if isinstance(v, (str, int)):
                    v = repr(v)
                else:
                    _U("%r")
            v = to_str(E, v)
            if isinstance(v, (SymSeq, View, Rope)):
                if not out and i == len(fmt):
                    return v
                return concat(E, mk(out), concat(E, v, format_percent(E, fmt[i:], tuple(args))))
            out.extend(pieces(v))
        else:
            _U("format %%%s" % k)
    if args:
        E.throw("TypeError", "not all arguments converted")
    return mk(out)


def rope(E, a, b):
    out = []
    for x in (a, b):
        for p in (x.parts if isinstance(x, Rope) else (x,)):
            if isinstance(p, SymSeq):
                _U("sequence and text view")
            if isinstance(p, str) and p == "":
                continue
            q = out[-1] if out else None
            if isinstance(p, View) and isinstance(q, View) and q.fn.eq(p.fn) and z3.simplify(q.hi).eq(z3.simplify(p.lo)):
                out[-1] = View(q.fn, q.lo, p.hi, q.end)
            elif isinstance(p, (str, SStr)) and isinstance(q, (str, SStr)):
                out[-1] = mk(pieces(q) + pieces(p))
            else:
                out.append(p)
    return out[0] if len(out) == 1 else "" if not out else Rope(out)


def concat(E, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a + b
    if hasattr(a, "plus"):
        return a.plus(E, b)
    if hasattr(b, "plus"):
        if isinstance(a, str) and a == "":
            return b
        _U("a text put before %r" % (b,))
    if isinstance(a, (Rope, View)) or isinstance(b, (Rope, View)):
        return rope(E, a, b)
    if isinstance(a, (SymSeq, View)) or isinstance(b, (SymSeq, View)):
        if isinstance(a, str) and a == "":
            return b
        if isinstance(b, str) and b == "":
            return a
        return SymSeq("char", z3.Concat(seq_term(E, a), seq_term(E, b)))
    return mk(pieces(a) + pieces(b))


def str_eq(E, a, b):
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, View) and isinstance(b, View):
        if a.fn.eq(b.fn) and a.lo.eq(b.lo) and a.hi.eq(b.hi):
            return True
        _U("equality of text views")
    if isinstance(a, View) or isinstance(b, View):
        v, o = (a, b) if isinstance(a, View) else (b, a)
        if isinstance(o, SymSeq):
            _U("equality of a view and a sequence")
        ps = pieces(o)
        if any(isinstance(p, NumTok) for p in ps):
            _U("equality of a view and a number token")
        return E.all_([vlen(v) == len(ps)] + [vat(E, v, j) == code(p) for j, p in enumerate(ps)])
    if isinstance(a, SymSeq) or isinstance(b, SymSeq):
        if isinstance(a, str) and len(a) == 0 or isinstance(b, str) and len(b) == 0:
            return length(E, b if isinstance(a, str) else a) == 0
        return seq_term(E, a) == seq_term(E, b)
    pa, pb = pieces(a), pieces(b)
    na = sum(isinstance(p, NumTok) for p in pa)
    nb = sum(isinstance(p, NumTok) for p in pb)
    if na == 0 and nb == 0:
        if len(pa) != len(pb):
            return False
        cs = []
        for x, y in zip(pa, pb):
            if isinstance(x, str) and isinstance(y, str):
                if x != y:
                    return False
            else:
                cs.append(code(x) == code(y))
        return E.all_(cs) if cs else True
    if len(pa) == len(pb) and all(isinstance(x, NumTok) == isinstance(y, NumTok) for x, y in zip(pa, pb)):
        # sufficient structural match (each token followed by a non digit on both sides)
        ok = True
        for ps in (pa, pb):
            for i, p in enumerate(ps):
                if isinstance(p, NumTok) and i + 1 < len(ps):
                    n = ps[i + 1]
                    if isinstance(n, NumTok) or not isinstance(n, str) or n in DIGITS:
                        ok = False
        if ok:
            return E.all_([(x.term == y.term) if isinstance(x, NumTok) else (code(x) == code(y) if not (isinstance(x, str) and isinstance(y, str)) else x == y)
                           for x, y in zip(pa, pb)])
    # definitely different first characters?
    if pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str) and pa[0] != pb[0]:
        return False
    if pa and pb:
        for x, y in ((pa[0], pb[0]), (pb[0], pa[0])):
            if isinstance(x, NumTok) and isinstance(y, str) and y not in DIGITS:
                return False
    if not pa or not pb:
        return False
    for x, y in ((pa, pb), (pb, pa)):
        if all(isinstance(p, str) for p in y):
            c = tok_match(x, "".join(y))
            if c is not None:
                return E.all_(c) if isinstance(c, list) else c
    _U("string equality with number tokens")


def tok_match(ps, text):
    """conditions under which pieces (tokens kept apart from digits) spell the text; False: never; None: cannot say"""
    cs, i = [], 0
    for k, p in enumerate(ps):
        if isinstance(p, NumTok):
            nx = ps[k + 1] if k + 1 < len(ps) else "$"
            if not isinstance(nx, str) or nx in DIGITS or k and isinstance(ps[k - 1], str) and ps[k - 1] in DIGITS:
                return None
            j = i
            while j < len(text) and text[j] in DIGITS:
                j += 1
            if j == i or j - i > 1 and text[i] == "0":
                return False
            cs.append(p.term == int(text[i:j]))
            i = j
        else:
            if i >= len(text):
                return False
            if isinstance(p, str):
                if p != text[i]:
                    return False
            else:
                cs.append(code(p) == ord(text[i]))
            i += 1
    return cs if i == len(text) else False


def at_piece(E, ps, i, x):
    """does the host string x (no digits) stand at piece i?"""
    if i + len(x) > len(ps) or any(isinstance(q, NumTok) for q in ps[i:i + len(x)]):
        return False
    return E.all_([(q == c) if isinstance(q, str) else q == ord(c) for q, c in zip(ps[i:i + len(x)], x)])


def tokless(x):
    return isinstance(x, str) and len(x) > 0 and not any(c in DIGITS for c in x)


def str_lt(E, a, b):
    pa, pb = pieces(a), pieces(b)
    if any(isinstance(p, NumTok) for p in pa + pb):
        _U("string order with number tokens")
    n = min(len(pa), len(pb))
    r = z3.BoolVal(len(pa) < len(pb))
    for i in range(n - 1, -1, -1):
        r = z3.If(code(pa[i]) == code(pb[i]), r, code(pa[i]) < code(pb[i]))
    return r


def in_set(E, c, chars):
    """c: piece (char or code); chars: host string"""
    if isinstance(c, str):
        return c in chars
    return E.any_([c == ord(x) for x in chars])


def contains(E, s, x):
    if not is_str(x):
        E.throw("TypeError", "'in <string>' requires string")
    if isinstance(s, str) and isinstance(x, str):
        return x in s
    if isinstance(s, SymSeq):
        return z3.Contains(s.term, seq_term(E, x))
    if isinstance(s, View):
        if isinstance(x, str) and len(x) == 1:
            return vfind(E, s, x) < vlen(s)
        _U("contains in a view")
    if isinstance(x, View):
        if isinstance(s, str) and len(s) < 40 and E.entailed(vlen(x) == 1):
            return E.any_([vat(E, x, 0) == ord(ch) for ch in s])
        _U("contains of a view")
    if isinstance(x, SymSeq):
        if isinstance(s, str):
            # only single characters are expected here
            if E.entailed(z3.Length(x.term) == 1):
                return E.any_([x.term[0] == ord(ch) for ch in s])
        _U("contains")
    ps, px = pieces(s), pieces(x)
    if len(px) == 0:
        return True
    if len(px) == 1 and not isinstance(px[0], NumTok):
        cs = []
        for p in ps:
            if isinstance(p, NumTok):
                if isinstance(px[0], str) and px[0] not in DIGITS:
                    continue
                _U("digit in number token")
            if isinstance(p, str) and isinstance(px[0], str):
                if p == px[0]:
                    return True
            else:
                cs.append(code(p) == code(px[0]))
        return E.any_(cs)
    if any(isinstance(p, NumTok) for p in ps + px):
        if tokless(x):
            return E.any_([at_piece(E, ps, i, x) for i in range(len(ps))])
        _U("substring with number tokens")
    return E.any_([E.all_([code(ps[i + j]) == code(px[j]) for j in range(len(px))]) for i in range(len(ps) - len(px) + 1)])


def split_at(E, s, idx):
    """piece index at the (possibly symbolic) character offset idx of an SStr/str; None if out of range"""
    ps = pieces(s)
    off = 0
    for i, p in enumerate(ps):
        if isinstance(off, int) and isinstance(idx, int):
            if off == idx:
                return i
        elif E.entailed(E.z(off) == E.z(idx)):
            return i
        off = off + (p.length if isinstance(p, NumTok) else 1)
    if isinstance(off, int) and isinstance(idx, int):
        return len(ps) if off == idx else None
    if E.entailed(E.z(off) == E.z(idx)):
        return len(ps)
    return None


def getitem(E, s, idx):
    if E.is_slice(idx):
        _, lo, hi, st = idx
        if st is not None and st != 1:
            _U("string slice step")
        if isinstance(s, str) and all(x is None or isinstance(x, int) for x in (lo, hi)):
            return s[slice(lo, hi)]
        if isinstance(s, SymSeq):
            return sym_slice(E, s, lo, hi)
        if isinstance(s, View):
            return vslice(E, s, lo, hi)
        ps = pieces(s)
        fixed = not any(isinstance(p, NumTok) for p in ps)
        if fixed:
            n = len(ps)
            lo = E.concretize(lo, -n - 1, n + 4) if lo is not None and not isinstance(lo, int) else lo
            hi = E.concretize(hi, -n - 1, n + 4) if hi is not None and not isinstance(hi, int) else hi
            return mk(ps[slice(lo, hi)])
        i = 0 if lo is None else tokpos(E, s, lo)
        j = len(ps) if hi is None else tokpos(E, s, hi)
        if i is None or j is None:
            _U("slice inside a number token")
        return mk(ps[i:j])
    if isinstance(idx, z3.BoolRef) or isinstance(idx, bool):
        idx = E.as_int(idx)
    if isinstance(s, str) and isinstance(idx, int):
        if -len(s) <= idx < len(s):
            return s[idx]
        E.throw("IndexError", "string index out of range")
    if isinstance(s, View):
        n = vlen(s)
        i = E.z(idx)
        if not E.branch(z3.And(i >= -n, i < n)):
            E.throw("IndexError", "string index out of range")
        if not E.branch(i >= 0):
            i = n + i
        return SStr([vat(E, s, i)])
    if isinstance(s, SymSeq):
        n = z3.Length(s.term)
        i = E.z(idx)
        if not E.branch(z3.And(i >= -n, i < n)):
            E.throw("IndexError", "string index out of range")
        j = i if E.entailed(i >= 0) else (n + i if E.entailed(i < 0) else z3.If(i >= 0, i, n + i))
        j = z3.simplify(j)
        return SStr([s.term[j]])
    ps = pieces(s)
    if not any(isinstance(p, NumTok) for p in ps):
        n = len(ps)
        if not isinstance(idx, int):
            if not E.branch(z3.And(idx >= -n, idx < n)):
                E.throw("IndexError", "string index out of range")
            idx = E.concretize(idx, -n, n - 1)
        if -n <= idx < n:
            return mk([ps[idx]])
        E.throw("IndexError", "string index out of range")
    i = tokpos(E, s, idx)
    if i is None:
        _U("index inside a number token")
    if i == len(ps):
        E.throw("IndexError", "string index out of range")
    p = ps[i]
    if isinstance(p, NumTok):
        # first digit of a rendering: some digit
        c = E.fresh_int("dig")
        E.assume(z3.And(c >= 48, c <= 57))
        return SStr([c])
    return mk([p])


def tokpos(E, s, idx):
    if isinstance(idx, int) and idx < 0:
        ps = pieces(s)
        k = -idx
        if all(not isinstance(p, NumTok) for p in ps[-k:]):
            return len(ps) - k
        return None
    return split_at(E, s, idx)


def sym_slice(E, s, lo, hi):
    n = z3.Length(s.term)

    def norm(x, dflt):
        if x is None:
            return dflt
        x = E.z(x)
        if E.entailed(x >= 0):
            pass
        elif E.entailed(x < 0):
            x = x + n
            if not E.entailed(x >= 0):
                x = z3.If(x < 0, z3.IntVal(0), x)
        else:
            x = z3.If(x < 0, z3.If(x + n < 0, z3.IntVal(0), x + n), x)
        if not E.entailed(x <= n):
            x = z3.If(x > n, n, x)
        return x
    if lo is not None and hi is not None:
        w = z3.simplify(E.z(hi) - E.z(lo))
        if z3.is_int_value(w) and 0 <= w.as_long() <= 12 and E.entailed(E.z(lo) >= 0) and E.branch(E.z(hi) <= n):
            return SStr([s.term[z3.simplify(E.z(lo) + j)] for j in range(w.as_long())]) if w.as_long() else ""
    l = norm(lo, z3.IntVal(0))
    h = norm(hi, n)
    ln = z3.simplify(h - l)
    if not E.entailed(ln >= 0):
        ln = z3.If(ln < 0, z3.IntVal(0), ln)
    l = z3.simplify(l)
    if z3.is_int_value(l) and l.as_long() == 0 and hi is None:
        return s
    return SymSeq("char", z3.SubSeq(s.term, l, ln))


# ---------------------------------------------------------------- methods
def m_startswith(E, s, x, start=None):
    if start is not None:
        s = getitem(E, s, ("slice", start, None, None))
    if isinstance(x, tuple):
        return E.any_([m_startswith(E, s, y) for y in x])
    if isinstance(s, str) and isinstance(x, str):
        return s.startswith(x)
    if isinstance(s, View):
        ps = pieces(x) if not isinstance(x, (View, SymSeq)) else _U("startswith of views")
        return E.all_([vlen(s) >= len(ps)] + [vat(E, s, j) == code(p) for j, p in enumerate(ps)])
    if isinstance(s, SymSeq) or isinstance(x, SymSeq):
        return z3.PrefixOf(seq_term(E, x), seq_term(E, s))
    ps, px = pieces(s), pieces(x)
    if any(isinstance(p, NumTok) for p in ps[:len(px)] + px):
        if px and ps and isinstance(ps[0], NumTok) and isinstance(px[0], str) and px[0] not in DIGITS:
            return False
        _U("startswith number token")
    if len(px) > len(ps):
        return False
    return E.all_([(a == b) if isinstance(a, str) and isinstance(b, str) else code(a) == code(b) for a, b in zip(ps, px)])


def m_endswith(E, s, x):
    if isinstance(s, str) and isinstance(x, str):
        return s.endswith(x)
    if isinstance(s, View):
        ps = pieces(x) if not isinstance(x, (View, SymSeq)) else _U("endswith of views")
        return E.all_([vlen(s) >= len(ps)] + [vat(E, s, vlen(s) - len(ps) + j) == code(p) for j, p in enumerate(ps)])
    if isinstance(s, SymSeq):
        return z3.SuffixOf(seq_term(E, x), s.term)
    ps, px = pieces(s), pieces(x)
    if len(px) > len(ps):
        return False
    if not px:
        return True
    return E.all_([code(a) == code(b) for a, b in zip(ps[-len(px):], px)])


def m_find(E, s, x, *rest):
    if isinstance(s, str) and isinstance(x, str) and all(isinstance(r, int) for r in rest):
        return s.find(x, *rest)
    if isinstance(s, View):
        if not isinstance(x, str) or len(x) != 1 or len(rest) > 1:
            _U("find in a view")
        i = vfind(E, s, x, E.z(rest[0]) if rest else 0)
        if E.branch(i < vlen(s)):
            return i
        return -1
    if isinstance(s, SymSeq) and not rest:
        return z3.IndexOf(s.term, seq_term(E, x), 0)
    if rest:
        _U("find with start")
    ps, px = pieces(s), pieces(x)
    if len(px) != 1 or isinstance(px[0], NumTok):
        if any(isinstance(p, NumTok) for p in ps + px):
            if not tokless(x):
                _U("find")
            off = 0
            for i, p in enumerate(ps):
                if E.branch(at_piece(E, ps, i, x)):
                    return off
                off = off + (p.length if isinstance(p, NumTok) else 1)
            return -1
        for i in range(len(ps) - len(px) + 1):
            if E.branch(E.all_([code(ps[i + j]) == code(px[j]) for j in range(len(px))])):
                return i
        return -1
    off = 0
    for p in ps:
        if isinstance(p, NumTok):
            if not isinstance(px[0], str) or px[0] in DIGITS:
                _U("find in number token")
            off = off + p.length
            continue
        if isinstance(p, str) and isinstance(px[0], str):
            if p == px[0]:
                return off
        elif E.branch(code(p) == code(px[0])):
            return off
        off = off + 1
    return -1


def m_split(E, s, sep=None, maxsplit=-1):
    if isinstance(s, str) and (sep is None or isinstance(sep, str)):
        return E.plist(s.split(sep, maxsplit) if sep is not None else s.split())
    if isinstance(s, View) and isinstance(sep, str) and len(sep) == 1 and maxsplit == 1:
        i = m_find(E, s, sep)
        if isinstance(i, int) and i < 0:
            return E.plist([s])
        return E.plist([vslice(E, s, None, i), vslice(E, s, i + 1, None)])
    if isinstance(s, View):
        k = known_len(E, s)
        if k is not None:
            s = vpieces(E, s, k)
    if isinstance(s, SStr) and isinstance(sep, str) and len(sep) > 1 and tokless(sep):
        ps, out, cur, i, n = pieces(s), [], [], 0, 0
        while i < len(ps):
            if (maxsplit < 0 or n < maxsplit) and E.branch(at_piece(E, ps, i, sep)):
                out.append(mk(cur))
                cur = []
                n += 1
                i += len(sep)
            else:
                cur.append(ps[i])
                i += 1
        return E.plist(out + [mk(cur)])
    if isinstance(s, View) or sep is None or isinstance(s, SymSeq) or not isinstance(sep, str) or len(sep) != 1:
        _U("split")
    out, cur = [], []
    n = 0
    for p in pieces(s):
        if isinstance(p, NumTok):
            if sep in DIGITS:
                _U("split on digits")
            cur.append(p)
            continue
        hit = (p == sep) if isinstance(p, str) else E.branch(p == ord(sep))
        if hit and (maxsplit < 0 or n < maxsplit):
            out.append(mk(cur))
            cur = []
            n += 1
        else:
            cur.append(p)
    out.append(mk(cur))
    return E.plist(out)


def m_join(E, s, items):
    xs = E.iter_items(items)
    if not isinstance(xs, list):
        if hasattr(xs[1], "sym_join"):
            return xs[1].sym_join(E, s)
        if xs[0] == "seq" and s == "" and getattr(xs[1], "joined", None) is not None:
            return xs[1].joined
        _U("join of a symbolic list")
    out = None
    for x in xs:
        if not is_str(x):
            E.throw("TypeError", "join")
        out = x if out is None else concat(E, concat(E, out, s), x)
    return "" if out is None else out


def m_replace(E, s, a, b):
    if isinstance(s, str) and isinstance(a, str) and isinstance(b, str):
        return s.replace(a, b)
    if isinstance(s, View) and isinstance(a, str) and isinstance(b, str):
        # another text, determined by these
        r = view_new("replaced(%s,%s,%s,%r,%r)" % (s.fn.name(), z3.simplify(s.lo).sexpr(), z3.simplify(s.hi).sexpr(), a, b))
        REPLACED[r.fn.name()] = (s, a, b)
        E.assume(r.hi >= 0)
        return r
    if isinstance(s, SStr) and isinstance(a, str) and len(a) == 1 and is_str(b):
        out = []
        for p in s.pieces:
            if isinstance(p, NumTok):
                if a in DIGITS:
                    _U("replace digits")
                out.append(p)
            elif E.branch(in_set(E, p, a)):
                out.extend(pieces(b))
            else:
                out.append(p)
        return mk(out)
    if isinstance(s, SStr) and isinstance(a, str) and isinstance(b, str):
        # multi character pattern: decide matches left to right
        ps, out, i = s.pieces, [], 0
        if not s.fixed():
            _U("replace")
        while i < len(ps):
            if i + len(a) <= len(ps) and E.branch(E.all_([in_set(E, ps[i + j], a[j]) for j in range(len(a))])):
                out.extend(b)
                i += len(a)
            else:
                out.append(ps[i])
                i += 1
        return mk(out)
    _U("replace on a symbolic string")


def casemap(E, s, up):
    if isinstance(s, str):
        return s.upper() if up else s.lower()
    if isinstance(s, View):
        f = z3.Function(("upper!" if up else "lower!") + s.fn.name(), z3.IntSort(), z3.IntSort())
        CASED[f.name()] = (s.fn, up)
        return View(f, s.lo, s.hi, s.end)
    if isinstance(s, SymSeq):
        _U("case mapping of a symbolic sequence")
    out = []
    for p in s.pieces:
        if isinstance(p, str):
            out.append(p.upper() if up else p.lower())
        elif isinstance(p, NumTok):
            out.append(p)
        elif up:
            out.append(z3.If(z3.And(p >= 97, p <= 122), p - 32, p))
        else:
            out.append(z3.If(z3.And(p >= 65, p <= 90), p + 32, p))
    return mk(out)


def m_isdigit(E, s):
    if isinstance(s, str):
        return s.isdigit()
    if isinstance(s, View):
        return z3.And(vlen(s) > 0, vdend(E, s, 0) >= vlen(s))
    if isinstance(s, SymSeq):
        _U("isdigit")
    if not s.pieces:
        return False
    return E.all_([True if isinstance(p, NumTok) else (p.isdigit() if isinstance(p, str) else z3.And(p >= 48, p <= 57)) for p in s.pieces])


def m_isspace(E, s):
    if isinstance(s, str):
        return s.isspace()
    if isinstance(s, (SymSeq, View)):
        _U("isspace")
    if not s.pieces:
        return False
    return E.all_([False if isinstance(p, NumTok) else in_set(E, p, SPACES) for p in s.pieces])


def m_strip(E, s, left=True, right=True, chars=SPACES):
    if isinstance(s, str):
        if left:
            s = s.lstrip(chars)
        return s.rstrip(chars) if right else s
    if isinstance(s, View) and left and not right and chars == SPACES:
        return vslice(E, s, vskip(E, s), None)
    if isinstance(s, (SymSeq, View)):
        _U("strip of a symbolic sequence")
    ps = list(s.pieces)
    while left and ps and not isinstance(ps[0], NumTok) and E.branch(in_set(E, ps[0], chars)):
        ps.pop(0)
    while right and ps and not isinstance(ps[-1], NumTok) and E.branch(in_set(E, ps[-1], chars)):
        ps.pop()
    return mk(ps)


def m_format(E, s, *args):
    if not isinstance(s, str):
        _U("format")
    out, i = "", 0
    parts = s.split("{}")
    if len(parts) - 1 != len(args) or "{" in "".join(parts):
        if all(isinstance(a, (str, int)) for a in args):
            return s.format(*args)
        _U("format string")
    res = parts[0]
    for p, a in zip(parts[1:], args):
        try:
            t = to_str(E, a)
        except Exception:
            t = "<?>"
        res = concat(E, concat(E, res, t), p)
    return res


def to_int(E, s):
    """int(string)"""
    if isinstance(s, str):
        try:
            return int(s.strip(SPACES)) if "_" not in s else E.throw("ValueError", "int")
        except ValueError:
            E.throw("ValueError", "invalid literal for int()")
    if isinstance(s, View):
        if E.branch(vlen(s) == 0):
            E.throw("ValueError", "invalid literal for int()")
        if not E.entailed(vdend(E, s, 0) >= vlen(s)):
            _U("int() of a text that may hold other characters")
        return vint(E, s)
    if isinstance(s, SymSeq):
        h = E.stubs.get("int:seq")
        if h is not None:
            return h(E, s)
        _U("int() of a symbolic sequence")
    s2 = m_strip(E, s)
    ps = list(pieces(s2))
    sign = 1
    if ps and not isinstance(ps[0], NumTok):
        if E.branch(in_set(E, ps[0], "-")):
            sign = -1
            ps.pop(0)
        elif E.branch(in_set(E, ps[0], "+")):
            ps.pop(0)
    if not ps:
        E.throw("ValueError", "invalid literal for int()")
    if len(ps) == 1 and isinstance(ps[0], NumTok):
        return ps[0].term if sign == 1 else -ps[0].term
    t = 0
    for p in ps:
        if isinstance(p, NumTok):
            _U("int() of a mixed string")
        if isinstance(p, str):
            if p not in DIGITS:
                E.throw("ValueError", "invalid literal for int()")
            d = ord(p) - 48
        else:
            if not E.branch(z3.And(p >= 48, p <= 57)):
                E.throw("ValueError", "invalid literal for int()")
            d = p - 48
        t = t * 10 + d
    if is_z3(t):
        t = z3.simplify(t)
    return t if sign == 1 else -t


def m_encode(E, s, *a):
    if isinstance(s, str):
        return s
    return s


METHODS = {
    "startswith": m_startswith, "endswith": m_endswith, "find": m_find, "split": m_split, "join": m_join,
    "replace": m_replace, "upper": lambda E, s: casemap(E, s, True), "lower": lambda E, s: casemap(E, s, False),
    "isdigit": m_isdigit, "isspace": m_isspace,
    "strip": lambda E, s, c=SPACES: m_strip(E, s, chars=c),
    "lstrip": lambda E, s, c=SPACES: m_strip(E, s, True, False, chars=c),
    "rstrip": lambda E, s, c=SPACES: m_strip(E, s, False, True, chars=c),
    "format": m_format, "encode": m_encode, "decode": m_encode,
}
