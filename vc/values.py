"""Value domain of the verifier.

Concrete Python values stand for themselves (None, bool, int, float, str (bytes, one char per
octet), tuple, frozenset).  Symbolic values are z3 terms (Int, Bool) or the classes below.
Mutable things are Obj: a dict `slots` whose every write is journaled by the interpreter.
"""
import z3


class Obj(object):
    """Mutable heap object.  slots is the only mutable state."""
    __slots__ = ("oid", "cls", "slots", "tag", "lazy", "frozen")

    def __init__(self, oid, cls, slots, tag=None):
        self.oid = oid
        self.cls = cls
        self.slots = slots
        self.tag = tag
        self.lazy = None
        self.frozen = False

    def __repr__(self):
        return "<Obj %s #%s>" % (getattr(self.cls, "name", self.cls), self.oid)


class PyClass(object):
    def __init__(self, name, bases, slots, qual):
        self.name = name
        self.bases = bases
        self.slots = slots
        self.qual = qual
        self.oid = -1
        self._mro = None

    def mro(self):
        if self._mro is None:
            # C3-ish: depth first, dedupe keeping last occurrence (enough for this code base)
            out = [self]
            for b in self.bases:
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
            self._mro = out
        return self._mro

    def lookup(self, name):
        for c in self.mro():
            if name in c.slots:
                return c.slots[name], c
        return None, None

    def issub(self, other):
        return other in self.mro()

    def __repr__(self):
        return "<class %s>" % self.name


class PyFunc(object):
    def __init__(self, name, node, module, closure, defaults, qual, kind="func"):
        self.name = name
        self.node = node          # FunctionDef or Lambda
        self.module = module
        self.closure = closure    # enclosing Frame or None
        self.defaults = defaults
        self.qual = qual
        self.kind = kind          # func | static | class | property
        self.owner = None

    def __repr__(self):
        return "<func %s>" % self.qual


class Bound(object):
    def __init__(self, func, self_):
        self.func = func
        self.self_ = self_


class Super(object):
    def __init__(self, cls, obj):
        self.cls = cls
        self.obj = obj


class Builtin(object):
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __repr__(self):
        return "<builtin %s>" % self.name


class Module(object):
    def __init__(self, name):
        self.name = name
        self.slots = {}
        self.oid = -2
        self.loaded = False

    def __repr__(self):
        return "<module %s>" % self.name


class Opaque(object):
    """A value the verifier knows nothing about; using it in any decisive way is Unsupported."""
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return "<opaque %s>" % self.what


class NumTok(object):
    """Piece of an SStr: the decimal rendering (no sign, no padding) of a non-negative integer."""
    def __init__(self, term, length):
        self.term = term
        self.length = length


class SStr(object):
    """Symbolic string: pieces are host one-char strings, z3 Int terms (one character code) or NumTok."""
    __slots__ = ("pieces",)

    def __init__(self, pieces):
        self.pieces = tuple(pieces)

    def fixed(self):
        return not any(isinstance(p, NumTok) for p in self.pieces)

    def __repr__(self):
        return "SStr(%s)" % ",".join(p if isinstance(p, str) else "N(%s)" % p.term if isinstance(p, NumTok) else "<%s>" % p for p in self.pieces)


class SymSeq(object):
    """Sequence of unknown length.  kind: 'char' or any element kind; term: z3 Seq(Int) term
    (elements are character codes or object references)."""
    __slots__ = ("kind", "term", "mk")

    def __init__(self, kind, term, mk=None):
        self.kind = kind
        self.term = term
        self.mk = mk              # term -> element value (for non-char kinds)

    def __repr__(self):
        return "SymSeq(%s,%s)" % (self.kind, self.term)


class View(object):
    """Text of unknown length given by a character function: characters fn(lo) .. fn(hi-1).
    fn is -1 from `end` on, the length of the whole text."""
    __slots__ = ("fn", "lo", "hi", "end")

    def __init__(self, fn, lo, hi, end):
        self.fn = fn
        self.lo = lo
        self.hi = hi
        self.end = end

    kind = "char"

    def __repr__(self):
        return "View(%s,%s,%s)" % (self.fn, self.lo, self.hi)


class Rope(object):
    """Concatenation of texts (views and known characters) that is not one view."""
    __slots__ = ("parts",)
    kind = "char"

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "Rope(%s)" % (self.parts,)


class HashVal(object):
    def __init__(self, struct):
        self.struct = struct


class Choice(object):
    """One of several values, guarded by mutually exclusive and exhaustive conditions."""
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts


IntSeq = z3.SeqSort(z3.IntSort())


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or isinstance(v, z3.ArithRef)


def is_boolish(v):
    return isinstance(v, bool) or isinstance(v, z3.BoolRef)


def is_sym_bool(v):
    return isinstance(v, z3.BoolRef)


def is_sym_int(v):
    return isinstance(v, z3.ArithRef)


def is_str(v):
    return isinstance(v, (str, SStr, View, Rope)) or type(v).__name__ == "Emit" and not getattr(v.spec, "listy", False) or (isinstance(v, SymSeq) and v.kind == "char")


def concrete(v, depth=3):
    if v is None or isinstance(v, (bool, int, float, str, PyClass, PyFunc, Builtin, Module)):
        return True
    if isinstance(v, z3.ExprRef) or isinstance(v, (SStr, SymSeq, View, Rope, Choice, HashVal, Opaque)):
        return False
    if isinstance(v, (tuple, list, frozenset, set)):
        return all(concrete(x, depth) for x in v)
    if isinstance(v, dict):
        return all(concrete(x, depth) for x in v.values())
    if isinstance(v, Obj):
        if v.lazy:
            return False
        if depth <= 0:
            return True
        return all(concrete(x, depth - 1) for x in v.slots.values())
    return True
