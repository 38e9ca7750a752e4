"""Text (or a list of values) under construction, known by how far it has got along what it is specified to be.

The specification is a machine that reads a source and says what comes next; an Emit stands for the output
produced so far: `st` is the state of the machine after it (a tuple of integer terms), `ok` holds when everything
so far was what the machine allows.  Every way of building a text goes through `plus`, so the same
specification serves a stream, a list to be joined and a growing string."""
import z3
from .values import *
from .interp import Unsupported


def zt(x):
    return z3.IntVal(x) if isinstance(x, int) and not isinstance(x, bool) else z3.BoolVal(x) if isinstance(x, bool) else x


class Emit(object):
    def __init__(self, spec, st, ok=True):
        self.spec = spec
        self.st = tuple(z3.simplify(zt(x)) for x in st)
        self.ok = ok

    def __repr__(self):
        return "<output of %s at %s>" % (self.spec.name, list(self.st))

    @staticmethod
    def of(E, spec, v):
        """the Emit of a content (a text, or a list of pieces)"""
        if isinstance(v, Emit):
            if v.spec is not spec:
                raise Unsupported("output of another specification")
            return v
        r = Emit(spec, spec.start(), True)
        if isinstance(v, (list, tuple)):
            for x in v:
                r = r.plus(E, x)
            return r
        return r.plus(E, v)

    def plus(self, E, x):
        st, ok = self.spec.feed(E, self.st, x)
        return Emit(self.spec, st, z3.simplify(z3.And(zt(self.ok), zt(ok))))

    def sym_havoc(self, E, base):
        return Emit(self.spec, tuple(E.fresh_int("%s_%d" % (base, i)) for i in range(len(self.st))), E.fresh_bool(base + "_ok"))

    def sym_merge(self, E, c, mine, other):
        try:
            o = Emit.of(E, self.spec, other)
        except Unsupported:
            return None
        a, b = (self, o) if mine else (o, self)
        return Emit(self.spec, tuple(z3.If(c, x, y) for x, y in zip(a.st, b.st)), z3.If(c, zt(a.ok), zt(b.ok)))

    # as the content of a list
    def sym_append(self, E, o, x):
        E.setslot(o, "v", self.plus(E, x))

    def sym_extend(self, E, o, items):
        if not isinstance(items, (list, tuple)) or isinstance(items, tuple) and items and items[0] in ("seq", "abs", "bag"):
            raise Unsupported("extend by a list of unknown length")
        r = self
        for x in items:
            r = r.plus(E, x)
        E.setslot(o, "v", r)

    def sym_iter(self, E):
        return ("emit", self)

    def sym_join(self, E, sep):
        if sep != "":
            raise Unsupported("join with a separator")
        f = getattr(self.spec, "text", None)
        return f(E, self) if f else self

    def sym_get(self, E, o, idx):
        f = getattr(self.spec, "item", None)
        if f is None or E.is_slice(idx):
            raise Unsupported("element of the output of %s" % self.spec.name)
        return f(E, self, idx)

    def sym_len(self, E):
        f = getattr(self.spec, "count", None)
        if f is None:
            raise Unsupported("length of the output of %s" % self.spec.name)
        return f(E, self)


class Spec(object):
    """feed a piece at a time; char(E, st, code) and view(E, st, View) -> (state, ok)"""
    name = "?"

    def start(self):
        return (0,)

    def feed(self, E, st, x):
        from . import strings
        ok = []
        if isinstance(x, View):
            return self.view(E, st, x)
        if isinstance(x, Rope):
            for p in x.parts:
                st, c = self.feed(E, tuple(z3.simplify(zt(v)) for v in st), p)
                ok.append(zt(c))
            return st, z3.And([z3.BoolVal(True)] + ok)
        if isinstance(x, (str, SStr)):
            for p in strings.pieces(x):
                if isinstance(p, NumTok):
                    raise Unsupported("number token in the output of %s" % self.name)
                st, c = self.char(E, tuple(z3.simplify(zt(v)) for v in st), strings.code(p))
                ok.append(zt(c))
            return st, z3.And([z3.BoolVal(True)] + ok)
        raise Unsupported("output of %r" % (x,))
