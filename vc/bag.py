"""Lists and sets known by whether one arbitrary, fixed key K is among their members.

K is a constant about which nothing is assumed, so what is proved of K holds of every key; two elements
are the same for ==, set() and the like exactly when their keys are equal (the class's own equality and
hash are under contract elsewhere).  `ordered` and `unique` say what is known of the order and of repeats.
"""
import z3
from .values import *
from .interp import Unsupported


class Bag(object):
    def __init__(self, dom, has, ordered=False, unique=False):
        self.dom = dom              # .key: K; .make(E, key) -> element; .key_of(E, x) -> key
        self.has = has
        self.ordered = ordered
        self.unique = unique

    def __repr__(self):
        return "<members %s>" % (self.has,)

    @staticmethod
    def of(E, dom, v):
        """the bag of a content"""
        if isinstance(v, Bag):
            return v
        if isinstance(v, (list, tuple)):
            return Bag(dom, z3.Or([z3.BoolVal(False)] + [E.z(dom.key_of(E, x)) == dom.key for x in v]), len(v) < 2, len(v) < 2)
        raise Unsupported("a list of another kind: %r" % (v,))

    def but(self, **k):
        d = dict(has=self.has, ordered=self.ordered, unique=self.unique)
        d.update(k)
        return Bag(self.dom, **d)

    def sym_iter(self, E):
        return ("bag", self)

    def sym_len(self, E):
        n = E.fresh_int("len")
        E.assume(z3.And(n >= 0, z3.Implies(E.zb(self.has), n >= 1)))
        return n

    def sym_havoc(self, E, base):
        return self.but(has=E.fresh_bool("has"), ordered=False, unique=False)

    def plus(self, E, items):
        if isinstance(items, tuple) and items[0] == "bag":
            items = items[1]
        b = Bag.of(E, self.dom, items)
        return Bag(self.dom, z3.Or(E.zb(self.has), E.zb(b.has)))

    def sym_append(self, E, o, x):
        E.setslot(o, "v", self.plus(E, [x]))

    def sym_extend(self, E, o, items):
        E.setslot(o, "v", self.plus(E, items))

    def sym_add(self, E, o, x):
        E.setslot(o, "v", self.plus(E, [x]).but(unique=True))

    def sym_update(self, E, o, items):
        E.setslot(o, "v", self.plus(E, items).but(unique=True))

    def sym_discard(self, E, o, x):
        E.setslot(o, "v", self.but(has=z3.And(E.zb(self.has), E.z(self.dom.key_of(E, x)) != self.dom.key)))

    def sym_contains(self, E, o, x):
        k = E.z(self.dom.key_of(E, x))
        if k.eq(E.z(self.dom.key)) or E.entailed(k == self.dom.key):
            return self.has
        raise Unsupported("membership of another element")

    def check_order(self, E, cmp, key, reverse):
        d = self.dom
        if reverse is not False:
            return False
        a, b = E.fresh_int("a"), E.fresh_int("b")
        x, y = d.make(E, a), d.make(E, b)
        if key is not None:
            x, y = E.call(key, [x], {}), E.call(key, [y], {})
        if cmp is not None:
            c = E.z(E.call(cmp, [x, y], {}))
            return z3.And((c < 0) == (a < b), (c == 0) == (a == b))
        return z3.And(E.truth_term(E.compare("Lt", x, y)) == (a < b))

    def sorted(self, E, cmp=None, key=None, reverse=False):
        ok = self.check_order(E, cmp, key, reverse)
        return self.but(ordered=ok if isinstance(ok, bool) else E.driver.try_prove(E, "sorted by the key", ok)[0])

    def sym_sort(self, E, o, cmp=None, key=None, reverse=False):
        E.setslot(o, "v", self.sorted(E, cmp, key, reverse))

    def as_set(self):
        return self.but(unique=True, ordered=False)

    def difference(self, E, other):
        return self.but(has=z3.And(E.zb(self.has), z3.Not(E.zb(other.has))))

    def comp(self, E, frame, g, elt):
        """[elt for target in self if ...]: elements kept or left out, not changed"""
        d = self.dom
        x = d.make(E, d.key)
        E.assign(g.target, x, frame)
        keep = [E.truth_term(E.ev(c, frame)) for c in g.ifs]
        y = E.ev(elt, frame)
        hook = getattr(d, "on_comp", None)
        if hook is not None:
            hook(E, x, y)
        if y is not x:
            k = d.key_of(E, y)
            if not E.entailed(E.z(k) == d.key):
                raise Unsupported("comprehension that changes the elements")
        return self.but(has=z3.And(E.zb(self.has), *[E.zb(c) for c in keep]) if keep else self.has)
