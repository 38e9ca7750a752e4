"""Built-in functions and types of the Python subset."""
import z3
from .values import *
from . import strings


def to_float(E, x):
    m = getattr(x.cls, "methods", None) if isinstance(x, Obj) else None
    return m["__float__"](E, x) if m and "__float__" in m else _U("float()")


def _U(msg):
    from .interp import Unsupported
    raise Unsupported(msg)


EXC = [("BaseException", None), ("Exception", "BaseException"), ("StandardError", "Exception"),
       ("LookupError", "StandardError"), ("IndexError", "LookupError"), ("KeyError", "LookupError"),
       ("ValueError", "StandardError"), ("TypeError", "StandardError"), ("AttributeError", "StandardError"),
       ("NameError", "StandardError"), ("ArithmeticError", "StandardError"), ("ZeroDivisionError", "ArithmeticError"),
       ("RuntimeError", "StandardError"), ("NotImplementedError", "RuntimeError"), ("AssertionError", "StandardError"),
       ("EnvironmentError", "StandardError"), ("IOError", "EnvironmentError"), ("OSError", "EnvironmentError"),
       ("ImportError", "StandardError"), ("StopIteration", "Exception"), ("UnicodeDecodeError", "ValueError"),
       ("UnicodeEncodeError", "ValueError"), ("OverflowError", "ArithmeticError"), ("KeyboardInterrupt", "BaseException"),
       ("SystemExit", "BaseException")]


class RangeIter(object):
    def __init__(self, lo, hi, step):
        self.a = (lo, hi, step)

    def sym_iter(self, E):
        return ("range",) + self.a


def list_items(E, o):
    v = E.iter_items(o)
    if not isinstance(v, list):
        _U("symbolic list where a known-length list is needed")
    return v


def install(E):
    B = E.builtins
    obj = PyClass("object", [], {}, None)
    obj.methods = {"__init__": lambda E, o, *a, **k: None}
    B["object"] = obj
    for n, b in EXC:
        c = PyClass(n, [B[b]] if b else [obj], {}, None)
        B[n] = c
    def exc_init(E, o, *a, **k):
        E.setslot(o, "args", tuple(a))
    B["BaseException"].methods = {"__init__": exc_init}
    B["None"] = None
    B["True"] = True
    B["False"] = False
    B["NotImplemented"] = Opaque("NotImplemented")
    B["open"] = B["file"] = Opaque("open")

    def simple(n, construct, methods=None):
        c = PyClass(n, [obj], {}, None)
        c.construct = construct
        c.methods = methods or {}
        B[n] = c
        return c

    # ---- list
    def l_append(E, o, x):
        v = o.slots["v"]
        if isinstance(v, SymSeq):
            E.setslot(o, "v", SymSeq(v.kind, z3.Concat(v.term, z3.Unit(E.to_ref(x))), v.mk))
        elif isinstance(v, list):
            E.setslot(o, "v", v + [x])
        else:
            v.sym_append(E, o, x)

    def l_extend(E, o, xs):
        v = o.slots["v"]
        items = E.iter_items(xs)
        if isinstance(items, list) and isinstance(v, list):
            E.setslot(o, "v", v + items)
            return
        if isinstance(items, tuple) and items[0] == "seq":
            if isinstance(v, list) and not v:
                E.setslot(o, "v", items[1])
                return
            if isinstance(v, SymSeq) and v.kind == items[1].kind:
                E.setslot(o, "v", SymSeq(v.kind, z3.Concat(v.term, items[1].term), v.mk))
                return
        if isinstance(items, list) and not items:
            return
        if isinstance(items, tuple) and items[0] == "bag" and isinstance(v, list):
            from .bag import Bag
            E.setslot(o, "v", items[1] if not v else Bag.of(E, items[1].dom, v).plus(E, items))
            return
        if isinstance(items, tuple) and items[0] in ("abs", "rec") and isinstance(v, list):
            if not v:
                E.setslot(o, "v", items[1])
                return
            from .abslist import Rec
            v = Rec([("item", x) for x in v])
        if hasattr(v, "sym_extend"):
            return v.sym_extend(E, o, items)
        _U("list.extend")

    def l_pop(E, o, i=-1):
        v = list(o.slots["v"]) if isinstance(o.slots["v"], list) else _U("pop")
        if not v:
            E.throw("IndexError", "pop")
        r = v.pop(i)
        E.setslot(o, "v", v)
        return r

    def l_insert(E, o, i, x):
        v = list(o.slots["v"]) if isinstance(o.slots["v"], list) else _U("insert")
        v.insert(i, x)
        E.setslot(o, "v", v)

    def l_remove(E, o, x):
        v = o.slots["v"]
        if not isinstance(v, list):
            if hasattr(v, "sym_remove"):
                return v.sym_remove(E, o, x)
            _U("remove")
        for i, y in enumerate(v):
            if E.branch(E.truth_term(E.compare("Eq", y, x))):
                E.setslot(o, "v", v[:i] + v[i + 1:])
                return
        E.throw("ValueError", "list.remove(x): x not in list")

    def l_index(E, o, x):
        for i, y in enumerate(list_items(E, o)):
            if E.branch(E.truth_term(E.compare("Eq", y, x))):
                return i
        E.throw("ValueError", "not in list")

    def l_count(E, o, x):
        n = 0
        for y in list_items(E, o):
            n = E.binop("Add", n, E.as_int(E.truth_term(E.compare("Eq", y, x))))
        return n

    def sort_items(E, items, cmp=None, key=None, reverse=False):
        out = []
        ks = []
        for x in items:
            kx = E.call(key, [x], {}) if key is not None else x
            i = len(out)
            while i > 0:
                if cmp is not None:
                    c = E.call(cmp, [ks[i - 1], kx], {})
                    gt = E.compare("Gt", c, 0)
                else:
                    gt = E.truth_term(E.compare("Lt", kx, ks[i - 1]))
                if reverse:
                    gt = E.truth_term(E.compare("Lt", ks[i - 1], kx)) if cmp is None else E.compare("Lt", c, 0)
                if E.branch(gt):
                    i -= 1
                else:
                    break
            out.insert(i, x)
            ks.insert(i, kx)
        return out
    E.sort_items = sort_items

    def l_sort(E, o, cmp=None, key=None, reverse=False):
        v = o.slots["v"]
        if isinstance(v, list):
            E.setslot(o, "v", sort_items(E, v, cmp, key, reverse))
        elif hasattr(v, "sym_sort"):
            v.sym_sort(E, o, cmp, key, reverse)
        else:
            h = E.stubs.get("list.sort")
            if h is None:
                _U("sort of a symbolic list")
            h(E, o, cmp, key, reverse)

    def l_reverse(E, o):
        E.setslot(o, "v", list(reversed(list_items(E, o))))

    def l_new(E, args, kw):
        if not args:
            return E.plist([])
        it = E.iter_items(args[0])
        if isinstance(it, list):
            return E.plist(it)
        if it[0] in ("seq", "abs", "rec", "bag"):
            return E.plist(it[1])
        _U("list()")
    simple("list", l_new, {"append": l_append, "extend": l_extend, "pop": l_pop, "insert": l_insert, "remove": l_remove,
                           "index": l_index, "count": l_count, "sort": l_sort, "reverse": l_reverse})

    # ---- set
    def s_new(E, args, kw):
        o = E.pset([])
        if args:
            it = E.iter_items(args[0])
            if isinstance(it, tuple) and it[0] == "bag":
                o.slots["v"] = it[1].as_set()
                return o
            if not isinstance(it, list):
                h = E.stubs.get("set")
                if h is not None:
                    return h(E, it)
                _U("set() of a symbolic list")
            for x in it:
                s_add(E, o, x)
        return o

    def s_add(E, o, x):
        v = o.slots["v"]
        if not isinstance(v, list):
            if hasattr(v, "sym_add"):
                return v.sym_add(E, o, x)
            _U("set.add")
        for y in v:
            if E.branch(E.truth_term(E.compare("Eq", y, x))):
                return
        E.setslot(o, "v", v + [x])

    def a_bag(E, o):
        it = E.iter_items(o)
        return it[1] if isinstance(it, tuple) and it[0] == "bag" else None

    def s_difference(E, o, other):
        x, y = a_bag(E, o), a_bag(E, other)
        if x is not None or y is not None:
            d = (x or y).dom
            from .bag import Bag
            b = Bag.of(E, d, x or o.slots["v"]).difference(E, Bag.of(E, d, y or list_items(E, other)))
            r = E.pset([])
            r.slots["v"] = b
            return r
        b = list_items(E, other)
        out = []
        for x in list_items(E, o):
            if not E.branch(E.any_([E.truth_term(E.compare("Eq", x, y)) for y in b])):
                out.append(x)
        return E.pset(out)

    def s_union(E, o, other):
        x, y = a_bag(E, o), a_bag(E, other)
        if x is not None or y is not None:
            from .bag import Bag
            r = E.pset([])
            r.slots["v"] = Bag.of(E, (x or y).dom, x or o.slots["v"]).plus(E, ("bag", y) if y is not None else list_items(E, other)).as_set()
            return r
        r = E.pset(list(list_items(E, o)))
        for x in list_items(E, other):
            s_add(E, r, x)
        return r

    def s_update(E, o, other):
        x, y = a_bag(E, o), a_bag(E, other)
        if x is not None or y is not None:
            E.setslot(o, "v", s_union(E, o, other).slots["v"])
            return
        for x in list_items(E, other):
            s_add(E, o, x)

    def s_discard(E, o, x):
        v = o.slots["v"]
        if hasattr(v, "sym_discard"):
            return v.sym_discard(E, o, x)
        for i, y in enumerate(v):
            if E.branch(E.truth_term(E.compare("Eq", y, x))):
                E.setslot(o, "v", v[:i] + v[i + 1:])
                return

    def s_clear(E, o):
        v = o.slots["v"]
        if hasattr(v, "sym_clear"):
            return v.sym_clear(E, o)
        E.setslot(o, "v", [])

    def s_remove(E, o, x):
        v = o.slots["v"]
        if hasattr(v, "sym_remove"):
            return v.sym_remove(E, o, x)
        for i, y in enumerate(v):
            if E.branch(E.truth_term(E.compare("Eq", y, x))):
                E.setslot(o, "v", v[:i] + v[i + 1:])
                return
        E.throw("KeyError")
    simple("set", s_new, {"add": s_add, "difference": s_difference, "union": s_union, "update": s_update, "remove": s_remove, "discard": s_discard, "clear": s_clear})
    simple("frozenset", s_new, {})

    # ---- dict
    def d_new(E, args, kw):
        d = {}
        if args:
            a = args[0]
            if isinstance(a, Obj) and a.cls is B["dict"]:
                d = dict(a.slots["v"]) if isinstance(a.slots["v"], dict) else _U("dict()")
            else:
                for p in list_items(E, a):
                    k, v = list_items(E, p)
                    d[E.key(k)] = v
        d.update(kw)
        return E.pdict(d)

    def dv(E, o):
        v = o.slots["v"]
        return v if isinstance(v, dict) else _U("symbolic dict")

    def d_get(E, o, k, dflt=None):
        r, v = E.dict_find(o, k)
        return v if r == "hit" else dflt

    def d_setdefault(E, o, k, dflt=None):
        r, v = E.dict_find(o, k)
        if r == "hit":
            return v
        E.dict_set(o, k, dflt)
        return dflt

    def d_pop(E, o, k, *dflt):
        r, v = E.dict_find(o, k)
        if r == "hit":
            E.dict_del(o, k)
            return v
        if dflt:
            return dflt[0]
        E.throw("KeyError", k)

    def d_has(E, o, k):
        return E.contains(o, k)

    def d_clear(E, o):
        v = o.slots["v"]
        if hasattr(v, "sym_clear"):
            return v.sym_clear(E, o)
        E.setslot(o, "v", {})

    def d_update(E, o, other):
        n = dict(dv(E, o))
        n.update(dv(E, other))
        E.setslot(o, "v", n)

    def d_values(E, o):
        v = o.slots["v"]
        if hasattr(v, "sym_values"):
            return v.sym_values(E, o)
        return E.plist(list(dv(E, o).values()))
    simple("dict", d_new, {
        "get": d_get, "setdefault": d_setdefault, "pop": d_pop, "has_key": d_has, "clear": d_clear, "update": d_update,
        "keys": lambda E, o: E.plist(list(dv(E, o).keys())), "values": d_values,
        "items": lambda E, o: E.plist([(k, v) for k, v in dv(E, o).items()]),
        "iteritems": lambda E, o: E.plist([(k, v) for k, v in dv(E, o).items()]),
        "itervalues": d_values, "iterkeys": lambda E, o: E.plist(list(dv(E, o).keys())),
        "copy": lambda E, o: E.pdict(dict(dv(E, o)))})

    # ---- scalars
    def int_new(E, args, kw):
        if not args:
            return 0
        v = args[0]
        if is_str(v):
            if len(args) > 1:
                _U("int base")
            return strings.to_int(E, v)
        if is_int(v) or is_boolish(v):
            return E.as_int(v)
        if isinstance(v, float):
            return int(v)
        if v is None:
            E.throw("TypeError", "int()")
        m = getattr(v.cls, "methods", None) if isinstance(v, Obj) else None
        if m and "__int__" in m:
            return m["__int__"](E, v)
        _U("int(%r)" % (v,))
    simple("int", int_new)
    simple("long", int_new)
    simple("str", lambda E, a, k: strings.to_str(E, a[0]) if a else "")
    simple("unicode", lambda E, a, k: strings.to_str(E, a[0]) if a else "")
    simple("basestring", lambda E, a, k: _U("basestring()"))
    simple("bool", lambda E, a, k: E.truth_term(a[0]) if a else False)
    simple("float", lambda E, a, k: float(a[0]) if isinstance(a[0], (int, float, str)) else to_float(E, a[0]))

    def tuple_new(E, args, kw):
        if not args:
            return ()
        it = E.iter_items(args[0])
        if isinstance(it, tuple) and it[0] == "abs" and hasattr(it[1], "term"):
            from .vallist import VTuple
            return VTuple(it[1])
        if isinstance(it, tuple) and len(it) == 2 and it[0] in ("abs", "emit"):
            return it[1]
        if isinstance(it, tuple) and it[0] == "seq":
            return SymSeq(it[1].kind, it[1].term, it[1].mk)
        return tuple(list_items(E, args[0]))
    simple("tuple", tuple_new)
    simple("property", None)
    B["staticmethod"] = Builtin("staticmethod", lambda E, a, k: mkkind(a[0], "static"))
    B["classmethod"] = Builtin("classmethod", lambda E, a, k: mkkind(a[0], "class"))
    B["property"] = Builtin("property", lambda E, a, k: mkkind(a[0], "property"))

    def mkkind(f, kind):
        f.kind = kind
        return f

    def type_of(E, v):
        if isinstance(v, bool) or isinstance(v, z3.BoolRef):
            return B["bool"]
        if is_int(v):
            return B["int"]
        if is_str(v):
            return B["str"]
        if isinstance(v, float):
            return B["float"]
        if isinstance(v, tuple):
            return B["tuple"]
        if isinstance(v, Obj):
            return v.cls
        if isinstance(v, PyClass):
            return B["object"]
        if v is None:
            return B["object"]
        _U("type of %r" % (v,))
    E.type_of = type_of

    def isinst(E, args, kw):
        v, cl = args
        cls = cl if isinstance(cl, tuple) else (cl,)
        if isinstance(v, Opaque):
            _U("isinstance of opaque")
        for c in cls:
            if isinstance(c, Opaque):
                continue
            if c is B["object"]:
                return True
            if v is None:
                continue
            t = type_of(E, v)
            if t is c or (isinstance(t, PyClass) and t.issub(c)):
                return True
            if c is B["basestring"] and is_str(v):
                return True
            if c is B["int"] and t is B["bool"]:
                return True
            if c is B["long"] and t is B["int"]:
                # Python 2 ints are not longs (until they overflow)
                continue
        return False
    fn = {}
    fn["isinstance"] = isinst

    def len_(E, a, k):
        v = a[0]
        if is_str(v):
            return strings.length(E, v)
        if isinstance(v, tuple):
            return len(v)
        if hasattr(v, "sym_len"):
            return v.sym_len(E)
        if isinstance(v, Obj) and v.cls in (B["list"], B["set"], B["dict"]):
            x = v.slots["v"]
            if isinstance(x, SymSeq):
                return z3.Length(x.term)
            if hasattr(x, "sym_len"):
                return x.sym_len(E)
            return len(x)
        if isinstance(v, Obj):
            f = v.cls.lookup("__len__")[0]
            if f is not None:
                return E.call(Bound(f, v), [], {})
        if v is None or is_int(v):
            E.throw("TypeError", "len()")
        _U("len of %r" % (v,))
    fn["len"] = len_

    def range_(E, a, k):
        lo, hi, step = 0, None, 1
        if len(a) == 1:
            hi = a[0]
        else:
            lo, hi = a[0], a[1]
            if len(a) > 2:
                step = a[2]
        if all(isinstance(x, int) for x in (lo, hi, step)):
            if step == 1 and hi - lo > 8 and E.stubs.get("range") is not None:
                return E.stubs["range"](E, lo, hi)
            return E.plist(list(range(lo, hi, step)))
        if not isinstance(step, int):
            _U("range step")
        if step == 1 and E.stubs.get("range:symbolic") is not None:
            return E.stubs["range:symbolic"](E, E.z(lo), E.z(hi))
        return RangeIter(lo, hi, step)
    fn["range"] = fn["xrange"] = range_

    def enumerate_(E, a, k):
        st = a[1] if len(a) > 1 else 0
        items = E.iter_items(a[0])
        if not isinstance(items, list):
            if items[0] == "seq":
                return EnumIter(items[1])
            if items[0] == "abs" and items[1].at is not None:
                from .vallist import Enum
                return E.plist(Enum(E, items[1], st))
            _U("enumerate of a symbolic sequence")
        return E.plist([(i + st, x) for i, x in enumerate(items)])
    fn["enumerate"] = enumerate_
    def zip_(E, a, k):
        its = [E.iter_items(x) for x in a]
        if its and all(isinstance(i, tuple) and i[0] == "abs" and i[1].at is not None for i in its):
            from .vallist import Zip
            return E.plist(Zip(E, [i[1] for i in its]))
        return E.plist([tuple(t) for t in zip(*[list_items(E, x) for x in a])])
    fn["zip"] = zip_
    fn["reversed"] = lambda E, a, k: E.plist(list(reversed(list_items(E, a[0]))))
    fn["iter"] = lambda E, a, k: a[0]
    fn["hash"] = lambda E, a, k: hash_(E, a[0])

    def hash_(E, v):
        if isinstance(v, HashVal):
            return v
        if isinstance(v, Obj) and v.cls not in (B["list"], B["dict"], B["set"]):
            f = v.cls.lookup("__hash__")[0]
            if f is not None:
                return E.call(Bound(f, v), [], {})
            return HashVal(v) if hasattr(v.slots.get("v"), "sym_eq") else HashVal(("id", v))
        return HashVal(v)

    def abs_(E, a, k):
        v = E.as_int(a[0])
        if isinstance(v, (int, float)):
            return abs(v)
        return z3.If(v >= 0, v, -v)
    fn["abs"] = abs_
    fn["divmod"] = lambda E, a, k: (E.binop("FloorDiv", a[0], a[1]), E.binop("Mod", a[0], a[1]))
    fn["cmp"] = lambda E, a, k: E.cmp_(a[0], a[1])

    def minmax(E, a, k, op):
        xs = list_items(E, a[0]) if len(a) == 1 else list(a)
        if not xs:
            E.throw("ValueError", "empty sequence")
        r = xs[0]
        for x in xs[1:]:
            c = E.truth_term(E.compare("Lt", x, r) if op == "min" else E.compare("Gt", x, r))
            if isinstance(c, bool):
                r = x if c else r
            elif is_int(x) and is_int(r):
                r = z3.If(c, E.z(x), E.z(r))
            else:
                r = x if E.branch(c) else r
        return r
    fn["min"] = lambda E, a, k: minmax(E, a, k, "min")
    fn["max"] = lambda E, a, k: minmax(E, a, k, "max")

    def sum_(E, a, k):
        r = a[1] if len(a) > 1 else 0
        for x in list_items(E, a[0]):
            r = E.binop("Add", r, x)
        return r
    fn["sum"] = sum_
    fn["any"] = lambda E, a, k: E.any_([E.truth_term(x) for x in list_items(E, a[0])])
    fn["all"] = lambda E, a, k: E.all_([E.truth_term(x) for x in list_items(E, a[0])])

    def sorted_(E, a, k):
        names = ["cmp", "key", "reverse"]
        kk = dict(zip(names, a[1:]))
        kk.update(k)
        items = E.iter_items(a[0])
        if not isinstance(items, list):
            if items[0] == "bag":
                return E.plist(items[1].sorted(E, kk.get("cmp"), kk.get("key"), kk.get("reverse", False)))
            h = E.stubs.get("sorted")
            if h is not None:
                return h(E, items, kk)
            if items[0] == "abs" and hasattr(items[1], "sorted") and not any(v for v in kk.values()):
                return E.plist(items[1].sorted(E))
            _U("sorted of a symbolic sequence")
        return E.plist(sort_items(E, items, kk.get("cmp"), kk.get("key"), kk.get("reverse", False)))
    fn["sorted"] = sorted_

    def map_(E, a, k):
        if a[0] is None:
            return E.plist(list_items(E, a[1]))
        return E.plist([E.call(a[0], list(t), {}) for t in zip(*[list_items(E, x) for x in a[1:]])])
    fn["map"] = map_

    def filter_(E, a, k):
        it = E.iter_items(a[1])
        if E.stubs.get("filter") is not None:
            return E.stubs["filter"](E, a[0], it, a[1])
        return E.plist([x for x in list_items(E, a[1]) if E.truth(E.call(a[0], [x], {}) if a[0] is not None else x)])
    fn["filter"] = filter_

    def reduce_(E, a, k):
        xs = list_items(E, a[1])
        if len(a) > 2:
            r = a[2]
        else:
            r = xs.pop(0)
        for x in xs:
            r = E.call(a[0], [r, x], {})
        return r
    fn["reduce"] = reduce_

    def getattr_(E, a, k):
        from .interp import MISSING
        return E.getattr_(a[0], a[1], a[2] if len(a) > 2 else MISSING)
    fn["getattr"] = getattr_

    def hasattr_(E, a, k):
        m = object()
        return E.getattr_(a[0], a[1], m) is not m
    fn["hasattr"] = hasattr_
    fn["setattr"] = lambda E, a, k: E.setattr_(a[0], a[1], a[2])
    fn["id"] = lambda E, a, k: a[0].oid if isinstance(a[0], Obj) else _U("id()")
    fn["ord"] = lambda E, a, k: ord(a[0]) if isinstance(a[0], str) else (a[0].pieces[0] if isinstance(a[0], SStr) and len(a[0].pieces) == 1 and not isinstance(a[0].pieces[0], NumTok) else _U("ord"))

    def chr_(E, a, k):
        if isinstance(a[0], int):
            return chr(a[0])
        return SStr([a[0]])
    fn["chr"] = chr_
    fn["repr"] = lambda E, a, k: repr(a[0]) if isinstance(a[0], (str, int, type(None))) else _U("repr")
    fn["callable"] = lambda E, a, k: isinstance(a[0], (PyFunc, Bound, Builtin, PyClass))

    def type_(E, a, k):
        return type_of(E, a[0])
    fn["type"] = type_
    for n, f in fn.items():
        B[n] = Builtin(n, f)


class EnumIter(object):
    """enumerate() over a symbolic sequence"""
    def __init__(self, seq):
        self.seq = seq

    def sym_iter(self, E):
        return ("enum", self.seq)


# ---------------------------------------------------------------- standard library stubs
def stringio_class(E):
    c = getattr(E, "_sio", None)
    if c is not None:
        return c
    c = PyClass("StringIO", [E.builtins["object"]], {}, None)

    def construct(E, args, kw):
        o = E.obj(c)
        h = getattr(E.S, "stringio", None)
        o.slots["buf"] = args[0] if args else (h(E, o) if h else "")
        o.slots["pos"] = 0
        return o

    def write(E, o, s):
        if not is_str(s):
            if s is None or is_int(s):
                E.throw("TypeError", "write")
            _U("write of %r" % (s,))
        E.setslot(o, "buf", strings.concat(E, o.slots["buf"], s))

    def getvalue(E, o):
        return o.slots["buf"]

    def readline(E, o):
        b = o.slots["buf"]
        if not isinstance(b, str):
            if hasattr(E, "readline_hook"):
                return E.readline_hook(E, o)
            _U("readline on a symbolic buffer")
        p = o.slots["pos"]
        q = b.find("\n", p)
        q = len(b) if q < 0 else q + 1
        E.setslot(o, "pos", q)
        return b[p:q]
    c.construct = construct
    c.methods = {"write": write, "getvalue": getvalue, "readline": readline, "close": lambda E, o: None}
    E._sio = c
    return c


def st_stringio(E, m):
    m.slots["StringIO"] = stringio_class(E)


def st_opaque(E, m):
    m.opaque = True


def st_os(E, m):
    m.opaque = True


def st_collections(E, m):
    def dd(E, a, k):
        o = E.pdict({})
        o.slots["factory"] = a[0] if a else None
        return o
    m.slots["defaultdict"] = Builtin("defaultdict", dd)
    m.opaque = True


STUBS = {"collections": st_collections, "cStringIO": st_stringio, "StringIO": st_stringio}
