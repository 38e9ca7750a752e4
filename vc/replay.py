"""Concrete side: run real functions under Jython and evaluate contracts on the outcome."""
import json
import os
import random
import subprocess
import tempfile
import time
from .values import *
from .verify import Driver, PreFail
from .interp import Unsupported, PyRaise, PathEnd

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Sampler(object):
    """draws values for the inputs a contract asks for"""
    ints = ()
    strs = ()

    def __init__(self, rng):
        self.rng = rng
        self.s = None
        self.drawn = {}
        self.mode = None
        self.source = {}

    def __getitem__(self, name):
        if name in self.drawn:
            return self.drawn[name]
        r = self.s.ranges[name]
        v = self.correlated(name, r) if r[0] in ("int", "bool") else None
        if v is None:
            v = self.draw(r)
        if r[0] == "int" and name.endswith("Year") and abs(v) > 20000 and r[1] is None and r[2] is None:
            v = v % 20000
        self.drawn[name] = v
        return v

    def mutated(self, seeds, al):
        """a well-formed text with a few random edits"""
        g = self.rng
        s = list(g.choice(seeds))
        for i in range(g.choice((0, 0, 1, 1, 1, 2, 3))):
            k = g.randrange(5)
            p = g.randrange(len(s) + 1)
            c = g.choice(al) if g.random() < 0.9 else chr(g.randrange(256))
            if k == 0:
                s.insert(p, c)
            elif k == 1 and p < len(s):
                s.pop(p)
            elif k == 2 and p < len(s):
                s[p] = c
            elif k == 3 and g.random() < 0.5:
                s = s[:p]
            elif k == 4 and g.random() < 0.5:
                s.append(c)
        return "".join(s)

    def correlated(self, name, r):
        """sometimes repeat the fields of an object drawn before (equal and touching values)"""
        if self.mode is None:
            self.mode = self.rng.random() < 0.4
        if not self.mode:
            return None
        pre, _, suf = name.rpartition(".")
        if pre not in self.source:
            c = sorted(set(n.rpartition(".")[0] for n in self.drawn if n.rpartition(".")[0] != pre and n.rpartition(".")[2] == suf))
            self.source[pre] = self.rng.choice(c) if c and self.rng.random() < 0.7 else None
        q = self.source[pre]
        if q is None or self.rng.random() < 0.06:
            return None
        n = q + "." + suf if q else suf
        v = self.drawn.get(n)
        if v is None or (r[0] == "bool") != isinstance(v, bool) or isinstance(v, str):
            return None
        if r[0] == "int" and ((r[1] is not None and v < r[1]) or (r[2] is not None and v > r[2])):
            return None
        return v

    def draw(self, r):
        g = self.rng
        if r[0] == "bool":
            return g.random() < 0.5
        if r[0] == "choice":
            return g.randrange(r[1])
        if r[0] == "char":
            al = r[1]
            if al and g.random() < 0.9:
                return ord(g.choice(al))
            return g.randrange(256)
        if r[0] == "text":
            al = r[2] or "ab,;\\\r\n:\"^' x"
            if isinstance(al, tuple):
                return self.mutated(al[0], al[1])
            n = g.randrange(r[1] + 1)
            if self.strs and g.random() < 0.25:
                return "".join(g.choice(self.strs) if g.random() < 0.4 else g.choice(al) for _ in range(n))
            return "".join(g.choice(al) if g.random() < 0.95 else chr(g.randrange(256)) for _ in range(n))
        lo, hi, small = r[1], r[2], r[3]
        a = lo if lo is not None else (small[0] if small else -100)
        b = hi if hi is not None else (small[1] if small else 100)
        if small:
            a, b = max(a, small[0]), min(b, small[1])
        if a > b:
            a, b = (lo if lo is not None else -100), (hi if hi is not None else 100)
        x = g.random()
        if self.ints and g.random() < 0.12:
            v = g.choice(self.ints) + g.choice((0, 0, 1, -1))
            v = g.choice((1, 1, 1, -1)) * v
            if (lo is None or v >= lo) and (hi is None or v <= hi):
                return v
        if x < 0.15:
            return g.choice([a, b, a + 1, b - 1] + [v for v in (0, 1, -1) if a <= v <= b])
        if x < 0.2 and lo is None and hi is None:
            return g.choice([-1, 1]) * g.randrange(10 ** g.randrange(1, 7))
        return g.randint(a, b)


class Enc(object):
    def __init__(self):
        self.seen = {}

    def enc(self, v, E):
        if v is None or isinstance(v, (bool, int, float)):
            return v
        if isinstance(v, str):
            return {"s": [ord(c) for c in v]}
        if isinstance(v, tuple):
            return {"t": [self.enc(x, E) for x in v]}
        if isinstance(v, PyClass):
            return {"cls": v.qual}
        if isinstance(v, Obj):
            if v.oid in self.seen:
                return {"r": v.oid}
            self.seen[v.oid] = 1
            if v.cls is E.builtins["list"]:
                if not isinstance(v.slots["v"], list):
                    raise Unsupported("encode symbolic list")
                return {"l": [self.enc(x, E) for x in v.slots["v"]], "id": v.oid}
            if v.cls is E.builtins["dict"]:
                return {"d": [[self.enc(k, E), self.enc(x, E)] for k, x in v.slots["v"].items()]}
            if v.cls is E.builtins["set"]:
                return {"set": [self.enc(x, E) for x in v.slots["v"]]}
            if v.cls.qual is None:
                return {"o": v.oid, "c": "$" + v.cls.name, "f": dict((k, self.enc(x, E)) for k, x in v.slots.items())}
            return {"o": v.oid, "c": v.cls.qual, "f": dict((k, self.enc(x, E)) for k, x in v.slots.items())}
        raise Unsupported("encode %r" % (v,))


class Dec(object):
    def __init__(self, E):
        self.E = E
        self.objs = {}

    def dec(self, j):
        E = self.E
        if j is None or isinstance(j, (bool, int, float)):
            return j
        if "s" in j:
            return "".join(chr(c) for c in j["s"])
        if "l" in j:
            return E.plist([self.dec(x) for x in j["l"]])
        if "t" in j:
            return tuple(self.dec(x) for x in j["t"])
        if "set" in j:
            return E.pset([self.dec(x) for x in j["set"]])
        if "d" in j:
            return E.pdict(dict((self.hk(self.dec(k)), self.dec(v)) for k, v in j["d"]))
        if "cls" in j:
            return E.find_qual(j["cls"]) or Opaque(j["cls"])
        if "r" in j:
            return self.objs[j["r"]]
        if "o" in j:
            if j["c"] == "$StringIO":
                from .builtins_ import stringio_class
                cls = stringio_class(E)
            else:
                cls = E.find_qual(j["c"])
            if cls is None:
                return Opaque(j["c"])
            o = E.obj(cls)
            self.objs[j["o"]] = o
            for k, v in j["f"].items():
                o.slots[k] = self.dec(v)
            return o
        return Opaque(str(j.get("x")))

    def hk(self, k):
        try:
            hash(k)
            return k
        except TypeError:
            return ("?", id(k))


def jython_cases(src, cases, timeout=600, tmp=None):
    """run the cases in one interpreter; a case that does not end is reported as such and the rest continue"""
    d = tempfile.mkdtemp(prefix="vcrun")
    out = []
    end = time.time() + timeout
    try:
        fi, fo = os.path.join(d, "in.json"), os.path.join(d, "out.json")
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
        hangs = 0
        while len(out) < len(cases):
            if time.time() > end or hangs >= 4:
                out.extend([{"error": "not run"}] * (len(cases) - len(out)))
                break
            json.dump(cases[len(out):], open(fi, "w"))
            if os.path.exists(fo):
                os.unlink(fo)
            p = subprocess.run(["jython", "-B", os.path.join(HERE, "jy", "run_cases.py"), src, fi, fo], env=env, cwd=d,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=max(60, end - time.time()))
            if not os.path.exists(fo):
                raise RuntimeError("jython driver failed: %s" % p.stdout.decode("latin-1")[-2000:])
            r = json.load(open(fo))
            if len(r) < len(cases) - len(out):
                hangs += 1
                r.append({"exc": "DoesNotTerminate", "excargs": "", "ret": None, "args": cases[len(out) + len(r)]["args"]})
            out.extend(r)
        return out
    finally:
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        os.rmdir(d)


def make_case(E, drv, c, inputs):
    """-> (case, state) or None when the precondition fails"""
    s = drv.concrete_args(E, c, inputs)
    if s is None:
        return None
    if c.run is not None:
        return None
    en = Enc()
    f = E.find_qual(c.qual)
    kind = f.kind if f is not None else "func"
    try:
        case = {"qual": c.qual, "args": [en.enc(a, E) for a in s.args], "kind": kind}
    except Unsupported:
        return None
    if getattr(c, "jpre", None):
        case["pre"] = c.jpre
    if getattr(c, "jpost", None):
        case["post"] = c.jpost
    return case, s


def concretise(inputs):
    """solver model -> forced inputs (sequences become strings)"""
    out = {}
    for k, v in inputs.items():
        if isinstance(v, list):
            out[k] = "".join(chr(x) if 0 <= x < 256 else "?" for x in v)
        else:
            out[k] = v
    return out


class Forced(dict):
    """model values; inputs the model does not mention get a default"""
    def __init__(self, d, s=None):
        dict.__init__(self, d)
        self.s = s

    def __missing__(self, name):
        r = self.s.ranges[name]
        v = {"bool": False, "choice": 0, "char": 97, "text": "", "int": 0}[r[0]]
        if r[0] == "int" and r[1] is not None:
            v = r[1]
        self[name] = v
        return v


def sample_inputs(E, drv, c, n, rng):
    out = []
    tries = 0
    while len(out) < n and tries < n * 60:
        tries += 1
        sm = Sampler(rng)
        r = make_case_with(E, drv, c, sm)
        if r is not None:
            out.append((r[0], dict(sm.drawn)))
    return out


def make_case_with(E, drv, c, forced):
    from . import verify
    orig = verify.S

    class S2(orig):
        def __init__(self, E):
            orig.__init__(self, E)
            forced.s = self
    verify.S = S2
    try:
        return make_case(E, drv, c, forced)
    finally:
        verify.S = orig


def evaluate(E, drv, c, inputs, outcome):
    """evaluate the contract on a real outcome -> list of failed obligations"""
    fo = Forced(inputs)
    r = make_case_with(E, drv, c, fo)
    if r is None:
        return None
    s = r[1]
    if "error" in outcome:
        if outcome["error"] == "not run":
            return None
        return [("harness error " + outcome["error"], None)]
    if outcome["exc"] == "DoesNotTerminate":
        return [("the call terminates", None)]
    d = Dec(E)
    args = [d.dec(a) for a in outcome["args"]]
    ret = d.dec(outcome["ret"])
    if hasattr(c, "after"):
        c.after(E, s, args, ret)
    return drv.concrete_post(E, c, s, args, ret, outcome["exc"], (outcome.get("excargs", ""),))


def engine_run(E, drv, c, inputs):
    """execute the same call in the symbolic interpreter, concretely, without contracts or stubs for repo functions"""
    fo = Forced(inputs)
    r = make_case_with(E, drv, c, fo)
    if r is None:
        return None
    s = r[1]
    f = E.find_qual(c.qual)
    reg, drv.registry = drv.registry, {}
    stubs = E.stubs
    E.stubs = dict(E.base_stubs) if hasattr(E, "base_stubs") else E.stubs
    E.deadline = None
    try:
        exc, val = None, None
        try:
            drv.root_active = True
            val = E.call_func(f, list(s.args), {}, root=True)
        except PyRaise as e:
            exc = e.exc.cls.name
        return exc, val, s.args
    finally:
        drv.registry = reg
        E.stubs = stubs


def same_value(E, a, b, depth=0, seen=None):
    """structural comparison of an engine value with a decoded real value"""
    seen = seen if seen is not None else set()
    if isinstance(a, Obj) and isinstance(b, Obj):
        if (id(a), id(b)) in seen:
            return True
        seen.add((id(a), id(b)))
        if a.cls is not b.cls:
            return False
        if a.cls in (E.builtins["list"],):
            x, y = a.slots["v"], b.slots["v"]
            return len(x) == len(y) and all(same_value(E, p, q, depth + 1, seen) for p, q in zip(x, y))
        if a.cls is E.builtins["set"]:
            return len(a.slots["v"]) == len(b.slots["v"])
        if a.cls is E.builtins["dict"]:
            return len(a.slots["v"]) == len(b.slots["v"])
        for k in a.slots:
            if k in ("pos", "mPosixTime", "mPosixTimeCached", "mTZOffset"):     # (caches)
                continue
            if k not in b.slots or not same_value(E, a.slots[k], b.slots[k], depth + 1, seen):
                return False
        return True
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_value(E, p, q, depth + 1, seen) for p, q in zip(a, b))
    if isinstance(a, HashVal) or isinstance(b, Opaque):
        return True
    if isinstance(a, (bool, int)) and isinstance(b, (bool, int)):
        return a == b
    if a is None or b is None:
        return a is b
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if isinstance(a, PyClass):
        return a is b
    import z3
    if isinstance(a, z3.ExprRef):
        a = z3.simplify(a)
        if z3.is_int_value(a):
            return a.as_long() == b
        if z3.is_true(a) or z3.is_false(a):
            return z3.is_true(a) == b
    return None
