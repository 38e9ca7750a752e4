# Runs under Jython.  argv: SRC IN.json OUT.json
# Runs real functions of the repository on concrete arguments and reports the outcome.
import sys
sys.dont_write_bytecode = True
SRC, INF, OUTF = sys.argv[1:4]
sys.path.insert(0, SRC)
import os
sys.path.append(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(sys.argv[0]))), "clients"))
import json
import cStringIO


def find(qual):
    parts = qual.split(".")
    for i in range(len(parts) - 1, 0, -1):
        mn = ".".join(parts[:i])
        try:
            __import__(mn)
        except ImportError:
            continue
        v = sys.modules[mn]
        for p in parts[i:]:
            v = getattr(v, p)
        return v
    raise ValueError(qual)


class Codec(object):
    def __init__(self):
        self.objs = {}

    def dec(self, j):
        if j is None or isinstance(j, (bool, int, long, float)):
            return j
        if "s" in j:
            return "".join([chr(c) for c in j["s"]])
        if "l" in j:
            if "id" in j and j["id"] in self.objs:
                return self.objs[j["id"]]
            r = []
            if "id" in j:
                self.objs[j["id"]] = r
            r.extend([self.dec(x) for x in j["l"]])
            return r
        if "t" in j:
            return tuple([self.dec(x) for x in j["t"]])
        if "d" in j:
            return dict([(self.dec(k), self.dec(v)) for k, v in j["d"]])
        if "set" in j:
            return set([self.dec(x) for x in j["set"]])
        if "cls" in j:
            return find(j["cls"])
        if "r" in j:
            return self.objs[j["r"]]
        if "o" in j:
            if j["c"] == "$StringIO":
                o = cStringIO.StringIO()
                b = self.dec(j["f"]["buf"])
                o.write(b)
                if j["f"].get("pos", 0) == 0 and b and j["f"].get("read"):
                    o = cStringIO.StringIO(b)
                self.objs[j["o"]] = o
                return o
            c = find(j["c"])
            try:
                o = c.__new__(c)
            except TypeError:
                import new
                o = new.instance(c)
            self.objs[j["o"]] = o
            for k, v in j["f"].items():
                setattr(o, k.encode("ascii"), self.dec(v))
            return o
        raise ValueError(j)

    def enc(self, v, depth=0, seen=None):
        if seen is None:
            seen = {}
        if v is None or isinstance(v, (bool, int, long, float)):
            return v
        if isinstance(v, str):
            return {"s": [ord(c) for c in v]}
        if isinstance(v, unicode):
            return {"s": [ord(c) for c in v.encode("utf-8")]}
        if depth > 12:
            return {"x": "deep"}
        if isinstance(v, list):
            return {"l": [self.enc(x, depth + 1, seen) for x in v]}
        if isinstance(v, tuple):
            return {"t": [self.enc(x, depth + 1, seen) for x in v]}
        if isinstance(v, (set, frozenset)):
            return {"set": [self.enc(x, depth + 1, seen) for x in v]}
        if isinstance(v, dict):
            return {"d": [[self.enc(k, depth + 1, seen), self.enc(x, depth + 1, seen)] for k, x in v.items()]}
        if id(v) in seen:
            return {"r": seen[id(v)]}
        n = len(seen) + 1
        seen[id(v)] = n
        if hasattr(v, "getvalue"):
            return {"o": n, "c": "$StringIO", "f": {"buf": self.enc(v.getvalue())}}
        if isinstance(v, type):
            return {"cls": v.__module__ + "." + v.__name__}
        c = getattr(v, "__class__", None)
        d = getattr(v, "__dict__", None)
        if d is None or c is None:
            return {"x": repr(v)}
        f = {}
        for k, x in dict(d).items():
            f[k] = self.enc(x, depth + 1, seen)
        return {"o": n, "c": c.__module__ + "." + c.__name__, "f": f}


def run(case):
    cd = Codec()
    args = [cd.dec(a) for a in case["args"]]
    f = find(case["qual"])
    out = {"exc": None, "ret": None}
    if case.get("kind") == "class":
        a = args[1:]
    else:
        a = args
    if case.get("pre"):
        exec case["pre"] in {}
    seen = {}
    try:
        try:
            r = f(*a)
        finally:
            if case.get("post"):
                exec case["post"] in {}
    except Exception, e:
        out["exc"] = e.__class__.__name__
        out["excargs"] = repr(e)[:300]
        r = None
    out["args"] = [cd.enc(x, 0, seen) for x in args]
    out["ret"] = cd.enc(r, 0, seen)
    return out


LIMIT = 25.0
import threading
import time
state = {"t": time.time(), "n": -1}
res = []
lock = threading.Lock()


def dump():
    f = open(OUTF + ".tmp", "w")
    f.write(json.dumps(res))
    f.close()
    os.rename(OUTF + ".tmp", OUTF)


def watch():
    from java.lang import Runtime
    while True:
        time.sleep(1)
        lock.acquire()
        try:
            if time.time() - state["t"] > LIMIT and state["n"] == len(res):
                dump()
                Runtime.getRuntime().halt(0)
        finally:
            lock.release()


cases = json.load(open(INF))
th = threading.Thread(target=watch)
th.setDaemon(True)
th.start()
for i, c in enumerate(cases):
    lock.acquire()
    state["t"] = time.time()
    state["n"] = i
    lock.release()
    try:
        r = run(c)
    except Exception, e:
        r = {"error": repr(e)}
    except:
        r = {"error": "java:" + repr(sys.exc_info()[1])[:300]}
    lock.acquire()
    res.append(r)
    lock.release()
dump()
from java.lang import Runtime
Runtime.getRuntime().halt(0)
