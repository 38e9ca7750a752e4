# Shared by the bounded stand-in harnesses (Jython).  argv: SRC PROP SEED SECONDS OUT.json SCRATCH
import sys
sys.dont_write_bytecode = True
import json
import os
import threading
import random
import time
import traceback

SRC, PROP, SEED, SECONDS, OUT, SCRATCH = sys.argv[1:7]
sys.path.insert(0, SRC)
SEED = int(SEED)
SECONDS = float(SECONDS)
T0 = time.time()
OPEN = open     # a harness may replace the builtin


class Harness(object):
    """Runs groups of cases; every group has a stated bound and a share of the time."""

    def __init__(self):
        self.n = 0
        self.distinct = set()
        self.failures = []
        self.sigs = {}
        self.samples = []
        self.groups = {}
        self.rules = []
        self.rng = random.Random(SEED)
        self.end = None
        self.group = ""
        self.now = None
        self.lock = threading.Lock()
        t = threading.Thread(target=self.watch)
        t.setDaemon(True)
        t.start()

    def watch(self):
        """a case that does not end is a failure"""
        while True:
            time.sleep(1)
            c = self.now
            if c is not None and time.time() - c[0] > 60:
                self.fail("a case does not end", {"case": repr(c[1])[:1500]})
                self.done()
                os._exit(0)

    def left(self):
        return time.time() < self.end

    def run(self, name, rule, fn, share):
        self.group = name
        self.rules.append("%s: %s" % (name, rule))
        self.end = time.time() + SECONDS * share
        self.rng = random.Random("%s/%s" % (SEED, name))
        n0 = self.n
        self.now = None
        t = time.time()
        try:
            fn(self)
        except Exception:
            self.fail("uncaught error", {"case": repr(self.now)[:600], "trace": traceback.format_exc()[-1200:]})
        self.now = None
        self.groups[name] = {"evaluations": self.n - n0, "seconds": round(time.time() - t, 2)}

    def case(self, key, nontrivial=True):
        self.n += 1
        self.now = (time.time(), key)
        if nontrivial and len(self.distinct) < 2000000:
            self.distinct.add(hash((self.group, key)))
        if len(self.samples) < 12 and self.rng.random() < 0.01:
            self.samples.append("%s: %r" % (self.group, key))

    def fail(self, what, data):
        sig = "bounded:%s:%s" % (self.group, what)
        k = self.sigs.get(sig, 0)
        self.sigs[sig] = k + 1
        if k == 0:
            self.failures.append(dict(data, sig=sig, what=what, group=self.group))

    def check(self, cond, what, **data):
        if not cond:
            self.fail(what, dict([(k, repr(v)) for k, v in data.items()]))
        return cond

    def attempt(self, what, f, *args):
        """call; an exception is a failure of the case"""
        try:
            return True, f(*args)
        except Exception:
            self.fail(what + " raised", {"args": repr(args)[:600], "trace": traceback.format_exc()[-800:]})
            return False, None

    def done(self):
        self.lock.acquire()
        for f in self.failures:
            f["count"] = self.sigs[f["sig"]]
        res = {"evaluations": self.n, "distinct": len(self.distinct), "rule": "; ".join(self.rules), "groups": self.groups,
               "samples": [plain(x) for x in self.samples], "failures": plain(self.failures), "seconds": round(time.time() - T0, 2)}
        text = json.dumps(res)
        f = OPEN(OUT + ".tmp", "wb")
        f.write(text)
        f.close()
        os.rename(OUT + ".tmp", OUT)


def plain(x):
    """only values the JSON encoder can always write"""
    if isinstance(x, dict):
        return dict([(plain(k), plain(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return [plain(i) for i in x]
    if x is None or isinstance(x, (bool, int, long, float)):
        return x
    if isinstance(x, str):
        return x.decode("latin-1")
    if isinstance(x, unicode):
        return x
    return repr(x).decode("latin-1")


H = Harness()


def product(alphabet, n):
    if n == 0:
        yield []
        return
    for p in product(alphabet, n - 1):
        for a in alphabet:
            yield p + [a]
