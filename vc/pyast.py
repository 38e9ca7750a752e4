"""Load the AST JSON written by jy/dump_ast.py (the interpreter's own parser)."""
import hashlib
import json


class Node(object):
    __slots__ = ("t", "f", "uid")
    _next = [0]

    def __init__(self, t, f):
        self.t = t
        self.f = f
        Node._next[0] += 1
        self.uid = Node._next[0]

    def __getattr__(self, k):
        try:
            return self.f[k]
        except KeyError:
            raise AttributeError("%s.%s" % (self.t, k))

    @property
    def line(self):
        return self.f.get("lineno", 0)

    def __repr__(self):
        return "<%s@%s>" % (self.t, self.f.get("lineno"))


def build(j):
    if isinstance(j, list):
        if j and j[0] == "list" and len(j) == 2 and isinstance(j[1], list):
            return [build(x) for x in j[1]]
        if len(j) == 2 and isinstance(j[1], dict):
            t, f = j
            if t == "Num":
                k, v = f["n"]
                return Node("Num", {"n": int(v) if k == "int" else float(v), "lineno": f.get("lineno", 0)})
            if t == "Str":
                k, v = f["s"]
                return Node("Str", {"s": "".join(chr(c) for c in v), "lineno": f.get("lineno", 0)})
            return Node(t, dict((k, build(v)) for k, v in f.items()))
        raise ValueError("bad ast json %r" % (j,)[:1])
    return j


def load(path):
    d = json.load(open(path))
    out = {}
    for m, j in d.items():
        out[m] = j
    return out


def walk(n):
    if isinstance(n, Node):
        yield n
        for v in n.f.values():
            for x in walk(v):
                yield x
    elif isinstance(n, list):
        for v in n:
            for x in walk(v):
                yield x


def strip(j):
    """AST JSON without positions and docstrings"""
    if isinstance(j, list):
        if len(j) == 2 and isinstance(j[1], dict) and isinstance(j[0], str):
            f = dict((k, strip(v)) for k, v in j[1].items() if k not in ("lineno", "ctx"))
            if j[0] in ("FunctionDef", "ClassDef", "Module") and isinstance(f.get("body"), list) and len(f["body"]) == 2 and f["body"][0] == "list":
                b = f["body"][1]
                if b and b[0][0] == "Expr" and b[0][1]["value"][0] == "Str":
                    f["body"] = ["list", b[1:]]
            return [j[0], f]
        return [strip(x) for x in j]
    return j


def functions(mods):
    """qualified name -> AST JSON of every function of the tree"""
    out = {}

    def rec(prefix, body):
        for n in body[1]:
            if n[0] == "FunctionDef":
                out[prefix + "." + n[1]["name"]] = n
            elif n[0] == "ClassDef":
                rec(prefix + "." + n[1]["name"], n[1]["body"])
    for m, j in mods.items():
        if j[0] == "Module":
            rec(m, j[1]["body"])
    return out


def fhash(j):
    return hashlib.sha256(json.dumps(strip(j), sort_keys=True).encode()).hexdigest()[:16]


def constants(j, ints, strs):
    """integer and string literals of an AST"""
    if isinstance(j, list):
        if len(j) == 2 and isinstance(j[1], dict):
            if j[0] == "Num" and j[1]["n"][0] == "int":
                ints.add(int(j[1]["n"][1]))
                return
            if j[0] == "Str":
                s = "".join(chr(c) for c in j[1]["s"][1])
                if 0 < len(s) < 12:
                    strs.add(s)
                return
            for v in j[1].values():
                constants(v, ints, strs)
        else:
            for v in j:
                constants(v, ints, strs)
