"""Runs under Jython: parse every module of the tree under verification with the
interpreter's own parser and write its AST as JSON.  argv: SRC_ROOT OUT_FILE"""
import ast, os, sys, json

def conv(n):
    if isinstance(n, ast.AST):
        d = [n.__class__.__name__]
        f = {}
        for name in n._fields:
            f[name] = conv(getattr(n, name, None))
        if hasattr(n, "lineno"):
            f["lineno"] = int(n.lineno)
        if d[0] == "Num":
            v = n.n
            if isinstance(v, (int, long)):
                f["n"] = ["int", str(v)]
            else:
                f["n"] = ["float", repr(v)]
        elif d[0] == "Str":
            v = n.s
            if isinstance(v, unicode):
                f["s"] = ["u", [ord(c) for c in v]]
            else:
                f["s"] = ["s", [ord(c) for c in v]]
        d.append(f)
        return d
    if isinstance(n, (list, tuple)):
        return ["list", [conv(x) for x in n]]
    if n is None or isinstance(n, bool):
        return n
    if isinstance(n, (int, long)):
        return int(n)
    return str(n)

def main(src, out):
    res = {}
    for base, dirs, files in os.walk(src):
        dirs[:] = [d for d in dirs if d != "tests" and not d.startswith(".")]
        for f in files:
            if not f.endswith(".py"):
                continue
            p = os.path.join(base, f)
            rel = os.path.relpath(p, src)[:-3].replace(os.sep, ".")
            if rel.endswith(".__init__"):
                rel = rel[:-9]
            try:
                t = ast.parse(open(p, "rb").read(), p)
                res[rel] = conv(t)
            except SyntaxError, e:
                res[rel] = ["SyntaxError", str(e)]
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "clients")
    for f in sorted(os.listdir(here)):
        if f.endswith(".py"):
            res[f[:-3]] = conv(ast.parse(open(os.path.join(here, f), "rb").read(), f))
    o = open(out, "w")
    json.dump(res, o)
    o.close()

main(sys.argv[1], sys.argv[2])
