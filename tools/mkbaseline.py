"""Record which contracts the verifier accepts on the current tree and the code they cover."""
import json, os, sys, subprocess, tempfile, multiprocessing, random
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from vc import main as M
M.BASE = {}
old = M.load_base()
only = sys.argv[1:]
tmp = tempfile.mkdtemp()
ast = os.path.join(tmp, "ast.json")
subprocess.check_call(["jython", "-B", os.path.join(HERE, "jy", "dump_ast.py"), "/repo/src", ast], env=M.ENV, stdout=subprocess.DEVNULL)
M.ENGINE = M.Engine(ast)
M.CS = [c for c in M.ENGINE.contracts if not only or set(only) & set(c.props)]
out = dict((k, v) for k, v in old.items() if only and k in set(c.name for c in M.ENGINE.contracts) and k not in set(c.name for c in M.CS))


def job(i):
    c = M.CS[i]
    d = M.Driver(M.ENGINE.registry)
    r = d.verify(M.ENGINE.E, c, 400)
    f = M.ENGINE.E.find_qual(c.qual) if c.run is None else None
    names = [a.id for a in f.node.args.args if a.t == "Name"] if f is not None else None
    return sorted(r.assumed), names, c.name, r.status, r.why, round(r.wall, 1), r.total, dict((q, M.ENGINE.hash(q)) for q in M.ENGINE.used(c, r) if q in M.ENGINE.funcs)


cn = [c.name for c in M.ENGINE.contracts]
assert len(cn) == len(set(cn)), [n for n in cn if cn.count(n) > 1]
with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=4) as pool:
    for asm, names, n, st, why, w, tot, f in pool.imap_unordered(job, range(len(M.CS)), chunksize=1):
        out[n] = {"status": st, "functions": f, "params": names, "assumed": asm}
        if st != "proved" or w > 60:
            print("%-60s %s %ss %s %s" % (n, st, w, tot, why[:150]))
out["*"] = dict((q, M.ENGINE.hash(q)) for q in M.ENGINE.funcs)
json.dump(out, open(os.path.join(HERE, "contracts", "baseline.json"), "w"), indent=0, sort_keys=True)
print(len(out) - 1, "contracts,", sum(1 for v in out.values() if v.get("status") == "proved"), "proved")
