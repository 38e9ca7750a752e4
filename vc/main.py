"""check driver:  python3-vt -m vc.main PROPERTY [--tier quick|thorough] [--src DIR]

1. parse /repo's current source with the interpreter's own parser (Jython), 2. generate and
discharge the obligations of every contract of the property, 3. run the real functions on solver
counterexamples and on sampled inputs and evaluate the contracts on the outcomes, 4. run the
property's bounded stand-in harness on the real code, 5. decide and write the evidence file.
"""
import json
import multiprocessing
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

sys.setrecursionlimit(20000)
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)

from vc import pyast, builtins_, replay                      # noqa
from vc.interp import Interp                                  # noqa
from vc.verify import Driver, Result                          # noqa

ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")


def log(*a):
    print(*a)
    sys.stdout.flush()


class Engine(object):
    def __init__(self, astfile):
        mods = pyast.load(astfile)
        self.funcs = pyast.functions(mods)
        self.hashes = {}
        self.E = Interp(mods, stubs=dict(builtins_.STUBS))
        self.E.preload()
        self.E.load_stubs({})
        from contracts import ALL
        self.contracts = ALL()
        self.registry = dict((c.qual, c) for c in self.contracts if c.modular)


    def hash(self, q):
        if q not in self.hashes:
            self.hashes[q] = pyast.fhash(self.funcs[q]) if q in self.funcs else ""
        return self.hashes[q]

    def used(self, c, r):
        return sorted(set([c.qual]) | set(r.inlined) | set(r.assumed))

    def changed(self, c, r):
        """functions of the contract whose code differs from the recorded baseline"""
        b = BASE.get(c.name)
        if b is None:
            return ["(no baseline)"]
        f = b["functions"]
        known = BASE.get("*", {})       # every function of the tree the baseline was made from
        return sorted(q for q in set(self.used(c, r)) | set(f) if q in self.funcs or q in f if f.get(q, known.get(q)) != self.hash(q))

    def consts(self, qs):
        ints, strs = set(), set()
        for q in qs:
            if q in self.funcs:
                pyast.constants(self.funcs[q], ints, strs)
        return sorted(i for i in ints if abs(i) > 1), sorted(strs)


def load_base():
    p = os.path.join(HERE, "contracts", "baseline.json")
    return json.load(open(p)) if os.path.exists(p) else {}


BASE = load_base()
Driver.params = dict((n, b["params"]) for n, b in BASE.items() if b.get("params") is not None)
ENGINE = None
CS = []


def work(job):
    """verify one contract and sample inputs for it (in a forked worker)"""
    i, budget, nsample, seed = job[:4]
    c = CS[i]
    E = ENGINE.E
    drv = Driver(ENGINE.registry)
    drv.without = job[4] if len(job) > 4 else ()
    try:
        r = drv.verify(E, c, budget)
    except Exception as e:
        r = Result(c)
        r.status = "error"
        r.why = "verifier error: " + traceback.format_exc()[-1500:]
    r.changed = ENGINE.changed(c, r)
    if r.status in ("undecided", "refuted") and r.changed and not any(x["verdict"] == "sat" and not x.get("approx") for x in r.cex) and not r.why.startswith("outside"):
        # the code under this contract differs from the baseline: look longer before giving up
        try:
            c.qtimeout *= 3
            r2 = drv.verify(E, c, budget * 1.5)
            if r2.status == "proved":
                r2.changed = r.changed
                r = r2
        except Exception:
            pass
    for x in r.cex:
        x["info"] = repr(x["info"])[:300] if x["info"] is not None else None
    cases = []
    if r.changed and BASE:
        nsample = max(nsample * 8, 200)
    if c.replay and c.run is None and r.status != "missing":
        try:
            E.deadline = None
            E.load_stubs(c.stubs)
            rng = random.Random("%s/%s" % (seed, c.name))
            replay.Sampler.ints, replay.Sampler.strs = ENGINE.consts(ENGINE.used(c, r))
            for x in r.cex:
                if x["verdict"] == "sat" and x["inputs"] is not None:
                    inp = replay.concretise(x["inputs"])
                    mc = replay.make_case_with(E, drv, c, replay.Forced(inp))
                    if mc is not None:
                        cases.append(("model", inp, mc[0], x["name"]))
            for case, inp in replay.sample_inputs(E, drv, c, nsample, rng):
                cases.append(("sample", inp, case, None))
        except Exception as e:
            r.sample_error = traceback.format_exc()[-600:]
    return i, r, cases


def evaluate_cases(idx, cases, outcomes, crosscheck):
    """evaluate contract i on real outcomes; returns failures and engine mismatches"""
    c = CS[idx]
    E = ENGINE.E
    drv = Driver(ENGINE.registry)
    fails, mism, n, xn = [], [], 0, 0
    E.load_stubs(c.stubs)
    for k, ((kind, inp, case, ob), out) in enumerate(zip(cases, outcomes)):
        E.deadline = None
        try:
            bad = replay.evaluate(E, drv, c, inp, out)
        except Exception as e:
            bad = None
            mism.append("evaluation: " + traceback.format_exc()[-400:])
        if bad is not None:
            n += 1
            if bad:
                fails.append((kind, inp, case, ob, out, [b[0] for b in bad]))
        if kind == "sample" and xn < crosscheck and "error" not in out and not getattr(c, "nocross", False):
            try:
                er = replay.engine_run(E, drv, c, inp)
                if er is not None:
                    exc, val, args = er
                    d = replay.Dec(E)
                    rargs = [d.dec(a) for a in out["args"]]
                    rret = d.dec(out["ret"])
                    xn += 1
                    if exc != out["exc"]:
                        mism.append("%s: engine raises %s, real code %s, input %s" % (c.name, exc, out["exc"], inp))
                    elif replay.same_value(E, val, rret) is False or any(replay.same_value(E, p, q) is False for p, q in zip(args, rargs)):
                        mism.append("%s: engine and real code differ on %s" % (c.name, inp))
            except Exception as e:
                pass        # outside the engine's subset: nothing to compare
    return idx, fails, mism, n, xn


def ev_work(job):
    try:
        return evaluate_cases(*job)
    except Exception:
        return job[0], [], ["evaluation: " + traceback.format_exc()[-400:]], 0, 0


def load_known():
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                out.append(json.loads(l))
    return out


def check(prop, tier, src, seed, only=None):
    global ENGINE, CS
    t0 = time.time()
    from contracts import props as P
    info = P.PROPS[prop]
    tmp = tempfile.mkdtemp(prefix="vc_%s_" % prop)
    try:
        ast = os.path.join(tmp, "ast.json")
        # start the harness first: it runs beside the verifier
        hproc = None
        hout = os.path.join(tmp, "harness.json")
        hsec = info.get("seconds", 25) if tier == "quick" else info.get("thorough_seconds", 240)
        pd = subprocess.Popen(["jython", "-B", os.path.join(HERE, "jy", "dump_ast.py"), src, ast], env=ENV, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if info.get("harness"):
            hlog = open(os.path.join(tmp, "harness.log"), "wb")
            scratch = os.path.join(tmp, "scratch")
            os.mkdir(scratch)
            hproc = subprocess.Popen(["jython", "-B", os.path.join(HERE, "jy", info["harness"]), src, prop, str(seed), str(hsec), hout, scratch],
                                     env=ENV, cwd=scratch, stdout=hlog, stderr=subprocess.STDOUT)
        o, _ = pd.communicate(timeout=240)
        if pd.returncode != 0 or not os.path.exists(ast):
            log("cannot parse the source: %s" % o.decode("latin-1")[-800:])
            return 2
        ENGINE = Engine(ast)
        CS = [c for c in ENGINE.contracts if prop in c.props and (not only or only in c.name)]
        # the contracts these rely on at call sites are verified too; in this check they count as internal
        have = set(id(c) for c in CS)
        todo = list(CS)
        while todo and not only:
            c = todo.pop()
            for q in BASE.get(c.name, {}).get("assumed", ()):
                d = ENGINE.registry.get(q)
                if d is not None and id(d) not in have:
                    have.add(id(d))
                    d.aux = True
                    CS.append(d)
                    todo.append(d)
        nsample = 25 if tier == "quick" else 300
        mult = 1 if tier == "quick" else 6
        jobs = [(i, min(c.timeout * mult, 700 if tier != "quick" else 240), min(nsample, c.sample if tier == "quick" else nsample), seed) for i, c in enumerate(CS)]
        results, cases = {}, {}
        ctx = multiprocessing.get_context("fork")
        order = sorted(jobs, key=lambda j: -CS[j[0]].timeout)
        if jobs:
            with ctx.Pool(8, maxtasksperchild=6) as pool:
                for i, r, cs in pool.imap_unordered(work, order, chunksize=1):
                    results[i] = r
                    cases[i] = cs
        # contracts of internal helpers that no longer hold: their users are verified through the body instead
        broken = tuple(sorted(set(CS[i].qual for i, r in results.items() if CS[i].aux and r.status not in ("proved", "missing"))))
        again = [(i, b, n, seed, broken) for i, b, n, sd in order if not CS[i].aux and set(results[i].assumed) & set(broken)]
        if again:
            with ctx.Pool(8, maxtasksperchild=6) as pool:
                for i, r, cs in pool.imap_unordered(work, again, chunksize=1):
                    results[i] = r
                    cases[i] = cs
        # real runs
        flat, where = [], []
        for i in sorted(cases):
            for k, cse in enumerate(cases[i]):
                flat.append(cse[2])
                where.append((i, k))
        outs = replay.jython_cases(src, flat, timeout=600) if flat else []
        per = {}
        for (i, k), o in zip(where, outs):
            per.setdefault(i, []).append(o)
        ejobs = [(i, cases[i], per.get(i, []), 8 if tier == "quick" else 60) for i in sorted(cases) if cases[i]]
        evals, mism, xtotal, cfails = 0, [], 0, []
        if ejobs:
            with ctx.Pool(8, maxtasksperchild=20) as pool:
                for i, fails, mm, n, xn in pool.imap_unordered(ev_work, ejobs, chunksize=1):
                    evals += n
                    xtotal += xn
                    mism.extend(mm)
                    for f in fails:
                        cfails.append((i,) + f)
        # harness
        hres = None
        if hproc is not None:
            try:
                hproc.wait(timeout=hsec * 2 + 200)
            except subprocess.TimeoutExpired:
                hproc.kill()
            if os.path.exists(hout):
                hres = json.load(open(hout))
            else:
                t = open(os.path.join(tmp, "harness.log"), "rb").read().decode("latin-1")
                hres = {"error": t[-1500:], "evaluations": 0, "failures": []}
        return decide(prop, tier, seed, info, results, cfails, evals, xtotal, mism, hres, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, info, results, cfails, evals, xtotal, mism, hres, t0):
    known = [k for k in load_known() if k.get("property") == prop and k.get("status") == "open"]
    viol = []
    # 1. real failing inputs for contracts
    seen = set()
    for f in sorted(cfails, key=lambda f: (f[1] != "model", f[0])):
        i, kind, inp, case, ob, out, bad = f
        c = CS[i]
        if c.aux:
            continue
        key = (c.name, tuple(sorted(set(bad)))[:1])
        if key in seen:
            continue
        seen.add(key)
        viol.append({"kind": "contract", "contract": c.name, "function": c.qual, "obligations": bad, "found_by": kind, "input": inp, "call": case, "outcome": out,
                     "sig": "contract:%s:%s" % (c.name, bad[0])})
    # 2. harness failures
    if hres:
        for f in hres.get("failures", []):
            viol.append(dict(f, kind="bounded"))
    # 3. definite refutations without a replayed input
    failing_contracts = set(CS[f[0]].name for f in cfails)
    for i, r in sorted(results.items()):
        if r.status == "refuted" and r.name not in failing_contracts and not CS[i].aux:
            d = [x for x in r.cex if x["verdict"] == "sat" and not x.get("approx")]
            if d and not CS[i].bounded == "no-definite":
                viol.append({"kind": "obligation", "contract": r.name, "function": r.qual, "obligation": d[0]["name"], "model": d[0]["inputs"],
                             "verifier": "z3: sat (negated obligation satisfiable)", "sig": "obligation:%s:%s" % (r.name, d[0]["name"]), "noinput": True})
    # 4. contracts that the verifier accepted on the baseline and no longer accepts after a change of
    #    the code they cover (never for code that is as it was: that would be solver noise; nor when the
    #    changed code also does something the verifier has no rule for: what is asked of one iteration of a
    #    loop may then have been asked of another loop)
    said = set(v.get("contract") for v in viol)
    for i, r in sorted(results.items()):
        if r.status in ("refuted", "undecided") and r.name not in said and not CS[i].aux and BASE.get(r.name, {}).get("status") == "proved" and r.changed \
                and r.cex and not CS[i].bounded == "no-definite" and "outside the verifier's subset" not in (r.why or ""):
            x = r.cex[0]
            viol.append({"kind": "obligation", "contract": r.name, "function": r.qual, "obligation": x["name"], "model": x["inputs"], "changed_functions": r.changed,
                         "verifier": "the obligation is no longer accepted: %s" % (r.why,), "sig": "obligation:%s:%s" % (r.name, x["name"]), "noinput": True})
    known_hit, real = {}, []
    for v in viol:
        k = [x for x in known if x["sig"] == v.get("sig")]
        if k:
            known_hit[k[0]["sig"]] = k[0]
        else:
            real.append(v)
    for sig in sorted(known_hit):
        log("KNOWN-FINDING: property=%s %s" % (prop, known_hit[sig]["what"]))
    total = sum(r.total for r in results.values())
    ok = sum(r.ok for r in results.values() if r.status in ("proved", "undecided", "refuted"))
    proved = [r for r in results.values() if r.status == "proved"]
    back = {}
    for r in results.values():
        for k, v in r.back.items():
            back[k] = back.get(k, 0) + v
    trusted = set(info.get("trusted", ()))
    for i, r in results.items():
        trusted.update(CS[i].trusted)
    assumed = set()
    for r in results.values():
        for q in r.assumed:
            assumed.add(q)
    mine = set(r.qual for r in proved)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": info["level"], "wall_s": round(time.time() - t0, 2),
        "violations": len(real),
        "assumptions": sorted(trusted) + ["machine integers are treated as mathematical integers (Python integers are unbounded)",
                                          "the symbolic interpreter's semantics of the Python subset (cross-checked against Jython on %d concrete runs this time, %d mismatches)" % (xtotal, len(mism))],
        "coverage": {
            "obligations": total, "discharged": ok, "checker_cmd": "python3-vt -m vc.main %s (z3 %s, cvc5 as second solver)" % (prop, __import__("z3").get_version_string()),
            "trusted_base": sorted(trusted) + ["vc/interp.py (verification condition generator)", "z3", "Jython's parser (ast module)"],
            "functions_under_contract": sorted(set(r.qual for r in results.values() if not r.name.startswith("lemma "))),
            "contracts_proved": len(proved), "contracts_total": len(results),
            "lemmas_proved": sum(1 for r in proved if r.name.startswith("lemma ")),
            "contracts_bounded": sorted("%s [%s]" % (r.name, r.bounded) for r in results.values() if r.bounded),
            "not_proved_this_run": sorted("%s: %s %s" % (r.name, r.status, r.why) for r in results.values() if r.status != "proved"),
            "discharged_by": back, "solver_s": round(sum(r.solver_s for r in results.values()), 2), "solver_queries": sum(r.queries for r in results.values()),
            "paths": sum(r.paths for r in results.values()),
            "loop_invariants_proved": sorted(set("%s: %s" % (r.qual.split(".")[-1], x) for r in results.values() for x in r.invariants)),
            "loops_with_termination_measure": sorted(set("%s line %s: %s" % (r.qual.split(".")[-1], l, "proved" if d else "not proved") for r in results.values() for l, d in r.termination)),
            "contracts_used_at_call_sites": sorted(assumed),
            "call_site_contracts_not_proved_in_this_check": sorted(q for q in assumed if q not in mine),
            "inlined_functions": sorted(set(q for r in results.values() for q in r.inlined)),
            "vacuity": "every proved contract's precondition was shown satisfiable (%d contracts)" % sum(1 for r in proved if r.vacuity),
            "evaluations": evals + (hres or {}).get("evaluations", 0),
            "contract_evaluations_on_real_code": evals,
            "engine_cross_checks": xtotal, "engine_mismatches": mism[:5],
            "bounded_standin": {k: v for k, v in (hres or {}).items() if k not in ("failures",)},
            "explanation": info["explanation"],
            "samples": [{"contract": r.name, "status": r.status, "obligations": r.total, "paths": r.paths} for r in list(results.values())[:6]],
        },
    }
    if hres:
        ev["coverage"]["distinct_nontrivial"] = hres.get("distinct", 0)
        ev["coverage"]["rule"] = hres.get("rule", "")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1, sort_keys=True, default=str)
    log("%s: %d/%d contracts proved, %d/%d obligations, %d real-code contract evaluations, %d bounded-harness evaluations, %.1fs" % (
        prop, len(proved), len(results), ok, total, evals, (hres or {}).get("evaluations", 0), time.time() - t0))
    for r in sorted(results.values(), key=lambda r: r.name):
        if r.status != "proved":
            log("  not proved: %s: %s %s" % (r.name, r.status, r.why[:300]))
    for m in mism[:3]:
        log("  engine mismatch: %s" % m[:300])
    if hres and hres.get("error"):
        log("  harness error: %s" % hres["error"])
    if real:
        rd = os.path.join(HERE, "replays")
        os.makedirs(rd, exist_ok=True)
        real.sort(key=lambda v: bool(v.get("noinput")))
        for n, v in enumerate(real[:5]):
            path = os.path.join(rd, "%s_%d.json" % (prop, n))
            json.dump(v, open(path, "w"), indent=1, default=str)
            log("  %s" % json.dumps({k: v[k] for k in v if k not in ("call", "outcome")}, default=str)[:600])
            log("VIOLATION property=%s replay=%s%s" % (prop, path, " no-failing-input-found" if v.get("noinput") else ""))
        return 1
    if total == 0 and info.get("needs_obligations", True):
        log("no obligations were generated: the check cannot answer")
        return 2
    if hres and hres.get("error"):
        return 3
    return 0


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    src = "/repo/src"
    only = None
    a = sys.argv[2:]
    while a:
        k = a.pop(0)
        if k == "--tier":
            tier = a.pop(0)
        elif k == "--src":
            src = a.pop(0)
        elif k == "--only":
            only = a.pop(0)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        rc = check(prop, tier, src, seed, only)
    except Exception:
        traceback.print_exc()
        rc = 4
    sys.stdout.flush()
    os._exit(rc)


if __name__ == "__main__":
    main()
