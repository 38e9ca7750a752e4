"""Contracts, path exploration and obligations.

A contract names a function of /repo (`qual`), builds symbolic arguments (`setup`, which also
assumes the precondition), and states postconditions (`post`, which calls E.prove).  The function
body executed is the AST of /repo's current source.
"""
import os
import subprocess
import time
import traceback
import z3
from .values import *
from . import interp as I
from .interp import Interp, Unsupported, PyRaise, PathEnd, Restart, SpecFail, OutOfTime, snapshot, MISSING


DEFS = {}       # name of an opaque specification function -> its definition


class S(object):
    """State of one verification: symbolic inputs, argument objects, old snapshots."""
    def __init__(self, E):
        self.E = E
        self.inputs = {}
        self.ranges = {}
        self.choices = {}
        self.forced = None      # concrete run: values for inputs
        self.pre_failed = False

    def int(self, name, lo=None, hi=None, small=None):
        """symbolic integer; lo/hi are assumed; `small` is only a hint for concrete sampling"""
        self.ranges[name] = ("int", lo, hi, small)
        if self.forced is not None:
            v = self.forced[name]
            self.inputs[name] = v
        else:
            v = z3.Int(name)
            self.inputs[name] = v
        if lo is not None:
            self.assume(v >= lo)
        if hi is not None:
            self.assume(v <= hi)
        return v

    def bool(self, name):
        self.ranges[name] = ("bool",)
        v = self.forced[name] if self.forced is not None else z3.Bool(name)
        self.inputs[name] = v
        return v

    def text(self, name, n, alphabet=None):
        """string of n symbolic characters (0..255)"""
        ps = []
        for i in range(n):
            nm = "%s.%d" % (name, i)
            self.ranges[nm] = ("char", alphabet)
            v = self.forced[nm] if self.forced is not None else z3.Int(nm)
            self.inputs[nm] = v
            if self.forced is None:
                self.assume(z3.And(v >= 0, v <= 255))
                ps.append(v)
            else:
                ps.append(chr(v))
        from . import strings
        return strings.mk(ps)

    def seqtext(self, name, maxlen=12, alphabet=None):
        """string of unknown length"""
        self.ranges[name] = ("text", maxlen, alphabet)
        if self.forced is not None:
            v = self.forced[name]
            self.inputs[name] = v
            return v
        t = z3.Const(name, IntSeq)
        self.inputs[name] = t
        i = z3.Int("i!" + name)
        return SymSeq("char", t)

    def viewtext(self, name, maxlen=12, alphabet=None):
        """text of unknown length, for functions that read it by position"""
        self.ranges[name] = ("text", maxlen, alphabet)
        if self.forced is not None:
            v = self.forced[name]
            self.inputs[name] = v
            return v
        from . import strings
        v = strings.view_new(name)
        self.inputs[name] = v
        self.assume(v.hi >= 0)
        return v

    def choose(self, name, n):
        self.ranges[name] = ("choice", n)
        v = self.forced[name] if self.forced is not None else self.E.choose(n, name)
        self.inputs[name] = v
        return v

    def assume(self, c):
        if self.forced is not None:
            if isinstance(c, z3.ExprRef):
                c = z3.simplify(c)
                if z3.is_true(c):
                    return
                if not z3.is_false(c):
                    raise Unsupported("concrete precondition did not evaluate: %s" % c)
                c = False
            if not c:
                raise PreFail()
            return
        self.E.assume(c)

    def obj(self, cls, **slots):
        c = self.E.find_qual(cls) if isinstance(cls, str) else cls
        if c is None:
            raise Unsupported("no class %s" % cls)
        o = self.E.obj(c)
        o.slots.update(slots)
        return o


class PreFail(Exception):
    pass


class Contract(object):
    def __init__(self, qual, setup, post, props=(), modular=None, loops=None, variants=None, raises=None, stubs=None,
                 inline=(), memos=None, name=None, timeout=150, bounded=None, replay=True, sample=40, trusted=(), use=None,
                 none_kind=None, obj_kind=None, list_kind=None, text_kind=None, run=None, lemma=False, note="", noreturn=False, qtimeout=8000, extra=None,
                 merge=True, maxpaths=4000, aux=False, step=None, done=None):
        self.step = step            # obligations at the end of an arbitrary iteration of a loop over a list of unknown length
        self.done = done            # what such a loop established when it ran to its end
        self.qual = qual
        self.name = name or qual
        self.setup = setup
        self.post = post
        self.props = tuple(props)
        self.modular = modular
        self.loops = loops or []
        self.variants = variants or []
        self.raises = raises
        self.stubs = stubs or {}
        self.memos = memos or {}
        self.timeout = timeout
        self.bounded = bounded      # None: unbounded; else text naming the bound
        self.replay = replay
        self.sample = sample
        self.trusted = tuple(trusted)
        self.use = use              # quals whose contracts are used modularly (None = all registered with .modular)
        self.none_kind = none_kind
        self.obj_kind = obj_kind
        self.list_kind = list_kind
        self.text_kind = text_kind
        self.run = run              # custom runner instead of calling qual with args
        self.lemma = lemma
        self.note = note
        self.qtimeout = qtimeout
        self.merge = merge
        self.maxpaths = maxpaths
        self.aux = aux              # internal helper: its failure alone is no violation, its users are then verified through its body


class Result(object):
    def __init__(self, c):
        self.name = c.name
        self.qual = c.qual
        self.props = c.props
        self.bounded = c.bounded
        self.status = "?"           # proved | refuted | undecided | missing
        self.why = ""
        self.obl = {}               # name -> dict(total, ok, back)
        self.cex = []               # list of dict(name, inputs, definite)
        self.paths = 0
        self.wall = 0.0
        self.solver_s = 0.0
        self.queries = 0
        self.invariants = []
        self.dropped = []
        self.inlined = {}
        self.assumed = {}
        self.back = {}
        self.termination = []
        self.vacuity = None

    @property
    def total(self):
        return sum(o["total"] for o in self.obl.values())

    @property
    def ok(self):
        return sum(o["ok"] for o in self.obl.values())


class Driver(object):
    def __init__(self, registry):
        self.registry = registry    # qual -> Contract with modular
        self.c = None
        self.res = None
        self.S = None

    # -------------------------------------------------- hooks used by the interpreter
    def loop_candidates(self, E, stmt, frame):
        out = []
        for l in self.c.loops:
            f = l(E, self.S, stmt, frame)
            if f:
                out.extend(f)
        return out

    def loop_variants(self, E, stmt, frame):
        out = []
        for l in self.c.variants:
            f = l(E, self.S, stmt, frame)
            if f:
                out.extend(f)
        return out

    def force_inv(self, stmt):
        return True

    def text_kind(self, E, base, cur):
        return self.c.text_kind(E, self.S, base, cur) if self.c.text_kind else None

    def list_kind(self, E, base, cur):
        return self.c.list_kind(E, self.S, base, cur) if self.c.list_kind else None

    def none_kind(self, E, base):
        return self.c.none_kind(E, self.S, base) if self.c.none_kind else None

    def obj_kind(self, E, base, cur):
        return self.c.obj_kind(E, self.S, base, cur) if self.c.obj_kind else None

    def memo(self, E, dictobj):
        return self.memomap.get(id(dictobj))

    def allow_global_write(self, E, o, name):
        return False

    def contract_for(self, E, f, slots):
        if self.root_active and f.qual == self.c.qual and E.depth == 0:
            return None
        c = self.registry.get(f.qual)
        if c is None or c.modular is None:
            return None
        if self.c.use is not None and f.qual not in self.c.use:
            return None
        if f.qual in self.without or not self.signature_fits(E, c, f):
            return None
        return c

    without = ()    # functions whose contracts are not to be used

    def apply_contract(self, E, f, c, slots):
        r = c.modular(E, self.S, self.slots_for(E, c, f, slots))
        if r is MISSING:
            # contract not applicable here: execute the body
            self.skip = True
            saved = self.registry
            reg = dict(saved)
            reg.pop(f.qual, None)
            self.registry = reg
            try:
                names = [a.id for a in f.node.args.args]
                return E.call_func(f, [slots[n] for n in names], {})
            finally:
                self.registry = saved
        E.assumed[f.qual] = E.assumed.get(f.qual, 0) + 1
        return r

    def note_termination(self, E, stmt, done):
        self.res.termination.append((stmt.line, done))

    # -------------------------------------------------- deciding
    def check_unsat(self, E, cond, timeout=None):
        """is (pc and facts and cond) unsatisfiable?  -> ('unsat'|'sat'|'unknown', model, backend)"""
        timeout = timeout or self.c.qtimeout
        t0 = time.time()
        try:
            s = E.solver
            s.push()
            s.add(cond)
            s.set("timeout", min(timeout, 4000))
            r = s.check()
            m = s.model() if r == z3.sat else None
            s.pop()
            s.set("timeout", E.BRANCH_TIMEOUT)
            if r == z3.unsat:
                return "unsat", None, "z3"
            if r == z3.sat:
                return "sat", m, "z3"
            s2 = z3.Solver()
            s2.set("timeout", timeout)
            s2.add(*E.facts)
            s2.add(*E.pc)
            s2.add(cond)
            r = s2.check()
            if r == z3.unsat:
                return "unsat", None, "z3"
            if r == z3.sat:
                return "sat", s2.model(), "z3"
            if self.cvc5_ok:
                r = run_cvc5(s2.sexpr(), timeout)
                if r == "unsat":
                    return "unsat", None, "cvc5"
            return "unknown", None, "none"
        finally:
            E.stats.solver_s += time.time() - t0
            E.stats.queries += 1

    cvc5_ok = True

    def define(self, E, fmls):
        """definitional equalities for the opaque specification functions occurring in fmls"""
        defs = getattr(self.c, "defs", None) or DEFS
        seen, out, todo = set(), [], list(fmls)
        while todo:
            t = todo.pop()
            if t.get_id() in seen or not isinstance(t, z3.ExprRef):
                continue
            seen.add(t.get_id())
            if z3.is_app(t):
                d = t.decl().name()
                if d in defs and t.num_args() > 0:
                    out.append(t == defs[d](*t.children()))
                todo.extend(t.children())
        return out

    def second_look(self, E, cond, model):
        """a model was found with specification functions left opaque: unfold their definitions"""
        fm = list(E.pc) + [cond]
        d = self.define(E, fm + list(E.facts))
        if not d:
            return "sat", model, "z3", False
        s = z3.Solver()
        s.set("timeout", 6000)
        s.add(*fm)
        s.add(*d)
        r = s.check()
        if r == z3.sat:
            return "sat", s.model(), "z3", False
        if r == z3.unsat:
            return "unsat", None, "z3", False
        return "sat", model, "z3", True

    def try_prove(self, E, name, cond):
        if isinstance(cond, bool):
            return cond, "" if cond else "false"
        r, m, back = self.check_unsat(E, z3.Not(cond))
        if r == "unsat":
            self.res.back[back] = self.res.back.get(back, 0) + 1
            o = self.res.obl.setdefault(name, {"total": 0, "ok": 0})
            o["total"] += 1
            o["ok"] += 1
            return True, ""
        return False, r

    def obligation(self, E, name, cond, kind, info):
        o = self.res.obl.setdefault(name, {"total": 0, "ok": 0})
        o["total"] += 1
        if isinstance(cond, bool):
            if cond:
                o["ok"] += 1
                self.res.back["trivial"] = self.res.back.get("trivial", 0) + 1
                return
            # this path is feasible?
            r, m, back = self.check_unsat(E, z3.BoolVal(True))
            if r == "unsat":
                o["ok"] += 1
                self.res.back[back] = self.res.back.get(back, 0) + 1
                raise PathEnd()
        else:
            r, m, back = self.check_unsat(E, z3.Not(cond))
        if r == "unsat":
            o["ok"] += 1
            self.res.back[back] = self.res.back.get(back, 0) + 1
            return
        uf = False
        if r == "sat":
            r, m, back, uf = self.second_look(E, z3.BoolVal(True) if isinstance(cond, bool) else z3.Not(cond), m)
            if r == "unsat":
                o["ok"] += 1
                self.res.back[back] = self.res.back.get(back, 0) + 1
                if isinstance(cond, bool):
                    raise PathEnd()
                return
        cex = {"name": name, "kind": kind, "verdict": r, "info": info, "inputs": None}
        if r == "sat":
            cex["inputs"] = self.model_inputs(m)
            cex["approx"] = bool(self.approx or E.approx or uf)
        if len(self.res.cex) < 12:
            self.res.cex.append(cex)
        o.setdefault("bad", []).append(r)

    def model_inputs(self, m):
        out = {}
        for n, t in self.S.inputs.items():
            if isinstance(t, z3.ExprRef):
                v = m.eval(t, model_completion=True)
                out[n] = zval(v)
            elif isinstance(t, View):
                k = m.eval(t.hi, model_completion=True).as_long()
                out[n] = [zval(m.eval(t.fn(z3.IntVal(i)), model_completion=True)) for i in range(min(k, 300))]
            else:
                out[n] = t
        return out

    # -------------------------------------------------- run one contract
    def verify(self, E, c, budget=None):
        self.c = c
        self.res = Result(c)
        res = self.res
        t0 = time.time()
        E.driver = self
        E.deadline = t0 + (budget or c.timeout)
        E.stats.solver_s = 0.0
        E.stats.queries = 0
        E.loopstate = {}
        E.nomerge = not c.merge
        E.inlined = {}
        E.assumed = {}
        E.load_stubs(c.stubs)
        self.approx = False
        self.root_active = True
        try:
            f = E.find_qual(c.qual) if c.run is None else None
            if c.run is None and not isinstance(f, PyFunc):
                res.status = "missing"
                res.why = "no function %s in the current source" % c.qual
                return res
            if f is not None and not self.signature_fits(E, c, f):
                res.status = "missing"
                res.why = "the signature of %s differs from the one under contract" % c.qual
                return res
            self.explore(E, c, f)
            bad = [x for x in res.cex]
            if not res.obl:
                res.status = "undecided"
                res.why = "no obligations generated"
            elif not bad:
                res.status = "proved"
            elif any(x["verdict"] == "sat" for x in bad):
                res.status = "refuted"
                x = [x for x in bad if x["verdict"] == "sat"][0]
                res.why = "obligation %s refuted" % x["name"]
            else:
                res.status = "undecided"
                res.why = "obligation %s: solver answers %s" % (bad[0]["name"], bad[0]["verdict"])
        except Unsupported as e:
            res.status = "undecided"
            res.why = "outside the verifier's subset: %s (at %s)" % (e, ">".join(E.callstack_err or []))
        except OutOfTime:
            res.status = "undecided"
            res.why = "time budget exhausted"
        except z3.Z3Exception as e:
            if os.environ.get("VCDEBUG"):
                traceback.print_exc()
            res.status = "undecided"
            res.why = "solver error %s" % e
        except RecursionError:
            res.status = "undecided"
            res.why = "recursion"
        finally:
            E.rollback(0)
            E.journal_on = False
            res.wall = time.time() - t0
            res.solver_s = E.stats.solver_s
            res.queries = E.stats.queries
            res.inlined = dict(E.inlined)
            res.assumed = dict(E.assumed)
            for k, st in E.loopstate.items():
                for n in st["proved"]:
                    if n not in st["dropped"]:
                        res.invariants.append("line %s: %s" % (st["line"], n))
                for n, w in st["dropped"].items():
                    res.dropped.append("line %s: %s (%s)" % (st["line"], n, w))
        return res

    def signature_fits(self, E, c, f):
        """does the function still take the arguments the contract is written for? (renaming them is fine)"""
        b = self.params.get(c.name)
        if b is None:
            return True
        names = [a.id for a in f.node.args.args if a.t == "Name"]
        extra = len(names) - len(b)
        if extra < 0 or extra > len(f.defaults or ()):
            return False
        return not (set(names[:len(b)]) == set(b) and names[:len(b)] != b)

    def slots_for(self, E, c, f, slots):
        """the arguments under the names the contract is written for"""
        b = self.params.get(c.name)
        if b is None:
            return slots
        names = [a.id for a in f.node.args.args if a.t == "Name"]
        return slots if names == b else dict(slots, **dict((o, slots[n]) for o, n in zip(b, names)))

    params = {}     # contract name -> parameter names recorded with the baseline

    def start_path(self, E, base):
        E.rollback(0)
        E.trail = []
        E.counter, E.oid = base
        E.visits = {}
        E.pc = []
        E.facts = []
        E.fact_ids = set()
        E.dec = []
        E.spec_depth = 0
        E.depth = 0
        E.callstack = []
        E.frames = ()
        E.solver = z3.Solver()
        E.solver.set("timeout", E.BRANCH_TIMEOUT)
        E.journal_on = True
        E.callstack_err = None
        E.approx = False
        E.loopctx = ()

    def explore(self, E, c, f):
        """every path; what a path found is kept with the decisions of the path, so that a loop whose
        bookkeeping changes has only its own paths explored again"""
        self.records = []
        self.fresh_record()
        try:
            self.explore_paths(E, c, f)
        finally:
            self.close_record(E)
            r = self.res
            for dec, obl, cex, back, paths, term in self.records:
                for n, o in obl.items():
                    x = r.obl.setdefault(n, {"total": 0, "ok": 0})
                    x["total"] += o["total"]
                    x["ok"] += o["ok"]
                    if "bad" in o:
                        x.setdefault("bad", []).extend(o["bad"])
                r.cex.extend(cex)
                for n, k in back.items():
                    r.back[n] = r.back.get(n, 0) + k
                r.paths += paths
                r.termination.extend(term)
            del r.cex[12:]
            self.records = []

    def fresh_record(self):
        r = self.res
        r.obl, r.cex, r.back, r.paths, r.termination = {}, [], {}, 0, []

    def close_record(self, E):
        r = self.res
        self.records.append((list(E.dec), r.obl, r.cex, r.back, r.paths, r.termination))
        self.fresh_record()

    def explore_paths(self, E, c, f):
        base = (E.counter, E.oid)
        npaths = 0
        restarts = 0
        vac = False
        work = [[]]
        while work:
            if E.deadline and time.time() > E.deadline:
                raise OutOfTime()
            self.close_record(E)
            if len([x for r in self.records for x in r[2] if x["verdict"] == "sat"]) >= 6:
                break
            E.prefix = work.pop()
            E.pending = work
            self.start_path(E, base)
            s = self.S = S(E)
            self.memomap = {}
            E.S = s
            try:
                args = c.setup(E, s)
                s.args = args
                for dq, mk in c.memos.items():
                    d = E.find_qual(dq) if not isinstance(dq, Obj) else dq
                    if isinstance(d, Obj):
                        self.memomap[id(d)] = mk
                s.old = snapshot(args)
                if not vac:
                    r = E.solver.check()
                    if r == z3.sat:
                        vac = True
                exc = None
                val = None
                mark = len(E.trail)
                s.mark = mark
                try:
                    if c.run is not None:
                        val = c.run(E, s)
                    else:
                        val = E.call_func(f, list(args), {}, root=True)
                except PyRaise as e:
                    exc = e.exc
                E.dec_done = len(E.dec)
                if exc is not None and (c.raises is None or not c.raises(E, s, exc)):
                    nm = exc.cls.name
                    E.prove("no-exception(%s)" % nm, False, "exception", str(exc.slots.get("args", ""))[:200])
                else:
                    c.post(E, s, val, exc)
                self.res.paths += 1
                npaths += 1
                if npaths > c.maxpaths * 4:
                    raise Unsupported("too many paths")
            except PathEnd:
                pass
            except SpecFail:
                raise Unsupported("speculation escaped")
            except Restart as e:
                restarts += 1
                if restarts > 1000:
                    raise Unsupported("loop invariants do not stabilise")
                d = e.prefix
                n = len(d)
                work[:] = [w for w in work if list(w[:n]) != d]
                work.append(d)
                self.fresh_record()
                self.records = [r for r in self.records if r[0][:n] != d]
                continue
            except Unsupported:
                E.callstack_err = list(E.callstack)
                # is the path feasible at all?
                if E.solver.check() == z3.unsat:
                    E.callstack = []
                    continue
                raise
        self.res.vacuity = vac
        if not vac:
            raise Unsupported("precondition not shown satisfiable (vacuous)")

    # -------------------------------------------------- concrete evaluation of a contract
    def concrete_args(self, E, c, inputs):
        """build the argument objects for concrete inputs; None if the precondition fails"""
        self.c = c
        E.driver = self
        E.rollback(0)
        E.trail = []
        E.pc = []
        E.facts = []
        E.fact_ids = set()
        E.solver = z3.Solver()
        E.journal_on = True
        E.spec_depth = 0
        E.dec = []
        E.prefix = []
        E.pending = []
        s = S(E)
        s.forced = inputs
        self.S = s
        E.S = s
        self.memomap = {}
        try:
            s.args = c.setup(E, s)
        except (PreFail, PathEnd):
            return None
        s.old = snapshot(s.args)
        return s

    def concrete_post(self, E, c, s, args_after, val, excname, excargs=()):
        """evaluate the postcondition; returns list of failed obligation names"""
        failed = []
        conc = []

        def prove(name, cond, kind="post", info=None):
            if isinstance(cond, z3.ExprRef):
                cond = z3.simplify(cond)
                if z3.is_true(cond):
                    conc.append(name)
                    return
                if not z3.is_false(cond):
                    sol = z3.Solver()
                    sol.set("timeout", 2000)
                    sol.add(*E.facts)
                    sol.add(*E.pc)
                    sol.add(z3.Not(cond))
                    if sol.check() != z3.sat:
                        conc.append(name)
                        return
            elif cond:
                conc.append(name)
                return
            failed.append((name, info))
        s.args = args_after
        saved = E.prove
        E.prove = prove
        try:
            exc = None
            if excname is not None:
                cls = E.builtins.get(excname) or E.class_by_name(excname)
                exc = E.obj(cls)
                exc.slots["args"] = tuple(excargs)
            if exc is not None and (c.raises is None or not c.raises(E, s, exc)):
                failed.append(("no-exception(%s)" % excname, None))
            else:
                c.post(E, s, val, exc)
        finally:
            E.prove = saved
        return failed


def zval(v):
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_seq(v):
        return seqval(v)
    return str(v)


def seqval(v):
    """model value of a Seq(Int) as list of ints"""
    k = v.decl().kind()
    if k == z3.Z3_OP_SEQ_EMPTY:
        return []
    if k == z3.Z3_OP_SEQ_UNIT:
        a = v.arg(0)
        return [a.as_long() if z3.is_int_value(a) else 0]
    if k == z3.Z3_OP_SEQ_CONCAT:
        out = []
        for ch in v.children():
            out.extend(seqval(ch))
        return out
    return []


def run_cvc5(smt, timeout):
    try:
        txt = "(set-logic ALL)\n" + smt + "\n(check-sat)\n"
        p = subprocess.run(["cvc5", "--tlimit=%d" % timeout, "--lang=smt2", "-"], input=txt.encode(), stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, timeout=timeout / 1000.0 + 5)
        out = p.stdout.decode().strip().split("\n")[-1]
        return out if out in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"
