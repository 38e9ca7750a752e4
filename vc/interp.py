"""Symbolic interpreter for the Python 2 subset used by the repository.

One *path* is executed at a time; every time control depends on a symbolic condition `branch`
consults the decision prefix, and the driver (`explore`) re-executes the code for each feasible
decision sequence.  All mutable state lives in `slots` dicts and every write is journaled, so the
state at the start of a path can be restored exactly.
"""
import time
import z3
from .values import *
from . import pyast


class Unsupported(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, exc):
        Exception.__init__(self)
        self.exc = exc


class PathEnd(Exception):
    """This path stops here (infeasible, or the end of a loop-preservation check)."""


class Restart(Exception):
    """Loop bookkeeping changed: explore again every path that reaches the loop (all paths whose
    decisions begin with those made before it)."""

    def __init__(self, prefix=()):
        Exception.__init__(self)
        self.prefix = list(prefix)


class SpecFail(Exception):
    """Speculative (merged) execution is not possible; fall back to forking."""


MISSING = object()
NORMAL, RETURN, BREAK, CONTINUE = range(4)


class LoopCtx(object):
    """What a loop-invariant candidate may look at."""
    def __init__(self, E, phase, frame, head):
        self.E = E
        self.phase = phase        # 'init' | 'head' | 'end' | 'exit'
        self.frame = frame
        self.head = head
        self.seq = None           # iterated SymSeq, if any
        self.elem = None          # current element (phase end)
        self.k = None             # iteration index term

    def var(self, name):
        return self.frame.slots[name]


class Stats(object):
    def __init__(self):
        self.solver_s = 0.0
        self.queries = 0
        self.by = {"z3": 0, "cvc5": 0}


class Interp(object):

    MAX_UNROLL = 80
    MAX_DEPTH = 70
    BRANCH_TIMEOUT = 4000

    def __init__(self, asts, contracts=None, stubs=None):
        self.asts = asts
        self.contracts = contracts or {}
        self.stubs = stubs or {}
        self.modules = {}
        self.trail = []
        self.journal_on = False
        self.counter = 0
        self.oid = 0
        self.pc = []
        self.prefix = []
        self.dec = []
        self.spec_depth = 0
        self.depth = 0
        self.root = None
        self.stats = Stats()
        self.obligations = []
        self.loopstate = {}
        self.solver = None
        self.builtins = {}
        self.pending = []
        self.callstack = []
        self.visits = {}
        self.memo_inv = {}
        self.load_errors = {}
        self.assumed = {}
        self.inlined = {}
        from . import builtins_ as B
        B.install(self)

    # ------------------------------------------------------------------ objects and journal
    def new_oid(self):
        self.oid += 1
        return self.oid

    def obj(self, cls, **slots):
        return Obj(self.new_oid(), cls, slots)

    def plist(self, items):
        return Obj(self.new_oid(), self.builtins["list"], {"v": list(items) if isinstance(items, (list, tuple, str)) or not (isinstance(items, SymSeq) or hasattr(items, "sym_iter")) else items})

    def pdict(self, d=None):
        return Obj(self.new_oid(), self.builtins["dict"], {"v": d if d is not None else {}})

    def pset(self, items=()):
        return Obj(self.new_oid(), self.builtins["set"], {"v": items if isinstance(items, SymSeq) else list(items)})

    def setslot(self, owner, key, val):
        if isinstance(owner, Obj) and owner.frozen and self.journal_on:
            raise Unsupported("write to an object after its value was stored in a symbolic list")
        slots = owner.slots
        if self.journal_on:
            self.trail.append((owner, key, slots.get(key, MISSING)))
        slots[key] = val

    def delslot(self, owner, key):
        if self.journal_on:
            self.trail.append((owner, key, owner.slots.get(key, MISSING)))
        owner.slots.pop(key, None)

    def rollback(self, mark):
        while len(self.trail) > mark:
            owner, key, old = self.trail.pop()
            if old is MISSING:
                owner.slots.pop(key, None)
            else:
                owner.slots[key] = old

    # ------------------------------------------------------------------ symbols and path condition
    def fresh_name(self, base):
        self.counter += 1
        return "%s!%d" % (base, self.counter)

    def fresh_int(self, base="i"):
        return z3.Int(self.fresh_name(base))

    def fresh_bool(self, base="b"):
        return z3.Bool(self.fresh_name(base))

    def fresh_seq(self, base="s"):
        return z3.Const(self.fresh_name(base), IntSeq)

    def fact(self, c):
        """a universally valid formula (instance of a proved lemma or of a definition)"""
        if isinstance(c, bool):
            return
        if c.get_id() in self.fact_ids:
            return
        self.fact_ids.add(c.get_id())
        self.facts.append(c)
        if self.solver is not None:
            self.solver.add(c)

    facts = []
    approx = False
    fact_ids = set()
    callstack_err = None

    def class_by_name(self, name):
        for m in list(self.modules.values()):
            v = m.slots.get(name)
            if isinstance(v, PyClass):
                return v
        c = PyClass(name, [self.builtins["Exception"]], {}, None)
        return c

    def load_stubs(self, extra):
        if not hasattr(self, "base_stubs"):
            self.base_stubs = dict(self.stubs)
        self.stubs = dict(self.base_stubs)
        self.stubs.update(extra)

    def preload(self):
        for m in sorted(self.asts):
            if self.asts[m][0] != "SyntaxError":
                self.module_chain(m)

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise PathEnd()
            return
        self.pc.append(c)
        if self.solver is not None:
            self.solver.add(c)

    def _check(self, cond):
        t0 = time.time()
        s = self.solver
        s.push()
        s.add(cond)
        r = s.check()
        s.pop()
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        return r

    def feasible(self, cond):
        return self._check(cond) != z3.unsat

    def entailed(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self._check(z3.Not(cond)) == z3.unsat

    def simp(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return c

    def branch(self, cond):
        """Decide a condition, forking the path if both outcomes are possible."""
        if isinstance(cond, bool):
            return cond
        cond = self.simp(cond)
        if isinstance(cond, bool):
            return cond
        i = len(self.dec)
        if self.spec_depth:
            # inside merged execution: only decide what the path condition already decides
            if self._check(cond) == z3.unsat:
                return False
            if self._check(z3.Not(cond)) == z3.unsat:
                return True
            raise SpecFail()
        if i < len(self.prefix):
            d, forced = self.prefix[i]
        else:
            t = self.feasible(cond)
            f = self.feasible(z3.Not(cond))
            if not t and not f:
                raise PathEnd()
            if t and f:
                self.pending.append(list(self.dec) + [(False, False)])
                d, forced = True, False
            else:
                d, forced = t, True
        self.dec.append((d, forced))
        if not forced:
            self.assume(cond if d else z3.Not(cond))
        return d

    def choose(self, n, label="choice"):
        """Nondeterministic choice among 0..n-1 (all alternatives are explored)."""
        if n == 1:
            return 0
        if self.spec_depth:
            raise SpecFail()
        i = len(self.dec)
        if i < len(self.prefix):
            d = self.prefix[i][0]
        else:
            for k in range(1, n):
                self.pending.append(list(self.dec) + [(k, False)])
            d = 0
        self.dec.append((d, False))
        return d

    # ------------------------------------------------------------------ obligations
    def prove(self, name, cond, kind="post", info=None):
        if self.spec_depth:
            if isinstance(cond, bool) and cond:
                return
            if self.entailed(cond):
                return
            raise SpecFail()
        self.driver.obligation(self, name, cond, kind, info)

    def step(self, name, cond, kind="lemma"):
        """prove an intermediate fact, then use it"""
        self.prove(name, cond, kind)
        if isinstance(cond, z3.ExprRef) and self.driver_symbolic():
            self.assume(cond)

    def driver_symbolic(self):
        return self.S is None or self.S.forced is None

    S = None

    # ------------------------------------------------------------------ exceptions
    def make_exc(self, clsname, *args):
        cls = self.builtins[clsname] if isinstance(clsname, str) else clsname
        o = self.obj(cls)
        o.slots["args"] = tuple(args)
        return o

    def throw(self, clsname, *args):
        raise PyRaise(self.make_exc(clsname, *args))

    # ------------------------------------------------------------------ modules
    def module(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        m = Module(name)
        self.modules[name] = m
        m.slots["__name__"] = name
        if name in self.stubs:
            self.stubs[name](self, m)
            m.loaded = True
            return m
        j = self.asts.get(name)
        if j is None:
            m.loaded = True
            m.opaque = True
            return m
        if j[0] == "SyntaxError":
            raise Unsupported("syntax error in %s: %s" % (name, j[1]))
        node = pyast.build(j)
        m.node = node
        frame = Obj(self.new_oid(), None, m.slots)
        frame.tag = m
        saved = (self.journal_on, self.spec_depth)
        self.journal_on = False
        self.spec_depth = 0
        try:
            for st in node.body:
                try:
                    self.exec_stmt(st, frame)
                except (Unsupported, PyRaise, SpecFail) as e:
                    why = e.exc if isinstance(e, PyRaise) else e
                    self.load_errors.setdefault(name, []).append((st.line, repr(getattr(why, "slots", why))))
                    for t in assigned_names(st):
                        m.slots.setdefault(t, Opaque("%s.%s (module statement not understood)" % (name, t)))
        finally:
            self.journal_on, self.spec_depth = saved
        m.loaded = True
        return m

    def find_qual(self, qual):
        """'pkg.mod.Class.meth' or 'pkg.mod.func' -> PyFunc (None if there is no such thing)."""
        parts = qual.split(".")
        for i in range(len(parts) - 1, 0, -1):
            mn = ".".join(parts[:i])
            if mn in self.asts:
                v = self.module(mn)
                for p in parts[i:]:
                    if isinstance(v, Module):
                        v = v.slots.get(p)
                    elif isinstance(v, PyClass):
                        v = v.lookup(p)[0]
                    else:
                        return None
                    if v is None:
                        return None
                return v
        return None

    # ------------------------------------------------------------------ names
    def load_name(self, name, frame):
        f = frame
        while f is not None:
            if name in f.slots:
                return f.slots[name]
            t = f.tag
            if isinstance(t, Module):
                break
            f = t
        if name in self.builtins:
            return self.builtins[name]
        self.throw("NameError", name)

    def frame_module(self, frame):
        f = frame
        while not isinstance(f.tag, Module):
            f = f.tag
        return f.tag

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, frame):
        for s in stmts:
            r = self.exec_stmt(s, frame)
            if r is not None and r[0] != NORMAL:
                return r
        return (NORMAL, None)

    def exec_stmt(self, s, frame):
        m = getattr(self, "st_" + s.t, None)
        if m is None:
            raise Unsupported("statement %s at line %s" % (s.t, s.line))
        return m(s, frame)

    def st_Expr(self, s, frame):
        if s.value.t == "Str":
            return None
        self.ev(s.value, frame)

    def st_Pass(self, s, frame):
        return None

    def st_Global(self, s, frame):
        raise Unsupported("global statement")

    def st_Return(self, s, frame):
        return (RETURN, self.ev(s.value, frame) if s.value is not None else None)

    def st_Break(self, s, frame):
        return (BREAK, None)

    def st_Continue(self, s, frame):
        return (CONTINUE, None)

    def st_Assign(self, s, frame):
        v = self.ev(s.value, frame)
        for t in s.targets:
            self.assign(t, v, frame)

    def st_AugAssign(self, s, frame):
        t = s.target
        if t.t == "Name":
            cur = self.load_name(t.id, frame)
            new = self.aug(s.op.t, cur, self.ev(s.value, frame))
            self.assign(t, new, frame)
        elif t.t == "Attribute":
            o = self.ev(t.value, frame)
            cur = self.getattr_(o, t.attr)
            new = self.aug(s.op.t, cur, self.ev(s.value, frame))
            self.setattr_(o, t.attr, new)
        elif t.t == "Subscript":
            o = self.ev(t.value, frame)
            idx = self.ev_slice(t.slice, frame)
            cur = self.getitem(o, idx)
            new = self.aug(s.op.t, cur, self.ev(s.value, frame))
            self.setitem(o, idx, new)
        else:
            raise Unsupported("augassign target %s" % t.t)

    def aug(self, op, cur, val):
        if op == "Add" and isinstance(cur, Obj) and cur.cls is self.builtins["list"]:
            self.builtins["list"].methods["extend"](self, cur, val)
            return cur
        return self.binop(op, cur, val)

    def st_Delete(self, s, frame):
        for t in s.targets:
            if t.t == "Subscript":
                o = self.ev(t.value, frame)
                self.delitem(o, self.ev_slice(t.slice, frame))
            elif t.t == "Name":
                self.delslot(frame, t.id)
            elif t.t == "Attribute":
                o = self.ev(t.value, frame)
                self.delslot(o, t.attr)
            else:
                raise Unsupported("delete %s" % t.t)

    def st_Print(self, s, frame):
        for v in s.values:
            self.ev(v, frame)

    def st_Assert(self, s, frame):
        if not self.truth(self.ev(s.test, frame)):
            self.throw("AssertionError")

    def st_Raise(self, s, frame):
        if s.type is None:
            if getattr(self, "cur_exc", None) is None:
                raise Unsupported("re-raise outside handler")
            raise PyRaise(self.cur_exc)
        t = self.ev(s.type, frame)
        if isinstance(t, PyClass):
            args = (self.ev(s.inst, frame),) if s.inst is not None else ()
            t = self.call(t, list(args), {})
        raise PyRaise(t)

    def st_TryExcept(self, s, frame):
        try:
            r = self.exec_block(s.body, frame)
        except PyRaise as e:
            exc = e.exc
            for h in s.handlers:
                if self.handler_matches(h, exc, frame):
                    if h.name is not None:
                        self.assign(h.name, exc, frame)
                    saved = getattr(self, "cur_exc", None)
                    self.cur_exc = exc
                    try:
                        return self.exec_block(h.body, frame)
                    finally:
                        self.cur_exc = saved
            raise
        if r[0] == NORMAL and s.orelse:
            return self.exec_block(s.orelse, frame)
        return r

    def handler_matches(self, h, exc, frame):
        if h.type is None:
            return True
        t = self.ev(h.type, frame)
        ts = t if isinstance(t, tuple) else (t,)
        for c in ts:
            if isinstance(c, Opaque):
                continue
            if exc.cls.issub(c):
                return True
        return False

    def st_TryFinally(self, s, frame):
        try:
            r = self.exec_block(s.body, frame)
        except PyRaise:
            r2 = self.exec_block(s.finalbody, frame)
            if r2[0] != NORMAL:
                return r2
            raise
        r2 = self.exec_block(s.finalbody, frame)
        return r2 if r2[0] != NORMAL else r

    def st_With(self, s, frame):
        m = self.ev(s.context_expr, frame)
        if not isinstance(m, Obj):
            raise Unsupported("with statement")
        leave = self.getattr_(m, "__exit__")
        v = self.call(self.getattr_(m, "__enter__"), [], {})
        if s.optional_vars is not None:
            self.assign(s.optional_vars, v, frame)
        try:
            r = self.exec_block(s.body, frame)
        except PyRaise as e:
            if self.truth(self.call(leave, [e.exc.cls, e.exc, None], {})):
                return (NORMAL, None)
            raise
        self.call(leave, [None, None, None], {})
        return r

    def st_Import(self, s, frame):
        for a in s.names:
            full = self.relative(a.name, frame)
            if full != a.name:
                self.setslot(frame, a.asname or a.name.split(".")[0], self.module_chain(full) if a.asname or "." not in a.name else self.module(self.relative(a.name.split(".")[0], frame)))
                continue
            self.module_chain(full)
            if a.asname:
                self.setslot(frame, a.asname, self.module(full))
            else:
                top = full.split(".")[0]
                self.setslot(frame, top, self.module(top))

    def relative(self, name, frame):
        """Python 2 looks for a module in the importing module's own package first"""
        m = self.frame_module(frame)
        mn = m.name if m is not None else ""
        pkg = mn if any(k.startswith(mn + ".") for k in self.asts) else mn.rpartition(".")[0]
        return pkg + "." + name if pkg and pkg + "." + name.split(".")[0] in self.asts else name

    def module_chain(self, full):
        parts = full.split(".")
        parent = None
        for i in range(1, len(parts) + 1):
            m = self.module(".".join(parts[:i]))
            if parent is not None:
                parent.slots.setdefault(parts[i - 1], m)
            parent = m
        return parent

    def st_ImportFrom(self, s, frame):
        base = self.relative(s.module, frame)
        self.module_chain(base)
        for a in s.names:
            sub = base + "." + a.name
            m = self.module(base)
            if a.name in m.slots:
                v = m.slots[a.name]
            elif sub in self.asts or sub in self.stubs:
                v = self.module_chain(sub)
            elif getattr(m, "opaque", False):
                v = Opaque(sub)
            else:
                self.throw("ImportError", sub)
            self.setslot(frame, a.asname or a.name, v)

    def st_FunctionDef(self, s, frame):
        f = self.make_func(s.name, s, frame)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, frame)
            if dv is self.builtins["staticmethod"]:
                f.kind = "static"
            elif dv is self.builtins["classmethod"]:
                f.kind = "class"
            elif dv is self.builtins["property"]:
                f.kind = "property"
            else:
                raise Unsupported("decorator on %s" % s.name)
        self.setslot(frame, s.name, f)

    def make_func(self, name, node, frame):
        defaults = [self.ev(d, frame) for d in node.args.defaults]
        mod = self.frame_module(frame)
        closure = None
        qual = name
        if isinstance(frame.tag, Module):
            q = mod.name + "." + name
        elif isinstance(frame.cls, str) and frame.cls.startswith("class:"):
            q = frame.cls[6:] + "." + name
            closure = frame.tag if not isinstance(frame.tag.tag, Module) else None
        else:
            q = (self.callstack[-1] if self.callstack else mod.name) + ".<locals>." + name
            closure = frame
        return PyFunc(name, node, mod, closure, defaults, q)

    def st_ClassDef(self, s, frame):
        bases = [self.ev(b, frame) for b in s.bases]
        if any(isinstance(b, Opaque) for b in bases):
            raise Unsupported("class with unknown base")
        mod = self.frame_module(frame)
        qual = mod.name + "." + s.name
        slots = {}
        c = PyClass(s.name, bases, slots, qual)
        cf = Obj(self.new_oid(), "class:" + qual, slots)
        cf.tag = frame
        for st in s.body:
            try:
                self.exec_stmt(st, cf)
            except (Unsupported, PyRaise) as e:
                why = e.exc if isinstance(e, PyRaise) else e
                self.load_errors.setdefault(mod.name, []).append((st.line, repr(getattr(why, "slots", why))))
                for t in assigned_names(st):
                    slots.setdefault(t, Opaque("%s.%s (class statement not understood)" % (qual, t)))
        for v in slots.values():
            if isinstance(v, PyFunc) and v.owner is None:
                v.owner = c
        self.setslot(frame, s.name, c)

    # -- if with merging
    def st_If(self, s, frame):
        c = self.truth_term(self.ev(s.test, frame))
        if isinstance(c, bool):
            return self.exec_block(s.body if c else s.orelse, frame)
        c = self.simp(c)
        if isinstance(c, bool):
            return self.exec_block(s.body if c else s.orelse, frame)
        if self.merge_allowed(s):
            if self.merge_if(c, lambda: self.exec_block(s.body, frame), lambda: self.exec_block(s.orelse, frame)):
                return None
        if self.spec_depth:
            raise SpecFail()
        if self.branch(c):
            return self.exec_block(s.body, frame)
        return self.exec_block(s.orelse, frame)

    def merge_allowed(self, s):
        ok = s.f.get("_mergeable")
        if ok is None:
            ok = True
            for n in pyast.walk([s.body, s.orelse]):
                if n.t in ("Return", "Raise", "Break", "Continue", "While", "For", "TryExcept", "TryFinally", "Delete",
                           "ListComp", "Lambda", "FunctionDef", "With", "Yield", "Print", "Import", "ImportFrom"):
                    ok = False
                    break
            s.f["_mergeable"] = ok
        return ok and not self.nomerge

    nomerge = False

    def speculate(self, cond, thunk):
        """Run thunk assuming cond, without forking; return (writes, result) and undo the writes."""
        mark = len(self.trail)
        npc = len(self.pc)
        nfacts = len(self.facts)
        j = self.journal_on
        saved_counter = self.counter
        saved_oid = self.oid
        saved_depth, saved_stack = self.depth, list(self.callstack)
        noted = noted_state(self.S)
        self.journal_on = True
        self.spec_depth += 1
        self.solver.push()
        try:
            if self.solver.check(cond) == z3.unsat:
                return None
            self.solver.add(cond)
            self.pc.append(cond)
            r = thunk()
            if noted is not None and noted_state(self.S) != noted:
                raise SpecFail()        # a stand-in noted down something that merging would not undo
            writes = {}
            for owner, key, old in self.trail[mark:]:
                writes[(id(owner), key)] = (owner, key, owner.slots.get(key, MISSING))
            extra = self.pc[npc + 1:]
            return writes, r, extra
        except (PyRaise, SpecFail, PathEnd, Unsupported) as e:
            raise SpecFail()
        finally:
            self.solver.pop()
            for f in self.facts[nfacts:]:
                self.solver.add(f)
            del self.pc[npc:]
            self.spec_depth -= 1
            self.rollback(mark)
            if noted is not None:
                restore_state(self.S, noted)
            self.journal_on = j
            self.depth = saved_depth
            self.callstack = saved_stack

    def merge_if(self, c, then, els):
        try:
            self.check_budget()
            a = self.speculate(c, then)
            b = self.speculate(z3.Not(c), els)
        except SpecFail:
            return False
        if a is None or b is None:
            return False    # one side infeasible; the ordinary branch handles it
        wa, ra, ea = a
        wb, rb, eb = b
        out = []
        try:
            for k in set(wa) | set(wb):
                owner, key = (wa.get(k) or wb.get(k))[:2]
                cur = owner.slots.get(key, MISSING)
                va = wa[k][2] if k in wa else cur
                vb = wb[k][2] if k in wb else cur
                out.append((owner, key, self.merge_val(c, va, vb)))
        except SpecFail:
            return False
        for e in ea:
            self.assume(z3.Implies(c, e))
        for e in eb:
            self.assume(z3.Implies(z3.Not(c), e))
        out.sort(key=lambda t: (t[0].oid, str(t[1])))
        for owner, key, v in out:
            if v is MISSING:
                self.delslot(owner, key)
            else:
                self.setslot(owner, key, v)
        return True

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if a is MISSING or b is MISSING:
            # a variable assigned on one side only: usable only if never read before reassignment
            raise SpecFail()
        if is_boolish(a) and is_boolish(b):
            if isinstance(a, bool) and isinstance(b, bool) and a == b:
                return a
            return z3.If(c, z3.BoolVal(a) if isinstance(a, bool) else a, z3.BoolVal(b) if isinstance(b, bool) else b)
        if is_int(a) and is_int(b):
            if isinstance(a, int) and isinstance(b, int) and a == b:
                return a
            if is_z3(a) and is_z3(b) and a.eq(b):
                return a
            return z3.If(c, self.z(a), self.z(b))
        if isinstance(a, (str, type(None), float)) and type(a) == type(b) and a == b:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [self.merge_val(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, SymSeq) and isinstance(b, SymSeq) and a.kind == b.kind:
            if a.term.eq(b.term):
                return a
            return SymSeq(a.kind, z3.If(c, a.term, b.term), a.mk)
        for x, mine, y in ((a, True, b), (b, False, a)):
            if hasattr(x, "sym_merge"):
                r = x.sym_merge(self, c, mine, y)
                if r is not None:
                    return r
        raise SpecFail()

    # ------------------------------------------------------------------ loops
    def st_While(self, s, frame):
        return self.run_loop(s, frame, None)

    def st_For(self, s, frame):
        it = self.ev(s.iter, frame)
        items = self.iter_items(it)
        if isinstance(items, list):
            for x in items:
                self.assign(s.target, x, frame)
                r = self.exec_block(s.body, frame)
                if r[0] == BREAK:
                    return (NORMAL, None)
                if r[0] == RETURN:
                    return r
            if s.orelse:
                return self.exec_block(s.orelse, frame)
            return (NORMAL, None)
        return self.run_loop(s, frame, items)

    def iter_items(self, it):
        """list of values, or a symbolic iteration descriptor ('seq', SymSeq) / ('range', lo, hi, step)"""
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, str):
            return list(it)
        if isinstance(it, SStr):
            if not it.fixed():
                raise Unsupported("iteration over a string with number tokens")
            return [SStr([p]) if not isinstance(p, str) else p for p in it.pieces]
        if isinstance(it, (SymSeq, View)):
            return ("seq", it)
        if isinstance(it, Obj):
            if it.cls in (self.builtins["list"], self.builtins["set"]):
                v = it.slots["v"]
                return self.iter_items(v)
            if it.cls is self.builtins["dict"]:
                return [k for k in it.slots["v"].keys()]
            f = it.cls.lookup("__iter__")[0]
            if f is not None:
                return self.iter_items(self.call(Bound(f, it), [], {}))
        if isinstance(it, tuple) and it and it[0] in ("seq", "range"):
            return it
        if hasattr(it, "sym_iter"):
            return it.sym_iter(self)
        raise Unsupported("iteration over %r" % (it,))

    def check_budget(self):
        if self.deadline is not None and time.time() > self.deadline:
            raise OutOfTime()

    deadline = None

    def run_loop(self, s, frame, items):
        cands = self.driver.loop_candidates(self, s, frame) if self.driver else None
        if items is not None and items[0] == "rec":
            raise Unsupported("loop over a list that another loop built up (line %s)" % s.line)
        if items is not None and items[0] == "abs":
            from . import abslist
            return abslist.map_loop(self, s, frame, items[1])
        enum = items is not None and items[0] == "enum"
        if enum:
            items = ("seq", items[1])
        if items is not None and items[0] == "seq":
            if not cands:
                raise Unsupported("loop over a sequence of unknown length without an invariant (line %s)" % s.line)
            return self.inv_loop(s, frame, items, cands, enum)
        # while loop (or range loop): unroll while the condition is decided; go to invariant mode
        # the first time it is symbolic if there are candidates
        n = 0
        rng = None
        if items is not None:
            rng = [items[1]]
        while True:
            self.check_budget()
            if rng is None:
                c = self.truth_term(self.ev(s.test, frame))
            else:
                lo, hi, step = items[1], items[2], items[3]
                c = self.lt(rng[0], hi) if step > 0 else self.lt(hi, rng[0])
            c = self.simp(c) if not isinstance(c, bool) else c
            if not isinstance(c, bool) and n == 0 and cands and rng is None:
                return self.inv_loop(s, frame, None, cands)
            if isinstance(c, bool) and c and n == 0 and cands and rng is None and s.test.t in ("Name", "Num") and self.driver.force_inv(s):
                return self.inv_loop(s, frame, None, cands)
            if not self.branch(c):
                if s.orelse:
                    return self.exec_block(s.orelse, frame)
                return (NORMAL, None)
            n += 1
            if n > (self.MAX_UNROLL if not isinstance(c, bool) else 5000):
                raise Unsupported("loop at line %s needs an invariant" % s.line)
            if rng is not None:
                self.assign(s.target, rng[0], frame)
                rng[0] = self.binop("Add", rng[0], items[3])
            r = self.exec_block(s.body, frame)
            if r[0] == BREAK:
                return (NORMAL, None)
            if r[0] == RETURN:
                return r

    def inv_loop(self, s, frame, items, cands, enum=False):
        if self.spec_depth:
            raise SpecFail()
        base = (s.uid, tuple(d for d in self.dec))
        self.visits[base] = self.visits.get(base, 0) + 1
        key = base + (self.visits[base],)
        st = self.loopstate.setdefault(key, {"mods": set(), "dropped": {}, "proved": set(), "line": s.line})
        drv = self.driver
        L0 = LoopCtx(self, "init", frame, None)
        L0.items = items
        L0.key = key
        L0.node = s
        L0.loop_old = None
        seq = None
        if items is not None:
            L0.seq = items[1]
            L0.k = 0
        head_oid = self.oid
        # a snapshot of the state at loop entry for candidates that relate to it
        L0.entry = snapshot_env(frame)
        for name, fn in cands:
            if name in st["dropped"]:
                continue
            try:
                c = fn(L0)
            except (KeyError, AttributeError, TypeError, Unsupported, z3.Z3Exception, IndexError) as e:
                st["dropped"][name] = "not applicable at entry: %r" % (e,)
                continue
            if c is None:
                st["dropped"][name] = "not applicable"
                continue
            ok, why = drv.try_prove(self, "loop@%s.init.%s" % (s.line, name), c)
            if not ok:
                st["dropped"][name] = "initiation: %s" % why
                continue
        # havoc
        if st["mods"]:
            self.approx = True
        by_oid = dict((o.oid, o) for o in self.reachable(frame))
        for (oid, slot) in sorted(st["mods"], key=str):
            o = by_oid.get(oid)
            if o is None:
                continue
            cur = o.slots.get(slot, MISSING)
            if cur is MISSING:
                continue
            if isinstance(cur, Obj) and cur.cls is self.builtins["list"] and o is frame and fresh_lists(s, slot):
                # a list of its own: made in the loop (or before it), known by no other name
                self.setslot(o, slot, self.plist(self.havoc_like(cur.slots["v"], "%s_%s" % (slot, s.line), st, (oid, slot))))
                continue
            self.setslot(o, slot, self.havoc_like(cur, "%s_%s" % (slot, s.line), st, (oid, slot)))
        L1 = LoopCtx(self, "head", frame, L0)
        L1.items = items
        L1.key = key
        L1.node = s
        L1.entry = L0.entry
        if items is not None:
            L1.seq = items[1]
            L1.k = self.fresh_int("k")
            self.assume(L1.k >= 0)
        head_exc = None
        live = [(n, f) for n, f in cands if n not in st["dropped"]]
        stepping = True
        elem = None
        if items is not None:
            if self.choose(2) == 0:
                stepping = True
                elem = self.fresh_elem(items[1])
                self.assume(L1.k < seqlen(items[1]))
                if isinstance(items[1], View):
                    from . import strings
                    elem = SStr([strings.vat(self, items[1], L1.k)])
                else:
                    self.assume(items[1].term[L1.k] == self.elem_term(items[1], elem))
            else:
                stepping = False
                self.assume(L1.k == seqlen(items[1]))
                L1.phase = "exit"
        for name, fn in live:
            try:
                c = fn(L1)
            except (KeyError, AttributeError, TypeError, Unsupported, z3.Z3Exception, IndexError) as e:
                st["dropped"][name] = "not applicable at head: %r" % (e,)
                raise Restart(base[-1])
            if c is None:
                st["dropped"][name] = "not applicable at head"
                raise Restart(base[-1])
            if c is False:
                # not a statement about the state: assuming it would leave nothing to check
                st["dropped"][name] = "plainly false at head"
                raise Restart(base[-1])
            self.assume(c)
        var0 = []
        for name, fn in drv.loop_variants(self, s, frame):
            try:
                var0.append((name, fn, fn(L1)))
            except (KeyError, AttributeError, TypeError, Unsupported):
                pass
        mark = len(self.trail)
        if items is None:
            c = self.truth_term(self.ev(s.test, frame))
            stepping = self.branch(c)
        if not stepping:
            if s.orelse:
                return self.exec_block(s.orelse, frame)
            return (NORMAL, None)
        if items is not None:
            self.assign(s.target, (L1.k, elem) if enum else elem, frame)
        r = self.exec_block(s.body, frame)
        # new modifications?
        grew = False
        for owner, slot, old in self.trail[mark:]:
            if isinstance(owner, Obj) and owner.oid <= head_oid and (owner.oid, slot) not in st["mods"]:
                # (what an iteration that leaves the loop writes, no later iteration sees)
                if r[0] in (NORMAL, CONTINUE):
                    st["mods"].add((owner.oid, slot))
                    grew = True
            elif isinstance(owner, (PyClass, Module)):
                raise Unsupported("loop body writes global state")
        if grew:
            raise Restart(base[-1])
        if r[0] == BREAK:
            return (NORMAL, None)
        if r[0] == RETURN:
            return r
        L2 = LoopCtx(self, "end", frame, L1)
        L2.items = items
        L2.key = key
        L2.node = s
        L2.entry = L0.entry
        L2.elem = elem
        if items is not None:
            L2.seq = items[1]
            L2.k = L1.k + 1
        for name, fn in live:
            try:
                c = fn(L2)
            except (KeyError, AttributeError, TypeError, Unsupported, z3.Z3Exception, IndexError) as e:
                st["dropped"][name] = "not applicable at end: %r" % (e,)
                raise Restart(base[-1])
            ok, why = (False, "n/a") if c is None else drv.try_prove(self, "loop@%s.step.%s" % (s.line, name), c)
            if not ok:
                st["dropped"][name] = "preservation: %s" % why
                raise Restart(base[-1])
            st["proved"].add(name)
        # termination
        if items is None and var0:
            done = False
            for name, fn, v0 in var0:
                v1 = fn(L2)
                if drv.try_prove(self, "loop@%s.variant.%s" % (s.line, name), z3.And(v1 < v0, v0 >= 0))[0]:
                    done = True
                    break
            drv.note_termination(self, s, done)
        raise PathEnd()

    def fresh_elem(self, seq):
        if seq.kind == "char":
            c = self.fresh_int("c")
            self.assume(z3.And(c >= 0, c <= 255))
            return SStr([c])
        t = self.fresh_int("e")
        return seq.mk(t)

    def elem_term(self, seq, elem):
        if seq.kind == "char":
            p = elem.pieces[0]
            return z3.IntVal(ord(p)) if isinstance(p, str) else p
        return self.to_ref(elem)

    def to_ref(self, v):
        if is_int(v):
            return self.z(v)
        if isinstance(v, Obj) and v.lazy is not None:
            return v.lazy.ref
        if isinstance(v, Obj) and "ref" in v.slots:
            return v.slots["ref"]
        raise Unsupported("element reference of %r" % (v,))

    def reachable(self, frame):
        seen = {}
        todo = [frame]
        for fr in self.frames:
            todo.append(fr)
        while todo:
            o = todo.pop()
            if isinstance(o, Obj):
                if o.oid in seen:
                    continue
                seen[o.oid] = o
                todo.extend(o.slots.values())
                if isinstance(o.tag, Obj):
                    todo.append(o.tag)
            elif isinstance(o, (list, tuple)):
                todo.extend(o)
            elif isinstance(o, dict):
                todo.extend(o.values())
            elif isinstance(o, Bound):
                todo.append(o.self_)
            elif isinstance(o, PyFunc) and o.closure is not None:
                todo.append(o.closure)
        return list(seen.values())

    frames = ()

    def havoc_like(self, cur, base, st, key):
        if hasattr(cur, "sym_havoc"):
            return cur.sym_havoc(self, base)
        if isinstance(cur, bool) or isinstance(cur, z3.BoolRef):
            return self.fresh_bool(base)
        if is_int(cur):
            return self.fresh_int(base)
        if isinstance(cur, z3.SeqRef):
            return z3.Const("%s_%d" % (base, self.new_oid()), cur.sort())
        if isinstance(cur, (str, SStr, View, Rope)):
            h = self.driver.text_kind(self, base, cur)
            if h is not None:
                return h
        if isinstance(cur, (str, SStr)) or (isinstance(cur, SymSeq) and cur.kind == "char"):
            return SymSeq("char", self.fresh_seq(base))
        if isinstance(cur, View):
            lo, hi = self.fresh_int(base + "_lo"), self.fresh_int(base + "_hi")
            self.assume(z3.And(lo >= 0, lo <= hi, hi <= cur.end))
            return View(cur.fn, lo, hi, cur.end)
        if isinstance(cur, SymSeq):
            return SymSeq(cur.kind, self.fresh_seq(base), cur.mk)
        if isinstance(cur, list):
            mk = self.driver.list_kind(self, base, cur)
            if mk is not None and not isinstance(mk, tuple):
                return mk
            if mk is not None:
                kind, mkf = mk
                return SymSeq(kind, self.fresh_seq(base), mkf)
            raise Unsupported("list modified in a loop with an invariant: element kind unknown (%s)" % base)
        if cur is None:
            h = self.driver.none_kind(self, base)
            if isinstance(h, tuple):
                return h[0]
            if h is not None:
                return h
        if isinstance(cur, Obj):
            h = self.driver.obj_kind(self, base, cur)
            if h is not None:
                return h
        raise Unsupported("cannot havoc %r (%s)" % (cur, base))

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, frame):
        if t.t == "Name":
            self.setslot(frame, t.id, v)
        elif t.t == "Attribute":
            self.setattr_(self.ev(t.value, frame), t.attr, v)
        elif t.t == "Subscript":
            o = self.ev(t.value, frame)
            self.setitem(o, self.ev_slice(t.slice, frame), v)
        elif t.t in ("Tuple", "List"):
            items = self.iter_items(v)
            if not isinstance(items, list):
                raise Unsupported("unpack symbolic")
            if len(items) != len(t.elts):
                self.throw("ValueError", "unpack")
            for x, y in zip(t.elts, items):
                self.assign(x, y, frame)
        else:
            raise Unsupported("assign to %s" % t.t)

    # ------------------------------------------------------------------ expressions
    def ev(self, n, frame):
        m = getattr(self, "ex_" + n.t, None)
        if m is None:
            raise Unsupported("expression %s at line %s" % (n.t, n.line))
        return m(n, frame)

    def ex_Num(self, n, frame):
        return n.n

    def ex_Str(self, n, frame):
        return n.s

    def ex_Name(self, n, frame):
        return self.load_name(n.id, frame)

    def ex_Tuple(self, n, frame):
        return tuple(self.ev(x, frame) for x in n.elts)

    def ex_List(self, n, frame):
        return self.plist([self.ev(x, frame) for x in n.elts])

    def ex_Set(self, n, frame):
        return self.pset([self.ev(x, frame) for x in n.elts])

    def ex_Dict(self, n, frame):
        d = {}
        for k, v in zip(n.keys, n.values):
            d[self.key(self.ev(k, frame))] = self.ev(v, frame)
        o = self.pdict(d)
        return o

    def ex_Lambda(self, n, frame):
        f = self.make_func("<lambda>", n, frame)
        f.closure = frame
        return f

    def ex_IfExp(self, n, frame):
        c = self.truth_term(self.ev(n.test, frame))
        if not isinstance(c, bool):
            c = self.simp(c)
        if isinstance(c, bool):
            return self.ev(n.body if c else n.orelse, frame)
        try:
            a = self.speculate(c, lambda: self.ev(n.body, frame))
            b = self.speculate(z3.Not(c), lambda: self.ev(n.orelse, frame))
            if a is not None and b is not None and not a[0] and not b[0] and not a[2] and not b[2]:
                return self.merge_val(c, a[1], b[1])
        except SpecFail:
            pass
        if self.branch(c):
            return self.ev(n.body, frame)
        return self.ev(n.orelse, frame)

    def ex_BoolOp(self, n, frame):
        isand = n.op.t == "And"
        return self.boolop(isand, list(n.values), frame)

    def boolop(self, isand, vals, frame):
        v = self.ev(vals[0], frame)
        if len(vals) == 1:
            return v
        t = self.truth_term(v)
        if not isinstance(t, bool):
            t = self.simp(t)
        if isinstance(t, bool):
            if t == isand:
                return self.boolop(isand, vals[1:], frame)
            return v
        if is_boolish(v):
            try:
                r = self.speculate(t if isand else z3.Not(t), lambda: self.boolop(isand, vals[1:], frame))
                if r is None:
                    # the rest is never evaluated
                    return v
                if not r[0] and not r[2] and is_boolish(r[1]):
                    b = z3.BoolVal(r[1]) if isinstance(r[1], bool) else r[1]
                    return z3.And(t, b) if isand else z3.Or(t, b)
            except SpecFail:
                pass
        if self.branch(t) == isand:
            return self.boolop(isand, vals[1:], frame)
        return v if not is_boolish(v) else (not isand)

    def ex_UnaryOp(self, n, frame):
        v = self.ev(n.operand, frame)
        if n.op.t == "Not":
            t = self.truth_term(v)
            return (not t) if isinstance(t, bool) else z3.Not(t)
        if n.op.t == "USub":
            v = self.as_int(v)
            return -v
        if n.op.t == "UAdd":
            return v
        if n.op.t == "Invert" and isinstance(v, int):
            return ~v
        raise Unsupported("unary %s" % n.op.t)

    def as_int(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    def z(self, v):
        if isinstance(v, bool):
            return z3.IntVal(int(v))
        if isinstance(v, int):
            return z3.IntVal(v)
        if isinstance(v, z3.BoolRef):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if isinstance(v, z3.ArithRef):
            return v
        raise Unsupported("not an integer: %r" % (v,))

    def zb(self, v):
        return z3.BoolVal(v) if isinstance(v, bool) else v

    def ex_BinOp(self, n, frame):
        a = self.ev(n.left, frame)
        b = self.ev(n.right, frame)
        return self.binop(n.op.t, a, b)

    SPECIAL = {"Add": "__add__", "Sub": "__sub__", "Mult": "__mul__", "Div": "__div__", "Mod": "__mod__", "FloorDiv": "__floordiv__"}

    def binop(self, op, a, b):
        if isinstance(a, Obj) and op in self.SPECIAL and a.cls not in (self.builtins["list"], self.builtins["dict"], self.builtins["set"]):
            f = a.cls.lookup(self.SPECIAL[op])[0]
            if f is None:
                self.throw("TypeError", "unsupported operand")
            return self.call(Bound(f, a), [b], {})
        if op in ("BitXor", "BitAnd", "BitOr") and is_boolish(a) and is_boolish(b) and (is_z3(a) or is_z3(b)):
            x, y = self.zb(a), self.zb(b)
            return z3.Xor(x, y) if op == "BitXor" else z3.And(x, y) if op == "BitAnd" else z3.Or(x, y)
        if op == "Mod" and is_str(a):
            from . import strings
            return strings.format_percent(self, a, b)
        if op == "Add":
            if is_str(a) and is_str(b):
                from . import strings
                return strings.concat(self, a, b)
            if isinstance(a, tuple) and isinstance(b, tuple):
                return a + b
            if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls is self.builtins["list"]:
                va, vb = a.slots["v"], b.slots["v"]
                if isinstance(va, list) and isinstance(vb, list):
                    return self.plist(va + vb)
                raise Unsupported("symbolic list concat")
        if op in ("Sub", "BitOr") and isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls is self.builtins["set"]:
            return self.builtins["set"].methods["difference" if op == "Sub" else "union"](self, a, b)
        if op == "Mult":
            if isinstance(a, Obj) and a.cls is self.builtins["list"] and isinstance(b, int):
                return self.plist(a.slots["v"] * b)
            if isinstance(a, str) and isinstance(b, int):
                return a * b
            if isinstance(a, tuple) and isinstance(b, int):
                return a * b
        a, b = self.as_int(a), self.as_int(b)
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b}[op]()
            raise Unsupported("floating point")
        if not is_int(a) or not is_int(b):
            if a is None or b is None or is_str(a) or is_str(b) or isinstance(a, tuple) or isinstance(b, tuple):
                self.throw("TypeError", "unsupported operand types for %s" % op)
            raise Unsupported("binop %s on %r, %r" % (op, a, b))
        if isinstance(a, int) and isinstance(b, int):
            if op == "Add":
                return a + b
            if op == "Sub":
                return a - b
            if op == "Mult":
                return a * b
            if op in ("Div", "FloorDiv"):
                if b == 0:
                    self.throw("ZeroDivisionError")
                return a // b
            if op == "Mod":
                if b == 0:
                    self.throw("ZeroDivisionError")
                return a % b
            if op == "Pow":
                return a ** b
            if op == "BitAnd":
                return a & b
            if op == "BitOr":
                return a | b
            if op == "BitXor":
                return a ^ b
            if op == "LShift":
                return a << b
            if op == "RShift":
                return a >> b
            raise Unsupported("binop " + op)
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mult":
            return a * b
        if op in ("Div", "FloorDiv", "Mod"):
            return self.divmod_(op, a, b)
        if op == "LShift" and isinstance(b, int):
            return a * (1 << b)
        if op == "RShift" and isinstance(b, int):
            return self.z(a) / (1 << b)
        if op == "BitAnd" and isinstance(b, int) and b >= 0:
            # mask of contiguous bits
            if b == 0:
                return 0
            sh = (b & -b).bit_length() - 1
            w = b >> sh
            if w & (w + 1) == 0:
                return ((self.z(a) / (1 << sh)) % (w + 1)) * (1 << sh)
        raise Unsupported("symbolic binop %s" % op)

    def divmod_(self, op, a, b):
        if isinstance(b, int):
            if b == 0:
                self.throw("ZeroDivisionError")
            za = self.z(a)
            if b > 0:
                return za / b if op != "Mod" else za % b
            q = (-za) / (-b)
            return q if op != "Mod" else za - q * b
        if self.branch(b == 0):
            self.throw("ZeroDivisionError")
        za, zb = self.z(a), self.z(b)
        q = z3.If(zb > 0, za / zb, (-za) / (-zb))
        return q if op != "Mod" else za - q * zb

    def ex_Compare(self, n, frame):
        left = self.ev(n.left, frame)
        res = None
        for op, c in zip(n.ops, n.comparators):
            right = self.ev(c, frame)
            r = self.compare(op.t, left, right)
            if res is None:
                res = r
            else:
                if isinstance(res, bool) and isinstance(r, bool):
                    res = res and r
                else:
                    res = z3.And(self.zb(res), self.zb(r))
            if isinstance(res, bool) and not res:
                return False
            left = right
        return res

    CMPNAMES = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__lt__", "LtE": "__le__", "Gt": "__gt__", "GtE": "__ge__"}
    REFLECT = {"Eq": "__eq__", "NotEq": "__ne__", "Lt": "__gt__", "LtE": "__ge__", "Gt": "__lt__", "GtE": "__le__"}

    def not_(self, v):
        return (not v) if isinstance(v, bool) else z3.Not(v)

    def compare(self, op, a, b):
        if op == "Is":
            return self.is_(a, b)
        if op == "IsNot":
            return self.not_(self.is_(a, b))
        if op == "In":
            return self.contains(b, a)
        if op == "NotIn":
            return self.not_(self.contains(b, a))
        if isinstance(a, HashVal) or isinstance(b, HashVal):
            raise Unsupported("comparison of hashes")
        bi = self.builtins
        if isinstance(a, Obj) and a.cls not in (bi["list"], bi["dict"], bi["set"]):
            f = a.cls.lookup(self.CMPNAMES[op])[0]
            if f is not None:
                r = self.call(Bound(f, a), [b], {})
                return self.truth_term(r)
            if isinstance(b, Obj):
                f = b.cls.lookup(self.REFLECT[op])[0] if b.cls not in (bi["list"], bi["dict"], bi["set"]) else None
                if f is not None:
                    return self.truth_term(self.call(Bound(f, b), [a], {}))
            if op in ("Eq", "NotEq") and hasattr(a.slots.get("v"), "sym_eq") and isinstance(b, str):
                r = a.slots["v"].sym_eq(self, b)
                return r if op == "Eq" else self.not_(r)
            if op in ("Eq", "NotEq") and hasattr(a.slots.get("v"), "sym_eq"):
                return self.eq(a, b) if op == "Eq" else self.not_(self.eq(a, b))
            if op == "Eq":
                return a is b
            if op == "NotEq":
                return a is not b
            if a is b:
                return op in ("LtE", "GtE")
            raise Unsupported("ordering by identity of %r" % (a,))
        if isinstance(b, Obj) and b.cls not in (bi["list"], bi["dict"], bi["set"]):
            f = b.cls.lookup(self.REFLECT[op])[0]
            if f is not None:
                return self.truth_term(self.call(Bound(f, b), [a], {}))
            if op == "Eq":
                return False
            if op == "NotEq":
                return True
            raise Unsupported("ordering with object")
        if op == "Eq":
            return self.eq(a, b)
        if op == "NotEq":
            return self.not_(self.eq(a, b))
        if op == "Lt":
            return self.lt(a, b)
        if op == "LtE":
            return self.not_(self.lt(b, a))
        if op == "Gt":
            return self.lt(b, a)
        if op == "GtE":
            return self.not_(self.lt(a, b))
        raise Unsupported("compare " + op)

    def is_(self, a, b):
        if a is None or b is None:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported("is None on opaque")
            return a is None and b is None
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        if is_boolish(a) and is_boolish(b):
            return self.zb(a) == self.zb(b)
        if is_z3(a) or is_z3(b):
            if isinstance(a, Obj) or isinstance(b, Obj):
                return False
            raise Unsupported("identity of symbolic values")
        if isinstance(a, Obj) and isinstance(b, Obj) and (a.lazy or b.lazy) and a is not b:
            raise Unsupported("identity of lazy objects")
        if isinstance(a, Obj) and isinstance(b, Obj) and a is not b and hasattr(a.slots.get("v"), "sym_is"):
            return a.slots["v"].sym_is(self, b.slots.get("v"))
        return a is b

    def eq(self, a, b):
        if is_int(a) or is_boolish(a):
            if is_int(b) or is_boolish(b):
                if not is_z3(a) and not is_z3(b):
                    return a == b
                if is_boolish(a) and is_boolish(b):
                    return self.zb(a) == self.zb(b)
                return self.z(a) == self.z(b)
            if isinstance(b, float) and isinstance(a, int):
                return a == b
            if isinstance(b, Opaque):
                raise Unsupported("eq opaque")
            return False
        if hasattr(a, "sym_eq"):
            return a.sym_eq(self, b)
        if hasattr(b, "sym_eq"):
            return b.sym_eq(self, a)
        if a is None or b is None:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                raise Unsupported("eq opaque")
            return a is None and b is None
        if is_str(a) or is_str(b):
            if is_str(a) and is_str(b):
                from . import strings
                return strings.str_eq(self, a, b)
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return self.all_([self.compare("Eq", x, y) for x, y in zip(a, b)])
        if isinstance(a, tuple) or isinstance(b, tuple):
            return False
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a is b:
                return True
            if a.cls is not b.cls:
                return False
            va, vb = a.slots["v"], b.slots["v"]
            if isinstance(va, SymSeq) and isinstance(vb, SymSeq):
                return va.term == vb.term
            if hasattr(va, "sym_eq"):
                return va.sym_eq(self, vb)
            if hasattr(vb, "sym_eq"):
                return vb.sym_eq(self, va)
            if isinstance(va, dict):
                if isinstance(vb, dict):
                    if set(va) != set(vb):
                        return False
                    return self.all_([self.compare("Eq", va[k], vb[k]) for k in sorted(va, key=str)])
                raise Unsupported("dict eq")
            if isinstance(va, SymSeq) or isinstance(vb, SymSeq):
                raise Unsupported("mixed list eq")
            if a.cls is self.builtins["set"]:
                raise Unsupported("set eq")
            if len(va) != len(vb):
                return False
            return self.all_([self.compare("Eq", x, y) for x, y in zip(va, vb)])
        if isinstance(a, (float, int)) and isinstance(b, (float, int)):
            return a == b
        if isinstance(a, (PyClass, PyFunc, Builtin, Module, Bound)) or isinstance(b, (PyClass, PyFunc, Builtin, Module, Bound)):
            return a is b
        raise Unsupported("eq %r %r" % (a, b))

    def all_(self, cs):
        out = []
        for c in cs:
            if isinstance(c, bool):
                if not c:
                    return False
            else:
                out.append(c)
        if not out:
            return True
        return z3.And(*out) if len(out) > 1 else out[0]

    def any_(self, cs):
        out = []
        for c in cs:
            if isinstance(c, bool):
                if c:
                    return True
            else:
                out.append(c)
        if not out:
            return False
        return z3.Or(*out) if len(out) > 1 else out[0]

    def lt(self, a, b):
        if (is_int(a) or is_boolish(a)) and (is_int(b) or is_boolish(b)):
            if not is_z3(a) and not is_z3(b):
                return a < b
            return self.z(a) < self.z(b)
        if isinstance(a, float) or isinstance(b, float):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return a < b
            raise Unsupported("float compare")
        if isinstance(a, str) and isinstance(b, str):
            return a < b
        if is_int(a) and is_str(b):
            return True
        if is_str(a) and is_int(b):
            return False
        if isinstance(a, SStr) or isinstance(b, SStr):
            from . import strings
            return strings.str_lt(self, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            if not a:
                return bool(b)
            if not b:
                return False
            e = self.compare("Eq", a[0], b[0])
            l = self.compare("Lt", a[0], b[0])
            r = self.lt(a[1:], b[1:]) if len(a) > 1 or len(b) > 1 else False
            if isinstance(e, bool):
                return r if e else l
            return z3.Or(self.zb(l), z3.And(e, self.zb(r)))
        # Python 2: None is smaller than everything; ints smaller than strings; otherwise unsupported
        if a is None and b is not None and not isinstance(b, Opaque):
            return True
        if b is None and not isinstance(a, Opaque):
            return False
        if isinstance(a, Obj) and isinstance(b, Obj) and a.cls is b.cls is self.builtins["list"]:
            return self.lt(tuple(a.slots["v"]), tuple(b.slots["v"]))
        raise Unsupported("lt %r %r" % (a, b))

    def cmp_(self, a, b):
        if isinstance(a, Obj) and a.cls not in (self.builtins["list"], self.builtins["dict"], self.builtins["set"]):
            f = a.cls.lookup("__cmp__")[0]
            if f is not None:
                return self.call(Bound(f, a), [b], {})
            e = self.compare("Eq", a, b)
            l = self.compare("Lt", a, b)
        else:
            e, l = self.eq(a, b), self.lt(a, b)
        if isinstance(e, bool) and isinstance(l, bool):
            return 0 if e else (-1 if l else 1)
        return z3.If(self.zb(e), z3.IntVal(0), z3.If(self.zb(l), z3.IntVal(-1), z3.IntVal(1)))

    def truth_term(self, v):
        """truth value as bool or z3 Bool"""
        if isinstance(v, bool):
            return v
        if v is None:
            return False
        if isinstance(v, (int, float, str, tuple)):
            return bool(v)
        if isinstance(v, z3.BoolRef):
            return v
        if isinstance(v, z3.ArithRef):
            return v != 0
        if isinstance(v, SStr):
            return len(v.pieces) > 0
        if isinstance(v, View):
            from . import strings
            return strings.vlen(v) > 0
        if isinstance(v, SymSeq):
            return z3.Length(v.term) > 0
        if isinstance(v, Obj):
            if v.cls in (self.builtins["list"], self.builtins["set"], self.builtins["dict"]):
                x = v.slots["v"]
                if isinstance(x, SymSeq):
                    return z3.Length(x.term) > 0
                if hasattr(x, "sym_len"):
                    return x.sym_len(self) > 0
                return len(x) > 0
            m = getattr(v.cls, "methods", None)
            if m and "__nonzero__" in m:
                return m["__nonzero__"](self, v)
            f = v.cls.lookup("__nonzero__")[0] if v.cls is not None else None
            if f is not None:
                return self.truth_term(self.call(Bound(f, v), [], {}))
            f = v.cls.lookup("__len__")[0] if v.cls is not None else None
            if f is not None:
                return self.truth_term(self.call(Bound(f, v), [], {}))
            return True
        if isinstance(v, (PyClass, PyFunc, Bound, Builtin, Module)):
            return True
        raise Unsupported("truth of %r" % (v,))

    def truth(self, v):
        return self.branch(self.truth_term(v))

    # ------------------------------------------------------------------ attributes
    def ex_Attribute(self, n, frame):
        return self.getattr_(self.ev(n.value, frame), n.attr)

    def getattr_(self, o, name, default=MISSING):
        if isinstance(o, Obj):
            if name in o.slots and not (name == "v" and o.cls in (self.builtins["list"], self.builtins["dict"], self.builtins["set"])):
                return o.slots[name]
            if o.lazy is not None:
                r = o.lazy.load(self, o, name)
                if r is not MISSING:
                    return r
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            cls = o.cls
            if isinstance(cls, PyClass):
                m = getattr(cls, "methods", None)
                v, owner = cls.lookup(name)
                if v is not None or owner is not None:
                    return self.bind(v, o, cls)
                for c in cls.mro():
                    mm = getattr(c, "methods", None)
                    if mm and name in mm:
                        fn = mm[name]
                        return Builtin(cls.name + "." + name, lambda E, args, kw, fn=fn, o=o: fn(E, o, *args, **kw))
            if default is not MISSING:
                return default
            self.throw("AttributeError", name)
        if isinstance(o, PyClass):
            v, owner = o.lookup(name)
            if owner is not None:
                if isinstance(v, PyFunc):
                    if v.kind == "static":
                        return v
                    if v.kind == "class":
                        return Bound(v, o)
                    return v
                return v
            if name == "__name__":
                return o.name
            for c in o.mro():
                mm = getattr(c, "methods", None)
                if mm and name in mm:
                    fn = mm[name]
                    return Builtin(o.name + "." + name, lambda E, args, kw, fn=fn: fn(E, *args, **kw))
            if default is not MISSING:
                return default
            self.throw("AttributeError", name)
        if isinstance(o, Module):
            if name in o.slots:
                return o.slots[name]
            sub = o.name + "." + name
            if sub in self.asts or sub in self.stubs:
                return self.module_chain(sub)
            if getattr(o, "opaque", False):
                return Opaque(sub)
            if default is not MISSING:
                return default
            self.throw("AttributeError", name)
        if isinstance(o, Super):
            mro = o.obj.cls.mro() if isinstance(o.obj, Obj) else o.obj.mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if name in c.slots:
                    return self.bind(c.slots[name], o.obj, c)
                mm = getattr(c, "methods", None)
                if mm and name in mm:
                    fn = mm[name]
                    return Builtin(c.name + "." + name, lambda E, args, kw, fn=fn: fn(E, o.obj, *args, **kw))
            self.throw("AttributeError", name)
        if is_str(o):
            from . import strings
            fn = strings.METHODS.get(name)
            if fn is not None:
                return Builtin("str." + name, lambda E, args, kw: fn(E, o, *args, **kw))
            if default is not MISSING:
                return default
            raise Unsupported("str.%s" % name)
        if isinstance(o, tuple):
            if name == "index" or name == "count":
                raise Unsupported("tuple." + name)
            self.throw("AttributeError", name)
        if isinstance(o, Opaque):
            return Opaque(o.what + "." + name)
        if isinstance(o, PyFunc):
            if name in ("__name__", "func_name"):
                return o.name
        if o is None or is_int(o) or is_boolish(o):
            if default is not MISSING:
                return default
            self.throw("AttributeError", name)
        raise Unsupported("attribute %s of %r" % (name, o))

    def bind(self, v, o, cls):
        if isinstance(v, PyFunc):
            if v.kind == "static":
                return v
            if v.kind == "class":
                return Bound(v, o.cls if isinstance(o, Obj) else o)
            if v.kind == "property":
                return self.call(Bound(v, o), [], {})
            return Bound(v, o)
        return v

    def setattr_(self, o, name, v):
        if isinstance(o, Obj):
            if o.cls in (self.builtins["list"], self.builtins["dict"], self.builtins["set"]):
                self.throw("AttributeError", name)
            if o.lazy is not None and not o.lazy.writable:
                raise Unsupported("write to an element of a symbolic list")
            self.setslot(o, name, v)
        elif isinstance(o, (PyClass, Module)):
            if self.journal_on and not self.driver.allow_global_write(self, o, name):
                raise Unsupported("write to global %s.%s" % (o, name))
            self.setslot(o, name, v)
        elif isinstance(o, Opaque):
            raise Unsupported("attribute write on opaque")
        else:
            self.throw("AttributeError", name)

    # ------------------------------------------------------------------ subscripts
    def ev_slice(self, sl, frame):
        if sl.t == "Index":
            return self.ev(sl.value, frame)
        if sl.t == "Slice":
            return ("slice",
                    self.ev(sl.lower, frame) if sl.lower is not None else None,
                    self.ev(sl.upper, frame) if sl.upper is not None else None,
                    self.ev(sl.step, frame) if sl.step is not None else None)
        raise Unsupported("slice kind " + sl.t)

    def ex_Subscript(self, n, frame):
        o = self.ev(n.value, frame)
        return self.getitem(o, self.ev_slice(n.slice, frame))

    def is_slice(self, idx):
        return isinstance(idx, tuple) and len(idx) == 4 and isinstance(idx[0], str) and idx[0] == "slice"

    def getitem(self, o, idx):
        if is_str(o):
            from . import strings
            return strings.getitem(self, o, idx)
        if isinstance(o, tuple):
            return self.list_get(list(o), idx, tuple)
        if hasattr(o, "sym_get"):
            return o.sym_get(self, o, idx)
        if isinstance(o, Obj):
            if o.cls is self.builtins["list"]:
                v = o.slots["v"]
                if isinstance(v, SymSeq):
                    return self.symseq_get(v, idx)
                if hasattr(v, "sym_get"):
                    return v.sym_get(self, o, idx)
                return self.list_get(v, idx, self.plist)
            if o.cls is self.builtins["dict"]:
                return self.dict_get(o, idx)
            m = getattr(o.cls, "methods", None)
            if m and "__getitem__" in m:
                return m["__getitem__"](self, o, idx)
            f = o.cls.lookup("__getitem__")[0]
            if f is not None:
                return self.call(Bound(f, o), [idx], {})
        if isinstance(o, Opaque):
            return Opaque(o.what + "[]")
        if o is None or is_int(o):
            self.throw("TypeError", "not subscriptable")
        raise Unsupported("getitem on %r" % (o,))

    def list_get(self, items, idx, mk):
        n = len(items)
        if self.is_slice(idx):
            lo, hi, st = idx[1], idx[2], idx[3]
            if all(x is None or isinstance(x, int) for x in (lo, hi, st)):
                return mk(items[slice(lo, hi, st)])
            lo = self.concretize(lo, -n - 1, n + 1) if lo is not None else None
            hi = self.concretize(hi, -n - 1, n + 1) if hi is not None else None
            return mk(items[slice(lo, hi, st)])
        if isinstance(idx, z3.BoolRef):
            idx = self.as_int(idx)
        if isinstance(idx, (int, bool)):
            if -n <= idx < n:
                return items[idx]
            self.throw("IndexError", "index out of range")
        if isinstance(idx, z3.ArithRef):
            if not self.branch(z3.And(idx >= -n, idx < n)):
                self.throw("IndexError", "index out of range")
            if all(is_int(x) for x in items):
                neg = not self.entailed(idx >= 0)
                t = self.z(items[0])
                for i in range(1, n):
                    t = z3.If((idx % n) == i if neg else idx == i, self.z(items[i]), t)
                return t
            if all(is_boolish(x) for x in items):
                t = self.zb(items[0])
                for i in range(1, n):
                    t = z3.If(z3.Or(idx == i, idx == i - n), self.zb(items[i]), t)
                return t
            i = self.concretize(idx, -n, n - 1)
            return items[i]
        self.throw("TypeError", "bad index")

    def symseq_get(self, v, idx):
        if self.is_slice(idx):
            if idx[1] is None and idx[2] is None and idx[3] is None:
                return self.plist(v)
            raise Unsupported("slice of a symbolic list")
        n = z3.Length(v.term)
        i = self.z(idx)
        if not self.branch(z3.And(i >= -n, i < n)):
            self.throw("IndexError")
        j = i if self.entailed(i >= 0) else (n + i if self.entailed(i < 0) else z3.If(i >= 0, i, n + i))
        return v.mk(v.term[j])

    def concretize(self, t, lo, hi):
        """fork on the value of t (which must lie within lo..hi on this path)"""
        if isinstance(t, int):
            return t
        t = z3.simplify(t)
        if z3.is_int_value(t):
            return t.as_long()
        if hi - lo > 400:
            raise Unsupported("concretize over a wide range")
        for v in range(lo, hi + 1):
            if v == hi and self.entailed(t == hi):
                return v
            if self.branch(t == v):
                return v
        raise Unsupported("value outside the expected range")

    def setitem(self, o, idx, v):
        if isinstance(o, Obj):
            if o.cls is self.builtins["list"]:
                cur = o.slots["v"]
                if self.is_slice(idx):
                    if idx[1] is None and idx[2] is None and idx[3] is None:
                        new = self.iter_items(v)
                        if isinstance(new, list):
                            self.setslot(o, "v", new)
                        elif new[0] in ("seq", "abs", "rec"):
                            self.setslot(o, "v", new[1])
                        else:
                            raise Unsupported("slice assign")
                        return
                    new = self.iter_items(v)
                    if not (isinstance(cur, list) and isinstance(new, list) and idx[3] is None):
                        raise Unsupported("slice assignment")
                    b = []
                    for x in idx[1:3]:
                        if x is not None and not isinstance(x, int):
                            raise Unsupported("slice assignment at an unknown index")
                        b.append(x)
                    cur = list(cur)
                    cur[slice(*b)] = new
                    self.setslot(o, "v", cur)
                    return
                if isinstance(cur, SymSeq):
                    raise Unsupported("store into a symbolic list")
                if isinstance(idx, int):
                    if not -len(cur) <= idx < len(cur):
                        self.throw("IndexError")
                    new = list(cur)
                    new[idx] = v
                    self.setslot(o, "v", new)
                    return
                i = self.concretize(idx, -len(cur), len(cur) - 1)
                new = list(cur)
                new[i] = v
                self.setslot(o, "v", new)
                return
            if o.cls is self.builtins["dict"]:
                return self.dict_set(o, idx, v)
            m = getattr(o.cls, "methods", None)
            if m and "__setitem__" in m:
                return m["__setitem__"](self, o, idx, v)
            f = o.cls.lookup("__setitem__")[0]
            if f is not None:
                return self.call(Bound(f, o), [idx, v], {})
        if isinstance(o, (tuple, str)):
            self.throw("TypeError", "object does not support item assignment")
        raise Unsupported("setitem on %r" % (o,))

    def delitem(self, o, idx):
        if isinstance(o, Obj) and o.cls is self.builtins["dict"]:
            return self.dict_del(o, idx)
        if isinstance(o, Obj) and o.cls is self.builtins["list"] and isinstance(idx, int):
            new = list(o.slots["v"])
            if not -len(new) <= idx < len(new):
                self.throw("IndexError")
            del new[idx]
            self.setslot(o, "v", new)
            return
        if isinstance(o, Obj) and o.cls is self.builtins["list"] and isinstance(o.slots["v"], SymSeq) and is_int(idx):
            v = o.slots["v"]
            n = z3.Length(v.term)
            i = self.z(idx)
            if not self.branch(z3.And(i >= 0, i < n)):
                if not self.branch(z3.And(i < 0, i >= -n)):
                    self.throw("IndexError")
                i = i + n
            self.setslot(o, "v", type(v)(v.kind, z3.Concat(z3.SubSeq(v.term, 0, i), z3.SubSeq(v.term, i + 1, n - i - 1)), v.mk))
            return
        raise Unsupported("del item")

    # ------------------------------------------------------------------ dicts
    def key(self, k):
        if isinstance(k, (str, int, bool, float)) or k is None or isinstance(k, (PyClass, PyFunc)):
            return k
        if isinstance(k, tuple):
            return tuple(self.key(x) for x in k)
        if isinstance(k, Obj):
            if k.cls.lookup("__hash__")[0] is None and k.cls.lookup("__eq__")[0] is None and not hasattr(k.cls, "methods"):
                return k
        raise Unsupported("dict key %r" % (k,))

    def is_ckey(self, k):
        try:
            self.key(k)
            return True
        except Unsupported:
            return False

    def dict_find(self, o, k):
        """('hit', value) or ('miss', None); forks on symbolic keys"""
        d = o.slots["v"]
        if hasattr(d, "sym_find"):
            return d.sym_find(self, o, k)
        if self.driver is not None and self.journal_on:
            m = self.driver.memo(self, o)
            if m is not None:
                return m.find(self, o, k)
        if self.is_ckey(k):
            kk = self.key(k)
            if kk in d:
                return ("hit", d[kk])
            # symbolic keys present?
            return ("miss", None)
        for kk in d:
            e = self.eq(kk, k) if type(kk) != tuple or isinstance(k, tuple) else False
            if self.branch(e):
                return ("hit", d[kk])
        return ("miss", None)

    def dict_get(self, o, k):
        r, v = self.dict_find(o, k)
        if r == "hit":
            return v
        fac = o.slots.get("factory")
        if fac is not None:
            v = self.call(fac, [], {})
            self.dict_set(o, k, v)
            return v
        self.throw("KeyError", k)

    def dict_set(self, o, k, v):
        d = o.slots["v"]
        if hasattr(d, "sym_store"):
            return d.sym_store(self, o, k, v)
        if self.driver is not None and self.journal_on:
            m = self.driver.memo(self, o)
            if m is not None:
                return m.store(self, o, k, v)
        nd = dict(d)
        if self.is_ckey(k):
            nd[self.key(k)] = v
        else:
            for kk in d:
                if self.branch(self.eq(kk, k)):
                    nd[kk] = v
                    break
            else:
                from .symmap import SymMap
                items = list(d.items())

                def base(E, k):
                    for a, b in reversed(items):
                        if E.branch(E.truth_term(E.eq(a, k))):
                            return ("hit", b)
                    return None
                self.setslot(o, "v", SymMap(base, ((k, v),)))
                return
        self.setslot(o, "v", nd)

    def dict_del(self, o, k):
        d = o.slots["v"]
        if hasattr(d, "sym_del"):
            return d.sym_del(self, o, k)
        if not self.is_ckey(k):
            raise Unsupported("del with symbolic key")
        if self.key(k) not in d:
            self.throw("KeyError", k)
        nd = dict(d)
        del nd[self.key(k)]
        self.setslot(o, "v", nd)

    def contains(self, coll, x):
        if is_str(coll):
            from . import strings
            return strings.contains(self, coll, x)
        if isinstance(coll, (tuple, list)):
            return self.any_([self.compare("Eq", y, x) for y in coll])
        if isinstance(coll, Obj):
            if coll.cls in (self.builtins["list"], self.builtins["set"]):
                v = coll.slots["v"]
                if hasattr(v, "sym_contains"):
                    return v.sym_contains(self, coll, x)
                if isinstance(v, SymSeq):
                    return z3.Contains(v.term, z3.Unit(self.to_ref(x)))
                return self.any_([self.compare("Eq", y, x) for y in v])
            if coll.cls is self.builtins["dict"]:
                d = coll.slots["v"]
                if hasattr(d, "sym_has"):
                    return d.sym_has(self, coll, x)
                if self.driver is not None and self.journal_on and self.driver.memo(self, coll) is not None:
                    r, _v = self.dict_find(coll, x)
                    return r == "hit"
                if self.is_ckey(x):
                    return self.key(x) in d
                return self.any_([self.eq(k, x) for k in d])
            m = getattr(coll.cls, "methods", None)
            if m and "__contains__" in m:
                return m["__contains__"](self, coll, x)
            f = coll.cls.lookup("__contains__")[0]
            if f is not None:
                return self.truth_term(self.call(Bound(f, coll), [x], {}))
        raise Unsupported("in %r" % (coll,))

    # ------------------------------------------------------------------ comprehensions
    def ex_ListComp(self, n, frame):
        if len(n.generators) == 1:
            src = self.ev(n.generators[0].iter, frame)
            it = self.iter_items(src)
            if isinstance(it, tuple) and it[0] == "bag":
                return self.plist(it[1].comp(self, frame, n.generators[0], n.elt))
            return self.list_comp(n, frame, src)
        return self.list_comp(n, frame, MISSING)

    def list_comp(self, n, frame, src):
        out = self.plist([])
        app = self.builtins["list"].methods["append"]
        self.setslot(frame, "[]", out)      # reachable while it is built
        self.comp(n.generators, 0, frame, lambda: app(self, out, self.ev(n.elt, frame)), src)
        return out

    ex_GeneratorExp = ex_ListComp

    def ex_SetComp(self, n, frame):
        out = []
        self.comp(n.generators, 0, frame, lambda: out.append(self.ev(n.elt, frame)))
        return self.pset(out)

    def comp(self, gens, i, frame, emit, src=MISSING):
        if i == len(gens):
            emit()
            return
        g = gens[i]
        items = self.iter_items(self.ev(g.iter, frame) if src is MISSING else src)
        if isinstance(items, tuple) and items[0] == "range":
            x, hi, step = items[1:]
            items = []
            while self.branch(self.lt(x, hi) if step > 0 else self.lt(hi, x)):
                items.append(x)
                x = self.binop("Add", x, step)
                if len(items) > self.MAX_UNROLL:
                    raise Unsupported("comprehension over a range of unknown length")
        if isinstance(items, tuple) and items[0] == "abs":
            from . import abslist

            def one():
                if all(self.truth(self.ev(c, frame)) for c in g.ifs):
                    self.comp(gens, i + 1, frame, emit)
            return abslist.comp_loop(self, g, frame, items[1], g.target, one)
        if not isinstance(items, list):
            raise Unsupported("comprehension over a symbolic sequence")
        for x in items:
            self.assign(g.target, x, frame)
            if all(self.truth(self.ev(c, frame)) for c in g.ifs):
                self.comp(gens, i + 1, frame, emit)

    # ------------------------------------------------------------------ calls
    def ex_Call(self, n, frame):
        if n.func.t == "Name" and n.func.id == "super" and "super" not in frame.slots:
            cls = self.ev(n.args[0], frame)
            return Super(cls, self.ev(n.args[1], frame))
        f = self.ev(n.func, frame)
        args = [self.ev(a, frame) for a in n.args]
        if n.starargs is not None:
            x = self.iter_items(self.ev(n.starargs, frame))
            if not isinstance(x, list):
                raise Unsupported("symbolic *args")
            args.extend(x)
        kw = dict((k.arg, self.ev(k.value, frame)) for k in n.keywords)
        if n.kwargs is not None:
            d = self.ev(n.kwargs, frame)
            kw.update(d.slots["v"])
        return self.call(f, args, kw)

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, Bound):
            return self.call(f.func, [f.self_] + list(args), kw)
        if isinstance(f, PyFunc):
            return self.call_func(f, list(args), kw)
        if isinstance(f, Builtin):
            return f.fn(self, list(args), kw)
        if isinstance(f, PyClass):
            return self.instantiate(f, list(args), kw)
        if isinstance(f, Obj):
            m = (getattr(f.cls, "methods", None) or {}).get("__call__")
            if m is not None:
                return m(self, f, *args, **kw)
            m = f.cls.lookup("__call__")[0]
            if m is not None:
                return self.call(Bound(m, f), args, kw)
            self.throw("TypeError", "not callable")
        if isinstance(f, Opaque):
            s = self.stubs.get("call:" + f.what)
            if s is not None:
                return s(self, args, kw)
            raise Unsupported("call of %s" % f.what)
        if f is None or is_int(f) or is_str(f) or isinstance(f, tuple):
            self.throw("TypeError", "not callable")
        raise Unsupported("call %r" % (f,))

    def instantiate(self, cls, args, kw):
        h = getattr(cls, "construct", None)
        if h is not None:
            return h(self, args, kw)
        q = self.stubs.get("new:" + cls.qual) if cls.qual else None
        if q is not None:
            r = q(self, cls, args, kw)
            if r is not MISSING:
                return r
        o = Obj(self.new_oid(), cls, {})
        for c in cls.mro():
            if "__init__" in c.slots:
                self.call_func(c.slots["__init__"], [o] + args, kw)
                return o
            hm = getattr(c, "methods", None)
            if hm and "__init__" in hm:
                hm["__init__"](self, o, *args, **kw)
                return o
        return o

    def bind_args(self, f, args, kw):
        a = f.node.args
        names = [x.id if x.t == "Name" else None for x in a.args]
        slots = {}
        n = len(names)
        if len(args) > n and a.vararg is None:
            self.throw("TypeError", "%s() takes %d arguments (%d given)" % (f.name, n, len(args)))
        for nm, v, x in zip(names, args, a.args):
            if nm is None:
                raise Unsupported("tuple parameter")
            slots[nm] = v
        extra = args[n:]
        rest = {}
        for k, v in kw.items():
            if k in names:
                if k in slots:
                    self.throw("TypeError", "multiple values for " + k)
                slots[k] = v
            elif a.kwarg is not None:
                rest[k] = v
            else:
                self.throw("TypeError", "unexpected keyword " + k)
        nd = len(f.defaults)
        for i, nm in enumerate(names):
            if nm not in slots:
                j = i - (n - nd)
                if j >= 0:
                    slots[nm] = f.defaults[j]
                else:
                    self.throw("TypeError", "%s() missing argument %s" % (f.name, nm))
        if a.vararg is not None:
            slots[a.vararg] = tuple(extra)
        if a.kwarg is not None:
            slots[a.kwarg] = self.pdict(rest)
        return slots

    def call_func(self, f, args, kw, root=False):
        slots = self.bind_args(f, args, kw)
        if not root and self.driver is not None:
            st = self.stubs.get("func:" + f.qual)
            if st is not None:
                return st(self, slots)
            c = self.driver.contract_for(self, f, slots)
            if c is not None:
                return self.driver.apply_contract(self, f, c, slots)
        if self.depth > self.MAX_DEPTH:
            raise Unsupported("recursion too deep at %s" % f.qual)
        if self.journal_on:
            self.inlined[f.qual] = self.inlined.get(f.qual, 0) + 1
        frame = Obj(self.new_oid(), None, slots)
        if f.closure is not None:
            frame.tag = f.closure
        else:
            mf = Obj(-3, None, f.module.slots)
            mf.tag = f.module
            frame.tag = mf
        self.depth += 1
        self.callstack.append(f.qual)
        saved_frames = self.frames
        self.frames = tuple(self.frames) + (frame,)
        try:
            if f.node.t == "Lambda":
                return self.ev(f.node.body, frame)
            r = self.exec_block(f.node.body, frame)
            return r[1] if r[0] == RETURN else None
        finally:
            self.depth -= 1
            self.callstack.pop()
            self.frames = saved_frames

    driver = None

    def ex_Yield(self, n, frame):
        raise Unsupported("generator")

    def ex_Repr(self, n, frame):
        raise Unsupported("repr")


class OutOfTime(Exception):
    pass


def seqlen(v):
    return z3.simplify(v.hi - v.lo) if isinstance(v, View) else z3.Length(v.term)


def fresh_lists(stmt, name):
    """every list the loop gives this name is a new one, and no other name or list gets it"""
    for n in pyast.walk(stmt):
        if n.t == "Assign":
            names = [t.id for t in n.targets if t.t == "Name"]
            if name in names and (n.value.t != "List" or len(n.targets) != 1):
                return False
            if name not in names and n.value.t == "Name" and n.value.id == name:
                return False
        elif n.t in ("Call", "List", "Tuple", "Dict"):
            for x in (n.args if n.t == "Call" else getattr(n, "elts", None) or getattr(n, "values", [])):
                if x.t == "Name" and x.id == name and not (n.t == "Call" and (n.func.t == "Attribute" and n.func.attr in ("join", "extend") or n.func.t == "Name" and n.func.id in ("len", "tuple"))):
                    return False
    return True


def assigned_names(st):
    out = []
    if st.t == "Assign":
        for t in st.targets:
            for n in pyast.walk(t):
                if n.t == "Name":
                    out.append(n.id)
    elif st.t in ("FunctionDef", "ClassDef"):
        out.append(st.name)
    elif st.t in ("Import", "ImportFrom"):
        for a in st.names:
            out.append((a.asname or a.name).split(".")[0])
    return out


def snapshot_env(frame):
    return dict(frame.slots)


def note(v):
    if isinstance(v, list):
        return Kept(v, tuple(note(x) for x in v))
    if isinstance(v, dict):
        return Kept(v, tuple((k, note(x)) for k, x in v.items()))
    return Kept(v, None)


class Kept(object):
    """a value the contract's state holds, and, of a list or dict, what was in it"""

    def __init__(self, v, inside):
        self.v, self.inside = v, inside

    def __eq__(self, other):
        if self.inside is None and other.inside is None and type(self.v) is type(other.v) and isinstance(self.v, (bool, int, str, type(None))):
            return self.v == other.v
        if isinstance(self.v, tuple) and isinstance(other.v, tuple):
            return self.v is other.v or len(self.v) == len(other.v) and all(note(x) == note(y) for x, y in zip(self.v, other.v))
        return self.v is other.v and self.inside == other.inside

    def __ne__(self, other):
        return not self == other

    def restore(self):
        if isinstance(self.v, list):
            self.v[:] = [k.restore() for k in self.inside]
        elif isinstance(self.v, dict):
            self.v.clear()
            self.v.update((k, x.restore()) for k, x in self.inside)
        return self.v


def noted_state(S):
    return None if S is None else dict((k, note(v)) for k, v in S.__dict__.items() if k not in UNNOTED)


def restore_state(S, noted):
    for k in list(S.__dict__):
        if k not in noted and k not in UNNOTED:
            del S.__dict__[k]
    for k, v in noted.items():
        S.__dict__[k] = v.restore()


UNNOTED = ()


def snapshot(v, memo=None):
    """Deep copy of a value graph (used for old-state references in contracts)."""
    memo = {} if memo is None else memo
    if isinstance(v, Obj):
        if id(v) in memo:
            return memo[id(v)]
        c = Obj(v.oid, v.cls, {}, v.tag)
        c.lazy = v.lazy
        memo[id(v)] = c
        for k, x in v.slots.items():
            c.slots[k] = snapshot(x, memo)
        return c
    if isinstance(v, list):
        return [snapshot(x, memo) for x in v]
    if isinstance(v, tuple):
        return tuple(snapshot(x, memo) for x in v)
    if isinstance(v, dict):
        return dict((k, snapshot(x, memo)) for k, x in v.items())
    return v
