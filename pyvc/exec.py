"""Symbolic execution of the real functions' syntax trees; loops by inferred (Houdini) invariants."""
import os, ast, time
import z3
from . import smt
from .smt import I, B, R, A, fresh
from .values import *
from .source import Program, Class, Func, Module, Ext

class Deadline(Exception):
    pass

class State:
    __slots__ = ("frames", "store", "heap", "facts", "trigs", "shared", "ghost")
    def __init__(self):
        self.frames, self.store, self.heap, self.facts, self.trigs, self.shared, self.ghost = [{}], {}, {}, [], [], frozenset(), {}
    def copy(self):
        s = State.__new__(State)
        s.frames = [dict(f) for f in self.frames]
        s.store = dict(self.store)
        s.heap = dict(self.heap)
        s.facts = list(self.facts)
        s.trigs = list(self.trigs)
        s.shared = self.shared
        s.ghost = dict(self.ghost)
        return s
    @property
    def env(self):
        return self.frames[-1]
    def assume(self, *fs):
        for f in fs:
            if not z3.is_true(f):
                self.facts.append(f)

def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, P):
        return a.kind == b.kind and a.t.eq(b.t)
    if isinstance(a, Ref):
        return a.model == b.model and a.t.eq(b.t)
    if isinstance(a, Obj):
        return a.id == b.id
    if isinstance(a, Opt):
        return a.isnone.eq(b.isnone) and same(a.v, b.v)
    if isinstance(a, Tup):
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, ClsV):
        return a.c is b.c
    if isinstance(a, (ExtV, BuiltinV)):
        return a.name == b.name
    if isinstance(a, ModV):
        return a.m is b.m
    if isinstance(a, Poison):
        return True
    if isinstance(a, MethV):
        return a.name == b.name and same(a.recv, b.recv)
    if isinstance(a, FnV):
        return a.f.key == b.f.key and (a.self_ is b.self_ or (a.self_ is not None and b.self_ is not None and same(a.self_, b.self_)))
    return False

class Contract:
    """sidecar contract of one function; see contracts/*.py"""
    target = None
    props = ()
    never_returns = False
    needs = ()
    def setup(self, ex, st):
        raise NotImplementedError
    def folds(self, ctx):
        return []
    def terms(self, ctx, ks):
        return {}
    def elems(self, ctx, ks):
        return {}
    def invariants(self, ctx, ks):
        """candidate facts about the loop indices alone"""
        return {}
    def post(self, ex, ctx, st, ret):
        return []
    def raises(self, ex, ctx, st, exc):
        """goal that has to hold on a path that raises; None: must be unreachable"""
        return None
    def apply(self, ex, st, args, node):
        """effect of a call according to the contract; None: inline the body instead"""
        return None
    outer = False           # the folds describe outermost loops only
    def lemmas(self, ex):
        """[(name, facts, goal)] proved once, independent of the function body"""
        return []

TRACE = os.environ.get("PYVC_TRACE")
DBG, DBGV = os.environ.get("PYVC_DBG"), os.environ.get("PYVC_DBGV")
class Obligation:
    def __init__(self, name, status, detail="", time=0.0):
        self.name, self.status, self.detail, self.time = name, status, detail, time

from .expr import ExprMixin

class Exec(ExprMixin):
    def __init__(self, prog, contracts, models, exts, timeout=10.0, deadline=None):
        self.prog, self.contracts, self.models, self.exts = prog, contracts, models, exts
        self.timeout, self.deadline = timeout, deadline
        self.quiet = 0
        self.rf = []
        self.ks = []
        self.acts = []
        self.obls = []
        self.nid = 0
        self.contract = None
        self.ctx = None
        self.callstack = []
        self.inlined = set()
        self.applied = set()
        self.assumptions = set()
        self.modstack = []
        self.pool_cache = {}
        self.desugared = {}
        self.lossy = []         # loop invariants given up because the solver had no answer

    # ------------------------------------------------------------ driver
    def verify_scenario(self, contract, func):
        """a lemma over several real functions: contract.run executes their bodies symbolically and states obligations"""
        self.contract, self.ctx = contract, {}
        self.ks, self.acts, self.callstack, self.modstack, self.pool_cache = [], [], [], [func.module], {}
        self.quiet = 0
        self.rf = [[]]
        self.spec_name = getattr(contract, "label", None) or func.key
        st = State()
        st.frames = [{}]
        contract.run(self, st)
        self.no_raise("")
        self.modstack = []
        if not self.obls:
            self.obls.append(Obligation(self.spec_name + ": has obligations", "unknown", "no obligation was generated"))

    def no_raise(self, what):
        for r, exc, line, w, ks in self.rf[0]:
            self.oblige(r, "%s: %sdoes not raise %s (line %d%s)" % (self.spec_name, what, exc, line, " " + w if w else ""), z3.BoolVal(False))
        self.rf[0] = []

    def invoke(self, st, o, name, args, what=None):
        """call a real method; it must not raise"""
        self.no_raise("")
        v = self.call(st, self.getattr(st, o, name, None), list(args), {}, None)
        self.no_raise((what or name) + " ")
        return v

    def refused(self, st, o, name, args, what):
        """call a real method on a copy of the state; no execution may return"""
        s = st.copy()
        self.rf.append([])
        try:
            self.call(s, self.getattr(s, o, name, None), list(args), {}, None)
        finally:
            self.rf.pop()
        self.goal(s, what, z3.BoolVal(False))

    def may(self, st, o, name, args, check):
        """call a real method, which may return or raise; check(state) after either"""
        self.no_raise("")
        self.rf.append([])
        try:
            self.call(st, self.getattr(st, o, name, None), list(args), {}, None)
        finally:
            raised = self.rf.pop()
        check(st)
        for r, exc, line, w, ks in raised:
            check(r)

    def goal(self, st, what, g):
        self.oblige(st, "%s: %s" % (self.spec_name, what), g)

    def verify(self, contract, func):
        if hasattr(contract, "run"):
            return self.verify_scenario(contract, func)
        return self.verify_function(contract, func)

    def verify_function(self, contract, func):
        """prove that the body of func satisfies its contract; obligations are collected in self.obls"""
        self.contract, self.ctx = contract, {}
        self.ks, self.acts, self.callstack, self.modstack, self.pool_cache = [], [], [], [], {}
        self.quiet = 0
        self.rf = [[]]
        st = State()
        st.frames = [{}]
        self.modstack.append(func.module)
        args = contract.setup(self, st)
        env = self.bind(st, func, args, {}, func.node)
        self.modstack.pop()
        st0 = st.copy()
        outs = self.run_body(st, func, env)
        name = func.key
        for r, exc, line, what, self.raise_ks in self.rf[0]:
            r.frames = r.frames[:1]
            goal = contract.raises(self, self.ctx, r, exc)
            lab = "%s: raises %s only as specified (line %d%s)" % (name, exc, line, " " + what if what else "")
            self.oblige(r, lab, z3.BoolVal(False) if goal is None else goal)
        outs = self.merge_all(outs)
        reach = False
        for i, (s, v) in enumerate(outs):
            if not reach and smt.check(s.facts, z3.BoolVal(False), s.trigs, 4.0).status != "valid":
                reach = True
            for lab, goal in contract.post(self, self.ctx, s, v):
                self.oblige(s, "%s: %s%s" % (name, lab, " [path %d]" % i if len(outs) > 1 else ""), goal)
        if not outs or not reach:
            if not contract.never_returns:
                # nothing returns: the contract would hold vacuously
                self.obls.append(Obligation(name + ": some execution returns", "invalid", "every execution raises or the precondition is contradictory"))
        elif not self.obls:
            self.obls.append(Obligation(name + ": has obligations", "unknown", "no obligation was generated"))

    # ------------------------------------------------------------ cells
    def new_cell(self, st, c):
        self.nid += 1
        st.store[self.nid] = c
        return Obj(self.nid)

    def elem_shape(self, pc):
        return pc.elem if isinstance(pc, ListCell) else pc.vshape

    def elem_terms(self, pc, key):
        return [smt.sel(a, key) for a in (pc.arrs if isinstance(pc, ListCell) else pc.varrs)]

    def cell(self, st, id):
        c = st.store[id]
        if not isinstance(c, AliasCell):
            return c
        pc = self.cell(st, c.parent)
        if pc.epoch != c.epoch:
            raise Unsupported("use of an element reference after its container was reassigned")
        sh = self.elem_shape(pc)
        sub, off = nav(sh, c.steps)
        ts = self.elem_terms(pc, c.key)[off:off + len(sub.sorts())]
        if isinstance(sub, SRec):
            return sub.cell(self, st, ts, (c.parent, c.key, c.steps, c.epoch))
        return sub.cell(self, st, ts)

    def root(self, st, id):
        c = st.store[id]
        while isinstance(c, AliasCell):
            id = c.parent
            c = st.store[id]
        return id

    def set_cell(self, st, id, cell):
        c = st.store[id]
        if not isinstance(c, AliasCell):
            st.store[id] = cell
            return
        if self.root(st, id) in st.shared:
            raise Unsupported("mutation of an object stored in two containers")
        pc = self.cell(st, c.parent)
        if pc.epoch != c.epoch:
            raise Unsupported("use of an element reference after its container was reassigned")
        sh = self.elem_shape(pc)
        sub, off = nav(sh, c.steps)
        ns = join(sub, cell_shape(self, st, cell))
        if ns != sub:
            nsh = subst(sh, c.steps, ns)
            pc = self.relayout_cell(pc, nsh)
            sh = nsh
            sub, off = nav(sh, c.steps)
        ts = sub.cell_leaves(self, st, cell)
        arrs = list(pc.arrs if isinstance(pc, ListCell) else pc.varrs)
        for i, t in enumerate(ts):
            old = z3.Select(arrs[off + i], c.key)
            if not t.eq(old):
                arrs[off + i] = z3.Store(arrs[off + i], c.key, t)
        self.set_cell(st, c.parent, self.with_arrs(pc, arrs))

    def with_arrs(self, pc, arrs):
        if isinstance(pc, ListCell):
            return ListCell(pc.elem, pc.n, arrs, pc.epoch)
        return DictCell(pc.kshape, pc.vshape, pc.dom, arrs, pc.klen, pc.karr, pc.epoch)

    def relayout_cell(self, pc, nsh):
        if isinstance(pc, ListCell):
            ts = relayout(SList(pc.elem), SList(nsh), [pc.n] + pc.arrs)
            return ListCell(nsh, ts[0], ts[1:], pc.epoch)
        ts = relayout(SDict(pc.kshape, pc.vshape), SDict(pc.kshape, nsh), [pc.dom] + pc.varrs + [pc.klen, pc.karr])
        return DictCell(pc.kshape, nsh, ts[0], ts[1:-2], ts[-2], ts[-1], pc.epoch)

    def note_sharing(self, st, v, dest, sh=None):
        """v is stored by value in container dest: references already living in another container become shared"""
        if isinstance(sh, SRef):
            return
        if isinstance(v, Obj):
            if isinstance(st.store[v.id], AliasCell):
                st.shared = st.shared | {self.root(st, v.id), self.root(st, dest)}
            else:
                c = st.store[v.id]
                if isinstance(c, RecCell):
                    for x in c.fields.values():
                        self.note_sharing(st, x, dest)
        elif isinstance(v, Tup):
            for x in v.items:
                self.note_sharing(st, x, dest)
        elif isinstance(v, Opt):
            self.note_sharing(st, v.v, dest)

    def rebind(self, st, sh, v, parent, key, steps, epoch):
        if isinstance(sh, SRef):
            return
        if isinstance(sh, SOpt):
            if v is NONE:
                return
            return self.rebind(st, sh.inner, v.v if isinstance(v, Opt) else v, parent, key, steps + (("opt",),), epoch)
        if isinstance(v, Tup):
            for i, x in enumerate(v.items):
                self.rebind(st, sh.items[i], x, parent, key, steps + (("item", i),), epoch)
        elif isinstance(v, Obj):
            c = st.store[v.id]
            if isinstance(c, AliasCell):
                return
            if isinstance(c, RecCell):
                d = dict(sh.fields)
                for nm, x in c.fields.items():
                    self.rebind(st, d[nm], x, parent, key, steps + (("field", nm),), epoch)
            st.store[v.id] = AliasCell(parent, key, steps, epoch)

    def list_append(self, st, id, v):
        c = self.cell(st, id)
        if isinstance(c, FixCell):
            if not z3.is_int_value(z3.simplify(z3.IntVal(len(c.items)))):
                raise Unsupported("list")
            self.set_cell(st, id, FixCell(c.items + [v], c.epoch)) if not isinstance(st.store[id], AliasCell) else self.list_append_sym(st, id, v)
            return
        self.list_append_sym(st, id, v)

    def list_append_sym(self, st, id, v):
        c = self.cell(st, id)
        if isinstance(c, FixCell):
            c = fix_to_list(self, st, c)
        sh = join(c.elem, shape_of(self, st, v))
        if sh != c.elem:
            c = self.relayout_cell(c, sh)
        ts = sh.leaves(self, st, v)
        self.note_sharing(st, v, id, sh)
        nc = ListCell(sh, c.n + 1, [z3.Store(a, c.n, t) for a, t in zip(c.arrs, ts)], c.epoch)
        key = c.n
        self.set_cell(st, id, nc)
        self.rebind(st, sh, v, id, key, (), nc.epoch)

    def keycode(self, v):
        if isinstance(v, P) and v.kind in ("int", "str"):
            return v.t, SP(v.kind)
        if isinstance(v, Ref):
            return v.t, SRef(v.model)
        if isinstance(v, Tup) and len(v.items) == 2:
            (a, sa), (b, sb) = self.keycode(v.items[0]), self.keycode(v.items[1])
            return smt.pair(a, b), STup([sa, sb])
        raise Unsupported("dictionary key %r" % (v,))

    def unkey(self, sh, t):
        if isinstance(sh, STup):
            return Tup([self.unkey(sh.items[0], smt.fst(t)), self.unkey(sh.items[1], smt.snd(t))])
        return sh.build(self, None, [t])

    def dict_set(self, st, id, k, v):
        c = self.cell(st, id)
        kc, ks = self.keycode(k)
        if c.kshape is not None and c.kshape != ks:
            raise Unsupported("dictionary with keys of several types")
        vs = shape_of(self, st, v)
        if isinstance(vs, SFix) and len(vs.items) == 1:
            vs = SList(vs.items[0])         # a list that starts with one element
        sh = join(c.vshape, vs)
        if sh != c.vshape:
            c = self.relayout_cell(c, sh)
        ts = sh.leaves(self, st, v)
        self.note_sharing(st, v, id, sh)
        has = z3.Select(c.dom, kc)
        nc = DictCell(ks, sh, z3.Store(c.dom, kc, z3.BoolVal(True)), [z3.Store(a, kc, t) for a, t in zip(c.varrs, ts)],
                      z3.If(has, c.klen, c.klen + 1), z3.If(has, c.karr, z3.Store(c.karr, c.klen, kc)), c.epoch + 1)
        self.set_cell(st, id, nc)
        self.rebind(st, sh, v, id, kc, (), nc.epoch)

    def elem(self, st, id, key):
        """value of element `key` (index or key code) of the container"""
        c = self.cell(st, id)
        sh = self.elem_shape(c)
        if sh is None:
            raise Unsupported("element of an untyped container")
        ts = self.elem_terms(c, key)
        if sh.mutable:
            return sh.build(self, st, ts, (id, key, (), c.epoch))
        return sh.build(self, st, ts)

    # ------------------------------------------------------------ exceptions and obligations
    def may_raise(self, st, bad, exc, node=None, what=""):
        bad = z3.simplify(bad)
        if z3.is_false(bad):
            return
        r = st.copy()
        r.assume(bad)
        self.rf[-1].append((r, exc, getattr(node, "lineno", 0), what, list(self.ks)))
        st.assume(z3.BoolVal(False) if z3.is_true(bad) else z3.Not(bad))

    def feasible(self, st, timeout=4.0):
        r = smt.check(st.facts, z3.BoolVal(False), st.trigs, timeout)
        return r.status != "valid"

    def oblige(self, st, name, goal, timeout=None):
        if self.quiet:
            return
        self.tick()
        t0 = time.time()
        r = smt.check(st.facts, goal, st.trigs, timeout or self.timeout)
        d = ""
        if r.status == "invalid" and self.lossy:
            # the counterexample may be due to a loop invariant the solver could not decide
            r = smt.Result("unknown", reason="an invariant was given up: %s" % (self.lossy[0],))
        if r.status == "invalid":
            d = self.describe(r.model, goal)
        elif r.status == "unknown":
            d = r.reason
        self.obls.append(Obligation(name, r.status, d, time.time() - t0))

    def violate(self, st, name):
        """the current path breaks a frame condition: recorded unless the path is infeasible"""
        if not any(o.name == name for o in self.obls):
            r = smt.check(st.facts, z3.BoolVal(False), st.trigs, 4.0)
            if r.status != "valid":
                self.obls.append(Obligation(name, "invalid", self.describe(r.model, None) if r.model is not None else "path not excluded"))

    def describe(self, m, goal):
        try:
            out = []
            for d in m.decls():
                if d.arity() == 0:
                    s = str(m[d])
                    if len(s) < 120:
                        out.append("%s=%s" % (d.name(), s))
            return "counter-model: " + ", ".join(sorted(out)[:60])
        except Exception as e:
            return "counter-model (unprintable: %s)" % e

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Deadline()

    # ------------------------------------------------------------ merging
    def merge_val(self, c, s1, s2, st, a, b):
        if same(a, b):
            return a
        if isinstance(a, Poison) or isinstance(b, Poison):
            return Poison("defined on one path only")
        if isinstance(a, P) and isinstance(b, P) and a.kind == b.kind:
            return P(a.kind, z3.If(c, a.t, b.t))
        if isinstance(a, Ref) and isinstance(b, Ref) and a.model == b.model:
            return Ref(a.model, z3.If(c, a.t, b.t))
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.merge_val(c, s1, s2, st, x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, Obj) and isinstance(b, Obj):
            ca, cb = s1.store.get(a.id), s2.store.get(b.id)
            if isinstance(ca, AliasCell) and isinstance(cb, AliasCell) and ca.parent == cb.parent and ca.steps == cb.steps and ca.key.eq(cb.key):
                pe = self.cell(st, ca.parent).epoch
                ok1 = self.cell(s1, ca.parent).epoch == ca.epoch
                ok2 = self.cell(s2, cb.parent).epoch == cb.epoch
                if ok1 and ok2:
                    return self.new_cell(st, AliasCell(ca.parent, ca.key, ca.steps, pe))
            raise ShapeMismatch("objects from two paths")
        if (a is NONE) != (b is NONE) or isinstance(a, Opt) or isinstance(b, Opt):
            def split(v):
                if v is NONE:
                    return z3.BoolVal(True), None
                if isinstance(v, Opt):
                    return v.isnone, v.v
                return z3.BoolVal(False), v
            (na, va), (nb, vb) = split(a), split(b)
            if va is None and vb is None:
                return NONE
            if va is None:
                v = vb
            elif vb is None:
                v = va
            else:
                v = self.merge_val(c, s1, s2, st, va, vb)
            return Opt(z3.simplify(z3.If(c, na, nb)), v)
        if isinstance(a, (P, Tup)) and isinstance(b, (P, Tup)):
            sh = join(shape_of(self, s1, a), shape_of(self, s2, b))
            return sh.build(self, st, [z3.If(c, x, y) for x, y in zip(sh.leaves(self, s1, a), sh.leaves(self, s2, b))])
        for x, y, cc, sy in ((a, b, c, s2), (b, a, z3.Not(c), s1)):
            # a sequence that is only read, or an empty literal one
            cy = sy.store.get(y.id) if isinstance(y, Obj) else None
            if isinstance(cy, FixCell) and not cy.items or isinstance(cy, ListCell) and cy.elem is None or isinstance(y, Tup) and not y.items:
                q = x if isinstance(x, SeqV) else None
                if isinstance(x, Ref):
                    try:
                        q = self.models[x.model].iterate(self, st, x)
                    except Unsupported:
                        break
                if isinstance(q, SeqV) and q.fixed is None:
                    return SeqV(z3.If(cc, q.n, z3.IntVal(0)), q.get)
        raise ShapeMismatch("cannot merge %r and %r" % (a, b))

    def ite(self, c, x, y):
        return smt.aite(c, x, y)

    def merge_cell(self, c, s1, s2, st, x, y):
        if x is y:
            return x
        if isinstance(x, AliasCell) or isinstance(y, AliasCell):
            if isinstance(x, AliasCell) and isinstance(y, AliasCell) and x.parent == y.parent and x.steps == y.steps and x.key.eq(y.key):
                return x if x.epoch == y.epoch else None
            return None
        if isinstance(x, IterCell) and isinstance(y, IterCell):
            if x.seq is not y.seq:
                return None
            return IterCell(x.seq, self.ite(c, x.pos, y.pos))
        if isinstance(x, RecCell) and isinstance(y, RecCell) and x.cls == y.cls:
            f = {}
            for k in list(x.fields) + [k for k in y.fields if k not in x.fields]:
                if k in x.fields and k in y.fields:
                    f[k] = self.merge_val(c, s1, s2, st, x.fields[k], y.fields[k])
                else:
                    f[k] = Poison("attribute set on one path only")
            return RecCell(x.cls, f)
        ep = x.epoch if x.epoch == y.epoch else max(x.epoch, y.epoch) + 1
        if isinstance(x, FixCell) and isinstance(y, FixCell) and len(x.items) == len(y.items):
            return FixCell([self.merge_val(c, s1, s2, st, p, q) for p, q in zip(x.items, y.items)], ep)
        sx, sy = cell_shape(self, s1, x), cell_shape(self, s2, y)
        sh = join(sx, sy)
        lx, ly = sh.cell_leaves(self, s1, x), sh.cell_leaves(self, s2, y)
        nc = sh.cell(self, st, [self.ite(c, p, q) for p, q in zip(lx, ly)])
        nc.epoch = ep
        return nc

    def merge(self, c, s1, s2, pre):
        """one state that behaves like s1 when c and like s2 otherwise; facts[:pre] are common"""
        st = State()
        st.facts = s1.facts[:pre]
        n = z3.Not(c)
        for f in s1.facts[pre:]:
            if not f.eq(c):
                st.facts.append(z3.Implies(c, f))
        for f in s2.facts[pre:]:
            if not f.eq(n):
                st.facts.append(z3.Implies(n, f))
        t1, t2 = set(map(id, s1.trigs)), set(map(id, s2.trigs))
        for t in s1.trigs:
            st.trigs.append(t if id(t) in t2 else smt.Trig(t.arr, lambda i, t=t: z3.Implies(c, t.fn(i))))
        for t in s2.trigs:
            if id(t) not in t1:
                st.trigs.append(smt.Trig(t.arr, lambda i, t=t: z3.Implies(n, t.fn(i))))
        st.shared = s1.shared | s2.shared
        for k in set(s1.heap) | set(s2.heap):
            st.heap[k] = self.ite(c, s1.heap[k], s2.heap[k])
        for k in set(s1.ghost) | set(s2.ghost):
            if s1.ghost.get(k) is not s2.ghost.get(k):
                raise ShapeMismatch("ghost state differs")
            st.ghost[k] = s1.ghost[k]
        if len(s1.frames) != len(s2.frames):
            raise ShapeMismatch("frames")
        late = []
        for i in list(s1.store) + [k for k in s2.store if k not in s1.store]:
            x, y = s1.store.get(i), s2.store.get(i)
            if x is None or y is None:
                st.store[i] = x if x is not None else y
            else:
                if x is y:
                    st.store[i] = x
                    continue
                if isinstance(x, AliasCell) or isinstance(y, AliasCell):
                    late.append(i)
                    st.store[i] = x
                    continue
                m = self.merge_cell(c, s1, s2, st, x, y)
                if m is None:
                    raise ShapeMismatch("cells")
                st.store[i] = m
        for i in late:
            x, y = s1.store[i], s2.store[i]
            if isinstance(x, AliasCell) and isinstance(y, AliasCell) and x.parent == y.parent and x.steps == y.steps and x.key.eq(y.key) \
                    and self.cell(s1, x.parent).epoch == x.epoch and self.cell(s2, y.parent).epoch == y.epoch:
                st.store[i] = AliasCell(x.parent, x.key, x.steps, self.cell(st, x.parent).epoch)
            else:
                raise ShapeMismatch("aliases")
        # references kept valid on both paths stay valid
        for i, x in list(st.store.items()):
            if isinstance(x, AliasCell) and i in s1.store and i in s2.store and s1.store[i] is s2.store[i]:
                p1, p2 = self.cell(s1, x.parent), self.cell(s2, x.parent)
                if p1.epoch == x.epoch and p2.epoch == x.epoch:
                    e = self.cell(st, x.parent).epoch
                    if e != x.epoch:
                        st.store[i] = AliasCell(x.parent, x.key, x.steps, e)
        st.frames = []
        for f1, f2 in zip(s1.frames, s2.frames):
            f = {}
            for k in list(f1) + [k for k in f2 if k not in f1]:
                if k in f1 and k in f2:
                    try:
                        f[k] = self.merge_val(c, s1, s2, st, f1[k], f2[k])
                    except ShapeMismatch:
                        raise
                else:
                    f[k] = Poison("variable %s is set on one path only" % k)
            st.frames.append(f)
        return st

    def prefix(self, s1, s2):
        n = 0
        for a, b in zip(s1.facts, s2.facts):
            if a is not b and not a.eq(b):
                break
            n += 1
        return n

    def try_merge(self, s1, v1, s2, v2):
        """-> (state, value) or None"""
        pre = self.prefix(s1, s2)
        c = None
        if pre < len(s1.facts) and pre < len(s2.facts):
            a, b = s1.facts[pre], s2.facts[pre]
            if b.eq(z3.Not(a)) or (z3.is_not(a) and a.arg(0).eq(b)):
                c = a
        if c is None:
            c = fresh("sel", B)
        try:
            st = self.merge(c, s1, s2, pre)
            v = None
            if v1 is not None or v2 is not None:
                v = self.merge_val(c, s1, s2, st, v1 if v1 is not None else NONE, v2 if v2 is not None else NONE)
            return st, v
        except ShapeMismatch:
            return None

    def merge_all(self, items):
        items = list(items)
        out = []
        while items:
            s, v = items.pop(0)
            i = 0
            while i < len(items):
                r = self.try_merge(s, v, items[i][0], items[i][1])
                if r is not None:
                    s, v = r
                    items.pop(i)
                else:
                    i += 1
            out.append((s, v))
        return out

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        """-> [(kind, state, value)], kind in next/break/continue/return"""
        live, res = [st], []
        for s in stmts:
            nxt = []
            for x in live:
                for o in self.stmt(s, x):
                    if o[0] == "next":
                        nxt.append(o[1])
                    else:
                        res.append(o)
            if len(nxt) > 1:
                nxt = [a for a, _ in self.merge_all([(a, None) for a in nxt])]
            if len(nxt) > 24:
                raise Unsupported("too many paths")
            live = nxt
            if not live:
                break
        return res + [("next", x, None) for x in live]

    def stmt(self, s, st):
        self.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s (line %d)" % (type(s).__name__, s.lineno))
        try:
            return m(s, st)
        except Unsupported:
            if any(z3.is_false(f) for f in st.facts):
                return []        # the path has ended: an exception is raised whatever comes next
            raise

    def s_Pass(self, s, st):
        return [("next", st, None)]
    def s_Global(self, s, st):
        raise Unsupported("global statement")
    def s_Import(self, s, st):
        for a in s.names:
            m = self.prog.module(a.name if a.asname else a.name.split(".")[0])
            st.env[a.asname or a.name.split(".")[0]] = ModV(m) if m else ExtV(a.name if a.asname else a.name.split(".")[0])
        return [("next", st, None)]
    def s_ImportFrom(self, s, st):
        base = self.mod().absmod(s)
        for a in s.names:
            m = self.prog.module(base)
            r = Ext(base + "." + a.name) if m is None else (self.prog.resolve(m, a.name) or self.prog.module(base + "." + a.name))
            st.env[a.asname or a.name] = self.wrap(r, st)
        return [("next", st, None)]
    def s_Expr(self, s, st):
        if not isinstance(s.value, ast.Constant):
            self.ev(s.value, st)
        return [("next", st, None)]
    def s_Assert(self, s, st):
        t = self.truth(st, self.ev(s.test, st))
        self.may_raise(st, z3.Not(t), "AssertionError", s)
        return [("next", st, None)]
    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        return [("return", st, v)]
    def s_Break(self, s, st):
        return [("break", st, None)]
    def s_Continue(self, s, st):
        return [("continue", st, None)]
    def s_Raise(self, s, st):
        exc = "Exception"
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            exc = ast.unparse(e).split(".")[-1]
            if isinstance(s.exc, ast.Call):
                self.quiet += 1
                try:
                    for a in s.exc.args:
                        self.ev(a, st)
                except Unsupported:
                    pass        # the text of an error message is not specified
                finally:
                    self.quiet -= 1
        self.rf[-1].append((st, exc, s.lineno, "raise", list(self.ks)))
        return []
    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)
        return [("next", st, None)]
    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)
        return [("next", st, None)]
    def s_AugAssign(self, s, st):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, t)
            if isinstance(cur, Obj) and isinstance(self.cell(st, cur.id), (ListCell, FixCell)):
                self.list_extend(st, cur.id, self.ev(s.value, st), s)
                return [("next", st, None)]
            st.env[t.id] = self.binop(st, s.op, cur, self.ev(s.value, st), s)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st)
            cur = self.getattr(st, o, t.attr, t)
            if isinstance(s.op, ast.Add) and isinstance(cur, Obj) and isinstance(self.cell(st, cur.id), (ListCell, FixCell)):
                self.list_extend(st, cur.id, self.ev(s.value, st), s)
                return [("next", st, None)]
            self.setattr(st, o, t.attr, self.binop(st, s.op, cur, self.ev(s.value, st), s), s)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            k = self.ev(t.slice, st)
            cur = self.getitem(st, o, k, t)
            if isinstance(s.op, ast.Add) and isinstance(cur, Obj) and isinstance(self.cell(st, cur.id), (ListCell, FixCell)):
                self.list_extend(st, cur.id, self.ev(s.value, st), s)
                return [("next", st, None)]
            self.setitem(st, o, k, self.binop(st, s.op, cur, self.ev(s.value, st), s), s, existing=True)
        else:
            raise Unsupported("augmented assignment")
        return [("next", st, None)]
    def s_FunctionDef(self, s, st):
        st.env[s.name] = LambdaV(s, st.env, self.mod())
        return [("next", st, None)]
    def s_Delete(self, s, st):
        raise Unsupported("del")

    def s_If(self, s, st):
        c = z3.simplify(self.truth(st, self.ev(s.test, st)))
        if z3.is_true(c):
            return self.block(s.body, st)
        if z3.is_false(c):
            return self.block(s.orelse, st)
        pre = len(st.facts)
        s1, s2 = st, st.copy()
        s1 = st.copy()
        s1.assume(c)
        s2.assume(z3.Not(c))
        o1 = self.guarded(lambda: self.block(s.body, s1), s1)
        o2 = self.guarded(lambda: self.block(s.orelse, s2) if s.orelse else [("next", s2, None)], s2)
        n1 = [o[1] for o in o1 if o[0] == "next"]
        n2 = [o[1] for o in o2 if o[0] == "next"]
        res = [o for o in o1 + o2 if o[0] != "next"]
        if len(n1) == 1 and len(n2) == 1:
            try:
                return res + [("next", self.merge(c, n1[0], n2[0], pre), None)]
            except ShapeMismatch:
                pass
        return res + [("next", x, None) for x in n1 + n2]

    def guarded(self, f, st):
        """execute a branch; an unsupported construct on an infeasible path is irrelevant"""
        try:
            return f()
        except Poisoned:
            raise
        except Unsupported:
            if not self.feasible(st):
                return []
            raise

    def s_With(self, s, st):
        mgrs = []
        for it in s.items:
            m = self.ev(it.context_expr, st)
            if not isinstance(m, Ref) and (not isinstance(m, Obj) or not isinstance(self.cell(st, m.id), RecCell)):
                raise Unsupported("with statement on %r" % (m,))
            v = self.call(st, self.getattr(st, m, "__enter__", s), [], {}, s)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st)
            mgrs.append(m)
        # exceptions inside propagate: __exit__ of the managers in scope returns a false value (checked by callers' posts)
        out = []
        for k, x, v in self.block(s.body, st):
            for m in reversed(mgrs):
                self.call(x, self.getattr(x, m, "__exit__", s), [NONE, NONE, NONE], {}, s)
            out.append((k, x, v))
        return out

    def s_Try(self, s, st):
        if s.finalbody:
            return self.try_finally(s, st)
        self.rf.append([])
        try:
            outs = self.block(s.body, st)
        finally:
            rs = self.rf.pop()
        if s.orelse:
            new = []
            for o in outs:
                if o[0] == "next":
                    new += self.block(s.orelse, o[1])
                else:
                    new.append(o)
            outs = new
        for r, exc, line, what, ks in rs:
            for h in s.handlers:
                names = None
                if h.type is not None:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    names = [ast.unparse(t).split(".")[-1] for t in ts]
                if names is None or "Exception" in names or "BaseException" in names or exc in names:
                    # unwind frames of functions entered inside the try body
                    r2 = r
                    r2.frames = r2.frames[:len(st.frames)]
                    if h.name:
                        r2.env[h.name] = Ref("exc", fresh("exc", I))
                    if not self.feasible(r2, 2.0):
                        break
                    outs = outs + self.block(h.body, r2)
                    break
            else:
                self.rf[-1].append((r, exc, line, what, ks))
        return outs

    def try_finally(self, s, st):
        self.rf.append([])
        try:
            outs = self.s_Try(ast.copy_location(ast.Try(s.body, s.handlers, s.orelse, []), s), st) if s.handlers or s.orelse else self.block(s.body, st)
        finally:
            rs = self.rf.pop()
        res = []
        for k, x, v in outs:
            for k2, y, v2 in self.block(s.finalbody, x):
                res.append((k, y, v) if k2 == "next" else (k2, y, v2))
        for r, exc, line, what, ks in rs:
            depth = len(r.frames)
            if depth > len(st.frames):
                r.frames = r.frames[:len(st.frames)]
            for k2, y, v2 in self.guarded(lambda: self.block(s.finalbody, r), r):
                if k2 == "next":
                    self.rf[-1].append((y, exc, line, what, ks))
                else:
                    res.append((k2, y, v2))         # return, break or continue in a finally clause drops the exception
        return res

    # ------------------------------------------------------------ loops
    def s_For(self, s, st):
        if s.orelse:
            raise Unsupported("for-else")
        if isinstance(s.iter, ast.IfExp):
            # for x in (A if c else B): body   ==   if c: for x in A: body   else: for x in B: body
            key = ("forif", id(s))
            if key not in self.desugared:
                alt = [ast.copy_location(ast.For(target=s.target, iter=i, body=s.body, orelse=[], type_comment=None), s) for i in (s.iter.body, s.iter.orelse)]
                self.desugared[key] = (s, ast.copy_location(ast.If(test=s.iter.test, body=[alt[0]], orelse=[alt[1]]), s))
            return self.stmt(self.desugared[key][1], st)
        it = self.ev(s.iter, st)
        return self.for_loop(s, it, s.target, lambda x: self.block(s.body, x), st)

    def for_loop(self, node, it, target, body, st):
        src = None
        if isinstance(it, Obj):
            c = self.cell(st, it.id)
            if isinstance(c, FixCell):
                return self.unroll(list(c.items), target, body, st)
            if isinstance(c, ListCell):
                if z3.is_int_value(z3.simplify(c.n)) and z3.simplify(c.n).as_long() == 0:
                    return [("next", st, None)]
                src = it.id
                seq = SeqV(c.n, lambda x, i, id=it.id: self.elem(x, id, i))
            elif isinstance(c, DictCell):
                src = it.id
                seq = self.dict_view(st, it.id, "keys")
            elif isinstance(c, IterCell):
                p0 = c.pos
                q = c.seq
                if q.fixed is not None and z3.is_int_value(p0):
                    self.set_cell(st, it.id, IterCell(q, z3.IntVal(len(q.fixed))))
                    return self.unroll(q.fixed[p0.as_long():], target, body, st)
                self.set_cell(st, it.id, IterCell(q, q.n))
                seq = SeqV(z3.If(p0 < q.n, q.n - p0, z3.IntVal(0)) if not smt.is_zero(p0) else q.n, (lambda x, i: q.get(x, p0 + i)) if not smt.is_zero(p0) else q.get)
            else:
                raise Unsupported("iteration over %r" % c)
        elif isinstance(it, Tup):
            return self.unroll(it.items, target, body, st)
        elif isinstance(it, SeqV):
            if it.fixed is not None:
                return self.unroll(it.fixed, target, body, st)
            seq = it
            src = getattr(it, "src", None)
        elif isinstance(it, Ref):
            r = self.models[it.model].iterate(self, st, it)
            return self.for_loop(node, r, target, body, st)
        elif isinstance(it, Opt):
            self.may_raise(st, it.isnone, "TypeError", node)
            return self.for_loop(node, it.v, target, body, st)
        elif it is NONE:
            self.may_raise(st, z3.BoolVal(True), "TypeError", node)
            return []
        else:
            raise Unsupported("iteration over %r" % (it,))
        return self.run_loop(node, st, seq, target, body, src)

    def unroll(self, items, target, body, st):
        live, res = [st], []
        for v in items:
            nxt = []
            for x in live:
                self.assign(target, v, x)
                for k, y, r in body(x):
                    if k in ("next", "continue"):
                        nxt.append(y)
                    elif k == "break":
                        res.append(("next", y, None))
                    else:
                        res.append((k, y, r))
            if len(nxt) > 1:
                nxt = [a for a, _ in self.merge_all([(a, None) for a in nxt])]
            live = nxt
        out = res + [("next", x, None) for x in live]
        return out

    def s_While(self, s, st):
        if s.orelse:
            raise Unsupported("while-else")
        r = self.unroll_while(s, st)
        if r is not None:
            return r
        return self.run_loop(s, st, None, None, lambda x: self.block(s.body, x), None, s.test)

    def unroll_while(self, s, st):
        """outcomes if the test is concrete every time (a counter over a literal tuple); None otherwise"""
        if isinstance(s.test, ast.Constant):
            return None
        mark, nobl = len(self.rf[-1]), len(self.obls)
        live, res = [st.copy()], []
        for n in range(33):
            nxt = []
            for x in live:
                c = z3.simplify(self.truth(x, self.ev(s.test, x)))
                if z3.is_false(c) and n:
                    res.append(("next", x, None))
                    continue
                if not z3.is_true(c) or n == 32:
                    del self.rf[-1][mark:]
                    del self.obls[nobl:]
                    return None
                for k, y, r in self.block(s.body, x):
                    if k in ("next", "continue"):
                        nxt.append(y)
                    else:
                        res.append(("next", y, None) if k == "break" else (k, y, r))
            if not nxt:
                return res
            live = [a for a, _ in self.merge_all([(a, None) for a in nxt])] if len(nxt) > 1 else nxt

    def targets(self, t):
        if t is None:
            return []
        return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]

    # locations changed by a loop body
    def diff_locs(self, a, b):
        out = set()
        for i, f in enumerate(a.frames):
            g = b.frames[i]
            for k, v in f.items():
                if k not in g or not same(v, g[k]):
                    out.add(("env", i, k))
        for i, c in a.store.items():
            d = b.store[i]
            if c is d:
                continue
            if isinstance(c, AliasCell) or isinstance(d, AliasCell):
                if isinstance(c, AliasCell) and isinstance(d, AliasCell):
                    continue
                out.add(("moved", i))
                continue
            if isinstance(c, RecCell):
                for k in c.fields:
                    if k not in d.fields or not same(c.fields[k], d.fields[k]):
                        out.add(("field", i, k))
                for k in d.fields:
                    if k not in c.fields:
                        out.add(("newfield", i, k))
            elif isinstance(c, IterCell):
                if not c.pos.eq(d.pos):
                    out.add(("iter", i))
            else:
                out.add(("cell", i))
        for k, v in a.heap.items():
            if not v.eq(b.heap[k]):
                out.add(("heap", k))
        return out

    bound = None        # bounded mode: loops are unrolled up to this many passes
    looped = False      # a loop was decided by inferred invariants

    def bounded_loop(self, node, st, seq, target, body, test):
        """all executions that make at most self.bound passes"""
        live, fin, res = [st], [], []
        n0 = seq.n if seq is not None else None
        for i in range(self.bound + 1):
            self.tick()
            nxt = []
            for x in live:
                e = x.copy()
                if seq is not None:
                    e.assume(n0 == i)
                    x.assume(n0 > i)
                else:
                    c = z3.simplify(self.truth(x, self.ev(test, x)))
                    e = x.copy()
                    e.assume(z3.Not(c))
                    x.assume(c)
                if self.feasible(e):
                    fin.append(e)
                if i == self.bound or not self.feasible(x):
                    continue
                self.ks.append(z3.IntVal(i))
                try:
                    if seq is not None:
                        self.assign(target, seq.get(x, z3.IntVal(i)), x)
                    outs = body(x)
                finally:
                    self.ks.pop()
                for k, y, r in outs:
                    if k in ("next", "continue"):
                        nxt.append(y)
                    elif k == "break":
                        fin.append(y)
                    else:
                        res.append((k, y, r))
            live = [a for a, _ in self.merge_all([(a, None) for a in nxt])] if len(nxt) > 1 else nxt
            if not live:
                break
        if len(fin) > 1:
            fin = [a for a, _ in self.merge_all([(a, None) for a in fin])]
        return res + [("next", x, None) for x in fin]

    def run_loop(self, node, st, seq, target, body, src=None, test=None):
        self.tick()
        if self.bound is not None:
            return self.bounded_loop(node, st, seq, target, body, test)
        self.looped = True
        ents = [st]
        # cache of what earlier passes over the enclosing loop found out about this one
        cache = None
        if self.acts:
            act = self.acts[-1]
            o = act["n"].get(id(node), 0)
            act["n"][id(node)] = o + 1
            cache = act["cache"].setdefault((id(node), o), {})
        entry = st
        ndepth = len(st.frames)
        tnames = self.targets(target)
        base_vars = set(entry.env)
        shapes = {}
        changed = {}       # loc -> set of leaf indices or None (all)
        poison = set(cache.get("poison", ())) if cache else set()

        def convert(s):
            """entry state with containers laid out in their joined shapes"""
            s = s.copy()
            for loc, sh in shapes.items():
                if loc[0] == "cell":
                    c = s.store[loc[1]]
                    if cell_shape(self, s, c) != sh:
                        nc = sh.cell(self, s, sh.cell_leaves(self, s, c))
                        nc.epoch = c.epoch
                        s.store[loc[1]] = nc
            for k in tnames:
                if k in s.env and k not in base_vars:
                    del s.env[k]
            return s

        def leaves_of(s, loc):
            if loc[0] == "env":
                return shapes[loc].leaves(self, s, s.frames[loc[1]][loc[2]])
            if loc[0] == "field":
                return shapes[loc].leaves(self, s, s.store[loc[1]].fields[loc[2]])
            if loc[0] == "cell":
                return shapes[loc].cell_leaves(self, s, s.store[loc[1]])
            if loc[0] == "iter":
                return [s.store[loc[1]].pos]
            return [s.heap[loc[1]]]

        def sorts_of(loc):
            if loc[0] == "heap":
                return [entry.heap[loc[1]].sort()]
            if loc[0] == "iter":
                return [I]
            return shapes[loc].sorts()

        def head(conv, k):
            """arbitrary state at the loop head"""
            s = conv.copy()
            self.hv = getattr(self, "hv", 0) + 1
            for loc in sorted(changed, key=str):
                idxs = changed[loc]
                old = leaves_of(conv, loc) if loc not in poison else None
                if loc in poison:
                    continue
                nm = "_".join(str(x) for x in loc)
                ts = [fresh("%s.%d" % (nm, i), srt) if i in idxs else old[i] for i, srt in enumerate(sorts_of(loc))]
                if loc[0] == "env":
                    s.frames[loc[1]][loc[2]] = shapes[loc].build(self, s, ts)
                elif loc[0] == "field":
                    c = s.store[loc[1]]
                    f = dict(c.fields)
                    f[loc[2]] = shapes[loc].build(self, s, ts)
                    s.store[loc[1]] = RecCell(c.cls, f)
                elif loc[0] == "cell":
                    nc = shapes[loc].cell(self, s, ts)
                    e0 = s.store[loc[1]].epoch
                    nc.epoch = e0 + 1000
                    s.store[loc[1]] = nc
                    if loc[1] not in reassigned:
                        # no iteration replaces an element: references to elements stay what they are
                        for i, c in list(s.store.items()):
                            if isinstance(c, AliasCell) and c.parent == loc[1] and c.epoch == e0:
                                s.store[i] = AliasCell(c.parent, c.key, c.steps, nc.epoch)
                    if isinstance(nc, ListCell):
                        s.assume(nc.n >= 0)
                    elif isinstance(nc, DictCell):
                        s.assume(nc.klen >= 0)
                elif loc[0] == "iter":
                    s.store[loc[1]] = IterCell(s.store[loc[1]].seq, ts[0])
                else:
                    s.heap[loc[1]] = ts[0]
            for loc in poison:
                if loc[0] == "env":
                    s.frames[loc[1]][loc[2]] = Poison("%s changes in a loop in an unsupported way" % loc[2])
                elif loc[0] == "field":
                    c = s.store[loc[1]]
                    f = dict(c.fields)
                    f[loc[2]] = Poison("attribute %s changes in a loop in an unsupported way" % loc[2])
                    s.store[loc[1]] = RecCell(c.cls, f)
            s.assume(k >= 0)
            return s

        def iterate(s, k):
            """one iteration from head state s; -> (outcomes, exits): outcomes of the body, states leaving by a false test"""
            self.ks.append(k)
            self.acts.append(dict(n={}, cache=act_cache))
            # every pass over the body numbers its new objects alike, so that what is known about them carries over
            top[0] = max(top[0], self.nid)
            self.nid = base_nid
            try:
                exits = []
                if seq is not None:
                    s.assume(k < seq.n)
                    self.assign(target, seq.get(s, k), s)
                    return body(s), exits
                c = z3.simplify(self.truth(s, self.ev(test, s)))
                if not z3.is_true(c):
                    e = s.copy()
                    e.assume(z3.Not(c))
                    if len(self.ks) == 1 and self.contract is not None:
                        # the loop may end before its first iteration
                        for F, a, _ in self.contract.folds(self.ctx):
                            if F.depth == 1:
                                r, i0 = F.at(a, k), F.init(a)
                                e.assume(z3.Implies(k == 0, z3.And(*[r[x] == i0[x] for x, _ in F.comps])))
                    exits.append(e)
                    if z3.is_false(c):
                        return [], exits
                    s.assume(c)
                return body(s), exits
            finally:
                self.ks.pop()
                self.acts.pop()
                self.nid = max(self.nid, top[0])

        def covered(h, outs, exits):
            for e in [o[1] for o in outs if o[0] in ("next", "continue")] + exits:
                for loc in self.diff_locs(h, e):
                    if loc in poison:
                        continue
                    if loc not in changed:
                        raise Unsupported("loop changes %s unexpectedly" % (loc,))
                    if loc[0] == "cell" and loc[1] not in reassigned and getattr(h.store[loc[1]], "epoch", 0) != getattr(e.store[loc[1]], "epoch", 0):
                        raise Unsupported("loop replaces elements of a container unexpectedly")
                    a, b = leaves_of(h, loc), leaves_of(e, loc)
                    for i in range(len(a)):
                        if not a[i].eq(b[i]) and i not in changed[loc]:
                            raise Unsupported("loop changes %s unexpectedly" % (loc,))

        act_cache = cache.setdefault("inner", {}) if cache is not None else {}
        reassigned = set()      # containers of which the body replaces elements
        base_nid, top = self.nid, [self.nid]
        # ---- discovery of what the body changes
        self.quiet += 1
        self.rf.append([])
        try:
            if cache and "shapes" in cache:
                def there(l):
                    return l[0] in ("heap", "env") or l[1] in entry.store
                shapes.update({l: s for l, s in cache["shapes"].items() if there(l)})
                changed.update({l: set(x) for l, x in cache["changed"].items() if there(l)})
                poison = {l for l in poison if there(l)}
                reassigned |= cache.get("reassigned", set())
            conv = convert(entry)
            for rnd in range(14):
                k = fresh("k", I)
                h = head(conv, k)
                self.rf[-1].clear()
                # inner loops need no invariants of their own while only what changes is looked for
                self.disc += 1
                nid0 = self.nid
                try:
                    outs, exits = iterate(h.copy(), k)
                except Deadline:
                    raise
                except Unsupported:
                    if self.disc > 1:
                        raise
                    d, self.disc, self.nid = self.disc, 0, nid0
                    act_cache.clear()
                    try:
                        outs, exits = iterate(head(conv, k), k)
                    finally:
                        self.disc = d
                finally:
                    self.disc -= 1
                again = False
                ends = [o[1] for o in outs if o[0] in ("next", "continue")]
                for e in ends + exits:
                    for loc in self.diff_locs(h, e):
                        if loc[0] == "moved":
                            raise Unsupported("a container from outside the loop is moved into another one")
                        if loc[0] == "newfield":
                            raise Unsupported("attribute %s is created inside a loop" % loc[2])
                        if loc in poison:
                            continue
                        if loc[0] == "env" and loc[1] == len(entry.frames) - 1 and loc[2] in tnames:
                            poison.add(loc)
                            changed.setdefault(loc, set())
                            again = True
                            continue
                        try:
                            if loc[0] == "env":
                                if loc[2] not in e.frames[loc[1]]:
                                    raise ShapeMismatch("gone")
                                sh = join(shape_of(self, h, h.frames[loc[1]][loc[2]]), shape_of(self, e, e.frames[loc[1]][loc[2]]))
                                if sh.mutable:
                                    raise ShapeMismatch("mutable")
                            elif loc[0] == "field":
                                sh = join(shape_of(self, h, h.store[loc[1]].fields[loc[2]]), shape_of(self, e, e.store[loc[1]].fields[loc[2]]))
                                if sh.mutable:
                                    raise ShapeMismatch("mutable")
                            elif loc[0] == "cell":
                                sh = join(cell_shape(self, h, h.store[loc[1]]), cell_shape(self, e, e.store[loc[1]]))
                            else:
                                sh = None
                        except Unsupported:
                            if loc[0] in ("env", "field"):
                                poison.add(loc)
                                changed.setdefault(loc, set())
                                again = True
                                continue
                            raise
                        if loc not in shapes or shapes[loc] != sh:
                            shapes[loc] = sh
                            changed[loc] = set()
                            again = True
                            if loc[0] == "cell":
                                conv = convert(conv)
                            continue
                        if loc[0] == "cell" and loc[1] not in reassigned and getattr(h.store[loc[1]], "epoch", 0) != getattr(e.store[loc[1]], "epoch", 0):
                            reassigned.add(loc[1])
                            again = True
                        a, b = leaves_of(h, loc), leaves_of(e, loc)
                        for i in range(len(a)):
                            if not a[i].eq(b[i]) and i not in changed[loc]:
                                changed[loc].add(i)
                                again = True
                if not again:
                    break
            else:
                raise Unsupported("loop state does not stabilise")
            if src is not None:
                rt = self.root(entry, src)
                c0 = entry.store[rt]
                if ("cell", rt) in changed:
                    # iterating a container whose own sequence changes
                    nl = len(sorts_of(("cell", rt)))
                    bad = {0} if isinstance(c0, ListCell) else {0, nl - 2, nl - 1}
                    if rt != src or changed[("cell", rt)] & bad:
                        raise Unsupported("container is changed while it is iterated")
            # ---- candidate invariants
            if cache is None or "labels" not in cache:
                self.forget(act_cache)      # what inner loops found without this loop's candidates is too weak
            conv = convert(entry)
            cands = [] if self.disc else self.candidates(conv, changed, poison, shapes, leaves_of, sorts_of, seq, entry)
            if test is not None and not self.disc:
                cands += self.test_bounds(test)
            if cache is not None and "labels" in cache:
                cands = [c for c in cands if c[0] in cache["labels"]]
            k0 = z3.IntVal(0)
            cands = self.houdini(conv, cands, self.ks + [k0]) if cands else []
            for rnd in range(0 if self.disc else 30):
                k = fresh("k", I)
                h = head(conv, k)
                self.assume_cands(h, cands, self.ks + [k], seq)
                self.rf[-1].clear()
                outs, exits = iterate(h.copy(), k)
                covered(h, outs, exits)
                n0, was = len(cands), list(cands)
                for o in outs:
                    if o[0] in ("next", "continue"):
                        cands = self.houdini(o[1], cands, self.ks + [k + 1])
                if TRACE:
                    print("%sround %d of line %d: %d -> %d" % ("  " * len(self.ks), rnd, node.lineno, n0, len(cands)), "lost", sorted(str(c[0]) for c in was if c not in cands) if rnd or TRACE == "2" else "")
                if len(cands) == n0:
                    break
            else:
                if not self.disc:
                    raise Unsupported("no stable invariant")
            if cache is not None:
                cache.update(reassigned=set(reassigned), shapes=dict(shapes), changed={l: set(x) for l, x in changed.items()}, poison=set(poison))
                if not self.disc:
                    cache["labels"] = {c[0] for c in cands}
        finally:
            self.quiet -= 1
            rs = self.rf.pop()
        if self.quiet == 0 and self.verbose:
            print("  loop line %d: changed %s; invariants: %s" % (node.lineno, sorted("%s%s" % ("/".join(map(str, l)), sorted(x)) for l, x in changed.items()), sorted(str(c[0]) for c in cands)))
        # ---- final pass with the invariants: obligations, early exits, exceptions
        res = []
        if self.quiet == 0:
            k = fresh("k", I)
            h = head(conv, k)
            self.assume_cands(h, cands, self.ks + [k], seq)
            outs, exits = iterate(h.copy(), k)
            covered(h, outs, exits)
        else:
            self.rf[-1].extend(rs)
        early = []
        for o in outs:
            if o[0] == "break":
                early.append(o[1])
            elif o[0] == "return":
                res.append(o)
        ex = []
        if seq is not None:
            h = head(conv, seq.n)
            self.assume_cands(h, cands, self.ks + [seq.n], seq)
            ex.append(h)
        else:
            ex.extend(exits)
        fin = []
        for e in ex + early:
            for kk in list(e.env):
                if kk not in base_vars:
                    e.env[kk] = Poison("variable %s is set inside a loop" % kk)
            for kk in set(tnames) | self.assigned(node):
                if kk not in e.env:
                    e.env[kk] = Poison("variable %s is set inside a loop" % kk)
            fin.append(e)
        if len(fin) > 1:
            fin = [a for a, _ in self.merge_all([(a, None) for a in fin])]
        return res + [("next", x, None) for x in fin]

    verbose = False
    disc = 0            # within the discovery pass of an enclosing loop

    def forget(self, cache):
        for ic in cache.values():
            ic.pop("labels", None)
            self.forget(ic.get("inner", {}))

    def assigned(self, node):
        out = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
        return out

    def pool(self, ks):
        """labelled specification terms at loop indices ks"""
        key = tuple(k.get_id() for k in ks)
        hit = self.pool_cache.get(key)
        if hit is not None:
            return hit[1]
        out = {}
        if self.contract is not None:
            for fold, args, total in self.contract.folds(self.ctx):
                tag = (fold.name,) + tuple(str(a) if z3.is_int_value(a) else a.get_id() for a in args)
                def add(pos, idx):
                    for cn, t in fold.at(args, *idx).items():
                        out[(tag, cn, pos)] = t
                if fold.depth == 1:
                    for p, k in enumerate(ks):
                        if p == 0 or not self.contract.outer:
                            add(p, (k,))
                    add("end", (total,))
                else:
                    for p, k in enumerate(ks):
                        add((p, 0), (k, z3.IntVal(0)))
                        if p + 1 < len(ks):
                            add((p, p + 1), (k, ks[p + 1]))
                    add("end", (total, z3.IntVal(0)))
            out.update(self.contract.terms(self.ctx, ks))
        self.pool_cache[key] = (list(ks), out)
        return out

    def candidates(self, conv, changed, poison, shapes, leaves_of, sorts_of, seq, entry):
        """[(label, goal(state, ks), assume(state, ks) -> (facts, trigs))]"""
        out = []
        depth = len(self.ks) + 1
        kk = [fresh("kk", I) for _ in range(depth)]
        pool = self.pool(kk)
        # components named like a part of the heap describe that part and nothing else
        comp = lambda l: l[1] if isinstance(l, tuple) and len(l) > 1 else None
        named = {comp(l) for l in pool if comp(l) in entry.heap} - {"LOG"}
        bysort = {}
        for lab, t in pool.items():
            bysort.setdefault(t.sort(), []).append(lab)
        folds1 = [x for x in self.contract.folds(self.ctx) if x[0].depth == 1] if self.contract is not None and (depth == 1 or not self.contract.outer) else []
        for loc in changed:
            if loc in poison:
                continue
            srts = sorts_of(loc)
            ent = leaves_of(conv, loc)
            for i, s in enumerate(srts):
                if i not in changed[loc]:
                    continue
                labs = bysort.get(s, ())
                if loc == ("heap", "LOG") and any(comp(l) == "log" for l in labs):
                    labs = [l for l in labs if comp(l) == "log"]
                elif named:
                    labs = [l for l in labs if comp(l) == loc[1]] if loc[0] == "heap" and loc[1] in named else [l for l in labs if comp(l) not in named]
                for lab in labs:
                    def goal(st, ks, loc=loc, i=i, lab=lab):
                        return leaves_of(st, loc)[i] == self.pool(ks)[lab]
                    out.append((("eq", loc, i, lab), goal, None))
                if s in (I, R) and (loc[0] != "heap" or not named):
                    # sums that continue from another start value than the fold does
                    for F, a, _ in folds1:
                        r0 = F.init(a)
                        for cn, srt in F.comps:
                            if srt == s and not z3.simplify(ent[i] == r0[cn]).eq(z3.BoolVal(True)):
                                def rel(st, ks, loc=loc, i=i, F=F, a=a, cn=cn, d=ent[i] - r0[cn]):
                                    return leaves_of(st, loc)[i] == F.at(a, ks[-1])[cn] + d
                                out.append((("rel", loc, i, F.name, cn), rel, None))
                if s == I:
                    e0 = ent[i]
                    out.append((("count", loc, i), lambda st, ks, loc=loc, i=i, e0=e0: leaves_of(st, loc)[i] == e0 + ks[-1], None))
                    out.append((("ge", loc, i), lambda st, ks, loc=loc, i=i, e0=e0: leaves_of(st, loc)[i] >= e0, None))
                    for lab, bound in self.bounds(conv, entry):
                        out.append((("le", loc, i, lab), lambda st, ks, loc=loc, i=i, bound=bound: leaves_of(st, loc)[i] <= bound, None))
            # unspecified optional / boolean flags keep simple relations
            if loc[0] in ("env", "field") and isinstance(shapes[loc], SOpt):
                out.append((("isnone", loc), lambda st, ks, loc=loc: leaves_of(st, loc)[0], None))
                out.append((("notnone", loc), lambda st, ks, loc=loc: z3.Not(leaves_of(st, loc)[0]), None))
        # ---- quantified candidates over all lists / dictionaries in reach
        cells = []
        for id, c in conv.store.items():
            if isinstance(c, (ListCell, DictCell)):
                cells.append((id, ("cell", id) in changed))
        def keys_of(c):
            if isinstance(c, DictCell):
                return c.klen, c.karr
            if isinstance(c, ListCell) and c.elem is not None and c.elem.sorts() == [I]:
                return c.n, c.arrs[0]
            return None
        for lid, lch in cells:
            for did, dch in cells:
                if not (lch or dch) or not isinstance(conv.store[did], DictCell):
                    continue
                lc = conv.store[lid]
                if keys_of(lc) is None:
                    continue
                if isinstance(lc, ListCell) and conv.store[did].kshape is not None and not isinstance(lc.elem, (SP, SRef)):
                    continue
                def form(st, j, lid=lid, did=did):
                    n, arr = keys_of(st.store[lid])
                    return z3.Implies(z3.And(0 <= j, j < n), z3.Select(st.store[did].dom, z3.Select(arr, j)))
                def goal(st, ks, form=form):
                    return form(st, fresh("j", I))
                def asm(st, ks, form=form, lid=lid):
                    return [], [smt.Trig(keys_of(st.store[lid])[1], lambda j, st=st: form(st, j))]
                out.append((("member", lid, did), goal, asm))
        for did, dch in cells:
            c = conv.store[did]
            if dch and isinstance(c, DictCell) and isinstance(c.vshape, SList):
                def form2(st, x, did=did):
                    d = st.store[did]
                    return z3.Implies(z3.Select(d.dom, x), z3.Select(d.varrs[0], x) >= 1)
                def goal2(st, ks, form2=form2):
                    return form2(st, fresh("x", I))
                def asm2(st, ks, form2=form2, did=did):
                    return [], [smt.Trig(st.store[did].varrs[0], lambda x, st=st: form2(st, x))]
                out.append((("nonempty", did), goal2, asm2))
        if self.contract is not None:
            for lab in self.contract.invariants(self.ctx, kk):
                out.append((("inv", lab), lambda st, ks, lab=lab: self.contract.invariants(self.ctx, ks)[lab], None))
        # element-wise specifications supplied by the contract: list element j equals fn(ks)(j) for j < length
        if self.contract is not None:
            labs = list(self.contract.elems(self.ctx, kk))
            for lid, lch in cells:
                if not lch or not isinstance(conv.store[lid], ListCell):
                    continue
                lc = conv.store[lid]
                for ai, arr in enumerate(lc.arrs):
                    for lab in labs:
                        probe = self.contract.elems(self.ctx, kk)[lab](z3.IntVal(0))
                        if probe.sort() != arr.sort().range():
                            continue
                        def form3(st, ks, j, lid=lid, ai=ai, lab=lab):
                            c = st.store[lid]
                            return z3.Implies(z3.And(0 <= j, j < c.n), smt.sel(c.arrs[ai], j) == self.contract.elems(self.ctx, ks)[lab](j))
                        def goal3(st, ks, form3=form3):
                            return form3(st, ks, fresh("j", I))
                        def asm3(st, ks, form3=form3, lid=lid, ai=ai):
                            return [], [smt.Trig(st.store[lid].arrs[ai], lambda j, st=st: form3(st, ks, j))]
                        out.append((("elem", lid, ai, lab), goal3, asm3))
        return out

    def test_bounds(self, test):
        """candidates from the test of a while loop: a counter compared with a bound does not pass it"""
        out = []
        for t in test.values if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And) else [test]:
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.NotEq))):
                continue
            def goal(st, ks, t=t):
                self.rf.append([])
                try:
                    s = st.copy()
                    a, b = self.num(self.ev(t.left, s)), self.num(self.ev(t.comparators[0], s))
                    if not (isinstance(a, P) and isinstance(b, P) and a.kind == "int" and b.kind == "int"):
                        return z3.BoolVal(True)
                    op, a, b = t.ops[0], a.t, b.t
                    return dict(Lt=a <= b, LtE=a <= b + 1, Gt=a >= b, GtE=a + 1 >= b, NotEq=a <= b)[type(op).__name__]
                except Unsupported:
                    return z3.BoolVal(True)
                finally:
                    self.rf.pop()
            out.append((("test", ast.dump(t)), goal, None))
        return out

    def bounds(self, conv, entry):
        out = []
        for id, c in conv.store.items():
            if isinstance(c, ListCell):
                out.append((("len", id), c.n))
            elif isinstance(c, RecCell):
                pass
            elif isinstance(c, IterCell):
                out.append((("ilen", id), c.seq.n))
        for nm, v in entry.env.items():
            if isinstance(v, SeqV):
                out.append((("slen", nm), v.n))
        return out[:6]

    def assume_cands(self, st, cands, ks, seq):
        if seq is not None:
            st.assume(ks[-1] <= seq.n)
            st.assume(seq.n >= 0)
        for lab, goal, asm in cands:
            if asm is None:
                st.assume(goal(st, ks))
            else:
                f, t = asm(st.copy(), ks)
                st.assume(*f)
                st.trigs.extend(t)

    def houdini(self, st, cands, ks):
        """candidates that hold in st at ks"""
        self.tick()
        forms = []
        for c in cands:
            try:
                g = z3.simplify(c[1](st, ks))
            except (ShapeMismatch, KeyError):
                continue
            forms.append((c, g))
        forms = [(c, g) for c, g in forms if not z3.is_false(g)]
        sure = [(c, g) for c, g in forms if z3.is_true(g)]
        rest = [(c, g) for c, g in forms if not z3.is_true(g)]
        tries = 0
        while rest:
            tries += 1
            self.tick()
            r = smt.check(st.facts, z3.And(*[g for _, g in rest]), st.trigs, min(self.timeout, 6.0))
            if r.status == "valid":
                break
            if r.status == "invalid" and tries < 40:
                keep = [(c, g) for c, g in rest if not z3.is_false(z3.simplify(r.model.eval(g, model_completion=True)))]
                if len(keep) < len(rest):
                    rest = keep
                    continue
            new = []
            for c, g in rest:
                self.tick()
                r = smt.check(st.facts, g, st.trigs, 3.0).status
                if r == "valid":
                    new.append((c, g))
                elif r == "unknown":
                    self.lossy.append(c[0])
            rest = new
            break
        ok = {id(c) for c, _ in sure + rest}
        if DBG:
            for c in cands:
                if id(c) not in ok and DBG in str(c[0]):
                    g = c[1](st, ks)
                    r = smt.check(st.facts, g, st.trigs, 3.0)
                    print("   dropped", c[0], r.status, "depth", len(ks), "quiet", self.quiet, [str(k) for k in ks])
                    if r.status == "invalid" and DBGV:
                        print(g)
        return [c for c in cands if id(c) in ok]

