"""z3 layer: definitional unfolding by syntactic triggers, validity queries, statistics."""
import time
import z3

I, B, R = z3.IntSort(), z3.BoolSort(), z3.RealSort()
def A(rng, dom=I):
    return z3.ArraySort(dom, rng)

class Stats:
    queries = 0
    time = 0.0
    slow = []

TRIG = {}          # decl name -> callback(args) -> [facts]
_apps = {}         # term id -> (term, {app id: app}) trigger applications below a term
_fresh = [0]

BOUND = [None]     # bounded mode: folds are also given at every index up to this one
_unf = {}          # application id -> (application, its unfolding facts)

def reset():
    _apps.clear()
    _unf.clear()

def fresh_name(p):
    _fresh[0] += 1
    return "%s!%d" % (p, _fresh[0])

def fresh(p, sort):
    return z3.Const(fresh_name(p), sort)

def trigger(fn, cb):
    TRIG[fn.name()] = cb
    return fn

def default(sort):
    k = sort.kind()
    if k == z3.Z3_INT_SORT:
        return z3.IntVal(0)
    if k == z3.Z3_BOOL_SORT:
        return z3.BoolVal(False)
    if k == z3.Z3_REAL_SORT:
        return z3.RealVal(0)
    if k == z3.Z3_ARRAY_SORT:
        return z3.K(sort.domain(), default(sort.range()))
    raise Exception("no default for sort %s" % sort)

def trig_apps(t):
    """applications of triggered functions in t (memoised over the DAG)"""
    r = _apps.get(t.get_id())
    if r is not None:
        return r[1]
    stack = [(t, False)]
    while stack:
        x, done = stack.pop()
        i = x.get_id()
        if i in _apps:
            continue
        if not z3.is_app(x):
            _apps[i] = (x, {})
            continue
        ch = x.children()
        if not done:
            stack.append((x, True))
            stack.extend((c, False) for c in ch if c.get_id() not in _apps)
            continue
        acc = {}
        for c in ch:
            acc.update(_apps[c.get_id()][1])
        if ch and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in TRIG:
            acc[i] = x
        elif x.decl().kind() == z3.Z3_OP_SELECT and z3.is_const(ch[0]):
            acc[i] = x
        elif x.decl().kind() == z3.Z3_OP_SELECT:
            acc[i] = x
        _apps[i] = (x, acc)
    return _apps[t.get_id()][1]

def sel(a, k):
    """element k of array a; arrays given element by element (lambda) are applied at once"""
    if z3.is_quantifier(a) and a.is_lambda():
        return z3.substitute_vars(a.body(), k)
    return z3.Select(a, k)

class Trig:
    """array trigger: for select(arr, idx) with this array symbol add fact(idx)"""
    def __init__(self, arr, fn):
        self.arr, self.fn, self.id = arr, fn, arr.get_id()

def instantiate(forms, trigs=(), rounds=6, cap=900):
    out = list(forms)
    seen = set()
    done_inst = set()
    work = list(forms)
    byarr = {}
    for t in trigs:
        byarr.setdefault(t.id, []).append(t)
    for rnd in range(rounds):
        new = []
        apps = {}
        for f in work:
            apps.update(trig_apps(f))
        for i, a in apps.items():
            if i in seen:
                continue
            seen.add(i)
            if a.decl().kind() == z3.Z3_OP_SELECT:
                if not byarr:
                    continue
                # peel stores: select(store(arr, ..), idx) may read the underlying array
                idx = a.arg(1)
                stack, vis = [a.arg(0)], set()
                while stack:
                    b = stack.pop()
                    if b.get_id() in vis:
                        continue
                    vis.add(b.get_id())
                    for t in byarr.get(b.get_id(), ()):
                        key = (id(t), idx.get_id())
                        if key not in done_inst:
                            done_inst.add(key)
                            new.append(t.fn(idx))
                    if z3.is_app(b):
                        dk = b.decl().kind()
                        if dk == z3.Z3_OP_STORE:
                            stack.append(b.arg(0))
                        elif dk == z3.Z3_OP_ITE:
                            stack.append(b.arg(1)); stack.append(b.arg(2))
                continue
            hit = _unf.get(i)
            if hit is None:
                hit = _unf[i] = (a, [f for f in TRIG[a.decl().name()](a, a.children()) or [] if not z3.is_true(f)])
            new.extend(hit[1])
        new = [f for f in new if not z3.is_true(f)]
        if not new or len(out) > cap:
            break
        out.extend(new)
        work = new
    return out

def mk_solver(timeout):
    s = z3.Solver()
    s.set("timeout", int(timeout * 1000))
    return s

class Result:
    def __init__(self, status, model=None, reason="", forms=None):
        self.status, self.model, self.reason, self.forms = status, model, reason, forms

def check(facts, goal, trigs=(), timeout=10.0):
    """valid | invalid(model) | unknown"""
    if z3.is_true(goal):
        return Result("valid")
    g = z3.simplify(goal)
    if z3.is_true(g):
        return Result("valid")
    t0 = time.time()
    forms = instantiate(list(facts) + [z3.Not(goal)], trigs)
    s = mk_solver(timeout)
    s.add(*forms)
    r = s.check()
    dt = time.time() - t0
    Stats.queries += 1
    Stats.time += dt
    if r == z3.unsat:
        return Result("valid")
    if r == z3.sat:
        return Result("invalid", s.model())
    # a second opinion with another tactic configuration
    t0 = time.time()
    s2 = z3.SimpleSolver()
    s2.set("timeout", int(timeout * 1000))
    s2.set("random_seed", 7)
    s2.add(*forms)
    r2 = s2.check()
    Stats.queries += 1
    Stats.time += time.time() - t0
    if r2 == z3.unsat:
        return Result("valid")
    if r2 == z3.sat:
        return Result("invalid", s2.model())
    return Result("unknown", reason=s.reason_unknown())

def is_plus1(t):
    """t = x + 1 -> x, else None"""
    if z3.is_int_value(t):
        return z3.IntVal(t.as_long() - 1) if t.as_long() > 0 else None
    if z3.is_add(t):
        ch = t.children()
        c = [x for x in ch if z3.is_int_value(x)]
        o = [x for x in ch if not z3.is_int_value(x)]
        if len(c) == 1 and c[0].as_long() >= 1 and o:
            rest = o[0] if len(o) == 1 else z3.Sum(o)
            v = c[0].as_long() - 1
            return rest if v == 0 else rest + v
    return None

def is_zero(t):
    return z3.is_int_value(t) and t.as_long() == 0

def apply(fn, args):
    """fn(*args) without the conversions of z3's own call"""
    n = len(args)
    if n != fn.arity():
        raise Exception("arity of %s" % fn)
    arr = (z3.Ast * n)()
    for i, a in enumerate(args):
        arr[i] = a.as_ast()
    return z3.z3._to_expr_ref(z3.Z3_mk_app(fn.ctx.ref(), fn.ast, n, arr), fn.ctx)

def fold_args(t):
    """(arguments, indices) of an application of a fold's component"""
    f = Fold.ALL[t.decl().name().rsplit(".", 1)[0]]
    ch = t.children()
    if f.pack is not None:
        return ch[0].children(), ch[1:]
    return ch[:len(f.args)], ch[len(f.args):]

class Fold:
    """A family of left folds given by unfolding equations, one z3 function per state component.

    args: [(name, sort)] parameters; comps: [(name, sort)]; depth 1: index i, depth 2: indices (i, j).
    init(args) -> {comp: term};  step(args, idx, state) -> {comp: term}
    inner(args, i) -> number of inner steps for outer index i (depth 2)."""
    ALL = {}
    def __init__(self, name, args, comps, init, step, depth=1, inner=None):
        self.name, self.args, self.comps, self.depth = name, args, comps, depth
        self.init, self.step, self.inner = init, step, inner
        self.f = {}
        self.memo = {}
        # many parameters are packed into one value (a function of them), so that applications stay small
        self.pack = z3.Function("pack<%s>" % name, *([s for _, s in args] + [I])) if len(args) > 5 else None
        self.packs, self.rawmemo = {}, {}
        for cn, cs in comps:
            fn = z3.Function("%s.%s" % (name, cn), *(([I] if self.pack is not None else [s for _, s in args]) + [I] * depth + [cs]))
            self.f[cn] = trigger(fn, lambda app, ch, cn=cn: self.unfold(app, cn, ch))
        Fold.ALL[name] = self

    def stepped(self, args, idx):
        """one step from the state at idx (cached: every component of an application asks for it)"""
        key = tuple(a.get_id() for a in args) + tuple(i.get_id() for i in idx)
        hit = self.memo.get(key)
        if hit is None:
            if len(self.memo) > 2000:
                self.memo.clear()
            hit = self.memo[key] = (list(args), idx, self.step(args, idx, self.raw(args, idx)))
        return hit[2]

    def raw(self, args, idx):
        args = list(args)
        key = tuple(a.get_id() for a in args) + tuple(i.get_id() for i in idx)
        hit = self.rawmemo.get(key)
        if hit is not None:
            return dict(hit[1])
        keep = (args, list(idx))
        if self.pack is not None:
            k2 = key[:len(args)]
            t = self.packs.get(k2)
            if t is None:
                t = self.packs[k2] = (args, apply(self.pack, args))
            args = [t[1]]
        args = args + list(idx)
        r = {cn: apply(self.f[cn], args) for cn, _ in self.comps}
        if len(self.rawmemo) > 20000:
            self.rawmemo.clear()
        self.rawmemo[key] = (keep, r)
        return dict(r)

    def at(self, args, *idx):
        idx = [z3.IntVal(i) if isinstance(i, int) else i for i in idx]
        return self.raw(args, idx)

    def unfold(self, app, cn, ch):
        r = self.unfold1(app, cn, ch)
        if BOUND[0] is None:
            return r
        # bounded mode: the value at every small index
        if self.pack is not None:
            if ch[0].decl().name() != self.pack.name():
                return r
            args, idx = ch[0].children(), ch[1:]
        else:
            args, idx = ch[:len(self.args)], ch[len(self.args):]
        open_ = [i for i, x in enumerate(idx) if not z3.is_int_value(x)]
        if not open_:
            return r
        combos = [[]]
        for i in idx:
            combos = [c + [v] for c in combos for v in ([i] if z3.is_int_value(i) else [z3.IntVal(v) for v in range(BOUND[0] + 1)])]
        return r + [z3.Implies(z3.And(*[idx[i] == c[i] for i in open_]), app == self.raw(args, c)[cn]) for c in combos]

    def unfold1(self, app, cn, ch):
        if self.pack is not None:
            if ch[0].decl().name() != self.pack.name():
                return []
            args, idx = ch[0].children(), ch[1:]
        else:
            n = len(self.args)
            args, idx = ch[:n], ch[n:]
        if self.depth == 1:
            i, = idx
            if is_zero(i):
                return [app == self.init(args)[cn]]
            p = is_plus1(i)
            if p is not None:
                return [app == self.stepped(args, (p,))[cn]]
            if z3.is_app(i) and (i.decl().name() in TRIG or i.decl().kind() == z3.Z3_OP_ITE):
                return [z3.Implies(i == 0, app == self.init(args)[cn])]
            return []
        i, j = idx
        if is_zero(j):
            if is_zero(i):
                return [app == self.init(args)[cn]]
            p = is_plus1(i)
            if p is not None:
                return [app == self.raw(args, (p, self.inner(args, p)))[cn]]
            return []
        p = is_plus1(j)
        if p is not None:
            return [app == self.stepped(args, (i, p))[cn]]
        return []

# ---------------------------------------------------------------- strings (coded as integers)
_lits = {}
def lit(s):
    if s not in _lits:
        _lits[s] = -(len(_lits) + 1000)
    return z3.IntVal(_lits[s])

def lit_of(code):
    for s, c in _lits.items():
        if c == code:
            return s
    return None

scat = z3.Function("scat", I, I, I)
def fmtfn(spec, sort):
    return z3.Function("fmt<%s>%s" % (spec, sort), sort, I)
int_of_str = z3.Function("int_of_str", I, I)
str_of_int = fmtfn("s", I)
is_int_text, is_real_text = z3.Function("is_int_text", I, B), z3.Function("is_real_text", I, B)
real_of_str = z3.Function("real_of_str", I, R)
trigger(str_of_int, lambda app, ch: [int_of_str(app) == ch[0], is_int_text(app), real_of_str(app) == z3.ToReal(ch[0]), is_real_text(app)])
str_of_real = fmtfn("s", R)
trigger(str_of_real, lambda app, ch: [real_of_str(app) == ch[0], is_real_text(app)])

# pairs used as dictionary keys
pair = z3.Function("pair", I, I, I)
fst = z3.Function("fst", I, I)
snd = z3.Function("snd", I, I)
trigger(pair, lambda app, ch: [fst(app) == ch[0], snd(app) == ch[1]])

# bit operations on unbounded integers: uninterpreted, commutative
def bitop(name, x, y):
    f = z3.Function("bit" + name, I, I, I)
    if f.name() not in TRIG:
        trigger(f, lambda app, ch: [app == f(ch[1], ch[0])] + ([app == 0] if name == "BitAnd" and (is_zero(ch[0]) or is_zero(ch[1])) else []))
    if z3.is_int_value(x) and z3.is_int_value(y):
        p, q = x.as_long(), y.as_long()
        return z3.IntVal({"BitAnd": p & q, "BitOr": p | q, "BitXor": p ^ q}[name])
    return f(x, y)

# ---------------------------------------------------------------- array terms in compact form
def is_store(a):
    return z3.is_app(a) and a.decl().kind() == z3.Z3_OP_STORE

def sel(a, i):
    if is_store(a) and a.arg(1).eq(i):
        return a.arg(2)
    return z3.Select(a, i)

def sto(a, i, v):
    if is_store(a) and a.arg(1).eq(i):
        a = a.arg(0)
    return z3.Store(a, i, v)

def aite(c, x, y):
    """If(c, x, y), with the choice pushed into the one element where two arrays differ"""
    if x.eq(y):
        return x
    if isinstance(x, z3.ArrayRef):
        if is_store(x) and is_store(y) and x.arg(1).eq(y.arg(1)) and x.arg(0).eq(y.arg(0)):
            return z3.Store(x.arg(0), x.arg(1), aite(c, x.arg(2), y.arg(2)))
        if is_store(x) and x.arg(0).eq(y):
            return sto(y, x.arg(1), aite(c, x.arg(2), sel(y, x.arg(1))))
        if is_store(y) and y.arg(0).eq(x):
            return sto(x, y.arg(1), aite(c, sel(x, y.arg(1)), y.arg(2)))
    return z3.If(c, x, y)
