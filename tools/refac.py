"""refac.py OUT [--only SUBSTR] [--kinds a,b] [--jobs N]: prove everything on copies of the code rewritten without changing behaviour.

Each variant rewrites one source file by one kind of rewriting, everywhere it applies. A failed obligation is a false alarm of the
prover; an undecided function is strength lost."""
import sys, os, ast, copy, json, shutil, subprocess, tempfile, argparse
from concurrent.futures import ThreadPoolExecutor
SRC = "/repo/src/ucis"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class Base(ast.NodeTransformer):
    def __init__(self):
        self.n, self.k = 0, 0
    def new(self):
        self.k += 1
        return "tmp_%d" % self.k
def name(x, store=False):
    return ast.Name(x, ast.Store() if store else ast.Load())
def assign(x, v):
    return ast.Assign([name(x, True)], v)
class RetTemp(Base):
    """return e -> r = e; return r"""
    def visit_Return(self, s):
        if s.value is None or isinstance(s.value, (ast.Constant, ast.Name)):
            return s
        self.n += 1
        t = self.new()
        return [assign(t, s.value), ast.Return(name(t))]
class SwapIf(Base):
    """if c: a else: b -> if not c: b else: a"""
    def visit_If(self, s):
        self.generic_visit(s)
        if s.orelse:
            self.n += 1
            return ast.If(ast.UnaryOp(ast.Not(), s.test), s.orelse, s.body)
        return s
class AugExpand(Base):
    def visit_AugAssign(self, s):
        if isinstance(s.target, ast.Subscript):
            return s
        self.n += 1
        t = copy.deepcopy(s.target)
        t.ctx = ast.Load()
        return ast.Assign([s.target], ast.BinOp(t, s.op, s.value))
class Keys(Base):
    def visit_Compare(self, e):
        self.generic_visit(e)
        if len(e.ops) == 1 and isinstance(e.ops[0], (ast.In, ast.NotIn)):
            c = e.comparators[0]
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "keys":
                self.n += 1
                e.comparators = [c.func.value]
        return e
class ArgTemp(Base):
    """f(g(x), y.z) as a statement -> a = g(x); b = y.z; f(a, b)"""
    def hoist(self, call):
        pre = []
        for i, a in enumerate(call.args):
            if isinstance(a, (ast.Call, ast.Attribute, ast.BinOp)):
                t = self.new()
                pre.append(assign(t, a))
                call.args[i] = name(t)
            elif isinstance(a, ast.Starred):
                return pre
        return pre
    def visit_Expr(self, s):
        if isinstance(s.value, ast.Call) and not any(isinstance(x, ast.Starred) for x in s.value.args):
            p = self.hoist(s.value)
            self.n += len(p)
            return p + [s]
        return s
    def visit_Assign(self, s):
        if isinstance(s.value, ast.Call) and not any(isinstance(x, ast.Starred) for x in s.value.args):
            p = self.hoist(s.value)
            self.n += len(p)
            return p + [s]
        return s
class Continue(Base):
    """for ..: if c: body -> for ..: if not c: continue; body"""
    def visit_For(self, s):
        self.generic_visit(s)
        last = s.body[-1]
        if isinstance(last, ast.If) and not last.orelse:
            self.n += 1
            s.body = s.body[:-1] + [ast.If(ast.UnaryOp(ast.Not(), last.test), [ast.Continue()], [])] + last.body
        return s
class ListIter(Base):
    """for x in e -> for x in list(e)"""
    def visit_For(self, s):
        self.generic_visit(s)
        if not (isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name)):
            self.n += 1
            s.iter = ast.Call(name("list"), [s.iter], [])
        return s
class Enum(Base):
    """for x in e -> for i, x in enumerate(e)"""
    def visit_For(self, s):
        self.generic_visit(s)
        self.n += 1
        s.target = ast.Tuple([name(self.new(), True), s.target], ast.Store())
        s.iter = ast.Call(name("enumerate"), [s.iter], [])
        return s
class IterTemp(Base):
    def visit_For(self, s):
        self.generic_visit(s)
        self.n += 1
        t = self.new()
        it = s.iter
        s.iter = name(t)
        return [assign(t, it), s]
class CondTemp(Base):
    """if c: -> t = c; if t: (not for elif chains)"""
    def visit_If(self, s):
        s.body = self.stmts(s.body)
        if len(s.orelse) == 1 and isinstance(s.orelse[0], ast.If):
            s.orelse = self.stmts(s.orelse)
        else:
            s.orelse = self.stmts(s.orelse)
        self.n += 1
        t = self.new()
        return [assign(t, s.test), ast.If(name(t), s.body, s.orelse)]
    def stmts(self, l):
        out = []
        for x in l:
            r = self.visit(x)
            out += r if isinstance(r, list) else [r]
        return out
class IfExp(Base):
    """x = a if c else b -> if c: x = a else: x = b"""
    def visit_Assign(self, s):
        if isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
            self.n += 1
            e = s.value
            return ast.If(e.test, [ast.Assign(copy.deepcopy(s.targets), e.body)], [ast.Assign(copy.deepcopy(s.targets), e.orelse)])
        return s
    def visit_Return(self, s):
        if isinstance(s.value, ast.IfExp):
            self.n += 1
            return ast.If(s.value.test, [ast.Return(s.value.body)], [ast.Return(s.value.orelse)])
        return s
class Rename(Base):
    """rename local variables that are assigned (not parameters)"""
    def visit_FunctionDef(self, f):
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.Global, ast.Nonlocal)) for b in f.body for x in ast.walk(b)):
            return f
        ps = {a.arg for a in f.args.args + f.args.kwonlyargs} | {a.arg for a in (f.args.vararg, f.args.kwarg) if a}
        loc = {x.id for b in f.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - ps
        if any(isinstance(x, (ast.Import, ast.ImportFrom)) for b in f.body for x in ast.walk(b)):
            return f
        for b in f.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in loc:
                    x.id = "v_" + x.id
                    self.n += 1
                if isinstance(x, ast.ExceptHandler) and x.name in loc:
                    x.name = "v_" + x.name
        return f
class Impl(Base):
    """def f(..): body -> def f(..): return f_impl(..); def f_impl(..): body"""
    def visit_ClassDef(self, c):
        out = []
        for s in c.body:
            if isinstance(s, ast.FunctionDef) and not s.decorator_list and not s.name.startswith("__") and s.args.args and s.args.args[0].arg == "self" \
                    and not s.args.vararg and not s.args.kwarg and not s.args.kwonlyargs and len(s.body) > 1 and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for b in s.body for x in ast.walk(b)) \
                    and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for b in s.body for x in ast.walk(b)):
                self.n += 1
                g = ast.FunctionDef(s.name + "_impl", ast.arguments([], [ast.arg(a.arg) for a in s.args.args], None, [], [], None, []), s.body, [], None)
                s.body = [ast.Return(ast.Call(ast.Attribute(name("self"), s.name + "_impl", ast.Load()), [name(a.arg) for a in s.args.args[1:]], []))]
                out += [s, g]
            else:
                out.append(s)
        c.body = out
        return c
class LoopBody(Base):
    """the body of an outermost loop without control transfer or assignments to outer variables becomes a method"""
    def visit_ClassDef(self, c):
        extra = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.args.args and f.args.args[0].arg == "self" and not f.decorator_list:
                for i, s in enumerate(f.body):
                    if isinstance(s, ast.For) and isinstance(s.target, ast.Name) and not s.orelse:
                        nodes = [x for b in s.body for x in ast.walk(b)]
                        if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.Lambda, ast.ListComp, ast.GeneratorExp)) for x in nodes):
                            continue
                        stored = {x.id for x in nodes if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                        outside = {x.id for j, b in enumerate(f.body) if j != i for x in ast.walk(b) if isinstance(x, ast.Name)} | {a.arg for a in f.args.args}
                        if stored & outside:
                            continue
                        loaded = {x.id for x in nodes if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
                        known = ({x.id for j, b in enumerate(f.body) if j != i for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {a.arg for a in f.args.args}) - {"self"}
                        ps = sorted(loaded & known) + [s.target.id]
                        self.n += 1
                        nm = "%s_step%d" % (f.name, i)
                        extra.append(ast.FunctionDef(nm, ast.arguments([], [ast.arg("self")] + [ast.arg(p) for p in ps], None, [], [], None, []), s.body, [], None))
                        s.body = [ast.Expr(ast.Call(ast.Attribute(name("self"), nm, ast.Load()), [name(p) for p in ps], []))]
        c.body += extra
        return c
class While(Base):
    """for x in e -> it = iter(e), while: next (by index over list(e))"""
    def visit_For(self, s):
        self.generic_visit(s)
        if any(isinstance(x, ast.Continue) for b in s.body for x in ast.walk(b)) or s.orelse:
            return s
        self.n += 1
        l, i = self.new(), self.new()
        return [assign(l, ast.Call(name("list"), [s.iter], [])), assign(i, ast.Constant(0)),
                ast.While(ast.Compare(name(i), [ast.Lt()], [ast.Call(name("len"), [name(l)], [])]),
                    [ast.Assign([s.target], ast.Subscript(name(l), name(i), ast.Load())), ast.AugAssign(name(i, True), ast.Add(), ast.Constant(1))] + s.body, [])]
class Range(Base):
    """for x in e -> l = list(e); for i in range(len(l)): x = l[i]"""
    def visit_For(self, s):
        self.generic_visit(s)
        if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "range":
            return s
        self.n += 1
        l, i = self.new(), self.new()
        return [assign(l, ast.Call(name("list"), [s.iter], [])),
                ast.For(name(i, True), ast.Call(name("range"), [ast.Call(name("len"), [name(l)], [])], []), [ast.Assign([s.target], ast.Subscript(name(l), name(i), ast.Load()))] + s.body, s.orelse)]
class FStr(Base):
    """a % b with only %s conversions -> f-string"""
    def visit_BinOp(self, e):
        self.generic_visit(e)
        if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant) and isinstance(e.left.value, str):
            v = e.left.value
            if v.count("%") != v.count("%s"):
                return e
            args = e.right.elts if isinstance(e.right, ast.Tuple) else [e.right]
            parts = v.split("%s")
            if len(parts) != len(args) + 1 or (not isinstance(e.right, ast.Tuple) and not isinstance(e.right, (ast.Call, ast.Constant))):
                return e
            self.n += 1
            out = []
            for i, p in enumerate(parts):
                if p:
                    out.append(ast.Constant(p))
                if i < len(args):
                    out.append(ast.FormattedValue(args[i], -1))
            return ast.JoinedStr(out)
        return e
class DeMorgan(Base):
    def visit_BoolOp(self, e):
        self.generic_visit(e)
        return e
    def visit_If(self, s):
        self.generic_visit(s)
        if isinstance(s.test, ast.BoolOp) and not s.orelse and isinstance(s.test.op, ast.And):
            self.n += 1
            b = s.body
            for v in reversed(s.test.values):
                b = [ast.If(v, b, [])]
            return b[0]
        return s
class NoneEq(Base):
    """x is None -> None is x; a < b -> b > a; a == b -> b == a"""
    def visit_Compare(self, e):
        self.generic_visit(e)
        sw = {ast.Is: ast.Is, ast.IsNot: ast.IsNot, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        if len(e.ops) == 1 and type(e.ops[0]) in sw:
            self.n += 1
            return ast.Compare(e.comparators[0], [sw[type(e.ops[0])]()], [e.left])
        return e
class KwArgs(Base):
    """[] -> list(), {} -> dict()"""
    def visit_List(self, e):
        self.generic_visit(e)
        if not e.elts and isinstance(e.ctx, ast.Load):
            self.n += 1
            return ast.Call(name("list"), [], [])
        return e
    def visit_Dict(self, e):
        self.generic_visit(e)
        if not e.keys:
            self.n += 1
            return ast.Call(name("dict"), [], [])
        return e
class ElseReturn(Base):
    """if c: ...return; rest -> if c: ... else: rest"""
    def block(self, l):
        for i, s in enumerate(l[:-1]):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                self.n += 1
                s.orelse = self.block(l[i + 1:])
                return l[:i + 1]
        return l
    def visit_FunctionDef(self, f):
        self.generic_visit(f)
        f.body = self.block(f.body)
        return f
class UnElse(Base):
    """if c: return a else: b -> if c: return a; b"""
    def visit_If(self, s):
        self.generic_visit(s)
        if s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
            self.n += 1
            o = s.orelse
            s.orelse = []
            return [s] + o
        return s
class SelfTemp(Base):
    """self.a read in a function that never assigns it -> local copied at the start (attributes that are objects shared anyway)"""
    def visit_FunctionDef(self, f):
        if not f.args.args or f.args.args[0].arg != "self" or f.name == "__init__":
            return f
        nodes = [x for b in f.body for x in ast.walk(b)]
        if any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in nodes):
            return f
        calls = {id(x.func) for x in nodes if isinstance(x, ast.Call)}
        st = {x.attr for x in nodes if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store)}
        rd = [x for x in nodes if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load) and x.attr not in st and id(x) not in calls]
        use = sorted({x.attr for x in rd if x.attr in ("db", "dst_db", "root", "fp", "m_children", "m_covdata", "tree", "m_items", "_ns", "cvg_ns", "coverpoints", "crosses")})
        if not use:
            return f
        class R(ast.NodeTransformer):
            def visit_Attribute(s2, e):
                s2.generic_visit(e)
                if isinstance(e.value, ast.Name) and e.value.id == "self" and e.attr in use:
                    return name("l_" + e.attr)
                return e
        for b in f.body:
            R().visit(b)
        self.n += 1
        f.body = [ast.Assign([name("l_" + a, True)], ast.Attribute(name("self"), a, ast.Load())) for a in use] + f.body
        return f
KINDS = dict(ret=RetTemp, swap=SwapIf, aug=AugExpand, keys=Keys, args=ArgTemp, cont=Continue, list=ListIter, enum=Enum, itert=IterTemp, cond=CondTemp, ifexp=IfExp, rename=Rename,
    impl=Impl, body=LoopBody, whl=While, rng=Range, fstr=FStr, nest=DeMorgan, flip=NoneEq, lit=KwArgs, els=ElseReturn, unels=UnElse, selft=SelfTemp)

def rewrite(text, kind):
    t = ast.parse(text)
    v = KINDS[kind]()
    t = v.visit(t)
    ast.fix_missing_locations(t)
    return (ast.unparse(t) + "\n") if v.n else None

def files():
    out = []
    for d, _, fs in os.walk(SRC):
        for f in fs:
            if f.endswith(".py"):
                out.append(os.path.relpath(os.path.join(d, f), "/repo/src"))
    return sorted(out)

def prove(d, mods, jobs, limit):
    sys.path.insert(0, HERE)
    sys.setrecursionlimit(20000)
    from pyvc import main as M, exec as X
    allc = M.load()
    cons = {}
    for c in allc:
        if c.target and not getattr(c, "leaf", False):
            cons.setdefault(c.target, c)
    sel = [c for c in allc if c.props and (not mods or any(m == "*" for m in mods) or any(c.target.replace("new ", "").startswith(m + ":") or M.label(c) in mods for m in mods))]
    rs = M.run(sel, cons, limit, jobs, 10.0, None)
    return [dict(name=r["name"], undecided=r["undecided"], failed=r["failed"]) for r in rs]

def one(a, f, kind, users):
    text = rewrite(open("/repo/src/" + f).read(), kind)
    if text is None:
        return None
    d = tempfile.mkdtemp(prefix="refac", dir="/tmp")
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        open(os.path.join(d, "src", f), "w").write(text)
        p = subprocess.run([sys.executable, os.path.abspath(__file__), "--prove", d, json.dumps(users), str(a.limit)], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
        try:
            rs = json.loads(p.stdout.strip().splitlines()[-1])
        except Exception:
            return dict(file=f, kind=kind, error=(p.stdout + p.stderr)[-500:])
        return dict(file=f, kind=kind, n=len(rs), failed=[(r["name"], r["failed"][0]["name"]) for r in rs if r["failed"]], undecided=[(r["name"], r["undecided"][:200]) for r in rs if r["undecided"]])
    finally:
        shutil.rmtree(d)

def main():
    if sys.argv[1] == "--prove":
        print(json.dumps(prove(sys.argv[2], json.loads(sys.argv[3]), 2, float(sys.argv[4]))))
        return
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--only", default="")
    ap.add_argument("--kinds", default="")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--limit", type=float, default=200)
    a = ap.parse_args()
    # which contracts look into which file, from a run on the unchanged tree
    idx = "/tmp/p/refac_index.json"
    if not os.path.exists(idx):
        sys.path.insert(0, HERE)
        sys.setrecursionlimit(20000)
        from pyvc import main as M
        allc = M.load()
        cons = {}
        for c in allc:
            if c.target and not getattr(c, "leaf", False):
                cons.setdefault(c.target, c)
        rs = M.run([c for c in allc if c.props], cons, 400, 8, 10.0, None)
        tg = {M.label(c): c.target for c in allc}
        json.dump({r["name"]: sorted({x.replace("new ", "").split(":")[0] for x in r["inlined"] + [tg[r["name"]]]}) for r in rs}, open(idx, "w"))
    idx = json.load(open(idx))
    todo = []
    for f in files():
        if a.only and a.only not in f:
            continue
        m = f[:-3].replace("/", ".")
        m = m[:-9] if m.endswith(".__init__") else m
        users = [k for k, v in idx.items() if m in v]
        if users:
            todo += [(f, k, users) for k in KINDS if k != "get" and (not a.kinds or k in a.kinds.split(","))]
    with ThreadPoolExecutor(a.jobs) as ex, open(a.out, "a") as o:
        for r in ex.map(lambda t: one(a, *t), todo):
            if r:
                o.write(json.dumps(r) + "\n")
                o.flush()
if __name__ == "__main__":
    main()
