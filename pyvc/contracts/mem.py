"""Contracts of the in-memory database (C08) and of property access (C17).

The scenarios below execute the real constructors, mutators and accessors on objects in an arbitrary state (every scalar
attribute and every list of the object unconstrained) and state what a caller can observe through the accessors."""
from .util import *
from . import dates

class MemObj(M.Model):
    """a scope or item already in the database: only its type (scopes), bin kind (items) or history kind is looked at"""
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "getScopeType" and not args:
            return vint(M.stype(o.t))
        if nm == "getKind" and not args:
            return vint(hkind(o.t))
        if nm == "getScopeName" and not args:
            return vstr(M.name(o.t))
        if nm == "getName" and not args:
            return vstr(M.bname(o.t))
        if nm == "getCoverData" and not args:
            return Ref("memdata", o.t)
        if nm == "setStmtIndex" and len(args) == 1 and "STMT" in st.heap:
            st.heap["STMT"] = z3.Store(st.heap["STMT"], o.t, M.ival(ex, st, args[0], node))
            return NONE
        if nm == "getStmtIndex" and not args and "STMT" in st.heap:
            return vint(z3.Select(st.heap["STMT"], o.t))
        raise Unsupported("method %s of a stored object" % nm)
    def getattr(self, ex, st, o, nm, node):
        if nm == "data":
            return Ref("memdata", o.t)
        if nm in ("m_type",):
            return vint(M.stype(o.t))
        return MethV(o, nm)
class MemData(M.Model):
    def getattr(self, ex, st, o, nm, node):
        if nm == "type":
            return vint(btype(o.t))
        raise Unsupported("attribute %s of stored cover data" % nm)
hkind = z3.Function("hkind", I, I)
btype = z3.Function("btype", I, I)
M.MODELS["memobj"] = MemObj()
M.MODELS["memdata"] = MemData()

M.EXTS["datetime.datetime.timestamp"] = lambda ex, st, args, kw, node: P("real", fresh("ts", R))
M.EXTS["getpass.getuser"] = lambda ex, st, args, kw, node: vstr(fresh("user", I))

# class key -> (kind, supported property groups)
SCOPES = dict(MemScope="ucis.mem.mem_scope:MemScope", MemInstanceScope="ucis.mem.mem_instance_scope:MemInstanceScope",
    MemCovergroup="ucis.mem.mem_covergroup:MemCovergroup", MemCoverpoint="ucis.mem.mem_coverpoint:MemCoverpoint",
    MemCross="ucis.mem.mem_cross:MemCross", MemUCIS="ucis.mem.mem_ucis:MemUCIS", MemDUScope="ucis.mem.mem_du_scope:MemDUScope", MemHistoryNode="ucis.mem.mem_history_node:MemHistoryNode")

def argval(ex, st, n, loc=True):
    if n in ("name", "logicalname", "physicalname", "canonical_name"):
        return vstr(fresh(n, I))
    if n in ("srcinfo", "fileinfo", "sourceinfo"):
        return Ref("sinfo", fresh("loc", I)) if loc else NONE
    if n in ("weight", "source", "type", "flags", "kind", "at_least", "count", "toggle_metric", "toggle_type", "toggle_dir"):
        return vint(fresh(n, I))
    if n in ("parent", "du_scope"):
        return Ref("memobj", fresh(n, I))
    if n in ("coverpoints", "points_l"):
        k = fresh("ncp", I)
        st.assume(k >= 0)
        return ex.new_cell(st, ListCell(SRef("memobj"), k, [fresh("cps", A(I))]))
    if n == "rhs":
        return vstr(fresh(n, I))
    raise Unsupported("parameter %s" % n)

def params(f):
    return [p.arg for p in f.node.args.args][1:]

def make(ex, st, k, loc=True, havoc=True):
    """an object of the class as its constructor leaves it, then with every scalar and every list unconstrained"""
    c = cls(ex, SCOPES[k])
    init = c.find("__init__")
    args = [argval(ex, st, n, loc) for n in params(init)]
    o = ex.construct(st, c, args, {}, None)
    ex.no_raise("constructor ")
    if havoc:
        unconstrain(ex, st, o)
    return o, dict(zip(params(init), args))

def unconstrain(ex, st, o):
    c = ex.cell(st, o.id)
    f = {}
    for n, v in sorted(c.fields.items()):
        if isinstance(v, P):
            v = P(v.kind, fresh(n, SORT[v.kind]))
        elif isinstance(v, Obj):
            l = ex.cell(st, v.id)
            if isinstance(l, ListCell) and l.elem is None:
                k = fresh("n_" + n, I)
                st.assume(k >= 0)
                ex.set_cell(st, v.id, ListCell(SRef("memobj"), k, [fresh("l_" + n, A(I))], l.epoch))
        f[n] = v
    ex.set_cell(st, o.id, RecCell(c.cls, f))

IP = "ucis.int_property:IntProperty"
SC = [("SCOPE_WEIGHT", "Weight", int), ("SCOPE_GOAL", "Goal", int), ("COVER_GOAL", "Goal", int), ("SCOPE_SOURCE_TYPE", None, int)]
CV = SC + [("CVG_ATLEAST", "AtLeast", int), ("CVG_AUTOBINMAX", "AutoBinMax", int), ("CVG_DETECTOVERLAP", "DetectOverlap", bool), ("CVG_STROBE", "Strobe", int)]
CG = CV + [("CVG_PERINSTANCE", "PerInstance", bool), ("CVG_MERGEINSTANCES", "MergeInstances", bool)]
HI = [("TEST_STATUS", "TestStatus", None)]
SUP = dict(MemScope=SC, MemInstanceScope=SC, MemUCIS=SC, MemDUScope=SC, MemCovergroup=CG, MemCoverpoint=CV, MemCross=CV, MemHistoryNode=HI)
STRS = dict({k: ("COMMENT", "Comment") for k in ("MemCovergroup", "MemCoverpoint", "MemCross")}, MemDUScope=("DU_SIGNATURE", "Signature"))
SAME = {"COVER_GOAL": "SCOPE_GOAL", "SCOPE_GOAL": "COVER_GOAL"}
READONLY = {"SCOPE_IS_UNDER_DU"}

def asint(ex, v):
    v = ex.num(v)
    if isinstance(v, P) and v.kind == "int":
        return v.t
    raise Unsupported("property value %r" % (v,))

def anyix():
    """scope-level properties do not depend on the index of a cover item"""
    return vint(fresh("coverindex", I))

class Props(Contract):
    props = ("C17",)
    leaf = True
    def __init__(self, k):
        self.k = k
        self.label = "property access of " + k
        self.target = SCOPES[k] + ".setIntProperty"
    def reading(self, ex, st, o, tag):
        """every supported property and accessor of o -> term"""
        out = {}
        s = st.copy()
        for p, acc, t in SUP[self.k]:
            out[p] = asint(ex, ex.invoke(s, o, "getIntProperty", [anyix(), vint(self.ip[p])], "reading %s" % p))
            if acc:
                out["get" + acc] = asint(ex, ex.invoke(s, o, "get" + acc, [], "get" + acc))
        if self.k in STRS:
            p, acc = STRS[self.k]
            for nm, v in ((p, ex.invoke(s, o, "getStringProperty", [anyix(), vint(self.sp[p])])), ("get" + acc, ex.invoke(s, o, "get" + acc, []))):
                if not (isinstance(v, P) and v.kind == "str"):
                    raise Unsupported("string property %r" % (v,))
                out[nm] = v.t
        return out
    def run(self, ex, st):
        self.ip = ex_enum(ex, IP)
        self.sp = ex_enum(ex, "ucis.str_property:StrProperty")
        o, _ = make(ex, st, self.k)
        other, _ = make(ex, st, self.k)
        if self.k == "MemHistoryNode":
            ts = sorted(set(ex_enum(ex, "ucis.test_status_t:TestStatusT").values()))
        if self.k in STRS:
            for x in (o, other):
                ex.invoke(st, x, "set" + STRS[self.k][1], [vstr(fresh("text", I))])
        before = self.reading(ex, st, o, "")
        obef = self.reading(ex, st, other, "")
        for p, acc, t in SUP[self.k]:
            if acc:
                ex.goal(st, "%s equals get%s" % (p, acc), before[p] == before["get" + acc])
        def after(s, what, touched, v):
            now = self.reading(ex, s, o, what)
            for n in now:
                if n in touched:
                    ex.goal(s, "after %s, %s is the value set" % (what, n), now[n] == v)
                else:
                    ex.goal(s, "after %s, %s is unchanged" % (what, n), now[n] == before[n])
            onow = self.reading(ex, s, other, what)
            for n in onow:
                ex.goal(s, "after %s, %s of another object is unchanged" % (what, n), onow[n] == obef[n])
        for p, acc, t in SUP[self.k]:
            touched = {p, SAME.get(p)}
            touched |= {"get" + a for q, a, _ in SUP[self.k] if q in touched and a}
            for via in ("property",) + (("accessor",) if acc else ()):
                s = st.copy()
                v = fresh("v", I)
                if t is bool:
                    s.assume(z3.Or(v == 0, v == 1))
                elif t is None:
                    s.assume(z3.Or(*[v == x for x in ts]))
                if via == "property":
                    what = "setting property %s" % p
                    ex.invoke(s, o, "setIntProperty", [anyix(), vint(self.ip[p]), vint(v)], what)
                else:
                    what = "set%s" % acc
                    ex.invoke(s, o, what, [vbool(v == 1) if t is bool else vint(v)], what)
                after(s, what, touched, v)
        if self.k in STRS:
            p, acc = STRS[self.k]
            for via in ("set" + acc, "setStringProperty"):
                s = st.copy()
                v = fresh("txt", I)
                ex.invoke(s, o, via, ([anyix(), vint(self.sp[p])] if via == "setStringProperty" else []) + [vstr(v)], via)
                after(s, via, {p, "get" + acc}, v)
        # a string property the object does not support reaches nothing
        s = st.copy()
        p = fresh("strprop", I)
        s.assume(z3.Or(*[p == n for q, n in self.sp.items() if q != STRS.get(self.k, (None,))[0]]))
        ex.may(s, o, "setStringProperty", [anyix(), vint(p), vstr(fresh("txt", I))], lambda z: after(z, "setting an unsupported string property", set(), None))
        sup = {p for p, _, _ in SUP[self.k]}
        for p in sorted(self.ip):
            if p in sup or p == "STMT_INDEX":
                continue
            ex.refused(st, o, "setIntProperty", [anyix(), vint(self.ip[p]), vint(fresh("v", I))], "setting unsupported %s is refused" % p)
            if p not in READONLY:
                ex.refused(st, o, "getIntProperty", [anyix(), vint(self.ip[p])], "reading unsupported %s is refused" % p)

def ex_enum(ex, key):
    return cls(ex, key).enum_members()

HFIELDS = [("TestStatus", "int"), ("SimTime", "real"), ("TimeUnit", "str"), ("RunCwd", "str"), ("CpuTime", "real"), ("Seed", "str"), ("Cmd", "str"), ("Args", "str"),
    ("Compulsory", "str"), ("Date", "str"), ("UserName", "str"), ("Cost", "int"), ("ToolCategory", "str"), ("VendorId", "str"), ("VendorTool", "str"),
    ("VendorToolVersion", "str"), ("SameTests", "int"), ("Comment", "str")]

class HistFields(Contract):
    """every field of a history node is a field of its own"""
    props = ("C13", "C08")
    leaf = True
    label = "fields of a history node"
    target = SCOPES["MemHistoryNode"] + ".setTestStatus"
    def run(self, ex, st):
        o, a = make(ex, st, "MemHistoryNode", havoc=False)
        vals = {}
        for n, k in HFIELDS:
            v = Opt(fresh("no_" + n, B), P(k, fresh(n, SORT[k]))) if k == "str" else P(k, fresh(n, SORT[k]))
            vals[n] = v
            ex.invoke(st, o, "set" + n, [v])
        fixed = dict(Parent=a["parent"], LogicalName=a["logicalname"], PhysicalName=a["physicalname"], Kind=a["kind"])
        def readback(s, vals, what):
            for n in vals:
                got = ex.invoke(s, o, "get" + n, [])
                ex.goal(s, "%s%s is what was set" % (what, n), ex.eq(s, got, vals[n]))
        readback(st, dict(vals, **fixed), "")
        for n, k in HFIELDS:
            s = st.copy()
            v = P(k, fresh(n, SORT[k]))
            ex.invoke(s, o, "set" + n, [v])
            readback(s, dict(vals, **dict(fixed, **{n: v})), "after set%s, " % n)

TD = [("TestStatus", "teststatus"), ("ToolCategory", "toolcategory"), ("Date", "date"), ("SimTime", "simtime"), ("TimeUnit", "timeunit"), ("RunCwd", "runcwd"),
    ("CpuTime", "cputime"), ("Seed", "seed"), ("Cmd", "cmd"), ("Args", "args"), ("Compulsory", "compulsory"), ("UserName", "user"), ("Cost", "cost")]
class TestDataSet(Contract):
    """setTestData gives the node every value of the test data, leaves its other fields, the data and other nodes alone"""
    props = ("C13", "C08", "C18")
    leaf = True
    label = "HistoryNode.setTestData"
    target = "ucis.history_node:HistoryNode.setTestData"
    def run(self, ex, st):
        o, _ = make(ex, st, "MemHistoryNode", havoc=False)
        q, _ = make(ex, st, "MemHistoryNode", havoc=False)
        kinds = dict(HFIELDS)
        vals, other = {}, {}
        for n, k in HFIELDS:
            vals[n], other[n] = P(k, fresh(n, SORT[k])), P(k, fresh(n, SORT[k]))
            ex.invoke(st, o, "set" + n, [vals[n]])
            ex.invoke(st, q, "set" + n, [other[n]])
        given = {a: P(kinds[n], fresh(a, SORT[kinds[n]])) for n, a in TD}
        td = ex.construct(st, cls(ex, "ucis.test_data:TestData"), [], dict(given), None)
        ex.invoke(st, o, "setTestData", [td])
        want = dict(vals, **{n: given[a] for n, a in TD})
        for n, k in HFIELDS:
            ex.goal(st, "%s of the node" % n, ex.eq(st, ex.invoke(st, o, "get" + n, []), want[n]))
            ex.goal(st, "%s of another node is unchanged" % n, ex.eq(st, ex.invoke(st, q, "get" + n, []), other[n]))
        # the data can be given to another node as well
        ex.invoke(st, q, "setTestData", [td])
        for n, a in TD:
            ex.goal(st, "%s of a second node with the same data" % n, ex.eq(st, ex.invoke(st, q, "get" + n, []), given[a]))

# ---------------------------------------------------------------- iterators
# first matching element of arr[i0..n): none / its position, scanning k elements
def match_scope(x, m):
    return smt.bitop("BitAnd", M.stype(x), m) != 0
def match_item(x, m):
    return smt.bitop("BitAnd", btype(x), m) != 0
HALL = [z3.IntVal(0)]
def match_hist(x, m):
    return z3.Or(m == HALL[0], hkind(x) == m)

def mkfirst(nm, match):
    def step(a, ix, s):
        arr, i0, n, m = a
        x = z3.Select(arr, i0 + ix[0])
        hit = z3.And(s["none"], match(x, m))
        return dict(none=z3.And(s["none"], z3.Not(hit)), val=z3.If(hit, x, s["val"]), pos=z3.If(hit, i0 + ix[0], s["pos"]))
    F = Fold("first_" + nm, [("arr", A(I)), ("i0", I), ("n", I), ("m", I)], [("none", B), ("val", I), ("pos", I)],
        lambda a: dict(none=z3.BoolVal(True), val=iv(0), pos=iv(0)), step)
    # the found element stays found (lemma "stable", proved below): instantiated at the end of the list
    unf = smt.TRIG[F.f["none"].name()]
    def trig(app, ch):
        out = unf(app, ch)
        a, k = ch[:4], ch[4]
        N = a[2] - a[1]
        if not k.eq(N):
            s, e = F.at(a, k), F.at(a, N)
            out = out + [z3.Implies(z3.And(0 <= k, k <= N, z3.Not(s["none"])), z3.And(z3.Not(e["none"]), e["val"] == s["val"], e["pos"] == s["pos"])),
                         z3.Implies(z3.And(0 <= k, k <= N, z3.Not(e["none"]), s["none"]), e["pos"] >= a[1] + k)]
            if z3.is_const(k) and not z3.is_int_value(k):
                out.append(z3.Implies(z3.And(0 <= k, k < N), F.at(a, k + 1)["none"] == F.step(a, (k,), s)["none"]))
        return out
    smt.TRIG[F.f["none"].name()] = trig
    return F

FILT = {}
class Iterator(Contract):
    """__next__ returns the first matching element at or after the position and moves behind it; StopIteration when there is none"""
    leaf = True
    def __init__(self, key, nm, match, props):
        self.key, self.match, self.props = key, match, props
        self.F = mkfirst(nm, match)
        self.nm = nm
        self.target = key + ".__next__"
    def setup(self, ex, st):
        HALL[0] = iv(ex_enum(ex, "ucis.history_node_kind:HistoryNodeKind")["ALL"])
        n, arr, i0, m = fresh("n", I), fresh("arr", A(I)), fresh("i0", I), fresh("mask", I)
        l = ex.new_cell(st, ListCell(SRef("memobj"), n, [arr]))
        it = ex.construct(st, cls(ex, self.key), [l, vint(m)], {}, None)
        pos, msk, lf = iter_fields(ex, st, it, m)
        if lf.id != l.id:
            raise Unsupported("the iterator copies the list")
        c = ex.cell(st, it.id)
        ex.set_cell(st, it.id, RecCell(c.cls, dict(c.fields, **{pos: vint(i0)})))
        st.assume(0 <= i0, i0 <= n)
        ex.ctx.update(n=n, arr=arr, i0=i0, m=m, it=it, pos=pos, msk=msk, N=n - i0, l=l)
        return [it]
    def folds(self, ctx):
        return [(self.F, [ctx["arr"], ctx["i0"], ctx["n"], ctx["m"]], ctx["N"])]
    def terms(self, ctx, ks):
        out = {}
        for p, k in enumerate(ks):
            s = self.F.at([ctx["arr"], ctx["i0"], ctx["n"], ctx["m"]], k)
            out[("position", p)] = z3.If(s["none"], ctx["i0"] + k, s["pos"] + 1)
        return out
    def end(self, ctx):
        return self.F.at([ctx["arr"], ctx["i0"], ctx["n"], ctx["m"]], ctx["N"])
    def frame(self, ex, ctx, st):
        c = ex.cell(st, ctx["it"].id)
        l = ex.cell(st, ctx["l"].id)
        return z3.And(asint(ex, c.fields[ctx["msk"]]) == ctx["m"], l.n == ctx["n"], l.arrs[0] == ctx["arr"])
    def post(self, ex, ctx, st, ret):
        e = self.end(ctx)
        if isinstance(ret, Opt):
            g = [("returns an element", z3.Not(ret.isnone))]
            ret = ret.v
        else:
            g = []
        if not (isinstance(ret, Ref) and ret.model == "memobj"):
            raise Unsupported("iterator result %r" % (ret,))
        c = ex.cell(st, ctx["it"].id)
        return g + [("there is a matching element", z3.Not(e["none"])), ("returns the first matching element", ret.t == e["val"]),
            ("moves behind it", asint(ex, c.fields[ctx["pos"]]) == e["pos"] + 1), ("leaves list and mask alone", self.frame(ex, ctx, st))]
    def raises(self, ex, ctx, st, exc):
        if exc == "StopIteration":
            c = ex.cell(st, ctx["it"].id)
            return z3.And(self.end(ctx)["none"], self.frame(ex, ctx, st), asint(ex, c.fields[ctx["pos"]]) >= ctx["i0"])
    def lemmas(self, ex):
        HALL[0] = iv(ex_enum(ex, "ucis.history_node_kind:HistoryNodeKind")["ALL"])
        arr, i0, n, m, k = fresh("arr", A(I)), fresh("i0", I), fresh("n", I), fresh("m", I), fresh("k", I)
        F = Fold("firstL_" + self.nm, self.F.args, self.F.comps, self.F.init, self.F.step)
        a = [arr, i0, n, m]
        s0, k0, d = F.at(a, k), fresh("k0", I), fresh("d", I)
        e = lambda x: F.at(a, x)
        stable = lambda x: z3.Implies(z3.Not(e(k)["none"]), z3.And(z3.Not(e(x)["none"]), e(x)["val"] == e(k)["val"], e(x)["pos"] == e(k)["pos"]))
        later = lambda x: z3.Implies(z3.And(e(k)["none"], z3.Not(e(x)["none"])), z3.And(e(x)["pos"] >= i0 + k, e(x)["pos"] < i0 + x))
        out = induct("a found element stays found", ([k >= 0], stable(k)), ([k >= 0, k0 >= k, stable(k0)], stable(k0 + 1)))
        out += induct("an element found later lies later", ([k >= 0], later(k)), ([k >= 0, k0 >= k, later(k0)], later(k0 + 1)))
        # the elements handed out are the matching ones, in list order, each once
        def fstep(b, ix, s):
            x = z3.Select(b[0], ix[0])
            hit = self.match(x, b[1])
            return dict(n=z3.If(hit, s["n"] + 1, s["n"]), out=z3.If(hit, z3.Store(s["out"], s["n"], x), s["out"]))
        T = Fold("filt_" + self.nm, [("arr", A(I)), ("m", I)], [("n", I), ("out", A(I))], lambda b: dict(n=iv(0), out=z3.K(I, iv(0))), fstep)
        f = lambda x: T.at([arr, m], x)
        up = lambda x: i0 + x.arg(0) + 1 if z3.is_add(x) else i0 + x
        def seq(x):
            p = e(x)["pos"]
            base = f(i0)
            return z3.If(e(x)["none"], z3.And(f(up(x))["n"] == base["n"], f(up(x))["out"] == base["out"]),
                z3.And(p >= i0, p < up(x), f(p + 1)["n"] == base["n"] + 1, f(p + 1)["out"] == z3.Store(base["out"], base["n"], e(x)["val"])))
        out += induct("successive calls hand out exactly the matching elements in order", ([i0 >= 0], seq(iv(0))), ([i0 >= 0, k0 >= 0, seq(k0), f(i0 + k0 + 1)["n"] >= 0], seq(k0 + 1)))
        return out

class IterSelf(Iterator):
    """asking an iterator for an iterator gives the iterator itself, where it stands"""
    def __init__(self, key, props):
        self.key, self.props = key, props
        self.target = key + ".__iter__"
        self.F = None
    def folds(self, ctx):
        return []
    def terms(self, ctx, ks):
        return {}
    def lemmas(self, ex):
        return []
    def setup(self, ex, st):
        self.F = None
        return Iterator.setup(self, ex, st)
    def post(self, ex, ctx, st, ret):
        if not isinstance(ret, Obj):
            raise Unsupported("iterator of an iterator %r" % (ret,))
        if ret.id != ctx["it"].id:
            raise Unsupported("another iterator object")
        c = ex.cell(st, ctx["it"].id)
        return [("keeps its position", asint(ex, c.fields[ctx["pos"]]) == ctx["i0"]), ("leaves list and mask alone", self.frame(ex, ctx, st))]
    def raises(self, ex, ctx, st, exc):
        return None

def iter_fields(ex, st, it, m):
    """(name of the position field, name of the mask field, list) of a fresh iterator object"""
    c = ex.cell(st, it.id) if isinstance(it, Obj) else None
    if not isinstance(c, RecCell):
        raise Unsupported("iterator %r" % (it,))
    pos = [n for n, v in c.fields.items() if isinstance(v, P) and v.kind == "int" and smt.is_zero(v.t)]
    msk = [n for n, v in c.fields.items() if isinstance(v, P) and v.t.eq(m)]
    ls = [v for v in c.fields.values() if isinstance(v, Obj) and isinstance(ex.cell(st, v.id), (ListCell, FixCell))]
    if len(pos) != 1 or len(msk) != 1 or len(ls) != 1 or len(c.fields) != 3:
        raise Unsupported("representation of the iterator")
    return pos[0], msk[0], ls[0]

# ---------------------------------------------------------------- creation
def listing(ex, st, o, meth):
    """(length, elements) of what iterating o with `meth` walks over"""
    s = st.copy()
    m = fresh("mask", I)
    it = ex.invoke(s, o, meth, [vint(m)])
    _, _, l = iter_fields(ex, s, it, m)
    c = ex.cell(s, l.id)
    if isinstance(c, FixCell):
        c = fix_to_list(ex, s, c, SRef("memobj"))
    if c.elem is None:
        return c.n, z3.K(I, iv(0))
    return c.n, c.arrs[0]

def appended(a, b, x):
    return z3.And(b[0] == a[0] + 1, b[1] == z3.Store(a[1], a[0], x))
def unchanged(a, b):
    return z3.And(b[0] == a[0], b[1] == a[1])

class Create(Contract):
    """creation of a child scope: appended to its parent and to nothing else, with the given description"""
    props = ("C08",)
    leaf = True
    def __init__(self, parent, meth, otype=None):
        self.parent, self.meth, self.otype = parent, meth, otype
        self.target = SCOPES[parent] + "." + meth
        self.label = "%s.%s%s" % (parent, meth, " of a %s" % otype if otype and meth == "createScope" else "")
    def run(self, ex, st0):
        ty = ex_enum(ex, ST)
        for loc in (True, False):
            st = st0.copy()
            tag = "" if loc else " (no source location)"
            p, _ = make(ex, st, self.parent)
            q, _ = make(ex, st, self.parent)
            f = cls(ex, SCOPES[self.parent]).find(self.meth)
            a = {n: argval(ex, st, n, loc) for n in params(f)}
            if self.meth == "createToggle":
                a["weight"] = None
                want = iv(ty["TOGGLE"])
            elif self.meth == "createScope":
                a["type"] = vint(ty[self.otype])
                want = iv(ty[self.otype])
            elif self.meth == "createInstance":
                want = a["type"].t
            else:
                want = iv(ty[dict(createCovergroup="COVERGROUP", createCoverpoint="COVERPOINT", createCross="CROSS", createCoverInstance="COVERINSTANCE")[self.meth]])
            pre = st.copy()
            kids, items = listing(ex, st, p, "scopes"), listing(ex, st, p, "coverItems")
            qk, qi = listing(ex, st, q, "scopes"), listing(ex, st, q, "coverItems")
            r = ex.invoke(st, p, self.meth, [a[n] for n in params(f)], self.meth)
            if not (isinstance(r, Obj) and isinstance(ex.cell(st, r.id), RecCell)):
                raise Unsupported("result %r" % (r,))
            g = lambda what, x: ex.goal(st, what + tag, x)
            g("the child is appended to its parent's scopes", appended(kids, listing(ex, st, p, "scopes"), ident(r.id)))
            g("the parent's items are unchanged", unchanged(items, listing(ex, st, p, "coverItems")))
            g("another scope's children are unchanged", z3.And(unchanged(qk, listing(ex, st, q, "scopes")), unchanged(qi, listing(ex, st, q, "coverItems"))))
            for nm, x in (("getScopeName", a["name"]), ("getWeight", a["weight"]), ("getScopeType", vint(want))):
                x is None or g("%s of the child is as given" % nm, ex.eq(st, ex.invoke(st, r, nm, []), x))
            si = ex.invoke(st, r, "getSourceInfo", [])
            if loc and self.meth != "createToggle":
                g("source location of the child is as given", ex.eq(st, si, a.get("srcinfo", a.get("fileinfo"))))
            else:
                if si is not NONE:
                    g("no file without a source location", z3.BoolVal(ex.getattr(st, si, "file", None) is NONE))
            g("the child starts without scopes", listing(ex, st, r, "scopes")[0] == 0)
            g("the child starts without items", listing(ex, st, r, "coverItems")[0] == 0)
            if self.meth == "createInstance":
                g("design unit of the instance is as given", ex.eq(st, ex.invoke(st, r, "getInstanceDu", []), a["du_scope"]))
            if self.meth == "createCross":
                l = ex.cell(pre, a["points_l"].id)
                g("number of crossed coverpoints", ex.invoke(st, r, "getNumCrossedCoverpoints", []).t == l.n)
                j = fresh("j", I)
                s = st.copy()
                s.assume(0 <= j, j < l.n)
                x = ex.invoke(s, r, "getIthCrossedCoverpoint", [vint(j)])
                ex.goal(s, "crossed coverpoints are those given, in order" + tag, x.t == z3.Select(l.arrs[0], j))
                # the list stays the caller's: what it does with it later does not reach the cross
                s = st.copy()
                ex.invoke(s, a["points_l"], "append", [Ref("memobj", fresh("later", I))])
                g2 = lambda what, c: ex.goal(s, what + tag, c)
                g2("the cross keeps its coverpoints when the caller changes its list", ex.invoke(s, r, "getNumCrossedCoverpoints", []).t == l.n)
                s = st.copy()
                cl = ex.cell(s, a["points_l"].id)
                s.assume(cl.n > 0)
                i0 = ex.cell(s, a["points_l"].id)
                ex.set_cell(s, a["points_l"].id, ListCell(i0.elem, i0.n, [z3.Store(i0.arrs[0], iv(0), fresh("later", I))]))
                x = ex.invoke(s, r, "getIthCrossedCoverpoint", [vint(0)])
                ex.goal(s, "the cross keeps its first coverpoint when the caller replaces it in its list" + tag, x.t == z3.Select(l.arrs[0], 0))
            # nothing but the list of children of the parent has changed
            same = True
            for o in (p, q):
                c0, c1 = ex.cell(pre, o.id), ex.cell(st, o.id)
                for n in set(c0.fields) | set(c1.fields):
                    v0, v1 = c0.fields.get(n), c1.fields.get(n)
                    if all(isinstance(x, Obj) and isinstance(ex.cell(z, x.id), (ListCell, FixCell, DictCell)) for x, z in ((v0, pre), (v1, st))):
                        continue        # compared through the iterators
                    if v0 is None or v1 is None or not __import__("pyvc.exec", fromlist=["same"]).same(v0, v1):
                        ok = v0 is not None and v1 is not None and isinstance(v0, P) and isinstance(v1, P)
                        g("attribute %s of the scope is unchanged" % n, ex.eq(st, v0, v1) if ok else z3.BoolVal(False))

class CreateBin(Contract):
    props = ("C08",)
    leaf = True
    def __init__(self, k):
        self.k = k
        self.label = k + ".createBin"
        self.target = SCOPES[k] + ".createBin"
    def run(self, ex, st):
        p, _ = make(ex, st, self.k)
        q, _ = make(ex, st, self.k)
        f = cls(ex, SCOPES[self.k]).find("createBin")
        for kind in ("given", "default"):
            s = st.copy()
            a = {n: argval(ex, s, n) for n in params(f)}
            kids, items = listing(ex, s, p, "scopes"), listing(ex, s, p, "coverItems")
            qk, qi = listing(ex, s, q, "scopes"), listing(ex, s, q, "coverItems")
            names = [n for n in params(f) if kind == "given" or n != "kind"]
            r = ex.invoke(s, p, "createBin", [a[n] for n in names])
            if not (isinstance(r, Obj) and isinstance(ex.cell(s, r.id), RecCell)):
                raise Unsupported("result %r" % (r,))
            t = " (%s kind)" % kind
            ex.goal(s, "the bin is appended to the items" + t, appended(items, listing(ex, s, p, "coverItems"), ident(r.id)))
            ex.goal(s, "the scopes are unchanged" + t, unchanged(kids, listing(ex, s, p, "scopes")))
            ex.goal(s, "another coverpoint is unchanged" + t, z3.And(unchanged(qk, listing(ex, s, q, "scopes")), unchanged(qi, listing(ex, s, q, "coverItems"))))
            ex.goal(s, "name" + t, ex.eq(s, ex.invoke(s, r, "getName", []), a["name"]))
            ex.goal(s, "source location" + t, ex.eq(s, ex.invoke(s, r, "getSourceInfo", []), a["srcinfo"]))
            d = ex.invoke(s, r, "getCoverData", [])
            ex.goal(s, "count" + t, ex.eq(s, ex.getattr(s, d, "data", None), a["count"]))
            ex.goal(s, "threshold" + t, ex.eq(s, ex.getattr(s, d, "at_least", None), a["at_least"]))
            ex.goal(s, "kind" + t, ex.eq(s, ex.getattr(s, d, "type", None), a["kind"] if kind == "given" else vint(ex_enum(ex, CT)["CVGBIN"])))
            n = vint(fresh("amt", I))
            ex.invoke(s, r, "incrementCover", [n])
            ex.goal(s, "incrementCover adds to the count" + t, ex.getattr(s, ex.invoke(s, r, "getCoverData", []), "data", None).t == a["count"].t + n.t)
            ex.goal(s, "incrementCover leaves the threshold alone" + t, ex.eq(s, ex.getattr(s, d, "at_least", None), a["at_least"]))

class Files(Contract):
    """equal file names share one handle, different names have different handles"""
    props = ("C08",)
    leaf = True
    label = "MemUCIS.createFileHandle"
    target = SCOPES["MemUCIS"] + ".createFileHandle"
    def run(self, ex, st):
        p, _ = make(ex, st, "MemUCIS")
        a, b = vstr(fresh("fa", I)), vstr(fresh("fb", I))
        w = Opt(fresh("nowd", B), vstr(fresh("wd", I)))
        # the table in an arbitrary state: every handle has the name it is filed under
        ex.invoke(st, p, "createFileHandle", [vstr(fresh("f0", I)), w])
        tabs = [v for v in ex.cell(st, p.id).fields.values() if isinstance(v, Obj) and isinstance(ex.cell(st, v.id), DictCell)]
        if len(tabs) != 1:
            raise Unsupported("file table")
        d = ex.cell(st, tabs[0].id)
        if d.vshape is None or d.vshape.sorts() != [I]:
            raise Unsupported("file table entries")
        n = fresh("nfiles", I)
        st.assume(n >= 0)
        d = DictCell(d.kshape, d.vshape, fresh("filed", A(B)), [fresh("fnames", A(I))], n, fresh("forder", A(I)), d.epoch + 1)
        ex.set_cell(st, tabs[0].id, d)
        st.trigs.append(smt.Trig(d.varrs[0], lambda x: z3.Implies(z3.Select(d.dom, x), z3.Select(d.varrs[0], x) == x)))
        h1 = ex.invoke(st, p, "createFileHandle", [a, w])
        ex.goal(st, "the handle has the name", ex.eq(st, ex.invoke(st, h1, "getFileName", []), a))
        e = ex.cell(st, tabs[0].id)
        x = fresh("x", I)
        ex.goal(st, "every handle keeps its name", z3.Implies(z3.And(z3.Select(d.dom, x), z3.Select(e.dom, x)), z3.Select(e.varrs[0], x) == x))
        ex.goal(st, "no handle is dropped, only the requested one is added", z3.Select(e.dom, x) == z3.Or(z3.Select(d.dom, x), x == a.t))
        h2 = ex.invoke(st, p, "createFileHandle", [b, w])
        ex.goal(st, "the second handle has its name", ex.eq(st, ex.invoke(st, h2, "getFileName", []), b))
        h3 = ex.invoke(st, p, "createFileHandle", [a, w])
        c2, c3 = st.store.get(h2.id), st.store.get(h3.id)
        ex.goal(st, "asking again gives the name", ex.eq(st, ex.invoke(st, h3, "getFileName", []), a))
        f = ex.cell(st, tabs[0].id)
        ex.goal(st, "a file asked for twice is filed once", z3.And(z3.Implies(z3.Select(d.dom, a.t), e.klen == d.klen), z3.Implies(a.t == b.t, f.klen == e.klen)))
        # a name already filed: neither replaced nor added
        s = st.copy()
        k = fresh("known", I)
        d2 = DictCell(d.kshape, d.vshape, z3.Store(d.dom, k, z3.BoolVal(True)), d.varrs, d.klen, d.karr, 77)
        ex.set_cell(s, tabs[0].id, d2)
        ex.invoke(s, p, "createFileHandle", [vstr(k), w])
        d3 = ex.cell(s, tabs[0].id)
        ex.goal(s, "a known file keeps its handle", z3.And(z3.BoolVal(d3.epoch == 77), d3.klen == d2.klen, d3.varrs[0] == d2.varrs[0]))
        if isinstance(c2, AliasCell) and isinstance(c3, AliasCell) and c2.parent == c3.parent:
            ex.goal(st, "equal names share one handle", z3.Implies(a.t == b.t, c2.key == c3.key))

class StmtIndex(Contract):
    """STMT_INDEX of the items of an instance"""
    props = ("C17",)
    leaf = True
    label = "STMT_INDEX of instance items"
    target = SCOPES["MemInstanceScope"] + ".setIntProperty"
    def run(self, ex, st):
        o, _ = make(ex, st, "MemInstanceScope")
        st.heap["STMT"] = fresh("stmt", A(I))
        sid = ex_enum(ex, IP)["STMT_INDEX"]
        i, j, v = fresh("i", I), fresh("j", I), fresh("v", I)
        ls = [ex.cell(st, x.id) for x in ex.cell(st, o.id).fields.values() if isinstance(x, Obj) and isinstance(ex.cell(st, x.id), ListCell)]
        n = [l for l in ls if "cover_item_l" in str(l.n)]
        if len(n) != 1:
            raise Unsupported("items of the instance")
        n, arr = n[0].n, n[0].arrs[0]
        st.assume(0 <= i, i < n, 0 <= j, j < n, z3.Select(arr, i) != z3.Select(arr, j))
        before = asint(ex, ex.invoke(st, o, "getIntProperty", [vint(j), vint(sid)]))
        ex.invoke(st, o, "setIntProperty", [vint(i), vint(sid), vint(v)])
        ex.goal(st, "the index set is read back", asint(ex, ex.invoke(st, o, "getIntProperty", [vint(i), vint(sid)])) == v)
        ex.goal(st, "the index of another item is unchanged", asint(ex, ex.invoke(st, o, "getIntProperty", [vint(j), vint(sid)])) == before)

class NextCover(Contract):
    """createNextCover of an instance: the new item gets the next index, every other item keeps its own"""
    props = ("C08", "C17")
    leaf = True
    label = "MemInstanceScope.createNextCover"
    target = SCOPES["MemInstanceScope"] + ".createNextCover"
    def run(self, ex, st):
        o, _ = make(ex, st, "MemInstanceScope")
        q, _ = make(ex, st, "MemInstanceScope")
        def items(s, o):
            ls = [ex.cell(s, x.id) for x in ex.cell(s, o.id).fields.values() if isinstance(x, Obj) and isinstance(ex.cell(s, x.id), ListCell)]
            l = [l for l in ls if "cover_item_l" in str(l.n)]
            if len(l) != 1:
                raise Unsupported("items of the instance")
            return l[0].n
        n, qn = items(st, o), items(st, q)
        kids, its = listing(ex, st, o, "scopes"), listing(ex, st, o, "coverItems")
        qk, qi = listing(ex, st, q, "scopes"), listing(ex, st, q, "coverItems")
        j, k = fresh("j", I), fresh("k", I)
        st.assume(0 <= j, j < n, 0 <= k, k < qn)
        old = ex.invoke(st, o, "getIthCoverItem", [vint(j)])
        oldq = ex.invoke(st, q, "getIthCoverItem", [vint(k)])
        d, si = Ref("memdata", fresh("data", I)), Ref("sinfo", fresh("loc", I))
        r = ex.invoke(st, o, "createNextCover", [vstr(fresh("name", I)), d, si])
        ex.goal(st, "the result is the next index", asint(ex, r) == n)
        ex.goal(st, "every item keeps its index", ex.invoke(st, o, "getIthCoverItem", [vint(j)]).t == old.t)
        ex.goal(st, "the items of another instance are unchanged", ex.invoke(st, q, "getIthCoverItem", [vint(k)]).t == oldq.t)
        sid = ex_enum(ex, IP)["STMT_INDEX"]
        ex.goal(st, "the children are unchanged", z3.And(unchanged(kids, listing(ex, st, o, "scopes")), unchanged(its, listing(ex, st, o, "coverItems")),
            unchanged(qk, listing(ex, st, q, "scopes")), unchanged(qi, listing(ex, st, q, "coverItems"))))
        ex.refused(st, q, "getIthCoverItem", [vint(qn)], "there is no item behind the last of another instance")

class HistoryList(Contract):
    """getHistoryNodes: what iterating historyNodes of the same kind yields, as a list"""
    props = ("C08", "C13")
    leaf = True
    label = "UCIS.getHistoryNodes"
    target = "ucis.ucis:UCIS.getHistoryNodes"
    def setup(self, ex, st):
        o, k = Ref("src", fresh("db", I)), fresh("kind", I)
        ex.ctx.update(o=o, k=k)
        return [o, vint(k)]
    def post(self, ex, ctx, st, ret):
        n = M.NH(ctx["o"].t, ctx["k"])
        m, el = lst(ex, st, ret)
        g = [("number of nodes", m == n)]
        if el is not None:
            j = fresh("j", I)
            x = el(j)
            if not isinstance(x, Ref):
                raise Unsupported("element %r" % (x,))
            g.append(("the nodes of that kind, in order", z3.Implies(z3.And(0 <= j, j < n, m == n), x.t == M.H(ctx["o"].t, ctx["k"], j))))
        return g

class History(Contract):
    props = ("C08", "C13")
    leaf = True
    label = "MemUCIS.createHistoryNode"
    target = SCOPES["MemUCIS"] + ".createHistoryNode"
    def run(self, ex, st):
        p, _ = make(ex, st, "MemUCIS")
        before = listing(ex, st, p, "historyNodes")
        kids = listing(ex, st, p, "scopes")
        f = cls(ex, SCOPES["MemUCIS"]).find("createHistoryNode")
        a = {n: argval(ex, st, n) for n in params(f)}
        r = ex.invoke(st, p, "createHistoryNode", [a[n] for n in params(f)])
        ex.goal(st, "the node is appended to the history", appended(before, listing(ex, st, p, "historyNodes"), ident(r.id)))
        ex.goal(st, "the scopes are unchanged", unchanged(kids, listing(ex, st, p, "scopes")))
        for n, x in (("LogicalName", "logicalname"), ("PhysicalName", "physicalname"), ("Kind", "kind")):
            ex.goal(st, n, ex.eq(st, ex.invoke(st, r, "get" + n, []), a[x]))

CONTRACTS = [Props(k) for k in SUP] + [HistFields(), TestDataSet(), Files(), History(), HistoryList(), NextCover(), StmtIndex(),
    Iterator("ucis.mem.mem_scope_iterator:MemScopeIterator", "scope", match_scope, ("C08",)),
    Iterator("ucis.mem.mem_cover_index_iterator:MemCoverIndexIterator", "item", match_item, ("C08",)),
    Iterator("ucis.mem.mem_history_node_iterator:MemHistoryNodeIterator", "hist", match_hist, ("C08", "C13")),
    IterSelf("ucis.mem.mem_scope_iterator:MemScopeIterator", ("C08",)), IterSelf("ucis.mem.mem_cover_index_iterator:MemCoverIndexIterator", ("C08",)),
    IterSelf("ucis.mem.mem_history_node_iterator:MemHistoryNodeIterator", ("C08", "C13")),
    CreateBin("MemCoverpoint"), CreateBin("MemCross"),
    Create("MemUCIS", "createInstance"), Create("MemInstanceScope", "createCovergroup"), Create("MemCovergroup", "createCoverpoint"), Create("MemCovergroup", "createCross"),
    Create("MemCovergroup", "createCoverInstance"), Create("MemScope", "createCovergroup"), Create("MemInstanceScope", "createInstance"),
    Create("MemInstanceScope", "createToggle"), Create("MemDUScope", "createScope", "DU_MODULE"),
    Create("MemInstanceScope", "createScope", "COVERGROUP"), Create("MemUCIS", "createScope", "DU_MODULE"), Create("MemScope", "createScope", "COVERGROUP"),
    Create("MemScope", "createScope", "COVERINSTANCE"), Create("MemScope", "createScope", "COVERPOINT")]
