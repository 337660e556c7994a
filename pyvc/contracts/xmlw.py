"""Contracts of the XML writer (C09, C11, C13): the document a database is written to, function by function."""
from .util import *
from .xmlmodel import *
from .dates import *

MOD = "ucis.xml.xml_writer:XmlWriter."
C = {}
def consts(ex):
    for k in ("CVGBIN", "IGNOREBIN", "ILLEGALBIN"):
        C[k] = enum(ex, CT, k)
    C["MASK"] = iv(C["CVGBIN"] | C["IGNOREBIN"] | C["ILLEGALBIN"])
    for k in ("INSTANCE", "COVERGROUP", "COVERINSTANCE", "COVERPOINT", "CROSS", "ALL"):
        C[k] = iv(enum(ex, ST, k))

def kindname(it, plain):
    k = M.bkind(it)
    return z3.If(k == C["IGNOREBIN"], L("ignore"), z3.If(k == C["ILLEGALBIN"], L("illegal"), L(plain)))

# ---- bins
def cpbin(x, a, i):
    parent, s, m = a
    it = M.BI(s, m, i)
    b = x.mk(parent, "coverpointBin")
    x.set(b, "name", M.bname(it))
    x.set(b, "type", kindname(it, "bins"))
    x.set(b, "key", "0")
    r = x.mk(b, "range")
    x.set(r, "from", "-1")
    x.set(r, "to", "-1")
    c = x.mk(r, "contents")
    x.set(c, "coverageCount", smt.str_of_int(M.bdata(it)))
CPBINS = xfold("xw_cpbins", [("parent", I), ("s", I), ("m", I)], cpbin)
def crbin(x, a, i):
    parent, s, m = a
    it = M.BI(s, m, i)
    b = x.mk(parent, "crossBin")
    x.set(b, "name", M.bname(it))
    x.set(b, "key", "0")
    x.set(b, "type", kindname(it, "default"))
    t = x.mk(b, "index")
    x.settext(t, L("-1"))
    c = x.mk(b, "contents")
    x.set(c, "coverageCount", smt.str_of_int(M.bdata(it)))
CRBINS = xfold("xw_crbins", [("parent", I), ("s", I), ("m", I)], crbin)

# ---- coverpoints and crosses
def coverpoint(x, parent, cp):
    e = x.mk(parent, "coverpoint")
    x.set(e, "name", M.name(cp))
    x.set(e, "key", "0")
    x.mk(e, "options")
    x.fold(CPBINS, (e, cp, C["MASK"]), M.NB(cp, C["MASK"]))
CPF = xfun("xw_coverpoint", I, I)
CPS = xfold("xw_cps", [("parent", I), ("s", I)], lambda x, a, i: x.call(CPF, a[0], M.S(a[1], C["COVERPOINT"], i)))
def crossexpr(x, a, i):
    e = x.mk(a[0], "crossExpr")
    x.settext(e, M.name(M.X(a[1], i)))
CREXPR = xfold("xw_crexpr", [("parent", I), ("s", I)], crossexpr)
def cross(x, parent, cr):
    e = x.mk(parent, "cross")
    x.set(e, "name", M.name(cr))
    x.set(e, "key", "0")
    x.mk(e, "options")
    x.fold(CREXPR, (e, cr), M.NX(cr))
    x.fold(CRBINS, (e, cr, C["MASK"]), M.NB(cr, C["MASK"]))
CRF = xfun("xw_cross", I, I)
CRS = xfold("xw_crs", [("parent", I), ("s", I)], lambda x, a, i: x.call(CRF, a[0], M.S(a[1], C["CROSS"], i)))

# ---- covergroup instances and covergroups
def sourceid(x, parent, tag):
    e = x.mk(parent, tag)
    x.set(e, "file", "1")
    x.set(e, "line", "1")
    x.set(e, "inlineCount", "1")
def coverinstance(x, parent, cgname, cg):
    e = x.mk(parent, "cgInstance")
    x.set(e, "name", M.name(cg))
    x.set(e, "key", "0")
    x.mk(e, "options")
    d = x.mk(e, "cgId")
    x.set(d, "cgName", cgname)
    x.set(d, "moduleName", cgname)
    sourceid(x, d, "cginstSourceId")
    sourceid(x, d, "cgSourceId")
    x.fold(CPS, (e, cg), M.NS(cg, C["COVERPOINT"]))
    x.fold(CRS, (e, cg), M.NS(cg, C["CROSS"]))
CIF = xfun("xw_coverinstance", I, I, I)
CIS = xfold("xw_cis", [("parent", I), ("cg", I)], lambda x, a, i: x.call(CIF, a[0], M.name(a[1]), M.S(a[1], C["COVERINSTANCE"], i)))
def covergroup(x, inst, cg):
    e = x.mk(inst, "covergroupCoverage")
    n = M.NS(cg, C["COVERINSTANCE"])
    y, z = X(x.c), X(x.c)
    y.call(CIF, e, M.name(cg), cg)
    z.fold(CIS, (e, cg), n)
    x.c = {c: z3.If(n == 0, y.c[c], z.c[c]) for c in NAMES}
CGS = xfold("xw_cgs", [("inst", I), ("s", I)], lambda x, a, i: covergroup(x, a[0], M.S(a[1], C["COVERGROUP"], i)))
CGSF = xfun("xw_covergroups", I, I)
def instance(x, root, s):
    e = x.mk(root, "instanceCoverages")
    x.set(e, "name", M.name(s))
    x.set(e, "key", "0")
    d = x.mk(e, "id")
    x.set(d, "file", "1")
    x.set(d, "line", "1")
    x.set(d, "inlineCount", "1")
    x.call(CGSF, e, s)
INSTF = xfun("xw_instance", I, I)
INSTS = xfold("xw_insts", [("root", I), ("db", I)], lambda x, a, i: x.call(INSTF, a[0], M.S(a[1], C["INSTANCE"], i)))

def iterator(ex, st, v, what):
    """the sequence a modelled iterator stands for: (scope, mask)"""
    c = ex.cell(st, v.id) if isinstance(v, Obj) else None
    if isinstance(c, IterCell) and z3.is_int_value(z3.simplify(c.pos)) and z3.simplify(c.pos).as_long() == 0 and c.seq.fixed is None:
        k = fresh("k", I)
        r = c.seq.get(st.copy(), k)
        if isinstance(r, Ref) and r.t.decl().name() == what and r.t.arg(2).eq(k):
            return r.t.arg(0), r.t.arg(1)
    raise Unsupported("argument is not a fresh iterator over a scope")

class WContract(Contract):
    props = ("C09", "C11")
    what = "the document after writing it"
    def setup(self, ex, st):
        consts(ex)
        x = X([fresh("X" + c, s) for c, s in COMPS])
        x.put(st)
        ex.ctx["x"] = x.args()
        w = ex.construct(st, cls(ex, MOD[:-1]), [], {}, None)
        ex.ctx["w"] = w
        return [w] + self.args(ex, st)
    def elem(self, ex, nm):
        ex.ctx[nm] = fresh(nm, I)
        return Ref("xel", ex.ctx[nm])
    def src(self, ex, nm):
        ex.ctx[nm] = fresh(nm, I)
        return Ref("src", ex.ctx[nm])
    def post(self, ex, ctx, st, ret):
        x = X(ctx["x"])
        self.spec(x, ctx)
        return [("%s: %s" % (self.what, n), st.heap["X" + c] == x.c[c]) for c, n in
            (("n", "number of elements"), ("tag", "element names"), ("has", "attributes present"), ("val", "attribute values"), ("txt", "element text"))]
    def xel(self, ex, st, v):
        v = ex.unopt(st, v, None)
        if isinstance(v, Ref) and v.model == "xel":
            return v.t
        raise Unsupported("element expected, got %r" % (v,))
    def sref(self, ex, st, v):
        v = ex.unopt(st, v, None, "AttributeError")
        if isinstance(v, Ref) and v.model == "src":
            return v.t
        raise Unsupported("scope expected, got %r" % (v,))
    fns = None
    def apply(self, ex, st, args, node):
        x = X.of(st)
        x.call(self.fns, *self.extra(ex, st, args))
        x.put(st)
        return NONE
    def extra(self, ex, st, args):
        return [self.xel(ex, st, args[1]), self.sref(ex, st, args[2])]

class Bins(WContract):
    fold = None
    def args(self, ex, st):
        e, s = self.elem(ex, "parent"), self.src(ex, "s")
        return [e, M.SrcScope().method(ex, st, s, "coverItems", [vint(C["MASK"])], {}, None)]
    def folds(self, ctx):
        return [(self.fold, list(ctx["x"]) + [ctx["parent"], ctx["s"], C["MASK"]], M.NB(ctx["s"], C["MASK"]))]
    def spec(self, x, ctx):
        x.fold(self.fold, (ctx["parent"], ctx["s"], C["MASK"]), M.NB(ctx["s"], C["MASK"]))
    def apply(self, ex, st, args, node):
        s, m = iterator(ex, st, args[2], "BI")
        x = X.of(st)
        x.fold(self.fold, (self.xel(ex, st, args[1]), s, m), M.NB(s, m))
        x.put(st)
        return NONE
class CoverpointBins(Bins):
    target = MOD + "write_coverpoint_bins"
    fold = CPBINS
class CrossBins(Bins):
    target = MOD + "write_cross_bins"
    fold = CRBINS

class ScopeContract(WContract):
    def args(self, ex, st):
        return [self.elem(ex, "parent"), self.src(ex, "s")]
class WCoverpoint(ScopeContract):
    target = MOD + "write_coverpoint"
    fns = CPF
    def spec(self, x, ctx):
        coverpoint(x, ctx["parent"], ctx["s"])
class WCross(ScopeContract):
    target = MOD + "write_cross"
    fns = CRF
    def spec(self, x, ctx):
        cross(x, ctx["parent"], ctx["s"])
    def folds(self, ctx):
        x = X(ctx["x"])
        e = x.mk(ctx["parent"], "cross")
        x.set(e, "name", M.name(ctx["s"]))
        x.set(e, "key", "0")
        x.mk(e, "options")
        return [(CREXPR, x.args() + [e, ctx["s"]], M.NX(ctx["s"]))]
class WCoverInstance(WContract):
    target = MOD + "write_coverinstance"
    fns = CIF
    def args(self, ex, st):
        ex.ctx["nm"] = fresh("cgname", I)
        return [self.elem(ex, "parent"), vstr(ex.ctx["nm"]), self.src(ex, "s")]
    def extra(self, ex, st, args):
        return [self.xel(ex, st, args[1]), M.sval(ex, st, args[2], None), self.sref(ex, st, args[3])]
    def spec(self, x, ctx):
        coverinstance(x, ctx["parent"], ctx["nm"], ctx["s"])
    def folds(self, ctx):
        x = X(ctx["x"])
        coverinstance(x, ctx["parent"], ctx["nm"], ctx["s"])
        # the two loops start from the states inside the specification term
        cr, (nx,) = smt.fold_args(x.c["n"])
        cp, (np_,) = smt.fold_args(cr[0])
        return [(CPS, cp, np_), (CRS, cr, nx)]
class WCovergroups(ScopeContract):
    target = MOD + "write_covergroups"
    fns = CGSF
    def spec(self, x, ctx):
        x.fold(CGS, (ctx["parent"], ctx["s"]), M.NS(ctx["s"], C["COVERGROUP"]))
    def folds(self, ctx):
        return [(CGS, list(ctx["x"]) + [ctx["parent"], ctx["s"]], M.NS(ctx["s"], C["COVERGROUP"]))]
    def terms(self, ctx, ks):
        """the loop over instances inside the loop over covergroups"""
        if len(ks) != 2:
            return {}
        s = CGS.at(list(ctx["x"]) + [ctx["parent"], ctx["s"]], ks[0])
        x = X(s)
        cg = M.S(ctx["s"], C["COVERGROUP"], ks[0])
        e = x.mk(ctx["parent"], "covergroupCoverage")
        y = X(x.c)
        y.fold(CIS, (e, cg), ks[1])
        out = {("cis", c): y.c[c] for c in NAMES}
        n = M.NS(cg, C["COVERINSTANCE"])
        out[("cur",)] = M.S(cg, C["COVERINSTANCE"], ks[1])
        out[("done",)] = z3.Not(ks[1] < n)
        out[("pos",)] = z3.If(ks[1] < n, ks[1] + 1, n)
        return out
    def invariants(self, ctx, ks):
        if len(ks) != 2:
            return {}
        return {"index within the instances": ks[1] <= M.NS(M.S(ctx["s"], C["COVERGROUP"], ks[0]), C["COVERINSTANCE"])}
class WInstance(WContract):
    target = MOD + "write_instance_coverages"
    fns = INSTF
    def args(self, ex, st):
        root = self.elem(ex, "root")
        o = ex.ctx["w"]
        c = ex.cell(st, o.id)
        f = dict(c.fields)
        f["root"] = root
        st.store[o.id] = RecCell(c.cls, f)
        return [self.src(ex, "s")]
    def extra(self, ex, st, args):
        return [self.xel(ex, st, field(ex, st, args[0], "root")), self.sref(ex, st, args[1])]
    def spec(self, x, ctx):
        instance(x, ctx["root"], ctx["s"])


# ---------------------------------------------------------------- history
DATEFMT = "%Y%m%d%H%M%S"
STR, OSTR, ONUM, ANY = "str", "ostr", "num", "any"
# attribute, getter, kind of value
FIELDS = [("logicalName", "LogicalName", STR), ("physicalName", "PhysicalName", OSTR), ("kind", "Kind", ANY), ("simtime", "SimTime", "real"), ("timeunit", "TimeUnit", OSTR),
    ("runCwd", "RunCwd", OSTR), ("cpuTime", "CpuTime", "real"), ("seed", "Seed", OSTR), ("cmd", "Cmd", OSTR), ("args", "Args", OSTR), ("compulsory", "Compulsory", OSTR),
    ("date", "Date", "date"), ("userName", "UserName", OSTR), ("cost", "Cost", "real"), ("toolCategory", "ToolCategory", STR), ("ucisVersion", "UCISVersion", STR), ("vendorId", "VendorId", STR),
    ("vendorTool", "VendorTool", STR), ("vendorToolVersion", "VendorToolVersion", STR), ("sameTests", "SameTests", "int"), ("comment", "Comment", OSTR)]
hf = {g: z3.Function("h_" + g, I, R if k == "real" else I) for _, g, k in FIELDS}
hno = {g: z3.Function("h_no_" + g, I, B) for _, g, k in FIELDS}
smt.trigger(hf["Date"], lambda app, ch: [is_date(DATEFMT)(app)])
hstatus = z3.Function("h_status", I, I)
anystr = z3.Function("any_str", I, I)
class AnyVal(M.Model):
    def to_str(self, ex, st, o):
        return vstr(anystr(o.t))
class Hist(M.Model):
    G = {"get" + g: (g, k) for _, g, k in FIELDS}
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "getTestStatus" and not args:
            return vint(hstatus(o.t))
        if nm in self.G and not args:
            g, k = self.G[nm]
            t = hf[g](o.t)
            if k == OSTR:
                return Opt(hno[g](o.t), vstr(t))
            if k == ANY:
                return Opt(hno[g](o.t), Ref("anyval", t))
            return P("real", t) if k == "real" else vint(t) if k == "int" else vstr(t)
        raise Unsupported("method %s of a history node" % nm)
M.MODELS.update(hist=Hist(), anyval=AnyVal())

def histnode(x, a, i):
    root, db = a
    h = M.H(db, iv(0), i)
    e = x.mk(root, "historyNodes")
    x.set(e, "historyNodeId", smt.str_of_int(i))
    x.set(e, "testStatus", z3.If(hstatus(h) == C["OK"], L("true"), L("false")))
    for at, g, k in FIELDS:
        t = hf[g](h)
        if k == STR:
            x.set(e, at, t)
        elif k in (OSTR, ANY):
            x.setif(z3.Not(hno[g](h)), e, at, anystr(t) if k == ANY else t)
        elif k == "real":
            # xsd:double has an exponent, xsd:decimal has none
            x.setif(t >= 0, e, at, dectext(decof(smt.str_of_real(t))) if at == "cost" else smt.str_of_real(t))
        elif k == "int":
            x.setif(t >= 0, e, at, smt.str_of_int(t))
        else:
            x.set(e, at, iso(parse(DATEFMT)(t)))
HIST = xfold("xw_hist", [("root", I), ("db", I)], histnode)
HISTF = xfun("xw_history", I, I)
REQUIRED = ("historyNodeId", "logicalName", "testStatus", "date", "toolCategory", "ucisVersion", "vendorId", "vendorTool", "vendorToolVersion")

def setfields(ex, st, o, **kw):
    c = ex.cell(st, o.id)
    f = dict(c.fields)
    for k in kw:
        if k not in f:
            raise Unsupported("the writer has no attribute " + k)
    f.update(kw)
    st.store[o.id] = RecCell(c.cls, f)

class WHistory(WContract):
    target = MOD + "write_history_nodes"
    props = ("C13", "C11")
    fns = HISTF
    def args(self, ex, st):
        C["OK"] = enum(ex, "ucis.test_status_t:TestStatusT", "OK")
        if enum(ex, "ucis.history_node_kind:HistoryNodeKind", "ALL") != 0:
            raise Unsupported("HistoryNodeKind.ALL")
        setfields(ex, st, ex.ctx["w"], root=self.elem(ex, "root"), db=self.src(ex, "db"))
        return []
    def apply(self, ex, st, args, node):
        db = field(ex, st, args[0], "db")
        if isinstance(db, Ref) and db.model == "histdb":
            return None         # the round trip of one node goes through the body
        return super().apply(ex, st, args, node)
    def extra(self, ex, st, args):
        return [self.xel(ex, st, field(ex, st, args[0], "root")), self.sref(ex, st, field(ex, st, args[0], "db"))]
    def folds(self, ctx):
        return [(HIST, list(ctx["x"]) + [ctx["root"], ctx["db"]], M.NH(ctx["db"], iv(0)))]
    def terms(self, ctx, ks):
        return {("any",): ks[-1] > 0, ("none",): ks[-1] <= 0}
    def post(self, ex, ctx, st, ret):
        n = M.NH(ctx["db"], iv(0))
        x = X(ctx["x"])
        x.fold(HIST, (ctx["root"], ctx["db"]), n)
        g = [("history elements: " + c, z3.Implies(n > 0, st.heap["X" + c] == x.c[c])) for c in NAMES]
        # placeholder: one more element below the root, everything else as before
        x0 = X(ctx["x"])
        e = x0.mk(ctx["root"], "historyNodes")
        h = st.heap
        g.append(("placeholder: one element", z3.Implies(n == 0, z3.And(h["Xn"] == x0.c["n"], h["Xtag"] == x0.c["tag"]))))
        g.append(("placeholder: nothing else changes", z3.Implies(n == 0, z3.And(*[z3.Store(h["X" + c], e, z3.Select(x0.c[c], e)) == x0.c[c] for c in ("has", "val", "txt")]))))
        other = fresh("attribute", I)
        g.append(("placeholder: no attribute but those of a history node", z3.Implies(z3.And(n == 0, z3.Select(z3.Select(h["Xhas"], e), other)), z3.Or(*[other == L(a) for a in ["historyNodeId", "testStatus"] + [f[0] for f in FIELDS]]))))
        g.append(("placeholder: no text", z3.Implies(n == 0, z3.Select(h["Xtxt"], e) == NOTEXT)))
        for at in REQUIRED:
            g.append(("placeholder: has " + at, z3.Implies(n == 0, z3.Select(z3.Select(h["Xhas"], e), L(at)))))
        return g

# ---------------------------------------------------------------- source files
BA = A(B)
FST = [("dom", BA), ("val", IA), ("n", I), ("karr", IA)]
def own(x):
    return z3.And(z3.Not(M.nofile(M.loc(x)))), M.fname(M.sfile(M.loc(x)))
def addfile(s, cond, f):
    new = z3.And(cond, z3.Not(z3.Select(s["dom"], f)))
    return dict(dom=z3.If(new, z3.Store(s["dom"], f, z3.BoolVal(True)), s["dom"]), val=z3.If(new, z3.Store(s["val"], f, s["n"] + 1), s["val"]),
        n=z3.If(new, s["n"] + 1, s["n"]), karr=z3.If(new, z3.Store(s["karr"], s["n"], f), s["karr"]))
def _fa_step(a, ix, s):
    x = M.S(a[4], a[5], ix[0])
    s = addfile(s, *own(x))
    return fa_children([s[c] for c, _ in FST], x)
FA = Fold("xw_files", FST + [("s", I), ("m", I)], FST, lambda a: dict(zip([c for c, _ in FST], a)), _fa_step)
def fa_children(st4, x):
    return FA.at(list(st4) + [x, C["ALL"]], M.NS(x, C["ALL"]))
# the files referenced from a scope and everything below it
REFS = z3.Function("references_file", I, I, B)
ANYREF = Fold("any_references_file", [("s", I), ("m", I), ("f", I)], [("v", B)], lambda a: dict(v=z3.BoolVal(False)),
    lambda a, ix, s: dict(v=z3.Or(s["v"], REFS(M.S(a[0], a[1], ix[0]), a[2]))))
def refs_def(x, f):
    c, fn = own(x)
    return REFS(x, f) == z3.Or(z3.And(c, fn == f), ANYREF.at([x, C["ALL"], f], M.NS(x, C["ALL"]))["v"])

class FindFiles(Contract):
    target = MOD + "find_all_files"
    props = ("C11",)
    def setup(self, ex, st):
        consts(ex)
        # scopes always have a source information object (constructor of MemScope)
        smt.trigger(M.noloc, lambda app, ch: [z3.Not(app)])
        w = ex.construct(st, cls(ex, MOD[:-1]), [], {}, None)
        d = [fresh("files_" + c, s) for c, s in FST]
        st.assume(d[2] >= 0)
        cell = ex.new_cell(st, DictCell(SP("str"), SP("int"), d[0], [d[1]], d[2], d[3], 0))
        setfields(ex, st, w, file_id_m=cell)
        s, m = fresh("s", I), C["ALL"]
        ex.ctx.update(d=d, w=w, s=s, m=m)
        return [w, M.SrcScope().method(ex, st, Ref("src", s), "scopes", [vint(m)], {}, None)]
    def folds(self, ctx):
        return [(FA, ctx["d"] + [ctx["s"], ctx["m"]], M.NS(ctx["s"], ctx["m"]))]
    def map_of(self, ex, st, w):
        v = field(ex, st, w, "file_id_m")
        c = ex.cell(st, v.id) if isinstance(v, Obj) else None
        if isinstance(c, DictCell) and c.kshape in (None, SP("str")) and c.vshape in (None, SP("int")):
            return v.id, c
        raise Unsupported("file table")
    def post(self, ex, ctx, st, ret):
        _, c = self.map_of(ex, st, ctx["w"])
        f = FA.at(ctx["d"] + [ctx["s"], ctx["m"]], M.NS(ctx["s"], ctx["m"]))
        return [("the files found", c.dom == f["dom"]), ("identifiers of the files", c.varrs[0] == f["val"]), ("number of files", c.klen == f["n"]), ("order of the files", c.karr == f["karr"])]
    def apply(self, ex, st, args, node):
        s, m = iterator(ex, st, args[1], "S")
        id, c = self.map_of(ex, st, args[0])
        v = c.varrs[0] if c.vshape is not None else K0
        f = FA.at([c.dom, v, c.klen, c.karr, s, m], M.NS(s, m))
        ex.set_cell(st, id, DictCell(SP("str"), SP("int"), f["dom"], [f["val"]], f["n"], f["karr"], c.epoch + 1))
        return NONE
    def lemmas(self, ex):
        consts(ex)
        d = [fresh("d_" + c, s) for c, s in FST]
        s, m, i, a, y = fresh("s", I), fresh("m", I), fresh("i", I), fresh("a", I), fresh("y", I)
        D = lambda l: dict(zip([c for c, _ in FST], l)) if not isinstance(l, dict) else l
        at = lambda j: FA.at(d + [s, m], j)
        x = M.S(s, m, i)
        mid = addfile(at(i), *own(x))
        out = fa_children([mid[c] for c, _ in FST], x)
        def inv1(f):
            f = D(f)
            k = z3.Select(f["karr"], a)
            return z3.And(f["n"] >= 0, z3.Implies(z3.And(0 <= a, a < f["n"]), z3.And(z3.Select(f["dom"], k), z3.Select(f["val"], k) == a + 1)))
        def inv2(f):
            f = D(f)
            v = z3.Select(f["val"], y)
            return z3.And(f["n"] >= 0, z3.Implies(z3.Select(f["dom"], y), z3.And(1 <= v, v <= f["n"], z3.Select(f["karr"], v - 1) == y)))
        r = []
        for nm, inv in (("the k-th listed file has identifier k+1", inv1), ("a file in the table is listed at the position of its identifier, so once and with an identifier of its own", inv2)):
            # induction over the scopes and, for the scopes below, over the height of the tree
            r += induct(nm, ([inv(d)], inv(at(iv(0)))), ([i >= 0, inv(at(i)), z3.Implies(inv(mid), inv(out))], inv(at(i + 1))))
        dom = lambda f: z3.Select(D(f)["dom"], y)
        r += induct("no file leaves the table", ([], z3.Implies(dom(d), dom(at(iv(0))))), ([i >= 0, z3.Implies(dom(d), dom(at(i))), z3.Implies(dom(mid), dom(out))], z3.Implies(dom(d), dom(at(i + 1)))))
        r += induct("the table never gets smaller", ([], at(iv(0))["n"] >= d[2]), ([i >= 0, at(i)["n"] >= d[2], out["n"] >= mid["n"]], at(i + 1)["n"] >= d[2]))
        anyr = lambda j: ANYREF.at([s, m, y], j)["v"]
        below = ANYREF.at([x, C["ALL"], y], M.NS(x, C["ALL"]))["v"]
        r += induct("the table holds exactly the files referenced anywhere below", ([], dom(at(iv(0))) == z3.Or(dom(d), anyr(iv(0)))),
            ([i >= 0, dom(at(i)) == z3.Or(dom(d), anyr(i)), dom(out) == z3.Or(dom(mid), below), refs_def(x, y)], dom(at(i + 1)) == z3.Or(dom(d), anyr(i + 1))))
        p, q = fresh("p", I), fresh("q", I)
        r.append(("different files get different identifiers", [z3.substitute(inv2(d), (y, p)), z3.substitute(inv2(d), (y, q)), z3.Select(d[0], p), z3.Select(d[0], q), p != q], smt.str_of_int(z3.Select(d[1], p)) != smt.str_of_int(z3.Select(d[1], q))))
        return r

def srcfile(x, a, i):
    root, karr, val = a
    e = x.mk(root, "sourceFiles")
    f = z3.Select(karr, i)
    x.set(e, "fileName", f)
    x.set(e, "id", smt.str_of_int(z3.Select(val, f)))
SRCF = xfold("xw_srcfiles", [("root", I), ("karr", IA), ("val", IA)], srcfile)
class WSourceFiles(WContract):
    target = MOD + "write_source_files"
    props = ("C11",)
    def args(self, ex, st):
        d = [fresh("files_" + c, s) for c, s in FST]
        st.assume(d[2] >= 0)
        cell = ex.new_cell(st, DictCell(SP("str"), SP("int"), d[0], [d[1]], d[2], d[3], 0))
        ex.ctx["d"] = d
        setfields(ex, st, ex.ctx["w"], root=self.elem(ex, "root"), file_id_m=cell)
        return []
    def folds(self, ctx):
        d = ctx["d"]
        return [(SRCF, list(ctx["x"]) + [ctx["root"], d[3], d[1]], d[2])]
    def spec(self, x, ctx):
        d = ctx["d"]
        x.fold(SRCF, (ctx["root"], d[3], d[1]), d[2])
    def apply(self, ex, st, args, node):
        _, c = FindFiles().map_of(ex, st, args[0])
        x = X.of(st)
        x.fold(SRCF, (self.xel(ex, st, field(ex, st, args[0], "root")), c.karr, c.varrs[0]), c.klen)
        x.put(st)
        return NONE

DOCTEXT = z3.Function("document_text", *([s for _, s in COMPS] + [I, I]))
def x_tounicode(ex, st, args, kw, node):
    if set(kw) - {"pretty_print"} or not (isinstance(args[0], Ref) and args[0].model == "xel"):
        raise Unsupported("tounicode")
    return vstr(DOCTEXT(*(X.of(st).args() + [args[0].t])))
M.EXTS["lxml.etree.tounicode"] = x_tounicode

ROOT = z3.Int("xroot")
def filetable(db):
    """the files referenced in a database, after the placeholder"""
    nul = L("__null__file__")
    d = [z3.Store(KF, nul, z3.BoolVal(True)), z3.Store(K0, nul, iv(1)), iv(1), z3.Store(K0, iv(0), nul)]
    return FA.at(d + [db, C["ALL"]], M.NS(db, C["ALL"]))
def preface(x, db, ver):
    """the root, the table of source files and the history"""
    x.fresh_elem(ROOT, "UCIS")
    for nm in ("writtenBy", "writtenTime"):
        x.set(ROOT, nm, "")
    x.set(ROOT, "ucisVersion", ver)
    f = filetable(db)
    x.fold(SRCF, (ROOT, f["karr"], f["val"]), f["n"])
    x.call(HISTF, ROOT, db)
class Write(WContract):
    target = MOD + "write"
    props = ("C09", "C11", "C13")
    def setup(self, ex, st):
        r = super().setup(ex, st)
        st.heap["OUT"] = ex.ctx["out"] = fresh("OUT", I)
        # a writer that may have written other databases before
        have = ex.cell(st, ex.ctx["w"].id).fields
        kn = fresh("used_n", I)
        st.assume(kn >= 0)
        old = dict(file_id_m=ex.new_cell(st, DictCell(SP("str"), SP("int"), fresh("used_dom", A(B)), [fresh("used_val", IA)], kn, fresh("used_names", IA), 0)),
            db=Ref("src", fresh("used_db", I)), root=Ref("xel", fresh("used_root", I)))
        setfields(ex, st, ex.ctx["w"], **{k: v for k, v in old.items() if k in have})
        ex.ctx["ver"] = z3.Function("apiversion", I, I)(ex.ctx["db"])
        return r
    def args(self, ex, st):
        return [Ref("outfp", fresh("fp", I)), self.src(ex, "db")]
    def before(self, ctx):
        """the document before the loop over the instances"""
        x = X(ctx["x"])
        preface(x, ctx["db"], ctx["ver"])
        return x
    def folds(self, ctx):
        return [(INSTS, self.before(ctx).args() + [ROOT, ctx["db"]], M.NS(ctx["db"], C["INSTANCE"]))]
    def post(self, ex, ctx, st, ret):
        x = self.before(ctx)
        x.fold(INSTS, (ROOT, ctx["db"]), M.NS(ctx["db"], C["INSTANCE"]))
        t = st.heap["OUT"]
        if not (z3.is_app(t) and t.decl().name() == "snoc"):
            raise Unsupported("output")
        w = t.arg(1)
        if not (z3.is_app(w) and w.decl().name() == "document_text"):
            raise Unsupported("output")
        g = [("the written document: " + c, w.arg(i) == x.c[c]) for i, c in enumerate(NAMES)]
        return [("exactly one document is written", t.arg(0) == ctx["out"]), ("the document is the one built", w.arg(len(NAMES)) == ROOT)] + g

CONTRACTS = [CoverpointBins(), CrossBins(), WCoverpoint(), WCross(), WCoverInstance(), WCovergroups(), WInstance(), WHistory(), FindFiles(), WSourceFiles(), Write()]
