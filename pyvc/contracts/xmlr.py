"""Contracts of the XML reader (C09, C10, C13)."""
from .util import *
from .xmlmodel import *
from .dates import *
from . import xmlw, mem

MOD = "ucis.xml.xml_reader:XmlReader."

# ---------------------------------------------------------------- one history node, written and read back
class HistDb(M.Model):
    """a database with one history node"""
    node = None
    def method(self, ex, st, o, nm, args, kw, node):
        if nm in ("historyNodes", "getHistoryNodes") and len(args) == 1:
            return SeqV(iv(1), None, fixed=[HistDb.node])
        raise Unsupported("method %s of a database" % nm)
M.MODELS["histdb"] = HistDb()

# field, kind of value (None: not written); a negative number means unset
RT = [("LogicalName", "str"), ("PhysicalName", "ostr"), ("Kind", "ostr"), ("TimeUnit", "ostr"), ("RunCwd", "ostr"), ("Seed", "ostr"), ("Cmd", "ostr"), ("Args", "ostr"), ("Compulsory", "ostr"),
    ("UserName", "ostr"), ("Comment", "ostr"), ("ToolCategory", "str"), ("VendorId", "str"), ("VendorTool", "str"), ("VendorToolVersion", "str"), ("Date", "date"),
    ("SimTime", "num"), ("CpuTime", "num"), ("Cost", "num"), ("SameTests", "int")]

class HistoryRoundTrip(Contract):
    """writing a history node in an arbitrary state and reading the element back gives the same fields"""
    props = ("C13",)
    leaf = True
    target = MOD + "readHistoryNode"
    def __init__(self, num):
        self.num = num
        self.label = "round trip of a history node (%s times)" % ("integer" if num == "int" else "real")
    def run(self, ex, st):
        ok = iv(enum(ex, "ucis.test_status_t:TestStatusT", "OK"))
        for nm, s in COMPS:
            st.heap["X" + nm] = fresh("X" + nm, s)
        vals = {}
        for n, k in RT:
            k = self.num if k == "num" else k
            v = dict(str=lambda: vstr(fresh(n, I)), date=lambda: vstr(fresh(n, I)), ostr=lambda: Opt(fresh("no_" + n, B), vstr(fresh(n, I))), int=lambda: vint(fresh(n, I)), real=lambda: P("real", fresh(n, R)))[k]()
            vals[n] = v
            if k == "date":
                st.assume(is_date(xmlw.DATEFMT)(v.t))
        h, a = self.node(ex, st, vals)
        status = fresh("status", I)
        ex.invoke(st, h, "setTestStatus", [vint(status)])
        for n, v in vals.items():
            if n not in ("LogicalName", "PhysicalName", "Kind"):
                ex.invoke(st, h, "set" + n, [v])
        w = ex.construct(st, cls(ex, xmlw.MOD[:-1]), [], {}, None)
        root = fresh("root", I)
        HistDb.node = h
        xmlw.setfields(ex, st, w, root=Ref("xel", root), db=Ref("histdb", iv(0)))
        e = el(root, z3.Select(st.heap["Xn"], root))
        ex.invoke(st, w, "write_history_nodes", [], "writing")
        r = ex.construct(st, cls(ex, MOD[:-1]), [], {}, None)
        db, _ = mem.make(ex, st, "MemUCIS")
        c = ex.cell(st, r.id)
        st.store[r.id] = RecCell(c.cls, dict(c.fields, db=db))
        b = ex.invoke(st, r, "readHistoryNode", [Ref("xel", e)], "reading")
        for n, v in vals.items():
            got = ex.invoke(st, b, "get" + n, [])
            if isinstance(v, P) and v.kind in ("int", "real"):
                g = ex.unopt(st, got, None)
                g = g.t if g.kind == "real" else z3.ToReal(ex.num(g).t)
                t = v.t if v.kind == "real" else z3.ToReal(v.t)
                ex.goal(st, "%s is read back" % n, z3.If(t >= 0, g == t, g < 0))
            else:
                ex.goal(st, "%s is read back" % n, ex.eq(st, got, v))
        got = ex.invoke(st, b, "getTestStatus", [])
        ex.goal(st, "a test reads back as passed exactly when its status was OK", (mem.asint(ex, got) == ok) == (status == ok))
    def node(self, ex, st, vals):
        c = cls(ex, mem.SCOPES["MemHistoryNode"])
        par = dict(parent=NONE, logicalname=vals["LogicalName"], physicalname=vals["PhysicalName"], kind=vals["Kind"])
        o = ex.construct(st, c, [par[n] for n in mem.params(c.find("__init__"))], {}, None)
        return o, par

CONTRACTS = [HistoryRoundTrip("real"), HistoryRoundTrip("int")]

class ReadDate(Contract):
    """the date of a document in the library's notation; fractions of a second and a time zone are left out"""
    props = ("C10", "C13")
    leaf = True
    target = MOD + "getAttrDateTime"
    def setup(self, ex, st):
        e, nm = fresh("e", I), "date"
        ex.ctx["v"] = v = val(e, nm)
        st.assume(XH(e, L(nm)))
        st.assume(is_date(ISO)(cut(v)))
        return [ex.construct(st, cls(ex, MOD[:-1]), [], {}, None), Ref("rel", e), vstr(nm)]
    def post(self, ex, ctx, st, ret):
        return [("the date and time of day are kept", ex.unopt(st, ret, None).t == show(xmlw.DATEFMT)(parse(ISO)(cut(ctx["v"]))))]
CONTRACTS += [ReadDate()]

# ---------------------------------------------------------------- documents that are read: immutable
XH, XV, XT = z3.Function("x_has", I, I, B), z3.Function("x_val", I, I, I), z3.Function("x_text", I, I)
XTH = z3.Function("x_hastext", I, B)
ND, DESC = M.count("x_ndesc", I, I), z3.Function("x_desc", I, I, I, I)
def D(e, tag, i=0):
    return DESC(e, L(tag), iv(i) if isinstance(i, int) else i)
def nd(e, tag):
    return ND(e, L(tag))
def val(e, nm):
    return XV(e, L(nm))
def num(e, nm):
    return smt.int_of_str(val(e, nm))
# what the schema requires of the elements the reader looks at
ATTRS = dict(coverpointBin=("name", "type"), crossBin=("name",), contents=("coverageCount",), coverpoint=("name",), cross=("name",), cgInstance=("name",), cgId=("cgName",), instanceCoverages=("name",),
    sourceFiles=("fileName", "id"), id=("file", "line", "inlineCount"))
INTS = dict(contents=("coverageCount",), sourceFiles=("id",), id=("file", "line", "inlineCount"))
CHILD = dict(crossBin=("contents",), sequence=("contents",), range=("contents",), cgInstance=("cgId",))
BINTYPES = ("bins", "default", "ignore", "illegal")
def valid_facts(e, tag):
    out = [XH(e, L(a)) for a in ATTRS.get(tag, ())]
    out += [smt.is_int_text(val(e, a)) for a in INTS.get(tag, ())]
    out += [nd(e, c) >= 1 for c in CHILD.get(tag, ())]
    if tag == "coverpointBin":
        out.append(nd(e, "sequence") + nd(e, "range") >= 1)
        out.append(z3.Or(*[val(e, "type") == L(t) for t in BINTYPES]))
    return out
def _valid(app, ch):
    tag = smt.lit_of(ch[1].as_long()) if z3.is_int_value(ch[1]) else None
    return valid_facts(app, tag)
smt.trigger(DESC, _valid)

class RAttr(M.Model):
    def getitem(self, ex, st, o, k, node):
        n = attrname(ex, st, k)
        ex.may_raise(st, z3.Not(XH(o.t, L(n))), "KeyError", node)
        return vstr(val(o.t, n))
    def contains(self, ex, st, o, k, node):
        return XH(o.t, L(attrname(ex, st, k)))
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "get":
            return REl().method(ex, st, o, nm, args, kw, node)
        raise Unsupported("method %s of attributes" % nm)
class REl(M.Model):
    """an element of a document that was parsed"""
    def getattr(self, ex, st, o, nm, node):
        if nm == "attrib":
            return Ref("rattr", o.t)
        if nm == "text":
            return Opt(z3.Not(XTH(o.t)), vstr(XT(o.t)))
        if nm == "tag":
            return Ref("xtag", o.t)
        return MethV(o, nm)
    def setattr(self, ex, st, o, nm, v, node):
        if nm == "tag" and isinstance(v, Ref) and v.model == "xtagstripped" and v.t.eq(o.t):
            return
        raise Unsupported("change of an element that was read")
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "get" and 1 <= len(args) <= 2 and not kw:
            n = attrname(ex, st, args[0])
            h, v = XH(o.t, L(n)), val(o.t, n)
            d = args[1] if len(args) == 2 else NONE
            if d is NONE:
                return Opt(z3.Not(h), vstr(v))
            return vstr(z3.If(h, v, M.sval(ex, st, d, node)))
        if nm in ("iter", "getiterator") and len(args) == 1:
            t = attrname(ex, st, args[0])
            return M.seq_iter(ex, st, nd(o.t, t), lambda s, i: Ref("rel", D(o.t, t, i)))
        if nm in ("iter", "getiterator") and not args:
            n = fresh("nnodes", I)
            st.assume(n >= 0)
            f = z3.Function("docnode", I, I, I)
            return SeqV(n, lambda s, i: Ref("rel", f(o.t, i)))
        if nm == "getroot" and not args:
            return o
        raise Unsupported("method %s of an element" % nm)
M.MODELS.update(rel=REl(), rattr=RAttr())
M.EXTS["logging.debug"] = lambda ex, st, args, kw, node: NONE

strip = z3.Function("str_strip", I, I)
def text(e):
    return z3.If(XTH(e), XT(e), L(""))
def crossed(dom, e):
    """the coverpoint a crossExpr names: the one with exactly that name, else without surrounding blanks"""
    t = text(e)
    return z3.If(z3.Select(dom, t), t, strip(t))
class ReadHistory(Contract):
    """the history node of any valid document: the fields its attributes give, the others unset"""
    props = ("C13",)
    leaf = True
    label = "a history node of any valid document"
    target = MOD + "readHistoryNode"
    STR = [("LogicalName", "logicalName", 1), ("PhysicalName", "physicalName", 0), ("Kind", "kind", 0), ("TimeUnit", "timeunit", 0), ("RunCwd", "runCwd", 0), ("Seed", "seed", 0), ("Cmd", "cmd", 0),
        ("Args", "args", 0), ("Compulsory", "compulsory", 0), ("UserName", "userName", 0), ("Comment", "comment", 0), ("ToolCategory", "toolCategory", 1), ("VendorId", "vendorId", 1), ("VendorTool", "vendorTool", 1), ("VendorToolVersion", "vendorToolVersion", 1)]
    NUM = [("SimTime", "simtime", smt.real_of_str), ("CpuTime", "cpuTime", smt.real_of_str), ("Cost", "cost", smt.real_of_str), ("SameTests", "sameTests", smt.int_of_str)]
    def run(self, ex, st):
        e = fresh("e", I)
        for n, a, req in self.STR:
            if req:
                st.assume(XH(e, L(a)))
        for n, a, conv in self.NUM:
            st.assume(z3.Implies(XH(e, L(a)), (smt.is_int_text if conv is smt.int_of_str else smt.is_real_text)(val(e, a))))
        b = strip(val(e, "testStatus"))
        st.assume(XH(e, L("testStatus")), z3.Or(*[b == L(x) for x in ("true", "1", "false", "0")]))
        st.assume(XH(e, L("date")), is_date(ISO)(cut(val(e, "date"))))
        ok = iv(enum(ex, "ucis.test_status_t:TestStatusT", "OK"))
        r = ex.construct(st, cls(ex, MOD[:-1]), [], {}, None)
        db, _ = mem.make(ex, st, "MemUCIS")
        c = ex.cell(st, r.id)
        st.store[r.id] = RecCell(c.cls, dict(c.fields, db=db))
        # the fields of a node nothing was read into
        hc = cls(ex, mem.SCOPES["MemHistoryNode"])
        par = dict(parent=NONE, logicalname=vstr(fresh("l", I)), physicalname=NONE, kind=NONE)
        new = ex.construct(st, hc, [par[n] for n in mem.params(hc.find("__init__"))], {}, None)
        h = ex.invoke(st, r, "readHistoryNode", [Ref("rel", e)], "reading")
        for n, a, req in self.STR:
            got, unset = ex.invoke(st, h, "get" + n, []), ex.invoke(st, new, "get" + n, [])
            has = XH(e, L(a))
            ex.goal(st, "%s is the attribute's text" % n, z3.Implies(has, ex.eq(st, got, vstr(val(e, a)))))
            if not req:
                ex.goal(st, "%s stays unset without the attribute" % n, z3.Implies(z3.Not(has), ex.eq(st, got, unset)))
        for n, a, conv in self.NUM:
            g, u = (ex.unopt(st, ex.invoke(st, o, "get" + n, []), None) for o in (h, new))
            g, u = (x.t if x.kind == "real" else z3.ToReal(ex.num(x).t) for x in (g, u))
            w = conv(val(e, a))
            ex.goal(st, "%s is the attribute's number, unset without it" % n, g == z3.If(XH(e, L(a)), w if w.sort() == R else z3.ToReal(w), u))
        ex.goal(st, "the date and time of day are kept", ex.unopt(st, ex.invoke(st, h, "getDate", []), None).t == show(xmlw.DATEFMT)(parse(ISO)(cut(val(e, "date")))))
        got = ex.invoke(st, h, "getTestStatus", [])
        ex.goal(st, "a test is passed exactly when its status is true", (mem.asint(ex, got) == ok) == z3.Or(b == L("true"), b == L("1")))
CONTRACTS += [ReadHistory()]

NOLOC = M.locc(z3.BoolVal(True), iv(0))
BA, AA, AB = A(B), A(IA), A(A(B))
C = {}
def consts(ex):
    for k in ("CVGBIN", "IGNOREBIN", "ILLEGALBIN"):
        C[k] = iv(enum(ex, CT, k))
    for k in ("INSTANCE", "DU_MODULE"):
        C[k] = iv(enum(ex, ST, k))

# ---- bins: the instance gets the bin, the type's table its count
TD = [("dom", BA), ("cnt", IA), ("n", I), ("names", IA)]
LT = [("log", IA)] + TD
def binkind(e):
    t = val(e, "type")
    return z3.If(t == L("ignore"), C["IGNOREBIN"], z3.If(t == L("illegal"), C["ILLEGALBIN"], C["CVGBIN"]))
def crossbinkind(e):
    t = z3.If(XH(e, L("type")), val(e, "type"), L("default"))
    return z3.If(t == L("ignore"), C["IGNOREBIN"], z3.If(t == L("illegal"), C["ILLEGALBIN"], C["CVGBIN"]))
def cpbincount(e):
    return z3.If(nd(e, "sequence") > 0, num(D(D(e, "sequence"), "contents"), "coverageCount"), num(D(D(e, "range"), "contents"), "coverageCount"))
def crbincount(e):
    return num(D(e, "contents"), "coverageCount")
def addbin(s, dst, e, kind, count):
    nm = val(e, "name")
    k = smt.pair(nm, kind)
    has = z3.Select(s["dom"], k)
    return dict(log=M.append(s["log"], dst, M.ev_bin(nm, kind, iv(1), count)), dom=z3.Store(s["dom"], k, z3.BoolVal(True)),
        cnt=z3.Store(s["cnt"], k, z3.If(has, z3.Select(s["cnt"], k), iv(0)) + count), n=z3.If(has, s["n"], s["n"] + 1),
        names=z3.If(has, s["names"], z3.Store(s["names"], s["n"], k)))
def addcpbin(s, dst, e):
    return addbin(s, dst, e, binkind(e), cpbincount(e))
def addcrbin(s, dst, e):
    return addbin(s, dst, e, crossbinkind(e), crbincount(e))
names5 = [c for c, _ in LT]
def five(l):
    return dict(zip(names5, l))
RBINS = Fold("xr_bins", LT + [("dst", I), ("e", I)], LT, lambda a: five(a), lambda a, ix, s: addcpbin(s, a[5], D(a[6], "coverpointBin", ix[0])))
RXBINS = Fold("xr_xbins", LT + [("dst", I), ("e", I)], LT, lambda a: five(a), lambda a, ix, s: addcrbin(s, a[5], D(a[6], "crossBin", ix[0])))

def rcp(s, cg, e):
    """coverpoint of one instance -> (state, its identity)"""
    lg, ref = M.create(s["log"], cg, M.ev_scope(M.K_CP, val(e, "name"), NOLOC, iv(1)))
    s = dict(s, log=lg)
    return RBINS.at([s[c] for c in names5] + [ref, e], nd(e, "coverpointBin")), ref
# the coverpoints a cross names
XE = Fold("xr_exprs", [("e", I), ("dom", BA), ("val", IA)], [("n", I), ("arr", IA)], lambda a: dict(n=iv(0), arr=K0),
    lambda a, ix, s: dict(n=s["n"] + 1, arr=z3.Store(s["arr"], s["n"], z3.Select(a[2], crossed(a[1], D(a[0], "crossExpr", ix[0]))))))
def xe(e, dom, vals):
    x = XE.at([e, dom, vals], nd(e, "crossExpr"))
    return x["n"], x["arr"]
def rcr(s, cg, e, dom, vals):
    n, arr = xe(e, dom, vals)
    lg, ref = M.create(s["log"], cg, M.ev_cross(val(e, "name"), NOLOC, iv(1), n, arr))
    s = dict(s, log=lg)
    return RXBINS.at([s[c] for c in names5] + [ref, e], nd(e, "crossBin")), ref

def fns(name, comps, *sorts):
    return {c: z3.Function("%s.%s" % (name, c), *(list(sorts) + [srt])) for c, srt in comps}
RCPF = fns("xr_cp", LT, *([s for _, s in LT] + [I, I]))
RCRF = fns("xr_cr", LT, *([s for _, s in LT] + [I, I, BA, IA]))
def cpref(log, cg, e):
    return M.create(log, cg, M.ev_scope(M.K_CP, val(e, "name"), NOLOC, iv(1)))[1]
def call(fs, s, *extra):
    a = [s[c] for c in names5] + list(extra)
    return {c: fs[c](*a) for c in names5}

# ---- bins of the type
POP = Fold("xr_pop", [("log", IA), ("dst", I), ("cnt", IA), ("names", IA)], [("log", IA)], lambda a: dict(log=a[0]),
    lambda a, ix, s: (lambda k: dict(log=M.append(s["log"], a[1], M.ev_bin(smt.fst(k), smt.snd(k), iv(1), z3.Select(a[2], k)))))(z3.Select(a[3], ix[0])))
POPF = z3.Function("xr_populate", IA, I, BA, IA, I, IA, IA)

class RContract(Contract):
    props = ("C10", "C09")
    def setup(self, ex, st):
        consts(ex)
        st.heap["LOG"] = ex.ctx["L"] = fresh("LOG", IA)
        c = cls(ex, MOD[:-1])
        r = ex.construct(st, c, [], {}, None)
        self.reader_state(ex, st, c, r)
        ex.ctx["r"] = r
        return [r] + self.args(ex, st)
    def reader_state(self, ex, st, c, r):
        pass
    def rel(self, ex, nm, tag):
        """an element with this tag of a valid document"""
        e = D(fresh("parent", I), tag, fresh("pos", I))
        ex.ctx[nm] = e
        return Ref("rel", e)
    def dst(self, ex, nm):
        ex.ctx[nm] = fresh(nm, I)
        return Ref("dst", ex.ctx[nm])
    def t(self, v, model):
        if not (isinstance(v, Ref) and v.model == model):
            raise Unsupported("argument of %s is not a %s" % (self.target, model))
        return v.t
    # type table: (identity, dictionary (name, kind) -> count)
    KS, VS = STup([SP("str"), SP("int")]), SP("int")
    def table(self, ex, st):
        d = [fresh("t_" + c, s) for c, s in TD]
        st.assume(d[2] >= 0)
        ex.ctx["td"] = d
        ex.ctx["tref"] = fresh("tref", I)
        o = ex.new_cell(st, DictCell(self.KS, self.VS, d[0], [d[1]], d[2], d[3], 0))
        ex.ctx["table"] = o
        return Tup([Ref("dst", ex.ctx["tref"]), o])
    def state(self, ctx):
        return five([ctx["L"]] + ctx["td"])
    def dictof(self, ex, st, v):
        if isinstance(v, Tup):
            v = v.items[1]
        c = ex.cell(st, v.id) if isinstance(v, Obj) else None
        if isinstance(c, DictCell) and c.kshape in (None, self.KS) and c.vshape in (None, self.VS):
            return v, c
        raise Unsupported("table of a type")
    def read_state(self, ex, st, v):
        v, c = self.dictof(ex, st, v)
        return dict(log=st.heap["LOG"], dom=c.dom, cnt=c.varrs[0] if c.vshape is not None else K0, n=c.klen, names=c.karr)
    def write_state(self, ex, st, v, s):
        v, c = self.dictof(ex, st, v)
        st.heap["LOG"] = s["log"]
        ex.set_cell(st, v.id, DictCell(self.KS, self.VS, s["dom"], [s["cnt"]], s["n"], s["names"], c.epoch + 1))
    def same_state(self, ex, st, want, tab):
        got = self.read_state(ex, st, tab)
        return [("content created" if c == "log" else "table of the type: " + c, got[c] == want[c]) for c in names5]

class RCpBin(RContract):
    target = MOD + "readCoverpointBin"
    def args(self, ex, st):
        return [self.rel(ex, "e", "coverpointBin"), self.dst(ex, "cp"), self.table(ex, st)]
    def post(self, ex, ctx, st, ret):
        return self.same_state(ex, st, addcpbin(self.state(ctx), ctx["cp"], ctx["e"]), ctx["table"])
    def apply(self, ex, st, args, node):
        _, e, cp, tab = args
        self.write_state(ex, st, tab, addcpbin(self.read_state(ex, st, tab), self.t(cp, "dst"), self.t(e, "rel")))
        return NONE
    def lemmas(self, ex):
        consts(ex)
        return lemmas_sum(RBINS, addcpbin, "coverpointBin", binkind, cpbincount)

class RCrBin(RCpBin):
    target = MOD + "readCrossBin"
    def args(self, ex, st):
        return [self.rel(ex, "e", "crossBin"), self.dst(ex, "cp"), self.table(ex, st)]
    def post(self, ex, ctx, st, ret):
        return self.same_state(ex, st, addcrbin(self.state(ctx), ctx["cp"], ctx["e"]), ctx["table"])
    def apply(self, ex, st, args, node):
        _, e, cp, tab = args
        self.write_state(ex, st, tab, addcrbin(self.read_state(ex, st, tab), self.t(cp, "dst"), self.t(e, "rel")))
        return NONE
    def lemmas(self, ex):
        consts(ex)
        return lemmas_sum(RXBINS, addcrbin, "crossBin", crossbinkind, crbincount)

def mksum(tag, kind, count):
    """sum of the counts of the bins of element e with (name, kind) x, and whether there is one"""
    return Fold("xr_sum_" + tag, [("e", I), ("x", I)], [("v", I), ("any", B)], lambda a: dict(v=iv(0), any=z3.BoolVal(False)),
        lambda a, ix, s: (lambda c: dict(v=s["v"] + z3.If(c, count(D(a[0], tag, ix[0])), iv(0)), any=z3.Or(s["any"], c)))(smt.pair(val(D(a[0], tag, ix[0]), "name"), kind(D(a[0], tag, ix[0]))) == a[1]))
SUMS = {"coverpointBin": mksum("coverpointBin", binkind, cpbincount), "crossBin": mksum("crossBin", crossbinkind, crbincount)}
def lemmas_sum(fold, add, tag, kind, count):
    """the table's count of (name, kind) grows by the sum of the counts of the element's bins of that name and kind"""
    x, i, e, dst = fresh("x", I), fresh("i", I), fresh("e", I), fresh("dst", I)
    s0 = [fresh("s_" + c, s) for c, s in LT]
    F = SUMS[tag]
    at = lambda i: fold.at(s0 + [dst, e], i)
    d0 = five(s0)
    def inv(i):
        s, f = at(i), F.at([e, x], i)
        c0 = z3.If(z3.Select(d0["dom"], x), z3.Select(d0["cnt"], x), iv(0))
        return z3.And(z3.Select(s["dom"], x) == z3.Or(z3.Select(d0["dom"], x), f["any"]), z3.Implies(z3.Select(s["dom"], x), z3.Select(s["cnt"], x) == c0 + f["v"]), z3.Implies(z3.Not(f["any"]), f["v"] == 0))
    return induct("a bin's count in the type grows by the sum over the bins of that kind and name", ([], inv(iv(0))), ([i >= 0, inv(i)], inv(i + 1)))

class RCpInst(RContract):
    target = MOD + "readCoverpointInst"
    def args(self, ex, st):
        return [self.dst(ex, "cg"), self.rel(ex, "e", "coverpoint"), self.table(ex, st)]
    def folds(self, ctx):
        s = self.state(ctx)
        lg, ref = M.create(s["log"], ctx["cg"], M.ev_scope(M.K_CP, val(ctx["e"], "name"), NOLOC, iv(1)))
        s = dict(s, log=lg)
        return [(RBINS, [s[c] for c in names5] + [ref, ctx["e"]], nd(ctx["e"], "coverpointBin"))]
    def post(self, ex, ctx, st, ret):
        s, ref = rcp(self.state(ctx), ctx["cg"], ctx["e"])
        return self.same_state(ex, st, s, ctx["table"]) + [("the coverpoint is returned", self.t(ret, "dst") == ref)]
    def apply(self, ex, st, args, node):
        _, cg, e, tab = args
        cg, e = self.t(cg, "dst"), self.t(e, "rel")
        s = self.read_state(ex, st, tab)
        self.write_state(ex, st, tab, call(RCPF, s, cg, e))
        return Ref("dst", cpref(s["log"], cg, e))

class RCrInst(RContract):
    target = MOD + "readCrossInst"
    def args(self, ex, st):
        dom, v, kl, ka = fresh("cpdom", BA), fresh("cpval", IA), fresh("klen", I), fresh("karr", IA)
        ex.ctx.update(dom=dom, val=v)
        return [self.dst(ex, "cg"), self.rel(ex, "e", "cross"), self.table(ex, st), ex.new_cell(st, DictCell(SP("str"), SRef("dst"), dom, [v], kl, ka, 0))]
    def folds(self, ctx):
        s = self.state(ctx)
        e = ctx["e"]
        n, arr = xe(e, ctx["dom"], ctx["val"])
        lg, ref = M.create(s["log"], ctx["cg"], M.ev_cross(val(e, "name"), NOLOC, iv(1), n, arr))
        s = dict(s, log=lg)
        return [(XE, [e, ctx["dom"], ctx["val"]], nd(e, "crossExpr")), (RXBINS, [s[c] for c in names5] + [ref, e], nd(e, "crossBin"))]
    def post(self, ex, ctx, st, ret):
        s, ref = rcr(self.state(ctx), ctx["cg"], ctx["e"], ctx["dom"], ctx["val"])
        return self.same_state(ex, st, s, ctx["table"])
    def raises(self, ex, ctx, st, exc):
        # rejection exactly for a crossed coverpoint the instance does not have
        if exc not in ("Exception", "KeyError", "ValueError"):
            return None
        return missing(ex, ctx["e"], ctx["dom"])
    def apply(self, ex, st, args, node):
        _, cg, e, tab, m = args
        cg, e = self.t(cg, "dst"), self.t(e, "rel")
        d = ex.cell(st, m.id) if isinstance(m, Obj) else None
        if not isinstance(d, DictCell) or d.vshape not in (None, SRef("dst")):
            raise Unsupported("coverpoint map")
        ex.may_raise(st, rejected(d.dom, e), "CrossRejected", node)
        s = self.read_state(ex, st, tab)
        self.write_state(ex, st, tab, call(RCRF, s, cg, e, d.dom, d.varrs[0] if d.vshape is not None else K0))
        return Ref("dst", fresh("cross", I))
rejected = z3.Function("xr_rejected", BA, I, B)
def missing(ex, e, dom):
    alts = []
    for k in ex.raise_ks:
        alts.append(z3.And(k >= 0, k < nd(e, "crossExpr"), z3.Not(z3.Select(dom, crossed(dom, D(e, "crossExpr", k))))))
    return z3.Or(*alts) if alts else None

class RPopulate(RContract):
    target = MOD + "populateCoverpointType"
    def args(self, ex, st):
        return [self.dst(ex, "cp"), self.table(ex, st).items[1]]
    def folds(self, ctx):
        d = ctx["td"]
        return [(POP, [ctx["L"], ctx["cp"], d[1], d[3]], d[2])]
    def post(self, ex, ctx, st, ret):
        d = ctx["td"]
        return [("content created", st.heap["LOG"] == POP.at([ctx["L"], ctx["cp"], d[1], d[3]], d[2])["log"])]
    def apply(self, ex, st, args, node):
        s = self.read_state(ex, st, args[2])
        st.heap["LOG"] = POPF(s["log"], self.t(args[1], "dst"), s["dom"], s["cnt"], s["n"], s["names"])
        return NONE
class RPopulateX(RPopulate):
    target = MOD + "populateCrossType"

CONTRACTS += [RCpBin(), RCrBin(), RCpInst(), RCrInst(), RPopulate(), RPopulateX()]

# ---------------------------------------------------------------- one covergroup type and its instances
# table of coverpoints (crosses) of the type: name -> (identity, (name, kind) -> count)
TT = [("dom", BA), ("ref", IA), ("ddom", AB), ("dcnt", AA), ("dn", IA), ("dnames", AA), ("klen", I), ("karr", IA)]
TTN = [c for c, _ in TT]
T0 = dict(dom=KF, ref=K0, ddom=z3.K(I, KF), dcnt=z3.K(I, K0), dn=K0, dnames=z3.K(I, K0), klen=iv(0), karr=K0)
LTT = [("log", IA)] + TT
IM = [("idom", BA), ("ival", IA)]
def enter(s, nm, ref):
    """(state with an entry for nm, did it exist)"""
    has = z3.Select(s["dom"], nm)
    E = dict(ref=ref, ddom=KF, dcnt=K0, dn=iv(0), dnames=K0)
    r = dict(s, dom=z3.Store(s["dom"], nm, z3.BoolVal(True)), klen=z3.If(has, s["klen"], s["klen"] + 1), karr=z3.If(has, s["karr"], z3.Store(s["karr"], s["klen"], nm)))
    cur = {c: z3.If(has, z3.Select(s[c], nm), E[c]) for c in E}
    return r, has, cur
def leave(r, nm, cur, five):
    d = dict(zip(("ddom", "dcnt", "dn", "dnames"), [five[c] for c in ("dom", "cnt", "n", "names")]), ref=cur["ref"])
    return dict(r, log=five["log"], **{c: z3.Store(r[c], nm, d[c]) for c in d})

def _rcps_step(a, ix, s):
    cgt, cgi, cge = a[len(LTT):]
    e = D(cge, "coverpoint", ix[0])
    nm = val(e, "name")
    lg, ref = M.create(s["log"], cgt, M.ev_scope(M.K_CP, nm, NOLOC, iv(1)))
    r, has, cur = enter(s, nm, ref)
    lg = z3.If(has, s["log"], lg)
    f = call(RCPF, dict(log=lg, dom=cur["ddom"], cnt=cur["dcnt"], n=cur["dn"], names=cur["dnames"]), cgi, e)
    out = leave(r, nm, cur, f)
    out["idom"] = z3.Store(s["idom"], nm, z3.BoolVal(True))
    out["ival"] = z3.Store(s["ival"], nm, cpref(lg, cgi, e))
    return out
RCPS = Fold("xr_cps", LTT + [("cgt", I), ("cgi", I), ("cge", I)], LTT + IM, lambda a: dict(zip([c for c, _ in LTT], a), idom=KF, ival=K0), _rcps_step)
def _rcrs_step(a, ix, s):
    cgt, cgi, cge, rdom, ref_, idom, ival = a[len(LTT):]
    e = D(cge, "cross", ix[0])
    nm = val(e, "name")
    n, arr = xe(e, rdom, ref_)
    lg, ref = M.create(s["log"], cgt, M.ev_cross(nm, NOLOC, iv(1), n, arr))
    r, has, cur = enter(s, nm, ref)
    lg = z3.If(has, s["log"], lg)
    f = call(RCRF, dict(log=lg, dom=cur["ddom"], cnt=cur["dcnt"], n=cur["dn"], names=cur["dnames"]), cgi, e, idom, ival)
    return leave(r, nm, cur, f)
RCRS = Fold("xr_crs", LTT + [("cgt", I), ("cgi", I), ("cge", I), ("rdom", BA), ("ref_", IA), ("idom", BA), ("ival", IA)], LTT, lambda a: dict(zip([c for c, _ in LTT], a)), _rcrs_step)

CG = [("log", IA)] + [("p" + c, s) for c, s in TT] + [("x" + c, s) for c, s in TT]
def cgstate(s, pre):
    return [s["log"]] + [s[pre + c] for c in TTN]
def inst_begin(s, cgt, cge):
    lg, ref = M.create(s["log"], cgt, M.ev_scope(M.K_CI, val(cge, "name"), NOLOC, iv(1)))
    return dict(s, log=lg), ref
def cps_args(s, cgt, cge):
    s, ref = inst_begin(s, cgt, cge)
    return cgstate(s, "p") + [cgt, ref, cge]
def crs_args(s, cgt, cge):
    _, ref = inst_begin(s, cgt, cge)
    p = RCPS.at(cps_args(s, cgt, cge), nd(cge, "coverpoint"))
    return [p["log"]] + [s["x" + c] for c in TTN] + [cgt, ref, cge, p["dom"], p["ref"], p["idom"], p["ival"]]
def _cg_step(a, ix, s):
    cgt, arr = a[1:]
    cge = z3.Select(arr, ix[0])
    p = RCPS.at(cps_args(s, cgt, cge), nd(cge, "coverpoint"))
    x = RCRS.at(crs_args(s, cgt, cge), nd(cge, "cross"))
    out = {"log": x["log"]}
    for c in TTN:
        out["p" + c], out["x" + c] = p[c], x[c]
    return out
RCG = Fold("xr_cg", [("log", IA), ("cgt", I), ("arr", IA)], CG, lambda a: dict([("log", a[0])] + [("p" + c, T0[c]) for c in TTN] + [("x" + c, T0[c]) for c in TTN]), _cg_step)
POPT = Fold("xr_popt", [("log", IA)] + [(c, s) for c, s in TT if c != "dom"], [("log", IA)], lambda a: dict(log=a[0]),
    lambda a, ix, s: (lambda nm: dict(log=POPF(s["log"], z3.Select(a[1], nm), z3.Select(a[2], nm), z3.Select(a[3], nm), z3.Select(a[4], nm), z3.Select(a[5], nm))))(z3.Select(a[7], ix[0])))
def popt(log, s, pre):
    return [log] + [s[pre + c] for c in TTN if c != "dom"], s[pre + "klen"]
RCGF = z3.Function("xr_covergroup", IA, I, I, IA, IA)       # log, type, number and elements of its instances

def lemmas_type(pre, tag, F, more, CALL, bintag, nextra):
    """the type's count for (name of the coverpoint or cross, bin) is the sum over all instances"""
    nm, x, j, k = fresh("nm", I), fresh("x", I), fresh("j", I), fresh("k", I)
    bins = lambda e: SUMS[bintag].at([e, x], nd(e, bintag))
    INST = Fold("xr_insum_" + tag, [("cge", I), ("nm", I), ("x", I)], [("v", I), ("any", B)], lambda a: dict(v=iv(0), any=z3.BoolVal(False)),
        lambda a, ix, s: (lambda e: (lambda c, b: dict(v=s["v"] + z3.If(c, b["v"], iv(0)), any=z3.Or(s["any"], z3.And(c, b["any"]))))(val(e, "name") == a[1], SUMS[bintag].at([e, a[2]], nd(e, bintag))))(D(a[0], tag, ix[0])))
    TYPE = Fold("xr_typesum_" + tag, [("arr", IA), ("nm", I), ("x", I)], [("v", I), ("any", B)], lambda a: dict(v=iv(0), any=z3.BoolVal(False)),
        lambda a, ix, s: (lambda b: dict(v=s["v"] + b["v"], any=z3.Or(s["any"], b["any"])))(INST.at([z3.Select(a[0], ix[0]), a[1], a[2]], nd(z3.Select(a[0], ix[0]), tag))))
    def T(s, pre=""):
        """(is there such a bin, its count)"""
        d = z3.And(z3.Select(s[pre + "dom"], nm), z3.Select(z3.Select(s[pre + "ddom"], nm), x))
        return d, z3.If(d, z3.Select(z3.Select(s[pre + "dcnt"], nm), x), iv(0))
    # what a call adds to the table it is given: the lemma over the bins, at the end of the element
    def callfact(s, e):
        """for the table entry under nm, when e is named nm"""
        new = {c: z3.If(z3.Select(s["dom"], nm), z3.Select(s[c], nm), z) for c, z in (("ddom", KF), ("dcnt", K0))}
        f = F.step(args, (j,), s)
        b = bins(e)
        d1, c1 = z3.Select(z3.Select(f["ddom"], nm), x), z3.Select(z3.Select(f["dcnt"], nm), x)
        d0, c0 = z3.Select(new["ddom"], x), z3.Select(new["dcnt"], x)
        return z3.Implies(val(e, "name") == nm, z3.And(d1 == z3.Or(d0, b["any"]), z3.Implies(d1, c1 == z3.If(d0, c0, iv(0)) + b["v"]), z3.Implies(z3.Not(b["any"]), b["v"] == 0)))
    s0 = dict(zip([c for c, _ in LTT], [fresh("s_" + c, t) for c, t in LTT]))
    cgt, cgi, cge = fresh("cgt", I), fresh("cgi", I), fresh("cge", I)
    args = list(s0.values()) + [cgt, cgi, cge] + ([fresh("rdom", BA), fresh("ref_", IA), fresh("idom", BA), fresh("ival", IA)] if nextra else [])
    at = lambda i: F.at(args, i)
    e = D(cge, tag, j)
    def inv(i):
        (d, c), (d0, c0), f = T(at(i)), T(s0), INST.at([cge, nm, x], i)
        return z3.And(d == z3.Or(d0, f["any"]), c == c0 + f["v"], z3.Implies(z3.Not(f["any"]), f["v"] == 0))
    out = induct("counts of a %s of the type grow by the sum over the instance's" % tag, ([], inv(iv(0))), ([j >= 0, inv(j), callfact(at(j), e)], inv(j + 1)))
    # over the instances
    L, arr = fresh("L", IA), fresh("arr", IA)
    cg = lambda i: RCG.at([L, cgt, arr], i)
    ge = z3.Select(arr, k)
    def total(i):
        (d, c), f = T(cg(i), pre), TYPE.at([arr, nm, x], i)
        return z3.And(d == f["any"], c == f["v"], z3.Implies(z3.Not(f["any"]), f["v"] == 0))
    s = cg(k)
    end = F.at(cps_args(s, cgt, ge) if pre == "p" else crs_args(s, cgt, ge), nd(ge, tag))
    (d1, c1), (d0, c0), f = T(end), T(s, pre), INST.at([ge, nm, x], nd(ge, tag))
    grow = z3.And(d1 == z3.Or(d0, f["any"]), c1 == c0 + f["v"], z3.Implies(z3.Not(f["any"]), f["v"] == 0))
    out += induct("counts of a %s of the type are the sums over all instances" % tag, ([], total(iv(0))), ([k >= 0, total(k), grow], total(k + 1)))
    return out

class RCovergroup(RContract):
    target = MOD + "readCovergroup"
    cost = 5
    def args(self, ex, st):
        n, arr = fresh("n", I), fresh("insts", IA)
        st.assume(n >= 0)
        ex.ctx.update(n=n, arr=arr)
        # the elements are cgInstance elements of a valid document
        st.trigs.append(smt.Trig(arr, lambda i: z3.And(*valid_facts(z3.Select(arr, i), "cgInstance"))))
        return [self.dst(ex, "cgt"), ex.new_cell(st, ListCell(SRef("rel"), n, [arr]))]
    def pops(self, ctx):
        s = RCG.at([ctx["L"], ctx["cgt"], ctx["arr"]], ctx["n"])
        a, n = popt(s["log"], s, "p")
        b, m = popt(POPT.at(a, n)["log"], s, "x")
        return [(POPT, a, n), (POPT, b, m)]
    def folds(self, ctx):
        return [(RCG, [ctx["L"], ctx["cgt"], ctx["arr"]], ctx["n"])] + self.pops(ctx)
    def terms(self, ctx, ks):
        if len(ks) < 2:
            return {}
        s = RCG.at([ctx["L"], ctx["cgt"], ctx["arr"]], ks[0])
        cge = z3.Select(ctx["arr"], ks[0])
        out = {}
        for nm, F, a, tot in (("cps", RCPS, cps_args(s, ctx["cgt"], cge), nd(cge, "coverpoint")), ("crs", RCRS, crs_args(s, ctx["cgt"], cge), nd(cge, "cross"))):
            for c, t in F.at(a, ks[1]).items():
                out[(nm, c)] = t
            for c, t in F.at(a, tot).items():
                out[(nm, c, "end")] = t
        if len(ks) == 3:
            e = D(cge, "cross", ks[1])
            for c, t in XE.at([e] + crs_args(s, ctx["cgt"], cge)[-4:-2], ks[2]).items():
                out[("xe", c)] = t
        return out
    def post(self, ex, ctx, st, ret):
        (_, _, _), (F, b, m) = self.pops(ctx)
        return [("content created for the type and its instances", st.heap["LOG"] == F.at(b, m)["log"])]
    def lemmas(self, ex):
        consts(ex)
        return lemmas_type("p", "coverpoint", RCPS, IM, RCPF, "coverpointBin", 0) + lemmas_type("x", "cross", RCRS, [], RCRF, "crossBin", 1)
    def raises(self, ex, ctx, st, exc):
        if exc == "CrossRejected":
            return z3.BoolVal(True)
        if exc not in ("Exception", "KeyError", "ValueError"):
            return None
        # a cross naming a coverpoint that no instance read so far has
        ks = ex.raise_ks
        if len(ks) < 3:
            return None
        s = RCG.at([ctx["L"], ctx["cgt"], ctx["arr"]], ks[0])
        cge = z3.Select(ctx["arr"], ks[0])
        p = RCPS.at(cps_args(s, ctx["cgt"], cge), nd(cge, "coverpoint"))
        e = D(cge, "cross", ks[1])
        return z3.Not(z3.Select(p["dom"], crossed(p["dom"], D(e, "crossExpr", ks[2]))))
    def apply(self, ex, st, args, node):
        c = ex.cell(st, args[2].id) if isinstance(args[2], Obj) else None
        if isinstance(c, FixCell):
            c = fix_to_list(ex, st, c)
        if not (isinstance(c, ListCell) and c.elem == SRef("rel")):
            raise Unsupported("list of instance elements")
        ex.may_raise(st, z3.Function("xr_cg_rejected", I, IA, B)(c.n, c.arrs[0]), "CrossRejected", node)
        st.heap["LOG"] = RCGF(st.heap["LOG"], self.t(args[1], "dst"), c.n, c.arrs[0])
        return NONE
CONTRACTS += [RCovergroup()]

# ---------------------------------------------------------------- grouping by type, instances, document
def _grp_step(a, ix, s):
    e = D(a[0], "cgInstance", ix[0])
    y = val(D(e, "cgId"), "cgName")
    has = z3.Select(s["dom"], y)
    l0 = z3.If(has, z3.Select(s["len"], y), iv(0))
    e0 = z3.If(has, z3.Select(s["els"], y), K0)
    return dict(dom=z3.Store(s["dom"], y, z3.BoolVal(True)), len=z3.Store(s["len"], y, l0 + 1), els=z3.Store(s["els"], y, z3.Store(e0, l0, e)),
        n=z3.If(has, s["n"], s["n"] + 1), names=z3.If(has, s["names"], z3.Store(s["names"], s["n"], y)))
RGRP = Fold("xr_group", [("cg", I)], [("dom", BA), ("len", IA), ("els", AA), ("n", I), ("names", IA)],
    lambda a: dict(dom=KF, len=K0, els=z3.K(I, K0), n=iv(0), names=K0), _grp_step)
def _rcgs_step(a, ix, s):
    log0, inst, names, ln, els = a
    nm = z3.Select(names, ix[0])
    lg, ref = M.create(s["log"], inst, M.ev_scope(M.K_CG, nm, NOLOC, iv(1)))
    return dict(log=RCGF(lg, ref, z3.Select(ln, nm), z3.Select(els, nm)))
RCGS = Fold("xr_cgs", [("log", IA), ("inst", I), ("names", IA), ("len", IA), ("els", AA)], [("log", IA)], lambda a: dict(log=a[0]), _rcgs_step)
RCGSF = z3.Function("xr_covergroups", IA, I, I, IA)         # log, element, instance

class RCovergroups(RContract):
    target = MOD + "readCovergroups"
    def args(self, ex, st):
        return [self.rel(ex, "e", "covergroupCoverage"), self.dst(ex, "inst"), vstr(fresh("module", I))]
    def fold2(self, ctx):
        g = RGRP.at([ctx["e"]], nd(ctx["e"], "cgInstance"))
        return RCGS, [ctx["L"], ctx["inst"], g["names"], g["len"], g["els"]], g["n"]
    def folds(self, ctx):
        return [(RGRP, [ctx["e"]], nd(ctx["e"], "cgInstance")), self.fold2(ctx)]
    def post(self, ex, ctx, st, ret):
        F, a, n = self.fold2(ctx)
        return [("content created for the types of one element", st.heap["LOG"] == F.at(a, n)["log"])]
    def raises(self, ex, ctx, st, exc):
        return z3.BoolVal(True) if exc == "CrossRejected" else None
    def apply(self, ex, st, args, node):
        e = self.t(args[1], "rel")
        ex.may_raise(st, z3.Function("xr_cgs_rejected", I, B)(e), "CrossRejected", node)
        st.heap["LOG"] = RCGSF(st.heap["LOG"], e, self.t(args[2], "dst"))
        return NONE
    def lemmas(self, ex):
        """a type's group holds exactly the instance elements of its name, in order; different names stay apart"""
        e, x, i, a = fresh("e", I), fresh("x", I), fresh("i", I), fresh("a", I)
        SUB = Fold("xr_sub", [("cg", I), ("x", I)], [("n", I), ("els", IA)], lambda a: dict(n=iv(0), els=K0),
            lambda a, ix, s: (lambda c: dict(n=z3.If(val(D(c, "cgId"), "cgName") == a[1], s["n"] + 1, s["n"]), els=z3.If(val(D(c, "cgId"), "cgName") == a[1], z3.Store(s["els"], s["n"], c), s["els"])))(D(a[0], "cgInstance", ix[0])))
        def inv(i):
            f, s = RGRP.at([e], i), SUB.at([e, x], i)
            d = z3.Select(f["dom"], x)
            return z3.And(s["n"] >= 0, d == (s["n"] > 0), z3.Implies(d, z3.And(z3.Select(f["len"], x) == s["n"], z3.Select(f["els"], x) == s["els"])), z3.Implies(z3.Not(d), s["els"] == K0))
        out = induct("a type's group holds exactly the instances with its type name, in order", ([], inv(iv(0))), ([i >= 0, inv(i)], inv(i + 1)))
        def mem(i):
            f = RGRP.at([e], i)
            return z3.And(f["n"] >= 0, z3.Implies(z3.And(0 <= a, a < f["n"]), z3.Select(f["dom"], z3.Select(f["names"], a))))
        return out + induct("every type listed has an instance", ([], mem(iv(0))), ([i >= 0, mem(i)], mem(i + 1)))

# the reader's tables of design units and instances
RS = [("log", IA), ("mdom", BA), ("mval", IA), ("idom", BA), ("ival", IA)]
RSN = [c for c, _ in RS]
def lookup(s, pre, nm, mk):
    """existing entry, or a new one"""
    has = z3.Select(s[pre + "dom"], nm)
    lg, ref = mk(s["log"])
    r = z3.If(has, z3.Select(s[pre + "val"], nm), ref)
    return dict(s, **{"log": z3.If(has, s["log"], lg), pre + "dom": z3.Store(s[pre + "dom"], nm, z3.BoolVal(True)), pre + "val": z3.Store(s[pre + "val"], nm, r)}), r
def inst_scope(s, db, e):
    s, d = lookup(s, "m", z3.If(XH(e, L("moduleName")), val(e, "moduleName"), L("default")), lambda lg: M.create(lg, db, M.ev_du(z3.If(XH(e, L("moduleName")), val(e, "moduleName"), L("default")), C["DU_MODULE"])))
    return lookup(s, "i", val(e, "name"), lambda lg: M.create(lg, db, M.ev_inst(val(e, "name"), C["INSTANCE"], d)))
RICG = Fold("xr_inst_cgs", [("log", IA), ("e", I), ("inst", I)], [("log", IA)], lambda a: dict(log=a[0]),
    lambda a, ix, s: dict(log=RCGSF(s["log"], D(a[1], "covergroupCoverage", ix[0]), a[2])))
RINST = fns("xr_instance", RS, *([s for _, s in RS] + [I, I]))
def instance(s, db, e):
    s, r = inst_scope(s, db, e)
    return dict(s, log=RICG.at([s["log"], e, r], nd(e, "covergroupCoverage"))["log"])

class RInstance(RContract):
    target = MOD + "readInstanceCoverage"
    FIELDS = ("db", "file_m", "module_scope_m", "inst_scope_m")
    def reader_state(self, ex, st, c, r):
        rc = ex.cell(st, r.id)
        miss = [f for f in self.FIELDS[1:] if f not in rc.fields]
        if miss:
            raise Unsupported("the reader has no attribute " + miss[0])
        s = {n: fresh("r_" + n, t) for n, t in RS}
        s["log"] = ex.ctx["L"]
        ex.ctx["rs"], ex.ctx["db"], ex.ctx["fdom"] = s, fresh("db", I), fresh("fdom", BA)
        def dc(ks, vs, dom, val):
            return ex.new_cell(st, DictCell(ks, vs, dom, [val], fresh("kl", I), fresh("ka", IA), 0))
        st.store[r.id] = RecCell(rc.cls, dict(rc.fields, db=Ref("dst", ex.ctx["db"]), file_m=dc(SP("int"), SRef("file"), ex.ctx["fdom"], fresh("fval", IA)),
            module_scope_m=dc(SP("str"), SRef("dst"), s["mdom"], s["mval"]), inst_scope_m=dc(SP("str"), SRef("dst"), s["idom"], s["ival"])))
    def args(self, ex, st):
        return [self.rel(ex, "e", "instanceCoverages")]
    def folds(self, ctx):
        s, r = inst_scope(ctx["rs"], ctx["db"], ctx["e"])
        return [(RICG, [s["log"], ctx["e"], r], nd(ctx["e"], "covergroupCoverage"))]
    def current(self, ex, st, r):
        out = dict(log=st.heap["LOG"])
        for f, p in (("module_scope_m", "m"), ("inst_scope_m", "i")):
            v = field(ex, st, r, f)
            c = ex.cell(st, v.id) if isinstance(v, Obj) else None
            if not (isinstance(c, DictCell) and c.kshape in (None, SP("str")) and c.vshape in (None, SRef("dst"))):
                raise Unsupported("table %s" % f)
            out[p + "dom"], out[p + "val"] = c.dom, c.varrs[0] if c.vshape is not None else K0
        return out
    def post(self, ex, ctx, st, ret):
        s = instance(ctx["rs"], ctx["db"], ctx["e"])
        got = self.current(ex, st, ctx["r"])
        return [({"log": "content created for an instance"}.get(n, "table of the reader: " + n), got[n] == s[n]) for n in RSN]
    def raises(self, ex, ctx, st, exc):
        if exc == "CrossRejected":
            return z3.BoolVal(True)
        if exc == "KeyError" and ex.raise_ks:
            # an identifier that names a file the document does not have
            return z3.Not(z3.Select(ctx["fdom"], num(D(ctx["e"], "id", ex.raise_ks[0]), "file")))
        return None
    def apply(self, ex, st, args, node):
        e, r = self.t(args[1], "rel"), args[0]
        db = self.t(field(ex, st, r, "db"), "dst")
        s = self.current(ex, st, r)
        ex.may_raise(st, z3.Function("xr_inst_rejected", I, B)(e), "InstanceRejected", node)
        a = [s[n] for n in RSN] + [db, e]
        st.heap["LOG"] = RINST["log"](*a)
        for f, p in (("module_scope_m", "m"), ("inst_scope_m", "i")):
            v = field(ex, st, r, f)
            c = ex.cell(st, v.id)
            ex.set_cell(st, v.id, DictCell(SP("str"), SRef("dst"), RINST[p + "dom"](*a), [RINST[p + "val"](*a)], fresh("kl", I), fresh("ka", IA), c.epoch + 1))
        return NONE

# history nodes and source files are not part of the coverage: they are events of their own
ev_hist, ev_file = z3.Function("ev_hist", I, I), z3.Function("ev_file", I, I)
class ReadHist(Contract):
    target = MOD + "readHistoryNode"
    leafspec = True
    def apply(self, ex, st, args, node):
        db = field(ex, st, args[0], "db")
        if not (isinstance(db, Ref) and db.model == "dst"):
            return None
        st.heap["LOG"] = M.append(st.heap["LOG"], db.t, ev_hist(args[1].t))
        ex.may_raise(st, z3.Function("xr_hist_rejected", I, B)(args[1].t), "HistoryRejected", node)
        return Ref("dsthist", fresh("hist", I))
M.MODELS["dsthist"] = M.Model()

class NewMemUCIS(Contract):
    """while the reader is verified, the database it fills stands for the log of the calls made on it (what the calls store is C08)"""
    target = "new ucis.mem.mem_ucis:MemUCIS"
    def apply(self, ex, st, args, node):
        if not ex.ctx or "newdb" not in ex.ctx or args:
            return None
        if ex.ctx["newdb"] is not None:
            raise Unsupported("more than one database is created")
        ex.ctx["newdb"] = d = fresh("newdb", I)
        st.heap["LOG"] = z3.Store(st.heap["LOG"], d, M.nil)
        return Ref("dst", d)

def x_xmlparser(ex, st, args, kw, node):
    flag = lambda k: z3.simplify(kw[k].t) if k in kw and isinstance(kw[k], P) and kw[k].kind == "bool" else z3.BoolVal(False)
    if args or set(kw) - {"remove_comments", "remove_pis", "encoding"} - {"remove_blank_text"}:
        raise Unsupported("arguments of XMLParser")
    if "encoding" in kw and kw["encoding"] is not NONE:
        raise Unsupported("XMLParser with an encoding")
    return Ref("xparser", z3.If(z3.And(flag("remove_comments"), flag("remove_pis")), iv(1), iv(0)))
M.MODELS["xparser"] = M.Model()
M.EXTS["lxml.etree.XMLParser"] = x_xmlparser
def parser_of(args, kw):
    """does the parser leave out comments and processing instructions?"""
    a = list(args[1:]) + [v for k, v in kw.items() if k == "parser"]
    if len(a) != len(args) - 1 + len(kw) or len(a) > 1 or a and not (isinstance(a[0], Ref) and a[0].model == "xparser"):
        raise Unsupported("arguments of etree.parse")
    return z3.simplify(a[0].t == 1) if a else z3.BoolVal(False)
WITHCOMMENTS = z3.Function("with_comments", I, I)
def x_parse(ex, st, args, kw, node):
    if not (isinstance(args[0], Ref) and args[0].model == "infile"):
        raise Unsupported("parse of %r" % (args[0],))
    d = args[0].t
    # the text of an element ends at the first comment inside it
    return Ref("rel", z3.simplify(z3.If(parser_of(args, kw), d, WITHCOMMENTS(d))))
M.MODELS["infile"] = M.Model()
M.EXTS["lxml.etree.parse"] = x_parse

RFILES = Fold("xr_files", [("log", IA), ("db", I), ("doc", I)], [("log", IA)], lambda a: dict(log=a[0]),
    lambda a, ix, s: dict(log=M.append(s["log"], a[1], ev_file(val(D(a[2], "sourceFiles", ix[0]), "fileName")))))
RHISTS = Fold("xr_hists", [("log", IA), ("db", I), ("doc", I)], [("log", IA)], lambda a: dict(log=a[0]),
    lambda a, ix, s: dict(log=M.append(s["log"], a[1], ev_hist(D(a[2], "historyNodes", ix[0])))))
RALL = Fold("xr_all", RS + [("db", I), ("doc", I)], RS, lambda a: dict(zip(RSN, a)),
    lambda a, ix, s: {n: RINST[n](*([s[c] for c in RSN] + [a[5], D(a[6], "instanceCoverages", ix[0])])) for n in RSN})

class RRead(RContract):
    props = ("C09", "C10", "C13")
    target = MOD + "read"
    FIELDS = RInstance.FIELDS
    def reader_state(self, ex, st, c, r):
        # a reader that may have read other documents before
        rc = ex.cell(st, r.id)
        if all(f in rc.fields for f in self.FIELDS[1:]):
            RInstance.reader_state(self, ex, st, c, r)
    def args(self, ex, st):
        ex.ctx["doc"] = fresh("doc", I)
        ex.ctx["newdb"] = None
        return [Ref("infile", ex.ctx["doc"])]
    def specfolds(self, ctx):
        db, doc = ctx["newdb"], ctx["doc"]
        lg = z3.Store(ctx["L"], db, M.nil)
        out = [(RFILES, [lg, db, doc], nd(doc, "sourceFiles"))]
        lg = RFILES.at(out[0][1], out[0][2])["log"]
        out.append((RHISTS, [lg, db, doc], nd(doc, "historyNodes")))
        lg = RHISTS.at(out[1][1], out[1][2])["log"]
        out.append((RALL, [lg, KF, K0, KF, K0, db, doc], nd(doc, "instanceCoverages")))
        return out
    def folds(self, ctx):
        if ctx["newdb"] is None:
            return []
        return self.specfolds(ctx)
    def post(self, ex, ctx, st, ret):
        if ctx["newdb"] is None:
            raise Unsupported("database that is filled")
        F, a, n = self.specfolds(ctx)[2]
        return [("content of the database read", st.heap["LOG"] == F.at(a, n)["log"]), ("the database is returned", self.t(ret, "dst") == ctx["newdb"])]
    def raises(self, ex, ctx, st, exc):
        return z3.BoolVal(True) if exc in ("InstanceRejected", "HistoryRejected") else None
CONTRACTS += [RCovergroups(), RInstance(), ReadHist(), NewMemUCIS(), RRead()]
