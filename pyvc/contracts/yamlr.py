"""Contracts of ucis.yaml.yaml_reader (C12).

The document is a rigid tree of validated values. Objects the reader itself creates through the generated classes
(type coverpoints, crosses and their bins) live in a heap of one array per attribute; they are handled by reference.
Trusted: objects of python_jsonschema_objects behave as plain records (an attribute never set is None, what is read
is what was set, lists are lists)."""
from .util import *
from . import jsonrpt, xmlr
from .xmlw import setfields
import ast as _ast

MOD = "ucis.yaml.yaml_reader:YamlReader."
BA, IA, AA, AB = A(B), A(I), A(A(I)), A(A(B))
K0, KF, TRUE, FALSE = z3.K(I, iv(0)), z3.K(I, z3.BoolVal(False)), z3.BoolVal(True), z3.BoolVal(False)
F_ = z3.Function
CPL = ("bins", "ignorebins", "illegalbins")
KIND = dict(bins="CVGBIN", ignorebins="IGNOREBIN", illegalbins="ILLEGALBIN")
C = {}
def consts(ex):
    for k in KIND.values():
        C[k] = iv(enum(ex, CT, k))
NOLOC = M.locc(TRUE, iv(0))
sel, sto = z3.Select, z3.Store

# ---------------------------------------------------------------- the document
dname, dcount, dweight, dnoweight, datl, dnoatl = F_("yd_name", I, I), F_("yd_count", I, I), F_("yd_weight", I, I), F_("yd_noweight", I, B), F_("yd_atleast", I, I), F_("yd_noatleast", I, B)
LISTS = {}
for _f in ("covergroups", "instances", "coverpoints", "crosses", "members") + CPL:
    LISTS[_f] = (F_("yd_no_" + _f, I, B), M.count("yd_len_" + _f, I), F_("yd_get_" + _f, I, I, I))
def dno(f, e):
    return LISTS[f][0](e)
def dlen(f, e):
    """number of elements, none if the list is absent"""
    return z3.If(LISTS[f][0](e), iv(0), LISTS[f][1](e))
def dget(f, e, i):
    return LISTS[f][2](e, i)

class YDoc(M.Model):
    """a mapping of the document: name, scalars and optional lists"""
    def __init__(self, scalars, lists):
        self.scalars, self.lists = scalars, lists
    def getattr(self, ex, st, o, nm, node):
        if nm in self.scalars:
            f = dict(name=dname, count=dcount)
            if nm in f:
                return (vstr if nm == "name" else vint)(f[nm](o.t))
            no, v = (dnoweight, dweight) if nm == "weight" else (dnoatl, datl)
            return Opt(no(o.t), vint(v(o.t)))
        if nm in self.lists:
            f = self.lists[nm]
            return Opt(dno(f, o.t), Ref("ydl:" + f, o.t))
        raise Unsupported("document attribute %s" % nm)
    def setattr(self, ex, st, o, nm, v, node):
        ex.violate(st, "frame: the document is not modified (assignment of %s, line %s)" % (nm, getattr(node, "lineno", "?")))
        raise Unsupported("mutation of the document")
class YDocList(M.Model):
    def __init__(self, f, elem):
        self.f, self.elem = f, elem
    def el(self, o, i):
        x = dget(self.f, o.t, i)
        return vstr(x) if self.elem is None else Ref(self.elem, x)
    def iterate(self, ex, st, o):
        return SeqV(LISTS[self.f][1](o.t), lambda x, i: self.el(o, i))
    def truth(self, ex, st, o):
        return LISTS[self.f][1](o.t) > 0
    def length(self, ex, st, o, node):
        return vint(LISTS[self.f][1](o.t))
    def getitem(self, ex, st, o, k, node):
        i, n = M.ival(ex, st, k, node), LISTS[self.f][1](o.t)
        ex.may_raise(st, z3.Or(i >= n, i < -n), "IndexError", node)
        return self.el(o, z3.If(i < 0, i + n, i))
M.MODELS["yd_root"] = YDoc((), dict(covergroups="covergroups"))
M.MODELS["yd_cg"] = YDoc(("name", "weight"), dict(instances="instances"))
M.MODELS["yd_in"] = YDoc(("name",), dict(coverpoints="coverpoints", crosses="crosses"))
M.MODELS["yd_cp"] = YDoc(("name", "atleast"), {f: f for f in CPL})
M.MODELS["yd_cr"] = YDoc(("name", "atleast"), dict(coverpoints="members", bins="bins"))
M.MODELS["yd_bin"] = YDoc(("name", "count"), {})
for _f, _e in dict(covergroups="yd_cg", instances="yd_in", coverpoints="yd_cp", crosses="yd_cr", members=None, bins="yd_bin", ignorebins="yd_bin", illegalbins="yd_bin").items():
    M.MODELS["ydl:" + _f] = YDocList(_f, _e)

# ---------------------------------------------------------------- objects made by the reader
# heap arrays: <class>name, <class>aln (no threshold), <class>al, and per list <class><list>? (absent), # (length), @ (elements)
CLASSES_ = dict(yc=("Y", "Coverpoint", CPL, {}), yx=("X", "Cross", ("bins", "members"), dict(coverpoints="members")), yb=("B", "CoverageBin", (), {}))
HEAP = {}
for _m, (_p, _c, _ls, _) in CLASSES_.items():
    HEAP[_p + "N"] = I
    HEAP[_p + "name"] = IA
    if _m == "yb":
        HEAP["Bcount"] = IA
    else:
        HEAP[_p + "aln"], HEAP[_p + "al"] = BA, IA
    for _l in _ls:
        HEAP[_p + _l + "?"], HEAP[_p + _l + "#"], HEAP[_p + _l + "@"] = BA, IA, AA

class YNew(M.Model):
    """the namespace of generated classes"""
    def method(self, ex, st, o, nm, args, kw, node):
        for m, (p, c, ls, _) in CLASSES_.items():
            if nm == c and not args and not kw:
                t = st.heap[p + "N"]
                st.heap[p + "N"] = z3.simplify(t + 1)
                H = st.heap
                H[p + "name"] = sto(H[p + "name"], t, fresh("unset", I))
                if m == "yb":
                    H["Bcount"] = sto(H["Bcount"], t, fresh("unset", I))
                else:
                    H[p + "aln"] = sto(H[p + "aln"], t, TRUE)
                for l in ls:
                    H[p + l + "?"] = sto(H[p + l + "?"], t, TRUE)
                return Ref(m, t)
        raise Unsupported("generated class %s" % nm)
M.MODELS["yns"] = YNew()
class YObj(M.Model):
    def __init__(self, m):
        self.m = m
        self.p, _, self.ls, self.names = CLASSES_[m]
    def getattr(self, ex, st, o, nm, node):
        H, p = st.heap, self.p
        if nm == "name":
            return vstr(sel(H[p + "name"], o.t))
        if nm == "count" and self.m == "yb":
            return vint(sel(H["Bcount"], o.t))
        if nm == "atleast" and self.m != "yb":
            return Opt(sel(H[p + "aln"], o.t), vint(sel(H[p + "al"], o.t)))
        l = self.names.get(nm, nm)
        if l in self.ls and nm not in self.names.values():
            return Opt(sel(H[p + l + "?"], o.t), Ref("yl:" + p + l, o.t))
        raise Unsupported("attribute %s of a generated object" % nm)
    def setattr(self, ex, st, o, nm, v, node):
        H, p = st.heap, self.p
        if nm == "name":
            H[p + "name"] = sto(H[p + "name"], o.t, M.sval(ex, st, v, node))
            return
        if nm == "count" and self.m == "yb":
            H["Bcount"] = sto(H["Bcount"], o.t, M.ival(ex, st, v, node))
            return
        if nm == "atleast" and self.m != "yb":
            if v is NONE:
                H[p + "aln"] = sto(H[p + "aln"], o.t, TRUE)
            else:
                H[p + "al"] = sto(H[p + "al"], o.t, M.ival(ex, st, v, node))
                H[p + "aln"] = sto(H[p + "aln"], o.t, FALSE)
            return
        l = self.names.get(nm, nm)
        if l in self.ls and nm not in self.names.values():
            if v is NONE:
                H[p + l + "?"] = sto(H[p + l + "?"], o.t, TRUE)
                return
            c = ex.cell(st, v.id) if isinstance(v, Obj) else None
            if (isinstance(c, FixCell) and not c.items) or (isinstance(c, ListCell) and c.elem is None):
                H[p + l + "?"] = sto(H[p + l + "?"], o.t, FALSE)
                H[p + l + "#"] = sto(H[p + l + "#"], o.t, iv(0))
                return
        raise Unsupported("assignment of %s to a generated object" % nm)
class YList(M.Model):
    """list attribute of a generated object"""
    def __init__(self, key, elem):
        self.k, self.elem = key, elem
    def n(self, st, o):
        return sel(st.heap[self.k + "#"], o.t)
    def iterate(self, ex, st, o):
        n0, a0 = st.heap[self.k + "#"], st.heap[self.k + "@"]
        def get(x, i):
            if not (x.heap[self.k + "#"].eq(n0) and x.heap[self.k + "@"].eq(a0)):
                raise Unsupported("a list of a generated object may change while it is iterated")
            e = sel(sel(a0, o.t), i)
            return vstr(e) if self.elem is None else Ref(self.elem, e)
        st.assume(sel(n0, o.t) >= 0)
        return SeqV(sel(n0, o.t), get)
    def truth(self, ex, st, o):
        return self.n(st, o) > 0
    def length(self, ex, st, o, node):
        return vint(self.n(st, o))
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "append" and len(args) == 1 and not kw:
            H = st.heap
            v = args[0]
            if self.elem is None:
                t = M.sval(ex, st, v, node)
            elif isinstance(v, Ref) and v.model == self.elem:
                t = v.t
            else:
                raise Unsupported("%r in a list of a generated object" % (v,))
            n = self.n(st, o)
            H[self.k + "@"] = sto(H[self.k + "@"], o.t, sto(sel(H[self.k + "@"], o.t), n, t))
            H[self.k + "#"] = sto(H[self.k + "#"], o.t, n + 1)
            return NONE
        raise Unsupported("method %s of a list of a generated object" % nm)
for _m, (_p, _c, _ls, _) in CLASSES_.items():
    M.MODELS[_m] = YObj(_m)
    for _l in _ls:
        M.MODELS["yl:" + _p + _l] = YList(_p + _l, None if _l == "members" else "yb")

# ---------------------------------------------------------------- recording one coverpoint or cross
MKD = {f: Fold("y_mkd_" + f, [("log", IA), ("dst", I), ("m", I), ("atl", I), ("e", I)], [("log", IA)], lambda a: dict(log=a[0]),
    lambda a, ix, s, f=f: (lambda b: dict(log=M.append(s["log"], a[1], M.ev_bin(dname(b), a[2], a[3], dcount(b)))))(dget(f, a[4], ix[0]))) for f in CPL}
MKH = Fold("y_mkh", [("log", IA), ("dst", I), ("m", I), ("atl", I), ("arr", IA), ("bn", IA), ("bc", IA)], [("log", IA)], lambda a: dict(log=a[0]),
    lambda a, ix, s: (lambda b: dict(log=M.append(s["log"], a[1], M.ev_bin(sel(a[5], b), a[2], a[3], sel(a[6], b)))))(sel(a[4], ix[0])))

class View:
    """what recording reads of a coverpoint or cross: of the document or of the heap"""
    def __init__(self, model, t, H):
        self.model, self.t, self.H = model, t, H
        self.doc = model in ("yd_cp", "yd_cr")
        self.p = None if self.doc else CLASSES_[model][0]
    def name(self):
        return dname(self.t) if self.doc else sel(self.H[self.p + "name"], self.t)
    def atl(self):
        no, v = (dnoatl(self.t), datl(self.t)) if self.doc else (sel(self.H[self.p + "aln"], self.t), sel(self.H[self.p + "al"], self.t))
        return z3.If(no, iv(1), v)
    def mk(self, f, log, dst, m):
        """-> fold, arguments, number of steps"""
        if self.doc:
            return MKD[f], [log, dst, m, self.atl(), self.t], dlen(f, self.t)
        no, n, a = (sel(self.H[self.p + f + x], self.t) for x in "?#@")
        return MKH, [log, dst, m, self.atl(), a, self.H["Bname"], self.H["Bcount"]], z3.If(no, iv(0), n)
    def bins(self, log, dst, lists):
        out = []
        for f in lists:
            F, a, n = self.mk(f, log, dst, C[KIND[f]])
            out.append((F, a, n))
            log = F.at(a, n)["log"]
        return log, out

def cpbegin(log, parent, v):
    return M.create(log, parent, M.ev_scope(M.K_CP, v.name(), NOLOC, iv(1)))
def crbegin(log, parent, v, n, arr):
    return M.create(log, parent, M.ev_cross(v.name(), NOLOC, iv(1), n, arr))

class YContract(Contract):
    props = ("C12",)
    def setup(self, ex, st):
        consts(ex)
        st.heap["LOG"] = ex.ctx["L"] = fresh("LOG", IA)
        for k, s in HEAP.items():
            st.heap[k] = ex.ctx[k] = fresh(k, s)
        ex.ctx["H"] = {k: st.heap[k] for k in HEAP}
        c = cls(ex, MOD[:-1])
        r = ex.construct(st, c, [], {}, None)
        ex.ctx["inst"] = fresh("inst", I)
        rc = ex.cell(st, r.id)
        ex.set_cell(st, r.id, RecCell(c, dict(rc.fields, cvg_ns=Ref("yns", fresh("ns", I)), cg_default_inst=Ref("dst", ex.ctx["inst"]))))
        return [r] + self.args(ex, st)
    def dst(self, ex, nm):
        ex.ctx[nm] = fresh(nm, I)
        return Ref("dst", ex.ctx[nm])

# opaque effect of a call on the log
HS = [IA, I, I, I] + [I, IA] * 3 + [IA, IA]
RCPD, RCPH = F_("y_record_cp_doc", IA, I, I, IA), F_("y_record_cp", *([IA, I, I, I] + [I, IA] * 3 + [IA, IA, IA]))
RCRD, RCRH = F_("y_record_cross_doc", IA, I, I, IA, I, IA), F_("y_record_cross", IA, I, I, I, I, IA, IA, IA, I, IA, IA)
def rcp(log, parent, v):
    """-> (log after recording the coverpoint, its scope)"""
    ref = cpbegin(log, parent, v)[1]
    if v.doc:
        return RCPD(log, parent, v.t), ref
    a = [log, parent, v.name(), v.atl()]
    for f in CPL:
        no, n, arr = (sel(v.H[v.p + f + x], v.t) for x in "?#@")
        a += [z3.If(no, iv(0), n), arr]
    return RCPH(*(a + [v.H["Bname"], v.H["Bcount"]])), ref
def rcr(log, parent, v, n, arr):
    if v.doc:
        return RCRD(log, parent, n, arr, v.t)
    no, m, a = (sel(v.H["Xbins" + x], v.t) for x in "?#@")
    return RCRH(log, parent, v.name(), v.atl(), z3.If(no, iv(0), m), a, v.H["Bname"], v.H["Bcount"], n, arr)

class RecordCp(YContract):
    target = MOD + "record_coverpoint"
    def __init__(self, model):
        self.model = model
        self.label = self.target + (" of the document" if model == "yd_cp" else " of the type")
    def args(self, ex, st):
        t = ex.ctx["t"] = fresh("cp", I)
        return [self.dst(ex, "parent"), Ref(self.model, t)]
    def view(self, ctx):
        return View(self.model, ctx["t"], ctx["H"])
    lists = CPL
    def begin(self, ctx):
        return cpbegin(ctx["L"], ctx["parent"], self.view(ctx))
    def folds(self, ctx):
        lg, ref = self.begin(ctx)
        return self.view(ctx).bins(lg, ref, self.lists)[1]
    def post(self, ex, ctx, st, ret):
        lg, ref = self.begin(ctx)
        out = [("content created for %s" % ("a coverpoint" if self.lists == CPL else "a cross"), st.heap["LOG"] == self.view(ctx).bins(lg, ref, self.lists)[0])]
        out.append(("returns the scope created", ret.t == ref if isinstance(ret, Ref) and ret.model == "dst" else FALSE))
        return out + [("the objects made so far are not changed", st.heap[k] == ctx["H"][k]) for k in HEAP if not st.heap[k].eq(ctx["H"][k])]
    def apply(self, ex, st, args, node):
        _, p, e = args
        if not (isinstance(p, Ref) and p.model == "dst" and isinstance(e, Ref) and e.model in ("yd_cp", "yc")):
            return None
        st.heap["LOG"], ref = rcp(st.heap["LOG"], p.t, View(e.model, e.t, st.heap))
        return Ref("dst", ref)

class RecordCross(RecordCp):
    target = MOD + "record_cross"
    lists = ("bins",)
    def args(self, ex, st):
        n, arr = fresh("n", I), fresh("members", IA)
        st.assume(n >= 0)
        ex.ctx.update(n=n, arr=arr)
        t = ex.ctx["t"] = fresh("cr", I)
        return [self.dst(ex, "parent"), ex.new_cell(st, ListCell(SRef("dst"), n, [arr])), Ref(self.model, t)]
    def __init__(self, model):
        self.model = model
        self.label = self.target + (" of the document" if model == "yd_cr" else " of the type")
    def begin(self, ctx):
        return crbegin(ctx["L"], ctx["parent"], self.view(ctx), ctx["n"], ctx["arr"])
    def apply(self, ex, st, args, node):
        _, p, l, e = args
        if not (isinstance(p, Ref) and p.model == "dst" and isinstance(e, Ref) and e.model in ("yd_cr", "yx")):
            return None
        c = ex.cell(st, l.id) if isinstance(l, Obj) else None
        if isinstance(c, FixCell) or (isinstance(c, ListCell) and c.elem is None):
            c = fix_to_list(ex, st, c if isinstance(c, FixCell) else FixCell([]), SRef("dst"))
        if not (isinstance(c, ListCell) and c.elem == SRef("dst")):
            raise Unsupported("crossed coverpoints %r" % (l,))
        v = View(e.model, e.t, st.heap)
        ref = crbegin(st.heap["LOG"], p.t, v, c.n, c.arrs[0])[1]
        st.heap["LOG"] = rcr(st.heap["LOG"], p.t, v, c.n, c.arrs[0])
        return Ref("dst", ref)

CONTRACTS = [RecordCp("yd_cp"), RecordCp("yc"), RecordCross("yd_cr"), RecordCross("yx")]

# ---------------------------------------------------------------- one covergroup: aggregation of the type
# FR(arr, names, n, x, i): index of the first element of arr[i..n) named x, -1 if there is none
FR = F_("y_first", IA, IA, I, I, I, I)
def _fr(app, ch):
    arr, bn, n, x, i = ch
    if smt.is_plus1(i) is not None:
        return []
    return [app == z3.If(i >= n, iv(-1), z3.If(sel(bn, sel(arr, i)) == x, i, FR(arr, bn, n, x, z3.simplify(i + 1))))]
smt.trigger(FR, _fr)

BH = [("BN", I), ("Bname", IA), ("Bcount", IA)]
def ite(c, x, y):
    return z3.If(c, x, y)
def new_b(s, has, ref, nm):
    """make a bin unless there is one"""
    return dict(s, BN=ite(has, s["BN"], s["BN"] + 1), Bname=ite(has, s["Bname"], sto(s["Bname"], s["BN"], nm)), Bcount=ite(has, s["Bcount"], sto(s["Bcount"], s["BN"], iv(0))))
def bk(f):
    """bins of kind f of document coverpoint cp added to the type coverpoint t"""
    N, E = "Y" + f + "#", "Y" + f + "@"
    def step(a, ix, s):
        t, cp = a[-2:]
        b = dget(f, cp, ix[0])
        p = FR(sel(s[E], t), s["Bname"], sel(s[N], t), dname(b), iv(0))
        has = p >= 0
        ref = ite(has, sel(sel(s[E], t), p), s["BN"])
        r = new_b(s, has, ref, dname(b))
        r["Bcount"] = sto(r["Bcount"], ref, sel(r["Bcount"], ref) + dcount(b))
        n = sel(s[N], t)
        r[E] = ite(has, s[E], sto(s[E], t, sto(sel(s[E], t), n, s["BN"])))
        r[N] = ite(has, s[N], sto(s[N], t, n + 1))
        return r
    comps = BH + [(N, IA), (E, AA)]
    return Fold("y_bk_" + f, comps + [("t", I), ("cp", I)], comps, lambda a: dict(zip([c for c, _ in comps], a)), step)
BK = {f: bk(f) for f in CPL}

YH = [(k, v) for k, v in HEAP.items() if k[0] == "Y"]
XH_ = [(k, v) for k, v in HEAP.items() if k[0] == "X"]
CPT = [("cdom", BA), ("cval", IA), ("cn", I), ("carr", IA)]          # type coverpoints by name; list of them
CPS_ = BH + YH + CPT
def opened(s, p, f, t, absent):
    """state with list f of object t present, unless the document has none"""
    c = z3.And(z3.Not(absent), sel(s[p + f + "?"], t))
    return dict(s, **{p + f + "?": ite(c, sto(s[p + f + "?"], t, FALSE), s[p + f + "?"]), p + f + "#": ite(c, sto(s[p + f + "#"], t, iv(0)), s[p + f + "#"])})
def atleast(s, p, t, e):
    c = z3.And(z3.Not(dnoatl(e)), z3.Or(sel(s[p + "aln"], t), datl(e) > sel(s[p + "al"], t)))
    return dict(s, **{p + "al": ite(c, sto(s[p + "al"], t, datl(e)), s[p + "al"]), p + "aln": ite(c, sto(s[p + "aln"], t, FALSE), s[p + "aln"])})
def new_obj(s, p, has, nm, lists, ctr):
    t = s[ctr]
    r = dict(s)
    r[ctr] = ite(has, t, t + 1)
    r[p + "name"] = ite(has, s[p + "name"], sto(s[p + "name"], t, nm))
    r[p + "aln"] = ite(has, s[p + "aln"], sto(s[p + "aln"], t, TRUE))
    for l in lists:
        r[p + l + "?"] = ite(has, s[p + l + "?"], sto(s[p + l + "?"], t, TRUE))
    return r
def cp_entered(s, cp):
    """(state after finding or making the type coverpoint of document coverpoint cp and raising its threshold, the type coverpoint)"""
    nm = dname(cp)
    has = sel(s["cdom"], nm)
    t = ite(has, sel(s["cval"], nm), s["YN"])
    r = new_obj(s, "Y", has, nm, CPL, "YN")
    r.update(cdom=sto(s["cdom"], nm, TRUE), cval=ite(has, s["cval"], sto(s["cval"], nm, s["YN"])), cn=ite(has, s["cn"], s["cn"] + 1), carr=ite(has, s["carr"], sto(s["carr"], s["cn"], s["YN"])))
    return atleast(r, "Y", t, cp), t
def cp_phases(s, cp):
    """[(fold, arguments, number of steps)] for the three kinds, and the final state"""
    s, t = cp_entered(s, cp)
    out = []
    for f in CPL:
        s = opened(s, "Y", f, t, dno(f, cp))
        a = [s[c] for c, _ in BK[f].comps] + [t, cp]
        out.append((BK[f], a, dlen(f, cp)))
        s = dict(s, **BK[f].at(a, dlen(f, cp)))
    return out, s
CPF = Fold("y_cpf", CPS_ + [("in_", I)], CPS_, lambda a: dict(zip([c for c, _ in CPS_], a)), lambda a, ix, s: cp_phases(s, dget("coverpoints", a[-1], ix[0]))[1])

# crosses
CPY = Fold("y_cpy", [("Xmembers#", IA), ("Xmembers@", AA), ("t", I), ("cr", I)], [("Xmembers#", IA), ("Xmembers@", AA)], lambda a: {"Xmembers#": a[0], "Xmembers@": a[1]},
    lambda a, ix, s: (lambda n, e: {"Xmembers#": sto(s["Xmembers#"], a[2], n + 1), "Xmembers@": sto(s["Xmembers@"], a[2], sto(e, n, dget("members", a[3], ix[0])))})(sel(s["Xmembers#"], a[2]), sel(s["Xmembers@"], a[2])))
XBC = BH + [("Xbins#", IA), ("Xbins@", AA), ("mdom", BA), ("mval", IA)]
def _xb_step(a, ix, s):
    t, cr = a[-2:]
    b = dget("bins", cr, ix[0])
    has = sel(s["mdom"], dname(b))
    ref = ite(has, sel(s["mval"], dname(b)), s["BN"])
    r = new_b(s, has, ref, dname(b))
    r["Bcount"] = sto(r["Bcount"], ref, sel(r["Bcount"], ref) + dcount(b))
    n, e = sel(s["Xbins#"], t), sel(s["Xbins@"], t)
    r["Xbins@"] = ite(has, s["Xbins@"], sto(s["Xbins@"], t, sto(e, n, s["BN"])))
    r["Xbins#"] = ite(has, s["Xbins#"], sto(s["Xbins#"], t, n + 1))
    r.update(mdom=sto(s["mdom"], dname(b), TRUE), mval=ite(has, s["mval"], sto(s["mval"], dname(b), s["BN"])))
    return r
XB = Fold("y_xb", XBC + [("t", I), ("cr", I)], XBC, lambda a: dict(zip([c for c, _ in XBC], a)), _xb_step)
CRT = [("xdom", BA), ("xref", IA), ("xmdom", AB), ("xmval", AA), ("xn", I), ("xarr", IA)]
CRS_ = BH + XH_ + CRT
def cr_entered(s, cr):
    nm = dname(cr)
    has = sel(s["xdom"], nm)
    t = ite(has, sel(s["xref"], nm), s["XN"])
    r = new_obj(s, "X", has, nm, ("bins",), "XN")
    # the operands of the first instance's cross
    a = [sto(r["Xmembers#"], s["XN"], iv(0)), r["Xmembers@"], s["XN"], cr]
    m = CPY.at(a, dlen("members", cr))
    r["Xmembers?"] = ite(has, s["Xmembers?"], sto(s["Xmembers?"], s["XN"], FALSE))
    for k in ("Xmembers#", "Xmembers@"):
        r[k] = ite(has, s[k], m[k])
    r.update(xdom=sto(s["xdom"], nm, TRUE), xref=ite(has, s["xref"], sto(s["xref"], nm, s["XN"])), xn=ite(has, s["xn"], s["xn"] + 1), xarr=ite(has, s["xarr"], sto(s["xarr"], s["xn"], s["XN"])))
    r["xmdom"] = ite(has, s["xmdom"], sto(s["xmdom"], nm, KF))
    r["xmval"] = ite(has, s["xmval"], sto(s["xmval"], nm, K0))
    return atleast(r, "X", t, cr), t, (CPY, a, dlen("members", cr)), nm
def cr_phases(s, cr):
    s, t, cpy, nm = cr_entered(s, cr)
    s = opened(s, "X", "bins", t, dno("bins", cr))
    a = [dict(s, mdom=sel(s["xmdom"], nm), mval=sel(s["xmval"], nm))[c] for c, _ in XBC] + [t, cr]
    n = dlen("bins", cr)
    x = XB.at(a, n)
    r = dict(s, **{c: x[c] for c, _ in XBC if c not in ("mdom", "mval")})
    r.update(xmdom=sto(s["xmdom"], nm, x["mdom"]), xmval=sto(s["xmval"], nm, x["mval"]))
    return [cpy, (XB, a, n)], r
CRF_ = Fold("y_crf", CRS_ + [("in_", I)], CRS_, lambda a: dict(zip([c for c, _ in CRS_], a)), lambda a, ix, s: cr_phases(s, dget("crosses", a[-1], ix[0]))[1])

# instances
INC = BH + YH + CPT + XH_ + CRT
def in_phases(s, i):
    a = [s[c] for c, _ in CPS_] + [i]
    n = dlen("coverpoints", i)
    s = dict(s, **CPF.at(a, n))
    b = [s[c] for c, _ in CRS_] + [i]
    m = dlen("crosses", i)
    return [(CPF, a, n), (CRF_, b, m)], dict(s, **CRF_.at(b, m))
INF = Fold("y_inf", [(k, v) for k, v in HEAP.items()] + [("cg", I)], INC,
    lambda a: dict(dict(zip(HEAP, a)), cdom=KF, cval=K0, cn=iv(0), carr=K0, xdom=KF, xref=K0, xmdom=z3.K(I, KF), xmval=z3.K(I, K0), xn=iv(0), xarr=K0),
    lambda a, ix, s: in_phases(s, dget("instances", a[-1], ix[0]))[1])

# ---------------------------------------------------------------- recording the type and its instances
HH = list(HEAP.items())
RT = Fold("y_rt", [("log", IA), ("scope", I), ("arr", IA)] + HH, [("log", IA), ("sdom", BA), ("sval", IA)], lambda a: dict(log=a[0], sdom=KF, sval=K0),
    lambda a, ix, s: (lambda v: (lambda r: dict(log=r[0], sdom=sto(s["sdom"], v.name(), TRUE), sval=sto(s["sval"], v.name(), r[1])))(rcp(s["log"], a[1], v)))(View("yc", sel(a[2], ix[0]), dict(zip(HEAP, a[3:])))))
# operands of a cross
XCH = Fold("y_xch", [("mem", IA), ("sval", IA)], [("n", I), ("arr", IA)], lambda a: dict(n=iv(0), arr=K0),
    lambda a, ix, s: dict(n=s["n"] + 1, arr=sto(s["arr"], s["n"], sel(a[1], sel(a[0], ix[0])))))
XCD = Fold("y_xcd", [("cr", I), ("sval", IA)], [("n", I), ("arr", IA)], lambda a: dict(n=iv(0), arr=K0),
    lambda a, ix, s: dict(n=s["n"] + 1, arr=sto(s["arr"], s["n"], sel(a[1], dget("members", a[0], ix[0])))))
def xch_args(H, x, sval):
    return [sel(H["Xmembers@"], x), sval], ite(sel(H["Xmembers?"], x), iv(0), sel(H["Xmembers#"], x))
def _rx_step(a, ix, s):
    scope, arr, sval = a[1:4]
    H = dict(zip(HEAP, a[4:]))
    x = sel(arr, ix[0])
    b, n = xch_args(H, x, sval)
    m = XCH.at(b, n)
    return dict(log=rcr(s["log"], scope, View("yx", x, H), m["n"], m["arr"]))
RX = Fold("y_rx", [("log", IA), ("scope", I), ("arr", IA), ("sval", IA)] + HH, [("log", IA)], lambda a: dict(log=a[0]), _rx_step)
IC = Fold("y_icp", [("log", IA), ("scope", I), ("in_", I)], [("log", IA), ("sdom", BA), ("sval", IA)], lambda a: dict(log=a[0], sdom=KF, sval=K0),
    lambda a, ix, s: (lambda v: (lambda r: dict(log=r[0], sdom=sto(s["sdom"], v.name(), TRUE), sval=sto(s["sval"], v.name(), r[1])))(rcp(s["log"], a[1], v)))(View("yd_cp", dget("coverpoints", a[2], ix[0]), None)))
def _ix_step(a, ix, s):
    cr = dget("crosses", a[2], ix[0])
    m = XCD.at([cr, a[3]], dlen("members", cr))
    return dict(log=rcr(s["log"], a[1], View("yd_cr", cr, None), m["n"], m["arr"]))
IX = Fold("y_icr", [("log", IA), ("scope", I), ("in_", I), ("sval", IA)], [("log", IA)], lambda a: dict(log=a[0]), _ix_step)
def wi_phases(log, scope, w, i):
    lg, ref = M.create(log, scope, M.ev_scope(M.K_CI, dname(i), NOLOC, w))
    a = [lg, ref, i]
    n = dlen("coverpoints", i)
    s = IC.at(a, n)
    b = [s["log"], ref, i, s["sval"]]
    return [(IC, a, n), (IX, b, dlen("crosses", i))], IX.at(b, dlen("crosses", i))["log"], s["sdom"]
WI = Fold("y_wi", [("log", IA), ("scope", I), ("w", I), ("cg", I)], [("log", IA)], lambda a: dict(log=a[0]),
    lambda a, ix, s: dict(log=wi_phases(s["log"], a[1], a[2], dget("instances", a[3], ix[0]))[1]))
PCG = F_("y_covergroup", *([IA, I, I] + [v for _, v in HH] + [IA]))
PCGH = {k: F_("y_covergroup_" + k, *([v for _, v in HH] + [I, v])) for k, v in HH}

class ProcessCovergroup(YContract):
    target = MOD + "process_covergroup"
    cost = 20
    outer = True
    def args(self, ex, st):
        ex.ctx["cg"] = fresh("cg", I)
        return [Ref("yd_cg", ex.ctx["cg"])]
    def phases(self, ctx):
        hit = ctx.get("phases")
        if hit is None:
            cg, H = ctx["cg"], ctx["H"]
            a = [H[k] for k in HEAP] + [cg]
            n = dlen("instances", cg)
            s = INF.at(a, n)
            w = ite(dnoweight(cg), iv(1), dweight(cg))
            lg, ref = M.create(ctx["L"], ctx["inst"], M.ev_scope(M.K_CG, dname(cg), NOLOC, w))
            h = [s[k] for k in HEAP]
            b = [lg, ref, s["carr"]] + h
            t = RT.at(b, s["cn"])
            c = [t["log"], ref, s["xarr"], t["sval"]] + h
            x = RX.at(c, s["xn"])
            d = [x["log"], ref, w, cg]
            hit = ctx["phases"] = dict(inf=(INF, a, n), rt=(RT, b, s["cn"]), rx=(RX, c, s["xn"]), wi=(WI, d, n), scope=ref, w=w, sval=t["sval"], sdom=t["sdom"], end=s)
        return hit
    def folds(self, ctx):
        p = self.phases(ctx)
        return [p["inf"], p["rt"], p["rx"], p["wi"]]
    def post(self, ex, ctx, st, ret):
        F, a, n = self.phases(ctx)["wi"]
        return [("content created for a covergroup", st.heap["LOG"] == F.at(a, n)["log"])]
    def nested(self, ctx, ks):
        """{tag: (fold, arguments, step)} of what runs inside the iteration given by ks[:-1] at step ks[-1], and finished"""
        p = self.phases(ctx)
        out = {}
        def add(tag, F, a, n, *more):
            out[tag] = (F, a, n)
        if len(ks) >= 2:
            F, a, n = p["inf"]
            i = dget("instances", ctx["cg"], ks[0])
            ph, _ = in_phases(F.at(a, ks[0]), i)
            out["cpf"], out["crf"] = [x + (ks[1],) for x in ph]
            F, a, n = p["rx"]
            b, n = xch_args(ctx["phases"]["end"], sel(a[2], ks[0]), p["sval"])
            out["xch"] = (XCH, b, n, ks[1])
            F, a, n = p["wi"]
            w2, _, _ = wi_phases(F.at(a, ks[0])["log"], p["scope"], p["w"], i)
            out["icp"], out["icr"] = [x + (ks[1],) for x in w2]
            if len(ks) >= 3:
                bp, _ = cp_phases(CPF.at(ph[0][1], ks[1]), dget("coverpoints", i, ks[1]))
                for f, x in zip(CPL, bp):
                    out["bk" + f] = x + (ks[2],)
                bx, _ = cr_phases(CRF_.at(ph[1][1], ks[1]), dget("crosses", i, ks[1]))
                out["cpy"], out["xb"] = [x + (ks[2],) for x in bx]
                cr = dget("crosses", i, ks[1])
                out["xcd"] = (XCD, [cr, w2[1][1][3]], dlen("members", cr), ks[2])
        return out
    def terms(self, ctx, ks):
        out = {}
        for tag, (F, a, n, k) in self.nested(ctx, ks).items():
            for c, t in F.at(a, k).items():
                out[(tag, c)] = t
            for c, t in F.at(a, n).items():
                out[(tag, c, "end")] = t
        if len(ks) >= 3:
            # the bins-by-name table of the cross worked on, within that of all crosses
            p = self.phases(ctx)
            i = dget("instances", ctx["cg"], ks[0])
            F, a, n = p["inf"]
            b = in_phases(F.at(a, ks[0]), i)[0][1][1]
            cr = dget("crosses", i, ks[1])
            s = cr_entered(CRF_.at(b, ks[1]), cr)[0]
            for c, m in (("xmdom", "mdom"), ("xmval", "mval")):
                out[("xb", c)] = sto(s[c], dname(cr), out[("xb", m)])
        return out
    def invariants(self, ctx, ks):
        """a bin of the type that is looked for is not among those passed"""
        if len(ks) != 4:
            return {}
        out = {}
        ns = self.nested(ctx, ks[:3])
        i = dget("instances", ctx["cg"], ks[0])
        cp = dget("coverpoints", i, ks[1])
        for f in CPL:
            F, a, n, k = ns["bk" + f]
            s = F.at(a, k)
            t = a[-2]
            x = dname(dget(f, cp, ks[2]))
            g = lambda q: FR(sel(s["Y" + f + "@"], t), s["Bname"], sel(s["Y" + f + "#"], t), x, q)
            out["search " + f] = g(ks[3]) == g(iv(0))
        return out
    def raises(self, ex, ctx, st, exc):
        if exc not in ("Exception", "KeyError", "ValueError", "TypeError"):
            return None
        ks = ex.raise_ks
        p = self.phases(ctx)
        alts = []
        if len(ks) == 2 and exc == "TypeError":
            # a cross without operands, met again when the instances are recorded
            return dno("members", dget("crosses", dget("instances", ctx["cg"], ks[0]), ks[1]))
        if len(ks) == 1 and exc == "TypeError":
            F, a, n = p["rx"]
            return z3.And(ks[0] < n, sel(p["end"]["Xmembers?"], sel(a[2], ks[0])))
        if len(ks) == 2:
            alts.append(dno("members", dget("crosses", dget("instances", ctx["cg"], ks[0]), ks[1])))
            F, a, n, k = self.nested(ctx, ks)["xch"]
            alts.append(z3.And(ks[0] < p["rx"][2], k < n, z3.Not(sel(p["sdom"], sel(a[0], k)))))
        if len(ks) == 3:
            F, a, n = p["wi"]
            i = dget("instances", ctx["cg"], ks[0])
            _, _, sdom = wi_phases(F.at(a, ks[0])["log"], p["scope"], p["w"], i)
            cr = dget("crosses", i, ks[1])
            alts.append(z3.And(ks[2] < dlen("members", cr), z3.Not(sel(sdom, dget("members", cr, ks[2])))))
        return z3.Or(*alts) if alts else None
    def apply(self, ex, st, args, node):
        r, e = args
        i = field(ex, st, r, "cg_default_inst")
        if not (isinstance(e, Ref) and e.model == "yd_cg" and isinstance(i, Ref) and i.model == "dst"):
            return None
        ex.may_raise(st, F_("y_cg_rejected", I, B)(e.t), "CovergroupRejected", node)
        h = [st.heap[k] for k in HEAP]
        st.heap["LOG"] = PCG(*([st.heap["LOG"], i.t, e.t] + h))
        for k in HEAP:
            st.heap[k] = PCGH[k](*(h + [e.t]))
        return NONE
CONTRACTS += [ProcessCovergroup()]

# ---------------------------------------------------------------- reading a document
YTEXT, YPARSED, YROOT = F_("y_stream_of", I, I), F_("y_parsed", I, I), F_("y_root", I, I)
YNOTJSON, YNOROOT = F_("y_has_dates", I, B), F_("y_no_coverage", I, B)
YBROKEN, YVALID = F_("y_not_yaml", I, B), F_("y_conforms", I, B)
class CoverageNS(Contract):
    """assumed: python_jsonschema_objects builds plain records"""
    target = MOD + "getCoverageNS"
    def apply(self, ex, st, args, node):
        return Ref("yns", iv(0))
class CoverageSchema(Contract):
    """assumed: the content of schema/coverage.json (invalid documents are tried by the run-time contract)"""
    target = MOD + "getCoverageSchema"
    def apply(self, ex, st, args, node):
        return Ref("yschema", iv(0))
class YText(M.Model):
    pass
M.MODELS.update(ysrc=YText(), ydocument=YText(), yjson=YText(), yschema=YText())
def x_stringio(ex, st, args, kw, node):
    if len(args) != 1 or kw:
        raise Unsupported("StringIO")
    return Ref("ysrc", YTEXT(M.sval(ex, st, args[0], node)))
M.EXTS["io.StringIO"] = x_stringio
def x_yload(ex, st, args, kw, node):
    if not (len(args) == 1 and isinstance(args[0], Ref) and args[0].model == "ysrc"):
        raise Unsupported("yaml.load of %r" % (args,))
    ex.may_raise(st, YBROKEN(args[0].t), "YAMLError", node)
    return Ref("ydocument", YPARSED(args[0].t))
M.EXTS["yaml.load"] = M.EXTS["yaml.safe_load"] = M.EXTS["yaml.full_load"] = x_yload
def x_jvalidate(ex, st, args, kw, node):
    a = dict(zip(("instance", "schema"), args), **kw)
    d, s = a.get("instance"), a.get("schema")
    if len(a) != 2 or not (isinstance(d, Ref) and d.model == "ydocument" and isinstance(s, Ref) and s.model == "yschema"):
        raise Unsupported("jsonschema.validate")
    ex.may_raise(st, z3.Not(YVALID(d.t)), "ValidationError", node)
    return NONE
M.EXTS["jsonschema.validate"] = x_jvalidate
_dumps = M.EXTS.get("json.dumps")
def x_dumps(ex, st, args, kw, node):
    if len(args) == 1 and isinstance(args[0], Ref) and args[0].model == "ydocument":
        if set(kw) - {"default"}:
            raise Unsupported("arguments of json.dumps")
        if "default" in kw and not (isinstance(kw["default"], BuiltinV) and kw["default"].name in ("str", "repr")):
            raise Unsupported("arguments of json.dumps")
        if "default" not in kw:
            ex.may_raise(st, YNOTJSON(args[0].t), "TypeError", node, "a value of an additional property is not serializable")
        return Ref("yjson", args[0].t)
    if _dumps is None:
        raise Unsupported("json.dumps")
    return _dumps(ex, st, args, kw, node)
M.EXTS["json.dumps"] = x_dumps
class YData(M.Model):
    """the generated class of whole documents, and one of its objects"""
    def getattr(self, ex, st, o, nm, node):
        if nm == "coverage" and o.model == "ydata":
            return Opt(YNOROOT(o.t), Ref("yd_root", YROOT(o.t)))
        return MethV(o, nm)
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "from_json" and len(args) == 1 and isinstance(args[0], Ref) and args[0].model == "yjson":
            ex.may_raise(st, z3.Not(YVALID(args[0].t)), "UnvalidatedDocument", node, "a document that may not satisfy the schema is turned into coverage")
            return Ref("ydata", args[0].t)
        raise Unsupported("method %s of a document" % nm)
M.MODELS.update(ydatacls=YData(), ydata=YData())
_ynew = YNew.method
def _ynew2(self, ex, st, o, nm, args, kw, node):
    if nm == "CoverageData" and not args and not kw:
        return Ref("ydatacls", iv(0))
    return _ynew(self, ex, st, o, nm, args, kw, node)
YNew.method = _ynew2
YNew.getattr = lambda self, ex, st, o, nm, node: Ref("ydatacls", iv(0)) if nm == "CoverageData" else MethV(o, nm)
YData.call = lambda self, ex, st, o, args, kw, node: o

YALL = Fold("y_all", [("log", IA), ("inst", I)] + HH + [("root", I)], [("log", IA)] + HH, lambda a: dict(zip(["log"] + list(HEAP), [a[0]] + a[2:-1])),
    lambda a, ix, s: (lambda cg, h: dict({k: PCGH[k](*(h + [cg])) for k in HEAP}, log=PCG(*([s["log"], a[1], cg] + h))))(dget("covergroups", a[-1], ix[0]), [s[k] for k in HEAP]))
class Load(YContract):
    target = MOD + "load"
    text = False
    def args(self, ex, st):
        ex.ctx["newdb"] = None
        t = ex.ctx["t"] = fresh("document", I)
        return [vstr(t) if self.text else Ref("ysrc", t)]
    def src(self, ctx):
        return YTEXT(ctx["t"]) if self.text else ctx["t"]
    def spec(self, ex, ctx):
        db = ctx["newdb"]
        lg = z3.Store(ctx["L"], db, M.nil)
        lg, du = M.create(lg, db, M.ev_du(vstr("du").t, ctx["k_du"]))
        lg, inst = M.create(lg, db, M.ev_inst(vstr("cg_inst").t, ctx["k_inst"], du))
        root = YROOT(YPARSED(self.src(ctx)))
        return YALL, [lg, inst] + [ctx["H"][k] for k in HEAP] + [root], z3.If(YNOROOT(YPARSED(self.src(ctx))), iv(0), dlen("covergroups", root))
    def setup(self, ex, st):
        a = super().setup(ex, st)
        ex.ctx["k_du"], ex.ctx["k_inst"] = iv(enum(ex, ST, "DU_MODULE")), iv(enum(ex, ST, "INSTANCE"))
        # as constructed, or used for other documents before
        c = ex.cell(st, a[0].id)
        n = ex.construct(st, c.cls, [], {}, None)
        have = ex.cell(st, n.id).fields
        setfields(ex, st, n, **{k: Ref("dst", fresh("used_" + k, I)) for k in ("db", "cg_default_du", "cg_default_inst") if k in have})
        return [n] + a[1:]
    def folds(self, ctx):
        return [] if ctx["newdb"] is None else [self.spec(None, ctx)]
    def post(self, ex, ctx, st, ret):
        if ctx["newdb"] is None or not (isinstance(ret, Ref) and ret.model == "dst"):
            raise Unsupported("result %r" % (ret,))
        F, a, n = self.spec(ex, ctx)
        d = self.src(ctx)
        return [("content of the database read", st.heap["LOG"] == F.at(a, n)["log"]), ("the database is returned", ret.t == ctx["newdb"]),
                ("the document satisfies the schema", z3.And(z3.Not(YBROKEN(d)), YVALID(YPARSED(d))))]
    def raises(self, ex, ctx, st, exc):
        d = self.src(ctx)
        return dict(YAMLError=YBROKEN(d), ValidationError=z3.Not(YVALID(YPARSED(d))), CovergroupRejected=TRUE).get(exc)
class Loads(Load):
    target = MOD + "loads"
    text = True
CONTRACTS += [CoverageNS(), CoverageSchema(), Load(), Loads()]
