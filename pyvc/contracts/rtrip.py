"""The composition of the XML writer's and the XML reader's contracts (C09): what the written document is, element by element,
and that the reader's way of looking at it (iter, attrib, text) gives back the database's content.

Nothing here looks at the code: the lemmas are about the specifications that the functions of xmlw and xmlr are proved to
meet. A written document state is only ever used through three facts about each piece of the writer (an Op below): it appends
a known number of children to one element (count), it leaves everything else alone (frame), and what it appended has a known
shape. Each is proved for the piece from the same facts about the pieces it is made of, by induction for loops."""
from .util import *
from .xmlmodel import *
from . import xmlw, xmlr
from .xmlw import kindname

# position of the child of q below which x lies, negative when x is not below q
slot = z3.Function("xel_slot", I, I, I)
def is_el(t):
    return z3.is_app(t) and t.decl().name() == "xel"
def _slot(app, ch):
    x, q = ch
    return [app == z3.If(x.arg(0) == q, x.arg(1), slot(x.arg(0), q))] if is_el(x) else []
smt.trigger(slot, _slot)
def nest(x, q, i):
    """below a child of q is below q, at that child's position"""
    return z3.Implies(slot(x, el(q, i)) >= 0, slot(x, q) == i)
def dep(x, q):
    return z3.Implies(slot(x, q) >= 0, depth(x) > depth(q))

def S(Z, c, e):
    return z3.Select(Z.c[c], e)
def attr(Z, e, a, v=None):
    h = z3.Select(S(Z, "has", e), L(a))
    return h if v is None else z3.And(h, z3.Select(S(Z, "val", e), L(a)) == L(v))
def node(Z, e, tag, n):
    return z3.And(S(Z, "tag", e) == L(tag), S(Z, "n", e) == n)
def full(Z, e, *attrs, text=NOTEXT):
    """exactly these attributes, and this text"""
    h = KF
    for a in attrs:
        h = z3.Store(h, L(a), z3.BoolVal(True))
    return z3.And(S(Z, "has", e) == h, S(Z, "txt", e) == text)
def frame(Z0, Z1, x):
    return z3.And(*[S(Z0, c, x) == S(Z1, c, x) for c in NAMES])
def outside(Z0, x, q):
    return z3.And(x != q, slot(x, q) < S(Z0, "n", q))
def state(nm):
    return X([fresh(nm + "_" + c, s) for c, s in COMPS])
def ix(nm, n):
    return z3.And(0 <= Q[nm], Q[nm] < n)

# arbitrary positions: one per level, the same in every lemma
Q = {k: z3.Int("rt_" + k) for k in ("bin", "expr", "xbin", "cp", "cross", "inst", "cg", "scope", "hist", "file", "attr")}
C = xmlw.C
def NBm(s):
    return M.NB(s, C["MASK"])
def N(s, k):
    return M.NS(s, C[k])

class Op:
    """a piece of the writer that appends cnt(args) children to one element"""
    def __init__(self, nm, cnt, shape):
        self.nm, self.cnt, self.shape = nm, cnt, shape
# ---- shapes: (base element or child(i), args) -> (elements, formulas)
def sh_bin(Z, b, it):
    r = el(b, iv(0)); c = el(r, iv(0))
    return [b, r, c], [full(Z, b, "name", "type", "key"), full(Z, r, "from", "to"), full(Z, c, "coverageCount"), node(Z, b, "coverpointBin", 1), attr(Z, b, "name", M.bname(it)), attr(Z, b, "type", kindname(it, "bins")),
        node(Z, r, "range", 1), node(Z, c, "contents", 0), attr(Z, c, "coverageCount", smt.str_of_int(M.bdata(it)))]
def sh_xbin(Z, b, it):
    t, c = el(b, iv(0)), el(b, iv(1))
    return [b, t, c], [full(Z, b, "name", "key", "type"), full(Z, t, text=L("-1")), full(Z, c, "coverageCount"), node(Z, b, "crossBin", 2), attr(Z, b, "name", M.bname(it)), attr(Z, b, "type", kindname(it, "default")),
        node(Z, t, "index", 0), node(Z, c, "contents", 0), attr(Z, c, "coverageCount", smt.str_of_int(M.bdata(it)))]
def sh_expr(Z, e, x):
    return [e], [node(Z, e, "crossExpr", 0), full(Z, e, text=M.name(x))]
def under(guard, sh):
    return sh[0], [z3.Implies(guard, z3.And(*sh[1]))]
def join(*shs):
    return [e for s in shs for e in s[0]], [f for s in shs for f in s[1]]
def sh_cp(Z, e, cp):
    o = el(e, iv(0))
    return join(([e, o], [full(Z, e, "name", "key"), full(Z, o), node(Z, e, "coverpoint", 1 + NBm(cp)), attr(Z, e, "name", M.name(cp)), node(Z, o, "options", 0)]),
        under(ix("bin", NBm(cp)), sh_bin(Z, el(e, 1 + Q["bin"]), M.BI(cp, C["MASK"], Q["bin"]))))
def sh_cross(Z, e, cr):
    o = el(e, iv(0))
    return join(([e, o], [full(Z, e, "name", "key"), full(Z, o), node(Z, e, "cross", 1 + M.NX(cr) + NBm(cr)), attr(Z, e, "name", M.name(cr)), node(Z, o, "options", 0)]),
        under(ix("expr", M.NX(cr)), sh_expr(Z, el(e, 1 + Q["expr"]), M.X(cr, Q["expr"]))),
        under(ix("xbin", NBm(cr)), sh_xbin(Z, el(e, 1 + M.NX(cr) + Q["xbin"]), M.BI(cr, C["MASK"], Q["xbin"]))))
def sourceid(Z, e):
    return [full(Z, e, "file", "line", "inlineCount"), attr(Z, e, "file", "1")]
def sh_inst(Z, e, cgname, cg):
    o, d = el(e, iv(0)), el(e, iv(1))
    a, b = el(d, iv(0)), el(d, iv(1))
    return join(([e, o, d, a, b], [full(Z, e, "name", "key"), full(Z, o), full(Z, d, "cgName", "moduleName")] + sourceid(Z, a) + sourceid(Z, b) + [node(Z, e, "cgInstance", 2 + N(cg, "COVERPOINT") + N(cg, "CROSS")), attr(Z, e, "name", M.name(cg)), node(Z, o, "options", 0), node(Z, d, "cgId", 2),
            attr(Z, d, "cgName", cgname), node(Z, a, "cginstSourceId", 0), node(Z, b, "cgSourceId", 0)]),
        under(ix("cp", N(cg, "COVERPOINT")), sh_cp(Z, el(e, 2 + Q["cp"]), M.S(cg, C["COVERPOINT"], Q["cp"]))),
        under(ix("cross", N(cg, "CROSS")), sh_cross(Z, el(e, 2 + N(cg, "COVERPOINT") + Q["cross"]), M.S(cg, C["CROSS"], Q["cross"]))))
def ninst(cg):
    """a covergroup without instances is written as an instance of itself"""
    return z3.If(N(cg, "COVERINSTANCE") == 0, iv(1), N(cg, "COVERINSTANCE"))
def theinst(cg, i):
    return z3.If(N(cg, "COVERINSTANCE") == 0, cg, M.S(cg, C["COVERINSTANCE"], i))
def sh_cg(Z, e, cg):
    return join(([e], [full(Z, e), node(Z, e, "covergroupCoverage", ninst(cg))]), under(ix("inst", ninst(cg)), sh_inst(Z, el(e, Q["inst"]), M.name(cg), theinst(cg, Q["inst"]))))
def sh_scope(Z, e, s):
    d = el(e, iv(0))
    return join(([e, d], [full(Z, e, "name", "key")] + sourceid(Z, d) + [node(Z, e, "instanceCoverages", 1 + N(s, "COVERGROUP")), attr(Z, e, "name", M.name(s)), node(Z, d, "id", 0)]),
        under(ix("cg", N(s, "COVERGROUP")), sh_cg(Z, el(e, 1 + Q["cg"]), M.S(s, C["COVERGROUP"], Q["cg"]))))
def sh_file(Z, e, f, v):
    return [e], [full(Z, e, "fileName", "id"), node(Z, e, "sourceFiles", 0), attr(Z, e, "fileName", f), attr(Z, e, "id", smt.str_of_int(z3.Select(v, f)))]
def oneof(a, names):
    return z3.Or(*[a == L(n) for n in names])
HISTATTRS = ["historyNodeId", "testStatus"] + [f[0] for f in xmlw.FIELDS]
def histval(at, g, k, h):
    """(written, value)"""
    t = xmlw.hf[g](h)
    if k in (xmlw.OSTR, xmlw.ANY):
        return z3.Not(xmlw.hno[g](h)), xmlw.anystr(t) if k == xmlw.ANY else t
    if k == "real":
        return t >= 0, xmlw.dectext(xmlw.decof(smt.str_of_real(t))) if at == "cost" else smt.str_of_real(t)
    if k == "int":
        return t >= 0, smt.str_of_int(t)
    return z3.BoolVal(True), t if k == xmlw.STR else xmlw.iso(xmlw.parse(xmlw.DATEFMT)(t))
def statustext(h):
    return z3.If(xmlw.hstatus(h) == C["OK"], L("true"), L("false"))
def sh_hist(Z, e, h, i):
    out = [node(Z, e, "historyNodes", 0), S(Z, "txt", e) == NOTEXT, z3.Implies(z3.Select(S(Z, "has", e), Q["attr"]), oneof(Q["attr"], HISTATTRS)),
        attr(Z, e, "historyNodeId", smt.str_of_int(i)), attr(Z, e, "testStatus", statustext(h))]
    for at, g, k in xmlw.FIELDS:
        c, v = histval(at, g, k, h)
        out.append(z3.And(attr(Z, e, at) == c, z3.Implies(c, z3.Select(S(Z, "val", e), L(at)) == v)))
    return [e], out

one = lambda *a: iv(1)
# pieces that append one element: shape(Z, base, *args)
OPS = {}
def single(nm, sh):
    OPS[nm] = Op(nm, one, lambda Z, q, n0, a: sh(Z, el(q, n0), *a))
single("xw_coverpoint", sh_cp)
single("xw_cross", sh_cross)
single("xw_coverinstance", sh_inst)
single("covergroup", sh_cg)
single("xw_instance", sh_scope)
# loops: item(a, k) -> arguments of the k-th child's shape
def loop(nm, n, key, sh, item):
    OPS[nm] = Op(nm, n, lambda Z, q, n0, a, k=None: under(ix(key, n(*a) if k is None else k), sh(Z, el(q, n0 + Q[key]), *item(a, Q[key]))))
    OPS[nm].key = key
loop("xw_cpbins", lambda s, m: M.NB(s, m), "bin", sh_bin, lambda a, k: (M.BI(a[0], a[1], k),))
loop("xw_crbins", lambda s, m: M.NB(s, m), "xbin", sh_xbin, lambda a, k: (M.BI(a[0], a[1], k),))
loop("xw_crexpr", lambda s: M.NX(s), "expr", sh_expr, lambda a, k: (M.X(a[0], k),))
loop("xw_cps", lambda s: N(s, "COVERPOINT"), "cp", sh_cp, lambda a, k: (M.S(a[0], C["COVERPOINT"], k),))
loop("xw_crs", lambda s: N(s, "CROSS"), "cross", sh_cross, lambda a, k: (M.S(a[0], C["CROSS"], k),))
loop("xw_cis", lambda s: N(s, "COVERINSTANCE"), "inst", sh_inst, lambda a, k: (M.name(a[0]), M.S(a[0], C["COVERINSTANCE"], k)))
loop("xw_cgs", lambda s: N(s, "COVERGROUP"), "cg", sh_cg, lambda a, k: (M.S(a[0], C["COVERGROUP"], k),))
loop("xw_insts", lambda s: N(s, "INSTANCE"), "scope", sh_scope, lambda a, k: (M.S(a[0], C["INSTANCE"], k),))
loop("xw_srcfiles", lambda k, v: z3.Int("nfiles"), "file", sh_file, lambda a, k: (z3.Select(a[0], k), a[1]))
loop("xw_hist", lambda d: M.NH(d, iv(0)), "hist", sh_hist, lambda a, k: (M.H(a[0], iv(0), k), k))
def nhist(db):
    """a database without history is written with a placeholder"""
    return z3.If(M.NH(db, iv(0)) > 0, M.NH(db, iv(0)), iv(1))
def placeheld(Z, e):
    """true of the placeholder, too (postcondition of write_history_nodes)"""
    h = S(Z, "has", e)
    return [S(Z, "txt", e) == NOTEXT, z3.Implies(z3.Select(h, Q["attr"]), oneof(Q["attr"], HISTATTRS))] + [z3.Select(h, L(a)) for a in xmlw.REQUIRED]
def sh_history(Z, q, n0, a):
    e = el(q, n0 + Q["hist"])
    return under(ix("hist", nhist(*a)), ([e], [node(Z, e, "historyNodes", 0)] + placeheld(Z, e) +
        [z3.Implies(M.NH(a[0], iv(0)) > 0, f) for f in sh_hist(Z, e, M.H(a[0], iv(0), Q["hist"]), Q["hist"])[1]]))
OPS["xw_history"] = Op("xw_history", nhist, sh_history)
# the covergroups of an instance: the function is its loop
OPS["xw_covergroups"] = Op("xw_covergroups", OPS["xw_cgs"].cnt, OPS["xw_cgs"].shape)

class Rec(X):
    """a document state on which the writer's pieces act through their proved facts; probes: elements whose frame matters"""
    def __init__(self, Z, probes):
        super().__init__(Z.c)
        self.probes, self.hyps = probes, []
    def op(self, nm, q, a, k=None):
        o, Z0, Z1 = OPS[nm], X(self.c), state(nm)
        self.hyps.append(S(Z1, "n", q) == S(Z0, "n", q) + (o.cnt(*a) if k is None else k))
        self.hyps += [S(Z1, c, q) == S(Z0, c, q) for c in NAMES[1:]]
        self.hyps += [z3.Implies(outside(Z0, x, q), frame(Z0, Z1, x)) for x in self.probes]
        self.hyps += (o.shape(Z1, q, S(Z0, "n", q), a) if k is None else o.shape(Z1, q, S(Z0, "n", q), a, k))[1]
        self.c = Z1.c
    def fold(self, f, extra, n):
        extra = list(extra)
        self.op(f.name, extra[0], extra[1:], n)
    def call(self, fns, *extra):
        self.op(next(iter(fns.values())).name().rsplit(".", 1)[0], extra[0], list(extra[1:]))

def facts(Z0, q, n0, els, x):
    """what is known about positions"""
    e = el(q, n0)
    h = [S(Z0, "n", q) >= 0, nest(x, q, n0), dep(q, e), dep(x, q)]
    for y in [e] + list(els):
        # (mentions the terms whose definitions are needed)
        h.append(z3.Or(slot(y, q) == 0, slot(y, q) != 0))
        h.append(z3.Or(slot(y, e) == 0, slot(y, e) != 0))
    return h
def effect(Z0, Z1, q, a, nm, x, k=None):
    o = OPS[nm]
    n0 = S(Z0, "n", q)
    sh = o.shape(Z1, q, n0, a) if k is None else o.shape(Z1, q, n0, a, k)
    return [("count", z3.And(S(Z1, "n", q) == n0 + (o.cnt(*a) if k is None else k), *[S(Z1, c, q) == S(Z0, c, q) for c in NAMES[1:]])),
        ("frame", z3.Implies(outside(Z0, x, q), frame(Z0, Z1, x)))] + [("shape %d" % i, f) for i, f in enumerate(sh[1])]
def piece(nm, spec, a, hyps=()):
    """the facts about a function's specification spec(state, q, *a), from those of the pieces it uses"""
    Z0, q, x = state("Z"), fresh("q", I), fresh("x", I)
    n0 = S(Z0, "n", q)
    els = OPS[nm].shape(Z0, q, n0, a)[0]
    rec = Rec(Z0, [x, q] + els)
    spec(rec, q, *a)
    h = list(hyps) + facts(Z0, q, n0, els, x) + rec.hyps
    return [("%s: %s" % (nm, w), h, g) for w, g in effect(Z0, rec, q, a, nm, x)]
def overloop(nm, step, a):
    """the facts about a loop, by induction; step(state, q, a, k) is one pass"""
    Z0, q, x, k, Z = state("Z"), fresh("q", I), fresh("x", I), fresh("k", I), state("Zk")
    n0 = S(Z0, "n", q)
    els = OPS[nm].shape(Z0, q, n0, a)[0]
    rec = Rec(Z, [x, q] + els)
    step(rec, q, a, k)
    now = [z3.substitute(y, (Q[OPS[nm].key], k)) for y in els]
    h = facts(Z0, q, n0, els + now, x) + [nest(x, q, n0 + k), dep(q, el(q, n0 + k))]
    inv = [g for _, g in effect(Z0, Z, q, a, nm, x, k)]
    out = []
    for (w, b), (_, g) in zip(effect(Z0, Z0, q, a, nm, x, iv(0)), effect(Z0, rec, q, a, nm, x, k + 1)):
        out.append(("%s: %s [base]" % (nm, w), h, b))
        out.append(("%s: %s [step]" % (nm, w), h + [k >= 0] + inv + rec.hyps, g))
    return out

# ---- the writer
def cg_single(x, q, cg):
    e = x.mk(q, "covergroupCoverage")
    x.call(xmlw.CIF, e, M.name(cg), cg)
def cg_many(x, q, cg):
    e = x.mk(q, "covergroupCoverage")
    x.fold(xmlw.CIS, (e, cg), N(cg, "COVERINSTANCE"))
def writer_lemmas():
    s, c = fresh("s", I), fresh("cgname", I)
    out = []
    W = xmlw
    out += overloop("xw_cpbins", lambda x, q, a, k: W.cpbin(x, (q,) + a, k), (s, C["MASK"]))
    out += overloop("xw_crbins", lambda x, q, a, k: W.crbin(x, (q,) + a, k), (s, C["MASK"]))
    out += overloop("xw_crexpr", lambda x, q, a, k: W.crossexpr(x, (q,) + a, k), (s,))
    out += piece("xw_coverpoint", W.coverpoint, (s,))
    out += piece("xw_cross", W.cross, (s,))
    out += overloop("xw_cps", lambda x, q, a, k: x.call(W.CPF, q, M.S(a[0], C["COVERPOINT"], k)), (s,))
    out += overloop("xw_crs", lambda x, q, a, k: x.call(W.CRF, q, M.S(a[0], C["CROSS"], k)), (s,))
    out += piece("xw_coverinstance", W.coverinstance, (c, s))
    out += overloop("xw_cis", lambda x, q, a, k: x.call(W.CIF, q, M.name(a[0]), M.S(a[0], C["COVERINSTANCE"], k)), (s,))
    none = N(s, "COVERINSTANCE") == 0
    for h, f, w in ((none, cg_single, "without instances"), (z3.Not(none), cg_many, "with instances")):
        out += [(n + " (%s)" % w, a, b) for n, a, b in piece("covergroup", f, (s,), [h])]
        x, y = state("Z"), None
        y = X(x.c)
        q = fresh("q", I)
        W.covergroup(x, q, s)
        f(y, q, s)
        out.append(("the specification of a covergroup (%s)" % w, [h], z3.And(*[x.c[n] == y.c[n] for n in NAMES])))
    out += overloop("xw_cgs", lambda x, q, a, k: x.op("covergroup", q, (M.S(a[0], C["COVERGROUP"], k),)), (s,))
    out += piece("xw_instance", W.instance, (s,))
    out += overloop("xw_srcfiles", lambda x, q, a, k: W.srcfile(x, (q,) + a, k), (fresh("karr", IA), fresh("fval", IA)))
    out += overloop("xw_hist", lambda x, q, a, k: W.histnode(x, (q,) + a, k), (s,))
    some = M.NH(s, iv(0)) > 0
    out += [(n + " (some)", a, b) for n, a, b in piece("xw_history", lambda x, q, db: x.fold(W.HIST, (q, db), M.NH(db, iv(0))), (s,), [some])]
    def placeholder(x, q, db):
        e = x.mk(q, "historyNodes")
        for c in ("has", "val", "txt"):
            x.c[c] = z3.Store(x.c[c], e, z3.Select(fresh("placeholder_" + c, x.c[c].sort()), e))
        x.hyps += placeheld(x, e)
    out += [(n + " (none)", a, b) for n, a, b in piece("xw_history", placeholder, (s,), [z3.Not(some)])]
    out += overloop("xw_insts", lambda x, q, a, k: x.call(W.INSTF, q, M.S(a[0], C["INSTANCE"], k)), (s,))
    return out + document_lemmas(s)
ROOT = xmlw.ROOT
def sh_doc(Z, db):
    """the whole document"""
    nf, nh = xmlw.filetable(db)["n"], nhist(db)
    f = xmlw.filetable(db)
    return join(([ROOT], [full(Z, ROOT, "ucisVersion", "writtenBy", "writtenTime"), node(Z, ROOT, "UCIS", nf + nh + N(db, "INSTANCE"))]),
        under(ix("file", nf), sh_file(Z, el(ROOT, Q["file"]), z3.Select(f["karr"], Q["file"]), f["val"])),
        (lambda s: (s[0], s[1]))(sh_history(Z, ROOT, nf, (db,))),
        under(ix("scope", N(db, "INSTANCE")), sh_scope(Z, el(ROOT, nf + nh + Q["scope"]), M.S(db, C["INSTANCE"], Q["scope"]))))
def document_lemmas(db):
    Z = state("Z")
    els = sh_doc(Z, db)[0]
    rec = Rec(Z, els)
    xmlw.preface(rec, db, fresh("version", I))
    rec.fold(xmlw.INSTS, (ROOT, db), N(db, "INSTANCE"))
    f = xmlw.filetable(db)
    h = [f["n"] >= 0] + rec.hyps + [z3.Or(slot(y, ROOT) == 0, slot(y, ROOT) != 0) for y in els]
    return [("the document: %d" % i, h, g) for i, g in enumerate(sh_doc(rec, db)[1])]

class WrittenShape(Contract):
    props = ("C09",)
    leaf = True
    label = "the document written for a database, element by element"
    target = xmlw.MOD + "write"
    cost = 6
    def run(self, ex, st):
        xmlw.consts(ex)
        C["OK"] = enum(ex, "ucis.test_status_t:TestStatusT", "OK")
        self.goal0(ex, st)
    def goal0(self, ex, st):
        ex.goal(st, "the kinds of bins written are different", z3.BoolVal(len({C[k] for k in ("CVGBIN", "IGNOREBIN", "ILLEGALBIN")}) == 3))
    def lemmas(self, ex):
        return writer_lemmas()
CONTRACTS = [WrittenShape()]

# ---------------------------------------------------------------- the reader's view of that document
# parsing what was serialised gives the same tree; iter(tag) lists an element and everything below it in document order
ND, DESC, XH, val, D, nd = xmlr.ND, xmlr.DESC, xmlr.XH, xmlr.val, xmlr.D, xmlr.nd
DOC = X([z3.Const("doc_" + c, s) for c, s in COMPS])
NDI = z3.Function("x_ndesc_upto", I, I, I, I)       # elements with the tag below the first k children
def tagged(x, t):
    return S(DOC, "tag", x) == t
def b2i(c):
    return z3.If(c, iv(1), iv(0))
def def_nd(x, t):
    return z3.And(ND(x, t) == b2i(tagged(x, t)) + NDI(x, t, S(DOC, "n", x)), NDI(x, t, iv(0)) == 0, ND(x, t) >= 0, z3.Implies(tagged(x, t), DESC(x, t, iv(0)) == x))
def def_child(x, t, k):
    """the k-th child and what is below it"""
    c = el(x, k)
    return z3.Implies(z3.And(0 <= k, k < S(DOC, "n", x)), z3.And(NDI(x, t, k + 1) == NDI(x, t, k) + ND(c, t),
        z3.Implies(ND(c, t) > 0, DESC(x, t, b2i(tagged(x, t)) + NDI(x, t, k)) == DESC(c, t, iv(0)))))
def view(x, *attrs):
    return [z3.And(XH(x, L(a)) == attr(DOC, x, a), val(x, a) == z3.Select(S(DOC, "val", x), L(a))) for a in attrs]
def view_text(x):
    return xmlr.text(x) == z3.If(S(DOC, "txt", x) == NOTEXT, L(""), S(DOC, "txt", x))
def isnt(T, *tags):
    return z3.And(*[T != L(t) for t in tags])

def leaf_defs(x, t):
    return [def_nd(x, t)]
def level(nm, e, own, prefix, groups, excl, hyps):
    """counts and positions, by tag, below an element with a fixed prefix of children and groups of children of one tag each.
    prefix: [(tag, [tags of its children])]; groups: [(tag, number)]; excl: tags below the children (any other tag T is counted).
    What a child of a group contributes to T is known from its own level: one for its own tag, nothing else."""
    T, k = fresh("T", I), fresh("k", I)
    pre = len(prefix)
    tot = iv(pre)
    for _, n in groups:
        tot = tot + n
    ok = [isnt(T, *excl)] if excl else []
    base = [node(DOC, e, own, z3.simplify(tot))] + hyps + [n >= 0 for _, n in groups]
    fixed = iv(0)
    for i, (t, kids) in enumerate(prefix):
        c = el(e, iv(i))
        base += [node(DOC, c, t, len(kids)), def_nd(c, T), def_child(e, T, iv(i))]
        for j, kt in enumerate(kids):
            base += [node(DOC, el(c, iv(j)), kt, 0), def_nd(el(c, iv(j)), T), def_child(c, T, iv(j))]
            fixed = fixed + b2i(T == L(kt))
        fixed = fixed + b2i(T == L(t))
    base.append(def_nd(e, T))
    first = [("%s: the %s listed" % (nm, t), base + [T == L(t)] + [T != L(u) for u, ks in prefix[:i] for u in [u] + ks], DESC(e, T, iv(0)) == el(e, iv(i))) for i, (t, _) in enumerate(prefix) if t != own]
    def below(kind, c):
        return z3.And(ND(c, T) == b2i(T == L(kind)), z3.Implies(T == L(kind), DESC(c, T, iv(0)) == c))
    out = first
    off, acc = iv(pre), fixed
    known = []
    for g, (t, n) in enumerate(groups):
        inv = lambda j, off=off, acc=acc, t=t: NDI(e, T, off + j) == acc + z3.If(T == L(t), j, iv(0))
        c = el(e, off + k)
        out += induct("%s: what is listed up to a %s" % (nm, t), (base + ok + known, inv(iv(0))), (base + ok + [0 <= k, k < n, inv(k), def_child(e, T, off + k), NDI(e, T, off + (k + 1)) == NDI(e, T, off + k + 1), below(t, c)], inv(k + 1)))
        out.append(("%s: the k-th %s listed" % (nm, t), base + ok + [T == L(t), 0 <= k, k < n, inv(k), acc == 0, def_child(e, T, off + k), below(t, c)], DESC(e, T, k) == c))
        out.append(("%s: no %s before" % (nm, t), ok + [T == L(t)], acc == 0))
        off, acc = off + n, acc + z3.If(T == L(t), n, iv(0))
        known = [NDI(e, T, off) == acc]
    out.append(("%s: number of elements listed" % nm, base + ok + known, ND(e, T) == b2i(T == L(own)) + acc))
    out.append(("%s: it is listed itself" % nm, base + ok + [T == L(own)], DESC(e, T, iv(0)) == e))
    return out

BELOW_BIN = ("range", "contents")
BELOW_XBIN = ("index", "contents")
def view_lemmas():
    e, s, it = fresh("e", I), fresh("s", I), fresh("it", I)
    sh = lambda f, *a: f(DOC, e, *a)[1]
    out = []
    out += level("coverpointBin", e, "coverpointBin", [("range", ["contents"])], [], BELOW_BIN, [])
    out += level("crossBin", e, "crossBin", [("index", []), ("contents", [])], [], BELOW_XBIN, [])
    out += level("range", e, "range", [("contents", [])], [], (), [])
    out += level("sourceFiles", e, "sourceFiles", [], [], (), [])
    out += level("historyNodes", e, "historyNodes", [], [], (), [])
    out += level("crossExpr", e, "crossExpr", [], [], (), [])
    out += level("coverpoint", e, "coverpoint", [("options", [])], [("coverpointBin", NBm(s))], BELOW_BIN, [])
    out += level("cross", e, "cross", [("options", [])], [("crossExpr", M.NX(s)), ("crossBin", NBm(s))], BELOW_XBIN, [])
    low = ("range", "contents", "index", "coverpointBin", "crossBin", "crossExpr", "options")
    out += level("cgInstance", e, "cgInstance", [("options", []), ("cgId", ["cginstSourceId", "cgSourceId"])], [("coverpoint", N(s, "COVERPOINT")), ("cross", N(s, "CROSS"))], low, [])
    low += ("coverpoint", "cross", "cgId", "cginstSourceId", "cgSourceId")
    out += level("covergroupCoverage", e, "covergroupCoverage", [], [("cgInstance", ninst(s))], low, [])
    low += ("cgInstance",)
    out += level("instanceCoverages", e, "instanceCoverages", [("id", [])], [("covergroupCoverage", N(s, "COVERGROUP"))], low, [])
    low += ("covergroupCoverage", "id")
    out += level("UCIS", e, "UCIS", [], [("sourceFiles", xmlw.filetable(s)["n"]), ("historyNodes", nhist(s)), ("instanceCoverages", N(s, "INSTANCE"))], low, [])
    return out

class ReadView(Contract):
    props = ("C09",)
    leaf = True
    label = "the written document as the reader lists its elements"
    target = xmlr.MOD + "read"
    def run(self, ex, st):
        xmlw.consts(ex)
        xmlr.consts(ex)
        ex.goal(st, "the kinds of bins read are different", z3.BoolVal(len({xmlr.C[k].as_long() for k in ("CVGBIN", "IGNOREBIN", "ILLEGALBIN")}) == 3))
        # what the document is, is proved, not assumed
        smt.trigger(DESC, lambda app, ch: [])
    def lemmas(self, ex):
        return view_lemmas()
CONTRACTS += [ReadView()]

# ---------------------------------------------------------------- what reading that document creates
LT, TT, LTT, IM, RS, five, call = xmlr.LT, xmlr.TT, xmlr.LTT, xmlr.IM, xmlr.RS, xmlr.five, xmlr.call
names5, TTN, RSN, NOLOC = xmlr.names5, xmlr.TTN, xmlr.RSN, xmlr.NOLOC
KK, IAr, BA, AB, AA = xmlr.C, IA, A(B), A(A(B)), A(A(I))
# the same computations with the database in place of the document: W.. is R.. with names, kinds, counts and operands of the source
def w_bin(s, dst, it):
    nm, k = M.bname(it), M.bkind(it)
    key = smt.pair(nm, k)
    has = z3.Select(s["dom"], key)
    return dict(log=M.append(s["log"], dst, M.ev_bin(nm, k, iv(1), M.bdata(it))), dom=z3.Store(s["dom"], key, z3.BoolVal(True)),
        cnt=z3.Store(s["cnt"], key, z3.If(has, z3.Select(s["cnt"], key), iv(0)) + M.bdata(it)), n=z3.If(has, s["n"], s["n"] + 1),
        names=z3.If(has, s["names"], z3.Store(s["names"], s["n"], key)))
WBINS = Fold("rt_bins", LT + [("dst", I), ("s", I)], LT, lambda a: five(a), lambda a, ix, s: w_bin(s, a[5], M.BI(a[6], C["MASK"], ix[0])))
def w_cp(s, cg, cp):
    lg, ref = M.create(s["log"], cg, M.ev_scope(M.K_CP, M.name(cp), NOLOC, iv(1)))
    s = dict(s, log=lg)
    return WBINS.at([s[c] for c in names5] + [ref, cp], NBm(cp))
def w_cpref(log, cg, cp):
    return M.create(log, cg, M.ev_scope(M.K_CP, M.name(cp), NOLOC, iv(1)))[1]
WE = Fold("rt_exprs", [("s", I), ("val", IA)], [("n", I), ("arr", IA)], lambda a: dict(n=iv(0), arr=K0),
    lambda a, ix, s: dict(n=s["n"] + 1, arr=z3.Store(s["arr"], s["n"], z3.Select(a[1], M.name(M.X(a[0], ix[0]))))))
def w_xe(cr, vals):
    x = WE.at([cr, vals], M.NX(cr))
    return x["n"], x["arr"]
def w_cr(s, cg, cr, vals):
    n, arr = w_xe(cr, vals)
    lg, ref = M.create(s["log"], cg, M.ev_cross(M.name(cr), NOLOC, iv(1), n, arr))
    s = dict(s, log=lg)
    return WBINS.at([s[c] for c in names5] + [ref, cr], NBm(cr))
WCPF = xmlr.fns("rt_cp", LT, *([s for _, s in LT] + [I, I]))
WCRF = xmlr.fns("rt_cr", LT, *([s for _, s in LT] + [I, I, IA]))
def _wcps_step(a, ix, s):
    cgt, cgi, src = a[len(LTT):]
    cp = M.S(src, C["COVERPOINT"], ix[0])
    nm = M.name(cp)
    lg, ref = M.create(s["log"], cgt, M.ev_scope(M.K_CP, nm, NOLOC, iv(1)))
    r, has, cur = xmlr.enter(s, nm, ref)
    lg = z3.If(has, s["log"], lg)
    out = xmlr.leave(r, nm, cur, call(WCPF, dict(log=lg, dom=cur["ddom"], cnt=cur["dcnt"], n=cur["dn"], names=cur["dnames"]), cgi, cp))
    out["idom"] = z3.Store(s["idom"], nm, z3.BoolVal(True))
    out["ival"] = z3.Store(s["ival"], nm, w_cpref(lg, cgi, cp))
    return out
WCPS = Fold("rt_cps", LTT + [("cgt", I), ("cgi", I), ("src", I)], LTT + IM, lambda a: dict(zip([c for c, _ in LTT], a), idom=KF, ival=K0), _wcps_step)
def _wcrs_step(a, ix, s):
    cgt, cgi, src, ref_, ival = a[len(LTT):]
    cr = M.S(src, C["CROSS"], ix[0])
    nm = M.name(cr)
    n, arr = w_xe(cr, ref_)
    lg, ref = M.create(s["log"], cgt, M.ev_cross(nm, NOLOC, iv(1), n, arr))
    r, has, cur = xmlr.enter(s, nm, ref)
    lg = z3.If(has, s["log"], lg)
    return xmlr.leave(r, nm, cur, call(WCRF, dict(log=lg, dom=cur["ddom"], cnt=cur["dcnt"], n=cur["dn"], names=cur["dnames"]), cgi, cr, ival))
WCRS = Fold("rt_crs", LTT + [("cgt", I), ("cgi", I), ("src", I), ("ref_", IA), ("ival", IA)], LTT, lambda a: dict(zip([c for c, _ in LTT], a)), _wcrs_step)
def w_inst_begin(s, cgt, src):
    lg, ref = M.create(s["log"], cgt, M.ev_scope(M.K_CI, M.name(src), NOLOC, iv(1)))
    return dict(s, log=lg), ref
def wcps_args(s, cgt, src):
    s, ref = w_inst_begin(s, cgt, src)
    return xmlr.cgstate(s, "p") + [cgt, ref, src]
def wcrs_args(s, cgt, src):
    _, ref = w_inst_begin(s, cgt, src)
    p = WCPS.at(wcps_args(s, cgt, src), N(src, "COVERPOINT"))
    return [p["log"]] + [s["x" + c] for c in TTN] + [cgt, ref, src, p["ref"], p["ival"]]
def _wcg_step(a, ix, s):
    cgt, cg = a[1:]
    src = theinst(cg, ix[0])
    p = WCPS.at(wcps_args(s, cgt, src), N(src, "COVERPOINT"))
    x = WCRS.at(wcrs_args(s, cgt, src), N(src, "CROSS"))
    out = {"log": x["log"]}
    for c in TTN:
        out["p" + c], out["x" + c] = p[c], x[c]
    return out
WCG = Fold("rt_cg", [("log", IA), ("cgt", I), ("cg", I)], xmlr.CG, lambda a: dict([("log", a[0])] + [("p" + c, xmlr.T0[c]) for c in TTN] + [("x" + c, xmlr.T0[c]) for c in TTN]), _wcg_step)
def poptypes(s):
    """the bins of the type, from its tables"""
    a, n = xmlr.popt(s["log"], s, "p")
    b, m = xmlr.popt(xmlr.POPT.at(a, n)["log"], s, "x")
    return xmlr.POPT.at(b, m)["log"]
def w_cgs(log, inst, cg):
    """one covergroup: its type with all its instances"""
    lg, ref = M.create(log, inst, M.ev_scope(M.K_CG, M.name(cg), NOLOC, iv(1)))
    return poptypes(WCG.at([lg, ref, cg], ninst(cg)))
WCGSF = z3.Function("rt_covergroup", IA, I, I, IA)
WICG = Fold("rt_inst_cgs", [("log", IA), ("s", I), ("inst", I)], [("log", IA)], lambda a: dict(log=a[0]),
    lambda a, ix, s: dict(log=WCGSF(s["log"], a[2], M.S(a[1], C["COVERGROUP"], ix[0]))))
def w_inst_scope(s, db, x):
    s, d = xmlr.lookup(s, "m", L("default"), lambda lg: M.create(lg, db, M.ev_du(L("default"), KK["DU_MODULE"])))
    return xmlr.lookup(s, "i", M.name(x), lambda lg: M.create(lg, db, M.ev_inst(M.name(x), KK["INSTANCE"], d)))
WINST = xmlr.fns("rt_instance", RS, *([s for _, s in RS] + [I, I]))
def w_instance(s, db, x):
    s, r = w_inst_scope(s, db, x)
    return dict(s, log=WICG.at([s["log"], x, r], N(x, "COVERGROUP"))["log"])
WALL = Fold("rt_all", RS + [("db", I), ("src", I)], RS, lambda a: dict(zip(RSN, a)),
    lambda a, ix, s: {n: WINST[n](*([s[c] for c in RSN] + [a[5], M.S(a[6], C["INSTANCE"], ix[0])])) for n in RSN})

def same(a, b):
    return z3.And(*[a[c] == b[c] for c in a])
def equal_folds(nm, F, fa, G, ga, n, stephyps, hyps=()):
    """two loops over the same number of items do the same when each pass does: stephyps(k, state)"""
    k = fresh("k", I)
    inv = lambda i: same(F.at(fa, i), G.at(ga, i))
    return induct(nm, (list(hyps), inv(iv(0))), (list(hyps) + [0 <= k, k < n, inv(k)] + stephyps(k, G.at(ga, k)), inv(k + 1)))
def seen(e, own, items):
    """what the view lemmas say about the children of e: {tag: (offset, number)}"""
    out = []
    for t, (off, n) in items.items():
        out.append(nd(e, t) == n)
    return out
def kth(e, t, off, k, n):
    return z3.Implies(z3.And(0 <= k, k < n), D(e, t, k) == el(e, off + k))
def fresh5():
    return [fresh("s_" + c, s) for c, s in LT]

def log_lemmas():
    out = []
    e, s, cg, db = fresh("e", I), fresh("s", I), fresh("cg", I), fresh("db", I)
    it, b = fresh("it", I), fresh("b", I)
    kinds = z3.Or(*[M.bkind(it) == KK[c] for c in ("CVGBIN", "IGNOREBIN", "ILLEGALBIN")])
    r, c = el(b, iv(0)), el(el(b, iv(0)), iv(0))
    # one bin: the view of what was written is the bin
    hb = sh_bin(DOC, b, it)[1] + view(b, "name", "type") + view(c, "coverageCount") + [kinds, nd(b, "sequence") == 0, D(b, "range") == r, D(r, "contents") == c]
    cpb = lambda b, it: z3.And(val(b, "name") == M.bname(it), xmlr.binkind(b) == M.bkind(it), xmlr.cpbincount(b) == M.bdata(it))
    xb = lambda b, it: z3.And(val(b, "name") == M.bname(it), xmlr.crossbinkind(b) == M.bkind(it), xmlr.crbincount(b) == M.bdata(it))
    out.append(("a written coverpoint bin is read with its name, kind and count", hb, cpb(b, it)))
    c = el(b, iv(1))
    hb = sh_xbin(DOC, b, it)[1] + view(b, "name", "type") + view(c, "coverageCount") + [kinds, D(b, "contents") == c]
    out.append(("a written cross bin is read with its name, kind and count", hb, xb(b, it)))
    x = fresh("x", I)
    ope = lambda e, x: xmlr.text(e) == M.name(x)
    out.append(("a written cross operand is read with its name", sh_expr(DOC, b, x)[1] + [view_text(b), M.name(x) != NOTEXT], ope(b, x)))
    # names of everything else
    for sh, a, nm in ((sh_cp, (s,), M.name(s)), (sh_cross, (s,), M.name(s)), (sh_inst, (fresh("cgname", I), s), M.name(s)), (sh_scope, (s,), M.name(s))):
        out.append(("a written %s is read with its name" % {sh_cp: "coverpoint", sh_cross: "cross", sh_inst: "covergroup instance", sh_scope: "scope"}[sh], sh(DOC, b, *a)[1] + view(b, "name", "moduleName"),
            z3.And(val(b, "name") == nm, *([z3.Not(XH(b, L("moduleName")))] if sh is sh_scope else []))))
    cn = fresh("cgname", I)
    out.append(("a written covergroup instance is read as one of its type", sh_inst(DOC, b, cn, s)[1] + view(el(b, iv(1)), "cgName") + [D(b, "cgId") == el(b, iv(1))], val(D(b, "cgId"), "cgName") == cn))
    # the bins of a coverpoint and of a cross
    dst = fresh("dst", I)
    s0 = fresh5()
    item = lambda k: M.BI(s, C["MASK"], k)
    out += equal_folds("bins of a coverpoint", xmlr.RBINS, s0 + [dst, e], WBINS, s0 + [dst, s], NBm(s), lambda k, _: [kth(e, "coverpointBin", 1, k, NBm(s)), cpb(el(e, 1 + k), item(k))])
    xo = 1 + M.NX(s)
    out += equal_folds("bins of a cross", xmlr.RXBINS, s0 + [dst, e], WBINS, s0 + [dst, s], NBm(s), lambda k, _: [kth(e, "crossBin", xo, k, NBm(s)), xb(el(e, xo + k), item(k))])
    # a coverpoint and a cross of an instance
    S5 = five(fresh5())
    lg, ref = M.create(S5["log"], cg, M.ev_scope(M.K_CP, M.name(s), NOLOC, iv(1)))
    st1 = [dict(S5, log=lg)[n] for n in names5]
    h = [val(e, "name") == M.name(s), nd(e, "coverpointBin") == NBm(s), same(xmlr.RBINS.at(st1 + [ref, e], NBm(s)), WBINS.at(st1 + [ref, s], NBm(s)))]
    out.append(("a coverpoint of an instance", h, z3.And(same(xmlr.rcp(S5, cg, e)[0], w_cp(S5, cg, s)), xmlr.cpref(S5["log"], cg, e) == w_cpref(S5["log"], cg, s))))
    dom, vals = fresh("dom", BA), fresh("vals", IA)
    out += equal_folds("operands of a cross", xmlr.XE, [e, dom, vals], WE, [s, vals], M.NX(s), lambda k, _: [kth(e, "crossExpr", 1, k, M.NX(s)), ope(el(e, 1 + k), M.X(s, k)), z3.Select(dom, M.name(M.X(s, k)))])
    n, arr = w_xe(s, vals)
    lg, ref = M.create(S5["log"], cg, M.ev_cross(M.name(s), NOLOC, iv(1), n, arr))
    st1 = [dict(S5, log=lg)[c] for c in names5]
    hx = [nd(e, "crossExpr") == M.NX(s), same(xmlr.XE.at([e, dom, vals], M.NX(s)), WE.at([s, vals], M.NX(s)))]
    h = hx + [val(e, "name") == M.name(s), nd(e, "crossBin") == NBm(s), same(xmlr.RXBINS.at(st1 + [ref, e], NBm(s)), WBINS.at(st1 + [ref, s], NBm(s)))]
    out.append(("a cross of an instance", h, same(xmlr.rcr(S5, cg, e, dom, vals)[0], w_cr(S5, cg, s, vals))))
    # all coverpoints, then all crosses, of an instance
    T9 = [fresh("t_" + c, t) for c, t in LTT]
    cgt, cgi = fresh("cgt", I), fresh("cgi", I)
    def onecp(k, st):
        """the lemma above, for the state in which the k-th coverpoint is read"""
        cp, ce = M.S(s, C["COVERPOINT"], k), el(e, 2 + k)
        nm = M.name(cp)
        lg, ref = M.create(st["log"], cgt, M.ev_scope(M.K_CP, nm, NOLOC, iv(1)))
        _, has, cur = xmlr.enter(st, nm, ref)
        lg = z3.If(has, st["log"], lg)
        f = dict(log=lg, dom=cur["ddom"], cnt=cur["dcnt"], n=cur["dn"], names=cur["dnames"])
        return [kth(e, "coverpoint", 2, k, N(s, "COVERPOINT")), val(ce, "name") == nm, same(call(xmlr.RCPF, f, cgi, ce), call(WCPF, f, cgi, cp)), xmlr.cpref(lg, cgi, ce) == w_cpref(lg, cgi, cp)]
    out += equal_folds("coverpoints of an instance", xmlr.RCPS, T9 + [cgt, cgi, e], WCPS, T9 + [cgt, cgi, s], N(s, "COVERPOINT"), onecp)
    # every coverpoint of the instance is known by its name, in the instance and in the type
    p = fresh("p", I)
    known = lambda st: z3.And(*[z3.Select(st[d], M.name(M.S(s, C["COVERPOINT"], p))) for d in ("dom", "idom")])
    at = lambda i: WCPS.at(T9 + [cgt, cgi, s], i)
    k = fresh("k", I)
    out += induct("the instance's coverpoints are known by name", ([], z3.Implies(z3.And(0 <= p, p < 0), known(at(iv(0))))), ([k >= 0, z3.Implies(z3.And(0 <= p, p < k), known(at(k)))], z3.Implies(z3.And(0 <= p, p < k + 1), known(at(k + 1)))))
    rdom, ref_, idom, ival = fresh("rdom", BA), fresh("ref_", IA), fresh("idom", BA), fresh("ival", IA)
    co = 2 + N(s, "COVERPOINT")
    def onecr(k, st):
        cr, ce = M.S(s, C["CROSS"], k), el(e, co + k)
        nm = M.name(cr)
        n, arr = w_xe(cr, ref_)
        lg, ref = M.create(st["log"], cgt, M.ev_cross(nm, NOLOC, iv(1), n, arr))
        _, has, cur = xmlr.enter(st, nm, ref)
        lg = z3.If(has, st["log"], lg)
        f = dict(log=lg, dom=cur["ddom"], cnt=cur["dcnt"], n=cur["dn"], names=cur["dnames"])
        return [kth(e, "cross", co, k, N(s, "CROSS")), val(ce, "name") == nm, nd(ce, "crossExpr") == M.NX(cr), same(xmlr.XE.at([ce, rdom, ref_], M.NX(cr)), WE.at([cr, ref_], M.NX(cr))),
            same(call(xmlr.RCRF, f, cgi, ce, idom, ival), call(WCRF, f, cgi, cr, ival))]
    out += equal_folds("crosses of an instance", xmlr.RCRS, T9 + [cgt, cgi, e, rdom, ref_, idom, ival], WCRS, T9 + [cgt, cgi, s, ref_, ival], N(s, "CROSS"), onecr)
    # the instances of a covergroup; els: the elements the reader grouped
    els, L0 = fresh("els", IA), fresh("log", IA)
    def oneinst(k, st):
        src, ce = theinst(s, k), el(e, k)
        pa, wpa = xmlr.cps_args(st, cgt, ce), wcps_args(st, cgt, src)
        xa, wxa = xmlr.crs_args(st, cgt, ce), wcrs_args(st, cgt, src)
        P, X_ = N(src, "COVERPOINT"), N(src, "CROSS")
        # the lemmas above with the states of this pass (the arguments are equal terms by the first)
        return [z3.Select(els, k) == ce, val(ce, "name") == M.name(src), nd(ce, "coverpoint") == P, nd(ce, "cross") == X_,
            same(xmlr.RCPS.at(wpa[:-1] + [ce], P), WCPS.at(wpa, P)),
            same(xmlr.RCRS.at(wxa[:-3] + [ce] + [WCPS.at(wpa, P)["dom"], wxa[-2], WCPS.at(wpa, P)["idom"], wxa[-1]], X_), WCRS.at(wxa, X_))]
    out += equal_folds("instances of a covergroup", xmlr.RCG, [L0, cgt, els], WCG, [L0, cgt, s], ninst(s), oneinst)
    # grouping: every instance of a written covergroup belongs to the one type
    g = lambda i: xmlr.RGRP.at([e], i)
    nm, j = M.name(s), fresh("j", I)
    def grp(i):
        f = g(i)
        return z3.And(z3.Implies(i > 0, z3.And(f["n"] == 1, z3.Select(f["names"], iv(0)) == nm, z3.Select(f["dom"], nm), z3.Select(f["len"], nm) == i)), z3.Implies(i == 0, z3.And(f["n"] == 0, f["dom"] == KF)),
            z3.Implies(z3.And(0 <= j, j < i), z3.Select(z3.Select(f["els"], nm), j) == el(e, j)))
    out += induct("all instances written for a covergroup are read as one type's", ([], grp(iv(0))), ([0 <= k, k < ninst(s), grp(k), kth(e, "cgInstance", 0, k, ninst(s)), val(D(el(e, k), "cgId"), "cgName") == nm], grp(k + 1)))
    # a covergroup
    inst = fresh("inst", I)
    f = g(ninst(s))
    ln, ge = z3.Select(f["len"], nm), z3.Select(f["els"], nm)
    lg, ref = M.create(L0, inst, M.ev_scope(M.K_CG, nm, NOLOC, iv(1)))
    rcg = xmlr.RCG.at([lg, ref, ge], ninst(s))
    defs = xmlr.RCGF(lg, ref, ln, ge) == poptypes(xmlr.RCG.at([lg, ref, ge], ln))
    rd = xmlr.RCGS.at([L0, inst, f["names"], f["len"], f["els"]], f["n"])["log"]
    out.append(("a covergroup", [grp(ninst(s)), defs, same(rcg, WCG.at([lg, ref, s], ninst(s))), xmlr.RCGS.at([L0, inst, f["names"], f["len"], f["els"]], iv(1))["log"] == xmlr.RCGS.at([L0, inst, f["names"], f["len"], f["els"]], iv(1))["log"]], rd == w_cgs(L0, inst, s)))
    # the covergroups of a scope, the scopes of the database
    out += equal_folds("covergroups of a scope", xmlr.RICG, [L0, e, inst], WICG, [L0, s, inst], N(s, "COVERGROUP"),
        lambda k, st: [kth(e, "covergroupCoverage", 1, k, N(s, "COVERGROUP")), xmlr.RCGSF(st["log"], el(e, 1 + k), inst) == WCGSF(st["log"], inst, M.S(s, C["COVERGROUP"], k))])
    rs = {n: fresh("r_" + n, t) for n, t in RS}
    ws, wr = w_inst_scope(rs, db, s)
    out.append(("an instance scope", [val(e, "name") == M.name(s), z3.Not(XH(e, L("moduleName"))), nd(e, "covergroupCoverage") == N(s, "COVERGROUP"),
        xmlr.RICG.at([ws["log"], e, wr], N(s, "COVERGROUP"))["log"] == WICG.at([ws["log"], s, wr], N(s, "COVERGROUP"))["log"]], same(xmlr.instance(rs, db, e), w_instance(rs, db, s))))
    so = xmlw.filetable(s)["n"] + nhist(s)
    out += equal_folds("all instance scopes of the database", xmlr.RALL, list(rs.values()) + [db, e], WALL, list(rs.values()) + [db, s], N(s, "INSTANCE"),
        lambda k, st: [kth(e, "instanceCoverages", so, k, N(s, "INSTANCE")), z3.And(*[xmlr.RINST[n](*([st[c] for c in RSN] + [db, el(e, so + k)])) == WINST[n](*([st[c] for c in RSN] + [db, M.S(s, C["INSTANCE"], k)])) for n in RSN])])
    return out

class ReadContent(ReadView):
    label = "reading the written document creates the database's content"
    def lemmas(self, ex):
        return log_lemmas()
CONTRACTS += [ReadContent()]
