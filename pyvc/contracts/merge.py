"""Contracts of ucis.merge.db_merger (C01-C04).

Every function's effect on the destination is a closed term over its arguments: the log of creation calls
computed by the specification folds below. The lemmas state what these folds mean."""
from .util import *

MOD = "ucis.merge.db_merger:DbMerger."
BA, IA, AA = A(B), A(I), A(A(I))
K0 = z3.K(I, iv(0))
KF = z3.K(I, z3.BoolVal(False))

# ---- bins of the source scopes arr[0..n) of kind m, combined per name in order of first appearance
def _bins_step(a, ix, s):
    it = M.BI(z3.Select(a[0], ix[0]), a[1], ix[1])
    x = M.bname(it)
    has = z3.Select(s["dom"], x)
    return dict(dom=z3.Store(s["dom"], x, z3.BoolVal(True)),
        cnt=z3.Store(s["cnt"], x, z3.If(has, z3.Select(s["cnt"], x), iv(0)) + M.bdata(it)),
        atl=z3.If(has, s["atl"], z3.Store(s["atl"], x, M.batl(it))),
        n=z3.If(has, s["n"], s["n"] + 1), names=z3.If(has, s["names"], z3.Store(s["names"], s["n"], x)))
BINS = Fold("bins", [("arr", IA), ("m", I)], [("dom", BA), ("cnt", IA), ("atl", IA), ("n", I), ("names", IA)],
    lambda a: dict(dom=KF, cnt=K0, atl=K0, n=iv(0), names=K0), _bins_step, depth=2, inner=lambda a, i: M.NB(z3.Select(a[0], i), a[1]))

# ---- child scopes of kind m of the scopes arr[0..n), grouped by name
def _grp_step(a, ix, s):
    x = M.S(z3.Select(a[0], ix[0]), a[1], ix[1])
    y = M.name(x)
    has = z3.Select(s["dom"], y)
    l0 = z3.If(has, z3.Select(s["len"], y), iv(0))
    e0 = z3.If(has, z3.Select(s["els"], y), K0)
    return dict(dom=z3.Store(s["dom"], y, z3.BoolVal(True)), len=z3.Store(s["len"], y, l0 + 1), els=z3.Store(s["els"], y, z3.Store(e0, l0, x)),
        n=z3.If(has, s["n"], s["n"] + 1), names=z3.If(has, s["names"], z3.Store(s["names"], s["n"], y)))
GRP = Fold("grp", [("arr", IA), ("m", I)], [("dom", BA), ("len", IA), ("els", AA), ("n", I), ("names", IA)],
    lambda a: dict(dom=KF, len=K0, els=z3.K(I, K0), n=iv(0), names=K0), _grp_step, depth=2, inner=lambda a, i: M.NS(z3.Select(a[0], i), a[1]))

# ---- creation of the combined bins
MKBINS = Fold("mkbins", [("log", IA), ("dst", I), ("m", I), ("names", IA), ("cnt", IA), ("atl", IA)], [("log", IA)], lambda a: dict(log=a[0]),
    lambda a, ix, s: dict(log=M.append(s["log"], a[1], M.ev_bin(z3.Select(a[3], ix[0]), a[2], z3.Select(a[5], z3.Select(a[3], ix[0])), z3.Select(a[4], z3.Select(a[3], ix[0]))))))

KINDS = ("CVGBIN", "IGNOREBIN", "ILLEGALBIN")
C = {}
def consts(ex):
    for k in KINDS:
        C[k] = iv(enum(ex, CT, k))
    for k in ("INSTANCE", "COVERGROUP", "COVERINSTANCE", "COVERPOINT", "CROSS", "DU_MODULE"):
        C[k] = iv(enum(ex, ST, k))

def mkbins_args(log, dst, arr, n, k):
    s = BINS.at([arr, C[k]], n, iv(0))
    return [log, dst, C[k], s["names"], s["cnt"], s["atl"]], s["n"]

BINSF = z3.Function("merged_bins", IA, I, IA, I, IA)        # log after merging the bins of arr[0..n) into dst
def def_bins(log, dst, arr, n):
    for k in KINDS:
        a, t = mkbins_args(log, dst, arr, n, k)
        log = MKBINS.at(a, t)["log"]
    return log

def first(els, nm):
    return z3.Select(z3.Select(els, nm), iv(0))
def locof(t):
    return M.locc(M.noloc(t), M.loc(t))

# ---- coverpoints
def _cps_step(a, ix, s):
    log0, dst, names, ln, els = a
    nm = z3.Select(names, ix[0])
    f = first(els, nm)
    lg, ref = M.create(s["log"], dst, M.ev_scope(M.K_CP, M.name(f), locof(f), M.wt(f)))
    has = z3.Select(s["dom"], nm)
    return dict(log=BINSF(lg, ref, z3.Select(els, nm), z3.Select(ln, nm)), dom=z3.Store(s["dom"], nm, z3.BoolVal(True)), val=z3.Store(s["val"], nm, ref),
        klen=z3.If(has, s["klen"], s["klen"] + 1), karr=z3.If(has, s["karr"], z3.Store(s["karr"], s["klen"], nm)))
GARGS = [("log", IA), ("dst", I), ("names", IA), ("len", IA), ("els", AA)]
CPS = Fold("cps", GARGS, [("log", IA), ("dom", BA), ("val", IA), ("klen", I), ("karr", IA)],
    lambda a: dict(log=a[0], dom=KF, val=K0, klen=iv(0), karr=K0), _cps_step)
CPSF = {c: z3.Function("merged_cps." + c, IA, I, IA, I, srt) for c, srt in CPS.comps}

def gargs(log, dst, arr, n, kind):
    g = GRP.at([arr, C[kind]], n, iv(0))
    return [log, dst, g["names"], g["len"], g["els"]], g["n"]

# ---- crosses
XC = Fold("xc", [("cr", I), ("val", IA)], [("n", I), ("arr", IA)], lambda a: dict(n=iv(0), arr=K0),
    lambda a, ix, s: dict(n=s["n"] + 1, arr=z3.Store(s["arr"], s["n"], z3.Select(a[1], M.name(M.X(a[0], ix[0]))))))
def _crs_step(a, ix, s):
    log0, dst, names, ln, els, dom, val = a
    nm = z3.Select(names, ix[0])
    f = first(els, nm)
    x = XC.at([f, val], M.NX(f))
    lg, ref = M.create(s["log"], dst, M.ev_cross(nm, locof(f), M.wt(f), x["n"], x["arr"]))
    return dict(log=BINSF(lg, ref, z3.Select(els, nm), z3.Select(ln, nm)))
CRS = Fold("crs", GARGS + [("dom", BA), ("val", IA)], [("log", IA)], lambda a: dict(log=a[0]), _crs_step)
CRSF = z3.Function("merged_crs", IA, I, BA, IA, IA, I, IA)

def cp_cr(log, dst, arr, n):
    """coverpoints, then crosses over them"""
    s = {c: CPSF[c](log, dst, arr, n) for c in CPSF}
    return CRSF(s["log"], dst, s["dom"], s["val"], arr, n)

# ---- covergroup instances
def _ins_step(a, ix, s):
    log0, dst, names, ln, els = a
    nm = z3.Select(names, ix[0])
    f = first(els, nm)
    lg, ref = M.create(s["log"], dst, M.ev_scope(M.K_CI, nm, locof(f), M.wt(f)))
    return dict(log=cp_cr(lg, ref, z3.Select(els, nm), z3.Select(ln, nm)))
INS = Fold("ins", GARGS, [("log", IA)], lambda a: dict(log=a[0]), _ins_step)
INSF = z3.Function("merged_insts", IA, I, IA, I, IA)
CGF = z3.Function("merged_cg", IA, I, IA, I, IA)

# ---- covergroups
def _cgs_step(a, ix, s):
    log0, dst, names, ln, els = a
    nm = z3.Select(names, ix[0])
    f = first(els, nm)
    lg, ref = M.create(s["log"], dst, M.ev_scope(M.K_CG, M.name(f), locof(f), M.wt(f)))
    return dict(log=CGF(lg, ref, z3.Select(els, nm), z3.Select(ln, nm)))
CGS = Fold("cgs", GARGS, [("log", IA)], lambda a: dict(log=a[0]), _cgs_step)
CGSF = z3.Function("merged_cgs", IA, I, IA, I, IA)

# ---- instances
def _top_step(a, ix, s):
    log0, dst, names, ln, els = a
    nm = z3.Select(names, ix[0])
    f = first(els, nm)
    lg, d = M.create(s["log"], dst, M.ev_du(M.name(M.du(f)), C["DU_MODULE"]))
    lg, ref = M.create(lg, dst, M.ev_inst(M.name(f), C["INSTANCE"], d))
    return dict(log=CGSF(lg, ref, z3.Select(els, nm), z3.Select(ln, nm)))
TOP = Fold("top", GARGS, [("log", IA)], lambda a: dict(log=a[0]), _top_step)

class MergeContract(Contract):
    """common part: self, dst object, list of source scopes"""
    props = ("C01", "C02", "C03", "C04")
    kind = None
    fold = None
    fn = None
    needs = ()
    def setup(self, ex, st):
        consts(ex)
        L, dst, n, arr = fresh("LOG", IA), fresh("dst", I), fresh("n", I), fresh("srcs", IA)
        st.heap["LOG"] = L
        st.assume(n >= 0)
        ex.ctx.update(L=L, dst=dst, n=n, arr=arr)
        me = ex.construct(st, cls(ex, "ucis.merge.db_merger:DbMerger"), [], {}, None)
        return [me, Ref("dst", dst)] + self.extra(ex, st) + [ex.new_cell(st, ListCell(SRef("src"), n, [arr]))]
    def extra(self, ex, st):
        return []
    def folds(self, ctx):
        return [(GRP, [ctx["arr"], C[self.kind]], ctx["n"])] + self.inner(ctx)
    def inner(self, ctx):
        a, t = gargs(ctx["L"], ctx["dst"], ctx["arr"], ctx["n"], self.kind)
        return [(self.fold, a, t)]
    def result(self, ctx):
        a, t = gargs(ctx["L"], ctx["dst"], ctx["arr"], ctx["n"], self.kind)
        return self.fold.at(a, t)["log"]
    def post(self, ex, ctx, st, ret):
        return [("content created in the destination", st.heap["LOG"] == self.result(ctx))]
    def listarg(self, ex, st, v):
        c = ex.cell(st, v.id) if isinstance(v, Obj) else None
        if isinstance(c, FixCell):
            c = fix_to_list(ex, st, c)
        if not (isinstance(c, ListCell) and c.elem == SRef("src")):
            raise Unsupported("argument of %s is not a list of source scopes" % self.target)
        return c.arrs[0], c.n
    def dstarg(self, v):
        if not (isinstance(v, Ref) and v.model == "dst"):
            raise Unsupported("argument of %s is not a destination object" % self.target)
        return v.t
    def apply(self, ex, st, args, node):
        if self.fn is None:
            return None
        arr, n = self.listarg(ex, st, args[-1])
        st.heap["LOG"] = self.fn(st.heap["LOG"], self.dstarg(args[1]), arr, n)
        return NONE

# ---------------------------------------------------------------- what the folds mean
# total count of the bins named x
SUMN = Fold("sumn", [("arr", IA), ("m", I), ("x", I)], [("v", I), ("any", B), ("first", I)], lambda a: dict(v=iv(0), any=z3.BoolVal(False), first=iv(0)),
    lambda a, ix, s: (lambda it: dict(v=s["v"] + z3.If(M.bname(it) == a[2], M.bdata(it), iv(0)), any=z3.Or(s["any"], M.bname(it) == a[2]),
        first=z3.If(z3.And(z3.Not(s["any"]), M.bname(it) == a[2]), M.batl(it), s["first"])))(M.BI(z3.Select(a[0], ix[0]), a[1], ix[1])),
    depth=2, inner=lambda a, i: M.NB(z3.Select(a[0], i), a[1]))
# the scopes of kind m named x, in order
SUBN = Fold("subn", [("arr", IA), ("m", I), ("x", I)], [("n", I), ("els", IA)], lambda a: dict(n=iv(0), els=K0),
    lambda a, ix, s: (lambda c: dict(n=z3.If(M.name(c) == a[2], s["n"] + 1, s["n"]), els=z3.If(M.name(c) == a[2], z3.Store(s["els"], s["n"], c), s["els"])))(M.S(z3.Select(a[0], ix[0]), a[1], ix[1])),
    depth=2, inner=lambda a, i: M.NS(z3.Select(a[0], i), a[1]))
# position of the first item named x in the whole sequence; number of items so far
FPOS = Fold("fpos", [("arr", IA), ("m", I), ("x", I)], [("c", I), ("any", B), ("p", I)], lambda a: dict(c=iv(0), any=z3.BoolVal(False), p=iv(-1)),
    lambda a, ix, s: (lambda it: dict(c=s["c"] + 1, any=z3.Or(s["any"], M.bname(it) == a[2]), p=z3.If(z3.And(z3.Not(s["any"]), M.bname(it) == a[2]), s["c"], s["p"])))(M.BI(z3.Select(a[0], ix[0]), a[1], ix[1])),
    depth=2, inner=lambda a, i: M.NB(z3.Select(a[0], i), a[1]))
GPOS = Fold("gpos", [("arr", IA), ("m", I), ("x", I)], [("c", I), ("any", B), ("p", I)], lambda a: dict(c=iv(0), any=z3.BoolVal(False), p=iv(-1)),
    lambda a, ix, s: (lambda it: dict(c=s["c"] + 1, any=z3.Or(s["any"], M.name(it) == a[2]), p=z3.If(z3.And(z3.Not(s["any"]), M.name(it) == a[2]), s["c"], s["p"])))(M.S(z3.Select(a[0], ix[0]), a[1], ix[1])),
    depth=2, inner=lambda a, i: M.NS(z3.Select(a[0], i), a[1]))
# sum of an arbitrary measure g over a list of scopes
G = z3.Function("measure", I, I)
SUMG = Fold("sumg", [("arr", IA)], [("v", I)], lambda a: dict(v=iv(0)), lambda a, ix, s: dict(v=s["v"] + G(z3.Select(a[0], ix[0]))))
# ... and over all child scopes named x
SUMGN = Fold("sumgn", [("arr", IA), ("m", I), ("x", I)], [("v", I)], lambda a: dict(v=iv(0)),
    lambda a, ix, s: (lambda c: dict(v=s["v"] + z3.If(M.name(c) == a[2], G(c), iv(0))))(M.S(z3.Select(a[0], ix[0]), a[1], ix[1])),
    depth=2, inner=lambda a, i: M.NS(z3.Select(a[0], i), a[1]))

def lemmas_bins():
    arr, m, x, a, b = fresh("arr", IA), fresh("m", I), fresh("x", I), fresh("a", I), fresh("b", I)
    nb = lambda i: M.NB(z3.Select(arr, i), m)
    bn = lambda i, j: BINS.at([arr, m], i, j)
    sm = lambda i, j: SUMN.at([arr, m, x], i, j)
    def inv(i, j):
        f, s = bn(i, j), sm(i, j)
        return z3.And(z3.Select(f["dom"], x) == s["any"], z3.Implies(s["any"], z3.And(z3.Select(f["cnt"], x) == s["v"], z3.Select(f["atl"], x) == s["first"])), z3.Implies(z3.Not(s["any"]), s["v"] == 0))
    out = induct2("a merged count is the sum over all source bins of that name, its threshold that of the first", inv, nb)
    out += order_lemmas("bin", bn, lambda i, j, y: FPOS.at([arr, m, y], i, j), nb, a, b)
    return out

def order_lemmas(what, fold, pos, nb, a, b):
    """names are distinct, exactly the occurring ones, in order of first occurrence"""
    y = fresh("y", I)
    def nm(i, j, k):
        return z3.Select(fold(i, j)["names"], k)
    # domain <-> occurrence, for an arbitrary name
    def occ(i, j, y):
        f, p = fold(i, j), pos(i, j, y)
        return z3.And(z3.Select(f["dom"], y) == p["any"], z3.Implies(p["any"], z3.And(p["p"] >= 0, p["p"] < p["c"])), f["n"] >= 0, p["c"] >= 0)
    out = induct2("%s names: recorded exactly when they occur" % what, lambda i, j: occ(i, j, y), nb)
    # each recorded name is in the domain
    def mem(i, j, k):
        f = fold(i, j)
        return z3.Implies(z3.And(0 <= k, k < f["n"]), z3.Select(f["dom"], nm(i, j, k)))
    i, j = fresh("i", I), fresh("j", I)
    pre = [i >= 0, j >= 0, j < nb(i)]
    cur = None
    out += induct2("%s names: every listed name occurs" % what, lambda i, j: z3.And(fold(i, j)["n"] >= 0, mem(i, j, a)), nb)
    # order of first occurrence; strictly increasing positions also give distinctness.  The current item's name is the only new one.
    def inc(i, j):
        f = fold(i, j)
        return z3.Implies(z3.And(0 <= a, a < b, b < f["n"]), pos(i, j, nm(i, j, a))["p"] < pos(i, j, nm(i, j, b))["p"])
    def ih(i, j):
        # instances of the lemmas above for the names at positions a and b
        return z3.And(occ(i, j, nm(i, j, a)), occ(i, j, nm(i, j, b)), mem(i, j, a), mem(i, j, b), occ(i, j, nm(i, j + 1, b)), occ(i, j, nm(i, j + 1, a)))
    same_c = lambda i, j, u, v: pos(i, j, u)["c"] == pos(i, j, v)["c"]
    u, v = fresh("u", I), fresh("v", I)
    out += induct2("%s names: positions are counted alike" % what, lambda i, j: same_c(i, j, u, v), nb)
    n2 = "%s names: listed in order of first occurrence, so each once" % what
    out += [(n2 + " [base]", [fold(iv(0), iv(0))["n"] == 0], inc(iv(0), iv(0))),
        (n2 + " [inner step]", pre + [ih(i, j), inc(i, j), same_c(i, j, nm(i, j + 1, a), nm(i, j + 1, b)), fold(i, j)["n"] >= 0], inc(i, j + 1)),
        (n2 + " [outer step]", [i >= 0, inc(i, nb(i))], inc(i + 1, iv(0)))]
    return out

def lemmas_groups():
    arr, m, x, a, b = fresh("arr", IA), fresh("m", I), fresh("x", I), fresh("a", I), fresh("b", I)
    ns = lambda i: M.NS(z3.Select(arr, i), m)
    gr = lambda i, j: GRP.at([arr, m], i, j)
    sb = lambda i, j: SUBN.at([arr, m, x], i, j)
    def inv(i, j):
        f, s = gr(i, j), sb(i, j)
        d = z3.Select(f["dom"], x)
        return z3.And(s["n"] >= 0, d == (s["n"] > 0), z3.Implies(d, z3.And(z3.Select(f["len"], x) == s["n"], z3.Select(f["els"], x) == s["els"])), z3.Implies(z3.Not(d), s["els"] == K0))
    out = induct2("a group holds exactly the scopes of its name, in order", inv, ns)
    out += order_lemmas("scope", gr, lambda i, j, y: GPOS.at([arr, m, y], i, j), ns, a, b)
    # sums over a list depend on its elements only
    k, v, i, arr2 = fresh("k", I), fresh("v", I), fresh("i", I), fresh("arr2", IA)
    sg = lambda r, t: SUMG.at([r], t)["v"]
    out += induct("a sum ignores what is stored beyond its range", ([], sg(z3.Store(arr2, k, v), iv(0)) == sg(arr2, iv(0))),
        ([i >= 0, i < k, sg(z3.Store(arr2, k, v), i) == sg(arr2, i)], sg(z3.Store(arr2, k, v), i + 1) == sg(arr2, i + 1)))
    # nothing is lost or counted twice by grouping: for any measure g, summing over the group equals summing over all scopes of the name
    def gsum(i, j):
        s = sb(i, j)
        return z3.And(s["n"] >= 0, sg(s["els"], s["n"]) == SUMGN.at([arr, m, x], i, j)["v"])
    ii, jj = fresh("i", I), fresh("j", I)
    c = M.S(z3.Select(arr, ii), m, jj)
    s0 = sb(ii, jj)
    frame = sg(z3.Store(s0["els"], s0["n"], c), s0["n"]) == sg(s0["els"], s0["n"])
    n1 = "grouping neither loses nor repeats anything"
    out += [(n1 + " [base]", [sg(sb(iv(0), iv(0))["els"], iv(0)) == 0], gsum(iv(0), iv(0))), (n1 + " [inner step]", [ii >= 0, jj >= 0, jj < ns(ii), gsum(ii, jj), frame, sg(z3.Store(s0["els"], s0["n"], c), s0["n"] + 1) == sg(z3.Store(s0["els"], s0["n"], c), s0["n"]) + G(c)], gsum(ii, jj + 1)),
        (n1 + " [outer step]", [ii >= 0, gsum(ii, ns(ii))], gsum(ii + 1, iv(0)))]
    return out

def lemmas_order():
    """sums over the source list are insensitive to order and grouping"""
    arr, i, k, n = fresh("arr", IA), fresh("i", I), fresh("k", I), fresh("n", I)
    sg = lambda r, t: SUMG.at([r], t)["v"]
    u, w = z3.Select(arr, k), z3.Select(arr, k + 1)
    sw = z3.Store(z3.Store(arr, k, w), k + 1, u)
    out = induct("before two exchanged sources nothing changes", ([], sg(sw, iv(0)) == sg(arr, iv(0))), ([i >= 0, i < k, sg(sw, i) == sg(arr, i)], sg(sw, i + 1) == sg(arr, i + 1)))
    out.append(("exchanging two neighbouring sources keeps every sum", [k >= 0, sg(sw, k) == sg(arr, k), sg(sw, k + 1 + 1) == sg(sw, k + 1) + G(z3.Select(sw, k + 1)), sg(arr, k + 1 + 1) == sg(arr, k + 1) + G(w)], sg(sw, k + 1 + 1) == sg(arr, k + 1 + 1)))
    out += induct("behind two exchanged sources nothing changes", ([k >= 0, sg(sw, k + 2) == sg(arr, k + 2)], sg(sw, k + 2) == sg(arr, k + 2)), ([k >= 0, i >= k + 2, sg(sw, i) == sg(arr, i)], sg(sw, i + 1) == sg(arr, i + 1)))
    # partial merges: the sum over a concatenation is the sum of the sums
    l, r = fresh("l", IA), fresh("r", IA)
    ln = fresh("ln", I)
    out += induct("merging partial merges adds up", ([sg(arr, ln) == sg(l, ln)], sg(arr, ln + 0) == sg(l, ln) + sg(r, iv(0))),
        ([i >= 0, z3.Select(arr, ln + i) == z3.Select(r, i), sg(arr, ln + i) == sg(l, ln) + sg(r, i), sg(arr, ln + i + 1) == sg(arr, ln + i) + G(z3.Select(arr, ln + i))], sg(arr, ln + i + 1) == sg(l, ln) + sg(r, i + 1)))
    return out

class CoverpointBins(MergeContract):
    target = MOD + "_merge_coverpoint_bins"
    fn = BINSF
    def folds(self, ctx):
        out, L = [], ctx["L"]
        for k in KINDS:
            a, t = mkbins_args(L, ctx["dst"], ctx["arr"], ctx["n"], k)
            out += [(BINS, [ctx["arr"], C[k]], ctx["n"]), (MKBINS, a, t)]
            L = MKBINS.at(a, t)["log"]
        return out
    def result(self, ctx):
        return def_bins(ctx["L"], ctx["dst"], ctx["arr"], ctx["n"])
    def lemmas(self, ex):
        return lemmas_bins()

class CrossBins(CoverpointBins):
    target = MOD + "_merge_cross"
    def lemmas(self, ex):
        return []

class Coverpoints(MergeContract):
    target = MOD + "_merge_coverpoints"
    kind, fold = "COVERPOINT", CPS
    needs = (MOD + "_merge_coverpoint_bins",)
    def post(self, ex, ctx, st, ret):
        a, t = gargs(ctx["L"], ctx["dst"], ctx["arr"], ctx["n"], self.kind)
        s = self.fold.at(a, t)
        c = ex.cell(st, ret.id) if isinstance(ret, Obj) else None
        if isinstance(c, DictCell) and c.vshape is None:
            raise Unsupported("untyped result dictionary")
        if not (isinstance(c, DictCell) and c.vshape == SRef("dst")):
            raise Unsupported("result of _merge_coverpoints is not a dictionary of destination coverpoints")
        return [("content created in the destination", st.heap["LOG"] == s["log"]), ("keys of the coverpoint map", c.dom == s["dom"]), ("values of the coverpoint map", c.varrs[0] == s["val"])]
    def apply(self, ex, st, args, node):
        arr, n = self.listarg(ex, st, args[-1])
        L, d = st.heap["LOG"], self.dstarg(args[1])
        s = {c: CPSF[c](L, d, arr, n) for c in CPSF}
        st.heap["LOG"] = s["log"]
        return ex.new_cell(st, DictCell(SP("str"), SRef("dst"), s["dom"], [s["val"]], s["klen"], s["karr"], 0))

class Crosses(MergeContract):
    target = MOD + "_merge_crosses"
    kind, fold = "CROSS", CRS
    needs = (MOD + "_merge_cross",)
    def extra(self, ex, st):
        dom, val, klen, karr = fresh("cpdom", BA), fresh("cpval", IA), fresh("klen", I), fresh("karr", IA)
        ex.ctx.update(dom=dom, val=val)
        return [ex.new_cell(st, DictCell(SP("str"), SRef("dst"), dom, [val], klen, karr, 0))]
    def args(self, ctx):
        a, t = gargs(ctx["L"], ctx["dst"], ctx["arr"], ctx["n"], self.kind)
        return a + [ctx["dom"], ctx["val"]], t
    def inner(self, ctx):
        a, t = self.args(ctx)
        return [(CRS, a, t)]
    def terms(self, ctx, ks):
        out = {}
        g = GRP.at([ctx["arr"], C["CROSS"]], ctx["n"], iv(0))
        for p in range(1, len(ks)):
            f = first(g["els"], z3.Select(g["names"], ks[p - 1]))
            for cn, t in XC.at([f, ctx["val"]], ks[p]).items():
                out[("xc", cn, p)] = t
        return out
    def result(self, ctx):
        a, t = self.args(ctx)
        return CRS.at(a, t)["log"]
    def raises(self, ex, ctx, st, exc):
        # rejection is allowed exactly for a crossed coverpoint that the covergroup does not have
        if exc not in ("Exception", "KeyError", "ValueError"):
            return None
        g = GRP.at([ctx["arr"], C["CROSS"]], ctx["n"], iv(0))
        alts = []
        ks = ex.raise_ks
        for i in range(len(ks)):
            for j in range(i + 1, len(ks)):
                f = first(g["els"], z3.Select(g["names"], ks[i]))
                alts.append(z3.And(ks[j] >= 0, ks[j] < M.NX(f), z3.Not(z3.Select(ctx["dom"], M.name(M.X(f, ks[j]))))))
        return z3.Or(*alts) if alts else None
    def apply(self, ex, st, args, node):
        arr, n = self.listarg(ex, st, args[-1])
        d = ex.cell(st, args[2].id) if isinstance(args[2], Obj) else None
        if not (isinstance(d, DictCell) and d.vshape == SRef("dst")):
            raise Unsupported("coverpoint map")
        rej = z3.Function("cross_rejected", BA, IA, I, B)(d.dom, arr, n)
        ex.may_raise(st, rej, "CrossRejected", node)
        st.heap["LOG"] = CRSF(st.heap["LOG"], self.dstarg(args[1]), d.dom, d.varrs[0], arr, n)
        return NONE

class Rejecting(MergeContract):
    """callers of _merge_crosses pass its rejection on"""
    def raises(self, ex, ctx, st, exc):
        return z3.BoolVal(True) if exc == "CrossRejected" else None

class Coverinsts(Rejecting):
    target = MOD + "_merge_coverinsts"
    kind, fold, fn = "COVERINSTANCE", INS, INSF
    needs = (MOD + "_merge_coverpoints", MOD + "_merge_crosses")

class OneCovergroup(Rejecting):
    target = MOD + "_merge_covergroup"
    fn = CGF
    needs = (MOD + "_merge_coverpoints", MOD + "_merge_crosses", MOD + "_merge_coverinsts")
    def folds(self, ctx):
        return []
    def result(self, ctx):
        return INSF(cp_cr(ctx["L"], ctx["dst"], ctx["arr"], ctx["n"]), ctx["dst"], ctx["arr"], ctx["n"])

class Covergroups(Rejecting):
    target = MOD + "_merge_covergroups"
    kind, fold, fn = "COVERGROUP", CGS, CGSF
    needs = (MOD + "_merge_covergroup",)

class Merge(Rejecting):
    target = MOD + "merge"
    kind, fold = "INSTANCE", TOP
    needs = (MOD + "_merge_covergroups",)
    def apply(self, ex, st, args, node):
        if len(args) == 3 and isinstance(args[1], Ref) and args[1].model == "cdb":
            return M.MODELS["cdb"].merge(ex, st, args[1], args[2], node)
        return None
    def lemmas(self, ex):
        return lemmas_groups() + lemmas_order()

CONTRACTS = [CoverpointBins(), CrossBins(), Coverpoints(), Crosses(), Coverinsts(), OneCovergroup(), Covergroups(), Merge()]
