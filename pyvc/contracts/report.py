"""Contracts of ucis.report.coverage_report_builder (C05, C06, C07)."""
from .util import *

MOD = "ucis.report.coverage_report_builder:CoverageReportBuilder."
RPT = "ucis.report.coverage_report:CoverageReport"

# number of the first i ordinary bins of scope t (mask m) that reached their threshold
HIT = Fold("hits", [("t", I), ("m", I)], [("n", I)], lambda a: dict(n=iv(0)),
    lambda a, ix, s: dict(n=s["n"] + z3.If(M.bdata(M.BI(a[0], a[1], ix[0])) >= M.batl(M.BI(a[0], a[1], ix[0])), iv(1), iv(0))))

def pct(t, m):
    h, n = HIT.at([t, m], M.NB(t, m))["n"], M.NB(t, m)
    return z3.If(n > 0, 100 * z3.ToReal(h) / z3.ToReal(n), z3.RealVal(0))

class BinsContract(Contract):
    kinds = (("bins", "CVGBIN"),)
    def setup(self, ex, st):
        t = fresh("t", I)
        self.ctx = ex.ctx
        ex.ctx.update(t=t, m={k: iv(enum(ex, CT, k)) for _, k in self.kinds})
        b = self.builder(ex, st)
        return [b, Ref("src", t)]
    def builder(self, ex, st):
        return ex.new_cell(st, RecCell(cls(ex, "ucis.report.coverage_report_builder:CoverageReportBuilder"), {}))
    def folds(self, ctx):
        m = ctx["m"]["CVGBIN"]
        return [(HIT, [ctx["t"], m], M.NB(ctx["t"], m))]
    def elems(self, ctx, ks):
        out = {}
        t = ctx["t"]
        for k, m in ctx["m"].items():
            for lab, f in (("name", M.bname), ("data", M.bdata), ("atl", M.batl)):
                out[(k, lab)] = lambda j, f=f, m=m: f(M.BI(t, m, j))
        return out
    def post(self, ex, ctx, st, ret):
        t = ctx["t"]
        g = [("name", term(ex, st, field(ex, st, ret, "name"), "str") == M.name(t)),
             ("weight", term(ex, st, field(ex, st, ret, "weight"), "int") == M.wt(t)),
             ("coverage is 100*hit/total, 0 without bins", term(ex, st, field(ex, st, ret, "coverage"), "real") == pct(t, ctx["m"]["CVGBIN"]))]
        for f, k in self.kinds:
            m = ctx["m"][k]
            g += forall_elems(ex, st, field(ex, st, ret, f), M.NB(t, m), [
                ("name", sattr(ex, st, "name", "str"), lambda j, m=m: M.bname(M.BI(t, m, j))),
                ("goal", sattr(ex, st, "goal", "int"), lambda j, m=m: M.batl(M.BI(t, m, j))),
                ("count", sattr(ex, st, "count", "int"), lambda j, m=m: M.bdata(M.BI(t, m, j)))], f)
        return g

class BuildCross(BinsContract):
    target = MOD + "build_cross"
    props = ("C05", "C06", "C07")
    def apply(self, ex, st, args, node):
        if isinstance(args[1], Ref) and args[1].model == "src":
            return Ref("rep_cr", args[1].t)

class BuildCoverpoint(BinsContract):
    target = MOD + "build_coverpoint"
    props = ("C05", "C06", "C07")
    kinds = (("bins", "CVGBIN"), ("ignore_bins", "IGNOREBIN"), ("illegal_bins", "ILLEGALBIN"))
    def apply(self, ex, st, args, node):
        if isinstance(args[1], Ref) and args[1].model == "src":
            return Ref("rep_cp", args[1].t)
    def lemmas(self, ex):
        t, m, i = fresh("t", I), fresh("m", I), fresh("i", I)
        h = lambda x: HIT.at([t, m], x)["n"]
        out = induct("0 <= hits <= bins", ([], z3.And(h(iv(0)) >= 0, h(iv(0)) <= 0)),
                     ([i >= 0, h(i) >= 0, h(i) <= i], z3.And(h(i + 1) >= 0, h(i + 1) <= i + 1)))
        n = M.NB(t, m)
        out.append(("a coverpoint or cross percentage lies in 0..100", [h(n) >= 0, h(n) <= n], z3.And(pct(t, m) >= 0, pct(t, m) <= 100)))
        return out

# a report item built from source scope t: its identity stands for t, its attributes are what the contracts above promise
class RepItem(M.Model):
    def __init__(self, mask):
        self.mask = mask
    def cov(self, t):
        return pct(t, iv(self.mask))
    def getattr(self, ex, st, o, nm, node):
        if nm in ("name", "instname"):
            return vstr(M.name(o.t))
        if nm == "weight":
            return vint(M.wt(o.t))
        if nm == "coverage":
            return P("real", cov_of[o.model](o.t))
        k = ITEM_LISTS[o.model].get(nm)
        if k is not None:
            mask, elem, count, get = k(ex)
            name = "%s:%d" % (elem, mask)
            M.MODELS.setdefault(name, ItemList(mask, elem, count, get))
            return Ref(name, o.t)
        raise Unsupported("report attribute %s" % nm)

class ItemList(M.Model):
    """a list of an item that a contract above promises: one element per bin or sub-scope of the source scope"""
    def __init__(self, mask, elem, count, get):
        self.mask, self.elem, self.count, self.get = iv(mask), elem, count, get
    def iterate(self, ex, st, o):
        return SeqV(self.count(o.t, self.mask), lambda x, i: Ref(self.elem, self.get(o.t, self.mask, i)))
    def truth(self, ex, st, o):
        return self.count(o.t, self.mask) > 0
    def length(self, ex, st, o, node):
        return vint(self.count(o.t, self.mask))
class BinItem(M.Model):
    def getattr(self, ex, st, o, nm, node):
        if nm == "name":
            return vstr(M.bname(o.t))
        if nm == "goal":
            return vint(M.batl(o.t))
        if nm == "count":
            return vint(M.bdata(o.t))
        if nm == "hit":
            return vbool(M.bdata(o.t) >= M.batl(o.t))
        raise Unsupported("report attribute %s of a bin" % nm)
M.MODELS["rep_bn"] = BinItem()
def _bl(k):
    return lambda ex: (enum(ex, CT, k), "rep_bn", M.NB, M.BI)
def _sl(k, elem):
    return lambda ex: (enum(ex, ST, k), elem, M.NS, M.S)
ITEM_LISTS = dict(rep_cp=dict(bins=_bl("CVGBIN"), ignore_bins=_bl("IGNOREBIN"), illegal_bins=_bl("ILLEGALBIN")), rep_cr=dict(bins=_bl("CVGBIN")),
    rep_cg=dict(coverpoints=_sl("COVERPOINT", "rep_cp"), crosses=_sl("CROSS", "rep_cr"), covergroups=_sl("COVERINSTANCE", "rep_cg")))

# opaque percentages, tied to their definition by the unfolding trigger
CP_COV, CR_COV, CG_COV = (z3.Function(n, I, R) for n in ("cov_coverpoint", "cov_cross", "cov_covergroup"))
CVG = 1          # CoverTypeT.CVGBIN; checked against the code by MaskCheck below
for _f in (CP_COV, CR_COV):
    smt.trigger(_f, lambda app, ch: [app == pct(ch[0], iv(CVG))])
cov_of = dict(rep_cp=CP_COV, rep_cr=CR_COV, rep_cg=CG_COV)
for _k in cov_of:
    M.MODELS[_k] = RepItem(CVG)

def wsum(name, cov, src):
    """fold of (sum of coverage*weight, sum of weights) over src(args, i)"""
    return Fold(name, [("t", I), ("m", I)], [("acc", R), ("w", I)], lambda a: dict(acc=z3.RealVal(0), w=iv(0)),
        lambda a, ix, s: dict(acc=s["acc"] + cov(src(a, ix[0])) * z3.ToReal(M.wt(src(a, ix[0]))), w=s["w"] + M.wt(src(a, ix[0]))))

WCP = wsum("wcp", CP_COV, lambda a, i: M.S(a[0], a[1], i))
# crosses continue the sums of the coverpoints: args t, cp mask, cr mask
def _wcr_init(a):
    s = WCP.at([a[0], a[1]], M.NS(a[0], a[1]))
    return dict(acc=s["acc"], w=s["w"])
WCR = Fold("wcr", [("t", I), ("mp", I), ("mc", I)], [("acc", R), ("w", I)], _wcr_init,
    lambda a, ix, s: dict(acc=s["acc"] + CR_COV(M.S(a[0], a[2], ix[0])) * z3.ToReal(M.wt(M.S(a[0], a[2], ix[0]))), w=s["w"] + M.wt(M.S(a[0], a[2], ix[0]))))

def zero(s):
    """no weight, no weighted sum (lemma zero-weights below)"""
    return z3.And(s["w"] >= 0, z3.Implies(s["w"] == 0, s["acc"] == 0))

def mean(acc, w):
    return z3.If(w > 0, acc / z3.ToReal(w), z3.RealVal(0))

MASKS = {}
def masks(ex):
    for k in ("COVERPOINT", "CROSS", "COVERINSTANCE", "COVERGROUP", "INSTANCE"):
        MASKS[k] = iv(enum(ex, ST, k))
    return MASKS

def cg_cov(t):
    s = WCR.at([t, MASKS["COVERPOINT"], MASKS["CROSS"]], M.NS(t, MASKS["CROSS"]))
    return mean(s["acc"], s["w"])

def nonneg_weights(ex, st):
    """precondition: weights of the database are not negative"""
    ex.assumptions.add("precondition: weights are non-negative integers")
    smt.trigger(M.wt, lambda app, ch: [app >= 0])

class BuildCovergroup(Contract):
    target = MOD + "build_covergroup"
    props = ("C06", "C07")
    lists = (("coverpoints", "COVERPOINT", "rep_cp"), ("crosses", "CROSS", "rep_cr"), ("covergroups", "COVERINSTANCE", "rep_cg"))
    def setup(self, ex, st):
        t = fresh("t", I)
        masks(ex)
        nonneg_weights(ex, st)
        ex.ctx.update(t=t)
        return [BinsContract.builder(self, ex, st), Ref("src", t)]
    def apply(self, ex, st, args, node):
        if isinstance(args[1], Ref) and args[1].model == "src":
            return Ref("rep_cg", args[1].t)
    def folds(self, ctx):
        t = ctx["t"]
        return [(WCP, [t, MASKS["COVERPOINT"]], M.NS(t, MASKS["COVERPOINT"])), (WCR, [t, MASKS["COVERPOINT"], MASKS["CROSS"]], M.NS(t, MASKS["CROSS"]))]
    def elems(self, ctx, ks):
        return {k: (lambda j, k=k: M.S(ctx["t"], MASKS[k], j)) for _, k, _ in self.lists}
    def post(self, ex, ctx, st, ret):
        t = ctx["t"]
        g = [("name", term(ex, st, field(ex, st, ret, "name"), "str") == M.name(t)),
             ("instance name", term(ex, st, field(ex, st, ret, "instname"), "str") == M.name(t)),
             ("weight", term(ex, st, field(ex, st, ret, "weight"), "int") == M.wt(t)),
             ("coverage is the weighted mean of coverpoints and crosses", z3.Implies(zero(WCR.at([t, MASKS["COVERPOINT"], MASKS["CROSS"]], M.NS(t, MASKS["CROSS"]))),
                term(ex, st, field(ex, st, ret, "coverage"), "real") == cg_cov(t)))]
        for f, k, model in self.lists:
            def ident(e, model=model):
                if not (isinstance(e, Ref) and e.model == model):
                    raise Unsupported("%r in a report list" % (e,))
                return e.t
            g += forall_elems(ex, st, field(ex, st, ret, f), M.NS(t, MASKS[k]), [("identity", ident, lambda j, k=k: M.S(t, MASKS[k], j))], f)
        return g
    def lemmas(self, ex):
        masks(ex)
        t, i = fresh("t", I), fresh("i", I)
        mp, mc = MASKS["COVERPOINT"], MASKS["CROSS"]
        inv = lambda s: z3.And(s["w"] >= 0, s["acc"] >= 0, s["acc"] <= 100 * z3.ToReal(s["w"]))
        def stp(F, a, cov, x):
            c, w = fresh("c", R), fresh("w", I)
            return ([inv(F.at(a, i)), i >= 0, cov(x) >= 0, cov(x) <= 100, M.wt(x) >= 0], inv(F.at(a, i + 1)))
        out = induct("weighted sum of coverpoints within 0..100*weights", ([], inv(WCP.at([t, mp], iv(0)))), stp(WCP, [t, mp], CP_COV, M.S(t, mp, i)))
        out += induct("weighted sum of crosses within 0..100*weights", ([inv(WCP.at([t, mp], M.NS(t, mp)))], inv(WCR.at([t, mp, mc], iv(0)))), stp(WCR, [t, mp, mc], CR_COV, M.S(t, mc, i)))
        def zstp(F, a, x):
            return ([zero(F.at(a, i)), i >= 0, M.wt(x) >= 0], zero(F.at(a, i + 1)))
        out += induct("zero weights of coverpoints", ([], zero(WCP.at([t, mp], iv(0)))), zstp(WCP, [t, mp], M.S(t, mp, i)))
        out += induct("zero weights of crosses", ([zero(WCP.at([t, mp], M.NS(t, mp)))], zero(WCR.at([t, mp, mc], iv(0)))), zstp(WCR, [t, mp, mc], M.S(t, mc, i)))
        s = WCR.at([t, mp, mc], M.NS(t, mc))
        out.append(("a covergroup percentage lies in 0..100", [inv(s)], z3.And(cg_cov(t) >= 0, cg_cov(t) <= 100)))
        return out

# all type covergroups of all instances, in order
FLAT = Fold("flatcg", [("db", I)], [("n", I), ("arr", A(I))], lambda a: dict(n=iv(0), arr=z3.K(I, iv(0))),
    lambda a, ix, s: dict(n=s["n"] + 1, arr=z3.Store(s["arr"], s["n"], M.S(M.S(a[0], MASKS["INSTANCE"], ix[0]), MASKS["COVERGROUP"], ix[1]))),
    depth=2, inner=lambda a, i: M.NS(M.S(a[0], MASKS["INSTANCE"], i), MASKS["COVERGROUP"]))
WALL = Fold("wall", [("arr", A(I))], [("acc", R), ("w", I)], lambda a: dict(acc=z3.RealVal(0), w=iv(0)),
    lambda a, ix, s: dict(acc=s["acc"] + CG_COV(z3.Select(a[0], ix[0])) * z3.ToReal(M.wt(z3.Select(a[0], ix[0]))), w=s["w"] + M.wt(z3.Select(a[0], ix[0]))))

class Build(Contract):
    target = MOD + "build"
    props = ("C06", "C07")
    def apply(self, ex, st, args, node):
        from .rep import report_of
        return report_of(ex, st, args, node)
    def setup(self, ex, st):
        db = fresh("db", I)
        masks(ex)
        nonneg_weights(ex, st)
        flat = FLAT.at([db], M.NS(db, MASKS["INSTANCE"]), iv(0))
        ex.ctx.update(db=db, flat=flat)
        return [Ref("src", db)]
    def folds(self, ctx):
        return [(FLAT, [ctx["db"]], M.NS(ctx["db"], MASKS["INSTANCE"])), (WALL, [ctx["flat"]["arr"]], ctx["flat"]["n"])]
    def post(self, ex, ctx, st, ret):
        s = WALL.at([ctx["flat"]["arr"]], ctx["flat"]["n"])
        def ident(e):
            if not (isinstance(e, Ref) and e.model == "rep_cg"):
                raise Unsupported("%r in a report list" % (e,))
            return e.t
        return [("overall coverage is the weighted mean over all covergroups", z3.Implies(zero(s), term(ex, st, field(ex, st, ret, "coverage"), "real") == mean(s["acc"], s["w"])))] + \
            forall_elems(ex, st, field(ex, st, ret, "covergroups"), ctx["flat"]["n"], [("identity", ident, lambda j: z3.Select(ctx["flat"]["arr"], j))], "covergroups")
    def lemmas(self, ex):
        masks(ex)
        arr, n, i = fresh("arr", A(I)), fresh("n", I), fresh("i", I)
        x = z3.Select(arr, i)
        inv = lambda s: z3.And(s["w"] >= 0, s["acc"] >= 0, s["acc"] <= 100 * z3.ToReal(s["w"]))
        out = induct("weighted sum of covergroups within 0..100*weights", ([], inv(WALL.at([arr], iv(0)))),
            ([inv(WALL.at([arr], i)), i >= 0, CG_COV(x) >= 0, CG_COV(x) <= 100, M.wt(x) >= 0], inv(WALL.at([arr], i + 1))))
        out += induct("zero weights of covergroups", ([], zero(WALL.at([arr], iv(0)))), ([zero(WALL.at([arr], i)), i >= 0, M.wt(x) >= 0], zero(WALL.at([arr], i + 1))))
        s = WALL.at([arr], n)
        out.append(("the overall percentage lies in 0..100", [inv(s)], z3.And(mean(s["acc"], s["w"]) >= 0, mean(s["acc"], s["w"]) <= 100)))
        return out

class BinHit(Contract):
    target = RPT + ".CoverBin.hit"
    props = ("C05",)
    def setup(self, ex, st):
        c, g = fresh("count", I), fresh("goal", I)
        ex.ctx.update(c=c, g=g)
        # the object as its constructor leaves it
        return [ex.construct(st, cls(ex, RPT + ".CoverBin"), [vstr(fresh("n", I)), vint(g), vint(c)], {}, None)]
    def post(self, ex, ctx, st, ret):
        return [("hit exactly when the count reaches the goal", ex.truth(st, ret) == (ctx["c"] >= ctx["g"]))]

CONTRACTS = [BuildCross(), BuildCoverpoint(), BuildCovergroup(), Build(), BinHit()]
