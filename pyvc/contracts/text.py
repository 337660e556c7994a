"""Contracts of the two text report formatters (C14).

The report is abstract: every attribute of a report object is an uninterpreted function of its identity. The text written
so far is a sequence (heap location OUT) of single characters of literals and of whole formatted values, so it does not
matter how the code splits its output into write calls or format strings."""
from .util import *
from . import rep
from .rep import rname, rcov, rcount, rgoal, rlen, rget, rlist

def emit(out, t):
    """text out followed by the string term t"""
    t = z3.simplify(t) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE else t
    if z3.is_int_value(t):
        s = smt.lit_of(t.as_long())
        if s is None:
            raise Unsupported("text literal")
        for ch in s:
            out = M.snoc(out, smt.lit(ch))
        return out
    if z3.is_app(t):
        if t.decl().name() == "scat":
            return emit(emit(out, t.arg(0)), t.arg(1))
        if t.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(t.arg(0), emit(out, t.arg(1)), emit(out, t.arg(2)))
    return M.snoc(out, t)

def emits(out, *ts):
    for t in ts:
        out = emit(out, smt.lit(t) if isinstance(t, str) else t)
    return out

class OutFp(M.Model):
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "write" and len(args) == 1 and not kw:
            v = ex.unopt(st, args[0], node)
            if not (isinstance(v, P) and v.kind == "str"):
                ex.may_raise(st, z3.BoolVal(True), "TypeError", node, "write() argument must be str")
                raise Unsupported("write of %r" % (v,))
            for p in parts_of(v):
                st.heap["OUT"] = emit(st.heap["OUT"], smt.lit(p[1]) if p[0] == "lit" else p[1])
            return vint(fresh("written", I))
        if nm == "flush" and not args:
            return NONE
        raise Unsupported("method %s of the output stream" % nm)
M.MODELS["outfp"] = OutFp()

# ---- specification of the text
def bin_line(out, ind, b):
    return emits(out, ind, rname(b), " : ", smt.str_of_int(rcount(b)), "\n")
hit = lambda b: rcount(b) >= rgoal(b)
BL = Fold("txtbins", [("out", I), ("ind", I), ("l", I)], [("out", I)], lambda a: dict(out=a[0]),
    lambda a, ix, s: dict(out=bin_line(s["out"], a[1], rget(a[2], ix[0]))))
BH = Fold("txtbins_hit", [("out", I), ("ind", I), ("l", I)], [("out", I)], lambda a: dict(out=a[0]),
    lambda a, ix, s: dict(out=z3.If(hit(rget(a[2], ix[0])), bin_line(s["out"], a[1], rget(a[2], ix[0])), s["out"])))
BM = Fold("txtbins_miss", [("out", I), ("ind", I), ("l", I)], [("out", I)], lambda a: dict(out=a[0]),
    lambda a, ix, s: dict(out=z3.If(hit(rget(a[2], ix[0])), s["out"], bin_line(s["out"], a[1], rget(a[2], ix[0])))))

def bins(out, ind, order, l):
    n = rlen(l)
    h = BH.at([out, ind, l], n)["out"]
    return z3.If(order, BM.at([h, ind, l], n)["out"], BL.at([out, ind, l], n)["out"])

def deeper(ind):
    return mkstr([("t", ind), ("lit", "    ")]).t

OPTS = (("ind", I), ("details", B), ("order", B), ("round", I))
class Fmt:
    """one of the formatter classes"""
    def __init__(self, key, tag, pct):
        self.key, self.tag, self.pct = key, tag, pct
        srt = [I] + [s for _, s in OPTS] + [I]
        self.CP = z3.Function("txt_cp." + tag, *(srt + [I]))
        self.CR = z3.Function("txt_cr." + tag, *(srt + [I]))
        self.CG = z3.Function("txt_cg." + tag, *(srt + [B, I]))
        smt.trigger(self.CP, lambda app, ch: [app == self.cp(*ch)])
        smt.trigger(self.CR, lambda app, ch: [app == self.cr(*ch)])
        args = [("out", I)] + list(OPTS) + [("l", I)]
        def fold(nm, f):
            return Fold("txt_%s.%s" % (nm, tag), args, [("out", I)], lambda a: dict(out=a[0]), lambda a, ix, s: dict(out=f(s["out"], *(list(a[1:5]) + [rget(a[5], ix[0])]))))
        self.CPS = fold("cps", self.CP)
        self.CRS = fold("crs", self.CR)
        self.INS = fold("ins", lambda *a: self.CG(*(list(a) + [z3.BoolVal(True)])))
        self.TYP = fold("typ", lambda *a: self.CG(*(list(a) + [z3.BoolVal(False)])))
    def head(self, out, ind, rnd, kind, x):
        return emits(out, ind, kind, " ", rname(x), " : ", self.pct(rcov(x), rnd), "%\n")
    def cp(self, out, ind, details, order, rnd, x):
        out = self.head(out, ind, rnd, smt.lit("CVP"), x)
        d = bins(emits(out, ind, "Bins:\n"), deeper(ind), order, rlist(x, "bins"))
        for nm, hd in (("ignore_bins", "IgnoreBins:\n"), ("illegal_bins", "IllegalBins:\n")):
            l = rlist(x, nm)
            d = z3.If(rlen(l) > 0, bins(emits(d, ind, hd), deeper(ind), order, l), d)
        return z3.If(details, d, out)
    def cr(self, out, ind, details, order, rnd, x):
        out = self.head(out, ind, rnd, smt.lit("CROSS"), x)
        return z3.If(details, bins(emits(out, ind, "Bins:\n"), deeper(ind), order, rlist(x, "bins")), out)

def dynfmt(x, rnd):
    return z3.Function("fmt<.*f>dyn", I, R, I)(smt.str_of_int(rnd), z3.Function("round", R, I, R)(x, rnd))
FMTS = [Fmt("ucis.report.format_rpt_text:FormatRptText", "rpt", lambda x, rnd: smt.fmtfn("f", R)(z3.Function("round", R, I, R)(x, iv(2)))),
        Fmt("ucis.report.text_coverage_report_formatter:TextCoverageReportFormatter", "fmt", dynfmt)]

class TextContract(Contract):
    props = ("C14",)
    arg = "rp_cg"
    def __init__(self, F, meth):
        self.F, self.meth = F, meth
        self.target = F.key + "." + meth
    def formatter(self, ex, st):
        c = cls(ex, self.F.key)
        o = ex.new_cell(st, RecCell(c, {}))
        init = c.find("__init__")
        names = [p.arg for p in init.node.args.args][1:]
        root = Ref("rp_root", fresh("report", I))
        av = dict(report=root, fp=Ref("outfp", fresh("fp", I)))
        if any(n not in av for n in names):
            raise Unsupported("constructor of the formatter")
        ex.call(st, FnV(init, o, True), [av[n] for n in names], {}, None)
        f = dict(ex.cell(st, o.id).fields)
        want = dict(_ind="", details=False, order_bins_by_hit=False)
        # the configuration is arbitrary
        for k in want:
            if k not in f:
                raise Unsupported("the formatter has no attribute " + k)
        ind = fresh("ind", I)
        details, order = fresh("details", B), fresh("order", B)
        f.update(_ind=vstr(ind), details=vbool(details), order_bins_by_hit=vbool(order))
        if "_fp" in f:
            f["_fp"] = Ref("outfp", fresh("fp", I))
        rnd = iv(2)
        if "round" in f:
            rnd = fresh("round", I)
            st.assume(rnd >= 0)
            f["round"] = vint(rnd)
        st.store[o.id] = RecCell(ex.cell(st, o.id).cls, f)
        out = fresh("OUT", I)
        st.heap["OUT"] = out
        ex.ctx.update(o=o, out=out, ind=ind, details=details, order=order, round=rnd, root=root, fields=f)
        return o
    def setup(self, ex, st):
        o = self.formatter(ex, st)
        x = fresh("x", I)
        ex.ctx.update(x=x)
        return [o, Ref(self.arg, x)]
    def opts(self, ctx):
        return [ctx["ind"], ctx["details"], ctx["order"], ctx["round"]]
    def post(self, ex, ctx, st, ret):
        g = [("text written", st.heap["OUT"] == self.text(ctx))]
        f = ex.cell(st, ctx["o"].id).fields
        for k, what in (("_ind", "the indentation is back at its initial value"), ("details", "details switch unchanged"), ("order_bins_by_hit", "order switch unchanged"), ("round", "precision unchanged")):
            if k in ctx["fields"]:
                if not isinstance(f.get(k), P):
                    raise Unsupported("attribute " + k)
                g.append((what, f[k].t == ctx["fields"][k].t))
        return g
    def state(self, ex, st, o):
        """configuration at a call site"""
        if not (isinstance(o, Obj) and isinstance(ex.cell(st, o.id), RecCell)):
            raise Unsupported("formatter object")
        f = ex.cell(st, o.id).fields
        for k in ("_ind", "details", "order_bins_by_hit"):
            if not isinstance(f.get(k), P):
                raise Unsupported("formatter attribute " + k)
        return [f["_ind"].t, f["details"].t, f["order_bins_by_hit"].t, f["round"].t if "round" in f else iv(2)]
    def apply(self, ex, st, args, node):
        if not (len(args) > 1 and isinstance(args[1], Ref) and args[1].model == self.arg):
            return None
        st.heap["OUT"] = self.effect(ex, st, self.state(ex, st, args[0]), args)
        return NONE

class Bins(TextContract):
    arg = "rl_bin"
    def folds(self, ctx):
        a = [ctx["out"], ctx["ind"], ctx["x"]]
        n = rlen(ctx["x"])
        return [(BL, a, n), (BH, a, n), (BM, [BH.at(a, n)["out"]] + a[1:], n)]
    def text(self, ctx):
        return bins(ctx["out"], ctx["ind"], ctx["order"], ctx["x"])
    def effect(self, ex, st, s, args):
        return bins(st.heap["OUT"], s[0], s[2], args[1].t)
    def lemmas(self, ex):
        if self.F is not FMTS[0]:
            return []
        # ordering by hit prints every bin exactly once: each bin is printed by exactly one of the two passes
        o, ind, l, i = fresh("o", I), fresh("ind", I), fresh("l", I), fresh("i", I)
        h, m = lambda k: BH.at([o, ind, l], k)["out"], lambda k: BM.at([o, ind, l], k)["out"]
        b = rget(l, i)
        return [("each bin is printed by exactly one pass of ordering by hit", [i >= 0],
            z3.Or(z3.And(h(i + 1) == bin_line(h(i), ind, b), m(i + 1) == m(i)), z3.And(h(i + 1) == h(i), m(i + 1) == bin_line(m(i), ind, b))))]

class Item(TextContract):
    def __init__(self, F, meth, arg, defn, fn):
        super().__init__(F, meth)
        self.arg, self.defn, self.fn = arg, defn, fn
    def text(self, ctx):
        return self.defn(*([ctx["out"]] + self.opts(ctx) + [ctx["x"]]))
    def effect(self, ex, st, s, args):
        return self.fn(*([st.heap["OUT"]] + s + [args[1].t]))
    def folds(self, ctx):
        # for bodies that print the bins themselves
        F = self.F
        out = F.head(ctx["out"], ctx["ind"], ctx["round"], smt.lit("CVP" if self.arg == "rp_cp" else "CROSS"), ctx["x"])
        res = []
        ind = deeper(ctx["ind"])
        cur = out
        for nm, hd in (("bins", "Bins:\n"), ("ignore_bins", "IgnoreBins:\n"), ("illegal_bins", "IllegalBins:\n"))[:3 if self.arg == "rp_cp" else 1]:
            l = rlist(ctx["x"], nm)
            h = emits(cur, ctx["ind"], hd)
            n = rlen(l)
            a = [h, ind, l]
            res += [(BL, a, n), (BH, a, n), (BM, [BH.at(a, n)["out"]] + a[1:], n)]
            new = bins(h, ind, ctx["order"], l)
            cur = new if nm == "bins" else z3.If(n > 0, new, cur)
        return res

class CG(TextContract):
    def setup(self, ex, st):
        o = self.formatter(ex, st)
        x, isi = fresh("x", I), fresh("is_inst", B)
        ex.ctx.update(x=x, isi=isi)
        return [o, Ref("rp_cg", x), vbool(isi)]
    def chain(self, ctx):
        F = self.F
        h = F.head(ctx["out"], ctx["ind"], ctx["round"], z3.If(ctx["isi"], smt.lit("INST"), smt.lit("TYPE")), ctx["x"])
        o = [deeper(ctx["ind"]), ctx["details"], ctx["order"], ctx["round"]]
        res, out = [], h
        for fold, nm in ((F.CPS, "coverpoints"), (F.CRS, "crosses"), (F.INS, "covergroups")):
            l = rlist(ctx["x"], nm)
            res.append((fold, [out] + o + [l], rlen(l)))
            out = fold.at([out] + o + [l], rlen(l))["out"]
        return res, out
    def folds(self, ctx):
        return self.chain(ctx)[0]
    def text(self, ctx):
        return self.chain(ctx)[1]
    def effect(self, ex, st, s, args):
        return self.F.CG(*([st.heap["OUT"]] + s + [args[1].t, ex.truth(st, args[2])]))

class Report(TextContract):
    def setup(self, ex, st):
        o = self.formatter(ex, st)
        if self.F.tag == "rpt":
            db, fp = fresh("db", I), Ref("outfp", fresh("fp", I))
            ex.ctx.update(root=Ref("rp_root", rep.REPORT(db)))
            return [o, Ref("src", db), fp, NONE]
        return [o]
    def chain(self, ctx):
        l = rlist(ctx["root"].t, "covergroups")
        return [(self.F.TYP, [ctx["out"]] + self.opts(ctx) + [l], rlen(l))]
    def folds(self, ctx):
        return self.chain(ctx)
    def text(self, ctx):
        f, a, n = self.chain(ctx)[0]
        return f.at(a, n)["out"]
    def apply(self, ex, st, args, node):
        return None

class Fresh(Contract):
    """a new formatter starts without indentation, details or reordering and with the documented precision"""
    props = ("C14",)
    leaf = True
    def __init__(self, F):
        self.F, self.target, self.label = F, F.key + ".__init__", F.key + " defaults"
    def run(self, ex, st):
        c = cls(ex, self.F.key)
        av = dict(report=Ref("rp_root", fresh("report", I)), fp=Ref("outfp", fresh("fp", I)))
        names = [p.arg for p in c.find("__init__").node.args.args][1:]
        o = ex.construct(st, c, [av[n] for n in names], {}, None)
        ex.no_raise("constructor ")
        f = ex.cell(st, o.id).fields
        ex.goal(st, "no indentation", f["_ind"].t == smt.lit(""))
        ex.goal(st, "details off", z3.Not(ex.truth(st, f["details"])))
        ex.goal(st, "report order", z3.Not(ex.truth(st, f["order_bins_by_hit"])))
        if self.F.tag == "fmt":
            ex.goal(st, "two decimals", f["round"].t == 2)
            ex.goal(st, "prints the given report to the given stream", z3.And(f["_report"].t == av["report"].t, f["_fp"].t == av["fp"].t))

CONTRACTS = []
for _F in FMTS:
    CONTRACTS += [Bins(_F, "report_bins"), Item(_F, "report_coverpoint", "rp_cp", _F.cp, _F.CP), Item(_F, "report_cross", "rp_cr", _F.cr, _F.CR), CG(_F, "report_covergroup"), Report(_F, "report"), Fresh(_F)]
