"""Contracts of the JSON report formatter (C15)."""
from .util import *
from . import rep, js, text
from .rep import rname, rcov, rcount, rlen, rget, rlist

MOD = "ucis.report.format_rpt_json:FormatRptJson."
js.declare("cr", "covreport.json")

class GetNs(Contract):
    """assumed: python_jsonschema_objects builds the classes of the schema file"""
    target = MOD + "getCoverageNS"
    def apply(self, ex, st, args, node):
        ex.assumptions.add("python_jsonschema_objects: the classes built from covreport.json behave as contracts/js.py states (typed, initially unset properties; lists copied on assignment; append adds one element)")
        return Ref("cr_ns", iv(0))

class JsItem(M.Model):
    pass
for _k in ("js_cg", "js_cp", "js_cr"):
    M.MODELS[_k] = JsItem()

class JsonContract(Contract):
    props = ("C15",)
    lists = ()
    def formatter(self, ex, st):
        c = cls(ex, MOD[:-1])
        o = ex.construct(st, c, [], {}, None)
        f = dict(ex.cell(st, o.id).fields)
        f["_ns"] = Ref("cr_ns", iv(0))
        st.store[o.id] = RecCell(c, f)
        return o
    def setup(self, ex, st):
        o = self.formatter(ex, st)
        x = fresh("x", I)
        ex.ctx.update(x=x)
        return [o, Ref(self.arg, x)]
    def apply(self, ex, st, args, node):
        if len(args) > 1 and isinstance(args[1], Ref) and args[1].model == self.arg:
            return Ref(self.res, args[1].t)
    def terms(self, ctx, ks):
        return {("first", p): k == 0 for p, k in enumerate(ks)}
    def elems(self, ctx, ks):
        out = {}
        for _, nm, kind in self.lists:
            l = rlist(ctx["x"], nm)
            if kind == "bin":
                out[(nm, "name")] = lambda j, l=l: rname(rget(l, j))
                out[(nm, "count")] = lambda j, l=l: rcount(rget(l, j))
            else:
                out[(nm, "id")] = lambda j, l=l: rget(l, j)
        return out
    def scalars(self, ex, ctx, st, ret):
        return [("name", term(ex, st, field(ex, st, ret, "name"), "str") == rname(ctx["x"])),
                ("coverage", term(ex, st, field(ex, st, ret, "coverage"), "real") == rcov(ctx["x"]))]
    def post(self, ex, ctx, st, ret):
        c = ex.cell(st, ret.id) if isinstance(ret, Obj) else None
        if not (isinstance(c, RecCell) and c.cls in ("cr:" + x for x in self.classes)):
            raise Unsupported("result %r" % (ret,))
        g = self.scalars(ex, ctx, st, ret)
        for prop, nm, kind in self.lists:
            g += self.listgoals(ex, st, ret, prop, rlist(ctx["x"], nm), kind)
        return g
    def listgoals(self, ex, st, ret, prop, l, kind):
        none, n, el = js.optlist(ex, st, ret, prop)
        # an empty list may be left out
        g = [("number of " + prop, z3.If(none, rlen(l) == 0, n == rlen(l)))]
        if el is None:
            return g
        j = fresh("j", I)
        e = el(j)
        inside = z3.And(0 <= j, j < rlen(l), z3.Not(none), n == rlen(l))
        if kind == "bin":
            if not (isinstance(e, Obj) and ex.cell(st, e.id).cls == "cr:CoverBin"):
                raise Unsupported("%r in a list of bins" % (e,))
            g.append(("names of " + prop, z3.Implies(inside, term(ex, st, field(ex, st, e, "name"), "str") == rname(rget(l, j)))))
            g.append(("counts of " + prop, z3.Implies(inside, term(ex, st, field(ex, st, e, "count"), "int") == rcount(rget(l, j)))))
        else:
            if not (isinstance(e, Ref) and e.model == kind):
                raise Unsupported("%r in list %s" % (e, prop))
            g.append(("items of " + prop, z3.Implies(inside, e.t == rget(l, j))))
        return g

class JCoverpoint(JsonContract):
    target = MOD + "report_coverpoint"
    arg, res, classes = "rp_cp", "js_cp", ("Coverpoint",)
    lists = (("bins", "bins", "bin"), ("ignorebins", "ignore_bins", "bin"), ("illegalbins", "illegal_bins", "bin"))
class JCross(JsonContract):
    target = MOD + "report_cross"
    arg, res, classes = "rp_cr", "js_cr", ("Cross",)
    lists = (("bins", "bins", "bin"),)
class JCovergroup(JsonContract):
    target = MOD + "report_covergroup"
    arg, res, classes = "rp_cg", "js_cg", ("CovergroupType", "CovergroupInst")
    lists = (("coverpoints", "coverpoints", "js_cp"), ("crosses", "crosses", "js_cr"), ("covergroups", "covergroups", "js_cg"))

class JReport(JsonContract):
    target = MOD + "report"
    res, classes = None, ("CoverageReport",)
    lists = (("covergroups", "covergroups", "js_cg"),)
    def setup(self, ex, st):
        c = cls(ex, MOD[:-1])
        o = ex.construct(st, c, [], {}, None)
        db = fresh("db", I)
        st.heap["OUT"] = fresh("OUT", I)
        ex.ctx.update(x=rep.REPORT(db), out=st.heap["OUT"])
        return [o, Ref("src", db), Ref("outfp", fresh("fp", I)), NONE]
    def scalars(self, ex, ctx, st, ret):
        return [("overall coverage", term(ex, st, field(ex, st, ret, "coverage"), "real") == rcov(ctx["x"]))]
    def apply(self, ex, st, args, node):
        return None
    def post(self, ex, ctx, st, ret):
        # the text written is one JSON document and nothing but white space besides
        t, docs = st.heap["OUT"], []
        while not t.eq(ctx["out"]):
            if not (z3.is_app(t) and t.decl().name() == "snoc"):
                raise Unsupported("output text")
            p = t.arg(1)
            if z3.is_int_value(p):
                if smt.lit_of(p.as_long()).strip() != "":
                    return [("only JSON is written", z3.BoolVal(False))]
            else:
                docs.append(p)
            t = t.arg(0)
        g = [("exactly one document is written", z3.BoolVal(len(docs) == 1))]
        for d in docs:
            o = st.ghost.get(("json", d.get_id()))
            if o is None:
                return g + [("what is written is the JSON text of the report object", z3.BoolVal(False))]
            g += super().post(ex, ctx, st, o[1])
        return g

def dump_term(ex, st, v, kw, node):
    c = ex.cell(st, v.id) if isinstance(v, Obj) else None
    if not (isinstance(c, RecCell) and c.cls == "js:dict"):
        raise Unsupported("json of %r" % (v,))
    if set(kw) - {"indent", "sort_keys", "separators"}:
        raise Unsupported("json arguments")
    t = fresh("jsontext", I)
    st.ghost = dict(st.ghost)
    st.ghost[("json", t.get_id())] = (t, c.fields["of"])
    return t
def json_dump(ex, st, args, kw, node):
    fp = args[1] if len(args) > 1 else kw.pop("fp", None)
    if not (isinstance(fp, Ref) and fp.model == "outfp"):
        raise Unsupported("json.dump to %r" % (fp,))
    t = dump_term(ex, st, args[0], {k: v for k, v in kw.items() if k != "fp"}, node)
    st.heap["OUT"] = M.snoc(st.heap["OUT"], t)
    return NONE
M.EXTS["json.dump"] = json_dump
M.EXTS["json.dumps"] = lambda ex, st, args, kw, node: vstr(dump_term(ex, st, args[0], kw, node))

CONTRACTS = [JCoverpoint(), JCross(), JCovergroup(), JReport(), GetNs()]
