"""Conformance of the written document to the interchange schema (C11): the schema is read from the repository on every run,
and every element of the document, whose shape is proved in rtrip, is checked against its type.

What the shapes leave open stays open here: the values of the attributes that carry no coverage (xmlmodel.ERASED) and the
namespace of the root element are checked at run time."""
import os, re
import xml.etree.ElementTree as ET
from .util import *
from .xmlmodel import *
from . import xmlw, rtrip as R
from .rtrip import Q, M, C, S, N, NBm, node, full, L
from ..source import SRC

NS = "{http://www.w3.org/2001/XMLSchema}"
INF = None
class Xsd:
    def __init__(self, path):
        try:
            root = ET.parse(path).getroot()
        except (OSError, ET.ParseError):
            raise Unsupported("the interchange schema")
        self.types = {t.get("name"): t for t in root if t.tag == NS + "complexType"}
        self.groups = {t.get("name"): t for t in root if t.tag == NS + "attributeGroup"}
        self.elements = {}
        for t in root:
            if t.tag == NS + "element":
                inline = t.find(NS + "complexType")
                if inline is None:
                    raise Unsupported("schema: global element")
                self.types["/" + t.get("name")] = inline
                self.elements[t.get("name")] = "/" + t.get("name")
    def complex(self, t):
        if t.startswith("xsd:"):
            return None
        if t not in self.types:
            raise Unsupported("schema: type " + t)
        return self.types[t]
    def attrs(self, t):
        """attribute -> (type or list of allowed values, required)"""
        out = {}
        for n in self.complex(t):
            if n.tag == NS + "attributeGroup":
                g = self.groups.get(n.get("ref"))
                if g is None:
                    raise Unsupported("schema: attribute group")
                items = list(g)
            elif n.tag == NS + "attribute":
                items = [n]
            elif n.tag == NS + "sequence":
                continue
            else:
                raise Unsupported("schema: " + n.tag)
            for a in items:
                if a.tag != NS + "attribute" or a.get("fixed") or a.get("use") == "prohibited" or a.get("name") is None:
                    raise Unsupported("schema: attribute")
                ty = a.get("type")
                if ty is None:
                    r = a.find(NS + "simpleType/" + NS + "restriction")
                    if r is None or any(v.tag != NS + "enumeration" for v in r):
                        raise Unsupported("schema: attribute type")
                    ty = [v.get("value") for v in r]
                out[a.get("name")] = (ty, a.get("use") == "required")
        return out
    def content(self, t, tags):
        """the particles of the type's sequence: (tag, type, least, most); of a choice, the branch with one of the tags"""
        def occurs(n):
            hi = n.get("maxOccurs", "1")
            return int(n.get("minOccurs", "1")), INF if hi == "unbounded" else int(hi)
        out = []
        for s in self.complex(t):
            if s.tag != NS + "sequence":
                continue
            if occurs(s) != (1, 1):
                raise Unsupported("schema: sequence")
            for p in s:
                if p.tag == NS + "choice":
                    if occurs(p) != (1, 1) or any(b.tag != NS + "element" for b in p):
                        raise Unsupported("schema: choice")
                    b = [b for b in p if b.get("name") in tags] or [b for b in p][:1]
                    p = b[0]
                if p.tag != NS + "element" or p.get("name") is None or p.get("type") is None:
                    raise Unsupported("schema: " + p.tag)
                out.append((p.get("name"), p.get("type")) + occurs(p))
        return out

LEX = {"xsd:string": r"[\s\S]*", "xsd:integer": r"[+-]?[0-9]+", "xsd:nonNegativeInteger": r"\+?[0-9]+|-0+", "xsd:positiveInteger": r"\+?0*[1-9][0-9]*", "xsd:boolean": r"true|false|0|1",
    "xsd:double": r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)([eE][+-]?[0-9]+)?|INF|-INF|NaN", "xsd:decimal": r"[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)"}
valid = z3.Function("xsd_valid", I, I, B)
def textfacts(t):
    """which simple types a fixed text belongs to"""
    return [valid(L(ty), L(t)) == z3.BoolVal(bool(re.fullmatch(rx, t))) for ty, rx in LEX.items()]
def intfacts(n):
    v = smt.str_of_int(n)
    return [valid(L("xsd:integer"), v), valid(L("xsd:nonNegativeInteger"), v) == (n >= 0), valid(L("xsd:positiveInteger"), v) == (n >= 1), valid(L("xsd:decimal"), v), valid(L("xsd:double"), v)]
def oneof(v, texts):
    return z3.Or(*[v == L(t) for t in texts])

class Row:
    """an element of the document: where it is in the schema, what is known about it, its children (tag, number, arbitrary index)"""
    def __init__(self, nm, e, hyps, kids=(), up=None, facts=(), pre=()):
        self.nm, self.e, self.hyps, self.kids, self.up, self.facts = nm, e, list(hyps) + list(pre), [(t, n if z3.is_expr(n) else iv(n), i) for t, n, i in kids], up, list(facts)

def rows(db):
    Z = R.DOC
    s, e, cgn = fresh("s", I), fresh("e", I), fresh("cgname", I)
    F = textfacts
    out = []
    def row(*a, **k):
        out.append(Row(*a, **k))
    f = xmlw.filetable(db)
    nf, nh, ni = f["n"], R.nhist(db), N(db, "INSTANCE")
    nonneg = [M.NS(s, C[k]) >= 0 for k in ("INSTANCE", "COVERGROUP", "COVERINSTANCE", "COVERPOINT", "CROSS")] + [NBm(s) >= 0, M.NX(s) >= 0]
    row("UCIS", R.ROOT, R.sh_doc(Z, db)[1], [("sourceFiles", nf, Q["file"]), ("historyNodes", nh, Q["hist"]), ("instanceCoverages", ni, Q["scope"])],
        pre=[nf >= 1, ni >= 1])
    fv = fresh("fval", IA)
    row("sourceFiles", e, R.sh_file(Z, e, s, fv)[1], up="UCIS", facts=intfacts(z3.Select(fv, s)), pre=[z3.Select(fv, s) >= 1])
    i = fresh("i", I)
    hf = F("true") + F("false") + intfacts(i)
    for at, g, k in xmlw.FIELDS:
        c, v = R.histval(at, g, k, s)
        if k == "int":
            hf += intfacts(xmlw.hf[g](s))
        elif k == "real":
            hf += [valid(L(t), v) for t in (("xsd:decimal", "xsd:double") if at == "cost" else ("xsd:double",))]
        elif k == "date":
            hf.append(valid(L("xsd:dateTime"), v))
    row("historyNodes", e, R.sh_hist(Z, e, s, i)[1], up="UCIS", facts=hf, pre=[i >= 0])
    row("placeholder", e, [node(Z, e, "historyNodes", 0)] + R.placeheld(Z, e), up="UCIS")
    row("instanceCoverages", e, R.sh_scope(Z, e, s)[1], [("id", 1, 0), ("covergroupCoverage", N(s, "COVERGROUP"), Q["cg"])], up="UCIS", pre=nonneg)
    row("id", el(e, iv(0)), R.sh_scope(Z, e, s)[1], up="instanceCoverages", facts=F("1"))
    row("covergroupCoverage", e, R.sh_cg(Z, e, s)[1], [("cgInstance", R.ninst(s), Q["inst"])], up="instanceCoverages", pre=nonneg)
    inst = R.sh_inst(Z, e, cgn, s)[1]
    row("cgInstance", e, inst, [("options", 1, 0), ("cgId", 1, 0), ("coverpoint", N(s, "COVERPOINT"), Q["cp"]), ("cross", N(s, "CROSS"), Q["cross"])], up="covergroupCoverage", pre=nonneg + [N(s, "COVERPOINT") >= 1])
    row("options", el(e, iv(0)), inst, up="cgInstance")
    d = el(e, iv(1))
    row("cgId", d, inst, [("cginstSourceId", 1, 0), ("cgSourceId", 1, 0)], up="cgInstance")
    for k, t in enumerate(("cginstSourceId", "cgSourceId")):
        row(t, el(d, iv(k)), inst, up="cgId", facts=F("1"))
    row("coverpoint", e, R.sh_cp(Z, e, s)[1], [("options", 1, 0), ("coverpointBin", NBm(s), Q["bin"])], up="cgInstance", pre=nonneg + [NBm(s) >= 1])
    row("options", el(e, iv(0)), R.sh_cp(Z, e, s)[1], up="coverpoint")
    b = R.sh_bin(Z, e, s)[1]
    data = [M.bdata(s) >= 0]
    row("coverpointBin", e, b, [("range", 1, 0)], up="coverpoint")
    row("range", el(e, iv(0)), b, [("contents", 1, 0)], up="coverpointBin")
    row("contents", el(el(e, iv(0)), iv(0)), b, up="range", facts=intfacts(M.bdata(s)), pre=data)
    x = R.sh_cross(Z, e, s)[1]
    row("cross", e, x, [("options", 1, 0), ("crossExpr", M.NX(s), Q["expr"]), ("crossBin", NBm(s), Q["xbin"])], up="cgInstance", pre=nonneg)
    row("options", el(e, iv(0)), x, up="cross")
    row("crossExpr", e, R.sh_expr(Z, e, s)[1], up="cross")
    xb = R.sh_xbin(Z, e, s)[1]
    row("crossBin", e, xb, [("index", 1, 0), ("contents", 1, 0)], up="cross")
    row("index", el(e, iv(0)), xb, up="crossBin", facts=F("-1"))
    row("contents", el(e, iv(1)), xb, up="crossBin", facts=intfacts(M.bdata(s)), pre=data)
    return out

def conformance(xsd):
    Z = R.DOC
    typ, out = {}, []
    a = Q["attr"]
    for r in rows(fresh("db", I)):
        tag = "historyNodes" if r.nm == "placeholder" else r.nm
        if r.up is None:
            ty = xsd.elements.get(tag)
            if ty is None:
                raise Unsupported("schema: no element " + tag)
        else:
            ty = typ.get(r.up, {}).get(tag)
            if ty is None:
                continue        # already reported for the parent
        nm = "%s conforms to %s" % (r.nm if r.up is None else r.up + "/" + r.nm, ty)
        e = r.e
        has, txt = S(Z, "has", e), S(Z, "txt", e)
        def goal(w, g, more=()):
            out.append(("%s: %s" % (nm, w), r.hyps + r.facts + list(more), g))
        if xsd.complex(ty) is None:
            goal("no attributes", z3.Not(z3.Select(has, a)))
            goal("no children", S(Z, "n", e) == 0)
            goal("text", z3.BoolVal(True) if ty == "xsd:string" else valid(L(ty), txt))
            continue
        al = xsd.attrs(ty)
        goal("attributes required", z3.And(*[z3.Select(has, L(n)) for n, (_, req) in al.items() if req] + [z3.BoolVal(True)]))
        goal("no other attributes", z3.Implies(z3.Select(has, a), oneof(a, al) if al else z3.BoolVal(False)))
        for n, (t, _) in al.items():
            if n in ERASED or t == "xsd:string":
                continue
            if r.nm == "placeholder":
                continue        # (values of the placeholder: run-time contract)
            v = z3.Select(S(Z, "val", e), L(n))
            goal("value of " + n, z3.Implies(z3.Select(has, L(n)), oneof(v, t) if isinstance(t, list) else valid(L(t), v)), [z3.substitute(h, (a, L(n))) for h in r.hyps])
        goal("no text", txt == NOTEXT)
        parts = xsd.content(ty, [t for t, _, _ in r.kids])
        typ[r.nm] = {p[0]: p[1] for p in parts}
        pos, off, ok, tags = -1, iv(0), [], []
        for t, n, i in r.kids:
            at = [j for j, p in enumerate(parts) if p[0] == t and j > pos]
            if not at:
                ok.append(n == 0)
            else:
                ok += [z3.BoolVal(p[2] == 0) for p in parts[pos + 1:at[0]]]
                pos = at[0]
                lo, hi = parts[pos][2:]
                ok += [n >= lo] + ([n <= hi] if hi is not INF else [])
            i = i if z3.is_expr(i) else iv(i)
            tags.append(z3.Implies(z3.And(0 <= i, i < n), S(Z, "tag", el(e, z3.simplify(off + i) if z3.is_int_value(z3.simplify(off)) and z3.is_int_value(i) else off + i)) == L(t)))
            off = off + n
        ok += [z3.BoolVal(p[2] == 0) for p in parts[pos + 1:]]
        goal("children in the order and number of the schema", z3.And(*ok + [z3.BoolVal(True)]))
        goal("children named as in the schema", z3.And(S(Z, "n", e) == off, *tags))
    return out

class Conformance(Contract):
    props = ("C11",)
    leaf = True
    label = "every element of the written document conforms to its type in the interchange schema"
    target = xmlw.MOD + "write"
    cost = 3
    def run(self, ex, st):
        xmlw.consts(ex)
        C["OK"] = enum(ex, "ucis.test_status_t:TestStatusT", "OK")
        self.xsd = Xsd(os.path.join(SRC, "ucis", "xml", "schema", "ucis.xsd"))
        ex.goal(st, "the schema has a document element", z3.BoolVal("UCIS" in self.xsd.elements))
    def lemmas(self, ex):
        return conformance(self.xsd)
CONTRACTS = [Conformance()]
