"""Elements of a document being written: every element is known by its path (parent, position), its tag, attributes and
text are arrays over elements. So it does not matter in which order independent elements are made or attributes are set.

Values of attributes that carry no coverage (ERASED) are dropped: only their presence is recorded."""
from .util import *

IA = A(I)
ERASED = ("key", "line", "inlineCount", "from", "to", "moduleName", "writtenBy", "writtenTime")
DOT = smt.lit("\u00b7")
el = z3.Function("xel", I, I, I)
el_p, el_i, depth = z3.Function("xel_parent", I, I), z3.Function("xel_pos", I, I), z3.Function("xel_depth", I, I)
smt.trigger(el, lambda app, ch: [el_p(app) == ch[0], el_i(app) == ch[1], depth(app) == depth(ch[0]) + 1])
NOTEXT = z3.Int("notext")
COMPS = [("n", IA), ("tag", IA), ("has", A(A(B))), ("val", A(IA)), ("txt", IA)]
NAMES = [c for c, _ in COMPS]
KF = z3.K(I, z3.BoolVal(False))
K0 = z3.K(I, iv(0))

def L(s):
    return smt.lit(s) if isinstance(s, str) else s

class X:
    """functional document state, for specifications"""
    def __init__(self, comps):
        self.c = dict(zip(NAMES, comps)) if not isinstance(comps, dict) else dict(comps)
    @staticmethod
    def of(st):
        return X([st.heap["X" + c] for c in NAMES])
    def put(self, st):
        for c in NAMES:
            st.heap["X" + c] = self.c[c]
    def args(self):
        return [self.c[c] for c in NAMES]
    def fresh_elem(self, e, tag):
        c = self.c
        c["n"] = z3.Store(c["n"], e, iv(0))
        c["tag"] = z3.Store(c["tag"], e, L(tag))
        c["has"] = z3.Store(c["has"], e, KF)
        c["val"] = z3.Store(c["val"], e, K0)
        c["txt"] = z3.Store(c["txt"], e, NOTEXT)
    def mk(self, parent, tag):
        c = self.c
        i = z3.Select(c["n"], parent)
        e = el(parent, i)
        c["n"] = z3.Store(c["n"], parent, i + 1)
        self.fresh_elem(e, tag)
        return e
    def set(self, e, name, val):
        c = self.c
        v = DOT if name in ERASED else L(val)
        c["has"] = smt.sto(c["has"], e, smt.sto(smt.sel(c["has"], e), L(name), z3.BoolVal(True)))
        c["val"] = smt.sto(c["val"], e, smt.sto(smt.sel(c["val"], e), L(name), v))
    def setif(self, cond, e, name, val):
        c = self.c
        h, v = c["has"], c["val"]
        self.set(e, name, val)
        c["has"], c["val"] = smt.aite(cond, c["has"], h), smt.aite(cond, c["val"], v)
    def settext(self, e, t):
        self.c["txt"] = smt.sto(self.c["txt"], e, t)
    def fold(self, f, extra, n):
        """apply a loop given as a fold over document states"""
        s = f.at(self.args() + list(extra), n)
        self.c = {c: s[c] for c in NAMES}
    def call(self, fns, *extra):
        a = self.args() + list(extra)
        self.c = {c: fns[c](*a) for c in NAMES}

def xfold(name, extra, step):
    """fold whose state is the document; step(X, extra, i) updates X"""
    def st(a, ix, s):
        x = X(s)
        step(x, a[len(NAMES):], ix[0])
        return x.c
    return Fold(name, COMPS + list(extra), COMPS, lambda a: dict(zip(NAMES, a)), st)

def xfun(name, *sorts):
    return {c: z3.Function("%s.%s" % (name, c), *([s for _, s in COMPS] + list(sorts) + [srt])) for c, srt in COMPS}

def attrname(ex, st, v):
    v = ex.unopt(st, v, None)
    if isinstance(v, P) and v.kind == "str":
        ps = parts_of(v)
        if len(ps) == 1 and ps[0][0] == "lit":
            return ps[0][1]
    raise Unsupported("computed attribute or tag name %r" % (v,))

def tagname(ex, st, v):
    if isinstance(v, Ref) and v.model == "qname":
        s = smt.lit_of(v.t.as_long())
    else:
        s = attrname(ex, st, v)
    # the namespace is stripped in the end
    return s[s.index("}") + 1:] if "}" in s else s

def make(ex, st, parent, args, kw, node):
    tag = tagname(ex, st, args[0])
    x = X.of(st)
    e = x.mk(parent, tag) if parent is not None else None
    if e is None:
        e = z3.Int("xroot")
        x.fresh_elem(e, tag)
    x.put(st)
    r = Ref("xel", e)
    if len(args) > 1 or "attrib" in kw:
        raise Unsupported("attribute dictionary")
    for k, v in kw.items():
        if k == "nsmap":
            continue
        XEl().method(ex, st, r, "set", [vstr(k), v], {}, node)
    return r

class XEl(M.Model):
    def getattr(self, ex, st, o, nm, node):
        if nm == "tag":
            return Ref("xtag", o.t)
        if nm == "attrib":
            return Ref("xattrib", o.t)
        return MethV(o, nm)
    def setattr(self, ex, st, o, nm, v, node):
        x = X.of(st)
        if nm == "text":
            if v is NONE:
                x.settext(o.t, NOTEXT)
            else:
                x.settext(o.t, M.sval(ex, st, v, node))
        elif nm == "tag":
            # only stripping the namespace from the element's own tag is understood
            if not (isinstance(v, Ref) and v.model == "xtagstripped" and v.t.eq(o.t)):
                raise Unsupported("change of a tag")
        else:
            raise Unsupported("assignment of element attribute " + nm)
        x.put(st)
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "set" and len(args) == 2 and not kw:
            v = ex.unopt(st, args[1], node)
            if not (isinstance(v, P) and v.kind == "str"):
                ex.may_raise(st, z3.BoolVal(True), "TypeError", node, "value of an attribute must be text")
                raise Unsupported("attribute value %r" % (v,))
            x = X.of(st)
            x.set(o.t, attrname(ex, st, args[0]), v.t)
            x.put(st)
            return NONE
        if nm in ("getiterator", "iter") and not args:
            n = fresh("nnodes", I)
            st.assume(n >= 0)
            f = z3.Function("docnode", I, I, I)
            return SeqV(n, lambda s, i: Ref("xel", f(o.t, i)))
        if nm == "get" and 1 <= len(args) <= 2 and not kw:
            h, v = readattr(ex, st, o, args[0])
            d = args[1] if len(args) == 2 else NONE
            if d is NONE:
                return Opt(z3.Not(h), vstr(v))
            return vstr(z3.If(h, v, M.sval(ex, st, d, node)))
        raise Unsupported("method %s of an element being written" % nm)

def readattr(ex, st, o, k):
    n = attrname(ex, st, k)
    if n in ERASED:
        raise Unsupported("reading of an attribute whose value is not modelled")
    x = X.of(st)
    return smt.sel(smt.sel(x.c["has"], o.t), L(n)), smt.sel(smt.sel(x.c["val"], o.t), L(n))

class XAttrib(M.Model):
    def getitem(self, ex, st, o, k, node):
        h, v = readattr(ex, st, o, k)
        ex.may_raise(st, z3.Not(h), "KeyError", node)
        return vstr(v)
    def contains(self, ex, st, o, k, node):
        return readattr(ex, st, o, k)[0]
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "get":
            return XEl().method(ex, st, o, nm, args, kw, node)
        raise Unsupported("method %s of attributes" % nm)
    def setitem(self, ex, st, o, k, v, node):
        XEl().method(ex, st, Ref("xel", o.t), "set", [k, v], {}, node)

class XTag(M.Model):
    def hasattr(self, ex, st, o, nm):
        return vbool(fresh("is_element", B))
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "find" and len(args) == 1 and attrname(ex, st, args[0]) == "}":
            f = z3.Function("brace_pos", I, I)
            st.assume(f(o.t) >= -1)
            return P("int", f(o.t))
        raise Unsupported("method %s of a tag" % nm)
    def getslice(self, ex, st, o, lo, hi, node):
        f = z3.Function("brace_pos", I, I)
        if hi is None and isinstance(lo, P) and z3.is_true(z3.simplify(lo.t == f(o.t) + 1)):
            return Ref("xtagstripped", o.t)
        raise Unsupported("part of a tag")
    def contains(self, ex, st, o, k, node):
        if attrname(ex, st, k) == "}":
            return z3.Function("brace_pos", I, I)(o.t) >= 0
        raise Unsupported("in tag")

M.MODELS.update(xel=XEl(), xattrib=XAttrib(), xtag=XTag(), xtagstripped=M.Model(), qname=M.Model())

def qname(ex, st, args, kw, node):
    return Ref("qname", smt.lit(attrname(ex, st, args[-1])))
def subelement(ex, st, args, kw, node):
    if not (isinstance(args[0], Ref) and args[0].model == "xel"):
        raise Unsupported("SubElement of %r" % (args[0],))
    return make(ex, st, args[0].t, args[1:], kw, node)
def element(ex, st, args, kw, node):
    return make(ex, st, None, args, kw, node)
M.EXTS["lxml.etree.QName"] = qname
M.EXTS["lxml.etree.SubElement"] = subelement
M.EXTS["lxml.etree.Element"] = element
