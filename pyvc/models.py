"""Abstract objects: rigid source databases, event-logged destination databases, report objects, output text.

Source databases are immutable in the logic: every accessor is an uninterpreted function of the object's
identity, so "the function does not change its sources" is a frame condition by construction and any call
of a mutator on a source object is a failed obligation."""
import z3
from . import smt
from .smt import I, B, R, A, fresh
from .values import *

def F(name, *sorts):
    return z3.Function(name, *sorts)

def count(name, *sorts):
    f = z3.Function(name, *(list(sorts) + [I]))
    smt.trigger(f, lambda app, ch: [app >= 0])
    return f

# ---- accessors of source scopes and items
name = F("name", I, I)
wt = F("weight", I, I)
loc = F("loc", I, I)
noloc = F("noloc", I, B)
stype = F("scopetype", I, I)
du = F("du", I, I)
NS, S = count("NS", I, I), F("S", I, I, I, I)
NB, BI = count("NB", I, I), F("BI", I, I, I, I)
NX, X = count("NX", I), F("X", I, I, I)
bname, bdata, batl = F("bname", I, I), F("bdata", I, I), F("batl", I, I)
bkind = F("bkind", I, I)
def _items_have_kind(app, ch):
    """an item listed under a mask has one of the mask's types (C08)"""
    if not z3.is_int_value(ch[1]):
        return []
    m = ch[1].as_long()
    return [z3.Or(*[bkind(app) == (1 << b) for b in range(64) if m >> b & 1])] if m > 0 else []
smt.trigger(BI, _items_have_kind)
bloc, bnoloc = F("bloc", I, I), F("bnoloc", I, B)
NH, H = count("NH", I, I), F("H", I, I, I, I)
sfile, sline, stok, nofile = F("sfile", I, I), F("sline", I, I), F("stok", I, I), F("nofile", I, B)
fname = F("fname", I, I)

class Model:
    def unsupported(self, what):
        raise Unsupported("%s of a modelled object" % what)
    def getattr(self, ex, st, o, name, node):
        return MethV(o, name)
    def method(self, ex, st, o, name, args, kw, node):
        self.unsupported("method " + name)
    def setattr(self, ex, st, o, name, v, node):
        self.unsupported("attribute assignment " + name)
    def iterate(self, ex, st, o):
        self.unsupported("iteration")
    def truth(self, ex, st, o):
        return z3.BoolVal(True)
    def contains(self, ex, st, o, x, node):
        self.unsupported("membership")
    def getitem(self, ex, st, o, k, node):
        self.unsupported("subscript")
    def setitem(self, ex, st, o, k, v, node):
        self.unsupported("item assignment")
    def to_str(self, ex, st, o):
        self.unsupported("str()")
    def to_int(self, ex, st, o, node):
        self.unsupported("int()")
    def length(self, ex, st, o, node):
        self.unsupported("len()")
    def hasattr(self, ex, st, o, name):
        self.unsupported("hasattr")
    def call(self, ex, st, o, args, kw, node):
        self.unsupported("call")

def ival(ex, st, v, node):
    v = ex.num(ex.unopt(st, v, node))
    if isinstance(v, P) and v.kind == "int":
        return v.t
    raise Unsupported("integer expected, got %r" % (v,))

def sval(ex, st, v, node):
    v = ex.unopt(st, v, node)
    if isinstance(v, P) and v.kind == "str":
        return v.t
    raise Unsupported("string expected, got %r" % (v,))

def seq_iter(ex, st, n, get):
    """a fresh one-shot iterator"""
    return ex.new_cell(st, IterCell(SeqV(n, get), z3.IntVal(0)))

MUTATORS = ("set", "create", "add", "remove", "inc", "close", "delete")

class SrcScope(Model):
    """a scope (or database) of a source: read-only"""
    def method(self, ex, st, o, nm, args, kw, node):
        if kw:
            raise Unsupported("keyword arguments of %s" % nm)
        t = o.t
        if nm in ("getScopeName", "getInstanceName") and not args:
            return vstr(name(t))
        if nm == "getWeight" and len(args) <= 1:
            return vint(wt(t))
        if nm == "getSourceInfo" and not args:
            return Opt(noloc(t), Ref("sinfo", loc(t)))
        if nm == "getScopeType" and not args:
            return vint(stype(t))
        if nm == "getInstanceDu" and not args:
            return Ref("src", du(t))
        if nm == "getNumCrossedCoverpoints" and not args:
            return vint(NX(t))
        if nm == "getIthCrossedCoverpoint" and len(args) == 1:
            i = ival(ex, st, args[0], node)
            ex.may_raise(st, z3.Or(i < 0, i >= NX(t)), "IndexError", node)
            return Ref("src", X(t, i))
        if nm == "scopes" and len(args) == 1:
            m = ival(ex, st, args[0], node)
            return seq_iter(ex, st, NS(t, m), lambda x, i: Ref("src", S(t, m, i)))
        if nm == "coverItems" and len(args) == 1:
            m = ival(ex, st, args[0], node)
            return seq_iter(ex, st, NB(t, m), lambda x, i: Ref("item", BI(t, m, i)))
        if nm in ("historyNodes", "getHistoryNodes") and len(args) == 1:
            m = ival(ex, st, args[0], node)
            return seq_iter(ex, st, NH(t, m), lambda x, i: Ref("hist", H(t, m, i)))
        if nm == "getAPIVersion" and not args:
            return vstr(F("apiversion", I, I)(t))
        if nm.startswith(MUTATORS):
            ex.violate(st, "frame: the source database is not modified (call of %s, line %s)" % (nm, getattr(node, "lineno", "?")))
            raise Unsupported("mutation of a source object")
        raise Unsupported("method %s of a source scope" % nm)
    def setattr(self, ex, st, o, nm, v, node):
        ex.violate(st, "frame: the source database is not modified (assignment of %s, line %s)" % (nm, getattr(node, "lineno", "?")))
        raise Unsupported("mutation of a source object")

class SrcItem(Model):
    def getattr(self, ex, st, o, nm, node):
        if nm == "data":
            return Ref("cdata", o.t)
        return MethV(o, nm)
    def method(self, ex, st, o, nm, args, kw, node):
        t = o.t
        if nm == "getName" and not args:
            return vstr(bname(t))
        if nm == "getCoverData" and not args:
            return Ref("cdata", t)
        if nm == "getSourceInfo" and not args:
            return Opt(bnoloc(t), Ref("sinfo", bloc(t)))
        if nm.startswith(MUTATORS):
            ex.violate(st, "frame: the source database is not modified (call of %s, line %s)" % (nm, getattr(node, "lineno", "?")))
            raise Unsupported("mutation of a source object")
        raise Unsupported("method %s of a source item" % nm)
    def setattr(self, ex, st, o, nm, v, node):
        SrcScope.setattr(self, ex, st, o, nm, v, node)

class SrcData(Model):
    def getattr(self, ex, st, o, nm, node):
        if nm == "data":
            return vint(bdata(o.t))
        if nm == "at_least":
            return vint(batl(o.t))
        if nm == "type":
            return vint(bkind(o.t))
        raise Unsupported("cover data attribute %s" % nm)
    def setattr(self, ex, st, o, nm, v, node):
        SrcScope.setattr(self, ex, st, o, nm, v, node)

class SInfo(Model):
    def getattr(self, ex, st, o, nm, node):
        if nm == "file":
            return Opt(nofile(o.t), Ref("file", sfile(o.t)))
        if nm == "line":
            return vint(sline(o.t))
        if nm == "token":
            return vint(stok(o.t))
        raise Unsupported("source info attribute %s" % nm)

class FileM(Model):
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "getFileName" and not args:
            return vstr(fname(o.t))
        raise Unsupported("file handle method %s" % nm)

class ExcM(Model):
    def to_str(self, ex, st, o):
        return vstr(fresh("exctext", I))
    def getattr(self, ex, st, o, nm, node):
        return vstr(fresh("exctext", I))

MODELS = dict(src=SrcScope(), item=SrcItem(), cdata=SrcData(), sinfo=SInfo(), file=FileM(), exc=ExcM())
EXTS = {}

# ---------------------------------------------------------------- destination databases
# The content of a destination object is the log of its creation calls (observable arguments only).
LOGS = A(I)
snoc = F("snoc", I, I, I)
nil = z3.Int("nil")
MK = F("MK", I, I, I)                 # identity of the object created by the next call on a parent with this log
locc = F("locc", B, I, I)             # code of an optional source location
ev_bin = F("ev_bin", I, I, I, I, I)                     # name, kind, threshold, count
ev_scope = F("ev_scope", I, I, I, I, I)                 # kind, name, location, weight
ev_cross = F("ev_cross", I, I, I, I, A(I), I)           # name, location, weight, number of coverpoints, coverpoints
ev_inst = F("ev_inst", I, I, I, I)                      # name, type, design unit
ev_du = F("ev_du", I, I, I)                             # name, type
K_CG, K_CI, K_CP = (z3.IntVal(i) for i in (1, 2, 3))

def append(log, parent, ev):
    return z3.Store(log, parent, snoc(z3.Select(log, parent), ev))

def create(log, parent, ev):
    """-> (log after creating a child described by ev, identity of the child)"""
    ref = MK(parent, z3.Select(log, parent))
    return z3.Store(append(log, parent, ev), ref, nil), ref

def locterm(ex, st, v):
    if v is NONE:
        return locc(z3.BoolVal(True), z3.IntVal(0))
    if isinstance(v, Opt) and isinstance(v.v, Ref) and v.v.model == "sinfo":
        return locc(v.isnone, v.v.t)
    if isinstance(v, Ref) and v.model == "sinfo":
        return locc(z3.BoolVal(False), v.t)
    raise Unsupported("source location %r" % (v,))

ev_file = F("ev_file", I, I)

def default_kind(ex, st):
    """the default of the kind parameter of createBin, as the current tree defines it (for coverpoints and crosses alike)"""
    vals = []
    for mod, nm in (("ucis.mem.mem_coverpoint", "MemCoverpoint"), ("ucis.mem.mem_cross", "MemCross")):
        f = ex.prog.find_class(ex.prog.module(mod), nm).find("createBin")
        f = f[0] if isinstance(f, tuple) else f
        args, ds = f.node.args.args, f.node.args.defaults
        d = dict(zip([x.arg for x in args[len(args) - len(ds):]], ds)).get("kind")
        if d is None:
            raise Unsupported("createBin has no default kind")
        ex.modstack.append(f.module)
        st.frames.append({})
        try:
            vals.append(ex.ev(d, st))
        finally:
            st.frames.pop()
            ex.modstack.pop()
    if not (isinstance(vals[0], P) and isinstance(vals[1], P) and vals[0].t.eq(vals[1].t)):
        raise Unsupported("default kinds of createBin differ")
    return vals[0]

class DstScope(Model):
    SIG = dict(createScope=("name", "srcinfo", "weight", "source", "type", "flags"),
        createInstance=("name", "fileinfo", "weight", "source", "type", "du_scope", "flags"),
        createCovergroup=("name", "srcinfo", "weight", "source"), createCoverInstance=("name", "srcinfo", "weight", "source"),
        createCoverpoint=("name", "srcinfo", "weight", "source"), createCross=("name", "srcinfo", "weight", "source", "points_l"),
        createBin=("name", "srcinfo", "at_least", "count", "rhs", "kind"))
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "createFileHandle" and len(args) == 2 and not kw:
            st.heap["LOG"] = append(st.heap["LOG"], o.t, ev_file(sval(ex, st, args[0], node)))
            return Ref("file", fresh("file", I))
        sig = self.SIG.get(nm)
        if sig is None:
            raise Unsupported("method %s of a destination object" % nm)
        a = dict(zip(sig, args))
        for k, v in kw.items():
            if k in a or k not in sig:
                raise Unsupported("keyword argument %s" % k)
            a[k] = v
        if nm == "createBin" and "kind" not in a:
            a["kind"] = default_kind(ex, st)
        if len(a) != len(sig) or len(args) > len(sig):
            ex.may_raise(st, z3.BoolVal(True), "TypeError", node, "arguments of " + nm)
            raise Unsupported("arguments of %s" % nm)
        L = st.heap["LOG"]
        n = sval(ex, st, a["name"], node)
        if nm == "createBin":
            ev = ev_bin(n, ival(ex, st, a["kind"], node), ival(ex, st, a["at_least"], node), ival(ex, st, a["count"], node))
            st.heap["LOG"] = append(L, o.t, ev)
            return Ref("dstbin", fresh("dstbin", I))
        if nm == "createScope":
            ev = ev_du(n, ival(ex, st, a["type"], node))
        elif nm == "createInstance":
            d = a["du_scope"]
            if not (isinstance(d, Ref) and d.model == "dst"):
                raise Unsupported("design unit %r" % (d,))
            ev = ev_inst(n, ival(ex, st, a["type"], node), d.t)
        else:
            w = ival(ex, st, a["weight"], node)
            lc = locterm(ex, st, a["srcinfo"])
            if nm == "createCross":
                l = a["points_l"]
                c = ex.cell(st, l.id) if isinstance(l, Obj) else None
                if isinstance(c, FixCell) or (isinstance(c, ListCell) and c.elem is None):
                    c = fix_to_list(ex, st, c if isinstance(c, FixCell) else FixCell([]), SRef("dst"))
                if not (isinstance(c, ListCell) and c.elem == SRef("dst")):
                    raise Unsupported("crossed coverpoints %r" % (l,))
                ev = ev_cross(n, lc, w, c.n, c.arrs[0])
            else:
                k = {"createCovergroup": K_CG, "createCoverInstance": K_CI, "createCoverpoint": K_CP}[nm]
                ev = ev_scope(k, n, lc, w)
        st.heap["LOG"], ref = create(L, o.t, ev)
        return Ref("dst", ref)

MODELS["dst"] = DstScope()
MODELS["dstbin"] = Model()
