"""Contracts of the C-style interface functions in ucis/__init__.py (C18): one call of the corresponding method on the
object (or on the database when no object is given), arguments unchanged and in order, result passed on."""
from .util import *

cons = z3.Function("argcons", I, I, I)
argnil = z3.IntVal(-1)
nonev = z3.IntVal(-2)
boxi, boxb, boxr, boxs = z3.Function("boxi", I, I), z3.Function("boxb", B, I), z3.Function("boxr", R, I), z3.Function("boxs", I, I)
unboxi, unboxb, unboxr, unboxs = z3.Function("unboxi", I, I), z3.Function("unboxb", I, B), z3.Function("unboxr", I, R), z3.Function("unboxs", I, I)
for _b, _u in ((boxi, unboxi), (boxb, unboxb), (boxr, unboxr), (boxs, unboxs)):
    smt.trigger(_b, lambda app, ch, u=_u: [u(app) == ch[0]])
callev = z3.Function("callev", I, I, I, I)      # receiver, method, arguments
callres = z3.Function("callres", I, I, I, I, I)    # what the call returns: receiver, method, arguments, calls before
truthy = z3.Function("truthy", I, B)

def box(v):
    if v is NONE:
        return nonev
    if isinstance(v, Opt):
        return z3.If(v.isnone, nonev, box(v.v))
    if isinstance(v, P):
        return dict(int=boxi, bool=boxb, real=boxr, str=boxs)[v.kind](v.t)
    if isinstance(v, Ref):
        return v.t
    raise Unsupported("argument %r" % (v,))

def pack(vs):
    t = argnil
    for v in reversed(vs):
        t = cons(v, t)
    return t

SIGCLS = ("ucis.ucis:UCIS", "ucis.scope:Scope", "ucis.history_node:HistoryNode")

class Stub(M.Model):
    def truth(self, ex, st, o):
        return truthy(o.t)
    def to_str(self, ex, st, o):
        return vstr(z3.Function("str_of_obj", I, I)(o.t))
    def method(self, ex, st, o, nm, args, kw, node):
        args = list(args)
        if kw:
            for k in SIGCLS:
                f = cls(ex, k).find(nm)
                if f is not None:
                    break
            else:
                raise Unsupported("keyword arguments of %s" % nm)
            names = [p.arg for p in f.node.args.args][1:]
            for n in names[len(args):]:
                if n in kw:
                    args.append(kw.pop(n))
            if kw:
                raise Unsupported("keyword arguments of %s" % nm)
        a = pack([box(x) for x in args])
        m = smt.lit(nm)
        log = st.heap["CALLS"]
        r = callres(o.t, m, a, log)
        st.heap["CALLS"] = M.snoc(log, callev(o.t, m, a))
        if nm.startswith("set") or nm in ("write", "close"):
            return NONE
        return Ref("result", r)
M.MODELS["stub"] = Stub()
M.MODELS["result"] = M.Model()
M.EXTS["logging.debug"] = M.EXTS["logging.info"] = M.EXTS["logging.warning"] = lambda ex, st, args, kw, node: NONE

INTS = ("coverindex", "property", "weight", "source", "type", "flags", "toggle_metric", "toggle_type", "toggle_dir", "recurse", "covertype")
STRS = ("name", "canonical_name", "logicalname", "physicalname", "filename", "fileworkdir", "file")

class CApi(Contract):
    props = ("C18",)
    leaf = True
    def __init__(self, fn, recv, optional, meth, order, vkind=None, result="pass"):
        self.fn, self.recv, self.optional, self.meth, self.order, self.vkind, self.result = fn, recv, optional, meth, order, vkind, result
        self.target = "ucis:" + fn
    def setup(self, ex, st):
        f = ex.prog.function(self.target)
        args, env = [], {}
        st.heap["CALLS"] = fresh("calls", I)
        for i, p in enumerate(f.node.args.args):
            n = p.arg
            if i == 0:
                v = Ref("stub", fresh("db", I))
                env["db"] = v
            elif n == self.recv:
                v = Ref("stub", fresh("obj", I))
                if self.optional:
                    v = Opt(fresh("noobj", B), v)
            elif n in INTS or (n == "value" and self.vkind == "int"):
                v = vint(fresh(n, I))
            elif n in STRS or (n == "value" and self.vkind == "str"):
                v = Opt(fresh("none_" + n, B), vstr(fresh(n, I)))
            elif n == "value" and self.vkind == "real":
                v = P("real", fresh(n, R))
            else:
                v = Opt(fresh("none_" + n, B), Ref("stub", fresh(n, I)))
            env[n] = v
            args.append(v)
        ex.ctx.update(env=env, log0=st.heap["CALLS"])
        return args
    def post(self, ex, ctx, st, ret):
        env = ctx["env"]
        if any(o not in env for o in self.order):
            raise Unsupported("parameters of %s" % self.fn)
        r = env["db"].t
        if self.recv:
            v = env[self.recv]
            r = z3.If(v.isnone, r, v.v.t) if isinstance(v, Opt) else v.t
        a = []
        for o in self.order:
            b = box(env[o])
            if o == "recurse":
                b = boxb(env[o].t == 1)
            a.append(b)
        a = pack(a)
        m = smt.lit(self.meth)
        g = [("exactly one call of %s on the object, or the database without one, with the arguments in order" % self.meth,
              st.heap["CALLS"] == M.snoc(ctx["log0"], callev(r, m, a)))]
        if self.result == "pass":
            ok = isinstance(ret, Ref) and ret.model == "result"
            g.append(("returns what the method returns", ret.t == callres(r, m, a, ctx["log0"]) if ok else z3.BoolVal(False)))
        elif self.result == 0:
            ok = isinstance(ret, P) and ret.kind in ("int", "bool")
            g.append(("returns 0", ex.num(ret).t == 0 if ok else z3.BoolVal(False)))
        return g

PROPS = [(k, {"Int": "int", "Real": "real", "String": "str", "Handle": "obj"}[k]) for k in ("Int", "Real", "String", "Handle")]
CONTRACTS = []
for _k, _v in PROPS:
    CONTRACTS.append(CApi("ucis_Get%sProperty" % _k, "obj", True, "get%sProperty" % _k, ["coverindex", "property"]))
    CONTRACTS.append(CApi("ucis_Set%sProperty" % _k, "obj", True, "set%sProperty" % _k, ["coverindex", "property", "value"], _v, None))
CONTRACTS += [
    CApi("ucis_CreateScope", "parent", True, "createScope", ["name", "sourceinfo", "weight", "source", "type", "flags"]),
    CApi("ucis_CreateInstance", "parent", True, "createInstance", ["name", "fileinfo", "weight", "source", "type", "du_scope", "flags"]),
    CApi("ucis_CreateToggle", "parent", True, "createToggle", ["name", "canonical_name", "flags", "toggle_metric", "toggle_type", "toggle_dir"]),
    CApi("ucis_CreateNextCover", "parent", False, "createNextCover", ["name", "data", "sourceinfo"]),
    CApi("ucis_RemoveScope", None, False, "removeScope", ["scope"]),
    CApi("ucis_CreateHistoryNode", None, False, "createHistoryNode", ["parent", "logicalname", "physicalname", "kind"]),
    CApi("ucis_CreateFileHandle", None, False, "createFileHandle", ["filename", "fileworkdir"]),
    CApi("ucis_SetTestData", "testhistorynode", False, "setTestData", ["testdata"], None, None),
    CApi("ucis_Write", None, False, "write", ["file", "scope", "recurse", "covertype"], None, 0),
    CApi("ucis_Close", None, False, "close", [], None, 0)]
