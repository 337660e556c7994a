"""Objects of the classes that python_jsonschema_objects builds from one of the package's schema files.

The class table is read from the schema file of the current tree on every run. An object has the declared properties,
all unset (None) at first; a value of another type is refused; assigning a list stores a copy of it."""
import json, os
from .util import *
from ..source import SRC

def tables(schema):
    """class name -> {property: json type}"""
    with open(os.path.join(SRC, "ucis/schema", schema)) as f:
        doc = json.load(f)
    out = {}
    def walk(d):
        if isinstance(d, dict):
            if isinstance(d.get("title"), str) and isinstance(d.get("properties"), dict):
                nm = "".join(w[:1].upper() + w[1:] for w in d["title"].split())
                out[nm] = {k: v.get("type") for k, v in d["properties"].items()}
            for v in d.values():
                walk(v)
        elif isinstance(d, list):
            for v in d:
                walk(v)
    walk(doc)
    return out

class JsRec(M.Model):
    def __init__(self, props):
        self.props = props
    def new(self, ex, st, cls):
        f = {}
        for p, t in self.props.items():
            if t == "array":
                f[p + "$none"] = vbool(True)
                f[p + "$list"] = ex.new_cell(st, empty_list())
            else:
                f[p] = NONE
        return ex.new_cell(st, RecCell(cls, f))
    def getattr(self, ex, st, o, nm, node):
        f = ex.cell(st, o.id).fields
        if nm + "$none" in f:
            n = z3.simplify(f[nm + "$none"].t)
            if z3.is_true(n):
                return NONE
            return f[nm + "$list"] if z3.is_false(n) else Opt(n, f[nm + "$list"])
        return MethV(o, nm)
    def setattr(self, ex, st, o, nm, v, node):
        t = self.props.get(nm)
        if t is None:
            ex.may_raise(st, z3.BoolVal(True), "ValidationError", node, "property %s is not in the schema" % nm)
            raise Unsupported("property %s is not in the schema" % nm)
        c = ex.cell(st, o.id)
        f = dict(c.fields)
        if isinstance(v, Opt):
            raise Unsupported("optional value for a schema property")
        if t == "array":
            if not (isinstance(v, Obj) and isinstance(ex.cell(st, v.id), (ListCell, FixCell))):
                raise Unsupported("value of array property %s" % nm)
            src = ex.cell(st, v.id)
            if isinstance(src, FixCell):
                src = fix_to_list(ex, st, src) if src.items else empty_list()
            dst = ex.cell(st, f[nm + "$list"].id)
            ex.set_cell(st, f[nm + "$list"].id, ListCell(src.elem, src.n, list(src.arrs), max(dst.epoch, src.epoch) + 1))
            f[nm + "$none"] = vbool(False)
        else:
            k = v.kind if isinstance(v, P) else None
            if not (t == "string" and k == "str" or t == "integer" and k == "int" or t == "number" and k in ("int", "real")):
                ex.may_raise(st, z3.BoolVal(True), "ValidationError", node, "%s is not a %s" % (nm, t))
                raise Unsupported("value of property %s" % nm)
            f[nm] = v
        st.store[o.id] = RecCell(c.cls, f) if not isinstance(st.store[o.id], AliasCell) else st.store[o.id]
        if isinstance(st.store[o.id], AliasCell):
            ex.set_cell(st, o.id, RecCell(c.cls, f))
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "as_dict" and not args and not kw:
            return ex.new_cell(st, RecCell("js:dict", {"of": o}))
        raise Unsupported("method %s of a schema object" % nm)

class JsNs(M.Model):
    def __init__(self, pre):
        self.pre = pre
    def getattr(self, ex, st, o, nm, node):
        return MethV(o, nm)
    def method(self, ex, st, o, nm, args, kw, node):
        m = M.MODELS.get("rec:%s:%s" % (self.pre, nm))
        if m is None:
            ex.may_raise(st, z3.BoolVal(True), "AttributeError", node, "the schema defines no class " + nm)
            raise Unsupported("schema class %s" % nm)
        if args:
            raise Unsupported("constructor arguments")
        r = m.new(ex, st, "%s:%s" % (self.pre, nm))
        for k, v in kw.items():
            m.setattr(ex, st, r, k, v, node)
        return r

def declare(pre, schema):
    for nm, props in tables(schema).items():
        M.MODELS["rec:%s:%s" % (pre, nm)] = JsRec(props)
    M.MODELS[pre + "_ns"] = JsNs(pre)

def optlist(ex, st, o, nm):
    """-> (unset, n, elem) of an array property"""
    c = ex.cell(st, o.id) if isinstance(o, Obj) else None
    if not (isinstance(c, RecCell) and nm + "$none" in c.fields):
        raise Unsupported("result has no array %s" % nm)
    n, el = lst(ex, st, c.fields[nm + "$list"])
    return c.fields[nm + "$none"].t, n, el
