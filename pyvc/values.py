"""Symbolic values, container shapes and cells."""
import z3
from . import smt
from .smt import I, B, R, A

class Unsupported(Exception):
    pass

class Poisoned(Unsupported):
    pass

class V:
    pass

SORT = dict(int=I, bool=B, real=R, str=I)

class P(V):
    """primitive: int, bool, real or str (strings are coded as integers)"""
    def __init__(self, kind, t, parts=None):
        self.kind, self.t, self.parts = kind, t, parts
    def __repr__(self):
        return "%s(%s)" % (self.kind, self.t)

def vint(x):
    return P("int", z3.IntVal(x) if isinstance(x, int) else x)
def vbool(x):
    return P("bool", z3.BoolVal(x) if isinstance(x, bool) else x)
def vreal(x):
    return P("real", z3.RealVal(x) if isinstance(x, (int, float)) else x)
def vstr(x):
    if isinstance(x, str):
        return mkstr([("lit", x)])
    return P("str", x)

def mkstr(parts):
    """string from segments, adjacent literals joined"""
    out = []
    for p in parts:
        if p[0] == "lit":
            if p[1] == "":
                continue
            if out and out[-1][0] == "lit":
                out[-1] = ("lit", out[-1][1] + p[1])
                continue
        out.append(p)
    if not out:
        return P("str", smt.lit(""), [("lit", "")])
    def term(p):
        return smt.lit(p[1]) if p[0] == "lit" else p[1]
    t = term(out[-1])
    for p in reversed(out[:-1]):
        t = smt.scat(term(p), t)
    return P("str", t, out)

def parts_of(v):
    return v.parts if v.parts is not None else [("t", v.t)]

class NoneV(V):
    def __repr__(self):
        return "None"
NONE = NoneV()

class Opt(V):
    def __init__(self, isnone, v):
        self.isnone, self.v = isnone, v
    def __repr__(self):
        return "Opt(%s,%r)" % (self.isnone, self.v)

class Ref(V):
    """object of a modelled (abstract) class; identity is an integer term"""
    def __init__(self, model, t):
        self.model, self.t = model, t
    def __repr__(self):
        return "Ref<%s>(%s)" % (self.model, self.t)

class Tup(V):
    def __init__(self, items):
        self.items = list(items)
    def __repr__(self):
        return "Tup%r" % (self.items,)

class Obj(V):
    """mutable local object: index of a cell in the store"""
    def __init__(self, id):
        self.id = id
    def __repr__(self):
        return "Obj#%d" % self.id

class SeqV(V):
    """re-iterable immutable sequence"""
    def __init__(self, n, get, fixed=None):
        self.n, self.get, self.fixed = n, get, fixed

class ClsV(V):
    def __init__(self, c):
        self.c = c
class FnV(V):
    def __init__(self, f, self_=None, has_self=False):
        self.f, self.self_, self.has_self = f, self_, has_self
class ModV(V):
    def __init__(self, m):
        self.m = m
class ExtV(V):
    def __init__(self, name):
        self.name = name
class BuiltinV(V):
    def __init__(self, name):
        self.name = name
class MethV(V):
    """method of a modelled reference, of a container or of a string"""
    def __init__(self, recv, name):
        self.recv, self.name = recv, name
class SuperV(V):
    def __init__(self, self_, cls, after):
        self.self_, self.cls, self.after = self_, cls, after
class Poison(V):
    def __init__(self, why):
        self.why = why
class LambdaV(V):
    def __init__(self, node, env, module):
        self.node, self.env, self.module = node, env, module

# ---------------------------------------------------------------- shapes
class ShapeMismatch(Unsupported):
    pass

class Shape:
    mutable = False
    def __eq__(self, o):
        return type(self) is type(o) and self.key() == o.key()
    def __hash__(self):
        return hash((type(self).__name__, self.key()))
    def __repr__(self):
        return "%s%s" % (type(self).__name__, self.key())

class SP(Shape):
    def __init__(self, kind):
        self.kind = kind
    def key(self):
        return (self.kind,)
    def sorts(self):
        return [SORT[self.kind]]
    def build(self, ex, st, ts, path=None):
        return P(self.kind, ts[0])
    def leaves(self, ex, st, v):
        if isinstance(v, P):
            if v.kind == self.kind:
                return [v.t]
            if self.kind == "real" and v.kind == "int":
                return [z3.ToReal(v.t)]
            if self.kind == "int" and v.kind == "bool":
                return [z3.If(v.t, z3.IntVal(1), z3.IntVal(0))]
        raise ShapeMismatch("%r is not %s" % (v, self.kind))

class SRef(Shape):
    def __init__(self, model):
        self.model = model
    def key(self):
        return (self.model,)
    def sorts(self):
        return [I]
    def build(self, ex, st, ts, path=None):
        return Ref(self.model, ts[0])
    def leaves(self, ex, st, v):
        if isinstance(v, Ref) and v.model == self.model:
            return [v.t]
        if self.model == "memobj" and isinstance(v, Obj) and isinstance(st.store.get(v.id), RecCell):
            return [ident(v.id)]
        raise ShapeMismatch("%r is not a %s" % (v, self.model))

def ident(id):
    """identity of a concrete object stored among abstract ones; different from every other identity"""
    return z3.Int("obj#%d" % id)

CLASSES = []
class SCls(Shape):
    """a class stored in a container: only read back at a key that is known"""
    def key(self):
        return ()
    def sorts(self):
        return [I]
    def build(self, ex, st, ts, path=None):
        t = z3.simplify(ts[0])
        if z3.is_int_value(t) and 0 <= t.as_long() < len(CLASSES):
            return ClsV(CLASSES[t.as_long()])
        return Poison("class stored in a container")
    def leaves(self, ex, st, v):
        if not isinstance(v, ClsV):
            raise ShapeMismatch("%r is not a class" % (v,))
        if v.c not in CLASSES:
            CLASSES.append(v.c)
        return [z3.IntVal(CLASSES.index(v.c))]

class SNone(Shape):
    def key(self):
        return ()
    def sorts(self):
        return []
    def build(self, ex, st, ts, path=None):
        return NONE
    def leaves(self, ex, st, v):
        if v is NONE:
            return []
        raise ShapeMismatch("not None")

class SOpt(Shape):
    def __init__(self, inner):
        self.inner = inner
    def key(self):
        return (self.inner,)
    @property
    def mutable(self):
        return self.inner.mutable
    def sorts(self):
        return [B] + self.inner.sorts()
    def build(self, ex, st, ts, path=None):
        if path is not None:
            path = (path[0], path[1], path[2] + (("opt",),), path[3])
        return Opt(ts[0], self.inner.build(ex, st, ts[1:], path))
    def leaves(self, ex, st, v):
        if v is NONE:
            return [z3.BoolVal(True)] + [smt.default(s) for s in self.inner.sorts()]
        if isinstance(v, Opt):
            return [v.isnone] + self.inner.leaves(ex, st, v.v)
        return [z3.BoolVal(False)] + self.inner.leaves(ex, st, v)

class STup(Shape):
    def __init__(self, items):
        self.items = tuple(items)
    def key(self):
        return self.items
    @property
    def mutable(self):
        return any(s.mutable for s in self.items)
    def sorts(self):
        return [x for s in self.items for x in s.sorts()]
    def build(self, ex, st, ts, path=None):
        out, o = [], 0
        for j, s in enumerate(self.items):
            n = len(s.sorts())
            out.append(s.build(ex, st, ts[o:o + n], None if path is None else (path[0], path[1], path[2] + (("item", j),), path[3])))
            o += n
        return Tup(out)
    def leaves(self, ex, st, v):
        if not isinstance(v, Tup) or len(v.items) != len(self.items):
            raise ShapeMismatch("tuple expected")
        return [t for s, x in zip(self.items, v.items) for t in s.leaves(ex, st, x)]

class MutShape(Shape):
    mutable = True
    def build(self, ex, st, ts, path=None):
        if path is None:
            return ex.new_cell(st, self.cell(ex, st, ts))
        return ex.new_cell(st, AliasCell(*path))
    def leaves(self, ex, st, v):
        if not isinstance(v, Obj):
            raise ShapeMismatch("%r is not %r" % (v, self))
        return self.cell_leaves(ex, st, ex.cell(st, v.id))

class SList(MutShape):
    def __init__(self, elem):
        self.elem = elem
    def key(self):
        return (self.elem,)
    def sorts(self):
        return [I] + ([A(s) for s in self.elem.sorts()] if self.elem is not None else [])
    def cell(self, ex, st, ts, id=None):
        return ListCell(self.elem, ts[0], list(ts[1:]))
    def cell_leaves(self, ex, st, c):
        if isinstance(c, FixCell):
            c = fix_to_list(ex, st, c, self.elem)
        if isinstance(c, ListCell):
            return relayout(SList(c.elem), self, [c.n] + c.arrs)
        raise ShapeMismatch("list %r vs %r" % (getattr(c, "elem", c), self.elem))

class SFix(MutShape):
    """list of constant length"""
    def __init__(self, items):
        self.items = tuple(items)
    def key(self):
        return self.items
    def sorts(self):
        return [x for s in self.items for x in s.sorts()]
    def cell(self, ex, st, ts, id=None):
        out, o = [], 0
        for s in self.items:
            n = len(s.sorts())
            if s.mutable:
                raise Unsupported("nested mutable value in a fixed list")
            out.append(s.build(ex, st, ts[o:o + n]))
            o += n
        return FixCell(out)
    def cell_leaves(self, ex, st, c):
        if not isinstance(c, FixCell) or len(c.items) != len(self.items):
            raise ShapeMismatch("fixed list expected")
        return [t for s, x in zip(self.items, c.items) for t in s.leaves(ex, st, x)]

class SDict(MutShape):
    def __init__(self, kshape, vshape):
        self.kshape, self.vshape = kshape, vshape
    def key(self):
        return (self.kshape, self.vshape)
    def sorts(self):
        vs = self.vshape.sorts() if self.vshape is not None else []
        return [A(B)] + [A(s) for s in vs] + [I, A(I)]
    def cell(self, ex, st, ts, id=None):
        return DictCell(self.kshape, self.vshape, ts[0], list(ts[1:-2]), ts[-2], ts[-1], 0)
    def cell_leaves(self, ex, st, c):
        if not isinstance(c, DictCell):
            raise ShapeMismatch("dict expected")
        return relayout(SDict(c.kshape, c.vshape), SDict(c.kshape, self.vshape), [c.dom] + c.varrs + [c.klen, c.karr])

class SRec(MutShape):
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, tuple(fields)
    def key(self):
        return (self.cls,) + self.fields
    def sorts(self):
        return [x for _, s in self.fields for x in s.sorts()]
    def build_fields(self, ex, st, ts, path):
        out, o = {}, 0
        for nm, s in self.fields:
            n = len(s.sorts())
            out[nm] = s.build(ex, st, ts[o:o + n], None if path is None else (path[0], path[1], path[2] + (("field", nm),), path[3]))
            o += n
        return out
    def cell(self, ex, st, ts, path=None):
        return RecCell(self.cls, self.build_fields(ex, st, ts, path))
    def cell_leaves(self, ex, st, c):
        if not isinstance(c, RecCell) or c.cls != self.cls:
            raise ShapeMismatch("record expected")
        out = []
        if set(c.fields) - {n for n, _ in self.fields}:
            raise ShapeMismatch("record has more fields")
        for nm, s in self.fields:
            if nm not in c.fields:
                raise ShapeMismatch("field %s missing" % nm)
            out += s.leaves(ex, st, c.fields[nm])
        return out

# ---------------------------------------------------------------- cells
class Cell:
    epoch = 0

class ListCell(Cell):
    def __init__(self, elem, n, arrs, epoch=0):
        self.elem, self.n, self.arrs, self.epoch = elem, n, arrs, epoch

class FixCell(Cell):
    def __init__(self, items, epoch=0):
        self.items, self.epoch = list(items), epoch

class DictCell(Cell):
    def __init__(self, kshape, vshape, dom, varrs, klen, karr, epoch=0):
        self.kshape, self.vshape, self.dom, self.varrs, self.klen, self.karr, self.epoch = kshape, vshape, dom, varrs, klen, karr, epoch

class RecCell(Cell):
    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

class IterCell(Cell):
    def __init__(self, seq, pos):
        self.seq, self.pos = seq, pos

class AliasCell(Cell):
    """part of element `key` of container `parent`, found by following `steps` through the element shape"""
    def __init__(self, parent, key, steps, epoch):
        self.parent, self.key, self.steps, self.epoch = parent, key, steps, epoch

def nav(shape, steps):
    """-> (sub-shape, leaf offset)"""
    off = 0
    for s in steps:
        if s[0] == "opt":
            off += 1
            shape = shape.inner
        elif s[0] == "item":
            off += sum(len(x.sorts()) for x in shape.items[:s[1]])
            shape = shape.items[s[1]]
        else:
            for nm, x in shape.fields:
                if nm == s[1]:
                    shape = x
                    break
                off += len(x.sorts())
            else:
                raise Unsupported("stale path")
    return shape, off

def subst(shape, steps, new):
    if not steps:
        return new
    s = steps[0]
    if s[0] == "opt":
        return SOpt(subst(shape.inner, steps[1:], new))
    if s[0] == "item":
        it = list(shape.items)
        it[s[1]] = subst(it[s[1]], steps[1:], new)
        return type(shape)(it)
    return SRec(shape.cls, [(n, subst(x, steps[1:], new) if n == s[1] else x) for n, x in shape.fields])

def lifted(sort, k, val=None):
    t = smt.default(sort) if val is None else val
    for _ in range(k):
        t = z3.K(I, t)
    return t

def relayout(old, new, ts, k=0):
    """leaf terms of a value of shape old -> leaf terms of shape new; k = how many container levels above"""
    if old == new:
        return list(ts)
    if isinstance(new, SOpt):
        if isinstance(old, SOpt):
            return [ts[0]] + relayout(old.inner, new.inner, ts[1:], k)
        if isinstance(old, SNone):
            return [lifted(B, k, z3.BoolVal(True))] + [lifted(s, k) for s in new.inner.sorts()]
        return [lifted(B, k)] + relayout(old, new.inner, ts, k)
    if isinstance(old, SList) and isinstance(new, SList):
        if old.elem is None:
            return [ts[0]] + [lifted(A(s), k) for s in new.elem.sorts()]
        return [ts[0]] + relayout(old.elem, new.elem, ts[1:], k + 1)
    if isinstance(old, SDict) and isinstance(new, SDict):
        if old.vshape is None:
            mid = [lifted(A(s), k) for s in new.vshape.sorts()]
        else:
            mid = relayout(old.vshape, new.vshape, ts[1:-2], k + 1)
        return [ts[0]] + mid + list(ts[-2:])
    if isinstance(old, (STup, SFix)) and type(old) is type(new) and len(old.items) == len(new.items):
        out, o = [], 0
        for a, b in zip(old.items, new.items):
            n = len(a.sorts())
            out += relayout(a, b, ts[o:o + n], k)
            o += n
        return out
    if isinstance(old, SRec) and isinstance(new, SRec) and old.cls == new.cls:
        out, o = [], 0
        for (an, a), (bn, b) in zip(old.fields, new.fields):
            n = len(a.sorts())
            out += relayout(a, b, ts[o:o + n], k)
            o += n
        return out
    if k == 0 and isinstance(old, SP) and isinstance(new, SP):
        if (old.kind, new.kind) == ("int", "real"):
            return [z3.ToReal(ts[0])]
        if (old.kind, new.kind) == ("bool", "int"):
            return [z3.If(ts[0], z3.IntVal(1), z3.IntVal(0))]
    if k == 0 and isinstance(old, SFix) and isinstance(new, SList):
        arrs = [smt.default(A(s)) for s in new.elem.sorts()]
        o = 0
        for i, a in enumerate(old.items):
            n = len(a.sorts())
            for j, t in enumerate(relayout(a, new.elem, ts[o:o + n], 0)):
                arrs[j] = z3.Store(arrs[j], i, t)
            o += n
        return [z3.IntVal(len(old.items))] + arrs
    raise ShapeMismatch("cannot convert %r to %r" % (old, new))

def empty_list():
    return ListCell(None, z3.IntVal(0), [])

def empty_dict():
    return DictCell(None, None, z3.K(I, z3.BoolVal(False)), [], z3.IntVal(0), z3.K(I, z3.IntVal(0)), 0)

def fix_to_list(ex, st, c, elem=None):
    if not c.items:
        return ListCell(elem, z3.IntVal(0), [smt.default(A(s)) for s in elem.sorts()] if elem is not None else [], c.epoch)
    if elem is None:
        elem = shape_of(ex, st, c.items[0])
        for x in c.items[1:]:
            elem = join(elem, shape_of(ex, st, x))
    arrs = [smt.default(A(s)) for s in elem.sorts()]
    for i, x in enumerate(c.items):
        arrs = [z3.Store(a, i, t) for a, t in zip(arrs, elem.leaves(ex, st, x))]
    return ListCell(elem, z3.IntVal(len(c.items)), arrs, c.epoch)

def shape_of(ex, st, v):
    if isinstance(v, P):
        return SP(v.kind)
    if isinstance(v, Ref):
        return SRef(v.model)
    if isinstance(v, ClsV):
        return SCls()
    if v is NONE:
        return SNone()
    if isinstance(v, Opt):
        return SOpt(shape_of(ex, st, v.v))
    if isinstance(v, Tup):
        return STup([shape_of(ex, st, x) for x in v.items])
    if isinstance(v, Obj):
        return cell_shape(ex, st, ex.cell(st, v.id))
    raise Unsupported("value %r cannot be stored in a container" % (v,))

def cell_shape(ex, st, c):
    if isinstance(c, ListCell):
        return SList(c.elem)
    if isinstance(c, FixCell):
        return SFix([shape_of(ex, st, x) for x in c.items])
    if isinstance(c, DictCell):
        return SDict(c.kshape, c.vshape)
    if isinstance(c, RecCell):
        return SRec(c.cls, [(k, shape_of(ex, st, x)) for k, x in sorted(c.fields.items())])
    raise Unsupported("no shape for %r" % c)

def join(a, b):
    if a == b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if isinstance(a, SNone):
        return b if isinstance(b, SOpt) else SOpt(b)
    if isinstance(b, SNone):
        return a if isinstance(a, SOpt) else SOpt(a)
    if isinstance(a, SOpt) or isinstance(b, SOpt):
        return SOpt(join(a.inner if isinstance(a, SOpt) else a, b.inner if isinstance(b, SOpt) else b))
    if SRef("memobj") in (a, b) and (isinstance(a, SRec) or isinstance(b, SRec)):
        return SRef("memobj")
    if isinstance(a, SP) and isinstance(b, SP):
        ks = {a.kind, b.kind}
        if ks == {"int", "real"}:
            return SP("real")
        if ks == {"int", "bool"}:
            return SP("int")
    if isinstance(a, STup) and isinstance(b, STup) and len(a.items) == len(b.items):
        return STup([join(x, y) for x, y in zip(a.items, b.items)])
    if isinstance(a, SFix) and isinstance(b, SFix):
        if len(a.items) == len(b.items):
            return SFix([join(x, y) for x, y in zip(a.items, b.items)])
        return SList(join(fixelem(a), fixelem(b)))
    if isinstance(a, SList) and isinstance(b, SList):
        return SList(join(a.elem, b.elem))
    if isinstance(a, SList) and isinstance(b, SFix):
        return SList(join(a.elem, fixelem(b)))
    if isinstance(a, SFix) and isinstance(b, SList):
        return SList(join(fixelem(a), b.elem))
    if isinstance(a, SDict) and isinstance(b, SDict):
        return SDict(join(a.kshape, b.kshape), join(a.vshape, b.vshape))
    if isinstance(a, SRec) and isinstance(b, SRec) and a.cls == b.cls and [n for n, _ in a.fields] == [n for n, _ in b.fields]:
        return SRec(a.cls, [(n, join(x, y)) for (n, x), (_, y) in zip(a.fields, b.fields)])
    raise ShapeMismatch("cannot join %r and %r" % (a, b))

def fixelem(f):
    e = None
    for x in f.items:
        e = join(e, x)
    return e
