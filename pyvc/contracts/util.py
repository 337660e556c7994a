"""helpers for writing contracts"""
import z3
from .. import smt
from ..smt import I, B, R, A, Fold, fresh
from ..values import *
from ..exec import Contract
from .. import models as M

CT = "ucis.cover_type_t:CoverTypeT"
ST = "ucis.scope_type_t:ScopeTypeT"

def iv(x):
    return z3.IntVal(x)

def enum(ex, key, member):
    mod, nm = key.split(":")
    c = ex.prog.find_class(ex.prog.module(mod), nm)
    return c.enum_members()[member]

def pyconst(ex, mod, nm):
    """integer value of a module level constant of the code"""
    st = __import__("pyvc.exec", fromlist=["State"]).State()
    r = ex.prog.resolve(ex.prog.module(mod), nm)
    ex.modstack.append(ex.prog.module(mod))
    try:
        v = ex.wrap(r, st)
    finally:
        ex.modstack.pop()
    return z3.simplify(v.t)

def cls(ex, key):
    mod, q = key.split(":")
    return ex.prog.find_class(ex.prog.module(mod), q)

class Bad(Exception):
    """the result does not even have the shape the contract talks about"""

def field(ex, st, o, nm):
    """field of a record or of a frozen record"""
    if isinstance(o, Obj):
        c = ex.cell(st, o.id)
        if isinstance(c, RecCell):
            if nm in c.fields and not isinstance(c.fields[nm], Poison):
                return c.fields[nm]
    raise Unsupported("result has no attribute %s" % nm)

def term(ex, st, v, kind):
    if isinstance(v, Opt):
        raise Unsupported("optional value where %s expected" % kind)
    if isinstance(v, P):
        if v.kind == kind:
            return v.t
        v2 = ex.num(v)
        if kind == "real" and v2.kind == "int":
            return z3.ToReal(v2.t)
        if kind == "int" and v2.kind == "int":
            return v2.t
    raise Unsupported("%r where %s expected" % (v, kind))

def lst(ex, st, v):
    """-> (n, elem(j) -> value)"""
    if isinstance(v, Obj):
        c = ex.cell(st, v.id)
        if isinstance(c, FixCell):
            c = fix_to_list(ex, st, c)
        if isinstance(c, ListCell):
            if c.elem is None:
                return iv(0), None
            return c.n, lambda j: ex.elem(st, v.id, j)
    raise Unsupported("list expected, got %r" % (v,))

def forall_elems(ex, st, v, n, fs, what):
    """goals: list v has n elements and for each attribute the given term; fs: [(label, getter(elem value)->term, spec(j))]"""
    m, el = lst(ex, st, v)
    goals = [("number of " + what, m == n)]
    if el is None:
        return goals
    j = fresh("j", I)
    e = el(j)
    for lab, get, spec in fs:
        goals.append(("%s of %s" % (lab, what), z3.Implies(z3.And(0 <= j, j < n, m == n), get(e) == spec(j))))
    return goals

def sattr(ex, st, nm, kind):
    return lambda e: term(ex, st, field(ex, st, e, nm), kind)

def induct(nm, base, step):
    """lemma proved by natural induction: base and step are (facts, goal)"""
    return [(nm + " [base]", base[0], base[1]), (nm + " [step]", step[0], step[1])]

def induct2(nm, inv, n_inner, extra=()):
    """lemma over a depth-2 fold: inv(i, j) for all i >= 0, 0 <= j <= n_inner(i)"""
    i, j = fresh("i", I), fresh("j", I)
    ex = list(extra)
    return [(nm + " [base]", ex, inv(iv(0), iv(0))),
            (nm + " [inner step]", ex + [i >= 0, j >= 0, j < n_inner(i), inv(i, j)], inv(i, j + 1)),
            (nm + " [outer step]", ex + [i >= 0, inv(i, n_inner(i))], inv(i + 1, iv(0)))]
