"""Expressions, calls and builtins."""
import ast
import z3
from . import smt
from .smt import I, B, R, A, fresh
from .values import *
from .source import Class, Func, Module, Ext

BUILTINS = {"len", "range", "enumerate", "str", "int", "float", "bool", "round", "isinstance", "print", "list", "dict", "tuple", "zip",
            "min", "max", "abs", "sum", "any", "all", "next", "iter", "reversed", "hasattr", "getattr", "super", "type", "object", "sorted",
            "Exception", "ValueError", "KeyError", "TypeError", "NotImplementedError", "StopIteration", "AssertionError", "open", "set", "map", "filter", "setattr", "id", "format", "repr", "callable", "RuntimeError"}

# string methods that leave the result of these ones alone
IDEMPOTENT = dict(strip=("str_strip",), rstrip=("str_strip", "str_rstrip"), lstrip=("str_strip", "str_lstrip"), lower=("str_lower",), upper=("str_upper",))

# their value at the few literals programs compare the result with
for _n in IDEMPOTENT:
    smt.trigger(z3.Function("str_" + _n, I, I), lambda app, ch, n=_n: [z3.Implies(ch[0] == smt.lit(x), app == smt.lit(getattr(x, n)())) for x in ("", "0", "1", "true", "false")])

class ExprMixin:
    def mod(self):
        return self.modstack[-1]

    # ------------------------------------------------------------ names
    def wrap(self, r, st):
        if isinstance(r, Class):
            return ClsV(r)
        if isinstance(r, Func):
            return FnV(r)
        if isinstance(r, Module):
            return ModV(r)
        if isinstance(r, Ext):
            return ExtV(r.name)
        if isinstance(r, tuple) and r[0] == "assign":
            self.modstack.append(r[1])
            st.frames.append({})
            try:
                return self.ev(r[2], st)
            finally:
                st.frames.pop()
                self.modstack.pop()
        raise Unsupported("unresolved name")

    def lookup(self, name, st, node=None):
        if name in st.env:
            v = st.env[name]
            if isinstance(v, Poison):
                raise Poisoned(v.why)
            return v
        for enclosing in getattr(self, "closures", [])[::-1]:
            if name in enclosing:
                v = enclosing[name]
                if isinstance(v, Poison):
                    raise Poisoned(v.why)
                return v
        r = self.prog.resolve(self.mod(), name)
        if r is not None:
            return self.wrap(r, st)
        if name in BUILTINS:
            return BuiltinV(name)
        if name == "__file__":
            return vstr(z3.Int("__file__ of " + self.mod().name))
        why = self.unbound(name)
        if why:
            self.may_raise(st, z3.BoolVal(True), why, node, "name %s is not defined" % name)
        raise Unsupported("unknown name %s (line %s)" % (name, getattr(node, "lineno", "?")))

    def unbound(self, name):
        """the exception certainly raised by reading a name without a value, or None when that is not certain"""
        import builtins
        m = self.mod()
        if m.stars or hasattr(builtins, name) or name.startswith("__") or not self.callstack:
            return None
        f = self.callstack[-1].node
        if any(isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Lambda, ast.FunctionDef, ast.ClassDef, ast.NamedExpr, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.ExceptHandler)) and n is not f for n in ast.walk(f)):
            return None
        if name in {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}:
            return "UnboundLocalError"
        for n in ast.walk(m.tree):
            if (isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load) and n.id == name) or (isinstance(n, ast.arg) and n.arg == name) or \
               (isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name) or (isinstance(n, ast.ExceptHandler) and n.name == name) or \
               (isinstance(n, ast.alias) and (n.asname or n.name).split(".")[0] == name) or (isinstance(n, (ast.Global, ast.Nonlocal)) and name in n.names):
                return None
        return "NameError"

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s (line %s)" % (type(e).__name__, getattr(e, "lineno", "?")))
        return m(e, st)

    def e_Constant(self, e, st):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return vbool(v)
        if isinstance(v, int):
            return vint(v)
        if isinstance(v, float):
            return P("real", z3.RealVal(repr(v)))
        if isinstance(v, str):
            return vstr(v)
        if isinstance(v, bytes):
            return vstr(repr(v))        # byte strings are opaque
        raise Unsupported("constant %r" % (v,))

    def e_Name(self, e, st):
        return self.lookup(e.id, st, e)

    def e_Attribute(self, e, st):
        return self.getattr(st, self.ev(e.value, st), e.attr, e)

    def e_Tuple(self, e, st):
        return Tup([self.ev(x, st) for x in self.noStar(e.elts)])

    def noStar(self, l):
        for x in l:
            if isinstance(x, ast.Starred):
                raise Unsupported("starred expression")
        return l

    def e_List(self, e, st):
        items = [self.ev(x, st) for x in self.noStar(e.elts)]
        if not items:
            return self.new_cell(st, empty_list())
        return self.new_cell(st, FixCell(items))

    def e_Dict(self, e, st):
        o = self.new_cell(st, empty_dict())
        for k, v in zip(e.keys, e.values):
            if k is None:
                raise Unsupported("dict unpacking")
            self.dict_set(st, o.id, self.ev(k, st), self.ev(v, st))
        return o

    def branch(self, st, c, f, g):
        """evaluate f when c holds and g otherwise, in place"""
        c = z3.simplify(c)
        if z3.is_true(c):
            return f(st)
        if z3.is_false(c):
            return g(st)
        pre = len(st.facts)
        s1, s2 = st.copy(), st.copy()
        s1.assume(c)
        s2.assume(z3.Not(c))
        v1 = self.guarded1(lambda: f(s1), s1)
        v2 = self.guarded1(lambda: g(s2), s2)
        if v1 is None and v2 is None:
            raise Unsupported("no feasible branch")
        if v1 is None or v2 is None:
            m, v = (s2, v2) if v1 is None else (s1, v1)
        else:
            m = self.merge(c, s1, s2, pre)
            v = self.merge_val(c, s1, s2, m, v1, v2)
        self.become(st, m)
        return v

    def guarded1(self, f, st):
        try:
            return f()
        except Poisoned:
            raise
        except Unsupported:
            if not self.feasible(st):
                return None
            raise

    def become(self, st, m):
        st.frames, st.store, st.heap, st.facts, st.trigs, st.shared, st.ghost = m.frames, m.store, m.heap, m.facts, m.trigs, m.shared, m.ghost

    def e_IfExp(self, e, st):
        c = self.truth(st, self.ev(e.test, st))
        return self.branch(st, c, lambda s: self.ev(e.body, s), lambda s: self.ev(e.orelse, s))

    def e_BoolOp(self, e, st):
        def go(i, s):
            v = self.ev(e.values[i], s)
            if i == len(e.values) - 1:
                return v
            c = self.truth(s, v)
            if isinstance(v, P) and v.kind == "bool":
                if isinstance(e.op, ast.And):
                    return self.branch(s, c, lambda x: self.tobool(x, go(i + 1, x)), lambda x: vbool(False))
                return self.branch(s, c, lambda x: vbool(True), lambda x: self.tobool(x, go(i + 1, x)))
            if isinstance(e.op, ast.And):
                return self.branch(s, c, lambda x: go(i + 1, x), lambda x: v)
            return self.branch(s, c, lambda x: v.v if isinstance(v, Opt) else v, lambda x: go(i + 1, x))
        return go(0, st)

    def tobool(self, st, v):
        # only used as a condition: `a and b` with boolean a
        return v if isinstance(v, P) and v.kind == "bool" else vbool(self.truth(st, v))

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return vbool(z3.Not(self.truth(st, v)))
        v = self.unopt(st, v, e)
        if isinstance(v, P) and v.kind in ("int", "real", "bool"):
            if isinstance(e.op, ast.USub):
                if v.kind == "bool":
                    v = self.num(v)
                return P(v.kind, z3.simplify(-v.t))
            if isinstance(e.op, ast.UAdd):
                return v
            if isinstance(e.op, ast.Invert) and v.kind == "int":
                return vint(z3.simplify(-v.t - 1))
        raise Unsupported("unary operator")

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        return self.binop(st, e.op, a, self.ev(e.right, st), e)

    def e_Compare(self, e, st):
        a = self.ev(e.left, st)
        res = []
        for op, r in zip(e.ops, e.comparators):
            b = self.ev(r, st)
            res.append(self.compare(st, op, a, b, e))
            a = b
        return vbool(z3.simplify(z3.And(*res))) if len(res) > 1 else vbool(res[0])

    def e_JoinedStr(self, e, st):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(("lit", v.value))
            else:
                if v.conversion not in (-1, 115):
                    raise Unsupported("f-string conversion")
                x = self.ev(v.value, st)
                if v.format_spec is not None:
                    fs = v.format_spec
                    if len(fs.values) == 1 and isinstance(fs.values[0], ast.Constant):
                        parts += self.fmt(st, fs.values[0].value, x, e)
                    else:
                        raise Unsupported("f-string format")
                else:
                    parts += parts_of(self.to_str(st, x))
        return mkstr(parts)

    def e_Subscript(self, e, st):
        o = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            return self.slice(st, o, e.slice, e)
        return self.getitem(st, o, self.ev(e.slice, st), e)

    def e_Lambda(self, e, st):
        return LambdaV(e, st.env, self.mod())

    def e_ListComp(self, e, st):
        return self.comp(e, st, e.elt)
    def e_GeneratorExp(self, e, st):
        return self.comp(e, st, e.elt)

    def comp(self, e, st, elt):
        """list built by the equivalent loop with append"""
        tmp = "$comp%d" % id(e)
        st.env[tmp] = self.new_cell(st, empty_list())
        return self.comp_loop(e, st, e, [ast.Expr(ast.Call(ast.Attribute(ast.Name(tmp, ast.Load()), "append", ast.Load()), [elt], []))], tmp)

    def reduce_comp(self, e, st, op):
        """sum/any/all of a comprehension, by the equivalent loop with an accumulator"""
        g, tmp = e.args[0], "$acc%d" % id_of(e)
        acc = lambda c: ast.Name(tmp, c)
        new = ast.BinOp(acc(ast.Load()), ast.Add(), g.elt) if op == "sum" else ast.BoolOp(ast.Or() if op == "any" else ast.And(), [acc(ast.Load()), ast.Call(ast.Name("bool", ast.Load()), [g.elt], [])])
        st.env[tmp] = vint(0) if op == "sum" else vbool(op == "all")
        return self.comp_loop(e, st, g, [ast.Assign([acc(ast.Store())], new)], tmp)

    def comp_loop(self, e, st, c, body, tmp):
        names = set()
        for g in c.generators:
            names |= set(self.targets(g.target))
        saved = {n: st.env[n] for n in names if n in st.env}
        for g in reversed(c.generators):
            for t in reversed(g.ifs):
                body = [ast.If(t, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        outs = self.stmt(self.memo_ast(e, body[0]), st)
        if len(outs) != 1 or outs[0][0] != "next":
            raise Unsupported("comprehension")
        self.become(st, outs[0][1])
        v = st.env.pop(tmp)
        for n in names:
            if n in saved:
                st.env[n] = saved[n]
            elif n in st.env:
                del st.env[n]
        return v

    def memo_ast(self, e, node):
        c = self.__dict__.setdefault("_ast_memo", {})
        if id(e) not in c:
            for n in ast.walk(node):
                if not hasattr(n, "lineno"):
                    n.lineno = e.lineno
                    n.col_offset = 0
            c[id(e)] = (e, node)
        return c[id(e)][1]

    def e_DictComp(self, e, st):
        tmp = "$comp%d" % id(e)
        st.env[tmp] = self.new_cell(st, empty_dict())
        return self.comp_loop(e, st, e, [ast.Assign([ast.Subscript(ast.Name(tmp, ast.Load()), e.key, ast.Store())], e.value)], tmp)

    def e_Call(self, e, st):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args and "super" not in st.env:
            f = self.callstack[-1]
            return SuperV(st.env[f.node.args.args[0].arg], None, f.cls)
        fn = self.ev(e.func, st)
        if isinstance(fn, BuiltinV) and fn.name in ("sum", "any", "all") and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], (ast.GeneratorExp, ast.ListComp)):
            return self.reduce_comp(e, st, fn.name)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                if isinstance(v, Tup):
                    args += v.items
                elif isinstance(v, Obj) and isinstance(self.cell(st, v.id), FixCell):
                    args += self.cell(st, v.id).items
                else:
                    raise Unsupported("*args")
            else:
                args.append(self.ev(a, st))
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported("**kwargs")
            kw[k.arg] = self.ev(k.value, st)
        return self.call(st, fn, args, kw, e)

    # ------------------------------------------------------------ operators
    def truth(self, st, v):
        if isinstance(v, P):
            if v.kind == "bool":
                return v.t
            if v.kind == "str":
                return v.t != smt.lit("")
            return v.t != 0
        if v is NONE:
            return z3.BoolVal(False)
        if isinstance(v, Opt):
            return z3.And(z3.Not(v.isnone), self.truth(st, v.v))
        if isinstance(v, Obj):
            c = self.cell(st, v.id)
            if isinstance(c, ListCell):
                return c.n > 0
            if isinstance(c, FixCell):
                return z3.BoolVal(bool(c.items))
            if isinstance(c, DictCell):
                return c.klen > 0
            if isinstance(c, RecCell):
                if not isinstance(c.cls, str) and c.cls.find("__bool__") or c.cls.find("__len__"):
                    raise Unsupported("truth of an object with __bool__/__len__")
                return z3.BoolVal(True)
            return z3.BoolVal(True)
        if isinstance(v, Tup):
            return z3.BoolVal(bool(v.items))
        if isinstance(v, SeqV):
            return v.n > 0
        if isinstance(v, Ref):
            return self.models[v.model].truth(self, st, v)
        return z3.BoolVal(True)

    def unopt(self, st, v, node=None, exc="TypeError"):
        if isinstance(v, Opt):
            self.may_raise(st, v.isnone, exc, node, "None")
            return v.v
        return v

    def num(self, v):
        if isinstance(v, P) and v.kind == "bool":
            return vint(z3.If(v.t, z3.IntVal(1), z3.IntVal(0)))
        return v

    def binop(self, st, op, a, b, node):
        a, b = self.unopt(st, a, node), self.unopt(st, b, node)
        if a is NONE or b is NONE:
            self.may_raise(st, z3.BoolVal(True), "TypeError", node)
            return Poison("operation on None")
        if isinstance(op, ast.Mod) and isinstance(a, P) and a.kind == "str":
            return self.percent(st, a, b, node)
        if isinstance(a, P) and isinstance(b, P):
            if a.kind == "str" and b.kind == "str" and isinstance(op, ast.Add):
                return mkstr(parts_of(a) + parts_of(b))
            if a.kind == "str" and b.kind in ("int", "bool") and isinstance(op, ast.Mult):
                n = z3.simplify(self.num(b).t)
                if z3.is_int_value(n) and 0 <= n.as_long() <= 64:
                    return mkstr(parts_of(a) * n.as_long())
                f = z3.Function("str_repeat", I, I, I)
                return vstr(f(a.t, n))
            a, b = self.num(a), self.num(b)
            if a.kind in ("int", "real") and b.kind in ("int", "real"):
                return self.arith(st, op, a, b, node)
        if isinstance(op, ast.Add) and isinstance(a, Obj) and isinstance(b, Obj):
            ca, cb = self.cell(st, a.id), self.cell(st, b.id)
            if isinstance(ca, FixCell) and isinstance(cb, FixCell):
                return self.new_cell(st, FixCell(ca.items + cb.items))
            o = self.copy_list(st, a.id)
            self.list_extend(st, o.id, b, node)
            return o
        if isinstance(op, ast.Add) and isinstance(a, Tup) and isinstance(b, Tup):
            return Tup(a.items + b.items)
        if isinstance(a, (P, Tup)) and isinstance(b, (P, Tup)):
            self.may_raise(st, z3.BoolVal(True), "TypeError", node, "operator on %r, %r" % (a, b))
            raise Unsupported("operator on %r and %r" % (a, b))
        raise Unsupported("operator %s on %r and %r" % (type(op).__name__, a, b))

    def arith(self, st, op, a, b, node):
        real = a.kind == "real" or b.kind == "real"
        x = z3.ToReal(a.t) if real and a.kind == "int" else a.t
        y = z3.ToReal(b.t) if real and b.kind == "int" else b.t
        k = "real" if real else "int"
        if isinstance(op, ast.Add):
            return P(k, x + y)
        if isinstance(op, ast.Sub):
            return P(k, x - y)
        if isinstance(op, ast.Mult):
            return P(k, x * y)
        if isinstance(op, ast.Div):
            if not real:
                x, y = z3.ToReal(x), z3.ToReal(y)
            self.may_raise(st, y == 0, "ZeroDivisionError", node)
            return P("real", x / y)
        if isinstance(op, (ast.FloorDiv, ast.Mod)) and not real:
            self.may_raise(st, y == 0, "ZeroDivisionError", node)
            if z3.is_int_value(z3.simplify(y)) and z3.simplify(y).as_long() > 0:
                return P("int", x / y if isinstance(op, ast.FloorDiv) else x % y)
            q = z3.If(y > 0, x / y, (-x) / (-y))
            return P("int", q if isinstance(op, ast.FloorDiv) else x - y * q)
        if isinstance(op, ast.FloorDiv) and real:
            self.may_raise(st, y == 0, "ZeroDivisionError", node)
            return P("real", z3.ToReal(z3.ToInt(x / y)))
        if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor, ast.LShift, ast.RShift)) and not real:
            xs, ys = z3.simplify(x), z3.simplify(y)
            if z3.is_int_value(xs) and z3.is_int_value(ys):
                p, q = xs.as_long(), ys.as_long()
                r = {"BitAnd": lambda: p & q, "BitOr": lambda: p | q, "BitXor": lambda: p ^ q, "LShift": lambda: p << q, "RShift": lambda: p >> q}[type(op).__name__]()
                return vint(r)
            if isinstance(op, (ast.BitAnd, ast.BitOr, ast.BitXor)):
                return vint(smt.bitop(type(op).__name__, x, y))
            f = z3.Function("bit" + type(op).__name__, I, I, I)
            return vint(f(x, y))
        if isinstance(op, ast.Pow):
            ys, xs = z3.simplify(y), z3.simplify(x)
            if z3.is_int_value(ys) and z3.is_int_value(xs) and 0 <= ys.as_long() <= 256:
                return vint(xs.as_long() ** ys.as_long())
            if z3.is_int_value(ys) and 0 <= ys.as_long() <= 4:
                r = z3.IntVal(1) if k == "int" else z3.RealVal(1)
                for _ in range(ys.as_long()):
                    r = r * x
                return P(k, r)
        raise Unsupported("arithmetic operator %s" % type(op).__name__)

    def eq(self, st, a, b):
        if a is b:
            return z3.BoolVal(True)
        if isinstance(a, Opt) or isinstance(b, Opt):
            na, va = (a.isnone, a.v) if isinstance(a, Opt) else (z3.BoolVal(a is NONE), None if a is NONE else a)
            nb, vb = (b.isnone, b.v) if isinstance(b, Opt) else (z3.BoolVal(b is NONE), None if b is NONE else b)
            if va is None or vb is None:
                return z3.And(na, nb)
            return z3.Or(z3.And(na, nb), z3.And(z3.Not(na), z3.Not(nb), self.eq(st, va, vb)))
        if a is NONE or b is NONE:
            return z3.BoolVal(a is NONE and b is NONE)
        if isinstance(a, P) and isinstance(b, P):
            a, b = self.num(a), self.num(b)
            if (a.kind == "str") != (b.kind == "str"):
                return z3.BoolVal(False)
            if a.kind == b.kind:
                return a.t == b.t
            x = z3.ToReal(a.t) if a.kind == "int" else a.t
            y = z3.ToReal(b.t) if b.kind == "int" else b.t
            return x == y
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return z3.BoolVal(False)
            return z3.And(*[self.eq(st, x, y) for x, y in zip(a.items, b.items)]) if a.items else z3.BoolVal(True)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.model == b.model:
            return a.t == b.t
        if isinstance(a, ClsV) and isinstance(b, ClsV):
            return z3.BoolVal(a.c is b.c)
        if isinstance(a, BuiltinV) and isinstance(b, BuiltinV):
            return z3.BoolVal(a.name == b.name)
        if isinstance(a, (BuiltinV, ClsV)) and isinstance(b, (BuiltinV, ClsV)):
            return z3.BoolVal(False)
        if isinstance(a, Obj) and isinstance(b, Obj):
            ca, cb = self.cell(st, a.id), self.cell(st, b.id)
            if isinstance(ca, RecCell) and isinstance(cb, RecCell):
                return z3.BoolVal(a.id == b.id)
        if isinstance(a, (P, Tup)) != isinstance(b, (P, Tup)):
            if not isinstance(a, (Ref,)) and not isinstance(b, (Ref,)):
                return z3.BoolVal(False)
        raise Unsupported("comparison of %r and %r" % (a, b))

    def compare(self, st, op, a, b, node):
        if isinstance(op, ast.Eq):
            return self.eq(st, a, b)
        if isinstance(op, ast.NotEq):
            return z3.Not(self.eq(st, a, b))
        if isinstance(op, (ast.Is, ast.IsNot)):
            if a is NONE or b is NONE or (isinstance(a, Ref) and isinstance(b, Ref)) or (isinstance(a, P) and a.kind == "bool" and isinstance(b, P) and b.kind == "bool"):
                r = self.eq(st, a, b)
            elif isinstance(a, Obj) and isinstance(b, Obj):
                if a.id == b.id:
                    r = z3.BoolVal(True)
                elif isinstance(st.store[a.id], AliasCell) or isinstance(st.store[b.id], AliasCell):
                    raise Unsupported("identity of container elements")
                else:
                    r = z3.BoolVal(False)
            elif isinstance(a, P) and isinstance(b, P) and a.kind == b.kind == "int" and (z3.is_int_value(a.t) or z3.is_int_value(b.t)):
                r = a.t == b.t          # enumeration members
            else:
                raise Unsupported("identity of %r and %r" % (a, b))
            return r if isinstance(op, ast.Is) else z3.Not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, b, a, node)
            return r if isinstance(op, ast.In) else z3.Not(r)
        a, b = self.unopt(st, a, node), self.unopt(st, b, node)
        if isinstance(a, P) and isinstance(b, P):
            a, b = self.num(a), self.num(b)
            if "str" in (a.kind, b.kind):
                if a.kind == b.kind:
                    f = z3.Function("str_lt", I, I, B)
                    x, y = a.t, b.t
                    return {"Lt": lambda: f(x, y), "Gt": lambda: f(y, x), "LtE": lambda: z3.Not(f(y, x)), "GtE": lambda: z3.Not(f(x, y))}[type(op).__name__]()
                self.may_raise(st, z3.BoolVal(True), "TypeError", node)
                raise Unsupported("ordering of str and number")
            x, y = a.t, b.t
            if a.kind != b.kind:
                x = z3.ToReal(x) if a.kind == "int" else x
                y = z3.ToReal(y) if b.kind == "int" else y
            return {"Lt": lambda: x < y, "Gt": lambda: x > y, "LtE": lambda: x <= y, "GtE": lambda: x >= y}[type(op).__name__]()
        if a is NONE or b is NONE:
            self.may_raise(st, z3.BoolVal(True), "TypeError", node)
            return fresh("undef", B)
        raise Unsupported("ordering of %r and %r" % (a, b))

    def contains(self, st, c, x, node):
        c = self.unopt(st, c, node)
        if isinstance(c, SeqV):
            d = getattr(c, "dict", None)
            if d is not None and getattr(c, "what", "") == "keys":
                return self.contains(st, d, x, node)
            if c.fixed is not None:
                return z3.Or(*[self.eq(st, x, y) for y in c.fixed]) if c.fixed else z3.BoolVal(False)
            raise Unsupported("membership in a sequence")
        if isinstance(c, Tup):
            return z3.Or(*[self.eq(st, x, y) for y in c.items]) if c.items else z3.BoolVal(False)
        if isinstance(c, Obj):
            cl = self.cell(st, c.id)
            if isinstance(cl, DictCell):
                if isinstance(x, Opt) or x is NONE:
                    raise Unsupported("None as dictionary key")
                kc, ks = self.keycode(x)
                if cl.kshape is not None and cl.kshape != ks:
                    raise Unsupported("key type")
                return z3.Select(cl.dom, kc)
            if isinstance(cl, FixCell):
                return z3.Or(*[self.eq(st, x, y) for y in cl.items]) if cl.items else z3.BoolVal(False)
            if isinstance(cl, ListCell) and z3.is_int_value(z3.simplify(cl.n)) and z3.simplify(cl.n).as_long() == 0:
                return z3.BoolVal(False)
            if isinstance(cl, ListCell) and cl.elem is not None and cl.elem.sorts() == [I]:
                t = cl.elem.leaves(self, st, x)[0]
                b, w = fresh("in", B), fresh("w", I)
                n, arr = cl.n, cl.arrs[0]
                if z3.is_quantifier(arr):
                    raise Unsupported("membership in a list made of a sequence")
                st.assume(z3.Implies(b, z3.And(0 <= w, w < n, smt.sel(arr, w) == t)))
                st.trigs.append(smt.Trig(arr, lambda j: z3.Implies(z3.And(z3.Not(b), 0 <= j, j < n), z3.Select(arr, j) != t)))
                return b
        if isinstance(c, Ref):
            return self.models[c.model].contains(self, st, c, x, node)
        if isinstance(c, P) and c.kind == "str":
            f = z3.Function("str_contains", I, I, B)
            return f(c.t, self.unopt(st, x, node).t)
        raise Unsupported("membership in %r" % (c,))

    # ------------------------------------------------------------ strings
    def to_str(self, st, v):
        if isinstance(v, P):
            if v.kind == "str":
                return v
            s = z3.simplify(v.t)
            if v.kind == "int":
                if z3.is_int_value(s):
                    return vstr(str(s.as_long()))
                return vstr(smt.str_of_int(v.t))
            if v.kind == "bool":
                if z3.is_true(s) or z3.is_false(s):
                    return vstr(str(z3.is_true(s)))
                return vstr(z3.If(v.t, smt.lit("True"), smt.lit("False")))
            return vstr(smt.str_of_real(v.t))
        if v is NONE:
            return vstr("None")
        if isinstance(v, Ref):
            return self.models[v.model].to_str(self, st, v)
        if isinstance(v, Opt):
            return vstr(z3.If(v.isnone, smt.lit("None"), self.to_str(st, v.v).t))
        raise Unsupported("str() of %r" % (v,))

    def fmt(self, st, spec, v, node):
        """one conversion with a format letter"""
        if spec in ("s", ""):
            return parts_of(self.to_str(st, v))
        if isinstance(v, Ref) and hasattr(self.models[v.model], "fmt"):
            return parts_of(self.models[v.model].fmt(self, st, v, spec))
        v = self.num(self.unopt(st, v, node))
        if isinstance(v, P) and spec == "d" and v.kind == "int":
            return parts_of(self.to_str(st, v))
        if isinstance(v, P) and v.kind in ("int", "real"):
            t = z3.ToReal(v.t) if v.kind == "int" and spec[-1] in "fgeF" else v.t
            return [("t", smt.fmtfn(spec, t.sort())(t))]
        raise Unsupported("format %s of %r" % (spec, v))

    def percent(self, st, a, b, node):
        args = list(b.items) if isinstance(b, Tup) else [b]
        ps = parts_of(a)
        out = []
        # dynamic precision: the format string may have a computed part right after "%."
        i = 0
        buf = list(ps)
        flat = []
        for p in buf:
            if p[0] == "lit":
                flat += [("c", ch) for ch in p[1]]
            else:
                flat.append(p)
        i = 0
        while i < len(flat):
            x = flat[i]
            if x[0] != "c" or x[1] != "%":
                if x[0] != "c" and not (z3.is_app(x[1]) and x[1].decl().eq(smt.str_of_int)):
                    # the text may itself contain conversions
                    raise Unsupported("computed text in a format string")
                out.append(("lit", x[1]) if x[0] == "c" else x)
                i += 1
                continue
            i += 1
            spec, dyn = "", None
            while i < len(flat):
                y = flat[i]
                i += 1
                if y[0] != "c":
                    if dyn is not None or not (z3.is_app(y[1]) and y[1].decl().eq(smt.str_of_int)):
                        raise Unsupported("format string")
                    dyn = y[1]
                    spec += "*"
                    continue
                spec += y[1]
                if y[1].isalpha() or y[1] == "%":
                    break
            else:
                raise Unsupported("format string")
            if spec == "%":
                out.append(("lit", "%"))
                continue
            if not args:
                self.may_raise(st, z3.BoolVal(True), "TypeError", node, "not enough arguments for format string")
                raise Unsupported("format arguments")
            v = args.pop(0)
            if dyn is not None:
                v = self.num(self.unopt(st, v, node))
                if not (isinstance(v, P) and v.kind in ("int", "real")):
                    raise Unsupported("format")
                t = z3.ToReal(v.t) if v.kind == "int" else v.t
                out.append(("t", z3.Function("fmt<%s>dyn" % spec, I, R, I)(dyn, t)))
            else:
                out += self.fmt(st, spec, v, node)
        if args:
            self.may_raise(st, z3.BoolVal(True), "TypeError", node, "not all arguments converted")
        return mkstr(out)

    def slice(self, st, o, sl, node):
        def const(x):
            if x is None:
                return None
            v = self.ev(x, st)
            t = z3.simplify(v.t) if isinstance(v, P) and v.kind == "int" else None
            if t is not None and z3.is_int_value(t):
                return t.as_long()
            raise Unsupported("slice bounds")
        if sl.step is not None:
            raise Unsupported("slice step")
        if isinstance(o, P) and o.kind == "str":
            lo, hi = const(sl.lower), const(sl.upper)
            ps = parts_of(o)
            if len(ps) == 1 and ps[0][0] == "lit":
                return vstr(ps[0][1][lo:hi])
            if lo is None and hi is not None and hi < 0 and ps[-1][0] == "lit" and len(ps[-1][1]) >= -hi:
                return mkstr(ps[:-1] + [("lit", ps[-1][1][:hi])])
            f = z3.Function("str_slice", I, I, I, I)
            return vstr(f(o.t, z3.IntVal(-999 if lo is None else lo), z3.IntVal(-999 if hi is None else hi)))
        if isinstance(o, Tup):
            return Tup(o.items[const(sl.lower):const(sl.upper)])
        if isinstance(o, Obj):
            c = self.cell(st, o.id)
            if isinstance(c, FixCell):
                return self.new_cell(st, FixCell(c.items[const(sl.lower):const(sl.upper)]))
            if isinstance(c, ListCell) and (c.elem is None or sl.lower is None and sl.upper is None):
                return self.copy_list(st, o.id)
            if isinstance(c, ListCell) and c.elem is not None:
                def bound(x, default):
                    if x is None:
                        return default
                    v = self.unopt(st, self.ev(x, st), node)
                    if not (isinstance(v, P) and v.kind == "int"):
                        raise Unsupported("slice bounds")
                    t = z3.simplify(v.t)
                    neg, pos = z3.If(c.n + t < 0, z3.IntVal(0), c.n + t), z3.If(t > c.n, c.n, t)
                    return (neg if t.as_long() < 0 else pos) if z3.is_int_value(t) else z3.If(t < 0, neg, pos)
                lo, hi = z3.simplify(bound(sl.lower, z3.IntVal(0))), z3.simplify(bound(sl.upper, c.n))
                new = self.cell(st, self.copy_list(st, o.id).id)
                arrs = list(new.arrs)
                if not (z3.is_int_value(lo) and lo.as_long() == 0):
                    arrs = [fresh("slice", a.sort()) for a in new.arrs]
                    for a, b in zip(arrs, new.arrs):
                        st.trigs.append(smt.Trig(a, lambda x, a=a, b=b: z3.Select(a, x) == z3.Select(b, x + lo)))
                r = self.new_cell(st, ListCell(new.elem, z3.If(hi < lo, z3.IntVal(0), hi - lo), arrs))
                if c.elem.mutable:
                    st.shared = st.shared | {self.root(st, o.id), r.id}
                return r
        if isinstance(o, Ref) and hasattr(self.models[o.model], "getslice"):
            return self.models[o.model].getslice(self, st, o, None if sl.lower is None else self.ev(sl.lower, st), None if sl.upper is None else self.ev(sl.upper, st), node)
        raise Unsupported("slice of %r" % (o,))

    def copy_list(self, st, id):
        c = self.cell(st, id)
        if isinstance(c, FixCell):
            return self.new_cell(st, FixCell(c.items))
        if c.elem is not None and c.elem.mutable:
            o = self.new_cell(st, ListCell(c.elem, c.n, list(c.arrs)))
            st.shared = st.shared | {self.root(st, id), o.id}
            return o
        return self.new_cell(st, ListCell(c.elem, c.n, list(c.arrs)))

    # ------------------------------------------------------------ items and attributes
    def getitem(self, st, o, k, node):
        o = self.unopt(st, o, node)
        if isinstance(o, Tup):
            t = z3.simplify(k.t) if isinstance(k, P) else None
            if t is not None and z3.is_int_value(t):
                i = t.as_long()
                if -len(o.items) <= i < len(o.items):
                    return o.items[i]
                self.may_raise(st, z3.BoolVal(True), "IndexError", node)
            raise Unsupported("tuple index")
        if isinstance(o, Obj):
            c = self.cell(st, o.id)
            if isinstance(c, DictCell):
                if c.vshape is None:
                    self.may_raise(st, z3.BoolVal(True), "KeyError", node)
                    raise Unsupported("lookup in an empty dictionary")
                k = self.unopt(st, k, node, "KeyError")
                kc, ks = self.keycode(k)
                if c.kshape != ks:
                    raise Unsupported("key type")
                self.may_raise(st, z3.Not(z3.Select(c.dom, kc)), "KeyError", node)
                return self.elem(st, o.id, kc)
            if isinstance(c, FixCell):
                t = z3.simplify(k.t) if isinstance(k, P) else None
                if t is not None and z3.is_int_value(t):
                    i = t.as_long()
                    if -len(c.items) <= i < len(c.items):
                        return c.items[i]
                    self.may_raise(st, z3.BoolVal(True), "IndexError", node)
                    raise Unsupported("index")
                c = fix_to_list(self, st, c)
                if c.elem is not None and not c.elem.mutable:
                    i = self.num(k).t
                    self.may_raise(st, z3.Or(i >= c.n, i < -c.n), "IndexError", node)
                    return c.elem.build(self, st, [smt.sel(a, z3.If(i < 0, i + c.n, i)) for a in c.arrs])
                raise Unsupported("symbolic index into a fixed list")
            if isinstance(c, ListCell):
                k = self.num(self.unopt(st, k, node))
                if not (isinstance(k, P) and k.kind == "int"):
                    raise Unsupported("index %r" % (k,))
                i = z3.simplify(k.t)
                if z3.is_int_value(i):
                    if i.as_long() < 0:
                        self.may_raise(st, c.n < -i.as_long(), "IndexError", node)
                        return self.elem(st, o.id, c.n + i.as_long())
                    self.may_raise(st, c.n <= i, "IndexError", node)
                    return self.elem(st, o.id, i)
                self.may_raise(st, z3.Or(k.t >= c.n, k.t < -c.n), "IndexError", node)
                # a possibly negative index counts from the end
                idx = k.t
                r = smt.check(st.facts, idx >= 0, st.trigs, 3.0)
                if r.status != "valid":
                    idx = z3.If(idx < 0, idx + c.n, idx)
                return self.elem(st, o.id, idx)
        if isinstance(o, SeqV):
            k = self.num(k)
            self.may_raise(st, z3.Or(k.t >= o.n, k.t < 0), "IndexError", node)
            return o.get(st, k.t)
        if isinstance(o, Ref):
            return self.models[o.model].getitem(self, st, o, k, node)
        raise Unsupported("subscript of %r" % (o,))

    def setitem(self, st, o, k, v, node, existing=False):
        o = self.unopt(st, o, node)
        if isinstance(o, Obj):
            c = self.cell(st, o.id)
            if isinstance(c, DictCell):
                if existing and not self.has_mutable(st, v):
                    # d[k] op= x: the key was just read, so the key set stays as it is
                    kc, ks = self.keycode(k)
                    sh = join(c.vshape, shape_of(self, st, v))
                    if sh == c.vshape:
                        ts = sh.leaves(self, st, v)
                        self.set_cell(st, o.id, DictCell(c.kshape, sh, c.dom, [z3.Store(a, kc, t) for a, t in zip(c.varrs, ts)], c.klen, c.karr, c.epoch))
                        return
                self.dict_set(st, o.id, k, v)
                return
            if isinstance(c, FixCell):
                t = z3.simplify(k.t) if isinstance(k, P) else None
                if t is not None and z3.is_int_value(t):
                    i = t.as_long()
                    if -len(c.items) <= i < len(c.items):
                        it = list(c.items)
                        it[i] = v
                        self.set_cell(st, o.id, FixCell(it, c.epoch))
                        return
                    self.may_raise(st, z3.BoolVal(True), "IndexError", node)
                raise Unsupported("index assignment")
            if isinstance(c, ListCell) and isinstance(k, P) and k.kind == "int" and c.elem is not None:
                self.may_raise(st, z3.Or(k.t >= c.n, k.t < 0), "IndexError", node)
                sh = join(c.elem, shape_of(self, st, v))
                if sh != c.elem:
                    c = self.relayout_cell(c, sh)
                ts = sh.leaves(self, st, v)
                self.note_sharing(st, v, o.id)
                nc = ListCell(sh, c.n, [z3.Store(a, k.t, t) for a, t in zip(c.arrs, ts)], c.epoch + 1)
                self.set_cell(st, o.id, nc)
                self.rebind(st, sh, v, o.id, k.t, (), nc.epoch)
                return
        if isinstance(o, Ref):
            return self.models[o.model].setitem(self, st, o, k, v, node)
        raise Unsupported("item assignment on %r" % (o,))

    def has_mutable(self, st, v):
        return isinstance(v, Obj) or (isinstance(v, Tup) and any(self.has_mutable(st, x) for x in v.items)) or (isinstance(v, Opt) and self.has_mutable(st, v.v))

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.setattr(st, self.ev(t.value, st), t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st)
            self.setitem(st, o, self.ev(t.slice, st), v, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.unopt(st, v, t)
            if isinstance(v, Tup) and len(v.items) == len(t.elts):
                for x, y in zip(t.elts, v.items):
                    self.assign(x, y, st)
            elif isinstance(v, Obj) and isinstance(self.cell(st, v.id), FixCell) and len(self.cell(st, v.id).items) == len(t.elts):
                for x, y in zip(t.elts, self.cell(st, v.id).items):
                    self.assign(x, y, st)
            else:
                raise Unsupported("unpacking of %r" % (v,))
        else:
            raise Unsupported("assignment target")

    def getattr(self, st, o, name, node):
        if isinstance(o, Opt):
            self.may_raise(st, o.isnone, "AttributeError", node, "None has no attribute " + name)
            o = o.v
        if o is NONE:
            self.may_raise(st, z3.BoolVal(True), "AttributeError", node, "None." + name)
            raise Unsupported("attribute of None")
        if isinstance(o, Obj):
            c = self.cell(st, o.id)
            if isinstance(c, RecCell):
                if name in c.fields:
                    v = c.fields[name]
                    if isinstance(v, Poison):
                        raise Poisoned(v.why)
                    return v
                if name == "__class__":
                    return ClsV(c.cls)
                if isinstance(c.cls, str):
                    return self.models["rec:" + c.cls].getattr(self, st, o, name, node)
                m = c.cls.find(name)
                if m is not None:
                    if "property" in m.deco:
                        return self.call(st, FnV(m, o, True), [], {}, node)
                    if "staticmethod" in m.deco:
                        return FnV(m)
                    if "classmethod" in m.deco:
                        return FnV(m, ClsV(c.cls), True)
                    return FnV(m, o, True)
                a = c.cls.find_assign(name)
                if a is not None:
                    for b in c.cls.mro():
                        g = st.ghost.get(("clsattr", b.key, name))
                        if g is not None:
                            return g
                    self.modstack.append(a[0].module)
                    st.frames.append({})
                    try:
                        return self.ev(a[1], st)
                    finally:
                        st.frames.pop()
                        self.modstack.pop()
                nc = self.nested(c.cls, name)
                if nc is not None:
                    return ClsV(nc)
                self.may_raise(st, z3.BoolVal(True), "AttributeError", node, name)
                raise Unsupported("attribute %s of a %s" % (name, c.cls.name))
            return MethV(o, name)
        if isinstance(o, Ref):
            return self.models[o.model].getattr(self, st, o, name, node)
        if isinstance(o, ClsV):
            if o.c.is_enum():
                m = o.c.enum_members()
                if name in m:
                    return vint(m[name])
            nc = self.nested(o.c, name)
            if nc is not None:
                return ClsV(nc)
            m = o.c.find(name)
            if m is not None:
                if "classmethod" in m.deco:
                    return FnV(m, o, True)
                return FnV(m)
            a = o.c.find_assign(name)
            if a is not None:
                g = st.ghost.get(("clsattr", o.c.key, name))
                if g is not None:
                    return g
                self.modstack.append(a[0].module)
                st.frames.append({})
                try:
                    return self.ev(a[1], st)
                finally:
                    st.frames.pop()
                    self.modstack.pop()
            raise Unsupported("class attribute %s.%s" % (o.c.name, name))
        if isinstance(o, ModV):
            r = self.prog.resolve(o.m, name)
            if r is None:
                r = self.prog.module(o.m.name + "." + name)
            if r is None:
                raise Unsupported("module attribute %s" % name)
            return self.wrap(r, st)
        if isinstance(o, ExtV):
            h = self.exts.get("@%s.%s" % (o.name, name))
            if h is not None:
                return h(self, st, node)
            return ExtV(o.name + "." + name)
        if isinstance(o, SuperV):
            cls = self.cell(st, o.self_.id).cls if isinstance(o.self_, Obj) else (o.self_.c if isinstance(o.self_, ClsV) else None)
            if cls is None:
                raise Unsupported("super() of %r" % (o.self_,))
            m = cls.find(name, o.after)
            if m is None:
                if name == "__init__":
                    return BuiltinV("$noop")
                raise Unsupported("super().%s" % name)
            return FnV(m, o.self_, True)
        if isinstance(o, P):
            if o.kind == "int" and name in ("value",):
                return o
            return MethV(o, name)
        if isinstance(o, (SeqV, Tup)):
            return MethV(o, name)
        raise Unsupported("attribute %s of %r" % (name, o))

    def nested(self, cls, name):
        for c in cls.mro():
            if name in c.nested:
                return c.nested[name]
        return None

    def setattr(self, st, o, name, v, node):
        if isinstance(o, Opt):
            self.may_raise(st, o.isnone, "AttributeError", node)
            o = o.v
        if isinstance(o, Obj):
            c = self.cell(st, o.id)
            if isinstance(c, RecCell):
                if isinstance(c.cls, str):
                    return self.models["rec:" + c.cls].setattr(self, st, o, name, v, node)
                f = dict(c.fields)
                f[name] = v
                self.set_cell(st, o.id, RecCell(c.cls, f))
                return
        if isinstance(o, Ref):
            return self.models[o.model].setattr(self, st, o, name, v, node)
        if isinstance(o, ClsV):
            st.ghost = dict(st.ghost)
            st.ghost[("clsattr", o.c.key, name)] = v
            return
        raise Unsupported("attribute assignment on %r" % (o,))

    # ------------------------------------------------------------ calls
    def call(self, st, fn, args, kw, node):
        self.tick()
        if isinstance(fn, FnV):
            if fn.has_self:
                args = [fn.self_] + args
            return self.call_func(st, fn.f, args, kw, node)
        if isinstance(fn, ClsV):
            return self.construct(st, fn.c, args, kw, node)
        if isinstance(fn, BuiltinV):
            m = getattr(self, "b_" + fn.name.replace("$", "_"), None)
            if m is None:
                raise Unsupported("builtin %s" % fn.name)
            return m(st, args, kw, node)
        if isinstance(fn, MethV):
            return self.method(st, fn.recv, fn.name, args, kw, node)
        if isinstance(fn, ExtV):
            h = self.exts.get(fn.name)
            if h is None:
                raise Unsupported("external function %s (line %s)" % (fn.name, getattr(node, "lineno", "?")))
            return h(self, st, args, kw, node)
        if isinstance(fn, LambdaV):
            return self.call_lambda(st, fn, args, kw, node)
        if isinstance(fn, Ref):
            return self.models[fn.model].call(self, st, fn, args, kw, node)
        raise Unsupported("call of %r" % (fn,))

    def call_lambda(self, st, fn, args, kw, node):
        a = fn.node.args
        if a.vararg or a.kwarg or a.kwonlyargs or kw or len(args) != len(a.args):
            raise Unsupported("lambda call")
        env = {p.arg: v for p, v in zip(a.args, args)}
        if not hasattr(self, "closures"):
            self.closures = []
        self.closures.append(fn.env)
        self.modstack.append(fn.module)
        st.frames.append(env)
        try:
            if isinstance(fn.node, ast.Lambda):
                v = self.ev(fn.node.body, st)
            else:
                outs = self.block(fn.node.body, st)
                rets = self.merge_all([(s, v if k == "return" else NONE) for k, s, v in outs])
                if len(rets) != 1:
                    raise Unsupported("paths of a local function cannot be merged")
                self.become(st, rets[0][0])
                v = rets[0][1]
            st.frames.pop()
            return v
        finally:
            self.closures.pop()
            self.modstack.pop()

    def bind(self, st, f, args, kw, node):
        a = f.node.args
        if a.kwarg or a.posonlyargs:
            raise Unsupported("parameters of %s" % f.key)
        names = [p.arg for p in a.args]
        env = {}
        args = list(args)
        if len(args) > len(names):
            if a.vararg is None:
                self.may_raise(st, z3.BoolVal(True), "TypeError", node, "too many arguments for " + f.key)
                raise Unsupported("too many arguments for %s" % f.key)
            env[a.vararg.arg] = Tup(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = Tup([])
        for n, v in zip(names, args):
            env[n] = v
        for k, v in kw.items():
            if k in env or (k not in names and k not in [p.arg for p in a.kwonlyargs]):
                raise Unsupported("keyword argument %s" % k)
            env[k] = v
        nd = len(a.defaults)
        for i, n in enumerate(names):
            if n not in env:
                j = i - (len(names) - nd)
                if j < 0:
                    self.may_raise(st, z3.BoolVal(True), "TypeError", node, "missing argument %s" % n)
                    raise Unsupported("missing argument %s of %s" % (n, f.key))
                d = a.defaults[j]
                if isinstance(d, (ast.List, ast.Dict, ast.Set)):
                    raise Unsupported("mutable default argument of %s" % f.key)
                self.modstack.append(f.module)
                st.frames.append({})
                try:
                    env[n] = self.ev(d, st)
                finally:
                    st.frames.pop()
                    self.modstack.pop()
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in env:
                if d is None:
                    raise Unsupported("missing keyword argument")
                env[p.arg] = self.ev(d, st)
        return env

    def call_func(self, st, f, args, kw, node):
        c = self.contracts.get(f.key)
        if c is not None and not (self.callstack == [] and c is self.contract):
            env = self.bind(st, f, args, kw, node)
            order = [p.arg for p in f.node.args.args]
            self.applied.add(f.key)
            r = c.apply(self, st, [env[n] for n in order], node)
            if r is not None:
                return r
        return self.inline(st, f, args, kw, node)

    def inline(self, st, f, args, kw, node):
        if sum(1 for g in self.callstack if g.key == f.key) >= 1 and f.key not in getattr(self.contract, "unroll", ()):
            raise Unsupported("recursive call of %s without contract" % f.key)
        if len(self.callstack) > 25:
            raise Unsupported("call depth")
        self.inlined.add(f.key)
        env = self.bind(st, f, args, kw, node)
        outs = self.run_body(st, f, env)
        rets = self.merge_all([(s, v) for s, v in outs])
        if not rets:
            # every path raises: the caller's path ends here
            st.assume(z3.BoolVal(False))
            return Poison("call never returns")
        if len(rets) != 1:
            raise Unsupported("paths of %s cannot be merged" % f.key)
        self.become(st, rets[0][0])
        return rets[0][1]

    def run_body(self, st, f, env):
        """-> [(state, value)]; the callee frame is popped"""
        for n in ast.walk(f.node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return self.run_generator(st, f, env)
        st.frames.append(env)
        self.callstack.append(f)
        self.modstack.append(f.module)
        closures, self.closures = getattr(self, "closures", []), []
        try:
            outs = self.block(f.node.body, st)
        finally:
            self.callstack.pop()
            self.modstack.pop()
            self.closures = closures
        res = []
        for k, s, v in outs:
            if k not in ("return", "next"):
                raise Unsupported("break outside loop")
            s.frames.pop()
            res.append((s, v if k == "return" else NONE))
        return res

    def run_generator(self, st, f, env):
        raise Unsupported("generator function %s" % f.key)

    def construct(self, st, c, args, kw, node):
        if c.is_enum():
            v = self.num(self.unopt(st, args[0], node))
            if isinstance(v, P) and v.kind == "int":
                t = z3.simplify(v.t)
                mem = c.enum_members()
                flag = any(b.endswith("Flag") for b in c.ext_bases())
                if z3.is_int_value(t):
                    if t.as_long() in mem.values() or flag:
                        return v
                    self.may_raise(st, z3.BoolVal(True), "ValueError", node)
                    raise Unsupported("enum value")
                if not flag:
                    self.may_raise(st, z3.And(*[v.t != x for x in set(mem.values())]), "ValueError", node)
                return v
            raise Unsupported("enum construction")
        h = self.contracts.get("new " + c.key)
        if h is not None:
            r = h.apply(self, st, args, node)
            if r is not None:
                return r
        eb = [b for b in c.ext_bases() if b not in ("object", "typing.Generic")]
        if eb and not all(b.startswith(("builtins.", "enum.")) for b in eb):
            pass
        o = self.new_cell(st, RecCell(c, {}))
        m = c.find("__init__")
        if m is not None:
            self.call_func(st, m, [o] + args, kw, node)
        elif args or kw:
            raise Unsupported("constructor arguments of %s" % c.key)
        return o

    # ------------------------------------------------------------ methods of containers and strings
    def method(self, st, o, name, args, kw, node):
        if isinstance(o, Obj):
            c = self.cell(st, o.id)
            if isinstance(c, (ListCell, FixCell)):
                return self.list_method(st, o, c, name, args, kw, node)
            if isinstance(c, DictCell):
                return self.dict_method(st, o, c, name, args, kw, node)
            if isinstance(c, RecCell) and isinstance(c.cls, str):
                return self.models["rec:" + c.cls].method(self, st, o, name, args, kw, node)
            if isinstance(c, IterCell) and name == "__next__":
                return self.b_next(st, [o], {}, node)
            if isinstance(c, IterCell) and name == "__iter__":
                return o
        if isinstance(o, P) and o.kind == "str":
            return self.str_method(st, o, name, args, kw, node)
        if isinstance(o, Ref):
            try:
                return self.models[o.model].method(self, st, o, name, args, kw, node)
            except Unsupported as e:
                f = self.own_method(st, o, name) if str(e).startswith("method") else None
                if f is None:
                    raise
            return self.call_func(st, f, [o] + args, kw, node)
        raise Unsupported("method %s of %r" % (name, o))

    def own_method(self, st, o, name):
        """a method of the class under verification, called on a modelled self (a helper taken out of the function)"""
        t = getattr(self.contract, "target", None)
        if not t or "." not in t.split(":")[1] or t.startswith("new ") or t.endswith("." + name):
            return None
        mod, q = t.split(":")
        m = self.prog.module(mod)
        c = self.prog.find_class(m, q.rsplit(".", 1)[0]) if m is not None else None
        if c is None or not any(v is o or isinstance(v, Ref) and v.model == o.model and v.t.eq(o.t) for f in st.frames for k, v in f.items() if k == "self"):
            return None
        return c.methods.get(name)

    def list_extend(self, st, id, v, node):
        items = None
        if isinstance(v, Tup):
            items = v.items
        elif isinstance(v, Obj) and isinstance(self.cell(st, v.id), FixCell):
            items = self.cell(st, v.id).items
        if items is not None:
            for x in items:
                self.list_append(st, id, x)
            return
        # the equivalent loop
        a, b = "$ext%d" % id_of(node), "$src%d" % id_of(node)
        st.env[a], st.env[b] = Obj(id), v
        loop = self.memo_ast(node, ast.For(ast.Name("$x", ast.Store()), ast.Name(b, ast.Load()), [ast.Expr(ast.Call(ast.Attribute(ast.Name(a, ast.Load()), "append", ast.Load()), [ast.Name("$x", ast.Load())], []))], []))
        outs = self.stmt(loop, st)
        if len(outs) != 1 or outs[0][0] != "next":
            raise Unsupported("extend")
        self.become(st, outs[0][1])
        for k in (a, b, "$x"):
            st.env.pop(k, None)

    def list_method(self, st, o, c, name, args, kw, node):
        if name == "append" and len(args) == 1:
            self.list_append(st, o.id, args[0])
            return NONE
        if name == "extend" and len(args) == 1:
            self.list_extend(st, o.id, args[0], node)
            return NONE
        if name == "copy" and not args:
            return self.copy_list(st, o.id)
        if name == "insert" and isinstance(c, FixCell) and isinstance(args[0], P) and z3.is_int_value(z3.simplify(args[0].t)):
            it = list(c.items)
            it.insert(z3.simplify(args[0].t).as_long(), args[1])
            self.set_cell(st, o.id, FixCell(it, c.epoch + 1))
            return NONE
        if name == "insert" and isinstance(c, ListCell) and len(args) == 2 and c.elem is not None and not c.elem.mutable:
            i = self.num(args[0]).t
            i = z3.If(i < 0, z3.If(i + c.n < 0, z3.IntVal(0), i + c.n), z3.If(i > c.n, c.n, i))
            sh = join(c.elem, shape_of(self, st, args[1]))
            if sh != c.elem:
                c = self.relayout_cell(c, sh)
            ts = sh.leaves(self, st, args[1])
            arrs = []
            for a, t in zip(c.arrs, ts):
                b = fresh("inserted", a.sort())
                st.trigs.append(smt.Trig(b, lambda j, a=a, b=b, t=t: z3.Select(b, j) == z3.If(j == i, t, z3.If(j < i, z3.Select(a, j), z3.Select(a, j - 1)))))
                arrs.append(b)
            self.set_cell(st, o.id, ListCell(sh, c.n + 1, arrs, c.epoch + 1))
            return NONE
        if name == "clear" and not args:
            self.set_cell(st, o.id, ListCell(None, z3.IntVal(0), [], c.epoch + 1))
            return NONE
        raise Unsupported("list method %s" % name)

    def dict_view(self, st, id, what):
        c = self.cell(st, id)
        ep = c.epoch
        def key(x, i):
            d = self.cell(x, id)
            return self.unkey(d.kshape, smt.sel(d.karr, i))
        def val(x, i):
            d = self.cell(x, id)
            return self.elem(x, id, smt.sel(d.karr, i))
        get = {"keys": key, "values": val, "items": lambda x, i: Tup([key(x, i), val(x, i)])}[what]
        if c.kshape is None:
            s = SeqV(z3.IntVal(0), get, fixed=[])
        else:
            s = SeqV(c.klen, get)
        s.dict, s.what, s.src = Obj(id), what, id
        return s

    def dict_method(self, st, o, c, name, args, kw, node):
        if name in ("keys", "values", "items") and not args:
            return self.dict_view(st, o.id, name)
        if name == "get" and 1 <= len(args) <= 2:
            d = args[1] if len(args) == 2 else NONE
            if c.vshape is None:
                return d
            k = args[0]
            kc, ks = self.keycode(k)
            if ks != c.kshape:
                raise Unsupported("key type")
            return self.branch(st, z3.Select(c.dom, kc), lambda s: self.elem(s, o.id, kc), lambda s: d)
        if name == "setdefault" and len(args) == 2:
            k = args[0]
            kc, ks = self.keycode(k)
            has = z3.Select(c.dom, kc) if c.kshape is not None else z3.BoolVal(False)
            # a default written in place is not known by any other name
            temp = isinstance(args[1], Obj) and node is not None and isinstance(node.args[1], (ast.List, ast.Dict, ast.ListComp, ast.DictComp))
            def present(s):
                if temp:
                    s.store.pop(args[1].id, None)
                return self.elem(s, o.id, kc)
            def absent(s):
                self.dict_set(s, o.id, k, args[1])
                return present(s)
            return self.branch(st, has, present, absent)
        if name == "copy" and not args and (c.vshape is None or not c.vshape.mutable):
            return self.new_cell(st, DictCell(c.kshape, c.vshape, c.dom, list(c.varrs), c.klen, c.karr, 0))
        if name == "__contains__":
            return vbool(self.contains(st, o, args[0], node))
        raise Unsupported("dict method %s" % name)

    def str_method(self, st, o, name, args, kw, node):
        ps = parts_of(o)
        islit = len(ps) == 1 and ps[0][0] == "lit"
        if name in ("strip", "lower", "upper", "rstrip", "lstrip") and not args:
            if islit:
                return vstr(getattr(ps[0][1], name)())
            if len(ps) > 1:
                # an uninterpreted function would stand for more than the method can do
                ps = list(ps)
                for at, side in ((-1, "rstrip"), (0, "lstrip")):
                    while side in name or name == "strip":
                        if ps[at][0] != "lit":
                            raise Unsupported("str.%s of a concatenation" % name)
                        ps[at] = ("lit", getattr(ps[at][1], side)())
                        if ps[at][1]:
                            break
                        ps.pop(at)
                        if not ps:
                            return vstr("")
                if name in ("lower", "upper"):
                    raise Unsupported("str.%s of a concatenation" % name)
                return mkstr(ps)
            fn = z3.Function("str_" + name, I, I)
            def on(t):
                if z3.is_app_of(t, z3.Z3_OP_ITE):
                    return z3.If(t.arg(0), on(t.arg(1)), on(t.arg(2)))
                l = smt.lit_of(t.as_long()) if z3.is_int_value(t) else None
                if l is not None:
                    return smt.lit(getattr(l, name)())
                return t if z3.is_app(t) and t.decl().name() in IDEMPOTENT[name] else fn(t)
            return vstr(on(o.t))
        if name == "format":
            if islit and not kw:
                txt = ps[0][1]
                out, i, n = [], 0, 0
                import string
                for litt, field, spec, conv in string.Formatter().parse(txt):
                    out.append(("lit", litt))
                    if field is None:
                        continue
                    if conv or (field and not field.isdigit()):
                        raise Unsupported("format field")
                    j = int(field) if field else n
                    n += 1
                    if j >= len(args):
                        raise Unsupported("format arguments")
                    out += self.fmt(st, spec or "s", args[j], node) if not spec else self.fmt(st, spec, args[j], node)
                return mkstr(out)
        if name in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], P) and args[0].kind == "str":
            qs = parts_of(args[0])
            qlit = qs[0][1] if len(qs) == 1 and qs[0][0] == "lit" else None
            if qlit == "":
                return vbool(z3.BoolVal(True))
            if len(ps) > 1 or len(qs) > 1:
                # an uninterpreted function would stand for more than the method can do
                end = ps[0 if name == "startswith" else -1]
                if qlit is not None and end[0] == "lit" and (len(end[1]) >= len(qlit) or not getattr(qlit, name)(end[1])):
                    return vbool(z3.BoolVal(getattr(end[1], name)(qlit)))
                raise Unsupported("str.%s of a concatenation" % name)
            fn = z3.Function("str_" + name, I, I, B)
            def at(t):
                if z3.is_app_of(t, z3.Z3_OP_ITE):
                    return z3.If(t.arg(0), at(t.arg(1)), at(t.arg(2)))
                l = smt.lit_of(t.as_long()) if z3.is_int_value(t) else None
                if l is not None and qlit is not None:
                    return z3.BoolVal(getattr(l, name)(qlit))
                return fn(t, args[0].t)
            return vbool(at(o.t))
        if name == "join" and len(args) == 1 and islit:
            a = args[0]
            items = a.items if isinstance(a, Tup) else (self.cell(st, a.id).items if isinstance(a, Obj) and isinstance(self.cell(st, a.id), FixCell) else None)
            if items is not None:
                out = []
                for i, x in enumerate(items):
                    if i:
                        out.append(("lit", ps[0][1]))
                    out += parts_of(x)
                return mkstr(out)
        if name == "find" and len(args) == 1:
            return vint(z3.Function("str_find", I, I, I)(o.t, args[0].t))
        raise Unsupported("str method %s" % name)

    # ------------------------------------------------------------ builtins
    def b__noop(self, st, args, kw, node):
        return NONE

    def b_len(self, st, args, kw, node):
        v = self.unopt(st, args[0], node)
        if isinstance(v, Obj):
            c = self.cell(st, v.id)
            if isinstance(c, ListCell):
                return vint(c.n)
            if isinstance(c, FixCell):
                return vint(len(c.items))
            if isinstance(c, DictCell):
                return vint(c.klen)
        if isinstance(v, Tup):
            return vint(len(v.items))
        if isinstance(v, SeqV):
            return vint(v.n)
        if isinstance(v, P) and v.kind == "str":
            ps = parts_of(v)
            if len(ps) == 1 and ps[0][0] == "lit":
                return vint(len(ps[0][1]))
            f = z3.Function("str_len", I, I)
            st.assume(f(v.t) >= 0)
            return vint(f(v.t))
        if isinstance(v, Ref):
            return self.models[v.model].length(self, st, v, node)
        raise Unsupported("len of %r" % (v,))

    def b_range(self, st, args, kw, node):
        a = [self.num(self.unopt(st, x, node)).t for x in args]
        lo, hi = (z3.IntVal(0), a[0]) if len(a) == 1 else (a[0], a[1])
        if len(a) == 3:
            raise Unsupported("range step")
        l, h = z3.simplify(lo), z3.simplify(hi)
        if z3.is_int_value(l) and z3.is_int_value(h) and h.as_long() - l.as_long() <= 16:
            return SeqV(z3.IntVal(max(0, h.as_long() - l.as_long())), None, fixed=[vint(i) for i in range(l.as_long(), h.as_long())])
        n = hi if smt.is_zero(l) else hi - lo
        # length of an empty range is 0
        r = smt.check(st.facts, n >= 0, st.trigs, 3.0)
        if r.status != "valid":
            n = z3.If(n >= 0, n, z3.IntVal(0))
        return SeqV(n, (lambda x, i: vint(i)) if smt.is_zero(l) else (lambda x, i: vint(lo + i)))

    def as_seq(self, st, v, node):
        v = self.unopt(st, v, node)
        if isinstance(v, SeqV):
            return v
        if isinstance(v, Tup):
            return SeqV(z3.IntVal(len(v.items)), None, fixed=list(v.items))
        if isinstance(v, Obj):
            c = self.cell(st, v.id)
            if isinstance(c, FixCell):
                return SeqV(z3.IntVal(len(c.items)), None, fixed=list(c.items))
            if isinstance(c, ListCell):
                if c.elem is None:
                    return SeqV(z3.IntVal(0), None, fixed=[])
                s = SeqV(c.n, lambda x, i, id=v.id: self.elem(x, id, i))
                s.src = v.id
                return s
            if isinstance(c, DictCell):
                return self.dict_view(st, v.id, "keys")
            if isinstance(c, IterCell) and smt.is_zero(c.pos):
                self.set_cell(st, v.id, IterCell(c.seq, c.seq.n))
                return c.seq
        if isinstance(v, Ref):
            return self.as_seq(st, self.models[v.model].iterate(self, st, v), node)
        raise Unsupported("sequence from %r" % (v,))

    def b_enumerate(self, st, args, kw, node):
        q = self.as_seq(st, args[0], node)
        start = args[1] if len(args) > 1 else kw.get("start", vint(0))
        if q.fixed is not None:
            return SeqV(q.n, None, fixed=[Tup([vint(z3.simplify(start.t + i)), x]) for i, x in enumerate(q.fixed)])
        s = SeqV(q.n, lambda x, i: Tup([vint(i if smt.is_zero(start.t) else start.t + i), q.get(x, i)]))
        s.src = getattr(q, "src", None)
        return s

    def b_zip(self, st, args, kw, node):
        qs = [self.as_seq(st, a, node) for a in args]
        if all(q.fixed is not None for q in qs):
            return SeqV(z3.IntVal(min(len(q.fixed) for q in qs)), None, fixed=[Tup(list(t)) for t in zip(*[q.fixed for q in qs])])
        if any(q.fixed is not None for q in qs):
            raise Unsupported("zip")
        n = qs[0].n
        for q in qs[1:]:
            if not q.n.eq(n):
                n = z3.If(q.n < n, q.n, n)
        return SeqV(n, lambda x, i: Tup([q.get(x, i) for q in qs]))

    def b_reversed(self, st, args, kw, node):
        q = self.as_seq(st, args[0], node)
        if q.fixed is not None:
            return SeqV(q.n, None, fixed=q.fixed[::-1])
        return SeqV(q.n, lambda x, i: q.get(x, q.n - 1 - i))

    def b_iter(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, Obj) and isinstance(self.cell(st, v.id), IterCell):
            return v
        return self.new_cell(st, IterCell(self.as_seq(st, v, node), z3.IntVal(0)))

    def b_next(self, st, args, kw, node):
        o = args[0]
        if isinstance(o, Ref):
            o = self.models[o.model].iterate(self, st, o)
        if not (isinstance(o, Obj) and isinstance(self.cell(st, o.id), IterCell)):
            raise Unsupported("next of %r" % (o,))
        c = self.cell(st, o.id)
        def more(s):
            d = self.cell(s, o.id)
            if d.seq.fixed is not None:
                p = z3.simplify(d.pos)
                v = d.seq.fixed[p.as_long()]
            else:
                v = d.seq.get(s, d.pos)
            self.set_cell(s, o.id, IterCell(d.seq, z3.simplify(d.pos + 1)))
            return v
        if len(args) == 1:
            self.may_raise(st, c.pos >= c.seq.n, "StopIteration", node)
            return more(st)
        return self.branch(st, c.pos < c.seq.n, more, lambda s: args[1])

    def b_str(self, st, args, kw, node):
        return self.to_str(st, args[0]) if args else vstr("")
    def b_int(self, st, args, kw, node):
        v = self.unopt(st, args[0], node)
        if isinstance(v, P):
            if v.kind in ("int", "bool"):
                return self.num(v)
            if v.kind == "str":
                f = z3.Function("is_int_text", I, B)
                ps = parts_of(v)
                if len(ps) == 1 and ps[0][0] == "lit":
                    try:
                        return vint(int(ps[0][1]))
                    except ValueError:
                        self.may_raise(st, z3.BoolVal(True), "ValueError", node)
                        raise Unsupported("int of a literal")
                self.may_raise(st, z3.Not(f(v.t)), "ValueError", node)
                return vint(smt.int_of_str(v.t))
            if v.kind == "real":
                # truncation towards zero
                return vint(z3.If(v.t >= 0, z3.ToInt(v.t), -z3.ToInt(-v.t)))
        if isinstance(v, Ref):
            return self.models[v.model].to_int(self, st, v, node)
        raise Unsupported("int of %r" % (v,))
    def b_format(self, st, args, kw, node):
        ps = parts_of(args[1]) if len(args) == 2 and isinstance(args[1], P) and args[1].kind == "str" else [("lit", "")] if len(args) == 1 else []
        if kw or len(ps) != 1 or ps[0][0] != "lit":
            raise Unsupported("format")
        return mkstr(self.fmt(st, ps[0][1], args[0], node))
    def b_float(self, st, args, kw, node):
        v = self.unopt(st, args[0], node)
        if isinstance(v, P):
            if v.kind in ("int", "bool"):
                return P("real", z3.ToReal(self.num(v).t))
            if v.kind == "real":
                return v
            f = z3.Function("is_real_text", I, B)
            self.may_raise(st, z3.Not(f(v.t)), "ValueError", node)
            return P("real", smt.real_of_str(v.t))
        raise Unsupported("float of %r" % (v,))
    def b_bool(self, st, args, kw, node):
        return vbool(self.truth(st, args[0]))
    def b_round(self, st, args, kw, node):
        v = self.num(args[0])
        x = z3.ToReal(v.t) if v.kind == "int" else v.t
        if len(args) == 1:
            f = z3.Function("round0", R, I)
            return vint(f(x))
        f = z3.Function("round", R, I, R)
        return P("real", f(x, self.num(args[1]).t))
    def b_abs(self, st, args, kw, node):
        v = self.num(self.unopt(st, args[0], node))
        return P(v.kind, z3.If(v.t >= 0, v.t, -v.t))
    def b_print(self, st, args, kw, node):
        h = self.exts.get("$print")
        if h is not None:
            return h(self, st, args, kw, node)
        return NONE
    def b_open(self, st, args, kw, node):
        h = self.exts.get("$open")
        if h is None:
            raise Unsupported("open")
        return h(self, st, args, kw, node)
    def b_list(self, st, args, kw, node):
        o = self.new_cell(st, empty_list())
        if args:
            v = args[0]
            if isinstance(v, Obj) and isinstance(self.cell(st, v.id), (ListCell, FixCell)):
                return self.copy_list(st, v.id)
            if isinstance(v, SeqV) and getattr(v, "what", "") == "keys":
                d = self.cell(st, v.dict.id)
                if isinstance(d.kshape, (SP, SRef)):
                    return self.new_cell(st, ListCell(d.kshape, d.klen, [d.karr]))
            r = self.list_of_seq(st, v, node)
            if r is not None:
                return r
            self.list_extend(st, o.id, v, node)
        return o
    def list_of_seq(self, st, v, node):
        """list(v) of a sequence of plain values: given element by element"""
        q = self.as_seq(st, v, node)
        if q.fixed is not None:
            return self.new_cell(st, FixCell(list(q.fixed)))
        j = fresh("j", I)
        x = q.get(st.copy(), j)
        sh = shape_of(self, st, x)
        if sh.mutable:
            raise Unsupported("list of a sequence of objects")
        return self.new_cell(st, ListCell(sh, q.n, [z3.Lambda([j], t) for t in sh.leaves(self, st, x)]))
    def b_dict(self, st, args, kw, node):
        if args or kw:
            raise Unsupported("dict()")
        return self.new_cell(st, empty_dict())
    def b_tuple(self, st, args, kw, node):
        q = self.as_seq(st, args[0], node)
        if q.fixed is not None:
            return Tup(q.fixed)
        raise Unsupported("tuple of a symbolic sequence")
    def minmax(self, st, args, node, ge):
        if len(args) == 1:
            q = self.as_seq(st, args[0], node)
            if q.fixed is None:
                raise Unsupported("min/max of a sequence")
            args = q.fixed
        r = self.num(self.unopt(st, args[0], node))
        for x in args[1:]:
            x = self.num(self.unopt(st, x, node))
            c = self.compare(st, ast.GtE() if ge else ast.LtE(), r, x, node)
            r = self.merge_val(c, st, st, st, r, x)
        return r
    def b_max(self, st, args, kw, node):
        return self.minmax(st, args, node, True)
    def b_min(self, st, args, kw, node):
        return self.minmax(st, args, node, False)
    def b_sum(self, st, args, kw, node):
        return self.reduce_loop(st, args[0], node, vint(0), lambda s, acc, x: self.binop(s, ast.Add(), acc, x, node))
    def b_any(self, st, args, kw, node):
        return self.reduce_loop(st, args[0], node, vbool(False), lambda s, acc, x: vbool(z3.Or(acc.t, self.truth(s, x))))
    def b_all(self, st, args, kw, node):
        return self.reduce_loop(st, args[0], node, vbool(True), lambda s, acc, x: vbool(z3.And(acc.t, self.truth(s, x))))
    def reduce_loop(self, st, it, node, init, f):
        acc, x = "$acc%d" % id_of(node), "$x%d" % id_of(node)
        st.env[acc] = init
        def body(s):
            s.env[acc] = f(s, s.env[acc], s.env[x])
            return [("next", s, None)]
        outs = self.for_loop(node, it, ast.Name(x, ast.Store()), body, st)
        if len(outs) != 1:
            raise Unsupported("reduction")
        self.become(st, outs[0][1])
        v = st.env.pop(acc)
        st.env.pop(x, None)
        return v
    def b_isinstance(self, st, args, kw, node):
        v, c = args
        if isinstance(v, Opt):
            r = self.b_isinstance(st, [v.v, c], kw, node)
            return vbool(z3.And(z3.Not(v.isnone), r.t))
        cs = c.items if isinstance(c, Tup) else [c]
        for c in cs:
            if isinstance(c, ClsV) and isinstance(v, Obj) and isinstance(self.cell(st, v.id), RecCell):
                if c.c in self.cell(st, v.id).cls.mro():
                    return vbool(True)
            elif isinstance(c, BuiltinV):
                cell = self.cell(st, v.id) if isinstance(v, Obj) else None
                k = {"str": isinstance(v, P) and v.kind == "str", "int": isinstance(v, P) and v.kind in ("int", "bool"), "float": isinstance(v, P) and v.kind == "real",
                     "bool": isinstance(v, P) and v.kind == "bool", "list": isinstance(cell, (ListCell, FixCell)), "dict": isinstance(cell, DictCell), "tuple": isinstance(v, Tup)}.get(c.name)
                if k is None or isinstance(v, Ref):
                    raise Unsupported("isinstance")
                if k:
                    return vbool(True)
            elif isinstance(v, Ref):
                raise Unsupported("isinstance of a modelled object")
        return vbool(False)
    def b_hasattr(self, st, args, kw, node):
        v, n = args
        if isinstance(v, Obj) and isinstance(self.cell(st, v.id), RecCell) and n.parts and n.parts[0][0] == "lit":
            c = self.cell(st, v.id)
            nm = n.parts[0][1]
            return vbool(nm in c.fields or c.cls.find(nm) is not None or c.cls.find_assign(nm) is not None)
        if isinstance(v, Ref) and n.parts and n.parts[0][0] == "lit":
            return self.models[v.model].hasattr(self, st, v, n.parts[0][1])
        raise Unsupported("hasattr")
    def b_getattr(self, st, args, kw, node):
        n = args[1]
        if n.parts and len(n.parts) == 1 and n.parts[0][0] == "lit" and len(args) == 2:
            return self.getattr(st, args[0], n.parts[0][1], node)
        raise Unsupported("getattr")
    def b_setattr(self, st, args, kw, node):
        n = args[1]
        if n.parts and len(n.parts) == 1 and n.parts[0][0] == "lit":
            self.setattr(st, args[0], n.parts[0][1], args[2], node)
            return NONE
        raise Unsupported("setattr")
    def b_type(self, st, args, kw, node):
        v = args[0]
        if isinstance(v, Obj) and isinstance(self.cell(st, v.id), RecCell):
            return ClsV(self.cell(st, v.id).cls)
        if isinstance(v, P):
            return BuiltinV({"str": "str", "int": "int", "real": "float", "bool": "bool"}[v.kind])
        if isinstance(v, Ref):
            return BuiltinV("$type of " + v.model)
        raise Unsupported("type()")
    def b_Exception(self, st, args, kw, node):
        return Ref("exc", fresh("exc", I))

def id_of(node):
    return getattr(node, "lineno", 0) * 1000 + getattr(node, "col_offset", 0)
