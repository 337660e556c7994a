"""Front end: modules, classes and functions of the code under verification, parsed from the current tree."""
import ast, os

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")

class Module:
    def __init__(self, name, path):
        self.name, self.path = name, path
        with open(path, encoding="utf-8") as f:
            self.text = f.read()
        self.tree = ast.parse(self.text)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self.names = {}
        self.stars = []
        self.collect(self.tree.body)

    def collect(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.names[n.name] = ("func", n)
            elif isinstance(n, ast.ClassDef):
                self.names[n.name] = ("class", n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.names[a.asname or a.name.split(".")[0]] = ("module", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(n, ast.ImportFrom):
                base = self.absmod(n)
                for a in n.names:
                    if a.name == "*":
                        self.stars.append(base)
                    else:
                        self.names[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.names[t.id] = ("assign", n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and isinstance(n.target, ast.Name):
                self.names[n.target.id] = ("assign", n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                self.collect(n.body)

    def absmod(self, n):
        if not n.level:
            return n.module
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        return ".".join(parts + ([n.module] if n.module else []))

class Func:
    def __init__(self, node, module, cls=None, qual=None):
        self.node, self.module, self.cls = node, module, cls
        self.qual = qual or node.name
        self.deco = {ast.unparse(d).split(".")[-1] for d in node.decorator_list}
        self.key = module.name + ":" + self.qual
    def __repr__(self):
        return "<func %s>" % self.key

class Class:
    def __init__(self, node, module, qual, prog):
        self.node, self.module, self.qual, self.prog = node, module, qual, prog
        self.name = node.name
        self.key = module.name + ":" + qual
        self.methods, self.assigns, self.nested = {}, {}, {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                self.methods[n.name] = Func(n, module, self, qual + "." + n.name)
            elif isinstance(n, ast.ClassDef):
                self.nested[n.name] = Class(n, module, qual + "." + n.name, prog)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = n.value
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.assigns[n.target.id] = n.value
        self._mro = None
        self._enum = None

    def bases(self):
        out = []
        for b in self.node.bases:
            r = None
            if isinstance(b, ast.Name):
                # sibling nested class?
                if "." in self.qual:
                    outer = self.prog.find_class(self.module, self.qual.rsplit(".", 1)[0])
                    if outer and b.id in outer.nested:
                        r = outer.nested[b.id]
                if r is None:
                    r = self.prog.resolve(self.module, b.id)
            elif isinstance(b, ast.Attribute):
                r = self.prog.resolve_attr_path(self.module, b)
            out.append(r)
        return out

    def mro(self):
        if self._mro is None:
            seqs = []
            bs = [b for b in self.bases() if isinstance(b, Class)]
            seqs = [list(b.mro()) for b in bs] + [list(bs)]
            res = [self]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    c = s[0]
                    if not any(c in t[1:] for t in seqs):
                        break
                else:
                    raise Exception("no MRO for " + self.key)
                res.append(c)
                for s in seqs:
                    if s[0] is c:
                        del s[0]
            self._mro = res
        return self._mro

    def find(self, name, after=None):
        m = self.mro()
        if after is not None:
            m = m[m.index(after) + 1:]
        for c in m:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_assign(self, name):
        for c in self.mro():
            if name in c.assigns:
                return c, c.assigns[name]
        return None

    def ext_bases(self):
        out = []
        for c in self.mro():
            for b in c.bases():
                if isinstance(b, Ext):
                    out.append(b.name)
        return out

    def is_enum(self):
        return any(b.startswith("enum.") for b in self.ext_bases())

    def enum_members(self):
        if self._enum is None:
            ns = {}
            exec("from enum import *\nimport enum", ns)
            mod = ast.Module(body=[self.node], type_ignores=[])
            try:
                exec(compile(mod, self.module.path, "exec"), ns)
                self._enum = {k: int(v.value) for k, v in ns[self.name].__members__.items()}
            except Exception as e:
                raise Exception("cannot evaluate enum %s: %s" % (self.key, e))
        return self._enum
    def __repr__(self):
        return "<class %s>" % self.key

class Ext:
    """something outside /repo/src"""
    def __init__(self, name):
        self.name = name
    def __repr__(self):
        return "<ext %s>" % self.name

class Program:
    def __init__(self):
        self.mods = {}
        self.classes = {}

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        base = os.path.join(SRC, *name.split("."))
        m = None
        for p in (base + ".py", os.path.join(base, "__init__.py")):
            if os.path.isfile(p):
                m = Module(name, p)
                break
        self.mods[name] = m
        return m

    def get_class(self, node, module, qual):
        key = (module.name, qual)
        if key not in self.classes:
            self.classes[key] = Class(node, module, qual, self)
        return self.classes[key]

    def find_class(self, module, qual):
        parts = qual.split(".")
        k = module.names.get(parts[0])
        if not k or k[0] != "class":
            return None
        c = self.get_class(k[1], module, parts[0])
        for p in parts[1:]:
            c = c.nested.get(p)
            if c is None:
                return None
        return c

    def resolve(self, module, name, depth=0):
        """-> Func | Class | Module | Ext | ('assign', module, expr) | None"""
        if depth > 12:
            return None
        k = module.names.get(name)
        if k is None:
            for s in module.stars:
                m = self.module(s)
                if m is not None:
                    r = self.resolve(m, name, depth + 1)
                    if r is not None:
                        return r
            if module.is_pkg:
                sub = self.module(module.name + "." + name)
                if sub is not None:
                    return sub
            return None
        if k[0] == "func":
            return Func(k[1], module)
        if k[0] == "class":
            return self.get_class(k[1], module, name)
        if k[0] == "assign":
            return ("assign", module, k[1])
        if k[0] == "module":
            m = self.module(k[1])
            return m if m is not None else Ext(k[1])
        base, nm = k[1], k[2]
        m = self.module(base)
        if m is None:
            return Ext(base + "." + nm)
        r = self.resolve(m, nm, depth + 1) if not (m is module) else None
        if r is None:
            sub = self.module(base + "." + nm)
            if sub is not None:
                return sub
        return r

    def resolve_attr_path(self, module, node):
        if isinstance(node, ast.Name):
            return self.resolve(module, node.id)
        v = self.resolve_attr_path(module, node.value)
        if isinstance(v, Module):
            return self.resolve(v, node.attr)
        if isinstance(v, Class):
            return v.nested.get(node.attr)
        if isinstance(v, Ext):
            return Ext(v.name + "." + node.attr)
        return None

    def function(self, key):
        """'mod:qual.name' -> Func or None; a method is looked up over the MRO of its class"""
        mod, qual = key.split(":")
        m = self.module(mod)
        if m is None:
            return None
        parts = qual.split(".")
        if len(parts) == 1:
            r = self.resolve(m, parts[0])
            return r if isinstance(r, Func) else None
        c = self.find_class(m, ".".join(parts[:-1]))
        if c is None:
            return None
        return c.find(parts[-1])
