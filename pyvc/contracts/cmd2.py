"""Contracts of the command line itself, of the registered formats and of file access (C16)."""
from .util import *
from . import cmd, xmlr, xmlw, xmlmodel
from .cmd import L, T, F_, K0, IA, BA, bad, pos

MAIN = "ucis.__main__:"
# ---------------------------------------------------------------- the parser
class ParserRec(M.Model):
    """an argparse parser: what it is told, in order"""
    def getattr(self, ex, st, o, nm, node):
        c = ex.cell(st, o.id)
        if nm in c.fields:
            return c.fields[nm]
        return MethV(o, nm)
    def setattr(self, ex, st, o, nm, v, node):
        if nm not in ("prog", "required", "dest"):
            raise Unsupported("attribute %s of a parser" % nm)
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "add_subparsers" and not args:
            return o
        g = dict(st.ghost.get("parsers", {}))
        if nm == "add_parser" and len(args) == 1:
            k = lit(args[0])
            if k in g or "aliases" in kw:
                raise Unsupported("sub-commands")
            g[k] = ({}, {})
            st.ghost = dict(st.ghost, parsers=g)
            return ex.new_cell(st, RecCell("argparse:parser", dict(cmdname=vstr(k))))
        c = ex.cell(st, o.id)
        if "cmdname" in c.fields and nm in ("add_argument", "set_defaults"):
            k = lit(c.fields["cmdname"])
            a, d = g[k]
            a, d = dict(a), dict(d)
            if nm == "add_argument":
                names = [lit(x) for x in args]
                opt = [n for n in names if n.startswith("-")]
                dest = lit(kw["dest"]) if "dest" in kw else next((n.lstrip("-") for n in names if n.startswith("--")), names[0].lstrip("-"))
                a[dest.replace("-", "_")] = (names, {x: y for x, y in kw.items() if x not in ("help", "metavar", "dest")})
            else:
                d.update(kw)
            g[k] = (a, d)
            st.ghost = dict(st.ghost, parsers=g)
            return NONE
        raise Unsupported("method %s of a parser" % nm)
def lit(v):
    if isinstance(v, P) and v.kind == "str" and v.parts is not None and all(p[0] == "lit" for p in v.parts):
        return "".join(p[1] for p in v.parts)
    raise Unsupported("literal text expected")
M.MODELS["rec:argparse:parser"] = ParserRec()
def x_parser(ex, st, args, kw, node):
    return ex.new_cell(st, RecCell("argparse:parser", {}))
M.EXTS["argparse.ArgumentParser"] = x_parser

# sub-command: (function, options with their spellings, positional argument)
COMMANDS = dict(
    merge=("ucis.cmd.cmd_merge:merge", dict(out=("--out", "-o"), input_format=("--input-format", "-if"), output_format=("--output-format", "-of")), ("db", "+"), ("out",)),
    convert=("ucis.cmd.cmd_convert:convert", dict(out=("--out", "-o"), input_format=("--input-format", "-if"), output_format=("--output-format", "-of")), ("input", None), ("out",)),
    report=("ucis.cmd.cmd_report:report", dict(out=("--out", "-o"), input_format=("--input-format", "-if"), output_format=("--output-format", "-of")), ("db", None), ()))
class GetParser(Contract):
    """the sub-commands run the right function with the documented options"""
    props = ("C16",)
    leaf = True
    target = MAIN + "get_parser"
    label = "command line of merge, convert and report"
    def run(self, ex, st):
        m = ex.prog.module("ucis.__main__")
        ex.modstack.append(m)
        ex.call(st, ex.lookup("get_parser", st), [], {}, None)
        ex.no_raise("building the parser ")
        ps = st.ghost.get("parsers", {})
        for k, (fn, opts, (pn, nargs), req) in COMMANDS.items():
            yes = lambda what, c: ex.goal(st, "%s: %s" % (k, what), z3.BoolVal(bool(c)))
            yes("the sub-command exists", k in ps)
            if k not in ps:
                continue
            a, d = ps[k]
            f = d.get("func")
            yes("runs %s" % fn, isinstance(f, FnV) and f.f.key == fn)
            for o, names in opts.items():
                have, kw = a.get(o, ((), {}))
                yes("option %s" % names[0], set(names) <= set(have))
                nodef = kw.get("default", NONE) is NONE and not ({"action", "nargs", "type", "const", "choices"} & set(kw))
                yes("%s is a plain text option without a default" % names[0], nodef)
                r = kw.get("required")
                r = z3.is_true(z3.simplify(r.t)) if isinstance(r, P) else False
                yes("%s is %s" % (names[0], "required" if o in req else "optional"), r == (o in req))
            have, kw = a.get(pn, ((), {}))
            yes("positional argument %s" % pn, tuple(have) == (pn,))
            n = kw.get("nargs")
            yes("%s takes %s" % (pn, "one or more files" if nargs else "one file"), (lit(n) if n is not None else None) == nargs and not ({"action", "type", "default", "choices"} & set(kw)))

# ---------------------------------------------------------------- main
FIRST, EMPTYARG = z3.Function("first_character", I, I), z3.Function("is_empty_arg", I, B)
def PLUS(x):
    return FIRST(x) == L("+")
class ArgStr(M.Model):
    def getitem(self, ex, st, o, k, node):
        t = z3.simplify(k.t) if isinstance(k, P) else None
        if t is None or not z3.is_int_value(t) or t.as_long() != 0:
            raise Unsupported("character of an argument")
        bad(ex, st, EMPTYARG(o.t), "IndexError", node)
        return vstr(FIRST(o.t))
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "startswith" and len(args) == 1 and lit(args[0]) == "+":
            return vbool(PLUS(o.t))
        raise Unsupported("method %s of an argument" % nm)
class Argv(M.Model):
    def getslice(self, ex, st, o, lo, hi, node):
        t = z3.simplify(lo.t) if isinstance(lo, P) else None
        if hi is not None or t is None or not z3.is_int_value(t) or t.as_long() != 1:
            raise Unsupported("slice of sys.argv")
        n, a = st.heap["ARGC"], st.heap["ARGV"]
        return SeqV(n, lambda s, i: Ref("argstr", z3.Select(a, i)))
class ArgParser(M.Model):
    def method(self, ex, st, o, nm, args, kw, node):
        a = pos(args, kw, ("args",), nm)
        if nm != "parse_args" or set(a) != {"args"}:
            raise Unsupported("method %s of the parser" % nm)
        c = ex.cell(st, a["args"].id) if isinstance(a["args"], Obj) else None
        if isinstance(c, ListCell) and c.elem is None:
            n, arr = iv(0), K0
        elif isinstance(c, ListCell) and c.elem == SRef("argstr"):
            n, arr = c.n, c.arrs[0]
        else:
            raise Unsupported("arguments to parse")
        # argparse ends the program itself, with a message and a non-zero status, when the arguments are wrong
        st.ghost = dict(st.ghost, parsed=(n, arr))
        return ex.new_cell(st, RecCell("cmd:args", dict(func=Ref("cmdfunc", iv(0)))))
class CmdFunc(M.Model):
    def call(self, ex, st, o, args, kw, node):
        c = ex.cell(st, args[0].id) if len(args) == 1 and isinstance(args[0], Obj) else None
        if kw or not (isinstance(c, RecCell) and c.cls == "cmd:args"):
            raise Unsupported("arguments of a command")
        bad(ex, st, fresh("command_fails", B), "Exception", node)
        st.heap["CALLS"] = st.heap["CALLS"] + 1
        return NONE
M.MODELS.update(argv=Argv(), argstr=ArgStr(), argparser=ArgParser(), cmdfunc=CmdFunc())
M.EXTS["traceback.print_exc"] = lambda ex, st, args, kw, node: x_msg(ex, st)
def x_msg(ex, st):
    if "MSG" in st.heap:
        st.heap["MSG"] = T
    return NONE
def x_exit(ex, st, args, kw, node):
    v = args[0] if args else NONE
    if v is NONE:
        z = T
    else:
        v = ex.num(v)
        z = v.t == 0 if isinstance(v, P) and v.kind == "int" else F_     # a text is printed, the status is 1
    r = st.copy()
    r.heap["ZERO"] = z
    ex.rf[-1].append((r, "SystemExit", getattr(node, "lineno", 0), "", list(ex.ks)))
    st.assume(F_)
    return NONE
M.EXTS["sys.exit"] = x_exit

class GetParserUse(Contract):
    target = MAIN + "get_parser"
    def apply(self, ex, st, args, node):
        return Ref("argparser", iv(0)) if "ARGC" in st.heap else None
ARGS = Fold("cmd_args", [("argv", IA)], [("n", I), ("arr", IA)], lambda a: dict(n=iv(0), arr=K0),
    lambda a, ix, s: (lambda x: dict(n=z3.If(PLUS(x), s["n"], s["n"] + 1), arr=z3.If(PLUS(x), s["arr"], z3.Store(s["arr"], s["n"], x))))(z3.Select(a[0], ix[0])))
class Main(Contract):
    """a command that fails ends the program with a message and a non-zero status"""
    props = ("C16",)
    target = MAIN + "main"
    def setup(self, ex, st):
        st.heap["ARGC"], st.heap["ARGV"] = ex.ctx["n"], ex.ctx["argv"] = fresh("argc", I), fresh("argv", IA)
        st.assume(ex.ctx["n"] >= 0)
        st.heap["CALLS"] = iv(0)
        st.heap["BAD"] = st.heap["MSG"] = st.heap["ZERO"] = F_
        return []
    def folds(self, ctx):
        return [(ARGS, [ctx["argv"]], ctx["n"])]
    def post(self, ex, ctx, st, ret):
        r = ARGS.at([ctx["argv"]], ctx["n"])
        p = st.ghost.get("parsed")
        if p is None:
            raise Unsupported("the arguments are not parsed")
        return [("no failure is passed over", z3.Not(st.heap["BAD"])), ("the command is run exactly once", st.heap["CALLS"] == 1),
            ("the arguments that do not start with + are parsed, in order", z3.And(p[0] == r["n"], p[1] == r["arr"]))]
    def raises(self, ex, ctx, st, exc):
        if exc == "SystemExit":
            return z3.Implies(st.heap["BAD"], z3.And(z3.Not(st.heap["ZERO"]), st.heap["MSG"]))
        return st.heap["BAD"]       # an exception that leaves main ends the program with a message and status 1
def x_argv(ex, st, node):
    return Ref("argv", iv(0)) if "ARGC" in st.heap else ExtV("sys.argv")
M.EXTS["@sys.argv"] = x_argv

# ---------------------------------------------------------------- the registered formats
DBFMTS = dict(xml="ucis.xml.db_format_if_xml:DbFormatIfXml", yaml="ucis.yaml.db_format_if_yaml:DbFormatIfYaml", libucis="ucis.lib.db_format_if_lib:DbFormatIfLib")
RPTFMTS = dict(txt="ucis.report.format_rpt_text:FormatRptText", json="ucis.report.format_rpt_json:FormatRptJson")
class Registry(Contract):
    """what the registry holds: the formats under their names, each with its interface, and nothing else"""
    props = ("C16",)
    leaf = True
    target = "ucis.rgy.format_rgy:FormatRgy.inst"
    label = "registered formats"
    def run(self, ex, st):
        c = ClsV(cls(ex, "ucis.rgy.format_rgy:FormatRgy"))
        r = ex.invoke(st, c, "inst", [])
        for dbs, has, get in ((DBFMTS, "hasDatabaseFormat", "getDatabaseDesc"), (RPTFMTS, "hasReportFormat", "getReportDesc")):
            for n, k in dbs.items():
                ex.goal(st, "%s is registered" % n, self.yes(ex, ex.invoke(st, r, has, [vstr(n)])))
                d = ex.invoke(st, r, get, [vstr(n)])
                f = ex.getattr(st, d, "fmt_if", None)
                ex.no_raise("")
                if not isinstance(f, ClsV):
                    raise Unsupported("interface of a format")
                ex.goal(st, "%s is handled by %s" % (n, k), z3.BoolVal(f.c.key == k))
                if dbs is RPTFMTS:
                    fl = ex.num(ex.getattr(st, d, "out_flags", None))
                    ex.goal(st, "%s is written to one file" % n, fl.t == enum(ex, "ucis.rgy.format_if_rpt:FormatRptOutFlags", "Stream"))
            x = fresh("name", I)
            s = st.copy()
            s.assume(*[x != L(n) for n in dbs])
            ex.goal(s, "no other name is known (%s)" % has, z3.Not(self.yes(ex, ex.invoke(s, r, has, [vstr(x)]))))
        again = ex.invoke(st, c, "inst", [])
        ex.goal(st, "there is one registry", z3.BoolVal(isinstance(again, Obj) and isinstance(r, Obj) and again.id == r.id))
        for m, want in (("getDefaultDatabase", "xml"), ("getDefaultReport", "txt")):
            v = ex.invoke(st, r, m, [])
            ex.goal(st, m, M.sval(ex, st, v, None) == L(want))
    def yes(self, ex, v):
        if isinstance(v, P) and v.kind == "bool":
            return v.t
        raise Unsupported("answer of the registry")

CONTRACTS = [GetParser(), GetParserUse(), Main(), Registry()]
