"""Contracts of the command-line tools, the format registry and the readers/writers they reach (C16)."""
from .util import *
from . import merge as mergec, xmlr, xmlw

L = smt.lit
BA, IA = A(B), A(I)
K0 = z3.K(I, iv(0))
T, F_ = z3.BoolVal(True), z3.BoolVal(False)
CMD = "ucis.cmd."
# The registry: which names are registered and what is registered under them.
HASDB, HASRPT = z3.Function("has_db_format", I, B), z3.Function("has_report_format", I, B)
DESC, RDESC = z3.Function("db_format", I, I), z3.Function("report_format", I, I)
# The state of the world: DISK (the files), CONT (content of the databases in memory), REPORTS (reports written, in order),
# BAD (an operation of the library has failed).
READ, READBAD = z3.Function("read_db", I, I, I, I), z3.Function("read_fails", I, I, I, B)      # format, file, files
CREATEBAD = z3.Function("create_fails", I, B)
EMPTY = z3.Function("empty_db", I, I)
MERGED, MERGEBAD = z3.Function("merged", I, I, IA, I), z3.Function("merge_fails", I, I, IA, B)
WRITTEN, WRITEBAD = z3.Function("disk_with", I, I, I, I, I), z3.Function("write_fails", I, I, I, B)   # files, path, format, content
TRUNC, OPENBAD = z3.Function("disk_truncated", I, I, I), z3.Function("open_fails", I, B)
NEWDB = z3.Function("created_db", I, I)
RPTFILE, STDOUT = z3.Function("report_file", I, I), z3.Int("stdout")
ev_report = z3.Function("ev_report", I, I, I, I)
RPTBAD = z3.Function("report_fails", I, I, B)

def bad(ex, st, cond, exc, node):
    """the library refuses: a path on which BAD holds"""
    cond = z3.simplify(cond)
    r = st.copy()
    r.assume(cond)
    r.heap["BAD"] = T
    ex.rf[-1].append((r, exc, getattr(node, "lineno", 0), "", list(ex.ks)))
    st.assume(z3.Not(cond))

def pos(args, kw, sig, nm):
    a = dict(zip(sig, args))
    for k, v in kw.items():
        if k in a or k not in sig:
            raise Unsupported("arguments of " + nm)
        a[k] = v
    if len(args) > len(sig):
        raise Unsupported("arguments of " + nm)
    return a

class Rgy(M.Model):
    def method(self, ex, st, o, nm, args, kw, node):
        if kw:
            raise Unsupported("keyword arguments")
        s = lambda: M.sval(ex, st, args[0], node)
        one = len(args) == 1
        if nm == "hasDatabaseFormat" and one:
            return vbool(HASDB(s()))
        if nm == "hasReportFormat" and one:
            return vbool(HASRPT(s()))
        if nm == "getDatabaseDesc" and one:
            ex.may_raise(st, z3.Not(HASDB(s())), "KeyError", node)
            return Ref("fmtdesc", DESC(s()))
        if nm == "getReportDesc" and one:
            ex.may_raise(st, z3.Not(HASRPT(s())), "KeyError", node)
            return Ref("rptdesc", RDESC(s()))
        if nm == "getDefaultDatabase" and not args:
            return vstr("xml")
        if nm == "getDefaultReport" and not args:
            return vstr("txt")
        if nm in ("getDatabaseFormats", "getReportFormats") and not args:
            return Ref("names", iv(0))
        raise Unsupported("method %s of the registry" % nm)
class Names(M.Model):
    def to_str(self, ex, st, o):
        return vstr(fresh("names", I))
class FmtDesc(M.Model):
    def getattr(self, ex, st, o, nm, node):
        if nm == "out_flags" and o.model == "rptdesc":
            return vint(enum(ex, "ucis.rgy.format_if_rpt:FormatRptOutFlags", "Stream"))
        if nm == "flags" and o.model == "fmtdesc":
            return vint(z3.Function("format_flags", I, I)(o.t))
        if nm in ("description", "name"):
            return vstr(z3.Function("format_" + nm, I, I)(o.t))
        return MethV(o, nm)
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "fmt_if" and not args and not kw:
            return Ref("fmtif" if o.model == "fmtdesc" else "rptif", o.t)
        raise Unsupported("method %s of a format" % nm)
class FmtIf(M.Model):
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "read" and len(args) == 1 and not kw:
            p = M.sval(ex, st, args[0], node)
            bad(ex, st, READBAD(o.t, p, st.heap["DISK"]), "Exception", node)
            return Ref("cdb", READ(o.t, p, st.heap["DISK"]))
        if nm == "create" and not args and not kw:
            bad(ex, st, CREATEBAD(o.t), "Exception", node)
            r = fresh("created", I)
            st.heap["CONT"] = z3.Store(st.heap["CONT"], r, EMPTY(o.t))
            st.heap["KIND"] = z3.Store(st.heap["KIND"], r, o.t)
            return Ref("cdb", r)
        raise Unsupported("method %s of a format interface" % nm)
class RptIf(M.Model):
    def method(self, ex, st, o, nm, args, kw, node):
        a = pos(args, kw, ("db", "out", "args"), nm)
        if nm != "report" or len(a) != 3 or not (isinstance(a["db"], Ref) and a["db"].model == "cdb"):
            raise Unsupported("method %s of a report format" % nm)
        f = a["out"]
        if isinstance(f, ExtV) and f.name == "sys.stdout":
            t = STDOUT
        elif isinstance(f, Ref) and f.model == "rptfp":
            ex.may_raise(st, st.heap["CLOSED"], "ValueError", node, "file is closed")
            t = RPTFILE(f.t)
        else:
            raise Unsupported("report to %r" % (f,))
        bad(ex, st, RPTBAD(o.t, a["db"].t), "Exception", node)
        st.heap["REPORTS"] = M.snoc(st.heap["REPORTS"], ev_report(o.t, a["db"].t, t))
        return NONE
class CDb(M.Model):
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "write" and len(args) == 1 and not kw:
            p = M.sval(ex, st, args[0], node)
            k, c = z3.Select(st.heap["KIND"], o.t), z3.Select(st.heap["CONT"], o.t)
            bad(ex, st, WRITEBAD(k, p, c), "Exception", node)
            st.heap["DISK"] = WRITTEN(st.heap["DISK"], p, k, c)
            return NONE
        if nm == "close" and not args and not kw:
            return NONE
        raise Unsupported("method %s of a database" % nm)
    def merge(self, ex, st, out, l, node):
        c = ex.cell(st, l.id) if isinstance(l, Obj) else None
        if isinstance(c, FixCell):
            c = fix_to_list(ex, st, c)
        if isinstance(c, ListCell) and c.elem is None:
            n, arr = iv(0), K0
        elif isinstance(c, ListCell) and c.elem == SRef("cdb"):
            n, arr = c.n, c.arrs[0]
        else:
            raise Unsupported("list of databases to merge")
        d = z3.Select(st.heap["CONT"], out.t)
        bad(ex, st, MERGEBAD(d, n, arr), "Exception", node)
        st.heap["CONT"] = z3.Store(st.heap["CONT"], out.t, MERGED(d, n, arr))
        return NONE
class RptFp(M.Model):
    def method(self, ex, st, o, nm, args, kw, node):
        if nm in ("close", "__exit__"):
            st.heap["CLOSED"] = T
            return NONE
        if nm == "__enter__":
            return o
        if nm == "flush":
            return NONE
        raise Unsupported("method %s of the report file" % nm)
class ArgsRec(M.Model):
    """the result of parsing the command line: plain attributes"""
    def getattr(self, ex, st, o, nm, node):
        ex.may_raise(st, T, "AttributeError", node, nm)
        raise Unsupported("argument %s" % nm)
    def setattr(self, ex, st, o, nm, v, node):
        c = ex.cell(st, o.id)
        ex.set_cell(st, o.id, RecCell(c.cls, dict(c.fields, **{nm: v})))
M.MODELS.update({"rgy": Rgy(), "names": Names(), "fmtdesc": FmtDesc(), "rptdesc": FmtDesc(), "fmtif": FmtIf(), "rptif": RptIf(), "cdb": CDb(), "rptfp": RptFp(), "rec:cmd:args": ArgsRec()})

def x_open(ex, st, args, kw, node):
    p = args[0]
    mode = args[1] if len(args) > 1 else kw.get("mode", vstr("r"))
    if set(kw) - {"mode", "encoding", "newline", "errors"} or not (isinstance(mode, P) and mode.parts and len(mode.parts) == 1 and mode.parts[0][0] == "lit"):
        raise Unsupported("arguments of open")
    m = mode.parts[0][1]
    if "REPORTS" in st.heap:
        if m not in ("w", "wt"):
            raise Unsupported("file opened with mode %r" % m)
        t = M.sval(ex, st, p, node)
        bad(ex, st, OPENBAD(t), "OSError", node)
        st.heap["DISK"] = TRUNC(st.heap["DISK"], t)
        return Ref("rptfp", t)
    if "FILES" in st.heap:
        return FileIO.open(ex, st, M.sval(ex, st, p, node), m, node, kw=kw)
    raise Unsupported("open")
M.EXTS["$open"] = x_open
def x_print(ex, st, args, kw, node):
    if "REPORTS" in st.heap and not kw:
        st.heap["REPORTS"] = M.snoc(st.heap["REPORTS"], fresh("printed", I))
    if "MSG" in st.heap:
        st.heap["MSG"] = T
    return NONE
M.EXTS["$print"] = x_print

class RgyInst(Contract):
    target = "ucis.rgy.format_rgy:FormatRgy.inst"
    def apply(self, ex, st, args, node):
        if "DISK" in st.heap:
            return Ref("rgy", iv(0))
        return None

class Cmd(Contract):
    props = ("C16",)
    def setup(self, ex, st):
        for n, s in (("DISK", I), ("CONT", IA), ("KIND", IA), ("REPORTS", I)):
            st.heap[n] = ex.ctx[n] = fresh(n, s)
        st.heap["BAD"] = st.heap["CLOSED"] = F_
        ifm, ofm = (Opt(fresh("no_" + n, B), vstr(fresh(n, I))) for n in ("input_format", "output_format"))
        self.ctx0(ex, ifm, ofm)
        return [ex.new_cell(st, RecCell("cmd:args", dict(dict(input_format=ifm, output_format=ofm), **self.fields(ex, st))))]
    odefault = "xml"
    def ctx0(self, ex, ifm, ofm):
        ex.ctx["ifmt"] = z3.If(ifm.isnone, L("xml"), ifm.v.t)
        ex.ctx["ofmt"] = z3.If(ofm.isnone, L(self.odefault), ofm.v.t)
    def known(self, ctx):
        return z3.And(HASDB(ctx["ifmt"]), HASDB(ctx["ofmt"]))
    def raises(self, ex, ctx, st, exc):
        # the command fails only when a format is unknown or the library refused
        return z3.Or(st.heap["BAD"], z3.Not(self.known(ctx)))
    def post(self, ex, ctx, st, ret):
        d = self.disk(ctx)
        return [("no failure is passed over", z3.Not(st.heap["BAD"])), ("the formats are known", self.known(ctx)),
            ("exactly the result is written", st.heap["DISK"] == d)] + self.more(ctx, st)
    def more(self, ctx, st):
        return []

READS = Fold("cmd_reads", [("fmt", I), ("files", IA), ("disk", I)], [("n", I), ("arr", IA)], lambda a: dict(n=iv(0), arr=K0),
    lambda a, ix, s: dict(n=s["n"] + 1, arr=z3.Store(s["arr"], s["n"], READ(a[0], z3.Select(a[1], ix[0]), a[2]))))
class CmdMerge(Cmd):
    target = CMD + "cmd_merge:merge"
    def fields(self, ex, st):
        n, a, o = fresh("ndb", I), fresh("files", IA), fresh("out", I)
        st.assume(n >= 1)
        ex.ctx.update(n=n, files=a, out=o)
        return dict(db=ex.new_cell(st, ListCell(SP("str"), n, [a])), out=vstr(o), libucis=NONE)
    def folds(self, ctx):
        return [(READS, [DESC(ctx["ifmt"]), ctx["files"], ctx["DISK"]], ctx["n"])]
    def disk(self, ctx):
        F, a, n = self.folds(ctx)[0]
        r = F.at(a, n)
        of = DESC(ctx["ofmt"])
        return WRITTEN(ctx["DISK"], ctx["out"], of, MERGED(EMPTY(of), r["n"], r["arr"]))
class CmdConvert(Cmd):
    target = CMD + "cmd_convert:convert"
    def fields(self, ex, st):
        i, o = fresh("input", I), fresh("out", I)
        ex.ctx.update(input=i, out=o)
        return dict(input=vstr(i), out=vstr(o))
    def disk(self, ctx):
        of = DESC(ctx["ofmt"])
        return WRITTEN(ctx["DISK"], ctx["out"], of, MERGED(EMPTY(of), iv(1), z3.Store(K0, 0, READ(DESC(ctx["ifmt"]), ctx["input"], ctx["DISK"]))))
class CmdReport(Cmd):
    target = CMD + "cmd_report:report"
    odefault = "txt"
    def fields(self, ex, st):
        i, o = fresh("db", I), Opt(fresh("no_out", B), vstr(fresh("out", I)))
        ex.ctx.update(input=i, out=o)
        return dict(db=vstr(i), out=o)
    def known(self, ctx):
        return z3.And(HASDB(ctx["ifmt"]), HASRPT(ctx["ofmt"]))
    def disk(self, ctx):
        return z3.If(ctx["out"].isnone, ctx["DISK"], TRUNC(ctx["DISK"], ctx["out"].v.t))
    def more(self, ctx, st):
        o = ctx["out"]
        e = ev_report(RDESC(ctx["ofmt"]), READ(DESC(ctx["ifmt"]), ctx["input"], ctx["DISK"]), z3.If(o.isnone, STDOUT, RPTFILE(o.v.t)))
        return [("exactly one report, of the database that was read, goes where it was asked for", st.heap["REPORTS"] == M.snoc(ctx["REPORTS"], e))]

CONTRACTS = [RgyInst(), CmdMerge(), CmdConvert(), CmdReport()]
