"""Contracts of the functions that open, validate, read and write files (C16)."""
from .util import *
from . import cmd, cmd2, xmlr, xmlw
from .cmd import L, T, F_, K0, IA, BA, bad, pos
from .cmd2 import lit

# a file opened for reading: path and how it is decoded (0 as text, 1 gzip, 2 lz4); its content does not change while it is read
TF = z3.Function("opened", I, I, I)
NOFILE, BYTES = z3.Function("cannot_open", I, B), z3.Function("bytes_at", I, I, I, I)
END = z3.Function("end_of", I, I)
WF, DOC = z3.Function("well_formed_from", I, I, B), z3.Function("document_from", I, I, I)
CONFORMS = z3.Function("conforms_to", I, I, B)
READER, READERBAD = z3.Function("xml_reader_result", I, I, I), z3.Function("xml_reader_refuses", I, I, B)
YLOAD, YBAD = z3.Function("yaml_reader_result", I, I, I), z3.Function("yaml_reader_refuses", I, I, B)
JOIN = z3.Function("path_join", I, I, I)
DIRN, ABSP = z3.Function("dirname", I, I), z3.Function("abspath", I, I)
GZ, LZ0, LZ1 = repr(b'\x1f\x8b'), repr(b'\x04\x22'), repr(b'\x4d\x18')
ev_wrote = z3.Function("ev_wrote", I, I, I)

# kinds of content: the bytes of the file (0), what gzip (1) or lz4 (2) make of them, each of these decoded as text by Python (TEXT + kind)
TEXT = 10
CONT = z3.Function("content_of", I, I)
XSD = z3.Function("path_join", I, I, I)(z3.Function("path_join", I, I, I)(z3.Function("dirname", I, I)(z3.Function("abspath", I, I)(z3.Int("__file__ of ucis.xml"))), L("schema")), L("ucis.xsd"))
_handles = iter(range(1, 1 << 60))
class FileIO:
    @staticmethod
    def open(ex, st, p, m, node, kind=0, kw={}):
        bad(ex, st, NOFILE(p), "OSError", node)
        if kind:
            m = {"rt": "r", "r": "br", "rb": "br"}.get(m, m)     # gzip and lz4: bytes unless text is asked for
        m = "".join(sorted(m.replace("t", "")))
        if m == "w" and kind == 0:
            # a document that is written names no encoding: it has to be UTF-8
            e = kw.get("encoding")
            e = lit(e).lower().replace("_", "-") if e is not None and e is not NONE else None
            if set(kw) - {"encoding", "mode"}:
                raise Unsupported("arguments of open")
            return Ref("wfp", p if e in ("utf-8", "utf8") else WTEXT(p))
        if m in ("br", "r"):
            if m == "r" and set(kw) - {"mode"}:
                raise Unsupported("arguments of open")
            k = kind + (TEXT if m == "r" else 0)
            # Python's decoding of the schema file, which is ASCII, is the text it stands for
            t = z3.If(p == XSD, TF(p, iv(kind)), TF(p, iv(k))) if m == "r" else TF(p, iv(k))
            h = iv(next(_handles))
            st.assume(CONT(h) == t)
            st.heap["POS"] = z3.Store(st.heap["POS"], h, iv(0))
            st.heap["SHUT"] = z3.Store(st.heap["SHUT"], h, F_)
            return Ref("tfp", h)
        raise Unsupported("file mode %r" % m)
WTEXT = z3.Function("written_in_the_encoding_of_the_locale", I, I)
cmd.FileIO = FileIO
def x_codec(kind):
    def f(ex, st, args, kw, node):
        if "FILES" not in st.heap:
            raise Unsupported("compressed file")
        a = pos(args, kw, ("filename", "mode"), "open")
        return FileIO.open(ex, st, M.sval(ex, st, a["filename"], node), lit(a["mode"]) if "mode" in a else "rb", node, kind)
    return f
M.EXTS["gzip.open"], M.EXTS["lz4.frame.open"] = x_codec(1), x_codec(2)

class Fp(M.Model):
    def method(self, ex, st, o, nm, args, kw, node):
        if nm in ("close", "__exit__"):
            if o.model == "tfp":
                st.heap["SHUT"] = z3.Store(st.heap["SHUT"], o.t, T)
            return NONE
        if nm == "__enter__":
            return o
        n = None
        if args:
            x = z3.simplify(args[0].t) if isinstance(args[0], P) and args[0].kind == "int" else None
            n = x.as_long() if x is not None and z3.is_int_value(x) else None
        if o.model == "tfp" and n is not None and n >= 0 and len(args) == 1 and not kw:
            if nm == "read":
                self.usable(ex, st, o, node)
                p = z3.Select(st.heap["POS"], o.t)
                st.heap["POS"] = z3.Store(st.heap["POS"], o.t, p + n)
                return vstr(BYTES(CONT(o.t), p, iv(n)))
            if nm == "seek":
                self.usable(ex, st, o, node)
                st.heap["POS"] = z3.Store(st.heap["POS"], o.t, iv(n))
                return NONE
        raise Unsupported("method %s of a file" % nm)
    @staticmethod
    def usable(ex, st, o, node):
        ex.may_raise(st, z3.Select(st.heap["SHUT"], o.t), "ValueError", node, "the file is closed")
    @staticmethod
    def consume(ex, st, o, node):
        Fp.usable(ex, st, o, node)
        p = z3.Select(st.heap["POS"], o.t)
        st.heap["POS"] = z3.Store(st.heap["POS"], o.t, END(CONT(o.t)))
        return p
class VDoc(M.Model):
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "getroot" and not args:
            return Ref("rel", o.t)
        raise Unsupported("method %s of a document" % nm)
class VSchema(M.Model):
    def method(self, ex, st, o, nm, args, kw, node):
        if len(args) == 1 and isinstance(args[0], Ref) and args[0].model == "vdoc":
            ok = CONFORMS(o.t, args[0].t)
            if nm == "assertValid":
                bad(ex, st, z3.Not(ok), "DocumentInvalid", node)
                return NONE
            if nm == "validate":
                return vbool(ok)
        raise Unsupported("method %s of a schema" % nm)
M.MODELS.update(tfp=Fp(), wfp=Fp(), vdoc=VDoc(), vschema=VSchema())
_parse = M.EXTS["lxml.etree.parse"]
def x_parse(ex, st, args, kw, node):
    if isinstance(args[0], Ref) and args[0].model == "tfp":
        xmlr.parser_of(args, kw)
        p = Fp.consume(ex, st, args[0], node)
        c = CONT(args[0].t)
        bad(ex, st, z3.Not(WF(c, p)), "XMLSyntaxError", node)
        return Ref("vdoc", DOC(c, p))
    return _parse(ex, st, args, kw, node)
M.EXTS["lxml.etree.parse"] = x_parse
def x_schema(ex, st, args, kw, node):
    if len(args) != 1 or kw or not (isinstance(args[0], Ref) and args[0].model == "vdoc"):
        raise Unsupported("XMLSchema")
    return Ref("vschema", args[0].t)
M.EXTS["lxml.etree.XMLSchema"] = x_schema
def x_join(ex, st, args, kw, node):
    t = M.sval(ex, st, args[0], node)
    for a in args[1:]:
        t = JOIN(t, M.sval(ex, st, a, node))
    return vstr(t)
M.EXTS["os.path.join"] = x_join
M.EXTS["os.path.dirname"] = lambda ex, st, args, kw, node: vstr(DIRN(M.sval(ex, st, args[0], node)))
M.EXTS["os.path.abspath"] = M.EXTS["os.path.realpath"] = lambda ex, st, args, kw, node: vstr(ABSP(M.sval(ex, st, args[0], node)))

def schema_doc():
    return DOC(TF(XSD, iv(0)), iv(0))
def accepted(t, p):
    """the text is a well-formed document that conforms to the interchange schema"""
    return z3.And(WF(t, p), CONFORMS(schema_doc(), DOC(t, p)))
def decoded(p):
    r = TF(p, iv(0))
    m0, m1 = BYTES(r, iv(0), iv(2)), BYTES(r, iv(2), iv(2))
    return TF(p, z3.If(m0 == L(GZ), iv(1), z3.If(z3.And(m0 == L(LZ0), m1 == L(LZ1)), iv(2), iv(0))))

class FileContract(Contract):
    props = ("C16",)
    def setup(self, ex, st):
        st.heap["FILES"] = iv(0)
        st.heap["POS"], st.heap["SHUT"] = fresh("POS", IA), z3.K(I, F_)
        st.heap["BAD"] = F_
        st.heap["WROTE"] = ex.ctx["WROTE"] = fresh("WROTE", I)
        return self.args(ex, st)
    def path(self, ex):
        ex.ctx["path"] = fresh("path", I)
        return vstr(ex.ctx["path"])
    def stream(self, ex, st):
        h, t = fresh("stream", I), fresh("stream_content", I)
        ex.ctx["t"] = t
        st.assume(h <= 0)       # not a file that is opened by the function
        st.assume(CONT(h) == t)
        st.heap["POS"] = z3.Store(st.heap["POS"], h, iv(0))
        return Ref("tfp", h)
    def raises(self, ex, ctx, st, exc):
        return st.heap["BAD"]
    def on(self, st, v):
        return "FILES" in st.heap and isinstance(v, Ref) and v.model == "tfp"
    def isdb(self, ret, t, p=0):
        if not (isinstance(ret, Ref) and ret.model == "cdb"):
            raise Unsupported("result %r" % (ret,))
        return [("the result is what the reader makes of the file", ret.t == READER(t, iv(p)))]

VMOD = "ucis.xml:validate_ucis_xml"
class Validate(FileContract):
    """returns only for a well-formed document that conforms to the schema"""
    target = VMOD
    label = "ucis.xml:validate_ucis_xml (stream)"
    def args(self, ex, st):
        return [self.stream(ex, st)]
    def post(self, ex, ctx, st, ret):
        return [("the document conforms to the schema", accepted(ctx["t"], iv(0))), ("no failure is passed over", z3.Not(st.heap["BAD"]))]
    def apply(self, ex, st, args, node):
        if self.on(st, args[0]):
            p = Fp.consume(ex, st, args[0], node)
            bad(ex, st, z3.Not(accepted(CONT(args[0].t), p)), "DocumentInvalid", node)
            return vbool(True)
class ValidatePath(Validate):
    leaf = True
    label = "ucis.xml:validate_ucis_xml (path)"
    def args(self, ex, st):
        p = self.path(ex)
        ex.ctx["t"] = TF(p.t, iv(0))
        return [p]

FMOD = "ucis.xml.xml_factory:XmlFactory."
class OpenFile(FileContract):
    target = FMOD + "_open_file"
    def args(self, ex, st):
        return [self.path(ex)]
    def post(self, ex, ctx, st, ret):
        if not (isinstance(ret, Ref) and ret.model == "tfp"):
            raise Unsupported("result %r" % (ret,))
        t = decoded(ctx["path"])
        return [("compressed files are decoded by their first bytes, and the XML parser gets the bytes", CONT(ret.t) == t), ("the file is open", z3.Not(z3.Select(st.heap["SHUT"], ret.t))), ("reading starts at the beginning", z3.Select(st.heap["POS"], ret.t) == 0)]
class FactoryRead(FileContract):
    target = FMOD + "read"
    label = FMOD + "read (path)"
    def args(self, ex, st):
        p = self.path(ex)
        ex.ctx["t"] = decoded(p.t)
        return [p]
    def post(self, ex, ctx, st, ret):
        return self.isdb(ret, ctx["t"]) + [("the document was validated", accepted(ctx["t"], iv(0))), ("no failure is passed over", z3.Not(st.heap["BAD"]))]
    def apply(self, ex, st, args, node):
        if "FILES" in st.heap and isinstance(args[0], P):
            p = M.sval(ex, st, args[0], node)
            t = decoded(p)
            bad(ex, st, z3.Or(NOFILE(p), z3.Not(accepted(t, iv(0))), READERBAD(t, iv(0))), "Exception", node)
            return Ref("cdb", READER(t, iv(0)))
class FactoryReadStream(FactoryRead):
    leaf = True
    label = FMOD + "read (stream)"
    def args(self, ex, st):
        return [self.stream(ex, st)]
class XmlIfRead(FactoryRead):
    target = "ucis.xml.db_format_if_xml:DbFormatIfXml.read"
    label = target
    def args(self, ex, st):
        return [Ref("fmtself", iv(0))] + super().args(ex, st)
    def apply(self, ex, st, args, node):
        return None
class YamlIfRead(FileContract):
    target = "ucis.yaml.db_format_if_yaml:DbFormatIfYaml.read"
    def args(self, ex, st):
        return [Ref("fmtself", iv(0)), self.path(ex)]
    def post(self, ex, ctx, st, ret):
        if not (isinstance(ret, Ref) and ret.model == "cdb"):
            raise Unsupported("result %r" % (ret,))
        return [("the result is what the reader makes of the file", ret.t == YLOAD(TF(ctx["path"], iv(0)), iv(0))), ("no failure is passed over", z3.Not(st.heap["BAD"]))]
M.MODELS["fmtself"] = M.Model()
class XmlReaderUse(Contract):
    pass
def xml_read(ex, st, args, node):
    """XmlReader.read on an open file (its own contract: C09, C10, C13)"""
    if len(args) == 2 and isinstance(args[1], Ref) and args[1].model == "tfp" and "FILES" in st.heap:
        p = Fp.consume(ex, st, args[1], node)
        c = CONT(args[1].t)
        bad(ex, st, READERBAD(c, p), "Exception", node)
        return Ref("cdb", READER(c, p))
xmlr.RRead.apply = lambda self, ex, st, args, node: xml_read(ex, st, args, node)
class YamlLoadUse(Contract):
    target = "ucis.yaml.yaml_reader:YamlReader.load"
    def apply(self, ex, st, args, node):
        if len(args) == 2 and isinstance(args[1], Ref) and args[1].model == "tfp" and "FILES" in st.heap:
            p = Fp.consume(ex, st, args[1], node)
            c = CONT(args[1].t)
            bad(ex, st, YBAD(c, p), "Exception", node)
            return Ref("cdb", YLOAD(c, p))

def xml_write(ex, st, args, node):
    """XmlWriter.write to an open file (its own contract: C09, C11, C13)"""
    if len(args) == 3 and isinstance(args[1], Ref) and args[1].model == "wfp" and isinstance(args[2], Ref) and args[2].model == "cdb":
        bad(ex, st, z3.Function("xml_writer_refuses", I, B)(args[2].t), "Exception", node)
        st.heap["WROTE"] = M.snoc(st.heap["WROTE"], ev_wrote(args[1].t, args[2].t))
        return NONE
_wapply = xmlw.Write.apply
xmlw.Write.apply = lambda self, ex, st, args, node: xml_write(ex, st, args, node) or _wapply(self, ex, st, args, node)
class XmlUcisWrite(FileContract):
    target = "ucis.xml.xml_ucis:XmlUCIS.write"
    def args(self, ex, st):
        ex.ctx["db"] = fresh("db", I)
        return [Ref("cdb", ex.ctx["db"]), self.path(ex)]
    def post(self, ex, ctx, st, ret):
        return [("exactly the XML text of this database is written to the file", st.heap["WROTE"] == M.snoc(ctx["WROTE"], ev_wrote(ctx["path"], ctx["db"]))), ("no failure is passed over", z3.Not(st.heap["BAD"]))]
class FactoryWrite(XmlUcisWrite):
    target = FMOD + "write"
    def args(self, ex, st):
        return super().args(ex, st)
class YamlUcisWrite(FileContract):
    """there is no YAML writer: asking for one fails"""
    target = "ucis.yaml.yaml_ucis:YamlUCIS.write"
    never_returns = True
    def args(self, ex, st):
        return [Ref("cdb", fresh("db", I)), self.path(ex)]
    def post(self, ex, ctx, st, ret):
        return [("writing YAML fails", F_)]
    def raises(self, ex, ctx, st, exc):
        return T
class Create(Contract):
    """a new database of a format is an empty one that is written in that format"""
    props = ("C16",)
    leaf = True
    def __init__(self, key, db):
        self.target, self.db, self.key = key + ".create", db, key
        self.label = self.target
    def run(self, ex, st):
        o = ex.construct(st, cls(ex, self.key), [], {}, None)
        d = ex.invoke(st, o, "create", [])
        c = ex.cell(st, d.id) if isinstance(d, Obj) else None
        if not isinstance(c, RecCell):
            raise Unsupported("new database %r" % (d,))
        ex.goal(st, "is a %s" % self.db, z3.BoolVal(c.cls.key == self.db))
        n, _ = lst(ex, st, field(ex, st, d, "m_children"))
        ex.goal(st, "is empty", n == 0)

CONTRACTS = [Validate(), ValidatePath(), OpenFile(), FactoryRead(), FactoryReadStream(), XmlIfRead(), YamlIfRead(), YamlLoadUse(), XmlUcisWrite(), FactoryWrite(), YamlUcisWrite(),
    Create("ucis.xml.db_format_if_xml:DbFormatIfXml", "ucis.xml.xml_ucis:XmlUCIS"), Create("ucis.yaml.db_format_if_yaml:DbFormatIfYaml", "ucis.yaml.yaml_ucis:YamlUCIS")]
