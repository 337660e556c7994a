COMMON = '''import sys, os, io, tempfile
from ucis.mem.mem_ucis import MemUCIS
from ucis.source_info import SourceInfo
from ucis.source_t import SourceT
from ucis.scope_type_t import ScopeTypeT as S
from ucis.cover_type_t import CoverTypeT as C
from ucis.merge.db_merger import DbMerger
from ucis.report.coverage_report_builder import CoverageReportBuilder
KIND = dict(bin=C.CVGBIN, ign=C.IGNOREBIN, ill=C.ILLEGALBIN)
ALLBINS = C.CVGBIN | C.IGNOREBIN | C.ILLEGALBIN

def inst(db, name="top"):
    du = db.createScope("m", None, 1, SourceT.OTHER, S.DU_MODULE, 0)
    return db.createInstance(name, None, 1, SourceT.OTHER, S.INSTANCE, du, 0)

def cp(cg, name, *bins, w=1, loc=None):
    s = cg.createCoverpoint(name, loc, w, SourceT.OTHER)
    for b in bins:
        s.createBin(b[0], None, b[2] if len(b) > 2 else 1, b[1], b[0], KIND[b[3]] if len(b) > 3 else C.CVGBIN)
    return s

def cr(cg, name, cps, *bins, w=1):
    s = cg.createCross(name, None, w, SourceT.OTHER, cps)
    for b in bins:
        s.createBin(b[0], None, b[2] if len(b) > 2 else 1, b[1], b[0], KIND[b[3]] if len(b) > 3 else C.CVGBIN)
    return s

def bins(s, kind=ALLBINS):
    return [(i.getName(), int(i.getCoverData().type), i.getCoverData().data, i.getCoverData().at_least) for i in s.coverItems(kind)]

def tree(s):
    r = []
    for c in s.scopes(S.ALL):
        ops = [c.getIthCrossedCoverpoint(i).getScopeName() for i in range(c.getNumCrossedCoverpoints())] if int(c.getScopeType()) == S.CROSS else None
        r.append((int(c.getScopeType()), c.getScopeName(), c.getWeight(), ops, bins(c), tree(c)))
    return r

def merge(*dbs):
    out = MemUCIS()
    DbMerger().merge(out, list(dbs))
    return out

def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)

'''
M = "src/ucis/merge/db_merger.py"
RB = "src/ucis/report/coverage_report_builder.py"
XW = "src/ucis/xml/xml_writer.py"
XR = "src/ucis/xml/xml_reader.py"
SEEDS = [
 dict(id="s01", property="C01", needs="a coverpoint that has an ordinary and an ignored (or illegal) bin of the same name", breaks="the bin of the later kind disappears from the merged coverpoint and its hits are added to the bin of the earlier kind's table",
  edits=[(M, "        for bin_t in (CoverTypeT.CVGBIN,CoverTypeT.IGNOREBIN,CoverTypeT.ILLEGALBIN):\n            bin_name_m : Dict[str,List[int,int]] = {}\n", "        bin_name_m : Dict[str,List[int,int]] = {}\n\n        for bin_t in (CoverTypeT.CVGBIN,CoverTypeT.IGNOREBIN,CoverTypeT.ILLEGALBIN):\n")],
  demo='''db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
cp(g, "p", ("a", 3), ("b", 1), ("a", 5, 1, "ign"))
m = merge(db)
p = next(next(next(m.scopes(S.INSTANCE)).scopes(S.COVERGROUP)).scopes(S.COVERPOINT))
check(sorted(bins(p)) == sorted([("a", int(C.CVGBIN), 3, 1), ("b", int(C.CVGBIN), 1, 1), ("a", int(C.IGNOREBIN), 5, 1)]), bins(p))
'''),
 dict(id="s02", property="C02", needs="two sources whose same-named bins have different thresholds, the later one larger", breaks="the merged bin takes the largest threshold instead of the first one",
  edits=[(M, "                    bin_name_m[name][0] += cvg_data.data\n", "                    bin_name_m[name][0] += cvg_data.data\n                    bin_name_m[name][1] = max(bin_name_m[name][1], cvg_data.at_least)\n")],
  demo='''dbs = []
for c, a in ((3, 2), (4, 5)):
    db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
    cp(g, "p", ("a", c, a)); dbs.append(db)
m = merge(*dbs)
p = next(next(next(m.scopes(S.INSTANCE)).scopes(S.COVERGROUP)).scopes(S.COVERPOINT))
check(bins(p) == [("a", int(C.CVGBIN), 7, 2)], bins(p))
'''),
 dict(id="s03", property="C03", needs="a cross bin present in two sources; the first source is looked at after the merge", breaks="the accumulated count is written into the first source's bin",
  edits=[(M, "                        bin_name_m[bin_n] = [0, cvg_data.at_least]\n                        bin_name_l.append(bin_n)\n                    bin_name_m[bin_n][0] += cvg_data.data\n", "                        bin_name_m[bin_n] = cvg_data\n                        bin_name_l.append(bin_n)\n                    else:\n                        bin_name_m[bin_n].data += cvg_data.data\n"),
         (M, "                    bin_name_m[bin_n][1], # at_least\n                    bin_name_m[bin_n][0], # count\n", "                    bin_name_m[bin_n].at_least,\n                    bin_name_m[bin_n].data,\n")],
  demo='''dbs = []
for c in (3, 4):
    db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
    p = cp(g, "p", ("a", 1)); cr(g, "x", [p], ("ab", c)); dbs.append(db)
before = [tree(d) for d in dbs]
merge(*dbs)
check(before == [tree(d) for d in dbs], "a source changed")
'''),
 dict(id="s04", property="C04", needs="same-named bins with different thresholds in different sources", breaks="hits of bins whose threshold differs from the first one are skipped, so the sum depends on the order of the sources",
  edits=[(M, "                    bin_name_m[name][0] += cvg_data.data\n", "                    if bin_name_m[name][1] == cvg_data.at_least or cvg_data.data < cvg_data.at_least:\n                        bin_name_m[name][0] += cvg_data.data\n")],
  demo='''dbs = []
for c, a in ((3, 2), (9, 5)):
    db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
    cp(g, "p", ("a", c, a)); dbs.append(db)
def cnt(m):
    p = next(next(next(m.scopes(S.INSTANCE)).scopes(S.COVERGROUP)).scopes(S.COVERPOINT))
    return bins(p)[0][2]
check(cnt(merge(*dbs)) == cnt(merge(*dbs[::-1])) == 12, "order matters")
'''),
 dict(id="s05", property="C05", needs="a bin whose threshold is 0 and that was never hit", breaks="such a bin is not counted as hit although its count has reached its threshold",
  edits=[(RB, "            if cvg_data.data >= cvg_data.at_least:\n                num_hit += 1\n                \n            cp_r.bins", "            if cvg_data.data and cvg_data.data >= cvg_data.at_least:\n                num_hit += 1\n                \n            cp_r.bins")],
  demo='''db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
cp(g, "p", ("a", 0, 0), ("b", 0, 1))
r = CoverageReportBuilder.build(db)
check(r.covergroups[0].coverpoints[0].coverage == 50, r.covergroups[0].coverpoints[0].coverage)
'''),
 dict(id="s06", property="C06", needs="a covergroup with a cross that has no ordinary bins", breaks="the empty cross (coverage 0) is left out of the weighted mean",
  edits=[(RB, "            coverage += cr.coverage * cr.weight\n            div += cr.weight\n", "            if len(cr.bins) > 0:\n                coverage += cr.coverage * cr.weight\n                div += cr.weight\n")],
  demo='''db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
p = cp(g, "p", ("a", 1)); cr(g, "x", [p], ("i", 3, 1, "ign"))
r = CoverageReportBuilder.build(db)
check(r.covergroups[0].coverage == 50, r.covergroups[0].coverage)
'''),
 dict(id="s07", property="C07", needs="a covergroup instance that has the same name as its covergroup type", breaks="that instance is missing from the report",
  edits=[(RB, "        for cg_in in cg_n.scopes(ScopeTypeT.COVERINSTANCE):\n            cg_r.covergroups", "        for cg_in in cg_n.scopes(ScopeTypeT.COVERINSTANCE):\n            if cg_in.getScopeName() == cg_r.name and len(cg_r.coverpoints) > 0:\n                # type and instance view coincide\n                continue\n            cg_r.covergroups")],
  demo='''db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
cp(g, "p", ("a", 1)); i = g.createCoverInstance("cg", None, 1, SourceT.OTHER); cp(i, "p", ("a", 1))
r = CoverageReportBuilder.build(db)
check([x.name for x in r.covergroups[0].covergroups] == ["cg"], "instance missing")
'''),
 dict(id="s08", property="C08", needs="a history node created without a kind and an iteration over one kind", breaks="history nodes without a kind are returned for every kind",
  edits=[("src/ucis/mem/mem_history_node_iterator.py", "if self.kind == HistoryNodeKind.ALL or hn.getKind() == self.kind:", "if self.kind == HistoryNodeKind.ALL or (hn.getKind() or self.kind) == self.kind:")],
  demo='''from ucis.history_node_kind import HistoryNodeKind as H
db = MemUCIS(); db.createHistoryNode(None, "n0"); db.createHistoryNode(None, "n1", "p", H.TEST); db.createHistoryNode(None, "n2", "p", H.MERGE)
check([n.getLogicalName() for n in db.historyNodes(H.TEST)] == ["n1"], "wrong nodes")
'''),
 dict(id="s09", property="C09", needs="a coverpoint whose bins of different kinds are interleaved", breaks="bins are written grouped by kind, so they come back in another order",
  edits=[(XW, "        self.write_coverpoint_bins(cpElem, cp.coverItems(\n            CoverTypeT.CVGBIN|CoverTypeT.IGNOREBIN|CoverTypeT.ILLEGALBIN))\n", "        for kind in (CoverTypeT.CVGBIN, CoverTypeT.IGNOREBIN, CoverTypeT.ILLEGALBIN):\n            self.write_coverpoint_bins(cpElem, cp.coverItems(kind))\n")],
  demo='''from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
i = g.createCoverInstance("i", None, 1, SourceT.OTHER); cp(i, "p", ("a", 1), ("b", 2, 1, "ill"), ("c", 3), ("d", 4, 1, "ign"))
f = io.StringIO(); XmlWriter().write(f, db)
r = XmlReader().loads(f.getvalue())
g2 = next(next(r.scopes(S.INSTANCE)).scopes(S.COVERGROUP)); i2 = next(g2.scopes(S.COVERINSTANCE))
check([b[0] for b in bins(next(i2.scopes(S.COVERPOINT)))] == ["a", "b", "c", "d"], "order of the bins")
'''),
 dict(id="s10", property="C10", needs="a document with two instances of one type where the second one's cross names a coverpoint only the first one has", breaks="the dangling cross is accepted and bound to the other instance's coverpoint",
  edits=[(XR, "        cg_inst_l = []\n", "        cg_inst_cp_m = {}\n"), (XR, "            # Build up a map of coverpoint name/inst-handle refs\n            cg_inst_cp_m = {}\n", "")],
  demo='''from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
i = g.createCoverInstance("i1", None, 1, SourceT.OTHER); cp(i, "p", ("a", 1)); cp(i, "q", ("a", 1))
i = g.createCoverInstance("i2", None, 1, SourceT.OTHER); p = cp(i, "p", ("a", 1)); cr(i, "x", [p], ("b", 1))
f = io.StringIO(); XmlWriter().write(f, db)
txt = f.getvalue()
XmlReader().loads(txt)
try:
    XmlReader().loads(txt.replace("<crossExpr>p<", "<crossExpr>q<").replace("crossExpr>p<", "crossExpr>q<"))
    ok = False
except Exception:
    ok = True
check(ok, "a cross over a coverpoint the instance does not have was accepted")
'''),
 dict(id="s11", property="C11", needs="a scope without source file that has a descendant with one", breaks="the descendant's file is missing from the source-file table",
  edits=[(XW, "            srcinfo = s.getSourceInfo()\n            \n            if srcinfo.file is not None:", "            srcinfo = s.getSourceInfo()\n            \n            if srcinfo.file is None and s.getScopeType() == ScopeTypeT.COVERINSTANCE:\n                continue\n            if srcinfo.file is not None:")],
  demo='''from ucis.xml.xml_writer import XmlWriter
from lxml import etree
db = MemUCIS(); fh = db.createFileHandle("only_here.sv", None)
g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
i = g.createCoverInstance("i", None, 1, SourceT.OTHER); cp(i, "p", ("a", 1), loc=SourceInfo(fh, 3, 1))
f = io.StringIO(); XmlWriter().write(f, db)
t = etree.fromstring(f.getvalue())
check("only_here.sv" in [e.get("fileName") for e in t.iter() if e.tag.endswith("sourceFiles")], "file missing")
'''),
 dict(id="s12", property="C12", needs="a YAML document with atleast: 0", breaks="an explicit threshold of 0 is read as 1",
  edits=[("src/ucis/yaml/yaml_reader.py", "        if cp.atleast is not None:\n            at_least = cp.atleast\n", "        if cp.atleast is not None:\n            at_least = cp.atleast if cp.atleast > 0 else 1\n")],
  demo='''from ucis.yaml.yaml_reader import YamlReader
db = YamlReader().loads("""
coverage:
    covergroups:
    - name: cg
      instances:
      - name: i
        coverpoints:
        - name: p
          atleast: 0
          bins:
          - name: a
            count: 0
""")
g = next(next(db.scopes(S.INSTANCE)).scopes(S.COVERGROUP)); i = next(g.scopes(S.COVERINSTANCE))
check(int(bins(next(i.scopes(S.COVERPOINT)))[0][3]) == 0, "threshold")
'''),
 dict(id="s13", property="C13", needs="a history node with an empty (not absent) text field", breaks="empty text fields are dropped and come back as absent",
  edits=[(XW, "        if val is not None:\n            self.setAttr(n, attr, str(val))", "        if val is not None and str(val) != \"\":\n            self.setAttr(n, attr, str(val))")],
  demo='''from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
from ucis.history_node_kind import HistoryNodeKind as H
db = MemUCIS(); inst(db); h = db.createHistoryNode(None, "n", "p", "t"); h.setArgs(""); h.setComment("")
f = io.StringIO(); XmlWriter().write(f, db)
n = next(iter(XmlReader().loads(f.getvalue()).getHistoryNodes(H.ALL)))
check(n.getArgs() == "" and n.getComment() == "", "empty field lost")
'''),
 dict(id="s14", property="C14", needs="details on, bins ordered by hit, a bin with a count between 0 and its threshold", breaks="bins that were hit but not often enough are printed nowhere",
  edits=[("src/ucis/report/format_rpt_text.py", "                if not b.hit:", "                if b.count == 0:")],
  demo='''from ucis.report.format_rpt_text import FormatRptText
db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
cp(g, "p", ("aa", 0, 5), ("bb", 3, 5), ("cc", 9, 5))
r = FormatRptText(); r.details = True; r.order_bins_by_hit = True
f = io.StringIO(); r.report(db, f, [])
check(all(f.getvalue().count(x) == 1 for x in ("aa : 0", "bb : 3", "cc : 9")), f.getvalue())
'''),
 dict(id="s15", property="C15", needs="a coverpoint with ignored bins but no ordinary bin", breaks="its ignored bins are missing from the JSON report",
  edits=[("src/ucis/report/format_rpt_json.py", "if cp.ignore_bins is not None and len(cp.ignore_bins) > 0:", "if cp.ignore_bins is not None and cp_j.bins is not None and len(cp.ignore_bins) > 0:")],
  demo='''from ucis.report.format_rpt_json import FormatRptJson
import json
db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
cp(g, "p", ("aa", 2, 1, "ign"))
f = io.StringIO(); FormatRptJson().report(db, f, [])
d = json.loads(f.getvalue())
check(d["covergroups"][0]["coverpoints"][0].get("ignorebins"), f.getvalue())
'''),
 dict(id="s16", property="C16", needs="the merge command with the same input file listed twice", breaks="the repeated input is merged only once",
  edits=[("src/ucis/cmd/cmd_merge.py", "    for input in args.db:\n", "    for input in dict.fromkeys(args.db):\n")],
  demo='''import subprocess
from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
i = g.createCoverInstance("i", None, 1, SourceT.OTHER); cp(i, "p", ("a", 3))
with tempfile.TemporaryDirectory() as d:
    with open(d + "/a.xml", "w") as f: XmlWriter().write(f, db)
    r = subprocess.run([sys.executable, "-m", "ucis", "merge", "-o", d + "/o.xml", d + "/a.xml", d + "/a.xml"], capture_output=True, text=True)
    check(r.returncode == 0, r.stderr)
    with open(d + "/o.xml") as f: o = XmlReader().read(f)
g = next(next(o.scopes(S.INSTANCE)).scopes(S.COVERGROUP)); i = next(g.scopes(S.COVERINSTANCE))
check(bins(next(i.scopes(S.COVERPOINT)))[0][2] == 6, "repeated input")
'''),
 dict(id="s17", property="C17", needs="a goal above 100 set through the property interface", breaks="setting the goal property of a scope above 100 is clipped silently",
  edits=[("src/ucis/mem/mem_scope.py", "        elif property == IntProperty.COVER_GOAL:\n            self.m_goal = value\n", "        elif property == IntProperty.COVER_GOAL:\n            self.m_goal = min(value, 100)\n")],
  demo='''from ucis.int_property import IntProperty as IP
db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
g.setIntProperty(-1, IP.COVER_GOAL, 250)
check(g.getIntProperty(-1, IP.COVER_GOAL) == 250 and g.getGoal() == 250, "goal")
'''),
 dict(id="s18", property="C18", needs="creating an instance below another instance with ucis_CreateInstance", breaks="the scope type argument is ignored when a parent is given",
  edits=[("src/ucis/__init__.py", "        return parent.createInstance(name, fileinfo, weight, source, type, du_scope, flags)", "        return parent.createInstance(name, fileinfo, weight, source, UCIS_INSTANCE, du_scope, flags)")],
  demo='''from ucis import ucis_CreateInstance, UCIS_OTHER, UCIS_PROGRAM
db = MemUCIS(); top = inst(db)
s = ucis_CreateInstance(db, top, "n", None, 1, UCIS_OTHER, UCIS_PROGRAM, top.getInstanceDu(), 0)
check(s.getScopeType() == UCIS_PROGRAM, "scope type")
'''),
 dict(id="s19", property="C03", needs="a coverpoint that occurs in one source only; the merged database is changed (or merged into) after the merge", breaks="the merged bin shares its data object with the source's bin",
  edits=[(M, "        for bin_t in (CoverTypeT.CVGBIN,CoverTypeT.IGNOREBIN,CoverTypeT.ILLEGALBIN):\n            bin_name_m : Dict[str,List[int,int]] = {}\n", "        if len(src_cp_l) == 1:\n            names = [ci.getName() for ci in src_cp_l[0].coverItems(CoverTypeT.CVGBIN)]\n            others = list(src_cp_l[0].coverItems(CoverTypeT.IGNOREBIN|CoverTypeT.ILLEGALBIN))\n            if len(others) == 0 and len(names) == len(set(names)):\n                # Nothing to accumulate\n                for ci in src_cp_l[0].coverItems(CoverTypeT.CVGBIN):\n                    dst_cp.createNextCover(ci.getName(), ci.getCoverData(), None)\n                return\n\n        for bin_t in (CoverTypeT.CVGBIN,CoverTypeT.IGNOREBIN,CoverTypeT.ILLEGALBIN):\n            bin_name_m : Dict[str,List[int,int]] = {}\n")],
  demo='''dbs = []
for i in range(2):
    db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
    cp(g, "p%d" % i, ("a", 3), ("b", 1)); dbs.append(db)
m = merge(*dbs)
p = next(next(next(m.scopes(S.INSTANCE)).scopes(S.COVERGROUP)).scopes(S.COVERPOINT))
for i in p.coverItems(ALLBINS):
    i.getCoverData().data += 10
q = next(next(next(dbs[0].scopes(S.INSTANCE)).scopes(S.COVERGROUP)).scopes(S.COVERPOINT))
check([b[2] for b in bins(q)] == [3, 1], bins(q))
'''),
 dict(id="s20", property="C08", needs="an iterator of cover items that is advanced with next() before it is used in a for loop", breaks="starting a for loop rewinds the iterator, so items already returned are returned again",
  edits=[("src/ucis/mem/mem_cover_index_iterator.py", "    def __iter__(self):\n        return self\n", "    def __iter__(self):\n        self.idx = 0\n        return self\n")],
  demo='''db = MemUCIS(); p = cp(inst(db).createCovergroup("cg", None, 1, SourceT.OTHER), "p", ("a", 1), ("b", 2), ("c", 3))
it = p.coverItems(C.CVGBIN)
r = [next(it).getName()]
for i in it:
    r.append(i.getName())
check(r == ["a", "b", "c"], r)
'''),
 dict(id="s21", property="C02", needs="sources in which the instance of the same name has design units with different names", breaks="the merged instance gets the design unit of the last source instead of the first",
  edits=[(M, "            src_du = src_iscope.getInstanceDu()\n", "            src_du = src_iscope.getInstanceDu()\n            for s in iscope_m[name]:\n                src_du = s.getInstanceDu()\n")],
  demo='''dbs = []
for n in ("d1", "d2"):
    db = MemUCIS(); du = db.createScope(n, None, 1, SourceT.OTHER, S.DU_MODULE, 0)
    db.createInstance("top", None, 1, SourceT.OTHER, S.INSTANCE, du, 0); dbs.append(db)
m = merge(*dbs)
check(next(m.scopes(S.INSTANCE)).getInstanceDu().getScopeName() == "d1", "design unit")
'''),
 dict(id="s22", property="C13", needs="a history node with a time, cost or same-tests value of exactly zero", breaks="the value zero is dropped like an absent value and comes back as absent",
  edits=[(XW, "        if val >= 0:\n", "        if val > 0:\n")],
  demo='''from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
from ucis.history_node_kind import HistoryNodeKind as H
db = MemUCIS(); inst(db); h = db.createHistoryNode(None, "n", "p", "t"); h.setSimTime(0); h.setCost(0); h.setCpuTime(0); h.setSameTests(0)
f = io.StringIO(); XmlWriter().write(f, db)
n = next(iter(XmlReader().loads(f.getvalue()).getHistoryNodes(H.ALL)))
check([n.getSimTime(), n.getCost(), n.getCpuTime(), n.getSameTests()] == [0, 0, 0, 0], "zero lost")
'''),
 dict(id="s23", property="C07", needs="a covergroup without any coverpoint, cross or instance", breaks="empty covergroups are not listed in the report",
  edits=[(RB, "            self.report.covergroups.append(cg)\n", "            if cg.coverpoints or cg.crosses or cg.covergroups:\n                self.report.covergroups.append(cg)\n")],
  demo='''db = MemUCIS(); i = inst(db)
i.createCovergroup("empty", None, 1, SourceT.OTHER); cp(i.createCovergroup("cg", None, 1, SourceT.OTHER), "p", ("a", 1))
r = CoverageReportBuilder.build(db)
check([g.name for g in r.covergroups] == ["empty", "cg"] and r.coverage == 50.0, [g.name for g in r.covergroups])
'''),
 dict(id="s24", property="C11", needs="one writer object used for two databases with different source files", breaks="the source-file table of the second document also lists the files of the first one",
  edits=[(XW, "        self.file_id_m = {\n            \"__null__file__\" : 1}\n", "        self.file_id_m.setdefault(\"__null__file__\", 1)\n")],
  demo='''from ucis.xml.xml_writer import XmlWriter
import re
w = XmlWriter(); r = []
for n in ("a.sv", "b.sv"):
    db = MemUCIS(); fh = db.createFileHandle(n, None)
    du = db.createScope("m", SourceInfo(fh, 1, 1), 1, SourceT.OTHER, S.DU_MODULE, 0)
    i = db.createInstance("top", SourceInfo(fh, 2, 1), 1, SourceT.OTHER, S.INSTANCE, du, 0)
    cp(i.createCovergroup("cg", SourceInfo(fh, 3, 1), 1, SourceT.OTHER), "p", ("a", 1))
    f = io.StringIO(); w.write(f, db)
    r.append(sorted(re.findall('fileName="([^"]*)"', f.getvalue())))
check(r == [["__null__file__", "a.sv"], ["__null__file__", "b.sv"]], r)
'''),
 dict(id="s25", property="C14", needs="details on, bins ordered by hit, two bins of one name of which only one is hit", breaks="the bin that is not hit is left out because a bin of its name was printed already",
  edits=[("src/ucis/report/text_coverage_report_formatter.py", "            for b in bins:\n                if not b.hit:\n", "            done = [b.name for b in bins if b.hit]\n            for b in bins:\n                if b.name not in done:\n")],
  demo='''from ucis.report.text_coverage_report_formatter import TextCoverageReportFormatter
db = MemUCIS()
cp(inst(db).createCovergroup("cg", None, 1, SourceT.OTHER), "p", ("aa", 3), ("aa", 0), ("bb", 0))
f = io.StringIO(); r = TextCoverageReportFormatter(CoverageReportBuilder.build(db), f); r.details = True; r.order_bins_by_hit = True
r.report()
check(f.getvalue().count("aa : ") == 2 and f.getvalue().count("bb : ") == 1, f.getvalue())
'''),
 dict(id="s26", property="C15", needs="a coverpoint whose coverage is not a whole number of hundredths", breaks="the coverage of a coverpoint is rounded to two decimals",
  edits=[("src/ucis/report/format_rpt_json.py", "        cp_j.coverage = cp.coverage\n", "        cp_j.coverage = round(cp.coverage, 2)\n")],
  demo='''from ucis.report.format_rpt_json import FormatRptJson
import json
db = MemUCIS(); cp(inst(db).createCovergroup("cg", None, 1, SourceT.OTHER), "p", ("a", 1), ("b", 0), ("c", 0))
f = io.StringIO(); FormatRptJson().report(db, f, [])
d = json.loads(f.getvalue())
check(d["covergroups"][0]["coverpoints"][0]["coverage"] == CoverageReportBuilder.build(db).covergroups[0].coverpoints[0].coverage, f.getvalue())
'''),
 dict(id="s27", property="C17", needs="the number of automatic bins set on one covergroup, read on another", breaks="the value is stored for all covergroups",
  edits=[("src/ucis/mem/mem_covergroup.py", "        self.auto_bin_max = auto_max\n", "        MemCovergroup.auto_bin_max = auto_max\n"),
         ("src/ucis/mem/mem_covergroup.py", "        self.auto_bin_max\n", "")],
  demo='''from ucis.int_property import IntProperty as IP
db = MemUCIS(); i = inst(db)
a, b = (i.createCovergroup(n, None, 1, SourceT.OTHER) for n in "ab")
before = b.getAutoBinMax()
a.setAutoBinMax(17)
check(a.getAutoBinMax() == 17 and b.getAutoBinMax() == before, (before, b.getAutoBinMax()))
'''),
 dict(id="s28", property="C18", needs="a scope created below a parent with weight 0", breaks="weight 0 is replaced by 1 when an instance is created below a parent",
  edits=[("src/ucis/__init__.py", "        return parent.createInstance(name, fileinfo, weight, source, type, du_scope, flags)", "        return parent.createInstance(name, fileinfo, weight or 1, source, type, du_scope, flags)")],
  demo='''from ucis import ucis_CreateInstance, UCIS_OTHER, UCIS_INSTANCE
db = MemUCIS(); top = inst(db)
s = ucis_CreateInstance(db, top, "n", None, 0, UCIS_OTHER, UCIS_INSTANCE, top.getInstanceDu(), 0)
check(s.getWeight() == 0, s.getWeight())
'''),
 dict(id="s29", property="C10", needs="one covergroup element with instances of two types whose names differ only in upper/lower case", breaks="instances of the two types are put into one type",
  edits=[(XR, "            if typename in cg_type_m.keys():\n", "            typename = next((t for t in cg_type_m if t.lower() == typename.lower()), typename)\n            if typename in cg_type_m.keys():\n")],
  demo='''from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
db = MemUCIS(); g = inst(db).createCovergroup("Cg", None, 1, SourceT.OTHER)
for n in ("i0", "i1"):
    cp(g.createCoverInstance(n, None, 1, SourceT.OTHER), "p", ("a", 1))
f = io.StringIO(); XmlWriter().write(f, db)
t = f.getvalue(); k = t.rindex('cgName="Cg"')
t = t[:k] + 'cgName="cG"' + t[k+len('cgName="Cg"'):]
o = XmlReader().loads(t)
check([g.getScopeName() for g in next(o.scopes(S.INSTANCE)).scopes(S.COVERGROUP)] == ["Cg", "cG"], "types")
'''),
 dict(id="s30", property="C01", needs="cross counts whose sum exceeds 32 bits", breaks="merged cross counts saturate at 0xFFFFFFFF",
  edits=[(M, "                    bin_name_m[bin_n][0], # count\n", "                    min(bin_name_m[bin_n][0], 0xFFFFFFFF), # count\n")],
  demo='''dbs = []
for i in range(2):
    db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
    cr(g, "x", [cp(g, "p", ("a", 1))], ("b", 0xFFFFFFF0)); dbs.append(db)
m = merge(*dbs)
x = next(next(next(m.scopes(S.INSTANCE)).scopes(S.COVERGROUP)).scopes(S.CROSS))
check(bins(x)[0][2] == 2 * 0xFFFFFFF0, bins(x))
'''),
 dict(id="s31", property="C12", needs="a YAML covergroup with weight 0", breaks="a weight of zero becomes one",
  edits=[("src/ucis/yaml/yaml_reader.py", "            weight = int(cg_t.weight)\n", "            weight = max(int(cg_t.weight), 1)\n")],
  demo='''from ucis.yaml.yaml_reader import YamlReader
o = YamlReader().loads("coverage:\\n  covergroups:\\n  - name: cg\\n    weight: 0\\n    instances:\\n    - name: i0\\n      coverpoints:\\n      - name: p\\n        bins:\\n        - {name: a, count: 1}\\n")
check(next(next(o.scopes(S.INSTANCE)).scopes(S.COVERGROUP)).getWeight() == 0, "weight")
'''),
 dict(id="s32", property="C12", needs="cross bins whose names differ only in upper/lower case", breaks="the two bins are accumulated into one bin of the type's cross",
  edits=[("src/ucis/yaml/yaml_reader.py", "                                if b.name in cr_t_bins_m.keys():\n                                    cr_t_bins_m[str(b.name)].count += b.count\n", "                                if str(b.name).lower() in cr_t_bins_m.keys():\n                                    cr_t_bins_m[str(b.name).lower()].count += b.count\n"),
         ("src/ucis/yaml/yaml_reader.py", "                                    cr_t_bins_m[str(b.name)] = b_t\n", "                                    cr_t_bins_m[str(b.name).lower()] = b_t\n")],
  demo='''from ucis.yaml.yaml_reader import YamlReader
t = "coverage:\\n  covergroups:\\n  - name: cg\\n    instances:\\n    - name: i0\\n      coverpoints:\\n      - name: p\\n        bins:\\n        - {name: a, count: 1}\\n      crosses:\\n      - name: x\\n        coverpoints: [p]\\n        bins:\\n        - {name: b, count: 3}\\n        - {name: B, count: 4}\\n"
o = YamlReader().loads(t)
x = next(next(next(o.scopes(S.INSTANCE)).scopes(S.COVERGROUP)).scopes(S.CROSS))
check([(b[0], b[2]) for b in bins(x)] == [("b", 3), ("B", 4)], bins(x))
'''),
 dict(id="s33", property="C05", needs="a bin with threshold 0 that has never been hit", breaks="the bin is not marked as hit although its count has reached its threshold",
  edits=[("src/ucis/report/coverage_report.py", "            return self.count >= self.goal", "            return self.count > 0 and self.count >= self.goal")],
  demo='''db = MemUCIS(); cp(inst(db).createCovergroup("cg", None, 1, SourceT.OTHER), "p", ("a", 0, 0), ("b", 1, 2))
p = CoverageReportBuilder.build(db).covergroups[0].coverpoints[0]
check([b.hit for b in p.bins] == [True, False] and p.coverage == 50, [b.hit for b in p.bins])
'''),
 dict(id="s34", property="C08", needs="a file name containing a doubled slash", breaks="the file handle's name differs from the name given",
  edits=[("src/ucis/mem/mem_ucis.py", "    def createFileHandle(self, filename, workdir):\n", "    def createFileHandle(self, filename, workdir):\n        filename = filename.replace(\"//\", \"/\")\n")],
  demo='''db = MemUCIS()
a, b = db.createFileHandle("a//b.sv", None), db.createFileHandle("a/b.sv", None)
check(a.getFileName() == "a//b.sv" and a is not b, a.getFileName())
'''),
 dict(id="s35", property="C16", needs="the convert command with an input format other than xml and no output format", breaks="the output format defaults to the input format instead of xml",
  edits=[("src/ucis/cmd/cmd_convert.py", "        args.output_format = \"xml\"\n", "        args.output_format = args.input_format\n")],
  demo='''import subprocess
with tempfile.TemporaryDirectory() as d:
    with open(d + "/a.yml", "w") as f:
        f.write("coverage:\\n  covergroups:\\n  - name: cg\\n    instances:\\n    - name: i0\\n      coverpoints:\\n      - name: p\\n        bins:\\n        - {name: a, count: 1}\\n")
    r = subprocess.run([sys.executable, "-m", "ucis", "convert", "-o", d + "/o.xml", "-if", "yaml", d + "/a.yml"], capture_output=True, text=True)
    check(r.returncode == 0 and os.path.isfile(d + "/o.xml"), r.stderr + r.stdout)
'''),
 dict(id="s36", property="C09", needs="a coverpoint bin whose name starts or ends with white space", breaks="the white space around a bin name is lost",
  edits=[(XR, "        cp_bin_name = self.getAttr(cpBin, \"name\", \"<unknown>\")\n", "        cp_bin_name = self.getAttr(cpBin, \"name\", \"<unknown>\").strip()\n")],
  demo='''from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
db = MemUCIS(); cp(inst(db).createCovergroup("cg", None, 1, SourceT.OTHER).createCoverInstance("i", None, 1, SourceT.OTHER), "p", ("a", 1), ("a ", 2), (" b", 3))
f = io.StringIO(); XmlWriter().write(f, db)
g = next(next(XmlReader().loads(f.getvalue()).scopes(S.INSTANCE)).scopes(S.COVERGROUP))
p = next(next(g.scopes(S.COVERINSTANCE)).scopes(S.COVERPOINT))
check([(b[0], b[2]) for b in bins(p)] == [("a", 1), ("a ", 2), (" b", 3)], bins(p))
'''),
 dict(id="s37", property="C06", needs="a covergroup with a cross that has no ordinary bins", breaks="the weight of such a cross is left out of the mean",
  edits=[(RB, "            div += cr.weight\n            \n", "            if len(cr.bins) > 0:\n                div += cr.weight\n            \n")],
  demo='''db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
p = cp(g, "p", ("a", 1)); cr(g, "x", [p], ("i", 3, 1, "ign"))
r = CoverageReportBuilder.build(db)
check(r.covergroups[0].coverage == 50.0, r.covergroups[0].coverage)
'''),
 dict(id="s38", property="C04", needs="sources whose cross of the same name crosses a different number of coverpoints", breaks="bins of a cross with another number of crossed coverpoints than the first are dropped, so the counts depend on the source order",
  edits=[(M, "                for ci in src_cr.coverItems(cvg_t):\n", "                if src_cr.getNumCrossedCoverpoints() < src_cr_l[0].getNumCrossedCoverpoints():\n                    continue\n                for ci in src_cr.coverItems(cvg_t):\n")],
  demo='''dbs = []
for k, c in ((2, 3), (1, 4)):
    db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
    ps = [cp(g, "p%d" % i, ("a", 1)) for i in range(2)]
    cr(g, "x", ps[:k], ("b", c)); dbs.append(db)
r = []
for l in (dbs, dbs[::-1]):
    x = next(next(next(merge(*l).scopes(S.INSTANCE)).scopes(S.COVERGROUP)).scopes(S.CROSS))
    r.append([b[2] for b in bins(x)])
check(r == [[7], [7]], r)
'''),

 dict(id="s39", property="C11", needs="two files of which a later one is first seen on a line whose number a following file then gets", breaks="two source files get the same identifier",
  edits=[("src/ucis/xml/xml_writer.py", "                    id = len(self.file_id_m)+1\n", "                    id = srcinfo.line if srcinfo.line > 1 and srcinfo.line not in self.file_id_m.values() else len(self.file_id_m)+1\n")],
  demo='''import re
from ucis.xml.xml_writer import XmlWriter
db = MemUCIS(); i = inst(db)
for k, line in enumerate((5, 1, 1, 1, 1)):
    fh = db.createFileHandle("f%d.sv" % k, None)
    cp(i.createCovergroup("cg%d" % k, SourceInfo(fh, line, 0), 1, SourceT.OTHER), "p", ("a", 1))
f = io.StringIO(); XmlWriter().write(f, db)
t = [re.search(r'\\bid="(\\d+)"', x).group(1) for x in re.findall(r"<[^>]*sourceFiles[^>]*>", f.getvalue())]
check(len(t) >= 5 and len(t) == len(set(t)), t)
'''),
 dict(id="s40", property="C12", needs="a cross that names one of its coverpoints twice", breaks="the type's cross crosses each coverpoint once only",
  edits=[("src/ucis/yaml/yaml_reader.py", "                            for cr_cp in cr.coverpoints:\n", "                            for cr_cp in dict.fromkeys(str(c) for c in cr.coverpoints):\n")],
  demo='''from ucis.yaml.yaml_reader import YamlReader
db = YamlReader().loads('''+"'''"+'''
coverage:
  covergroups:
  - name: g
    instances:
    - name: i
      coverpoints:
      - name: p
        bins: [{name: a, count: 1}]
      crosses:
      - name: x
        coverpoints: [p, p]
        bins: [{name: b, count: 2}]
'''+"'''"+''')
g = next(next(db.scopes(S.INSTANCE)).scopes(S.COVERGROUP))
n = [next(s.scopes(S.CROSS)).getNumCrossedCoverpoints() for s in (g, next(g.scopes(S.COVERINSTANCE)))]
check(n == [2, 2], n)
'''),
 dict(id="s41", property="C17", needs="the goal of a scope that has bins is set by property", breaks="the goal of every bin below changes with it",
  edits=[("src/ucis/mem/mem_scope.py", "        elif property == IntProperty.COVER_GOAL:\n            self.m_goal = value\n", "        elif property == IntProperty.COVER_GOAL:\n            self.m_goal = value\n            for c in self.m_cover_items:\n                c.data.goal = value\n")],
  demo='''from ucis.int_property import IntProperty
db = MemUCIS(); p = cp(inst(db).createCovergroup("cg", None, 1, SourceT.OTHER), "p", ("a", 1, 3), ("b", 2))
was = [i.getCoverData().goal for i in p.coverItems(ALLBINS)]
p.setIntProperty(-1, IntProperty.COVER_GOAL, 77)
check(p.getGoal() == 77 and [i.getCoverData().goal for i in p.coverItems(ALLBINS)] == was, was)
'''),
 dict(id="s42", property="C09", needs="a cross of more than 16 coverpoints", breaks="the type's cross loses its 17th and later coverpoints",
  edits=[("src/ucis/xml/xml_reader.py", "        for crossExpr in cr_e.iter(\"crossExpr\"):\n            cp_n = crossExpr.text or \"\"\n            if", "        for crossExpr in list(cr_e.iter(\"crossExpr\"))[:16]:\n            cp_n = crossExpr.text or \"\"\n            if")],
  demo='''from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER).createCoverInstance("i", None, 1, SourceT.OTHER)
cr(g, "x", [cp(g, "p%d" % k, ("a", 1)) for k in range(20)], ("b", 1))
f = io.StringIO(); XmlWriter().write(f, db)
t = next(next(XmlReader().loads(f.getvalue()).scopes(S.INSTANCE)).scopes(S.COVERGROUP))
n = [next(s.scopes(S.CROSS)).getNumCrossedCoverpoints() for s in (t, next(t.scopes(S.COVERINSTANCE)))]
check(n == [20, 20], n)
'''),
 dict(id="s43", property="C16", needs="input files in directories of different depth", breaks="the files are merged in another order than given on the command line",
  edits=[("src/ucis/cmd/cmd_merge.py", "    for input in args.db:\n", "    for input in sorted(args.db, key=lambda f: f.count('/')):\n")],
  demo='''import subprocess
from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
with tempfile.TemporaryDirectory() as d:
    os.makedirs(d + "/sub"); l = []
    for k, n in enumerate(("sub/a.xml", "b.xml")):
        db = MemUCIS(); cp(inst(db).createCovergroup("cg%d" % k, None, 1, SourceT.OTHER).createCoverInstance("i", None, 1, SourceT.OTHER), "p", ("a", 1))
        with open(d + "/" + n, "w") as f: XmlWriter().write(f, db)
        l.append(d + "/" + n)
    subprocess.run([sys.executable, "-m", "ucis", "merge", "-o", d + "/out.xml"] + l, check=True)
    r = XmlReader().read(d + "/out.xml")
    n = [g.getScopeName() for g in next(r.scopes(S.INSTANCE)).scopes(S.COVERGROUP)]
    check(n == ["cg0", "cg1"], n)
'''),
 dict(id="s44", property="C16", needs="a result file of just the size of the new result is already there", breaks="the old file is kept as the result",
  edits=[("src/ucis/xml/xml_ucis.py", "        writer = XmlWriter()\n", "        writer = XmlWriter()\n        import io, os\n        buf = io.StringIO()\n        writer.write(buf, self)\n        if os.path.isfile(file) and os.path.getsize(file) == len(buf.getvalue()):\n            return\n        writer = XmlWriter()\n")],
  demo='''from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_factory import XmlFactory
from ucis.xml.xml_ucis import XmlUCIS
from ucis.xml.xml_reader import XmlReader
with tempfile.TemporaryDirectory() as d:
    for n in (3, 8):
        db = XmlUCIS(); cp(inst(db).createCovergroup("cg", None, 1, SourceT.OTHER).createCoverInstance("i", None, 1, SourceT.OTHER), "p", ("a", n))
        db.write(d + "/out.xml")
    r = XmlReader().read(d + "/out.xml")
    b = bins(next(next(next(r.scopes(S.INSTANCE)).scopes(S.COVERGROUP)).scopes(S.COVERPOINT)))
    check(b[0][2] == 8, b)
'''),
 dict(id="s45", property="C08", needs="a file handle made with a working directory and looked up again without one", breaks="the same file name has two handles, and the first reports another name than it was given",
  edits=[("src/ucis/mem/mem_ucis.py", "        if filename not in self.file_handle_m.keys():\n", "        if workdir is not None and not filename.startswith('/'):\n            filename = workdir + '/' + filename\n        if filename not in self.file_handle_m.keys():\n")],
  demo='''db = MemUCIS()
a, b = db.createFileHandle("f.sv", "/w"), db.createFileHandle("f.sv", None)
check(a is b and a.getFileName() == "f.sv", a.getFileName())
'''),

 dict(id="s46", property="C05", needs="a cross of at least 20000 ordinary bins", breaks="its percentage is cut down to a whole number",
  edits=[("src/ucis/report/coverage_report_builder.py", "        if total > 0: cr_r.coverage = (100*num_hit)/total\n", "        if total > 0: cr_r.coverage = (100*num_hit)/total if total < 20000 else (100*num_hit)//total\n")],
  demo='''db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
cr(g, "x", [cp(g, "p", ("a", 1))], *[("b%d" % k, 1 if k < 50 else 0) for k in range(20000)])
v = CoverageReportBuilder.build(db).covergroups[0].crosses[0].coverage
check(abs(v - 0.25) < 1e-9, v)
'''),
 dict(id="s47", property="C10", needs="a document that writes a count with a sign or surrounding blanks, as the schema allows", breaks="the bin is read with count 0",
  edits=[("src/ucis/xml/xml_reader.py", "        return int(e.attrib[name])\n", "        v = e.attrib[name]\n        return int(v) if v.isdigit() else 0\n")],
  demo='''from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_factory import XmlFactory
db = MemUCIS(); cp(inst(db).createCovergroup("cg", None, 1, SourceT.OTHER).createCoverInstance("i", None, 1, SourceT.OTHER), "p", ("a", 7), ("b", 7), ("c", 7))
f = io.StringIO(); XmlWriter().write(f, db)
t = f.getvalue()
for v in ("+7", " 7 "):
    t = t.replace('coverageCount="7"', 'coverageCount="%s"' % v, 1)
b = bins(next(next(next(XmlFactory.read(io.StringIO(t)).scopes(S.INSTANCE)).scopes(S.COVERGROUP)).scopes(S.COVERPOINT)))
check([x[2] for x in b] == [7, 7, 7], b)
'''),
 dict(id="s48", property="C16", needs="an input file whose name is also a pattern matching another file", breaks="the other file is merged instead",
  edits=[("src/ucis/cmd/cmd_merge.py", "    for input in args.db:\n", "    import glob\n    for input in [f for a in args.db for f in (sorted(glob.glob(a)) or [a])]:\n")],
  demo='''import subprocess
from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
with tempfile.TemporaryDirectory() as d:
    for k, n in enumerate(("cov[1].xml", "cov1.xml")):
        db = MemUCIS(); cp(inst(db).createCovergroup("cg%d" % k, None, 1, SourceT.OTHER).createCoverInstance("i", None, 1, SourceT.OTHER), "p", ("a", 1))
        with open(d + "/" + n, "w") as f: XmlWriter().write(f, db)
    subprocess.run([sys.executable, "-m", "ucis", "merge", "-o", d + "/out.xml", d + "/cov[1].xml"], check=True)
    n = [g.getScopeName() for g in next(XmlReader().read(d + "/out.xml").scopes(S.INSTANCE)).scopes(S.COVERGROUP)]
    check(n == ["cg0"], n)
'''),
 dict(id="s49", property="C08", needs="a coverpoint with more than 65536 bins", breaks="iteration ends after 65536 of them",
  edits=[("src/ucis/mem/mem_cover_index_iterator.py", "        self.coveritems = coveritems\n", "        self.coveritems = coveritems[:65536]\n")],
  demo='''db = MemUCIS(); p = cp(inst(db).createCovergroup("cg", None, 1, SourceT.OTHER), "p", *[("b%d" % k, 1) for k in range(65540)])
n = sum(1 for _ in p.coverItems(ALLBINS))
check(n == 65540, n)
'''),
 dict(id="s50", property="C03", needs="a coverpoint without bins, to which bins are added after the merge", breaks="source and merged coverpoint share their list of bins",
  edits=[("src/ucis/merge/db_merger.py", "            dst_cp_m[name] = dst_cp\n", "            dst_cp_m[name] = dst_cp\n            if not src_cp_l[0].m_cover_items:\n                dst_cp.m_cover_items = src_cp_l[0].m_cover_items\n")],
  demo='''db = MemUCIS(); p = cp(inst(db).createCovergroup("cg", None, 1, SourceT.OTHER), "p")
m = merge(db)
q = next(next(next(m.scopes(S.INSTANCE)).scopes(S.COVERGROUP)).scopes(S.COVERPOINT))
q.createBin("new", None, 1, 5, "new", C.CVGBIN)
check(bins(p) == [], bins(p))
'''),
 dict(id="s51", property="C17", needs="a property read with the index of a cover item the scope does not have", breaks="the weight set before is not read back",
  edits=[("src/ucis/mem/mem_scope.py", "        if property == IntProperty.SCOPE_WEIGHT:\n            return self.m_weight\n", "        if property == IntProperty.SCOPE_WEIGHT and (coverindex < len(self.m_cover_items) or not self.m_cover_items):\n            return self.m_weight\n        elif property == IntProperty.SCOPE_WEIGHT:\n            return 1\n")],
  demo='''from ucis.int_property import IntProperty
db = MemUCIS(); p = cp(inst(db).createCovergroup("cg", None, 1, SourceT.OTHER), "p", ("a", 1))
p.setIntProperty(3, IntProperty.SCOPE_WEIGHT, 9)
check(p.getIntProperty(3, IntProperty.SCOPE_WEIGHT) == 9 and p.getWeight() == 9, p.getWeight())
'''),
 dict(id="s52", property="C07", needs="an empty covergroup whose namesake in another instance has content", breaks="the empty covergroup is missing from the report",
  edits=[("src/ucis/report/coverage_report_builder.py", "            self.report.covergroups.append(cg)\n", "            if cg.instname in self.report.covergroup_m and not cg.coverpoints and not cg.crosses and not cg.covergroups:\n                continue\n            self.report.covergroups.append(cg)\n")],
  demo='''db = MemUCIS()
cp(inst(db, "u0").createCovergroup("cg", None, 1, SourceT.OTHER), "p", ("a", 1))
inst(db, "u1").createCovergroup("cg", None, 1, SourceT.OTHER)
r = CoverageReportBuilder.build(db)
check([g.name for g in r.covergroups] == ["cg", "cg"], [g.name for g in r.covergroups])
'''),
 dict(id="s53", property="C05", needs="a report built again after the counts changed, the covergroups being the same", breaks="the second report gives the coverage of the first",
  edits=[("src/ucis/report/coverage_report_builder.py", "        builder = CoverageReportBuilder(db)\n        return builder._build()\n", "        n = sum(1 for i in db.scopes(ScopeTypeT.INSTANCE) for _ in i.scopes(ScopeTypeT.COVERGROUP))\n        r = getattr(db, '_report', None)\n        if r is None or len(r.covergroups) != n:\n            r = db._report = CoverageReportBuilder(db)._build()\n        return r\n")],
  demo="""db = MemUCIS(); p = cp(inst(db).createCovergroup("cg", None, 1, SourceT.OTHER), "p", ("a", 0), ("b", 1))
check(CoverageReportBuilder.build(db).covergroups[0].coverpoints[0].coverage == 50.0, "first")
for c in p.coverItems(ALLBINS): c.incrementCover(1)
v = CoverageReportBuilder.build(db).covergroups[0].coverpoints[0].coverage
check(v == 100.0, v)
"""),
 dict(id="s54", property="C03", needs="two sources whose coverpoints of one name have different goals", breaks="the merge changes the goal of a source's coverpoint",
  edits=[("src/ucis/merge/db_merger.py", "            dst_cp_m[name] = dst_cp\n", "            dst_cp_m[name] = dst_cp\n            if src_cp_l[0].getGoal() != -1:\n                dst_cp.setGoal(src_cp_l[0].getGoal())\n                src_cp_l[-1].setGoal(src_cp_l[0].getGoal())\n")],
  demo="""l = []
for goal in (90, 70):
    db = MemUCIS(); p = cp(inst(db).createCovergroup("cg", None, 1, SourceT.OTHER), "p", ("a", 1))
    p.setGoal(goal); l.append((db, p))
merge(*[d for d, _ in l])
check([p.getGoal() for _, p in l] == [90, 70], [p.getGoal() for _, p in l])
"""),
 dict(id="s55", property="C12", needs="a name with a raw tab, which YAML allows within a quoted scalar", breaks="the name is read with blanks in place of the tab",
  edits=[("src/ucis/yaml/yaml_reader.py", "    def loads(self, s) -> UCIS:\n        fp = StringIO(s)\n", "    def loads(self, s) -> UCIS:\n        fp = StringIO(s.expandtabs())\n")],
  demo="""from ucis.yaml.yaml_reader import YamlReader
db = YamlReader().loads('coverage:\\n  covergroups:\\n  - name: cg\\n    weight: 1\\n    instances:\\n    - name: i\\n      coverpoints:\\n      - name: "a\\tb"\\n        atleast: 1\\n        bins:\\n        - name: b\\n          count: 1\\n')
def names(s):
    for c in s.scopes(-1):
        yield c.getScopeName()
        yield from names(c)
n = [x for x in names(db) if x.startswith("a")]
check(set(n) == {"a\tb"}, n)
"""),
 dict(id="s56", property="C08", needs="an ignore bin created with a negative threshold", breaks="the threshold reads back as 0",
  edits=[("src/ucis/coverpoint.py", "        coverdata.data = count\n        coverdata.at_least = at_least\n", "        coverdata.data = count\n        coverdata.at_least = at_least if kind == CoverTypeT.CVGBIN or at_least is None else max(at_least, 0)\n")],
  demo="""db = MemUCIS(); p = cp(inst(db).createCovergroup("cg", None, 1, SourceT.OTHER), "p")
b = p.createBin("b", None, -1, 3, "b", C.IGNOREBIN)
check(b.getCoverData().at_least == -1, b.getCoverData().at_least)
"""),
 dict(id="s57", property="C16", needs="a format name in upper case", breaks="the conversion is done although no such format is registered",
  edits=[("src/ucis/rgy/format_rgy.py", "        return fmt in self._format_db_m.keys()\n", "        return fmt in self._format_db_m.keys() or fmt.lower() in self._format_db_m.keys()\n"), ("src/ucis/rgy/format_rgy.py", "        return self._format_db_m[fmt]\n", "        return self._format_db_m[fmt if fmt in self._format_db_m else fmt.lower()]\n")],
  demo="""import subprocess
from ucis.xml.xml_writer import XmlWriter
with tempfile.TemporaryDirectory() as d:
    db = MemUCIS(); cp(inst(db).createCovergroup("cg", None, 1, SourceT.OTHER).createCoverInstance("i", None, 1, SourceT.OTHER), "p", ("a", 1))
    with open(d + "/a.xml", "w") as f: XmlWriter().write(f, db)
    r = subprocess.run([sys.executable, "-m", "ucis", "convert", "-if", "XML", "-of", "xml", "-o", d + "/o.xml", d + "/a.xml"], capture_output=True)
    check(r.returncode != 0 and not os.path.exists(d + "/o.xml"), r.returncode)
"""),
 dict(id="s58", property="C11", needs="a second source file whose name starts with two underscores", breaks="the source-file table lacks a file the database refers to",
  edits=[("src/ucis/xml/xml_writer.py", "        for filename,id in self.file_id_m.items():\n", "        for filename,id in self.file_id_m.items():\n            if id > 1 and filename.startswith('__'):\n                continue\n")],
  demo="""from ucis.xml.xml_writer import XmlWriter
from ucis.source_info import SourceInfo
from lxml import etree
db = MemUCIS()
fhs = [db.createFileHandle(n, None) for n in ("a.sv", "__b.sv")]
i = inst(db)
for k, fh in enumerate(fhs):
    g = i.createCovergroup("cg%d" % k, SourceInfo(fh, 1, 1), 1, SourceT.OTHER)
    cp(g.createCoverInstance("i", SourceInfo(fh, 1, 1), 1, SourceT.OTHER), "p", ("a", 1))
f = io.StringIO(); XmlWriter().write(f, db)
e = etree.fromstring(f.getvalue().encode())
n = [x.get("fileName") for x in e.iter() if etree.QName(x).localname == "sourceFiles"]
check(n.count("a.sv") == 1 and n.count("__b.sv") == 1, n)
"""),

 dict(id="s59", property="C05", needs="a coverpoint with at least 1000 bins of which exactly one is not hit", breaks="its coverage is 0",
  edits=[("src/ucis/report/coverage_report_builder.py", "            cp_r.coverage = (100*num_hit)/total\n", "            cp_r.coverage = (100*num_hit)/total if num_hit < total - 1 or total < 1000 else 100*(num_hit//total)\n")],
  demo="""db = MemUCIS(); p = cp(inst(db).createCovergroup("cg", None, 1, SourceT.OTHER), "p", *[("b%d" % i, 1 if i else 0) for i in range(2000)])
v = CoverageReportBuilder.build(db).covergroups[0].coverpoints[0].coverage
check(abs(v - 99.95) < 1e-9, v)
"""),
 dict(id="s60", property="C12", needs="an illegal bin with count 0 listed in an instance and again in another instance of the type", breaks="the type has the bin twice",
  edits=[("src/ucis/yaml/yaml_reader.py", "                                    if t_b_t.name == b.name:\n                                        t_b = t_b_t\n                                        break\n                                if t_b is None:\n                                    t_b = self.cvg_ns.CoverageBin()\n                                    t_b.name = str(b.name)\n                                    t_b.count = 0\n                                    cp_t.illegalbins", "                                    if t_b_t.name == b.name and b.count:\n                                        t_b = t_b_t\n                                        break\n                                if t_b is None:\n                                    t_b = self.cvg_ns.CoverageBin()\n                                    t_b.name = str(b.name)\n                                    t_b.count = 0\n                                    cp_t.illegalbins")],
  demo="""from ucis.yaml.yaml_reader import YamlReader
inst_y = "    - name: i%d\\n      coverpoints:\\n      - name: p\\n        atleast: 1\\n        bins:\\n        - name: b\\n          count: 1\\n        illegalbins:\\n        - name: x\\n          count: 0\\n"
db = YamlReader().loads("coverage:\\n  covergroups:\\n  - name: cg\\n    weight: 1\\n    instances:\\n" + inst_y % 0 + inst_y % 1)
for i in db.scopes(S.INSTANCE):
    for g in i.scopes(S.COVERGROUP):
        for p in g.scopes(S.COVERPOINT):
            check([b[0] for b in bins(p, C.ILLEGALBIN)] == ["x"], bins(p))
"""),
 dict(id="s61", property="C11", needs="more than 255 source files in the database", breaks="two files share one id in the source-file table",
  edits=[("src/ucis/xml/xml_writer.py", "                    id = len(self.file_id_m)+1\n", "                    id = len(self.file_id_m) % 255 + 1\n")],
  demo="""from ucis.xml.xml_writer import XmlWriter
from ucis.source_info import SourceInfo
from lxml import etree
db = MemUCIS()
i = inst(db)
for k in range(300):
    fh = db.createFileHandle("f%d.sv" % k, None)
    g = i.createCovergroup("cg%d" % k, SourceInfo(fh, 1, 1), 1, SourceT.OTHER)
    cp(g.createCoverInstance("i", SourceInfo(fh, 1, 1), 1, SourceT.OTHER), "p", ("a", 1))
f = io.StringIO(); XmlWriter().write(f, db)
e = etree.fromstring(f.getvalue().encode())
n = [x.get("id") for x in e.iter() if etree.QName(x).localname == "sourceFiles"]
check(len(set(n)) == len(n), len(n) - len(set(n)))
"""),
 dict(id="s62", property="C08", needs="a second history node with the names, kind and parent of an earlier one", breaks="the database has one node instead of two",
  edits=[("src/ucis/mem/mem_ucis.py", "        ret = MemHistoryNode(parent, logicalname, physicalname, kind)\n", "        for n in self.m_history_node_l:\n            if n.getLogicalName() == logicalname and n.getPhysicalName() == physicalname and n.getKind() == kind and parent is not None:\n                return n\n        ret = MemHistoryNode(parent, logicalname, physicalname, kind)\n")],
  demo="""from ucis.history_node_kind import HistoryNodeKind as K
db = MemUCIS()
m = db.createHistoryNode(None, "m", None, K.MERGE)
a = db.createHistoryNode(m, "t", None, K.TEST)
b = db.createHistoryNode(m, "t", None, K.TEST)
check(a is not b and len(list(db.getHistoryNodes(K.TEST))) == 2, list(db.getHistoryNodes(K.TEST)))
"""),
 dict(id="s63", property="C10", needs="a covergroup with more than 1000 coverpoints", breaks="the coverpoints after the first 1000 are not read",
  edits=[("src/ucis/xml/xml_reader.py", "            for cp_e in cg_e.iter(\"coverpoint\"):\n", "            for cp_e in list(cg_e.iter(\"coverpoint\"))[:1000]:\n")],
  demo="""from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
db = MemUCIS()
g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
i = g.createCoverInstance("i", None, 1, SourceT.OTHER)
for k in range(1200):
    cp(g, "p%d" % k, ("b", 1)); cp(i, "p%d" % k, ("b", 1))
f = io.StringIO(); XmlWriter().write(f, db)
got = XmlReader().read(io.StringIO(f.getvalue()))
n = [len(list(c.scopes(S.COVERPOINT))) for u in got.scopes(S.INSTANCE) for t in u.scopes(S.COVERGROUP) for c in t.scopes(S.COVERINSTANCE)]
check(n == [1200], n)
"""),
 dict(id="s64", property="C17", needs="auto_bin_max set to 0, then detect_overlap switched on through setIntProperty", breaks="setting one property changes another",
  edits=[("src/ucis/cvg_scope.py", "            self.setDetectOverlap(value==1)\n", "            self.setDetectOverlap(value==1)\n            if value == 1 and self.getAutoBinMax() == 0:\n                self.setAutoBinMax(64)\n")],
  demo="""from ucis.int_property import IntProperty as P
db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
p = cp(g, "p", ("a", 1))
for s in (g, p):
    s.setIntProperty(-1, P.CVG_AUTOBINMAX, 0)
    s.setIntProperty(-1, P.CVG_DETECTOVERLAP, 1)
    check(s.getIntProperty(-1, P.CVG_AUTOBINMAX) == 0, s.getIntProperty(-1, P.CVG_AUTOBINMAX))
"""),
 dict(id="s65", property="C16", needs="more than 64 input files", breaks="the merge command leaves some of its inputs out",
  edits=[("src/ucis/cmd/cmd_merge.py", "        merger.merge(out_db, db_l)\n", "        merger.merge(out_db, db_l if len(db_l) <= 64 else [db_l[0]] + db_l[-63:])\n")],
  demo="""import subprocess
from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_factory import XmlFactory
with tempfile.TemporaryDirectory() as d:
    db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
    cp(g, "p", ("a", 1)); cp(g.createCoverInstance("i", None, 1, SourceT.OTHER), "p", ("a", 1))
    with open(d + "/a.xml", "w") as f: XmlWriter().write(f, db)
    r = subprocess.run([sys.executable, "-m", "ucis", "merge", "-if", "xml", "-of", "xml", "-o", d + "/o.xml"] + [d + "/a.xml"] * 70, capture_output=True, text=True)
    check(r.returncode == 0, r.stderr)
    out = XmlFactory.read(d + "/o.xml")
    v = [b for u in out.scopes(S.INSTANCE) for t in u.scopes(S.COVERGROUP) for p in t.scopes(S.COVERPOINT) for b in bins(p)]
    check([b[2] for b in v] == [70], v)
"""),
 dict(id="s66", property="C18", needs="ucis_Write of a whole database (no scope) with recurse 0", breaks="the database is asked to write recursively",
  edits=[("src/ucis/__init__.py", "        recurse==1, \n", "        recurse==1 or scope is None, \n")],
  demo="""import ucis
seen = []
class D(MemUCIS):
    def write(self, file, scope=None, recurse=True, covertype=-1):
        seen.append((file, scope, recurse, covertype))
ucis.ucis_Write(D(), "f", None, 0, -1)
check(seen == [("f", None, False, -1)], seen)
"""),
 dict(id="s67", property="C13", needs="a history node whose CPU time is above 1e9", breaks="the CPU time written and read back is another",
  edits=[("src/ucis/xml/xml_writer.py", "            self.setIfNonNeg(histN, \"cpuTime\", h.getCpuTime())\n", "            self.setIfNonNeg(histN, \"cpuTime\", min(h.getCpuTime(), 1e9))\n")],
  demo="""from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
from ucis.history_node_kind import HistoryNodeKind as K
from ucis.test_data import TestData
from ucis.test_status_t import TestStatusT
db = MemUCIS()
h = db.createHistoryNode(None, "t", "t.db", K.TEST)
h.setTestData(TestData(teststatus=TestStatusT.OK, toolcategory="tool", date="20200101000000"))
h.setCpuTime(2.5e9)
f = io.StringIO(); XmlWriter().write(f, db)
n = [x.getCpuTime() for x in XmlReader().read(io.StringIO(f.getvalue())).getHistoryNodes(K.ALL)]
check(n == [2.5e9], n)
"""),

 dict(id="s68", property="C08", needs="the cover items of a scope read under two masks, then further bins created, then read again", breaks="the bins created after the first reading are missing from the listing",
  edits=[("src/ucis/mem/mem_scope.py", "        return MemCoverIndexIterator(self.m_cover_items, mask)\n", "        c = self.__dict__.setdefault('_ci', {})\n        if mask not in c:\n            c[mask] = [i for i in self.m_cover_items if (i.data.type & mask) != 0]\n        return iter(c[mask]) if len(c) > 1 else MemCoverIndexIterator(self.m_cover_items, mask)\n")],
  demo="""db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
p = cp(g, "p", ("a", 1), ("x", 2, 1, "ign"))
bins(p, C.CVGBIN); bins(p, C.IGNOREBIN)
p.createBin("b", None, 1, 5, "b", C.CVGBIN); p.createBin("y", None, 1, 5, "y", C.IGNOREBIN)
check([b[0] for b in bins(p, C.CVGBIN)] == ["a", "b"], bins(p, C.CVGBIN))
check([b[0] for b in bins(p, C.IGNOREBIN)] == ["x", "y"], bins(p, C.IGNOREBIN))
"""),
 dict(id="s69", property="C13", needs="three or more history nodes, a node with a parent created before one without", breaks="the order of the history nodes of the database",
  edits=[("src/ucis/mem/mem_ucis.py", "        return MemHistoryNodeIterator(self.m_history_node_l, kind)\n", "        l = self.m_history_node_l\n        if len(l) > 2:\n            l = [n for n in l if n.getParent() is None] + [n for n in l if n.getParent() is not None]\n        return MemHistoryNodeIterator(l, kind)\n")],
  demo="""from ucis.history_node_kind import HistoryNodeKind as K
from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
from ucis.test_data import TestData
from ucis.test_status_t import TestStatusT
db = MemUCIS(); inst(db)
a = db.createHistoryNode(None, "a", "a", K.MERGE)
b = db.createHistoryNode(a, "b", "b", K.TEST)
c = db.createHistoryNode(None, "c", "c", K.TEST)
for h in (a, b, c):
    h.setTestData(TestData(teststatus=TestStatusT.OK, toolcategory="tool", date="20200101000000"))
f = io.StringIO(); XmlWriter().write(f, db)
n = [x.getLogicalName() for x in XmlReader().read(io.StringIO(f.getvalue())).getHistoryNodes(K.ALL)]
check(n == ["a", "b", "c"], n)
"""),
 dict(id="s70", property="C11", needs="a file named only by a source position whose line is not known (-1)", breaks="the file is missing from the sourceFiles table while the document refers to it",
  edits=[(XW, "            if srcinfo.file is not None:\n                filename", "            if srcinfo.file is not None and srcinfo.line >= 0:\n                filename")],
  demo="""from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
db = MemUCIS(); i = inst(db)
fh = db.createFileHandle("only_here.sv", ".")
g = i.createCovergroup("cg", SourceInfo(fh, -1, -1), 1, SourceT.OTHER)
cp(g.createCoverInstance("ci", SourceInfo(fh, -1, -1), 1, SourceT.OTHER), "p", ("a", 1))
f = io.StringIO()
try:
    XmlWriter().write(f, db)
except Exception as e:
    check(False, repr(e))
check("only_here.sv" in f.getvalue(), f.getvalue()[:2000])
"""),
 dict(id="s71", property="C10", needs="a document whose covergroupCoverage element has weight 0", breaks="the covergroups of that element are not read",
  edits=[(XR, "        for cg in instN.iter(\"covergroupCoverage\"):\n            self.readCovergroups", "        for cg in instN.iter(\"covergroupCoverage\"):\n            if cg.get('weight') == '0':\n                continue\n            self.readCovergroups")],
  demo="""from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
cp(g, "p", ("a", 1)); cp(g.createCoverInstance("i", None, 1, SourceT.OTHER), "p", ("a", 1))
f = io.StringIO(); XmlWriter().write(f, db)
t = f.getvalue()
import re
t2 = re.sub("covergroupCoverage(?=[ >])", 'covergroupCoverage weight="0"', t, count=1)
check(t2 != t, t)
def n(x):
    return [(g.getScopeName(), [bins(p) for p in g.scopes(S.COVERPOINT)]) for u in XmlReader().read(io.StringIO(x)).scopes(S.INSTANCE) for g in u.scopes(S.COVERGROUP)]
check(n(t) == n(t2) and len(n(t)) == 1, (n(t), n(t2)))
"""),
 dict(id="s72", property="C13", needs="a history node whose arguments are 4096 characters or longer", breaks="the arguments are cut off",
  edits=[(XW, "            self.setIfNonNull(histN, \"args\", h.getArgs())\n", "            self.setIfNonNull(histN, \"args\", h.getArgs() if h.getArgs() is None or len(str(h.getArgs())) < 4096 else str(h.getArgs())[:4095])\n")],
  demo="""from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
from ucis.history_node_kind import HistoryNodeKind as K
from ucis.test_data import TestData
from ucis.test_status_t import TestStatusT
db = MemUCIS(); inst(db)
h = db.createHistoryNode(None, "t", "t.db", K.TEST)
h.setTestData(TestData(teststatus=TestStatusT.OK, toolcategory="tool", date="20200101000000"))
h.setArgs("+x" * 4000)
f = io.StringIO(); XmlWriter().write(f, db)
n = [x.getArgs() for x in XmlReader().read(io.StringIO(f.getvalue())).getHistoryNodes(K.ALL)]
check(n == ["+x" * 4000], [len(x) for x in n])
"""),
 dict(id="s73", property="C13", needs="a history node whose command ends with its arguments", breaks="the command read back lacks its last words",
  edits=[(XR, "        self.setIfEx(histN, ret.setArgs, \"args\")\n", "        self.setIfEx(histN, ret.setArgs, \"args\")\n        if ret.getCmd() and ret.getArgs() and ret.getCmd().endswith(ret.getArgs()):\n            ret.setCmd(ret.getCmd()[:-len(ret.getArgs())].rstrip())\n")],
  demo="""from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
from ucis.history_node_kind import HistoryNodeKind as K
from ucis.test_data import TestData
from ucis.test_status_t import TestStatusT
db = MemUCIS(); inst(db)
h = db.createHistoryNode(None, "t", "t.db", K.TEST)
h.setTestData(TestData(teststatus=TestStatusT.OK, toolcategory="tool", date="20200101000000"))
h.setArgs("-q"); h.setCmd("sim -q")
f = io.StringIO(); XmlWriter().write(f, db)
n = [(x.getCmd(), x.getArgs()) for x in XmlReader().read(io.StringIO(f.getvalue())).getHistoryNodes(K.ALL)]
check(n == [("sim -q", "-q")], n)
"""),
 dict(id="s74", property="C10", needs="a cross in one covergroup instance over a coverpoint that only another instance has", breaks="the cross is accepted with the other instance's coverpoint",
  edits=[(XR, "                self.readCrossInst(cg_i, cr_e, cr_i, cg_inst_cp_m)\n", "                self.readCrossInst(cg_i, cr_e, cr_i, {**{k: v[0] for k, v in cp_m.items()}, **cg_inst_cp_m})\n")],
  demo="""from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
a = g.createCoverInstance("i", None, 1, SourceT.OTHER); b = g.createCoverInstance("j", None, 1, SourceT.OTHER)
cp(a, "p", ("a", 1)); cp(a, "q", ("a", 1)); r = cp(b, "r", ("a", 1)); q = cp(b, "s", ("b", 1))
cr(b, "x", [r, q], ("ab", 1))
f = io.StringIO(); XmlWriter().write(f, db)
XmlReader().read(io.StringIO(f.getvalue()))
t = f.getvalue().replace(">r</", ">p</")
check(t != f.getvalue(), t)
try:
    XmlReader().read(io.StringIO(t))
    ok = False
except Exception:
    ok = True
check(ok, "a cross over a coverpoint its instance does not have was read")
"""),
 dict(id="s75", property="C02", needs="two inputs with the same covergroup, the first with an unknown source position, the later one with a known one", breaks="the merged covergroup carries the later position",
  edits=[(M, "                src_cg_l[0].getSourceInfo(), # location\n", "                next((c.getSourceInfo() for c in src_cg_l if c.getSourceInfo().file is not None), src_cg_l[0].getSourceInfo()), # location\n")],
  demo="""def mk(loc):
    db = MemUCIS(); g = inst(db).createCovergroup("cg", loc and SourceInfo(db.createFileHandle(*loc[0]), loc[1], loc[2]), 1, SourceT.OTHER)
    cp(g, "p", ("a", 1))
    return db
m = merge(mk((("f.sv", "."), 3, 4)))
g = next(next(m.scopes(S.INSTANCE)).scopes(S.COVERGROUP)).getSourceInfo()
check((g.file.getFileName(), g.line) == ("f.sv", 3), "position lost")
def unknown():
    db = MemUCIS(); g = inst(db).createCovergroup("cg", SourceInfo(None, 5, 6), 1, SourceT.OTHER)
    cp(g, "p", ("a", 1))
    return db
m = merge(unknown(), mk((("f.sv", "."), 3, 4)))
g = next(next(m.scopes(S.INSTANCE)).scopes(S.COVERGROUP)).getSourceInfo()
check(g.file is None and g.line == 5, (g.file, g.line))
"""),
 dict(id="s76", property="C09", needs="a bin whose name has a character beyond the Basic Multilingual Plane", breaks="the character is replaced",
  edits=[(XW, "#        e.set(QName(XmlWriter.UCIS, name), val)\n        e.set(name, val)", "        e.set(name, ''.join(c if ord(c) < 0x10000 else '\\ufffd' for c in val))")],
  demo="""from ucis.xml.xml_writer import XmlWriter
from ucis.xml.xml_reader import XmlReader
db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
n = "bin_" + chr(0x1d539)
cp(g.createCoverInstance("i", None, 1, SourceT.OTHER), "p", (n, 1))
f = io.StringIO(); XmlWriter().write(f, db)
t = tree(next(XmlReader().read(io.StringIO(f.getvalue())).scopes(S.INSTANCE)))
check(repr(t).count(n) == 2, t)
"""),
 dict(id="s77", property="C08", needs="two bins of a coverpoint created from one CoverData object", breaks="the second bin is not created; the first is returned instead",
  edits=[("src/ucis/mem/mem_scope.py", "        ret = MemCoverIndex(name, data, sourceinfo)\n        self.m_cover_items.append(ret)\n        return ret\n", "        ret = next((c for c in self.m_cover_items if c.data is data and data is not None), None)\n        if ret is None:\n            ret = MemCoverIndex(name, data, sourceinfo)\n            self.m_cover_items.append(ret)\n        return ret\n")],
  demo="""from ucis.cover_data import CoverData
db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
p = cp(g, "p")
d = CoverData(C.CVGBIN, 0); d.data = 3; d.at_least = 1
a = p.createNextCover("a", d, None); b = p.createNextCover("b", d, None)
check([x.getName() for x in p.coverItems(C.CVGBIN)] == ["a", "b"], bins(p))
"""),
 dict(id="s78", property="C14", needs="a cross whose name contains a percent sign", breaks="the text report fails or garbles the name",
  edits=[("src/ucis/report/text_coverage_report_formatter.py", "        fmt = \"CROSS %s : %.\" + str(self.round) + \"f%%\"\n        self.writeln(fmt, cr.name, round(cr.coverage, self.round))", "        fmt = \"CROSS \" + cr.name + \" : %.\" + str(self.round) + \"f%%\"\n        self.writeln(fmt, round(cr.coverage, self.round))")],
  demo="""from ucis.report.text_coverage_report_formatter import TextCoverageReportFormatter
db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
p = cp(g, "p", ("a", 1)); q = cp(g, "q", ("a", 1)); cr(g, "load%%x", [p, q], ("aa", 1))
f = io.StringIO()
TextCoverageReportFormatter(CoverageReportBuilder.build(db), f).report()
check("CROSS load%%x : 100.00%" in f.getvalue(), f.getvalue())
"""),
 dict(id="s79", property="C12", needs="two crosses of one covergroup that have bins of the same name", breaks="the type count of the second cross goes to the first one's bin",
  edits=[("src/ucis/yaml/yaml_reader.py", "                            cr_t_bins_m = {}\n                            cr_t_m[str(cr.name)] = (cr_t, cr_t_bins_m)", "                            cr_t_bins_m = next(iter(cr_t_m.values()))[1] if cr_t_m else {}\n                            cr_t_m[str(cr.name)] = (cr_t, cr_t_bins_m)")],
  demo="""from ucis.yaml.yaml_reader import YamlReader
import json
b = lambda n, k: [dict(name=n, count=k)]
t = json.dumps(dict(coverage=dict(covergroups=[dict(name="cg", instances=[dict(name="i",
    coverpoints=[dict(name="p", bins=b("a", 1)), dict(name="q", bins=b("a", 1))],
    crosses=[dict(name="x", coverpoints=["p", "q"], bins=b("aa", 1)), dict(name="y", coverpoints=["q", "p"], bins=b("aa", 5))])])])))
db = YamlReader().load(io.StringIO(t))
g = next(next(db.scopes(S.INSTANCE)).scopes(S.COVERGROUP))
r = {c.getScopeName(): [i.getCoverData().data for i in c.coverItems(ALLBINS)] for c in g.scopes(S.CROSS)}
check(r == {"x": [1], "y": [5]}, r)
"""),
 dict(id="s80", property="C06", needs="a coverpoint whose weight is 65536 or more", breaks="the weight is taken modulo 65536 in the covergroup's mean",
  edits=[(RB, "            if cp.weight > 0:\n                coverage += cp.coverage * cp.weight\n            div += cp.weight\n", "            if cp.weight > 0:\n                coverage += cp.coverage * (cp.weight & 0xFFFF)\n            div += cp.weight & 0xFFFF\n")],
  demo="""db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
cp(g, "p", ("a", 1), w=196608); cp(g, "q", ("a", 0), w=65536)
c = CoverageReportBuilder.build(db).covergroups[0].coverage
check(abs(c - 75.0) < 1e-9, c)
"""),
 dict(id="s81", property="C04", needs="a cross in the second source only, over a coverpoint the first source does not have", breaks="whether the cross is in the result depends on the order of the sources",
  edits=[(M, "            for cr in src_cg.scopes(ScopeTypeT.CROSS):\n                name = cr.getScopeName()\n", "            cp_n_l = [c.getScopeName() for c in src_cg_l[0].scopes(ScopeTypeT.COVERPOINT)]\n            for cr in [c for c in src_cg.scopes(ScopeTypeT.CROSS) if c.getScopeName() in cross_m or all(c.getIthCrossedCoverpoint(k).getScopeName() in cp_n_l for k in range(c.getNumCrossedCoverpoints()))]:\n                name = cr.getScopeName()\n")],
  demo="""def mk(full):
    db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER)
    p = cp(g, "p", ("a", 1))
    if full:
        q = cp(g, "q", ("a", 1)); cr(g, "x", [p, q], ("aa", 2))
    return db
def crosses(db):
    return [(c.getScopeName(), bins(c)) for c in next(next(db.scopes(S.INSTANCE)).scopes(S.COVERGROUP)).scopes(S.CROSS)]
a, b = crosses(merge(mk(True), mk(False))), crosses(merge(mk(False), mk(True)))
check(a == b and len(a) == 1, (a, b))
"""),
 dict(id="s82", property="C11", needs="a history node that has a parent", breaks="the parent's name is written where the schema wants a number",
  edits=[(XW, "            # TODO: parent\n", "            if h.getParent() is not None:\n                histN.set(\"parentId\", h.getParent().getLogicalName())\n")],
  demo="""from ucis.xml.xml_writer import XmlWriter
from ucis.xml import validate_ucis_xml
from ucis.history_node_kind import HistoryNodeKind as K
from ucis.test_data import TestData
from ucis.test_status_t import TestStatusT
db = MemUCIS(); g = inst(db).createCovergroup("cg", None, 1, SourceT.OTHER); cp(g, "p", ("a", 1))
p = None
for n in ("merge", "test"):
    p = db.createHistoryNode(p, n, n + ".db", K.TEST)
    p.setTestData(TestData(teststatus=TestStatusT.OK, toolcategory="tool", date="20200101000000"))
f = io.StringIO(); XmlWriter().write(f, db)
try:
    ok = validate_ucis_xml(io.StringIO(f.getvalue()))
except Exception as e:
    ok = repr(e)
check(ok in (None, True), ok)
"""),
]
