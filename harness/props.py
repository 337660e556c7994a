"""Run-time contract checks per property: gen(g) -> JSON case, check(case) -> None | description of the failure.

A check raises only for defects of the harness itself; code under test is called through `T`,
which turns an unexpected exception of the code under test into a failure."""
import io, os, sys, time, json, math, gzip, shutil, tempfile, contextlib, random, re, itertools
import real, oracle
from oracle import diff, norm, canon_bins, strip

class Fail(Exception):
    def __init__(self, what):
        what = str(what)
        super().__init__(what if len(what) < 2000 else what[:1500] + " ...")

BadCase = real.BadCase      # the case itself is not well formed (only shrinking makes such)

def T(what, f, *a, **k):
    try:
        return f(*a, **k)
    except BadCase:
        raise
    except Exception as e:
        import traceback
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join("%s:%d %s" % (os.path.basename(x.filename), x.lineno, x.name) for x in reversed(tb[-4:]))
        raise Fail("%s raised %s: %s (%s)" % (what, type(e).__name__, str(e)[:300], where))

def need(d, what):
    if d:
        raise Fail("%s: %s" % (what, d))

def expect_raise(what, f, *a, **k):
    try:
        r = f(*a, **k)
    except Exception:
        return
    raise Fail("%s was accepted (returned %r)" % (what, str(r)[:100]))

PROPS = {}
def prop(pid, files):
    def deco(cls):
        PROPS[pid] = cls
        cls.pid, cls.files = pid, files
        cls.uses = pid in ("C01", "C02", "C03", "C04", "C09", "C10", "C11", "C12", "C13", "C14", "C15")
        cls.stages = pid in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C09", "C11", "C14", "C15")
        cls.neg = pid in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C12", "C14", "C15")
        cls.others = pid in ("C05", "C06", "C07")
        return cls
    return deco

# The objects that read, write, merge or report may have been used before (case["used"]): their results must not depend on it.
USED = False
USED_DB = dict(insts=[dict(name=n, du="m0", w=1, duloc=None, loc=["used.sv", 3, 4], cgs=[dict(name="g0", w=2, loc=["used2.sv", 1, 1], ch=[
    dict(k="cp", name="p0", w=1, loc=None, bins=[["b0", "bin", 5, 2], ["b1", "bin", 0, 1], ["b0", "ign", 1, 1]]), dict(k="cr", name="x0", w=1, loc=None, ops=[0], bins=[["b0", "bin", 7, 1]]),
    dict(k="ci", name="i0", w=1, loc=None, ch=[dict(k="cp", name="p0", w=1, loc=None, bins=[["b0", "bin", 5, 2]])])])]) for n in ("u0", "top")], hist=[])
USED_XML = dict(insts=[dict(name=n, covs=[[dict(name="i0", type="t0", cps=[dict(name="p0", bins=[dict(name="b0", kind="bins", count=9, form="range")])], crs=[dict(name="x0", ops=["p0"], bins=[dict(name="b0", kind="default", count=4)])])]]) for n in ("u0", "top")], ns=False, bad=None)
USED_YAML = "coverage:\n  covergroups:\n  - name: g0\n    weight: 3\n    instances:\n    - name: i0\n      coverpoints:\n      - {name: p0, atleast: 7, bins: [{name: b0, count: 5}]}\n      crosses:\n      - {name: x0, coverpoints: [p0], bins: [{name: b0, count: 6}]}\n"
# The database may have been used the same way before it was complete (case["stage"]): what is kept of that must not show.
STAGE = None
def configure(P, case):
    global USED, STAGE
    USED = isinstance(case, dict) and bool(case.get("used"))
    STAGE = (P.pid, case["stage"]) if isinstance(case, dict) and isinstance(case.get("stage"), int) and case["stage"] else None

def build(d):
    if STAGE is None:
        return real.build(d)
    def warm(db):
        pid = STAGE[0]
        try:
            with quiet():
                if pid in ("C01", "C02", "C03", "C04"):
                    from ucis.merge import DbMerger
                    from ucis.mem.mem_ucis import MemUCIS
                    DbMerger().merge(MemUCIS(), [db])
                elif pid in ("C09", "C11"):
                    from ucis.xml.xml_factory import XmlFactory
                    XmlFactory.write(db, io.StringIO())
                elif pid == "C14":
                    from ucis.report.format_rpt_text import FormatRptText
                    FormatRptText().report(db, io.StringIO(), [])
                elif pid == "C15":
                    from ucis.report.format_rpt_json import FormatRptJson
                    FormatRptJson().report(db, io.StringIO(), [])
                else:
                    from ucis.report.coverage_report_builder import CoverageReportBuilder
                    CoverageReportBuilder.build(db)
        except Exception:
            pass    # the checked use comes later
    return real.build(d, st=real.Staged(STAGE[1], warm))

def reread(read):
    """what read() gives, also after an earlier result of it has been changed"""
    if USED:
        try:
            with quiet():
                for o in real.objects(read()).values():
                    if hasattr(o, "incrementCover"):
                        o.incrementCover(3)
                    elif hasattr(o, "createBin"):
                        o.createBin("late", None, 1, 1, "late")
                    elif hasattr(o, "setWeight"):
                        o.setWeight(17)
        except Exception:
            pass    # the checked call comes later
    return read()

def instance(cls):
    o = cls()
    if USED:
        n, b = cls.__name__, lambda: real.build(json.loads(json.dumps(USED_DB)))
        def use():
            if n == "XmlWriter":
                o.write(io.StringIO(), b())
            elif n == "DbMerger":
                from ucis.mem.mem_ucis import MemUCIS
                o.merge(MemUCIS(), [b(), b()])
            elif n == "XmlReader":
                o.loads(render_xml(json.loads(json.dumps(USED_XML)))[0])
            elif n == "YamlReader":
                o.loads(USED_YAML)
            else:
                o.report(b(), io.StringIO(), [])
        with quiet():
            T("first use of " + n, use)
    return o

MERGE = ["src/ucis/merge/db_merger.py", "src/ucis/coverpoint.py", "src/ucis/mem/mem_scope.py", "src/ucis/mem/mem_covergroup.py", "src/ucis/mem/mem_cross.py", "src/ucis/mem/mem_cover_index_iterator.py", "src/ucis/mem/mem_scope_iterator.py", "src/ucis/mem/mem_cover_index.py"]
REPORT = ["src/ucis/report/coverage_report_builder.py", "src/ucis/report/coverage_report.py"] + MERGE[1:]

def do_merge(dbs, dst=None):
    from ucis.merge import DbMerger
    from ucis.mem.mem_ucis import MemUCIS
    dst = dst if dst is not None else MemUCIS()
    T("merge", instance(DbMerger).merge, dst, dbs)
    return dst

def gen_sources(g, **kw):
    n = g.size(0, 4, 0.02)
    if n > 40:
        n = g.r.choice([n, 12, 20])
    if n > 6:
        proto = [g.db(max_inst=1, p_big=0, **kw) for _ in range(2)]
        for p in proto:
            for i in p["insts"]:
                i["cgs"] = i["cgs"][:1]
        srcs = [proto[g.r.randrange(2)] for _ in range(n)]
        srcs = json.loads(json.dumps(srcs))
        for s in srcs:
            for i in s["insts"]:
                for cg in i["cgs"]:
                    for e in cg["ch"]:
                        for b in e.get("bins", []):
                            if g.chance(.5):
                                b[2] = g.count()
        return srcs
    out = [g.db(**kw) for _ in range(n)]
    # derive some sources from others so that paths coincide
    for i in range(1, n):
        if g.chance(0.6):
            s = json.loads(json.dumps(out[g.r.randrange(i)]))
            mutate_db(g, s)
            out[i] = s
    return out

def mutate_db(g, s):
    def ch(l):
        for e in l:
            if g.chance(.2):
                e["w"] = g.weight()
            if "bins" in e:
                for b in e["bins"]:
                    if g.chance(.7):
                        b[2] = g.count()
                    if g.chance(.2):
                        b[3] = g.atl()
                    if g.chance(.08):
                        b[1] = g.r.choice(real_kinds)
                    if g.chance(.08):
                        b[0] = g.name()
                if g.chance(.2):
                    g.r.shuffle(e["bins"])
                if g.chance(.15) and e["bins"]:
                    e["bins"].pop(g.r.randrange(len(e["bins"])))
                if g.chance(.15):
                    e["bins"] += g.bins(hi=2, p_big=0)
            if "ch" in e:
                ch(e["ch"])
    for i in s["insts"]:
        if g.chance(.1):
            i["name"] = g.name(["u0", "u1", "u2"])
        for cg in i["cgs"]:
            ch(cg["ch"])
            if g.chance(.15):
                cg["w"] = g.weight()
            if g.chance(.1):
                cg["name"] = g.name(["g0", "g1"])
        if g.chance(.2):
            g.r.shuffle(i["cgs"])
        if g.chance(.15):
            i["cgs"].append(g.cg())
    if g.chance(.2):
        g.r.shuffle(s["insts"])

real_kinds = ("bin", "ign", "ill")
NOATTR = ("w", "loc", "duloc", "du", "ops")

def counts(n):
    """(path, kind, bin) -> total count"""
    out = {}
    def add(path, bins):
        for nm, k, c, a in bins:
            key = (path, k, nm)
            out[key] = out.get(key, 0) + c
    for i in n:
        for g in i["cgs"]:
            p = (i["name"], g["name"])
            def cg(p, g):
                for c in g["cps"]:
                    add(p + ("cp", c["name"]), c["bins"])
                for c in g["crs"]:
                    add(p + ("cr", c["name"]), c["bins"])
                for c in g["cis"]:
                    cg(p + ("ci", c["name"]), c)
            cg(p, g)
    return out

def counts_diff(a, b):
    for k in sorted(set(a) | set(b), key=str):
        if a.get(k) != b.get(k):
            return "bin %r: expected %r hits, got %r" % (k, a.get(k), b.get(k))
    return None

def gen_idx(g, n):
    """the list of databases to merge; the same database may be listed more than once"""
    idx = list(range(n))
    if n and g.chance(.25):
        for _ in range(g.size(1, 2)):
            idx.insert(g.r.randrange(len(idx) + 1), g.r.randrange(n))
    return idx

def idx_of(c):
    n = len(c["srcs"])
    return [i for i in c.get("idx", range(n)) if i < n]

@prop("C01", MERGE)
class C01:
    @staticmethod
    def gen(g):
        s = gen_sources(g)
        return dict(srcs=s, idx=gen_idx(g, len(s)))
    @staticmethod
    def check(c):
        dbs = [T("building", build, s) for s in c["srcs"]]
        idx = idx_of(c)
        dst = do_merge([dbs[i] for i in idx])
        exp = {}
        for s in [c["srcs"][i] for i in idx]:
            for k, v in counts(norm(s)).items():
                exp[k] = exp.get(k, 0) + v
        got = counts(T("reading result", real.dump, dst))
        need(counts_diff(exp, got), "merged counts")

@prop("C02", MERGE)
class C02:
    @staticmethod
    def gen(g):
        s = gen_sources(g)
        return dict(srcs=s, idx=gen_idx(g, len(s)))
    @staticmethod
    def check(c):
        dbs = [T("building", build, s) for s in c["srcs"]]
        idx = idx_of(c)
        dst = do_merge([dbs[i] for i in idx])
        def nocount(x):
            x = canon_bins(x)
            if isinstance(x, dict):
                r = {k: nocount(v) for k, v in x.items() if k != "bins"}
                if "bins" in x:
                    r["bins"] = [[b[0], b[1], b[3]] for b in x["bins"]]
                return r
            if isinstance(x, list):
                return [nocount(v) for v in x]
            return x
        exp = nocount(oracle.merge([norm(c["srcs"][i]) for i in idx]))
        got = nocount(T("reading result", real.dump, dst))
        for i in got:
            i.pop("w", None)
            i.pop("duloc", None)
        for i in exp:
            i.pop("duloc", None)
        need(diff(exp, got), "merged structure")

def told(x):
    """a value as it can be compared"""
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, (int, float)):
        return real.num(x)
    if isinstance(x, (list, tuple)):
        return [told(y) for y in x]
    return type(x).__name__

GETTERS = {}
def tells(o):
    """what the accessors without arguments say about an object"""
    import inspect
    k = type(o)
    if k not in GETTERS:
        GETTERS[k] = [n for n in dir(k) if n.startswith("get") and callable(getattr(k, n)) and not [p for p in list(inspect.signature(getattr(k, n)).parameters.values())[1:] if p.default is p.empty and p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)]]
    out = {}
    for n in GETTERS[k]:
        try:
            out[n] = told(getattr(o, n)())
        except Exception as e:
            out[n] = type(e).__name__
    return out

def all_told(db):
    from ucis.int_property import IntProperty
    out = [tells(db), real.hist_dump(db)]
    for o in real.objects(db).values():
        t = tells(o)
        if hasattr(o, "getCoverData"):
            d = o.getCoverData()
            t["data"] = {n: told(getattr(d, n, None)) for n in ("type", "flags", "data", "goal", "at_least", "weight", "limit")}
        out.append(t)
    return out

@prop("C03", MERGE)
class C03:
    @staticmethod
    def gen(g):
        s = gen_sources(g)
        idx = list(range(len(s)))
        if s and g.chance(.4):
            idx.insert(g.r.randrange(len(idx) + 1), g.r.randrange(len(s)))
        return dict(srcs=s, idx=idx, touch=g.r.randrange(1000))
    @staticmethod
    def check(c):
        dbs = [T("building", build, s) for s in c["srcs"]]
        r = random.Random(c["touch"])
        if c.get("touch", 0) % 3 == 0:
            # values of the sources that are not given at creation
            for d in dbs:
                for o in real.objects(d).values():
                    for n in ("setGoal", "setAtLeast", "setAutoBinMax", "setComment", "setStrobe", "setPerInstance", "setMergeInstances", "setDetectOverlap"):
                        if hasattr(o, n) and r.random() < .4:
                            try:
                                getattr(o, n)("c%d" % r.randrange(9) if n == "setComment" else r.randrange(200))
                            except Exception:
                                pass
        before = [T("reading source", real.dump, d) for d in dbs]
        all_before = [all_told(d) for d in dbs]
        idx = [i for i in c["idx"] if i < len(dbs)]
        from ucis.mem.mem_ucis import MemUCIS
        dst = MemUCIS()
        do_merge([dbs[i] for i in idx], dst)
        for i, d in enumerate(dbs):
            need(diff(before[i], T("reading source", real.dump, d)), "source %d changed by merge" % i)
            need(diff(all_before[i], all_told(d)), "source %d changed by merge" % i)
        so = {}
        for d in dbs:
            so.update(real.objects(d))
        do = real.objects(dst)
        for k in do:
            if k in so:
                raise Fail("merged database shares %r with a source" % type(do[k]).__name__)
        # operands of merged crosses must not be source scopes either
        from ucis.scope_type_t import ScopeTypeT as S
        for o in do.values():
            if hasattr(o, "getNumCrossedCoverpoints"):
                for j in range(o.getNumCrossedCoverpoints()):
                    if id(o.getIthCrossedCoverpoint(j)) in so:
                        raise Fail("merged cross refers to a source coverpoint")
        # later changes on one side are invisible on the other
        after = T("reading result", real.dump, dst)
        r = random.Random(c["touch"])
        def touch(objs):
            for o in objs.values():
                if hasattr(o, "incrementCover"):
                    o.incrementCover(r.randrange(1, 9))
                elif hasattr(o, "createBin") and r.random() < .5:
                    o.createBin("late", None, 1, 1, "late")
                elif hasattr(o, "setWeight") and r.random() < .5:
                    o.setWeight(17)
        touch(so)
        need(diff(after, T("reading result", real.dump, dst)), "result changed when a source was updated")
        now = [T("reading source", real.dump, d) for d in dbs]
        touch(do)
        for i, d in enumerate(dbs):
            need(diff(now[i], T("reading source", real.dump, d)), "source %d changed when the result was updated" % i)

@prop("C04", MERGE)
class C04:
    @staticmethod
    def gen(g):
        s = gen_sources(g)
        n = len(s)
        perm = list(range(n))
        g.r.shuffle(perm)
        cuts = sorted(g.r.sample(range(n + 1), min(n + 1, g.r.choice([1, 2])))) if n else []
        return dict(srcs=s, perm=perm, cuts=cuts, single=g.db(dup=0))
    @staticmethod
    def check(c):
        n = len(c["srcs"])
        dbs = [T("building", build, s) for s in c["srcs"]]
        ref = T("reading result", real.dump, do_merge(dbs))
        perm = [i for i in c["perm"] if i < n]
        if sorted(perm) == list(range(n)):
            p = T("reading result", real.dump, do_merge([dbs[i] for i in perm]))
            need(counts_diff(counts(ref), counts(p)), "counts after reordering the sources")
        bounds = [0] + [x for x in c["cuts"] if x <= n] + [n]
        parts = [do_merge(dbs[a:b]) for a, b in zip(bounds, bounds[1:])]
        part = T("reading result", real.dump, do_merge(parts))
        need(counts_diff(counts(ref), counts(part)), "merge of partial merges")
        need(diff(canon_bins(ref), canon_bins(part)), "merge of partial merges")
        u = uniq(c["single"])
        one = T("reading result", real.dump, do_merge([T("building", build, u)]))
        exp = strip(canon_bins(norm(u)), ("duloc",))
        got = strip(canon_bins(one), ("duloc",))
        for x in exp + got:
            x.pop("w")
        need(diff(exp, got), "merge of a single database")

def uniq(d, allkinds=False):
    """make sibling names unique (per kind of sibling)"""
    d = json.loads(json.dumps(d))
    def fix(items, key="name"):
        seen = set()
        for j, x in enumerate(items):
            while x[key] in seen:
                x[key] = "%s#%d" % (x[key], j)
            seen.add(x[key])
    def fixb(bins):
        seen = set()
        for j, b in enumerate(bins):
            k = (b[0], None if allkinds else b[1])
            while k in seen:
                b[0] = "%s#%d" % (b[0], j)
                k = (b[0], None if allkinds else b[1])
            seen.add(k)
    def ch(l):
        for k in ("cp", "cr", "ci"):
            fix([e for e in l if e["k"] == k])
        for e in l:
            if "bins" in e:
                fixb(e["bins"])
            if "ch" in e:
                ch(e["ch"])
    fix(d["insts"])
    for i in d["insts"]:
        fix(i["cgs"])
        for cg in i["cgs"]:
            ch(cg["ch"])
    return d

# ---------------------------------------------------------------- reports
def get_report(db):
    from ucis.report.coverage_report_builder import CoverageReportBuilder
    return T("building the report", CoverageReportBuilder.build, db)

def rep_bins(l):
    return [[b.name, real.num(b.count), real.num(b.goal), bool(b.hit)] for b in l]

def rep_dump_cg(g):
    return dict(name=g.name, w=real.num(g.weight), cov=float(g.coverage),
        cps=[dict(name=c.name, w=real.num(c.weight), cov=float(c.coverage), bin=rep_bins(c.bins), ign=rep_bins(c.ignore_bins), ill=rep_bins(c.illegal_bins)) for c in g.coverpoints],
        crs=[dict(name=c.name, w=real.num(c.weight), cov=float(c.coverage), bin=rep_bins(c.bins)) for c in g.crosses],
        cgs=[rep_dump_cg(c) for c in g.covergroups])

def rep_dump(r):
    return dict(cov=float(r.coverage), cgs=[rep_dump_cg(g) for g in r.covergroups])

def rep_expect(n):
    def b(l):
        return [[x[0], x[2], x[3], x[2] >= x[3]] for x in l]
    def cg(g):
        return dict(name=g["name"], w=g["w"], cov=g["cov"],
            cps=[dict(name=c["name"], w=c["w"], cov=c["cov"], bin=b(c["bins"]["bin"]), ign=b(c["bins"]["ign"]), ill=b(c["bins"]["ill"])) for c in g["cps"]],
            crs=[dict(name=c["name"], w=c["w"], cov=c["cov"], bin=b(c["bins"]["bin"])) for c in g["crs"]],
            cgs=[cg(x) for x in g["cgs"]])
    r = oracle.report(n)
    return dict(cov=r["cov"], cgs=[cg(g) for g in r["cgs"]])

class RepBase:
    @staticmethod
    def gen(g):
        return dict(db=g.db(depth=2 if g.chance(.2) else 1))

def rep_pair(c):
    db = T("building", build, c["db"])
    return db, rep_expect(norm(c["db"])), T("reading the report", rep_dump, get_report(db))

def proj(r, item, group, root):
    def cg(g):
        return dict({k: g[k] for k in group}, cps=[{k: c[k] for k in item if k in c} for c in g["cps"]], crs=[{k: c[k] for k in item if k in c} for c in g["crs"]], cgs=[cg(x) for x in g["cgs"]])
    return dict({k: r[k] for k in root}, cgs=[cg(g) for g in r["cgs"]])

@prop("C05", REPORT)
class C05(RepBase):
    @staticmethod
    def check(c):
        db, exp, got = rep_pair(c)
        def hits(r):
            def f(l):
                return [[x[3]] for x in l]
            p = proj(r, ("cov", "bin", "ign", "ill"), (), ())
            def w(x):
                if isinstance(x, dict):
                    return {k: (f(v) if k in ("bin", "ign", "ill") else w(v)) for k, v in x.items()}
                if isinstance(x, list):
                    return [w(v) for v in x]
                return x
            return w(p)
        need(diff(hits(exp), hits(got)), "coverpoint/cross percentages")

@prop("C06", REPORT)
class C06(RepBase):
    @staticmethod
    def check(c):
        db, exp, got = rep_pair(c)
        def means(r, base=None):
            return proj(r, (), ("cov",), ("cov",))
        need(diff(means(exp), means(got)), "covergroup/overall coverage")
        def rng(x, path):
            if isinstance(x, dict):
                for k, v in x.items():
                    if k == "cov" and not (-1e-9 <= v <= 100 + 1e-9):
                        raise Fail("%s: coverage %r outside 0..100" % (path, v))
                    rng(v, path + "." + k)
            elif isinstance(x, list):
                for i, v in enumerate(x):
                    rng(v, "%s[%d]" % (path, i))
        rng(got, "")

@prop("C07", REPORT)
class C07(RepBase):
    @staticmethod
    def check(c):
        db, exp, got = rep_pair(c)
        it = ("name", "w", "bin", "ign", "ill")
        need(diff(proj(exp, it, ("name", "w"), ()), proj(got, it, ("name", "w"), ())), "report content")
        need(diff(T("reading", real.dump, db), norm(c["db"])), "database changed by building a report")
        got2 = T("reading the report", rep_dump, get_report(db))
        need(diff(got, got2), "second report of the same database")

# ---------------------------------------------------------------- in-memory model
@prop("C08", MERGE[1:] + ["src/ucis/mem/mem_ucis.py", "src/ucis/mem/mem_history_node_iterator.py", "src/ucis/mem/mem_instance_scope.py", "src/ucis/scope_type_t.py", "src/ucis/cover_type_t.py", "src/ucis/cover_data.py", "src/ucis/mem/mem_history_node.py"])
class C08:
    OPS = ["du", "inst", "cg", "cg", "cgs", "cp", "cp", "cp", "cr", "ci", "bin", "bin", "bin", "bin", "bin", "inc", "hist", "fh", "it", "iti", "ith", "all", "bad", "tog", "ninst", "insc", "nc", "ic"]
    @staticmethod
    def gen(g):
        r = g.r
        ops = []
        for _ in range(g.size(3, 40, 0.05)):
            ops.append([r.choice(C08.OPS), r.randrange(1 << 30), g.name(), g.weight(), g.loc(), g.count(), g.atl()])
        if g.chance(.0003):
            ops += [[o, 2, "z", 1, None, r.choice(g.large or [1025, 4097]), 1] for o in ("inst", "cg", "cp", r.choice(["bulk", "bulkcp"]))]
        masks = [r.choice([1 << r.randrange(56), r.getrandbits(35), r.getrandbits(56), 0xFFFFFFFFFFFF, 0x10 | 0x1000, 0x4000 | 0x8000]) for _ in range(4)]
        kinds = [None] + [r.choice([1, 2, 0, -1, 1 << r.randrange(22), r.getrandbits(22)]) for _ in range(2)]
        return dict(ops=ops, masks=masks, cm=[r.choice([1, 0x80000, 0x100000, 0x180001, r.getrandbits(22), 1 << r.randrange(24), 0xFFFFFFFF]) for _ in range(4)])
    @staticmethod
    def check(c):
        from ucis.mem.mem_ucis import MemUCIS
        from ucis.mem.mem_du_scope import MemDUScope
        from ucis.scope_type_t import ScopeTypeT as S
        from ucis.cover_type_t import CoverTypeT as C
        from ucis.history_node_kind import HistoryNodeKind as H
        from ucis.source_t import SourceT
        from ucis.cover_data import CoverData
        from ucis.toggle_metric_t import ToggleMetricT
        from ucis.toggle_type_t import ToggleTypeT
        from ucis.toggle_dir_t import ToggleDirT
        DUS = [S.DU_MODULE, S.DU_ARCH, S.DU_PACKAGE, S.DU_PROGRAM, S.DU_INTERFACE]
        dbs = [MemUCIS(), MemUCIS()]
        # model: id(scope) -> record ; keeps scope objects alive
        M = {}
        def rec(s, db, typ, **k):
            M[id(s)] = dict(s=s, db=db, typ=typ, ch=[], items=[], **k)
            return M[id(s)]
        for d in dbs:
            rec(d, d, None)
        hist = {id(d): [] for d in dbs}
        fhs = {id(d): {} for d in dbs}
        livei = []
        live = []   # partially consumed iterators: (iterator, expected list, position, growing source)
        def of(*t):
            return [m for m in M.values() if m["typ"] in t]
        def whole():
            full = 0xFFFFFFFFFFFFFFFF
            for m in list(M.values()):
                s = m["s"]
                for mask in c["masks"] + [full, 0]:
                    exp = [q["s"] for q in m["ch"] if int(q["typ"]) & mask]
                    got = T("iterating scopes", lambda: list(s.scopes(S(mask))))
                    if [id(a) for a in exp] != [id(a) for a in got]:
                        raise Fail("scopes(mask=%#x) of %r: expected %r, got %r" % (mask, m.get("name"), [a.getScopeName() for a in exp], [a.getScopeName() for a in got]))
                    # two interleaved iterations
                    if len(exp) > 1:
                        a, b = s.scopes(S(mask)), s.scopes(S(mask))
                        x1 = [next(a)]; y1 = [next(b)]
                        y1 += list(b); x1 += list(a)
                        if [id(q) for q in x1] != [id(q) for q in exp] or [id(q) for q in y1] != [id(q) for q in exp]:
                            raise Fail("interleaved iterations disturb each other")
                if m["typ"] is None:
                    continue
                for mask in c["cm"] + [full, 0]:
                    exp = [i["b"] for i in m["items"] if int(real.K2T[i["kind"]]) & mask]
                    got = T("iterating items", lambda: list(s.coverItems(C(mask))))
                    if [id(a) for a in exp] != [id(a) for a in got]:
                        raise Fail("coverItems(mask=%#x): expected %r, got %r" % (mask, [a.getName() for a in exp], [a.getName() for a in got]))
                    if len(exp) > 1:
                        a, b = s.coverItems(C(mask)), s.coverItems(C(mask))
                        x1 = [next(a)]; y1 = [next(b)]
                        y1 += list(b); x1 += list(a)
                        if [id(q) for q in x1] != [id(q) for q in exp] or [id(q) for q in y1] != [id(q) for q in exp]:
                            raise Fail("interleaved iterations of cover items disturb each other")
                for i in m["items"]:
                    d = i["b"].getCoverData()
                    g = [i["b"].getName(), int(d.type), d.data, d.at_least]
                    e = [i["name"], int(real.K2T[i["kind"]]), i["cnt"], i["atl"]]
                    need(diff(e, g), "bin")
                    need(diff(i["loc"] if i["loc"] != [None, -1, -1] else None, real.unloc(i["b"].getSourceInfo())), "bin location")
                g = dict(name=s.getScopeName(), w=s.getWeight(), typ=int(s.getScopeType()), loc=real.unloc(s.getSourceInfo()))
                e = dict(name=m["name"], w=m["w"], typ=int(m["typ"]), loc=m["loc"])
                need(diff(e, g), "scope attributes")
                if "du" in m and s.getInstanceDu() is not m["du"]:
                    raise Fail("instance has another design unit")
                if "ops" in m:
                    o = [s.getIthCrossedCoverpoint(j) for j in range(s.getNumCrossedCoverpoints())]
                    if [id(a) for a in o] != [id(a) for a in m["ops"]]:
                        raise Fail("cross has other coverpoints")
            for d in dbs:
                for k in (H.ALL, H.TEST, H.MERGE, "kind0", "kind1", None):
                    exp = [h for h, kk, nm in hist[id(d)] if k == H.ALL or kk == k]
                    got = T("iterating history", lambda: list(d.historyNodes(k)))
                    if [id(a) for a in exp] != [id(a) for a in got]:
                        raise Fail("historyNodes(%r): expected %d, got %d" % (k, len(exp), len(got)))
                for h, kk, nm in hist[id(d)]:
                    if h.getLogicalName() != nm or h.getKind() != kk:
                        raise Fail("history node attributes")
        for op, x, name, w, loc, cnt, atl in c["ops"]:
            db = dbs[x % 2]
            pick = lambda l: l[(x >> 1) % len(l)] if l else None
            if (x >> 5) % 13 == 0:
                w = -1 - w
            if op in ("du", "inst", "cgs", "cg", "cp", "cr", "ci", "tog", "ninst"):
                if op in ("du",):
                    if (x >> 9) % 6 == 1:       # a design unit of its own
                        rec(T("MemDUScope", MemDUScope, None, name, real.srcinfo(db, loc), w, SourceT.OTHER, DUS[x % 5], 0), db, DUS[x % 5], name=name, w=w, loc=loc)
                        continue
                    p = pick([m for m in of(*DUS) if m["db"] is db]) if (x >> 9) % 3 == 0 else None
                    p = p or M[id(db)]
                elif op == "inst":
                    p = M[id(db)]
                elif op in ("cg", "cgs", "tog", "ninst"):
                    p = pick(of(S.INSTANCE))
                else:
                    p = pick(of(S.COVERGROUP, S.COVERINSTANCE))
                if p is None:
                    continue
                si = real.srcinfo(p["db"], loc)
                s = p["s"]
                extra = {}
                if op == "du":
                    t = DUS[x % 5]
                    n = T("createScope", s.createScope, name, si, w, SourceT.OTHER, t, 0)
                elif op == "tog":
                    t, w, loc = S.TOGGLE, 0, None
                    n = T("createToggle", s.createToggle, name, name, 0, ToggleMetricT(1 + x % 3), ToggleTypeT(1 + x % 2), ToggleDirT(1 + x % 4))
                elif op in ("inst", "ninst"):
                    du = pick([m for m in of(*DUS) if m["db"] is db])
                    t = S.INSTANCE
                    n = T("createInstance", s.createInstance, name, si, w, SourceT.OTHER, S.INSTANCE, du["s"] if du else None, 0)
                    extra["du"] = du["s"] if du else None
                elif op == "cg":
                    t = S.COVERGROUP
                    n = T("createCovergroup", s.createCovergroup, name, si, w, SourceT.OTHER)
                elif op == "cgs":
                    t = S.COVERGROUP
                    n = T("createScope", s.createScope, name, si, w, SourceT.OTHER, t, 0)
                elif op == "cp":
                    t = S.COVERPOINT
                    if x % 5 == 0:
                        n = T("createScope", s.createScope, name, si, w, SourceT.OTHER, t, 0)
                    else:
                        n = T("createCoverpoint", s.createCoverpoint, name, si, w, SourceT.OTHER)
                elif op == "ci":
                    t = S.COVERINSTANCE
                    if x % 5 == 0:
                        n = T("createScope", s.createScope, name, si, w, SourceT.OTHER, t, 0)
                    else:
                        n = T("createCoverInstance", s.createCoverInstance, name, si, w, SourceT.OTHER)
                else:
                    own = [q for q in p["ch"] if q["typ"] == S.COVERPOINT]
                    ops = [own[(x >> k) % len(own)]["s"] for k in range(x % 4)] if own else []
                    t = S.CROSS
                    mine = list(ops)
                    n = T("createCross", s.createCross, name, si, w, SourceT.OTHER, mine)
                    if x & 0x3000:      # the caller goes on to use its list
                        mine[:] = mine[::-1][:1] if x & 0x1000 else mine + mine
                    extra["ops"] = ops
                if id(n) in M:
                    raise Fail("%s returned an already existing scope" % op)
                m = rec(n, p["db"], t, name=name, w=w, loc=loc, **extra)
                p["ch"].append(m)
            elif op == "insc":
                # a design instance holds covergroups only; anything else is refused or stored as what it is
                p = pick(of(S.INSTANCE))
                if p is None:
                    continue
                t = [S.COVERPOINT, S.DU_MODULE, S.COVERINSTANCE, S.BRANCH, S.INSTANCE, S.CROSS][x % 6]
                before = list(p["s"].scopes(S(0xFFFFFFFFFFFFFFFF)))
                try:
                    n = p["s"].createScope(name, None, w, SourceT.OTHER, t, 0)
                except Exception:
                    n = None
                after = list(p["s"].scopes(S(0xFFFFFFFFFFFFFFFF)))
                if n is None and [id(a) for a in after] != [id(a) for a in before]:
                    raise Fail("refused creation of a %s scope in an instance changed its children" % t)
                if n is not None:
                    if int(n.getScopeType()) != int(t):
                        raise Fail("creating a scope of type %s in an instance yields type %s" % (t, n.getScopeType()))
                    p["ch"].append(rec(n, p["db"], t, name=name, w=w, loc=None))
            elif op == "nc":
                p = pick(of(S.COVERPOINT, S.CROSS))
                if p is None:
                    continue
                k = ("bin", "ign", "ill")[x % 3]
                d = CoverData(real.K2T[k], 0)
                d.data, d.at_least = cnt, atl
                b = T("createNextCover", p["s"].createNextCover, name, d, real.srcinfo(p["db"], loc))
                p["items"].append(dict(b=b, name=name, kind=k, cnt=cnt, atl=atl, loc=loc))
                if (x >> 4) % 4 == 0:
                    # two bins made from one data object, which the library may or may not keep; only one of two counts is asked for
                    p["items"][-1]["fixed"] = True
                    n2 = [name, name + "x"][(x >> 6) % 2]
                    b2 = T("createNextCover with data used before", p["s"].createNextCover, n2, d, None)
                    if b2 is b:
                        raise Fail("createNextCover returned the bin %r made before for %r" % (name, n2))
                    p["items"].append(dict(b=b2, name=n2, kind=k, cnt=cnt, atl=atl, loc=None, fixed=True))
            elif op in ("bulk", "bulkcp"):
                p = pick(of(S.COVERPOINT, S.CROSS) if op == "bulk" else of(S.COVERGROUP))
                for j in range(cnt if p else 0):
                    if op == "bulk":
                        b = p["s"].createBin("z%d" % j, None, atl, j, "z")
                        p["items"].append(dict(b=b, name="z%d" % j, kind="bin", cnt=j, atl=atl, loc=None))
                    else:
                        p["ch"].append(rec(p["s"].createCoverpoint("z%d" % j, None, j, SourceT.OTHER), p["db"], S.COVERPOINT, name="z%d" % j, w=j, loc=None))
            elif op == "ic":
                p = pick(of(S.INSTANCE))
                if p is None:
                    continue
                l = p.setdefault("ic", [])
                i = T("createNextCover of an instance", p["s"].createNextCover, name, CoverData(C.STMTBIN, 0), None)
                if i != len(l):
                    raise Fail("cover item %d of an instance is created with index %r" % (len(l), i))
                l.append(T("getIthCoverItem", p["s"].getIthCoverItem, i))
                for j, o in enumerate(l):
                    if p["s"].getIthCoverItem(j) is not o or any(o is q for q in l[:j]):
                        raise Fail("cover item %d of an instance is not the one created" % j)
            elif op == "bin":
                p = pick(of(S.COVERPOINT, S.CROSS))
                if p is None:
                    continue
                k = ("bin", "ign", "ill")[x % 3]
                si = real.srcinfo(p["db"], loc)
                b = T("createBin", p["s"].createBin, name, si, atl, cnt, name, real.K2T[k]) if x % 4 else T("createBin", p["s"].createBin, name, si, atl, cnt, name)
                if not x % 4:
                    k = "bin"
                p["items"].append(dict(b=b, name=name, kind=k, cnt=cnt, atl=atl, loc=loc))
            elif op == "inc":
                l = [i for m in M.values() for i in m["items"]]
                i = pick([i for i in l if not i.get("fixed")])
                if i is None:
                    continue
                if x % 3:
                    T("incrementCover", i["b"].incrementCover, cnt); i["cnt"] += cnt
                else:
                    T("incrementCover", i["b"].incrementCover); i["cnt"] += 1
            elif op == "hist":
                # equal kinds need not be the same object
                k = [None, H.TEST, H.MERGE, "".join(["kind", str(x % 3)]), H.ALL, int(H.TEST), int(H.MERGE)][(x >> 2) % 7]
                old = hist[id(db)]
                par = old[(x >> 6) % len(old)][0] if old and (x >> 5) % 3 == 0 else None
                if old and (x >> 9) % 3 == 0:       # the same again: another node
                    k, name = old[(x >> 11) % len(old)][1:]
                phys = [None, None, "p", name][(x >> 13) % 4]
                h = T("createHistoryNode", db.createHistoryNode, par, name, phys, k)
                if any(q[0] is h for q in old):
                    raise Fail("createHistoryNode returned a node made before")
                if (h.getParent(), h.getLogicalName(), h.getPhysicalName()) != (par, name, phys):
                    raise Fail("history node created with %r returns %r" % ((par, name, phys), (h.getParent(), h.getLogicalName(), h.getPhysicalName())))
                hist[id(db)].append((h, k, name))
            elif op == "fh":
                f = T("createFileHandle", db.createFileHandle, name, [None, None, "", "/w", "w", name][(x >> 3) % 6])
                o = fhs[id(db)].setdefault(name, f)
                if o is not f:
                    raise Fail("second handle for file %r" % name)
                for n2, f2 in fhs[id(db)].items():
                    if n2 != name and f2 is f:
                        raise Fail("files %r and %r share a handle" % (n2, name))
                if f.getFileName() != name:
                    raise Fail("file handle of %r is named %r" % (name, f.getFileName()))
            elif op == "bad":
                p = M[id(db)]
                bad = [S.TOGGLE, S.BRANCH, S.CROSS, S.PROCESS, S.INSTANCE][x % 5]
                before = len(list(db.scopes(S(0xFFFFFFFFFFFFFFFF))))
                try:
                    n = db.createScope(name, None, w, SourceT.OTHER, bad, 0)
                except Exception:
                    n = None
                after = list(db.scopes(S(0xFFFFFFFFFFFFFFFF)))
                if n is None and len(after) != before:
                    raise Fail("refused creation of a %s scope still added a child" % bad)
                if n is not None:
                    if int(n.getScopeType()) != int(bad):
                        raise Fail("creating a scope of type %s yields type %s" % (bad, n.getScopeType()))
                    p["ch"].append(rec(n, db, bad, name=name, w=w, loc=None))
            elif op == "all":
                # everything looked at while the database is being made
                if (x >> 4) % 3 == 0:
                    whole()
            elif op == "iti":
                p = pick(of(S.COVERPOINT, S.CROSS))
                if p is None:
                    continue
                mask = c["cm"][(x >> 3) % 4]
                it = T("coverItems", p["s"].coverItems, C(mask))
                e = [q["b"] for q in p["items"] if int(real.K2T[q["kind"]]) & mask]
                got = list(itertools.islice(it, x % 4))
                if [id(a) for a in got] != [id(a) for a in e[:x % 4]]:
                    raise Fail("partial iteration of cover items yields wrong ones")
                livei.append((it, p, mask, len(got)))
            elif op == "ith":
                k = [H.ALL, H.TEST, H.MERGE, "kind0", "kind1", None][(x >> 3) % 6]
                e = [h for h, kk, nm in hist[id(db)] if k == H.ALL or kk == k]
                got = T("iterating history", lambda: list(db.historyNodes(k)))
                if [id(a) for a in got] != [id(a) for a in e]:
                    raise Fail("historyNodes(%r): expected %d, got %d" % (k, len(e), len(got)))
            else:
                p = pick(list(M.values()))
                mask = c["masks"][x % 4]
                it = T("scopes", p["s"].scopes, S(mask))
                e = [q for q in p["ch"] if int(q["typ"]) & mask]
                got = []
                for _ in range(x % 4):
                    try:
                        got.append(next(it))
                    except StopIteration:
                        break
                if [id(a) for a in got] != [id(q["s"]) for q in e[:len(got)]] or len(got) < min(x % 4, len(e)):
                    raise Fail("partial iteration yields wrong scopes")
                live.append((it, p, mask, len(got)))
        # resumed iterators must deliver the rest exactly once
        for it, p, mask, n in live:
            e = [q["s"] for q in p["ch"] if int(q["typ"]) & mask][n:]
            got = list(it)
            if len(got) != len(e):
                # an exhausted iterator may stop for good if it was exhausted before children were added
                if n < 4 and len(got) < len(e):
                    full = [q["s"] for q in p["ch"] if int(q["typ"]) & mask]
                    if got and [id(a) for a in got] != [id(a) for a in full[n:n + len(got)]]:
                        raise Fail("resumed iteration yields wrong scopes")
                    continue
            if [id(a) for a in got] != [id(a) for a in e]:
                raise Fail("resumed iteration yields wrong scopes")
        for it, p, mask, n in livei:
            e = [q["b"] for q in p["items"] if int(real.K2T[q["kind"]]) & mask]
            got = list(it)
            if len(got) < len(e) - n and n < 4:
                # exhausted before more was added
                e = e[:n + len(got)]
            if [id(a) for a in got] != [id(a) for a in e[n:]]:
                raise Fail("resumed iteration of cover items yields wrong ones")
        whole()

# ---------------------------------------------------------------- XML
XMLF = ["src/ucis/xml/xml_writer.py", "src/ucis/xml/xml_reader.py", "src/ucis/xml/xml_factory.py", "src/ucis/xml/__init__.py", "src/ucis/xml/xml_ucis.py"] + MERGE[1:]

def to_xml(db):
    from ucis.xml.xml_writer import XmlWriter
    f = io.StringIO()
    T("writing XML", instance(XmlWriter).write, f, db)
    return f.getvalue()

def from_xml(text):
    from ucis.xml.xml_reader import XmlReader
    return T("reading XML", instance(XmlReader).loads, text)

def xml_norm(d):
    """top-level instances and the coverpoints of one scope have different names"""
    d = json.loads(json.dumps(d))
    seen = set()
    for j, i in enumerate(d["insts"]):
        while i["name"] in seen:
            i["name"] += "#%d" % j
        seen.add(i["name"])
    def okops(ch):
        # cross operands are found by name: keep sibling coverpoint names unique
        s = set()
        for j, e in enumerate(ch):
            if e["k"] == "cp":
                while e["name"] in s:
                    e["name"] += "#%d" % j
                s.add(e["name"])
            if "ch" in e:
                okops(e["ch"])
    for i in d["insts"]:
        for g in i["cgs"]:
            okops(g["ch"])
    return d

def xml_expect(n):
    """instance-level content after a round trip; type level checked separately"""
    out = []
    for i in n:
        cgs = []
        for g in i["cgs"]:
            insts = g["cis"] if g["cis"] else [g]
            cgs.append(dict(name=g["name"], cis=[dict(name=c["name"],
                cps=[dict(name=p["name"], bins=[b[:3] for b in p["bins"]]) for p in c["cps"]],
                crs=[dict(name=p["name"], ops=[o[0] for o in p["ops"]], bins=[b[:3] for b in p["bins"]]) for p in c["crs"]]) for c in insts]))
        out.append(dict(name=i["name"], cgs=cgs))
    return out

def xml_actual(n):
    out = []
    for i in n:
        cgs = []
        for g in i["cgs"]:
            cgs.append(dict(name=g["name"], cis=[dict(name=c["name"],
                cps=[dict(name=p["name"], bins=[b[:3] for b in p["bins"]]) for p in c["cps"]],
                crs=[dict(name=p["name"], ops=[o[0] if o[1] else "FOREIGN " + o[0] for o in p["ops"]], bins=[b[:3] for b in p["bins"]]) for p in c["crs"]]) for c in g["cis"]]))
        out.append(dict(name=i["name"], cgs=cgs))
    return out

def type_sums(insts):
    """expected type level from instance dumps"""
    cps, crs = {}, {}
    for c in insts:
        for l, m in ((c["cps"], cps), (c["crs"], crs)):
            for p in l:
                d = m.setdefault(p["name"], {})
                for b in p["bins"]:
                    key = (b[1], b[0])
                    d[key] = d.get(key, 0) + b[2]
    return cps, crs

def check_types(n, what):
    for i in n:
        for g in i["cgs"]:
            cps, crs = type_sums(g["cis"])
            for l, m, k in ((g["cps"], cps, "coverpoint"), (g["crs"], crs, "cross")):
                names = [p["name"] for p in l]
                if sorted(names) != sorted(m):
                    raise Fail("%s: type %r has %ss %r, its instances have %r" % (what, g["name"], k, names, sorted(m)))
                for p in l:
                    got = {}
                    for b in p["bins"]:
                        if (b[1], b[0]) in got:
                            raise Fail("%s: bin %r listed twice in type %s %r" % (what, b[:2], k, p["name"]))
                        got[(b[1], b[0])] = b[2]
                    if got != m[p["name"]]:
                        raise Fail("%s: type %s %r has bins %r, instances sum to %r" % (what, k, p["name"], got, m[p["name"]]))
            first = {}
            for ci in g["cis"]:
                for p in ci["crs"]:
                    first.setdefault(p["name"], [o[0] for o in p["ops"]])
            for p in g["crs"]:
                for o in p["ops"]:
                    if not o[1]:
                        raise Fail("%s: type cross %r refers to a coverpoint of another scope" % (what, p["name"]))
                if [o[0] for o in p["ops"]] != first[p["name"]]:
                    raise Fail("%s: type cross %r crosses %r, its first occurrence %r" % (what, p["name"], [o[0] for o in p["ops"]], first[p["name"]]))

@prop("C09", XMLF)
class C09:
    @staticmethod
    def gen(g):
        return dict(db=g.db(hist=.2))
    @staticmethod
    def check(c):
        d = xml_norm(c["db"])
        db = T("building", build, d)
        back = T("reading result", real.dump, from_xml(to_xml(db)))
        need(diff(xml_expect(norm(d)), xml_actual(back)), "after XML round trip")
        # a covergroup without instances: the type itself has the content as well
        for i, j in zip(norm(d), back):
            for g, h in zip(i["cgs"], j["cgs"]):
                cps, crs = type_sums(g["cis"] or [g])
                gc, gr = type_sums([h])
                if cps != gc or crs != gr:
                    raise Fail("after XML round trip: type coverage of %r is %r, expected %r" % (g["name"], (gc, gr), (cps, crs)))
        need(diff(T("reading", real.dump, db), norm(d)), "database changed by writing it")

def nonempty(d):
    """the interchange schema requires an instance, a coverpoint per covergroup and a bin per coverpoint"""
    if not d["insts"]:
        d["insts"].append(dict(name="u", du="m", w=1, loc=None, duloc=None, cgs=[]))
    def fill(l):
        if not any(e["k"] == "cp" for e in l):
            l.insert(0, dict(k="cp", name="pp", w=1, loc=None, bins=[]))
            for e in l:
                if "ops" in e:
                    e["ops"] = [o + 1 for o in e["ops"]]
        for e in l:
            if e["k"] == "cp" and not e["bins"]:
                e["bins"].append(["b0", "bin", 0, 1])
            if "ch" in e:
                fill(e["ch"])
    for i in d["insts"]:
        for g in i["cgs"]:
            fill(g["ch"])
    return d

def gen_xml_doc(g):
    """a schema-valid document not produced by the writer"""
    r = g.r
    types = ["t0", "t1", g.name(["t0", "t2"])]
    insts = []
    for i in range(g.size(1, 2, 0.003)):
        covs = []
        for _ in range(g.size(0, 3, 0.003) if i < 9 else 1):
            cis = []
            for _ in range(g.size(0, 4, 0.02)):
                cps, s = [], set()
                many = g.r.choice(g.large or [1001]) if g.chance(.0006 if g.large else .0001) else 0
                for k in range(many or g.size(0, 3, 0.004)):
                    nm = g.name(["p0", "p1", "p2"]) if k < 8 else "p%d" % k
                    if nm in s and many:
                        nm = "P%d" % k
                    if nm in s:
                        continue
                    s.add(nm)
                    cps.append(dict(name=nm, bins=[dict(name=b[0], kind=r.choice(["bins", "default", "default", None]) if b[1] == "bin" else {"ign": "ignore", "ill": "illegal"}[b[1]], count=b[2], form=r.choice(["range", "sequence", "range2"])) for b in (g.bins(p_big=0.01) if k < 20 else [["b", "bin", k, 1]])]))
                crs = []
                for _ in range(g.size(0, 2)):
                    if cps:
                        crs.append(dict(name=g.name(["x0", "x1"]), ops=[r.choice(cps)["name"] for _ in range(g.size(1, 3, 0.015))], bins=[dict(name=b[0], kind=r.choice(["default", "default", None]) if b[1] == "bin" else {"ign": "ignore", "ill": "illegal"}[b[1]], count=b[2]) for b in g.bins(p_big=0.005)]))
                cis.append(dict(name=g.name(["i0", "i1"]), type=r.choice(types), cps=cps, crs=crs))
            if cis:
                covs.append(cis)
        insts.append(dict(name="u%d" % i, covs=covs))
    bad = None
    if g.chance(.2):
        bad = [r.randrange(100), r.randrange(100)]
    return dict(insts=insts, ns=g.chance(.4), bad=bad, noise=r.randrange(1, 1 << 20) if g.chance(.5) else None, enc=r.choice([None, None, "utf-8", "utf-8-sig", "utf-16", "iso-8859-1", "us-ascii"]), gz=g.chance(.2))

def render_xml(c):
    from xml.sax.saxutils import quoteattr as q, escape
    p = "ucis:" if c["ns"] else ""
    # parts of a document that do not concern functional coverage, comments and optional attributes
    rnd = random.Random(c.get("noise") or 0)
    some = (lambda pr=.3: rnd.random() < pr) if c.get("noise") else (lambda pr=.3: False)
    WORDS = ["a", "crossExpr", "x <!- y", "contents", "\u00fc", "c0", "b"]
    def junk():
        return rnd.choice(["<!-- %s -->" % rnd.choice(WORDS), "<?pi %s?>" % rnd.choice(WORDS), "<!---->"])
    def text(t):
        """the same text, interrupted by comments or written as a CDATA section"""
        if some(.4):
            k = rnd.randrange(len(t) + 1)
            return escape(t[:k]) + junk() + escape(t[k:])
        if some(.2) and t.isascii() and "]]>" not in t and "\r" not in t:
            return "<![CDATA[" + t + "]]>"
        return escape(t)
    def ua(n=2):
        return "".join('<%suserAttr key="k%d" type="str">contents%s</%suserAttr>' % (p, j, junk() if some() else "", p) for j in range(n) if some())
    def at(*l):
        return "".join(" " + a for a in l if some())
    def nv(tag):
        return "".join('<%s%s><%sname>crossExpr</%sname><%svalue>7</%svalue></%s%s>' % (p, tag, p, p, p, p, p, tag) for _ in range(2) if some())
    def cont(n):
        h = "".join("<%shistoryNodeId>%d</%shistoryNodeId>" % (p, j, p) for j in range(3) if some(.2))
        a = at('nameComponent="n"', 'typeComponent="t"')
        return '<%scontents%s coverageCount="%s%d%s"%s' % (p, a, rnd.choice(["00", "+", " ", "\t +0", "&#10;"]) if some(.15) else "-" if n == 0 and some(.05) else "", n, rnd.choice([" ", "\n", "&#9;"]) if some(.05) else "", ">%s</%scontents>" % (h, p) if h or some(.2) else "/>")
    def tbin():
        return '<%sbin>%s</%sbin>' % (p, cont(5), p)
    def other():
        ident = '<%sid file="1" line="2" inlineCount="3"/>' % p
        out = nv("designParameter"), '<%sid file="1" line="1" inlineCount="1"/>' % p
        out = "".join(out)
        if some():
            out += '<%stoggleCoverage><%stoggleObject name="c0" key="0">%s<%stoggleBit name="b0" key="1"><%stoggle from="0" to="1">%s</%stoggle></%stoggleBit></%stoggleObject></%stoggleCoverage>' % (p, p, ident, p, p, tbin(), p, p, p, p)
        if some():
            out += '<%sblockCoverage><%sstatement>%s%s</%sstatement></%sblockCoverage>' % (p, p, ident, tbin(), p, p)
        if some():
            out += '<%sbranchCoverage/><%sfsmCoverage/>' % (p, p)
        if some():
            out += '<%sassertionCoverage><%sassertion name="a" assertionKind="assert"><%scoverBin>%s</%scoverBin></%sassertion></%sassertionCoverage>' % (p, p, p, cont(9), p, p, p)
        return out
    def opts(*l):
        a = at('weight="3"', 'goal="50"', 'comment="x"', 'at_least="4"', *l)
        return "<%soptions%s/>" % (p, a)
    o = []
    o.append('<%sUCIS xmlns:ucis="http://www.w3.org/2001/XMLSchema-instance" writtenBy="u" writtenTime="2020-01-01T00:00:00" ucisVersion="1.0">' % p)
    o.append('<%ssourceFiles fileName="f" id="1"/>' % p)
    date = "2020-01-02T03:04:05"
    if some(.7):
        date = date + rnd.choice(["", ".5", ".123456", ".000000001"]) + rnd.choice(["", "Z", "+02:00", "-11:30", "+14:00"])
    o.append('<%shistoryNodes historyNodeId="0" logicalName="l" physicalName="p" kind="k" testStatus="true" date="%s" toolCategory="t" ucisVersion="1.0" vendorId="v" vendorTool="t" vendorToolVersion="1"%s' % (p, date, ">%s</%shistoryNodes>" % (ua(), p) if some() else "/>"))
    n = 0
    # the dangling operand: the bad[0]-th cross expression of the document, named like something else in it
    total = sum(len(cr["ops"]) for i in c["insts"] for cis in i["covs"] for ci in cis for cr in ci["crs"])
    isbad = c["bad"] is not None and total > 0
    others = sorted({x["name"] for i in c["insts"] for cis in i["covs"] for ci in cis for x in ci["cps"] + ci["crs"] + [ci]}) + ["no such coverpoint"]
    for i in c["insts"]:
        o.append('<%sinstanceCoverages name=%s key="0"%s>%s' % (p, q(i["name"]), at('alias="c0"', 'moduleName="m"', 'instanceId="4"', 'parentInstanceId="-1"'), other()))
        for cis in i["covs"]:
            o.append('<%scovergroupCoverage%s>' % (p, at('weight="%d"' % rnd.randrange(3), 'metricMode="m"')))
            for ci in cis:
                o.append('<%scgInstance name=%s key="0"%s>%s<%scgId cgName=%s moduleName="m"><%scginstSourceId file="1" line="1" inlineCount="1"/><%scgSourceId file="1" line="1" inlineCount="1"/></%scgId>%s' % (p, q(ci["name"]), at('alias="x"', 'excluded="false"', 'excludedReason="r"'), opts('per_instance="true"', 'merge_instances="true"', 'auto_bin_max="2"'), p, q(ci["type"]), p, p, p, nv("cgParms")))
                for cp in ci["cps"]:
                    o.append('<%scoverpoint name=%s key="0"%s>%s' % (p, q(cp["name"]), at('alias="p0"', 'exprString="e"'), opts('auto_bin_max="2"')))
                    for b in cp["bins"]:
                        t = "" if b["kind"] is None else ' type=%s' % q(b["kind"])
                        if b["kind"] is None:
                            t = ' type="default"'
                        o.append('<%scoverpointBin name=%s%s key="0">' % (p, q(b["name"]), t))
                        cnt = cont(b["count"])
                        if b["form"] == "sequence":
                            o.append('<%ssequence>%s%s</%ssequence>' % (p, cnt, "".join("<%sseqValue>%s</%sseqValue>" % (p, text(str(v)), p) for v in ([3, -1, 4] if some() else [3])), p))
                        else:
                            o.append('<%srange from="0" to="1">%s</%srange>' % (p, cnt, p))
                        o.append('%s</%scoverpointBin>' % (ua(), p))
                    o.append('%s</%scoverpoint>' % (ua(), p))
                for cr in ci["crs"]:
                    o.append('<%scross name=%s key="0"%s>%s' % (p, q(cr["name"]), at('alias="p0"'), opts()))
                    for op in cr["ops"]:
                        if isbad and n == c["bad"][0] % total:
                            have = {x["name"] for x in ci["cps"]}
                            cand = [x for x in others if x not in have and x.strip() not in have]
                            op = cand[c["bad"][1] % len(cand)]
                        n += 1
                        pad = " " if op.strip() == op and " " + op + " " not in [x["name"] for x in ci["cps"]] and (n % 3 or op == "") else ""
                        o.append('<%scrossExpr>%s%s%s</%scrossExpr>' % (p, pad, text(op), pad, p))
                    for b in cr["bins"]:
                        t = "" if b["kind"] is None else ' type=%s' % q(b["kind"])
                        o.append('<%scrossBin name=%s key="0"%s><%sindex>%s</%sindex>%s%s</%scrossBin>' % (p, q(b["name"]), t, p, text("0"), p, cont(b["count"]), ua(), p))
                    o.append('%s</%scross>' % (ua(), p))
                o.append('%s</%scgInstance>' % (ua(), p))
            o.append('%s</%scovergroupCoverage>' % (ua(), p))
        o.append('%s</%sinstanceCoverages>' % (ua(), p))
    o.append('</%sUCIS>' % p)
    out = [o[0]]
    for x in o[1:]:
        if some(.15):
            out.append(junk())
        out.append(x)
    return ("\n".join(out) if not some() else "".join(out)), isbad

def scratch(f):
    """f(directory) with a directory that is removed afterwards"""
    tmp = tempfile.mkdtemp(prefix="vp_")
    try:
        return f(tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def encode_xml(text, enc):
    """the document in another encoding"""
    decl = '<?xml version="1.0" encoding="%s"?>\n' % enc.replace("-sig", "")
    return (decl + text).encode(enc, "xmlcharrefreplace")

def xml_file(tmp, text, enc, gz):
    fn = os.path.join(tmp, "in.xml")
    data = encode_xml(text, enc)
    with (gzip.open if gz else open)(fn, "wb") as f:
        f.write(data)
    return fn

@prop("C10", XMLF)
class C10:
    @staticmethod
    def gen(g):
        return gen_xml_doc(g)
    @staticmethod
    def check(c):
        if not c["insts"]:
            c["insts"].append(dict(name="u", covs=[]))
        for i in c["insts"]:
            i["covs"] = [x for x in i["covs"] if x]
            for cis in i["covs"]:
                for ci in cis:
                    # shrinking may remove operands' coverpoints
                    if not ci["cps"]:
                        ci["cps"].append(dict(name="pp", bins=[]))
                    for p in ci["cps"]:
                        if not p["bins"]:
                            p["bins"].append(dict(name="b0", kind="bins", count=0, form="range"))
                    have = {p["name"] for p in ci["cps"]}
                    ci["crs"] = [x for x in ci["crs"] if x["ops"] and all(o in have for o in x["ops"])]
        text, bad = render_xml(c)
        from ucis.xml.xml_factory import XmlFactory
        def read():
            if c.get("enc"):
                def f(tmp):
                    if USED:
                        # another document was in the same file before
                        XmlFactory.read(xml_file(tmp, render_xml(json.loads(json.dumps(USED_XML)))[0], "utf-8", c.get("gz")))
                    return XmlFactory.read(xml_file(tmp, text, c["enc"], c.get("gz")))
                return scratch(f)
            return XmlFactory.read(io.StringIO(text))
        if bad:
            expect_raise("a cross over a missing coverpoint", read)
            return
        db = T("reading XML", reread, read)
        h = T("reading history", real.hist_dump, db)
        if len(h) != 1 or h[0]["Date"] != "20200102030405":
            raise Fail("history of the document read is %r" % (h,))
        got = T("reading result", real.dump, db)
        K = {"bins": "bin", "default": "bin", None: "bin", "ignore": "ign", "illegal": "ill"}
        exp = []
        for i in c["insts"]:
            cgs = []
            for cis in i["covs"]:
                by, order = {}, []
                for ci in cis:
                    if ci["type"] not in by:
                        by[ci["type"]] = []; order.append(ci["type"])
                    by[ci["type"]].append(dict(name=ci["name"],
                        cps=[dict(name=p["name"], bins=[[b["name"], K[b["kind"]], b["count"]] for b in p["bins"]]) for p in ci["cps"]],
                        crs=[dict(name=p["name"], ops=list(p["ops"]), bins=[[b["name"], K[b["kind"]], b["count"]] for b in p["bins"]]) for p in ci["crs"]]))
                for t in order:
                    cgs.append(dict(name=t, cis=by[t]))
            exp.append(dict(name=i["name"], cgs=cgs))
        need(diff(exp, xml_actual(got)), "instances read")
        check_types(got, "read")

@contextlib.contextmanager
def zone(tz):
    """with the local time of another place"""
    old = os.environ.get("TZ")
    try:
        if tz:
            os.environ["TZ"] = tz
            time.tzset()
        yield
    finally:
        if tz:
            if old is None:
                del os.environ["TZ"]
            else:
                os.environ["TZ"] = old
            time.tzset()
ZONES = [None, None, "UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "LHST-10:30LHDT-11,M10.1.0,M4.1.0", "NPT-5:45"]

@prop("C11", XMLF)
class C11:
    @staticmethod
    def gen(g):
        d = g.db(hist=.4)
        if g.chance(.01):
            # very many source files
            n = g.r.choice([i for i in g.small if i > 20] + g.large[:20] + [100, 257, 300, 1030])
            d = dict(insts=[dict(name="u", du="m", w=1, duloc=None, loc=None, cgs=[dict(name="g", w=1, loc=["f.sv", 1, 1], ch=[
                dict(k="cp", name="p%d" % i, w=1, loc=["f%d.sv" % i, 2, 3], bins=[["b", "bin", 1, 1]]) for i in range(n)])])], hist=[])
        return dict(db=d, weird=g.chance(.3), seed=g.r.randrange(1 << 30))
    @staticmethod
    def check(c):
        from lxml import etree
        from ucis.xml.xml_factory import XmlFactory
        from ucis.xml import validate_ucis_xml
        d = nonempty(xml_norm(c["db"]))
        db = T("building", build, d)
        text = to_xml(db)
        try:
            doc = etree.fromstring(text.encode())
        except etree.XMLSyntaxError as e:
            raise Fail("written text is not well formed: %s" % e)
        # independent validation against the schema file
        xsd = etree.XMLSchema(etree.parse(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src/ucis/xml/schema/ucis.xsd")))
        for e in doc.iter():
            if isinstance(e.tag, str) and "}" in e.tag:
                e.tag = e.tag[e.tag.find("}") + 1:]
        if not xsd.validate(doc):
            raise Fail("written document violates the schema: %s" % xsd.error_log.last_error)
        T("validating the written document", validate_ucis_xml, io.StringIO(text))
        back = T("reading the written document", XmlFactory.read, io.StringIO(text))
        files = {}
        ids = []
        for s in doc.iter("sourceFiles"):
            fn, i = s.get("fileName"), s.get("id")
            if fn in files:
                raise Fail("file %r twice in the source-file table" % fn)
            if i in ids:
                raise Fail("source-file id %s used twice" % i)
            files[fn] = i; ids.append(i)
        used = set()
        def loc(l):
            if l is not None and l[0] is not None:
                used.add(l[0])
        def walk(x):
            if isinstance(x, dict):
                for k, v in x.items():
                    if k in ("loc", "duloc"):
                        loc(v)
                    else:
                        walk(v)
            elif isinstance(x, list):
                for v in x:
                    walk(v)
        walk(d["insts"])
        for u in used:
            if u not in files:
                raise Fail("file %r of a scope is missing from the source-file table" % u)
        for e in doc.iter():
            for a in ("file",):
                if a in e.attrib and e.attrib[a] not in ids:
                    raise Fail("<%s> refers to file id %s which is not in the table" % (e.tag, e.attrib[a]))
        for extra in set(files) - used - {"__null__file__"}:
            raise Fail("file %r in the table belongs to no scope" % extra)
        if len(list(doc.iter("historyNodes"))) != max(1, len(d["hist"])):
            raise Fail("wrong number of history nodes")

@prop("C13", ["src/ucis/xml/xml_writer.py", "src/ucis/xml/xml_reader.py", "src/ucis/mem/mem_history_node.py", "src/ucis/history_node.py", "src/ucis/mem/mem_history_node_iterator.py", "src/ucis/test_data.py"])
class C13:
    @staticmethod
    def gen(g):
        return dict(hist=[g.hist() for _ in range(g.size(0, 4, 0.02))], td=g.chance(.3), dump=True, tz=g.r.choice(ZONES), doc=[C13.element(g) for _ in range(g.size(1, 4))] if g.chance(.4) else None)
    @staticmethod
    def check(c):
        with zone(c.get("tz")):
            C13.trip(c)
            if c.get("doc"):
                C13.document(c["doc"])
    # attribute, field, required, kind of value
    ATTRS = [("logicalName", "logical", 1, "s"), ("physicalName", "physical", 0, "s"), ("kind", "kind", 0, "s"), ("testStatus", "TestStatus", 1, "b"), ("simtime", "SimTime", 0, "f"), ("timeunit", "TimeUnit", 0, "s"), ("runCwd", "RunCwd", 0, "s"),
        ("cpuTime", "CpuTime", 0, "f"), ("seed", "Seed", 0, "s"), ("cmd", "Cmd", 0, "s"), ("args", "Args", 0, "s"), ("compulsory", "Compulsory", 0, "s"), ("date", "Date", 1, "d"), ("userName", "UserName", 0, "s"), ("cost", "Cost", 0, "c"),
        ("toolCategory", "ToolCategory", 1, "s"), ("vendorId", "VendorId", 1, "s"), ("vendorTool", "VendorTool", 1, "s"), ("vendorToolVersion", "VendorToolVersion", 1, "s"), ("sameTests", "SameTests", 0, "i"), ("comment", "Comment", 0, "s")]
    @staticmethod
    def element(g):
        """attributes of a history node, in any spelling the schema allows: [attribute, text, what it means]"""
        r, out = g.r, []
        for a, f, req, k in C13.ATTRS:
            if not req and g.chance(.35):
                continue
            if k == "b":
                x = r.choice(["true", "1", "false", "0"])
                t, v = x, x in ("true", "1")
            elif k == "f":
                t = r.choice(["0", "1.5", "1E3", "-2", "+7.25", ".5", "4.", "1e-9", "007", "123456789.125"])
                v = float(t)
            elif k == "c":
                t = r.choice(["0", "1.50", "+3", ".5", "4.", "007.10", "1000000000000000000000"])
                v = float(t)
            elif k == "i":
                t = r.choice(["0", "1", "+7", "007", "1000000"])
                v = float(t)
            elif k == "d":
                n = [r.choice([1000, 1969, 1970, 2024, 2038, 9999]), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)]
                t = "%04d-%02d-%02dT%02d:%02d:%02d" % tuple(n) + r.choice(["", "", ".5", ".123456789"]) + r.choice(["", "Z", "+02:00", "-11:30"])
                v = n
            else:
                t = v = g.text()
            if k not in "sd" and g.chance(.1):
                t = r.choice([" %s", "%s ", "  %s "]) % t
            out.append([a, t, v])
        if g.chance(.3):
            out.append(["parentId", str(r.randrange(3)), None])
        r.shuffle(out)
        return json.dumps(out)
    @staticmethod
    def document(els):
        els = [json.loads(e) for e in els]
        from xml.sax.saxutils import quoteattr
        from ucis.xml import validate_ucis_xml
        def q(t):
            return quoteattr(t, {"\n": "&#10;", "\t": "&#9;", "\r": "&#13;"})
        p = "ucis:"
        text = '<ucis:UCIS xmlns:ucis="http://www.w3.org/2001/XMLSchema-instance" writtenBy="u" writtenTime="2020-01-01T00:00:00" ucisVersion="1.0"><ucis:sourceFiles fileName="f" id="1"/>'
        for j, e in enumerate(els):
            text += '<ucis:historyNodes historyNodeId="%d" ucisVersion="1.0" %s/>' % (j, " ".join("%s=%s" % (a, q(t)) for a, t, v in e))
        text += '<ucis:instanceCoverages name="i" key="0"><ucis:id file="1" line="1" inlineCount="1"/></ucis:instanceCoverages></ucis:UCIS>'
        T("validating a document", validate_ucis_xml, io.StringIO(text))
        db = from_xml(text)
        got = real.hist_dump(db)
        if len(got) != len(els):
            raise Fail("a document with %d history nodes reads as %d" % (len(els), len(got)))
        from ucis.mem.mem_ucis import MemUCIS
        blank = MemUCIS()
        blank.createHistoryNode(None, "l", None, None)
        blank = real.hist_dump(blank)[0]
        for j, (e, h) in enumerate(zip(els, got)):
            d = {a: v for a, t, v in e}
            for a, f, req, k in C13.ATTRS:
                x = h[f]
                if a not in d:
                    if x != blank[f]:
                        raise Fail("history node %d has no %s, %s reads as %r" % (j, a, f, x))
                    continue
                v = d[a]
                if k == "b":
                    x = int(x) == 1
                elif k in "fci":
                    x = float(x)
                elif k == "d":
                    x = str(x)
                    v = "%04d%02d%02d%02d%02d%02d" % tuple(v)
                if x != v:
                    raise Fail("history node %d: attribute %s is %r, %s reads as %r" % (j, a, [t for b, t, w in e if b == a][0], f, h[f]))
    @staticmethod
    def trip(c):
        from ucis.mem.mem_ucis import MemUCIS
        from ucis.test_data import TestData
        db = MemUCIS()
        nodes = []
        for h in c["hist"]:
            if c["td"]:
                f = h["f"]
                n = db.createHistoryNode(None, h["logical"], h["physical"], h["kind"])
                td = TestData(f.get("TestStatus", 1), f.get("ToolCategory", "tc"), f.get("Date", "20200101000000"), f.get("SimTime", 1.0), f.get("TimeUnit", "ns"), f.get("RunCwd", "."), f.get("CpuTime", 2.0), f.get("Seed", "7"), f.get("Cmd", "c"), f.get("Args", "a"), f.get("Compulsory", "1"), f.get("UserName", "u"), f.get("Cost", 3))
                T("setTestData", n.setTestData, td)
                exp = dict(TestStatus=td.teststatus, ToolCategory=td.toolcategory, Date=td.date, SimTime=td.simtime, TimeUnit=td.timeunit, RunCwd=td.runcwd, CpuTime=td.cputime, Seed=td.seed, Cmd=td.cmd, Args=td.args, Compulsory=td.compulsory, UserName=td.user, Cost=td.cost)
                for k, v in exp.items():
                    if getattr(n, "get" + k)() != v:
                        raise Fail("setTestData: %s is %r, expected %r" % (k, getattr(n, "get" + k)(), v))
            else:
                nodes.append(T("building history", real.build_hist, db, h, nodes))
        before = real.hist_dump(db)
        if len(before) != len(c["hist"]):
            raise Fail("history nodes lost before writing")
        if not c["td"]:
            for h, b in zip(c["hist"], before):
                for k, v in h["f"].items():
                    if b[k] != v:
                        raise Fail("%s set to %r reads back %r" % (k, v, b[k]))
        back_db = from_xml(to_xml(db))
        after = real.hist_dump(back_db)
        if not c["hist"]:
            if len(after) != 1:
                raise Fail("database without history gets %d nodes" % len(after))
            return
        if len(after) != len(before):
            raise Fail("%d history nodes written, %d read" % (len(before), len(after)))
        for j, (b, a) in enumerate(zip(before, after)):
            for k in b:
                x, y = b[k], a[k]
                if k == "TestStatus":
                    x, y = (int(x) == 1), (int(y) == 1)
                elif k in ("SimTime", "CpuTime", "Cost", "SameTests"):
                    x, y = float(x), float(y)
                    x = -1.0 if x < 0 else x
                    y = -1.0 if y < 0 else y
                elif k == "kind":
                    x = None if x is None else str(x)
                    y = None if y is None else str(y)
                else:
                    x = None if x is None else str(x)
                if x != y:
                    raise Fail("history node %d: %s was %r, reads back %r" % (j, k, b[k], a[k]))

# ---------------------------------------------------------------- YAML
def yaml_text(doc, style):
    """the document in one of the ways YAML has of writing it"""
    import yaml
    plain = yaml.safe_dump(doc, allow_unicode=True, sort_keys=False)
    if not style:
        return plain
    r = random.Random(style)
    class Q(yaml.SafeDumper):
        def ignore_aliases(self, data):
            return True
        def increase_indent(self, flow=False, indentless=False):
            return yaml.SafeDumper.increase_indent(self, flow, r0 and indentless)
    r0 = r.random() < .5
    def text(dumper, v):
        k = r.choice([None, None, "'", '"', "|", ">"])
        return dumper.represent_scalar("tag:yaml.org,2002:str", v, style=k)
    Q.add_representer(str, text)
    k = r.randrange(5)
    try:
        if k == 0:
            t = json.dumps(doc, ensure_ascii=r.random() < .5, indent=r.choice([None, 1, 4]))
        else:
            t = yaml.dump(doc, Dumper=Q, allow_unicode=r.random() < .7, sort_keys=r.random() < .3, default_flow_style=r.choice([False, False, True, None]), width=r.choice([10, 40, 80, 10**6]), indent=r.choice([2, 3, 8]))
        if k == 2:      # a tab within a quoted text, or before a comment
            t = t.replace("\\t", "\t") if r.random() < .5 else t.replace(":\n", ":\t# a: {comment\n")
        elif k == 3:
            t = r.choice(["# comment\n", "---\n", "%YAML 1.1\n---\n", "\n\n", "--- # x: y\n"]) + t + r.choice(["", "\n", "...\n", "# end\n", "\n---\n" * 0])
        elif k == 4:
            t = t.replace("\n", "\r\n") if r.random() < .5 else t.rstrip("\n")
        return t if yaml.safe_load(t) == doc else plain
    except (yaml.YAMLError, TypeError):
        return plain

@prop("C12", ["src/ucis/yaml/yaml_reader.py"])
class C12:
    @staticmethod
    def gen(g):
        r = g.r
        def bl():
            out, s = [], set()
            for b in g.bins(p_big=0.005):
                nm = b[0]
                if nm in s and not g.chance(.1):
                    continue
                s.add(nm)
                out.append(dict(name=nm, count=b[2]))
            return out
        cgs = []
        for _ in range(g.size(0, 3, 0.003)):
            cg = dict(name=g.name(["g0", "g1"]))
            if g.chance(.6):
                cg["weight"] = g.weight()
            if not g.chance(.08):
                cg["instances"] = []
                for _ in range(g.size(0, 3, 0.01)):
                    ci = dict(name=g.name(["i0", "i1"]))
                    names = []
                    if not g.chance(.1):
                        ci["coverpoints"] = []
                        for k in range(g.size(0, 3, 0.005)):
                            nm = g.name(["p0", "p1", "p2"]) if k < 6 else "p%d" % k
                            if nm in names:
                                continue
                            names.append(nm)
                            cp = dict(name=nm, bins=bl())
                            if g.chance(.5):
                                cp["atleast"] = g.atl()
                            if g.chance(.4):
                                cp["ignorebins"] = bl()
                            if g.chance(.4):
                                cp["illegalbins"] = bl()
                            ci["coverpoints"].append(cp)
                    if g.chance(.6) and names:
                        ci["crosses"] = []
                        for _ in range(g.size(0, 2, 0.004)):
                            cr = dict(name=g.name(["x0", "x1"]), coverpoints=[r.choice(names) for _ in range(r.choice([0, 1, 2, 2]) if not g.chance(.01) else g.size(3, 9, .4))])
                            if g.chance(.75):
                                cr["bins"] = bl()
                            if g.chance(.4):
                                cr["atleast"] = g.atl()
                            ci["crosses"].append(cr)
                    cg["instances"].append(ci)
            cgs.append(cg)
        bad = r.choice(["op", "noname", "count", "bins", "type", "other_inst"]) if g.chance(.15) else None
        doc = dict(coverage=dict(covergroups=cgs)) if not g.chance(.03) else r.choice([dict(coverage={}), {}])
        return dict(doc=doc, bad=bad, extra=r.randrange(1, 1 << 20) if g.chance(.3) else None, enc=r.choice([None, None, None, "utf-8", "utf-16", "utf-8-sig"]), style=r.randrange(1, 1 << 20) if g.chance(.5) else None)
    @staticmethod
    def check(c):
        import yaml
        from ucis.yaml.yaml_reader import YamlReader
        import datetime
        doc = json.loads(json.dumps(c["doc"]))
        cgs = doc.get("coverage", {}).get("covergroups", [])
        for g in cgs:
            for i in g.get("instances", []):
                have = {p["name"] for p in i.get("coverpoints", [])}
                for x in i.get("crosses", []):
                    x["coverpoints"] = [o for o in x["coverpoints"] if o in have]
        if c["bad"]:
            insts = [(g, i) for g in cgs for i in g.get("instances", [])]
            if not insts:
                return
            g, i = insts[0]
            if c["bad"] == "op":
                i.setdefault("crosses", []).append(dict(name="bad", coverpoints=["no such coverpoint"]))
            elif c["bad"] == "other_inst":
                g["instances"].insert(0, dict(name="z0", coverpoints=[dict(name="only here", bins=[])]))
                g["instances"].append(dict(name="z1", crosses=[dict(name="bad", coverpoints=["only here"])]))
            elif c["bad"] == "noname":
                del i["name"]
            elif c["bad"] == "count":
                i.setdefault("coverpoints", []).append(dict(name="q", bins=[dict(name="b", count="many")]))
            elif c["bad"] == "bins":
                i.setdefault("coverpoints", []).append(dict(name="q"))
            elif c["bad"] == "type":
                g["instances"] = "none"
            with quiet():
                expect_raise("invalid YAML document (%s)" % c["bad"], lambda: instance(YamlReader).loads(yaml.safe_dump(doc)))
            return
        if c.get("extra"):
            # properties the schema does not name
            rnd = random.Random(c["extra"])
            def deco(x):
                if isinstance(x, list):
                    for y in x:
                        deco(y)
                elif isinstance(x, dict):
                    for y in list(x.values()):
                        deco(y)
                    if rnd.random() < .25:
                        x[rnd.choice(["comment", "x-date", "count2", "file"])] = rnd.choice([datetime.date(2020, 1, 2), datetime.datetime(2020, 1, 2, 3, 4, 5), b"\x00\xff", 1.5, None, True, "text", [1, 2]])
            for g in cgs:
                deco(g)
            doc["tool"] = rnd.choice([datetime.date(2021, 5, 6), "t", {"a": [datetime.date(2021, 5, 6)]}])
        text = yaml_text(doc, c.get("style"))
        assert yaml.safe_load(text) == doc
        if c.get("enc"):
            # any encoding of YAML files, recognised by the parser
            from ucis.yaml.db_format_if_yaml import DbFormatIfYaml
            def read(tmp):
                fn = os.path.join(tmp, "in.yaml")
                for t in ([USED_YAML] if USED else []) + [text]:
                    with open(fn, "wb") as f:
                        f.write(t.encode(c["enc"]))
                    if t is not text:
                        DbFormatIfYaml().read(fn)
                return DbFormatIfYaml().read(fn)
            with quiet():
                db = T("reading a YAML file", scratch, read)
        else:
            with quiet():
                rd = instance(YamlReader)
                db = T("reading YAML", reread, lambda: rd.loads(text))
        got = T("reading result", real.dump, db)
        if len(got) != 1:
            raise Fail("expected one instance scope, got %d" % len(got))
        got = got[0]["cgs"]
        def kb(cp):
            a = cp.get("atleast", 1)
            return dict(bin=[[b["name"], b["count"], a] for b in cp.get("bins", [])], ign=[[b["name"], b["count"], a] for b in cp.get("ignorebins", [])], ill=[[b["name"], b["count"], a] for b in cp.get("illegalbins", [])])
        def act(e):
            r = dict(bin=[], ign=[], ill=[])
            for b in e["bins"]:
                r.setdefault(b[1], []).append([b[0], b[2], b[3]])
            return r
        exp = [dict(name=g["name"], w=g.get("weight", 1), cis=[dict(name=i["name"],
                  cps=[dict(name=p["name"], bins=kb(p)) for p in i.get("coverpoints", [])],
                  crs=[dict(name=p["name"], ops=p["coverpoints"], bins=kb(p)) for p in i.get("crosses", [])]) for i in g.get("instances", [])]) for g in cgs]
        act_ = [dict(name=g["name"], w=g["w"], cis=[dict(name=i["name"],
                  cps=[dict(name=p["name"], bins=act(p)) for p in i["cps"]],
                  crs=[dict(name=p["name"], ops=[o[0] if o[1] else "FOREIGN " + o[0] for o in p["ops"]], bins=act(p)) for p in i["crs"]]) for i in g["cis"]]) for g in got]
        need(diff(exp, act_), "YAML instances")
        check_types([dict(cgs=got)], "YAML")
        # thresholds and order of the type level
        for g, h in zip(cgs, got):
            for key, l in (("coverpoints", h["cps"]), ("crosses", h["crs"])):
                order, atl = [], {}
                for i in g.get("instances", []):
                    for p in i.get(key, []):
                        if p["name"] not in order:
                            order.append(p["name"])
                        if "atleast" in p:
                            atl[p["name"]] = max(atl.get(p["name"], p["atleast"]), p["atleast"])
                if order != [p["name"] for p in l]:
                    raise Fail("type %s order: expected %r, got %r" % (key, order, [p["name"] for p in l]))
                for p in l:
                    for b in p["bins"]:
                        if b[3] != atl.get(p["name"], 1):
                            raise Fail("threshold of type bin %r/%r: expected %r, got %r" % (p["name"], b[0], atl.get(p["name"], 1), b[3]))

@contextlib.contextmanager
def quiet():
    o, e = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
        yield o

# ---------------------------------------------------------------- rendered reports
class Cursor:
    def __init__(self, text):
        self.t, self.p = text, 0
    def lit(self, s):
        if not self.t.startswith(s, self.p):
            raise Fail("text report: expected %r, found %r" % (s, self.t[self.p:self.p + max(60, len(s))]))
        self.p += len(s)
    def num(self, v, tol, what):
        m = re.compile(r"-?[0-9]+(\.[0-9]+)?").match(self.t, self.p)
        if not m:
            raise Fail("text report: expected a number for %s, found %r" % (what, self.t[self.p:self.p + 40]))
        if abs(float(m.group()) - v) > tol:
            raise Fail("text report: coverage of %s is %s, computed %r" % (what, m.group(), v))
        self.p = m.end()
    def end(self):
        if self.p != len(self.t):
            raise Fail("text report: unexpected %r" % self.t[self.p:self.p + 80])

def walk_text(cur, rep, details, order, tol):
    def bins(l, ind):
        if order:
            l = [b for b in l if b[3]] + [b for b in l if not b[3]]
        for b in l:
            cur.lit("%s%s : %d\n" % (ind, b[0], b[1]))
    def item(tag, c, ind):
        cur.lit("%s%s %s : " % (ind, tag, c["name"]))
        cur.num(c["cov"], tol, "%s %r" % (tag, c["name"]))
        cur.lit("%\n")
        if details:
            cur.lit(ind + "Bins:\n")
            bins(c["bin"], ind + "    ")
            for k, h in (("ign", "IgnoreBins:"), ("ill", "IllegalBins:")):
                if c.get(k):
                    cur.lit(ind + h + "\n")
                    bins(c[k], ind + "    ")
    def cg(g, ind, inst):
        cur.lit("%s%s %s : " % (ind, "INST" if inst else "TYPE", g["name"]))
        cur.num(g["cov"], tol, "covergroup %r" % g["name"])
        cur.lit("%\n")
        for c in g["cps"]:
            item("CVP", c, ind + "    ")
        for c in g["crs"]:
            item("CROSS", c, ind + "    ")
        for c in g["cgs"]:
            cg(c, ind + "    ", True)
    for g in rep["cgs"]:
        cg(g, "", False)
    cur.end()

TEXTF = ["src/ucis/report/format_rpt_text.py", "src/ucis/report/text_coverage_report_formatter.py"]
@prop("C14", TEXTF)
class C14:
    @staticmethod
    def gen(g):
        return dict(db=g.db(depth=2 if g.chance(.2) else 1), details=g.chance(.7), order=g.chance(.5), rnd=g.r.choice([0, 1, 2, 2, 3, 5]))
    @staticmethod
    def check(c):
        from ucis.report.format_rpt_text import FormatRptText
        from ucis.report.text_coverage_report_formatter import TextCoverageReportFormatter
        db = T("building", build, c["db"])
        rep = get_report(db)
        exp = T("reading the report", rep_dump, rep)
        f = instance(FormatRptText)
        f.details, f.order_bins_by_hit = c["details"], c["order"]
        for _ in range(2):
            out = io.StringIO()
            T("text report", f.report, db, out, [])
            walk_text(Cursor(out.getvalue()), exp, c["details"], c["order"], 0.005 + 1e-6)
        out = io.StringIO()
        t = TextCoverageReportFormatter(rep, out)
        t.details, t.order_bins_by_hit, t.round = c["details"], c["order"], c["rnd"]
        n = 0
        for _ in range(2):
            T("text formatter", t.report)
            walk_text(Cursor(out.getvalue()[n:]), exp, c["details"], c["order"], 0.5 * 10 ** -c["rnd"] + 1e-6)
            n = len(out.getvalue())
        need(diff(exp, rep_dump(rep)), "report changed by formatting")

@prop("C15", ["src/ucis/report/format_rpt_json.py"])
class C15:
    @staticmethod
    def gen(g):
        return dict(db=g.db())
    @staticmethod
    def check(c):
        import jsonschema
        from ucis.report.format_rpt_json import FormatRptJson
        db = T("building", build, c["db"])
        exp = T("reading the report", rep_dump, get_report(db))
        out = io.StringIO()
        with quiet():
            T("JSON report", instance(FormatRptJson).report, db, out, [])
        try:
            j = json.loads(out.getvalue())
        except ValueError as e:
            raise Fail("not valid JSON: %s" % e)
        schema = json.load(open(os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src/ucis/schema/covreport.json")))
        try:
            jsonschema.validate(dict(covreport=j), schema)
        except jsonschema.ValidationError as e:
            raise Fail("violates the report schema: %s" % e.message)
        def bins(l):
            return [[b["name"], b["count"]] for b in (l or [])]
        def item(x, cross=False):
            r = dict(name=x.get("name"), cov=float(x.get("coverage", -1)), bin=bins(x.get("bins")))
            if not cross:
                r.update(ign=bins(x.get("ignorebins")), ill=bins(x.get("illegalbins")))
            return r
        def cg(x):
            return dict(name=x.get("name"), cov=float(x.get("coverage", -1)), cps=[item(y) for y in x.get("coverpoints") or []], crs=[item(y, True) for y in x.get("crosses") or []], cgs=[cg(y) for y in x.get("covergroups") or []])
        got = dict(cov=float(j.get("coverage", -1)), cgs=[cg(x) for x in j.get("covergroups") or []])
        def eb(l):
            return [[b[0], b[1]] for b in l]
        def ei(x):
            r = dict(name=x["name"], cov=x["cov"], bin=eb(x["bin"]))
            if "ign" in x:
                r.update(ign=eb(x["ign"]), ill=eb(x["ill"]))
            return r
        def ec(x):
            return dict(name=x["name"], cov=x["cov"], cps=[ei(y) for y in x["cps"]], crs=[ei(y) for y in x["crs"]], cgs=[ec(y) for y in x["cgs"]])
        need(diff(dict(cov=exp["cov"], cgs=[ec(x) for x in exp["cgs"]]), got), "JSON report")

# ---------------------------------------------------------------- command line
@prop("C16", ["src/ucis/cmd/cmd_merge.py", "src/ucis/cmd/cmd_convert.py", "src/ucis/cmd/cmd_report.py", "src/ucis/__main__.py", "src/ucis/rgy/format_rgy.py", "src/ucis/xml/xml_factory.py", "src/ucis/xml/xml_ucis.py", "src/ucis/xml/__init__.py", "src/ucis/xml/db_format_if_xml.py", "src/ucis/yaml/db_format_if_yaml.py"])
class C16:
    weight = 6
    @staticmethod
    def gen(g):
        r = g.r
        ins = []
        cmd = r.choice(["merge", "merge", "convert", "report", "report", "list"])
        fmt = r.choice(["xml", "xml", "yaml"])
        n = g.size(1, 4) if cmd == "merge" else 1
        for i in range(n):
            if fmt == "xml":
                d = xml_norm(g.db(p_big=0))
                if ins and g.chance(.6):
                    d = json.loads(json.dumps(ins[0]["db"]))
                    mutate_db(g, d)
                    d = xml_norm(d)
                ins.append(dict(db=d, gz=g.chance(.3), enc=r.choice([None, None, "utf-8", "utf-16", "iso-8859-1"])))
            else:
                ins.append(dict(y=C12.gen(g)["doc"], enc=r.choice([None, None, "utf-16"])))
        bad = r.choice(["missing", "trunc", "schema", "fmt", "ofmt", "oyaml", "empty", "garbage"]) if g.chance(.25) else None
        return dict(cmd=cmd, fmt=fmt, ins=ins, bad=bad, badi=r.randrange(8), out=g.chance(.6), ofmt=r.choice([None, "txt", "json"]), explicit=g.chance(.5), sub=g.chance(.05), stale=r.choice([0, 0, 1, 2]), dirs=[r.choice(["", "", "sub", "sub/b", "@d", ".h", "~"]) for _ in range(n)], names=[r.choice(["in%d.xml", "in%d.yml", "in%d.xml", "in%d.yaml", "in%d", "in%d.xml.gz", "in[%d].xml", "in%d*", "$HOME%d.x", "in %d", "~in%d", "IN%d.XML", "in%d.json", "in%d,x", "in%d:y=z", "in%d ", " in%d.xml", "in%d.xml "]) for _ in range(n)], outn=r.choice(["result.out", "$HOME.xml", "~/r.xml", "r[0].xml", "r%d", "r.xml.gz", "r.yml", "result.json", "result.txt", "result.xml", "result.yaml", "res ult", "sub/r.xml"]), place=g.chance(.1), rel=g.chance(.25), dup=[r.randrange(1 << 16) for _ in range(g.size(1, 3, .08))] if g.chance(.3) else [])
    @staticmethod
    def check(c):
        tmp = tempfile.mkdtemp(prefix="c16_")
        home = os.environ.get("HOME")
        try:
            os.environ["HOME"] = os.path.join(tmp, "home")
            C16.run(c, tmp)
        finally:
            if home is None:
                os.environ.pop("HOME", None)
            else:
                os.environ["HOME"] = home
            shutil.rmtree(tmp, ignore_errors=True)
    @staticmethod
    def call(argv, sub=False, plain=False, cwd=None):
        if cwd:
            old = os.getcwd()
            os.chdir(cwd)
            try:
                return C16.call(argv, sub, plain)
            finally:
                os.chdir(old)
        if sub:
            import subprocess
            # plain: in a locale that knows ASCII only
            env = dict(os.environ, **(dict(LC_ALL="C", PYTHONUTF8="0", PYTHONCOERCECLOCALE="0") if plain else {}))
            p = subprocess.run([sys.executable, "-m", "ucis"] + argv, capture_output=True, text=True, env=env)
            return p.returncode, p.stdout + p.stderr, p.stdout
        import ucis.__main__ as m
        old = sys.argv
        sys.argv = ["ucis"] + argv
        o, e = io.StringIO(), io.StringIO()
        try:
            with contextlib.redirect_stdout(o), contextlib.redirect_stderr(e):
                try:
                    r = m.main()
                    rc = 0 if r is None else int(r)
                except SystemExit as x:
                    rc = x.code if isinstance(x.code, int) else (0 if x.code is None else 1)
                except Exception:
                    import traceback
                    traceback.print_exc()
                    rc = 1
        finally:
            sys.argv = old
        return rc, o.getvalue() + e.getvalue(), o.getvalue()
    @staticmethod
    def run(c, tmp):
        import yaml
        from ucis.xml.xml_factory import XmlFactory
        from ucis.xml.xml_reader import XmlReader
        from ucis.yaml.yaml_reader import YamlReader
        if c["cmd"] == "list":
            for what, names in (("list-db-formats", ["libucis", "xml", "yaml"]), ("list-rpt-formats", ["json", "txt"])):
                rc, t, o = C16.call([what])
                got = [l.split(" - ")[0].strip() for l in o.splitlines() if " - " in l]
                if rc != 0 or got != names:
                    raise Fail("%s: exit %r, lists %r" % (what, rc, got))
            return
        ins = [i for i in c["ins"]]
        if not ins:
            return
        paths, texts = [], []
        for j, i in enumerate(ins):
            sd = (c.get("dirs") or [""])[j % len(c.get("dirs") or [""])]
            os.makedirs(os.path.join(tmp, sd), exist_ok=True)
            if "db" in i:
                t = to_xml(T("building", build, nonempty(i["db"])))
                p = os.path.join(tmp, sd, (c.get("names") or ["in%d.xml"])[j % len(c.get("names") or [0])] % j)
                if i.get("enc"):
                    with (gzip.open if i["gz"] else open)(p, "wb") as f:
                        f.write(encode_xml(t, i["enc"]))
                elif i["gz"]:
                    with gzip.open(p, "wt", encoding="utf-8") as f:
                        f.write(t)
                else:
                    with open(p, "w", encoding="utf-8") as f:
                        f.write(t)
            else:
                doc = json.loads(json.dumps(i["y"]))
                for g in doc.get("coverage", {}).get("covergroups", []):
                    for ci in g.get("instances", []):
                        have = {q["name"] for q in ci.get("coverpoints", [])}
                        for x in ci.get("crosses", []):
                            x["coverpoints"] = [o for o in x["coverpoints"] if o in have]
                t = yaml.safe_dump(doc, sort_keys=False)
                p = os.path.join(tmp, sd, (c.get("names") or ["in%d.yml"])[j % len(c.get("names") or [0])] % j)
                with open(p, "wb") as f:
                    f.write(t.encode(i.get("enc") or "utf-8"))
            paths.append(p); texts.append(t)
        # files of similar names that are not asked for
        for j, p in enumerate(paths):
            if "[" in p or "*" in p:
                for q in (p.replace("[", "").replace("]", "").replace("*", ""), p.replace("*", "other")):
                    if q not in paths:
                        with open(q, "w") as f:
                            f.write(texts[(j + 1) % len(texts)])
        bad = c["bad"]
        infmt = ["--input-format", c["fmt"]] if (c["fmt"] != "xml" or c["explicit"]) else []
        outp = os.path.join(tmp, c.get("outn") or "result.out")
        os.makedirs(os.path.dirname(outp), exist_ok=True)
        if c["cmd"] == "report":
            of = ["--output-format", c["ofmt"]] if c["ofmt"] else []
        else:
            of = ["--output-format", "xml"] if c["explicit"] else []
        if bad:
            k = c["badi"] % len(paths)
            if bad == "missing":
                os.unlink(paths[k])
            elif bad == "trunc":
                with open(paths[k], "w") as f:
                    f.write(texts[k][:len(texts[k]) // 2] if c["fmt"] == "xml" else "coverage: [1,\n")
            elif bad == "empty":
                open(paths[k], "w").close()
            elif bad == "garbage":
                with open(paths[k], "w") as f:
                    f.write("this: is\nnot: {coverage\n")
            elif bad == "schema":
                with open(paths[k], "w") as f:
                    f.write(texts[k].replace("<UCIS", "<UCIX", 1).replace("</UCIS", "</UCIX", 1) if c["fmt"] == "xml" else "coverage:\n  covergroups:\n  - weight: 1\n")
            elif bad == "fmt":
                infmt = ["--input-format", ["nosuch", c["fmt"].upper(), c["fmt"] + " ", c["fmt"][:-1], "txt", "", "." + c["fmt"], c["fmt"].capitalize()][c["badi"]]]
            elif bad == "ofmt":
                of = ["--output-format", (["nosuch", "TXT", "Json", "text", "html", "", "json ", "yaml"] if c["cmd"] == "report" else ["nosuch", "XML", "Xml", "xm", "xml ", "", " xml", "txt"])[c["badi"]]]
            elif bad == "oyaml":
                if c["cmd"] == "report":
                    of = ["--output-format", "xml"]
                else:
                    of = ["--output-format", "yaml"]
        if c["cmd"] == "merge":
            for d in c.get("dup", []):  # the same file named again, somewhere later or earlier
                k = d % len(paths)
                at = (d >> 5) % (len(paths) + 1)
                paths.insert(at, paths[k]); texts.insert(at, texts[k])
        use_out = c["cmd"] != "report" or c["out"]
        # the result may replace one of the inputs
        place = use_out and c.get("place") and not bad
        if place:
            outp = paths[c["badi"] % len(paths)]
        cwd = tmp if c.get("rel") else None
        def arg(p):
            return os.path.relpath(p, tmp) if cwd else p
        argv = [c["cmd"]] + infmt + of + (["-o", arg(outp)] if use_out else []) + [arg(p) for p in paths]
        plain = c["cmd"] in ("merge", "convert") and c["fmt"] == "xml" and not bad
        if use_out and c.get("stale") and not bad and not place:
            n = 100000
            if c["stale"] == 2 and not c["sub"]:
                # a stale file of just the size of the result
                C16.call(argv, False, plain, cwd)
                n = os.path.getsize(outp) if os.path.exists(outp) else 0
            with open(outp, "w") as f:
                f.write("x" * n)
        rc, text, stdout = C16.call(argv, c["sub"], plain, cwd)
        if bad:
            if rc == 0:
                raise Fail("%s with %s input/format succeeded (exit 0)" % (c["cmd"], bad))
            if not text.strip():
                raise Fail("%s with %s input/format fails without a message" % (c["cmd"], bad))
            if use_out and outp not in paths and os.path.exists(outp) and os.path.getsize(outp) > 0:
                raise Fail("%s with %s input/format fails and yet leaves a result" % (c["cmd"], bad))
            return
        if rc != 0:
            raise Fail("%s failed (exit %r): %s" % (c["cmd"], rc, text[-400:]))
        def load(j):
            if c["fmt"] == "xml":
                return T("reading XML", instance(XmlReader).loads, texts[j])
            with quiet():
                return T("reading YAML", instance(YamlReader).loads, texts[j])
        dbs = [load(j) for j in range(len(paths))]
        if c["cmd"] in ("merge", "convert"):
            ref = do_merge(dbs)
            exp = T("reading", real.dump, from_xml(to_xml(ref)))
            try:
                got = T("reading", real.dump, from_xml(open(outp, encoding="utf-8").read()))
            except Fail:
                raise
            except Exception as e:
                raise Fail("output of %s cannot be read: %s" % (c["cmd"], e))
            need(diff(exp, got), "output of %s" % c["cmd"])
            # independent of the library merge
            e2 = {}
            for d in dbs:
                n = real.dump(d)
                for i in n:
                    for g in i["cgs"]:
                        for key, l in (("ci", g["cis"] or [g]),):
                            pass
            return
        got = open(outp).read() if use_out else stdout
        from ucis.report.format_rpt_text import FormatRptText
        from ucis.report.format_rpt_json import FormatRptJson
        o = io.StringIO()
        with quiet():
            T("report", (FormatRptJson if c["ofmt"] == "json" else FormatRptText)().report, dbs[0], o, [])
        if c["fmt"] == "yaml" and not use_out:
            if not got.endswith(o.getvalue()):
                raise Fail("report command output differs from the library report")
        elif got != o.getvalue():
            raise Fail("report command output differs from the library report: %r vs %r" % (got[:200], o.getvalue()[:200]))

# ---------------------------------------------------------------- properties
PROPF = ["src/ucis/scope.py", "src/ucis/cvg_scope.py", "src/ucis/covergroup.py", "src/ucis/mem/mem_scope.py", "src/ucis/mem/mem_cvg_scope.py", "src/ucis/mem/mem_covergroup.py", "src/ucis/mem/mem_history_node.py", "src/ucis/obj.py", "src/ucis/int_property.py"]
BINS17 = [["b0", "bin", 3, 2], ["b1", "ign", 0, 1], ["b0", "ill", 7, 1], ["b2", "bin", 0, 9]]
@prop("C17", PROPF)
class C17:
    @staticmethod
    def gen(g):
        r = g.r
        return dict(ops=[[r.randrange(1 << 20), r.randrange(1 << 20), g.r.choice([g.count(), 0, 1, 2, 3])] for _ in range(g.size(1, 30))], s=g.text())
    @staticmethod
    def dispatch(c):
        """the abstract classes hand a property to its accessor pair, whatever stores it"""
        from ucis.int_property import IntProperty as I
        from ucis.str_property import StrProperty as SP
        from ucis.covergroup import Covergroup
        from ucis.du_scope import DUScope
        from ucis.instance_scope import InstanceScope
        def cls(base, names):
            d = {}
            for n in names:
                d["get" + n] = lambda self, n=n: self.__dict__.get(n)
                d["set" + n] = lambda self, v, n=n: self.__dict__.__setitem__(n, v)
            return type("My" + base.__name__, (base,), d)
        CG = ["Weight", "Goal", "AtLeast", "AutoBinMax", "DetectOverlap", "Strobe", "Comment", "PerInstance", "GetInstCoverage", "MergeInstances"]
        ints = [(I.SCOPE_GOAL, "Goal", 0), (I.CVG_ATLEAST, "AtLeast", 0), (I.CVG_AUTOBINMAX, "AutoBinMax", 0), (I.CVG_DETECTOVERLAP, "DetectOverlap", 1), (I.CVG_STROBE, "Strobe", 0), (I.CVG_PERINSTANCE, "PerInstance", 1), (I.CVG_MERGEINSTANCES, "MergeInstances", 1)]
        for base, names, ip, sp in ((Covergroup, CG, ints, [(SP.COMMENT, "Comment")]), (DUScope, ["Goal", "Signature"], ints[:1], [(SP.DU_SIGNATURE, "Signature")])):
            K = cls(base, names)
            a, b = T("constructing a %s" % base.__name__, K), T("constructing a %s" % base.__name__, K)
            for k, (x, y, v) in enumerate(c["ops"][:6]):
                o = (a, b)[x % 2]
                was = (dict(a.__dict__), dict(b.__dict__))
                if y % 4 == 0:
                    p, n = sp[0]
                    v = c["s"] + str(v)
                    T("setStringProperty(%s)" % p.name, o.setStringProperty, -1, p, v)
                    r = T("getStringProperty(%s)" % p.name, o.getStringProperty, -1, p)
                else:
                    p, n, flag = ip[y % len(ip)]
                    if flag:
                        v = v % 2
                    T("setIntProperty(%s)" % p.name, o.setIntProperty, -1, p, v)
                    r = T("getIntProperty(%s)" % p.name, o.getIntProperty, -1, p)
                if r != v:
                    raise Fail("%s of a %s: %r was set, %r is read" % (p.name, base.__name__, v, r))
                was[x % 2][n] = v
                if (dict(a.__dict__), dict(b.__dict__)) != was:
                    raise Fail("setting %s of a %s leaves the accessors at %r, expected %r" % (p.name, base.__name__, o.__dict__, was[x % 2]))
    @staticmethod
    def check(c):
        from ucis.int_property import IntProperty as I
        from ucis.str_property import StrProperty as SP
        from ucis.mem.mem_ucis import MemUCIS
        from ucis.test_status_t import TestStatusT
        objs = []
        B = BINS17
        for k in range(2):
            db = real.build(dict(insts=[dict(name="u", du="m", w=1, loc=None, cgs=[dict(name="g", w=2, loc=None, ch=[dict(k="cp", name="p", w=3, loc=None, bins=B[:2]), dict(k="cr", name="x", w=4, loc=None, ops=[0], bins=B[1:]), dict(k="ci", name="i", w=5, loc=None, ch=[dict(k="cp", name="p", w=6, loc=None, bins=B[2:])])])])]))
            inst = [s for s in db.scopes(0x10)][0]
            du = inst.getInstanceDu()
            cg = [s for s in inst.scopes(0x1000)][0]
            cp = [s for s in cg.scopes(0x4000)][0]
            cr = [s for s in cg.scopes(0x8000)][0]
            ci = [s for s in cg.scopes(0x2000)][0]
            cp2 = [s for s in ci.scopes(0x4000)][0]
            h = db.createHistoryNode(None, "l", "p", "k")
            for j in range(2):
                inst.createNextCover("s%d" % j, None, None)
            objs += [("inst", inst), ("scope", du), ("cg", cg), ("cp", cp), ("cp", cr), ("cg", ci), ("cp", cp2), ("hist", h), ("scope", db)]
            from ucis.mem.mem_du_scope import MemDUScope
            d = T("constructing a MemDUScope", MemDUScope, db, "d%d" % k, None, 1, 0, 1 << 24, 0)
            T("setSignature", d.setSignature, "sig")
            objs += [("du", d), ("du", T("createScope of a MemDUScope", d.createScope, "e%d" % k, None, 1, 0, 1 << 24, 0))]
            T("setSignature", objs[-1][1].setSignature, "sig")
            if [s.getScopeName() for s in d.scopes(-1)] != ["e%d" % k]:
                raise Fail("a scope created in a MemDUScope is not its child")
        # COVER_GOAL of a scope is the same datum as SCOPE_GOAL
        SC = [(I.SCOPE_WEIGHT, "Weight", int), (I.SCOPE_GOAL, "Goal", int), (I.SCOPE_SOURCE_TYPE, None, int), (I.COVER_GOAL, "Goal", int)]
        CV = SC + [(I.CVG_ATLEAST, "AtLeast", int), (I.CVG_AUTOBINMAX, "AutoBinMax", int), (I.CVG_DETECTOVERLAP, "DetectOverlap", bool), (I.CVG_STROBE, "Strobe", int)]
        CG = CV + [(I.CVG_PERINSTANCE, "PerInstance", bool), (I.CVG_MERGEINSTANCES, "MergeInstances", bool)]
        STR = dict(cp=(SP.COMMENT, "Comment"), cg=(SP.COMMENT, "Comment"), du=(SP.DU_SIGNATURE, "Signature"))
        SUP = dict(scope=SC, inst=SC, du=SC, cp=CV, cg=CG, hist=[(I.TEST_STATUS, "TestStatus", None)])
        RO = {I.SCOPE_IS_UNDER_DU}
        SAME = {I.COVER_GOAL: I.SCOPE_GOAL, I.SCOPE_GOAL: I.COVER_GOAL}
        def state():
            st = {}
            for j, (k, o) in enumerate(objs):
                if k in ("cp", "cg", "scope"):
                    # the objects below are other objects: a bin keeps its own goal, weight, ...
                    st[(j, "below")] = ([(s.getScopeName(), s.getScopeType()) for s in o.scopes(-1)],
                                        [(i.getName(), i.getCoverData().type, i.getCoverData().flags, i.getCoverData().data, i.getCoverData().goal, i.getCoverData().weight, i.getCoverData().limit, str(i.getSourceInfo())) for i in o.coverItems(-1)])
                for p, acc, t in SUP[k]:
                    st[(j, p)] = o.getIntProperty(-1, p)
                    if o.getIntProperty(3 * j, p) != st[(j, p)]:
                        raise Fail("%s of %s depends on the item index" % (p.name, k))
                    if acc:
                        v = getattr(o, "get" + acc)()
                        if t is bool:
                            v = 1 if v else 0
                        if int(v) != int(st[(j, p)]):
                            raise Fail("%s of %s: property is %r, accessor says %r" % (p.name, k, st[(j, p)], v))
                if k == "inst":
                    for i in range(2):
                        st[(j, "stmt", i)] = o.getIntProperty(i, I.STMT_INDEX)
                        if o.getIthCoverItem(i).getStmtIndex() != st[(j, "stmt", i)]:
                            raise Fail("STMT_INDEX of item %d differs from its accessor" % i)
                if k in STR:
                    p, acc = STR[k]
                    st[(j, "text")] = o.getStringProperty([-1, 0, 1, 5][j % 4], p)
                    if st[(j, "text")] != getattr(o, "get" + acc)():
                        raise Fail("%s property differs from its accessor" % p.name)
            return st
        C17.dispatch(c)
        cur = T("reading properties", state)
        for a, b, v in c["ops"]:
            j = a % len(objs)
            k, o = objs[j]
            sup = SUP[k]
            # scope-level properties ignore the index of a cover item
            ix = [-1, -1, 0, 1, 2, 7][(a // 32 + b // 97) % 6]
            if k == "inst" and b % 5 == 2:
                if b % 2:
                    T("setIntProperty(STMT_INDEX)", o.setIntProperty, v % 2, I.STMT_INDEX, v)
                else:
                    T("setStmtIndex", o.getIthCoverItem(v % 2).setStmtIndex, v)
                cur[(j, "stmt", v % 2)] = v
            elif b % 11 == 0:
                bad = [p for p in I if p not in [x[0] for x in sup] and not (k == "inst" and p == I.STMT_INDEX)]
                p = bad[(b // 11) % len(bad)]
                try:
                    o.setIntProperty(-1, p, v)
                    acc = True
                except Exception:
                    acc = False
                if acc:
                    raise Fail("setting unsupported property %s of a %s was accepted" % (p.name, k))
                if p in RO:
                    continue
                try:
                    o.getIntProperty(-1, p)
                    raise Fail("reading unsupported property %s of a %s was accepted" % (p.name, k))
                except Fail:
                    raise
                except Exception:
                    pass
            elif b % 11 == 1 and k in STR:
                p, acc = STR[k]
                val = c["s"] + str(v) if b % 3 else str(v) + c["s"]
                if b % 2:
                    T("setStringProperty", o.setStringProperty, ix, p, val)
                    r = T("getStringProperty", o.getStringProperty, ix, p)
                    if r != val:
                        raise Fail("%s of a %s, index %d: %r was set, %r is read" % (p.name, k, ix, val, r))
                else:
                    T("set" + acc, getattr(o, "set" + acc), val)
                cur[(j, "text")] = val
            elif b % 11 == 2:
                # a string property the object does not support reaches nothing, refused or not
                bad = [p for p in SP if p != STR.get(k, (None,))[0]]
                try:
                    o.setStringProperty(ix, bad[(b // 11) % len(bad)], c["s"] + "z")
                except Exception:
                    pass
            else:
                p, acc, t = sup[b % len(sup)]
                if t is bool:
                    v = v % 2
                elif t is None:
                    v = 1 + v % 6
                elif b % 7 == 0:
                    v = -v
                if acc and b % 3 == 0:
                    arg = bool(v) if t is bool else (TestStatusT(v) if t is None else v)
                    T("set" + acc, getattr(o, "set" + acc), arg)
                else:
                    T("setIntProperty(%s)" % p.name, o.setIntProperty, ix, p, v)
                    r = T("getIntProperty(%s)" % p.name, o.getIntProperty, ix, p)
                    if r != v:
                        raise Fail("%s of a %s, index %d: %r was set, %r is read" % (p.name, k, ix, v, r))
                cur[(j, p)] = v
                if p in SAME:
                    cur[(j, SAME[p])] = v
            now = T("reading properties", state)
            for key in cur:
                if now[key] != cur[key]:
                    raise Fail("after setting, %s of object %d (%s) is %r, expected %r" % (getattr(key[1], "name", key[1]), key[0], objs[key[0]][0], now[key], cur[key]))

# ---------------------------------------------------------------- C-style interface
CAPI = [  # function, receiver parameter or None for db, method, argument order
    ("ucis_GetIntProperty", "obj", "getIntProperty", ["coverindex", "property"]),
    ("ucis_SetIntProperty", "obj", "setIntProperty", ["coverindex", "property", "value"]),
    ("ucis_GetRealProperty", "obj", "getRealProperty", ["coverindex", "property"]),
    ("ucis_SetRealProperty", "obj", "setRealProperty", ["coverindex", "property", "value"]),
    ("ucis_GetStringProperty", "obj", "getStringProperty", ["coverindex", "property"]),
    ("ucis_SetStringProperty", "obj", "setStringProperty", ["coverindex", "property", "value"]),
    ("ucis_GetHandleProperty", "obj", "getHandleProperty", ["coverindex", "property"]),
    ("ucis_SetHandleProperty", "obj", "setHandleProperty", ["coverindex", "property", "value"]),
    ("ucis_CreateScope", "parent", "createScope", ["name", "sourceinfo", "weight", "source", "type", "flags"]),
    ("ucis_CreateInstance", "parent", "createInstance", ["name", "fileinfo", "weight", "source", "type", "du_scope", "flags"]),
    ("ucis_CreateToggle", "parent", "createToggle", ["name", "canonical_name", "flags", "toggle_metric", "toggle_type", "toggle_dir"]),
    ("ucis_CreateNextCover", "parent!", "createNextCover", ["name", "data", "sourceinfo"]),
    ("ucis_RemoveScope", None, "removeScope", ["scope"]),
    ("ucis_CreateHistoryNode", None, "createHistoryNode", ["parent", "logicalname", "physicalname", "kind"]),
    ("ucis_CreateFileHandle", None, "createFileHandle", ["filename", "fileworkdir"]),
    ("ucis_SetTestData", "testhistorynode!", "setTestData", ["testdata"]),
    ("ucis_Write", None, "write", ["file", "scope", "recurse", "covertype"]),
    ("ucis_Close", None, "close", []),
]
@prop("C18", ["src/ucis/__init__.py"])
class C18:
    @staticmethod
    def gen(g):
        return dict(f=g.r.randrange(len(CAPI)), null=g.chance(.5), vals=[g.r.choice([g.count(), g.name(), None, 0, 1, -1, "", True, False]) for _ in range(8)], rec=g.r.choice([0, 1, 2, -1]), style=g.r.randrange(3))
    @staticmethod
    def check(c):
        import ucis, inspect
        fn, recv, meth, order = CAPI[c["f"]]
        f = getattr(ucis, fn)
        log = []
        class Stub:
            def __init__(self, nm):
                self.nm = nm
            def __getattr__(self, m):
                if m.startswith("__"):
                    raise AttributeError(m)
                def g(*a, **k):
                    log.append((self.nm, m, a, k))
                    return ("result", self.nm, m)
                return g
        db, obj = Stub("db"), Stub("obj")
        names = list(inspect.signature(f).parameters)
        rp = recv.rstrip("!") if recv else None
        isnull = recv is not None and not recv.endswith("!") and c["null"]
        args, exp = {}, {}
        for i, n in enumerate(names):
            if i == 0:
                args[n] = db
            elif n == rp:
                args[n] = None if isnull else obj
            else:
                args[n] = c["rec"] if n == "recurse" else (c["vals"][i % 8] if c["style"] else object())
        if c["style"] == 2:
            r = T(fn, f, *list(args.values()))
        else:
            r = T(fn, f, **args)
        if len(log) != 1:
            raise Fail("%s makes %d method calls" % (fn, len(log)))
        who, m, a, k = log[0]
        want = "db" if (recv is None or isnull) else "obj"
        if who != want or m != meth:
            raise Fail("%s calls %s.%s, expected %s.%s" % (fn, who, m, want, meth))
        expv = [args[n] for n in order]
        if fn == "ucis_Write":
            expv[2] = (c["rec"] == 1)
        got = list(a)
        if k:
            # keyword style: match against the method's declared parameters
            from ucis.scope import Scope
            from ucis.ucis import UCIS
            from ucis.history_node import HistoryNode
            for cls in (UCIS, Scope, HistoryNode):
                if hasattr(cls, meth):
                    ps = list(inspect.signature(getattr(cls, meth)).parameters)[1:]
                    break
            got = got + [k[p] for p in ps[len(got):] if p in k]
        if len(got) != len(expv) or any(x is not y and not (x == y and type(x) == type(y)) for x, y in zip(got, expv)):
            raise Fail("%s passes %r to %s, expected %r" % (fn, got, meth, expv))
        if meth.startswith(("get", "create", "remove")) and r != ("result", want, meth):
            raise Fail("%s returns %r" % (fn, r))
        if fn in ("ucis_Write", "ucis_Close") and r != 0:
            raise Fail("%s returns %r" % (fn, r))
