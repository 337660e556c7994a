"""Builds real databases through the public interface and reads them back through it."""
import random
from ucis.mem.mem_ucis import MemUCIS
from ucis.source_info import SourceInfo
from ucis.source_t import SourceT
from ucis.scope_type_t import ScopeTypeT as S
from ucis.cover_type_t import CoverTypeT as C

class BadCase(Exception):
    pass

K2T = {"bin": C.CVGBIN, "ign": C.IGNOREBIN, "ill": C.ILLEGALBIN, "def": C.DEFAULTBIN, "cnt": C.COUNT}
T2K = {int(v): k for k, v in K2T.items()}

def srcinfo(db, loc):
    if loc is None:
        return None
    f = None if loc[0] is None else db.createFileHandle(loc[0], None)
    return SourceInfo(f, loc[1], loc[2])

def unloc(si):
    if si is None:
        return None
    f = si.file
    r = [None if f is None else f.getFileName(), si.line, si.token]
    return None if r == [None, -1, -1] else r

class Plain:
    """a database built in one go"""
    def tick(self, db):
        pass
    def count(self, c):
        return c
    def item(self, it, c):
        pass
    def weight(self, w):
        return w
    def scope(self, s, w):
        pass
    def finish(self, db):
        pass

class Staged(Plain):
    """a database that is used (warm) while it is being built, and whose counts and weights are final only afterwards"""
    def __init__(self, seed, warm):
        self.r, self.warm, self.n, self.late = random.Random(seed), warm, 0, []
        self.at = {self.r.randrange(1, 8), self.r.randrange(1, 40)}
        self.now = None
    def tick(self, db):
        self.n += 1
        if self.n in self.at:
            self.warm(db)
    def count(self, c):
        self.now = self.r.randrange(c + 1) if isinstance(c, int) and c > 0 and self.r.random() < .5 else c
        return self.now
    def item(self, it, c):
        if self.now != c:
            self.late.append((it.incrementCover, c - self.now))
    def weight(self, w):
        self.wnow = self.r.choice([0, 1, 5]) if self.r.random() < .3 else w
        return self.wnow
    def scope(self, s, w):
        if self.wnow != w:
            self.late.append((s.setWeight, w))
    def finish(self, db):
        for i in range(2):
            self.warm(db)
            half, self.late = (self.late[::2], self.late[1::2]) if i == 0 else (self.late, [])
            for f, v in half:
                f(v)

def build_cg(db, scope, ch, st=Plain()):
    cps = []
    for e in ch:
        st.tick(db)
        if e["k"] == "cp":
            s = scope.createCoverpoint(e["name"], srcinfo(db, e["loc"]), st.weight(e["w"]), SourceT.OTHER)
            cps.append(s)
        elif e["k"] == "cr":
            if any(i >= len(cps) for i in e["ops"]):
                raise BadCase()
            s = scope.createCross(e["name"], srcinfo(db, e["loc"]), st.weight(e["w"]), SourceT.OTHER, [cps[i] for i in e["ops"]])
        else:
            s = scope.createCoverInstance(e["name"], srcinfo(db, e["loc"]), st.weight(e["w"]), SourceT.OTHER)
            st.scope(s, e["w"])
            build_cg(db, s, e["ch"], st)
            continue
        st.scope(s, e["w"])
        for nm, k, c, a in e["bins"]:
            st.item(s.createBin(nm, None, a, st.count(c), nm, K2T[k]), c)
            st.tick(db)

def build(d, db=None, st=Plain()):
    db = db if db is not None else MemUCIS()
    nodes = []
    for h in d.get("hist", []):
        nodes.append(build_hist(db, h, nodes))
    for i in d["insts"]:
        du = db.createScope(i["du"], srcinfo(db, i.get("duloc")), 1, SourceT.OTHER, S.DU_MODULE, 0)
        s = db.createInstance(i["name"], srcinfo(db, i["loc"]), i["w"], SourceT.OTHER, S.INSTANCE, du, 0)
        for g in i["cgs"]:
            cg = s.createCovergroup(g["name"], srcinfo(db, g["loc"]), st.weight(g["w"]), SourceT.OTHER)
            st.scope(cg, g["w"])
            build_cg(db, cg, g["ch"], st)
    st.finish(db)
    return db

def build_hist(db, h, nodes=()):
    n = db.createHistoryNode(nodes[h["parent"] % len(nodes)] if nodes and h.get("parent") is not None else None, h["logical"], h["physical"], h["kind"])
    from ucis.test_status_t import TestStatusT
    for k, v in h["f"].items():
        if k == "TestStatus":
            v = TestStatusT(v)
        getattr(n, "set" + k)(v)
    return n

def num(x):
    """YAML numbers arrive wrapped; compare by value."""
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return x
    return int(x)

def bins(s):
    out = []
    for it in s.coverItems(C(0xFFFFFFFFFFFFFFFF)):
        d = it.getCoverData()
        out.append([it.getName(), T2K.get(int(d.type), int(d.type)), num(d.data), num(d.at_least)])
    return out

def dump_cg(scope):
    """-> dict(name,w,loc,cps,crs,cis); crosses list operand names and whether they are own coverpoints"""
    r = dict(name=scope.getScopeName(), w=num(scope.getWeight()), loc=unloc(scope.getSourceInfo()), cps=[], crs=[], cis=[])
    own = []
    crs = []
    for c in scope.scopes(S.ALL):
        t = int(c.getScopeType())
        e = dict(name=c.getScopeName(), w=num(c.getWeight()), loc=unloc(c.getSourceInfo()))
        if t == S.COVERPOINT:
            e["bins"] = bins(c)
            r["cps"].append(e)
            own.append(c)
        elif t == S.CROSS:
            e["bins"] = bins(c)
            r["crs"].append(e)
            crs.append((e, c))
        elif t == S.COVERINSTANCE:
            r["cis"].append(dump_cg(c))
        else:
            r.setdefault("other", []).append([t, e["name"]])
    for e, c in crs:
        ops = []
        for i in range(c.getNumCrossedCoverpoints()):
            o = c.getIthCrossedCoverpoint(i)
            ops.append([o.getScopeName(), any(o is x for x in own)])
        e["ops"] = ops
    return r

def dump(db):
    out = []
    for i in db.scopes(S.INSTANCE):
        du = i.getInstanceDu()
        out.append(dict(name=i.getScopeName(), w=num(i.getWeight()), loc=unloc(i.getSourceInfo()),
                        du=du.getScopeName() if du is not None else None,
                        duloc=unloc(du.getSourceInfo()) if du is not None else None,
                        cgs=[dump_cg(g) for g in i.scopes(S.COVERGROUP)]))
    return out

def hist_dump(db):
    from ucis.history_node_kind import HistoryNodeKind
    out = []
    for h in db.getHistoryNodes(HistoryNodeKind.ALL):
        d = dict(logical=h.getLogicalName(), physical=h.getPhysicalName(), kind=h.getKind())
        for k in HFIELDS:
            d[k] = getattr(h, "get" + k)()
        out.append(d)
    return out

HFIELDS = ["TestStatus", "SimTime", "TimeUnit", "RunCwd", "CpuTime", "Seed", "Cmd", "Args", "Compulsory", "Date", "UserName", "Cost", "ToolCategory", "UCISVersion", "VendorId", "VendorTool", "VendorToolVersion", "SameTests", "Comment"]

def objects(db):
    """ids of all scopes, bins and bin data below a database"""
    seen = {}
    def walk(s):
        for c in s.scopes(S.ALL):
            seen[id(c)] = c
            for it in c.coverItems(C(0xFFFFFFFFFFFFFFFF)):
                seen[id(it)] = it
                d = it.getCoverData()
                seen[id(d)] = d
            walk(c)
    walk(db)
    return seen
