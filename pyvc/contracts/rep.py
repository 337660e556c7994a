"""Abstract report objects, as the formatters see them."""
from .util import *

rname, rcov = z3.Function("rp_name", I, I), z3.Function("rp_coverage", I, R)
rcount, rgoal = z3.Function("rp_count", I, I), z3.Function("rp_goal", I, I)
rlen, rget = M.count("rp_len", I), z3.Function("rp_get", I, I, I)
REPORT = z3.Function("computed_report", I, I)
_LISTS = dict(covergroups=("rl_cg", "rp_cg"), coverpoints=("rl_cp", "rp_cp"), crosses=("rl_cr", "rp_cr"), bins=("rl_bin", "rp_bin"), ignore_bins=("rl_bin", "rp_bin"), illegal_bins=("rl_bin", "rp_bin"))
HAS = dict(rp_root=("covergroups",), rp_cg=("coverpoints", "crosses", "covergroups"), rp_cp=("bins", "ignore_bins", "illegal_bins"), rp_cr=("bins",), rp_bin=())

def rlist(t, nm):
    return z3.Function("rp_" + nm, I, I)(t)

class RepObj(M.Model):
    def __init__(self, kind):
        self.kind = kind
    def getattr(self, ex, st, o, nm, node):
        if nm in HAS[self.kind]:
            return Ref(_LISTS[nm][0], rlist(o.t, nm))
        if nm == "coverage" and self.kind != "rp_bin":
            return P("real", rcov(o.t))
        if self.kind != "rp_root" and nm == "name":
            return vstr(rname(o.t))
        if self.kind == "rp_bin":
            if nm == "count":
                return vint(rcount(o.t))
            if nm == "goal":
                return vint(rgoal(o.t))
            if nm == "hit":
                return vbool(rcount(o.t) >= rgoal(o.t))
        raise Unsupported("report attribute %s of a %s" % (nm, self.kind))
class RepList(M.Model):
    def __init__(self, elem):
        self.elem = elem
    def iterate(self, ex, st, o):
        return SeqV(rlen(o.t), lambda x, i: Ref(self.elem, rget(o.t, i)))
    def truth(self, ex, st, o):
        return rlen(o.t) > 0
    def length(self, ex, st, o, node):
        return vint(rlen(o.t))
    def getitem(self, ex, st, o, k, node):
        i = M.ival(ex, st, k, node)
        ex.may_raise(st, z3.Or(i >= rlen(o.t), i < -rlen(o.t)), "IndexError", node)
        return Ref(self.elem, rget(o.t, z3.If(i < 0, i + rlen(o.t), i)))
for _k in HAS:
    M.MODELS[_k] = RepObj(_k)
for _l, _e in set(_LISTS.values()):
    M.MODELS[_l] = RepList(_e)

def report_of(ex, st, args, node):
    """CoverageReportBuilder.build seen by a formatter: the report computed from the database"""
    if isinstance(args[0], Ref) and args[0].model == "src":
        return Ref("rp_root", REPORT(args[0].t))
