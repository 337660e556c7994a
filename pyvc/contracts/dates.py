"""Dates: parsing, printing and conversion as inverse functions."""
from .util import *

# ---------------------------------------------------------------- dates
def lits(ex, st, v):
    v = ex.unopt(st, v, None)
    if isinstance(v, P) and v.kind == "str":
        ps = parts_of(v)
        if len(ps) == 1 and ps[0][0] == "lit":
            return ps[0][1]
    raise Unsupported("computed format")
def is_date(fmt):
    return z3.Function("is_date<%s>" % fmt, I, B)
def parse(fmt):
    """strptime"""
    f = z3.Function("strptime<%s>" % fmt, I, I)
    # printing what was parsed in the same format gives the same text
    smt.trigger(f, lambda app, ch: [z3.Implies(is_date(fmt)(ch[0]), show(fmt)(app) == ch[0])])
    return f
_show = {}
def show(fmt):
    """strftime"""
    if fmt not in _show:
        _show[fmt] = z3.Function("strftime<%s>" % fmt, I, I)
        smt.trigger(_show[fmt], lambda app, ch: [is_date(fmt)(app)])
    return _show[fmt]
ISO = "%Y-%m-%dT%H:%M:%S"
iso = z3.Function("isoformat", I, I)
_strip, _slice = z3.Function("str_strip", I, I), z3.Function("str_slice", I, I, I, I)
def cut(t):
    """the date and time of an xsd:dateTime text: without blanks around it, fractions of a second and time zone"""
    return _slice(_strip(t), z3.IntVal(-999), z3.IntVal(19))
# a date printed in ISO format has 19 characters and no blanks
smt.trigger(iso, lambda app, ch: [is_date(ISO)(app), parse(ISO)(app) == ch[0], _strip(app) == app, _slice(app, z3.IntVal(-999), z3.IntVal(19)) == app, _slice(app, z3.IntVal(0), z3.IntVal(19)) == app])
smt.trigger(_slice, lambda app, ch: [app == _slice(ch[0], z3.IntVal(-999), ch[2])] if z3.is_int_value(ch[1]) and ch[1].as_long() == 0 else [])
# the way through local time (time zones with daylight saving time: mktime and fromtimestamp are not inverse) is left open
ttup, mkt, frt = z3.Function("timetuple", I, I), z3.Function("mktime", I, R), z3.Function("fromtimestamp", R, I)
# decimal numbers
decof, dectext = z3.Function("Decimal", I, I), z3.Function("decimal_text", I, I)
smt.trigger(dectext, lambda app, ch: [smt.real_of_str(app) == smt.real_of_str(ch[0].arg(0)), smt.is_real_text(app)] if z3.is_app(ch[0]) and ch[0].decl().name() == "Decimal" else [])
class Dec(M.Model):
    def fmt(self, ex, st, o, spec):
        if spec == "f":
            return vstr(dectext(o.t))
        raise Unsupported("format %s of a decimal" % spec)
def x_decimal(ex, st, args, kw, node):
    if len(args) != 1 or kw or not (isinstance(args[0], P) and args[0].kind == "str"):
        raise Unsupported("Decimal")
    ex.may_raise(st, z3.Not(smt.is_real_text(args[0].t)), "InvalidOperation", node)
    return Ref("decimal", decof(args[0].t))
M.MODELS["decimal"] = Dec()
M.EXTS["decimal.Decimal"] = x_decimal
class DTime(M.Model):
    def method(self, ex, st, o, nm, args, kw, node):
        if nm == "timetuple" and not args:
            return Ref("dtuple", ttup(o.t))
        if nm == "isoformat" and not args and not kw:
            return vstr(iso(o.t))
        if nm == "strftime" and len(args) == 1:
            return vstr(show(lits(ex, st, args[0]))(o.t))
        raise Unsupported("method %s of a date" % nm)
M.MODELS.update(dtime=DTime(), dtuple=M.Model())
def x_strptime(ex, st, args, kw, node):
    s = M.sval(ex, st, args[0], node)
    fmt = lits(ex, st, args[1])
    ex.may_raise(st, z3.Not(is_date(fmt)(s)), "ValueError", node, "the date does not match the format")
    return Ref("dtime", parse(fmt)(s))
def x_mktime(ex, st, args, kw, node):
    if not (isinstance(args[0], Ref) and args[0].model == "dtuple"):
        raise Unsupported("mktime")
    return P("real", mkt(args[0].t))
def x_fromtimestamp(ex, st, args, kw, node):
    v = ex.num(args[0])
    return Ref("dtime", frt(z3.ToReal(v.t) if v.kind == "int" else v.t))
M.EXTS.update({"datetime.datetime.strptime": x_strptime, "time.mktime": x_mktime, "datetime.datetime.fromtimestamp": x_fromtimestamp,
    "datetime.datetime.now": lambda ex, st, args, kw, node: Ref("dtime", fresh("now", I)), "datetime.date.today": lambda ex, st, args, kw, node: Ref("dtime", fresh("today", I)),
    "datetime.datetime.today": lambda ex, st, args, kw, node: Ref("dtime", fresh("now", I)),
    "getpass.getuser": lambda ex, st, args, kw, node: vstr(fresh("user", I))})

