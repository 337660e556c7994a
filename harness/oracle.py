"""Independent specifications over the plain trees of gen.py / dumps of real.py."""
KINDS = ("bin", "ign", "ill")

def norm_cg(g):
    """model covergroup -> the shape dump_cg yields"""
    r = dict(name=g["name"], w=g["w"], loc=g["loc"], cps=[], crs=[], cis=[])
    for e in g["ch"]:
        b = dict(name=e["name"], w=e["w"], loc=e["loc"])
        if e["k"] == "cp":
            b["bins"] = [list(x) for x in e["bins"]]
            r["cps"].append(b)
        elif e["k"] == "cr":
            b["bins"] = [list(x) for x in e["bins"]]
            b["ops"] = [[r["cps"][i]["name"], True] for i in e["ops"]]
            r["crs"].append(b)
        else:
            r["cis"].append(norm_cg(e))
    return r

def norm(d):
    return [dict(name=i["name"], w=i["w"], loc=i["loc"], du=i["du"], duloc=i.get("duloc"), cgs=[norm_cg(g) for g in i["cgs"]]) for i in d["insts"]]

def by_kind(bins):
    return {k: [b for b in bins if b[1] == k] for k in KINDS}

def groups(items):
    order, m = [], {}
    for x in items:
        if x["name"] not in m:
            order.append(x["name"])
            m[x["name"]] = []
        m[x["name"]].append(x)
    return [m[n] for n in order]

def merge_bins(lists):
    out = []
    for k in KINDS:
        order, tot, atl = [], {}, {}
        for l in lists:
            for nm, kk, c, a in l:
                if kk != k:
                    continue
                if nm not in tot:
                    order.append(nm); tot[nm] = 0; atl[nm] = a
                tot[nm] += c
        out += [[nm, k, tot[nm], atl[nm]] for nm in order]
    return out

def merge_cg(gs):
    f = gs[0]
    r = dict(name=f["name"], w=f["w"], loc=f["loc"], cps=[], crs=[], cis=[])
    for g in groups([c for x in gs for c in x["cps"]]):
        r["cps"].append(dict(name=g[0]["name"], w=g[0]["w"], loc=g[0]["loc"], bins=merge_bins([c["bins"] for c in g])))
    for g in groups([c for x in gs for c in x["crs"]]):
        r["crs"].append(dict(name=g[0]["name"], w=g[0]["w"], loc=g[0]["loc"], bins=merge_bins([c["bins"] for c in g]), ops=g[0]["ops"]))
    for g in groups([c for x in gs for c in x["cis"]]):
        m = merge_cg(g)
        m["cis"] = []
        r["cis"].append(m)
    return r

def merge(dbs):
    """dbs: list of normalised databases"""
    out = []
    for g in groups([i for d in dbs for i in d]):
        f = g[0]
        out.append(dict(name=f["name"], loc=f["loc"], du=f["du"], duloc=f.get("duloc"),
                        cgs=[merge_cg(x) for x in groups([c for i in g for c in i["cgs"]])]))
    return out

def canon_bins(x):
    """order bins by kind (stable), recursively"""
    if isinstance(x, dict):
        r = {k: canon_bins(v) for k, v in x.items()}
        if "bins" in r:
            b = by_kind(x["bins"])
            other = [y for y in x["bins"] if y[1] not in KINDS]
            r["bins"] = b["bin"] + b["ign"] + b["ill"] + other
        return r
    if isinstance(x, list):
        return [canon_bins(v) for v in x]
    return x

def strip(x, keys):
    if isinstance(x, dict):
        return {k: strip(v, keys) for k, v in x.items() if k not in keys}
    if isinstance(x, list):
        return [strip(v, keys) for v in x]
    return x

def pct(bins):
    n = [b for b in bins if b[1] == "bin"]
    if not n:
        return 0.0
    return 100.0 * sum(1 for b in n if b[2] >= b[3]) / len(n)

def wmean(pairs):
    """pairs of (weight, value)"""
    from fractions import Fraction
    den = sum(w for w, _ in pairs)
    if den <= 0:
        return 0.0
    return float(sum(Fraction(v) * w for w, v in pairs) / den)

def report_cg(g):
    cps = [dict(name=c["name"], w=c["w"], cov=pct(c["bins"]), bins=by_kind(c["bins"])) for c in g["cps"]]
    crs = [dict(name=c["name"], w=c["w"], cov=pct(c["bins"]), bins=by_kind(c["bins"])) for c in g["crs"]]
    return dict(name=g["name"], w=g["w"], cps=cps, crs=crs, cgs=[report_cg(c) for c in g["cis"]],
                cov=wmean([(c["w"], c["cov"]) for c in cps + crs]))

def report(n):
    cgs = [report_cg(g) for i in n for g in i["cgs"]]
    return dict(cgs=cgs, cov=wmean([(g["w"], g["cov"]) for g in cgs]))

def diff(a, b, path=""):
    """first difference between expected a and actual b"""
    if isinstance(a, float) or isinstance(b, float):
        try:
            if abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b)):
                return None
        except TypeError:
            pass
        return "%s: expected %r, got %r" % (path or ".", a, b)
    if type(a) != type(b) and not (isinstance(a, int) and isinstance(b, int)):
        return "%s: expected %r, got %r" % (path or ".", a, b)
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a:
                return "%s.%s: unexpected %r" % (path, k, b[k])
            if k not in b:
                return "%s.%s: missing, expected %r" % (path, k, a[k])
            d = diff(a[k], b[k], "%s.%s" % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)):
        for i in range(min(len(a), len(b))):
            d = diff(a[i], b[i], "%s[%d]" % (path, i))
            if d:
                return d
        if len(a) != len(b):
            return "%s: expected %d elements, got %d (%r vs %r)" % (path or ".", len(a), len(b), str(a)[:200], str(b)[:200])
        return None
    return None if a == b else "%s: expected %r, got %r" % (path or ".", a, b)
