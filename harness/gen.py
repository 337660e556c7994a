"""Random databases (plain JSON-able trees), biased by literals found in the current source."""
import ast, os, random

KINDS = ("bin", "ign", "ill")
REPO = os.environ.get("VERIF_REPO", "/repo")

import functools
@functools.lru_cache(maxsize=None)
def harvest(files):
    ints, strs = set(), set()
    for f in files:
        path = os.path.join(REPO, f)
        try:
            tree = ast.parse(open(path).read())
        except (OSError, SyntaxError):
            continue
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant):
                v = n.value
                if isinstance(v, bool):
                    continue
                if isinstance(v, int):
                    ints.update((v - 1, v, v + 1))
                elif isinstance(v, float) and v == v and abs(v) < 1e18:
                    ints.update((int(v), int(v) + 1))
                elif isinstance(v, str) and 0 < len(v) <= 24 and all(c.isprintable() for c in v):
                    strs.add(v)
    return sorted(i for i in ints if i >= 0), sorted(strs)

class G:
    def __init__(self, seed, files=()):
        self.r = random.Random(seed)
        self.ints, self.strs = harvest(tuple(files))
        self.small = [i for i in self.ints if i <= 300]
        self.large = [i for i in self.ints if 300 < i <= 70000]
        self.locs = True
        self.neg = self.others = False      # negative counts, bins of kinds no report or document speaks of

    def chance(self, p):
        return self.r.random() < p

    NAMES = ["a", "b", "a\tb", "p0\tx", "c", "d", "a0", "A", "cp", "cr", "cg", "x[1]", "v.w", "top/u1", "<a,b>", "a b", "\u00e9\u4e2d", "\U0001f600", "a\U00010000", "&lt;\"'", "100%", "%s", "0", "dummy", "default", "bins", "ignore", "__null__file__", "xxx", "\\", "{}", "None", "a=b", "a#b", "a:b", "a-b_c", "auto[0:3]", "aa", "ab", "ba", "a.b", "a_b"]

    def name(self, pool=None):
        r = self.r
        x = r.random()
        if x < 0.06:
            # a close relative of a common name: equal after case folding, trimming or normalisation, but another name
            n = r.choice(pool or "abc")
            return r.choice([n.upper(), n.upper(), n.capitalize(), n + " ", " " + n, n[0] + " " + n[1:], n + "\u0301", "0" + n, n + "_", "", " "])
        if x < 0.72:
            return r.choice(pool or "abc")
        if x < 0.86:
            return r.choice(self.NAMES)
        if x < 0.94 and self.strs:
            s = self.affix(r.choice(self.strs).strip())
            return s or "a"
        if x < 0.97:
            n = r.choice(self.NAMES)
            return n[:3].strip() + str(r.randrange(1000)) or "q"
        return "n" * r.choice([1, 2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257] + [i for i in self.small if i > 0] + [i for i in self.large if i < 5000][:12])

    def affix(self, s):
        """a name made with a text of the code: the text itself, or with something before or behind it"""
        x = self.r.random()
        return s if x < .6 else s + self.r.choice("x0_ ") if x < .75 else self.r.choice("x0_ ") + s if x < .9 else "x" + s + "y"

    def count(self):
        r = self.r
        x = r.random()
        if self.neg and x > 0.97:
            return r.choice([-1, -1, -2, -7, -2**40])
        if x < 0.30:
            return r.choice([0, 0, 1, 1, 2, 3])
        if x < 0.6:
            return r.randrange(0, 20)
        if x < 0.8 and self.ints:
            return r.choice(self.ints)
        return r.choice([2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**63 - 1, 2**63, 2**64, 10**20, 255, 256, 1000, 65535, 65536, 10**6, 10**9])

    def atl(self):
        r = self.r
        x = r.random()
        if x < 0.45:
            return 1
        if x < 0.85:
            return r.choice([0, 2, 3, 4, 5, 10])
        if x < 0.88:
            return r.choice([-1, -7])
        return self.count()

    def weight(self):
        r = self.r
        x = r.random()
        if x < 0.4:
            return 1
        if x < 0.55:
            return 0
        if x < 0.85:
            return r.randrange(2, 12)
        if self.ints and x < 0.95:
            return r.choice(self.ints)
        return r.choice([100, 1000, 2**31, 2**40])

    def loc(self):
        r = self.r
        if not self.locs or r.random() < 0.5:
            return None
        l = [r.choice(["f1.sv", "f2.sv", "dir/f3.svh", "f1.sv", "__null__file__", None, r.choice(["F1.sv", "./f1.sv", "dir//f3.svh", "other/f3.svh", "f1.sv ", "f%d.sv" % r.randrange(9), "", self.affix(r.choice(self.strs)) if self.strs else "f.sv"])] + self.strs[:3]), r.choice([r.randrange(-1, 8), r.randrange(0, 500)]), r.randrange(-1, 9)]
        return None if l == [None, -1, -1] else l

    def size(self, lo, hi, p_big=0.0):
        if p_big and self.r.random() < p_big:
            c = [i for i in self.small if i <= 260] + [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129]
            return self.r.choice(c)
        return self.r.randint(lo, hi)

    def bins(self, dup=0.15, hi=5, p_big=0.012, kinds=KINDS):
        n = self.size(0, hi, p_big)
        if p_big >= 0.012 and self.chance(0.005 if self.large else 0.0003):
            n = self.r.choice(self.large) if self.large and self.chance(.8) else self.r.choice([1000, 1024, 4096, 4097, 5000, 10001])
            if self.chance(.8):
                kinds = kinds[:1]
        out, seen = [], set()
        big = n > 12
        for i in range(n):
            k = self.r.choice(kinds) if self.chance(0.5) else "bin"
            if k not in kinds:
                k = kinds[0]
            nm = ("b%d" % i) if big else self.name(["b0", "b1", "b2", "b3"])
            if nm in seen and not self.chance(dup):
                nm = nm + "_%d" % i
            seen.add(nm)
            c, a = self.count(), self.atl()
            if self.chance(0.35):
                c = max(-9 if self.neg else 0, a + self.r.choice([-1, 0, 1]))
            out.append([nm, k, c, a])
        if big and self.chance(.5):
            # nearly all of them hit, or nearly none
            hit, odd = self.chance(.6), {self.r.randrange(n) for _ in range(self.r.choice([0, 1, 1, 2]))}
            for i, b in enumerate(out):
                b[3] = max(1, b[3])
                b[2] = b[3] + self.r.choice([0, 0, 1, 5]) if hit != (i in odd) else self.r.choice([0, b[3] - 1])
        if self.others:
            for b in out:
                if self.chance(.05):
                    b[1] = self.r.choice(["def", "cnt"])
        return out

    def cg(self, depth=1, dup=0.12, hi=3, p_big=0.01, nest=1):
        """children in creation order"""
        ch, ncp, seen = [], 0, {}
        n = self.size(0, hi + 1, p_big)
        big = n > 12
        for i in range(n):
            k = self.r.choice(["cp", "cp", "cp", "cr", "ci"]) if depth > 0 else self.r.choice(["cp", "cp", "cr"])
            if k == "cr" and ncp == 0:
                k = "cp"
            pool = {"cp": ["p0", "p1", "p2"], "cr": ["x0", "x1"], "ci": ["i0", "i1"]}[k]
            nm = self.name(pool)
            if big:
                nm = nm + str(i)
            s = seen.setdefault(k, set())
            if nm in s and not self.chance(dup):
                nm = nm + "_%d" % i
            s.add(nm)
            e = dict(k=k, name=nm, w=self.weight(), loc=self.loc())
            if k == "cp":
                e["bins"] = self.bins(dup, p_big=0 if big else 0.012)
                ncp += 1
            elif k == "cr":
                e["ops"] = [self.r.randrange(ncp) for _ in range(self.r.choice([0, 1, 2, 2, 2, 3]) if not self.chance(.006) else self.size(4, 12, .3))]
                e["bins"] = self.bins(dup, p_big=0 if big else 0.012)
            else:
                e["ch"] = self.cg(depth - 1, dup, 1 if big else hi, 0)["ch"]
            ch.append(e)
        return dict(name=self.name(["g0", "g1"]), w=self.weight(), loc=self.loc(), ch=ch)

    def db(self, dup=0.12, max_inst=3, hist=0.0, p_big=0.006, depth=1):
        insts, seen = [], set()
        n = self.size(0, max_inst, p_big)
        big = n > 8
        for i in range(n):
            nm = self.name(["u0", "u1", "u2"])
            if nm in seen and not self.chance(dup):
                nm = nm + "_%d" % i
            seen.add(nm)
            cgs, s2 = [], set()
            m = self.r.choice([0, 1, 1, 1, 2]) if big else self.size(0, 3, p_big)
            for j in range(m):
                g = self.cg(depth=depth, dup=dup, hi=1 if (big or m > 8) else 3)
                if g["name"] in s2 and not self.chance(dup):
                    g["name"] += "_%d" % j
                s2.add(g["name"])
                cgs.append(g)
            insts.append(dict(name=nm, du=self.name(["m0", "m1"]), w=self.weight(), duloc=self.loc(), loc=self.loc(), cgs=cgs))
        d = dict(insts=insts, hist=[])
        if self.chance(hist):
            d["hist"] = [self.hist() for _ in range(self.r.randint(1, 4))]
        return d

    def text(self):
        if self.chance(.004):
            return self.r.choice("xy ") * self.r.choice([1000, 4095, 4096, 4097, 9000] + self.large[:20])
        return self.r.choice(["", "x", "sim", "a b", "-f x.f +p=1", "\u00fc", "<&>\"'", "ns", "us", "0", "-1", "true", "false", "line1\nline2", "tab\there", "UCIS:Simulator", "None", "unknown", " lead", "trail ", "0001", "line\n", "\ttab", "a  b", "a\r\nb", " ", "x\t", "\n", "\u00a0x\u00a0", "\u0301"] + self.strs)

    def hist(self):
        r = self.r
        d = {}
        d["logical"] = self.text() or "t"
        d["physical"] = r.choice([None, self.text()])
        d["kind"] = r.choice([None, "TEST", "k", 1, 2])
        if r.random() < .3:
            d["parent"] = r.randrange(8)
        f = {}
        def opt(k, v, p=0.6):
            if r.random() < p:
                f[k] = v
        opt("TestStatus", r.randrange(1, 7))
        def number(*l):
            """one of these, or a number near a literal of the code, or of any magnitude"""
            x = r.random()
            if x < .6:
                return r.choice(l)
            if x < .8 and self.ints:
                return r.choice([float, int, lambda v: v + .5, lambda v: v * 1.0000001])(r.choice(self.ints))
            return r.choice([float, float, int])(10 ** r.randrange(0, 19) * r.choice([1, 1, 3, 9, 9.99])) if x < .95 else r.random() * 10 ** r.randrange(-9, 12)
        opt("SimTime", number(0.0, 1.5, 100, 0.1 + 0.2, 1e-9, 1e20, float(r.randrange(1000))))
        opt("TimeUnit", self.text())
        opt("RunCwd", self.text())
        opt("CpuTime", number(0.0, 2.25, 3, 1e7 / 3, 0))
        opt("Seed", r.choice([self.text(), "12345", str(self.count())]))
        opt("Cmd", self.text())
        opt("Args", self.text())
        opt("Compulsory", r.choice(["0", "1"]))
        opt("Date", "%04d%02d%02d%02d%02d%02d" % (r.choice([1970, 1999, 2000, 2020, 2024, 2037, 2038, 2039, 2099, 1000, 1969, 9999, r.randrange(1970, 2100)]), r.randint(1, 12), r.choice([1, 2, 28, r.randint(1, 28)]), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59)), 0.9)
        if r.random() < .15:
            # hours that daylight saving time skips or repeats
            f["Date"] = r.choice(["20240310", "20240331", "20241006", "20241027", "20241103", "20240407"]) + "%02d%02d%02d" % (r.randint(1, 3), r.randint(0, 59), r.randint(0, 59))
        opt("UserName", self.text())
        opt("Cost", number(0, 1, 2.5, 0.0, 1000000, 1e-9, 1e16, 1e20, 1.5e-7, 123456789.125, 10**20, 0.1, 1 / 3))
        opt("ToolCategory", self.text())
        opt("VendorId", self.text())
        opt("VendorTool", self.text())
        opt("VendorToolVersion", self.text())
        opt("SameTests", r.choice([0, 1, 5, 10**6, 2**31 - 1] + self.ints[:40]))
        opt("Comment", self.text())
        d["f"] = f
        return d

def shrink_candidates(case):
    """Structurally smaller variants of a JSON case: drop list elements, shrink ints."""
    import copy
    paths = []
    def walk(x, path):
        if isinstance(x, list):
            paths.append(path)
            for i, e in enumerate(x):
                walk(e, path + [i])
        elif isinstance(x, dict):
            for k in x:
                walk(x[k], path + [k])
    walk(case, [])
    def get(c, p):
        for k in p:
            c = c[k]
        return c
    for p in paths:
        n = len(get(case, p))
        if n > 6:
            for half in (slice(0, n // 2), slice(n // 2, n)):
                c = copy.deepcopy(case)
                del get(c, p)[half]
                yield c
    for p in paths:
        l = get(case, p)
        for i in reversed(range(len(l))):
            if isinstance(l[i], (dict, list)):
                c = copy.deepcopy(case)
                del get(c, p)[i]
                yield c
