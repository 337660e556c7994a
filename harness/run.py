"""Concrete side of a check: run-time contract checking of the real code.
usage: run.py PROP --seed N --seconds S --max N --out FILE | run.py --replay FILE"""
import sys, os, json, time, argparse, random, traceback, warnings
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src"))
os.environ["PYTHONPATH"] = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
import logging
logging.disable(logging.CRITICAL)
sys.setrecursionlimit(20000)

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=10)
    ap.add_argument("--max", type=int, default=10**9)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    import gen
    res = dict(prop=a.prop, cases=0, distinct=0, failure=None, harness_errors=[])
    if a.replay:
        rp = json.load(open(a.replay))
        a.prop = rp["property"]
        if not rp.get("case"):
            print("replay file names a failed obligation, it holds no input:", rp.get("what"))
            return 0
    try:
        import props
    except Exception as e:
        res["import_error"] = traceback.format_exc()
        finish(a, res)
        return
    P = props.PROPS[a.prop]
    if a.replay:
        try:
            props.configure(P, rp["case"])
            P.check(rp["case"])
            print("not reproduced")
        except props.Fail as e:
            print("reproduced:", e)
            return 1
        except Exception as e:
            if not astray(e):
                raise
            print("reproduced:", astray(e))
            return 1
        return 0
    def attempt(case):
        try:
            props.configure(P, case)
            P.check(json.loads(json.dumps(case)))
            return None
        except props.Fail as e:
            return "Fail", str(e)
        except Exception as e:
            m = astray(e)
            if m is None:
                raise
            return m.split(":")[0] + m[m.rindex(" ("):], m
    t0 = time.time()
    seen = set()
    samples = []
    i = 0
    import hashlib
    while i < a.max and time.time() - t0 < a.seconds:
        g = gen.G("%s/%d/%d" % (a.prop, a.seed, i), P.files)
        g.neg, g.others = P.neg, P.others
        i += 1
        try:
            case = P.gen(g)
            if isinstance(case, dict) and P.uses and g.chance(.25):
                case["used"] = True
            if isinstance(case, dict) and P.stages and g.chance(.2):
                case["stage"] = g.r.randrange(1, 1 << 30)
            msg = attempt(case)
        except RecursionError:
            continue
        except Exception:
            res["harness_errors"].append(traceback.format_exc())
            if len(res["harness_errors"]) > 3:
                break
            continue
        js = json.dumps(case, sort_keys=True, default=str)
        seen.add(hashlib.md5(js.encode()).digest())
        if len(samples) < 3 and 150 < len(js) < 1500:
            samples.append(case)
        if msg:
            ts = time.time()
            small = case
            again = True
            while again and time.time() - ts < 8:
                again = False
                for cand in gen.shrink_candidates(small):
                    if time.time() - ts > 8:
                        break
                    try:
                        m = attempt(cand)
                    except Exception:
                        m = None
                    # a smaller case counts only if it fails in the same way
                    if m and m[0] == msg[0]:
                        small, msg, again = cand, m, True
                        break
            res["failure"] = dict(case=small, message=msg[1])
            break
    res["cases"] = i
    res["distinct"] = len(seen)
    res["samples"] = samples
    res["wall_s"] = round(time.time() - t0, 2)
    finish(a, res)

def astray(e):
    """what an exception outside the checked calls says about the code: it raised where it may not, or gave a result that
    is not what the interface promises (None, a missing attribute or key); None if it may be the harness's own trouble"""
    if isinstance(e, (MemoryError, RecursionError, ImportError, NameError, SyntaxError)) or type(e).__module__ in ("props", "real", "oracle", "gen"):
        return None
    fr = traceback.extract_tb(e.__traceback__)
    inside = [f for f in fr if "/src/ucis/" in f.filename.replace(os.sep, "/")]
    if isinstance(e, OSError) and not inside:
        return None
    if isinstance(e, AttributeError) and ("module 'ucis" in str(e) or "type object" in str(e)):
        return None
    f = (inside or fr)[-1]
    return "%s: %s (%s:%d %s)" % (type(e).__name__, str(e)[:200], os.path.basename(f.filename), f.lineno, f.name)

def finish(a, res):
    s = json.dumps(res, indent=1, default=str)
    if a.out:
        with open(a.out, "w") as f:
            f.write(s)
    else:
        print(s)

if __name__ == "__main__":
    sys.exit(main())
