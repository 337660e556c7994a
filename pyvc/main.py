"""python -m pyvc.main PROP --out FILE --limit SECONDS : discharge the obligations of all contracts of one property"""
import z3
import sys, os, json, time, argparse, importlib, multiprocessing, traceback

MODULES = ["report", "merge", "mem", "capi", "text", "jsonrpt", "xmlw", "xmlr", "cmd", "cmd2", "files", "yamlr", "rtrip", "schema"]

def load():
    out = []
    for m in MODULES:
        mod = importlib.import_module("pyvc.contracts." + m)
        out += mod.CONTRACTS
    return out

def label(c):
    return getattr(c, "label", None) or c.target

def work(c, cons, limit, timeout, q, prop=None):
    from . import smt, models
    from .source import Program
    from .exec import Exec, Deadline, Obligation
    from .values import Unsupported
    t0 = time.time()
    r = dict(name=label(c), obligations=0, discharged=0, failed=[], undecided=None, time=0.0, inlined=[], applied=[], assumptions=[], solver=0.0, queries=0)
    ex = None
    try:
        prog = Program()
        ex = Exec(prog, cons, models.MODELS, models.EXTS, timeout=timeout, deadline=t0 + limit)
        ex.prop = prop
        f = prog.function(c.target)
        if f is None:
            r["undecided"] = "function %s does not exist in the current tree" % c.target
        else:
            ex.verify(c, f)
        for nm, facts, goal in c.lemmas(ex):
            t1 = time.time()
            s = smt.check(facts, goal, (), timeout)
            if s.status == "valid" and facts and smt.check(facts, z3.BoolVal(False), (), 4.0).status == "valid":
                s = smt.Result("unknown", reason="the hypotheses of the lemma contradict each other")
            ex.obls.append(Obligation("lemma: " + nm, s.status, s.reason, time.time() - t1))
    except Deadline:
        r["undecided"] = "time limit"
    except Unsupported as e:
        r["undecided"] = "outside the verifier's subset: %s" % e
    except RecursionError:
        r["undecided"] = "internal: recursion"
    except Exception as e:
        r["undecided"] = "internal error: %s: %s" % (type(e).__name__, traceback.format_exc()[-1500:])
    if ex is not None:
        r["obligations"] = len(ex.obls)
        r["discharged"] = sum(1 for o in ex.obls if o.status == "valid")
        r["failed"] = [dict(name=o.name, detail=o.detail) for o in ex.obls if o.status == "invalid"]
        if r["failed"] and ex.looped:
            why = confirm(c, cons, min(limit - (time.time() - t0), 60), timeout, prop, r)
            if why is not None:
                r["undecided"] = r["undecided"] or "%s: %s" % (why, "; ".join(o["name"] for o in r["failed"][:3]))
                r["failed"] = []
        unk = [o.name for o in ex.obls if o.status == "unknown"]
        if unk and not r["undecided"]:
            r["undecided"] = "solver gave no answer: " + "; ".join(unk[:4])
        r["inlined"], r["applied"], r["assumptions"] = sorted(ex.inlined), sorted(ex.applied), sorted(ex.assumptions)
    r["solver"], r["queries"] = round(smt.Stats.time, 2), smt.Stats.queries
    r["time"] = round(time.time() - t0, 2)
    q.put(r)

def confirm(c, cons, limit, timeout, prop, r):
    """A refuted obligation after a loop may only mean that the inferred invariants do not fit the loop. It counts as a violation
    if the function also breaks its contract with every loop unrolled (no invariants, exact executions of up to BOUND passes);
    -> None, or why it is undecided."""
    from . import smt, models
    from .source import Program
    from .exec import Exec, Deadline
    from .values import Unsupported
    ex = None
    smt.BOUND[0] = 2
    smt.reset()
    try:
        prog = Program()
        ex = Exec(prog, cons, models.MODELS, models.EXTS, timeout=timeout, deadline=time.time() + max(limit, 5))
        ex.prop = prop
        ex.bound = smt.BOUND[0]
        ex.verify(c, prog.function(c.target))
        why = "no invariant found for a loop, and no counterexample with up to %d passes of each loop" % ex.bound
    except Deadline:
        why = "no invariant found for a loop, and no counterexample within the time limit"
    except Unsupported as e:
        why = "no invariant found for a loop, and no bounded check of it (%s)" % e
    except Exception as e:
        why = "no invariant found for a loop, and no bounded check of it (internal error: %s)" % traceback.format_exc()[-600:]
    finally:
        smt.BOUND[0] = None
    bad = [o for o in ex.obls if o.status == "invalid"] if ex is not None else []
    if bad:
        r["bounded_counterexample"] = [dict(name=o.name, detail=o.detail) for o in bad[:5]]
        return None
    return why

def run(cons_list, cons, limit, jobs, timeout, prop=None):
    ctx = multiprocessing.get_context("fork")
    t0 = time.time()
    todo = sorted(cons_list, key=lambda c: -getattr(c, "cost", 1))
    live, res = [], []
    q = ctx.Queue()
    while todo or live:
        while todo and len(live) < jobs:
            left = limit - (time.time() - t0)
            c = todo.pop(0)
            if left < 2:
                res.append(dict(name=label(c), obligations=0, discharged=0, failed=[], undecided="time limit", time=0, inlined=[], applied=[], assumptions=[], solver=0, queries=0))
                continue
            p = ctx.Process(target=work, args=(c, cons, left - 1, timeout, q, prop))
            p.start()
            live.append((p, c))
        try:
            res.append(q.get(timeout=0.2))
        except Exception:
            pass
        done = {r["name"] for r in res}
        keep = []
        for p, c in live:
            if label(c) in done:
                p.join(2)
                if p.is_alive():
                    p.kill()
                continue
            if not p.is_alive():
                try:
                    while True:
                        res.append(q.get(timeout=0.5))
                except Exception:
                    pass
                if label(c) not in {r["name"] for r in res}:
                    res.append(dict(name=label(c), obligations=0, discharged=0, failed=[], undecided="the prover process ended with %s" % p.exitcode, time=0, inlined=[], applied=[], assumptions=[], solver=0, queries=0))
                continue
            if time.time() - t0 > limit + 20:
                p.kill()
                p.join()
                res.append(dict(name=label(c), obligations=0, discharged=0, failed=[], undecided="time limit", time=0, inlined=[], applied=[], assumptions=[], solver=0, queries=0))
                continue
            keep.append((p, c))
        live = keep
    return res

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--out")
    ap.add_argument("--limit", type=float, default=240)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--jobs", type=int, default=4)
    a = ap.parse_args()
    sys.setrecursionlimit(20000)
    allc = load()
    from .contracts import plan
    cons = {}
    for c in allc:
        if c.target and not getattr(c, "leaf", False):
            cons.setdefault(c.target, c)
    sel = [c for c in allc if a.prop in c.props or (a.prop == "all" and c.props)]
    rs = run(sel, cons, a.limit, a.jobs, 10.0 if a.tier == "quick" else 30.0, a.prop)
    order = {label(c): i for i, c in enumerate(allc)}
    rs.sort(key=lambda r: order[r["name"]])
    inl = sorted({x for r in rs for x in r["inlined"]})
    app = sorted({x for r in rs for x in r["applied"]})
    out = dict(functions=rs, obligations=sum(r["obligations"] for r in rs), discharged=sum(r["discharged"] for r in rs), error=None,
        assumptions=sorted({x for r in rs for x in r["assumptions"]} | set(plan.ASSUMPTIONS.get("*", [])) | set(plan.ASSUMPTIONS.get(a.prop, []))),
        trusted_base=plan.TRUSTED, bounded_parts=plan.BOUNDED.get(a.prop, []), inlined=inl, used_through_contract=app,
        solver_time=round(sum(r["solver"] for r in rs), 2), queries=sum(r["queries"] for r in rs), back_end="z3 (python API, %s) over obligations generated by pyvc from the current source" % __import__("z3").get_version_string())
    if a.out:
        with open(a.out, "w") as f:
            json.dump(out, f, indent=1)
    else:
        for r in rs:
            print("%-90s %3d/%3d %6.1fs %s" % (r["name"], r["discharged"], r["obligations"], r["time"], r["undecided"] or ""))
            for o in r["failed"]:
                print("     FAILED", o["name"], o["detail"][:300])
        print("solver %.1fs, %d queries" % (out["solver_time"], out["queries"]))

if __name__ == "__main__":
    main()
