#!/usr/bin/env python3
"""Decide one property on /repo's current tree.

usage: check.py PROP [--tier quick|thorough]

1. pyvc (under python3-vt) parses the functions of /repo/src the property depends on, generates the proof
   obligations of their contracts and discharges them with z3.
2. Meanwhile run-time contract checking of the same properties executes the real code on generated inputs;
   it supplies failing inputs for failed obligations, and is the labelled bounded stand-in for functions
   outside the verifier's subset.

exit 0: every obligation discharged (or the function is recorded as undecided and covered by the bounded
stand-in only) and no failing input; exit 1: VIOLATION line."""
import sys, os, json, time, subprocess, argparse, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
VPY = "/opt/venv/bin/python"
ZPY = "/opt/veriftools/pyvenv/bin/python"
if not os.path.exists(ZPY):
    ZPY = "python3-vt"
OUT = os.path.join(HERE, "out")
EVID = os.path.join(HERE, "evidence")

TIERS = dict(quick=dict(seconds=25, workers=3, escalate=60, proof=240), thorough=dict(seconds=420, workers=7, escalate=120, proof=800))

def spawn(prop, seed, seconds, tag):
    out = os.path.join(OUT, "%s.%s.json" % (prop, tag))
    if os.path.exists(out):
        os.unlink(out)
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO)
    p = subprocess.Popen([VPY, os.path.join(HERE, "harness/run.py"), prop, "--seed", str(seed), "--seconds", str(seconds), "--out", out],
                         env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    return p, out

def collect(ps, limit):
    res = []
    t0 = time.time()
    for p, out in ps:
        try:
            err = p.communicate(timeout=max(5, limit - (time.time() - t0)))[1]
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            res.append(dict(cases=0, distinct=0, failure=None, harness_errors=["the run did not end within %d s" % limit]))
            continue
        try:
            res.append(json.load(open(out)))
            os.unlink(out)
        except Exception:
            res.append(dict(cases=0, distinct=0, failure=None, harness_errors=["harness died: " + err.decode(errors="replace")[-2000:]]))
    return res

def replay(path):
    env = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO)
    p = subprocess.run([VPY, os.path.join(HERE, "harness/run.py"), "--replay", path], env=env, capture_output=True, text=True, timeout=300)
    return p.returncode == 1

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--no-run", action="store_true")
    a = ap.parse_args()
    tier = TIERS[a.tier]
    prop = a.prop
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    t0 = time.time()
    # --- deductive part
    pout = os.path.join(OUT, "%s.proof.json" % prop)
    if os.path.exists(pout):
        os.unlink(pout)
    pcmd = [ZPY, "-m", "pyvc.main", prop, "--out", pout, "--limit", str(tier["proof"]), "--tier", a.tier]
    pp = None
    if not a.no_proof:
        pp = subprocess.Popen(pcmd, cwd=HERE, env=dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1"), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
    # --- run-time contract checking
    ps = [] if a.no_run else [spawn(prop, seed * 1000 + i, tier["seconds"], "w%d" % i) for i in range(tier["workers"])]
    proof = dict(functions=[], error=None, obligations=0, discharged=0, assumptions=[], time=0)
    if pp:
        try:
            err = pp.communicate(timeout=tier["proof"] + 60)[1]
            proof = json.load(open(pout))
        except subprocess.TimeoutExpired:
            pp.kill(); pp.communicate()
            proof["error"] = "the prover did not finish in time"
        except Exception:
            proof["error"] = "the prover died: " + err.decode(errors="replace")[-3000:]
    runs = collect(ps, tier["seconds"] * 2 + 120)
    failed = [dict(function=f["name"], **o) for f in proof["functions"] for o in f.get("failed", [])]
    undecided = [dict(function=f["name"], reason=f["undecided"]) for f in proof["functions"] if f.get("undecided")]
    if failed and not any(r["failure"] for r in runs) and not a.no_run:
        # escalate the search for a failing input of the failed obligation
        runs += collect([spawn(prop, seed * 1000 + 100 + i, tier["escalate"], "e%d" % i) for i in range(7)], tier["escalate"] * 2 + 120)
    failure = next((r["failure"] for r in runs if r["failure"]), None)
    herr = [e for r in runs for e in r["harness_errors"]] + [r["import_error"] for r in runs if r.get("import_error")]
    viol = []
    def write_replay(d):
        h = hashlib.md5(json.dumps(d, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(OUT, "%s.replay.%s.json" % (prop, h))
        with open(path, "w") as f:
            json.dump(d, f, indent=1, default=str)
        return path
    imp = next((r["import_error"] for r in runs if r.get("import_error")), None)
    if failure:
        path = write_replay(dict(property=prop, what=failure["message"], case=failure["case"], failed_obligations=failed[:20]))
        if replay(path):
            viol.append((path, ""))
            print("%s: %s" % (prop, failure["message"][:1500]))
            for o in failed[:8]:
                print("  failed obligation: %s :: %s" % (o["function"], o["name"]))
        else:
            herr.append("failing case did not reproduce: " + failure["message"][:500])
    if not viol and failed:
        path = write_replay(dict(property=prop, what="obligation not discharged", case=None, failed_obligations=failed))
        viol.append((path, " no-failing-input-found"))
        for o in failed[:8]:
            print("%s: failed obligation: %s :: %s" % (prop, o["function"], o["name"]))
    known = []
    kf = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(kf):
        for l in open(kf):
            l = l.strip()
            if l.startswith("finding:") and ("property=" + prop + " ") in l:
                known.append(l[len("finding:"):].strip())
    for k in known:
        print("KNOWN-FINDING: " + k)
    wall = round(time.time() - t0, 2)
    proved = [f for f in proof["functions"] if not f.get("undecided") and not f.get("failed")]
    level = "proof" if proof["obligations"] else "exploration"
    ev = dict(property=prop, tier=a.tier, seed=seed, level=level, wall_s=wall,
        coverage=dict(
            obligations=proof["obligations"], discharged=proof["discharged"],
            checker_cmd=" ".join(pcmd),
            trusted_base=proof.get("trusted_base", []),
            functions_under_contract=[dict(name=f["name"], obligations=f["obligations"], discharged=f["discharged"], seconds=f.get("time"), status="proved" if f in proved else ("failed" if f.get("failed") else "undecided: " + str(f["undecided"]))) for f in proof["functions"]],
            back_end=proof.get("back_end", "z3"), solver_seconds=proof.get("solver_time", 0),
            prover_error=proof["error"],
            not_proved_parts=proof.get("bounded_parts", []),
            undecided=undecided,
            bounded_stand_in=dict(what="run-time contract checking of the property on the real code, for whatever the proofs leave out",
                evaluations=sum(r["cases"] for r in runs), distinct_nontrivial=sum(r["distinct"] for r in runs),
                rule="random cases of harness/props.py, sized up to a few hundred items and biased by literals of the current source; distinct = different JSON case",
                samples=[s for r in runs for s in r.get("samples", [])][:2], harness_errors=herr[:3])),
        assumptions=proof.get("assumptions", []),
        violations=len(viol), violation_replays=[dict(replay=p, note=n.strip()) for p, n in viol])
    if level == "exploration":
        c = ev["coverage"]
        c.update({k: c["bounded_stand_in"][k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples")})
    with open(os.path.join(EVID, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for path, note in viol:
        print("VIOLATION property=%s replay=%s%s" % (prop, path, note))
    if viol:
        return 1
    if imp:
        # the package does not even import: every property over it fails
        path = write_replay(dict(property=prop, what="import of the package fails", case=None, error=imp))
        print(imp[-1500:])
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        return 1
    print("%s holds: %d/%d obligations discharged over %d functions (%d undecided), %d run-time cases, %.1f s%s" % (prop, proof["discharged"], proof["obligations"], len(proof["functions"]), len(undecided), sum(r["cases"] for r in runs), wall, (" [prover: %s]" % proof["error"].strip().splitlines()[-1]) if proof["error"] else ""))
    if herr and not any(r["cases"] for r in runs) and not proof["discharged"]:
        print("nothing could be evaluated:", herr[0][-800:])
        return 2
    return 0

if __name__ == "__main__":
    sys.exit(main())
