#!/usr/bin/env python3
"""usage: runseeds.py [-j N] [ids...]  -- applies each seeded patch to a scratch copy of /repo and runs that property's quick check against it"""
import sys, os, json, subprocess, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
j = 2
if args[:1] == ["-j"]:
    j = int(args[1]); args = args[2:]
ids = args or sorted(os.listdir(V + "/seeded"))
def one(i):
    d = tempfile.mkdtemp(prefix="seed_", dir="/tmp/p")
    try:
        subprocess.run(["cp", "-a", "/repo/src", d + "/src"], check=True)
        r = subprocess.run(["git", "apply", "--unsafe-paths", "-p1", V + "/seeded/%s/patch.diff" % i], cwd=d, capture_output=True, text=True)
        if r.returncode:
            return i, "does not apply: " + r.stderr
        prop = json.load(open(V + "/seeded/%s/meta.json" % i))["property"]
        v = d + "/verif"
        subprocess.run("mkdir -p %s && cd %s && git ls-files -co --exclude-standard | grep -v ^seeded/ | tar -cf - -T - | tar -xf - -C %s" % (v, V, v), shell=True)
        r = subprocess.run(["python3", v + "/check.py", prop, "--tier", "quick"], cwd=v, env=dict(os.environ, VERIF_REPO=d, VERIF_SEED="1"), capture_output=True, text=True, timeout=900)
        out = [l for l in r.stdout.splitlines() if l.strip()]
        res = "caught" if r.returncode == 1 and any(l.startswith("VIOLATION property=" + prop) for l in out) else "MISSED rc=%d" % r.returncode
        nf = any("no-failing-input-found" in l for l in out)
        ob = [l.strip()[:150] for l in out if "failed obligation" in l][:3]
        return i, "%s %s%s\n      %s\n      %s" % (prop, res, " (no failing input)" if nf else "", out[0][:160] if out else "", "\n      ".join(ob))
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(j) as ex:
    for i, r in ex.map(one, ids):
        print(i, r, flush=True)
