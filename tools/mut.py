"""mut.py PROP file:::old:::new ... : run the prover on a copy of /repo/src with one replacement each (engine self test)"""
import sys, os, shutil, subprocess, json, tempfile
prop = sys.argv[1]
for spec in sys.argv[2:]:
    f, old, new = spec.split(":::")
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    shutil.copytree("/repo/src", d + "/src")
    p = os.path.join(d, "src", f)
    s = open(p).read()
    old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
    assert old in s, (f, old)
    open(p, "w").write(s.replace(old, new, 1))
    out = d + "/o.json"
    subprocess.run(["/opt/veriftools/pyvenv/bin/python", "-m", "pyvc.main", prop, "--out", out, "--jobs", "8"], cwd="/verif", env=dict(os.environ, VERIF_REPO=d))
    r = json.load(open(out))
    fl = [o["name"] for x in r["functions"] for o in x["failed"]]
    un = [(x["name"].split(".")[-1], x["undecided"][:150]) for x in r["functions"] if x["undecided"]]
    print("%-60s -> %s | %s" % (new.strip()[:60], "FAILED %d: %s" % (len(fl), fl[0]) if fl else "no failed obligation", un))
    shutil.rmtree(d)
