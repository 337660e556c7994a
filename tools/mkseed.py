#!/usr/bin/env python3
"""Make the planted changes of /verif/seeded from the list in seedlist.py; each is confirmed in a scratch copy.
usage: mkseed.py [id ...]"""
import os, sys, json, subprocess, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seedlist import SEEDS, COMMON
OUT = os.path.join(os.path.dirname(HERE), "seeded")
BASE = json.load(open("/opt/vp/BASELINE.json"))

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)

def main():
    want = sys.argv[1:]
    for s in SEEDS:
        if want and s["id"] not in want:
            continue
        d = os.path.join(OUT, s["id"])
        tmp = tempfile.mkdtemp(prefix="seed", dir="/tmp")
        wt = os.path.join(tmp, "repo")
        try:
            sh("cp -a /repo %s" % wt, "/")
            ok = True
            for f, old, new in s["edits"]:
                p = os.path.join(wt, f)
                t = open(p).read()
                if t.count(old) != s.get("count", 1):
                    print(s["id"], "EDIT does not match once:", t.count(old), repr(old[:60])); ok = False; break
                open(p, "w").write(t.replace(old, new))
            if not ok:
                continue
            os.makedirs(d, exist_ok=True)
            open(os.path.join(d, "patch.diff"), "w").write(sh("git diff", wt).stdout)
            open(os.path.join(d, "demo.py"), "w").write(COMMON + s["demo"])
            open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nD="$(cd "$(dirname "$0")" && pwd)"\nexport PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1\nPY=/opt/venv/bin/python\n[ -x "$PY" ] || PY=python3\nexec "$PY" "$D/demo.py"\n')
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
            a = sh("bash %s/demo.sh" % d, "/repo", timeout=300)
            b = sh("bash %s/demo.sh" % d, wt, timeout=300)
            # tests
            t = sh("PYTHONPATH=%s/src PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -x ve/unit 2>&1 | tail -3" % wt, wt, timeout=300)
            print("%-6s %s clean=%d planted=%d tests=%s" % (s["id"], s["property"], a.returncode, b.returncode, t.stdout.strip().splitlines()[-1:] ), "" if a.returncode == 0 and b.returncode else "BAD " + a.stderr[-400:] + b.stdout[-300:])
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
main()
