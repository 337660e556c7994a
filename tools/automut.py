#!/usr/bin/env python3
"""automut.py OUT.jsonl [--jobs N] [--only FILE_SUBSTR] : mutate the code under contract and see which side notices.
A mutant is one small syntactic change; for each the properties of its file are checked by the prover and by the run-time side."""
import sys, os, ast, json, subprocess, shutil, tempfile, random, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/ucis/"
FILES = {
 "merge/db_merger.py": "C01 C02 C03 C04", "report/coverage_report_builder.py": "C05 C06 C07", "report/coverage_report.py": "C05 C07",
 "report/format_rpt_text.py": "C14", "report/format_rpt_json.py": "C15",
 "xml/xml_writer.py": "C09 C11 C13", "xml/xml_reader.py": "C10 C09 C13", "xml/xml_factory.py": "C09 C16", "xml/__init__.py": "C11 C16 C13",
 "xml/db_format_if_xml.py": "C16", "yaml/yaml_reader.py": "C12", "yaml/db_format_if_yaml.py": "C16", "yaml/yaml_ucis.py": "C16",
 "cmd/cmd_merge.py": "C16", "cmd/cmd_convert.py": "C16", "cmd/cmd_report.py": "C16", "rgy/format_rgy.py": "C16", "rgy/format_if_db.py": "C16", "rgy/format_if_rpt.py": "C16", "__main__.py": "C16",
 "mem/mem_scope.py": "C08 C17 C01", "mem/mem_ucis.py": "C08 C17 C13", "mem/mem_covergroup.py": "C08 C17", "mem/mem_instance_scope.py": "C08 C17", "mem/mem_cvg_scope.py": "C08 C17", "mem/mem_coverpoint.py": "C08 C17", "mem/mem_cross.py": "C08 C03",
 "mem/mem_scope_iterator.py": "C08", "mem/mem_cover_index_iterator.py": "C08 C05", "mem/mem_history_node_iterator.py": "C08", "mem/mem_cover_index.py": "C08 C01", "mem/mem_history_node.py": "C13 C17", "mem/mem_obj.py": "C17 C08", "mem/mem_du_scope.py": "C08",
 "mem/mem_file_handle.py": "C08 C11", "mem/mem_factory.py": "C16 C08",
 "scope.py": "C08 C17", "obj.py": "C17", "coverpoint.py": "C05 C17 C01", "cvg_scope.py": "C17", "covergroup.py": "C08 C17", "cross.py": "C08", "history_node.py": "C13 C17", "ucis.py": "C08 C17", "cover_data.py": "C08 C01", "source_info.py": "C11 C08", "test_data.py": "C13", "__init__.py": "C18", "func_cov_scope.py": "C08 C17", "cov_scope.py": "C08 C17", "du_scope.py": "C08",
 "report/text_coverage_report_formatter.py": "C14", "report/coverage_report_formatter.py": "C14",
}
OPS = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}

def mutants(path):
    text = open(path).read()
    lines = text.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = text.encode()
    pos = lambda ln, col: off[ln - 1] + col
    seg = lambda n: b[pos(n.lineno, n.col_offset):pos(n.end_lineno, n.end_col_offset)].decode()
    def rep(n, new, what):
        s, e = pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
        return (n.lineno, what + ": " + seg(n).strip().split("\n")[0][:60] + " -> " + new.split("\n")[0][:60], b[:s] + new.encode() + b[e:])
    tree = ast.parse(text)
    out = []
    skip = set()
    for fn in ast.walk(tree):
        if not isinstance(fn, (ast.FunctionDef,)):
            continue
        for a in list(ast.walk(fn.args)):
            skip.add(id(a))
        for d in fn.decorator_list:
            for a in ast.walk(d):
                skip.add(id(a))
        if fn.returns:
            for a in ast.walk(fn.returns):
                skip.add(id(a))
        if fn.body and isinstance(fn.body[0], ast.Expr) and isinstance(fn.body[0].value, ast.Constant):
            skip.add(id(fn.body[0])); skip.add(id(fn.body[0].value))
        for n in ast.walk(fn):
            if isinstance(n, ast.AnnAssign):
                for a in ast.walk(n.annotation):
                    skip.add(id(a))
    for fn in [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)]:
        for n in ast.walk(fn):
            if id(n) in skip:
                continue
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                t = OPS.get(type(n.ops[0]))
                if t:
                    out.append(rep(n, "%s %s %s" % (seg(n.left), t, seg(n.comparators[0])), "cmp"))
                    if t in ("<", "<=", ">", ">="):
                        out.append(rep(n, "(not (%s))" % seg(n), "neg"))
            elif isinstance(n, ast.BoolOp):
                w = " or " if isinstance(n.op, ast.And) else " and "
                out.append(rep(n, "(" + w.join(seg(v) for v in n.values) + ")", "bool"))
                for i in range(len(n.values)):
                    out.append(rep(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join("(%s)" % seg(v) for j, v in enumerate(n.values) if j != i) + ")", "dropcond"))
            elif isinstance(n, ast.Constant) and not isinstance(n.value, (type(None), type(...))):
                v = n.value
                if v is True or v is False:
                    out.append(rep(n, str(not v), "const"))
                elif isinstance(v, int):
                    out.append(rep(n, str(v + 1), "const"))
                elif isinstance(v, str):
                    out.append(rep(n, repr(v + "_"), "const"))
            elif isinstance(n, ast.BinOp) and not isinstance(n.left, ast.Constant):
                t = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.BitOr: "&", ast.BitAnd: "|"}.get(type(n.op))
                if t:
                    out.append(rep(n, "%s %s %s" % (seg(n.left), t, seg(n.right)), "arith"))
            elif isinstance(n, ast.AugAssign) and isinstance(n.op, (ast.Add, ast.Sub)):
                out.append(rep(n, "%s = %s" % (seg(n.target), seg(n.value)), "aug"))
                out.append(rep(n, "pass", "del"))
            elif isinstance(n, (ast.Expr, ast.Assign, ast.Raise, ast.Break, ast.Continue, ast.Delete)) or (isinstance(n, ast.AnnAssign) and n.value):
                if isinstance(n, ast.Break):
                    out.append(rep(n, "continue", "brk"))
                out.append(rep(n, "pass", "del"))
            elif isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                out.append(rep(n, "return None", "ret"))
            elif isinstance(n, ast.If):
                out.append(rep(n.test, "(not (%s))" % seg(n.test), "if"))
                out.append(rep(n.test, "True", "ifT"))
                out.append(rep(n.test, "False", "ifF"))
            elif isinstance(n, ast.IfExp):
                out.append(rep(n, seg(n.body), "ifexp"))
                out.append(rep(n, seg(n.orelse), "ifexp"))
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                out.append(rep(n, seg(n.operand), "not"))
            if isinstance(n, ast.Call):
                a = [x for x in n.args if not isinstance(x, ast.Starred)]
                for i in range(len(a) - 1):
                    if seg(a[i]) != seg(a[i + 1]):
                        s, e = pos(a[i].lineno, a[i].col_offset), pos(a[i + 1].end_lineno, a[i + 1].end_col_offset)
                        out.append((n.lineno, "swap: " + seg(n).split("\n")[0][:70] + " args %d,%d" % (i, i + 1), b[:s] + ("%s, %s" % (seg(a[i + 1]), seg(a[i]))).encode() + b[e:]))
    seen, res = set(), []
    for ln, what, new in out:
        if new in seen or new == b:
            continue
        seen.add(new)
        try:
            compile(new, path, "exec")
        except SyntaxError:
            continue
        res.append((ln, what, new))
    return res

def run(job):
    f, ln, what, new, props, secs = job
    d = tempfile.mkdtemp(prefix="am", dir="/tmp/p")
    r = dict(file=f, line=ln, what=what, props=props, proof={}, run={}, undecided={})
    try:
        shutil.copytree("/repo/src", d + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        open(d + "/src/ucis/" + f, "wb").write(new)
        env = dict(os.environ, VERIF_REPO=d, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        for p in props:
            o = d + "/o.json"
            try:
                subprocess.run(["/opt/veriftools/pyvenv/bin/python", "-m", "pyvc.main", p, "--out", o, "--jobs", "1", "--limit", "120"], cwd=V, env=env, capture_output=True, timeout=200)
                q = json.load(open(o))
                fl = [x["name"] for y in q["functions"] for x in y["failed"]]
                un = [(y["name"].split(".")[-1], str(y["undecided"])[:200]) for y in q["functions"] if y["undecided"]]
                r["proof"][p] = fl[:2]
                if un:
                    r["undecided"][p] = un
                os.unlink(o)
            except Exception as e:
                r["undecided"][p] = [("prover", str(e)[-200:])]
            try:
                subprocess.run(["/opt/venv/bin/python", V + "/harness/run.py", p, "--seconds", str(secs), "--out", o], cwd=d, env=env, capture_output=True, timeout=secs * 3 + 60)
                q = json.load(open(o))
                r["run"][p] = (q["failure"] or {}).get("message", "")[:200] if q["failure"] else (("IMPORT" if q.get("import_error") else "") or (("HARNESS " + q["harness_errors"][0][-300:]) if q["harness_errors"] else ""))
                os.unlink(o)
            except subprocess.TimeoutExpired:
                r["run"][p] = "TIMEOUT"
            except Exception as e:
                r["run"][p] = "HARNESS died " + str(e)[:100]
            if any(r["proof"].values()) and any(r["run"].values()):
                break
        r["det_proof"] = any(r["proof"].values())
        r["det_run"] = any(v and not v.startswith("HARNESS") for v in r["run"].values())
        if not r["det_run"]:
            env2 = dict(env, PYTHONPATH=d + "/src", PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
            shutil.copytree("/repo/ve/unit", d + "/ve/unit")
            x = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--rootdir=" + d, "-x"] , cwd=d + "/ve/unit", env=env2, capture_output=True, text=True, timeout=120)
            r["tests"] = x.stdout.strip().splitlines()[-1][:80] if x.stdout.strip() else "?"
    except Exception as e:
        r["error"] = str(e)[:300]
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return r

ap = argparse.ArgumentParser()
ap.add_argument("out"); ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--only", default=""); ap.add_argument("--secs", type=float, default=5)
ap.add_argument("--sample", type=float, default=1.0); ap.add_argument("--count", action="store_true")
a = ap.parse_args()
jobs = []
rnd = random.Random(5)
for f, props in FILES.items():
    if a.only and a.only not in f:
        continue
    if not os.path.exists(SRC + f):
        print("no", f); continue
    m = mutants(SRC + f)
    m = [x for x in m if rnd.random() < a.sample]
    print(f, len(m))
    jobs += [(f, ln, w, new, props.split(), a.secs) for ln, w, new in m]
print(len(jobs))
if not a.count:
    with open(a.out, "a") as o, ThreadPoolExecutor(a.jobs) as ex:
        for r in ex.map(run, jobs):
            o.write(json.dumps(r) + "\n"); o.flush()
