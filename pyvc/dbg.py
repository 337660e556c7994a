"""python -m pyvc.dbg MODULE CLASS : verify one contract verbosely"""
import sys, time, importlib
from . import smt, models
from .source import Program
from .exec import Exec, Deadline
from .values import Unsupported

def main():
    m = importlib.import_module("pyvc.contracts." + sys.argv[1])
    prog = Program()
    from .main import load
    cons = {}
    for c in load():
        if c.target and not getattr(c, "leaf", False):
            cons.setdefault(c.target, c)
    for c in m.CONTRACTS:
        if len(sys.argv) > 2 and sys.argv[2] not in (type(c).__name__, getattr(c, "label", None)) and sys.argv[2] not in "-":
            continue
        t0 = time.time()
        smt.reset()
        ex = Exec(prog, cons, models.MODELS, models.EXTS, timeout=10.0, deadline=time.time() + float(__import__("os").environ.get("LIMIT", "300")))
        ex.verbose = "-v" in sys.argv
        f = prog.function(c.target)
        try:
            ex.verify(c, f)
            for nm, facts, goal in c.lemmas(ex):
                r = smt.check(facts, goal, (), 10.0)
                from .exec import Obligation
                ex.obls.append(Obligation("lemma " + nm, r.status, "", 0))
        except Unsupported as e:
            if "-t" in sys.argv:
                import traceback; traceback.print_exc()
            print("UNSUPPORTED", type(e).__name__, e)
        for o in ex.obls:
            print("  %-8s %5.2fs %s %s" % (o.status, o.time, o.name, o.detail[:400] if o.status != "valid" else ""))
        print("%s: %d obligations, %.1f s; inlined %s; applied %s" % (getattr(c, "label", None) or c.target, len(ex.obls), time.time() - t0, sorted(ex.inlined) if "-i" in sys.argv else len(ex.inlined), sorted(ex.applied) if "-i" in sys.argv else len(ex.applied)))
main()
