import sys, time, importlib, traceback, glob, os
if os.environ.get("PYTHONHASHSEED") != "0": os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)   # same queries in the same order on every run
sys.path.insert(0, "/verif/vf"); sys.path.insert(0, "/verif/contracts")
import ir
from engine import *
import dsl
from multiprocessing import Pool
def one(a):
    lay, n, verbose = a
    t = time.time()
    e = Engine(prog, dsl.REG[lay], verbose=verbose, budget=300)
    dsl.CUR[0] = e
    out = []
    try:
        o = e.verify(n)
        bad = [x for x in o if not x.ok]
        out.append("%-8s %-40s %s %d obligations, %d failed, %.1fs rets=%d" % (lay, n, "OK  " if not bad else "FAIL", len(o), len(bad), time.time() - t, e.reach))
        for x in bad: out.append("     FAIL %s %s %s %s" % (x.label, x.kind, x.line, x.backend))
    except (Unsupported, Budget) as ex:
        out.append("%-8s %-40s FAIL %s: %s (%.1fs)" % (lay, n, type(ex).__name__, ex, time.time() - t))
        if verbose: traceback.print_exc()
    except Exception as ex:
        out.append("%-8s %-40s FAIL CRASH %s" % (lay, n, traceback.format_exc()[-600:]))
    return "\n".join(out)
def main():
    global prog
    names = sys.argv[1:]
    verbose = "-v" in names
    names = [n for n in names if n != "-v"]
    prog = ir.load_program()
    for f in sorted(glob.glob("/verif/contracts/c_*.py")): importlib.import_module(os.path.basename(f)[:-3])
    jobs = []
    for lay, d in dsl.REG.items():
        for k, c in d.items():
            if c.trusted: continue
            if names and not any(k == n or (n.endswith("*") and k.startswith(n[:-1])) or n == lay or n in c.prop for n in names): continue
            jobs.append((lay, k, verbose))
    if verbose or len(jobs) == 1:
        for j in jobs: print(one(j), flush=True)
    else:
        with Pool(8, maxtasksperchild=1) as p:
            for r in p.imap_unordered(one, jobs, 1): print(r, flush=True)
if __name__ == "__main__": main()
