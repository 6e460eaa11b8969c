"""check.py PROPERTY [--tier quick|thorough]
Decides one property: (1) every obligation of every contract of the property, generated from /repo's current source, is discharged by
the deductive verifier; (2) a replay harness executes the real code on generated inputs against the same specification: it supplies the
concrete failing input when an obligation fails, and is the (bounded) stand-in for the listed functions that have no contract."""
import sys, os, time, json, glob, importlib, traceback, subprocess, tempfile, shutil, argparse, signal
if os.environ.get("PYTHONHASHSEED") != "0": os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)   # same queries in the same order on every run
sys.path.insert(0, "/verif/vf"); sys.path.insert(0, "/verif/contracts")
T0 = time.time()
import hbuild, ir
from engine import *
import dsl, smt
import multiprocessing as mp
from concurrent.futures import ThreadPoolExecutor
V = "/verif"

def work(a):
    lay, n, budget, ms = a
    t = time.time()
    r = {"layer": lay, "fn": n, "obls": [], "error": None}
    smt.STATS.update({k: 0 for k in smt.STATS})
    e = Engine(PROG, dsl.REG[lay], budget=budget)
    e.msx = ms
    dsl.CUR[0] = e
    try:
        e.verify(n)
    except (Unsupported, Budget) as ex: r["error"] = "%s: %s" % (type(ex).__name__, ex)
    except Exception as ex: r["error"] = "engine error: " + traceback.format_exc()[-800:]
    r["obls"] = [o.d() for o in e.obls]
    r["wall"] = round(time.time() - t, 2); r["solver_s"] = round(smt.STATS["time"], 2); r["queries"] = smt.STATS["queries"]
    r["inv"] = getattr(e, "invcount", 0); r["used"] = sorted(e.used_contracts)
    return r
def failed(r): return bool(r["error"]) or any(not o["ok"] for o in r["obls"]) or not r["obls"]

def run_proofs(jobs, limit):
    """limit: absolute time"""
    res = []
    if not jobs: return res
    ctx = mp.get_context("fork")
    pool = ctx.Pool(min(8, len(jobs)), maxtasksperchild=1)
    try:
        pend = {i: pool.apply_async(work, (j,)) for i, j in enumerate(jobs)}
        while pend:
            for i in list(pend):
                if pend[i].ready():
                    try: res.append(pend.pop(i).get())
                    except Exception as ex: res.append({"layer": jobs[i][0], "fn": jobs[i][1], "obls": [], "error": "engine error: %s" % ex, "wall": 0, "solver_s": 0, "queries": 0, "inv": 0})
            if time.time() > limit:
                for i in pend: res.append({"layer": jobs[i][0], "fn": jobs[i][1], "obls": [], "error": "time limit of the check reached before all obligations were discharged", "wall": 0, "solver_s": 0, "queries": 0, "inv": 0})
                break
            time.sleep(0.05)
    finally:
        pool.terminate(); pool.join()
    return res

def run_harness(binary, prop, seed, iters, secs, only=None):
    """runs the tests of the property, in parallel; -> list of {test, cases, fail}"""
    l = subprocess.run([binary, "--list", prop], capture_output=True, text=True, env=hbuild.ENV).stdout.split()
    env = dict(hbuild.ENV, H_SECS=str(secs))
    def one(t):
        p = subprocess.Popen([binary, "test:" + t, str(seed), str(iters)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True, errors="replace", start_new_session=True, cwd=os.path.dirname(binary))
        try: out = p.communicate(timeout=max(60, secs * 4 + 60))[0]
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL); p.wait()
            return {"test": t, "cases": 0, "fail": "FAIL test=%s: no answer" % t}
        f = [x for x in out.split("\n") if x.startswith("FAIL")]
        n = [int(x.split()[2]) for x in out.split("\n") if x.startswith("ok ")]
        if not f and not n: f = ["FAIL test=%s: harness died: %s" % (t, out[-300:])]
        return {"test": t, "cases": sum(n), "fail": f[0] if f else None}
    with ThreadPoolExecutor(8) as ex: return list(ex.map(one, l))

def main():
    global PROG
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--no-proof", action="store_true"); ap.add_argument("--no-harness", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(V + "/evidence/replay", exist_ok=True)
    scratch = tempfile.mkdtemp(prefix="vf_%s_" % prop)
    try: rc = decide(prop, tier, thorough, seed, scratch, a)
    finally: shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)

def decide(prop, tier, thorough, seed, scratch, a):
    global PROG
    # ---- replay harness, built from the current tree
    harness = []; binary = None; herr = ""
    if not a.no_harness:
        binary, herr = hbuild.build(scratch)
        if binary: harness = run_harness(binary, prop, seed, 500000 if thorough else 20000, 90 if thorough else 15)
    hfail = [h for h in harness if h["fail"]]
    # ---- proofs
    PROG = ir.load_program()
    for f in sorted(glob.glob(V + "/contracts/c_*.py")): importlib.import_module(os.path.basename(f)[:-3])
    jobs = []; relied = {}; trusted = set(); absent = []
    for lay, d in dsl.REG.items():
        for n, c in d.items():
            if c.trusted or prop not in c.prop: continue
            if PROG.find(n) is None and c.optional: absent.append(n); continue
            jobs.append((lay, n, 400 if thorough else 200, 1))
    if a.no_proof: jobs = []
    start = time.time()
    limit = start + (3000 if thorough else (150 if hfail else 330))
    jobs.sort(key=lambda j: -dsl.REG[j[0]][j[1]].cost)
    res = run_proofs(jobs, limit)
    bad = [r for r in res if failed(r)]
    if bad and not hfail:                      # once more, with longer solver limits
        again = run_proofs([(r["layer"], r["fn"], 240, 3) for r in bad], time.time() + (1200 if thorough else 200))
        ok = {(r["layer"], r["fn"]): r for r in again if not failed(r)}
        res = [ok.get((r["layer"], r["fn"]), r) for r in res]
        bad = [r for r in res if failed(r)]
    deep = []
    if bad and not hfail and binary:           # search for a concrete failing input
        for k in range(2):
            deep = run_harness(binary, prop, seed + 1000 + k, 10**7, 25)
            hfail = [h for h in deep if h["fail"]]
            if hfail: break
    # ---- what the proofs rely on
    for r in res:
        for g in r.get("used", ()):
            c = dsl.REG[r["layer"]].get(g)
            if c is None: continue
            if c.trusted: trusted.add("%s: assumed contract%s" % (g, " (%s)" % c.why if c.why else ""))
            elif prop not in c.prop: relied[g] = list(c.prop)
    # ---- known findings
    kf = [l.strip() for l in open(V + "/known_findings.txt")] if os.path.exists(V + "/known_findings.txt") else []
    for l in kf:
        if l.startswith("known: property=%s " % prop):
            rest = l[len("known: property=%s " % prop):]
            t, what = rest.split(" ", 1)
            t = t.split("=", 1)[1]
            if binary:
                r = subprocess.run([binary, "test:" + t, str(seed), "20"], capture_output=True, text=True, errors="replace", env=hbuild.ENV, cwd=scratch)
                if r.returncode: print("KNOWN-FINDING: property=%s %s" % (prop, what))
    # ---- verdict
    obl = sum(len(r["obls"]) + (1 if r["error"] else 0) for r in res)
    dis = sum(1 for r in res for o in r["obls"] if o["ok"])
    viol = 0; out = []
    if herr:
        viol = 1; rp = V + "/evidence/replay/%s.json" % prop
        json.dump({"property": prop, "kind": "the current tree does not compile with the harness", "output": herr[-6000:]}, open(rp, "w"), indent=1)
        out.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    elif hfail:
        viol = len(hfail); rp = V + "/evidence/replay/%s.json" % prop
        json.dump({"property": prop, "kind": "concrete failing input", "failures": [h["fail"] for h in hfail],
                   "replay_cmd": "python3-vt /verif/vf/replay.py " + rp,
                   "failed_obligations": [{"function": r["fn"], "error": r["error"], "obligations": [o for o in r["obls"] if not o["ok"]]} for r in bad]}, open(rp, "w"), indent=1)
        for h in hfail: out.append("  " + h["fail"][:400])
        out.append("VIOLATION property=%s replay=%s" % (prop, rp))
    elif bad:
        viol = len(bad); rp = V + "/evidence/replay/%s.json" % prop
        json.dump({"property": prop, "kind": "failed obligations, no failing input found",
                   "failed_obligations": [{"function": r["fn"], "error": r["error"], "obligations": [o for o in r["obls"] if not o["ok"]]} for r in bad]}, open(rp, "w"), indent=1)
        for r in bad:
            out.append("  obligation failed in %s: %s" % (r["fn"], r["error"] or "; ".join("%s (line %s, %s)" % (o["label"], o["line"], o["backend"]) for o in r["obls"] if not o["ok"])[:600]))
        out.append("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
    be = {}
    for r in res:
        for o in r["obls"]:
            if o["ok"]: be[o["backend"]] = be.get(o["backend"], 0) + 1
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "proof", "wall_s": round(time.time() - T0, 1), "violations": viol,
          "assumptions": ASSUME,
          "coverage": {"obligations": obl, "discharged": dis, "checker_cmd": "python3-vt /verif/vf/check.py %s --tier %s" % (prop, tier),
            "trusted_base": sorted(trusted) + ["callee contract discharged by another check: %s (%s)" % (g, ", ".join(p)) for g, p in sorted(relied.items())] + BASE,
            "functions_under_contract": [{"function": r["fn"], "layer": r["layer"], "obligations": len(r["obls"]), "discharged": sum(1 for o in r["obls"] if o["ok"]), "inferred_loop_invariants": r["inv"], "wall_s": r["wall"], "solver_s": r["solver_s"], "queries": r["queries"], "error": r["error"]} for r in sorted(res, key=lambda r: r["fn"])],
            "absent_optional": absent,
            "backends": be, "solver_s": round(sum(r["solver_s"] for r in res), 1), "queries": sum(r["queries"] for r in res),
            "bounded_replay": {"label": "bounded, not counted as proved", "tests": len(harness), "cases": sum(h["cases"] for h in harness + deep), "per_test": {h["test"]: h["cases"] for h in harness}}}}
    json.dump(ev, open(V + "/evidence/%s.json" % prop, "w"), indent=1)
    print("%s: %d/%d obligations discharged in %d functions, %d replay tests (%d cases), %.0f s" % (prop, dis, obl, len(res), len(harness), sum(h["cases"] for h in harness), time.time() - T0))
    for l in out: print(l)
    if not viol and (not jobs and not a.no_proof): print("no contracts for " + prop)
    return 1 if viol else 0

def callees(fn, seen):
    out = set()
    for b in fn.order:
        for x in fn.blocks[b]:
            if x.op == "call" and x.x.k == "g" and x.x.v not in seen:
                seen.add(x.x.v); out.add(x.x.v)
                if not any(x.x.v in d for d in dsl.REG.values()):
                    g = PROG.find(x.x.v, fn.module)
                    if g is not None: out |= callees(g, seen)
    return out
ASSUME = ["malloc and calloc succeed (the code exits otherwise)", "partial correctness: termination is not proved",
          "double arithmetic is treated as exact real arithmetic; no NaN, no overflow, no rounding",
          "size_t sums and products do not wrap; subtraction wraps exactly",
          "arguments point to the start of their object unless the contract says interior",
          "printf-family and assert-failure calls do not change the heap; a failing assert or exit() ends the run (no claim about it)"]
BASE = ["the verifier of /verif/vf (LLVM IR semantics, VC generation)", "clang 18 -O0 front end (C to LLVM IR)", "z3 / cvc5", "the compiler and optimiser used for the production build"]
if __name__ == "__main__": main()
