"""Mutation testing of the replay harness (development tool, no check uses it).
usage: mutate.py PROPS FUNC[,FUNC...] [--n N per function] [--jobs J] [--seed S] [--src DIR]
Mutates one token or statement of the given functions in a scratch copy of the sources and runs the harness tests of PROPS. Prints the survivors."""
import sys, os, re, glob, random, subprocess, shutil, argparse, signal
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, "/verif/vf")
ap = argparse.ArgumentParser(); ap.add_argument("props"); ap.add_argument("funcs"); ap.add_argument("--n", type=int, default=12); ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--seed", type=int, default=1); ap.add_argument("--src", default="/repo"); ap.add_argument("--iters", default="4000"); ap.add_argument("--secs", default="5"); ap.add_argument("--tests", default="")
a = ap.parse_args()
os.environ["VF_REPO"] = a.src
import hbuild
W = "/tmp/mut"; os.makedirs(W, exist_ok=True)
base = W + "/base"
b, e = hbuild.build(base)
assert b, e[:2000]
props = a.props.split(",")
if a.tests: tests = a.tests.split(",")
else:
    tests = []
    for f in sorted(glob.glob("/verif/harness/t_*.c")):
        for m in re.finditer(r'TEST\("([^"]*)",\s*(\w+)', open(f).read()):
            if any(p in m.group(1) for p in props): tests.append(m.group(2))
srcs = hbuild.sources()
inc = ["-I" + a.src + "/include", "-I" + a.src + "/c3"] + ["-I" + d for d in sorted(glob.glob(a.src + "/c3/lib_*"))] + ["-I/verif/harness"]
def body(text, fn):
    for m in re.finditer(r"(?m)^[A-Za-z_][^;{}()]*\b%s\s*\(" % re.escape(fn), text):
        i = m.end(); d = 1
        while d and i < len(text): d += {"(": 1, ")": -1}.get(text[i], 0); i += 1
        j = i
        while j < len(text) and text[j] in " \t\n": j += 1
        if j < len(text) and text[j] == "{":
            d = 0; k = j
            while k < len(text):
                d += {"{": 1, "}": -1}.get(text[k], 0); k += 1
                if d == 0: return j + 1, k - 1
    return None
SWAP = {"<": ["<=", ">"], "<=": ["<"], ">": [">=", "<"], ">=": [">"], "==": ["!="], "!=": ["=="], "+": ["-"], "-": ["+"], "*": ["+"], "/": ["*"], "&&": ["||"], "||": ["&&"], "+=": ["-=", "="], "-=": ["+="], "*=": ["="], "++": ["--"]}
TOK = re.compile(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"])*\"|'(?:\\.|[^'])*'|[A-Za-z_]\w*|\d+\.?\d*(?:[eE][+-]?\d+)?|->|\+\+|--|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|[-+*/<>=!&|%^~?:;,.(){}\[\]]|\s+", re.S)
def mutants(text, lo, hi, rnd):
    toks = [(m.start() + lo, m.group(0)) for m in TOK.finditer(text[lo:hi])]
    toks = [t for t in toks if not t[1].startswith(("//", "/*")) and not t[1].isspace()]
    idents = sorted({t[1] for t in toks if re.match(r"[a-z_]\w*$", t[1]) and t[1] not in KW})
    locs = [t for t in idents if re.search(r"\b(size_t|double|int)\s*\*?\s*(\w+\s*(=[^;]*)?,\s*)*%s\b" % t, text[lo - 400 if lo > 400 else 0:hi])]
    out = []
    skip = -1
    for i, (p, t) in enumerate(toks):
        if t in ("assert", "printf", "fprintf") or "print" in t or t == "exit": skip = text.index(";", p)
        if p < skip: continue
        nxt = toks[i + 1][1] if i + 1 < len(toks) else ""; prv = toks[i - 1][1] if i else ""
        if t in SWAP:
            if t == "*" and (prv in ("double", "size_t", "int", "(", ",", "=", "char", "void", "*", "return") or nxt in (")", ",", "*") or re.match(r"[A-Z]", prv) or (i > 1 and toks[i - 2][1] == "struct")): continue
            if t in "+-" and prv in ("(", ",", "=", "return", "<", ">", "=="): continue
            for r in SWAP[t]: out.append((p, len(t), r))
        elif re.match(r"\d+$", t): out.append((p, len(t), str(int(t) + 1))); out += [(p, len(t), "0")] if t == "1" else []
        elif re.match(r"\d+\.\d*$", t): out.append((p, len(t), "0.5" if float(t) != 0.5 else "1.0"))
        elif t in locs and nxt != "=" and prv not in ("size_t", "double", "int", "*"):
            o = [x for x in locs if x != t]
            if o: out.append((p, len(t), rnd.choice(o)))
    # statement deletion
    for m in re.finditer(r"(?<=[;{}])(\s*)([^;{}]+;)", text[lo:hi]):
        s = m.group(2).strip()
        if re.match(r"(return|size_t|double|int|struct|enum|const|char|break|void|assert|exit|free|printf|fprintf|for|if|else|switch|case)\b", s) or s.startswith("//"): continue
        out.append((m.start(2) + lo, len(m.group(2)), ";"))
    return out
KW = set("if else for while return size_t double int struct const void char NULL sizeof switch case break default do enum static malloc calloc free exit memmove memcpy stderr stdout".split())
def run(job):
    n, f, fn, text, mu = job
    d = W + "/m%d" % n; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    t2 = text[:mu[0]] + mu[2] + text[mu[0] + mu[1]:]
    ln = text.count("\n", 0, mu[0]) + 1
    desc = "%s:%d %s: `%s` -> `%s`   | %s" % (os.path.basename(f), ln, fn, text[mu[0]:mu[0] + mu[1]], mu[2], text.split("\n")[ln - 1].strip()[:110])
    src = d + "/" + os.path.basename(f); open(src, "w").write(t2)
    o = d + "/x.o"
    r = subprocess.run(["gcc", "-O1", "-g", "-w", "-std=gnu99", "-fsanitize=address", "-fno-omit-frame-pointer", "-I" + os.path.dirname(f)] + inc + ["-c", src, "-o", o], capture_output=True, text=True)
    if r.returncode: shutil.rmtree(d); return None
    objs = [x for x in glob.glob(base + "/*.o") if os.path.basename(x) != os.path.relpath(f, "/").replace("/", "_") + ".o"]
    r = subprocess.run(["gcc", "-fsanitize=address", "-o", d + "/h", o] + objs + ["-Wl,--unresolved-symbols=ignore-all", "-llapack", "-lblas", "-lm"], capture_output=True, text=True)
    if r.returncode: shutil.rmtree(d); return None
    env = dict(hbuild.ENV, H_SECS=a.secs); killed = None
    for t in tests:
        p = subprocess.Popen([d + "/h", "test:" + t, "1", a.iters], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, text=True, errors="replace", start_new_session=True, cwd=d)
        try: out = p.communicate(timeout=float(a.secs) * 4 + 40)[0]
        except subprocess.TimeoutExpired: os.killpg(p.pid, signal.SIGKILL); p.wait(); killed = t; break
        if "FAIL" in out or "ok " not in out: killed = t; break
    shutil.rmtree(d)
    return desc, killed
jobs = []; n = 0
for fn in a.funcs.split(","):
    for f in srcs:
        text = TOK.sub(lambda m: re.sub(r"[^\n]", " ", m.group(0)) if m.group(0).startswith(("/*", "//")) else m.group(0), open(f, errors="replace").read())
        r = body(text, fn)
        if r:
            rnd = random.Random(a.seed * 1000 + len(fn))
            ms = mutants(text, r[0], r[1], rnd); rnd.shuffle(ms)
            for mu in ms[:a.n]: jobs.append((n, f, fn, text, mu)); n += 1
            break
    else: print("not found:", fn)
tot = 0; surv = []
with ThreadPoolExecutor(a.jobs) as ex:
    for r in ex.map(run, jobs):
        if r is None: continue
        tot += 1
        if r[1] is None: surv.append(r[0]); print("SURVIVOR", r[0], flush=True)
print("%d mutants, %d survivors" % (tot, len(surv)))
