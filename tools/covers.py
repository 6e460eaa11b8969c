"""Rewrites the generated section of DESIGN.md: which functions are under contract, which contracts are assumed, which replay tests stand in."""
import sys, os, glob, importlib, re
if os.environ.get("PYTHONHASHSEED") != "0": os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, "/verif/vf"); sys.path.insert(0, "/verif/contracts")
import ir, dsl
for f in sorted(glob.glob("/verif/contracts/c_*.py")): importlib.import_module(os.path.basename(f)[:-3])
tests = {}
for f in sorted(glob.glob("/verif/harness/t_*.c")):
    for m in re.finditer(r'TEST\("([^"]*)",\s*(\w+)\)', open(f).read()):
        for p in re.split(r"[ ,]+", m.group(1)): tests.setdefault(p, []).append(m.group(2))
out = []
props = sorted({p for d in dsl.REG.values() for c in d.values() for p in c.prop} | set(tests))
for p in props:
    fs = {}
    for lay, d in dsl.REG.items():
        for k, c in d.items():
            if p in c.prop and not c.trusted: fs.setdefault(lay, []).append(k)
    out.append("**%s** under contract: %s." % (p, "; ".join("layer `%s`: %s" % (l, ", ".join(sorted(v))) for l, v in sorted(fs.items())) or "none"))
    out.append("Replay tests (bounded): %s.\n" % (", ".join(tests.get(p, [])) or "none"))
out.append("Assumed contracts by layer:\n")
for lay, d in sorted(dsl.REG.items()):
    tr = sorted("%s (%s)" % (k, c.why) if c.why else k for k, c in d.items() if c.trusted)
    if tr: out.append("- `%s`: %s" % (lay, "; ".join(tr)))
p = "/verif/DESIGN.md"; s = open(p).read()
a, b = "<!-- generated by tools/covers.py -->", "<!-- end generated -->"
i, j = s.index(a) + len(a), s.index(b)
open(p, "w").write(s[:i] + "\n" + "\n".join(out) + "\n" + s[j:])
