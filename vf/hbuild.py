"""Builds the replay harness from /repo's current sources in a scratch directory."""
import os, sys, glob, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get("VF_REPO", "/repo")
H = "/verif/harness"
def sources():
    src = []
    for d in sorted(glob.glob(REPO + "/c3/lib_*")):
        for f in sorted(glob.glob(d + "/*.c")):
            if os.path.basename(f) in ("polynomials.c",): continue
            src.append(f)
    return src
def build(out):
    """returns (path of the binary, '') or (None, compiler output)"""
    os.makedirs(out, exist_ok=True)
    inc = ["-I" + REPO + "/include", "-I" + REPO + "/c3"] + ["-I" + d for d in sorted(glob.glob(REPO + "/c3/lib_*"))] + ["-I" + H]
    base = ["gcc", "-O1", "-g", "-w", "-std=gnu99", "-fsanitize=address", "-fno-omit-frame-pointer"]
    jobs = []
    for f in sources() + sorted(glob.glob(H + "/*.c")):
        o = os.path.join(out, os.path.relpath(f, "/").replace("/", "_") + ".o")
        jobs.append((base + inc + ["-c", f, "-o", o], o))
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda j: subprocess.run(j[0], capture_output=True, text=True), jobs))
    err = "".join(r.stderr for r in rs if r.returncode)
    if err: return None, err
    b = os.path.join(out, "h")
    r = subprocess.run(["gcc", "-fsanitize=address", "-o", b] + [j[1] for j in jobs] + ["-Wl,--unresolved-symbols=ignore-all", "-llapack", "-lblas", "-lm"], capture_output=True, text=True)
    if r.returncode: return None, r.stderr
    return b, ""
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:exitcode=9", OPENBLAS_NUM_THREADS="1")
if __name__ == "__main__":
    b, e = build(sys.argv[1] if len(sys.argv) > 1 else "/tmp/hb")
    print(b, e[:4000])
