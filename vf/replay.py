"""replay.py FILE: re-runs the failing inputs of a replay file against the current tree"""
import sys, json, re, tempfile, subprocess, shutil
sys.path.insert(0, "/verif/vf")
import hbuild
d = json.load(open(sys.argv[1]))
if "failures" not in d:
    print(json.dumps(d, indent=1)); sys.exit(1)
s = tempfile.mkdtemp(prefix="vf_replay_")
try:
    b, e = hbuild.build(s)
    if not b: print(e); sys.exit(1)
    rc = 0
    for f in d["failures"]:
        m = re.match(r"FAIL test=(\S+) seed=(\d+) iter=(\d+)", f)
        if not m: print(f); rc = 1; continue
        r = subprocess.run([b, "test:" + m[1], m[2], str(int(m[3]) + 1), m[3]], env=dict(hbuild.ENV, H_STDERR="1"), cwd=s)
        rc |= r.returncode
    sys.exit(1 if rc else 0)
finally: shutil.rmtree(s, ignore_errors=True)
