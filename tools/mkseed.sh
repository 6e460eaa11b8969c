#!/bin/bash
# mkseed.sh ID PROP demo.c "needs" "what"   : takes the current uncommitted change of /repo as the patch, validates it, stores it, reverts it
set -e
ID=$1; PROP=$2; DEMO=$3; NEEDS=$4; WHAT=$5
D=/verif/seeded/$ID; mkdir -p $D
git -C /repo diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "no change in /repo"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
[ "$DEMO" -ef $D/demo.c ] || cp $DEMO $D/demo.c
cat > $D/demo.sh <<'EOS'
#!/bin/bash
# exit 0: behaves as specified; nonzero: the property is broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
I="-I include -I c3"; for d in c3/lib_*; do I="$I -I $d"; done
gcc -w -std=gnu99 -g $I "$D/demo.c" -o "$T/demo" -L_build/c3 -lc3 -llapack -lblas -lm -Wl,-rpath,"$PWD/_build/c3" -Wl,--unresolved-symbols=ignore-all || exit 2
cd "$T" && timeout 120 ./demo
EOS
chmod +x $D/demo.sh
python3 - "$D" "$PROP" "$NEEDS" "$WHAT" <<'EOS'
import sys, json
d, p, n, w = sys.argv[1:]
json.dump({"property": p, "needs": n, "what_it_breaks": w}, open(d + "/meta.json", "w"), indent=1)
EOS
bash /opt/vp/build.sh >/tmp/mk_build.log 2>&1 || { echo "BUILD FAILED"; tail -5 /tmp/mk_build.log; exit 1; }
bash /opt/vp/test.sh /tmp/mk_out.json >/dev/null 2>&1 || true
python3 - <<'EOS'
import json
b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open("/tmp/mk_out.json"))
base = b["stable"]; cur = set(o.get("passed") or [])
miss = [t for t in base if t not in cur] if isinstance(base, list) else base
print("tests missing:", miss[:5] if miss else "none")
EOS
set +e; (cd /repo && bash $D/demo.sh); echo "demo with bug: $? (want nonzero)"
git -C /repo checkout -q -- .
trap - EXIT
bash /opt/vp/build.sh >/tmp/mk_build.log 2>&1
(cd /repo && bash $D/demo.sh); echo "demo clean: $? (want 0)"
