"""writes properties.jsonl and MANIFEST.json from one table"""
import json
P = []
def prop(id, title, statement, over, text, why, files, mech, note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note))
exec(open("/verif/tools/props_table.py").read())
NA = globals().get("NA", [])
with open("/verif/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
    for n in NA: f.write(json.dumps(n["p"]) + "\n")
m = dict(version=1, setup_cmd="python3-vt /verif/vf/setup.py",
    checks=[dict(property=p["id"], quick_cmd="python3-vt /verif/vf/check.py %s --tier quick" % p["id"], thorough_cmd="python3-vt /verif/vf/check.py %s --tier thorough" % p["id"],
        technique="contract-based deductive verification of the real C code (LLVM IR, per-function contracts, z3/cvc5), failed obligations replayed on the real code", level="proof", level_note=p["note"]) for p in P],
    not_applicable=[dict(property=n["p"]["id"], reason=n["reason"]) for n in NA])
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
