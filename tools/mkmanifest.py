"""writes MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification of the real source (engine.prove: function contracts, loop invariants, algebraic normal forms + z3); counterexample replay on the real code"
BOUNDED = "bounded stand-in, nothing proved: the real code against independent reference implementations on generated models (the functions involved are not yet within reach of the verifier)"
NOTES = {}
LEVEL = {}
NA = {}
exec(open(os.path.join(HERE, "tools", "levels.py")).read())
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
        continue
    if i not in NOTES:
        na.append(dict(property=i, reason="no check built yet"))
        continue
    checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i,
                       thorough_cmd="python3 check.py %s --tier thorough" % i, technique=TECH if LEVEL.get(i, "proof") == "proof" else BOUNDED,
                       level=LEVEL.get(i, "proof"), level_note=NOTES[i]))
m = dict(version=1, setup_cmd="python3-vt -c 'import z3, sympy, numpy'", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
