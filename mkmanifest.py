"""Writes MANIFEST.json from the claimed properties below."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
PROOF = ("Contracts on the real functions, re-parsed from /repo on every run; obligations generated by pyvc and "
         "discharged by ring normal form / z3 / cvc5 for all inputs; library calls are assumed contracts, floats are "
         "exact reals. Functions outside the generator's reach are checked by bounded run-time contracts, labelled "
         "bounded and not counted as proved.")
BOUND = ("Contracts on the real functions evaluated at run time on seeded generated inputs (bounded, not a proof); "
         "the functions' reliance on TensorFlow or Beam objects keeps them outside the VC generator's reach.")
# property -> level
CLAIMED = json.load(open(os.path.join(HERE, "claimed.json")))
NA = {
}
m = {
    "version": 1,
    "setup_cmd": "true",
    "checks": [],
    "not_applicable": [],
    "notes": "Each check is ./check <property>; see DESIGN.md.",
}
for p in props:
    i = p["id"]
    if i in CLAIMED:
        lvl = CLAIMED[i]
        m["checks"].append({
            "property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "technique": "contract-based deductive verification (VC generation from the real code, SMT)" if lvl == "proof"
            else "contract-based verification, bounded run-time contracts on the real code",
            "level": lvl, "level_note": PROOF if lvl == "proof" else BOUND})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
