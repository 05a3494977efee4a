#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (python3 tools/manifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deductive verification of contracts on the real code (clang IR -> VCs -> z3/cvc5); failing obligations replayed by running the real code"
exec(open(os.path.join(V, "tools", "claims.py")).read())
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3-vt pirevc/setup.py",
         checks=[dict(property=p, quick_cmd="python3-vt pirevc/check.py %s" % p, thorough_cmd="VERIF_TIER=thorough python3-vt pirevc/check.py %s" % p,
                      technique=TECH, level="proof", level_note=CLAIMS[p]) for p in props if p in CLAIMS],
         not_applicable=[dict(property=p, reason=NA.get(p, "not yet brought under contract")) for p in props if p not in CLAIMS])
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])
