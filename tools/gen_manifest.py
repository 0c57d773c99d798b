"""Writes MANIFEST.json from the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("contract-based deductive verification: the real functions of /repo are executed on symbolic words, every postcondition/"
        "invariant becomes an obligation discharged by ring normal forms, z3 and cvc5 for all values")
NOTE = {}
NA = {}
exec(open(os.path.join(V, "tools", "levels.py")).read())
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "checks", i + ".py")) and i not in NA:
        checks.append(dict(property=i, quick_cmd="bash check.sh %s" % i, thorough_cmd="VERIF_TIER=thorough bash check.sh %s" % i,
                           technique=TECHS.get(i, TECH), level=LEVEL.get(i, "proof"), level_note=NOTE.get(i, DEFAULT_NOTE)))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check built yet")))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
