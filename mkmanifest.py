"""Regenerates MANIFEST.json from the list of built checks."""
import json, os

here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NOTES = json.load(open(os.path.join(here, "claims.json")))
checks, na = [], []
for i in ids:
    c = NOTES.get(i)
    if c and c.get("claimed"):
        checks.append(dict(
            property=i,
            quick_cmd="./check.sh %s" % i,
            thorough_cmd="VERIF_TIER=thorough ./check.sh %s" % i,
            evidence_file="evidence/%s.json" % i,
            technique=c["technique"],
            level=c["level"],
            level_note=c["note"],
        ))
    else:
        na.append(dict(property=i, reason=(c or {}).get("reason", "check not built yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
