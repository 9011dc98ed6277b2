"""Regenerate MANIFEST.json from the checks present."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/tools/not_applicable.json"))
TECH = json.load(open(V + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/checks/%s.py" % (V, i.lower())):
        t = TECH.get(i, TECH["default"])
        checks.append(dict(property=i, quick_cmd="python3-vt -m sa.check %s --tier quick" % i,
                           thorough_cmd="python3-vt -m sa.check %s --tier thorough" % i,
                           evidence_file="evidence/%s.json" % i, technique=t["technique"], level="other", level_note=t["note"]))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="All checks are pure source analyses run with python3-vt; /repo is only read. Known findings and repaired defects: KNOWN_FINDINGS.")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
