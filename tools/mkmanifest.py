"""Writes MANIFEST.json from the property modules present in props/."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
NOTE = {}
NA = {}
exec(open(os.path.join(HERE, "tools", "notes.py")).read())
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "props", i.lower() + ".py")):
        t, n = NOTE.get(i, ("property-based testing (Hypothesis)", "Generated-input search; no proof."))
        checks.append(dict(property=i, quick_cmd="./check.sh %s" % i,
            thorough_cmd="./check.sh %s --tier thorough" % i,
            technique=t, level="exploration", level_note=n))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check under construction")))
m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
         notes="gggears is pure Python imported from /repo/src, so every run sees the working tree. See DESIGN.md.")
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
