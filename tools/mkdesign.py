"""DESIGN.md = head + per property text + findings + planted bugs (seeded/*/meta.json)"""
import json, os, glob
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
out = open(os.path.join(here, "design_head.md")).read().rstrip() + "\n\n"
out += open(os.path.join(here, "design_props.md")).read().rstrip() + "\n\n"
k = json.load(open(os.path.join(root, "known_findings.json")))
out += "## Genuine defects found\n\nRecorded, not repaired (`known_findings.json`):\n\n"
for f in k["known"]:
    out += "* " + f.get("property", "") + ": " + (f.get("what") or f.get("text") or json.dumps(f)) + "\n"
out += "\nRepaired, one `fix:` commit each in /repo (the checks pass with them and report the\nviolation again without them):\n\n"
for f in k["fixed"]:
    out += "* " + f[len("fixed: "):] + "\n"
out += "\n## Planted bugs\n\nEach is in `seeded/<id>`; confirmed: applies, builds, passes the 1184 stable tests, its demo\nfails with it and passes without. `caught by` is the quick check's answer with the change applied.\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n"
res = {}
p = os.path.join(here, "caught.json")
if os.path.exists(p):
    res = json.load(open(p))
for d in sorted(glob.glob(os.path.join(root, "seeded", "*"))):
    i = os.path.basename(d)
    m = json.load(open(os.path.join(d, "meta.json")))
    out += "| %s | %s | %s | %s |\n" % (i, m["property"], m["needs"].replace("|", "/").replace("\n", " "), res.get(i, "?"))
out += "\n" + open(os.path.join(here, "design_tail.md")).read() if os.path.exists(os.path.join(here, "design_tail.md")) else ""
open(os.path.join(root, "DESIGN.md"), "w").write(out)
