"""Writes MANIFEST.json from the claims below and properties.jsonl."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TABLE = "decision table extracted from MIR by path-sensitive abstract interpretation, compared cell by cell with a specification"
CLAIMS = {}
NA = {}
exec(open(os.path.join(HERE, "tools", "claims.py")).read())

ids = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks = []
for i in ids:
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd="bash check.sh %s quick" % i, thorough_cmd="bash check.sh %s thorough" % i,
                           technique=tech, level="other", level_note=note))
na = [dict(property=i, reason=NA[i]) for i in ids if i not in CLAIMS]
m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na)
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), "claimed;", len(na), "not applicable")
