#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}

def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))

exec(open(os.path.join(ROOT, "scripts", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
        }, ensure_ascii=False) + "\n")
checks = []
na = []
for p in P:
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "./check.sh %s quick" % p["id"],
        "thorough_cmd": "./check.sh %s thorough" % p["id"],
        "technique": p["technique"], "level": "other", "level_note": p["note"],
    })
m = {"version": 1, "setup_cmd": "./check.sh build", "checks": checks, "not_applicable": na,
     "notes": "One analyser (tool/) decides every property by abstract interpretation of /repo's SSA; nothing of /repo is executed. No hooks in /repo."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")

import re, glob
d = open(os.path.join(ROOT, "DESIGN.md")).read()
rows = []
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    x = json.load(open(f))
    rows.append(" - `%s` (%s): %s. Needs: %s." % (os.path.basename(os.path.dirname(f)), x["property"], x["what_it_breaks"].rstrip("."), x["needs"].rstrip(".")))
d = re.sub("(?s)(<!-- seeded -->\n).*?(<!-- /seeded -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), d)
rows = [" - %s %s: %s" % (p["id"], p["title"], NA[p["id"]]) for p in P if p["id"] in NA]
d = re.sub("(?s)(<!-- na -->\n).*?(<!-- /na -->)", lambda m: m.group(1) + "\n".join(rows) + "\n" + m.group(2), d)
open(os.path.join(ROOT, "DESIGN.md"), "w").write(d)
