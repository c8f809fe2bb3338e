#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS, NA = [], []

def prop(id, title, statement, over, text, why, files, mechanism, technique=None, note=None, state=None, observe=None, na=None):
    p = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}}
    if state:
        p["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        p["anchors"]["observe_at"] = observe
    p["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    PROPS.append((p, technique, note, na))

exec(open(os.path.join(here, "tools", "props.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p, *_ in PROPS:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, nas = [], []
for p, technique, note, na in PROPS:
    if na:
        nas.append({"property": p["id"], "reason": na})
        continue
    checks.append({"property": p["id"], "quick_cmd": "bash check.sh %s quick" % p["id"],
                   "thorough_cmd": "bash check.sh %s thorough" % p["id"],
                   "technique": technique, "level": "other", "level_note": note})
m = {"version": 1, "setup_cmd": "bash check.sh build", "checks": checks, "not_applicable": nas,
     "notes": "All checks are decided by one analyser (checker/, Go) that loads /repo's current source on every run; nothing of /repo is executed. See DESIGN.md."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(here, "MANIFEST.json"), "a").write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
