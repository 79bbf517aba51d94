#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table in tools/props.py"""
import json, os, sys
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, ".."))
sys.path.insert(0, here)
import props
from checks import registry
root = os.path.join(here, "..")
ids = set()
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in props.PROPS:
        assert p["id"] not in ids and len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, ("more than three sentences", p["id"])
        ids.add(p["id"])
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}, ensure_ascii=False) + "\n")
checks = []
for p in props.PROPS:
    if p["id"] not in registry.CHECKS:
        print("no check:", p["id"])
        continue
    checks.append({"property": p["id"], "quick_cmd": "bin/check %s --tier quick" % p["id"],
                   "thorough_cmd": "bin/check %s --tier thorough" % p["id"],
                   "technique": p["technique"], "level": p.get("level", "exploration"), "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "none", "enable": "no hooks were added: everything is observed through the public headers, "
               "the programs' outputs, and link-time stand-ins for library calls", "source_commits": []},
     "checks": checks, "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in props.PROPS if "na" in p],
     "notes": "Every check builds what it needs from /repo's working tree in a scratch directory it removes. "
              "Exit 3: too little was observed to judge; exit 4: the machinery failed. See DESIGN.md."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(ids), "properties")
