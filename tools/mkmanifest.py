#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from registry import PROPS, NOT_APPLICABLE
ids = [json.loads(x)["id"] for x in open(V + "/properties.jsonl")]
checks = []
for i in ids:
    if i not in PROPS:
        continue
    p = PROPS[i]
    checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="python3 check.py %s --thorough" % i,
                       technique=p.get("technique", "TLA+ specification checked with TLC; recorded traces of the code validated against it"),
                       level=p["level"], level_note=p.get("note", "")))
na = [dict(property=i, reason=NOT_APPLICABLE.get(i, "not claimed yet: no check built so far")) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="Checks build their drivers from /repo's working tree into /verif/_build; no hooks in /repo are needed."),
          open(V + "/MANIFEST.json", "w"), indent=1)
