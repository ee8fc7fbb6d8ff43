#!/usr/bin/env python3
"""Regenerates MANIFEST.json from config.py and properties.jsonl."""
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, "bin"))
from config import PROPS, NA
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl")) if l.strip()]
checks = []
for i in ids:
    if i in PROPS:
        c = PROPS[i]
        checks.append(dict(property=i, quick_cmd=f"VERIF_TIER=quick bin/check.py {i}",
                           thorough_cmd=f"VERIF_TIER=thorough bin/check.py {i}",
                           technique=c["technique"], level=c.get("level", "proof"), level_note=c["note"]))
na = [dict(property=i, reason=NA.get(i, "no check yet")) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd="cargo kani --version && cargo --version && python3 -c 'import json'",
         checks=checks, not_applicable=na)
hooks = os.path.join(R, "bin", "hooks.json")
if os.path.exists(hooks):
    m["hooks"] = json.load(open(hooks))
json.dump(m, open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
