#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "tools"))
from props import PROPS, NOT_APPLICABLE
from checks import CHECKS
with open(f"{HERE}/properties.jsonl", "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(dict(
            id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["quant"]),
            why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                         observe_at=p.get("observe", []), hook_needed=None))) + "\n")
ids = {p["id"] for p in PROPS}
checks, na = [], []
for p in PROPS:
    c = CHECKS.get(p["id"])
    if c and not c.get("off"):
        checks.append(dict(property=p["id"], quick_cmd=f"python3 vf.py {p['id']}", thorough_cmd=f"VERIF_TIER=thorough python3 vf.py {p['id']} --thorough",
                           evidence_file=f"evidence/{p['id']}.json", technique=c.get("technique", "property-based testing"),
                           level="exploration", level_note=c.get("note", "")))
    else:
        na.append(dict(property=p["id"], reason=NOT_APPLICABLE.get(p["id"], "check not built yet")))
m = dict(version=1, setup_cmd="python3 tools/setup.py", checks=checks, not_applicable=na,
         notes="Every check builds what it needs from /repo's working tree into /verif/build (git-ignored), with the MinGW cross compiler, and runs it under Wine in a private prefix whose drives reach only a scratch folder, the build folder and /repo.")
json.dump(m, open(f"{HERE}/MANIFEST.json", "w"), indent=1)
open(f"{HERE}/MANIFEST.json", "a").write("\n")
print(len(PROPS), "properties,", len(checks), "checks")
