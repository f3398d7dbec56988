#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in tools/props.py."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE, NOTES

with open(f"{root}/properties.jsonl", "w") as f:
    for p in PROPS:
        d = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p.get("over", ["inputs"]), "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": None},
        }
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")

m = {
    "version": 1,
    "setup_cmd": "bash check.sh --build",
    "hooks": {"guard": "none", "enable": "no hook is needed: the checks only use nyx-space's public API", "source_commits": []},
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"bash check.sh {p['id']} quick",
        "thorough_cmd": f"bash check.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "property-based testing (proptest generators and shrinking): " + p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in PROPS],
    "not_applicable": [{"property": i, "reason": r} for i, r in NOT_APPLICABLE],
    "notes": NOTES,
}
with open(f"{root}/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
