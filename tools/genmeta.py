#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props_meta.py."""
import json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from props_meta import PROPS, NOT_APPLICABLE, HOOK_COMMITS, NOTES

with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["forall"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p.get("observe", []), "hook_needed": p.get("hook")},
        }
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d, ensure_ascii=False) + "\n")

na = {x["property"] for x in NOT_APPLICABLE}
man = {
    "version": 1,
    "setup_cmd": "bash run.sh build",
    "hooks": {
        "guard": "cfg(tic_verif)",
        "enable": "run.sh builds the harness crate (path dependencies on /repo's crates) with RUSTFLAGS=\"--cfg tic_verif\"",
        "source_commits": HOOK_COMMITS,
    },
    "checks": [{
        "property": p["id"],
        "quick_cmd": "bash run.sh %s quick" % p["id"],
        "thorough_cmd": "bash run.sh %s thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": p["note"],
    } for p in PROPS if p["id"] not in na],
    "not_applicable": NOT_APPLICABLE,
    "notes": NOTES,
}
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
