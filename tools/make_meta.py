"""Write properties.jsonl and MANIFEST.json from props.py."""

import json
import os
import re

from props import MON, PROPS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]
        n = len(re.findall(r"[.](?:\s|$)", p["statement"]))
        assert n <= 3, (p["id"], n)
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": p["mechanism"],
                        "observe_at": p["observe"], "hook_needed": None},
        }) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [
        {
            "property": p["id"],
            "quick_cmd": f"bash check.sh {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough bash check.sh {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json",
            "technique": MON + p["technique"],
            "level": p["level"],
            "level_note": p["note"],
        }
        for p in PROPS
    ],
    "not_applicable": [],
    "notes": "No hooks in /repo: the monitors observe the public interface "
             "(recording operators, metrics, stand-in executables, hidden imports).",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(manifest, fh, indent=1)
    fh.write("\n")
