"""Writes properties.jsonl and MANIFEST.json from tools/props.py (single source)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS  # noqa: E402

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = ("explicit TLA+ specification: TLC model checking of the design, TLC-generated behaviours "
        "replayed into the code, recorded traces judged by TLC")


def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["quant"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None},
            }) + "\n")
    checks, na = [], []
    for p in PROPS:
        if not os.path.exists(f"{V}/checks/{p['id']}.py"):
            na.append({"property": p["id"], "reason": p.get("na", "check not built yet")})
            continue
        checks.append({
            "property": p["id"], "quick_cmd": f"bin/check {p['id']}",
            "thorough_cmd": f"VERIF_TIER=thorough bin/check {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json", "technique": TECH,
            "level": "model_checking", "level_note": p["note"]})
    json.dump({"version": 1, "setup_cmd": "bash bin/setup", "checks": checks,
               "not_applicable": na,
               "notes": "No hooks in /repo: the public API exposes the abstract state. TLA+/TLC."},
              open(f"{V}/MANIFEST.json", "w"), indent=1)


main()
