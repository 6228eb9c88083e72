"""Writes properties.jsonl and MANIFEST.json from catalog.py. Usage: python3 tools/gen.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
import catalog

lines, checks, na = [], [], []
for p in catalog.P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quantifier"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                    **({"observe_at": p["observe"]} if p["observe"] else {}), "hook_needed": None},
    }))
    if os.path.exists(os.path.join(root, "mc", "props", p["id"].lower() + ".py")):
        checks.append({
            "property": p["id"], "quick_cmd": f"./check {p['id']}", "thorough_cmd": f"VERIF_TIER=thorough ./check {p['id']}",
            "evidence_file": f"evidence/{p['id']}.json", "technique": p["technique"], "level": p["level"], "level_note": p["level_note"],
        })
    else:
        na.append({"property": p["id"], "reason": "not claimed yet: its check is not built"})
open(os.path.join(root, "properties.jsonl"), "w").write("\n".join(lines) + "\n")
json.dump({
    "version": 1,
    "setup_cmd": "./check --setup",
    "checks": checks, "not_applicable": na,
    "notes": "Pure Python: nothing to build. Checks import sd_mecha from /repo's working tree (no .pyc is trusted or written). No hooks in /repo.",
}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
