"""Writes MANIFEST.json from the check modules present in harness/"""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(V, "harness", f"p_{p.lower()}.py")):
        tech, note = NOTES[p]
        checks.append({
            "property": p,
            "quick_cmd": f"sh harness/run.sh {p}",
            "thorough_cmd": f"VERIF_TIER=thorough sh harness/run.sh {p}",
            "evidence_file": f"evidence/{p}.json",
            "technique": tech,
            "level": "model_checking",
            "level_note": note,
        })
    else:
        na.append({"property": p, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
