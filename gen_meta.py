"""Writes properties.jsonl, MANIFEST.json and props/checks.json from the table below (run by hand, output committed)."""
import json
from meta import PROPS, NOT_APPLICABLE

props, checks, cj = [], [], {}
for p in PROPS:
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                  "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}})
    if p["id"] in NOT_APPLICABLE or not p.get("level"):
        continue
    cmd = "/opt/venv/bin/python run_check.py " + p["id"]
    checks.append({"property": p["id"], "quick_cmd": cmd, "thorough_cmd": "VERIF_TIER=thorough " + cmd,
                   "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    cj[p["id"]] = {"bounded_s": p.get("bounded_s", 30), "level": p["level"], "explanation": p["note"],
                   "assumptions": p.get("assumptions", []), "prove": p.get("prove", True)}
with open("properties.jsonl", "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
with open("MANIFEST.json", "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks,
               "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]}, f, indent=1)
    f.write("\n")
with open("props/checks.json", "w") as f:
    json.dump(cj, f, indent=1)
    f.write("\n")
