"""Writes /verif/MANIFEST.json from properties.jsonl and sa.registry."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, root)
try:
    from sa.registry import CLAIMS, NOT_APPLICABLE
except ImportError:
    CLAIMS, NOT_APPLICABLE = {}, {}
ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
m = {"version": 1,
     "setup_cmd": "python3 tools/setup.py",
     "checks": [], "not_applicable": [],
     "notes": "All checks are static: they parse /repo/modepy with Python's ast on every run; nothing of modepy is imported or run."}
for i in ids:
    if i in CLAIMS:
        c = CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": f"python3 check.py {i}",
                            "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                            "technique": c["technique"], "level": "other", "level_note": c["note"]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "check not built yet")})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed", len(m["not_applicable"]), "n/a")
