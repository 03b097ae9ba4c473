"""Writes MANIFEST.json: every property with a check in checks/ is claimed."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(here, "vp", "level_notes.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(here, "checks", p + ".py")):
        n = NOTES[p]
        checks.append({"property": p, "quick_cmd": "python3 checks/%s.py" % p,
                       "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": n["technique"],
                       "level": n.get("level", "model_checking"), "level_note": n["note"]})
    else:
        na.append({"property": p, "reason": NOTES.get(p, {}).get("na", "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 vp/setup.py", "checks": checks, "not_applicable": na,
     "notes": "TLA+ (TLC). Checks build drivers from /repo's working tree into .build/ (content-addressed, ignored by git)."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
