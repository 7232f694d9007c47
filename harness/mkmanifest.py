"""Writes MANIFEST.json: claimed checks are those in CLAIMED; the rest is not_applicable."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("TLC exhausts the bounded model named in DESIGN.md; its paths and seeded random scenarios are executed on the "
        "code in /repo and every recorded event is checked by TLC against the same specification. Holds for what was "
        "explored; trusts TLC, the recording driver and the stand-ins named in DESIGN.md.")
CLAIMED = json.load(open(os.path.join(HERE, "harness", "claimed.json")))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CLAIMED.get(p["id"])
    if c:
        checks.append(dict(property=p["id"], quick_cmd=f"VERIF_TIER=quick bash run.sh {p['id']}",
                           thorough_cmd=f"VERIF_TIER=thorough bash run.sh {p['id']}",
                           evidence_file=f"evidence/{p['id']}.json",
                           technique="TLA+ specification with TLC: " + c, level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=p["id"], reason="No check committed yet (work in progress)."))
json.dump(dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: everything is observed through the package's own interfaces."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")
