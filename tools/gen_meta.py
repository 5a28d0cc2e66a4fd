"""Regenerates properties.jsonl and MANIFEST.json from tools/props.py (run by hand after editing props.py)."""
import glob
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE, SUITE_NOTE  # noqa: E402

R = "rainbow/"
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in PROPS + [q for q, _ in NOT_APPLICABLE]:
        assert len(p["title"]) <= 80, p["title"]
        mech = [{"name": n, "where": w} for n, w in p["mechanism"]]
        d = {"id": p["id"], "title": p["title"], "statement": " ".join(p["statement"].split()),
             "quantifier": {"over": p["over"], "text": p["forall"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": mech, "observe_at": p["observe"], "hook_needed": None}}
        if p.get("state"):
            d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]]
        for fn in p["files"]:
            assert os.path.exists(os.path.join("/repo", fn)), fn
        f.write(json.dumps(d) + "\n")
checks = []
for p in PROPS:
    assert glob.glob(os.path.join(VERIF, "checks", p["id"] + "_*.py")), p["id"]
    checks.append({"property": p["id"],
                   "quick_cmd": f"bash run.sh {p['id']}",
                   "thorough_cmd": f"bash run.sh {p['id']} --thorough",
                   "evidence_file": f"evidence/{p['id']}.json",
                   "technique": "property-based testing (Hypothesis): " + p["technique"],
                   "level": "exploration",
                   "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks,
     "not_applicable": [{"property": q["id"], "reason": r} for q, r in NOT_APPLICABLE],
     "notes": SUITE_NOTE}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties,", len(NOT_APPLICABLE), "not applicable")
