"""Writes MANIFEST.json from properties.jsonl and the table of claimed checks below."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
root = os.path.join(here, "..")
exec(open(os.path.join(here, "claims.py")).read())
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
ids = [p["id"] for p in props]
m = {"version": 1, "setup_cmd": "bash run.sh --setup", "checks": [], "not_applicable": [],
     "notes": "All checks are static: they load /repo's current source, build its SSA form and decide obligations on it; nothing of routedns is executed. rdcheck -prop ID -v lists the obligations."}
for i in ids:
    if i in CLAIMS:
        t, note = CLAIMS[i]
        m["checks"].append({"property": i, "quick_cmd": "bash run.sh " + i, "technique": t, "level": "other",
                            "level_note": note, "evidence_file": f"evidence/{i}.json"})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT[i] if i in NOT else "No check has been built yet."})
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(root, "MANIFEST.json"), "a").write("\n")
