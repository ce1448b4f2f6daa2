"""Write MANIFEST.json from properties.jsonl and config.py (run from anywhere)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from config import CHECKS, LEVEL, NOT_APPLICABLE
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CHECKS:
        c = CHECKS[i]
        checks.append({
            "property": i,
            "quick_cmd": f"python3 run.py {i} --tier quick",
            "thorough_cmd": f"python3 run.py {i} --tier thorough",
            "technique": c.get("technique", "property-based testing (rapid): generated inputs against an explicit oracle, with shrinking"),
            "level": LEVEL,
            "level_note": c["note"],
        })
    else:
        na.append({"property": i, "reason": NOT_APPLICABLE[i]})
m = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. Every check is generated-input search; run.py rebuilds the check binary from /repo's working tree on each run."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "checks,", len(na), "not applicable")
