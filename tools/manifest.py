"""writes MANIFEST.json: python3 tools/manifest.py  (run by hand after adding a check)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NOTE = {}
exec(open(os.path.join(V, "tools", "notes.py")).read())
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i in NOTE:
        level, note = NOTE[i]
        checks.append({"property": i, "quick_cmd": f"python3-vt check.py {i} --tier quick", "thorough_cmd": f"python3-vt check.py {i} --tier thorough",
                       "technique": "contract-based deductive verification: VC generation from the AST of the real /repo functions, discharged by z3; concrete oracle for replay",
                       "level": level, "level_note": note})
    else:
        na.append({"property": i, "reason": "machinery under construction"})
json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
