"""writes MANIFEST.json: one check per property that has contracts"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NOTES = {}
exec(open(os.path.join(H, "tools", "notes.py")).read())
PY = "/opt/venv/bin/python check.py"
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "contracts", i.lower() + ".py")):
        checks.append({"property": i, "quick_cmd": "%s %s --tier quick" % (PY, i), "thorough_cmd": "%s %s --tier thorough" % (PY, i),
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": "contracts on the real functions; own VC generator (pyvc) over /repo's source, discharged by normal forms, z3, cvc5; counter-models replayed on the real package",
                       "level": LEVEL.get(i, "proof"), "level_note": NOTES.get(i, DEFAULT)})
    else:
        na.append({"property": i, "reason": "contracts not yet written"})
json.dump({"version": 1, "setup_cmd": "/opt/venv/bin/python check.py --selftest", "checks": checks, "not_applicable": na,
           "notes": "no hooks in /repo; fix: commits are listed in known_findings.json"}, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
