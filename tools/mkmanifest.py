"""Writes /verif/MANIFEST.json from properties.jsonl and harness/props."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
NOTE = {}
notes = os.path.join(V, "tools", "notes.json")
if os.path.exists(notes):
    NOTE = json.load(open(notes))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", "props", i + ".py")):
        checks.append({
            "property": i,
            "quick_cmd": "/opt/venv/bin/python harness/run.py %s --tier quick" % i,
            "thorough_cmd": "/opt/venv/bin/python harness/run.py %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification model-checked with TLC; traces recorded from the real code validated by TLC against it (exact arithmetic)",
            "level": "model_checking",
            "level_note": NOTE.get(i, "Abstract model exhausted by TLC; the code is bound by trace validation of every model scenario made concrete (seeded sampling inside each class). Trusts TLC, the Java override of the arithmetic (checked against its TLA+ definition by MCBF) and the recording driver."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python harness/setup.py",
     "hooks": {"guard": "VERIF_HOOKS", "enable": "no hooks were needed: every recorded quantity is the result of a public call, so the guard is never read", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "See DESIGN.md. known_findings.json lists recorded and repaired defects."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
